"""P28: what is printed during and after a simulation states the actual state of the simulation, when and only when it was asked for."""
import itertools, os, re, sys
from mc import env
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S

EPS = 1e-6
NUM = r"(-?[\d.]+|nan|inf)"
PROGRESS = re.compile(rf"^\s*{NUM} s\|\s*{NUM} vehs\|\s*{NUM} m/s\|\s*{NUM} s$")


class Tape:
    """what both engines write to the standard output"""

    def __enter__(self):
        sys.stdout.flush()
        self.path = os.path.join(env.scratch(), f"out{os.getpid()}")
        self.old, self.sys = os.dup(1), sys.stdout
        fd = os.open(self.path, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND, 0o600)
        os.dup2(fd, 1)
        os.close(fd)
        sys.stdout = os.fdopen(os.dup(1), "w", buffering=1)
        return self

    def text(self):
        sys.stdout.flush()
        return open(self.path).read()

    def __exit__(self, *e):
        sys.stdout.flush()
        self.lines = open(self.path).read().splitlines()
        sys.stdout.close()
        sys.stdout = self.sys
        os.dup2(self.old, 1)
        os.close(self.old)
        os.unlink(self.path)


def running(W):
    """(number of vehicles on the links, their average speed)"""
    vs = [v.v for v in W.VEHICLES.values() if v.state == "run"]
    return len(vs) * W.DELTAN, sum(vs) / len(vs) if vs else 0


def field(lines, head):
    got = [l.strip()[len(head):].strip() for l in lines if l.strip().startswith(head)]
    return got


def number(s):
    m = re.search(r"-?[\d.]+(e[-+]?\d+)?|nan|inf", s)
    return float(m.group()) if m else float("nan")


def compare(ctx, got, exp, tag):
    """printed progress lines"""
    ok = len(got) == len(exp) and all(abs(g[0] - e[0]) <= .5 + EPS and abs(g[1] - e[1]) <= .5 + EPS and abs(g[2] - e[2]) <= .05 + EPS for g, e in zip(got, exp))
    ctx.check(ok, "progress", lambda: f"{tag}: printed {[g[:3] for g in got]}, expected {exp}")


def run(case, ctx):
    cpp = bool(case["cpp"])
    ref = S.build(case["scn"], cpp=cpp)
    ref.finalize_scenario()
    states = []
    for k in range(ref.TSIZE):
        ref.exec_simulation(duration_t2=ref.DELTAT)
        states.append(running(ref))
    n, dt = ref.TSIZE, ref.DELTAT
    every = max(1, int(case["every"] / dt + EPS))
    modes = case["modes"]  # print mode of each part
    with Tape() as tape:
        W = S.build(case["scn"], cpp=cpp, world_extra=dict(print_mode=case["first"], show_progress=case["progress"], show_progress_deltat=case["every"], name="w"))
        done, parts = 0, []
        mode = case["first"]
        for m, upto in zip(modes, case["cuts"] + [n]):
            if m != mode:
                W.change_print_mode(m)
                mode = m
            at = len(tape.text().splitlines())
            if upto == n:
                W.exec_simulation()
            else:
                W.exec_simulation(duration_t2=(upto - done) * dt)
            parts.append((at, m, done, upto))
            done = upto
        if case["again"]:
            at = len(tape.text().splitlines())
            W.exec_simulation()
            parts.append((at, mode, n, n))
        if case["force"] is not None:
            at = len(tape.text().splitlines())
            W.analyzer.print_simple_stats(force_print=case["force"])
            parts.append((at, None, n, n))
    L = tape.lines
    ctx.transitions += n
    # between the parts
    ends = [p[0] for p in parts[1:]] + [len(L)]
    for (at, m, a, b), end in zip(parts, ends):
        out = L[at:end]
        tag = f"steps {a}..{b} of {n}, print_mode {m}, show_progress {case['progress']} every {case['every']}"
        if m is None:
            out_stats(ctx, W, out, 1 if mode or case["force"] else 0, f"print_simple_stats(force_print={case['force']}) in mode {mode}")
            continue
        if not m:
            ctx.check(out == [], "silent", lambda: f"{tag}: printed {out}")
            continue
        got = [tuple(float(x) for x in PROGRESS.match(l).groups()) for l in out if PROGRESS.match(l)]
        exp = [(0, 0, 0)] if a == 0 and b > 0 else []
        if case["progress"]:
            exp += [(k * dt, *states[k]) for k in range(a, b) if k > 0 and k % every == 0]
            if b == n:
                exp.append((n * dt, *states[-1]))
        compare(ctx, got, exp, tag)
        head = [i for i, l in enumerate(out) if l.strip().startswith("time|")]
        ctx.check(len(head) == (a == 0 and b > 0), "header", lambda: f"{tag}: {out}")
        ctx.check(sum("simulation finished" in l for l in out) == (b == n), "finished", lambda: f"{tag}: {out}")
        if a == 0:
            setting(ctx, W, out, tag)
        else:
            ctx.check(not any("simulation setting" in l for l in out), "setting", lambda: f"{tag}: {out}")
        ctx.count("lines", len(got))
    d = S.diff(S.observe(ref), S.observe(W), tol=0)
    ctx.check(d is None, "printing-changed-simulation", lambda: f"{d}")
    ctx.traces += 1
    ctx.outcome(repr(states))
    ctx.state(repr((case["cuts"], modes, case["progress"], case["every"], states[:4])))


def setting(ctx, W, out, tag):
    exp = {"simulation duration:": W.TMAX, "number of vehicles:": len(W.VEHICLES) * W.DELTAN, "total road length:": sum(l.length for l in W.LINKS), "timestep size:": W.DELTAT, "platoon size:": W.DELTAN,
           "number of timesteps:": W.TSIZE, "number of platoons:": len(W.VEHICLES), "number of links:": len(W.LINKS), "number of nodes:": len(W.NODES)}
    for k, v in exp.items():
        got = field(out, k)
        ctx.check(len(got) == 1 and abs(number(got[0]) - v) < 1e-6, "setting", lambda: f"{tag}: {k} {got}, expected {v}")
    ctx.check(field(out, "scenario name:") == [W.name], "setting", lambda: f"{tag}: {field(out, 'scenario name:')}")


def out_stats(ctx, W, out, times, tag):
    """printed results against the vehicles and their logs"""
    V = list(W.VEHICLES.values())
    done = [v for v in V if v.state == "end"]
    tt = [v.travel_time for v in done]
    exp = {"number of completed trips:": (len(done) * W.DELTAN, 0)}
    A = W.analyzer
    exp["average speed:"] = (A.average_speed, .05)
    exp["total distance traveled:"] = (A.total_distance_traveled, .05)
    if done:
        exp["total travel time:"] = (sum(tt) * W.DELTAN, .05)
        exp["average travel time of trips:"] = (sum(tt) / len(tt), .05)
        exp["average delay of trips:"] = (A.average_delay, .05)
        exp["delay ratio:"] = (A.average_delay / (sum(tt) / len(tt)), .0005)
    heads = ["average speed:", "number of completed trips:", "total travel time:", "average travel time of trips:", "average delay of trips:", "delay ratio:", "total distance traveled:"]
    for h in heads:
        got = field(out, h)
        n = times if h in exp else 0
        if not ctx.check(len(got) == n, "statistics-printed", lambda: f"{tag}: {h} {got}, expected {n} times"):
            continue
        for g in got:
            v, tol = exp[h]
            ctx.check(abs(number(g) - v) <= tol + 1e-6, "statistics-value", lambda: f"{tag}: {h} {g}, expected {v}")
            if h.startswith("number of"):
                ctx.check(abs(number(g.split("/")[1]) - len(V) * W.DELTAN) < EPS, "statistics-value", lambda: f"{tag}: {h} {g}, expected {len(V) * W.DELTAN} trips")
    ctx.count("values", len(exp) * times)


def run_taxi(case, ctx):
    env.load()
    import uxsim.TaxiHandler.TaxiHandler
    T = sys.modules["uxsim.TaxiHandler.TaxiHandler"]
    W = S.build(case["scn"])
    H = getattr(T, case["handler"])(W, *case["args"])
    W.user_function = lambda w: H.assign_trip_request_to_taxi() if w.T % 3 == 0 else None
    taxis = [W.addVehicle(o, None, 0, mode="taxi", name=f"taxi{i}") for i, o in enumerate(case["taxis"])]
    for o, d, t in case["requests"]:
        H.add_trip_request(o, d, t)
    for cut in case["cuts"] + [None]:
        if cut is None:
            W.exec_simulation()
        else:
            W.exec_simulation(until_t=cut)
        with Tape() as tape:
            H.print_stats()
        L = tape.lines
        df = H.trips_to_pandas()
        ctx.transitions += 1
        r = [x for x in df.itertuples()]
        num = lambda v: v is not None and v == v
        fin = [x for x in r if num(x.arrival_time)]
        got = [x for x in r if num(x.get_taxi_time)]
        ave = lambda v: sum(v) / len(v) if v else 0
        exp = {"total trip requests:": (len(case["requests"]) * W.DELTAN, EPS), "completed trip requests:": (len(fin) * W.DELTAN, EPS), "completed trip requests ratio:": (len(fin) / len(r) if r else 0, .005),
               "average number of completed requests per taxi:": (len(fin) / len(taxis) if taxis else 0, .005),
               "average waiting time:": (ave([x.waiting_time for x in got]), .05), "average in-vehicle time:": (ave([x.arrival_time - x.get_taxi_time for x in fin]), .05), "average trip time:": (ave([x.travel_time for x in fin]), .05)}
        for h, (v, tol) in exp.items():
            g = field(L, h)
            ctx.check(len(g) == 1 and abs(number(g[0]) - v) <= tol + 1e-6, "taxi-statistics", lambda: f"{h} {g}, expected {v} at {cut}")
        ctx.state(repr((len(fin), len(got), len(r))))
    ctx.outcome(repr(exp))


def nets():
    yield "line", [N("a"), N("b", 100), N("c", 200)], [L("ab", "a", "b", 200, 20), L("bc", "b", "c", 100, 10)], ("a", "c")
    yield "diamond", [N("a"), N("b", 100, 50), N("c", 100, -50), N("d", 200)], [L("ab", "a", "b", 100, 20), L("ac", "a", "c", 120, 20, lanes=2), L("bd", "b", "d", 100, 10), L("cd", "c", "d", 80, 10)], ("a", "d")


def families(tier):
    big = tier == "thorough"
    prog, stats, taxi = [], [], []
    i = 0
    for name, nodes, links, od in nets():
        for dn, rt, n in ((1, 1, 14), (2, 1, 8), (1, .7, 16), (1, .2, 40), (5, 1, 4)):
            dt = dn * rt
            for pat in ((1, 1, 1), (3, 0, 2), (0, 0, 1), ()):
                vs = platoons(*od, pat, gap=1)
                sc = dict(world=dict(deltan=dn, reaction_time=rt, tmax=n * dt, duo_update_time=5 * dt), nodes=nodes, links=links, vehicles=vs)
                for cpp in (0, 1):
                    cuts = [[]] + [[k] for k in (1, 2, n // 2, n - 1)] + [[2, n // 2 + 1], [1, 2]]
                    for c in cuts:
                        for first, modes in [(f, list(m)) for f in (0, 1) for m in itertools.product((0, 1), repeat=len(c) + 1)]:
                            for progress in (0, 1):
                                for every in (dt, 3 * dt, .4 * dt, 5 * dt + .1 * dt):
                                    i += 1
                                    if not big and (i * 7 + i // 16) % (3 if pat == (3, 0, 2) else 11):
                                        continue
                                    prog.append(dict(scn=sc, cpp=cpp, cuts=c, first=first, modes=modes, progress=progress, every=every, again=i % 2, force=(None, 0, 1)[i % 3]))
    for pat in itertools.product(range(3), repeat=5 if big else 4):
        for n in (6, 25, 60):
            for dn, rt in ((1, 1), (5, 1), (1, .7)):
                for cpp in (0, 1):
                    sc = dict(world=dict(deltan=dn, reaction_time=rt, tmax=n * dn * rt, duo_update_time=5 * dn * rt), nodes=nodes, links=links, vehicles=platoons(*od, pat, gap=2))
                    for first in (0, 1):
                        for force in (0, 1):
                            stats.append(dict(scn=sc, cpp=cpp, cuts=[], first=first, modes=[first], progress=0, every=10, again=0, force=force))
    tn = [N("a"), N("b", 100), N("c", 200)]
    tl = [L("ab", "a", "b", 100, 20), L("ba", "b", "a", 100, 20), L("bc", "b", "c", 100, 10), L("cb", "c", "b", 100, 10)]
    for handler, args in (("TaxiHandler_random", []), ("TaxiHandler_nearest", []), ("TaxiHandler_nearest_matching_radious", [150])):
        for taxis in ((), ("a",), ("b", "c")):
            for reqs in ((), (("a", "c", 0),), (("c", "a", 3), ("a", "b", 5), ("b", "c", 9))):
              for dn in (1, 5):
                sc = dict(world=dict(deltan=dn, tmax=120, duo_update_time=20), nodes=tn, links=tl)
                taxi.append(dict(scn=sc, handler=handler, args=args, taxis=list(taxis), requests=[list(r) for r in reqs], cuts=[1, 20, 45]))
    return [Family("progress", prog, run, cpp=True, timeout=200, note="splits of the simulation, print modes of each part, progress intervals, platoon sizes and timestep lengths"),
            Family("statistics", stats, run, cpp=True, timeout=200, note="printed results for demand patterns and horizons (finished and unfinished trips)"),
            Family("taxis", taxi, run_taxi, timeout=200, note="printed taxi statistics during and after the simulation")]


RUNNER = Runner("P28", "model_checking",
                "exhaustive enumeration of splits of the simulation, print modes of every part, progress intervals and demand patterns in both engines; every printed line is compared with the state of a silent simulation driven step by step",
                families, ["the computation times are not compared", "printed numbers are compared within their rounding"])
