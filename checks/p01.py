"""P01: conservation of vehicles and the trip life cycle."""
import itertools
from mc.runner import ScriptedRunner, Family, explore
from mc.nets import *
from mc import scenario as S, script

ORDER = {"home": 0, "wait": 1, "run": 2, "end": 3, "abort": 3}


class Monitor:
    """Invariants of the externally visible state, evaluated after every time step."""

    def __init__(s, W, scn, ctx, eng):
        s.W, s.scn, s.ctx, s.eng = W, scn, ctx, eng
        s.prev = {}
        s.dn = W.DELTAN
        s.n0 = len(W.VEHICLES)
        s.pca = {l.name: 0 for l in W.LINKS}
        s.pcd = {l.name: 0 for l in W.LINKS}
        s.onlink = {}

    def bad(s, sig, msg):
        s.ctx.fail(f"{s.eng}:{sig}", f"T={s.W.T} {msg}")

    def step(s):
        W, ctx, dn = s.W, s.ctx, s.dn
        st = {n: str(v.state) for n, v in W.VEHICLES.items()}
        if len(st) != s.n0:
            s.bad("vehicle-count", f"{len(st)} vehicles, scenario has {s.n0}")
        for n, v in W.VEHICLES.items():
            # W.T is the next step: everything due before it has been processed
            if st[n] == "home" and v.departure_time * W.DELTAT < (W.T - 1) * W.DELTAT + 1e-6:
                s.bad("not-departed", f"vehicle {n} due at step {v.departure_time} is still at home")
            if st[n] != "home" and v.departure_time > W.T:
                s.bad("departed-early", f"vehicle {n} due at step {v.departure_time} is {st[n]}")
        for n, x in st.items():
            if x not in ORDER:
                s.bad("state", f"vehicle {n} in state {x}")
            p = s.prev.get(n, "home")
            if ORDER[x] < ORDER[p] or (ORDER[p] == 3 and x != p):
                s.bad("lifecycle", f"vehicle {n} went {p} -> {x}")
            if p == "home" and x in ("run", "end", "abort"):
                s.bad("lifecycle", f"vehicle {n} went {p} -> {x} in one step")
        living = set(W.VEHICLES_LIVING)
        running = set(W.VEHICLES_RUNNING)
        if living != {n for n, x in st.items() if x not in ("end", "abort")}:
            s.bad("living-registry", f"{sorted(living)} vs states {st}")
        if running != {n for n, x in st.items() if x == "run"}:
            s.bad("running-registry", f"{sorted(running)} vs states {st}")
        where = {}
        for n, v in W.VEHICLES.items():
            if st[n] == "run":
                if v.link is None:
                    s.bad("no-link", f"running vehicle {n} is on no link")
                else:
                    where.setdefault(v.link.name, []).append(n)
                    if not -1e-9 <= v.x <= v.link.length + 1e-9:
                        s.bad("position", f"{n} at {v.x} on a link of length {v.link.length}")
            elif v.link is not None:
                s.bad("ghost-link", f"{n} in state {st[n]} still on {v.link.name}")
        ended = {n for n in st if st[n] in ("end", "abort") and s.prev.get(n) not in ("end", "abort")}
        entered = {n for n in st if st[n] in ("run", "end", "abort") and s.prev.get(n, "home") in ("home", "wait")}
        tot_in = tot_out = 0
        for l in W.LINKS:
            ca, cd = l.cum_arrival[-1], l.cum_departure[-1]
            k = len(where.get(l.name, []))
            if abs(ca - cd - k * dn) > 1e-6:
                s.bad("link-balance", f"{l.name}: arrivals {ca} - departures {cd} != {k} platoons of {dn} on it")
            if abs(l.num_vehicles - k * dn) > 1e-6:
                s.bad("num-vehicles", f"{l.name}.num_vehicles={l.num_vehicles}, {k * dn} on it")
            if s.eng == "py":
                names = [v.name for v in l.vehicles]
                if sorted(names) != sorted(where.get(l.name, [])):
                    s.bad("link-list", f"{l.name} lists {names}, vehicles say {where.get(l.name)}")
            s.da = getattr(s, "da", {})
            tot_in += ca - s.pca[l.name]
            tot_out += cd - s.pcd[l.name]
            if ca < s.pca[l.name] or cd < s.pcd[l.name]:
                s.bad("curve", f"{l.name} cumulative curve decreased")
        # per-node conservation
        for nd in W.NODES:
            out = sum(l.cum_arrival[-1] - s.pca[l.name] for l in nd.outlinks.values())
            inn = sum(l.cum_departure[-1] - s.pcd[l.name] for l in nd.inlinks.values())
            gen = sum(dn for n in entered if W.VEHICLES[n].orig.name == nd.name)
            fin = sum(dn for n in ended if (s.onlink.get(n) and s.onlink[n][1] == nd.name))
            if s.onlink is not None and abs(inn - fin + gen - out) > 1e-6:
                s.bad("node-balance", f"{nd.name}: in {inn}, finished {fin}, generated {gen}, out {out}")
        for l in W.LINKS:
            s.pca[l.name], s.pcd[l.name] = l.cum_arrival[-1], l.cum_departure[-1]
        s.onlink = {n: (v.link.name, v.link.end_node.name) for n, v in W.VEHICLES.items() if st[n] == "run"}
        s.prev = st
        ctx.state((tuple(sorted(st.items())), tuple(sorted((k, tuple(v)) for k, v in where.items())), tuple(round(W.VEHICLES[n].x, 4) for n in sorted(running))))
        ctx.transitions += 1

    def final(s):
        W = s.W
        dead = {n.name for n in W.NODES if not n.outlinks}
        for n, v in W.VEHICLES.items():
            x = str(v.state)
            last = [l for t, l in v.log_t_link if not isinstance(l, str)]
            if x == "end":
                if last and last[-1].end_node.name != v.dest.name:
                    s.bad("wrong-end", f"{n} ended at {last[-1].end_node.name}, destination {v.dest.name}")
                if v.travel_time < 0 or v.arrival_time < 0:
                    s.bad("completed-no-time", f"{n}: {v.travel_time} {v.arrival_time}")
                if abs(v.travel_time - (v.arrival_time - v.departure_time) * W.DELTAT) > 1e-6:
                    s.bad("travel-time", f"{n}: {v.travel_time} != ({v.arrival_time}-{v.departure_time})*{W.DELTAT}")
            elif x == "abort":
                if last[-1].end_node.name not in dead:
                    s.bad("abort-not-dead-end", f"{n} aborted at {last[-1].end_node.name}")
                if v.travel_time != -1 or v.arrival_time != -1:
                    s.bad("abort-time", f"{n}: {v.travel_time} {v.arrival_time}")
            else:
                if v.travel_time != -1:
                    s.bad("unfinished-time", f"{n} {x}: {v.travel_time}")
        W.analyzer.basic_analysis()
        comp = sum(W.DELTAN for v in W.VEHICLES.values() if str(v.state) == "end")
        if abs(W.analyzer.trip_completed - comp) > 1e-6 or abs(W.analyzer.trip_all - len(W.VEHICLES) * W.DELTAN) > 1e-6:
            s.bad("trip-totals", f"reported {W.analyzer.trip_completed}/{W.analyzer.trip_all}, actual {comp}/{len(W.VEHICLES) * W.DELTAN}")


def drive(scn, ctx, cpp, rng=None):
    W = S.build(scn, bool(cpp), rng)
    W.finalize_scenario()
    mon = Monitor(W, scn, ctx, "cpp" if cpp else "py")
    while W.check_simulation_ongoing():
        W.exec_simulation(duration_t2=W.DELTAT)
        mon.step()
    mon.final()
    ctx.outcome(tuple((n, str(v.state), float(v.travel_time), tuple((float(t), S.lname(l)) for t, l in v.log_t_link)) for n, v in W.VEHICLES.items()))
    ctx.traces += 1
    return W


def run_late(case, ctx):
    """vehicles added between two pieces of a run, departing before, at or after the moment they are added"""
    scn, adds = case["scn"], case["adds"]
    for cpp in (0, 1):
        W = S.build(scn, bool(cpp))
        W.finalize_scenario()
        mon = Monitor(W, scn, ctx, "cpp" if cpp else "py")
        k = 0
        while W.check_simulation_ongoing():
            for at, o, d, t in adds:
                if at == k:
                    v = W.addVehicle(o, d, t)
                    if str(v.state) != "home":
                        mon.bad("added-state", f"vehicle added at step {k} for t={t} is {v.state}")
                    mon.n0 += 1
            W.exec_simulation(duration_t2=W.DELTAT)
            k += 1
            mon.step()
        if len(W.VEHICLES) != len(scn.get("vehicles", [])) + len(adds):
            mon.bad("vehicle-count", f"{len(W.VEHICLES)} vehicles, {len(scn['vehicles']) + len(adds)} added")
        mon.final()
        ctx.outcome(tuple((n, str(v.state), float(v.travel_time)) for n, v in W.VEHICLES.items()))
        ctx.traces += 1


def run(case, ctx):
    for cpp in (0, 1):
        drive(case, ctx, cpp)


def run_all(case, ctx):
    """every outcome of every random draw, bounded number of departures from the default draw"""
    scn = dict(case["scn"], world=dict(case["scn"]["world"], hard=False))

    def py(ch):
        r = script.ScriptRNG(ch)
        drive(scn, ctx, 0, r)
    explore(py, ctx, bound=case["bound"], cap=case.get("cap"))

    def cpp(ch):
        r = script.CppScript(ch, grid=2)
        drive(scn, ctx, 1)
        r.finish()
    explore(cpp, ctx, bound=case["cbound"], cap=case.get("cap"))


def networks(dn, lanes):
    """name -> (nodes, links, od list); includes loops, dead ends, parallel links, isolated nodes"""
    k = 80 * dn
    nets = {}
    nets["line"] = ([N("a"), N("b", 1), N("c", 2)], [L("ab", "a", "b", k, lanes=lanes), L("bc", "b", "c", k + 3, lanes=1)], [("a", "c"), ("b", "c"), ("a", "b")])
    nets["merge"] = ([N("a"), N("d"), N("b"), N("c")], [L("ab", "a", "b", k, lanes=lanes), L("db", "d", "b", k, merge=2), L("bc", "b", "c", k, lanes=lanes)], [("a", "c"), ("d", "c"), ("b", "c")])
    nets["diverge"] = ([N("a"), N("b"), N("c"), N("e")], [L("ab", "a", "b", k, lanes=lanes), L("bc", "b", "c", k, cap_in=0.2), L("be", "b", "e", k, u=10)], [("a", "c"), ("a", "e"), ("b", "e")])
    nets["loop"] = ([N("a"), N("b"), N("c")], [L("ab", "a", "b", k, lanes=lanes), L("bc", "b", "c", k), L("ca", "c", "a", k + 7)], [("a", "c"), ("b", "a"), ("c", "b")])
    nets["deadend"] = ([N("a"), N("b"), N("c"), N("x")], [L("ab", "a", "b", k), L("bc", "b", "c", k * 2, lanes=lanes), L("bx", "b", "x", k, u=10)], [("a", "c"), ("a", "x"), ("x", "a")])
    nets["parallel"] = ([N("a"), N("b"), N("c")], [L("ab1", "a", "b", k, lanes=lanes), L("ab2", "a", "b", k + 11), L("bc", "b", "c", k, cap_out=0.3)], [("a", "c"), ("a", "b"), ("c", "a")])
    nets["isolated"] = ([N("a"), N("b"), N("c"), N("z")], [L("ab", "a", "b", k, lanes=lanes), L("ba", "b", "a", k), L("bc", "b", "c", k)], [("a", "c"), ("a", "z"), ("b", "a")])
    return nets


def families(tier):
    big = tier == "thorough"
    A, B = [], []
    pats = list(itertools.product(range(3), repeat=3))
    pats = [p for p in pats if sum(p) and (big or sum(p) in (1, 3, 4, 6))]
    for dn in (1, 5):
        for lanes in (1, 2) if not big else (1, 2, 3):
            for nn, (nodes, links, ods) in networks(dn, lanes).items():
                for p in pats:
                    for sig in (None, [4 * dn, 6 * dn]):
                        if sig and not big and sum(p) < 4:
                            continue
                        ns = [dict(n) for n in nodes]
                        if sig:
                            ns[-2 if nn in ("line", "isolated") else 2 if nn == "merge" else 1].update(signal=sig)
                        # p[i] platoons of od i at steps 0 and 2
                        vs = []
                        for i, c in enumerate(p):
                            vs += platoons(ods[i][0], ods[i][1], (c, 0, c))
                        for ta in (1, 0) if nn in ("deadend", "isolated") else (1,):
                            vs2 = [dict(v, trip_abort=ta) for v in vs] if ta == 0 else vs
                            A.append(scn(ns, links, vehicles=vs2, deltan=dn, tmax=36 * dn, duo_update_time=8 * dn))
    # trip_abort=0 is a Python-engine option
    for lanes in (1, 2):
        for nn, (nodes, links, ods) in networks(5, lanes).items():
            for p in ((1, 1, 0), (1, 1, 1), (2, 1, 1)):
                vs = []
                for i, c in enumerate(p):
                    vs += platoons(ods[i][0], ods[i][1], (c,))
                B.append(dict(scn=scn(nodes, links, vehicles=vs, deltan=5, tmax=100 if not big else 130, duo_update_time=40), bound=3 if not big else 5, cbound=2 if not big else 3, cap=4000 if not big else 40000))
    A = [c for c in A if all("trip_abort" not in v for v in c["vehicles"])]
    C = []
    for lanes in (1, 2):
        for nn in ("deadend", "isolated"):
            nodes, links, ods = networks(5, lanes)[nn]
            for p in pats:
                vs = []
                for i, c in enumerate(p):
                    vs += platoons(ods[i][0], ods[i][1], (c, c), trip_abort=0)
                C.append(scn(nodes, links, vehicles=vs, deltan=5, tmax=150, duo_update_time=40))
    D = []
    for dn, rt in ((1, 1), (5, 1), (3, 0.7)):
        w = dn * rt
        for nn in ("merge", "loop", "deadend", "isolated"):
            nodes, links, ods = networks(dn, 1)[nn]
            for base in ((), (0, 1)):
                vs = []
                for i in base:
                    vs += platoons(ods[i][0], ods[i][1], (1, 0, 1))
                for a1 in range(0, 14, 1 if big else 3):
                    for off in (-a1, -2, -1, 0, 1, 2):
                        if a1 + off < 0:
                            continue
                        for a2 in (None, a1, a1 + 4):
                            adds = [(a1, *ods[0], (a1 + off) * w)]
                            if a2 is not None:
                                adds.append((a2, *ods[1], (a1 + off) * w))
                            D.append(dict(scn=scn(nodes, links, vehicles=vs, deltan=dn, tmax=36 * w, duo_update_time=8 * w, **({"reaction_time": rt} if rt != 1 else {})), adds=adds))
    return [Family("late-vehicles", D, run_late, cpp=True, note="vehicles added between two pieces, departure before, at and after the current time"),
            Family("networks", A, run, cpp=True, note="7 topologies (loops, dead ends, parallel links, unreachable destinations) x departure patterns, both engines, invariants after every step"),
            Family("no-abort", C, lambda c, x: drive(c, x, 0), note="dead ends with trip abort switched off"),
            Family("all-draws", B, run_all, cpp=True, note="same topologies, every random draw enumerated up to the stated number of deviations", timeout=400)]


RUNNER = ScriptedRunner("P01", "model_checking",
                        "Seven small topologies x all departure patterns (deterministic mode) and all random-draw sequences with a bounded number of deviations (random mode); "
                        "invariants evaluated on the real engine's state after every time step; distinct = distinct complete vehicle histories.",
                        families, ["random draws bounded to the stated number of deviations from the first alternative", "wait/run/end registries read between time steps"])
