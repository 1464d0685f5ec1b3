"""P18: taxis serve their destinations and trip requests in order, each request exactly once."""
import itertools, math
import numpy as np
from mc import env
from mc.runner import Runner, Family, explore
from mc.nets import *
from mc import scenario as S
from mc.refsim import Model, Tie, MVeh
from mc.script import ScriptRNG


def taxi_module():
    import importlib, sys
    env.load()
    importlib.import_module("uxsim.TaxiHandler")
    return sys.modules["uxsim.TaxiHandler.TaxiHandler"]


class Req:
    def __init__(r, i, o, d, t):
        r.i, r.o, r.d, r.t = i, o, d, t
        r.on = r.off = None
        r.taxi = None


NETS = {
    "ring": ([("a", 0, 0), ("b", 100, 0), ("c", 100, 100), ("d", 0, 100)],
             [("ab", "a", "b", 101), ("bc", "b", "c", 139), ("cd", "c", "d", 83), ("da", "d", "a", 127)]),
    "two": ([("a", 0, 0), ("b", 100, 10), ("c", 90, 100)],
            [("ab", "a", "b", 101), ("ba", "b", "a", 139), ("bc", "b", "c", 83), ("cb", "c", "b", 127), ("ca", "c", "a", 173)]),
    "chord": ([("a", 0, 0), ("b", 100, 0), ("c", 120, 110), ("d", 0, 100)],
              [("ab", "a", "b", 101), ("bc", "b", "c", 139), ("cd", "c", "d", 83), ("da", "d", "a", 127), ("ac", "a", "c", 307), ("ca", "c", "a", 61), ("bd", "b", "d", 97)]),
    "exit": ([("a", 0, 0), ("b", 100, 10), ("c", 90, 100), ("x", 200, 0)],
             [("ab", "a", "b", 101), ("bc", "b", "c", 83), ("ca", "c", "a", 173), ("bx", "b", "x", 61)]),
}


def base(net, **w):
    nodes, links = NETS[net]
    s = dict(deltan=1, tmax=130, duo_update_time=11)
    s.update(w)
    dt = s["deltan"]
    s["tmax"] *= dt
    s["duo_update_time"] *= dt
    lk = [L(n, a, b, ln * dt, 20) for n, a, b, ln in links]
    return scn([N(n, x, y) for n, x, y in nodes], lk, **s)


class Sim:
    """the implementation and the reference system side by side"""

    def __init__(s, case, ctx, rng=None):
        s.ctx = ctx
        sc = base(case["net"], **case.get("world", {}))
        for l in sc["links"]:
            l.update(case.get("lk", {}).get(l["name"], {}))
        s.W = S.build(sc, rng=rng)
        s.m = Model(sc) if rng is None else None
        s.taxis = []
        for o, d, ts in case["taxis"]:
            v = s.W.addVehicle(o, d, ts, mode="taxi", departure_time_is_time_step=1)
            s.taxis.append(v)
            if s.m:
                s.m.add_veh(dict(o=o, d=d, ts=ts, taxi=True, name=v.name))
        for o, d, ts in case.get("cars", []):
            v = s.W.addVehicle(o, d, ts, departure_time_is_time_step=1)
            if s.m:
                s.m.add_veh(dict(o=o, d=d, ts=ts, name=v.name))
        s.reqs = []
        s.H = None

    def handler(s, kind, radius=None):
        T = taxi_module()
        s.kind, s.radius = kind, radius
        if kind == "nearest":
            s.H = T.TaxiHandler_nearest(s.W)
        elif kind == "radius":
            s.H = T.TaxiHandler_nearest_matching_radious(s.W, radius)
        elif kind == "random":
            s.H = T.TaxiHandler_random(s.W)
        else:
            s.H = T.TaxiHandler(s.W)

    def request(s, o, d, t, name=None):
        s.H.add_trip_request(o, d, t, name=name)
        r = Req(len(s.reqs), s.node(o), s.node(d), t)
        s.reqs.append(r)
        tr = s.H.trip_requests_all[-1]
        s.ctx.check(s.H.get_trip(tr.name) is tr and s.H.get_trip(tr) is tr, "request-name", f"get_trip({tr.name!r}) does not return the request just added")

    def node(s, name):
        return s.m.nd[name] if s.m else s.W.get_node(name)

    def assign(s, i, k):
        s.H.assign_taxi(s.taxis[k], s.H.trip_requests_all[i])
        s.assigned(i, k)

    def assigned(s, i, k):
        r = s.reqs[i]
        r.taxi = k
        if s.m:
            v = s.m.vd[s.taxis[k].name]
            v.calls.append(r)
            s.m.add_dest(v, r.o)

    def step(s, n=1):
        t = getattr(s.W, "T", 0)
        n = min(n, s.W.TSIZE - t) if hasattr(s.W, "TSIZE") else n
        s.W.exec_simulation(duration_t2=n * s.W.DELTAT)
        if s.m:
            while s.m.T < s.W.T:
                s.m.step()
                s.ctx.transitions += 1
                s.ctx.states.add(s.m.state_key())

    def done(s):
        return hasattr(s.W, "T") and s.W.T >= s.W.TSIZE

    def check_requests(s):
        W, m, ctx = s.W, s.m, s.ctx
        for r, tr in zip(s.reqs, s.H.trip_requests_all):
            exp = [r.on, r.off, s.taxis[r.taxi].name if r.taxi is not None else None]
            act = [tr.get_taxi_time, tr.arrival_time, tr.taxi.name if tr.taxi is not None else None]
            d = S.diff(exp, act, f"request {r.i} [get on, arrival, taxi]", tol=1e-9)
            ctx.check(d is None, "request-record", f"at step {W.T}: expected vs reported {d}")
        left = [r.i for r in s.reqs if r.taxi is None]
        ctx.check([s.H.trip_requests_all.index(t) for t in s.H.trip_requests] == left, "open-requests", f"open requests {[t.name for t in s.H.trip_requests]}, expected {left}")
        for v in s.taxis:
            mv = m.vd[v.name]
            d = S.diff([mv.state, mv.d.name if mv.d else None, [x.name for x in mv.dests]], [v.state, v.dest.name if v.dest is not None else None, [x.name for x in v.dest_list]], f"taxi {v.name} [state, dest, dest_list]")
            ctx.check(d is None, "taxi-destinations", f"at step {W.T}: expected vs actual {d}")

    def check_tables(s):
        H, W, ctx = s.H, s.W, s.ctx
        q = s.reqs
        dn = W.DELTAN

        def av(x):
            return sum(x) / len(x) if x else 0
        fin = [r for r in q if r.off is not None]
        on = [r for r in q if r.on is not None]
        exp = dict(total_trips=len(q) * dn, completed_trips=len(fin) * dn, average_waiting_time=av([r.on - r.t for r in on]),
                   average_invehicle_time=av([r.off - r.on for r in fin]), average_travel_time=av([r.off - r.t for r in fin]))
        df = H.basic_to_pandas()
        d = S.diff(exp, {k: float(df[k][0]) for k in df}, "basic", tol=1e-9)
        ctx.check(d is None, "table-basic", f"expected vs actual {d}")
        df = H.trips_to_pandas()

        def f(x):
            return None if x is None or isinstance(x, float) and math.isnan(x) else x if isinstance(x, str) else float(x)
        rows = [[f(x) for x in df[k]] for k in ("orig", "dest", "depart_time", "get_taxi_time", "arrival_time", "travel_time", "waiting_time", "used_taxi")]
        erow = [[r.o.name for r in q], [r.d.name for r in q], [r.t for r in q], [r.on for r in q], [r.off for r in q], [r.off - r.t if r.off is not None else None for r in q],
                [r.on - r.t if r.on is not None else None for r in q], [s.taxis[r.taxi].name if r.taxi is not None else None for r in q]]
        d = S.diff(erow, rows, "trips", tol=1e-9)
        ctx.check(d is None, "table-trips", f"expected vs actual {d}")

    def check_traces(s):
        o, a = S.obs_model(s.m), S.observe(s.W)
        for k in o:
            d = S.diff(o[k], a[k], k)
            s.ctx.check(d is None, f"trace:{k}", f"reference vs actual {d}")
        s.ctx.traces += 1
        s.ctx.outcome([S.key({n: v["route"] for n, v in o["veh"].items()}), [(r.on, r.off, r.taxi) for r in s.reqs]])

    def dispatch(s):
        """one call of the built-in matching, judged and mirrored"""
        W, m, ctx, H = s.W, s.m, s.ctx, s.H
        if not hasattr(W, "T"):
            W.finalize_scenario()
        vac = [k for k, v in enumerate(s.taxis) if v.state == "run" and v.dest is None]
        before = list(H.trip_requests)
        pos = {}
        for k in vac:
            v = s.taxis[k]
            l = v.link
            f = v.x / l.length
            pos[k] = (l.start_node.x * (1 - f) + l.end_node.x * f, l.start_node.y * (1 - f) + l.end_node.y * f)
        H.assign_trip_request_to_taxi()
        now = W.T * W.DELTAT
        for tr in before:
            i = H.trip_requests_all.index(tr)
            r = s.reqs[i]
            dist = {k: math.hypot(pos[k][0] - tr.orig.x, pos[k][1] - tr.orig.y) for k in vac}
            ok = [k for k in vac if s.kind != "radius" or dist[k] <= s.radius]
            border = s.kind == "radius" and any(abs(dist[k] - s.radius) < 1e-6 for k in vac)
            if tr.taxi is None:
                ctx.check(tr in H.trip_requests, "request-lost", f"request {i} neither assigned nor open")
                ctx.check(r.t > now or not ok or border, "unmatched", f"t={now}: request {i} left although taxis {ok} are available")
                continue
            ctx.check(tr not in H.trip_requests, "assigned-and-open", f"request {i} is assigned but still open")
            k = s.taxis.index(tr.taxi)
            ctx.check(r.t <= now, "too-early", f"t={now}: request {i} of time {r.t} assigned")
            if not ctx.check(k in vac, "not-vacant", f"t={now}: request {i} assigned to taxi {k}, vacant are {vac}"):
                continue
            if s.kind != "random":
                ctx.check(dist[k] <= min(dist[j] for j in vac) + 1e-6, "not-nearest", f"t={now}: request {i} assigned to taxi {k} at distance {dist[k]}: {dist}")
            if s.kind == "radius":
                ctx.check(dist[k] <= s.radius + 1e-6, "outside-radius", f"t={now}: request {i} assigned to taxi {k} at distance {dist[k]} > {s.radius}")
            vac.remove(k)
            s.assigned(i, k)
            ctx.count("matches")


def run_auto(case, ctx):
    try:
        s = Sim(case, ctx)
        s.handler(case["kind"], case.get("radius"))
        for o, d, t in case["reqs"]:
            s.request(o, d, t * s.W.DELTAT)
        if case.get("early"):
            s.dispatch()
        while not s.done():
            s.step(case["every"])
            if not s.done():
                s.dispatch()
            s.check_requests()
            if s.W.T % 4 == 0 or s.done():
                s.check_tables()
        s.check_traces()
    except Tie:
        ctx.skipped += 1


def run_random(case, ctx):
    """every shuffle of the vacant taxis"""
    T = taxi_module()
    orig = T.random

    def one(ch):
        class R(ScriptRNG):
            def seed(r, *a):
                pass
        T.random = R(ch)
        try:
            run_auto(case, ctx)
        finally:
            T.random = orig
    explore(one, ctx, bound=case["bound"])


def run_manual(case, ctx):
    """an explicit history of dispatch operations on possibly busy taxis"""
    try:
        s = Sim(case, ctx)
        s.handler("manual")
        for o, d, t in case["reqs"]:
            s.request(o, d, t)
        ops = sorted(case["ops"], key=lambda x: x[0])
        for at, op, *a in ops:
            if at > 0 and getattr(s.W, "T", 0) < at:
                s.step(at - getattr(s.W, "T", 0))
            if op == "assign":
                s.assign(*a)
            elif op in ("dest", "destobj", "first"):
                k, d = a
                v = s.taxis[k]
                if op == "first":
                    v.add_dest(d, order=0)
                    s.m.add_dest(s.m.vd[v.name], s.m.nd[d], 0)
                else:
                    v.add_dest(d if op == "dest" else s.W.get_node(d))
                    s.m.add_dest(s.m.vd[v.name], s.m.nd[d])
            elif op == "dests":
                k, ds = a
                s.taxis[k].add_dests(ds)
                for d in ds:
                    s.m.add_dest(s.m.vd[s.taxis[k].name], s.m.nd[d])
            s.ctx.transitions += 1
        while not s.done():
            s.step(case.get("every", 9))
            s.check_requests()
        s.check_tables()
        s.check_traces()
        if case.get("complete"):
            # strongly connected network, enough time: everybody assigned is served
            for r in s.reqs:
                if r.taxi is not None:
                    ctx.check(r.off is not None, "never-served", f"request {r.i} assigned to taxi {r.taxi} not served until {s.W.TMAX} s")
    except Tie:
        ctx.skipped += 1


def near(t, ts):
    return any(abs(t - x) < 1e-6 for x in ts)


def run_draws(case, ctx):
    """random route choice of the simulator: every draw sequence of the bound; life cycle of requests from the vehicles' own records"""
    def one(ch):
        s = Sim(case, ctx, rng=ScriptRNG(ch))
        s.handler(case["kind"], case.get("radius"))
        for o, d, t in case["reqs"]:
            s.request(o, d, t)
        while not s.done():
            s.step(case["every"])
            if not s.done():
                s.dispatch()
        W = s.W
        for r, tr in zip(s.reqs, s.H.trip_requests_all):
            if tr.taxi is None:
                continue
            v = tr.taxi
            end = {}     # node -> times at which the taxi stood there (found at the end of a link or gone to a link starting there by the next step)
            old = -1
            for t, l, x in zip(v.log_t, v.log_link, v.log_x):
                if l != -1:
                    l = W.get_link(l)
                    if l is not old and old != -1:
                        end.setdefault(l.start_node.name, []).append(t - W.DELTAT)
                    if abs(x - l.length) < 1e-6:
                        end.setdefault(l.end_node.name, []).append(t - W.DELTAT)
                old = l
            if tr.get_taxi_time is not None:
                ctx.check(near(tr.get_taxi_time, end.get(tr.orig.name, [])) or tr.get_taxi_time >= W.TMAX - 2 * W.DELTAT, "pickup-elsewhere", f"request {r.i} picked up at {tr.get_taxi_time}, taxi was at {tr.orig.name} at {end.get(tr.orig.name)}")
            if tr.arrival_time is not None:
                ctx.check(near(tr.arrival_time, end.get(tr.dest.name, [])) or tr.arrival_time >= W.TMAX - 2 * W.DELTAT, "dropoff-elsewhere", f"request {r.i} dropped at {tr.arrival_time}, taxi was at {tr.dest.name} at {end.get(tr.dest.name)}")
                first = min((t for t in end.get(tr.dest.name, []) if t > tr.get_taxi_time + 1e-6), default=None)
                ctx.check(first is None or near(tr.arrival_time, [first]), "passed-destination", f"request {r.i} dropped at {tr.arrival_time}, taxi passed at {first}")
                ctx.check(r.t <= tr.get_taxi_time + 1e-6 < tr.arrival_time, "order", f"request {r.i}: {r.t}, {tr.get_taxi_time}, {tr.arrival_time}")
        ctx.traces += 1
        ctx.outcome([(tr.get_taxi_time, tr.arrival_time) for tr in s.H.trip_requests_all])
    explore(one, ctx, bound=case["bound"])


def families(tier):
    big = tier == "thorough"
    auto, rand, man, drw = [], [], [], []
    TAX = {"ring": [[("a", None, 0)], [("a", None, 0), ("c", None, 1)], [("a", "c", 0), ("a", None, 0), ("b", None, 3)]],
           "two": [[("a", None, 0)], [("a", None, 0), ("c", None, 1)], [("b", None, 0), ("b", None, 0), ("b", "a", 2)]],
           "chord": [[("a", None, 0)], [("d", None, 0), ("b", None, 1)], [("a", None, 0), ("a", "d", 1), ("c", None, 0)]],
           "exit": [[("a", "b", 0)], [("a", None, 0), ("c", "a", 2)]]}
    for net in NETS:
        ns = [n[0] for n in NETS[net][0] if n[0] != "x"]
        od = [(o, d) for o in ns for d in ns if o != d]
        R1 = [[(o, d, t)] for o, d in od for t in (0, 7)]
        R2 = [[(*od[i], 0), (*od[j], t)] for i in range(len(od)) for j in range(len(od)) for t in (0, 13)]
        R3 = [[(*od[i], 9), (*od[j], 2), (*od[(i + j) % len(od)], 2)] for i in range(len(od)) for j in range(0, len(od), 2)]
        for tx in TAX[net]:
            for reqs in R1 + (R2 if big else R2[::9]) + (R3 if big else R3[::7]):
                for kind, rad in (("nearest", None), ("radius", 70), ("radius", 115)):
                    if kind == "radius" and len(reqs) == 1 and not big:
                        continue
                    for every in (1, 7) if big else (1,) if len(reqs) % 2 else (7,):
                        auto.append(dict(net=net, taxis=tx, reqs=reqs, kind=kind, radius=rad, every=every, early=len(reqs) == 2))
            for reqs in R3[::3] if big else R3[::11]:
                auto.append(dict(net=net, taxis=tx, reqs=reqs, kind="nearest", every=3, world=dict(deltan=5), cars=[(ns[0], ns[2], k) for k in range(8)]))
                auto.append(dict(net=net, taxis=tx, reqs=reqs, kind="nearest", every=3, world=dict(gradual=True, no_cyclic=True), cars=[(ns[0], ns[2], k) for k in range(8)]))
                rand.append(dict(net=net, taxis=tx, reqs=reqs, kind="random", every=5, bound=3 if big else 1))
                if net != "exit" and (big or reqs is R3[0]):
                    drw.append(dict(net=net, taxis=tx, reqs=reqs, kind="nearest", every=4, bound=2 if big else 1, world=dict(hard=False, tmax=40), cars=[(ns[0], ns[2], 2), (ns[1], ns[0], 3)]))
        # manual histories
        if net == "exit":
            continue
        tx = [(ns[0], None, 0), (ns[1], ns[0], 1)]
        reqs = [(ns[0], ns[1], 0), (ns[1], ns[2], 0), (ns[0], ns[2], 0), (ns[2], ns[1], 5)]
        perms = [p for n in (2, 3, 4) for p in itertools.permutations(range(4), n)]
        for p in perms:
            for times in ((3,) * 4, (3, 4, 10, 30), (0, 0, 20, 21)) if big or len(p) < 4 else ((3, 4, 10, 30),):
                for taxis in (itertools.product((0, 1), repeat=len(p)) if big else [(0,) * len(p), tuple(i % 2 for i in range(len(p)))]):
                    man.append(dict(net=net, taxis=tx, reqs=reqs, ops=[[times[j], "assign", i, taxis[j]] for j, i in enumerate(p)], complete=True, world=dict(tmax=300)))
        alpha = [("dest", ns[0]), ("destobj", ns[1]), ("first", ns[2]), ("first", ns[1]), ("dests", [ns[1], ns[1], ns[2]])]
        for n in (1, 2, 3) if big else (1, 2):
            for seq in itertools.product(alpha, repeat=n):
                for times in ((0, 0, 0), (2, 9, 9), (6, 7, 8), (0, 3, 17)):
                    man.append(dict(net=net, taxis=tx, reqs=reqs[:1], ops=[[times[j], op, 0, a] for j, (op, a) in enumerate(seq)] + [[12, "assign", 0, 0]], complete=True, world=dict(tmax=300)))
    for c in (auto, man):
        for x in c:
            x.setdefault("world", {})
        c += frac(c, 5 if big else 13)
    drw += frac(drw, 3)
    return [Family("dispatch", auto, run_auto, note="built-in nearest and radius matching: networks x taxi sets x request sequences x dispatch intervals, implementation and reference system in lockstep"),
            Family("shuffle", rand, run_random, note="random matching with every shuffle of the bound"),
            Family("history", man, run_manual, note="all assignment orders of up to four requests to (busy) taxis at several times, all add_dest sequences of the bound"),
            Family("draws", drw, run_draws, note="random route choice: every draw sequence of the bound; pick-up and drop-off places from the vehicles' own logs")]


RUNNER = Runner("P18", "model_checking",
                "All request sequences, taxi sets, dispatch intervals, assignment orders and random draws of the bound; the taxi-extended reference transition system runs in lockstep with the implementation "
                "(its choices of taxis are judged, then mirrored); distinct = distinct vehicle routes and request histories.",
                families, ["Python engine (C++ mode refuses taxis)", "requests with different origin and destination", "equally distant taxis: any of them is accepted"])
