"""P13: vehicle records (logs, routes, positions, vehicle tables) tell what each vehicle did, whenever they are read."""
import math
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from mc.refsim import Model, Tie


def coords(scn):
    nd = {n["name"]: (n.get("x", 0), n.get("y", 0)) for n in scn["nodes"]}
    return {l["name"]: (nd[l["from"]], nd[l["to"]], l["length"]) for l in scn["links"]}


def place(c, link, x):
    if link in (-1, None):
        return [-1, -1]
    (x0, y0), (x1, y1), n = c[link]
    return [x0 + (x1 - x0) * x / n, y0 + (y1 - y0) * x / n]


def pos_from_log(c, log, t):
    at = [r for r in log if r[0] == t]
    before = [r for r in log if r[0] <= t]
    if not before:
        return [-1, -1]
    r = at[0] if at else before[-1]
    return place(c, r[2], r[3])


def expected(m, scn, ts, late=()):
    c = coords(scn)
    o = {}
    veh, gps, trip = [], [], []
    for v in m.vehs:
        log = [list(r) for r in v.log]
        shown = [r for r in log if r[1] != "home"] if v.name in late else log
        ent = [[t, l] for t, l in v.tlink]
        links = [l for t, l in ent if l not in ("home", "end")]
        tin = [t for t, l in ent if l not in ("home", "end")]
        fin = ent[-1][0] if ent[-1][1] == "end" else -1
        xy = {str(t): pos_from_log(c, shown, t) for t in ts}
        now = place(c, v.link.name if v.link else None, v.x)
        sp = [r[5] for r in log if r[1] == "run"]
        o[v.name] = dict(state=v.state, log=shown, ent=ent, route=[links, tin + [fin]], route0=[links, tin], route2=[links, [ent[0][0]] + tin + [fin]], xy=xy, now=now)
        for r in log:
            if r[1] != "home":
                ln = r[2] if r[2] != -1 else {"wait": "waiting_at_origin_node", "abort": "trip_aborted"}.get(r[1], "trip_end")
                veh.append([v.name, m.dn, v.o.name, v.d.name, r[0], ln, r[3], r[4], r[5]])
            if r[1] == "run":
                gps.append([v.name, r[0]] + place(c, r[2], r[3]) + [r[5]])
        trip.append([v.name, v.o.name, v.d.name, v.dep * m.dt, v.state, v.tt, sum(sp) / len(sp) if sp else math.nan, v.dist])
    return dict(veh=o, vehicles=veh, gps=gps, trip=trip)


def plain(x):
    if isinstance(x, str) or x is None:
        return x
    return float(x)


def rows(df):
    return [[plain(x) for x in r] for r in df.itertuples(index=False)]


def actual(W, ts, late=()):
    o = {}
    for n, v in W.VEHICLES.items():
        log = [list(r) for r in S.veh_log(v)]
        if n in late:
            log = [r for r in log if r[1] != "home"]
        ent = [[float(t), S.lname(l)] for t, l in v.log_t_link]

        def route(**k):
            r, t = v.traveled_route(**k)
            return [[S.lname(l) for l in r.links], [float(x) for x in t]]
        # positions of a late vehicle before its creation: no log in Python, backfilled home in C++ -> same answer
        o[n] = dict(state=str(v.state), log=log, ent=ent, route=route(), route0=route(include_arrival_time=False), route2=route(include_departure_time=True),
                    xy={str(t): [float(x) for x in v.get_xy_coords(t)] for t in ts}, now=[float(x) for x in v.get_xy_coords()])
    a = W.analyzer
    return dict(veh=o, vehicles=rows(a.vehicles_to_pandas()), gps=rows(a.gps_like_log_to_pandas()), trip=rows(a.vehicle_trip_to_pandas()))


def compare(ctx, exp, got, where):
    d = S.diff(exp, got)
    if d:
        ctx.fail("record:" + d.split("/")[1].split("[")[0].split(":")[0], f"{where}: expected vs read {d}")
    return d is None


def goto(W, k):
    if k == 0:
        W.finalize_scenario()
    elif W.TMAX is None or not W.finalized or W.T < k:
        W.exec_simulation(until_t=(k - 1) * W.DELTAT)


_cache = {}


def model_snaps(scn, cpp, ts):
    key = (repr(scn), cpp)
    if key not in _cache:
        _cache.clear()
        m = Model(scn, order="queue" if cpp else "id")
        snaps = [expected(m, scn, ts)]
        keys = []
        try:
            while m.T < m.tsize:
                m.step()
                snaps.append(expected(m, scn, ts))
                keys.append(m.state_key())
        except Tie:
            snaps = None
        _cache[key] = (snaps, keys)
    return _cache[key]


def grid(scn):
    dt = scn["world"]["deltan"] * scn["world"].get("reaction_time", 1)
    n = int(scn["world"]["tmax"] / dt + 1e-9)
    return [k * dt / 2 for k in range(-3, 2 * n + 4) if k * dt / 2 != -1]


def run_reads(case, ctx):
    scn, cpp, k1 = case["scn"], case["cpp"], case["k1"]
    ts = grid(scn)
    snaps, keys = model_snaps(scn, cpp, ts)
    if snaps is None:
        ctx.skipped += 1
        return
    for k in keys:
        ctx.states.add(hash(k))
    n = len(snaps) - 1
    eng = "C++" if cpp else "Python"
    for k2 in range(k1, n + 1):
        W = S.build(scn, bool(cpp))
        for k in dict.fromkeys((k1, k2, n)):
            goto(W, k)
            if W.T != k:
                ctx.fail("clock", f"{eng}: T={W.T} instead of {k}")
                return
            ctx.transitions += 1
            if not compare(ctx, snaps[k], actual(W, ts), f"{eng}, read at steps {[x for x in (k1, k2, n) if x <= k]}"):
                return
        ctx.traces += 1
        ctx.execs += 1
    ctx.outcome(S.key(snaps[n]["vehicles"]))


def run_late(case, ctx):
    """a vehicle added after k1 steps, read at every later step (one run)"""
    scn, cpp, k1 = case["scn"], case["cpp"], case["k1"]
    ts = grid(scn)
    m = Model(scn, order="queue" if cpp else "id")
    W = S.build(scn, bool(cpp))
    late = ("late0", "late1")
    try:
        while m.T < m.tsize:
            if m.T == k1:
                goto(W, k1)
                for i, od in enumerate((("o", "d"), ("m", "d"))):
                    v = dict(o=od[0], d=od[1], ts=k1 + i * 2, name=late[i])
                    m.add_veh(v)
                    S.add_vehicle(W, v)
                if k1 % 2:
                    if not compare(ctx, expected(m, scn, ts, late), actual(W, ts, late), f"{'C++' if cpp else 'Python'} vehicle just added at step {k1}"):
                        return
            m.step()
            ctx.states.add(hash(m.state_key()))
            if m.T > k1:
                goto(W, m.T)
                ctx.transitions += 1
                if (m.T - k1) % case["every"] == 0 or m.T == m.tsize:
                    if not compare(ctx, expected(m, scn, ts, late), actual(W, ts, late), f"{'C++' if cpp else 'Python'} vehicle added at step {k1}, step {m.T}"):
                        return
    except Tie:
        ctx.skipped += 1
        return
    ctx.traces += 1
    ctx.outcome(S.key({n: v["log"] for n, v in actual(W, ts, late)["veh"].items()}))


def run_interval(case, ctx):
    """the logging interval changes what is recorded, never the traffic"""
    scn, cpp = case["scn"], case["cpp"]
    base = dict(scn, world=dict(scn["world"], logint=1))
    dt = scn["world"]["deltan"] * scn["world"].get("reaction_time", 1)
    W0, W1 = S.simulate(base, bool(cpp)), S.simulate(scn, bool(cpp))
    li = scn["world"]["logint"]
    ctx.traces += 2
    ctx.transitions += W0.T
    a, b = S.observe(W0), S.observe(W1)
    for n in a["veh"]:
        full = a["veh"][n].pop("log")
        got = b["veh"][n].pop("log")
        want = [] if li == -1 else [r for i, r in enumerate(full) if round(r[0] / dt) % li == 0 or r[1] in ("end", "abort")]
        d = S.diff(want, got)
        ctx.check(d is None, "interval:log", lambda: f"logging interval {li}, vehicle {n}: {d}")
        for kw in (dict(), dict(include_arrival_time=False), dict(include_departure_time=True)):
            (r0, t0), (r1, t1) = W0.VEHICLES[n].traveled_route(**kw), W1.VEHICLES[n].traveled_route(**kw)
            ctx.check([S.lname(x) for x in r0.links] == [S.lname(x) for x in r1.links] and [float(x) for x in t0] == [float(x) for x in t1],
                      "interval:route", lambda: f"logging interval {li}: traveled_route({kw}) of vehicle {n} is {r1, t1}, with full logging {r0, t0}")
    d = S.diff(a, b)
    ctx.check(d is None, "interval:traffic", lambda: f"logging interval {li} changed the traffic: {d}")
    for l in W0.LINKS:
        l1 = W1.get_link(l.name)
        for t0, t1 in ((0, 20 * dt), (5 * dt, 40 * dt), (0, 1000 * dt)):
            x, y = float(l.average_travel_time_between(t0, t1)), float(l1.average_travel_time_between(t0, t1))
            ctx.check(x == y or (x != x and y != y), "interval:travel-time", lambda: f"average_travel_time_between({t0},{t1}) of {l.name}: {y} instead of {x} with logging interval {li}")
    for f in ("basic_to_pandas", "od_to_pandas", "link_to_pandas"):
        d = S.diff(rows(getattr(W0.analyzer, f)()), rows(getattr(W1.analyzer, f)()))
        ctx.check(d is None, "interval:report", lambda: f"{f} with logging interval {li}: {d}")
    t0, t1 = rows(W0.analyzer.vehicle_trip_to_pandas()), rows(W1.analyzer.vehicle_trip_to_pandas())
    d = S.diff([r[:6] + r[7:] for r in t0], [r[:6] + r[7:] for r in t1])
    ctx.check(d is None, "interval:report", lambda: f"vehicle_trip_to_pandas with logging interval {li}: {d}")
    ctx.outcome(S.key([li, b["veh"]]))


def nets(big):
    out = []
    # two routes, congestion, signal
    for dn, rt in ((1, 1), (5, 1), (2, 1.5), (3, 0.7)):
        dt = dn * rt
        nodes = [N("o", 0, 0), N("m", 50, 50, signal=[3 * dt, 2 * dt]), N("k", 50, -70), N("d", 130, 10)]
        links = [L("om", "o", "m", 61 * dt), L("md", "m", "d", 45 * dt, cap_out=0.4), L("ok", "o", "k", 83 * dt), L("kd", "k", "d", 52 * dt), L("mk", "m", "k", 30 * dt)]
        out.append(("two", scn(nodes, links, demands=[["o", "d", 0, 8 * dt, 0.8], ["m", "d", 3 * dt, 10 * dt, 0.3]], deltan=dn, reaction_time=rt, tmax=26 * dt, duo_update_time=6 * dt)))
    # dead end abort, waiting forever, not departing before the end
    nodes = [N("o", 0, 0), N("m", 100, 0), N("x", 200, 50), N("d", 200, -50), N("z", -100, 0)]
    links = [L("om", "o", "m", 53), L("mx", "m", "x", 47), L("md", "m", "d", 38)]
    veh = [dict(o="o", d="d", ts=1), dict(o="o", d="z", ts=2), dict(o="o", d="z", ts=4, trip_abort=0), dict(o="o", d="d", ts=5), dict(o="m", d="x", ts=0),
           dict(o="o", d="d", ts=18), dict(o="o", d="d", ts=20), dict(o="m", d="x", ts=21)]
    out.append(("abort", scn(nodes, links, vehicles=veh, tmax=20, duo_update_time=5)))
    # two lanes, a node closed to through traffic for a while
    nodes = [N("o", 0, 0), N("m", 30, 40), N("d", 130, 40)]
    links = [L("om", "o", "m", 70, lanes=2), L("md", "m", "d", 60, lanes=2, cap_in=0.6)]
    out.append(("lanes", scn(nodes, links, vehicles=platoons("o", "d", [3, 2, 0, 2]) + platoons("m", "d", [1, 0, 1]), tmax=22, duo_update_time=5)))
    # enforced route that uses a link twice
    nodes = [N("o", 0, 0), N("m", 100, 0), N("d", 200, 30)]
    links = [L("om", "o", "m", 45), L("mo", "m", "o", 25), L("md", "m", "d", 33)]
    veh = [dict(o="o", d="d", ts=0, route=["om", "mo", "om", "md"]), dict(o="o", d="d", ts=1, route=["om", "md"]), dict(o="m", d="d", ts=2, route=["mo", "om", "md"])]
    out.append(("twice", scn(nodes, links, vehicles=veh, tmax=24, duo_update_time=6)))
    return out


def families(tier):
    big = tier == "thorough"
    reads, late, interval = [], [], []
    for name, s in nets(big):
        dt = s["world"]["deltan"] * s["world"].get("reaction_time", 1)
        n = int(s["world"]["tmax"] / dt + 1e-9)
        for cpp in (0, 1):
            for k1 in range(n + 1):
                if big or k1 <= n:
                    reads.append(dict(scn=s, cpp=cpp, k1=k1))
            if name in ("two", "lanes"):
                for k1 in range(n):
                    late.append(dict(scn=s, cpp=cpp, k1=k1, every=1 if big else 3))
            for li in ((-1, 2, 3, 7) if not cpp else (-1,)):
                interval.append(dict(scn=dict(s, world=dict(s["world"], logint=li)), cpp=cpp))
    # intervals: longer horizons and platoon patterns
    for dn, rt in ((1, 1), (5, 1), (2, 1.5), (3, 0.7)):
        dt = dn * rt
        for pat in itertools.product((0, 1, 2), repeat=3 if not big else 4):
            nodes = [N("o"), N("m", 50, 50), N("k", 50, -50), N("d", 100, 0)]
            links = [L("om", "o", "m", 101 * dt), L("md", "m", "d", 90 * dt, cap_in=0.3), L("ok", "o", "k", 117 * dt), L("kd", "k", "d", 97 * dt)]
            for cpp in (0, 1):
                for li in ((-1, 2, 5) if not cpp else (-1,)):
                    interval.append(dict(scn=scn(nodes, links, vehicles=platoons("o", "d", pat) + platoons("m", "d", [1, 1]), deltan=dn, reaction_time=rt, tmax=40 * dt, duo_update_time=6 * dt, logint=li), cpp=cpp))
    return [Family("reads", reads, run_reads, cpp=True, note="every pair of reading instants of a run, then the end; logs, routes, coordinates at half steps, vehicle tables"),
            Family("late", late, run_late, cpp=True, note="two vehicles added after every number of steps"),
            Family("interval", interval, run_interval, cpp=True, note="logging intervals, incl. disabled logging")]


RUNNER = Runner("P13", "model_checking",
                "All pairs of instants at which the records of a running simulation are read, all insertion instants of late vehicles and all logging intervals of the list, on both engines; every record "
                "compared with the reference transition system's history; distinct = distinct vehicle histories.",
                families, ["logging intervals above 1 in the Python engine only (documented restriction of C++ mode)", "floating point tolerance 1e-6"])
