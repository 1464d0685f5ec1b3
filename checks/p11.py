"""P11: demand specifications create exactly the requested vehicles."""
import itertools, math
from fractions import Fraction as F
from mc.runner import Runner, Family, explore, h64
from mc.nets import *
from mc import scenario as S
from mc.refsim import Model, Tie
from mc.script import ScriptRNG


def small(**w):
    return scn([N("o"), N("m", 50, 0), N("d", 100, 0)], [L("om", "o", "m", 200), L("md", "m", "d", 200)], **w)


# ------------------------------------------------------------------ point-to-point demand
def run_point(case, ctx):
    dn, rt, t0, t1, kind, amount, cpp, via = (case[k] for k in ("dn", "rt", "t0", "t1", "kind", "amount", "cpp", "via"))
    dt = F(str(rt)) * dn
    t0f, t1f, a = F(str(t0)), F(str(t1)), F(str(amount))
    flow = a if kind == "flow" else a / (t1f - t0f)
    W = S.build(small(deltan=dn, reaction_time=rt, tmax=float(60 * dt)), bool(cpp))
    kw = {kind: float(amount)}
    if via == "coord":
        W.adddemand_point2point(1, 2, 99, -3, float(t0), float(t1), attribute="x", **kw)
    elif via == "positional":
        W.adddemand("o", "d", float(t0), float(t1), *((float(amount), -1) if kind == "flow" else (-1, float(amount))), "x")
    else:
        W.adddemand(W.get_node("o"), W.get_node("d"), float(t0), float(t1), attribute="x", **kw)
    exp = []
    k0, k1 = math.floor(t0f / dt), math.floor(t1f / dt)
    n = 0
    for k in range(k0, k1):
        tot = math.floor(flow * dt * (k - k0 + 1) / dn)
        exp += [k] * (tot - n)
        n = tot
    got = [v.departure_time for v in W.VEHICLES.values()]
    who = "cpp" if cpp else "py"
    ctx.check(got == exp, f"{who}:departures", f"{who} demand {kind}={amount} over [{t0},{t1}) with deltan={dn} dt={float(dt)}: {len(got)} vehicles at steps {got[:12]}..., exactly {len(exp)} at {exp[:12]}... were requested")
    for v in W.VEHICLES.values():
        ctx.check(v.orig.name == "o" and v.dest.name == "d" and v.attribute == "x" and str(v.state) == "home" and v.name in W.VEHICLES_LIVING, f"{who}:vehicle", f"{v.name}: {v.orig} {v.dest} {v.attribute} {v.state}")
        ctx.check(abs(v.departure_time_in_second - v.departure_time * float(dt)) < 1e-6, f"{who}:departure-seconds", f"{v.departure_time_in_second} vs step {v.departure_time}")
    ctx.transitions += len(got)
    ctx.state((tuple(got), dn, rt))
    ctx.outcome((tuple(got), dn, rt))


# ------------------------------------------------------------------ sequences of additions
OPS = ["auto", "auto2", "A", "A-rename", "1", "2-rename", "demand", "late", "sec"]


def apply_op(W, op, dt):
    if op == "auto":
        return [W.addVehicle("o", "d", 3, departure_time_is_time_step=1)]
    if op == "auto2":
        return [W.addVehicle("m", "d", 2 * dt, auto_rename=True)]
    if op == "A":
        return [W.addVehicle("o", "d", 4 * dt, name="A")]
    if op == "A-rename":
        return [W.addVehicle("o", "m", 4 * dt, name="A", auto_rename=True)]
    if op == "1":
        return [W.addVehicle("o", "d", 0, name="1")]
    if op == "2-rename":
        return [W.addVehicle("o", "d", 1 * dt, name="2", auto_rename=True)]
    if op == "late":
        return [W.addVehicle("o", "m", 30 * dt, name="L" + str(len(W.VEHICLES)))]
    if op == "sec":
        return [W.addVehicle("m", "d", 6.7 * dt)]
    before = set(W.VEHICLES)
    W.adddemand("o", "d", 2 * dt, 8 * dt, volume=2 * W.DELTAN)
    return [v for n, v in W.VEHICLES.items() if n not in before]


DEP = {"auto": ("o", "d", 3), "auto2": ("m", "d", 2), "A": ("o", "d", 4), "A-rename": ("o", "m", 4), "1": ("o", "d", 0), "2-rename": ("o", "d", 1), "late": ("o", "m", 30), "sec": ("m", "d", 6)}


def run_names(case, ctx):
    seq, cpp, dn, rt = case["seq"], case["cpp"], case["dn"], case["rt"]
    who = "cpp" if cpp else "py"
    dt = dn * rt
    W = S.build(small(deltan=dn, reaction_time=rt, tmax=80 * dt), bool(cpp))
    have = {}      # name -> (orig, dest, step) expected registry
    for i, op in enumerate(seq):
        auto = str(len(have))
        want_name = {"A": "A", "A-rename": "A", "1": "1", "2-rename": "2", "late": "L" + auto}.get(op, auto)
        err = op in ("A", "1", "late") and want_name in have     # automatic names evade explicit ones
        try:
            vs = apply_op(W, op, dt)
            ok = True
        except ValueError:
            ok, vs = False, []
        if not ctx.check(ok == (not err), f"{who}:name-conflict", f"{who} op {i} {op} of {seq}: {'accepted' if ok else 'rejected'}, existing names {sorted(have)}"):
            return
        if err:
            pass
        elif op == "demand":
            ctx.check(len(vs) == 2, f"{who}:demand-size", f"{len(vs)} vehicles for two platoons")
            for k, v in enumerate(vs):
                ctx.check(v.name == str(len(have)) or str(len(have)) in have and v.name not in have, f"{who}:name", f"named {v.name} among {sorted(have)}")
                ts = (4, 7)[k]
                have[v.name] = ("o", "d", ts)
        else:
            nm = vs[0].name
            if want_name in have and op in ("auto", "sec"):
                ctx.check(nm not in have, f"{who}:name", f"named {nm}")
            elif want_name in have:
                ctx.check(nm.startswith(want_name + "_renamed") and nm not in have, f"{who}:rename", f"renamed to {nm}")
            else:
                ctx.check(nm == want_name, f"{who}:name", f"named {nm}, expected {want_name}")
            have[nm] = DEP[op]
        got = {n: (v.orig.name, v.dest.name, v.departure_time) for n, v in W.VEHICLES.items()}
        ctx.check(got == have and list(W.VEHICLES) == list(have) and set(W.VEHICLES_LIVING) == set(have), f"{who}:registry", lambda: f"{who} after {seq[:i + 1]}: registry {got}, expected {have}")
        ctx.check(all(v.name == n for n, v in W.VEHICLES.items()) and len({v.id for v in W.VEHICLES.values()}) == len(have), f"{who}:identity", "names or ids inconsistent")
        ctx.transitions += 1
        ctx.state((who, tuple(seq[:i + 1])))
    W.exec_simulation()
    for n, v in W.VEHICLES.items():
        ctx.check(v.name in have and str(v.state) == "end" and v.arrival_time > v.departure_time, f"{who}:served", f"{n} {v.state}")
        t = [float(x) for x in v.log_t]
        ctx.check(v.log_t_link[0][1] == "home" and abs(v.log_t_link[1][0] - (have[n][2] + 1) * dt) <= (len(have) + 1) * dt + 1e-6 and v.log_t_link[1][0] >= have[n][2] * dt - 1e-9, f"{who}:departs-on-time", lambda: f"{n}: {v.log_t_link} for step {have[n][2]}")
    ctx.outcome(tuple(sorted(have.items())))


# ------------------------------------------------------------------ areas and node sets
def area_world(cpp, rng, dn=1, rt=1):
    ns = [N("a", 0, 0), N("b", 10, 0), N("c", 0, 10), N("s", 5, 5), N("t", 100, 0), N("u", 110, 0), N("x", 100, 10), N("far", 400, 400)]
    # s: only inlinks (no trip can start), x: only outlinks (no trip can end)
    ls = [L("ab", "a", "b", 50), L("bc", "b", "c", 50), L("ca", "c", "a", 50), L("bs", "b", "s", 50), L("bt", "b", "t", 200), L("tu", "t", "u", 50), L("ut", "u", "t", 50), L("tb", "t", "b", 200), L("xt", "x", "t", 50), L("uf", "u", "far", 300), L("fu", "far", "u", 300)]
    return S.build(scn(ns, ls, deltan=dn, reaction_time=rt, tmax=600), bool(cpp), rng)


XY = dict(a=(0, 0), b=(10, 0), c=(0, 10), s=(5, 5), t=(100, 0), u=(110, 0), x=(100, 10), far=(400, 400))
CANSTART = set("abctux") | {"far"}
CANEND = set("abcstu") | {"far"}


def inside(cx, cy, r):
    return [n for n, (x, y) in XY.items() if (x - cx) ** 2 + (y - cy) ** 2 < r * r]


def nearest(cx, cy):
    return min(XY, key=lambda n: (XY[n][0] - cx) ** 2 + (XY[n][1] - cy) ** 2)


def run_area(case, ctx):
    cpp, ver, O, D, t0, t1, kind, amount, dn = (case[k] for k in ("cpp", "ver", "O", "D", "t0", "t1", "kind", "amount", "dn"))
    who = "cpp" if cpp else "py"
    if case["api"] == "area":
        os_ = [n for n in inside(*O) if n in CANSTART] or [nearest(O[0], O[1])]
        ds_ = [n for n in inside(*D) if n in CANEND] or [nearest(D[0], D[1])]
    else:
        os_ = [n for n in O if n in CANSTART]
        ds_ = [n for n in D if n in CANEND]
    total = F(str(amount)) * ((F(str(t1)) - F(str(t0))) if kind == "flow" else 1)
    probs = {}

    def one(ch):
        rng = ScriptRNG(ch)
        rng.live = False
        W = area_world(cpp, rng, dn)
        rng.live = True
        rng.prob = 1.0
        f = getattr(W, f"adddemand_{'area2area' if case['api'] == 'area' else 'nodes2nodes'}{'2' if ver == 2 else ''}")
        orig_random = rng.random
        rng.random = lambda size=None: __import__("numpy").full(size, 0.5) if size is not None else 0.5     # colors
        kw = {kind: float(amount)}
        if case["api"] == "area":
            f(*O, *D, float(t0), float(t1), attribute="q", **kw)
        else:
            f(list(O), [W.get_node(d) for d in D], float(t0), float(t1), attribute="q", **kw)
        vs = [(v.orig.name, v.dest.name, v.departure_time) for v in W.VEHICLES.values()]
        for v in W.VEHICLES.values():
            ctx.check(v.orig.name in os_ and v.dest.name in ds_, f"{who}:od-membership", f"{who} trip {v.orig.name}->{v.dest.name}; usable origins {os_}, destinations {ds_}")
            ctx.check(v.attribute == "q", f"{who}:attribute", f"{who} attribute {v.attribute!r} lost")
            if ver == 2:
                ctx.check(v.orig is not v.dest, f"{who}:self-trip", f"{who} trip from {v.orig.name} to itself")
            ctx.check(math.floor(t0 / dn) <= v.departure_time <= math.ceil(t1 / dn), f"{who}:window", f"departure step {v.departure_time} outside [{t0},{t1}]")
        if ver == 2:
            n = math.floor(total / dn)
            ctx.check(len(vs) == n, f"{who}:size", f"{who} {len(vs)} vehicles generated, {n} requested")
            want = [math.floor(F(str(t0)) / dn + (F(str(t1)) - F(str(t0))) * i / max(1, n - 1) / dn) for i in range(n)]
            ctx.check([v[2] for v in vs] == want, f"{who}:spread", f"{who} departures {[v[2] for v in vs]}, evenly spread {want}")
        else:
            per = total / (len(os_) * len(ds_))
            cnt = {}
            for o, d, t in vs:
                cnt[o, d] = cnt.get((o, d), 0) + 1
            want = {(o, d): math.floor(per / dn) for o in os_ for d in ds_ if math.floor(per / dn)}
            ctx.check(cnt == want, f"{who}:split", f"{who} trips per pair {cnt}, expected {want}")
        key = tuple(vs)
        probs[key] = probs.get(key, 0) + rng.prob
        ctx.outcome(key)
        ctx.state((who, key))
        ctx.transitions += 1
    explore(one, ctx)
    if ver == 2:
        # independent uniform origins and destinations, equal pairs redrawn
        n = math.floor(total / dn)
        pair = {}
        for o in os_:
            for d in ds_:
                p = F(1, len(os_) * len(ds_))
                if o != d:
                    pair[o, d] = pair.get((o, d), 0) + p
                elif len(ds_) > 1:
                    for e in ds_:
                        if e != o:
                            pair[o, e] = pair.get((o, e), 0) + p / (len(ds_) - 1)
                else:
                    for e in os_:
                        if e != o:
                            pair[e, d] = pair.get((e, d), 0) + p / (len(os_) - 1)
        marg = [{} for _ in range(n)]
        for k, p in probs.items():
            for i, (o, d, t) in enumerate(k):
                marg[i][o, d] = marg[i].get((o, d), 0) + p
        for i in range(n):
            bad = [(x, marg[i].get(x, 0), float(pair.get(x, 0))) for x in set(pair) | set(marg[i]) if abs(marg[i].get(x, 0) - float(pair.get(x, 0))) > 1e-9]
            ctx.check(not bad, f"{who}:od-probability", lambda: f"{who} vehicle {i}: probability of {bad[:3]} (pair, measured, specified)")
        ctx.check(abs(sum(probs.values()) - 1) < 1e-9, f"{who}:total-probability", f"{sum(probs.values())}")


# ------------------------------------------------------------------ demand added during a run
def run_late(case, ctx):
    sc, cpp, at, adds = case["scn"], case["cpp"], case["at"], case["adds"]
    who = "cpp" if cpp else "py"
    m = Model(sc, order="queue" if cpp else "id")
    W = S.build(sc, bool(cpp))
    dt = m.dt
    while m.T < at:
        m.step()
        ctx.transitions += 1
    if at:
        W.exec_simulation(duration_t2=at * dt)
    else:
        W.finalize_scenario()
    for kind, o, d, rel in adds:
        ts = max(0, at + rel)
        if kind == "v":
            W.addVehicle(o, d, ts * dt)
            m.add_veh(dict(o=o, d=d, ts=ts))
        else:
            W.adddemand(o, d, ts * dt, (ts + 4) * dt, flow=1.5 / m.tau0)
            m.demand(o, d, ts * dt, (ts + 4) * dt, 1.5 / m.tau0)
    while m.T < m.tsize:
        m.step()
        ctx.transitions += 1
        ctx.state(m.state_key())
    W.exec_simulation()
    a, b = S.obs_model(m), S.observe(W)
    for o in (a, b):
        for v in o["veh"].values():
            v["log"] = [x for x in v["log"] if x[1] != "home"]
    d = S.diff(a, b)
    ctx.check(d is None, f"{who}:late", f"{who} vehicles added at step {at} {adds}: model vs engine {d}")
    ctx.outcome(S.key(b["veh"]))
    ctx.traces += 1


# ------------------------------------------------------------------ automatic duration
def run_tmax(case, ctx):
    cpp, deps, dn = case["cpp"], case["deps"], case["dn"]
    W = S.build(small(deltan=dn, tmax=None), bool(cpp))
    for t in deps:
        W.addVehicle("o", "d", t)
    W.finalize_scenario()
    last = max([int(t / dn) * dn for t in deps], default=0)
    ctx.check(W.TMAX == (last // 1800 + 2) * 1800 and W.TSIZE == W.TMAX // dn, "auto-tmax", f"TMAX {W.TMAX} TSIZE {W.TSIZE} for departures {deps}")
    W.exec_simulation()
    ctx.check(all(str(v.state) == "end" for v in W.VEHICLES.values()) and W.T == W.TSIZE, "auto-tmax-served", "vehicles not served within the automatic duration")
    ctx.outcome((W.TMAX, tuple(deps), dn))


def families(tier):
    big = tier == "thorough"
    pts = []
    for dn, rt in ((1, 1), (5, 1), (3, 1), (1, 1.3), (2, 0.7), (5, 1.5), (1, 0.1)):
        dt = F(str(rt)) * dn
        for a, b in ((0, 10), (0, 20), (3, 20), (7, 7), (2, 33), (F(1, 2), F(41, 4))):
            t0, t1 = float(a * dt), float(b * dt)
            span = (b - a) * dt
            am = [("flow", f / 1.0) for f in (0, 0.1, 0.2, 0.3, 0.7, 1.0, 1.7, round(1 / 3, 3))] + [("volume", v) for v in ((1, 2, 3, 5, 7, 10, 11, 13, 20, 29, 30, 47) if not big else range(1, 60))]
            for kind, x in am:
                if kind == "volume" and span == 0:
                    continue
                for cpp in (0, 1):
                    pts.append(dict(dn=dn, rt=rt, t0=str(float(t0)), t1=str(float(t1)), kind=kind, amount=x, cpp=cpp, via=("obj", "coord", "positional")[(len(pts) // 2) % 3]))
    names = [dict(seq=list(q), cpp=c, dn=dn, rt=rt) for k in range(1, 5 if big else 4) for q in itertools.product(OPS, repeat=k) for c in (0, 1) for dn, rt in (((1, 1), (5, 1.1)) if k < 3 else ((2, 1.1),))]
    areas = []
    spots = [(4, 4, 8), (4, 4, 30), (105, 3, 12), (105, 3, 6), (50, 200, 3), (9, 0, 2), (50, 5, 70), (400, 400, 5)]
    sets = [["a", "b"], ["a", "b", "c", "s"], ["t", "u", "x"], ["t"], ["b", "t"], ["far"], ["u", "a"]]
    for cpp in (0, 1):
        for api, alpha in (("area", spots), ("nodes", sets)):
            for O in alpha:
                for D in alpha:
                    if api == "nodes":
                        o_, d_ = [n for n in O if n in CANSTART], [n for n in D if n in CANEND]
                    else:
                        o_ = [n for n in inside(*O) if n in CANSTART] or [nearest(O[0], O[1])]
                        d_ = [n for n in inside(*D) if n in CANEND] or [nearest(D[0], D[1])]
                    if len(o_) == 1 and o_ == d_:
                        continue
                    for kind, am in (("volume", 1), ("volume", 2), ("flow", 0.1)):
                        t0, t1 = (0, 30) if kind == "flow" else (10, 50)
                        n = 3 if kind == "flow" else am
                        if (len(o_) * len(d_)) ** n > (6000 if big else 600):
                            continue
                        for dn in (1,) if not big else (1, 2):
                            areas.append(dict(cpp=cpp, ver=2, api=api, O=O, D=D, t0=t0, t1=t1, kind=kind, amount=am * dn, dn=dn))
                    for kind, am in (("volume", 40), ("flow", 0.7), ("volume", 3)):
                        areas.append(dict(cpp=cpp, ver=1, api=api, O=O, D=D, t0=0, t1=40, kind=kind, amount=am, dn=1))
    late = []
    for dn, rt in ((1, 1), (5, 1)):
        for cpp in (0, 1):
            for gradual in (False, True):
                dt = dn * rt
                nodes = [N("o"), N("m", 50, 50), N("k", 50, -50), N("d", 100, 0)]
                links = [L("ok", "o", "k", 140 * dt), L("om", "o", "m", 101 * dt), L("md", "m", "d", 97 * dt), L("kd", "k", "d", 99 * dt), L("mk", "m", "k", 47 * dt)]
                sc = scn(nodes, links, demands=[["o", "d", 0, 10 * dt, 0.9 / rt]], deltan=dn, reaction_time=rt, tmax=60 * dt, duo_update_time=9 * dt, gradual=gradual)
                for at in range(0, 31, 1 if big else 2):
                    for adds in ([["v", "o", "d", 0]], [["v", "o", "d", -3], ["v", "m", "d", 0]], [["v", "o", "d", 2], ["v", "o", "d", 4]], [["d", "o", "d", 1]], [["d", "m", "k", 0], ["v", "o", "d", 3]]):
                        late.append(dict(scn=sc, cpp=cpp, at=at, adds=adds))
    tm = [dict(cpp=c, dn=dn, deps=list(x)) for c in (0, 1) for dn in (1, 5) for x in ((), (0,), (1799,), (1800,), (5, 3599), (3600, 10), (7201,))]
    return [Family("point", pts, run_point, cpp=True, note="departure step of every vehicle against exact rational arithmetic, all time windows, flows and volumes of the grid"),
            Family("sequences", names, run_names, cpp=True, note="all sequences of vehicle/demand additions with named, renamed and automatically named vehicles; registry after every call"),
            Family("areas", areas, run_area, cpp=True, note="area and node-set demands: every random draw; membership, size, spread and exact probability of each origin-destination pair"),
            Family("late", late, run_late, cpp=True, note="vehicles and demands added at every second step of a run, in the past, present and future"),
            Family("auto-tmax", tm, run_tmax, cpp=True, note="automatic simulation duration")]


RUNNER = Runner("P11", "model_checking",
                "All windows x flows x volumes x platoon/timestep sizes, all operation sequences up to depth 3 (4), all draws of the randomized demands, all insertion steps; distinct = distinct sets of departures / registries / outcomes.",
                families, ["nodes isolated from the network are not used as nearest-node fallback", "a demand rejected for a name conflict may leave part of its vehicles (not claimed)"])
