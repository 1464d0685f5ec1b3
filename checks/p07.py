"""P07: the Python and the C++ engine compute the same simulation."""
import itertools, math
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from mc.refsim import Model, Tie

PRIMES = [101, 139, 173, 211, 251, 293, 337, 379, 421, 463, 509, 557]


def table(df, multilane=False):
    rows = []
    for r in df.itertuples(index=False):
        rows.append([(str(x) if isinstance(x, str) or not isinstance(x, (int, float)) and not hasattr(x, "dtype") else float(x)) for x in r])
    return [list(df.columns), rows]


TABLES = ["basic_to_pandas", "od_to_pandas", "link_to_pandas", "link_traffic_state_to_pandas", "link_cumulative_to_pandas",
          "vehicle_trip_to_pandas", "vehicles_to_pandas", "log_vehicles_to_pandas", "gps_like_log_to_pandas", "mfd_to_pandas"]


def queries(W, ts):
    out = {}
    for l in W.LINKS:
        q = {}
        for t in ts:
            q[str(t)] = [float(x) for x in (l.arrival_count(t), l.departure_count(t), l.num_vehicles_t(t), l.average_density(t),
                                            l.instant_travel_time(t), l.actual_travel_time(t))]
        q["now"] = [float(x) for x in (l.num_vehicles, l.num_vehicles_queue, l.density, l.speed, l.flow)]
        q["par"] = [float(x) for x in (l.u, l.kappa, l.tau, l.w, l.capacity, l.delta, l.delta_per_lane, l.q_star, l.k_star, l.capacity_out, l.capacity_in, l.length, l.number_of_lanes, l.merge_priority)]
        out[l.name] = q
    return out


def norm_nodecap(W):
    r = {}
    for n in W.NODES:
        fc = n.flow_capacity
        r[n.name] = None if fc is None or fc < 0 else [float(fc), float(n.number_of_lanes)]
    return r


def whole(W, tables=True):
    o = S.observe(W)
    o["queries"] = queries(W, [-5, 0, 1, W.DELTAT, W.DELTAT * 7.5, W.TMAX / 2, W.TMAX - W.DELTAT, W.TMAX, W.TMAX * 2])
    o["time"] = [float(W.T), float(W.TIME), float(W.TSIZE), float(W.TMAX), float(W.DELTAT)]
    o["nodecap"] = norm_nodecap(W)
    o["sets"] = [sorted(W.VEHICLES), sorted(W.VEHICLES_LIVING), sorted(W.VEHICLES_RUNNING)]
    if tables:
        for t in TABLES:
            o["table:" + t] = table(getattr(W.analyzer, t)())
    return o





def run(case, ctx):
    try:
        m = Model(case)
        while m.T < m.tsize:
            m.step()
            ctx.transitions += 1
            ctx.states.add(hash(m.state_key()))
    except Tie:
        ctx.skipped += 1
        return
    res = []
    for cpp in (0, 1):
        W = S.simulate(case, bool(cpp))
        res.append(whole(W, case.get("tables", True)))
        ctx.traces += 1
    ctx.outcome(S.key(res[0]["veh"]))
    for k in res[0]:
        d = S.diff(res[0][k], res[1][k], k)
        ctx.check(d is None, f"differs:{k.split('/')[0]}", f"Python vs C++: {d}")


def run_steps(case, ctx):
    """same states at every intermediate stop"""
    scn, cuts = case["scn"], case["cuts"]
    Ws = [S.build(scn, bool(c)) for c in (0, 1)]
    for how, x in cuts:
        r = [W.exec_simulation(**{how: x}) for W in Ws]
        ctx.transitions += 1
        o = []
        for W in Ws:
            w = {"veh": {n: [str(v.state), v.link.name if v.link else None, float(v.x) if str(v.state) == "run" else -1, float(v.travel_time)] for n, v in W.VEHICLES.items()},
                 "q": queries(W, [0, W.TIME - W.DELTAT, W.TIME, W.TIME + 30]), "time": [float(W.T), float(W.TIME)],
                 "sets": [sorted(W.VEHICLES_LIVING), sorted(W.VEHICLES_RUNNING)], "sig": {n.name: [int(n.signal_phase)] for n in W.NODES},
                 "ongoing": bool(W.check_simulation_ongoing())}
            o.append(w)
        ctx.check(r[0] == r[1], "return-value", f"{r} after {how}={x}")
        d = S.diff(o[0], o[1])
        ctx.check(d is None, "mid-run-differs", f"after {how}={x}: Python vs C++ {d}")
        ctx.outcome(S.key(o[0]["veh"]))
    ctx.traces += 2


def families(tier):
    big = tier == "thorough"
    # all digraphs on three nodes x all-pairs demand
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    dig = []
    for mask in range(1, 64):
        es = [p for k, p in enumerate(pairs) if mask >> k & 1]
        for dn, flow, grad in ((1, 0.2, False), (5, 0.35, False), (5, 0.35, True), (2, 0.8, False)):
            for nc in (False, True):
                nodes = [N(f"n{i}", i * 100, (i % 2) * 50) for i in range(3)]
                links = [L(f"l{a}{b}", f"n{a}", f"n{b}", PRIMES[k] * dn / 2, 20 if (a + b) % 2 else 13) for k, (a, b) in enumerate(es)]
                srcs = {a for a, b in es}
                dem = [[f"n{a}", f"n{b}", 0, 20 * dn, flow] for a, b in pairs if a in srcs]
                if nc and (dn != 5 or grad):
                    continue
                dig.append(scn(nodes, links, demands=dem, deltan=dn, tmax=60 * dn, duo_update_time=7 * dn, gradual=grad, no_cyclic=nc, tables=True))
    for c in dig:
        c["tables"] = c["world"].pop("tables")
    # feature grid on a two-route network
    feat = []
    for ax in product(dn=(1, 5), rt=(1, 2, 0.7), sig=(None, (8, 12)), fc=(None, 0.5), adj=(False, True), ci=(None, 0.3), co=(None, 0.4), toll=(None, 15, [[0, 0], [60, 40]]), cong=(0.4, 1.2)):
        if ax["adj"] and ax["fc"]:
            continue
        if not big and (ax["rt"] != 1) != (ax["co"] is not None):
            continue
        dt = ax["dn"] * ax["rt"]
        nodes = [N("o"), N("m", 50, 50), N("k", 50, -50), N("d", 100, 0)]
        if ax["sig"]:
            nodes[1]["signal"] = [s * dt for s in ax["sig"]]
        if ax["fc"]:
            nodes[3]["flow_capacity"] = ax["fc"]
            nodes[1]["flow_capacity"] = ax["fc"]
        links = [L("om", "o", "m", 101 * dt, cap_out=ax["co"]), L("md", "m", "d", 90 * dt, cap_in=ax["ci"], toll=ax["toll"]),
                 L("ok", "o", "k", 120 * dt), L("kd", "k", "d", 97 * dt, merge=2), L("mk", "m", "k", 40 * dt)]
        feat.append(scn(nodes, links, demands=[["o", "d", 0, 25 * dt, ax["cong"]], ["m", "d", 3 * dt, 22 * dt, 0.2]], deltan=ax["dn"], reaction_time=ax["rt"],
                        tmax=70 * dt, duo_update_time=9 * dt, adjust_node_capacity=ax["adj"]))
    # stops
    steps = []
    nodes = [N("o"), N("m", 50, 50, signal=[20, 25]), N("k", 50, -50), N("d", 100, 0)]
    links = [L("om", "o", "m", 305), L("md", "m", "d", 290), L("ok", "o", "k", 420), L("kd", "k", "d", 297, merge=2), L("mk", "m", "k", 140)]
    base = scn(nodes, links, demands=[["o", "d", 0, 100, 0.8], ["m", "d", 10, 80, 0.3]], deltan=5, tmax=200, duo_update_time=30)
    opts = [("duration_t2", 5), ("duration_t2", 45), ("duration_t", 20), ("until_t", None)]
    for seq in itertools.product(range(4), repeat=4 if not big else 6):
        cuts, t = [], 0
        for i, k in enumerate(seq):
            how, x = opts[k]
            if how == "until_t":
                x = 37 + 41 * i
                if int(x / 5) < t:
                    break
                t = int(x / 5) + 1
            elif how == "duration_t2":
                t += x // 5
            else:
                t += x // 5 + 1
            cuts.append([how, x])
        else:
            steps.append(dict(scn=base, cuts=cuts + [["until_t", 1000]]))
    return [Family("digraphs", dig, run, cpp=True, note="every digraph on three nodes with demand between all pairs; every observable and every report table"),
            Family("features", feat, run, cpp=True, note="two-route network: signals x node capacity x link capacities x tolls x platoon size x reaction time"),
            Family("stops", steps, run_steps, cpp=True, note="states of both engines at every intermediate stop of every execution schedule")]


RUNNER = Runner("P07", "model_checking",
                "All digraphs on three nodes and a full feature grid in deterministic mode, all execution schedules of the listed length; every user-visible observable and report table "
                "compared between the engines; distinct = distinct vehicle histories.",
                families, ["single-lane links (multi-lane agreement is decided via the reference model in P02-P05)", "floating point tolerance 1e-6"])
