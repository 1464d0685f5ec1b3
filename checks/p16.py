"""P16: scenarios written to a file (save_scenario, CSV) and read again are the same scenario."""
import itertools, os, csv
from mc import env
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from checks.p07 import whole

ND = [("a", 0, 0), ("b", 0, 30), ("c", 100, 0), ("d", 200, 0), ("e", 210, 30)]
LK = [("ac", "a", "c", 203), ("bc", "b", "c", 157), ("cd", "c", "d", 301), ("ce", "c", "e", 170), ("de", "d", "e", 110), ("ca", "c", "a", 190)]


def price(t):
    return 30 if t < 40 else 3


def on_update(x):
    pass


# one deviation of a node (n) or link (l) from the defaults: keyword arguments by object
VAR = {
    "none": {},
    "signal": {"n:c": dict(signal=[12, 9])},
    "signal3": {"n:c": dict(signal=[8, 6, 10], signal_offset=7), "l:ac": dict(signal_group=[0, 2]), "l:bc": dict(signal_group=1)},
    "oldoffset": {"n:c": dict(signal=[12, 9], signal_offset_old=5), "l:bc": dict(signal_group=[1])},
    "nodecap": {"n:c": dict(flow_capacity=0.35)},
    "nodecap2": {"n:c": dict(flow_capacity=1.7), "n:d": dict(flow_capacity=0.2, number_of_lanes=2)},
    "nodeattr": {"n:a": dict(attribute="zone1", user_attribute={"k": [1, 2]}), "l:ac": dict(attribute={"w": 1}, user_attribute=3)},
    "u": {"l:cd": dict(free_flow_speed=11.5)},
    "kappa": {"l:cd": dict(jam_density=0.13)},
    "kappalane": {"l:cd": dict(jam_density_per_lane=0.12, number_of_lanes=2)},
    "kappaboth": {"l:cd": dict(jam_density=0.3, jam_density_per_lane=0.12, number_of_lanes=2)},
    "lanes": {"l:cd": dict(number_of_lanes=3, jam_density=0.5), "l:ac": dict(number_of_lanes=2)},
    "merge": {"l:bc": dict(merge_priority=0), "l:ac": dict(merge_priority=2.5)},
    "capout": {"l:cd": dict(capacity_out=0.3), "l:ac": dict(capacity_out=0.25)},
    "capin": {"l:cd": dict(capacity_in=0.3), "l:bc": dict(capacity_in=0.21)},
    "closed": {"l:ce": dict(capacity_in=0), "l:bc": dict(capacity_out=0)},
    "toll": {"l:cd": dict(congestion_pricing=price)},
    "dx": {"l:cd": dict(eular_dx=37.5)},
    "func": {"n:c": dict(user_function=on_update), "l:cd": dict(user_function=on_update)},
    "rename": {"n:e": dict(auto_rename=True), "l:de": dict(auto_rename=True)},
}

OPS = {
    "dd": lambda W: W.adddemand("a", "d", 0, 40, flow=0.4),
    "ddv": lambda W: W.adddemand("b", "e", 7, 33, volume=12, attribute="truck"),
    "ddobj": lambda W: W.adddemand(W.get_node("a"), W.get_node("e"), 3, 30, 0.3),
    "p2p": lambda W: W.adddemand_point2point(1, 2, 201, 3, 4, 30, flow=0.3, attribute=5),
    "a2a": lambda W: W.adddemand_area2area(0, 10, 25, 200, 5, 60, 2, 30, volume=22),
    "n2n": lambda W: W.adddemand_nodes2nodes(["a", "b"], [W.get_node("d"), "e"], 0, 30, flow=0.9, attribute=("x",)),
    "a2a2": lambda W: W.adddemand_area2area2(0, 10, 25, 200, 5, 60, 2, 25, flow=0.4),
    "n2n2": lambda W: W.adddemand_nodes2nodes2([W.get_node("a"), "b"], ["d", "e"], 5, 30, volume=11, attribute="y"),
}


def network(W, var):
    for n, x, y in ND:
        W.addNode(n, x, y, **var.get("n:" + n, {}))
    for n, a, b, ln in LK:
        W.addLink(n, a, b, ln, **var.get("l:" + n, {}))


def new(case, which):
    w = dict(tmax=120, duo_update_time=15, deltan=2, reaction_time=1, seed=3)
    w.update(case.get(which, {}))
    return S.make_world({"world": w})


def params(W):
    o = {}
    for n in W.NODES:
        o["n:" + n.name] = [n.x, n.y, list(n.signal), n.signal_offset, n.cycle_length, n.signal_phase, n.signal_t, n.flow_capacity, n.flow_capacity_remain, n.number_of_lanes,
                            repr(n.attribute), repr(n.user_attribute), n.user_function is None, list(n.inlinks), list(n.outlinks)]
    for l in W.LINKS:
        o["l:" + l.name] = [l.start_node.name, l.end_node.name, l.length, l.u, l.kappa, l.tau, l.w, l.capacity, l.delta, l.delta_per_lane, l.q_star, l.k_star, l.number_of_lanes,
                            l.merge_priority, list(l.signal_group), l.capacity_out, l.capacity_in, l.edie_dx, l.free_flow_speed, l.jam_density, l.jam_density_per_lane,
                            repr(l.attribute), repr(l.user_attribute), l.user_function is None, [l.get_toll(t) for t in (0, 39, 40, 41, 100)]]
    o["v"] = [[v.name, v.orig.name, v.dest.name, v.departure_time, repr(v.attribute)] for v in W.VEHICLES.values()]
    return o


def merged(names):
    var = {}
    for n in names:
        for k, d in VAR[n].items():
            var[k] = {**var.get(k, {}), **d}
    return var


def apply(W, ops):
    for o in ops:
        OPS[o](W)


def run_roundtrip(case, ctx):
    var = merged(case["var"])
    ops = case["ops"]
    f = os.path.join(env.scratch(), f"s{os.getpid()}.pkl")
    W = new(case, "src")
    network(W, var)
    apply(W, ops)
    at = case["at"]
    if at == "final":
        W.finalize_scenario()
    elif at == "mid":
        W.exec_simulation(until_t=40)
    elif at == "end":
        W.exec_simulation()
    before = params(W) if at == "new" else None
    W.save_scenario(f, network=case["net"], demand=case["dem"])
    ctx.transitions += 2
    if before is not None:
        d = S.diff(before, params(W), "saved world")
        ctx.check(d is None, "save-changes-world", d)
    for hop in range(case.get("hops", 1)):
        loaded = new(case, "dst")
        if not case["net"]:
            network(loaded, var)
        loaded.load_scenario(f, network=case["net"] or False, demand=case["dem"])
        if not case["dem"]:
            apply(loaded, ops)
        if hop + 1 < case.get("hops", 1):
            loaded.save_scenario(f, network=case["net"], demand=case["dem"])
    os.remove(f)
    # the same scenario described directly in the target world
    ref = new(case, "dst")
    network(ref, var)
    apply(ref, ops)
    d = S.diff(params(ref), params(loaded), "")
    ctx.check(d is None, "loaded-scenario-differs", f"direct vs loaded scenario: {d}")
    ref.exec_simulation()
    loaded.exec_simulation()
    ctx.traces += 2
    a, b = whole(ref), whole(loaded)
    for k in a:
        d = S.diff(a[k], b[k], k, tol=1e-9)
        ctx.check(d is None, f"loaded-run-differs:{k.split('/')[0]}", f"direct vs loaded: {d}")
    ctx.outcome(S.key(a["veh"]))
    ctx.state(S.key(params(ref)))


# ---- CSV ---------------------------------------------------------------------------------------
CSVN = [("a", 0, 0), ("b", 0.5, -30), ("c", 100, 0), ("d", 2e2, 0)]


def run_csv(case, ctx):
    pre = os.path.join(env.scratch(), f"c{os.getpid()}")
    links = [[n, a, b, ln, u, k, m] for (n, a, b, ln), (u, k, m) in zip([("ac", "a", "c", 203), ("bc", "b", "c", 157), ("cd", "c", "d", 301.5)], case["links"])]
    rows = {"n": [list(r) for r in CSVN], "l": links, "d": case["dem"]}
    head = {"n": ["name", "x", "y"], "l": ["name", "start", "end", "length", "u", "kappa", "merge"], "d": ["orig", "dest", "start_t", "end_t", "q"]}
    if any(len(r) > 5 for r in case["dem"]):
        head["d"].append("volume")
    for k in rows:
        with open(f"{pre}{k}.csv", "w", newline="") as f:
            w = csv.writer(f)
            if case["head"]:
                w.writerow(head[k])
            w.writerows(rows[k])
    res = []
    for how in ("file", "direct"):
        W = S.make_world({"world": dict(tmax=80, duo_update_time=15, deltan=2)}, cpp=bool(case["cpp"]))
        if how == "file":
            if case["parts"]:
                W.generate_Nodes_from_csv(pre + "n.csv")
                W.generate_Links_from_csv(pre + "l.csv")
                W.generate_demand_from_csv(pre + "d.csv")
                if case["tmax"]:
                    W.TMAX = case["tmax"]
            else:
                W.load_scenario_from_csv(pre + "n.csv", pre + "l.csv", pre + "d.csv", **({"tmax": case["tmax"]} if case["tmax"] else {}))
        else:
            if case["tmax"]:
                W.TMAX = case["tmax"]
            for r in rows["n"]:
                W.addNode(*r)
            for n, a, b, ln, u, k, m in links:
                W.addLink(n, a, b, ln, free_flow_speed=u, jam_density=k, merge_priority=m)
            for r in case["dem"]:
                W.adddemand(r[0], r[1], r[2], r[3], flow=r[4], volume=(r[5] if len(r) > 5 and r[5] != "" else -1))
        W.exec_simulation()
        ctx.traces += 1
        ctx.transitions += W.TSIZE
        res.append(whole(W))
    for k in "nld":
        os.remove(f"{pre}{k}.csv")
    for k in res[0]:
        d = S.diff(res[1][k], res[0][k], k, tol=1e-9)
        ctx.check(d is None, f"csv-differs:{k.split('/')[0]}", f"direct vs csv: {d}")
    ctx.outcome(S.key(res[0]["veh"]))


def families(tier):
    big = tier == "thorough"
    base = dict(net=True, dem=True, at="new", var=["none"], ops=["dd"])
    cases = []

    def add(**k):
        cases.append({**base, **k})
    # every feature (thorough: every pair) x moment of saving x target world
    dst = [{}, dict(deltan=5, reaction_time=1), dict(deltan=2, reaction_time=2, tmax=200)]
    names = list(VAR)[1:]
    for v in [[n] for n in names] + ([list(p) for p in itertools.combinations(names, 2)] if big else [[p, "lanes"] for p in names if p not in ("lanes", "kappalane", "kappaboth")]):
        for at in ("new", "final", "mid", "end"):
            for d in dst if len(v) == 1 or big else dst[:2]:
                if d and (at == "final" or len(v) > 1 and at == "mid"):
                    continue
                add(var=v, at=at, dst=d, ops=["dd", "ddv"], hops=2 if d else 1)
    for at in ("new", "final", "mid", "end"):
        for adj in (False, True):
            for d in dst:
                add(var=["nodecap"], at=at, src=dict(adjust_node_capacity=adj), dst={**d, "adjust_node_capacity": adj})
                add(var=["lanes"], at=at, src=dict(adjust_node_capacity=adj), dst={**d, "adjust_node_capacity": True})
    # every sequence of demand definitions
    for n in (1, 2, 3) if big else (1, 2):
        for ops in itertools.product(OPS, repeat=n):
            add(ops=list(ops))
    for ops in ([["dd", "p2p", "dd"], ["n2n", "dd", "n2n", "ddv"], ["n2n2", "a2a2", "n2n2"], ["a2a", "ddobj", "p2p", "a2a"]]):
        for at in ("new", "mid"):
            for hops in (1, 2, 3):
                add(ops=ops, at=at, hops=hops)
    for net, dem in ((True, False), (False, True)):
        for v in names if big else ("signal3", "lanes", "toll", "nodecap2", "kappaboth", "rename"):
            for op in ("dd", "n2n", "a2a2"):
                add(net=net, dem=dem, var=[v], ops=[op])
    cases += [{**c, "src": {**c.get("src", {}), "reaction_time": 0.35}} for c in cases[::5 if big else 11]]
    cs = []
    dems = [[["a", "d", 0, 30, 0.4]], [["a", "d", 0, 30, 0.4, -1], ["b", "d", 5.5, 42, 0, 13.5]], [["a", "d", 0, 30, 0.4, ""], ["b", "c", 10, 20, 0.5, ""]],
            [["a", "d", 0, 30, 0.1, 14], ["b", "d", 2, 40, 0.4, 0]]]
    lks = [[(20, 0.2, 1)] * 3, [(10, 0.2, 1), (20, 0.15, 0.5), (25, 0.3, 2)], [(20, 0.2, 0), (20, 0.2, 2), (9.5, 0.25, 1)]]
    for cpp in (0, 1):
        for dem in dems:
            for lk in lks:
                for head in (True, False):
                    for tmax in (None, 50, 120):
                        for parts in (False, True):
                            if parts and not (big or tmax):
                                continue
                            cs.append(dict(cpp=cpp, dem=dem, links=lk, head=head, tmax=tmax, parts=parts))
    return [Family("roundtrip", cases, run_roundtrip, note="features x demand definitions x moment of saving x target world, saved scenario loaded and executed against the same scenario described directly"),
            Family("csv", cs, run_csv, cpp=True, note="CSV files in all documented shapes, both engines, against the same scenario described directly")]


RUNNER = Runner("P16", "model_checking",
                "All combinations of the alphabet (one or two features of nodes and links, moments of saving, target worlds, demand definition sequences up to the bound, CSV shapes); the loaded scenario and "
                "its complete simulation compared with the same scenario described directly; distinct = distinct vehicle histories.",
                families, ["demand definitions through adddemand* (vehicles added one by one with addVehicle are not part of a scenario file)", "save_scenario/load_scenario in the Python engine only (C++ mode refuses them)"])
