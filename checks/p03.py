"""P03: capacities of links and nodes."""
import itertools, math
from mc.runner import Runner, Family
from mc.nets import *
from mc import conform as C, scenario as S
from mc.refsim import Model


def window_max(events, cap, dt, burst):
    """worst excess of any window [i,j] of per-step counts over cap*dt*(steps) + burst"""
    worst, cur = -1e18, -1e18
    for e in events:
        cur = max(cur, 0) + e - cap * dt
        worst = max(worst, cur)
    return worst - burst


def inc(curve):
    return [b - a for a, b in zip([0] + list(curve[:-1]), curve)]


def eff(scn):
    """effective capacities as documented"""
    m = Model(scn)
    return m


def law(W, o, scn, ctx, eng):
    w = scn["world"]
    dn = w["deltan"]
    dt = dn * w.get("reaction_time", 1)
    m = eff(scn)
    dep, arr = {}, {}
    for l in scn["links"]:
        ca, cd = o["link"][l["name"]]["ca"], o["link"][l["name"]]["cd"]
        arr[l["name"]], dep[l["name"]] = inc(ca), inc(cd)
        ml = m.ld[l["name"]]
        # inflow (every entry counts)
        x = window_max(arr[l["name"]], ml.cin, dt, dn * ml.lanes)
        ctx.check(x <= 1e-6, f"{eng}:cap-in", lambda: f"link {l['name']} inflow exceeds capacity_in {ml.cin} by {x} vehicles in some window")
        # outflow through the node (trip ends at a destination are not restricted)
        if ml.b.outl:
            y = window_max(dep[l["name"]], ml.cout, dt, dn * ml.lanes)
            ctx.check(y <= 1e-6, f"{eng}:cap-out", lambda: f"link {l['name']} outflow exceeds capacity_out {ml.cout} by {y}")
        # flow conservation bound: physical capacity of the fundamental diagram
        ctx.check(all(v >= -1e-9 for v in arr[l["name"]] + dep[l["name"]]), f"{eng}:curve-decreasing", l["name"])
    for n in m.nodes:
        if n.fc is not None and n.inl and n.outl:
            steps = len(o["link"][scn["links"][0]["name"]]["ca"])
            through = [sum(dep[l.name][t] for l in n.inl) for t in range(steps)]
            x = window_max(through, n.fc, dt, dn * n.lanes)
            ctx.check(x <= 1e-6, f"{eng}:node-cap", lambda: f"node {n.name} passes {x} vehicles more than flow_capacity {n.fc} allows in some window")
    exp = scn.get("expect_rate")
    if exp:
        lname, rate, t0, t1 = exp
        got = (o["link"][lname]["cd"][t1] - o["link"][lname]["cd"][t0])
        want = rate * dt * (t1 - t0)
        slack = dn * (1 + m.ld[lname].lanes)
        ctx.check(got >= want - slack, f"{eng}:starved", lambda: f"queue on {lname} discharged {got} vehicles in {t1-t0} steps; capacity {rate} allows {want}")
        ctx.check(got <= want + slack, f"{eng}:over-discharge", lambda: f"queue on {lname} discharged {got} vehicles in {t1-t0} steps; capacity {rate} allows {want}")


def run(case, ctx):
    C.conform(case, ctx, after=lambda W, o, m, cpp: law(W, o, case, ctx, "cpp" if cpp else "py"))


def families(tier):
    big = tier == "thorough"
    A, B, D, E = [], [], [], []
    dns = (1, 5) if not big else (1, 2, 5, 10)
    # bottleneck at a link border: every combination of capacity_out/capacity_in/node flow capacity
    for ax in product(dn=dns, rt=(1,) if not big else (1, 0.5, 2), lanes=((1, 1), (2, 1), (1, 2), (3, 3), (2, 2)),
                      co=(None, 0.2, 0.5), ci=(None, 0.15, 0.4), fc=(None, 0.25, 0.6), nl=(None, 1, 3), flow=(0.5, 1.5)):
        if ax["fc"] is None and ax["nl"] is not None:
            continue
        dt = ax["dn"] * ax["rt"]
        T = 70
        nodes, links = line(2, length=[20 * dt * 12, 20 * dt * 5 + 3], lanes=ax["lanes"], cap_out=[ax["co"], None], cap_in=[None, ax["ci"]])
        if ax["fc"] is not None:
            nodes[1]["flow_capacity"] = ax["fc"]
            if ax["nl"]:
                nodes[1]["number_of_lanes"] = ax["nl"]
        s = scn(nodes, links, demands=[["n0", "n2", 0, 45 * dt, ax["flow"]]], deltan=ax["dn"], reaction_time=ax["rt"], tmax=T * dt, duo_update_time=1000)
        m = Model(s)
        caps = [c for c in (ax["co"], ax["ci"], ax["fc"]) if c is not None]
        ent = min(m.ld["l0"].cin, m.ld["l0"].cap, ax["flow"])
        if caps and min(caps) < 0.6 * ent and min(caps) < 0.6 * min(m.ld["l0"].cap, m.ld["l1"].cap):
            s["expect_rate"] = ["l0", min(caps), 28, 42]
        A.append(s)
    # entrance control at the origin
    for ax in product(dn=dns, lanes=(1, 2, 3), ci=(None, 0, 0.1, 0.33, 0.5, 1.2), flow=(0.2, 0.8, 2.0)):
        dt = ax["dn"]
        nodes, links = line(1, length=[20 * dt * 7 + 5], lanes=[ax["lanes"]], cap_in=[ax["ci"]])
        B.append(scn(nodes, links, demands=[["n0", "n1", 0, 40 * dt, ax["flow"]]], deltan=ax["dn"], tmax=60 * dt, duo_update_time=1000))
    # several streams through one capacitated node
    for ax in product(dn=dns, lanes=((1, 1, 1), (1, 2, 2), (2, 2, 1)), fc=(None, 0.3, 0.5, 1.0), nl=(None, 2), adj=(False, True), co=(None, 0.2), p=((1, 1), (2, 0.5))):
        if ax["fc"] is None and ax["nl"]:
            continue
        dt = ax["dn"]
        nodes = [N("a"), N("d"), N("b"), N("c"), N("e")]
        if ax["fc"]:
            nodes[2]["flow_capacity"] = ax["fc"]
            if ax["nl"]:
                nodes[2]["number_of_lanes"] = ax["nl"]
        links = [L("ab", "a", "b", 180 * dt, lanes=ax["lanes"][0], merge=ax["p"][0], cap_out=ax["co"]),
                 L("db", "d", "b", 150 * dt + 7, u=15, lanes=ax["lanes"][1], merge=ax["p"][1]),
                 L("bc", "b", "c", 200 * dt, lanes=ax["lanes"][2]), L("be", "b", "e", 200 * dt + 3, u=10)]
        D.append(scn(nodes, links, demands=[["a", "c", 0, 25 * dt, 0.6], ["d", "c", 0, 25 * dt, 0.5], ["d", "e", 3 * dt, 25 * dt, 0.3], ["a", "e", 0, 20 * dt, 0.2]],
                     deltan=ax["dn"], tmax=60 * dt, duo_update_time=1000, adjust_node_capacity=ax["adj"]))
    # idle periods: unused capacity must not be hoarded, and is fully available again afterwards
    for ax in product(dn=dns, lanes=((1, 1), (2, 2)), which=("co", "ci", "fc", "in0"), cap=(0.2, 0.45), start=(0, 15, 40), gap=(6, 30), adj=(False,)):
        dt = ax["dn"]
        k, c = ax["which"], ax["cap"]
        nodes, links = line(2, length=[20 * dt * 4, 20 * dt * 4 + 3], lanes=ax["lanes"], cap_out=[c if k == "co" else None, None], cap_in=[c if k == "in0" else None, c if k == "ci" else None])
        if k == "fc":
            nodes[1]["flow_capacity"] = c
        a = ax["start"] * dt
        E.append(scn(nodes, links, demands=[["n0", "n2", a, a + 8 * dt, 0.9], ["n0", "n2", a + (8 + ax["gap"]) * dt, a + (18 + ax["gap"]) * dt, 0.9]], deltan=ax["dn"], tmax=(a // dt + 70 + ax["gap"]) * dt, duo_update_time=1000))
    return [Family("bursts", E, run, cpp=True, note="two bursts after idle periods of every length listed, each kind of bottleneck"),
            Family("border", A, run, cpp=True, note="bottleneck between two links: capacity_out x capacity_in x node flow_capacity x lanes"),
            Family("entrance", B, run, cpp=True, note="entry from the origin queue under capacity_in"),
            Family("crossing", D, run, cpp=True, note="two in-links and two out-links through one node with flow capacity / automatic node capacity")]


RUNNER = Runner("P03", "model_checking",
                "Every combination of the listed capacities, lanes, platoon sizes and demand levels; each run compared with the reference transition "
                "system and with window bounds (any window of n steps carries at most n*capacity*dt + one burst of a platoon per lane; a standing queue discharges at capacity).",
                families, ["hard deterministic mode", "trip ends at the destination are not limited by capacity_out (as documented: outflow through the node)"])
