"""P09: dynamic user-optimal route choice - shortest-path information, preferences, choices."""
import itertools, math
import numpy as np
from mc.runner import ScriptedRunner, Family
from mc.nets import *
from mc import conform as C, scenario as S
from mc.refsim import eval_toll, Model, Tie
from mc.runner import h64

PRIMES = [101, 139, 173, 211, 251, 293, 337, 379, 421, 463, 509, 557]
INF = float("inf")


def run_det(case, ctx):
    C.conform(case, ctx)


# ---------------------------------------------------------------------------------- oracle
def bellman(n, cost):
    D = [[0.0 if i == j else INF for j in range(n)] for i in range(n)]
    for k in range(n):
        for _ in range(n):
            for (i, j), c in cost.items():
                if c + D[j][k] < D[i][k]:
                    D[i][k] = c + D[j][k]
    return D


def info(W, cpp):
    R = W.ROUTECHOICE
    if cpp:
        return np.array(R.dist), np.array(R.next), np.array(W._cpp_world.route_preference), R.dist_record
    return np.array(R.dist), np.array(R.next), np.array(R.route_pref), R.dist_record


def run_oracle(case, ctx):
    """step by step: after every route update the published information is the shortest-path
    solution for the current costs, and preferences follow the documented smoothing."""
    scn = case["scn"]
    w = scn["world"]
    for cpp in (0, 1):
        W = S.build(scn, bool(cpp))
        W.finalize_scenario() if not cpp else None
        spec = {l["name"]: l for l in scn["links"]}
        nn = {n["name"]: i for i, n in enumerate(scn["nodes"])}
        n = len(nn)
        dt = w["deltan"] * w.get("reaction_time", 1)
        kr = max(1, int(w["duo_update_time"] / dt + 1e-9))
        pref, ever = None, 0
        lastD = None
        T = 0
        while True:
            r = W.exec_simulation(duration_t2=dt)
            ctx.transitions += 1
            dist, nxt, rp, rec = info(W, cpp)
            if pref is None:
                pref = np.zeros((n, len(W.LINKS)))
            t = T * dt
            if T % kr == 0:
                cost, cnt = {}, {}
                for l in W.LINKS:
                    e = (nn[l.start_node.name], nn[l.end_node.name])
                    c = float(l.traveltime_instant[T]) + eval_toll(spec[l.name].get("toll"), t)
                    if spec[l.name].get("cap_in") == 0:
                        c = INF
                    cost[e] = cost.get(e, 0) + c
                    cnt[e] = cnt.get(e, 0) + 1
                cost = {e: c / cnt[e] for e, c in cost.items()}
                lastD = bellman(n, cost)
                lastc = cost
                ctx.state((T, tuple(tuple(round(x, 6) for x in r_) for r_ in lastD)))
                key = T
                ctx.check(key in rec and S.diff(np.array(rec[key]).tolist(), lastD) is None, f"{cpp}:dist-record", lambda: f"cpp={cpp} step {T}: dist_record {rec.get(key)} vs {lastD}")
            d = S.diff(dist.tolist(), lastD)
            ctx.check(d is None, f"{cpp}:dist", lambda: f"cpp={cpp} step {T}: distances {d}")
            good = {}
            for i in range(n):
                for k in range(n):
                    if i == k or lastD[i][k] == INF:
                        continue
                    ok = [j for (a, j), c in lastc.items() if a == i and c < INF and abs(c + lastD[j][k] - lastD[i][k]) < 1e-6]
                    ctx.check(int(nxt[i][k]) in ok, f"{cpp}:next", lambda: f"cpp={cpp} step {T}: from {i} towards {k} next={nxt[i][k]}, optimal {ok}")
            if w.get("gradual") or T % kr == 0:
                w0 = w.get("duo_update_weight", 0.5) * (dt / w["duo_update_time"] if w.get("gradual") else 1)
                for k in range(n):
                    ww = 1 if pref[k].sum() == 0 else w0
                    for l in W.LINKS:
                        i, j = nn[l.start_node.name], nn[l.end_node.name]
                        on = i != k and lastD[i][k] < INF and int(nxt[i][k]) == j
                        pref[k][l.id] = pref[k][l.id] * (1 - ww) + (ww if on else 0)
            # links leaving the destination itself never matter for a traveler to it
            m = np.ones_like(pref, dtype=bool)
            for l in W.LINKS:
                m[nn[l.start_node.name]][l.id] = False
            ctx.check(bool(np.allclose(pref[m], rp[m], atol=1e-9)), f"{cpp}:preference", lambda: f"cpp={cpp} step {T}: preferences {rp.tolist()} expected {pref.tolist()}")
            ctx.outcome((T, S.key(rp.tolist())))
            T += 1
            if r or T > 10000:
                break
        ctx.check(sorted(rec) == [x for x in range(0, T) if x % kr == 0], f"{cpp}:dist-record-steps", f"cpp={cpp}: recorded at {sorted(rec)}, updates every {kr} of {T} steps")
        ctx.traces += 1


def canon(o):
    return S.key({n: (v["route"], v["arrival"]) for n, v in o["veh"].items()})


def run_dist(case, ctx):
    scn, grid, live = case["scn"], case["grid"], [tuple(x) for x in case["live"]]
    ref = C.distribution(scn, ctx, "model", canon, grid=grid)
    ctx.count("model_outcomes", len(ref))
    ctx.check(abs(sum(ref.values()) - 1) < 1e-9, "mass", "model mass")
    py = C.distribution(scn, ctx, "py", canon, grid=grid, cap=40000)
    C.compare_distributions(ctx, ref, py, "py")
    if case.get("cpp", True):
        cc = C.distribution(scn, ctx, "cpp", canon, grid=grid, live=live, cap=40000)
        C.compare_distributions(ctx, ref, cc, "cpp")


def reach(es, n=4):
    seen, st = {0}, [0]
    while st:
        x = st.pop()
        for a, b in es:
            if a == x and b not in seen:
                seen.add(b)
                st.append(b)
    return seen


def families(tier):
    big = tier == "thorough"
    pairs = [(i, j) for i in range(4) for j in range(4) if i != j]
    dig = []
    for mask in range(1, 1 << 12):
        es = [p for k, p in enumerate(pairs) if mask >> k & 1]
        if 3 not in reach(es) or sum(1 for a, b in es if a == 0) < 2:
            continue
        if not big and (len(es) > 8 or (mask * 2654435761 >> 9) % 2):
            continue
        dn = (1, 5)[len(es) % 2]
        nodes = [N(f"n{i}", i * 100, (i % 2) * 50) for i in range(4)]
        links = [L(f"l{a}{b}", f"n{a}", f"n{b}", PRIMES[k] * dn / 2 if a == 0 else 60 * dn + PRIMES[k] * dn / 10, 20 if (a + b) % 2 else 14, cap_out=(0.25 if (a, b) in ((0, 3), (1, 3)) else None)) for k, (a, b) in enumerate(es)]
        for wt, grad, dut in ((0.5, False, 6), (1, False, 4), (0.25, True, 8)) if big else (((0.5, False, 6),) if (mask * 40503 >> 5) % 4 else ((0.25, True, 8),)):
            dig.append(scn(nodes, links, demands=[["n0", "n3", 0, 22 * dn, 0.7]], deltan=dn, tmax=55 * dn, duo_update_time=dut * dn, duo_update_weight=wt, gradual=grad))
    # information oracle: congestion, tolls in time, parallel links, closed links, disconnected parts
    orc = []
    tolls = [None, 12, [[0, 0], [15, 30], [35, 5]]]
    for ax in product(toll=tolls, par=(0, 1, 2), closed=("", "om", "md", "kd"), wt=(0.5, 1, 0.2), grad=(False, True), dut=(1, 5, 7.5), dn=(1, 5)):
        if not big and ax["wt"] == 0.2 and not ax["grad"]:
            continue
        if ax["dut"] == 1 and ax["dn"] == 5:
            continue
        dn = ax["dn"]
        ls = [("om", "o", "m", 101), ("md", "m", "d", 90), ("ok", "o", "k", 120), ("kd", "k", "d", 97), ("mk", "m", "k", 40), ("xo", "x", "o", 55), ("do", "d", "o", 133)]
        links = [L(n, a, b, s * dn, cap_in=0 if ax["closed"] == n else None, toll=(ax["toll"] if n in ("md", "p1") else None), cap_out=0.3 if n == "md" else None) for n, a, b, s in ls]
        for i in range(ax["par"]):
            links.append(L(f"p{i+1}", "m", "d", (77 + 60 * i) * dn, 11, toll=(ax["toll"] if i == 0 else None)))
        nodes = [N("o"), N("m", 50, 50), N("k", 50, -50), N("d", 100, 0), N("x", -50, 0), N("iso", 500, 0)]
        orc.append(dict(scn=scn(nodes, links, demands=[["o", "d", 0, 20 * dn, 0.8], ["m", "d", 5 * dn, 22 * dn, 0.3], ["x", "k", 0, 20 * dn, 0.2]], deltan=dn, tmax=32 * dn,
                                duo_update_time=ax["dut"] * dn, duo_update_weight=ax["wt"], gradual=ax["grad"])))
    # exact route choice probabilities while preferences are being smoothed
    dist = []
    for wt, dut, ts, grad in ((0.5, 6, (0, 7, 13), False), (0.5, 6, (0, 13, 14), False), (0.25, 6, (0, 7, 8), False), (0.5, 4, (9, 10, 13), False), (1, 6, (0, 8, 14), False)) + (((0.5, 6, (0, 7, 13, 19), False), (0.25, 5, (0, 6, 11, 12), False)) if big else ()):
        for to in (None, [[0, 0], [25, 60]], [[0, 0], [25, 60], [55, 0]]):
            for three in (0, 1):
                dn = 5
                nodes = [N("o"), N("a", 50, 50), N("b", 50, 0), N("c", 50, -50), N("d", 100, 0)]
                links = [L("oa", "o", "a", 300), L("ad", "a", "d", 300, toll=to), L("ob", "o", "b", 350), L("bd", "b", "d", 300, toll=[[0, 0], [55, 90]] if three else None)]
                if three:
                    links += [L("oc", "o", "c", 500), L("cd", "c", "d", 300)]
                else:
                    nodes.pop(3)
                vs = [dict(o="o", d="d", ts=t) for t in ts]
                dist.append(dict(scn=scn(nodes, links, vehicles=vs, deltan=dn, tmax=45 * dn, duo_update_time=dut * dn, duo_update_weight=wt, hard=False, gradual=grad), grid=4, live=[[1, 0]], cpp=True))
    # vehicles that start before the first update, or whose destination is unreachable, choose uniformly
    for k in (2, 3, 4):
        nodes = [N("o"), N("d")] + [N(f"m{i}", i, 0) for i in range(k)] + [N("z")]
        links = [L(f"o{i}", "o", f"m{i}", 300 + 50 * i) for i in range(k)] + [L(f"d{i}", f"m{i}", "d", 300) for i in range(k)]
        dist.append(dict(scn=scn(nodes, links, vehicles=[dict(o="o", d="z", ts=0), dict(o="o", d="d", ts=0), dict(o="o", d="z", ts=8)], deltan=5, tmax=150, duo_update_time=30, hard=False), grid=k if k != 3 else 3, live=[[1, 0]], cpp=True))
    # en-route choice at an intermediate node
    nodes = [N("s"), N("o"), N("a", 50, 50), N("b", 50, 0), N("d", 100, 0)]
    links = [L("so", "s", "o", 200), L("oa", "o", "a", 300), L("ad", "a", "d", 300, toll=[[0, 0], [25, 60]]), L("ob", "o", "b", 350), L("bd", "b", "d", 300)]
    for ts in ((0, 3), (0, 5, 8), (4, 5, 6)):
        dist.append(dict(scn=scn(nodes, links, vehicles=[dict(o="s", d="d", ts=t) for t in ts], deltan=5, tmax=200, duo_update_time=30, hard=False), grid=4, live=[[2, 0]], cpp=True))
    # route-cost noise: every perturbation of every link enumerated (grid of two levels)
    noise = []
    for nz in (0.01, 0.3, 1.0):
        for la in (300, 320, 420):
            nodes = [N("o"), N("a", 50, 50), N("b", 50, 0), N("d", 100, 0)]
            links = [L("oa", "o", "a", la), L("ad", "a", "d", 300), L("ob", "o", "b", 350), L("bd", "b", "d", 299, toll=5)]
            for wt in (1, 0.5):
                noise.append(dict(scn=scn(nodes, links, vehicles=[dict(o="o", d="d", ts=1)] + ([dict(o="o", d="d", ts=8)] if wt == 1 or big else []), deltan=5, tmax=50 if not big else 60, duo_update_time=30, duo_update_weight=wt, duo_noise=nz, hard=False, ittint=1), grid=2,
                                  live=[], cpp=True))
    return [Family("digraphs", dig, run_det, cpp=True, note="digraphs on four nodes connecting origin and destination, congestion-dependent rerouting, conformance to the reference model"),
            Family("information", orc, run_oracle, cpp=True, note="after every step: published distances / next nodes / records / preferences against an independent shortest path solver; tolls in time, parallel, closed and isolated parts"),
            Family("choice", dist, run_dist, cpp=True, note="exact probability of every route of every vehicle, all draws enumerated", timeout=300),
            Family("noise", noise, run_dist, cpp=True, note="exact outcome distribution with every perturbation of every link cost enumerated", timeout=300)]


RUNNER = ScriptedRunner("P09", "model_checking",
                "Digraphs on four nodes, the information grid and all random draws of the choice and noise families; distinct = distinct vehicle histories / preference matrices / outcome classes.",
                families, ["link costs without exact ties (digraphs family): the next hop is then unique", "noise draws on a two-level grid", "floating point tolerance 1e-6"])
