"""P21: route and shortest-path utilities return what they promise on every network."""
import itertools, math, random, warnings
import numpy as np
from mc import script
from mc.runner import ScriptedRunner, Family
from mc.nets import *
from mc import scenario as S

INF = math.inf
PRIMES = [101, 139, 173, 211, 251, 293, 337, 379, 421, 463, 509, 557, 601, 653]


def U():
    import uxsim.Utilities as u
    return u


# ------------------------------------------------------------------ oracles: brute force on the scenario description
def node_paths(n, pairs, a, b):
    """all simple node paths from a to b"""
    out, st = [], [(a,)]
    while st:
        p = st.pop()
        if p[-1] == b:
            out.append(p)
            continue
        for (i, j) in pairs:
            if i == p[-1] and j not in p:
                st.append(p + (j,))
    return out


def pair_links(scn):
    d = {}
    for l in scn["links"]:
        d.setdefault((l["from"], l["to"]), []).append(l["name"])
    return d


def ksp(scn, cost, a, b):
    """[(cost, node path)] cheapest first, with the cheapest of parallel links"""
    pl = pair_links(scn)
    best = {p: min(cost[x] for x in ls) for p, ls in pl.items()}
    r = [(sum(best[e] for e in zip(p, p[1:])), p) for p in node_paths(None, list(pl), a, b)]
    return sorted(r, key=lambda x: x[0])


def check_routes(ctx, tag, scn, cost, a, b, k, routes, costs):
    ref = ksp(scn, cost, a, b)
    ends = {l["name"]: (l["from"], l["to"]) for l in scn["links"]}
    for r in routes:
        nodes = [a] + [ends[x][1] for x in r if x in ends]
        ok = all(x in ends for x in r) and [ends[x][0] for x in r] == nodes[:-1] and nodes[-1] == b and len(set(nodes)) == len(nodes)
        ctx.check(ok, "invalid-route", lambda: f"{tag}: {r} is not a loopless route from {a} to {b}")
    ctx.check(len({tuple(r) for r in routes}) == len(routes), "duplicate-route", lambda: f"{tag}: {routes}")
    own = [sum(cost[x] for x in r if x in cost) for r in routes]
    exp = [c for c, _ in ref[:k]]
    d = S.diff(exp, own, tol=1e-9)
    ctx.check(d is None, "not-the-k-shortest", lambda: f"{tag}: costs of the {k} cheapest routes from {a} to {b} are {exp}, returned routes {routes} cost {own}")
    if costs is not None:
        d = S.diff(own, [float(c) for c in costs], tol=1e-9)
        ctx.check(d is None, "cost", lambda: f"{tag}: routes {routes} cost {own}, reported {costs}")
    ctx.state((tag, a, b, k, tuple(map(tuple, routes))))


def static_cost(scn, f):
    return {l["name"]: f(l) for l in scn["links"]}


def run_ksp(case, ctx):
    scn = case["scn"]
    u = U()
    for cpp in (0, 1):
        W = S.build(scn, bool(cpp))
        if case["run"] is not None:
            W.exec_simulation(**({"until_t": case["run"]} if case["run"] >= 0 else {}))
        names = [n["name"] for n in scn["nodes"]]
        linked = {x for l in scn["links"] for x in (l["from"], l["to"])}
        free = static_cost(scn, lambda l: l["length"] / l["u"])
        dist = static_cost(scn, lambda l: l["length"])
        for a, b in itertools.permutations(names, 2):
            for k in case["ks"]:
                jobs = [("free-flow", free, lambda: u.enumerate_k_shortest_routes(W, a, b, k=k, return_cost=True)),
                        ("length", dist, lambda: u.enumerate_k_shortest_routes(W, W.get_node(a), W.get_node(b), k=k, cost_function=lambda l: l.length, return_cost=True))]
                for t in case.get("ts", []):
                    inst = {l.name: float(l.instant_travel_time(t)) for l in W.LINKS}
                    act = {l.name: float(l.actual_travel_time(t)) for l in W.LINKS}
                    jobs.append((f"instant t={t}", inst, lambda t=t: u.enumerate_k_shortest_routes_on_t(W, a, b, t=t, k=k, return_cost=True)))
                    jobs.append((f"actual t={t}", act, lambda t=t: u.enumerate_k_shortest_routes_on_t(W, a, b, t=t, k=k, cost_function=lambda l, t: l.actual_travel_time(t), return_cost=True)))
                for tag, cost, job in jobs:
                    ctx.transitions += 1
                    if not ksp(scn, cost, a, b):
                        try:
                            r = job()[0]
                        except Exception:
                            r = []
                        ctx.check(r == [], "route-without-connection", lambda: f"{tag}: {a}->{b} are not connected but {r} was returned")
                        continue
                    routes, costs = job()
                    check_routes(ctx, f"{('py', 'cpp')[cpp]} {tag}", scn, cost, a, b, k, routes, costs)
                if k == 1 and ksp(scn, free, a, b):
                    r = u.enumerate_k_shortest_routes(W, a, b)
                    check_routes(ctx, "default", scn, free, a, b, 1, r, None)
        ctx.traces += 1
    ctx.outcome(repr(sorted((l["from"], l["to"]) for l in scn["links"])))


# ------------------------------------------------------------------ all-pairs
def bellman(scn, cost):
    names = [n["name"] for n in scn["nodes"]]
    D = {(a, b): 0.0 if a == b else INF for a in names for b in names}
    for _ in names:
        for l in scn["links"]:
            for b in names:
                D[l["from"], b] = min(D[l["from"], b], cost[l["name"]] + D[l["to"], b])
    return D


def check_forms(ctx, tag, W, exp, dic, mat):
    names = [n.name for n in W.NODES]
    d = S.diff({f"{a},{b}": exp[a, b] for a in names for b in names}, {f"{a},{b}": float(dic[a, b]) for a in names for b in names})
    ctx.check(d is None, "all-pairs", lambda: f"{tag}: expected vs returned {d}")
    d = S.diff([[exp[a, b] for b in names] for a in names], [[float(x) for x in r] for r in mat])
    ctx.check(d is None, "all-pairs-matrix", lambda: f"{tag}: expected vs returned {d}")
    ok = all(float(dic[x, y]) == float(dic[x.name, y.name]) for x in W.NODES for y in W.NODES)
    ctx.check(ok and len(dic) == 2 * len(names) ** 2, "all-pairs-keys", f"{tag}: keys by node and by name differ")


def run_pairs(case, ctx):
    scn = case["scn"]
    u = U()
    w = scn["world"]
    dt = w["deltan"] * w.get("reaction_time", 1)
    kr = max(1, int(w["duo_update_time"] / dt + 1e-9))
    for cpp in (0, 1):
        W = S.build(scn, bool(cpp))
        dist = bellman(scn, static_cost(scn, lambda l: l["length"]))
        check_forms(ctx, "distance", W, dist, u.get_shortest_path_distance_between_all_nodes(W), u.get_shortest_path_distance_between_all_nodes(W, return_matrix=True))
        rec = {}
        for stop in case["stops"]:
            if stop > getattr(W, "T", 0):
                W.exec_simulation(duration_t2=(stop - getattr(W, "T", 0)) * dt)
            for T in range(0, stop, kr):
                if T not in rec:
                    tie = {}
                    for l in W.LINKS:
                        tie.setdefault((l.start_node.name, l.end_node.name), []).append(float(l.instant_travel_time(T * dt)))
                    cost = {l["name"]: sum(tie[l["from"], l["to"]]) / len(tie[l["from"], l["to"]]) for l in scn["links"]}
                    rec[T] = bellman(scn, cost)
            cur = rec[max(rec)]
            check_forms(ctx, f"instantaneous at step {stop}", W, cur, u.get_shortest_path_instantaneous_travel_time_between_all_nodes(W), u.get_shortest_path_instantaneous_travel_time_between_all_nodes(W, return_matrix=True))
            for t in case["ts"]:
                if t > stop * dt:
                    continue
                T = max(k for k in rec if k * dt <= t + 1e-9)
                ctx.transitions += 1
                f = u.get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t
                dic, tm = f(W, t, return_time=True)
                check_forms(ctx, f"on_t t={t} at step {stop}", W, rec[T], dic, f(W, t, return_matrix=True))
                ctx.check(abs(tm - T * dt) < 1e-6, "time-of-computation", lambda: f"t={t} at step {stop}: the costs were computed at time {T * dt}, reported {tm}")
                ctx.state((stop, t, T))
        ctx.traces += 1
    ctx.outcome(repr(w) + repr(sorted((l["from"], l["to"]) for l in scn["links"])))


# ------------------------------------------------------------------ random routes: the draws are enumerated
def run_random(case, ctx):
    scn, seqs, k = case["scn"], case["seqs"], case["k"]
    u = U()
    m = len(scn["links"])
    names = [n["name"] for n in scn["nodes"]]
    free = static_cost(scn, lambda l: l["length"] / l["u"])
    pl = pair_links(scn)
    Wp, Wc = S.build(scn, False), S.build(scn, True)
    Wp.finalize_scenario()
    for ranks in seqs:
        for cpp in (0, 1):
            flat = [r for perm in ranks for r in perm]
            if cpp:
                script.CppScript(type("C", (), dict(prefix=flat))(), grid=m)
                res = u.enumerate_k_random_routes(Wc, k)
            else:
                it = iter(flat)
                old = random.uniform
                random.uniform = lambda a, b: a + (b - a) * (next(it, 0) + 0.5) / m
                try:
                    res = u.enumerate_k_random_routes(Wp, k)
                finally:
                    random.uniform = old
            ctx.transitions += 1
            # reference: the free-flow shortest route, then the shortest route under each assignment of weights
            for a, b in itertools.permutations(names, 2):
                exp = []
                for q in [None] + list(ranks) + [[0] * m]:
                    cost = {l["name"]: free[l["name"]] * (1 if q is None else (q[i] + 0.5)) for i, l in enumerate(scn["links"])}
                    r = ksp(scn, cost, a, b)
                    if not r:
                        break
                    p = tuple(min(pl[e], key=lambda x: cost[x]) for e in zip(r[0][1], r[0][1][1:]))
                    if len(r) > 1 and r[1][0] - r[0][0] < 1e-9 * r[0][0]:
                        exp = None
                        break
                    if p not in exp and len(exp) < k:
                        exp.append(p)
                if exp is None:
                    continue
                got = res.get((a, b), [])
                ends = {l["name"]: (l["from"], l["to"]) for l in scn["links"]}
                try:
                    nodes = [tuple([a] + [ends[x][1] for x in rr]) for rr in got]
                    val = all([ends[x][0] for x in rr] == list(p[:-1]) for rr, p in zip(got, nodes))
                except KeyError:
                    nodes, val = got, False
                ctx.check(val, "invalid-random-route", lambda: f"cpp={cpp}: {got} are not routes from {a} to {b}")
                links = [tuple(rr) for rr in got]
                ctx.check(links == exp, "random-routes", lambda: f"cpp={cpp}: weights {ranks}: routes from {a} to {b} {links}, expected {exp}")
                if got and exp:
                    c = sum(free[x] for x in got[0])
                    ctx.check(abs(c - ksp(scn, free, a, b)[0][0]) < 1e-9, "shortest-not-included", lambda: f"cpp={cpp}: first route {got[0]} from {a} to {b} costs {c}, the shortest is {ksp(scn, free, a, b)[0]}")
                ctx.state((a, b, tuple(nodes)))
        ctx.traces += 1
    ctx.outcome(repr(sorted((l["from"], l["to"]) for l in scn["links"])))


# ------------------------------------------------------------------ time-space network
def run_tsn(case, ctx):
    scn, dt, full = case["scn"], case["dt"], case["full"]
    u = U()
    for cpp in (0, 1):
        W = S.simulate(scn, bool(cpp))
        u.construct_time_space_network(W, dt=dt, from_origin_only=not full)
        step = dt if dt is not None else max(1, int(W.DELTAT))
        times = list(range(0, int(W.TMAX), step))
        adj = {}
        for l in W.LINKS:
            for t in times:
                tt = float(l.traveltime_actual[int(t / W.DELTAT + 1e-9)])
                ta = int((t + tt) / step + 1e-9) * step
                if ta < W.TMAX:
                    e = ((l.start_node.name, t), (l.end_node.name, ta))
                    adj[e] = min(adj.get(e, INF), tt)
        for n in W.NODES:
            for t in times:
                adj[(n.name, t), (n.name, "end")] = 0.0
        out = {}
        for (x, y), c in adj.items():
            out.setdefault(x, []).append((y, c))
        src = {(n.name, t) for n in W.NODES for t in times} if full else {(v.orig.name, int(v.departure_time_in_second / step + 1e-9) * step) for v in W.VEHICLES.values()}
        got = {x for x in W.TSN_costs if x[1] != "end"}
        ctx.check(got == src, "tsn-sources", lambda: f"sources {sorted(got ^ src)[:4]} differ")
        for s in sorted(src & got):
            # label correcting
            D, todo = {s: 0.0}, [s]
            while todo:
                x = todo.pop()
                for y, c in out.get(x, ()):
                    if D[x] + c < D.get(y, INF) - 1e-12:
                        D[y] = D[x] + c
                        todo.append(y)
            ctx.transitions += 1
            C, P = W.TSN_costs[s], W.TSN_paths[s]
            a = {str(y): c for y, c in D.items() if y[1] == "end"}
            b = {str(y): float(c) for y, c in C.items() if y[1] == "end"}
            d = S.diff(a, b)
            ctx.check(d is None, "tsn-cost", lambda: f"cpp={cpp} from {s}: shortest vs reported {d}")
            for y, p in P.items():
                if y[1] == "end" and y in D:
                    ok = p[0] == s and p[-1] == y and all(e in adj for e in zip(p, p[1:]))
                    c = sum(adj.get(e, INF) for e in zip(p, p[1:]))
                    ctx.check(ok and abs(c - D[y]) < 1e-6, "tsn-path", lambda: f"cpp={cpp} from {s} to {y}: path {p} costs {c}, shortest {D[y]}")
            ctx.state((s, tuple(sorted((k, round(v, 6)) for k, v in a.items()))))
        ctx.traces += 1
    ctx.outcome(repr(case["dt"]) + repr(full) + repr(scn["world"]) + str(len(scn["links"])))


# ------------------------------------------------------------------ grid networks
def run_grid(case, ctx):
    u = U()
    for cpp in (0, 1):
        W = S.make_world(dict(world=dict(tmax=10)), cpp=bool(cpp))
        nodes, links = u.generate_grid_network(W, case["i"], case["j"], **case["kw"])
        exp_n = {f"n{(i, j)}": (i, j) for i in range(case["i"]) for j in range(case["j"])}
        exp_l = {}
        for (i, j) in exp_n.values():
            for di, dj in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                if f"n{(i + di, j + dj)}" in exp_n:
                    exp_l[f"l{(i, j, i + di, j + dj)}"] = (f"n{(i, j)}", f"n{(i + di, j + dj)}")
        ctx.check({n.name: (n.x, n.y) for n in W.NODES} == exp_n, "grid-nodes", lambda: f"{[(n.name, n.x, n.y) for n in W.NODES]}")
        ctx.check({l.name: (l.start_node.name, l.end_node.name) for l in W.LINKS} == exp_l, "grid-links", lambda: f"{[l.name for l in W.LINKS]}")
        ctx.check({k: v.name for k, v in nodes.items()} == {v: k for k, v in exp_n.items()}, "grid-node-dict", "")
        ctx.check({k: v.name for k, v in links.items()} == {eval(k[1:]): k for k in exp_l}, "grid-link-dict", "")
        for l in W.LINKS:
            ctx.check(l.length == case["kw"]["length"] and l.number_of_lanes == case["kw"].get("number_of_lanes", 1), "grid-attributes", f"{l.name}")
        ctx.traces += 1
        ctx.transitions += len(exp_l)
        ctx.state(tuple(sorted(exp_l)))
    ctx.outcome(repr((case["i"], case["j"])))


# ------------------------------------------------------------------ congestion externality
def run_ext(case, ctx):
    scn = case["scn"]
    u = U()
    Ws = [S.simulate(scn, False), S.simulate(scn, True)]
    dt = Ws[0].DELTAT
    for t in [x * dt / 2 for x in range(0, 2 * Ws[0].TSIZE - 2)]:
        for l in Ws[0].LINKS:
            with warnings.catch_warnings(record=True) as wr:
                warnings.simplefilter("always")
                a = float(u.estimate_congestion_externality_link(Ws[0], l.name, t))
            b = float(u.estimate_congestion_externality_link(Ws[1], l.name, t))
            ctx.transitions += 1
            ctx.check(a >= 0 and b >= 0, "negative-externality", lambda: f"{l.name} at t={t}: {a}, {b}")
            if any("estimate_congestion" in str(w.message) for w in wr):
                ctx.count("beyond_horizon", 1)
                continue
            ctx.check(abs(a - b) < 1e-6, "externality-differs", lambda: f"{l.name} at t={t}: Python {a}, C++ {b}")
            free = l.length / l.u
            if float(l.traveltime_actual[int(t / dt + 1e-9)]) <= free * 1.01:
                ctx.check(a == 0, "externality-without-congestion", lambda: f"{l.name} at t={t}: {a} although the link is in free flow")
            ctx.state((l.name, round(a, 6)))
            ctx.outcome((l.name, round(a, 3)))
        for r in case["routes"]:
            with warnings.catch_warnings(record=True) as wr:
                warnings.simplefilter("always")
                a = float(u.estimate_congestion_externality_route(Ws[0], Ws[0].defRoute(r), t))
            b = float(u.estimate_congestion_externality_route(Ws[1], Ws[1].defRoute(r), t))
            if any("estimate_congestion" in str(w.message) for w in wr):
                continue
            e, tt = 0.0, t
            for x in r:
                if int(tt / dt + 1e-9) >= Ws[0].TSIZE:
                    e = None
                    break
                e += float(u.estimate_congestion_externality_link(Ws[0], x, tt))
                tt += float(Ws[0].get_link(x).actual_travel_time(tt))
            if e is None:
                continue
            ctx.check(abs(a - e) < 1e-6, "route-externality", lambda: f"route {r} at t={t}: {a}, sum over links {e}")
            ctx.check(abs(a - b) < 1e-6, "route-externality-differs", lambda: f"route {r} at t={t}: Python {a}, C++ {b}")
    ctx.traces += 2


def digraphs(n, lo, hi, par=False):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for m in range(lo, hi + 1):
        for es in itertools.combinations(pairs, m):
            yield es


def net(n, es, dn=1, par=None, dem=(), **w):
    nodes = [N(f"n{i}", i * 100, (i % 2) * 70) for i in range(n)]
    links = [L(f"l{a}{b}", f"n{a}", f"n{b}", PRIMES[(a * n + b) % 14] * dn, (20, 13, 7)[(a + 2 * b) % 3]) for a, b in es]
    if par is not None:
        (a, b), f = par
        links.append(L("par", f"n{a}", f"n{b}", PRIMES[(a * n + b) % 14] * dn * f, (20, 13, 7)[(a + 2 * b) % 3]))
    return scn(nodes, links, demands=dem, **{**dict(deltan=dn, tmax=30 * dn, duo_update_time=5 * dn), **w})


def equal(scn):
    """all links alike: routes with equally many links tie"""
    for l in scn["links"]:
        l["length"], l["u"] = 200, 10
    return scn


def families(tier):
    big = tier == "thorough"
    k1, pairs, rnd, tsn, grid, ext = [], [], [], [], [], []
    ks = [1, 2, 3, 10]
    for es in digraphs(3, 1, 6):
        k1.append(dict(scn=net(3, es), ks=ks, run=None))
        for e in es:
            for f in (0.5, 1.5):
                k1.append(dict(scn=net(3, es, par=(e, f)), ks=[1, 2], run=None))
    for es in digraphs(4, 3, 12 if big else 6):
        if len(es) >= 6 and not big and (sum(a * 4 + b for a, b in es) * 37 + len(k1)) % 4:
            continue
        k1.append(dict(scn=net(4, es), ks=[1, 2, 20], run=None))
    for n, lo, hi in ((3, 1, 6), (4, 4, 12 if big else 6)):
        for i, es in enumerate(digraphs(n, lo, hi)):
            if len(es) >= 6 and n == 4 and not big and i % 4:
                continue
            k1.append(dict(scn=equal(net(n, es)), ks=[1, 2, 3, 20], run=None))
            if n == 3:
                k1.append(dict(scn=equal(net(3, es, par=(es[0], 1))), ks=[1, 2, 20], run=None))
    dia = [(0, 1), (1, 3), (0, 2), (2, 3), (1, 2), (3, 0)]
    for dn in (1, 5):
        dem = [["n0", "n3", 0, 18 * dn, 0.9], ["n1", "n2", 0, 15 * dn, 0.3]]
        for par in (None, ((0, 1), 0.5), ((1, 3), 1.5)):
            for run in (4 * dn, 15 * dn, -1):
                k1.append(dict(scn=net(4, dia, dn, par=par, dem=dem), ks=[1, 3], run=run, ts=[0, dn * 7, 13.5 * dn, 29 * dn, 40 * dn]))
    for es in list(digraphs(3, 1, 6)) + [tuple(dia)] + ([e for e in digraphs(4, 4, 5)] if big else []):
        n = 4 if max(max(e) for e in es) == 3 or es == tuple(dia) else 3
        src = [(a, b) for a, b in es][:3]
        for dn in (1, 5):
            for dut in (5 * dn, 7.5 * dn, 3.4 * dn, 1 * dn) if n == 4 or len(es) in (3, 6) else (7.5 * dn,):
                dem = [[f"n{a}", f"n{b}", 0, 15 * dn, 0.8] for a, b in src]
                for par in (None, (es[0], 1.5)) if len(es) > 2 else (None,):
                    pairs.append(dict(scn=net(n, es, dn, par=par, dem=dem, duo_update_time=dut), stops=[1, 6, 7, 8, 15, 30], ts=[0, 1, 4.9 * dn, 5 * dn, 7 * dn, 7.5 * dn, 10 * dn, 14 * dn, 15 * dn, 22.5 * dn, 29 * dn, 30 * dn, 100 * dn]))
    for es in digraphs(3, 2, 4 if not big else 5):
        perms = list(itertools.permutations(range(len(es))))
        for k in (1, 2, 5):
            rnd.append(dict(scn=net(3, es), k=k, seqs=[[list(p)] for p in perms]))
    for es in (dia[:5], dia[1:] + [(0, 1)], [(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)]):
        perms = [list(p) for p in itertools.permutations(range(len(es)))]
        step = 1 if big else 7
        for k in (2, 3, 9):
            rnd.append(dict(scn=net(4, es), k=k, seqs=[[p] for p in perms]))
            rnd.append(dict(scn=net(4, es), k=k, seqs=[[p, q] for i, p in enumerate(perms[::step]) for q in perms[i % 5::step * 2 if len(es) < 6 else step * 9]]))
    for es in digraphs(3, 2, 3):
        for e in es:
            for f in (0.5, 1.5):
                rnd.append(dict(scn=net(3, es, par=(e, f)), k=2, seqs=[[list(p)] for p in itertools.permutations(range(len(es) + 1))]))
    for dn in (1, 2, 5):
        for par in (None, ((0, 1), 0.9), ((0, 1), 1.04), ((1, 3), 0.97)):
            for dtm in (None, 2 * dn, 3 * dn, 1):
                for full in (False, True):
                    tsn.append(dict(scn=net(4, dia, dn, par=par, dem=[["n0", "n3", 0, 18 * dn, 0.9], ["n1", "n2", 2 * dn, 15 * dn, 0.3]], tmax=40 * dn), dt=dtm, full=full))
    tsn += frac(tsn, 3 if big else 7, rt=0.7) + frac(tsn, 4 if big else 9, first=1, rt=0.75)
    for i in range(1, 5 if big else 4):
        for j in range(1, 5 if big else 4):
            for kw in (dict(length=100), dict(length=55.5, number_of_lanes=2, free_flow_speed=13)):
                grid.append(dict(i=i, j=j, kw=kw))
    for dn in (1, 5):
        for co in (0.2, 0.35, 0.5):
            for fl in (0.5, 0.9):
                s = net(4, dia, dn, dem=[["n0", "n3", 0, 30 * dn, fl], ["n1", "n3", 5 * dn, 20 * dn, 0.3]], tmax=90 * dn)
                for l in s["links"]:
                    if l["to"] == "n3":
                        l["cap_out"] = co
                ext.append(dict(scn=s, routes=[["l01", "l13"], ["l02", "l23"], ["l01", "l12", "l23"], ["l13"]]))
    return [
        Family("k-shortest", k1, run_ksp, cpp=True, note="every digraph on three nodes (also with each link doubled, cheaper or dearer) and on four nodes with up to six links, with distinct lengths and with all links alike, all node pairs, k from 1 to more than there are routes, free-flow time, length, instantaneous and actual travel times"),
        Family("all-pairs", pairs, run_pairs, cpp=True, note="distance and instantaneous travel time matrices at every stop, for query times on and between the updates, update intervals that are and are not multiples of the timestep"),
        Family("random-routes", rnd, run_random, cpp=True, note="every order of random link weights (and sequences of two of them), in both engines through their random sources"),
        Family("time-space", tsn, run_tsn, cpp=True, note="time-dependent shortest paths from all origins and departure times"),
        Family("grid", grid, run_grid, cpp=True, note="all grid sizes up to the bound"),
        Family("externality", ext, run_ext, cpp=True, note="every link, and the listed routes, at every half timestep"),
    ]


RUNNER = ScriptedRunner("P21", "model_checking",
                        "exhaustive enumeration of small networks, node pairs, k, query times and orders of random weights; results compared with brute-force enumeration of all simple paths",
                        families, ["of parallel links the cheapest one represents the node pair", "which of several routes of equal cost are returned when k cuts between them is a matter of choice", "externality values whose look-ahead leaves the simulated horizon are not compared"])
