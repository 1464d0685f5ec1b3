"""P23: the day-to-day assignment solvers perform exactly the dynamics they document: every day is a real
simulation under the routes chosen the day before, choices move only to the cheapest alternative, each
vehicle decides on its own, and the reported measures and solutions are those of the days simulated."""
import itertools, random, warnings, math
import numpy as np
from mc import env, script
from mc.runner import ScriptedRunner, Family, explore, Chooser
from mc.nets import *
from mc import scenario as S
from mc.refsim import eval_toll
from .p20 import quiet

EPS = 1e-6


class Draws(script.ScriptRNG):
    def randint(self, a, b=None):
        if b is not None and b - a > 1000:      # seeds of other generators
            return a
        return super().randint(a, b)


class patched:
    """the global random source of Python becomes `rng`"""
    NAMES = ("random", "randint", "sample", "choice", "shuffle", "choices", "randrange")     # not uniform: it weighs links while routes are enumerated

    def __init__(s, rng, names=NAMES):
        s.rng, s.names = rng, names

    def __enter__(s):
        s.old = {n: getattr(random, n) for n in s.names}
        for n in s.names:
            setattr(random, n, getattr(s.rng, n))

    def __exit__(s, *a):
        for n, f in s.old.items():
            setattr(random, n, f)


# ---------------------------------------------------------------------------- running a solver
def solve(case, ch, cpp, live_py=True):
    """worlds of all days, solver"""
    env.load(cpp=cpp)
    from uxsim.DTAsolvers.DTAsolvers import SolverDUE, SolverDSO_D2D
    scn = case["scn"]
    worlds, mark = [], []

    def func():
        W = S.build(scn, cpp)
        worlds.append(W)
        if len(worlds) == case["iters"] + 1 and case["iters"] > 1:
            # the decisions of the last day have no consequences: they are not explored
            if cpp:
                mark.append(script._lib.uxmc_len())
            else:
                rng.live = False
        return W
    kw = dict(print_progress=False)
    if case.get("sets") is not None:
        conv = case.get("refs", "name")
        R = {}
        X = S.build(scn, cpp)
        for (o, d), rs in case["sets"]:
            o, d = (X.get_node(o), X.get_node(d)) if conv == "obj" else (o, d)
            R[o, d] = [[X.get_link(l) for l in r] if conv == "obj" else list(r) for r in rs]
        kw["route_sets"] = R
    if case.get("k"):
        kw["n_routes_per_od"] = case["k"]
    if case.get("num") is not None:
        kw["swap_num"] = case["num"]
    if case.get("prob") is not None:
        kw["swap_prob"] = case["prob"]
    sol = (SolverDUE if case["kind"] == "due" else SolverDSO_D2D)(func, cpp=bool(cpp))
    if case.get("seed") is not None:
        random.seed(case["seed"])
    rng = Draws(ch if not cpp else None, grid=case.get("grid", 2))
    names = patched.NAMES if case.get("sets") is not None else ("random", "sample")
    if cpp:
        names = ("randint",) if case.get("seed") is None else ()
    sc = script.CppScript(ch, grid=case.get("grid", 2)) if cpp else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with quiet(), patched(rng, names):
            ret = sol.solve(case["iters"], **kw)
    if sc:
        sc.finish()
        if mark:
            ch.trace = ch.trace[:max(mark[0], len(ch.prefix))]
    return worlds, sol, ret


# ---------------------------------------------------------------------------- oracle
def travelled(W):
    out = {}
    for n, v in W.VEHICLES.items():
        r, ts = v.traveled_route()
        out[n] = ([l.name for l in r], [float(t) for t in ts], str(v.state))
    return out


class Costs:
    """what routes cost on a day that was simulated"""

    def __init__(s, scn, W, kind, cpp):
        s.scn, s.W, s.kind = scn, W, kind
        s.dt = W.DELTAT
        s.tt = {l.name: [float(x) for x in l.traveltime_actual] for l in W.LINKS}
        s.toll = {l["name"]: l.get("toll") for l in scn["links"]}
        s.memo = {}

    def link(s, l, t):
        a = s.tt[l]
        return a[min(max(int(t / s.dt + 1e-9), 0), len(a) - 1)]

    def ext(s, l, t):
        from uxsim.Utilities import estimate_congestion_externality_link
        if (l, t) not in s.memo:
            s.memo[l, t] = float(estimate_congestion_externality_link(s.W, l, t))
        return s.memo[l, t]

    def route(s, r, t, entries=None):
        c = 0.0
        for i, l in enumerate(r):
            if s.kind == "due":
                c += eval_toll(s.toll[l], entries[i] if entries else t)
            else:
                c += s.ext(l, t)
            x = s.link(l, t)
            c += x
            t += x
        return c


def fresh(scn, routes, cpp, memo):
    """the world in which the vehicles are told these routes"""
    k = (bool(cpp), tuple(sorted((n, tuple(r)) for n, r in routes.items())))
    if k not in memo:
        W = S.build(scn, cpp)
        for n, r in routes.items():
            W.VEHICLES[n].enforce_route(list(r))
        with quiet():
            W.exec_simulation()
        memo[k] = W
    return memo[k]


def measures(W):
    W.analyzer.basic_analysis() if hasattr(W.analyzer, "basic_analysis") else None
    a = W.analyzer
    return dict(trip_all=a.trip_all, trip_completed=a.trip_completed, ttt=a.total_travel_time, att=a.average_travel_time)


def frames(W, full):
    out = {}
    with quiet():
        for n in ("basic_to_pandas", "link_to_pandas", "od_to_pandas") + (("vehicles_to_pandas",) if full else ()):
            df = getattr(W.analyzer, n)()
            out[n] = [[c if isinstance(c, str) else round(float(c), 6) for c in row] for row in df.values.tolist()]
    return out


def eq(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or abs(a - b) < EPS or (math.isnan(a) and math.isnan(b))


def judge(case, ctx, cpp, worlds, sol, ret, memo, outcomes, tag):
    scn, kind, n_it = case["scn"], case["kind"], case["iters"]
    c = ctx.check
    dn = scn["world"]["deltan"]
    days = worlds[1:]
    if not c(len(days) == n_it, "number-of-days", lambda: f"{tag}: {len(days)} days were simulated"):
        return
    for name in ("ttts", "n_swaps", "potential_swaps", "t_gaps", "route_log", "cost_log", "dfs_link"):
        c(len(getattr(sol, name)) == n_it, "log-length", lambda: f"{tag}: {name} has {len(getattr(sol, name))} entries for {n_it} days")
    trav = [travelled(W) for W in days]
    spec = {}                       # routes told to the vehicles of the day
    keep = None
    hist = []
    best = []
    for i, W in enumerate(days):
        T = trav[i]
        for n, r in spec.items():
            got = T[n][0]
            c(got == r if T[n][2] == "end" else got == r[:len(got)], "route-not-followed", lambda: f"{tag} day {i}: {n} was assigned {r}, travelled {got} ({T[n][2]})")
        # the day is the simulation of exactly these routes
        R = fresh(scn, spec, cpp, memo)
        RT = travelled(R)
        c(RT == T, "day-is-not-a-simulation-of-its-routes", lambda: f"{tag} day {i}: routes {spec}: {T}, fresh simulation: {RT}")
        tts = [float(W.VEHICLES[n].travel_time) for n in T if T[n][2] == "end"]
        done = len(tts) == len(T)
        c(abs(sol.ttts[i] - sum(tts) * dn) < 1 + EPS and sol.ttts[i] <= sum(tts) * dn + EPS, "total-travel-time", lambda: f"{tag} day {i}: {sol.ttts[i]}, expected {sum(tts) * dn}")
        if done:
            best.append((sum(tts) / max(1, len(tts)), i))
        rows = [[x if isinstance(x, str) else float(x) for x in row] for row in sol.dfs_link[i].values.tolist()]
        with quiet():
            ref = [[x if isinstance(x, str) else float(x) for x in row] for row in R.analyzer.link_to_pandas().values.tolist()]
        c(eq(rows, ref), "link-table", lambda: f"{tag} day {i}: dfs_link {rows}, expected {ref}")
        c({n: list(r) for n, r in sol.route_log[i].items()} == {n: T[n][0] for n in T}, "route-log", lambda: f"{tag} day {i}: {sol.route_log[i]}, travelled {T}")
        for n in T:
            if T[n][2] == "end":
                e = T[n][1][-1] - T[n][1][0]
                c(abs(sol.cost_log[i][n] - e) < EPS, "cost-log", lambda: f"{tag} day {i}: {n}: {sol.cost_log[i][n]}, expected {e}")
        # choice sets
        od = dict((tuple(k), v) for k, v in case["sets"]) if case.get("sets") is not None else {k: list(v) for k, v in W.dict_od_to_routes.items()}
        ends = {l["name"]: (l["from"], l["to"]) for l in scn["links"]}
        if case.get("sets") is not None:
            c({k: [list(r) for r in v] for k, v in W.dict_od_to_routes.items()} == {k: [list(r) for r in v] for k, v in od.items()}, "route-sets", lambda: f"{tag}: {dict(W.dict_od_to_routes)}")
        else:
            for (o, d), rs in od.items():
                for r in rs:
                    ok = not r and o == d or (r and ends[r[0]][0] == o and ends[r[-1]][1] == d and all(ends[a][1] == ends[b][0] for a, b in zip(r, r[1:])))
                    c(ok, "invalid-route", lambda: f"{tag}: {o}->{d}: {r}")
                c(o == d or 1 <= len(rs) <= case["k"], "route-set-size", lambda: f"{tag}: {o}->{d}: {rs}")
        # the decisions of the day
        K = Costs(scn, W, kind, cpp)
        cand, gap, opts, nogap = [], 0.0, {}, False
        soft = []
        for n, (r, ts, st) in T.items():
            if st != "end":
                continue
            v = W.VEHICLES[n]
            rs = od.get((v.orig.name, v.dest.name), [])
            if case.get("sets") is not None and r not in [list(x) for x in rs]:
                opts[n] = ([list(rs[0])], False)
                continue
            cur = K.route(r, ts[0], ts)
            alts = [(K.route(x, ts[0]), list(x)) for x in rs]
            m = min(a for a, _ in alts)
            if m < cur - EPS:
                cand.append(n)
                gap += cur - m
                opts[n] = ([x for a, x in alts if a < m + EPS], True)
            else:
                # costs which are equal up to rounding errors
                ties = [x for a, x in alts if abs(a - cur) < EPS and x != r]
                if m < cur or ties and scn["world"].get("reaction_time", 1) % 1:
                    soft.append(n)
                    opts[n] = ([r] + ties, True)
                else:
                    opts[n] = ([r], False)
        c(abs(sol.t_gaps[i] - gap / len(T)) < 1e-4, "cost-gap", lambda: f"{tag} day {i}: reported {sol.t_gaps[i]}, expected {gap / len(T)}")
        if not soft:
            c(sol.potential_swaps[i] == dn * len(cand), "potential-swaps", lambda: f"{tag} day {i}: {sol.potential_swaps[i]} reported, vehicles with a cheaper alternative: {cand}")
        c(0 <= sol.n_swaps[i] <= sol.potential_swaps[i], "swaps", lambda: f"{tag} day {i}: {sol.n_swaps[i]} of {sol.potential_swaps[i]}")
        if case.get("num") is not None:
            c(sol.n_swaps[i] <= dn * case["num"], "too-many-swaps", lambda: f"{tag} day {i}: {sol.n_swaps[i]}")
        if case.get("prob") in (0, 1) and not soft and case.get("num") is None:
            c(sol.n_swaps[i] == (dn * len(cand) if case["prob"] else 0), "swap-probability", lambda: f"{tag} day {i}: {sol.n_swaps[i]} swaps at probability {case['prob']}, {len(cand)} candidates")
        if i + 1 < n_it:
            nxt, moved = {}, []
            for n, (alt, may) in opts.items():
                r = T[n][0]
                got = trav[i + 1][n][0]
                full = trav[i + 1][n][2] == "end"
                cho = [x for x in ([r] if may else []) + alt if (x == got if full else x[:len(got)] == got)]
                if not c(cho, "choice", lambda: f"{tag} day {i}: {n} travelled {r} at {T[n][1]}, next day {got}; admissible: {alt}{' or the same' if may else ''}"):
                    return
                if len(cho) > 1:
                    nogap = True
                nxt[n] = cho[0]
                if may and cho[0] != r:
                    moved.append(n)
            if not nogap and not soft:
                c(sol.n_swaps[i] == dn * len(moved), "number-of-swaps", lambda: f"{tag} day {i}: {sol.n_swaps[i]} reported, {moved} changed their routes")
                hist.append(tuple(sorted(moved)))
                outcomes.setdefault((i, tuple(hist[:-1])), [tuple(cand), set()])[1].add(tuple(sorted(moved)))
            else:
                hist.append(("?", i, tuple(sorted((n, tuple(r)) for n, r in nxt.items()))))
            spec = nxt
            ctx.state((i, tuple(sorted((n, tuple(r)) for n, r in nxt.items()))))
        ctx.transitions += 1
    # the solution
    c(ret is sol.W_sol, "returned-solution", f"{tag}: solve() returns something else than W_sol")
    if kind == "due":
        c(sol.W_sol is days[-1] and sol.W_intermid_solution is days[-1], "solution-is-not-the-last-day", f"{tag}")
        i = n_it - 1
    elif not best:
        c(sol.W_sol is None, "solution-with-unfinished-trips", f"{tag}")
        return
    else:
        m = min(a for a, _ in best)
        adm = [i for a, i in best if a < m + EPS]
        i = next((k for k, W in enumerate(days) if W is sol.W_sol), None)
        if not c(i in adm, "solution-is-not-the-best-day", lambda: f"{tag}: W_sol is day {i}, average travel times {best}"):
            return
    # what a user reads from the solution is the state of that day
    W = sol.W_sol
    prev = {}
    if i > 0:
        for n in trav[i]:
            if trav[i - 1][n][2] == "end":
                prev[n] = trav[i][n][0] if trav[i][n][2] == "end" else None
        prev = {n: r for n, r in prev.items() if r}
    R = fresh(scn, prev, cpp, memo)
    if travelled(R) == trav[i]:
        a, b = frames(W, i == n_it - 1), frames(R, i == n_it - 1)
        for k in a:
            c(eq(a[k], b[k]), "solution-table", lambda: f"{tag}: {k} of W_sol (day {i}) {a[k]}, of a fresh simulation of its routes {b[k]}")
        a, b = measures(W), measures(R)
        c(all(eq(a[k], b[k]) for k in a), "solution-measures", lambda: f"{tag}: {a}, fresh simulation {b}")


def run(case, ctx):
    cpp = case["cpp"]
    memo, outcomes = {}, {}

    def one(ch):
        worlds, sol, ret = solve(case, ch, cpp)
        judge(case, ctx, cpp, worlds, sol, ret, memo, outcomes, f"{case['kind']} {'C++' if cpp else 'Python'}")
    full = case.get("bound") is None and case.get("sets") is not None
    explore(one, ctx, bound=case.get("bound"), cap=case.get("cap", 6000))
    if full and not ctx.viol and not ctx.capped:
        # every vehicle decides on its own: each combination of decisions occurs
        for (i, h), (cand, seen) in outcomes.items():
            num = case.get("num")
            exp = {t for k in range(len(cand) + 1) for t in itertools.combinations(sorted(cand), k) if case.get("prob") not in (0, 1) and num is None}
            if exp:
                ctx.check(seen == exp, "decisions-not-independent", lambda: f"day {i} after {h}: candidates {cand}, combinations that occurred {sorted(seen)}")
    ctx.outcome(sorted((i, h, tuple(c), tuple(sorted(x))) for (i, h), (c, x) in outcomes.items()))
    if not any(len(c) for c, _ in outcomes.values()):
        ctx.trivial = True


def run_num(case, ctx):
    """exactly the vehicles of a sample of the given size may move, every sample is possible"""
    cpp = case["cpp"]
    memo, outcomes = {}, {}

    def one(ch):
        worlds, sol, ret = solve(case, ch, cpp)
        judge(case, ctx, cpp, worlds, sol, ret, memo, outcomes, f"{case['kind']} swap_num={case['num']} {'C++' if cpp else 'Python'}")
    explore(one, ctx, bound=case.get("bound"), cap=case.get("cap", 6000))
    if not ctx.viol and not ctx.capped and (0, ()) in outcomes:
        cand, seen = outcomes[0, ()]
        n = len(case["scn"]["vehicles"])
        exp = {tuple(sorted(set(s) & set(cand))) for s in itertools.combinations(sorted(str(i) for i in range(n)), min(case["num"], n))}
        ctx.check(seen == exp, "samples", lambda: f"candidates {cand}, combinations that occurred {sorted(seen)}, expected {sorted(exp)}")


# ---------------------------------------------------------------------------- alphabet
def tri(dn, toll=None, cap=0.4, lens=(200, 260, 320), rt=1.0, tmax=None):
    """three disjoint routes; the shortest one has a bottleneck"""
    f = dn * rt
    nodes = [N("o"), N("a", 1, 1), N("b", 1, 0), N("c", 1, -1), N("d", 2, 0)]
    links = []
    for m, le in zip("abc", lens):
        links += [L("o" + m, "o", m, le * f, toll=toll if m == "a" else None), L(m + "d", m, "d", 100 * f, cap_out=cap if m != "c" else None)]
    sets = [[("o", "d"), [["oa", "ad"], ["ob", "bd"], ["oc", "cd"]]]]
    return nodes, links, sets


def braess(dn, toll=None, cap=0.4, rt=1.0):
    f = dn * rt
    nodes = [N("o"), N("a", 1, 1), N("b", 1, -1), N("d", 2, 0)]
    links = [L("oa", "o", "a", 200 * f, cap_out=cap), L("ob", "o", "b", 300 * f), L("ad", "a", "d", 300 * f, toll=toll), L("bd", "b", "d", 200 * f, cap_out=cap), L("ab", "a", "b", 60 * f)]
    sets = [[("o", "d"), [["oa", "ad"], ["ob", "bd"], ["oa", "ab", "bd"]]]]
    return nodes, links, sets


def twood(dn, toll=None, cap=0.4, rt=1.0):
    f = dn * rt
    nodes = [N("o"), N("p", 0, 1), N("m", 1, 0), N("d", 2, 0)]
    links = [L("om", "o", "m", 200 * f), L("pm", "p", "m", 200 * f), L("md", "m", "d", 100 * f, cap_out=cap, toll=toll), L("od", "o", "d", 420 * f), L("pd", "p", "d", 440 * f), L("md2", "m", "d", 200 * f)]
    sets = [[("o", "d"), [["om", "md"], ["od"], ["om", "md2"]]], [("p", "d"), [["pm", "md"], ["pm", "md2"], ["pd"]]]]
    return nodes, links, sets


def demand(kind, counts, dn, ods=(("o", "d"),), gap=1):
    vs = []
    for k, q in enumerate(counts):
        for _ in range(q):
            o, d = ods[len(vs) % len(ods)]
            vs.append(dict(o=o, d=d, ts=k * gap, name=str(len(vs))))
    return vs


def scenario(net, dn, counts, rt=1.0, tmax=120, **kw):
    nodes, links, sets = net(dn, rt=rt, **kw)
    ods = [tuple(k) for k, _ in sets]
    w = dict(deltan=dn, tmax=tmax * dn * rt, duo_update_time=20 * dn * rt)
    if rt != 1.0:
        w["reaction_time"] = rt
        for l in links:
            l["kappa"] = 0.2 / rt
        if any(l.get("toll") for l in links):
            for l in links:
                if isinstance(l.get("toll"), list):
                    l["toll"] = [[a * dn * rt, b * dn * rt] for a, b in l["toll"]]
    return scn(nodes, links, vehicles=demand(None, counts, dn, ods), **w), sets


def families(tier):
    big = tier == "thorough"
    due, dso, auto, num, unf, frac, heavy = [], [], [], [], [], [], []
    tolls = (None, 8, [[0, 25], [12, 0]])
    nets = (tri, braess, twood)
    counts = [(2, 1), (2, 2)] + ([(3, 1), (3, 2)] if big else [])
    for kind, out in (("due", due), ("dso", dso)):
        for net in nets:
            for toll in tolls if kind == "due" else (None,):
                for cn in counts:
                    for dn, rt in ((1, 1.0), (5, 1.0), (1, 0.3)):
                        for cpp in (0, 1):
                            if toll and dn == 5 and not big:
                                continue
                            s, sets = scenario(net, dn, cn, rt, toll=toll)
                            base = dict(kind=kind, scn=s, sets=sets, cpp=cpp)
                            out.append(dict(base, iters=2, prob=0.5))
                            if (cn == (2, 1) and (rt == 1.0 and dn == 1 or isinstance(toll, list))) or big:
                                out.append(dict(base, iters=3, prob=0.5))
                            if (cn == (2, 2) and dn == 1) or big:
                                out.append(dict(base, iters=4 if not big else 5, prob=0.5, bound=2 if not big else 3))
                                for p in (0, 1):
                                    out.append(dict(base, iters=6, prob=p, bound=0))
                            if cn == (2, 1) and rt == 1.0:
                                out.append(dict(base, iters=1, prob=0.5))
                                if dn == 1:
                                    for perm in itertools.permutations(range(3)):
                                        out.append(dict(base, iters=2, prob=0.5, sets=[[k, [v[j] for j in perm]] for k, v in sets]))
                                    out.append(dict(base, iters=2, prob=0.5, refs="obj"))
                                    # the initial routes may lie outside the sets
                                    out.append(dict(base, iters=3, prob=0.5, sets=[[k, v[1:]] for k, v in sets]))
    for net in nets:
        for cpp in (0, 1):
            for n in (0, 1, 2, 4):
                s, sets = scenario(net, 1, (2, 2), 1.0)
                num.append(dict(kind="dso", scn=s, sets=sets, cpp=cpp, iters=2, prob=1 if n % 2 else 0.5, num=n, grid=12 if cpp else 1, bound=2 if cpp else None))
            for kind in ("due", "dso"):
                for k in (1, 2, 5):
                    for sd in range(4 if not big else 12):
                        s, sets = scenario(net, 1, (2, 2), 1.0)
                        auto.append(dict(kind=kind, scn=s, sets=None, cpp=cpp, k=k, seed=sd, iters=3, prob=0.5, bound=1))
                for tm in (18, 24, 30):
                    for cn in ((2, 2), (3, 1)):
                        for rt in (1.0, 0.7, 0.9) if not big else (1.0, 0.1, 0.3, 0.7, 0.9):
                            s, sets = scenario(net, 1, cn, rt, tmax=tm)
                            unf.append(dict(kind=kind, scn=s, sets=sets, cpp=cpp, iters=3, prob=0.5, bound=2 if rt == 1.0 else 1))
    # timesteps whose multiples are not exact: every switching time of a toll around the entries to the links
    for rt in (0.1, 0.3, 0.7):
        for net in nets:
            for k in range(1, 16 if not big else 40):
                for cpp in (0, 1):
                    for kind in ("due",) + (("dso",) if k == 1 else ()):
                        s, sets = scenario(net, 1, (0, 1, 0, 1, 0, 1, 1, 1), rt, toll=[[0, 30], [k - 0.5, 0]] if kind == "due" else None)
                        frac.append(dict(kind=kind, scn=s, sets=sets, cpp=cpp, iters=3, prob=1, bound=0))
    # long queues: several vehicles enter in the same timestep; externalities; tolls which switch while they wait
    for net in nets:
        for cpp in (0, 1):
            for dn in (1, 5):
                for cap in (0.2, 0.4):
                    for cn in ((2, 2, 2), (3, 0, 3, 1)):
                        s, sets = scenario(net, dn, cn, 1.0, cap=cap)
                        for p in (0, 0.5, 1):
                            heavy.append(dict(kind="dso", scn=s, sets=sets, cpp=cpp, iters=4, prob=p, bound=1 if p == 0.5 else 0))
                for k in range(10, 40, 1 if big else 2):
                    for up in (0, 1):
                        s, sets = scenario(net, 1, (2, 2, 2), 1.0, cap=0.2)
                        for l in s["links"]:
                            if l["name"] in ("oa", "om", "pm"):      # two vehicles enter in one timestep, and leave one after the other
                                l["lanes"], l["cap_out"] = 2, 0.2
                            if l["name"] in ("bd", "md", "ad"):
                                l["toll"] = [[0, 0], [k - 0.5, 4]] if up else [[0, 4], [k - 0.5, 0]]
                        heavy.append(dict(kind="due", scn=s, sets=sets, cpp=cpp, iters=3, prob=1, bound=0))
    for cpp in (0, 1):
        for kind in ("due", "dso"):
            for tm in (4, 12, 20, 26):
                s, sets = scenario(tri, 1, (2, 1, 1, 0, 0, 1), 1.0, tmax=tm)
                s["vehicles"] += [dict(o="o", d="d", ts=q, name=f"l{q}") for q in (tm - 2, tm - 1, tm, tm + 3)]
                s["links"][0]["cap_in"] = 0.3
                unf.append(dict(kind=kind, scn=s, sets=[[k, v[::-1]] for k, v in sets], cpp=cpp, iters=3, prob=0.5, bound=1))
    return [
        Family("due", due, run, cpp=True, note="every combination of the swap decisions of all vehicles on every day (2 or 3 days), up to two deviating decisions over longer histories"),
        Family("dso", dso, run, cpp=True, note="the same for the system-optimal dynamics"),
        Family("swap-num", num, run_num, cpp=True, note="every sample of swapping vehicles"),
        Family("auto-routes", auto, run, cpp=True, note="choice sets enumerated by the solver"),
        Family("unfinished", unf, run, cpp=True, note="trips that cannot end before the simulation does"),
        Family("queues", heavy, run, cpp=True, note="long queues with externalities and switching tolls"),
        Family("fraction", frac, run, cpp=True, note="fractional timesteps, every switching time of a toll"),
    ]


RUNNER = ScriptedRunner("P23", "model_checking",
                        "exhaustive enumeration of the swap decisions (draws of the Python and C++ random sources) of the day-to-day solvers on small networks; each day is compared with a fresh simulation and recomputed costs",
                        families, ["hard deterministic worlds: a day is a function of the assigned routes", "costs of routes that differ by less than 1e-6 are ties, of which any is admissible", "the externality of a link is taken from the utility decided by P21"])
