"""P24: the metaheuristic solvers of the system optimum (genetic algorithm, adaptive large neighbourhood search) evaluate real
simulations of valid route choices by the documented objective, follow their acceptance and selection rules and return the best."""
import itertools, random, warnings, math
import numpy as np
from mc import env, script
from mc.runner import Runner, Family, explore
from mc.nets import *
from mc import scenario as S
from .p20 import quiet
from .p23 import Draws, patched, scenario, tri, braess, twood

EPS = 1e-6


class Rot(Draws):
    """draws whose default answers follow one of several fixed patterns"""

    def __init__(self, ch, rot=0, **k):
        super().__init__(ch, **k)
        self.rot, self.n = rot, 0
        self.weights = []

    def choice(self, a, size=None, replace=True, p=None, **k):
        if p is not None and self.live:
            self.weights.append([float(x) for x in p])
        return super().choice(a, size, replace, p, **k)

    def _pick(self, n, tag, p=None):
        i = super()._pick(n, tag, p)
        self.n += 1
        if not self.rot or not self.live or p is not None or n <= 0:
            return i
        return (i + (self.rot * 2654435761 + self.n * (self.n + 3 * self.rot) * 40503) // 7) % n


class nprandom:
    def __init__(s, rng):
        s.rng = rng

    def __enter__(s):
        s.old = np.random.choice
        np.random.choice = s.rng.choice

    def __exit__(s, *a):
        np.random.choice = s.old


def routes_of(W):
    return {n: [l.name for l in v.traveled_route()[0]] for n, v in W.VEHICLES.items()}


def check_logs(ctx, W, tag):
    """the reported world has complete vehicle logs"""
    dt = W.DELTAT
    for n, v in W.VEHICLES.items():
        ent = [float(t) for t, l in v.log_t_link if not isinstance(l, str)]
        if not ent:
            continue
        end = next((float(t) for t, l in v.log_t_link if isinstance(l, str) and l in ("end", "abort")), W.T * dt if str(v.state) == "run" else None)
        if end is None:
            continue
        got = [round(float(t) / dt) for t, s in zip(v.log_t, v.log_state) if str(s) == "run"]
        a, e = round(ent[0] / dt), round(end / dt)
        miss = [k for k in range(a, e - 1) if k not in got]
        ctx.check(not miss, "vehicle-log-incomplete", lambda: f"{tag}: {n} drove from step {a} to {e}, its log lacks steps {miss[:5]}")


def objective(W, dn):
    tts = [float(v.travel_time) for v in W.VEHICLES.values() if float(v.travel_time) >= 0]
    n = len(W.VEHICLES)
    # the total travel time is reported as -1 if no trip is completed
    return (sum(tts) * dn if tts else -1) + (n - len(tts)) * dn * float(W.TMAX), sum(tts) * dn, n - len(tts)


# ---------------------------------------------------------------------------- ALNS on abstract objectives
class EngineRNG(Rot):
    single = False

    def random(self, size=None):
        return 0.5 if self.single else super().random(size)

    def sample(self, pop, k):
        # the order of the sample has no consequence
        pop = list(pop)
        combos = list(itertools.combinations(range(len(pop)), k))
        return [pop[i] for i in combos[self._pick(len(combos), "sample")]]


def run_engine(case, ctx):
    env.load(cpp=False)
    from uxsim.DTAsolvers import ALNS
    n, dom, vals, sense = case["n"], case["dom"], case["vals"], case["sense"]
    space = list(itertools.product(*dom))
    table = dict(zip(space, vals))
    c = ctx.check

    def one(ch):
        rng = EngineRNG(ch, case.get("rot", 0), grid=case.get("grid", 2))
        rng.single = len(case["destroy"]) == 1 and len(case["repair"]) == 1
        glob = Draws(ch, grid=2)
        seen, us = [], []

        def obj(x):
            seen.append(tuple(x))
            return table[tuple(x)]

        def accept_draw():
            us.append(glob.random())
            return us[-1]
        old = random.Random, random.random
        random.Random = lambda *a: rng
        random.random = accept_draw
        x0 = list(case["x0"])
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                st = ALNS.init_alns(x0, obj, sense=sense, domains=[list(d) for d in dom], destroy_set=list(case["destroy"]), repair_set=list(case["repair"]), k_min=case["k"][0], k_max=case["k"][1],
                                    T0=case["T0"], Tend=case["Tend"], total_iters=case["iters"], always_accept=case["always"], segment_len=case["seg"], trials=case["trials"], seed=0)
                n_init = len(seen)
                c(x0 == list(case["x0"]) and seen[0] == tuple(x0), "start", lambda: f"{seen[:1]} {x0}")
                c(n_init == (1 if case["T0"] else 1 + case["iters"] - st.total_iters), "evaluations-before-the-search", lambda: f"{n_init}")
                T0 = st.T0
                cur = tuple(x0)
                sgn = -1 if sense == "max" else 1
                w = {k: dict(v) for k, v in (("d", st.d_weights), ("r", st.r_weights))}
                sc = {k: {m: 0.0 for m in w[k]} for k in w}
                use = {k: {m: 0 for m in w[k]} for k in w}
                Tprev = None
                for i in range(st.total_iters):
                    nu, ne = len(us), len(seen)
                    log = ALNS.auto_step(st)
                    if not c(len(seen) == ne + 1, "one-evaluation-per-step", lambda: f"{len(seen) - ne}"):
                        return
                    x = seen[-1]
                    bestb = min(sgn * table[s] for s in seen[:-1])
                    delta = sgn * (table[x] - table[cur])
                    moved = [j for j in range(n) if x[j] != cur[j]]
                    c(all(x[j] in dom[j] for j in range(n)), "value-outside-domain", lambda: f"{x}")
                    c(set(moved) <= set(log.changed_idx) and log.changed_idxs == len(log.changed_idx), "changed-positions", lambda: f"{cur} -> {x}, logged {log.changed_idx}")
                    c(len(set(log.changed_idx)) <= max(1, case["k"][1]), "too-many-changes", lambda: f"{log.changed_idx}")
                    d, r = log.move[2:].split("+R:")
                    if d == "random":
                        c(len(log.changed_idx) >= max(1, case["k"][0] or case["k"][1]), "too-few-changes", lambda: f"{log.changed_idx}")
                    T = log.temperature
                    c(Tprev is None or (T <= Tprev + 1e-12 or st.Tend > T0), "temperature-rises", lambda: f"{Tprev} -> {T}")
                    c(abs(T - T0 * (st.Tend / T0) ** ((i + 1) / st.total_iters)) < 1e-9, "temperature", lambda: f"{T} at step {i}")
                    Tprev = T
                    exp = delta <= 0 or case["always"]
                    if not exp and len(us) > nu:
                        exp = us[-1] < math.exp(-delta / max(T, 1e-12))
                    elif not exp:
                        c(False, "acceptance-without-draw", lambda: f"worse by {delta}")
                    c(abs(log.delta_obj - delta) < EPS, "delta", lambda: f"{log.delta_obj} expected {delta}")
                    c(log.accepted == exp, "acceptance", lambda: f"step {i}: delta {delta}, temperature {T}, draw {us[nu:]}: accepted={log.accepted}")
                    if exp:
                        cur = x
                    best = min(sgn * table[s] for s in seen)
                    c(abs(log.best_obj - sgn * best) < EPS and abs(log.obj_val - table[cur]) < EPS, "objective-log", lambda: f"{log}; best {sgn * best}, current {table[cur]}")
                    c(tuple(ALNS.get_current_x(st)) == cur, "current-solution", lambda: f"{st.x_cur}, expected {cur}")
                    bx = tuple(ALNS.get_best_x(st))
                    c(abs(sgn * table[bx] - best) < EPS, "best-solution", lambda: f"{bx} has {table[bx]}, best evaluated {sgn * best}")
                    rew = st.reward_improve_best if sgn * table[x] < bestb and exp else st.reward_improve if exp and delta < 0 else st.reward_accept_worse if exp and delta > 0 else 0
                    for k, m in (("d", d), ("r", r)):
                        sc[k][m] += rew
                        use[k][m] += 1
                    if (i + 1) % case["seg"] == 0:
                        for k in w:
                            for m in w[k]:
                                w[k][m] = (1 - st.adapt_eta) * w[k][m] + st.adapt_eta * max(1e-6, sc[k][m] / max(1, use[k][m]))
                                sc[k][m], use[k][m] = 0.0, 0
                    for k, v in (("d", st.d_weights), ("r", st.r_weights)):
                        c(all(abs(v[m] - w[k][m]) < 1e-9 for m in w[k]), "operator-weights", lambda: f"step {i}: {v}, expected {w[k]}")
                    ctx.transitions += 1
                    ctx.state((cur, bx, i, d, r))
                xs, run = ALNS.finalize(st)
                c(tuple(xs) == tuple(run.best_x) and abs(run.best_obj - table[tuple(xs)]) < EPS and len(run.steps) == st.total_iters, "final-result", lambda: f"{xs}, {run.best_x}, {run.best_obj}")
                ctx.outcome((tuple(xs), tuple(s.accepted for s in run.steps)))
        finally:
            random.Random, random.random = old
    explore(one, ctx, bound=case.get("bound"), cap=20000)


# ---------------------------------------------------------------------------- the solvers
def check_choices(ctx, W, sets, tag):
    R = routes_of(W)
    for n, v in W.VEHICLES.items():
        rs = [list(r) for r in sets.get((v.orig.name, v.dest.name), [])]
        if str(v.state) == "end":
            ctx.check(R[n] in rs, "route-outside-the-choice-set", lambda: f"{tag}: {n} travelled {R[n]}, choice set {rs}")
        else:
            ctx.check(any(R[n] == r[:len(R[n])] for r in rs), "route-outside-the-choice-set", lambda: f"{tag}: {n} travelled {R[n]}, choice set {rs}")


def start(case, worlds):
    """initial solution given to the solver"""
    from uxsim.DTAsolvers.DTAsolvers import SolverDUE
    cpp = case["cpp"]
    kind = case.get("init")
    if not kind:
        return None, None
    X = S.build(case["scn"], cpp)
    if kind in ("routes", "outside", "bare"):
        ods = dict((tuple(k), v) for k, v in case["sets"])
        for i, v in enumerate(X.VEHICLES.values()):
            rs = ods[v.orig.name, v.dest.name]
            v.enforce_route(list(rs[case["assign"][i] if "assign" in case else (i * 2 + 1) % len(rs)]))
    X.exec_simulation()
    if kind != "bare":
        X.dict_od_to_routes = {tuple(k): [list(r) for r in v] for k, v in case["sets"]}
        if kind == "outside":
            # the choice sets of the search are sorted from the longest to the shortest route in half of the cases
            case = dict(case, sets=[[k, v[::-1] if case.get("rot", 0) == 0 else v] for k, v in case["sets"]])
            X.dict_od_to_routes = {tuple(k): [list(r) for r in v if r not in list(routes_of(X).values())] or [list(v[0])] for k, v in case["sets"]}
    return X, routes_of(X)


def run_alns(case, ctx):
    cpp = case["cpp"]
    env.load(cpp=bool(cpp))
    from uxsim.DTAsolvers.DTAsolvers import SolverDSO_ALNS
    from uxsim.Utilities import estimate_congestion_externality_route
    scn, dn = case["scn"], case["scn"]["world"]["deltan"]
    c = ctx.check

    def one(ch):
        rng = Rot(ch, case.get("rot", 0), grid=4)
        worlds = []

        def func():
            W = S.build(scn, cpp)
            worlds.append(W)
            return W
        with warnings.catch_warnings(), quiet():
            warnings.simplefilter("ignore")
            X, XR = start(case, worlds)
            sol = SolverDSO_ALNS(func)
            old = random.Random
            random.Random = lambda *a: rng
            random.seed(case.get("seed", 0))
            try:
                with patched(rng, ("random", "randint", "sample", "choice")), nprandom(rng):
                    ret = sol.solve(case["iters"], n_routes_per_od=case.get("k", 5), trials=case["trials"], k_max=case["kmax"], k_min=case["kmin"], print_progress=False, initial_solution_World=X,
                                    destroy_set=case.get("destroy"), repair_set=case.get("repair"), always_accept=case.get("always", False))
            finally:
                random.Random = old
        days = worlds if X is not None else worlds[1:]
        init = X if X is not None else worlds[0]
        tag = f"ALNS {'C++' if cpp else 'Python'}"
        if not c(len(days) == case["iters"] + 1, "number-of-evaluations", lambda: f"{tag}: {len(days)} simulations for {case['iters']} iterations"):
            return
        sets = {k: list(v) for k, v in init.dict_od_to_routes.items()}
        objs = [objective(W, dn) for W in days]
        for W in days:
            check_choices(ctx, W, sets, tag)
        # start
        R0, RX = routes_of(days[0]), routes_of(init)
        for i, (n, v) in enumerate(init.VEHICLES.items()):
            rs = [list(r) for r in sets[v.orig.name, v.dest.name]]
            if str(days[0].VEHICLES[n].state) != "end":
                continue
            if RX[n] in rs:
                c(R0[n] == RX[n], "start-is-not-the-initial-solution", lambda: f"{tag}: {n} travelled {RX[n]} in the initial solution, {R0[n]} at the start")
            else:
                cost = [init.defRoute(r).actual_travel_time(v.departure_time_in_second) for r in rs]
                c(cost[rs.index(R0[n])] < min(cost) + EPS, "start-is-not-the-fastest-route", lambda: f"{tag}: {n}: {R0[n]}, choice set {rs} costs {cost}")
        m = min(o[0] for o in objs)
        k = next((i for i, W in enumerate(days) if W is sol.W_sol), None)
        c(ret is sol.W_sol and sol.W_sol is sol.W_intermid_solution, "returned-solution", tag)
        c(k is not None and objs[k][0] < m + EPS, "solution-is-not-the-best", lambda: f"{tag}: simulation {k} of {objs}")
        check_logs(ctx, ret, tag)
        c(abs(sol.best_obj_value - m) < EPS, "best-objective", lambda: f"{tag}: {sol.best_obj_value}, evaluated {objs}")
        c(all(abs(a - b[1]) < 1 + EPS for a, b in zip(sol.ttts, objs)) and len(sol.ttts) == len(days) == len(sol.dfs_link) == len(sol.route_log) == len(sol.cost_log), "total-travel-times", lambda: f"{tag}: {sol.ttts}, expected {objs}")
        c(all(a > b for a, b in zip(sol.best_obj, sol.best_obj[1:])) and all(abs(objs[i][0] - b) < EPS for i, b in zip(sol.best_iter, sol.best_obj)), "history-of-the-best", lambda: f"{tag}: {sol.best_iter} {sol.best_obj}, evaluated {objs}")
        c(abs(sol.run.best_obj - m) < EPS, "search-result", lambda: f"{tag}: {sol.run.best_obj}, best evaluated {m}")
        keys = list(init.VEHICLES)
        star = {n: list(sets[init.VEHICLES[n].orig.name, init.VEHICLES[n].dest.name][sol.xx_star[i]]) for i, n in enumerate(keys)}
        hit = [i for i, W in enumerate(days) if all(r == star[n][:len(r)] for n, r in routes_of(W).items()) and objs[i][0] < m + EPS]
        c(hit, "best-vector", lambda: f"{tag}: {sol.xx_star} is not the best solution")
        for i, W in enumerate(days):
            for n, v in W.VEHICLES.items():
                if str(v.state) == "end":
                    r, ts = v.traveled_route()
                    c(sol.route_log[i].get(n) == [l.name for l in r] and abs(sol.cost_log[i].get(n, -9) - (ts[-1] - ts[0])) < EPS, "logs", lambda: f"{tag}: {i} {n}: {sol.route_log[i].get(n)} {sol.cost_log[i].get(n)}")
        # operators
        steps = sol.run.steps
        cur, n0 = 0, len(days) - len(steps)
        best_value, travelled = {}, None

        def fill(n):
            v = init.VEHICLES[n]
            t = v.departure_time_in_second
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                best_value[n] = [init.defRoute(x).actual_travel_time(t) + estimate_congestion_externality_route(init, init.defRoute(x), t) for x in sets[v.orig.name, v.dest.name]]
            return best_value[n]
        for j, st in enumerate(steps):
            a, b = days[cur], days[n0 + j]
            ra, rb = routes_of(a), routes_of(b)
            d, r = st.move[2:].split("+R:")
            c((case.get("destroy") is None or d in case["destroy"]) and (case.get("repair") is None or r in case["repair"]), "operator-not-allowed", lambda: f"{tag}: {st.move}")
            for i, n in enumerate(keys):
                va, vb = a.VEHICLES[n], b.VEHICLES[n]
                if str(va.state) != "end" or str(vb.state) != "end":
                    continue
                rs = [list(x) for x in sets[va.orig.name, va.dest.name]]
                if i not in st.changed_idx:
                    c(ra[n] == rb[n], "change-outside-of-the-move", lambda: f"{tag} step {j}: {n} {ra[n]} -> {rb[n]}, moved {st.changed_idx}")
                elif r == "random":
                    c(ra[n] != rb[n] or len(rs) == 1, "repaired-with-the-same-route", lambda: f"{tag} step {j}: {n} {ra[n]} among {rs}")
                elif r == "min_cost":
                    w = best_value.get(n) or fill(n)
                    c(w[rs.index(rb[n])] < min(w) + EPS, "repaired-with-a-costlier-route", lambda: f"{tag} step {j}: {n} {rb[n]} among {rs}, costs {w}")
                if d == "congest_link" and i in st.changed_idx:
                    if travelled is None:
                        df = init.analyzer.link_to_pandas()
                        df = df[[sum(1 for v in init.VEHICLES.values() if l in [x.name for x in v.traveled_route()[0]]) > 0 for l in df["link"]]]
                        ranked = sorted(df["delay_ratio"], reverse=True)
                        cut = ranked[min(len(ranked), 3) - 1]
                        travelled = set(df[df["delay_ratio"] >= cut - EPS]["link"])
                    c(set(RX[n]) & travelled, "not-on-a-congested-link", lambda: f"{tag} step {j}: {n} travelled {RX[n]} initially, congested links {travelled}")
            if case.get("always"):
                c(st.accepted or not st.changed_idx, "not-always-accepted", lambda: f"{tag} step {j}: {st}")
            if r == "min_cost" and d == "random" and not st.changed_idx:
                stay = [n for n in keys if n in best_value or fill(n)]
                stay = [n for n in keys if str(a.VEHICLES[n].state) == "end" and best_value[n][[list(x) for x in sets[a.VEHICLES[n].orig.name, a.VEHICLES[n].dest.name]].index(ra[n])] < min(best_value[n]) + EPS]
                c(stay or any(str(v.state) != "end" for v in a.VEHICLES.values()), "costly-routes-kept", lambda: f"{tag} step {j}: {ra}, costs {best_value}")
            if st.accepted:
                cur = n0 + j
        if case.get("destroy") in (["early_dep"], ["late_dep"]):
            dep = [v.departure_time for v in init.VEHICLES.values()]
            sg = 1 if case["destroy"] == ["early_dep"] else -1
            for w in rng.weights:
                if len(w) == len(dep):
                    c(all(w[x] >= w[y] - 1e-12 for x in range(len(w)) for y in range(len(w)) if sg * dep[x] < sg * dep[y]), "departure-time-priority", lambda: f"{tag} {case['destroy']}: departures {dep}, weights {w}")
                    c(len(set(dep)) == 1 or sg * (w[dep.index(min(dep))] - w[dep.index(max(dep))]) > 0, "departure-time-priority", lambda: f"{tag} {case['destroy']}: departures {dep}, weights {w}")
        ctx.transitions += len(days)
        ctx.outcome((k, tuple(round(o[0], 3) for o in objs)))
        for W in days:
            ctx.state(tuple(sorted((n, tuple(r)) for n, r in routes_of(W).items())))
    explore(one, ctx, bound=case.get("bound", 1), cap=3000)


def run_ga(case, ctx):
    cpp = case["cpp"]
    env.load(cpp=bool(cpp))
    from uxsim.DTAsolvers.DTAsolvers import SolverDSO_GA
    scn, dn, P, E, G = case["scn"], case["scn"]["world"]["deltan"], case["pop"], case["elite"], case["iters"]
    c = ctx.check

    def one(ch):
        rng = Rot(ch, case.get("rot", 0), grid=2)
        worlds = []

        def func():
            W = S.build(scn, cpp)
            worlds.append(W)
            return W
        with warnings.catch_warnings(), quiet():
            warnings.simplefilter("ignore")
            X, XR = start(case, worlds)
            sol = SolverDSO_GA(func)
            random.seed(case.get("seed", 0))
            with patched(rng, ("random", "randint", "sample", "choice")):
                ret = sol.solve(G, n_routes_per_od=case.get("k", 5), pop_size=P, elite_size=E, mutation_occur_rate=case["occur"], mutation_gene_rate=case["gene"], n_crossover_points=case["cross"], print_progress=False, initial_solution_World=X)
        days = worlds if X is not None else worlds[1:]
        init = X if X is not None else worlds[0]
        tag = f"GA {'C++' if cpp else 'Python'}"
        if not c(len(days) == G * P, "number-of-evaluations", lambda: f"{tag}: {len(days)} simulations for {G} generations of {P}"):
            return
        sets = {k: list(v) for k, v in ret.dict_od_to_routes.items()}
        objs = [objective(W, dn) for W in days]
        R = [tuple(sorted((n, tuple(r)) for n, r in routes_of(W).items())) for W in days]
        for W in days:
            check_choices(ctx, W, sets, tag)
        RX = routes_of(init)
        first = routes_of(days[0])
        for n, v in init.VEHICLES.items():
            if RX[n] in [list(r) for r in sets[v.orig.name, v.dest.name]] and str(days[0].VEHICLES[n].state) == "end":
                c(first[n] == RX[n], "start-is-not-the-initial-solution", lambda: f"{tag}: {n} travelled {RX[n]} in the initial solution, {first[n]} in the first individual")
        c(len(sol.ttts) == len(sol.route_log) == len(sol.cost_log) == len(sol.dfs_link) == G, "log-length", tag)
        prev = None
        for g in range(G):
            o = [x[0] for x in objs[g * P:(g + 1) * P]]
            m = min(o)
            bestW = [W for W, x in zip(days[g * P:(g + 1) * P], o) if x < m + EPS]
            c(any(abs(sol.ttts[g] - objective(W, dn)[1]) < 1 + EPS for W in bestW), "total-travel-time", lambda: f"{tag} generation {g}: {sol.ttts[g]}, evaluated {objs[g * P:(g + 1) * P]}")
            c(any({n: r for n, r in routes_of(W).items() if str(W.VEHICLES[n].state) == "end"} == sol.route_log[g] for W in bestW), "route-log", lambda: f"{tag} generation {g}: {sol.route_log[g]}")
            if prev is not None and not case["gene"]:
                # without mutation every choice comes from the previous generation
                pool = [{r[i] for r in R[(g - 1) * P:g * P]} for i in range(len(R[0]))]
                c(all(x[i] in pool[i] for x in R[g * P:(g + 1) * P] for i in range(len(x))), "choice-without-ancestor", lambda: f"{tag} generation {g}")
            if E and prev is not None:
                c(m <= prev + EPS, "best-solution-lost", lambda: f"{tag} generation {g}: best {m}, before {prev}")
                # the elite survives
                old, new = list(zip(objs[(g - 1) * P:g * P], R[(g - 1) * P:g * P])), list(R[g * P:(g + 1) * P])
                cut = sorted(x[0][0] for x in old)[min(E, P) - 1]
                must = [r for x, r in old if x[0] < cut - EPS]
                for r in must:
                    if not c(r in new, "elite-lost", lambda: f"{tag} generation {g}: {r}"):
                        break
                    new.remove(r)
                ties = [r for x, r in old if abs(x[0] - cut) <= EPS]
                c(sum(1 for r in set(ties) if r in new) >= 1, "elite-lost", lambda: f"{tag} generation {g}: none of {ties}")
            prev = m
        k = next((i for i, W in enumerate(days) if W is ret), None)
        check_logs(ctx, ret, tag)
        last = [x[0] for x in objs[(G - 1) * P:]]
        c(ret is sol.W_sol, "returned-solution", tag)
        c(k is not None and k >= (G - 1) * P and objs[k][0] < min(last) + EPS, "solution-is-not-the-best", lambda: f"{tag}: individual {k}, objectives {objs}")
        ctx.transitions += len(days)
        ctx.outcome((k, tuple(round(x[0], 3) for x in objs)))
        for r in R:
            ctx.state(r)
    explore(one, ctx, bound=case.get("bound", 1), cap=3000)


def chain(dn, rt=1.0):
    """a short road with three successive bottlenecks and a longer free road"""
    nodes = [N("o"), N("a", 1, 0), N("b", 2, 0), N("c", 3, 0), N("d", 4, 0), N("f", 2, 2), N("g", 2, -2)]
    links = [L("oa", "o", "a", 200 * dn, cap_out=0.5), L("ab", "a", "b", 200 * dn, cap_out=0.25), L("bc", "b", "c", 200 * dn, cap_out=0.15), L("cd", "c", "d", 200 * dn)]
    links += [L("of", "o", "f", 400 * dn), L("fd", "f", "d", 600 * dn), L("og", "o", "g", 400 * dn), L("gd", "g", "d", 700 * dn)]
    return nodes, links, [[("o", "d"), [["oa", "ab", "bc", "cd"], ["of", "fd"], ["og", "gd"]]]]


def families(tier):
    big = tier == "thorough"
    eng, al, ga = [], [], []
    perms = [list(p) for p in itertools.permutations((0, 1, 2.5, 6))]
    base = dict(n=2, dom=[[0, 1], [0, 1]], destroy=["random"], repair=["random"], k=[1, 1], T0=2.0, Tend=0.5, iters=3, always=False, seg=2, trials=0, x0=[0, 0], sense="min")
    for p in perms:
        for sense in ("min", "max"):
            for k in ([1, 1], [1, 2], [2, 2]):
                for d in ("random", "segment"):
                    eng.append(dict(base, vals=p, sense=sense, k=k, destroy=[d], bound=(None if big else 5) if k == [1, 1] else 4 if big else 3))
        eng.append(dict(base, vals=p, always=True, k=[1, 2]))
        eng.append(dict(base, vals=p, T0=None, trials=1, iters=4, k=[1, 2], bound=3))
        eng.append(dict(base, vals=p, T0=None, trials=2, iters=5, k=[1, 1], bound=3))
        eng.append(dict(base, vals=p, destroy=["random", "segment"], k=[None, 1], bound=3, grid=4, iters=4))
    vals3 = [[(7 * i * i + 3 * i * s) % 11 for i in range(12)] for s in range(1, 9 if not big else 40)]
    for v in vals3:
        for k in ([1, 2], [2, 3], [1, 3]):
            for d in (["random"], ["segment"], ["random", "segment"]):
                eng.append(dict(base, n=3, dom=[[0, 1], [0, 1, 2], [3, 5]], vals=v, x0=[1, 0, 3], k=k, destroy=d, bound=3 if not big else 4, grid=2 if len(d) == 1 else 4))
    nets = (tri, braess, twood)
    for cpp in (0, 1):
        for net in nets:
            for dn in (1, 5):
                for cn, tm in (((2, 1), 120), ((3, 2), 120), ((2, 2), 26), ((3, 2), 20)):
                    s, sets = scenario(net, dn, cn, 1.0, tmax=tm)
                    common = dict(scn=s, sets=sets, cpp=cpp)
                    for init in ("routes", "outside", None, "bare"):
                        for rot in (0, 1, 2) if not big else range(8):
                            if (dn == 5 and rot) or (tm < 120 and rot > 1):
                                continue
                            al.append(dict(common, init=init, iters=5, trials=2, kmax=2, kmin=1, rot=rot, bound=1 if big or rot == 0 and dn == 1 and tm == 120 and net is tri or rot == 1 and tm == 26 and net is braess and dn == 1 else 0))
                    for dset in (["early_dep"], ["late_dep"], ["congest_link"], ["segment"], ["random"]):
                        for rep in (["random"], ["min_cost"]):
                            al.append(dict(common, init="routes", iters=4, trials=1, kmax=2, kmin=None, destroy=dset, repair=rep, rot=1, always=dset == ["random"], bound=1 if big or dn == 1 and tm == 120 and net is tri and cn == (2, 1) else 0))
                    if cn == (2, 1) or cn == (3, 2):
                        for rot in (0, 1, 2, 3) if not big else range(10):
                            for init in ("routes", None):
                                for E in (1, 2, 0):
                                    if not big and (dn == 5 and (rot > 1 or E == 0) or net is not tri and (rot > 2 or E == 2)):
                                        continue
                                    ga.append(dict(common, init=init, iters=3, pop=4, elite=E, occur=0.5, gene=0.5, cross=1 + rot % 2, rot=rot, bound=1 if rot == 1 and dn == 1 and E == 1 and tm == 120 and init and (net is tri and cn == (3, 2) or net is braess and cn == (2, 1)) or big else 0))
                    if tm == 120 and dn == 1:
                        for rot in (0, 1, 2, 3):
                            ga.append(dict(common, init="routes", iters=3, pop=4, elite=1, occur=0.5, gene=0.0, cross=1 + rot % 2, rot=rot, bound=0))
        for dn in (1, 5):
            for assign in ([0, 0, 0, 0, 1], [0, 0, 1, 0, 0], [0, 0, 0, 1, 2], [2, 1, 0, 0, 0], [1, 2, 1, 2, 1]):
                s, sets = scenario(chain, dn, (2, 2, 1), 1.0, tmax=200)
                for dset in (["congest_link"], ["random"], ["early_dep"], None):
                    for rep in (["random"], ["min_cost"]):
                        for al_ in (False, True):
                            al.append(dict(scn=s, sets=sets, cpp=cpp, init="routes", assign=assign, iters=4, trials=1, kmax=1 if dset == ["random"] else 2, kmin=1, destroy=dset, repair=rep, rot=int(al_), always=al_, bound=1 if big or dn == 1 and assign[0] == assign[4] == 0 else 0))
        # every vehicle departs at the beginning of the simulation, on a single road
        s = scn([N("o"), N("m", 1, 0), N("d", 2, 0)], [L("om", "o", "m"), L("md", "m", "d"), L("om2", "o", "m", 300)], vehicles=[dict(o="o", d="d", ts=0, name=str(i)) for i in range(2)], tmax=80)
        st = [[("o", "d"), [["om", "md"], ["om2", "md"]]]]
        for dset in (None, ["early_dep"], ["late_dep"], ["congest_link"]):
            for init in ("routes", None, "bare"):
                al.append(dict(scn=s, sets=st, cpp=cpp, init=init, iters=4, trials=1, kmax=1, kmin=1, destroy=dset, rot=0, bound=1))
    al += frac(al, 5 if big else 13)
    ga += frac(ga, 5 if big else 13)
    return [
        Family("search", eng, run_engine, note="the adaptive large neighbourhood search on tables of objective values: every draw (within the deviation bound of the case), both senses, change sizes, operators, estimation of the temperature"),
        Family("alns", al, run_alns, cpp=True, note="SolverDSO_ALNS: initial solutions inside and outside of the route sets or none, operators, unfinished trips"),
        Family("ga", ga, run_ga, cpp=True, note="SolverDSO_GA: population, elite and crossover sizes, initial solutions"),
    ]


RUNNER = Runner("P24", "model_checking",
                "enumeration of all draws of the heuristics' random sources within deviation bounds, on tables of objective values and on simulated networks; every evaluation, acceptance and result is recomputed",
                families, ["hard deterministic worlds", "deviations are counted from several fixed patterns of draws", "initial solutions and choice sets as listed in the families"])
