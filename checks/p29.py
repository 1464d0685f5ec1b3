"""P29: the figures, logs and printed summaries of the assignment solvers describe the assignments evaluated in that call of solve()."""
import itertools, random, re, statistics, warnings
import numpy as np
from mc import env
from mc.runner import Runner, Family, explore
from mc.nets import *
from mc import scenario as S
from .p20 import quiet
from .p23 import patched, scenario, tri, braess, twood
from .p24 import Rot, nprandom, objective
from .p26 import Canvas, lines
from .p28 import Tape

EPS = 1e-6
NUM = r"\s*(-?[\d.]+(?:e[-+]?\d+)?|nan|inf|-inf)"


class Day:
    """what one evaluated assignment looks like, read from its vehicles and links"""

    def __init__(s, W, dn):
        s.W = W
        s.n, s.done = len(W.VEHICLES), {}
        s.route = {}
        for n, v in W.VEHICLES.items():
            r, ts = v.traveled_route()
            s.route[n] = [l.name for l in r]
            if str(v.state) == "end":
                s.done[n] = float(ts[-1] - ts[0])
        s.obj, s.ttt, s.open = objective(W, dn)
        from uxsim.analyzer import Analyzer
        with quiet():
            df = Analyzer(W).link_to_pandas()
        s.link = {l: (float(a), float(b)) for l, a, b in zip(df["link"], df["traffic_volume"], df["average_travel_time"])}
        s.fresh = None


def near(a, b, tol=EPS):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol * max(1, abs(b)) or (a != a and b != b)


def seq(a, b, tol=EPS):
    return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))


def make(kind, func, cpp):
    import uxsim.DTAsolvers.DTAsolvers as D
    if kind == "due":
        return D.SolverDUE(func, cpp=bool(cpp))
    if kind == "dso":
        return D.SolverDSO_D2D(func, cpp=bool(cpp))
    return {"ga": D.SolverDSO_GA, "alns": D.SolverDSO_ALNS}[kind](func)


def arguments(case, n):
    k = case["kind"]
    if k in ("due", "dso"):
        kw = dict(swap_prob=case.get("prob", 0.5))
        if case.get("num") is not None:
            kw["swap_num"] = case["num"]
        if case.get("sets"):
            kw["route_sets"] = {tuple(od): [list(r) for r in rs] for od, rs in case["sets"]}
        return kw
    if k == "ga":
        return dict(pop_size=case["pop"], elite_size=1, mutation_occur_rate=0.5, mutation_gene_rate=0.5, n_crossover_points=1)
    return dict(k_max=2, k_min=1, trials=case.get("trials", 1), always_accept=case.get("always", False))


def last_calls(kind, days, iters, pop):
    """the assignments each iteration stands for: lists of admissible ones"""
    if kind in ("due", "dso", "alns"):
        return [[d] for d in days]
    out = []
    for g in range(iters):
        o = days[g * pop:(g + 1) * pop]
        m = min(d.obj for d in o)
        out.append([d for d in o if d.obj < m + EPS])
    return out


def figures(f):
    with Canvas() as cv:
        with warnings.catch_warnings(), quiet():
            warnings.simplefilter("ignore")
            f()
        figs = [cv.plt.figure(n) for n in cv.plt.get_fignums()]
        out = []
        for g in figs:
            for ax in g.axes:
                bars = []
                for b in ax.containers:
                    if hasattr(b, "has_yerr"):
                        seg = [[tuple(map(float, p)) for p in q] for q in b[2][0].get_segments()] if b[2] else []
                        bars.append(([float(x) for x in b[0].get_xdata()], [float(x) for x in b[0].get_ydata()], seg))
                out.append(dict(title=ax.get_title(), ylabel=ax.get_ylabel(), xlabel=ax.get_xlabel(), lines=[dict(x=[float(v) for v in l["x"]], y=[float(v) for v in l["y"]], label=l["label"], m=l["m"]) for l in lines(ax)], bars=bars))
    return out


def check_figures(ctx, case, sol, its, days, dn, tag, pairs):
    c, kind = ctx.check, case["kind"]
    n = len(its)
    xs = list(range(n))
    # convergence
    f = figures(sol.plot_convergence)
    series = [(l["x"], l["y"], l["m"]) for a in f for l in a["lines"]]
    c(series and seq(series[0][0], xs) and any(True for _ in [0]) and len(series[0][1]) == n and all(any(abs(y - d.ttt) < 1 + EPS for d in ds) for y, ds in zip(series[0][1], its)), "convergence-figure",
      lambda: f"{tag}: {series[:1]}, total travel times {[[d.ttt for d in ds] for ds in its]}")
    if kind in ("due", "dso"):
        c(len(series) == 3, "convergence-figure", lambda: f"{tag}: {len(series)} curves")
        if len(series) == 3:
            moved = []
            for a, b in zip(days, days[1:]):
                moved.append(dn * sum(a.route[k] != b.route[k] for k in a.route))
            # choices outside of given sets are corrected without being counted as swaps
            exact = not case.get("outside") and all(not d.open for d in days)
            c(len(series[1][1]) == n and (not exact or seq(series[1][1][:-1], moved)), "convergence-figure", lambda: f"{tag}: swaps drawn {series[1][1]}, vehicles that changed routes {moved}")
            c(seq(series[2][1], sol.t_gaps) and len(sol.t_gaps) == n, "convergence-figure", lambda: f"{tag}: gaps drawn {series[2][1]}, {sol.t_gaps}")
    if kind == "alns":
        best, exp = None, []
        for i, d in enumerate(days):
            if best is None or d.obj < best - EPS:
                best = d.obj
                exp.append((i, best))
        got = []
        for x, y, m in series[1:]:
            keep = [j for j in range(len(y)) if j == 0 or y[j] < y[j - 1] - EPS]
            got.append(([x[j] for j in keep], [y[j] for j in keep]))
        c(len(got) == 1 and seq(got[0][0], [i for i, _ in exp]) and seq(got[0][1], [b for _, b in exp]), "convergence-figure", lambda: f"{tag}: updates drawn {got}, expected {exp}")
    # links
    f = figures(sol.plot_link_stats)
    c(len(f) == 2, "link-figure", lambda: f"{tag}: {len(f)} figures")
    names = [l.name for l in days[0].W.LINKS]
    for j, a in enumerate(f[:2]):
        c([l["label"] for l in a["lines"]] == names, "link-figure", lambda: f"{tag}: links drawn {[l['label'] for l in a['lines']]}, expected {names}")
        c("volume" in a["title"] if j == 0 else "time" in a["title"], "link-figure", lambda: f"{tag}: {a['title']}")
        for l in a["lines"]:
            c(seq(l["x"], xs) and len(l["y"]) == n and all(any(near(y, d.link[l["label"]][j]) for d in ds) for y, ds in zip(l["y"], its)), "link-figure",
              lambda: f"{tag}: {a['title']} of {l['label']} drawn {l['x']} {l['y']}, expected {[[d.link[l['label']][j] for d in ds] for ds in its]}")
    # vehicles
    if sol.W_sol is None:
        return
    nodes = [None] + [x.name for x in sol.W_sol.NODES]
    for o, d in itertools.product(nodes, nodes) if pairs else [(None, None)]:
        f = figures(lambda: sol.plot_vehicle_stats(orig=o, dest=d))
        c(len(f) == 1, "vehicle-figure", f"{tag}: {len(f)} figures")
        exp = []
        # individuals of equal objective
        amb = kind == "ga" and any(any(q.done != ds[0].done for q in ds) for ds in its[n // 2:])
        for k, v in sol.W_sol.VEHICLES.items():
            if (o is None or v.orig.name == o) and (d is None or v.dest.name == d):
                t = float(v.departure_time_in_second)
                if kind == "dso":
                    r, ts = v.traveled_route()
                    exp.append((t, float(ts[-1] - ts[0]), 0.0))
                else:
                    x = [ds[0].done[k] for ds in its[n // 2:] if k in ds[0].done]
                    if x:
                        exp.append((t, statistics.fmean(x), statistics.pstdev(x)))
        a = f[0]
        words = a["title"].replace(",", " ").split()
        c((o if o is not None else "any") in words and (d if d is not None else "any") in words, "vehicle-figure", lambda: f"{tag}: title {a['title']} for {o}, {d}")
        if kind == "dso":
            pts = [p for l in a["lines"] for p in zip(l["x"], l["y"])]
            got = [(x, y, 0.0) for x, y in pts]
        else:
            got = []
            for x, y, seg in a["bars"]:
                got += [(p, q, (s[1][1] - s[0][1]) / 2) for p, q, s in zip(x, y, seg)]
                c(len(x) == len(seg) and all(near((s[0][1] + s[1][1]) / 2, q) for q, s in zip(y, seg)), "vehicle-figure", lambda: f"{tag}: bars {seg} around {y}")
        got.sort()
        if amb:
            continue
        exp.sort()
        c(len(got) == len(exp) and all(seq(g, e) for g, e in zip(got, exp)), "vehicle-figure", lambda: f"{tag}: from {o} to {d} drawn {got}, expected {exp}")
        ctx.transitions += 1


def check_text(ctx, case, sol, its, days, out, dn, tag):
    c, kind, n = ctx.check, case["kind"], len(its)
    text = "\n".join(out)
    shown = case.get("print", True)

    def nums(line, *labels):
        r = []
        for l in labels:
            m = re.search(re.escape(l) + NUM, line)
            r.append(float(m.group(1)) if m else None)
        return r
    if kind in ("due", "dso"):
        its_ = [l for l in out if re.match(r"\s*iter \d+:", l)]
        c(len(its_) == (n if shown else 0), "printed-iterations", lambda: f"{tag}: {len(its_)} lines for {n} iterations, print_progress={shown}")
        for i, l in enumerate(its_[:n]):
            d = days[i]
            g = nums(l, "iter ", "time gap:", "potential route change:", "route change:", "total travel time:")
            g[3] = float(re.search(r", route change:" + NUM, l).group(1)) if re.search(r", route change:" + NUM, l) else None
            ok = None not in g and g[0] == i and abs(g[1] - sol.t_gaps[i]) <= .05 + EPS and g[2] == sol.potential_swaps[i] and g[3] == sol.n_swaps[i] and abs(g[4] - (d.ttt if d.done else -1)) <= .05 + EPS
            c(ok, "printed-iterations", lambda: f"{tag}: {l!r} for gap {sol.t_gaps[i]}, {sol.potential_swaps[i]} {sol.n_swaps[i]} changes, {d.ttt}")
        summary = [l for l in out if "->" in l]
        keys = [("total travel time", sol.ttts), ("potential route changes", sol.potential_swaps), ("gap", sol.t_gaps)]
        if not c(len(summary) == 3, "printed-summary", lambda: f"{tag}: {summary}"):
            return
        for (k, v), l in zip(keys, summary):
            a = nums(l, "initial")[0]
            ok = k in l and a is not None and abs(a - v[0]) <= .05 + EPS
            if kind == "due":
                m = re.search(r"last (\d+) iters?" + NUM, l)
                ok = ok and m is not None and 1 <= int(m.group(1)) <= n and abs(float(m.group(2)) - sum(v[-int(m.group(1)):]) / int(m.group(1))) <= .05 + EPS
                ok = ok and (n < 4 or int(m.group(1)) == n // 4)
            else:
                b = nums(l, "minimum")[0]
                ok = ok and b is not None and abs(b - min(v)) <= .05 + EPS
            c(ok, "printed-summary", lambda: f"{tag}: {l!r} for {v}")
    else:
        summary = [l for l in out if "->" in l and "total travel time" in l]
        c(len(summary) == 1, "printed-summary", lambda: f"{tag}: {summary}")
        if summary:
            a, b = nums(summary[0], "initial", "last")
            last = its[-1]
            if kind == "alns":
                m = min(d.obj for d in days)
                last = [d for d in days if d.obj < m + EPS][:1]
            c(a is not None and any(abs(a - d.ttt) < 1 + EPS for d in its[0]) and b is not None and any(abs(b - d.ttt) < 1 + EPS for d in last), "printed-summary", lambda: f"{tag}: {summary[0]!r} for {[d.ttt for d in its[0]]} -> {[d.ttt for d in last]}")
        if kind == "ga" and shown:
            g = [l for l in out if "Best fitness" in l]
            c(len(g) == n, "printed-iterations", lambda: f"{tag}: {len(g)} lines for {n} generations")
            for l, ds in zip(g, its):
                x = nums(l, "fitness =", "TTT =", "completed trips:")
                c(None not in x and any(near(x[0], -d.obj) and near(x[1], d.ttt if d.done else -1) and near(x[2], dn * len(d.done)) for d in ds), "printed-iterations", lambda: f"{tag}: {l!r} for {[(d.obj, d.ttt, len(d.done)) for d in ds]}")
            lists = [l for l in out if l.strip().startswith("total travel times:")]
            c(len(lists) == n, "printed-iterations", lambda: f"{tag}: {lists}")
            for i, l in enumerate(lists):
                v = [float(x) for x in l.split(":", 1)[1].split()]
                e = [d.ttt if d.done else -1 for d in days[i * case["pop"]:(i + 1) * case["pop"]]]
                c(seq(v, e), "printed-iterations", lambda: f"{tag}: {v}, evaluated {e}")
        if kind == "alns":
            g = [l for l in out if re.match(r"\s*iter: \d+", l)]
            e = [i for i in range(n) if i % 20 == 0] if shown else []
            c(len(g) == len(e), "printed-iterations", lambda: f"{tag}: {g}")
            for l, i in zip(g, e):
                d = days[i]
                x = nums(l, "iter:", "TTT:", "Obj:", "Best Obj:")
                x[2] = float(re.search(r", Obj:" + NUM, l).group(1))
                m = re.search(r"trips:\s*(\d+)/(\d+)", l)
                c(x[0] == i and near(x[1], d.ttt if d.done else -1) and near(x[2], d.obj) and near(x[3], min(q.obj for q in days[:i + 1])) and (int(m.group(1)), int(m.group(2))) == (dn * len(d.done), dn * d.n), "printed-iterations", lambda: f"{tag}: {l!r} for {d.ttt} {d.obj} {len(d.done)}/{d.n}")
            for full in (False, True):
                with Tape() as tp:
                    sol.print_solution_process(full=full)
                body = [l for l in tp.lines if re.match(r"\d+\s", l)]
                st = sol.run.steps
                e = [i for i, x in enumerate(st) if full or x.accepted]
                c([int(l.split()[0]) for l in body] == e, "printed-process", lambda: f"{tag} full={full}: rows {[l.split()[0] for l in body]}, steps {e}")


def run(case, ctx):
    cpp, kind = case["cpp"], case["kind"]
    env.load(cpp=bool(cpp))
    scn, dn = case["scn"], case["scn"]["world"]["deltan"]

    def one(ch):
        rng = Rot(ch, case.get("rot", 0), grid=2)
        dev = bool(ch.prefix)
        worlds = []

        def func():
            W = S.build(scn, cpp)
            worlds.append(W)
            return W
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sol = make(kind, func, cpp)
        for call, n in enumerate(case["calls"]):
            worlds.clear()
            tag = f"{kind} {'C++' if cpp else 'Python'} call {call} ({n} iterations)"
            names = {"due": ("random", "sample"), "dso": ("random", "sample")}.get(kind, ("random", "randint", "sample", "choice"))
            if cpp:
                names = tuple(x for x in names if x == "choice")
            random.seed(case.get("seed", 0) + call)
            old = random.Random
            if kind == "alns":
                random.Random = lambda *a: rng
            try:
                with warnings.catch_warnings(), patched(rng, names), nprandom(rng), Tape() as tp:
                    warnings.simplefilter("ignore")
                    ret = sol.solve(n, print_progress=case.get("print", True), **arguments(case, n))
            finally:
                random.Random = old
            days = [Day(W, dn) for W in worlds[1:]]
            want = {"due": n, "dso": n, "ga": n * case.get("pop", 0), "alns": n + 1}[kind]
            if not ctx.check(len(days) == want, "number-of-evaluations", lambda: f"{tag}: {len(days)} simulations, expected {want}"):
                return
            its = last_calls(kind, days, n, case.get("pop"))
            for name in ("ttts", "route_log", "cost_log", "dfs_link") + (("n_swaps", "potential_swaps", "t_gaps") if kind in ("due", "dso") else ()):
                ctx.check(len(getattr(sol, name)) == len(its), "log-length", lambda: f"{tag}: {name} has {len(getattr(sol, name))} entries for {len(its)} iterations")
            if kind == "dso" and all(d.open for d in days):
                ctx.check(ret is None, "solution-of-this-call", f"{tag}: a solution although trips are unfinished in every iteration")
            else:
                ctx.check(ret is sol.W_sol and any(ret is d.W for d in days), "solution-of-this-call", f"{tag}: the solution is not an assignment of this call")
            if ctx.viol:
                return
            check_figures(ctx, case, sol, its, days, dn, tag, not dev and not call)
            check_text(ctx, case, sol, its, days, tp.lines, dn, tag)
            if ctx.viol:
                return
            ctx.outcome((call, [round(d.obj, 3) for d in days]))
            for d in days:
                ctx.state(tuple(sorted((k, tuple(r)) for k, r in d.route.items())))
            ctx.count("figures", 3)
    explore(one, ctx, bound=case.get("bound", 0), cap=case.get("cap", 400))


def families(tier):
    big = tier == "thorough"
    d2d, meta = [], []
    for net in (tri, braess, twood):
        for dn, rt in ((1, 1.0), (5, 1.0), (1, 0.3)):
            for cn in ((2, 1), (3, 2)):
                s, sets = scenario(net, dn, cn, rt, tmax=140)
                for cpp in (0, 1):
                    for kind in ("due", "dso"):
                        for calls in ((1,), (2,), (3, 2), (4,), (5, 1), (8, 3)) if dn == 1 and rt == 1 or big else ((3, 1), (4,)) if cn == (2, 1) else ((2, 3),):
                            for rot in ((0, 1) if sum(calls) < 6 or cn == (2, 1) else (0,)) if not big else range(6):
                                d2d.append(dict(scn=s, cpp=cpp, kind=kind, calls=calls, rot=rot, seed=rot, sets=sets if rot % 2 else None, outside=bool(rot % 2), print=len(calls) > 1 or cn == (2, 1), bound=1 if not cpp and sum(calls) <= 4 and rot == 0 and dn == 1 and (rt == 1 or big) and cn == (2, 1) else 0))
                        if rt == 1 or big:
                            d2d.append(dict(scn=s, cpp=cpp, kind=kind, calls=(4, 4), prob=1, rot=2))
                        if kind == "dso":
                            d2d.append(dict(scn=s, cpp=cpp, kind=kind, calls=(3,), num=2, rot=0))
            for tm in (140, 26, 20):
                s, sets = scenario(net, dn, (3, 2), rt, tmax=tm)
                for cpp in (0, 1):
                    for rot in (0, 1, 2, 3) if not big else range(10):
                        if (dn == 5 or rt != 1) and (rot > 1 or tm == 20) and not big:
                            continue
                        meta.append(dict(scn=s, cpp=cpp, kind="ga", calls=((3, 2), (1,), (4,), (2, 2))[rot % 4], pop=4 + rot % 2, rot=rot, seed=rot, print=rot != 1))
                        meta.append(dict(scn=s, cpp=cpp, kind="alns", calls=((4, 2), (1,), (22,), (6,))[rot % 4], rot=rot, seed=rot, print=rot != 1, always=rot == 3))
        for tm in (140, 26):
            s, sets = scenario(net, 1, (2, 1), 1.0, tmax=tm)
            for rot in (0, 1) if not big else range(6):
                meta.append(dict(scn=s, cpp=0, kind="ga", calls=(2,), pop=3, rot=rot, seed=rot, bound=1, cap=3000))
                meta.append(dict(scn=s, cpp=0, kind="alns", calls=(2,), rot=rot, seed=rot, bound=1, cap=3000))
    return [Family("day-to-day", d2d, run, cpp=True, timeout=300, note="user-equilibrium and system-optimal day-to-day solvers: numbers of iterations, repeated calls, all origins and destinations of the figures"),
            Family("heuristics", meta, run, cpp=True, timeout=300, note="genetic algorithm and neighbourhood search, finished and unfinished trips, repeated calls")]


RUNNER = Runner("P29", "model_checking",
                "exhaustive enumeration of solvers, networks, numbers of iterations, repeated calls, origins and destinations, with the draws of the solvers controlled (fixed patterns and every single deviation from them); intercepted figures and printed text are compared with the evaluated simulations",
                families, ["the day-to-day solvers are used with horizons in which all trips end, as they require", "the travel cost gaps and swap counts of a day are decided by P23; here: which of them are reported where", "among individuals of equal objective any may represent its generation"])
