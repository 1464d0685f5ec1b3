"""P08: results are a function of the scenario and the seed only: not of the number of threads, the
interleaving of the C++ engine's threads, or of other simulations in the same process."""
import itertools
from mc.runner import Runner, Family, explore
from mc.nets import *
from mc import scenario as S, omp, env
from checks.p06 import nets
from checks.p07 import queries


def outcome_of(scn, threads):
    s = dict(scn, world=dict(scn["world"], threads=threads))
    try:
        W = S.build(s, True)
        W.exec_simulation()
        o = S.observe(W)
        o["q"] = queries(W, [0, 20, W.TMAX])
        o["basic"] = [float(x) for x in W.analyzer.basic_to_pandas().iloc[0]]
        o["order"] = [list(W.VEHICLES), sorted(W.VEHICLES_LIVING), sorted(W.VEHICLES_RUNNING)]
        return o
    except Exception as e:
        return {"exception": f"{type(e).__name__}: {e}"}


_ref = {}


def ref(scn):
    k = repr(scn)
    if k not in _ref:
        _ref.clear()
        omp.begin()
        _ref[k] = outcome_of(scn, 1)
    return _ref[k]


def one(scn, threads, ctx, script=(), pol=0, what=""):
    base = ref(scn)
    omp.begin(script=script, policy=pol)
    o = outcome_of(scn, threads)
    r = omp.result()
    ctx.transitions += r["switches"]
    ctx.count("accesses_checked", r["accesses"])
    ctx.count("barrier_intervals", r["intervals"])
    ctx.traces += 1
    d = S.diff(base, o, tol=0)
    ctx.check(d is None, "schedule-dependent", f"1 thread vs {threads} threads, order policy {pol}{what}: {d}")
    if r["uncontrolled"]:
        ctx.capped += 1
        return r
    # dependent accesses inside one barrier interval: reverse them
    seen = set()
    for reg, ta, ka, tb, kb, kind in r["races"]:
        if (reg, ta, ka) in seen or len(seen) >= 40:
            continue
        seen.add((reg, ta, ka))
        omp.begin(script=script, policy=pol, pres=[(reg, ta, ka)])
        o = outcome_of(scn, threads)
        r2 = omp.result()
        ctx.execs += 1
        ctx.count("reversals_explored")
        if r2["uncontrolled"]:
            ctx.capped += 1
            continue
        d = S.diff(base, o, tol=0)
        if not ctx.check(d is None, "schedule-dependent", f"{threads} threads, thread {ta} preempted in parallel region {reg} before access {ka} (conflicts with thread {tb}): {d}"):
            break
    ctx.count("conflicting_pairs", len(r["races"]))
    return r


def run_team(case, ctx):
    r = one(case["scn"], case["threads"], ctx, pol=case["pol"])
    want = case["threads"] if case["threads"] > 0 else 3
    if r:
        ctx.check(r["team"] in (0, want), "thread-count", f"threads={case['threads']} used teams of {r['team']}")
    ctx.outcome((S.key(ref(case["scn"]).get("veh", 0)), case["threads"], case["pol"]))
    ctx.state((case["threads"], case["pol"], r["switches"]))


def run_orders(case, ctx):
    def go(ch):
        r = one(case["scn"], case["threads"], ctx, script=ch.prefix, what=f" deviations {[k for k, c in enumerate(ch.prefix) if c]}")
        ch.trace = r["trace"]
        ctx.state(tuple(c for c, _, _ in r["trace"]))
    explore(go, ctx, bound=case["bound"], cap=case.get("cap"))
    ctx.outcome(S.key(ref(case["scn"]).get("veh", 0)))


def full(W):
    o = S.observe(W)
    o["basic"] = [float(x) for x in W.analyzer.basic_to_pandas().iloc[0]]
    o["nodes"] = [n.name for n in W.NODES]
    return o


_alone = {}


def run_inter(case, ctx):
    """several simulations advanced in the interleaving given by case['seq'] behave as if alone"""
    omp.begin(shadow=0)
    specs, seq = case["specs"], case["seq"]

    def fresh(i):
        scn, cpp = specs[i]
        return S.build(scn, bool(cpp))
    k = repr(specs)
    if k not in _alone:
        _alone.clear()
        _alone[k] = []
        for i in range(len(specs)):
            W = fresh(i)
            W.exec_simulation()
            _alone[k].append(full(W))
    Ws = {}
    for i in seq:
        if i not in Ws:
            Ws[i] = fresh(i)
        else:
            Ws[i].exec_simulation(duration_t2=Ws[i].DELTAT * 10.01)
        ctx.transitions += 1
    for i in range(len(specs)):
        W = Ws.get(i) or fresh(i)
        if W.check_simulation_ongoing() if hasattr(W, "T") else True:
            W.exec_simulation()
        d = S.diff(_alone[k][i], full(W), tol=0)
        ctx.check(d is None, "not-reproducible", f"simulation {i} (engine {'C++' if specs[i][1] else 'Python'}) alone vs interleaved {seq}: {d}")
        ctx.traces += 1
    ctx.outcome((k, tuple(seq)))
    ctx.state(tuple(seq))


def scenarios(big):
    out = []
    for ax in product(hard=(True, False), dn=(1, 5), grad=(False, True), nc=(False, True), seed=(0, 7)):
        if ax["hard"] and ax["seed"]:
            continue
        if not big and ax["grad"] and ax["nc"]:
            continue
        out.append(nets(ax["dn"], 1, hard=ax["hard"], gradual=ax["grad"], no_cyclic=ax["nc"], seed=ax["seed"], duo_noise=0.01))
    # many links and nodes, multi-lane, node capacities, every vehicle enters and leaves somewhere else
    for hard in (True, False):
        nodes = [N(f"n{i}{j}", i * 100, j * 100, **({"signal": [8, 6]} if (i, j) == (1, 1) else {"flow_capacity": 0.6} if (i, j) == (0, 1) else {})) for i in range(3) for j in range(3)]
        links = []
        for i in range(3):
            for j in range(3):
                for di, dj in ((1, 0), (0, 1), (-1, 0), (0, -1)):
                    if 0 <= i + di < 3 and 0 <= j + dj < 3:
                        links.append(L(f"l{i}{j}{i+di}{j+dj}", f"n{i}{j}", f"n{i+di}{j+dj}", 100 + 7 * len(links), lanes=1 + (i + j) % 2, sg=[abs(di)] if (i + di, j + dj) == (1, 1) else None))
        dem = [[f"n{a}{b}", f"n{2-a}{2-b}", 0, 20, 0.5] for a in range(3) for b in range(3) if (a, b) != (1, 1)]
        out.append(scn(nodes, links, demands=dem, tmax=40, duo_update_time=10, hard=hard, duo_noise=0.01, seed=2))
    # two vehicles fail in the same step on different links / at different nodes: which error is reported
    for first in (["xy"], ["ax", "bz"]):
        nodes = [N("a"), N("b"), N("x"), N("y"), N("z")]
        links = [L("ax", "a", "x", 100), L("bz", "b", "z", 100), L("xy", "x", "y", 100), L("zy", "z", "y", 100)]
        bad1 = [first[0], "zy"] if len(first) > 1 else ["xy"]
        bad2 = ["bz", "xy"] if len(first) > 1 else ["zy"]
        out.append(scn(nodes, links, vehicles=[dict(o="a", d="y", ts=0, route=bad1), dict(o="b", d="y", ts=0, route=bad2)], tmax=40))
    return out


def families(tier):
    big = tier == "thorough"
    fams = []
    sc = scenarios(big)
    if omp._lib is not None:
        team = [dict(scn=s, threads=t, pol=p) for s in sc + frac(sc, 2 if big else 5) for t in ((2, 3, 4, 8, -1) if not big else (2, 3, 4, 5, 6, 7, 8, 12, 16, -1)) for p in (0, 1, 2)]
        fams.append(Family("teams", team, run_team, cpp=True, timeout=300, note="team sizes x thread orders x scenarios; all memory accesses of every barrier interval checked for dependence between threads"))
        short = dict(tmax=12 if not big else 16, duo_update_time=5)
        orders = []
        for hard in (True, False):
            s = nets(1, 1, hard=hard, seed=1, duo_noise=0.01)
            s = dict(s, world=dict(s["world"], **short))
            orders.append(dict(scn=s, threads=2, bound=1 if not big else 2))
            orders.append(dict(scn=s, threads=3, bound=1))
        for s in sc[-4:]:
            s = dict(s, world=dict(s["world"], **short))
            orders.append(dict(scn=s, threads=2, bound=1))
        fams.append(Family("orders", orders, run_orders, cpp=True, timeout=2000, note="every thread order with at most `bound` deviations from the default order over all barriers of a run"))
    inter = []
    specs = [[[nets(1, 1, hard=False, seed=5, duo_noise=0.05), 0], [nets(5, 1, hard=False, seed=6, duo_noise=0.05), 1]],
             [[nets(1, 1, hard=False, seed=5, duo_noise=0.05), 1], [nets(1, 1, hard=False, seed=5, duo_noise=0.05), 1]],
             [[nets(1, 1, hard=False, seed=5, duo_noise=0.05), 0], [nets(1, 1, hard=False, seed=5, duo_noise=0.05), 0]],
             [[nets(2, 1, hard=True), 0], [nets(1, 1, hard=False, seed=9, duo_noise=0.05), 0]]]
    for sp in specs:
        for seq in itertools.product((0, 1), repeat=6 if not big else 9):
            inter.append(dict(specs=sp, seq=list(seq)))
    fams.append(Family("interleaved", inter, run_inter, cpp=True, note="every interleaving of two simulations advanced in pieces in one process"))
    return fams


class OmpRunner(Runner):
    def make_(self, tier):
        return families(tier)

    def main(self, argv=None):
        self.unsupported = None
        try:
            omp.load()
        except omp.Unsupported as e:
            self.unsupported = str(e)
            print("note:", e)
            env.load(cpp=True)
            omp.begin = lambda *a, **k: None
        except Exception:
            pass        # reported by Runner.load
        return super().main(argv)

    def load(self, cpp):
        env.load(cpp=cpp)


RUNNER = OmpRunner("P08", "model_checking",
                   "One case = scenario x team size x thread order (or an interleaving of two simulations). In every barrier interval all memory accesses of the engine are tracked; an interval "
                   "without dependent accesses has a single Mazurkiewicz trace, dependent pairs are reversed and re-run. states = distinct explored schedules, transitions = thread switches.",
                   families, ["accesses inside libstdc++/libc functions other than memcpy/memmove/memset are not instrumented", "floating point results are compared bit for bit"])
