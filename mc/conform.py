"""Conformance of the engines to the reference transition system."""
from . import scenario as S
from .refsim import Model, Tie
from .script import ScriptRNG, CppScript
from .runner import explore, h64


def run_model(scn, ctx, order="id", pick=None, perm=None):
    m = Model(scn, pick=pick, perm=perm, order=order)
    while m.T < m.tsize:
        m.step()
        ctx.states.add(h64(m.state_key()))
        ctx.transitions += 1
    return m


def conform(scn, ctx, cpps=(0, 1), what=("veh", "link", "signal"), after=None):
    """Deterministic mode: each engine must produce exactly the model's run."""
    obs = {}
    try:
        for cpp in cpps:
            m = run_model(scn, ctx, order="queue" if cpp else "id")
            obs[cpp] = (m, S.obs_model(m))
    except Tie:
        ctx.skipped += 1
        ctx.trivial = True
        return None
    out = {}
    for cpp in cpps:
        W = S.simulate(scn, bool(cpp))
        o = S.observe(W, what)
        ref = {k: obs[cpp][1][k] for k in what}
        d = S.diff(ref, o)
        ctx.traces += 1
        if d:
            ctx.fail(f"{'cpp' if cpp else 'py'}:model-mismatch", f"model vs {'C++' if cpp else 'Python'} engine {d}")
        out[cpp] = (W, o)
        if after:
            after(W, o, obs[cpp][0], cpp)
        ctx.outcome(S.key(o.get("veh", o)))
    return out


def canon_routes(o):
    return S.key({n: v["route"] for n, v in o["veh"].items()})


def distribution(scn, ctx, kind, canon=canon_routes, grid=2, live=(), cap=None, monitor=None):
    """Exact probability distribution over outcomes, by exhausting every random draw.
    kind: model | py | cpp"""
    D = {}

    def run(ch):
        if kind.startswith("model"):
            r = ScriptRNG(ch, grid=grid)

            def pick(o, w):
                s = float(sum(w))
                return r._pick(len(o), "pick", [x / s for x in w])

            def perm(l):
                l = list(l)
                r.shuffle(l)
                return l
            m = Model(scn, pick=pick, perm=perm, order="queue" if kind == "model-queue" else "id")
            if scn["world"].get("duo_noise"):
                m.unif = r.uniform
            m.run()
            o = S.obs_model(m)
            ctx.transitions += m.tsize
            p = r.prob
        elif kind == "py":
            r = ScriptRNG(ch, grid=grid)
            W = S.simulate(scn, False, r)
            o = S.observe(W)
            p = r.prob
            ctx.traces += 1
            if monitor:
                monitor(W, o)
        else:
            r = CppScript(ch, grid=grid, live=live)
            W = S.simulate(scn, True)
            o = S.observe(W)
            r.finish()
            p = r.prob
            ctx.traces += 1
            if monitor:
                monitor(W, o)
        k = canon(o)
        D[k] = D.get(k, 0.0) + p
        if kind.startswith("model"):
            ctx.states.add(h64(k))
        ctx.outcome(k)
    explore(run, ctx, cap=cap)
    return D


def compare_distributions(ctx, ref, got, name, tol=1e-9):
    only_ref = [k for k in ref if k not in got]
    only_got = [k for k in got if k not in ref]
    if only_got:
        ctx.fail(f"{name}:impossible-outcome", f"{len(only_got)} outcome(s) of {name} are not possible in the model, e.g. {only_got[0]!r}")
    if only_ref:
        ctx.fail(f"{name}:missing-outcome", f"{len(only_ref)} of {len(ref)} model outcomes never occur in {name}, e.g. {only_ref[0]!r}")
    if not only_ref and not only_got:
        w = max(ref, key=lambda k: abs(ref[k] - got[k]))
        if abs(ref[w] - got[w]) > tol:
            ctx.fail(f"{name}:probability", f"outcome has probability {got[w]} in {name}, {ref[w]} in the model: {w!r}")
