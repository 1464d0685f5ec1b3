"""P04: traffic signals."""
import itertools, math
from mc.runner import Runner, Family
from mc.nets import *
from mc import conform as C, scenario as S
from mc.refsim import Model


def timeline(sig, off, dt, n):
    """closed form: phase per step.  A phase ends at the first step whose elapsed time exceeds its duration."""
    if len(sig) <= 1:
        return [0] * n
    pos = sum(sig) - off
    while pos >= sum(sig) - 1e-9:
        pos -= sum(sig)
    while pos < -1e-9:
        pos += sum(sig)
    p = 0
    while pos >= sig[p] - 1e-9:
        pos -= sig[p]
        p += 1
    out = []
    k = math.floor((sig[p] - pos) / dt + 1e-9) + 1
    out += [p] * k
    while len(out) < n:
        p = (p + 1) % len(sig)
        out += [p] * (1 + math.floor(sig[p] / dt + 1e-9))
    return out[:n]


def inc(curve):
    return [b - a for a, b in zip([0] + list(curve[:-1]), curve)]


def law(W, o, scn, ctx, eng):
    w = scn["world"]
    dn = w["deltan"]
    dt = dn * w.get("reaction_time", 1)
    nd = {n["name"]: n for n in scn["nodes"]}
    outl = {n: [l for l in scn["links"] if l["from"] == n] for n in nd}
    if not scn.get("ops"):
        for n in scn["nodes"]:
            sig = n.get("signal", [0])
            log = o["signal"][n["name"]]
            want = timeline(sig, n.get("offset", 0), dt, len(log))
            if log != want:
                k = next(i for i in range(len(log)) if log[i] != want[i])
                ctx.fail(f"{eng}:timeline", f"signal {sig} offset {n.get('offset', 0)}: phase at step {k} is {log[k]}, plan says {want[k]}")
    for l in scn["links"]:
        sig = nd[l["to"]].get("signal", [0])
        if len(sig) <= 1 or not outl[l["to"]] or scn.get("ops"):
            continue
        sg = l.get("sg", [0])
        sg = [sg] if isinstance(sg, int) else sg
        dep = inc(o["link"][l["name"]]["cd"])
        for t, e in enumerate(dep):
            if e > 0 and o["signal"][l["to"]][t] not in sg:
                ctx.fail(f"{eng}:red-discharge", f"{e} vehicles left {l['name']} at step {t} in phase {o['signal'][l['to']][t]}, green phases {sg}")
                break


def run(case, ctx):
    C.conform(case, ctx, after=lambda W, o, m, cpp: law(W, o, case, ctx, "cpp" if cpp else "py"))


def run_ops(case, ctx):
    """signal plan overridden between execution segments"""
    scn, ops = case["scn"], case["ops"]
    for cpp in (0, 1):
        m = Model(scn, order="queue" if cpp else "id")
        W = S.build(scn, bool(cpp))
        for step, op in ops:
            while m.T < step:
                m.step()
                ctx.transitions += 1
                ctx.states.add(hash(m.state_key()))
            if step and getattr(W, "T", 0) < step:
                W.exec_simulation(duration_t2=(step - getattr(W, "T", 0)) * m.dt)
            n = m.nd[op["node"]]
            n.sig = list(op["signal"])
            if op.get("reset") or n.phase >= len(n.sig):
                n.phase, n.st = 0, 0
            if op.get("groups"):
                for l in n.inl:
                    g = [i for i, gr in enumerate(op["groups"]) if l.name in gr]
                    if g:
                        l.sg = g
            W.get_node(op["node"]).override_signal(list(op["signal"]), groups=op.get("groups"), reset=bool(op.get("reset")))
        m.run()
        W.exec_simulation()
        ctx.traces += 1
        o = S.observe(W)
        d = S.diff({k: S.obs_model(m)[k] for k in o}, o)
        ctx.check(d is None, f"{'cpp' if cpp else 'py'}:override", f"{d}")
        ctx.outcome(S.key(o["veh"]))


def families(tier):
    big = tier == "thorough"
    tl = []
    durs = (0, 3, 5, 10, 12) if not big else (0, 1, 3, 5, 7.5, 10, 12, 20)
    for n in (1, 2, 3):
        for sig in itertools.product(durs, repeat=n):
            if sum(sig) == 0 or (n == 1 and sig == (0,)):
                continue
            for off in (0, 1, 4, 5, sum(sig) - 1, sum(sig)):
                if off > sum(sig):
                    continue
                for dn in (1, 5):
                    nodes, links = line(2, length=[100, 100], sg=[[0], [0]])
                    nodes[1].update(signal=list(sig), offset=off)
                    tl.append(scn(nodes, links, vehicles=platoons("n0", "n2", (1, 1)), deltan=dn, tmax=45 * dn, duo_update_time=10000))
    if not big:
        tl = tl[::2] + tl[1::4]
    # time steps without exact binary representation: durations and offsets that are whole numbers of steps
    for dn, rt in ((1, 0.1), (1, 0.7), (1, 1.1), (3, 0.3), (2, 1.3), (5, 1.2)):
        dt = dn * rt
        for n in (2, 3):
            for ks in itertools.product((0, 1, 3, 6, 10) if n == 2 else (1, 3, 7), repeat=n):
                for off in sorted({0, 1, 2, sum(ks) - 1, sum(ks)}):
                    if not sum(ks) or off > sum(ks) or off < 0 or (not big and (sum(ks) + off) % 2):
                        continue
                    nodes, links = line(2, length=[40 * dt, 40 * dt], sg=[[0], [0]])
                    nodes[1].update(signal=[round(k * dt, 9) for k in ks], offset=round(off * dt, 9))
                    tl.append(scn(nodes, links, vehicles=platoons("n0", "n2", (1, 1)), deltan=dn, reaction_time=rt, tmax=45.01 * dt, duo_update_time=10000))
    cross = []
    groups3 = ([0], [1], [0, 1], [2], [1, 2], [])
    for ax in product(dn=(1, 5), sig=((8, 12), (5, 5, 10), (20, 3)), off=(0, 7), ga=groups3, gb=groups3, lanes=((1, 1, 1), (2, 1, 2)), flow=(0.3, 0.9)):
        if not big and (ax["dn"] == 5) == (ax["lanes"] == (2, 1, 2)):
            continue
        dt = ax["dn"]
        if len(ax["sig"]) == 2 and (2 in ax["ga"] or 2 in ax["gb"]):
            continue
        nodes = [N("a"), N("d"), N("b", signal=[s * (1 if dt == 1 else 2.5) for s in ax["sig"]], offset=ax["off"] * dt), N("c"), N("e")]
        links = [L("ab", "a", "b", 130 * dt, sg=ax["ga"], lanes=ax["lanes"][0]), L("db", "d", "b", 110 * dt + 3, sg=ax["gb"], lanes=ax["lanes"][1], u=15),
                 L("bc", "b", "c", 140 * dt, lanes=ax["lanes"][2]), L("be", "b", "e", 123 * dt)]
        cross.append(scn(nodes, links, demands=[["a", "c", 0, 20 * dt, ax["flow"]], ["d", "c", 0, 15 * dt, ax["flow"]], ["d", "e", 0, 15 * dt, 0.2]],
                         deltan=dt, tmax=60 * dt, duo_update_time=10000))
    arterial = []
    for ax in product(dn=(1, 5), s1=((10, 10), (6, 18)), o1=(0, 5, 11), s2=((10, 10), (15, 4)), o2=(0, 9), u=(20, 10)):
        dt = ax["dn"]
        nodes, links = line(3, length=[120 * dt, 150 * dt, 110 * dt], u=[ax["u"]] * 3)
        nodes[1].update(signal=[s * dt for s in ax["s1"]], offset=ax["o1"] * dt)
        nodes[2].update(signal=[s * dt for s in ax["s2"]], offset=ax["o2"] * dt)
        arterial.append(scn(nodes, links, demands=[["n0", "n3", 0, 25 * dt, 0.6]], deltan=dt, tmax=80 * dt, duo_update_time=10000))
    ops = []
    plans = ([10, 10], [4, 9, 6], [30, 5], [7])
    for first in ([6, 8], [5, 5, 5]):
        for plan in plans:
            for when in ((0, 3, 9, 14, 17) if not big else range(0, 22)):
                for reset in (False, True):
                    for groups in (None, "swap", "multi") if len(plan) > 1 else (None, "swap"):
                        for dn in (1, 5):
                            nodes = [N("a"), N("d"), N("b", signal=[s * dn for s in first]), N("c")]
                            links = [L("ab", "a", "b", 120 * dn, sg=[0]), L("db", "d", "b", 100 * dn, sg=[1]), L("bc", "b", "c", 120 * dn)]
                            s = scn(nodes, links, demands=[["a", "c", 0, 20 * dn, 0.4], ["d", "c", 0, 20 * dn, 0.4]], deltan=dn, tmax=50 * dn, duo_update_time=10000)
                            g = None
                            if groups == "multi":
                                # one approach green in the first and the last phase, the other in all but the first
                                g = [["ab"]] + [["db"] for _ in plan[1:]]
                                g[-1] = ["db", "ab"]
                            elif groups:
                                g = [[] for _ in plan]
                                g[0] = ["db"]
                                g[-1] = g[-1] + ["ab"]
                            op = dict(node="b", signal=[x * dn for x in plan], reset=reset, groups=g)
                            ops.append(dict(scn=s, ops=[[when, op]]))
    return [Family("timeline", tl, run, cpp=True, note="phase timeline of every plan of 1-3 phases x offsets x time steps against the closed form"),
            Family("crossing", cross, run, cpp=True, note="two approaches with every combination of green-phase memberships"),
            Family("arterial", arterial, run, cpp=True, note="two signals in series"),
            Family("override", ops, run_ops, cpp=True, note="plan overridden at every listed step, with/without reset and regrouping (also into several phases)")]


RUNNER = Runner("P04", "model_checking",
                "All listed signal plans x offsets x approach groups x platoon sizes (and override instants); each run checked against a closed-form phase timeline, "
                "the no-discharge-on-red law and the reference transition system.",
                families, ["hard deterministic mode", "a phase ends at the first step at which its elapsed time exceeds its duration (the documented rule)"])
