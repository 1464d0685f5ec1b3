"""P19: parameters that are changed while the simulation is paused govern everything from then on, and nothing before."""
import itertools
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from mc.refsim import Model, Tie, RouteError, eval_toll


def apply(W, op):
    kind, name, val = op
    if kind == "fc":
        W.get_node(name).flow_capacity = val
    elif kind == "route":
        W.VEHICLES[name].enforce_route(val)
    elif kind == "prefer":
        W.VEHICLES[name].set_links_prefer(val)
    elif kind == "avoid":
        W.VEHICLES[name].set_links_avoid(val)
    else:
        l = W.get_link(name)
        if kind == "u":
            l.change_free_flow_speed(val)
        elif kind == "kappa":
            l.change_jam_density(val)
        elif kind == "cin":
            l.capacity_in = val
        elif kind == "cout":
            l.capacity_out = val
        elif kind == "merge":
            l.merge_priority = val
        elif kind == "sg":
            l.signal_group = list(val)
        elif kind == "toll":
            l.congestion_pricing = None if val is None else (lambda t, v=val: eval_toll(v, t))


def params_model(m):
    o = {}
    for l in m.links:
        o[l.name] = dict(u=l.u, w=l.w, kappa=l.kappa, cap=l.cap, q_star=l.cap, k_star=l.cap / l.u if l.u else 0, cin=l.cin, cout=l.cout, merge=l.merge, sg=list(l.sg),
                         tau=l.tau, dpl=l.dpl, u_=l.u, kappa_=l.kappa, toll=m.toll(l, m.T * m.dt))
    for n in m.nodes:
        o[n.name] = dict(fc=n.fc if n.fc is not None else -1)
    return o


def params_world(W):
    o = {}
    for l in W.LINKS:
        o[l.name] = dict(u=l.u, w=l.w, kappa=l.kappa, cap=l.capacity, q_star=l.q_star, k_star=l.k_star, cin=l.capacity_in, cout=l.capacity_out, merge=l.merge_priority,
                         sg=list(l.signal_group), tau=l.tau, dpl=l.delta_per_lane, u_=l.free_flow_speed, kappa_=l.jam_density, toll=l.get_toll(W.T * W.DELTAT))
    for n in W.NODES:
        o[n.name] = dict(fc=n.flow_capacity if n.flow_capacity is not None else -1)
    return o


def run(case, ctx):
    scn, hist = case["scn"], case["hist"]
    for cpp in (0, 1):
        try:
            m = Model(scn, order="queue" if cpp else "id")
            W = S.build(scn, bool(cpp))
            name = ("py", "cpp")[cpp]
            for T, op in hist:
                if T > getattr(W, "T", 0):
                    W.exec_simulation(duration_t2=(T - getattr(W, "T", 0)) * m.dt)
                while m.T < T:
                    m.step()
                apply(W, op)
                m.change(*op)
                if T:
                    d = S.diff(params_model(m), params_world(W))
                    ctx.check(d is None, f"{name}:parameters", lambda: f"{name}: parameters right after {op} at step {T}: expected vs actual {d}")
            W.exec_simulation()
            while m.T < m.tsize:
                m.step()
                ctx.transitions += 1
                ctx.state(m.state_key())
        except Tie:
            ctx.skipped += 1
            ctx.trivial = True
            return
        o = S.observe(W)
        ctx.traces += 1
        d = S.diff(S.obs_model(m), o)
        ctx.check(d is None, f"{name}:model-mismatch", lambda: f"{name}: changes {hist}: model vs engine {d}")
        d = S.diff(params_model(m), params_world(W))
        ctx.check(d is None, f"{name}:parameters-at-end", lambda: f"{name}: changes {hist}: {d}")
        ctx.outcome(S.key(o["veh"]))


def world(dn, signal=False, fc=None, lanes=1, lkw={}, nkw={}, **w):
    nodes = [N("a"), N("b", 0, 100), N("m", 100, 50, signal=[7 * dn, 5 * dn] if signal else [0], **({"flow_capacity": fc} if fc else {})), N("x", 200, 50), N("d", 300, 50)]
    links = [L("am", "a", "m", 101 * dn, 20, lanes=lanes, sg=[0]), L("bm", "b", "m", 139 * dn, 14, sg=[1] if signal else [0], merge=2),
             L("mx", "m", "x", 120 * dn, 20, lanes=lanes), L("p", "x", "d", 173 * dn, 20, cap_out=0.6), L("y", "x", "d2", 90 * dn, 20), L("q", "d2", "d", 97 * dn, 11)]
    nodes.append(N("d2", 250, 0))
    for l in links:
        l.update(lkw.get(l["name"], {}))
    veh = platoons("a", "d", [1] * 22) + platoons("b", "d", [1, 1, 0] * 7, start=2)
    for i, v in enumerate(veh):
        v["name"] = f"v{i}"
    return scn(nodes, links, vehicles=veh, **{**dict(deltan=dn, tmax=60 * dn, duo_update_time=9 * dn), **w})


def ops(dn, signal, fc, full):
    o = [("u", "mx", 8), ("u", "mx", 0), ("u", "p", 5), ("u", "am", 0), ("kappa", "mx", 0.08), ("kappa", "p", 0.4), ("cin", "mx", 0.3), ("cin", "p", 0), ("cin", "y", 0.25), ("cout", "mx", 0.4), ("cout", "p", 0), ("cout", "am", 0.3),
         ("merge", "am", 5), ("merge", "bm", 0.5), ("toll", "p", 40), ("toll", "y", [[0, 5], [30 * dn, 60]]), ("route", "v9", ["am", "mx", "y", "q"]), ("prefer", "v12", ["y"]), ("avoid", "v15", ["p"])]
    if signal:
        o += [("sg", "am", [1]), ("sg", "bm", [0, 1]), ("sg", "am", [])]
    if fc:
        o += [("fc", "m", 2.0)] + ([("fc", "m", None)] if full else [])
    o.append(("fc", "m", 0.3))
    if full:
        o += [("u", "am", 30), ("u", "y", 33), ("u", "p", 0), ("kappa", "am", 0.1), ("cin", "mx", 5), ("cout", "mx", 5), ("toll", "p", None), ("cin", "am", 0), ("route", "v20", ["am", "mx", "p"]), ("avoid", "v9", ["y"])]
    return o


SC = {"plain": dict(), "sig": dict(signal=True), "fc": dict(fc=0.7), "lanes": dict(lanes=2, fc=1.5), "toll": dict(lkw={"p": dict(toll=30)}), "grad": dict(gradual=True)}


def families(tier):
    big = tier == "thorough"
    one, two = [], []
    for dn in (1, 5):
        for k, kw in SC.items():
            s = world(dn, **kw)
            A = ops(dn, kw.get("signal"), kw.get("fc"), True)
            for op in A:
                for T in range(0, 45, 3 if big else 9) if dn == 1 else (4, 20):
                    if T == 0 and op[0] in ("u", "kappa", "route", "prefer", "avoid", "fc"):
                        pass
                    one.append(dict(scn=s, hist=[(T, op)]))
            if dn == 1 or big:
                B = ops(dn, kw.get("signal"), kw.get("fc"), big)
                st = [(8, 20), (14, 14), (5, 40), (20, 26)] if big else [(8, 20)]
                for a, b in itertools.product(B, B):
                    if a == b and not big:
                        continue
                    for i, (t1, t2) in enumerate(st):
                        if not big and (A.index(a) * 31 + A.index(b) * 17 + len(two)) % 2 and a[1] != b[1]:
                            continue
                        two.append(dict(scn=s, hist=[(t1, a), (t2, b)]))
    for c in (one, two):
        c += frac(c, 5 if big else 13)
    return [
        Family("one-change", one, run, cpp=True, note="every change of the alphabet (free-flow speed, jam density, inflow and outflow capacity, merge priority, signal groups, node capacity, toll, specified/preferred/avoided links; including zero) at every step of a grid, on 6 networks"),
        Family("two-changes", two, run, cpp=True, note="ordered pairs of changes of the alphabet"),
    ]


RUNNER = Runner("P19", "model_checking",
                "every history of one or two parameter changes over the stated alphabet, networks and steps, executed by both engines in step with the reference transition system",
                families, ["changes are applied between calls of exec_simulation", "jam densities are positive"])
