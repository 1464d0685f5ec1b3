"""P30: requests that are refused or ignored leave the world, and everything that follows, exactly as they found it."""
import itertools, os, warnings
from mc import env
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from checks.p07 import whole, queries


class Warned(Exception):
    pass


def loud(f, *a, **k):
    """a request that is ignored has to say so"""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = f(*a, **k)
    if any(issubclass(w.category, UserWarning) for w in ws):
        raise Warned()
    return r


def first(W):
    return next(iter(W.VEHICLES.values()))


def last(W):
    return [v for v in W.VEHICLES.values() if v.mode != "taxi"][-1]


MID, OM, OK = "m", "om", "ok"
# name -> (moments, engines, request). moments: s = scenario being described, r = during the run, e = after the end
REFUSED = {
    "node taken": ("s", 2, lambda W: W.addNode(MID, 5, 5)),
    "link taken": ("s", 2, lambda W: W.addLink(OM, "o", "d", length=50)),
    "link from nowhere": ("s", 2, lambda W: W.addLink("zz", "nope", "d", length=50)),
    "link to nowhere": ("s", 2, lambda W: W.addLink("zz", "o", "nope", length=50, auto_rename=True)),
    "link half a lane": ("s", 2, lambda W: W.addLink("zz", "o", "d", length=50, number_of_lanes=1.5)),
    "link half a lane, density per lane": ("s", 2, lambda W: W.addLink("zz", "o", "d", length=50, number_of_lanes=2.5, jam_density_per_lane=0.2)),
    "link taken, half a lane": ("s", 2, lambda W: W.addLink(OM, "o", "d", length=50, number_of_lanes=0.5, auto_rename=True)),
    "link no lane": ("s", 2, lambda W: W.addLink("zz", "o", "d", length=50, number_of_lanes=0)),
    "link no speed": ("s", 2, lambda W: W.addLink("zz", "o", "d", length=50, free_flow_speed=0)),
    "link no density": ("s", 2, lambda W: W.addLink("zz", "o", "d", length=50, jam_density=0)),
    "link no density per lane": ("s", 2, lambda W: W.addLink("zz", "o", "d", length=50, jam_density_per_lane=0)),
    "vehicle taken": ("sre", 2, lambda W: W.addVehicle("o", "d", W_T(W), name=first(W).name)),
    "vehicle taken positional": ("sr", 2, lambda W: W.addVehicle("m", "d", 3, last(W).name, links_prefer=["md"])),
    "vehicle from nowhere": ("sr", 2, lambda W: W.addVehicle("nope", "d", W_T(W))),
    "vehicle to nowhere": ("sre", 2, lambda W: W.addVehicle("o", "nope", W_T(W), auto_rename=True, name=first(W).name)),
    "vehicle prefers unknown": ("sr", 2, lambda W: W.addVehicle("o", "d", W_T(W), links_prefer=[OM, "nope"])),
    "vehicle avoids unknown": ("sr", 2, lambda W: W.addVehicle("o", "d", W_T(W), links_avoid=[OM, "nope"])),
    "vehicle renamed avoids unknown": ("sr", 2, lambda W: W.addVehicle("o", "d", W_T(W), name=first(W).name, auto_rename=True, links_avoid=["nope"])),
    "taxi": ("sr", 1, lambda W: W.addVehicle("o", "d", W_T(W), mode="taxi")),
    "demand from nowhere": ("sr", 2, lambda W: W.adddemand("nope", "d", W_T(W), W_T(W) + 20, 0.5)),
    "demand to nowhere": ("sr", 2, lambda W: W.adddemand("o", "nope", W_T(W), W_T(W) + 20, volume=8)),
    "demand among unknown": ("sr", 2, lambda W: W.adddemand_nodes2nodes2(["o", "m"], ["d", "nope"], W_T(W), W_T(W) + 20, volume=8)),
    "old demand among unknown": ("sr", 2, lambda W: W.adddemand_nodes2nodes(["o", "nope"], ["d", "m"], W_T(W), W_T(W) + 20, volume=8)),
    "demand from dead ends": ("sr", 2, lambda W: W.adddemand_nodes2nodes2(["d"], ["d", "m"], W_T(W), W_T(W) + 20, volume=8)),
    "demand to sources": ("sr", 2, lambda W: W.adddemand_nodes2nodes2(["o", "m"], ["o"], W_T(W), W_T(W) + 20, volume=8)),
    "demand to itself": ("sr", 2, lambda W: W.adddemand_nodes2nodes2(["m"], ["m"], W_T(W), W_T(W) + 20, flow=0.4)),
    "demand within a point": ("sr", 2, lambda W: W.adddemand_area2area2(50, 50, 1, 50, 50, 2, W_T(W), W_T(W) + 20, flow=0.4)),
    "unknown node": ("sre", 2, lambda W: W.get_node("nope")),
    "unknown link": ("sre", 2, lambda W: W.get_link("nope")),
    "signal wrong number of groups": ("sr", 2, lambda W: W.get_node(MID).override_signal([4, 4], groups=[[OM]], reset=True)),
    "signal too many groups": ("sre", 2, lambda W: W.get_node(MID).override_signal([30], groups=[[OM], []], signal_offset=9)),
    "signal of outgoing link": ("sr", 2, lambda W: W.get_node(MID).override_signal([4, 6, 4], groups=[[], [OM], ["md"]], signal_offset_old=5)),
    "signal of unknown link": ("sr", 2, lambda W: W.get_node(MID).override_signal([40], groups=[[OM, "nope"]], reset=True)),
    "signal of other node": ("sr", 2, lambda W: W.get_node("d").override_signal([4, 4], groups=[["md"], [OM]])),
    "negative speed": ("sre", 2, lambda W: loud(W.get_link(OM).change_free_flow_speed, -5)),
    "tiny negative speed": ("sr", 2, lambda W: loud(W.get_link("md").change_free_flow_speed, -1e-9)),
    "negative density": ("sre", 2, lambda W: loud(W.get_link(OM).change_jam_density, -0.1)),
    "no density": ("sr", 2, lambda W: W.get_link(OM).change_jam_density(0)),
    "route of unknown": ("sr", 2, lambda W: last(W).enforce_route([OM, "nope"])),
    "avoiding route of unknown": ("sr", 2, lambda W: last(W).enforce_route([OK, "nope"], set_avoid=True)),
    "prefer unknown": ("sr", 2, lambda W: last(W).set_links_prefer([OK, "nope"])),
    "avoid unknown": ("sr", 2, lambda W: last(W).set_links_avoid([OM, "nope"])),
    "second destination": ("sre", 2, lambda W: last(W).add_dest("m")),
    "second destination first": ("sr", 2, lambda W: last(W).add_dest("m", order=0)),
    "more destinations": ("sr", 2, lambda W: last(W).add_dests(["m", "k"])),
    "broken route": ("sre", 2, lambda W: W.defRoute([OM, "kd"])),
    "unknown route": ("sr", 2, lambda W: W.defRoute([OM, "nope"])),
    "back in time": ("r", 2, lambda W: W.exec_simulation(until_t=W.TIME - 3 * W.DELTAT)),
    "no time": ("r", 2, lambda W: W.exec_simulation(duration_t2=0)),
    "less than no time": ("re", 2, lambda W: W.exec_simulation(duration_t2=-3 * W.DELTAT)),
    "negative time": ("r", 2, lambda W: W.exec_simulation(duration_t=-2 * W.DELTAT)),
    "save scenario": ("sr", 1, lambda W: W.save_scenario(os.path.join(env.scratch(), "no"))),
    "load scenario": ("s", 1, lambda W: W.load_scenario(os.path.join(env.scratch(), "no"))),
    "save": ("sr", 1, lambda W: W.save(os.path.join(env.scratch(), "no"))),
    "copy": ("sr", 1, lambda W: W.copy()),
    "taxi destinations": ("sr", 0, lambda W: W.VEHICLES["taxi"].add_dests(["m", "nope"])),
    "taxi destination": ("sr", 0, lambda W: W.VEHICLES["taxi"].add_dest("nope", order=0)),
}


def W_T(W):
    return getattr(W, "TIME", 0) or 0


def settings(W):
    """everything a scenario consists of"""
    return dict(nodes=[[n.name, n.id, float(n.x), float(n.y), [float(x) for x in n.signal], float(n.signal_offset), float(n.cycle_length), int(n.signal_phase), float(n.signal_t),
                        -1 if n.flow_capacity is None else float(n.flow_capacity), sorted(n.inlinks), sorted(n.outlinks)] for n in W.NODES],
                links=[[l.name, l.id, l.start_node.name, l.end_node.name, list(l.signal_group)] + [float(x) for x in (
                    l.length, l.u, l.kappa, l.tau, l.w, l.capacity, l.delta, l.delta_per_lane, l.q_star, l.k_star, l.free_flow_speed, l.jam_density, l.number_of_lanes, l.merge_priority, l.capacity_out, l.capacity_in)] for l in W.LINKS],
                vehs=[[v.name, v.id, v.orig.name, v.dest.name if v.dest else None, float(v.departure_time_in_second), str(v.state), v.mode, [l.name for l in v.links_prefer], [l.name for l in v.links_avoid],
                       None if v.specified_route is None else [l.name for l in v.specified_route], [n.name for n in v.dest_list], [float(x) for x in v.color]] for v in W.VEHICLES.values()],
                index=[list(W.NODES_NAME_DICT), list(W.LINKS_NAME_DICT), list(W.VEHICLES), sorted(W.VEHICLES_LIVING), sorted(W.VEHICLES_RUNNING)],
                tmax=W.TMAX, time=float(W_T(W)), demands={k: len(v) for k, v in getattr(W, "demand_info", {}).items()})


def during(W):
    return dict(settings(W), q=queries(W, [0, W.TIME, W.TIME - W.DELTAT, W.TIME + 30]) if W.T > 0 else 0, logs=S.observe(W), ongoing=bool(W.check_simulation_ongoing()))


def statements(case):
    """the calls that describe the scenario, in order"""
    v = case["var"]
    dn, rnd = case["dn"], case["rnd"]
    out = [lambda W: W.addNode("o", 0, 0), lambda W: W.addNode("m", 50, 50, signal=[6 * dn, 4 * dn]), lambda W: W.addNode("k", 50, -50), lambda W: W.addNode("d", 100, 0),
           lambda W: W.addLink("om", "o", "m", length=101 * dn, signal_group=[0]), lambda W: W.addLink("md", "m", "d", length=95 * dn, number_of_lanes=2 if v else 1),
           lambda W: W.addLink("ok", "o", "k", length=120 * dn), lambda W: W.addLink("kd", "k", "d", length=98 * dn, merge_priority=2), lambda W: W.addLink("mk", "m", "k", length=40 * dn, capacity_out=0.4),
           lambda W: W.addVehicle("o", "d", 0, name="a"),
           lambda W: W.adddemand("o", "d", 0, 30 * dn, 0.9), lambda W: W.adddemand_nodes2nodes2(["o", "m"], ["d", "k"], 3 * dn, 20 * dn, volume=6 * dn),
           lambda W: W.addVehicle("m", "d", 4 * dn, links_prefer=["mk"])]
    if not case["cpp"]:
        out.insert(10, lambda W: W.addVehicle("o", None, 0, name="taxi", mode="taxi"))
        out.append(lambda W: W.VEHICLES["taxi"].add_dests(["k", "d"]))
    return out


AT = {"node taken": 2, "link taken": 5, "link taken, half a lane": 5}    # statements that have to precede


def possible(name, i):
    """may this request be made before the i-th statement?"""
    if name in AT:
        return i >= AT[name]
    if name.startswith("link"):
        return i >= 4
    if name in ("unknown node", "unknown link", "taxi", "save scenario", "load scenario", "save", "copy"):
        return True
    if name.startswith("taxi"):
        return i >= 11
    if "signal" in name or "speed" in name or "density" in name:
        return i >= 9
    return i >= 10


def play(case, asks):
    """describe and run the scenario with the requests made at their moments"""
    cpp, dn = case["cpp"], case["dn"]
    W = S.make_world(dict(world=dict(deltan=dn, tmax=60 * dn, duo_update_time=9 * dn, **(dict(hard=False, duo_noise=0.05, seed=3) if case["rnd"] else {}), **case.get("world", {}))), cpp=bool(cpp))
    views = []
    stm = statements(case)
    for i, st in enumerate(stm + [None]):
        for ask in asks.get(("s", i), []):
            views.append(ask(W, settings, f"before statement {i + 1} of the description"))
        if st:
            st(W)
    at = sorted({k for ph, k in asks if ph == "r"})
    T = 0
    for k in at:
        if k > T:
            W.exec_simulation(duration_t2=(k - T) * W.DELTAT)
            T = k
        elif k == 0:
            W.finalize_scenario()
        for ask in asks[("r", k)]:
            views.append(ask(W, during, f"at timestep {W.T}"))
    if case.get("more"):                # the following of a refused request: new traffic and a new plan
        for W_ in (W,):
            W_.addVehicle("o", "d", W_T(W))
            W_.adddemand("m", "k", W_T(W), W_T(W) + 8 * dn, 0.5)
            W_.get_node("m").override_signal([3 * dn, 5 * dn], groups=[["om"], []])
    W.exec_simulation()
    for ask in asks.get(("e", 0), []):
        views.append(ask(W, during, "after the end"))
    return W, views


def total(W):
    o = whole(W)
    o["set"] = settings(W)
    o["colors"] = {n: [float(x) for x in v.color] for n, v in W.VEHICLES.items()}
    return o


_ref = {}


def run(case, ctx):
    reqs = case["reqs"]                 # [(moment, index, name)]
    eng = "C++" if case["cpp"] else "Python"
    refused = []

    def asker(name):
        def ask(W, look, when):
            before = look(W)
            try:
                r = REFUSED[name][2](W)
            except Exception as e:
                refused.append(type(e).__name__)
            else:
                ctx.fail("accepted", f"{eng}: '{name}' {when} was neither refused nor ignored with a warning: {r}")
                return None
            after = look(W)
            d = S.diff(before, after)
            ctx.check(d is None, "trace", f"{eng}: '{name}' {when} was refused ({refused[-1]}) but changed {d}")
            ctx.states.add((when, name, case["cpp"]))
            return None
        return ask

    asks, ghosts = {}, {}
    for ph, i, name in reqs:
        asks.setdefault((ph, i), []).append(asker(name))
        ghosts.setdefault((ph, i), [])                # the reference makes the same stops and no request
    W, _ = play(case, asks)
    ctx.transitions += len(reqs) + int(W.T)
    key = S.key([case[k] for k in ("var", "dn", "rnd", "cpp", "world", "more")] + [sorted(i for ph, i, n in reqs if ph == "r")])
    if key not in _ref:
        _ref.clear() if len(_ref) > 30 else None
        _ref[key] = total(play(case, ghosts)[0])
    d = S.diff(_ref[key], total(W))
    ctx.check(d is None, "aftermath", f"{eng}: after the refused {[r[2] for r in reqs]} at {[r[:2] for r in reqs]}, the simulation differs from that without: {d}")
    ctx.outcome(tuple(refused))
    ctx.traces += 1
    if case.get("saved"):
        f = os.path.join(env.scratch(), f"p30_{os.getpid()}")
        W.save_scenario(f)
        V = S.make_world(dict(world=dict(deltan=case["dn"], tmax=60 * case["dn"], duo_update_time=9 * case["dn"])))
        V.load_scenario(f)
        os.remove(f)
        V.exec_simulation()
        ctx.check([n.name for n in V.NODES] == [n.name for n in W.NODES] and [l.name for l in V.LINKS] == [l.name for l in W.LINKS], "saved", f"'{reqs}': the saved scenario is another network")
        ctx.check({k: len(v) for k, v in getattr(V, "demand_info", {}).items()} == {k: len(v) for k, v in getattr(W, "demand_info", {}).items()}, "saved", lambda: f"the saved scenario has other demands: {dict(getattr(V, "demand_info", {}))}")


def families(tier):
    big = tier == "thorough"
    desc, mid, pairs = [], [], []

    def case(cpp, reqs, var=0, dn=1, rnd=1, **kw):
        return dict(cpp=cpp, reqs=reqs, var=var, dn=dn, rnd=rnd, world=kw.pop("world", {}), more=kw.pop("more", 0), **kw)

    def names(cpp, ph):
        return [n for n, (m, e, f) in REFUSED.items() if ph in m and e in (2, cpp)]

    for cpp in (0, 1):
        n = 15 if not cpp else 13
        for i in range(n + 1):
            for a in names(cpp, "s"):
                if possible(a, i):
                    desc.append(case(cpp, [("s", i, a)], dn=1, rnd=1, saved=not cpp and i in (9, 12, n)))
                    if big or i in (9, n):
                        desc.append(case(cpp, [("s", i, a)], dn=5, rnd=0, var=1))
        for k in sorted({*range(0, 60, 1 if big else 9), 1, 2, 6, 59}):
            for a in names(cpp, "r"):
                if k < 3 and a in ("back in time", "negative time"):
                    continue
                mid.append(case(cpp, [("r", k, a)], more=k < 40))
                if big or k in (6, 27):
                    mid.append(case(cpp, [("r", k, a)], dn=5, rnd=0, var=1, more=0))
                if big or k == 9:
                    mid.append(case(cpp, [("r", k, a)], dn=2, rnd=1, world=dict(gradual=True, reaction_time=0.7)))
        for a in names(cpp, "e"):
            mid.append(case(cpp, [("e", 0, a)]))
            mid.append(case(cpp, [("e", 0, a)], dn=5, var=1, rnd=0))
        rs = names(cpp, "r")
        for (x, a), (y, b) in itertools.product(enumerate(rs), repeat=2):
            for k, j in ((7, 7), (3, 7), (7, 20), (20, 45)) if big else () if (x + y) % 2 else ((7, 7),) if (x + y) % 4 else ((7, 20),):
                pairs.append(case(cpp, [("r", k, a), ("r", j, b)], more=1))
        for a, b in itertools.product(names(cpp, "s"), names(cpp, "r")):
            if possible(a, n) and (big or b in ("vehicle taken", "signal of unknown link", "no density", "demand to itself", "no time", "negative speed")):
                pairs.append(case(cpp, [("s", n, a), ("r", 7, b)], more=1))
    return [Family("description", desc, run, cpp=True, note="every refused request before every statement of the description; Python scenarios are also saved and loaded"),
            Family("run", mid, run, cpp=True, note="every refused request at the listed timesteps and after the end, deterministic and random worlds, new traffic afterwards"),
            Family("pairs", pairs, run, cpp=True, note="ordered pairs of refused requests (thorough: all; quick: every second one), at one moment or two")]


RUNNER = Runner("P30", "model_checking",
                "exhaustive enumeration of refused requests (all kinds x all moments of describing and running a scenario, and ordered pairs) on the real engines; each execution is compared, right after the request and in everything that follows, with the execution in which it was not made",
                families, ["requests with arguments of wrong types, and those which fail during a simulation step (impossible enforced routes), are outside the alphabet",
                           "a refused exec_simulation is asked of a finalized world"])
