"""P17: World.copy() and World.save() at any moment of a run give an independent, equal simulation."""
import itertools, os
import dill
from mc import env
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from checks.p07 import whole, queries


def tick(x):
    x.user_attribute = (x.user_attribute or 0) + 1


def base(var, rnd):
    nodes = [N("o"), N("m", 50, 50), N("k", 50, -50), N("d", 100, 0)]
    links = [L("om", "o", "m", 203), L("md", "m", "d", 190), L("ok", "o", "k", 240), L("kd", "k", "d", 197, merge=2), L("mk", "m", "k", 80)]
    w = dict(deltan=2, tmax=160, duo_update_time=12)
    if var == "signal":
        nodes[1]["signal"] = [12, 9]
        links[0]["sg"] = [0]
    elif var == "toll":
        links[1]["toll"] = [[0, 0], [40, 60]]
    elif var == "lanes":
        links[1]["lanes"] = 2
        links[3]["cap_out"] = 0.3
        nodes[3]["flow_capacity"] = 0.9
    elif var == "gradual":
        w["gradual"] = True
        w["no_cyclic"] = True
    if rnd:
        w.update(hard=False, duo_noise=0.05)
    s = scn(nodes, links, demands=[["o", "d", 0, 70, 0.9], ["m", "d", 6, 60, 0.3]], **w)
    s["func"] = var == "func"
    return s


def build(case):
    s = base(case["var"], case["rnd"])
    if case.get("rt"):
        s["world"]["reaction_time"] = case["rt"]
    W = S.build(s)
    if s["func"]:
        for x in W.NODES + W.LINKS:
            x.user_function = tick
            x.user_attribute = None
    return W


def clone(W, how):
    if how == "copy":
        return W.copy()
    f = os.path.join(env.scratch(), f"w{os.getpid()}")
    W.save(f)
    with open(f + ".pkl", "rb") as g:
        out = dill.load(g)
    os.remove(f + ".pkl")
    return out


def obs(W):
    o = whole(W)
    o["attr"] = {x.name: repr(x.user_attribute) for x in W.NODES + W.LINKS}
    return o


def live(W):
    return {"veh": S.observe(W, ("veh",)), "sets": [list(W.VEHICLES), list(W.VEHICLES_LIVING), list(W.VEHICLES_RUNNING)], "T": [getattr(W, "T", None), W.TIME if hasattr(W, "T") else 0],
            "sig": {n.name: [n.signal_phase, n.signal_t, list(n.signal_log), n.flow_capacity_remain] for n in W.NODES},
            "link": {l.name: [list(map(float, l.cum_arrival)), list(map(float, l.cum_departure)), [v.name for v in l.vehicles], l.capacity_in_remain, l.capacity_out_remain] for l in W.LINKS},
            "attr": {x.name: repr(x.user_attribute) for x in W.NODES + W.LINKS}}


def goto(W, k):
    """advance to after k steps (0: nothing, -1: finalized only)"""
    if k == 0:
        return
    if k < 0:
        W.finalize_scenario()
        return
    n = W.T if hasattr(W, "T") else 0
    if k > n:
        W.exec_simulation(duration_t2=(k - n) * W.DELTAT)


def disturb(W, what):
    """things a user tries out in the copy (or in the original)"""
    if what == "demand":
        W.adddemand("o", "d", 30, 90, flow=0.5)
    elif what == "link":
        l = W.get_link("om")
        l.change_free_flow_speed(9)
        l.capacity_out = 0.1
        W.get_link("kd").attribute = "changed"
    elif what == "signal":
        W.get_node("m").override_signal([5, 5, 5])
        W.get_node("m").user_attribute = "x"
    elif what == "route":
        for v in W.VEHICLES.values():
            v.set_links_avoid(["md"])
    elif what == "pref":
        for v in W.VEHICLES.values():
            v.route_pref[:] = 0
    elif what == "rng":
        W.rng.random(7)
        W.ROUTECHOICE.dist[:] = 0


def finish(W):
    W.exec_simulation()
    return obs(W)


REF = {}


def ref(case):
    k = (case["var"], case["rnd"], case.get("rt"))
    if k not in REF:
        REF[k] = finish(build(case))
    return REF[k]


def same(ctx, a, b, sig, msg):
    for k in a:
        d = S.diff(a[k], b[k], k, tol=1e-12)
        ctx.check(d is None, f"{sig}:{k.split('/')[0]}", f"{msg}: {d}")


def run(case, ctx):
    W = build(case)
    goto(W, case["k"])
    if case.get("read"):
        if case["k"] > 0:
            W.analyzer.basic_analysis()
            whole(W)
    l0 = live(W)
    C = clone(W, case["how"])
    ctx.transitions += 2
    d = S.diff(l0, live(C), "")
    ctx.check(d is None, "copy-differs", f"copied after {case['k']} steps: original vs copy: {d}")
    d = S.diff(l0, live(W), "")
    ctx.check(d is None, "copy-changes-original", f"{d}")
    if case.get("disturb"):
        who, what = case["disturb"]
        disturb(C if who == "copy" else W, what)
    order = case["order"]
    if order == "orig":
        a = finish(W); b = finish(C)
    elif order == "copy":
        b = finish(C); a = finish(W)
    else:
        while W.check_simulation_ongoing() or C.check_simulation_ongoing():
            for X in (W, C):
                if X.check_simulation_ongoing():
                    X.exec_simulation(duration_t2=order * X.DELTAT)
        a, b = obs(W), obs(C)
    ctx.traces += 2
    r = ref(case)
    who = case.get("disturb", [None])[0]
    if who != "orig":
        same(ctx, r, a, "original-differs", f"uncopied run vs original copied after {case['k']} steps")
    if who != "copy":
        same(ctx, r, b, "copy-run-differs", f"uncopied run vs copy made after {case['k']} steps")
    if case.get("again"):
        C2 = clone(C if case["again"] == "copy" else W, case["how"])
        same(ctx, r, obs(C2), "finished-copy-differs", "uncopied run vs copy of the finished simulation")
    ctx.outcome((case["k"], S.key(l0["veh"])))


def run_chain(case, ctx):
    """copies of copies, each advanced before it is copied again; the older ones finish afterwards"""
    W = build(case)
    all_ = [W]
    for k in case["ks"]:
        goto(all_[-1], k)
        all_.append(clone(all_[-1], case["how"]))
        ctx.transitions += 1
    r = ref(case)
    for X in (all_ if case["order"] == "old" else all_[::-1]):
        same(ctx, r, finish(X), "chain-differs", f"copies after {case['ks']} steps")
        ctx.traces += 1
    ctx.outcome((tuple(case["ks"]), case["var"]))


def families(tier):
    big = tier == "thorough"
    cases, chains = [], []
    VARS = ("plain", "signal", "toll", "lanes", "gradual", "func")
    for var in VARS:
        for rnd in (False, True):
            for k in range(-1, 81, 1 if big else 4):
                for how, order in (("copy", "orig"), ("copy", "copy"), ("copy", 1), ("save", 3)) if big else (("copy", "copy"), ("save", 3)) if k % 8 else (("copy", "orig"), ("save", "copy")):
                    if k >= 80 and order in (1, 3):
                        continue
                    if k == 0 and order in (1, 3):
                        order = "orig"
                    cases.append(dict(var=var, rnd=rnd, k=k, how=how, order=order, read=k % 3 == 0))
            for what in ("demand", "link", "signal", "route", "pref", "rng"):
                for k in (-1, 0, 1, 9, 20, 33) if big else (-1, 13):
                    if what == "signal" and var != "signal" and not big or k <= 0 and what in ("rng", "pref"):
                        continue
                    for who in ("copy", "orig"):
                        for order in ("orig", "copy") if k <= 0 or not big else ("orig", "copy", 1):
                            cases.append(dict(var=var, rnd=rnd, k=k, how="copy", order=order, disturb=[who, what]))
            for a in ("copy", "orig"):
                cases.append(dict(var=var, rnd=rnd, k=11, how="copy", order="orig", again=a))
            n = (3, 17, 40) if big else (5, 30)
            for ks in itertools.chain(itertools.combinations((-1, 1, 2, 7, 16, 33, 60), 2), itertools.combinations((1, 7, 16, 33, 60), 3)) if big else [(-1, 1), (2, 9), (7, 16, 40)]:
                for order in ("old", "new"):
                    chains.append(dict(var=var, rnd=rnd, ks=list(ks), how="save" if sum(ks) % 2 else "copy", order=order))
    for c in (cases, chains):
        c += [dict(x, rt=0.35) for x in c[::7]]
    return [Family("cut", cases, run, note="a copy or saved file made after every k steps; original and copy executed in every order of the list, equal to the run that was never copied; changes made in one of them never show in the other"),
            Family("chain", chains, run_chain, note="copies of copies")]


RUNNER = Runner("P17", "model_checking",
                "All copy moments (stride 4 in quick, every step in thorough) x scenario variants x continuation orders x disturbances; complete observation of original and copy compared with a run that was never "
                "copied; distinct = distinct states at the moment of copying.",
                families, ["Python engine (C++ mode refuses copy and save)"])
