"""P20: watching a simulation - user functions, state queries, tables, display options - never changes it, and shows the state of the moment."""
import contextlib, io, itertools, math, os
import numpy as np
from mc import env
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from checks.p07 import whole, TABLES


def nets(dn=1, hard=True, sig=True, seed=3):
    nodes = [N("o"), N("o2", 0, 100), N("m", 100, 50, **({"signal": [7 * dn, 5 * dn]} if sig else {})), N("k", 100, -50), N("d", 200, 0)]
    links = [L("om", "o", "m", 101 * dn, sg=[0]), L("o2m", "o2", "m", 139 * dn, 14, sg=[1] if sig else [0]), L("md", "m", "d", 90 * dn, cap_out=0.5), L("ok", "o", "k", 120 * dn), L("kd", "k", "d", 97 * dn, merge=2), L("mk", "m", "k", 53 * dn)]
    return scn(nodes, links, demands=[["o", "d", 0, 20 * dn, 0.8], ["o2", "d", 3 * dn, 17 * dn, 0.4], ["o2", "k", 0, 9 * dn, 0.3]], deltan=dn, tmax=45 * dn, duo_update_time=6 * dn, hard=hard, seed=seed,
               duo_noise=0 if hard else 0.01, ittint=2)


# ------------------------------------------------------------------ readers
def link_queries(W, x=None):
    t = W.TIME
    for l in W.LINKS:
        if not len(l.cum_arrival):
            continue
        for q in (l.arrival_count, l.departure_count, l.num_vehicles_t, l.average_density, l.average_speed, l.average_flow, l.instant_travel_time, l.actual_travel_time, l.get_toll):
            for u in (0, t - W.DELTAT, t, t + 3 * W.DELTAT):
                with np.errstate(all="ignore"):
                    try:
                        q(u)
                    except ZeroDivisionError:
                        pass
        l.inflow_between(0, t + W.DELTAT)
        l.average_travel_time_between(0, t + W.DELTAT)


def link_states(W, x=None):
    for l in W.LINKS:
        l.speed, l.density, l.flow, l.num_vehicles, l.num_vehicles_queue, l.cum_arrival, l.cum_departure, l.traveltime_instant, l.traveltime_actual, repr(l)


def node_states(W, x=None):
    for n in W.NODES:
        n.cycle_length, n.signal_phase, n.signal_t, n.signal_log, n.flow_capacity, repr(n)


def veh_states(W, x=None):
    for v in list(W.VEHICLES.values()):
        v.state, v.link, v.x, v.v, v.travel_time, v.arrival_time, v.distance_traveled, repr(v)
        v.traveled_route(), v.traveled_route(include_arrival_time=False), v.traveled_route(include_departure_time=True)
        v.get_xy_coords(), v.get_xy_coords(0), v.get_xy_coords(W.TIME - W.DELTAT)
        v.log_t, v.log_x, v.log_v, v.log_s, v.log_state, v.log_link, v.log_t_link, v.log_lane


def world_queries(W, x=None):
    W.get_node("m"), W.get_link("om"), W.get_nearest_node(3, 4), W.get_nodes_in_area(0, 0, 120), W.check_simulation_ongoing(), list(W.VEHICLES_LIVING), list(W.VEHICLES_RUNNING)
    r = W.defRoute(["om", "md"])
    r.actual_travel_time(0), r.actual_travel_time(W.TIME)
    W.ROUTECHOICE.dist, W.ROUTECHOICE.next, dict(W.ROUTECHOICE.dist_record)


def utilities(W, x=None):
    import uxsim.Utilities as U
    U.enumerate_k_shortest_routes(W, "o", "d", k=2)
    U.enumerate_k_shortest_routes_on_t(W, "o", "d", t=W.TIME, k=2)
    U.get_shortest_path_distance_between_all_nodes(W)
    U.get_shortest_path_instantaneous_travel_time_between_all_nodes(W)
    U.get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, W.TIME)


def tables(W, x=None):
    for t in TABLES:
        if t == "basic_to_pandas":
            W.analyzer.basic_analysis()
        getattr(W.analyzer, t)()
    W.analyzer.vehicle_groups_to_pandas([list(W.VEHICLES.values())[:5]], ["g"])
    W.analyzer.area_to_pandas([["m", "k"]], ["A"])
    W.analyzer.compute_mfd()


def printed(W, x=None):
    with quiet():
        W.analyzer.basic_analysis()
        W.analyzer.print_simple_stats(force_print=True)
        old = W.print_mode
        W.print_mode = 1
        W.analyzer.show_simulation_progress()
        W.print_mode = old


def copied(W, x=None):
    c = W.copy()
    c.user_function = None
    c.exec_simulation()


READ = dict(link_queries=link_queries, link_states=link_states, node_states=node_states, veh_states=veh_states, world_queries=world_queries, utilities=utilities, tables=tables, printed=printed, copied=copied)


def hook(W, place, f):
    if place == "world":
        W.user_function = lambda w: f(w)
    objs = dict(node=W.NODES, link=W.LINKS, vehicle=list(W.VEHICLES.values())).get(place, [])
    for o in objs:
        o.user_function = lambda o: f(o.W)


def final(W):
    o = whole(W)
    o["rng"] = None
    return o


BASE = {}


def baseline(case, cpp):
    k = repr((case["scn"], cpp))
    if k not in BASE:
        W = S.simulate(case["scn"], bool(cpp))
        BASE[k] = final(W)
    return BASE[k]


def compare(ctx, b, W, what):
    d = S.diff(b, final(W))
    ctx.check(d is None, "observation-changes-the-run", lambda: f"{what}: undisturbed vs observed run {d}")


def run_reader(case, ctx):
    """reader called from user functions (Python engine) at all, or one, of the timesteps"""
    b = baseline(case, 0)
    W = S.build(case["scn"], False)
    W.finalize_scenario()
    n = [0]

    def f(w):
        if case["step"] in (None, w.T):
            n[0] += 1
            READ[case["reader"]](w)
    hook(W, case["place"], f)
    W.exec_simulation()
    ctx.transitions += n[0]
    ctx.traces += 1
    ctx.trivial = n[0] == 0
    compare(ctx, b, W, f"{case['reader']} in {case['place']} functions at step {case['step']}")
    ctx.outcome(repr(case["scn"]["world"]) + case["place"] + case["reader"])


def run_pause(case, ctx):
    """readers called at pauses, both engines; a read is repeated to see that it does not disturb itself"""
    for cpp in (0, 1):
        b = baseline(case, cpp)
        W = S.build(case["scn"], bool(cpp))
        dt = case["scn"]["world"]["deltan"]
        for p in case["pauses"]:
            W.exec_simulation(duration_t2=(p - getattr(W, "T", 0)) * W.DELTAT)
            for r in case["readers"]:
                if cpp and r == "copied":
                    continue
                READ[r](W)
            ctx.transitions += 1
        W.exec_simulation()
        ctx.traces += 1
        compare(ctx, b, W, f"{('py', 'cpp')[cpp]}: {case['readers']} at pauses {case['pauses']}")
        ctx.outcome(repr(case["scn"]["world"]) + str(len(case["pauses"])) + "".join(case["readers"]) + str(cpp))


def run_values(case, ctx):
    """states that are read inside user functions are those of that very moment"""
    W = S.build(case["scn"], False)
    W.finalize_scenario()
    dn = W.DELTAN

    def f(w):
        ctx.transitions += 1
        for l in w.LINKS:
            vs = list(l.vehicles)
            n = len(vs)
            sp = sum(v.v for v in vs) / n if n else l.u
            exp = dict(num=n * dn, density=n * dn / l.length, speed=sp, flow=n * dn / l.length * sp, queue=sum(1 for v in vs if v.v < l.u * (1 - 1e-9)) * dn)
            act = dict(num=float(l.num_vehicles), density=float(l.density), speed=float(l.speed), flow=float(l.flow), queue=float(l.num_vehicles_queue))
            d = S.diff(exp, act, l.name, tol=1e-9)
            ctx.check(d is None, "stale-state", lambda: f"in {case['place']} function at step {w.T}: expected vs read {d}")
            ctx.check(len({v.link for v in vs} - {l}) == 0, "vehicle-link", lambda: f"vehicles of {l.name} are on {[v.link for v in vs]}")
            ctx.state((w.T, l.name, n, round(sp, 6)))
    hook(W, case["place"], f)
    if case["place"] == "all":
        for p in ("world", "node", "link", "vehicle"):
            hook(W, p, f)
    W.exec_simulation()
    ctx.traces += 1
    compare(ctx, baseline(case, 0), W, f"state reads in {case['place']} functions")
    ctx.outcome(repr(case["scn"]["world"]) + case["place"])


def run_calls(case, ctx):
    """each user function is called exactly once per timestep, at the right time"""
    scn = case["scn"]
    W = S.make_world(scn)
    rec, last = {}, {}

    def f(o):
        rec.setdefault(o.name if not isinstance(o, type(W)) else "WORLD", []).append((W.T, W.TIME))
        if hasattr(o, "log_t_link"):
            last[o.name] = (o.state, o.link is not None and o.x >= o.link.length - 1e-9)
    S.populate(W, scn)
    for o in W.NODES + W.LINKS + list(W.VEHICLES.values()) + [W]:
        o.user_function = f
    late = {}
    for how, x in case["cuts"]:
        if how == "add":
            v = W.addVehicle("o", "d", W.TIME, user_function=f)
            late[v.name] = W.T
        elif x is None:
            W.exec_simulation()
        else:
            W.exec_simulation(**{how: x})
    if not case["cuts"] or W.check_simulation_ongoing():
        W.exec_simulation()
    n = W.TSIZE
    ctx.transitions += n
    ctx.traces += 1
    ctx.outcome(repr(case["cuts"]))
    want = [(k, k * W.DELTAT) for k in range(n)]
    for o in W.NODES + W.LINKS:
        ctx.check(rec[o.name] == want, "calls", lambda: f"user function of {o.name} was called at {first_diff(rec[o.name], want)}")
    ctx.check(rec["WORLD"] == want, "calls", lambda: f"user function of the world was called at {first_diff(rec['WORLD'], want)}")
    for v in W.VEHICLES.values():
        a = late.get(v.name, 0)
        got = rec.get(v.name, [])
        if v.state == "end":
            e = int(v.arrival_time)
            # a vehicle which had already reached the end of the link when its trip was completed is finished by the node, before its turn
            ok = got == want[a:e + 1] and last[v.name][0] == "end" or got == want[a:e] and last[v.name][1]
        else:
            ok = got == want[a:]
        ctx.check(ok, "vehicle-calls", lambda: f"user function of vehicle {v.name} (state {v.state}, arrival step {v.arrival_time}, created at step {a}) was called at {got[:3]}..{got[-3:]}, {len(got)} times")
    b = baseline(case, 0) if not late else None
    if b:
        compare(ctx, b, W, f"recording calls with {case['cuts']}")


def first_diff(a, b):
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            return f"{x}, expected {y}"


OPTIONS = {
    "print": dict(print_mode=1, show_progress=1, show_progress_deltat=3), "print2": dict(print_mode=1, show_progress=1, show_progress_deltat=7), "noprogress": dict(print_mode=1, show_progress=0),
    "save": dict(save_mode=1), "show": dict(show_mode=1), "meta": dict(meta_data={"a": 1}, user_attribute=[1, 2]), "name": dict(name="x"), "eular": dict(eular_dt=13, eular_dx=17), "nolog": dict(vehicle_logging_timestep_interval=-1),
    "log3": dict(vehicle_logging_timestep_interval=3), "memory": dict(reduce_memory_delete_vehicle_route_pref=True),
}


def core(W):
    """what does not depend on logging"""
    return {"veh": {n: [str(v.state), float(v.travel_time), float(v.arrival_time), float(v.distance_traveled), [[float(t), S.lname(l)] for t, l in v.log_t_link] if v.log_t_link else None] for n, v in W.VEHICLES.items()},
            "link": {l.name: S.obs_link(l) for l in W.LINKS}, "signal": {n.name: [int(x) for x in n.signal_log] for n in W.NODES}, "basic": {k: float(v.iloc[0]) for k, v in W.analyzer.basic_to_pandas().items()}}


@contextlib.contextmanager
def quiet():
    """nothing reaches standard output, not even what the C++ engine prints"""
    import sys
    sys.stdout.flush()
    fd = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.dup2(fd, 1)
        os.close(fd)
        os.close(nul)


def run_options(case, ctx):
    scn = case["scn"]
    for cpp in (0, 1):
        if True:
            cwd = os.getcwd()
            os.chdir(env.scratch())
            try:
                kw = {}
                for o in case["opts"]:
                    kw.update(OPTIONS[o])
                with quiet():
                    W0 = S.simulate(scn, bool(cpp))
                    b = core(W0)
                    U = env.load(cpp=bool(cpp))
                    W = S.build(scn, bool(cpp), world_extra={k: v for k, v in kw.items() if k not in ("print_mode", "save_mode", "show_mode", "show_progress", "name")}) if not any(k in kw for k in ("print_mode", "save_mode", "show_mode", "show_progress", "name")) else special(U, scn, cpp, kw)
                    for p in case["pauses"]:
                        W.exec_simulation(duration_t2=(p - getattr(W, "T", 0)) * W.DELTAT)
                    W.exec_simulation()
                    a = core(W)
            finally:
                os.chdir(cwd)
        ctx.traces += 1
        ctx.transitions += 1
        if "nolog" in case["opts"]:
            for o in (a, b):
                for v in o["veh"].values():
                    v[4] = None
        d = S.diff(b, a)
        ctx.check(d is None, "option-changes-the-run", lambda: f"{('py', 'cpp')[cpp]}: options {case['opts']}: {d}")
        ctx.outcome(repr(scn["world"]) + repr(case["opts"]) + repr(case["pauses"]) + str(cpp))


def special(U, scn, cpp, kw):
    w = {S.WKEYS[k]: v for k, v in scn["world"].items()}
    args = dict(name="", print_mode=0, save_mode=0, show_mode=0, show_progress=0)
    args.update(w)
    args.update(kw)
    W = U.World(cpp=bool(cpp), **args)
    return S.populate(W, scn)


def families(tier):
    big = tier == "thorough"
    S0 = [nets(1), nets(1, hard=False), nets(5), nets(1, sig=False)] + ([nets(5, hard=False), nets(2, hard=False, seed=8)] if big else [])
    readers, pauses, values, calls, options = [], [], [], [], []
    for i, s in enumerate(S0):
        for r in READ:
            places = ["world", "node", "link", "vehicle"] if r in ("link_queries", "link_states", "node_states", "veh_states", "world_queries") else ["world"]
            for p in places:
                readers.append(dict(scn=s, reader=r, place=p, step=None))
                if i < 2 or big:
                    for k in range(0, 45, 1 if big else 3 if p == "world" else 7):
                        readers.append(dict(scn=s, reader=r, place=p, step=k))
        names = list(READ)
        for k in range(1, 45, 1 if big else 4):
            for r in names:
                pauses.append(dict(scn=s, readers=[r], pauses=[k]))
        for a in range(1, 45, 6):
            for b in range(a + 6, 45, 6):
                pauses.append(dict(scn=s, readers=names, pauses=[a, b]))
        pauses.append(dict(scn=s, readers=names, pauses=list(range(1, 45))))
        for p in ("world", "node", "link", "vehicle", "all"):
            values.append(dict(scn=s, place=p))
        opt = list(OPTIONS)
        for k in range(1, 3 if big else 2):
            for c in itertools.combinations(opt, k):
                for ps in ([], [7, 23]):
                    options.append(dict(scn=s, opts=list(c), pauses=ps))
        if not big:
            options.append(dict(scn=s, opts=["print", "meta", "eular", "log3", "memory"], pauses=[5]))
    s = nets(1)
    acts = [("duration_t2", 1), ("duration_t2", 9), ("duration_t", 4), ("until_t", 20), ("add", None), ("duration_t2", 100)]
    for n in range(0, 4 if big else 3):
        for seq in itertools.product(acts, repeat=n):
            t, ok = 0, True
            for how, x in seq:
                if how == "until_t":
                    ok &= 20 >= t
                    t = 21
                elif how == "duration_t2":
                    t += x
                elif how == "duration_t":
                    t += x + 1
                elif how == "add":
                    ok &= 0 < t < 45
            if ok:
                calls.append(dict(scn=s, cuts=[list(a) for a in seq]))
    for c in (readers, pauses, values, options):
        c += frac(c, 5 if big else 17)
    return [
        Family("readers", readers, run_reader, note="every reader in every kind of user function, at all timesteps or a single one"),
        Family("pauses", pauses, run_pause, cpp=True, note="every reader at every pause of a grid, all readers at all pairs of pauses and at every step; both engines"),
        Family("values", values, run_values, note="link states read in user functions of all kinds at every timestep"),
        Family("calls", calls, run_calls, note="calls of all user functions under every execution schedule of the listed length"),
        Family("options", options, run_options, cpp=True, note="display, logging, aggregation and memory options and their combinations; both engines"),
    ]


RUNNER = Runner("P20", "model_checking",
                "every observer of the alphabet at every point of observation (all user functions, pauses at the stated steps), every display option; the observed run is compared with the undisturbed one in every vehicle record, link record and report table",
                families, ["observers do not change any parameter", "tables are read in user functions of the world and at pauses"])
