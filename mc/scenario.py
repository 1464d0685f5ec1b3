"""Scenario description (plain JSON-able dict) -> real World (either engine) and canonical
observation of everything a user can read afterwards."""
from . import env
from .refsim import Model, eval_toll

WKEYS = {"deltan": "deltan", "reaction_time": "reaction_time", "tmax": "tmax", "duo_update_time": "duo_update_time",
         "duo_update_weight": "duo_update_weight", "duo_noise": "duo_noise", "hard": "hard_deterministic_mode",
         "gradual": "route_choice_update_gradual", "no_cyclic": "no_cyclic_routing",
         "adjust_node_capacity": "adjust_node_capacity", "ittint": "instantaneous_TT_timestep_interval",
         "logint": "vehicle_logging_timestep_interval", "eular_dt": "eular_dt", "eular_dx": "eular_dx",
         "seed": "random_seed", "threads": "threads"}


def make_world(scn, cpp=False, rng=None, world_extra=None):
    U = env.load(cpp=cpp)
    w = dict(scn["world"])
    kw = {WKEYS[k]: v for k, v in w.items()}
    kw.setdefault("deltan", 1)
    kw.setdefault("hard_deterministic_mode", True)
    kw.setdefault("random_seed", 0)
    kw.setdefault("duo_noise", 0)
    kw.update(world_extra or {})
    if not cpp:
        kw.pop("threads", None)
    W = U.World(cpp=cpp, **{**dict(name="", print_mode=0, save_mode=0, show_mode=0, show_progress=0), **kw})
    if rng is not None:
        W.rng = rng
    return W


def node_kw(n):
    kw = {}
    for a, b in (("signal", "signal"), ("offset", "signal_offset"), ("flow_capacity", "flow_capacity"),
                 ("number_of_lanes", "number_of_lanes")):
        if a in n:
            kw[b] = n[a]
    if "signal" in kw:
        kw["signal"] = list(kw["signal"])
    return kw


def link_kw(l):
    kw = {"length": l["length"]}
    for a, b in (("u", "free_flow_speed"), ("kappa", "jam_density"), ("kappa_lane", "jam_density_per_lane"),
                 ("lanes", "number_of_lanes"), ("merge", "merge_priority"), ("sg", "signal_group"),
                 ("cap_out", "capacity_out"), ("cap_in", "capacity_in"), ("attribute", "attribute"),
                 ("eular_dx", "eular_dx")):
        if a in l and l[a] is not None:
            kw[b] = l[a]
    if l.get("toll") is not None:
        spec = l["toll"]
        kw["congestion_pricing"] = lambda t, spec=spec: eval_toll(spec, t)
    return kw


def populate(W, scn):
    for n in scn["nodes"]:
        W.addNode(n["name"], n.get("x", 0), n.get("y", 0), **node_kw(n))
    for l in scn["links"]:
        W.addLink(l["name"], l["from"], l["to"], **link_kw(l))
    for d in scn.get("demands", []):
        W.adddemand(d[0], d[1], d[2], d[3], flow=d[4])
    for v in scn.get("vehicles", []):
        add_vehicle(W, v)
    return W


def add_vehicle(W, v):
    kw = {}
    if v.get("name"):
        kw["name"] = v["name"]
    if v.get("prefer"):
        kw["links_prefer"] = v["prefer"]
    if v.get("avoid"):
        kw["links_avoid"] = v["avoid"]
    if "trip_abort" in v:
        kw["trip_abort"] = v["trip_abort"]
    if "ts" in v:
        veh = W.addVehicle(v["o"], v["d"], v["ts"], departure_time_is_time_step=1, **kw)
    else:
        veh = W.addVehicle(v["o"], v["d"], v["t"], **kw)
    if v.get("route"):
        veh.enforce_route(v["route"])
    return veh


def build(scn, cpp=False, rng=None, world_extra=None):
    if rng is None:
        return populate(make_world(scn, cpp, rng, world_extra), scn)
    live, rng.live = rng.live, False      # draws while the scenario is described (colors) are not behaviour
    W = populate(make_world(scn, cpp, rng, world_extra), scn)
    rng.live = live
    return W


def simulate(scn, cpp=False, rng=None):
    W = build(scn, cpp, rng)
    W.exec_simulation()
    return W


def lname(l):
    return l if isinstance(l, (str, int)) else l.name


def veh_log(v):
    """full per-step log of one vehicle: list of (t,state,link,x,s,v,lane)"""
    ln = [(-1 if (isinstance(l, (int,)) or l is None or str(l) == "-1") else lname(l)) for l in v.log_link]
    return [(float(t), str(s), l, float(x), float(g), float(u), int(la)) for t, s, l, x, g, u, la in
            zip(v.log_t, v.log_state, ln, v.log_x, v.log_s, v.log_v, v.log_lane)]


def obs_vehicle(v):
    return {"state": str(v.state), "log": veh_log(v), "route": [[float(t), lname(l)] for t, l in v.log_t_link],
            "arrival": float(v.arrival_time), "tt": float(v.travel_time), "dist": float(v.distance_traveled)}


def obs_link(l):
    return {"ca": [float(x) for x in l.cum_arrival], "cd": [float(x) for x in l.cum_departure],
            "tti": [float(x) for x in l.traveltime_instant], "tta": [float(x) for x in l.traveltime_actual]}


def observe(W, what=("veh", "link", "signal")):
    o = {}
    if "veh" in what:
        o["veh"] = {n: obs_vehicle(v) for n, v in W.VEHICLES.items()}
    if "link" in what:
        o["link"] = {l.name: obs_link(l) for l in W.LINKS}
    if "signal" in what:
        o["signal"] = {n.name: [int(x) for x in n.signal_log] for n in W.NODES}
    return o


def obs_model(m):
    o = {"veh": {}, "link": {}, "signal": {}}
    for v in m.vehs:
        o["veh"][v.name] = {"state": v.state, "log": v.log, "route": v.tlink, "arrival": v.arrival, "tt": v.tt, "dist": v.dist}
    for l in m.links:
        o["link"][l.name] = {"ca": l.ca, "cd": l.cd, "tti": l.tt_inst, "tta": l.tt_act}
    for n in m.nodes:
        o["signal"][n.name] = n.slog
    return o


def close(a, b, tol=1e-6):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def diff(a, b, path="", tol=1e-6):
    """first difference between two nested observations, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: keys differ: {sorted(set(a) ^ set(b), key=str)[:6]}"
        for k in a:
            d = diff(a[k], b[k], f"{path}/{k}", tol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]", tol)
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} vs {len(b)}"
        return None
    if close(a, b, tol):
        return None
    return f"{path}: {a!r} vs {b!r}"


def key(obj, nd=6):
    """hashable canonical rounding of an observation"""
    if isinstance(obj, dict):
        return tuple((k, key(obj[k], nd)) for k in sorted(obj, key=str))
    if isinstance(obj, (list, tuple)):
        return tuple(key(x, nd) for x in obj)
    if isinstance(obj, float):
        return round(obj, nd) + 0.0
    return obj
