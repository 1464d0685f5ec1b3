"""P25: imported road maps become exactly the network they describe: every road in every permitted direction, between the right nodes, with its recorded or default attributes."""
import itertools, math, sys, types, warnings, io, contextlib, importlib
from collections import Counter
from mc import env
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S

NAN = float("nan")
SPEED = {"motorway": 100 / 3.6, "trunk": 80 / 3.6, "primary": 60 / 3.6, "secondary": 50 / 3.6, "tertiary": 40 / 3.6, "residential": 30 / 3.6, "living_street": 20 / 3.6, "service": 20 / 3.6, "others": 40 / 3.6}
LANES = {"motorway": 3, "trunk": 3, "primary": 2, "secondary": 2, "tertiary": 2, "residential": 1, "living_street": 1, "service": 1, "others": 1}
OLD_LANES = {"motorway": 3, "trunk": 3, "primary": 2, "secondary": 2, "residential": 1, "tertiary": 1, "others": 1}
OLD_SPEED = {"motorway": 100, "trunk": 60, "primary": 50, "secondary": 50, "residential": 30, "tertiary": 30, "others": 30}
MAPS = {}


def download(*a, **k):
    MAPS["call"] = (a, k)
    return MAPS["graph"].copy()


def asked(ctx, filt, tag):
    a, k = MAPS.pop("call")
    box = list(k.get("bbox", a[0] if a else ()))
    ctx.check(box == [139.6, 35.5, 139.8, 35.7] and k.get("custom_filter") == filt, "wrong-area", lambda: f"{tag}: the map of {box}, {k.get('custom_filter')} was requested instead of [139.6, 35.5, 139.8, 35.7], {filt}")


def importer():
    """the second importer, with stand-ins for the download and for the simplification library"""
    env.load()
    import osmnx as ox
    if "neatnet" not in sys.modules:
        sys.modules["neatnet"] = types.ModuleType("neatnet")
    sys.modules["neatnet"].neatify = lambda gdf, *a, **k: MAPS["simple"]
    ox.graph.graph_from_bbox = ox.graph_from_bbox = download
    importlib.import_module("uxsim.OSMImporter2")
    return sys.modules["uxsim.OSMImporter2.OSMImporter2"]


def old_importer():
    env.load()
    import osmnx as ox
    ox.graph.graph_from_bbox = ox.graph_from_bbox = download
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return importlib.import_module("uxsim.OSMImporter.OSMImporter").OSMImporter


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


P = [(0.0, 0.0), (300.0, 40.0), (260.0, 310.0), (-20.0, 280.0)]


def clean(x):
    return None if x == "NaN" else x


def road(a, b, shift=0.0, bend=0, highway="primary", maxspeed=None, lanes=None, oneway=True, name=None):
    """a road of the map; shift: error of the coordinates of its first point; bend: it is not straight"""
    (x, y), (u, v) = P[a], P[b]
    pts = [(x + shift, y - shift)] + ([((x + u) / 2 + bend, (y + v) / 2 - bend)] if bend else []) + [(u, v)]
    return dict(a=a, b=b, pts=pts, highway=highway, maxspeed=maxspeed, lanes=lanes, oneway=oneway, name=name)


def length(pts):
    return sum(math.dist(p, q) for p, q in zip(pts, pts[1:]))


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def resolve(roads, k, opt):
    """speed and lanes per direction of road k: sets of admissible values"""
    r = roads[k]
    hw = r["highway"]
    if hw is None:
        near = [q["highway"] for q in roads if q["b"] == r["a"] or q["a"] == r["b"]]
        c = Counter(h for h in near if h is not None)
        hw = [h for h in c if c[h] == max(c.values())] or ["None"]
    elif isinstance(hw, list):
        c = Counter(hw)
        hw = [h for h in c if c[h] == max(c.values())]
    else:
        hw = [hw]
    out = []
    for h in hw:
        sp = dict(SPEED, **opt.get("speeds", {}))
        ln = dict(LANES, **opt.get("lanes", {}))
        key = next((t for t in sp if t in h), "others")
        v, n = sp[key], ln[next((t for t in ln if t in h), "others")]
        if not opt.get("override"):
            m = r["maxspeed"]
            if isinstance(m, str):
                v = number(m) / 3.6 if number(m) is not None else sp["others"]
            elif isinstance(m, list):
                v = sum(map(number, m)) / len(m) / 3.6 if all(number(x) is not None for x in m) else sp["others"]
            l = r["lanes"]
            if l is not None:
                ls = l if isinstance(l, list) else [l]
                bad = any(not x.lstrip("-").isdigit() for x in ls)
                n = [ln["others"]] if bad else [max(map(int, ls))]
                n = n[0] if r["oneway"] else max(1, n[0] // 2)
        out.append((v, n))
    return out


def near(p, q, tol=1e-3):
    return abs(p[0] - q[0]) < tol and abs(p[1] - q[1]) < tol


def title(r):
    n = r.get("name")
    return n[0] if isinstance(n, list) else n


def judge(ctx, W, before, roads, opt, tag):
    """roads: a, b (indices into pos), length, and attributes; the world must contain exactly these"""
    pos, exp, cap = opt["pos"], [], {}
    for k, r in enumerate(roads):
        for a, b in ((r["a"], r["b"]),) + (() if r["oneway"] else ((r["b"], r["a"]),)):
            exp.append((k, a, b, r["length"], r["cand"]))
    nodes = [n for n in W.NODES if n.name not in before["nodes"]]
    links = [l for l in W.LINKS if l.name not in before["links"]]
    used = sorted({x for r in roads for x in (r["a"], r["b"])})
    idx = {}
    for n in nodes:
        m = [i for i in used if near((n.x, n.y), pos[i])]
        if ctx.check(len(m) == 1 and m[0] not in idx.values(), "node", lambda: f"{tag}: node {n.name} at {(n.x, n.y)} is none of the end points {[pos[i] for i in used]} or a second one of the same place"):
            idx[n.name] = m[0]
    ctx.check(sorted(idx.values()) == used, "missing-node", lambda: f"{tag}: end points {[i for i in used if i not in idx.values()]} have no node")
    got = []
    for l in links:
        ok = l.start_node.name in idx and l.end_node.name in idx
        if ctx.check(ok, "link-to-foreign-node", lambda: f"{tag}: {l.name} leads from {l.start_node.name} to {l.end_node.name}, which are not imported nodes"):
            got.append((l, idx[l.start_node.name], idx[l.end_node.name]))
            ctx.check(W.get_node(l.start_node.name).outlinks.get(l.name) is l and W.get_node(l.end_node.name).inlinks.get(l.name) is l, "link-not-attached", lambda: f"{tag}: {l.name}")
    left = list(exp)
    order = []
    for l, a, b in got:
        fit = [e for e in left if e[1:3] == (a, b) and abs(e[3] - l.length) < 1e-5 * max(1, e[3]) and any(abs(v - l.free_flow_speed) < 1e-6 and n == l.number_of_lanes for v, n in e[4])]
        if ctx.check(fit, "wrong-link", lambda: f"{tag}: {l.name} from {a} to {b}: length {l.length}, speed {l.free_flow_speed}, lanes {l.number_of_lanes}; roads left: {left}"):
            fit.sort(key=lambda e: not l.name.startswith(str(title(roads[e[0]]))))
            e = fit[0]
            left.remove(e)
            order.append(exp.index(e))
            base = title(roads[e[0]])
            if base is not None:
                ctx.check(l.name.startswith(base), "name", lambda: f"{tag}: road {base} is called {l.name}")
            for i in (a, b):
                cap[i] = max(cap.get(i, 0), l.number_of_lanes)
            if "kappa" in opt:
                ctx.check(abs(l.jam_density_per_lane - opt["kappa"]) < 1e-9, "jam-density", lambda: f"{tag}: {l.name}: {l.jam_density_per_lane}, expected {opt['kappa']} per lane")
    ctx.check(not left, "missing-link", lambda: f"{tag}: missing {left}")
    for n in nodes:
        if n.name in idx:
            c = cap.get(idx[n.name], 0) if opt.get("capacity") else None
            fc = n.flow_capacity if n.flow_capacity is not None and n.flow_capacity >= 0 else None
            ctx.check((fc is None) == (c is None) and (c is None or abs(fc - 1.6 * c) < 1e-9 and n.number_of_lanes == 2 * c), "node-capacity", lambda: f"{tag}: node {n.name} at {(n.x, n.y)}: capacity {fc} and {n.number_of_lanes} lanes; widest road has {c} lanes")
    for name, o in before["nodes"].items():
        n = W.get_node(name)
        ctx.check((n.x, n.y, sorted(n.inlinks), sorted(n.outlinks), n.flow_capacity) == o, "existing-node-changed", lambda: f"{tag}: {name}: {(n.x, n.y, sorted(n.inlinks), sorted(n.outlinks), n.flow_capacity)}, before {o}")
    for name, o in before["links"].items():
        l = W.get_link(name)
        ctx.check((l.start_node.name, l.end_node.name, l.length, l.number_of_lanes) == o, "existing-link-changed", lambda: f"{tag}: {name}")
    ctx.transitions += len(exp)
    return idx, cap, exp, order, links


WORLD = dict(world=dict(deltan=1, tmax=150, duo_update_time=20))


def prepared(cpp, pre):
    W = S.make_world(WORLD, cpp=bool(cpp))
    if pre:
        q = "p" if cpp else ""          # nodes cannot be renamed in C++ mode (P22): there, only the names of links are taken
        for i in range(pre):
            W.addNode(f"{q}{i}", 9000 + 100 * i, 9000)
        W.addLink("A", f"{q}0", f"{q}1", length=77)
        W.addLink("1", f"{q}1", f"{q}0", length=78)
        W.addLink("A-reverse", f"{q}0", f"{q}1", length=79)
    return W, dict(nodes={n.name: (n.x, n.y, sorted(n.inlinks), sorted(n.outlinks), n.flow_capacity) for n in W.NODES},
                   links={l.name: (l.start_node.name, l.end_node.name, l.length, l.number_of_lanes) for l in W.LINKS})


def drive(ctx, W, idx, cap, exp, order, links, opt, cpp, tag):
    """vehicles between all pairs of places move as in the world described directly"""
    if order != list(range(len(exp))) or len(order) != len(links) or len(links) != len(exp):
        ctx.count("not_driven")
        return
    D = S.make_world(WORLD, cpp=bool(cpp))
    inv = {}
    for n in W.NODES:
        kw = {}
        if n.name in idx and opt.get("capacity"):
            kw = dict(flow_capacity=1.6 * cap[idx[n.name]], number_of_lanes=2 * cap[idx[n.name]])
        D.addNode(n.name, n.x, n.y, **kw)
        if n.name in idx:
            inv[idx[n.name]] = n.name
    for l in W.LINKS:
        if l not in links:
            D.addLink(l.name, l.start_node.name, l.end_node.name, length=l.length)
    for l, (k, a, b, le, cand) in zip(links, exp):
        kw = dict(jam_density_per_lane=opt["kappa"]) if "kappa" in opt else {}
        D.addLink(l.name, inv[a], inv[b], length=l.length, free_flow_speed=l.free_flow_speed, number_of_lanes=l.number_of_lanes, **kw)
    out = []
    for X in (W, D):
        for i, a in enumerate(sorted(inv)):
            for j, b in enumerate(sorted(inv)):
                if a != b:
                    for k in range(4):
                        X.addVehicle(inv[a], inv[b], 3 * i + 2 * j + k, departure_time_is_time_step=1, name=f"{a}-{b}-{k}")
        X.exec_simulation()
        o = S.observe(X)
        out.append(o)
    d = S.diff(out[1]["veh"], out[0]["veh"], tol=1e-6)
    ctx.check(d is None, "runs-differently", lambda: f"{tag}: described directly vs imported {d}")
    ctx.traces += 1


# ---------------------------------------------------------------------------- second importer, simplified map
def gdf(roads, drop=()):
    import geopandas as gpd
    import pandas as pd
    from shapely.geometry import LineString
    cols = dict(highway=[r["highway"] for r in roads], maxspeed=[NAN if r["maxspeed"] is None else r["maxspeed"] for r in roads],
                lanes=[NAN if r["lanes"] is None else r["lanes"] for r in roads], oneway=[r["oneway"] for r in roads], name=[NAN if r["name"] is None else r["name"] for r in roads])
    df = pd.DataFrame({k: pd.Series(v, dtype=object if k != "oneway" else bool) for k, v in cols.items() if k not in drop})
    return gpd.GeoDataFrame(df, geometry=[LineString(r["pts"]) for r in roads], crs="EPSG:32654")


def run_simple(case, ctx):
    M = importer()
    roads = [road(**r) for r in case["roads"]]
    opt = dict(case.get("opt", {}), pos=P)
    for k, r in enumerate(roads):
        r["length"] = length(r["pts"])
        r["cand"] = resolve(roads, k, opt)
    import networkx as nx
    g = nx.MultiDiGraph(crs="EPSG:32654")
    g.add_node(0, x=0.0, y=0.0)
    g.add_node(1, x=1.0, y=0.0)
    g.add_edge(0, 1, 0, oneway=True)
    MAPS["graph"] = g
    for cpp in case.get("eng", (0, 1)):
        MAPS["simple"] = gdf(roads, case.get("drop", ()))
        W, before = prepared(cpp, case.get("pre", 0))
        tag = f"{('py', 'cpp')[cpp]} {case['roads']} {case.get('opt')}"
        with silent():
            M.osm_network_to_World(W, bbox=[0, 0, 1, 1], set_node_capacity=bool(opt.get("capacity")), override_osm_attributes=bool(opt.get("override")),
                                   maxspeed_by_road_type=opt.get("speeds", {}), lanes_by_road_type=opt.get("lanes", {}))
        r = judge(ctx, W, before, roads, opt, tag)
        ctx.state((tag, cpp))
        if case.get("drive") and not ctx.viol:
            drive(ctx, W, *r, opt, cpp, tag)
    ctx.outcome(repr([(l, len(roads)) for l in case["roads"]]) + repr(case.get("opt")))


# ---------------------------------------------------------------------------- both importers, maps as downloaded
LL = [(139.70, 35.60), (139.704, 35.6005), (139.7035, 35.604), (139.6997, 35.6036)]


def graph(case):
    """the map as OSMnx delivers it: two links for each two-way road"""
    import networkx as nx
    from shapely.geometry import LineString
    g = nx.MultiDiGraph(crs="EPSG:4326", simplified=True)
    ids = case.get("ids", [0, 1, 2, 3])
    used = sorted({x for r in case["roads"] for x in (r["a"], r["b"])})
    for i in used:
        g.add_node(ids[i], x=LL[i][0], y=LL[i][1])
    for k, r in enumerate(case["roads"]):
        a = {"osmid": 100 + k, "highway": r.get("highway", "primary"), "oneway": r["oneway"], "length": 500.0}
        for c in ("name", "lanes", "maxspeed"):
            if r.get(c) is not None:
                a[c] = r[c]
        pts = [LL[r["a"]], LL[r["b"]]]
        if r.get("bend"):
            pts.insert(1, ((pts[0][0] + pts[1][0]) / 2 + 2e-4 * r["bend"], (pts[0][1] + pts[1][1]) / 2))
            a["geometry"] = LineString(pts)
        g.add_edge(ids[r["a"]], ids[r["b"]], **a, reversed=False)
        if not r["oneway"]:
            if "geometry" in a:
                a["geometry"] = LineString(pts[::-1])
            g.add_edge(ids[r["b"]], ids[r["a"]], **a, reversed=True)
    return g


def run_download(case, ctx):
    M = importer()
    import osmnx as ox
    g = graph(case)
    MAPS["graph"] = g
    ids = case.get("ids", [0, 1, 2, 3])
    pg = ox.project_graph(g)
    pos = {i: (pg.nodes[n]["x"], pg.nodes[n]["y"]) for i, n in enumerate(ids) if n in pg.nodes}
    edges = ox.graph_to_gdfs(pg)[1]
    roads = []
    for k, r in enumerate(case["roads"]):
        q = dict(highway="primary", maxspeed=None, lanes=None, name=None)
        q.update(r)
        roads.append(q)
    opt = dict(case.get("opt", {}), pos=pos)
    for k, r in enumerate(roads):
        e = edges[edges["osmid"] == 100 + k]
        r["length"] = float(e.geometry.iloc[0].length)
        r["cand"] = resolve(roads, k, opt)
    for cpp in case.get("eng", (0, 1)):
        W, before = prepared(cpp, case.get("pre", 0))
        tag = f"{('py', 'cpp')[cpp]} {case['roads']}"
        filt = '["highway"~"motorway"]' if len(roads) % 2 else '["highway"~"trunk|primary"]'
        where = dict(bbox=[139.6, 35.5, 139.8, 35.7]) if case["bbox"] else dict(north=35.7, south=35.5, east=139.8, west=139.6)
        if len(roads) % 2:
            where["custom_filter"] = filt
        with silent():
            M.osm_network_to_World(W, **where, simplification=False, set_node_capacity=bool(opt.get("capacity")))
        asked(ctx, filt, tag)
        r = judge(ctx, W, before, roads, opt, tag)
        if not ctx.viol:
            drive(ctx, W, *r, opt, cpp, tag)
    ctx.outcome(repr(case["roads"]))


# ---------------------------------------------------------------------------- first importer
def run_old(case, ctx):
    O = old_importer()
    g = graph(case)
    MAPS["graph"] = g
    ids = case.get("ids", [0, 1, 2, 3])
    used = sorted({x for r in case["roads"] for x in (r["a"], r["b"])})
    DL, DS, kw = OLD_LANES, OLD_SPEED, {}
    if case.get("defaults"):
        DL, DS = {k: v + 2 + i if k != 'others' else 0 for i, (k, v) in enumerate(OLD_LANES.items())}, {k: v + 1.5 * i + 4 for i, (k, v) in enumerate(OLD_SPEED.items())}
        for k in DL:
            n = "mortorway" if k == "motorway" else k
            kw[f"default_number_of_lanes_{n}"], kw[f"default_maxspeed_{n}"] = DL[k], DS[k]
    if len(case["roads"]) % 2:
        kw["custom_filter"] = '["highway"~"motorway"]'
    where = dict(bbox=[139.6, 35.5, 139.8, 35.7]) if case.get("bbox") else dict(north=35.7, south=35.5, east=139.8, west=139.6)
    with silent():
        nodes, links = O.import_osm_data(**where, **kw)
    asked(ctx, kw.get("custom_filter", '["highway"~"trunk|primary"]'), case)
    ctx.check(sorted([n[0], n[1], n[2]] for n in nodes) == sorted([ids[i], *LL[i]] for i in used), "imported-nodes", lambda: f"{nodes}, expected {[(ids[i], LL[i]) for i in used]}")
    exp = []
    for k, r in enumerate(case["roads"]):
        hw = r.get("highway", "primary")
        key = next((t for t in DL if t in hw), "others")
        lanes, speed = max(1, DL[key]), DS[key] / 3.6
        if isinstance(r.get("lanes"), str) and r["lanes"].isdigit():
            lanes = int(r["lanes"])
        if isinstance(r.get("maxspeed"), str) and number(r["maxspeed"]) is not None:
            speed = number(r["maxspeed"]) / 3.6
        nm = r.get("name")
        nm = "" if nm is None else f"{nm[0] if isinstance(nm, list) else nm}-{100 + k}"
        for a, b in ((r["a"], r["b"]),) + (() if r["oneway"] else ((r["b"], r["a"]),)):
            exp.append((nm, ids[a], ids[b], lanes, round(speed, 9)))
    got = [(l[0], l[1], l[2], l[3], round(l[4], 9)) for l in links]
    ctx.check(sorted(got) == sorted(exp), "imported-links", lambda: f"{sorted(set(got) - set(exp))} instead of {sorted(set(exp) - set(got))}; {len(got)} of {len(exp)}")
    if ctx.viol:
        return
    # world
    full = [l + [math.dist(LL[ids.index(l[1])], LL[ids.index(l[2])])] for l in links]
    coef = 98765.0 if case.get("defaults") else 111000
    roads = [dict(a=ids.index(l[1]), b=ids.index(l[2]), oneway=True, name=l[0], length=l[5] * coef, cand=[(l[4], l[3])]) for l in full]
    for cpp in case.get("eng", (0, 1)):
        W, before = prepared(cpp, case.get("pre", 0))
        opt = dict(pos=LL, kappa=0.2)
        tag = f"{('py', 'cpp')[cpp]} {case['roads']}"
        old, W_near = globals()["near"], lambda p, q: old(p, q, 1e-9)
        globals()["near"] = W_near
        try:
            with silent():
                O.osm_network_to_World(W, nodes, full, default_jam_density=0.2, **(dict(coef_degree_to_meter=coef) if coef != 111000 else {}))
            r = judge(ctx, W, before, roads, opt, tag)
        finally:
            globals()["near"] = old
        if not ctx.viol and case.get("drive"):
            drive(ctx, W, *r, opt, cpp, tag)
    ctx.outcome(repr(case["roads"]))


def reach(n, es):
    R = {i: {i} for i in n}
    ch = True
    while ch:
        ch = False
        for a, b in es:
            for i in n:
                if a in R[i] and b not in R[i]:
                    R[i].add(b)
                    ch = True
    return R


def run_merge(case, ctx):
    """contraction of short links"""
    O = old_importer()
    pos = {i: tuple(p) for i, p in enumerate(case["pos"])}
    links = [[f"l{k}", a, b, 1 + k % 3, 10.0 + k] for k, (a, b) in enumerate(case["links"])]
    by = {l[0]: l for l in links}
    for order in case["orders"]:
        ls = [list(links[i]) for i in order]
        for it in case["its"]:
            for both in (False, True):
                with silent():
                    N2, L2 = O.osm_network_postprocessing([[i, *p] for i, p in pos.items()], [list(l) for l in ls], case["th"], node_merge_iteration=it, enforce_bidirectional=both)
                tag = f"{case} order {order} iterations {it} bidirectional {both}"
                c = ctx.check
                ctx.transitions += 1
                names = [n[0] for n in N2]
                c(len(set(names)) == len(names) and all(n[0] in pos and (n[1], n[2]) == pos[n[0]] for n in N2), "merge-node", lambda: f"{tag}: {N2}")
                if not c(all(l[1] in names and l[2] in names and l[1] != l[2] for l in L2), "merge-dangling", lambda: f"{tag}: {L2} with nodes {names}"):
                    return
                c(set(names) == {x for l in L2 for x in l[1:3]}, "merge-isolated", lambda: f"{tag}: {names}, {L2}")
                pairs = [(l[1], l[2]) for l in L2]
                c(len(set(pairs)) == len(pairs), "merge-duplicate", lambda: f"{tag}: {L2}")
                for l in L2:
                    c(abs(l[5] - math.dist(pos[l[1]], pos[l[2]])) < 1e-12, "merge-length", lambda: f"{tag}: {l}")
                # image of the nodes
                f = {n: n for n in names}
                for l in L2:
                    rev = l[0].endswith("-reverse")
                    o = by.get(l[0].split("-")[0])
                    if not c(o is not None and l[3:5] == o[3:5] and (not rev or both), "merge-attributes", lambda: f"{tag}: {l}"):
                        return
                    u, v = (o[2], o[1]) if l[0].count("-reverse") % 2 else (o[1], o[2])
                    for x, y in ((u, l[1]), (v, l[2])):
                        c(f.setdefault(x, y) == y, "merge-inconsistent", lambda: f"{tag}: node {x} became {f[x]} and {y}: {L2}")
                W = reach(pos, [(a, b) for _, a, b, *_ in links] + [(b, a) for _, a, b, *_ in links])
                for x, y in f.items():
                    c(y in W[x] and math.dist(pos[x], pos[y]) <= it * case["th"] + 1e-9, "merge-too-far", lambda: f"{tag}: node {x} became {y}")
                if it == 1:
                    real = {(f[a], f[b]) for _, a, b, *_ in links if a in f and b in f}
                    c(not any(l[0].endswith("-reverse") and (l[1], l[2]) in real for l in L2), "merge-road-replaced", lambda: f"{tag}: {L2}")
                for _, a, b, *_ in links:
                    if a in f and b in f and f[a] != f[b]:
                        c((f[a], f[b]) in pairs and (not both or (f[b], f[a]) in pairs), "merge-road-lost", lambda: f"{tag}: road {a}->{b} (now {f[a]}->{f[b]}) disappeared: {L2}")
                if both:
                    c(all((b, a) in pairs for a, b in pairs), "merge-one-way", lambda: f"{tag}: {pairs}")
                short = [l for l in L2 if l[5] <= case["th"]]
                if it >= len(pos):
                    c(not short, "merge-short-link-left", lambda: f"{tag}: {short}")
                if all(math.dist(pos[a], pos[b]) > case["th"] for _, a, b, *_ in links):
                    e = {(a, b) for _, a, b, *_ in links}
                    c(set(pairs) == (e | {(b, a) for a, b in e} if both else e), "merge-changed", lambda: f"{tag}: {pairs}")
                # what was connected stays connected
                R0, R1 = reach(pos, [(a, b) for _, a, b, *_ in links]), reach(names, pairs)
                for x in f:
                    for y in R0[x]:
                        if y in f and f[x] in R1:
                            c(f[y] in R1[f[x]], "merge-disconnected", lambda: f"{tag}: {x} reached {y}, now {f[x]} does not reach {f[y]}: {pairs}")
                ctx.state((tuple(sorted(pairs)), tuple(sorted(f.items()))))
    ctx.outcome(repr(sorted(ctx.states)))


def families(tier):
    big = tier == "thorough"
    attr, topo, down, old, merge = [], [], [], [], []
    HW = ["motorway", "motorway_link", "trunk", "secondary_link", "tertiary", "residential", "living_street", "service", "unclassified", ["primary", "trunk", "trunk"], ["residential", "service"]]
    MS = [None, "50", "72.5", ["40", "60"], ["30", "40", "80"], "30 mph", ["20 mph", "50"]]
    LN = [None, "1", "2", "3", "5", ["1", "2"], ["4", "3", "2"], "x", ["2", "y"]]
    OPT = [dict(), dict(capacity=1), dict(override=1), dict(override=1, speeds={"motorway": 30.5, "others": 9.0, "residential": 5.5}, lanes={"trunk": 4, "others": 3, "residential": 2}), dict(speeds={"trunk": 21.0, "others": 7.0}, lanes={"others": 4, "service": 2})]
    for i, (h, m, l, o) in enumerate(itertools.product(HW, MS, LN, (True, False))):
        for j, opt in enumerate(OPT):
            if not big and (j > 1 and "override" in opt and (m not in (None, "50", ["40", "60"]) or l not in (None, "3", ["1", "2"])) or (i + j) % 3 and "override" not in opt):
                continue
            attr.append(dict(roads=[dict(a=0, b=1, highway=h, maxspeed=m, lanes=l, oneway=o), dict(a=1, b=2, highway="service", lanes="2", oneway=True)], opt=opt, eng=[(i + j) % 2]))
    # unknown road types: estimated from the roads before and after
    for before in itertools.chain.from_iterable(itertools.product(("motorway", "primary", "residential"), repeat=k) for k in (0, 1, 2)):
        for after in itertools.chain.from_iterable(itertools.product(("motorway", "primary", "residential"), repeat=k) for k in (0, 1, 2)):
            for side in (None, "service"):
                for first in (0, 1):
                    rs = [dict(a=3 if k == 0 else 2, b=0, highway=h) for k, h in enumerate(before)] + [dict(a=1, b=2 if k == 0 else 3, highway=h) for k, h in enumerate(after)]
                    if side:
                        rs += [dict(a=0, b=3, highway=side), dict(a=0, b=2, highway=side, bend=9)]
                    u = dict(a=0, b=1, highway=None)
                    attr.append(dict(roads=[u] + rs if first else rs + [u], eng=[first]))
    for d in itertools.chain.from_iterable(itertools.combinations(("name", "lanes", "maxspeed"), k) for k in (1, 2, 3)):
        for o in (True, False):
            attr.append(dict(roads=[dict(a=0, b=1, highway="trunk", oneway=o), dict(a=1, b=2, oneway=o)], drop=list(d)))
    pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
    i = 0
    NM = [None, "A", "B", ["A", "C"]]
    for k in (1, 2, 3):
        for es in itertools.combinations(pairs, k) if not big else itertools.product(pairs, repeat=k):
            for ow in itertools.product((True, False), repeat=k):
                i += 1
                if not big and k == 3 and i % 3:
                    continue
                rs = []
                for j, (a, b) in enumerate(es):
                    rs.append(dict(a=a, b=b, oneway=ow[j], bend=0 if (a, b) not in es[:j] and (i + j) % 3 else 20 + 11 * j, shift=(0, 0, 2e-8, -3e-8)[(i + j) % 4], lanes=(None, "2", "4")[(i + j) % 3], maxspeed="36", name=NM[(i // 2 + j) % 4]))
                topo.append(dict(roads=rs, pre=(0, 2, 4)[i % 3], opt=dict(capacity=1) if i % 4 else {}, drive=True, eng=[0, 1] if big else [i % 2]))
    i = 0
    for k in (1, 2, 3):
        for es in itertools.combinations(pairs, k) if k < 3 or big else list(itertools.combinations(pairs, k))[::3]:
            for ow in itertools.product((True, False), repeat=k):
                i += 1
                if not big and k > 1 and i % 4:
                    continue
                rs = []
                for j, (a, b) in enumerate(es):
                    rs.append(dict(a=a, b=b, oneway=ow[j], bend=0 if (i + j) % 3 and (a, b) not in es[:j] and (b, a) not in es[:j] else 1 + j, **dict(lanes=["2", None, ["1", "3"], "4"][(i + j) % 4], maxspeed=[None, "50", ["30", "50"]][(i + j) % 3], name=[None, "A", ["B", "C"]][(i + 2 * j) % 3], highway=["trunk", "motorway", ["primary", "secondary", "primary"], "residential", "motorway_link", "unclassified", "tertiary", "secondary_link", "primary"][(i + 2 * j) % 9])))
                if i % 5 == 0:
                    rs.append(dict(rs[0], bend=7, lanes="1", oneway=True))
                for c, ids in ((down, [0, 1, 2, 3] if i % 2 else [77, 3, 1, 0]), (old, [0, 1, 2, 3] if i % 3 else [2, 0, 1, 12345])):
                    c.append(dict(roads=rs, ids=ids, pre=(0, 2, 4)[i % 3], eng=[i % 2], opt=dict(capacity=1) if i % 3 == 0 else {}, drive=i % 2 == 0, defaults=i % 4 > 1, bbox=i % 3 == 1))
    for pos in ([(0, 0), (1, 0), (2, 0), (3.5, 0)], [(0, 0), (0.5, 0), (0.5, 0.5), (5, 5)], [(0, 0), (3, 0), (3, 0.4), (0, 0.7)], [(0, 0), (0.9, 0), (1.7, 0), (2.4, 0)]):
        for k in range(1, 6 if big else 5):
            for n, es in enumerate(itertools.combinations(pairs, k)):
                if not big and k == 4 and n % 3:
                    continue
                orders = [list(range(k)), list(range(k))[::-1]] if k < 3 or not big else [list(o) for o in itertools.permutations(range(k))][:: 1 if k < 4 else 5]
                for th in (0, 0.75, 1.0, 4):
                    merge.append(dict(pos=pos, links=[list(e) for e in es], th=th, orders=orders, its=[1, 2, 5]))
    return [
        Family("attributes", attr, run_simple, cpp=True, note="every combination of road type, recorded speed, recorded lanes, direction and option; unknown road types between all kinds of neighbours; missing columns"),
        Family("topology", topo, run_simple, cpp=True, note="all networks of up to three roads on four places, with curved and parallel roads, inexact coordinates, repeated names, names taken before; traffic on the imported network equals traffic on the network described directly"),
        Family("download", down, run_download, cpp=True, note="maps in the form of OSMnx (a pair of links per two-way road), without simplification"),
        Family("first-importer", old, run_old, cpp=True, note="import and transfer to a world by the first importer"),
        Family("merge", merge, run_merge, note="contraction of short links: all networks of up to four (five) links on four places, thresholds, iterations, orders of the links"),
    ]


RUNNER = Runner("P25", "model_checking",
                "exhaustive enumeration of small road maps, attribute combinations and options given to the importers in place of downloaded data; the resulting World compared with the network described by the map, also by simulating traffic on both",
                families, ["the download itself (OSMnx) and the geometric simplification (neatnet) are replaced by the enumerated maps", "an unknown road type next to roads whose type is a list is outside the alphabet"])
