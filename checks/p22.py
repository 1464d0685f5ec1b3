"""P22: names identify nodes, links and vehicles uniquely; references resolve to exactly what they name or are rejected without a trace."""
import itertools, math
import numpy as np
from mc import env
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S

MISC = object()
ENG = (0, 1)


class Ref:
    """what the world has to contain"""

    def __init__(r):
        r.nodes, r.links, r.vehs = [], [], []      # names; (name, from, to); (name, orig, dest)

    def nid(r, n):
        return n in r.nodes


def world(cpp, **kw):
    W = S.make_world(dict(world=dict(tmax=60, deltan=1, duo_update_time=5, **kw)), cpp=bool(cpp))
    W.user_note = "C++" if cpp else "Python"
    return W


def foreign(cpp):
    """another world which has its own A, B and l, and things of other names"""
    F = world(cpp)
    for n in "AFBZ":
        F.addNode(n, 7, 7)
    F.addLink("x", "A", "Z", length=77)
    F.addLink("zz", "Z", "B", length=78)
    return F


def snapshot(W):
    return ([(id(n), n.name, n.id) for n in W.NODES], [(k, id(v)) for k, v in W.NODES_NAME_DICT.items()],
            [(id(l), l.name, l.id) for l in W.LINKS], [(k, id(v)) for k, v in W.LINKS_NAME_DICT.items()],
            [(k, id(v)) for k, v in W.VEHICLES.items()],
            [[sorted((k, id(v)) for k, v in d.items()) for d in (n.inlinks, n.outlinks)] for n in W.NODES])


def consistent(ctx, W, ref, tag):
    c = ctx.check
    c([n.name for n in W.NODES] == ref.nodes, "nodes", lambda: f"{tag}: {[n.name for n in W.NODES]}, expected {ref.nodes}")
    c([(l.name, l.start_node.name, l.end_node.name) for l in W.LINKS] == ref.links, "links", lambda: f"{tag}: {[(l.name, l.start_node.name, l.end_node.name) for l in W.LINKS]}, expected {ref.links}")
    c([(v.name, v.orig.name, v.dest.name) for v in W.VEHICLES.values()] == ref.vehs, "vehicles", lambda: f"{tag}: {[(v.name, v.orig.name, v.dest.name) for v in W.VEHICLES.values()]}, expected {ref.vehs}")
    for kind, seq, get in (("node", W.NODES, W.get_node), ("link", W.LINKS, W.get_link)):
        c([o.id for o in seq] == list(range(len(seq))), f"{kind}-ids", lambda: f"{tag}: {[o.id for o in seq]}")
        c(len({o.name for o in seq}) == len(seq), f"{kind}-names-not-unique", lambda: f"{tag}: {[o.name for o in seq]}")
        for o in seq:
            c(get(o.name) is o and get(o) is o and get(np.str_(o.name)) is o, f"{kind}-reference", lambda: f"{tag}: {o} is not found by its name or by itself")
            c(o.W is W, f"{kind}-world", f"{tag}: {o} belongs to another world")
    for k, v in W.VEHICLES.items():
        c(k == v.name and v.orig in W.NODES and v.dest in W.NODES, "vehicle-reference", lambda: f"{tag}: {k}: {v}")
    for n in W.NODES:
        c({k: id(v) for k, v in n.outlinks.items()} == {l.name: id(l) for l in W.LINKS if l.start_node is n}, "outlinks", lambda: f"{tag}: {n}: {dict(n.outlinks)}")
        c({k: id(v) for k, v in n.inlinks.items()} == {l.name: id(l) for l in W.LINKS if l.end_node is n}, "inlinks", lambda: f"{tag}: {n}: {dict(n.inlinks)}")


def renamed(seq, new, old):
    return new not in seq and (new == old or (old in seq and new.startswith(old + "_renamed") and len(new) > len(old) + 8))


def op_node(name, auto):
    def f(W, F, ref):
        if name in ref.nodes and (not auto or W.user_note == "C++"):        # nodes cannot be renamed in C++ mode
            return None, lambda: W.addNode(name, 1, 2, auto_rename=auto)

        def do():
            n = W.addNode(name, len(ref.nodes) * 10, 3, auto_rename=auto)
            return n

        def post(n, ctx):
            ctx.check(renamed(ref.nodes, n.name, name), "renaming", lambda: f"node {name!r} was added as {n.name!r} to {ref.nodes}")
            ctx.check((n.x, n.y) == (len(ref.nodes) * 10, 3), "node-position", lambda: f"{n}: {n.x}, {n.y}")
            ref.nodes.append(n.name)
        return post, do
    return f


def pick(W, F, how, name):
    """reference to the node or link called `name`"""
    if how == "name":
        return name
    if how == "np":
        return np.str_(name)
    if how == "obj":
        return W.NODES_NAME_DICT.get(name) or W.LINKS_NAME_DICT.get(name) or name
    if how == "foreign":
        return F.NODES_NAME_DICT.get(name) or F.LINKS_NAME_DICT.get(name)


def op_link(name, a, b, how="name", auto=False, **kw):
    def f(W, F, ref):
        full = f"{a}-{b}" if name is None else name
        ok = a in ref.nodes and b in ref.nodes and (auto or full not in [l[0] for l in ref.links])

        def do():
            return W.addLink(name, pick(W, F, how, a), pick(W, F, how, b), length=100 + len(ref.links), auto_rename=auto, **kw)

        def post(l, ctx):
            names = [x[0] for x in ref.links]
            ctx.check(renamed(names, l.name, full), "renaming", lambda: f"link {full!r} was added as {l.name!r} to {names}")
            ctx.check(l.length == 100 + len(names) and l.start_node is W.NODES_NAME_DICT[a] and l.end_node is W.NODES_NAME_DICT[b], "link-ends", lambda: f"{l}: {l.start_node} {l.end_node}")
            ref.links.append((l.name, a, b))
        return (post if ok else None), do
    return f


def op_veh(name, a, b, how="name", auto=False, links=None, pos=False, **kw):
    def f(W, F, ref):
        full = str(len(ref.vehs)) if name is None else name
        names = [v[0] for v in ref.vehs]
        kw2 = {k: [pick(W, F, how, x) for x in v] for k, v in (links or {}).items()}
        ok = a in ref.nodes and b in ref.nodes and (auto or name is None or full not in names)
        for v in (links or {}).values():
            ok = ok and all(x in [l[0] for l in ref.links] for x in v)

        def do():
            if pos:
                return W.addVehicle(pick(W, F, how, a), pick(W, F, how, b), 2, name)
            return W.addVehicle(pick(W, F, how, a), pick(W, F, how, b), 2, name=name, auto_rename=auto, **kw2, **kw)

        def post(v, ctx):
            ctx.check(v.name not in names if name is None and full in names else renamed(names, v.name, full), "renaming", lambda: f"vehicle {full!r} was added as {v.name!r} to {names}")
            ctx.check(v.departure_time_in_second == 2, "vehicle-departure", lambda: f"{v}: {v.departure_time_in_second}")
            ref.vehs.append((v.name, a, b))
        return (post if ok else None), do
    return f


def named(W, ref, a, b, ctx):
    """two vehicles were generated: numbered, and otherwise named if a number is taken by an explicit name"""
    names = [v[0] for v in ref.vehs]
    new = list(W.VEHICLES)[len(names):]
    ctx.check(len(new) == 2 and all(x == str(len(names) + i) or str(len(names) + i) in names + new[:i] for i, x in enumerate(new)), "automatic-names", lambda: f"{new} were generated after {names}")
    ref.vehs.extend((x, a, b) for x in new)


def op_demand(a, b, how="name"):
    def f(W, F, ref):
        ok = a in ref.nodes and b in ref.nodes

        def post(_, ctx):
            named(W, ref, a, b, ctx)
        return (post if ok else None), lambda: W.adddemand(pick(W, F, how, a), pick(W, F, how, b), 0, 4, 0.5)
    return f


def op_nodes2nodes(a, b):
    def f(W, F, ref):
        have = a in ref.nodes and b in ref.nodes
        if have and (a not in [l[1] for l in ref.links] or b not in [l[2] for l in ref.links]):
            return MISC, None
        ok = have

        def post(_, ctx):
            named(W, ref, a, b, ctx)
        return (post if ok else None), lambda: W.adddemand_nodes2nodes2([a], [b], 0, 4, volume=2)
    return f


OPS = {
    "addNode A": op_node("A", False), "addNode B": op_node("B", False), "addNode A renaming": op_node("A", True), "addNode C renaming": op_node("C", True),
    "addLink x AB": op_link("x", "A", "B"), "addLink x BA": op_link("x", "B", "A"), "addLink x AB renaming": op_link("x", "A", "B", auto=True),
    "addLink unnamed AB": op_link(None, "A", "B"), "addLink unnamed BA renaming": op_link(None, "B", "A", auto=True),
    "addLink y obj AB": op_link("y", "A", "B", how="obj"), "addLink y foreign BA": op_link("y", "B", "A", how="foreign"), "addLink w AQ": op_link("w", "A", "Q"), "addLink w ZB foreign": op_link("w", "Z", "B", how="foreign"),
    "addVehicle AB": op_veh(None, "A", "B"), "addVehicle 0": op_veh("0", "A", "B"), "addVehicle 1 obj": op_veh("1", "B", "A", how="obj"), "addVehicle v renaming": op_veh("v", "A", "B", auto=True),
    "addVehicle 1 positional": op_veh("1", "A", "B", pos=True),
    "addVehicle AQ": op_veh(None, "A", "Q"), "addVehicle QB": op_veh(None, "Q", "B"), "addVehicle foreign": op_veh(None, "A", "B", how="foreign"), "addVehicle foreign AZ": op_veh(None, "A", "Z", how="foreign"),
    "addVehicle prefer x": op_veh(None, "A", "B", links=dict(links_prefer=["x"])), "addVehicle prefer q": op_veh(None, "A", "B", links=dict(links_prefer=["q"])), "addVehicle avoid q": op_veh(None, "A", "B", links=dict(links_avoid=["q"])),
    "adddemand AB": op_demand("A", "B"), "adddemand AQ": op_demand("A", "Q"), "adddemand QB obj": op_demand("Q", "B", how="obj"), "adddemand foreign": op_demand("B", "A", how="foreign"),
    "nodes2nodes AB": op_nodes2nodes("A", "B"), "nodes2nodes AQ": op_nodes2nodes("A", "Q"),
}


def apply(ctx, W, F, ref, name):
    post, do = OPS[name](W, F, ref)
    if post is MISC:
        return False
    if post is None:
        before = snapshot(W)
        try:
            do()
        except Exception:
            pass
        else:
            ctx.fail("accepted", f"{name} was accepted although a name is taken or unknown; nodes {ref.nodes}, links {ref.links}, vehicles {ref.vehs}")
        after = snapshot(W)
        ctx.check(before == after, "rejected-call-left-a-trace", lambda: f"{name}: {before} -> {after}")
    else:
        post(do(), ctx)
    return True


def run_ops(case, ctx):
    for cpp in ENG:
        F = foreign(cpp)
        for tail in case["tails"]:
            W, ref = world(cpp), Ref()
            ok = True
            for name in case["head"] + tail:
                ok = apply(ctx, W, F, ref, name)
                ctx.transitions += 1
                if not ok:
                    break
                consistent(ctx, W, ref, f"cpp={cpp} after {case['head'] + tail} at {name}")
            if not ok:
                ctx.count("outside_alphabet", 1)
                continue
            ctx.state((len(ref.nodes), len(ref.links), tuple(ref.vehs)))
            if ref.links:
                finish(ctx, W, ref, f"cpp={cpp} {case['head'] + tail}")
            ctx.traces += 1
    ctx.outcome(repr(case["head"]))


def finish(ctx, W, ref, tag):
    """what was described is what is simulated: every vehicle travels over links from its origin towards its destination"""
    W.exec_simulation()
    consistent(ctx, W, ref, tag + " after the simulation")
    ends = {l[0]: l[1:] for l in ref.links}
    reach = bfs(ref.nodes, [l[1:] for l in ref.links])
    for v in W.VEHICLES.values():
        seq = [l if isinstance(l, str) else l.name for _, l in v.log_t_link]
        seq = [x for x in seq if x not in ("home", "end")]
        at = v.orig.name
        good = all(x in ends for x in seq)
        for x in seq if good else ():
            good = good and ends[x][0] == at
            at = ends[x][1]
        ctx.check(good, "route", lambda: f"{tag}: {v} from {v.orig} traveled {seq}, links are {ends}")
        if v.dest.name in reach[v.orig.name] and good:
            ctx.check(v.state == "end" and at == v.dest.name, "vehicle-did-not-arrive", lambda: f"{tag}: {v} from {v.orig} to {v.dest}: {v.state} after {seq}, links are {ends}")


def bfs(nodes, edges):
    r = {}
    for a in nodes:
        seen, st = set(), [a]
        while st:
            x = st.pop()
            for p, q in edges:
                if p == x and q not in seen:
                    seen.add(q)
                    st.append(q)
        r[a] = seen
    return r


# ------------------------------------------------------------------ references
def run_refs(case, ctx):
    for cpp in ENG:
        W, F = world(cpp), foreign(cpp)
        for n in case["nodes"]:
            W.addNode(n, 0, 0)
        for n, a, b in case["links"]:
            W.addLink(n, a, b, length=100)
        if case["run"]:
            W.addVehicle(case["links"][0][1], case["links"][0][2], 0)
            W.exec_simulation(duration_t2=5)
        kinds = (("node", W.get_node, W.NODES, F.NODES, case["nodes"], W.LINKS), ("link", W.get_link, W.LINKS, F.LINKS, [l[0] for l in case["links"]], W.NODES))
        for kind, get, own, other, names, wrong in kinds:
            ctx.check(get(None) is None, "none", f"get_{kind}(None) is {get(None)}")
            for o, n in zip(own, names):
                for x in (o, n, np.str_(n)):
                    ctx.transitions += 1
                    ctx.check(get(x) is o, "reference", lambda: f"cpp={cpp}: get_{kind}({x!r}) is {get(x)!r}")
            cand = list(other) + ["q", np.str_("Q"), "", 0, 1.5, ("A",), names[0] + " ", names[0].swapcase()]
            cand += [w.name for w in wrong if w.name not in names]
            for x in cand:
                ctx.transitions += 1
                nm = getattr(x, "name", x)
                exp = own[names.index(nm)] if isinstance(nm, str) and nm in names else None
                try:
                    got = get(x)
                except Exception:
                    got = "raised"
                if exp is None:
                    ctx.check(got == "raised", "unknown-reference-accepted", lambda: f"cpp={cpp}: get_{kind}({x!r}) of no such {kind} returned {got!r} instead of raising")
                else:
                    ctx.check(got is exp, "foreign-reference", lambda: f"cpp={cpp}: get_{kind}({x!r} of another World) is {got!r}")
                ctx.state((kind, repr(x), got == "raised"))
        ctx.traces += 1
    ctx.outcome(repr(case))


# ------------------------------------------------------------------ nodes by position
def run_space(case, ctx):
    for cpp in ENG:
        W = world(cpp)
        for i, (x, y) in enumerate(case["pos"]):
            W.addNode(f"n{i}", x, y)
        g = case["grid"]
        for x in g:
            for y in g:
                d = [(nx - x) ** 2 + (ny - y) ** 2 for nx, ny in case["pos"]]
                got = W.get_nearest_node(x, y)
                ctx.transitions += 1
                if d:
                    ctx.check(got is not None and d[got.id] == min(d), "nearest", lambda: f"cpp={cpp}: nearest node of {(x, y)} in {case['pos']} is {got}")
                else:
                    ctx.check(got is None, "nearest-of-none", f"{got}")
                for r in case["r"]:
                    exp = {i for i, q in enumerate(d) if q < r * r - 1e-9}
                    may = {i for i, q in enumerate(d) if abs(q - r * r) <= 1e-9}
                    s = [n.id for n in W.get_nodes_in_area(x, y, r)]
                    ctx.transitions += 1
                    ctx.check(len(set(s)) == len(s) and exp <= set(s) <= exp | may, "area", lambda: f"cpp={cpp}: nodes within {r} of {(x, y)} in {case['pos']}: {s}, expected {exp}")
                    ctx.state((len(exp), len(d)))
        ctx.traces += 1
    ctx.outcome(repr(case["pos"]))


# ------------------------------------------------------------------ routes
RN = (["A", "B", "C"], [("ab", "A", "B"), ("ab2", "A", "B"), ("bc", "B", "C"), ("ba", "B", "A"), ("ca", "C", "A")])


def run_routes(case, ctx):
    for cpp in ENG:
        U = env.load(cpp=bool(cpp))
        W = world(cpp)
        for n in RN[0]:
            W.addNode(n, 0, 0)
        for i, (n, a, b) in enumerate(RN[1]):
            W.addLink(n, a, b, length=101 + 39 * i, capacity_out=0.3 if n == "bc" else None)
        if case["run"]:
            W.adddemand("A", "C", 0, 25, 0.7)
            W.adddemand("B", "A", 3, 20, 0.4)
            W.exec_simulation()
        F = foreign(cpp)
        ends = {n: (a, b) for n, a, b in RN[1]}
        made = []
        for seq in case["seqs"]:
            exp = all(x in ends for x in seq) and all(ends[p][1] == ends[q][0] for p, q in zip(seq, seq[1:]))
            for how in ("name", "obj", "mix"):
                arg = [W.LINKS_NAME_DICT.get(x, x) if how == "obj" or (how == "mix" and i % 2) else x for i, x in enumerate(seq)]
                ctx.transitions += 1
                keep = list(arg)
                try:
                    r = W.defRoute(arg, name="R")
                except Exception:
                    r = None
                ctx.check((r is not None) == exp, "accepted" if not exp else "rejected", lambda: f"cpp={cpp}: defRoute({seq}) {'rejected' if exp else 'accepted'}")
                ctx.check(arg == keep, "argument-modified", lambda: f"{arg}")
                if r is None:
                    continue
                objs = [W.LINKS_NAME_DICT[x] for x in seq]
                ctx.check(list(r) == objs and len(r) == len(objs) and [r[i] for i in range(-len(objs), len(objs))] == objs + objs and list(r[1:]) == objs[1:] and r.links_name == list(seq) and r.name == "R",
                          "route-links", lambda: f"cpp={cpp}: {seq}: {list(r)}")
                t = W.defRoute(objs, trust_input=True)
                ctx.check(t == r and list(t) == objs, "trusted-route", lambda: f"cpp={cpp}: {seq}: {list(t)}")
                made.append((tuple(seq), r))
                if case["run"]:
                    dt = W.DELTAT
                    for t0 in [x * 0.5 for x in range(0, 2 * int(W.TMAX) + 4)]:
                        tt, each = t0, []
                        for l in objs:
                            arr = l.traveltime_actual
                            k = min(int(tt / dt + 1e-9), len(arr) - 1)
                            each.append(float(arr[k]))
                            tt += each[-1]
                        ctx.transitions += 1
                        a, det = r.actual_travel_time(t0, return_details=True)
                        b = r.actual_travel_time(t0)
                        ctx.check(abs(a - sum(each)) < 1e-6 and a == b and S.diff(each, [float(x) for x in det]) is None, "route-travel-time", lambda: f"cpp={cpp}: route {seq} at {t0}: {a} {det}, expected {each}")
                    ctx.state((tuple(seq), round(sum(each), 6)))
        for (s1, r1), (s2, r2) in itertools.product(made[::3], made):
            ctx.check((r1 == r2) == (s1 == s2) and (r1 != r2) == (s1 != s2), "route-equality", lambda: f"cpp={cpp}: {s1} == {s2} is {r1 == r2}")
        for s1, r1 in made[:20]:
            ctx.check(not (r1 == list(s1)) and r1 != None and not (r1 == "R"), "route-equality-other", f"{r1}")
        ctx.traces += 1
    ctx.outcome(repr(case["seqs"][:1]) + repr(case["run"]))


def families(tier):
    big = tier == "thorough"
    names = list(OPS)
    ops = []
    for a in names:
        ops.append(dict(head=[], tails=[[a]] + [[a, b] for b in names]))
    base = ["addNode A", "addNode B"]
    deep = 3 if not big else 4
    for a in names:
        for b in names:
            ops.append(dict(head=base + [a, b], tails=[[]] + [[c] for c in names]))
    core = [n for n in names if n in ("addNode A renaming", "addLink x AB", "addLink x AB renaming", "addLink y foreign BA", "addVehicle AB", "addVehicle 1 obj",
                                      "addVehicle v renaming", "addVehicle AQ", "adddemand AB", "adddemand AQ")]
    if big:
        core = names
    for a, b in itertools.product(core, repeat=2):
        for c in core:
            ops.append(dict(head=base + ["addLink x AB", a, b, c] if big else base + [a, b, c], tails=[[d] for d in core]))
    refs = []
    for nodes in (["A", "B"], ["A", "B", "x"], ["B", "A", "Z"], ["A", "B", "zz"]):
        for links in ([("x", "A", "B")], [("x", "A", "B"), ("A", "B", "A")], [("zz", "B", "A"), ("B", "A", "B"), ("x", "A", "B")]):
            for run in (0, 1):
                refs.append(dict(nodes=nodes, links=links, run=run))
    space = []
    pts = [(0, 0), (1, 0), (0, 1), (2, 1), (1.5, 2), (-1, -1)]
    for k in range(0, 5 if big else 4):
        for pos in itertools.product(pts, repeat=k) if k < 3 else itertools.combinations(pts, k):
            space.append(dict(pos=list(pos), grid=[-1.25, -0.5, 0, 0.5, 0.75, 1, 2, 3], r=[0, 0.5, 1, 1.5, 2, 5]))
    rts = []
    al = [n for n, _, _ in RN[1]] + ["q"]
    seqs = [list(s) for k in range(1, 5 if big else 4) for s in itertools.product(al, repeat=k)]
    for i in range(0, len(seqs), 40):
        rts.append(dict(seqs=seqs[i:i + 40], run=0))
    ends = {n: (a, b) for n, a, b in RN[1]}
    good = [s for k in range(1, 7 if big else 6) for s in map(list, itertools.product(al[:-1], repeat=k)) if all(ends[p][1] == ends[q][0] for p, q in zip(s, s[1:]))]
    for i in range(0, len(good), 20):
        rts.append(dict(seqs=good[i:i + 20], run=1))
    return [
        Family("operations", ops, run_ops, cpp=True, note="every sequence of operations that describe a world (30 kinds, with taken, unknown, foreign and automatic names) up to the depth, in both engines; each world is then simulated"),
        Family("references", refs, run_refs, cpp=True, note="every kind of reference (name, object, object of another World, unknown names, other types)"),
        Family("positions", space, run_space, cpp=True, note="all placements of nodes on a small grid and all query points and radii"),
        Family("routes", rts, run_routes, cpp=True, note="all sequences of links; actual travel time of all routes at every half second"),
    ]


RUNNER = Runner("P22", "model_checking",
                "exhaustive enumeration of operation sequences that build a world, compared after every operation with a reference model (lists of names); all references, positions and link sequences within bounds",
                families, ["nodes exactly on the border of a circular area may or may not belong to it"])
