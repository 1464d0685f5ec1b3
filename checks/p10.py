"""P10: route constraints - enforced routes, preferred/avoided links, acyclic routing, dead ends."""
import itertools
from mc.runner import ScriptedRunner, Family
from mc.nets import *
from mc import conform as C, scenario as S
from mc.refsim import Model, Tie, RouteError
from mc.runner import h64


def run_det(case, ctx):
    """model and both engines agree, including on whether the restrictions can be followed"""
    err = False
    try:
        m = Model(case)
        m.run()
    except RouteError:
        err = True
    except Tie:
        ctx.skipped += 1
        return
    ctx.state((case["vehicles"].__repr__(), err))
    if not err:
        C.conform(case, ctx, after=spec_monitor)
        return
    for cpp in (0, 1):
        W = S.build(case, bool(cpp))
        ctx.traces += 1
        try:
            W.exec_simulation()
        except (ValueError, IndexError) as e:
            ctx.outcome(("error", repr(case["vehicles"])))
        else:
            ctx.fail(f"{'cpp' if cpp else 'py'}:no-error", f"{'C++' if cpp else 'Python'}: the route restrictions cannot be followed but no exception was raised; routes {[(v.name, [l.name for l in v.traveled_route()[0].links], str(v.state)) for v in W.VEHICLES.values()]}")


def run_det_any(case, ctx):
    run_det(case, ctx)


def spec_monitor(W, o, m, cpp):
    pass


def canon(o):
    return S.key({n: (v["route"], v["state"], v["arrival"]) for n, v in o["veh"].items()})


def restrictions(scn):
    """independent statement of the guarantees, checked on every route actually driven"""
    ld = {l["name"]: l for l in scn["links"]}
    out = {}
    for l in scn["links"]:
        out.setdefault(l["from"], []).append(l["name"])
    nocyc = scn["world"].get("no_cyclic")

    def chk(W, o, ctx, who):
        for i, (n, v) in enumerate(o["veh"].items()):
            sp = scn["vehicles"][i]
            r = [x[1] for x in v["route"] if x[1] in ld]
            seq = sp.get("route")
            if seq:
                ctx.check(r == seq[:len(r)], f"{who}:route", f"vehicle {n} enforced {seq} drove {r}")
                continue
            seen = {sp["o"]}
            prev = []
            for k, l in enumerate(r):
                outs = out[ld[l]["from"]]
                pf = [x for x in outs if x in sp.get("prefer", [])]
                ctx.check(not pf or l in pf, f"{who}:prefer", f"vehicle {n} prefers {sp.get('prefer')} but took {l} of {outs}; route {r}")
                ctx.check(l not in sp.get("avoid", []), f"{who}:avoid", f"vehicle {n} avoids {sp.get('avoid')} but took {l}; route {r}")
                if nocyc and k > 0:
                    visited = {ld[x]["from"] for x in r[:k]}
                    allowed = [x for x in (pf or outs) if x not in sp.get("avoid", [])]
                    fresh = [x for x in allowed if ld[x]["to"] not in visited]
                    ctx.check(not fresh or l in fresh, f"{who}:cyclic", f"vehicle {n} returned to a visited node by {l} although {fresh} were available; route {r}")
            if v["state"] == "end":
                ctx.check(bool(r) and ld[r[-1]]["to"] == sp["d"], f"{who}:end-elsewhere", f"vehicle {n} to {sp['d']} ended after {r}")
            if v["state"] == "abort":
                ctx.check(sp.get("trip_abort", 1) == 1 and not out.get(ld[r[-1]]["to"]) and ld[r[-1]]["to"] != sp["d"], f"{who}:abort", f"vehicle {n} aborted after {r}")
    return chk


def run_rand(case, ctx):
    scn, grid, live = case["scn"], case["grid"], [tuple(x) for x in case["live"]]
    chk = restrictions(scn)
    D = {}
    ref = C.distribution(scn, ctx, "model", canon, grid=grid)
    ctx.count("model_outcomes", len(ref))
    py = C.distribution(scn, ctx, "py", canon, grid=grid, monitor=lambda W, o: chk(W, o, ctx, "py"))
    C.compare_distributions(ctx, ref, py, "py")
    cc = C.distribution(scn, ctx, "cpp", canon, grid=grid, live=live, monitor=lambda W, o: chk(W, o, ctx, "cpp"))
    C.compare_distributions(ctx, ref, cc, "cpp")


def families(tier):
    big = tier == "thorough"
    # --- enforced routes: every sequence of links up to a length on the complete digraph on three nodes plus a dead end
    nodes = [N("a"), N("b", 10, 10), N("c", 20, 0), N("z", 30, 30)]
    E = [("ab", "a", "b", 101), ("ba", "b", "a", 120), ("bc", "b", "c", 90), ("cb", "c", "b", 133), ("ac", "a", "c", 260), ("ca", "c", "a", 140), ("bz", "b", "z", 70)]
    links = [L(*e) for e in E]
    names = [e[0] for e in E]
    enf = []
    depth = 4 if big else 3
    for k in range(1, depth + 1):
        for r in itertools.product(names, repeat=k):
            ok = r[0][0] == "a" and all(r[i][1] == r[i + 1][0] for i in range(k - 1))
            if k == depth and not (r[0][0] == "a" and all(r[i][1] == r[i + 1][0] for i in range(k - 2))):
                continue
            for d in ("c", "z", "a"):
                for mate in (0, 1):
                    vs = [dict(o="a", d=d, ts=0, route=list(r))]
                    if mate:
                        vs = [dict(o="a", d="c", ts=0), vs[0], dict(o="b", d="c", ts=1)]
                    elif k == depth and d == "a":
                        continue
                    enf.append(scn(nodes, links, vehicles=vs, tmax=60, duo_update_time=10))
    # valid long walks in traffic
    walks = [[n] for n in names if n[0] == "a"]
    full = []
    for _ in range(7 if big else 5):
        full += walks
        walks = [w + [n] for w in walks for n in names if n[0] == w[-1][1]]
    for w in full:
        for dn in (1, 5):
            ls = [L(n, a, b, s * dn) for n, a, b, s in E]
            d = w[-1][1]
            enf.append(scn(nodes, ls, vehicles=[dict(o="a", d="c", ts=0), dict(o="a", d=d, ts=0, route=w), dict(o="b", d="c", ts=1), dict(o="a", d=d, ts=2, route=w)], deltan=dn, tmax=90 * dn, duo_update_time=10 * dn))
    # --- preferred x avoided links: all pairs of subsets; link names in and against creation order
    pa = []
    D = [("oa", "o", "a", 200), ("ob", "o", "b", 231), ("ad", "a", "d", 190), ("bd", "b", "d", 208), ("ab", "a", "b", 60)]
    for rev in (0, 1):
        ren = {n: (n if not rev else f"{9 - i}{n}") for i, (n, *_) in enumerate(D)}
        ls = [L(ren[n], a, b, s) for n, a, b, s in D]
        nn = [N("o"), N("a", 50, 50), N("b", 50, -50), N("d", 100, 0)]
        ids = [ren[n] for n, *_ in D]
        sub = [list(x) for k in range(len(ids) + 1) for x in itertools.combinations(ids, k)]
        for p in sub:
            for a in sub:
                if not big and (len(p) + len(a) > 5 or rev and len(p) + len(a) > 3):
                    continue
                for d, ts in (("d", 3), ("b", 0)):
                    pa.append(scn(nn, ls, vehicles=[dict(o="o", d="d", ts=0), dict(o="o", d=d, ts=ts, prefer=p, avoid=a), dict(o="o", d="d", ts=ts)], tmax=70, duo_update_time=8))
                    if big:
                        pa.append(scn(nn, ls, vehicles=[dict(o="o", d="d", ts=0), dict(o="o", d=d, ts=ts, prefer=p, avoid=a, trip_abort=0)], tmax=70, duo_update_time=8, no_cyclic=True, gradual=True))
    # three-way nodes: after the restriction several links without any preference remain
    D3 = [("oa", "o", "a", 200), ("ob", "o", "b", 231), ("od", "o", "d", 150), ("ad", "a", "d", 190), ("bd", "b", "d", 208), ("ao", "a", "o", 77), ("ab", "a", "b", 60)]
    for order in itertools.permutations(range(3)) if big else ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
        ren = {}
        for i, (n, *_) in enumerate(D3):
            ren[n] = f"{order[i] if i < 3 else order[(i - 3) % 3]}{n}"
        ls = [L(ren[n], a, b, s) for n, a, b, s in D3]
        ids = [ren[n] for n, *_ in D3 if n != "bd"]
        sub = [list(x) for k in range(4) for x in itertools.combinations(ids, k)]
        for p in sub:
            for a in sub:
                if len(p) + len(a) <= (5 if big else 3):
                    pa.append(scn([N("o"), N("a", 50, 50), N("b", 50, -50), N("d", 100, 0)], ls, vehicles=[dict(o="o", d="d", ts=0, prefer=p, avoid=a), dict(o="o", d="d", ts=2, prefer=a, avoid=[])], tmax=60, duo_update_time=8))
    # --- acyclic routing and dead ends on every digraph on 4 nodes of limited size
    cyc = []
    pairs = [(i, j) for i in range(4) for j in range(4) if i != j]
    for k in range(2, 6 if big else 5):
        for es in itertools.combinations(pairs, k):
            if not any(a == 0 for a, b in es):
                continue
            if k == 4 and not big and (hash(es) >> 3) % 3:
                continue
            for nc in (False, True):
                for ab in (0, 1):
                    ls = [L(f"l{a}{b}", f"n{a}", f"n{b}", 80 + 7 * a + 3 * b) for a, b in es]
                    cyc.append(scn([N(f"n{i}", i, 0) for i in range(4)], ls, vehicles=[dict(o="n0", d="n3", ts=0, trip_abort=ab), dict(o="n0", d="n2", ts=1, trip_abort=1 - ab), dict(o="n0", d="n3", ts=1)], tmax=40, duo_update_time=8, no_cyclic=nc))
    # --- all random draws: unreachable destinations (random walks) under every restriction
    rnd = []
    nn = [N("o"), N("a", 50, 50), N("b", 50, -50), N("d", 100, 0), N("z", 100, 100), N("i", 0, 100)]
    ls = [L("oa", "o", "a", 300), L("ob", "o", "b", 300), L("ab", "a", "b", 300), L("ba", "b", "a", 300), L("ad", "a", "d", 300), L("bo", "b", "o", 300), L("dz", "d", "z", 300)]
    for p in ([], ["ab", "ba"], ["ad"], ["ob", "ab", "bo"]):
        for a in ([], ["ad"], ["ba", "oa"], ["ab"]):
            for nc in (False, True):
                for ab in (0, 1):
                    for dest in ("i", "d"):
                        rnd.append(dict(scn=scn(nn, ls, vehicles=[dict(o="o", d=dest, ts=0, prefer=p, avoid=a, trip_abort=ab)], deltan=5, tmax=90, duo_update_time=400 if dest == "i" else 20, hard=False, no_cyclic=nc), grid=2, live=[]))
    out = []
    for c in rnd:
        try:
            # combinations whose restrictions leave no outgoing link anywhere are decided in the deterministic family
            free = all([x for x in ([y for y in o if y in c["scn"]["vehicles"][0]["prefer"]] or o) if x not in c["scn"]["vehicles"][0]["avoid"]]
                       for o in (["oa", "ob"], ["ab", "ad"], ["ba", "bo"], ["dz"]))
        except Exception:
            free = False
        if free:
            out.append(c)
    for c in (enf, pa, cyc):
        c += frac(c, 7 if big else 19)
    return [Family("enforced", enf, run_det, cpp=True, note="every link sequence up to the length bound as enforced route (consistent or not) and all consistent walks in traffic"),
            Family("prefer-avoid", pa, run_det, cpp=True, note="all pairs of preferred and avoided link subsets, names in and against creation order"),
            Family("acyclic-deadend", cyc, run_det, cpp=True, note="digraphs on four nodes with dead ends and cycles x acyclic routing x trip abort"),
            Family("random-walks", out, run_rand, cpp=True, note="every random draw under every restriction, restrictions checked on each driven route", timeout=300)]


RUNNER = ScriptedRunner("P10", "model_checking",
                "All link sequences as enforced routes up to the bound, all pairs of link subsets as preferred/avoided, all digraphs of the listed sizes, all random draws; distinct = distinct vehicle histories.",
                families, ["'cannot be followed' = enforced route not connected / exhausted before the destination, or restrictions exclude every outgoing link", "a vehicle that reaches its destination before the end of its enforced route ends its trip there"])
