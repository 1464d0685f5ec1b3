"""P05: node model - merging priority, diverging, multi-lane transfer."""
import itertools
from mc.runner import ScriptedRunner, Family
from mc.nets import *
from mc import conform as C, scenario as S, script


def run_det(case, ctx):
    C.conform(case, ctx)


def canon(o):
    return S.key({n: (v["route"], v["arrival"]) for n, v in o["veh"].items()})


def run_dist(case, ctx):
    scn, grid, live = case["scn"], case["grid"], [tuple(x) for x in case["live"]]
    ref = C.distribution(scn, ctx, "model", canon)
    ctx.count("model_outcomes", len(ref))
    py = C.distribution(scn, ctx, "py", canon, cap=30000)
    C.compare_distributions(ctx, ref, py, "py")
    if case.get("cpp", True):
        cc = C.distribution(scn, ctx, "cpp", canon, grid=grid, live=live, cap=30000)
        if any(l.get("lanes", 1) > 1 for l in scn["links"]):
            ref = C.distribution(scn, ctx, "model-queue", canon)
        C.compare_distributions(ctx, ref, cc, "cpp", tol=1e-9)


def merge_net(dn, lanes, p, extra=False, lo=0):
    nodes = [N("a"), N("b"), N("c"), N("d")] + ([N("e")] if extra else [])
    links = [L("ab", "a", "b", 100 * dn, lanes=lanes[0], merge=p[0]), L("db", "d", "b", 100 * dn + lo, lanes=lanes[1], merge=p[1]),
             L("bc", "b", "c", 140 * dn, lanes=lanes[2])]
    if extra:
        links.append(L("eb", "e", "b", 80 * dn, merge=p[2] if len(p) > 2 else 1))
    return nodes, links


def families(tier):
    big = tier == "thorough"
    det = []
    pats = [p for p in itertools.product((0, 1, 2), repeat=3) if sum(p) >= 1]
    if not big:
        pats = [(1, 1, 1), (2, 1, 0), (2, 2, 2), (0, 2, 1)]
    for ax in product(dn=(1, 5), lanes=((1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 3), (3, 1, 2)), p=((1, 1), (2, 1), (1, 2), (0, 1), (0, 0), (0.5, 0.7)),
                      pa=pats, pb=pats, lo=(0, 9)):
        if not big and (ax["lo"] == 9) != (ax["dn"] == 5):
            continue
        dn = ax["dn"]
        nodes, links = merge_net(dn, ax["lanes"], ax["p"], lo=ax["lo"])
        det.append(scn(nodes, links, vehicles=platoons("a", "c", ax["pa"]) + platoons("d", "c", ax["pb"]), deltan=dn, tmax=34 * dn, duo_update_time=10000))
    # diverge: a blocked head holds back everyone behind it; a free head does not
    div = []
    seqs = list(itertools.product("ce", repeat=5 if not big else 7))
    for ax in product(dn=(1, 5), lanes=((1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 2)), cap=(None, 0, 0.1, 0.3), seq=seqs):
        dn = ax["dn"]
        nodes = [N("a"), N("b"), N("c"), N("e")]
        links = [L("ab", "a", "b", 90 * dn, lanes=ax["lanes"][0]), L("bc", "b", "c", 120 * dn, lanes=ax["lanes"][1], cap_in=ax["cap"]),
                 L("be", "b", "e", 120 * dn, lanes=ax["lanes"][2], u=10)]
        vs = [dict(o="a", d=("c" if x == "c" else "e"), ts=i // 2, route=["ab", "b" + x]) for i, x in enumerate(ax["seq"])]
        div.append(scn(nodes, links, vehicles=vs, deltan=dn, tmax=40 * dn, duo_update_time=10000))
    if not big:
        div = div[::2]
    # 2x2 crossing node
    cross = []
    for ax in product(dn=(1, 5), lanes=((1, 1, 1, 1), (2, 1, 1, 2), (2, 2, 2, 2), (3, 2, 1, 1)), p=((1, 1), (2, 1), (0, 3)), sa=itertools.product("ce", repeat=3), sb=itertools.product("ce", repeat=3), fc=(None, 0.4)):
        dn = ax["dn"]
        nodes = [N("a"), N("d"), N("b"), N("c"), N("e")]
        if ax["fc"]:
            nodes[2]["flow_capacity"] = ax["fc"]
        links = [L("ab", "a", "b", 100 * dn, lanes=ax["lanes"][0], merge=ax["p"][0]), L("db", "d", "b", 100 * dn, lanes=ax["lanes"][1], merge=ax["p"][1]),
                 L("bc", "b", "c", 120 * dn, lanes=ax["lanes"][2]), L("be", "b", "e", 120 * dn, lanes=ax["lanes"][3], u=10)]
        vs = [dict(o="a", d=x, ts=0, route=["ab", "b" + x]) for x in ax["sa"]] + [dict(o="d", d=x, ts=0, route=["db", "b" + x]) for x in ax["sb"]]
        cross.append(scn(nodes, links, vehicles=vs, deltan=dn, tmax=30 * dn, duo_update_time=10000))
    # exact lottery distribution
    dist = []
    nb = 4 if not big else 6
    for p, grid in (((1, 1), 2), ((1, 2), 3), ((3, 1), 4), ((0, 1), 2), ((0, 0), 2), ((2, 1), 3)):
        for na, nb_ in ((2, 2), (3, 1), (3, 3)) if not big else ((2, 2), (3, 1), (3, 3), (4, 3), (2, 4)):
            if grid == 4 and na + nb_ > 5 or grid == 3 and na + nb_ > 5:
                if not big:
                    continue
            nodes, links = merge_net(5, (1, 1, 1), p)
            for l in links[:2]:
                l["length"] = 500
            vs = platoons("a", "c", (1,) * na) + platoons("d", "c", (1,) * nb_)
            dist.append(dict(scn=scn(nodes, links, vehicles=vs, deltan=5, tmax=100, duo_update_time=10000, hard=False), grid=grid, live=[[1, 1]], cpp=grid ** (na + nb_) <= 5000))
    # out-link service order shuffle at a crossing with node capacity
    for na, nb_ in ((1, 1), (2, 1), (2, 2)):
        nodes = [N("a"), N("b", flow_capacity=0.4), N("c"), N("d"), N("e")]
        links = [L("ab", "a", "b", 500), L("db", "d", "b", 500), L("bc", "b", "c", 600), L("be", "b", "e", 600, u=10)]
        for sa in itertools.product("ce", repeat=na):
            for sb in itertools.product("ce", repeat=nb_):
                vs = [dict(o="a", d=x, ts=0, route=["ab", "b" + x]) for x in sa] + [dict(o="d", d=x, ts=0, route=["db", "b" + x]) for x in sb]
                dist.append(dict(scn=scn(nodes, links, vehicles=vs, deltan=5, tmax=100, duo_update_time=10000, hard=False), grid=2, live=[[1, 1]], cpp=True))
    # two-lane outlink, two-lane inlink lottery
    nodes, links = merge_net(5, (2, 2, 2), (1, 1))
    for l in links[:2]:
        l["length"] = 500
    dist.append(dict(scn=scn(nodes, links, vehicles=platoons("a", "c", (2,)) + platoons("d", "c", (2,)), deltan=5, tmax=75, duo_update_time=10000, hard=False), grid=2, live=[[1, 1]], cpp=True))
    for c in (det, div, cross):
        c += frac(c, 5 if big else 11)
    return [Family("merge", det, run_det, cpp=True, note="deterministic merge: priorities x lanes x arrival patterns"),
            Family("diverge", div, run_det, cpp=True, note="diverge with one blocked/limited branch: every destination sequence"),
            Family("crossing", cross, run_det, cpp=True, note="2x2 node: every destination sequence on both approaches"),
            Family("lottery", dist, run_dist, cpp=True, note="every random draw enumerated: exact outcome distribution of model, Python engine and C++ engine", timeout=300)]


RUNNER = ScriptedRunner("P05", "model_checking",
                "Every arrival pattern/destination sequence of the listed size x lanes x priorities (deterministic mode), and every outcome of every random draw "
                "(random mode) in the lottery family, compared as exact probability distributions with the reference model.",
                families, ["floating point tolerance 1e-6 (1e-9 on probabilities)", "C++ draws enumerated at a quantile grid on which the listed priorities are exact"])
