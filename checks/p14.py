"""P14: report tables summarize exactly what happened so far, at every moment of a run."""
import math
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from mc.refsim import Model, Tie
from checks.p13 import rows, goto

NAN = math.nan
PRIMES = [101, 139, 173, 211, 251, 293]


def mean(a):
    return sum(a) / len(a)


def std(a):
    m = mean(a)
    return math.sqrt(mean([(x - m) ** 2 for x in a]))


def shortest(m, cost):
    """all-pairs shortest distances over links open for entry"""
    n = len(m.nodes)
    d = [[0 if i == j else math.inf for j in range(n)] for i in range(n)]
    for l in m.links:
        if l.cin != 0 and l.a is not l.b:
            d[l.a.i][l.b.i] = min(d[l.a.i][l.b.i], cost(l))
    for k in range(n):
        for i in range(n):
            for j in range(n):
                d[i][j] = min(d[i][j], d[i][k] + d[k][j])
    return d


def div(a, b):
    return a / b if b else NAN


def expected(m, areas, groups):
    o = {}
    dn = m.dn
    ft, sd = shortest(m, lambda l: l.len / l.u), shortest(m, lambda l: l.len)
    ods = list(dict.fromkeys((v.o.name, v.d.name) for v in m.vehs))
    od = []
    for a, b in ods:
        vs = [v for v in m.vehs if (v.o.name, v.d.name) == (a, b)]
        tt = [v.tt for v in vs if v.state == "end"]
        ds = [v.dist for v in vs]
        i, j = m.nd[a].i, m.nd[b].i
        od.append([a, b, dn * len(vs), dn * len(tt), ft[i][j], mean(tt) if tt else 0, std(tt) if tt else 0, sd[i][j], mean(ds), std(ds)])
    o["od"] = od
    ended = [v for v in m.vehs if v.state == "end"]
    n = dn * len(ended)
    if ended:
        ttt = dn * sum(v.tt for v in ended)
        dl = dn * sum(v.tt - ft[v.o.i][v.d.i] for v in ended)
        o["basic"] = [[dn * len(m.vehs), n, ttt, ttt / n, dl, dl / n]]
    else:
        o["basic"] = [[dn * len(m.vehs), 0, -1, -1, -1, -1]]
    o["distance"] = dn * sum(v.dist for v in m.vehs)
    sp = [0 if r[1] == "wait" else r[5] for v in m.vehs for r in v.log if r[1] in ("wait", "run")]
    o["average_speed"] = mean(sp) if sp else 0
    lk = []
    for l in m.links:
        dep, rem = (l.cd[-1], l.ca[-1] - l.cd[-1]) if l.cd else (0, 0)
        at = mean(l.tt_act) if dep else -1
        lk.append([l.name, l.a.name, l.b.name, dep, rem, l.len / l.u, at, std(l.tt_act) if dep else -1, at / (l.len / l.u), l.len])
    o["link"] = lk
    o["cumulative"] = [[l.name, k * m.dt, l.ca[k], l.cd[k], l.tt_act[k], l.tt_inst[k]] for l in m.links for k in range(m.T)]
    # areas
    ar, aa = [], []
    for border in (True, False):
        for names in areas:
            ls = [r for l, r in zip(m.links, lk) if ((l.a.name in names or l.b.name in names) if border else (l.a.name in names and l.b.name in names))]
            ln = {r[0] for r in ls}
            vol = dn * sum(1 for v in m.vehs if any(r[2] in ln for r in v.log))
            if vol:
                ttt, free, dist = (sum(r[3] * x for r, x in zip(ls, xs)) for xs in ([r[6] for r in ls], [r[5] for r in ls], [r[9] for r in ls]))
                dl = div(ttt, free) - 1
                ar.append([len(ls), vol, sum(r[4] for r in ls), ttt, max(dl, 0) if dl == dl else NAN, dist / ttt if ttt > 0 else NAN, vol / sum(r[9] for r in ls)])
            else:
                ar.append([len(ls), 0, sum(r[4] for r in ls), 0, NAN, NAN, NAN])
    o["area"] = ar
    for i, A in enumerate(areas):
        for j, B in enumerate(areas):
            rs = [r for r in od if r[0] in A and r[1] in B]
            tot, comp = sum(r[2] for r in rs), sum(r[3] for r in rs)
            if not tot:
                continue
            aa.append([f"A{i}", f"A{j}", tot, comp, div(sum(r[3] * r[5] for r in rs), comp), div(sum(r[3] * r[4] for r in rs if r[3]), comp),
                       sum(r[2] * r[8] for r in rs) / tot if comp else NAN, sum(r[2] * r[7] for r in rs) / tot])
    o["areas2areas"] = aa
    gr = []
    for g in groups:
        vs = [m.vd[x] for x in g]
        e = [v for v in vs if v.state == "end"]
        cols = [[v.tt for v in e], [div(v.tt, ft[v.o.i][v.d.i]) for v in e], None, [v.dist for v in e], [div(v.dist, sd[v.o.i][v.d.i]) for v in e], None, [div(v.dist, v.tt) for v in e], None]
        row = [len(vs), len(e)]
        for k, c in enumerate(cols):
            f, c = (std, cols[k - 1]) if c is None else (mean, c)
            row.append(f(c) if e else NAN)
        gr.append(row)
    o["groups"] = gr
    return o


def actual(W, areas, groups):
    a = W.analyzer
    o = {"od": rows(a.od_to_pandas())}
    a.basic_analysis()
    o["basic"] = rows(a.basic_to_pandas())
    o["distance"] = float(a.total_distance_traveled)
    o["average_speed"] = float(a.average_speed)
    o["link"] = rows(a.link_to_pandas())
    o["cumulative"] = rows(a.link_cumulative_to_pandas())
    ar = []
    for b in (True, False):
        df = a.area_to_pandas([list(x) for x in areas], [f"A{i}" for i in range(len(areas))], border_include=b)
        ar += [r[1:] for r in rows(df)]
    o["area"] = ar
    o["areas2areas"] = rows(a.areas2areas_to_pandas([list(x) for x in areas], [f"A{i}" for i in range(len(areas))]))
    gs = [[W.VEHICLES[x] for x in g] for g in groups]
    o["groups"] = [r[1:] for r in rows(a.vehicle_groups_to_pandas(gs))]
    return o


def compare(ctx, m, W, areas, groups, where):
    exp, got = expected(m, areas, groups), actual(W, areas, groups)
    for k in exp:
        d = S.diff(exp[k], got[k], k)
        if d:
            ctx.fail(f"table:{k}", f"{where}: expected vs report {d}")
            return False
    return True


def run(case, ctx):
    """reads all tables after every `every`-th step and at the end"""
    scn, every = case["scn"], case["every"]
    areas = case["areas"]
    for cpp in case.get("cpps", (0, 1)):
        try:
            m = Model(scn, order="queue" if cpp else "id")
            groups = case.get("groups") or [[v.name for v in m.vehs]]
            if not m.vehs:
                return
            W = S.build(scn, bool(cpp))
            eng = "C++" if cpp else "Python"
            while m.T < m.tsize:
                m.step()
                ctx.states.add(hash(m.state_key()))
                ctx.transitions += 1
                if m.T == m.tsize or m.T % every == 0:
                    goto(W, m.T)
                    if m.T == m.tsize:
                        d = S.diff(expected(m, areas, groups)["basic"], rows(W.analyzer.basic_to_pandas()), "basic")
                        ctx.check(d is None, "table:basic", f"{eng}, at the end: {d}")
                    if not compare(ctx, m, W, areas, groups, f"{eng} after {m.T} of {m.tsize} steps"):
                        return
        except Tie:
            ctx.skipped += 1
            return
        ctx.traces += 1
    ctx.outcome(S.key(rows(W.analyzer.od_to_pandas()) + rows(W.analyzer.link_to_pandas())))


def families(tier):
    big = tier == "thorough"
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    A3 = [["n0"], ["n1", "n2"], ["n0", "n1", "n2"]]
    dig = []
    for mask in range(1, 64):
        es = [p for k, p in enumerate(pairs) if mask >> k & 1]
        for dn, flow in ((1, 0.3), (5, 0.35)):
            for ab in (1, 0):
                if not big and ab == 0 and dn == 5:
                    continue
                nodes = [N(f"n{i}", i * 100, (i % 2) * 50) for i in range(3)]
                links = [L(f"l{a}{b}", f"n{a}", f"n{b}", PRIMES[k] * dn / 2, 20 if (a + b) % 2 else 13) for k, (a, b) in enumerate(es)]
                srcs = {a for a, b in es}
                vehs = [dict(o=f"n{a}", d=f"n{b}", ts=t, trip_abort=ab) for a, b in pairs if a in srcs for t in range(1, 12, 4)]
                groups = [[str(i) for i in range(len(vehs))], [str(i) for i in range(0, len(vehs), 2)], ["0"]]
                dig.append(dict(scn=scn(nodes, links, vehicles=vehs, deltan=dn, tmax=40 * dn, duo_update_time=7 * dn), every=5, areas=A3, groups=groups))
    par = []
    for ax in product(dn=(1, 5), two=((90, 20), (150, 30), (90, 10)), shut=(False, True), lanes=(1, 2), pat=((1, 2), (3, 0, 3), (0, 1, 1, 1))):
        dn = ax["dn"]
        ln, u = ax["two"]
        nodes = [N("a"), N("b", 100, 0), N("c", 200, 0), N("e", 200, 90)]
        links = [L("p", "a", "b", 120 * dn, 20), L("q", "a", "b", ln * dn, u), L("bc", "b", "c", 77 * dn, lanes=ax["lanes"], cap_out=0.5), L("be", "b", "e", 41 * dn),
                 L("ec", "e", "c", 30 * dn, cap_in=0 if ax["shut"] else 0.8)]
        vehs = platoons("a", "c", ax["pat"]) + platoons("b", "e", [1]) + platoons("e", "a", [1])
        par.append(dict(scn=scn(nodes, links, vehicles=vehs, deltan=dn, tmax=30 * dn, duo_update_time=6 * dn), every=1 if big else 4, areas=[["a", "b"], ["b", "c", "e"], ["e"]],
                        groups=[[str(i) for i in range(len(vehs))], [str(len(vehs) - 1)]]))
    lin = []
    for pat in itertools.product((0, 1, 2, 3), repeat=3 if not big else 4):
        if not sum(pat):
            continue
        for dn, rt, co in ((1, 1, None), (5, 1, 0.3), (2, 1.5, 0.4)):
            dt = dn * rt
            nodes, links = line(3, length=[55 * dt, 70 * dt, 35 * dt], u=[20, 15, 10], cap_out=[None, co, None])
            lin.append(dict(scn=scn(nodes, links, vehicles=platoons("n0", "n3", pat) + platoons("n1", "n3", [1, 1]) + platoons("n0", "n2", [1], start=3), deltan=dn, reaction_time=rt, tmax=24 * dt, duo_update_time=5 * dt),
                            every=1 if big else 3, areas=[["n0", "n1"], ["n2", "n3"], ["n1", "n2"]], groups=[["0"], ["0", "1", "2"]]))
    return [Family("digraphs", dig, run, cpp=True, note="every digraph on three nodes, trips between all pairs (also unreachable ones)"),
            Family("parallel", par, run, cpp=True, note="parallel links of different speed, closed links, lanes"),
            Family("lines", lin, run, cpp=True, note="all departure patterns on a line with bottleneck, fractional time steps")]


RUNNER = Runner("P14", "model_checking",
                "Every digraph on three nodes, parallel/closed link grids and all departure patterns of the bound, both engines; all summary tables read repeatedly during the run and compared with sums over the "
                "reference transition system's history; distinct = distinct final reports.",
                families, ["standard deviations between areas are documented as approximate and not checked", "floating point tolerance 1e-6"])
