"""P15: aggregated traffic states (Edie's definition) and network averages equal the integral over all vehicle trajectories."""
import math
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from mc.refsim import Model, Tie
from checks.p13 import rows, goto


def trajectories(m, l):
    """per visit of the link: list of (t, x), extended to the link ends in free flow as documented"""
    out = []
    for v in m.vehs:
        cur = None
        for r in v.log:
            if r[2] == l.name:
                if cur is None:
                    cur = []
                    out.append(cur)
                cur.append((r[0], r[3]))
            elif r[2] != -1:
                cur = None
    for c in out:
        t, x = c[0]
        if x / l.u > 0.01 * m.dt:
            c.insert(0, (t - x / l.u, 0))
        t, x = c[-1]
        rem = l.len - x
        if l.len - l.u * m.dt <= x < l.len and rem / l.u > 0.01 * m.dt:
            c.append((t + rem / l.u, l.len))
    return out


def cells(m, l, dx, dtE, nt):
    nx = int(l.len / dx)
    tn = [[0.0] * nx for _ in range(nt)]
    dn = [[0.0] * nx for _ in range(nt)]
    for c in trajectories(m, l):
        for (t0, x0), (t1, x1) in zip(c, c[1:]):
            i = math.floor(t0 / dtE + 1e-9)
            if i >= nt:
                continue
            if x1 == x0:
                j = math.floor(x0 / dx + 1e-9)
                if j < nx:
                    tn[i][j] += t1 - t0
                continue
            for j in range(nx):
                a, b = max(x0, j * dx), min(x1, (j + 1) * dx)
                if b > a:
                    dn[i][j] += b - a
                    tn[i][j] += (b - a) / (x1 - x0) * (t1 - t0)
    return [[x * m.dn for x in r] for r in tn], [[x * m.dn for x in r] for r in dn]


def expected(m, scn, dtE, subsets):
    nt = int(m.tmax / dtE)
    state, per = [], {}
    for l, s in zip(m.links, scn["links"]):
        dx = s.get("eular_dx") or max(l.len / 10, l.u * m.dt)
        tn, dn = cells(m, l, dx, dtE, nt)
        per[l.name] = (tn, dn, dx)
        for i in range(nt):
            for j in range(len(tn[i])):
                k, q = tn[i][j] / dtE / dx, dn[i][j] / dtE / dx
                state.append([l.name, i * dtE, j * dx, dtE, dx, q, k, q / k if k else l.u])
    mfd = []
    for sub in subsets:
        for i in range(nt):
            area = sum(per[n][2] * len(per[n][0][i]) * dtE for n in sub)
            mfd.append([i * dtE, sum(sum(per[n][0][i]) for n in sub) / area if area else 0, sum(sum(per[n][1][i]) for n in sub) / area if area else 0])
    return dict(state=state, mfd=mfd)


def stopped_at_border(m, scn):
    """a vehicle standing exactly on a cell border belongs to either cell: excluded"""
    for l, s in zip(m.links, scn["links"]):
        dx = s.get("eular_dx") or max(l.len / 10, l.u * m.dt)
        for c in trajectories(m, l):
            for (t0, x0), (t1, x1) in zip(c, c[1:]):
                if x0 == x1 and 0 < x0 and abs(x0 / dx - round(x0 / dx)) < 1e-6:
                    return True
    return False


def actual(W, subsets, form):
    a = W.analyzer
    mfd = []
    for i, sub in enumerate(subsets):
        arg = list(sub) if (i + form) % 2 else [W.get_link(x) for x in sub]
        mfd += rows(a.mfd_to_pandas(links=arg if i else None))
    return dict(state=rows(a.link_traffic_state_to_pandas()), mfd=mfd)


def run(case, ctx):
    scn, every = case["scn"], case["every"]
    dtE = scn["world"]["eular_dt"]
    names = [l["name"] for l in scn["links"]]
    subsets = [names, names[:1], names[1:]] if len(names) > 1 else [names]
    for cpp in (0, 1):
        try:
            m = Model(scn, order="queue" if cpp else "id")
            W = S.build(scn, bool(cpp))
            eng = "C++" if cpp else "Python"
            while m.T < m.tsize:
                m.step()
                ctx.states.add(hash(m.state_key()))
                ctx.transitions += 1
                if m.T == m.tsize or m.T % every == 0:
                    goto(W, m.T)
                    if stopped_at_border(m, scn):
                        ctx.skipped += 1
                        return
                    exp, got = expected(m, scn, dtE, subsets), actual(W, subsets, m.T)
                    for a, b in zip(exp["state"], got["state"]):
                        if abs(a[6]) < 1e-9 and abs(b[6]) < 1e-9:
                            b[7] = a[7]     # the speed in a cell that a vehicle merely touches at its border is rounding noise
                    for k in exp:
                        d = S.diff(exp[k], got[k], k)
                        if d:
                            ctx.fail(f"{k}", f"{eng} after {m.T} of {m.tsize} steps: trajectories vs report {d}")
                            return
        except Tie:
            ctx.skipped += 1
            return
        ctx.traces += 1
    ctx.outcome(S.key(exp["mfd"]))


def families(tier):
    big = tier == "thorough"
    lin = []
    for pat in itertools.product((0, 1, 2, 3), repeat=3 if not big else 4):
        if not sum(pat):
            continue
        for dn, rt, co, lanes in ((1, 1, 0.35, 1), (5, 1, 0.3, 1), (2, 1.5, None, 1), (1, 1, 0.7, 2), (3, 1, 0.2, 3)):
            dt = dn * rt
            nodes, links = line(2, length=[173 * dt, 91 * dt], u=[20, 13], cap_out=[co, None], lanes=[lanes, 1])
            lin.append(dict(scn=scn(nodes, links, vehicles=platoons("n0", "n2", pat) + platoons("n1", "n2", [1, 1]), deltan=dn, reaction_time=rt, tmax=32 * dt, duo_update_time=5 * dt, eular_dt=7 * dt),
                            every=1000 if not big else 5))
    par = []
    for ax in product(dn=(1, 5), ledt=(3, 5, 10), n=(57, 60, 83, 200), dx=(None, 3.7, 20, 31.7), red=(False, True)):
        dn = ax["dn"]
        nodes = [N("a"), N("b", 100, 0), N("c", 200, 0)]
        if ax["red"]:
            nodes[1]["signal"] = [4 * dn, 9 * dn]
        links = [L("ab", "a", "b", ax["n"] * dn, eular_dx=ax["dx"] and ax["dx"] * dn), L("bc", "b", "c", 77 * dn, cap_in=0.4), L("ba", "b", "a", 21 * dn, eular_dx=None)]
        par.append(dict(scn=scn(nodes, links, vehicles=platoons("a", "c", [2, 1, 1, 0, 2]) + platoons("b", "c", [1]), deltan=dn, tmax=35 * dn, duo_update_time=6 * dn, eular_dt=ax["ledt"] * dn),
                        every=4 if not big else 1))
    return [Family("patterns", lin, run, cpp=True, note="all departure patterns; lanes, bottlenecks, fractional steps"),
            Family("cells", par, run, cpp=True, note="cell sizes in time and space, also not dividing the link or the horizon; read repeatedly during the run")]


RUNNER = Runner("P15", "model_checking",
                "All departure patterns of the bound and a grid of cell sizes, both engines; every cell of every table, at the end and during the run, compared with the exact integral over the reference "
                "transition system's trajectories; distinct = distinct network-average series.",
                families, ["a trajectory segment belongs to the time interval in which it starts, link ends are extrapolated in free flow (as documented)",
                           "cases with a vehicle standing exactly on a cell border are skipped", "floating point tolerance 1e-6"])
