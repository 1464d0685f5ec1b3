"""P12: link state queries agree with what vehicles actually did, at every moment of a run."""
import itertools, math
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from mc.refsim import Model, Tie
from mc.runner import h64
from checks.p06 import nets


def at(arr, t, dt):
    return arr[min(max(math.floor(t / dt + 1e-9), 0), len(arr) - 1)]


class Ref:
    """definitions of the queries, from the reference run (entry/exit events of each vehicle)"""

    def __init__(self, m, T):
        self.m, self.T = m, T

    def link(self, name):
        return self.m.ld[name]


def expect(m, l, ts, pairs):
    dt, dn = m.dt, m.dn
    q = {}
    for t in ts:
        a, d = at(l.ca, t, dt), at(l.cd, t, dt)
        itt = at(l.tt_inst, t, dt)
        q[f"arrival_count({t})"] = a
        q[f"departure_count({t})"] = d
        q[f"num_vehicles_t({t})"] = a - d
        q[f"average_density({t})"] = (a - d) / l.len
        q[f"instant_travel_time({t})"] = itt
        q[f"actual_travel_time({t})"] = at(l.tt_act, t, dt)
        q[f"average_speed({t})"] = l.len / itt
        q[f"average_flow({t})"] = l.len / itt * (a - d) / l.len
    # entries of vehicles into the link
    ent = []
    for v in m.vehs:
        for t, n in v.tlink:
            if n == l.name:
                ent.append(t)
    for t0, t1 in pairs:
        q[f"inflow_between({t0},{t1})"] = (at(l.ca, t1, dt) - at(l.ca, t0, dt)) / (t1 - t0)
        xs = sorted({t for t in ent if t0 <= t < t1})
        q[f"average_travel_time_between({t0},{t1})"] = sum(at(l.tt_act, t, dt) for t in xs) / len(xs) if xs else l.len / l.u
    n = len(l.vehs)
    sp = sum(v.v for v in l.vehs) / n if n else l.u
    q["speed"], q["num_vehicles"], q["density"], q["flow"] = sp, n * dn, n * dn / l.len, n * dn / l.len * sp
    q["num_vehicles_queue"] = sum(1 for v in l.vehs if v.v < l.u - 1e-9) * dn
    return q


def ask(l, ts, pairs, props_first):
    q = {}

    def props():
        for p in ("speed", "num_vehicles", "density", "flow", "num_vehicles_queue"):
            q[p] = float(getattr(l, p))
    if props_first:
        props()
    for t in ts:
        for f in ("arrival_count", "departure_count", "num_vehicles_t", "average_density", "instant_travel_time", "actual_travel_time", "average_speed", "average_flow"):
            q[f"{f}({t})"] = float(getattr(l, f)(t))
    for t0, t1 in pairs:
        q[f"inflow_between({t0},{t1})"] = float(l.inflow_between(t0, t1))
        q[f"average_travel_time_between({t0},{t1})"] = float(l.average_travel_time_between(t0, t1))
    if not props_first:
        props()
    return q


def meaning(m, l, W, lk, ctx, who):
    """actual travel time = what vehicles that entered then really needed (all exits seen so far)"""
    seen = {}
    for v in m.vehs:
        tl = v.tlink
        for i, (t, n) in enumerate(tl):
            if n == l.name and i + 1 < len(tl):
                out = tl[i + 1][0] + (m.dt if tl[i + 1][1] == "end" else 0)
                seen.setdefault(t, []).append(out - t)
    for t, xs in seen.items():
        got = float(lk.actual_travel_time(t + 0.01 * m.dt))
        ctx.check(any(abs(got - x) < 1e-6 for x in xs), f"{who}:actual-meaning", lambda: f"{who} link {l.name}: vehicles entering at {t} needed {xs}, actual_travel_time says {got}")


def run(case, ctx):
    scn, cpp, stops = case["scn"], case["cpp"], case["stops"]
    who = "cpp" if cpp else "py"
    m = Model(scn, order="queue" if cpp else "id")
    W = S.build(scn, bool(cpp))
    dt = m.dt
    T = 0
    for s in stops:
        k = min(T + s, m.tsize)
        if k == T:
            break
        W.exec_simulation(duration_t2=(k - T + 0.01) * dt)
        T = k
        while m.T < T:
            m.step()
            ctx.state(m.state_key())
            ctx.transitions += 1
        ts0 = [-3, 0.3 * dt, (T / 2 + 0.4) * dt, (T - 1 + 0.5) * dt, (T + 0.5) * dt, (m.tsize + 5.5) * dt, 0, (T // 2) * dt, (T - 1) * dt, T * dt]
        pairs0 = [(0, (T + 1) * dt), (0.5 * dt, (T / 2 + 0.25) * dt), ((T / 3 + 0.4) * dt, (T + 3.5) * dt), (m.tsize * dt * 2, m.tsize * dt * 3)]
        for l in m.links:
            lk = W.get_link(l.name)
            # exactly the moments at which vehicles entered and left
            ent = sorted({t for v in m.vehs for t, n in v.tlink if n == l.name})
            out = sorted({v.tlink[i + 1][0] for v in m.vehs for i in range(len(v.tlink) - 1) if v.tlink[i][1] == l.name})
            ts = ts0 + ent[-3:] + ent[:2] + out[-2:]
            pairs = pairs0 + [(a, b) for k, a in enumerate(ent[-4:]) for b in ent[-4:][k + 1:]] + [(a, b) for a in ent[:1] for b in out[:1] + out[-1:] if b > a]
            got = ask(lk, ts, pairs, case["first"])
            d = S.diff(expect(m, l, ts, pairs), got)
            ctx.check(d is None, f"{who}:query:{d.split('(')[0].split(':')[0] if d else ''}", lambda: f"{who} link {l.name} after {T} of {m.tsize} steps: {d} (definition vs reported)")
            meaning(m, l, W, lk, ctx, who)
        ctx.outcome((T, S.key({v.name: (v.state, v.x) for v in m.vehs})))
    ctx.traces += 1


def families(tier):
    big = tier == "thorough"
    cases = []
    for dn, rt, kw in ((1, 1, {}), (5, 1, {}), (2, 1.3, {}), (1, 0.1, {}), (3, 0.7, {}), (1, 2, dict(gradual=True)), (5, 1, dict(ittint=1)), (1, 1, dict(ittint=3))):
        for cpp in (0, 1):
            for first in (0, 1):
                sc = nets(dn, rt, **kw)
                cases.append(dict(scn=sc, cpp=cpp, stops=[1] * 45, first=first))
                for a in range(1, 40, 1 if big else 4):
                    cases.append(dict(scn=sc, cpp=cpp, stops=[a, 1, 2, 50], first=first))
            for j, cap in enumerate((0.1, 0.3)):
                nodes, links = line(3, length=[200 * dn * rt, 120 * dn * rt, 300 * dn * rt], cap_out=[None, cap, None], u=[20, 12, 25], lanes=[1, 1, 1])
                for co in ((1, 0, 2, 1, 0, 0, 3), (2, 2, 2, 2), (0, 0, 0, 1)):
                    sc = scn(nodes, links, vehicles=platoons("n0", "n3", co) + platoons("n1", "n2", (1, 0, 1)), deltan=dn, reaction_time=rt, tmax=60 * dn * rt, **kw)
                    cases.append(dict(scn=sc, cpp=cpp, stops=[1] * 70, first=j))
                    cases.append(dict(scn=sc, cpp=cpp, stops=[100], first=j))
    return [Family("queries", cases, run, cpp=True, note="every query of every link after every step (and for every single stop) against its definition on the reference run")]


RUNNER = Runner("P12", "model_checking",
                "Scenario x engine x stop schedule (including every single step); distinct = distinct (time, vehicle states).",
                families, ["query instants: inside time steps, exactly on steps (including the recorded entry and exit times), before the start and after the end", "single-lane links"])
