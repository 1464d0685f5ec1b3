"""P06: an execution that is cut into pieces in any way equals the uninterrupted execution."""
import itertools
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S
from mc.refsim import Model, Tie
from checks.p07 import queries


def whole(W):
    o = S.observe(W)
    o["time"] = [float(W.T), float(W.TIME)]
    o["sets"] = [sorted(W.VEHICLES), sorted(W.VEHICLES_LIVING), sorted(W.VEHICLES_RUNNING)]
    o["basic"] = [float(x) for x in W.analyzer.basic_to_pandas().iloc[0]]
    o["queries"] = queries(W, [0, W.TMAX / 2, W.TMAX])
    return o


_ref = {}


def ref(scn, cpp):
    k = (repr(scn), cpp)
    if k not in _ref:
        _ref.clear()
        W = S.build(scn, bool(cpp))
        r = W.exec_simulation()
        _ref[k] = (whole(W), r)
    return _ref[k]


def run(case, ctx):
    scn, cpp, cuts = case["scn"], case["cpp"], case["cuts"]
    full, r = ref(scn, cpp)
    ctx.check(r == 1, "full-run-return", f"uninterrupted run returned {r}")
    m = Model(scn, order="queue" if cpp else "id") if scn["world"].get("hard", True) else None
    W = S.build(scn, bool(cpp))
    dt = scn["world"]["deltan"] * scn["world"].get("reaction_time", 1)
    tsize = int(W.TMAX / W.DELTAT + 1e-9)
    T = 0
    ongoing_seen = 0
    for how, x in cuts:
        end = {"until_t": lambda: int(x / W.DELTAT + 1e-9) + 1, "duration_t2": lambda: T + int(x / W.DELTAT + 1e-9), "duration_t": lambda: T + int(x / W.DELTAT + 1e-9) + 1}[how]()
        end = min(end, tsize)
        if T >= tsize:
            break
        r = W.exec_simulation(**{how: x})
        ctx.transitions += 1
        T = max(T, end)
        ctx.check(W.T == T and abs(W.TIME - T * W.DELTAT) < 1e-9, "clock", f"after {how}={x}: T={W.T} TIME={W.TIME}, {T} steps should have been executed")
        ctx.check(r == (1 if T >= tsize else 0), "return", f"after {how}={x} at step {T} of {tsize} returned {r}")
        ctx.check(bool(W.check_simulation_ongoing()) == (T < tsize), "ongoing", f"check_simulation_ongoing wrong at step {T} of {tsize}")
        if m is not None:
            while m.T < T:
                m.step()
                ctx.states.add(hash(m.state_key()))
            for v in m.vehs:
                w = W.VEHICLES[v.name]
                a = (v.state, v.link.name if v.state == "run" else None, v.x if v.state == "run" else None)
                b = (str(w.state), w.link.name if w.link else None, float(w.x) if str(w.state) == "run" else None)
                d = S.diff(list(a), list(b))
                ctx.check(d is None, "intermediate-state", lambda: f"vehicle {v.name} after step {T}: {b}, model {a}")
    if T < tsize:
        r = W.exec_simulation()
        ctx.check(r == 1, "return", f"final run returned {r}")
    got = whole(W)
    for k in full:
        d = S.diff(full[k], got[k], k)
        ctx.check(d is None, f"split-differs:{k}", f"uninterrupted vs split: {d}")
    # executing a finished simulation changes nothing
    r = W.exec_simulation()
    d = S.diff(full["veh"], S.observe(W)["veh"])
    ctx.check(r == 1 and d is None and W.T == tsize, "exec-after-end", f"{r} {d} T={W.T}")
    ctx.outcome((S.key(got["veh"]), tuple(map(tuple, cuts))))
    ctx.traces += 1


def nets(dn, rt, **kw):
    dt = dn * rt
    nodes = [N("o"), N("m", 50, 50, signal=[7 * dt, 5 * dt]), N("k", 50, -50), N("d", 100, 0)]
    links = [L("om", "o", "m", 101 * dt), L("md", "m", "d", 97 * dt), L("ok", "o", "k", 140 * dt), L("kd", "k", "d", 99 * dt, merge=2), L("mk", "m", "k", 47 * dt, cap_out=0.4)]
    return scn(nodes, links, demands=[["o", "d", 0, 22 * dt, 0.9 / rt], ["m", "d", 2 * dt, 16 * dt, 0.3]], deltan=dn, reaction_time=rt, tmax=40 * dt, duo_update_time=9 * dt, **kw)


def families(tier):
    big = tier == "thorough"
    cases = []
    # every set of cut points with at most k cuts on the step grid, duration_t2 / until_t
    variants = [(1, 1, {}), (5, 1, {}), (2, 1.3, {}), (1, 1, dict(gradual=True, no_cyclic=True)), (1, 1, dict(hard=False, duo_noise=0.01, seed=3))]
    for dn, rt, kw in variants:
        scn_ = nets(dn, rt, **kw)
        dt = dn * rt
        for cpp in (0, 1):
            for a in range(1, 40, 1 if big else 2):
                cases.append(dict(scn=scn_, cpp=cpp, cuts=[["duration_t2", a * dt]]))
                cases.append(dict(scn=scn_, cpp=cpp, cuts=[["until_t", a * dt]]))
            for a, b in itertools.combinations(range(1, 40, 2 if big else 5), 2):
                cases.append(dict(scn=scn_, cpp=cpp, cuts=[["duration_t2", (a + 0.01) * dt], ["duration_t2", (b - a + 0.01) * dt]]))
            # every sequence of stop kinds up to depth d
            kinds = [("duration_t2", 1.01), ("duration_t2", 6.5), ("duration_t", 3.2), ("duration_t", 0), ("until_t", None)]
            for seq in itertools.product(range(5), repeat=4 if big else 3):
                T, cuts = 0, []
                for k in seq:
                    how, x = kinds[k]
                    if how == "until_t":
                        x = T + 2.3
                        T = int(x) + 1
                    elif how == "duration_t2":
                        T += int(x)
                    else:
                        T += int(x) + 1
                    cuts.append([how, x * dt])
                cases.append(dict(scn=scn_, cpp=cpp, cuts=cuts))
            # one step at a time
            cases.append(dict(scn=scn_, cpp=cpp, cuts=[["duration_t2", 1.01 * dt]] * 45))
            cases.append(dict(scn=scn_, cpp=cpp, cuts=[["duration_t", 0]] * 45))
    return [Family("splits", cases, run, cpp=True, note="every placement of one and two stops, every sequence of stop kinds, single steps; deterministic and seeded stochastic runs, both engines")]


RUNNER = Runner("P06", "model_checking",
                "One case = scenario x engine x execution schedule; all schedules of the bounds above. Non-trivial: distinct (vehicle histories, schedule).",
                families, ["stops are placed slightly after the step boundary so that the integer truncation of the requested time is unambiguous"])
