"""P02: car-following kinematics."""
import itertools
from mc.runner import Runner, Family
from mc.nets import *
from mc import conform as C, scenario as S


def law(W, o, scn, ctx, eng):
    """Newell law checked on the recorded trajectories, independently of the reference model."""
    w = scn["world"]
    dn, dt = w["deltan"], w["deltan"] * w.get("reaction_time", 1)
    ld = {l["name"]: l for l in scn["links"]}
    # per link: trajectory samples per vehicle {veh: {t: (x, v, lane)}} in entry order
    tr = {l: {} for l in ld}
    for n, v in o["veh"].items():
        for t, s, l, x, g, u, la in v["log"]:
            if s == "run":
                tr[l].setdefault(n, {})[round(t / dt)] = (x, u, la)
    for lname, vs in tr.items():
        p = ld[lname]
        lanes = p.get("lanes", 1)
        kap = p["kappa_lane"] * lanes if p.get("kappa_lane") else p.get("kappa", 0.2)
        gap = lanes / kap * dn
        u, length = p.get("u", 20), p["length"]
        ent = sorted(vs, key=lambda n: min(vs[n]))
        for n in ent:
            ts = sorted(vs[n])
            lane0 = vs[n][ts[0]][2]
            ctx.check(0 <= lane0 < lanes, f"{eng}:lane-range", f"lane {lane0} of {lanes} on {lname}")
            for a, b in zip(ts, ts[1:]):
                (x0, _, la0), (x1, v1, la1) = vs[n][a], vs[n][b]
                if b != a + 1:
                    ctx.fail(f"{eng}:gap-in-log", f"{n} on {lname} {a}->{b}")
                if la0 != la1:
                    ctx.fail(f"{eng}:lane-change", f"{n} on {lname} at {b}")
                if x1 < x0 - 1e-9:
                    ctx.fail(f"{eng}:backward", f"{n} {lname} {x0}->{x1}")
                if x1 - x0 > u * dt + 1e-9 or x1 > length + 1e-9 or x0 < -1e-9:
                    ctx.fail(f"{eng}:too-fast", f"{n} {lname} {x0}->{x1} at step {b}, limit {u*dt}, length {length}")
                if abs(v1 - (x1 - x0) / dt) > 1e-6:
                    ctx.fail(f"{eng}:speed", f"{n} {lname} logged {v1}, moved {(x1-x0)/dt}")
                # leader: the last one that entered the same lane before me and is still on the link
                lead = [m for m in ent if m != n and vs[m][min(vs[m])][2] == la0 and
                        (min(vs[m]), -vs[m][min(vs[m])][0]) < (ts[0], -vs[n][ts[0]][0])]
                if lead:
                    m = lead[-1]
                    if a in vs[m]:
                        # position right after my leader's previous update
                        lim = vs[m][a][0] - gap
                        want = min(x0 + u * dt, max(x0, lim), length)
                        if b in vs[m]:
                            if abs(x1 - want) > 1e-6:
                                ctx.fail(f"{eng}:newell", f"{n} behind {m} on {lname} at step {b}: moved to {x1}, law gives {want}")
                        elif x1 < want - 1e-6:
                            ctx.fail(f"{eng}:newell-slow", f"{n} behind departed {m} on {lname} at step {b}: {x1} < {want}")
                    elif abs(x1 - min(x0 + u * dt, length)) > 1e-6:
                        ctx.fail(f"{eng}:free", f"{n} alone on {lname} moved {x0}->{x1}")
                elif abs(x1 - min(x0 + u * dt, length)) > 1e-6:
                    ctx.fail(f"{eng}:free", f"{n} first on {lname} moved {x0}->{x1}, expected {min(x0 + u*dt, length)}")
        # spacing in a lane and first-in-first-out
        for la in range(lanes):
            q = [n for n in ent if vs[n][min(vs[n])][2] == la]
            for m, n in zip(q, q[1:]):
                for t in vs[n]:
                    if t in vs[m] and vs[m][t][0] - vs[n][t][0] < -1e-9:
                        ctx.fail(f"{eng}:overtake", f"{n} passes {m} on {lname} step {t}")
                if max(vs[n]) < max(vs[m]):
                    ctx.fail(f"{eng}:fifo", f"{n} leaves {lname} before {m}")


def run(case, ctx):
    C.conform(case, ctx, after=lambda W, o, m, cpp: law(W, o, case, ctx, "cpp" if cpp else "py"))


def families(tier):
    big = tier == "thorough"
    single = []
    pats = list(itertools.product(range(3), repeat=4 if not big else 5))
    if not big:
        pats = [p for p in pats if sum(p) >= 2]
    for ax in product(dn=(1, 5) if not big else (1, 2, 5), rt=(1,) if not big else (1, 0.5, 1.5), u=(20, 10), kl=((0.2, 1), (0.1, 1), (0.2, 2), (0.6, 3))):
        dt = ax["dn"] * ax["rt"]
        for length in (6 * ax["u"] * dt, 5.3 * ax["u"] * dt):
            nodes = [N("a"), N("b", 1000)]
            links = [L("ab", "a", "b", length, ax["u"], kappa=ax["kl"][0], lanes=ax["kl"][1])]
            for p in pats:
                if ax["dn"] != 1 and p[0] == 0:
                    continue
                single.append(scn(nodes, links, vehicles=platoons("a", "b", p), deltan=ax["dn"], reaction_time=ax["rt"],
                                  tmax=(22 + sum(p)) * dt, duo_update_time=1000))
    single = single[::1]
    chain = []
    for ax in product(dn=(1, 5) if not big else (1, 2, 5), u=((20, 20), (20, 10), (10, 20)), lanes=((1, 1), (2, 1), (1, 2), (2, 3), (3, 1)),
                      kap=((0.2, 0.2), (0.2, 0.1), (0.1, 0.2)), ci=(None, 0.5, 0.2), flow=(0.4, 1.0) if not big else (0.3, 0.6, 1.0, 1.7)):
        dt = ax["dn"]
        nodes, links = line(2, length=[10 * dt * 13 + 7, 10 * dt * 11 + 3], u=ax["u"], lanes=ax["lanes"], kappa=ax["kap"], cap_in=[None, ax["ci"]])
        chain.append(scn(nodes, links, demands=[["n0", "n2", 0, 16 * dt, ax["flow"]]], deltan=ax["dn"], tmax=60 * dt, duo_update_time=1000))
    three = []
    # stop-and-go: a signal in the middle makes queues form and dissolve
    for ax in product(dn=(1, 2), lanes=(1, 2, 3), sig=((6, 9), (4, 15), (15, 5)), off=(0, 5), u=((20, 20, 20), (20, 12, 16)), flow=(0.5, 1.1)):
        nodes, links = line(3, length=[130 * ax["dn"] + 11, 120 * ax["dn"] + 1, 90 * ax["dn"]], u=ax["u"], lanes=[ax["lanes"]] * 3)
        nodes[1].update(signal=[s * ax["dn"] for s in ax["sig"]], offset=ax["off"])
        nodes[2].update(signal=[s * ax["dn"] for s in reversed(ax["sig"])])
        three.append(scn(nodes, links, demands=[["n0", "n3", 0, 20 * ax["dn"], ax["flow"]]], deltan=ax["dn"], tmax=75 * ax["dn"], duo_update_time=1000))
    return [Family("single-link", single, run, cpp=True, note="one link x every departure pattern of up to 2 platoons per step"),
            Family("two-links", chain, run, cpp=True, note="speed/lane/density/capacity changes between two links"),
            Family("stop-and-go", three, run, cpp=True, note="queues formed and dissolved by signals on a three-link road")]


RUNNER = Runner("P02", "model_checking",
                "All listed parameter combinations x all departure patterns; each run is one trajectory set of both engines compared step by step "
                "with the reference transition system and with the car-following law; distinct = distinct observed trajectory sets.",
                families, ["hard deterministic mode (no random draw is reachable)", "floating-point tolerance 1e-6"])
