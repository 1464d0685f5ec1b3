"""Reference model of the traffic dynamics, written from the documentation (kinematic-wave /
Newell car-following links, incremental node model, dynamic user optimum) and kept boring.
It is an explicit transition system: one call of step() is one transition; every source of
nondeterminism goes through `pick`."""
import math

HUGE = 10e10
INF = float("inf")


class Tie(Exception):
    """Shortest-path tie: next-hop is then an implementation choice, outside the model."""


class RouteError(Exception):
    """the specified route / link restrictions cannot be followed: the engines must raise"""


class MLink:
    pass


class MNode:
    pass


class MVeh:
    pass


def first(options, weights):
    """hard deterministic rule: highest weight, first among equals"""
    b = 0
    for i in range(1, len(options)):
        if weights[i] > weights[b]:
            b = i
    return b


class Model:
    def __init__(m, scn, pick=None, perm=None, order="id"):
        w = scn["world"]
        m.scn = scn
        m.dn = w.get("deltan", 1)
        m.tau0 = w.get("reaction_time", 1)
        m.dt = m.dn * m.tau0
        m.duo_time = w.get("duo_update_time", 600)
        m.duo_w = w.get("duo_update_weight", 0.5)
        m.kroute = max(1, int(m.duo_time / m.dt + 1e-9))
        m.kinst = min(w.get("ittint", 5), m.kroute)
        m.tmax = w["tmax"]
        m.tsize = int(m.tmax / m.dt + 1e-9)
        m.hard = w.get("hard", True)
        m.gradual = w.get("gradual", False)
        m.nocyc = w.get("no_cyclic", False)
        m.logint = w.get("logint", 1)
        m.noise = w.get("duo_noise", 0)
        m.unif = None      # unif(low, high): draw of the route-cost perturbation (random mode only)
        m.pick = pick      # pick(options, weights)->index   (None => hard rule)
        m.perm = perm      # perm(list)->list                (None => identity)
        # within-step service order of running vehicles: "id" (creation order) or "queue"
        # (front of each link first).  Only observable on multi-lane links, by at most one step.
        m.order = order
        m.T = 0
        m.nodes = []
        m.nd = {}
        m.links = []
        m.ld = {}
        m.vehs = []
        m.vd = {}
        m.max_dist_record = {}
        m.tie_on = scn.get("tie_check", True)
        for n in scn["nodes"]:
            m.add_node(n)
        for l in scn["links"]:
            m.add_link(l)
        if w.get("adjust_node_capacity"):
            for n in m.nodes:
                if n.fc is None and n.inl and n.outl:
                    n.fc = (max(l.cap for l in n.inl) + max(l.cap for l in n.outl)) / 2
                    n.fcr = n.fc * m.dt
                    if n.lanes is None:
                        n.lanes = math.ceil(n.fc / 0.8)
        for d in scn.get("demands", []):
            m.demand(*d)
        for v in scn.get("vehicles", []):
            m.add_veh(v)
        N, L = len(m.nodes), len(m.links)
        m.pref = [[0.0] * L for _ in range(N)]
        m.adj_pairs = {}
        for l in m.links:
            m.adj_pairs.setdefault((l.a.i, l.b.i), []).append(l)
        for l in m.links:
            l.tt_act = [l.len / l.u] * m.tsize
        m.dist = None
        m.nexts = None
        m.trans_count = 0

    # ---------------------------------------------------------------- construction
    def add_node(m, n):
        o = MNode()
        o.i = len(m.nodes)
        o.name = n["name"]
        o.sig = list(n.get("signal", [0]))
        off = n.get("offset", 0)
        o.phase, o.st = 0, 0
        if o.sig != [0]:
            o.phase, o.st = signal_initial(o.sig, off)
        o.fc = n.get("flow_capacity")
        o.lanes = None
        if o.fc is not None:
            o.lanes = n.get("number_of_lanes")
            if o.lanes is None:
                o.lanes = math.ceil(o.fc / 0.8)
            o.fcr = o.fc * m.dt
        else:
            o.fcr = HUGE
        o.inl, o.outl = [], []
        o.queue = []
        o.incoming = []
        o.slog = []
        m.nodes.append(o)
        m.nd[o.name] = o

    def add_link(m, l):
        o = MLink()
        o.i = len(m.links)
        o.name = l["name"]
        o.a, o.b = m.nd[l["from"]], m.nd[l["to"]]
        o.len = l["length"]
        o.u = l.get("u", 20)
        o.lanes = l.get("lanes", 1)
        o.kappa = l.get("kappa", 0.2)
        if l.get("kappa_lane") is not None:
            o.kappa = l["kappa_lane"] * o.lanes
        m.link_params(o)
        o.merge = l.get("merge", 1)
        sg = l.get("sg", [0])
        o.sg = [sg] if isinstance(sg, int) else list(sg)
        o.cout = l.get("cap_out")
        if o.cout is None:
            o.cout = 2 * o.cap
        o.coutr = o.cout * m.dt
        o.cin = l.get("cap_in")
        if o.cin is None:
            o.cin = 2 * o.cap
            o.cinr = 2 * o.cap
        else:
            o.cinr = o.cin * m.dt
        o.toll = l.get("toll")
        o.vehs = []
        o.ca, o.cd = [], []
        o.tt_inst = []
        o.a.outl.append(o)
        o.b.inl.append(o)
        m.links.append(o)
        m.ld[o.name] = o

    def link_params(m, o):
        o.tau = m.tau0 / o.lanes
        o.w = 1 / o.tau / o.kappa
        o.cap = o.u * o.w * o.kappa / (o.u + o.w)
        o.dpl = o.lanes / o.kappa

    def toll(m, l, t):
        return eval_toll(l.toll, t)

    def change(m, kind, name, val):
        """a parameter of a node, link or vehicle is changed while the simulation is paused"""
        if kind in ("fc",):
            n = m.nd[name]
            if val is None:
                n.fcr = HUGE
            elif n.fc is None:
                n.fcr = val * m.dt
                if n.lanes is None:
                    n.lanes = math.ceil(val / 0.8)
            n.fc = val
        elif kind in ("route", "prefer", "avoid"):
            v = m.vd[name]
            ls = [m.ld[x] for x in val]
            if kind == "route":
                v.route = ls
            setattr(v, "avoid" if kind == "avoid" else "prefer", ls)
        else:
            o = m.ld[name]
            if kind == "u":
                o.u = val
                m.link_params(o)
                if m.T == 0:
                    o.tt_act = [o.len / o.u if o.u > 0 else INF] * m.tsize
            elif kind == "kappa":
                o.kappa = val
                m.link_params(o)
            elif kind == "sg":
                o.sg = list(val)
            else:
                setattr(o, dict(cin="cin", cout="cout", merge="merge", toll="toll")[kind], val)

    def demand(m, o, d, t0, t1, flow):
        f = 0
        for k in range(int(t0 / m.dt + 1e-9), int(t1 / m.dt + 1e-9)):
            f += flow * m.dt
            while f >= m.dn * (1 - 1e-9):
                m.add_veh({"o": o, "d": d, "ts": k})
                f -= m.dn

    def add_veh(m, v):
        o = MVeh()
        o.id = len(m.vehs)
        o.snap = None
        o.name = v.get("name") or str(len(m.vehs))
        o.o, o.d = m.nd[v["o"]], (m.nd[v["d"]] if v["d"] is not None else None)
        o.taxi = v.get("taxi", False)
        o.dests = []
        o.calls = []      # requests assigned to this taxi, in order of assignment
        o.dep = v["ts"] if "ts" in v else int(v["t"] / m.dt + 1e-9)
        o.state = "home"
        o.link = None
        o.x = o.xn = o.xo = 0
        o.v = 0
        o.lane = 0
        o.lead = o.foll = None
        o.flag = False
        o.ab = False
        o.rem = 0
        o.pref = o.d.i if m.T and o.d else None   # index of destination whose shared row is followed
        o.route = [m.ld[x] for x in v["route"]] if v.get("route") else None
        o.prefer = [m.ld[x] for x in v.get("prefer", [])]
        o.avoid = [m.ld[x] for x in v.get("avoid", [])]
        if o.route and not o.prefer:
            o.prefer = list(o.route)
        o.trip_abort = v.get("trip_abort", 1)
        o.nxt = None
        o.tlink = [[o.dep * m.dt, "home"]]
        o.lold = None
        o.arr_l = 0
        o.dist = 0
        o.arrival, o.tt = -1, -1
        o.log = []
        m.vehs.append(o)
        m.vd[o.name] = o
        return o

    # ---------------------------------------------------------------- dynamics
    def gap(m, v):
        if m.order == "id" or v.snap is None:
            if m.order != "id":
                return -1
            return v.lead.x - v.x if v.lead is not None and v.lead.link is v.link else -1
        s = v.snap
        if s.id < v.id:
            return -1 if s.state in ("end", "abort") else s.x - v.x
        return s.xo - v.x

    def log(m, v, force=False):
        if m.logint != -1 and (m.T % m.logint == 0 or force):
            t = m.T * m.dt
            if v.state == "run":
                s = m.gap(v)
                v.log.append((t, v.state, v.link.name, v.x, s, v.v, v.lane))
            else:
                v.log.append((t, v.state, -1, -1, -1, -1, -1))
        if v.link is not v.lold:
            if v.state == "run":
                v.tlink.append([m.T * m.dt, v.link.name])
            elif v.state == "end":
                v.tlink.append([m.T * m.dt, "end"])
            v.lold = v.link

    def speed(m, l):
        return sum(v.v for v in l.vehs) / len(l.vehs) if l.vehs else l.u

    def has_room(m, l):
        return len(l.vehs) < l.lanes or l.vehs[-l.lanes].x > l.dpl * m.dn

    def choose(m, opts, wts):
        if m.pick is None:
            return opts[first(opts, wts)]
        if sum(wts) > 0:
            return opts[m.pick(opts, wts)]
        return opts[m.pick(opts, [1] * len(opts))]

    def outlinks_for(m, v, node):
        outs = list(node.outl)
        p = [l for l in outs if l in v.prefer]
        if p:
            outs = sorted(p, key=lambda l: l.name)
        if any(l in v.avoid for l in outs):
            outs = sorted([l for l in outs if l not in v.avoid], key=lambda l: l.name)
        if not outs:
            raise RouteError()
        return outs

    def pw(m, v, l):
        return 0 if v.pref is None else m.pref[v.pref][l.i]

    def enter(m, v, l):
        v.lane = (l.vehs[-1].lane + 1) % l.lanes if l.vehs else 0
        v.lead = None
        if len(l.vehs) >= l.lanes:
            v.lead = l.vehs[-l.lanes]
            v.lead.foll = v

    def generate(m, n):
        for _ in range(sum(l.lanes for l in n.outl)):
            if not n.queue:
                return
            v = n.queue[0]
            if v.route is not None:
                outs = [v.route[0]]
                if outs[0] not in n.outl:
                    raise RouteError()
            else:
                outs = m.outlinks_for(v, n)
            l = m.choose(outs, [m.pw(v, x) for x in outs])
            if not (m.has_room(l) and l.cinr >= m.dn):
                return
            n.queue.pop(0)
            v.state = "run"
            v.link = l
            v.x = 0
            v.v = l.u
            m.enter(v, l)
            l.vehs.append(v)
            l.ca[-1] += m.dn
            v.arr_l = m.T * m.dt
            l.cinr -= m.dn
            m.trans_count += 1

    def finish(m, v):
        l = v.link
        v.state = "end"
        l.cd[-1] += m.dn
        val = (m.T + 1) * m.dt - v.arr_l
        for k in range(round(v.arr_l / m.dt), m.tsize):
            l.tt_act[k] = val
        if v.foll is not None:
            v.foll.lead = None
        assert l.vehs[0] is v
        l.vehs.pop(0)
        v.link = None
        v.x = 0
        v.arrival = m.T
        v.tt = (m.T - v.dep) * m.dt
        if v.ab:
            v.state = "abort"
            v.arrival = v.tt = -1
        m.log(v, True)

    def transfer(m, n):
        outs, seen = [], []
        for v in n.incoming:
            if v.nxt is not None and v.nxt not in seen:
                seen.append(v.nxt)
                outs += [v.nxt] * v.nxt.lanes
        if m.perm is not None:
            outs = m.perm(outs)
        for o in outs:
            if not (m.has_room(o) and o.cinr >= m.dn and n.fcr >= m.dn):
                continue
            cand = [v for v in n.incoming if v.link.vehs[0] is v and v.nxt is o
                    and (len(n.sig) <= 1 or n.phase in v.link.sg) and v.link.coutr >= m.dn]
            if not cand:
                continue
            v = m.choose(cand, [c.link.merge for c in cand])
            i = v.link
            i.cd[-1] += m.dn
            o.ca[-1] += m.dn
            val = m.T * m.dt - v.arr_l
            for k in range(round(v.arr_l / m.dt), m.tsize):
                i.tt_act[k] = val
            v.arr_l = m.T * m.dt
            i.coutr -= m.dn
            o.cinr -= m.dn
            if n.fc is not None:
                n.fcr -= m.dn
            i.vehs.pop(0)
            v.link = o
            v.x = 0
            if v.foll is not None:
                v.foll.lead = None
                v.foll = None
            m.enter(v, o)
            xn = v.rem * o.u / i.u if i.u > 0 else 0
            if v.lead is not None:
                xn = min(xn, max(v.lead.xo - o.dpl * m.dn, 0))
            xn = min(xn, o.len)
            v.x = xn
            v.v += xn / m.dt
            v.rem = 0
            m.trans_count += 1
            if i.vehs and i.vehs[0].flag:
                m.finish(i.vehs[0])
            o.vehs.append(v)
            n.incoming.remove(v)
        for l in n.inl:
            for _ in range(l.lanes):
                if l.vehs and l.vehs[0].flag:
                    m.finish(l.vehs[0])
                else:
                    break
        n.incoming = []

    def step(m):
        dt, dn = m.dt, m.dn
        for l in m.links:
            if l.coutr < dn * l.lanes:
                l.coutr += l.cout * dt
            if l.cinr < dn * l.lanes:
                l.cinr += l.cin * dt
            if m.T % m.kinst == 0:
                s = m.speed(l)
                l.tt_inst.append(l.len / s if s > 0 else l.len / (l.u / 100) if l.u > 0 else INF)
            else:
                l.tt_inst.append(l.tt_inst[-1])
            l.ca.append(l.ca[-1] if l.ca else 0)
            l.cd.append(l.cd[-1] if l.cd else 0)
        for n in m.nodes:
            m.generate(n)
            if n.st > n.sig[n.phase] + 1e-9:
                n.phase = (n.phase + 1) % len(n.sig)
                n.st = 0
            n.st += dt
            n.slog.append(n.phase)
            if n.fc is not None and n.fcr < dn * n.lanes:
                n.fcr += n.fc * dt
        for n in m.nodes:
            m.transfer(n)
        for v in m.vehs:
            if v.state == "run":
                xn = v.x + v.link.u * dt
                if v.lead is not None:
                    xn = min(xn, max(v.x, v.lead.x - v.link.dpl * dn))
                if xn > v.link.len:
                    v.rem = xn - v.link.len
                    xn = v.link.len
                v.xn = xn
        if m.order == "id":
            order = list(m.vehs)
        else:
            order = []
            for l in m.links:
                for k, v in enumerate(l.vehs):
                    v.snap = l.vehs[k - l.lanes] if k >= l.lanes else None
                order += list(l.vehs)
            order += [v for v in m.vehs if v.state != "run"]
        for v in order:
            if v.state in ("end", "abort"):
                continue
            m.log(v)
            if v.state == "home":
                if m.T >= v.dep:
                    v.state = "wait"
                    v.o.queue.append(v)
            if v.state == "wait" and m.gradual:
                v.pref = v.d.i if v.d else None
            if v.state == "run":
                v.v = (v.xn - v.x) / dt
                v.xo = v.x
                v.x = v.xn
                v.dist += v.x - v.xo
                if abs(v.x - v.link.len) < 1e-9:
                    e = v.link.b
                    if v.calls:
                        m.taxi_events(v, e)
                    if m.gradual:
                        v.pref = v.d.i if v.d else None
                    if e is v.d and v.taxi:
                        while v.d is e:
                            v.d = v.dests.pop(0) if v.dests else None
                        v.pref = v.d.i if v.d else None
                        m.choose_next(v)
                        e.incoming.append(v)
                    elif e is v.d:
                        v.flag = True
                        if v.link.vehs[0] is v:
                            m.finish(v)
                    elif not e.outl and v.trip_abort == 1:
                        v.ab = v.flag = True
                        v.nxt = None
                        if v.link.vehs[0] is v:
                            m.finish(v)
                    else:
                        m.choose_next(v)
                        e.incoming.append(v)
        if m.order != "id":
            for n in m.nodes:
                n.incoming.sort(key=lambda v: v.id)
        m.routing()
        m.T += 1

    def add_dest(m, v, d, order=-1):
        if v.d is None:
            v.d = d
            if m.T:
                v.pref = d.i
        elif order == -1:
            v.dests.append(d)
        else:
            v.dests.insert(order, d)

    def taxi_events(m, v, e):
        """travelers get off and on at node e"""
        for r in list(v.calls):
            if r.on is None and r.o is e:
                r.on = m.T * m.dt
                m.add_dest(v, r.d)
            elif r.on is not None and r.d is e:
                r.off = m.T * m.dt
                v.calls.remove(r)

    def choose_next(m, v):
        e = v.link.b
        if v.route is not None:
            if e.outl:
                if len(v.tlink) - 1 >= len(v.route) or v.route[len(v.tlink) - 1] not in e.outl:
                    raise RouteError()
                v.nxt = v.route[len(v.tlink) - 1]
            else:
                v.nxt = None
            return
        if not e.outl:
            v.nxt = None
            return
        outs = m.outlinks_for(v, e)
        if m.nocyc and not v.taxi:
            tn = [m.ld[x[1]].a for x in v.tlink[1:]]
            oo = [l for l in outs if l.b not in tn]
            if oo:
                outs = oo
        v.nxt = m.choose(outs, [m.pw(v, l) for l in outs])

    def routing(m):
        if m.T % m.kroute == 0:
            m.search()
        if m.gradual:
            m.update_pref(m.duo_w * (m.dt / m.duo_time))
        elif m.T % m.kroute == 0:
            m.update_pref(m.duo_w)
            for v in m.vehs:
                if v.state not in ("end", "abort"):
                    v.pref = v.d.i if v.d else None

    def costs(m):
        t = m.T * m.dt
        c = {}
        tt = {l.i: l.tt_inst[-1] * (m.unif(1, 1 + m.noise) if m.unif and not m.hard else 1) for l in m.links}
        for (i, j), ls in m.adj_pairs.items():
            s = sum(tt[l.i] + m.toll(l, t) for l in ls) / len(ls)
            if any(l.cin == 0 for l in ls):
                s = INF
            c[i, j] = s
        return c

    def search(m):
        N = len(m.nodes)
        c = m.costs()
        nb = {}
        for (i, j), s in c.items():
            if i != j and s < INF:
                nb.setdefault(i, []).append((j, s))
        # all-pairs by relaxation (Bellman-Ford to each destination)
        D = [[INF] * N for _ in range(N)]
        for k in range(N):
            d = [INF] * N
            d[k] = 0
            ch = True
            while ch:
                ch = False
                for i in nb:
                    for j, s in nb[i]:
                        if d[j] + s < d[i]:
                            d[i] = d[j] + s
                            ch = True
            for i in range(N):
                D[i][k] = d[i]
        X = [[None] * N for _ in range(N)]
        for i in range(N):
            for k in range(N):
                if i != k and D[i][k] < INF:
                    best = [j for j, s in nb[i] if abs(s + D[j][k] - D[i][k]) <= 1e-9 * max(1, D[i][k])]
                    if len(best) > 1 and m.tie_on:
                        raise Tie()
                    X[i][k] = best[0]
        m.dist, m.nexts = D, X
        m.max_dist_record[m.T] = D

    def update_pref(m, w):
        for k in range(len(m.nodes)):
            row = m.pref[k]
            ww = 1 if sum(row) == 0 else w
            for l in m.links:
                row[l.i] = row[l.i] * (1 - ww) + (ww if m.nexts[l.a.i][k] == l.b.i else 0)

    def run(m, until=None):
        end = m.tsize if until is None else until
        while m.T < end:
            m.step()
        return m

    def state_key(m):
        """canonical hash of the observable state (for state counting)"""
        return hash((tuple((v.state, v.link.i if v.link else -1, round(v.x, 6), round(v.v, 6), v.lane) for v in m.vehs),
                     tuple((n.phase, n.st, len(n.queue), round(n.fcr, 6)) for n in m.nodes),
                     tuple((round(l.cinr, 6), round(l.coutr, 6)) for l in m.links)))


def signal_initial(sig, off):
    rem = sum(sig) - off
    i = 0
    while not rem < sig[i] - 1e-9:
        rem -= sig[i]
        i = (i + 1) % len(sig)
    return i, rem


def eval_toll(spec, t):
    if spec is None:
        return 0
    if isinstance(spec, (int, float)):
        return spec
    # piecewise constant: [[t_from, value], ...]
    val = 0
    for a, b in spec:
        if t >= a:
            val = b
    return val
