"""Small networks and demand alphabets shared by the checks."""
import itertools


def N(name, x=0, y=0, **k):
    return dict(name=name, x=x, y=y, **k)


def L(name, a, b, length=200, u=20, **k):
    d = {"name": name, "from": a, "to": b, "length": length, "u": u}
    d.update({x: y for x, y in k.items() if y is not None})
    return d


def scn(nodes, links, demands=(), vehicles=(), **world):
    w = dict(deltan=1, tmax=80, duo_update_time=20)
    w.update(world)
    s = dict(world=w, nodes=list(nodes), links=list(links))
    if demands:
        s["demands"] = [list(d) for d in demands]
    if vehicles:
        s["vehicles"] = list(vehicles)
    return s


def platoons(o, d, counts, start=0, gap=1, **kw):
    """counts[k] vehicles departing at step start+k*gap"""
    out = []
    for k, c in enumerate(counts):
        for _ in range(c):
            out.append(dict(o=o, d=d, ts=start + k * gap, **kw))
    return out


def line(n, **kw):
    """nodes n0..nn in a row with links l0..l(n-1); kw: per-link lists"""
    nodes = [N(f"n{i}", i * 100, 0) for i in range(n + 1)]
    links = []
    for i in range(n):
        links.append(L(f"l{i}", f"n{i}", f"n{i+1}", **{k: v[i] for k, v in kw.items()}))
    return nodes, links


def product(**axes):
    keys = list(axes)
    for vals in itertools.product(*axes.values()):
        yield dict(zip(keys, vals))


def frac(cases, step, first=0, rt=0.7):
    """every step-th case with a timestep that is not a whole number of seconds"""
    def conv(c):
        if isinstance(c, dict):
            out = {k: conv(v) for k, v in c.items()}
            if "links" in c and isinstance(c.get("world"), dict) or set(c) & {"world"} and "net" in c:
                out["world"] = dict(out["world"])
                out["world"].setdefault("reaction_time", rt)
            return out
        if isinstance(c, (list, tuple)):
            return [conv(x) for x in c]
        return c
    return [conv(c) for c in cases[first::step]]
