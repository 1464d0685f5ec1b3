"""P26: figures and animations draw exactly what was simulated, for every way of asking for them, and drawing them has no influence on the simulation."""
import contextlib, io, itertools, math, os, warnings
import numpy as np
from mc import env
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S

EPS = 1e-6


class Pen:
    """a Pillow drawing that records what is drawn"""

    def __init__(self, draw, img):
        self._d, self.img, self.lines, self.texts, self.dots = draw, img, [], [], []

    def line(self, xy, fill=None, width=0, joint=None):
        self.lines.append(([(float(a), float(b)) for a, b in xy], fill, width))
        return self._d.line(xy, fill=fill, width=width, joint=joint)

    def text(self, xy, text, *a, **k):
        self.texts.append(((float(xy[0]), float(xy[1])), text, k.get("fill")))
        return self._d.text(xy, text, *a, **k)

    def ellipse(self, xy, *a, **k):
        self.dots.append(tuple(map(float, xy)))
        return self._d.ellipse(xy, *a, **k)

    def __getattr__(self, k):
        return getattr(self._d, k)


class Canvas:
    """collects what the drawing functions produce"""

    def __enter__(self):
        import matplotlib.pyplot as plt
        from PIL import ImageDraw, ImageFont, Image
        self.plt, self.figs, self.pens, self.saved = plt, [], [], []
        self.old = [(plt, "savefig", plt.savefig), (plt, "show", plt.show), (plt, "tight_layout", plt.tight_layout), (plt, "close", plt.close),
                    (ImageDraw, "Draw", ImageDraw.Draw), (ImageFont, "truetype", ImageFont.truetype), (Image.Image, "save", Image.Image.save)]
        draw, save, close = ImageDraw.Draw, Image.Image.save, plt.close

        def savefig(fname, *a, **k):
            self.figs.append((str(fname), plt.gcf()))
            if "tmp_anim" in str(fname):
                Image.new("RGBA", (8, 8)).save(fname)

        def pen(img, *a, **k):
            self.pens.append(Pen(draw(img, *a, **k), img))
            return self.pens[-1]

        def isave(img, fp, *a, **k):
            if not isinstance(fp, io.BytesIO) and "tmp_anim" not in str(fp):
                self.saved.append((str(fp), img, 1 + len(k.get("append_images", []))))
            return save(img, fp, *a, **k)
        plt.savefig, plt.show, plt.tight_layout, plt.close = savefig, lambda *a, **k: None, lambda *a, **k: None, lambda *a, **k: self.closed.append(a)
        ImageDraw.Draw, Image.Image.save = pen, isave
        import matplotlib
        face, ttf = os.path.join(matplotlib.get_data_path(), "fonts/ttf/DejaVuSans.ttf"), self.old[5][2]
        ImageFont.truetype = lambda f=None, size=10, *a, **k: ttf(face, size)
        self.closed = []
        self._close = close
        return self

    def __exit__(self, *e):
        for o, n, v in self.old:
            setattr(o, n, v)
        self._close("all")


def ask(ctx, f, tag):
    """call a drawing function; a failure would only be a warning"""
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("always")
        r = f()
    bad = [str(x.message) for x in w if "Error" in str(x.message) or "invalid time" in str(x.message)]
    ctx.check(not bad, "no-figure", lambda: f"{tag}: {bad[0]}")
    ctx.transitions += 1
    return None if bad else (r, 1)


def lines(ax, style=None):
    from matplotlib.colors import to_rgba
    out = []
    for l in ax.lines:
        if style is None or l.get_linestyle() == style:
            out.append(dict(x=[float(v) for v in l.get_xdata()] if all(isinstance(v, (int, float)) or hasattr(v, "dtype") for v in l.get_xdata()) else list(l.get_xdata()), y=list(l.get_ydata(orig=True)), c=to_rgba(l.get_color()), lw=l.get_linewidth(), m=l.get_marker(), ls=l.get_linestyle(), label=l.get_label()))
    return out


def same(a, b, tol=EPS):
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1, abs(x)) for x, y in zip(a, b))


def picked(W, links):
    """names of the links asked for"""
    if links is None:
        return [l.name for l in W.LINKS]
    if isinstance(links, str):
        return [links]
    if not isinstance(links, (list, tuple)):
        return [links.name]
    return [l if isinstance(l, str) else l.name for l in links]


def forms(W):
    n = [l.name for l in W.LINKS]
    return [None, n[0], W.LINKS[-1], n[:2], [W.LINKS[0]], (n[-1],), [n[0], W.LINKS[1]]]


def visits(W):
    """per link: the vehicles' stays on it, from the vehicles' logs"""
    out = {l.name: [] for l in W.LINKS}
    for v in W.VEHICLES.values():
        last = None
        for t, x, s, l in zip(v.log_t, v.log_x, v.log_state, v.log_link):
            n = None if l == -1 else W.get_link(l).name
            if n is not None:
                if n != last:
                    out[n].append((v, []))
                out[n][-1][1].append((float(t), float(x)))
            last = n if n is not None else last
    return out


def red(W, l):
    n = l.end_node
    return [k * W.DELTAT for k, p in enumerate(n.signal_log) if len(n.signal) > 1 and p not in l.signal_group]


# ------------------------------------------------------------------------------------------ time-space diagrams
def check_traj(ctx, W, ax, names, signal, tag):
    V = visits(W)
    off = 0.0
    offs = {}
    for n in names:
        offs[n] = off
        off += W.get_link(n).length
    curves = [l for l in lines(ax, "-") if l["m"] in ("None", None, "")]
    used = [False] * len(curves)
    total = 0
    for n in names:
        l = W.get_link(n)
        for v, pts in V[n]:
            total += 1
            hit = None
            for i, c in enumerate(curves):
                if used[i] or not same(c["c"], tuple(v.color) + ((1.0,) if len(v.color) == 3 else ()), 1e-4):
                    continue
                ys = [y - offs[n] for y in c["y"]]
                for s in (0, 1):
                    if s and not (len(ys) > len(pts) and abs(ys[0]) < EPS):
                        continue
                    body = ys[s:s + len(pts)]
                    if len(body) != len(pts) or not same(body, [p[1] for p in pts]):
                        continue
                    rest = ys[s + len(pts):]
                    if len(rest) > 1 or rest and abs(rest[0] - l.length) > EPS:
                        continue
                    d = [x - p[0] for x, p in zip(c["x"][s:], pts)]
                    if max(d) - min(d) < EPS and -EPS < d[0] < W.DELTAT / 2 - EPS and (l.number_of_lanes > 1 or abs(d[0]) < EPS) and all(a <= b + EPS for a, b in zip(c["x"], c["x"][1:])):
                        hit = i
                        break
                if hit is not None:
                    break
            if hit is None:
                ctx.check(False, "trajectory-missing", lambda: f"{tag}: {v.name} on {n}: {pts[:4]}.. is not drawn ({len(curves)} curves)")
                return
            used[hit] = True
    ctx.check(len(curves) == total, "foreign-trajectory", lambda: f"{tag}: {len(curves)} curves for {total} stays on {names}")
    marks = [(l["x"], [float(y) for y in l["y"]]) for l in lines(ax) if l["m"] == "."]
    exp = [(red(W, W.get_link(n)), offs[n] + W.get_link(n).length) for n in names] if signal else []
    exp = sorted((r, [y] * len(r)) for r, y in exp if r)
    marks = sorted(m for m in marks if m[0])
    ctx.check(len(marks) == len(exp) and all(same(a[0], b[0]) and same(a[1], b[1]) for a, b in zip(exp, marks)), "signal-marks", lambda: f"{tag}: red at {marks}, expected {exp}")
    ctx.count("curves", total)


def check_tsd(ctx, W):
    A = W.analyzer
    for sig in (True, False):
        for links in forms(W) if sig else [None]:
            tag = f"time_space_diagram_traj({links}, plot_signal={sig})"
            with Canvas() as c:
                if not ask(ctx, lambda: A.time_space_diagram_traj(links, plot_signal=sig), tag):
                    continue
                want = picked(W, links)
                if ctx.check([f for f, _ in c.figs] == [f"out/tsd_traj_{n}.png" for n in want], "figures", lambda: f"{tag}: {[f for f, _ in c.figs]}"):
                    for (f, fig), n in zip(c.figs, want):
                        check_traj(ctx, W, fig.axes[0], [n], sig, tag)
            tag = f"time_space_diagram_density({links}, plot_signal={sig})"
            with Canvas() as c:
                if not ask(ctx, lambda: A.time_space_diagram_density(links, plot_signal=sig), tag):
                    continue
                if ctx.check([f for f, _ in c.figs] == [f"out/tsd_k_{n}.png" for n in want], "figures", lambda: f"{tag}: {[f for f, _ in c.figs]}"):
                    for (f, fig), n in zip(c.figs, want):
                        l, ax = W.get_link(n), fig.axes[0]
                        if not ctx.check(len(ax.images) == 1, "density-image", lambda: f"{tag}: {ax.images}"):
                            continue
                        im = ax.images[0]
                        a, e = np.asarray(im.get_array()), im.get_extent()
                        k = l.k_mat
                        ctx.check(a.shape == (k.shape[1], k.shape[0]) and abs(a.T - k).max(initial=0) < EPS and im.origin == "lower", "density-values", lambda: f"{tag} {n}: {a} vs {k.T}")
                        ctx.check(same(e, (0, k.shape[0] * l.edie_dt, 0, k.shape[1] * l.edie_dx)), "density-extent", lambda: f"{tag} {n}: {e}")
                        ctx.check(abs(im.norm.vmin) < EPS and abs(im.norm.vmax - l.number_of_lanes / (l.delta * l.number_of_lanes)) < EPS, "density-scale", lambda: f"{tag} {n}: {im.norm.vmin}..{im.norm.vmax}")
                        marks = [x["x"] for x in lines(ax) if x["m"] == "." and x["x"]]
                        exp = [red(W, l)] if sig and red(W, l) else []
                        ctx.check(len(marks) == len(exp) and all(same(p, q) for p, q in zip(exp, marks)), "signal-marks", lambda: f"{tag} {n}: {marks}, expected {exp}")
    n = [l.name for l in W.LINKS]
    pairs = [list(x) for x in itertools.permutations(n, 2)]  # in every order, connected or not
    for links, exp in (([n[0], n[1]], [n[:2]]), ([W.LINKS[0], n[1]], [n[:2]]), ([n[:2], [n[-1]]], [n[:2], [n[-1]]]), ([[W.LINKS[1]]], [[n[1]]]), (pairs, pairs), ([n[::-1]], [n[::-1]])):
        tag = f"time_space_diagram_traj_links({links})"
        with Canvas() as c:
            if not ask(ctx, lambda: A.time_space_diagram_traj_links(links), tag):
                continue
            names = [f"out/tsd_traj_{x[0]}.png" if len(x) == 1 else f"out/tsd_traj_links_{'-'.join(x)}.png" for x in exp]
            if ctx.check([f for f, _ in c.figs] == names, "figures", lambda: f"{tag}: {[f for f, _ in c.figs]}"):
                for (f, fig), x in zip(c.figs, exp):
                    check_traj(ctx, W, fig.axes[0], x, True, tag)


def check_curves(ctx, W):
    A = W.analyzer
    for links in forms(W):
        tag = f"cumulative_curves({links})"
        with Canvas() as c:
            if ask(ctx, lambda: A.cumulative_curves(links), tag):
                want = picked(W, links)
                if ctx.check([f for f, _ in c.figs] == [f"out/cumlative_curves_{n}.png" for n in want], "figures", lambda: f"{tag}: {[f for f, _ in c.figs]}"):
                    for (f, fig), n in zip(c.figs, want):
                        l = W.get_link(n)
                        got = {x["label"]: x for ax in fig.axes for x in lines(ax)}
                        for lab, data in (("arrival", l.cum_arrival), ("departure", l.cum_departure), ("instantaneous", l.traveltime_instant), ("actual", l.traveltime_actual)):
                            data = [float(v) for v in data]
                            x = got.get(lab)
                            ctx.check(x is not None and same(x["x"], [k * W.DELTAT for k in range(W.T)]) and same([float(v) for v in x["y"]], data[:W.T]) , "curve", lambda: f"{tag} {n} {lab}: {x and (x['x'][:5], x['y'][:5], len(x['x']))}, expected {len(data)} values {data[:5]}")
    n = [l.name for l in W.LINKS]
    for links in forms(W):
        for post in ("", "_x"):
            tag = f"macroscopic_fundamental_diagram({links}, fname={post})"
            with Canvas() as c:
                if ask(ctx, lambda: A.macroscopic_fundamental_diagram(links=links, fname=post, kappa=0.3, qmax=2), tag):
                    if not ctx.check([f for f, _ in c.figs] == [f"out/mfd{post}.png"], "figures", lambda: f"{tag}: {c.figs}"):
                        continue
                    ax = c.figs[0][1].axes[0]
                    got = lines(ax)
                    L = [W.get_link(x) for x in picked(W, links)]
                    area = sum(l.an * l.tn_mat.shape[1] for l in L)
                    rows = L[0].k_mat.shape[0]
                    k = [sum(l.tn_mat[i].sum() for l in L) / area if area else 0 for i in range(rows)]
                    q = [sum(l.dn_mat[i].sum() for l in L) / area if area else 0 for i in range(rows)]
                    ctx.check(len(got) == 1 and same(got[0]["x"], k) and same([float(v) for v in got[0]["y"]], q), "mfd", lambda: f"{tag}: {got and (got[0]['x'], got[0]['y'])}, expected {k}, {q}")
                    ctx.check(same(ax.get_xlim(), (0, .3)) and same(ax.get_ylim(), (0, 2)), "mfd-axes", lambda: f"{tag}: {ax.get_xlim()}, {ax.get_ylim()}")


# ------------------------------------------------------------------------------------------ maps
def state_at(W, l, t):
    k = round(t / W.DELTAT, 6)
    i = int(k + 1e-6)
    n = float(l.cum_arrival[i]) - float(l.cum_departure[i])
    return n / l.length, l.length / float(l.traveltime_instant[i])


def rgba(name, x):
    import matplotlib.pyplot as plt
    return plt.colormaps[name](x)


def delay_color(v, u, span=1.0):
    x = ((u / v if v else math.inf) - 1) / span
    return rgba("jet", min(max(x, 0.1), 0.9))


def bounds(ctx, W, ax, tag):
    x0, x1 = sorted(ax.get_xlim())
    y0, y1 = sorted(ax.get_ylim())
    ctx.check(all(x0 <= n.x <= x1 and y0 <= n.y <= y1 for n in W.NODES) and x0 < x1 and y0 < y1, "cropped", lambda: f"{tag}: {(x0, x1, y0, y1)}")
    marks = sorted((l["x"][0], float(l["y"][0])) for l in lines(ax) if l["m"] == "o")
    ctx.check(marks == sorted((float(n.x), float(n.y)) for n in W.NODES), "node-marks", lambda: f"{tag}: {marks}")


def labels(ctx, W, texts, want, tag):
    exp = sorted([n.name for n in W.NODES] + [l.name for l in W.LINKS]) if want else []
    got = sorted(texts)
    ctx.check(got == exp, "labels", lambda: f"{tag}: {got}, expected {exp}")


def side(p, q, m):
    return (q[0] - p[0]) * (m[1] - p[1]) - (q[1] - p[1]) * (m[0] - p[0])


def match(ctx, W, segs, exp, tag, sig, left):
    """segs: drawn polylines; exp: link -> (color, width)"""
    left_over = list(segs)
    for l in W.LINKS:
        p, q = (float(l.start_node.x), float(l.start_node.y)), (float(l.end_node.x), float(l.end_node.y))
        c, w = exp[l.name]
        hit = next((s for s in left_over if same(s[0][0], p) and same(s[0][-1], q) and same(s[1], c, 2e-3) and abs(s[2] - w) < 1e-5 * max(1, w)), None)
        near = [s for s in left_over if same(s[0][0], p) and same(s[0][-1], q)]
        if ctx.check(hit, sig, lambda: f"{tag}: {l.name}: expected colour {c}, width {w}; drawn {[(s[1], s[2]) for s in near]}"):
            left_over.remove(hit)
            ok = all((side(p, q, m) > 0) == bool(left) and abs(side(p, q, m)) > 0 for m in hit[0][1:-1])
            ctx.check(ok, "wrong-side", lambda: f"{tag}: {l.name} {hit[0]}")
    ctx.check(not left_over, sig + "-extra", lambda: f"{tag}: {left_over}")


def times(W):
    n = W.T if W.T else 0
    return sorted({0, 1, n // 3, n // 2, n - 1} & set(range(n)))


def variants(case):
    return [dict(left_handed=a, network_font_size=b, legend=c) for a, b, c in ((1, 12, True), (0, 0, False), (1, 8, False), (0, 12, True))]


def check_maps(ctx, W, case):
    A = W.analyzer
    for ti, (k, mode) in enumerate(itertools.product(times(W), ("density_speed", "flow_delay"))):
        t = k * W.DELTAT
        opt = dict(variants(case)[ti % 4], **([{}, dict(minwidth=1.5, maxwidth=7)][ti // 4 % 2]))
        mn, mx = opt.get("minwidth", 0.5), opt.get("maxwidth", 12)
        # --- simple map
        tag = f"network({t}, detailed=0, {mode}, {opt})"
        with Canvas() as c:
            if ask(ctx, lambda: A.network(t, detailed=0, state_variables=mode, **opt), tag) and ctx.check([f for f, _ in c.figs] == [f"out/network0_{t}.png"], "figures", lambda: f"{tag}: {c.figs}"):
                ax = c.figs[0][1].axes[0]
                bounds(ctx, W, ax, tag)
                labels(ctx, W, [x.get_text() for x in ax.texts], opt["network_font_size"], tag)
                exp = {}
                for l in W.LINKS:
                    d, v = state_at(W, l, t)
                    if mode == "density_speed":
                        exp[l.name] = rgba("viridis", v / l.u), d * l.delta * (mx * l.number_of_lanes - mn) + mn
                    else:
                        exp[l.name] = delay_color(v, l.u), d * v / l.capacity * (mx * l.number_of_lanes - mn) + mn
                match(ctx, W, [(list(zip(x["x"], map(float, x["y"]))), x["c"], x["lw"]) for x in lines(ax, "-") if x["m"] in ("None", None, "")], exp, tag, "map", opt["left_handed"])
                ctx.check((ax.get_legend() is not None) == opt["legend"], "legend", lambda: tag)
        # --- faster map
        for fast in (mode, "density_flow") if mode == "density_speed" else (mode,):
            tag = f"network_pillow({t}, {fast}, {opt})"
            with Canvas() as c:
                r = ask(ctx, lambda: A.network_pillow(t, state_variables=fast, figsize=2, image_return=ti % 2, **opt), tag)
                if r:
                    ctx.check((r[0] is not None) == bool(ti % 2) and [x[0] for x in c.saved] == ([] if ti % 2 else [f"out/network1_{t}.png"]), "figures", lambda: f"{tag}: {r}, {c.saved}")
                    pillow(ctx, W, c.pens[0], t, fast, opt, mn * 2, mx * 2, tag)
        # --- map with link internals
        dts = {l.edie_dt for l in W.LINKS}
        if ti % 2 == 0 or k == times(W)[-1]:
            dt = dts.pop()
            tag = f"network({t}, detailed=1, {mode}, {opt})"
            if int(t / dt + 1e-9) >= W.LINKS[0].k_mat.shape[0]:
                ctx.count("beyond_cells")
                continue
            with Canvas() as c:
                if ask(ctx, lambda: A.network(t, detailed=1, state_variables=mode, **opt), tag) and ctx.check([f for f, _ in c.figs] == [f"out/network1_{t}.png"], "figures", lambda: f"{tag}: {c.figs}"):
                    ax = c.figs[0][1].axes[0]
                    bounds(ctx, W, ax, tag)
                    labels(ctx, W, [x.get_text() for x in ax.texts], opt["network_font_size"], tag)
                    segs = [(list(zip(x["x"], map(float, x["y"]))), x["c"], x["lw"]) for x in lines(ax, "-") if x["m"] in ("None", None, "")]
                    ctx.check(all(len(s[0]) == 2 for s in segs), "cells", lambda: tag)
                    row = int(t / dt + 1e-9)
                    n = 0
                    for l in W.LINKS:
                        cells = l.k_mat.shape[1]
                        p, q = (l.start_node.x, l.start_node.y), (l.end_node.x, l.end_node.y)
                        sg = 1 if opt["left_handed"] else -1
                        o = ((p[1] - q[1]) * .05 * sg, (q[0] - p[0]) * .05 * sg)
                        for i in range(1, cells - 1):
                            n += 1
                            a, b = [(p[0] + (q[0] - p[0]) * f + o[0], p[1] + (q[1] - p[1]) * f + o[1]) for f in (i / cells, (i + 1) / cells)]
                            kk, vv, qq = l.k_mat[row, i], l.v_mat[row, i], l.q_mat[row, i]
                            if mode == "density_speed":
                                cc, w = [rgba("viridis", vv / l.u)], kk * l.delta * (mx * l.number_of_lanes - mn) + mn
                            else:
                                cc, w = [delay_color(vv, l.u), delay_color(vv, l.u, 2.0)], qq / l.capacity * (mx * l.number_of_lanes - mn) + mn
                            hit = next((s for s in segs if same(s[0][0], a) and same(s[0][1], b) and any(same(s[1], x, 2e-3) for x in cc) and abs(s[2] - w) < 1e-5 * max(1, w)), None)
                            if not ctx.check(hit, "cell", lambda: f"{tag}: cell {i} of {l.name}: expected {a}-{b}, colour {cc}, width {w}; drawn {[s for s in segs if same(s[0][0], a)]}"):
                                return
                            segs.remove(hit)
                    ctx.check(not segs, "cell-extra", lambda: f"{tag}: {segs}")
                    ctx.count("cells", n)


def pillow(ctx, W, pen, t, mode, opt, mn, mx, tag):
    """similarity between the map and the picture (upright), colours and widths"""
    L = W.LINKS
    if not ctx.check(len(pen.lines) >= len(L), "picture", lambda: f"{tag}: {pen.lines}"):
        return
    W0, H0 = pen.img.size
    span = max(n.x for n in W.NODES) - min(n.x for n in W.NODES)
    tall = max(n.y for n in W.NODES) - min(n.y for n in W.NODES)
    for l, (xy, c, w) in zip(L, pen.lines):
        d, v = state_at(W, l, t)
        if mode == "density_speed":
            cc, ww = rgba("viridis", v / l.u), d * l.delta * (mx - mn) + mn
        elif mode == "density_flow":
            cc, ww = rgba("magma", min(max(d * v / l.capacity, 0), 1)), d * l.delta * (mx - mn) + mn
        else:
            cc, ww = delay_color(v, l.u), d * v / l.capacity * (mx - mn) + mn
        ctx.check(all(abs(a - b * 255) <= 1.01 for a, b in zip(c, cc)) and abs(w - ww) <= 1.01, "picture-state", lambda: f"{tag}: {l.name} drawn with {c}, {w}; expected {[round(x * 255) for x in cc[:3]]}, {ww}")
    pos = {}
    for l, (xy, _, _) in zip(L, pen.lines):
        for n, p in ((l.start_node, xy[0]), (l.end_node, xy[-1])):
            ctx.check(same(pos.setdefault(n.name, p), p, 1e-4), "picture-shape", lambda: f"{tag}: {n.name} at {p} and {pos[n.name]}")
    P = [(n.x, n.y, *pos[n.name]) for n in W.NODES if n.name in pos]
    if len(P) > 1:
        (a, b) = max(itertools.combinations(P, 2), key=lambda z: math.dist(z[0][:2], z[1][:2]))
        s = math.dist(a[2:], b[2:]) / math.dist(a[:2], b[:2])
        ok = s > 0 and all(abs((p[2] - a[2]) - s * (p[0] - a[0])) < 0.5 and abs((p[3] - a[3]) + s * (p[1] - a[1])) < 0.5 for p in P)
        ctx.check(ok and all(0 <= p[2] <= W0 and 0 <= p[3] <= H0 for p in P), "picture-shape", lambda: f"{tag}: {P}, scale {s}, size {W0, H0}")
        for l, (xy, _, _) in zip(L, pen.lines):
            p, q = xy[0], xy[-1]
            ctx.check(all((side(p, q, m) < 0) == bool(opt["left_handed"]) for m in xy[1:-1]), "wrong-side", lambda: f"{tag}: {l.name} {xy}")
    names = [x[1] for x in pen.texts]
    if opt["network_font_size"]:
        ctx.check(all(x.name in names for x in list(W.NODES) + list(L)), "labels", lambda: f"{tag}: {names}")
        for tx in pen.texts:
            if tx[1] in pos and tx[2] == "green":
                ctx.check(same(tx[0], pos[tx[1]], 1e-3), "label-position", lambda: f"{tag}: {tx}, {pos}")
    ctx.check(any(x.strip().startswith("t =") and x.replace("(s)", "").replace("t =", "").strip() == str(t) for x in names), "picture-time", lambda: f"{tag}: {names}")


def check_average(ctx, W, case):
    A = W.analyzer
    df = A.link_to_pandas()
    vol = dict(zip(df["link"], df["traffic_volume"]))
    ratio = {r.link: r.average_travel_time / r.free_travel_time for r in df.itertuples()}
    top = max(vol.values())
    for opt in variants(case):
        tag = f"network_average({opt})"
        if not top:
            ctx.count("no_traffic")
            continue
        with Canvas() as c:
            if ask(ctx, lambda: A.network_average(**opt, maxwidth=9), tag) and ctx.check([f for f, _ in c.figs] == ["out/network_average.png"], "figures", lambda: f"{tag}: {c.figs}"):
                ax = c.figs[0][1].axes[0]
                bounds(ctx, W, ax, tag)
                labels(ctx, W, [x.get_text() for x in ax.texts], opt["network_font_size"], tag)
                exp = {}
                for l in W.LINKS:
                    x = ratio[l.name]
                    x = 0.1 if not x >= 0 else min(max(x - 1, .1), .9)
                    exp[l.name] = rgba("jet", x), vol[l.name] / top * 9 + .5
                match(ctx, W, [(list(zip(x["x"], map(float, x["y"]))), x["c"], x["lw"]) for x in lines(ax, "-") if x["m"] in ("None", None, "")], exp, tag, "average", opt["left_handed"])
    W.save_mode = 1
    for left, font, ids in ((1, 10, True), (0, 10, False), (1, 0, True)):
        tag = f"show_network({left, font, ids})"
        with Canvas() as c:
            if ask(ctx, lambda: W.show_network(left_handed=left, network_font_size=font, show_id=ids, width=2), tag) and ctx.check([f for f, _ in c.figs] == ["out/network.png"], "figures", lambda: f"{tag}: {c.figs}"):
                ax = c.figs[0][1].axes[0]
                bounds(ctx, W, ax, tag)
                exp = sorted([f"{x.id}: {x.name}" if ids else x.name for x in list(W.NODES) + list(W.LINKS)]) if font else []
                got = sorted(x.get_text() for x in ax.texts)
                ctx.check(got == exp, "labels", lambda: f"{tag}: {got}, expected {exp}")
                from matplotlib.colors import to_rgba
                match(ctx, W, [(list(zip(x["x"], map(float, x["y"]))), x["c"], x["lw"]) for x in lines(ax, "-") if x["m"] in ("None", None, "")], {l.name: (to_rgba("gray"), 2) for l in W.LINKS}, tag, "network", left)


# ------------------------------------------------------------------------------------------ vehicles
def steps(v):
    return [(float(t), "not in network" if l == -1 else l.name) for t, s, l in zip(v.log_t, v.log_state, v.log_link) if s != "home"]


def check_vehicles(ctx, W):
    A = W.analyzer
    names = list(W.VEHICLES)
    for n in names[:2] + names[-2:]:
        v = W.VEHICLES[n]
        tag = f"plot_vehicle_log({n})"
        with Canvas() as c:
            if ask(ctx, lambda: A.plot_vehicle_log(n), tag) and ctx.check([f for f, _ in c.figs] == [f"out/vehicle_{n}.png"], "figures", lambda: f"{tag}: {c.figs}"):
                fig = c.figs[0][1]
                poly = [p for ax in fig.axes for p in ax.collections]
                pts = {(round(float(a), 6), round(float(b), 6)) for p in poly for path in p.get_paths() for a, b in path.vertices}
                exp = [(round(float(t), 6), round(float(x), 6)) for t, x in zip(v.log_t, v.log_v)]
                ctx.check(len(poly) == 1 and all(p in pts for p in exp) and all(y == 0 or (x, y) in exp for x, y in pts), "vehicle-speed", lambda: f"{tag}: {sorted(pts)[:8]}, expected {exp[:8]}")
                got = [x for ax in fig.axes for x in lines(ax)]
                ctx.check(len(got) == (1) and list(zip(got[0]["x"], got[0]["y"])) == steps(v), "vehicle-links", lambda: f"{tag}: {got}, expected {steps(v)}")
    for some in (names[:1], names[:3], names[-2:]):
        tag = f"plot_vehicles_log({some})"
        with Canvas() as c:
            if ask(ctx, lambda: A.plot_vehicles_log(some), tag) and ctx.check(len(c.figs) == 1, "figures", lambda: f"{tag}: {c.figs}"):
                got = lines(c.figs[0][1].axes[0])
                for n, g in itertools.zip_longest(some, got):
                    v = W.VEHICLES.get(n)
                    ctx.check(v is not None and g is not None and g["label"] == n and list(zip(g["x"], g["y"])) == steps(v) and same(g["c"][:3], v.color[:3], 1e-4), "vehicle-links", lambda: f"{tag}: {n}: {g}")


# ------------------------------------------------------------------------------------------ animations
def check_anim(ctx, W, case):
    A = W.analyzer
    n = W.T
    for skip, mode in ((1, "density_speed"), (3, "flow_delay"), (7, "density_speed")):
        if skip == 1 and n > 40:
            skip = 5
        tag = f"network_anim(timestep_skip={skip}, {mode})"
        opt = dict(left_handed=skip % 2, network_font_size=0 if skip == 3 else 9, legend=skip == 1)
        with Canvas() as c:
            if not ask(ctx, lambda: A.network_anim(timestep_skip=skip, state_variables=mode, figsize=2, **opt), tag):
                continue
            exp = [k * W.DELTAT for k in range(0, n, skip)]
            ctx.check(len(c.pens) == len(exp), "frames", lambda: f"{tag}: {len(c.pens)} frames, expected {len(exp)}")
            if ctx.check([(f, m) for f, _, m in c.saved] == [("out/anim_network0.gif", len(exp))], "animation", lambda: f"{tag}: {c.saved}, expected {len(exp)} frames"):
                for t, pen in zip(exp, c.pens):
                    pillow(ctx, W, pen, t, mode, opt, 1.0, 24, f"{tag} frame {t}")
    A.compute_edie_state()
    rows = W.LINKS[0].k_mat.shape[0]
    if rows:
        tag = "network_anim(detailed=1)"
        with Canvas() as c:
            if ask(ctx, lambda: A.network_anim(timestep_skip=9, detailed=1, file_name="out/x.gif"), tag):
                exp = [t for t in (k * W.DELTAT for k in range(0, n, 9)) if int(t / W.LINKS[0].edie_dt + 1e-9) < rows]
                ctx.check(len(c.figs) == len(exp) and [(f, m) for f, _, m in c.saved] == [("out/x.gif", len(exp))], "animation", lambda: f"{tag}: {len(c.figs)} frames, {c.saved}; expected {len(exp)}")
                for t, (f, fig) in zip(exp, c.figs):
                    ti = fig.axes[0].get_title()
                    ctx.check(ti.replace("t =", "").replace("(s)", "").strip() == str(t), "frame-time", lambda: f"{tag}: {ti!r} at {t}")
        ctx.check(not [f for f in os.listdir("out") if f.startswith("tmp_anim")], "left-over-files", lambda: f"{os.listdir('out')}")


def check_fancy(ctx, W, case):
    A = W.analyzer
    minx, miny = min(n.x for n in W.NODES), min(n.y for n in W.NODES)
    for interval, coef, aa in ((1, 1, True), (2, 2, False), (5, 3, False)):
        tag = f"network_fancy(interval={interval}, speed_coef={coef})"
        with Canvas() as c:
            if not ask(ctx, lambda: A.network_fancy(figsize=2, sample_ratio=1, interval=interval, speed_coef=coef, antialiasing=aa, file_name="out/f.gif" if aa else None), tag):
                continue
            fr = list(range(0, W.TSIZE, coef))
            ctx.check(len(c.pens) == len(fr), "frames", lambda: f"{tag}: {len(c.pens)} frames, expected {len(fr)}")
            ctx.check([(f, m) for f, _, m in c.saved] == [("out/f.gif" if aa else "out/anim_network_fancy.gif", len(fr))], "animation", lambda: f"{tag}: {c.saved}")
            runs = []
            for v in W.VEHICLES.values():
                r = [(i, l, x) for i, (s, l, x) in enumerate(zip(v.log_state, v.log_link, v.log_x)) if s == "run"]
                r = [(round(v.log_t[i] / W.DELTAT), l, x) for i, l, x in r]
                runs.append((v, r))
            for k, pen in zip(fr, c.pens):
                ctx.check(any(x[1].replace("t =", "").replace("(s)", "").strip() == str(k * W.DELTAT) for x in pen.texts), "picture-time", lambda: f"{tag}: {pen.texts} at {k * W.DELTAT}")
                if len(pen.lines) < len(W.LINKS):
                    ctx.check(False, "picture", lambda: f"{tag}: {len(pen.lines)}")
                    break
                pos = {}
                for l, (xy, _, _) in zip(W.LINKS, pen.lines):
                    pos[l.start_node.name], pos[l.end_node.name] = xy[0], xy[-1]
                span = max(abs(a[0] - b[0]) for a in pos.values() for b in pos.values()) / 20
                if interval == 1:
                    want = []
                    for v, r in runs:
                        p = next((z for z in r if z[0] == k), None)
                        if p and len(r) > 1:
                            f = p[2] / p[1].length
                            a, b = pos[p[1].start_node.name], pos[p[1].end_node.name]
                            want.append((a[0] + (b[0] - a[0]) * f, a[1] + (b[1] - a[1]) * f))
                    got = [((d[0] + d[2]) / 2, (d[1] + d[3]) / 2) for d in pen.dots]
                    ctx.check(len(got) == len(want), "vehicles-drawn", lambda: f"{tag}: {len(got)} vehicles at {k * W.DELTAT}, {len(want)} are running")
                    if len(got) == len(want):
                        for (gx, gy), (wx, wy) in zip(got, want):
                            ctx.check(abs(gx - wx) <= span / 2 + 1e-3 and abs(gy - wy) <= span / 2 + 1e-3, "vehicle-position", lambda: f"{tag}: {(gx, gy)} at {k * W.DELTAT}, is at {(wx, wy)}")
                        ctx.count("dots", len(got))
                else:
                    live = sum(1 for v, r in runs if r and r[0][0] <= k <= r[-1][0] + interval)
                    ctx.check(len(pen.dots) <= live, "vehicles-drawn", lambda: f"{tag}: {len(pen.dots)} vehicles at {k * W.DELTAT}, {live} are running")


PARTS = dict(tsd=lambda c, W, k: check_tsd(c, W), curves=lambda c, W, k: check_curves(c, W), maps=check_maps, average=check_average, vehicles=lambda c, W, k: check_vehicles(c, W), anim=check_anim, fancy=check_fancy)


def trimmed(o):
    return o


def run(case, ctx):
    cpp = bool(case["cpp"])
    extra = dict(hard_deterministic_mode=False, duo_noise=0.3) if case.get("noise") else {}

    def fresh():
        W = S.build(case["scn"], cpp=cpp, world_extra=extra)
        W.save_mode = 1
        return W
    W = fresh()
    stop = case.get("stop")
    if stop:
        W.exec_simulation(duration_t2=stop * W.DELTAT)
    else:
        W.exec_simulation()
    before = S.observe(W)
    os.makedirs(f"p{os.getpid()}/out", exist_ok=True)
    os.chdir(f"p{os.getpid()}")
    for p in case["parts"]:
        PARTS[p](ctx, W, case)
        if len(ctx.viol) > 6:
            return
    d = S.diff(before, S.observe(W), tol=0)
    ctx.check(d is None, "figure-changed-state", lambda: f"{case['parts']}: {d}")
    if stop:
        W.exec_simulation()
        X = fresh()
        X.exec_simulation(duration_t2=stop * X.DELTAT)
        X.exec_simulation()
        d = S.diff(S.observe(X), S.observe(W), tol=0)
        ctx.check(d is None, "figure-changed-future", lambda: f"without vs with figures {case['parts']} at step {stop}: {d}")
        ctx.traces += 1
    ctx.outcome(repr(before))
    ctx.state(repr((case["parts"], stop, sorted(before["veh"].items())[:3])))


def shapes():
    """networks of different geometry"""
    yield "row", [N("a", 0, 0), N("b", 300, 100, signal=[7, 5], offset=2), N("c", 700, 0)], [L("p1", "a", "b", 300, 20, sg=[0]), L("q1", "b", "c", 400, 15, lanes=2), L("back", "c", "b", 400, 10, sg=[1]), L("home", "b", "a", 300, 20)]
    yield "column", [N("a", 5, 0), N("b", 5, 200), N("c", 5, 450)], [L("p1", "a", "b", 200, 20, lanes=2), L("q1", "b", "c", 250, 10), L("r1", "c", "b", 250, 20)]
    yield "flat", [N("a", -100, 7), N("b", 100, 7), N("c", 250, 7)], [L("p1", "a", "b", 200, 20), L("q1", "b", "c", 150, 8), L("p2", "a", "b", 230, 16)]
    yield "fork", [N("a", 0, 0), N("b", 100, 100), N("c", 100, -100), N("d", 250, 20)], [L("ab", "a", "b", 150, 20), L("ac", "a", "c", 160, 16), L("bd", "b", "d", 100, 10), L("cd", "c", "d", 120, 12, lanes=3), L("da", "d", "a", 260, 20, eular_dx=200)]
    yield "cells", [N("a", 0, 0), N("b", 50, 10), N("c", 90, 80)], [L("p1", "a", "b", 60, 20, eular_dx=60), L("q1", "b", "c", 90, 20, eular_dx=30), L("r1", "a", "c", 100, 10, eular_dx=45), L("s1", "c", "a", 15, 20)]


def families(tier):
    big = tier == "thorough"
    cases, anim = [], []
    i = ci = 0
    for name, nodes, links in shapes():
        od = ("a", "c") if name != "fork" else ("a", "d")
        for dn, rt, tmax, edt in ((1, 1, 60, 20), (1, 0.7, 42, 14), (1, 0.3, 24, 7), (2, 1, 60, 15), (5, 1, 163, 40), (3, 0.5, 61.5, 13), (1, 1, 50.5, 120), (1, 1, 47, 10)):
            for pi, pat in enumerate(((2, 0, 1, 3), (1,) * 9, (0, 4, 0, 4), (0, 0, 0, 1))):
                for cpp in (0, 1):
                    for si, stop in enumerate((None, 7, 1)):
                        i += 1
                        ci += si == 0 and pi == 0 and cpp == 0
                        if not big and ((pi + ci) % 4 > (1 if stop is None else 0) or stop and (ci + cpp) % 2 == si - 1):
                            continue
                        vs = platoons(*od, pat, gap=2) + platoons(od[1], od[0], (0, 1, 0, 1), gap=3) * (name in ("row", "fork"))
                        sc = dict(world=dict(deltan=dn, reaction_time=rt, tmax=tmax, duo_update_time=20 * rt, eular_dt=edt), nodes=nodes, links=links, vehicles=vs)
                        parts = [["tsd", "vehicles"], ["curves", "average"], ["maps"]]
                        for j, p in enumerate(parts if big or stop is None else [parts[i % 3]]):
                            cases.append(dict(scn=sc, cpp=cpp, stop=stop, parts=p, noise=i % 2))
                        if big or i % 2 == 0:
                            anim.append(dict(scn=sc, cpp=cpp, stop=stop, parts=["anim"], noise=(i // 2) % 2))
                            anim.append(dict(scn=sc, cpp=cpp, stop=stop, parts=["fancy"], noise=(i // 2 + 1) % 2))
    return [Family("figures", cases, run, cpp=True, timeout=300, note="time-space diagrams, cumulative curves, fundamental diagrams, maps and vehicle logs of finished and running simulations, for every way of naming the links"),
            Family("animations", anim, run, cpp=True, timeout=300, note="frames of the animations of links and vehicles")]


RUNNER = Runner("P26", "model_checking",
                "exhaustive enumeration of drawing functions, ways of naming the links, times, display options, networks and timestep lengths, for finished and interrupted simulations; the drawn lines, colours, widths, images and frames are intercepted and compared with the recorded simulation",
                families, ["saving and layout of the figures are intercepted; the label font is replaced", "u = 0 and times outside of the simulated period are outside the alphabet", "colour thresholds of delays in the map of link internals: both documented ranges are accepted"])
