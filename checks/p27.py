"""P27: the interactive result viewer shows the recorded state of the selected time and of the highlighted vehicle, whatever sequence of operations the user performed before."""
import contextlib, io, itertools, math, os, sys, warnings
import numpy as np
from mc import env
from mc.runner import Runner, Family
from mc.nets import *
from mc import scenario as S

EPS = 1e-6
QT = {}


def qt():
    """the Qt application of this worker (without a screen)"""
    if not QT:
        os.environ["QT_QPA_PLATFORM"] = "offscreen"
        os.environ.setdefault("XDG_RUNTIME_DIR", os.path.join(env.scratch(), "xdg"))
        os.makedirs(os.environ["XDG_RUNTIME_DIR"], mode=0o700, exist_ok=True)
        from PyQt5 import QtWidgets, QtCore, QtGui
        QtCore.qInstallMessageHandler(lambda *a: None)
        QT.update(app=QtWidgets.QApplication(["viewer"]), w=QtWidgets, c=QtCore, g=QtGui, errors=[], warned=0, answer=("", False), menu=None)
        sys.excepthook = lambda t, v, tb: QT["errors"].append(f"{t.__name__}: {v}")

        def warning(*a, **k):
            QT["warned"] += 1
        QtWidgets.QMessageBox.warning = warning
        QtWidgets.QInputDialog.getText = lambda *a, **k: QT["answer"]

        def pick(menu, *a, **k):
            acts = [x for x in menu.actions() if not x.isSeparator()]
            QT["entries"] = [x.text() for x in acts]
            return acts[QT["menu"]] if QT["menu"] is not None else None
        QtWidgets.QMenu.exec_ = pick
        QtWidgets.QMenu.exec = pick
    return QT


class Brush:
    """a painter that records what is painted, in scene coordinates"""

    def __init__(self):
        self.at, self.pen, self.brush = (0, 0), None, None
        self.lines, self.texts, self.dots = [], [], []

    def setPen(self, *a):
        g = QT["g"]
        self.pen = a[0] if isinstance(a[0], g.QPen) else g.QPen(g.QColor(a[0]))

    def setBrush(self, b):
        self.brush = QT["g"].QColor(b) if not isinstance(b, QT["g"].QBrush) else b.color()

    def drawPath(self, p):
        pts = [p.elementAt(i) for i in range(p.elementCount())]
        for a, b in zip(pts, pts[1:]):
            self._line((a.x, a.y), (b.x, b.y))

    def drawLine(self, *a):
        if len(a) == 2:
            a = (a[0].x(), a[0].y(), a[1].x(), a[1].y())
        elif len(a) == 1:
            a = (a[0].x1(), a[0].y1(), a[0].x2(), a[0].y2())
        self._line(a[:2], a[2:])

    def _line(self, a, b):
        c = self.pen.color()
        self.lines.append(((a[0] + self.at[0], a[1] + self.at[1]), (b[0] + self.at[0], b[1] + self.at[1]), (c.red(), c.green(), c.blue(), c.alpha()), self.pen.widthF()))

    def drawText(self, *a):
        xy = a[:2] if len(a) > 2 else (a[0].x(), a[0].y())
        self.texts.append(((xy[0] + self.at[0], xy[1] + self.at[1]), a[-1]))

    def drawEllipse(self, *a):
        if len(a) == 1:
            r = a[0]
            a = (r.x(), r.y(), r.width(), r.height())
        elif len(a) == 3:
            a = (a[0].x() - a[1], a[0].y() - a[2], 2 * a[1], 2 * a[2])
        self.dots.append(((a[0] + a[2] / 2 + self.at[0], a[1] + a[3] / 2 + self.at[1]), (self.brush.red(), self.brush.green(), self.brush.blue())))

    def fontMetrics(self):
        return QT["g"].QFontMetrics(QT["app"].font())

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Viewer:
    """the viewer as a user sees it"""

    def __init__(self, W):
        import uxsim.ResultGUIViewer.ResultGUIViewer as G
        q = qt()
        G.QApplication = lambda *a: q["app"]
        with contextlib.redirect_stdout(io.StringIO()):
            _, self.win = G.launch_World_viewer(W, return_app_window=True)
        self.W = W
        w = q["w"]
        self.slider = self.win.findChildren(w.QSlider)[0]
        self.view = self.win.findChildren(w.QGraphicsView)[0]
        self.actions = {}

        def walk(m):
            for a in m.actions():
                if a.menu():
                    walk(a.menu())
                elif a.text():
                    self.actions[a.text()] = a
        walk(self.win.menuBar())
        self.buttons = {b.text(): b for b in self.win.findChildren(w.QPushButton)}
        self.timers = [t for t in vars(self.win).values() if isinstance(t, q["c"].QTimer)] or self.win.findChildren(q["c"].QTimer)

    def labels(self):
        return [x.text() for x in self.win.findChildren(QT["w"].QLabel)]

    def paint(self):
        """per scene item: name (links) and what it paints"""
        out = []
        for it in self.view.scene().items():
            if it.isVisible():
                b = Brush()
                p = it.scenePos()
                b.at = (p.x(), p.y())
                it.paint(b, None, None)
                out.append((it, b))
        return out

    def close(self):
        for t in self.timers:
            t.stop()
        self.win.close()
        self.win.deleteLater()
        QT["app"].sendPostedEvents(None, QT["c"].QEvent.DeferredDelete)


def steps(W):
    return W.LINKS[0].k_mat.shape[0]


class Model:
    """what the viewer has to show after a sequence of operations"""

    def __init__(self, W, V):
        self.W, self.V, self.t, self.side, self.names, self.veh, self.playing, self.warned = W, V, 0, None, True, None, False, 0
        self.tmax = max(steps(W), 1)  # a simulation shorter than an interval has one (empty) interval
        self.dt = W.LINKS[0].edie_dt

    def key(self):
        return (self.t, self.side, self.names, self.veh, self.playing)

    def do(self, op, view):
        """perform op on the viewer and on the model"""
        k = op[0]
        if k == "t":
            view.slider.setValue(op[1])
            self.t = min(op[1], max(self.tmax - 1, 0))
        elif k == "tick":
            if self.playing:
                for t in view.timers:
                    t.timeout.emit()
                self.t = (self.t + 1) % self.tmax if self.tmax else 0
        elif k == "hi":
            QT["answer"] = (op[1] or "", op[1] is not None)
            with contextlib.redirect_stdout(io.StringIO()):
                view.actions["Highlight Vehicle by ID"].trigger()
            if op[1] in self.W.VEHICLES:
                self.veh = op[1]
            elif op[1]:
                self.warned += 1
        elif k == "side":
            view.actions["Right-handed" if op[1] == 1 else "Left-handed"].trigger()
            self.side = op[1]
        elif k == "names":
            view.actions["Show Names"].trigger()
            self.names = not self.names
        elif k == "play":
            view.buttons["Play"].click()
            self.playing = True
        elif k == "stop":
            view.buttons["Stop"].click()
            self.playing = False

    def places(self):
        """(link, fraction) of the highlighted vehicle's recorded positions in the shown interval"""
        if self.veh is None:
            return []
        v = self.W.VEHICLES[self.veh]
        out = []
        for t, x, l in zip(v.log_t, v.log_x, v.log_link):
            if l != -1 and int(float(t) / self.dt + EPS) == self.t:
                l = self.W.get_link(l)
                out.append((l.name, float(x) / l.length))
        return out


def near(a, b, tol=1e-3):
    return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol


def judge(ctx, view, m, tag):
    from matplotlib import colormaps
    W = m.W
    ctx.transitions += 1
    if QT["errors"]:
        ctx.check(False, "viewer-crash", lambda: f"{tag}: {QT['errors'][0]}")
        return False
    if m.tmax:
        ctx.check(view.slider.value() == m.t, "time", lambda: f"{tag}: slider at {view.slider.value()}, expected {m.t}")
        ctx.check(view.slider.minimum() == 0 and view.slider.maximum() == m.tmax - 1, "time-range", lambda: f"{tag}: slider {view.slider.minimum()}..{view.slider.maximum()}, {m.tmax} intervals")
    got = [tuple(float(x) for x in s.split("/")) for s in view.labels() if "/" in s]
    ctx.check(len(got) == 1 and near(got[0], (m.t * m.dt, m.tmax * m.dt), 1e-6), "time-label", lambda: f"{tag}: {view.labels()}, expected {m.t * m.dt}/{m.tmax * m.dt}")
    ctx.check(view.buttons["Play"].isEnabled() == (not m.playing) and view.buttons["Stop"].isEnabled() == m.playing and [t.isActive() for t in view.timers] == [m.playing], "play-state", lambda: f"{tag}: {view.buttons['Play'].isEnabled()}, {view.buttons['Stop'].isEnabled()}, {[t.isActive() for t in view.timers]}, expected playing={m.playing}")
    ctx.check(QT["warned"] == m.warned, "unknown-vehicle", lambda: f"{tag}: {QT['warned']} warnings, expected {m.warned}")
    ctx.check(view.actions["Show Names"].isChecked() == m.names, "names-option", lambda: tag)
    try:
        items = view.paint()
    except Exception as e:
        ctx.check(False, "viewer-crash", lambda: f"{tag}: painting: {type(e).__name__}: {e}")
        return False
    texts = sorted(t for _, b in items for _, t in b.texts)
    want = sorted([n.name for n in W.NODES] + [l.name for l in W.LINKS]) if m.names else []
    ctx.check(texts == want, "names", lambda: f"{tag}: {texts}, expected {want}")
    # nodes
    xs, ys = [n.x for n in W.NODES], [n.y for n in W.NODES]
    size = max(max(xs) - min(xs), max(ys) - min(ys))
    place = {n.name: ((n.x - min(xs)) / size * 760 + 20, (max(ys) - n.y) / size * 760 + 20) for n in W.NODES}
    white = sorted(p for _, b in items for p, c in b.dots if c == (255, 255, 255))
    ctx.check(len(white) == len(place) and all(near(a, b) for a, b in zip(white, sorted(place.values()))), "nodes", lambda: f"{tag}: {white}, expected {place}")
    for it, b in items:
        for p, t in b.texts:
            if t in place:
                ctx.check(math.dist(p, place[t]) < 12, "node-name", lambda: f"{tag}: {t} at {p}, the node at {place[t]}")
    # links
    paths = {}
    drawn = [it.name for it, b in items if not b.dots]
    ctx.check(sorted(drawn) == sorted(l.name for l in W.LINKS), "links", lambda: f"{tag}: {drawn}")
    for it, b in items:
        if b.dots:
            continue
        l = W.get_link(it.name)
        A, B = place[l.start_node.name], place[l.end_node.name]
        path = it.mapToScene(it.shape()) if hasattr(it, "mapToScene") else it.shape()
        paths[l.name] = path
        s, e = path.pointAtPercent(0), path.pointAtPercent(1)
        ctx.check(near((s.x(), s.y()), A) and near((e.x(), e.y()), B), "link-ends", lambda: f"{tag}: {l.name} {(s.x(), s.y())}..{(e.x(), e.y())}, nodes {A}, {B}")
        mid = path.pointAtPercent(.5)
        cross = (B[0] - A[0]) * (mid.y() - A[1]) - (B[1] - A[1]) * (mid.x() - A[0])  # > 0: to the right of the direction of travel (the y axis points down)
        if m.side is not None:
            ctx.check(cross * m.side > 0, "side", lambda: f"{tag}: {l.name} lies {'right' if cross > 0 else 'left'}, expected {m.side}")
        n = l.k_mat.shape[1]
        rows = l.k_mat.shape[0]
        if not (n and m.t < rows):
            ctx.check(b.lines and near(b.lines[0][0], A) and near(b.lines[-1][1], B), "segments", lambda: f"{tag}: {l.name}: {b.lines}, nodes {A}, {B}")
            ctx.count("plain_links", 1)
        else:
            ctx.check(len(b.lines) == n, "segments", lambda: f"{tag}: {l.name}: {len(b.lines)} segments, {n} cells")
            if len(b.lines) != n:
                continue
            for i, (p, q, c, w) in enumerate(b.lines):
                k, v = l.k_mat[m.t, i], l.v_mat[m.t, i]
                col = colormaps["viridis"](v / l.u)
                ctx.check(c == (int(col[0] * 255), int(col[1] * 255), int(col[2] * 255), 255), "segment-colour", lambda: f"{tag}: {l.name} cell {i}: {c}, expected {col} for {v}/{l.u}")
                ctx.check(abs(w - (k * l.delta * l.number_of_lanes * 9.5 + .5)) < 1e-6, "segment-width", lambda: f"{tag}: {l.name} cell {i}: {w}, expected {k * l.delta * l.number_of_lanes * 9.5 + .5} for density {k}")
                a, z = path.pointAtPercent(i / n), path.pointAtPercent((i + 1) / n)
                ctx.check(near(p, (a.x(), a.y()), .01) and near(q, (z.x(), z.y()), .01), "segment-place", lambda: f"{tag}: {l.name} cell {i}: {p}..{q}, expected {(a.x(), a.y())}..{(z.x(), z.y())}")
            ctx.count("cells", n)
        for p, t in b.texts:
            ctx.check(t == l.name and math.dist(p, (mid.x(), mid.y())) < 30, "link-name", lambda: f"{tag}: {t} at {p} on {l.name} around {(mid.x(), mid.y())}")
    # highlighted vehicle
    red = sorted(p for _, b in items for p, c in b.dots if c == (255, 0, 0))
    exp = []
    for n, f in m.places():
        if n in paths:
            p = paths[n].pointAtPercent(min(f, 1))
            exp.append((p.x(), p.y()))
    exp.sort()
    rest = list(exp)
    ok = len(red) == len(exp)
    for p in red:
        hit = [x for x in rest if near(x, p, .01)]
        ok = ok and bool(hit)
        if hit:
            rest.remove(hit[0])
    ctx.check(ok, "highlight", lambda: f"{tag}: {red}, expected {exp} for {m.veh} at interval {m.t}")
    ctx.count("dots", len(exp))
    ctx.state(repr(m.key()))
    return True


def world(case):
    W = S.build(case["scn"], cpp=bool(case["cpp"]))
    W.save_mode = 1
    if case.get("stop"):
        W.exec_simulation(duration_t2=case["stop"] * W.DELTAT)
    else:
        W.exec_simulation()
    return W


def alphabet(W):
    veh = list(W.VEHICLES)
    n = steps(W)
    ops = [("t", k) for k in sorted({0, min(1, max(n - 1, 0)), max(n - 1, 0)})]
    return ops + [("tick",), ("hi", veh[0]), ("hi", veh[-1]), ("hi", "nobody"), ("hi", None), ("side", 1), ("side", -1), ("names",), ("play",), ("stop",)]


def de_bruijn(k, n):
    """a cyclic word that contains every word of length n over k letters"""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def drive(ctx, W, seq, view=None, every=True):
    QT["errors"].clear()
    QT["warned"] = 0
    view = Viewer(W)
    m = Model(W, view)
    try:
        if not judge(ctx, view, m, "opened"):
            return False
        for i, op in enumerate(seq):
            m.do(op, view)
            if every or i == len(seq) - 1:
                if not judge(ctx, view, m, f"after {[o if len(o) > 1 else o[0] for o in seq[max(0, i - 5):i + 1]]}"):
                    return False
            if len(ctx.viol) > 6:
                return False
    finally:
        view.close()
    return True


def run(case, ctx):
    qt()
    W = world(case)
    before = S.observe(W)
    os.makedirs(f"p{os.getpid()}", exist_ok=True)
    os.chdir(f"p{os.getpid()}")
    ops = alphabet(W)
    if case["how"] == "words":
        for seq in itertools.product(ops, repeat=case["depth"]):
            if not drive(ctx, W, seq):
                return
            ctx.count("sequences", 1)
    else:
        word = de_bruijn(len(ops), case["depth"])
        if not drive(ctx, W, [ops[i] for i in word]):
            return
        ctx.count("sequences", len(ops) ** case["depth"])
    d = S.diff(before, S.observe(W), tol=0)
    ctx.check(d is None, "viewer-changed-state", lambda: f"{d}")
    ctx.outcome(repr(before))
    ctx.traces += 1


TABLES = {"Basic Statistics": "basic_to_pandas", "Link Statistics": "link_to_pandas", "OD Demand Statistics": "od_to_pandas", "Vehicle Trip Statistics": "vehicle_trip_to_pandas", "Vehicle Detailed Statistics": "vehicles_to_pandas"}


def run_tables(case, ctx):
    """tables, context menus and exports"""
    qt()
    W = world(case)
    here = f"p{os.getpid()}"
    os.makedirs(here + "/out", exist_ok=True)
    os.chdir(here)
    QT["errors"].clear()
    c, w = QT["c"], QT["w"]
    view = Viewer(W)
    before = S.observe(W)
    A = W.analyzer
    try:
        for names in case["orders"]:
            seen = set(view.win.findChildren(w.QDialog))
            for a in names:
                tag = f"{a} of {names}"
                df = getattr(A, TABLES[a])().copy()
                view.actions[a].trigger()
                ctx.transitions += 1
                if not ctx.check(not QT["errors"], "viewer-crash", lambda: f"{tag}: {QT['errors']}"):
                    return
                new = [d for d in view.win.findChildren(w.QDialog) if d not in seen]
                seen.update(new)
                if not ctx.check(len(new) == 1 and new[0].isVisible(), "table", lambda: f"{tag}: {len(new)} tables"):
                    continue
                t = new[0].findChildren(w.QTableView)[0].model()
                got = [[t.data(t.index(i, j)) for j in range(t.columnCount())] for i in range(t.rowCount())]
                exp = [[str(df.iloc[i, j]) for j in range(df.shape[1])] for i in range(len(df))]
                ctx.check(got == exp, "table-values", lambda: f"{tag}: {got[:2]}, expected {exp[:2]}")
                ctx.check([t.headerData(j, c.Qt.Horizontal) for j in range(t.columnCount())] == [str(x) for x in df.columns] and [t.headerData(i, c.Qt.Vertical) for i in range(t.rowCount())] == [str(x) for x in df.index], "table-header", lambda: f"{tag}: {[t.headerData(j, c.Qt.Horizontal) for j in range(t.columnCount())]}")
                ctx.check(t.headerData(0, c.Qt.Horizontal, c.Qt.DecorationRole) is None and t.data(t.index(0, 0), c.Qt.DecorationRole) is None, "table-roles", lambda: tag)
                ctx.count("rows", len(df))
            ctx.state(repr(names))
        # context menus of the links
        calls = []
        figs = ("time_space_diagram_traj", "time_space_diagram_density", "cumulative_curves", "network_anim", "network_fancy")
        for f in figs:
            setattr(A, f, (lambda f: lambda *a, **k: calls.append((f, a, k)))(f))
        ev = type("E", (), dict(screenPos=lambda s: c.QPoint(3, 4), accept=lambda s: None, pos=lambda s: c.QPointF(0, 0), scenePos=lambda s: c.QPointF(0, 0)))()
        for it in view.view.scene().items():
            n = getattr(it, "name", None)
            if n not in [l.name for l in W.LINKS]:
                continue
            for k, f in ((None, None), (0, None), (1, figs[0]), (2, figs[1]), (3, figs[2])):
                calls.clear()
                QT["menu"] = k
                it.contextMenuEvent(ev)
                ctx.transitions += 1
                got = [(x, W.get_link((a or list(kw.values()))[0]).name) for x, a, kw in calls]
                ctx.check(got == ([] if f is None else [(f, n)]) and QT["entries"][0] == n, "link-menu", lambda: f"entry {k} of {n}: {got}, {QT['entries']}")
        for a, f, kw in (("Export Network Animation (link-level)", "network_anim", 0), ("Export Network Animation (link segment-level)", "network_anim", 1), ("Export Network Animation (vehicle-level)", "network_fancy", None)):
            calls.clear()
            view.actions[a].trigger()
            ctx.transitions += 1
            ctx.check(len(calls) == 1 and calls[0][0] == f and (kw is None or calls[0][2].get("detailed") == kw or calls[0][1][:1] == (kw,)) and not QT["errors"], "export", lambda: f"{a}: {calls}, {QT['errors']}")
        # csv files
        import pandas as pd
        for f in os.listdir("out"):
            os.unlink("out/" + f)
        view.actions["Export Results to CSV files"].trigger()
        ctx.transitions += 1
        ctx.check(not QT["errors"], "viewer-crash", lambda: f"csv: {QT['errors']}")
        want = dict(basic="basic_to_pandas", od="od_to_pandas", mfd="mfd_to_pandas", link="link_to_pandas", link_traffic_state="link_traffic_state_to_pandas", vehicles="vehicles_to_pandas")
        ctx.check(sorted(os.listdir("out")) == sorted(f"data_{k}.csv" for k in want), "csv-files", lambda: f"{os.listdir('out')}")
        for k, f in want.items():
            p = f"out/data_{k}.csv"
            if os.path.exists(p):
                df = getattr(A, f)()
                buf = io.StringIO()
                df.to_csv(buf, index=False)
                ctx.check(open(p).read() == buf.getvalue(), "csv-values", lambda: f"{p} differs from {f}()")
        d = S.diff(before, S.observe(W), tol=0)
        ctx.check(d is None, "viewer-changed-state", lambda: f"{d}")
        ctx.outcome(repr(before))
        ctx.traces += 1
    finally:
        QT["menu"] = None
        view.close()


def shapes():
    yield "row", [N("a", 0, 0), N("b", 300, 100), N("c", 700, 0)], [L("p1", "a", "b", 300, 20), L("q1", "b", "c", 400, 15, lanes=2), L("back", "c", "b", 400, 10), L("home", "b", "a", 300, 20)]
    yield "column", [N("a", 5, 0), N("b", 5, 200), N("c", 5, 450)], [L("p1", "a", "b", 200, 20, lanes=2), L("q1", "b", "c", 250, 10), L("r1", "c", "b", 250, 20)]
    yield "fork", [N("d", 250, 20), N("c", 100, -100), N("b", 100, 100), N("a", 0, 0)], [L("ab", "a", "b", 150, 20), L("ac", "a", "c", 160, 16), L("bd", "b", "d", 100, 10), L("cd", "c", "d", 120, 12, lanes=3), L("da", "d", "a", 260, 20, eular_dx=200)]
    yield "cells", [N("c", 90, 80), N("b", 50, 10), N("a", 0, 0)], [L("p1", "a", "b", 60, 20, eular_dx=60), L("q1", "b", "c", 90, 20, eular_dx=30), L("s1", "c", "a", 15, 20)]


def families(tier):
    big = tier == "thorough"
    words, tabs = [], []
    i = 0
    for name, nodes, links in shapes():
        od = ("a", "d") if name == "fork" else ("a", "c")
        for dn, rt, tmax, edt in ((1, 1, 60, 20), (1, 0.7, 42, 14), (1, 0.3, 24, 7.2), (2, 1, 60, 15), (5, 1, 163, 40), (1, 1, 40, 120)):
            for pi, pat in enumerate(((2, 0, 1, 3), (0, 4, 0, 4))):
                for cpp in (0, 1):
                    for stop in (None, 13):
                        i += 1
                        vs = platoons(*od, pat, gap=2)
                        sc = dict(world=dict(deltan=dn, reaction_time=rt, tmax=tmax, duo_update_time=20 * rt, eular_dt=edt), nodes=nodes, links=links, vehicles=vs)
                        base = dict(scn=sc, cpp=cpp, stop=stop)
                        if big or i % 3 == 0 or stop is None and pi == 0:
                            words.append(dict(base, how="words", depth=2 if big else 1))
                            words.append(dict(base, how="tour", depth=3 if big else 2))
                        if i % 12 == 0:
                            words.append(dict(base, how="words", depth=2))
                            words.append(dict(base, how="tour", depth=4 if big and i % 48 == 0 else 3))
                        if stop is None:
                            o = list(TABLES)
                            tabs.append(dict(base, orders=[list(p) for p in itertools.permutations(o, 2)] + [o, o[::-1]]))
    return [Family("operations", words, run, cpp=True, timeout=600, note="all sequences of slider, play, stop, tick, highlight, curve, and name operations up to a depth, from a fresh viewer and inside one session"),
            Family("tables", tabs, run_tables, cpp=True, timeout=300, note="tables in every order of two, context menus of every link, exports")]


RUNNER = Runner("P27", "model_checking",
                "exhaustive enumeration of the sequences of user operations on the viewer up to a depth (fresh sessions and one long session containing every sequence) for several networks, timestep lengths and engines; after every operation the painted links, dots, labels and controls are compared with a reference model of the viewer",
                families, ["Qt runs without a screen; items are painted by a recording painter; dialogs are answered by the harness", "the timer of the animation is fired by the harness", "at least one vehicle, and two nodes at different places"])
