"""C23: the demo draws the right roof after every movement of its slider"""
import math
import runpy
import os
import sys
import types

import common  # noqa: F401
import env
import geom
import roof
from engine import Section

RULE = ("The demo program, run with stand-ins for matplotlib, through histories of 0 to 8 slider positions (0 to 80 degrees). After every "
        "movement the drawn lines are compared with the skeleton of the demo building computed by hand. Non-trivial: at least two movements.")

OUTER = [(0, 0), (10, 0), (10, 5), (45, 5), (45, 20), (10, 20), (10, 25), (0, 25)]
HOLE = [(5, 16), (35, 16), (35, 9), (5, 9)]


def stubs(log):
    class Axes:
        def __init__(self):
            self.lines = []
            log["axes"].append(self)

        def clear(self):
            self.lines = []
            log["clears"] += 1

        def plot(self, xs, ys, zs, *a, **k):
            self.lines.append(tuple((round(x, 4), round(y, 4), round(z, 4)) for x, y, z in zip(xs, ys, zs)))

        def axis(self, *a):
            pass

        def __getattr__(self, n):
            if n.startswith("set_"):
                return lambda *a, **k: None
            raise AttributeError(n)

    class Figure:
        def add_subplot(self, **k):
            return Axes()

        def add_axes(self, r, **k):
            return "slider axes"

    class Slider:
        def __init__(self, ax=None, label=None, valmin=0, valmax=1, valinit=None, **k):
            self.valmin, self.valmax, self.valinit, self.fn = valmin, valmax, valinit, []
            log["sliders"].append(self)

        def on_changed(self, f):
            self.fn.append(f)

    plt = types.ModuleType("matplotlib.pyplot")
    plt.figure = lambda *a, **k: Figure()
    plt.show = lambda: log.__setitem__("shown", log["shown"] + 1) or log["play"]()
    mpl = types.ModuleType("matplotlib")
    w = types.ModuleType("matplotlib.widgets")
    w.Slider = Slider
    mpl.pyplot, mpl.widgets = plt, w
    return {"matplotlib": mpl, "matplotlib.pyplot": plt, "matplotlib.widgets": w}


def generate(g):
    return dict(shape="slider", pitch=[float(g.i(0, 80)) if g.p(80) else round(g.u(0, 80), 2) for _ in range(g.i(0, 8) if g.p(90) else g.i(9, 40))])


def check_lines(lines, pitch):
    """a closed roof of this pitch over the demo building"""
    t = math.tan(math.radians(pitch))
    bad = []
    E = {}
    for l in lines:
        if len(l) != 2:
            return ["a line of %d points" % len(l)]
        E.setdefault(frozenset(l), 0)
        E[frozenset(l)] += 1
    border = set()
    for c in (OUTER, HOLE):
        for i in range(len(c)):
            border.add(frozenset(((float(a), float(b), 0.0) for a, b in (c[i], c[(i + 1) % len(c)]))))
    for b in border:
        if E.get(b, 0) != 1:
            bad.append("wall %s is drawn %d times" % (sorted(b), E.get(b, 0)))
    for e, k in E.items():
        if e not in border and k != 2:
            bad.append("line %s belongs to %d faces" % (sorted(e), k))
    W = [(c[i], c[(i + 1) % len(c)]) for c in (OUTER, HOLE) for i in range(len(c))]
    P = {p for e in E for p in e}
    for x, y, z in P:
        d = min(geom.seg_point(a, b, (x, y)) for a, b in W)
        if abs(z - d * t) > 0.01 * (1 + t):
            bad.append("(%.3f, %.3f) is drawn at z=%.3f instead of %.3f" % (x, y, z, d * t))
    return bad


def judge(case):
    log = dict(axes=[], sliders=[], clears=0, shown=0)
    bad = []

    def play():
        if len(log["sliders"]) != 1 or len(log["axes"]) != 1 or not log["sliders"][0].fn:
            bad.append("no slider or no plot")
            return
        s, ax = log["sliders"][0], log["axes"][0]
        if not (s.valmin == 0 and s.valmax == 80):
            bad.append("the slider runs from %s to %s" % (s.valmin, s.valmax))
        bad.extend(check_lines(ax.lines, s.valinit))
        first = len(ax.lines)
        for p in case["pitch"]:
            for f in s.fn:
                f(p)
            bad.extend("pitch %g: %s" % (p, x) for x in check_lines(ax.lines, p))
            if len(ax.lines) != first and p > 0:
                bad.append("%d lines are drawn instead of %d" % (len(ax.lines), first))
            if bad:
                return
    log["play"] = play
    names = stubs(log)
    old = {n: sys.modules.get(n) for n in names}
    sys.modules.update(names)
    try:
        roof.guarded(runpy.run_path, os.path.join(env.REPO, "demo.py"), run_name="__main__")
    except roof.Hang:
        return ["does not terminate"]
    except Exception as e:
        return ["raises %s: %s" % (type(e).__name__, e)]
    finally:
        for n, m in old.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
    if log["shown"] != 1:
        bad.append("the figure is shown %d times" % log["shown"])
    return bad


SECTIONS = [Section("slider", generate, judge, quick=800, nontrivial=lambda c: len(c["pitch"]) > 1)]
