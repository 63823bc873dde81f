"""C19: circles through contour points and detection of round ends"""
import math

import env  # noqa: F401
import geom
import roof
from engine import Section
from mathutils import Vector

RULE = ("Arcs of known circles (also nearly straight ones, and straight walls divided by vertices); footprints with no, one or several "
        "round ends of 7 to 20 chords on rectangles, crosses and wide naves, parts of rings with small and with sharp turns, from any start vertex, in any direction and place. "
        "Non-trivial: at least one arc.")


def circle(g):
    n = g.i(3, 20)
    R = g.size(0.5, 200)
    S = g.one([0, 20, 500])
    cx, cy = g.u(-S, S), g.u(-S, S)
    a0, sweep = g.u(0, math.tau), g.u(.3, 6.0) * g.one([1, -1])
    t = sorted([0.0, 1.0] + [g.u(0, 1) for _ in range(n - 2)]) if g.p(30) else [k / (n - 1) for k in range(n)]
    if not .1 < t[n // 2] < .9:
        return None
    P = [[geom.f32(cx + R * math.cos(a0 + sweep * s)), geom.f32(cy + R * math.sin(a0 + sweep * s))] for s in t]
    return dict(shape="%d points" % n, P=P, center=[cx, cy], R=R, dim=g.i(2, 3))


def line(g):
    n = g.i(3, 12)
    x, y, dx, dy = g.i(-50, 50), g.i(-50, 50), g.i(-20, 20), g.i(-20, 20)
    if dx == dy == 0:
        return None
    return dict(shape="line", P=[[x + k * dx, y + k * dy] for k in range(n)], dim=g.i(2, 3))


def judge_circle(case):
    roof.lib()
    from bpypolyskel import bpyeuclid as B
    if not roof.helper("fitCircle3Points", "bpyeuclid"):
        return []
    P = [Vector(p if case["dim"] == 2 else p + [4.0]) for p in case["P"]]
    try:
        r = B.fitCircle3Points(P)
    except Exception as e:
        return ["raises %s: %s" % (type(e).__name__, e)]
    if "center" not in case:
        # (rounding errors may leave a circle that is straight for all purposes)
        if r is None or r[1] > 1e6 * geom.dist(case["P"][0], case["P"][-1]):
            return []
        return ["a circle is fitted to points of a straight line: %s" % (r,)]
    if r is None:
        return ["no circle is found"]
    (x, y), R = r
    cx, cy = case["center"]
    # the sagitta of the arc limits the precision
    a, m, b = case["P"][0], case["P"][len(P) // 2], case["P"][-1]
    size = abs(cx) + abs(cy) + case["R"]
    d = max(geom.seg_point(a, b, m), 1e-9)
    w = min(geom.dist(a, m), geom.dist(m, b), geom.dist(a, b))
    tol = 4e-7 * size * (1 + (case["R"] / w) ** 2 + case["R"] / d) + 1e-5 * size
    if abs(x - cx) + abs(y - cy) > tol or abs(R - case["R"]) > tol:
        return ["circle (%.5f, %.5f) R=%.5f instead of (%.5f, %.5f) R=%.5f" % (x, y, R, cx, cy, case["R"])]
    return []


def church(g):
    """contour (ccw) and the centers of its round ends"""
    R = g.u(3, 15)
    kind = g.i(0, 6)
    C, cs = [], []

    def arc(cx, cy, R, a0, a1, n):
        cs.append((cx, cy))
        return [(cx + R * math.cos(a0 + (a1 - a0) * k / n), cy + R * math.sin(a0 + (a1 - a0) * k / n)) for k in range(n + 1)]
    h = math.pi / 2
    L = g.u(1.5, 5) * R
    n, m = g.i(7, 20), g.i(7, 20)
    if kind == 0:       # nave and choir of the same width
        C = [(-L, -R)] + arc(0, 0, R, -h, h, n) + [(-L, R)]
    elif kind == 1:     # round ends on both sides of a wider nave
        e, r2 = g.u(1, 6), g.u(.5, 1) * R
        C = [(0, -R - e)] + arc(0, 0, R, -h, h, n) + [(0, R + e), (-L, R + e)] + arc(-L, 0, r2, h, 3 * h, m) + [(-L, -R - e)]
    elif kind == 2:     # apse on a wider nave
        e, f = g.u(1, 8), g.u(1, 8)
        C = [(-L, -R - e), (0, -R - e)] + arc(0, 0, R, -h, h, n) + [(0, R + f), (-L, R + f)]
    elif kind == 3:     # three conches of different size on a square
        W = 2 * R + g.u(2, 6)
        r2 = g.u(.4, 1) * R
        C = [(-W, -W)]
        C += arc(0, -W, r2, -math.pi, 0, m)
        C += [(W, -W)]
        C += arc(W, 0, R, -h, h, n)
        C += [(W, W), (-W, W)]
    elif kind == 5:     # a part of a ring, outside and inside with many small or few sharp turns
        A, r2 = g.u(2, 5.3), g.u(.4, .8) * R
        n, m = [g.i(7, 24) if g.p(50) else g.i(4, 9) for _ in range(2)]
        if any(29.6 < math.degrees(A / k) < 30.4 for k in (n, m)):
            return None
        C = arc(0, 0, R, 0, A, n) + arc(0, 0, r2, A, 0, m)
        cs = [(0, 0) for k in (n, m) if k >= 7 and A / k < math.radians(30)]
    elif kind == 6:     # conches on two to four sides of a square
        W = R + g.u(2, 6)
        sides = g.i(2, 4)
        for k in range(4):
            co, si = ((1, 0), (0, 1), (-1, 0), (0, -1))[k]
            side = [(-W, -W)]
            if k < sides:
                side += arc(0, -W, g.u(.4, 1) * R, -math.pi, 0, g.i(7, 20))
            C += [(x * co - y * si, x * si + y * co) for x, y in side]
            if k < sides:
                x, y = cs.pop()
                cs.append((x * co - y * si, x * si + y * co))
    else:               # no round end: fewer than seven chords
        n = g.i(2, 4)
        C = [(-L, -R)] + arc(0, 0, R, -h, h, n) + [(-L, R)]
        cs.clear()
    if g.p(30):
        C = [(-x, y) for x, y in reversed(C)]
        cs = [(-x, y) for x, y in cs]
    ang, S = g.u(0, math.tau), g.one([0, 20, 300])
    dx, dy = g.u(-S, S), g.u(-S, S)
    out = geom.motion([C, cs], ang, dx, dy, about=(0, 0))
    return dict(shape="kind %d" % kind, C=[[geom.f32(a), geom.f32(b)] for a, b in out[0]], centers=[list(p) for p in out[1]],
                start=g.i(0, len(C) - 1))


def tower(g):
    n = g.i(13, 40)
    R = g.size(2, 50)
    cx, cy, t = g.u(-50, 50), g.u(-50, 50), g.u(0, 7)
    return dict(shape="tower", C=[[geom.f32(cx + R * math.cos(t + k * math.tau / n)), geom.f32(cy + R * math.sin(t + k * math.tau / n))]
                                  for k in range(n)], centers=[], start=g.i(0, n - 1))


def judge_apse(case):
    B = roof.lib()
    if not roof.helper("detectApses"):
        return []
    C = case["C"][case["start"]:] + case["C"][:case["start"]]
    V = [Vector(p) for p in C]
    try:
        r = B.detectApses([B.Edge2(V[i], V[(i + 1) % len(V)]) for i in range(len(V))])
    except Exception as e:
        return ["raises %s: %s" % (type(e).__name__, e)]
    got = [tuple(p) for p in (r or [])]
    bad = []
    S = max(abs(a) for p in C for a in p) + 1
    for p in case["centers"]:
        if not any(geom.dist(p, q) < 1e-4 * S + .02 for q in got):
            bad.append("the round end around (%.3f, %.3f) is not found: %s" % (p[0], p[1], got))
    for q in got:
        if not any(geom.dist(p, q) < 1e-4 * S + .02 for p in case["centers"]):
            bad.append("there is no round end around (%.3f, %.3f)" % q)
    return bad


SECTIONS = [Section("circle", circle, judge_circle, quick=12000), Section("line", line, judge_circle, quick=2000, nontrivial=lambda c: False),
            Section("round ends", church, judge_apse, quick=8000, nontrivial=lambda c: bool(c["centers"])),
            Section("towers", tower, judge_apse, quick=800)]
