"""C17: lines, rays and edges of the plane"""
import math
from fractions import Fraction as F

import env  # noqa: F401
import geom
import roof
from engine import Section
from mathutils import Vector

RULE = ("Lines and rays through float32 points, built by all constructors, general, axis parallel, parallel and anti-parallel, with "
        "coordinates from 1e-2 to 1e4; judged against exact rational arithmetic; only decisions with a margin are judged. Non-trivial: "
        "the lines are neither parallel nor perpendicular to an axis.")


def point(g, S):
    return [geom.f32(g.u(-S, S)), geom.f32(g.u(-S, S))]


def generate(g):
    S = g.one([1.0, 10.0, 100.0, 10000.0])
    p, q = point(g, S), point(g, S)
    v, w = point(g, g.size(.05, S)), point(g, g.size(.05, S))
    rel = g.i(0, 9)
    k = g.one([1.0, -1.0, 0.5, -2.0])
    if rel == 0:
        w = [v[0] * k, v[1] * k]
    elif rel == 1:
        v[0] = 0.0
    elif rel == 2:
        w[1] = 0.0
    elif rel == 3:
        v[0] = 0.0
        w[1] = 0.0
    elif rel == 4:      # parallel to an axis and to each other
        i = g.i(0, 1)
        v[i] = w[i] = 0.0
    elif rel in (5, 6):      # they meet at a chosen place, also behind the start of a ray or just at it
        a, b = [g.u(-2, 2) if rel == 5 or g.i(0, 2) == 0 else g.one([-1, 1]) * g.size(1e-4, .1) for i in range(2)]
        q = [geom.f32(p[0] + a * v[0] - b * w[0]), geom.f32(p[1] + a * v[1] - b * w[1])]
    if math.hypot(*v) < 1e-2 or math.hypot(*w) < 1e-2:
        return None
    return dict(p=p, v=v, q=q, w=w, other=point(g, S), make=[g.i(0, 3), g.i(0, 3)], ray=[g.i(0, 1), g.i(0, 1)], z=g.i(-5, 5))


def build(B, p, v, make, ray):
    P, V = Vector(p), Vector(v)
    if ray:
        return B.Ray2(P, V), v
    if make == 0:
        return B.Line2(P, V, "pv"), v
    e = B.Edge2(P, P + V)
    v = [e.p2.x - e.p1.x, e.p2.y - e.p1.y]
    if make == 1:
        return B.Line2(e), [geom.f32(v[0]), geom.f32(v[1])]
    if make == 2:
        r = B.Ray2(P, V)
        return B.Line2(r), [geom.f32(r.p2.x - r.p1.x), geom.f32(r.p2.y - r.p1.y)]
    l = B.Line2(P, V, "pv")
    l2 = B.Line2(l)
    return l2, [geom.f32(l.p2.x - l.p1.x), geom.f32(l.p2.y - l.p1.y)]


def judge(case):
    roof.lib()
    from bpypolyskel import bpyeuclid as B
    bad = []
    p, q = case["p"], case["q"]
    try:
        A, v = build(B, p, case["v"], case["make"][0], case["ray"][0])
        C, w = build(B, q, case["w"], case["make"][1], case["ray"][1])
        got, sym = A.intersect(C), C.intersect(A)
        D = B.Line2(Vector(p), Vector(case["v"]), "pv").distance(Vector(case["other"]))
        e = B.Edge2(Vector((p[0], p[1], 3.0)), Vector((q[0], q[1], 3.0)))
        verts = [Vector((9.0, 9.0, 9.0)), Vector((p[0], p[1], case["z"])), Vector((q[0], q[1], case["z"]))]
        off = Vector((case["other"][0], case["other"][1], 0.0))
        e2 = B.Edge2(1, 2, None, verts, off)
        nn = Vector((0.6, 0.8, 0.0))
        e3 = B.Edge2(2, 1, nn, verts, Vector((0.0, 0.0, 0.0)))
    except Exception as x:
        return ["raises %s: %s" % (type(x).__name__, x)]
    fv, fw, fp, fq = [[F(a) for a in b] for b in (v, w, p, q)]
    d = fw[1] * fv[0] - fw[0] * fv[1]
    sin = abs(float(d)) / (math.hypot(*v) * math.hypot(*w))
    size = max(map(abs, p + q + [1.0]))
    if sin < 3e-6:
        for x in (got, sym):
            if x is not None:
                bad.append("parallel lines meet at %s" % (tuple(x),))
    elif sin > 0.01:
        dx, dy = fp[0] - fq[0], fp[1] - fq[1]
        ua, ub = (fw[0] * dy - fw[1] * dx) / d, (fv[0] * dy - fv[1] * dx) / d
        x, y = float(fp[0] + ua * fv[0]), float(fp[1] + ua * fv[1])
        # margin in units of length along the rays
        ma, mb = float(ua) * math.hypot(*v), float(ub) * math.hypot(*w)
        eps = 1e-5 * (size + abs(x) + abs(y)) / sin
        states = []
        for m, r in ((ma, case["ray"][0]), (mb, case["ray"][1])):
            states.append(True if not r or m > eps else False if m < -eps else None)
        want = False if False in states else None if None in states else True
        for r, name in ((got, "A.intersect(B)"), (sym, "B.intersect(A)")):
            if want is False and r is not None:
                bad.append("%s is %s, but the rays do not meet" % (name, tuple(r)))
            if want and r is None:
                bad.append("%s is None, they meet at (%.6g, %.6g)" % (name, x, y))
            if r is not None and want is not False and abs(r[0] - x) + abs(r[1] - y) > eps:
                bad.append("%s is %s instead of (%.6g, %.6g)" % (name, tuple(r), x, y))
    o = case["other"]
    vv = case["v"]
    h = abs(vv[0] * (o[1] - p[1]) - vv[1] * (o[0] - p[0])) / math.hypot(*vv)
    if abs(h - D) > 1e-5 * (size + geom.dist(o, p)) * (1 + geom.dist(o, p) / math.hypot(*vv)):
        bad.append("distance of %s to the line is %.6g instead of %.6g" % (o, D, h))
    L = geom.dist(p, q)
    # Edge2
    if tuple(e.p1) != tuple(p) or tuple(e.p2) != tuple(q):
        bad.append("the ends of the edge are %s, %s" % (tuple(e.p1), tuple(e.p2)))
    if abs(e.length_squared() - L * L) > 1e-5 * (size * size):
        bad.append("squared length of the edge is %.6g instead of %.6g" % (e.length_squared(), L * L))
    if L > 1e-3 * size:
        u = ((q[0] - p[0]) / L, (q[1] - p[1]) / L)
        if abs(e.norm[0] - u[0]) + abs(e.norm[1] - u[1]) > 1e-3:
            bad.append("unit vector of the edge is %s instead of %s" % (tuple(e.norm), u))
    if (e2.i1, e2.i2, e3.i1, e3.i2) != (1, 2, 2, 1):
        bad.append("the edge does not remember its vertex numbers")
    for a, b in ((e2.p1, (p[0] - o[0], p[1] - o[1])), (e2.p2, (q[0] - o[0], q[1] - o[1])), (e3.p1, q), (e3.p2, p), (e3.norm, (.6, .8))):
        if len(a) != 2 or abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1e-6 * (size + abs(o[0]) + abs(o[1])):
            bad.append("edge given by vertex numbers: %s instead of %s" % (tuple(a), b))
    if [tuple(x) for x in verts] != [(9.0, 9.0, 9.0), (p[0], p[1], case["z"]), (q[0], q[1], case["z"])]:
        bad.append("the vertices have been changed")
    return bad


def nontrivial(case):
    v, w = case["v"], case["w"]
    return v[0] * v[1] * w[0] * w[1] != 0 and abs(v[0] * w[1] - v[1] * w[0]) > .01 * math.hypot(*v) * math.hypot(*w)


def label(case):
    return "%s-%s" % tuple("line ray".split()[r] for r in case["ray"])


SECTIONS = [Section("lines", generate, judge, quick=30000, nontrivial=nontrivial, label=label)]
