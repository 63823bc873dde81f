"""C13: a dormer only changes the roof above itself"""
import math

import common
import gen
import geom
import roof
from common import tup
from engine import Section

RULE = ("Bodies of several shapes, with and without courtyards, with one to four rectangular protrusions on walls of the outer contour, also "
        "with slightly inclined sides and around the start vertex; the roof is compared with the roof of the body alone and with the two ridge ends of every dormer, computed "
        "by hand. Only where the valleys of the dormer lie well inside the face of its wall. Non-trivial: all.")
BODIES = ["convex", "lshape", "ushape", "zshape", "trapezoids", "recti_free", "rect_hole", "hole_convex", "regular"]


def put(c, dormers):
    """outer contour with the dormers [wall, position, width, depth]; index of the body's vertices"""
    out, at = [], []
    for i, p in enumerate(c):
        at.append(len(out))
        out.append(p)
        q = c[(i + 1) % len(c)]
        L = geom.dist(p, q)
        u = ((q[0] - p[0]) / L, (q[1] - p[1]) / L)

        def pt(s, t):
            return (p[0] + u[0] * s - u[1] * t, p[1] + u[1] * s + u[0] * t)
        for _, a, w, d, f in sorted(x for x in dormers if x[0] == i):
            e = d * math.tan(f)
            out += [pt(a, 0), pt(a + e, -d), pt(a + w - e, -d), pt(a + w, 0)]
    return out, at


def ends(c, dm):
    """(inner end, outer end) of the ridge, with heights for pitch 1; the sides of the dormer are inclined by the angle f"""
    i, a, w, d, f = dm
    p, q = c[i], c[(i + 1) % len(c)]
    L = geom.dist(p, q)
    u = ((q[0] - p[0]) / L, (q[1] - p[1]) / L)

    def pt(s, t):
        return (p[0] + u[0] * s - u[1] * t, p[1] + u[1] * s + u[0] * t)
    h = w / 2 * math.cos(f) / (1 - math.sin(f))
    g = (w / 2 - d * math.tan(f)) * math.cos(f) / (1 - math.sin(f))
    return pt(a + w / 2, h) + (h,), pt(a + w / 2, g - d) + (g,)


def generate(g):
    name = g.one(BODIES)
    c = gen.SHAPES[name](g)
    if c is None or sum(map(len, c)) > 24:
        return None
    k = g.one([1.0, 1.5, 2.5, 2.5, 4.0])     # big enough for dormers
    c = [[(k * x, k * y) for x, y in q] for q in c]
    m = common.model(geom.f32c(c))
    if m is None or not m.strict():
        return None
    walls = [i for i, p in enumerate(c[0]) if geom.dist(p, c[0][(i + 1) % len(c[0])]) > 6]
    if not walls:
        return None
    dms = []
    for _ in range(g.one([1, 1, 2, 3, 4])):
        i = g.one(walls)
        L = geom.dist(c[0][i], c[0][(i + 1) % len(c[0])])
        w, d = g.u(1.5, min(9, L / 3.75)), g.u(1.2, 8)
        m = max(2.0, 1.35 * w)
        if L < w + 2 * m:
            continue
        a = g.u(m, L - w - m)
        if any(j == i and not (a > b + x + max(m, 1.35 * x) or a + w + max(m, 1.35 * x) < b) for j, b, x, _, _ in dms):
            continue
        f = g.u(-.11, .11) if g.p(40) else 0.0
        if w - 2 * d * math.tan(f) < 1.2:
            continue
        dms.append([i, a, w, d, f])
    if not dms:
        return None
    c = geom.f32c(gen.place(g, c))
    full, _ = put(c[0], dms)
    f = geom.f32c([full] + c[1:])
    m, n = common.model(c), common.model(f)
    if m is None or n is None or not m.strict() or not n.strict() or not n.dormers_ok():
        return None
    for dm in dms:      # the triangle of the dormer in the face of its wall
        x, y, _ = ends(c[0], dm)[0]
        face = [p[:2] for p in m.faces[dm[0]]]
        if not geom.inside(face, (x, y)) or geom.boundary_dist(face, (x, y)) < .3:
            return None
    return dict(shape=name, body=[[list(p) for p in q] for q in c], dormers=dms, in_line=m.in_line(), contours=[[list(p) for p in q] for q in f],
                layout=common.layout(g, len(c)))


def judge(case):
    body = tup(case["body"])
    a, err = roof.attempt(body, dict(tan=1.0))
    if err:
        return [err + " (body)"]
    b, err = common.call_of(case)
    if err:
        return [err]
    bad = roof.faces_contract(b) + roof.manifold(b) + roof.tiling(b)
    if bad:
        return bad
    _, at = put(body[0], case["dormers"])
    c = body[0]
    S = max(abs(x) for p in c for x in p)
    tol = 0.02 + 2e-6 * S

    def flat(call):
        return [(x, y, (z - call.z) / call.tan) for x, y, z in roof.used_nodes(call)]
    P, Q = flat(a), flat(b)
    for dm in case["dormers"]:
        P += ends(c, dm)
    ztol = tol + 1e-5 * abs(b.z) / b.tan

    def near(p, q):
        return geom.dist(p, q) < tol and abs(p[2] - q[2]) < ztol
    for p in P:
        if not any(near(p, q) for q in Q):
            bad.append("there is no roof vertex at (%.4f, %.4f, %.4f)" % p)
    for q in Q:
        if not any(near(p, q) for p in P):
            bad.append("there is a roof vertex at (%.4f, %.4f, %.4f)" % q)
    # faces of the other walls
    ea, eb = roof.edge_faces(a), roof.edge_faces(b)
    with_dormer = {d[0] for d in case["dormers"]}
    tot = geom.total_area(body)
    for (k, i), fs in ea.items():
        if (k == 0 and i in with_dormer) or case["in_line"]:
            continue
        j = at[i] if k == 0 else i
        s = sum(geom.area([a.V[v][:2] for v in f]) for f in fs)
        t = sum(geom.area([b.V[v][:2] for v in f]) for f in eb.get((k, j), []))
        if abs(s - t) > 2e-3 * tot:
            bad.append("the face of wall %d.%d has an area of %.4f with dormers, %.4f without" % (k, i, t, s))
    return bad


def variants(case):
    c, f = tup(case["body"]), tup(case["contours"])

    def at(*a, **k):
        d = dict(case)
        d["body"] = [[list(p) for p in q] for q in geom.f32c(geom.motion(c, *a, about=f[0][0], **k))]
        d["contours"] = [[list(p) for p in q] for q in geom.f32c(geom.motion(f, *a, about=f[0][0], **k))]
        return d
    yield [at(a, 3.7, -1.9) for a in common.ANG]
    yield [at(0.0, 2.337, -5.113), at(1.5707963267948966, 1.771, 0.533), at(3.141592653589793, -3.19, 7.77), at(0.0, -17.3, 4.4)]


SECTIONS = [Section("dormers", generate, judge, quick=30000, variants=variants)]
