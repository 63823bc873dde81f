"""C15: vertices on a straight wall do not change the roof"""
import common
import geom
import roof
from common import tup
from engine import Section

RULE = common.RULE + " Up to ten extra vertices are put on the walls, at least 0.4 apart; both roofs are compared plane by plane."
TOL = 0.03


def generate(g, names, **kw):
    case = common.roof_case(g, names, lay=False, **kw)
    if case is None or not cut(g, case):
        return None
    m = common.model(divided(case)[0])
    if m is None or not m.strict(**dict(kw.get("margins") or {}, edge=0.3)):
        return None
    return case


def generate_irregular(g, names, jitter):
    case = common.irregular_case(g, names, jitter)
    if case is None or not cut(g, case):
        return None
    m = common.model(divided(case)[0])
    return case if m is not None and not m.tie() and not m.sharp() else None


def judge_irregular(case):
    c = tup(case["contours"])
    d, back = divided(case)
    m, n = common.model(c), common.model(d)
    if m is None or n is None or m.tie() or m.sharp() or n.tie() or n.sharp():
        return []
    a, err = roof.attempt(c, dict(tan=1.0))
    if err:
        return [err]
    b, err = roof.attempt(d, case["layout"])
    if err:
        return [err + " with extra vertices"]
    return (roof.faces_contract(b) + roof.manifold(b) + roof.tiling(b, 0.01)
            or roof.same_surface(a, b, lambda x, y: (x, y), [p for _, p in roof.samples(m, 2)]))


def cut(g, case):
    """draw the extra vertices"""
    c = common.near_origin(tup(case["contours"]))
    case["contours"] = [[list(p) for p in q] for q in c]
    cuts = []
    for _ in range(g.i(1, 3)):
        k = g.i(0, len(c) - 1)
        i = g.i(0, len(c[k]) - 1)
        n = g.one([1, 1, 1, 2, 3, 6, 8])
        L = geom.dist(c[k][i], c[k][(i + 1) % len(c[k])])
        if any(a == k and b == i for a, b, _ in cuts):
            continue
        t = sorted(g.u(0.03, 0.97) if n < 4 else (j + 1) / (n + 1) + g.u(-.2, .2) / (n + 1) for j in range(n))
        if min(b - a for a, b in zip([0.0] + t, t + [1.0])) * L < 0.4:
            continue
        cuts.append([k, i, t])
    if not cuts:
        return False
    case["cuts"] = cuts
    case["layout"] = dict(tan=1.0, shift=[g.i(0, 15) for _ in c])
    return True


def divided(case):
    """contours with the extra vertices, and (contour, i) there -> (contour, i) here"""
    c = tup(case["contours"])
    out, back = [], {}
    for k, q in enumerate(c):
        r = []
        for i, p in enumerate(q):
            back[(k, len(r))] = (k, i)
            r.append(p)
            b = q[(i + 1) % len(q)]
            for kk, ii, ts in case["cuts"]:
                if kk == k and ii == i:
                    for t in ts:
                        back[(k, len(r))] = (k, i)
                        r.append((p[0] + t * (b[0] - p[0]), p[1] + t * (b[1] - p[1])))
        out.append(r)
    return geom.f32c(out), back


def judge(case):
    c = tup(case["contours"])
    a, err = roof.attempt(c, dict(tan=1.0))
    if err:
        return [err]
    d, back = divided(case)
    b, err = roof.attempt(d, case["layout"])
    if err:
        return [err + " with extra vertices"]
    bad = roof.faces_contract(b) + roof.manifold(b) + roof.tiling(b)
    if bad:
        return bad
    # (against the undivided walls: the direction of a short piece is not precise)
    for e, fs in roof.edge_faces(b).items():
        k, i = back[e]
        for f in fs:
            for v in f:
                x, y, z = b.V[v]
                h = geom.line_dist(c[k][i], c[k][(i + 1) % len(c[k])], (x, y))
                if abs(h - z) > TOL:
                    bad.append("vertex (%.4f, %.4f, %.5f) of the face of wall %d.%d should be at %.5f" % (x, y, z, k, i, h))
    pa = roof.planes(a)
    A, B = roof.plane_areas(a, pa), roof.plane_areas(b, {e: pa[o] for e, o in back.items()})
    tot = geom.total_area(c)
    for e, s in sorted(A.items()):
        if abs(B.get(e, 0.0) - s) > 2e-3 * tot:
            bad.append("plane %d has an area of %.5g, with extra vertices %.5g" % (e, s, B.get(e, 0.0)))
    P, Q = roof.used_nodes(a), roof.used_nodes(b)
    for X, Y, w in ((P, Q, "without"), (Q, P, "with")):
        for p in X:
            if not any(max(abs(u - v) for u, v in zip(p, q)) < TOL for q in Y):
                bad.append("roof vertex (%.4f, %.4f, %.4f) exists only %s extra vertices" % (p + (w,)))
    return bad


def lab(case):
    return "%d cuts" % sum(len(t) for _, _, t in case["cuts"])


def sec(name, names, n, **kw):
    return Section(name, lambda g: generate(g, names, **kw), judge, quick=n, variants=common.variants, nontrivial=common.nontrivial, label=lab)


# the symmetric rectilinear families make near ties with the extra vertices (see DESIGN.md)
SHAPES = ["convex", "star", "recti_free", "noisy", "lshape", "ushape", "zshape", "zigzag", "trapezoids", "regular"]
SECTIONS = [sec("plain", SHAPES, 6000), sec("holes", common.HOLES, 3000),
            sec("round", ["silo", "stadium", "apse_church"], 1500, margins=dict(turn=0.1, corner=0.15))]
for name, names, n, jitter in (("irregular", common.IRREGULAR, 3000, [.01, .03, .1, .3]), ("irregular holes", common.HOLES, 1500, [.01, .03, .1, .3])):
    SECTIONS.append(Section(name, lambda g, names=names, jitter=jitter: generate_irregular(g, names, jitter), judge_irregular, quick=n,
                            variants=common.variants, nontrivial=common.nontrivial, label=lab))
