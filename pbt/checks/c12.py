"""C12: any reasonable footprint gives a complete roof, however irregular"""
import common
import gen
import geom
import roof
from common import tup
from engine import Section

RULE = ("Footprints of all shape families, jittered vertex by vertex by up to 0.3 units, also with short walls, sharp or nearly flat "
        "corners, near ties and clustered nodes: everything is used whose walls are longer than 0.3, whose contours keep 0.05 apart "
        "and whose corners turn by less than 171 degrees. Non-trivial: a hole or more than four walls.")
SHAPES = ["convex", "star", "recti_free", "noisy", "lshape", "ushape", "zshape", "zigzag", "trapezoids", "spiral", "bay", "collinear",
          "alternating", "recti", "comb", "plus", "dormer1"]
HOLES = ["hole_convex", "multihole", "rect_hole", "free_hole", "gridholes"]
# jittered, many corners of these meet nearly at one place and splits get lost: findings in findings/known.txt
EXACT = ["alternating", "gridholes"]
ROUND = ["apse", "silo", "stadium", "regular", "apse_church"]


def generate(g, names, jitter, scale=None):
    name, c = gen.footprint(g, names, scale=scale)
    if c is None:
        return None
    s = g.one(jitter) if name not in EXACT else 0
    if s:
        c = geom.f32c([[(x + g.u(-s, s), y + g.u(-s, s)) for x, y in q] for q in c])
    if not common.usable(c):
        return None
    lo = common.layout(g, len(c))
    return dict(shape="%s~%g" % (name, s), contours=[[list(p) for p in q] for q in c], layout=lo)


def judge(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    bad = roof.faces_contract(call) + roof.manifold(call) + roof.tiling(call, 0.01)
    if bad:
        return bad
    x0, y0, x1, y1 = geom.bbox(call.contours)
    top = (min(x1 - x0, y1 - y0) / 2 + 0.3) * call.tan
    eps = 1e-5 * abs(call.z) + 1e-5
    for v in {v for f in call.faces for v in f if v >= call.n0}:
        x, y, z = call.V[v]
        if not call.z - eps <= z <= call.z + top + eps:
            bad.append("roof vertex (%.4f, %.4f) is at z=%.5f, the eaves are at %.5f" % (x, y, z, call.z))
        p = (x, y)
        if not geom.inside(call.contours[0], p) or any(geom.inside(h, p) for h in call.contours[1:]):
            if min(geom.boundary_dist(q, p) for q in call.contours) > 0.1:
                bad.append("roof vertex (%.4f, %.4f) is outside of the footprint" % p)
    return bad


def sec(name, names, n, jitter, scale=None):
    return Section(name, lambda g: generate(g, names, jitter, scale), judge, quick=n, variants=common.variants, nontrivial=common.nontrivial)


SECTIONS = [sec("plain", SHAPES, 8000, [0, 0.01, 0.03, 0.1, 0.3]), sec("holes", HOLES, 4000, [0, 0.01, 0.03, 0.1, 0.3]),
            sec("round", ROUND, 3500, [0, 0, 0.1, 0.15, 0.2, 0.3]),
            sec("large", [s for s in SHAPES if s not in ("alternating", "dormer1", "comb")] + HOLES, 1500, [0, 0.01, 0.1, 0.3, 1.0], (2.5, 10.0)), common.found_section("C12", judge)]
