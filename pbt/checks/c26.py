"""C26: faces have no superfluous corners"""
import common
import gen
import geom
import roof
import math
from collections import Counter
from engine import Section

RULE = ("Footprints of all families, also with ties and clusters of nodes (crosses, combs, grids of courtyards, dormers), and irregular ones. "
        "Non-trivial: the skeleton has a node that is not a corner of three or more faces, or the footprint has a hole or more than four walls.")
NEEDLE = 0.11   # the library calls everything below 0.1415 a spike
BEND = 0.13     # the library calls everything below 0.1415 straight


def judge(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    use = Counter(v for f in call.faces for v in set(f))
    bad = []
    for f in call.faces:
        P = [call.V[v][:2] for v in f]
        for i, v in enumerate(f):
            if v < call.n0:
                continue
            a, b, c = P[i - 1], P[i], P[(i + 1) % len(f)]
            if min(geom.dist(a, b), geom.dist(b, c)) > 1e-3 and len(f) > 3 and math.pi - geom.turn(a, b, c) < NEEDLE:
                bad.append("face %s runs to corner %d (%.4f, %.4f) and back along nearly the same line" % (f, v, b[0], b[1]))
            if use[v] > 2:
                continue
            if min(geom.dist(a, b), geom.dist(b, c)) < 1e-3:
                bad.append("face %s has two corners at (%.4f, %.4f)" % (f, b[0], b[1]))
            elif abs(geom.turn(a, b, c)) < BEND and len(f) > 3:
                bad.append("corner %d (%.4f, %.4f) of face %s lies on a straight line and belongs to %d faces only" % (v, b[0], b[1], f, use[v]))
    return bad


def generate(g, names):
    name, c = gen.footprint(g, names)
    if c is None or not common.usable(c):
        return None
    return dict(shape=name, contours=[[list(p) for p in q] for q in c], layout=common.layout(g, len(c)))


SECTIONS = [Section("symmetric", lambda g: generate(g, ["plus", "gridholes", "comb", "dormers", "apse_church", "dormer1", "recti", "noisy", "stadium"]), judge,
                    quick=8000, variants=common.variants, nontrivial=common.nontrivial, label=common.label)]
SECTIONS += common.roof_sections(judge, 4000, 3000, 2000, 1000) + common.irregular_sections(judge, 3000, 1500, 1500, tie=True, corner=0)
SECTIONS.append(Section("disturbed", lambda g: common.irregular_case(g, ["apse_church", "apse_church", "bay", "dormer1", "noisy"], [0.01, 0.03, 0.1],
                                                                     tie=True, corner=0), judge,
                        quick=5000, variants=common.variants, nontrivial=common.nontrivial, label=common.label))
SECTIONS.append(common.found_section("C26", judge))
