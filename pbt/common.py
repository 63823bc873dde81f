"""Generators and helpers shared by the checks of polygonize()."""
import functools
import json
import math

import gen
import geom
import roof

# shapes on which the library is expected to be exact (see DESIGN.md for the measured rates)
PLAIN = ["convex", "star", "recti", "recti_free", "noisy", "lshape", "ushape", "zshape", "zigzag", "trapezoids", "spiral", "regular",
         "comb", "bay", "collinear"]
HOLES = ["hole_convex", "multihole", "rect_hole", "free_hole"]
ROUND = ["apse", "silo", "stadium", "apse_church", "regular"]
DORMER = ["dormer1", "dormers"]


@functools.lru_cache(maxsize=512)
def _model(s):
    return roof.model([[tuple(p) for p in c] for c in json.loads(s)])


def model(contours):
    """cached; None when the reference cannot vouch for the footprint"""
    return _model(json.dumps(contours))


def layout(g, nc, tan=True, z=True, faces=True):
    """how the footprint is laid out in the arguments"""
    lo = {}
    if g.p(60):
        lo["shift"] = [g.i(0, 39) for _ in range(nc)]
    if g.p(40):
        lo["gaps"] = [g.i(0, 3) for _ in range(nc)]
        lo["tail"] = g.i(0, 2)
    if nc > 1:
        if g.p(40):
            lo["holes_first"] = True
        if nc > 2 and g.p(50):
            perm = list(range(nc - 1))
            for i in range(len(perm) - 1, 0, -1):
                j = g.i(0, i)
                perm[i], perm[j] = perm[j], perm[i]
            lo["order"] = perm
        if nc > 2 and g.p(40):
            lo["listed"] = g.i(1, 5)
    elif g.p(30):
        lo["noholes"] = []
    if "holes_first" not in lo and "order" not in lo and "listed" not in lo and g.p(50):
        lo["unit"] = True
    if z and g.p(50):
        lo["z"] = g.one([3.0, 12.25, -4.5, 100.0, geom.f32(g.u(-50, 300))])
    if tan and g.p(60):
        lo["tan"] = g.one([0.5, 0.3, 2.0, round(g.u(0.05, 3.0), 3)])
    if faces and g.p(30):
        lo["faces"] = [[0, 1, 2], [2, 3, 4, 5]][:g.i(0, 2)]
    return lo


def usable(c):
    if sum(map(len, c)) > 44 or not geom.is_valid(c, 0.05):
        return False
    if min(geom.dist(p, q) for p, q, _, _ in geom.edges(c)) < 0.3:
        return False
    return all(abs(geom.turn(q[i - 1], q[i], q[(i + 1) % len(q)])) < math.pi - 0.15 for q in c for i in range(len(q)))


def tup(contours):
    return [[tuple(p) for p in c] for c in contours]


def roof_case(g, names, margins=None, lay=True, need_strict=True, maxv=40, scale=None, **kw):
    name, c = gen.footprint(g, names, scale=scale)
    if c is None or sum(len(q) for q in c) > maxv:
        return None
    m = model(c)
    if m is None:
        return None
    if need_strict and not (m.strict(**(margins or {})) and m.dormers_ok()):
        return None
    case = dict(shape=name, contours=[[list(p) for p in q] for q in c])
    case["layout"] = layout(g, len(c), **kw) if lay else {}
    return case


IRREGULAR = ["convex", "star", "recti_free", "lshape", "ushape", "zshape", "zigzag", "trapezoids", "spiral"]
IRR_ROUND = ["apse", "silo", "stadium", "regular"]


def irregular_case(g, names, jitter, tie=False, corner=0.2, **kw):
    """footprints with vertices that are displaced at random: nothing is well separated; tie: also where the roof is not continuous"""
    name, c = gen.footprint(g, names)
    if c is None:
        return None
    s = g.one(jitter)
    if s:
        c = geom.f32c([[(x + g.u(-s, s), y + g.u(-s, s)) for x, y in q] for q in c])
    if not usable(c):
        return None
    m = model(c)
    if m is None or corner and m.sharp(corner) or not tie and m.tie():
        return None
    return dict(shape="%s~%g" % (name, s), contours=[[list(p) for p in q] for q in c], layout=layout(g, len(c), **kw))


def irregular_sections(judge, n=3000, holes=1500, round_=1500, names=IRREGULAR, **kw):
    from engine import Section

    def sec(name, names, n, jitter):
        return Section(name, lambda g: irregular_case(g, names, jitter, **kw), judge, quick=n, variants=variants, nontrivial=nontrivial,
                       label=label)
    return [sec("irregular", names, n, [0, 0.01, 0.03, 0.1, 0.3]), sec("irregular holes", HOLES, holes, [0, 0.01, 0.03, 0.1, 0.3]),
            sec("irregular round", IRR_ROUND, round_, [0.1, 0.15, 0.2, 0.3])]


def found_section(check, judge):
    """footprints that once failed (repaired since, see findings/known.txt), in other places"""
    import json
    import os
    from engine import Section
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "found.json")) as f:
        cases = json.load(f)[check]

    def generate(g):
        case = dict(g.one(cases))
        c = tup(case["contours"])
        if g.p(70):
            c = geom.f32c(geom.motion(c, g.one(ANG), g.one([3.7, -11.2]), g.one([-1.9, 23.1])))
        case["contours"] = [[list(p) for p in q] for q in c]
        return case
    return Section("found before", generate, judge, quick=120, variants=variants, nontrivial=nontrivial, label=label)


ANG = [0.7316, 2.0941, 3.9913, 5.1177, 1.4382]


def variants(case):
    """the same footprint in other places: rotated, and moved along the axes"""
    c = tup(case["contours"])

    def at(*a, **k):
        d = dict(case)
        d["contours"] = [[list(p) for p in q] for q in geom.f32c(geom.motion(c, *a, **k))]
        return d
    yield [at(a, 3.7, -1.9) for a in ANG]
    yield [at(0.0, 2.337, -5.113), at(math.pi / 2, 1.771, 0.533), at(math.pi, -3.19, 7.77), at(0.0, -17.3, 4.4, scale=1.0913)]


def near_origin(contours):
    """skeletonize() works on coordinates relative to the center of the building, as polygonize() passes them"""
    x0, y0, x1, y1 = geom.bbox(contours)
    dx, dy = round((x0 + x1) / 2), round((y0 + y1) / 2)
    return geom.f32c([[(x - dx, y - dy) for x, y in c] for c in contours])


def nontrivial(case):
    """more than a triangle or a quadrangle without holes"""
    return len(case["contours"]) > 1 or len(case["contours"][0]) > 4


def label(case):
    return case["shape"]


def call_of(case):
    return roof.attempt(tup(case["contours"]), case.get("layout"))


def section(name, names, judge, n, **kw):
    from engine import Section
    return Section(name, lambda g: roof_case(g, names, **kw), judge, quick=n, variants=variants, nontrivial=nontrivial, label=label)


def roof_sections(judge, plain=9000, holes=3000, round_=2000, dormer=2000, large=1500, **kw):
    """the usual four families of footprints"""
    return [section("plain", PLAIN, judge, plain, **kw), section("holes", HOLES, judge, holes, **kw),
            section("round", ROUND, judge, round_, margins=dict(turn=0.1, corner=0.15), **kw),
            section("dormers", DORMER, judge, dormer, **kw),
            section("large", PLAIN + HOLES * 3, judge, large, scale=(2.5, 10.0), **kw)]


RULE = ("Footprints come from Hypothesis draws over shape families (see gen.py), placed by a random rigid motion, rounded to "
        "float32 and laid out with random start vertices, block order, foreign vertices, unit vectors, z and pitch; only footprints "
        "whose exact straight skeleton is well separated are used. Non-trivial: a hole or more than four walls; distinct by the "
        "hash of the whole case.")
