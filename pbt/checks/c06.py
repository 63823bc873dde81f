"""C06: the roof does not depend on where the building stands"""
import common
import geom
import roof
from common import tup
from engine import Section

RULE = common.RULE + (" Coordinates are snapped to multiples of 1/128, so that the building can be moved by whole units without "
                      "any rounding of the input, up to 10 km from the origin and up to 4 km of altitude.")


def snap(c):
    return [[(round(x * 128) / 128, round(y * 128) / 128) for x, y in q] for q in c]


def generate(g, names, **margins):
    name, c = common.gen.footprint(g, names)
    if c is None or sum(len(q) for q in c) > 40:
        return None
    x0, y0, x1, y1 = geom.bbox(c)
    c = [[(x - round((x0 + x1) / 2), y - round((y0 + y1) / 2)) for x, y in q] for q in c]
    c = snap(c)
    m = common.model(c)
    if m is None or not (m.strict(**margins) and m.dormers_ok()):
        return None
    R = g.one([30, 300, 2000, 10000])
    case = dict(shape=name, contours=[[list(p) for p in q] for q in c], layout=common.layout(g, len(c), z=False))
    case["move"] = [g.i(-R, R), g.i(-R, R)]
    case["z"] = g.one([0.0, 5.0, -20.0, 1000.0, float(g.i(-4000, 4000)), round(g.u(-300, 300) * 128) / 128])
    return case


def generate_irregular(g, names, jitter):
    case = common.irregular_case(g, names, jitter, z=False)
    if case is None:
        return None
    x0, y0, x1, y1 = geom.bbox(case["contours"])
    c = snap([[(x - round((x0 + x1) / 2), y - round((y0 + y1) / 2)) for x, y in q] for q in case["contours"]])
    case["contours"] = [[list(p) for p in q] for q in c]
    R = g.one([30, 300, 2000, 10000])
    case["move"] = [g.i(-R, R), g.i(-R, R)]
    case["z"] = g.one([0.0, 5.0, 1000.0, float(g.i(-4000, 4000))])
    return case


def judge_irregular(case):
    c = tup(case["contours"])
    m = common.model(c)
    if m is None or m.tie() or m.sharp():
        return []
    dx, dy = case["move"]
    a, err = roof.attempt(c, case["layout"])
    if err:
        return [err]
    b, err = roof.attempt([[(x + dx, y + dy) for x, y in q] for q in c], dict(case["layout"], z=case["z"]))
    if err:
        return [err + " when moved"]
    tol = 0.1 + 4e-7 * max(abs(dx), abs(dy), abs(case["z"]))
    bad = roof.faces_contract(b) + roof.manifold(b)
    return bad or (roof.same_surface(a, b, lambda x, y: (x + dx, y + dy), [p for _, p in roof.samples(m, 2)], tol)
                   + roof.planarity_any(b, 0.2 + tol))


def judge(case):
    c = tup(case["contours"])
    dx, dy = case["move"]
    a, err = roof.attempt(c, case["layout"])
    if err:
        return [err]
    lo = dict(case["layout"], z=case["z"])
    far = [[(x + dx, y + dy) for x, y in q] for q in c]
    b, err = roof.attempt(far, lo)
    if err:
        return [err + " when moved"]
    t = a.tan
    R = max(abs(dx), abs(dy), abs(case["z"]))
    tol = 0.02 + 4e-7 * R
    bad = roof.same_roof(a, b, lambda k, i: (k, i), lambda x, y, z: (x + dx, y + dy, z + case["z"]), tol=tol, ztol=max(t, 0.2) * tol)
    if bad:
        return bad
    return roof.faces_contract(b) + roof.manifold(b)


def variants(case):
    c = tup(case["contours"])

    def at(*a, **k):
        d = dict(case)
        d["contours"] = [[list(p) for p in q] for q in snap(geom.motion(c, *a, **k))]
        return d
    yield [at(a) for a in common.ANG]
    yield [at(0.0, 2, -5), at(common.math.pi / 2, 3, 1), at(common.math.pi), at(0.0, scale=1.0913)]


def sec(name, names, n, **kw):
    return Section(name, lambda g: generate(g, names, **kw), judge, quick=n, variants=variants, nontrivial=common.nontrivial)


SECTIONS = [sec("plain", common.PLAIN, 6000), sec("holes", common.HOLES, 2500), sec("round", common.ROUND, 1500, turn=0.1, corner=0.15),
            sec("dormers", common.DORMER, 1500)]
for name, names, n, jitter in (("irregular", common.IRREGULAR, 3000, [0, .01, .03, .1, .3]), ("irregular holes", common.HOLES, 1500, [0, .01, .03, .1, .3]),
                               ("irregular round", common.IRR_ROUND, 1000, [.1, .15, .2, .3])):
    SECTIONS.append(Section(name, lambda g, names=names, jitter=jitter: generate_irregular(g, names, jitter), judge_irregular, quick=n,
                            variants=variants, nontrivial=common.nontrivial))
