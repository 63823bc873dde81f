"""C09: moved, mirrored and scaled footprints have the moved, mirrored and scaled roof"""
import math

import common
import geom
import roof
from common import tup
from engine import Section

RULE = common.RULE + " Each footprint is compared with its image under a drawn motion, reflection or change of scale."


def image(case):
    c = tup(case["contours"])
    t = case["trafo"]
    b = geom.motion(c, t["ang"], t["dx"], t["dy"], t["scale"], about=(0.0, 0.0))
    if t["mirror"]:
        b = geom.mirror(b)
    return geom.f32c(b)


def generate(g, names, margins=None, **kw):
    case = common.roof_case(g, names, margins=margins, lay=False, **kw)
    if case is None:
        return None
    case["trafo"] = draw(g)
    case["layout"] = dict(tan=g.one([0.5, 1.0]))
    m = common.model([[list(p) for p in q] for q in image(case)])
    if m is None or not (m.strict(**(margins or {})) and m.dormers_ok()):
        return None
    return case


def generate_irregular(g, names, jitter):
    case = common.irregular_case(g, names, jitter)
    if case is None:
        return None
    case["trafo"] = draw(g)
    case["layout"] = dict(tan=g.one([0.5, 1.0]))
    return case if common.usable(image(case)) else None


def draw(g):
    k = g.i(0, 3)
    t = dict(ang=0.0, dx=0.0, dy=0.0, scale=1.0, mirror=False)
    if k in (0, 3):
        t["ang"] = g.one([math.pi / 2, math.pi, 3 * math.pi / 2, g.u(0, gen_tau), g.u(0, gen_tau)])
        t["dx"], t["dy"] = g.u(-40, 40), g.u(-40, 40)
    if k in (1, 3):
        t["mirror"] = True
    if k == 2:
        t["scale"] = g.size(0.4, 4)
    return t


gen_tau = 2 * math.pi


def judge(case, irregular=False):
    c = tup(case["contours"])
    t = case["trafo"]
    d = image(case)
    lo = case["layout"]
    a, err = roof.attempt(c, lo)
    if err:
        return [err]
    b, err = roof.attempt(d, lo)
    if err:
        return [err + " in the image"]
    co, si, s = math.cos(t["ang"]), math.sin(t["ang"]), t["scale"]

    def pm(x, y, z):
        u = t["dx"] + s * (co * x - si * y)
        v = t["dy"] + s * (si * x + co * y)
        return (-u if t["mirror"] else u, v, z * s)

    if irregular:
        m = common.model(c)
        if m is None or m.tie() or m.sharp():
            return []
        return roof.same_surface(a, b, lambda x, y: pm(x, y, 0.0)[:2], [p for _, p in roof.samples(m, 2)], 0.1 * max(1.0, 1 / s), s)

    def em(k, i):
        n = len(c[k])
        return (k, (n - 2 - i) % n) if t["mirror"] else (k, i)
    tol = 0.02 * max(1.0, s)
    return roof.same_roof(a, b, em, pm, tol=tol, ztol=tol)


def variants(case):
    c = tup(case["contours"])

    def at(*a, **k):
        d = dict(case)
        d["contours"] = [[list(p) for p in q] for q in geom.f32c(geom.motion(c, *a, **k))]
        return d
    yield [at(a, 3.7, -1.9) for a in common.ANG]
    yield [at(0.0, 2.337, -5.113), at(math.pi / 2, 1.771, 0.533), at(math.pi, -3.19, 7.77), at(0.0, -17.3, 4.4, scale=1.0213)]


def lab(case):
    t = case["trafo"]
    return "+".join([k for k, v in (("turn", t["ang"]), ("mirror", t["mirror"]), ("scale", t["scale"] != 1)) if v])


def sec(name, names, n, **kw):
    return Section(name, lambda g: generate(g, names, **kw), judge, quick=n, variants=variants, nontrivial=common.nontrivial, label=lab)


SECTIONS = [sec("plain", common.PLAIN, 5000), sec("holes", common.HOLES, 3000),
            sec("round", common.ROUND, 1500, margins=dict(turn=0.1, corner=0.15)), sec("dormers", common.DORMER, 1500)]
for name, names, n, jitter in (("irregular", common.IRREGULAR, 3000, [0, .01, .03, .1, .3]), ("irregular holes", common.HOLES, 2000, [0, .01, .03, .1, .3]),
                               ("irregular round", common.IRR_ROUND, 1000, [.1, .15, .2, .3])):
    SECTIONS.append(Section(name, lambda g, names=names, jitter=jitter: generate_irregular(g, names, jitter), lambda case: judge(case, True),
                            quick=n, variants=variants, nontrivial=common.nontrivial, label=lab))
