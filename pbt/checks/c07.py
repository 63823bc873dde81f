"""C07: equivalent descriptions of one footprint give the same roof"""
import common
import roof
from common import tup
from engine import Section

RULE = common.RULE + (" Every footprint is passed twice: plainly (outer contour first, holes in order, no unit vectors, nothing else "
                      "in the vertex list) and in a drawn layout.")
FEATURES = ["shift", "gaps", "tail", "holes_first", "order", "noholes", "unit", "faces"]


def generate(g, names, **kw):
    case = common.roof_case(g, names, lay=False, **kw)
    if case is None:
        return None
    return lay_out(g, case)


def lay_out(g, case):
    n = len(case["contours"])
    lo = {}
    f = g.i(0, 6)
    if f == 0:
        lo["shift"] = [g.i(0, 39) for _ in range(n)]
    elif f == 1:
        lo["gaps"] = [g.i(1, 4) for _ in range(n)]
        lo["tail"] = g.i(0, 3)
    elif f == 2 and n > 1:
        lo["holes_first"] = True
    elif f == 3 and n > 2:
        perm = list(range(n - 1))
        for i in range(len(perm) - 1, 0, -1):
            j = g.i(0, i)
            perm[i], perm[j] = perm[j], perm[i]
        lo["order"] = perm
    elif f == 4 and n == 1:
        lo["noholes"] = []
    elif f == 5:
        lo["unit"] = True
    if not lo:
        lo = common.layout(g, n, tan=False, z=False)
    if not lo:
        lo["unit"] = True
    lo["tan"] = g.one([0.5, 1.0, 0.25])
    lo["aslist"] = g.p(30)
    case["layout"] = lo
    return case


def judge(case):
    c = tup(case["contours"])
    lo = case["layout"]
    a, err = roof.attempt(c, dict(tan=lo["tan"]))
    if err:
        return [err]
    b, err = roof.attempt(c, lo)
    if err:
        return [err + " in another layout"]
    bad = roof.same_roof(a, b, lambda k, i: (k, i), lambda x, y, z: (x, y, z))
    return bad or roof.faces_contract(b) + roof.manifold(b)


def generate_irregular(g, names, jitter):
    case = common.irregular_case(g, names, jitter)
    return case and lay_out(g, case)


def judge_irregular(case):
    c = tup(case["contours"])
    m = common.model(c)
    if m is None or m.tie() or m.sharp():
        return []
    lo = case["layout"]
    a, err = roof.attempt(c, dict(tan=lo["tan"]))
    if err:
        return [err]
    b, err = roof.attempt(c, lo)
    if err:
        return [err + " in another layout"]
    return (roof.faces_contract(b) + roof.manifold(b)
            or roof.same_surface(a, b, lambda x, y: (x, y), [p for _, p in roof.samples(m, 2)]) + roof.planarity_any(b, 0.2))


def generate_start(g):
    """dormers of all kinds (also side by side or around a corner), from another start vertex"""
    name, c = common.gen.footprint(g, ["dormers"])
    s = g.one([0.0, 0.01, 0.03, 0.1])
    c = common.geom.f32c([[(x + g.u(-s, s), y + g.u(-s, s)) for x, y in q] for q in c])
    if not common.usable(c):
        return None
    return dict(shape=name, contours=[[list(p) for p in q] for q in c], layout=dict(shift=[g.i(1, len(c[0]) - 1)], tan=g.one([0.5, 1.0, 0.25])))


def complete(call):
    return not (roof.faces_contract(call) or roof.manifold(call) or roof.tiling(call, 0.01))


def places(case):
    yield [c for group in common.variants(case) for c in group]


def judge_start(case):
    c = tup(case["contours"])
    lo = case["layout"]
    a, err = roof.attempt(c, dict(tan=lo["tan"]))
    if err or not complete(a):       # nothing to compare with (see C12 and DESIGN.md)
        return []
    b, err = roof.attempt(c, lo)
    if err:
        return [err + " from another start vertex"]
    if not complete(b):
        return []
    return roof.same_roof(a, b, lambda k, i: (k, i), lambda x, y, z: (x, y, z), 0.3, 0.3, 0.01)     # (clusters may be merged in another order)


def lab(case):
    return "+".join(sorted(f for f in FEATURES if f in case["layout"]))


def sec(name, names, n, **kw):
    return Section(name, lambda g: generate(g, names, **kw), judge, quick=n, variants=common.variants, nontrivial=common.nontrivial,
                   label=lab)


SECTIONS = [sec("plain", common.PLAIN, 6000), sec("holes", common.HOLES, 5000),
            sec("round", common.ROUND, 1500, margins=dict(turn=0.1, corner=0.15)), sec("dormers", common.DORMER, 1500)]
for name, names, n, jitter in (("irregular", common.IRREGULAR, 3000, [0, .01, .03, .1, .3]), ("irregular holes", common.HOLES, 3000, [0, .01, .03, .1, .3]),
                               ("irregular round", common.IRR_ROUND, 1000, [.1, .15, .2, .3])):
    SECTIONS.append(Section(name, lambda g, names=names, jitter=jitter: generate_irregular(g, names, jitter), judge_irregular, quick=n,
                            variants=common.variants, nontrivial=common.nontrivial, label=lab))
SECTIONS.append(Section("start among dormers", generate_start, judge_start, quick=2000, variants=places, nontrivial=common.nontrivial, label=lab))
