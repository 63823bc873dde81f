"""C05: height and tan set the size of the roof, and nothing else"""
import common
import geom
import roof
from common import tup
from engine import Section

RULE = common.RULE + " The values of height and tan are drawn on top of that (both given, one given, none given, integers)."
TOL = 0.005


def sized(g, names, **kw):
    case = common.roof_case(g, names, tan=False, **kw)
    if case is None:
        return None
    return draw(g, case)


def draw(g, case):
    k = g.i(0, 3)
    h = g.one([5, 2.5, 8.0, geom.f32(g.size(0.05, 60))])
    t = g.one([0.5, 1, 0.3, geom.f32(g.size(0.02, 12))])
    case["layout"]["height"] = h if k in (1, 2) else g.one([0.0, 0])
    case["layout"]["tan"] = t if k in (0, 1) else g.one([0.0, 0])
    return case


def judge(case):
    lo = case["layout"]
    h, t = lo["height"], lo["tan"]
    call, err = common.call_of(case)
    if err:
        return [err]
    bad = []
    for v in range(call.n0):
        if call.V[v] != call.before[v]:
            bad.append("vertex %d of the caller has moved" % v)
    Z = [call.V[v][2] for v in range(call.n0, len(call.V))]
    eps = 1e-5 * abs(call.z) + 1e-6
    if not h and not t:
        if any(abs(z - call.z) > eps for z in Z):
            bad.append("height and tan are zero, but the roof is not flat: z from %.5f to %.5f, base %.5f" % (min(Z), max(Z), call.z))
        return bad + roof.faces_contract(call) + roof.manifold(call)
    m = common.model(tup(case["contours"]))
    if m is None:
        return bad
    if h:
        eff = h / m.maxt
        if abs(max(Z) - call.z - h) > 1e-4 * h + eps:
            bad.append("the requested height is %.5f, the roof is %.5f high" % (h, max(Z) - call.z))
        tol = TOL * 2
    else:
        eff, tol = t, TOL
    if min(Z) < call.z - eps:
        bad.append("a roof vertex lies below the eaves")
    return bad + roof.planarity(call, eff, tol) + roof.manifold(call)


def irregular(g, names, jitter):
    case = common.irregular_case(g, names, jitter, tie=True, corner=0, tan=False)
    return case and draw(g, case)


def judge_irregular(case):
    """against the same roof of pitch 1"""
    lo = case["layout"]
    h, t = lo["height"], lo["tan"]
    a, err = roof.attempt(tup(case["contours"]), dict(lo, height=0.0, tan=1.0))
    if err:
        return [err + " with pitch 1"]
    b, err = common.call_of(case)
    if err:
        return [err]
    bad = []
    if sorted(map(tuple, a.faces)) != sorted(map(tuple, b.faces)) or len(a.V) != len(b.V):
        return ["the plan of the roof is another one for height %s and tan %s" % (h, t)]
    Z = [v[2] - a.z for v in a.V[a.n0:]]
    k = h / max(Z) if h else t
    eps = 1e-5 * abs(a.z) + 1e-5
    for i in range(a.n0, len(a.V)):
        (x, y, z), (u, v, w) = a.V[i], b.V[i]
        if abs(x - u) > 1e-4 or abs(y - v) > 1e-4:
            bad.append("vertex %d is at (%.4f, %.4f), for pitch 1 at (%.4f, %.4f)" % (i, u, v, x, y))
        if abs(w - b.z - k * (z - a.z)) > 1e-4 * k * max(Z) + eps * (1 + k):
            bad.append("vertex %d is %.5f high instead of %.5f" % (i, w - b.z, k * (z - a.z)))
    return bad


def sec(name, names, n, **kw):
    return Section(name, lambda g: sized(g, names, **kw), judge, quick=n, variants=common.variants, nontrivial=common.nontrivial)


SECTIONS = [sec("plain", common.PLAIN, 6000), sec("holes", common.HOLES, 3000),
            sec("round", common.ROUND, 1500, margins=dict(turn=0.1, corner=0.15)), sec("dormers", common.DORMER, 1500)]
for name, names, n, jitter in (("irregular", common.IRREGULAR, 2000, [0, .01, .03, .1, .3]), ("irregular holes", common.HOLES, 1000, [0, .01, .03, .1, .3]),
                               ("irregular round", common.IRR_ROUND, 1000, [.1, .15, .2, .3])):
    SECTIONS.append(Section(name, lambda g, names=names, jitter=jitter: irregular(g, names, jitter), judge_irregular, quick=n,
                            variants=common.variants, nontrivial=common.nontrivial))
