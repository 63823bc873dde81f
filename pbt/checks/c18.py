"""C18: counting crossings of a skeleton graph, and the segment test behind it"""


import env  # noqa: F401
import roof
from checks.c16 import ori
from engine import Section
from mathutils import Vector

RULE = ("Sets of arcs (a source with several sinks) on grid points, with shared ends, touching ends, collinear overlaps and parallel arcs, of all sizes; "
        "pairs of segments in general position. Non-trivial: at least one proper crossing.")


def arcs(g):
    n = g.i(1, 7)
    S = g.one([3, 8, 50])
    pts = [(g.i(-S, S), g.i(-S, S)) for _ in range(g.i(3, 12))]
    out = []
    for _ in range(n):
        s = g.one(pts)
        sinks = []
        for _ in range(g.i(0, 4)):
            t = g.one(pts)
            if t != s:
                sinks.append(list(t))
        out.append([list(s), sinks])
    return dict(shape="%d arcs" % n, arcs=out, scale=g.one([1.0, .25, 7.0, 2.0 ** -12, 2.0 ** -7, 2.0 ** 9]))


def proper(a, b, c, d):
    return ori(a, b, c) * ori(a, b, d) < 0 and ori(c, d, a) * ori(c, d, b) < 0


def count(case):
    E = [(tuple(s), tuple(t)) for s, ts in case["arcs"] for t in ts]
    k = 0
    for i, (a, b) in enumerate(E):
        for c, d in E[:i]:
            if proper(a, b, c, d):
                k += 1
    return k


def judge(case):
    B = roof.lib()
    if not roof.helper("checkEdgeCrossing"):
        return []
    z = case["scale"]

    def v(p):
        return Vector((p[0] * z, p[1] * z))
    sk = [B.Subtree(v(s), 1.0, [v(t) for t in ts]) for s, ts in case["arcs"]]
    try:
        n = B.checkEdgeCrossing(sk)
    except Exception as e:
        return ["raises %s: %s" % (type(e).__name__, e)]
    want = count(case)
    if int(n) != want:
        return ["%s crossings are counted instead of %d" % (n, want)]
    if [(tuple(a.source), [tuple(t) for t in a.sinks]) for a in sk] != [(tuple(v(s)), [tuple(v(t)) for t in ts]) for s, ts in case["arcs"]]:
        return ["the skeleton has been changed"]
    return []


def segments(g):
    S = g.one([3, 20, 1000])
    P = [[g.i(-S, S), g.i(-S, S)] for _ in range(4)]
    if any(ori(P[i], P[j], P[k]) == 0 for i, j, k in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))):
        return None
    return dict(shape="segments", P=P, scale=2.0 ** g.i(-9, 9))


def judge_segments(case):
    roof.lib()
    from bpypolyskel import bpyeuclid as B
    if not roof.helper("intersect", "bpyeuclid"):
        return []
    z = case.get("scale", 1.0)
    P = [Vector((p[0] * z, p[1] * z)) for p in case["P"]]
    bad = []
    for o in ((0, 1, 2, 3), (1, 0, 2, 3), (2, 3, 0, 1), (3, 2, 1, 0)):
        try:
            r = bool(B.intersect(*[P[i] for i in o]))
        except Exception as e:
            return ["raises %s: %s" % (type(e).__name__, e)]
        w = proper(*[case["P"][i] for i in o])
        if r != w:
            bad.append("segments %s%s %s%s: intersect() is %s" % (tuple(case["P"][o[0]]) + ("-",) * 0, tuple(case["P"][o[1]]),
                                                              tuple(case["P"][o[2]]), tuple(case["P"][o[3]]), r))
    return bad


SECTIONS = [Section("arcs", arcs, judge, quick=16000, nontrivial=lambda c: count(c) > 0),
            Section("segments", segments, judge_segments, quick=8000, nontrivial=lambda c: proper(*c["P"]))]
