"""C14: round ends and round towers"""
import math

import common
import geom
import roof
from common import tup
from engine import Section

RULE = ("Round towers, naves with one or two round ends and apses on a wider nave, 7 to 24 chords, from any start vertex, in any place; the "
        "roof is compared with the fan computed by hand. Section noisy: the same naves with every vertex displaced by up to 0.1; there "
        "every face must stay in the plane of its wall (no node of the apse may be merged away). Non-trivial: all.")
H = math.pi / 2


def arc(cx, cy, R, a0, n):
    return [(cx + R * math.cos(a0 + math.pi * k / n), cy + R * math.sin(a0 + math.pi * k / n)) for k in range(n + 1)]


def build(g, kinds):
    """contour and fans: (center, R, n, first wall of the arc, closed)"""
    kind = g.one(kinds)
    R, n, m = g.u(3, 15), g.i(7, 20), g.i(7, 20)
    L = g.u(1.5, 5) * R
    if kind == "tower":
        n = g.i(12, 30)
        R = g.u(.75, 2) * n / 3.5
        t = g.u(0, 7)
        return kind, [(R * math.cos(t + k * math.tau / n), R * math.sin(t + k * math.tau / n)) for k in range(n)], [((0, 0), R, n, 0, True)]
    if kind == "apse":
        return kind, [(-L, -R)] + arc(0, 0, R, -H, n) + [(-L, R)], [((0, 0), R, n, 1, False)]
    if kind == "two":
        L = max(L, 2.2 * R)
        return kind, arc(L, 0, R, -H, n) + arc(0, 0, R, H, m), [((L, 0), R, n, 0, False), ((0, 0), R, m, n + 1, False)]
    e, f = g.u(1.2, 8), g.u(1.2, 8)
    if g.p(50):
        f = e
    L = max(L, R + 8)
    return kind, [(-L, -R - e), (0, -R - e)] + arc(0, 0, R, -H, n) + [(0, R + f), (-L, R + f)], [((0, 0), R, n, 2, False)]


def generate(g, kinds, noise):
    kind, c, fans = build(g, kinds)
    chord = min(2 * R * math.sin((math.pi if cl else H) / n) for _, R, n, _, cl in fans)
    if chord < .4:
        return None
    N = len(c)
    mir = g.p(30)
    if mir:
        c = [(-x, y) for x, y in reversed(c)]
        fans = [((-x, y), R, n, (N - 2 - (a + n - 1)) % N, cl) for (x, y), R, n, a, cl in fans]
    ang = g.u(0, math.tau) if g.p(70) else g.i(0, 3) * H
    S = g.one([0, 5, 50, 400])
    dx, dy = g.u(-S, S), g.u(-S, S)
    c, ct = geom.motion([c, [f[0] for f in fans]], ang, dx, dy, about=(0, 0))
    s = g.one(noise)
    if s:
        c = [(x + g.u(-s, s), y + g.u(-s, s)) for x, y in c]
    c = geom.f32c([c])
    # (tips of faces sharper than 8 degrees are removed as spikes, so no chords of less than 11 degrees; the same can
    # happen between nodes that nearly coincide, so no smaller noise)
    if s and (max(f[2] for f in fans) > 16 or not common.usable(c)):
        return None
    return dict(shape="%s~%g" % (kind, s), contours=[[list(p) for p in q] for q in c], layout=common.layout(g, 1),
                fans=[[list(p)] + list(f[1:]) for p, f in zip(ct, fans)])


def judge(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    bad = roof.faces_contract(call) + roof.manifold(call) + roof.tiling(call)
    if bad:
        return bad
    c = call.contours[0]
    S = max(abs(x) for p in c for x in p)
    tol = 0.02 + 2e-6 * S
    ef = roof.edge_faces(call)
    used = {v for f in call.faces for v in f if v >= call.n0}
    for ctr, R, n, a, closed in case["fans"]:
        apo = R * math.cos((math.pi if closed else H) / n)
        top = [v for v in used if geom.dist(call.V[v], ctr) < 0.05]
        if len(top) != 1:
            bad.append("%d roof vertices in the center (%.3f, %.3f)" % (len(top), ctr[0], ctr[1]))
            continue
        z = call.V[top[0]][2]
        if abs(z - call.z - apo * call.tan) > tol * call.tan + 1e-5 * abs(call.z) + 1e-5:
            bad.append("the center is at z=%.4f instead of %.4f" % (z, call.z + apo * call.tan))
        chord = 2 * R * math.sin((math.pi if closed else H) / n)
        for i in range(n):
            f = ef[(0, (a + i) % len(c))][0]
            if top[0] not in f:
                bad.append("the face of chord %d does not reach the center" % i)
            if closed or 0 < i < n - 1:
                s = geom.area([call.V[v][:2] for v in f])
                if abs(s - chord * apo / 2) > tol * (chord + apo):
                    bad.append("the face of chord %d has an area of %.4f instead of %.4f" % (i, s, chord * apo / 2))
                if len(f) != 3:
                    bad.append("the face of chord %d has %d corners" % (i, len(f)))
        if closed and len(used) != 1:
            bad.append("%d roof vertices instead of one" % len(used))
    return bad


def judge_noisy(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    bad = roof.faces_contract(call) + roof.manifold(call) + roof.tiling(call)
    if bad:
        return bad
    S = max(abs(x) for p in call.contours[0] for x in p)
    w = roof.plane_error(call)
    if w > 0.06 + 2e-6 * S + 1e-5 * abs(call.z) / call.tan:
        bad.append("a face leaves the plane of its wall by %.3f" % w)
    return bad


def variants(case):
    """as common.variants, and the centers with the contour"""
    c = tup(case["contours"])
    about = c[0][0]

    def at(*a, **k):
        d = dict(case)
        d["contours"] = [[list(p) for p in q] for q in geom.f32c(geom.motion(c, *a, **k))]
        d["fans"] = [[list(geom.motion([[f[0]]], *a, about=about, **k)[0][0])] + f[1:] for f in case["fans"]]
        return d
    yield [at(a, 3.7, -1.9) for a in common.ANG]
    yield [at(0.0, 2.337, -5.113), at(math.pi / 2, 1.771, 0.533), at(math.pi, -3.19, 7.77), at(0.0, -17.3, 4.4)]


def sec(name, kinds, noise, judge, n, **kw):
    return Section(name, lambda g: generate(g, kinds, noise), judge, quick=n, variants=variants, **kw)


SECTIONS = [sec("exact", ["apse", "tower", "two", "church"], [0], judge, 4000),
            sec("noisy", ["apse"], [.03, .05, .07, .1], judge_noisy, 3000, limit=(12, .008))]
