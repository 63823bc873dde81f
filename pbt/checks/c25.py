"""C25: real buildings keep a complete roof wherever and however they are given"""
import json
import math
import os

import common
import env
import geom
import roof
from common import tup
from engine import Section

RULE = ("Footprints of OpenStreetMap buildings (the ones in the repository's test files), with random start vertices, mirrored, moved, "
        "rotated, scaled by 0.8 to 1.25, every vertex displaced by up to 0.02. Non-trivial: more than four walls or a hole.")
with open(os.path.join(env.VERIF, "pbt", "corpus.json")) as _f:
    CORPUS = json.load(_f)
BY_NAME = {d["name"]: d for d in CORPUS}
TOL = 0.3


def generate(g, names):
    # small footprints (the later draws shrink to the first ones) are cheap, the big ones take a second
    name = g.one(names)
    c = geom.f32c(tup(BY_NAME[name]["contours"]))
    if g.p(30):
        c = geom.mirror(c)
    if g.p(85):
        c = geom.motion(c, g.u(0, math.tau) if g.p(70) else g.i(0, 3) * math.pi / 2, g.u(-50, 50), g.u(-50, 50),
                        g.u(.8, 1.25) if g.p(50) else 1.0)
    s = g.one([0, 0, .003, .02])
    if s:
        c = [[(x + g.u(-s, s), y + g.u(-s, s)) for x, y in q] for q in c]
    c = geom.f32c(c)
    lo = common.layout(g, len(c))
    lo["shift"] = [g.i(0, 30) for _ in c]
    return dict(shape=name, contours=[[list(p) for p in q] for q in c], layout=lo)


def judge_complete(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    bad = roof.faces_contract(call) + roof.manifold(call) + roof.tiling(call, 0.01)
    for v in {v for f in call.faces for v in f if v >= call.n0}:
        if call.V[v][2] < call.z - 1e-4:
            bad.append("roof vertex %d is below the eaves" % v)
    return bad


def judge(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    bad = roof.faces_contract(call) + roof.manifold(call) + roof.tiling(call, 0.01)
    if bad:
        return bad
    w = roof.plane_error(call)
    if w > TOL + 1e-5 * abs(call.z) / call.tan:
        bad.append("a face leaves the plane of its wall by %.3f" % w)
    return bad


def names(k, lo, hi):
    return [d["name"] for d in sorted(CORPUS, key=lambda d: sum(map(len, d["contours"]))) if
            d["class"] == k and lo <= sum(map(len, d["contours"])) < hi]


def sec(name, ns, judge, n):
    return Section(name, lambda g: generate(g, ns), judge, quick=n, variants=common.variants, nontrivial=common.nontrivial)


SECTIONS = [sec("small", names(2, 0, 40), judge, 5000), sec("large", names(2, 40, 999), judge, 600),
            sec("complete", names(1, 0, 60), judge_complete, 1500), sec("complete large", names(1, 60, 999), judge_complete, 150)]
