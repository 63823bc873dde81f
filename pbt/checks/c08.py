"""C08: the data of the caller"""
import common
import geom
import roof
from common import tup
from engine import Section
from mathutils import Vector

RULE = common.RULE


def judge(case):
    B = roof.lib()
    c = tup(case["contours"])
    lo = case["layout"]
    opt = case["opt"]
    bad = []
    call = roof.Call(c, lo)
    verts = call.verts
    ids = [id(v) for v in verts]
    faces_in = call.faces_in
    inner = list(faces_in) if faces_in is not None else []
    inner_copy = [list(f) for f in inner]
    unit_copy = [tuple(u) for u in call.unit] if call.unit is not None else None
    unit_ids = [id(u) for u in call.unit] if call.unit is not None else None
    holes_copy = list(call.holesInfo) if call.holesInfo is not None else None
    if opt["debug"]:
        B.debugOutputs["skeleton"] = 1
    if opt["other"]:
        B.debugOutputs["other"] = "mine"
    try:
        try:
            call.run()
        except roof.Hang:
            return ["does not terminate"]
        except Exception as e:
            return ["raises %s: %s" % (type(e).__name__, e)]
        dbg = dict(B.debugOutputs)
    finally:
        B.debugOutputs.clear()
    n0 = call.n0
    if len(verts) < n0 or [id(v) for v in verts[:n0]] != ids:
        bad.append("entries of the vertex list were replaced")
    if [tuple(v) for v in verts[:n0]] != call.before:
        bad.append("vertices of the caller were changed")
    for v in verts[n0:]:
        if not isinstance(v, Vector) or len(v) != 3 or not all(abs(x) < 1e7 for x in v):
            bad.append("appended vertex %r is not a finite 3D vector" % (v,))
    if len({id(v) for v in verts}) != len(verts):
        bad.append("one vector object stands for several vertices")
    if call.unit is not None and ([tuple(u) for u in call.unit] != unit_copy or [id(u) for u in call.unit] != unit_ids):
        bad.append("the unit vectors were changed")
    if call.holesInfo is not None and list(call.holesInfo) != holes_copy:
        bad.append("holesInfo was changed")
    out = call.returned
    if not isinstance(out, list) or not all(isinstance(f, list) and all(isinstance(i, int) for i in f) for f in out):
        bad.append("the result is not a list of lists of indices")
        return bad
    if faces_in is not None:
        if out is not faces_in:
            bad.append("the list of faces was not extended in place")
        k = len(inner)
        if len(out) < k or any(a is not b for a, b in zip(out, inner)) or [list(f) for f in out[:k]] != inner_copy:
            bad.append("existing faces were changed")
    if len({id(f) for f in out}) != len(out):
        bad.append("one list object stands for several faces")
    if opt["debug"]:
        sk = dbg.get("skeleton")
        if not isinstance(sk, list) or len(sk) != len(verts) - n0:
            bad.append("the debug skeleton does not belong to this roof")
        else:
            zs = sorted(round(a.height, 3) for a in sk)
            zv = sorted(round((v[2] - call.z) / call.tan, 3) for v in verts[n0:])
            if any(abs(a - b) > 0.004 + 2e-5 * abs(call.z) / call.tan for a, b in zip(zs, zv)):
                bad.append("the heights of the debug skeleton are not the ones of the roof")
    elif "skeleton" in dbg:
        bad.append("debug output without being asked for")
    if opt["other"] and dbg.get("other") != "mine":
        bad.append("a foreign debug output was changed")
    if opt["again"] and not bad:
        # a second roof of the same footprint in the same (longer) list, with another pitch
        call.tan = call.tan * 2
        before = [tuple(v) for v in verts]
        call.faces_in = out if faces_in is not None else None
        nf = len(out) if faces_in is not None else 0
        first = [list(f) for f in out]
        try:
            call.run()
        except Exception as e:
            return bad + ["raises %s in a second call" % type(e).__name__]
        if [tuple(v) for v in verts[:len(before)]] != before:
            bad.append("the second roof changed vertices of the first one")
        if nf and [list(f) for f in call.returned[:nf]] != first:
            bad.append("the second roof changed faces of the first one")
        new = {v for f in call.faces for v in f}
        if any(n0 <= v < len(before) for v in new):
            bad.append("the second roof uses vertices of the first one")
        if not any(v >= len(before) for v in new):
            bad.append("the second roof has no vertices of its own")
        call.n0 = len(before)
        bad += roof.planarity(call, call.tan, 0.01)
    return bad


def generate(g, names, **kw):
    case = common.roof_case(g, names, **kw)
    if case is None:
        return None
    case["opt"] = dict(debug=g.p(40), other=g.p(20), again=g.p(40))
    lo = case["layout"]
    k = g.i(0, 3)
    if k == 0:
        lo["faces"] = []
    elif k == 1:
        lo["faces"] = [[0, 1, 2], [2, 1, 0, 3], [0, 2, 1]][:g.i(1, 3)]
    return case


def sec(name, names, n, **kw):
    return Section(name, lambda g: generate(g, names, **kw), judge, quick=n, variants=common.variants, nontrivial=common.nontrivial)


SECTIONS = [sec("plain", common.PLAIN, 5000), sec("holes", common.HOLES, 3000),
            sec("round", common.ROUND, 1000, margins=dict(turn=0.1, corner=0.15)), sec("dormers", common.DORMER, 1000)]
