"""C20: a result depends on the arguments of the call only"""
import contextlib
import importlib
import io
import json
import os
import subprocess
import sys

import common
import env
import gen
import geom
import roof
from common import tup
from engine import Section
from mathutils import Vector

RULE = ("Histories of 2 to 6 operations on one loaded library: complete calls of polygonize() and skeletonize() on footprints of all "
        "shapes, calls for another building that has much in common with an earlier one, repeated calls, calls with senseless arguments (which may raise), debug output switched on and off, results and "
        "arguments changed by the caller afterwards; every complete call is repeated alone on a freshly loaded library and must give "
        "the same result bit by bit. Section processes: the same calls in other processes with other hash seeds. Non-trivial: at least "
        "two complete calls, or a senseless one before a complete one.")
NAMES = common.PLAIN + common.HOLES + common.ROUND + common.DORMER
MODULES = ["bpypolyskel", "bpypolyskel.bpypolyskel", "bpypolyskel.bpyeuclid", "bpypolyskel.poly2FacesGraph"]


def fresh():
    for m in MODULES:
        sys.modules.pop(m, None)
    return importlib.import_module("bpypolyskel.bpypolyskel")


def foot(g):
    name, c = gen.footprint(g, common.ROUND + common.DORMER if g.p(30) else NAMES)
    if c is None or sum(map(len, c)) > 30 or not geom.is_valid(c, 1e-3):
        return None
    lo = common.layout(g, len(c))
    if g.p(25):
        lo["height"] = g.u(1, 20)
    return dict(op="roof", contours=[[list(p) for p in q] for q in c], layout=lo)


def meet(p, v, q, w):
    """intersection of two lines"""
    d = v[0] * w[1] - v[1] * w[0]
    if abs(d) < 1e-3:
        return None
    u = ((q[0] - p[0]) * w[1] - (q[1] - p[1]) * w[0]) / d
    return p[0] + u * v[0], p[1] + u * v[1]


def kin(g, op):
    """another building that has much in common with an earlier one: size, place, start, description, a corner, the courtyards"""
    c, lo, k = tup(op["contours"]), op["layout"], g.i(0, 8)
    if k == 0:
        f = g.u(0.5, 2.0)
        c = [[(x * f, y * f) for x, y in q] for q in c]
    elif k == 1:
        a, b = g.u(0.75, 1.35), g.u(0.75, 1.35)
        c = [[(x * a, y * b) for x, y in q] for q in c]
    elif k == 2:
        a, b = g.u(-60, 60), g.u(-60, 60)
        c = [[(x + a, y + b) for x, y in q] for q in c]
    elif k == 3:
        c = geom.motion(c, g.u(0, 6.28))
    elif k == 4:
        i = g.i(1, len(c[0]) - 1)
        c = [c[0][i:] + c[0][:i]] + c[1:]
    elif k == 5:
        lo = common.layout(g, len(c))
        if g.p(50):
            lo["height"] = g.u(1, 20)
    elif k == 6:
        i = g.i(0, len(c[0]) - 1)
        x, y = c[0][i]
        c[0][i] = (x + g.u(-0.5, 0.5), y + g.u(-0.5, 0.5))
    elif k == 7:
        i, n = g.i(0, len(c[0]) - 1), len(c[0])     # one wall moved along its neighbours (all angles stay)
        p, q, r, s = (c[0][(i + j) % n] for j in range(4))
        f = g.u(0.7, 1.2)
        w = (f - 1) * (q[0] - p[0]), (f - 1) * (q[1] - p[1])
        t = meet((q[0] + w[0], q[1] + w[1]), (r[0] - q[0], r[1] - q[1]), r, (s[0] - r[0], s[1] - r[1]))
        if t is not None:
            c[0][(i + 1) % n], c[0][(i + 2) % n] = (q[0] + w[0], q[1] + w[1]), t
    elif len(c) > 1:
        c = c[:1]
        lo = common.layout(g, 1)
    c = geom.f32c(c)
    if not geom.is_valid(c, 1e-3):
        return None
    return dict(op="roof", contours=[[list(p) for p in q] for q in c], layout=lo)


def generate(g):
    ops = []
    for _ in range(g.i(2, 6)):
        k = g.i(0, 14)
        full = [o for o in ops if o["op"] == "roof"]
        if k <= 3 or not full:
            o = foot(g)
            if o is None:
                return None
            ops.append(o)
        elif k == 4:
            ops.append(g.one(full))
        elif k == 5:
            o = dict(g.one(full))
            o["op"] = "skeleton"
            ops.append(o)
        elif k == 6:
            ops.append(dict(op="junk", kind=g.i(0, 6), contours=g.one(full)["contours"]))
        elif k == 7:
            ops.append(dict(op="debug", on=g.p(60)))
        elif k >= 10:
            o = kin(g, g.one(full))
            if o:
                ops.append(o)
        elif k == 8:
            ops.append(dict(op="spoil", what=g.i(0, 3)))
        else:
            ops.append(dict(op="helpers", contours=g.one(full)["contours"]))
    if sum(1 for o in ops if o["op"] in ("roof", "skeleton")) < 1:
        return None
    return dict(shape="%d ops" % len(ops), ops=ops)


def run_roof(B, op):
    """(result as plain data, live objects)"""
    c = roof.Call(tup(op["contours"]), op["layout"])
    old = roof._lib
    roof._lib = B
    try:
        c.run()
        return dict(faces=[list(f) for f in c.returned], verts=c.V), c
    except roof.Hang:
        return dict(error="hang"), c
    except Exception as e:
        return dict(error="%s: %s" % (type(e).__name__, e)), c
    finally:
        roof._lib = old


def run_skeleton(B, op):
    ec = []
    for q in tup(op["contours"]):
        V = [Vector(p) for p in q]
        ec.append([B.Edge2(V[i], V[(i + 1) % len(V)]) for i in range(len(V))])
    try:
        sk = roof.guarded(B.skeletonize, ec)
        return dict(skeleton=[(tuple(a.source), a.height, [tuple(s) for s in a.sinks]) for a in sk]), None
    except roof.Hang:
        return dict(error="hang"), None
    except Exception as e:
        return dict(error="%s: %s" % (type(e).__name__, e)), None


def junk(B, op):
    c = tup(op["contours"])
    q = c[0]
    k = op["kind"]
    V = [Vector((x, y, 0.0)) for x, y in q]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if k == 0:      # clockwise
                roof.guarded(B.polygonize, V[::-1], 0, len(V), None, 0.0, 1.0, limit=2.0)
            elif k == 1:    # repeated vertex
                roof.guarded(B.polygonize, V[:2] + V[1:], 0, len(V) + 1, None, 0.0, 1.0, limit=2.0)
            elif k == 2:    # too few
                roof.guarded(B.polygonize, V[:2], 0, 2, None, 0.0, 1.0, limit=2.0)
            elif k == 3:    # index out of range
                roof.guarded(B.polygonize, V, 1, len(V), None, 0.0, 1.0, limit=2.0)
            elif k == 4:    # crossing itself
                W = V[:]
                W[0], W[1] = W[1], W[0]
                roof.guarded(B.polygonize, W, 0, len(W), None, 0.0, 1.0, limit=2.0)
            elif k == 5:    # hole outside
                W = V + [v + Vector((900.0, 0.0, 0.0)) for v in V[::-1]]
                roof.guarded(B.polygonize, W, 0, len(V), [(len(V), len(V))], 0.0, 1.0, limit=2.0)
            else:
                roof.guarded(B.polygonize, None, 0, 4, limit=2.0)
    except (Exception, roof.Hang):
        pass


def helpers(B, op):
    with contextlib.suppress(Exception):
        V = [Vector(p) for p in op["contours"][0]]
        ec = [B.Edge2(V[i], V[(i + 1) % len(V)]) for i in range(len(V))]
        B.detectApses(ec)
        B.fitCircle3Points(V)
        B.checkEdgeCrossing([B.Subtree(V[0], 1.0, [V[1], V[2]]), B.Subtree(V[1], 1.0, [V[2]])])


def judge(case):
    bad = []
    ops = case["ops"]
    alone = {}
    try:
        for k, op in enumerate(ops):
            if op["op"] in ("roof", "skeleton"):
                key = json.dumps(op, sort_keys=True)
                if key not in alone:
                    alone[key] = (run_roof if op["op"] == "roof" else run_skeleton)(fresh(), op)[0]
        B = fresh()
        last = None
        for k, op in enumerate(ops):
            if op["op"] in ("roof", "skeleton"):
                r, live = (run_roof if op["op"] == "roof" else run_skeleton)(B, op)
                last = live or last
                w = alone[json.dumps(op, sort_keys=True)]
                if r != w:
                    d = [x for x in sorted(set(r) | set(w)) if r.get(x) != w.get(x)]
                    bad.append("operation %d (%s) gives another result (%s) than the same call alone" % (k, op["op"], ", ".join(d)))
                    if "error" in r:
                        bad.append(r["error"])
            elif op["op"] == "junk":
                junk(B, op)
            elif op["op"] == "helpers":
                helpers(B, op)
            elif op["op"] == "debug":
                if op["on"]:
                    B.debugOutputs["skeleton"] = 1
                else:
                    B.debugOutputs.clear()
            elif last is not None:
                with contextlib.suppress(Exception):
                    if op["what"] == 0:
                        last.returned.clear()
                    elif op["what"] == 1:
                        for v in last.verts:
                            v *= 3.0
                    elif op["what"] == 2:
                        for f in last.returned:
                            f.reverse()
                    else:
                        last.verts.clear()
                        for a in B.debugOutputs.get("skeleton") or []:
                            a.sinks.clear()
    finally:
        fresh()
        roof._lib = None
    return bad


CHILD = """
import sys, json
sys.path.insert(0, %r)
import env, roof
from checks import c20
B = roof.lib()
json.dump([c20.run_roof(B, op)[0] for op in json.load(open(sys.argv[1]))], sys.stdout)
"""


def batch(g):
    ops = []
    for _ in range(30):
        o = foot(g)
        if o:
            ops.append(o)
    return dict(shape="batch", ops=ops, hashseed=g.i(1, 4000000000), reverse=g.p(50)) if ops else None


def judge_batch(case):
    import tempfile
    ops = case["ops"][::-1] if case["reverse"] else case["ops"]
    roof._lib = None
    here = json.loads(json.dumps([run_roof(roof.lib(), op)[0] for op in case["ops"]]))
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(ops, f)
    try:
        e = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-c", CHILD % os.path.join(env.VERIF, "pbt"), f.name], env=e, capture_output=True, text=True)
    finally:
        os.unlink(f.name)
    try:
        there = json.loads(p.stdout)
    except ValueError:
        return ["the other process fails: %s" % p.stderr[-300:]]
    if case["reverse"]:
        there = there[::-1]
    return ["call %d gives another result in another process" % k for k, (a, b) in enumerate(zip(here, there)) if a != b]


def nontrivial(case):
    o = [x["op"] for x in case["ops"]]
    return sum(x in ("roof", "skeleton") for x in o) > 1 or ("junk" in o)


SECTIONS = [Section("histories", generate, judge, quick=7000, nontrivial=nontrivial),
            Section("processes", batch, judge_batch, quick=24, thorough=300, nontrivial=lambda c: len(c["ops"]) > 1)]
