"""C22: the Blender add-on builds a closed house of the chosen size"""
import importlib.util
import os
import sys
import types

import common
import env
import geom
import roof
from engine import Section
from mathutils import Vector

RULE = ("The operator of the add-on, run with stand-ins for Blender, for random positive scales (the three axes on their own), several "
        "times in a row, with registration. Non-trivial: different scales of x and y.")


class Recorder:
    def __init__(self):
        self.meshes, self.objects, self.classes, self.manuals, self.menu = [], [], [], [], []


def stubs(rec):
    bpy, typ, props = types.ModuleType("bpy"), types.ModuleType("bpy.types"), types.ModuleType("bpy.props")
    ext, ou = types.ModuleType("bpy_extras"), types.ModuleType("bpy_extras.object_utils")

    class Mesh:
        def __init__(self, name):
            self.name, self.data = name, None

        def from_pydata(self, verts, edges, faces):
            self.data = ([tuple(v) for v in verts], list(edges), [list(f) for f in faces])

    class Meshes:
        def new(self, name):
            rec.meshes.append(Mesh(name))
            return rec.meshes[-1]
    bpy.data = types.SimpleNamespace(meshes=Meshes())
    bpy.utils = types.SimpleNamespace(register_class=rec.classes.append, unregister_class=rec.classes.remove,
                                      register_manual_map=rec.manuals.append, unregister_manual_map=rec.manuals.remove)
    typ.Operator = type("Operator", (), {})
    typ.VIEW3D_MT_mesh_add = types.SimpleNamespace(append=rec.menu.append, remove=rec.menu.remove)
    props.FloatVectorProperty = lambda **k: None
    ou.AddObjectHelper = type("AddObjectHelper", (), {})

    def object_data_add(context, mesh, operator=None):
        rec.objects.append((context, mesh, operator))
    ou.object_data_add = object_data_add
    bpy.types, bpy.props, ext.object_utils = typ, props, ou
    return {"bpy": bpy, "bpy.types": typ, "bpy.props": props, "bpy_extras": ext, "bpy_extras.object_utils": ou}


def load(rec):
    names = stubs(rec)
    old = {n: sys.modules.get(n) for n in names}
    sys.modules.update(names)
    try:
        spec = importlib.util.spec_from_file_location("addon_under_test", os.path.join(env.REPO, "__init__.py"),
                                                      submodule_search_locations=[env.REPO])
        mod = importlib.util.module_from_spec(spec)
        sys.modules["addon_under_test"] = mod
        spec.loader.exec_module(mod)
        return mod
    finally:
        for n, m in old.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


def generate(g):
    n = g.one([1, 1, 1, 2, 2, 3, 3, 6])
    S = []
    for _ in range(n):
        s = g.size(.3, 10)
        S.append([round(s * g.u(.6, 1.6), 4), round(s * g.u(.6, 1.6), 4), round(g.size(.1, 10), 4)] if g.p(75) else [round(s, 4)] * 3 if g.p(60) or not S else list(S[0]))
    return dict(shape="%d calls" % n, scales=S)


# the plan of the demo house
PLAN = [
    (7.710012, -6.963028), (8.055674, 4.447220), (0.423626, 4.580797), (0.382958, 5.014943), (0.301622, 5.426825),
    (0.132171, 5.816443), (-0.105059, 6.172666), (-0.403292, 6.462097), (-0.755749, 6.706999), (-1.148873, 6.873979),
    (-1.562332, 6.951902), (-1.989347, 6.963035), (-2.409584, 6.885111), (-2.809487, 6.740396), (-3.168722, 6.517757),
    (-3.480510, 6.228327), (-3.731297, 5.883236), (-3.907526, 5.493618), (-4.009197, 5.081737), (-4.049865, 4.658722),
    (-4.436212, 4.680986), (-4.503994, 2.866479), (-7.865891, 2.799691), (-8.055686, -3.200429), (-4.693784, -3.222697),
    (-4.809014, -6.695865),
]
NW = len(PLAN)
TOL = 0.15


def judge(case):
    rec = Recorder()
    try:
        mod = load(rec)
        mod.register()
        if len(rec.classes) != 1 or len(rec.menu) != 1 or len(rec.manuals) != 1:
            return ["register() registers %d classes, %d menu entries, %d manuals" % (len(rec.classes), len(rec.menu), len(rec.manuals))]
        op = rec.classes[0]()
        for s in case["scales"]:
            op.scale = Vector(s)
            r = roof.guarded(op.execute, "context")
            if r != {"FINISHED"}:
                return ["the operator returns %s" % (r,)]
        mod.unregister()
    except roof.Hang:
        return ["does not terminate"]
    except Exception as e:
        return ["raises %s: %s" % (type(e).__name__, e)]
    bad = []
    if rec.classes or rec.menu or rec.manuals:
        bad.append("unregister() leaves something registered")
    if len(rec.meshes) != len(case["scales"]) or len(rec.objects) != len(case["scales"]):
        return bad + ["%d meshes, %d objects for %d runs" % (len(rec.meshes), len(rec.objects), len(case["scales"]))]
    for (sx, sy, sz), m, (ctx, om, oo) in zip(case["scales"], rec.meshes, rec.objects):
        if om is not m or ctx != "context" or oo is not op:
            bad.append("another mesh, context or operator is added to the scene")
        V, E, F = m.data
        S = max(sx, sy)
        # four walls of the bounding box of the house
        top = [v for v in V[:2 * NW] if abs(v[2] - 5 * sz) < 1e-4 * (1 + sz)]
        low = [v for v in V[:2 * NW] if abs(v[2]) < 1e-6]
        if len(top) != NW or len(low) != NW:
            bad.append("%d wall corners at the eaves and %d on the ground instead of %d" % (len(top), len(low), NW))
            continue
        for i in range(NW):
            a, b = V[i], V[i + NW]
            if abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1e-6 * S or a[2] != 0:
                bad.append("wall corner %d is not vertical" % i)
        for px, py in PLAN:
            if min(abs(v[0] - px * sx) + abs(v[1] - py * sy) for v in V[:NW]) > 1e-4 * S:
                bad.append("no wall corner at (%.4f, %.4f)" % (px * sx, py * sy))
        seen = {}
        for f in F:
            if len(f) < 3 or len(set(f)) != len(f) or not all(0 <= v < len(V) for v in f):
                bad.append("face %s" % f)
                continue
            for e in zip(f, f[1:] + f[:1]):
                seen[e] = seen.get(e, 0) + 1
        for e, k in seen.items():
            if k > 1:
                bad.append("edge %s occurs %d times" % (e, k))
        ground = [e for e in seen if (e[1], e[0]) not in seen]
        want = {(i, (i + 1) % NW) for i in range(NW)}
        if set(ground) != want:
            bad.append("the open border of the mesh is not the ground: %s" % sorted(set(ground) ^ want)[:6])
        walls = [f for f in F if len(f) == 4 and sum(v < NW for v in f) == 2 and sum(v < 2 * NW for v in f) == 4]
        if len(walls) != NW:
            bad.append("%d walls instead of %d" % (len(walls), NW))
        # roof: planes of pitch 0.6 through the eaves
        # (a face may serve two walls: narrow faces are merged on purpose)
        R = [f for f in F if min(f) >= NW]
        A = 0.0
        for f in R:
            P = [V[v] for v in f]
            A += geom.area([p[:2] for p in P])
            if not (NW <= f[0] < 2 * NW and f[1] == NW + (f[0] + 1) % NW):
                bad.append("roof face %s does not begin with its eaves" % f)
            k = [(V[a], V[b]) for a, b in zip(f, f[1:] + f[:1]) if a < 2 * NW and b < 2 * NW]
            for v, p in zip(f, P):
                h = [0.6 * geom.line_dist(a, b, p) + 5 * sz for a, b in k]
                if v >= 2 * NW and min([abs(x - p[2]) for x in h] + [9e9]) > TOL + 1e-5 * (S + sz):
                    bad.append("roof vertex (%.3f, %.3f) is at z=%.3f, its walls say %s" % (p[0], p[1], p[2], h))
        full = geom.area([v[:2] for v in V[:NW]])
        if abs(A - full) > 0.01 * full:
            bad.append("the roof covers %.4g of %.4g" % (A, full))
    return bad


SECTIONS = [Section("house", generate, judge, quick=1500, nontrivial=lambda c: any(s[0] != s[1] for s in c["scales"]))]
