"""Calling the library, and what a roof must look like."""
import math
import signal

import env  # noqa: F401
import geom
from geom import dist, line_dist
from refskel import RefError, reference

from mathutils import Vector  # noqa: E402

CPU_LIMIT = 10.0        # CPU seconds one call may take (a usual call takes 0.01)


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def guarded(fn, *a, limit=CPU_LIMIT, **k):
    """call fn; Hang after `limit` seconds of CPU time of this process (not wall clock)"""
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        return fn(*a, **k)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


_lib = None


def lib():
    global _lib
    if _lib is None:
        from bpypolyskel import bpypolyskel as B
        _lib = B
    return _lib


def helper(name, module="bpypolyskel"):
    """an inner function of the library, None when there is no function of that name any more (then it can't be judged on its own)"""
    lib()
    import importlib
    try:
        return getattr(importlib.import_module("bpypolyskel." + module), name, None)
    except ModuleNotFoundError:
        return None


# ---------------------------------------------------------------- layout of the arguments
class Call:
    """one call of polygonize(): contours plus the way they are laid out"""

    def __init__(self, contours, layout=None):
        lo = layout or {}
        self.contours = contours
        self.z = lo.get("z", 0.0)
        self.height = lo.get("height", 0.0)
        self.tan = lo.get("tan", 1.0)
        shift = lo.get("shift", [])              # start vertex per contour
        order = lo.get("order")                  # order of the holes in holesInfo
        gaps = lo.get("gaps", [])                # unused vertices before each block
        holes_first = lo.get("holes_first", False)
        self.faces_in = [list(f) for f in lo["faces"]] if lo.get("faces") is not None else None
        verts = []
        self.index = {}                          # (contour, i) -> index in verts
        idx = list(range(1, len(contours)))
        if order:
            idx = [idx[k % len(idx)] for k in order] if sorted(k % len(idx) for k in order) == list(range(len(idx))) else idx
        blocks = ([0] + idx) if not holes_first else (idx + [0])
        start = {}
        for b, k in enumerate(blocks):
            for j in range(gaps[b % len(gaps)] if gaps else 0):
                verts.append((1000.0 + 13.7 * len(verts), -500.0 + 3.1 * j, 77.0 - j))
            start[k] = len(verts)
            c = contours[k]
            n = len(c)
            s = shift[k % len(shift)] % n if shift else 0
            for j in range(n):
                self.index[(k, (s + j) % n)] = len(verts)
                x, y = c[(s + j) % n]
                verts.append((x, y, self.z))
        for j in range(lo.get("tail", 0)):
            verts.append((-700.0 - j, 900.0 + 2 * j, 5.0))
        self.verts = [Vector(v) for v in verts]
        self.n0 = len(verts)
        self.first = start[0]
        self.num = len(contours[0])
        self.holes = [(start[k], len(contours[k])) for k in idx]
        k = lo.get("listed", 0)                  # holesInfo need not name the holes in the order of their blocks
        if k and idx:
            self.holes = self.holes[k % len(idx):] + self.holes[:k % len(idx)]
            if k > 2:
                self.holes.reverse()
        self.holesInfo = self.holes if self.holes else lo.get("noholes", None)
        self.unit = None
        if lo.get("unit"):
            self.unit = []
            for s, n in [(self.first, self.num)] + self.holes:
                for j in range(n):
                    d = self.verts[s + (j + 1) % n] - self.verts[s + j]
                    self.unit.append(d.normalized())
        self.before = [tuple(v) for v in self.verts]

    def run(self, limit=CPU_LIMIT):
        B = lib()
        n_in = len(self.faces_in) if self.faces_in is not None else 0
        out = guarded(B.polygonize, self.verts, self.first, self.num, self.holesInfo, self.height, self.tan,
                      self.faces_in, self.unit, limit=limit)
        self.returned = out
        self.faces = [list(f) for f in out[n_in:]]
        self.V = [tuple(v) for v in self.verts]
        return self

    def contour_edges(self):
        """(index_a, index_b, contour, i) for every edge of the footprint"""
        out = []
        for k, c in enumerate(self.contours):
            n = len(c)
            for i in range(n):
                out.append((self.index[(k, i)], self.index[(k, (i + 1) % n)], k, i))
        return out


def attempt(contours, layout=None, limit=CPU_LIMIT):
    """(Call, None) or (None, why)"""
    c = Call(contours, layout)
    try:
        c.run(limit)
    except Hang:
        return None, "does not terminate (more than %g s of CPU time)" % limit
    except Exception as e:      # a footprint of the domain must never raise
        return None, "raises %s: %s" % (type(e).__name__, str(e)[:80])
    return c, None


# ---------------------------------------------------------------- reference model and its margins
class Model:
    """straight skeleton of the footprint and how well conditioned it is"""

    def __init__(self, contours):
        self.contours = contours
        self.ref, self.faces = reference(contours)     # RefError when it cannot vouch for it
        nd = self.ref.skeleton_nodes()
        self.nodes = nd
        self.maxt = max(n[2] for n in nd)
        self.area = geom.total_area(contours)
        E = geom.edges(contours)
        self.edges = E
        self.min_edge = min(dist(p, q) for p, q, _, _ in E)
        ta = []
        col = []
        for c in contours:
            for i in range(len(c)):
                t = abs(geom.turn(c[i - 1], c[i], c[(i + 1) % len(c)]))
                (col if t < 1e-3 else ta).append(t)
        self.collinear = len(col)
        self.min_turn = min([9.0] + ta)
        self.max_turn = max([0.0] + ta)
        sep, coinc = 1e9, 0
        for i, a in enumerate(nd):
            for b in nd[:i]:
                d = abs(a[0] - b[0]) + abs(a[1] - b[1])
                if d < 0.001:
                    coinc += 1
                elif d < sep:
                    sep = d
        self.sep, self.coinc = sep, coinc
        self.min_corner = self.corner(0.01)

    def corner(self, tol):
        """smallest corner of a face, when corners closer than tol are merged"""
        mc = 9.0
        for f in self.faces:
            g = []
            for p in f:
                if not g or abs(g[-1][0] - p[0]) + abs(g[-1][1] - p[1]) > tol:
                    g.append(p)
            if len(g) > 1 and abs(g[0][0] - g[-1][0]) + abs(g[0][1] - g[-1][1]) <= tol:
                g.pop()
            if len(g) < 3:
                mc = 0.0
                continue
            for i in range(len(g)):
                t = abs(geom.turn(g[i - 1], g[i], g[(i + 1) % len(g)]))
                mc = min(mc, math.pi - t)
        return mc

    def sharp(self, corner=0.2):
        """a face with a needle-sharp corner, also once the nodes that are merged are one: such faces are merged on purpose"""
        return min(self.min_corner, self.corner(0.1), self.corner(0.25)) < corner

    def dormers(self):
        """rectangular protrusions of the outer wall: list of (width, depth, wall before, wall after)"""
        c = self.contours[0]
        n = len(c)
        t = [geom.turn(c[i - 1], c[i], c[(i + 1) % n]) for i in range(n)]
        code = ["L" if math.sin(a) > 0.985 else "R" if math.sin(a) < -0.985 else "0" for a in t]
        out = []
        for i in range(n):
            if n > 4 and [code[(i + k) % n] for k in range(4)] == ["R", "L", "L", "R"]:
                P = [c[(i + k) % n] for k in range(-1, 5)]
                out.append((dist(P[2], P[3]), dist(P[1], P[2]), dist(P[3], P[4]), dist(P[0], P[1]), dist(P[4], P[5])))
        return out

    def dormers_ok(self, wall=1.3):
        """every protrusion is an unambiguous dormer: narrow, symmetric, between walls that are long enough"""
        d = self.dormers()
        return all(w < 9.9 and abs(a - b) < 1e-3 and min(p, q) > wall * w for w, a, b, p, q in d)

    def in_line(self):
        """two walls lie on one line and look to the same side: the border of their faces is arbitrary"""
        P = [(self.ref._n(e), self.ref.D[e]) for e in range(len(self.edges))]
        for i, (n, d) in enumerate(P):
            for o, e in P[:i]:
                if abs(n[0] - o[0]) + abs(n[1] - o[1]) < 2e-3 and abs(d - e) < 0.1:
                    return True
        return False

    def tie(self, tol=0.01):
        """four walls are nearly equally far from a node: there the skeleton may jump with the smallest change; walls in line count once"""
        P = []
        for e, (p, q, _, _) in enumerate(self.edges):
            n, d = self.ref._n(e), self.ref.D[e]
            if not any(abs(n[0] - o[0]) + abs(n[1] - o[1]) < 2e-3 and abs(d - f) < 0.02 for o, f, _, _ in P):
                P.append((n, d, p, q))
        return any(sum(abs(line_dist(p, q, n[:2]) - n[2]) < tol for _, _, p, q in P) > 3 for n in self.nodes)

    def clear(self):
        """smallest distance of two edges that are not neighbours"""
        E, m = self.edges, 1e9
        for i in range(len(E)):
            p, q, k, a = E[i]
            n = len(self.contours[k])
            for j in range(i):
                r, s, l, b = E[j]
                if k == l and ((a - b) % n == 1 or (b - a) % n == 1):
                    continue
                m = min(m, geom.seg_dist(p, q, r, s))
        return m

    def strict(self, edge=1.0, turn=0.2, sep=0.3, corner=0.2):
        return (self.min_edge > edge and self.min_turn > turn and self.max_turn < math.pi - turn and self.sep > sep
                and self.min_corner > corner)

    def essential(self, node):
        """at least three faces of different planes meet at this node"""
        k = []
        for e, f in enumerate(self.faces):
            if any(abs(p[0] - node[0]) + abs(p[1] - node[1]) < 0.01 for p in f):
                n = self.ref._n(e)
                d = self.ref.D[e]
                if not any(abs(n[0] - a) + abs(n[1] - b) < 1e-3 and abs(d - c) < 0.02 for a, b, c in k):
                    k.append((n[0], n[1], d))
        return len(k) >= 3

    def height_at(self, x, y):
        """height of the exact roof (pitch 1) above (x, y); the nearest face decides on borders"""
        best, z = None, None
        for e, f in enumerate(self.faces):
            if geom.inside(f, (x, y)):
                p, q, _, _ = self.edges[e]
                return line_dist(p, q, (x, y))
        for e, f in enumerate(self.faces):
            d = geom.boundary_dist(f, (x, y))
            if best is None or d < best:
                p, q, _, _ = self.edges[e]
                best, z = d, line_dist(p, q, (x, y))
        return z


def model(contours):
    """Model or None"""
    if not geom.is_valid(contours, 1e-3):
        return None
    try:
        return Model(contours)
    except (RefError, ZeroDivisionError, IndexError, RecursionError):
        return None


# ---------------------------------------------------------------- judgements of one result
def scale_of(call):
    x0, y0, x1, y1 = geom.bbox(call.contours)
    return max(x1 - x0, y1 - y0)


def faces_contract(call):
    """indices, distinct corners, order, footprint edges; list of failures"""
    bad = []
    first = {(a, b): 0 for a, b, _, _ in call.contour_edges()}
    V, n0 = call.V, call.n0
    legal = set(call.index.values())
    for f in call.faces:
        if not all(isinstance(v, int) and 0 <= v < len(V) for v in f):
            bad.append("index out of range in face %s" % f)
            continue
        if len(f) < 3:
            bad.append("face %s has fewer than 3 corners" % f)
            continue
        if len(set(f)) != len(f):
            bad.append("face %s repeats a corner" % f)
        if any(v < n0 and v not in legal for v in f):
            bad.append("face %s uses a vertex that is not part of the footprint" % f)
        if (f[0], f[1]) not in first:
            bad.append("face %s does not begin with an edge of the footprint" % f)
        for e in zip(f, f[1:] + f[:1]):
            if e in first:
                first[e] += 1
        if geom.area([V[v][:2] for v in f]) <= 0:
            bad.append("face %s is not counterclockwise" % f)
    for e, k in first.items():
        if k != 1:
            bad.append("footprint edge %s lies on %d faces" % (e, k))
    return bad


def simple_faces(call, eps=1e-6):
    """no face crosses itself"""
    bad = []
    for f in call.faces:
        P = [call.V[v][:2] for v in f]
        n = len(P)
        for i in range(n):
            for j in range(i):
                if (i - j) % n == 1 or (j - i) % n == 1 or i == j:
                    continue
                if geom.cross_proper(P[i - 1], P[i], P[j - 1], P[j]) and \
                        min(geom.seg_point(P[i - 1], P[i], P[j]), geom.seg_point(P[i - 1], P[i], P[j - 1]),
                            geom.seg_point(P[j - 1], P[j], P[i]), geom.seg_point(P[j - 1], P[j], P[i - 1])) > 0.01:
                    bad.append("face %s crosses itself" % f)
                    break
            else:
                continue
            break
    return bad


def manifold(call):
    """every directed edge once; inner edges meet their reverse, the footprint is the border"""
    seen = {}
    bad = []
    for f in call.faces:
        for e in zip(f, f[1:] + f[:1]):
            seen[e] = seen.get(e, 0) + 1
    border = {(a, b) for a, b, _, _ in call.contour_edges()}
    for e, k in seen.items():
        if k > 1:
            bad.append("edge %s occurs %d times" % (e, k))
        r = (e[1], e[0])
        if e in border:
            if r in seen:
                bad.append("a face lies outside of footprint edge %s" % (e,))
        elif r not in seen:
            bad.append("edge %s has a face on one side only" % (e,))
    for e in border:
        if e not in seen:
            bad.append("no face at footprint edge %s" % (e,))
    return bad


def tiling(call, rel=1e-3):
    tot = geom.total_area(call.contours)
    s = sum(geom.area([call.V[v][:2] for v in f]) for f in call.faces)
    if abs(s - tot) > rel * tot:
        return ["faces cover %.6g of an area of %.6g" % (s, tot)]
    return []


def cover(call, points, clearance=0.02):
    """every point lies below exactly one face"""
    bad = []
    P = [[call.V[v][:2] for v in f] for f in call.faces]
    for p in points:
        if any(geom.boundary_dist(f, p) < clearance for f in P):
            continue
        k = sum(geom.inside(f, p) for f in P)
        if k != 1:
            bad.append("%d faces above the point (%.4f, %.4f)" % (k, p[0], p[1]))
    return bad


def edge_faces(call):
    """(contour, i) -> faces that contain this footprint edge"""
    out = {}
    E = {(a, b): (k, i) for a, b, k, i in call.contour_edges()}
    for f in call.faces:
        for e in zip(f, f[1:] + f[:1]):
            if e in E:
                out.setdefault(E[e], []).append(f)
    return out


def planarity(call, tan, tol):
    """every corner of a face is as high as its distance to the face's footprint edge says"""
    bad = []
    for (k, i), fs in edge_faces(call).items():
        c = call.contours[k]
        p, q = c[i], c[(i + 1) % len(c)]
        for f in fs:
            for v in f:
                x, y, z = call.V[v]
                h = line_dist(p, q, (x, y)) * tan + call.z
                if abs(h - z) > tol * max(tan, 1e-9) + 1e-5 * abs(call.z) + 1e-6:
                    bad.append("vertex %d of face %s is at z=%.5f, the slope of edge %d.%d says %.5f" % (v, f, z, k, i, h))
    return bad


def surface(call, m, tan, tol):
    """all skeleton vertices lie on the exact roof surface"""
    bad = []
    for v in range(call.n0, len(call.V)):
        x, y, z = call.V[v]
        h = m.height_at(x, y) * tan + call.z
        if abs(h - z) > tol * max(tan, 1e-9) + 1e-5 * abs(call.z) + 1e-6:
            bad.append("skeleton vertex %d (%.4f, %.4f) is at z=%.5f, the roof is at %.5f" % (v, x, y, z, h))
    return bad


def samples(m, k=1, clearance=0.05):
    """(edge number, point) well inside the exact faces"""
    out = []
    for e, f in enumerate(m.faces):
        for d, p in geom.sample_points([q[:2] for q in f], k):
            if d > clearance:
                out.append((e, p))
    return out


def face_identity(call, m, pts):
    """a point that drains to footprint edge e in the exact roof lies in the face of e (or of a wall in line with e)"""
    bad = []
    ef = edge_faces(call)
    for e, p in pts:
        a, b, k, i = m.edges[e]
        n = m.ref._n(e)
        ok = False
        for j, (_, _, kk, ii) in enumerate(m.edges):
            nj = m.ref._n(j)
            if j == e or (abs(nj[0] - n[0]) + abs(nj[1] - n[1]) < 1e-3 and abs(m.ref.D[j] - m.ref.D[e]) < 0.02):
                if any(geom.inside([call.V[v][:2] for v in f], p) for f in ef.get((kk, ii), [])):
                    ok = True
                    break
        if not ok:
            bad.append("the point (%.4f, %.4f) is not on the face of footprint edge %d.%d" % (p[0], p[1], k, i))
    return bad


def planes(call):
    """(contour, i) -> number of the plane of the roof above this footprint edge; walls in line share it"""
    P, out = [], {}
    for k, c in enumerate(call.contours):
        for i in range(len(c)):
            p, q = c[i], c[(i + 1) % len(c)]
            L = dist(p, q)
            u = ((q[0] - p[0]) / L, (q[1] - p[1]) / L)
            for j, (a, w) in enumerate(P):
                if abs(w[0] - u[0]) + abs(w[1] - u[1]) < 2e-3 and abs(u[0] * (p[1] - a[1]) - u[1] * (p[0] - a[0])) < 0.03:
                    out[(k, i)] = j
                    break
            else:
                out[(k, i)] = len(P)
                P.append((p, u))
    return out


def plane_faces(call, pl=None):
    """plane -> its faces"""
    pl = pl or planes(call)
    out = {}
    for e, fs in edge_faces(call).items():
        d = out.setdefault(pl[e], {})
        for f in fs:
            d[id(f)] = f
    return {k: list(d.values()) for k, d in out.items()}


def used_nodes(call):
    """positions of the skeleton vertices where three or more planes meet"""
    at = {}
    for k, fs in plane_faces(call).items():
        for f in fs:
            for v in f:
                if v >= call.n0:
                    at.setdefault(v, set()).add(k)
    return [call.V[v] for v in sorted(at) if len(at[v]) > 2]


def plane_areas(call, pl):
    return {k: sum(geom.area([call.V[v][:2] for v in f]) for f in fs) for k, fs in plane_faces(call, pl).items()}


def plane_error(call):
    """largest distance (in height, for pitch 1) of a face corner from the plane of its wall"""
    c, m = call.contours, 0.0
    for (k, i), fs in edge_faces(call).items():
        p, q = c[k][i], c[k][(i + 1) % len(c[k])]
        for f in fs:
            for v in f:
                x, y, z = call.V[v]
                m = max(m, abs(line_dist(p, q, (x, y)) - (z - call.z) / call.tan))
    return m


def planarity_any(call, tol):
    """every skeleton vertex of a face lies in the plane of its wall (of one of its walls, where narrow faces are merged)"""
    F, bad = {}, []
    for (k, i), fs in edge_faces(call).items():
        c = call.contours[k]
        for f in fs:
            F.setdefault(id(f), (f, []))[1].append((c[i], c[(i + 1) % len(c)]))
    for f, walls in F.values():
        for v in f:
            if v >= call.n0:
                x, y, z = call.V[v]
                d = min(abs(line_dist(p, q, (x, y)) * call.tan + call.z - z) for p, q in walls)
                if d > tol * call.tan + 1e-5 * abs(call.z) + 1e-6:
                    bad.append("vertex %d of face %s is at z=%.5f, %.4f away from the plane of its wall" % (v, f, z, d))
    return bad


def same_surface(a, b, pmap, pts, tol=0.1, scale=1.0):
    """roof b has the surface of roof a at the points (of the plan), under pmap(x, y); the planes of the walls are compared"""
    def height(call, faces, p):
        for f, walls in faces:
            if geom.inside(f, p):
                return min(line_dist(q, r, p) for q, r in walls), True
        f, walls = min(faces, key=lambda x: geom.boundary_dist(x[0], p))
        return min(line_dist(q, r, p) for q, r in walls), geom.boundary_dist(f, p) < 0.05 * scale

    def faces(call):
        F = {}
        for (k, i), fs in edge_faces(call).items():
            c = call.contours[k]
            for f in fs:
                F.setdefault(id(f), ([call.V[v][:2] for v in f], []))[1].append((c[i], c[(i + 1) % len(c)]))
        return list(F.values())
    bad, A, B = [], faces(a), faces(b)
    for p in pts:
        h, u = height(a, A, p)
        k, v = height(b, B, pmap(*p))
        if not u or not v:
            bad.append("there is no face above (%.4f, %.4f)%s" % (p + ("" if not u else " in the other roof",)))
        elif abs(h * scale - k) > tol * scale:
            bad.append("above (%.4f, %.4f) the roof has height %.4f, in the other roof %.4f" % (p + (h * scale, k)))
    return bad


def same_roof(a, b, emap, pmap, tol=0.02, ztol=0.02, rel=2e-3):
    """roof b is roof a under the point map pmap(x, y, z) and the edge map emap(k, i)"""
    bad = []
    pa = planes(a)
    A, B = plane_areas(a, pa), plane_areas(b, {emap(*e): k for e, k in pa.items()})
    tot = geom.total_area(a.contours)
    k = geom.total_area(b.contours) / tot
    for e, s in sorted(A.items()):
        t = B.get(e)
        if t is None or abs(t - s * k) > rel * tot * k:
            bad.append("the faces of footprint edges %s have area %.5g, in the other roof %s" % (
                ["%d.%d" % x for x, j in pa.items() if j == e], s * k, t))
    P, Q = [pmap(*p) for p in used_nodes(a)], used_nodes(b)
    for X, Y, w in ((P, Q, "missing in the other roof"), (Q, P, "only in the other roof")):
        for p in X:
            if not any(abs(p[0] - q[0]) < tol and abs(p[1] - q[1]) < tol and abs(p[2] - q[2]) < ztol for q in Y):
                bad.append("roof vertex (%.4f, %.4f, %.4f) is %s" % (p + (w,)))
    return bad


# ---------------------------------------------------------------- skeletonize()
class Skel:
    """result of one skeletonize() call on plain edges"""

    def __init__(self, contours, norms=False, limit=CPU_LIMIT):
        B = lib()
        import bpypolyskel.bpyeuclid as E
        self.contours = contours
        self.edge_contours = []
        for c in contours:
            n = len(c)
            es = []
            for i in range(n):
                p, q = Vector(c[i]), Vector(c[(i + 1) % n])
                es.append(E.Edge2(p, q, (q - p).normalized() if norms else None))
            self.edge_contours.append(es)
        self.arcs = guarded(B.skeletonize, self.edge_contours, limit=limit)
        self.nodes = [(a.source.x, a.source.y, a.height) for a in self.arcs]
        self.edges = []          # (node number, sink position)
        for i, a in enumerate(self.arcs):
            for s in a.sinks:
                self.edges.append((i, (s.x, s.y)))


def skel_attempt(contours, norms=False, limit=CPU_LIMIT):
    try:
        return Skel(contours, norms, limit), None
    except Hang:
        return None, "does not terminate (more than %g s of CPU time)" % limit
    except Exception as e:
        return None, "raises %s: %s" % (type(e).__name__, str(e)[:80])


def skel_graph(sk):
    """(failures, edges as pairs of keys); keys are ('c', contour, i) and ('n', node)"""
    bad = []
    cv = [(x, y, ("c", k, i)) for k, c in enumerate(sk.contours) for i, (x, y) in enumerate(c)]

    def find(s, tol):
        best = None
        for x, y, key in cv:
            d = max(abs(x - s[0]), abs(y - s[1]))
            if d <= tol and (best is None or d < best[0]):
                best = (d, key)
        for j, (x, y, _) in enumerate(sk.nodes):
            d = max(abs(x - s[0]), abs(y - s[1]))
            if d <= tol and (best is None or d < best[0]):
                best = (d, ("n", j))
        return best[1] if best else None
    R = max(abs(v) for c in sk.contours for p in c for v in p)
    out = []
    for i, s in sk.edges:
        k = find(s, 1e-6 * R + 1e-6)
        if k is None:
            bad.append("node %d has a sink (%.4f, %.4f) that is neither a node nor a corner of the footprint" % (i, s[0], s[1]))
        else:
            out.append((("n", i), k))
    return bad, out


def skel_topology(sk, strict=True):
    """the skeleton is a graph with one branch per corner and one cycle per hole"""
    bad, E = skel_graph(sk)
    if bad:
        return bad
    deg = {}
    seen = set()
    for a, b in E:
        if a == b:
            bad.append("node %s is its own sink" % (a,))
        k = (min(a, b), max(a, b))
        if k in seen:
            bad.append("edge %s occurs twice" % (k,))
        seen.add(k)
        deg[a] = deg.get(a, 0) + 1
        deg[b] = deg.get(b, 0) + 1
    corners = [("c", k, i) for k, c in enumerate(sk.contours) for i in range(len(c))]
    for c in corners:
        if deg.get(c, 0) != 1:
            bad.append("corner %d.%d of the footprint is the sink of %d nodes" % (c[1], c[2], deg.get(c, 0)))
    if not strict:
        return bad
    nodes = [("n", i) for i in range(len(sk.nodes))]
    for n in nodes:
        if deg.get(n, 0) < 2:
            bad.append("node %d has %d edges" % (n[1], deg.get(n, 0)))
    root = {v: v for v in corners + nodes}

    def top(v):
        while root[v] != v:
            v = root[v]
        return v
    for a, b in E:
        root[top(a)] = top(b)
    comp = len({top(v) for v in root})
    cyc = len(seen) - len(root) + comp
    if comp != 1:
        bad.append("the skeleton falls into %d parts" % comp)
    if cyc != len(sk.contours) - 1:
        bad.append("the skeleton has %d cycles, the footprint %d holes" % (cyc, len(sk.contours) - 1))
    return bad


def skel_crossings(sk, eps=0.01):
    """pairs of skeleton edges that properly cross, away from their ends"""
    bad = []
    S = [(sk.nodes[i][:2], s) for i, s in sk.edges]
    for i in range(len(S)):
        for j in range(i):
            (a, b), (c, d) = S[i], S[j]
            if geom.cross_proper(a, b, c, d) and min(geom.seg_point(a, b, c), geom.seg_point(a, b, d), geom.seg_point(c, d, a),
                                                     geom.seg_point(c, d, b)) > eps:
                bad.append("edges (%.3f, %.3f)-(%.3f, %.3f) and (%.3f, %.3f)-(%.3f, %.3f) cross" % (*a, *b, *c, *d))
    return bad


def skel_arcs(sk, m, tol=0.03):
    """every arc runs along a border between two slopes of the exact roof"""
    if m.in_line():
        return []
    bad = []
    for i, s in sk.edges:
        a = sk.nodes[i]
        for t in (0.5, 0.2):
            p = (a[0] + t * (s[0] - a[0]), a[1] + t * (s[1] - a[1]))
            if not any(geom.seg_point(f[j - 1][:2], f[j][:2], p) < tol for f in m.faces for j in range(len(f)) if max(f[j - 1][2], f[j][2]) > 1e-6):
                bad.append("the arc from (%.4f, %.4f) to (%.4f, %.4f) is not in the exact skeleton" % (a[0], a[1], s[0], s[1]))
                break
    return bad


def skel_near(sk, m, tol=0.25, htol=0.1):
    """as skel_exact(), but nodes within the distance of merging stand for each other"""
    bad = []
    arbitrary = m.in_line()
    for x, y, h in sk.nodes:
        t = m.height_at(x, y)
        if abs(t - h) > htol:
            bad.append("node (%.4f, %.4f) has height %.5f, its distance to the walls is %.5f" % (x, y, h, t))
        if not arbitrary and not any(abs(x - a) + abs(y - b) < tol for a, b, _ in m.nodes):
            bad.append("node (%.4f, %.4f) is not in the exact skeleton" % (x, y))
    for n in m.nodes:
        if not arbitrary and m.essential(n) and not any(abs(n[0] - x) + abs(n[1] - y) < tol for x, y, _ in sk.nodes):
            bad.append("the skeleton node (%.4f, %.4f) is missing" % n[:2])
    return bad


def skel_exact(sk, m, tol=0.005):
    """nodes of the exact skeleton, with their heights"""
    bad = []
    arbitrary = m.in_line()
    for i, (x, y, h) in enumerate(sk.nodes):
        t = m.height_at(x, y)
        if abs(t - h) > tol:
            bad.append("node (%.4f, %.4f) has height %.5f, its distance to the walls is %.5f" % (x, y, h, t))
        if not any(abs(x - a) < 0.03 and abs(y - b) < 0.03 for a, b, _ in m.nodes) and not arbitrary:
            bad.append("node (%.4f, %.4f) is not in the exact skeleton" % (x, y))
    for n in m.nodes:
        if not arbitrary and m.essential(n) and not any(abs(n[0] - x) < 0.03 and abs(n[1] - y) < 0.03 for x, y, _ in sk.nodes):
            bad.append("the skeleton node (%.4f, %.4f) is missing" % n[:2])
    return bad
