"""C16: face tracing of a plane graph"""
import functools


import env  # noqa: F401
import roof
from engine import Section
from mathutils import Vector

RULE = ("Plane straight-line graphs on grid points, of all sizes, stretched and away from the origin: random points, random edges that neither cross nor touch another vertex, in random "
        "order and direction, with loops, also not connected; the first vertices are the footprint; some vertex numbers stay unused. "
        "Non-trivial: at least two inner faces.")


def ori(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on(a, b, p):
    return ori(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def conflict(a, b, c, d):
    """do the segments have a common point other than a common end?"""
    if {a, b} & {c, d}:
        for x, y, z in ((a, b, c), (a, b, d), (c, d, a), (c, d, b)):
            if z not in (x, y) and on(x, y, z):
                return True
        return False
    if on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b):
        return True
    return (ori(a, b, c) > 0) != (ori(a, b, d) > 0) and (ori(c, d, a) > 0) != (ori(c, d, b) > 0)


def generate(g):
    n = g.i(3, 14)
    S = g.one([3, 6, 20, 300])
    pts, scale = [], [g.one([1.0, 0.125, 3.0, 2.0 ** -12, 2.0 ** 9]), g.one([1.0, 1.0, 1.0, 2.0 ** -7, 64.0])]
    for _ in range(n):
        p = (g.i(-S, S), g.i(-S, S))
        if p not in pts:
            pts.append(p)
    n = len(pts)
    if n < 3:
        return None
    want = g.i(n - 1, 3 * n)
    E = []
    for _ in range(want):
        i, j = g.i(0, n - 1), g.i(0, n - 1)
        if i == j or (i, j) in E or (j, i) in E:
            continue
        a, b = pts[i], pts[j]
        if any(k not in (i, j) and on(a, b, p) for k, p in enumerate(pts)):
            continue
        if any(conflict(a, b, pts[c], pts[d]) for c, d in E):
            continue
        E.append((i, j))
    # every face walk with a skeleton vertex counts
    if not E:
        return None
    loops = [g.i(0, n - 1) for _ in range(g.one([0, 0, 1]))]
    return dict(shape="%d" % n, pts=[list(p) for p in pts], scale=scale, at=[g.one([0, 0, g.i(-900, 900)]) for _ in range(2)], edges=[list(e) for e in E], loops=loops, own=g.i(0, n),
                z=[g.i(-9, 9) for _ in range(n)], kind=g.i(0, 2), cw=g.p(30))


def half(d):
    return 0 if (d[1] > 0 or (d[1] == 0 and d[0] > 0)) else 1


def around(pts, v, nb):
    """neighbors of v in counterclockwise order"""
    def cmp(i, j):
        a = (pts[i][0] - pts[v][0], pts[i][1] - pts[v][1])
        b = (pts[j][0] - pts[v][0], pts[j][1] - pts[v][1])
        if half(a) != half(b):
            return half(a) - half(b)
        c = a[0] * b[1] - a[1] * b[0]
        return -1 if c > 0 else 1
    return sorted(nb, key=functools.cmp_to_key(cmp))


def walks(pts, E):
    """face walks with the face on the left"""
    nb = {}
    for i, j in E:
        nb.setdefault(i, []).append(j)
        nb.setdefault(j, []).append(i)
    rot = {v: around(pts, v, x) for v, x in nb.items()}
    todo = {(i, j) for i, j in E} | {(j, i) for i, j in E}
    out = []
    while todo:
        s = min(todo)
        e, w = s, []
        while True:
            todo.discard(e)
            w.append(e[0])
            r = rot[e[1]]
            e = (e[1], r[(r.index(e[0]) - 1) % len(r)])
            if e == s:
                break
        out.append(w)
    return out


def canon(w):
    return min(tuple(w[i:] + w[:i]) for i in range(len(w)))


def judge(case):
    poly2FacesGraph = roof.helper("poly2FacesGraph", "poly2FacesGraph")
    if not poly2FacesGraph:
        return []
    pts, E, own = [tuple(p) for p in case["pts"]], [tuple(e) for e in case["edges"]], case["own"]
    gr = poly2FacesGraph()
    make = (tuple, list, set)[case["kind"]]
    (sx, sy), (ax, ay) = case["scale"], case["at"]      # exact in float32, the order of the angles stays
    sy *= sx
    V = [Vector(((x + ax) * sx, (y + ay) * sy, z)) for (x, y), z in zip(pts, case["z"])]
    try:
        for k, e in enumerate(E):
            gr.add_edge(make(e if k % 3 else e[::-1]))
            if k == 0:
                for i in case["loops"]:
                    gr.add_edge((i, i))
        got_edges = {frozenset(e) for e in gr.edges()}
        emb = gr.circular_embedding(V, "CW" if case["cw"] else "CCW")
        out = roof.guarded(gr.faces, emb, own)
    except roof.Hang:
        return ["does not terminate"]
    except Exception as e:
        return ["raises %s: %s" % (type(e).__name__, e)]
    bad = []
    if got_edges != {frozenset(e) for e in E}:
        bad.append("edges() does not return the edges of the graph")
    ws = walks(pts, E)
    if case["cw"]:
        ws = [w[::-1] for w in ws]
    want = sorted(canon(w) for w in ws if any(v >= own for v in w))
    have = sorted(canon(list(f)) for f in out)
    for f in have:
        if f not in want:
            bad.append("%s is no face of the graph" % (f,))
    for f in want:
        if have.count(f) != want.count(f):
            bad.append("face %s is found %d times instead of %d" % (f, have.count(f), want.count(f)))
    for f in out:
        f = list(f)
        borders = [i for i in range(len(f)) if f[i] < own and f[(i + 1) % len(f)] < own]
        if borders and 0 not in borders:
            bad.append("face %s does not begin with an edge of the footprint" % f)
    return bad


def nontrivial(case):
    # Euler: inner faces of a connected graph = E - V + 1
    used = {v for e in case["edges"] for v in e}
    return len(case["edges"]) - len(used) + 1 >= 2


SECTIONS = [Section("graphs", generate, judge, quick=16000, nontrivial=nontrivial)]
