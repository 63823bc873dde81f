"""Footprint generators.

All of them draw from a small source interface, so that the same generator runs on
Hypothesis (search and shrinking) and on random.Random (measuring, setting margins).
Every number is an integer draw; smaller draws are simpler shapes.
"""
import math
import random

from geom import area, dist, f32c, is_valid, motion, turn

TAU = 2 * math.pi


class RandSrc:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def i(self, lo, hi):
        return self.r.randint(lo, hi)


class HypSrc:
    def __init__(self, data):
        from hypothesis import strategies as st
        self.data, self.st, self.cache = data, st, {}

    def i(self, lo, hi):
        s = self.cache.get((lo, hi))
        if s is None:
            s = self.cache[(lo, hi)] = self.st.integers(lo, hi)
        return self.data.draw(s)


class G:
    """convenience draws on top of a source"""

    def __init__(self, src):
        self.s = src
        self.i = src.i
        self.k = 0

    def u(self, lo, hi):
        # Hypothesis likes to repeat draws and to use zero, which makes degenerate
        # footprints; the golden ratio sequence gives every draw its own origin, so
        # that equal draws are spread out and the simplest footprint is a generic one
        self.k += 1
        v = (self.s.i(0, 59999) + self.k * 37081) % 60000
        return lo + (hi - lo) * v / 59999.0

    def one(self, seq):
        return seq[self.s.i(0, len(seq) - 1)]

    def p(self, percent):
        return self.s.i(0, 99) >= 100 - percent

    def size(self, lo, hi):
        """log-uniform"""
        return math.exp(self.u(math.log(lo), math.log(hi)))


# ------------------------------------------------------------------ shapes
def convex(g):
    n = g.i(3, 12)
    R = g.size(5, 100)
    sx = g.u(0.35, 1)
    a = sorted(g.u(0, TAU) for _ in range(n))
    return [[(R * math.cos(t), R * sx * math.sin(t)) for t in a]]


def star(g):
    n = g.i(4, 16)
    R = g.size(5, 80)
    out = []
    for k in range(n):
        t = (k + g.u(-.4, .4)) * TAU / n
        q = g.u(.3, 1)
        out.append((R * q * math.cos(t), R * q * math.sin(t)))
    return [out]


def regular(g):
    n = g.i(3, 14)
    R = g.size(4, 60)
    return [[(R * math.cos(k * TAU / n), R * math.sin(k * TAU / n)) for k in range(n)]]


def alternating(g):
    """symmetric stars and gears: radius alternates"""
    n = g.i(2, 7)
    R = g.size(6, 50)
    q = g.u(.35, .85)
    m = g.one([2, 2, 3])
    return [[(R * (1 if k % m == 0 else q) * math.cos(k * TAU / n / m),
              R * (1 if k % m == 0 else q) * math.sin(k * TAU / n / m)) for k in range(n * m)]]


def boundary(cells):
    E = {}
    for x, y in sorted(cells):
        for a, b, nb in (((x, y), (x + 1, y), (x, y - 1)), ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
                         ((x + 1, y + 1), (x, y + 1), (x, y + 1)), ((x, y + 1), (x, y), (x - 1, y))):
            if nb not in cells:
                if a in E:
                    return None
                E[a] = b
    loops = []
    while E:
        s = min(E)
        l, c = [s], E.pop(s)
        while c != s:
            l.append(c)
            c = E.pop(c)
        n = len(l)
        l = [l[i] for i in range(n) if
             (l[i][0] - l[i - 1][0]) * (l[(i + 1) % n][1] - l[i][1]) != (l[i][1] - l[i - 1][1]) * (l[(i + 1) % n][0] - l[i][0])]
        loops.append(l)
    loops.sort(key=lambda l: -area(l))
    return loops


def cells_shape(g, w, h, k):
    cells = {(g.i(0, w - 1), g.i(0, h - 1))}
    for _ in range(6 * k):
        if len(cells) >= k:
            break
        x, y = g.one(sorted(cells))
        dx, dy = g.one([(1, 0), (-1, 0), (0, 1), (0, -1)])
        if 0 <= x + dx < w and 0 <= y + dy < h:
            cells.add((x + dx, y + dy))
    return boundary(cells)


def recti(g):
    """union of cells of an irregular grid: axis parallel, edges in line with each other"""
    w, h = g.i(2, 5), g.i(2, 5)
    c = cells_shape(g, w, h, g.i(2, w * h))
    if c is None:
        return None
    X, Y = [0.0], [0.0]
    for _ in range(w):
        X.append(X[-1] + g.u(3, 20))
    for _ in range(h):
        Y.append(Y[-1] + g.u(3, 20))
    return [[(X[i], Y[j]) for i, j in q] for q in c]


def recti_free(g):
    """as recti, but every wall line is shifted on its own, so nothing is in line"""
    w, h = g.i(2, 5), g.i(2, 5)
    c = cells_shape(g, w, h, g.i(2, w * h))
    if c is None:
        return None
    S = g.u(8, 20)
    out = []
    for q in c:
        n = len(q)
        off = [g.u(-.22, .22) * S for _ in range(n)]      # one offset per edge
        r = []
        for i in range(n):
            (x, y), (px, py), (nx, ny) = q[i], q[i - 1], q[(i + 1) % n]
            ep, en = off[i - 1], off[i]
            if px == x:          # previous edge vertical, next horizontal
                r.append((x * S + ep, y * S + en))
            else:
                r.append((x * S + en, y * S + ep))
        out.append(r)
    return out


def noisy(g):
    c = recti(g)
    if c is None:
        return None
    s = g.one([.03, .1, .3, .6])
    return [[(x + g.u(-s, s), y + g.u(-s, s)) for x, y in q] for q in c]


def lshape(g):
    W, H = g.u(8, 40), g.u(8, 40)
    a, b = g.u(.2, .8) * W, g.u(.2, .8) * H
    return [[(0, 0), (W, 0), (W, b), (a, b), (a, H), (0, H)]]


def ushape(g):
    W, H = g.u(15, 50), g.u(10, 40)
    l, r = g.u(.15, .4) * W, g.u(.6, .85) * W
    b, h2 = g.u(.2, .7) * H, g.u(.5, 1.4)
    return [[(0, 0), (W, 0), (W, H), (r, H), (r, b), (l, b), (l, max(b + 2, H * h2)), (0, max(b + 2, H * h2))]]


def zshape(g):
    W, H = g.u(15, 50), g.u(12, 40)
    a, b = g.u(.15, .85) * W, g.u(.15, .85) * W
    c, d = g.u(.3, .45) * H, g.u(.55, .7) * H
    if b <= a:
        a, b = b, a
    return [[(0, 0), (b, 0), (b, c), (W, c), (W, H), (a, H), (a, d), (0, d)]]


def plus(g):
    """cross with four different arms"""
    w, h = g.u(5, 15), g.u(5, 15)
    L = [g.u(4, 25) for _ in range(4)]
    return [[(0, -L[0]), (w, -L[0]), (w, 0), (w + L[1], 0), (w + L[1], h), (w, h), (w, h + L[2]), (0, h + L[2]), (0, h),
             (-L[3], h), (-L[3], 0), (0, 0)]]


def comb(g):
    """teeth of different width and height on one side"""
    n = g.i(2, 5)
    x, top = 0.0, []
    for k in range(n):
        w = g.u(3, 9)
        h = g.u(4, 15)
        top += [(x, h), (x + w, h)]
        x += w
        if k < n - 1:
            gap = g.u(2, 8)
            top += [(x, 0), (x + gap, 0)]
            x += gap
    return [[(0, -g.u(4, 15)), (x, None)] + top[::-1]]


def _comb(g):
    c = comb(g)[0]
    b = c[0][1]
    return [[c[0], (c[1][0], b)] + c[2:]]


def zigzag(g):
    """a bent corridor of constant or varying width"""
    n = g.i(2, 6)
    w = g.u(4, 10)
    x = y = 0.0
    t = 0.0
    pts = [(0.0, 0.0)]
    for _ in range(n):
        L = g.u(2.5, 6) * w
        x += L * math.cos(t)
        y += L * math.sin(t)
        pts.append((x, y))
        t += g.u(-1.3, 1.3)
    left, right = [], []
    for i, p in enumerate(pts):
        if i == 0:
            d = math.atan2(pts[1][1] - p[1], pts[1][0] - p[0])
            k = 1.0
        elif i == len(pts) - 1:
            d = math.atan2(p[1] - pts[i - 1][1], p[0] - pts[i - 1][0])
            k = 1.0
        else:
            d0 = math.atan2(p[1] - pts[i - 1][1], p[0] - pts[i - 1][0])
            d1 = math.atan2(pts[i + 1][1] - p[1], pts[i + 1][0] - p[0])
            dd = math.atan2(math.sin(d1 - d0), math.cos(d1 - d0))
            d = d0 + dd / 2
            k = 1 / math.cos(dd / 2)
        ww = w * g.u(.8, 1.1) * k / 2
        left.append((p[0] - ww * math.sin(d), p[1] + ww * math.cos(d)))
        right.append((p[0] + ww * math.sin(d), p[1] - ww * math.cos(d)))
    return [right + left[::-1]]


def spiral(g):
    """rectangular spiral"""
    n = g.i(3, 7)
    w, gap = g.u(3, 7), g.u(2, 6)
    x, y = 0.0, 0.0
    L = g.u(1, 3) * (w + gap)
    pts, d = [(0.0, 0.0)], 0
    for k in range(n):
        x += L * (1, 0, -1, 0)[d]
        y += L * (0, 1, 0, -1)[d]
        pts.append((x, y))
        d = (d + 1) % 4
        L += (w + gap) * g.u(.62, 1.05)
    h = w / 2
    left, right = [], []
    for i, p in enumerate(pts):
        if 0 < i < len(pts) - 1:
            a, b = pts[i - 1], pts[i + 1]
            ux, uy = (p[0] - a[0]) / dist(p, a), (p[1] - a[1]) / dist(p, a)
            vx, vy = (b[0] - p[0]) / dist(p, b), (b[1] - p[1]) / dist(p, b)
            nx, ny = -uy - vy, ux + vx
        else:
            a, b = (pts[0], pts[1]) if i == 0 else (pts[-2], pts[-1])
            nx, ny = -(b[1] - a[1]) / dist(a, b), (b[0] - a[0]) / dist(a, b)
        left.append((p[0] + h * nx, p[1] + h * ny))
        right.append((p[0] - h * nx, p[1] - h * ny))
    return [right + left[::-1]]


def bay(g):
    """rectangle with a chamfered bay window (or a chamfered recess)"""
    W, H = g.u(12, 40), g.u(8, 25)
    a = g.u(.15, .5) * W
    w = g.u(.2, .4) * W
    d = g.u(.15, .35) * min(w, H)
    s = g.u(.15, .35) * w
    sg = -1 if g.p(50) else 1
    return [[(0, 0), (a, 0), (a + s, sg * d), (a + w - s, sg * d), (a + w, 0), (W, 0), (W, H), (0, H)]]


def trapezoids(g):
    """x-monotone chain above and below"""
    n = g.i(2, 7)
    x, lo, hi = 0.0, [], []
    for _ in range(n):
        lo.append((x, -g.u(3, 20)))
        hi.append((x + g.u(-.8, .8), g.u(3, 20)))
        x += g.u(3, 20)
    return [lo + hi[::-1]]


def _split_edges(g, c, percent=35):
    out = []
    n = len(c)
    for i in range(n):
        out.append(c[i])
        if g.p(percent):
            a, b = c[i], c[(i + 1) % n]
            t = g.u(.25, .75)
            out.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
    return out


BASES = None


def collinear(g):
    c = g.one([convex, star, lshape, ushape, recti_free, regular])(g)
    if c is None:
        return None
    return [_split_edges(g, q) for q in c]


def hole_convex(g):
    c = convex(g)[0]
    h = convex(g)[0]
    R = max(math.hypot(x, y) for x, y in h)
    cx = sum(p[0] for p in c) / len(c)
    cy = sum(p[1] for p in c) / len(c)
    d = 1e9
    for i in range(len(c)):
        p, q = c[i - 1], c[i]
        L = dist(p, q)
        if L < 1e-9:
            return None
        d = min(d, ((q[0] - p[0]) * (cy - p[1]) - (q[1] - p[1]) * (cx - p[0])) / L)
    if d <= 0:
        return None
    s = d * g.u(.25, .8) / R
    return [c, [(cx + s * x, cy + s * y) for x, y in reversed(h)]]


def multihole(g):
    nx, ny = g.i(1, 3), g.i(1, 3)
    S = g.u(14, 30)
    W, H = nx * S, ny * S
    c = [[(x + g.u(-.12, .12) * S, y + g.u(-.08, .08) * S) for x, y in ((0, 0), (W, 0), (W, H), (0, H))]]
    for i in range(nx):
        for j in range(ny):
            if g.p(70):
                cx, cy = (i + .5 + g.u(-.1, .1)) * S, (j + .5 + g.u(-.1, .1)) * S
                n = g.i(3, 6)
                t0 = g.u(0, 7)
                R = S * g.u(.1, .25)
                c.append([(cx + R * math.cos(t0 - (k + g.u(-.2, .2)) * TAU / n), cy + R * math.sin(t0 - (k + g.u(-.2, .2)) * TAU / n))
                          for k in range(n)])
    return c


def rect_hole(g):
    """one rectangular courtyard in a rectangle (parallel walls)"""
    W, H = g.u(12, 60), g.u(12, 60)
    x0, x1, y0, y1 = g.u(.12, .45) * W, g.u(.55, .88) * W, g.u(.12, .45) * H, g.u(.55, .88) * H
    return [[(0, 0), (W, 0), (W, H), (0, H)], [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]]


def gridholes(g):
    """rectangular courtyards in rows and columns of a rectangle: walls in line with each other"""
    nx, ny = g.i(1, 3), g.i(1, 3)

    def axis(n):
        t, out = g.u(4, 10), []
        for _ in range(n):
            a = t
            b = a + g.u(2, 9)
            out.append((a, b))
            t = b + g.u(3, 10)
        return out, t + g.u(0, 4)
    X, W = axis(nx)
    Y, H = axis(ny)
    c = [[(0, 0), (W, 0), (W, H), (0, H)]]
    for x0, x1 in X:
        for y0, y1 in Y:
            if g.p(85):
                c.append([(x0, y0), (x0, y1), (x1, y1), (x1, y0)])
    return c


def courtyard(g):
    """rectilinear block with a rectilinear hole"""
    c = recti_free(g)
    if c is None or len(c) < 2:
        return None
    return c


def free_hole(g):
    """hole in a star or L shaped footprint"""
    c = g.one([lshape, star, zigzag, trapezoids])(g)[0]
    from geom import boundary_dist, inside, sample_points
    s = sample_points(c, 2)
    out = [c]
    for d, p in s:
        n = g.i(3, 6)
        R = d * g.u(.3, .7)
        t0 = g.u(0, 7)
        out.append([(p[0] + R * math.cos(t0 - (k + g.u(-.2, .2)) * TAU / n), p[1] + R * math.sin(t0 - (k + g.u(-.2, .2)) * TAU / n))
                    for k in range(n)])
        if g.p(60):
            break
    return out


def dormer1(g):
    """body with one rectangular protrusion between walls that are long enough"""
    w = g.u(1.5, 9.5)
    d = g.u(1.2, 8)
    a = max(2.0, w * g.u(1.35, 3))
    W = a + w + max(2.0, w * g.u(1.35, 3))
    H = g.u(8, 25)
    body = g.i(0, 2)
    if body == 0:
        top = [(W, H), (0, H)]
    elif body == 1:
        top = [(W + g.u(-4, 4), H), (g.u(-4, 4), H + g.u(-3, 3))]
    else:
        top = [(W, H), (W * g.u(.3, .7), H + g.u(2, 8)), (0, H)]
    return [[(0, 0), (a, 0), (a, -d), (a + w, -d), (a + w, 0), (W, 0)] + top]


def dormers(g):
    """several rectangular protrusions on different sides"""
    W, H = g.u(20, 70), g.u(10, 40)

    def side(L):
        pts, x, pw = [], 0.0, 0.0
        for _ in range(g.i(0, 3)):
            w = g.u(1.5, 8)
            a = x + max(2.0, g.u(1.35, 2.5) * max(w, pw))
            d = g.u(1.2, 6)
            if a + w + max(2.0, 1.35 * w) > L:
                break
            pts += [(a, 0), (a, -d), (a + w, -d), (a + w, 0)]
            x, pw = a + w, w
        return pts
    c = [(0, 0)] + side(W) + [(W, 0)]
    c += [(W - y, x) for x, y in side(H)] + [(W, H)]
    c += [(W - x, H - y) for x, y in side(W)] + [(0, H)]
    c += [(y, H - x) for x, y in side(H)]
    return [c]


def apse(g):
    """nave with a half round (or part round) end"""
    R = g.u(3, 15)
    L = g.u(.6, 5) * R
    n = g.i(7, 20)
    half = g.one([90, 90, 70, 80])
    a0 = math.radians(half)
    arc = [(L + R * math.cos(a), R * math.sin(a)) for a in [-a0 + 2 * a0 * i / n for i in range(n + 1)]]
    y = R * math.sin(a0)
    return [[(0, -y)] + arc + [(0, y)]]


def apse_church(g):
    """nave wider than the apse (the arc starts at reflex corners)"""
    R = g.u(3, 12)
    n = g.i(8, 18)
    e1, e2 = g.u(1.2, 8), g.u(1.2, 8)
    L = g.u(1.5, 5) * R
    if g.p(50) or abs(e1 - e2) < 0.7:       # a little out of the middle, the border between the walls in line just misses the end of the ridge
        e2 = e1
    arc = [(R * math.cos(a), R * math.sin(a)) for a in [-math.pi / 2 + math.pi * i / n for i in range(n + 1)]]
    return [[(-L, -R - e1), (0, -R - e1)] + arc + [(0, R + e2), (-L, R + e2)]]


def silo(g):
    """round towers: regular polygon with many corners"""
    n = g.i(12, 24)
    R = g.u(1, 3) * n / 3.5
    return [[(R * math.cos(k * TAU / n), R * math.sin(k * TAU / n)) for k in range(n)]]


def stadium(g):
    R = g.u(3, 12)
    L = g.u(.5, 5) * R
    n = g.i(7, 14)
    m = g.i(7, 14)
    a = [(L + R * math.cos(t), R * math.sin(t)) for t in [-math.pi / 2 + math.pi * i / n for i in range(n + 1)]]
    b = [(R * math.cos(t), R * math.sin(t)) for t in [math.pi / 2 + math.pi * i / m for i in range(m + 1)]]
    return [a + b]


SHAPES = dict(convex=convex, star=star, regular=regular, alternating=alternating, recti=recti, recti_free=recti_free, noisy=noisy,
              lshape=lshape, ushape=ushape, zshape=zshape, plus=plus, comb=_comb, zigzag=zigzag, spiral=spiral, bay=bay,
              trapezoids=trapezoids, collinear=collinear, hole_convex=hole_convex, multihole=multihole, rect_hole=rect_hole,
              courtyard=courtyard, gridholes=gridholes, free_hole=free_hole, dormer1=dormer1, dormers=dormers, apse=apse, apse_church=apse_church,
              silo=silo, stadium=stadium)


def place(g, contours, rot=True):
    """random rigid motion; one third keeps or rotates by exact right angles"""
    k = g.i(0, 5)
    if not rot or k == 0:
        ang = 0.0
    elif k == 1:
        ang = g.i(1, 3) * math.pi / 2
    else:
        ang = g.u(0, TAU)
    o = g.i(0, 3)
    R = (0, 0, 50, 500)[o]
    dx, dy = (g.u(-R, R), g.u(-R, R)) if R else (0.0, 0.0)
    return motion(contours, ang, dx, dy)


def footprint(g, names, rot=True, scale=None):
    """(name, contours as float32) or None"""
    name = g.one(names)
    c = SHAPES[name](g)
    if c is None:
        return name, None
    if scale:
        s = g.u(*scale)
        c = [[(x * s, y * s) for x, y in q] for q in c]
    if g.p(30):
        c = [[(-x, y) for x, y in reversed(q)] for q in c]
    c = f32c(place(g, c, rot))
    return name, c
