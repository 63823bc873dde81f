"""C21: large footprints"""
import math

import common
import gen
import geom
import roof
from checks import c12
from engine import Section

RULE = ("Footprints of 45 to 250 corners: lumpy rounds, long blocks with irregular wings on both sides, blocks with up to 36 courtyards; "
        "at least 0.3 between corners, contours 0.05 apart. Non-trivial: all.")


def lumpy(g):
    n = g.i(45, 150)
    R = n * g.u(.4, 1.2)
    ph = [g.u(0, math.tau) for _ in range(4)]
    am = [g.u(0, .18) for _ in range(4)]
    out = []
    for k in range(n):
        t = (k + g.u(-.25, .25)) * math.tau / n
        r = R * (1 + sum(a * math.sin((j + 2) * t + p) for j, (a, p) in enumerate(zip(am, ph))) + g.u(-.02, .02))
        out.append((r * math.cos(t), r * math.sin(t)))
    return [out]


def corridor(g):
    n = g.i(22, 60)
    w = g.u(4, 10)
    x = y = t = 0.0
    pts = [(0.0, 0.0)]
    for _ in range(n):
        L = g.u(2.5, 6) * w
        x += L * math.cos(t)
        y += L * math.sin(t)
        pts.append((x, y))
        t = max(-1.1, min(1.1, t + g.u(-1.2, 1.2)))
    left, right = [], []
    for i, p in enumerate(pts):
        a, b = pts[max(i - 1, 0)], pts[min(i + 1, n)]
        d0 = math.atan2(p[1] - a[1], p[0] - a[0]) if i else math.atan2(b[1] - p[1], b[0] - p[0])
        d1 = math.atan2(b[1] - p[1], b[0] - p[0]) if i < n else d0
        d = (d0 + d1) / 2
        k = w / 2 / math.cos((d1 - d0) / 2) * g.u(.8, 1.1)
        left.append((p[0] - k * math.sin(d), p[1] + k * math.cos(d)))
        right.append((p[0] + k * math.sin(d), p[1] - k * math.cos(d)))
    return [right + left[::-1]]


def block(g):
    """a long block with wings of different widths and lengths on both sides"""
    n = g.i(11, 30)
    X = [0.0]
    for _ in range(n):
        X.append(X[-1] + g.u(4, 12))

    def side():
        h, out = g.u(4, 9), []
        for k in range(n):
            h2 = g.u(4, 16)
            h = h2 if abs(h2 - h) > .6 else h + 1
            out += [(X[k], h), (X[k + 1], h)]
        return out
    return [[(x, -y) for x, y in side()] + side()[::-1]]


def field(g):
    nx, ny = g.i(3, 6), g.i(3, 6)
    S = g.u(14, 30)
    c = [[(x + g.u(-.2, .2) * S, y + g.u(-.2, .2) * S) for x, y in ((0, 0), (nx * S, 0), (nx * S, ny * S), (0, ny * S))]]
    for i in range(nx):
        for j in range(ny):
            if g.p(85):
                cx, cy = (i + .5 + g.u(-.1, .1)) * S, (j + .5 + g.u(-.1, .1)) * S
                n = g.i(3, 6)
                t0 = g.u(0, 7)
                R = S * g.u(.1, .25)
                c.append([(cx + R * math.cos(t0 - (k + g.u(-.2, .2)) * math.tau / n),
                           cy + R * math.sin(t0 - (k + g.u(-.2, .2)) * math.tau / n)) for k in range(n)])
    return c


def star(g):
    n = g.i(45, 90)
    R = g.u(30, 120)
    return [[(R * q * math.cos(t), R * q * math.sin(t)) for q, t in ((g.u(.45, 1), (k + g.u(-.4, .4)) * math.tau / n) for k in range(n))]]


BIG = dict(star=star, lumpy=lumpy, corridor=corridor, block=block, field=field)


def generate(g, names):
    name = g.one(names)
    c = BIG[name](g)
    if c is None:
        return None
    n = sum(map(len, c))
    if not 45 <= n <= 250:
        return None
    c = geom.f32c(gen.place(g, c))
    if not geom.is_valid(c, .05) or min(geom.dist(p, q) for p, q, _, _ in geom.edges(c)) < .3:
        return None
    if any(abs(geom.turn(q[i - 1], q[i], q[(i + 1) % len(q)])) > math.pi - .15 for q in c for i in range(len(q))):
        return None
    return dict(shape=name, contours=[[list(p) for p in q] for q in c], layout=common.layout(g, len(c)))


def sec(name, names, n):
    return Section(name, lambda g: generate(g, names), c12.judge, quick=n, variants=common.variants)


SECTIONS = [sec(k, [k], 900) for k in ("lumpy", "field", "block")]
