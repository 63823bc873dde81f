"""Plane geometry helpers of the harness (plain floats, no code of the library)."""
import math
import struct


def f32(x):
    """the float that survives in a mathutils.Vector"""
    return struct.unpack("f", struct.pack("f", x))[0]


def f32c(contours):
    return [[(f32(x), f32(y)) for x, y in c] for c in contours]


def area(poly):
    s = 0.0
    for i in range(len(poly)):
        s += poly[i - 1][0] * poly[i][1] - poly[i][0] * poly[i - 1][1]
    return s / 2


def total_area(contours):
    return sum(area(c) for c in contours)


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def turn(a, b, c):
    """signed turning angle at b"""
    ux, uy, vx, vy = b[0] - a[0], b[1] - a[1], c[0] - b[0], c[1] - b[1]
    return math.atan2(ux * vy - uy * vx, ux * vx + uy * vy)


def seg_point(a, b, p):
    """distance of p to segment ab"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = dx * dx + dy * dy
    if L == 0:
        return dist(a, p)
    t = max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / L))
    return math.hypot(a[0] + t * dx - p[0], a[1] + t * dy - p[1])


def line_dist(a, b, p):
    """signed distance of p to line ab, positive on the left"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    return (dx * (p[1] - a[1]) - dy * (p[0] - a[0])) / math.hypot(dx, dy)


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def cross_proper(a, b, c, d):
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    return ((o1 > 0) != (o2 > 0)) and ((o3 > 0) != (o4 > 0)) and o1 != 0 and o2 != 0 and o3 != 0 and o4 != 0


def seg_dist(a, b, c, d):
    if cross_proper(a, b, c, d):
        return 0.0
    return min(seg_point(a, b, c), seg_point(a, b, d), seg_point(c, d, a), seg_point(c, d, b))


def edges(contours):
    """[(p, q, contour, i)] of all contour edges in block order"""
    out = []
    for k, c in enumerate(contours):
        for i in range(len(c)):
            out.append((c[i], c[(i + 1) % len(c)], k, i))
    return out


def is_valid(contours, clearance=0.0):
    """simple, disjoint contours; outer ccw, holes cw and inside; nothing closer than clearance"""
    if len(contours[0]) < 3 or area(contours[0]) <= 0:
        return False
    for h in contours[1:]:
        if len(h) < 3 or area(h) >= 0 or not inside(contours[0], h[0]):
            return False
    for a, h in enumerate(contours[1:]):
        for b, g in enumerate(contours[1:]):
            if a != b and inside(g, h[0]):
                return False
    E = edges(contours)
    for i in range(len(E)):
        p, q, k, a = E[i]
        if dist(p, q) <= clearance or p == q:
            return False
        for j in range(i):
            r, s, l, b = E[j]
            n = len(contours[k])
            if k == l and ((a - b) % n == 1 or (b - a) % n == 1):
                # neighbours: must not fold back
                continue
            if seg_dist(p, q, r, s) <= clearance:
                return False
    for c in contours:
        for i in range(len(c)):
            if abs(turn(c[i - 1], c[i], c[(i + 1) % len(c)])) > math.pi - 1e-6:
                return False
    return True


def inside(poly, p):
    """even-odd"""
    r = False
    for i in range(len(poly)):
        a, b = poly[i - 1], poly[i]
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + (p[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0])
            if p[0] < x:
                r = not r
    return r


def boundary_dist(poly, p):
    return min((seg_point(poly[i - 1], poly[i], p) for i in range(len(poly))), default=1e9)


def motion(contours, ang=0.0, dx=0.0, dy=0.0, scale=1.0, about=None):
    if about is None:
        about = contours[0][0]
    if ang % (math.pi / 2) == 0:
        k = int(round(ang / (math.pi / 2))) % 4
        co, si = ((1, 0), (0, 1), (-1, 0), (0, -1))[k]
    else:
        co, si = math.cos(ang), math.sin(ang)
    return [[(about[0] + dx + scale * (co * (x - about[0]) - si * (y - about[1])),
              about[1] + dy + scale * (si * (x - about[0]) + co * (y - about[1]))) for x, y in c] for c in contours]


def mirror(contours):
    return [[(-x, y) for x, y in reversed(c)] for c in contours]


def bbox(contours):
    xs = [p[0] for c in contours for p in c]
    ys = [p[1] for c in contours for p in c]
    return min(xs), min(ys), max(xs), max(ys)


def clip_convex(poly, a, b):
    """part of poly on the left of line ab"""
    out = []
    n = len(poly)
    for i in range(n):
        p, q = poly[i - 1], poly[i]
        dp, dq = orient(a, b, p), orient(a, b, q)
        if dp >= 0:
            out.append(p) if not out or out[-1] != p else None
        if (dp > 0 > dq) or (dp < 0 < dq):
            t = dp / (dp - dq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def sample_points(poly, k=1):
    """k points well inside a simple polygon, deterministic: mid points of inner chords"""
    x0, y0, x1, y1 = bbox([poly])
    best = []
    for s in range(1, 12):
        for horizontal in (True, False):
            if horizontal:
                y = y0 + (y1 - y0) * (s / 12 + 0.013)
                xs = []
                for i in range(len(poly)):
                    a, b = poly[i - 1], poly[i]
                    if (a[1] > y) != (b[1] > y):
                        xs.append(a[0] + (y - a[1]) / (b[1] - a[1]) * (b[0] - a[0]))
                xs.sort()
                c = [((xs[i] + xs[i + 1]) / 2, y) for i in range(0, len(xs) - 1, 2)]
            else:
                x = x0 + (x1 - x0) * (s / 12 + 0.017)
                ys = []
                for i in range(len(poly)):
                    a, b = poly[i - 1], poly[i]
                    if (a[0] > x) != (b[0] > x):
                        ys.append(a[1] + (x - a[0]) / (b[0] - a[0]) * (b[1] - a[1]))
                ys.sort()
                c = [(x, (ys[i] + ys[i + 1]) / 2) for i in range(0, len(ys) - 1, 2)]
            for p in c:
                best.append((boundary_dist(poly, p), p))
    best.sort(reverse=True)
    out = []
    for d, p in best:
        if all(dist(p, q) > d for _, q in out):
            out.append((d, p))
        if len(out) >= k:
            break
    return out
