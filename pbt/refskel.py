"""Independent reference model: the straight skeleton of a polygon with holes.

A brute-force kinetic simulation in float64 of the shrinking wavefront.  It shares
no code and no data structure with the library: a wavefront loop is a cyclic list of
edge ids, a wavefront vertex is the meeting point of two consecutive edges, and every
step scans *all* edge collapses and *all* (reflex vertex, edge) pairs for the earliest
event (O(n^2) per event).

The model refuses (RefError) rather than guesses when it finds itself in an
inconsistent state; it validates its own result before handing it out (see `check`).
"""
import math


class RefError(Exception):
    pass


class Loop:
    __slots__ = ("e", "src")

    def __init__(self, e, src):
        self.e = e        # edge ids, cyclic
        self.src = src    # src[i]: (node, pos, time) where the vertex between e[i-1] and e[i] began


class RefSkeleton:
    """contours: list of lists of (x, y); outer ccw first, holes cw."""

    def __init__(self, contours, tol=1e-9):
        self.contours = [[(float(x), float(y)) for x, y in c] for c in contours]
        xs = [p[0] for c in self.contours for p in c]
        ys = [p[1] for c in self.contours for p in c]
        self.scale = max(max(xs) - min(xs), max(ys) - min(ys), 1e-12)
        self.tol = tol * self.scale
        self.P = []      # edge start points
        self.Q = []      # edge end points
        self.U = []      # unit direction
        self.D = []      # left normal offset: n.x = D + t
        self.nodes = []  # (x, y, t)
        self.arcs = []   # (node_a, node_b, edge_left, edge_right); edges that the arc separates
        self._run()

    # ---- geometry helpers
    def _n(self, e):
        u = self.U[e]
        return (-u[1], u[0])

    def _meet(self, a, b, t, hint):
        """position of the vertex between consecutive edges a, b at time t"""
        (ax, ay), (bx, by) = self.U[a], self.U[b]
        cr = ax * by - ay * bx
        if abs(cr) < 1e-9:
            if ax * bx + ay * by < 0:
                raise RefError("antiparallel neighbours")
            # collinear: moves along the common normal
            n = self._n(a)
            s = (self.D[a] + t) - (n[0] * hint[0] + n[1] * hint[1])
            return (hint[0] + s * n[0], hint[1] + s * n[1])
        na, nb = self._n(a), self._n(b)
        da, db = self.D[a] + t, self.D[b] + t
        det = na[0] * nb[1] - na[1] * nb[0]
        return ((da * nb[1] - db * na[1]) / det, (na[0] * db - nb[0] * da) / det)

    def _vel(self, a, b):
        """velocity of the vertex between a and b"""
        (ax, ay), (bx, by) = self.U[a], self.U[b]
        cr = ax * by - ay * bx
        na, nb = self._n(a), self._n(b)
        if abs(cr) < 1e-9:
            if ax * bx + ay * by < 0:
                raise RefError("antiparallel neighbours")
            return na
        det = na[0] * nb[1] - na[1] * nb[0]
        return ((nb[1] - na[1]) / det, (na[0] - nb[0]) / det)

    def _node(self, p, t):
        for i, q in enumerate(self.nodes):
            if abs(q[0] - p[0]) + abs(q[1] - p[1]) < 50 * self.tol and abs(q[2] - t) < 50 * self.tol:
                return i
        self.nodes.append((p[0], p[1], t))
        return len(self.nodes) - 1

    def _arc(self, src, dst, a, b):
        if src != dst:
            self.arcs.append((src, dst, a, b))

    # ---- simulation
    def _run(self):
        loops = []
        for c in self.contours:
            n = len(c)
            base = len(self.P)
            for i in range(n):
                p, q = c[i], c[(i + 1) % n]
                L = math.hypot(q[0] - p[0], q[1] - p[1])
                if L <= self.tol:
                    raise RefError("degenerate edge")
                self.P.append(p)
                self.Q.append(q)
                u = ((q[0] - p[0]) / L, (q[1] - p[1]) / L)
                self.U.append(u)
                self.D.append(-u[1] * p[0] + u[0] * p[1])
            src = []
            for i in range(n):
                self.nodes.append((c[i][0], c[i][1], 0.0))
                src.append((len(self.nodes) - 1, c[i], 0.0))
            loops.append(Loop(list(range(base, base + n)), src))
        self.nEdges = len(self.P)
        self.nInput = len(self.nodes)
        t = 0.0
        guard = 0
        while loops:
            guard += 1
            if guard > 20 * self.nEdges + 50:
                raise RefError("no progress")
            ev = self._next(loops, t)
            if ev is None:
                raise RefError("no event left")
            if ev[0] < t - 10 * self.tol:
                raise RefError("event in the past")
            t = max(t, ev[0])
            self._apply(loops, ev, t)

    def _pos(self, L, i, t):
        """position of vertex between e[i-1] and e[i]"""
        return self._meet(L.e[i - 1], L.e[i], t, L.src[i][1])

    def _next(self, loops, t):
        best = None
        tol = self.tol
        for L in loops:
            n = len(L.e)
            pos = [self._pos(L, i, t) for i in range(n)]
            vel = [self._vel(L.e[i - 1], L.e[i]) for i in range(n)]
            for i in range(n):
                e = L.e[i]
                j = (i + 1) % n
                u = self.U[e]
                ln = (pos[j][0] - pos[i][0]) * u[0] + (pos[j][1] - pos[i][1]) * u[1]
                k = (vel[j][0] - vel[i][0]) * u[0] + (vel[j][1] - vel[i][1]) * u[1]
                if ln < -1000 * tol:
                    raise RefError("inverted edge")
                if k < -1e-9:
                    te = t + max(ln, 0.0) / -k
                    if best is None or te < best[0] - tol:
                        best = (te, "edge", L, i)
            for i in range(n):
                a, b = L.e[i - 1], L.e[i]
                if self.U[a][0] * self.U[b][1] - self.U[a][1] * self.U[b][0] > -1e-9:
                    continue  # convex or straight
                for M in loops:
                    m = len(M.e)
                    for j in range(m):
                        e = M.e[j]
                        if M is L and (j == i or j == (i - 1) % n):
                            continue
                        # distance of vertex to the moving line of e
                        ne = self._n(e)
                        d = ne[0] * pos[i][0] + ne[1] * pos[i][1] - (self.D[e] + t)
                        k = ne[0] * vel[i][0] + ne[1] * vel[i][1] - 1.0
                        if k >= -1e-9 or d < -10 * tol:
                            continue
                        ts = t + max(d, 0.0) / -k
                        if best is not None and ts >= best[0] - tol:
                            continue
                        dt = ts - t
                        p = (pos[i][0] + dt * vel[i][0], pos[i][1] + dt * vel[i][1])
                        j2 = (j + 1) % m
                        s = self._meet(M.e[j - 1], e, ts, M.src[j][1])
                        q = self._meet(e, M.e[j2], ts, M.src[j2][1])
                        u = self.U[e]
                        if (p[0] - s[0]) * u[0] + (p[1] - s[1]) * u[1] < -10 * tol:
                            continue
                        if (q[0] - p[0]) * u[0] + (q[1] - p[1]) * u[1] < -10 * tol:
                            continue
                        best = (ts, "split", L, i, M, j, p)
        return best

    def _apply(self, loops, ev, t):
        if ev[1] == "edge":
            _, _, L, i = ev
            n = len(L.e)
            j = (i + 1) % n
            p, q = self._pos(L, i, t), self._pos(L, j, t)
            p = ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)
            nd = self._node(p, t)
            self._arc(L.src[i][0], nd, L.e[i - 1], L.e[i])
            self._arc(L.src[j][0], nd, L.e[i], L.e[j])
            e = [L.e[(i + 1 + k) % n] for k in range(n - 1)]
            s = [L.src[(i + 1 + k) % n] for k in range(n - 1)]
            s[0] = (nd, p, t)
            loops.remove(L)
            self._zip(loops, Loop(e, s), t)
        else:
            _, _, L, i, M, j, p = ev
            nd = self._node(p, t)
            self._arc(L.src[i][0], nd, L.e[i - 1], L.e[i])
            here = (nd, p, t)
            n, m = len(L.e), len(M.e)
            if M is L:
                # rotate so that vertex i is first: edges b ... a
                e = L.e[i:] + L.e[:i]
                s = L.src[i:] + L.src[:i]
                jj = (j - i) % n
                # loop 1: b .. x, e[jj] (first part, before p); vertex (e, b) at p
                e1, s1 = e[:jj + 1], [here] + s[1:jj + 1]
                # loop 2: e[jj] (second part) .. a; vertex (a, e) at p
                e2, s2 = e[jj:], [here] + s[jj + 1:]
                loops.remove(L)
                self._zip(loops, Loop(e1, s1), t)
                self._zip(loops, Loop(e2, s2), t)
            else:
                eL = L.e[i:] + L.e[:i]
                sL = L.src[i:] + L.src[:i]
                eM = M.e[j:] + M.e[:j]
                sM = M.src[j:] + M.src[:j]
                # [b ... a] [e(second) ... x, e(first)]
                e = eL + eM + [eM[0]]
                s = [here] + sL[1:] + [here] + sM[1:] + [sM[0]]
                loops.remove(L)
                loops.remove(M)
                self._zip(loops, Loop(e, s), t)

    def _zip(self, loops, L, t):
        """resolve antiparallel neighbours (ridges) and drop finished loops"""
        tol = self.tol
        while True:
            n = len(L.e)
            if n < 2:
                raise RefError("loop of one edge")
            if n == 2:
                # both vertices are joined by a ridge (or coincide)
                self._arc(L.src[0][0], L.src[1][0], L.e[0], L.e[1]) if self._alive(L, t) else None
                return
            for i in range(n):
                a, b = L.e[i - 1], L.e[i]
                (ax, ay), (bx, by) = self.U[a], self.U[b]
                if abs(ax * by - ay * bx) < 1e-9 and ax * bx + ay * by < 0:
                    break
            else:
                loops.append(L)
                return
            p = L.src[i][1]
            if abs(L.src[i][2] - t) > 10 * tol:
                raise RefError("old ridge vertex")
            na = self._n(a)
            nb = self._n(b)
            if abs(na[0] * p[0] + na[1] * p[1] - self.D[a] - t) > 1000 * tol or abs(nb[0] * p[0] + nb[1] * p[1] - self.D[b] - t) > 1000 * tol:
                raise RefError("ridge off line")
            ia, ib = (i - 1) % n, (i + 1) % n   # vertex at the start of a, vertex at the end of b
            # positions of the far ends
            def end(k):
                x, y = L.e[k - 1], L.e[k]
                (xx, xy), (yx, yy) = self.U[x], self.U[y]
                if abs(xx * yy - xy * yx) < 1e-9 and xx * yx + xy * yy < 0:
                    return L.src[k][1]
                return self._meet(x, y, t, L.src[k][1])
            pa, pb = end(ia), end(ib)
            la = (p[0] - pa[0]) * ax + (p[1] - pa[1]) * ay
            lb = (pb[0] - p[0]) * bx + (pb[1] - p[1]) * by
            if la < -1000 * tol or lb < -1000 * tol:
                raise RefError("ridge the wrong way")
            if ia == ib:
                # only possible for n == 2
                raise RefError("tiny loop")
            if abs(la - lb) < 50 * tol:
                nd = self._node(pa, t)
                self._arc(L.src[i][0], nd, a, b)
                self._arc(L.src[ia][0], nd, L.e[ia - 1], a)
                self._arc(L.src[ib][0], nd, b, L.e[ib])
                # drop both a and b
                k = [(ib + r) % n for r in range(n - 2)]
                e = [L.e[x] for x in k]
                s = [L.src[x] for x in k]
                s[0] = (nd, pa, t)
                if len(e) == 1:
                    return
                L = Loop(e, s)
            elif la < lb:
                nd = self._node(pa, t)
                self._arc(L.src[i][0], nd, a, b)
                self._arc(L.src[ia][0], nd, L.e[ia - 1], a)
                k = [(i + r) % n for r in range(n - 1)]
                e = [L.e[x] for x in k]
                s = [L.src[x] for x in k]
                s[0] = (nd, pa, t)
                L = Loop(e, s)
            else:
                nd = self._node(pb, t)
                self._arc(L.src[i][0], nd, a, b)
                self._arc(L.src[ib][0], nd, b, L.e[ib])
                k = [(ib + r) % n for r in range(n - 1)]
                e = [L.e[x] for x in k]
                s = [L.src[x] for x in k]
                s[0] = (nd, pb, t)
                L = Loop(e, s)

    def _alive(self, L, t):
        return True

    # ---- result
    def skeleton_nodes(self):
        """inner nodes as (x, y, t)"""
        return self.nodes[self.nInput:]

    def faces(self):
        """for every edge: the polygon [(x, y, t), ...], ccw, starting with the edge itself"""
        out = []
        off = 0
        starts = []
        for c in self.contours:
            n = len(c)
            for i in range(n):
                starts.append((off + i, off + (i + 1) % n))
            off += n
        adj = [dict() for _ in range(self.nEdges)]
        for (p, q, a, b) in self.arcs:
            for e in (a, b):
                adj[e].setdefault(p, []).append(q)
                adj[e].setdefault(q, []).append(p)
        for e in range(self.nEdges):
            s, d = starts[e]
            # walk from d to s along arcs of e
            path = [s, d]
            prev, cur = s, d
            while cur != s:
                nxts = adj[e].get(cur, [])
                nxts = [x for x in nxts if x != prev] if prev != s or cur != d else list(nxts)
                if len(nxts) != 1:
                    raise RefError("face of edge %d does not close" % e)
                prev, cur = cur, nxts[0]
                if cur != s:
                    path.append(cur)
                if len(path) > len(self.nodes) + 2:
                    raise RefError("face loop")
            out.append([self.nodes[k] for k in path])
        return out


def area(poly):
    s = 0.0
    for i in range(len(poly)):
        x0, y0 = poly[i - 1][0], poly[i - 1][1]
        x1, y1 = poly[i][0], poly[i][1]
        s += x0 * y1 - x1 * y0
    return s / 2


def reference(contours, tol=1e-9):
    """a self-validated reference: raises RefError when it cannot vouch for the result"""
    r = RefSkeleton(contours, tol)
    fs = r.faces()
    tot = sum(area(c) for c in r.contours)
    s = 0.0
    for e, f in enumerate(fs):
        a = area(f)
        if a <= 0:
            raise RefError("negative face")
        s += a
        n = r._n(e)
        for x, y, t in f:
            if abs(n[0] * x + n[1] * y - r.D[e] - t) > 1e-6 * r.scale:
                raise RefError("face not planar")
    if abs(s - tot) > 1e-6 * r.scale ** 2:
        raise RefError("faces do not tile")
    return r, fs
