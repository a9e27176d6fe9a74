"""Drives the geometric operations (boolean, slice, inside, fracture, offset) and records them (B01-B05)."""
import math
import random

import common

BAD = 1999999999


def cells_outline(rng, cells):
    """boundary of a set of cells, as one polygon with its holes linked by slits; None if in several parts"""
    edges = {}
    for (x, y) in cells:
        for a, b, n in (((x, y), (x + 1, y), (x, y - 1)), ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
                        ((x + 1, y + 1), (x, y + 1), (x, y + 1)), ((x, y + 1), (x, y), (x - 1, y))):
            if n not in cells:
                edges.setdefault(a, []).append(b)
    loops = []
    while edges:
        a = min(edges)
        loop, cur, prev = [a], a, None
        while True:
            outs = edges[cur]
            if prev is None or len(outs) == 1:
                nxt = outs[0]
            else:
                # at a pinch turn right, so that loops do not cross
                d = (cur[0] - prev[0], cur[1] - prev[1])
                nxt = [o for o in outs if (o[0] - cur[0], o[1] - cur[1]) == (-d[1], d[0])]
                nxt = nxt[0] if nxt else outs[0]
            outs.remove(nxt)
            if not outs:
                del edges[cur]
            prev, cur = cur, nxt
            if cur == a and a not in edges:
                break
            if cur == a:
                break
            loop.append(cur)
        loops.append(loop)
    return [simplify(l) for l in loops]


def simplify(l):
    out = []
    n = len(l)
    for i in range(n):
        a, b, c = l[i - 1], l[i], l[(i + 1) % n]
        if (b[0] - a[0]) * (c[1] - b[1]) != (b[1] - a[1]) * (c[0] - b[0]):
            out.append(b)
    return out


def blob(rng, n, m):
    """a connected set of cells"""
    s = {(0, 0)}
    while len(s) < n:
        x, y = rng.choice(sorted(s))
        dx, dy = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
        if abs(x + dx) <= m and abs(y + dy) <= m:
            s.add((x + dx, y + dy))
    return s


def area2(g):
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(g, g[1:] + g[:1]))


def rect_poly(rng, size, simple=False):
    """a polygon with edges along the axes; simple: 1 if it must not cross itself, 2 if it must not touch itself either"""
    j = rng.random()
    x, y = rng.randint(0, size - 2), rng.randint(0, size - 2)
    if j < 0.3:
        w, h = rng.randint(1, size // 2), rng.randint(1, size // 2)
        g = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    elif j < 0.7:
        c = blob(rng, rng.randint(2, 12), 3)
        ls = cells_outline(rng, c)
        outer = max(ls, key=lambda l: abs(area2(l)))
        # several loops: take the outer one alone (holes are made by booleans)
        s = rng.choice([1, 1, 2])
        g = [(x + s * a, y + s * b) for a, b in outer]
    elif j < 0.8:
        # comb
        n, t = rng.randint(2, 4), rng.randint(1, 3)
        g = [(x, y)]
        for i in range(n):
            g += [(x + 2 * i, y + t + 1), (x + 2 * i + 1, y + t + 1)]
            if i < n - 1:
                g += [(x + 2 * i + 1, y + 1), (x + 2 * i + 2, y + 1)]
        g.append((x + 2 * n - 1, y))
    elif j < 0.9 or simple:
        # ring with a slit
        w, h = rng.randint(3, 6), rng.randint(3, 6)
        if simple == 2:
            g = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
        else:
            g = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y + 1), (x + 1, y + 1), (x + 1, y + h - 1),
                 (x + w - 1, y + h - 1), (x + w - 1, y + 1), (x, y + 1)]
    else:
        # a closed walk, crossing itself
        n = rng.randint(2, 4)
        xs = [rng.randint(0, size) for _ in range(n)]
        ys = [rng.randint(0, size) for _ in range(n)]
        g = []
        for i in range(n):
            g += [(xs[i], ys[i]), (xs[(i + 1) % n], ys[i])]
        g = [p for i, p in enumerate(g) if p != g[i - 1]]
        if len(g) < 4:
            g = [(x, y), (x + 2, y), (x + 2, y + 3), (x, y + 3)]
    if rng.random() < 0.5:
        g = g[::-1]
    k = rng.randrange(len(g))
    g = g[k:] + g[:k]
    if rng.random() < 0.15:
        # a vertex in the middle of an edge, or twice
        i = rng.randrange(len(g))
        a, b = g[i - 1], g[i]
        g.insert(i, b if rng.random() < 0.5 else ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2))
    return [list(p) for p in g]


def free_poly(rng, size):
    j = rng.random()
    if j < 0.5:
        n = rng.choice([3, 3, 4, 5, 6, 8])
        g = [[rng.randint(0, size), rng.randint(0, size)] for _ in range(n)]
    elif j < 0.8:
        # star-shaped around a centre
        n = rng.randint(3, 9)
        c = size / 2
        angs = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        g = [[round(c + rng.uniform(0.2, 0.5) * size * math.cos(a)), round(c + rng.uniform(0.2, 0.5) * size * math.sin(a))] for a in angs]
    else:
        g = rect_poly(rng, size)
    g = [p for i, p in enumerate(g) if p != g[i - 1]]
    if len(g) < 3 or area2(g) == 0:
        return free_poly(rng, size)
    return g


class Exec:
    def __init__(self, rng, rect):
        import gdspy
        import numpy
        self.g = gdspy
        self.np = numpy
        gdspy.library.use_current_library = False
        self.rng = rng
        self.rect = rect
        if rect:
            self.K, self.prec = rng.choice([1, 2, 10, 1000, 1000, 500]), rng.choice([1e-3, 1e-3, 1e-2, 1.0, 0.25, 5e-4])
        else:
            self.K, self.prec = rng.choice([1000, 1000, 100]), rng.choice([1e-3, 1e-3, 0.01, 1.0])
        self.ev = []
        self.n = 0

    def co(self, v):
        return v * self.K * self.prec

    def pts(self, g):
        return [(self.co(x), self.co(y)) for x, y in g]

    def fx(self, v):
        x = float(v) / self.prec
        if not math.isfinite(x):
            return BAD
        r = round(x)
        return int(r) if abs(x - r) < 1e-6 * max(1, abs(x)) and abs(r) < 10 ** 8 else BAD

    def see(self, ps):
        return [[[self.fx(p[0]), self.fx(p[1])] for p in g] for g in ps]

    # ---------------------------------------------------------- operands
    def item(self, size, simple=False):
        r = self.rng
        mk = (lambda: rect_poly(r, size, simple)) if self.rect else (lambda: free_poly(r, size))
        j = r.random()
        g = self.g
        if j < 0.75:
            ps = [mk() for _ in range(r.choice([1, 1, 1, 2, 3]))]
            d = {"k": "polys", "ps": ps}
            form = r.choice(["raw", "raw", "set", "poly", "list"])
            if form == "poly" and len(ps) == 1:
                real = g.Polygon(self.pts(ps[0]), 3, 4)
            elif form == "raw" and len(ps) == 1:
                real = self.np.array(self.pts(ps[0])) if r.random() < 0.5 else self.pts(ps[0])
            else:
                real = g.PolygonSet([self.pts(p) for p in ps], 5, 6)
            return d, real
        if j < 0.9:
            ps = [mk() for _ in range(r.choice([1, 1, 2]))]
            arr = r.random() < 0.5
            d = {"k": "ref", "ps": ps, "x": r.randint(-3, 8), "y": r.randint(-3, 8), "q": r.randint(0, 3), "th": 0,
                 "m": 64 * r.choice([1, 1, 2]), "xr": r.random() < 0.4, "co": r.choice([1, 2]) if arr else 1,
                 "ro": r.choice([1, 2]) if arr else 1, "sx": r.randint(1, 6) if arr else 0, "sy": r.randint(1, 6) if arr else 0}
            self.n += 1
            c = g.Cell("c%d" % self.n)
            for p in ps:
                c.add(g.Polygon(self.pts(p), r.randint(0, 1), 0))
            kw = dict(rotation=90 * d["q"] if d["q"] else None, magnification=d["m"] // 64 if d["m"] != 64 else None, x_reflection=d["xr"])
            o = (self.co(d["x"]), self.co(d["y"]))
            if arr:
                real = g.CellArray(c, d["co"], d["ro"], (self.co(d["sx"]), self.co(d["sy"])), o, **kw)
            else:
                real = g.CellReference(c, o, **kw)
            return d, real
        typ = r.choice(["flex", "robust"])
        x, y = r.randint(0, size), r.randint(0, size)
        sp = [[x, y]]
        a = r.randint(0, 3)
        n = r.randint(1, 3) if typ == "flex" else 1
        for _ in range(n):
            L = r.randint(5, 8)
            dx, dy = [(L, 0), (0, L), (-L, 0), (0, -L)][a % 4]
            x, y = x + dx, y + dy
            sp.append([x, y])
            a += r.choice([1, 3])
        m = r.choice([1, 1, 2])
        ws = [r.choice([2, 4]) for _ in range(m)]
        os_ = [r.choice([0, 1, -1, 2]) for _ in range(m)]
        d = {"k": "path", "sp": sp, "ws": ws, "os": os_, "sd": 1 if typ == "flex" else -1}
        W, O = [self.co(w) for w in ws], [self.co(o) for o in os_]
        tol = 1e-3 * self.co(1)
        if typ == "flex":
            real = g.FlexPath(self.pts(sp), W, offset=O, tolerance=tol)
        else:
            real = g.RobustPath(self.pts(sp)[0], W, offset=O, tolerance=tol)
            for p in self.pts(sp)[1:]:
                real.segment(p)
        return d, real

    def operand(self, size, allow_none=False, simple=False, most=3):
        """(items, the object given to the library)"""
        r = self.rng
        n = r.choice([1, 1, 2, most])
        if r.random() < 0.06:
            return [], (None if allow_none and r.random() < 0.5 else [])
        its = [self.item(size, simple) for _ in range(n)]
        real = [x[1] for x in its]
        raw = lambda o: isinstance(o, (list, self.np.ndarray))
        if n == 1 and not raw(real[0]) and r.random() < 0.6:
            return [its[0][0]], real[0]
        return [x[0] for x in its], real if r.random() < 0.8 else tuple(real)

    def image(self, real):
        """a copy of an operand's geometry, to see if it is changed"""
        if real is None:
            return None
        if hasattr(real, "get_polygons"):
            return [p.tolist() for p in real.get_polygons()]
        if hasattr(real, "polygons"):
            return ([self.np.array(p).tolist() for p in real.polygons], list(real.layers), list(real.datatypes))
        if isinstance(real, self.np.ndarray):
            return real.tolist()
        return [self.image(x) if not isinstance(x, (float, int)) else x for x in real]

    def run(self, e, fn, reals):
        before = [self.image(x) for x in reals]
        exc, v = common.guarded(fn)
        e.update(exc=exc, rect=self.rect, K=self.K)
        e["same"] = [self.image(x) for x in reals] == before
        e["ret"] = v if not exc else {}
        self.ev.append(e)

    # ---------------------------------------------------------- operations
    def result(self, r):
        if r is None:
            return {"none": True, "ps": [], "ls": [], "ds": []}
        return {"none": False, "ps": self.see(r.polygons), "ls": [int(v) for v in r.layers], "ds": [int(v) for v in r.datatypes]}

    def boolean(self, a=None, b=None, e=None):
        r = self.rng
        size = 10
        a = a or self.operand(size)
        b = b or self.operand(size, True)
        e = e or {"op": "bool", "a": a[0], "b": b[0], "o": r.choice(["or", "and", "not", "xor"]), 
             "mp": r.choice([199, 199, 5, 6, 8, 0, 12]),
             "ly": r.choice([0, 3]), "dt": r.choice([0, 7])}
        self.run(e, lambda: self.result(self.g.boolean(a[1], b[1], e["o"], precision=self.prec, max_points=e["mp"], layer=e["ly"],
                                                       datatype=e["dt"])), [a[1], b[1]])

    def slice(self, a=None, case=None):
        r = self.rng
        size = 10
        a = a or self.operand(size)
        axis = r.randint(0, 1)
        n = r.choice([1, 1, 2, 3, 5])
        if self.rect:
            at = [8 * c for c in case["at"]] if case else [8 * r.randint(-8, size + 14) for _ in range(n)]
            pos = [self.co(v // 8) for v in at]
        else:
            at = [self.K * c for c in case["at"]] if case else [self.K * r.randint(-2, size + 2) + r.choice([0, 0, self.K // 2, 23]) for _ in range(n)]
            pos = [v * self.prec for v in at]
        if case:
            axis = case["axis"]
        e = {"op": "slice", "a": a[0], "at": at, "axis": axis}
        ly, dt = r.choice([0, 4, [1, 2], [3]]), r.choice([0, 5, [1, 2, 3]])
        e["ly"], e["dt"] = ly if isinstance(ly, list) else [ly], dt if isinstance(dt, list) else [dt]
        arg = pos[0] if len(pos) == 1 and r.random() < 0.5 else pos
        self.run(e, lambda: [self.result(x) for x in self.g.slice(a[1], arg, axis, precision=self.prec, layer=ly, datatype=dt)], [a[1]])

    def inside(self, a=None, case=None):
        r = self.rng
        size = 10
        a = a or self.operand(size)
        P = lambda: [r.randint(-6, 2 * size + 8), r.randint(-6, 2 * size + 8)]
        mode = r.choice(["points", "any", "all"])
        if mode == "points":
            gs = [[P() for _ in range(r.randint(1, 30))]]
        else:
            gs = [[P() for _ in range(r.choice([1, 2, 3, 8, 1, 2, 3, 0]))] for _ in range(r.randint(1, 12))]
            if not any(gs):
                gs.append([P()])
            if r.random() < 0.5:
                # near each other
                gs = [[[q[0][0] + r.randint(-2, 2), q[0][1] + r.randint(-2, 2)] for _ in q] for q in gs]
        if case:
            mode, gs = case["mode"], case["pts"]
        e = {"op": "inside", "a": a[0], "mode": mode, "pts": gs}
        conv = lambda g: [(self.co(x) / 2, self.co(y) / 2) for x, y in g]
        real = conv(gs[0]) if mode == "points" else [conv(g) for g in gs]
        if mode == "points" and r.random() < 0.5:
            real = self.np.array(real)
        # half units are on the precision grid only for even K
        self.run(e, lambda: [bool(v) for v in self.g.inside(real, a[1], "all" if mode == "all" else "any", precision=self.prec)], [a[1]])

    def fracture(self, ps=None, case=None):
        r = self.rng
        if ps is None:
            ps = []
            for _ in range(r.choice([1, 1, 2, 3])):
                j = r.random()
                ps.append(saw(r) if j < 0.25 and not self.rect else comb(r) if j < 0.4 else rect_poly(r, 12) if self.rect else free_poly(r, 12))
        if not self.rect:
            # (32 bits in the specification)
            self.K = 100 if max(c for p in ps for q in p for c in q) > 15 else 1000
        e = {"op": "fracture", "ps": ps, "ls": [r.choice([0, 1, 2]) for _ in ps], "ds": [r.choice([0, 1]) for _ in ps],
             "mp": r.choice([5, 5, 6, 7, 8, 10, 12, 20, 199, 4, 0]), "pr": r.choice([[], [[1, 2]]])}
        e.update(case or {})
        s = self.g.PolygonSet([self.pts(p) for p in ps])
        s.layers, s.datatypes = list(e["ls"]), list(e["ds"])
        s.properties = {k: v for k, v in e["pr"]}

        def run():
            x = s.fracture(e["mp"], self.prec)
            assert x is s
            return dict(self.result(s), pr=[[k, v] for k, v in s.properties.items()])
        self.run(e, run, [])

    def offset(self, a=None, case=None):
        r = self.rng
        jf = r.random() < 0.5
        a = a or self.operand(10, simple=1 if jf else 2)
        e = {"op": "offset", "a": a[0], "d": r.choice([1, 1, 2, 3, -1, -1, -2]), "jf": jf, "mp": r.choice([199, 199, 6, 8, 0]),
             "ly": r.choice([0, 3]), "dt": r.choice([0, 7])}
        e.update(case or {})
        self.run(e, lambda: self.result(self.g.offset(a[1], self.co(e["d"]), "miter", r.choice([2, 3]), self.prec, e["jf"], e["mp"], e["ly"], e["dt"])), [a[1]])


def saw(rng):
    """many vertices in one line"""
    n = rng.randint(3, 12)
    w, h = rng.choice([4, 8, 12, 4, 8, 30]), rng.randint(2, 3)
    g = [[w, 0]]
    g.append([w, h * n])
    for i in range(n - 1, -1, -1):
        g += [[0, h * i + h], [0, h * i + 1], [1, h * i]]
    g = [p for i, p in enumerate(g) if p != g[i - 1]]
    if rng.random() < 0.5:
        g = [[y, x] for x, y in g]
    if rng.random() < 0.5:
        g = [[45 - x, y] for x, y in g]
    return g


def comb(rng):
    n, t = rng.choice([3, 4, 6, 8, 10, 12, 3, 4, 6, 40]), rng.randint(1, 3)
    g = [[0, 0]]
    for i in range(n):
        g += [[2 * i, t + 1], [2 * i + 1, t + 1]]
        if i < n - 1:
            g += [[2 * i + 1, 1], [2 * i + 2, 1]]
    g.append([2 * n - 1, 0])
    g = [p for i, p in enumerate(g) if p != g[i - 1]]
    if rng.random() < 0.5:
        g = [[y, x] for x, y in g]
    return g


RECT = {"B01": 0.6, "B02": 0.6, "B03": 0.5, "B04": 0.5, "B05": 1.0}
OPS = {"B01": "boolean", "B02": "slice", "B03": "inside", "B04": "fracture", "B05": "offset"}


def random_traces(job, cur):
    seed, count, pid = job
    rng = random.Random(seed)
    for _ in range(count):
        x = Exec(rng, rng.random() < RECT[pid])
        if pid == "B03" and x.K % 2:
            x.K *= 2
        for _ in range(3):
            getattr(x, OPS[pid])()
        yield {"ev": x.ev}


def replay(job, cur):
    """cases enumerated by TLC"""
    seed, cases = job
    rng = random.Random(seed)
    for i in range(0, len(cases), 4):
        ev = []
        for c in cases[i:i + 4]:
            c = dict(c)
            x = Exec(rng, c.pop("rect"))
            x.K, x.prec = rng.choice([(1000, 1e-3), (10, 0.01), (2, 1.0)] if x.rect else [(1000, 1e-3)])

            def real(items):
                ps = [x.pts(g) for it in items for g in it["ps"]]
                if not ps:
                    return [] if rng.random() < 0.5 else x.g.PolygonSet([])
                j = rng.random()
                return ps if j < 0.5 else x.g.PolygonSet(ps) if j < 0.8 else [x.g.Polygon(p) for p in ps]
            op = c["op"]
            if op == "bool":
                x.boolean((c["a"], real(c["a"])), (c["b"], real(c["b"])), c)
            elif op == "fracture":
                c["pr"] = []
                x.fracture(c["ps"], c)
            else:
                getattr(x, op)((c["a"], real(c["a"])), c)
            ev += x.ev
        yield {"ev": ev}


def scenarios(job, cur):
    """histories recorded as known findings"""
    if job == "B01":
        x = Exec(random.Random(1), False)
        x.K, x.prec = 1000, 1e-3
        a = [[[8, 6], [7, 8], [1, 5], [1, 4], [5, 2], [7, 3], [9, 4], [10, 5]],
             [[1, 7], [1, 11], [5, 11], [5, 6], [1, 6], [1, 7], [4, 7], [4, 10], [2, 10], [2, 7]],
             [[5, 8], [2, 5], [6, 9], [9, 4], [3, 2], [0, 9], [6, 7], [3, 4]]]
        b = [[[9, 7], [7, 9], [3, 10], [6, 4], [10, 7], [10, 8], [9, 10], [1, 7]], [[7, 9], [6, 7], [5, 8], [4, 1], [6, 1], [7, 4], [9, 5]]]
        it = lambda ps: [{"k": "polys", "ps": ps}]
        x.boolean((it(a), [x.pts(g) for g in a]), (it(b), [x.pts(g) for g in b]),
                  {"op": "bool", "a": it(a), "b": it(b), "o": "or", "mp": 5, "ly": 0, "dt": 0})
        yield {"ev": x.ev}
