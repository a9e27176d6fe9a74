"""Drives RobustPath and records the histories (P03)."""
import copy
import io
import math
import random
import warnings

import common
from m_curve import bez
from m_flex import P2, cross, dirn, dot, elements, left, norm
from m_shapes import E6, NONE, U, angle, fx, unit


class Mirror:
    """the sections as functions, evaluated at many parameters at once"""

    def __init__(self, np):
        self.np, self.secs, self.n, self.me = np, [], 1, 1000
        self.cache = {}

    def spine(self, s, u):
        np = self.np
        if s["k"] == "arc":
            a = s["a0"] + s["ang"] * u
            return s["c"][0] + s["r"] * np.cos(a), s["c"][1] + s["r"] * np.sin(a)
        return self.curve(s["g"], u)

    def curve(self, g, u):
        np = self.np
        xs, ys = [p[0] + 0 * u for p in g], [p[1] + 0 * u for p in g]
        while len(xs) > 1:
            xs = [a + (b - a) * u for a, b in zip(xs, xs[1:])]
            ys = [a + (b - a) * u for a, b in zip(ys, ys[1:])]
        return xs[0], ys[0]

    @staticmethod
    def diff(g):
        n = len(g) - 1
        return [(n * (b[0] - a[0]), n * (b[1] - a[1])) for a, b in zip(g, g[1:])]

    def frame(self, s, u):
        """direction, speed, rate of turning"""
        np = self.np
        if s["k"] == "arc":
            a = s["a0"] + s["ang"] * u
            g = 1 if s["ang"] > 0 else -1
            return -g * np.sin(a), g * np.cos(a), s["r"] * abs(s["ang"]) + 0 * u, s["ang"] + 0 * u
        d = self.diff(s["g"])
        x, y = self.curve(d, u)
        sp = np.hypot(x, y)
        if len(s["g"]) == 2:
            return x / sp, y / sp, sp, 0 * u
        ax, ay = self.curve(self.diff(d), u)
        return x / sp, y / sp, sp, (x * ay - y * ax) / sp ** 2

    @staticmethod
    def fn(f, u):
        return f[0] + f[1] * u + f[2] * u * u

    def centre(self, s, k, u):
        x, y = self.spine(s, u)
        tx, ty, sp, q = self.frame(s, u)
        o = self.fn(s["o"][k], u)
        d = s["o"][k][1] + 2 * s["o"][k][2] * u
        f = sp + o * q
        return x + o * ty, y - o * tx, f * tx + d * ty, f * ty - d * tx

    def bound(self, i, k, a, u):
        """positions of the left (a = 1) or right boundary, or of the centre (0)"""
        np = self.np
        s = self.secs[i]
        u = np.asarray(u, dtype=float)
        with np.errstate(all="ignore"):
            x, y, vx, vy = self.centre(s, k, u)
            if a == 0:
                return x, y
            v = np.hypot(vx, vy)
            h = 0.5 * a * self.fn(s["w"][k], u)
            return x - h * vy / v, y + h * vx / v

    def tangent(self, i, k, a, u):
        h = 1e-4
        u0, u1 = max(0, u - h), min(1, u + h)
        x, y = self.bound(i, k, a, [u0, u1])
        return norm((float(x[1] - x[0]), float(y[1] - y[0])))

    def good(self, i):
        """regular: all boundaries advance along the spine, nothing is too far or too tight"""
        np = self.np
        s = self.secs[i]
        u = np.linspace(0, 1, 129)
        with np.errstate(all="ignore"):
            tx, ty, sp, q = self.frame(s, u)
            if not (np.all(np.isfinite(sp)) and sp.min() > 0.4 and np.abs(q).max() < 18 and sp.max() < 150):
                return False
            if np.abs(np.diff(q)).max() * 128 > 700 or np.abs(np.diff(np.log(sp))).max() * 128 > 40:
                return False
            for k in range(self.n):
                # not judged: offsets that change fast at the ends of curves without derivatives
                if s["nd"] and max(self.askew(s, k, 0.0), self.askew(s, k, 1.0)) > 0.01:
                    return False
                w = self.fn(s["w"][k], u)
                if w.min() < 0.2 or w.max() > 12:
                    return False
                cx, cy, vx, vy = self.centre(s, k, u)
                if np.hypot(vx, vy).min() < 0.3:
                    return False
                for a in (-1, 0, 1):
                    x, y = self.bound(i, k, a, u)
                    if not np.all(np.isfinite(x)) or max(np.abs(x).max(), np.abs(y).max()) > 100:
                        return False
                    dx, dy = np.diff(x), np.diff(y)
                    m = 0.5 * (tx[1:] + tx[:-1]), 0.5 * (ty[1:] + ty[:-1])
                    if (dx * m[0] + dy * m[1]).min() < 0.12 * sp.min() / 128 or (dx * m[0] + dy * m[1] < 0.2 * np.hypot(dx, dy)).any():
                        return False
        return True

    def joint(self, i, k, a, tol):
        """how sections i and i + 1 meet on a boundary: "on", "in", "out", or None if it is hardly defined"""
        np = self.np
        p, q = [tuple(float(c[0]) for c in self.bound(j, k, a, [u])) for j, u in ((i, 1.0), (i + 1, 0.0))]
        d, e = self.tangent(i, k, a, 1.0), self.tangent(i + 1, k, a, 0.0)
        gap = math.dist(p, q)
        if gap < 0.7 * tol:
            return "on" if dot(d, e) > -0.7 else None
        if gap < 1.5 * tol or dot(d, e) < -0.7 or abs(cross(d, e)) < 0.01:
            return None
        den = cross(d, e)
        t = cross((q[0] - p[0], q[1] - p[1]), e) / den
        v = cross((q[0] - p[0], q[1] - p[1]), d) / den
        if t > 0.02 and v < -0.02:
            return "out" if max(t, -v) < 25 else None
        if t < -0.02 and v > 0.02:
            # a single crossing, near the ends
            xs = self.crossings(i, k, a)
            if len(xs) == 1 and xs[0][0] > 0.55 and xs[0][1] < 0.45:
                return "in"
        return None

    def crossings(self, i, k, a):
        np = self.np
        n = 160
        u = np.linspace(0, 1, n + 1)
        x0, y0 = self.bound(i, k, a, u)
        x1, y1 = self.bound(i + 1, k, a, u)
        ax, ay, bx, by = x0[:-1, None], y0[:-1, None], x0[1:, None], y0[1:, None]
        cx, cy, dx, dy = x1[None, :-1], y1[None, :-1], x1[None, 1:], y1[None, 1:]
        o = lambda px, py, qx, qy, rx, ry: (qx - px) * (ry - py) - (qy - py) * (rx - px)
        hit = (o(ax, ay, bx, by, cx, cy) * o(ax, ay, bx, by, dx, dy) < 0) & (o(cx, cy, dx, dy, ax, ay) * o(cx, cy, dx, dy, bx, by) < 0)
        return [((r + 0.5) / n, (c + 0.5) / n) for r, c in zip(*np.nonzero(hit))]

    # ------------------------------------------------------------ certificates
    def askew(self, s, k, u):
        _, _, sp, q = self.frame(s, self.np.array(u))
        o, d = self.fn(s["o"][k], u), s["o"][k][1] + 2 * s["o"][k][2] * u
        return min(1, abs(d) / float(sp)) * min(1, abs(o * float(q)) / float(sp))

    def loose(self, i, k, u):
        """as in the specification, a little more"""
        s = self.secs[i]
        if s["k"] == "bez" and len(s["g"]) == 2 and s["o"][k][2] == 0:
            return 7e-4
        _, _, sp, q = self.frame(s, self.np.array(u))
        rate = 1.5 * abs(float(q)) + (abs(s["o"][k][1] + 2 * s["o"][k][2] * u) + 2 * abs(s["o"][k][2])) / float(sp) + abs(s["w"][k][1]) / 4
        size = abs(self.fn(s["o"][k], u)) + abs(self.fn(s["w"][k], u))
        end = min(u, 1 - u) * self.me < 1.01
        askew = self.fn(s["w"][k], u) * self.askew(s, k, u) if end and s["nd"] else 0
        return 6e-4 + 1.2 * min(20, size) * min(30, rate) / ((1 if end else 50) * self.me) + askew

    def near(self, i, k, a, p, eps):
        """parameters where section i passes near p"""
        np = self.np
        key = (i, k, a)
        if key not in self.cache:
            u = np.linspace(0, 1, 513)
            self.cache[key] = (u,) + self.bound(i, k, a, u)
        u, x, y = self.cache[key]
        d = np.hypot(x - p[0], y - p[1])
        step = np.hypot(np.diff(x), np.diff(y)).max()
        m = np.concatenate(([np.inf], d, [np.inf]))
        idx = np.nonzero((m[1:-1] <= m[:-2]) & (m[1:-1] <= m[2:]) & (d < eps + step))[0]
        out = []
        for j in idx:
            lo, hi = u[max(0, j - 1)], u[min(512, j + 1)]
            for _ in range(6):
                w = np.linspace(lo, hi, 11)
                bx, by = self.bound(i, k, a, w)
                e = np.hypot(bx - p[0], by - p[1])
                z = int(np.argmin(e))
                lo, hi = w[max(0, z - 1)], w[min(10, z + 1)]
            v, dist = float(w[z]), float(e[z])
            if dist <= eps:
                for end in (0.0, 1.0):
                    if abs(v - end) < 5e-3:
                        bx, by = self.bound(i, k, a, [end])
                        d = math.hypot(float(bx[0]) - p[0], float(by[0]) - p[1])
                        if d <= eps and not any(end == c[0] for c in out):
                            out.append((end, d))
                # so near an end it is taken for it
                if not any(abs(v - end) < 5e-4 and d < dist + 6e-4 for end in (0.0, 1.0) for c, d in out if c == end):
                    out.append((min(1 - 2e-6, max(2e-6, v)), dist))
        return out

    def trail(self, k, a, vs, tol, slack):
        """items of the vertices vs along a boundary, up to its end; number of them, or None"""
        last = len(self.secs) - 1
        memo = {}
        bad = set()

        def at(i, j):
            if (i, j) not in memo:
                c = [(u, d, self.loose(i, k, u)) for u, d in self.near(i, k, a, vs[j], tol + slack)]
                # ends without length repeat the last vertex
                if j + 1 < len(vs) and math.dist(vs[j], vs[j + 1]) < 2e-5:
                    c = [x for x in c if x[0] == 1.0 and x[1] < x[2]] or c
                memo[(i, j)] = c
            return memo[(i, j)]
        # iterative search: (vertex, section, parameter, items)
        stack = [(0, 0, -1.0, ())]
        count = 0
        while stack:
            j, i, u0, items = stack.pop()
            count += 1
            if count > 20000:
                return None
            if i == last and items and items[-1][0] == "on" and items[-1][2] == 1.0:
                return self.items(items)
            if j >= len(vs):
                continue
            opts = []
            if items and items[-1][0] == "mitre":
                if any(v == 0.0 and d < l for v, d, l in at(i, j)):
                    opts.append((j + 1, i, 0.0, items + (("on", i, 0.0),), 0))
            elif not items:
                if any(v == 0.0 and d < l for v, d, l in at(0, 0)):
                    opts.append((1, 0, 0.0, (("on", 0, 0.0),), 0))
            else:
                for v, d, l in at(i, j):
                    if v > u0 + 1.5e-6 and d < l:
                        opts.append((j + 1, i, v, items + (("on", i, v),), d))
                if i < last:
                    for v, d, l in at(i, j):
                        if v > u0 + 1.5e-6 and d < l + tol:
                            for z, f, m in at(i + 1, j):
                                if v > 0 and z < 1 and f < m + tol:
                                    opts.append((j + 1, i + 1, z, items + (("joint", i, v, z),), max(d, f)))
                    if u0 == 1.0:
                        opts.append((j + 1, i + 1, -1.0, items + (("mitre", i),), 0))
            # the nearest parameters first
            opts.sort(key=lambda o: (o[1], round(o[2], 2), o[4]), reverse=True)
            for o in opts:
                key = o[:3] + (o[3][-1][0],)
                if key not in bad:
                    bad.add(key)
                    stack.append(o[:4])
        return None

    @staticmethod
    def items(items):
        c = lambda v: int(round(v * E6))
        out = []
        for it in items:
            if it[0] == "on":
                out.append([it[1] + 1, c(it[2])])
            elif it[0] == "joint":
                out.append([it[1] + 1, c(it[2]), c(it[3])])
            else:
                out.append([it[1] + 1])
        return out

    def outline(self, k, ps, tol, slack):
        """certificate of one outline"""
        none = {"bad": True, "rev": False, "at": 1, "lt": [], "rt": [], "nb": 0, "ne": 0}
        last = len(self.secs) - 1
        start = tuple(float(c[0]) for c in self.bound(0, k, 1, [0.0]))
        for rev in (False, True):
            g = ps[::-1] if rev else ps
            for i in range(len(g)):
                if math.dist(g[i], start) > slack:
                    continue
                v = g[i:] + g[:i]
                lt = self.trail(k, 1, v, tol, slack)
                if lt is None:
                    continue
                back = v[len(lt):][::-1]
                begin = tuple(float(c[0]) for c in self.bound(0, k, -1, [0.0]))
                for nb in range(len(back)):
                    if math.dist(back[nb], begin) > slack:
                        continue
                    rt = self.trail(k, -1, back[nb:], tol, slack)
                    if rt is not None:
                        return {"bad": False, "rev": rev, "at": i + 1, "lt": lt, "rt": rt, "nb": nb, "ne": len(back) - nb - len(rt)}
        return none


class Exec:
    def __init__(self, rng):
        import gdspy
        import numpy
        self.g, self.np, self.rng = gdspy, numpy, rng
        self.ev, self.m = [], Mirror(numpy)
        self.p, self.moves = None, 0
        self.args = []

    # ------------------------------------------------------------ observation
    def see(self, r):
        o = self.p
        r["x"] = P2(o.x)
        r["w"] = [fx(v) for v in o.widths]
        r["o"] = [fx(v) for v in o.offsets]
        r["n"] = int(o.n)
        r["len"] = len(o)

    def step(self, e, fn):
        before = copy.deepcopy([a for a in self.args])
        exc, v = common.guarded(fn)
        kept = all(type(a) is type(b) and (list(map(str, a)) == list(map(str, b))) for a, b in zip(self.args, before))
        e["ret"] = {"exc": exc, "same": e["op"] in ("new", "ask", "gds", "val") or v is self.p, "kept": kept, "warn": False}
        if not exc:
            if e["op"] == "new":
                self.p = v
            self.see(e["ret"])
        self.ev.append(e)
        self.args = []
        return v

    def ok(self):
        return not self.ev[-1]["ret"]["exc"]

    def watched(self, fn):
        """with the warnings of the package"""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            v = fn()
        self.warned = self.warned or any("GDSPY" in str(x.message) for x in w)
        return v

    # ------------------------------------------------------------ input
    def k(self, n=8):
        r = self.rng
        return r.choice([r.randint(-n, n) * U, r.randint(-4 * n, 4 * n) * U // 4, r.randint(-n * U, n * U)])

    def re(self, v):
        r = self.rng
        if v % U == 0 and r.random() < 0.5:
            return v // U
        return self.np.float64(v / U) if r.random() < 0.1 else v / U

    def rp(self, p):
        q = (self.re(p[0]), self.re(p[1]))
        return self.rng.choice([q, list(q), self.np.array(q)])

    def size(self):
        m = [abs(float(v)) for v in self.p.x]
        for i in range(len(self.m.secs)):
            x, y = self.m.spine(self.m.secs[i], self.np.linspace(0, 1, 9))
            m += [float(abs(x).max()), float(abs(y).max())]
        return max(m)

    def heading(self):
        if not self.m.secs:
            return None
        tx, ty, _, _ = self.m.frame(self.m.secs[-1], self.np.array(1.0))
        return math.atan2(float(ty), float(tx))

    # ------------------------------------------------------------ creation
    def make(self):
        r = self.rng
        n = r.choice([1, 1, 2, 2, 3])
        wl, ol = r.random() < 0.5, r.random() < 0.5
        if n > 1 and not wl:
            ol = True
        sizes = [1, 2, 3, 4, 6, 8]
        w = [r.choice(sizes) * U // 4 for _ in range(n if wl else 1)]
        if ol:
            o = [r.choice([0, 0, r.randint(-10, 10) * U // 4]) for _ in range(n)]
            if n > 1 and r.random() < 0.5:
                o = [(4 * i - 2 * n + 2) * U // 2 for i in range(n)]
        else:
            o = [r.choice([0, 2, 3]) * U] if wl and n > 1 else [r.choice([0, 0, -6, 4]) * U // 4]
        gp = r.random() < 0.25
        kinds = ["flush", "flush", "extended", "round", "custom"] + ([] if gp else ["smooth"])
        ends = []
        for _ in range(r.choice([1, 1, n])):
            k = r.choice(kinds)
            ends.append({"k": k, "a": r.choice([0, 1, 2, 3, 6]) * U // 4 if k == "custom" else 0, "b": r.choice([0, 1, 2, 5]) * U // 4 if k == "custom" else 0})
        self.create({"op": "new", "f": "new", "p": [self.k(), self.k()], "wl": wl, "w": w, "ol": ol, "o": o, "ends": ends,
                     "tol": r.choice([1000, 1000, 2000, 3000, 500]), "me": r.choice([1000, 1000, 500, 2000]), "mp": r.choice([199, 199, 0, 0, 5, 6, 8, 20]),
                     "gp": gp, "wt": r.random() < 0.7, "ly": [r.choice([0, 1, 5, 30]) for _ in range(r.choice([1, n]))],
                     "dt": [r.choice([0, 2, 7]) for _ in range(r.choice([1, n]))]})

    def create(self, e):
        r = self.rng
        one = lambda v: v if len(v) > 1 or r.random() < 0.3 else v[0]
        wid = [self.re(v) for v in e["w"]] if e["wl"] else self.re(e["w"][0])
        off = [self.re(v) for v in e["o"]] if e["ol"] else self.re(e["o"][0])
        ends = [(x["a"] / U, x["b"] / U) if x["k"] == "custom" else x["k"] for x in e["ends"]]
        self.kinds = [e["ends"][k % len(e["ends"])]["k"] for k in range(3)]
        self.mp, self.gp, self.tol, self.me = e["mp"], e["gp"], e["tol"], e["me"]
        kw = {"ends": one(ends), "tolerance": e["tol"] / U, "max_points": e["mp"], "max_evals": e["me"], "gdsii_path": e["gp"],
              "width_transform": e["wt"], "layer": one(e["ly"]), "datatype": one(e["dt"])}
        for key, v in (("tolerance", 1000), ("max_points", 199), ("max_evals", 1000)):
            if {"tolerance": e["tol"], "max_points": e["mp"], "max_evals": e["me"]}[key] == v and r.random() < 0.5:
                del kw[key]
        arg = self.rp(e["p"])
        self.args = [a for a in [arg, wid, off] + list(kw.values()) if isinstance(a, (list, self.np.ndarray))]
        if not e["ol"] and e["o"][0] == 0 and r.random() < 0.5:
            self.step(e, lambda: self.g.RobustPath(arg, wid, **kw))
        else:
            self.step(e, lambda: self.g.RobustPath(arg, wid, off, **kw))
        if self.ok():
            self.m.n, self.m.me = self.p.n, e["me"]

    # ------------------------------------------------------------ sections
    def func(self, f):
        a, b, c = (v / U for v in f)
        return lambda u: a + b * u + c * u * u

    def rows(self, e):
        """width and offset arguments; functions continue the present values"""
        r = self.rng
        n = self.p.n
        W, O = [abs(fx(v)) for v in self.p.widths], [fx(v) for v in self.p.offsets]
        kw = {}
        e.update(wk="none", w=[], ok="none", o=[])
        one = e["f"] != "smooth"
        size = lambda: r.choice([1, 2, 3, 4, 6, 8]) * U // 4
        wfun = lambda a: [a, r.randint(-2, 6) * U // 4, r.randint(-2, 4) * U // 4] if r.random() < 0.7 else [a, 2 * U, -2 * U]
        ofun = lambda a: [a, r.randint(-4, 4) * U // 4, r.randint(-4, 4) * U // 4]
        j = r.random()
        if j < 0.2:
            v = size()
            e.update(wk="num", w=[[v]])
            kw["width"] = self.re(v)
        elif j < 0.35:
            v = [[size()] if not one or r.random() < 0.6 else wfun(W[k]) for k in range(n)]
            e.update(wk="list", w=v)
            kw["width"] = r.choice([list, tuple])([self.re(f[0]) if len(f) == 1 else self.func(f) for f in v])
        elif j < 0.45 and one and len(set(W)) == 1:
            f = wfun(W[0])
            e.update(wk="fun", w=[f])
            kw["width"] = self.func(f)
        if "width" in kw and self.gp and r.random() < 0.7:
            e.update(wk="none", w=[])
            del kw["width"]
        j = r.random()
        if j < 0.15:
            v = r.randint(-4, 4) * U // 4
            e.update(ok="num", o=[[v]])
            kw["offset"] = self.re(v)
        elif j < 0.28:
            v = [[r.randint(-8, 8) * U // 4] if not one or r.random() < 0.6 else ofun(O[k]) for k in range(n)]
            e.update(ok="list", o=v)
            kw["offset"] = r.choice([list, tuple])([self.re(f[0]) if len(f) == 1 else self.func(f) for f in v])
        elif j < 0.36:
            f = ofun(0)
            e.update(ok="fun", o=[f])
            kw["offset"] = self.func(f)
        self.args += [v for v in kw.values() if isinstance(v, list)]
        return kw

    def toward(self, spread=1.6):
        r = self.rng
        h = self.heading()
        if h is None:
            return angle(r)
        j = r.random()
        if j < 0.3:
            return h + r.choice([0.5, -0.5]) * math.pi
        if j < 0.5:
            return h
        return h + r.uniform(-spread, spread)

    def wfun(self, e, w, k):
        f = lambda v: [x / U for x in v]
        if self.gp or e["wk"] == "none":
            return [w[k], 0, 0]
        if e["wk"] == "num":
            return [w[k], e["w"][0][0] / U - w[k], 0]
        if e["wk"] == "fun":
            return f(e["w"][0])
        v = e["w"][k]
        return [w[k], v[0] / U - w[k], 0] if len(v) == 1 else f(v)

    def ofun(self, e, o, k):
        f = lambda v: [x / U for x in v]
        if e["ok"] == "none":
            return [o[k], 0, 0]
        if e["ok"] == "num":
            return [o[k], e["o"][0][0] / U, 0]
        if e["ok"] == "fun":
            v = f(e["o"][0])
            return [v[0] + o[k]] + v[1:]
        v = e["o"][k]
        return [o[k], v[0] / U - o[k], 0] if len(v) == 1 else f(v)

    def add(self, e, curves, call):
        """one command, if what it draws is well defined"""
        n0 = len(self.m.secs)
        w, o = [abs(float(v)) for v in self.p.widths], [float(v) for v in self.p.offsets]
        fine = True
        for c in curves:
            s = dict(c)
            s["nd"] = e["f"] == "parametric"
            s["w"] = [self.wfun(e, w, k) for k in range(self.p.n)]
            s["o"] = [self.ofun(e, o, k) for k in range(self.p.n)]
            w, o = [sum(f) for f in s["w"]], [sum(f) for f in s["o"]]
            self.m.secs.append(s)
            i = len(self.m.secs) - 1
            fine = fine and self.m.good(i)
            if fine and i > 0:
                for k in range(self.p.n):
                    for a in (-1, 0, 1):
                        fine = fine and self.m.joint(i - 1, k, a, self.tol / U) is not None
            if not fine:
                break
        if not fine or not self.room():
            del self.m.secs[n0:]
            self.args = []
            return False
        self.m.cache = {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.step(e, call)

    def room(self):
        """crossings at both ends of a section do not overlap"""
        m = self.m
        for i in range(1, len(m.secs) - 1):
            for k in range(self.p.n):
                for a in (-1, 0, 1):
                    lo, hi = 0.0, 1.0
                    if m.joint(i - 1, k, a, self.tol / U) == "in":
                        lo = m.crossings(i - 1, k, a)[0][1]
                    if m.joint(i, k, a, self.tol / U) == "in":
                        hi = m.crossings(i, k, a)[0][0]
                    if lo > hi - 0.1:
                        return False
        return True

    def here(self):
        return tuple(float(v) for v in self.p.x)

    def segment(self):
        r = self.rng
        a = self.toward()
        d = r.choice([2, 3, 4, 6, 8]) * U
        v = [int(round(d * math.cos(a))), int(round(d * math.sin(a)))]
        rel = r.random() < 0.5
        return self.segment_to(v, rel)

    def segment_to(self, v, rel, e=None, kw=None):
        x = self.here()
        p = v if rel else [fx(x[0]) + v[0], fx(x[1]) + v[1]]
        if e is None:
            e = {"op": "section", "f": "segment", "ps": [p], "rel": rel}
            kw = self.rows(e)
        else:
            e.update(ps=[p], rel=rel)
        if rel:
            kw["relative"] = True
        a = self.rp(p)
        if not isinstance(a, tuple):
            self.args.append(a)
        end = (p[0] / U + x[0], p[1] / U + x[1]) if rel else (p[0] / U, p[1] / U)
        return self.add(e, [{"k": "bez", "g": [x, end]}], lambda: self.p.segment(a, **kw))

    def reach(self, e):
        o = self.p
        m = max(abs(float(v)) for v in o.offsets) + max(abs(float(v)) for v in o.widths)
        return m + (sum(abs(v) for row in e["w"] + e["o"] for v in row) + 0.0) / U / max(1, len(e["w"] + e["o"]))

    def facing(self, by):
        """where a turn starts on its circle: it goes on in the mean direction of the paths"""
        v = [(float(d[0]), float(d[1])) for d in self.p.grad(len(self.p))]
        a0 = math.atan2(v[0][1], v[0][0])
        turns = [math.atan2(cross(v[0], d), dot(v[0], d)) for d in v]
        if max(turns) - min(turns) > 3:
            return None
        return a0 + sum(turns) / len(v) + (math.pi / 2 if by < 0 else -math.pi / 2)

    def arc(self):
        r = self.rng
        turn = r.random() < 0.6 and self.heading() is not None
        e = {"op": "section", "f": "turn" if turn else "arc", "ps": [], "rel": False}
        kw = self.rows(e)
        R = int((self.reach(e) + r.choice([0.5, 1, 3])) * 4 + 1) * U // 4
        by = r.choice([1, -1]) * r.choice([0.5 * math.pi, math.pi, 0.5, r.uniform(0.3, 4)])
        arg = by
        if turn and r.random() < 0.5:
            arg = r.choice(["l", "r", "ll", "rr"])
            by = {"l": 0.5, "r": -0.5, "ll": 1, "rr": -1}[arg] * math.pi
        if turn:
            a0 = self.facing(by)
            if a0 is None:
                self.args = []
                return False
        else:
            a0 = self.toward(1.0) + (math.pi / 2 if by < 0 else -math.pi / 2) + r.choice([0, 0, 2 * math.pi])
        a1 = a0 + by
        e.update(r=R, e0=unit(a0), ang=int(round(by * E6)))
        x = self.here()
        rad = self.re(R)
        c = (x[0] - R / U * math.cos(a0), x[1] - R / U * math.sin(a0))
        curve = [{"k": "arc", "c": c, "r": R / U, "a0": a0, "ang": by}]
        if turn:
            return self.add(e, curve, lambda: self.p.turn(rad, arg, **kw))
        return self.add(e, curve, lambda: self.p.arc(rad, a0, a1, **kw))

    def bezier(self):
        r = self.rng
        m = r.choice([1, 2, 3, 3, 4])
        x = self.here()
        o = [fx(x[0]), fx(x[1])]
        a, ps, cur = self.toward(0.8), [], [0, 0]
        for _ in range(m):
            d = r.choice([2, 3, 4, 6]) * U
            cur = [cur[0] + int(d * math.cos(a)), cur[1] + int(d * math.sin(a))]
            ps.append(cur)
            a += r.uniform(-1.0, 1.0)
        rel = r.random() < 0.6
        f = r.choice(["bezier", "parametric"])
        if not rel:
            ps = [[p[0] + o[0], p[1] + o[1]] for p in ps]
        e = {"op": "section", "f": f, "ps": ps, "rel": rel}
        kw = self.rows(e)
        if not rel:
            kw["relative"] = False
        elif r.random() < 0.3:
            kw["relative"] = True
        real = [(p[0] / U, p[1] / U) for p in ps]
        g = [x] + [(p[0] + x[0], p[1] + x[1]) if rel else p for p in real]
        if f == "bezier":
            arg = r.choice([real, [list(p) for p in real], self.np.array(real)])
            self.args.append(arg)
            return self.add(e, [{"k": "bez", "g": g}], lambda: self.p.bezier(arg, **kw))
        g0 = [(0.0, 0.0) if rel else x] + real
        e["ps"] = [P2(p) for p in g0]
        arr = self.np.array
        if r.random() < 0.5:
            d0 = Mirror.diff(g0)
            kw["curve_derivative"] = lambda u: arr(bez(d0, u))
        return self.add(e, [{"k": "bez", "g": g}], lambda: self.p.parametric(lambda u: arr(bez(g0, u)), **kw))

    def smooth(self):
        r = self.rng
        n = r.choice([1, 2, 2, 3])
        x = self.here()
        ps, cur, a = [], [fx(x[0]), fx(x[1])], self.toward(0.6)
        e0 = cur
        for _ in range(n):
            d = r.choice([3, 4, 6]) * U
            cur = [cur[0] + int(d * math.cos(a)), cur[1] + int(d * math.sin(a))]
            ps.append(cur)
            a += r.uniform(-1.0, 1.0)
        cycle = n > 1 and r.random() < 0.2 and abs(ps[-1][0] - e0[0]) + abs(ps[-1][1] - e0[1]) > U
        kw, ang = {}, []
        if r.random() < 0.5:
            real, ch = [], [e0] + ps
            for i in range(n + 1):
                if r.random() < 0.5:
                    real.append(None)
                    ang.append([])
                    continue
                u, w = (ch[i], ch[i + 1]) if i < n else (ch[n - 1], ch[n])
                t = math.atan2(w[1] - u[1], w[0] - u[0]) + r.uniform(-0.7, 0.7)
                real.append(t)
                ang.append(unit(t))
            kw["angles"] = real
        if cycle:
            kw["cycle"] = True
        if r.random() < 0.2:
            kw["curl_start"] = r.choice([0, 0.5, 2])
        if r.random() < 0.2:
            kw["t_out"] = r.choice([1.5, [r.choice([1, 1.3, 2]) for _ in range(n + 1)]])
        if r.random() < 0.2:
            kw["t_in"] = r.choice([1.5, [r.choice([1, 1.3, 2]) for _ in range(n + 1)]])
        rel = r.random() < 0.6
        real = [(p[0] / U - (x[0] if rel else 0), p[1] / U - (x[1] if rel else 0)) for p in ps]
        e = {"op": "section", "f": "smooth", "ps": [[int(round(v * U)) for v in p] for p in real], "rel": rel, "cycle": cycle, "angles": ang}
        hk = copy.deepcopy(kw)
        self.args += [v for v in kw.values() if isinstance(v, list)]
        kw.update(self.rows(e))
        if not rel:
            kw["relative"] = False
        arg = r.choice([real, [list(p) for p in real], self.np.array(real)])
        self.args.append(arg)
        through = [x] + [(p[0] + (x[0] if rel else 0), p[1] + (x[1] if rel else 0)) for p in real]
        try:
            from gdspy.hobby import _hobby
            A, B = _hobby(self.np.array(through), **hk)
            ends = through[1:] + through[:1]
            gs = [[through[i], tuple(map(float, A[i])), tuple(map(float, B[i])), ends[i]] for i in range(len(A))]
        except Exception:
            gs = None
        if gs is None or any(abs(c) > 60 for g in gs for q in g for c in q):
            self.args = []
            return False
        e["gs"] = [[[fx(c) for c in q] for q in g] for g in gs]
        return self.add(e, [{"k": "bez", "g": g} for g in gs], lambda: self.p.smooth(arg, **kw))

    # ------------------------------------------------------------ transformations
    def factor(self):
        s, r = self.size(), self.rng
        if s > 30:
            return r.choice([[1, 4], [1, 2]])
        return r.choice([[1, 2], [2, 1], [-1, 1], [3, 2], [-1, 2]] if s > 10 else [[2, 1], [-1, 1], [3, 2], [3, 1], [-2, 1]])

    def fits(self, s):
        f = abs(s[0]) / s[1]
        m = self.m
        if self.size() * f > 50 or (self.gp and f > 2):
            return False
        w = [abs(float(v)) for v in self.p.widths]
        o = [abs(float(v)) for v in self.p.offsets]
        for q in m.secs:
            w += [float(v) for k in range(m.n) for v in m.fn(q["w"][k], self.np.linspace(0, 1, 5))]
            o += [float(v) for k in range(m.n) for v in m.fn(q["o"][k], self.np.linspace(0, 1, 5))]
        if any(v * f > 10 or v * f < 0.2 for v in w) or any(abs(v) * f > 12 for v in o):
            return False
        # speeds
        for i, q in enumerate(m.secs):
            _, _, sp, _ = m.frame(q, self.np.linspace(0, 1, 17))
            if sp.min() * f < 0.4 or sp.max() * f > 150:
                return False
        return True

    def moved(self, e, a):
        """the same for the sections"""
        m = self.m
        f = e["f"]
        s = 1.0
        if f in ("scale", "transform") and e["s"]:
            s = e["s"][0] / e["s"][1]
        flip = f == "transform" and e["x"]

        def mp(p):
            x, y = p
            if f == "translate":
                return (x + e["x"] / U, y + e["y"] / U)
            if f == "rotate":
                c = (e["c"][0] / U, e["c"][1] / U)
                x, y = x - c[0], y - c[1]
                return (c[0] + x * math.cos(a) - y * math.sin(a), c[1] + x * math.sin(a) + y * math.cos(a))
            if f == "scale":
                c = (e["c"][0] / U, e["c"][1] / U)
                return (c[0] + (x - c[0]) * s, c[1] + (y - c[1]) * s)
            x, y = x * s, y * s
            if e["at"]:
                x, y = x + e["at"][0] / U, y + e["at"][1] / U
            if e["x"]:
                y = -y
            if e["e"]:
                x, y = x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)
            if e["t"]:
                x, y = x + e["t"][0] / U, y + e["t"][1] / U
            return (x, y)

        def ma(t):
            if f == "scale" and s < 0:
                t += math.pi
            if flip:
                t = -t
            if f == "rotate" or (f == "transform" and e["e"]):
                t += a
            return t
        kept = self.gp and not self.p.width_transform
        for q in m.secs:
            if q["k"] == "arc":
                q.update(c=mp(q["c"]), r=q["r"] * abs(s), a0=ma(q["a0"]), ang=-q["ang"] if flip else q["ang"])
            else:
                q["g"] = [mp(p) for p in q["g"]]
            if not kept:
                q["w"] = [[v * abs(s) for v in w] for w in q["w"]]
            q["o"] = [[v * abs(s) * (-1 if flip else 1) for v in w] for w in q["o"]]
        m.cache = {}

    def move(self):
        r = self.rng
        if self.moves > 5:
            return False
        f = r.choice(["translate", "rotate", "scale", "transform", "transform"])
        if self.size() > 35:
            f = "scale"
        c = [0, 0] if r.random() < 0.4 else [self.k(), self.k()]
        center = [] if c == [0, 0] and r.random() < 0.7 else [self.rp(c)]
        self.args = [v for v in center if not isinstance(v, tuple)]
        e = {"op": "move", "f": f, "c": c}
        a = angle(r)
        if f == "translate":
            e.update(x=self.k(), y=self.k())
            self.step(e, lambda: self.p.translate(self.re(e["x"]), self.re(e["y"])))
        elif f == "rotate":
            e["e"] = unit(a)
            self.step(e, lambda: self.p.rotate(a, *center))
        elif f == "scale":
            s = e["s"] = self.factor()
            if not self.fits(s):
                return False
            self.step(e, lambda: self.p.scale(s[0] / s[1], *center))
        else:
            s = self.factor()
            if s[0] < 0:
                s = [1, 2] if self.size() > 10 else [2, 1]
            e.update(t=[self.k(), self.k()] if r.random() < 0.7 else [], e=unit(a) if r.random() < 0.7 else [], s=s if r.random() < 0.6 else [],
                     x=r.random() < 0.5, at=[self.k(), self.k()] if r.random() < 0.5 else [])
            if e["s"] and not self.fits(e["s"]):
                return False
            arr = lambda v: self.np.array((v[0] / U, v[1] / U)) if v else None
            args = [arr(e["t"]), a if e["e"] else None, s[0] / s[1] if e["s"] else None, e["x"]]
            if e["at"] or r.random() < 0.3:
                args.append(arr(e["at"]))
            self.args = [v for v in args if isinstance(v, self.np.ndarray)]
            self.step(e, lambda: self.p.transform(*args))
        self.moves += 1
        if self.ok():
            self.moved(e, a)

    # ------------------------------------------------------------ questions
    def slack(self):
        """what certificates allow; the specification judges"""
        m = 0.02
        for s in self.m.secs:
            _, _, sp, q = self.m.frame(s, self.np.linspace(0, 1, 17))
            size = max([abs(v) for f in s["w"] + s["o"] for v in f] + [0.1])
            d = max(abs(f[1]) + 2 * abs(f[2]) for f in s["o"])
            m = max(m, 2 * size * (float(abs(q).max()) + d / float(sp.min()) + 1) / self.me)
        return min(m, 0.3)

    def order(self):
        o = self.p
        keys = list(zip(o.layers, o.datatypes))
        first = [keys.index(q) for q in keys]
        return sorted(range(o.n), key=lambda k: (first[k], k))

    def ask(self):
        r = self.rng
        o = self.p
        got = {}
        self.warned = False
        flat = lambda gs: [[P2(p) for p in g] for g in gs]

        def polys():
            self.raw = [[(float(p[0]), float(p[1])) for p in g] for g in o.get_polygons()]
            got["ps"] = flat(self.raw)

        def by():
            got["by"] = [{"ly": int(k[0]), "dt": int(k[1]), "ps": flat(v)} for k, v in o.get_polygons(True).items()]

        def pset():
            s = o.to_polygonset()
            got["set"] = [] if s is None else [{"g": [P2(p) for p in g], "ly": int(a), "dt": int(b)} for g, a, b in zip(s.polygons, s.layers, s.datatypes)]

        def area():
            got["area"] = int(round(2e4 * float(o.area())))

        def twin():
            got["twin"] = []
            self.whole = self.raw
            if self.mp > 4:
                t = copy.deepcopy(o)
                t.max_points = 0
                t.translate(0, 0)
                self.whole = [[(float(p[0]), float(p[1])) for p in g] for g in t.get_polygons()]
                got["twin"] = flat(self.whole)

        def run():
            q = [polys, by, pset, area]
            r.shuffle(q)
            for f in q + [twin]:
                self.watched(f)
        e = {"op": "ask", "f": "ask", "cert": []}
        self.step(e, run)
        if not self.ok():
            return
        e["ret"].update(got)
        e["ret"]["warn"] = self.warned
        if self.warned:
            return "stop"
        if self.m.secs and len(self.whole) == o.n:
            e["cert"] = [self.m.outline(k, g, self.tol / U, self.slack()) for k, g in zip(self.order(), self.whole)]

    def gds(self):
        if not self.gp:
            return False
        out = io.BytesIO()
        self.warned = False
        e = {"op": "gds", "f": "gds", "cert": []}
        self.step(e, lambda: self.watched(lambda: self.p.to_gds(out, 100000)))
        if not self.ok():
            return
        els = elements(out.getvalue())
        e["ret"].update(els=els, warn=self.warned)
        if self.warned:
            return "stop"
        if self.m.secs and len(els) == self.p.n:
            for k, el in enumerate(els):
                lt = self.m.trail(k, 0, [(p[0] / U, p[1] / U) for p in el["ps"]], self.tol / U, self.slack())
                e["cert"].append({"bad": lt is None or len(lt) != len(el["ps"]), "lt": lt or []})

    def val(self):
        r = self.rng
        n = len(self.m.secs)
        if n == 0:
            return False
        what = r.choice(["at", "at", "grad", "width"])
        i = r.randint(1, n)
        u = r.choice([0, E6, E6 // 2, r.randint(0, E6)])
        if u == E6 and i < n:
            i, u = i + 1, 0
        arm = r.choice([-1, 0, 0, 1]) if what != "width" else 0
        side = r.choice(["", "-", "+"]) if what == "grad" else ""
        e = {"op": "val", "f": "val", "what": what, "i": i, "u": u, "arm": arm, "side": side}
        t = i - 1 + u / E6
        if u == E6:
            t = self.rng.choice([i, float(i)])
        elif u == 0:
            t = self.rng.choice([i - 1, float(i - 1)])
        kw = {} if arm == 0 and r.random() < 0.5 else {"arm": arm}
        if side and not (side == "-" and r.random() < 0.5):
            kw["side"] = side
        if what == "at":
            v = self.step(e, lambda: self.p(t, **kw))
        elif what == "grad":
            v = self.step(e, lambda: self.p.grad(t, **kw))
        else:
            v = self.step(e, lambda: self.p.width(t))
        if self.ok():
            e["ret"]["v"] = [[fx(v[k])] if what == "width" else P2(v[k]) for k in range(len(v))]

    def question(self):
        j = self.rng.random()
        if j < 0.3:
            return self.val()
        if self.gp and j < 0.7:
            return self.gds()
        return self.ask()

    # ------------------------------------------------------------ behaviours of MCRobustPath
    def begin(self, st):
        r = self.rng
        ends = [dict(x) for x in st["ends"]]
        if r.random() < 0.5 and not st["gp"]:
            ends = [{"k": r.choice(["flush", "extended", "round", "smooth"]), "a": 0, "b": 0} for _ in ends]
        self.create({"op": "new", "f": "new", "p": list(st["x"]), "wl": True, "w": list(st["w"]), "ol": True, "o": list(st["o"]),
                     "ends": ends, "tol": r.choice([1000, 2000]), "me": 1000, "mp": r.choice([0, 8, 199]), "gp": st["gp"], "wt": st["wt"],
                     "ly": list(st["ly"]), "dt": list(st["dt"])})

    def follow(self, v):
        r = self.rng
        e = {k: v[k] for k in v}
        self.args = []
        if v["op"] == "section":
            kw = {}
            if v["wk"] != "none":
                kw["width"] = [self.re(f[0]) if len(f) == 1 else self.func(f) for f in v["w"]]
                if v["wk"] != "list":
                    kw["width"] = kw["width"][0]
            if v["ok"] != "none":
                kw["offset"] = [self.re(f[0]) if len(f) == 1 else self.func(f) for f in v["o"]]
                if v["ok"] != "list":
                    kw["offset"] = kw["offset"][0]
            x = self.here()
            if v["f"] == "segment":
                return self.segment_to(list(v["ps"][0]), r.random() < 0.5, e, kw)
            if v["f"] == "bezier":
                ps = [(p[0] / U, p[1] / U) for p in v["ps"]]
                arg = r.choice([ps, [list(p) for p in ps], self.np.array(ps)])
                self.args.append(arg)
                return self.add(e, [{"k": "bez", "g": [x] + [(p[0] + x[0], p[1] + x[1]) for p in ps]}], lambda: self.p.bezier(arg, **kw))
            a0 = math.atan2(v["e0"][1], v["e0"][0])
            by = v["ang"] / E6
            by = round(by / (math.pi / 2)) * math.pi / 2
            if v["f"] == "turn":
                a0 = self.facing(by)
                if a0 is None:
                    return False
                e["e0"] = unit(a0)
            R = v["r"] / U
            rad = self.re(v["r"])
            c = (x[0] - R * math.cos(a0), x[1] - R * math.sin(a0))
            curve = [{"k": "arc", "c": c, "r": R, "a0": a0, "ang": by}]
            if v["f"] == "turn":
                arg = r.choice([by, {1: "l", -1: "r", 2: "ll", -2: "rr"}[round(by / (math.pi / 2))]])
                return self.add(e, curve, lambda: self.p.turn(rad, arg, **kw))
            return self.add(e, curve, lambda: self.p.arc(rad, a0, a0 + by, **kw))
        a = v.get("q", 0) * 0.5 * math.pi + r.choice([0, 0, 2 * math.pi])
        e.pop("q", None)
        center = [] if v.get("c") == [0, 0] else [self.rp(v["c"])] if "c" in v else []
        if v["f"] in ("scale", "transform") and v["s"] and not self.fits(v["s"]):
            return False
        if v["f"] == "translate":
            self.step(e, lambda: self.p.translate(self.re(v["x"]), self.re(v["y"])))
        elif v["f"] == "rotate":
            self.step(e, lambda: self.p.rotate(a, *center))
        elif v["f"] == "scale":
            self.step(e, lambda: self.p.scale(v["s"][0] / v["s"][1], *center))
        else:
            arr = lambda w: self.np.array((w[0] / U, w[1] / U)) if w else None
            self.step(e, lambda: self.p.transform(arr(v["t"]), a if v["e"] else None, v["s"][0] / v["s"][1] if v["s"] else None, v["x"], arr(v["at"])))
        if self.ok():
            self.moved(e, a)

    def random(self):
        r = self.rng
        big = len(self.m.secs) > 5 or self.size() > 38
        if big or (r.random() > 0.72 and self.m.secs):
            return self.move()
        for _ in range(12):
            got = r.choice([self.segment, self.segment, self.arc, self.bezier, self.smooth])()
            if got is not False:
                return got
        return False


def replay(job, cur):
    """behaviours that TLC generated from MCRobustPath.tla"""
    seed, cases = job
    rng = random.Random(seed)
    for case in cases:
        x = Exec(rng)
        x.begin(case["start"])
        dead = None
        for v in case["seq"]:
            if not x.ok():
                break
            if rng.random() < 0.15:
                dead = x.question()
            if dead == "stop" or not x.ok():
                break
            if x.follow(v) is False:
                break
        if x.ok() and dead != "stop":
            x.question()
        yield {"ev": x.ev}


def random_traces(job, cur):
    seed, count, length, pid = job
    rng = random.Random(seed)
    for _ in range(count):
        x = Exec(rng)
        x.make()
        dead = False
        while x.ok() and len(x.ev) < length:
            if rng.random() < 0.3:
                got = x.question()
            else:
                got = x.random()
            if got == "stop":
                dead = True
                break
            if got is False and rng.random() < 0.3:
                break
        if x.ev and not dead and x.ok() and x.ev[-1]["op"] not in ("ask", "gds"):
            x.question()
        yield {"ev": x.ev}
