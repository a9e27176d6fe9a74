"""Drives FlexPath and records the histories (P02)."""
import copy
import io
import math
import random
import struct

import common
from m_curve import bez, params
from m_shapes import E6, NONE, TRIPLES, U, angle, fx, unit


def norm(v):
    d = math.hypot(v[0], v[1])
    return (v[0] / d, v[1] / d)


def left(v):
    return (-v[1], v[0])


def dirn(v):
    d = norm(v)
    return [int(round(d[0] * E6)), int(round(d[1] * E6))]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def meet(p, d, q, e):
    """intersection of two lines; None if parallel, False if hardly defined"""
    den = cross(d, e)
    if abs(den) < 1e-9:
        return None if dot(d, e) > 0 else False
    if abs(den) < 1e-3 or dot(d, e) < -0.96:
        return False
    t = cross((q[0] - p[0], q[1] - p[1]), e) / den
    return (p[0] + d[0] * t, p[1] + d[1] * t)


def mid(p, q):
    return (0.5 * (p[0] + q[0]), 0.5 * (p[1] + q[1]))


def P2(p):
    return [fx(p[0]), fx(p[1])]


class Exec:
    def __init__(self, rng):
        import gdspy
        import numpy
        self.g, self.np, self.rng = gdspy, numpy, rng
        self.ev, self.log = [], []
        self.p = None

    # ------------------------------------------------------------ observation
    def see(self, r):
        o = self.p
        r["P"] = [P2(p) for p in o.points]
        r["W"] = [[fx(v) for v in w] for w in o.widths]
        r["O"] = [[fx(v) for v in w] for w in o.offsets]
        r["n"] = int(o.n)

    def step(self, e, fn):
        exc, v = common.guarded(fn)
        e["ret"] = {"exc": exc, "same": e["op"] in ("new", "ask", "gds") or v is self.p}
        if not exc:
            if e["op"] == "new":
                self.p = v
            self.see(e["ret"])
        self.ev.append(e)
        return v

    def ok(self):
        return not self.ev[-1]["ret"]["exc"]

    # ------------------------------------------------------------ input
    def k(self, n=8):
        r = self.rng
        return r.choice([r.randint(-n, n) * U, r.randint(-4 * n, 4 * n) * U // 4, r.randint(-n * U, n * U)])

    def re(self, v):
        return v // U if v % U == 0 and self.rng.random() < 0.6 else v / U

    def rp(self, p):
        q = (self.re(p[0]), self.re(p[1]))
        return self.rng.choice([q, list(q), self.np.array(q)])

    def size(self):
        return max(abs(float(v)) for p in self.p.points for v in p)

    def last(self):
        return [fx(v) for v in self.p.points[-1]]

    def heading(self):
        """direction of the last section"""
        q = self.p.points
        if len(q) < 2 or math.dist(q[-1], q[-2]) < 0.01:
            return None
        return math.atan2(float(q[-1][1] - q[-2][1]), float(q[-1][0] - q[-2][0]))

    # ------------------------------------------------------------ creation
    def corner(self):
        def f(p0, v0, p1, v1, c, w):
            self.log.append({"w": "corner", "p0": P2(p0), "v0": dirn(v0), "p1": P2(p1), "v1": dirn(v1), "c": P2(c), "width": fx(w)})
            return [p0, p1]
        return f

    def end(self):
        def f(p0, v0, p1, v1):
            self.log.append({"w": "end", "p0": P2(p0), "v0": dirn(v0), "p1": P2(p1), "v1": dirn(v1)})
            if math.dist(p0, p1) < 1e-3:
                return [p0, p1]
            d = left(norm((p1[0] - p0[0], p1[1] - p0[1])))
            if dot(d, v0) < 0:
                d = (-d[0], -d[1])
            m = mid(p0, p1)
            return [p0, self.np.array((m[0] + 0.5 * d[0], m[1] + 0.5 * d[1])), p1]
        return f

    def make(self, **fixed):
        r = self.rng
        n = r.choice([1, 1, 2, 2, 3])
        wl, ol = r.random() < 0.5, r.random() < 0.5
        if n > 1 and not wl:
            ol = True
        if wl:
            w = [r.choice([2, 3, 4, 6, 8]) * U // 4 for _ in range(n)]
        else:
            w = [r.choice([2, 3, 4, 6, 8]) * U // 4]
        if ol:
            o = [r.choice([0, 0, r.randint(-10, 10) * U // 4]) for _ in range(n)]
            if n > 1 and r.random() < 0.5:
                o = [(4 * i - 2 * n + 2) * U // 2 for i in range(n)]
        else:
            o = [r.choice([0, 2, 3]) * U] if wl and n > 1 else [r.choice([0, 0, -6, 4]) * U // 4]
        if r.random() < 0.04:
            w = [0 for _ in w]
        elif r.random() < 0.04:
            w = [r.choice([400, 900]) for _ in w]
        plain = ["natural", "miter", "bevel", "round", "smooth", "call", "circular bend"]
        cor = [r.choice(plain) for _ in range(r.choice([1, 1, n]))]
        gp = r.random() < 0.25
        if gp:
            cor = [c if c == "circular bend" else "natural" for c in cor]
        bends = "circular bend" in cor
        kinds = ["flush", "flush", "extended", "round", "smooth", "custom", "call"]
        ends = []
        for _ in range(r.choice([1, 1, n])):
            k = r.choice(kinds[:6] if bends or gp else kinds)
            ends.append({"k": k, "a": r.choice([0, 1, 2, 3, 6]) * U // 4 if k == "custom" else 0, "b": r.choice([0, 1, 2, 5]) * U // 4 if k == "custom" else 0})
        if gp:
            ends = [x if x["k"] in ("flush", "extended", "round", "custom") else {"k": "flush", "a": 0, "b": 0} for x in ends]
        rad = [r.choice([5, 6, 8, 12]) * U // 4 + max(w) // 2 for _ in range(r.choice([1, n]))] if bends else [0]
        tol = r.choice([1000, 1000, 500, 2000, 5000])
        mp = r.choice([199, 199, 0, 0, 5, 6, 7, 8, 12, 20])
        ly = [r.choice([0, 1, 5, 30]) for _ in range(r.choice([1, n]))]
        dt = [r.choice([0, 2, 7]) for _ in range(r.choice([1, n]))]
        wt = r.random() < 0.7
        np0 = r.choice([1, 1, 2, 2, 3, 4])
        ps = [[self.k(), self.k()]]
        a = None
        while len(ps) < np0:
            q = [self.k(), self.k()]
            d = (q[0] - ps[-1][0], q[1] - ps[-1][1])
            if math.hypot(*d) < 2 * U:
                continue
            b = math.atan2(d[1], d[0])
            if a is not None and math.cos(a - b) < -0.7:
                continue
            a = b
            ps.append(q)
        if np0 == 1 and r.random() < 0.1:
            ps = ps * 2
        e = {"op": "new", "f": "new", "ps": ps, "wl": wl, "w": w, "ol": ol, "o": o, "cor": cor, "ends": ends, "rad": rad, "tol": tol, "mp": mp,
             "gp": gp, "wt": wt, "ly": ly, "dt": dt}
        e.update(fixed)
        self.taper = not any(c == "circular bend" for c in e["cor"])
        self.create(e)

    def create(self, e):
        r = self.rng
        one = lambda v: v if len(v) > 1 or r.random() < 0.3 else v[0]
        pts = [(self.re(p[0]), self.re(p[1])) for p in e["ps"]]
        if len(pts) == 1 and r.random() < 0.4:
            arg = r.choice([pts[0], list(pts[0]), self.np.array(pts[0])])
        else:
            arg = r.choice([pts, [list(p) for p in pts], self.np.array(pts)])
        wid = [self.re(v) for v in e["w"]] if e["wl"] else self.re(e["w"][0])
        off = [self.re(v) for v in e["o"]] if e["ol"] else self.re(e["o"][0])
        self.ckind = [self.corner() if c == "call" else c for c in e["cor"]]
        ends = [self.end() if x["k"] == "call" else (x["a"] / U, x["b"] / U) if x["k"] == "custom" else x["k"] for x in e["ends"]]
        self.kinds = [e["ends"][k % len(e["ends"])]["k"] for k in range(3)]
        self.cors = [e["cor"][k % len(e["cor"])] for k in range(3)]
        self.mp, self.gp, self.tol = e["mp"], e["gp"], e["tol"]
        self.rads = [e["rad"][k % len(e["rad"])] / U for k in range(3)]
        kw = {"corners": one(self.ckind), "ends": one(ends), "tolerance": e["tol"] / U, "max_points": e["mp"], "gdsii_path": e["gp"],
              "width_transform": e["wt"], "layer": one(e["ly"]), "datatype": one(e["dt"])}
        if "circular bend" in e["cor"]:
            kw["bend_radius"] = one([self.re(v) for v in e["rad"]])
        if e["tol"] == 1000 and r.random() < 0.5:
            del kw["tolerance"]
        if e["mp"] == 199 and r.random() < 0.5:
            del kw["max_points"]
        if off == 0 and r.random() < 0.5:
            self.step(e, lambda: self.g.FlexPath(arg, wid, **kw))
        else:
            self.step(e, lambda: self.g.FlexPath(arg, wid, off, **kw))

    # ------------------------------------------------------------ sections
    def rows(self, e):
        """width and offset arguments"""
        r = self.rng
        n = self.p.n
        kw = {}
        e.update(wk="none", w=[], ok="none", o=[])
        if not self.taper:
            return kw
        j = r.random()
        if j < 0.2:
            v = r.choice([2, 3, 4, 6, 8]) * U // 4
            e.update(wk="num", w=[v])
            kw["width"] = self.re(v)
        elif j < 0.4:
            v = [r.choice([2, 3, 4, 6, 8]) * U // 4 for _ in range(n)]
            e.update(wk="list", w=v)
            kw["width"] = r.choice([list, tuple, self.np.array])([self.re(x) for x in v])
        j = r.random()
        if j < 0.15:
            v = r.randint(-4, 4) * U // 4
            e.update(ok="num", o=[v])
            kw["offset"] = self.re(v)
        elif j < 0.3:
            v = [r.randint(-10, 10) * U // 4 for _ in range(n)]
            e.update(ok="list", o=v)
            kw["offset"] = r.choice([list, tuple, self.np.array])([self.re(x) for x in v])
        return kw

    def toward(self, spread=2.0):
        """a direction not too far from the last one"""
        r = self.rng
        h = self.heading()
        if h is None:
            return angle(r)
        j = r.random()
        if j < 0.35:
            return h + r.choice([0.5, -0.5]) * math.pi
        if j < 0.45:
            return h
        return h + r.uniform(-spread, spread)

    def segment(self):
        r = self.rng
        a = self.toward()
        d = r.choice([1, 2, 3, 4, 6, 8]) * U
        v = [int(round(d * math.cos(a))), int(round(d * math.sin(a)))]
        rel = r.random() < 0.5
        o = self.last()
        p = v if rel else [o[0] + v[0], o[1] + v[1]]
        self.segment_to(p, rel)

    def segment_to(self, p, rel, **more):
        e = {"op": "section", "f": "segment", "p": p, "rel": rel}
        kw = self.rows(e)
        if rel:
            kw["relative"] = True
        a = self.rp(p)
        self.log = []
        self.step(e, lambda: self.p.segment(a, **kw))

    def reach(self, e):
        o = self.p
        m = max(abs(float(v)) for v in o.offsets[-1]) + max(float(v) for v in o.widths[-1])
        return m + max([abs(v) for v in e["w"]] + [0]) / U + max([abs(v) for v in e["o"]] + [0]) / U

    def arc(self):
        r = self.rng
        turn = r.random() < 0.6 and self.heading() is not None
        e = {"op": "section", "f": "turn" if turn else "arc"}
        kw = self.rows(e)
        R = int((self.reach(e) + r.choice([0.5, 1, 3])) * 4 + 1) * U // 4
        by = r.choice([1, -1]) * r.choice([0.5 * math.pi, math.pi, 0.5, r.uniform(0.3, 4)])
        arg = by
        if turn and r.random() < 0.5:
            arg = r.choice(["l", "r", "ll", "rr"])
            by = {"l": 0.5, "r": -0.5, "ll": 1, "rr": -1}[arg] * math.pi
        if turn:
            a0 = self.heading() + (math.pi / 2 if by < 0 else -math.pi / 2)
        else:
            a0 = self.toward(1.2) + (math.pi / 2 if by < 0 else -math.pi / 2) + r.choice([0, 0, 2 * math.pi])
        a1 = a0 + by
        e.update(r=[R, R], rot=[E6, 0], e0=unit(a0), e1=unit(a1), by=unit(by), ang=int(round(by * E6)), es=[], tol=self.tol)
        n0, o = len(self.p.points), [float(v) for v in self.p.points[-1]]
        self.log = []
        rad = self.re(R)
        if turn:
            self.step(e, lambda: self.p.turn(rad, arg, **kw))
        else:
            self.step(e, lambda: self.p.arc(rad, a0, a1, **kw))
        if not self.ok():
            return
        c = (o[0] - R / U * math.cos(a0), o[1] - R / U * math.sin(a0))
        for p in self.p.points[n0:]:
            d = [int(round((float(p[i]) - c[i]) / R * U * E6)) for i in (0, 1)]
            e["es"].append(d if max(map(abs, d)) < 2 * E6 else [0, 0])

    def certify(self, gs, n0):
        vs = [tuple(float(v) for v in p) for p in self.p.points[n0:]]
        us, i = [], 0
        for g in gs:
            u = params(self.np, g, vs[i:])
            us.append(u)
            i += len(u)
        return us

    def bezier(self):
        r = self.rng
        m = r.choice([1, 2, 3, 3, 4])
        o = self.last()
        a, ps, cur = self.toward(1.0), [], [0, 0]
        for _ in range(m):
            d = r.choice([2, 3, 4, 6]) * U
            cur = [cur[0] + int(d * math.cos(a)), cur[1] + int(d * math.sin(a))]
            ps.append(cur)
            a += r.uniform(-1.3, 1.3)
        rel = r.random() < 0.6
        f = r.choice(["bezier", "parametric"])
        if not rel:
            ps = [[p[0] + o[0], p[1] + o[1]] for p in ps]
        e = {"op": "section", "f": f, "ps": ps, "rel": rel, "tol": self.tol, "us": []}
        kw = self.rows(e)
        if not rel:
            kw["relative"] = False
        elif r.random() < 0.3:
            kw["relative"] = True
        n0, of = len(self.p.points), tuple(float(v) for v in self.p.points[-1])
        real = [(p[0] / U, p[1] / U) for p in ps]
        self.log = []
        if f == "bezier":
            arg = r.choice([real, [list(p) for p in real], self.np.array(real)])
            self.step(e, lambda: self.p.bezier(arg, **kw))
        else:
            g0 = [(0.0, 0.0) if rel else of] + real
            wrap = r.choice([self.np.array, tuple, list])
            self.step(e, lambda: self.p.parametric(lambda u: wrap(bez(g0, u)), **kw))
        if self.ok():
            g = [of] + [(p[0] + of[0], p[1] + of[1]) if rel else p for p in real]
            e["us"] = self.certify([g], n0)

    def smooth(self):
        r = self.rng
        n = r.choice([1, 2, 2, 3])
        o = self.last()
        of = tuple(float(v) for v in self.p.points[-1])
        ps, cur, a = [], o, self.toward(0.8)
        for _ in range(n):
            d = r.choice([3, 4, 6]) * U
            cur = [cur[0] + int(d * math.cos(a)), cur[1] + int(d * math.sin(a))]
            ps.append(cur)
            a += r.uniform(-1.5, 1.5)
        e0 = o
        cycle = n > 1 and r.random() < 0.25 and abs(ps[-1][0] - e0[0]) + abs(ps[-1][1] - e0[1]) > U
        kw, ang = {}, []
        if r.random() < 0.5:
            real, ch = [], [e0] + ps
            for i in range(n + 1):
                if r.random() < 0.5:
                    real.append(None)
                    ang.append([])
                    continue
                u, w = (ch[i], ch[i + 1]) if i < n else (ch[n - 1], ch[n])
                t = math.atan2(w[1] - u[1], w[0] - u[0]) + r.uniform(-0.9, 0.9)
                real.append(t)
                ang.append(unit(t))
            kw["angles"] = real
        if cycle:
            kw["cycle"] = True
        if r.random() < 0.2:
            kw["curl_start"] = r.choice([0, 0.5, 2])
        if r.random() < 0.2:
            kw["t_out"] = r.choice([1.5, [r.choice([1, 1.3, 2]) for _ in range(n + 1)]])
        if r.random() < 0.2:
            kw["t_in"] = r.choice([1.5, [r.choice([1, 1.3, 2]) for _ in range(n + 1)]])
        rel = r.random() < 0.6
        real = [(p[0] / U - (of[0] if rel else 0), p[1] / U - (of[1] if rel else 0)) for p in ps]
        e = {"op": "section", "f": "smooth", "ps": [[int(round(v * U)) for v in p] for p in real], "rel": rel, "tol": self.tol, "cycle": cycle, "angles": ang,
             "us": [], "gs": []}
        hk = dict(kw)
        kw.update(self.rows(e))
        if not rel:
            kw["relative"] = False
        n0 = len(self.p.points)
        arg = r.choice([real, [list(p) for p in real], self.np.array(real)])
        self.log = []
        self.step(e, lambda: self.p.smooth(arg, **kw))
        if not self.ok():
            return
        through = [of] + [(p[0] + (of[0] if rel else 0), p[1] + (of[1] if rel else 0)) for p in real]
        try:
            from gdspy.hobby import _hobby
            A, B = _hobby(self.np.array(through), **hk)
            ends = through[1:] + through[:1]
            gs = [[through[i], tuple(A[i]), tuple(B[i]), ends[i]] for i in range(len(A))]
        except Exception:
            gs = None
        if gs is None or any(abs(c) > 60 for g in gs for q in g for c in q):
            self.ev.pop()
            return "stop"
        e["gs"] = [[[fx(c) for c in q] for q in g] for g in gs]
        e["us"] = self.certify(gs, n0)

    # ------------------------------------------------------------ transformations
    def factor(self):
        s = self.size()
        r = self.rng
        if s > 40:
            return r.choice([[1, 4], [1, 2]])
        return r.choice([[1, 2], [2, 1], [-1, 1], [3, 2], [-1, 2]] if s > 10 else [[2, 1], [-1, 1], [3, 2], [3, 1], [-2, 1]])

    def move(self):
        r = self.rng
        f = r.choice(["translate", "rotate", "scale", "transform", "transform"])
        if self.size() > 40:
            f = "scale"
        c = [0, 0] if r.random() < 0.4 else [self.k(), self.k()]
        center = [] if c == [0, 0] and r.random() < 0.7 else [self.rp(c)]
        e = {"op": "move", "f": f, "c": c}
        self.log = []
        if f == "translate":
            e.update(x=self.k(), y=self.k())
            self.step(e, lambda: self.p.translate(self.re(e["x"]), self.re(e["y"])))
        elif f == "rotate":
            a = angle(r)
            e["e"] = unit(a)
            self.step(e, lambda: self.p.rotate(a, *center))
        elif f == "scale":
            s = self.factor()
            e["s"] = s
            if not self.fits(s):
                return False
            self.step(e, lambda: self.p.scale(s[0] / s[1], *center))
        else:
            a = angle(r)
            s = self.factor()
            if s[0] < 0:
                s = [1, 2] if self.size() > 10 else [2, 1]
            flat = all(float(v) == 0 for row in self.p.offsets for v in row)
            e.update(t=[self.k(), self.k()] if r.random() < 0.7 else [], e=unit(a) if r.random() < 0.7 else [], s=s if r.random() < 0.6 else [],
                     x=(flat or len(self.ev) > 4) and r.random() < 0.5, at=[self.k(), self.k()] if r.random() < 0.5 else [])
            if e["s"] and not self.fits(e["s"]):
                return False
            if e["x"] and not flat:
                e["after"] = "reflecting a FlexPath with an offset"
            arr = lambda v: self.np.array((v[0] / U, v[1] / U)) if v else None
            args = [arr(e["t"]), a if e["e"] else None, s[0] / s[1] if e["s"] else None, e["x"]]
            if e["at"] or r.random() < 0.3:
                args.append(arr(e["at"]))
            self.step(e, lambda: self.p.transform(*args))
            if e["x"] and not flat:
                return "stop"

    def fits(self, s):
        """radii and widths stay within what is compared well"""
        f = abs(s[0]) / s[1]
        w = [float(v) for row in self.p.widths for v in row if v > 0.02]
        if any(v * f > 12 or v * f < 0.2 for v in w) or self.size() * f > 60:
            return False
        if any(q * f > 30 for q in self.rads):
            return False
        self.rads = [q * f for q in self.rads]
        return True

    # ------------------------------------------------------------ questions
    def cert(self):
        """certificates of the parallel paths, or None if they are hardly defined"""
        o = self.p
        Pf = [tuple(float(v) for v in p) for p in o.points]
        N = len(Pf)
        if N < 2:
            return []
        out = []
        for i in range(N - 1):
            if math.dist(Pf[i], Pf[i + 1]) < 0.02:
                return None
        un = [norm((Pf[i + 1][0] - Pf[i][0], Pf[i + 1][1] - Pf[i][1])) for i in range(N - 1)]
        for k in range(o.n):
            W = [float(o.widths[i][k]) for i in range(N)]
            O = [float(o.offsets[i][k]) for i in range(N)]
            if any(O):
                sa = [(Pf[i][0] - un[i][1] * O[i], Pf[i][1] + un[i][0] * O[i]) for i in range(N - 1)]
                sb = [(Pf[i + 1][0] - un[i][1] * O[i + 1], Pf[i + 1][1] + un[i][0] * O[i + 1]) for i in range(N - 1)]
                if any(math.dist(sa[i], sb[i]) < 0.05 for i in range(N - 1)):
                    return None
                ld = [norm((sb[i][0] - sa[i][0], sb[i][1] - sa[i][1])) for i in range(N - 1)]
                cs = [sa[0]]
                for j in range(1, N - 1):
                    x = meet(sb[j - 1], ld[j - 1], sa[j], ld[j])
                    if x is False:
                        return None
                    cs.append(mid(sb[j - 1], sa[j]) if x is None else x)
                cs.append(sb[-1])
            else:
                cs = Pf
            if any(math.dist(cs[i], cs[i + 1]) < 0.05 for i in range(N - 1)):
                return None
            vd = [norm((cs[i + 1][0] - cs[i][0], cs[i + 1][1] - cs[i][1])) for i in range(N - 1)]
            if self.cors[k] == "circular bend" and any(dot(a, b) < 0 for a, b in zip(un, vd)):
                return None
            sd, xs = [], []
            for s in (-1, 1):
                pa = [(cs[i][0] - s * 0.5 * W[i] * vd[i][1], cs[i][1] + s * 0.5 * W[i] * vd[i][0]) for i in range(N - 1)]
                pb = [(cs[i + 1][0] - s * 0.5 * W[i + 1] * vd[i][1], cs[i + 1][1] + s * 0.5 * W[i + 1] * vd[i][0]) for i in range(N - 1)]
                d = [norm((pb[i][0] - pa[i][0], pb[i][1] - pa[i][1])) for i in range(N - 1)]
                x = []
                for j in range(N - 2):
                    m = meet(pb[j], d[j], pa[j + 1], d[j + 1])
                    if m is False or (m is not None and math.dist(m, pb[j]) > 40):
                        return None
                    x.append(mid(pb[j], pa[j + 1]) if m is None else m)
                if x and self.kinds[k] in ("call", "smooth"):
                    # the first and the last vertices of a side point along it
                    if dot((x[0][0] - pa[0][0], x[0][1] - pa[0][1]), d[0]) < 0.01 or dot((pb[-1][0] - x[-1][0], pb[-1][1] - x[-1][1]), d[-1]) < 0.01:
                        return None
                sd.append(d)
                xs.append(x)
            bd = []
            for j in range(N - 2):
                th = abs(math.atan2(cross(vd[j], vd[j + 1]), dot(vd[j], vd[j + 1])))
                bd.append(self.rads[k] * math.tan(th / 2))
            if any(b > 40 for b in bd):
                return None
            if self.cors[k] == "circular bend" and self.kinds[k] == "smooth" and bd and (bd[0] > math.dist(cs[0], cs[1]) - 0.01 or bd[-1] > math.dist(cs[-1], cs[-2]) - 0.01):
                return None
            i6 = lambda v: [int(round(v[0] * E6)), int(round(v[1] * E6))]
            out.append({"ud": [i6(v) for v in un], "cs": [P2(p) for p in cs], "vd": [i6(v) for v in vd], "sd": [[i6(v) for v in d] for d in sd],
                        "xs": [[P2(p) for p in x] for x in xs], "bd": [fx(b) for b in bd]})
        return out

    def ask(self):
        c = self.cert()
        if c is None:
            return False
        r = self.rng
        o = self.p
        got = {}

        def polys():
            got["ps"] = [[P2(p) for p in g] for g in o.get_polygons()]

        def by():
            got["by"] = [{"ly": int(k[0]), "dt": int(k[1]), "ps": [[P2(p) for p in g] for g in v]} for k, v in o.get_polygons(True).items()]

        def pset():
            s = o.to_polygonset()
            got["set"] = [] if s is None else [{"g": [P2(p) for p in g], "ly": int(a), "dt": int(b)} for g, a, b in zip(s.polygons, s.layers, s.datatypes)]

        def area():
            got["area"] = int(round(2e4 * float(o.area())))

        def twin():
            if self.mp > 4:
                t = copy.deepcopy(o)
                t.max_points = 0
                t.translate(0, 0)
                got["twin"] = [[P2(p) for p in g] for g in t.get_polygons()]
            else:
                got["twin"] = []

        def run():
            q = [polys, by, pset, area]
            r.shuffle(q)
            for f in q + [twin]:
                f()
        e = {"op": "ask", "f": "ask", "cert": c}
        self.step(e, run)
        if self.ok():
            e["ret"].update(got)
            e["ret"]["calls"] = list(self.log)

    def gds(self):
        c = self.cert()
        if c is None or len(self.p.points) < 2 or not self.gp:
            return False
        out = io.BytesIO()
        e = {"op": "gds", "f": "gds", "cert": c}
        self.step(e, lambda: self.p.to_gds(out, 100000))
        if self.ok():
            e["ret"]["els"] = elements(out.getvalue())

    # ------------------------------------------------------------ behaviours of MCFlexPath
    def begin(self, st):
        r = self.rng
        self.taper = True
        cor, ends = list(st["cor"]), [dict(x) for x in st["ends"]]
        if r.random() < 0.6 and not st["gp"]:
            cor = [r.choice(["natural", "miter", "bevel", "round", "smooth", "call"]) for _ in cor]
        if r.random() < 0.5 and not st["gp"]:
            ends = [{"k": r.choice(["flush", "extended", "round", "smooth", "call"]), "a": 0, "b": 0} for _ in ends]
        self.create({"op": "new", "f": "new", "ps": [list(q) for q in st["P"]], "wl": True, "w": list(st["W"][0]), "ol": True, "o": list(st["O"][0]),
                     "cor": cor, "ends": ends, "rad": [0, 0], "tol": r.choice([1000, 2000]), "mp": r.choice([0, 8, 199]), "gp": st["gp"], "wt": st["wt"],
                     "ly": list(st["ly"]), "dt": list(st["dt"])})

    def follow(self, v):
        r = self.rng
        e = {k: v[k] for k in v}
        self.log = []
        if v["op"] == "section":
            kw = {}
            if v["wk"] != "none":
                kw["width"] = [self.re(x) for x in v["w"]] if v["wk"] == "list" else self.re(v["w"][0])
            if v["ok"] != "none":
                kw["offset"] = [self.re(x) for x in v["o"]] if v["ok"] == "list" else self.re(v["o"][0])
            if r.random() < 0.5:
                kw["relative"] = True
            else:
                q = self.last()
                e.update(rel=False, p=[q[0] + v["p"][0], q[1] + v["p"][1]])
            self.step(e, lambda: self.p.segment(self.rp(e["p"]), **kw))
            return
        a = v.get("q", 0) * 0.5 * math.pi + r.choice([0, 0, 2 * math.pi])
        e.pop("q", None)
        center = [] if v.get("c") == [0, 0] else [self.rp(v["c"])] if "c" in v else []
        if v["f"] == "translate":
            self.step(e, lambda: self.p.translate(self.re(v["x"]), self.re(v["y"])))
        elif v["f"] == "rotate":
            self.step(e, lambda: self.p.rotate(a, *center))
        elif v["f"] == "scale":
            self.step(e, lambda: self.p.scale(v["s"][0] / v["s"][1], *center))
        else:
            arr = lambda w: self.np.array((w[0] / U, w[1] / U)) if w else None
            self.step(e, lambda: self.p.transform(arr(v["t"]), a if v["e"] else None, v["s"][0] / v["s"][1] if v["s"] else None, v["x"], arr(v["at"])))

    def question(self):
        if self.gp and self.rng.random() < 0.5:
            return self.gds()
        return self.ask()

    def random(self):
        r = self.rng
        big = len(self.p.points) > 30 or self.size() > 45
        j = r.random()
        if big or j > 0.72:
            return self.move()
        return r.choice([self.segment, self.segment, self.segment, self.arc, self.bezier, self.smooth])()


def elements(data):
    """the PATH elements of a piece of a GDSII stream"""
    out, i, cur = [], 0, None
    while i < len(data):
        n, k = struct.unpack_from(">2H", data, i)
        body = data[i + 4:i + n]
        if k == 0x0900:
            cur = {"ly": -1, "dt": -1, "type": 0, "width": 0, "a": 0, "b": 0, "ps": []}
        elif k == 0x0D02:
            cur["ly"] = struct.unpack(">h", body)[0]
        elif k == 0x0E02:
            cur["dt"] = struct.unpack(">h", body)[0]
        elif k == 0x2102:
            cur["type"] = struct.unpack(">h", body)[0]
        elif k == 0x0F03:
            cur["width"] = struct.unpack(">l", body)[0]
        elif k == 0x3003:
            cur["a"] = struct.unpack(">l", body)[0]
        elif k == 0x3103:
            cur["b"] = struct.unpack(">l", body)[0]
        elif k == 0x1003:
            v = struct.unpack(">%dl" % (len(body) // 4), body)
            cur["ps"] += [[v[q], v[q + 1]] for q in range(0, len(v), 2)]
        elif k == 0x1100:
            out.append(cur)
        i += n
    return out


def replay(job, cur):
    """behaviours that TLC generated from MCFlexPath.tla"""
    seed, cases = job
    rng = random.Random(seed)
    for case in cases:
        x = Exec(rng)
        x.begin(case["start"])
        for v in case["seq"]:
            if not x.ok():
                break
            if rng.random() < 0.2:
                x.question()
            if x.ok():
                x.follow(v)
        if x.ok():
            x.question()
        yield {"ev": x.ev}


def random_traces(job, cur):
    seed, count, length, pid = job
    rng = random.Random(seed)
    for _ in range(count):
        x = Exec(rng)
        x.make()
        dead = False
        while x.ok() and len(x.ev) < length:
            if rng.random() < 0.3:
                if x.question() is False and rng.random() < 0.5:
                    break
            else:
                got = x.random()
                dead = got == "stop"
                if dead or (got is False and rng.random() < 0.3):
                    break
            if x.ok() and x.size() > 90:
                x.ev.pop()
                dead = True
                break
        if x.ev and not dead and x.ok() and x.ev[-1]["op"] not in ("ask", "gds"):
            x.question()
        yield {"ev": x.ev}
