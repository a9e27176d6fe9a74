"""Drives polygon sets and the shapes built on them and records the histories (B06, B07, P01, P05)."""
import json
import math
import random

import common
from m_geom import rect_poly

U = 100000
E6 = 1000000
NONE = 1999999999
TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29)]


def fx(v):
    v = float(v) * U
    if not math.isfinite(v) or abs(v) > 1.9e9:
        return NONE
    return int(round(v))


def unit(a):
    return [int(round(math.cos(a) * E6)), int(round(math.sin(a) * E6))]


def rnd6(u):
    return int(round(u * E6))


def angle(rng, right=0.5):
    """an angle in radians: right angles, rational ones, any"""
    j = rng.random()
    if j < right:
        return rng.choice([0, 1, 2, 3, -1, -2, -3, 4]) * math.pi / 2
    if j < right + (1 - right) * 0.4:
        a, b, _ = rng.choice(TRIPLES)
        return rng.choice([-1, 1]) * math.atan2(a, b) + rng.choice([0, 1, 2, -1]) * math.pi / 2
    return rng.uniform(-6.2, 6.2)


class Exec:
    def __init__(self, rng, pid):
        import gdspy
        import numpy
        self.g, self.np = gdspy, numpy
        self.rng, self.pid = rng, pid
        self.objs, self.ev, self.inputs = [], [], []

    def end(self, o):
        g = self.g
        if not isinstance(o, (g.Path, g.L1Path)):
            return {"k": "none"}
        d = o.direction
        e = {"+x": [E6, 0], "-x": [-E6, 0], "+y": [0, E6], "-y": [0, -E6]}[d] if isinstance(d, str) else unit(d)
        t = {"k": "l1", "p": [fx(o.x), fx(o.y)], "e": e}
        if isinstance(o, g.Path):
            t.update(k="path", w=fx(o.w), d=fx(o.distance), len=fx(o.length), n=int(o.n))
        return t

    def see(self):
        return [{"ps": [[[fx(p[0]), fx(p[1])] for p in q] for q in o.polygons], "ls": [int(l) for l in o.layers],
                 "ds": [int(d) for d in o.datatypes], "pr": [[k, v] for k, v in o.properties.items()], "tt": self.end(o)}
                for o in self.objs]

    def step(self, e, fn, target=None):
        exc, v = common.guarded(fn)
        e["ret"] = {"exc": exc, "same": target is None or v is target}
        if e["op"] == "new" and not exc:
            self.objs.append(v)
        e["ret"]["objs"] = [] if exc else self.see()
        self.ev.append(e)
        return v if not exc else None

    # ------------------------------------------------------------ input
    def k(self, n=12):
        """a coordinate in counts"""
        r = self.rng
        return r.choice([r.randint(-n, n) * U, r.randint(-4 * n, 4 * n) * U // 4, r.randint(-n * U, n * U)])

    def pt(self, n=12):
        return [self.k(n), self.k(n)]

    def re(self, v):
        """counts -> number"""
        return v // U if v % U == 0 and self.rng.random() < 0.7 else v / U

    def rp(self, p):
        q = (self.re(p[0]), self.re(p[1]))
        return self.rng.choice([q, list(q), self.np.array(q)])

    def poly(self, n=12):
        r = self.rng
        j = r.random()
        if j < 0.3:
            x, y = self.pt(n)
            w, h = r.randint(1, 6) * U, r.randint(1, 6) * U
            return [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
        return [self.pt(n) for _ in range(r.randint(3, 9))]

    def real(self, g, ints=False):
        """a polygon as the caller may write it"""
        r = self.rng
        if all(c % U == 0 for p in g for c in p) and r.random() < 0.5:
            a = [(p[0] // U, p[1] // U) for p in g]
        else:
            a = [(p[0] / U, p[1] / U) for p in g]
        j = r.random()
        if j < 0.4:
            return a
        a = self.np.array(a)
        self.inputs.append(a)
        return a

    # ------------------------------------------------------------ construction
    def make(self, kind=None):
        r = self.rng
        kind = kind or r.choice({"B06": ["set", "set", "polygon", "rect", "text", "round", "path", "twin"],
                                 "B07": ["round"], "P01": ["path"], "P05": ["text", "l1"]}[self.pid])
        getattr(self, "new_" + kind)()

    def tags(self):
        r = self.rng
        return {"ly": r.choice([0, 1, 5, 300]), "dt": r.choice([0, 2, 7])}

    def kw(self, e):
        """layer and datatype as keywords, left out if zero at times"""
        d = {}
        if e["ly"] or self.rng.random() < 0.5:
            d["layer"] = e["ly"]
        if e["dt"] or self.rng.random() < 0.5:
            d["datatype"] = e["dt"]
        return d

    def new_set(self):
        e = {"op": "new", "k": "set", "ps": [self.poly() for _ in range(self.rng.choice([0, 1, 2, 3, 5]))], **self.tags()}
        a = [self.real(g) for g in e["ps"]]
        self.step(e, lambda: self.g.PolygonSet(a, **self.kw(e)))

    def new_polygon(self):
        e = {"op": "new", "k": "polygon", "ps": [self.poly()], **self.tags()}
        a = self.real(e["ps"][0])
        self.step(e, lambda: self.g.Polygon(a, **self.kw(e)))

    def new_rect(self):
        p, q = self.pt(), self.pt()
        e = {"op": "new", "k": "rect", "p": p, "q": q, **self.tags()}
        self.step(e, lambda: self.g.Rectangle(self.rp(p), self.rp(q), **self.kw(e)))

    def new_twin(self):
        c = [i for i, o in enumerate(self.objs)]
        if not c:
            return self.new_set()
        i = self.rng.choice(c)
        e = {"op": "new", "k": "twin", "o": i + 1}
        self.step(e, lambda: self.g.PolygonSet(self.objs[i].polygons))

    def new_text(self):
        r = self.rng
        chars = [chr(c) for c in range(32, 127)]
        s = "".join(r.choice(chars + ["\n", "\t", " "] * 6) for _ in range(r.choice([1, 3, 6, 12, 20])))
        if r.random() < 0.05:
            s += "\u00e9x"
        e = {"op": "new", "k": "text", "q": [ord(c) for c in s], "size": r.choice([9 * U, 9 * U // 10, U, 4 * U, r.randint(1, 200000)]),
             "p": self.pt(5), "hor": r.random() < 0.6, **self.tags()}
        a = 0 if r.random() < 0.5 else angle(r)
        e["e"] = unit(a)
        if 8 * len(s) * e["size"] // 9 > 80 * U or 11 * len(s) * e["size"] // 9 > 80 * U:
            e["size"] = U // 4
        kw = self.kw(e)
        if not e["hor"] or r.random() < 0.3:
            kw["horizontal"] = e["hor"]
        if a != 0:
            kw["angle"] = a
        if e["p"] == [0, 0] and r.random() < 0.5:
            pos = {}
        else:
            pos = {"position": self.rp(e["p"])}
        self.step(e, lambda: self.g.Text(s, self.re(e["size"]), **pos, **kw))

    def lists(self, n):
        """layer or datatype of n parallel paths: number or list, repeated as needed"""
        r = self.rng
        if r.random() < 0.4:
            v = r.choice([0, 1, 3])
            return v, [v]
        v = [r.choice([0, 1, 2, 7]) for _ in range(r.randint(1, n))]
        return v, list(v)

    def new_l1(self):
        r = self.rng
        m = r.randint(1, 8)
        n = r.choice([1, 1, 2, 3])
        h = U // 4
        big = r.random() < 0.3
        w = r.choice([1, 2, 3]) * h
        d = r.choice([3, 4, 5, 6, 8]) * 2 * h if n > 1 else r.choice([0, 6 * h])
        turns = [r.choice([-1, 1]) * (r.choice([1, 1, 2, 3]) if big else 1) for _ in range(m - 1)]
        # long enough for the widths and distances on both sides of every turn
        reach = 3 * ((n - 1) * d + 2 * w) + U
        lens = [r.randint(reach // U + 1, reach // U + 8) * U + r.choice([0, h, 2 * h]) for _ in range(m)]
        q = r.randint(0, 3)
        ly, lys = self.lists(n)
        dt, dts = self.lists(n)
        mp = r.choice([199, 0, 199, 6, 8, 10])
        e = {"op": "new", "k": "l1", "p": [self.k(4) // 250 * 250 for _ in "xy"], "q": q, "w": w, "lens": lens, "turns": turns,
             "n": n, "d": d, "mp": mp, "ly": lys, "dt": dts}
        if len(e["lens"]) > 1 and max(abs(sum(lens)), 0) > 95 * U:
            e["lens"] = lens = [v // 2 // 250 * 250 if v // 2 > reach // 2 else v for v in lens]
        kw = {}
        if n > 1 or r.random() < 0.3:
            kw = {"number_of_paths": n, "distance": self.re(d)}
        if mp != 199:
            kw["max_points"] = mp
        self.step(e, lambda: self.g.L1Path(self.rp(e["p"]), ["+x", "+y", "-x", "-y"][q], self.re(2 * w), [self.re(v) for v in lens],
                                           list(turns), layer=ly, datatype=dt, **kw))

    def new_round(self):
        r = self.rng
        tol = r.choice([1000, 1000, 500, 100])
        R = lambda lo, hi: r.randint(lo * 1000, hi * 1000) * (U // 1000)
        a = R(2, 18)
        ell = r.random() < 0.4
        b = R(2, 18) if ell else a
        m = min(a, b)
        ring = r.random() < 0.45
        if ring:
            ia = r.randint(300, 850) * (m // 1000) // 1000 * 1000
            ib = r.randint(300, 850) * (m // 1000) // 1000 * 1000 if r.random() < 0.4 else ia
        else:
            ia = ib = 0
        e = {"op": "new", "k": "round", "c": self.pt(4), "r": [a, b], "i": [ia, ib], "tol": tol, "np": 0,
             "mp": r.choice([199, 199, 199, 0, 150, 40, 12]), **self.tags()}
        if r.random() < 0.3:
            e["np"] = r.choice([3, 4, 5, 8, 12, 64, 200, 500, 900])
            if ring:
                e["np"] = max(e["np"], 8)
            if e["mp"] and e["np"] > e["mp"] and e["mp"] < 40:
                e["mp"] = 40
            if e["np"] < 6 and not ring:
                e["mp"] = 0
        full = r.random() < 0.4
        if full:
            a0 = 0 if r.random() < 0.4 else angle(r)
            a1 = a0 if r.random() < 0.7 else a0 + 2 * math.pi * r.choice([1, -1])
            if a0 and a1 != a0:
                a0, a1 = r.choice([(-math.pi, math.pi), (0, 2 * math.pi), (math.pi, 3 * math.pi), (0, -2 * math.pi), (math.pi / 2, 5 * math.pi / 2)])
        else:
            while True:
                a0, a1 = angle(r), angle(r)
                if 0.4 < abs(a1 - a0) < 2 * math.pi - 0.4 and abs(abs(a1 - a0) - math.pi) > 1e-9 or a1 - a0 in (math.pi, -math.pi):
                    break
        if a1 == a0:
            e["ang"] = int(round(2 * math.pi * E6))
        else:
            e["ang"] = int(round((a1 - a0) * E6))
        e["e0"], e["e1"] = unit(a0), unit(a1)
        e["a"] = [repr(float(a0)), repr(float(a1))]
        if e["np"] and (not full or a0 != a1):
            e["np"] = max(e["np"], 5 if not ring else 8)
        kw = self.kw(e)
        if tol != 1000:
            kw["tolerance"] = tol / U
        if e["np"]:
            kw["number_of_points"] = e["np"]
        if e["mp"] != 199:
            kw["max_points"] = e["mp"]
        if ring:
            kw["inner_radius"] = self.re(ia) if ia == ib and r.random() < 0.6 else (self.re(ia), self.re(ib))
        if a0 or a1:
            kw["initial_angle"], kw["final_angle"] = a0, a1
        rad = self.re(a) if not ell else (self.re(a), self.re(b))
        self.step(e, lambda: self.g.Round(self.rp(e["c"]), rad, **kw))

    def new_path(self):
        r = self.rng
        n = r.choice([1, 1, 2, 3])
        w = r.choice([1, 2, 3]) * U // 4
        d = r.choice([4, 6, 8]) * U // 4 if n > 1 else 0
        e = {"op": "new", "k": "path", "p": self.pt(3), "w": w, "d": d, "n": n}
        kw = {}
        if n > 1:
            kw["number_of_paths"], kw["distance"] = n, self.re(d)
        if e["p"] != [0, 0]:
            kw["initial_point"] = self.rp(e["p"])
        self.step(e, lambda: self.g.Path(self.re(2 * w), **kw))

    # ------------------------------------------------------------ paths
    def seg(self, i):
        r = self.rng
        o = self.objs[i]
        ln = r.choice([r.randint(1, 10) * U, r.randint(U // 2, 8 * U)])
        j = r.random()
        if j < 0.35:
            arg = None
            d = o.direction
            e6 = {"+x": [E6, 0], "-x": [-E6, 0], "+y": [0, E6], "-y": [0, -E6]}[d] if isinstance(d, str) else unit(d)
        elif j < 0.7:
            arg = r.choice(["+x", "-x", "+y", "-y"])
            e6 = {"+x": [E6, 0], "-x": [-E6, 0], "+y": [0, E6], "-y": [0, -E6]}[arg]
        else:
            arg = angle(r)
            e6 = unit(arg)
        n = o.n
        fw, fd, ax = NONE, NONE, 0
        kw = {}
        if r.random() < 0.3:
            fw = r.choice([0, 1, 2, 4]) * U // 4
            kw["final_width"] = self.re(2 * fw)
        if r.random() < 0.3:
            fd = r.choice([4, 5, 7, 10]) * U // 4
            kw["final_distance"] = self.re(fd)
        if r.random() < 0.15:
            ax = r.choice([-2, -1, 1, 2]) * U // 4
            kw["axis_offset"] = self.re(ax)
        ly, lys = self.lists(n)
        dt, dts = self.lists(n)
        e = {"op": "seg", "o": i + 1, "len": ln, "e": e6, "ax": ax, "fw": fw, "fd": fd, "ly": lys, "dt": dts,
             "diag": int(round(math.hypot(ln, ax)))}
        self.step(e, lambda: o.segment(self.re(ln), *([] if arg is None else [arg]), layer=ly, datatype=dt, **kw), o)

    def seg_case(self, i, e):
        """a section as the specification chose it"""
        o = self.objs[i]
        e = dict(e, o=i + 1)
        kw = {}
        if e["fd"] != NONE:
            kw["final_distance"] = self.re(e["fd"])
        a = math.atan2(e["e"][1], e["e"][0])
        if e["e"] == [0, E6] and self.rng.random() < 0.5:
            a = "+y"
        self.step(e, lambda: o.segment(self.re(e["len"]), a, layer=list(e["ly"]), datatype=list(e["dt"]), **kw), o)

    def move_case(self, i, m):
        m = json.loads(json.dumps(m))
        if m["f"] == "rotate":
            m["a"] = math.atan2(m["e"][1], m["e"][0])
        elif m["f"] == "mirror":
            m["t"] = U
        self.move(i, m)

    def arc(self, i):
        r, np = self.rng, self.np
        o = self.objs[i]
        n = o.n
        kw = {}
        fw, fd = NONE, NONE
        if r.random() < 0.3:
            fw = r.choice([0, 1, 2, 4]) * U // 4
            kw["final_width"] = self.re(2 * fw)
        if r.random() < 0.3:
            fd = r.choice([4, 5, 7, 10]) * U // 4
            kw["final_distance"] = self.re(fd)
        reach = max(abs(o.w), 0 if fw == NONE else fw / U) + 0.5 * (n - 1) * max(abs(o.distance), 0 if fd == NONE else fd / U)
        rad = int((reach + r.choice([0.5, 1, 2, 5])) * 4 + 1) * U // 4
        tol, npt, mp = 1000, 0, 199
        if r.random() < 0.4:
            tol = r.choice([100, 500, 2000])
            kw["tolerance"] = tol / U
        if r.random() < 0.3:
            npt = r.choice([6, 8, 9, 20, 33, 100])
            kw["number_of_points"] = npt
        if r.random() < 0.3:
            mp = r.choice([0, 20, 50, 100])
            kw["max_points"] = mp
        ly, lys = self.lists(n)
        dt, dts = self.lists(n)
        t0 = self.end(o)
        turn = r.random() < 0.6
        if turn:
            j = r.random()
            if j < 0.5:
                arg = r.choice(["l", "r", "ll", "rr"])
                ang = {"l": 0.5, "r": -0.5, "ll": 1, "rr": -1}[arg] * math.pi
            else:
                arg = ang = self.bend()
            d = o.direction
            d = {"+x": 0, "-x": 1, "+y": 0.5, "-y": -0.5}[d] * math.pi if isinstance(d, str) else d
            a0 = d - math.copysign(math.pi / 2, ang)
        else:
            a0, ang = angle(r), self.bend()
        a1 = a0 + ang
        e = {"op": "arc", "o": i + 1, "r": rad, "e0": unit(a0), "e1": unit(a1), "ccw": ang > 0, "ang": int(round(abs(ang) * E6)),
             "fw": fw, "fd": fd, "ly": lys, "dt": dts, "tol": tol, "np": npt, "mp": mp, "us": [], "es": [], "turn": turn}
        k0 = len(o.polygons)
        if turn:
            fn = lambda: o.turn(self.re(rad), arg, layer=ly, datatype=dt, **kw)
        else:
            fn = lambda: o.arc(self.re(rad), a0, a1, layer=ly, datatype=dt, **kw)
        x0, y0 = o.x, o.y
        self.step(e, fn, o)
        # where the new vertices lie on the arc: fraction of the angle and direction from the centre
        cx, cy = x0 - rad / U * math.cos(a0), y0 - rad / U * math.sin(a0)
        for q in o.polygons[k0:]:
            us, es = [], []
            for p in q:
                a = math.atan2(p[1] - cy, p[0] - cx)
                f = (a - a0) / ang
                turns = 2 * math.pi / abs(ang)
                f -= round((f - 0.5) / turns) * turns
                us.append(int(round(f * E6)) if abs(f) < 1000 else NONE)
                es.append(unit(a))
            if abs(ang) > 2 * math.pi - 0.05:
                # both ends are in one direction: told apart by the neighbours
                us = unwrap(us, turns)
            e["us"].append(us)
            e["es"].append(es)

    def curve(self, i):
        """sections along Bezier curves, functions and interpolations"""
        r, np = self.rng, self.np
        o = self.objs[i]
        n = o.n
        rnd = lambda v: int(round(v * U))
        f = r.choice(["bezier", "bezier", "parametric", "smooth"])
        d = o.direction
        a = {"+x": 0, "-x": 1, "+y": 0.5, "-y": -0.5}[d] * math.pi if isinstance(d, str) else float(d)
        if r.random() < 0.3:
            a = angle(r)
        rel = r.random() < 0.6
        x0 = (float(o.x), float(o.y))
        m = r.choice([1, 2, 3, 3, 4]) if f != "smooth" else r.choice([1, 2, 2, 3])
        ps, cur = [], (0.0, 0.0)
        for _ in range(m):
            l = r.choice([3, 4, 6])
            cur = (round(cur[0] + l * math.cos(a), 2), round(cur[1] + l * math.sin(a), 2))
            ps.append(cur)
            a += r.uniform(-1.0, 1.0)
        if not rel:
            ps = [(p[0] + x0[0], p[1] + x0[1]) for p in ps]
        e = {"op": "curve", "o": i + 1, "f": f, "ps": [[rnd(c) for c in p] for p in ps], "rel": rel, "nd": False, "ne": 5, "tol": 1000, "mp": 199,
             "cycle": False, "angles": [], "cert": []}
        kw = {}
        if not rel or r.random() < 0.3:
            kw["relative"] = rel
        gabs = [(p[0] + x0[0], p[1] + x0[1]) if rel else p for p in ps]
        if f == "smooth":
            hk = {}
            if m > 1 and r.random() < 0.4:
                hk["cycle"] = e["cycle"] = True
            if r.random() < 0.4:
                hk["angles"] = [None] * (m + 1)
                e["angles"] = [[] for _ in range(m + 1)]
                pt = [x0] + gabs
                for j in range(m + 1):
                    if r.random() < 0.5:
                        u, w = (pt[j], pt[j + 1]) if j < m else (pt[m - 1], pt[m])
                        t = math.atan2(w[1] - u[1], w[0] - u[0]) + r.uniform(-0.7, 0.7)
                        hk["angles"][j] = t
                        e["angles"][j] = unit(t)
            for key, vs in (("curl_start", [0, 0.5, 2]), ("curl_end", [0, 0.5, 2]), ("t_in", [1.5, [r.choice([1, 1.3, 2]) for _ in range(m + 1)]]),
                            ("t_out", [1.5, [r.choice([1, 1.3, 2]) for _ in range(m + 1)]])):
                if r.random() < 0.2:
                    hk[key] = r.choice(vs)
            pt = [x0] + gabs
            try:
                from gdspy.hobby import _hobby
                import copy
                A, B = _hobby(np.array(pt), **copy.deepcopy(hk))
                end = pt[1:] + pt[:1]
                gs = [[pt[j], tuple(map(float, A[j])), tuple(map(float, B[j])), end[j]] for j in range(len(A))]
            except Exception:
                return
            kw.update(hk)
        elif f == "bezier":
            gs = [[x0] + gabs]
        else:
            gs = [[x0] + gabs]
            if not rel and r.random() < 0.2:
                gs = [gabs[:1] + gabs] if m < 2 else [gabs]
            e["nd"] = r.random() < 0.5
        ev = lambda g, u: g[0] if len(g) == 1 else ev([((1 - u) * p[0] + u * q[0], (1 - u) * p[1] + u * q[1]) for p, q in zip(g, g[1:])], u)
        diff = lambda g: [((len(g) - 1) * (q[0] - p[0]), (len(g) - 1) * (q[1] - p[1])) for p, q in zip(g, g[1:])]
        # curves that stop on their way have no direction there
        for g in gs:
            d1 = diff(g)
            if any(abs(c) > 90 for p in g for c in p) or any(math.hypot(*ev(d1, j / 64)) < 1 for j in range(65)):
                return
        e["gs"] = [[[rnd(c) for c in p] for p in g] for g in gs]
        z = len(gs)
        w, dist = fx(o.w), fx(o.distance)
        fn = lambda q: (lambda u: (q[0] + q[1] * u + q[2] * u * u) / U)
        fws, fds = [[] for _ in gs], [[] for _ in gs]
        wid = lambda: r.choice([1, 2, 3, 4]) * U // 4
        dst = lambda: r.choice([4, 5, 7, 10]) * U // 4
        if f == "smooth":
            if r.random() < 0.6:
                fws = [r.choice([[wid()], [wid()], [wid(), r.randint(0, 2) * U // 4, r.randint(0, 2) * U // 4]]) for _ in gs]
                kw["final_widths"] = [self.re(2 * q[0]) if len(q) == 1 else fn([2 * c for c in q]) for q in fws]
            if r.random() < 0.5:
                fds = [r.choice([[dst()], [dst()], [dst(), r.randint(0, 4) * U // 4, r.randint(0, 4) * U // 4]]) for _ in gs]
                kw["final_distances"] = [self.re(q[0]) if len(q) == 1 else fn(q) for q in fds]
        else:
            j = r.random()
            if j < 0.3:
                fws = [[r.choice([0, 1, 2, 4]) * U // 4]]
                kw["final_width"] = self.re(2 * fws[0][0])
            elif j < 0.5:
                fws = [r.choice([[w, r.randint(0, 4) * U // 4, r.randint(0, 2) * U // 4], [0, U, U // 2], [U // 2, 0, -U // 2], [wid(), 0, U // 4]])]
                kw["final_width"] = fn([2 * c for c in fws[0]])
            j = r.random()
            if j < 0.3:
                fds = [[dst()]]
                kw["final_distance"] = self.re(fds[0][0])
            elif j < 0.45:
                fds = [r.choice([[dist, r.randint(0, 4) * U // 4, 0], [dst(), 0, r.randint(0, 4) * U // 4]])]
                kw["final_distance"] = fn(fds[0])
        if w == 0 and fws[0] in ([], [0]):
            return
        e.update(fws=fws, fds=fds)
        if r.random() < 0.4:
            e["tol"] = r.choice([100, 300, 2000])
            kw["tolerance"] = e["tol"] / U
        if r.random() < 0.3:
            e["ne"] = r.choice([3, 8, 17, 33])
            kw["number_of_evaluations"] = e["ne"]
        if r.random() < 0.35:
            e["mp"] = r.choice([0, 20, 8, 21, 50])
            kw["max_points"] = e["mp"]
        ly, lys = self.lists(n)
        dt, dts = self.lists(n)
        e.update(ly=lys, dt=dts)
        k0 = len(o.polygons)
        real = r.choice([ps, [list(p) for p in ps], np.array(ps)])
        if f == "smooth":
            call = lambda: o.smooth(real, layer=ly, datatype=dt, **kw)
        elif f == "bezier":
            call = lambda: o.bezier(real, layer=ly, datatype=dt, **kw)
        else:
            g0 = [(p[0] - x0[0], p[1] - x0[1]) if rel else p for p in gs[0]]
            if not e["nd"]:
                d0, size = diff(g0), r.choice([1, 1, 0.25, 3])
                kw["curve_derivative"] = lambda u: tuple(size * c for c in ev(d0, u))
            form = r.choice([tuple, list, np.array])
            call = lambda: o.parametric(lambda u: form(ev(g0, u)), layer=ly, datatype=dt, **kw)
        self.step(e, call, o)
        if e["ret"]["exc"]:
            return
        # ---- the parameters of the vertices
        W, D = [], []
        for q, out, x in [(q, W, w) for q in fws] + [(q, D, dist) for q in fds]:
            x = sum(out[-1]) if out else x
            out.append([x, 0, 0] if not q else [x, q[0] - x, 0] if len(q) == 1 else q)
        val = lambda q, u: (q[0] + q[1] * u + q[2] * u * u) / U

        def frame(c, u):
            p, t = ev(gs[c], u), ev(diff(gs[c]), u)
            h = math.hypot(*t) or 1
            return p, (t[0] / h, t[1] / h)

        def at(c, j, s, u):
            p, t = frame(c, u)
            q = (2 * j - (n - 1)) * val(D[c], u) / 2 - s * val(W[c], u)
            return p[0] + q * t[1], p[1] - q * t[0]

        N = 300
        table = {}

        def far(c, j, l, q, u):
            x, y = at(c, j, 1, u), at(c, j, -1, u)
            return math.hypot(x[0] - l[0], x[1] - l[1]) + math.hypot(y[0] - q[0], y[1] - q[1])

        def near(c, j, l, q, u0):
            """first parameter after u0 where both sides are close"""
            if (c, j) not in table:
                table[c, j] = [(at(c, j, 1, k / N), at(c, j, -1, k / N)) for k in range(N + 1)]
            tb = [math.hypot(x[0] - l[0], x[1] - l[1]) + math.hypot(y[0] - q[0], y[1] - q[1]) for x, y in table[c, j]]
            best = None
            for k in range(N + 1):
                if (k == 0 or tb[k] <= tb[k - 1]) and (k == N or tb[k] <= tb[k + 1]):
                    lo, hi = max(0, (k - 1) / N), min(1, (k + 1) / N)
                    for _ in range(60):
                        a1, b1 = lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618
                        if far(c, j, l, q, a1) < far(c, j, l, q, b1):
                            hi = b1
                        else:
                            lo = a1
                    u = (lo + hi) / 2
                    for x in (0.0, 1.0):
                        if abs(u - x) < 1e-5:
                            u = x
                    v = far(c, j, l, q, u)
                    if u > u0 + 1e-7 and (best is None or v < best[1] * 0.5 - 1e-5):
                        best = (u, v)
            return best

        at_u = [(0, 0.0)] * n
        for x, g in enumerate(o.polygons[k0:]):
            j = x % n
            c, lo = at_u[j]
            if lo > 1 - 1e-9:
                c, lo = c + 1, 0.0
            cert = {"i": min(c, z - 1) + 1, "lt": [], "rt": [], "bad": c >= z}
            pts = [(float(p[0]), float(p[1])) for p in g]
            if not cert["bad"]:
                ms = 1 if abs(val(W[c], lo)) < 1e-9 else 0
                me = (len(pts) + ms) % 2
                h = (len(pts) + ms + me) // 2
                # the tip at the beginning is on the right side, the one at the end on the left
                L = pts[:h - ms]
                R = pts[h - ms:][::-1]
                if ms:
                    L = R[:1] + L
                if me:
                    R = R + L[-1:]
                us = []
                for k, (p, q) in enumerate(zip(L, R)):
                    b = (lo, far(c, j, p, q, lo)) if k == 0 else near(c, j, p, q, us[-1])
                    if b is None:
                        cert["bad"] = True
                        break
                    us.append(b[0])
                # directions found by differences move vertices along the curve
                if not cert["bad"] and len(us) > 1 and 1 - us[-1] < 0.2 * (us[-1] - us[-2]):
                    us[-1] = 1.0
                if not cert["bad"] and len(us) > 1:
                    v = [rnd6(u) for u in us]
                    cert["lt"], cert["rt"] = v[ms:], v[:len(v) - me]
                    at_u[j] = (c, us[-1])
                else:
                    cert["bad"] = True
            e["cert"].append(cert)

    def bend(self):
        r = self.rng
        while True:
            a = angle(r)
            if 0.2 < abs(a) < 6.2:
                return a

    # ------------------------------------------------------------ transformations, questions
    def size(self, i):
        return max([0] + [abs(float(c)) for q in self.objs[i].polygons for p in q for c in p]
                   + ([abs(self.objs[i].x), abs(self.objs[i].y)] if hasattr(self.objs[i], "x") else []))

    def move(self, i, case=None):
        r = self.rng
        o = self.objs[i]
        s = self.size(i)
        f = case or self.a_move(s)
        e = {"op": "move", "o": i + 1, "m": f}
        k = f["f"]
        if k == "translate":
            fn = lambda: o.translate(self.re(f["x"]), self.re(f["y"]))
        elif k == "rotate":
            a = f.pop("a")
            fn = lambda: o.rotate(a, *self.center(f["c"]))
        elif k == "scale":
            sx, sy = f["sx"][0] / f["sx"][1], f["sy"][0] / f["sy"][1]
            same = f["sx"] == f["sy"] and r.random() < 0.7
            fn = (lambda: o.scale(sx, **dict(zip(["center"], self.center(f["c"]))))) if same else \
                (lambda: o.scale(sx, sy, *self.center(f["c"])))
        else:
            v = f["v"]
            t = f.pop("t")
            p2 = [f["p"][0] + t * v[0], f["p"][1] + t * v[1]]
            if p2 == [0, 0] and r.random() < 0.7:
                fn = lambda: o.mirror(self.rp(f["p"]))
            else:
                fn = lambda: o.mirror(self.rp(f["p"]), self.rp(p2))
        self.step(e, fn, o)

    def center(self, c):
        return [] if c == [0, 0] and self.rng.random() < 0.7 else [self.rp(c)]

    def a_move(self, s):
        r = self.rng
        k = r.choice(["translate", "rotate", "scale", "mirror"])
        if k == "translate":
            if s > 60:
                return {"f": "scale", "sx": [1, 4], "sy": [1, 4], "c": [0, 0]}
            return {"f": k, "x": self.k(), "y": self.k()}
        c = [0, 0] if r.random() < 0.4 else self.pt(10)
        if k == "rotate":
            a = angle(r)
            return {"f": k, "a": a, "e": unit(a), "c": c}
        if k == "scale":
            lim = 4 if s < 15 else 2 if s < 40 else 1
            z = lambda: [r.choice([v for v in (1, 2, 3, 4, -1, -2, 5, 7) if abs(v) <= lim * d]), d]
            d = r.choice([1, 2, 4, 5])
            sx = z()
            d = r.choice([1, 2, 4, 5])
            sy = z() if r.random() < 0.4 else list(sx)
            return {"f": k, "sx": sx, "sy": sy, "c": c}
        while True:
            v = [r.randint(-5, 5), r.randint(-5, 5)]
            if v != [0, 0]:
                break
        t = r.choice([U, U // 2, 2 * U, U // 5, 33])
        p = self.pt(8)
        if r.random() < 0.3:
            # through the origin, the default second point
            p = [-t * v[0], -t * v[1]]
        return {"f": "mirror", "p": p, "v": v, "t": t}

    def area(self, i):
        o = self.objs[i]
        if self.size(i) > 30:
            return
        by = self.rng.random() < 0.5
        v = lambda a: min(int(round(2 * a * 10000)), NONE)

        def run():
            a = o.area(by) if by or self.rng.random() < 0.5 else o.area()
            self.ev_ret = [[int(k[0]), int(k[1]), v(x)] for k, x in a.items()] if by else [[0, 0, v(a)]]
            return o
        self.ev_ret = []
        e = {"op": "area", "o": i + 1, "by": by}
        self.step(e, run, o)
        e["ret"]["v"] = self.ev_ret

    def box(self, i):
        o = self.objs[i]

        def run():
            b = o.get_bounding_box()
            self.ev_ret = [] if b is None else [fx(b[0][0]), fx(b[0][1]), fx(b[1][0]), fx(b[1][1])]
            return o
        self.ev_ret = []
        e = {"op": "box", "o": i + 1}
        self.step(e, run, o)
        e["ret"]["v"] = self.ev_ret

    def tag(self, i):
        """the caller changes layers, datatypes and properties"""
        r = self.rng
        o = self.objs[i]
        n = len(o.polygons)
        e = {"op": "tag", "o": i + 1, "ls": [r.choice([0, 1, 9]) for _ in range(n)], "ds": [r.choice([0, 4]) for _ in range(n)],
             "pr": r.choice([[], [[1, "a"]], [[2, "b"], [5, "c"]]])}

        def run():
            o.layers, o.datatypes = list(e["ls"]), list(e["ds"])
            o.properties = dict((k, v) for k, v in e["pr"])
            return o
        self.step(e, run, o)

    def spoil(self):
        """the caller reuses an array it gave"""
        if not self.inputs:
            return
        a = self.rng.choice(self.inputs)

        def run():
            a[...] = 77
        self.step({"op": "spoil", "o": 0}, run)

    def fillet(self, i):
        r = self.rng
        o = self.objs[i]
        e = {"op": "fillet", "o": i + 1, "ppc": r.choice([128, 64, 128, 32, 16, 8, 4, 12, 5, 100]), "mp": r.choice([199, 0, 199, 40, 20])}
        sc = lambda: r.choice([0, 1, 2, 4, 10, 3]) * U // 4
        ps = o.polygons
        mode = r.choice(["one", "each", "all", "flat"])
        if mode == "one":
            v = sc()
            e["rs"] = [[v] * len(p) for p in ps]
            arg = self.re(v)
        elif mode == "each":
            v = [sc() for _ in ps]
            e["rs"] = [[x] * len(p) for x, p in zip(v, ps)]
            arg = [self.re(x) for x in v]
        else:
            e["rs"] = [[sc() for _ in p] for p in ps]
            for q, p in zip(e["rs"], ps):
                # one radius for repeated vertices
                for _ in range(2):
                    for j in range(len(p)):
                        if abs(p[j] - p[j - 1]).max() == 0:
                            q[j] = q[j - 1]
            arg = [[self.re(x) for x in q] for q in e["rs"]]
            if mode == "all":
                arg = [q if r.random() < 0.7 or len(set(map(str, q))) > 1 else q[0] for q in arg]
            elif sum(len(p) for p in ps) != len(ps):
                arg = [x for q in arg for x in q]
        kw = {}
        if e["ppc"] != 128:
            kw["points_per_2pi"] = e["ppc"]
        if e["mp"] != 199:
            kw["max_points"] = e["mp"]
        self.step(e, lambda: o.fillet(arg, **kw), o)

    def new_corners(self):
        """polygons along the axes, to be filleted"""
        r = self.rng
        k = r.choice([1, 2])
        ps = []
        for _ in range(r.choice([1, 1, 2])):
            g = rect_poly(r, 6, simple=2)
            g = [p for j, p in enumerate(g) if p != g[j - 1]]
            if r.random() < 0.35:
                # repeated vertices
                j = r.randrange(len(g))
                g = [p for i, p in enumerate(g) for _ in range(r.choice([2, 2, 3]) if i == j or r.random() < 0.15 else 1)]
                if r.random() < 0.3:
                    g = g[1:] + g[:1]
            ps.append([[p[0] * k * U, p[1] * k * U] for p in g])
        e = {"op": "new", "k": "set", "ps": ps, **self.tags()}
        self.step(e, lambda: self.g.PolygonSet([self.real(g) for g in ps], **self.kw(e)))


def unwrap(us, turns):
    out = []
    t = int(round(turns * E6))
    for j, u in enumerate(us):
        near = [x for x in (us[j - 1] if j else us[1], us[j + 1] if j + 1 < len(us) else us[j - 1])]
        ref = sorted(near)[0] if min(near) > 100 else near[0]
        best = min((u - t, u, u + t), key=lambda v: abs(v - ref))
        out.append(best)
    return out


def history(rng, pid, length):
    x = Exec(rng, pid)
    fail = lambda: x.ev and x.ev[-1]["ret"]["exc"]
    if pid == "B07":
        for _ in range(2):
            x.make()
            if fail():
                return {"ev": x.ev}
        x.new_corners()
        if not fail():
            x.fillet(len(x.objs) - 1)
        return {"ev": x.ev}
    while len(x.ev) < length and not fail():
        if len(x.objs) == 0 or (len(x.objs) < 4 and rng.random() < 0.15):
            x.make()
            continue
        i = rng.randrange(len(x.objs))
        o = x.objs[i]
        path = isinstance(o, x.g.Path)
        if path and rng.random() < 0.6 and x.size(i) < 50:
            if len(o.polygons) < 30:
                (x.seg if rng.random() < 0.45 else x.arc if rng.random() < 0.55 else x.curve)(i)
            continue
        j = rng.random()
        if j < 0.6:
            x.move(i)
        elif j < 0.75:
            x.area(i)
        elif j < 0.87:
            x.box(i)
        elif j < 0.94:
            x.tag(i)
        elif pid == "B06":
            x.spoil()
    return {"ev": x.ev}


def random_traces(job, cur):
    seed, count, length, pid = job
    rng = random.Random(seed)
    for _ in range(count):
        yield history(rng, pid, length)


def replay(job, cur):
    """sequences that TLC generated from MCShapes.tla"""
    pid, seed, cases = job
    rng = random.Random(seed)
    for c in cases:
        x = Exec(rng, pid)
        path = any(v["t"] == "seg" for v in c)
        kind = "path" if path else rng.choice({"B06": ["set", "polygon", "rect", "round", "path", "l1"], "P01": ["path"], "P05": ["l1"]}[pid])
        if kind == "path":
            e = {"op": "new", "k": "path", "p": [U, 0], "w": U // 2, "d": 2 * U, "n": 2}
            x.step(e, lambda: x.g.Path(1, (1, 0), 2, 2))
            if not path or rng.random() < 0.5:
                x.seg(0)
        else:
            x.make(kind)
        for v in c:
            if x.ev[-1]["ret"]["exc"] or x.size(0) > 90 or not x.objs:
                break
            if v["t"] == "seg":
                x.seg_case(0, v["s"])
            else:
                x.move_case(0, v["m"])
        if not x.ev[-1]["ret"]["exc"] and x.objs and x.size(0) < 90:
            x.box(0)
            x.area(0)
        yield {"ev": x.ev}
