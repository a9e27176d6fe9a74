"""Drives Curve and records the histories (P04)."""
import math
import random

import common
from m_shapes import E6, NONE, TRIPLES, U, angle, fx, unit


def bez(ctrl, u):
    p = ctrl
    while len(p) > 1:
        p = [(a[0] * (1 - u) + b[0] * u, a[1] * (1 - u) + b[1] * u) for a, b in zip(p, p[1:])]
    return p[0]


def power(np, c):
    """Bezier coordinates to coefficients of powers, highest first"""
    n = len(c) - 1
    out = np.zeros(n + 1)
    for i, v in enumerate(c):
        b = np.poly1d([math.comb(n, i) * v])
        b = b * np.poly1d([1, 0]) ** i * np.poly1d([-1, 1]) ** (n - i)
        out[n + 1 - len(b.coeffs):] += b.coeffs
    return out


def params(np, ctrl, vs, eps=4e-6):
    """Parameters of the vertices along one Bezier curve, up to its end.

    Returns the list for the vertices that belong to it (NONE where none fits)."""
    size = max([1.0] + [abs(c) for p in ctrl for c in p])
    xs, ys = power(np, [p[0] for p in ctrl]), power(np, [p[1] for p in ctrl])

    def candidates(v):
        out = []
        for co, w in ((xs, v[0]), (ys, v[1])):
            c = co.copy()
            c[-1] -= w
            big = max(abs(c)) if len(c) else 0
            if big == 0:
                continue
            c[abs(c) < 1e-13 * big] = 0
            out += [float(r.real) for r in np.roots(c) if abs(r.imag) < 1e-2]
        good = []
        for u in [0.0, 1.0] + out:
            u = min(1.0, max(0.0, u))
            b = bez(ctrl, u)
            d = abs(b[0] - v[0]) + abs(b[1] - v[1])
            if d < eps * size and not any(abs(u - w) < 1e-6 for w in good):
                good.append(u)
        return sorted(good)

    # the chain of parameters, in order, with the shortest steps
    best, ends, longest = {0.0: (0.0, [])}, [], []
    for v in vs:
        new = {}
        for u in candidates(v):
            opts = [(c + (u - w) ** 2, path + [u]) for w, (c, path) in best.items() if u > w + 1e-7]
            if opts:
                new[u] = min(opts)
        if not new:
            break
        longest = min(new.values())[1]
        if 1.0 in new:
            # its end, unless the curve only passes there
            ends.append(new.pop(1.0))
        best = new
        if len(best) == 0:
            break
    if ends:
        return [int(round(u * E6)) for u in min(ends)[1]]
    return ([int(round(u * E6)) for u in longest] + [NONE])[:len(vs)]


class Exec:
    def __init__(self, rng):
        import gdspy
        import numpy
        self.g, self.np, self.rng = gdspy, numpy, rng
        self.ev = []
        self.c = None
        self.st = {"c": None, "q": None}

    def pts(self):
        return [[fx(p[0]), fx(p[1])] for p in self.c.points]

    def step(self, e, fn):
        exc, v = common.guarded(fn)
        e["ret"] = {"exc": exc, "same": e["op"] == "new" or e["op"] == "get" or v is self.c}
        if e["op"] == "new" and not exc:
            self.c = v
        e["ret"]["pts"] = [] if exc else self.pts()
        e["ret"]["v"] = [[fx(p[0]), fx(p[1])] for p in v] if e["op"] == "get" and not exc else []
        self.ev.append(e)
        return not exc

    # ------------------------------------------------------------ input
    def k(self, n=6):
        r = self.rng
        return r.choice([r.randint(-n, n) * U, r.randint(-4 * n, 4 * n) * U // 4, r.randint(-n * U, n * U)])

    def p(self, n=6):
        return [self.k(n), self.k(n)]

    def re(self, v):
        return v // U if v % U == 0 and self.rng.random() < 0.6 else v / U

    def args(self, ps):
        """coordinates as the caller may write them"""
        out = []
        cplx = self.rng.choice([0, 0, 0.5, 1])
        for p in ps:
            if self.rng.random() < cplx:
                out.append(complex(p[0] / U, p[1] / U))
            else:
                out += [self.re(p[0]), self.re(p[1])]
        return out

    def end(self):
        return [float(v) for v in self.c.points[-1]]

    # ------------------------------------------------------------ commands
    def new(self, p=None, tol=None):
        r = self.rng
        p = p or self.p()
        self.tol = tol or r.choice([1000, 1000, 1000, 500, 2000, 100, 5000])
        kw = {} if self.tol == 1000 and r.random() < 0.7 else {"tolerance": self.tol / U}
        a = self.args([p])
        if len(a) == 2 and a[1] == 0 and r.random() < 0.5:
            a = a[:1]
        self.step({"op": "new", "p": p, "tol": self.tol}, lambda: self.g.Curve(*a, **kw))

    def get(self):
        self.step({"op": "get", "tol": self.tol}, lambda: self.c.get_points())

    def cmd(self, name, ps=None, **more):
        """a command with points"""
        e = {"op": "cmd", "cmd": name, "tol": self.tol, "ps": ps, **more}
        n0 = len(self.c.points)
        o = self.end()
        last = dict(self.st)
        gs = self.sections(name, ps, o, last)
        if any(max(abs(p[0] - g[0][0]) + abs(p[1] - g[0][1]) for p in g) < 0.1 for g in gs):
            # a curve that stays where it is: any number of points would do
            return False
        a = self.args(ps)
        f = getattr(self.c, name)
        ok = self.step(e, lambda: f(*a))
        if name in "Ll":
            self.st = {"c": None, "q": None}
            return
        self.st = {"c": gs[-1][-2] if name in "CcSs" else None, "q": gs[-1][-2] if name in "QqTt" else None}
        e["us"] = self.certify(gs, n0) if ok else []

    def sections(self, name, ps, o, last):
        """control polygons of a command"""
        if name in "Ll":
            return []
        ab = [(p[0] / U + (o[0] if name.islower() else 0), p[1] / U + (o[1] if name.islower() else 0)) for p in ps]
        k = {"C": 3, "S": 2, "Q": 2, "T": 1}.get(name.upper(), len(ps))
        refl = last["c"] if name in "Ss" else last["q"]
        cur, gs = tuple(o), []
        for i in range(0, len(ab), k):
            g = [cur]
            if name in "SsTt":
                g.append((2 * cur[0] - refl[0], 2 * cur[1] - refl[1]) if refl else cur)
            g += ab[i:i + k]
            gs.append(g)
            cur, refl = g[-1], g[-2]
        return gs

    def certify(self, gs, n0):
        vs = [tuple(float(v) for v in p) for p in self.c.points[n0:]]
        us, i = [], 0
        for g in gs:
            u = params(self.np, g, vs[i:])
            us.append(u)
            i += len(u)
        return us

    def flat(self, name, xs):
        e = {"op": "cmd", "cmd": name, "tol": self.tol, "xs": xs}
        a = [self.re(v) for v in xs]
        self.st = {"c": None, "q": None}
        self.step(e, lambda: getattr(self.c, name)(*a))

    def arc(self):
        r = self.rng
        m = max(4, self.tol // 100)
        R = lambda: r.randint(m * 250, max(m * 250, 6000)) * 100
        a = R()
        b = R() if r.random() < 0.4 else a
        rot = angle(r) if r.random() < 0.4 else 0
        while True:
            a0, a1 = angle(r), angle(r) + r.choice([0, 0, 0, 7])
            if abs(a1 - a0) > 0.3:
                break
        e = {"op": "cmd", "cmd": "arc", "tol": self.tol, "r": [a, b], "rot": unit(rot), "e0": unit(a0 - rot), "e1": unit(a1 - rot),
             "ang": int(round((a1 - a0) * E6)), "es": [], "a": [repr(a0), repr(a1), repr(rot)]}
        n0 = len(self.c.points)
        o = self.end()
        rad = self.re(a) if a == b and r.random() < 0.7 else (self.re(a), self.re(b))
        kw = {"rotation": rot} if rot else {}
        self.st = {"c": None, "q": None}
        if not self.step(e, lambda: self.c.arc(rad, a0, a1, **kw)):
            return
        c, s = math.cos(rot), math.sin(rot)
        x0, y0 = a / U * math.cos(a0 - rot), b / U * math.sin(a0 - rot)
        for p in self.c.points[n0:]:
            dx, dy = float(p[0]) - o[0], float(p[1]) - o[1]
            x, y = dx * c + dy * s + x0, -dx * s + dy * c + y0
            e["es"].append([int(round(x / a * U * E6)), int(round(y / b * U * E6))])
            if max(map(abs, e["es"][-1])) > 2e6:
                e["es"][-1] = [0, 0]

    def smooth(self, name):
        """interpolation: the control points are found again from what was drawn"""
        r = self.rng
        n = r.choice([1, 2, 2, 3, 4])
        o = self.end()
        ps = []
        cur = [int(round(v * U)) for v in o]
        # points away from each other
        while len(ps) < n:
            q = [cur[0] + self.k(5), cur[1] + self.k(5)]
            if abs(q[0] - cur[0]) + abs(q[1] - cur[1]) > U and max(map(abs, q)) < 60 * U:
                ps.append(q)
                cur = q
        e0 = [int(round(v * U)) for v in o]
        first = ps[-1]
        cycle = n > 1 and r.random() < 0.35 and abs(first[0] - e0[0]) + abs(first[1] - e0[1]) > U
        kw = {}
        ang = []
        if r.random() < 0.5:
            # up to a quarter turn from the direction to the next point
            real, ang = [], []
            ch = [e0] + ps
            for i in range(n + 1):
                if r.random() < 0.5:
                    real.append(None)
                    ang.append([])
                    continue
                u, w = (ch[i], ch[i + 1]) if i < n else (ch[n - 1], ch[n])
                t = math.atan2(w[1] - u[1], w[0] - u[0]) + r.uniform(-1.2, 1.2)
                real.append(t)
                ang.append(unit(t))
            kw["angles"] = real
        if cycle:
            kw["cycle"] = True
        if r.random() < 0.2:
            kw["curl_start"] = r.choice([0, 0.5, 2])
        if r.random() < 0.2:
            kw["curl_end"] = r.choice([0, 0.5, 2])
        if r.random() < 0.25:
            kw["t_in"] = r.choice([1.5, [r.choice([1, 1.3, 2]) for _ in range(n + 1)]])
        if r.random() < 0.25:
            kw["t_out"] = r.choice([1.5, [r.choice([1, 1.3, 2]) for _ in range(n + 1)]])
        rel = [[p[0] / U - (o[0] if name == "i" else 0), p[1] / U - (o[1] if name == "i" else 0)] for p in ps]
        given = [[int(round(v * U)) for v in p] for p in rel]
        arg = r.choice([rel, [tuple(p) for p in rel], self.np.array(rel)])
        e = {"op": "cmd", "cmd": name, "tol": self.tol, "ps": given, "cycle": cycle, "angles": ang, "us": [], "gs": []}
        n0 = len(self.c.points)
        if not self.step(e, lambda: getattr(self.c, name)(arg, **kw)):
            return
        vs = [tuple(o)] + [tuple(float(v) for v in p) for p in self.c.points[n0:]]
        gs = self.hobby([tuple(o)] + [(p[0] / U, p[1] / U) for p in ps], kw) or self.fit(vs, [tuple(o)] + [(p[0] / U, p[1] / U) for p in ps] + ([tuple(o)] if cycle else []))
        if gs is None or any(abs(c) > 40 for g in gs for p in g for c in p):
            # beyond the numbers of the specification
            self.ev.pop()
            return False
        self.st = {"c": gs[-1][2], "q": None}
        e["gs"] = [[[fx(c) for c in p] for p in g] for g in gs]
        e["us"] = self.certify(gs, n0)

    def hobby(self, pts, kw):
        """the control points the library says it uses (checked against what it draws)"""
        try:
            from gdspy.hobby import _hobby
            a, b = _hobby(self.np.array(pts), **kw)
            ends = pts[1:] + pts[:1]
            return [[pts[i], tuple(a[i]), tuple(b[i]), ends[i]] for i in range(len(a))]
        except Exception:
            return None

    def fit(self, vs, through):
        """cubic Bezier curves through the vertices, split at the given points"""
        np = self.np
        out, i = [], 0
        for a, b in zip(through, through[1:]):
            j = i + 1
            while j < len(vs) and abs(vs[j][0] - b[0]) + abs(vs[j][1] - b[1]) > 1e-9:
                j += 1
            if j >= len(vs):
                return None
            seg = vs[i:j + 1]
            g = self.fit1(seg)
            if g is None:
                return None
            out.append(g)
            i = j
        return out

    def fit1(self, seg):
        """The cubic Bezier curve that the vertices were taken from, whose
        parameters are 0, 1/5, 1/2, 4/5, 1 and midpoints."""
        np = self.np
        # find parameters by bisection structure: unknown; fit by alternation
        v = np.array(seg)
        n = len(seg)
        best = None
        for start in starts(n):
            u = np.array(start)
            g = None
            for _ in range(400):
                B = np.stack([(1 - u) ** 3, 3 * u * (1 - u) ** 2, 3 * u * u * (1 - u), u ** 3], 1)
                rhs = v - np.outer(B[:, 0], v[0]) - np.outer(B[:, 3], v[-1])
                sol = np.linalg.lstsq(B[:, 1:3], rhs, rcond=None)[0]
                g = np.vstack((v[0], sol, v[-1]))
                P = B @ g
                d = 3 * (np.outer((1 - u) ** 2, g[1] - g[0]) + np.outer(2 * u * (1 - u), g[2] - g[1]) + np.outer(u * u, g[3] - g[2]))
                den = (d ** 2).sum(1)
                den[den == 0] = 1
                du = ((v - P) * d).sum(1) / den
                du[0] = du[-1] = 0
                err = abs(v - P).max()
                if err < 1e-9:
                    break
                u = np.clip(u + du, 0, 1)
            if best is None or err < best[0]:
                best = (err, g)
            if best[0] < 1e-8:
                break
        return [tuple(float(c) for c in p) for p in best[1]]

    def random(self):
        r = self.rng
        big = max(abs(v) for v in self.end()) > 50
        name = r.choice("LlHhVvCCccSSssQQqqTTttBBbbIi" + "aaa")
        if big:
            name = r.choice("LHVCQB")
        n = r.choice([1, 1, 2, 3])
        if name in "Ll":
            self.cmd(name, [self.p() for _ in range(n)])
        elif name in "HhVv":
            self.flat(name, [self.k() for _ in range(n)])
        elif name == "a":
            self.arc()
        elif name in "Ii":
            return self.smooth(name)
        elif name in "Bb":
            return self.cmd(name, self.apart(r.choice([1, 2, 3, 4, 5]), name))
        else:
            k = {"C": 3, "S": 2, "Q": 2, "T": 1}[name.upper()]
            return self.cmd(name, self.apart(k * n, name))

    def apart(self, n, name):
        """control points whose curve does not stay at one point"""
        o = [int(round(v * U)) for v in self.end()] if name.isupper() else [0, 0]
        out, prev = [], o
        while len(out) < n:
            q = self.p()
            if abs(q[0] - prev[0]) + abs(q[1] - prev[1]) > U // 2 and abs(q[0] - o[0]) + abs(q[1] - o[1]) > U // 2:
                out.append(q)
                prev = q
        return out


def starts(n):
    """likely parameters of n vertices"""
    yield [i / (n - 1) for i in range(n)]
    base = [0, 0.2, 0.5, 0.8, 1]
    if n == 5:
        yield base


def random_traces(job, cur):
    seed, count, length, pid = job
    rng = random.Random(seed)
    for _ in range(count):
        x = Exec(rng)
        x.new()
        while len(x.ev) < length and not x.ev[-1]["ret"]["exc"] and len(x.c.points) < 260:
            if rng.random() < 0.12 and len(x.ev) > 1:
                x.get()
            elif rng.random() < 0.06 and len(x.ev) > 2:
                # come back to the start, or nearly
                p = [fx(v) for v in x.c.points[0]]
                d = rng.choice([0, 0, x.tol // 2, 2 * x.tol])
                x.cmd("L", [[p[0] + d, p[1]]])
                if not x.ev[-1]["ret"]["exc"]:
                    x.get()
            elif x.random() is False:
                break
            if not x.ev[-1]["ret"]["exc"] and any(max(abs(p[0]), abs(p[1])) > 95 * U for p in x.ev[-1]["ret"]["pts"]):
                # beyond the numbers of the specification
                x.ev.pop()
                break
        yield {"ev": x.ev}


def replay(job, cur):
    """sequences that TLC generated from MCCurve.tla"""
    seed, cases = job
    rng = random.Random(seed)
    for case in cases:
        x = Exec(rng)
        x.new([U, U])
        for v in case:
            if x.ev[-1]["ret"]["exc"]:
                break
            if "xs" in v:
                x.flat(v["cmd"], v["xs"])
            else:
                if x.cmd(v["cmd"], v["ps"]) is False:
                    break
        if not x.ev[-1]["ret"]["exc"]:
            x.get()
        yield {"ev": x.ev}
