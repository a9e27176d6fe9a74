"""Drives the GDSII writers and readers and records the streams (G01-G06)."""
import datetime
import hashlib
import io
import math
import os
import random
import struct
import tempfile

import common

THETA = math.degrees(math.atan2(4, 3))
BAD = 1999999999
ANCHORS = ["nw", "n", "ne", "w", "o", "e", "sw", "s", "se"]
ANCODE = dict(zip(ANCHORS, (0, 1, 2, 4, 5, 6, 8, 9, 10)))
# unit and precision of a library: precision/unit in 1/10000, precision in pm, unit in pm
UNITS = [(1e-6, 1e-9, 10, 1000, 10 ** 6), (1e-6, 5e-10, 5, 500, 10 ** 6), (1e-6, 1e-8, 100, 10 ** 4, 10 ** 6),
         (1e-6, 1e-6, 10000, 10 ** 6, 10 ** 6), (1e-7, 1e-10, 10, 100, 10 ** 5), (1e-6, 1e-10, 1, 100, 10 ** 6),
         (1e-6, 3e-10, 3, 300, 10 ** 6), (1e-6, 7e-9, 70, 7000, 10 ** 6), (1e-6, 1.3e-8, 130, 13000, 10 ** 6)]
LIBUNITS = [(1e-6, 1e-9, 10 ** 6, 1000), (1e-9, 1e-9, 1000, 1000), (2e-6, 1e-9, 2 * 10 ** 6, 1000)]


def dbl(v):
    v = float(v)
    if v == 0:
        return {"s": 0, "m": [0] * 7, "x": 0}
    s = 1 if v < 0 else 0
    m, x = math.frexp(abs(v))
    n = int(m * 2 ** 53) << 3
    return {"s": s, "m": list(n.to_bytes(7, "big")), "x": x}


def undbl(d):
    return (-1) ** d["s"] * int.from_bytes(bytes(d["m"]), "big") * 2.0 ** (d["x"] - 56)


def real8(v):
    """exact encoding of a double (independent of the library)"""
    if v == 0:
        return bytes(8)
    d = dbl(v)
    e = -(-d["x"] // 4)
    n = int.from_bytes(bytes(d["m"]), "big") >> (4 * e - d["x"])
    return bytes([128 * d["s"] + e + 64]) + n.to_bytes(7, "big")


def around(v):
    return [dbl(v), dbl(math.nextafter(v, math.inf)), dbl(math.nextafter(v, -math.inf))]


def angle(q, th):
    return 90 * q + THETA * th


ANGS = [{"a": dbl(angle(q, th)), "q": q, "th": th} for q in range(4) for th in (-1, 0, 1)]


def txt(s):
    return list(s.encode("latin-1"))


def fx(v, sc=10000, tol=1e-2):
    x = float(v) * sc
    if not math.isfinite(x):
        return BAD
    r = round(x)
    if abs(x - r) > tol or abs(r) > 2 * 10 ** 9:
        return BAD
    return int(r)


def word(rng, lo=1, hi=9):
    return "".join(rng.choice("abcXYZ019_$") for _ in range(rng.randint(lo, hi)))


# ------------------------------------------------------------------ descriptions of layouts
class Gen:
    def __init__(self, rng, grid):
        self.rng = rng
        self.grid = grid     # only whole database units
        self.u = rng.choice(UNITS)

    def k(self, n=400):
        r = self.rng
        v = 4 * r.randint(-n, n)
        return v if self.grid else v + r.choice([-1, 0, 1])

    def props(self):
        r = self.rng
        if r.random() < 0.7:
            return []
        d = {}
        for _ in range(r.randint(1, 3)):
            d[r.choice([1, 2, 7, 126])] = word(r, 1, 8)
        return [[k, txt(v)] for k, v in d.items()]

    def tag(self):
        return self.rng.choice([0, 1, 2, 5, 63, 255, 300, 32767])

    def poly(self, big=False):
        r = self.rng
        n = 1 if big else r.choice([1, 1, 2, 3])
        ps = []
        for _ in range(n):
            if big:
                m = r.choice([8189, 8190, 8191, 8192, 16379])
                p = [[4 * i, 4 * (i * i % 97)] for i in range(m - 1)] + [[4 * (m // 2), -4000]]
            elif r.random() < 0.4:
                x, y = self.k(), self.k()
                w, h = 4 * r.randint(1, 60), 4 * r.randint(1, 60)
                p = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
            else:
                p = [[self.k(), self.k()] for _ in range(r.randint(3, 9))]
            ps.append(p)
        return {"k": "poly", "ps": ps, "ls": [self.tag() for _ in range(n)], "ds": [self.tag() for _ in range(n)],
                "pr": self.props()}

    def path(self):
        r = self.rng
        typ = r.choice(["flex", "flex", "robust"])
        gp = r.random() < 0.6
        n = r.choice([1, 1, 2, 3])
        x, y = self.k(), self.k()
        sp = [[x, y]]
        a = r.randint(0, 3)
        for _ in range(r.randint(1, 4) if gp or typ == "flex" else 1):
            d = 4 * r.randint(60, 200)
            dx, dy = [(d, 0), (0, d), (-d, 0), (0, -d)][a % 4]
            x, y = x + dx, y + dy
            sp.append([x, y])
            a += r.choice([1, 3])
        even = lambda v: v if self.grid else v + r.choice([-2, 0, 2])
        ws = [even(8 * r.randint(1, 4)) for _ in range(n)]
        os_ = [4 * r.randint(-8, 8) for _ in range(n)] if r.random() < 0.6 else [0] * n
        if typ == "robust" and len(sp) > 2:
            # robust paths only promise joints on the inner side
            d = [(sp[i + 1][0] - sp[i][0], sp[i + 1][1] - sp[i][1]) for i in range(len(sp) - 1)]
            turns = {(a[0] * b[1] > a[1] * b[0]) for a, b in zip(d, d[1:])}
            os_ = [0 if len(turns) > 1 else -abs(v) if True in turns else abs(v) for v in os_]
        ends = ["flush", "extended", "custom"] + (["round"] if gp else [])
        en = [r.choice(ends) for _ in range(n)]
        lo = -4 if gp else 0
        ex = [[4 * r.randint(lo, 9), 4 * r.randint(lo, 9)] if e == "custom" else [w // 2] * 2 if e == "extended" else [0, 0]
              for e, w in zip(en, ws)]
        return {"k": "path", "typ": typ, "gp": gp, "sp": sp, "ws": ws, "os": os_, "en": en, "ex": ex,
                "wt": r.random() < 0.7, "ls": [self.tag() for _ in range(n)], "ds": [self.tag() for _ in range(n)],
                "pr": self.props()}

    def place(self, e):
        r = self.rng
        e["xr"] = r.random() < 0.35
        e["hm"], e["ha"] = r.random() < 0.4, r.random() < 0.4
        e["m"] = dbl(r.choice([2.0, 0.5, 0.1, 1.0, r.uniform(0.01, 30)]) if e["hm"] else 1.0)
        return e

    def label(self):
        r = self.rng
        e = self.place({"k": "label", "s": txt(word(r, 1, 12)), "x": self.k(), "y": self.k(), "an": ANCODE[r.choice(ANCHORS)],
                        "ly": self.tag(), "tt": self.tag(), "pr": self.props()})
        e["a"] = dbl(r.choice([90.0, 45.0, -30.0, 359.5, r.uniform(-400, 800)]) if e["ha"] else 0.0)
        return e

    def ref(self, names):
        r = self.rng
        e = self.place({"k": "ref", "arr": r.random() < 0.5, "n": txt(r.choice(names + ["missing"])), "x": self.k(), "y": self.k(),
                        "pr": self.props(), "q": 0, "th": 0, "co": 1, "ro": 1, "sx": 0, "sy": 0})
        if e["ha"]:
            e["q"], e["th"] = r.randint(0, 3), r.choice([0, 0, 1, -1])
            e["a"] = dbl(angle(e["q"], e["th"]))
            if not e["arr"] and r.random() < 0.5:
                e["a"] = dbl(r.uniform(-400, 800))
        else:
            e["a"] = dbl(0.0)
        if e["arr"]:
            e["co"], e["ro"] = r.choice([1, 2, 3, 7]), r.choice([1, 2, 5])
            s = 20 if e["th"] else 4
            e["sx"], e["sy"] = s * r.randint(-30, 60), s * r.randint(-30, 60)
        return e

    def element(self, names):
        j = self.rng.random()
        return self.poly() if j < 0.3 else self.path() if j < 0.6 else self.label() if j < 0.75 else self.ref(names)


class Exec:
    def __init__(self):
        import gdspy
        import numpy
        self.g = gdspy
        self.np = numpy
        gdspy.library.use_current_library = False
        self.files = []
        self.ev = []
        self.libs = {}

    def build(self, els, name, u, cells):
        """the real cell for a description"""
        g, np = self.g, self.np
        c = g.Cell(name)
        co = lambda v: v * u[2] / 40000.0
        pt = lambda p: (co(p[0]), co(p[1]))
        for e in els:
            if e["k"] == "poly":
                ps = [np.array([pt(p) for p in q]) for q in e["ps"]]
                if len(ps) == 1:
                    o = g.Polygon(ps[0], e["ls"][0], e["ds"][0])
                else:
                    o = g.PolygonSet(ps)
                    o.layers, o.datatypes = list(e["ls"]), list(e["ds"])
            elif e["k"] == "path":
                ends = [(co(x[0]), co(x[1])) if en == "custom" else en for en, x in zip(e["en"], e["ex"])]
                kw = dict(ends=ends, layer=list(e["ls"]), datatype=list(e["ds"]), gdsii_path=e["gp"], width_transform=e["wt"],
                          tolerance=co(0.02))
                ws, os_ = [co(w) for w in e["ws"]], [co(v) for v in e["os"]]
                if e["typ"] == "flex":
                    o = g.FlexPath([pt(p) for p in e["sp"]], ws, offset=os_, **kw)
                else:
                    o = g.RobustPath(pt(e["sp"][0]), ws, offset=os_, **kw)
                    for p in e["sp"][1:]:
                        o.segment(pt(p))
                for t in e.get("tr", []):
                    if t == "scale":
                        o.scale(2)
                    elif t == "move":
                        o.translate(co(40), co(-20))
                    elif t == "turn":
                        o.rotate(math.pi / 2)
                    elif t == "flip":
                        o.transform(np.array((0, 0)), None, None, True)
            elif e["k"] == "label":
                an = [k for k, v in ANCODE.items() if v == e["an"]][0]
                o = g.Label(bytes(e["s"]).decode("ascii"), pt((e["x"], e["y"])), an, undbl(e["a"]) if e["ha"] else None,
                            undbl(e["m"]) if e["hm"] else None, e["xr"], e["ly"], e["tt"])
            else:
                nm = bytes(e["n"]).decode("ascii")
                kw = dict(rotation=undbl(e["a"]) if e["ha"] else None, magnification=undbl(e["m"]) if e["hm"] else None,
                          x_reflection=e["xr"], ignore_missing=True)
                t = cells.get(nm, nm)
                if e["arr"]:
                    o = g.CellArray(t, e["co"], e["ro"], pt((e["sx"], e["sy"])), pt((e["x"], e["y"])), **kw)
                else:
                    o = g.CellReference(t, pt((e["x"], e["y"])), **kw)
            for k, v in e["pr"]:
                o.properties[k] = bytes(v).decode("ascii")
            c.add(o)
        return c

    def do(self, e, fn):
        ret = {"exc": ""}
        exc, v = common.guarded(lambda: fn(ret))
        ret["exc"] = exc
        if exc:
            ret.setdefault("bytes", [])
        e["ret"] = ret
        if e["op"] in ("write", "load", "stamp"):
            self.files.append(bytes(ret["bytes"]))
        self.ev.append(e)
        return v if not exc else None

    def sink(self, rng):
        """where a stream goes: memory, an open file, a path or a Path"""
        import pathlib
        how = rng.choice(["mem", "mem", "file", "str", "path"])
        d = os.path.join(common.scratch(), "io%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "f.gds")
        if how == "mem":
            b = io.BytesIO()
            return b, lambda: b.getvalue()
        if how == "file":
            f = open(p, "wb")

            def get():
                f.close()
                with open(p, "rb") as h:
                    return h.read()
            return f, get

        def get2():
            with open(p, "rb") as h:
                return h.read()
        return (p if how == "str" else pathlib.Path(p)), get2

    def source(self, rng, b):
        import pathlib
        how = rng.choice(["mem", "mem", "str", "path"])
        if how == "mem":
            return io.BytesIO(b)
        d = os.path.join(common.scratch(), "io%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "g.gds")
        with open(p, "wb") as f:
            f.write(b)
        return p if how == "str" else pathlib.Path(p)

    # -------------------------------------------------------------- events
    def see(self, lib):
        """the projection of a library that was read"""
        g = self.g
        np = self.np
        P = lambda p: [fx(p[0]), fx(p[1])]
        pr = lambda o: [[int(k), txt(v) if isinstance(v, str) else [-1]] for k, v in (o.properties or {}).items()]
        I = lambda v: int(v) if int(v) == v else BAD

        def where(o):
            return {"xr": bool(o.x_reflection), "m": dbl(1.0 if o.magnification is None else o.magnification),
                    "a": dbl(0.0 if o.rotation is None else o.rotation), "pr": pr(o)}
        cells = []
        for name, c in lib.cells.items():
            els = []
            for o in c.polygons:
                for q, l, d in zip(o.polygons, o.layers, o.datatypes):
                    els.append({"k": "poly", "g": [P(p) for p in q], "l": I(l), "d": I(d), "pr": pr(o)})
            for o in c.paths:
                en = o.ends[0]
                if isinstance(o, g.FlexPath) and o.gdsii_path and o.n == 1 and not np.any(o.offsets) \
                        and np.all(o.widths == o.widths[0, 0]):
                    els.append({"k": "path", "g": [P(p) for p in o.points], "l": I(o.layers[0]), "d": I(o.datatypes[0]),
                                "w": fx(o.widths[0, 0]), "wt": bool(o.width_transform),
                                "en": [4, fx(en[0]), fx(en[1])] if isinstance(en, tuple) else
                                [{"flush": 0, "round": 1, "extended": 2}.get(en, 9)], "pr": pr(o)})
                else:
                    els.append({"k": "odd", "pr": []})
            for o in c.labels:
                els.append({"k": "label", "s": txt(o.text) if isinstance(o.text, str) else [-1], "p": P(o.position), "an": int(o.anchor),
                            "l": I(o.layer), "tt": I(o.texttype), **where(o)})
            for o in c.references:
                arr = isinstance(o, g.CellArray)
                t = o.ref_cell
                res = isinstance(t, g.Cell)
                nm = t.name if res else t
                if res and lib.cells.get(nm) is not t:
                    nm = nm + "!other"
                e = {"k": "array" if arr else "ref", "n": txt(nm), "res": res, "p": P(o.origin), **where(o)}
                if arr:
                    e.update(co=I(o.columns), ro=I(o.rows), sx=fx(o.spacing[0] * o.columns), sy=fx(o.spacing[1] * o.rows))
                els.append(e)
            cells.append({"name": txt(name) if c.name == name else txt(name + "!" + c.name), "els": els})
        return cells

    def read(self, rng, f, o, fileunit, libunit, old=()):
        g = self.g
        lib = g.GdsLibrary("fresh", unit=libunit[0], precision=libunit[1])
        for n in old:
            lib.add(g.Cell(n))
        kw = {}
        if o["rename"]:
            kw["rename"] = {bytes(a).decode(): bytes(b).decode() for a, b in o["rename"]}
        if o["pre"] or o["post"]:
            kw["rename_template"] = bytes(o["pre"]).decode() + "{name}" + bytes(o["post"]).decode()
        for k in ("layers", "datatypes", "texttypes"):
            if o[k]:
                kw[k] = {a: b for a, b in o[k]}
        e = {"op": "read", "f": f, "o": o, "angs": ANGS, "old": [txt(n) for n in old]}

        def run(ret):
            src = self.source(rng, self.files[f - 1])
            lib.read_gds(src, units=o["mode"], **kw)
            olds = set(old)
            ret["name"] = txt(lib.name)
            ret["lu"] = fx(lib.unit * 1e12, 1)
            ret["pm"] = fx(lib.precision * 1e12, 1)
            view = g.GdsLibrary("view")
            ret["cells"] = [c for c in self.see(lib) if bytes(c["name"]).decode("latin-1") not in olds]
        self.do(e, run)
        return lib

    def plain(self, u):
        return {"mode": "import", "user": u[2], "pm": u[3], "lu": u[4], "lp": u[3], "rename": [], "pre": [], "post": [],
                "layers": [], "datatypes": [], "texttypes": []}


def stamp(rng):
    return [rng.randint(1970, 2040), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]


def ties(e):
    """would any coordinate of a path be half way between two database units?"""
    sp = {v for p in e["sp"] for v in p}
    for w, o, x in zip(e["ws"], e["os"], e["ex"]):
        if e["gp"]:
            add = {0, o, -o}
            if w % 4 == 2 or any(v % 4 == 2 for v in x):
                return True
        else:
            add = {0, o + w // 2, o - w // 2, -o + w // 2, -o - w // 2, x[0], -x[0], x[1], -x[1]}
        if any((a + b) % 4 == 2 for a in sp for b in add):
            return True
    return False


def applied(gen, e):
    """path transformations before writing, applied to the description"""
    if e["k"] != "path":
        return e
    while True:
        f = applied1(gen, e)
        if not ties(f.get("after", f)):
            return f
        if ties(e):
            e = gen.path()


def applied1(gen, e):
    r = gen.rng
    out = dict(e)
    tr = []
    if r.random() < 0.35:
        for _ in range(r.randint(1, 2)):
            t = r.choice(["scale", "move", "turn"] + (["flip"] if e["typ"] == "robust" or not any(e["os"]) else []))
            tr.append(t)
            if t == "scale":
                out["sp"] = [[2 * x, 2 * y] for x, y in out["sp"]]
                out["os"] = [2 * v for v in out["os"]]
                if out["wt"] or not out["gp"]:
                    out["ws"] = [2 * v for v in out["ws"]]
                out["ex"] = [[2 * a, 2 * b] if en == "custom" else [w // 2] * 2 if en == "extended" else [0, 0]
                             for (a, b), en, w in zip(out["ex"], out["en"], out["ws"])]
            elif t == "move":
                out["sp"] = [[x + 40, y - 20] for x, y in out["sp"]]
            elif t == "turn":
                out["sp"] = [[-y, x] for x, y in out["sp"]]
            else:
                out["sp"] = [[x, -y] for x, y in out["sp"]]
                out["os"] = [-v for v in out["os"]]
    if not tr:
        return e
    return {"before": e, "tr": tr, "after": out}


def write_event(x, gen, rng, els_by_name, how, items, ts, lname, u, per_cell_ts):
    g = x.g
    cells = {}
    real = {}
    for n, els in els_by_name.items():
        src = [{**e["before"], "tr": e["tr"]} if "before" in e else e for e in els]
        # references may be to cells not built yet: those stay names until the end
        real[n] = x.build(src, n, u, real)
    desc = {n: [e["after"] if "before" in e else e for e in els] for n, els in els_by_name.items()}
    dt = lambda t: datetime.datetime(*t)
    its = []
    for it in items:
        if it["kind"] == "cell":
            its.append({"kind": "cell", "name": txt(it["n"]), "ts": it["ts"] if per_cell_ts else ts, "els": desc[it["n"]]})
        else:
            its.append({"kind": "bin", "file": it["file"], "name": txt(it["n"])})
    e = {"op": "write", "how": how, "name": txt(lname), "user": around(u[1] / u[0]), "meters": [dbl(u[1])], "ts": ts, "items": its}

    def run(ret):
        out, get = x.sink(rng)
        if how == "lib":
            lib = g.GdsLibrary(lname, unit=u[0], precision=u[1])
            lib.add(list(real.values()), include_dependencies=False)
            names = [it["n"] for it in items if it["kind"] == "cell"]
            bins = [it["data"] for it in items if it["kind"] == "bin"]
            kw = {}
            if names != list(lib.cells):
                kw["cells"] = [n if rng.random() < 0.5 else real[n] for n in names]
            if bins:
                kw["binary_cells"] = bins if rng.random() < 0.5 else iter(bins)
            lib.write_gds(out, timestamp=dt(ts), **kw)
        else:
            w = g.GdsWriter(out, lname, unit=u[0], precision=u[1], timestamp=dt(ts))
            for it in items:
                if it["kind"] == "cell":
                    w.write_cell(real[it["n"]], timestamp=dt(it["ts"] if per_cell_ts else ts))
                else:
                    w.write_binary_cells([it["data"]] if rng.random() < 0.5 else iter([it["data"]]))
            w.close()
        ret["bytes"] = list(get())
    x.do(e, run)


def layout(rng, gen, big=False):
    names = []
    for _ in range(rng.randint(1, 4)):
        n = word(rng, 1, 32 if rng.random() < 0.1 else 8)
        if n not in names:
            names.append(n)
    cells = {}
    for i, n in enumerate(names):
        # references go to the later cells and to missing ones
        later = names[:i]
        els = [gen.element(later) for _ in range(rng.randint(0, 5))]
        cells[n] = [applied(gen, e) for e in els]
    if big:
        cells[names[0]].append(gen.poly(True))
    return cells


def written(job, cur):
    """G01, G02, G05, G06: layouts written, read back, taken apart and put together"""
    seed, count, focus = job
    rng = random.Random(seed)
    for n in range(count):
        yield session(rng, focus, big=(n == 0 and rng.random() < 0.25))


def session(rng, focus, big=False):
    x = Exec()
    gen = Gen(rng, focus in ("G02", "G05", "G06") or rng.random() < 0.3)
    u = gen.u
    ts = stamp(rng)
    cells = layout(rng, gen, big and focus in ("G01", "G02"))
    lname = word(rng, 1, 10)
    names = list(cells)
    if focus == "G01" and rng.random() < 0.3:
        names = rng.sample(names, rng.randint(1, len(names)))
    items = [{"kind": "cell", "n": n, "ts": stamp(rng)} for n in names]
    write_event(x, gen, rng, cells, rng.choice(["lib", "lib", "writer"]), items, ts, lname, u, False)
    if focus == "G01":
        return {"ev": x.ev}
    if focus == "G02":
        lib = x.read(rng, 1, x.plain(u), u, (3e-6, 1e-9))
        e = {"op": "rewrite", "f": 1}

        def rew(ret):
            out, get = x.sink(rng)
            lib.write_gds(out, timestamp=datetime.datetime(*ts))
            ret["bytes"] = list(get())
        x.do(e, rew)
        return {"ev": x.ev}
    if focus == "G05":
        g = x.g
        for f in (1, 2):
            def un(ret):
                a, b = g.get_gds_units(x.source(rng, x.files[f - 1]))
                ret["lu"], ret["pm"] = fx(a * 1e12, 1), fx(b * 1e12, 1)
            x.do({"op": "units", "f": f, "pm": u[3], "lu": u[4]}, un)
            bins = {}

            def bi(ret):
                b = g.get_binary_cells(x.source(rng, x.files[f - 1]))
                bins.update(b)
                ret["cells"] = [{"name": txt(k), "bytes": list(v)} for k, v in b.items()]
            x.do({"op": "binary", "f": f}, bi)
            if f == 2:
                break
            more = layout(rng, gen)
            how = rng.choice(["lib", "writer"])
            items = [{"kind": "cell", "n": n, "ts": stamp(rng)} for n in more]
            taken = set(more)
            add = [{"kind": "bin", "file": 1, "n": n, "data": b} for n, b in bins.items()]
            rng.shuffle(add)
            for it in add:
                if it["n"] in taken:
                    continue
                if how == "lib":
                    items.append(it)
                else:
                    items.insert(rng.randint(0, len(items)), it)
            write_event(x, gen, rng, more, how, items, stamp(rng), word(rng), u, how == "writer")
            if not x.files[-1]:
                break
        return {"ev": x.ev}
    # G06
    g = x.g
    work = os.path.join(common.scratch(), "st%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    p = os.path.join(work, "s.gds")

    def put(b):
        with open(p, "wb") as f:
            f.write(b)

    def load(b):
        x.do({"op": "load"}, lambda ret: ret.__setitem__("bytes", list(b)))

    def hsh(i, eng):
        import pathlib

        def run(ret):
            put(x.files[i - 1])
            en = {"": None, "md5": hashlib.md5(), "sha256": hashlib.sha256()}[eng]
            ret["h"] = g.gdsii_hash(p if rng.random() < 0.5 else pathlib.Path(p), en)
        x.do({"op": "hash", "f": i, "eng": eng}, run)

    def setts(i):
        t = stamp(rng)

        def run(ret):
            import pathlib
            put(x.files[i - 1])
            g.set_gdsii_timestamp(p if rng.random() < 0.5 else pathlib.Path(p), datetime.datetime(*t))
            with open(p, "rb") as f:
                ret["bytes"] = list(f.read())
        x.do({"op": "stamp", "f": i, "ts": t}, run)

    load(mutate_data(rng, x.files[0]))
    if rng.random() < 0.4:
        # structures of one length, in several orders
        load(reorder(rng, x.files[rng.randint(0, len(x.files) - 1)], True))
        for _ in range(2):
            load(reorder(rng, x.files[-1]))
    if rng.random() < 0.5:
        load(x.files[0] + bytes(rng.choice([2, 4, 6, 200, 2048])) if rng.random() < 0.3 else reorder(rng, x.files[0]))
    for _ in range(rng.randint(2, 5)):
        i = rng.randint(1, len(x.files))
        if rng.random() < 0.4:
            setts(i)
        else:
            load(mutate_data(rng, x.files[i - 1]))
    eng = rng.choice(["", "", "md5", "sha256"])
    for i in range(1, len(x.files) + 1):
        hsh(i, eng)
    return {"ev": x.ev}


def records(b):
    i = 0
    while i + 4 <= len(b):
        n, t = struct.unpack(">HH", b[i:i + 4])
        if n == 0:
            return
        yield i, n, t
        i += n


def mutate_data(rng, b):
    """changes one byte of the data of the stream, staying legal"""
    b = bytearray(b)
    cand = [(i, n, t) for i, n, t in records(b) if t in (0x0D02, 0x0E02, 0x1606, 0x1602, 0x0F03, 0x1906, 0x0606, 0x0206, 0x2C06, 0x1B05)
            and n > 4]
    if not cand:
        return bytes(b)
    i, n, t = rng.choice(cand)
    if t & 0xFF == 6:
        k = i + 4
        b[k] = rng.choice(b"QRSTUV")
    else:
        k = i + n - 1
        b[k] = (b[k] + rng.randint(1, 100)) % 128
    return bytes(b)


def reorder(rng, b, twins=False):
    """the same structures in another order; with twins, one of them has a sibling
    that differs in its name only"""
    head, structs, cur, tail = b"", [], None, b""
    for i, n, t in records(b):
        d = b[i:i + n]
        if t == 0x0502:
            cur = d
        elif t == 0x0700:
            structs.append(cur + d)
            cur = None
        elif cur is not None:
            cur += d
        elif structs or t == 0x0400:
            tail += d
        else:
            head += d
    if twins and structs:
        t = bytearray(rng.choice(structs))
        for i, n, r in records(bytes(t)):
            if r == 0x0606 and n > 4:
                t[i + 4] = rng.choice([c for c in b"QRSTUV" if c != t[i + 4]])
        structs.append(bytes(t))
    rng.shuffle(structs)
    return head + b"".join(structs) + tail


# ------------------------------------------------------------------ foreign streams
def rec(t, d, p=b""):
    return struct.pack(">HBB", len(p) + 4, t, d) + p


def sh(*v):
    return struct.pack(">%dh" % len(v), *v)


def lg(*v):
    return struct.pack(">%dl" % len(v), *v)


def asc(s):
    s = s.encode("ascii")
    return s + b"\0" if len(s) % 2 else s


def foreign_element(rng, names, n=200):
    k = rng.choice(["boundary", "boundary", "path", "path", "sref", "aref", "text", "text", "box", "node"])
    P = lambda: (rng.randint(-n, n), rng.randint(-n, n))
    tag = lambda: rng.choice([0, 1, 2, 5, 255])
    out = rec({"boundary": 8, "path": 9, "sref": 10, "aref": 11, "text": 12, "box": 0x2D, "node": 0x15}[k], 0)
    if rng.random() < 0.15:
        out += rec(0x26, 1, sh(rng.randint(0, 3)))
    if rng.random() < 0.15:
        out += rec(0x2F, 3, lg(rng.randint(0, 99)))

    def xy(ps):
        flat = [c for p in ps for c in p]
        if rng.random() < 0.25 and len(ps) > 2 and k in ("boundary", "path"):
            c = 2 * rng.randint(1, len(ps) - 1)
            return rec(0x10, 3, lg(*flat[:c])) + rec(0x10, 3, lg(*flat[c:]))
        return rec(0x10, 3, lg(*flat))

    def trans(arr):
        if rng.random() < 0.35:
            return b"", (0, 0, False)
        xr = rng.random() < 0.5
        o = rec(0x1A, 1, struct.pack(">H", (0x8000 if xr else 0) | rng.choice([0, 0, 0, 6])))
        if rng.random() < 0.5:
            o += rec(0x1B, 5, real8(rng.choice([0.5, 2.0, 1.0, rng.uniform(0.1, 9)])))
        q = th = 0
        if rng.random() < 0.5:
            q, th = rng.randint(0, 3), rng.choice([0, 0, 1, -1])
            o += rec(0x1C, 5, real8(angle(q, th)))
        return o, (q, th, xr)
    if k == "boundary":
        g = [P() for _ in range(rng.randint(3, 7))]
        out += rec(0x0D, 2, sh(tag())) + rec(0x0E, 2, sh(tag())) + xy(g + g[:1])
    elif k == "box":
        (a, b), (c, d) = P(), P()
        g = [(a, b), (c, b), (c, d), (a, d)]
        out += rec(0x0D, 2, sh(tag())) + rec(0x2E, 2, sh(tag())) + xy(g + g[:1])
    elif k == "node":
        out += rec(0x0D, 2, sh(tag())) + rec(0x2A, 2, sh(tag())) + xy([P() for _ in range(rng.randint(1, 3))])
    elif k == "path":
        out += rec(0x0D, 2, sh(tag())) + rec(0x0E, 2, sh(tag()))
        pt = rng.choice([None, 0, 1, 2, 4])
        if pt is not None:
            out += rec(0x21, 2, sh(pt))
        if rng.random() < 0.75:
            out += rec(0x0F, 3, lg(rng.choice([0, 4, 10, -6])))
        if pt == 4:
            if rng.random() < 0.7:
                out += rec(0x30, 3, lg(rng.randint(-5, 20)))
            if rng.random() < 0.7:
                out += rec(0x31, 3, lg(rng.randint(-5, 20)))
        g = [P()]
        while len(g) < rng.randint(2, 6) or len(g) < 2:
            p = P()
            if p != g[-1]:
                g.append(p)
        out += xy(g)
    elif k in ("sref", "aref"):
        out += rec(0x12, 6, asc(rng.choice(names + ["nowhere", "old1"])))
        o, (q, th, xr) = trans(k == "aref")
        out += o
        if k == "sref":
            out += xy([P()])
        else:
            co, ro = rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
            out += rec(0x13, 2, sh(co, ro))
            f = 5 if th else 1
            vx, vy = f * rng.randint(-9, 20) * co, f * rng.randint(-9, 20) * ro

            def turn(vx, vy):
                if xr:
                    vy = -vy
                for _ in range(q):
                    vx, vy = -vy, vx
                if th:
                    s = 1 if th > 0 else -1
                    vx, vy = (3 * vx - s * 4 * vy) // 5, (s * 4 * vx + 3 * vy) // 5
                return vx, vy
            a = P()
            b, c = turn(vx, 0), turn(0, vy)
            out += xy([a, (a[0] + b[0], a[1] + b[1]), (a[0] + c[0], a[1] + c[1])])
    else:
        out += rec(0x0D, 2, sh(tag())) + rec(0x16, 2, sh(tag()))
        if rng.random() < 0.6:
            v = rng.choice([0, 1, 2, 4, 5, 6, 8, 9, 10])
            out += rec(0x17, 1, struct.pack(">H", v | rng.choice([0, 0x10, 0x20])))
        if rng.random() < 0.3:
            out += rec(0x21, 2, sh(rng.choice([0, 1, 2])))
        if rng.random() < 0.3:
            out += rec(0x0F, 3, lg(rng.choice([3, -2])))
        o, _ = trans(False)
        out += o + xy([P()]) + rec(0x19, 6, asc(word(rng, rng.choice([0, 1, 1, 1, 1, 1]), 9)))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        out += rec(0x2B, 2, sh(rng.choice([1, 2, 50]))) + rec(0x2C, 6, asc(word(rng, rng.choice([0, 1, 1, 1]), 7)))
    return out + rec(0x11, 0)


def foreign_stream(rng):
    u = rng.choice(UNITS)
    b = rec(0, 2, sh(rng.choice([3, 5, 600]))) + rec(1, 2, sh(*stamp(rng), *stamp(rng))) + rec(2, 6, asc(word(rng, 1, 12)))
    if rng.random() < 0.2:
        b += rec(0x22, 2, sh(3))
    b += rec(3, 5, real8(u[1] / u[0]) + real8(u[1]))
    names = []
    for _ in range(rng.randint(1, 4)):
        n = word(rng, 1, 8)
        if n not in names:
            names.append(n)
    for n in names:
        b += rec(5, 2, sh(*stamp(rng), *stamp(rng))) + rec(6, 6, asc(n))
        if rng.random() < 0.1:
            b += rec(0x34, 1, sh(1))
        for _ in range(rng.randint(0, 6)):
            b += foreign_element(rng, names)
        b += rec(7, 0)
    b += rec(4, 0)
    if rng.random() < 0.2:
        b += bytes(rng.choice([2, 4, 100, 2048]))
    return b, u, names


def options(rng, u, names):
    o = {"mode": rng.choice(["import", "skip", "convert"]), "user": u[2], "pm": u[3], "rename": [], "pre": [], "post": [],
         "layers": [], "datatypes": [], "texttypes": []}
    cand = [l for l in LIBUNITS if (u[3] * 10000) % l[2] == 0 and u[3] * 10000 // l[2] <= 10 ** 5]
    lu = rng.choice(cand or [LIBUNITS[0]])
    if not cand and o["mode"] == "convert":
        o["mode"] = "skip"
    o["lu"], o["lp"] = lu[2], lu[3]
    if rng.random() < 0.5:
        free = ["new0", "new1"]
        for i, n in enumerate(rng.sample(names + ["nowhere"], min(2, len(names)))):
            o["rename"].append([txt(n), txt(free[i])])
        if len(names) > 1 and rng.random() < 0.3:
            o["rename"] = [[txt(names[0]), txt(names[1])], [txt(names[1]), txt(names[0])]]
    if rng.random() < 0.4:
        o["pre"], o["post"] = txt(rng.choice(["", "p-"])), txt(rng.choice(["", "-s"]))
    for k in ("layers", "datatypes", "texttypes"):
        if rng.random() < 0.5:
            o[k] = [[a, rng.choice([0, 1, 2, 5, 77])] for a in rng.sample([0, 1, 2, 5, 255, 9], rng.randint(1, 4))]
    return o, lu


def clash(o, names):
    """do two cells end with one name, or with an old one?"""
    m = {bytes(a).decode(): bytes(b).decode() for a, b in o["rename"]}
    out = [m[n] if n in m else bytes(o["pre"]).decode() + n + bytes(o["post"]).decode() for n in names]
    return len(set(out)) < len(out)


def foreign(job, cur):
    seed, count = job
    rng = random.Random(seed)
    for _ in range(count):
        x = Exec()
        b, u, names = foreign_stream(rng)
        x.do({"op": "load"}, lambda ret: ret.__setitem__("bytes", list(b)))
        for _ in range(rng.randint(1, 3)):
            o, lu = options(rng, u, names)
            if clash(o, names):
                continue
            x.read(rng, 1, o, u, lu, ("old1", "old2") if rng.random() < 0.3 else ())
        yield {"ev": x.ev}


def replay(job, cur):
    """streams generated by TLC"""
    seed, streams = job
    rng = random.Random(seed)
    for s in streams:
        x = Exec()
        x.do({"op": "load"}, lambda ret: ret.__setitem__("bytes", list(s["bytes"])))
        u = UNITS[0]
        names = ["A", "BB"]
        o, lu = options(rng, u, names)
        if clash(o, names):
            o, lu = dict(x.plain(u)), LIBUNITS[0]
        x.read(rng, 1, o, u, lu)
        yield {"ev": x.ev}


# ------------------------------------------------------------------ real numbers
def some_double(rng):
    k = rng.random()
    if k < 0.2:
        # around powers of two and sixteen
        v = 2.0 ** rng.randint(-255, 250)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            v = math.nextafter(v, rng.choice([0, math.inf]))
    elif k < 0.4:
        v = rng.choice([1, 3, 7, 0.1, 1e-3, 1e-9, 1e-6, 5e-10, 360, 90, 45, 1 / 3, 16, 255, 256, 4095.5, 1e-12])
        v *= rng.choice([1, 1, 2, 10, 0.1])
    elif k < 0.7:
        v = rng.uniform(0, 1) * 10.0 ** rng.randint(-30, 30)
    else:
        v = math.ldexp(rng.getrandbits(53) | (1 << 52), rng.randint(-300, 190))
    if v == 0:
        v = 1.0
    return -v if rng.random() < 0.4 else v


def reals(job, cur):
    seed, count = job
    rng = random.Random(seed)
    for _ in range(count):
        x = Exec()
        g = x.g
        for _ in range(20):
            if rng.random() < 0.5:
                v = some_double(rng)
                lim = 16.0 ** 63
                if not (16.0 ** -65 <= abs(v) < lim):
                    v = 1.5
                if rng.random() < 0.03:
                    v = 0.0
                as_ang = rng.random() < 0.5

                def w(ret):
                    b = io.BytesIO()
                    kw = {"rotation": v} if as_ang else {"magnification": v}
                    o = g.Label("x", (0, 0), **kw) if rng.random() < 0.5 else g.CellReference("x", (0, 0), ignore_missing=True, **kw)
                    o.to_gds(b, 1000)
                    ret["bytes"] = []
                    for i, n, t in records(b.getvalue()):
                        if t == (0x1C05 if as_ang else 0x1B05):
                            ret["bytes"] = list(b.getvalue()[i + 4:i + n])
                x.do({"op": "real", "v": dbl(v)}, w)
            else:
                k = rng.random()
                m = rng.getrandbits(56)
                if k < 0.3:
                    m >>= rng.randint(1, 55)      # not normalised
                elif k < 0.5:
                    m = (rng.getrandbits(53) << 3 | rng.choice([3, 4, 5, 7])) & (2 ** 56 - 1)
                elif k < 0.6:
                    m = 2 ** 56 - rng.randint(1, 20)
                elif k < 0.63:
                    m = 0
                r8 = bytes([rng.randint(0, 255)]) + m.to_bytes(7, "big")
                as_ang = rng.random() < 0.5
                stream = (rec(0, 2, sh(600)) + rec(1, 2, sh(*([1] * 12))) + rec(2, 6, b"li") + rec(3, 5, real8(1e-3) + real8(1e-9))
                          + rec(5, 2, sh(*([1] * 12))) + rec(6, 6, b"ce") + rec(10, 0) + rec(0x12, 6, b"to")
                          + rec(0x1A, 1, sh(0)) + rec(0x1C if as_ang else 0x1B, 5, r8) + rec(0x10, 3, lg(0, 0)) + rec(0x11, 0)
                          + rec(7, 0) + rec(4, 0))

                def r(ret):
                    lib = g.GdsLibrary("l").read_gds(io.BytesIO(stream))
                    o = lib.cells["ce"].references[0]
                    ret["v"] = dbl(o.rotation if as_ang else o.magnification)
                x.do({"op": "unreal", "b": list(r8)}, r)
        yield {"ev": x.ev}
