"""Drives real cells, elements and references and records what they show (C03-C11)."""
import io
import itertools
import math
import random

import common

SC = 1000
BAD = 1999999999
THETA = math.degrees(math.atan2(4, 3))
LAYERS = [0, 1, 2, 5]
TYPES = [0, 1, 3]
ANCHORS = ["nw", "n", "ne", "w", "o", "e", "sw", "s", "se"]


def fx(v, sc=SC, tol=2e-3):
    x = float(v) * sc
    if not math.isfinite(x):
        return BAD
    r = round(x)
    if abs(x - r) > tol or abs(r) > 10 ** 9:
        return BAD
    return int(r)


def pts(p):
    return [[fx(q[0]), fx(q[1])] for q in p]


def angle(deg):
    if deg is None:
        return [0, 0]
    deg = float(deg)
    for th in (0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6):
        r = (deg - th * THETA) / 90
        if abs(r - round(r)) < 1e-7:
            return [int(round(r)) % 4, th]
    return [9, 9]


def mag(m):
    return 64 if m is None else fx(m, 64, 1e-6)


def num(v):
    """small integers such as layers"""
    try:
        i = int(v)
    except Exception:
        return BAD
    return i if i == v else BAD


def props(el):
    p = getattr(el, "properties", {})
    if not p:
        return ""
    return "|".join("%s=%s" % (k, p[k]) for k in sorted(p))


def deg(q, th):
    return None if (q == 0 and th == 0) else 90 * q + THETA * th


class Exec:
    def __init__(self):
        import gdspy
        import numpy
        self.g = gdspy
        self.np = numpy
        gdspy.library.use_current_library = False
        self.cells = []
        self.cid = {}
        self.els = []
        self.eid = {}
        self.kind = []
        self.ev = []

    # ---------------------------------------------------------------- observation
    def scan(self):
        lists = []
        for c in self.cells:
            d = {"name": c.name}
            for key, lst, kind in (("P", c.polygons, "poly"), ("H", c.paths, "path"),
                                   ("L", c.labels, "label"), ("R", c.references, "ref")):
                ids = []
                for e in lst:
                    if id(e) not in self.eid:
                        self.els.append(e)
                        self.eid[id(e)] = len(self.els)
                        self.kind.append(kind)
                    ids.append(self.eid[id(e)])
                d[key] = ids
            lists.append(d)
        return lists

    def shape(self, g, l, d):
        return {"g": pts(g), "l": num(l), "d": num(d)}

    def see_set(self, p):
        n = len(p.polygons)
        if len(p.layers) != n or len(p.datatypes) != n:
            return {"pr": "lengths differ", "s": []}
        return {"pr": props(p), "s": [self.shape(g, l, d) for g, l, d in zip(p.polygons, p.layers, p.datatypes)]}

    def see_path(self, p):
        # the outlines are asked from a copy: looking must not fill caches
        import copy
        q = copy.deepcopy(p)
        q._polygon_dict = None
        s = []
        for (l, d), gs in q.get_polygons(True).items():
            s.extend(self.shape(g, l, d) for g in gs)
        return {"pr": props(p), "s": s}

    def see_path_raw(self, p):
        s = []
        for (l, d), gs in p.get_polygons(True).items():
            s.extend(self.shape(g, l, d) for g in gs)
        return {"pr": props(p), "s": s}

    def see_label(self, b):
        q = angle(b.rotation)
        an = {self.g.Label._anchor[k]: k for k in ANCHORS}.get(b.anchor, "?")
        return {"pr": props(b), "t": str(b.text), "x": fx(b.position[0]), "y": fx(b.position[1]),
                "an": an, "ly": num(b.layer), "tt": num(b.texttype), "q": q[0], "th": q[1],
                "m": mag(b.magnification), "xr": bool(b.x_reflection)}

    def see_ref(self, r):
        q = angle(r.rotation)
        arr = isinstance(r, self.g.CellArray)
        t = r.ref_cell
        iscell = isinstance(t, self.g.Cell)
        return {"pr": props(r), "o": self.cid.get(id(t), -1) if iscell else 0, "n": "" if iscell else str(t),
                "x": fx(r.origin[0]), "y": fx(r.origin[1]), "q": q[0], "th": q[1],
                "m": mag(r.magnification), "xr": bool(r.x_reflection),
                "co": r.columns if arr else 1, "ro": r.rows if arr else 1,
                "sx": fx(r.spacing[0]) if arr else 0, "sy": fx(r.spacing[1]) if arr else 0}

    def see(self, i):
        k, e = self.kind[i], self.els[i]
        f = {"poly": self.see_set, "path": self.see_path, "label": self.see_label, "ref": self.see_ref}[k]
        return {"k": k, **f(e)}

    # ---------------------------------------------------------------- making
    def target(self, e):
        return self.cells[e["o"] - 1] if e["o"] else e["n"]

    def make(self, e):
        g, np = self.g, self.np
        op = e["op"]
        if op == "poly":
            ps, ls, ds = e["ps"], e["ls"], e["ds"]
            if len(ps) == 1:
                o = g.Polygon(ps[0], layer=ls[0], datatype=ds[0])
            elif len(set(ls)) == 1 and len(set(ds)) == 1 and e["c"] % 2:
                o = g.PolygonSet(ps, layer=ls[0], datatype=ds[0])
            else:
                o = g.PolygonSet(ps)
                o.layers = list(ls)
                o.datatypes = list(ds)
        elif op == "path":
            ends = []
            for w, (a, b), en in zip(e["ws"], e["ex"], e["en"]):
                ends.append((a, b) if en == "custom" else en)
            kw = dict(ends=ends, layer=list(e["ls"]), datatype=list(e["ds"]), gdsii_path=e["gp"])
            if e["typ"] == "flex":
                o = g.FlexPath(e["sp"], list(e["ws"]), offset=list(e["os"]), **kw)
            else:
                o = g.RobustPath(e["sp"][0], list(e["ws"]), offset=list(e["os"]), **kw)
                for p in e["sp"][1:]:
                    o.segment(p)
        elif op == "label":
            o = g.Label(e["t"], (e["x"], e["y"]), e["an"], deg(e["q"], e["th"]),
                        None if e["m"] == 64 else e["m"] / 64, e["xr"], e["ly"], e["tt"])
        else:
            kw = dict(rotation=e.get("deg", deg(e["q"], e["th"])), magnification=None if e["m"] == 64 else e["m"] / 64,
                      x_reflection=e["xr"], ignore_missing=True)
            if e["arr"]:
                o = g.CellArray(self.target(e), e["co"], e["ro"], (e["sx"], e["sy"]), (e["x"], e["y"]), **kw)
            else:
                o = g.CellReference(self.target(e), (e["x"], e["y"]), **kw)
        if e["pr"]:
            o.properties[1] = e["pr"][2:]
        c = self.cells[e["c"] - 1]
        f = e["form"]
        c.add(o if f == "one" else [o] if f == "list" else (x for x in [o]))

    def edit(self, e):
        np = self.np
        x = self.els[e["e"] - 1]
        k = self.kind[e["e"] - 1]
        f = e["f"]
        if f == "translate":
            x.translate(e["x"], e["y"])
        elif f == "rotate":
            x.rotate(e["v"] * math.pi / 2, (e["x"], e["y"]))
        elif f == "scale":
            if k == "poly":
                x.scale(e["v"], center=(e["x"], e["y"]))
            else:
                x.scale(e["v"], center=(e["x"], e["y"]))
        elif f == "mirror":
            x.mirror((0, e["y"]), (5, e["y"]))
        elif f == "layer":
            if k == "label":
                x.layer = e["v"]
            else:
                x.layers[e["i"] - 1] = e["v"]
        elif f == "datatype":
            if k == "label":
                x.texttype = e["v"]
            else:
                x.datatypes[e["i"] - 1] = e["v"]
        elif f == "props":
            x.properties[1] = e["pv"]
        elif f == "nudge":
            a = x.polygons[e["i"] - 1]
            a[:] = a + np.array((e["x"], e["y"]))
        elif f == "text":
            x.text = e["p"]
        elif f == "refl":
            x.x_reflection = not x.x_reflection
        elif f == "quarter":
            x.rotation = (0 if x.rotation is None else x.rotation) + 90 * e["v"]
        elif f == "mag2":
            x.magnification = (1 if x.magnification is None else x.magnification) * 2
        elif f == "grid":
            x.columns, x.rows = e["v"], e["i"]

    def test(self, e, calls):
        t = e["test"]
        by = t["by"]

        def poly(g, l, d):
            calls.append(self.shape(g, l, d))
            if by == "layer":
                return l == t["v"]
            if by == "datatype":
                return d == t["v"]
            if by == "pair":
                return l == t["v"] and d == t["v2"]
            if by == "left":
                return any(p[0] < t["v"] - 1e-6 for p in g)
            return by == "all"

        def path(p):
            calls.append(self.eid.get(id(p), -1))
            if by == "nth":
                return len(calls) in t["s"]
            s = self.see_path(p)["s"]
            if by == "layer":
                return any(x["l"] == t["v"] for x in s)
            if by == "datatype":
                return any(x["d"] == t["v"] for x in s)
            if by == "pair":
                return any(x["l"] == t["v"] and x["d"] == t["v2"] for x in s)
            if by == "left":
                return any(q[0] < t["v"] * SC for x in s for q in x["g"])
            return by == "all"

        def label(b):
            calls.append(self.eid.get(id(b), -1))
            if by == "nth":
                return len(calls) in t["s"]
            if by == "layer":
                return b.layer == t["v"]
            if by == "datatype":
                return b.texttype == t["v"]
            if by == "pair":
                return b.layer == t["v"] and b.texttype == t["v2"]
            if by == "left":
                return b.position[0] < t["v"] - 1e-6
            return by == "all"

        return {"rmpoly": poly, "rmpath": path, "rmlabel": label}[e["op"]]

    def lib(self):
        lib = self.g.GdsLibrary("all")
        lib.add(self.cells, include_dependencies=False)
        return lib

    # ---------------------------------------------------------------- one event
    def run(self, e, ret):
        g, np = self.g, self.np
        op = e["op"]
        if op == "cell":
            c = g.Cell(e["name"])
            self.cells.append(c)
            self.cid[id(c)] = len(self.cells)
        elif op in ("poly", "path", "label", "ref"):
            self.make(e)
        elif op == "share":
            self.cells[e["c"] - 1].add(self.els[e["e"] - 1])
        elif op == "edit":
            self.edit(e)
        elif op == "copy":
            w = e["w"]
            kw = {}
            if w["on"]:
                if w["tx"]:
                    kw["translation"] = (w["x"], w["y"])
                if w["rt"]:
                    kw["rotation"] = math.radians(90 * w["q"] + THETA * w["th"])
                if w["sl"]:
                    kw["scale"] = w["m"] / 64
                kw["x_reflection"] = w["xr"]
            c = self.cells[e["c"] - 1].copy(e["name"], deep_copy=e["deep"], **kw)
            self.cells.append(c)
            self.cid[id(c)] = len(self.cells)
        elif op == "flatten":
            v = lambda x: None if x < 0 else x
            self.cells[e["c"] - 1].flatten(v(e["sl"]), v(e["sd"]), v(e["st"]))
        elif op in ("rmpoly", "rmpath", "rmlabel"):
            calls = []
            f = self.test(e, calls)
            c = self.cells[e["c"] - 1]
            {"rmpoly": c.remove_polygons, "rmpath": c.remove_paths, "rmlabel": c.remove_labels}[op](f)
            ret["calls" if op == "rmpoly" else "ids"] = calls
        elif op == "rebind":
            a, b = self.cells[e["a"] - 1], self.cells[e["b"] - 1]
            self.lib().replace_references(a if e["obj"] else a.name, b)
        elif op == "rmref":
            self.lib().remove(self.cells[e["a"] - 1])
        elif op == "badadd":
            self.cells[e["c"] - 1].add([g.Rectangle((0, 0), (1, 1)), g.Label("bad", (0, 0)), 5])
        elif op == "dump":
            ret["cells"] = self.scan()
            ret["els"] = [self.see(i) for i in range(len(self.els))]
        else:
            self.query(e, ret)

    def query(self, e, ret):
        op = e["op"]
        x = self.cells[e["c"] - 1] if e.get("c") else self.els[e["e"] - 1] if e.get("e") else None
        d = None if e.get("depth", 99) == 99 else e["depth"]
        if op == "gp":
            if e["spec"] == "none":
                ret["polys"] = [pts(p) for p in x.get_polygons(depth=d)]
            elif e["spec"] == "key":
                ret["polys"] = [pts(p) for p in x.get_polygons((e["kl"], e["kd"]), d)]
            else:
                r = x.get_polygons(True, d)
                ks = {k: ("@" + k if isinstance(k, str) else "%d/%d" % k) for k in r}
                ret["keys"] = sorted(ks.values())
                ret["items"] = [{"k": ks[k], "g": pts(p)} for k in r for p in r[k]]
        elif op == "gps":
            ret["sets"] = [self.see_set(p) for p in x.get_polygonsets(d)]
        elif op == "gpaths":
            ret["sets"] = [self.see_path_raw(p) for p in x.get_paths(d)]
        elif op == "glabels":
            ret["labels"] = [self.see_label(b) for b in x.get_labels(d, e["tr"])]
        elif op == "area":
            ret["v"] = fx(x.area(), 128)
        elif op == "areaall":
            ret["items"] = [{"l": num(k[0]), "d": num(k[1]), "v": fx(v, 128)} for k, v in x.area(True).items()]
        elif op == "bbox":
            b = x.get_bounding_box()
            ret["b"] = [] if b is None else [fx(b[0][0]), fx(b[0][1]), fx(b[1][0]), fx(b[1][1])]
        elif op == "boxof":
            b = x.get_bounding_box()
            f = lambda v: int(round(float(v) * SC))
            ret["b"] = [] if b is None else [f(b[0][0]), f(b[0][1]), f(b[1][0]), f(b[1][1])]
            ret["polys"] = [[[f(q[0]), f(q[1])] for q in p] for p in x.get_polygons()]
        elif op in ("layers", "datatypes", "texttypes"):
            ret["s"] = sorted(num(v) for v in getattr(x, "get_" + op)())
        elif op == "classes":
            a, b = x.get_svg_classes()
            ret["ld"] = sorted([num(k[0]), num(k[1])] for k in a)
            ret["lt"] = sorted([num(k[0]), num(k[1])] for k in b)
        elif op == "deps":
            ret["s"] = sorted(self.cid.get(id(c), -1) for c in x.get_dependencies(e["rec"]))
        elif op == "write":
            ret["same"] = self.write(x) == self.write(x)
        elif op == "svg":
            self.svgdoc(e, x, ret)
        elif op == "abuse":
            self.abuse(e, x, d)
        else:
            raise KeyError(op)

    def write(self, x):
        import datetime
        b = io.BytesIO()
        x.to_gds(b, 1000, timestamp=datetime.datetime(2020, 1, 2, 3, 4, 5))
        s = io.StringIO()
        if self.svg:
            x.write_svg(s, 10, precision=6)
            # the order of the definitions is that of a set
            s = "\n".join(sorted(s.getvalue().splitlines()))
        else:
            x.to_svg(s, 10, 6, "")
            s = s.getvalue()
        return b.getvalue(), s

    svg = False

    def svgdoc(self, e, x, ret):
        """write the document and take it apart"""
        import pathlib
        import shutil
        import tempfile
        sty = {tuple(k["k"]): dict((a, b) for a, b in k["body"]) for k in e["sty"] if not k["txt"]}
        fnt = {tuple(k["k"]): dict((a, b) for a, b in k["body"]) for k in e["sty"] if k["txt"]}
        pad = "%d%%" % e["pad"] if e["pct"] else str(e["pad"] * e["sc"]) if e["str"] else e["pad"] * e["sc"]
        kw = dict(scaling=e["sc"], style=sty or None, fontstyle=fnt or None,
                  background="#123" if e["bg"] else None, pad=pad, precision=e["prec"] or None)
        tmp = tempfile.mkdtemp(dir=common.scratch())
        try:
            f = pathlib.Path(tmp, "o.svg")
            if e["to"] == "stream":
                s = io.StringIO()
                x.write_svg(s, **kw)
                s = s.getvalue()
            else:
                x.write_svg(f if e["to"] == "path" else str(f), **kw)
                s = f.read_text() if f.exists() else ""
        finally:
            shutil.rmtree(tmp)
        ret["empty"] = s == ""
        ret["bad"] = ""
        ret["doc"] = {"box": [], "size": [], "rect": [], "css": [], "defs": [], "items": []}
        if s:
            try:
                ret["doc"] = Svg(e["sc"]).document(s)
            except Exception as ex:
                ret["bad"] = "%s %s" % (type(ex).__name__, str(ex)[:80])

    def abuse(self, e, x, d):
        """ask, and then spoil everything that was returned"""
        w = e["what"]

        def spoil(v):
            np = self.np
            if isinstance(v, dict):
                for k in list(v):
                    spoil(v[k])
                v.clear()
            elif isinstance(v, list):
                for y in v:
                    spoil(y)
                v.clear()
            elif isinstance(v, tuple):
                for y in v:
                    spoil(y)
            elif isinstance(v, set):
                v.clear()
                v.add("x")
            elif isinstance(v, np.ndarray):
                if v.dtype.kind in "fi":
                    v += 1000
            elif isinstance(v, self.g.PolygonSet):
                v.translate(7, 7)
                for i in range(len(v.polygons)):
                    spoil(v.polygons[i])
                    v.layers[i] = 99
                    v.datatypes[i] = 99
                v.properties[3] = "spoilt"
            elif isinstance(v, (self.g.FlexPath, self.g.RobustPath)):
                v.translate(7, 7)
                v.layers[0] = 98
                v.properties[3] = "spoilt"
            elif isinstance(v, self.g.Label):
                v.translate(7, 7)
                v.position += 5
                v.text = "spoilt"
                v.properties[3] = "spoilt"

        if w == "gp":
            spoil(x.get_polygons(depth=d))
        elif w == "gpall":
            spoil(x.get_polygons(True, d))
        elif w == "gpkey":
            spoil(x.get_polygons((e["kl"], e["kd"]), d))
        elif w == "gps":
            spoil(x.get_polygonsets(d))
        elif w == "gpaths":
            spoil(x.get_paths(d))
        elif w == "glabels":
            spoil(x.get_labels(d, e["tr"]))
        elif w == "bbox":
            b = x.get_bounding_box()
            if b is not None:
                b += 100
        elif w == "areaall":
            spoil(x.area(True))
        elif w == "sets" and isinstance(x, self.g.Cell):
            spoil(x.get_layers())
            spoil(x.get_datatypes())
            spoil(x.get_texttypes())
            spoil(x.get_dependencies(e["tr"]))
            spoil(x.get_svg_classes())
        elif w == "path" and isinstance(x, self.g.Cell):
            for p in x.paths:
                spoil(p.get_polygons())
                spoil(p.get_polygons(True))
                s = p.to_polygonset()
                if s is not None:
                    spoil(s)
                p.area(True)
        elif w == "poly" and isinstance(x, self.g.Cell):
            for p in x.polygons:
                b = p.get_bounding_box()
                if b is not None:
                    b += 100
                spoil(p.area(True))

    def step(self, e):
        e = dict(e)
        ret = {"exc": ""}
        exc, _ = common.guarded(lambda: self.run(e, ret))
        ret["exc"] = exc
        if e["op"] in MUT:
            exc2, v = common.guarded(self.scan)
            ret["lists"] = v if not exc2 else []
        e["ret"] = ret
        self.ev.append(e)
        return exc


class Svg:
    """An SVG document as data: numbers divided by the scaling, nothing evaluated."""

    def __init__(self, scaling):
        self.sc = scaling

    def n(self, s):
        return fx(float(s) / self.sc)

    def b(self, s):
        return fx(float(s) / self.sc, 100 * SC, 0.2)

    def tf(self, s):
        import re
        out = []
        s = s or ""
        if re.sub(r"\w+\s*\([^()]*\)", "", s).strip(" ,"):
            raise ValueError("transform " + s)
        for f, a in re.findall(r"(\w+)\s*\(([^()]*)\)", s):
            v = [float(x) for x in re.split(r"[\s,]+", a.strip())]
            m = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0]
            if f == "translate":
                m[4], m[5] = v[0], v[1] if len(v) > 1 else 0.0
            elif f == "rotate" and len(v) == 1:
                c, t = math.cos(math.radians(v[0])), math.sin(math.radians(v[0]))
                m[:4] = [c, t, -t, c]
            elif f == "scale":
                m[0], m[3] = v[0], v[1] if len(v) > 1 else v[0]
            elif f == "matrix":
                m = v
            else:
                raise ValueError("transform " + f)
            k = math.hypot(m[0], m[1])
            xr = m[0] * m[3] - m[1] * m[2] < 0
            e = -1 if xr else 1
            if abs(m[2] + e * m[1]) > 1e-6 * k or abs(m[3] - e * m[0]) > 1e-6 * k:
                raise ValueError("transform " + s)
            q = angle(math.degrees(math.atan2(m[1], m[0])))
            out.append({"x": self.n(m[4]), "y": self.n(m[5]), "q": q[0], "th": q[1], "m": fx(k, 64, 1e-4), "xr": xr})
            if BAD in out[-1].values():
                raise ValueError("transform " + s)
        return out

    def items(self, el):
        out = []
        for c in el:
            tag = c.tag.split("}")[-1]
            tf = self.tf(c.get("transform"))
            if tag == "g":
                out.append({"k": "g", "id": c.get("id") or "", "tf": tf, "items": self.items(c)})
            elif tag == "use":
                h = c.get("{http://www.w3.org/1999/xlink}href") or c.get("href")
                if not h.startswith("#"):
                    raise ValueError("href " + h)
                out.append({"k": "use", "href": h[1:], "tf": tf})
            elif tag == "polygon":
                v = [self.n(x) for x in c.get("points").replace(",", " ").split()]
                if BAD in v:
                    raise ValueError("points " + c.get("points"))
                out.append({"k": "polygon", "cls": c.get("class"), "tf": tf, "g": [list(p) for p in zip(v[::2], v[1::2])]})
            elif tag == "text":
                out.append({"k": "text", "cls": c.get("class"), "tf": tf, "t": c.text or "",
                            "ta": c.get("text-anchor"), "da": c.get("dominant-baseline")})
            elif tag not in ("defs", "style", "rect"):
                raise ValueError("element " + tag)
        return out

    def document(self, s):
        import re
        import xml.etree.ElementTree as ET
        root = ET.fromstring(s.encode("utf8"))
        ns = root.tag[:-3]
        css, defs = [], []
        for d in root.iter(ns + "style"):
            text = d.text or ""
            if re.sub(r"\.[\w]+\s*\{[^{}]*\}", "", text).strip():
                raise ValueError("style")
            for c, b in re.findall(r"\.(\w+)\s*\{([^{}]*)\}", text):
                body = [[t.strip() for t in x.split(":", 1)] for x in b.split(";") if x.strip()]
                css.append({"cls": c, "body": sorted(body)})
        for d in root.iter(ns + "defs"):
            defs.extend(self.items(d))
        rect = [[self.b(r.get(k)) for k in ("x", "y", "width", "height")] for r in root.findall(ns + "rect")]
        return {"box": [self.b(v) for v in root.get("viewBox").split()],
                "size": [self.b(root.get("width")), self.b(root.get("height"))],
                "rect": rect, "css": css, "defs": defs, "items": self.items(root)}


MUT = {"cell", "poly", "path", "label", "ref", "share", "edit", "copy", "flatten",
       "rmpoly", "rmpath", "rmlabel", "rebind", "rmref", "badadd"}


# -------------------------------------------------------------------- random histories

class Plan:
    """The driver's own bookkeeping: keeps histories inside the specified arithmetic.

    It depends on the calls only, never on what the code returned.
    """

    def __init__(self, rng, focus):
        self.rng = rng
        self.focus = focus
        self.cells = []   # dicts
        self.els = []     # dicts
        self.name = 0
        # in-place edits of elements and bounding box queries do not mix
        self.edits = focus not in ("C06", "C12") and rng.random() < (0.85 if focus in ("C05", "C11", "C07") else 0.45)
        # offsets of flexible paths do not follow reflections (known finding): histories
        # either have no reflected references or only symmetric offsets
        self.straight = rng.random() < 0.35
        # references at angles outside the exact arithmetic: boxes against polygons only
        self.free = focus == "C06" and rng.random() < 0.3

    def boxes(self):
        return not self.edits

    # -- summaries
    def summary(self, c):
        """(level, count, fives, twos, extent, magnification) of what cell c shows"""
        cell = self.cells[c - 1]
        lev, cnt, k5, k2, ext, mg = 0, 0, 0, 0, 0, 1
        for i in cell["P"] + cell["H"] + cell["L"]:
            e = self.els[i - 1]
            cnt += e["cnt"]
            k5 = max(k5, e["k5"])
            k2 = max(k2, e["k2"])
            ext = max(ext, e["ext"])
            mg = max(mg, e["mg"])
        for i in cell["R"]:
            e = self.els[i - 1]
            if e["o"]:
                l, n, a, b, x, m = self.summary(e["o"])
                lev = max(lev, l + 1)
                cnt += n * e["rep"]
                k5 = max(k5, a + e["k5"], e["c5"])
                k2 = max(k2, b + e["k2"], e["c2"])
                ext = max(ext, 1.5 * (x * e["m"] + e["spc"]) + e["org"])
                mg = max(mg, m * e["m"])
            else:
                k5, k2 = max(k5, e["k5"], e["c5"]), max(k2, e["k2"], e["c2"])
        return lev, cnt, k5, k2, ext, mg

    def fits(self):
        for c in range(1, len(self.cells) + 1):
            l, n, a, b, x, m = self.summary(c)
            if l > 3 or n > 70 or a > 3 or b > 3 or x > 1200 or m > 9:
                return False
        return True

    def reach(self, c, seen=None):
        seen = set() if seen is None else seen
        for i in self.cells[c - 1]["R"]:
            o = self.els[i - 1]["o"]
            if o and o not in seen:
                seen.add(o)
                self.reach(o, seen)
        return seen

    # -- construction of events (and of the bookkeeping that follows)
    def newname(self):
        self.name += 1
        return "C%d" % self.name

    def pt(self, m=12):
        return [self.rng.randint(-m, m), self.rng.randint(-m, m)]

    def gen_poly(self, c):
        r = self.rng
        n = r.choice([1, 1, 1, 2, 3])
        ps, ls, ds = [], [], []
        for _ in range(n):
            x, y = self.pt(10)
            k = r.random()
            if k < 0.4:
                w, h = r.randint(1, 8), r.randint(1, 8)
                p = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
            elif k < 0.8:
                p = [[x, y], [x + r.randint(1, 8), y + r.randint(-3, 3)], [x + r.randint(0, 4), y + r.randint(4, 9)]]
            else:
                a, b = r.randint(1, 4), r.randint(1, 4)
                p = [[x, y], [x + 2 * a, y], [x + 2 * a, y + b], [x + a, y + b], [x + a, y + 2 * b], [x, y + 2 * b]]
            if r.random() < 0.3:
                p.reverse()
            ps.append(p)
            ls.append(r.choice(LAYERS))
            ds.append(r.choice(TYPES))
        if r.random() < 0.4:
            ls, ds = [ls[0]] * n, [ds[0]] * n
        return {"op": "poly", "c": c, "ps": ps, "ls": ls, "ds": ds, "pr": self.prop(), "form": self.form()}

    def prop(self):
        return self.rng.choice(["", "", "1=a", "1=bb"])

    def form(self):
        return self.rng.choice(["one", "one", "list", "gen"])

    def gen_path(self, c):
        r = self.rng
        typ = r.choice(["flex", "robust"])
        x, y = self.pt(8)
        if typ == "robust" or r.random() < 0.5:
            d = r.randint(4, 12) * r.choice([-1, 1])
            sp = [[x, y], [x + d, y]] if r.random() < 0.5 else [[x, y], [x, y + d]]
        else:
            sp = [[x, y]]
            horiz = r.random() < 0.5
            for _ in range(r.randint(2, 3)):
                d = r.choice([-1, 1]) * r.randint(16, 24)
                x, y = (x + d, y) if horiz else (x, y + d)
                horiz = not horiz
                sp.append([x, y])
        n = r.choice([1, 1, 2])
        ws = [r.choice([2, 4])] * n
        l, d = r.choice(LAYERS), r.choice(TYPES)
        en = r.choice(["flush", "extended", "custom"])
        ex = [1, 3] if en == "custom" else [0, 0] if en == "flush" else [ws[0] // 2] * 2
        a = r.randint(1, 4)
        os_ = [0] if n == 1 else [-a, a]
        ls, ds, ens, exs = [l] * n, [d] * n, [en] * n, [ex] * n
        if typ == "robust" or self.straight:
            # offsets of robust paths follow reflections: no symmetry needed
            os_ = [r.randint(-3, 3)] if n == 1 else [-a, a + r.randint(0, 2)]
            ls = [r.choice(LAYERS) for _ in range(n)]
            ds = [r.choice(TYPES) for _ in range(n)]
            ws = [r.choice([2, 4]) for _ in range(n)]
            exs = [[1, 3] if en == "custom" else [0, 0] if en == "flush" else [w // 2] * 2 for w in ws]
        return {"op": "path", "c": c, "typ": typ, "sp": sp, "ws": ws, "os": os_, "ex": exs, "en": ens,
                "ls": ls, "ds": ds, "gp": r.random() < 0.3, "pr": self.prop(), "form": self.form()}

    def gen_label(self, c):
        r = self.rng
        x, y = self.pt(10)
        return {"op": "label", "c": c, "t": r.choice(['a<b&c>"d', "&amp;", "it's", "]]>"]) if self.focus == "C12" and r.random() < 0.3 else "t%d" % r.randint(0, 5), "x": x, "y": y, "an": r.choice(ANCHORS),
                "ly": r.choice(LAYERS), "tt": r.choice(TYPES), "q": r.choice([0, 0, 1, 2, 3]),
                "th": r.choice([0, 0, 1, -1]), "m": r.choice([64, 64, 128, 192]), "xr": r.random() < 0.4,
                "pr": self.prop(), "form": self.form()}

    def gen_ref(self, c):
        r = self.rng
        cands = [o for o in range(1, len(self.cells) + 1) if o != c and c not in self.reach(o)]
        o, n = 0, ""
        if cands and r.random() < 0.93:
            o = r.choice(cands[-5:])
        else:
            n = "missing%d" % r.randint(1, 2)
        x, y = self.pt(15)
        arr = r.random() < 0.45
        th = r.choice([0, 0, 0, 1, -1])
        m = r.choice([64, 64, 64, 128, 192, 32])
        odd = {}
        if self.free:
            th = 0
            odd = {"deg": r.choice([0, 30, 60, 45, 135, 15, 22.5, 120, 17, 210, 300, 330, 90, 180, -30, 72])}
        return {"op": "ref", "c": c, "o": o, "n": n, "x": x, "y": y, "q": 0 if self.free else r.choice([0, 0, 1, 2, 3]), "th": th, **odd,
                "m": m, "xr": r.random() < 0.45 and not self.straight, "arr": arr, "co": r.randint(1, 3) if arr else 1,
                "ro": r.randint(1, 2) if arr else 1, "sx": r.randint(-9, 20) if arr else 0,
                "sy": r.randint(-9, 20) if arr else 0, "pr": self.prop(), "form": self.form()}

    def el_of(self, e):
        k = e["op"]
        d = {"k": k, "cnt": 0, "k5": 0, "k2": 0, "ext": 40, "mg": 1, "o": 0}
        if k == "poly":
            d.update(cnt=len(e["ps"]), n=len(e["ps"]))
        elif k == "path":
            d.update(cnt=len(e["ws"]), n=len(e["ws"]), ext=110)
        elif k == "label":
            d.update(cnt=1, mg=e["m"] / 64, k5=0)
        else:
            d.update(o=e["o"], k5=abs(e["th"]), k2=1 if e["m"] == 32 else 0, m=e["m"] / 64, rep=e["co"] * e["ro"],
                     spc=abs(e["sx"]) * e["co"] + abs(e["sy"]) * e["ro"], org=abs(e["x"]) + abs(e["y"]),
                     c5=0, c2=0, arr=e["arr"])
        return d

    LIST = {"poly": "P", "path": "H", "label": "L", "ref": "R"}

    def snapshot(self):
        import copy
        return copy.deepcopy((self.cells, self.els))

    def rollback(self, s):
        self.cells, self.els = s

    def addel(self, c, d):
        self.els.append(d)
        self.cells[c - 1][self.LIST[d["k"]]].append(len(self.els))

    def renew(self, c, P, H, L, R):
        cell = self.cells[c - 1]
        for k, new in (("P", P), ("H", H), ("L", L), ("R", R)):
            cell[k] = []
            for d in new:
                self.els.append(d)
                cell[k].append(len(self.els))

    def sets(self, c, kind):
        out = [dict(self.els[i - 1]) for i in self.cells[c - 1][kind]]
        for i in self.cells[c - 1]["R"]:
            r = self.els[i - 1]
            if r["o"]:
                below = self.sets(r["o"], kind)
                for _ in range(r["rep"]):
                    for b in below:
                        b = dict(b)
                        b["k5"] = max(b["k5"] + r["k5"], r["c5"])
                        b["k2"] = max(b["k2"] + r["k2"], r["c2"])
                        b["ext"] = 1.5 * (b["ext"] * r["m"] + r["spc"]) + r["org"]
                        if kind != "L":
                            b["mg"] = b["mg"] * r["m"]
                        out.append(b)
        return out

    def apply(self, e):
        op = e["op"]
        if op == "cell":
            self.cells.append({"P": [], "H": [], "L": [], "R": []})
        elif op in self.LIST:
            self.addel(e["c"], self.el_of(e))
        elif op == "share":
            self.cells[e["c"] - 1][self.LIST[self.els[e["e"] - 1]["k"]]].append(e["e"])
        elif op == "edit":
            d = self.els[e["e"] - 1]
            f = e["f"]
            if f in ("translate", "nudge", "mirror", "rotate"):
                d["ext" if d["k"] != "ref" else "org"] += 60
            elif f == "scale":
                d["ext"] = d["ext"] * e["v"] + 60
                d["mg"] *= e["v"]
            elif f == "mag2":
                if d["k"] == "ref":
                    d["m"] *= 2
                else:
                    d["mg"] *= 2
            elif f == "grid":
                d["rep"] = e["v"] * e["i"]
                d["spc"] = max(d["spc"], 20 * 6)
        elif op == "copy":
            src = self.cells[e["c"] - 1]
            self.cells.append({k: list(v) for k, v in src.items()})
            w = e["w"]
            if e["deep"] or w["on"]:
                news = {k: [dict(self.els[i - 1]) for i in src[k]] for k in "PHLR"}
                if w["on"]:
                    a5, a2 = abs(w["th"]), 1 if w["m"] == 32 else 0
                    m = w["m"] / 64
                    for k in "PHL":
                        for d in news[k]:
                            d["k5"] += a5
                            d["k2"] += a2
                            d["ext"] = 1.5 * d["ext"] * m + 60
                            d["mg"] = d["mg"] * max(m, 1) if k != "L" else d["mg"] * m
                    for d in news["R"]:
                        d["c5"] = d["c5"] + a5
                        d["c2"] = d["c2"] + a2
                        d["k5"] += a5
                        d["k2"] += a2
                        d["m"] *= m
                        d["org"] = 1.5 * d["org"] * m + 60
                        d["spc"] *= m
                self.renew(len(self.cells), news["P"], news["H"], news["L"], news["R"])
        elif op == "flatten":
            self.renew(e["c"], self.sets(e["c"], "P"), self.sets(e["c"], "H"), self.sets(e["c"], "L"), [])
        elif op in ("rebind", "rmref"):
            for c in self.cells:
                if op == "rmref" and c is self.cells[e["a"] - 1]:
                    continue
                keep = []
                for i in c["R"]:
                    if self.els[i - 1]["o"] == e["a"]:
                        if op == "rebind":
                            self.els[i - 1]["o"] = e["b"]
                            keep.append(i)
                    else:
                        keep.append(i)
                c["R"] = keep

    def sync(self, x):
        """After removals: which elements remain is read from the histories' own ids."""

    def draw(self):
        r = self.rng
        f = self.focus
        n = len(self.cells)
        if n == 0 or (n < 3 and r.random() < 0.5) or (n < 7 and r.random() < 0.04):
            return {"op": "cell", "name": self.newname()}
        c = r.randint(1, n)
        filled = sum(len(x["P"]) + len(x["H"]) for x in self.cells)
        k = r.random()
        build = 0.8 if filled < n + 1 else 0.36
        if k < build:
            j = r.random()
            wp, wh, wl = {"C08": (0.15, 0.2, 0.6), "C07": (0.35, 0.5, 0.55), "C10": (0.4, 0.55, 0.75)}.get(f, (0.3, 0.45, 0.57))
            if j < wp:
                return self.gen_poly(c)
            if j < wh:
                return self.gen_path(c)
            if j < wl:
                return self.gen_label(c)
            if j < wl + (0.12 if f == "C10" else 0.05) and self.els:
                i = r.randint(1, len(self.els))
                if f == "C10" and r.random() < 0.6:
                    k = r.choice(["H", "L"])
                    full = [j + 1 for j, x in enumerate(self.cells) if len(x[k]) > 1]
                    c = r.choice(full) if full else c
                    own = self.cells[c - 1][k]
                    i = r.choice(own) if own else i
                o = self.els[i - 1]["o"]
                if o and (o == c or c in self.reach(o)):
                    return None
                return {"op": "share", "c": c, "e": i}
            return self.gen_ref(c)
        k = r.random()
        mut = {"C04": {"flatten": 0.3}, "C05": {"copy": 0.3}, "C06": {"flatten": 0.06, "copy": 0.06, "rm": 0.12, "rebind": 0.06, "rmref": 0.04},
               "C10": {"rm": 0.4}}.get(f, {})
        acc = 0
        for what, dflt in (("flatten", 0.04), ("copy", 0.06), ("rm", 0.04), ("rebind", 0.01), ("rmref", 0.01), ("badadd", 0.01)):
            acc += mut.get(what, dflt)
            if k < acc and self.free and what in ("flatten", "copy"):
                return None
            if k < acc:
                return self.mutator(what, c)
        if self.edits and r.random() < 0.3 and self.els:
            return self.gen_edit()
        return self.gen_query(c)

    def mutator(self, what, c):
        r = self.rng
        n = len(self.cells)
        if what == "flatten":
            v = lambda s: r.choice(s) if r.random() < 0.3 else -1
            return {"op": "flatten", "c": c, "sl": v([0, 2, 7]), "sd": v([0, 2, 8]), "st": v([0, 9])}
        if what == "copy":
            if n > 9:
                return None
            w = {"on": False, "x": 0, "y": 0, "q": 0, "th": 0, "m": 64, "xr": False, "tx": False, "rt": False, "sl": False}
            if r.random() < 0.65:
                w["on"] = True
                w["xr"] = r.random() < 0.5 and not self.straight
                w["tx"] = r.random() < 0.5
                w["rt"] = r.random() < 0.6
                w["sl"] = r.random() < 0.5
                if not (w["xr"] or w["tx"] or w["rt"] or w["sl"]):
                    w["tx"] = True
                if w["tx"]:
                    w["x"], w["y"] = self.pt(15)
                if w["rt"]:
                    w["q"] = r.choice([0, 1, 2, 3])
                    w["th"] = r.choice([0, 0, 1, -1])
                if w["sl"]:
                    w["m"] = r.choice([32, 128, 192, 64])
            return {"op": "copy", "c": c, "name": self.newname(), "deep": r.random() < 0.5, "w": w}
        if what == "rm":
            op = r.choice(["rmpoly", "rmpoly", "rmpath", "rmlabel"])
            by = r.choice(["layer", "layer", "datatype", "pair", "left", "all", "none"])
            if self.free and by == "left":
                by = "layer"
            t = {"by": by, "v": 0, "v2": 0}
            m = len(self.cells[c - 1]["H" if op == "rmpath" else "L"])
            if op != "rmpoly" and m and r.random() < 0.35:
                return {"op": op, "c": c, "test": {"by": "nth", "v": 0, "v2": 0, "s": sorted(r.sample(range(1, m + 1), r.randint(1, min(m, 2))))}}
            if by in ("layer", "pair"):
                t["v"] = r.choice(LAYERS)
                t["v2"] = r.choice(TYPES)
            elif by == "datatype":
                t["v"] = r.choice(TYPES)
            elif by == "left":
                t["v"] = r.randint(-8, 8)
            return {"op": op, "c": c, "test": t}
        if what == "rebind":
            if n < 2:
                return None
            a, b = r.sample(range(1, n + 1), 2)
            holders = [i for i in range(1, n + 1) if any(self.els[j - 1]["o"] == a for j in self.cells[i - 1]["R"])]
            if any(h == b or h in self.reach(b) for h in holders):
                return None
            return {"op": "rebind", "a": a, "b": b, "obj": r.random() < 0.5}
        if what == "rmref":
            return {"op": "rmref", "a": c}
        return {"op": "badadd", "c": c}

    def gen_edit(self):
        r = self.rng
        i = r.randint(max(1, len(self.els) - 12), len(self.els))
        d = self.els[i - 1]
        k = d["k"]
        x, y = self.pt(9)
        e = {"op": "edit", "e": i, "f": "", "x": x, "y": y, "v": 0, "i": 1, "p": "", "pv": ""}
        if k == "poly":
            e["f"] = r.choice(["translate", "rotate", "scale", "mirror", "layer", "datatype", "props", "nudge"])
            if d["k5"] and e["f"] == "rotate":
                e["f"] = "translate"
        elif k == "path":
            e["f"] = r.choice(["translate", "rotate", "scale", "props"])
        elif k == "label":
            e["f"] = r.choice(["translate", "layer", "datatype", "text", "refl", "quarter", "mag2", "props"])
        else:
            e["f"] = r.choice(["translate", "translate" if self.straight else "refl", "quarter", "mag2", "props"] + (["grid"] if d["arr"] else []))
        f = e["f"]
        if f == "rotate":
            e["v"] = r.randint(1, 3)
        elif f == "scale":
            e["v"] = r.choice([2, 3])
        elif f in ("layer", "datatype"):
            e["v"] = r.choice([4, 6])
            e["i"] = r.randint(1, d["n"]) if k == "poly" else 1
        elif f == "nudge":
            e["i"] = r.randint(1, d["n"])
        elif f in ("props", "text"):
            e["pv"] = r.choice(["p", "qq"])
            e["p"] = "1=" + e["pv"] if f == "props" else e["pv"]
        elif f == "quarter":
            e["v"] = r.randint(1, 3)
        elif f == "grid":
            e["v"], e["i"] = r.randint(1, 3), r.randint(1, 3)
        return e

    W = {
        "C03": {"gp": 8, "gps": 3, "gpaths": 3, "dump": 1, "layers": 0.2},
        "C04": {"gp": 2, "gps": 1.5, "gpaths": 1.5, "glabels": 1.5, "dump": 2, "bbox": 0.5},
        "C05": {"gp": 2, "gps": 1, "gpaths": 2, "glabels": 2, "dump": 3},
        "C06": {"bbox": 10, "gp": 2},
        "C07": {"area": 4, "areaall": 6, "gp": 0.3},
        "C08": {"glabels": 8, "dump": 0.5},
        "C09": {"layers": 2, "datatypes": 2, "texttypes": 2, "classes": 3, "deps": 2},
        "C10": {"dump": 3, "gp": 1, "gpaths": 1, "glabels": 1},
        "C12": {"svg": 8, "bbox": 1},
        "C11": {"abuse": 8, "dump": 2, "gp": 2, "gps": 1, "gpaths": 1, "glabels": 1, "area": 0.5, "areaall": 1,
                "bbox": 1, "write": 2, "layers": 0.3, "classes": 0.3, "deps": 0.3},
    }

    def gen_query(self, c):
        r = self.rng
        w = self.W[self.focus]
        op = r.choices(list(w), list(w.values()))[0]
        if op == "bbox" and not self.boxes():
            op = "gp"
        if self.free:
            op = "boxof"
        e = {"op": op, "c": c, "e": 0, "after": ""}
        refs = [i for x in self.cells for i in x["R"]]
        if op in ("gp", "gps", "gpaths", "glabels", "area", "areaall", "bbox", "abuse", "boxof") and refs and r.random() < 0.25:
            e["c"] = 0
            e["e"] = r.choice(refs)
        if op in ("gp", "gps", "gpaths", "glabels", "abuse"):
            e["depth"] = r.choice([99, 99, 99, 0, 1, 2])
            if op in ("gp", "abuse") and not self.boxes():
                e["depth"] = 99
            elif op == "gp" and r.random() < 0.03:
                e["depth"] = -1
        if op == "gp" or op == "abuse":
            e["spec"] = r.choice(["none", "key", "all"])
            e["kl"], e["kd"] = r.choice(LAYERS), r.choice(TYPES)
        if op in ("glabels", "abuse"):
            e["tr"] = r.random() < 0.5
        if op == "svg":
            return svg_query(r, c)
        if op == "deps":
            e["rec"] = r.random() < 0.6
        if op == "abuse":
            e["what"] = r.choice(["gp", "gpall", "gpkey", "gps", "gpaths", "glabels", "areaall", "sets", "path", "poly"]
                                 + (["bbox"] if self.boxes() else []))
            if not e["c"] and e["what"] in ("sets", "path", "poly"):
                e["what"] = "gp"
        return e


def svg_query(r, c):
    sc, pct, pad = r.choice([(10, True, 10), (10, True, 0), (20, True, 5), (100, True, r.choice([1, 5, 7, 25])), (10, False, r.randint(0, 9)),
                             (1, False, r.randint(0, 9)), (5, False, r.randint(0, 9))])
    sty = []
    for _ in range(r.choice([0, 0, 1, 3])):
        k = [r.choice(LAYERS), r.choice(TYPES)]
        txt = r.random() < 0.4
        cls = ("l%dt%d" if txt else "l%dd%d") % tuple(k)
        if all(s["cls"] != cls for s in sty):
            sty.append({"k": k, "txt": txt, "cls": cls,
                        "body": sorted([["fill", r.choice(["#CC00FF", "none", "rgb(1, 2, 3)"])], ["stroke", "black"]][:r.randint(1, 2)])})
    return {"op": "svg", "c": c, "e": 0, "after": "", "sc": sc, "pct": pct, "pad": pad, "str": r.random() < 0.5,
            "bg": r.random() < 0.7, "prec": r.choice([0, 0, 9, 7]), "sty": sty, "to": r.choice(["stream", "str", "path"])}


def history(rng, focus, length):
    x = Exec()
    p = Plan(rng, focus)
    x.svg = p.boxes()
    tries = 0
    while len(x.ev) < length and tries < 4 * length:
        tries += 1
        e = p.draw()
        if e is None:
            continue
        if e["op"] in MUT:
            s = p.snapshot()
            if e["op"] == "edit" and p.els[e["e"] - 1]["k"] == "ref":
                pass
            p.apply(e)
            if not p.fits() or len(p.els) > 140:
                p.rollback(s)
                continue
        x.step(e)
        if e["op"] in ("rmpoly", "rmpath", "rmlabel"):
            resync(p, x)
    if not p.free:
        x.step({"op": "dump", "after": ""})
    return {"ev": x.ev}


def resync(p, x):
    """Removals decide by value; take the resulting lists from the code and continue
    only if they stay within what the plan can describe (the spec judges them)."""
    e = x.ev[-1]
    lists = e["ret"]["lists"]
    c = e["c"] - 1
    if not lists or c >= len(lists):
        return
    old = p.cells[c]["P"]
    new = lists[c]["P"]
    # a partly filtered set is a new element that takes the place of an old one
    for i in new:
        if i > len(p.els):
            p.els.append({"k": "poly", "cnt": 3, "n": max(1, len(x.els[i - 1].polygons)), "k5": max([p.els[j - 1]["k5"] for j in old] or [0]),
                          "k2": max([p.els[j - 1]["k2"] for j in old] or [0]),
                          "ext": max([p.els[j - 1]["ext"] for j in old] or [40]),
                          "mg": max([p.els[j - 1]["mg"] for j in old] or [1]), "o": 0})
    for k in "PHL":
        p.cells[c][k] = [i for i in lists[c][k] if i <= len(p.els)]


def random_traces(job, cur):
    seed, count, length, focus = job
    rng = random.Random(seed)
    for _ in range(count):
        yield history(rng, focus, length)


NOW = {"on": False, "x": 0, "y": 0, "q": 0, "th": 0, "m": 64, "xr": False, "tx": False, "rt": False, "sl": False}


def scenarios(job, cur):
    """Histories of the known findings, and their neighbours that work."""
    def build(xr, sym):
        return [
            {"op": "cell", "name": "A"}, {"op": "cell", "name": "B"},
            {"op": "path", "c": 1, "typ": "flex", "sp": [[0, 0], [20, 0]], "ws": [2], "os": [0 if sym else 3], "ex": [[0, 0]],
             "en": ["flush"], "ls": [1], "ds": [0], "gp": False, "pr": "", "form": "one"},
            {"op": "ref", "c": 2, "o": 1, "n": "", "x": 5, "y": 7, "q": 0, "th": 0, "m": 64, "xr": xr, "arr": False,
             "co": 1, "ro": 1, "sx": 0, "sy": 0, "pr": "", "form": "one"}]
    gp = {"op": "gp", "c": 2, "e": 0, "depth": 99, "spec": "none", "kl": 0, "kd": 0, "after": ""}
    for xr in (False, True):
        for sym in (True, False):
            tag = "reflecting a FlexPath with an offset" if xr and not sym else ""
            tails = {
                "C03": [gp, {"op": "gpaths", "c": 2, "e": 0, "depth": 99, "after": tag}],
                "C04": [{"op": "flatten", "c": 2, "sl": -1, "sd": -1, "st": -1}, {**gp, "after": tag}],
                "C05": [{"op": "copy", "c": 1, "name": "K", "deep": True, "w": {**NOW, "on": True, "xr": xr}},
                        {**gp, "c": 3, "after": tag}],
            }
            if job in tails:
                yield run_events(build(xr, sym) + tails[job])
    if job == "C12":
        q = {"op": "svg", "c": 2, "e": 0, "after": "", "sc": 10, "pct": True, "pad": 10, "str": False, "bg": True, "prec": 0,
             "sty": [], "to": "stream"}
        evs = build(False, True)
        # a reference to a name that happens to be that of a cell in the document
        for n in ("A", "B", "nowhere"):
            yield run_events(evs + [{**evs[3], "o": 0, "n": n, "x": 50}, q])
        # names that have to be changed in a document
        for a, b in (("a#", "b#"), ("a#1", "a"), ("a#", "a_"), ("a#", "top"), ("a_", "b#")):
            for c in ("C#", "a_"):
                evs[0], evs[1] = {"op": "cell", "name": a}, {"op": "cell", "name": c}
                third = [{"op": "cell", "name": b}, {**evs[2], "op": "path", "c": 3, "sp": [[0, 0], [0, 30]]},
                         {**evs[3], "o": 3, "x": 90}]
                same = len({x.replace("#", "_") for x in (a, b, c)}) < 3
                if len({a, b, c}) == 3:
                    yield run_events(evs + third + [{**q, "after": "confusing names" if same else ""}])
    if job == "C10":
        # a label or path several times in a cell, and tests that let some of its places stay
        lab = {"op": "label", "c": 2, "t": "a", "x": 1, "y": 2, "an": "o", "ly": 1, "tt": 0, "q": 0, "th": 0, "m": 64, "xr": False,
               "pr": "", "form": "one"}
        path = {**build(False, True)[2], "c": 2}
        cells = [{"op": "cell", "name": "A"}, {"op": "cell", "name": "B"}]
        for op, x, y in (("rmlabel", lab, {**lab, "t": "b"}), ("rmpath", path, {**path, "sp": [[0, 0], [0, 30]]})):
            for k in (2, 3, 4):
                for pat in itertools.product((1, 2), repeat=k):
                    for s in itertools.product((0, 1), repeat=k):
                        if sum(s) in (0, k) or len(set(pat)) == k:
                            continue
                        yield run_events(cells + [x, y] + [{"op": "share", "c": 1, "e": i} for i in pat] + [
                            {"op": op, "c": 1, "test": {"by": "nth", "v": 0, "v2": 0, "s": [i + 1 for i in range(k) if s[i]]}}])
    if job == "C06":
        # the cached box does not see direct changes of elements and references
        def edit(f, i, **kw):
            return {"op": "edit", "e": i, "f": f, "x": 0, "y": 0, "v": 0, "i": 1, "p": "", "pv": "", **kw}
        for e in (edit("translate", 1, x=7, y=3), edit("translate", 2, x=7, y=3), edit("quarter", 2, v=1), edit("mag2", 2)):
            for c in (1, 2):
                if c == 1 and e["e"] == 2:
                    continue
                for before in (False, True):
                    q = {"op": "bbox", "c": c, "e": 0, "after": ""}
                    yield run_events(build(False, True) + ([q] if before else [])
                                     + [e, {**q, "after": "editing what it holds" if before else ""}])


def run_events(evs):
    x = Exec()
    for e in evs:
        x.step(e)
    return {"ev": x.ev}


def asked(rng, focus, c, n, refs):
    """a query of cell c, or of one of the references, for histories without edits"""
    w = Plan.W[focus]
    op = rng.choices(list(w), list(w.values()))[0]
    if op == "abuse":
        op = "gp"
    if op == "svg":
        return svg_query(rng, c)
    e = {"op": op, "c": c, "e": 0, "after": ""}
    if op in ("gp", "gps", "gpaths", "glabels", "area", "areaall", "bbox") and refs and rng.random() < 0.2:
        e["c"], e["e"] = 0, rng.choice(refs)
    if op in ("gp", "gps", "gpaths", "glabels"):
        e["depth"] = rng.choice([99, 99, 0, 1])
    if op == "gp":
        e["spec"] = rng.choice(["none", "key", "all"])
        e["kl"], e["kd"] = rng.choice([(1, 0), (2, 3), (2, 0), (5, 1), (7, 9)])
    if op == "glabels":
        e["tr"] = rng.random() < 0.5
    if op == "deps":
        e["rec"] = rng.random() < 0.5
    return e


def replay(job, cur):
    """job: (focus, seed, list of event lists generated by TLC); questions are asked
    before and after every step, so that whatever is cached has been filled"""
    focus, seed, behaviours = job
    rng = random.Random(seed)
    for evs in behaviours:
        x = Exec()
        x.svg = True
        for k, e in enumerate(evs):
            x.step(e)
            if k < 6:
                continue
            n = len(x.cells)
            refs = [i + 1 for i, kd in enumerate(x.kind) if kd == "ref"]
            held = {i for c in (x.ev[-1]["ret"].get("lists") or []) for i in c["R"]}
            for c in range(1, n + 1):
                if k + 1 == len(evs) or rng.random() < 0.6:
                    x.step(asked(rng, focus, c, n, [i for i in refs if i in held]))
        x.step({"op": "dump", "after": ""})
        yield {"ev": x.ev}
