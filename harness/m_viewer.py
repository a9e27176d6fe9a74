"""Drives the real LayoutViewer on a stand-in for the Tcl interpreter (V01)."""
import os
import random
import re

import common
import faketk
import m_hier
from m_hier import fx, SC

BAD = m_hier.BAD
INF = 1 << 30
BGS = ["#202020", "#202020", "#FFFFFF"]
COLORS = ["#112233", "#00ff00", "#abcdef"]


def clip(v):
    v = float(v)
    return int(round(max(-2e9, min(2e9, v)))) if v == v else BAD


def key_of(tag):
    m = re.fullmatch(r"L\((?:[\w.]*\()?(-?\d+)\)?, (?:[\w.]*\()?(-?\d+)\)?\)", tag)
    return "%s/%s" % m.groups() if m else "@" + tag[1:]


def stip(v):
    b = os.path.basename(str(v))
    if b == "outline.xbm":
        return 9
    return int(b[:2]) if re.fullmatch(r"\d\d\.xbm", b) else -1


def num3(s):
    try:
        return clip(round(float(s) * SC))
    except ValueError:
        return BAD


class Ui:
    def __init__(self, hier):
        self.h = hier
        self.g = hier.g
        self.ev = []
        self.app = None
        self.v = None

    # -- parts of the window
    def canvases(self):
        cs = [w for w in self.app.widgets.values() if w.kind == "canvas"]
        return cs[0], cs[1]

    def button(self, text):
        return [w for w in self.app.widgets.values() if w.kind == "button" and w.opts.get("-text") == text][0]

    def rows(self):
        """the layer list from the bottom up: [(key, [four labels])]"""
        lc = self.canvases()[1]
        by = {}
        for it in lc.items:
            by.setdefault(round(it.xy[1]), []).append(it)
        out = []
        for y in sorted(by, reverse=True):
            ws = [self.app.widgets.get(str(it.opts.get("-window"))) for it in sorted(by[y], key=lambda it: it.xy[0])]
            out.append((str(ws[1].opts.get("-text")), ws))
        return out

    def row(self, key):
        return dict(self.rows())[key]

    def world(self, x, y):
        c = self.canvases()[0]
        s = float(self.v.scale) * SC
        return [clip((x + c.org[0]) * s), clip(-(y + c.org[1]) * s)]

    def spot(self, p):
        """window coordinates of a point of the layout (counts)"""
        c = self.canvases()[0]
        s = float(self.v.scale) * SC
        return int(round(p[0] / s)) - c.org[0], int(round(-p[1] / s)) - c.org[1]

    # -- what is seen
    def see(self, ret):
        c, lc = self.canvases()
        s = float(self.v.scale)
        items, extra = [], []
        for it in c.items:
            tags = it.tags()
            if it.kind not in ("polygon", "text") or not tags:
                extra.append(it.kind)
                continue
            g = [[fx(x * s), fx(-y * s)] for x, y in zip(it.xy[::2], it.xy[1::2])]
            o = it.opts
            items.append({"k": it.kind, "key": key_of(tags[0]), "g": g, "fill": str(o.get("-fill", "")),
                          "out": str(o.get("-outline", "")), "pat": stip(o.get("-stipple", "")), "vis": it.shown(),
                          "tag": tags[1] if len(tags) > 1 else "", "t": str(o.get("-text", "")), "an": str(o.get("-anchor", ""))})
        ret["items"] = items
        ret["extra"] = sorted(extra)
        ret["rows"] = [{"key": k, "icon": str(ws[0].opts.get("-foreground")), "pat": stip(ws[0].opts.get("-bitmap")),
                        "fg": str(ws[1].opts.get("-foreground"))} for k, ws in self.rows()]
        w, h = c.size()
        ret["win"] = self.world(c.inset, h - c.inset) + self.world(w - c.inset, c.inset)
        ret["px"] = clip(s * SC + 1)
        r = c.region
        e = [False, False]
        if r:
            for i, n in ((0, w), (1, h)):
                a, b = c.org[i] + c.inset, c.org[i] + n - c.inset
                # at the edge of the scroll region, or nothing to scroll
                e[i] = abs(a - r[i]) <= 1 or abs(b - r[2 + i]) <= 1 or r[2 + i] - r[i] <= n
        ret["edge"] = e
        ret["cell"] = str(self.app.vars.get(str(self.v.current_cell), ""))
        ret["bg"] = str(c.opts["-background"])

    def status(self):
        t = [str(w.opts.get("-text")) for w in self.app.widgets.values() if w.kind == "label" and w.path.startswith(str(self.v.frame))]
        for s in t:
            m = re.fullmatch(r"Distance: (\S+) \| dx = (\S+) \| dy = (\S+)", s)
            if m:
                return {"k": "ruler", "v": [num3(x) for x in m.groups()]}
            m = re.fullmatch(r"(\S+), (\S+)", s)
            if m:
                return {"k": "at", "v": [num3(x) for x in m.groups()]}
        return {"k": "?", "v": []}

    # -- the user
    def act(self, e, ret):
        import tkinter
        op = e["op"]
        if op == "open":
            self.app = faketk.App()
            faketk.install(self.app)
            kw = {"background": e["bg"], "depth": e["depth"], "width": e["w"], "height": e["h"]}
            self.passed = None
            if e["hidarg"] != "none":
                hid = [tuple(int(x) for x in k.split("/")) for k in e["hid"]]
                self.passed = hid if e["hidarg"] == "list" else tuple(hid)
                kw["hidden_types"] = self.passed
            conv = lambda l: {("default" if x["k"] == "default" else tuple(int(y) for y in x["k"].split("/"))): x["v"] for x in l}
            if e["cols"]:
                kw["color"] = conv(e["cols"])
            if e["pats"]:
                kw["pattern"] = conv(e["pats"])
            by = {c.name: c for c in self.h.cells}
            cells = [by[n] for n in e["names"]]
            lib = self.g.GdsLibrary("all")
            if e["form"] == "lib":
                for c in cells:
                    lib.add(c, include_dependencies=False)
                self.v = self.g.LayoutViewer(lib, **kw)
            elif e["form"] == "both":
                lib.add(cells[:1], include_dependencies=False)
                self.v = self.g.LayoutViewer(lib, cells[1:], **kw)
            elif e["form"] == "one":
                self.v = self.g.LayoutViewer(cells=cells[0], **kw)
            else:
                self.v = self.g.LayoutViewer(cells=cells, **kw)
            self.app.settle()
            if self.passed is not None:
                ret["kept"] = [list(x) for x in self.passed] == [[int(y) for y in k.split("/")] for k in e["hid"]]
            return
        app, v = self.app, self.v
        c, lc = self.canvases()
        P = c.path
        if op == "cell":
            m = [w for w in app.widgets.values() if w.kind == "menu"][0]
            app.run([x["-command"] for x in m.entries if x.get("-label") == e["n"]][0])
        elif op == "depth":
            sp = [w for w in app.widgets.values() if w.kind == "spinbox"][0]
            app.vars[str(sp.opts["-textvariable"])] = e["text"]
            if e["how"] == "spin":
                app.press(sp)
            else:
                app.event(sp.path, "<FocusOut>")
            ret["shown"] = str(app.vars[str(sp.opts["-textvariable"])])
        elif op == "toggle":
            app.event(self.row(e["k"])[1].path, "<Button-1>")
        elif op == "others":
            app.event(self.row(e["k"])[1].path, e["how"])
        elif op == "raise":
            app.event(self.row(e["k"])[2].path, "<Button-1>")
        elif op == "lower":
            app.event(self.row(e["k"])[3].path, "<Button-1>")
        elif op == "color":
            app.color = e["v"]
            app.event(self.row(e["k"])[0].path, "<Button-1>")
        elif op == "pattern":
            def choose(path):
                if e["v"] < 0:
                    app.press([w for w in app.children(path, "button") if w.opts.get("-text") == "Cancel"][0])
                else:
                    app.press([w for w in app.children(path, "button") if stip(w.opts.get("-bitmap")) == e["v"]][0])
            app.dialog = choose
            app.event(self.row(e["k"])[0].path, e["how"])
        elif op == "filter":
            def answer(path):
                en = app.children(path, "entry")[0]
                app.vars[str(en.opts["-textvariable"])] = e["text"]
                if e["how"] in ("OK", "Cancel"):
                    app.press([w for w in app.children(path, "button") if w.opts.get("-text") == e["how"]][0])
                else:
                    app.event(path, e["how"])
                ret["closed"] = path not in app.widgets
            app.dialog = answer
            app.press(self.button("Filter..."))
        elif op in ("in", "out"):
            app.press(self.button("In" if op == "in" else "Out"))
        elif op == "wheel":
            if e["how"] == "wheel":
                app.event(P, "<Control-MouseWheel>", x=e["x"], y=e["y"], D=120 if e["up"] else -120)
            else:
                n = 4 if e["up"] else 5
                app.event(P, "<Control-Button-%d>" % n, x=e["x"], y=e["y"], b=n)
        elif op == "rect":
            app.event(P, "<Button-1>", x=e["x"], y=e["y"], b=1)
            app.event(P, "<Motion>", x=(e["x"] + e["x2"]) // 2, y=e["y2"], s=0x100)
            app.event(P, "<Motion>", x=e["x2"], y=e["y2"], s=0x100)
            app.settle()
            app.event(P, "<ButtonRelease-1>", x=e["x2"], y=e["y2"], b=1, s=0x100)
        elif op == "pan":
            if e["how"] == "drag":
                app.event(P, "<Button-2>", x=100, y=100, b=2)
                app.event(P, "<Motion>", x=100 + e["n"], y=100 - e["n"], s=0x200)
            elif e["how"] == "sheet":
                app.event(P, "<Shift-Button-%d>" % (4 if e["n"] < 0 else 5))
            elif e["how"] == "wheel":
                app.event(P, "<MouseWheel>", D=120 if e["n"] < 0 else -120)
            else:
                app.event(P, "<Button-%d>" % (4 if e["n"] < 0 else 5))
        elif op == "resize":
            c.real = (e["w"], e["h"])
            c.place(*c.org)
        elif op == "home":
            if e["how"] == "button":
                app.press(self.button("Extents"))
            else:
                app.event(P, e["how"])
        elif op == "at":
            app.event(P, "<Motion>", x=e["x"], y=e["y"])
            ret["status"] = self.status()
        elif op == "click":
            app.event(P, "<Button-1>", x=e["x"], y=e["y"], b=1)
            app.event(P, "<ButtonRelease-1>", x=e["x"], y=e["y"], b=1, s=0x100)
        elif op == "dbl":
            app.boxes = []
            for s in ("<Button-1>", "<ButtonRelease-1>", "<Double-Button-1>"):
                app.event(P, s, x=e["x"], y=e["y"], b=1)
            who = app.closest
            ret["hit"] = 0
            if who is not None:
                its = [it for it in c.items if it.kind in ("polygon", "text") and it.tags()]
                ret["hit"] = its.index(who) + 1 if who in its else 0
            app.event(P, "<ButtonRelease-1>", x=e["x"], y=e["y"], b=1, s=0x100)
            ret["info"] = []
            for t, m in app.boxes:
                z = re.fullmatch(r"Layer/datat\w*: (.*)\nVertices: (\d+)\nApproximate bounding box:\n\((\S+), (\S+)\) - \((\S+), (\S+)\)", m)
                ret["info"].append({"key": key_of("L" + z.group(1)), "n": int(z.group(2)), "b": [num3(z.group(i)) for i in (3, 4, 5, 6)]}
                                   if z else {"key": m, "n": 0, "b": []})
        app.settle()

    POINTER = ("wheel",)

    def step(self, e):
        e = dict(e)
        ret = {"exc": "", "kept": True, "zoom": 0, "was": [], "now": [], "box": [], "warn": 0}
        if self.v is not None and e["op"] != "open":
            self.app.errors = []
            self.app.boxes = []
            before = float(self.v.scale)
            if e["op"] == "wheel":
                ret["was"] = self.world(e["x"], e["y"])
            elif e["op"] in ("in", "out"):
                w, h = self.canvases()[0].size()
                ret["was"] = self.world(w // 2, h // 2)
            elif e["op"] == "rect":
                ret["box"] = [self.world(e["x"], e["y"]), self.world(e["x2"], e["y2"])]
        exc, _ = common.guarded(lambda: self.act(e, ret))
        if not exc and self.app.errors:
            exc = self.app.errors[0]
        ret["exc"] = exc
        if not exc:
            if e["op"] != "open":
                ret["zoom"] = clip(before / float(self.v.scale) * 1e6)
                if e["op"] == "wheel":
                    ret["now"] = self.world(e["x"], e["y"])
                elif e["op"] in ("in", "out"):
                    w, h = self.canvases()[0].size()
                    ret["now"] = self.world(w // 2, h // 2)
            ret["warn"] = sum(1 for t, _ in self.app.boxes if t == "Warning")
            exc2, _ = common.guarded(lambda: self.see(ret))
            ret["exc"] = "seeing:" + exc2 if exc2 else ""
        e["ret"] = ret
        self.ev.append(e)
        return exc


def layout(rng):
    """a few cells with references, built by the driver of the layout layer"""
    x = m_hier.Exec()
    p = m_hier.Plan(rng, "C12")
    p.free = False
    want = rng.randint(5, 16)
    tries = 0
    while len(x.ev) < want and tries < 300:
        tries += 1
        e = p.draw()
        if e is None or e["op"] not in ("cell", "poly", "path", "label", "ref", "share"):
            continue
        s = p.snapshot()
        p.apply(e)
        if not p.fits() or any(p.summary(c)[1] > 40 for c in range(1, len(p.cells) + 1)):
            p.rollback(s)
            continue
        x.step(e)
    return x


def spec_text(rng, f):
    sp = lambda: " " * rng.choice([0, 0, 0, 1, 2])

    def one(r):
        if r[0] < 0:
            return "*"
        if r[0] == r[1] and rng.random() < 0.8:
            return str(r[0])
        return "%d%s-%s%d" % (r[0], sp(), sp(), r[1])

    def many(rs):
        return (sp() + "," + sp()).join(one(r) for r in rs)
    return ",".join(sp() + "(" + sp() + many(a) + sp() + "/" + sp() + many(b) + sp() + ")" + sp() for a, b in f)


def draw_open(rng, x):
    names = [c.name for c in x.cells]
    rng.shuffle(names)
    form = rng.choice(["lib", "lib", "cells", "both", "one"])
    if form == "one":
        names = names[:1]
    hidarg = rng.choice(["none", "none", "list", "tuple"])
    keys = ["%d/%d" % (l, d) for l in m_hier.LAYERS for d in m_hier.TYPES]
    cols = [{"k": k, "v": rng.choice(COLORS)} for k in rng.sample(keys, rng.choice([0, 0, 1, 3]))]
    if rng.random() < 0.2:
        cols.append({"k": "default", "v": "#998877"})
    pats = [{"k": k, "v": rng.randint(0, 9)} for k in rng.sample(keys, rng.choice([0, 0, 1, 3]))]
    if rng.random() < 0.2:
        pats.append({"k": "default", "v": rng.choice([8, 9])})
    return {"op": "open", "names": names, "form": form, "hidarg": hidarg,
            "hid": rng.sample(keys, rng.choice([0, 1, 3])) if hidarg != "none" else [],
            "depth": rng.choice([0, 0, 1, 2, -1]), "cols": cols, "pats": pats, "bg": rng.choice(BGS),
            "w": rng.choice([800, 300]), "h": rng.choice([600, 400])}


def draw_step(rng, u, names):
    keys = [k for k, _ in u.rows()]
    c = u.canvases()[0]
    w, h = c.size()
    k = rng.random()
    if k < 0.10 and len(names) > 1:
        return {"op": "cell", "n": rng.choice(names)}
    if k < 0.22:
        t = rng.choice(["-1", "0", "1", "2", "3", "128", "0", "1", "x", ""])
        ok = t not in ("x", "")
        return {"op": "depth", "v": int(t) if ok else 0, "ok": ok, "text": t, "how": rng.choice(["spin", "focus"])}
    if k < 0.48 and keys:
        op = rng.choice(["toggle", "toggle", "others", "raise", "lower", "color", "pattern"])
        e = {"op": op, "k": rng.choice(keys)}
        if op == "others":
            e["how"] = rng.choice(["<Button-2>", "<Button-3>"])
        elif op == "color":
            e["v"] = rng.choice(COLORS + [""])
        elif op == "pattern":
            e["v"] = rng.choice([-1, 0, 3, 9])
            e["how"] = rng.choice(["<Button-2>", "<Button-3>"])
        return e
    if k < 0.56:
        rg = lambda m: rng.choice([[-1, -1], [rng.randint(0, m)] * 2, sorted([rng.randint(0, m), rng.randint(0, m)])])
        f = [[[rg(5) for _ in range(rng.randint(1, 2))], [rg(3) for _ in range(rng.randint(1, 2))]] for _ in range(rng.randint(1, 2))]
        bad = rng.random() < 0.2
        return {"op": "filter", "f": f, "bad": bad, "how": rng.choice(["OK", "OK", "<KeyPress-Return>", "Cancel", "<KeyPress-Escape>"]),
                "text": rng.choice(["", "1/2", "(1/2", "(1/a)", "(1/2)(3/4)", "(-1/2)", "(1/2),"]) if bad else spec_text(rng, f)}
    if k < 0.62:
        return {"op": rng.choice(["in", "out"])}
    if k < 0.70:
        return {"op": "wheel", "x": rng.randint(0, w), "y": rng.randint(0, h), "up": rng.random() < 0.6, "how": rng.choice(["wheel", "button"])}
    if k < 0.76:
        return {"op": "rect", "x": rng.randint(0, w), "y": rng.randint(0, h), "x2": rng.randint(0, w), "y2": rng.randint(0, h)}
    if k < 0.80:
        return {"op": "pan", "how": rng.choice(["drag", "sheet", "wheel", "button"]), "n": rng.choice([-40, 25, 7])}
    if k < 0.82:
        return {"op": "resize", "w": rng.choice([500, 901, 802]), "h": rng.choice([350, 602])}
    if k < 0.88:
        return {"op": "home", "how": rng.choice(["button", "<KeyPress-Home>", "<KeyPress-A>", "<KeyPress-a>"])}
    items = u.ev[-1]["ret"].get("items", [])
    polys = [i for i, it in enumerate(items) if it["k"] == "polygon" and all(p[0] != BAD and p[1] != BAD for p in it["g"])]
    if not polys:
        return None
    i = rng.choice(polys)
    g = items[i]["g"]
    if k < 0.97:
        j = rng.randrange(len(g))
        x, y = u.spot(g[j])
        return {"op": "at" if k < 0.94 else "click", "i": i + 1, "j": j + 1, "x": x, "y": y}
    x, y = u.spot([sum(p[0] for p in g) // len(g), sum(p[1] for p in g) // len(g)])
    return {"op": "dbl", "x": x, "y": y}


def history(rng, length):
    x = layout(rng)
    if not x.cells:
        return None
    u = Ui(x)
    n = 0
    for _ in range(rng.choice([1, 1, 2])):
        if u.step(draw_open(rng, x)):
            break
        names = u.ev[-1]["names"]
        for _ in range(length):
            e = draw_step(rng, u, names)
            if e is None:
                continue
            if u.step(e):
                break
            if e["op"] == "rect" and u.ev[-1]["ret"]["zoom"] == 1000000:
                pass
            z = float(u.v.scale)
            if not 1e-4 < z < 100:
                u.step({"op": "home", "how": "button"})
        else:
            continue
        break
    build = []
    for e in x.ev:
        build.append({k: v for k, v in e.items()})
    return {"build": build, "ev": u.ev}


def random_traces(job, cur):
    seed, count, length = job[:3]
    rng = random.Random(seed)
    for _ in range(count):
        t = history(rng, length)
        if t:
            yield t


def replay(job, cur):
    """job: (seed, behaviours generated by TLC); the pointer is asked in between"""
    seed, behaviours = job
    rng = random.Random(seed)
    built, x = None, None
    for b in behaviours:
        if b["build"] != built:
            x = m_hier.Exec()
            for e in b["build"]:
                x.step(e)
            built = b["build"]
        u = Ui(x)
        names = b["ev"][0]["names"]
        for e in b["ev"]:
            e = dict(e)
            if e["op"] == "filter":
                e["text"] = spec_text(rng, e["f"])
            if u.step(e):
                break
            if rng.random() < 0.4:
                for _ in range(5):
                    q = draw_step(rng, u, names)
                    if q and q["op"] in ("at", "click", "dbl", "wheel", "rect", "pan"):
                        break
                else:
                    continue
                if u.step(q):
                    break
        yield {"build": x.ev, "ev": u.ev}
