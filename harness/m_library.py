"""Drives real Cell / GdsLibrary objects and records what they do (C01, C02)."""
import json
import random

import common


class Exec:
    def __init__(self, nlibs, cur):
        import gdspy
        self.g = gdspy
        gdspy.library.use_current_library = bool(cur)
        self.cur = bool(cur)
        self.libs = [gdspy.GdsLibrary("L%d" % i) for i in range(nlibs)]
        gdspy.current_library = self.libs[-1]
        self.objs = []
        self.refs = []
        self.refid = {}
        self.objid = {}
        self.ev = []

    def obj(self, o):
        return self.objs[o - 1]

    def target(self, e, ko="o", kn="n"):
        return self.obj(e[ko]) if e[ko] else e[kn]

    def learn(self, cell):
        self.objs.append(cell)
        self.objid[id(cell)] = len(self.objs)

    def project(self):
        out = []
        for c in self.objs:
            rs = []
            for r in c.references:
                if id(r) not in self.refid:
                    self.refs.append(r)
                    self.refid[id(r)] = len(self.refs)
                t = r.ref_cell
                if isinstance(t, self.g.Cell):
                    rs.append({"id": self.refid[id(r)], "o": self.objid.get(id(t), -1), "n": ""})
                else:
                    rs.append({"id": self.refid[id(r)], "o": 0, "n": t if isinstance(t, str) else repr(t)})
            out.append({"name": c.name, "refs": rs})
        libs = [
            [{"k": k, "v": self.objid.get(id(v), -1)} for k, v in lib.cells.items()]
            for lib in self.libs
        ]
        return {"objs": out, "libs": libs}

    def call(self, e):
        g, op = self.g, e["op"]
        if op == "obj":
            return lambda: g.Cell(e["name"])
        if op == "ref":
            tgt = self.target(e)
            if e.get("arr"):
                return lambda: self.obj(e["c"]).add(g.CellArray(tgt, 2, 3, (5, 7), ignore_missing=True))
            if e["c"] % 2:
                return lambda: self.obj(e["c"]).add([g.CellReference(tgt, (1, 2), ignore_missing=True)])
            return lambda: self.obj(e["c"]).add(g.CellReference(tgt, (1, 2), ignore_missing=True))
        if op == "copy":
            return lambda: self.obj(e["c"]).copy(e["name"], deep_copy=e["deep"])
        if op == "add":
            cs = [self.obj(c) for c in e["cs"]]
            f = e["form"]
            arg = (cs[0] if f == "single" else cs if f == "list" else tuple(cs) if f == "tuple"
                   else set(cs) if f == "set" else iter(cs) if f == "iter" else (c for c in cs))
            return lambda: self.libs[e["l"] - 1].add(
                arg, include_dependencies=e["deps"], overwrite_duplicate=e["ow"], update_references=e["up"])
        if op == "new":
            return lambda: self.libs[e["l"] - 1].new_cell(
                e["name"], overwrite_duplicate=e["ow"], update_references=e["up"])
        if op == "remove":
            return lambda: self.libs[e["l"] - 1].remove(self.target(e), remove_references=e["rr"])
        if op == "rename":
            return lambda: self.libs[e["l"] - 1].rename_cell(self.target(e), e["name"], update_references=e["up"])
        if op == "replace":
            return lambda: self.libs[e["l"] - 1].replace_references(self.target(e), self.target(e, "o2", "n2"))
        if op == "top":
            return lambda: self.libs[e["l"] - 1].top_level()
        if op == "deps":
            return lambda: self.obj(e["c"]).get_dependencies(e["rec"])
        if op == "extract":
            return lambda: self.libs[e["l"] - 1].extract(self.obj(e["o"]), overwrite_duplicate=e["ow"])
        raise KeyError(op)

    def step(self, e):
        e = dict(e)
        exc, v = common.guarded(self.call(e))
        ret = {"exc": exc, "n": 0, "s": []}
        if not exc:
            if e["op"] in ("obj", "copy", "new"):
                self.learn(v)
            elif e["op"] in ("remove", "rename", "replace"):
                ret["n"] = v if isinstance(v, int) and not isinstance(v, bool) else -1
            elif e["op"] in ("top", "deps"):
                ret["s"] = [self.objid.get(id(c), -1) for c in v]
        e["ret"] = ret
        e["post"] = self.project()
        self.ev.append(e)
        return exc

    # --- what the driver itself may call
    def acyclic(self):
        col = {}

        def visit(c):
            col[id(c)] = 1
            for r in c.references:
                t = r.ref_cell
                if isinstance(t, self.g.Cell):
                    k = col.get(id(t), 0)
                    if k == 1 or (k == 0 and not visit(t)):
                        return False
            col[id(c)] = 2
            return True

        return all(col.get(id(c), 0) == 2 or visit(c) for c in self.objs)

    def trace(self):
        return {"nlibs": len(self.libs), "cur": self.cur, "ev": self.ev}


def replay(job, cur):
    """job: list of (nlibs, cur, [events])"""
    for nlibs, c, evs in job:
        x = Exec(nlibs, c)
        for e in evs:
            x.step(e)
        yield x.trace()


NAMES = ["A", "B", "C", "D", "top"]


def random_events(x, rng, focus):
    """One random call; biased towards names and cells that exist."""
    n = len(x.objs)
    L = len(x.libs)
    k = rng.random()
    if focus == "refs" and n >= 3 and len(x.refs) >= 3 and k < 0.4:
        k = rng.uniform(0.62, 0.97)
    o = lambda: rng.randint(1, n)
    nm = lambda: rng.choice(NAMES)
    l = rng.randint(1, L)
    inlib = lambda: [x.objid[id(c)] for c in x.libs[l - 1].cells.values() if id(c) in x.objid]

    def tgt():
        il = inlib()
        r = rng.random()
        if r < 0.45 and il:
            return {"o": rng.choice(il), "n": ""}
        if r < 0.7 and n:
            return {"o": o(), "n": ""}
        return {"o": 0, "n": nm()}

    b = lambda p=0.5: rng.random() < p
    if n == 0 or (k < 0.13 and n < 7):
        return {"op": "obj", "name": nm()}
    if k < 0.33 and len(x.refs) < 14:
        t = tgt()
        return {"op": "ref", "c": o(), **t, "arr": b()}
    if k < 0.38 and n < 8:
        return {"op": "copy", "c": o(), "name": nm(), "deep": b()}
    if k < 0.56:
        m = 1 if b(0.4) else rng.randint(1, 3)
        cs = [o() for _ in range(m)]
        form = "single" if m == 1 and b(0.7) else rng.choice(["list", "tuple", "set", "iter", "gen"])
        return {"op": "add", "l": l, "cs": cs, "form": form, "deps": b(), "ow": b(0.4), "up": b(0.7)}
    if k < 0.62 and n < 8 and not x.cur:
        return {"op": "new", "l": l, "name": nm(), "ow": b(), "up": b()}
    if k < 0.69:
        return {"op": "remove", "l": l, **tgt(), "rr": b(0.7)}
    if k < 0.80:
        return {"op": "rename", "l": l, **tgt(), "name": nm(), "up": b(0.7)}
    if k < 0.88:
        a, c = tgt(), tgt()
        return {"op": "replace", "l": l, **a, "o2": c["o"], "n2": c["n"]}
    if k < 0.93:
        return {"op": "top", "l": l}
    if k < 0.97:
        return {"op": "deps", "c": o(), "rec": b()}
    return {"op": "extract", "l": l, "o": o(), "ow": b(0.3)}


def deep(rng, L):
    """cells in a chain several references long, added from its top in one of all the ways"""
    n = rng.randint(3, 6)
    order = rng.sample(range(n), n)
    names = ["A", "B", "C", "D", "top", "E"]
    for i in range(n):
        yield {"op": "obj", "name": names[i]}
    b = lambda p=0.5: rng.random() < p
    for i in range(n - 1):
        yield {"op": "ref", "c": order[i] + 1, "o": order[i + 1] + 1, "n": "", "arr": b()}
    if b(0.4):
        yield {"op": "ref", "c": order[0] + 1, "o": order[rng.randint(1, n - 1)] + 1, "n": "", "arr": b()}
    if b(0.3):
        yield {"op": "add", "l": rng.randint(1, L), "cs": [rng.randint(1, n)], "form": "single", "deps": b(), "ow": False, "up": b()}
    cs = [order[0] + 1] + [rng.randint(1, n) for _ in range(rng.choice([0, 0, 1]))]
    rng.shuffle(cs)
    form = rng.choice((["single"] if len(cs) == 1 else []) + ["list", "tuple", "set", "iter", "gen"])
    yield {"op": "add", "l": rng.randint(1, L), "cs": cs, "form": form, "deps": b(0.8), "ow": b(0.3), "up": b()}
    if b():
        yield {"op": "deps", "c": order[0] + 1, "rec": b(0.8)}


def random_traces(job, cur):
    seed, count, length, focus = job
    rng = random.Random(seed)
    for _ in range(count):
        x = Exec(rng.choice([1, 1, 2, 2, 3]), rng.random() < 0.2)
        if rng.random() < 0.4:
            for e in deep(rng, len(x.libs)):
                x.step(e)
        for _ in range(length):
            e = random_events(x, rng, focus)
            x.step(e)
            if not x.acyclic():
                break
        yield x.trace()
