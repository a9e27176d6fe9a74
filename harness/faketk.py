"""A stand-in for the Tcl interpreter under tkinter, without a display.

tkinter itself is the real one; only the object that executes Tcl commands is replaced.
It keeps widgets, variables with traces, bindings and canvases, with the semantics of
Tk's canvas for what can be observed: display list, tags, states, coordinates, scroll
region, confined origin, deferred scroll bars, bounding boxes and the closest item.
"""
import math
import re

import tkinter

ALIAS = {"-bg": "-background", "-fg": "-foreground", "-bd": "-borderwidth", "-tag": "-tags"}


def words(v):
    """a Tcl list"""
    if isinstance(v, (tuple, list)):
        return [x for x in v]
    out, s, i = [], str(v), 0
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        j = i
        if s[i] == "{":
            depth = 0
            while True:
                depth += (s[j] == "{") - (s[j] == "}")
                j += 1
                if depth == 0 or j == len(s):
                    break
            out.append(s[i + 1:j - 1])
        else:
            while j < len(s) and not s[j].isspace():
                j += 1
            out.append(re.sub(r"\\(.)", r"\1", s[i:j]))
        i = j
    return out


def plain(v):
    if isinstance(v, tuple) and len(v) == 1:
        return plain(v[0])
    if isinstance(v, tuple) and not v:
        return ""
    if hasattr(v, "_w"):
        return v._w
    return v


class Widget:
    def __init__(self, app, kind, path):
        self.app, self.kind, self.path = app, kind, path
        self.opts = {}
        self.bind = {}
        self.entries = []
        self.range = (0.0, 1.0)

    def configure(self, args):
        if not args:
            return ()
        for k, v in zip(args[::2], args[1::2]):
            self.opts[ALIAS.get(k, k)] = plain(v)
        return ""

    def size(self):
        return 40, 16

    def command(self, sub, args):
        if sub in ("configure", "config"):
            return self.configure(args)
        if sub == "cget":
            return self.opts.get(ALIAS.get(args[0], args[0]), "")
        if sub == "invoke" and self.kind == "button":
            return self.app.run(self.opts.get("-command", ""))
        if sub == "add" and self.kind == "menu":
            self.entries.append(dict(zip(args[1::2], args[2::2])))
            return ""
        if sub == "set" and self.kind == "scrollbar":
            self.range = tuple(float(a) for a in args[:2])
            return ""
        if sub == "get" and self.kind == "scrollbar":
            return self.range
        if sub == "get":
            return self.app.getvar(self.opts.get("-textvariable", ""))
        return ""


class Item:
    def __init__(self, id, kind, xy, opts):
        self.id, self.kind, self.xy, self.opts = id, kind, xy, opts

    def tags(self):
        return [str(t) for t in words(self.opts.get("-tags", ()))]

    def shown(self):
        return self.opts.get("-state", "normal") != "hidden"

    def corner(self):
        """unscaled extents of things of a fixed size"""
        if self.kind == "text":
            w, h = 7 * len(str(self.opts.get("-text", ""))), 13
            a = str(self.opts.get("-anchor", "center"))
            x = self.xy[0] - (0 if "w" in a else w if "e" in a and a != "center" else w / 2)
            y = self.xy[1] - (0 if "n" in a and a != "center" else h if "s" in a else h / 2)
            return x, y, x + w, y + h
        if self.kind == "window":
            return self.xy[0], self.xy[1], self.xy[0] + 20, self.xy[1] + 16
        xs, ys = self.xy[::2], self.xy[1::2]
        return min(xs), min(ys), max(xs), max(ys)

    def box(self):
        a, b, c, d = self.corner()
        return math.floor(a) - 1, math.floor(b) - 1, math.ceil(c) + 1, math.ceil(d) + 1

    def far(self, x, y):
        if self.kind == "polygon":
            ps = list(zip(self.xy[::2], self.xy[1::2]))
            best, inside = 1e300, False
            for (ax, ay), (bx, by) in zip(ps, ps[1:] + ps[:1]):
                dx, dy = bx - ax, by - ay
                n = dx * dx + dy * dy
                u = 0 if n == 0 else max(0, min(1, ((x - ax) * dx + (y - ay) * dy) / n))
                best = min(best, math.hypot(ax + u * dx - x, ay + u * dy - y))
                if (ay > y) != (by > y) and x < ax + (y - ay) / (by - ay) * (bx - ax):
                    inside = not inside
            return 0 if inside and self.opts.get("-fill", "") else max(0, best - 0.5)
        a, b, c, d = self.corner()
        return math.hypot(max(a - x, 0, x - c), max(b - y, 0, y - d))


class Canvas(Widget):
    def __init__(self, app, kind, path):
        super().__init__(app, kind, path)
        self.opts.update({"-width": "378", "-height": "265", "-highlightthickness": 1, "-borderwidth": 0,
                          "-xscrollincrement": 0, "-yscrollincrement": 0, "-background": "#d9d9d9",
                          "-xscrollcommand": "", "-yscrollcommand": "", "-scrollregion": "", "-confine": 1})
        self.items = []
        self.next = 1
        self.real = None      # size forced by the user
        self.region = None
        self.inset = 1
        self.org = [-1, -1]
        self.mark = None

    # -- geometry
    def size(self):
        if self.real:
            return self.real
        return (int(float(self.opts["-width"])) + 2 * self.inset, int(float(self.opts["-height"])) + 2 * self.inset)

    def configure(self, args):
        r = super().configure(args)
        given = {ALIAS.get(k, k) for k in args[::2]}
        if "-scrollregion" in given:
            v = words(self.opts["-scrollregion"])
            self.region = [self.pixels(x) for x in v] if len(v) == 4 else None
        self.place(*self.org)
        self.app.later(self)
        return r

    @staticmethod
    def pixels(x):
        x = float(x)
        return int(x + 0.5) if x >= 0 else int(x - 0.5)

    def place(self, x, y):
        if self.region:
            w, h = self.size()
            org = []
            for o, lo, hi, n in ((x, self.region[0], self.region[2], w), (y, self.region[1], self.region[3], h)):
                before = o + self.inset - lo
                after = hi - (o + n - self.inset)
                if before < 0 < after:
                    o += min(after, -before)
                elif after < 0 < before:
                    o -= min(before, -after)
                org.append(o)
            x, y = org
        self.org = [x, y]
        self.app.later(self)

    def bars(self):
        w, h = self.size()
        for i, (opt, n) in enumerate((("-xscrollcommand", w), ("-yscrollcommand", h))):
            if self.opts[opt]:
                lo = self.org[i] + self.inset
                hi = self.org[i] + n - self.inset
                if self.region and self.region[2 + i] > self.region[i]:
                    a, b = self.region[i], self.region[2 + i]
                    f = (max(0.0, (lo - a) / (b - a)), min(1.0, (hi - a) / (b - a)))
                else:
                    f = (0.0, 1.0)
                self.app.run(self.opts[opt], "%g" % f[0], "%g" % f[1])

    def view(self, i, args):
        if not args:
            return self.app.widgets[self.path].range
        n = self.size()[i]
        if args[0] == "moveto":
            if self.region:
                a, b = self.region[i], self.region[2 + i]
            else:
                a, b = 0, 0
            new = a - self.inset + int(math.floor(float(args[1]) * (b - a) + 0.5))
        else:
            k = int(args[1])
            inc = float(self.opts["-xscrollincrement" if i == 0 else "-yscrollincrement"] or 0)
            if str(args[2]).startswith("p"):
                step = 0.9 * n
            else:
                step = inc if inc > 0 else 0.1 * n
            new = int(self.org[i] + k * step)
        org = list(self.org)
        org[i] = new
        self.place(*org)
        return ""

    # -- items
    def find(self, what):
        what = plain(what)
        if isinstance(what, int) or re.fullmatch(r"-?\d+", str(what)):
            return [it for it in self.items if it.id == int(what)]
        if what == "all":
            return list(self.items)
        return [it for it in self.items if str(what) in it.tags()]

    def command(self, sub, args):
        args = list(args)
        if sub == "create":
            kind = args.pop(0)
            xy = []
            while args and not (isinstance(args[0], str) and re.match(r"-[a-z]", args[0])):
                v = args.pop(0)
                xy.extend(float(q) for q in (words(v) if isinstance(v, (tuple, list)) else [v]))
            opts = {ALIAS.get(k, k): plain(v) if k not in ("-tag", "-tags") else v for k, v in zip(args[::2], args[1::2])}
            if kind == "polygon" and len(xy) < 2 or kind == "text" and len(xy) != 2:
                raise tkinter.TclError("wrong # coordinates")
            it = Item(self.next, kind, xy, opts)
            self.next += 1
            self.items.append(it)
            return it.id
        if sub == "delete":
            for w in args:
                for it in self.find(w):
                    self.items.remove(it)
            return ""
        if sub in ("itemconfigure", "itemconfig"):
            for it in self.find(args[0]):
                for k, v in zip(args[1::2], args[2::2]):
                    it.opts[ALIAS.get(k, k)] = plain(v) if k not in ("-tag", "-tags") else v
            return ""
        if sub == "itemcget":
            its = self.find(args[0])
            return its[0].opts.get(ALIAS.get(args[1], args[1]), "") if its else ""
        if sub == "gettags":
            its = self.find(args[0])
            return tuple(its[0].tags()) if its else ()
        if sub == "type":
            its = self.find(args[0])
            return its[0].kind if its else ""
        if sub == "find":
            if args[0] == "all":
                return tuple(it.id for it in self.items)
            if args[0] == "withtag":
                return tuple(it.id for it in self.find(args[1]))
            if args[0] == "closest":
                x, y = float(args[1]), float(args[2])
                best, who = None, None
                for it in self.items:
                    if it.shown() and it.kind != "window":
                        d = it.far(x, y)
                        if best is None or d <= best:
                            best, who = d, it
                self.app.closest = who
                return () if who is None else (who.id,)
            raise tkinter.TclError("find " + str(args[0]))
        if sub == "scale":
            x, y, a, b = (float(v) for v in args[1:5])
            if a == 0 or b == 0:
                raise tkinter.TclError("scale factor cannot be zero")
            for it in self.find(args[0]):
                it.xy = [x + a * (v - x) if i % 2 == 0 else y + b * (v - y) for i, v in enumerate(it.xy)]
            return ""
        if sub == "move":
            for it in self.find(args[0]):
                it.xy = [v + float(args[1 + i % 2]) for i, v in enumerate(it.xy)]
            return ""
        if sub == "coords":
            its = self.find(args[0])
            if len(args) == 1:
                return tuple(its[0].xy) if its else ()
            if its:
                its[0].xy = [float(v) for a in args[1:] for v in (words(a) if isinstance(a, (tuple, list)) else [a])]
            return ""
        if sub == "bbox":
            bs = [it.box() for w in args for it in self.find(w) if it.shown()]
            if not bs:
                return ""
            return (min(b[0] for b in bs), min(b[1] for b in bs), max(b[2] for b in bs), max(b[3] for b in bs))
        if sub in ("canvasx", "canvasy"):
            return float(args[0]) + self.org[sub == "canvasy"]
        if sub in ("raise", "lower"):
            moved = self.find(args[0])
            rest = [it for it in self.items if it not in moved]
            if len(args) > 1:
                ref = self.find(args[1])
                if not ref:
                    raise tkinter.TclError("tagOrId \"%s\" doesn't match any items" % (args[1],))
                i = self.items.index(ref[-1] if sub == "raise" else ref[0])
                i = len([it for it in self.items[:i + (sub == "raise")] if it not in moved])
            else:
                i = len(rest) if sub == "raise" else 0
            if moved:
                self.items = rest[:i] + moved + rest[i:]
            return ""
        if sub in ("xview", "yview"):
            return self.view(sub == "yview", [plain(a) for a in args])
        if sub == "scan":
            x, y = int(args[1]), int(args[2])
            if args[0] == "mark":
                self.mark = (x, y, self.org[0], self.org[1])
            elif self.mark:
                g = int(args[3]) if len(args) > 3 else 10
                self.place(self.mark[2] - g * (x - self.mark[0]), self.mark[3] - g * (y - self.mark[1]))
            return ""
        return super().command(sub, args)


class App:
    """stands for the object returned by _tkinter.create"""

    def __init__(self):
        self.widgets = {".": Widget(self, "toplevel", ".")}
        self.vars = {"tk_version": "8.6", "tcl_version": "8.6", "tk_patchLevel": "8.6.14"}
        self.tracing = {}
        self.commands = {}
        self.allbind = {}
        self.idle = []
        self.boxes = []
        self.color = ""
        self.dialog = None
        self.closest = None
        self.errors = []

    # -- interface used by tkinter
    def getvar(self, name):
        if str(name) not in self.vars:
            raise tkinter.TclError("can't read \"%s\": no such variable" % name)
        return self.vars[str(name)]

    globalgetvar = getvar

    def setvar(self, name, value):
        self.vars[str(name)] = value
        for cmd in list(self.tracing.get(str(name), [])):
            self.run(cmd, str(name), "", "w")

    globalsetvar = setvar

    def globalunsetvar(self, name):
        self.vars.pop(str(name), None)

    unsetvar = globalunsetvar

    def createcommand(self, name, f):
        self.commands[str(name)] = f

    def deletecommand(self, name):
        self.commands.pop(str(name), None)

    def getint(self, v):
        if isinstance(v, int):
            return v
        try:
            return int(str(v), 0)
        except ValueError:
            raise tkinter.TclError("expected integer but got \"%s\"" % v)

    def getdouble(self, v):
        try:
            return float(v)
        except ValueError:
            raise tkinter.TclError("expected floating-point number but got \"%s\"" % v)

    def getboolean(self, v):
        return str(v).lower() in ("1", "true", "yes", "on")

    def splitlist(self, v):
        return tuple(words(v))

    def wantobjects(self, *a):
        return 1

    def mainloop(self, n=0):
        return None

    def quit(self):
        return None

    def willdispatch(self):
        return None

    def interpaddr(self):
        return 0

    def dooneevent(self, *a):
        return 0

    def eval(self, s):
        return ""

    def loadtk(self):
        return None

    # -- running things
    def later(self, canvas):
        if canvas not in self.idle:
            self.idle.append(canvas)

    def settle(self):
        for _ in range(5):
            todo, self.idle = self.idle, []
            for c in todo:
                c.bars()
            if not todo:
                break

    def run(self, cmd, *args):
        cmd = str(plain(cmd))
        if not cmd:
            return ""
        name, *more = cmd.split()
        if name in self.commands:
            return self.commands[name](*more, *args)
        if name in self.widgets:
            return self.call(name, *more, *args)
        return ""

    def call(self, *args):
        if len(args) == 1 and isinstance(args[0], tuple):
            args = args[0]
        name, args = str(plain(args[0])), [a if isinstance(a, tuple) else plain(a) for a in args[1:]]
        if name in self.widgets:
            return self.widgets[name].command(str(args[0]), args[1:])
        if name in ("frame", "canvas", "button", "label", "scrollbar", "spinbox", "menubutton", "menu", "entry", "toplevel",
                    "checkbutton", "radiobutton", "labelframe", "scale", "listbox", "message", "text"):
            path = str(args[0])
            w = (Canvas if name == "canvas" else Widget)(self, name, path)
            self.widgets[path] = w
            w.configure(args[1:])
            return path
        f = getattr(self, "do_" + name, None)
        return f(args) if f else ""

    def do_bind(self, a):
        where = self.allbind if a[0] == "all" else self.widgets[str(a[0])].bind
        if len(a) < 3:
            return where.get(a[1], "") if len(a) == 2 else tuple(where)
        if str(a[2]).startswith("+"):
            where[a[1]] = where.get(a[1], "") + "\n" + a[2][1:]
        else:
            where[a[1]] = a[2]
        return ""

    def do_trace(self, a):
        if a[0] == "variable":
            self.tracing.setdefault(str(a[1]), []).append(a[3])
        elif a[0] == "add":
            self.tracing.setdefault(str(a[2]), []).append(a[4])
        return ""

    def do_update(self, a):
        self.settle()
        return ""

    def do_winfo(self, a):
        if a[0] == "toplevel":
            return "."
        if a[0] in ("width", "reqwidth"):
            return self.widgets[str(a[1])].size()[0]
        if a[0] in ("height", "reqheight"):
            return self.widgets[str(a[1])].size()[1]
        if a[0] == "rgb":
            v = str(a[2]).lstrip("#")
            return tuple(257 * int(v[i:i + 2], 16) for i in (0, 2, 4))
        if a[0] == "exists":
            return int(str(a[1]) in self.widgets)
        if a[0] in ("ismapped", "viewable"):
            return 1
        return ""

    def do_destroy(self, a):
        p = str(a[0])
        for k in [k for k in self.widgets if k == p or (k.startswith(p + ".") and p != ".")]:
            del self.widgets[k]
        return ""

    def do_tkwait(self, a):
        if a[0] == "window" and self.dialog:
            f, self.dialog = self.dialog, None
            f(str(a[1]))
        return ""

    def do_tk_messageBox(self, a):
        o = dict(zip(a[::2], a[1::2]))
        self.boxes.append((str(o.get("-title", "")), str(o.get("-message", ""))))
        return "ok"

    def do_tk_chooseColor(self, a):
        return self.color

    # -- the user
    def children(self, path, kind):
        return [w for p, w in self.widgets.items() if p.startswith(path + ".") and w.kind == kind]

    def event(self, path, seq, **kw):
        """an event with bindings on the widget, then on all"""
        found = [b[seq] for b in (self.widgets[path].bind, self.allbind) if seq in b]
        subst = {"%#": 1, "%b": "??", "%f": "??", "%h": "??", "%k": "??", "%s": 0, "%t": 0, "%w": "??", "%x": 0, "%y": 0,
                 "%A": "??", "%E": "0", "%K": "??", "%N": "??", "%W": path, "%T": "4", "%X": 0, "%Y": 0, "%D": 0}
        subst.update({"%" + k: v for k, v in kw.items()})
        for script in found:
            for m in re.finditer(r'"\[(\S+) ([^\]]*)\]"', script):
                if self.run(m.group(1), *[str(subst.get(x, x)) for x in m.group(2).split()]) == "break":
                    return len(found)
        return len(found)

    def press(self, widget):
        return self.run(widget.opts.get("-command", ""))


def install(app):
    """make the next Tk() use app"""
    tkinter._default_root = None
    tkinter._support_default_root = True
    import _tkinter
    tkinter._tkinter.create = lambda *a, **k: app

    def report(self, exc, val, tb):
        app.errors.append(exc.__name__)
        import os
        if os.environ.get("VERIF_TB"):
            import traceback
            traceback.print_exception(exc, val, tb)
    tkinter.Tk.report_callback_exception = report
