"""C14: drawing never disturbs the optics, nor an earlier drawing a later one."""
import numpy as np
from .common import *
from . import queries as Q
from .c03 import one
from .c04 import Rec
from sim.world import instrument_package

ID = "C14"
RUNS = {"quick": 1100, "thorough": 40000}
RULE = ("seeded runs: one or two paths (imaging, laser, cavity; elements may be shared) and 2-9 operations: displays with any "
        "arguments, saves to a file (disk full, errors, missing folders), design changes (also refused ones), displays of single "
        "elements and of ray collections, edits, failing drawings and drawings interrupted at a random interpreter step; while "
        "a figure is shown the user zooms, resizes, clicks on check boxes, presses Ctrl-C or draws another path; every drawing "
        "is compared, artist by artist, with the same drawing on a freshly built path in a fresh copy of the package, every "
        "traced line with the reference tracer, and the path with what it was; non-trivial: a drawing was compared after "
        "another one, an event or a failure")
REAL = ["raytracing (all modules, fresh copies)", "numpy", "matplotlib figures, artists, widgets, events and Agg rendering"]
STUB = ["window and event loop (plt.show runs the scripted user)", "file system below matplotlib", "saved resolution lowered",
        "clock", "interruption of calls (exception raised at a chosen interpreter instruction)"]
ASSUMPTIONS = ["labels may be moved horizontally by events; their place after events is that of a figure brought to the same "
               "view directly", "the object height may follow the field of view, and stays there after a drawing"]
RESAMPLE = 60
FILES = {"figure.py", "graphics.py", "graphicComponents.py", "imagingpath.py", "laserpath.py", "lasercavity.py"}
LIMIT = 400_000
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def setup():
    import matplotlib.backends.backend_svg, matplotlib.backends.backend_pdf, matplotlib.style  # noqa
    instrument_package(FILES)


# ---------------------------------------------------------------- scenarios
COLORS = {"rayColors": [["c", "m", "k"], ["0.1"], ["purple", "orange"]], "lampRayColors": [["olive"], ["y", "g"]],
          "objectColor": ["teal", "0.1"], "imageColor": ["brown", "0.3"], "FOVColors": [["navy", "salmon"]],
          "fontScale": [0.7, 1.0, 1.6], "fillImage": [True, False], "fillObject": [True, False],
          "showObjectImage": [True, False], "onlyAxialRay": [True, False]}


SHOWS = ["showEntrancePupil", "showPointsOfInterest", "showObject", "showImages", "showElementLabels", "showElementLabels",
         "showPointsOfInterestLabels"]


def g_rays(rng):
    k = rng.choice(["obj", "obj", "obj", "lamp", "uniform", "list", "random"])
    s = {"k": k, "d": rng.choice([1, 4, 10]), "a": rng.choice([0.02, 0.1, 0.3]), "H": rng.choice([1, 2, 3]),
         "T": rng.choice([1, 2, 3]), "z": rng.choice([0, 0, 0, 5, 12, -3]), "label": rng.choice([None, None, "thing"]),
         "colors": rng.choice([None, None, ["pink"], ["k", "0.5"]])}
    if k == "list":
        s["rays"] = [g_ray(rng) for _ in range(rng.randint(1, 3))]
    return s


def g_ui(rng, n):
    out = []
    for _ in range(n):
        k = rng.choices(["zoom", "resize", "click", "reset", "draw", "ctrlc", "other", "moved"],
                        [3, 1.5, 4, 0.7, 0.7, 0.3, 0.4, 0.5])[0]
        e = {"e": k}
        if k == "zoom":
            a = rng.uniform(0, 0.8)
            e["x"] = rng.choice([None, [a, a + rng.uniform(0.05, 0.6)], [-1, 2]])
            e["y"] = rng.choice([0.1, 0.5, 1, 2, 5])
        elif k == "resize":
            e["s"] = rng.choice([[5, 4], [14, 7], [10, 7], [3, 2]])
        elif k == "click":
            e["i"] = rng.randrange(6)
        elif k == "other":
            e["p"] = rng.randrange(2)
        out.append(e)
    return out


def g_kw(rng):
    kw = {}
    if rng.random() < 0.3:
        kw["removeBlocked"] = rng.random() < 0.5
    if rng.random() < 0.25:
        kw["comments"] = rng.choice(["a comment", ""])
    if rng.random() < 0.25:
        kw["onlyPrincipalAndAxialRays"] = rng.random() < 0.5
    if rng.random() < 0.3:
        kw["limitObjectToFieldOfView"] = rng.random() < 0.5
    return kw


def g_design(rng):
    kw = {}
    if rng.random() < 0.35:
        kw["style"] = rng.choice(["publication", "presentation", "default", "fancy"])
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice(sorted(COLORS))
        kw[n] = rng.choice(COLORS[n])
    return kw


def g_op(rng, kind, npaths, nrays):
    k = rng.choices(["display", "save", "design", "eldisplay", "raydisplay", "edit", "aperture", "object", "flag", "bad",
                     "withobject", "mutate"], [8, 2.5, 3, 1, 0.4, 1, 1, 0.7, 0.7, 1, 0.5, 0.4])[0]
    o = {"op": k, "p": rng.randrange(npaths)}
    if k in ("display", "save"):
        o["rays"] = [rng.randrange(nrays) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        o["kw"] = g_kw(rng)
        o["single"] = rng.random() < 0.5
        o["w"] = [rng.choice([0.5, 1, 0.05]) for _ in range(rng.choice([0, 1, 1, 2]))]
    if k == "display":
        o["interactive"] = rng.random() < 0.7
        o["ui"] = g_ui(rng, rng.choice([0, 0, 2, 4, 7]))
    if k == "save":
        o["f"] = rng.choice(["a.png", "a.png", "b.svg", "c.pdf", "gone/d.png", "e.nosuch"])
        if rng.random() < 0.5:
            o["fault"] = {"kind": rng.choice(["ENOSPC", "EIO", "torn", "short", "interrupt", "EACCES", "stall"]),
                          "n": rng.choice([1, 2, 3, 4, 6]), "sticky": rng.random() < 0.3}
    if k == "design":
        o["kw"] = g_design(rng)
    if k in ("edit", "aperture", "eldisplay"):
        o["i"] = rng.randrange(6)
    if k == "edit":
        o["e"] = rng.choice(["append", "pop"])
        o["new"] = one(rng)
    if k == "aperture":
        o["D"] = rng.choice([None, 1, 3, 8, 15, 25])
    if k == "object":
        o["h"] = rng.choice([1, 5, 20])
    if k == "withobject":
        o["d"] = rng.choice([2, 8])
    if k == "flag":
        o["name"] = rng.choice(SHOWS)
        o["v"] = rng.random() < 0.5
    if k == "bad":
        o["what"] = rng.choice(["rays", "comments", "colors", "infinite", "show", "title"])
    if k == "raydisplay":
        o["r"] = rng.randrange(nrays)
    if k in ("display", "save", "eldisplay", "withobject") and rng.random() < 0.3:
        o["at"] = round(rng.random(), 4)
        if rng.random() < 0.25:
            o["at"] = round(1 - rng.random() * 0.02, 5)        # the clearing up
        o["exc"] = rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])
    return o


def g_label(rng, els):
    for e in els:
        if rng.random() < 0.4 and e["k"] not in ("space", "group"):
            e["label"] = rng.choice(["L1", "objective lens", "$f_1$"])
    return els


def generate(rng, tier):
    kind = rng.choice(["path", "path", "path", "path", "laser", "cavity"])
    n = rng.choice([1, 1, 2])
    els = g_label(rng, g_elements(rng, rng.randint(1, 5), axicon=kind == "path" and rng.random() < 0.3))
    if kind == "path" and rng.random() < 0.5:
        f = rng.choice([10, 20])
        els = g_label(rng, [{"k": "space", "d": f, "n": 1.0, "D": None}, {"k": "lens", "f": f, "D": rng.choice([10, 25])},
                            {"k": "space", "d": f + 5, "n": 1.0, "D": None}, {"k": "aper", "D": 8}]) + els[:2]
        if any(e["k"] in ("iface",) for e in els):
            els = els[:4]
    nrays = rng.randint(1, 3)
    ops = [g_op(rng, kind, n, nrays) for _ in range(rng.choice([2, 3, 5, 8]))]
    p = rng.randrange(n)
    ops.append({"op": "display", "p": p, "rays": [0], "kw": g_kw(rng), "single": True, "w": [1], "interactive": True,
                "ui": g_ui(rng, rng.choice([0, 3]))})
    rays = [g_rays(rng) for _ in range(nrays)]
    if rng.random() < 0.2:          # objects at several places in one window, clicked in turn
        rays += [dict(g_rays(rng), k="obj", z=z) for z in rng.sample([0, 0, 5, 12, -3], 2)]
        i = [j for j, r in enumerate(rays) if r["k"] in ("obj", "lamp")][-3:]
        ops.insert(rng.randrange(len(ops) + 1), {
            "op": "display", "p": rng.randrange(n), "rays": i, "kw": {}, "single": False, "w": [], "interactive": True,
            "ui": [{"e": "click", "i": j} for j in rng.sample(range(6), rng.randint(1, 3))]})
    if rng.random() < 0.2:          # something hidden, and the drawing stopped on the way
        p = rng.randrange(n)
        new = [{"op": "flag", "p": p, "name": rng.choice(SHOWS), "v": False},
               {"op": "display", "p": p, "rays": [rng.randrange(nrays)], "kw": {}, "single": True, "w": [1], "interactive": False, "ui": [],
                "at": round(rng.random() * 0.9, 4), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}]
        i = rng.randrange(len(ops) + 1)
        ops[i:i] = new[rng.randrange(5) == 0:]
    return {"kind": kind, "n": n, "els": els, "shared": rng.random() < 0.5, "rays": rays,
            "ops": ops, "label": rng.choice(["", "My path"]), "np": rng.getrandbits(31)}


# ---------------------------------------------------------------- what a figure shows
def rgba(c):
    import matplotlib.colors as mc
    if c is None:
        return None
    a = np.asarray(mc.to_rgba_array(c)) if not isinstance(c, tuple) else np.asarray([mc.to_rgba(c)])
    return tuple(round(float(v), 6) for v in a.ravel())


def r_text(t):
    return ("text", t.get_text(), tuple(float(v) for v in t.get_position()), float(t.get_fontsize()), rgba(t.get_color()),
            bool(t.get_visible()), t.get_horizontalalignment())


def r_line(l):
    x, y = l.get_data()
    return ("line", tuple(float(v) for v in np.asarray(x)), tuple(float(v) for v in np.asarray(y)), rgba(l.get_color()),
            float(l.get_linewidth()), l.get_linestyle(), str(l.get_marker()), bool(l.get_visible()), l.get_label()
            if not str(l.get_label()).startswith("_") else "")


def r_patch(p, ax):
    import matplotlib.patches as mp
    face = (type(p).__name__, rgba(p.get_edgecolor()), rgba(p.get_facecolor()), bool(p.get_fill()), float(p.get_linewidth()),
            str(p.get_linestyle()), bool(p.get_visible()))
    if isinstance(p, mp.FancyArrowPatch):
        return ("arrow", tuple(tuple(float(v) for v in q) for q in (p._posA_posB or ())), face)
    v = p.get_path().vertices
    t = (p.get_transform() - ax.transData).transform(v)
    return ("patch", tuple(float(i) for i in v.ravel()), tuple(float(i) for i in np.asarray(t).ravel()), face)


def record(fig):
    """everything the figure shows, as comparable values"""
    from matplotlib.lines import Line2D
    from matplotlib.patches import Patch
    from matplotlib.text import Text
    axes = list(fig.axes)
    if not axes:
        return ("empty",)
    ax = axes[0]
    out = [("title", r_text(ax.title), ax.get_xlabel(), ax.get_ylabel(), float(ax.xaxis.label.get_fontsize())),
           ("view", tuple(map(float, ax.get_xlim())), tuple(map(float, ax.get_ylim())))]
    for c in ax.get_children():
        if c in (ax.title, ax._left_title, ax._right_title, ax.patch):
            continue
        if isinstance(c, Line2D):
            out.append(r_line(c))
        elif isinstance(c, Text):
            out.append(r_text(c))
        elif type(c).__name__ in ("Spine", "XAxis", "YAxis"):
            continue
        elif isinstance(c, Patch):
            out.append(r_patch(c, ax))
        else:
            out.append((type(c).__name__,))
    for a in axes[1:]:
        out.append(("axes", tuple(r_text(t) for t in a.texts), len(a.lines), len(a.patches), len(a.collections),
                    tuple(round(float(v), 6) for v in a.get_position().bounds)))
    cb = boxes(fig)
    if cb is not None:
        out.append(("boxes", tuple(l.get_text() for l in cb.labels), tuple(bool(b) for b in cb.get_status())))
    return tuple(out)


def boxes(fig):
    """the check boxes listening to the figure's mouse"""
    from matplotlib.widgets import CheckButtons
    for ref in list(fig.canvas.callbacks.callbacks.get("button_press_event", {}).values()):
        f = ref()
        while f is not None and not isinstance(getattr(f, "__self__", None), CheckButtons):
            f = getattr(f, "__wrapped__", None) or (f.__self__ if hasattr(f, "__self__") and callable(f.__self__) else None)
        if f is not None:
            return f.__self__
    return None


def shape(r):
    """a recording without what events may change: label positions, visibility, drawn widths, view"""
    out = []
    for a in r:
        if a[0] == "text":
            out.append(a[:2] + (a[2][1],) + a[3:])
        elif a[0] == "line":
            out.append(a[:7] + a[8:])
        elif a[0] == "patch":
            out.append((a[0], a[1], tuple(a[2][1::2]), a[3][:-1]))
        elif a[0] == "arrow":
            out.append((a[0], a[1], a[2][:-1]))
        elif a[0] in ("view", "boxes"):
            pass
        elif a[0] == "axes":
            out.append(a[:5])
        else:
            out.append(a)
    return tuple(out)


def vis(r):
    out = []
    for a in r:
        if a[0] == "line":
            out.append(a[7])
        elif a[0] == "text":
            out.append(a[5])
        elif a[0] == "patch":
            out.append(a[3][-1])
        elif a[0] == "arrow":
            out.append(a[2][-1])
        else:
            out.append(None)
    return out


def differ(a, b, tol=1e-9):
    """the first difference of two recordings, or None"""
    if len(a) != len(b):
        ka, kb = [x[0] for x in a], [x[0] for x in b]
        extra = [x for x in a if x not in b][:2] + [x for x in b if x not in a][:2]
        return "%d artists instead of %d (%s / %s): %s" % (len(a), len(b), tally(ka), tally(kb), short(extra))
    for x, y in zip(a, b):
        if not Q.same(x, y, tol):
            return "%s: %s" % (short(str(x)[:150]), inner(x, y, tol))
    return None


def inner(x, y, tol):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        for i, (a, b) in enumerate(zip(x, y)):
            if not Q.same(a, b, tol):
                return "[%d]%s" % (i, inner(a, b, tol))
    return " %s instead of %s" % (short(x), short(y))


def tally(k):
    return " ".join("%s:%d" % (n, k.count(n)) for n in sorted(set(k)))


def short(x):
    s = str(x)
    return s if len(s) < 500 else s[:500] + "..."


# ---------------------------------------------------------------- the user in front of the window
class Stop(Exception):
    pass


class Show:
    """stands for the event loop of plt.show()"""

    def __init__(self, d):
        self.d = d

    def __call__(self, *a, **k):
        import matplotlib.pyplot as plt
        d = self.d
        if not plt.get_fignums():
            return
        if d.depth > 1:
            d.nested.append(record(plt.gcf()))
            return
        fig = plt.gcf()
        d.shown += 1
        d.rec = record(fig)
        if d.fail == "show":
            raise OSError("cannot open display")
        if d.twin:
            self.direct(fig)
        else:
            for no, e in enumerate(d.ui):
                self.event(fig, e, "event %d %s: " % (no, e))
        d.final = record(fig)

    def limits(self, fig, e):
        ax = fig.axes[0]
        x0, x1 = self.home[0]
        y0, y1 = self.home[1]
        if e["x"] is not None:
            w = x1 - x0
            ax.set_xlim(x0 + e["x"][0] * w, x0 + e["x"][1] * w)
        ax.set_ylim(y0 * e["y"], y1 * e["y"])

    def resized(self, fig, s):
        from matplotlib.backend_bases import ResizeEvent
        fig.set_size_inches(*s)
        fig.canvas.callbacks.process("resize_event", ResizeEvent("resize_event", fig.canvas))

    def press(self, fig, i):
        """the user clicks on the i-th box; returns its name or None"""
        from matplotlib.backend_bases import MouseEvent
        cb = boxes(fig)
        if cb is None or not cb.labels:
            return None
        t = cb.labels[i % len(cb.labels)]
        bb = t.get_window_extent(fig.canvas.get_renderer())
        x, y = min((bb.x0 + bb.x1) / 2, cb.ax.bbox.x1 - 1), (bb.y0 + bb.y1) / 2
        if x <= bb.x0 or not cb.ax.bbox.contains(x, y):
            return None           # the window is too small to reach it
        for kind in ("button_press_event", "button_release_event"):
            ev = MouseEvent(kind, fig.canvas, x, y, 1)
            fig.canvas.callbacks.process(kind, ev)
        return t.get_text()

    def event(self, fig, e, msg):
        d = self.d
        ax = fig.axes[0]
        if not hasattr(self, "home"):
            self.home = (ax.get_xlim(), ax.get_ylim())
        before = record(fig)
        k = e["e"]
        d.w.log("event %s" % k)
        d.res.probes["event " + k] += 1
        if k == "zoom":
            self.limits(fig, e)
        elif k == "reset":
            ax.set_xlim(*self.home[0])
            ax.set_ylim(*self.home[1])
        elif k == "resize":
            self.resized(fig, e["s"])
        elif k == "draw":
            fig.canvas.draw()
        elif k == "moved":
            from matplotlib.backend_bases import MouseEvent
            ev = MouseEvent("motion_notify_event", fig.canvas, 100, 100)
            fig.canvas.callbacks.process("motion_notify_event", ev)
        elif k == "ctrlc":
            d.final = before
            d.ctrlc = True
            raise KeyboardInterrupt()
        elif k == "other":
            d.other(e)
        elif k == "click":
            b0 = boxes(fig)
            st0 = dict(zip([l.get_text() for l in b0.labels], b0.get_status())) if b0 is not None else {}
            name = self.press(fig, e["i"])
            if name is None:
                d.res.probes["no boxes"] += 1
                return
            d.clicked.append(name)
            after = record(fig)
            st1 = dict(zip([l.get_text() for l in b0.labels], b0.get_status()))
            if [n for n in st0 if st0[n] != st1[n]] != [name]:
                raise Bad("boxes", msg + "the boxes went from %s to %s" % (st0, st1))
            a, b = vis(before), vis(after)
            if len(a) == len(b):
                S = {i for i in range(len(a)) if a[i] != b[i]}
                if not S:
                    raise Bad("click-ignored", msg + "a click on %r changed nothing" % name)
                want = st1[name]
                if any(b[i] != want for i in S):
                    raise Bad("click-inconsistent", msg + "after a click on %r (now %s) its artists are %s" % (
                        name, want, sorted({b[i] for i in S})))
                old = d.groups.setdefault(name, S)
                if old != S:
                    raise Bad("click-wrong-group", msg + "%r toggled %d artists, and now %s" % (
                        name, len(old), len(S)))
                for n, o in d.groups.items():
                    if n != name and o & S:
                        raise Bad("click-wrong-group", msg + "%r and %r toggle the same artists" % (n, name))
                self.colours(name, after, S, msg)
            if differ(clear(before), clear(after)):
                raise Bad("click-moves", msg + differ(clear(before), clear(after)))
        if k != "click":
            after = record(fig)
            if vis(before) != vis(after):
                raise Bad("event-hides", msg + "changed what is visible")
        if differ(shape(after), shape(before)):
            raise Bad("event-disturbs", msg + differ(shape(after), shape(before)))
        d.done.append(e)

    def colours(self, name, r, S, msg):
        """the artists of a group are recognised by the colours the user gave them"""
        allow = self.d.colours.get(name)
        if not allow:
            return
        for i in range(len(r)):
            a = r[i]
            c = a[3][1] if a[0] == "patch" else a[3] if a[0] == "line" else None
            if c is None:
                continue
            if (c in allow) != (i in S):
                raise Bad("click-wrong-group", msg + "%r %s %s" % (name, "toggled" if i in S else "did not toggle", short(a)))

    def direct(self, fig):
        """bring a fresh figure straight to where the events led"""
        ax = fig.axes[0]
        self.home = (ax.get_xlim(), ax.get_ylim())
        size = x = y = None
        for e in self.d.done:
            if e["e"] == "resize":
                size = e["s"]
            elif e["e"] == "zoom":
                x = e["x"] if e["x"] is not None else x
                y = e["y"]
            elif e["e"] == "reset":
                x = y = None
                y = 1
                x = [0, 1]
        n = {}
        for c in self.d.clicked:
            n[c] = n.get(c, 0) + 1
        cb = boxes(fig)
        for c in sorted(n):
            if n[c] % 2:
                i = [l.get_text() for l in cb.labels].index(c)
                if self.press(fig, i) is None:
                    cb.set_active(i)
        if size:
            self.resized(fig, size)
        if x is not None or y is not None:
            self.limits(fig, {"x": x, "y": 1 if y is None else y})


def clear(r):
    """a recording without visibility and boxes"""
    out = []
    for a in r:
        if a[0] == "text":
            out.append(a[:5] + a[6:])
        elif a[0] == "line":
            out.append(a[:7] + a[8:])
        elif a[0] == "patch":
            out.append(a[:3] + (a[3][:-1],))
        elif a[0] == "arrow":
            out.append(a[:2] + (a[2][:-1],))
        elif a[0] == "axes":
            out.append(a[:2])
        elif a[0] != "boxes":
            out.append(a)
    return tuple(out)


class Bad(Exception):
    pass


class Drawing:
    """one call that draws, and what came of it"""

    def __init__(self, w, res, twin=False, ui=(), fail=None):
        self.w, self.res, self.twin, self.ui, self.fail = w, res, twin, ui, fail
        self.rec = self.final = None
        self.shown = self.depth = 0
        self.done, self.clicked, self.nested = [], [], []
        self.groups, self.colours = {}, {}
        self.ctrlc = False
        self.saved = None
        self.bad = None

    def other(self, e):
        pass


# ---------------------------------------------------------------- subjects
def mk_rays(rt, s):
    k = s["k"]
    if k == "obj":
        return rt.ObjectRays(s["d"], halfAngle=s["a"], H=s["H"], T=s["T"], z=s["z"], rayColors=s["colors"], label=s["label"])
    if k == "lamp":
        return rt.LampRays(s["d"], NA=s["a"], N=s["H"], T=s["T"], z=s["z"], rayColors=s["colors"], label=s["label"])
    if k == "random":
        np.random.seed(7)
        r = rt.LampRays(s["d"], NA=s["a"], N=s["H"] * 2, random=True, z=s["z"], rayColors=s["colors"], label=s["label"])
        for _ in r:
            pass
        return r
    if k == "uniform":
        return rt.UniformRays(yMax=s["d"], thetaMax=s["a"], M=s["H"], N=s["T"])
    return [ray(rt, x) for x in s["rays"]]


class Subject:
    """a path of one session, and what the user did to it"""

    def __init__(self, rt, scn, els, height=None):
        self.rt, self.kind = rt, scn["kind"]
        p = self.p = Q.make(rt, scn["kind"], els, scn["label"])
        self.path = scn["kind"] == "path"
        if self.path:
            p.precision, p.maxHeight = 0.05, 60
        if scn["kind"] == "laser":
            p.inputBeam = rt.GaussianBeam(w=1)
        self.limit = True
        self.user = []

    def act(self, o, keep=True):
        """design, flags and object height"""
        p = self.p
        if o["op"] == "design":
            p.design(**o["kw"])
            if "style" in o["kw"]:
                self.limit = True          # a style comes with all its parameters
        elif o["op"] == "flag":
            if hasattr(p, o["name"]):
                setattr(p, o["name"], o["v"])
        elif o["op"] == "object" and self.path:
            p.objectHeight = o["h"]
            self.limit = False
        if keep:
            self.user.append(o)


BASE = {"rayColors": ["b", "r", "g"], "lampRayColors": ["y"], "imageColor": "r", "objectColor": "b", "fontScale": 1.2,
        "FOVColors": ["blue", "red"]}
PUB = dict(BASE, rayColors=["0.4", "0.2", "0.6"], imageColor="0.3", objectColor="0.1")


def design_of(user):
    """the design parameters a user's choices leave in force"""
    d = dict(BASE)
    for o in user:
        if o["op"] != "design":
            continue
        kw = o["kw"]
        if "style" in kw:
            if kw["style"] == "fancy":
                continue
            d = dict(PUB if kw["style"] == "publication" else BASE)
        d.update({a: b for a, b in kw.items() if a in d})
    return d


def do_draw(sub, o, rays, beams):
    p = sub.p
    k = o["op"]
    if k == "eldisplay":
        if len(p.elements):
            p.elements[o["i"] % len(p.elements)].display()
        return
    if k == "withobject":
        p.displayWithObject(o["d"])
        return
    kw = dict(o["kw"])
    bad = o.get("what")
    if sub.kind == "cavity":
        p.display(comments=kw.get("comments"))
        return
    if sub.kind == "laser":
        p.display(beams=beams if beams else None, comments=kw.get("comments"))
        return
    if "lim" in o and "limitObjectToFieldOfView" not in kw:
        kw["limitObjectToFieldOfView"] = o["lim"]
    mine = [rays[i] for i in o["rays"]]
    if bad == "rays":
        mine = mine + [12]
    if bad == "comments":
        kw["comments"] = object()
    if mine and o["single"] and len(mine) == 1 and not isinstance(mine[0], list):
        kw["rays"] = mine[0]
    elif mine:
        kw["raysList"] = mine
    n = len(mine)
    try:
        if k == "save":
            p.saveFigure("/simfs/work/" + o["f"], **kw)
        else:
            p.display(interactive=o["interactive"], **kw)
    finally:
        if len(mine) != n:
            raise Bad("list-changed", "the caller's list of rays went from %d to %d entries" % (n, len(mine)))


def values(rays):
    out = []
    for r in rays:
        if isinstance(r, list):
            out.append(tuple(M.ray_full(x) for x in r))
        else:
            out.append(tuple(M.ray_full(x) for x in r.rays) + (r.z if hasattr(r, "z") else None,
                                                               r.count if not callable(r.count) else None))
    return out


FLAGS = ("showEntrancePupil", "showPointsOfInterest", "showObject", "showImages", "showElementLabels",
         "showPointsOfInterestLabels", "label", "fanAngle", "fanNumber", "rayNumber", "precision", "maxHeight",
         "objectPosition", "inputBeam")


def state(p):
    return tuple((n, Q.norm(getattr(p, n))) for n in FLAGS if hasattr(p, n))


def execute(scn):
    import matplotlib.pyplot as plt
    import matplotlib.figure as mf
    res = Result()
    w = World(scn["np"])
    show0, save0 = plt.show, mf.Figure.savefig
    cur = [None]
    plt.show = lambda *a, **k: Show(cur[0])(*a, **k) if cur[0] is not None else None

    def savefig(fig, fname, **k):
        d = cur[0]
        if d is not None:
            d.rec = d.final = record(fig)
            d.saved = dict(k)
        k["dpi"] = 15
        return save0(fig, fname, **k)
    mf.Figure.savefig = savefig
    rc = dict(plt.rcParams)
    plt.rcParams["figure.dpi"] = 40
    plt.rcParams["svg.hashsalt"] = "x"
    rc1 = dict(plt.rcParams)
    try:
        with w:
            run(scn, res, w, cur, plt, rc1)
            for e in w.escapes:
                res.bad("escape", "the code reached outside: %s" % e)
    finally:
        plt.show, mf.Figure.savefig = show0, save0
        for n in rc:
            if plt.rcParams[n] != rc[n]:
                plt.rcParams[n] = rc[n]
        plt.close("all")
    res.take(w)
    return res


def run(scn, res, w, cur, plt, rc1):
    main = w.new_proc("p")
    rt = w.load(main)
    w.fs.mkd("/simfs/work")
    subs, recs = [], {}
    for i in range(scn["n"]):
        if i and scn["shared"]:
            els = list(subs[0].p.elements)
        else:
            els = build(rt, scn["els"])
            for e, s in zip(els, scn["els"]):
                recs[id(e)] = Rec(s, e)
        subs.append(Subject(rt, scn, els))
    rays = [mk_rays(rt, s) for s in scn["rays"]]
    twin = [None]
    drawn = 0
    trouble = False

    def fresh(sub):
        """the same path in a fresh copy of the package"""
        if twin[0] is None:
            twin[0] = w.new_proc("twin")
            rt2 = w.load(twin[0])
        else:
            w.switch(twin[0])
            rt2 = twin[0].rt
        els = [recs[id(e)].fresh(rt2) for e in sub.p.elements]
        t = Subject(rt2, scn, els)
        for a in FLAGS[:6]:
            if hasattr(sub.p, a):
                setattr(t.p, a, getattr(sub.p, a))
        if sub.path:
            t.p.objectHeight = sub.height
        for o in sub.user:
            if o["op"] == "design":
                try:
                    t.act(o, keep=False)
                except ValueError:
                    pass
        t.limit = sub.limit
        return rt2, t, [mk_rays(rt2, s) for s in scn["rays"]]

    for no, o in enumerate(scn["ops"]):
        if o["op"] == "save" and scn["kind"] != "path":
            o = dict(o, op="display", interactive=False, ui=[], fault=None)
        k = o["op"]
        sub = subs[o["p"] % len(subs)]
        p = sub.p
        msg = "op %d %s: " % (no, o)
        res.probes[k] += 1
        if k in ("design", "flag", "object"):
            out = call(w, sub.act, o, name=k)
            if out.kind != "ok":
                if k == "design" and o["kw"].get("style") == "fancy" and isinstance(out.err, ValueError):
                    res.probes["design refused"] += 1
                    continue
                res.bad("raised", msg + repr(out))
                return
            continue
        if k == "edit":
            shared = [s for s in subs if s is not sub and set(map(id, s.p.elements)) & set(map(id, p.elements))]
            if o["e"] == "append":
                new = build_one(rt, o["new"])
                recs[id(new)] = Rec(o["new"], new)
                if new.__class__.__name__ == "MatrixGroup":
                    continue
                out = call(w, p.append, new, name="append")
            elif len(p.elements) > 1 and not shared:
                out = call(w, p.pop, o["i"] % len(p.elements), name="pop")
            if any(id(x) not in recs for x in p.elements):
                raise HarnessError("foreign elements")
            continue
        if k == "aperture":
            if p.elements:
                e = p.elements[o["i"] % len(p.elements)]
                if not isinstance(getattr(e, "elements", None), list):
                    e.apertureDiameter = inf(o["D"])
                    recs[id(e)].mods.append(("ap", [], inf(o["D"])))
            continue
        if k == "mutate":
            continue
        if k == "raydisplay":
            r = rays[o["r"]]
            if not isinstance(r, list) and len(r) > 1:
                v = values(rays)
                d = cur[0] = Drawing(w, res)
                d.depth = 1
                out = call(w, r.display, name=k)
                cur[0] = None
                plt.close("all")
                if values(rays) != v:
                    res.bad("rays-changed", msg + "displaying rays changed them")
                    return
                trouble = True
            continue
        if k == "bad":
            o = dict(o, op="display", rays=[0], kw={}, single=False, interactive=True, ui=[], w=[1])
            k = "display"
            if o["what"] == "colors":
                try:
                    sub.act({"op": "design", "kw": {"rayColors": ["nocolour"]}})
                except Exception:
                    pass
            elif o["what"] == "title":
                if sub.kind == "path":
                    p.label, old = object(), p.label
        if k == "withobject" and not sub.path:
            continue
        # ---- a drawing
        sub.height = p.objectHeight if sub.path else None
        snap = [snap_path(s.p.elements) + [M.view(s.p).key()] for s in subs]
        flags = [state(s.p) for s in subs]
        heights = [s.p.objectHeight if s.path else None for s in subs]
        vals = values(rays)
        beams = [rt.GaussianBeam(w=x) for x in o.get("w", ())]
        bv = [M.beamv(b) for b in beams]
        special = o.get("what") or o.get("fault")

        def run_twin(ui_of=None):
            """(what a fresh path draws, number of steps, how it ended)"""
            try:
                rt2, t, rs = fresh(sub)
                d = Drawing(w, res, twin=True)
                if ui_of is not None:
                    d.done, d.clicked = ui_of.done, ui_of.clicked
                d.depth = 1
                cur[0] = d
                bs = [rt2.GaussianBeam(w=x) for x in o.get("w", ())]
                st = Stepper()
                st.bound(LIMIT)
                o2 = dict(o, lim=t.limit) if sub.path else o
                o2.pop("fault", None)
                if o2.get("f", "") in ("gone/d.png", "e.nosuch"):
                    o2["f"] = "t.png"
                try:
                    with st:
                        out = call(w, do_draw, t, o2, rs, bs, name="fresh " + k)
                finally:
                    cur[0] = None
                    plt.close("all")
                return d, st.step, out, t
            finally:
                w.switch(main)

        def attempt(exc=None, at=None):
            d = Drawing(w, res, ui=o.get("ui", ()), fail=o.get("what"))
            d.depth = 1
            d.colours = colours_of(sub, o, scn) if not o.get("what") else {}
            d.nestedbad = None

            def other(e):
                s2 = subs[e["p"] % len(subs)]
                d.depth += 1
                st, CUR.sched = CUR.sched, None
                try:
                    s2.p.display()
                except Exception as x:
                    d.res.probes["nested " + type(x).__name__] += 1
                finally:
                    d.depth -= 1
                    CUR.sched = st
                    nums = plt.get_fignums()
                    if len(nums) > 1:
                        plt.close(nums[-1])
                d.otherdrawn = True
            d.other = other
            cur[0] = d
            st = Stepper()
            try:
                with st:
                    if at is not None:
                        st.arm(at, exc)
                    else:
                        st.bound(10 * steps + 200_000)
                    out = call(w, do_draw, sub, o, rays, beams, fault=o.get("fault"), name=k)
            finally:
                cur[0] = None
                plt.close("all")
            return d, out, st

        def unharmed(m):
            for i, s in enumerate(subs):
                now = snap_path(s.p.elements) + [M.view(s.p).key()]
                if now != snap[i]:
                    return res.bad("elements-changed", m + "the elements changed: %s -> %s" % (snap[i], now))
                if state(s.p) != flags[i]:
                    return res.bad("path-changed", m + "the settings changed: %s -> %s" % (flags[i], state(s.p)))
                if s.path and s.p.objectHeight != heights[i] and s is not sub and not any(
                        e["e"] == "other" for e in o.get("ui", ())):
                    return res.bad("path-changed", m + "the object height of another path changed")
            if values(rays) != vals:
                return res.bad("rays-changed", m + "the caller's rays changed: %s -> %s" % (vals, values(rays)))
            if [M.beamv(b) for b in beams] != bv:
                return res.bad("rays-changed", m + "the caller's beams changed")
            for n in rc1:
                if plt.rcParams[n] != rc1[n]:
                    return res.bad("settings", m + "the plotting settings of the program changed: %s" % n)

        t0, steps, tout, t = run_twin()
        if tout.kind == "hang":
            if o.get("what") == "title" and sub.kind == "path":
                p.label = old
            if o.get("what") == "colors":
                sub.act({"op": "design", "kw": {"rayColors": ["b", "r", "g"]}})
            res.probes["skipped long drawing"] += 1
            continue
        if "at" in o and not special:
            d, out, st = attempt(EXC[o["exc"]](), max(1, int(o["at"] * steps)))
            if st.fired is not None:
                w.fired["interrupt_" + o["exc"]] += 1
                trouble = True
            unharmed(msg + "(interrupted in %s) " % (st.fired,))
            if res.violations:
                return
            if sub.path and p.objectHeight != sub.height:
                # it may have followed the field of view
                hs = {sub.height, t.p.objectHeight}
                if p.objectHeight not in hs:
                    res.bad("path-changed", msg + "the object height became %s, not one of %s" % (p.objectHeight, hs))
                    return
                sub.height = p.objectHeight
                t0, steps, tout, t = run_twin()
        d, out, st = attempt()
        if out.kind == "exc" and isinstance(out.err, Bad):
            res.bad(out.err.args[0], msg + out.err.args[1])
            return
        if out.kind == "hang":
            res.bad("never-returns", msg + repr(out))
            return
        unharmed(msg)
        if res.violations:
            return
        if o.get("what") == "title" and sub.kind == "path":
            p.label = old
        if o.get("what") == "colors":
            sub.act({"op": "design", "kw": {"rayColors": ["b", "r", "g"]}})
        nested = any(e["e"] == "other" for e in d.done)
        # a fresh path fails in the same way
        if not special and k != "save" and (out.kind, type(out.err)) != (tout.kind, type(tout.err)):
            res.bad("fails-differently", msg + "%r, a fresh path: %r" % (out, tout))
            return
        if sub.path and not nested and not special and p.objectHeight != t.p.objectHeight and (k != "save" or out.ok):
            res.bad("path-changed", msg + "the object height is %s, that of a fresh path %s" % (
                p.objectHeight, t.p.objectHeight))
            return
        if special or not out.ok:
            trouble = True
            res.probes["failed drawing" if not out.ok else "survived"] += 1
        if d.rec is not None and t0.rec is not None and not o.get("what"):
            x = differ(d.rec, t0.rec)
            if x:
                res.bad("depends-on-history", msg + "drew " + x)
                return
            w.log(str(hash_of(d.rec)))
            if sub.kind == "path" and k in ("display", "save"):
                reference(res, sub, o, rays, d.rec, msg, scn)
                if res.violations:
                    return
            if d.done and d.final is not None:
                t1, _, _, _ = run_twin(ui_of=d)
                x = differ(order(d.final), order(t1.final), 1e-5) if t1.final is not None else None
                if x:
                    res.bad("events-depend-on-history", msg + "after %s: %s" % (d.done, x))
                    return
                res.nontrivial = True
            if drawn or trouble:
                res.nontrivial = True
            drawn += 1
        elif d.shown != t0.shown and not special:
            res.bad("depends-on-history", msg + "shown %d times, a fresh path %d" % (d.shown, t0.shown))
            return
        if k == "save" and out.ok:
            b = w.fs.get("/simfs/work/" + o["f"])
            if b is None or len(b) < 100:
                res.bad("no-file", msg + "saved without error but the file holds %s bytes" % (None if b is None else len(b)))
                return
        # what the path computes is what a fresh path computes
        if sub.path or no % 3 == 0:
            names = ["intermediateConjugates", "pointsOfInterest", "transferMatrix", "apertureStop", "entrancePupil", "axialRay"]
            qs = [n for n in names if n in Q.BY_KIND[sub.kind]]
            mine = [Q.ask(p, rt, sub.kind, n) for n in qs]
            try:
                rt2, t, _ = fresh(sub)
                theirs = [Q.ask(t.p, rt2, sub.kind, n) for n in qs]
            finally:
                w.switch(main)
            for n, a, b in zip(qs, mine, theirs):
                if not Q.same(a, b):
                    res.bad("optics-changed", msg + "%s is %s, on a fresh path %s" % (n, a, b))
                    return


def order(r):
    """labels of the same text and height are alike: sort them.  Which of two labels of the same text at the same place
    goes left is a matter of rounding, and others make room for them: their places are left open then"""
    words = [a[1] for a in r if a[0] == "text" and a[1]]
    if len(set(words)) != len(words):
        r = tuple(a[:2] + ((None, a[2][1]),) + a[3:] if a[0] == "text" else a for a in r)
        txt = sorted((a for a in r if a[0] == "text"), key=lambda a: (a[1], a[2][1]))
        return tuple(a for a in r if a[0] != "text") + tuple(txt)
    txt = sorted((a for a in r if a[0] == "text"), key=lambda a: (a[1], a[2][1], a[2][0]))
    return tuple(a for a in r if a[0] != "text") + tuple(txt)


def colours_of(sub, o, scn):
    """group -> colours that only its artists have"""
    if sub.kind != "path" or o["op"] != "display" or o.get("what"):
        return {}      # (a failing drawing)
    d = design_of(sub.user)
    specs = [scn["rays"][i] for i in o["rays"]]
    if any(s["k"] not in ("obj", "lamp", "random") or s["z"] != 0 for s in specs):
        return {}
    ks = [s["k"] == "obj" for s in specs]
    objs = [s for s in specs if s["k"] == "obj"]
    lamps = [s for s in specs if s["k"] != "obj"]
    g = {"Object/Image": {rgba(d["objectColor"]), rgba(d["imageColor"])}}
    if len(objs) > 1:
        return {}
    if lamps:
        c = set()
        for s in lamps:
            c |= {rgba(x) for x in (s["colors"] or d["lampRayColors"])}
        g["Lamp"] = c | {rgba("y")}
    fov = {rgba(x) for x in d["FOVColors"]}
    oc = {rgba(x) for x in ((objs[0]["colors"] if objs else None) or d["rayColors"])}
    pc = {rgba(x) for x in d["rayColors"]}
    black = {rgba("k"), rgba("0.7"), rgba((0.85, 0.95, 0.95)), rgba("0.5")}
    out = {}
    if not (g["Object/Image"] & (fov | pc | oc | g.get("Lamp", set()) | black)):
        out["Object/Image"] = g["Object/Image"] | (oc if not (oc & (pc | fov | g.get("Lamp", set()) | black)) else set())
        if out["Object/Image"] == g["Object/Image"]:
            out.pop("Object/Image")
    if "Lamp" in g and not (g["Lamp"] & (fov | pc | oc | g["Object/Image"] | black)):
        out["Lamp"] = g["Lamp"]
    return out


def hash_of(v):
    import hashlib
    return hashlib.sha256(repr(v).encode()).hexdigest()[:12]


def reference(res, sub, o, rays, rec, msg, scn):
    """the rays given are drawn, where the reference tracer says, in the colours chosen"""
    d = design_of(sub.user)
    title = rec[0]
    fs = 13 * d["fontScale"]
    if not Q.same(title[4], fs):
        res.bad("wrong-design", msg + "axis labels of size %s instead of %s" % (title[4], fs))
        return
    lines = [a for a in rec if a[0] == "line" and a[8] == "ray"]
    v = M.views(sub.p.elements)
    remove = o["kw"].get("removeBlocked", True)
    for i in o["rays"]:
        s = scn["rays"][i]
        if s["k"] == "list" or s["z"] != 0:
            allowed = None
        rs = rays[i]
        if not isinstance(rs, list) and s["z"] != 0:
            continue
        colors = d["rayColors"]
        if s["k"] in ("obj", "lamp", "random"):
            colors = s["colors"] or (d["lampRayColors"] if s["k"] != "obj" else d["rayColors"])
        allowed = {rgba(c) for c in colors}
        for r in (rs if isinstance(rs, list) else list(rs.rays)):
            try:
                tr = M.trace(v, M.rayv(r))
            except M.Ambiguous:
                continue
            if any(q[3] for q in tr):
                if remove:
                    continue
                tr = [q for q in tr if not q[3]]
                if not tr:
                    continue
            xs, ys = tuple(q[2] for q in tr), tuple(q[0] for q in tr)
            if not any(Q.same(a[1], xs) and Q.same(a[2], ys) and a[3] in allowed for a in lines):
                res.bad("ray-not-drawn", msg + "the ray %s is not drawn along %s %s in one of %s" % (M.rayv(r), xs, ys, colors))
                return


def shrink(scn):
    for c in drop_items(scn, "ops", "els"):
        if c["els"]:
            yield c
    if scn["n"] > 1:
        yield replace(scn, n=1)
    for i, o in enumerate(scn["ops"]):
        def w(**k):
            n = {a: b for a, b in o.items()}
            for a, b in k.items():
                if b is None:
                    n.pop(a, None)
                else:
                    n[a] = b
            return replace(scn, ops=scn["ops"][:i] + [n] + scn["ops"][i + 1:])
        if "at" in o:
            yield w(at=None, exc=None)
        if o.get("fault"):
            yield w(fault=None)
        if o.get("ui"):
            yield w(ui=[])
            for j in range(len(o["ui"])):
                yield w(ui=o["ui"][:j] + o["ui"][j + 1:])
        if o.get("kw") and o["op"] != "design":
            yield w(kw={})
        if o.get("rays"):
            yield w(rays=[])
            yield w(rays=o["rays"][:1])
