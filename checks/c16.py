"""C16: an efficiency report accounts for every ray of its source."""
import re
import numpy as np
from .common import *
from . import queries as Q
from .c04 import Rec
from .c06 import FailingExtremes
from sim.rng import LOW, HIGH
from sim.world import instrument_package

ID = "C16"
RUNS = {"quick": 3000, "thorough": 150000}
RULE = ("seeded runs: one path with stops and 1-6 operations: efficiency reports with random source extents and numbers of rays, "
        "queries, traces, aperture changes and edits between them; the stream of random numbers is seeded, with extreme draws and "
        "runs of unlucky ones (no ray or one ray transmitted, vignetted or blocked); reports are interrupted at a random interpreter "
        "instruction, run out of random numbers, or their window cannot be opened; every ray is recovered from the figure, classified "
        "again by the reference tracer, and counted against the text; non-trivial: a report was judged after a change, a failed "
        "report, an extreme draw, or with a class of at most one ray")
REAL = ["raytracing (all modules, fresh copies)", "numpy random generator below the seam", "matplotlib (drawn on a simulated screen)"]
STUB = ["event loop of the window (plt.show)", "uniform draws replaced at chosen positions", "standard output (recorded)",
        "interruption of calls"]
ASSUMPTIONS = ["the precision of the path is finer than its field of view", "a source has at least one ray and a positive extent, or one of its extents is zero",
               "rays within rounding of an aperture edge or of the limits may be counted on either side"]
TINY = 1e-7


def setup():
    instrument_package()


def g_report(rng):
    o = {"op": "report", "n": rng.choice([1, 1, 2, 3, 5, 10, 30, 80]) if rng.random() < 0.98 else rng.choice([150, 400, 1000])}
    if rng.random() < 0.7:
        o["d"] = rng.choice([0.01, 0.5, 1, 2, 10, 40, 40, 0])
    if rng.random() < 0.7:
        o["a"] = rng.choice([0.001, 0.05, 0.1, 0.3, 1.0, 1.57, 0])
    r = rng.random()
    if r < 0.15:
        o["at"] = round(rng.random(), 4)
        o["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
    elif r < 0.22:
        o["rngfail"] = rng.randint(1, 30)
    elif r < 0.3:
        o["show"] = rng.choice(["fail", "ctrlc"])
    return o


def g_draws(rng):
    """extreme draws: (index, value)"""
    out, n = [], 0
    for _ in range(rng.randint(1, 6)):
        n += rng.choice([1, 1, 2, 5])
        k = rng.choice([1, 2, 4, 60])
        v = rng.choice([LOW, HIGH, 0.5, 0.5, 0.25])
        pair = rng.random() < 0.5
        for j in range(k):
            out.append([n, v if not pair or j % 2 else 0.5])
            n += 1
    return out


def g_path(rng):
    els = [{"k": "space", "d": rng.choice([2, 5, 10, 17]), "n": 1.0, "D": None}]
    for _ in range(rng.choice([1, 2, 2, 2, 3, 3])):
        els.append({"k": rng.choice(["lens", "lens", "aper"]), "f": rng.choice([5, 10, 20, 50, -30]), "D": rng.choice([1, 2, 3, 5, 10, 25])})
        els.append({"k": "space", "d": rng.choice([2, 5, 10, 20, 30]), "n": 1.0, "D": None})
    if rng.random() < 0.5:
        els = els + g_elements(rng, rng.randint(1, 2), axicon=False)
    elif rng.random() < 0.15:
        els = g_elements(rng, rng.randint(0, 4), axicon=False)
    return els


def generate(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice(["query", "trace", "aperture", "append", "pop"])
            o = {"op": k, "i": rng.randrange(8)}
            if k == "query":
                o["q"] = rng.choice(["fieldStop", "apertureStop", "NA", "principalRay", "axialRay", "lagrangeInvariant", "fieldOfView"])
            elif k == "trace":
                o["y"], o["t"] = rng.choice([0, 1, 5]), rng.choice([0, 0.1])
            elif k == "aperture":
                o["D"] = rng.choice([1, 2, 4, 8, 15])
            elif k == "append":
                o["new"] = rng.choice([{"k": "aper", "D": rng.choice([1, 3, 8])}, {"k": "space", "d": 7, "n": 1.0, "D": None},
                                       {"k": "lens", "f": 15, "D": rng.choice([2, 6])}])
            ops.append(o)
        ops.append(g_report(rng))
    return {"els": g_path(rng), "ops": ops, "ext": g_draws(rng) if rng.random() < 0.5 else [], "precision": rng.choice([0.01, 0.05, 0.05, 0.2, 0.5]),
            "maxHeight": rng.choice([10000, 200]), "label": rng.choice(["", "Path"]), "np": rng.getrandbits(31)}


NUM = r"(-?(?:\d+\.?\d*(?:e[+-]?\d+)?|inf|nan))"


def near(text, value, digits):
    """a number printed with so many digits"""
    x = float(text)
    if not np.isfinite(value):
        return x == value or (np.isnan(value) and np.isnan(x))
    return abs(x - value) <= 0.5000001 * 10 ** -digits + 1e-9 * abs(value)


def points(fig):
    out = {}
    for ax in fig.axes:
        for c in ax.collections:
            out.setdefault(c.get_label(), []).extend(tuple(map(float, p)) for p in np.asarray(c.get_offsets()))
        for l in ax.lines:
            out.setdefault(l.get_label(), []).extend((float(x), float(y)) for x, y in zip(*l.get_data()))
    return out


def execute(scn):
    import matplotlib.pyplot as plt
    res = Result()
    w = World(scn["np"])
    show0 = plt.show
    seen = []
    now = [None]

    def show(*a, **k):
        if now[0] is None:
            return
        if now[0] == "fail":
            raise OSError("cannot open display")
        if now[0] == "ctrlc":
            raise KeyboardInterrupt()
        seen.append([points(plt.figure(n)) for n in plt.get_fignums()])
    plt.show = show
    rc = dict(plt.rcParams)
    try:
        with w:
            run(scn, res, w, plt, seen, now)
            for e in w.escapes:
                res.bad("escape", "the code reached outside: %s" % e)
    finally:
        plt.show = show0
        for n in rc:
            if plt.rcParams[n] != rc[n]:
                plt.rcParams[n] = rc[n]
        plt.close("all")
    res.take(w)
    return res


def tuned(rt, scn, els):
    p = rt.ImagingPath(els, label=scn["label"])
    p.precision, p.maxHeight = scn["precision"], scn["maxHeight"]
    return p


def run(scn, res, w, plt, seen, now):
    main = w.new_proc("p")
    rt = w.load(main)
    els = build(rt, scn["els"])
    recs = {id(e): Rec(s, e) for s, e in zip(scn["els"], els)}
    try:
        p = tuned(rt, scn, els)
    except ValueError:           # elements that do not fit together
        return
    ex = w.extremes = FailingExtremes(scn["ext"])
    ref = []
    past = False

    def edited(change):
        try:
            change()
        except ValueError:       # what would be next to each other does not fit together
            w.fired["refused_edit"] += 1
        return True

    def facts():
        """what a fresh path in a fresh copy of the package says of itself"""
        if not ref:
            ref.append(w.new_proc("fresh"))
            rt2 = w.load(ref[0])
        w.switch(ref[0])
        try:
            rt2 = ref[0].rt
            try:
                q = tuned(rt2, scn, [recs[id(e)].fresh(rt2) for e in p.elements])
            except ValueError:       # what is left after an element is taken away does not fit together
                return None
            f = {}
            for name in ("principalRay", "axialRay", "NA", "fNumber", "fieldOfView", "apertureStop", "lagrangeInvariant"):
                st = Stepper()
                with st:
                    st.bound(3_000_000)
                    try:
                        v = getattr(q, name)()
                    except StepLimit:
                        return name
                    except Exception as e:
                        v = e
                f[name] = v
            return f
        finally:
            w.switch(main)

    def report(o, msg, limit=None, interrupt=None):
        kw = {"nRays": o["n"]}
        if "d" in o:
            kw["objectDiameter"] = o["d"]
        if "a" in o:
            kw["emissionHalfAngle"] = o["a"]
        now[0] = o.get("show", "ok")
        del seen[:]
        t0 = len(main.out.getvalue())
        st = Stepper()
        try:
            with st:
                if interrupt is not None:
                    st.arm(interrupt, {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[o["exc"]]())
                else:
                    st.bound(3_000_000 + 20_000 * o["n"])
                if "rngfail" in o:
                    ex.fail_in = o["rngfail"]
                out = call(w, p.reportEfficiency, name="report", **kw)
        finally:
            now[0] = None
            ex.fail_in = None
            plt.close("all")
        return out, main.out.getvalue()[t0:], st

    for no, o in enumerate(scn["ops"]):
        k = o["op"]
        msg = "op %d %s: " % (no, o)
        res.probes[k] += 1
        if k == "query":
            st = Stepper()
            with st:
                st.bound(300_000)
                call(w, lambda: getattr(p, o["q"])(), name=k)
            continue
        if k == "trace":
            call(w, lambda: p.trace(rt.Ray(o["y"], o["t"])), name=k)
            continue
        if k == "aperture":
            if p.elements:
                e = p.elements[o["i"] % len(p.elements)]
                if not isinstance(getattr(e, "elements", None), list):
                    e.apertureDiameter = o["D"]
                    recs[id(e)].mods.append(("ap", [], o["D"]))
                    past = True
            continue
        if k == "append":
            e = build_one(rt, o["new"])
            recs[id(e)] = Rec(o["new"], e)
            past |= edited(lambda: p.append(e))
            continue
        if k == "pop":
            if len(p.elements) > 1:
                past |= edited(lambda: p.pop(o["i"] % len(p.elements)))
            continue
        f = facts()
        if isinstance(f, str):
            res.bad("never-ends", msg + "%s of a fresh path does not end" % f)
            return
        if f is None or any(isinstance(v, Exception) for v in f.values()):
            res.probes["unusable path"] += 1
            continue
        if f["principalRay"] is not None and f["principalRay"].y == 0:
            res.probes["field smaller than the precision"] += 1
            continue
        snap = snap_path(p.elements) + [M.view(p).key(), p.objectHeight]
        used = ex.used
        cut = None
        if "at" in o:
            cut = max(1, int(10 ** (o["at"] * 4.6)))
        out, text, st = report(o, msg, interrupt=cut)
        if ex.used > used:
            w.fired["extreme_draw"] += ex.used - used
            past = True
        if st.fired:
            w.fired["interrupt"] += 1
        failed = getattr(ex, "failed", False)
        if failed:
            w.fired["generator_fails"] += 1
            ex.failed = False
        if "show" in o:
            w.fired["window_fails"] += 1
        changed = snap_path(p.elements) + [M.view(p).key(), p.objectHeight]
        if changed != snap:
            res.bad("path-changed", msg + "the report changed the path: %s -> %s" % (snap, changed))
            return
        if out.kind == "hang":
            res.bad("never-ends", msg + repr(out))
            return
        if st.fired or failed or "show" in o:
            past = True
            if out.ok and failed:
                res.bad("unnoticed", msg + "the generator of random numbers failed and the report went on")
                return
            if "show" not in o or not text:
                continue
            now_seen = None
        else:
            if not out.ok:
                res.bad("failed", msg + repr(out))
                return
            now_seen = seen
        if f["principalRay"] is None:
            res.probes["no field stop"] += 1
            if "fficiency from" in text:
                res.bad("reported", msg + "there is no field stop, but: %s" % text)
                return
            continue
        few = judge(res, o, msg, M.views(p.elements), f, text, now_seen)
        if res.violations:
            return
        w.log("%s" % (text,))
        res.probes["few"] += bool(few)
        res.nontrivial = res.nontrivial or past or few
        past = True


def judge(res, o, msg, v, f, text, seen):
    """the text and the points of a report against the reference tracer; True if a class has at most one ray"""
    def bad(cls, m):
        res.bad(cls, msg + m)

    P, A = f["principalRay"], f["axialRay"]
    inv = lambda y1, t1, y2, t2: t1 * y2 - t2 * y1
    I = abs(inv(A.y, A.theta, P.y, P.theta))
    h = o["d"] / 2 if "d" in o else P.y
    a = o["a"] if "a" in o else np.pi / 2
    n = o["n"]

    def get(pattern):
        m = re.search(pattern, text)
        return None if m is None else m.groups()
    mc = get(r"from Monte Carlo:\s*" + NUM + r"\s*%\s*of ±" + NUM + r" radian, over field diameter of " + NUM + " mm")
    rel = get(r"Relative efficiency:\s*" + NUM + r"\s*%")
    loss = get(r"Loss to vignetting:\s*" + NUM + r"\s*%")
    where = get(r"blockers at positions:\s*\{([^}]*)\}")
    none = "No losses to vignetting" in text
    if mc is None:
        return bad("incomplete", "no collection efficiency in: %s" % text)
    if not near(mc[1], a, 2) or not near(mc[2], 2 * h, 1):
        return bad("wrong-source", "the source is of ±%.4f radian and diameter %.4f, the text says ±%s radian and %s mm" % (a, 2 * h, mc[1], mc[2]))
    src = get(r"source equivalent invariant:\s*" + NUM + r" mm = " + NUM + r" mm ⨉ " + NUM)
    if src is None or not near(src[0], h * a, 2) or not near(src[1], h, 2) or not near(src[2], a, 2):
        return bad("wrong-source", "the source is of height %.4f and half-angle %.4f, the text says %s" % (h, a, src))
    lag = get(r"Lagrange invariant:\s*" + NUM + r" mm = " + NUM + r" mm ⨉ " + NUM)
    if lag is None or not near(lag[0], I, 2) or not near(lag[1], P.y, 2) or not near(lag[2], A.theta, 2):
        return bad("wrong-system", "the Lagrange invariant is %.4f = %.4f x %.4f, the text says %s" % (I, P.y, A.theta, lag))
    ratio = get(r"ratio of system to source invariants:\s*" + NUM + r"\s*%")
    if h * a > 0 and (ratio is None or not near(ratio[0], I / (h * a) * 100, 1)):
        return bad("wrong-system", "the ratio of the invariants is %.4f%%, the text says %s" % (I / (h * a) * 100, ratio))
    fov = get(r"Field of view is " + NUM)
    na = get(r"NA is " + NUM + r", and f/# is " + NUM)
    stop = get(r"limited by " + NUM + r" mm diameter of AS at z=" + NUM)
    if fov is None or not near(fov[0], f["fieldOfView"], 2) or na is None or not near(na[0], f["NA"], 2) or not near(na[1], f["fNumber"], 2) or \
            stop is None or not near(stop[0], f["apertureStop"][1], 1) or not near(stop[1], f["apertureStop"][0], 1):
        return bad("wrong-system", "field of view %s, NA %s, f/# %s, stop %s; the text says %s %s %s" % (
            f["fieldOfView"], f["NA"], f["fNumber"], tuple(f["apertureStop"]), fov, na, stop))
    if seen is None:
        return False
    if len(seen) != 1 or len(seen[0]) < 1:
        return bad("no-figure", "%d figures shown" % len(seen))
    pts = seen[0][-1]
    known = {"Transmitted", "Vignetted", "Blocked"}
    other = [x for x in pts if x not in known and pts[x]]
    if other:
        return bad("figure", "points called %s" % other)
    N = {x: len(pts.get(x, ())) for x in known}
    if sum(N.values()) != n:
        return bad("rays-lost", "%d rays, the figure shows %s" % (n, N))
    # every ray, recovered from its coordinates
    unsure = 0
    hits, maybe = set(), set()
    D = inv(A.y, A.theta, P.y, P.theta)
    if I <= 1e-12:
        return False
    for cls in sorted(known):
        for u, x in pts.get(cls, ()):
            # u I = ray ^ P,  x I = A ^ ray ; the ray is a combination of P and A
            ca, cp = u * I / D, x * I / D
            y, t = ca * A.y + cp * P.y, ca * A.theta + cp * P.theta
            if abs(y) > h * (1 + 1e-9) + 1e-9 * abs(P.y) + 1e-12 or abs(t) > a * (1 + 1e-9) + 1e-7 * (abs(P.theta * cp) + 1e-5):
                return bad("outside-source", "a ray %s of a source of height %s and half-angle %s" % ((y, t), h, a))
            z = None
            if max(abs(u), abs(x)) > 1:
                want = "Blocked"
            else:
                want = "Transmitted"
                try:
                    tr = M.trace(v, (y, t, 0.0, False))
                    if tr[-1][3]:
                        want = "Vignetted"
                        z = tr[-1][2]
                    edge = grazing(v, y, t)
                except M.Ambiguous:
                    edge = True
            close_ = abs(max(abs(u), abs(x)) - 1) < TINY
            if z is not None or cls == "Vignetted":
                (maybe if close_ or edge or cls != want else hits).add(z)
            if want != cls:
                if close_ or (want != "Blocked" and cls != "Blocked" and edge):
                    unsure += 1
                    continue
                return bad("misclassified", "the ray %s is %s, called %s" % ((y, t), want, cls))
    res.probes["grazing"] += unsure
    t, g = N["Transmitted"], N["Vignetted"]
    if not near(mc[0], 100 * t / n, 1):
        return bad("wrong-count", "%d of %d rays transmitted, the text says %s%%" % (t, n, mc[0]))
    if t + g == 0:
        if rel is not None and rel[0] != "nan":
            return bad("wrong-count", "no ray within the limits, relative efficiency said to be %s%%" % rel[0])
    elif rel is None or not near(rel[0], 100 * t / (t + g), 1):
        return bad("wrong-count", "%d of %d rays transmitted within the limits, relative efficiency said to be %s" % (t, t + g, rel))
    if g:
        if none or loss is None or not near(loss[0], 100 * g / (t + g), 1):
            return bad("wrong-vignetting", "%d rays vignetted of %d, the text says %s %s" % (g, t + g, "none" if none else "", loss))
        zs = {float(re.sub(r"np\.float64\(([^)]*)\)", r"\1", x)) for x in re.split(r",\s*", where[0])} if where and where[0] else set()
        sure = {z for z in hits if z is not None}
        if not all(any(abs(z - q) < 1e-6 for q in zs) for z in sure) or (
                not maybe and not all(any(abs(z - q) < 1e-6 for z in sure) for q in zs)):
            return bad("wrong-vignetting", "rays were vignetted at %s, the text says %s" % (sorted(sure), sorted(zs)))
    elif loss is not None or not none:
        return bad("wrong-vignetting", "no ray vignetted, the text says %s" % (loss,))
    for x in known:
        if N[x] < 2:
            res.probes["%d %s" % (N[x], x)] += 1
    return min(N.values()) < 2


def grazing(v, y, t):
    """the ray passes an edge so closely that recovering it from the figure may have moved it to the other side"""
    out = []
    for dy, dt in ((TINY, 0), (-TINY, 0), (0, TINY), (0, -TINY)):
        tr = M.trace(v, (y + dy * (1 + abs(y)), t + dt, 0.0, False))
        out.append(tr[-1][2:])
    return any(x != out[0] for x in out)


def shrink(scn):
    for c in drop_items(scn, "ops", "els", "ext"):
        yield c
    for i, o in enumerate(scn["ops"]):
        for k in ("at", "rngfail", "show"):
            if k in o:
                yield replace(scn, ops=scn["ops"][:i] + [{a: b for a, b in o.items() if a not in (k, "exc")}] + scn["ops"][i + 1:])
        if o["op"] == "report" and o["n"] > 1:
            yield replace(scn, ops=scn["ops"][:i] + [dict(o, n=max(1, o["n"] // 2))] + scn["ops"][i + 1:])
    for k, x in (("precision", 0.01), ("label", "")):
        if scn[k] != x:
            yield replace(scn, **{k: x})
