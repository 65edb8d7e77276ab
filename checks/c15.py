"""C15: using an element changes neither it nor any other; elements made at any moment are as if made first."""
import copy
import gc
import pickle
from .common import *
from . import queries as Q
from .c04 import sub
from sim.world import instrument_package

ID = "C15"
RUNS = {"quick": 4500, "thorough": 200000}
RULE = ("seeded runs: up to a dozen elements of every kind (simple ones, catalogue lenses and objectives with wavelengths, systems, "
        "glasses), groups and paths that share them, slices, deep and pickled copies; 6-24 operations that make, copy, group, flip, "
        "set or edit some of them and use others (products, traces, queries, comparisons, printing, saving, sub-paths, wrong "
        "arguments), some uses failing, interrupted at a random interpreter instruction, hit by a disk fault, or made by two tasks under the "
        "seeded scheduler; "
        "at random moments and at the end an element is compared, by all its answers, with one made in a fresh copy of the package by only the operations "
        "that concern it; non-trivial: an element was compared after a use, an interruption or an operation on another one")
REAL = ["raytracing (all modules, fresh copies)", "pickle", "copy", "numpy"]
STUB = ["clock", "file system", "scheduler of tasks", "interruption of calls (exception raised at a chosen interpreter instruction)"]
ASSUMPTIONS = ["a Space takes the index of the medium of the last group it was put in, also for other groups that share it",
               "groups hold the elements they were given, not copies", "operations that modify are not interrupted"]
LIMIT = 150_000
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def setup():
    instrument_package()


CATALOGUE = [("thorlabs", n, True) for n in ("AC254_050_A", "AC254_100_A", "ACN254_050_A", "AC127_019_A", "AC508_080_B", "AC050_008_C",
                                             "LA1608_A", "LA1134_A", "AC254_030_AB")] + \
            [("eo", n, False) for n in ("PN_33_921", "PN_85_877")] + \
            [("olympus", n, False) for n in ("LUMPlanFL40X", "XLUMPlanFLN20X", "UMPLFN20XW", "MVPlapo2XC")]
GLASSES = ["N_BK7", "N_SF10", "SF5", "N_BAF10", "FusedSilica", "N_LAK22", "Air", "E_BAF11"]
QUERIES = [q for q in Q.ELEMENT if q not in ("fromFocusToFocus",)]
GROUPQ = [q for q in Q.GROUP if q not in Q.ELEMENT and q not in ("intermediateConjugates", "slice")]
PATHQ = ["axialRay", "apertureStop", "entrancePupil", "marginalRays", "NA", "fNumber", "hasApertureStop", "objectHeight"]


# ---------------------------------------------------------------- scenarios
def g_lens(rng):
    """a lens made of its surfaces"""
    d = rng.choice([None, 10])
    return rng.choice([
        {"k": "compound", "n": [1.5], "R": [rng.choice([20, -40, None]), rng.choice([-30, 25])], "t": [rng.choice([3, 1.5])], "D": d},
        {"k": "compound", "n": [1.5, 1.7], "R": [30, -25, rng.choice([-60, None])], "t": [4, rng.choice([2, 1.5])], "D": d},
        {"k": "single", "f": 50, "R": [rng.choice([50, 40]), -50], "t": 3, "n": 1.5},
        {"k": "doublet", "f": 50, "R": [33.3, -22.28, -291.07], "t": [9, 2.5], "n": [1.58, 1.65]}])


def g_make(rng):
    r = rng.random()
    if r < 0.60:
        s, n = g_element(rng, depth=1)
        if rng.random() < 0.3:
            s["label"] = rng.choice(["a", "b"])
        return s
    if r < 0.79:
        m, n, w = rng.choice(CATALOGUE)
        return {"k": "cat", "m": m, "n": n, "wl": rng.choice([None, None, 0.48, 0.5, 0.52, 0.6328, 0.65, round(rng.uniform(0.4, 0.8), 3)]) if w else None}
    if r < 0.84:
        return {"k": "4f", "f1": rng.choice([10, 20]), "f2": rng.choice([5, 20]), "D": None}
    if r < 0.88:
        return {"k": "2f", "f": rng.choice([10, 20]), "D": rng.choice([None, 10])}
    if r < 0.95:
        return g_lens(rng)
    if r < 0.975:
        return {"k": "obj", "f": rng.choice([5, 9]), "NA": rng.choice([0.5, 0.8])}
    return {"k": "iface", "n1": 1.0, "n2": 1.5, "R": 20, "D": None}


BADMAKE = [["Space", []], ["Lens", ["x"]], ["SingletLens", [50, 50, 20, -20, 3, 2, None, 10]], ["Lens", [0]], ["MatrixGroup", [3]],
           ["MatrixGroup", [["x"]]], ["DielectricInterface", [1]], ["AchromatDoubletLens", [1] * 9], ["System4f", ["a", "b"]]]


def g_use(rng, many):
    k = rng.choices(["query", "mul", "trace", "many", "beam", "eq", "str", "save", "iter", "bad", "glass", "badmake", "subpath", "extra"],
                    [6, 3, 3, 1, 1, 3, 1, 1, 1, 1.5, 2, 1, 0.7, 1.5])[0]
    o = {"op": "use", "u": k, "x": rng.randrange(many)}
    if k == "query":
        o["q"] = rng.choice(QUERIES + GROUPQ + PATHQ)
    elif k in ("mul", "eq"):
        o["y"] = rng.randrange(many)
    elif k in ("trace", "many"):
        o["r"] = g_ray(rng)
        o["n"] = rng.choice([1, 3])
    elif k == "beam":
        o["w"] = rng.choice([0.1, 1])
    elif k == "bad":
        o["q"] = rng.choice(["mul", "trace", "upTo", "index", "load", "append", "insert", "magic"])
    elif k == "glass":
        o["g"] = rng.choice(GLASSES)
        o["wl"] = rng.choice([0.5876, 0.5, 0.65, 1.0, 40.0])
    elif k == "badmake":
        o["b"] = rng.choice(BADMAKE)
    elif k == "extra":
        o["q"] = rng.choice(["copy", "surfaces", "surfaces", "eigen", "focal", "all", "isFlipped", "list", "invariant", "toConjugate", "toFocus", "slices"])
    elif k == "subpath":
        o["z"] = rng.choice([0.5, 3, 8])
    if rng.random() < (0.15 if k != "extra" else 0.35):
        o["at"] = round(rng.random(), 4)
        o["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
        o["then"] = rng.random() < 0.5
    elif k == "save" and rng.random() < 0.5:
        o["fault"] = {"kind": rng.choice(["ENOSPC", "EIO", "torn", "EACCES"]), "n": rng.randint(1, 4)}
    return o


def g_op(rng, many):
    k = rng.choices(["make", "copy", "group", "slice", "flip", "set", "edit", "use", "look", "collect"], [3, 1.6, 3, 0.8, 2.5, 1.2, 0.8, 9, 1, 0.3])[0]
    if k == "use":
        return g_use(rng, many)
    o = {"op": k, "x": rng.randrange(many)}
    if k == "make":
        o["s"] = g_make(rng)
    elif k == "copy":
        o["how"] = rng.choice(["deepcopy", "pickle"])
    elif k == "group":
        o["kind"] = rng.choice(["group", "group", "path", "laser", "cavity"])
        o["of"] = [rng.randrange(many) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    elif k == "slice":
        o["a"], o["b"] = rng.choice([[0, 1], [0, 2], [1, 3], [1, 2], [2, 4], [None, None]])
    elif k == "set":
        o["a"] = rng.choice(["apertureDiameter", "apertureDiameter", "label"])
        o["v"] = rng.choice([3, 8, None]) if o["a"] != "label" else rng.choice(["p", "q", ""])
        o["sub"] = [rng.randrange(4) for _ in range(rng.choice([0, 0, 1]))]
    elif k == "edit":
        o["e"] = rng.choice(["append", "pop", "reverse"])
        o["y"] = rng.randrange(many)
        o["i"] = rng.choice([0, -1, 1])
    elif k == "look":
        o["y"] = rng.randrange(many)
    return o


def generate(rng, tier):
    many = rng.choice([3, 5, 8])
    ops = [{"op": "make", "x": 0, "s": g_make(rng)} for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.3:          # the same thing made again
        ops.append(dict(rng.choice(ops)))
    ops += [g_op(rng, many) for _ in range(rng.choice([5, 9, 16, 22]))]
    if rng.random() < 0.3:          # a call stopped on the way, and what it was working on looked at
        o = g_use(rng, many)
        o.pop("fault", None)
        ops.insert(rng.randrange(len(ops) + 1), dict(o, at=round(rng.random(), 4), exc=rng.choice(["KeyboardInterrupt", "MemoryError"]), then=True))
        if o.get("q") in ("surfaces", "focal"):
            ops.insert(0, {"op": "make", "x": 0, "s": g_lens(rng)})
    g = [o for o in ops if o["op"] == "group"]
    if g and rng.random() < 0.3:
        ops.insert(rng.randrange(len(ops) + 1), dict(rng.choice(g), kind=rng.choice(["group", "path"])))
    if rng.random() < 0.25:
        i = rng.randrange(len(ops))
        ops.insert(i, {"op": "par", "a": [{k: v for k, v in g_use(rng, many).items() if k not in ("at", "exc", "fault")} for _ in range(rng.randint(1, 3))],
                       "b": [{k: v for k, v in g_use(rng, many).items() if k not in ("at", "exc", "fault")} for _ in range(rng.randint(1, 3))]})
    return {"ops": ops, "end": [rng.randrange(64) for _ in range(2)], "np": rng.getrandbits(31),
            "sched": {"seed": rng.getrandbits(32), "gap": rng.choice([10, 60, 300]), "p_call": rng.choice([0.2, 0.6])}}


# ---------------------------------------------------------------- simulated run
def make(rt, s):
    k = s["k"]
    if k == "cat":
        c = getattr(getattr(rt, s["m"]), s["n"])
        return c() if s["wl"] is None else c(wavelength=s["wl"])
    if k == "compound":
        n, els = [1.0] + s["n"] + [1.0], []
        for i, R in enumerate(s["R"]):
            els.append(rt.DielectricInterface(n1=n[i], n2=n[i + 1], R=inf(R), diameter=inf(s["D"])))
            if i < len(s["t"]):
                els.append(rt.Space(d=s["t"][i], n=n[i + 1]))
        return rt.CompoundLens(els, designFocalLength=50, label="c")
    if k == "single":
        return rt.SingletLens(s["f"], s["f"], s["R"][0], s["R"][1], s["t"], 2, s["n"], 10)
    if k == "doublet":
        R, t, n = s["R"], s["t"], s["n"]
        return rt.AchromatDoubletLens(s["f"], s["f"], R[0], R[1], R[2], t[0], t[1], 8, 25.4, n1=n[0], n2=n[1], label="d")
    if k == "2f":
        return rt.System2f(f=s["f"], diameter=inf(s["D"]))
    if k == "obj":
        return rt.Objective(f=s["f"], NA=s["NA"], focusToFocusLength=60, backAperture=15, workingDistance=2, magnification=20, fieldNumber=22)
    return build_one(rt, s)


def kind_of(x):
    n = type(x).__name__
    if n in ("ImagingPath", "LaserPath", "LaserCavity"):
        return {"ImagingPath": "path", "LaserPath": "laser", "LaserCavity": "cavity"}[n]
    return "group" if isinstance(getattr(x, "elements", None), list) else "element"


def members(x, out=None):
    """ids of an object and everything it holds"""
    out = {} if out is None else out
    if id(x) not in out:
        out[id(x)] = x
        if isinstance(getattr(x, "elements", None), list):
            for e in x.elements:
                members(e, out)
    return out


def consistent(x):
    """whether each medium of a group continues in the next element, so that a group made of a part of it adjusts no Space"""
    e = getattr(x, "elements", None)
    if not isinstance(e, list):
        return True
    return all(a.backIndex == b.frontIndex for a, b in zip(e, e[1:])) and all(consistent(i) for i in e)


def tune(x):
    if type(x).__name__ == "ImagingPath":
        x.precision, x.maxHeight = 0.05, 50
    return x


def apply(rt, objs, o, lists=None):
    """an operation that makes or modifies; a made object is returned.
    Lists of elements are kept by the caller, who may use the same list again"""
    k = o["op"]
    if k == "make":
        return make(rt, o["s"])
    if k == "group":
        l = [objs[i] for i in o["of"]]
        if lists is not None:
            l = lists.setdefault(tuple(o["of"]), (l, tuple(l)))[0]
        return tune(Q.make(rt, o["kind"], l, "made"))
    x = objs[o["x"]]
    if k == "copy":
        return copy.deepcopy(x) if o["how"] == "deepcopy" else pickle.loads(pickle.dumps(x))
    if k == "slice":
        return x[o["a"]:o["b"]]
    if k == "flip":
        x.flipOrientation()
    elif k == "set":
        y = sub(x, o["sub"])
        setattr(y, o["a"], inf(o["v"]) if o["a"] != "label" else o["v"])
    elif k == "edit":
        if o["e"] == "append":
            x.append(objs[o["y"]])
        elif o["e"] == "pop":
            x.pop(o["i"])
        else:
            x.appendElementsInReverse()


def suits(x, o):
    """does the operation say something about this object"""
    k, q = kind_of(x), o.get("q")
    if o["u"] == "extra":
        return hasattr(x, "designFocalLength") if q == "surfaces" else hasattr(x, "focalShifts") if q == "focal" else \
            k == "cavity" if q == "eigen" else k != "element" if q in ("list", "slices") else True
    if o["u"] in ("save", "iter"):
        return k != "element"
    if o["u"] == "query":
        return hasattr(x, "designFocalLength") if q == "surfaces" else k == "path" if q in PATHQ else k != "element" if q in GROUPQ else True
    return k == "path" if o["u"] == "subpath" else True


def aim(objs, o):
    """the operation, on an object it suits when there is one"""
    good = [i for i, x in enumerate(objs) if suits(x, o)]
    return dict(o, x=good[o["x"] % len(good)]) if good else o


def use(rt, objs, o, path=None, rays=None):
    """an operation that must change nothing; its value. The rays given to it are noted with their values"""
    u = o["u"]

    def given(r):
        if rays is not None:
            rays.append((r, Q.norm(r)))
        return r
    x = objs[o["x"] % len(objs)]
    y = objs[o.get("y", 0) % len(objs)]
    try:
        if u == "query":
            q = o["q"]
            t = Q.IMAGING if kind_of(x) == "path" else Q.CAVITY
            if q in PATHQ and kind_of(x) != "path" or q in GROUPQ and kind_of(x) == "element":
                return None
            v = t[q](x, rt)
        elif u == "mul":
            v = x * y
        elif u == "trace":
            r = given(ray(rt, o["r"]))
            v = x.trace(r) if o["n"] == 1 else (x.traceThrough(r), x * r)
        elif u == "many":
            v = x.traceManyThrough([given(ray(rt, o["r"])) for _ in range(o["n"])], progress=False)
        elif u == "beam":
            b = given(rt.GaussianBeam(w=o["w"]))
            v = (x.trace(b), x * b)
        elif u == "eq":
            v = (x == y, y == x, x != y)
        elif u == "str":
            v = (str(x), type(repr(x)).__name__)
        elif u == "save":
            if kind_of(x) == "element":
                return None
            x.save(path or "u.pkl")
            v = None
        elif u == "iter":
            if kind_of(x) == "element":
                return None
            v = [e.L for e in x] + [len(list(x))]
            for e in x:
                break
        elif u == "bad":
            q = o["q"]
            if q == "mul":
                v = x * "x"
            elif q == "trace":
                v = x.trace(3)
            elif q == "upTo":
                v = x.transferMatrix(upTo="far")
            elif q == "index":
                v = x[99]
            elif q == "load":
                v = x.load("nothing.pkl")
            elif q == "append":
                v = x.append("x")
            elif q == "insert":
                v = x.insert(0, [rt.Space(1), None])
            else:
                v = x.opticalInvariant(1, 2)
        elif u == "glass":
            g = getattr(rt, o["g"], None)
            if g is None:
                g = getattr(rt.materials, o["g"])
            v = (g().n(o["wl"]), g.n(o["wl"]), str(g()), g().abbeNumber(), type(rt.Material.findByName(o["g"].replace("_", "-"))).__name__)
        elif u == "badmake":
            v = type(getattr(rt, o["b"][0])(*o["b"][1])).__name__
        elif u == "subpath":
            if kind_of(x) != "path" or not consistent(x):
                return None
            v = x.subPath(o["z"]) if o["x"] % 2 else x.subPath(o["z"], backwards=True)
        else:
            q = o["q"]
            if q == "copy":
                v = copy.copy(x)
            elif q == "surfaces":
                v = (x.surfaces, x.forwardSurfaces)
            elif q == "eigen":
                if kind_of(x) != "cavity":
                    return None
                v = (x.eigenModes(), x.laserModes(), x.isStable)
            elif q == "focal":
                if not hasattr(x, "focalShifts") or type(x).__name__[:2] not in ("AC", "LA"):
                    return None
                import numpy as np
                v = x.focalShifts(np.array([0.5, 0.6]))
            elif q == "all":
                v = (rt.Material.all(), sorted(c.__name__ for c in rt.CompoundLens.all()))
            elif q == "isFlipped":
                v = x.isFlipped
            elif q == "list":
                if kind_of(x) == "element" or not consistent(x):
                    return None
                v = rt.MatrixGroup(list(x.elements)).transferMatrices()
            elif q == "toConjugate":
                v = rt.ToConjugate(x)
            elif q == "toFocus":
                v = rt.ToFocus(x)
            elif q == "slices":
                if kind_of(x) == "element" or not consistent(x):
                    return None
                v = (x[0], x[-1], len(x), x[0:1])
            else:
                v = x.opticalInvariant(rt.Ray(1, 0.1), rt.Ray(2, 0))
        return Q.norm(v)
    except Exception as e:
        e.__traceback__ = None
        return Q.norm(e)


def answers(rt, x):
    """everything asked of one object"""
    out = [("is", Q.norm(x)), ("label", x.label), ("flipped", x.isFlipped)]
    kind = kind_of(x)
    for q in QUERIES + (GROUPQ if kind != "element" else []) + (PATHQ if kind == "path" else []):
        out.append((q, Q.ask(x, rt, "path" if kind == "path" else "cavity" if kind != "element" else "element", q)))
    for r in ({"y": 1, "t": 0.02}, {"y": -3, "t": 0.1}):
        try:
            v = Q.norm(x.trace(ray(rt, r)))
        except Exception as e:
            v = Q.norm(e)
        out.append(("trace", v))
    for q in ("surfaces", "focal") + (("subpath",) if kind == "path" else ()):
        out.append((q, extra(rt, x, q)))
    return out


def extra(rt, x, q):
    try:
        if q == "surfaces":
            v = (x.surfaces, x.forwardSurfaces)
        elif q == "focal":
            if not hasattr(x, "focalShifts") or type(x).__name__[:2] not in ("AC", "LA"):
                return None
            import numpy as np
            v = x.focalShifts(np.array([0.5, 0.6]))
        else:
            if not consistent(x):
                return None
            v = (x.subPath(0.5), x.subPath(0.5, backwards=True))
        return Q.norm(v)
    except Exception as e:
        e.__traceback__ = None
        return Q.norm(e)


def lists_of(rt):
    return (sorted(rt.Material.all()), sorted(map(str, rt.CompoundLens.all())),
            sorted((str(n), round(float(v), 9), a) for n, v, a in rt.Material.findByIndex(1.66, 0.5876, tolerance=0.03)))


def glasses(rt, which):
    out = []
    for g in which:
        c = getattr(rt, g, None) or getattr(rt.materials, g)
        for wl in (0.5876, 0.51, 40.0):
            try:
                out.append((g, wl, float(c().n(wl)), str(c())))
            except Exception as e:
                out.append((g, wl, type(e).__name__))
    return out


def needed(log, want):
    """the operations of the log that concern the objects wanted, by the objects each one touched"""
    need = set(want)
    keep = []
    for rec in reversed(log):
        o, made, touched, read = rec
        if made is not None and made in need:
            need |= set(read)
            keep.append(rec)
        elif touched & need:
            need |= touched
            keep.append(rec)
    return keep[::-1]


class Bug(Exception):
    pass


def execute(scn):
    res = Result()
    w = World(scn["np"])
    sched = None
    with w:
        main = w.new_proc("p")
        rt = w.load(main)
        objs = []           # live objects, in the order made
        names = {}          # id -> index for objects that were made by an operation; members of them have (owner, path)
        log = []
        lists = {}
        rays = []
        changed = False
        used = set()

        def cover(ids):
            """indices of the made objects that hold or are held by any of these ids"""
            return {i for i, x in enumerate(objs) if ids & set(members(x))}

        def look(which, msg):
            nonlocal changed
            want = set(which)
            # what they hold is concerned too
            inside = set()
            for i in which:
                inside |= set(members(objs[i]))
            recs = needed(log, {i for i, x in enumerate(objs) if id(x) in inside} | want)
            eq = [(objs[i] == objs[j], objs[i] != objs[j]) for i in which for j in which if i < j]
            a = [answers(rt, objs[i]) for i in which]
            gl = [g for g in GLASSES if g in used]
            ga = glasses(rt, gl)
            la = lists_of(rt)
            p2 = w.new_proc("fresh%d" % len(w.procs))
            rt2 = w.load(p2)
            try:
                other = {}
                for o, made, touched, read in recs:
                    v = apply(rt2, other, o)
                    if made is not None:
                        other[made] = v
                eq2 = [(other[i] == other[j], other[i] != other[j]) for i in which for j in which if i < j]
                # in the other order: what is asked first must not matter
                lb = lists_of(rt2)
                gb = glasses(rt2, gl[::-1])
                b = [answers(rt2, other[i]) for i in which[::-1]][::-1]
            finally:
                w.switch(main)
            w.log("look %s" % hash_of(tuple(map(tuple, a))))
            if changed:
                res.nontrivial = True
            for l, was in lists.values():
                if tuple(map(id, l)) != tuple(map(id, was)):
                    raise Bug("list", msg + "the list given to make a group had %s, and has %s" % ([type(x).__name__ for x in was], [type(x).__name__ for x in l]))
            for r, was in rays:
                if not Q.same(Q.norm(r), was):
                    raise Bug("ray", msg + "a traced ray was %s and is %s" % (was, Q.norm(r)))
            for i, x, y in zip(which, a, b):
                for (n, u), (_, v) in zip(x, y):
                    if not Q.same(u, v):
                        raise Bug("changed", msg + "%s (object %d) answers %s = %s, but %s when only what concerns it was done" %
                                  (type(objs[i]).__name__, i, n, u, v))
            if la != lb:
                raise Bug("catalogue", msg + "the lists of glasses and lenses differ from those of a fresh session: %s" % ([x for x in zip(la, lb) if x[0] != x[1]],))
            if sorted(ga) != sorted(gb):
                raise Bug("glass", msg + "glasses answer %s, but %s in a fresh session" % (sorted(set(ga) - set(gb)), sorted(set(gb) - set(ga))))
            if eq != eq2:
                raise Bug("equality", msg + "objects %s compare as %s, but %s when only what concerns them was done" % (which, eq, eq2))

        try:
            for no, o in enumerate(scn["ops"]):
                k = o["op"]
                msg = "op %d %s: " % (no, o)
                if k != "make" and not objs:
                    continue
                o = dict(o)
                if "x" in o and objs:
                    o["x"] %= len(objs)
                if "y" in o:
                    o["y"] %= len(objs)
                if "of" in o:
                    o["of"] = [i % len(objs) for i in o["of"]]
                res.probes[k if k != "use" else "use " + o["u"]] += 1
                if k in ("use", "par"):
                    used.update(u["g"] for u in ([o] if k == "use" else o["a"] + o["b"]) if "g" in u)
                if k == "collect":      # the garbage collector runs at any moment
                    gc.collect()
                    w.fired["garbage collection"] += 1
                    changed = True
                elif k == "look":
                    look(sorted({o["x"], o["y"]}), msg)
                elif k == "par":
                    def task(uses):
                        def f():
                            out = []
                            for u in uses:
                                out.append(use(rt, objs, u, path="u%d.pkl" % (uses is o["a"]), rays=rays))
                            return out
                        return f
                    if sched is not None:
                        continue
                    got = [None, None]

                    def t0():
                        got[0] = task(o["a"])()

                    def t1():
                        got[1] = task(o["b"])()
                    sched, fail = run_tasks(w, scn, [t0, t1])
                    if fail is not None:
                        if isinstance(fail, StepLimit):
                            res.probes["skipped long tasks"] += 1
                        else:
                            raise Bug("stuck", msg + repr(fail))
                    changed = True
                elif k == "use":
                    o = aim(objs, o)
                    if "at" in o:
                        at = cut_at(o["at"], lambda: use(rt, objs, o, rays=rays))
                        if at is None:
                            continue
                        s2 = Stepper()
                        with s2:
                            s2.arm(at, EXC[o["exc"]]())
                            call(w, use, rt, objs, o, None, rays, name="interrupted use")
                        if s2.fired is not None:
                            w.fired["interrupt_" + o["exc"]] += 1
                            if o.get("then"):
                                look([o["x"]], msg)
                    else:
                        st = Stepper()
                        with st:
                            st.bound(LIMIT * 5)
                            out = call(w, use, rt, objs, o, None, rays, name="use " + o["u"], fault=o.get("fault"))
                        if out.kind == "hang" and isinstance(out.err, StepLimit):
                            res.probes["skipped long call"] += 1
                    changed = True
                else:
                    if k == "set":
                        x, path = objs[o["x"]], []
                        for i in o["sub"]:
                            if not getattr(x, "elements", None):
                                break
                            path.append(i % len(x.elements))
                            x = x.elements[path[-1]]
                        o["sub"] = path
                    if k == "slice" and kind_of(objs[o["x"]]) == "element" or k == "edit" and kind_of(objs[o["x"]]) == "element":
                        continue
                    if k == "edit" and o["e"] == "reverse" and kind_of(objs[o["x"]]) != "cavity":
                        continue
                    if k == "edit" and o["e"] == "append" or k == "group":
                        inner = set()
                        for i in o.get("of", [o.get("y")]):
                            inner |= set(members(objs[i]))
                        if k == "edit" and id(objs[o["x"]]) in inner:
                            continue            # a group in itself
                        if len(inner) > 40:
                            continue
                    read = set()
                    ids = set()
                    if k != "make":
                        read = {o["x"]} if k != "group" else set()
                        read |= set(o.get("of", ()))
                        if k == "edit" and o["e"] == "append":
                            read.add(o["y"])
                        for i in read:
                            ids |= set(members(objs[i]))
                    before = cover(ids)
                    # what a copy comes from is read only; everything else may be touched
                    touched = set() if k == "copy" else before
                    out = call(w, apply, rt, objs, o, lists, name=k)
                    if not out.ok:
                        if out.kind == "hang":
                            raise Bug("never-returns", msg + repr(out))
                        res.probes["refused " + k] += 1
                        changed = True
                        continue
                    made = None
                    if k in ("make", "copy", "group", "slice"):
                        if len(objs) < 16:
                            made = len(objs)
                            objs.append(out.value)
                    log.append((o, made, touched, read | (before if k != "copy" else read)))
                    changed = True
            if objs:
                e = sorted({i % len(objs) for i in scn["end"]})
                look(e[:1], "at the end: ")
                if len(e) > 1:
                    look(e, "at the end: ")
        except Bug as b:
            res.bad(b.args[0], b.args[1])
        for e in w.escapes:
            res.probes["escape " + e] += 1
    res.take(w, sched)
    return res


from .c02 import hash_of  # noqa


def shrink(scn):
    for c in drop_items(scn, "ops"):
        yield c
    for i, o in enumerate(scn["ops"]):
        if o["op"] == "group" and len(o["of"]) > 1:
            for j in range(len(o["of"])):
                yield replace(scn, ops=scn["ops"][:i] + [dict(o, of=o["of"][:j] + o["of"][j + 1:])] + scn["ops"][i + 1:])
        if "at" in o:
            yield replace(scn, ops=scn["ops"][:i] + [{a: b for a, b in o.items() if a not in ("at", "exc")}] + scn["ops"][i + 1:])
    if len(set(scn["end"])) > 1:
        yield replace(scn, end=scn["end"][:1])
        yield replace(scn, end=scn["end"][1:])
