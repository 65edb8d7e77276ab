"""C08: saved groups of elements load back exactly or fail loudly."""
from .common import *
from . import storage, queries as Q
from .c03 import value, close_key, composition, ill_conditioned, one

ID = "C08"
RUNS = {"quick": 9000, "thorough": 400000}
RULE = ("seeded runs: groups, imaging and laser paths and cavities (also nested, catalogue lenses, flipped) of two alternating "
        "sessions and 3-16 operations: save, load (replacing or appending, also with mismatched indices), growth, restart, disk "
        "states (full, read-only, denied, short reads), a fault or kill at any system call of a save or load, another program "
        "deleting, replacing, cutting, growing or copying the file between or during operations; a model keeps the contents "
        "each file may give back; non-trivial: something was saved and a fault or failure occurred")
REAL = ["raytracing (fresh copies per session)", "pickle", "buffered I/O of Python above raw files"]
STUB = ["raw files and directories", "clock", "other programs", "session kills"]
ASSUMPTIONS = ["a kill loses Python buffers but not what was written (no power loss)", "the previous contents of a file need "
               "not survive a failed save onto it"]
VENDOR = [("thorlabs", "AC254_050_A"), ("thorlabs", "ACN254_100_A"), ("eo", "PN_33_921"), ("olympus", "LUMPlanFL40X"),
          ("olympus", "XLUMPlanFLN20X"), ("thorlabs", "LA1608_A")]


def g_obj(rng):
    s = {"kind": rng.choice(["group", "group", "path", "laser", "cavity"]),
         "els": g_elements(rng, rng.choice([0, 1, 2, 3, 6]) if rng.random() < 0.97 else rng.choice([20, 45])), "label": rng.choice(["", "a system", "été"])}
    for e in s["els"]:
        if rng.random() < 0.3:
            e["label"] = rng.choice(["L1", "lentille é", "x" * 50])
    if rng.random() < 0.25:
        s["vendor"] = rng.randrange(len(VENDOR))
    if rng.random() < 0.2:
        s["flip"] = True
    return s


def keys(g):
    return [M.view(e).key() + (bool(e.isFlipped),) for e in g.elements]


class Ad:
    @staticmethod
    def make(rt, s):
        els = build(rt, s["els"])
        if "vendor" in s:
            m, n = VENDOR[s["vendor"]]
            els.append(getattr(getattr(rt, m), n)())
        g = Q.make(rt, s["kind"], els, s["label"])
        if s.get("flip"):
            try:
                g.flipOrientation()
            except ValueError:
                pass
        return g

    @staticmethod
    def empty(rt):
        return rt.MatrixGroup()

    @staticmethod
    def grow(rt, c, spec):
        c.append(build_one(rt, spec))

    @staticmethod
    def eager(c):
        return True

    @staticmethod
    def values(c, rt):
        return keys(c)

    @staticmethod
    def spoil(rt, c):
        if not c.elements:
            return None
        e = c.elements[-1]
        e.note = lambda: 0
        return lambda: delattr(e, "note")

    @staticmethod
    def raw(rt):
        return [rt.Space(3), rt.Lens(f=7, diameter=3)]

    @staticmethod
    def raw_values(els, rt):
        return [M.view(e).key() + (bool(e.isFlipped),) for e in els]

    @staticmethod
    def joined(before, vals, append):
        """keys after a load, None if the indices cannot match"""
        a = [list(k) for k in (before if append else [])]
        first = len(a)
        a += [list(k) for k in vals]
        for i in range(max(first, 1), len(a)):
            if a[i - 1][8] != a[i][7]:
                if a[i][13] != "Space":
                    return None
                a[i][7] = a[i][8] = a[i - 1][8]
        return [tuple(k) for k in a]

    @staticmethod
    def loadable(before, vals, append):
        k = Ad.joined(before, vals, append)
        if k is None:
            return False

        class E:
            def __init__(s, v):
                s.A, s.B, s.C, s.D = v[:4]
        return not ill_conditioned([E(v) for v in k])

    @staticmethod
    def is_load(before, vals, append, after):
        return Ad.joined(before, vals, append) == after

    @staticmethod
    def consistent(res, c, msg):
        if not composition(res, c, msg):
            return False
        rt = CUR.world.proc.rt
        vs = M.views(c.elements)
        for y, t in ((0.5, 0.01), (3, -0.1)):
            try:
                want = M.trace(vs, (y, t, 0, False))
            except M.Ambiguous:
                continue
            got = [M.rayv(r) for r in c.trace(rt.Ray(y, t))]
            if not Q.same(Q.norm(tuple(got)), Q.norm(tuple(want))):
                res.bad("wrong-trace", msg + "loaded group traces %s, its elements give %s" % (got, want))
                return False
        return True


def generate(rng, tier):
    return storage.generate(rng, g_obj, one)


def execute(scn):
    return storage.execute(scn, Ad)


shrink = storage.shrink
