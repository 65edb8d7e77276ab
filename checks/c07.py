"""C07: saved ray collections load back exactly or fail loudly."""
from .common import *
from . import storage

ID = "C07"
RUNS = {"quick": 8000, "thorough": 500000}
RULE = ("seeded runs: ray collections (lists, regular and random sources, up to 3000 rays) of two alternating sessions and 3-16 "
        "operations: save, load (replacing or appending), growth, restart, disk states (full, read-only, denied, short reads), "
        "a fault or kill at any system call of a save or load, another program deleting, replacing, cutting, growing or "
        "copying the file between or during operations; a model keeps the contents each file may give back; non-trivial: "
        "something was saved and a fault or failure occurred")
REAL = ["raytracing.rays (fresh copies per session)", "pickle", "buffered and text I/O of Python above raw files"]
STUB = ["raw files and directories", "clock", "other programs", "session kills"]
ASSUMPTIONS = ["a kill loses Python buffers but not what was written (no power loss)", "the previous contents of a file need "
               "not survive a failed save onto it"]


def g_obj(rng):
    k = rng.choice(["list", "list", "list", "uniform", "random", "lamp", "object", "big"])
    if k == "big" and rng.random() < 0.8:
        k = "list"
    if k == "list":
        return {"k": k, "rays": [g_ray(rng) for _ in range(rng.choice([0, 1, 2, 3, 10]))]}
    if k == "big":
        return {"k": k, "n": rng.choice([500, 500, 3000, 3000, 11000])}
    return {"k": k, "n": rng.choice([0, 1, 3, 5]), "use": rng.randint(0, 4), "cls": rng.randrange(4)}


class Ad:
    @staticmethod
    def make(rt, s):
        k = s["k"]
        if k == "list":
            return rt.Rays([ray(rt, x) for x in s["rays"]])
        if k == "big":
            return rt.Rays([rt.Ray(i * 0.001, -i * 0.0001, z=i) for i in range(s["n"])])
        n = s["n"]
        if k == "uniform":
            return rt.UniformRays(yMax=3, thetaMax=0.2, M=2, N=n)
        if k == "object":
            return rt.ObjectRays(5, halfAngle=0.1, H=3, T=n)
        if k == "lamp":
            return rt.LampRays(4, NA=0.5, N=n, T=2)
        c = [lambda: rt.RandomUniformRays(maxCount=n), lambda: rt.RandomLambertianRays(maxCount=n),
             lambda: rt.GaussianProfileUniformRays(1, maxCount=n), lambda: rt.LampRays(4, N=n, random=True)][s["cls"]]()
        for i in range(min(s["use"], n)):
            c[i]
        return c

    @staticmethod
    def empty(rt):
        return rt.Rays()

    @staticmethod
    def grow(rt, c, spec):
        if not hasattr(c, "maxCount"):
            c.append(ray(rt, spec))

    @staticmethod
    def eager(c):
        # asking a random source generates its rays: it is saved first, asked afterwards
        return not hasattr(c, "randomRay") or len(c.rays) == len(c)

    @staticmethod
    def values(c, rt):
        return [(r.y, r.theta, r.z, bool(r.isBlocked), r.wavelength) for r in (c[i] for i in range(len(c)))]

    @staticmethod
    def spoil(rt, c):
        r = rt.Ray(1, 2)
        n = len(c)
        if not n:
            return None
        c[n - 1].note = lambda: 0
        return lambda: delattr(c[n - 1], "note")

    @staticmethod
    def raw(rt):
        return [rt.Ray(1, 2), rt.Ray(3, 4, z=5)]

    @staticmethod
    def raw_values(rs, rt):
        return [(r.y, r.theta, r.z, bool(r.isBlocked), r.wavelength) for r in rs]

    @staticmethod
    def loadable(before, vals, append):
        return True

    @staticmethod
    def is_load(before, vals, append, after):
        return after == (before + vals if append else vals)

    @staticmethod
    def consistent(res, c, msg):
        if len(c) != len(c.yValues) or c.count != len(c):
            res.bad("count", msg + "count %s, %d heights, %d rays" % (c.count, len(c.yValues), len(c)))
            return False
        return True


def generate(rng, tier):
    return storage.generate(rng, g_obj, g_ray)


def execute(scn):
    return storage.execute(scn, Ad)


shrink = storage.shrink
