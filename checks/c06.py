"""C06: random ray sources are stable, complete and within bounds."""
import numpy as np
from .common import *
from sim.rng import Extremes, LOW, HIGH
from sim.world import instrument_package

ID = "C06"
RUNS = {"quick": 8000, "thorough": 400000}
RULE = ("seeded runs: 1-2 random sources of every class, a random stream with extreme draws (0, 1-eps, repeated values, runs of "
        "refusals), a clock with jumps and stalls, and 3-12 operations: iterations (full, partial, nested, abandoned), indices "
        "in any order (negative and out of range), statistics, tracing, save and load, a failing generator, interruptions at a "
        "random interpreter instruction; checked: count, stability of every ray seen, bounds, profile (large sources), and the "
        "same rays with another clock; non-trivial: at least two ways of consuming the source, a fault or an extreme draw")
REAL = ["raytracing.rays, tracing functions (fresh copies)", "numpy random generator below the seam", "pickle"]
STUB = ["clock", "uniform draws replaced at chosen positions", "file system", "interruption of calls"]
ASSUMPTIONS = ["rays appended by the user to a random source are not claimed", "profiles are judged by Kolmogorov-Smirnov "
               "distance with a threshold of probability below 1e-12 on seeded streams"]
FILES = {"rays.py", "ray.py"}


def setup():
    instrument_package(FILES)


def g_src(rng):
    k = rng.choice(["uniform", "lambert", "gauss", "lamp"])
    s = {"k": k, "N": rng.choice([0, 1, 2, 3, 5, 8, 20]) if rng.random() < 0.97 else rng.choice([70, 300, 1100])}
    if k == "uniform":
        s["yMax"] = rng.choice([1, 5, 0, 10])
        s["yMin"] = rng.choice([None, 0, -3, 1 if s["yMax"] >= 1 else None])
        s["tMax"] = rng.choice([None, 0.1, 1.0])
        s["tMin"] = rng.choice([None, 0, -0.05]) if s["tMax"] else None
    elif k == "lambert":
        s["yMax"] = rng.choice([1, 5])
        s["yMin"] = rng.choice([None, 0, -3])
    elif k == "gauss":
        s["w"] = rng.choice([0.1, 1, 4])
    else:
        s["d"] = rng.choice([1, 20])
        s["NA"] = rng.choice([0.1, 1])
    return s


def g_op(rng):
    k = rng.choices(["index", "iterate", "partial", "nested", "zip", "stat", "trace", "saveload", "out", "rays", "resume",
                     "load", "seam"], [6, 3, 2, 1.5, 1, 3, 1.5, 0.8, 1, 1, 1, 0.6, 0.8])[0]
    o = {"op": k, "s": rng.randrange(2), "f": round(rng.random(), 3), "neg": rng.random() < 0.35, "n": rng.randint(0, 6)}
    if k == "stat":
        o["q"] = rng.choice(["yValues", "thetaValues", "hist", "ahist", "count", "len"])
    if k == "trace":
        o["how"] = rng.choice(["many", "through", "progress"])
    if k == "load":
        o["append"] = rng.random() < 0.5
        o["bad"] = rng.random() < 0.3
        o["count"] = rng.randint(0, 3)
    if k not in ("load", "saveload", "resume") and rng.random() < 0.15:
        o["at"] = round(rng.random(), 4)
    if rng.random() < 0.1:
        o["rngfail"] = rng.randint(1, 12)
    return o


def generate(rng, tier):
    ext = []
    if rng.random() < 0.6:
        n = 0
        for _ in range(rng.randint(1, 10)):
            n += rng.choice([1, 1, 2, 5, 20])
            v = rng.choice([LOW, LOW, HIGH, HIGH, 0.5, 0.25, 1e-17])
            for _ in range(rng.choice([1, 1, 1, 3, 40])):
                ext.append([n, v])
                n += 1
    clock = {}
    if rng.random() < 0.6:
        clock = {"per_read": rng.choice([0, 0, 0.001, 0.7, 10]),
                 "jumps": [[rng.randint(1, 60), rng.choice([3600, -3600, 1e6, -1e6, 5])] for _ in range(rng.randint(0, 4))],
                 "stalls": [[rng.randint(1, 60), rng.choice([1, 4, 100])] for _ in range(rng.randint(0, 4))]}
    s = {"srcs": [g_src(rng) for _ in range(rng.choice([1, 1, 2]))], "ops": [g_op(rng) for _ in range(rng.choice([3, 6, 12]))],
         "ext": ext, "clock": clock, "np": rng.getrandbits(31)}
    if rng.random() < 0.06:
        s["srcs"] = s["srcs"][:1]
        s["srcs"][0]["N"] = 30000 if rng.random() < 0.05 else 2500
        s["ops"] = [o for o in s["ops"] if o["op"] not in ("nested", "trace", "saveload")][:3]
        for o in s["ops"]:
            o.pop("at", None)
        s["ext"] = []
        s["profile"] = True
    return s


def make(rt, s):
    k, N = s["k"], s["N"]
    if k == "uniform":
        kw = {"yMax": s["yMax"], "yMin": s["yMin"], "maxCount": N}
        if s["tMax"] is not None:
            kw.update(thetaMax=s["tMax"], thetaMin=s["tMin"])
        return rt.RandomUniformRays(**kw)
    if k == "lambert":
        return rt.RandomLambertianRays(yMax=s["yMax"], yMin=s["yMin"], maxCount=N)
    if k == "gauss":
        return rt.GaussianProfileUniformRays(s["w"], maxCount=N)
    return rt.LampRays(s["d"], NA=s["NA"], N=N, random=True)


def bounds(s):
    k = s["k"]
    h = np.pi / 2
    if k == "uniform":
        a = -s["yMax"] if s["yMin"] is None else s["yMin"]
        t1 = h if s["tMax"] is None else s["tMax"]
        t0 = -t1 if s["tMin"] is None else s["tMin"]
        return a, s["yMax"], t0, t1
    if k == "lambert":
        return (-s["yMax"] if s["yMin"] is None else s["yMin"]), s["yMax"], -h, h
    if k == "gauss":
        return -4 * s["w"], 4 * s["w"], -h, h
    return -s["d"] / 2, s["d"] / 2, -s["NA"], s["NA"]


def val(r):
    return (float(r.y), float(r.theta), float(r.z), bool(r.isBlocked))


class FailingExtremes(Extremes):
    fail_in = None

    def one(self, u):
        if self.fail_in is not None:
            self.fail_in -= 1
            if self.fail_in <= 0:
                self.fail_in = None
                self.failed = True
                raise MemoryError("random numbers")
        return Extremes.one(self, u)


class Src:
    def __init__(self, spec, obj):
        self.spec, self.obj = spec, obj
        self.N = spec["N"]
        self.seen = {}
        self.partial = []
        self.loaded = []          # expected values of rays loaded, from index self.base
        self.base = self.N


class Bad(Exception):
    pass


def see(s, i, r, msg):
    v = val(r)
    if s.seen.setdefault(i, v) != v:
        raise Bad("unstable", msg + "ray %d was %s and is now %s" % (i, s.seen[i], v))
    if i >= s.base:
        if s.loaded[i - s.base] != v:
            raise Bad("loaded", msg + "ray %d is %s, loaded %s" % (i, v, s.loaded[i - s.base]))
        return
    a, b, c, d = bounds(s.spec)
    e = 1e-12 * (abs(a) + abs(b))
    if not (a - e <= v[0] <= b + e) or not (c - 1e-12 <= v[1] <= d + 1e-12):
        raise Bad("out-of-bounds", msg + "ray %d %s is outside %s" % (i, v, (a, b, c, d)))
    if v[2] != 0 or v[3]:
        raise Bad("ray", msg + "ray %d is %s" % (i, v))


def consume(s, o, msg, rt):
    k, src, N = o["op"], s.obj, s.N
    if k == "index":
        if N:
            i = min(N - 1, int(o["f"] * N))
            see(s, i, src[i - N] if o["neg"] else src[i], msg)
    elif k == "iterate":
        n = 0
        for r in src:
            if n >= N:
                raise Bad("too-many", msg + "more than the %d rays announced" % N)
            see(s, n, r, msg)
            n += 1
        if n != N:
            raise Bad("too-few", msg + "%d rays instead of %d" % (n, N))
    elif k == "partial":
        it = iter(src)
        n = 0
        for n in range(min(o["n"], N)):
            see(s, n, next(it), msg)
        s.partial.append([it, min(o["n"], N)])
    elif k == "resume":
        if s.partial:
            it, n = s.partial.pop()
            for r in it:
                if n >= N:
                    raise Bad("too-many", msg + "more than the %d rays announced" % N)
                see(s, n, r, msg)
                n += 1
            if n != N:
                raise Bad("too-few", msg + "%d rays instead of %d" % (n, N))
    elif k == "nested":
        n = 0
        for r in src:
            see(s, n, r, msg)
            if n < 2:
                m = 0
                for q in src:
                    if m >= o["n"]:
                        break
                    see(s, m, q, msg)
                    m += 1
                if m != min(o["n"], N):
                    raise Bad("too-few", msg + "inner iteration: %d rays" % m)
            n += 1
            if n > N:
                raise Bad("too-many", msg + "more than the %d rays announced" % N)
        if n != N:
            raise Bad("too-few", msg + "%d rays instead of %d" % (n, N))
    elif k == "zip":
        n = 0
        for a, b in zip(src, src):
            see(s, n, a, msg)
            see(s, n, b, msg)
            n += 1
            if n > N:
                raise Bad("too-many", msg + "more than the %d rays announced" % N)
        if n != N:
            raise Bad("too-few", msg + "%d rays instead of %d" % (n, N))
    elif k == "stat":
        q = o["q"]
        if q in ("yValues", "thetaValues"):
            v = getattr(src, q)
            if len(v) != N:
                raise Bad("statistics", msg + "%d values for %d rays" % (len(v), N))
            j = 0 if q == "yValues" else 1
            for i in range(N):
                see(s, i, src[i], msg)
                if float(v[i]) != s.seen[i][j]:
                    raise Bad("statistics", msg + "value %d is %s, the ray %s" % (i, v[i], s.seen[i]))
        elif q in ("hist", "ahist"):
            if N:
                x, y = (src.rayCountHistogram if q == "hist" else src.rayAnglesHistogram)(binCount=5)
                vals = []
                for i in range(N):
                    see(s, i, src[i], msg)
                    vals.append(s.seen[i][0 if q == "hist" else 1])
                e = np.histogram(vals, bins=5, range=(min(vals), max(vals)))[0]
                if [int(t) for t in y] != [int(t) for t in e]:
                    raise Bad("statistics", msg + "histogram %s, of the rays %s" % (y, e))
        else:
            n = src.count if q == "count" else len(src)
            if n != N:
                raise Bad("count", msg + "%s is %s for %d rays" % (q, n, N))
    elif k == "out":
        for i in (N, -N - 1):
            try:
                src[i]
            except IndexError:
                continue
            raise Bad("out-of-range", msg + "source[%d] exists among %d rays" % (i, N))
    elif k == "rays":
        for i, r in enumerate(src.rays):
            if i >= N:
                raise Bad("too-many", msg + "more than the %d rays announced" % N)
            see(s, i, r, msg)
    elif k == "trace":
        g = rt.MatrixGroup([rt.Space(d=1)])
        if o["how"] == "many":
            out = [t[0] for t in g.traceMany(src)]
        else:
            out = [rt.Ray(r.y - r.theta, r.theta) for r in g.traceManyThrough(src, progress=o["how"] == "progress").rays]
        if len(out) != N:
            raise Bad("trace", msg + "%d traces of %d rays" % (len(out), N))
        for i in range(N):
            see(s, i, src[i], msg)
            if abs(out[i].y - s.seen[i][0]) > 1e-9 or abs(out[i].theta - s.seen[i][1]) > 1e-9:
                raise Bad("trace", msg + "ray %d traced was %s, is %s" % (i, val(out[i]), s.seen[i]))
    elif k == "saveload":
        src.save("/simfs/cwd/rays")
        c = rt.Rays()
        c.load("/simfs/cwd/rays")
        if len(c) != N:
            raise Bad("save", msg + "%d rays saved of %d" % (len(c), N))
        for i, r in enumerate(c):
            see(s, i, src[i], msg)
            if val(r) != s.seen[i]:
                raise Bad("save", msg + "ray %d saved as %s, is %s" % (i, val(r), s.seen[i]))
    elif k == "load":
        import pickle
        rs = [rt.Ray(i + 0.5, 0.01 * i) for i in range(o["count"])]
        CUR.world.fs.put("/simfs/cwd/x", pickle.dumps(rs + ["x"] if o["bad"] else rs))
        try:
            src.load("/simfs/cwd/x", append=o["append"])
        except Exception:
            if not o["bad"]:
                raise
            return
        if o["bad"]:
            raise Bad("load", msg + "foreign contents accepted")
        vals = [val(r) for r in rs]
        if o["append"]:
            if s.base == s.N:
                s.loaded = []
            s.loaded = s.loaded + vals
            s.N += len(vals)
        else:
            s.seen.clear()
            s.loaded = vals
            s.base, s.N = 0, len(vals)
        s.partial.clear()
    elif k == "seam":
        # elements of the list obtained belong to the source, the list itself to the caller
        l = src.rays
        del l[:]


def one_run(scn, w, res, clock, final):
    c = w.clock
    if clock:
        c.per_read = clock.get("per_read", 0)
        c.jumps = {a: b for a, b in clock.get("jumps", [])}
        c.stalls = {a: b for a, b in clock.get("stalls", [])}
    rt = w.load()
    c.reads = 0
    ex = w.extremes = FailingExtremes(scn["ext"])
    srcs = [Src(s, make(rt, s)) for s in scn["srcs"]]
    ways = set()
    for no, o in enumerate(scn["ops"]):
        s = srcs[o["s"] % len(srcs)]
        msg = "op %d %s (%s of %d): " % (no, {a: o[a] for a in o if a in ("op", "n", "q", "how", "at", "rngfail")},
                                        s.spec["k"], s.N)
        ways.add(o["op"])
        if "at" in o or "rngfail" in o:
            st = Stepper()
            with st:
                if "at" in o:
                    st.arm(max(1, int(o["at"] * (40 + 60 * s.N))), KeyboardInterrupt())
                else:
                    ex.fail_in = o["rngfail"]
                    st.bound(5_000_000 + 2000 * s.N)
                try:
                    consume(s, o, msg, rt)
                except (KeyboardInterrupt, MemoryError):
                    pass
                except RuntimeError as e:
                    if not isinstance(e.__cause__, KeyboardInterrupt):
                        raise
            if st.fired:
                w.fired["interrupt"] += 1
            if getattr(ex, "failed", False):
                w.fired["generator_fails"] += 1
                ex.failed = False
            ex.fail_in = None
        if o["op"] == "load" and ("rngfail" in o):
            if s.N != len(s.obj):     # the load may or may not have happened when its generation failed
                raise Bad("count", msg + "%d rays after a failed load, %d before" % (len(s.obj), s.N))
            continue
        st = Stepper()
        with st:
            st.bound(5_000_000 + 2000 * s.N)
            consume(s, o, msg, rt)
        if len(s.obj) != s.N:
            raise Bad("count", msg + "source of %d rays has %d" % (s.N, len(s.obj)))
    for s in srcs:
        consume(s, {"op": "iterate"}, "finally (%s of %d): " % (s.spec["k"], s.N), rt)
        consume(s, {"op": "rays"}, "finally: ", rt)
        consume(s, {"op": "out"}, "finally: ", rt)
        final.append([s.seen[i] for i in range(s.N)])
    w.fired["extreme_draw"] += ex.used
    w.extremes = None
    w.log(str(len(final)) + str(final)[:2000])
    return srcs, ways


def execute(scn):
    res = Result()
    w = World(scn["np"])
    final = []
    try:
        with w:
            srcs, ways = one_run(scn, w, res, scn["clock"], final)
    except Bad as e:
        res.bad(e.args[0], e.args[1])
    except StepLimit as e:
        res.bad("never-ends", str(e))
    res.take(w)
    if res.violations:
        return res
    for x in ways:
        res.probes[x] += 1
    res.nontrivial = len(ways) > 1 or bool(w.fired)
    if scn.get("profile"):
        res.probes["profile"] += 1
        profile(res, srcs[0], final[0])
    elif scn["clock"] and not any("at" in o for o in scn["ops"]):
        final2 = []
        w2 = World(scn["np"])
        try:
            with w2:
                one_run(scn, w2, res, None, final2)
        except Bad as e:
            res.bad(e.args[0], e.args[1])
        else:
            res.probes["clock compared"] += 1
            if final2 != final:
                res.bad("clock", "with another clock the rays differ: %s / %s" % (str(final)[:300], str(final2)[:300]))
    return res


def ks(x, cdf):
    x = np.sort(np.asarray(x))
    n = len(x)
    f = cdf(x)
    return float(max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) / n)))


TAILS = (1e-6, 1e-5, 1e-4, 1e-3, 1e-2)


def log_tail(k, n, p):
    """upper bound of the logarithm of the probability of k or more of n events of probability p each"""
    if k <= n * p:
        return 0.0
    q = k / n
    return n * (q * np.log(p / q) + ((1 - q) * np.log((1 - p) / (1 - q)) if q < 1 else 0.0))


def profile(res, s, rays):
    if s.base != s.spec["N"] or len(rays) < 2000:
        return
    rays = rays[:s.base]
    from math import erf
    a, b, c, d = bounds(s.spec)
    n = len(rays)
    y = np.array([r[0] for r in rays])
    t = np.array([r[1] for r in rays])
    lim = np.sqrt(29.0 / (2 * n))
    uni = lambda lo, hi: (lambda x: np.clip((x - lo) / (hi - lo), 0, 1))
    fy = uni(a, b) if b > a else None
    ft = uni(c, d) if d > c else None
    if s.spec["k"] == "lambert":
        ft = lambda x: (1 + np.sin(x)) / 2
    if s.spec["k"] == "gauss":
        g = np.vectorize(lambda x: (erf(x / s.spec["w"]) + erf(4)) / (2 * erf(4)))
        fy = g
    for name, v, f in (("height", y, fy), ("angle", t, ft)):
        if f is not None:
            D = ks(v, f)
            if D > lim:
                res.bad("profile", "the %s of %d rays of a %s source are not distributed as its profile (distance %.3f)" % (
                    name, n, s.spec["k"], D))
            for cut in TAILS:
                u = f(v)
                k = int(np.sum((u < cut) | (u > 1 - cut)))
                if log_tail(k, n, 2 * cut) < -32:
                    res.bad("profile", "%d of %d rays of a %s source have a %s with a probability of %g" % (
                        k, n, s.spec["k"], name, 2 * cut))
    if fy is not None and ft is not None:
        u, v = fy(y) - 0.5, ft(t) - 0.5
        lim2 = 7.3 / np.sqrt(n)
        for name, p, q in (("height and angle", u, v), ("successive heights", u[1:], u[:-1]),
                           ("successive angles", v[1:], v[:-1]), ("an angle and the next height", v[:-1], u[1:]),
                           ("a height and the next angle", u[:-1], v[1:])):
            r = float(np.mean(p * q) * 12)
            if abs(r) > lim2:
                res.bad("profile", "%s of the rays of a %s source are not independent (%.2f)" % (name, s.spec["k"], r))


def shrink(scn):
    for c in drop_items(scn, "ops", "srcs", "ext"):
        if c["srcs"]:
            yield c
    if scn["clock"]:
        yield replace(scn, clock={})
        for k in ("jumps", "stalls"):
            if scn["clock"].get(k):
                yield replace(scn, clock=dict(scn["clock"], **{k: []}))
    for i, o in enumerate(scn["ops"]):
        if "at" in o or "rngfail" in o:
            yield replace(scn, ops=scn["ops"][:i] + [{a: b for a, b in o.items() if a not in ("at", "rngfail")}]
                          + scn["ops"][i + 1:])
    for i, s in enumerate(scn["srcs"]):
        if 3 < s["N"] and not scn.get("profile"):
            yield replace(scn, srcs=scn["srcs"][:i] + [dict(s, N=3)] + scn["srcs"][i + 1:])
