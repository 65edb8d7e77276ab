"""C05: a ray collection always describes the rays it holds now."""
import numpy as np
from .common import *
from sim.world import instrument_package

ID = "C05"
RUNS = {"quick": 12000, "thorough": 500000}
RULE = ("seeded runs: 1-3 ray collections built from lists, tuples, generators, other collections or regular sources (also "
        "from failing or foreign sources) and 4-20 operations: append (also refused), load (good, foreign, damaged, missing, "
        "read faults), save, statistics with good and bad parameters, iterations that are full, nested, abandoned, "
        "alternating, interrupted at a random interpreter instruction or mixed with statistics and appends, changes of what "
        "was returned, tracing; after each operation the collection is compared with a list model; non-trivial: the rays "
        "changed, or an operation failed or was interrupted, after statistics or an iteration was asked for")
REAL = ["raytracing.rays and the tracing functions (fresh copies)", "numpy.histogram", "pickle"]
STUB = ["file system", "interruption of calls (exception raised at a chosen interpreter instruction)"]
ASSUMPTIONS = ["rays already held are not modified in place by the caller", "a load while an iteration over the same "
               "collection is under way is not claimed", "random sources belong to C06"]
FILES = {"rays.py", "ray.py"}


def setup():
    instrument_package(FILES)


def g_rays(rng, most=6):
    n = rng.choice([0, 1, 2, 3, most]) if rng.random() < 0.985 else rng.choice([40, 130, 260])
    out = [g_ray(rng) for _ in range(n)]
    if out and rng.random() < 0.2:
        out.append(dict(out[0]))
    return out


def g_build(rng):
    k = rng.choices(["list", "tuple", "gen", "iter", "rays", "uniform", "lambert", "object", "lamp", "none", "map",
                     "fails", "foreign", "notiter", "set", "dict"], [5, 2, 4, 2, 2, 2, 1, 1.5, 2.5, 1, 1, 1.5, 1.5, 0.5, 0.5, 0.7])[0]
    b = {"k": k}
    if k in ("list", "tuple", "gen", "iter", "map", "fails", "foreign", "dict"):
        b["rays"] = g_rays(rng)
        if k in ("fails", "foreign"):
            b["at"] = rng.randrange(len(b["rays"]) + 1)
            b["lazy"] = rng.random() < 0.5
    elif k == "rays":
        b["of"] = rng.randrange(3)
        b["nest"] = rng.random() < 0.3
    elif k == "uniform":
        b.update(y=rng.choice([1, 5]), t=rng.choice([0.1, 1.5]), M=rng.choice([0, 1, 2, 4]), N=rng.choice([0, 1, 2, 3]))
        if rng.random() < 0.05:
            b.update(M=rng.choice([20, 36]), N=30)
    elif k == "lambert":
        b.update(y=rng.choice([1, 5]), M=rng.choice([1, 3]), N=rng.choice([1, 3]), I=rng.choice([1, 2, 5]))
    elif k == "object":
        b.update(d=rng.choice([1, 10]), a=rng.choice([0.1, 1]), H=rng.choice([1, 2, 3]), T=rng.choice([1, 2, 3]))
    elif k == "lamp":
        b.update(d=rng.choice([1, 10]), NA=rng.choice([0.1, 1]), N=rng.choice([1, 2, 3]), T=rng.choice([1, 2, 3]))
    return b


def g_hist(rng):
    q = {"q": rng.choice(["y", "t"]), "bins": rng.choice([None, None, 1, 5, 40, 40, 7])}
    if rng.random() < 0.55:
        q["lo"], q["hi"] = rng.choice([(0, 1), (-5, 5), (-1, None), (None, 4), (0, 10), (0, 1e-3)])
    if rng.random() < 0.2:
        q.update(rng.choice([{"bins": 0}, {"bins": -3}, {"bins": 2.5}, {"bins": "many"}, {"lo": 3, "hi": 1},
                             {"lo": "nan", "hi": 1}, {"lo": 0, "hi": "inf"}]))
    return q


def g_stat(rng):
    r = rng.random()
    if r < 0.45:
        return dict(g_hist(rng), op="hist")
    return {"op": rng.choice(["yValues", "thetaValues", "count", "len", "rays", "getitem", "list"]), "i": rng.choice([0, 1, -1, 4, 99, -99])}


def g_op(rng):
    k = rng.choices(["stat", "append", "badappend", "load", "save", "iterate", "nested", "abandon", "zip", "mixed",
                     "mutate", "trace", "build", "grow", "resume", "display"],
                    [9, 4, 1.5, 3, 1.2, 2, 2, 1.5, 1.5, 2, 1.5, 1, 0.8, 0.8, 1.0, 0.08])[0]
    o = {"op": k, "c": rng.randrange(3)}
    if k == "stat":
        o.update(g_stat(rng))
        o["c"] = rng.randrange(3)
        if rng.random() < 0.15:
            o["at"] = round(rng.random(), 4)
    elif k == "append":
        o["r"] = g_ray(rng)
    elif k == "badappend":
        o["what"] = rng.choice(["none", "string", "beam", "list", "rays", "tuple"])
    elif k == "load":
        o["file"] = rng.choice(["good", "good", "good", "f0", "f1", "missing", "junk", "foreign", "mixed", "number",
                                "empty", "cut", "gen"])
        o["append"] = rng.random() < 0.5
        if o["file"] in ("good", "cut", "mixed"):
            o["rays"] = g_rays(rng)
            o["cut"] = round(rng.random(), 3)
            o["as"] = rng.choice(["list", "tuple", "rays"])
        if rng.random() < 0.3:
            o["fault"] = {"n": rng.randint(1, 4), "kind": rng.choice(["EIO", "EACCES", "EMFILE", "short"])}
    elif k == "save":
        o["file"] = rng.choice(["f0", "f1"])
    elif k in ("iterate", "nested", "zip", "mixed", "abandon"):
        o["n"] = rng.randint(0, 6)
        o["d"] = rng.randrange(3)
        o["stats"] = [g_stat(rng) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.2 and k != "abandon":
            o["at"] = round(rng.random(), 4)
    elif k == "grow":
        o["r"] = g_ray(rng)
        o["n"] = rng.randint(0, 3)
    elif k == "build":
        o["b"] = g_build(rng)
    elif k == "trace":
        o["els"] = g_elements(rng, rng.randint(0, 2))
        o["how"] = rng.choice(["many", "through"])
    elif k == "resume":
        o["n"] = rng.randint(1, 4)
    return o


def generate(rng, tier):
    ops = [g_op(rng) for _ in range(rng.choice([4, 8, 12, 20]))]
    if rng.random() < 0.5:      # the same statistics before and after changes
        s = [dict(g_stat(rng), c=0) for _ in range(3)]
        for o in ops:
            o["c"] = 0
        ops = s + ops[:5] + s + ops[5:] + s
    return {"builds": [g_build(rng) for _ in range(rng.choice([1, 1, 2, 3]))], "ops": ops,
            "buf": rng.choice([16, 512, 8192])}


def val(r):
    return (r.y, r.theta, r.z, bool(r.isBlocked), r.wavelength)


def specval(s):
    return (s["y"], s["t"], s.get("z", 0), bool(s.get("b", False)), s.get("wl"))


class Boom(Exception):
    pass


def source(rt, b, cols, models):
    """the object to build from, and the rays expected (None: must be refused)"""
    k = b["k"]
    rs = [ray(rt, s) for s in b.get("rays", [])]
    vals = [specval(s) for s in b.get("rays", [])]
    if k == "list":
        return rs, vals
    if k == "tuple":
        return tuple(rs), vals
    if k == "gen":
        return (r for r in rs), vals
    if k == "iter":
        return iter(rs), vals
    if k == "map":
        return map(lambda r: r, rs), vals
    if k == "dict":
        # a mapping with rays as keys is not possible (rays are not hashable); its values are an iterable of rays
        return dict(enumerate(rs)).values(), vals
    if k == "fails":
        def g():
            for i, r in enumerate(rs):
                if i == b["at"]:
                    raise Boom("source")
                yield r
            if b["at"] >= len(rs):
                raise Boom("source")
        return g(), None
    if k == "foreign":
        rs.insert(b["at"], "not a ray")
        return ((x for x in rs) if b["lazy"] else rs), None
    if k == "notiter":
        return 5, None
    if k == "set":
        return set(), []
    if k == "none":
        return None, []
    raise HarnessError(k)


def construct(rt, b, cols, models):
    """(function building a collection, expected values or None)"""
    k = b["k"]
    if k == "rays":
        if not cols:
            return lambda: rt.Rays(), []
        j = b["of"] % len(cols)
        if b["nest"]:
            def f():
                it = iter(cols[j])
                first = next(it, None)
                c = rt.Rays(cols[j])
                rest = list(it)
                assert [val(r) for r in ([first] if first is not None else []) + rest] == models[j], \
                    "an iteration was disturbed by building another collection"
                return c
            return f, list(models[j])
        return lambda: rt.Rays(cols[j]), list(models[j])
    if k == "uniform":
        ys = [0.0] if b["M"] == 1 else np.linspace(-b["y"], b["y"], b["M"])
        return lambda: rt.UniformRays(yMax=b["y"], thetaMax=b["t"], M=b["M"], N=b["N"]), None if False else \
            [(y, t, 0, False, None) for y in ys for t in np.linspace(-b["t"], b["t"], b["N"])]
    if k == "lambert":
        v = []
        for t in np.linspace(-np.pi / 2, np.pi / 2, b["N"]):
            for y in np.linspace(-b["y"], b["y"], b["M"]):
                v += [(y, t, 0, False, None)] * int(b["I"] * np.cos(t))
        return lambda: rt.LambertianRays(yMax=b["y"], M=b["M"], N=b["N"], I=b["I"]), v
    if k == "object":
        ys = [0.0] if b["H"] == 1 else np.linspace(-b["d"] / 2, b["d"] / 2, b["H"])
        return lambda: rt.ObjectRays(b["d"], halfAngle=b["a"], H=b["H"], T=b["T"]), \
            [(y, t, 0, False, None) for y in ys for t in np.linspace(-b["a"], b["a"], b["T"])]
    if k == "lamp":
        return lambda: rt.LampRays(b["d"], NA=b["NA"], N=b["N"], T=b["T"]), \
            [(y, t, 0, False, None) for y in np.linspace(-b["d"] / 2, b["d"] / 2, b["N"]) for t in
             np.linspace(-b["NA"], b["NA"], b["T"])]
    src, vals = source(rt, b, cols, models)
    return lambda: rt.Rays(src), vals


def fl(x):
    return {"nan": float("nan"), "inf": INF}.get(x, x) if isinstance(x, str) else x


def stat(c, o):
    k = o["op"]
    if k == "hist":
        kw = {}
        if o["bins"] is not None:
            kw["binCount"] = o["bins"]
        if o.get("lo") is not None:
            kw["minValue"] = fl(o["lo"])
        if o.get("hi") is not None:
            kw["maxValue"] = fl(o["hi"])
        return (c.rayCountHistogram if o["q"] == "y" else c.rayAnglesHistogram)(**kw)
    if k in ("yValues", "thetaValues", "rays"):
        return getattr(c, k)
    if k == "count":
        return c.count
    if k == "len":
        return len(c)
    if k == "getitem":
        return c[o["i"]]
    if k == "list":
        return list(c)


def expect(m, o):
    """('is', value) or ('raises',)"""
    k = o["op"]
    if k == "hist":
        v = [x[0] if o["q"] == "y" else x[1] for x in m]
        try:
            lo = fl(o["lo"]) if o.get("lo") is not None else min(v)
            hi = fl(o["hi"]) if o.get("hi") is not None else max(v)
            n = 40 if o["bins"] is None else o["bins"]
            if not isinstance(n, int) or n < 1:
                return ("raises",)
            h, e = np.histogram(v, bins=n, range=(lo, hi))
        except (ValueError, TypeError):
            return ("raises",)
        return ("is", ([float((a + b) / 2) for a, b in zip(e[:-1], e[1:])], [int(x) for x in h]))
    if k == "yValues":
        return ("is", [x[0] for x in m])
    if k == "thetaValues":
        return ("is", [x[1] for x in m])
    if k in ("rays", "list"):
        return ("rays", m)
    if k in ("count", "len"):
        return ("is", len(m))
    if k == "getitem":
        try:
            return ("rays", [m[o["i"]]])
        except IndexError:
            return ("raises",)


def agrees(got, e):
    if e[0] == "raises":
        return not got.ok and got.kind == "exc"
    if not got.ok:
        return False
    v = got.value
    if e[0] == "rays":
        v = [v] if hasattr(v, "theta") and hasattr(v, "isBlocked") else list(v)
        return [val(r) for r in v] == [tuple(x) for x in e[1]]
    x = e[1]
    if isinstance(x, tuple):
        a, b = v
        a, b = list(a), list(b)
        span = max([1e-12] + [abs(t) for t in x[0]])
        return len(a) == len(x[0]) and [int(t) for t in b] == x[1] and all(abs(s - t) <= 1e-9 * span for s, t in zip(a, x[0]))
    if isinstance(x, list):
        return [float(t) for t in v] == [float(t) for t in x]
    return v == x


def show(o):
    return {k: v for k, v in o.items() if k != "rays"}


def execute(scn):
    res = Result()
    w = World(1)
    w.buffer_size = scn["buf"]
    with w:
        rt = w.load()
        cols, models, files, kept, partial = [], [], {}, [], []
        seen = False

        def full_check(j, msg):
            """everything the collection says of itself"""
            c, m = cols[j], models[j]
            for o in ({"op": "count"}, {"op": "rays"}, {"op": "yValues"}, {"op": "thetaValues"}, {"op": "list"}):
                check_stat(j, o, msg)

        def check_stat(j, o, msg, keep=False):
            e = expect(models[j], o)
            s = Stepper()
            with s:
                s.bound(400_000)
                out = call(w, stat, cols[j], o, name=o["op"])
            if not agrees(out, e):
                got = out.value if out.ok else out
                if out.ok and o["op"] in ("rays", "list", "getitem"):
                    got = [val(r) for r in (got if isinstance(got, list) else [got])]
                res.bad("wrong-" + o["op"], "%sasked %s got %s, the %d rays held give %s" % (
                    msg, show(o), str(got)[:300], len(models[j]), str(e)[:300]))
            elif keep and out.ok:
                kept.append(out.value)
            if not out.ok:
                w.fired["refused_statistics"] += 1
            return out

        def add(b, msg):
            f, vals = construct(rt, b, cols, models)
            out = call(w, f, name="build " + b["k"])
            if vals is None:
                w.fired["refused_build"] += 1
                if out.ok:
                    res.bad("foreign-accepted", msg + "building from %s was accepted" % b)
                elif out.kind != "exc":
                    res.bad("build", msg + repr(out))
                return
            if not out.ok:
                res.bad("build-refused", msg + "building from %s: %r" % (b, out))
                return
            cols.append(out.value)
            models.append(vals)
            # the list given remains the caller's
            full_check(len(cols) - 1, msg + "just built from %s: " % {k: v for k, v in b.items()})

        for b in scn["builds"]:
            add(b, "")
            if res.violations:
                res.take(w)
                return res
        for no, o in enumerate(scn["ops"]):
            k = o["op"]
            msg = "op %d %s: " % (no, show(o))
            if k == "build":
                if len(cols) < 6:
                    add(o["b"], msg)
                if res.violations:
                    break
                continue
            if not cols:
                continue
            j = o["c"] % len(cols)
            c, m = cols[j], models[j]
            res.probes[k] += 1
            if k in ("hist", "yValues", "thetaValues", "count", "len", "rays", "getitem", "list"):
                if "at" in o:
                    interrupted(w, res, o, lambda: stat(c, o))
                    res.nontrivial = True
                check_stat(j, o, msg, keep=True)
                seen = True
            elif k == "append":
                r = ray(rt, o["r"])
                out = call(w, c.append, r, name=k)
                if not out.ok:
                    res.bad("append-refused", msg + repr(out))
                    break
                m.append(specval(o["r"]))
                res.nontrivial |= seen
            elif k == "badappend":
                x = {"none": None, "string": "ray", "beam": rt.GaussianBeam(w=1), "list": [rt.Ray(1, 1)], "tuple": (1, 2),
                     "rays": c}[o["what"]]
                out = call(w, c.append, x, name=k)
                w.fired["refused_append"] += 1
                if out.ok:
                    res.bad("foreign-accepted", msg + "accepted")
                    break
                res.nontrivial |= seen
            elif k == "load":
                f = o["file"]
                path = "/simfs/cwd/" + f
                vals = None
                if f in ("f0", "f1"):
                    vals = files.get(f)
                elif f in ("good", "mixed", "cut"):
                    vals = [specval(s) for s in o["rays"]]
                    rs = [ray(rt, s) for s in o["rays"]]
                    if f == "mixed":
                        rs.append("foreign")
                        vals = None
                    x = tuple(rs) if o["as"] == "tuple" else rt.Rays(rs) if o["as"] == "rays" and f != "mixed" else rs
                    import pickle
                    data = pickle.dumps(x)
                    if f == "cut":
                        data = data[:int(len(data) * o["cut"] * 0.99)]
                        vals = None
                    w.fs.put(path, data)
                elif f != "missing":
                    import pickle
                    w.fs.put(path, {"junk": b"hello", "foreign": pickle.dumps(["a", 2]), "number": pickle.dumps(12),
                                    "empty": b"", "gen": pickle.dumps({"a": 1})}[f])
                out = call(w, c.load, path, append=o["append"], fault=o.get("fault"), name=k)
                if out.ok:
                    if vals is None:
                        res.bad("load-accepted", msg + "a file without the rays of a collection was accepted")
                        break
                    models[j] = (m + vals) if o["append"] else list(vals)
                    res.nontrivial |= seen
                else:
                    if vals is not None and not w.fired and "fault" not in o:
                        res.bad("load-refused", msg + repr(out))
                        break
                    if out.kind != "exc":
                        res.bad("load", msg + repr(out))
                        break
                    w.fired["failed_load"] += 1
                    res.nontrivial |= seen
            elif k == "save":
                out = call(w, c.save, "/simfs/cwd/" + o["file"], name=k)
                if not out.ok:
                    res.bad("save-failed", msg + repr(out))
                    break
                files[o["file"]] = list(m)
            elif k in ("iterate", "nested", "zip", "mixed"):
                d = o["d"] % len(cols)

                def it():
                    out = []
                    if k == "iterate":
                        for r in c:
                            out.append(val(r))
                        return out == m, out
                    if k == "nested":
                        for n, r in enumerate(c):
                            out.append(val(r))
                            if n < 2:
                                inner = []
                                for i, q in enumerate(cols[d]):
                                    if i >= o["n"]:
                                        break
                                    inner.append(val(q))
                                if inner != models[d][:o["n"]]:
                                    return False, inner
                        return out == m, out
                    if k == "zip":
                        out = [(val(a), val(b)) for a, b in zip(c, cols[d])]
                        return out == list(zip(m, models[d])), out
                    for n, r in enumerate(c):
                        out.append(val(r))
                        for s in o["stats"]:
                            try:
                                g = Out("ok", stat(c, s))
                            except Exception as e:
                                g = Out("exc", err=e)
                            if not agrees(g, expect(m, s)):
                                return False, "in ray %d, %s gave %s" % (n, s, g.value if g.ok else g)
                        if n > 4:
                            break
                    return out == m[:len(out)] and len(out) == min(len(m), 6), out
                if "at" in o:
                    interrupted(w, res, o, it)
                    res.nontrivial = True
                s = Stepper()
                with s:
                    s.bound(2_000_000)
                    out = call(w, it, name=k)
                if not out.ok:
                    res.bad("iteration-failed", msg + repr(out))
                    break
                good, got = out.value
                if not good:
                    res.bad("iteration", msg + "iterating %s gave %s, the rays held are %s" % (k, str(got)[:300], str(m)[:300]))
                    break
                seen = True
            elif k == "abandon":
                it = iter(c)
                got = [val(r) for r in (next(it, None) for _ in range(o["n"])) if r is not None]
                if got != m[:o["n"]]:
                    res.bad("iteration", msg + "began with %s, rays held %s" % (got[:6], m[:6]))
                    break
                partial.append((j, it, len(got), list(m)))
                seen = True
            elif k == "resume" and partial:
                # an iteration begun earlier goes on where it was, if the rays were not replaced meanwhile
                jj, it, pos, then = partial.pop()
                if models[jj][:len(then)] == then and len(models[jj]) >= len(then):
                    got = [val(r) for r in (next(it, None) for _ in range(o["n"])) if r is not None]
                    if got != models[jj][pos:pos + o["n"]] and got != then[pos:pos + o["n"]]:
                        res.bad("iteration", msg + "went on with %s, expected %s" % (got, models[jj][pos:pos + o["n"]]))
                        break
                    res.nontrivial = True
            elif k == "grow":
                before = list(m)
                out = []
                n = 0
                for r in c:
                    out.append(val(r))
                    if n < o["n"]:
                        c.append(ray(rt, o["r"]))
                        m.append(specval(o["r"]))
                        n += 1
                if out != before and out != m:
                    res.bad("iteration", msg + "iterating while appending gave %s; held %s" % (out, m))
                    break
            elif k == "mutate":
                for v in kept:
                    for x in (v if isinstance(v, tuple) else (v,)):
                        if isinstance(x, list):
                            if x:
                                x[0] = 1e6
                            x.append(-5)
                            x.reverse()
                kept.clear()
                res.nontrivial |= seen
            elif k == "trace":
                g = rt.MatrixGroup(build(rt, o["els"]))
                f = g.traceMany if o["how"] == "many" else lambda x: g.traceManyThrough(x, progress=False)
                out = call(w, f, c, name=k)
                if not out.ok:
                    res.bad("trace-failed", msg + repr(out))
                    break
            elif k == "display":
                out = call(w, c.display, name=k)
                import matplotlib.pyplot as plt
                plt.close("all")
            full = no == len(scn["ops"]) - 1 or no % 3 == 0
            if full:
                for jj in range(len(cols)):
                    full_check(jj, msg + "then collection %d: " % jj)
            else:
                check_stat(j, {"op": "count"}, msg)
                check_stat(j, {"op": "rays"}, msg)
            if res.violations:
                break
    res.take(w)
    return res


def interrupted(w, res, o, f):
    """call f and stop it at a chosen instruction"""
    at = cut_at(o["at"], f)
    if at is None:
        return
    s = Stepper()
    with s:
        s.arm(at, KeyboardInterrupt())
        call(w, f, name="interrupted")
    if s.fired is not None:
        w.fired["interrupt"] += 1


def shrink(scn):
    for c in drop_items(scn, "ops", "builds"):
        yield c
    for i, o in enumerate(scn["ops"]):
        if "at" in o or "fault" in o:
            yield replace(scn, ops=scn["ops"][:i] + [{a: b for a, b in o.items() if a not in ("at", "fault")}]
                          + scn["ops"][i + 1:])
    for i, b in enumerate(scn["builds"]):
        if len(b.get("rays", [])) > 1:
            c = dict(b, rays=b["rays"][:-1])
            if "at" in c:
                c["at"] = min(c["at"], len(c["rays"]))
            yield replace(scn, builds=scn["builds"][:i] + [c] + scn["builds"][i + 1:])
