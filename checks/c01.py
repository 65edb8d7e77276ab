"""C01: parallel tracing equals sequential tracing under any worker behaviour."""
from .common import *

ID = "C01"
RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("seeded runs: a random optical system, 1-2 parallel traces of a random collection (list, tuple, ray source, random "
        "source, generator, iterator, empty) with a random worker count, on simulated worker pools whose scheduling, delays and "
        "faults (creation failure, task exception, memory, pickling of arguments or results, worker death) come from the seed; "
        "non-trivial: at least two jobs or one fault was really delivered to the pool")
REAL = ["raytracing (all modules, fresh copy per run)", "pickle", "numpy"]
STUB = ["multiprocessing.Pool / concurrent.futures pools (worker tasks of the simulator, arguments and results really "
        "pickled)", "cpu count", "clock", "file system"]
ASSUMPTIONS = ["worker processes share nothing but pickled data with the caller", "a killed worker of multiprocessing.Pool "
               "loses its job silently; one of concurrent.futures breaks the pool, as in CPython"]


def g_source(rng):
    k = rng.choices(["list", "rays", "random", "lambert", "gauss", "uniform", "gen", "iter", "tuple", "empty", "lamp", "object"],
                    [5, 4, 3, 2, 1, 1, 3, 3, 1, 1, 1, 1])[0]
    if k in ("random", "lambert", "gauss"):
        return {"k": k, "n": rng.choice([1, 2, 3, 7, 12, 30] if rng.random() < 0.95 else [64, 200, 1100]), "seen": rng.choice([0, 0, 1, 5])}
    if k == "uniform":
        return {"k": k, "M": rng.randint(1, 4), "N": rng.randint(1, 4)}
    if k in ("lamp", "object"):
        return {"k": k, "N": rng.randint(1, 4), "T": rng.randint(1, 4), "random": rng.random() < 0.4 and k == "lamp"}
    if k == "empty":
        return {"k": rng.choice(["list", "rays", "gen"]), "rays": []}
    n = rng.choice([1, 2, 3, 4, 5, 8, 13, 25])
    rs = [g_ray(rng) for _ in range(n)]
    if n > 2 and rng.random() < 0.4:
        rs[rng.randrange(n)] = dict(rs[rng.randrange(n)])
    if rng.random() < 0.03:
        return {"k": k, "rays": rs, "rep": rng.choice([20, 70])}
    return {"k": k, "rays": rs}


def make_source(rt, s):
    k = s["k"]
    if k == "random":
        r = rt.RandomUniformRays(yMax=6, yMin=-6, thetaMax=0.3, thetaMin=-0.3, maxCount=s["n"])
    elif k == "lambert":
        r = rt.RandomLambertianRays(yMax=6, maxCount=s["n"])
    elif k == "gauss":
        r = rt.GaussianProfileUniformRays(intensityWidth=2, maxCount=s["n"])
    elif k == "uniform":
        r = rt.UniformRays(yMax=6, thetaMax=0.3, M=s["M"], N=s["N"])
    elif k == "lamp":
        r = rt.LampRays(diameter=8, NA=0.3, N=s["N"], T=s["T"], random=s["random"])
    elif k == "object":
        r = rt.ObjectRays(diameter=8, halfAngle=0.3, H=s["N"], T=s["T"])
    else:
        rs = [ray(rt, x) for _ in range(s.get("rep", 1)) for x in s["rays"]]
        if k == "rays":
            return rt.Rays(rs), rs
        if k == "gen":
            return (x for x in rs), rs
        if k == "iter":
            return iter(rs), rs
        if k == "tuple":
            return tuple(rs), rs
        return rs, list(rs)
    for i in range(min(s.get("seen", 0), len(r))):
        r[i]
    return r, None


def generate(rng, tier):
    calls = []
    for _ in range(1 if rng.random() < 0.7 else 2):
        p = rng.choices([None, 1, 2, 3, 4, 5, 8, 16, 0, -1], [3, 2, 4, 4, 3, 2, 2, 1, 0.4, 0.3])[0]
        pool = {}
        if rng.random() < 0.6:
            pool["delay"] = rng.choice([0.5, 5.0])
        if rng.random() < 0.5:
            r = rng.random()
            if r < 0.2:
                pool["create"] = rng.choice(["EAGAIN", "ENOMEM", "EMFILE", "ImportError", "NotImplementedError"])
            else:
                jobs = {}
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    jobs[str(rng.randint(1, 6))] = rng.choice(["exc", "memory", "send", "result", "die", "die_after", "slow"])
                pool["jobs"] = jobs
        calls.append({"src": g_source(rng), "processes": p, "progress": rng.random() < 0.25, "pool": pool})
    return {"els": g_elements(rng, rng.randint(0, 5)), "kind": rng.choice(["path", "path", "group", "element", "laser"]),
            "calls": calls, "cpus": rng.choice([1, 2, 3, 4, 8, 64, None]),
            "sched": {"seed": rng.getrandbits(32), "p_call": rng.choice([0.1, 0.5, 0.9])},
            "alt": rng.getrandbits(32), "np": rng.getrandbits(31)}


def system(rt, scn):
    els = build(rt, scn["els"])
    k = scn["kind"]
    if k == "element" and els:
        return els[0]
    if k == "group":
        return rt.MatrixGroup(els)
    if k == "laser":
        return rt.LaserPath(els)
    return rt.ImagingPath(els)


def tracer(x):
    return M.views(x.elements) if hasattr(x, "elements") else M.view(x)


def once(scn, res, sched, faults):
    """one simulated run; returns the ordered outputs of each call"""
    w = World(scn["np"])
    outs = []
    with w:
        rt = w.load()
        w.cpus = scn["cpus"]
        sysm = system(rt, scn)
        jobs = 0

        def main():
            for c in scn["calls"]:
                src, mine = make_source(rt, c["src"])
                before = None if mine is None else [M.ray_full(r) for r in mine]
                w.pool = dict(c["pool"]) if faults else {k: v for k, v in c["pool"].items() if k == "delay"}
                o = call(w, sysm.traceManyThroughInParallel, src, progress=c["progress"], processes=c["processes"],
                         name="parallel")
                outs.append((o, src, mine, before, w.pool.get("_n", 0)))
        s, fail = run_tasks(w, dict(scn, sched=sched), [main])
        if s.tasks[0].error is not None:
            raise s.tasks[0].error
        if fail is not None:
            res.bad("hang", "parallel tracing never returns: %s; plan %s" % (fail, [c["pool"] for c in scn["calls"]]))
            outs = None
        got = []
        v = tracer(sysm)
        for c, one in zip(scn["calls"], outs or []):
            o, src, mine, before, nj = one
            jobs += nj
            if not o.ok:
                res.bad("raised", "parallel tracing raised %r (processes=%s, source %s, plan %s)" % (
                    o, c["processes"], c["src"]["k"], c["pool"]))
                got.append(None)
                continue
            out = rays_of(o.value.rays)
            if mine is not None:
                inp = [b[:4] for b in before]
                after = [M.ray_full(r) for r in mine]
                if after != before:
                    res.bad("inputs-changed", "input rays changed by parallel tracing: %s -> %s" % (before, after))
            else:
                n = len(src)
                inp = [M.rayv(src[i]) for i in range(n)]
            try:
                exp = [r for r in (M.through(v, i) for i in inp) if not r[3]]
            except M.Ambiguous:
                res.probes["ambiguous"] += 1
                got.append(out)
                continue
            a, b = sorted(r[:3] for r in out), sorted(r[:3] for r in exp)
            if any(r[3] for r in out):
                res.bad("blocked-output", "a blocked ray is in the output")
            if len(a) != len(b) or not all(M.ray_close(x, y) for x, y in zip(a, b)):
                res.bad("wrong-rays", "parallel output differs from tracing each ray once: %d rays, expected %d; source %s, "
                        "processes %s, plan %s; got %s expected %s" % (
                            len(a), len(b), c["src"]["k"], c["processes"], c["pool"], a[:6], b[:6]))
            elif mine is not None:
                seq = call(w, sysm.traceManyThrough, rt.Rays([ray(rt, x) for _ in range(c["src"].get("rep", 1)) for x in c["src"]["rays"]]), progress=False,
                           name="sequential")
                if not seq.ok:
                    res.bad("sequential-raised", "sequential tracing raised %r" % seq)
                else:
                    q = sorted(r[:3] for r in rays_of(seq.value.rays))
                    if len(q) != len(a) or not all(M.ray_close(x, y) for x, y in zip(a, q)):
                        res.bad("differs-from-sequential", "parallel %s, sequential %s" % (a[:6], q[:6]))
            got.append(out)
            w.log("out %s" % out)
        if jobs >= 2 or any(k.startswith(("worker_", "pool_")) for k in w.fired):
            res.nontrivial = True
        res.probes["jobs"] += jobs
        for e in w.escapes:
            res.probes["escape " + e] += 1
    res.take(w, s if sched is scn["sched"] else None)
    return got


def execute(scn):
    res = Result()
    once(scn, res, scn["sched"], True)
    if not res.violations and scn.get("alt") is not None:
        # the same calls without faults under two other schedules: the order must be the same
        a = once(scn, res, {"seed": scn["alt"], "p_call": 0.2}, False)
        b = once(scn, res, {"seed": scn["alt"] ^ 0x5bd1e995, "p_call": 0.9}, False)
        if not res.violations and a != b:
            res.bad("order-depends-on-schedule", "two schedules give different orders: %s / %s" % (a, b))
    return res


def shrink(scn):
    for c in drop_items(scn, "calls", "els"):
        if c["calls"]:
            yield c
    for i, c in enumerate(scn["calls"]):
        def sub(**k):
            return replace(scn, calls=scn["calls"][:i] + [replace(c, **k)] + scn["calls"][i + 1:])
        if c["progress"]:
            yield sub(progress=False)
        if c["pool"]:
            yield sub(pool={})
            if "delay" in c["pool"]:
                yield sub(pool={k: v for k, v in c["pool"].items() if k != "delay"})
            if len(c["pool"].get("jobs") or {}) > 1:
                for k in c["pool"]["jobs"]:
                    yield sub(pool=replace(c["pool"], jobs={k: c["pool"]["jobs"][k]}))
        if c["src"].get("rep", 1) > 1:
            yield sub(src=replace(c["src"], rep=c["src"]["rep"] // 2))
        rs = c["src"].get("rays")
        if rs:
            for l in without(rs):
                yield sub(src=replace(c["src"], rays=l))
        if c["src"].get("n", 0) > 1:
            yield sub(src=replace(c["src"], n=c["src"]["n"] // 2))
    if scn["kind"] != "path":
        yield replace(scn, kind="path")
