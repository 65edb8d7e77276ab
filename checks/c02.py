"""C02: threads sharing an optical path each get the right answer."""
from .common import *
from . import queries as Q
from sim.world import instrument_package

ID = "C02"
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("seeded runs: one optical path, group, laser path or cavity (nested groups included) and 2-4 threads, each making 1-5 "
        "traces (shared and own rays, beams, many rays), queries and iterations; the scheduler decides after every "
        "interpreter instruction of the package which thread runs; non-trivial: at least two threads were really interleaved "
        "inside calls of the package")
REAL = ["raytracing (all modules, fresh copies)", "numpy", "real Python threads (one runs at a time)"]
STUB = ["thread scheduler", "locks", "clock", "file system"]
ASSUMPTIONS = ["a single interpreter instruction is atomic, as it is under the global interpreter lock"]


def setup():
    instrument_package()


LIGHT = {k: [n for n in v if n not in Q.HEAVY] for k, v in Q.BY_KIND.items()}


def g_op(rng, kind, nrays, nstored):
    k = rng.choices(["trace", "through", "many", "manythrough", "beam", "query", "iter", "stored"],
                    [6, 3, 2, 2, 1.5, 8, 2, 2])[0]
    o = {"op": k}
    if k in ("trace", "through"):
        o["r"] = rng.randrange(nrays)
    elif k in ("many", "manythrough"):
        o["r"] = None if rng.random() < 0.4 else [rng.randrange(nrays) for _ in range(rng.randint(1, 4))]
        o["progress"] = rng.random() < 0.2
    elif k == "beam":
        o.update(g_beam(rng))
    elif k == "query":
        if kind == "path" and rng.random() < 0.12:
            o["q"] = rng.choice(Q.HEAVY)
        elif kind in ("path", "cavity") and rng.random() < 0.5:
            o["q"] = rng.choice([q for q in LIGHT[kind] if q not in Q.GROUP])
        else:
            o["q"] = rng.choice(LIGHT[kind])
    elif k == "iter":
        o["q"] = rng.choice(["iterate", "iterate nested", "list", "iterate"])
        o["op"] = "query"
    elif k == "stored":
        o["nested"] = rng.random() < 0.4
        o["stop"] = rng.choice([None, None, 0, 1, 2])
    return o


def generate(rng, tier):
    kind = rng.choice(["path", "path", "path", "group", "laser", "cavity"])
    nrays = rng.randint(1, 5)
    nst = rng.randint(0, 6)
    same = None
    tasks = []
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        ops = [g_op(rng, kind, nrays, nst) for _ in range(rng.randint(1, 5))]
        tasks.append(ops)
    if rng.random() < 0.3:         # the same questions asked by everybody
        tasks = [list(tasks[0]) for _ in tasks]
    return {"kind": kind, "els": g_elements(rng, rng.randint(0, 5) if rng.random() < 0.98 else 14, axicon=rng.random() < 0.5),
            "rays": [g_ray(rng) for _ in range(nrays)], "stored": [g_ray(rng) for _ in range(nst)], "tasks": tasks,
            "precision": rng.choice([0.01, 0.05, 0.002]), "maxHeight": rng.choice([50, 200]),
            "sched": {"seed": rng.getrandbits(32), "gap": rng.choice([2, 8, 25, 80, 250, 1000]), "p_call": 0.5},
            "np": rng.getrandbits(31)}


def make(rt, scn):
    p = Q.make(rt, scn["kind"], build(rt, scn["els"]), "system")
    if scn["kind"] == "path":
        p.precision = scn["precision"]
        p.maxHeight = scn["maxHeight"]
    return p, [ray(rt, r) for r in scn["rays"]], rt.Rays([ray(rt, r) for r in scn["stored"]])


def do(rt, p, rays, stored, kind, o):
    k = o["op"]
    try:
        if k == "trace":
            return Q.norm(p.trace(rays[o["r"]]))
        if k == "through":
            return Q.norm(p.traceThrough(rays[o["r"]]))
        if k == "many":
            return Q.norm(p.traceMany(stored if o["r"] is None else [rays[i] for i in o["r"]]))
        if k == "manythrough":
            return Q.norm(p.traceManyThrough(stored if o["r"] is None else [rays[i] for i in o["r"]],
                                             progress=o["progress"]))
        if k == "beam":
            b = beam(rt, o)
            before = M.beamv(b)
            out = Q.norm(p.trace(b))
            if M.beamv(b) != before:
                return ("beam changed", Q.norm(b))
            return out
        if k == "query":
            return Q.ask(p, rt, kind, o["q"])
        if k == "stored":
            out = []
            for i, r in enumerate(stored):
                if o["stop"] is not None and i > o["stop"]:
                    break
                out.append(Q.norm(r))
                if o["nested"]:
                    out.append(tuple(Q.norm(s) for s in stored))
            return tuple(out)
    except Exception as e:
        e.__traceback__ = None
        return Q.norm(e)
    raise HarnessError(k)


def expected_trace(scn, v, o):
    """what the reference tracer says, as (height, angle, z, blocked) tuples; None: no opinion"""
    k = o["op"]
    rs = [(r["y"], r["t"], r.get("z", 0), bool(r.get("b"))) for r in scn["rays"]]
    st = [(r["y"], r["t"], r.get("z", 0), bool(r.get("b"))) for r in scn["stored"]]
    try:
        if k == "trace":
            return tuple(M.trace(v, rs[o["r"]]))
        if k == "through":
            return M.through(v, rs[o["r"]])
        src = st if o.get("r") is None else [rs[i] for i in o["r"]]
        if k == "many":
            return tuple(tuple(M.trace(v, r)) for r in src)
        if k == "manythrough":
            return tuple(x for x in (M.through(v, r) for r in src) if not x[3])
    except M.Ambiguous:
        return None


def strip(x):
    """norm(Ray) -> (y, theta, z, blocked), recursively"""
    if isinstance(x, tuple):
        if x and x[0] == "Ray":
            return x[1:5]
        if x and x[0] == "Rays":
            return tuple(strip(i) for i in x[1:])
        return tuple(strip(i) for i in x)
    return x


def execute(scn):
    res = Result()
    w = World(scn["np"])
    with w:
        p2 = w.new_proc("ref")
        rt2 = w.load(p2)
        alone, tasks = [], []
        total = 0
        for ops in scn["tasks"]:
            l, keep = [], []
            for o in ops:
                q, rays, stored = make(rt2, scn)
                st = Stepper()
                with st:
                    st.bound(120_000)
                    try:
                        a = do(rt2, q, rays, stored, scn["kind"], o)
                    except StepLimit:          # too long for a run (some searches take very many steps)
                        res.probes["skipped long call"] += 1
                        continue
                total += st.step
                keep.append(o)
                l.append(a)
            alone.append(l)
            tasks.append(keep)
        scn = dict(scn, tasks=tasks)
        rt = w.load(w.new_proc("p"))
        p, rays, stored = make(rt, scn)
        v = M.views(p.elements)
        before = ([M.ray_full(r) for r in rays], [M.ray_full(r) for r in stored.rays], snap_path(p.elements))
        got = [[None] * len(ops) for ops in scn["tasks"]]

        def task(i):
            def f():
                for j, o in enumerate(scn["tasks"][i]):
                    got[i][j] = do(rt, p, rays, stored, scn["kind"], o)
                    w.log("%d.%d %s" % (i, j, hash_of(got[i][j])))
            return f
        s, fail = run_tasks(w, scn, [task(i) for i in range(len(scn["tasks"]))], max_steps=20 * total + 500_000)
        for i, t in enumerate(s.tasks):
            if t.error is not None and fail is None:
                res.bad("thread-died", "thread %d died of %r" % (i, t.error))
        if fail is not None:
            res.bad("never-finishes", "threads do not finish: %s" % fail)
        else:
            for i, ops in enumerate(scn["tasks"]):
                for j, o in enumerate(ops):
                    res.probes[o["op"]] += 1
                    a, g = alone[i][j], got[i][j]
                    e = None
                    if o["op"] in ("trace", "through", "many", "manythrough"):
                        e = expected_trace(scn, v, o)
                        if e is not None and isinstance(g, tuple) and not (g and g[0] == "raised") and not Q.same(strip(g), e):
                            res.bad("wrong-trace", "thread %d, %s: got %s, expected %s" % (i, o, strip(g), e))
                            continue
                    if o["op"] == "beam":
                        e = beam_expected(v, o)
                        if e is not None and e != "raised" and not Q.same(g, e):
                            res.bad("wrong-trace", "thread %d, %s: got %s, expected %s" % (i, o, g, e))
                            continue
                    if not Q.same(a, g):
                        res.bad("not-as-alone-" + o["op"], "thread %d, %s: got %s, alone %s" % (i, o, g, a))
            after = ([M.ray_full(r) for r in rays], [M.ray_full(r) for r in stored.rays], snap_path(p.elements))
            for n, a, b in zip(("rays", "stored rays", "elements"), before, after):
                if a != b:
                    res.bad("changed-" + n.replace(" ", "-"), "%s changed: %s -> %s" % (n, a, b))
            # nothing lingers: asked again, alone, on the shared path
            for i, ops in enumerate(scn["tasks"]):
                if not res.violations and ops:
                    g = do(rt, p, rays, stored, scn["kind"], ops[-1])
                    if not Q.same(alone[i][-1], g):
                        res.bad("lingers", "after the threads finished, %s gives %s, alone %s" % (ops[-1], g, alone[i][-1]))
        if s.nswitch > len(s.tasks) + 1:
            res.nontrivial = True
        for e in w.escapes:
            res.probes["escape " + e] += 1
    res.take(w, s)
    return res


def hash_of(x):
    import hashlib
    return hashlib.blake2b(repr(x).encode(), digest_size=4).hexdigest()


def shrink(scn):
    for c in drop_items(scn, "tasks", "els", "stored"):
        if c["tasks"]:
            yield c
    for i, ops in enumerate(scn["tasks"]):
        for l in without(ops):
            if l:
                yield replace(scn, tasks=scn["tasks"][:i] + [l] + scn["tasks"][i + 1:])
