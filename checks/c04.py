"""C04: traces and path properties depend only on the current elements."""
from .common import *
from . import queries as Q
from .c03 import one
from sim.world import instrument_package

ID = "C04"
RUNS = {"quick": 5000, "thorough": 200000}
RULE = ("seeded runs: one path, group, laser path or cavity and 4-16 operations: traces of reused, equal, blocked and modified "
        "rays and of beams, queries in any order, edits (also refused ones), aperture changes, results modified by the caller, "
        "failing calls, and read-only calls interrupted at a random interpreter instruction; every trace is compared with the "
        "reference tracer and every answer with that of a path freshly built in a fresh copy of the package; non-trivial: at "
        "least one change or interruption came before a compared answer")
REAL = ["raytracing (all modules, fresh copies)", "numpy"]
STUB = ["clock", "file system", "interruption of calls (exception raised at a chosen interpreter instruction)"]
ASSUMPTIONS = ["interruptions happen between interpreter instructions of the package's functions, as signal handlers do"]


def setup():
    instrument_package()


READS = ("trace", "through", "many", "manythrough", "beam", "query", "mul")


def g_op(rng, kind, nrays):
    k = rng.choices(["trace", "through", "many", "manythrough", "beam", "query", "mul", "aperture", "edit", "touch", "bad",
                     "mutate", "iter", "object", "settings"],
                    [7, 3, 1.5, 1.5, 1.5, 8, 0.7, 4, 3, 2, 0.8, 1.5, 0.7, 0.4, 0.4])[0]
    o = {"op": k}
    if k in ("trace", "through", "mul"):
        o["r"] = rng.randrange(nrays)
    elif k in ("many", "manythrough"):
        o["r"] = [rng.randrange(nrays) for _ in range(rng.randint(0, 4))]
    elif k == "beam":
        o.update(g_beam(rng))
    elif k == "query":
        names = list(Q.BY_KIND[kind])
        if kind == "path" and rng.random() < 0.15:
            o["q"] = rng.choice(Q.HEAVY)
        elif kind in ("path", "cavity") and rng.random() < 0.6:
            o["q"] = rng.choice([q for q in names if q not in Q.GROUP and q not in Q.HEAVY])
        else:
            o["q"] = rng.choice([q for q in names if q not in Q.HEAVY])
    elif k == "aperture":
        o["i"] = rng.randrange(8)
        o["sub"] = rng.randrange(4)
        o["D"] = rng.choice([None, 1, 3, 8, 15, 25])
        if rng.random() < 0.15:
            o["na"] = rng.choice([None, 0.05, 0.2])
    elif k == "edit":
        e = rng.choice(["append", "insert", "pop", "set", "flip"])
        o["e"] = e
        o["i"] = rng.choice([0, 1, 2, -1])
        if e in ("append", "insert", "set"):
            while True:
                o["new"] = one(rng)
                if e == "append" or o["new"]["k"] not in ("group", "4f"):
                    break
    elif k == "touch":
        o["r"] = rng.randrange(nrays)
        o["set"] = rng.choice([{"z": 7}, {"b": True}, {"b": False}, {"y": 1.5}, {"t": 0.02}])
    elif k == "bad":
        o["what"] = rng.choice(["string", "none", "beam"])
    elif k == "iter":
        o["stop"] = rng.randint(0, 3)
    elif k == "object":
        o["h"] = rng.choice([1, 5, 20])
    elif k == "settings":
        o["set"] = rng.choice([{"precision": 0.3}, {"precision": 0.05}, {"precision": 0.02}, {"maxHeight": 30}, {"maxHeight": 200}])
    if k in READS and rng.random() < 0.16:
        o["at"] = round(rng.random(), 4)
        o["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
    return o


def generate(rng, tier):
    kind = rng.choice(["path", "path", "path", "group", "laser", "cavity"])
    base = [g_ray(rng) for _ in range(rng.randint(1, 3))]
    rays = list(base)
    for _ in range(rng.randint(0, 4)):        # equal rays that differ by what equality does not look at
        r = dict(rng.choice(base))
        r.update(rng.choice([{"z": 5}, {"z": -3}, {"b": True}, {"wl": 0.5}, {}]))
        rays.append(r)
    ops = [g_op(rng, kind, len(rays)) for _ in range(rng.choice([4, 8, 16]))]
    if rng.random() < 0.5:
        # ask the same things before and after a change
        ask = [g_op(rng, kind, len(rays)) for _ in range(12)]
        ask = [a for a in ask if a["op"] in READS and "at" not in a][:3]
        ops = ask + ops[:6] + ask + ops[6:] + ask
    return {"kind": kind, "els": g_elements(rng, rng.randint(0, 5) if rng.random() < 0.98 else 14, axicon=rng.random() < 0.6), "rays": rays, "ops": ops,
            "precision": rng.choice([0.01, 0.05, 0.05, 0.3]), "maxHeight": rng.choice([50, 200]), "ends": rng.random() < 0.1,
            "np": rng.getrandbits(31)}


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
LIMIT = 150_000        # long calls, skipped most of the time
ENDS = 6_000_000       # nothing takes longer


class Rec:
    """how an element came to be what it is: spec and what was done to it since"""
    def __init__(self, spec, el):
        self.spec, self.el, self.mods = spec, el, []

    def fresh(self, rt):
        e = build_one(rt, self.spec)
        for m in self.mods:
            if m[0] == "flip":
                e.flipOrientation()
            else:
                x = sub(e, m[1])
                if m[0] == "ap":
                    x.apertureDiameter = m[2]
                else:
                    x.apertureNA = m[2]
        if type(e).__name__ == "Space":
            e.frontIndex, e.backIndex = self.el.frontIndex, self.el.backIndex
        return e


def sub(e, path):
    for i in path:
        e = e.elements[i]
    return e


def tune(p, scn, h):
    if scn["kind"] == "path":
        p.precision = scn["precision"]
        p.maxHeight = scn["maxHeight"]
        if h is not None:
            p.objectHeight = h
    return p


def do(rt, p, rays, kind, o, keep=None):
    """the value of a read-only call; rays: the caller's rays"""
    k = o["op"]
    try:
        if k == "trace":
            v = p.trace(rays[o["r"]])
        elif k == "through":
            v = p.traceThrough(rays[o["r"]])
        elif k == "mul":
            v = p * rays[o["r"]]
        elif k == "many":
            v = p.traceMany([rays[i] for i in o["r"]])
        elif k == "manythrough":
            v = p.traceManyThrough([rays[i] for i in o["r"]], progress=False)
        elif k == "beam":
            b = beam(rt, o)
            before = M.beamv(b)
            try:
                v = p.trace(b)
            finally:
                if M.beamv(b) != before:
                    return ("the beam given was changed", Q.norm(b))
        elif k == "query":
            v = Q.BY_KIND[kind][o["q"]](p, rt)
        if keep is not None:
            keep.append(v)
        return Q.norm(v)
    except Exception as e:
        e.__traceback__ = None
        return Q.norm(e)


def execute(scn):
    res = Result()
    w = World(scn["np"])
    kind = scn["kind"]
    with w:
        main = w.new_proc("p")
        rt = w.load(main)
        els = build(rt, scn["els"])
        recs = {id(e): Rec(s, e) for s, e in zip(scn["els"], els)}
        cur = {"kind": kind, "precision": scn["precision"], "maxHeight": scn["maxHeight"]}
        p = tune(Q.make(rt, kind, els, "system"), cur, None)
        if kind == "element":
            return res
        rays = [ray(rt, r) for r in scn["rays"]]
        h = None
        changed = False
        ref = [None]
        kept = []

        def fresh():
            """a path with the same elements in a fresh copy of the package, and the same rays"""
            if ref[0] is None:
                ref[0] = w.new_proc("fresh%d" % len(w.procs))
                rt2 = w.load(ref[0])
            else:
                w.switch(ref[0])
                rt2 = ref[0].rt
            q = tune(Q.make(rt2, kind, [recs[id(e)].fresh(rt2) for e in p.elements], "system"), cur, h)
            rs = []
            for r in rays:
                x = rt2.Ray(r.y, r.theta, r.z, r.isBlocked, r.wavelength)
                x.apertureDiameter = r.apertureDiameter
                rs.append(x)
            return rt2, q, rs

        for no, o in enumerate(scn["ops"]):
            k = o["op"]
            msg = "op %d %s: " % (no, o)
            res.probes[k] += 1
            if k in READS:
                snap = snap_path(p.elements) + [M.view(p).key()]
                rin = [M.ray_full(r) for r in rays]
                try:
                    rt2, q, rs = fresh()
                    if snap_path(q.elements) != snap[:-1]:
                        # an edit left the group inconsistent (C03) or the harness cannot rebuild it
                        raise HarnessError("rebuilt elements differ: %s / %s" % (snap_path(q.elements), snap[:-1]))
                    st = Stepper()
                    with st:
                        st.bound(ENDS if scn.get("ends") else LIMIT)
                        a = do(rt2, q, rs, kind, o)
                except StepLimit:
                    if scn.get("ends"):
                        res.bad("never-returns", msg + "a call on a fresh path takes more than %d instructions" % ENDS)
                        break
                    res.probes["skipped long call"] += 1
                    continue
                finally:
                    w.switch(main)
                if "at" in o:
                    s2 = Stepper()
                    with s2:
                        s2.arm(max(1, int(o["at"] * st.step)), EXC[o["exc"]]())
                        out = call(w, do, rt, p, rays, kind, o, name="interrupted " + k)
                    if s2.fired is not None:
                        w.fired["interrupt_" + o["exc"]] += 1
                        changed = True
                    check_unchanged(res, msg + "(interrupted in %s) " % (s2.fired,), p, rays, snap, rin)
                    if res.violations:
                        break
                keep = []
                s3 = Stepper()
                with s3:
                    s3.bound(10 * st.step + 50_000)
                    out = call(w, do, rt, p, rays, kind, o, keep, name=k)
                if not out.ok:
                    res.bad("never-returns" if out.kind == "hang" else "raised", msg + repr(out))
                    break
                g = out.value
                kept = keep or kept
                w.log(str(hash_of(g)))
                e = expected(o, M.views(p.elements), rin)
                if k == "beam" and e == "raised" and not raised(g):
                    res.bad("wrong-trace", msg + "got %s, but the beam does not match the path" % (g,))
                    break
                if k == "beam" and e is not None and e != "raised" and not Q.same(g, e):
                    res.bad("wrong-trace", msg + "got %s, expected %s" % (g, e))
                    break
                if e is not None and k != "beam" and not raised(g) and not Q.same(strip(g), e):
                    res.bad("wrong-trace", msg + "got %s, expected %s" % (strip(g), e))
                    break
                if not Q.same(a, g):
                    res.bad("depends-on-history", msg + "got %s, a fresh path gives %s" % (g, a))
                    break
                check_unchanged(res, msg, p, rays, snap, rin)
                if res.violations:
                    break
                if changed:
                    res.nontrivial = True
                continue
            if k == "aperture":
                if p.elements:
                    i = o["i"] % len(p.elements)
                    e, path = p.elements[i], []
                    rec = recs[id(e)]
                    while isinstance(getattr(e, "elements", None), list) and e.elements:
                        path.append(o["sub"] % len(e.elements))
                        e = e.elements[path[-1]]
                    if "na" in o:
                        e.apertureNA = inf(o["na"])
                        rec.mods.append(("na", path, inf(o["na"])))
                    else:
                        e.apertureDiameter = inf(o["D"])
                        rec.mods.append(("ap", path, inf(o["D"])))
                    changed = True
                    ref[0] = None
            elif k == "edit":
                new = None
                if "new" in o:
                    new = build_one(rt, o["new"])
                    recs[id(new)] = Rec(o["new"], new)
                old = list(p.elements)
                e = o["e"]
                if e == "append":
                    f = lambda: p.append(new)
                elif e == "insert":
                    f = lambda: p.insert(o["i"], new)
                elif e == "pop":
                    f = lambda: p.pop(o["i"])
                elif e == "set":
                    def f():
                        p[o["i"]] = new
                else:
                    f = p.flipOrientation
                out = call(w, f, name="edit " + e)
                if out.ok and e == "flip":
                    for x in old:
                        recs[id(x)].mods.append(("flip",))
                res.probes["edit " + ("ok" if out.ok else "refused")] += 1
                if any(id(x) not in recs for x in p.elements):
                    res.bad("foreign-elements", msg + "the path holds elements never given to it")
                    break
                changed = True
                ref[0] = None
            elif k == "touch":
                r = rays[o["r"]]
                for a, b in o["set"].items():
                    setattr(r, {"z": "z", "b": "isBlocked", "y": "y", "t": "theta"}[a], b)
                changed = True
            elif k == "bad":
                x = {"string": "x", "none": None, "beam": rt.GaussianBeam(w=1, n=1.7)}[o["what"]]
                out = call(w, p.trace, x, name="bad trace")
                changed = True
            elif k == "mutate":
                # what was returned belongs to the caller
                for v in kept:
                    mine = {id(r) for r in rays}
                    if isinstance(v, list):
                        for x in v:
                            if hasattr(x, "isBlocked") and id(x) not in mine:
                                x.y += 3
                                x.isBlocked = True
                        del v[:]
                    elif hasattr(v, "isBlocked") and id(v) not in mine:
                        v.y, v.theta, v.isBlocked = 55, 1, True
                    changed = True
                kept = []
                # the slices and elements of the path are the path's own: never kept
            elif k == "iter":
                for i, e in enumerate(p):
                    if i >= o["stop"]:
                        break
            elif k == "object" and kind == "path":
                p.objectHeight = h = o["h"]
            elif k == "settings" and kind == "path":
                cur.update(o["set"])
                tune(p, cur, h)
                changed = True
        for e in w.escapes:
            res.probes["escape " + e] += 1
    res.take(w)
    return res


def check_unchanged(res, msg, p, rays, snap, rin):
    rout = [M.ray_full(r) for r in rays]
    if rout != rin:
        res.bad("ray-changed", msg + "the caller's rays changed: %s -> %s" % (rin, rout))
    now = snap_path(p.elements) + [M.view(p).key()]
    if now != snap:
        res.bad("elements-changed", msg + "the elements changed: %s -> %s" % (snap, now))


def raised(g):
    return isinstance(g, tuple) and bool(g) and g[0] == "raised"


def expected(o, v, rin):
    if o["op"] == "beam":
        return beam_expected(v, o)
    rs = [r[:4] for r in rin]
    try:
        if o["op"] == "trace":
            return tuple(M.trace(v, rs[o["r"]]))
        if o["op"] == "through":
            return M.through(v, rs[o["r"]])
        if o["op"] == "many":
            return tuple(tuple(M.trace(v, rs[i])) for i in o["r"])
        if o["op"] == "manythrough":
            return tuple(x for x in (M.through(v, rs[i]) for i in o["r"]) if not x[3])
    except M.Ambiguous:
        pass
    return None


from .c02 import strip, hash_of  # noqa


def shrink(scn):
    for c in drop_items(scn, "ops", "els"):
        yield c
    for i, o in enumerate(scn["ops"]):
        if "at" in o:
            yield replace(scn, ops=scn["ops"][:i] + [{a: b for a, b in o.items() if a not in ("at", "exc")}]
                          + scn["ops"][i + 1:])
    if scn["kind"] not in ("group", "cavity", "path"):
        yield replace(scn, kind="group")
