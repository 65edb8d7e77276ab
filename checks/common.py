"""Shared by the checks: scenario pieces, building real elements from them, calling the code under test."""
import sys
from sim import real
from sim.sched import CUR, SimAbort, SimCrash, Deadlock, StepLimit, Scheduler, Policy, Stepper
from sim.world import World, SimHang, SimEscape
from sim.driver import Result, HarnessError, without, drop_items
from model import optics as M

INF = float("inf")


class Out:
    """outcome of a call: kind ok / exc / crash / hang"""
    __slots__ = ("kind", "value", "err")

    def __init__(self, kind, value=None, err=None):
        self.kind, self.value, self.err = kind, value, err

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        if self.kind == "ok":
            return "returned"
        return "%s %s%s" % (self.kind, type(self.err).__name__ if self.err is not None else "",
                            ": %s" % str(self.err)[:200] if self.err is not None else "")


def call(w, fn, *a, fault=None, limit=None, name="", **k):
    w.begin_op(fault, limit)
    try:
        o = Out("ok", fn(*a, **k))
    except SimAbort:
        raise
    except SimEscape:
        raise
    except SimCrash as e:
        o = Out("crash", err=e)
    except SimHang as e:
        o = Out("hang", err=e)
    except StepLimit as e:
        o = Out("hang", err=e)
    except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
        e.__traceback__ = None
        o = Out("exc", err=e)
    finally:
        w.end_op()
    w.log("%s -> %s%s" % (name, o.kind, " " + type(o.err).__name__ if o.err is not None else ""))
    return o


def num(x):
    return None if x is None else float(x)


def inf(x):
    """JSON has no infinity: None stands for it"""
    return INF if x is None else x


# ---------------------------------------------------------------- element specs
def g_element(rng, depth=0, n=1.0, mild=True):
    """a random element spec starting in index n; returns (spec, index after)"""
    D = None if rng.random() < 0.45 else round(rng.choice([2, 5, 10, 20, 25.4, 50]) * rng.choice([1, 1, 0.5]), 3)
    r = rng.random()
    if n != 1.0:
        if r < 0.5:
            return {"k": "space", "d": round(rng.uniform(1, 30), 2), "n": n, "D": D}, n
        m = rng.choice([1.0, 1.0, 1.0, 1.5])
        return {"k": "iface", "n1": n, "n2": m, "R": rng.choice([None, 20, -30, 50]), "D": D}, m
    if r < 0.36:
        return {"k": "space", "d": round(rng.uniform(0, 40), 2) if rng.random() < 0.95 else 0, "n": n, "D": D}, n
    if r < 0.60:
        return {"k": "lens", "f": rng.choice([5, 10, 20, 50, 100, -15, -40]), "D": D}, n
    if r < 0.72:
        s = {"k": "aper", "D": round(rng.uniform(1, 20), 2)}
        if rng.random() < 0.2:
            s["NA"] = round(rng.uniform(0.02, 0.5), 3)
        return s, n
    if r < 0.79:
        m = rng.choice([1.33, 1.5, 1.7])
        return {"k": "iface", "n1": n, "n2": m, "R": rng.choice([None, 20, -30, 50]), "D": D}, m
    if r < 0.85:
        return {"k": "thick", "n": 1.5, "R1": rng.choice([20, 50, -40]), "R2": rng.choice([-20, -60, 35]),
                "t": round(rng.uniform(0.5, 6), 2), "D": D}, n
    if r < 0.88:
        return {"k": "slab", "n": 1.5, "t": round(rng.uniform(0.5, 6), 2), "D": D}, n
    if r < 0.91:
        return {"k": "mirror", "R": rng.choice([-30, 40, -100]), "D": D}, n
    if r < 0.94:
        return {"k": "axicon", "alpha": rng.choice([0.01, 0.05]), "n": 1.5, "D": D}, n
    if r < 0.97 or depth > 1:
        return {"k": "matrix", "A": 1, "B": 0, "C": rng.choice([0, -0.05, 0.02]), "D_": 1, "L": rng.choice([0, 0, 3]),
                "D": D}, n
    return {"k": "group", "els": g_elements(rng, rng.randint(1, 3), depth + 1)}, n


def g_elements(rng, count, depth=0, axicon=True):
    out = []
    n = 1.0
    while len(out) < count:
        s, m = g_element(rng, depth, n)
        if not axicon and s["k"] == "axicon":
            continue
        out.append(s)
        n = m
    if n != 1.0:
        out.append({"k": "iface", "n1": n, "n2": 1.0, "R": rng.choice([None, 20, -30]), "D": None})
    return out


def build_one(rt, s):
    k = s["k"]
    D = inf(s.get("D"))
    lab = s.get("label", "")
    if k == "space":
        return rt.Space(d=s["d"], n=s.get("n", 1), diameter=D, label=lab)
    if k == "lens":
        return rt.Lens(f=s["f"], diameter=D, label=lab)
    if k == "aper":
        return rt.Aperture(diameter=D, NA=inf(s.get("NA")), label=lab)
    if k == "iface":
        return rt.DielectricInterface(n1=s["n1"], n2=s["n2"], R=inf(s.get("R")), diameter=D, label=lab)
    if k == "thick":
        return rt.ThickLens(n=s["n"], R1=s["R1"], R2=s["R2"], thickness=s["t"], diameter=D, label=lab)
    if k == "slab":
        return rt.DielectricSlab(n=s["n"], thickness=s["t"], diameter=D, label=lab)
    if k == "mirror":
        return rt.CurvedMirror(R=s["R"], diameter=D, label=lab)
    if k == "axicon":
        return rt.Axicon(alpha=s["alpha"], n=s["n"], diameter=D, label=lab)
    if k == "matrix":
        return rt.Matrix(A=s["A"], B=s["B"], C=s["C"], D=s["D_"], physicalLength=s.get("L", 0), apertureDiameter=D,
                         label=lab)
    if k == "group":
        return rt.MatrixGroup([build_one(rt, e) for e in s["els"]], label=lab)
    if k == "4f":
        return rt.System4f(f1=s["f1"], f2=s["f2"], diameter1=D, diameter2=D, label=lab)
    raise HarnessError("spec %s" % k)


def build(rt, specs):
    return [build_one(rt, s) for s in specs]


def g_ray(rng, big=False):
    y = rng.choice([0, 0.5, 1, 2, -1, -3, round(rng.uniform(-12, 12), 2)])
    t = rng.choice([0, 0.01, 0.1, -0.05, round(rng.uniform(-0.3, 0.3), 3)])
    r = {"y": y, "t": t}
    if rng.random() < 0.15:
        r["z"] = rng.choice([5, -10, 100])
    if rng.random() < 0.05:
        r["b"] = True
    if rng.random() < 0.1:
        r["wl"] = rng.choice([0.5, 0.8])
    return r


def ray(rt, s):
    return rt.Ray(y=s["y"], theta=s["t"], z=s.get("z", 0), isBlocked=bool(s.get("b", False)), wavelength=s.get("wl"))


def rays_of(obj):
    """the rays a result holds, as values (via its list, not its iterator)"""
    return [M.rayv(r) for r in obj]


def sched_of(scn, w, max_steps=3_000_000, on_switch=None):
    sc = scn.get("sched") or {}
    if "switches" in sc:
        pol = Policy(switches=sc["switches"])
    else:
        pol = Policy(rng=real.Random(sc.get("seed", 0)), gap=sc.get("gap", 200.0), p_call=sc.get("p_call", 0.5))
    return Scheduler(pol, w.clock, max_steps=max_steps, on_switch=on_switch)


def run_tasks(w, scn, fns, max_steps=3_000_000):
    """run the functions as tasks; returns (scheduler, failure)"""
    s = sched_of(scn, w, max_steps)
    for i, f in enumerate(fns):
        s.spawn(f, "t%d" % i, w.proc)
    fail = None
    try:
        s.run()
    except (Deadlock, StepLimit) as e:
        fail = e
    return s, fail


def snap_path(elements):
    """everything observable of the elements, for before/after comparison"""
    return [M.view(e).key() for e in elements]


def replace(scn, **k):
    c = dict(scn)
    c.update(k)
    return c


def cut_at(at, f):
    """the interpreter step at which a call of f is stopped, for a number between 0 and 1: either a step of the same
    order as a short call, or a fraction of the steps that a first call takes (which may fill caches). None: too long"""
    if at > 0.4:
        return int(10 ** ((at - 0.4) / 0.6 * 3.3))
    s = Stepper()
    with s:
        s.bound(400_000)
        try:
            f()
        except StepLimit:
            return None
        except Exception:
            pass
    return max(1, int(at / 0.4 * s.step))


def g_beam(rng):
    """a beam: size, distance from the waist, and sometimes radius of curvature, medium, wavelength, already clipped"""
    b = {"w": rng.choice([0.5, 1, 3, 0.05, 0.7, 2]), "z": rng.choice([0, 0, 4, -3, 12.5])}
    if rng.random() < 0.3:
        b["R"] = rng.choice([20, -50, 7])
    if rng.random() < 0.15:
        b["n"] = rng.choice([1.33, 1.5])
    if rng.random() < 0.3:
        b["wl"] = rng.choice([1.064e-3, 4e-4, 0.02])
    if rng.random() < 0.2:
        b["clip"] = True
    return b


def beam(rt, o):
    b = rt.GaussianBeam(w=o["w"], z=o["z"], R=o.get("R", float("inf")), n=o.get("n", 1.0), wavelength=o.get("wl", 632.8e-6))
    if o.get("clip"):
        b.isClipped = True
    return b


def beam_expected(views, o):
    """what tracing this beam gives, as plain values ("raised": refused); None: no opinion"""
    import math
    wl, n = o.get("wl", 632.8e-6), o.get("n", 1.0)
    q = 1 / (1.0 / o.get("R", float("inf")) - 1j * wl / n / (math.pi * o["w"] * o["w"]))
    try:
        l = M.beam_trace(views, (q, o["z"], n, wl, bool(o.get("clip"))))
    except M.Refused:
        return "raised"
    except M.Ambiguous:
        return None
    return tuple(("Beam", ("complex", b[0].real, b[0].imag), float(b[1]), float(b[2]), float(b[3]), b[4]) for b in l)
