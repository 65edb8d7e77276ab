"""C10: the package always starts, quickly, whatever its environment."""
from .starts import *

ID = "C10"
RUNS = {"quick": 4500, "thorough": 500000}
RULE = ("seeded runs: 2-7 starts of the package (fresh simulated processes, one after another or 2-3 at the same time under the "
        "seeded scheduler) on one machine: preference file in any state, folders missing or denied, disk full or read-only, "
        "clock at any date with jumps and stalls at its readings, network down, slow, stalling or answering garbage, a fault or "
        "kill at any system call of a start, uses of the package and damage between starts; at the end everything is healed and "
        "two more starts must work and keep a preference; non-trivial: a fault fired or some part of the machine was not healthy")
REAL = ["raytracing (whole package, a fresh copy per start)", "json", "urllib request objects", "packaging.version", "datetime parsing",
        "tempfile", "buffered I/O of Python"]
STUB = ["raw files and directories", "clock", "urlopen transport", "scheduler of processes", "process kills"]
ASSUMPTIONS = ["the interpreter and the installed libraries load", "name resolution obeys the timeout of the request",
               "one stalled system call takes 7 s and is not network waiting"]
LIMIT = 12.0
NAMES = ["Matrix", "Lens", "Space", "Aperture", "MatrixGroup", "ImagingPath", "LaserPath", "LaserCavity", "Ray", "Rays", "GaussianBeam",
         "System4f", "Preferences", "prefs", "beginnerMode", "expertMode", "silentMode", "BeginnerHint", "ExpertNote", "thorlabs", "eo",
         "olympus", "Element", "OpticalPath", "ZMXReader", "checkLatestVersion", "__version__", "Axicon", "RandomUniformRays"]


def g_start(rng):
    s = {"net": [g_net(rng) for _ in range(rng.choice([1, 1, 2]))], "disk": rng.choice(["ok"] * 5 + ["full", "readonly", "unreadable", "eio"])}
    r = rng.random()
    if r < 0.15:
        s["wall"] = rng.choice([0, -1, -2e9, 1e9, 1.7e9, 1.7e9 + 0.25, 4102444800, 2e11, 951782400, 1.7e9 - 86400 * 400])
    elif r < 0.7:
        s["dt"] = rng.choice([0.5, 3600, 86399, 86400, 86400 * 2, 86400 * 3 + 0.5, 86400 * 1000, -3600, -86400 * 30])
    if rng.random() < 0.2:
        s["jumps"] = {str(rng.randint(1, 12)): rng.choice([-86400, 86400, 0.5, -1e9, 4e9, 3600]) for _ in range(rng.choice([1, 2]))}
    if rng.random() < 0.1:
        s["stalls"] = {str(rng.randint(1, 10)): rng.choice([0.5, 3, 20])}
    if rng.random() < 0.15:
        s["env"] = {"RAYTRACING_EXPERT": rng.choice(["1", "", "0"])}
    if rng.random() < 0.5:
        s["fault"] = g_fault(rng)
    if rng.random() < 0.25:
        s["with"] = [{"fault": g_fault(rng)} if rng.random() < 0.5 else {} for _ in range(rng.choice([1, 1, 2]))]
        s["sched"] = {"seed": rng.getrandbits(31), "p_call": rng.choice([0.05, 0.3, 0.8])}
    s["use"] = rng.choice([None, None, "mode", "pref", "reset", "check", "all"])
    if rng.random() < 0.2:
        s["damage"] = g_content(rng)
    return s


def generate(rng, tier):
    first = g_content(rng)
    scn = {"first": first, "home": rng.choice(HOMES), "starts": [g_start(rng) for _ in range(rng.choice([1, 2, 3, 5]))],
           "buf": rng.choice([1, 16, 8192, 8192]), "read_cap": rng.choice([None, None, None, 1, 9]),
           "per_read": rng.choice([0, 0, 0.001, 0.05])}
    if "deep" in json.dumps(scn) or "bigint" in json.dumps(scn) or "keys" in json.dumps(scn):
        scn["buf"], scn["read_cap"] = 8192, None
    return scn


def execute(scn):
    res = Result()
    w = World(3)
    home = scn["home"]
    state = {"s": None, "nsw": 0}

    class Bad(Exception):
        pass

    def bad(cls, msg):
        res.bad(cls, msg)
        raise Bad()

    def start(p, fault, msg, stalls=0):
        """one start in process p; returns the package, or None if it was killed"""
        out = call(w, imp, name="start", fault=fault, limit=LIMIT + stalls)
        if out.kind == "crash":
            p.dead = True
            return None
        if out.kind == "hang":
            bad("slow-start", msg + "does not end within %g s: %r" % (LIMIT + stalls, out))
        if not out.ok:
            bad("start-failed", msg + "failed: %r" % out)
        rt = out.value
        missing = [n for n in NAMES if not hasattr(rt, n)]
        if missing:
            bad("incomplete", msg + "names missing: %s" % missing)
        return rt

    def usable(rt, msg, full=False):
        def f():
            r = rt.Ray(y=1.0, theta=0.1)
            g = rt.ImagingPath()
            g.append(rt.Space(d=10))
            g.append(rt.Lens(f=5, diameter=20))
            g.append(rt.Space(d=10))
            t = g.traceThrough(r)
            m = g.transferMatrix()
            a = rt.thorlabs.AC254_050_A() if full else None
            return (t.y, t.theta, m.A, m.B, m.C, m.D, a is None or a.C < 0)
        out = call(w, f, name="use")
        if not out.ok:
            bad("unusable", msg + "a computation failed: %r" % out)
        exp = (-1.0, -0.3, -1.0, 0.0, -0.2, -1.0, True)
        if any(abs(a - b) > 1e-9 for a, b in zip(out.value, exp)):
            bad("unusable", msg + "a computation gives %r, not %r" % (out.value, exp))

    def use(rt, kind, msg, disk_ok, stalls=0):
        """whatever the user does then may fail because of the disk, not otherwise"""
        res.probes["use %s" % kind] += 1

        def modes():
            for m in ("expertMode", "silentMode", "beginnerMode"):
                getattr(rt, m)()
        if kind in ("mode", "all"):
            out = call(w, modes, name="modes")
            if not out.ok:
                bad("unusable", msg + "choosing a mode failed: %r" % out)

        def pref():
            rt.prefs["user"] = 5
            if rt.prefs["user"] != 5:
                raise AssertionError("a preference set to 5 is %r" % rt.prefs["user"])
            rt.expertMode(saveToPrefs=True)
        if kind in ("pref", "all"):
            out = call(w, pref, name="pref")
            if not out.ok and disk_ok:
                bad("unusable", msg + "assigning a preference failed: %r" % out)
        if kind == "reset":
            out = call(w, lambda: rt.prefs.resetPreferences(), name="reset")
            if not out.ok and disk_ok:
                bad("unusable", msg + "resetting the preferences failed: %r" % out)
        if kind == "check":
            out = call(w, lambda: rt.checkLatestVersion(currentVersion="1.0"), name="check", limit=LIMIT + stalls)
            if out.kind != "ok" or out.value not in (True, False):
                bad("check-failed", msg + "checking the version: %r" % out)

    def one(a, p, fault, i, lead, disk_ok):
        msg = "start %d%s: " % (i, lead)
        w.switch(p)
        stalls = sum((a.get("stalls") or {}).values())
        rt = start(p, fault, msg, stalls)
        if rt is None:
            return
        usable(rt, msg)
        if a.get("use"):
            use(rt, a["use"], msg, disk_ok and not fault, stalls)

    with w:
        w.buffer_size, w.read_cap = scn["buf"], scn["read_cap"]
        w.clock.per_read = scn["per_read"]
        machine(w, home)
        b = content(scn["first"])
        if b is not None and home not in ("prefs-dir", "config-file", "noconfig", "darwin-nolib"):
            w.fs.put(where(home), b)
        fine = home in ("ok", "noconfig", "nohome", "darwin", "windows", "other")
        try:
            for i, a in enumerate(scn["starts"]):
                res.probes["start"] += 1
                if "wall" in a:
                    w.clock.wall = a["wall"]
                w.clock.wall += a.get("dt", 0)
                w.clock.jumps = {w.clock.reads + int(k): v for k, v in (a.get("jumps") or {}).items()}
                w.clock.stalls = {w.clock.reads + int(k): v for k, v in (a.get("stalls") or {}).items()}
                w.net.answers, w.net.i = a["net"], 0
                disk(w, home, a["disk"])
                if "damage" in a and home not in ("prefs-dir", "config-file"):
                    b = content(a["damage"])
                    if b is None:
                        w.fs.drop(where(home))
                    elif where(home).rsplit("/", 1)[0] in w.fs.nodes:
                        w.fs.put(where(home), b)
                    w.fired["damage"] += 1
                ok = fine and a["disk"] == "ok" and "with" not in a
                if not a.get("with"):
                    one(a, w.new_proc("p%d" % i, env_of(home, a.get("env"))), a.get("fault"), i, "", ok)
                else:
                    s = sched_of(a, w, on_switch=lambda prev, nxt: w.switch(nxt.proc) if nxt.proc is not None else None)
                    for j, b in enumerate([a] + a["with"]):
                        p = w.new_proc("p%d.%d" % (i, j), env_of(home, a.get("env")))
                        s.spawn(lambda p=p, b=b, j=j: one(a, p, b.get("fault"), i, " (%d of several)" % j, False), "start%d" % j, p)
                    state["s"] = s
                    try:
                        s.run()
                    except (Deadlock, StepLimit) as e:
                        bad("stuck", "start %d with others: %s" % (i, e))
                    state["nsw"] += s.nswitch
                    for t in s.tasks:
                        if t.error is not None:
                            raise t.error
                    w.switch(None)
            # everything works again
            heal(w, home)
            w.clock.jumps, w.clock.stalls = {}, {}
            w.net.answers, w.net.i = [{"kind": "ok", "body": releases(["1.0"])}], 0
            p = w.new_proc("healed", env_of(home, None))
            w.switch(p)
            rt = start(p, None, "the start after all healed ")
            usable(rt, "after all healed ", True)
            use(rt, "all", "after all healed ", True)
            p = w.new_proc("last", env_of(home, None))
            w.switch(p)
            rt = start(p, None, "the last start ")
            out = call(w, lambda: rt.prefs["user"], name="get")
            if not out.ok or out.value != 5:
                bad("unusable", "the last start does not find the preference of the start before: %r %r" % (out, out.value))
        except Bad:
            pass
        for e in w.escapes:
            res.bad("escape", "reached outside the simulation: %s" % e)
    res.nontrivial = bool(w.fired) or home != "ok"
    res.take(w, state["s"])
    return res


def shrink(scn):
    st = scn["starts"]
    for l in without(st):
        yield replace(scn, starts=l)
    for i, a in enumerate(st):
        for k in ("with", "fault", "use", "damage", "jumps", "stalls", "env", "wall", "dt"):
            if a.get(k):
                b = {x: y for x, y in a.items() if x != k}
                yield replace(scn, starts=st[:i] + [b] + st[i + 1:])
        if a["disk"] != "ok":
            yield replace(scn, starts=st[:i] + [dict(a, disk="ok")] + st[i + 1:])
        if len(a["net"]) > 1 or a["net"][0]["kind"] != "unreachable":
            yield replace(scn, starts=st[:i] + [dict(a, net=[{"kind": "unreachable"}])] + st[i + 1:])
    if scn["home"] != "ok":
        yield replace(scn, home="ok")
    if scn["read_cap"]:
        yield replace(scn, read_cap=None)
    if scn["buf"] != 8192:
        yield replace(scn, buf=8192)
    if scn["first"] is not None:
        yield replace(scn, first=None)
    if scn["per_read"]:
        yield replace(scn, per_read=0)
