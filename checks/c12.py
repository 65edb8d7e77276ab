"""C12: the chosen verbosity mode is in force, now and in later sessions."""
import warnings
from .starts import *

ID = "C12"
RUNS = {"quick": 4000, "thorough": 400000}
RULE = ("seeded runs: 1-3 live sessions (simulated processes) on one machine, one after another and interleaved operation by "
        "operation: choosing modes with and without saving, storing or resetting preferences, provoking beginner hints and expert "
        "notes of the package and of the user, restarting with and without the expert setting; kills and disk errors at any system call of a start "
        "or choice, full, read-only or unreadable disk, the file replaced by another, damaged or removed; a model of the stored "
        "mode and of the mode in force in each session says which hints must come out; non-trivial: a hint was judged after a "
        "mode was chosen or restored, or a fault fired")
REAL = ["raytracing (whole package, a fresh copy per session)", "warnings filters of Python", "json"]
STUB = ["raw files and directories", "display of warnings (recorded)", "clock", "urlopen transport", "process kills"]
ASSUMPTIONS = ["nothing but the package changes the warning filters", "one session runs at a time (operations interleave)"]
M3 = ["beginner", "expert", "silent"]


def g_op(rng):
    k = rng.choices(["mode", "hint", "note", "user", "restart", "store", "reset", "disk", "damage", "other", "rays", "list"],
                    [5, 4, 2, 1, 3, 0.7, 0.4, 0.8, 1.5, 1, 0.5, 0.4])[0]
    o = {"op": k, "s": rng.choice([0, 0, 0, 1, 2])}
    if k == "mode":
        o["m"] = rng.choice(M3)
        o["save"] = rng.choice([None, False, True, True])
    if k == "restart":
        o["env"] = rng.choice([None, None, None, None, "1", ""])
    if k == "store":
        o["m"] = rng.choice(M3 + ["zzz", None, 3, [], {}, "Expert"])
    if k == "damage":
        o["c"] = g_content(rng) if rng.random() < 0.5 else {"d": {"mode": rng.choice(M3)}}
    if k == "disk":
        o["k"] = rng.choice(["ok", "ok", "full", "readonly", "unreadable", "eio"])
    if k == "user":
        o["c"] = rng.choice(["BeginnerHint", "ExpertNote", "BeginnerHint"])
    if k in ("mode", "restart", "store", "reset", "other", "list") and rng.random() < 0.35:
        o["fault"] = g_fault(rng)
    return o


def generate(rng, tier):
    n = rng.choice([3, 6, 10, 16])
    return {"first": g_content(rng, 0.2), "home": rng.choice(["ok"] * 6 + ["noconfig", "darwin", "nohome"]),
            "ops": [g_op(rng) for _ in range(n)], "buf": rng.choice([1, 8192, 8192]), "env": rng.choice([None] * 5 + ["1"])}


def stored_of(c, default=None):
    """the usable mode in some contents"""
    b = content(c)
    if b is None:
        return None
    try:
        d = json.loads(b.decode())
        m = d["mode"] if isinstance(d, dict) else None
    except (ValueError, KeyError, RecursionError):
        return None
    return m if isinstance(m, str) and m in M3 else None


def execute(scn):
    res = Result()
    w = World(3)
    home = scn["home"]
    path = where(home)
    stored = {None}              # possible usable stored modes
    live = {}
    n = [0]
    judged = [0]
    diskstate = ["ok"]
    cwd = "/simfs/cwd/" + NAME
    aside = set()                # modes kept in the session's own folder by sessions whose preferences folder failed (finding of C09)

    class Bad(Exception):
        pass

    def bad(cls, msg):
        res.bad(cls, msg)
        raise Bad()

    class S:
        pass

    def start(i, env, fault, msg):
        p = w.new_proc("s%d.%d" % (i, len(w.procs)), env_of(home, {"RAYTRACING_EXPERT": env} if env is not None else None))
        w.switch(p)
        f0 = sum(w.fired.values())
        out = call(w, imp, name="start", fault=fault, limit=60)
        hit = fault is not None and sum(w.fired.values()) > f0
        if out.kind == "crash":
            p.dead = True
            live.pop(i, None)
            return
        if not out.ok:
            bad("start-failed", msg + "the start failed: %r" % out)
        s = live[i] = S()
        s.p, s.rt = p, out.value
        if env is not None:
            s.modes = {"expert"}
        else:
            s.modes = {m or "beginner" for m in stored}
            if hit or diskstate[0] in ("unreadable", "eio"):
                s.modes = s.modes | {"beginner"} | aside
        s.aside = hit and cwd != path and cwd in w.paths
        s.how = "started %s with stored %s" % ("as expert" if env is not None else "", sorted(map(str, stored)))

    def shown(s, f):
        k = len(s.p.shown)
        out = call(w, f, name="hint")
        if not out.ok:
            bad("failed", "a computation that gives a hint failed: %r" % out)
        return s.p.shown[k:]

    def hint(s, text=None):
        def real_hint():
            g = s.rt.ImagingPath()
            g.append(s.rt.Space(d=10))
            g.append(s.rt.Lens(f=5))
            g.append(s.rt.Space(d=10))
            g.imageSize()

        def own():
            warnings.warn(text, s.rt.BeginnerHint)
        return [x for x in shown(s, own if text else real_hint) if x[0] == "BeginnerHint"]

    def note(s, text=None):
        n[0] += 1

        def real_note():
            # a doublet whose focal length is not what it should be (another one each time)
            s.rt.AchromatDoubletLens(fa=55.0 + n[0], fb=46.4, R1=33.3, R2=-22.28, R3=-291.07, tc1=9, tc2=2.5, te=8.7, n1=1.5, n2=1.7,
                                     diameter=25.4, label="doublet%d" % n[0])

        def own():
            warnings.warn("%s %d" % (text, n[0]), s.rt.ExpertNote)
        return [x for x in shown(s, own if text else real_note) if x[0] == "ExpertNote"]

    def judge(s, msg, what, own=None):
        judged[0] += 1
        got = hint(s, own) if what == "hint" else note(s, own)
        ok = False
        for m in s.modes:
            if what == "hint":
                ok |= bool(got) == (m == "beginner")
            else:
                ok |= m == "beginner" or bool(got) == (m == "expert")
        if not ok:
            bad("wrong-mode", msg + "%s %s in %s mode (%s)" % (
                "a beginner hint" if what == "hint" else "an expert note", "shown" if got else "not shown", "/".join(sorted(s.modes)), s.how))
        # what came out tells the mode
        if what == "hint":
            s.modes = {m for m in s.modes if bool(got) == (m == "beginner")}
        elif len(s.modes) > 1:
            s.modes = {m for m in s.modes if m == "beginner" or bool(got) == (m == "expert")}

    def step(no, o):
        k, i = o["op"], o["s"]
        msg = "op %d %s: " % (no, {a: b for a, b in o.items()})
        res.probes[k] += 1
        fault = o.get("fault")
        if k == "disk":
            diskstate[0] = o["k"]
            disk(w, home, o["k"])
            return
        if k == "damage":
            b = content(o["c"])
            w.fired["damage"] += 1
            if b is None:
                w.fs.drop(path)
            elif path.rsplit("/", 1)[0] in w.fs.nodes:
                w.fs.put(path, b)
            else:
                return
            stored.clear()
            stored.add(stored_of(o["c"]))
            return
        if k == "restart" or i not in live:
            if i in live:
                live[i].p.dead = True
            start(i, o.get("env"), fault if k == "restart" else None, msg)
            if i not in live:
                return
            if k == "restart":
                return
        s = live[i]
        w.switch(s.p)
        if k == "hint":
            return judge(s, msg, "hint")
        if k == "note":
            return judge(s, msg, "note")
        if k == "user":
            return judge(s, msg, "hint" if o["c"] == "BeginnerHint" else "note", "mine")
        if k == "rays":
            shown(s, lambda: s.rt.Lens(f=5).traceManyThrough([s.rt.Ray(1, 0)], progress=False))
            return
        f0 = sum(w.fired.values())
        if k == "list":
            out = call(w, lambda: dict(s.rt.prefs.items()), fault=fault, name=k)
        elif k == "other":
            def f():
                s.rt.Preferences()["other"] = no
            out = call(w, f, fault=fault, name=k)
        elif k == "store":
            def f():
                s.rt.Preferences()["mode"] = o["m"]
            out = call(w, f, fault=fault, name=k)
        elif k == "reset":
            out = call(w, lambda: s.rt.Preferences().resetPreferences(), fault=fault, name=k)
        else:
            g = getattr(s.rt, o["m"] + "Mode")
            out = call(w, (lambda: g()) if o["save"] is None else (lambda: g(saveToPrefs=o["save"])), fault=fault, name=k)
        hit = fault is not None and sum(w.fired.values()) > f0
        if out.kind == "hang":
            bad("hang", msg + repr(out))
        clean = not hit and diskstate[0] == "ok"
        if clean and not out.ok:
            bad("failed", msg + repr(out))
        new = {"store": o.get("m") if isinstance(o.get("m"), str) and o.get("m") in M3 else None, "mode": o.get("m")}.get(k)
        if k in ("store", "reset") or k == "mode" and o["save"]:
            s.aside |= hit and cwd != path and cwd in w.paths
            if s.aside:
                aside.add(new or "beginner")
            elif out.ok:
                stored.clear()
            stored.add(new)
        if k == "mode":
            if not out.ok and o["save"] is not True and out.kind != "crash" and clean:
                bad("failed", msg + repr(out))
            s.modes = {o["m"]} if out.ok else s.modes | {o["m"]}
            s.how = "chosen by op %d" % no
        if out.kind == "crash":
            s.p.dead = True
            live.pop(i, None)

    def probe(no, i, env=None):
        start(i, env, None, "start %d at the end: " % no)
        judge(live[i], "start %d at the end: " % no, "hint")
        judge(live[i], "start %d at the end: " % no, "note")
        judge(live[i], "start %d at the end: " % no, "hint")

    with w:
        w.buffer_size = scn["buf"]
        if "deep" in json.dumps(scn) or "bigint" in json.dumps(scn) or "keys" in json.dumps(scn):
            w.buffer_size = 8192
        w.net.answers = [{"kind": "unreachable"}]
        machine(w, home)
        b = content(scn["first"])
        if b is not None and home not in ("noconfig",):
            w.fs.put(path, b)
            stored = {stored_of(scn["first"])}
        try:
            start(0, scn["env"], None, "first start: ")
            for no, o in enumerate(scn["ops"]):
                step(no, o)
            for i, s in sorted(live.items()):
                w.switch(s.p)
                judge(s, "at the end: ", "hint")
                judge(s, "at the end: ", "note")
            disk(w, home, "ok")
            diskstate[0] = "ok"
            w.clock.wall += 1e6
            w.fs.full = w.fs.readonly = False
            probe(1, 11)
            probe(2, 12, "1")
            probe(3, 13)
            if live[13].modes != live[11].modes:
                bad("wrong-mode", "two starts in a row are in mode %s and %s" % (live[11].modes, live[13].modes))
        except Bad:
            pass
        for e in w.escapes:
            res.bad("escape", "reached outside the simulation: %s" % e)
    res.nontrivial = judged[0] > 0 and (bool(w.fired) or any(o["op"] in ("mode", "restart") for o in scn["ops"]))
    res.take(w)
    return res


def shrink(scn):
    for l in without(scn["ops"]):
        yield replace(scn, ops=l)
    for i, o in enumerate(scn["ops"]):
        if "fault" in o:
            yield replace(scn, ops=scn["ops"][:i] + [{a: b for a, b in o.items() if a != "fault"}] + scn["ops"][i + 1:])
        if o["s"]:
            yield replace(scn, ops=scn["ops"][:i] + [dict(o, s=0)] + scn["ops"][i + 1:])
    if scn["home"] != "ok":
        yield replace(scn, home="ok")
    if scn["buf"] != 8192:
        yield replace(scn, buf=8192)
    if scn["first"] is not None:
        yield replace(scn, first=None)
    if scn["env"] is not None:
        yield replace(scn, env=None)
