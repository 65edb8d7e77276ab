"""C11: update checks are rationed and truthful."""
import datetime
from packaging.version import Version
from .starts import *

ID = "C11"
RUNS = {"quick": 3500, "thorough": 500000}
RULE = ("seeded runs: 2-9 starts of the package (one after another, sometimes two at the same time under the seeded scheduler) at "
        "clock readings minutes to years apart, with jumps in both directions between and inside starts; the index answers with "
        "lists of versions in any order, garbage, errors, stalls or not at all; kills and disk errors at any system call, disks "
        "full or unreadable for a while, records removed, replaced or made unusable, preferences reset; a model of the possible "
        "times of the last recorded check says whether a start must, may or must not ask, and what it must announce; "
        "non-trivial: at least two starts of which one asked the index or had a fault")
REAL = ["raytracing (whole package, a fresh copy per start)", "json", "packaging.version", "datetime parsing", "urllib request objects"]
STUB = ["raw files and directories", "clock", "urlopen transport", "scheduler of processes", "process kills"]
ASSUMPTIONS = ["a recorded time in the future, or between one and two days old, leaves it open whether a start asks",
               "only final releases with valid numbers are listed when the announcement is judged",
               "local time is UTC"]
DAY = 86400.0
POOL = ["0.9", "1.0", "1.2.9", "1.3.1", "1.3.2", "1.3.9", "1.3.11", "1.3.12", "1.3.13", "1.3.100", "1.4.0", "1.4.0.1", "1.10.0", "1.9.9", "2.0",
        "2.0.1", "10.0", "1.3.12.post1", "1.03.14", "2.0rc1", "1.4.0b2", "1.3.13.dev1", "2024.5"]
RUNNING = ["1.0", "1.2.0", "1.3.9", "1.3.12", "1.3.13", "1.9.9", "1.10.0", "2.0.1", "10.0", "99.0"]


def g_versions(rng):
    r = rng.random()
    if r < 0.15:
        vs = ["1.3.12"]
    elif r < 0.4:
        vs = [v for v in POOL if Version(v) <= Version("1.3.12")]
        vs = rng.sample(vs, rng.randint(1, len(vs)))
    else:
        vs = rng.sample(POOL, rng.randint(1, 8))
    if rng.random() < 0.4:
        vs.sort(key=Version, reverse=rng.random() < 0.5)
    return vs


def g_start(rng):
    vs = g_versions(rng)
    a = {"vs": vs}
    if rng.random() < 0.55:
        a["net"] = {"kind": "ok", "body": releases(vs), "chunk": rng.choice([None, 10, 500])}
    else:
        a["net"] = g_net(rng, vs)
    a["dt"] = rng.choice([1, 60, 3600, 6 * 3600, 20 * 3600, 23.9 * 3600, 25 * 3600, 36 * 3600, 47 * 3600, 2 * DAY, 2.01 * DAY, 3 * DAY, 10 * DAY, 400 * DAY,
                          -3600, -DAY, -3 * DAY, -40 * DAY])
    r = rng.random()
    if r < 0.25:
        a["fault"] = g_fault(rng)
    elif r < 0.35:
        a["disk"] = rng.choice(["full", "readonly", "unreadable", "eio"])
    if rng.random() < 0.1:
        a["jumps"] = {str(rng.randint(1, 8)): rng.choice([-3 * DAY, 3 * DAY, -3600, 3600])}
    r = rng.random()
    if r < 0.2:
        a["rec"] = {"age": rng.choice([0, 60, 3600, 20 * 3600, 23.99 * 3600, 30 * 3600, 2 * DAY, 2.5 * DAY, 100 * DAY, -60, -5 * DAY]),
                    "fmt": rng.choice(["us", "s"])}
    elif r < 0.27:
        a["rec"] = {"bad": rng.choice([None, "", "junk", 12, [], {}, True, "2023-13-45", "22:00"])}
    elif r < 0.34:
        a["rec"] = {"raw": rng.choice(["", "{", "[]", "null", "@junk", "{\"a\": 1}"])}
    if rng.random() < 0.12:
        a["with"] = [{"fault": g_fault(rng)} if rng.random() < 0.3 else {}]
        a["sched"] = {"seed": rng.getrandbits(31), "p_call": rng.choice([0.1, 0.4, 0.8])}
    a["use"] = [rng.choice(["mode", "pref", "reset", "check", "check", "prefs"]) for _ in range(rng.choice([0, 0, 1, 2]))]
    a["running"] = rng.choice(RUNNING)
    if rng.random() < 0.12:
        a["env"] = rng.choice(["1", "", "0"])
    return a


def generate(rng, tier):
    return {"starts": [g_start(rng) for _ in range(rng.choice([1, 2, 4, 7]))], "buf": rng.choice([1, 8192, 8192]),
            "read_cap": rng.choice([None, None, 5]), "per_read": rng.choice([0, 0, 0.01]), "whole": rng.random() < 0.2}


def said(text, vs, running):
    """versions of the list newer than running that the text names, and whether it invites to upgrade"""
    words = set(re.findall(r"\d+(?:\.\w+)+", text))
    words = {x.rstrip(".") for x in words}
    new = set()
    for v in vs:
        if Version(v) > Version(running) and (v in words or str(Version(v)) in words):
            new.add(str(Version(v)))
    return new, "--upgrade" in text or "vailable on" in text


def execute(scn):
    res = Result()
    w = World(3)
    path = where("ok")
    cands = [None]               # possible times of the last recorded check: None or (lo, hi)
    info = {"s": None, "asked": 0}

    class Bad(Exception):
        pass

    def bad(cls, msg):
        res.bad(cls, msg)
        raise Bad()

    def verdict(lo, hi):
        must = all(c is None or lo - c[1] >= 2 * DAY for c in cands)
        never = all(c is not None and lo - c[1] >= 0 and hi - c[0] < DAY for c in cands)
        return must, never

    def judge_text(msg, text, a, running, requests, hit=False):
        n = a["net"]
        new, invites = said(text, a["vs"], running)
        healthy = requests and n["kind"] == "ok" and n.get("body", "").startswith(releases(a["vs"])) and "cut" not in n
        newest = str(max(map(Version, a["vs"])))
        newer = Version(newest) > Version(running)
        total = n.get("connect", 0.05) + n.get("delay", 0) * (len(n.get("body", "")) / (n.get("chunk") or 4096) + 1)
        fast = not hit and n.get("connect", 0.05) < 0.8 and total < 0.8
        if healthy and fast:
            if newer and (new != {newest}):
                bad("not-announced" if not new else "wrong-version", msg + "versions %s, running %s: announced %s, the newest is %s\n%s" % (
                    a["vs"], running, sorted(new) or "nothing", newest, text))
            if not newer and (invites or new):
                bad("false-announcement", msg + "versions %s, running %s: %r" % (a["vs"], running, text))
        elif healthy:
            if (new and new != {newest}) or (invites and not newer):
                bad("wrong-version", msg + "versions %s, running %s: %r" % (a["vs"], running, text))
        elif invites or (new and not healthy):
            bad("false-announcement", msg + "answer %s, but: %r" % (str(n)[:200], text))
        return healthy and fast, newer

    def one(a, p, fault, msg, alone, readable):
        w.switch(p)
        n0 = len(w.net.requests)
        w.clock.lo = w.clock.hi = w.clock.wall
        f0 = sum(w.fired.values())
        out = call(w, imp, name="start", fault=fault, limit=40)
        hit = fault is not None and sum(w.fired.values()) > f0
        lo, hi = min(w.clock.lo, w.clock.wall), max(w.clock.hi, w.clock.wall)
        killed_ = out.kind == "crash"
        asked = sum(1 for _ in w.net.requests[n0:]) if alone else None
        if killed_:
            p.dead = True
        elif not out.ok:
            bad("start-failed", msg + "failed: %r" % out)
        return asked, lo, hi, hit, killed_, out.value

    def usage(a, rt, msg, disk_ok, hit):
        for k in a["use"]:
            res.probes["use " + k] += 1

            def f():
                if k == "mode":
                    rt.silentMode(saveToPrefs=True)
                elif k == "pref":
                    rt.Preferences()["other"] = 3
                elif k == "prefs":
                    rt.prefs["other"] = rt.prefs.get("other", 0)
                elif k == "reset":
                    rt.prefs.resetPreferences()
            if k == "check":
                t0 = len(w.proc.out.getvalue())
                n0 = len(w.net.requests)
                out = call(w, lambda: rt.checkLatestVersion(currentVersion=a["running"]), name="check", limit=40)
                if not out.ok:
                    bad("check-failed", msg + "asking for the latest version: %r" % out)
                n = len(w.net.requests) - n0
                sure, newer = judge_text(msg + "checkLatestVersion(%s): " % a["running"], w.proc.out.getvalue()[t0:], a, a["running"], n)
                if sure and bool(out.value) != newer:
                    bad("wrong-answer", msg + "checkLatestVersion(%s) with %s returned %r" % (a["running"], a["vs"], out.value))
                if not n:
                    bad("not-asked", msg + "checkLatestVersion did not ask")
                continue
            out = call(w, f, name=k)
            if not out.ok and disk_ok:
                bad("unusable", msg + "%s failed: %r" % (k, out))
            if k == "reset":
                # (a session whose preferences folder failed may keep its preferences in its own folder: finding of C09)
                if out.ok and not (hit and "/simfs/cwd/" + NAME in w.paths):
                    cands[:] = [None]
                elif None not in cands:
                    cands.append(None)

    def iso(t, fmt):
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=int(round(t * 1e6)))
        if fmt == "s":
            d = d.replace(microsecond=0)
        return d.isoformat()

    def record(r):
        w.fired["record"] += 1
        if "age" in r:
            t = w.clock.wall - r["age"]
            w.fs.put(path, json.dumps({"mode": "beginner", "lastVersionCheck": iso(t, r["fmt"])}).encode())
            cands[:] = [(t - 1, t)]
            return
        w.fs.put(path, json.dumps({"mode": "beginner", "lastVersionCheck": r["bad"]}).encode() if "bad" in r else
                 (b"\x00\xff{" if r["raw"] == "@junk" else r["raw"].encode()))
        cands[:] = [None]

    def step(i, a):
        msg = "start %d: " % i
        res.probes["start"] += 1
        w.clock.wall += a["dt"]
        if scn["whole"]:
            w.clock.wall = float(round(w.clock.wall))
        w.clock.jumps = {w.clock.reads + int(k): v for k, v in (a.get("jumps") or {}).items()}
        w.net.answers, w.net.i = [a["net"]], 0
        if a.get("rec"):
            record(a["rec"])
        kind = a.get("disk", "ok")
        disk(w, "ok", kind)
        readable = kind not in ("unreadable", "eio")
        if a.get("with"):
            return together(i, a, readable, kind)
        p = w.new_proc("p%d" % i, env_of("ok", {"RAYTRACING_EXPERT": a["env"]} if "env" in a else None))
        asked, lo, hi, hit, dead, rt = one(a, p, a.get("fault"), msg, True, readable)
        must, never = verdict(lo, hi)
        if asked and never and readable and not hit:
            bad("asked-too-often", msg + "asked the index, the last check was %s ago" % [
                "%.2f h" % ((lo - c[1]) / 3600) for c in cands])
        if not asked and must and readable and not hit:
            bad("not-asked", msg + "did not ask the index, the last check: %s" % [
                "none" if c is None else "%.2f h ago" % ((lo - c[1]) / 3600) for c in cands])
        if asked:
            info["asked"] += 1
            if hit or kind != "ok" or dead:
                cands.append((lo, hi))
            else:
                cands[:] = [(lo, hi)]
        elif hit or kind != "ok":
            pass
        if not dead:
            sure, newer = judge_text(msg, p.out.getvalue(), a, rt.__version__, asked, hit)
            res.probes["announced" if newer and sure else "not announced"] += 1
            usage(a, rt, msg, kind == "ok", hit)

    def together(i, a, readable, kind):
        w.clock.jumps = {}
        s = sched_of(a, w, on_switch=lambda prev, nxt: w.switch(nxt.proc) if nxt.proc is not None else None)
        got = []
        n0 = len(w.net.requests)
        # a process switch may happen while another is inside its start: the clock extremes cover both
        w.clock.lo = w.clock.hi = w.clock.wall
        t_lo = w.clock.wall
        for j, b in enumerate([a] + a["with"]):
            p = w.new_proc("p%d.%d" % (i, j), env_of("ok", {"RAYTRACING_EXPERT": a["env"]} if "env" in a else None))
            s.spawn(lambda p=p, b=b, j=j: got.append(one(a, p, b.get("fault"), "start %d (%d of 2): " % (i, j), False, readable) + (p,)),
                    "start%d" % j, p)
        info["s"] = s
        try:
            s.run()
        except (Deadlock, StepLimit) as e:
            bad("stuck", "start %d with others: %s" % (i, e))
        for t in s.tasks:
            if t.error is not None:
                raise t.error
        w.switch(None)
        asked = len(w.net.requests) - n0
        lo, hi = t_lo, w.clock.wall
        must, never = verdict(lo, hi)
        hit = any(g[3] for g in got)
        if asked and never and readable and not hit:
            bad("asked-too-often", "starts %d asked the index, the last check was %s ago" % (i, ["%.2f h" % ((lo - c[1]) / 3600) for c in cands]))
        if not asked and must and readable and not hit:
            bad("not-asked", "starts %d did not ask the index, the last check: %s" % (i, cands))
        if asked:
            info["asked"] += 1
            if hit or kind != "ok":
                cands.append((lo, hi))
            else:
                cands[:] = [(lo, hi)]

    with w:
        w.buffer_size, w.read_cap = scn["buf"], scn["read_cap"]
        w.clock.per_read = scn["per_read"]
        w.fs.mkd("/simfs/home/user/.config")
        try:
            for i, a in enumerate(scn["starts"]):
                step(i, a)
            base = {"vs": ["1.0", "77.0", "2.0"], "net": {"kind": "ok", "body": releases(["1.0", "77.0", "2.0"])}, "use": [], "running": "1.0"}
            for k, dt in enumerate((5 * DAY + (10 ** 9 if scn["starts"] else 0), 3600.0, 22 * 3600.0, 2 * DAY + 60)):
                step(len(scn["starts"]) + k, dict(base, dt=dt))
        except Bad:
            pass
        for e in w.escapes:
            res.bad("escape", "reached outside the simulation: %s" % e)
    res.nontrivial = bool(scn["starts"]) and (info["asked"] > 0 or bool(w.fired))
    res.take(w, info["s"])
    return res


def shrink(scn):
    st = scn["starts"]
    for l in without(st):
        yield replace(scn, starts=l)
    for i, a in enumerate(st):
        for k in ("with", "fault", "disk", "jumps", "rec", "env"):
            if k in a and a[k] is not None:
                yield replace(scn, starts=st[:i] + [{x: y for x, y in a.items() if x != k}] + st[i + 1:])
        if a["use"]:
            yield replace(scn, starts=st[:i] + [dict(a, use=[])] + st[i + 1:])
        if len(a["vs"]) > 1 and a["net"].get("body") == releases(a["vs"]):
            for l in without(a["vs"]):
                if l:
                    yield replace(scn, starts=st[:i] + [dict(a, vs=l, net=dict(a["net"], body=releases(l)))] + st[i + 1:])
    for k, v in (("read_cap", None), ("buf", 8192), ("per_read", 0), ("whole", False)):
        if scn[k] != v:
            yield replace(scn, **{k: v})
