"""C09: preferences are durable and never damaged."""
import ast
import json
from .common import *

ID = "C09"
RUNS = {"quick": 5000, "thorough": 400000}
RULE = ("seeded runs: 1-3 sessions (simulated processes, each a fresh copy of the package) with 1-2 Preferences objects each, "
        "assigning, updating, removing, reading, listing and resetting preferences, choosing and saving modes, restarting; interleaved at "
        "system calls by a seeded scheduler; faults at any system call (errors, full disk, short and torn writes, stalls, "
        "kills), the file damaged or replaced between operations; a per-key model of allowed values, where assignments "
        "overlapping in time may take each other's place, judges every read and what a last session finds; non-trivial: a fault, "
        "a damage or a switch between sessions happened after something was assigned")
REAL = ["raytracing.preferences, utils and __init__ (fresh copy per session)", "json", "tempfile", "buffered I/O of Python"]
STUB = ["raw files and directories", "scheduler of sessions", "clock", "session kills", "network (never needed)"]
ASSUMPTIONS = ["a kill loses Python buffers but not what was written (no power loss)", "assignments of two sessions that overlap "
               "in time may each be the one kept", "preferences have string keys and JSON values"]
PATH = "/simfs/home/user/.config/ca.dcclab.python.raytracing.json"
KEYS = ["mode", "k1", "k2", "clé", ""]
ABSENT = "<absent>"
ERR = ["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EMFILE"]

# the known finding, always shown: a disk error on the folder of preferences while an object is made
PINNED = [{"sessions": [[{"op": "object", "o": 0, "fault": {"n": 1, "kind": "EDQUOT", "sticky": True}},
                         {"op": "set", "o": 0, "k": "k2", "v": 6}]],
           "buf": 8192, "read_cap": None, "sched": {"seed": 1, "p_call": 0.5}, "first": {"k2": True}, "home": "ok", "stale": False}]


def g_val(rng, n):
    if rng.random() < 0.02:
        return "very long %d " % n + "x" * rng.choice([5000, 20000])
    return rng.choice(["v%d" % n, n, [n, "x"], {"n": n}, "é%d" % n, "long %d " % n + "x" * 300, None, True, 0.5 + n])


def g_op(rng, n, solo):
    k = rng.choices(["set", "get", "list", "update", "mode", "reset", "object", "restart", "bad", "damage", "construct", "has",
                     "pause", "len", "getd", "del", "pop", "setdefault", "ior", "clear", "popitem", "copy", "text", "equal"],
                    [8, 5, 2, 1.2, 1, 0.6, 0.8, 1, 0.4, 1.6 if solo else 0, 0.6, 1, 0.5 if solo else 4, 0.7, 1,
                     0.6, 0.6, 0.7, 0.3, 0.2, 0.2, 0.4, 0.3, 0.3])[0]
    o = {"op": k, "o": rng.randrange(2)}
    if k in ("set", "get", "has", "getd", "bad", "del", "pop", "setdefault"):
        o["k"] = KEYS[rng.choices(range(5), [2, 4, 3, 1, 0.3])[0]]
    if k == "list":
        o["how"] = rng.choice(["items", "items", "keys", "iter", "walk", "values"])
    if k == "pop":
        o["default"] = rng.random() < 0.5
    if k in ("set", "setdefault"):
        o["v"] = g_val(rng, n)
    if k in ("update", "construct", "ior"):
        o["d"] = {x: g_val(rng, n) for x in rng.sample(KEYS[1:4], rng.randint(1, 2))}
        o["kw"] = rng.random() < 0.3
        if o["kw"]:
            o["d"] = {"k1": g_val(rng, n)}
    if k == "mode":
        o["m"] = rng.choice(["beginner", "expert", "silent"])
        o["save"] = rng.random() < 0.8
    if k == "damage":
        o["what"] = rng.choice(["junk", "empty", "cut", "list", "null", "utf16", "deep", "delete", "valid", "number", "nodir", "bom"])
        o["at"] = round(rng.random(), 3)
    if k == "pause":
        o["t"] = rng.choice([0.1, 1, 5])
    if k not in ("pause", "damage") and rng.random() < (0.3 if solo else 0.12):
        r = rng.random()
        f = {"n": rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, rng.randint(1, 14)])}
        f["kind"] = rng.choice(ERR) if r < 0.4 else rng.choice(["crash", "crash_after", "crash_torn"]) if r < 0.75 else \
            rng.choice(["short", "torn", "stall", "interrupt"])
        if rng.random() < 0.4:
            f["on"] = rng.choice(["write", "open", "rename", "close", "read", "fsync", "mut"])
            f["n"] = rng.choice([1, 1, 2, 3])
        if f["kind"] in ("ENOSPC", "EDQUOT", "EIO", "short", "EROFS", "stall") and rng.random() < 0.4:
            f["sticky"] = True
        o["fault"] = f
    return o


def generate(rng, tier):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    solo = n == 1
    scn = {"sessions": [], "buf": rng.choice([1, 16, 8192, 8192]), "read_cap": rng.choice([None, None, 1, 9]),
           "sched": {"seed": rng.getrandbits(31), "p_call": rng.choice([0.05, 0.2, 0.5, 0.9])}}
    c = 0
    for s in range(n):
        ops = []
        for _ in range(rng.choice([4, 8, 14]) if solo else rng.randint(2, 7)):
            c += 1
            ops.append(g_op(rng, c, solo))
        scn["sessions"].append(ops)
    scn["first"] = rng.choice([{}, {"mode": "silent"}, {"mode": "expert", "k1": "old", "k2": [1]}, None,
                               {"k1": 1, "k2": 2, "clé": 3, "mode": "beginner"}])
    scn["home"] = rng.choice(["ok", "ok", "ok", "noconfig", "nohome", "darwin"])
    scn["stale"] = rng.random() < 0.3      # starts record a version check, too
    return scn


def norm(v):
    return json.dumps(v, sort_keys=True)


class Op:
    def __init__(self, proc, kind, data, begin):
        self.proc, self.kind, self.data, self.begin = proc, kind, data, begin
        self.end = None
        self.ok = False
        self.got = None
        self.ret = None               # what a call that also writes gave back
        self.text = ""

    @property
    def write(self):
        return self.kind in ("set", "reset", "damage", "replace", "remove", "default")


def execute(scn):
    res = Result()
    w = World(5)
    hist = []
    tick = [0]

    def now():
        tick[0] += 1
        return tick[0]

    class Session:
        def __init__(self, i):
            self.i = i
            self.task = None
            self.start(None)

        def start(self, fault):
            p = w.new_proc("s%d.%d" % (self.i, len(w.procs)), env={"HOME": "/simfs/nohome"} if scn["home"] == "nohome" else None)
            s = CUR.sched
            if s is not None and s.current is not None:
                s.current.proc = p
            w.switch(p)
            # a start may record a version check: an assignment of its own
            quiet = not scn["stale"] and len(scn["sessions"]) > 1 and not any(
                '"%s"' % x in json.dumps(scn["sessions"]) for x in ("reset", "clear", "popitem"))
            o = begin("read" if quiet else "set", {} if quiet else {"lastVersionCheck": "*"}, "start")
            out = call(w, imp, name="start", fault=fault, limit=400)
            done(o, out)
            o.ok = False
            if out.kind == "crash":
                return self.start(None)
            if not out.ok and fault and fault["kind"] == "interrupt":
                return self.start(None)
            if not out.ok:
                res.bad("start-failed", "a start failed: %r" % out)
                raise Stop()
            self.rt = out.value
            self.objs = [None, None]

        def prefs(self, i):
            if self.objs[i] is None:
                self.objs[i] = self.rt.Preferences()
            return self.objs[i]

    class Stop(Exception):
        pass

    def imp():
        import raytracing
        return raytracing

    def begin(kind, data, text):
        o = Op(w.proc.name, kind, data, now())
        o.text = text
        hist.append(o)
        return o

    def done(o, out):
        o.end = now()
        o.ok = out.ok
        o.out = out

    def run_session(i, ops):
        S = Session(i)
        for no, a in enumerate(ops):
            k = a["op"]
            text = "session %d op %d %s" % (i, no, {x: y for x, y in a.items() if x != "o"})
            fault = a.get("fault")
            res.probes[k] += 1
            if k == "pause":
                w.clock.sleep(a["t"])
                continue
            if k == "damage":
                o = begin(*damage(w, a, target()), text)
                o.end, o.ok = now(), True
                continue
            if k == "restart":
                w.proc.dead = True
                S.start(fault)
                continue
            j = a["o"]
            n0 = sum(w.fired.values())
            hooked = solo_bytes() if len(scn["sessions"]) == 1 and k in ("get", "has", "list", "len", "getd", "object", "copy", "text", "equal") else None
            if k == "object":
                S.objs[j] = None
                o = begin("read", {}, text)
                f = lambda: S.prefs(j)
            elif k in ("set", "bad"):
                if k == "bad":
                    o = begin("read", {}, text)
                else:
                    o = begin("set", {a["k"]: a["v"]}, text)

                def f():
                    S.prefs(j)[a["k"]] = {1, 2} if k == "bad" else a["v"]
            elif k == "update":
                o = begin("set", dict(a["d"]), text)
                f = (lambda: S.prefs(j).update(**a["d"])) if a["kw"] else (lambda: S.prefs(j).update(a["d"]))
            elif k in ("del", "pop"):
                o = begin("remove", {a["k"]: None}, text)

                def f():
                    p = S.prefs(j)
                    try:
                        if k == "del":
                            del p[a["k"]]
                            return "<present>"
                        v = p.pop(a["k"], "<none>") if a["default"] else p.pop(a["k"])
                        return ABSENT if v == "<none>" else norm(v)
                    except KeyError:
                        return ABSENT
            elif k == "popitem":
                o = begin("remove", {x: None for x in KEYS + ["lastVersionCheck", "n"]}, text)

                def f():
                    try:
                        x, v = S.prefs(j).popitem()
                    except KeyError:
                        return None
                    o.data = {x: None}
                    return norm(v)
            elif k == "setdefault":
                o = begin("default", {a["k"]: a["v"]}, text)
                f = lambda: norm(S.prefs(j).setdefault(a["k"], a["v"]))
            elif k == "ior":
                o = begin("set", dict(a["d"]), text)

                def f():
                    p = S.prefs(j)
                    p |= a["d"]
                    if p is not S.prefs(j):
                        raise HarnessError("|= made another object")
            elif k == "construct":
                o = begin("set", dict(a["d"]), text)

                def f():
                    S.objs[j] = S.rt.Preferences(**a["d"]) if a["kw"] else S.rt.Preferences(a["d"])
            elif k == "mode":
                o = begin("set" if a["save"] else "read", {"mode": a["m"]} if a["save"] else {}, text)
                f = lambda: getattr(S.rt, a["m"] + "Mode")(saveToPrefs=a["save"])
            elif k in ("reset", "clear"):
                o = begin("reset", {}, text)
                f = (lambda: S.prefs(j).resetPreferences()) if k == "reset" else (lambda: S.prefs(j).clear())
            else:
                o = begin("read", {}, text)

                def f():
                    p = S.prefs(j)
                    if k == "get":
                        try:
                            return {a["k"]: norm(p[a["k"]])}
                        except KeyError:
                            return {a["k"]: ABSENT}
                    if k == "getd":
                        v = p.get(a["k"], "<none>")
                        return {a["k"]: ABSENT if v == "<none>" else norm(v)}
                    if k == "has":
                        return {a["k"]: "<present>" if a["k"] in p else ABSENT}
                    if k == "len":
                        return {"<len>": len(p)}
                    if k == "copy":
                        d = p.copy()
                        if not isinstance(d, dict):
                            raise HarnessError("a copy that is no dict")
                        d = {x: norm(y) for x, y in dict.items(d)}
                    elif k == "text":
                        d = {x: norm(y) for x, y in ast.literal_eval(repr(p)).items()}
                    elif k == "equal":
                        q = S.prefs(1 - j)
                        same = p == dict(q.items())     # what another object says
                        if len(scn["sessions"]) == 1 and not w.fired and not same or p == {"foreign": 1}:
                            raise ValueError("the preferences are not equal to what they hold")
                        return {}
                    elif a.get("how") in ("keys", "iter", "walk"):
                        l = list(p.keys()) if a["how"] == "keys" else list(p) if a["how"] == "iter" else []
                        if a["how"] == "walk":
                            for x in p:
                                l.append(x)
                                p.get(x)
                        d = {x: "<present>" for x in l}
                    elif a.get("how") == "values":
                        l = [norm(x) for x in p.values()]
                        if len(scn["sessions"]) == 1 and not w.fired and sorted(map(repr, l)) != sorted(repr(norm(x)) for x in S.prefs(1 - j).values()):
                            raise ValueError("the values differ from those of another object")
                        return {}
                    else:
                        d = {x: norm(y) for x, y in p.items()}
                    return dict({x: ABSENT for x in KEYS}, **d)
            out = call(w, f, fault=fault, limit=60, name=k)
            done(o, out)
            hit = sum(w.fired.values()) > n0 and fault is not None
            if out.kind == "crash":
                o.ok = False
                S.start(None)
                continue
            if out.kind == "hang":
                res.bad("never-ends", text + repr(out))
                raise Stop()
            if not out.ok:
                if k == "bad":
                    w.fired["unserialisable"] += 1
                elif not hit:
                    res.bad("failed", text + ": %r" % out)
                    raise Stop()
            else:
                if k == "bad":
                    res.bad("accepted", text + ": a value that cannot be stored was accepted")
                    raise Stop()
                if o.kind in ("remove", "default"):
                    o.ret = out.value
                    if k == "popitem" and out.value is None:
                        o.data = {}
                if o.kind == "read":
                    o.got = out.value if isinstance(out.value, dict) else None
                    if k in ("object", "mode", "bad"):
                        o.got = None
            if hooked is not None and solo_bytes() != hooked:
                res.bad("read-writes", text + ": changed what is stored: %s -> %s" % (hooked, solo_bytes()))
                raise Stop()

    def target():
        return place

    def solo_bytes():
        b = w.fs.get(target())
        return None if b is None or b == b"{}" else b

    scn = dict(scn)
    if scn["home"] == "noconfig":
        scn["stale"] = True
    with w:
        w.buffer_size = scn["buf"]
        w.read_cap = scn["read_cap"]
        if scn["home"] == "darwin":
            w.platform = "Darwin"
            w.fs.mkd("/simfs/home/user/Library/Preferences")
        if scn["home"] != "noconfig":
            w.fs.mkd("/simfs/home/user/.config")
        w.net.answers = [{"kind": "unreachable"}]
        first = dict(scn["first"]) if scn["first"] is not None else {}
        if not scn["stale"]:
            first["lastVersionCheck"] = "2023-11-14T22:00:00.000001"
        place = {"nohome": "/simfs/cwd/", "darwin": "/simfs/home/user/Library/Preferences/"}.get(
            scn["home"], "/simfs/home/user/.config/") + PATH.split("/")[-1]
        if scn["home"] == "noconfig":
            first = {}
        elif scn["first"] is not None or not scn["stale"]:
            w.fs.put(place, json.dumps(first).encode())
        def body(i, ops):
            try:
                run_session(i, ops)
            except Stop:
                pass
        fail = None
        if len(scn["sessions"]) == 1:
            body(0, scn["sessions"][0])
            s = None
        else:
            s = sched_of(scn, w, on_switch=lambda prev, nxt: w.switch(nxt.proc) if nxt.proc is not None else None)
            for i, ops in enumerate(scn["sessions"]):
                s.spawn(lambda i=i, ops=ops: body(i, ops), "session%d" % i, w.new_proc("boot%d" % i))
            try:
                s.run()
            except (Deadlock, StepLimit) as e:
                res.bad("stuck", str(e))
            for t in s.tasks:
                if t.error is not None:
                    raise t.error
        if not res.violations:
            # what a last session finds
            w.switch(None)
            try:
                run_session(9, [{"op": "list", "o": 0}, {"op": "set", "o": 0, "k": "k1", "v": "last"}, {"op": "list", "o": 1}])
            except Stop:
                pass
        if not res.violations:
            judge(res, first, hist, scn)
            if scn["home"] != "nohome" and "/simfs/cwd/ca.dcclab.python.raytracing.json" in w.paths and \
                    any(e + at in w.fired for e in ERR for at in ("@mkdir", "@stat")):
                # known finding: a disk error while an object is made sends its later assignments to the current folder
                res.probes["fell back to the current folder"] += 1
                for v in res.violations:
                    v["key"] = "fallback-folder"
        tmp = [n for n in w.fs.nodes if n.startswith(place) and n != place]
        res.probes["left-over files"] += len(tmp)
        for e in w.escapes:
            res.bad("escape", "reached outside the simulation: %s" % e)
    wrote = any(o.kind == "set" and o.ok for o in hist)
    res.nontrivial = wrote and (bool(w.fired) or (s is not None and s.nswitch > 3) or any(o.kind in ("damage", "replace") for o in hist))
    res.take(w, s)
    return res


def damage(w, a, path):
    k = a["what"]
    data = w.fs.get(path)
    w.fired["damage_" + k] += 1
    if k == "valid":
        d = {"mode": "silent", "k1": "by others", "n": 5, "lastVersionCheck": "2023-11-14T22:00:00.000001"}
        w.fs.put(path, json.dumps(d, indent=2).encode())
        return "replace", d
    if k in ("delete", "nodir"):
        w.fs.drop(path)
        return "replace", {}
    if k == "bom":
        new = b"\xef\xbb\xbf" + (data or b"{}")
    else:
        new = {"junk": b"\x00\xffjunk{", "empty": b"", "cut": (data or b"{")[:int(a["at"] * len(data or b"{"))],
               "list": b"[1, 2]", "null": b"null", "number": b"12", "utf16": '{"mode": "é"}'.encode("utf-16"),
               "deep": b"[" * 100000}[k]
    if k == "deep":
        w.read_cap, w.buffer_size = None, 8192
    w.fs.put(path, new)
    return "damage", {}


def judge(res, first, hist, scn):
    """walk the history: clusters of overlapping writes, and reads"""
    state = {k: {norm(v)} for k, v in first.items()}
    if not scn["stale"]:
        state["lastVersionCheck"] = {norm(first.get("lastVersionCheck", "*"))} if "lastVersionCheck" in first else {ABSENT}

    def st(k):
        return state.setdefault(k, {ABSENT})
    # state seen so far for all keys ever
    names = set(KEYS) | set(first) | {"lastVersionCheck"}
    for o in hist:
        names |= set(o.data or ())
    for k in names:
        st(k)
    writes = sorted([o for o in hist if o.write], key=lambda o: o.begin)
    for o in hist:
        if o.end is None:
            o.end = 1 << 40
    clusters = []
    for o in writes:
        if clusters and o.begin < clusters[-1][1]:
            c = clusters[-1]
            c[1] = max(c[1], o.end)
            c[2].append(o)
        else:
            clusters.append([o.begin, o.end, [o]])
    events = [(c[1], 0, c) for c in clusters] + [(o.end, 1, o) for o in hist if o.kind == "read" and o.got is not None]
    events.sort(key=lambda e: (e[0], e[1]))

    def apply(c, into):
        for o in c[2]:
            single = len(c[2]) == 1
            if o.kind == "set":
                for k, v in o.data.items():
                    if v == "*":
                        into[k] = into[k] | {"*"}
                    elif single and o.ok:
                        into[k] = {norm(v)}
                    else:
                        into[k] = into[k] | {norm(v)}
            elif o.kind == "remove":
                for k in o.data:
                    into[k] = {ABSENT} if single and o.ok else into[k] | {ABSENT}
            elif o.kind == "default":
                for k, v in o.data.items():
                    into[k] = {o.ret} if single and o.ok else into[k] | {norm(v)}
            elif o.kind == "reset":
                for k in into:
                    into[k] = {ABSENT} if single and o.ok else into[k] | {ABSENT}
            elif o.kind == "replace":
                for k in into:
                    into[k] = {norm(o.data[k])} if k in o.data else {ABSENT}
            elif o.kind == "damage":
                for k in into:
                    into[k] = into[k] | {ABSENT}

    def fits(got, allowed, k):
        if got == ABSENT:
            return ABSENT in allowed
        if got == "<present>":
            return bool(allowed - {ABSENT})
        if "*" in allowed and got.startswith('"') and got[1:5].isdigit():
            return True
        return got in allowed

    done = set()
    prior = {}
    post = {}
    for _, kind, x in events:
        if kind == 0:
            if len(x[2]) == 1 and x[2][0].ret is not None:
                o = x[2][0]
                (k, v), = o.data.items()
                may = state[k] | ({norm(v)} if o.kind == "default" and ABSENT in state[k] else set())
                if not fits(o.ret, may, k):
                    res.bad("wrong-value", "%s: gave %s, allowed %s" % (o.text, o.ret, sorted(may)))
                    return
            prior[id(x)] = {k: set(v) for k, v in state.items()}
            apply(x, state)
            post[id(x)] = {k: set(v) for k, v in state.items()}
            done.add(id(x))
            continue
        # a read: may see any state of clusters overlapping it that are not yet applied
        over = [c for c in clusters if c[0] < x.end and c[1] > x.begin]
        allowed = {k: set(v) for k, v in state.items()}
        for c in over:
            if id(c) not in done:
                t = {k: set(v) for k, v in state.items()}
                apply(c, t)
                for k in t:
                    allowed[k] |= t[k]
        # clusters that ended during the read: what was there before may have been read
        if any(id(c) in done for c in over):
            for c in over:
                if id(c) in done:
                    for k in allowed:
                        allowed[k] |= prior[id(c)][k] | post[id(c)][k]
        for k, got in x.got.items():
            if k == "<len>":
                lo = sum(1 for v in allowed.values() if ABSENT not in v)
                hi = sum(1 for v in allowed.values() if v - {ABSENT})
                if not lo <= got <= hi:
                    res.bad("wrong-length", "%s: %d preferences, between %d and %d are stored" % (x.text, got, lo, hi))
                    return
                continue
            if k not in allowed:
                res.bad("foreign", "%s: found %r: %s that nobody stored" % (x.text, k, got))
                return
            if not fits(got, allowed[k], k):
                res.bad("lost" if got == ABSENT else "wrong-value", "%s: %r is %s, allowed %s\nhistory: %s" % (
                    x.text, k, got, sorted(allowed[k]), "; ".join(
                        "%s[%d-%d]%s" % (o.text, o.begin, o.end, "" if o.ok else " failed") for o in hist)[:900]))
                return
            if not over and got != "<present>":
                state[k] = {got}


def shrink(scn):
    if len(scn["sessions"]) > 1:
        for l in without(scn["sessions"]):
            if l:
                yield replace(scn, sessions=l)
    for i, ops in enumerate(scn["sessions"]):
        for l in without(ops):
            yield replace(scn, sessions=scn["sessions"][:i] + [l] + scn["sessions"][i + 1:])
        for j, o in enumerate(ops):
            if "fault" in o:
                yield replace(scn, sessions=scn["sessions"][:i] + [
                    ops[:j] + [{a: b for a, b in o.items() if a != "fault"}] + ops[j + 1:]] + scn["sessions"][i + 1:])
    if scn["read_cap"]:
        yield replace(scn, read_cap=None)
    if scn["home"] != "ok":
        yield replace(scn, home="ok")
    if scn["stale"]:
        yield replace(scn, stale=False)
