"""Save/load histories of ray collections (C07) and of groups of elements (C08) on a failing disk."""
import pickle
from .common import *
from . import queries as Q
from .c03 import value, close_key, composition, ill_conditioned

FILES = ["f0", "f1", "données été", "dir/f3", "nodir/f4"]
LIMIT = 120.0
ERRS = ["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EMFILE"]


def g_fault(rng, saving, deep):
    kinds = ERRS + ["short", "stall", "interrupt", "nomem", "crash", "crash_after"]
    if saving:
        kinds += ["torn", "crash_torn", "torn", "crash_torn", "crash", "crash_after", "ENOSPC"]
    k = rng.choice(kinds)
    f = {"n": rng.choice([1, 1, 2, 2, 3, 4, 5, rng.randint(1, deep)]), "kind": k}
    if rng.random() < 0.5:
        f["on"] = rng.choice(["write", "write", "open", "close"] if saving else ["read", "read", "open", "close"])
    if k in ("ENOSPC", "EIO", "EDQUOT", "short", "stall") and rng.random() < 0.4:
        f["sticky"] = True
    return f


def g_op(rng, g_obj, g_el, deep):
    k = rng.choices(["save", "load", "build", "grow", "disk", "between", "restart", "session", "reload"],
                    [6, 7, 1, 2, 1.2, 1.5, 1.2, 1.2, 1])[0]
    o = {"op": k, "c": rng.randrange(3)}
    if k in ("save", "load"):
        o["f"] = FILES[rng.choices(range(5), [6, 3, 1, 1, 0.3])[0]]
        r = rng.random()
        if r < 0.35:
            o["fault"] = g_fault(rng, k == "save", deep)
        elif r < 0.45:
            o["fault"] = {"n": rng.randint(1, rng.choice([3, 6, deep])), "kind": "hook"}
            o["meanwhile"] = rng.choice(["delete", "junk", "replace", "grow", "truncate", "clock"])
        if k == "load":
            o["append"] = rng.random() < 0.4
        elif rng.random() < 0.06:
            o["unpicklable"] = True
        o["path"] = rng.random() < 0.2
    elif k == "build":
        o["new"] = g_obj(rng)
    elif k == "grow":
        o["el"] = g_el(rng)
    elif k == "disk":
        o["to"] = rng.choice(["ok", "ok", "full", "readonly", "slowread", "denied"])
    elif k == "between":
        o["f"] = FILES[rng.randrange(2)]
        o["what"] = rng.choice(["delete", "junk", "cut", "cut", "foreign", "notiter", "mixed", "empty", "copy", "dir", "oneshot"])
        o["at"] = round(rng.random(), 3)
        o["g"] = FILES[rng.randrange(3)]
    elif k == "reload":
        o["f"] = FILES[rng.randrange(2)]
    return o


def generate(rng, g_obj, g_el):
    buf = rng.choice([1, 16, 64, 512, 8192, 8192])
    deep = {1: 400, 16: 60, 64: 20}.get(buf, 6)
    ops = [g_op(rng, g_obj, g_el, deep) for _ in range(rng.choice([3, 6, 10, 16]))]
    if rng.random() < 0.5:
        ops.insert(0, {"op": "save", "c": 0, "f": "f0", "path": False})
    objs = [g_obj(rng) for _ in range(rng.choice([1, 2, 3]))]
    cap = rng.choice([None, None, None, 1, 7, 100])
    if "big" in str(objs) or "big" in str(ops):
        buf, cap = max(512, buf), max(100, cap or 10000)
    return {"objs": objs, "ops": ops, "buf": buf, "read_cap": cap}


class File:
    def __init__(self):
        self.cands = []          # contents a load may give
        self.sure = True         # no load may raise (if there is a candidate)
        self.unknown = False


def show(o):
    return {k: v for k, v in o.items() if k not in ("new", "el")}


def execute(scn, ad):
    """ad: the adapter telling rays and groups apart"""
    res = Result()
    w = World(3)
    w.buffer_size = scn["buf"]
    w.read_cap = scn["read_cap"]
    files = {f: File() for f in FILES}
    with w:
        w.fs.mkd("/simfs/cwd/dir")
        sessions = [None, None]
        which = 0

        def start(i):
            full, ro, deny, cap, b = w.fs.full, w.fs.readonly, w.fs.deny, w.read_cap, w.buffer_size
            w.fs.full, w.fs.readonly, w.fs.deny, w.read_cap, w.buffer_size = False, False, {}, None, 8192
            p = w.new_proc("s%d" % len(w.procs))
            rt = w.load(p)
            w.fs.full, w.fs.readonly, w.fs.deny, w.read_cap, w.buffer_size = full, ro, deny, cap, b
            sessions[i] = {"p": p, "rt": rt, "objs": [ad.make(rt, s) for s in scn["objs"]]}
            return sessions[i]

        S = start(0)
        failed = saved = False
        for no, o in enumerate(scn["ops"]):
            k = o["op"]
            msg = "op %d %s: " % (no, show(o))
            rt, objs = S["rt"], S["objs"]
            j = o["c"] % len(objs)
            c = objs[j]
            res.probes[k] += 1
            if k == "build":
                objs[j] = ad.make(rt, o["new"])
            elif k == "grow":
                try:
                    ad.grow(rt, c, o["el"])
                except ValueError:
                    pass
            elif k == "restart":
                w.switch(S["p"])
                S["p"].dead = True
                S = start(which)
            elif k == "session":
                which = 1 - which
                S = sessions[which] or start(which)
                w.switch(S["p"])
            elif k == "disk":
                w.fs.full = o["to"] == "full"
                w.fs.readonly = o["to"] == "readonly"
                w.read_cap = (64 if "big" in str(scn) else 1) if o["to"] == "slowread" else scn["read_cap"]
                import errno
                w.fs.deny = {"/simfs/cwd/f0": (errno.EACCES, "rw")} if o["to"] == "denied" else {}
            elif k == "between":
                between(w, rt, o, files, ad)
            elif k == "reload":
                # what was saved loads now exactly, or the save failed
                f = files[o["f"]]
                path = "/simfs/cwd/" + o["f"]
                n = ad.empty(rt)
                if not do_load(w, res, ad, rt, n, f, path, False, None, None, msg):
                    break
            elif k == "save":
                f = files[o["f"]]
                path = o["f"] if no % 2 else "/simfs/cwd/" + o["f"]
                if o["path"]:
                    import pathlib
                    path = pathlib.PurePosixPath(path)
                undo = ad.spoil(rt, c) if o.get("unpicklable") else None
                before = sum(w.fired.values())
                vals = None if undo else ad.values(c, rt) if ad.eager(c) else None
                out = call(w, c.save, path, fault=with_hook(w, o), limit=LIMIT, name="save")
                if undo:
                    undo()
                if out.kind != "crash":
                    got = ad.values(c, rt)
                    if vals is not None and got != vals:
                        res.bad("save-changed", msg + "saving changed %s into %s" % (vals, got))
                        break
                    vals = got
                elif vals is None:
                    vals = None
                hit = sum(w.fired.values()) > before
                if out.kind == "hang":
                    res.bad("save-never-ends", msg + repr(out))
                    break
                if "meanwhile" in o and hit and o["meanwhile"] != "clock":
                    f.unknown = True
                    f.cands, f.sure = [], False
                elif out.ok:
                    f.cands, f.sure, f.unknown = [vals], True, False
                    saved = True
                else:
                    failed = True
                    healthy = not (w.fs.full or w.fs.readonly or w.fs.deny) and not hit and o["f"] != FILES[4] \
                        and not undo and not isdir(w, o["f"])
                    if healthy:
                        res.bad("save-failed", msg + repr(out))
                        break
                    if vals is None:
                        f.unknown = True        # a killed session took its unknown rays with it
                    else:
                        f.cands = f.cands + [vals]
                    f.sure = False
                if out.kind == "crash":
                    S = start(which)
            elif k == "load":
                f = files[o["f"]]
                path = o["f"] if no % 2 else "/simfs/cwd/" + o["f"]
                if o["path"]:
                    import pathlib
                    path = pathlib.PurePosixPath(path)
                r = do_load(w, res, ad, rt, c, f, path, o["append"], with_hook(w, o), o, msg)
                if not r:
                    break
                if r == "crash":
                    S = start(which)
                failed |= r == "raised"
            for f in files.values():
                del f.cands[:-6]
            for e in w.escapes:
                res.bad("escape", msg + "reached outside the simulation: %s" % e)
            if res.violations:
                break
        if not res.violations:
            w.fs.full, w.fs.readonly, w.fs.deny = False, False, {}
            S = start(0)
            for name in FILES:
                if not do_load(w, res, ad, S["rt"], ad.empty(S["rt"]), files[name], "/simfs/cwd/" + name, False, None, None,
                               "finally, in a new session, %s: " % name):
                    break
        res.nontrivial = saved and (failed or bool(w.fired))
    res.take(w)
    return res


def isdir(w, f):
    n = w.fs.nodes.get("/simfs/cwd/" + f)
    return n is not None and n.kind == "d"


def with_hook(w, o):
    ft = o.get("fault")
    if not ft or ft["kind"] != "hook":
        return ft
    ft = dict(ft)
    path = "/simfs/cwd/" + o["f"]

    def act():
        m = o["meanwhile"]
        w.fired["meanwhile_" + m] += 1
        n = w.fs.nodes.get(path)
        if m == "clock":
            w.clock.wall += -1e6
        elif m == "delete":
            if n is not None and n.kind == "f":
                w.fs.drop(path)
        elif n is None or n.kind != "f":
            return
        elif m == "junk":
            n.data[:] = b"\0" * len(n.data)
        elif m == "replace":
            w.fs.drop(path)
            w.fs.put(path, b"something else")
        elif m == "grow":
            n.data.extend(b"and more")
        elif m == "truncate":
            del n.data[:]
    ft["do"] = act
    return ft


def between(w, rt, o, files, ad):
    """another program acts on a file between our operations"""
    f = files[o["f"]]
    path = "/simfs/cwd/" + o["f"]
    what = o["what"]
    w.fired["between_" + what] += 1
    data = w.fs.get(path)
    if what == "copy":
        src = w.fs.get("/simfs/cwd/" + o["g"])
        if src is not None and o["g"] != o["f"]:
            w.fs.drop(path)
            w.fs.put(path, src)
            g = files[o["g"]]
            f.cands, f.sure, f.unknown = list(g.cands), g.sure, g.unknown
        return
    if what == "cut":
        if data and f.sure and f.cands:
            cut = data[:int(o["at"] * len(data) * 0.999)]
            w.fs.put(path, cut)
            f.cands, f.sure, f.unknown = [], True, False
        return
    w.fs.drop(path)
    f.cands, f.sure, f.unknown = [], True, False
    if what == "delete":
        return
    if what == "dir":
        w.fs.mkd(path)
        return
    good = ad.raw(rt)
    if what == "oneshot":        # a file holding an iterator gives its rays, or is refused
        w.fs.put(path, pickle.dumps(iter(list(good))))
        f.cands, f.sure = [ad.raw_values(good, rt)], False
        return
    w.fs.put(path, {"junk": b"junk" * 40, "foreign": pickle.dumps(["a", 1]), "notiter": pickle.dumps(3.5),
                    "mixed": pickle.dumps(list(good) + ["x"]), "empty": b""}[what])


def do_load(w, res, ad, rt, c, f, path, append, fault, o, msg):
    before = ad.values(c, rt)
    n0 = sum(w.fired.values())
    out = call(w, c.load, path, append=append, fault=fault, limit=LIMIT, name="load")
    hit = sum(w.fired.values()) > n0
    if out.kind == "crash":
        return "crash"
    if out.kind == "hang":
        res.bad("load-never-ends", msg + repr(out))
        return False
    after = ad.values(c, rt)
    meddled = o is not None and "meanwhile" in o and hit and o["meanwhile"] != "clock"
    if not out.ok:
        if after != before:
            res.bad("failed-load-changed", msg + "%r, but the contents changed from %s to %s" % (out, str(before)[:400], str(after)[:400]))
            return False
        if f.sure and f.cands and not hit and not w.fs.deny and not f.unknown and ad.loadable(before, f.cands[0], append):
            res.bad("load-refused", msg + "%r, although it was saved" % out)
            return False
        if not hit and not w.fs.deny and not f.unknown and not append:
            f.cands = []
        if meddled:
            f.cands, f.unknown, f.sure = [], True, False
        return "raised"
    if f.unknown:
        return "ok"
    fits = [v for v in f.cands if ad.is_load(before, v, append, after)]
    if not fits:
        res.bad("wrong-contents", msg + "loaded %s; %s" % (str(after)[:500], "nothing loadable is there" if not f.cands else
                                                           "saved %s" % str(f.cands)[:500]))
        return False
    if not ad.consistent(res, c, msg):
        return False
    if meddled:
        f.cands, f.unknown, f.sure = [], True, False
    elif not f.sure and len(fits) == 1 and not hit:
        f.cands, f.sure = fits, True
    return "ok"


def shrink(scn):
    for c in drop_items(scn, "ops", "objs"):
        if c["objs"]:
            yield c
    for i, o in enumerate(scn["ops"]):
        if "fault" in o or "unpicklable" in o:
            yield replace(scn, ops=scn["ops"][:i] + [{a: b for a, b in o.items() if a not in (
                "fault", "meanwhile", "unpicklable")}] + scn["ops"][i + 1:])
    for i, s in enumerate(scn["objs"]):
        for key in ("rays", "els"):
            if len(s.get(key, [])) > 1:
                yield replace(scn, objs=scn["objs"][:i] + [dict(s, **{key: s[key][:-1]})] + scn["objs"][i + 1:])
    if scn["read_cap"]:
        yield replace(scn, read_cap=None)
    if scn["buf"] != 8192:
        yield replace(scn, buf=8192)
