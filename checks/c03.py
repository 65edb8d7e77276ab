"""C03: edits of a group are all-or-nothing and keep its matrix consistent."""
from .common import *
from . import queries as Q
import copy, pickle

ID = "C03"
RUNS = {"quick": 12000, "thorough": 400000}
RULE = ("seeded runs: a group, imaging path, laser path or cavity and 2-14 edits (append, insert, remove, replace by index or "
        "slice, flip, load, add reversed elements, build) with valid, mismatched and wrong arguments, element sources that "
        "fail half-way and files that are missing, damaged, foreign or fail while being read; after every edit the elements "
        "and the composite matrix are compared with a list model; non-trivial: at least one edit was refused or failed and "
        "at least one succeeded")
REAL = ["raytracing (all modules, fresh copies)", "pickle"]
STUB = ["file system", "element sources (generators of the harness that may fail)"]
ASSUMPTIONS = ["elements are not modified behind the group's back between edits (groups in the group: known finding)", "edits are not interrupted by signals"]

PINNED = [{"kind": "group", "els": [], "ops": [{"op": "append", "new": {"k": "group", "els": [{"k": "lens", "f": 10, "D": None}]}},
                                               {"op": "inner", "d": 5}], "np": 1}]
FILE = "/simfs/home/user/group.pkl"


def g_new(rng, many=True):
    """what an edit is given: spec of the argument"""
    r = rng.random()
    if r < 0.10:
        return {"k": "bad", "v": rng.choice(["int", "str", "none", "ray", "list-bad", "dict"])}
    if r < 0.16 and many:
        n = rng.randint(0, 3)
        return {"k": rng.choice(["failing", "failing", "gen"]), "els": g_elements(rng, n), "at": rng.randint(0, n)}
    if r < 0.24 and many:
        return {"k": rng.choice(["list", "tuple", "group"]), "els": g_elements(rng, rng.randint(0, 3))}
    if r < 0.30 and many:
        return {"k": "list", "els": [one(rng) for _ in range(rng.randint(1, 3))]}
    if r < 0.37:
        return {"k": "old", "i": rng.randrange(8)}
    return {"k": "one", "e": one(rng)}


def one(rng):
    """a single element, often in another medium"""
    r = rng.random()
    if r < 0.25:
        n1, n2 = rng.choice([(1.0, 1.5), (1.5, 1.0), (1.5, 1.33), (1.33, 1.5), (1.0, 1.33), (1.33, 1.0)])
        return {"k": "iface", "n1": n1, "n2": n2, "R": rng.choice([None, 20, -30]), "D": rng.choice([None, 10])}
    if r < 0.5:
        return {"k": "space", "d": round(rng.uniform(0.5, 30), 2), "n": rng.choice([1.0, 1.0, 1.33, 1.5]),
                "D": rng.choice([None, 8])}
    if r < 0.55:
        return {"k": "4f", "f1": 10, "f2": 20, "D": rng.choice([None, 12])}
    return g_element(rng)[0]


def g_op(rng, kind):
    k = rng.choices(["append", "insert", "pop", "set", "slice", "flip", "load", "build", "reverse", "inner"],
                    [5, 4, 3, 3, 3, 2, 2, 0.8, 2.5 if kind == "cavity" else 0, 0.15])[0]
    o = {"op": k}
    if k == "append":
        o["new"] = g_new(rng, many=False)
        if rng.random() < 0.12:
            o["new"] = {"k": "group", "els": g_elements(rng, rng.randint(0, 3))}
    elif k == "insert":
        o["i"] = rng.choice([0, 0, 1, 2, 3, -1, -2, 50, -50, "x"])
        o["new"] = g_new(rng)
    elif k == "pop":
        o["i"] = rng.choice([0, 0, 1, 2, -1, -1, -3, 50, "x"])
    elif k == "set":
        o["i"] = rng.choice([0, 0, 1, 2, -1, -2, 50, -50, "x"])
        o["new"] = g_new(rng)
    elif k == "slice":
        o["a"] = rng.choice([None, 0, 1, 2, -1, -2, 50])
        o["b"] = rng.choice([None, 0, 1, 2, 3, -1, 50, -50])
        o["step"] = rng.choice([None, None, None, 1, 2, -1])
        o["new"] = g_new(rng)
    elif k == "load":
        o["file"] = rng.choice(["good", "good", "good", "mismatch", "foreign", "notiter", "garbage", "missing", "dir",
                                "truncated", "empty"])
        o["els"] = [one(rng) for _ in range(rng.randint(1, 4))] if o["file"] == "mismatch" else \
            g_elements(rng, rng.randint(0, 4))
        o["append"] = rng.random() < 0.5
        if rng.random() < 0.15:
            o["fault"] = {"kind": rng.choice(["EIO", "EACCES", "short"]), "on": rng.choice(["open", "read"]),
                          "n": rng.randint(1, 3)}
    elif k == "build":
        o["new"] = g_new(rng)
    elif k == "inner":
        o["d"] = rng.choice([1, 5])
    elif k == "reverse":
        o["first"] = rng.random() < 0.4
        o["last"] = rng.random() < 0.6
    return o


def generate(rng, tier):
    kind = rng.choice(["group", "group", "path", "laser", "cavity"])
    return {"kind": kind, "els": g_elements(rng, rng.randint(0, 5) if rng.random() < 0.97 else rng.choice([12, 25])),
            "ops": [g_op(rng, kind) for _ in range(rng.choice([2, 4, 7, 14]))], "np": rng.getrandbits(31)}


class SourceFailed(Exception):
    pass


def state(g):
    """everything observable of a group, with the identity of its elements"""
    return ([id(e) for e in g.elements], snap_path(g.elements), M.view(g).key(), bool(g.isFlipped), flips(g), len(g))


def flips(g):
    return [(bool(e.isFlipped), flips(e) if hasattr(e, "elements") else None) for e in g.elements]


def argument(rt, n, pool):
    """(object to pass, list of elements it stands for or None if it must be refused, elements to watch)"""
    k = n["k"]
    if k == "bad":
        v = {"int": 5, "str": "lens", "none": None, "ray": rt.Ray(1, 0.1), "list-bad": [rt.Space(3), 7, rt.Lens(5)],
             "dict": {"a": 1}}[n["v"]]
        return v, None, [x for x in v if isinstance(x, rt.Matrix)] if isinstance(v, list) else []
    if k == "old":
        c = pool
        if not c:
            e = rt.Space(2)
        else:
            e = c[n["i"] % len(c)]
        return e, [e], [e]
    if k == "one":
        e = build_one(rt, n["e"])
        return e, (list(e.elements) if hasattr(e, "elements") else [e]), [e]
    els = build(rt, n["els"])
    if k == "list":
        return els, els, els
    if k == "tuple":
        return tuple(els), els, els
    if k == "group":
        g = rt.MatrixGroup(els)
        return g, list(g.elements), els + [g]
    if k == "gen":
        return (e for e in els), els, els

    def failing():
        for i, e in enumerate(els):
            if i == n["at"]:
                raise SourceFailed("source fails at %d" % i)
            yield e
        raise SourceFailed("source fails at the end")
    return failing(), None, els


def join(rt, old, new, first):
    """indices each element has after a successful edit, or None if neighbours cannot match"""
    n = [[e.frontIndex, e.backIndex] for e in new]
    seen = {}
    for i in range(max(first, 1), len(new)):
        if n[i - 1][1] != n[i][0]:
            if not isinstance(new[i], rt.Space) or any(new[i] is x for x in new[:i]):
                return None
            n[i] = [n[i - 1][1]] * 2
            for j in range(len(new)):
                if new[j] is new[i]:
                    n[j] = list(n[i])
    for i in range(1, len(new)):
        if n[i - 1][1] != n[i][0]:
            return None
    return n


def execute(scn):
    res = Result()
    w = World(scn["np"])
    ok = refused = 0
    with w:
        rt = w.load()
        kind = scn["kind"]
        g = Q.make(rt, kind, build(rt, scn["els"]), "edited")
        label = g.label
        popped = []
        for no, o in enumerate(scn["ops"]):
            k = o["op"]
            old = list(g.elements)
            before = state(g)
            if k == "inner":
                # known finding: a group does not notice that a group in it was edited
                sub = next((e for e in old if type(e) is rt.MatrixGroup), None)
                if sub is None:
                    continue
                out = call(w, sub.append, rt.Space(o["d"]), name=k)
                if out.ok and not M.close(g.L, M.compose(M.views(g.elements))["L"]):
                    res.bad("nested-edit", "edit %d: an element was added to a group in the group, whose length is still %s" % (no, g.L))
                    break
                continue
            arg, new, watch = (None, None, [])
            if "new" in o:
                arg, new, watch = argument(rt, o["new"], [e for e in popped if not any(e is x for x in old)])
                if k in ("append",) and o["new"]["k"] in ("one", "group"):
                    new = [arg]          # a group is appended as one element
                elif k in ("append", ) and o["new"]["k"] not in ("one", "old", "group"):
                    new = None
                elif o["new"]["k"] == "old" and hasattr(arg, "elements") and k != "append":
                    new = list(arg.elements)
            wbefore = [(M.view(e).key()) for e in watch]
            target = want = None           # target: expected element list; None: must be refused
            first = 0
            flipped = None
            n = len(old)
            if k == "append":
                f = lambda: g.append(arg)
                if new is not None:
                    target, first = old + new, n
            elif k == "insert":
                f = lambda: g.insert(o["i"], arg)
                if new is not None and isinstance(o["i"], int):
                    target = old[:o["i"]] + new + old[o["i"]:]
            elif k == "pop":
                f = lambda: g.pop(o["i"])
                if isinstance(o["i"], int) and -n <= o["i"] < n:
                    target = list(old)
                    want = target.pop(o["i"])
            elif k == "set":
                def f():
                    g[o["i"]] = arg
                if new is not None and isinstance(o["i"], int) and -n <= o["i"] < n:
                    i = o["i"] % n
                    target = old[:i] + new + old[i + 1:]
            elif k == "slice":
                def f():
                    g[slice(o["a"], o["b"], o["step"])] = arg
                if new is not None:
                    a, b, _ = slice(o["a"], o["b"]).indices(n)
                    target = old[:a] + new + old[max(a, b):]
            elif k == "flip":
                f = g.flipOrientation
                target = old[::-1]
                flipped = [M.view(copy.deepcopy(e).flipOrientation()) for e in target]
            elif k == "reverse":
                f = lambda: g.appendElementsInReverse(skipFirstElement=o["first"], skipLastElement=o["last"])
                fw = old[1 if o["first"] else 0:]
                if o["last"]:
                    fw = old[1 if o["first"] else 0:-1]
                target, first = old + fw[::-1], n
            elif k == "build":
                box = []
                f = lambda: box.append(Q.make(rt, kind, arg) if kind != "path" else rt.ImagingPath(arg))
                if new is not None:
                    target = list(arg.elements) if hasattr(arg, "elements") else list(new)
                    if o["new"]["k"] in ("one", "old") and not hasattr(arg, "elements"):
                        target = None       # one element is not an iterable of elements
            elif k == "load":
                f = lambda: g.load(FILE, append=o["append"])
                loaded = prepare(w, rt, o)
                if loaded is not None:
                    target, first = (old + loaded, n) if o["append"] else (loaded, 0)
            if k == "build" and o["new"]["k"] == "bad" and o["new"]["v"] == "none":
                target, new = [], []        # no elements
            if k == "build" and o["new"]["k"] == "bad" and o["new"]["v"] in ("str", "dict"):
                target = None
            idx = None
            if target is not None:
                if k == "flip":
                    idx = flip_join(rt, target, flipped)
                else:
                    idx = join(rt, old, target, first)
                if idx is None:
                    target = None
            out = call(w, f, fault=o.get("fault"), name=k)
            faulty = bool(o.get("fault"))
            msg = "edit %d %s on %s of %d elements: " % (no, o, kind, n)
            res.probes[k + (" ok" if out.ok else " refused")] += 1
            if not out.ok:
                refused += 1
                if out.kind == "hang":
                    res.bad("hang", msg + "never returns")
                    break
                if target is not None and not faulty and ill_conditioned(target):
                    res.probes["ill conditioned"] += 1
                    target = None
                if target is not None and not faulty:
                    res.bad("valid-edit-refused", msg + repr(out))
                    break
                after = state(g)
                if after != before:
                    res.bad("refused-edit-changed-group", msg + "%r; group before %s, after %s" % (out, before, after))
                    break
                wafter = [M.view(e).key() for e in watch]
                if wafter != wbefore and k != "build":
                    res.bad("refused-edit-changed-element", msg + "%r; %s -> %s" % (out, wbefore, wafter))
                    break
                if isinstance(out.err, SourceFailed) is False and o.get("new", {}).get("k") == "failing" \
                        and k in ("insert", "set", "slice", "build") and o.get("i") != "x" and not (
                            k == "set" and not -n <= o["i"] < n):
                    res.probes["other error for failing source"] += 1
                continue
            ok += 1
            if target is None:
                res.bad("invalid-edit-accepted", msg + "returned; the elements are now %s" % (
                    [(type(e).__name__, e.frontIndex, e.backIndex) for e in g.elements]))
                break
            grp = box[0] if k == "build" else g
            els = list(grp.elements)
            if k == "load":
                a, b = [value(M.view(e)) for e in els], [value(M.view(e)) for e in target]
                if len(els) != len(target) or any(not same_values(x, y) for x, y in zip(a, b)) or (
                        o["append"] and any(x is not y for x, y in zip(els, old))):
                    res.bad("wrong-elements", msg + "elements %s, expected %s" % (a, b))
                    break
            elif len(els) != len(target) or any(x is not y for x, y in zip(els, target)):
                res.bad("wrong-elements", msg + "elements are %s, expected %s" % (names(els), names(target)))
                break
            if k == "pop":
                if out.value is not want:
                    res.bad("wrong-element-returned", msg + "returned %s" % out.value)
                    break
                popped.append(want)
            if k in ("set", "slice"):
                popped.extend(e for e in old if not any(e is x for x in els))
            got = [[e.frontIndex, e.backIndex] for e in els]
            if got != idx:
                res.bad("wrong-indices", msg + "indices %s, expected %s" % (got, idx))
                break
            if flipped is not None:
                a, b = [M.view(e).key() for e in els], [v.key() for v in flipped]
                bad = [(x, y) for x, y, i in zip(a, b, els) if not close_key(x, y)]
                if bad and len(set(map(id, els))) == len(els):
                    res.bad("wrong-flip", msg + "element %s, flipped alone %s" % bad[0])
                    break
            if grp is g and g.label != label:
                res.bad("label-changed", msg + "label %r" % g.label)
                break
            if not composition(res, grp, msg):
                break
            if len(grp) != len(els):
                res.bad("wrong-length", msg + "len %d, %d elements" % (len(grp), len(els)))
                break
            if k == "flip" and no % 2:
                # flipping twice gives the original back
                snap = before
                o2 = call(w, g.flipOrientation, name="flip back")
                if not o2.ok:
                    res.bad("flip-back-refused", msg + repr(o2))
                    break
                s2 = state(g)
                if s2[0] != snap[0] or not all(close_key(x, y) for x, y in zip(s2[1], snap[1])) or s2[4] != snap[4]:
                    res.bad("flip-twice", msg + "flipping twice changed %s into %s" % (snap, s2))
                    break
                if not composition(res, g, msg + "(flipped back) "):
                    break
    res.nontrivial = ok > 0 and refused > 0
    res.take(w)
    return res


def ill_conditioned(els):
    """rounding may hide the determinant of the product (the code refuses matrices of inconsistent determinant)"""
    A, B, C, D, big = 1.0, 0.0, 0.0, 1.0, 1.0
    for e in els:
        A, B, C, D = e.A * A + e.B * C, e.A * B + e.B * D, e.C * A + e.D * C, e.C * B + e.D * D
        big = max(big, abs(A * D), abs(B * C))
    return big > 1e8 or not big < 1e300


def names(els):
    return [type(e).__name__ for e in els]


def flip_join(rt, target, views):
    n = [[v.n1, v.n2] for v in views]
    for i in range(1, len(n)):
        if n[i - 1][1] != n[i][0]:
            if not isinstance(target[i], rt.Space) or any(target[i] is x for x in target[:i]):
                return None
            n[i] = [n[i - 1][1]] * 2
            for j in range(len(n)):
                if target[j] is target[i]:
                    n[j] = list(n[i])
                    views[j].n1 = views[j].n2 = n[i][0]
    for i in range(1, len(n)):
        if n[i - 1][1] != n[i][0]:
            return None
    return n


def value(v):
    """element values, without the indices of spaces (they adapt)"""
    return v.key() if v.kind != "Space" else v.key()[:7] + (None, None) + v.key()[9:]


def same_values(a, b):
    return close_key(a, b)


def close_key(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close_key(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return M.close(a, b)


def composition(res, g, msg):
    vs = M.views(g.elements)
    c = M.compose(vs)
    got = dict(A=g.A, B=g.B, C=g.C, D=g.D, L=g.L, fv=g.frontVertex, bv=g.backVertex)
    for k in got:
        if not M.close(got[k], c[k], 1e-7):
            res.bad("inconsistent-matrix", msg + "%s of the group is %s, of its elements in order %s" % (k, got[k], c[k]),
                    key="inconsistent-matrix")
            return False
    for a, b in zip(vs, vs[1:]):
        if a.n2 != b.n1:
            res.bad("neighbours-mismatch", msg + "indices %s then %s" % (a.n2, b.n1))
            return False
    real = [v for v in vs if not (v.A == 1 and v.B == 0 and v.C == 0 and v.D == 1)]
    if real or all(v.n1 == 1 and v.n2 == 1 for v in vs):
        n1, n2 = (real[0].n1, real[-1].n2) if real else (1.0, 1.0)
        if (g.frontIndex, g.backIndex) != (n1, n2):
            res.bad("inconsistent-index", msg + "indices of the group (%s, %s), of its elements (%s, %s)" % (
                g.frontIndex, g.backIndex, n1, n2))
            return False
    return True


def prepare(w, rt, o):
    """put the file in place; returns the elements a load must give (None: it must be refused)"""
    w.fs.drop(FILE)
    k = o["file"]
    els = build(rt, o["els"])
    data = pickle.dumps(els)
    if k in ("good", "mismatch"):
        w.fs.put(FILE, data)
        return pickle.loads(data)
    if k == "foreign":
        w.fs.put(FILE, pickle.dumps(els + [rt.Ray(1, 1)]))
    elif k == "notiter":
        w.fs.put(FILE, pickle.dumps(42))
    elif k == "garbage":
        w.fs.put(FILE, b"\x00garbage" * 5)
    elif k == "truncated":
        w.fs.put(FILE, data[:max(0, len(data) * 2 // 3)])
    elif k == "empty":
        w.fs.put(FILE, b"")
    elif k == "dir":
        w.fs.mkd(FILE)
    return None


def shrink(scn):
    for c in drop_items(scn, "ops", "els"):
        yield c
    for i, o in enumerate(scn["ops"]):
        def sub(x):
            return replace(scn, ops=scn["ops"][:i] + [x] + scn["ops"][i + 1:])
        if "fault" in o:
            yield sub({a: b for a, b in o.items() if a != "fault"})
        for key in ("els",):
            if o.get(key):
                for l in without(o[key]):
                    yield sub(replace(o, els=l))
        if o.get("new", {}).get("els"):
            for l in without(o["new"]["els"]):
                yield sub(replace(o, new=replace(o["new"], els=l)))
    if scn["kind"] not in ("group", "cavity"):
        yield replace(scn, kind="group")
