"""C17: running examples from the command line shows exactly the examples asked for."""
import io as _io
import re
import runpy
import hashlib
import numpy as np
from .common import *
from .c14 import record, rgba  # noqa
from sim.world import instrument_package, REPO, PKG
import os

ID = "C17"
RUNS = {"quick": 1500, "thorough": 80000}
RULE = ("seeded runs: a history of 1-6 command lines (-e with any list of numbers, all, -l, -c, bad input; each in a fresh process) "
        "and of examples called one after another in a session; the files of the examples are listed in any order, a read of "
        "one of them fails or is short, the output pipe breaks, a window raises or gets Ctrl-C, an example fails, a call is "
        "interrupted at a random interpreter step; what every example drew and printed is compared with the same example run "
        "alone in a fresh process; non-trivial: two examples in one process, or a failure")
REAL = ["raytracing (all modules, fresh copies)", "raytracing.__main__ and raytracing.examples", "argparse", "runpy",
        "matplotlib figures", "pygments to the terminal (results remembered)", "PIL"]
STUB = ["window and event loop (plt.show)", "picture of the source code (pygments' BmpImageFormatter)", "files and listing of the "
        "examples directory", "standard output", "the code of the examples in half of the runs (they only report being run)",
        "fig6, fig8 and ex18 (too slow to draw)"]
ASSUMPTIONS = ["Ctrl-C in a window may just close it", "an example is known by its file name and its TITLE", "examples asked for before a failure may have been run"]
RESAMPLE = 60
FILES = {"figure.py", "graphics.py", "graphicComponents.py", "imagingpath.py", "laserpath.py", "lasercavity.py", "matrix.py",
         "matrixgroup.py", "rays.py", "ray.py", "specialtylenses.py"}
DIR = os.path.join(PKG, "examples")
HEAVY = ("fig6", "fig8", "ex18")
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
LIMIT = 300_000_000

_files = {}
_hl = {}
_refs = {}
_src = {}


def setup():
    import matplotlib.pyplot, matplotlib.backends.backend_agg  # noqa
    import pygments, pygments.lexers, pygments.formatters, PIL.Image, PIL.BmpImagePlugin  # noqa
    from pygments.lexers import PythonLexer  # noqa
    from pygments.formatters import TerminalFormatter, BmpImageFormatter  # noqa
    for n in sorted(os.listdir(DIR)):
        if n.endswith((".py", ".md")):
            with real.open(os.path.join(DIR, n), "rb") as f:
                _files[n] = f.read()
    _names[:] = sorted(n[:-3] for n in _files if re.match(r"^(ex\d+|fig.+)\.py$", n))
    instrument_package(FILES)


_names = []


def names():
    return list(_names)


def light(i):
    return not _names[i - 1].startswith(HEAVY)


SLOW = ("ex17", "ex19", "fig7")


def pick(rng, stub=False):
    """a number of the list; those slow to draw are rarer"""
    while True:
        i = rng.randint(1, len(_names))
        if stub or light(i) and (not _names[i - 1].startswith(SLOW) or rng.random() < 0.08):
            return i


# ---------------------------------------------------------------- scenarios
def g_list(rng, n, stub):
    k = rng.random()
    l = [pick(rng, stub) for _ in range(rng.choice([1, 1, 2, 2, 3, 4] if not stub else [1, 2, 3, 5, 9]))]
    if k < 0.12:
        l.insert(rng.randrange(len(l) + 1), rng.choice([0, -1, -2, n + 1, n + 7, 1000, -n, -n - 1]))
    if k > 0.97:
        return None if stub else l
    return l


def generate(rng, tier):
    n = len(names())
    stub = rng.random() < 0.5
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4] if not stub else [1, 2, 3, 6])):
        r = rng.random()
        if r < 0.08:
            o = {"op": "list"}
        elif r < 0.12:
            o = {"op": "classes"}
        elif r < 0.20:
            o = {"op": "bad", "arg": rng.choice(["x", "1,x", "1.5", "1;2", "--", "1-3", "", ",", "1,,2", " ", "two", "1,all"])}
        elif r < 0.65 or stub:
            o = {"op": "run", "l": g_list(rng, n, stub), "spaced": rng.random() < 0.15, "long": rng.random() < 0.3}
        else:
            o = {"op": "session", "i": pick(rng), "comments": rng.random() < 0.3}
        if rng.random() < 0.5:
            o["order"] = rng.getrandbits(16)
        if o["op"] != "session" and rng.random() < 0.25:
            o["fault"] = {"kind": rng.choice(["EIO", "EACCES", "short", "stall", "interrupt", "nomem"]),
                          "n": rng.choice([1, 2, 5, rng.randint(1, 100), rng.randint(1, 100)]), "sticky": rng.random() < 0.2}
        elif rng.random() < 0.12:
            o["pipe"] = rng.choice([1, 3, 10, rng.randint(1, 60)])
        elif stub and o["op"] == "run" and rng.random() < 0.25:
            o["fails"] = [rng.randint(1, 4), rng.choice(["ValueError", "KeyboardInterrupt", "ZeroDivisionError", "MemoryError"])]
        elif not stub and rng.random() < 0.25:
            o["show"] = [rng.randint(1, 3), rng.choice(["KeyboardInterrupt", "OSError"])]
        elif o["op"] == "session" and rng.random() < 0.5:
            o["at"] = round(rng.random(), 4)
            o["exc"] = rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])
        ops.append(o)
    if not stub:
        ops.append({"op": "session", "i": pick(rng), "comments": rng.random() < 0.3})
        if len(ops) < 2 or rng.random() < 0.3:
            ops.insert(0, {"op": "session", "i": pick(rng), "comments": False})
    return {"stub": stub, "ops": ops, "np": rng.getrandbits(31)}


def shrink(scn):
    yield from drop_items(scn, "ops")
    for i, o in enumerate(scn["ops"]):
        for k in ("order", "fault", "pipe", "fails", "show", "at"):
            if k in o:
                p = {a: b for a, b in o.items() if a != k}
                if k == "at":
                    p.pop("exc")
                yield dict(scn, ops=scn["ops"][:i] + [p] + scn["ops"][i + 1:])
        if o.get("l") and len(o["l"]) > 1:
            for m in without(o["l"]):
                yield dict(scn, ops=scn["ops"][:i] + [dict(o, l=m)] + scn["ops"][i + 1:])


# ---------------------------------------------------------------- stand-ins
def picture(code):
    """a bitmap that names the source code it shows"""
    from PIL import Image
    h = hashlib.sha256(code.encode()).digest()
    _src[h[:12]] = code
    im = Image.frombytes("RGB", (2, 2), h[:12])
    b = _io.BytesIO()
    im.save(b, "BMP")
    return b.getvalue()


def shown_code(im):
    if im is None:
        return None
    try:
        a = np.asarray(im)
        return _src.get(a.astype(np.uint8).tobytes()[:12])
    except Exception:
        return None


class Pipe:
    """standard output that breaks"""

    def __init__(self, out, n):
        self.out, self.n, self.broken = out, n, False

    def write(self, s):
        self.n -= 1
        if self.n <= 0:
            self.broken = True
            raise BrokenPipeError(32, "Broken pipe")
        return self.out.write(s)

    def flush(self):
        if self.broken:
            raise BrokenPipeError(32, "Broken pipe")

    def isatty(self):
        return False

    def __getattr__(self, n):
        return getattr(self.out, n)


class Stub:
    def __init__(self):
        self.saved = []

    def put(self, obj, name, v):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, v)

    def undo(self):
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)


def pics(fig):
    """the pictures in a figure"""
    out = []
    for ax in fig.axes:
        for im in ax.images:
            out.append(hashlib.sha256(np.ascontiguousarray(im.get_array()).tobytes()).hexdigest()[:12])
    return tuple(out)


class Bench:
    """the machine the processes run on"""

    def __init__(self, w, scn):
        self.w, self.scn = w, scn
        self.calls = []            # (name, figures, printed text, comments, completed)
        self.now = None
        self.fails = None
        self.show = None
        self.nshow = 0
        self.order = None
        self.count = 0

    def loaded(self, module):
        name = module.__name__
        if not name.startswith("raytracing.examples.") or not hasattr(module, "exampleCode"):
            return
        short = name.rsplit(".", 1)[1]
        code = module.exampleCode
        bench = self

        def exampleCode(*a, **k):
            return bench.example(short, module, code, a, k)
        exampleCode.__wrapped__ = code
        module.exampleCode = exampleCode

    def example(self, short, module, code, a, k):
        import sys
        com = k.get("comments", a[0] if a else None)
        rec = {"name": short, "figs": [], "text": "", "comments": com, "done": False}
        self.calls.append(rec)
        outer, self.now = self.now, rec
        out = sys.stdout
        while isinstance(out, Pipe):
            out = out.out
        start = len(out.getvalue())
        if self.fails is not None and len(self.calls) == self.fails[0]:
            raise {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
                   "ZeroDivisionError": ZeroDivisionError}[self.fails[1]]("the example fails")
        try:
            if not self.scn["stub"]:
                if short.startswith(HEAVY):
                    raise HarnessError("a heavy example was run")
                np.random.seed(5)
                code(*a, **k)
            else:
                print("output of", short)
            rec["done"] = True
        finally:
            rec["text"] = re.sub(r" at 0x[0-9a-f]+", " at 0x", out.getvalue()[start:])
            self.now = outer

    def shown(self, *a, **k):
        import matplotlib.pyplot as plt
        self.nshow += 1
        for n in plt.get_fignums():
            f = plt.figure(n)
            if self.now is not None:
                self.now["figs"].append((record(f), pics(f)))
        if self.show is not None and self.nshow == self.show[0]:
            plt.close("all")
            if self.show[1] == "OSError":
                raise OSError("cannot open display")
            raise KeyboardInterrupt()
        plt.close("all")

    def listdir(self, l):
        if self.order is None:
            return l
        r = real.Random(self.order)
        l = list(l)
        r.shuffle(l)
        return l


def prepare(w, scn):
    """stubs and files of a world; returns (bench, undo)"""
    import matplotlib.pyplot as plt
    import pygments
    import pygments.formatters as pf
    b = Bench(w, scn)
    st = Stub()
    st.put(plt, "show", lambda *a, **k: b.shown(*a, **k))
    real_hl = pygments.highlight

    def highlight(code, lexer, formatter, outfile=None):
        if isinstance(formatter, Bmp):
            return picture(code)
        key = (code, type(formatter).__name__)
        if key not in _hl:
            _hl[key] = real_hl(code, lexer, formatter)
        return _hl[key]

    class Bmp(pf.BmpImageFormatter):
        def __init__(self, **k):
            pass
    st.put(pygments, "highlight", highlight)
    st.put(pf, "BmpImageFormatter", Bmp)
    w.on_load = b.loaded
    w.fs.extra = (DIR,)
    w.fs.mkd(DIR)
    for n, data in _files.items():
        w.fs.put(os.path.join(DIR, n), data)
    w.fs.listing = b.listdir
    rc = dict(plt.rcParams)
    plt.rcParams["figure.dpi"] = 40

    def undo():
        st.undo()
        for n in rc:
            if plt.rcParams[n] != rc[n]:
                plt.rcParams[n] = rc[n]
        plt.close("all")
    return b, undo


def rc_reset():
    import matplotlib as mpl
    mpl.rcdefaults()
    mpl.rcParams["backend"] = "Agg"
    mpl.rcParams["figure.dpi"] = 40


def command(argv):
    import sys
    old = sys.argv[:]
    sys.argv[:] = ["raytracing"] + argv
    try:
        runpy.run_module("raytracing", run_name="__main__", alter_sys=True)
    finally:
        sys.argv[:] = old


PREFS = '{"mode": "silent", "lastVersionCheck": "2023-11-14T22:00:00.000001"}'


def process(w, b, no):
    """a new process on the machine"""
    import matplotlib.pyplot as plt
    p = w.new_proc("p%d" % no)
    w.fs.mkd("/simfs/home/user/.config")
    w.fs.put("/simfs/home/user/.config/ca.dcclab.python.raytracing.json", PREFS.encode())
    w.switch(p)
    plt.close("all")
    rc_reset()
    b.calls, b.nshow, b.fails, b.show, b.order = [], 0, None, None, None
    return p


def reference(name, how):
    """what an example draws and prints alone in a fresh process; remembered"""
    if (name, how) in _refs:
        return _refs[name, how]
    w = World(1)
    b, undo = prepare(w, {"stub": False})
    try:
        with w:
            process(w, b, 0)
            i = names().index(name) + 1
            st = Stepper()
            st.bound(LIMIT)
            if how == "run":
                o = call(w, command, ["-e", str(i)], name="reference")
                steps = 0
            else:
                import importlib
                o = call(w, importlib.import_module, "raytracing.examples", name="import")
                if o.ok:
                    ex = o.value
                    e = [s for s in ex.short if s["name"] == name]
                    if len(e) != 1:
                        return fail_ref(name, how, "the examples module has %d entries for it" % len(e))
                    k = {"comments": e[0]["bmpSourceCode"]} if how == "pic" else {}
                    with st:
                        o = call(w, e[0]["code"], name="reference", **k)
                steps = st.step
            if not o.ok:
                return fail_ref(name, how, repr(o))
            if [c["name"] for c in b.calls] != [name]:
                return fail_ref(name, how, "ran %s instead" % [c["name"] for c in b.calls])
            c = b.calls[0]
            r = {"figs": c["figs"], "text": c["text"], "steps": steps, "bad": None}
    finally:
        undo()
    _refs[name, how] = r
    return r


def fail_ref(name, how, why):
    r = _refs[name, how] = {"bad": "example %s alone in a fresh process: %s" % (name, why), "figs": [], "text": "", "steps": 0}
    return r


def plain(s):
    return re.sub(r"\x1b\[[0-9;]*m", "", s)


def source(name):
    return _files[name + ".py"].decode("utf-8").replace("\r\n", "\n")


def title(name):
    ns = {}
    import ast
    for st in ast.parse(source(name)).body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], "id", "") == "TITLE":
            ns["t"] = ast.literal_eval(st.value)
    return ns.get("t", "")


# ---------------------------------------------------------------- execution
def wanted(scn):
    """the references a scenario needs"""
    out = set()
    if scn["stub"]:
        return out
    N = names()
    for o in scn["ops"]:
        if o["op"] == "run":
            for i in o["l"] or ():
                if 1 <= i <= len(N):
                    out.add((N[i - 1], "run"))
        if o["op"] == "session":
            out.add((N[o["i"] - 1], "pic" if o["comments"] else "bare"))
    return sorted(out)


def execute(scn):
    res = Result()
    for n, how in wanted(scn):
        r = reference(n, how)
        if r["bad"]:
            res.bad("alone", r["bad"], key="alone")
            return res
    w = World(scn["np"])
    b, undo = prepare(w, scn)
    try:
        with w:
            run(scn, res, w, b)
            for e in w.escapes:
                res.bad("escape", "the code reached outside: %s" % e)
    finally:
        undo()
    res.take(w)
    return res


def run(scn, res, w, b):
    import sys
    import importlib
    import matplotlib.pyplot as plt
    N = names()
    sess = None
    trouble = False
    ran = 0
    for no, o in enumerate(scn["ops"]):
        k = o["op"]
        msg = "op %d %s: " % (no, o)
        res.probes[k] += 1
        if k == "session":
            if sess is None:
                sess = process(w, b, 100)
                b.order = o.get("order")
                out = call(w, importlib.import_module, "raytracing.examples", name="import")
                if not out.ok:
                    return res.bad("raised", msg + "importing the examples: " + repr(out))
                sess.ex = out.value
            elif w.proc is not sess:
                w.switch(sess)
                rc_reset()
                plt.rcParams.update(sess.rc)
            b.calls, b.nshow, b.fails, b.show = [], 0, None, o.get("show")
            name = N[o["i"] - 1]
            ref = _refs[name, "pic" if o["comments"] else "bare"]
            e = [s for s in sess.ex.short if s["name"] == name]
            if len(e) != 1:
                return res.bad("missing", msg + "%d entries for %s" % (len(e), name))
            kw = {"comments": e[0]["bmpSourceCode"]} if o["comments"] else {}
            st = Stepper()
            pipe = with_pipe(w, o)
            try:
                with st:
                    if "at" in o:
                        st.arm(int(o["at"] * ref["steps"]), EXC[o["exc"]])
                    else:
                        st.bound(10 * ref["steps"] + 500_000)
                    out = call(w, e[0]["code"], name="session " + name, **kw)
            finally:
                sys.stdout = sess.out
            plt.close("all")
            sess.rc = {n: plt.rcParams[n] for n in list(plt.rcParams) if n not in ("backend", "backend_fallback")}
            if out.kind == "hang":
                return res.bad("hang", msg + repr(out))
            hurt = st.fired is not None or (pipe is not None and pipe.broken) or (b.show and b.nshow >= b.show[0])
            if st.fired is not None:
                res.fired["step@" + o["exc"]] += 1
            if b.show and b.nshow >= b.show[0]:
                res.fired["window " + b.show[1]] += 1
            if pipe is not None and pipe.broken:
                res.fired["EPIPE@stdout"] += 1
            if hurt:
                trouble = True
                if pipe is not None and pipe.broken and out.ok:
                    return res.bad("swallowed", msg + "standard output broke and nobody was told")
                if b.show and b.show[1] == "OSError" and b.nshow >= b.show[0] and out.ok and st.fired is None:
                    return res.bad("swallowed", msg + "%s while the window was shown, and nobody was told" % b.show[1])
                res.probes["hurt"] += 1
                continue
            if not out.ok:
                return res.bad("raised", msg + "the example raised %r" % out)
            ran += 1
            if ran > 1 or trouble:
                res.nontrivial = True
                res.probes["compared"] += 1
            if not same(res, msg, b.calls, [(name, "pic" if o["comments"] else "bare")]):
                return
            continue
        # ---- a command line in a fresh process
        p = process(w, b, no)
        b.order = o.get("order")
        b.fails, b.show = o.get("fails"), o.get("show")
        if k == "list":
            argv = ["-l"]
        elif k == "classes":
            argv = ["-c"]
        elif k == "bad":
            argv = ["-e", o["arg"]]
        else:
            l = list(range(1, len(N) + 1)) if o["l"] is None else o["l"]
            s = "all" if o["l"] is None else (", " if o["spaced"] else ",").join(map(str, l))
            argv = ["--examples=" + s] if o["long"] else ["-e", s]
            if s.startswith("-") and not o["long"]:
                argv = ["-e" + s]
        pipe = with_pipe(w, o)
        try:
            out = call(w, command, argv, name=" ".join(argv), fault=o.get("fault"))
        finally:
            if pipe is not None:
                sys.stdout = p.out
        plt.close("all")
        err = out.kind == "exc" and not (isinstance(out.err, SystemExit) and out.err.code in (0, None))
        fine = out.ok or (out.kind == "exc" and not err)
        if out.kind == "hang":
            return res.bad("hang", msg + repr(out))
        fired = [f for f in w.fired if not f.startswith(("short", "stall"))]
        now = sum(w.fired[f] for f in fired)
        hurt = now > b.count
        b.count = now
        if pipe is not None and pipe.broken:
            hurt = True
            res.fired["EPIPE@stdout"] += 1
        if b.fails and len(b.calls) >= b.fails[0]:
            hurt = True
            res.fired["example " + b.fails[1]] += 1
        if b.show and b.nshow >= b.show[0]:
            hurt = True
            res.fired["window " + b.show[1]] += 1
        got = [c["name"] for c in b.calls]
        text = plain(p.out.getvalue())
        if hurt:
            trouble = res.nontrivial = True
            res.probes["hurt"] += 1
        if k in ("list", "classes"):
            if got:
                return res.bad("ran", msg + "ran %s" % got)
            if hurt:
                if fine and pipe is not None and pipe.broken:
                    return res.bad("swallowed", msg + "standard output broke and nobody was told")
                if fine:
                    hurt = False              # it coped: then the answer must be complete
                else:
                    continue
            if not fine:
                return res.bad("raised", msg + repr(out))
            if k == "list" and not listing(res, msg, text):
                return
            if k == "classes" and not hierarchy(res, msg, text, p):
                return
            continue
        if k == "bad":
            may = [N[i - 1] for i in {"1,x": [1], "1,all": [1], "1,,2": [1, 2]}.get(o["arg"], [])]
            if got != may[:len(got)]:
                return res.bad("ran", msg + "ran %s" % got, key="ran-bad-argument")
            if o["arg"].strip() not in ("", ",", "1,,2") and not err:
                return res.bad("accepted", msg + "was not refused (ran %s)" % got)
            continue
        exp, bad = [], None
        for i in l:
            if not 1 <= i <= len(N):
                bad = i
                break
            exp.append(N[i - 1])
        if bad is not None:
            res.probes["not listed"] += 1
            res.nontrivial = True
            if got != exp[:len(got)]:
                return res.bad("ran", msg + "number %d is not listed; ran %s" % (bad, got), key="ran-unlisted")
            if not err:
                return res.bad("accepted", msg + "number %d is not listed and was not refused" % bad)
            continue
        if got != exp[:len(got)]:
            return res.bad("ran", msg + "asked for %s, ran %s" % (exp, got))
        if hurt and not fine:
            if b.fails and len(got) > b.fails[0]:
                return res.bad("continued", msg + "went on after an example failed: %s" % got)
            continue
        if hurt and fine:
            if pipe is not None and pipe.broken or b.fails and len(got) >= b.fails[0] or (
                    b.show and b.show[1] == "OSError" and b.nshow >= b.show[0]):
                return res.bad("swallowed", msg + "ended normally in spite of a failure; ran %s" % got)
        if not fine:
            return res.bad("raised", msg + repr(out))
        if got != exp:
            return res.bad("ran", msg + "asked for %s, ran %s" % (exp, got))
        if len(got) > 1:
            res.nontrivial = True
        pos = 0
        for c, name in zip(b.calls, exp):
            src = source(name)
            body = src.split("if __name__")[0].strip()
            if body:
                j = text.find(body[:-40] if len(body) > 80 else body, pos)
                if j < 0:
                    return res.bad("source", msg + "the source of %s was not printed (in its turn)" % name)
                pos = j + 1
            com = shown_code(c["comments"])
            if com is None or not src.startswith(com.rstrip()) or not com.strip():
                return res.bad("comments", msg + "%s was given another picture than that of its source: %r" % (
                    name, (com or "")[:80]))
            if not c["done"]:
                return res.bad("ran", msg + "%s did not finish" % name)
        if not scn["stub"]:
            if len(exp) > 1:
                res.probes["compared"] += len(exp)
            if not same(res, msg, b.calls, [(n, "run") for n in exp]):
                return


def with_pipe(w, o):
    import sys
    if "pipe" not in o:
        return None
    sys.stdout = Pipe(w.proc.out, o["pipe"])
    return sys.stdout


def same(res, msg, calls, exp):
    if [c["name"] for c in calls] != [n for n, _ in exp]:
        res.bad("ran", msg + "ran %s" % [c["name"] for c in calls])
        return False
    for c, key in zip(calls, exp):
        ref = _refs[key]
        if c["text"] != ref["text"]:
            res.bad("text-differs", msg + "%s printed %r; alone it prints %r" % (c["name"], c["text"][:300], ref["text"][:300]))
            return False
        if len(c["figs"]) != len(ref["figs"]):
            res.bad("figures-differ", msg + "%s showed %d figures; alone it shows %d" % (
                c["name"], len(c["figs"]), len(ref["figs"])))
            return False
        for f, g in zip(c["figs"], ref["figs"]):
            if f != g:
                d = [(x, y) for x, y in zip(f[0], g[0]) if x != y][:1] or [(len(f[0]), len(g[0]), f[1], g[1])]
                res.bad("figures-differ", msg + "%s drew something else than alone: %s" % (c["name"], str(d)[:400]))
                return False
    return True


def listing(res, msg, text):
    found = re.findall(r"^\s*(\d+)\.\s+(\S+?)\.py\s*(.*)$", text, re.M)
    got = [(int(a), n, t.strip()) for a, n, t in found]
    exp = [(i + 1, n, title(n).strip()) for i, n in enumerate(names())]
    if got != exp:
        d = [(x, y) for x, y in zip(got, exp) if x != y][:1] or [(len(got), len(exp))]
        res.bad("listing", msg + "the list is not that of the examples: %s" % d)
        return False
    return True


def hierarchy(res, msg, text, p):
    got = set(re.findall(r'"(\w+)" -> "(\w+)"', text))
    rt = p.rt
    exp, todo, seen = set(), [rt.Rays, rt.Matrix], set()
    while todo:
        c = todo.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        for s in c.__subclasses__():
            exp.add((c.__name__, s.__name__))
            todo.append(s)
    if got != exp:
        res.bad("hierarchy", msg + "classes missing: %s; too many: %s" % (sorted(exp - got)[:4], sorted(got - exp)[:4]))
        return False
    return True
