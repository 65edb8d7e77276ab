"""Shared by C10-C12: the machine a session of the package starts on, and starting sessions on it."""
import errno, json, re
from .common import *

NAME = "ca.dcclab.python.raytracing.json"
ERRNO = ["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EMFILE", "ENOENT", "EPERM", "EINVAL", "ESTALE", "ELOOP", "ENOTDIR"]
HOMES = ["ok", "ok", "ok", "ok", "noconfig", "nohome", "darwin", "darwin-nolib", "windows", "other", "config-file",
         "config-denied", "prefs-dir", "unreadable", "unwritable"]


def where(home):
    if home in ("nohome", "windows", "other", "config-file"):
        return "/simfs/cwd/" + NAME if home != "config-file" else "/simfs/home/user/.config/" + NAME
    if home.startswith("darwin"):
        return "/simfs/home/user/Library/Preferences/" + NAME
    return "/simfs/home/user/.config/" + NAME


def machine(w, home):
    """the folders as they are before the first start"""
    if home.startswith("darwin"):
        w.platform = "Darwin"
        if home == "darwin":
            w.fs.mkd("/simfs/home/user/Library/Preferences")
        else:
            w.fs.mkd("/simfs/home/user")
    elif home == "windows":
        w.platform = "Windows"
    elif home == "other":
        w.platform = "Java"
    elif home == "config-file":
        w.fs.put("/simfs/home/user/.config", b"a file")
    elif home == "noconfig":
        w.fs.mkd("/simfs/home/user")
    elif home != "nohome":
        w.fs.mkd("/simfs/home/user/.config")
    p = where(home)
    if home == "prefs-dir":
        w.fs.mkd(p)
    if home in ("config-denied", "unreadable"):
        w.fs.deny[p] = (errno.EACCES, "rw")
    if home == "unwritable":
        w.fs.deny[p] = (errno.EACCES, "w")


def heal(w, home):
    """a machine on which everything works"""
    w.fs.full = w.fs.readonly = False
    w.fs.deny = {}
    if home == "prefs-dir":
        w.fs.drop(where(home))
    if home == "darwin-nolib":
        w.fs.mkd("/simfs/home/user/Library/Preferences")
    if home == "config-file":
        w.fs.drop("/simfs/home/user/.config")
        w.fs.mkd("/simfs/home/user/.config")


def env_of(home, e):
    env = dict(e or {})
    if home == "nohome":
        env["HOME"] = "/simfs/nohome"
    return env


def disk(w, home, kind):
    w.fs.full = kind == "full"
    w.fs.readonly = kind == "readonly"
    p = where(home)
    w.fs.deny.pop(p, None)
    if home in ("config-denied", "unreadable") or kind == "unreadable":
        w.fs.deny[p] = (errno.EACCES, "rw")
    elif home == "unwritable":
        w.fs.deny[p] = (errno.EACCES, "w")
    elif kind == "eio":
        w.fs.deny[p] = (errno.EIO, "rw")


# ---------------------------------------------------------------- contents of the preference file
DATES = ["2023-11-14T22:00:00.000001", "2023-11-14T22:00:00", "2023-11-10T22:00:00.5", "2023-11-10T22:00:00", "2023-11-01",
         "2023-11-10 22:00:00", "2023-11-10T22:00:00+00:00", "2023-11-10T22:00:00Z", "9999-12-31T23:59:59.999999",
         "0001-01-01T00:00:00", "1970-01-01T00:00:00", "", "junk", "é", 12, 1.5, None, True, [], {}, [1], {"a": 1}, -1, 1e308,
         "NaN", "2023-13-45T99:99:99.0", "2023-11-14T22:00:00.000001\n", "x" * 5000, "\u0000", 10 ** 30]
MODES = ["beginner", "expert", "silent", "", "Expert", "SILENT", "none", 12, None, True, [], {}, ["silent"], {"mode": 1}, "é",
         "expert ", -0.5]
RAW = ["", "   ", "{", "{}", "[]", "[1, 2]", "null", "12", "true", "\"text\"", "NaN", "{\"mode\": NaN}", "{'mode': 'expert'}",
       "{\"mode\": \"expert\"} trailing", "{\"mode\": \"expert\", \"mode\": 3}", "mode=expert", "<xml/>", "\ufeff{}",
       "{\"lastVersionCheck\": Infinity}", "{\"a\": 1e999}", "[[\"mode\", \"expert\"]]", "\"mode\"", "{\"mode\": \"\\ud800\"}",
       "@deep", "@junk", "@utf16", "@nul", "@latin", "@keys", "@bigint"]


def g_content(rng, damaged=0.45):
    r = rng.random()
    if r < 0.08:
        return None
    if r < damaged:
        return {"raw": rng.choice(RAW)}
    d = {}
    if rng.random() < 0.75:
        d["lastVersionCheck"] = rng.choice(DATES)
    if rng.random() < 0.6:
        d["mode"] = rng.choice(MODES)
    if rng.random() < 0.3:
        d[rng.choice(["k", "clé", "", "keys", "path", "__class__"])] = rng.choice([1, None, "x", [1], {"z": {}}])
    return {"d": d}


def content(c):
    if c is None:
        return None
    if "d" in c:
        return json.dumps(c["d"]).encode()
    r = c["raw"]
    return {"@deep": b"[" * 100000, "@junk": b"\x00\xff\xfejunk{\x80", "@utf16": '{"mode": "expert"}'.encode("utf-16"),
            "@nul": b"\x00" * 64, "@latin": '{"mode": "expert", "clé": 1}'.encode("latin-1"),
            "@keys": ('{%s}' % ",".join('"k%d": %d' % (i, i) for i in range(300))).encode(),
            "@bigint": b'{"lastVersionCheck": ' + b"9" * 6000 + b"}"}.get(r) or r.encode()


# ---------------------------------------------------------------- answers of the network
JUNK = ["", "{", "[]", "null", "12", "{}", "{\"releases\": null}", "{\"releases\": []}", "{\"releases\": {}}", "{\"releases\": 3}",
        "{\"releases\": {\"abc\": []}}", "{\"releases\": {\"1.0\": [], \"??\": []}}", "{\"info\": {}}", "<html>captive portal</html>",
        "\x00\x01", "\udcff\udcfe{", "[[[[", "{\"releases\": {\"\": []}}", "\"releases\"", "{\"releases\": \"1.2.3\"}"]


def releases(vs):
    return json.dumps({"info": {"version": vs[-1] if vs else ""}, "releases": {v: [] for v in vs}})


def g_net(rng, versions=None):
    k = rng.choices(["ok", "junk", "unreachable", "refused", "reset", "ssl", "hang", "badstatus", "http", "slow", "cut"],
                    [5, 3, 1.5, 0.7, 0.7, 0.7, 1, 0.5, 1, 2, 1])[0]
    a = {"kind": k}
    vs = versions or ["1.0", "1.3.11", "1.3.12"]
    if k in ("ok", "slow", "cut"):
        a = {"kind": "ok", "body": releases(vs)}
        if rng.random() < 0.4:
            a["body"] = a["body"] + " " * rng.choice([1, 5000, 50000])
    if k == "junk":
        a = {"kind": "ok", "body": rng.choice(JUNK)}
    if k == "http":
        a["code"] = rng.choice([404, 500, 503, 301, 429])
    if k == "slow":
        a["chunk"] = rng.choice([1, 10, 500])
        a["delay"] = rng.choice([0.01, 0.3, 0.9, 0.99, 1.5, 30])
    if k == "cut":
        a["cut"] = rng.choice([0, 1, 10, len(a["body"]) - 1])
        a["cutkind"] = rng.choice(["reset", "eof"])
    a["connect"] = rng.choice([0.01, 0.05, 0.5, 0.99, 2, 100])
    return a


def g_fault(rng):
    r = rng.random()
    f = {"n": rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, rng.randint(1, 25)])}
    f["kind"] = rng.choice(ERRNO) if r < 0.5 else rng.choice(["crash", "crash_after", "crash_torn"]) if r < 0.8 else \
        rng.choice(["short", "torn", "stall"])
    if rng.random() < 0.4:
        f["on"] = rng.choice(["write", "open", "rename", "close", "read", "fsync", "mut", "mkdir", "stat", "net"])
        f["n"] = rng.choice([1, 1, 2, 3])
        if f["on"] == "net" and f["kind"] not in ("crash", "stall"):
            f["kind"] = "crash"
    if rng.random() < 0.35 and f["kind"] in ERRNO + ["short", "stall"]:
        f["sticky"] = True
    return f


def imp():
    import raytracing
    return raytracing


def killed(w):
    """the killed process is gone: its descriptors with it"""
    w.proc.dead = True
