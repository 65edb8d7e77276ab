"""Runs a check: many seeded simulated runs over forked workers, then minimisation, replay files and evidence.

Exit codes: 0 held on everything explored, 1 violation (VIOLATION line), 2 the machinery itself failed."""
import collections, hashlib, json, os, pickle, resource, select, signal, struct, subprocess, sys, traceback
from . import real
from .sched import CUR, SimAbort, SimCrash, Deadlock, StepLimit, Scheduler, Policy
from . import world as W

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG = 60.0


class HarnessError(Exception):
    pass


class Result:
    """what one simulated run produced"""

    def __init__(self):
        self.violations = []
        self.digest = ""
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.simtime = 0.0
        self.nontrivial = False
        self.switches = None
        self.nswitch = 0
        self.states = set()
        self.steps = 0

    def bad(self, cls, msg, key=None):
        self.violations.append({"cls": cls, "key": key or cls, "msg": str(msg)[:2000]})

    def take(self, w, sched=None):
        self.fired.update(w.fired)
        self.simtime += w.clock.mono - w.clock.start
        self.steps += w.nevents
        self.digest = hashlib.sha256((self.digest + w.digest()).encode()).hexdigest()[:16]
        if sched is not None:
            self.switches = [list(x) for x in sched.recorded]
            self.nswitch += sched.nswitch
            self.states.update(hash_site(s) for s in sched.sites)


def hash_site(s):
    return int.from_bytes(hashlib.blake2b(repr(s).encode(), digest_size=6).digest(), "big")


def scenario(check, seed, index, tier):
    rng = real.Random("%s:%s:%d" % (check.ID, seed, index))
    pinned = getattr(check, "PINNED", ())
    scn = pinned[index] if index < len(pinned) else check.generate(rng, tier)
    return json.loads(json.dumps(scn))


def run_scenario(check, scn):
    """execute one scenario; every misbehaviour of the code under test becomes a violation"""
    try:
        CUR.world = None
        CUR.sched = None
        r = check.execute(scn)
    except (SimAbort, KeyboardInterrupt, SystemExit, Exception, SimCrash, StepLimit, W.SimHang, W.SimEscape) as e:
        if isinstance(e, HarnessError):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename if tb else ""
        inrepo = any(f.filename.startswith(W.PKG) for f in tb)
        if CUR.world is not None:
            w, CUR.world = CUR.world, None
            CUR.sched = None
        if not inrepo and (last.startswith(os.path.join(VERIF, "sim"))) and not isinstance(e, W.SimHang):
            raise HarnessError("".join(traceback.format_exception(e))) from e
        r = Result()
        where = [f for f in tb if f.filename.startswith(W.PKG)]
        at = where[-1].name if where else (tb[-1].name if tb else "?")
        r.bad("unexpected-" + type(e).__name__, "unexpected %s: %s (in %s)\n%s" % (
            type(e).__name__, e, at, "".join(traceback.format_exception(e))[-1500:]),
            key="unexpected-%s" % type(e).__name__)
    return r


# ---------------------------------------------------------------- workers
def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = real.os_.write(fd, b)
        b = b[n:]


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    except Exception:
        pass


def _worker(check, seed, tier, indices, fd, resample):
    _limits()
    for i in indices:
        _send(fd, ("start", i))
        try:
            scn = scenario(check, seed, i, tier)
            r = run_scenario(check, scn)
            dig2 = None
            if resample and i % resample == 0:
                dig2 = run_scenario(check, scn).digest
            _send(fd, ("done", i, r.violations, r.digest, dict(r.fired), dict(r.probes), r.simtime, r.nontrivial,
                       r.nswitch, sorted(r.states)[:200], dig2, r.steps))
        except HarnessError as e:
            _send(fd, ("harness", i, str(e)[-3000:]))
        except MemoryError as e:
            _send(fd, ("harness", i, "MemoryError " + traceback.format_exc()[-2000:]))
    _send(fd, ("end",))


class _W:
    def __init__(self, check, seed, tier, indices, resample):
        self.indices = indices
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _worker(check, seed, tier, indices, w, resample)
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
            finally:
                real.os_._exit(0)
        os.close(w)
        self.pid, self.fd = pid, r
        self.buf = b""
        self.cur = None
        self.since = real.monotonic()
        self.ended = False
        self.left = list(indices)

    def messages(self):
        b = os.read(self.fd, 1 << 16)
        if not b:
            self.ended = True
            return []
        self.buf += b
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack("<I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            out.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return out

    def stop(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.reap()

    def reap(self):
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        try:
            os.close(self.fd)
        except OSError:
            pass


def explore(check, seed, tier, runs, workers, budget, progress=False):
    t0 = real.monotonic()
    agg = dict(done=0, nontrivial=0, simtime=0.0, fired=collections.Counter(), probes=collections.Counter(),
               digests=set(), states=set(), nswitch=0, violations=[], harness=[], hangs=[], redo=0, mismatch=[],
               samples=[], truncated=False, steps=0, trivial=0)
    resample = getattr(check, "RESAMPLE", 40)
    ws = [_W(check, seed, tier, range(k, runs, workers), resample) for k in range(min(workers, runs))]
    first_bad = None
    known = {k for (p, k, d) in known_findings() if p == check.ID}
    last_print = t0
    while ws:
        fds = [w.fd for w in ws]
        rd, _, _ = select.select(fds, [], [], 1.0)
        now = real.monotonic()
        for w in list(ws):
            if w.fd in rd:
                for m in w.messages():
                    if m[0] == "start":
                        w.cur, w.since = m[1], now
                    elif m[0] == "harness":
                        agg["harness"].append(m[1:])
                        w.cur = None
                    elif m[0] == "done":
                        (_, i, viol, dig, fired, probes, st, nt, nsw, states, dig2, steps) = m
                        w.cur = None
                        agg["done"] += 1
                        agg["simtime"] += st
                        agg["fired"].update(fired)
                        agg["probes"].update(probes)
                        agg["nswitch"] += nsw
                        agg["steps"] += steps
                        agg["states"].update(states)
                        if nt:
                            agg["nontrivial"] += 1
                            agg["digests"].add(dig)
                        if dig2 is not None:
                            agg["redo"] += 1
                            if dig2 != dig:
                                agg["mismatch"].append(i)
                        if viol:
                            agg["violations"].append((i, viol))
                            if any(v["key"] not in known for v in viol):
                                first_bad = first_bad or now
                    elif m[0] == "end":
                        w.ended = True
            if w.ended:
                if w.cur is not None:      # died inside a run
                    agg["hangs"].append((w.cur, "died"))
                    rest = [i for i in w.indices if i > w.cur]
                    w.reap()
                    ws.remove(w)
                    if rest and len(agg["hangs"]) < 4:
                        ws.append(_W(check, seed, tier, rest, resample))
                    continue
                w.reap()
                ws.remove(w)
                continue
            if w.cur is not None and now - w.since > HANG:
                agg["hangs"].append((w.cur, "hang"))
                first_bad = first_bad or now
                rest = [i for i in w.indices if i > w.cur]
                w.stop()
                ws.remove(w)
                if rest and len(agg["hangs"]) < 3:
                    ws.append(_W(check, seed, tier, rest, resample))
        if progress and now - last_print > 10:
            last_print = now
            real.print("  %s: %d/%d runs, %d violations, %.0f s" % (check.ID, agg["done"], runs,
                                                                   len(agg["violations"]), now - t0), flush=True)
        if (first_bad and now - first_bad > 6 and not any(w.cur is not None and now - w.since > 15 for w in ws)) \
                or (first_bad and now - first_bad > HANG + 10) or len(agg["hangs"]) >= 3 or len(agg["harness"]) > 20:
            agg["truncated"] = True
            break
        if now - t0 > budget:
            agg["truncated"] = True
            break
    for w in ws:
        w.stop()
    agg["wall"] = real.monotonic() - t0
    return agg


# ---------------------------------------------------------------- minimisation
def in_child(fn, timeout):
    """run fn() in a forked child; returns (status, value): ok / hang / died / harness"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _limits()
            try:
                v = ("ok", fn())
            except HarnessError as e:
                v = ("harness", str(e)[-3000:])
            _send(w, v)
        except BaseException:
            traceback.print_exc(file=sys.__stderr__)
        finally:
            real.os_._exit(0)
    os.close(w)
    end = real.monotonic() + timeout
    buf = b""
    status = None
    while True:
        left = end - real.monotonic()
        if left <= 0:
            status = "hang"
            break
        rd, _, _ = select.select([r], [], [], min(left, 1.0))
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    if status == "hang":
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    os.close(r)
    if len(buf) >= 4:
        n = struct.unpack("<I", buf[:4])[0]
        if len(buf) >= 4 + n:
            return pickle.loads(buf[4:4 + n])
    return (status or "died", None)


def keys(r):
    return {v["key"] for v in r.violations}


def minimise(check, scn, key, budget):
    """greedy: any simpler scenario that still violates in the same way.  Runs in a child."""
    end = real.monotonic() + budget
    best = scn
    tried = 0

    def fails(c):
        try:
            r = run_scenario(check, c)
        except HarnessError:
            return None
        return r if key in keys(r) else None

    r = fails(best)
    if r is None:
        return best, 0
    # turn a seeded schedule into the explicit list of switches it took
    sc = best.get("sched")
    if isinstance(sc, dict) and "switches" not in sc and r.switches is not None:
        c = dict(best)
        c["sched"] = {"switches": r.switches}
        r2 = fails(c)
        if r2 is not None:
            best, r = c, r2
    improved = True
    while improved and real.monotonic() < end:
        improved = False
        for c in candidates(check, best):
            if real.monotonic() > end:
                break
            tried += 1
            r2 = fails(c)
            if r2 is not None:
                best, r = c, r2
                improved = True
                break
    return best, tried


def candidates(check, scn):
    sc = scn.get("sched")
    for c in check.shrink(scn):
        if size(c) < size(scn):
            yield c
    if isinstance(sc, dict) and "switches" in sc:
        for l in without(sc["switches"]):
            c = dict(scn)
            c["sched"] = {"switches": l}
            yield c


def size(scn):
    return len(json.dumps(scn)), json.dumps(scn)


def without(l):
    """the list with big, then small pieces removed"""
    n = len(l)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield l[:i] + l[i + k:]
        k //= 2


def drop_items(scn, *names):
    """candidates with pieces of the named lists removed"""
    for name in names:
        l = scn.get(name)
        if isinstance(l, list) and l:
            for x in without(l):
                c = dict(scn)
                c[name] = x
                yield c


# ---------------------------------------------------------------- replay files
def replay_path(check, key):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(key.encode()).hexdigest()[:8]
    return os.path.join(d, "%s-%s.json" % (check.ID, h))


def replay(check, path):
    with real.open(path) as f:
        doc = json.load(f)
    scn = doc["scenario"]
    st, r = in_child(lambda: run_scenario(check, scn), HANG)
    if st == "harness":
        real.print("replay: machinery error\n%s" % r)
        return 2
    if st in ("hang", "died"):
        real.print("replay: the run %s" % ("did not finish in %d s" % HANG if st == "hang" else "died"))
        found = {st}
        dig = None
    else:
        found = keys(r)
        dig = r.digest
        for v in r.violations:
            real.print("  %s: %s" % (v["key"], v["msg"]))
    same = doc["key"] in found
    real.print("replay: expected %s, got %s; event log %s (recorded %s)" % (
        doc["key"], sorted(found) or "no violation", dig, doc.get("digest")))
    if same and doc.get("digest") and dig != doc["digest"]:
        real.print("replay: same violation, different event log")
    if found:
        real.print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    return 0


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        with real.open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    parts = dict(x.split("=", 1) for x in line.split()[1:3])
                    out.append((parts["property"], parts["key"], line.split(None, 3)[3]))
    return out


def digest_all(check, seed, runs, out):
    """selftest: print index, digest of every run"""
    for i in range(runs):
        r = run_scenario(check, scenario(check, seed, i, "quick"))
        out.write("%d %s %d\n" % (i, r.digest, len(r.violations)))


def main(check, tier, seed, workers=None, runs=None, budget=None, evidence=True, verbose=False):
    t0 = real.monotonic()
    workers = workers or int(os.environ.get("VERIF_WORKERS", 0)) or len(os.sched_getaffinity(0))
    runs = runs or check.RUNS[tier]
    if budget is None:
        budget = 480.0 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", 3600))
    agg = explore(check, seed, tier, runs, workers, budget, verbose)
    rc = 0
    reported = []
    known = {k: d for (p, k, d) in known_findings() if p == check.ID}
    by_key = {}
    for i, viol in sorted(agg["violations"]):
        for v in viol:
            by_key.setdefault(v["key"], (i, v))
    hits = {k: n for k, n in collections.Counter(v["key"] for _, vs in agg["violations"] for v in vs).items()}
    unreproduced = []
    min_budget = 25.0 if tier == "quick" else 120.0
    for key, (i, v) in sorted(by_key.items(), key=lambda kv: kv[1][0]):
        if key in known:
            continue
        if len(reported) >= 3:
            break
        scn = scenario(check, seed, i, tier)
        st, got = in_child(lambda: minimise(check, scn, key, min_budget), min_budget + HANG)
        small, tried = got if st == "ok" else (scn, 0)
        path = replay_path(check, key)
        ok = False
        for cand in (small, scn):
            st, r = in_child(lambda: run_scenario(check, cand), HANG)
            if st == "ok" and key in keys(r):
                msg = next(x["msg"] for x in r.violations if x["key"] == key)
                doc = {"property": check.ID, "key": key, "message": msg, "seed": seed, "index": i, "tier": tier,
                       "digest": r.digest, "minimised": cand is small, "candidates_tried": tried, "scenario": cand}
                with real.open(path, "w") as f:
                    json.dump(doc, f, indent=1)
                p = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), check.ID, "--replay", path],
                                   capture_output=True, text=True, timeout=HANG * 3)
                if p.returncode == 1:
                    ok = True
                    break
        if ok:
            real.print("%s: %s" % (key, doc["message"]))
            real.print("VIOLATION property=%s replay=%s" % (check.ID, path), flush=True)
            reported.append({"key": key, "message": doc["message"], "index": i, "replay": path})
            rc = 1
        else:
            unreproduced.append((key, i, v["msg"]))
    for k, d in sorted(known.items()):
        if k in by_key:
            real.print("KNOWN-FINDING: property=%s %s" % (check.ID, d))
    for i, how in agg["hangs"][:2]:
        if rc:
            break
        scn = scenario(check, seed, i, tier)
        st, r = in_child(lambda: run_scenario(check, scn), HANG)
        if st in ("hang", "died"):
            path = replay_path(check, st)
            with real.open(path, "w") as f:
                json.dump({"property": check.ID, "key": st, "message": "run %d: %s" % (i, st), "seed": seed,
                           "index": i, "tier": tier, "minimised": False, "scenario": scn}, f, indent=1)
            real.print("run %d of seed %s %s" % (i, seed, "does not finish" if st == "hang" else "kills the process"))
            real.print("VIOLATION property=%s replay=%s" % (check.ID, path), flush=True)
            reported.append({"key": st, "message": "run %d" % i, "index": i, "replay": path})
            rc = 1
    if unreproduced and not rc:
        real.print("machinery: violations that did not reproduce: %s" % unreproduced[:3])
        rc = 2
    if agg["harness"] and not rc:
        real.print("machinery error in run %s:\n%s" % agg["harness"][0])
        rc = 2
    if agg["done"] == 0 and not rc:
        real.print("machinery: nothing ran")
        rc = 2
    wall = real.monotonic() - t0
    if evidence:
        samples = []
        for i in list(range(0, min(runs, 3))):
            try:
                samples.append({"index": i, "scenario": json.dumps(scenario(check, seed, i, tier))[:1500]})
            except Exception as e:
                samples.append({"index": i, "scenario": "error %s" % e})
        rate = agg["done"] / max(agg["wall"], 1e-9) * 3600
        ev = {
            "property": check.ID, "tier": tier, "seed": int(seed), "level": "exploration",
            "coverage": {
                "evaluations": agg["done"], "distinct_nontrivial": len(agg["digests"]), "rule": check.RULE,
                "samples": samples, "stopped_early": agg["truncated"],
                "runs_per_hour": round(rate), "seeds": "one derived seed per run, so as many seeds as runs per hour",
                "simulated_seconds": round(agg["simtime"], 1),
                "events": agg["steps"],
                "faults_fired": dict(sorted(agg["fired"].items())),
                "probes": dict(sorted(agg["probes"].items())),
                "task_switches": agg["nswitch"],
                "distinct_switch_sites": len(agg["states"]),
                "distinct_measure": "different event logs (operations, outcomes, system calls, faults, task switches)",
                "determinism_reruns": agg["redo"], "determinism_mismatches": agg["mismatch"][:20],
                "workers": workers,
                "real_components": check.REAL, "stubbed_components": check.STUB,
                "violation_keys": hits,
            },
            "assumptions": check.ASSUMPTIONS,
            "wall_s": round(wall, 1),
            "violations": len(reported),
            "violation_details": reported,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with real.open(os.path.join(VERIF, "evidence", "%s.json" % check.ID), "w") as f:
            json.dump(ev, f, indent=1)
    real.print("%s %s seed=%s: %d runs (%d distinct), %.0f simulated s, %d faults fired, %d switches, %.1f s wall%s" % (
        check.ID, tier, seed, agg["done"], len(agg["digests"]), agg["simtime"], sum(agg["fired"].values()),
        agg["nswitch"], wall, "" if rc == 0 else (" VIOLATED" if rc == 1 else " ERROR")))
    if agg["mismatch"]:
        real.print("note: %d of %d re-executed runs had a different event log" % (len(agg["mismatch"]), agg["redo"]))
    return rc
