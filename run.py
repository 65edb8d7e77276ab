#!/opt/venv/bin/python
"""run.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--replay FILE] [--digests N] [--verbose]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {"MPLBACKEND": "Agg", "PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"), "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "LC_ALL": "C.UTF-8",
        "PYTHONUTF8": "0", "VERIF_REEXEC": "1"}


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--digests", type=int)
    ap.add_argument("--index", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    import tempfile, shutil
    if os.environ.get("VERIF_REEXEC") != "1":
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and k != "RAYTRACING_EXPERT"}
        env.update(WANT)
        scratch = tempfile.mkdtemp(prefix="verif-home-")
        env["HOME"] = scratch
        env["MPLCONFIGDIR"] = scratch
        py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
        import subprocess
        try:
            rc = subprocess.call([py, os.path.abspath(__file__)] + sys.argv[1:], env=env)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc >= 0 else 2)
    sys.path.insert(0, HERE)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    import importlib
    from sim import world, driver, real
    try:
        world.install()
        check = importlib.import_module("checks." + a.id.lower())
        if hasattr(check, "setup"):
            check.setup()
    except SyntaxError as e:
        real.print("the code under test does not compile: %s" % e)
        sys.exit(2)
    if a.replay:
        rc = driver.replay(check, a.replay)
    elif a.digests:
        driver.digest_all(check, a.seed, a.digests, sys.stdout)
        rc = 0
    elif a.index is not None:
        import json
        scn = driver.scenario(check, a.seed, a.index, a.tier)
        real.print(json.dumps(scn))
        r = driver.run_scenario(check, scn)
        real.print(r.digest, r.nontrivial, dict(r.fired), dict(r.probes))
        for v in r.violations:
            real.print(v["key"], v["msg"])
        rc = 1 if r.violations else 0
    else:
        rc = driver.main(check, a.tier, a.seed, a.workers, a.runs, a.budget, not a.no_evidence, a.verbose)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
