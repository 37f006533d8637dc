"""
Determinism self-test: the same seeds in several processes, at two worker counts and under two
PYTHONHASHSEED values must give the same execution digests, statuses and verdicts.

usage: tools/selftest.py [runs per property] [first VERIF_SEED] [properties...]
"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


def records(prop, n, seed, workers, hashseed):
    env = {**os.environ, "PYTHONHASHSEED": str(hashseed), "VERIF_SEED": str(seed), "PYTHONPATH": VERIF}
    code = ("import sys, json; sys.argv=['x']; from sim.boot import boot; boot(); "
            "from sim import driver, main; import importlib; "
            f"w=importlib.import_module('sim.workloads.'+main.CHECKS['{prop}'][0]); "
            "w.warm() if hasattr(w,'warm') else None; "
            f"a=driver.run_batch(w,'{prop}',{seed},{n},'quick',workers={workers},limit=90.0,fullrec=True); "
            "json.dump({str(k):v for k,v in sorted(a['records'].items())}, sys.stdout, default=str)")
    p = subprocess.run([PY, "-c", code], env=env, cwd=VERIF, capture_output=True, text=True)
    if p.returncode:
        raise SystemExit(p.stderr[-2000:])
    return json.loads(p.stdout[p.stdout.index("{"):])


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    props = sys.argv[3:] or [f"C{i:02d}" for i in range(1, 19)]
    bad = 0
    for p in props:
        base = records(p, n, seed, 8, 0)
        d = 0
        for workers, hs in ((8, 0), (3, 1), (5, 12345)):
            other = records(p, n, seed, workers, hs)
            for k in base:
                if base[k] != other.get(k):
                    d += 1
                    if d <= 3:
                        print(p, "run", k, "workers", workers, "hashseed", hs, base[k], other.get(k))
        bad += d
        print(f"{p}: {n} runs x 4, {d} differences", flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
