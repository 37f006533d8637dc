"""
Seeded search over simulated runs: worker processes, one forked child per
run, aggregation, minimisation, replay files, evidence.
"""
import importlib
import json
import mmap
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time as _time
import traceback
from collections import Counter

from . import core

_mono = _time.monotonic
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")
_REAL_FORK = os.fork
_REAL_KILL = os.kill


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class RunError(Exception):
    pass


# ----------------------------------------------------------------- one run
def fork_call(fn, limit):
    """run fn() in a forked child; (status, value)"""
    r, w = os.pipe()
    pid = _REAL_FORK()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa
                out = ("exc", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
            data = pickle.dumps(out)
            mv = memoryview(struct.pack("<Q", len(data)) + data)
            while mv:
                k = os.write(w, mv)
                mv = mv[k:]
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = _mono() + limit
    need = None
    status = None
    try:
        while True:
            left = end - _mono()
            if left <= 0:
                status = ("wall", None)
                break
            rl, _, _ = select.select([r], [], [], left)
            if not rl:
                continue
            c = os.read(r, 1 << 16)
            if not c:
                status = ("died", None)
                break
            buf += c
            if need is None and len(buf) >= 8:
                need = struct.unpack("<Q", buf[:8])[0] + 8
            if need is not None and len(buf) >= need:
                status = pickle.loads(buf[8:need])
                break
    finally:
        os.close(r)
        if status is None or status[0] in ("wall", "died"):
            try:
                _REAL_KILL(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        try:
            _, st = os.waitpid(pid, 0)
        except ChildProcessError:
            st = 0
    if status[0] == "died":
        status = ("died", st)
    return status


class Ctx:
    """handed to a workload: phases and scratch space of one run"""

    def __init__(self, choices, scratch, limit):
        self.ch = choices
        self.scratch = scratch
        self.limit = limit


def quiet():
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn, 2)
    os.close(dn)


def single_run(workload, case, seed, overrides, limit):
    """one simulated run in a forked child -> outcome dict"""
    scratch = tempfile.mkdtemp(prefix="vsim_", dir=scratch_base())

    def body():
        quiet()
        ch = core.Choices(seed, overrides)
        out = workload.execute(case, Ctx(ch, scratch, limit))
        out.setdefault("taken", dict(ch.taken) if overrides is None else dict(ch.over))
        return out
    try:
        st, val = fork_call(body, limit)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if st == "ok":
        return val
    return {"status": "error:" + st, "detail": val, "violations": [], "stats": {}}


def case_for(workload, prop, vseed, i, tier):
    rng = random.Random(f"{vseed}|{prop}|{i}")
    return workload.plan(rng, prop, tier, i), f"{vseed}|{prop}|{i}"


# ----------------------------------------------------------------- batch
def worker_main(workload, prop, vseed, idxs, tier, wfd, limit, stop_at, fullrec, found):
    agg = {"runs": 0, "stat": Counter(), "faults": Counter(), "reach": Counter(),
           "num": Counter(), "digests": set(), "interleavings": set(), "viol": [],
           "errors": [], "samples": [], "peak": Counter(), "records": {}, "nontrivial": 0}
    known = load_known()
    kept = Counter()
    for i in idxs:
        if found is not None and found[0] and _mono() > found[0] + found[1]:
            agg["num"]["cut_after_violation"] += 1
            break
        if _mono() > stop_at:
            agg["num"]["cut_by_wall_budget"] += 1
            break
        try:
            case, seed = case_for(workload, prop, vseed, i, tier)
            out = single_run(workload, case, seed, None, limit)
            if out["status"] in ("error:wall", "wall"):
                out = single_run(workload, case, seed, None, limit * 4)
        except Exception as e:  # noqa
            out = {"status": "error:harness", "detail": traceback.format_exc(),
                   "violations": [], "stats": {}}
            case, seed = {}, ""
        agg["runs"] += 1
        agg["stat"][out["status"]] += 1
        if out["status"].startswith("error") or out["status"] in ("wall", "internal"):
            agg["errors"].append((i, out["status"], str(out.get("detail"))[:2000]))
        st = out.get("stats", {})
        agg["faults"].update(st.get("faults", {}))
        agg["reach"].update(st.get("reach", {}))
        agg["num"].update(st.get("num", {}))
        for k, v in st.get("peak", {}).items():
            agg["peak"][k] = max(agg["peak"][k], v)
        if out.get("digest") is not None:
            agg["digests"].add(out["digest"])
        if st.get("nontrivial"):
            agg["nontrivial"] += 1
            if out.get("digest") is not None:
                agg["interleavings"].add(out["digest"])
        if fullrec:
            agg["records"][i] = (out.get("digest"), out["status"],
                                 [(v["prop"], v["kind"]) for v in out["violations"]])
        mine = [v for v in out["violations"] if v["prop"] == prop]
        kinds = {(v["kind"], v.get("site", "")) for v in mine}
        if any(kept[k] < 8 for k in kinds):
            kept.update(kinds)
            agg["viol"].append({"i": i, "seed": seed, "case": case,
                                "taken": out.get("taken", {}), "v": mine})
        if found is not None and not found[0] and \
                any(match_known(prop, v, known) is None for v in mine):
            found[0] = _mono()
        if len(agg["samples"]) < 2 and (st.get("nontrivial") or i < 2):
            agg["samples"].append({"i": i, "case": compact(case), "status": out["status"],
                                   "digest": out.get("digest"),
                                   "faults": dict(st.get("faults", {})),
                                   "trace_tail": (out.get("trace") or [])[-6:]})
    data = pickle.dumps(agg)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def compact(case):
    s = json.dumps(case, default=str)
    return case if len(s) < 1500 else s[:1500] + "..."


def merge(a, b):
    for k in ("stat", "faults", "reach", "num"):
        a[k].update(b[k])
    for k, v in b["peak"].items():
        a["peak"][k] = max(a["peak"][k], v)
    a["runs"] += b["runs"]
    a["nontrivial"] += b["nontrivial"]
    for k in ("digests", "interleavings"):
        a[k] |= b[k]
    for k in ("viol", "errors", "samples"):
        a[k] += b[k]
    a["records"].update(b["records"])
    return a


def run_batch(workload, prop, vseed, n, tier, *, workers=8, limit=30.0, wall=600.0,
              start=0, fullrec=False, linger=None):
    """linger: seconds for which the search goes on after a first unlisted violation (None: to
    the end); found[] is shared by the workers"""
    stop_at = _mono() + wall
    parts = []
    found = None
    if linger is not None:
        found = memoryview(mmap.mmap(-1, 16)).cast("d")
        found[1] = linger
    for w in range(workers):
        r, wfd = os.pipe()
        pid = _REAL_FORK()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker_main(workload, prop, vseed, range(start + w, start + n, workers),
                            tier, wfd, limit, stop_at, fullrec, found)
            except BaseException:  # noqa
                traceback.print_exc()
                code = 4
            finally:
                os._exit(code)
        os.close(wfd)
        parts.append((pid, r))
    agg = None
    for pid, r in parts:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if not data:
            raise RunError(f"worker died with status {st}")
        part = pickle.loads(data)
        agg = part if agg is None else merge(agg, part)
    agg["viol"].sort(key=lambda v: v["i"])
    agg["errors"].sort()
    return agg


# ----------------------------------------------------------------- minimise
def same(out, target):
    return any(v["prop"] == target["prop"] and v["kind"] == target["kind"]
               for v in out["violations"])


def try_run(workload, case, over, limit):
    return single_run(workload, case, "replay", over, limit)


def minimise(workload, case, taken, target, limit, budget_s=60.0):
    end = _mono() + budget_s
    tries = 0
    best = (case, dict(taken))
    base = try_run(workload, case, best[1], limit)
    if not same(base, target):
        return None

    def ok(c, o):
        nonlocal tries
        if _mono() > end:
            return False
        tries += 1
        return same(try_run(workload, c, o, limit), target)

    changed = True
    while changed and _mono() < end:
        changed = False
        # shrink the case
        for c in workload.shrink(best[0]):
            if _mono() > end:
                break
            if ok(c, best[1]):
                best = (c, best[1])
                changed = True
                break
        if changed:
            continue
        # ddmin over the recorded non-default decisions
        keys = list(best[1])
        size = max(1, len(keys) // 2)
        while size >= 1 and keys and _mono() < end:
            i = 0
            hit = False
            while i < len(keys) and _mono() < end:
                cand = keys[:i] + keys[i + size:]
                o = {k: best[1][k] for k in cand}
                if ok(best[0], o):
                    keys = cand
                    best = (best[0], o)
                    hit = True
                    changed = True
                else:
                    i += size
            if size == 1 and not hit:
                break
            size = max(1, size // 2) if not hit or size > 1 else 1
            if size == 1 and hit and len(keys) > 200:
                break
    return best[0], best[1], tries


def write_replay(prop, wname, case, over, target, out, idx, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{idx}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "workload": wname, "found_by_seed": seed,
                   "violation": target, "case": case, "decisions": over,
                   "digest": out.get("digest"),
                   "trace": (out.get("trace") or [])[:400],
                   "history": [repr(x) for x in (out.get("history") or [])[:400]]},
                  f, indent=1, default=str)
    return path


# ----------------------------------------------------------------- findings
def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)["entries"]
    except FileNotFoundError:
        return []


def match_known(prop, v, entries):
    for e in entries:
        if e.get("status") == "known" and e["property"] == prop and \
                v["kind"] == e["match"]["kind"] and \
                v.get("site", "") == e["match"].get("site", ""):
            return e
    return None


# ----------------------------------------------------------------- check
def outcome(sim, violations, **extra):
    d = {"status": sim.status, "detail": sim.detail, "violations": violations,
         "digest": sim.crc, "trace": sim.trace, "history": sim.log,
         "stats": {"faults": dict(sim.fault_counts), "reach": dict(sim.reach),
                   "num": {"steps": sim.steps, "switches": sim.switches,
                           "line_preemptions": sim.line_preempts,
                           "sim_seconds": sim.now, "tasks": len(sim.tasks),
                           "sim_processes": len(sim.procs)},
                   "peak": {"live_children": sim.live_children_peak},
                   "nontrivial": sim.switches > 0}}
    d.update(extra)
    return d


def check(prop, wname, tier, n, *, limit=30.0, wall=600.0, workers=8, level="exploration",
          rule="", assumptions=(), components=None, extra=None):
    """run the check; returns the process exit code"""
    t0 = _mono()
    workload = importlib.import_module(f"sim.workloads.{wname}")
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    n = int(os.environ.get("VERIF_RUNS", n))
    print(f"property={prop} workload={wname} tier={tier} VERIF_SEED={vseed} runs={n}", flush=True)
    if hasattr(workload, "warm"):
        workload.warm()
    agg = run_batch(workload, prop, vseed, n, tier, workers=workers, limit=limit, wall=wall,
                    linger=8.0 if tier == "quick" else 120.0)
    known = load_known()
    reported = []
    suppressed = {}
    seen_kinds = set()
    for v in agg["viol"]:
        for one in v["v"]:
            e = match_known(prop, one, known)
            if e is not None:
                suppressed.setdefault(e["id"], e)
                continue
            kk = (one["kind"], one.get("site", ""))
            if kk in seen_kinds or len(reported) >= 3:
                continue
            seen_kinds.add(kk)
            reported.append((v, one))
    for e in known:
        if e.get("status") == "known" and e["property"] == prop and e["id"] in suppressed:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    lines = []
    nviol = 0
    for v, one in reported:
        m = minimise(workload, v["case"], v["taken"], one, limit,
                     budget_s=(15.0 if nviol else 30.0) if tier == "quick" else 240.0)
        if m is None:
            print(f"note: run {v['i']} reported {one['kind']} but its recorded decisions "
                  f"did not reproduce it; searching on", flush=True)
            # fall back to the literal seed, which must reproduce
            out = single_run(workload, v["case"], v["seed"], None, limit)
            if not same(out, one):
                agg["errors"].append((v["i"], "error:nonreproducible", one["kind"]))
                continue
            case, over, tries = v["case"], v["taken"], 0
        else:
            case, over, tries = m
            out = try_run(workload, case, over, limit)
        tgt = next(x for x in out["violations"] if x["prop"] == prop and x["kind"] == one["kind"])
        path = write_replay(prop, wname, case, over, tgt, out, nviol, v["seed"])
        nviol += 1
        print(f"violation: {tgt['kind']}: {tgt['msg']}")
        print(f"  seed={v['seed']} minimised with {tries} runs to {len(over)} decisions; "
              f"case={json.dumps(case, default=str)[:600]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    wall_s = _mono() - t0
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["interleavings"]),
        "rule": rule or workload.RULE,
        "samples": agg["samples"][:4],
        "simulated_runs": agg["runs"],
        "runs_per_hour": int(agg["runs"] / max(wall_s, 1e-6) * 3600),
        "simulated_seconds": round(float(agg["num"].get("sim_seconds", 0.0)), 3),
        "scheduler_steps": agg["num"].get("steps", 0),
        "task_switches": agg["num"].get("switches", 0),
        "line_preemptions": agg["num"].get("line_preemptions", 0),
        "faults_injected": dict(agg["faults"]),
        "reach_probes": dict(agg["reach"]),
        "run_status": dict(agg["stat"]),
        "distinct_execution_digests": len(agg["digests"]),
        "digest_measure": "CRC of the full sequence of (task, yield kind, detail), switches and faults",
        "components": components or getattr(workload, "COMPONENTS", {}),
        "other_counters": {k: v for k, v in agg["num"].items()
                           if k not in ("steps", "switches", "line_preemptions", "sim_seconds")},
        "known_findings_seen": sorted(suppressed),
    }
    if extra:
        cov.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": vseed, "level": level,
                   "coverage": cov, "assumptions": list(assumptions) or list(getattr(workload, "ASSUMPTIONS", [])),
                   "wall_s": round(wall_s, 2), "violations": nviol}, f, indent=1, default=str)
    print(f"runs={agg['runs']} distinct={len(agg['interleavings'])} steps={agg['num'].get('steps', 0)} "
          f"sim_s={agg['num'].get('sim_seconds', 0):.1f} faults={dict(agg['faults'])} "
          f"status={dict(agg['stat'])} wall={wall_s:.1f}s")
    if lines:
        for ln in lines:
            print(ln)
        return 1
    if agg["errors"]:
        for e in agg["errors"][:5]:
            print("HARNESS-ERROR", e[0], e[1], e[2])
        return 2
    if agg["runs"] == 0 or agg["stat"].get("unsupported", 0) > 0.5 * agg["runs"]:
        print("HARNESS-ERROR: no run could be simulated")
        return 2
    return 0


def replay(path, limit=120.0):
    with open(path) as f:
        r = json.load(f)
    workload = importlib.import_module(f"sim.workloads.{r['workload']}")
    if hasattr(workload, "warm"):
        workload.warm()
    out = try_run(workload, r["case"], r["decisions"], limit)
    for v in out["violations"]:
        print(f"{v['prop']} {v['kind']}: {v['msg']}")
    hit = same(out, r["violation"])
    print("digest", out.get("digest"), "recorded", r["digest"], "status", out["status"],
          "reproduced" if hit else "NOT reproduced")
    if os.environ.get("VERIF_TRACE"):
        for x in out.get("trace") or []:
            print("  ", x)
        for x in out.get("history") or []:
            print("  H", x)
    if hit:
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0
