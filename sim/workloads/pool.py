"""
C01, C02, C03: the timeout-capable process pool, real dispatcher code under
simulated threads, processes, pipes, signals and time.  Job bodies are stubs
whose duration, result size and failure mode the case decides.
"""
import hashlib
import threading

from .. import core, patch
from ..core import active
from ..driver import outcome

RULE = ("one case = pool size, job list (duration, result size, ending), timeout, scheduler and "
        "fault settings drawn from the run seed; non-trivial = at least one task switch; distinct = "
        "distinct digest of the complete yield/switch/fault sequence")
ASSUMPTIONS = [
    "multiprocessing start method is fork (the Linux default of this Python)",
    "computation between yield points takes no virtual time; durations are explicit",
    "pipes follow Linux semantics: 64 KiB buffer, EOF when the last writer closes",
]
COMPONENTS = {"real": ["smote_variants/evaluation/_parallelization.py", "threading.Condition/Event",
                       "pickle"],
              "simulated": ["threads", "processes", "pipes/queues", "locks", "signals", "clock"],
              "stub": ["job bodies"]}


def warm():
    patch.enable_lines(["smote_variants.evaluation._parallelization"])


# ------------------------------------------------------------------ jobs
def payload(i, rnd, size, kind):
    if kind == "none":
        return None
    if kind == "falsy":
        return [0, 0.0, "", [], {}, False][(i + rnd) % 6]
    if kind == "same":
        return {"same": True}
    seedb = hashlib.md5(f"{i}/{rnd}".encode()).digest()
    return {"job": i, "round": rnd, "data": (seedb * (size // 16 + 1))[:size]}


class Unpicklable:
    def __reduce__(self):
        raise TypeError("cannot pickle this result")


class BadResult(Exception):
    """an exception object used as a result: it can be sent but not rebuilt"""

    def __init__(self, code, text):
        super().__init__(text)
        self.code = code


class Unloadable:
    def __init__(self, err):
        self.err = err

    def __reduce__(self):
        return load_bad, (self.err,)


def load_bad(err):
    raise {"Attr": AttributeError, "Import": ImportError, "EOF": EOFError, "OS": OSError}[err]("cannot rebuild")


def body(spec, rnd):
    s, t = active()
    i = spec["i"]
    s.note("start", i, rnd, t.proc.name)
    d = spec["d"]
    parts = spec.get("parts", 1)
    for k in range(parts):
        s.sleep(d / parts)
        s.note("effect", i, rnd, k)
        s.point("effect")
    if spec["end"] == "raise":
        raise [ValueError, KeyError, MemoryError][i % 3](f"job {i}")
    if spec["end"] == "exit":
        raise SystemExit(i % 3)
    s.note("finish", i, rnd)
    if spec["end"] == "unpicklable":
        return Unpicklable()
    if spec["end"] == "unloadable":
        return BadResult(i, "x") if i % 2 else Unloadable(["Attr", "Import", "EOF", "OS"][(i // 2 + spec["parts"]) % 4])
    return payload(i, rnd, spec["size"], spec["ret"])


def apply_fn(task):
    return body(task[0], task[1])


def make_job(spec, rnd):
    import smote_variants.evaluation as ev

    class StubJob(ev.TimeoutJobBase):
        def __init__(self, spec, rnd):
            self.spec = spec
            self.rnd = rnd

        def execute(self):
            return body(self.spec, self.rnd)

        def timeout(self):
            s, t = active()
            s.note("fallback", self.spec["i"], self.rnd, t.proc.name)
            s.point("fallback")
            if self.spec.get("fbslow"):
                s.sleep(self.spec["fbslow"])
            return {"fallback": self.spec["i"], "round": self.rnd}
    return StubJob(spec, rnd)


# ------------------------------------------------------------------ cases
def plan(rng, prop, tier, i):
    n_jobs = rng.choice([1, 2, 2, 3, 3, 4, 5, 8])
    nj = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
    if rng.random() < 0.3:
        nj = min(nj, n_jobs + rng.choice([-1, 0, 1]) if n_jobs > 1 else nj)
        nj = max(nj, 0)
    mode = rng.choice(["plain", "plain", "crash", "forkfail", "mixed", "stall", "threadfail"])
    if prop == "C03":
        mode = rng.choice(["plain", "plain", "plain", "crash"])
    has_to = rng.random() < (0.85 if prop == "C03" else 0.45)
    T = rng.choice([0.5, 1.0, 2.0, 10.0]) if has_to else rng.choice([None, -1, 0, -1.0, -0.5, -1])
    base = T if has_to else 1.0
    jobs = []
    uniform = rng.random() < 0.25
    for j in range(nj):
        r = rng.random()
        if has_to and r < 0.25:
            d = base * (1 + rng.choice([1e-6, 1e-3, 0.01, 0.5, 3, 100]))     # overruns
        elif has_to and r < 0.5:
            d = base * (1 - rng.choice([1e-6, 1e-3, 0.01, 0.1]))             # just fits
        elif uniform:
            d = base * 0.5
        else:
            d = rng.choice([0.0, 0.0, base * 0.1, base * 0.3, base * 0.5, base * 0.9])
            if not has_to:
                d = rng.choice([0.0, 0.1, 0.5, 1.0, 3.0, 1000.0])
        size = rng.choice([0, 10, 100, 4000, 5000, 20000, 65000, 65536, 70000, 200000, 1000])
        end = "ok"
        if rng.random() < 0.12:
            end = rng.choice(["raise", "exit", "unpicklable", "unloadable"])
        jobs.append({"i": j, "d": d, "size": size, "end": end,
                     "ret": rng.choice(["dict", "dict", "dict", "dict", "none", "falsy", "same"]),
                     "parts": rng.choice([1, 1, 2, 3]),
                     "fbslow": rng.choice([0, 0, 0, 0.25])})
    policy = rng.choice(["random", "random", "prio"])
    cfg = {"policy": policy, "p_switch": rng.choice([0.02, 0.1, 0.3, 0.6]),
           "p_line": rng.choice([0.0, 0.02, 0.1, 0.3]),
           "p_change": rng.choice([0.0, 0.02, 0.1]),
           "p_stall": 0.02 if mode == "stall" else 0.0,
           "kill_delay": rng.choice([0, 3, 12]), "p_kill_delay": 0.7,
           "max_steps": 60000, "deaf": rng.random() < 0.25, "faults": {"pipe_short": rng.choice([0, 0.2])}}
    if mode in ("crash", "mixed"):
        cfg["faults"]["worker_crash"] = rng.choice([0.01, 0.04, 0.1])
    if mode in ("forkfail", "mixed"):
        cfg["faults"]["fork_fail"] = rng.choice([0.1, 0.4])
    if mode == "threadfail" or (mode == "mixed" and rng.random() < 0.3):
        cfg["faults"]["thread_fail"] = rng.choice([0.05, 0.2, 0.5])
    if mode == "mixed" and rng.random() < 0.3:
        cfg["faults"]["emfile_pipe"] = 0.2
    return {"n_jobs": n_jobs, "jobs": jobs, "timeout": T, "mode": mode,
            "api": rng.choice(["execute", "execute", "apply"]),
            "rounds": rng.choice([1, 1, 1, 2, 3]), "cfg": cfg,
            "reuse": int(rng.random() < 0.4), "pools": 2 if rng.random() < 0.12 and not cfg["faults"].get("thread_fail") else 1}


def shrink(case):
    jobs = case["jobs"]
    if case["rounds"] > 1:
        yield {**case, "rounds": 1}
    if case.get("pools", 1) > 1:
        yield {**case, "pools": 1}
    if case.get("reuse"):
        yield {**case, "reuse": 0}
    if len(jobs) > 4:
        yield {**case, "jobs": renum(jobs[: len(jobs) // 2])}
        yield {**case, "jobs": renum(jobs[len(jobs) // 2:])}
    for k in range(len(jobs)):
        yield {**case, "jobs": renum(jobs[:k] + jobs[k + 1:])}
    if case["n_jobs"] > 1:
        yield {**case, "n_jobs": case["n_jobs"] - 1}
    for k, j in enumerate(jobs):
        for f, v in (("end", "ok"), ("ret", "dict"), ("parts", 1), ("fbslow", 0), ("size", 10), ("d", 0.0)):
            if j[f] != v:
                yield {**case, "jobs": jobs[:k] + [{**j, f: v}] + jobs[k + 1:]}


def renum(jobs):
    return [{**j, "i": k} for k, j in enumerate(jobs)]


# ------------------------------------------------------------------ run
def execute(case, ctx):
    import smote_variants.evaluation as ev
    cfg = core.Cfg(**case["cfg"])
    sim = core.Sim(ctx.ch, cfg)
    jobs = case["jobs"]
    T = case["timeout"]
    has_to = T is not None and T > 0
    got = {}
    n_pools = case.get("pools", 1)
    rounds = case["rounds"]

    def client(k):
        """one user of one pool; rounds of pool k are numbered from k * rounds"""
        pool = ev.ThreadTimeoutProcessPool(case["n_jobs"], T)
        kept = None
        for rnd in range(k * rounds, (k + 1) * rounds):
            t_begin = sim.now
            mark = sim.steps
            if n_pools == 1:
                sim.live_children_peak = 0
            sim.note("begin", rnd)
            if case["api"] == "apply":
                todo = kept if kept is not None else [[j, rnd] for j in jobs]
                if case.get("reuse"):
                    # the same list again
                    kept = todo
                    for task in kept:
                        task[1] = rnd
                res = pool.apply(apply_fn, todo)
            else:
                todo = kept if kept is not None else [make_job(j, rnd) for j in jobs]
                if case.get("reuse"):
                    # the same job objects again
                    kept = todo
                    for job in kept:
                        job.rnd = rnd
                res = pool.execute(todo)
            sim.note("return", rnd)
            got[rnd] = {"res": list(res) if isinstance(res, (list, tuple)) else res, "obj": res,
                        "t": sim.now - t_begin, "steps": sim.steps - mark,
                        "live": [p.name for p in sim.live_children()] if n_pools == 1 else [],
                        "peak": sim.live_children_peak}

    def root():
        if n_pools == 1:
            client(0)
        else:
            sim.live_children_peak = 0
            ths = [threading.Thread(target=client, args=(k,), name=f"client{k}") for k in range(n_pools)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            for g in got.values():
                g["live"] = [p.name for p in sim.live_children()]
        # linger: anything still running would now show itself
        sim.sleep(2000.0 + sum(j["d"] for j in jobs))

    sim.run(root, ctx.limit)
    V = []

    def viol(prop, kind, msg):
        V.append({"prop": prop, "kind": kind, "msg": msg})

    if sim.status in ("deadlock", "steps"):
        viol("C02", "hang", f"execution never finishes ({sim.status}): {sim.detail}")
    if sim.status == "ok" and len(got) < rounds * n_pools:
        # resource exhaustion inside the dispatcher itself may surface as an error
        why = f"{type(sim.root_exc).__name__}: {sim.root_exc}" if sim.root_exc else sim.thread_errors[:1]
        # and no job can be executed without a single thread
        last = max((e[0] for e in sim.log if e[2] == "begin"), default=0)
        none = sim.fault_counts.get("thread_fail") and not any(e[2] == "start" and e[0] > last for e in sim.log)
        if not none:
            viol("C01", "raised", f"pool raised {why}")
    for rnd, g in sorted(got.items()):
        check_round(case, sim, rnd, g, has_to, T, viol)
        now = list(g["obj"]) if isinstance(g["obj"], (list, tuple)) else g["obj"]
        if not same_values(now, g["res"]):
            viol("C01", "changed-later", f"the list returned by use {rnd} of the pool was changed after it was returned")
    late_effects(case, sim, viol)
    return outcome(sim, V)


def check_round(case, sim, rnd, g, has_to, T, viol):
    jobs = case["jobs"]
    res = g["res"]
    if not isinstance(res, list) or len(res) != len(jobs):
        viol("C01", "length", f"{len(jobs)} jobs, result {type(res).__name__} of length "
             f"{len(res) if hasattr(res, '__len__') else '?'}")
        return
    starts, finish, fb, procs = {}, {}, {}, {}
    exits = {}
    for ev in sim.log:
        if ev[2] == "start" and ev[4] == rnd:
            starts.setdefault(ev[3], []).append(ev)
            procs[ev[3]] = ev[5]
        elif ev[2] == "finish" and ev[4] == rnd:
            finish.setdefault(ev[3], []).append(ev)
        elif ev[2] == "fallback" and ev[4] == rnd:
            fb.setdefault(ev[3], []).append(ev)
        elif ev[2] == "exit":
            exits[ev[3]] = ev
    faulty = case["mode"] in ("crash", "forkfail", "mixed")
    stall = bool(case["cfg"].get("p_stall"))
    for j in jobs:
        i = j["i"]
        want = payload(i, rnd, j["size"], j["ret"])
        fbv = None if case["api"] == "apply" else {"fallback": i, "round": rnd}
        is_val = (j["end"] == "ok") and type(res[i]) is type(want) and res[i] == want
        is_fb = res[i] == fbv if fbv is not None else res[i] is None
        ns = len(starts.get(i, []))
        if ns > 1:
            viol("C01", "restarted", f"job {i} body started {ns} times")
        if ns == 0 and not faulty and not (stall and has_to):
            viol("C01", "not-started", f"job {i} body never started")
        if len(fb.get(i, [])) > 1:
            viol("C01", "fallback-twice", f"fallback of job {i} produced {len(fb[i])} times")
        if not is_val and not is_fb:
            viol("C01", "wrong-outcome",
                 f"slot {i} holds {short(res[i])}, neither the job's value nor its fallback")
            continue
        if is_val and not is_fb:
            if not finish.get(i):
                viol("C01", "value-from-nowhere", f"job {i} never finished but has a value")
            if fb.get(i):
                viol("C01", "fallback-and-value", f"job {i}: value returned although its fallback was produced")
        overrun = has_to and j["d"] > T
        fits = not has_to or j["d"] < T
        ambiguous = not overrun and not fits
        ex = exits.get(procs.get(i))
        normal = j["end"] == "ok" and finish.get(i) and ex is not None and ex[4] == 0
        if is_fb and not is_val:
            # why would it be a fallback?
            if j["end"] == "ok" and fits and not stall and not ambiguous:
                if not faulty or normal:
                    viol("C01", "lost-value", f"job {i} finished but its fallback was returned")
                    if has_to and (not faulty):
                        viol("C03", "cut-early", f"job {i} needs {j['d']} < timeout {T} but was cut")
        if overrun and is_val and not is_fb and not stall:
            viol("C03", "not-cut", f"job {i} needs {j['d']} > timeout {T} but its value was returned")
        if not has_to and not faulty and j["end"] == "ok" and not is_val:
            viol("C03", "cut-without-timeout", f"job {i} was cut although no timeout is set")
        # when was an overrunning job stopped?
        if overrun and procs.get(i) and not stall:
            st = starts[i][0][1]
            en = exits.get(procs[i])
            if en is None:
                viol("C03", "never-stopped", f"job {i} overran and its worker was never stopped")
            elif en[1] > st + T + 1e-6 + (0.0 if j["end"] == "ok" else 0.0):
                viol("C03", "stopped-late", f"job {i} started {st}, timeout {T}, stopped {en[1]}")
            elif en[1] < st + T - 1e-9 and not faulty:
                viol("C03", "stopped-early", f"job {i} started {st}, timeout {T}, stopped {en[1]}")
    if g["live"]:
        viol("C02", "left-running", f"workers still running at return: {g['live']}")
    most = case["n_jobs"] * case.get("pools", 1)
    if g["peak"] > most:
        viol("C02", "too-many-workers", f"{g['peak']} workers alive with n_jobs={case['n_jobs']}"
             + (f" in each of {case['pools']} pools" if case.get("pools", 1) > 1 else ""))
    # (a worker forked by another pool at the wrong moment inherits this pool's pipe end, which delays
    # noticing a dead worker until that one ends; the completion-time claim is about one pool alone)
    if not stall and jobs and case.get("pools", 1) == 1 and not sim.fault_counts.get("thread_fail"):
        eff = []
        for j in jobs:
            d = min(j["d"], T) if has_to else j["d"]
            eff.append(d + (j.get("fbslow") or 0.0))
        m = case["n_jobs"]
        bound = sum(eff) / m + (1 - 1 / m) * max(eff)
        if g["t"] > bound * (1 + 1e-9) + 1e-6:
            viol("C02", "idle-worker", f"took {g['t']} virtual s, list scheduling bound {bound} "
                 f"for n_jobs={m}")


def same_values(a, b):
    if not isinstance(a, list) or not isinstance(b, list):
        return a is b
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def late_effects(case, sim, viol):
    """nothing of a cut job is visible after its fallback began or the call returned"""
    fb_step = {}
    ret_step = {}
    for ev in sim.log:
        if ev[2] == "fallback":
            fb_step.setdefault((ev[3], ev[4]), ev[0])
        elif ev[2] == "return":
            ret_step[ev[3]] = ev[0]
    for ev in sim.log:
        if ev[2] in ("start", "effect", "finish"):
            i, rnd = ev[3], ev[4]
            f = fb_step.get((i, rnd))
            if f is not None and ev[0] > f:
                viol("C03", "effect-after-fallback", f"job {i} still acted ({ev[2]}) after its fallback began")
                return
            r = ret_step.get(rnd)
            if r is not None and ev[0] > r:
                viol("C03", "effect-after-return", f"job {i} still acted ({ev[2]}) after the call returned")
                return


def short(x):
    s = repr(x)
    return s if len(s) < 80 else s[:80] + "..."
