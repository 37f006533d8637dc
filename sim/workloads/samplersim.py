"""
C12-C15: the samplers themselves.  Real library code runs in simulated
threads that are preempted at source-line granularity, next to host threads
that use the process-wide generators; calls are aborted at seeded lines; the
random generator is replaced by a hostile one.  The oracle is the same call
made alone in a pristine forked process.
"""
import ast
import copy
import os
import random
import sys
import threading
import warnings

import numpy as np

from .. import core, patch, salt, samplers as S
from ..advrng import AdvRandomState
from ..core import active
from ..driver import fork_call, outcome

RULE = ("one case = samplers with parameters, datasets, call history, schedule, abort and generator "
        "settings drawn from the run seed (classes are visited round-robin); non-trivial = at least one "
        "task switch, abort or injected draw; distinct = distinct digest of the yield/switch/fault sequence "
        "together with the case")
ASSUMPTIONS = [
    "preemption and abort points are the source lines of smote_variants; calls into third-party "
    "libraries are atomic",
    "aborts are not placed inside finally/except blocks, with-statement headers or context managers, where "
    "Python itself cannot guarantee clean-up",
    "DEAGO is not simulated (it seeds TensorFlow's process-wide generators by design)",
]
COMPONENTS = {"real": ["smote_variants samplers, noise filters, undersamplers, multiclass wrapper, "
                       "oversampling classifier, metric learning", "numpy", "scikit-learn", "metric_learn"],
              "simulated": ["thread schedule", "asynchronous aborts", "host use of the global generators",
                            "random generator (C15)", "clock"],
              "stub": []}

LINE_CAP = 3_000_000
DRAW_CAP = 400_000


# ---------------------------------------------------------------- line hook
class Hook:
    """per-process state of the line callback"""
    count = None            # counting mode (reference runs): number of lines
    hist = None             # counting mode: executions per source line
    watch = None            # [(label, array, bytes)]
    on_change = None
    abort = None            # {"task": task, "at": n, "exc": exception}
    lines = 0


def reset_hook():
    Hook.count = None
    Hook.hist = None
    Hook.watch = None
    Hook.on_change = None
    Hook.abort = None
    Hook.lines = 0


def on_line(code, line):
    if Hook.count is not None:
        Hook.count += 1
        h = Hook.hist
        if h is not None:
            k = (code.co_filename, line)
            h[k] = h.get(k, 0) + 1
        if Hook.count > LINE_CAP:
            raise RuntimeError("reference run does not end")
        return None
    s, t = active()
    if s is None or s.status is not None:
        return None
    Hook.lines += 1
    if Hook.lines > LINE_CAP:
        s.finish("lines", f"{code.co_filename}:{line}")
    if Hook.watch:
        for w in Hook.watch:
            if w[1].tobytes() != w[2]:
                Hook.on_change(w, code, line)
                break
    a = Hook.abort
    if a is not None and a["task"] is t:
        if a.get("key") is None or a["n"] > a["at"] or a["key"] == (code.co_filename, line):
            a["n"] += 1
        if a["n"] > a["at"] and abortable(sys._getframe(1)):
            Hook.abort = None
            a["fired"] = f"{os.path.basename(code.co_filename)}:{line}"
            s.fault("abort", f"{type(a['exc']).__name__}@{a['n']}")
            raise a["exc"]
    p = s.cfg.p_line
    if (p or s.ch.replay) and s.ch.flip(t.linelabel, p):
        s.line_preempts += 1
        s.preempt(t, code.co_name, line)
    return None


# lines at which an asynchronous abort is not injected
_UNSAFE = {}


def _scan(path):
    own, caller = set(), set()
    try:
        with open(path) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return own, caller

    def span(stmts, out):
        for st in stmts:
            for n in range(st.lineno, (st.end_lineno or st.lineno) + 1):
                out.add(n)

    for node in ast.walk(tree):
        if isinstance(node, ast.Try):
            own.add(node.lineno)
            span(node.finalbody, own)
            for h in node.handlers:
                own.add(h.lineno)
                span(h.body, own)
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            own.add(node.lineno)
            for it in node.items:
                for n in range(it.context_expr.lineno, it.context_expr.end_lineno + 1):
                    own.add(n)
        elif isinstance(node, ast.FunctionDef):
            deco = [ast.unparse(d) for d in node.decorator_list]
            if node.name in ("__enter__", "__exit__", "__del__") or any("contextmanager" in d for d in deco):
                span(node.body, own)
        for fld in ("body", "orelse", "finalbody"):
            body = getattr(node, fld, None)
            if isinstance(body, list):
                for a, b in zip(body, body[1:]):
                    if isinstance(b, ast.Try) and isinstance(a, ast.stmt):
                        span([a], caller)
    return own, caller


def abortable(frame):
    first = True
    while frame is not None:
        fn = frame.f_code.co_filename
        if "smote_variants" in fn:
            u = _UNSAFE.get(fn)
            if u is None:
                u = _UNSAFE[fn] = _scan(fn)
            if frame.f_lineno in u[0] or (not first and frame.f_lineno in u[1]):
                return False
            first = False
        frame = frame.f_back
    return True


def warm():
    import smote_variants.noise_removal  # noqa
    import smote_variants.undersampling  # noqa
    import smote_variants.classifiers  # noqa
    warnings.simplefilter("ignore")
    patch.enable_lines(["smote_variants"], on_line)
    for n in S.oversamplers():
        S.combos(n)
    # let lazily imported third-party modules load before runs fork off
    X, y = S.data({"seed": 1, "n_min": 8, "n_maj": 20, "dim": 3, "kind": "mid"})
    for name in ("SMOTE", "E_SMOTE", "ADG", "SMOTE_IPF", "MWMOTE", "AMSCO", "ISOMAP_Hybrid", "SOMO",
                 "Supervised_SMOTE", "LVQ_SMOTE", "CE_SMOTE", "MOT2LD", "SMOBD", "SVM_balance"):
        def f(name=name):
            S.build({"kind": "os", "name": name, "params": {"random_state": 1, **S.cheap(name)}})[1](X, y)
        try:
            fork_call(f, 60)
        except Exception:  # noqa
            pass


# ---------------------------------------------------------------- planning
_CAT = None


def catalogue():
    global _CAT
    if _CAT is None:
        c = [("os", n) for n in S.oversamplers()] + [("nf", n) for n in S.NOISE]
        c += [("us", None)] * 3 + [("mc", None)] * 4 + [("clf", None)] * 3 + [("mt", None)] * 4
        _CAT = c
    return _CAT


def plan(rng, prop, tier, i):
    if prop == "C17":
        return plan17(rng, i)
    cat = catalogue()
    kind, name = cat[i % len(cat)]
    case = {"prop": prop, "gseed": rng.randrange(2**31), "gseed_ref": rng.randrange(2**31),
            "p_line": 0.0, "policy": "random", "p_switch": 0.5}
    a = {"spec": S.spec(rng, kind, name), "data": [S.data_spec(rng, kind)]}
    if rng.random() < 0.3:
        a["data"].append(dict(a["data"][0]) if rng.random() < 0.3 else S.data_spec(rng, kind))
    tasks = [a]
    if prop == "C12":
        k = rng.choice([0, 1, 1, 1, 2])
        for _ in range(k):
            r = rng.random()
            if r < 0.4:
                tasks.append(copy.deepcopy(a))
            elif r < 0.7:
                b = {"spec": S.spec(rng, kind, name), "data": [S.data_spec(rng, kind)]}
                if rng.random() < 0.5:
                    b["data"] = copy.deepcopy(a["data"])
                tasks.append(b)
            else:
                kk, nn = rng.choice(cat)
                b = {"spec": S.spec(rng, kk, nn), "data": [S.data_spec(rng, kk)]}
                if kk == kind:
                    b["data"] = copy.deepcopy(a["data"])
                tasks.append(b)
        case["noise"] = rng.choice([0, 30, 30, 80])
        case["p_line"] = rng.choice([0.3, 0.05, 0.01, 0.001]) if (k or case["noise"]) else 0.0
        case["policy"] = rng.choice(["random", "random", "prio"])
        case["hist"] = [{"spec": S.spec(rng, kind if rng.random() < 0.6 else None,
                                        None),
                         "data": None} for _ in range(rng.choice([0, 0, 1, 2]))]
        for h in case["hist"]:
            h["data"] = [S.data_spec(rng, h["spec"]["kind"])]
        if i % 199 == 7:
            case["reimport"] = 1
        if i % 400 == 77 or i % 400 == 78:
            kind, name = "os", "ISOMAP_Hybrid"
        elif i % 400 in (179, 302):
            kind, name = "os", "E_SMOTE"
        if (i % 8 == 5 or name == "ISOMAP_Hybrid" or i % 400 in (179, 302)) and kind == "os" and name not in SLOW_BIG:
            # a dataset large enough for the iterative solvers of third-party components
            big(rng, case, kind, name)
            tasks = case.pop("tasks")
        elif rng.random() < 0.2:
            n = rng.choice([2, 3, 4])
            for tk in tasks:
                tk["data"] = [{**d, "n_min": n} for d in tk["data"]]
    elif prop == "C13":
        if rng.random() < 0.35:
            b = copy.deepcopy(a)
            if rng.random() < 0.5:
                b["spec"] = S.spec(rng, kind, name if rng.random() < 0.5 else None)
            tasks.append(b)
            case["p_line"] = rng.choice([0.05, 0.01, 0.001])
        if rng.random() < 0.3:
            case["abort"] = {"u": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError",
                                                                   "RuntimeError"]), "call": 0}
    elif prop == "C14":
        a["data"] = a["data"][:1]
        other = S.data_spec(rng, kind)
        r = rng.random()
        case["before"] = [other] if r < 0.5 else [other, S.data_spec(rng, kind)] if r < 0.6 else []
        if rng.random() < 0.3:
            # an earlier dataset on which there is nothing, or hardly anything, to do
            case["before"].append({**S.data_spec(rng, kind), "n_min": rng.choice([2, 3, 4]), "n_maj": 12})
        if rng.random() < 0.2:
            a["data"] = [{**a["data"][0], "n_min": rng.choice([2, 3, 4])}]
        if rng.random() < 0.85 or not case["before"]:
            case["aborts"] = [{"u": rng.random(), "v": rng.choice([0.0, rng.random(), 0.999]),
                               "own": int(rng.random() < 0.7), "on": int(rng.random() < 0.5),
                               "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "RuntimeError"])}
                              for _ in range(rng.choice([1, 2, 5, 8]))]
            if any(x["on"] for x in case["aborts"]):
                case["adata"] = S.data_spec(rng, kind)
    elif prop == "C15":
        if kind == "mt":
            kind, name = "os", rng.choice(S.oversamplers())
            a["spec"] = S.spec(rng, kind, name)
            a["data"] = [S.data_spec(rng, kind)]
        case["p_ext"] = rng.choice([0.0, 0.02, 0.1, 0.3, 0.6])
        if rng.random() < 0.25:
            a["data"][0] = {**a["data"][0], "n_min": rng.choice([2, 3, 4, 5]),
                            "dim": rng.choice([1, 2, 4, 8])}
    if prop != "C15" and not case.get("big"):
        for tk in tasks + case.get("hist", []):
            add_metric(rng, tk)
    case["tasks"] = tasks
    return case


SLOW_BIG = {"ADG", "DSMOTE", "GASMOTE", "AMSCO"}


def big(rng, case, kind, name):
    d = {"seed": rng.randrange(10**6), "kind": rng.choice(["mid", "overlap"]), "swap": False, "order": "C"}
    if rng.random() < 0.5 or name == "ISOMAP_Hybrid":
        d.update(n_maj=510, n_min=rng.choice([30, 60]), dim=rng.choice([6, 12]))
    else:
        d.update(n_maj=rng.choice([20, 40]), n_min=rng.choice([8, 14]), dim=510)
    if name == "E_SMOTE":
        d.update(n_maj=790, n_min=30, dim=4, kind="grid")
    case.update(tasks=[{"spec": S.spec(rng, kind, name), "data": [d]}], noise=0, p_line=0.0, hist=[], big=1)
    case.pop("reimport", None)


BUDGETS = [1, 5, 23, 60, 150, 400, 1000, 5000, 30000, 10**6, 50_000_000]


def plan17(rng, i):
    case = {"prop": "C17", "gseed": 0, "gseed_ref": 0, "p_line": rng.choice([0.0, 0.02, 0.1, 0.3]),
            "policy": rng.choice(["random", "prio"]), "p_switch": 0.5, "budget": rng.choice(BUDGETS),
            "changes": [rng.choice(BUDGETS) for _ in range(rng.choice([0, 4, 12]))]}
    if i % 3 == 0:
        big_ = rng.random() < 0.1
        t = {"spec": {"kind": "dist", "name": "distances", "params": {}},
             "data": [{"seed": rng.randrange(10**6), "n": rng.choice([1, 2, 5, 17]), "m": rng.choice([1, 3, 11, 20]),
                       "dim": rng.choice([1, 2, 5, 9]), "self": rng.random() < 0.3,
                       "tensor": rng.choice(["none", "eye", "spd", "spd"]), "opt": rng.random() < 0.7,
                       "k": rng.choice([1, 2, 3])}]}
        if big_:
            t["data"][0].update(n=rng.choice([60, 300]), m=300, dim=20, self=False)
            case.update(p_line=0.0, changes=[], budget=rng.choice([1000, 30000, 60000]), peak=1)
    else:
        oss = S.oversamplers()
        t = {"spec": S.spec(rng, "os", oss[(i * 2 // 3) % len(oss)]), "data": [S.data_spec(rng, "os")]}
        t["data"][0]["kind"] = rng.choice(["mid", "overlap", "sep"])
        t["data"][0].pop("xdtype", None)
        for _ in range(3):
            add_metric(rng, t)
    case["tasks"] = [t]
    return case


_HAS_NN = {}


def has_nn(name):
    if name not in _HAS_NN:
        import inspect
        _HAS_NN[name] = "nn_params" in inspect.signature(S.cls(name).__init__).parameters
    return _HAS_NN[name]


def add_metric(rng, tk):
    sp = tk["spec"]
    if sp["kind"] == "os" and has_nn(sp["name"]) and rng.random() < 0.25:
        m = rng.choice(["ITML", "rf", "cov", "LSML", "tensor", "tensor"])
        if m == "tensor" and len({d["dim"] for d in tk["data"]}) == 1:
            sp["params"]["nn_params"] = {"metric": "precomputed", "metric_tensor": tk["data"][0]["dim"]}
        elif m != "tensor":
            sp["params"]["nn_params"] = {"metric": "precomputed", "metric_learning_method": m}


def shrink(case):
    c = case
    if len(c["tasks"]) > 1:
        for i in range(len(c["tasks"])):
            yield {**c, "tasks": c["tasks"][:i] + c["tasks"][i + 1:]}
    for key in ("hist", "before", "aborts"):
        for i in range(len(c.get(key) or [])):
            yield {**c, key: c[key][:i] + c[key][i + 1:]}
    if c.get("noise"):
        yield {**c, "noise": 0}
    for i, t in enumerate(c["tasks"]):
        if len(t["data"]) > 1:
            yield {**c, "tasks": [({**t, "data": t["data"][:1]} if i == j else x)
                                  for j, x in enumerate(c["tasks"])]}
    if c.get("abort") and c["prop"] == "C13":
        yield {k: v for k, v in c.items() if k != "abort"}


# ---------------------------------------------------------------- building
class World:
    """shared objects of one run: datasets and parameter values by content"""

    def __init__(self):
        self.d = {}
        self.p = {}

    def data(self, d):
        k = repr(sorted(d.items()))
        if k not in self.d:
            self.d[k] = S.data(d)
        return self.d[k]

    def spec(self, sp):
        params = {}
        for k, v in sp["params"].items():
            if isinstance(v, dict):
                key = k + repr(sorted(v.items()))
                if key not in self.p:
                    v = dict(v)
                    if isinstance(v.get("metric_tensor"), int):
                        n = v["metric_tensor"]
                        rs = np.random.RandomState(n)
                        a = rs.normal(size=(n, n))
                        v["metric_tensor"] = a @ a.T + np.eye(n)
                    self.p[key] = v
                v = self.p[key]
            params[k] = v
        return {**sp, "params": params}


def call(run, X, y):
    try:
        return ("ok",) + tuple(run(X, y))
    except (ValueError, RuntimeError, IndexError, TypeError, ArithmeticError, KeyError, AttributeError) as e:
        return ("exc", type(e).__name__, str(e)[:300])


def eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "exc":
        return a[1:] == b[1:]
    return S.same(a[1:], b[1:])


def close(a, b):
    """equal up to rounding"""
    if a[0] != "ok" or b[0] != "ok" or len(a) != len(b):
        return False
    for x, z in zip(a[1:], b[1:]):
        x, z = np.asarray(x), np.asarray(z)
        if x.shape != z.shape or not np.allclose(x, z, rtol=1e-9, atol=1e-9, equal_nan=True):
            return False
    return True


def brief(r):
    if r[0] == "exc":
        return f"{r[1]}: {r[2][:120]}"
    return "arrays of shape " + ", ".join(str(np.shape(x)) for x in r[1:])


def diff(a, b):
    if a[0] == "exc" or b[0] == "exc" or len(a) != len(b):
        return f"{brief(a)} instead of {brief(b)}"
    for i, (x, z) in enumerate(zip(a[1:], b[1:])):
        x, z = np.asarray(x), np.asarray(z)
        if x.shape != z.shape or x.dtype != z.dtype:
            return f"result {i}: {x.dtype}{x.shape} instead of {z.dtype}{z.shape}"
        if x.tobytes() != z.tobytes():
            return f"result {i} differs in {int(np.sum(x != z))} of {x.size} entries"
    return "?"


def reference(tasks, gseed, hist=False, hsalt=0):
    """every task alone, in a pristine process with another global seed (and hash seed)"""
    def body():
        reset_hook()
        salt.set_salt(hsalt)
        warnings.simplefilter("ignore")
        np.random.seed(gseed)
        random.seed(gseed)
        np.random.random_sample(gseed % 7)
        out = []
        for tk in tasks:
            def one(tk=tk):
                w = World()
                _, run = S.build(w.spec(tk["spec"]))
                res, counts, hists = [], [], []
                for d in tk["data"]:
                    X, y = w.data(d)
                    Hook.count = 0
                    Hook.hist = {} if hist else None
                    r = call(run, X, y)
                    counts.append(Hook.count)
                    hists.append(Hook.hist)
                    res.append((r[0],) + (S.freeze(r[1:]) if r[0] == "ok" else r[1:]))
                return res, counts, hists
            out.append(fork_call(one, 100))
        return out
    st, v = fork_call(body, 200)
    if st != "ok":
        raise RuntimeError(f"reference: {st} {v}")
    out = []
    for st, x in v:
        if st != "ok":
            raise RuntimeError(f"reference: {st} {x}")
        out.append(x)
    return out


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}


class Injected:
    """namespace for exception types that carry the injection marker"""
    kinds = {k: type("Injected" + k, (v,), {}) for k, v in EXC.items()}


# ---------------------------------------------------------------- process-wide settings
def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def snapshot():
    import logging
    import smote_variants.config as cfg
    log = logging.getLogger("smote_variants")
    return {
        "warning filters": list(warnings.filters),
        "warnings.showwarning": warnings.showwarning,
        "floating-point error handling": dict(np.geterr()),
        "floating-point error callback": np.geterrcall(),
        "print options": repr(np.get_printoptions()),
        "log level": (log.level, log.disabled, len(log.handlers), logging.root.level, logging.root.manager.disable),
        "library flags": dict(cfg.flags),
        "environment": dict(os.environ),
        "recursion limit": sys.getrecursionlimit(),
        "working directory": os.getcwd(),
    }


def unusual_settings():
    """a host program whose settings differ from every default, so that nothing put back to one goes unnoticed"""
    import logging
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", message="no such message")
    warnings.filterwarnings("error", message="nor this one", category=SyntaxWarning)
    warnings.showwarning = _show
    np.seterr(divide="warn", over="ignore", under="warn", invalid="ignore")
    np.set_printoptions(precision=7, threshold=1234)
    logging.getLogger("smote_variants").setLevel(logging.CRITICAL + 7)
    logging.root.setLevel(logging.ERROR + 3)
    sys.setrecursionlimit(sys.getrecursionlimit() + 37)
    os.environ["HOST_SETTING"] = "1"


def _show(*_a, **_k):
    return None


# ---------------------------------------------------------------- execution
class Run:
    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        self.viol = []
        self.world = World()

    def bad(self, kind, msg, site=""):
        if len(self.viol) < 10:
            self.viol.append({"prop": self.case["prop"], "kind": kind, "msg": msg, "site": site})


def execute(case, ctx):
    reset_hook()
    warnings.simplefilter("ignore")
    r = Run(case, ctx)
    cfg = core.Cfg(policy=case["policy"], p_switch=case["p_switch"], p_line=case["p_line"],
                   max_steps=2_000_000)
    sim = core.Sim(ctx.ch, cfg)
    r.sim = sim
    body = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C17": c17}[case["prop"]]
    main = body(r)
    sim.run(main, wall_limit=ctx.limit * 0.9)
    if sim.status == "lines":
        if case["prop"] == "C15":
            r.bad("no-termination", f"{case['tasks'][0]['spec']['name']} still running after {LINE_CAP} lines "
                  f"({sim.detail})")
            sim.status = "ok"
    if sim.root_exc is not None:
        raise sim.root_exc
    if sim.thread_errors:
        raise RuntimeError(f"simulated thread failed: {sim.thread_errors[0]}")
    import zlib
    sim.crc = zlib.crc32(repr(case).encode(), sim.crc)
    out = outcome(sim, r.viol)
    out["stats"]["num"]["source_lines"] = Hook.lines
    out["stats"]["nontrivial"] = bool(sim.switches or sim.fault_counts or sim.reach.get("history"))
    for tk in case["tasks"]:
        out["stats"]["reach"]["class:" + label(tk["spec"])] = 1
    return out


def label(sp):
    return sp["name"] if sp["kind"] in ("os", "nf", "us") else sp["kind"] + ":" + sp["name"]


# ---------------------------------------------------------------- C12
def c12(r):
    case = r.case
    refs = reference(case["tasks"], case["gseed_ref"], hsalt=case["gseed_ref"] % 0x7FFFFFFF or 1)
    if case.get("reimport"):
        reimport(r)

    def main():
        sim = r.sim
        np.random.seed(case["gseed"])
        random.seed(case["gseed"])
        shadow = np.random.RandomState(case["gseed"])
        shadow_r = random.Random(case["gseed"])
        g0 = rng_state()
        for h in case.get("hist", []):
            sim.probe("history")
            _, run = S.build(r.world.spec(h["spec"]))
            for d in h["data"]:
                call(run, *r.world.data(d))
        if case.get("hist") and rng_state() != g0:
            r.bad("global-generator", f"running {[label(h['spec']) for h in case['hist']]} changed the state of "
                  f"the process-wide generators")
            np.random.seed(case["gseed"])
            random.seed(case["gseed"])
        live = [len(case["tasks"])]
        disturbed = []

        def sampler(i, tk):
            try:
                _, run = S.build(r.world.spec(tk["spec"]))
                for j, d in enumerate(tk["data"]):
                    X, y = r.world.data(d)
                    got = call(run, X, y)
                    sim.point("sampled", f"{i}.{j}")
                    want = refs[i][0][j]
                    if not eq(got, want):
                        r.bad("not-reproducible" + (":rounding" if close(got, want) else ""), f"{label(tk['spec'])} {tk['spec']['params']} (call {j + 1} on "
                              f"the object, {len(case['tasks'])} samplers, noise={case['noise']}): "
                              f"{diff(got, want)} (the call made alone)",
                              label(tk["spec"]) + (":big" if case.get("big") else ""))
            finally:
                live[0] -= 1

        def noise():
            for k in range(case["noise"]):
                if live[0] == 0:
                    break
                a, b = np.random.random_sample(), shadow.random_sample()
                c, d = random.random(), shadow_r.random()
                if (a != b or c != d) and not disturbed:
                    disturbed.append(k)
                    r.bad("global-generator", "a host thread using the process-wide generators gets different "
                          f"numbers while {[label(t['spec']) for t in case['tasks']]} run")
                if k % 7 == 3:
                    np.random.seed(k)
                    shadow.seed(k)
                sim.fault("host_rng_use")
                sim.point("noise")

        ths = [threading.Thread(target=sampler, args=(i, tk), name=f"sampler{i}")
               for i, tk in enumerate(case["tasks"])]
        if case["noise"]:
            ths.append(threading.Thread(target=noise, name="host"))
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if not disturbed:
            st = shadow.get_state()
            want = (st[0], st[1].tobytes(), st[2], st[3], st[4], shadow_r.getstate())
            if rng_state() != want:
                r.bad("global-generator", f"running {[label(t['spec']) for t in case['tasks']]} changed the state "
                      f"of the process-wide generators", label(case["tasks"][0]["spec"]) + ":big" if case.get("big")
                      else "")
    return main


def reimport(r):
    """a host program whose first use of the library happens now"""
    st, v = fork_call(_fresh_import, 100)
    r.sim.probe("history")
    if st != "ok":
        raise RuntimeError(f"reimport: {st} {v}")
    if v:
        r.bad("import-disturbs-generator", "importing smote_variants changes the state of the process-wide "
              "random generators")


def _fresh_import():
    core.SIM = None
    for k in [m for m in sys.modules if m == "smote_variants" or m.startswith("smote_variants.")]:
        del sys.modules[k]
    g = rng_state()
    import smote_variants  # noqa
    return rng_state() != g


# ---------------------------------------------------------------- C13
def c13(r):
    case = r.case
    need = case.get("abort")
    refs = reference(case["tasks"][:1], case["gseed_ref"]) if need else None

    def main():
        sim = r.sim
        arrays = {}
        for tk in case["tasks"]:
            for d in tk["data"]:
                X, y = r.world.data(d)
                arrays[id(X)] = ("X", X, X.tobytes())
                arrays[id(y)] = ("y", y, y.tobytes())
            r.world.spec(tk["spec"])
        for key, p in r.world.p.items():
            mt = p.get("metric_tensor")
            if mt is not None:
                arrays[id(mt)] = ("nn_params['metric_tensor']", mt, mt.tobytes())
        pcopy = {k: freeze_params(v) for k, v in r.world.p.items()}
        names = [label(t["spec"]) for t in case["tasks"]]

        def changed(w, code, line):
            Hook.watch = [x for x in Hook.watch if x[1] is not w[1]]
            r.bad("input-modified" if not w[0].startswith("result") else "result-modified",
                  f"{w[0]} modified while {names} run; seen before {os.path.basename(code.co_filename)}:{line} "
                  f"({code.co_name})", names[0])
        Hook.on_change = changed
        Hook.watch = list(arrays.values())

        def sampler(i, tk):
            sp = r.world.spec(tk["spec"])
            top = dict(sp["params"])
            o, run = S.build(sp)
            gp = repr(o.get_params()) if hasattr(o, "get_params") else None
            for j, d in enumerate(tk["data"]):
                X, y = r.world.data(d)
                if need and i == 0 and j == 0:
                    me = sim.cur()
                    exc = Injected.kinds[need["exc"]]("injected")
                    Hook.abort = {"task": me, "at": int(need["u"] * refs[0][1][0]), "n": 0, "exc": exc}
                try:
                    got = call(run, X, y)
                except BaseException as e:  # noqa
                    if not type(e).__name__.startswith("Injected"):
                        raise
                    got = ("exc", "abort", "")
                Hook.abort = None
                sim.point("sampled", f"{i}.{j}")
                if got[0] == "ok":
                    outs = got[1:]
                    for k, z in enumerate(outs):
                        if isinstance(z, np.ndarray):
                            shared = [w[0] for w in arrays.values() if np.shares_memory(z, w[1])]
                            passthrough = tk["spec"]["kind"] == "os" and k == 2
                            if shared and not passthrough:
                                r.bad("result-aliases-input", f"result {k} of {label(tk['spec'])} shares memory "
                                      f"with the caller's {shared[0]}", label(tk["spec"]))
                            elif not shared and len(Hook.watch) < 12:
                                Hook.watch.append((f"result {k} of an earlier call of {label(tk['spec'])}", z,
                                                   z.tobytes()))
                if gp is not None and repr(o.get_params()) != gp:
                    r.bad("parameters-changed", f"get_params() of {label(tk['spec'])} changed during sampling: "
                          f"{gp[:200]} -> {repr(o.get_params())[:200]}", label(tk["spec"]))
                    gp = repr(o.get_params())
                if sp["params"] != top and not any(isinstance(v, dict) for v in top.values()):
                    r.bad("parameters-changed", f"the parameter dictionary given to {label(tk['spec'])} changed",
                          label(tk["spec"]))

        ths = [threading.Thread(target=sampler, args=(i, tk), name=f"sampler{i}")
               for i, tk in enumerate(case["tasks"])]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for w in list(Hook.watch):
            if w[1].tobytes() != w[2]:
                r.bad("input-modified" if not w[0].startswith("result") else "result-modified",
                      f"{w[0]} modified by {names}", names[0])
        Hook.watch = None
        for k, v in r.world.p.items():
            if freeze_params(v) != pcopy[k]:
                r.bad("parameters-changed", f"the nn_params/ss_params dictionary given to {names} changed: "
                      f"{str(pcopy[k])[:150]} -> {str(freeze_params(v))[:150]}", names[0])
    return main


def freeze_params(p):
    return {k: (v.tobytes() if isinstance(v, np.ndarray) else copy.deepcopy(v)) for k, v in p.items()}


# ---------------------------------------------------------------- C14
def reseed(o, depth=0, seen=None):
    """put every generator the object owns back to its initial state"""
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 4:
        return
    seen.add(id(o))
    if hasattr(o, "_random_state_init") and hasattr(o, "set_random_state"):
        o.set_random_state(o._random_state_init)
    d = getattr(o, "__dict__", None)
    if d is None:
        vals = list(o.values()) if isinstance(o, dict) else list(o) if isinstance(o, (list, tuple)) else []
    else:
        vals = list(d.values())
    for v in vals:
        if isinstance(v, (list, tuple, dict)) or type(v).__module__.startswith("smote_variants"):
            reseed(v, depth + 1, seen)


def c14(r):
    case = r.case
    tk = case["tasks"][0]
    aborts = case.get("aborts") or []
    need = [tk]
    if case.get("adata"):
        need = [tk, {"spec": tk["spec"], "data": [case["adata"]]}]
    refs = reference(need, case["gseed_ref"], bool(aborts))
    want = refs[0][0][0]
    lines = [sorted(x[2][0]) if aborts else [] for x in refs]

    def main():
        sim = r.sim
        name = label(tk["spec"])
        sp = r.world.spec(tk["spec"])
        X, y = r.world.data(tk["data"][0])
        np.random.seed(case["gseed"])
        random.seed(case["gseed"])
        o, run = S.build(sp)
        own = getattr(sys.modules.get(type(o).__module__), "__file__", None)
        unusual_settings()
        gp = repr(o.get_params()) if hasattr(o, "get_params") else None
        before = snapshot()
        g0 = rng_state()
        what = []

        def settings():
            after = snapshot()
            for k in before:
                if before[k] != after[k]:
                    r.bad("residue-settings", f"{name}: {k} changed by {' and '.join(what)}: "
                          f"{str(before[k])[:120]} -> {str(after[k])[:120]}", name)
            if rng_state() != g0:
                r.bad("residue-generator", f"{name}: process-wide generator state changed by {' and '.join(what)}", name)
            if gp is not None and repr(o.get_params()) != gp:
                r.bad("residue-parameters", f"{name}: get_params() changed by {' and '.join(what)}: {gp[:150]} -> "
                      f"{repr(o.get_params())[:150]}", name)

        for d in case.get("before", []):
            call(run, *r.world.data(d))
            what.append("a completed call")
            sim.probe("history")
        for ab in aborts:
            src, w = (X, y), 0
            if ab["on"]:
                src, w = r.world.data(case["adata"]), 1
            cand = [x for x in lines[w] if x[0] == own] if ab["own"] else []
            cand = cand or lines[w]
            if not cand:
                continue
            key = cand[int(ab["u"] * len(cand))]
            exc = Injected.kinds[ab["exc"]]("injected")
            a = Hook.abort = {"task": sim.cur(), "key": key, "at": int(ab["v"] * refs[w][2][0][key]), "n": 0,
                              "exc": exc}
            came = None
            try:
                run(*src)
            except BaseException as e:  # noqa
                came = e
            Hook.abort = None
            if "fired" not in a:
                what.append("a completed call")
                continue
            what.append(f"a call aborted by {ab['exc']} at {a['fired']}")
            sim.point("aborted", a["fired"])
            if came is None:
                r.bad("abort-swallowed", f"{name}: {ab['exc']} raised at {a['fired']} did not reach the caller",
                      name)
            else:
                e, ok, k = came, False, 0
                while e is not None and k < 20:
                    if e is exc:
                        ok = True
                    e = e.__cause__ or e.__context__
                    k += 1
                if not ok or not isinstance(came, EXC[ab["exc"]]):
                    r.bad("abort-replaced", f"{name}: {ab['exc']} raised at {a['fired']} reached the caller as "
                          f"{type(came).__name__}: {came}", name)
            settings()
        settings()
        # a fresh equal object
        _, run2 = S.build(sp)
        got = call(run2, X, y)
        if not eq(got, want):
            r.bad("residue-fresh", f"a fresh {name} {sp['params']} after {' and '.join(what)} gives "
                  f"{diff(got, want)}", name)
        # the used object, once re-seeded
        reseed(o)
        got = call(run, X, y)
        if not eq(got, want):
            r.bad("residue-object", f"{name} {sp['params']} after {' and '.join(what)}, re-seeded, gives "
                  f"{diff(got, want)}", name)
    return main


# ---------------------------------------------------------------- C15
# techniques that, by construction, do not return the input samples as they were although their category
# flags do not say so, or do not limit the number of new samples by the proportion
MOVES = {"ADG", "DSRBF", "MOT2LD", "KernelADASYN"}
FREE_COUNT = {"NDO_sampling", "SSO", "ADG", "polynom_fit_SMOTE_star", "polynom_fit_SMOTE_bus",
              "polynom_fit_SMOTE_poly", "polynom_fit_SMOTE_mesh", "SMOTE_D", "CCR"}


# techniques that interpolate between minority samples
INTERP = {"SMOTE", "ADASYN", "AND_SMOTE", "Assembled_SMOTE", "Borderline_SMOTE1", "CBSO", "CE_SMOTE",
          "Edge_Det_SMOTE", "GASMOTE", "Lee", "MSYN", "MWMOTE", "NT_SMOTE", "ProWSyn", "Random_SMOTE", "SDSMOTE",
          "SMOTE_ENN", "SMOTE_IPF", "SMOTE_PSOBAT", "SMOTE_RSB", "SMOTE_TomekLinks", "SN_SMOTE", "SOMO",
          "Selected_SMOTE", "Supervised_SMOTE", "TRIM_SMOTE", "cluster_SMOTE", "distance_SMOTE", "kmeans_SMOTE",
          "polynom_fit_SMOTE_mesh", "polynom_fit_SMOTE_star"}


# ---------------------------------------------------------------- C17
def dist_call(d):
    """distances and neighbours between two arrays"""
    from smote_variants.base import NearestNeighborsWithMetricTensor, pairwise_distances_mahalanobis
    rs = np.random.RandomState(d["seed"])
    X = rs.normal(size=(d["n"], d["dim"]))
    Y = X if d["self"] else rs.normal(size=(d["m"], d["dim"]))
    T = None
    if d["tensor"] == "eye":
        T = np.eye(d["dim"])
    elif d["tensor"] == "spd":
        a = rs.normal(size=(d["dim"], d["dim"]))
        T = a @ a.T + 0.1 * np.eye(d["dim"])

    def run(*_):
        kw = {} if d["self"] else {"Y": Y}
        out = [pairwise_distances_mahalanobis(X, tensor=T, optimized=d["opt"], **kw)]
        if T is not None:
            nn = NearestNeighborsWithMetricTensor(n_neighbors=min(d["k"], len(Y)), metric="precomputed",
                                                  metric_tensor=T).fit(Y)
            out += list(nn.kneighbors(X))
            a, b = nn.radius_neighbors(X, radius=1.3)
            out += [np.hstack([np.asarray(z, dtype=float) for z in w] + [[len(w)]]) for w in (a, b)]
        return tuple(out)
    return run


def c17(r):
    from smote_variants import config
    case = r.case
    tk = case["tasks"][0]
    dist = tk["spec"]["kind"] == "dist"
    default = config.distance_matrix_max_memory_chunk()

    def body():
        reset_hook()
        warnings.simplefilter("ignore")
        Hook.count = 0
        if dist:
            return call(dist_call(tk["data"][0]), None, None)
        w = World()
        return call(S.build(w.spec(tk["spec"]))[1], *w.data(tk["data"][0]))
    st, want = fork_call(body, 100)
    if st != "ok":
        raise RuntimeError(f"reference: {st} {want}")

    def main():
        sim = r.sim
        name = label(tk["spec"])
        live = [1]

        def worker():
            try:
                if dist:
                    run, X, y = dist_call(tk["data"][0]), None, None
                else:
                    _, run = S.build(r.world.spec(tk["spec"]))
                    X, y = r.world.data(tk["data"][0])
                got = call(run, X, y)
                if not eq(got, want) and not close(got, want):
                    r.bad("depends-on-budget", f"{name} {tk['spec']['params']} on {tk['data'][0]} with memory budget "
                          f"{case['budget']}, changed to {case['changes']} on the way: {diff(got, want)} (with the "
                          f"default budget)", name)
            finally:
                live[0] = 0

        def host():
            for b in case["changes"]:
                if not live[0]:
                    break
                sim.fault("budget_change", str(b))
                config.distance_matrix_max_memory_chunk(b)
                sim.point("budget")
        config.distance_matrix_max_memory_chunk(case["budget"])
        sim.fault("small_budget") if case["budget"] < 5000 else None
        if case.get("peak"):
            peak17(r, tk["data"][0], case["budget"])
        ths = [threading.Thread(target=worker, name="worker"), threading.Thread(target=host, name="host")]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        config.distance_matrix_max_memory_chunk(default)
    return main


def peak17(r, d, budget):
    """memory of the intermediate results under the budget"""
    import tracemalloc
    from smote_variants.base import pairwise_distances_mahalanobis
    rs = np.random.RandomState(d["seed"])
    X, Y = rs.normal(size=(d["n"], d["dim"])), rs.normal(size=(d["m"], d["dim"]))
    T = None if d["tensor"] != "spd" else np.eye(d["dim"]) * 2.0
    tracemalloc.start()
    try:
        pairwise_distances_mahalanobis(X, Y=Y, tensor=T)
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    unit = max(budget, d["m"] * d["dim"])
    lim = 8 * (6 * unit + 4 * d["n"] * d["m"]) + 200_000
    r.sim.probe("peak")
    if peak > lim:
        r.bad("over-budget", f"distances of {d['n']} to {d['m']} vectors of dimension {d['dim']} with a budget of "
              f"{budget} elements took {peak} bytes at once (allowed: {lim})", "distances")


class TooManyDraws(BaseException):
    pass


def c15(r):
    case = r.case
    tk = case["tasks"][0]

    def main():
        sim = r.sim
        sp = copy.deepcopy(tk["spec"])
        name = label(sp)
        p = case["p_ext"]

        def decide(n):
            v = r.ctx.ch.choose("draw", n, p)
            if v:
                sim.fault("extreme_draw")
            return v

        def on_draw(g):
            if g.n_draws > DRAW_CAP:
                raise TooManyDraws()
        if "random_state" in sp["params"]:
            sp["params"]["random_state"] = AdvRandomState(int(sp["params"]["random_state"]), decide, on_draw)
        X, y = r.world.data(tk["data"][0])
        Xc, yc = X.copy(), y.copy()
        o, run = S.build(sp)
        try:
            out = o.fit(X, y) if sp["kind"] == "clf" else run(X, y)
        except TooManyDraws:
            r.bad("no-termination", f"{name} {tk['spec']['params']}: more than {DRAW_CAP} draws", name)
            return
        except (ValueError, RuntimeError) as e:
            sim.probe("raised:" + type(e).__name__)
            return
        except Exception as e:  # noqa
            r.bad("unexpected-exception", f"{name} {tk['spec']['params']} on {tk['data'][0]}: "
                  f"{type(e).__name__}: {str(e)[:200]}", name)
            return
        if sp["kind"] == "clf":
            return predicts(r, sp, o, Xc, yc, tk)
        return wellformed(r, sp, o, Xc, yc, out, tk)
    return main


def predicts(r, sp, o, X, y, tk):
    name = label(sp)
    try:
        a, b = o.predict(X), o.predict_proba(X)
    except Exception as e:  # noqa
        return r.bad("predict-failed", f"{name} on {tk['data'][0]}: fitted, but predict raises {type(e).__name__}: "
                     f"{str(e)[:200]}", name)
    if np.shape(a) != (len(X),) or np.ndim(b) != 2 or len(b) != len(X) or set(a.tolist()) - set(y.tolist()):
        r.bad("predict-failed", f"{name} on {tk['data'][0]}: predictions of shape {np.shape(a)}, {np.shape(b)} for "
              f"{len(X)} rows", name)
    return None


def rows(X, y):
    from collections import Counter
    X = np.ascontiguousarray(X, dtype=float)
    return Counter((X[i].tobytes(), float(y[i])) for i in range(len(y)))


def wellformed(r, sp, o, X, y, out, tk):
    name = label(sp)
    where = f"{name} {tk['spec']['params']} on {tk['data'][0]}"

    def bad(kind, msg):
        r.bad(kind, f"{where}: {msg}", name)
    a, b = np.asarray(out[0]), np.asarray(out[1])
    if a.ndim != 2 or b.ndim != 1 or len(a) != len(b):
        return bad("shape", f"{a.shape} samples with {b.shape} labels")
    width = out[2].shape[1] if sp["kind"] == "os" and out[2].ndim == 2 else X.shape[1]
    if a.shape[1] != width or (sp["kind"] == "os" and (out[2].ndim != 2 or len(out[2]) != len(X))):
        return bad("shape", f"samples have {a.shape[1]} columns, transformed input has shape {np.shape(out[-1])}")
    if not np.isfinite(np.asarray(a, dtype=float)).all():
        bad("non-finite", f"{int((~np.isfinite(a)).any(axis=1).sum())} of {len(a)} samples are not finite")
    extra = set(np.unique(b).tolist()) - set(np.unique(y).tolist())
    if extra:
        bad("labels", f"labels {sorted(extra)} do not occur in the input")
    src = rows(X, y)
    if sp["kind"] in ("nf", "us"):
        if rows(a, b) - src:
            bad("invented", "returned rows that are not rows of the input with their label")
        return None
    cnt = {k: int((y == k).sum()) for k in np.unique(y).tolist()}
    if sp["kind"] == "mc":
        if not (len(a) >= len(X) and np.array_equal(a[:len(X)], X) and np.array_equal(b[:len(X)], y)):
            bad("original-lost", "the original samples are not the first rows of the result")
        m = max(cnt.values())
        for k in cnt:
            if sp["name"] not in FREE_COUNT and int((b == k).sum()) > m:
                bad("too-many", f"class {k} has {int((b == k).sum())} samples, the majority has {m}")
        return None
    ks = sorted(cnt, key=lambda k: cnt[k])
    if len(ks) != 2 or cnt[ks[0]] == cnt[ks[1]]:
        return None
    mn, mj = ks
    C = S.cls(sp["name"])
    cats = list(getattr(C, "categories", []))
    cm, nr, dr = (getattr(C, k) in cats for k in ("cat_changes_majority", "cat_noise_removal",
                                                  "cat_dim_reduction"))
    if not cm and int((b == mj).sum()) > cnt[mj]:
        bad("majority-grew", f"{int((b == mj).sum())} majority samples, the input has {cnt[mj]}")
    if not (cm or nr or dr or name in MOVES):
        if not (len(a) >= len(X) and np.array_equal(a[:len(X)], X) and np.array_equal(b[:len(X)], y)):
            bad("original-lost", "the original samples are not the first rows of the result")
        elif not (b[len(X):] == mn).all():
            bad("new-majority", "generated samples are not labelled as minority")
    noisy = (sp["params"].get("ss_params") or {}).get("gaussian_component")
    if name in INTERP and not noisy and a.shape[1] == X.shape[1]:
        Xm = X[y == mn]
        fresh = np.array([k not in src for k in zip((z.tobytes() for z in np.ascontiguousarray(a, dtype=float)),
                                                    map(float, b))], dtype=bool)
        new = a[fresh]
        tol = (1e-5 if X.dtype == np.float32 else 1e-9) * (1 + np.abs(Xm).max())
        if len(new) and not ((new >= Xm.min(axis=0) - tol) & (new <= Xm.max(axis=0) + tol)).all():
            bad("extrapolated", "interpolated samples lie outside the range of the minority samples")
    prop = sp["params"].get("proportion", getattr(o, "proportion", None))
    if not cm and name not in FREE_COUNT and isinstance(prop, (int, float)):
        lim = max(0, int((cnt[mj] - cnt[mn]) * prop))
        new = int((b == mn).sum()) - cnt[mn]
        if new > lim:
            bad("too-many", f"{new} new samples, {lim} requested")
    return None
