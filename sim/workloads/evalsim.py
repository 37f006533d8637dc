"""
C04-C11, C16: the cross-validation / model-selection pipeline, real code on
simulated processes, files, joblib workers and clocks, against the
sequential reference model in sim.ref.

A case is a request history: each call of the history is one "phase", run in
its own OS process on the shared scratch directory, so a crash of a phase
leaves exactly what the simulated disk kept.
"""
import ast
import copy
import itertools
import json
import math
import os
import pickle
import random
import shutil
import threading
import time

import numpy as np

from .. import core, driver, fs as simfs, patch, procstate, ref, salt, stubs
from ..driver import fork_call, outcome

RULE = ("one case = history of evaluation requests (datasets, oversamplers, classifiers, validator, "
        "scaler, workers, cache format, clean-up) with planned per-fold durations/failures, scheduler and "
        "fault settings, all drawn from the run seed; non-trivial = at least one task switch or fault; "
        "distinct = distinct digest of the complete yield/switch/fault sequence over all phases")
ASSUMPTIONS = [
    "process-private interpreter state is swapped between simulated processes sharing one interpreter",
    "file system model: fsync commits the file and all earlier directory operations (ext4 journal); "
    "unsynchronised data may survive, vanish, be cut or read as zeros",
    "joblib's loky executor is replaced by a simulated one; joblib's dispatcher is real",
    "a crash takes the whole process group, except in C18, where one of two programs is killed and its worker "
    "processes go on; evaluations share a cache directory concurrently in C18 only",
]
COMPONENTS = {"real": ["smote_variants/evaluation/*", "smote_variants/base/_base.py, _metrics.py",
                       "real oversamplers (SMOTE, ...)", "scikit-learn scalers/classifiers", "pandas",
                       "joblib dispatcher", "json/pickle and io buffering"],
              "simulated": ["threads", "processes", "pipes", "locks", "signals", "clocks", "disk",
                            "joblib executor"],
              "stub": ["SimOS oversampler", "SimClf classifier (durations/failures per fold)"]}

EVMODS = ["smote_variants.evaluation", "smote_variants.base._base"]


def warm():
    import smote_variants as sv
    from .. import jl
    simfs.install()
    jl.install()
    sv.SimOS = stubs.SimOS
    patch.enable_lines(EVMODS)


# ---------------------------------------------------------------- cases
SCALERS = [["sklearn.preprocessing", "StandardScaler", {}],
           ["sklearn.preprocessing", "MinMaxScaler", {}],
           ["sklearn.preprocessing", "StandardScaler", {"with_mean": False}],
           None]


def os_spec(rng, k, prop):
    if rng.random() < 0.6:
        return ["smote_variants", "SimOS",
                {"tag": k, **({"proportion": rng.choice([0.5, 1.0])} if rng.random() < 0.5 else {}),
                 **({"transform": rng.choice([1, 2])} if rng.random() < 0.4 else {}),
                 **({"carry": 1} if rng.random() < 0.25 else {}),
                 **({"random_state": rng.choice([3, 5])} if rng.random() < 0.5 else {})}]
    name = rng.choice(["SMOTE", "SMOTE", "Borderline_SMOTE1", "ADASYN", "NoSMOTE", "SMOTE_TomekLinks",
                       "distance_SMOTE", "ROSE"])
    prm = {"random_state": 10 + k}
    if name == "NoSMOTE":
        prm = {}
    elif name == "SMOTE" and rng.random() < 0.5:
        prm = {"n_neighbors": rng.choice([2, 3, 4]), "random_state": 10 + k}
    return ["smote_variants", name, prm]


def clf_spec(rng, k):
    r = rng.random()
    if r < 0.55:
        return ["sim.stubs", "SimClf", {"tag": k, **({"temp": rng.choice([0.5, 3.0])} if rng.random() < 0.5 else {}),
                                        **({"warm": 1} if rng.random() < 0.25 else {})}]
    if rng.random() < 0.15:
        return ["sklearn.linear_model", "SGDClassifier", {"loss": "log_loss", "warm_start": True, "max_iter": 3 + k,
                                                          "tol": None, "random_state": 3}]
    return rng.choice([["sklearn.neighbors", "KNeighborsClassifier", {"n_neighbors": 3 + k}],
                       ["sklearn.naive_bayes", "GaussianNB", {}],
                       ["sklearn.tree", "DecisionTreeClassifier", {"random_state": 1, "max_depth": 2 + k}]])


def uniq(specs):
    seen, out = set(), []
    for s in specs:
        # NoSMOTE/GaussianNB without parameters must stay unambiguous
        key = json.dumps(s[:2] if not s[2] else s, sort_keys=True)
        if key not in seen:
            seen.add(key)
            out.append(s)
    return out


def request(rng, prop, small=False):
    nd = rng.choice([1, 1, 1, 2])
    ds = rng.sample(range(6), nd)
    if rng.random() < 0.25:
        ds = rng.sample([1, 3, 7, 8, 9, 10, 11], nd)
    oss = uniq([os_spec(rng, k, prop) for k in range(rng.choice([1, 2, 2, 3] if not small else [1, 2]))])
    clfs = uniq([clf_spec(rng, k) for k in range(rng.choice([1, 1, 2, 3] if not small else [1, 1, 2]))])
    v = {"n_splits": rng.choice([2, 3, 4] if not small else [2, 2, 3]), "n_repeats": rng.choice([1, 1, 2]),
         "random_state": rng.choice([5, 7, 11])}
    if rng.random() < 0.04:
        v = None
    if prop in ("C06", "C08", "C10", "C16") and rng.random() < 0.2 and clfs[0][1] == "SimClf":
        # a class of the same name and parameters in another module
        clfs.append(["sim.stubs2", "SimClf", dict(clfs[0][2])])
    out = {"datasets": ds, "oss": oss, "clfs": clfs, "validator": v,
           "scaler": rng.choice(SCALERS if rng.random() < 0.6 else SCALERS[:1])}
    if prop in ("C06", "C08") and rng.random() < 0.15:
        # a configuration the caller lists twice
        out["dup"] = [rng.choice(["oss", "oss", "clfs"]), 0]
    return out


def n_splits(req):
    v = req["validator"] or {"n_repeats": 2, "n_splits": 5}
    return v["n_repeats"] * v["n_splits"]


def plan_cells(rng, req, T, p_fail=0.0, p_cfail=0.0, timeouts=False, durations=True):
    cells = {}
    base = T if T and T > 0 else 1.0
    for di in range(len(req["datasets"])):
        for oi, o in enumerate(req["oss"]):
            if o[1] != "SimOS":
                continue
            for sp in range(n_splits(req)):
                a = {}
                if durations and rng.random() < 0.7:
                    a["d"] = base * rng.choice([0.01, 0.1, 0.25, 0.5, 0.9])
                r = rng.random()
                if r < p_fail:
                    a["fail"] = rng.choice(["value", "runtime", "value", "runtime", "empty", "transform"])
                elif timeouts and r < p_fail + 0.25:
                    a["fail"] = "timeout"
                    a["d"] = base * rng.choice([1.001, 1.5, 20])
                if durations and rng.random() < 0.2:
                    a["d2"] = base * rng.choice([0.01, 0.05])
                if rng.random() < 0.1:
                    a["warn"] = 1
                if a:
                    cells[f"os|{di}|{oi}|{sp}"] = a
        for oi in range(len(req["oss"])):
            for ci, c in enumerate(req["clfs"]):
                if c[1] != "SimClf":
                    continue
                for sp in range(n_splits(req)):
                    a = {}
                    if durations and rng.random() < 0.5:
                        a["d"] = rng.choice([0.003, 0.02, 0.15])
                    if rng.random() < p_cfail:
                        a["fail"] = rng.choice(["value", "runtime", "value", "runtime", "empty", "proba"])
                    if durations and rng.random() < 0.2:
                        a["d2"] = rng.choice([0.002, 0.03])
                    if a:
                        cells[f"clf|{di}|{oi}|{ci}|{sp}"] = a
    return cells


def sched(rng, light=False):
    return {"policy": rng.choice(["random", "random", "prio"]),
            "p_switch": rng.choice([0.02, 0.1, 0.3]),
            "p_line": rng.choice([0.0, 0.0, 0.005, 0.03]),
            "p_change": rng.choice([0.0, 0.02]),
            "kill_delay": rng.choice([0, 4, 16]), "p_kill_delay": 0.6,
            "max_steps": 400000, "faults": {"torn": rng.choice([0.0, 0.3]), "dir_order": rng.choice([0.0, 0.8])}}


def call(rng, **kw):
    c = {"req": 0, "n_jobs": rng.choice([1, 2, 2, 3, 4]), "cache": True,
         "ser": rng.choice(["json", "pickle"]), "clean_up": rng.choice(["oversamplings", "oversamplings", "all", None]),
         "timeout": rng.choice([-1, -1, None, 50.0]), "parse": rng.random() < 0.35,
         "api": "evaluate", "cfg": sched(rng), "npseed": rng.randrange(1 << 30)}
    c.update(kw)
    return c


def plan(rng, prop, tier, i):
    case = {"prop": prop, "pre": None}
    if rng.random() < 0.1:
        case["root"] = rng.choice(["cache [v1]", "cache.json", "c?che*"])
    if prop == "C06":
        req = request(rng, prop)
        case["reqs"] = [req]
        case["cells"] = [plan_cells(rng, req, 1.0)]
        mode = rng.choice(["mem", "mem", "cache"])
        case["calls"] = [call(rng, cache=(mode == "cache"), timeout=rng.choice([-1, None, 50.0]))]
        if rng.random() < 0.3:
            # further calls by the same program, without a cache they could share
            case["calls"][0]["cache"] = False
            for _ in range(rng.choice([1, 2])):
                case["reqs"].append(mutate_req(rng, case["reqs"][-1]))
                case["cells"].append({})
                case["calls"].append(call(rng, cache=False, req=len(case["reqs"]) - 1, timeout=-1))
            one_process(rng, case["calls"])
    elif prop == "C07":
        req = request(rng, prop)
        if not any(o[1] == "SimOS" for o in req["oss"]):
            req["oss"].append(["smote_variants", "SimOS", {"tag": 9}])
        mode = rng.choice(["mem", "cache", "pool", "pool", "crash"])
        T = -1
        if mode == "pool":
            T = rng.choice([0.5, 2.0])
        case["reqs"] = [req]
        case["cells"] = [plan_cells(rng, req, T, 0.25, 0.15, timeouts=(mode == "pool"))]
        n = rng.choice([2, 3, 4]) if mode in ("pool", "crash") else rng.choice([1, 2, 3])
        if mode == "cache":
            n = rng.choice([1, 2])
        c = call(rng, cache=mode != "mem", n_jobs=n, timeout=T, parse=rng.random() < 0.45)
        if mode == "crash":
            c["cfg"]["faults"]["worker_crash"] = rng.choice([0.003, 0.01, 0.03])
            if rng.random() < 0.4:
                c["cfg"]["faults"]["fork_fail"] = 0.1
        case["mode"] = mode
        case["calls"] = [c]
    elif prop == "C04":
        req = request(rng, prop, small=True)
        case["reqs"] = [req]
        case["cells"] = [plan_cells(rng, req, 1.0)]
        ncrash = rng.choice([1, 1, 1, 2, 3])
        base = call(rng, timeout=-1, parse=False)
        calls = []
        for k in range(ncrash):
            c = {**base, "npseed": rng.randrange(1 << 30), "n_jobs": rng.choice([base["n_jobs"], rng.choice([1, 2, 3])]),
                 "cfg": sched(rng)}
            if rng.random() < 0.5:
                c["cfg"]["faults"]["group_crash"] = rng.choice([0.0015, 0.004, 0.01, 0.02])
            else:
                c["cfg"]["faults"]["group_crash_write"] = rng.choice([0.01, 0.03, 0.1])
            c["crash"] = rng.choice(["kill", "kill", "power"])
            if rng.random() < 0.35:
                # the killed call listed the configurations in another order, or not all of them
                c["perm"] = rng.randrange(1 << 20)
                c["sub"] = rng.choice([0, 0, 1])
                if rng.random() < 0.4:
                    # ... and ran to its end
                    c["cfg"]["faults"].pop("group_crash", None)
                    c["cfg"]["faults"].pop("group_crash_write", None)
                    c["sub"] = 1
            calls.append(c)
        calls.append({**base, "npseed": rng.randrange(1 << 30), "cfg": sched(rng),
                      "n_jobs": rng.choice([base["n_jobs"], base["n_jobs"], 1, 2])})
        case["calls"] = calls
    elif prop == "C05":
        req = request(rng, prop, small=True)
        case["reqs"] = [req]
        case["cells"] = [plan_cells(rng, req, 1.0)]
        base = call(rng, timeout=rng.choice([-1, 50.0]), parse=rng.random() < 0.35)
        pre = rng.choice(["none", "none", "damage"])
        calls = []
        if pre == "damage":
            calls.append({**base, "clean_up": rng.choice([None, "oversamplings"]), "cfg": sched(rng)})
        c = {**base, "cfg": sched(rng), "npseed": rng.randrange(1 << 30)}
        if pre == "damage":
            c["damage"] = rng.choice([0.3, 0.6, 1.0])
        for k in rng.sample(["enospc", "eio_write", "eio_fsync", "eio_read", "emfile", "eacces"],
                            rng.choice([0, 1, 1, 2, 3]) if pre == "damage" else rng.choice([1, 1, 2, 3])):
            c["cfg"]["faults"][k] = rng.choice([0.003, 0.01, 0.04])
        if "enospc" in c["cfg"]["faults"] and rng.random() < 0.5:
            c["cfg"]["faults"]["enospc_sticky"] = 1
        calls.append(c)
        calls.append({**base, "cfg": sched(rng), "npseed": rng.randrange(1 << 30), "after": 1})
        case["calls"] = calls
    elif prop == "C08":
        reqs = [request(rng, prop, small=True)]
        if rng.random() < 0.08:
            # large enough for printed arrays to be abbreviated
            reqs[0]["datasets"] = [6]
            if rng.random() < 0.6:
                reqs.append(json.loads(json.dumps(reqs[0])))
                reqs[1]["datasets"] = [[6, rng.choice([2, 3, 3, 5])]]
        for _ in range(rng.choice([1, 1, 2]) if len(reqs) < 2 else 0):
            reqs.append(mutate_req(rng, reqs[rng.randrange(len(reqs))]))
        case["reqs"] = reqs
        case["cells"] = [{} for _ in reqs]
        order = [rng.randrange(len(reqs)) for _ in range(rng.choice([2, 3, 4]))]
        base = call(rng, timeout=-1)
        calls = []
        for k in order:
            c = {**base, "req": k, "cfg": sched(rng), "npseed": rng.randrange(1 << 30),
                 "parse": rng.random() < 0.3}
            if rng.random() < 0.5:
                c["n_jobs"] = rng.choice([1, 2, 3])
            if rng.random() < 0.3:
                c["ser"] = rng.choice(["json", "pickle"])
            if rng.random() < 0.4:
                c["clean_up"] = rng.choice(["oversamplings", "all", None])
            calls.append(c)
        case["calls"] = calls
        if rng.random() < 0.4:
            one_process(rng, calls)
    elif prop == "C09":
        req = request(rng, prop, small=True)
        case["reqs"] = [req]
        case["cells"] = [plan_cells(rng, req, 1.0)]
        base = call(rng, timeout=-1, parse=False)
        c0 = {**base, "neighbours": 1, "end": "power"}
        if rng.random() < 0.3:
            # faults the call may report by raising; if it returns, everything holds
            c0["cfg"] = {**c0["cfg"], "faults": dict(c0["cfg"].get("faults") or {})}
            for f in rng.sample(["eio_fsync", "enospc", "eio_write"], rng.choice([1, 1, 2])):
                c0["cfg"]["faults"][f] = rng.choice([0.003, 0.01, 0.04]) * (3 if f == "eio_fsync" else 1)
            c0["iofaults"] = 1
        c1 = {**base, "n_jobs": 1, "cfg": sched(rng), "after": 1, "npseed": rng.randrange(1 << 30)}
        case["calls"] = [c0, c1]
    elif prop == "C16":
        req = request(rng, prop, small=True)
        case["reqs"] = [req]
        case["cells"] = [plan_cells(rng, req, 1.0, 0.1, 0.1)]
        base = call(rng, timeout=-1, parse=False)
        calls = []
        for k in range(rng.choice([0, 0, 1, 1, 2])):
            c = {**base, "npseed": rng.randrange(1 << 30), "n_jobs": rng.choice([1, 2, 3]), "cfg": sched(rng),
                 "reader": rng.choice([0, 0, 3])}
            if rng.random() < 0.4:
                c["cfg"]["faults"]["group_crash"] = rng.choice([0.0015, 0.004, 0.01, 0.02])
            else:
                c["cfg"]["faults"]["group_crash_write"] = rng.choice([0.01, 0.03, 0.1])
            c["crash"] = rng.choice(["kill", "kill", "power"])
            calls.append(c)
        calls.append({**base, "npseed": rng.randrange(1 << 30), "cfg": sched(rng), "reader": rng.choice([0, 2, 5])})
        if rng.random() < 0.3:
            calls[-1]["badread"] = {rng.choice(["eio_read", "emfile"]): rng.choice([0.02, 0.1])}
        case["calls"] = calls
    elif prop == "C18":
        reqs = [request(rng, prop, small=True)]
        if rng.random() < 0.6:
            reqs.append(mutate_req(rng, reqs[0]))
        case["reqs"] = reqs
        case["cells"] = [plan_cells(rng, reqs[0], 1.0) if rng.random() < 0.6 else {}] + [{} for _ in reqs[1:]]
        clean = rng.choice([None, None, None, 1])
        base = call(rng, timeout=rng.choice([-1, -1, 50.0]))
        calls = []
        cfg = sched(rng)
        cfg["max_steps"] = 2 * cfg.get("max_steps", 200000)
        for k in range(2):
            calls.append({**base, "req": k % len(reqs), "n_jobs": rng.choice([1, 1, 2, 3]), "together": 1,
                          "ser": base["ser"] if rng.random() < 0.85 else rng.choice(["json", "pickle"]),
                          "clean_up": rng.choice(["oversamplings", "all", None]) if clean else None,
                          "parse": rng.random() < 0.3, "cfg": cfg, "npseed": rng.randrange(1 << 30)})
        if rng.random() < 0.35:
            # the first program is killed, its worker processes go on
            cfg["faults"]["program_kill"] = rng.choice([0.002, 0.006, 0.02])
            calls[0]["n_jobs"] = rng.choice([2, 3])
            calls[1]["restart"] = int(rng.random() < 0.5)
        elif rng.random() < 0.35:
            # threads of one program instead of two programs
            for x in calls[:2]:
                x["threads"] = 1
        if rng.random() < 0.4:
            calls.append({**base, "req": rng.randrange(len(reqs)), "cfg": sched(rng),
                          "npseed": rng.randrange(1 << 30)})
        case["calls"] = calls
    elif prop == "C10":
        req = request(rng, prop)
        req["datasets"] = req["datasets"][:1]
        if rng.random() < 0.6:
            # several parameterisations of one oversampler and one classifier, many equal scores
            req["oss"] = [["smote_variants", "SimOS", {"tag": k, "random_state": rng.choice([3, 5, 6, 7]),
                                                       "proportion": rng.choice([0.2, 0.5, 1.0, 2.0])}]
                          for k in range(rng.choice([2, 3]))]
            req["clfs"] = [["sim.stubs", "SimClf", {"tag": k, "hard": 1, "shift": rng.choice([-1.0, -0.3, 0.0, 0.3, 1.0])}]
                           for k in range(rng.choice([2, 3]))]
        score = None
        if rng.random() < 0.2:
            # scores that differ in the fourth digit only
            req["clfs"] = [["sim.stubs", "SimClf", {"tag": k, "temp": t}] for k, t in
                           enumerate(rng.sample([1.0, 1.0004, 0.9996, 1.001, 0.999], rng.choice([2, 3, 4])))]
            score = rng.choice(["brier", "log_loss"])
        case["reqs"] = [req]
        case["cells"] = [plan_cells(rng, req, 1.0)]
        case["calls"] = [call(rng, api="select", cache=rng.random() < 0.6, timeout=-1,
                              score=score or rng.choice(["auc", "auc", "gacc", "f1", "acc", "bacc", "spec", "sens",
                                                         "ppv", "brier", "log_loss"]))]
    elif prop == "C11":
        req = request(rng, prop)
        if not any(o[1] == "SimOS" for o in req["oss"]):
            req["oss"][0] = ["smote_variants", "SimOS", {"tag": 0}]
        if not any(c[1] == "SimClf" for c in req["clfs"]):
            req["clfs"][0] = ["sim.stubs", "SimClf", {"tag": 0}]
        T = rng.choice([-1, 2.0])
        case["reqs"] = [req]
        case["cells"] = [plan_cells(rng, req, T if T > 0 else 1.0, 0.1, 0.05, timeouts=T > 0)]
        c = call(rng, cache=rng.random() < 0.7 or T > 0, timeout=T, parse=False,
                 n_jobs=rng.choice([2, 3]) if T > 0 else rng.choice([1, 2, 3]))
        c["cfg"]["faults"]["clock_jump"] = rng.choice([0.0, 0.01, 0.05])
        if T < 0 and rng.random() < 0.5:
            c["cfg"]["faults"]["slow_io"] = rng.choice([0.02, 0.1])
        case["calls"] = [c]
    else:
        raise KeyError(prop)
    if prop in ("C06", "C08", "C10", "C16") and rng.random() < 0.12:
        tables(rng, case)
    return case


def tables(rng, case):
    """configurations whose parameters are numpy objects, some of them distinguishable by these alone"""
    req = case["reqs"][0]
    kind, cls = rng.choice([("oss", "SimOS"), ("oss", "SimOS"), ("clfs", "SimClf")])
    idx = [i for i, s in enumerate(req[kind]) if s[1] == cls]
    if not idx:
        req[kind].append(["smote_variants" if cls == "SimOS" else "sim.stubs", cls, {"tag": 99}])
        idx = [len(req[kind]) - 1]
    j = idx[0]
    n, v = rng.choice([3, 41]), rng.choice([0, 1])
    mine = req[kind][j][2]
    if rng.random() < 0.3:
        name = "proportion" if cls == "SimOS" else "temp"
        mine[name] = {"__np__": mine.get(name, 1.0)}
    mine["table"] = {"__nd__": [n, v]}
    other = copy.deepcopy(req[kind][j])
    other[2]["table"] = {"__nd__": [n, rng.choice([2, 3])]}
    if case["prop"] == "C08":
        new = json.loads(json.dumps(req))
        new[kind][j] = other
        case["reqs"].append(new)
        case["cells"].append({})
        a = rng.choice([0, len(case["reqs"]) - 1])
        case["calls"][-2]["req"] = a
        case["calls"][-1]["req"] = len(case["reqs"]) - 1 - a
        return
    if "dup" in req:
        del req["dup"]
    req[kind].append(other)
    new = len(req[kind]) - 1
    # both are planned to take as long and to fail where the other does
    cells = case["cells"][0]
    for k in sorted(cells):
        p = k.split("|")
        if kind == "oss" and p[2] == str(j):
            p[2] = str(new)
        elif kind == "clfs" and p[0] == "clf" and p[3] == str(j):
            p[3] = str(new)
        else:
            continue
        cells["|".join(p)] = dict(cells[k])


def one_process(rng, calls):
    """let the calls be made by one and the same process"""
    same = int(rng.random() < 0.5)
    for c in calls:
        c["proc"] = 1
        c["same_objects"] = same


def fresh(specs):
    """a number no configuration of the list was built from"""
    return 1 + max([5] + [x for s in specs for x in (s[2].get("tag", 0), s[2].get("random_state", 10) - 10,
                                                     s[2].get("n_neighbors", 3) - 3,
                                                     s[2].get("max_depth", 2) - 2)])


def mutate_req(rng, r):
    r = json.loads(json.dumps(r))
    r.pop("dup", None)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["scaler", "validator_rs", "n_splits", "n_repeats", "os_param", "clf_param", "os_add",
                        "clf_add", "data", "data", "datasets", "os_drop", "clf_module"])
        if k == "scaler":
            r["scaler"] = rng.choice([s for s in SCALERS if s != r["scaler"]])
        elif k == "validator_rs" and r["validator"]:
            r["validator"]["random_state"] += rng.choice([1, 2, 5])
        elif k == "n_splits" and r["validator"]:
            r["validator"]["n_splits"] = rng.choice([x for x in (2, 3, 4) if x != r["validator"]["n_splits"]])
        elif k == "n_repeats" and r["validator"]:
            r["validator"]["n_repeats"] = 3 - r["validator"]["n_repeats"]
        elif k == "os_param":
            o = rng.choice(r["oss"])
            if o[1] == "SimOS":
                o[2][rng.choice(["random_state", "transform"])] = rng.choice([1, 2])
            elif o[1] == "NoSMOTE":
                pass
            else:
                o[2]["proportion"] = rng.choice([0.4, 0.7])
        elif k == "clf_param":
            c = rng.choice(r["clfs"])
            if c[1] == "SimClf":
                c[2]["temp"] = rng.choice([0.2, 7.0])
            elif c[1] == "KNeighborsClassifier":
                c[2]["weights"] = "distance"
        elif k == "clf_module":
            sim_ = [c for c in r["clfs"] if c[1] == "SimClf"]
            if sim_:
                c = rng.choice(sim_)
                c[0] = "sim.stubs2" if c[0] == "sim.stubs" else "sim.stubs"
                r["clfs"] = uniq(r["clfs"])
        elif k == "os_add":
            r["oss"] = uniq(r["oss"] + [os_spec(rng, fresh(r["oss"]), "")])
        elif k == "clf_add":
            r["clfs"] = uniq(r["clfs"] + [clf_spec(rng, fresh(r["clfs"]))])
        elif k == "data":
            j = rng.randrange(len(r["datasets"]))
            d = r["datasets"][j]
            r["datasets"][j] = [d, rng.choice([1, 2, 3, 3, 4, 5])] if isinstance(d, int) else d[0]
        elif k == "datasets":
            have = [d if isinstance(d, int) else d[0] for d in r["datasets"]]
            if len(r["datasets"]) == 1:
                r["datasets"].append(rng.choice([x for x in range(6) if x not in have]))
            else:
                r["datasets"].pop()
        elif k == "os_drop" and len(r["oss"]) > 1:
            r["oss"].pop(rng.randrange(len(r["oss"])))
    return r


def shrink(case):
    calls = case["calls"]
    if case["prop"] in ("C04", "C08", "C16") and len(calls) > 2:
        for k in range(len(calls) - 1):
            yield {**case, "calls": calls[:k] + calls[k + 1:]}
    for ri, r in enumerate(case["reqs"]):
        def put(nr):
            rs = list(case["reqs"])
            rs[ri] = nr
            return {**case, "reqs": rs}
        if len(case["reqs"]) > 1:
            continue
        if len(r["datasets"]) > 1:
            yield put({**r, "datasets": r["datasets"][:1]})
        for k in range(len(r["oss"])):
            if len(r["oss"]) > 1:
                yield put({**r, "oss": r["oss"][:k] + r["oss"][k + 1:]})
        for k in range(len(r["clfs"])):
            if len(r["clfs"]) > 1:
                yield put({**r, "clfs": r["clfs"][:k] + r["clfs"][k + 1:]})
        if r["validator"] and r["validator"]["n_repeats"] > 1:
            yield put({**r, "validator": {**r["validator"], "n_repeats": 1}})
    if any(case["cells"]):
        yield {**case, "cells": [{} for _ in case["cells"]]}
        for i, c in enumerate(case["cells"]):
            ks = list(c)
            h = len(ks) // 2
            if h:
                for part in (ks[:h], ks[h:]):
                    cc = list(case["cells"])
                    cc[i] = {k: c[k] for k in part}
                    yield {**case, "cells": cc}
    for i, c in enumerate(calls):
        if c["n_jobs"] > 2:
            yield {**case, "calls": calls[:i] + [{**c, "n_jobs": 2}] + calls[i + 1:]}


# ---------------------------------------------------------------- phases
class View:
    """phase-local view of the run's decision stream"""

    def __init__(self, ch, prefix):
        self.ch = ch
        self.pre = prefix
        self.replay = ch.replay
        self.seed = f"{ch.seed}|{prefix}"

    def decide(self, label, fn):
        return self.ch.decide(self.pre + label, fn)

    def choose(self, label, n, p=None):
        return self.ch.choose(self.pre + label, n, p)

    def flip(self, label, p):
        if p <= 0 and not self.replay:
            return 0
        return self.ch.choose(self.pre + label, 2, p)


def phase(case, ks, ctx, root_dir, plan_):
    """run the calls ks in one process; the returned list (one dict per call) must be picklable"""
    import smote_variants as sv
    k = ks[0]
    c = case["calls"][k]
    view = View(ctx.ch, f"{k}/")
    cfg = core.Cfg(**c["cfg"])
    # only pool workers crash; a dead joblib worker aborts the call by design
    sim = core.Sim(view, cfg)
    sim.fs = simfs.SimFS(root_dir)
    salt.set_salt(c["npseed"] % 0x7FFFFFFF or 1)
    sim.swapper = procstate.Swapper()
    sim.crash_kinds = {"proc"}
    stubs.PLAN = plan_
    np.random.seed(c["npseed"] % (1 << 32))
    jump = c["cfg"]["faults"].get("clock_jump", 0)
    if jump or view.replay:
        def cb(t, kind, detail):
            if kind in ("sleep", "sample", "fit", "fs.open", "acq"):
                j = view.choose("clock", 9, jump)
                if j:
                    delta = [0, -3600.0, -1.0, -0.05, 0.05, 1.0, 3600.0, -86400.0, 86400.0][j]
                    sim.wall += delta
                    sim.fault("clock_jump", str(delta))
        sim.on_point.append(cb)
    slow = c["cfg"]["faults"].get("slow_io", 0)
    if slow:
        def cb2(t, kind, detail):
            if kind.startswith("fs.") and t.proc is not None:
                j = view.choose("slow", 4, slow)
                if j:
                    sim.fault("slow_io")
                    sim.sleep([0, 0.001, 0.2, 7.0][j])
        sim.on_point.append(cb2)
    parts = []
    objs = {}
    victims = []

    def kill_program(t, kind, detail):
        # one of the programs is killed; the processes it has started live on
        p = t.proc
        while p is not None and p.kind != "program":
            p = p.parent
        if p in victims and p.alive and not parts[0].get("done") and \
                view.flip("killprogram", c["cfg"]["faults"].get("program_kill", 0)):
            victims.remove(p)
            sim.fault("program_kill", kind)
            if any(q.alive and q.parent is p for q in sim.procs):
                sim.probe("orphans")
            sim.proc_die(p, -9)
    if c.get("together"):
        sim.on_point.append(kill_program)

    def dataset(spec):
        d = ref.dataset_v(spec)
        if not c.get("same_objects"):
            return dict(d)
        # the caller's dictionary is the same object in every call, with other contents
        o = objs.setdefault(d["name"], {})
        o.update(d)
        return o

    def do_call(c):
        req = case["reqs"][c["req"]]
        ds = [dataset(d) for d in req["datasets"]]
        oss = [(*o[:2], ref.decode(o[2])) for o in json.loads(json.dumps(req["oss"]))]
        clfs = [(*o[:2], ref.decode(o[2])) for o in json.loads(json.dumps(req["clfs"]))]
        if req.get("dup"):
            lst = oss if req["dup"][0] == "oss" else clfs
            lst.append(copy.deepcopy(lst[req["dup"][1]]))
        if "perm" in c:
            pr = random.Random(c["perm"])
            for lst in (oss, clfs):
                pr.shuffle(lst)
                if c["sub"] and len(lst) > 1:
                    lst.pop()
        kw = dict(cache_path=root_dir if c["cache"] else None,
                  validator_params=json.loads(json.dumps(req["validator"])),
                  scaler=tuple(req["scaler"]) if req["scaler"] else None, serialization=c["ser"],
                  clean_up=c["clean_up"], n_jobs=c["n_jobs"], timeout=c["timeout"])
        info, reads = {}, []

        def reader():
            for _ in range(c["reader"]):
                if info.get("done"):
                    break
                reads.append(read_back(root_dir, [d["name"] for d in ds], False))
                time.sleep(view.choose("read", 4) * 0.4 + 0.05)

        th = None
        if c.get("reader"):
            th = threading.Thread(target=reader, name="reader")
            th.start()
        if c["api"] == "select":
            r = sv.evaluation.model_selection(ds[0], oss, clfs, score=c["score"], **kw)
        else:
            r = sv.evaluation.evaluate_oversamplers(ds, oss, clfs, parse_results=c["parse"], verbosity=0, **kw)
        info["live"] = [p.name for p in sim.live_children() if p.kind != "loky"]
        info["undurable"] = sim.fs.undurable()
        if "reader" in c:
            info["done"] = 1
            if th is not None:
                th.join()
            reads.append(read_back(root_dir, [d["name"] for d in ds], True))
            if c.get("badread"):
                # reading with failing reads: an error, or everything
                keep = sim.cfg.faults
                sim.cfg.faults, sim.cfg.fault_scope = {**keep, **c["badread"]}, "read."
                try:
                    rb = read_back(root_dir, [d["name"] for d in ds], True)
                finally:
                    sim.cfg.faults, sim.cfg.fault_scope = keep, ""
                rb["faulted"] = 1
                reads.append(rb)
            info["reads"] = reads
        return r, info

    def program(kk, part):
        np.random.seed((c["npseed"] + kk) % (1 << 32))
        try:
            part["obj"], part["info"] = do_call(case["calls"][kk])
        except Exception as e:  # noqa
            part["exc"] = f"{type(e).__name__}: {e}"
        part["done"] = 1

    def programs():
        # separate programs, started independently or when the one before has ended
        s, t = core.active()
        pk = c["cfg"]["faults"].get("program_kill", 0)
        for kk in ks:
            if case["calls"][kk].get("restart"):
                s.block(lambda: all(x.get("done") or not x["proc"].alive for x in parts), None, "programs")
            part = {"exc": None, "res": None, "info": {}, "mark": 0, "obj": None}
            parts.append(part)
            if c.get("threads"):
                part["proc"] = t.proc
                threading.Thread(target=program, args=(kk, part), name=f"caller{kk}").start()
                continue
            p = part["proc"] = s.new_proc(f"program{kk}", t.proc)
            p.kind = "program"
            p.fds = set()
            s.swapper.fresh(p)
            s.spawn(lambda kk=kk, part=part: program(kk, part), p.name, p)
            if kk == ks[0] and (pk or view.replay):
                victims.append(p)
        s.block(lambda: all(x.get("done") or not x["proc"].alive for x in parts), None, "programs")
        for x in parts:
            if not x.pop("proc").alive and not x.get("done"):
                x["exc"] = "killed"

    def root():
        if c.get("together"):
            return programs()
        for kk in ks:
            part = {"exc": None, "res": None, "info": {}, "mark": len(sim.log), "obj": None}
            parts.append(part)
            try:
                part["obj"], part["info"] = do_call(case["calls"][kk])
            except Exception as e:  # noqa
                part["exc"] = f"{type(e).__name__}: {e}"
            part["end"] = len(sim.log)

    sim.run(root, ctx.limit)
    if sim.root_exc is not None:
        if not parts:
            raise sim.root_exc
        parts[-1]["exc"] = parts[-1]["exc"] or f"{type(sim.root_exc).__name__}: {sim.root_exc}"
    outs = []
    for kk, part in zip(ks, parts or [{"exc": None, "res": None, "info": {}, "mark": 0, "obj": None}]):
        c = case["calls"][kk]
        log = sim.log[part["mark"]:part.get("end", len(sim.log))]
        out = {"status": sim.status, "detail": sim.detail, "info": part["info"], "exc": part["exc"],
               "log": [e for e in log if e[2] in ("sample", "sampled", "fit", "child_error", "thread_error", "removed")],
               "res": None, "taken": ctx.ch.taken, "cells_failed": sim.fault_counts.get("worker_crash", 0)
               + sim.fault_counts.get("fork_fail", 0)}
        if sim.status == "ok" and part["exc"] is None:
            try:
                out["res"] = plain_result(c, part["obj"])
            except Exception as e:  # unreadable result files are a finding of the caller
                out["res"] = {"kind": "unreadable", "msg": f"{type(e).__name__}: {e}"}
        outs.append(out)
    out = outs[0]
    out["o"] = outcome(sim, [])
    out["o"]["history"] = out["o"]["history"][:300]
    out["files"] = listing(root_dir)
    if sim.status == "crashed" and c.get("crash") == "power" or \
            (sim.status == "ok" and c.get("end") == "power"):
        pl = sim.fs.power_loss(view)
        out["o"]["stats"]["faults"]["power_loss"] = 1
        for a, b in pl.items():
            if b:
                out["o"]["stats"]["reach"][a] = b
        out["files_after"] = listing(root_dir)
    return outs


def read_back(root, names, final):
    """what the post-processing functions make of the directory"""
    from smote_variants.evaluation import datasets_in_cache, load_dataset_data, create_summary
    out = {"final": final, "data": {}, "sum": {}}
    try:
        paths = datasets_in_cache(root)
        out["names"] = sorted(paths)
        for n in names:
            if n not in paths:
                continue
            pdf = load_dataset_data(paths[n])
            out["data"][n] = pdf.to_dict("records")
            if len(pdf):
                cols = ["split_idx", "auc", "y_pred", "y_test", "oversampling_error", "oversampling_runtime", "error"]
                out["sum"][n] = create_summary(pdf.copy(), ["auc"], cols).to_dict("records")
    except Exception as e:  # noqa
        out["exc"] = f"{type(e).__name__}: {e}"
    return out


def listing(root):
    out = {}
    for base, _, files in os.walk(root):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, root)] = os.path.getsize(p)
    return out


def own_load(path):
    """independent loader; None if the file is not a complete document"""
    try:
        if path.endswith(".json"):
            with open(path, "rb") as f:
                return json.loads(f.read().decode("utf-8"))
        with open(path, "rb") as f:
            return pickle.load(f)
    except Exception:
        return None


def plain_result(c, r):
    if c["api"] == "select":
        o, k = r
        return {"kind": "select", "os": [type(o).__name__, jsonable(o.get_params())],
                "clf": [type(k).__name__, type(k).__module__, jsonable(k.get_params())]}
    if c["parse"]:
        return {"kind": "table", "rows": r.to_dict("records")}
    recs = []
    for x in r:
        if isinstance(x, str):
            d = own_load(x)
            if d is None:
                return {"kind": "unreadable", "msg": f"reported result file {os.path.basename(x)} is missing or incomplete"}
            d = dict(d)
            d["__file"] = x
            recs.append(d)
        elif isinstance(x, dict):
            recs.append(dict(x))
        else:
            return {"kind": "unreadable", "msg": f"entry of type {type(x).__name__}"}
    return {"kind": "records", "recs": recs}


def jsonable(d):
    d = {k: v.tolist() if isinstance(v, (np.ndarray, np.generic)) else v for k, v in d.items()}
    return {str(k): (v if isinstance(v, (int, float, str, bool, type(None), list, tuple, dict)) else repr(v))
            for k, v in d.items()}


# ---------------------------------------------------------------- oracles
def params_match(given, actual):
    for k, v in ref.decode(given).items():
        if k not in actual:
            return False
        a = actual[k]
        if isinstance(v, np.ndarray):
            if isinstance(a, (list, np.ndarray)) and np.array_equal(np.asarray(a, dtype=float), v):
                continue
            return False
        if isinstance(a, tuple):
            a = list(a)
        if a != v:
            return False
    return True


def find_cfg(specs, name, params, module=None):
    """index of the configuration an entry claims to belong to; -1/-2 if none/ambiguous"""
    hits = [i for i, s in enumerate(specs) if s[1] == name and params_match(s[2], params)
            and (module is None or s[0] == module)]
    if len(hits) > 1:       # prefer the most specific one
        hits.sort(key=lambda i: -len(specs[i][2]))
        full = [i for i in hits if len(specs[i][2]) == len(specs[hits[0]][2])]
        if len(full) == 1:
            return full[0]
        return -2
    return hits[0] if hits else -1


def near(a, b, tol=1e-7):
    if a is None or b is None:
        an = a is None or (isinstance(a, float) and math.isnan(a))
        bn = b is None or (isinstance(b, float) and math.isnan(b))
        return an and bn
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def vec_near(a, b, tol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def times(req, oi, ci):
    """how often the caller listed the configuration"""
    d = req.get("dup")
    return 2 if d and d[1] == (oi if d[0] == "oss" else ci) else 1


def check_records(recs, req, exp, *, allow_fallback=0, flagged_ok=False, stored=False):
    """compare entries with the reference; list of (kind, message)"""
    V = []
    many = {}
    table = {(e["name"], e["rep"], e["fold"], e["oi"], e["ci"]): e for e in exp}
    seen = {}
    fb_cells = set()
    for r in recs:
        try:
            fd = r["fold_descriptor"]
            oi = find_cfg(req["oss"], r["oversampler"], r["oversampler_params"])
            ci = find_cfg(req["clfs"], r["classifier"], r["classifier_params"], r["classifier_module"])
            key = (fd["name"], fd["repeat_idx"], fd["fold_idx"], oi, ci)
        except (KeyError, TypeError) as e:
            V.append(("malformed", f"entry misses {e}"))
            continue
        e = table.get(key)
        if e is None:
            V.append(("alien-entry", f"entry for {key} (oversampler {r['oversampler']} "
                      f"{r['oversampler_params']}, classifier {r['classifier']}) was not requested"))
            continue
        many[key] = many.get(key, 0) + 1
        if many[key] > (1 if stored else times(req, oi, ci)):
            V.append(("duplicate", f"{many[key]} entries for {key}"))
            continue
        seen[key] = r
        if fd.get("split_idx") != e["split"]:
            V.append(("fold-identity", f"entry {key} reports split {fd.get('split_idx')}, is {e['split']}"))
        v = req["validator"] or {"n_repeats": 2, "n_splits": 5}
        if fd.get("n_splits") != v["n_splits"] or fd.get("n_repeats") != v["n_repeats"] or \
                fd.get("db_n") != e["db_n"] or fd.get("db_n_attr") != e["db_n_attr"]:
            V.append(("fold-descriptor", f"entry {key} carries a wrong fold description {fd}"))
        if not vec_near(r["y_test"], e["y_test"]):
            V.append(("y-test", f"entry {key} does not carry the true test labels of its fold"))
            continue
        oerr, cerr = r.get("oversampling_error"), r.get("error")
        if flagged_ok and (oerr is not None or cerr is not None):
            continue
        m = e["var"]["main"]
        which = m
        if oerr is not None and m["os_err"] is None and "fallback" in e["var"]:
            fb_cells.add((e["di"], e["split"], e["oi"]))
            which = e["var"]["fallback"]
        elif (oerr is not None) != (m["os_err"] is not None):
            V.append(("oversampling-error", f"entry {key}: oversampling error {oerr!r}, expected {m['os_err']!r}"))
            continue
        if (cerr is not None) != (which["clf_err"] is not None):
            V.append(("classifier-error", f"entry {key}: classifier error {cerr!r}, expected {which['clf_err']!r}"))
            continue
        if not vec_near(r["y_pred"], which["y_pred"]):
            V.append(("prediction", f"entry {key}: predictions differ from the reference "
                      f"(oversampling error {oerr!r}; first {np.asarray(r['y_pred'], dtype=float)[:3]} vs {which['y_pred'][:3]})"))
            continue
        for s, x in which["scores"].items():
            if s in r["scores"] and not near(r["scores"][s], x):
                V.append(("score", f"entry {key}: score {s} is {r['scores'][s]}, reference {x}"))
                break
            if s not in r["scores"]:
                V.append(("score-missing", f"entry {key}: score {s} missing"))
                break
    missing = [k for k in table if many.get(k, 0) < (1 if stored else times(req, k[3], k[4]))]
    if missing:
        V.append(("missing", f"{len(missing)} requested entries missing, e.g. {missing[0]}"))
    if len(fb_cells) > allow_fallback:
        V.append(("spurious-failure", f"{len(fb_cells)} (fold, oversampler) cells carry a failure that was not "
                  f"injected (at most {allow_fallback} could), e.g. {sorted(fb_cells)[0]}"))
    return V


def check_table(rows, req, exp, *, allow_fallback=0, flagged_ok=False):
    V = []
    groups = {}
    for e in exp:
        groups.setdefault((e["name"], e["oi"], e["ci"]), []).append(e)
    seen = {}
    for r in rows:
        try:
            op = ast.literal_eval(r["oversampler_params"])
            cp = ast.literal_eval(r["classifier_params"])
        except Exception:
            V.append(("table-params", f"unreadable parameters {r.get('oversampler_params')}"))
            continue
        oi = find_cfg(req["oss"], r["oversampler"], op)
        ci = find_cfg(req["clfs"], r["classifier"], cp, r["classifier_module"])
        key = (r["dataset"], oi, ci)
        if key not in groups:
            V.append(("table-alien", f"aggregated row for {key} was not requested"))
            continue
        if key in seen:
            V.append(("table-split", f"configuration {key} appears in several aggregated rows"))
            continue
        seen[key] = r
        if allow_fallback or flagged_ok:
            if not mixture(r, groups[key], len(groups[key]) if flagged_ok else allow_fallback):
                V.append(("table-mixture", f"row {key}: the means (acc {r.get('acc_mean')}, auc {r.get('auc_mean')}, "
                          f"brier {r.get('brier_mean')}) are not those of all folds, whichever of them failed"))
            continue
        for s in ref.AGG:
            vals = [x["var"]["main"]["scores"][s] for x in groups[key]] * times(req, oi, ci)
            vals = np.array([x for x in vals if x is not None], dtype=float)
            mean = float(np.mean(vals)) if len(vals) else None
            std = float(np.std(vals, ddof=1)) if len(vals) > 1 else None
            if not near(nan_none(r.get(s + "_mean")), mean):
                V.append(("table-mean", f"row {key}: mean {s} is {r.get(s + '_mean')}, reference {mean}"))
                break
            if not near(nan_none(r.get(s + "_std")), std):
                V.append(("table-std", f"row {key}: deviation of {s} is {r.get(s + '_std')}, reference {std}"))
                break
    miss = [k for k in groups if k not in seen]
    if miss:
        V.append(("table-missing", f"{len(miss)} configurations missing from the table, e.g. {miss[0]}"))
    return V


def mixture(row, cells, most):
    """whether the row aggregates every fold, each with its result or with the failed oversampling's one"""
    opts = [[c["var"]["main"]] + ([c["var"]["fallback"]] if "fallback" in c["var"] else []) for c in cells]
    for pick in itertools.product(*[range(len(o)) for o in opts]):
        if sum(pick) > most:
            continue
        ok = True
        for s in ("acc", "auc", "brier", "log_loss"):
            vals = np.array([o[i]["scores"][s] for o, i in zip(opts, pick)], dtype=float)
            std = float(np.std(vals, ddof=1)) if len(vals) > 1 else None
            if not near(nan_none(row.get(s + "_mean")), float(np.mean(vals))) or \
                    not near(nan_none(row.get(s + "_std")), std):
                ok = False
                break
        if ok:
            return True
    return False


def nan_none(x):
    if x is None:
        return None
    x = float(x)
    return None if math.isnan(x) else x


def check_result(res, req, exp, **kw):
    if res["kind"] == "unreadable":
        return [("unreadable", res["msg"])]
    if res["kind"] == "records":
        return check_records(res["recs"], req, exp, **kw)
    return check_table(res["rows"], req, exp, **kw)


# ---------------------------------------------------------------- run
def execute(case, ctx):
    prop = case["prop"]
    root = os.path.join(ctx.scratch, case.get("root") or "cache")
    os.makedirs(root)
    V = []
    seen = set()

    def viol(kind, msg):
        if kind not in seen:
            seen.add(kind)
            V.append({"prop": prop, "kind": kind, "msg": msg})

    exps = {}

    def exp_of(k):
        if k not in exps:
            st, val = fork_call(lambda: ref.expected(case["reqs"][k], case["cells"][k]), ctx.limit)
            if st != "ok":
                raise RuntimeError(f"reference model failed: {val}")
            exps[k] = val
        return exps[k]

    agg = {"status": "ok", "detail": None, "digest": 0, "trace": [], "history": [],
           "stats": {"faults": {}, "reach": {}, "num": {}, "peak": {}, "nontrivial": False}}
    state = {}
    groups = []
    for k, c in enumerate(case["calls"]):
        if c.get("together") and groups and case["calls"][groups[-1][-1]].get("together"):
            groups[-1].append(k)
            continue
        if c.get("proc") and groups and case["calls"][groups[-1][-1]].get("proc") == c["proc"]:
            groups[-1].append(k)
        else:
            groups.append([k])
    nb = None
    for ks in groups:
        k, c = ks[0], case["calls"][ks[0]]
        plan_ = {}
        for kk in reversed(ks):
            plan_.update(exp_of(case["calls"][kk]["req"])[1])
        if c.get("damage"):
            damage(root, ctx, k, c["damage"], agg)
        if c.get("neighbours"):
            nb = neighbours(root, case["reqs"][c["req"]])
        st, phs = fork_call(lambda: phase(case, ks, ctx, root, plan_), ctx.limit + 5)
        if st != "ok":
            agg["status"] = "error:" + st
            agg["detail"] = phs
            agg["violations"] = []
            return agg
        ph = phs[0]
        ctx.ch.taken.update(ph["taken"])
        o = ph["o"]
        for a in ("faults", "reach", "num"):
            for x, y in o["stats"][a].items():
                agg["stats"][a][x] = agg["stats"][a].get(x, 0) + y
        agg["stats"]["num"]["phases"] = agg["stats"]["num"].get("phases", 0) + 1
        agg["stats"]["nontrivial"] |= o["stats"]["nontrivial"] or bool(o["stats"]["faults"])
        if len(ks) > 1:
            agg["stats"]["reach"]["calls-in-one-process"] = agg["stats"]["reach"].get("calls-in-one-process", 0) + len(ks)
        agg["digest"] = (agg["digest"] * 1000003 + o["digest"] + sum(map(hash_status, phs))) & 0xFFFFFFFFFFFF
        agg["trace"] += [f"--- phase {k}: {ph['status']} {ph['exc'] or ''}"] + o["trace"][:300]
        agg["history"] += o["history"]
        if ph["status"] in ("wall", "internal", "unsupported"):
            agg["status"] = ph["status"]
            agg["detail"] = ph["detail"]
            agg["violations"] = []
            return agg
        if ph["status"] in ("deadlock", "steps"):
            viol("hang", f"call {k} never finishes: {ph['detail']}")
            break
        for kk, ph in zip(ks, phs):
            c = case["calls"][kk]
            exp = exp_of(c["req"])[0]
            try:
                judge(prop, case, kk, c, case["reqs"][c["req"]], exp, ph, viol, state, root, nb)
            except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                # the returned or stored entries do not have the fields an entry has
                viol("malformed", f"the outcome of call {kk} is not of the form results have: {e!r}")
    agg["violations"] = V
    return agg


def hash_status(ph):
    return sum(map(ord, ph["status"])) + (0 if ph["exc"] is None else 7)


def judge(prop, case, k, c, req, exp, ph, viol, state, root, nb):
    crashed = ph["status"] == "crashed"
    if prop in ("C06", "C08", "C11") or (prop == "C07") or (prop == "C10"):
        if ph["exc"] is not None:
            viol("raised", f"call {k} raised {ph['exc']}")
            return
    if prop == "C06":
        for kind, msg in check_result(ph["res"], req, exp):
            viol(kind, msg)
    elif prop == "C07":
        allow = ph["cells_failed"]
        for kind, msg in check_result(ph["res"], req, exp, allow_fallback=allow):
            viol(kind, msg)
    elif prop == "C08":
        for kind, msg in check_result(ph["res"], req, exp):
            viol(kind, f"call {k} (of {len(case['calls'])} on one cache): {msg}")
    elif prop == "C04":
        if crashed:
            if c.get("crash") == "kill":
                state.setdefault("stored", {})
            # what is completely stored now
            state["stored"] = stored_cells(root, req) if c.get("crash") == "kill" else {}
            return
        if ph["exc"] is not None:
            viol("restart-raised", f"repeated call raised {ph['exc']}")
            return
        for kind, msg in (check_result(ph["res"], req, exp) if not c.get("sub") else []):
            viol("restart-" + kind, msg)
        check_recompute(req, exp, ph, state.get("stored") or {}, viol)
        # a later phase starts from a complete cache
        state["stored"] = stored_cells(root, req)
    elif prop == "C05":
        if ph["exc"] is not None:
            if c.get("after"):
                viol("after-raised", f"call after the fault raised {ph['exc']}")
            return
        clean = not c.get("after") and not c.get("damage") and not any(
            f in c["cfg"]["faults"] for f in ("enospc", "eio_write", "eio_fsync", "eio_read", "emfile", "eacces"))
        for kind, msg in check_result(ph["res"], req, exp, flagged_ok=not clean):
            viol(("after-" if c.get("after") else "") + kind, msg)
    elif prop == "C09":
        judge_c09(case, k, c, req, exp, ph, viol, state, root, nb)
    elif prop == "C10":
        judge_c10(c, req, exp, ph, viol)
    elif prop == "C11":
        judge_c11(c, req, exp, ph, viol)
    elif prop == "C18":
        if ph["exc"] == "killed":
            return
        both = [x for x in case["calls"] if x.get("together")]
        strict = not c.get("together") or len(both) < 2 or all(x["clean_up"] is None for x in both)
        if ph["exc"] is not None:
            if strict:
                viol(("after-" if not c.get("together") else "") + "raised", f"call {k} raised {ph['exc']}")
            return
        for kind, msg in check_result(ph["res"], req, exp, flagged_ok=not strict):
            viol(("after-" if not c.get("together") else "") + kind, f"call {k}: {msg}")
    elif prop == "C16":
        if not crashed and ph["exc"] is not None:
            viol("raised", f"call {k} raised {ph['exc']}")
            return
        names = [ref.dataset_v(d)["name"] for d in req["datasets"]]
        if crashed:
            state.pop("known", None)
            st, rb = fork_call(lambda: read_back(root, names, False), 60)
            if st != "ok":
                raise RuntimeError(f"reader: {st} {rb}")
            reads = [rb]
            when = f"after call {k} was interrupted"
        else:
            reads = ph["info"]["reads"]
            when = f"while or after call {k} ran"
        for rb in reads:
            judge_read(rb, req, exp, viol, state, when, names)


def judge_read(rb, req, exp, viol, state, when, names):
    if "exc" in rb and rb.get("faulted"):
        return
    if "exc" in rb:
        viol("read-failed", f"reading the cache {when} failed: {rb['exc']}")
        return
    recs = [r for n in names for r in rb["data"].get(n, [])]
    for n, rs in rb["data"].items():
        if any(r["fold_descriptor"]["name"] != n for r in rs):
            viol("read-foreign", f"the data of {n} contains another dataset's entries")
    for kind, msg in check_records(recs, req, exp, stored=True):
        if kind == "missing" and not rb["final"]:
            continue
        viol("read-" + kind, f"reading the cache {when}: {msg}")
    if rb["final"] and set(names) - set(rb["names"]):
        viol("read-datasets", f"datasets {sorted(set(names) - set(rb['names']))} not found in the cache")

    def key(r):
        fd = r["fold_descriptor"]
        return (fd["name"], fd["split_idx"], find_cfg(req["oss"], r["oversampler"], r["oversampler_params"]),
                find_cfg(req["clfs"], r["classifier"], r["classifier_params"], r["classifier_module"]))
    got = {key(r): r for r in recs}
    gone = [x for x in state.get("known", ()) if x not in got]
    if gone:
        viol("read-vanished", f"an evaluation read before is missing {when}: {gone[0]}")
    state["known"] = set(got)
    # the summary carries exactly the entries, column by column
    groups = {}
    for x in got:
        groups.setdefault((x[0], x[2], x[3]), set()).add(x[1])
    seen = set()
    for rows_ in rb["sum"].values():
        for r in rows_:
            g = (r["db_name"], find_cfg(req["oss"], r["oversampler"], r["oversampler_params"]),
                 find_cfg(req["clfs"], r["classifier"], r["classifier_params"], r["classifier_module"]))
            if g in seen:
                viol("summary-split", f"summary {when}: configuration {g} appears in several rows")
                continue
            seen.add(g)
            if g not in groups:
                viol("summary-alien", f"summary {when}: row for {g}, which has no entries")
                continue
            sp = list(r["split_idx"])
            if sorted(sp) != sorted(groups[g]):
                viol("summary-folds", f"summary {when}: row {g} lists folds {sp}, entries exist for {sorted(groups[g])}")
                continue
            for j, x in enumerate(sp):
                e = got[(g[0], x, g[1], g[2])]
                if not (near(r["auc"][j], e["scores"]["auc"]) and vec_near(r["y_pred"][j], e["y_pred"])
                        and vec_near(r["y_test"][j], e["y_test"])
                        and nan_eq(r["oversampling_error"][j], e["oversampling_error"])
                        and nan_eq(r["error"][j], e["error"])
                        and near(r["oversampling_runtime"][j], e["oversampling_runtime"])):
                    viol("summary-values", f"summary {when}: row {g} carries values of another entry for fold {x}")
                    break
    miss = [g for g in groups if g not in seen]
    if miss:
        viol("summary-missing", f"summary {when}: {len(miss)} configurations with stored entries are missing, "
             f"e.g. {miss[0]} ({req['oss'][miss[0][1]][1]})")


def nan_eq(a, b):
    na = a is None or (isinstance(a, float) and math.isnan(a))
    nb = b is None or (isinstance(b, float) and math.isnan(b))
    return (na and nb) or a == b


def stored_cells(root, req):
    out = {"os": set(), "ev": set()}
    for p in listing(root):
        b = os.path.basename(p)
        d = own_load(os.path.join(root, p))
        if not isinstance(d, dict):
            continue
        ext = p.rsplit(".", 1)[-1]
        try:
            fd = d["fold_descriptor"]
            if "classifier" in d:
                oi = find_cfg(req["oss"], d["oversampler"], d["oversampler_params"])
                ci = find_cfg(req["clfs"], d["classifier"], d["classifier_params"], d["classifier_module"])
                out["ev"].add((fd["name"], fd["split_idx"], oi, ci, ext))
            elif "oversampler" in d and "X_train" in d:
                o = d["oversampler"]
                oi = find_cfg(req["oss"], o["class_name"], o)
                out["os"].add((fd["name"], fd["split_idx"], oi, ext))
        except (KeyError, TypeError):
            continue
    return out


def check_recompute(req, exp, ph, stored, viol):
    if not stored:
        return
    ser = {"json", "pickle"}
    samples = {}
    fits = {}
    for e in ph["log"]:
        if e[2] == "sample":
            samples[(e[3], e[4])] = 1
        elif e[2] == "fit":
            fits[(e[3], e[4])] = 1
    Xd = {}
    for e in exp:
        o = req["oss"][e["oi"]]
        c = req["clfs"][e["ci"]]
        if c[1] == "SimClf" and any((e["name"], e["split"], e["oi"], e["ci"], x) in stored["ev"] for x in ser):
            d = e["var"]["main"]["Xd"]
            # another classifier cell on identical training data may legitimately fit
            twins = [f for f in exp if f["var"]["main"]["Xd"] == d and f["ci"] == e["ci"] and f is not e]
            if not twins and (c[2]["tag"], d) in fits:
                viol("recomputed-evaluation", f"stored evaluation of fold {e['split']}, oversampler {e['oi']}, "
                     f"classifier {e['ci']} was computed again")
        if o[1] == "SimOS" and any((e["name"], e["split"], e["oi"], x) in stored["os"] for x in ser):
            d = e["var"]["fallback"]["Xd"] if "fallback" in e["var"] else e["var"]["main"]["Xd"]
            if (o[2]["tag"], d) in samples:
                viol("recomputed-oversampling", f"stored oversampling of fold {e['split']}, oversampler {e['oi']} "
                     "was computed again")


def damage(root, ctx, k, p, agg):
    """truncate stored files, as an earlier torn write would have"""
    n = 0
    for f in sorted(listing(root)):
        if os.path.basename(f).startswith("note"):
            continue
        if ctx.ch.choose(f"{k}/damage", 2, p):
            path = os.path.join(root, f)
            size = os.path.getsize(path)
            m = ctx.ch.choose(f"{k}/cut", 9)
            if m < 6:
                cut = [0, 1, size // 2, max(0, size - 1), size // 3, max(0, size - 2)][m]
            else:
                # right after a character that can end a document, or anywhere
                with open(path, "rb") as fh:
                    raw = fh.read()
                ends = [i + 1 for i, ch in enumerate(raw[:-1]) if ch in b"}]\".,"] if m == 8 else \
                    [i + 1 for i, ch in enumerate(raw[:-1]) if ch in b"}"] if m == 7 else list(range(size))
                cut = ends[ctx.ch.choose(f"{k}/where", len(ends))] if ends else 0
            with open(path, "r+b") as fh:
                fh.truncate(min(cut, max(0, size - 1)))
            n += 1
    agg["stats"]["faults"]["truncated_file"] = agg["stats"]["faults"].get("truncated_file", 0) + n


NEIGH = {"notes.txt": b"top level notes", "fold_top.json": b"{}", "oversampling_top.json": b"{}",
         "other_ds/oversampling_0000_0000_x.json": b"{\"a\": 1}", "other_ds/fold_0000_0000.json": b"{\"b\": 2}",
         "other_ds/evaluation_0000_0000_y.json": b"{\"c\": 3}", "{ds}/README.txt": b"keep me",
         "{ds}/my_oversampling.json": b"keep", "{ds}/manifold_notes.json": b"keep", "{ds}/my_fold.txt": b"keep", "{ds}_backup/fold_0000_0000.json": b"backup",
         "{ds}_backup/oversampling_0000_0000_z.pickle": b"backup"}


def neighbours(root, req):
    out = {}
    for d in req["datasets"]:
        name = ref.dataset_v(d)["name"]
        for p, b in NEIGH.items():
            p = p.replace("{ds}", name)
            os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
            with open(os.path.join(root, p), "wb") as f:
                f.write(b)
            out[p] = b
    return out


def judge_c09(case, k, c, req, exp, ph, viol, state, root, nb):
    if ph["exc"] is not None:
        if c.get("iofaults"):
            state["incomplete"] = True
            for p, b in nb.items():
                if ph["files"].get(p) != len(b):
                    viol("removed-foreign", f"file {p} does not belong to the evaluation but was removed or changed")
            return
        viol("raised", f"call {k} raised {ph['exc']}")
        return
    flagged = bool(c.get("iofaults") or (k and case["calls"][0].get("iofaults")))
    for kind, msg in check_result(ph["res"], req, exp, flagged_ok=flagged):
        viol(("later-" if k else "") + kind, msg)
    if k == 0:
        names = [ref.dataset_v(d)["name"] for d in req["datasets"]]
        files = ph["files"]
        und = [p for p in ph["info"]["undurable"]]
        bad = [os.path.relpath(p, root) for p in und if os.path.basename(p).startswith("evaluation")]
        reported = [os.path.relpath(r["__file"], root) for r in (ph["res"].get("recs") or []) if "__file" in r]
        bad = sorted(set(bad) | {p for p in reported if os.path.join(root, p) in und})
        if bad:
            viol("not-durable", f"stored evaluation {bad[0]} (and {len(bad) - 1} more) would not survive a power loss at return")
        for p, b in nb.items():
            if files.get(p) != len(b):
                viol("removed-foreign", f"file {p} does not belong to the evaluation but was removed or changed")
        for nme in names:
            mine = [p for p in files if p.startswith(nme + os.sep) and p not in nb]
            left_os = [p for p in mine if os.path.basename(p).startswith("oversampling")]
            left_fold = [p for p in mine if os.path.basename(p).startswith("fold")]
            evs = [p for p in mine if os.path.basename(p).startswith("evaluation")]
            if c["clean_up"] in ("oversamplings", "all") and left_os:
                viol("left-oversamplings", f"{len(left_os)} oversampling files left after clean-up")
            if c["clean_up"] == "all" and left_fold:
                viol("left-folds", f"{len(left_fold)} fold files left after clean-up")
            if c["clean_up"] != "all" and len(left_fold) < n_splits(req):
                viol("removed-folds", f"clean-up mode {c['clean_up']} removed fold files")
            if not c.get("iofaults") and c["clean_up"] is None and len(left_os) < n_splits(req) * len(req["oss"]):
                viol("removed-oversamplings", "oversampling files removed although no clean-up was requested")
            if len(evs) < n_splits(req) * len(req["oss"]) * len(req["clfs"]):
                viol("lost-evaluations", f"only {len(evs)} stored evaluations")
    elif not state.get("incomplete"):
        fits = [e for e in ph["log"] if e[2] == "fit"]
        if fits:
            viol("not-from-storage", "a later identical call computed an evaluation again that was reported as stored")


def judge_c10(c, req, exp, ph, viol):
    res = ph["res"]
    oi = find_cfg(req["oss"], res["os"][0], res["os"][1])
    ci = [i for i, s in enumerate(req["clfs"]) if s[1] == res["clf"][0] and params_match(s[2], res["clf"][2])
          and (res["clf"][1] == s[0] or res["clf"][1].startswith(s[0] + "."))]
    if oi < 0:
        viol("unknown-oversampler", f"selected oversampler {res['os']} is none of the requested ones")
        return
    if len(ci) > 1:
        ci.sort(key=lambda i: -len(req["clfs"][i][2]))
        ci = ci[:1]
    if not ci:
        viol("unknown-classifier", f"selected classifier {res['clf']} is none of the requested ones")
        return
    for what, spec, have in (("oversampler", req["oss"][oi], res["os"][1]),
                             ("classifier", req["clfs"][ci[0]], res["clf"][2])):
        want = jsonable(ref.inst(spec).get_params())
        if {k: v for k, v in want.items() if k in have} != {k: v for k, v in have.items() if k in want} or \
                set(want) - set(have):
            viol("other-parameters", f"selected {what} has parameters {have}, the evaluated one {want}")
    means = {}
    for e in exp:
        x = e["var"]["main"]["scores"][c["score"]]
        means.setdefault((e["oi"], e["ci"]), []).append(x)
    m = {k: float(np.mean([x for x in v if x is not None])) for k, v in means.items()
         if any(x is not None for x in v)}
    best = max(m.values())
    got = m.get((oi, ci[0]))
    if got is None or not near(got, best, 1e-9):
        viol("not-best", f"selected configuration {(oi, ci[0])} has mean {c['score']} {got}, best is {best}")


def judge_c11(c, req, exp, ph, viol):
    table = {(e["name"], e["rep"], e["fold"], e["oi"], e["ci"]): e for e in exp}
    for r in ph["res"].get("recs", []):
        fd = r["fold_descriptor"]
        oi = find_cfg(req["oss"], r["oversampler"], r["oversampler_params"])
        ci = find_cfg(req["clfs"], r["classifier"], r["classifier_params"], r["classifier_module"])
        e = table.get((fd["name"], fd["repeat_idx"], fd["fold_idx"], oi, ci))
        if e is None:
            continue
        rt, ort = r["runtime"], r["oversampling_runtime"]
        m = e["var"]["main"]
        if e["os_fail"] == "timeout":
            if ort is None or ort >= 0:
                viol("timeout-marker", f"timed-out oversampling reports runtime {ort}")
        else:
            want = e["os_d"] if req["oss"][oi][1] == "SimOS" else 0.0
            if ort < 0 or abs(ort - want) > 1e-4:
                viol("oversampling-runtime", f"oversampling took {want} s, reported {ort}")
        want = m["clf_d"] if req["clfs"][ci][1] == "SimClf" else 0.0
        if rt < 0 or abs(rt - want) > 1e-4:
            viol("runtime", f"classifier took {want} s, reported {rt}")
    if ph["res"]["kind"] == "unreadable":
        viol("unreadable", ph["res"]["msg"])
