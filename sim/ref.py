"""
Reference model of the evaluation pipeline: a plain sequential loop over
folds, oversamplers and classifiers, written independently of
smote_variants.evaluation.
"""
import importlib

import numpy as np
from sklearn.metrics import log_loss, roc_auc_score
from sklearn.model_selection import RepeatedStratifiedKFold

from . import stubs

_DS = {}


# further problems: (size/shape of, name, minority label); names that are prefixes of others or contain
# characters with a meaning in file name patterns
EXTRA = {6: (3, "ds6", 1), 7: (1, "ds10", 1), 8: (2, "ds[3]", 1), 9: (4, "ds 4.v2", 1), 10: (0, "ds1_x", 0),
         11: (5, "evaluation*", 1)}


def dataset(i):
    """small imbalanced two-class problems; i selects size and shape"""
    if i in _DS:
        return _DS[i]
    rs = np.random.RandomState(1000 + i)
    like, name, mlab = EXTRA.get(i, (i, f"ds{i}", 1))
    n_min = [8, 10, 12, 9, 14, 11][like % 6]
    n_maj = [18, 25, 20, 30, 22, 40][like % 6]
    d = [2, 3, 4, 3, 2, 5][like % 6]
    if i == 6:
        n_min, n_maj, d = 110, 310, 6
    X = np.vstack([rs.normal(size=(n_maj, d)) * (1 + i % 3), rs.normal(size=(n_min, d)) + 0.8])
    X = X * np.linspace(1, 5, d) + np.linspace(-3, 10, d)
    y = np.hstack([np.repeat(1 - mlab, n_maj), np.repeat(mlab, n_min)])
    p = rs.permutation(len(y))
    out = {"name": name, "data": X[p], "target": y[p], "DESCR": ""}
    _DS[i] = out
    return out


def dataset_v(spec):
    """dataset by spec: int, or [int, variant] for same name but other data"""
    if isinstance(spec, int):
        return dataset(spec)
    base = dataset(spec[0])
    X, y = base["data"].copy(), base["target"].copy()
    rs = np.random.RandomState(77 + spec[1])
    if spec[1] in (1, 2):
        X = X + rs.normal(size=X.shape) * 0.5
    elif spec[1] == 3:
        # a single value in the middle
        X[len(X) // 2, X.shape[1] // 2] += 0.75
    elif spec[1] == 4:
        # two samples with exchanged labels
        i, j = np.where(y == 1)[0][2], np.where(y == 0)[0][5]
        y[i], y[j] = 0, 1
    elif spec[1] == 5:
        q = rs.permutation(len(y))
        X, y = X[q], y[q]
    return {**base, "data": X, "target": y}


def scores(y, p):
    lab = (p > 0.5).astype(int)
    half = np.where(p == 0.5)[0]
    if len(half) > 1:
        lab[half[len(half) // 2:]] = 1
        lab[half[: len(half) // 2]] = 0
    tp = int(np.sum((y == 1) & (lab == 1)))
    fn = int(np.sum((y == 1) & (lab == 0)))
    tn = int(np.sum((y != 1) & (lab == 0)))
    fp = int(np.sum((y != 1) & (lab == 1)))
    P, N = tp + fn, tn + fp
    s = {"tp": tp, "tn": tn, "fp": fp, "fn": fn, "p": P, "n": N}
    s["acc"] = (tp + tn) / (P + N)
    s["sens"] = tp / P
    s["spec"] = tn / N
    s["ppv"] = tp / (tp + fp) if tp + fp else 0.0
    s["npv"] = tn / (tn + fn) if tn + fn else 0.0
    s["fpr"] = 1 - s["spec"]
    s["fdr"] = 1 - s["ppv"]
    s["fnr"] = 1 - s["sens"]
    s["bacc"] = (s["sens"] + s["spec"]) / 2
    s["gacc"] = (s["sens"] * s["spec"]) ** 0.5
    s["f1"] = 2 * tp / (2 * tp + fp + fn)
    den = float(tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    s["mcc"] = None if den == 0 else (tp * tn - fp * fn) / den ** 0.5
    s["informedness"] = s["sens"] + s["spec"] - 1
    s["markedness"] = s["ppv"] + s["npv"] - 1
    s["brier"] = float(np.mean((p - y) ** 2))
    s["log_loss"] = float(log_loss(y, p))
    s["auc"] = float(roc_auc_score(y, p))
    return s


AGG = ["acc", "sens", "spec", "ppv", "npv", "fpr", "fdr", "fnr", "bacc", "gacc", "f1", "mcc",
       "informedness", "markedness", "brier", "log_loss", "auc"]


def nd(n, v):
    """
    parameter arrays of which two differ in the middle element only, beyond the
    digits numpy prints; large ones (n = 41) are abbreviated in print as well
    """
    a = np.arange(n * n, dtype=float).reshape(n, n) / 8.0
    a[n // 2, n // 2] = 0.5 + v * 1e-10
    return a


def decode(obj):
    """cases are JSON; parameters with numpy values are written {"__nd__": [n, v]} and {"__np__": x}"""
    if isinstance(obj, dict):
        if "__nd__" in obj:
            return nd(*obj["__nd__"])
        if "__np__" in obj:
            return np.asarray(obj["__np__"])[()]
        return {k: decode(v) for k, v in obj.items()}
    return obj


def inst(spec):
    return getattr(importlib.import_module(spec[0]), spec[1])(**decode(spec[2]))


def folds(ds, validator):
    v = validator or {"n_repeats": 2, "n_splits": 5, "random_state": 5}
    rk = RepeatedStratifiedKFold(**v)
    X, y = ds["data"], ds["target"]
    for idx, (tr, te) in enumerate(rk.split(X, y, y)):
        yield idx, idx // v["n_splits"], idx % v["n_splits"], tr, te


def expected(req, cells=None):
    """
    req: {"datasets", "oss", "clfs", "validator", "scaler"}; cells: planned
    actions keyed "os|ds|os_index|split" / "clf|ds|os|clf|split".
    Returns (list of expected entries, PLAN for the stubs).
    """
    cells = cells or {}
    out, plan = [], {}
    for di, dspec in enumerate(req["datasets"]):
        ds = dataset_v(dspec)
        for split, rep, fold, tr, te in folds(ds, req["validator"]):
            X, y = ds["data"], ds["target"]
            Xtr, ytr, Xte, yte = X[tr], y[tr], X[te], y[te]
            if req["scaler"] is not None:
                sc = inst(req["scaler"])
                Xtr = sc.fit_transform(Xtr, ytr)
                Xte = sc.transform(Xte)
            for oi, os_ in enumerate(req["oss"]):
                act = cells.get(f"os|{di}|{oi}|{split}", {})
                stub = os_[1] == "SimOS"
                if stub:
                    plan[("os", os_[2]["tag"], stubs.digest(Xtr))] = act
                variants = {}
                obj = inst(os_)
                err = None
                if act.get("fail") in ("value", "runtime", "empty", "transform"):
                    variants["main"] = (Xtr, ytr, Xte, "error")
                elif act.get("fail") == "timeout":
                    variants["main"] = (Xtr, ytr, Xte, "timeout")
                else:
                    try:
                        if stub:
                            Xs, ys = obj.compute(Xtr, ytr)
                        else:
                            Xs, ys = obj.sample(Xtr, ytr)
                        variants["main"] = (Xs, ys, obj.preprocessing_transform(Xte), None)
                    except (ValueError, RuntimeError):
                        variants["main"] = (Xtr, ytr, Xte, "error")
                if variants["main"][3] is None:
                    variants["fallback"] = (Xtr, ytr, Xte, "timeout")
                for ci, clf in enumerate(req["clfs"]):
                    ent = {"di": di, "name": ds["name"], "split": split, "rep": rep, "fold": fold,
                           "oi": oi, "ci": ci, "y_test": yte, "var": {},
                           "db_n": len(y), "db_n_attr": X.shape[1],
                           "os_d": act.get("d", 0.0) + (0.0 if act.get("fail") in ("value", "runtime", "empty")
                                                        else act.get("d2", 0.0)), "os_fail": act.get("fail")}
                    for vn, (a, b, c, oerr) in variants.items():
                        cact = cells.get(f"clf|{di}|{oi}|{ci}|{split}", {})
                        if clf[1] == "SimClf":
                            k = ("clf", clf[2]["tag"], stubs.digest(a))
                            if k in plan and vn == "fallback":
                                cact = plan[k]
                            elif vn == "fallback" and cact.get("fail"):
                                cact = {"d": cact.get("d", 0.0), "fail": cact["fail"]}
                            elif k in plan:
                                cact = plan[k]
                            plan[k] = cact
                        else:
                            cact = {}
                        cerr = None
                        if cact.get("fail"):
                            cerr = "error"
                            p = np.zeros(len(yte))
                        else:
                            try:
                                p = inst(clf).fit(a, b).predict_proba(c)[:, 1]
                            except (ValueError, RuntimeError):
                                cerr = "error"
                                p = np.zeros(len(yte))
                        ent["var"][vn] = {"y_pred": p, "scores": scores(yte, p), "os_err": oerr,
                                          "clf_err": cerr, "Xd": stubs.digest(a),
                                          "clf_d": cact.get("d", 0.0) + (
                                              0.0 if cact.get("fail") in ("value", "runtime", "empty")
                                              else cact.get("d2", 0.0))}
                    out.append(ent)
    return out, plan
