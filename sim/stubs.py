"""
Stub oversamplers and classifiers whose duration and failure per fold the
case decides.  PLAN maps (kind, tag, digest of the training features) to an
action; it is shared by all simulated processes and never modified by them.
"""
import hashlib
import time

import numpy as np

from .core import active

PLAN = {}
QUIET = True


def digest(X):
    X = np.ascontiguousarray(np.asarray(X, dtype=float))
    return hashlib.md5(X.tobytes() + str(X.shape).encode()).hexdigest()[:12]


def _act(kind, tag, X):
    return PLAN.get((kind, tag, digest(X)), {})


def effect(table):
    """what a parameter array does: its middle element decides"""
    if table is None:
        return 0.0
    a = np.asarray(table, dtype=float)
    return round((a[len(a) // 2, len(a) // 2] - 0.5) * 1e10) * 0.3


class SimOS:
    """deterministic oversampler: minority rows plus seeded jitter"""
    categories = []

    def __init__(self, tag=0, proportion=1.0, transform=0, random_state=5, carry=0, table=None, **_kw):
        self.tag = tag
        self.table = table
        self.todo = {}
        self.carry = carry      # whether calls influence later calls of the same object
        self.calls = 0
        self.proportion = proportion
        self.transform = transform
        self.random_state = random_state

    def get_params(self, deep=False):
        return {"tag": self.tag, "proportion": self.proportion, "transform": self.transform,
                "random_state": self.random_state, "carry": self.carry,
                **({} if self.table is None else {"table": self.table}), "class_name": "SimOS"}

    def set_params(self, **p):
        for k, v in p.items():
            setattr(self, k, v)
        return self

    def _t(self, X):
        if self.transform == 0:
            return X
        if self.transform == 1:
            return X[:, :-1] * 2.0 + 1.0
        return X[:, ::-1] * np.arange(1, X.shape[1] + 1)

    def compute(self, X, y):
        rs = np.random.RandomState(self.random_state + self.carry * self.calls)
        self.calls += 1
        y = np.asarray(y)
        mn = X[y == 1]
        k = max(0, int((np.sum(y != 1) - len(mn)) * self.proportion))
        base = mn[rs.randint(0, len(mn), k)] if k else mn[:0]
        new = base + rs.normal(size=base.shape) * 0.05 + effect(self.table)
        Xs = np.vstack([X, new])
        ys = np.hstack([y, np.repeat(1, k)])
        return self._t(Xs), ys

    def sample(self, X, y):
        s, t = active()
        a = _act("os", self.tag, X)
        if s is not None:
            s.note("sample", self.tag, digest(X), t.proc.name)
            if a.get("d"):
                time.sleep(a["d"])
            s.point("sample")
        f = a.get("fail")
        self.todo = a
        if f == "empty":
            raise ValueError
        if f == "value":
            raise ValueError("stub oversampler failed")
        if f == "runtime":
            raise RuntimeError("stub oversampler failed at run time")
        if a.get("warn"):
            import warnings
            warnings.warn("stub oversampler warning")
        out = self.compute(X, y)
        if s is not None:
            s.note("sampled", self.tag, digest(X), t.proc.name)
        return out

    def preprocessing_transform(self, X):
        s, _ = active()
        a = self.todo
        if s is not None:
            if a.get("d2"):
                time.sleep(a["d2"])
            if a.get("fail") == "transform":
                raise RuntimeError("stub oversampler cannot transform")
        return self._t(X)


class SimClf:
    """deterministic centroid classifier"""

    def __init__(self, tag=0, temp=1.0, warm=0, hard=0, shift=0.0, table=None):
        self.table = table
        self.tag = tag
        self.temp = temp
        self.warm = warm        # like warm_start: a fit continues from the last one
        self.hard = hard        # predictions 0 and 1 only: many equal scores
        self.shift = shift

    def get_params(self, deep=False):
        return {"tag": self.tag, "temp": self.temp, "warm": self.warm, "hard": self.hard, "shift": self.shift,
                **({} if self.table is None else {"table": self.table})}

    def fit(self, X, y):
        s, t = active()
        a = _act("clf", self.tag, X)
        if s is not None:
            s.note("fit", self.tag, digest(X), t.proc.name)
            if a.get("d"):
                time.sleep(a["d"])
            s.point("fit")
        f = a.get("fail")
        self.todo = a
        if f == "empty":
            raise RuntimeError
        if f == "value":
            raise ValueError("stub classifier failed")
        if f == "runtime":
            raise RuntimeError("stub classifier failed at run time")
        X = np.asarray(X, dtype=float)
        y = np.asarray(y)
        c1, c0 = X[y == 1].mean(axis=0), X[y != 1].mean(axis=0)
        if self.warm and hasattr(self, "c1") and len(self.c1) == len(c1):
            c1, c0 = (c1 + self.c1) / 2, (c0 + self.c0) / 2
        self.c1, self.c0 = c1, c0
        self.n1 = float(np.sum(y == 1)) / len(y)
        return self

    todo = {}
    lean = 0.0

    def predict_proba(self, X):
        s, _ = active()
        if s is not None:
            if self.todo.get("d2"):
                time.sleep(self.todo["d2"])
            if self.todo.get("fail") == "proba":
                raise ValueError("stub classifier cannot predict")
        X = np.asarray(X, dtype=float)
        d1 = np.sum((X - self.c1) ** 2, axis=1)
        d0 = np.sum((X - self.c0) ** 2, axis=1)
        z = np.clip((d0 - d1) / self.temp + (self.n1 - 0.5) + self.shift + self.lean + effect(self.table), -30, 30)
        if self.hard:
            z = np.where(z > 0, 30.0, -30.0)
        p = 1.0 / (1.0 + np.exp(-z))
        return np.vstack([1 - p, p]).T
