"""
Process-private interpreter state.

Simulated processes share one interpreter, so state that real processes
would own privately (global random generators, warning filters, log level,
data-valued module globals of the code under test) is swapped whenever the
scheduler moves between processes.
"""
import copy
import logging
import random
import sys
import warnings

import numpy as np

from . import salt

DATA = (int, float, str, bool, bytes, dict, list, set, tuple, np.ndarray, type(None),
        np.random.RandomState)


def _modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == "smote_variants" or n.startswith("smote_variants.")) and m is not None]


def _data_globals(m):
    return {k: v for k, v in vars(m).items()
            if not (k.startswith("__") and k.endswith("__")) and isinstance(v, DATA)}


_KEYS = {}


def _snapshot(m):
    """data-valued globals of a module; the key list is cached per module size"""
    v = vars(m)
    c = _KEYS.get(m)
    if c is None or c[0] != len(v):
        c = _KEYS[m] = (len(v), [k for k in v if not (k.startswith("__") and k.endswith("__"))
                                 and isinstance(v[k], DATA)])
    return {k: v[k] for k in c[1]}


_MODS = []


def _mods():
    n = len(sys.modules)
    if not _MODS or _MODS[0] != n:
        _MODS[:] = [n] + _modules()
    return _MODS[1:]


class State:
    __slots__ = ("np", "py", "w", "lvl", "g", "err", "cfgcls", "salt")


def capture(deep=False):
    st = State()
    st.np = np.random.get_state()
    st.py = random.getstate()
    st.w = (warnings.filters, warnings.showwarning, warnings._showwarnmsg_impl)
    st.lvl = logging.getLogger("smote_variants").level
    st.err = np.geterr()
    st.salt = salt.SALT
    g = {}
    for m in _mods():
        d = _snapshot(m)
        if not d:
            continue
        if deep:
            try:
                d = copy.deepcopy(d)
            except Exception:
                pass
        g[m] = d
    st.g = g
    if deep:
        st.w = (list(warnings.filters), warnings.showwarning, warnings._showwarnmsg_impl)
    return st


def restore(st):
    np.random.set_state(st.np)
    random.setstate(st.py)
    f, sw, si = st.w
    warnings.filters = f
    warnings.showwarning = sw
    warnings._showwarnmsg_impl = si
    warnings._filters_mutated()
    logging.getLogger("smote_variants").setLevel(st.lvl)
    np.seterr(**st.err)
    salt.set_salt(st.salt)
    for m, d in st.g.items():
        v = vars(m)
        for k, x in d.items():
            if v.get(k) is not x:
                v[k] = x


class Swapper:
    def __init__(self):
        self.boot = capture(deep=True)
        self.st = {}
        self.n = 0

    def switch(self, old, new):
        self.st[old] = capture()
        st = self.st.get(new)
        if st is not None:
            restore(st)

    def fork(self, parent, child):
        self.st[child] = capture(deep=True)

    def fresh(self, proc):
        import copy as c
        self.n += 1
        st = State()
        for k in State.__slots__:
            if hasattr(self.boot, k):
                setattr(st, k, getattr(self.boot, k))
        st.g = {m: c.deepcopy(d) for m, d in self.boot.g.items()}
        st.w = (list(self.boot.w[0]),) + self.boot.w[1:]
        st.np = np.random.RandomState(7919 + self.n).get_state()
        if self.boot.salt:
            st.salt = salt.derive(self.n)
        self.st[proc] = st
