"""
Simulated random generator: a RandomState whose draws are, with a seeded
probability, replaced by extreme or repeated values of the documented range
(fault kind `extreme_draw`).  Every other draw comes from the generator's
ordinary stream.  The fault decisions go through the simulation's decision
stream, so they are replayable and can be minimised away one by one.
"""
import numpy as np

EPS = 1e-9
ONE_LO = 1.0 - EPS
TOP = 1.0 - 2.0 ** -53          # the largest value a RandomState delivers


class AdvRandomState(np.random.RandomState):
    """legal, but hostile, RandomState"""

    def __init__(self, seed, decide=None, on_draw=None):
        super().__init__(seed)
        self._decide = decide
        self._on_draw = on_draw
        self._nested = False
        self.n_draws = 0
        self.n_extreme = 0

    # copies made by library code (pickling, deepcopy, clone) share the seam
    def __deepcopy__(self, memo):
        other = AdvRandomState(0, self._decide, self._on_draw)
        other.set_state(self.get_state())
        return other

    def __reduce__(self):
        return (np.random.RandomState, (), self.get_state())

    def _mode(self, n):
        """0: ordinary draw, 1..n-1: which extreme"""
        if self._nested:
            return 0
        self.n_draws += 1
        if self._on_draw is not None:
            self._on_draw(self)
        if self._decide is None:
            return 0
        m = self._decide(n)
        if m:
            self.n_extreme += 1
        return m

    def _plain(self, fn, *args):
        """an ordinary draw of a method that is built on other methods"""
        if self._nested:
            return fn(*args)
        self._nested = True
        try:
            return fn(*args)
        finally:
            self._nested = False

    def _unit(self, x, m):
        if m == 0:
            return x
        if np.ndim(x) == 0:
            return TOP if m > 5 else EPS if m % 2 else ONE_LO
        x = np.array(x)
        if m == 1:
            x[...] = EPS
        elif m == 2:
            x[...] = ONE_LO
        elif m == 3:
            x[...] = x.flat[0] if x.size else EPS
        elif m == 4 and x.size:
            x.flat[::2] = EPS
            x.flat[1::2] = ONE_LO
        elif m == 5 and x.size:
            x.flat[-1] = EPS
        elif m == 6:
            x[...] = TOP
        elif m == 7 and x.size:
            x.flat[0] = TOP
        return x

    def random_sample(self, size=None):
        return self._unit(super().random_sample(size), self._mode(8))

    def random(self, size=None):
        return self.random_sample(size)

    def rand(self, *args):
        return self.random_sample(args if args else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        x = super().uniform(low, high, size)
        m = self._mode(3)
        if m == 0:
            return x
        lo = np.broadcast_to(low, np.shape(x))
        hi = np.broadcast_to(high, np.shape(x))
        v = lo + (hi - lo) * (EPS if m == 1 else ONE_LO)
        return float(v) if np.ndim(x) == 0 else np.array(v, dtype=float)

    def randint(self, low, high=None, size=None, dtype=int):
        x = super().randint(low, high, size, dtype)
        m = self._mode(4)
        if m == 0:
            return x
        lo, hi = (0, low) if high is None else (low, high)
        if np.ndim(lo) or np.ndim(hi):
            return x
        v = {1: lo, 2: hi - 1}.get(m)
        if np.ndim(x) == 0:
            return type(x)(lo if v is None else v)
        x = np.array(x)
        if v is None:
            x[...] = x.flat[0] if x.size else lo
        else:
            x[...] = v
        return x

    def choice(self, a, size=None, replace=True, p=None):
        x = self._plain(super().choice, a, size, replace, p)
        m = self._mode(4)
        if m == 0:
            return x
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(arr)
        ok = np.arange(n) if p is None else np.where(np.asarray(p) > 0)[0]
        if len(ok) == 0:
            return x
        k = 1 if size is None else int(np.prod(size))
        if k == 0:
            return x
        if replace or size is None:
            one = {1: ok[0], 2: ok[-1], 3: ok[len(ok) // 2]}[m]
            idx = np.repeat(one, k)
        else:
            if k > len(ok):
                return x
            idx = ok[:k] if m == 1 else ok[::-1][:k] if m == 2 else ok[-k:]
        if size is None:
            return arr[idx[0]]
        return arr[idx].reshape(np.shape(x))

    def permutation(self, x):
        r = self._plain(super().permutation, x)
        m = self._mode(3)
        if m == 0:
            return r
        b = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return b if m == 1 else b[::-1].copy()

    def shuffle(self, x):
        m = self._mode(3)
        if m == 0:
            return self._plain(super().shuffle, x)
        if m == 2:
            x[:] = x[::-1].copy() if isinstance(x, np.ndarray) else list(x)[::-1]
        return None

    def normal(self, loc=0.0, scale=1.0, size=None):
        x = super().normal(loc, scale, size)
        m = self._mode(4)
        if m == 0:
            return x
        z = {1: 0.0, 2: 5.0, 3: -5.0}[m]
        v = np.broadcast_to(np.asarray(loc, dtype=float) + z * np.asarray(scale, dtype=float), np.shape(x))
        return float(v) if np.ndim(x) == 0 else np.array(v)
