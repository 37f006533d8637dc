"""
joblib backend on simulated processes.

joblib's own dispatcher runs unmodified; only the executor below it is
replaced.  As in loky, submitted batches are pickled later, by a feeder
thread, and run in long-lived worker processes with fresh module state.
"""
import pickle


import joblib.parallel
from joblib._parallel_backends import (ParallelBackendBase, SequentialBackend,
                                       FallbackToBackend, AutoBatchingMixin)
import cloudpickle
from joblib.externals.loky.process_executor import TerminatedWorkerError

from .core import active, SimUnsupported


class Fut:
    def __init__(self):
        self.done = False
        self.val = None
        self.exc = None
        self.cb = None

    def result(self, timeout=None):
        if self.exc is not None:
            raise self.exc
        return self.val


class Executor:
    def __init__(self, s, t, n):
        self.s = s
        self.n = n
        self.pending = []             # (fut, func) not yet pickled
        self.calls = []               # (fut, bytes)
        self.results = []             # (fut, bytes)
        self.running = {}
        self.broken = False
        self.stop = False
        self.procs = []
        base = s.uname("loky")
        main = t.proc
        s.spawn(self.feed, base + ".feeder", main)
        s.spawn(self.manage, base + ".manager", main)
        for k in range(n):
            p = s.new_proc(f"{base}.w{k}", main)
            p.kind = "loky"
            p.fds = set()          # spawned, not forked
            self.procs.append(p)
            if s.swapper is not None:
                s.swapper.fresh(p)
            s.spawn(lambda p=p: self.work(p), p.name, p)

    def feed(self):
        s = self.s
        while True:
            s.block(lambda: self.pending and len(self.calls) <= self.n, None, "loky.feed")
            if self.stop:
                return
            fut, func = self.pending[0]
            s.point("loky.pickle")
            try:
                data = cloudpickle.dumps(func)
            except Exception as e:
                self.pending.pop(0)
                self.results.append((fut, None, e))
                continue
            self.pending.pop(0)
            self.calls.append((fut, data))

    def work(self, p):
        s = self.s
        while True:
            s.block(lambda: bool(self.calls), None, "loky.idle")
            fut, data = self.calls.pop(0)
            self.running[p] = fut
            s.point("loky.got")
            try:
                func = pickle.loads(data)
                val = func()
                out = (fut, cloudpickle.dumps(val), None)
            except SimUnsupported:
                raise
            except BaseException as e:  # noqa
                try:
                    e2 = pickle.loads(cloudpickle.dumps(e))
                except Exception:
                    e2 = RuntimeError(f"{type(e).__name__}: {e}")
                out = (fut, None, e2)
            s.point("loky.result")
            self.running.pop(p, None)
            self.results.append(out)

    def dead(self):
        return any(not p.alive for p in self.procs)

    def manage(self):
        s = self.s
        while True:
            s.block(lambda: bool(self.results) or (self.dead() and not self.broken), None,
                    "loky.manage")
            if self.stop:
                return
            if self.results:
                fut, data, exc = self.results.pop(0)
                if exc is not None:
                    fut.exc = exc
                else:
                    fut.val = pickle.loads(data)
                fut.done = True
                if fut.cb is not None:
                    fut.cb(fut)
                continue
            self.broken = True
            s.probe("loky_broken")
            for p in self.procs:
                s.proc_die(p, -9)
            futs = list(self.running.values()) + [f for f, _ in self.calls] + \
                [f for f, _ in self.pending]
            self.calls.clear()
            self.pending.clear()
            self.running.clear()
            for f in futs:
                f.exc = TerminatedWorkerError("a worker process died unexpectedly")
                f.done = True
                if f.cb is not None:
                    f.cb(f)

    def submit(self, func, cb):
        fut = Fut()
        fut.cb = cb
        if self.broken:
            raise TerminatedWorkerError("executor is broken")
        self.pending.append((fut, func))
        self.s.point("loky.submit")
        return fut

    def kill(self):
        self.stop = True
        for p in self.procs:
            self.s.proc_die(p, -9)


class SimLokyBackend(AutoBatchingMixin, ParallelBackendBase):
    supports_retrieve_callback = True
    supports_inner_max_num_threads = True
    _ex = None

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            return max(8 + 1 + n_jobs, 1)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        n_jobs = self.effective_n_jobs(n_jobs)
        s, t = active()
        if n_jobs == 1 or s is None:
            raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
        if t.proc is not s.root and t.proc.kind != "program":
            raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
        self.parallel = parallel
        # one executor per calling thread
        ex = getattr(t, "loky_ex", None)
        if ex is None or ex.broken or ex.stop or ex.n != n_jobs:
            if ex is not None and not ex.stop:
                ex.kill()
            ex = t.loky_ex = Executor(s, t, n_jobs)
        self._ex = ex
        return n_jobs

    def submit(self, func, callback=None):
        return self._ex.submit(func, callback)

    def retrieve_result_callback(self, out):
        return out.result()

    def terminate(self):
        self._ex = None
        self.reset_batch_stats()

    def abort_everything(self, ensure_ready=True):
        if self._ex is not None:
            self._ex.kill()
            self._ex = None
        if ensure_ready:
            self.configure(n_jobs=self.parallel.n_jobs, parallel=self.parallel)

    def get_nested_backend(self):
        return SequentialBackend(nesting_level=1), None


def install():
    joblib.parallel.BACKENDS["loky"] = SimLokyBackend
    joblib.parallel.BACKENDS["multiprocessing"] = SimLokyBackend
