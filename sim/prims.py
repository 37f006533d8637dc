"""
Simulated threading and multiprocessing primitives.

Outside a simulated task every class falls back to an uncontended, trivially
correct behaviour (only one real thread ever runs then).
"""
import copy
import errno
import os
import pickle
import threading as _threading
import time as _time

from . import core
from .core import active, SimUnsupported

RealThread = _threading.Thread
_real_sleep = _time.sleep


def _deadline(sim, timeout):
    if timeout is None or timeout < 0:
        return None
    return sim.now + timeout


# --------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock"""
    _shared = False

    def __init__(self):
        self._locked = False
        self._holder = None
        s, t = active()
        self._name = s.uname(f"{t.name}.lock") if s else "lock"

    def acquire(self, blocking=True, timeout=-1):
        s, t = active()
        if s is None:
            while self._locked:
                if not blocking:
                    return False
                _real_sleep(0.001)
            self._locked = True
            return True
        s.point("acq", self._name)
        if self._locked:
            if not blocking or timeout == 0:
                return False
            if not s.block(lambda: not self._locked,
                           _deadline(s, None if timeout is None else timeout),
                           "acquire", self._name):
                return False
        self._locked = True
        self._holder = t
        return True

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._holder = None
        s, _ = active()
        if s is not None:
            s.point("rel", self._name)

    release_lock = release

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False

    def __deepcopy__(self, memo):
        if self._shared:
            return self
        new = type(self)()
        new._locked = self._locked
        return new


class SimRLock:
    """threading.RLock"""
    _shared = False

    def __init__(self):
        self._owner = None
        self._count = 0
        s, t = active()
        self._name = s.uname(f"{t.name}.rlock") if s else "rlock"

    def _me(self):
        s, t = active()
        return t if s is not None else "outside"

    def acquire(self, blocking=True, timeout=-1):
        s, t = active()
        me = self._me()
        if self._owner is me:
            self._count += 1
            return True
        if s is None:
            while self._owner is not None:
                if not blocking:
                    return False
                _real_sleep(0.001)
        else:
            s.point("acq", self._name)
            if self._owner is not None:
                if not blocking or timeout == 0:
                    return False
                if not s.block(lambda: self._owner is None,
                               _deadline(s, timeout), "acquire", self._name):
                    return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s, _ = active()
            if s is not None:
                s.point("rel", self._name)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is self._me()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        s, _ = active()
        if s is not None:
            s.point("rel", self._name)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st[0], self._me()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    def __deepcopy__(self, memo):
        if self._shared:
            return self
        return type(self)()


class SimMPLock(SimLock):
    _shared = True

    def acquire(self, block=True, timeout=None):
        return SimLock.acquire(self, block, -1 if timeout is None else timeout)

    def release(self):
        if not self._locked:
            raise ValueError("semaphore or lock released too many times")
        SimLock.release(self)


class SimMPRLock(SimRLock):
    _shared = True

    def acquire(self, block=True, timeout=None):
        return SimRLock.acquire(self, block, -1 if timeout is None else timeout)


class SimMPSemaphore:
    def __init__(self, value=1):
        self._value = value
        self._max = None
        s, t = active()
        self._name = s.uname(f"{t.name}.sem") if s else "sem"

    def __deepcopy__(self, memo):
        return self

    def acquire(self, block=True, timeout=None):
        s, _ = active()
        if s is None:
            if self._value <= 0:
                return False
            self._value -= 1
            return True
        s.point("acq", self._name)
        if self._value <= 0:
            if not block or timeout == 0:
                return False
            if not s.block(lambda: self._value > 0, _deadline(s, timeout),
                           "acquire", self._name):
                return False
        self._value -= 1
        return True

    def release(self):
        if self._max is not None and self._value >= self._max:
            raise ValueError("semaphore or lock released too many times")
        self._value += 1
        s, _ = active()
        if s is not None:
            s.point("rel", self._name)

    def get_value(self):
        return self._value

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimMPBoundedSemaphore(SimMPSemaphore):
    def __init__(self, value=1):
        super().__init__(value)
        self._max = value


class SimMPEvent:
    def __init__(self):
        self._flag = False

    def __deepcopy__(self, memo):
        return self

    def is_set(self):
        s, _ = active()
        if s is not None:
            s.point("event.is_set")
        return self._flag

    def set(self):
        self._flag = True
        s, _ = active()
        if s is not None:
            s.point("event.set")

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        s, _ = active()
        if s is None or self._flag:
            return self._flag
        s.block(lambda: self._flag, _deadline(s, timeout), "event.wait")
        return self._flag


class SimMPCondition(_threading.Condition):
    def __init__(self, lock=None):
        super().__init__(lock if lock is not None else SimMPRLock())

    def __deepcopy__(self, memo):
        return self


class SimMPValue:
    """multiprocessing.Value / RawValue"""

    def __init__(self, typecode, value=0, lock=True):
        self.value = value
        self._lock = SimMPRLock()

    def __deepcopy__(self, memo):
        return self

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self


# ------------------------------------------------------------------- threads
class SimThread(RealThread):
    _sim_task = None
    _sim_done = False

    def start(self):
        s, t = active()
        if s is None:
            return RealThread.start(self)
        if self._sim_task is not None:
            raise RuntimeError("threads can only be started once")
        if (s.cfg.faults.get("thread_fail") or s.ch.replay) and s.ch.flip(
                "threadfail:" + t.name, s.cfg.faults.get("thread_fail", 0)):
            s.fault("thread_fail", t.name)
            raise RuntimeError("can't start new thread")
        name = f"{t.name}.t{t.nchild}"
        t.nchild += 1
        self._sim_task = s.spawn(self._sim_main, name, t.proc)
        self._started.set()
        s.point("thread.start", name)
        return None

    def _sim_main(self):
        import _thread
        ident = _thread.get_ident()
        self._ident = ident
        _threading._active[ident] = self
        try:
            self.run()
        except SimUnsupported:
            raise
        except SystemExit:
            pass
        except BaseException as e:  # noqa
            s, t = active()
            if s is not None:
                s.thread_errors.append((t.name, f"{type(e).__name__}: {e}"))
                s.note("thread_error", t.name, type(e).__name__)
        self._sim_done = True
        _threading._active.pop(ident, None)

    def join(self, timeout=None):
        if self._sim_task is None:
            if not self._started.is_set():
                raise RuntimeError("cannot join thread before it is started")
            return RealThread.join(self, timeout)
        s, t = active()
        if s is None:
            return None
        if self._sim_task is t:
            raise RuntimeError("cannot join current thread")
        s.block(lambda: self._sim_done, _deadline(s, timeout), "thread.join",
                self._sim_task.name)
        return None

    def is_alive(self):
        if self._sim_task is None:
            return RealThread.is_alive(self)
        s, _ = active()
        if s is not None:
            s.point("thread.is_alive")
        return not self._sim_done and self._sim_task.state != "dead"


class SimTimer(SimThread):
    """threading.Timer"""

    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval = interval
        self.function = function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self.finished = _threading.Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


# --------------------------------------------------------------------- pipes
PIPE_CAP = 65536


class PipeCore:
    """one direction of a byte pipe"""

    def __init__(self, name):
        self.name = name
        self.chunks = []              # bytes objects in the kernel buffer
        self.used = 0
        self.consumed = 0

    def writers(self, s):
        return any(p.alive and (self, "w") in p.fds for p in s.procs)

    def readers(self, s):
        return any(p.alive and (self, "r") in p.fds for p in s.procs)

    def write(self, s, data):
        """blocking write of all bytes, in kernel-sized pieces"""
        off = 0
        n = len(data)
        while off < n:
            if not self.readers(s):
                raise BrokenPipeError(errno.EPIPE, "Broken pipe")
            s.point("pipe.write", self.name)
            if self.used >= PIPE_CAP:
                s.probe("pipe_full")
                s.block(lambda: self.used < PIPE_CAP or not self.readers(s),
                        None, "pipe.write.full", self.name)
                continue
            k = min(n - off, PIPE_CAP - self.used)
            # a small message is written atomically; a larger one may be cut
            # by a concurrent reader/kill at page granularity
            if n - off > 4096 and k > 4096 and s.ch.flip("pipe.short", s.cfg.faults.get("pipe_short", 0.0)):
                s.fault("pipe_short")
                k = 4096
            self.chunks.append(data[off:off + k])
            self.used += k
            off += k
        s.point("pipe.written", self.name)

    def read(self, s, n):
        """blocking read of exactly n bytes; EOFError at end of stream"""
        out = b""
        while len(out) < n:
            if not self.chunks:
                if not self.writers(s):
                    raise EOFError
                s.block(lambda: bool(self.chunks) or not self.writers(s), None,
                        "pipe.read", self.name)
                continue
            c = self.chunks[0]
            need = n - len(out)
            if len(c) <= need:
                out += c
                self.chunks.pop(0)
                self.used -= len(c)
            else:
                out += c[:need]
                self.chunks[0] = c[need:]
                self.used -= need
            s.point("pipe.read", self.name)
        return out

    def ready(self, s):
        return bool(self.chunks) or not self.writers(s)


class SimConnection:
    """multiprocessing.connection.Connection"""

    def __init__(self, rpipe, wpipe, proc):
        self._r = rpipe
        self._w = wpipe
        self._proc = proc
        self._open = True
        if proc is not None:
            if rpipe is not None:
                proc.fds.add((rpipe, "r"))
            if wpipe is not None:
                proc.fds.add((wpipe, "w"))

    def __deepcopy__(self, memo):
        s = core.SIM
        tgt = getattr(s, "fork_target", None) if s else None
        new = SimConnection.__new__(SimConnection)
        new._r, new._w, new._open = self._r, self._w, self._open
        new._proc = tgt if tgt is not None else self._proc
        return new

    def __reduce__(self):
        raise SimUnsupported("sending connections over connections")

    def _check(self, write=False):
        if not self._open:
            raise OSError("handle is closed")
        if write and self._w is None:
            raise OSError("connection is read-only")
        if not write and self._r is None:
            raise OSError("connection is write-only")

    @property
    def closed(self):
        return not self._open

    @property
    def readable(self):
        return self._r is not None

    @property
    def writable(self):
        return self._w is not None

    def fileno(self):
        return 900000 + id(self) % 100000

    def close(self):
        if self._open:
            self._drop()
            s, _ = active()
            if s is not None:
                s.point("conn.close")

    def _drop(self):
        self._open = False
        if self._proc is not None:
            self._proc.fds.discard((self._r, "r"))
            self._proc.fds.discard((self._w, "w"))

    def __del__(self):
        try:
            if self._open:
                self._drop()
        except Exception:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def send_bytes(self, buf, offset=0, size=None):
        self._check(True)
        s, _ = active()
        if s is None:
            raise SimUnsupported("pipe outside the simulation")
        buf = bytes(buf)[offset:] if size is None else bytes(buf)[offset:offset + size]
        n = len(buf)
        hdr = n.to_bytes(8, "little")
        if n > 16384:
            self._w.write(s, hdr)
            self._w.write(s, buf)
        else:
            self._w.write(s, hdr + buf)

    def recv_bytes(self, maxlength=None):
        self._check()
        s, _ = active()
        if s is None:
            raise SimUnsupported("pipe outside the simulation")
        n = int.from_bytes(self._r.read(s, 8), "little")
        return self._r.read(s, n)

    def send(self, obj):
        self._check(True)
        self.send_bytes(dumps(obj))

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def poll(self, timeout=0.0):
        self._check()
        s, _ = active()
        if s is None:
            raise SimUnsupported("pipe outside the simulation")
        s.point("conn.poll")
        if self._r.ready(s):
            return True
        if timeout is not None and timeout <= 0:
            return False
        return s.block(lambda: self._r.ready(s), _deadline(s, timeout), "conn.poll",
                       self._r.name)

    def _ready(self, s):
        return self._r is not None and self._r.ready(s)


def dumps(obj):
    from multiprocessing.reduction import ForkingPickler
    return bytes(ForkingPickler.dumps(obj))


def sim_pipe(duplex=True):
    s, t = active()
    if s is None:
        raise SimUnsupported("pipe outside the simulation")
    if (s.cfg.faults.get("emfile_pipe") or s.ch.replay) and s.ch.flip(
            "emfile:" + t.name, s.cfg.faults.get("emfile_pipe", 0)):
        s.fault("emfile_pipe", t.name)
        raise OSError(errno.EMFILE, "Too many open files")
    a = PipeCore(s.uname("pipe"))
    if duplex:
        b = PipeCore(s.uname("pipe"))
        out = SimConnection(a, b, t.proc), SimConnection(b, a, t.proc)
    else:
        out = SimConnection(a, None, t.proc), SimConnection(None, a, t.proc)
    s.point("pipe.new", a.name)
    return out


class SimMPQueue:
    """multiprocessing.Queue: per-process buffer + feeder thread + pipe"""

    def __init__(self, maxsize=0):
        s, t = active()
        if s is None:
            raise SimUnsupported("queue outside the simulation")
        self._s = s
        self._pipe = PipeCore(s.uname("queue"))
        t.proc.fds.add((self._pipe, "r"))
        t.proc.fds.add((self._pipe, "w"))
        self._bufs = {}               # proc -> list of objects
        self._feeder = {}
        self._cancel = set()
        self._rlock = False
        self._wlock = False
        self._items = 0
        self._maxsize = maxsize if maxsize and maxsize > 0 else None
        self._closed = set()
        s.point("queue.new", self._pipe.name)

    def __deepcopy__(self, memo):
        return self

    def put(self, obj, block=True, timeout=None):
        s, t = active()
        from queue import Full
        if t.proc in self._closed:
            raise ValueError("Queue is closed")
        s.point("queue.put", self._pipe.name)
        if self._maxsize is not None and self._items >= self._maxsize:
            if not block or not s.block(lambda: self._items < self._maxsize,
                                        _deadline(s, timeout), "queue.put.full"):
                raise Full
        self._items += 1
        buf = self._bufs.setdefault(t.proc, [])
        buf.append(obj)
        if t.proc not in self._feeder:
            proc = t.proc
            done = {"flushed": False}
            self._feeder[proc] = done

            def feed():
                while True:
                    s.block(lambda: bool(buf), None, "feeder", self._pipe.name)
                    try:
                        data = dumps(buf[0])
                    except Exception as e:  # real feeder drops unpicklable items
                        s.note("feeder_error", type(e).__name__)
                        self._items -= 1
                        buf.pop(0)
                        continue
                    s.block(lambda: not self._wlock, None, "queue.wlock")
                    self._wlock = True
                    try:
                        n = len(data)
                        hdr = n.to_bytes(8, "little")
                        if n > 16384:
                            self._pipe.write(s, hdr)
                            self._pipe.write(s, data)
                        else:
                            self._pipe.write(s, hdr + data)
                    except BrokenPipeError:
                        pass
                    self._wlock = False
                    buf.pop(0)

            s.spawn(feed, s.uname(f"{t.name}.feeder"), proc)
            proc.feeders.append((self, buf))
            s.point("feeder.start")

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get(self, block=True, timeout=None):
        from queue import Empty
        s, t = active()
        dl = _deadline(s, timeout)
        s.point("queue.get", self._pipe.name)
        if self._rlock:
            if not block or not s.block(lambda: not self._rlock, dl, "queue.rlock"):
                raise Empty
        self._rlock = True
        try:
            if not self._pipe.chunks:
                if not block or not s.block(lambda: bool(self._pipe.chunks), dl,
                                            "queue.get", self._pipe.name):
                    raise Empty
            n = int.from_bytes(self._pipe.read(s, 8), "little")
            data = self._pipe.read(s, n)
            self._items -= 1
        finally:
            if active()[1] is t:
                self._rlock = False
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        s, _ = active()
        s.point("queue.empty")
        return not self._pipe.chunks

    def full(self):
        return self._maxsize is not None and self._items >= self._maxsize

    def qsize(self):
        return self._items

    def close(self):
        s, t = active()
        if s is not None:
            self._closed.add(t.proc)

    def join_thread(self):
        s, t = active()
        buf = self._bufs.get(t.proc)
        if buf is not None:
            s.block(lambda: not buf and not self._wlock, None, "queue.join_thread")

    def cancel_join_thread(self):
        s, t = active()
        self._cancel.add(t.proc)


class SimMPSimpleQueue:
    """multiprocessing.SimpleQueue"""

    def __init__(self):
        r, w = sim_pipe(False)
        self._pr = r._r
        r._open = w._open = False     # ends stay open for the queue's lifetime
        s, t = active()
        t.proc.fds.add((self._pr, "r"))
        t.proc.fds.add((self._pr, "w"))
        self._wl = SimMPLock()
        self._rl = SimMPLock()

    def __deepcopy__(self, memo):
        return self

    def put(self, obj):
        data = dumps(obj)
        s, _ = active()
        with self._wl:
            hdr = len(data).to_bytes(8, "little")
            if len(data) > 16384:
                self._pr.write(s, hdr)
                self._pr.write(s, data)
            else:
                self._pr.write(s, hdr + data)

    def get(self):
        s, _ = active()
        with self._rl:
            n = int.from_bytes(self._pr.read(s, 8), "little")
            data = self._pr.read(s, n)
        return pickle.loads(data)

    def empty(self):
        s, _ = active()
        s.point("queue.empty")
        return not self._pr.chunks

    def close(self):
        s, t = active()
        t.proc.fds.discard((self._pr, "r"))
        t.proc.fds.discard((self._pr, "w"))


# ----------------------------------------------------------------- processes
class Sentinel:
    def __init__(self, proc):
        self.proc = proc

    def _ready(self, s):
        return not self.proc.alive


class SimProcess:
    """multiprocessing.Process with fork semantics"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None,
                 *, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs or {})
        s, t = active()
        self._proc = None
        self._closed = False
        self.daemon = bool(daemon) if daemon is not None else False
        self.name = name or "Process"
        self.authkey = b""

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s, t = active()
        if s is None:
            raise SimUnsupported("process started outside the simulation")
        if self._proc is not None:
            raise AssertionError("cannot start a process twice")
        s.point("fork", "")
        if (s.cfg.faults.get("fork_fail") or s.ch.replay) and s.ch.flip(
                "forkfail:" + t.name, s.cfg.faults.get("fork_fail", 0)):
            s.fault("fork_fail", t.name)
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        child = s.new_proc(f"{t.name}.p{t.nchild}", t.proc)
        t.nchild += 1
        if s.swapper is not None:
            s.swapper.fork(t.proc, child)
        # copy-on-fork view of the arguments
        s.fork_target = child
        try:
            if type(self).run is SimProcess.run:
                target, args, kwargs = fork_copy(
                    (self._target, self._args, self._kwargs))

                def body():
                    if target:
                        target(*args, **kwargs)
            else:
                twin = copy.copy(self)
                for k, v in list(twin.__dict__.items()):
                    if k != "_proc":
                        twin.__dict__[k] = fork_copy(v)
                body = twin.run
        finally:
            s.fork_target = None
        self._proc = child
        s.note("spawn", child.name)
        n = len(s.live_children())
        s.live_children_peak = max(s.live_children_peak, n)

        def main():
            code = 0
            try:
                body()
            except SimUnsupported:
                raise
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:  # noqa
                code = 1
                s.note("child_error", child.name, f"{type(e).__name__}: {e}")
                s.probe("child_exception")
            # interpreter shutdown: wait for queue feeders
            for q, buf in child.feeders:
                if child not in q._cancel:
                    s.block(lambda b=buf, q=q: not b, None, "exit.feeder")
            s.point("exit")
            s.proc_die(child, code)

        s.spawn(main, child.name, child)
        s.point("forked", child.name)

    @property
    def pid(self):
        return self._proc.pid if self._proc else None

    ident = pid

    @property
    def exitcode(self):
        if self._proc is None or self._proc.alive:
            return None
        return self._proc.exitcode

    @property
    def sentinel(self):
        return Sentinel(self._proc)

    def is_alive(self):
        s, _ = active()
        if self._closed:
            raise ValueError("process object is closed")
        if s is not None:
            s.point("is_alive")
        return self._proc is not None and self._proc.alive

    def join(self, timeout=None):
        s, t = active()
        if self._closed:
            raise ValueError("process object is closed")
        if self._proc is None:
            raise AssertionError("can only join a started process")
        s.block(lambda: not self._proc.alive, _deadline_join(s, timeout), "proc.join",
                self._proc.name)

    def kill(self):
        s, _ = active()
        if self._closed:
            raise ValueError("process object is closed")
        send_signal(s, self._proc, 9)

    def terminate(self):
        s, _ = active()
        send_signal(s, self._proc, 15)

    def close(self):
        if self._proc is not None and self._proc.alive:
            raise ValueError("Cannot close a process while it is still running.")
        self._closed = True

    def __deepcopy__(self, memo):
        return self


def _deadline_join(s, timeout):
    # multiprocessing treats a negative/zero timeout as "poll"
    if timeout is None:
        return None
    return s.now + max(0.0, timeout)


def send_signal(s, proc, sig):
    if proc is None or not proc.alive:
        s.point("kill")
        return
    if sig == 15 and s.cfg.deaf:
        # the disposition of SIGTERM is inherited from a host that ignores it
        s.note("kill-ignored", proc.name, sig)
        s.fault("sigterm_ignored", proc.name)
        s.point("kill")
        return
    d = 0
    if s.cfg.kill_delay or s.ch.replay:
        d = s.ch.choose("killdelay:" + proc.name, s.cfg.kill_delay + 1 if not s.ch.replay else 1 << 20,
                        s.cfg.p_kill_delay)
    s.note("kill", proc.name, sig)
    if d == 0:
        s.proc_die(proc, -sig)
    else:
        s.fault("late_kill", proc.name)
        proc.kill_in = d
        proc.kill_sig = sig
    s.point("kill")


def fork_copy(obj):
    try:
        return copy.deepcopy(obj)
    except SimUnsupported:
        raise
    except Exception:
        return obj


def sim_wait(object_list, timeout=None):
    s, _ = active()
    if s is None:
        raise SimUnsupported("connection.wait outside the simulation")
    objs = list(object_list)

    def ready():
        return [o for o in objs if o._ready(s)]
    s.point("conn.wait")
    r = ready()
    if r or (timeout is not None and timeout <= 0):
        return r
    s.block(lambda: bool(ready()), _deadline(s, timeout), "conn.wait")
    return ready()


class SimContext:
    """stands in for multiprocessing contexts and the module level API"""
    Process = SimProcess
    Lock = SimMPLock
    RLock = SimMPRLock
    Semaphore = SimMPSemaphore
    BoundedSemaphore = SimMPBoundedSemaphore
    Event = SimMPEvent
    Condition = SimMPCondition
    Queue = SimMPQueue
    SimpleQueue = SimMPSimpleQueue
    Pipe = staticmethod(sim_pipe)
    Value = SimMPValue

    def get_context(self, method=None):
        return self

    def get_start_method(self, allow_none=False):
        return "fork"

    def set_start_method(self, *a, **k):
        return None

    def cpu_count(self):
        return 8

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise SimUnsupported(f"multiprocessing.{name}")
