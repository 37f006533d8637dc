"""
Installs the simulated primitives in the standard library modules.

Call `install()` after the third-party libraries were imported and before
smote_variants is imported: every binding the code under test can make
(`import threading`, `from threading import Lock`, `from time import time`)
then resolves to a simulated object, while the third-party libraries keep
module-level locks they created earlier.  No hook in /repo is needed.
"""
import os
import queue
import sys
import threading
import time

import multiprocessing
import multiprocessing.connection
import multiprocessing.process

from . import prims
from .core import active, SimUnsupported

_done = False
REAL = {}


def _timefn(name, sim_value):
    real = getattr(time, name)
    REAL["time." + name] = real

    def f():
        s, t = active()
        if s is None:
            return real()
        return sim_value(s, t)
    f.__name__ = name
    setattr(time, name, f)
    return f


def install():
    global _done
    if _done:
        return
    _done = True

    # ---- threading
    REAL["Thread"] = threading.Thread
    REAL["Lock"] = threading.Lock
    threading.Lock = prims.SimLock
    threading._allocate_lock = prims.SimLock
    threading.RLock = prims.SimRLock
    threading._RLock = prims.SimRLock
    threading._CRLock = prims.SimRLock
    threading.Thread = prims.SimThread
    threading.Timer = prims.SimTimer
    queue.SimpleQueue = queue._PySimpleQueue

    # ---- time
    def wall(s, t):
        return s.wall + s.now
    _timefn("time", wall)
    mono = _timefn("monotonic", lambda s, t: s.now + 1000.0)
    perf = _timefn("perf_counter", lambda s, t: s.now + 500.0)
    _timefn("process_time", lambda s, t: t.data.get("cpu", 0.0))
    _timefn("thread_time", lambda s, t: t.data.get("cpu", 0.0))
    for n, base in (("time_ns", lambda s, t: int(wall(s, t) * 1e9)),
                    ("monotonic_ns", lambda s, t: int((s.now + 1000.0) * 1e9)),
                    ("perf_counter_ns", lambda s, t: int((s.now + 500.0) * 1e9))):
        _timefn(n, base)
    threading._time = mono
    queue.time = mono
    real_sleep = time.sleep
    REAL["sleep"] = real_sleep

    def sleep(dt):
        s, t = active()
        if s is None:
            return real_sleep(dt)
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        s.sleep(dt)
        return None
    time.sleep = sleep

    # ---- multiprocessing
    ctx = prims.SimContext()
    REAL["get_context"] = multiprocessing.get_context
    for name in ("Process", "Lock", "RLock", "Semaphore", "BoundedSemaphore",
                 "Event", "Condition", "Queue", "SimpleQueue", "Pipe", "Value"):
        setattr(multiprocessing, name, getattr(prims.SimContext, name))
    multiprocessing.RawValue = prims.SimMPValue
    multiprocessing.get_context = lambda method=None: ctx
    multiprocessing.connection.wait = prims.sim_wait
    multiprocessing.connection.Pipe = prims.sim_pipe
    for name in ("Pool", "Manager", "JoinableQueue", "Array", "RawArray", "Barrier"):
        def unsup(*a, _n=name, **k):
            raise SimUnsupported(f"multiprocessing.{_n}")
        setattr(multiprocessing, name, unsup)

    # ---- os
    real_getpid = os.getpid
    REAL["getpid"] = real_getpid

    def getpid():
        s, t = active()
        if s is None:
            return real_getpid()
        return t.proc.pid
    os.getpid = getpid
    real_kill = os.kill
    REAL["kill"] = real_kill

    def kill(pid, sig):
        s, t = active()
        if s is None:
            return real_kill(pid, sig)
        for p in s.procs:
            if p.pid == pid:
                if p is s.root:
                    raise SimUnsupported("os.kill of the main process")
                if not p.alive:
                    raise ProcessLookupError(3, "No such process")
                if int(sig) in (9, 15):
                    prims.send_signal(s, p, int(sig))
                return None
        # never signal a real process from simulated code
        raise ProcessLookupError(3, "No such process")
    os.kill = kill
    real_fork = os.fork
    REAL["fork"] = real_fork

    def fork():
        s, t = active()
        if s is None:
            return real_fork()
        raise SimUnsupported("os.fork")
    os.fork = fork


# ------------------------------------------------------- line preemption
TOOL = 3
_tool_ready = False


def _codes_of(code, out):
    out.append(code)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _codes_of(c, out)


def collect_codes(prefixes):
    """all code objects of the functions/classes in modules under prefixes"""
    import types
    out, seen = [], set()

    def fn(f):
        f = getattr(f, "__wrapped__", f)
        code = getattr(f, "__code__", None)
        if code is not None and code not in seen:
            seen.add(code)
            _codes_of(code, out)
    for name, mod in sorted(sys.modules.items()):
        if mod is None or not any(name == p or name.startswith(p + ".") for p in prefixes):
            continue
        for obj in list(vars(mod).values()):
            if isinstance(obj, types.FunctionType) and obj.__module__ == name:
                fn(obj)
            elif isinstance(obj, type) and obj.__module__ == name:
                for m in list(vars(obj).values()):
                    if isinstance(m, (staticmethod, classmethod)):
                        m = m.__func__
                    if isinstance(m, property):
                        for g in (m.fget, m.fset):
                            if g is not None:
                                fn(g)
                        continue
                    if isinstance(m, types.FunctionType):
                        fn(m)
    return out


def enable_lines(prefixes, callback=None):
    """make every source line of the given modules a potential yield point"""
    global _tool_ready
    mon = sys.monitoring
    if not _tool_ready:
        mon.use_tool_id(TOOL, "sim")
        _tool_ready = True
    cb = callback or _on_line
    mon.register_callback(TOOL, mon.events.LINE, cb)
    codes = collect_codes(prefixes)
    for c in codes:
        mon.set_local_events(TOOL, c, mon.events.LINE)
    return len(codes)


def _on_line(code, line):
    s, t = active()
    if s is None or s.status is not None:
        return None
    p = s.cfg.p_line
    if not p and not s.ch.replay:
        return None
    if s.ch.flip(t.linelabel, p):
        s.line_preempts += 1
        # forced switch: the decision to preempt was already taken
        s.preempt(t, code.co_name, line)
    return None
