"""
Deterministic scheduler.

Every simulated thread of every simulated process is a *task*: a real OS
thread that is parked on a private lock except while it is the one task the
scheduler has selected.  All decisions (who runs, what fails, how long a
signal takes) are drawn through `Choices`, a keyed decision stream that is a
pure function of (seed, decision label, occurrence number), so decisions do
not shift when an unrelated decision changes.  Decision value 0 always means
"the boring thing" (keep running the current task, no fault); a replay file
is the workload case plus the non-zero decisions.
"""
import _thread
import heapq
import itertools
import zlib
from hashlib import blake2b

# real primitives, captured before sim.patch replaces anything
_alloc = _thread.allocate_lock
_start_thread = _thread.start_new_thread
_ident = _thread.get_ident

M64 = (1 << 64) - 1
G64 = 0x9E3779B97F4A7C15


class SimUnsupported(BaseException):
    """the code used a facility the simulator does not model"""


class SimStop(BaseException):
    """never raised into code under test; internal control flow"""


class Choices:
    """keyed decision stream; see module docstring"""

    def __init__(self, seed, overrides=None):
        self.seed = seed
        self.replay = overrides is not None
        self.over = dict(overrides or {})
        self.st = {}
        self.taken = {}

    def _next(self, label):
        st = self.st.get(label)
        if st is None:
            base = blake2b(f"{self.seed}|{label}".encode(), digest_size=8).digest()
            st = self.st[label] = [int.from_bytes(base, "little"), 0]
        n = st[1]
        st[1] = n + 1
        x = (st[0] + n * G64) & M64
        x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
        x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
        x ^= x >> 31
        return n, x

    def decide(self, label, fn):
        """fn(u) -> int in replayable form, u uniform in [0,1)"""
        n, x = self._next(label)
        if self.replay:
            return self.over.get(f"{label}#{n}", 0)
        v = fn(x / 18446744073709551616.0)
        if v:
            self.taken[f"{label}#{n}"] = v
        return v

    def choose(self, label, n, p=None):
        """0 with probability 1-p, otherwise uniform in 1..n-1"""
        if n <= 1:
            return 0
        if p is None:
            p = (n - 1) / n
        k, x = self._next(label)
        if self.replay:
            return min(self.over.get(f"{label}#{k}", 0), n - 1)
        u = x / 18446744073709551616.0
        if u >= p:
            return 0
        v = 1 + min(int(u / p * (n - 1)), n - 2)
        self.taken[f"{label}#{k}"] = v
        return v

    def flip(self, label, p):
        """bernoulli(p)"""
        if p <= 0 and not self.replay:
            return 0
        return self.choose(label, 2, p)


class Task:
    __slots__ = ("loky_ex", "tid", "name", "proc", "lock", "state", "pred", "deadline",
                 "why", "ident", "exc", "prio", "lines", "swlabel", "linelabel",
                 "nchild", "data", "wake")

    def __init__(self, tid, name, proc):
        self.tid = tid
        self.name = name
        self.proc = proc
        self.lock = _alloc()
        self.lock.acquire()
        self.state = "ready"          # ready | blocked | done | dead
        self.pred = None
        self.deadline = None
        self.why = ""
        self.ident = None
        self.exc = None
        self.prio = 0.0
        self.lines = 0
        self.swlabel = "s:" + name
        self.linelabel = "l:" + name
        self.nchild = 0
        self.data = {}
        self.wake = None


class Proc:
    """a simulated OS process"""

    def __init__(self, pid, name, parent):
        self.pid = pid
        self.name = name
        self.parent = parent
        self.alive = True
        self.exitcode = None
        self.tasks = []
        self.fds = set()              # open pipe ends (pipe, 'r'|'w')
        self.kill_in = None           # remaining own steps before SIGKILL lands
        self.kill_sig = 9
        self.globals = None
        self.feeders = []
        self.files = []
        self.started_at = None
        self.exited_at = None
        self.kind = "proc"

    def __repr__(self):
        return f"<Proc {self.name}>"


class Cfg:
    """per-run scheduler configuration (swarm)"""

    def __init__(self, **kw):
        self.policy = "random"        # random | prio
        self.p_switch = 0.2           # switch probability at a yield point
        self.p_line = 0.0             # preemption probability per source line
        self.p_change = 0.02          # priority change probability (prio policy)
        self.p_stall = 0.0            # let time pass although a task is runnable
        self.max_steps = 200000
        self.kill_delay = 0           # max extra steps before a kill lands
        self.p_kill_delay = 0.0
        self.deaf = False             # the host ignores SIGTERM, and so do its children
        self.fault_scope = ""         # part of the label of storage faults
        self.faults = {}              # kind -> probability
        self.swap_globals = False
        self.__dict__.update(kw)


SIM = None                            # the active simulation of this OS process


class Sim:
    def __init__(self, choices, cfg=None):
        self.ch = choices
        self.cfg = cfg or Cfg()
        self.now = 0.0
        self.wall = 1_600_000_000.0   # wall-clock offset (steps are faults)
        self.steps = 0
        self.switches = 0
        self.line_preempts = 0
        self.tasks = []
        self.procs = []
        self.by_ident = {}
        self.current = None
        self.status = None
        self.detail = None
        self.done_lock = _alloc()
        self.done_lock.acquire()
        self.events = []
        self.evseq = itertools.count()
        self.crc = 0
        self.trace = []               # readable switch/fault trace
        self.log = []                 # workload-visible history
        self.fault_counts = {}
        self.reach = {}
        self.live_children_peak = 0
        self.pidseq = itertools.count(40_000_001)
        self.namecount = {}
        self.swapper = None
        self.on_point = []            # invariant callbacks
        self.thread_errors = []
        self.root_result = None
        self.root_exc = None
        self.line_hook = None
        self.finish_hook = None
        self.crash_kinds = None
        self.fork_target = None
        self.fs = None

    # ---------------------------------------------------------------- utils
    def cur(self):
        return self.by_ident.get(_ident())

    def note(self, *ev):
        """append to the workload history (does not schedule)"""
        self.log.append((self.steps, self.now) + ev)

    def fault(self, kind, detail=""):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
        if len(self.trace) < 4000:
            t = self.current
            self.trace.append(f"t={self.now:.6f} step={self.steps} "
                              f"{t.name if t else '-'}: FAULT {kind} {detail}")
        self.crc = zlib.crc32(f"F{kind}{detail}".encode(), self.crc)

    def probe(self, name):
        self.reach[name] = self.reach.get(name, 0) + 1

    def uname(self, base):
        n = self.namecount.get(base, 0)
        self.namecount[base] = n + 1
        return f"{base}{n}"

    # ------------------------------------------------------------- lifecycle
    def new_proc(self, name, parent=None):
        p = Proc(next(self.pidseq), name, parent)
        p.started_at = self.now
        if parent is not None:
            p.fds = set(parent.fds)
        self.procs.append(p)
        return p

    def spawn(self, fn, name, proc):
        t = Task(len(self.tasks), name, proc)
        t.prio = self.prio_for(name)
        self.tasks.append(t)
        proc.tasks.append(t)

        def boot():
            t.ident = _ident()
            self.by_ident[t.ident] = t
            t.lock.acquire()
            if self.line_hook is not None:
                self.line_hook(t)
            try:
                fn()
            except SimUnsupported as e:
                self.finish("unsupported", str(e))
            except BaseException as e:   # noqa  (a task function must not leak)
                t.exc = e
                self.finish("internal", f"task {t.name}: {type(e).__name__}: {e}")
            t.state = "done"
            self._leave(t)

        _start_thread(boot, ())
        return t

    def prio_for(self, name):
        if self.cfg.policy != "prio" or self.ch.replay:
            return 0.0
        h = blake2b(f"{self.ch.seed}|prio|{name}".encode(), digest_size=4).digest()
        return 1.0 + int.from_bytes(h, "little") / 2**32

    def run(self, fn, wall_limit=60.0):
        """run fn as the root process; returns when the simulation ends"""
        global SIM
        SIM = self
        root = self.new_proc("main")
        self.root = root

        def main():
            try:
                self.root_result = fn()
            except SimUnsupported:
                raise
            except BaseException as e:  # noqa
                self.root_exc = e
            self.finish("ok")

        t = self.spawn(main, "main", root)
        self.current = t
        t.lock.release()
        ok = self.done_lock.acquire(True, wall_limit)
        SIM = None
        if not ok:
            self.status = "wall"
            self.detail = self.describe()
        return self.status

    def finish(self, status, detail=None):
        """end the simulation; the calling task never continues"""
        if self.status is None:
            self.status = status
            self.detail = detail
            self.done_lock.release()
        t = self.cur()
        if t is not None:
            while True:
                t.lock.acquire()      # parked for good

    def describe(self):
        out = []
        for t in self.tasks:
            if t.state in ("ready", "blocked"):
                out.append(f"{t.name}[{t.proc.name}]:{t.state}:{t.why}")
        return "; ".join(out)

    # ------------------------------------------------------------- scheduling
    def _runnable(self, t):
        if t.state == "ready":
            return True
        if t.state != "blocked":
            return False
        if t.deadline is not None and self.now >= t.deadline:
            return True
        return bool(t.pred())

    def _candidates(self, cur):
        out = []
        if cur is not None and self._runnable(cur):
            out.append(cur)
        for t in self.tasks:
            if t is not cur and self._runnable(t):
                out.append(t)
        return out

    def at(self, when, fn):
        heapq.heappush(self.events, (when, next(self.evseq), fn))

    def _advance(self):
        """move virtual time to the next deadline/event; False if none"""
        late = [p for p in self.procs if p.alive and p.kill_in is not None]
        if late:                      # a signal in flight lands before time passes
            for p in late:
                self.proc_die(p, -p.kill_sig)
            return True
        nxt = None
        for t in self.tasks:
            if t.state == "blocked" and t.deadline is not None:
                if nxt is None or t.deadline < nxt:
                    nxt = t.deadline
        if self.events and (nxt is None or self.events[0][0] < nxt):
            nxt = self.events[0][0]
        if nxt is None:
            return False
        if nxt > self.now:
            self.now = nxt
        while self.events and self.events[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.events)
            fn()
        return True

    def _pick(self, t, cands):
        n = len(cands)
        if n == 1:
            return 0
        label = t.swlabel
        stays = cands[0] is t
        if self.cfg.policy == "prio":
            def f(u):
                if stays and u < self.cfg.p_change:
                    t.prio = -self.steps
                best = 0
                for i in range(1, n):
                    if cands[i].prio > cands[best].prio:
                        best = i
                return best
            return min(self.ch.decide(label, f), n - 1)
        p = self.cfg.p_switch if stays else None
        return self.ch.choose(label, n, p)

    def _switch(self, t):
        """select the next task; t is the running one (maybe blocked/finished)"""
        while True:
            cands = self._candidates(t)
            if cands:
                if self.cfg.p_stall or self.ch.replay:
                    if self.ch.flip("stall", self.cfg.p_stall):
                        if self._advance():
                            self.fault("stall")
                            continue
                break
            if not self._advance():
                self.detail_dead = self.describe()
                self._end_from(t, "deadlock", self.detail_dead)
                return
            if t.state == "dead":
                pass
        nxt = cands[self._pick(t, cands)]
        if nxt is t:
            return
        self._go(t, nxt)

    def _go(self, t, nxt):
        self.switches += 1
        self.crc = zlib.crc32(nxt.name.encode(), self.crc)
        if len(self.trace) < 4000:
            self.trace.append(f"t={self.now:.6f} step={self.steps} "
                              f"{t.name}({t.state}:{t.why}) -> {nxt.name}")
        self.current = nxt
        if self.swapper is not None and nxt.proc is not t.proc:
            self.swapper.switch(t.proc, nxt.proc)
        nxt.lock.release()
        if t.state == "done":
            return
        t.lock.acquire()

    def _end_from(self, t, status, detail):
        if self.status is None:
            self.status = status
            self.detail = detail
            self.done_lock.release()
        if t.state != "done":
            while True:
                t.lock.acquire()

    def _leave(self, t):
        """task t finished: hand control over without parking"""
        t.why = "done"
        self._switch(t)

    def point(self, kind, detail=""):
        """a yield point of the running task"""
        t = self.cur()
        if t is None or self.status is not None:
            if t is not None:
                while True:
                    t.lock.acquire()
            return
        self._step(t, kind, detail)
        self._switch(t)

    def _step(self, t, kind, detail):
        self.steps += 1
        t.why = kind
        self.crc = zlib.crc32(f"{t.tid}{kind}{detail}".encode(), self.crc)
        if self.steps > self.cfg.max_steps:
            self.finish("steps", self.describe())
        p = t.proc
        if p.kill_in is not None:
            if p.kill_in <= 0:
                self.proc_die(p, -p.kill_sig)
            else:
                p.kill_in -= 1
        for cb in self.on_point:
            cb(t, kind, detail)
        if p is not self.root and p.alive and (self.crash_kinds is None or p.kind in self.crash_kinds):
            pk = self.cfg.faults.get("worker_crash", 0)
            if (pk or self.ch.replay) and self.ch.flip("crash:" + p.name, pk):
                self.fault("worker_crash", p.name)
                self.proc_die(p, -9)
        gk = self.cfg.faults.get("group_crash", 0)
        if (gk or self.ch.replay) and self.ch.flip("groupcrash", gk):
            self.fault("group_crash", f"{t.name}:{kind}:{detail}")
            self.finish("crashed")
        if kind in ("fs.write2", "fs.written", "fs.fsync"):
            # crashes aimed at the window of unsynchronised data
            gk = self.cfg.faults.get("group_crash_write", 0)
            if (gk or self.ch.replay) and self.ch.flip("groupcrash.w", gk):
                self.fault("group_crash", f"{t.name}:{kind}:{detail}")
                self.finish("crashed")

    def preempt(self, t, fname, line):
        """the running task is descheduled at a source line"""
        self._step(t, "line", f"{fname}:{line}")
        cands = [c for c in self._candidates(t) if c is not t]
        if not cands:
            return
        k = self.ch.choose("p:" + t.name, len(cands))
        nxt = cands[k]
        self._go(t, nxt)

    def block(self, pred, deadline=None, why="", detail=""):
        """wait until pred() or the deadline; True iff pred() held"""
        t = self.cur()
        if self.status is not None:
            while True:
                t.lock.acquire()
        self._step(t, why, detail)
        t.pred = pred
        t.deadline = deadline
        t.why = f"{why} {detail}"
        t.state = "blocked"
        self._switch(t)
        t.state = "ready"
        t.pred = None
        t.deadline = None
        return bool(pred())

    def sleep(self, dt):
        self.block(lambda: False, self.now + max(0.0, dt), "sleep")

    # ---------------------------------------------------------------- processes
    def proc_die(self, p, code):
        """process p ends now (its tasks never run again)"""
        if not p.alive:
            return
        p.alive = False
        p.exitcode = code
        p.exited_at = self.now
        p.fds.clear()
        self.note("exit", p.name, code)
        self.crc = zlib.crc32(f"X{p.name}{code}".encode(), self.crc)
        me = self.cur()
        hit = False
        for t in p.tasks:
            if t.state in ("ready", "blocked"):
                t.state = "dead"
                if t is me:
                    hit = True
        if hit:
            # the running task belongs to the dead process: leave it parked
            self._switch(me)
            while True:
                me.lock.acquire()

    def live_children(self):
        return [p for p in self.procs if p.alive and p is not self.root]


def active():
    """(sim, task) if the caller is a simulated task, else (None, None)"""
    s = SIM
    if s is None:
        return None, None
    t = s.by_ident.get(_ident())
    if t is None:
        return None, None
    return s, t
