"""Deterministic scheduler, virtual clock and simulated locks.

Everything that runs inside a simulated process runs on real threads, but only the thread
holding the baton executes; who gets the baton next is decided here, from the recorded trace
(replay) or from the seeded random generator (search).  Must be imported before the code under
test: it replaces threading's primitives, queue.SimpleQueue and the clocks.
"""
import _thread
import os
import random
import sys
import threading
import time

REAL = {
    'allocate_lock': _thread.allocate_lock,
    'start_new_thread': _thread.start_new_thread,
    'time': time.time,
    'time_ns': time.time_ns,
    'monotonic': time.monotonic,
    'monotonic_ns': time.monotonic_ns,
    'perf_counter': time.perf_counter,
    'perf_counter_ns': time.perf_counter_ns,
    'sleep': time.sleep,
    'gmtime': time.gmtime,
    'localtime': time.localtime,
    'strftime': time.strftime,
    'exit': os._exit,
}

EPOCH = 1_600_000_000.0  # start of simulated time (2020-09-13)
STEP_TIME = 0.0001

CUR = None  # the scheduler of this process while a simulation is active


class SimAbort(BaseException):
    """Harness problem: the run cannot be judged (never a verdict)."""

    def __init__(self, *args):
        super().__init__(*args)
        if CUR is not None:
            CUR.aborted = str(args)


def active():
    return CUR is not None


class Task:
    __slots__ = ('id', 'name', 'gate', 'state', 'wake_at', 'waiting_on', 'timed_out', 'noyield',
                 'ident', 'sentinel', 'is_main', 'interrupt')

    def __init__(self, id, name):
        self.id = id
        self.name = name
        self.gate = REAL['allocate_lock']()
        self.gate.acquire()
        self.state = 'ready'
        self.wake_at = None
        self.waiting_on = None
        self.timed_out = False
        self.noyield = 0
        self.ident = None
        self.sentinel = None
        self.is_main = id == 0
        self.interrupt = False


class Plan:
    """Decisions of one simulated process: searched (rng) or replayed (tables)."""

    def __init__(self, rng=None, config=None, switches=None, faults=None):
        self.rng = rng
        self.config = dict(config or {})
        self.replay = rng is None
        self.switches = {int(s): c for s, c in (switches or [])}
        self.faults = {int(i): f for i, f in (faults or [])}


class Scheduler:
    def __init__(self, proc, plan, on_hang, rpc=None, max_steps=400_000, max_lines=6_000_000,
                 max_time=2_000_000.0, offset=0.0):
        self.proc = proc
        self.plan = plan
        self.rpc = rpc
        self.on_hang = on_hang
        self.tasks = []
        self.ready = []
        self.current = None
        self.now = 0.0
        self.offset = offset
        self.steps = 0          # every scheduling opportunity (statements, locks, I/O)
        self.lines = 0
        self.ops = 0            # I/O operations
        self.sync_steps = 0
        self.max_steps = max_steps
        self.max_lines = max_lines
        self.max_time = max_time
        self.switch_log = []
        self.forced_switches = 0
        self.preemptions = 0
        self.fired = []
        self.events = []
        self.sig = 0
        self.wait_limit = None
        cfg = plan.config
        self.p_io = cfg.get('p_io', 0.0)
        self.p_lock = cfg.get('p_lock', 0.0)
        self.line_mean = cfg.get('line_mean', 0)
        self.line_cost = cfg.get('line_cost', 0)    # a slow machine: time passes while code runs
        self.next_line = self._draw_line() if self.line_mean and plan.rng else 0
        self.aborted = None
        self.main = Task(0, 'main')
        self.main.ident = _thread.get_ident()
        self.tasks.append(self.main)
        self.current = self.main

    # -- random helpers -------------------------------------------------
    def _draw_line(self):
        r = self.plan.rng
        return self.lines + 1 + int(r.expovariate(1.0 / self.line_mean))

    # -- time -----------------------------------------------------------
    def wall(self):
        return EPOCH + self.offset + self.now

    # -- tasks ----------------------------------------------------------
    def spawn(self, function, args, kwargs):
        task = Task(len(self.tasks), 'task%d' % len(self.tasks))
        self.tasks.append(task)

        def run():
            task.gate.acquire()
            task.ident = _thread.get_ident()
            try:
                function(*args, **kwargs)
            except SystemExit:
                pass
            except BaseException:  # pylint: disable=broad-except
                import traceback
                self.log('thread-error', traceback.format_exc()[-300:])
            finally:
                self._finish(task)
        ident = REAL['start_new_thread'](run, ())
        self.ready.append(task)
        return ident

    def _finish(self, task):
        if task.sentinel is not None:
            task.sentinel._locked = False
            self._wake_waiters(task.sentinel)
        task.state = 'done'
        if CUR is not self:
            return
        nxt = self._pick(force=True)
        self.current = nxt
        nxt.gate.release()

    def log(self, kind, *info):
        self.events.append((self.steps, self.current.id, kind) + info)

    # -- scheduling -----------------------------------------------------
    def _wake_sleepers(self):
        best = None
        for t in self.tasks:
            if t.wake_at is not None and t.state in ('sleep', 'blocked'):
                if best is None or t.wake_at < best.wake_at:
                    best = t
        if best is None:
            return False
        if best.wake_at > self.now:
            self.now = best.wake_at
        if self.now > self.max_time:
            self._hang('simulated time exceeded %.0f s' % self.max_time)
        self._make_ready(best, timed_out=True)
        return True

    def _make_ready(self, task, timed_out=False):
        task.timed_out = timed_out
        task.state = 'ready'
        task.wake_at = None
        task.waiting_on = None
        self.ready.append(task)

    def _expire(self):
        for t in self.tasks:
            if t.wake_at is not None and t.state in ('sleep', 'blocked') and t.wake_at <= self.now:
                self._make_ready(t, timed_out=True)

    def _wake_waiters(self, lock):
        for t in self.tasks:
            if t.state == 'blocked' and t.waiting_on is lock:
                self._make_ready(t)

    def _hang(self, reason):
        states = ', '.join('%s:%s' % (t.name, t.state) for t in self.tasks if t.state != 'done')
        self.on_hang('%s (%s)' % (reason, states))
        REAL['exit'](3)

    def _pick(self, force):
        """Chooses who runs next among ready tasks (current excluded when blocked)."""
        self.steps += 1
        while not self.ready:
            if not self._wake_sleepers():
                self._hang('deadlock: nothing can run')
        cands = self.ready
        if len(cands) == 1:
            idx = 0
        elif self.plan.replay:
            idx = self.plan.switches.get(self.steps, 0)
            if idx < 0:
                idx = 0
            idx %= len(cands)
            self.switch_log.append((self.steps, idx))
        else:
            idx = self.plan.rng.randrange(len(cands))
            self.switch_log.append((self.steps, idx))
        task = cands.pop(idx)
        self.forced_switches += 1
        self.sig = hash_mix(self.sig, (self.ops << 8) ^ task.id)
        return task

    def _run_other(self, me, nxt):
        """Hands the baton over and parks until it comes back."""
        if nxt is me:
            self.current = me
            return
        self.current = nxt
        nxt.gate.release()
        me.gate.acquire()
        # the baton is ours again (self.current set by whoever released us)

    def _bounds(self):
        if self.sync_steps > self.max_steps:
            self._hang('no end after %d scheduling steps' % self.max_steps)

    def preempt(self):
        """Moves the baton to another ready task (current stays ready)."""
        me = self.current
        if me.noyield or not self.ready:
            return
        n = len(self.ready)
        if self.plan.replay:
            idx = self.plan.switches.get(self.steps, 0) % n
        else:
            idx = self.plan.rng.randrange(n)
        self.switch_log.append((self.steps, idx))
        self.preemptions += 1
        nxt = self.ready.pop(idx)
        self.ready.append(me)
        self.sig = hash_mix(self.sig, (self.ops << 8) ^ nxt.id ^ 0x55)
        self._run_other(me, nxt)

    def line_step(self):
        """A statement boundary in the code under test."""
        self.lines += 1
        self.steps += 1
        self.now += self.line_cost
        if self.lines > self.max_lines:
            self._hang('no end after %d statements' % self.max_lines)
        if self.plan.replay:
            if self.steps in self.plan.switches:
                self.preempt()
        elif self.lines == self.next_line:
            self.next_line = self._draw_line()
            self.preempt()

    def sync_step(self, p):
        self.steps += 1
        self.sync_steps += 1
        self.now += STEP_TIME
        if self.sync_steps & 15 == 0:
            self._expire()
        self._bounds()
        me = self.current
        if me.noyield:
            return
        if self.plan.replay:
            if self.steps in self.plan.switches:
                self.preempt()
        elif p and self.ready and self.plan.rng.random() < p:
            self.preempt()

    def lock_step(self):
        self.sync_step(self.p_lock)

    def io_step(self):
        self.ops += 1
        if self.rpc is not None:
            self.rpc.yield_(self)
        self.sync_step(self.p_io)

    # -- blocking -------------------------------------------------------
    def wait(self, lock, deadline):
        """Blocks the current task until lock is released; False on timeout."""
        me = self.current
        self.sync_steps += 1
        self._bounds()
        if me.noyield:
            raise SimAbort('blocking wait inside a non-preemptible section')
        if deadline is not None and deadline <= self.now:
            return False
        me.state = 'blocked'
        me.waiting_on = lock
        me.wake_at = deadline
        me.timed_out = False
        nxt = self._pick(force=True)
        self._run_other(me, nxt)
        if me.is_main and me.interrupt:
            me.interrupt = False
            raise KeyboardInterrupt()
        return not me.timed_out

    @staticmethod
    def _waiting(task):
        """Is the task in a condition wait (for results)?

        Not in Thread.join (CPython 3.12 takes an interrupted join for a finished thread and no
        longer waits for it at exit), not in Thread.start and not in a short critical section of
        an executor: an interrupt there leaves the standard library's own state inconsistent,
        which is not the doing of the tools.
        """
        f = sys._current_frames().get(task.ident)
        waits = False
        while f is not None:
            name = f.f_code.co_name
            if f.f_code.co_filename == threading.__file__:
                waits = waits or name == 'wait'
                if name in ('start', 'join', '_wait_for_tstate_lock'):
                    return False
            elif waits:
                return name not in ('submit', 'shutdown', '_adjust_thread_count')
            f = f.f_back
        return False

    def interrupt_main(self):
        """Delivers Ctrl-C if the main thread is blocked in an interruptible wait."""
        m = self.main
        if m.state == 'blocked' and m is not self.current and self._waiting(m):
            m.interrupt = True
            self._make_ready(m)
            return True
        return False

    def sleep(self, seconds):
        me = self.current
        if me.noyield:
            self.now += max(0.0, seconds)
            return
        self.sync_steps += 1
        self._bounds()
        me.state = 'sleep'
        me.wake_at = self.now + max(0.0, seconds)
        nxt = self._pick(force=True)
        self._run_other(me, nxt)


def hash_mix(h, x):
    return ((h ^ x) * 0x100000001b3 + 0x9e3779b97f4a7c15) & 0xffffffffffffffff


class noyield:
    """Section in which the current task is never preempted (imports, C parsers)."""

    def __enter__(self):
        self.task = CUR.current if CUR is not None else None
        if self.task is not None:
            self.task.noyield += 1

    def __exit__(self, *_):
        if self.task is not None:
            self.task.noyield -= 1


# -- simulated locks --------------------------------------------------------

class SimLock:
    __slots__ = ('_locked', '__weakref__')

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        s = CUR
        if s is None:
            if not self._locked:
                self._locked = True
                return True
            if not blocking:
                return False
            raise SimAbort('contended lock outside the simulation')
        s.lock_step()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = s.now + timeout
        while self._locked:
            if not s.wait(self, deadline):
                if not self._locked:
                    break
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        s = CUR
        if s is not None:
            s._wake_waiters(self)
            s.lock_step()

    def locked(self):
        return self._locked

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    __slots__ = ('_block', '_owner', '_count', '__weakref__')

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def locked(self):
        return self._block.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError('cannot release un-acquired lock')
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0


# -- installation -----------------------------------------------------------

class _Fail:
    thread_start = 0  # number of thread starts to fail (fault injection)


def _start_new_thread(function, args, kwargs=None):
    s = CUR
    if s is None:
        return REAL['start_new_thread'](function, args, kwargs or {})
    if _Fail.thread_start:
        _Fail.thread_start -= 1
        s.fired.append((s.ops, 'thread-start', 'thread', ''))
        s.log('fault', 'thread-start', '')
        raise RuntimeError("can't start new thread")
    return s.spawn(function, args, kwargs or {})


def _set_sentinel():
    s = CUR
    if s is None:
        return _REAL_SET_SENTINEL()
    lock = SimLock()
    s.current.sentinel = lock
    return lock


_REAL_SET_SENTINEL = threading._set_sentinel


def _sleep(seconds):
    s = CUR
    if s is None:
        return REAL['sleep'](seconds)
    return s.sleep(seconds)


def _mk_clock(name, value):
    real = REAL[name]

    def clock():
        s = CUR
        if s is None:
            return real()
        s.now += STEP_TIME / 100
        return value(s)
    clock.__name__ = name
    return clock


def _mk_conv(name):
    real = REAL[name]

    def conv(secs=None):
        if secs is None and CUR is not None:
            secs = CUR.wall()
        return real(secs)
    conv.__name__ = name
    return conv


def install():
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    _thread.start_new_thread = _start_new_thread
    _thread.start_new = _start_new_thread
    time.sleep = _sleep
    time.time = _mk_clock('time', lambda s: s.wall())
    time.time_ns = _mk_clock('time_ns', lambda s: int(s.wall() * 1e9))
    time.monotonic = _mk_clock('monotonic', lambda s: s.now)
    time.monotonic_ns = _mk_clock('monotonic_ns', lambda s: int(s.now * 1e9))
    time.perf_counter = _mk_clock('perf_counter', lambda s: s.now)
    time.perf_counter_ns = _mk_clock('perf_counter_ns', lambda s: int(s.now * 1e9))
    time.gmtime = _mk_conv('gmtime')
    time.localtime = _mk_conv('localtime')
    threading._time = time.monotonic
    import queue
    queue.time = time.monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    _install_datetime()


def _install_datetime():
    import datetime as dt
    real = dt.datetime

    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real)

    class datetime(real, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            if CUR is None:
                return real.now(tz)
            CUR.now += STEP_TIME / 100
            return real.fromtimestamp(CUR.wall(), tz)

        @classmethod
        def utcnow(cls):
            if CUR is None:
                return real.utcnow()
            CUR.now += STEP_TIME / 100
            return real.utcfromtimestamp(CUR.wall())

        @classmethod
        def today(cls):
            return cls.now()

    dt.datetime = datetime


# -- statement level preemption --------------------------------------------

TOOL = 3
LINE_CAP = 120      # a statement stops being a preemption point after this many executions
LINES_ON = False


def install_line_preemption(package_dir):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'sim')
    prefix = package_dir.rstrip('/') + '/'
    disable = mon.DISABLE
    counts = {}

    def on_line(code, line):
        key = (code, line)
        n = counts.get(key)
        if n is None:
            if not code.co_filename.startswith(prefix) or code.co_name == '<module>':
                return disable
            n = 0
        counts[key] = n + 1
        s = CUR
        if s is not None:
            s.line_step()
        return None if n < LINE_CAP else disable

    mon.register_callback(TOOL, mon.events.LINE, on_line)


def line_events(on):
    global LINES_ON
    if on != LINES_ON:
        LINES_ON = on
        sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE if on else 0)


def derive(seed, *parts):
    """A PRNG derived from the one seed and a path of names."""
    return random.Random('%s|%s' % (seed, '|'.join(str(p) for p in parts)))
