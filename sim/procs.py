"""Simulated processes: forked children that run one at a time.

A child parks at every I/O operation until its parent's proxy task is scheduled again (a baton
over a pipe), so the interleaving of processes is decided by the same scheduler that decides the
interleaving of threads.  Results, injected faults and recorded decisions come back by pipe.
"""
import concurrent.futures
import concurrent.futures.process as cfp
import logging
import os
import pickle
import struct
import sys
import threading
import traceback

from . import core, storage
from .storage import R, W


def _read_exact(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError()
        out += b
    return out


def _send(fd, kind, payload=b''):
    data = kind + struct.pack('<Q', len(payload)) + payload
    view = memoryview(data)
    while len(view):
        n = R['write'](fd, view)
        view = view[n:]


def _recv(fd):
    head = _read_exact(fd, 9)
    n = struct.unpack('<Q', head[1:])[0]
    return head[:1], (_read_exact(fd, n) if n else b'')


class Rpc:
    """Child side of the baton."""

    def __init__(self, rfd, wfd):
        self.rfd = rfd
        self.wfd = wfd

    def yield_(self, s):
        _send(self.wfd, b'Y', struct.pack('<d', s.now))
        try:
            kind, payload = _recv(self.rfd)
        except (EOFError, OSError):
            core.REAL['exit'](9)
        if kind != b'G':
            core.REAL['exit'](9)
        now = struct.unpack('<d', payload)[0]
        if now > s.now:
            s.now = now


class LogHandler(logging.Handler):
    """Collects log records without locks, clocks or I/O."""

    def __init__(self):
        super().__init__(level=logging.DEBUG)
        self.records = []

    def createLock(self):
        self.lock = None

    def handle(self, record):
        if record.levelno >= logging.WARNING:
            try:
                text = record.getMessage()
            except Exception as e:  # pylint: disable=broad-except
                text = 'unformattable log record: %r' % (e,)
            self.records.append((record.levelname, text[:2000]))
        return True

    def emit(self, record):
        pass


LOG = LogHandler()


def setup_logging(level):
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(LOG)
    root.setLevel(level)
    LOG.records = []


def report(s, outcome, detail=None):
    """Everything the parent needs to judge this process."""
    return dict(
        proc=s.proc, outcome=outcome, detail=detail, logs=LOG.records[:400],
        fired=s.fired, switches=s.switch_log, steps=s.steps, lines=s.lines, ops=s.ops,
        time=s.now, tasks=len(s.tasks), sig=s.sig, preemptions=s.preemptions,
        events=s.events, observed=W.observed, blobs=W.blobs, outside=W.outside,
        touched=sorted(W.touched), open_left=None, implicit=W.implicit, max_open=W.max_open, max_temp=W.max_temp,
        aborted=s.aborted, children=CHILD_REPORTS, offset=s.offset,
    )


CHILD_REPORTS = []


def describe_exception(e):
    chain = []
    seen = 0
    while e is not None and seen < 6:
        chain.append('%s: %s' % (type(e).__name__, str(e)[:300]))
        e = e.__cause__ or e.__context__
        seen += 1
    return chain


class ProcessSpec:
    """How to run one simulated process."""

    def __init__(self, proc, plan, salt, chunk=0, latency=0.0, fault_cfg=None, budget=0, seed='',
                 offset=0.0, line=False, thread_fail=0):
        self.proc = proc
        self.plan = plan
        self.salt = salt
        self.chunk = chunk
        self.latency = latency
        self.fault_cfg = fault_cfg
        self.budget = budget
        self.seed = seed
        self.offset = offset
        self.line = line
        self.thread_fail = thread_fail


def run_in_child(spec, root, out_dirs, cwd, fn, send, rpc=None, child_plans=None, worker=False,
                 observer=True, parent_now=0.0):
    """Runs fn() as a simulated process; calls send(report) exactly once, then exits."""
    sent = []

    def finish(outcome, detail=None, extra=None):
        if sent:
            return
        sent.append(1)
        s = core.CUR if core.CUR is not None else sched
        rep = report(s, outcome, detail)
        if extra:
            rep.update(extra)
        core.CUR = None
        send(rep)

    try:
        os.chdir(cwd)
        storage.reset(root, spec.salt, spec.chunk, spec.latency, out_dirs, spec.seed)
        W.fault_cfg = spec.fault_cfg
        W.budget = spec.budget
        W.is_worker = worker
        W.observer = observer
        W.send_crash = finish
        global CHILD_REPORTS
        CHILD_REPORTS = []
        ChildPlans.source = child_plans
        _Seq.n = 1000
        sched = core.Scheduler(spec.proc, spec.plan, lambda why: finish('hang', why), rpc=rpc,
                               offset=spec.offset)
        sched.now = parent_now
        core._Fail.thread_start = spec.thread_fail
        if spec.line:
            core.line_events(True)
        core.CUR = sched
        outcome, detail = 'ok', None
        try:
            fn()
        except KeyboardInterrupt:
            outcome, detail = 'interrupt', None
        except SystemExit as e:
            if e.code in (None, 0):
                outcome = 'ok'
            else:
                outcome, detail = 'error', ['SystemExit: %r' % (e.code,)]
        except core.SimAbort as e:
            sched.aborted = str(e)
            outcome, detail = 'abort', [str(e)]
        except BaseException as e:  # pylint: disable=broad-except
            outcome, detail = 'error', describe_exception(e)
            tb = traceback.format_exc()
            detail.append('TB ' + tb[-1500:])
            e = None
        # interpreter shutdown: joins non-daemon threads and the executors' workers
        try:
            for call in reversed(list(threading._threading_atexits)):
                call()
            for t in list(threading.enumerate()):
                if t is not threading.main_thread() and not t.daemon \
                        and t is not threading.current_thread() and t.is_alive():
                    t.join()
            from multiprocessing import util
            util._run_finalizers()
        except KeyboardInterrupt:
            pass
        except core.SimAbort as e:
            sched.aborted = str(e)
        storage.observe()
        core.CUR = None
        core.line_events(False)
        left = storage.open_files()
        core.CUR = sched
        finish(outcome, detail, dict(open_left=left))
    except BaseException:  # pylint: disable=broad-except
        try:
            send(dict(proc=spec.proc, outcome='harness', detail=traceback.format_exc()[-3000:]))
        except BaseException:  # pylint: disable=broad-except
            pass
    finally:
        core.REAL['exit'](0)


class ChildPlans:
    """Gives every worker process of a pool its own decision stream."""
    source = None

    @classmethod
    def get(cls, name):
        return cls.source(name) if cls.source is not None else None


def fork():
    """fork() with the scheduler switched off in the fork handlers."""
    cur = core.CUR
    core.CUR = None
    lines = core.LINES_ON
    core.line_events(False)
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            pid = R['fork']()
    finally:
        core.CUR = cur
        if lines:
            core.line_events(True)
    return pid


class ProxyDead(Exception):
    pass


class Proxy:
    """Parent side of a parked-and-released child process."""

    def __init__(self, name, child_main, inherit_close=()):
        self.name = name
        p2c_r, p2c_w = os.pipe()
        c2p_r, c2p_w = os.pipe()
        pid = fork()
        if pid == 0:
            try:
                os.close(p2c_w)
                os.close(c2p_r)
                for fd in inherit_close:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                child_main(Rpc(p2c_r, c2p_w))
            finally:
                core.REAL['exit'](0)
        os.close(p2c_r)
        os.close(c2p_w)
        self.pid = pid
        self.wfd = p2c_w
        self.rfd = c2p_r
        self.alive = True
        self.report = None

    def send(self, kind, payload=b''):
        try:
            _send(self.wfd, kind, payload)
        except OSError:
            self.reap()
            raise ProxyDead()

    def wait_message(self):
        """Runs the child until it produces a message other than a yield."""
        s = core.CUR
        while True:
            try:
                kind, payload = _recv(self.rfd)
            except (EOFError, OSError):
                self.reap()
                raise ProxyDead()
            if kind == b'Y':
                now = struct.unpack('<d', payload)[0]
                if now > s.now:
                    s.now = now
                storage.observe()
                storage.census_temp()
                s.io_step()
                self.send(b'G', struct.pack('<d', s.now))
                continue
            storage.observe()
            if kind == b'P':
                self.report = pickle.loads(payload)
                continue
            return kind, payload

    def reap(self):
        if self.alive:
            self.alive = False
            try:
                os.close(self.wfd)
                os.close(self.rfd)
            except OSError:
                pass
            try:
                os.waitpid(self.pid, 0)
            except OSError:
                pass


# -- process pool ------------------------------------------------------------

class SimProcessPoolExecutor(concurrent.futures.Executor):
    """ProcessPoolExecutor whose workers are simulated processes.

    Real: pickling of callables, arguments, results and exceptions, worker processes, share-nothing
    memory.  Stub: the queue management and the management thread.
    """
    counter = 0

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *,
                 max_tasks_per_child=None):
        if max_workers is None:
            max_workers = 4
        if max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self._max_workers = max_workers
        self._initializer = initializer
        self._initargs = initargs
        self._cond = threading.Condition()
        self._pending = []
        self._threads = []
        self._shutdown = False
        self._broken = None
        self._proxies = []

    def submit(self, fn, /, *args, **kwargs):
        with self._cond:
            if self._broken:
                raise cfp.BrokenProcessPool(self._broken)
            if self._shutdown:
                raise RuntimeError('cannot schedule new futures after shutdown')
            f = concurrent.futures.Future()
            self._pending.append((f, fn, args, kwargs))
            self._cond.notify()
        if not self._threads:
            self._start()
        return f

    def _start(self):
        for _ in range(self._max_workers):
            SimProcessPoolExecutor.counter += 1
            name = 'w%d' % SimProcessPoolExecutor.counter
            fds = [fd for p in self._proxies if p.alive for fd in (p.rfd, p.wfd)]
            self._proxies.append(Proxy(name, self._worker_main(name), fds))
        for p in self._proxies:
            t = threading.Thread(target=self._serve, args=(p,), daemon=True)
            self._threads.append(t)
            t.start()

    def _worker_main(self, name):
        parent = core.CUR
        initializer, initargs = self._initializer, self._initargs

        def main(rpc):
            spec = ChildPlans.get(name) or ProcessSpec(
                name, core.Plan(), W.salt, W.chunk, W.latency, None, 0, seed=name)
            spec.offset = parent.offset

            def body():
                if initializer is not None:
                    initializer(*initargs)
                while True:
                    try:
                        kind, payload = _recv(rpc.rfd)
                    except (EOFError, OSError):
                        return
                    if kind == b'E':
                        return
                    try:
                        fn, args, kwargs = pickle.loads(payload)
                        result = (True, fn(*args, **kwargs))
                    except BaseException as e:  # pylint: disable=broad-except
                        result = (False, cfp._ExceptionWithTraceback(e, e.__traceback__))
                    try:
                        data = pickle.dumps(result)
                    except Exception as e:  # pylint: disable=broad-except
                        data = pickle.dumps(
                            (False, cfp._ExceptionWithTraceback(e, e.__traceback__)))
                    result = None
                    _send(rpc.wfd, b'R', data)

            def send(rep):
                rep['blobs'] = {}
                _send(rpc.wfd, b'P', pickle.dumps(rep))
            run_in_child(spec, W.root, W.out_dirs, os.getcwd(), body, send, rpc=rpc, worker=True,
                         observer=False, parent_now=parent.now)
        return main

    def _serve(self, proxy):
        while True:
            with self._cond:
                while not self._pending and not self._shutdown and not self._broken:
                    self._cond.wait()
                if self._broken or (self._shutdown and not self._pending):
                    break
                f, fn, args, kwargs = self._pending.pop(0)
            if not f.set_running_or_notify_cancel():
                continue
            try:
                data = pickle.dumps((fn, args, kwargs))
            except Exception as e:  # pylint: disable=broad-except
                f.set_exception(e)
                continue
            fn = args = kwargs = None
            try:
                proxy.send(b'T', data)
                _, payload = proxy.wait_message()
            except ProxyDead:
                if proxy.report:
                    CHILD_REPORTS.append(proxy.report)
                    proxy.report = None
                self._break(f, 'A process in the process pool was terminated abruptly while the '
                               'future was running or pending.')
                return
            try:
                ok, value = pickle.loads(payload)
            except BaseException as e:  # pylint: disable=broad-except
                self._break(f, 'A result of a worker process could not be unpickled: %r' % (e,))
                break
            if ok:
                f.set_result(value)
            else:
                f.set_exception(value)
        if proxy.alive:
            try:
                proxy.send(b'E')
                proxy.wait_message()
            except ProxyDead:
                pass
            if proxy.report:
                CHILD_REPORTS.append(proxy.report)
                proxy.report = None
            proxy.reap()

    def _break(self, f, message):
        with self._cond:
            self._broken = message
            pending, self._pending = self._pending, []
            self._cond.notify_all()
        f.set_exception(cfp.BrokenProcessPool(message))
        for other, *_ in pending:
            if other.set_running_or_notify_cancel():
                other.set_exception(cfp.BrokenProcessPool(message))

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self._cond:
            self._shutdown = True
            if cancel_futures:
                pending, self._pending = self._pending, []
                for f, *_ in pending:
                    f.cancel()
            self._cond.notify_all()
        if wait:
            for t in self._threads:
                t.join()


class SimNotifier:
    """Stands in for the pipe that wakes multiprocessing's pool maintenance thread."""

    def __init__(self):
        self._cond = threading.Condition()
        self._items = []
        self._reader = self

    def put(self, item):
        with self._cond:
            self._items.append(item)
            self._cond.notify_all()

    def get(self):
        with self._cond:
            while not self._items:
                self._cond.wait()
            return self._items.pop(0)

    def empty(self):
        return not self._items

    def sim_wait(self, timeout):
        with self._cond:
            if not self._items:
                self._cond.wait(timeout)


def _install_pool():
    import multiprocessing.context
    import multiprocessing.pool
    real_queue = multiprocessing.context.BaseContext.SimpleQueue
    real_wait = multiprocessing.pool.wait

    def simple_queue(self):
        return SimNotifier() if core.CUR is not None else real_queue(self)

    def wait(sentinels, timeout=None):
        for x in sentinels:
            if isinstance(x, SimNotifier):
                return x.sim_wait(timeout)
        return real_wait(sentinels, timeout)
    multiprocessing.context.BaseContext.SimpleQueue = simple_queue
    multiprocessing.pool.wait = wait


class _Seq:
    n = 0


def _install_identity():
    """Futures and threads hash by creation order, not by memory address."""
    from concurrent.futures import _base

    def number(cls):
        real = cls.__init__

        def init(self, *args, **kwargs):
            _Seq.n += 1
            self._sim_seq = _Seq.n
            real(self, *args, **kwargs)
        cls.__init__ = init
        cls.__hash__ = lambda self: getattr(self, '_sim_seq', 0)
    number(_base.Future)
    number(threading.Thread)

    def init(self, futures):
        self.futures = sorted(futures, key=lambda f: getattr(f, '_sim_seq', 0))
    _base._AcquireFutures.__init__ = init


def install():
    _install_pool()
    _install_identity()
    concurrent.futures.ProcessPoolExecutor = SimProcessPoolExecutor
    cfp.ProcessPoolExecutor = SimProcessPoolExecutor
    sys.modules['concurrent.futures'].__dict__['ProcessPoolExecutor'] = SimProcessPoolExecutor
