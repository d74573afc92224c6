"""Simulated storage: every local file operation below ROOT is a yield and fault point.

Files are real files in a scratch directory, opened through an io.FileIO subclass beneath the
real buffered layers, so that a killed process loses exactly its user-space buffers.  The remote
scheme sim:// is a Beam FileSystem whose objects appear atomically when their writer is closed.
"""
import builtins
import errno
import gc
import hashlib
import io
import os
import shutil
import signal
import tempfile
import weakref

from . import core

R = {name: getattr(os, name) for name in (
    'open', 'stat', 'lstat', 'mkdir', 'rename', 'replace', 'remove', 'unlink', 'rmdir', 'scandir',
    'listdir', 'link', 'symlink', 'truncate', 'chmod', 'utime', 'urandom', 'access', 'sendfile',
    'ftruncate', 'write', 'fork')}
R['io_open'] = io.open

BUF = 1 << 20


class World:
    """Per simulated process view of the storage (inherited across fork)."""
    root = None           # scratch root of this run; None: simulation of storage is off
    salt = ''             # listing order and chunking salt
    chunk = 0             # 0: whole reads/writes; n: pieces of at most n bytes
    latency = 0.0         # mean latency of remote operations, simulated seconds
    out_dirs = ()         # directories whose content is observed after every mutation
    observed = None       # list of (relpath, digest or None)
    seen = None           # relpath -> signature
    blobs = None          # digest -> bytes
    outside = None        # mutations attempted outside ROOT
    touched = None        # set of (kind, relpath) of mutating operations
    opens = None          # weakrefs of open simulated files
    implicit = ()         # files collected without having been closed
    final = False         # at the end of a run
    max_open = 0
    max_temp = 0
    diskfull = False
    fault_cfg = None
    budget = 0
    names = None
    observer = True       # False in worker processes (their proxy observes)
    send_crash = None     # callable sending the result before a crash
    is_worker = False


W = World()


def rel(path):
    root = W.root
    if path == root:
        return '.'
    return path[len(root) + 1:]


def _abspath(path, dir_fd=None):
    if isinstance(path, int):
        try:
            return os.readlink('/proc/self/fd/%d' % path)
        except OSError:
            return ''
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if dir_fd is not None and not os.path.isabs(path):
        try:
            path = os.path.join(os.readlink('/proc/self/fd/%d' % dir_fd), path)
        except OSError:
            return path
    return os.path.abspath(path)


def inside(path):
    root = W.root
    return root is not None and (path == root or path.startswith(root + '/'))


def area(relpath):
    """Path class: src, xml, cfg, list, out, failed, tmp, cwd, remote/<class>, ..."""
    parts = relpath.split('/')
    if parts[0] == 'in' and len(parts) > 1:
        return parts[1]
    if parts[0] == 'remote' and len(parts) > 2:
        return 'r-' + (parts[3] if parts[2] == 'in' and len(parts) > 3 else parts[2])
    return parts[0]


# -- observation of outputs --------------------------------------------------

def _scan(directory, acc):
    try:
        with R['scandir'](directory) as it:
            entries = list(it)
    except OSError:
        return
    for e in entries:
        try:
            if e.is_dir(follow_symlinks=False):
                _scan(e.path, acc)
            else:
                st = e.stat(follow_symlinks=False)
                acc[e.path] = (st.st_ino, st.st_size, st.st_mtime_ns)
        except OSError:
            pass


def read_real(path):
    fd = R['open'](path, os.O_RDONLY)
    try:
        out = []
        while True:
            b = os.read(fd, BUF)
            if not b:
                return b''.join(out)
            out.append(b)
    finally:
        os.close(fd)


def observe():
    """Records every new version of every file in the output directories."""
    if not W.observer or W.root is None:
        return
    acc = {}
    for d in W.out_dirs:
        _scan(d, acc)
    for path in sorted(acc):
        if W.seen.get(path) != acc[path]:
            W.seen[path] = acc[path]
            try:
                data = read_real(path)
            except OSError:
                continue
            digest = hashlib.sha1(data).hexdigest()
            W.blobs.setdefault(digest, data)
            W.observed.append((rel(path), digest))
    for path in sorted(W.seen):
        if path not in acc:
            del W.seen[path]
            W.observed.append((rel(path), None))


def census_temp():
    n = 0
    try:
        n = len(R['listdir'](os.path.join(W.root, 'tmp')))
    except OSError:
        pass
    if n > W.max_temp:
        W.max_temp = n


def census_open(f):
    W.opens = [r for r in W.opens if r() is not None and not r().closed]
    W.opens.append(weakref.ref(f))
    if len(W.opens) > W.max_open:
        W.max_open = len(W.opens)


def implicit(f):
    if (core.CUR is not None or W.final) and len(W.implicit) < 20:
        W.implicit.append(f.sim_path)


def open_files():
    W.final = True
    gc.collect()
    W.final = False
    left = [r() for r in W.opens if r() is not None and not r().closed]
    # descriptors that no file object belongs to
    raw = []
    for fd in R['listdir']('/proc/self/fd'):
        try:
            path = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if inside(path) and int(fd) not in [f.fileno() for f in left if isinstance(f, SimRaw)]:
            raw.append('descriptor of ' + rel(path))
    return sorted([getattr(f, 'sim_path', '?') for f in left] + raw)


# -- fault decision ----------------------------------------------------------

ERRNO = {
    'eio': errno.EIO, 'enospc': errno.ENOSPC, 'emfile': errno.EMFILE, 'eacces': errno.EACCES,
    'econn': errno.ECONNRESET, 'enoent': errno.ENOENT, 'etime': errno.ETIMEDOUT,
}

FAULTS_BY_OP = {
    'open-r': ['eio', 'emfile', 'eacces', 'enoent', 'etime'],
    'open-w': ['eio', 'enospc', 'emfile', 'eacces'],
    'read': ['eio', 'memory', 'etime'],
    'write': ['enospc', 'eio'],
    'close-w': ['eio'],
    'close-r': [],
    'mkdir': ['enospc', 'eio', 'eacces'],
    'rename': ['eio', 'eacces'],
    'unlink': [],
    'rmdir': [],
    'stat': [],
    'list': [],   # glob and os.walk swallow errors of local listings (not the tools' doing)
    'mut': [],
    'r-open': ['econn', 'eio', 'eacces', 'enoent', 'etime'],
    'r-read': ['econn', 'eio', 'etime'],
    'r-write': ['econn', 'etime'],
    'r-commit': ['econn', 'eio', 'eacces', 'etime'],
    'r-rename': ['econn', 'half', 'etime'],
    'r-exists': ['econn', 'etime', 'eacces'],
    'r-list': ['econn', 'etime', 'eacces'],
    'r-delete': [],
}

CONTROL = ['crash', 'stall', 'interrupt', 'kill', 'jump']


def op(kind, path, mutating=False):
    """One I/O operation: yields, then returns an injected fault kind or None."""
    s = core.CUR
    if s is None or W.root is None:
        return None
    relpath = rel(path)
    s.io_step()
    s.log(kind, relpath)
    if mutating:
        W.touched.add((kind, relpath))
    plan = s.plan
    idx = s.ops
    fault = None
    if plan.replay:
        fault = plan.faults.get(idx)
    elif W.fault_cfg and W.budget > 0:
        cfg = W.fault_cfg
        a = area(relpath)
        rates = cfg['areas']
        p = rates.get(a, rates.get('*', 0.0))
        boost = cfg.get('ops')
        if boost:
            p *= boost.get(kind, boost.get('*', 1.0))
        if p and plan.rng.random() < p:
            kinds = [k for k in FAULTS_BY_OP.get(kind, []) if k in cfg['kinds']]
            kinds += [k for k in CONTROL if k in cfg['kinds']]
            if kinds:
                fault = plan.rng.choice(kinds)
    if fault is None and W.diskfull and kind in ('write', 'open-w', 'mkdir'):
        fault = 'enospc'
    if fault is None:
        return None
    return _apply(s, idx, fault, kind, relpath)


def _apply(s, idx, fault, kind, relpath):
    if fault == 'kill' and not W.is_worker:
        return None
    if fault == 'crash' and W.is_worker:
        return None
    if fault == 'interrupt':
        if not s.interrupt_main():
            return None
        W.budget -= 1
        s.fired.append((idx, fault, kind, relpath))
        s.log('fault', fault, relpath)
        return None
    W.budget -= 1
    s.fired.append((idx, fault, kind, relpath))
    s.log('fault', fault, relpath)
    if fault in ('crash', 'kill'):
        W.send_crash(fault)
        os.kill(os.getpid(), signal.SIGKILL)
    if fault == 'stall':
        s.sleep(30.0)
        return None
    if fault == 'jump':
        s.offset += -3600.0 if (idx & 1) else 86400.0
        return None
    if fault == 'memory':
        raise MemoryError('injected')
    if fault == 'enospc' and W.fault_cfg and W.fault_cfg.get('diskfull'):
        W.diskfull = True
    return fault


def fail(fault, path):
    code = ERRNO[fault]
    raise OSError(code, os.strerror(code), path)


def check(kind, path, mutating=False):
    fault = op(kind, path, mutating)
    if fault:
        fail(fault, path)


def guard_outside(path):
    """A mutation outside the scratch root: recorded and refused."""
    if core.CUR is None or W.root is None:
        return
    if path.startswith('/dev/') or path.startswith('/proc/'):
        return
    W.outside.append(path)
    raise PermissionError(errno.EACCES, 'simulation: write outside the scratch area', path)


def piece(n, idx):
    """How many of n bytes the next transfer moves."""
    c = W.chunk
    if not c or n <= 1:
        return n
    h = core.hash_mix(hash_str(W.salt), idx)
    return max(1, min(n, 1 + (h >> 7) % c))


def hash_str(text):
    return int.from_bytes(hashlib.sha1(text.encode()).digest()[:8], 'big')


# -- local files --------------------------------------------------------------

class SimRaw(io.FileIO):
    def __init__(self, file, mode, closefd=True, opener=None):
        path = _abspath(file)
        self.sim_path = rel(path)
        self.sim_full = path
        self.sim_write = any(c in mode for c in 'wax+')
        self.sim_n = 0
        check('open-w' if self.sim_write else 'open-r', path, self.sim_write)
        super().__init__(file, mode, closefd, opener)
        census_open(self)
        if self.sim_write:
            observe()
        census_temp()

    def _sim_fault(self, kind, mutating=False):
        return op(kind, self.sim_full, mutating)

    def readinto(self, b):
        fault = self._sim_fault('read')
        if fault:
            fail(fault, self.sim_full)
        self.sim_n += 1
        mv = memoryview(b).cast('B')
        n = piece(len(mv), self.sim_n)
        return super().readinto(mv[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = []
        buf = bytearray(BUF >> 4)
        while True:
            n = self.readinto(buf)
            if not n:
                return b''.join(out)
            out.append(bytes(buf[:n]))

    def write(self, b):
        mv = memoryview(b).cast('B')
        fault = self._sim_fault('write', True)
        self.sim_n += 1
        if fault:
            n = len(mv) // 2
            if n:
                super().write(mv[:n])
                observe()
            fail(fault, self.sim_full)
        n = piece(len(mv), self.sim_n)
        n = super().write(mv[:n])
        observe()
        return n

    def _dealloc_warn(self, source):
        # called when a file object is collected without having been closed
        implicit(self)

    def __del__(self):
        if not self.closed:
            implicit(self)
            self.close()

    def truncate(self, size=None):
        self._sim_fault('mut', True)
        r = super().truncate(size)
        observe()
        return r

    def close(self):
        if self.closed:
            return
        fault = None
        if core.CUR is not None and W.root is not None:
            kind = 'close-w' if self.sim_write else 'close-r'
            try:
                fault = op(kind, self.sim_full, False)
            except MemoryError:
                fault = None
        super().close()
        if self.sim_write:
            observe()
        if fault:
            fail(fault, self.sim_full)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if core.CUR is None or W.root is None:
        return R['io_open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = _abspath(file)
    writing = any(c in mode for c in 'wax+')
    if not inside(path):
        if writing and not isinstance(file, int):
            guard_outside(path)
        return R['io_open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    rawmode = ''.join(c for c in mode if c in 'rwax+')
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimRaw(file, rawmode, closefd, opener)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in rawmode:
        buffer = io.BufferedRandom(raw, size)
    elif writing:
        buffer = io.BufferedWriter(raw, size)
    else:
        buffer = io.BufferedReader(raw, size)
    if binary:
        return buffer
    text = io.TextIOWrapper(buffer, encoding or 'utf-8', errors, newline, buffering == 1)
    text.mode = mode
    return text


def _w(name, kind, mutating, nargs=1):
    real = R[name]

    def wrapper(path, *args, **kwargs):
        if core.CUR is None or W.root is None:
            return real(path, *args, **kwargs)
        full = _abspath(path, kwargs.get('dir_fd', kwargs.get('src_dir_fd')))
        if not inside(full):
            if mutating:
                guard_outside(full)
            return real(path, *args, **kwargs)
        if mutating and nargs == 2:
            other = _abspath(args[0], kwargs.get('dst_dir_fd'))
            if not inside(other):
                guard_outside(other)
            W.touched.add((kind, rel(other)))
        fault = op(kind, full, mutating)
        if fault:
            fail(fault, full)
        try:
            return real(path, *args, **kwargs)
        finally:
            if mutating:
                observe()
                census_temp()
    wrapper.__name__ = name
    return wrapper


class _ScandirList:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def close(self):
        self._it = iter(())


def shuffled(names, key=lambda x: x):
    salt = W.salt
    return sorted(names, key=lambda n: hashlib.sha1((salt + '|' + str(key(n))).encode()).digest())


def sim_scandir(path='.'):
    if core.CUR is None or W.root is None:
        return R['scandir'](path)
    full = _abspath(path)
    if not inside(full):
        return R['scandir'](path)
    # faults on listing only make sense where user data is listed, not in cleanup code
    fault = op('list' if not isinstance(path, int) and area(rel(full)) != 'tmp' else 'stat', full)
    if fault:
        fail(fault, full)
    with R['scandir'](path) as it:
        entries = list(it)
    return _ScandirList(shuffled(entries, key=lambda e: e.name))


def sim_listdir(path='.'):
    if core.CUR is None or W.root is None:
        return R['listdir'](path)
    full = _abspath(path)
    if not inside(full):
        return R['listdir'](path)
    fault = op('list' if area(rel(full)) != 'tmp' else 'stat', full)
    if fault:
        fail(fault, full)
    return shuffled(R['listdir'](path))


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if core.CUR is None or W.root is None:
        return R['open'](path, flags, mode, dir_fd=dir_fd)
    full = _abspath(path, dir_fd)
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    if not inside(full):
        if writing:
            guard_outside(full)
        return R['open'](path, flags, mode, dir_fd=dir_fd)
    kind = ('open-w' if writing else 'stat')
    fault = op(kind, full, writing)
    if fault:
        fail(fault, full)
    try:
        return R['open'](path, flags, mode, dir_fd=dir_fd)
    finally:
        if writing:
            observe()


def sim_os_write(fd, data):
    if core.CUR is None or W.root is None:
        return R['write'](fd, data)
    full = _abspath(fd)
    if not inside(full):
        return R['write'](fd, data)
    fault = op('write', full, True)
    if fault:
        n = len(data) // 2
        if n:
            R['write'](fd, bytes(data)[:n])
            observe()
        fail(fault, full)
    try:
        return R['write'](fd, data)
    finally:
        observe()


def sim_urandom(n):
    s = core.CUR
    if s is None or W.names is None:
        return R['urandom'](n)
    return W.names.randbytes(n)


class _Names:
    """Deterministic names for temporary files."""

    def __iter__(self):
        return self

    def __next__(self):
        chars = 'abcdefghijklmnopqrstuvwxyz0123456789_'
        return ''.join(W.names.choice(chars) for _ in range(8))


def sim_import(name, *args, **kwargs):
    if core.CUR is None:
        return REAL_IMPORT(name, *args, **kwargs)
    with core.noyield():
        return REAL_IMPORT(name, *args, **kwargs)


REAL_IMPORT = builtins.__import__


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.urandom = sim_urandom
    os.stat = _w('stat', 'stat', False)
    os.lstat = _w('lstat', 'stat', False)
    os.access = _w('access', 'stat', False)
    os.mkdir = _w('mkdir', 'mkdir', True)
    os.rename = _w('rename', 'rename', True, 2)
    os.replace = _w('replace', 'rename', True, 2)
    os.remove = _w('remove', 'unlink', True)
    os.unlink = _w('unlink', 'unlink', True)
    os.rmdir = _w('rmdir', 'rmdir', True)
    os.link = _w('link', 'mut', True, 2)
    os.truncate = _w('truncate', 'mut', True)
    os.chmod = _w('chmod', 'mut', True)
    os.utime = _w('utime', 'mut', True)
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    for name in ('stat', 'open', 'unlink', 'rmdir', 'mkdir', 'rename', 'remove', 'link', 'access',
                 'chmod', 'utime'):
        if R[name] in os.supports_dir_fd:
            os.supports_dir_fd.add(getattr(os, name))
        if R[name] in os.supports_fd:
            os.supports_fd.add(getattr(os, name))
        if R[name] in os.supports_follow_symlinks:
            os.supports_follow_symlinks.add(getattr(os, name))
    os.supports_fd.add(os.scandir)
    os.supports_fd.add(os.listdir)
    shutil._USE_CP_SENDFILE = False
    builtins.__import__ = sim_import


def install_late():
    """After the libraries are imported: C parsers run without preemption inside."""
    from lxml import etree

    def wrap(fn):
        def inner(*args, **kwargs):
            if core.CUR is None:
                return fn(*args, **kwargs)
            with core.noyield():
                return fn(*args, **kwargs)
        inner.__name__ = getattr(fn, '__name__', 'parse')
        return inner
    etree.parse = wrap(etree.parse)
    tempfile._name_sequence = _Names()
    # shutil decides once, at import time, which rmtree implementation is usable
    shutil._use_fd_functions = True


def reset(root, salt, chunk, latency, out_dirs, seed):
    import random
    W.root = root
    W.salt = salt
    W.chunk = chunk
    W.latency = latency
    W.out_dirs = tuple(out_dirs)
    W.observed = []
    W.seen = {}
    W.blobs = {}
    W.outside = []
    W.touched = set()
    W.opens = []
    W.implicit = []
    W.final = False
    W.max_open = 0
    W.max_temp = 0
    W.diskfull = False
    W.names = random.Random('names|%s' % seed)
    random.seed('global|%s' % seed)
    tempfile.tempdir = os.path.join(root, 'tmp')
    # baseline: whatever is already there is not a new version
    acc = {}
    for d in W.out_dirs:
        _scan(d, acc)
    W.seen = acc
