"""sim:// -- an object store as a Beam FileSystem (imported only after core/storage are installed).

Objects live below ROOT/remote/<bucket>/...; an object appears atomically when its writer is
closed and is lost with the writing process.  There are no directories: creating one is a no-op
and only objects exist, as on the cloud object stores the tools are used with.
"""
import io
import os


from apache_beam.io.filesystem import (
    BeamIOError, CompressedFile, CompressionTypes, FileMetadata, FileSystem
)

from . import core
from .storage import R, W, implicit, _scan, fail, observe, op, piece, census_open, shuffled

PREFIX = 'sim://'


def to_local(path):
    assert path.startswith(PREFIX), path
    return os.path.join(W.root, 'remote', path[len(PREFIX):])


def to_url(local):
    return PREFIX + local[len(os.path.join(W.root, 'remote')) + 1:]


def _latency():
    s = core.CUR
    if s is not None and W.latency:
        h = core.hash_mix(s.ops * 2654435761, len(s.tasks))
        s.sleep(W.latency * ((h >> 5) % 1000) / 500.0)


def rop(kind, local, mutating=False):
    if core.CUR is None:
        return None
    _latency()
    return op(kind, local, mutating)


def rcheck(kind, local, mutating=False):
    fault = rop(kind, local, mutating)
    if fault:
        fail('econn' if fault == 'half' else fault, to_url(local))


def _put(local, data):
    directory = os.path.dirname(local)
    os.makedirs(directory, exist_ok=True) if core.CUR is None else _makedirs(directory)
    stage = os.path.join(W.root, 'stage-%d' % os.getpid())
    fd = R['open'](stage, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        view = memoryview(data)
        while len(view):
            n = R['write'](fd, view)
            view = view[n:]
    finally:
        os.close(fd)
    R['rename'](stage, local)


def _makedirs(directory):
    missing = []
    d = directory
    while True:
        try:
            R['stat'](d)
            break
        except OSError:
            missing.append(d)
            d = os.path.dirname(d)
    for d in reversed(missing):
        try:
            R['mkdir'](d)
        except FileExistsError:
            pass


def _is_object(local):
    try:
        st = R['stat'](local)
    except OSError:
        return False
    return (st.st_mode & 0o170000) == 0o100000


class _Reader(io.RawIOBase):
    mode = 'rb'

    def __init__(self, local):
        super().__init__()
        self.sim_path = 'remote:' + local[len(W.root) + 1:]
        self.local = local
        rcheck('r-open', local)
        if not _is_object(local):
            raise FileNotFoundError(2, 'object not found', to_url(local))
        from .storage import read_real
        self.data = read_real(local)
        self.pos = 0
        self.n = 0
        census_open(self)

    def readable(self):
        return True

    def _dealloc_warn(self, source):
        implicit(self)

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.pos = offset if whence == 0 else (
            self.pos + offset if whence == 1 else len(self.data) + offset)
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        rcheck('r-read', self.local)
        self.n += 1
        n = piece(min(len(b), len(self.data) - self.pos), self.n) if self.pos < len(self.data) else 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class _ShortReader(io.BufferedReader):
    """Like a network stream: asked for n bytes, it returns what has arrived."""

    def read(self, size=-1):
        if size is None or size <= 0:
            return super().read(size)
        return self.read1(size)


class _Writer(io.RawIOBase):
    mode = 'wb'

    def __init__(self, local):
        super().__init__()
        self.sim_path = 'remote:' + local[len(W.root) + 1:]
        self.local = local
        rcheck('r-open', local, False)
        self.chunks = []
        census_open(self)

    def writable(self):
        return True

    def _dealloc_warn(self, source):
        implicit(self)

    def tell(self):
        return sum(len(c) for c in self.chunks)

    def write(self, b):
        data = bytes(b)
        fault = rop('r-write', self.local)
        if fault:
            self.chunks.append(data[:len(data) // 2])
            fail(fault, to_url(self.local))
        self.chunks.append(data)
        return len(data)

    def close(self):
        if self.closed:
            return
        super().close()
        fault = rop('r-commit', self.local, True)
        if fault:
            fail(fault, to_url(self.local))
        _put(self.local, b''.join(self.chunks))
        if core.CUR is not None:
            observe()

    def __del__(self):
        # an abandoned upload is never published
        if not self.closed:
            implicit(self)
            io.RawIOBase.close(self)


class SimRemoteFileSystem(FileSystem):
    @classmethod
    def scheme(cls):
        return 'sim'

    def join(self, basepath, *paths):
        return '/'.join([basepath.rstrip('/')] + [p.strip('/') for p in paths])

    def split(self, path):
        path = path.strip()
        prefix_len = len(PREFIX)
        last_sep = path[prefix_len:].rfind('/')
        if last_sep >= 0:
            last_sep += prefix_len
        if last_sep > 0:
            return (path[:last_sep], path[last_sep + 1:])
        return (path, '')

    def mkdirs(self, path):
        pass

    def has_dirs(self):
        return False

    def _list(self, dir_or_prefix):
        local = to_local(dir_or_prefix)
        rcheck('r-list', local)
        acc = {}
        base = os.path.dirname(local) if not os.path.isdir(local) else local
        _scan(base, acc)
        for p in shuffled([p for p in acc if p.startswith(local)], key=to_url):
            yield FileMetadata(to_url(p), acc[p][1], 0.0)

    def _open(self, path, compression_type, factory, buffered):
        compression_type = FileSystem._get_compression_type(path, compression_type)
        raw = buffered(factory(to_local(path)))
        if compression_type == CompressionTypes.UNCOMPRESSED:
            return raw
        return CompressedFile(raw, compression_type=compression_type)

    def create(self, path, mime_type='application/octet-stream',
               compression_type=CompressionTypes.AUTO):
        return self._open(path, compression_type, _Writer, io.BufferedWriter)

    def open(self, path, mime_type='application/octet-stream',
             compression_type=CompressionTypes.AUTO):
        return self._open(path, compression_type, _Reader, _ShortReader)

    def copy(self, source_file_names, destination_file_names):
        from .storage import read_real
        errors = {}
        for src, dst in zip(source_file_names, destination_file_names):
            try:
                rcheck('r-commit', to_local(dst), True)
                if not _is_object(to_local(src)):
                    raise FileNotFoundError(2, 'object not found', src)
                _put(to_local(dst), read_real(to_local(src)))
                observe()
            except Exception as e:  # pylint: disable=broad-except
                errors[(src, dst)] = e
        if errors:
            raise BeamIOError('Copy operation failed', errors)

    def rename(self, source_file_names, destination_file_names):
        from .storage import read_real
        errors = {}
        for src, dst in zip(source_file_names, destination_file_names):
            try:
                ls, ld = to_local(src), to_local(dst)
                fault = rop('r-rename', ld, True)
                if fault and fault != 'half':
                    fail(fault, src)
                if not _is_object(ls):
                    raise FileNotFoundError(2, 'object not found', src)
                _put(ld, read_real(ls))
                observe()
                if fault == 'half':
                    fail('econn', src)
                rcheck('r-delete', ls, True)
                R['unlink'](ls)
                observe()
            except Exception as e:  # pylint: disable=broad-except
                errors[(src, dst)] = e
        if errors:
            raise BeamIOError('Rename operation failed', errors)

    def exists(self, path):
        local = to_local(path)
        fault = rop('r-exists', local)
        if fault:
            fail(fault, path)
        return _is_object(local)

    def size(self, path):
        try:
            return R['stat'](to_local(path)).st_size
        except OSError as e:
            raise BeamIOError('size failed', {path: e})

    def last_updated(self, path):
        return 0.0

    def checksum(self, path):
        return str(self.size(path))

    def metadata(self, path):
        return FileMetadata(path, self.size(path), 0.0)

    def delete(self, paths):
        errors = {}
        for path in paths:
            local = to_local(path)
            rop('r-delete', local, True)
            try:
                if os.path.isdir(local):
                    acc = {}
                    _scan(local, acc)
                    for p in acc:
                        R['unlink'](p)
                else:
                    R['unlink'](local)
            except OSError as e:
                errors[path] = e
            observe()
        if errors:
            raise BeamIOError('Delete operation failed', errors)


