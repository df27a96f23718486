"""The simulated disk.

Files are real files below a scratch root; every Python-level open of a path below that root returns a
stack (text/buffered) on top of `SimRaw`, which is where short transfers, errors, cancellations and crashes
are injected.  What to inject is fully determined by the operation's fault list: nothing here draws random
numbers or reads a clock.

fault = {'site': 'open'|'read'|'write'|'close'|'truncate', 'nth': k, 'kind': K, 'keep': bytes}
        {'site': 'space', 'bytes': n}           -- the disk is full after n more bytes
        sites 'pkgopen' and 'pkgread' are the same for files that come with the library (its tables), see `also`
K: errno name | 'CANCEL' (KeyboardInterrupt) | 'NOMEM' (MemoryError) | 'CRASH' (process dies) | 'EINTR' (transient)
'sticky': True makes every later call at that site fail the same way.
"""
import builtins
import errno
import io
import os

_real_open = builtins.open


class SimRaw(io.RawIOBase):
    """Raw file below the scratch root with injectable faults."""

    def __init__(self, fs, path, mode, owner):
        super().__init__()
        self._fs = fs
        self._owner = owner
        self._f = io.FileIO(path, mode)
        self.name = path
        self._fmode = mode
        self._pkg = fs.site_of(path)
        fs.handles.append(self)

    @property
    def mode(self):
        return self._f.mode

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def tell(self):
        return self._f.tell()

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def truncate(self, size=None):
        self._fs.hit('truncate', self)
        return self._f.truncate(size)

    def readinto(self, buf):
        fs = self._fs
        fs.hit(self._pkg + 'read', self)
        limit = fs.read_size(self)
        size = min(len(buf), limit) if limit else len(buf)
        data = self._f.read(size)
        if not self._pkg:
            fs.bytes_read += len(data)
        buf[:len(data)] = data
        return len(data)

    def write(self, buf):
        fs = self._fs
        data = bytes(buf)
        keep = fs.hit('write', self, data)
        if keep is not None:
            data = data[:keep]
        limit = fs.write_size(self)
        if limit:
            data = data[:max(1, limit)]
        num = self._f.write(data)
        fs.bytes_written += num
        return num

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if not self._f.closed:
                self._f.close()
                self._fs.hit(self._pkg + 'close', self)


class SimFS:
    """The simulated disk, installed by replacing `open` while a run is in progress."""

    def __init__(self, root, also=None):
        self.root = os.path.realpath(root) + os.sep
        self.also = os.path.realpath(also) + os.sep if also else None
        self.handles = []
        self.fired = {}
        self.bytes_read = 0
        self.bytes_written = 0
        self.on_crash = None
        self.watch = None  # called as watch(site, index) before each storage call
        self._owner = 'client'
        self.begin([], None)

    # ------------------------------------------------------------------ configuration of one operation
    def begin(self, faults, delivery, owner='client'):
        """Start an operation: faults and delivery pattern (list of read sizes, cycled) apply from here on."""
        self._faults = [dict(flt) for flt in (faults or [])]
        self._counts = {}
        self._space = None
        for flt in self._faults:
            if flt['site'] == 'space':
                self._space = flt['bytes']
        self._delivery = list((delivery or {}).get('read', []))
        self._wdelivery = list((delivery or {}).get('write', []))
        self._bufsize = (delivery or {}).get('buf')
        self._ridx = 0
        self._widx = 0
        self.op_fired = []
        self._owner = owner

    def end(self):
        """End of an operation: what actually fired."""
        fired = self.op_fired
        self.begin([], None)
        return fired

    def _count(self, site, kind):
        key = f'{site}:{kind}'
        self.fired[key] = self.fired.get(key, 0) + 1
        self.op_fired.append((site, kind))

    def read_size(self, _raw):
        if not self._delivery:
            return None
        size = self._delivery[self._ridx % len(self._delivery)]
        self._ridx += 1
        if size:
            self.fired['read:SHORT'] = self.fired.get('read:SHORT', 0) + 1
        return size

    def write_size(self, _raw):
        if not self._wdelivery:
            return None
        size = self._wdelivery[self._widx % len(self._wdelivery)]
        self._widx += 1
        if size:
            self.fired['write:SHORT'] = self.fired.get('write:SHORT', 0) + 1
        return size

    def hit(self, site, raw, data=None):
        """One storage call. Raises if a fault is due; for writes may return how many bytes to keep."""
        idx = self._counts.get(site, 0)
        self._counts[site] = idx + 1
        if self.watch is not None:
            self.watch(site, idx)
        for flt in self._faults:
            if flt['site'] != site:
                continue
            due = flt.get('nth', 0)
            if idx == due or (flt.get('sticky') and idx > due):
                kind = flt['kind']
                self._count(site, kind)
                keep = min(flt.get('keep', 0), len(data)) if data is not None else 0
                if keep and raw is not None:
                    raw._f.write(data[:keep])  # pylint: disable=protected-access
                    self.bytes_written += keep
                if kind == 'CRASH':
                    if self.on_crash is None:
                        raise AssertionError('crash fault outside a crashable operation')
                    self.on_crash()
                if kind == 'CANCEL':
                    raise KeyboardInterrupt('simulated cancellation')
                if kind == 'NOMEM':
                    raise MemoryError('simulated allocation failure')
                if kind == 'EINTR':
                    raise InterruptedError(errno.EINTR, 'simulated interrupted call')
                code = getattr(errno, kind)
                raise OSError(code, os.strerror(code))
        if site == 'write' and self._space is not None:
            if self._space <= 0:
                self._count('space', 'ENOSPC')
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            keep = min(self._space, len(data))
            self._space -= keep
            return keep
        return None

    def site_of(self, path):
        """'' below the root, 'pkg' for a file that comes with the library, None for all other files."""
        full = os.path.realpath(path)
        if full.startswith(self.root):
            return ''
        return 'pkg' if self.also and full.startswith(self.also) else None

    # ------------------------------------------------------------------ the seam
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        """Replacement of `open`: same semantics, simulated disk below the root."""
        if isinstance(file, int) or opener is not None or not closefd:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.fspath(file)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        full = os.path.realpath(path)
        pkg = self.site_of(full)
        if pkg is None or pkg and (set(mode) & set('wax+') or full.endswith(('.py', '.pyc'))):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = 'b' in mode
        raw_mode = mode.replace('b', '').replace('t', '')
        if sorted(raw_mode.replace('+', '')) not in (['r'], ['w'], ['a'], ['x']):
            raise ValueError(f'invalid mode: {mode!r}')
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError('binary mode does not take text arguments')
        self.hit(pkg + 'open', None)
        raw = SimRaw(self, path, raw_mode, self._owner)
        if buffering == 0:
            if not binary:
                raw.close()
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else (self._bufsize or io.DEFAULT_BUFFER_SIZE)
        if '+' in raw_mode:
            buf = io.BufferedRandom(raw, size)
        elif raw_mode == 'r':
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        if self._bufsize:
            # Small contents then reach the storage while they are being written, as large ones do.
            text._CHUNK_SIZE = self._bufsize  # pylint: disable=protected-access
        return text

    def install(self):
        builtins.open = self.open
        io.open = self.open

    def uninstall(self):
        builtins.open = _real_open
        io.open = _real_open

    # ------------------------------------------------------------------ observation
    def leaked_fds(self, known=()):
        """Descriptors of this process that refer to files below the root, except the caller's."""
        known_fds = set()
        for handle in known:
            try:
                known_fds.add(handle.fileno())
            except (ValueError, OSError, AttributeError):
                pass
        leaked = []
        for name in os.listdir('/proc/self/fd'):
            try:
                target = os.readlink('/proc/self/fd/' + name)
            except OSError:
                continue
            ours = target.startswith('/') and self.site_of(target.replace(' (deleted)', '')) is not None
            if ours and int(name) not in known_fds:
                leaked.append(os.path.relpath(target.replace(' (deleted)', ''), self.root))
        return sorted(leaked)


def read_bytes(path):
    """Content of a file, bypassing the simulated disk."""
    try:
        with _real_open(path, 'rb') as handle:
            return handle.read()
    except FileNotFoundError:
        return None


def write_bytes(path, data):
    """Store a file, bypassing the simulated disk."""
    with _real_open(path, 'wb') as handle:
        handle.write(data)
