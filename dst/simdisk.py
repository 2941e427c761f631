"""Simulated storage.

Files live in a scratch directory, but every file the code under test opens there goes through a raw
device (SimRaw) under the genuine io.BufferedWriter/BufferedReader/TextIOWrapper, so that short writes,
refused writes, full disks, failing opens/closes/reads and a frozen device (crash) can be injected at any
operation.  Fault specification (list of dicts, part of the plan):

  {"op": "open"|"write"|"close"|"read"|"mkdir"|"replace", "nth": k, "err": "EIO", "sticky": bool, "part": bytes}
  {"op": "quota", "bytes": n}                 # ENOSPC once n bytes have been written
  {"op": "short", "sizes": [1, 7, 4096]}      # legal short writes, cycling
  {"op": "shortread", "sizes": [...]}
  {"op": "eintr", "nth": k}                   # InterruptedError from the device, to be retried by io
  {"op": "crash", "nth": k}                   # at the k-th write the device freezes; SimCrash is raised
"""
import builtins
import errno
import io
import os

_real_open = builtins.open
_real_io_open = io.open
_real = {n: getattr(os, n) for n in ('mkdir', 'makedirs', 'replace', 'rename', 'remove', 'unlink')}


class SimCrash(BaseException):
    pass


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, rel, flags, mode, readable, writable):
        super().__init__()
        self._fd = -1
        self.disk = disk
        self.path = path
        self.rel = rel
        self._r = readable
        self._w = writable
        self.mode = mode
        self.name = rel
        self._fd = os.open(path, flags, 0o644)
        disk.handles.append(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('simulated file has no descriptor')

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.disk.event('truncate', self.rel)
        os.ftruncate(self._fd, size)
        return size

    def readinto(self, b):
        n = self.disk.on_read(self, len(b))
        data = os.read(self._fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        if not b:
            return 0
        n = self.disk.on_write(self, b)
        off = 0
        while off < n:
            off += os.write(self._fd, b[off:n])
        if self.disk.pending is not None:
            e = self.disk.pending
            self.disk.pending = None
            if n == 0:
                raise e
            # partial progress first: report it, the error strikes on the next write
            self.disk.deferred = e
        return n

    def close(self):
        if self.closed:
            return
        err = self.disk.on_close(self)
        try:
            super().close()
        finally:
            if self._fd >= 0:
                os.close(self._fd)
                self._fd = -1
            if self in self.disk.handles:
                self.disk.handles.remove(self)
        if err is not None:
            raise err


def _oserr(name, path):
    num = getattr(errno, name)
    return OSError(num, os.strerror(num), path)


class SimDisk:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.handles = []
        self.active = False
        self.reset()
        self.events = []

    def reset(self):
        self.specs = []
        self.counts = {}
        self.fired = []
        self.written = 0
        self.frozen = False
        self.pending = None
        self.deferred = None
        self.short = None
        self.shorti = 0
        self.shortread = None
        self.shortreadi = 0
        self.quota = None
        self.touched = set()
        self.opened = set()
        self.wlog = []

    def arm(self, specs):
        """Counts restart: the n-th operation is counted from here."""
        self.reset()
        for s in specs or []:
            if s['op'] == 'short':
                self.short = [max(1, int(x)) for x in s['sizes']] or [1]
            elif s['op'] == 'shortread':
                self.shortread = [max(1, int(x)) for x in s['sizes']] or [1]
            elif s['op'] == 'quota':
                self.quota = int(s['bytes'])
            else:
                self.specs.append(dict(s))
        self.active = True

    def disarm(self):
        fired = list(self.fired)
        self.reset()
        return fired

    def event(self, *ev):
        self.events.append(ev)

    def _hit(self, op):
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        for s in self.specs:
            if s['op'] == op and (n == s.get('nth', 0) or (s.get('sticky') and n > s.get('nth', 0))):
                return s
        return None

    def _fire(self, kind):
        self.fired.append(kind)

    # -- hooks -----------------------------------------------------------------------------------
    def on_open(self, rel, mode):
        if self.frozen:
            raise SimCrash('device frozen')
        wr = any(c in mode for c in 'wax+')
        self.event('open', rel, mode)
        if wr:
            self.touched.add(rel)
        s = self._hit('open' if wr else 'openr')
        if s:
            e = s.get('err', 'EACCES')
            self._fire(('open_' if wr else 'openr_') + e)
            raise _oserr(e, rel)

    def on_write(self, raw, b):
        if self.frozen:
            raise SimCrash('device frozen')
        if self.deferred is not None:
            e = self.deferred
            self.deferred = None
            raise e
        ei = self._hit('eintr')
        if ei is not None:
            self._fire('eintr')
            raise InterruptedError(errno.EINTR, 'interrupted')
        c = self._hit('crash')
        if c is not None:
            self._fire('crash')
            self.frozen = True
            part = min(len(b), int(c.get('part', 0)))
            off = 0
            while off < part:
                off += os.write(raw._fd, b[off:part])
            raise SimCrash('crash during write to %s' % raw.rel)
        s = self._hit('write')
        n = len(b)
        if s is not None:
            e = s.get('err', 'EIO')
            self._fire('write_' + e)
            n = min(n - 1, int(s.get('part', 0)))
            self.pending = _oserr(e, raw.rel)
            self.written += n
            self.wlog.append((raw.rel, n))
            return n
        if self.short is not None:
            k = self.short[self.shorti % len(self.short)]
            self.shorti += 1
            if k < n:
                if not any(f == 'short_write' for f in self.fired[-1:]):
                    self._fire('short_write')
                n = k
        if self.quota is not None and self.written + n > self.quota:
            n = max(0, self.quota - self.written)
            if n == 0:
                self._fire('quota_ENOSPC')
                raise _oserr('ENOSPC', raw.rel)
        self.written += n
        self.wlog.append((raw.rel, n))
        return n

    def on_read(self, raw, n):
        if self.frozen:
            raise SimCrash('device frozen')
        s = self._hit('read')
        if s is not None:
            e = s.get('err', 'EIO')
            self._fire('read_' + e)
            raise _oserr(e, raw.rel)
        if self.shortread is not None:
            k = self.shortread[self.shortreadi % len(self.shortread)]
            self.shortreadi += 1
            if k < n:
                if not any(f == 'short_read' for f in self.fired[-1:]):
                    self._fire('short_read')
                n = k
        return n

    def on_close(self, raw):
        self.event('close', raw.rel)
        if not raw._w or self.frozen:
            return None
        s = self._hit('close')
        if s is not None:
            e = s.get('err', 'EIO')
            self._fire('close_' + e)
            return _oserr(e, raw.rel)
        return None

    # -- seams -----------------------------------------------------------------------------------
    def rel(self, path):
        """Path relative to the simulated root, or None when the file is not ours."""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        full = os.path.join(os.path.realpath(os.path.dirname(p) or '.'), os.path.basename(p))
        if full == self.root or full.startswith(self.root + os.sep):
            return os.path.relpath(full, self.root)
        return None

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel = None
        if not isinstance(file, int) and opener is None and self.active:
            rel = self.rel(file)
        if rel is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not isinstance(mode, str):
            raise TypeError('invalid mode')
        m = mode.replace('b', '').replace('t', '')
        binary = 'b' in mode
        if m.replace('+', '') not in ('r', 'w', 'a', 'x'):
            raise ValueError('invalid mode: %r' % mode)
        flags = os.O_CLOEXEC
        plus = '+' in m
        r = m[0] == 'r' or plus
        w = m[0] != 'r' or plus
        flags |= os.O_RDWR if (r and w) else (os.O_RDONLY if r else os.O_WRONLY)
        if m[0] == 'w':
            flags |= os.O_CREAT | os.O_TRUNC
        elif m[0] == 'x':
            flags |= os.O_CREAT | os.O_EXCL
        elif m[0] == 'a':
            flags |= os.O_CREAT | os.O_APPEND
        self.on_open(rel, mode)
        if w:
            self.opened.add(rel)
            self.event('opened', rel)
        raw = SimRaw(self, os.path.join(self.root, rel), rel, flags, 'rb+' if plus else m[0] + 'b', r, w)
        if binary and buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if r and w:
            buf = io.BufferedRandom(raw, size)
        elif w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))
        t.mode = mode
        return t

    def _wrap_mkdir(self, name):
        def f(path, *a, **k):
            if self.active and self.rel(path) is not None:
                s = self._hit('mkdir')
                if s is not None:
                    e = s.get('err', 'EACCES')
                    self._fire('mkdir_' + e)
                    raise _oserr(e, self.rel(path))
            return _real[name](path, *a, **k)
        return f

    def _wrap_replace(self, name):
        def f(src, dst, *a, **k):
            if self.active and self.rel(dst) is not None:
                if self.frozen:
                    raise SimCrash('device frozen')
                self.touched.add(self.rel(dst))
                s = self._hit('replace')
                if s is not None:
                    e = s.get('err', 'EIO')
                    self._fire('replace_' + e)
                    raise _oserr(e, self.rel(dst))
                v = _real[name](src, dst, *a, **k)
                self.event('replaced', self.rel(dst))
                return v
            return _real[name](src, dst, *a, **k)
        return f

    def install(self):
        builtins.open = self.open
        io.open = self.open
        os.mkdir = self._wrap_mkdir('mkdir')
        os.replace = self._wrap_replace('replace')
        os.rename = self._wrap_replace('rename')
        self.active = True

    def uninstall(self):
        builtins.open = _real_open
        io.open = _real_io_open
        for n in ('mkdir', 'replace', 'rename'):
            setattr(os, n, _real[n])
        self.active = False

    # -- harness access (never faulty) -----------------------------------------------------------
    def read_bytes(self, rel):
        p = os.path.join(self.root, rel)
        if not os.path.isfile(p):
            return None
        with _real_open(p, 'rb') as f:
            return f.read()

    def write_bytes(self, rel, data):
        p = os.path.join(self.root, rel)
        d = os.path.dirname(p)
        _real['makedirs'](d, exist_ok=True)
        with _real_open(p, 'wb') as f:
            f.write(data)

    def remove(self, rel):
        p = os.path.join(self.root, rel)
        if os.path.isfile(p):
            _real['unlink'](p)

    def snapshot(self):
        out = {}
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                with _real_open(p, 'rb') as fh:
                    out[os.path.relpath(p, self.root)] = fh.read()
        return out

    def open_handles(self):
        return [h.rel for h in self.handles if not h.closed]
