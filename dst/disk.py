"""Disk seam: a scratch directory whose files can fail, tear, fill up or lose their tail; crashes of the saving process."""
import builtins
import errno
import io
import os
import shutil
import tempfile

from .core import SimFault


class SimCrash(BaseException):
    """The simulated process dies; only what reached the disk survives."""
    simulated = True


class DiskError(SimFault, OSError):
    def __init__(self, code, what):
        OSError.__init__(self, code, what)


ERRS = [(errno.ENOSPC, 'No space left on device'), (errno.EIO, 'Input/output error'), (errno.EDQUOT, 'Disk quota exceeded')]
OPEN_ERRS = [(errno.EACCES, 'Permission denied'), (errno.ENOSPC, 'No space left on device'), (errno.EROFS, 'Read-only file system'),
             (errno.EMFILE, 'Too many open files')]


class _File:
    """Write-side wrapper of one open file."""

    def __init__(self, disk, f, name):
        self.disk, self.f, self.name_ = disk, f, name

    def write(self, s):
        return self.disk.on_write(self, s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def close(self):
        if not self.f.closed:
            self.disk.on_close(self)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.close()
        else:
            self.f.close()
        return False

    def __getattr__(self, n):
        return getattr(self.f, n)


class Disk:
    """plan: None or (kind, argument); armed for the next file operation it applies to."""

    def __init__(self, sim):
        self.sim = sim
        self.root = tempfile.mkdtemp(prefix='dst-disk-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        self.plan = None
        self.fired = None

    def __enter__(self):
        self.saved = builtins.open, io.open
        builtins.open = self.open
        io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.saved
        shutil.rmtree(self.root, ignore_errors=True)
        return False

    def mine(self, path):
        try:
            return os.path.abspath(os.fspath(path)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def fire(self, what):
        self.fired = what
        self.plan = None
        self.sim.fault(what)

    def open(self, path, mode='r', *a, **k):
        real = self.saved[0]
        if not self.mine(path):
            return real(path, mode, *a, **k)
        name = os.path.basename(os.fspath(path))
        self.sim.tick(0.001)
        w = any(c in mode for c in 'wax+')
        p = self.plan
        if p and p[0] == ('open' if w else 'read-open'):
            e = OPEN_ERRS[p[1] % len(OPEN_ERRS)]
            self.fire(f'{errno.errorcode[e[0]]} when opening for ' + ('writing' if w else 'reading'))
            raise DiskError(*e)
        if p and p[0] == 'crash-open' and w:
            self.fire('crash before opening')
            raise SimCrash()
        try:
            f = real(path, mode, *a, **k)
        except OSError as e:
            e.simulated = True          # an ordinary answer of the (simulated) disk, e.g. no such file
            raise
        if w:
            return _File(self, f, name)
        if p and p[0] == 'read':
            self.fire('EIO when reading')
            f.close()
            raise DiskError(errno.EIO, 'Input/output error')
        return f

    def on_write(self, fw, s):
        p = self.plan
        if p and p[0] in ('write', 'crash-write'):
            kind = p[0]
            cut = p[1] % (len(s) + 1)
            fw.f.write(s[:cut])
            fw.f.flush()
            if kind == 'write':
                e = ERRS[p[2] % len(ERRS)]
                self.fire(f'{errno.errorcode[e[0]]} after a partial write')
                raise DiskError(*e)
            self.fire('crash during the write')
            raise SimCrash()
        return fw.f.write(s)

    def on_close(self, fw):
        p = self.plan
        fw.f.close()
        if p and p[0] in ('close', 'crash-close'):
            self.tear(fw.f.name, p[1])
            if p[0] == 'close':
                e = ERRS[p[2] % len(ERRS)]
                self.fire(f'{errno.errorcode[e[0]]} on close (delayed write failed)')
                raise DiskError(*e)
            self.fire('crash on close (buffered data lost)')
            raise SimCrash()

    def tear(self, path, k):
        """only a prefix of the file survives"""
        n = os.path.getsize(path)
        os.truncate(path, k % (n + 1))
