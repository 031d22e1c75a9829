"""
Seams: everything non-deterministic the system under test (SUT) touches goes
through here while a simulation is running.  With no simulation active every
patched function is a plain pass-through.

The SUT itself is unmodified: the seams are the third-party and standard-library
entry points it already uses (h5py.File and the h5py group/attribute/dataset
calls, time, os, glob, open).  They are installed before hera_pspec is imported.
"""
import builtins
import errno
import glob
import io
import os
import time
import weakref

CUR = None  # the active Sim, or None

_real = dict(
    sleep=time.sleep, time=time.time, monotonic=time.monotonic,
    remove=os.remove, unlink=os.unlink, rename=os.rename, replace=os.replace,
    listdir=os.listdir, scandir=os.scandir, glob=glob.glob, iglob=glob.iglob,
    open=builtins.open, mkdir=os.mkdir, rmdir=os.rmdir, getpid=os.getpid,
)


class SimKill(BaseException):
    """The simulated process was killed; nothing it does later has any effect."""


def set_current(sim):
    global CUR
    CUR = sim


def scratch_path(p):
    """Normalised path if p lies in the scratch directory of the running simulation."""
    sim = CUR
    if sim is None or isinstance(p, int):
        return None
    try:
        s = os.fspath(p)
    except TypeError:
        return None
    if isinstance(s, bytes):
        s = os.fsdecode(s)
    s = os.path.abspath(s)
    if s == sim.root or s.startswith(sim.root + os.sep):
        return s
    return None


# ----------------------------------------------------------------- time
def _sleep(dt):
    sim = CUR
    if sim is None or not sim.in_sut:
        return _real["sleep"](dt)
    return sim.sleep(dt)


def _time():
    sim = CUR
    if sim is None or not sim.in_sut:
        return _real["time"]()
    return sim.now()


def _monotonic():
    sim = CUR
    if sim is None or not sim.in_sut:
        return _real["monotonic"]()
    return sim.now(mono=True)


def _getpid():
    sim = CUR
    if sim is None or not sim.in_sut:
        return _real["getpid"]()
    return 1000 + sim.current.pid


# ----------------------------------------------------------------- disk
class SimFH:
    """
    File object handed to HDF5's file-object driver: the simulated disk.
    One positioned read or write here is one disk operation; every one of them
    can fail or be the last thing its process does.
    """

    def __init__(self, sim, path, write):
        self.sim, self.path, self.write_ok = sim, path, write
        self.proc = sim.current
        self.fd = os.open(path, os.O_RDWR if write else os.O_RDONLY)
        st = os.fstat(self.fd)
        self.key = (st.st_dev, st.st_ino)
        self.pos = 0
        self.priv = None  # private copy once the process is dead
        self.sim_id = sim.disk.register(self)
        self.locked = False

    # -- life cycle
    def die(self):
        if self.priv is None:
            size = os.fstat(self.fd).st_size
            self.priv = bytearray(os.pread(self.fd, size, 0))

    def release(self):
        self.sim.disk.unregister(self)

    def _finish(self):
        if self.fd is not None:
            fd, self.fd = self.fd, None
            os.close(fd)
            self.sim.disk.unregister(self)

    def __del__(self):
        try:
            self._finish()
        except Exception:
            pass

    # -- file protocol used by h5py's fileobj driver
    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = (len(self.priv) if self.priv is not None
                        else os.fstat(self.fd).st_size) + off
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        raise io.UnsupportedOperation("read")

    def readinto(self, buf):
        if self.priv is None:
            self.sim.event("dr", None)
        if self.priv is not None:
            d = bytes(self.priv[self.pos:self.pos + len(buf)])
        else:
            d = os.pread(self.fd, len(buf), self.pos)
        buf[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, data):
        data = bytes(data)
        if self.priv is None:
            act = self.sim.event("dw", None, inner=True)
            if act == "kill":      # process dies before this write reaches the disk
                self.sim.kill_current()
            elif act == "kill-torn":
                os.pwrite(self.fd, data[:len(data) // 2], self.pos)
                self.sim.kill_current()
        if self.priv is not None:
            end = self.pos + len(data)
            if end > len(self.priv):
                self.priv.extend(b"\0" * (end - len(self.priv)))
            self.priv[self.pos:end] = data
        else:
            os.pwrite(self.fd, data, self.pos)
        self.pos += len(data)
        return len(data)

    def truncate(self, n=None):
        n = self.pos if n is None else n
        if self.priv is None:
            act = self.sim.event("dw", None, inner=True)
            if act:
                self.sim.kill_current()
        if self.priv is not None:
            if n < len(self.priv):
                del self.priv[n:]
            else:
                self.priv.extend(b"\0" * (n - len(self.priv)))
        else:
            os.ftruncate(self.fd, n)
        return n

    def flush(self):
        return None


class Disk:
    """Lock table and HDF5 file-consistency flags of the simulated disk."""

    def __init__(self, sim):
        self.sim = sim
        self.handles = {}   # id -> weakref(SimFH)
        self.info = {}      # id -> (key, write, proc)
        self.locks = {}     # key -> {id: write?}
        self.wflag = set()  # keys of files whose writer never closed them
        self.n = 0

    def register(self, fh):
        self.n += 1
        self.handles[self.n] = weakref.ref(fh)
        self.info[self.n] = (fh.key, fh.write_ok, fh.proc, fh.path)
        return self.n

    def unregister(self, fh):
        i = fh.sim_id
        if i in self.handles:
            del self.handles[i]
            del self.info[i]
            lk = self.locks.get(fh.key)
            if lk is not None and i in lk:
                del lk[i]
                if not lk:
                    del self.locks[fh.key]
                if fh.write_ok and fh.priv is None:
                    self.wflag.discard(fh.key)

    def lock(self, fh):
        lk = self.locks.setdefault(fh.key, {})
        for i, w in lk.items():
            if w or fh.write_ok:
                return False
        lk[fh.sim_id] = fh.write_ok
        return True

    def kill(self, proc):
        for i, ref in sorted(self.handles.items()):
            fh = ref()
            if fh is None or fh.proc is not proc:
                continue
            fh.die()
            lk = self.locks.get(fh.key)
            if lk is not None and i in lk:
                del lk[i]
                if not lk:
                    del self.locks[fh.key]
            del self.handles[i]
            del self.info[i]

    def open_handles(self, proc=None):
        return [(v[3], "w" if v[1] else "r") for i, v in sorted(self.info.items())
                if proc is None or v[2] is proc]


def _mk_simfile(RealFile):
    class File(RealFile):
        def __init__(self, name, mode="r", driver=None, libver=None, swmr=False, **kw):
            path = None
            if driver is None and CUR is not None and CUR.in_sut:
                path = scratch_path(name)
            if path is None:
                return RealFile.__init__(self, name, mode, driver=driver, libver=libver,
                                         swmr=swmr, **kw)
            sim = CUR
            sim.yield_point("open", force=True)
            sim.opens += 1
            sim.event("open", mode)
            if mode not in ("r", "r+", "w", "w-", "x", "a"):
                raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
            exists = os.path.exists(path)
            if mode in ("r", "r+") and not exists:
                raise FileNotFoundError(
                    errno.ENOENT, f"Unable to synchronously open file (unable to open file: name = '{name}', "
                    "errno = 2, error message = 'No such file or directory')")
            if mode in ("w-", "x") and exists:
                raise FileExistsError(errno.EEXIST, "Unable to synchronously create file (file exists)")
            if mode == "w" and sim.event("fs", "truncate", inner=True):
                sim.kill_current()
                raise SimKill()
            real_mode = {"a": "r+"}.get(mode, mode) if exists else {"a": "w", "x": "w", "w-": "w"}.get(mode, mode)
            write = real_mode != "r"
            if not exists:
                os.close(os.open(path, os.O_RDWR | os.O_CREAT, 0o644))
            fh = SimFH(sim, path, write)
            if not sim.disk.lock(fh):
                fh._finish()
                sim.lock_conflicts += 1
                raise BlockingIOError(
                    errno.EAGAIN, "Unable to synchronously open file (unable to lock file, errno = 11, "
                    "error message = 'Resource temporarily unavailable')")
            key = fh.key
            self._sim_fh = weakref.ref(fh)
            try:
                if real_mode == "w":
                    os.ftruncate(fh.fd, 0)
                    sim.disk.wflag.discard(key)
                else:
                    # HDF5 consistency flag: only files in the version-3 superblock
                    # format record that a writer has them open.
                    if key in sim.disk.wflag:
                        head = os.pread(fh.fd, 12, 0)
                        if len(head) == 12 and head[:8] == b"\x89HDF\r\n\x1a\n" and head[8] >= 3:
                            raise OSError(
                                "Unable to synchronously open file (file is already open for write "
                                "(may use <h5clear file> to clear file consistency flags))")
                RealFile.__init__(self, fh, real_mode, libver=libver, **kw)
            except BaseException:
                ref = weakref.ref(fh)
                fh._finish()
                raise
            if write:
                sim.disk.wflag.add(key)
            sim.note("opened", os.path.basename(path), mode)
            del fh

        def close(self):
            sim = CUR
            n = len(sim.current.op_fired) if sim is not None else 0
            try:
                RealFile.close(self)
            except BaseException:
                if sim is not None:
                    sim.close_faults += 1   # the library could not close the file
                raise
            finally:
                if sim is not None and len(sim.current.op_fired) != n:
                    sim.close_faults += 1   # the disk failed while HDF5 was closing the file
                # HDF5 has let go of the file, whoever still refers to the Python objects
                fh = getattr(self, "_sim_fh", lambda: None)()
                if fh is not None and not self.id:
                    fh.release()
                del fh
            if sim is not None:
                sim.yield_point("close")

        @property
        def filename(self):
            try:
                return RealFile.filename.fget(self)
            except Exception:
                return "<simulated>"

    File.__name__ = File.__qualname__ = "File"
    return File


# ----------------------------------------------------------------- h5py calls
def _wrap_h5(cls, name, ev):
    orig = getattr(cls, name)

    def wrapper(self, *a, **k):
        sim = CUR
        if sim is None or not sim.in_sut or sim.h5_depth:
            return orig(self, *a, **k)
        sim.yield_point(ev)
        target = str(a[0]) if a and isinstance(a[0], (str, bytes)) else ""
        sim.event(ev, name, target=target)
        sim.h5_depth += 1
        try:
            r = orig(self, *a, **k)
        finally:
            sim.h5_depth -= 1
        sim.event(ev, name, after=True, target=target)
        return r

    wrapper.__name__ = name
    wrapper.__doc__ = orig.__doc__
    setattr(cls, name, wrapper)


# ----------------------------------------------------------------- os calls
def _fs1(fname):
    real = _real[fname]

    def f(path, *a, **k):
        sim = CUR
        if sim is not None and sim.in_sut and scratch_path(path):
            sim.yield_point("fs")
            if sim.event("fs", fname):
                sim.kill_current()
                raise SimKill()
        return real(path, *a, **k)

    f.__name__ = fname
    return f


def _order(names):
    sim = CUR
    return sim.shuffle_listing(list(names))


def _listdir(path="."):
    r = _real["listdir"](path)
    if CUR is not None and CUR.in_sut and scratch_path(path):
        return _order(sorted(r))
    return r


def _glob(*a, **k):
    r = list(_real["iglob"](*a, **k))
    if CUR is not None and CUR.in_sut and a and scratch_path(a[0]):
        return _order(sorted(r))
    return r


def _iglob(*a, **k):
    return iter(_glob(*a, **k))


class _Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        return None


def _scandir(path="."):
    if CUR is not None and CUR.in_sut and scratch_path(path):
        with _real["scandir"](path) as it:
            ents = sorted(it, key=lambda e: e.name)
        return _Scan(_order(ents))
    return _real["scandir"](path)


def _open(file, mode="r", *a, **k):
    sim = CUR
    if sim is not None and sim.in_sut and scratch_path(file):
        sim.yield_point("fs")
        if sim.event("fs", "open:" + mode):
            sim.kill_current()
            raise SimKill()
    return _real["open"](file, mode, *a, **k)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import h5py
    from h5py._hl.attrs import AttributeManager

    time.sleep, time.time, time.monotonic = _sleep, _time, _monotonic
    for n in ("remove", "unlink", "rename", "replace", "mkdir", "rmdir"):
        setattr(os, n, _fs1(n))
    os.getpid = _getpid
    os.listdir, os.scandir = _listdir, _scandir
    glob.glob, glob.iglob = _glob, _iglob
    builtins.open = _open
    h5py.File = _mk_simfile(h5py.File)
    for n in ("create_group", "create_dataset", "require_group", "require_dataset",
              "__delitem__", "__setitem__", "move", "copy"):
        _wrap_h5(h5py.Group, n, "h5w")
    for n in ("__getitem__", "keys", "get"):
        _wrap_h5(h5py.Group, n, "h5r")
    for n in ("__setitem__", "create", "modify", "__delitem__"):
        _wrap_h5(AttributeManager, n, "h5w")
    _wrap_h5(AttributeManager, "__getitem__", "h5r")
    _wrap_h5(h5py.Dataset, "__getitem__", "h5r")
    _wrap_h5(h5py.Dataset, "__setitem__", "h5w")
    _wrap_h5(h5py.File, "flush", "h5w")
