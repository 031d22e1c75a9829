"""
The simulator: one Sim object is one run.  Everything that happens in it is a
function of the plan (operations, faults, schedule) and of the SUT's code.
"""
import errno
import gc
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import threading
import traceback
from collections import Counter

from . import poison, seams
from .seams import SimKill

SUT_ROOT = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(SUT_ROOT, "src")
PKG = os.path.join(SRC, "hera_pspec") + os.sep
_sut_codes = {}


class Violation(Exception):
    """A property does not hold.  sig names the kind of failure (stable across seeds)."""

    def __init__(self, sig, msg):
        Exception.__init__(self, f"{sig}: {msg}")
        self.sig, self.msg = sig, msg


class HarnessError(Exception):
    """The machinery itself is at fault (never reported as a violation)."""


def perturb(k):
    """Draws and reseedings of the ambient random generators by somebody else."""
    import random

    import numpy as np

    if k % 3:
        np.random.seed(k % 2**31)
        random.seed(k)
    for _ in range(k % 5):
        np.random.normal(size=3)
        random.random()


def require(cond, sig, msg=""):
    if not cond:
        raise Violation(sig, msg() if callable(msg) else msg)


def is_sut(code):
    r = _sut_codes.get(code)
    if r is None:
        r = _sut_codes[code] = code.co_filename.startswith(PKG)
    return r


# ------------------------------------------------------------ SUT processes
class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles each source file once per checking process."""

    cache = {}

    def get_code(self, fullname):
        code = self.cache.get(self.path)
        if code is None:
            with open(self.path, "rb") as fh:
                src = fh.read()
            code = self.cache[self.path] = compile(src, self.path, "exec", dont_inherit=True)
        return code


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != "hera_pspec" and not fullname.startswith("hera_pspec."):
            return None
        base = os.path.join(SRC, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py"))
        return None


sys.meta_path.insert(0, _Finder)


def load_sut():
    """Import a private copy of hera_pspec, as a newly started process would."""
    drop = [k for k in sys.modules if k == "hera_pspec" or k.startswith("hera_pspec.")]
    saved = {k: sys.modules.pop(k) for k in drop}
    del saved
    import hera_pspec

    mods = {k: v for k, v in sys.modules.items()
            if k == "hera_pspec" or k.startswith("hera_pspec.")}
    import hera_pspec.cli  # noqa: F401  (not imported by the package itself)

    mods["hera_pspec.cli"] = sys.modules["hera_pspec.cli"]
    poison.install(mods)
    return hera_pspec, mods


def activate(mods):
    for k, v in mods.items():
        sys.modules[k] = v


class Outcome:
    __slots__ = ("ok", "value", "exc", "killed", "label", "t0", "t1", "fired")

    def __init__(self):
        self.ok, self.value, self.exc, self.killed, self.label = False, None, None, False, ""
        self.t0 = self.t1 = 0
        self.fired = []

    def __repr__(self):
        if self.ok:
            return "ok"
        return "killed" if self.killed else f"{type(self.exc).__name__}({str(self.exc)[:80]})"


ERR = {
    "EIO": lambda: OSError(errno.EIO, "Input/output error (simulated)"),
    "ENOSPC": lambda: OSError(errno.ENOSPC, "No space left on device (simulated)"),
    "EAGAIN": lambda: BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable (simulated)"),
    "ENOENT": lambda: FileNotFoundError(errno.ENOENT, "No such file or directory (simulated)"),
    "MemoryError": lambda: MemoryError("simulated allocation failure"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated cancellation"),
    "RuntimeError": lambda: RuntimeError("simulated HDF5 library error"),
}


class Proc:
    """One simulated process: its own copy of the SUT's modules, its own operation context."""

    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.hp, self.mods = load_sut()
        self.dead = False
        sim.npid += 1
        self.pid = sim.npid
        self.op = None
        self.op_fired = []
        self.counts = Counter()
        self.fn = None
        self.thread = None
        self.sem = threading.Semaphore(0)
        self.state = "new"   # new, ready, sleeping, done
        self.wake = 0.0
        self.error = None


class Sim:
    def __init__(self, plan, root, record=False):
        self.plan = plan
        self.root = os.path.abspath(root)
        self.clock = float(plan.get("t0", 1.7e9))
        self.mono0 = self.clock
        self.disk = seams.Disk(self)
        self.fired = Counter()
        self.probes = Counter()
        self.opens = 0
        self.sleeps = []
        self.lock_conflicts = 0
        self.close_faults = 0
        self.h5_depth = 0
        self.in_sut = False
        self.tracing = False
        self.procs = []
        self.main_sem = threading.Semaphore(0)
        self.threaded = False
        self.sched = [list(x) for x in plan.get("sched", [])]
        self.sched_i = 0
        self.gap = self.sched[0][0] if self.sched else None
        self.switches = 0
        self.listing = list(plan.get("listing", []))
        self.listing_i = 0
        self.h = hashlib.sha256()
        self.log = [] if record else None
        self.evals = Counter()
        self.sigs = set()    # distinct states or cases reached (stated per check)
        self.nsteps = 0
        self.main = Proc.__new__(Proc)
        self.main.sim, self.main.name, self.main.dead, self.main.op = self, "main", False, None
        self.main.counts = Counter()
        self.main.op_fired = []
        self.main.pid = self.npid = 1
        self.aborting = False
        self.main.hp = None
        self.main.mods = None
        self.current = self.main
        self.max_events = 4_000_000
        self.n_line = 0

    # -------------------------------------------------------- life cycle
    def __enter__(self):
        os.makedirs(self.root, exist_ok=True)
        self.old_cwd = os.getcwd()
        os.chdir(self.root)
        self.gc_was = gc.isenabled()
        gc.collect()
        gc.disable()
        seams.set_current(self)
        self.main.hp, self.main.mods = load_sut()
        return self

    def __exit__(self, *exc):
        self.in_sut = False
        sys.settrace(None)
        seams.set_current(None)
        self.main.hp = None
        self.procs = []
        gc.collect()
        if self.gc_was:
            gc.enable()
        os.chdir(self.old_cwd)
        shutil.rmtree(self.root, ignore_errors=True)

    @property
    def hp(self):
        return self.current.hp

    def new_process(self, name="main"):
        """Replace the main process by a fresh one (restart after a crash)."""
        assert not self.threaded
        gc.collect()
        p = Proc(self, name)
        self.main = self.current = p
        return p.hp

    def path(self, name):
        return os.path.join(self.root, name)

    # -------------------------------------------------------- log
    def note(self, *items):
        s = f"{self.current.name} " + " ".join(str(i) for i in items)
        self.h.update(s.encode())
        self.nsteps += 1
        if self.log is not None:
            self.log.append(s)

    def digest(self):
        return self.h.hexdigest()[:16]

    # -------------------------------------------------------- clock
    def now(self, mono=False):
        self.clock += 1e-6
        t = self.clock
        if not mono:
            for at, jump in self.plan.get("clock_jumps", []):
                if t - self.mono0 >= at:
                    t += jump
        return t

    def sleep(self, dt):
        self.sleeps.append((self.current.name, float(dt)))
        self.event("sleep", dt)
        if len(self.sleeps) > 20000:
            raise Violation("no-progress", "more than 20000 sleeps in one run")
        if not self.threaded:
            self.clock += float(dt)
            hook = getattr(self, "on_sleep", None)
            if hook:
                sut, self.in_sut = self.in_sut, False
                try:
                    hook(self)
                finally:
                    self.in_sut = sut
            return
        p = self.current
        p.state, p.wake = "sleeping", self.clock + float(dt)
        self._handoff(p)

    # -------------------------------------------------------- faults
    def event(self, cls, detail, after=False, inner=False, target=""):
        """
        Report an event of the current operation; may raise the planned fault.
        Faults with a "name" count only the events on HDF5 items whose name contains it.
        inner=True: called from inside the HDF5 library or when the caller must
        perform a kill itself: kill actions are returned, errors raised.
        """
        p = self.current
        if p.dead:
            if inner:
                return None
            raise SimKill()
        op = p.op
        if op is None or not self.in_sut:
            return None
        if not after:
            p.counts[cls] += 1
            for x in {f["name"] for f in op.get("faults", ()) if f.get("name")}:
                p.counts[cls + "#" + x] += x in target
        for f in op.get("faults", ()):
            if f["ev"] != cls or (f.get("when", "before") == "after") != after:
                continue
            n = p.counts[cls]
            if f.get("name"):
                if f["name"] not in target:
                    continue
                n = p.counts[cls + "#" + f["name"]]
            if not (f["at"] <= n < f["at"] + f.get("len", 1)):
                continue
            do = f["do"]
            self.fired[f"{cls}:{do}" + (":after" if after else "")] += 1
            self.note("fault", cls, detail, n, do)
            if do.startswith("rand"):
                # another task of the same process draws from (and reseeds) the ambient generators
                perturb(int(do[4:] or 0) + n)
                continue
            p.op_fired.append((cls, n, do))
            if do.startswith("kill"):
                if inner:
                    return do
                self.kill_current()
                raise SimKill()
            raise ERR[do]()
        return None

    def kill_current(self):
        p = self.current
        p.dead = True
        self.disk.kill(p)
        self.note("killed")

    # -------------------------------------------------------- tracing
    def _tracer(self, frame, event, arg):
        if not is_sut(frame.f_code):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            self.n_line += 1
            if self.n_line > self.max_events:
                raise Violation("no-progress", f"more than {self.max_events} source lines in one run "
                                f"(at {os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name})")
            if self.in_sut:
                self.event("line", frame.f_code.co_name)
                self.yield_point("line")
        return self._local

    # -------------------------------------------------------- running SUT code
    def call(self, fn, op=None, label="", trace=None):
        """
        Run fn (SUT code) as one operation with the faults of op.
        Returns an Outcome; kills and exceptions never escape, Violations do.
        """
        p = self.current
        out = Outcome()
        out.label = label
        if p.dead:
            out.killed = True
            return out
        op = op if op is not None else {}
        p.op, p.counts, p.op_fired = op, Counter(), []
        if trace is None:
            trace = self.tracing or any(f["ev"] == "line" for f in op.get("faults", ()))
        self.note("call", label)
        out.t0 = self.nsteps
        prev = self.in_sut
        self.in_sut = True
        try:
            if trace:
                sys.settrace(self._tracer)
            try:
                out.value = fn()
                out.ok = True
            finally:
                if trace:
                    sys.settrace(None)
        except (Violation, HarnessError):
            raise
        except SimKill:
            out.killed = True
        except BaseException as e:
            out.exc = e
        finally:
            self.in_sut = prev
            p.op = None
            out.fired = p.op_fired
        if p.dead:
            out.killed, out.ok = True, False
        if out.exc is not None:
            # drop frames of the failed call so that nothing lingers in tracebacks
            tb = out.exc.__traceback__
            out_tb = "".join(traceback.format_exception(type(out.exc), out.exc, tb)[-6:])
            _strip(out.exc)
            out.exc.sim_tb = out_tb
        self.note("ret", label, repr(out)[:60])
        out.t1 = self.nsteps
        return out

    def must(self, fn, what, op=None, sig="unexpected-failure", **k):
        """Run SUT code that has to succeed."""
        o = self.call(fn, op, what, **k)
        if not o.ok:
            raise Violation(sig, f"{what} failed: {o!r}\n{getattr(o.exc, 'sim_tb', '')}")
        return o.value

    # -------------------------------------------------------- listing order
    def shuffle_listing(self, names):
        """Directory listing order is chosen by the plan (identity when exhausted)."""
        if len(names) < 2 or not self.listing:
            return names
        seed = self.listing[self.listing_i % len(self.listing)]
        self.listing_i += 1
        self.fired["listing-order"] += 1
        key = [hashlib.sha256(f"{seed}:{i}".encode()).digest() for i in range(len(names))]
        return [names[i] for i in sorted(range(len(names)), key=lambda i: key[i])]

    # -------------------------------------------------------- scheduling
    def yield_point(self, why, force=False):
        p = self.current
        if p.dead:
            raise SimKill()
        if not self.threaded or not self.in_sut or p is self.main or self.h5_depth:
            return
        if self.gap is None:
            return
        self.gap -= 1
        if self.gap > 0:
            return
        from h5py._objects import phil

        if phil._is_owned():
            self.gap = 1
            return
        p.state = "ready"
        p.why = why
        self._handoff(p)

    def _handoff(self, p):
        """Give control back to the scheduler and wait to be resumed."""
        saved = (self.in_sut, sys.gettrace())
        sys.settrace(None)
        self.main_sem.release()
        p.sem.acquire()
        if self.aborting:
            p.dead = True
            self.in_sut = True
            raise SimKill()
        self.in_sut = saved[0]
        sys.settrace(saved[1])

    def run_procs(self, fns, names=None):
        """Run each fn(proc) as its own simulated process under the planned schedule."""
        self.threaded, self.aborting = True, False
        procs = [Proc(self, (names or [])[i] if names else f"p{i}") for i in range(len(fns))]
        self.procs = procs

        def body(p):
            p.sem.acquire()
            try:
                if not self.aborting:
                    p.fn(p)
            except SimKill:
                pass
            except BaseException as e:
                p.error = e
            finally:
                sys.settrace(None)
                p.state = "done"
                self.in_sut = False
                self.main_sem.release()

        for p, f in zip(procs, fns):
            p.fn = f
            p.thread = threading.Thread(target=body, args=(p,), daemon=True)
            p.state = "ready"
            p.thread.start()
        last = None
        error = None
        guard = 0
        while True:
            guard += 1
            ready = [p for p in procs if p.state == "ready"]
            if not ready:
                sl = [p for p in procs if p.state == "sleeping"]
                if not sl:
                    break
                t = min(p.wake for p in sl)
                self.clock = max(self.clock, t)
                for p in sl:
                    if p.wake <= self.clock:
                        p.state = "ready"
                ready = [p for p in procs if p.state == "ready"]
            # decide who runs next
            if self.gap is not None and self.gap <= 0:
                gap, choice = self.sched[self.sched_i]
                self.sched_i += 1
                nxt = ready[choice % len(ready)]
                self.gap = self.sched[self.sched_i][0] if self.sched_i < len(self.sched) else None
            else:
                nxt = last if last in ready else ready[0]
            if nxt is not last:
                self.switches += 1
                self.h.update(f"->{nxt.name}".encode())
                if self.log is not None:
                    self.log.append(f"switch to {nxt.name}")
            last = nxt
            activate(nxt.mods)
            self.current = nxt
            self.in_sut = False
            nxt.sem.release()
            self.main_sem.acquire()
            self.in_sut = False
            self.current = self.main
            if nxt.error is not None:
                error = nxt.error
                break
            if guard > 200000:
                error = Violation("no-progress", "scheduler made 200000 steps")
                break
        if error is not None:
            self.aborting = True
            for p in procs:
                while p.state != "done":
                    self.current = p
                    p.sem.release()
                    self.main_sem.acquire()
        for p in procs:
            p.thread.join(30)
        self.threaded = False
        self.current = self.main
        activate(self.main.mods)
        if error is not None:
            raise error
        return procs


def _strip(exc, depth=0):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        exc.__traceback__ = None
        nxt = exc.__cause__ or exc.__context__
        exc = nxt
