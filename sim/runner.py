"""Seeded search over plans, minimisation, replay, evidence."""
import argparse
import copy
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
_t = time.time          # captured before the seams are installed
_pc = time.perf_counter

BASE_ENV = dict(
    PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg",
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
    NUMEXPR_NUM_THREADS="1", JAX_PLATFORMS="cpu", PYTHONWARNINGS="ignore",
)


def scratch_base():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    raise RuntimeError("no scratch directory")


_SCRATCH = None


def scratch():
    """Private scratch directory of this check run, removed at exit by its creator."""
    global _SCRATCH
    if _SCRATCH is None:
        import tempfile

        _SCRATCH = tempfile.mkdtemp(prefix="verif-sim-", dir=scratch_base())
        creator = os.getpid()
        import atexit
        import shutil

        def rm(path=_SCRATCH):
            if os.getpid() == creator:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(rm)
        os.environ.setdefault("MPLCONFIGDIR", os.path.join(_SCRATCH, "mpl"))
    return _SCRATCH


def _memo_units():
    """astropy recomputes unit compositions on every cosmology; remember them (speed only)."""
    from astropy.units.core import UnitBase

    real, memo = UnitBase.to_system, {}

    def to_system(self, system):
        k = (repr(self), system.__name__)
        if k not in memo:
            memo[k] = real(self, system)
        return list(memo[k])

    UnitBase.to_system = to_system


def boot():
    from . import core, seams

    scratch()
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    sys.dont_write_bytecode = True
    sys.path.insert(0, core.SRC)
    sys.path.insert(1, VERIF)
    import warnings

    warnings.simplefilter("ignore")
    from astropy.utils import iers

    iers.conf.auto_download = False
    iers.conf.auto_max_age = None
    import logging

    logging.disable(logging.CRITICAL)
    import h5py  # noqa: F401
    import numpy  # noqa: F401
    import pyuvdata  # noqa: F401
    import scipy  # noqa: F401

    seams.install()
    _memo_units()
    import hera_pspec

    if not os.path.abspath(hera_pspec.__file__).startswith(core.PKG):
        raise RuntimeError(f"wrong hera_pspec: {hera_pspec.__file__}")
    import gc

    gc.collect()
    gc.freeze()
    sys.stdout.flush()


class HangError(BaseException):
    pass


def _alarm(sig, frm):
    raise HangError()


def run_plan(check, plan, record=False, limit=150):
    """Execute one plan.  Returns a result dict; never raises for SUT misbehaviour."""
    from . import core

    root = os.path.join(scratch(), f"run{os.getpid()}")
    res = dict(viol=None, harness=None)
    sim = core.Sim(plan, root, record=record)
    so, se = sys.stdout, sys.stderr
    devnull = _devnull()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t = _pc()
    try:
        with sim:
            if not os.environ.get("VERIF_VERBOSE"):
                sys.stdout = devnull
                sys.stderr = devnull
            try:
                check.execute(plan, sim)
            except core.Violation as v:
                res["viol"] = dict(sig=v.sig, msg=v.msg)
            except core.HarnessError as e:
                res["harness"] = "HarnessError: %s" % e
            except HangError:
                res["viol"] = dict(sig="no-progress", msg=f"run did not finish within {limit} s")
            except (SystemExit, Exception) as e:
                tb = traceback.extract_tb(e.__traceback__)
                text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
                in_sut = [f for f in tb if f.filename.startswith(core.PKG)]
                if in_sut or isinstance(e, (TypeError, AttributeError, KeyError, IndexError, ValueError,
                                            AssertionError, ArithmeticError)):
                    where = in_sut[-1].name if in_sut else "result"
                    res["viol"] = dict(sig=f"unexpected-exception:{type(e).__name__}:{where}", msg=text)
                else:
                    res["harness"] = text
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = so, se
    res.update(wall=_pc() - t, digest=sim.digest(), fired=dict(sim.fired), probes=dict(sim.probes),
               sim_time=sim.clock - sim.mono0, steps=sim.nsteps, switches=sim.switches,
               sigs=list(sim.sigs), opens=sim.opens, conflicts=sim.lock_conflicts, log=sim.log,
               evals=dict(sim.evals))
    return res


_DN = None


def _devnull():
    global _DN
    if _DN is None:
        _DN = open(os.devnull, "w")
    return _DN


# ------------------------------------------------------------------ plans
def make_plan(check, master, i):
    rng = random.Random(f"{check.ID}:{master}:{i}")
    plan = check.gen(rng, i)
    plan["seed"] = [master, i]
    return json.loads(json.dumps(plan))


# ------------------------------------------------------------------ search
def _worker(check, master, jobs, w, idx, deadline, q, stop_at):
    cov = bool(os.environ.get("VERIF_LINECOV"))
    if cov:
        from . import linecov
        linecov.start()
    try:
        for k, i in enumerate(idx):
            if _t() > deadline:
                break
            if i > stop_at.value:
                break
            plan = make_plan(check, master, i)
            r = run_plan(check, plan)
            r["log"] = None
            q.put((i, r))
    except BaseException:
        q.put((-1, traceback.format_exc()))
    if cov:
        linecov.stop(check.ID)
    q.put(None)
    q.close()
    q.join_thread()
    os._exit(0)


def search(check, master, runs, wall, jobs, known=(), stop_on=1, keep=None):
    """Run plans 0..runs-1; returns aggregate."""
    ctx = mp.get_context("fork")
    deadline = _t() + wall
    stop_at = ctx.Value("q", 1 << 60)
    qs, ps = [], []
    for w in range(jobs):
        q = ctx.Queue()
        p = ctx.Process(target=_worker, args=(check, master, jobs, w, range(w, runs, jobs), deadline, q, stop_at))
        p.start()
        qs.append(q)
        ps.append(p)
    agg = dict(n=0, viols=[], known=Counter(), harness=[], fired=Counter(), probes=Counter(),
               sim_time=0.0, digests=set(), sigs=set(), steps=0, switches=0, opens=0, conflicts=0,
               evals=Counter(), wall_runs=0.0, per_run={}, max_wall=0.0)
    alive = set(range(jobs))
    import queue as _q

    while alive:
        for w in sorted(alive):
            try:
                m = qs[w].get(timeout=0.05)
            except _q.Empty:
                if not ps[w].is_alive():
                    try:
                        m = qs[w].get(timeout=1.0)
                    except _q.Empty:
                        agg["harness"].append((None, f"worker {w} died with exit code {ps[w].exitcode}"))
                        alive.discard(w)
                        continue
                else:
                    continue
            if m is None:
                alive.discard(w)
                continue
            i, r = m
            if i == -1:
                agg["harness"].append((None, r))
                continue
            agg["n"] += 1
            agg["fired"].update(r["fired"])
            agg["probes"].update(r["probes"])
            agg["evals"].update(r["evals"])
            for k in ("sim_time", "steps", "switches", "opens", "conflicts"):
                agg[k] += r[k]
            agg["wall_runs"] += r["wall"]
            agg["max_wall"] = max(agg["max_wall"], r["wall"])
            agg["digests"].add(r["digest"])
            agg["sigs"].update(r["sigs"])
            if keep is not None:
                agg["per_run"][i] = (r["digest"], r["viol"] and r["viol"]["sig"])
            if r["harness"]:
                agg["harness"].append((i, r["harness"]))
            if r["viol"]:
                if r["viol"]["sig"] in known:
                    agg["known"][r["viol"]["sig"]] += 1
                else:
                    agg["viols"].append((i, r["viol"]))
                    if stop_on:   # finish every earlier run, start no later one
                        stop_at.value = min(stop_at.value, i)
    for p in ps:
        p.join(20)
        if p.is_alive():
            p.kill()
    return agg


# ------------------------------------------------------------------ minimise
def _isolated(check, plan, limit=60):
    """Run one plan in a forked child so that a broken state cannot leak."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)

    def body():
        r = run_plan(check, plan, limit=limit)
        r["log"] = None
        b.send(r)
        b.close()
        os._exit(0)

    p = ctx.Process(target=body)
    p.start()
    b.close()
    try:
        r = a.recv() if a.poll(limit + 10) else None
    except EOFError:
        r = None
    p.join(5)
    if p.is_alive():
        p.kill()
    return r


def shrink(check, plan, sig, budget=60):
    t0 = _t()
    tried = 0

    def bad(p):
        nonlocal tried
        if _t() - t0 > budget:
            return False
        tried += 1
        r = _isolated(check, p)
        return bool(r and r["viol"] and r["viol"]["sig"] == sig)

    best = copy.deepcopy(plan)
    lists = getattr(check, "SHRINK", ["ops", "sched", "listing", "clock_jumps"])

    def paths(p):
        out = []
        for name in lists:
            if isinstance(p.get(name), list):
                out.append((name,))
        for name in ("procs",):
            for k, v in enumerate(p.get(name, [])):
                if isinstance(v, list):
                    out.append((name, k))
        return out

    def get(p, path):
        for x in path:
            p = p[x]
        return p

    def put(p, path, val):
        p = copy.deepcopy(p)
        q = p
        for x in path[:-1]:
            q = q[x]
        q[path[-1]] = val
        return p

    changed = True
    while changed and _t() - t0 < budget:
        changed = False
        for path in paths(best):
            n = 2
            while True:
                cur = get(best, path)
                if len(cur) == 0:
                    break
                size = max(1, -(-len(cur) // n))
                done = True
                for s in range(0, len(cur), size):
                    cand = put(best, path, cur[:s] + cur[s + size:])
                    if bad(cand):
                        best = cand
                        changed = True
                        done = False
                        break
                if done:
                    if size == 1:
                        break
                    n = min(len(cur), n * 2)
        # drop faults one at a time
        def fault_paths(p):
            r = []
            for path in paths(p):
                for k, o in enumerate(get(p, path)):
                    if isinstance(o, dict):
                        for j in range(len(o.get("faults", []))):
                            r.append((path, k, j))
            return r

        for path, k, j in reversed(fault_paths(best)):
            cur = copy.deepcopy(get(best, path))
            if k < len(cur) and j < len(cur[k].get("faults", [])):
                del cur[k]["faults"][j]
                cand = put(best, path, cur)
                if bad(cand):
                    best = cand
                    changed = True
        # check-specific simplifications
        for cand in getattr(check, "simplify", lambda p: [])(best):
            if bad(cand):
                best = cand
                changed = True
                break
    return best, tried


def load_known(pid):
    known, fixed = {}, []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                if line.startswith("fixed:"):
                    if f"property={pid} " in line:
                        fixed.append(line)
                    continue
                d = json.loads(line)
                if d["property"] == pid:
                    known[d["sig"]] = d
    return known, fixed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run plan number N and print its log")
    ap.add_argument("--digests", action="store_true", help="print per-run digests (determinism test)")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--peer", action="store_true", help=argparse.SUPPRESS)
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args()
    env_ok = all(os.environ.get(k) == v for k, v in BASE_ENV.items() if k != "PYTHONHASHSEED")
    if not env_ok or "PYTHONHASHSEED" not in os.environ:
        env = dict(os.environ)
        hs = env.get("PYTHONHASHSEED")
        env.update(BASE_ENV)
        if hs:
            env["PYTHONHASHSEED"] = hs
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    t0 = _t()
    os.makedirs(EVID, exist_ok=True)
    boot()
    check = importlib.import_module(f"checks.{a.id.lower()}")
    if hasattr(check, "setup"):
        check.setup()
    if a.peer:
        check.serve()
        sys.exit(0)
    if a.replay:
        with open(a.replay) as fh:
            rep = json.load(fh)
        r = run_plan(check, rep["plan"], record=True)
        if os.environ.get("VERIF_LOG"):
            print("\n".join(r["log"]))
        if r["harness"]:
            print(r["harness"])
            sys.exit(2)
        if r["viol"]:
            print(f"replayed: {r['viol']['sig']}: {r['viol']['msg']}")
            print(f"digest {r['digest']} (recorded {rep.get('digest')})")
            print(f"VIOLATION property={a.id} replay={a.replay}")
            sys.exit(1)
        print("replay: no violation")
        sys.exit(0)
    if a.one is not None:
        plan = make_plan(check, a.seed, a.one)
        print(json.dumps(plan))
        r = run_plan(check, plan, record=True)
        print("\n".join(r.pop("log")))
        print({k: v for k, v in r.items() if k != "sigs"})
        sys.exit(1 if r["viol"] else 2 if r["harness"] else 0)
    quick = a.tier == "quick"
    runs = a.runs or (check.QUICK if quick else check.THOROUGH)
    wall = a.wall or (240 if quick else 3000)
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    print(f"{a.id}: seed={a.seed} tier={a.tier} runs={runs} jobs={jobs}", flush=True)
    known, fixed = load_known(a.id)
    agg = search(check, a.seed, runs, wall, jobs, known=known, stop_on=0 if (a.all or a.digests) else 1,
                 keep=True if a.digests else None)
    if a.digests:
        for i in sorted(agg["per_run"]):
            print("D", i, *agg["per_run"][i])
    rc = 0
    if agg["harness"]:
        for i, h in agg["harness"][:3]:
            print(f"HARNESS ERROR (run {i}):\n{h}")
        rc = 2
    if a.all and agg["viols"]:
        cnt = Counter(v["sig"] for _, v in agg["viols"])
        for s, n in cnt.most_common():
            first = min(i for i, v in agg["viols"] if v["sig"] == s)
            msg = [v for i, v in agg["viols"] if i == first][0]["msg"]
            print(f"  {n:5d} x {s} first run {first}: {msg[:1500]}")
            print("        runs", *sorted(i for i, v in agg["viols"] if v["sig"] == s)[:12])
    replay = None
    if agg["viols"]:
        i, v = min(agg["viols"], key=lambda x: x[0])
        plan = make_plan(check, a.seed, i)
        print(f"violation in run {i}: {v['sig']}: {v['msg']}", flush=True)
        small, tried = (plan, 0) if a.no_shrink else shrink(check, plan, v["sig"])
        r = _isolated(check, small)
        if not (r and r["viol"]):
            small, r = plan, _isolated(check, plan)
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        replay = os.path.join(EVID, "replays", f"{a.id}-{a.seed}-{i}.json")
        with open(replay, "w") as fh:
            json.dump(dict(property=a.id, seed=[a.seed, i], sig=v["sig"],
                           message=(r and r["viol"] or v)["msg"], digest=r and r["digest"],
                           minimised_from=plan, shrink_runs=tried, plan=small), fh, indent=1)
        conf = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), a.id, "--replay", replay],
                              capture_output=True, text=True)
        print(f"minimised with {tried} runs; replay in a fresh process: "
              + ("reproduced" if conf.returncode == 1 else f"NOT reproduced (exit {conf.returncode})"))
        print((r and r["viol"] or v)["msg"])
        print(f"VIOLATION property={a.id} replay={replay}")
        rc = 1
    for sig, n in sorted(agg["known"].items()):
        print(f"KNOWN-FINDING: property={a.id} {known[sig]['what']} [{n} runs]")
    if rc == 0 and agg["n"] < max(1, runs // 10):
        print(f"only {agg['n']} of {runs} runs finished within {wall} s")
        rc = 2
    wall_s = _t() - t0
    samples = []
    for i in range(min(2, runs)):
        pl = make_plan(check, a.seed, i)
        s = json.dumps(pl)
        samples.append(pl if len(s) < 6000 else s[:6000] + "...")
    ev = dict(
        property=a.id, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed,
        level=getattr(check, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=agg["n"],
            distinct_nontrivial=len(agg["sigs"]) if agg["sigs"] else len(agg["digests"]),
            rule=check.RULE,
            samples=samples,
            runs_per_hour=round(agg["n"] / max(wall_s, 1e-9) * 3600),
            seeds_per_hour=round(agg["n"] / max(wall_s, 1e-9) * 3600),
            simulated_seconds=round(agg["sim_time"], 3),
            distinct_executions=len(agg["digests"]),
            context_switches=agg["switches"],
            file_opens=agg["opens"], lock_conflicts=agg["conflicts"],
            faults_fired=dict(sorted(agg["fired"].items())),
            probes=dict(sorted(agg["probes"].items())),
            comparisons=dict(sorted(agg["evals"].items())),
            known_findings={k: n for k, n in agg["known"].items()},
            real_components=getattr(check, "REAL", "hera_pspec source, h5py and HDF5 library, numpy, pyuvdata"),
            stubbed_components=getattr(check, "STUB", "disk (fault-injecting file object over a scratch file), "
                               "file locks and HDF5 consistency flag, clock and sleep, directory listing order, "
                               "process scheduler"),
            workers=jobs, longest_run_s=round(agg["max_wall"], 2),
        ),
        assumptions=getattr(check, "ASSUME", []),
        wall_s=round(wall_s, 2), violations=len(agg["viols"]),
    )
    if agg["n"] == 0:
        ev["coverage"]["distinct_nontrivial"] = 0
    with open(os.path.join(EVID, f"{a.id}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{a.id}: {agg['n']} runs, {len(agg['digests'])} distinct executions, "
          f"faults {sum(agg['fired'].values())}, {wall_s:.1f} s, "
          + ("ok" if rc == 0 else f"exit {rc}"), flush=True)
    sys.stdout.flush()
    sys.exit(rc)
