"""C20: analysis can be checkpointed and resumed at any step."""
import os

from sim import fx
from sim.core import Violation
from . import ops

ID = "C20"
TECHNIQUE = "seeded operation sequences with process kills at seeded source lines and I/O calls, resumed from the last checkpoint, against the run that never stopped"
QUICK, THOROUGH = 1500, 60000
RULE = ("one run = a seeded spectrum object and 2-7 operations (select, average, fold, bin, unit conversion, statistics, "
        "covariance, cosmology, noise estimates, partly with arguments that are refused), executed twice: once in one "
        "process, and once with checkpoints (file or container) after seeded steps and the process killed before, during "
        "(at a seeded source line or file operation, also of the checkpoint itself) or after seeded steps, a new process "
        "resuming from the last checkpoint; each step in place or on a copy independently in both executions. After "
        "every step both must agree in every attribute and in what is refused. Distinct and non-trivial: (operation, "
        "mode in both executions, reloaded before, result) combinations.")
SHRINK = ["ops", "crashes"]
ASSUME = ["names and groups without '/'"]


def gen(rng, i):
    p = dict(obj=ops.gen_obj(rng, 1), ops=[], crashes=[])
    n = rng.choice([2, 3, 4, 5, 7])
    for _ in range(n):
        o = ops.gen_op(rng, sorted(ops.CHAIN), bad=0.1)
        o["modes"] = [rng.random() < 0.5, rng.random() < 0.5]
        o["save"] = rng.choice(["", "file", "file", "cont"])
        p["ops"].append(o)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        p["crashes"].append(dict(step=rng.randrange(n), where=rng.choice(["op", "op", "save", "after"]),
                                 ev=rng.choice(["h5w", "dw", "fs", "open"]), at=int(10 ** rng.uniform(0, 2.3)), torn=rng.random() < 0.3))
    return p


def step(sim, u, op, mode, fault=None):
    b = ops.bind(sim.hp, u, op)
    ip = b.inplace == "only" or (b.inplace and mode)
    o = sim.call(lambda: b.do(u, ip), dict(faults=[fault]) if fault else None, op["k"])
    if not o.ok:
        return o, u
    if ip:
        return o, u
    return o, (o.value if b.ret == "uvp" and hasattr(o.value, "blpair_array") else u)


def execute(plan, sim):
    # the run that never stops
    u = fx.make_uvp(sim.hp, plan["obj"])
    want, res = [fx.state(u)], []   # states of the run that never stops
    for op in plan["ops"]:
        o, u = step(sim, u, op, op["modes"][0])
        res.append("ok" if o.ok else type(o.exc).__name__)
        want.append(fx.state(u))
    del u
    # the run with checkpoints and crashes
    crashes = [dict(c) for c in plan["crashes"]]
    sim.new_process("second")
    u = fx.make_uvp(sim.hp, plan["obj"])
    have = [fx.state(u)] + [None] * len(plan["ops"])   # states this run actually had
    saved = (None, 0)     # (kind, step) of the last checkpoint
    k, reloaded = 0, False
    guard = 0
    while k < len(plan["ops"]):
        guard += 1
        if guard > 60:
            raise Violation("no-progress", "more than 60 steps")
        op = plan["ops"][k]
        c = next((c for c in crashes if c["step"] == k and c["where"] == "op"), None)
        fault = None
        if c:
            crashes.remove(c)
            fault = dict(ev="line", at=c["at"] * 3, do="kill")
        o, u = step(sim, u, op, op["modes"][1], fault)
        if o.killed:
            u, k, saved = resume(sim, plan, have, saved)
            reloaded = True
            continue
        r = "ok" if o.ok else type(o.exc).__name__
        sim.sigs.add(f"{op['k']}:{op['modes']}:{reloaded}:{r}")
        sim.evals["steps"] += 1
        if (r == "ok") != (res[k] == "ok"):
            raise Violation(f"resumed-run-differs:{op['k']}", f"step {k} {ops.describe(op)} {'after a reload ' if reloaded else ''}gave {o!r}, "
                            f"the undisturbed run {res[k]}\n{getattr(o.exc, 'sim_tb', '')}")
        have[k + 1] = fx.state(u)
        d = fx.diff_close(want[k + 1], have[k + 1])   # (real and complex statistics round differently)
        if d:
            raise Violation(f"resumed-run-differs:{op['k']}", f"after step {k} {ops.describe(op)} (modes {op['modes']}, reloaded {reloaded}): {d}")
        k += 1
        if op["save"]:
            c = next((c for c in crashes if c["step"] == k - 1 and c["where"] == "save"), None)
            fault = []
            if c:
                crashes.remove(c)
                do = "kill-torn" if c["ev"] == "dw" and c["torn"] else "kill"
                fault = [dict(ev=c["ev"], at=max(1, c["at"] // 3), do=do)]
            safe = op["save"] == "file"   # a container may be damaged by a crash while it is written
            if not safe:
                fault = []
            o = sim.call(lambda: save(sim, u, op["save"]), dict(faults=fault) if fault else None, "save")
            if o.killed:
                u, k, saved = resume(sim, plan, have, ("file", (saved, k)))
                reloaded = True
                continue
            if not o.ok:
                raise Violation("cannot-checkpoint", f"after step {k - 1} {ops.describe(op)}: {o!r}\n{getattr(o.exc, 'sim_tb', '')}")
            d = fx.diff(have[k], fx.state(u))
            if d:
                raise Violation("checkpoint-changed-object", f"{d}")
            saved = (op["save"], k)
        c = next((c for c in crashes if c["step"] == k - 1 and c["where"] == "after"), None)
        if c:
            crashes.remove(c)
            u, k, saved = resume(sim, plan, have, saved)
            reloaded = True


def save(sim, u, kind):
    if kind == "file":
        u.write_hdf5("ck.h5", overwrite=True)
    else:
        sim.hp.PSpecContainer("ck_c.h5", mode="rw", keep_open=False).set_pspec("g", "n", u, overwrite=True)


def load(sim, kind):
    if kind == "file":
        v = sim.hp.UVPSpec()
        v.read_hdf5("ck.h5")
        return v
    return sim.hp.PSpecContainer("ck_c.h5", mode="r", keep_open=False).get_pspec("g", "n")


def resume(sim, plan, have, saved):
    """A new process continues from the last checkpoint."""
    sim.new_process("resumed")
    sim.evals["restarts"] += 1
    kind, k = saved
    if isinstance(k, tuple):         # killed while writing the checkpoint of step k[1]
        (okind, ok), new = k
        v = None
        if os.path.exists("ck.h5"):
            v = sim.must(lambda: load(sim, "file"), "reload", sig="checkpoint-lost")
            st = fx.state(v)
            if not fx.diff(have[new], st):
                return v, new, ("file", new)
            for j in range(new - 1, -1, -1):
                if have[j] is not None and not fx.diff(have[j], st):
                    break
            else:
                raise Violation("checkpoint-lost", f"the file holds neither the old nor the new checkpoint: {fx.diff(have[new], st)}")
        if okind is None:
            return fx.make_uvp(sim.hp, plan["obj"]), 0, (None, 0)
        kind, k = okind, ok
    if kind is None:
        return fx.make_uvp(sim.hp, plan["obj"]), 0, (None, 0)
    v = sim.must(lambda: load(sim, kind), "reload", sig="checkpoint-lost")
    d = fx.diff(have[k], fx.state(v))
    if d:
        raise Violation("reloaded-differs", f"checkpoint of step {k - 1} {ops.describe(plan['ops'][k - 1])} read back with other {d}")
    return v, k, (kind, k)
