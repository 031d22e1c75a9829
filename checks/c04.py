"""C04: containers release the file and retry opening within bounds."""
from sim.core import Proc, Violation, activate
from . import cont

ID = "C04"
TECHNIQUE = "simulated lock table and clock; seeded holders of the file, open failures and faults at every call"
QUICK, THOROUGH = 1500, 60000
RULE = ("one run = 2-5 calls on open-per-operation containers with seeded retry settings; each call meets a file held by "
        "another simulated process for a seeded number of waits, a burst of failing opens, or a fault at a seeded HDF5 "
        "call, disk read or disk write. Checked after each call: no handle held, another process opens the file at once, "
        "number and length of waits, success exactly when the file became available in time, bytes unchanged on failure "
        "to open. Distinct and non-trivial: (call, mode, retry limit, blocked attempts, fault, result) combinations.")
SHRINK = ["init", "ops"]
ASSUME = ["clock and sleep are simulated", "HDF5 default file locking"]
ERRS = ["EIO", "ENOSPC", "MemoryError", "KeyboardInterrupt", "RuntimeError"]


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    tags = cont.Tags()
    init = [cont.gen_op(rng, tags, write=1, lists=0) for _ in range(rng.choice([1, 2, 3]))]
    used = [(o["g"], o["n"]) for o in init]
    ops = []
    for _ in range(rng.randint(2, 5)):
        op = cont.gen_op(rng, tags, write=0.5, lists=0.15)
        if op["op"] in ("get", "set") and rng.random() < 0.6:
            op["g"], op["n"] = rng.choice(used)
        op["mode"] = "rw" if op["op"] in ("set", "setlist") and rng.random() < 0.9 or rng.random() < 0.3 else "r"
        op["maxiter"] = rng.choice([0, 1, 1, 2, 3, 5, 20])
        op["tsleep"] = rng.choice([0.1, 0.5, 2.0, 30.0])
        r = rng.random()
        near = max(0, op["maxiter"] + rng.choice([-1, 0, 0, 1, 1, 2]))
        if r < 0.35:
            op["hold"] = near if rng.random() < 0.9 else 10**6
            op["holder"] = rng.choice(["w", "w", "r"])
        if 0.25 < r < 0.55:
            op["faults"] = [dict(ev="open", at=1, len=max(1, near), do=rng.choice(["EIO", "EAGAIN", "ENOENT"]))]
        elif r < 0.95 and r > 0.55:
            ev = rng.choice(["h5r", "h5r", "h5w", "h5w", "h5w", "dr", "dw", "open"])
            op["faults"] = [dict(ev=ev, at=rng.choice([1, rng.randint(1, 8), rng.randint(1, 90)]),
                                 len=rng.choice([1, 1, 1, 30]), do=rng.choice(ERRS),
                                 when=rng.choice(["before", "after"]) if ev[:2] == "h5" else "before")]
            if ev == "open":
                op["faults"][0].update(do=rng.choice(["MemoryError", "KeyboardInterrupt", "RuntimeError"]), at=1)
            if ev == "dw":
                op["faults"][0]["do"] = rng.choice(["EIO", "ENOSPC"])
        if rng.random() < 0.08:
            op["faults"] = [dict(ev="sleep", at=1, do="KeyboardInterrupt")]
            op["hold"], op["holder"] = near, "w"
        ops.append(op)
    return dict(init=init, ops=ops, jump=rng.random() < 0.1,
                clock_jumps=[[rng.uniform(0, 20), rng.choice([-3600, 3600])]] if rng.random() < 0.3 else [])


def execute(plan, sim):
    import h5py

    specs = cont.Specs(None)
    fn = "c.h5"
    c = sim.must(lambda: sim.hp.PSpecContainer(fn, mode="rw", keep_open=False), "construct")
    model = {}
    for op in plan["init"]:
        op = dict(op, ow=True)
        o, r = cont.do_op(sim, specs, c, op)
        if r != ("ok",):
            raise Violation("store-failed", repr(o))
        model, _ = cont.apply_model(specs, model, op)
    del c
    sane = True
    for op in plan["ops"]:
        p = sim.current
        c = sim.must(lambda: sim.hp.PSpecContainer(fn, mode=op["mode"], keep_open=False, tsleep=op["tsleep"],
                                                   maxiter=op["maxiter"]), "construct")
        if sim.disk.open_handles():
            raise Violation("construct-opened-file", str(sim.disk.open_handles()))
        before = cont.raw_bytes(sim, fn)
        # another process holds the file for so many waits
        held = [None]
        block = 0
        holder = Proc(sim, "holder")
        if op.get("hold"):
            sim.current = holder
            sim.in_sut = True
            held[0] = h5py.File(fn, "a" if op["holder"] == "w" else "r", libver="latest")
            sim.in_sut = False
            sim.current = p
            activate(sim.main.mods)
            if op["holder"] == "w" or op["mode"] == "rw":
                block = op["hold"]
        before = cont.raw_bytes(sim, fn)
        waits = len(sim.sleeps)

        def release():
            if held[0] is not None:
                held[0].close()
                held[0] = None

        def on_sleep(s):
            if len(sim.sleeps) - waits >= op.get("hold", 0):
                cur = sim.current
                sim.current = holder
                release()
                sim.current = cur

        sim.on_sleep = on_sleep
        t0 = sim.clock
        cf0 = sim.close_faults
        o, r = cont.do_op(sim, specs, c, op)
        elapsed = sim.clock - t0
        sim.on_sleep = None
        after = cont.raw_bytes(sim, fn) if held[0] is None else None
        mine = sim.disk.open_handles(p)
        sim.current = holder
        release()
        sim.current = p
        o.value = None
        ws = [d for _, d in sim.sleeps[waits:]]
        fl = op.get("faults", [])
        fo = [f for f in fl if f["ev"] == "open"]
        sim.sigs.add(f"{op['op']}:{op['mode']}:{op['maxiter']}:{block}:{fl and (fl[0]['ev'], fl[0]['at'], fl[0]['do'])}:{r[0]}")
        sim.evals["calls"] += 1
        dw = any(cls == "dw" for cls, _, _ in o.fired)
        bad_close = sim.close_faults != cf0
        if mine and not dw and not bad_close:   # (HDF5 itself may fail to close a file whose disk refuses writes)
            raise Violation("handle-left-open", f"{op['op']} ({o!r}): {mine} {getattr(o.exc, 'sim_tb', '')}")
        # waits
        retryable = not fo or fo[0]["do"] in ("EIO", "EAGAIN", "ENOENT")
        if any(abs(d - op["tsleep"]) > 1e-9 for d in ws):
            raise Violation("wrong-wait", f"{ws} with tsleep={op['tsleep']}")
        items = len(cont.model_items(specs, op))
        if items == 1:
            if len(ws) > op["maxiter"]:
                raise Violation("too-many-waits", f"{len(ws)} waits with maxiter={op['maxiter']}")
            if fo and retryable:
                block = max(block, fo[0]["len"])
            interrupted = any(cls != "open" for cls, _, _ in o.fired) or (fo and not retryable)
            if block and not interrupted:
                if block <= op["maxiter"]:
                    if r[0] == "fail" and not (op["op"] in ("set", "setlist") and op["mode"] == "r"):
                        raise Violation("gave-up-too-early", f"available after {block} waits, maxiter={op['maxiter']}: "
                                        f"{o!r} after {len(ws)} waits")
                    if len(ws) != block:
                        raise Violation("wrong-number-of-waits", f"{len(ws)} waits for {block} blocked attempts")
                else:
                    if o.ok:
                        raise Violation("succeeded-on-busy-file", f"blocked {block}, maxiter={op['maxiter']}")
                    if not isinstance(o.exc, OSError):
                        raise Violation("wrong-error-for-busy-file", repr(o))
                    if len(ws) != op["maxiter"]:
                        raise Violation("wrong-number-of-waits", f"{len(ws)} waits, maxiter={op['maxiter']}")
                    if after is not None and after != before:
                        raise Violation("busy-file-changed", "")
            if not block and not fl:
                if ws:
                    raise Violation("wait-without-reason", str(ws))
                if r[0] == "fail" and op["mode"] == "rw":
                    raise Violation("failed-without-reason", repr(o))
        if bad_close:
            sane = False
        if dw:
            sane = False   # the disk refused writes: the contents are no longer specified
            if o.ok:
                raise Violation("write-error-swallowed", f"{op['op']} reported success although the disk refused a write")
        if sum(cls == "h5w" for cls, _, _ in o.fired) > 1:
            sane = False   # undoing the failed operation failed as well
        if o.ok and op["op"] in ("set", "setlist"):
            for it in cont.model_items(specs, op):
                model, _ = cont.apply_model(specs, model, it)
        elif op["op"] == "setlist":
            sane = sane and not any(True for _ in o.fired)
            for it in cont.model_items(specs, op):
                nxt, res = cont.apply_model(specs, model, it)
                if res != ("ok",) or r != ("exists",):
                    break
                model = nxt
        del c
        if not sane:
            break
        # another process can open it at once
        q = sim.new_process("other")
        w = len(sim.sleeps)
        d = sim.call(lambda: q.PSpecContainer(fn, mode="rw", keep_open=False, maxiter=0).groups(), None, "other opens")
        if not d.ok or len(sim.sleeps) != w:
            raise Violation("file-not-released", f"after {op['op']} ({o!r}): {d!r}")
    if sane:
        got, err = cont.read_all(sim, fn)
        if err or got != model:
            if not any(op["op"] == "setlist" for op in plan["ops"]):
                raise Violation("contents-differ", f"{err} {got and set(map(str, got)) ^ set(map(str, model))}")
