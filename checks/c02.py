"""C02: a failed or interrupted store leaves the container as it was."""
from sim import fx
from sim.core import Violation
from . import cont

ID = "C02"
TECHNIQUE = "seeded fault at each HDF5 call of a store, independent read-back against a dictionary model, retry"
QUICK, THOROUGH = 1300, 60000
RULE = ("one run = a container built by a seeded history, then 1-3 stores (new, overwriting, list, invalid object) each "
        "with one failure injected before or after one of its HDF5 calls (or at opening), followed by an independent "
        "read-back of every name and a fault-free retry. Distinct and non-trivial: distinct (kind of store, call that "
        "failed, position, before/after, error, keep_open) combinations that really fired.")
SHRINK = ["init", "ops"]
ASSUME = ["names contain no '/' (HDF5 path separator)",
          "one failure per store; a second failure during the clean-up of the first is not covered",
          "failures of the disk below HDF5 while it flushes its own caches at close are not covered here (see C05)"]
ERRS = ["EIO", "ENOSPC", "MemoryError", "KeyboardInterrupt", "RuntimeError"]


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    tags = cont.Tags()
    init = [cont.gen_op(rng, tags, write=1, lists=0) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    ops = []
    used = [(o["g"], o["n"]) for o in init]
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = cont.gen_op(rng, tags, write=1, lists=0.2)
        if used and op["op"] == "set" and rng.random() < 0.6:
            op["g"], op["n"] = rng.choice(used)
            op["ow"] = rng.random() < 0.85
        r = rng.random()
        if r < 0.15:
            op["bad"] = rng.choice(["notuvp", "noattr", "badtype", "unwritable", "unwritable", "inconsistent"])
            if op["op"] == "setlist":
                op["badi"] = rng.randrange(len(op["ns"]))
        elif r < 0.95:
            n = rng.choice([rng.randint(1, 10), rng.randint(1, 75), rng.randint(60, 110)])
            if op["op"] == "setlist":
                n = rng.randint(1, 80 * len(op["ns"]))
            ev = "h5w" if rng.random() < 0.8 else "h5r"
            if rng.random() < 0.05:
                op["faults"] = [dict(ev="open", at=1, len=rng.choice([1, 3]), do="EIO")]
            else:
                op["faults"] = [dict(ev=ev, at=n, do=rng.choice(ERRS), when=rng.choice(["before", "after"]))]
        ops.append(op)
        if op["op"] == "set":
            used.append((op["g"], op["n"]))
    return dict(init=init, ops=ops, keep_open=rng.random() < 0.35, same=rng.random() < 0.5)


def spoil(hp, u, kind):
    import numpy as np

    if kind == "notuvp":
        return {"data": 1}
    if kind == "noattr":
        del u.data_array
    elif kind == "badtype":
        u.Ntimes = "three"
    elif kind == "inconsistent":
        u.freq_array = list(u.freq_array)
    elif kind == "unwritable":
        u.stats_array = {"P_N": {s: np.array([[[object()]]], dtype=object) for s in u.spw_array}}
    return u


def compare(sim, specs, fn, model, what):
    got, err = cont.read_all(sim, fn)
    if err:
        raise Violation(f"container-unreadable-after-{what}", err)
    if got != model:
        lost = [k for k in model if k not in got]
        extra = [k for k in got if k not in model]
        bad = [k for k in model if k in got and got[k] != model[k]]
        kind = "lost" if lost else "changed" if bad else "debris"
        raise Violation(f"{kind}-after-{what}",
                        f"lost {lost}, unexpected {extra}, changed {[(k, got[k] if 'error' in got[k] else '') for k in bad]}")


def execute(plan, sim):
    specs = cont.Specs(None)
    fn = "c.h5"
    hp = sim.hp
    keep = plan["keep_open"]

    def mk():
        return sim.must(lambda: sim.hp.PSpecContainer(fn, mode="rw", keep_open=keep, tsleep=0.1, maxiter=1), "construct")

    c = mk()
    model = {}
    for op in plan["init"]:
        op = dict(op, ow=True, faults=[])
        o, r = cont.do_op(sim, specs, c, op)
        if r != ("ok",):
            raise Violation("store-failed", f"{o!r} {getattr(o.exc, 'sim_tb', '')}")
        model, _ = cont.apply_model(specs, model, op)
    for op in plan["ops"]:
        op = dict(op)
        bad = op.get("bad")
        items = cont.model_items(specs, op)
        if op["op"] == "setlist":
            us = [specs.make(hp, s)[0] for s in op["specs"]]
            if bad:
                us[op["badi"]] = spoil(hp, us[op["badi"]], bad)
            args = (op["g"], list(op["ns"]), us)
        else:
            u = specs.make(hp, op["spec"])[0]
            args = (op["g"], op["n"], spoil(hp, u, bad) if bad else u)
        o = sim.call(lambda: c.set_pspec(*args, overwrite=op["ow"]), op, f"store {args[0]}/{args[1]}")
        # the states reachable by storing the first k elements
        states = [model]
        exists = False
        for it in items:
            nxt, res = cont.apply_model(specs, states[-1], it)
            if res != ("ok",):
                exists = True
                break
            states.append(nxt)
        if o.ok:
            if bad:
                raise Violation("invalid-object-stored", f"{bad} was stored without an error")
            if exists:
                raise Violation("overwrote-without-permission", f"{op['g']}")
            model = states[-1]
            if keep:
                sim.must(lambda: c.save(), "save")
            o2 = None
        else:
            what = "failed-store"
            if o.fired:
                cls, n, do = o.fired[0]
                when = next((f.get("when", "before") for f in op["faults"]), "")
                sim.sigs.add(f"{op['op']}{'+' if exists else ''}:{op['ow']}:{cls}:{n}:{do}:{when}:{keep}")
                what = "interrupted-store" if do == "KeyboardInterrupt" else "failed-store"
            elif bad:
                sim.sigs.add(f"{op['op']}:{op['ow']}:{bad}:{keep}")
                what = "refused-store"
            elif not exists:
                raise Violation("store-failed", f"without any fault: {o!r} {getattr(o.exc, 'sim_tb', '')}")
            sim.evals["failed stores"] += 1
            if keep:
                # what the process that suffered the failure sees
                _, t = cont.do_op(sim, specs, c, dict(op="tree"))
                want = [cont.apply_model(specs, st, dict(op="tree"))[1] for st in states]
                if t not in want:
                    raise Violation(f"listing-after-{what}", f"{t} is none of {want}")
                sim.call(c._close if hasattr(c, "_close") else c.data.close, None, "close")
            if not plan["same"] or keep:
                del c
                hp = sim.new_process()
            if len(items) > 1:
                got = {} if cont.raw_bytes(sim, fn) is None else cont.read_all(sim, fn)[0]
                if got in states:
                    model = got
                else:
                    compare(sim, specs, fn, states[0], what)
            elif cont.raw_bytes(sim, fn) is not None or model:
                compare(sim, specs, fn, model, what)
            # the same store again, without faults
            if not plan["same"] or keep:
                c = mk()
            retry = dict(op, faults=[], ow=True if len(items) > 1 else op["ow"])
            o, r = cont.do_op(sim, specs, c, retry)
            new, want = model, ("ok",)
            for it in cont.model_items(specs, retry):
                new, want = cont.apply_model(specs, new, it)
                if want != ("ok",):
                    break
            if r != want:
                raise Violation(f"retry-after-{what}", f"gave {r}, expected {want}: {o!r}")
            model = new
        if keep:
            sim.call(lambda: c.save(), None, "save")
    if keep:
        sim.call(c._close if hasattr(c, "_close") else c.data.close, None, "close")
    del c
    if model:
        compare(sim, specs, fn, model, "history")


def simplify(plan):
    import copy

    for k, op in enumerate(plan["ops"]):
        if op["op"] == "set":
            for key in ("cosmo", "stats", "cov", "beam"):
                if op["spec"].get(key):
                    p = copy.deepcopy(plan)
                    p["ops"][k]["spec"].pop(key)
                    if key == "cosmo":
                        p["ops"][k]["spec"]["cosmo"] = False
                    yield p
