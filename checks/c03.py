"""C03: read-only and refused accesses never alter stored data."""
import gc

from sim.core import Violation
from . import cont

ID = "C03"
TECHNIQUE = "seeded call histories with faults on containers of every mode, byte comparison and independent read-back"
QUICK, THOROUGH = 1000, 50000
RULE = ("one run = a container with seeded content, then 1-3 container objects (read-only or read-write, kept open or "
        "opened per operation) each called 1-5 times (fetches, partial fetches, listings, saves, refused stores, stores "
        "and merges attempted on read-only containers) with a fault at a seeded HDF5 call, disk read or open; the bytes "
        "are compared after every read-only object, all contents after every read-write object. Distinct and "
        "non-trivial: (mode, keep_open, call, result, fault kind and position) combinations reached.")
SHRINK = ["init", "objs"]
ASSUME = ["names contain no '/' (HDF5 path separator)"]
ERRS = ["EIO", "EAGAIN", "MemoryError", "KeyboardInterrupt", "RuntimeError"]


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    tags = cont.Tags()
    init = [cont.gen_op(rng, tags, write=1, lists=0) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]))]
    for o in init:
        o["ow"] = True
    used = sorted({(o["g"], o["n"]) for o in init})
    objs = []
    for _ in range(rng.choice([1, 2, 3])):
        mode = rng.choice(["r", "r", "rw"])
        ops = []
        for _ in range(rng.randint(1, 5)):
            op = cont.gen_op(rng, tags, write=0.35, lists=0.15)
            if op["op"] in ("set", "setlist"):
                if mode == "rw":
                    if not used:
                        continue
                    # refused: the (last) name exists
                    g, n = rng.choice(used)
                    op = dict(op="set", g=g, n=n, spec=cont.gen_small(rng, tags()), ow=False)
                else:
                    if used and op["op"] == "set" and rng.random() < 0.6:
                        op["g"], op["n"] = rng.choice(used)
            elif used and op["op"] == "get" and rng.random() < 0.7:
                op["g"], op["n"] = rng.choice(used)
                if rng.random() < 0.4:
                    op["kw"] = rng.choice([dict(just_meta=True), dict(spws=[0]), dict(polpairs=[1515]),
                                           dict(bls=[[1, 2]]), dict(only_pairs_in_bls=True), dict(spws=[7]),
                                           dict(polpairs=[1414]), dict(bogus=1)])
            if mode == "r" and rng.random() < 0.1:
                op = dict(op="merge", dset=rng.random() < 0.5)
            if rng.random() < 0.45:
                ev = rng.choice(["h5r", "h5r", "h5w", "dr", "open"])
                op["faults"] = [dict(ev=ev, at=rng.choice([1, rng.randint(1, 6), rng.randint(1, 60)]),
                                     len=rng.choice([1, 1, 2]), do=rng.choice(ERRS),
                                     when=rng.choice(["before", "after"]) if ev[:2] == "h5" else "before")]
            ops.append(op)
        objs.append(dict(mode=mode, keep=rng.random() < 0.5, ops=ops, other_version=rng.random() < 0.2,
                         maxiter=rng.choice([0, 1, 3])))
    return dict(init=init, objs=objs, exists=bool(init) or rng.random() < 0.8, foreign=rng.random() < 0.15)


def execute(plan, sim):
    specs = cont.Specs(None)
    fn = "c.h5"
    model = {}
    if plan["exists"]:
        c = sim.must(lambda: sim.hp.PSpecContainer(fn, mode="rw", keep_open=False), "construct")
        sim.must(lambda: c.save(), "create")
        for op in plan["init"]:
            o, r = cont.do_op(sim, specs, c, op)
            if r != ("ok",):
                raise Violation("store-failed", repr(o))
            model, _ = cont.apply_model(specs, model, op)
        del c
    if plan["foreign"] and plan["exists"]:
        # content of another origin in the same file
        def add():
            import h5py

            with h5py.File(fn, "a") as f:
                f.attrs["note"] = "kept"
                f["header"].attrs["other"] = 3
        sim.must(add, "foreign content")
    for ob in plan["objs"]:
        sim.new_process()
        if ob["other_version"]:
            # the accessing process runs another release of the package
            sim.hp.container.__version__ = "0.0.1"
        before = cont.raw_bytes(sim, fn)
        mode = ob["mode"]
        o = sim.call(lambda: sim.hp.PSpecContainer(fn, mode=mode, keep_open=ob["keep"], tsleep=0.1,
                                                   maxiter=ob["maxiter"]), None, f"construct {mode}")
        if not o.ok:
            if before is None and mode == "r":
                if cont.raw_bytes(sim, fn) is not None:
                    raise Violation("read-only-created-file", "")
                continue
            raise Violation("construct-failed", repr(o))
        c = o.value
        o.value = None
        for op in ob["ops"]:
            store = op["op"] in ("set", "setlist")
            if op["op"] == "merge":
                o = sim.call(lambda: sim.hp.container.combine_psc_spectra(
                    c, dset_split_str="_x_" if op["dset"] else None, verbose=False, overwrite=True), op, "merge")
                r = cont.classify(o)
            elif op.get("kw") is not None:
                kw = {k: ([tuple(x) if isinstance(x, list) else x for x in v] if isinstance(v, list) else v)
                      for k, v in op["kw"].items()}
                o = sim.call(lambda: c.get_pspec(op["g"], op["n"], **kw), op, f"get {kw}")
                r = cont.classify(o)
            else:
                o, r = cont.do_op(sim, specs, c, op)
            o.value = None
            sim.evals["calls"] += 1
            f = o.fired[0] if o.fired else ("", "", "")
            sim.sigs.add(f"{mode}:{ob['keep']}:{op['op']}:{op.get('kw')}:{r[0]}:{f}")
            if store and o.ok:
                raise Violation("store-on-read-only" if mode == "r" else "overwrote-without-permission",
                                f"{op['op']} {op.get('g')}/{op.get('n', op.get('ns'))} reported success")
            if not store and op["op"] != "merge" and op.get("kw") is None and o.ok and before is not None:
                want = cont.apply_model(specs, model, op)[1]
                if r != want:
                    raise Violation("wrong-result", f"{op['op']}: {r} expected {want}")
            if mode == "r":
                now = cont.raw_bytes(sim, fn)
                if now != before:
                    raise Violation("read-only-changed-file", f"after {op['op']}"
                                    + (" (created)" if before is None else ""))
        sim.call(c._close if hasattr(c, "_close") else c.data.close, None, "close")
        del c
        gc.collect()
        if mode == "r":
            if cont.raw_bytes(sim, fn) != before:
                raise Violation("read-only-changed-file", "after closing")
        elif before is not None:
            got, err = cont.read_all(sim, fn)
            if err:
                raise Violation("unreadable-after-rw-access", err)
            if got != model:
                raise Violation("changed-by-refused-access", f"{sorted(map(str, set(got.items()) ^ set(model.items())))[:4]}")
            if plan["foreign"] and plan["exists"]:
                import h5py
                import io

                with h5py.File(io.BytesIO(cont.raw_bytes(sim, fn)), "r") as h:
                    if h.attrs.get("note") != "kept" or h["header"].attrs.get("other") != 3:
                        raise Violation("discarded-by-opening", "attributes of the file were lost")
