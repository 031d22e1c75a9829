"""C05: a killed writer never causes silently wrong spectra."""
from sim import fx
from sim.core import Violation
from . import cont

ID = "C05"
TECHNIQUE = "process kill at a seeded disk write (clean or torn), read-back of the surviving bytes by a fresh process"
QUICK, THOROUGH = 1800, 80000
RULE = ("one run = a container or spectrum file built by a seeded history, then a writer process (stores, overwrites, "
        "lists, merges inside a container, file writes; kept open or opened per operation) killed before or in the "
        "middle of a seeded disk write, before or after a seeded HDF5 call, or at a seeded source line; then a fresh "
        "process lists and reads everything, and a fresh writer tries to go on. Distinct and non-trivial: (operation, "
        "kind of event, position of the kill, what the reader saw) combinations in which the kill happened.")
SHRINK = ["init", "ops"]
ASSUME = ["a killed process's completed writes survive in order; unflushed HDF5 caches are lost (process crash, not "
          "power failure)", "HDF5's file-consistency flag of version-3 superblocks is emulated as the library does on "
          "its default driver (set when a writer opens, cleared when it closes)"]


def kill_fault(rng):
    r = rng.random()
    if r < 0.55:
        return dict(ev="dw", at=rng.choice([rng.randint(1, 8), rng.randint(1, 40), rng.randint(1, 160)]),
                    do=rng.choice(["kill", "kill-torn"]))
    if r < 0.85:
        return dict(ev="h5w", at=rng.choice([rng.randint(1, 10), rng.randint(1, 80)]), do="kill",
                    when=rng.choice(["before", "after"]))
    if r < 0.92:
        return dict(ev="fs", at=rng.randint(1, 3), do="kill")
    return dict(ev="line", at=rng.choice([rng.randint(1, 80), rng.randint(1, 900)]), do="kill")


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    tags = cont.Tags()
    kind = rng.choice(["container", "container", "container", "file", "file", "merge"])
    p = dict(kind=kind, keep=rng.random() < 0.4)
    if kind == "file":
        p["old"] = cont.gen_small(rng, tags()) if rng.random() < 0.7 else None
        p["new"] = cont.gen_small(rng, tags())
        p["ow"] = rng.random() < 0.9
        if rng.random() < 0.3:
            p["new"]["nchan"] = 4000    # metadata that does not fit into one disk block
        if rng.random() < 0.3:
            p["new"]["spws"] = [[0, 24]]
        p["ops"] = [dict(faults=[kill_fault(rng)])]
        p["init"] = []
        return p
    if kind == "merge":
        fam = rng.choice(["dsA_x_dsB", "dsA_x_dsA"])
        nsh = rng.randint(2, 3)
        base = cont.gen_small(rng, 1)
        init = []
        for k in range(nsh):
            s = dict(base, blpairs=[[[1, 2 + k], [1, 2 + k]]])
            init.append(dict(op="set", g="g1", n=f"{fam}_{k}", spec=s))
        init += [cont.gen_op(rng, cont.Tags(), write=1, lists=0) for _ in range(rng.choice([0, 1]))]
        p["init"] = [o for o in init if o["n"] not in ("dsA_x_dsB", "dsA_x_dsB_1") or o in init[:nsh]]
        p["ops"] = [dict(op="merge", faults=[kill_fault(rng)])]
        p["keep"] = True
        f = p["ops"][0]["faults"][0]
        f["at"] = rng.choice([f["at"], rng.randint(1, 400)])
        return p
    p["init"] = [cont.gen_op(rng, tags, write=1, lists=0) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    used = [(o["g"], o["n"]) for o in p["init"]]
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = cont.gen_op(rng, tags, write=0.9, lists=0.2)
        if used and op["op"] == "set" and rng.random() < 0.6:
            op["g"], op["n"] = rng.choice(used)
            op["ow"] = True
        ops.append(op)
    ops[-1]["faults"] = [kill_fault(rng)]
    p["ops"] = ops
    p["again"] = rng.random() < 0.5
    return p


def read_file(sim, fn):
    """What a fresh process reads from a spectrum file: digest, None (absent) or 'error'."""
    if cont.raw_bytes(sim, fn) is None:
        return None
    hp = sim.new_process("reader")

    def f():
        u = hp.UVPSpec()
        u.read_hdf5(fn)
        return u

    o = sim.call(f, None, "read file")
    if not o.ok:
        return "error"
    try:
        return cont.content(o.value)
    except Exception:
        return "error"


def execute(plan, sim):
    specs = cont.Specs(None)
    if plan["kind"] == "file":
        return run_file(plan, sim, specs)
    fn = "c.h5"
    model = {}
    c = sim.must(lambda: sim.hp.PSpecContainer(fn, mode="rw", keep_open=False), "construct")
    for op in plan["init"]:
        op = dict(op, ow=True)
        o, r = cont.do_op(sim, specs, c, op)
        if r != ("ok",):
            raise Violation("store-failed", repr(o))
        model, _ = cont.apply_model(specs, model, op)
    del c
    hp = sim.new_process("writer")
    o = sim.call(lambda: hp.PSpecContainer(fn, mode="rw", keep_open=plan["keep"]), None, "construct")
    if not o.ok:
        raise Violation("construct-failed", repr(o))
    c = o.value
    o.value = None
    states = [model]
    killed = None
    for op in plan["ops"]:
        if op["op"] == "merge":
            res = merged(sim, specs, plan["init"], model)
            o = sim.call(lambda: hp.container.combine_psc_spectra(c, verbose=False, overwrite=True), op, "merge")
            if not o.killed and not o.ok:
                raise Violation("merge-failed", f"{o!r} {getattr(o.exc, 'sim_tb', '')}")
            new = res
            # while merging, a reader may find the union under its name, the shards, or both
            allowed = ("merge", model, new)
        else:
            o, r = cont.do_op(sim, specs, c, op)
            cur = states[-1]
            seq = [cur]
            for it in cont.model_items(specs, op):
                if it["op"] == "set":
                    nxt, res = cont.apply_model(specs, seq[-1], it)
                    if res != ("ok",):
                        break
                    seq.append(nxt)
            allowed = ("seq", seq)
            if not o.killed:
                new = seq[-1]
        o.value = None
        if o.killed:
            killed = op
            break
        states.append(new)
        allowed = ("seq", [new])
    if killed is None:
        sim.call(c._close if hasattr(c, "_close") else c.data.close, None, "close")
    del c
    sim.main.dead = True
    sim.new_process("reader")
    if plan["keep"] and killed is not None and allowed[0] == "seq":
        # stores of a session that was never closed may or may not have reached the disk
        allowed = ("seq", states + allowed[1])
    if cont.raw_bytes(sim, fn) is None:
        if model:
            raise Violation("file-lost", "the container file is gone")
        return
    got, err = cont.read_all(sim, fn)
    saw = "loud" if err else "ok"
    if err is None:
        if any(v.startswith("error") for v in got.values()):
            saw = "partly loud"
        if killed is None:
            want = states[-1]
            if got != want:
                raise Violation("completed-session-lost", f"{diff(got, want)}")
        elif allowed[0] == "seq":
            check_seq(got, allowed[1])
        else:
            check_merge(got, allowed[1], allowed[2])
    elif killed is None:
        raise Violation("completed-session-unreadable", err)
    if killed is not None:
        f = killed["faults"][0]
        sim.sigs.add(f"{killed['op']}:{f['ev']}:{f['at']}:{f['do']}:{f.get('when')}:{plan['keep']}:{saw}")
        sim.probes[f"reader after kill: {saw}"] += 1
        if plan.get("again") and allowed[0] == "seq":
            # a new writer goes on (or is refused loudly); nothing gets silently wrong either
            before = got if err is None else None
            hp = sim.new_process("writer2")
            spec = dict(plan["ops"][-1].get("spec") or plan["ops"][-1].get("specs", [{}])[0] or {}, tag=999)
            op = dict(op="set", g="g1", n="zz", spec=spec, ow=True)
            o = sim.call(lambda: hp.PSpecContainer(fn, mode="rw", keep_open=False), None, "construct")
            o2, r = cont.do_op(sim, specs, o.value, op) if o.ok else (o, ("fail",))
            o.value = None
            if r == ("ok",):
                d = specs.dig[repr(sorted(spec.items()))]
                got2, err2 = cont.read_all(sim, fn)
                # HDF5 may have left the file damaged in a way only seen now, but then it is loud
                z = "error" if err2 else got2.get(("g1", "zz"))
                if z != d and not (z or "").startswith("error"):
                    raise Violation("store-after-crash-lost", f"{z}")
                if err2:
                    sim.probes["damage seen after the next store"] += 1
                    return
                got2 = {k: v for k, v in got2.items() if k != ("g1", "zz")}
                if before is not None:
                    check_seq(got2, allowed[1])
            elif err is not None:
                sim.probes["writer refused after kill"] += 1


def diff(got, want):
    return (f"missing {[k for k in want if k not in got]}, extra {[k for k in got if k not in want]}, "
            f"changed {[k for k in want if k in got and got[k] != want[k]]}")


def check_seq(got, states):
    """Every name must be as in one of the states, or fail loudly when read."""
    keys = set(got)
    for s in states:
        keys |= set(s)
    for k in sorted(keys, key=str):
        vals = {s.get(k) for s in states}
        g = got.get(k)
        if g is not None and g.startswith("error"):
            continue
        if k[1] is None:
            continue   # an empty group says nothing
        if g not in vals:
            kind = "spectrum-silently-missing" if g is None else "silently-wrong-spectrum"
            raise Violation(kind, f"{k}: {g}, allowed {vals}")


def merged(sim, specs, init, model):
    """Contents after an undisturbed merge of the same container (computed on a copy)."""
    fn = "copy.h5"
    c = sim.must(lambda: sim.hp.PSpecContainer(fn, mode="rw", keep_open=True), "construct copy")
    for op in init:
        cont.do_op(sim, specs, c, dict(op, ow=True, faults=[]))
    sim.must(lambda: sim.hp.container.combine_psc_spectra(c, verbose=False, overwrite=True), "merge copy")
    sim.call(c.data.close, None, "close")
    got, err = cont.read_all(sim, fn)
    if err:
        raise Violation("merge-failed", err)
    return got


def check_merge(got, old, new):
    keys = set(got) | set(old) | set(new)
    for k in sorted(keys, key=str):
        g = got.get(k)
        if g is not None and (g.startswith("error") or g == "empty group"):
            continue
        vals = {old.get(k), new.get(k)}
        if g not in vals:
            raise Violation("silently-wrong-spectrum", f"{k}: {g}, allowed {vals}")
    gone = [k for k in old if k not in new and k not in got]
    if gone and any(k not in got for k in new if k not in old):
        raise Violation("spectrum-silently-missing", f"{gone} removed, union not there")
    for k in old:
        if k in new and k not in got:
            raise Violation("spectrum-silently-missing", f"{k}")


def run_file(plan, sim, specs):
    fn = "s.h5"
    hp = sim.hp
    old = None
    if plan["old"] is not None:
        u, old = specs.make(hp, plan["old"])
        sim.must(lambda: u.write_hdf5(fn), "first write")
    u, new = specs.make(hp, plan["new"])
    op = plan["ops"][0]
    o = sim.call(lambda: u.write_hdf5(fn, overwrite=plan["ow"]), op, "write")
    if o.ok:
        want = {new}
    elif o.killed:
        want = {old, new}
    else:
        if plan["ow"] or old is None:
            raise Violation("write-failed", f"{o!r}")
        want = {old}
    del u
    sim.new_process("reader")
    got = read_file(sim, fn)
    saw = "loud" if got == "error" else "old" if got == old else "new" if got == new else "other"
    if o.killed:
        f = op["faults"][0]
        sim.sigs.add(f"file:{f['ev']}:{f['at']}:{f['do']}:{saw}:{old is None}")
        sim.probes[f"file after kill: {saw}"] += 1
    if got == "error":
        if not o.killed:
            raise Violation("completed-write-unreadable", "")
        return
    if got not in want:
        if got is None:
            raise Violation("file-silently-missing", "the previous file is gone")
        raise Violation("silently-wrong-file", f"contents are neither the old nor the new ones")
