"""C07: the per-baseline fast merge writes exactly the union of its inputs."""
import os
import pickle

from sim import fx
from sim.core import Proc, Violation, activate
from . import cont
from .c06 import read_specs, view

ID = "C07"
TECHNIQUE = ("the command-line merge run over simulated directories of per-baseline files with seeded listing orders, batch sizes, damaged or "
             "mismatching inputs, locked files, I/O faults, interruptions and kills at any call or line, rerun until undisturbed; the output "
             "compared with the spectra the inputs were cut from")
QUICK, THOROUGH = 480, 40000
RULE = ("one run = 1-7 files (in 1-2 directories, names that sort in another order than they were written), each with one baseline-pair (or one "
        "night of it, or a few pairs) of 1-3 named spectra with every optional attribute, other names, groups and header attributes; merged by the "
        "command with a seeded batch size, selection of names and extras, into a new or an existing container, up to three times with a fault at a "
        "seeded HDF5 call, disk transfer, file operation or source line, or with an input locked by another process for a while, or as two "
        "merges of different groups at once; then once undisturbed. In a quarter of the runs an input is damaged, lacks a name, or does not "
        "match. After every attempt the output holds, under each name, what it held before or every input exactly once, nothing else changed, and "
        "success means complete. Distinct and non-trivial: (layout, batch size, extras, output state, input defect, faults).")
SHRINK = ["attempts"]
ASSUME = ["header attributes of files that hold several baseline-pairs may be filed under any of them",
          "a failing directory listing is not injected: glob hides it"]

PAIRS = [[[1, 2], [1, 2]], [[2, 3], [2, 3]], [[1, 3], [1, 3]], [[4, 5], [4, 5]], [[11, 12], [11, 12]], [[1, 2], [2, 3]], [[12, 23], [12, 23]],
         [[2, 1], [2, 1]]]
DO = ["EIO", "EIO", "MemoryError", "RuntimeError", "KeyboardInterrupt", "kill"]


def fault(rng):
    ev = rng.choice(["h5r", "h5r", "h5w", "h5w", "h5w", "open", "open", "dr", "dw", "fs", "line"])
    f = dict(ev=ev, at=rng.choice([rng.randint(1, 8), rng.randint(1, 60), rng.randint(1, 400)]), do=rng.choice(DO))
    if ev == "line":
        f.update(at=int(10 ** rng.uniform(0, 4.3)), do=rng.choice(["KeyboardInterrupt", "MemoryError", "kill"]))
    elif ev == "open":
        f.update(at=rng.randint(1, 25))
        if rng.random() < 0.4:
            f["do"] = "EAGAIN"
    elif ev in ("dr", "dw"):
        f["do"] = rng.choice(["EIO", "kill"])
    elif ev == "fs":
        f.update(at=rng.randint(1, 6), do=rng.choice(["EIO", "ENOSPC", "kill"]))
    elif rng.random() < 0.5:
        f["when"] = "after"
    return f


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    n = rng.choice([1, 2, 3, 3, 4, 5, 7])
    pairs = rng.sample(PAIRS, n)
    names = rng.sample(["a", "a_avg", "name2", "time avg", "interleaved"], rng.choice([1, 1, 2, 3]))
    specs = {}
    for t, nm in enumerate(names):
        s = dict(tag=t + 1, blpairs=pairs, times=list(range(rng.choice([1, 2, 3]))), spws=rng.choice([[[0, 3]], [[0, 4]], [[0, 3], [4, 5]]]),
                 pols=rng.choice([[1515], [1515, 1414], [1414, 1515]]), cosmo=rng.random() < 0.1)
        if rng.random() < 0.3:
            s["stats"] = rng.choice([["P_N"], ["P_N", "P_SN"]])
        if rng.random() < 0.25:
            s["cov"] = True
        if rng.random() < 0.25:
            s["wf"] = False
        if rng.random() < 0.2:
            s["beam"] = True
        specs[nm] = s
    how = rng.choice(["one", "one", "one", "one", "nights", "several"])
    files = []     # (name, pairs, nights or None)
    fn = [f"bl.{k}.h5" for k in rng.sample([1, 2, 3, 10, 11, 20, 100, 7, 8, 9, 21, 30, 31, 32, 33, 34], 16)]
    dirs = rng.choice([["in"], ["in"], ["in 1", "in 2"]])
    if how == "several":
        parts, rest = [], list(range(n))
        while rest:
            k = rng.choice([1, 2, 3])
            parts.append((rest[:k], None))
            rest = rest[k:]
    elif how == "nights":
        parts = []
        for k in range(n):
            if rng.random() < 0.6 and n < 6:
                parts += [([k], 0), ([k], 1)]
            else:
                parts.append(([k], None))
        for nm in names:
            specs[nm]["times"] = list(range(rng.choice([2, 3])))
    else:
        parts = [([k], None) for k in range(n)]
    rng.shuffle(parts)
    for j, (q, night) in enumerate(parts):
        files.append(dict(fn=f"{rng.choice(dirs)}/{fn[j]}", pairs=q, night=night))
    p = dict(names=names, specs=specs, files=files, wild="in*/bl.*.h5" if len(dirs) > 1 else "in/bl.*.h5", how=how,
             ask=rng.sample(names, rng.randint(1, len(names))), extras=rng.sample(["e0", "e1"], rng.choice([0, 0, 1, 2])),
             foreign=rng.random() < 0.5, listing=[rng.randint(0, 99) for _ in range(rng.choice([0, 3]))],
             batch=rng.choice([None, None, 1, 2, 3, len(files), len(files) + 3]), progress=rng.random() < 0.3,
             old=rng.choice(["", "", "other", "same", "same"]))
    bad = rng.choice(["noname", "nogroup", "cut", "junk", "empty", "dup", "weighting", "taper", "pols", "noextra", "nofiles", "batch0", "batch-1",
                      "unreadable", "folded"]) if rng.random() < 0.28 else None
    if bad == "noextra":
        p["extras"] = ["e0", "e9"]
    if bad in ("dup", "weighting", "taper", "pols", "folded") and len(files) < 2:
        bad = None
    p["bad"] = bad
    p["at"] = rng.randrange(len(files))
    p["which"] = rng.choice(p["ask"])
    p["attempts"] = [dict(faults=[fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))], proc=rng.random() < 0.5)
                     for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.12 and not bad:
        p["lock"] = dict(at=rng.randrange(len(files)), n=rng.choice([1, 2, 5]))
    elif rng.random() < 0.1 and not bad:
        p["two"] = True
        p["sched"] = [[rng.choice([1, 3, 10, 30]), rng.randrange(2)] for _ in range(rng.choice([10, 40]))]
    return p


def part(spec, f):
    s = dict(spec, blpairs=[spec["blpairs"][k] for k in f["pairs"]])
    if f["night"] is not None:
        t = spec["times"]
        s["times"] = t[:1] if f["night"] == 0 else t[1:]
    return s


def value(plan, f, e):
    k = min(f["pairs"])
    return [1.5, k, 7] if e == "e0" else f"about {plan['specs'][plan['names'][0]]['blpairs'][k]}"


def execute(plan, sim):
    hp = sim.hp
    for d in sorted({f["fn"].split("/")[0] for f in plan["files"]}):
        os.makedirs(sim.path(d))
    groups = ["grp 1", "g2"] if plan.get("two") else ["grp 1"]

    def make():
        import h5py
        for j, f in enumerate(plan["files"]):
            bad = plan["bad"] if j == plan["at"] else None
            if bad == "empty":
                hp.PSpecContainer(f["fn"], mode="rw", keep_open=False).save()
                continue
            c = hp.PSpecContainer(f["fn"], mode="rw", keep_open=False)
            for g in groups:
                for nm in plan["names"]:
                    u = fx.make_uvp(hp, part(dict(plan["specs"][nm], tag=plan["specs"][nm]["tag"] + (50 if g == "g2" else 0)), f))
                    if nm == plan["which"] and bad:
                        if bad == "noname":
                            continue
                        if bad == "dup":
                            u = fx.make_uvp(hp, part(plan["specs"][nm], plan["files"][(j + 1) % len(plan["files"])]))
                        elif bad == "weighting":
                            u.weighting = "other"
                        elif bad == "taper":
                            u.taper = "other"
                        elif bad == "folded":
                            u.folded = not u.folded
                        elif bad == "pols":
                            u.polpair_array = u.polpair_array + 1
                    c.set_pspec("elsewhere" if bad == "nogroup" else g, nm, u)
            if plan["foreign"]:
                c.set_pspec(groups[0], "zz", fx.make_uvp(hp, dict(tag=70 + j)))
                c.set_pspec("other", plan["ask"][0], fx.make_uvp(hp, dict(tag=80 + j)))
            with h5py.File(f["fn"], "a") as h:
                h.require_group("header")
                for e in ("e0", "e1"):
                    h["header"].attrs[e] = value(plan, f, e)
        if plan["old"]:
            c = hp.PSpecContainer("out.x.pspec.h5", mode="rw", keep_open=False)
            c.set_pspec("other", "kept", fx.make_uvp(hp, dict(tag=90)))
            c.set_pspec(groups[0], "kept too", fx.make_uvp(hp, dict(tag=91)))
            if plan["old"] == "same":
                for nm in plan["ask"]:
                    c.set_pspec(groups[0], nm, fx.make_uvp(hp, dict(tag=92)))
    sim.must(make, "inputs")
    victim = sim.path(plan["files"][plan["at"]]["fn"])
    if plan["bad"] == "cut":
        os.truncate(victim, os.path.getsize(victim) * 2 // 3)
    elif plan["bad"] == "junk":
        with open(victim, "wb") as fh:
            fh.write(b"not a container")
    elif plan["bad"] == "unreadable":
        os.remove(victim)
        os.mkdir(victim)
    inputs = {f["fn"]: cont.raw_bytes(sim, f["fn"]) for f in plan["files"] if os.path.isfile(sim.path(f["fn"]))}
    # "cut" may leave a file that is still readable where it matters; it is then only required not to be wrong
    want = {}
    for g in groups:
        for nm in plan["ask"]:
            want[(g, nm)] = view(fx.make_uvp(hp, dict(plan["specs"][nm], tag=plan["specs"][nm]["tag"] + (50 if g == "g2" else 0))))
    whole = {}
    for f in plan["files"]:
        for e in plan["extras"]:
            if e != "e9":
                whole.setdefault(e, []).append(([tuple(map(tuple, PAIR)) for PAIR in
                                                 [plan["specs"][plan["names"][0]]["blpairs"][k] for k in f["pairs"]]], value(plan, f, e)))

    def argv(g):
        a = ["fast-merge-baselines", "--pattern", "in/none.*" if plan["bad"] == "nofiles" else plan["wild"], "--group", g, "--outpath", "out.x",
             "--progress" if plan["progress"] else "--no-progress"]
        for nm in plan["ask"]:
            a += ["--names", nm]
        for e in plan["extras"]:
            a += ["--extras", e]
        b = {"batch0": 0, "batch-1": -1}.get(plan["bad"], plan["batch"])
        if b is not None:
            a += ["--batch-size", str(b)]
        return a

    def merge(p, g, op):
        import typer
        cli = p.mods["hera_pspec.cli"]
        cli.cns.quiet = True

        def f():
            try:
                r = typer.main.get_command(cli.app).main(args=argv(g), standalone_mode=False)
            except SystemExit as e:
                r = e.code
            if r not in (None, 0):
                raise RuntimeError(f"exit status {r}")
        return sim.call(f, op, f"merge {g}")

    def look():
        if not os.path.exists(sim.path("out.x.pspec.h5")):
            return {}
        try:
            got = read_specs(sim, "out.x.pspec.h5")
        except Violation:
            if sim.close_faults or getattr(sim, "writer_killed", False):
                return None
            raise
        if any(isinstance(v, str) for v in got.values()):
            if sim.close_faults or getattr(sim, "writer_killed", False):
                return None
            raise Violation("output-unreadable", str({k: v for k, v in got.items() if isinstance(v, str)})[:600])
        return {k: (cont.content(v), v) for k, v in got.items()}

    state = look()
    have = {g: plan["bad"] is None for g in groups}

    def check(what, ok, wrote, before):
        """wrote: the groups merged by this attempt"""
        now = look()
        sim.evals["attempts"] += 1
        if now is None:
            sim.probes["output left unreadable by a kill"] += 1
            return None
        for fn, b in inputs.items():
            if cont.raw_bytes(sim, fn) != b:
                raise Violation("input-changed", f"{fn} after {what}")
        mine = {(g, nm) for g in wrote for nm in plan["ask"]}
        for k in set(before) | set(now):
            a, b = before.get(k), now.get(k)
            if k in mine:
                continue
            if a is None or b is None or a[0] != b[0]:
                raise Violation("other-spectrum-changed", f"{k} {'appeared' if a is None else 'vanished' if b is None else 'changed'} after {what}")
        for k in sorted(mine):
            a, b = before.get(k), now.get(k)
            same = (a is None) == (b is None) and (a is None or a[0] == b[0])
            if b is not None and plan["bad"] in (None, "cut"):
                try:
                    v = view(b[1])
                except ValueError as e:
                    raise Violation("wrong-merge", f"{k} after {what}: {e}") from None
                if v == want[k]:
                    sim.evals["merged spectra compared"] += 1
                    continue
            if ok:
                raise Violation("wrong-merge", f"{k} after {what}: " + (
                    "missing" if b is None else f"merged although an input is wrong ({plan['bad']})" if plan["bad"]
                    else "not merged" if same else fx.keyed_diff(want[k][0], view(b[1])[0]) or "metadata"))
            if not same:
                raise Violation("failed-merge-changed-output", f"{k} after {what}: neither as before nor merged")
        if ok:
            for e, items in whole.items():
                with open(sim.path(f"out.x.{e}.pkl"), "rb") as fh:
                    d = pickle.load(fh)
                d = {tuple(map(tuple, k)): (v if isinstance(v, str) else [float(x) for x in v]) for k, v in d.items()}
                for blps, v in items:
                    hit = [b for b in blps if b in d]
                    if not hit or d[hit[0]] != v:
                        raise Violation("wrong-extras", f"{e} of {blps}: {d.get(hit[0]) if hit else 'missing'} should be {v}")
                if set(d) - {b for blps, _ in items for b in blps}:
                    raise Violation("wrong-extras", f"{e} has unknown keys {sorted(d)}")
        return now

    def attempt(att, g, what):
        nonlocal state
        if att and att["proc"]:
            sim.new_process("again")
        o = merge(sim.current, g, dict(faults=att["faults"]) if att else None)
        bad_ok = plan["bad"] == "cut"     # truncated somewhere: may still be complete for what is asked
        if not o.ok and not o.fired and plan["bad"] is None and not sim.close_faults and not getattr(sim, "writer_killed", False):
            raise Violation("merge-failed", f"{what}: {o!r}\n{getattr(o.exc, 'sim_tb', '')}")
        if o.ok and plan["bad"] and not bad_ok:
            raise Violation("bad-input-accepted", f"{plan['bad']}: merged without an error")
        if o.killed:
            sim.writer_killed = True
        ok = o.ok
        if o.fired:
            o.value = None
            sim.new_process("next")
        del o
        s = check(what, ok, [g], state)
        if s is None:
            return False
        state = s
        return True

    def run():
        if plan.get("two"):
            res = {}

            def body(g):
                def f(p):
                    o = merge(p, g, None)
                    res[g] = (o.ok, repr(o), o.exc)
                    o.value = None
                return f
            sim.run_procs([body(g) for g in groups])
            for g, (ok, r, e) in res.items():
                if not ok and not isinstance(e, (OSError, BlockingIOError)):
                    raise Violation("merge-failed", f"two at once: {r}")
            nonlocal_state(check("two merges at once", False, groups, state))
            for g, (ok, r, e) in res.items():
                if ok:
                    k = [(g, nm) for nm in plan["ask"] if (g, nm) not in state or view(state[(g, nm)][1]) != want[(g, nm)]]
                    if k:
                        raise Violation("wrong-merge", f"{k} missing or wrong after two merges at once")
        if plan.get("lock"):
            # another process stores into an input for a while
            import h5py
            lock, p = plan["lock"], sim.current
            holder = Proc(sim, "holder")
            fn = plan["files"][lock["at"]]["fn"]

            def as_holder(f):
                cur, sim.current = sim.current, holder
                sim.in_sut, was = True, sim.in_sut
                try:
                    return f()
                finally:
                    sim.in_sut = was
                    sim.current = cur
            held = [as_holder(lambda: h5py.File(fn, "a", libver="latest"))]
            activate(p.mods)
            inputs.pop(fn)
            waits = len(sim.sleeps)

            def on_sleep(s):
                if held and len(sim.sleeps) - waits >= lock["n"]:
                    as_holder(held.pop().close)
            sim.on_sleep = on_sleep
            o = merge(p, groups[0], None)
            sim.on_sleep = None
            if held:
                as_holder(held.pop().close)
            ok, r, e = o.ok, repr(o), o.exc
            o.value = None
            if not ok and not isinstance(e, (OSError, BlockingIOError)):
                raise Violation("merge-failed", f"busy input: {r}")
            del o, e
            nonlocal_state(check("a merge with a busy input", ok, groups, state))
        for att in plan["attempts"]:
            if not attempt(att, groups[0], f"attempt {att['faults']}"):
                return
        for g in groups:
            if not attempt(None, g, f"undisturbed merge of {g}"):
                return

    def nonlocal_state(s):
        nonlocal state
        state = s
    run()
    sim.sigs.add(f"{plan['how']}:{len(plan['files'])}:{plan['batch']}:{len(plan['extras'])}:{plan['old']}:{plan['bad']}:{bool(plan.get('two'))}:"
                 f"{[(f['ev'], f['do']) for a in plan['attempts'] for f in a['faults']]}")
