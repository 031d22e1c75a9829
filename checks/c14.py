"""C14: computations never change their inputs, even when refused or interrupted."""
import numpy as np

from sim import fx, vis
from sim.core import Violation
from . import c12, est, ops, visops

ID = "C14"
TECHNIQUE = "seeded operation sequences with interruption injected at a chosen source line or file operation, deep snapshots of every input before and after"
QUICK, THOROUGH = 5000, 250000
RULE = ("one run = one or two seeded spectrum objects, 1-4 operations asked to return new objects or values (select, "
        "average, fold, bin, bootstrap, combine, subtract, convert, noise and statistics estimates, getters, writing), "
        "each with seeded valid or invalid arguments and, in most runs, an interruption or allocation failure at a seeded "
        "line of the package's code; results may be the input of the next operation. After every operation the objects, "
        "arrays, lists and dictionaries handed in must be exactly as before. One run in fourteen estimates power spectra from "
        "seeded visibilities instead, with the data, weights, errors, beam and arguments as the inputs, and one in twenty runs the whole "
        "pipeline (pspec_run) on data sets given as objects. Distinct and non-trivial: (operation, "
        "optional attributes, interrupted/refused/finished) combinations.")
SHRINK = ["ops"]
ASSUME = ["operations requested in place are covered by C19"]


def gen(rng, i):
    if rng.random() < 0.05:
        p = dict(pipe=c12.gen(rng, i), ops=[])
        if rng.random() < 0.1 and len(p["pipe"]["s"]["tags"]) == 1:
            p["pipe"]["labels"] = ["even"]
        p["cosmo"] = rng.random() < 0.3
        for _ in range(rng.choice([1, 2])):
            o = {}
            if rng.random() < 0.4:
                o["faults"] = [dict(ev="line", at=int(10 ** rng.uniform(0, 4)), do=rng.choice(["KeyboardInterrupt", "MemoryError"]))]
            elif rng.random() < 0.2:
                o["faults"] = [dict(ev=rng.choice(["h5w", "open", "fs"]), at=rng.randint(1, 30), do="EIO")]
            p["ops"].append(o)
        return p
    if rng.random() < 0.09:
        p = visops.gen(rng, i)
        if rng.random() < 0.2:
            for o in p["ops"]:
                o["k"] = "plots"
        return p
    if rng.random() < 0.07:
        s = vis.gen_data(rng, rng.choice([1, 2, 2]))
        s["ants"] = s["ants"][:3]
        p = dict(data=s, ops=[])
        for _ in range(rng.choice([1, 2])):
            o = dict(req=est.gen_request(rng, s))
            if rng.random() < 0.1:
                o["req"]["prs"].append([[0, 77], [0, 1]])
            if rng.random() < 0.7:
                o["faults"] = [dict(ev="line", at=int(10 ** rng.uniform(0, 3.7)), do=rng.choice(["KeyboardInterrupt", "MemoryError"]))]
            p["ops"].append(o)
        return p
    p = dict(obj=ops.gen_obj(rng, 1), reload=rng.random() < 0.3, ops=[])
    if rng.random() < 0.5:
        p["second"] = rng.choice(["copy", "tag", "part", "part", "part", "pols"])
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        o = ops.gen_op(rng, bad=0.15)
        o["chain"] = rng.random() < 0.3
        r = rng.random()
        if r < 0.6:
            at = int(10 ** rng.uniform(0, rng.choice([1.5, 2.5, 3.5])))
            o["faults"] = [dict(ev="line", at=at, do=rng.choice(["KeyboardInterrupt", "MemoryError", "MemoryError", "EIO"]))]
        elif r < 0.7:
            o["faults"] = [dict(ev=rng.choice(["h5w", "open", "fs"]), at=rng.randint(1, 6), do="EIO")]
        p["ops"].append(o)
    return p


def estimate(plan, sim):
    hp, s = sim.hp, plan["data"]
    ds = sim.must(lambda: est.quiet(lambda: vis.make_ds(hp, s)), "make")
    before = est.ds_state(ds)
    for op in plan["ops"]:
        a, k = est.arguments(s, op["req"])
        ref = fx._norm([list(a), k])
        o = sim.call(lambda: est.quiet(lambda: ds.pspec(*a, **k)), dict(faults=op["faults"]) if op.get("faults") else None, "pspec")
        how = "interrupted" if o.fired and not o.ok else "refused" if not o.ok else "finished"
        sim.evals[f"pspec {how}"] += 1
        kw = op["req"]["kw"]
        sim.sigs.add(f"pspec:{how}:{sorted(kw)}:{kw.get('cov_model')}:{'known' in op['req']}")
        d = fx.diff(before, est.ds_state(ds))
        if d:
            raise Violation("input-changed:pspec", f"pspec {how} ({o!r}): {d}")
        if fx._norm([list(a), k]) != ref:
            raise Violation("argument-changed:pspec", f"pspec {how} ({o!r}): arguments are now {str((a, k))[:300]}")
        del o


def pipeline(plan, sim):
    """pspec_run on objects: neither they nor the arguments change."""
    hp, q = sim.hp, plan["pipe"]
    nd = len(q["s"]["tags"])
    o = c12.options(q, hp)
    o.update({k: x for k, x in q["sel"].items() if k != "blpairs"})
    if "blpairs" in q["sel"]:
        o["blpairs"] = [tuple(map(tuple, p)) for p in q["sel"]["blpairs"]]
    if q["dpairs"] is not None and not o.get("interleave_times"):
        o["dset_pairs"] = [tuple(p) for p in q["dpairs"]]
    if q["labels"] and len(q["labels"]) == nd:
        o["dset_labels"] = list(q["labels"])
    if plan["cosmo"] and o["beam"] is not None:
        o["cosmo"] = hp.conversions.Cosmo_Conversions(Om_L=0.7, H0=70.0)
    dsets = [c12.make_data(q["s"], d) for d in range(nd)]
    if q["s"]["std"]:
        o["dsets_std"] = [c12.make_data(q["s"], d, "std") for d in range(nd)]

    def look():
        w = {k: fx._norm(v) for k, v in o.items() if k not in ("beam", "cosmo", "dsets_std")}
        w["beam"] = est.beam_state(o["beam"])
        w["cosmo"] = repr(o.get("cosmo"))
        for n, l in (("dsets", dsets), ("dsets_std", o.get("dsets_std", []))):
            w[f"number of {n}"] = len(l)
            for i, u in enumerate(l):
                w.update({f"{n}[{i}].{k}": v for k, v in vis.uvd_state(u).items()})
        return w
    before = look()
    for op in plan["ops"]:
        r = sim.call(lambda: est.quiet(lambda: hp.pspecdata.pspec_run(dsets, "out.h5", verbose=False, tsleep=0.1, maxiter=1, **o)),
                     dict(faults=op["faults"]) if op.get("faults") else None, "pspec_run")
        how = "interrupted" if r.fired and not r.ok else "refused" if not r.ok else "finished"
        sim.evals[f"pspec_run {how}"] += 1
        sim.sigs.add(f"pspec_run:{how}:{sorted(q['opt'])}:{sorted(q['sel'])}:{nd}:{q['s']['std']}")
        d = fx.diff(before, look())
        if d:
            raise Violation("input-changed:pspec_run", f"pspec_run {how} ({r!r}): {d}")
        del r


def execute(plan, sim):
    if "vdata" in plan:
        return visops.execute(plan, sim)
    if "pipe" in plan:
        return pipeline(plan, sim)
    if "data" in plan:
        return estimate(plan, sim)
    hp = sim.hp
    u = fx.make_uvp(hp, plan["obj"])
    if plan["reload"]:
        u.write_hdf5("in.h5")
        u = hp.UVPSpec()
        u.read_hdf5("in.h5")
    second = None
    if plan.get("second"):
        s = dict(plan["obj"])
        if plan["second"] == "tag":
            s["tag"] = 2
        if plan["second"] == "part":
            s["times"] = [t + len(s["times"]) for t in s["times"]]
        if plan["second"] == "pols":
            s["pols"] = [1313]
        second = fx.make_uvp(hp, s)
    for op in plan["ops"]:
        b = ops.bind(hp, u, op, second)
        objs = [("the object", u)] + [(f"input object {i}", w) for i, w in enumerate(b.others)]
        before = [fx.state(x) for _, x in objs]
        wbefore = [fx._norm(w) for w in b.watch]
        o = sim.call(lambda: b.do(u, False), dict(faults=op["faults"]) if op.get("faults") else None, op["k"])
        how = "interrupted" if o.fired and not o.ok else "refused" if not o.ok else "finished"
        sim.sigs.add(f"{op['k']}:{how}:{[f['ev'] for f in op.get('faults', [])]}:{sorted(k for k in plan['obj'] if plan['obj'][k])}")
        sim.evals[f"{op['k']} {how}"] += 1
        for (n, x), st in zip(objs, before):
            d = fx.diff(st, fx.state(x))
            if d:
                raise Violation(f"input-changed:{op['k']}", f"{ops.describe(op)} {how} ({o!r}, {o.fired}): {n} changed in {d}")
        for i, (w, st) in enumerate(zip(b.watch, wbefore)):
            if fx._norm(w) != st:
                raise Violation(f"argument-changed:{op['k']}", f"{ops.describe(op)} {how} ({o!r}): argument {i} is now {str(w)[:200]}")
        if how == "refused" and b.bad is None:
            sim.evals[f"unexpected {op['k']} {type(o.exc).__name__} {str(o.exc)[:80]}"] += 1
        if how == "finished" and b.bad not in (None, "maybe", "noop"):
            sim.evals[f"accepted {op['k']} {b.bad}"] += 1
        if op["chain"] and o.ok and b.ret == "uvp" and hasattr(o.value, "blpair_array"):
            u = o.value
            second = None
        del o
