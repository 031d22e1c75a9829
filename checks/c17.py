"""C17: the bootstrap pipeline is repeatable and preserves its inputs."""
import os
import random

import numpy as np

from sim import fx
from sim.core import Violation, perturb
from . import cont, est

ID = "C17"
TECHNIQUE = ("bootstrap runs over simulated containers with seeded content, listing order, ambient generators, concurrent jobs, faults, "
             "kills and reruns; outputs compared bit by bit with the bootstrap of each source alone in a fresh process")
QUICK, THOROUGH = 240, 25000
RULE = ("one run = a container of 1-3 groups with 1-3 source spectra each and 1-4 executions of bootstrap_run (path, container object "
        "with seeded listing order, or the command-line script; one job or several concurrent ones on disjoint spectra) with a seed and "
        "seeded options, over different ambient random states, in the same or in new processes, some stopped by an I/O error, an "
        "exception at a seeded source line or a kill and then run again. After each execution every source is unchanged, and every "
        "requested source has exactly the outputs that bootstrapping it alone gives; outputs of failed executions are complete or absent "
        "or still the former ones. Distinct and non-trivial: (contents, options, kind of executions, faults).")
SHRINK = ["execs"]
ASSUME = ["no source spectrum has the name of an output of another one"]

BLS = [[1, 2], [2, 3], [3, 4], [4, 5], [5, 6], [1, 3], [2, 4], [11, 12]]


def gen_opt(rng, specs):
    o = dict(robust_std=True, normal_std=True, Nsamples=rng.choice([2, 3, 5]), rs=rng.choice([0, 0, 1, 7, 2**31 - 1, rng.randrange(10**6)]))
    if rng.random() < 0.4:
        o["time_avg"] = True
    if rng.random() < 0.3:
        o["robust_std"] = False
    if rng.random() < 0.3:
        o["normal_std"] = False
    if rng.random() < 0.3:
        o["cintervals"] = [16.0, 84.0] if rng.random() < 0.6 else [2.5]
    if rng.random() < 0.5:
        o["keep_samples"] = True
    if rng.random() < 0.2:
        o["bl_error_tol"] = 20.0
    if rng.random() < 0.12:
        o.update(keep_samples=True, Nsamples=11)   # names with two digits
    return o


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    grps = rng.sample(["g1", "even odd", "G", "zz", "0"], rng.choice([1, 1, 2]))
    src = []
    n = 0
    for g in grps:
        for nm in rng.sample(["p", "p_x_q", "avg", "P_avg", "s_bs1", "10", "9"], rng.choice([1, 1, 2])):
            n += 1
            s = fx.gen_spec(rng, n)
            npair = rng.choice([1, 2, 3, 5])
            prs = []
            while len(prs) < npair:
                a = rng.choice(BLS)
                q = [a, a if rng.random() < 0.5 else rng.choice(BLS)]
                if q not in prs:
                    prs.append(q)
            s["blpairs"] = prs
            s["pols"] = rng.choice([[1515], [1515, 1414]])
            src.append([g, nm, s])
    rng.shuffle(src)
    opt = gen_opt(rng, src)
    vs = []
    nv = rng.choice([1, 2, 2, 3])
    for v in range(nv):
        x = dict(how=rng.choice(["path", "path", "object", "object", "script"]), shuf=rng.randrange(10**6), before=rng.randrange(10**6),
                 proc=rng.random() < 0.4, overwrite=True if v else rng.random() < 0.5)
        if rng.random() < 0.4:
            x["spectra"] = sorted(rng.sample(range(len(src)), rng.randint(1, len(src))), key=lambda _: rng.random())
            if rng.random() < 0.2:
                x["ghost"] = True
        q = rng.random()
        if q < 0.25:
            f = dict(ev="line", at=int(10 ** rng.uniform(0, 4)), do=rng.choice(["KeyboardInterrupt", "MemoryError", "kill"]))
            x["faults"] = [f]
        elif q < 0.5:
            f = dict(ev=rng.choice(["h5r", "h5r", "h5w", "h5w", "open", "dr", "dw"]), at=rng.choice([rng.randint(1, 8), rng.randint(1, 150), rng.randint(1, 600)]),
                     do=rng.choice(["EIO", "EIO", "kill", "MemoryError", "KeyboardInterrupt"]))
            if f["ev"] in ("dr", "dw"):
                f["do"] = rng.choice(["EIO", "kill"])
            x["faults"] = [f]
        elif q < 0.65 and len(src) > 1:
            x["jobs"] = rng.choice([2, 2, 3])
        if rng.random() < 0.15 and v < nv - 1:
            x["old"] = gen_opt(rng, src)
        vs.append(x)
    return dict(src=src, opt=opt, execs=vs, hist=rng.choice(["", "again", "by hand\nand more"]),
                sched=[[rng.choice([1, 2, 3, 5, 9, 20]), rng.randrange(3)] for _ in range(rng.choice([10, 40, 80]))])


def kwargs(o, plan):
    k = {a: b for a, b in o.items() if a != "rs"}
    k["seed"] = o["rs"]
    k["verbose"] = False
    if plan["hist"]:
        k["add_to_history"] = plan["hist"]
    return k


def argv(o, plan, spectra, overwrite):
    a = ["out.h5", "--Nsamples", o["Nsamples"], "--seed", o["rs"]]
    if o.get("time_avg"):
        a += ["--time_avg", "True"]
    if o.get("robust_std", True):
        a += ["--robust_std", "True"]
    if not o.get("normal_std", True):
        a += ["--normal_std", ""]
    if o.get("cintervals"):
        a += ["--cintervals"] + [str(c) for c in o["cintervals"]]
    if o.get("keep_samples"):
        a += ["--keep_samples"]
    if "bl_error_tol" in o:
        a += ["--bl_error_tol", o["bl_error_tol"]]
    if overwrite:
        a += ["--overwrite"]
    if plan["hist"]:
        a += ["--add_to_history", plan["hist"]]
    if spectra is not None:
        a += ["--spectra"] + list(spectra)
    return a


def sig(u):
    return fx.digest(fx.state(u))


class Ref:
    """What bootstrapping one source alone gives, in a process of its own."""

    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        self.memo = {}

    def get(self, q, o):
        key = (q, repr(sorted(o.items())))
        if key not in self.memo:
            g, nm, s = self.plan["src"][q]
            hp = self.sim.hp
            fn = f"ref{len(self.memo)}.h5"

            def f():
                c = hp.PSpecContainer(fn, mode="rw", keep_open=False)
                c.set_pspec("s", nm, fx.make_uvp(hp, s))
                u = c.get_pspec("s", nm)
                k = kwargs(o, self.plan)
                keep = k.pop("keep_samples", False)
                avg, boots, _ = est.quiet(lambda: hp.grouping.bootstrap_resampled_error(u, **k))
                c.set_pspec("g", "avg", avg)
                res = {f"{nm}_avg": c.get_pspec("g", "avg")}
                if keep:
                    for i, b in enumerate(boots):
                        c.set_pspec("g", f"b{i}", b)
                        res[f"{nm}_bs{i}"] = c.get_pspec("g", f"b{i}")
                # the average is the one of the averaging routine
                w = hp.utils.get_blvec_reds(u, bl_error_tol=o.get("bl_error_tol", 1.0))[0]
                a = hp.grouping.average_spectra(u, blpair_groups=w, time_avg=o.get("time_avg", False), inplace=False)
                return res, a, boots
            res, a, boots = self.sim.must(f, f"bootstrap of {nm} alone")
            A = res[f"{nm}_avg"]
            d = fx.keyed_diff(*[{k: {f: v for f, v in row.items() if f in ("data", "nsamp", "integ")} for k, row in fx.keyed(x)[0].items()} for x in (a, A)], close=True)
            if d:
                raise Violation("average-changed", f"the average of {nm} is not the average of its spectra: {d}")
            if o.get("normal_std", True):
                for k in A.get_all_keys():
                    x = np.array([b.get_data(k) for b in boots])
                    w = np.std(x.real, axis=0) + 1j * np.std(x.imag, axis=0)
                    if not np.allclose(A.get_stats("bs_std", k), w, rtol=1e-9, atol=1e-12 * np.max(np.abs(x))):
                        raise Violation("wrong-error-bar", f"bs_std of {nm} {k} is not the scatter of the resamples")
            self.memo[key] = {n: sig(u) for n, u in res.items()}
        return self.memo[key]


def look(sim, fn, killed):
    hp = sim.hp

    def f():
        c = hp.PSpecContainer(fn, mode="r", keep_open=False)
        t = c.tree(return_str=False)
        return {(g, n): sig(c.get_pspec(g, n)) for g in t for n in t[g]}
    o = sim.call(f, None, "look")
    if not o.ok:
        if (killed or sim.close_faults) and isinstance(o.exc, (OSError, RuntimeError, KeyError)):
            # a writer was killed, or the disk failed while HDF5 closed the file: it is refused (see C04, C05)
            return None
        raise Violation("container-unreadable", f"{o!r}\n{getattr(o.exc, 'sim_tb', '')}")
    return o.value


def execute(plan, sim):
    fn = "out.h5"
    src = plan["src"]
    hp = sim.hp
    c = sim.must(lambda: hp.PSpecContainer(fn, mode="rw", keep_open=False), "container")
    for g, nm, s in src:
        sim.must(lambda: c.set_pspec(g, nm, fx.make_uvp(hp, s)), "store a source")
    ref = Ref(plan, sim)
    origin = look(sim, fn, False)
    killed = False
    prev = dict(origin)
    for x in plan["execs"]:
        if x["proc"]:
            sim.new_process("again")
        o = x.get("old") or plan["opt"]
        ask = x.get("spectra")
        want = list(range(len(src))) if ask is None else ask
        exp = {}
        for q in want:
            for n, d in ref.get(q, o).items():
                exp[(src[q][0], n)] = d
        exists = any(k in prev for k in exp)
        perturb(x["before"])
        parts = [None if ask is None else list(want)]
        if x.get("jobs"):
            parts = [want[a::x["jobs"]] for a in range(x["jobs"])]
            parts = [p for p in parts if p]
        if ask is None and not x.get("jobs"):
            names = [None]
        else:
            names = [[f"{src[q][0]}/{src[q][1]}" for q in p] for p in parts]
        if x.get("ghost") and names[0] is not None:
            names[0].insert(0, "nowhere/nothing")
        conc = len(names) > 1

        def job(p, nms):
            k = kwargs(o, plan)
            if x["overwrite"]:
                k["overwrite"] = True
            if nms is not None:
                k["spectra"] = list(nms)
            if conc:
                return est.quiet(lambda: p.hp.grouping.bootstrap_run(fn, maxiter=2000, **k))
            if x["how"] == "path":
                return est.quiet(lambda: p.hp.grouping.bootstrap_run(fn, **k))
            r = random.Random(x["shuf"])

            class Listing(p.hp.PSpecContainer):
                """A container that lists its contents in another order."""

                def groups(self, *a, **kk):
                    v = list(super().groups(*a, **kk))
                    r.shuffle(v)
                    return v

                def spectra(self, *a, **kk):
                    v = list(super().spectra(*a, **kk))
                    r.shuffle(v)
                    return v
            return est.quiet(lambda: p.hp.grouping.bootstrap_run(Listing(fn, mode="rw", keep_open=x["shuf"] % 2 == 1), **k))

        op = dict(faults=x.get("faults", []))
        if conc:
            outs = [None] * len(names)

            def body(a):
                def run(p):
                    outs[a] = sim.call(lambda: job(p, names[a]), None, f"bootstrap_run {a}")
                return run
            sim.run_procs([body(a) for a in range(len(names))])
            sim.evals["concurrent jobs"] += 1
        elif x["how"] == "script":
            outs = [cont.run_script(sim, "bootstrap_run.py", argv(o, plan, names[0], x["overwrite"]), op)]
        else:
            outs = [sim.call(lambda: job(sim.current, names[0]), op, "bootstrap_run")]
        fired = any(q.fired for q in outs)
        complete = all(q.ok for q in outs)
        if not complete and not fired and (killed or sim.close_faults) and all(q.ok or isinstance(q.exc, (OSError, RuntimeError, KeyError)) for q in outs):
            sim.evals["container left unreadable by a kill"] += 1
            break
        if not complete and not fired and not (exists and not x["overwrite"]):
            bad = [q for q in outs if not q.ok][0]
            raise Violation("bootstrap-failed", f"{x}: {bad!r}\n{getattr(bad.exc, 'sim_tb', '')}")
        if complete and exists and not x["overwrite"]:
            raise Violation("overwritten", f"outputs existed and overwrite=False: {x}")
        killed |= any(q.killed for q in outs)
        if fired or killed:
            for q in outs:
                q.value = None
            sim.new_process("after failure")
        now = look(sim, fn, killed)
        if now is None:
            sim.evals["container left unreadable by a kill"] += 1
            break
        sim.evals["complete" if complete else "failed"] += 1
        for k, d in origin.items():
            if now.get(k) != d:
                raise Violation("source-changed", f"{k} {'changed' if k in now else 'vanished'} in {x}")
        for k, d in exp.items():
            if complete or (k in now and now[k] != prev.get(k)):
                if k not in now:
                    raise Violation("output-missing", f"{k} after {x}; there are {sorted(now)}")
                if now[k] != d:
                    raise Violation("wrong-output", f"{k} differs from the bootstrap of its source alone, after {x}")
                sim.evals["outputs compared"] += 1
            elif k in prev and k not in now and not fired:
                raise Violation("output-lost", f"{k} after {x}")
        for k in now:
            if k not in prev and k not in exp:
                raise Violation("unexpected-spectrum", f"{k} appeared in {x}; expected {sorted(exp)}")
        for k in prev:
            if k not in exp and now.get(k) != prev[k]:
                raise Violation("other-spectrum-changed", f"{k} in {x}")
        prev = now
    sim.sigs.add(f"{len(src)}:{sorted(plan['opt'].items(), key=str)}:"
                 f"{[(v['how'], v.get('jobs'), [(f['ev'], f['do']) for f in v.get('faults', [])], v['overwrite'], bool(v.get('spectra'))) for v in plan['execs']]}")
