"""C22: batch steps on a container can be rerun after a failure."""
import os

import numpy as np

from sim import fx, vis
from sim.core import Violation
from . import c06, cont, est

ID = "C22"
TECHNIQUE = ("the repository's batch scripts run over simulated files, stopped by seeded I/O errors, failed allocations, interruptions and "
             "kills, and run again; contents compared after every attempt with the step applied once to each item")
QUICK, THOROUGH = 110, 25000
RULE = ("one run = one batch step (noise estimates from autocorrelations, pseudo-Stokes visibilities, merging of spectra) called as its "
        "script or through its functions on seeded inputs (groups, names, selections, polarization orders, foreign spectra, outputs of "
        "earlier runs, in place or to another file), attempted up to three times with a fault at a seeded HDF5 call, disk transfer, file "
        "operation or source line, then run without faults. After each attempt every item is as before or as the step applied once makes "
        "it, nothing else changed, and the last run completes the step. Distinct and non-trivial: (step, options, faults).")
SHRINK = ["attempts"]
ASSUME = ["merging: as in C06"]


def fault(rng):
    q = rng.random()
    if q < 0.3:
        return dict(ev="line", at=int(10 ** rng.uniform(0, 4.5)), do=rng.choice(["KeyboardInterrupt", "MemoryError", "kill"]))
    f = dict(ev=rng.choice(["h5r", "h5w", "h5w", "open", "dr", "dw", "fs"]), at=rng.choice([rng.randint(1, 8), rng.randint(1, 100), rng.randint(1, 500)]),
             do=rng.choice(["EIO", "EIO", "kill", "MemoryError", "KeyboardInterrupt"]))
    if f["ev"] in ("dr", "dw"):
        f["do"] = rng.choice(["EIO", "kill"])
    if f["ev"] == "fs":
        f.update(at=rng.randint(1, 4), do=rng.choice(["EIO", "ENOSPC", "kill"]))
    return f


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    k = rng.choice(["noise", "noise", "noise", "pstokes", "pstokes", "merge"])
    att = [dict(faults=[fault(rng)], proc=rng.random() < 0.5) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if k == "pstokes":        # replacing the file is where an interruption matters most
        for a in att:
            if rng.random() < 0.6:
                a["faults"] = [dict(ev="fs", at=rng.randint(1, 3), do=rng.choice(["EIO", "ENOSPC", "kill", "kill"]))]
    p = dict(k=k, attempts=att)
    if k == "merge":
        p["merge"] = c06.gen(rng, i)
        p["merge"]["way"] = rng.choice(["script", "script", "file"])
        p["attempts"] = p["merge"].pop("attempts")
        return p
    if k == "noise":
        s = vis.gen_data(rng, 2, units="Jy", wgts=False, std=False, beam="array")
        s.update(nf=16, nt=rng.choice([2, 3]), pols=["xx", "yy"], ants=[0, 1, 2])
        p["s"] = s
        names = rng.sample([("g1", "a"), ("g1", "a_x_b"), ("g1", "b"), ("g 2", "a"), ("g 2", "c"), ("G", "a")], rng.choice([1, 2, 3, 4]))
        p["specs"] = [dict(at=list(n), pols=rng.choice([["xx"], ["yy"], ["xx", "yy"], ["yy", "xx"]]),
                           spws=rng.choice([[[0, 8]], [[2, 10], [8, 14]], [[4, 16]]]), pairs=rng.choice([[[0, 1]], [[0, 1], [1, 2]], [[0, 1], [0, 2], [1, 2]]]),
                           dp=rng.choice([[0, 1], [0, 0]]), earlier=rng.random() < 0.3) for n in names]
        p["foreign"] = rng.random() < 0.6
        p["groups"] = sorted({n[0] for n in names}) if p["foreign"] or rng.random() < 0.4 else None
        if p["groups"] and rng.random() < 0.3:
            p["groups"] = rng.sample(p["groups"], rng.randint(1, len(p["groups"])))
        p["spectra"] = [list(n) for n in rng.sample(names, rng.randint(1, len(names)))] if rng.random() < 0.5 else None
        p["err"] = rng.choice([None, ["P_N"], ["P_SN"], ["P_N", "P_SN"], ["P_SN", "P_N"]])
        if p["err"] == ["P_SN"]:       # needs P_N
            for x in p["specs"]:
                x["earlier"] = True
        p["autos"] = rng.choice([["xx", "yy"], ["yy", "xx"]])
        p["pI"] = rng.random() < 0.2
        p["cross"] = rng.random() < 0.3
    else:
        s = vis.gen_data(rng, 1, units="Jy", wgts=False, std=False)
        four = rng.random() < 0.5
        s.update(nf=16, pols=rng.choice([["xx", "yy"], ["yy", "xx"]]) if not four else rng.choice([["xx", "yy", "xy", "yx"], ["yx", "yy", "xx", "xy"]]))
        p["s"] = s
        ps = ["pI", "pQ", "pU", "pV"] if four else ["pI", "pQ"]
        p["ps"] = None if rng.random() < 0.25 else rng.sample(ps, rng.randint(1, len(ps)))
        p["keep"] = rng.random() < 0.5
        p["out"] = rng.random() < 0.6
        p["clobber"] = rng.random() < 0.7 or not p["out"]
        p["old"] = p["out"] and rng.random() < 0.4
        p["conv"] = rng.choice([None, None, "avg", "sum"])
    return p


def sig(u):
    return fx.digest(fx.state(u))


def execute(plan, sim):
    if plan["k"] == "merge":
        return c06.execute(dict(plan["merge"], attempts=plan["attempts"]), sim)
    return (noise if plan["k"] == "noise" else pstokes)(plan, sim)


class Broken(Exception):
    pass


def failed(sim, o, what):
    """Bookkeeping after an attempt that may have failed."""
    if not o.ok and not o.fired:
        if (sim.close_faults or getattr(sim, "writer_killed", False)) and isinstance(o.exc, (OSError, RuntimeError, KeyError)):
            raise Broken()
        raise Violation(f"{what}-failed", f"{o!r}\n{getattr(o.exc, 'sim_tb', '')}")
    if o.killed:
        sim.writer_killed = True
    ok = o.ok
    if o.fired:
        o.value = None
        sim.new_process("after failure")
    return ok


# ---------------------------------------------------------------- noise estimates
def tsys_beam(hp):
    b = vis.make_beam(hp, "array")
    b.x_orientation = "east"
    return b


def coarse(hp):
    """Numerical integrals over frequency with fewer steps."""
    f = hp.uvpspec.UVPSpec.compute_scalar

    def compute_scalar(self, *a, **k):
        k["num_steps"] = 40
        return f(self, *a, **k)
    hp.uvpspec.UVPSpec.compute_scalar = compute_scalar
    return hp


def noise(plan, sim):
    fn, s = "c.h5", plan["s"]
    hp = coarse(sim.hp)

    def make():
        ds = vis.make_ds(hp, s)
        c = hp.PSpecContainer(fn, mode="rw", keep_open=False)
        for x in plan["specs"]:
            bls = [tuple(b) for b in x["pairs"]]
            u = est.quiet(lambda: ds.pspec(bls, bls, tuple(x["dp"]), [(q, q) for q in x["pols"]],
                                           spw_ranges=[tuple(w) for w in x["spws"]], taper="bh", verbose=False))
            if x["earlier"]:
                for k in u.get_all_keys():
                    u.set_stats("P_N", k, np.ones_like(u.get_data(k)))
                    u.set_stats("mine", k, 2 * np.ones_like(u.get_data(k)))
            c.set_pspec(*x["at"], u)
        if plan["foreign"]:
            c.set_pspec("zz", "a", fx.make_uvp(hp, dict(tag=9)))
    sim.must(make, "container")
    a = vis.make_uvd(dict(s, tag=50, flags="", pols=plan["autos"]))
    if not plan["cross"]:
        a.select(bls=[(q, q) for q in s["ants"]])
    if plan["pI"]:
        a += est.quiet(lambda: hp.pstokes.construct_pstokes(a, a, pstokes="pI"))
    a.write_uvh5(sim.path("autos.uvh5"))

    err = plan["err"] or "P_N"
    chosen = [tuple(x["at"]) for x in plan["specs"]
              if (plan["groups"] is None or x["at"][0] in plan["groups"]) and (plan["spectra"] is None or x["at"] in plan["spectra"])]

    def reference():
        b = vis.make_uvd(dict(s, tag=50, flags="", pols=["xx", "yy"]))
        T = hp.utils.uvd_to_Tsys(b, tsys_beam(hp))
        src = hp.PSpecContainer(fn, mode="r", keep_open=False)
        c = hp.PSpecContainer("ref.h5", mode="rw", keep_open=False)
        out = {}
        for g, n in chosen:
            u = src.get_pspec(g, n)
            hp.utils.uvp_noise_error(u, T, err_type=err)
            c.set_pspec(g, n, u)
            out[(g, n)] = sig(c.get_pspec(g, n))
        return out
    want = sim.must(lambda: est.quiet(reference), "noise of each spectrum alone")

    def look():
        def f():
            c = sim.hp.PSpecContainer(fn, mode="r", keep_open=False)
            t = c.tree(return_str=False)
            return {(g, n): sig(c.get_pspec(g, n)) for g in t for n in t[g]}
        o = sim.call(f, None, "look")
        if not o.ok:
            if (sim.close_faults or getattr(sim, "writer_killed", False)) and isinstance(o.exc, (OSError, RuntimeError, KeyError)):
                raise Broken()
            raise Violation("container-unreadable", f"{o!r}\n{getattr(o.exc, 'sim_tb', '')}")
        return o.value
    origin = look()
    argv = [fn, "autos.uvh5", "beam.fits"]
    if plan["groups"] is not None:
        argv += ["--groups"] + plan["groups"]
    if plan["spectra"] is not None:
        argv += ["--spectra"] + ["/".join(n) for n in plan["spectra"]]
    if plan["err"]:
        argv += ["--err_type"] + plan["err"]
    try:
        for att in plan["attempts"] + [None]:
            if att and att["proc"]:
                sim.new_process("again")
            h = sim.hp if sim.hp is hp else coarse(sim.hp)
            hp = h

            def factory(path, *args, **kw):
                if path != "beam.fits":
                    raise FileNotFoundError(path)
                return tsys_beam(h)
            cont.stub_beam_files(h, factory)    # stub: reading a beam simulation file
            o = cont.run_script(sim, "auto_noise_run.py", argv, dict(faults=att["faults"]) if att else None)
            ok = failed(sim, o, "noise-step")
            now = look()
            sim.evals["attempts"] += 1
            if set(now) != set(origin):
                raise Violation("names-changed", f"{sorted(origin)} became {sorted(now)}")
            for k in origin:
                if k in want:
                    if now[k] == want[k] or (now[k] == origin[k] and not ok):
                        sim.evals["spectra compared"] += 1
                        continue
                    raise Violation("noise-missing" if now[k] == origin[k] else "wrong-noise",
                                    f"{k} {'has no new noise estimate' if now[k] == origin[k] else 'is neither as before nor with the noise of the autocorrelations'} "
                                    f"after attempt {att} ({'complete' if ok else 'failed'}); {argv}")
                if now[k] != origin[k]:
                    raise Violation("other-spectrum-changed", f"{k} after {att}; {argv}")
    except Broken:
        sim.evals["container left unreadable by a kill"] += 1
    sim.sigs.add(f"noise:{len(chosen)}:{len(origin)}:{plan['groups'] is None}:{plan['spectra'] is None}:{err}:"
                 f"{[(f['ev'], f['do']) for a in plan['attempts'] for f in a['faults']]}")


# ---------------------------------------------------------------- pseudo-Stokes
W = {"pI": ("xx", "yy", 1, 1), "pQ": ("xx", "yy", 1, -1), "pU": ("xy", "yx", 1, 1), "pV": ("xy", "yx", -1j, 1j)}
PN = {"pI": 1, "pQ": 2, "pU": 3, "pV": 4, "xx": -5, "yy": -6, "xy": -7, "yx": -8}


def view(u):
    """{(baseline, time, polarization): (data, flags, samples)}"""
    out = {}
    names = {v: k for k, v in PN.items()}
    for i in range(u.Nblts):
        for j, p in enumerate(u.polarization_array):
            k = (int(u.ant_1_array[i]), int(u.ant_2_array[i]), round(float(u.time_array[i]), 7), names[int(p)])
            if k in out:
                raise Violation("duplicate-visibility", str(k))
            out[k] = (u.data_array[i, :, j], u.flag_array[i, :, j], u.nsample_array[i, :, j])
    return out


def same(a, b):
    return set(a) == set(b) and all(np.allclose(x[0], y[0], rtol=1e-12, atol=1e-12) and np.array_equal(x[1], y[1]) and np.allclose(x[2], y[2])
                                    for x, y in ((a[k], b[k]) for k in a))


def expected_ps(v, plan):
    ask = plan["ps"] or ["pI"]
    f = 0.5 if plan["conv"] != "sum" else 1.0
    out = dict(v) if plan["keep"] else {}
    for (a, b, t, p) in v:
        for q in ask:
            p1, p2, w1, w2 = W[q]
            if p != p1:
                continue
            x, y = v[(a, b, t, p1)], v[(a, b, t, p2)]
            n1, n2 = x[2], y[2]
            none = (n1 == 0) | (n2 == 0)
            with np.errstate(divide="ignore", invalid="ignore"):
                n = np.where(none, 0, 4.0 / (1.0 / n1 + 1.0 / n2))
            out[(a, b, t, q)] = (f * (w1 * x[0] + w2 * y[0]), x[1] | y[1] | none, n)
    return out


def pstokes(plan, sim):
    from pyuvdata import UVData

    u = vis.make_uvd(dict(plan["s"], tag=3))
    if plan["conv"]:
        u.pol_convention = plan["conv"]
    u.write_uvh5(sim.path("in.uvh5"))
    orig = view(u)
    want = expected_ps(orig, plan)
    out = "out.uvh5" if plan["out"] else "in.uvh5"
    old = None
    if plan["old"]:
        v = vis.make_uvd(dict(plan["s"], tag=4))
        v.write_uvh5(sim.path(out))
        old = view(v)
    argv = ["in.uvh5"]
    if plan["ps"]:
        argv += ["--pstokes"] + plan["ps"]
    if plan["out"]:
        argv += ["--outputdata", out]
    if plan["clobber"]:
        argv += ["--clobber"]
    if plan["keep"]:
        argv += ["--keep_vispols"]

    def read(name):
        if not os.path.exists(sim.path(name)):
            return None

        def f():
            r = UVData()
            r.read_uvh5(name)
            return view(r)
        o = sim.call(f, None, "look")
        if not o.ok:
            raise Violation("file-damaged", f"{name} cannot be read: {o!r}")
        return o.value
    done = False
    for att in plan["attempts"] + [None]:
        if att and att["proc"]:
            sim.new_process("again")
        exists = os.path.exists(sim.path(out))
        o = cont.run_script(sim, "generate_pstokes_run.py", argv, dict(faults=att["faults"]) if att else None)
        again = done and not plan["out"] and not plan["keep"]   # the input polarizations are gone
        refuse = exists and not plan["clobber"]
        if refuse or again:
            if o.ok and refuse:
                raise Violation("overwritten", f"{out} existed and there was no --clobber")
            if not o.fired and not again and not isinstance(o.exc, (OSError, ValueError, RuntimeError)):
                raise Violation("pstokes-failed", f"{o!r}\n{getattr(o.exc, 'sim_tb', '')}")
            ok = o.ok
            if o.fired:
                o.value = None
                sim.new_process("after failure")
        else:
            ok = failed(sim, o, "pstokes")
        sim.evals["attempts"] += 1
        if plan["out"]:
            g = read("in.uvh5")
            if g is None or not same(g, orig):
                raise Violation("input-changed", f"in.uvh5 after {att}; {argv}")
        g = read(out)
        if ok and not again:
            if g is None or not same(g, want):
                raise Violation("wrong-pstokes", f"{out} after {att}; {argv}: {describe(g, want)}")
            done = True
            old = want
        else:
            prev = old if plan["out"] else (want if done else orig)
            if g is None and prev is not None:
                raise Violation("file-lost", f"{out} after {att}; {argv}")
            if g is not None and not (prev is not None and same(g, prev)):
                if not same(g, want) or refuse:
                    raise Violation("file-damaged", f"{out} after {att}; {argv}: {describe(g, want)}")
                done = True
                old = want
        sim.evals["files compared"] += 1
    sim.sigs.add(f"pstokes:{argv[1:]}:{plan['old']}:{plan['conv']}:{[(f['ev'], f['do']) for a in plan['attempts'] for f in a['faults']]}")


def describe(g, w):
    if g is None:
        return "missing"
    if set(g) != set(w):
        return f"polarizations {sorted({k[3] for k in g})}, should be {sorted({k[3] for k in w})}; {len(g)} rows, should be {len(w)}"
    for k in g:
        for i, n in enumerate(("data", "flags", "samples")):
            if not np.allclose(g[k][i], w[k][i]):
                return f"{n} of {k}: {g[k][i][:3]} should be {w[k][i][:3]}"
    return "same"
