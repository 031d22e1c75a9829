"""C10: writing a spectrum file is all-or-nothing."""
import io
import os
import pathlib
import warnings

import numpy as np

from sim.core import Violation
from . import cont
from .c02 import spoil

ID = "C10"
TECHNIQUE = "seeded fault or kill at each I/O call of a file write, byte comparison and independent read-back"
QUICK, THOROUGH = 6000, 200000
RULE = ("one run = 1-4 writes of spectra (a quarter of the runs: of exact window functions) to one path of seeded prior state (absent, spectrum file, foreign file), with or without "
        "permission to overwrite, valid or invalid object, a fault or kill at a seeded HDF5 call, disk read, disk write, "
        "directory operation or open; then the directory and the file's bytes and contents are compared. Distinct and "
        "non-trivial: (prior state, overwrite, object, event, position, error, result) combinations.")
SHRINK = ["ops"]
ASSUME = ["one failure per write"]
ERRS = ["EIO", "EIO", "ENOSPC", "MemoryError", "KeyboardInterrupt", "RuntimeError"]


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i), 0.5)


def gen0(rng, i):
    tags = cont.Tags()
    ops = []
    wf = rng.random() < 0.25     # window functions instead of spectra
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        op = dict(spec=cont.gen_small(rng, tags()), ow=rng.random() < 0.75, path=rng.choice(["str", "str", "Path"]),
                  check=rng.random() < 0.8)
        if wf:
            op["wf"] = dict(nf=rng.choice([4, 5, 6]), bls=rng.choice([[14.6], [14.6, 29.2], [25.3, 14.6]]), wts=rng.choice([None, 1, 2]),
                            taper=rng.choice([None, "hann", "blackman-harris"]), h=rng.random() < 0.7, pol=rng.choice(["xx", "yy", "pI"]),
                            bins=rng.choice(["", "perp", "both", "both"]), width=round(8 + 4 * rng.random(), 3))
            if rng.random() < 0.2:
                op["bad"] = rng.choice(["weights", "units", "nounits", "uneven", "taper", "pol"])
        if op.get("bad"):
            pass
        elif rng.random() < 0.2 and not wf:
            op["bad"] = rng.choice(["noattr", "badtype", "unwritable", "inconsistent"])
            op["check"] = True
        elif rng.random() < 0.85:
            ev = rng.choice(["h5w", "h5w", "h5w", "h5r", "dw", "dw", "dr", "fs", "open"])
            f = dict(ev=ev, at=rng.choice([1, rng.randint(1, 8), rng.randint(1, 90)]), do=rng.choice(ERRS))
            if ev[:2] == "h5":
                f["when"] = rng.choice(["before", "after"])
            if ev in ("dw", "dr"):
                f["do"] = rng.choice(["EIO", "ENOSPC"])
                f["len"] = rng.choice([1, 1, 200])
            if ev in ("fs", "open"):
                f["at"] = rng.choice([1, 1, 2])
            if rng.random() < 0.3 and ev not in ("dr", "h5r", "open"):
                f["do"] = "kill"
                f["len"] = 1
            op["faults"] = [f]
        ops.append(op)
    return dict(ops=ops, prior=rng.choice(["none", "none", "foreign", "empty"]))


def window(hp, w, bad):
    """(write(path, clobber), contents to be found) of exact window functions."""
    from astropy import units
    ft = hp.uvwindow.FTBeam.gaussian(100e6 + 1e5 * np.arange(w["nf"]), w["width"], w["pol"], npix=9)
    x = hp.uvwindow.UVWindow(ft, taper=w["taper"], little_h=w["h"], cosmo=hp.conversions.Cosmo_Conversions())
    kp = kq = None
    if w["bins"] or bad in ("units", "nounits", "uneven"):
        kp = np.linspace(0.0, 0.05, 6) * x.kunits
    if w["bins"] == "both":
        kq = np.linspace(0.0, 5.0, 5) * x.kunits
    wts = None if w["wts"] is None else [float(w["wts"] + i) for i in range(len(w["bls"]))]
    a = dict(bl_lens=list(w["bls"]), bl_weights=wts, kperp_bins=kp, kpara_bins=kq)
    if not bad:
        P = x.get_kperp_bins(np.array(w["bls"])) if kp is None else kp
        Q = x.get_kpara_bins(x.freq_array) if kq is None else kq
        cyl = [x.get_cylindrical_wf(b, P, Q) * (1 if wts is None else wts[i]) for i, b in enumerate(w["bls"])]
        want = dict(kperp_bins=P.value, kpara_bins=Q.value, bl_lens=w["bls"], bl_weights=wts or [1.0] * len(w["bls"]),
                    dly_array=x.dly_array, cyl_wf=cyl, avg_nu=x.avg_nu, avg_z=x.avg_z, nfreqs=x.Nfreqs, little_h=x.little_h,
                    taper=w["taper"] or "none")
    elif bad == "weights":
        a["bl_weights"] = [1.0] * 3
    elif bad == "units":
        a["kpara_bins"] = np.linspace(0.0, 5.0, 5) * units.Mpc
    elif bad == "nounits":
        a["kperp_bins"] = kp.value
    elif bad == "uneven":
        a["kperp_bins"] = np.array([0.0, 0.01, 0.05]) * x.kunits
    elif bad == "taper":
        x.taper = ["not", "storable"]
    else:
        x.pols = ("zz", "zz")
    return (lambda path, ow: x.run_and_write(path, clobber=ow, **a)), None if bad else {k: np.asarray(v) for k, v in want.items()}


def window_content(b):
    import h5py
    with h5py.File(io.BytesIO(b), "r") as f:
        got = {k: np.asarray(f[k]) for k in f}
        got.update((k, np.asarray(v)) for k, v in f.attrs.items())
    return got


def same(a, b):
    return a.shape == b.shape and bool(np.array_equal(a, b) if a.dtype.kind not in "fc" else np.array_equal(a, b, equal_nan=True))


def execute(plan, sim):
    specs = cont.Specs(None)
    os.mkdir(sim.path("d"))
    fn = "d/s.h5"
    if plan["prior"] == "foreign":
        with open(sim.path(fn), "wb") as fh:
            fh.write(b"something else entirely\n" * 10)
    elif plan["prior"] == "empty":
        open(sim.path(fn), "wb").close()
    ok = {None: None}
    state = plan["prior"]
    stray = False
    for op in plan["ops"]:
        hp = sim.hp
        before = cont.raw_bytes(sim, fn)
        path = pathlib.Path(fn) if op["path"] == "Path" else fn
        w = op.get("wf")
        if w:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                u, d = window(hp, w, op.get("bad"))
            o = sim.call(lambda: u(path, op["ow"]), op, "write")
        else:
            u, d = specs.make(hp, op["spec"])
            if op.get("bad"):
                u = spoil(hp, u, op["bad"])
            o = sim.call(lambda: u.write_hdf5(path, overwrite=op["ow"], run_check=op["check"]), op, "write")
        after = cont.raw_bytes(sim, fn)
        sim.sigs.add(f"{bool(w)}:{state}:{op['ow']}:{op.get('bad')}:{o.fired}:{op.get('faults', [{}])[0].get('when')}:{o!r}"[:120])
        sim.evals["writes"] += 1
        exists = before is not None
        if o.ok:
            if op.get("bad"):
                raise Violation("invalid-object-written", op["bad"])
            if exists and not op["ow"]:
                raise Violation("overwrote-without-permission", "")
        if exists and not op["ow"] and after != before:
            raise Violation("touched-without-permission", "")
        if o.ok or (o.killed and after != before):
            what = "written" if o.ok else "killed"
            if after is None:
                raise Violation(f"file-missing-after-{what}", "")
            p = sim.new_process("reader")

            def rd():
                if w:
                    return window_content(after)
                v = p.UVPSpec()
                v.read_hdf5(fn)
                return v

            q = sim.call(rd, None, "read")
            if not q.ok:
                raise Violation(f"unreadable-after-{what}", repr(q))
            got = q.value if w else cont.content(q.value)
            q.value = None
            if (got != d) if not w else any(k not in got or not same(np.asarray(got[k]), d[k]) for k in d):
                raise Violation(f"wrong-after-{what}", "contents differ from the object written")
            state = "spectrum"
        elif after != before:
            kind = "refused" if op.get("bad") else "interrupted" if isinstance(o.exc, KeyboardInterrupt) else "failed"
            raise Violation(f"previous-file-{'lost' if after is None else 'changed' if exists else 'absence-lost'}-after-{kind}-write",
                            repr(o))
        if not o.ok and not o.killed and not o.fired and not op.get("bad") and not (exists and not op["ow"]):
            raise Violation("write-failed", f"{o!r} {getattr(o.exc, 'sim_tb', '')}")
        stray = stray or o.killed
        del u
        if o.killed:
            sim.new_process()
        rest = sorted(set(os.listdir(sim.path("d"))) - {"s.h5"})
        if rest and not stray:
            raise Violation("stray-file", str(rest))
