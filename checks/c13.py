"""C13: power spectrum estimation has no memory."""
import copy
import random

import numpy as np

from sim import fx, vis
from sim.core import Violation
from . import est

ID = "C13"
TECHNIQUE = "seeded histories of estimator use (other requests, settings, matrices, changed data, calls stopped at a seeded source line) followed by the request cut into parts, against a fresh estimator"
QUICK, THOROUGH = 1500, 80000
RULE = ("one run = one estimator on 1-3 seeded data sets (antennas, times, polarizations, flag and sample patterns, weights, "
        "standard deviations, beam, units), 0-5 seeded history steps (other power spectrum requests with any weighting, "
        "normalization, taper, windows, delays, filter extensions, covariance model; setters; direct matrix calls; cache "
        "clearing; data sets added, converted, reflagged or altered; each possibly invalid or stopped by an exception at a "
        "seeded source line), then a seeded request cut into parts over windows, polarizations and baseline pairs, in seeded "
        "order with further steps in between. Every part must equal the fresh estimator's answer to the whole request for "
        "the same data, and their union must be complete. Distinct and non-trivial: (request options, history kinds, "
        "outcome) combinations.")
SHRINK = ["hist", "parts"]
ASSUME = ["user-supplied matrices put in the caches by hand (set_C, set_iC, set_R) are not part of the histories",
          "results that rounding-size noise on the inputs changes by more than that are not compared",
          "agreement to 1e-7 of the largest element of each spectrum, covariance or window function"]
COLD = ["pspec", "pspec", "pspec", "taper", "weighting", "spw", "fext", "sym", "ndlys", "matrix", "clear"]
HOT = COLD + ["flags", "data", "broadcast", "add", "mK", "rephase", "trim"]


def gen_step(rng, s, hot):
    st = dict(s=rng.choice(HOT if hot else COLD), seed=rng.randrange(10**6))
    if st["s"] in ("pspec", "matrix", "broadcast", "mK") and rng.random() < 0.5:
        st["fault"] = dict(ev="line", at=int(10 ** rng.uniform(0, 3.6)), do=rng.choice(["KeyboardInterrupt", "MemoryError"]))
    if st["s"] == "pspec":
        st["req"] = est.gen_request(rng, s)
        if rng.random() < 0.15:
            st["bad"] = rng.choice(["ndlys", "pol", "bl", "fext", "norm"])
    return st


def gen(rng, i):
    s = vis.gen_data(rng, rng.choice([1, 2, 2, 2, 3]))
    req = est.gen_request(rng, s)
    if (req["kw"].get("norm") == "V^-1/2" or req["kw"].get("input_data_weight") == "iC") and rng.random() < 0.8:
        s["nt"] = 14       # enough integrations for covariances of full rank
        s["ants"] = s["ants"][:3]
        req = est.gen_request(rng, s)
    if req["kw"].get("norm") == "H^-1" and rng.random() < 0.8:
        s["flags"] = ""
    hist = [gen_step(rng, s, True) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    parts = [dict(req=q) for q in est.split(rng, req)] if rng.random() < 0.75 else [dict(req=req)]
    for p in parts:
        p["pre"] = [gen_step(rng, s, False) for _ in range(rng.choice([0, 0, 1, 2]))]
    # histories that resemble the request reach more of what could be reused
    for st in hist + [x for p in parts for x in p["pre"]]:
        if st["s"] == "pspec" and rng.random() < 0.5:
            q = copy.deepcopy(req)
            for k in ("taper", "exact_norm", "norm", "cov_model", "input_data_weight", "symmetric_taper", "sampling"):
                if rng.random() < 0.2:
                    if k in st["req"]["kw"]:
                        q["kw"][k] = st["req"]["kw"][k]
                    else:
                        q["kw"].pop(k, None)
            if rng.random() < 0.4:
                q["spws"], q["pols"] = st["req"]["spws"], st["req"]["pols"]
                for k in ("ndlys", "fext"):
                    q.pop(k, None)
                    if k in st["req"]:
                        q[k] = st["req"][k]
            st["req"] = q
    return dict(data=s, req=req, hist=hist, parts=parts)


def step(hp, ds, s, st):
    r = random.Random(st["seed"])
    k = st["s"]
    if k == "pspec":
        q = copy.deepcopy(st["req"])
        b = st.get("bad")
        if b == "ndlys":
            q["ndlys"] = [99 for _ in q["spws"]]
        elif b == "pol":
            q["pols"] = [["ee", "ee"]]
        elif b == "bl":
            q["prs"] = q["prs"] + [[[0, 77], [0, 77]]]
        elif b == "fext":
            q["fext"] = [[2, 2] for _ in q["spws"]]
            q["spws"] = q["spws"][:-1] + [[0, s["nf"] + 5]]
        elif b == "norm":
            q["kw"]["norm"] = "L^-1"
        return est.call(ds, s, q)
    if k == "taper":
        return ds.set_taper(r.choice(["none", "blackman-harris", "tukey"]))
    if k == "weighting":
        return ds.set_weighting(r.choice(["identity", "iC", "dayenu"]))
    w = [tuple(x) for x in est.gen_windows(r, s["nf"])]
    if k == "spw":
        return ds.set_spw(w[0], ndlys=r.choice([None, 5]))
    if k == "fext":
        return ds.set_filter_extension((r.randint(0, 3), r.randint(0, 3)))
    if k == "sym":
        return ds.set_symmetric_taper(r.random() < 0.5)
    if k == "ndlys":
        return ds.set_Ndlys(r.choice([None, 4, 6]))
    if k == "clear":
        return ds.clear_cache(r.choice([None, list(ds._R)[:2]]))
    bl = tuple(sorted(r.sample(s["ants"], 2)))
    bl2 = tuple(sorted(r.sample(s["ants"], 2)))
    key, key2 = (0,) + bl + (s["pols"][0],), (len(s["tags"]) - 1,) + bl2 + (s["pols"][-1],)
    if k == "matrix":
        m = r.choice(["R", "iC", "I", "Y", "C_model", "q_hat", "get_G", "get_H", "get_Q_alt", "get_unnormed_E", "get_unnormed_V",
                      "cov_q_hat", "scalar"])
        if m in ("R", "iC", "I", "Y", "C_model"):
            return getattr(ds, m)(key)
        if m == "scalar":
            return ds.scalar((s["pols"][0],) * 2)
        if m == "get_Q_alt":
            return ds.get_Q_alt(2)
        return getattr(ds, m)(key, key2)
    if k == "flags":
        u = ds.dsets[r.randrange(len(ds.dsets))]
        u.flag_array[:, r.randrange(u.Nfreqs)] ^= True
    elif k == "data":
        u = ds.dsets[r.randrange(len(ds.dsets))]
        u.data_array *= 1 + 0.1 * np.cos(np.arange(u.Nfreqs))[None, :, None]
    elif k == "broadcast":
        ds.broadcast_dset_flags(spw_ranges=r.choice([None, w]), time_thresh=r.choice([0.1, 0.5]), unflag=r.random() < 0.5)
    elif k == "add":
        t = vis.make_uvd(dict(s, tag=50 + st["seed"] % 3))
        t.vis_units = ds.dsets[0].vis_units
        e = vis.make_uvd(dict(s, tag=60, flags=""), "std") if s.get("std") else None
        if e is not None:
            e.vis_units = t.vis_units
        ds.add([t], [vis.make_wgt(s, t) if s.get("wgts") else None], labels=["extra%d" % st["seed"]],
               dsets_std=[e] if e is not None else None)
    elif k == "mK":
        ds.Jy_to_mK()
    elif k == "rephase":
        ds.rephase_to_dset(0)
    elif k == "trim":
        ds.trim_dset_lsts()


def fresh(hp, ds, s):
    """A new estimator on copies of the data the old one holds now."""
    c = [copy.deepcopy(list(x)) if x else x for x in (ds.dsets, ds.wgts, ds.dsets_std)]
    return hp.PSpecData(c[0], c[1], dsets_std=c[2] if c[2] else None, labels=list(ds.labels), beam=vis.make_beam(hp, s.get("beam")))


def ill_posed(hp, ds, s, req, ref):
    """Does rounding-size noise on data and matrices change the fresh estimator's answer?"""
    f = fresh(hp, ds, s)
    r = np.random.default_rng(7)

    def noisy(a):
        return a * (1 + 1e-13 * r.normal(size=np.shape(a)))
    for u in f.dsets:
        u.data_array = noisy(u.data_array)
    for m in ("get_G", "get_H", "get_unnormed_V"):
        def wrapped(*a, _f=getattr(f, m), **k):
            x = noisy(_f(*a, **k))
            return (x + x.conj().T) / 2 if _f.__name__ == "get_unnormed_V" else x
        setattr(f, m, wrapped)
    try:
        return bool(est.compare(ref, view(est.quiet(lambda: est.call(f, s, req)))))
    except Exception:
        return True


META = ["weighting", "vis_units", "norm_units", "norm", "taper", "folded", "cosmo", "telescope_location", "channel_width",
        "exact_windows", "beam_freqs", "cov_model", "symmetric_taper"]


def view(u):
    a, m = fx.keyed(u)
    m.pop("r_params", None)
    g = fx.global_meta(u)
    for k in META:
        if k in g:
            m[("global", k)] = g[k]
    return a, m


def execute(plan, sim):
    hp, s, req = sim.hp, plan["data"], plan["req"]
    ds = sim.must(lambda: est.quiet(lambda: vis.make_ds(hp, s)), "make")

    def do(st):
        o = sim.call(lambda: est.quiet(lambda: step(hp, ds, s, st)), dict(faults=[st["fault"]]) if st.get("fault") else None, st["s"])
        how = "stopped" if o.fired and not o.ok else "refused" if not o.ok else "ok"
        sim.evals[f"{st['s']} {how}"] += 1
        if how == "refused" and not st.get("bad"):
            sim.evals[f"unexpected {st['s']} {type(o.exc).__name__} {str(o.exc)[:60]}"] += 1
        sim.sigs.add(f"{st['s']}:{how}")
        del o
    for st in plan["hist"]:
        do(st)
    ref_ds = est.quiet(lambda: fresh(hp, ds, s))
    before = est.ds_state(ds)
    ro = sim.call(lambda: est.quiet(lambda: est.call(ref_ds, s, req)), None, "reference")
    opts = sorted((k, str(v)) for k, v in req["kw"].items())
    sim.sigs.add(f"req:{opts}:{ro.ok}:{'fext' in req}:{len(plan['parts'])}")
    sim.evals["reference " + ("ok" if ro.ok else f"refused {type(ro.exc).__name__} {str(ro.exc)[:60]}")] += 1
    if not ro.ok:
        o = sim.call(lambda: est.quiet(lambda: est.call(ds, s, req)), None, "request")
        if o.ok:
            raise Violation("refusal-depends-on-history", f"a fresh estimator refuses ({ro!r}) what this one computes")
        return
    ref = view(ro.value)
    seen = set()
    for p in plan["parts"]:
        for st in p["pre"]:
            do(st)
        q = p["req"]
        o = sim.call(lambda: est.quiet(lambda: est.call(ds, s, q)), None, "part")
        if not o.ok:
            f = sim.call(lambda: est.quiet(lambda: est.call(fresh(hp, ds, s), s, q)), None, "part alone")
            if f.ok:
                raise Violation("failure-depends-on-history", f"{o!r} where a fresh estimator succeeds")
            if any(x in s["pols"] and y in s["pols"] for x, y in q["pols"]):
                raise Violation("failure-depends-on-split", f"part {q['prs']} {q['pols']} {q['spws']}: {o!r}, but the whole succeeds")
            continue
        got = view(o.value)
        d = est.compare(ref, got)
        if d and ill_posed(hp, ds, s, req, ref):
            sim.evals["ill-posed, not compared"] += 1
            d = ""
        if d:
            f = sim.call(lambda: est.quiet(lambda: est.call(fresh(hp, ds, s), s, q)), None, "part alone")
            alone = f.ok and not est.compare(view(f.value), got)
            raise Violation("depends-on-split" if alone else "depends-on-history",
                            f"part {q['prs']} {q['pols']} {q['spws']} of {opts}: {d}")
        seen |= set(got[0])
        sim.evals["parts compared"] += 1
    if plan["parts"] and sum(len(p["req"]["prs"]) * len(p["req"]["pols"]) * len(p["req"]["spws"]) for p in plan["parts"]) == \
            len(req["prs"]) * len(req["pols"]) * len(req["spws"]):
        miss = set(ref[0]) - seen
        if miss:
            raise Violation("depends-on-split", f"the parts lack {sorted(miss)[:2]} ({len(miss)} of {len(ref[0])})")
    d = fx.diff(before, est.ds_state(ds))
    if d:
        raise Violation("data-changed", f"estimating changed the data: {d}")
