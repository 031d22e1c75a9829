"""Catalogue of operations on spectrum objects: seeded arguments, application, results in comparable form."""
import copy

import numpy as np

from sim import fx


# ---------------------------------------------------------------- objects
def gen_obj(rng, tag=1, rich=True, **over):
    s = fx.gen_spec(rng, tag, big=rng.random() < 0.5)
    s["times"] = list(range(rng.choice([1, 2, 3, 4])))
    s["spws"] = rng.choice([[[0, 4]], [[0, 5]], [[0, 4], [4, 5]], [[8, 6], [2, 4]], [[0, 8]]])
    s.pop("cross", None)
    if rich:
        s["cosmo"] = rng.random() < 0.8
        s["beam"] = rng.random() < 0.7
        if rng.random() < 0.5:
            s["stats"] = rng.choice([["P_N"], ["P_N", "P_SN"], ["P_N", "bs_std"]])
        if rng.random() < 0.2:
            s["order"] = "time"
        if rng.random() < 0.5 and not s.get("ew"):
            s["pols"] = rng.choice([[1515], [1515, 1414]])
    if rng.random() < 0.08:
        s["ew"] = True
    if s.get("ew"):
        s["cosmo"] = True
        s.pop("folded", None)
    s.update(over)
    return s


def blps(u):
    out = []
    for b in np.asarray(u.blpair_array).tolist():
        if b not in out:
            out.append(b)
    return out


# ---------------------------------------------------------------- generation
KINDS = ["select", "select", "select", "average", "average", "average", "fold", "deltasq", "noise", "set_stats",
         "set_stats_slice", "approx_cov", "set_cosmo", "spherical", "delay_bins", "boot_avg", "boot_err",
         "noise_error", "psn_corr", "subtract", "common", "combine", "recombine", "add", "overlap", "getters", "write",
         "exact_sph", "exact", "bias", "compute_scalar", "copy"]
INPLACE = {"select", "average", "fold", "deltasq", "set_stats", "set_stats_slice", "approx_cov", "set_cosmo",
           "noise_error", "psn_corr", "exact", "bias"}
MULTI = {"subtract", "common", "combine", "add", "overlap", "recombine"}
CHAIN = {"select", "average", "fold", "deltasq", "set_stats", "set_stats_slice", "approx_cov", "set_cosmo",
         "spherical", "delay_bins", "noise_error", "psn_corr", "exact", "bias", "copy"}


def gen_op(rng, kinds=KINDS, bad=0.0):
    k = rng.choice(kinds)
    op = dict(k=k, r=[round(rng.random(), 6) for _ in range(12)])
    if rng.random() < bad:
        op["bad"] = rng.randrange(1000)
    return op


class Refuse(Exception):
    pass


class B:
    """A bound operation: do(u, inplace) performs it; watch: mutable arguments handed in; bad: must be refused."""

    def __init__(self, do, watch=(), inplace=False, others=(), bad=None, ret="uvp"):
        self.do, self.watch, self.inplace, self.others, self.bad, self.ret = do, list(watch), inplace, list(others), bad, ret


def _pick(r, seq, lo=1):
    """A non-empty sub-list chosen by a number in [0,1)."""
    n = len(seq)
    m = int(r * (2 ** n - 1)) + 1
    return [x for i, x in enumerate(seq) if m >> i & 1]


def bind(hp, u, op, second=None):
    """Resolve the symbolic arguments of op against object u."""
    r = op["r"]
    k = op["k"]
    bad = op.get("bad")
    ub = blps(u)
    nspw, pols = int(u.Nspws), [int(p) for p in u.polpair_array]
    times = sorted(set(np.asarray(u.time_avg_array).tolist()))
    lsts = sorted(set(np.asarray(u.lst_avg_array).tolist()))
    tup = u.blpair_to_antnums
    uvputils = hp.uvpspec_utils

    if k == "select":
        a = {}
        if r[0] < 0.35:
            a["spws"] = _pick(r[1], list(range(nspw)))
        if r[2] < 0.4:
            bl = _pick(r[3], ub)
            a["blpairs"] = [tup(b) for b in bl] if r[4] < 0.4 else bl
        elif r[2] < 0.6:
            bl = _pick(r[3], ub)
            a["bls"] = sorted({x for b in bl for x in tup(b)})
            a["only_pairs_in_bls"] = r[4] < 0.5
        if r[5] < 0.3:
            a["times"] = _pick(r[6], times)
            if r[7] < 0.5:
                a["times"] = np.array(a["times"])
        elif r[5] < 0.45:
            a["lsts"] = _pick(r[6], lsts)
        if r[8] < 0.35:
            pp = _pick(r[9], pols)
            a["polpairs"] = [uvputils.polpair_int2tuple(p) for p in pp] if r[10] < 0.3 else pp
        isbad = None
        if bad is not None:
            isbad = ["spw", "time", "pol", "poltype", "both", "blpair", "bls", "emptytimes", "lst", "blptype"][bad % 10]
            if isbad == "spw":
                a["spws"] = a.get("spws", [0]) + [nspw + 3]
            elif isbad == "time":
                a.pop("lsts", None)
                a["times"] = [1.0]
            elif isbad == "pol":
                a["polpairs"] = [1818]
            elif isbad == "poltype":
                a["polpairs"] = 1515
            elif isbad == "both":
                a["times"], a["lsts"] = times[:1], lsts[:1]
            elif isbad == "blpair":
                a["blpairs"] = [190190190190]
                a.pop("bls", None)
            elif isbad == "bls":
                a["bls"] = [(90, 91)]
                a["only_pairs_in_bls"] = True
                a.pop("blpairs", None)
            elif isbad == "emptytimes":
                a.pop("lsts", None)
                a["times"] = []
            elif isbad == "lst":
                a.pop("times", None)
                a["lsts"] = [50.0]
            elif isbad == "blptype":
                a["blpairs"] = ["x"]
        return B(lambda v, ip: v.select(inplace=ip, **a), a.values(), True, bad=isbad)

    if k == "average":
        a = dict(time_avg=r[0] < 0.4)
        if r[1] < 0.7:
            order = sorted(range(len(ub)), key=lambda i: (i * r[2] * 7919) % 1)
            n = 1 + int(r[3] * min(3, len(ub)))
            groups = [[ub[i] for i in order[j::n]] for j in range(n)]
            groups = [g for g in groups if g]
            if r[4] < 0.3 and len(groups) > 1:
                groups = groups[:-1]
            if r[5] < 0.3:
                groups = [[tup(b) for b in g] for g in groups]
            a["blpair_groups"] = groups
            if r[6] < 0.3:
                a["blpair_weights"] = [[float(1 + int(10 * ((i + r[6]) * 3.7 % 1))) for i in range(len(g))] for g in groups]
        st = sorted(getattr(u, "stats_array", {}))
        if st and r[7] < 0.5:
            a["error_field"] = st if r[8] < 0.5 else st[0]
        if st and r[9] < 0.25:
            a["error_weights"] = st[-1]
        isbad = None
        if bad is not None:
            isbad = ["stat", "weights", "zero", "blpair", "type", "wnog", "ew", "empty"][bad % 8]
            g = a.get("blpair_groups") or [ub]
            if isbad == "stat":
                a["error_field"] = "nonsense"
            elif isbad == "weights":
                a["blpair_groups"], a["blpair_weights"] = g, [[1.0] * (len(g[0]) + 1)] + [[1.0] * len(x) for x in g[1:]]
            elif isbad == "zero":
                a["blpair_groups"] = g
                a["blpair_weights"] = [[1.0] * len(x) for x in g[:-1]] + [[0.0] * len(g[-1])]
            elif isbad == "blpair":
                a["blpair_groups"] = [[190190190190]]
                a.pop("blpair_weights", None)
            elif isbad == "type":
                a["blpair_groups"] = 5
            elif isbad == "wnog":
                a.pop("blpair_groups", None)
                a["blpair_weights"] = [[1.0]]
            elif isbad == "ew":
                a["error_weights"] = 3
            elif isbad == "empty":
                a["blpair_groups"] = [[]]
        if r[10] < 0.5:
            return B(lambda v, ip: v.average_spectra(inplace=ip, **a), a.values(), True, bad=isbad)
        return B(lambda v, ip: (lambda x: None if ip else x)(hp.grouping.average_spectra(v, inplace=ip, **a)),
                 a.values(), True, bad=isbad)

    if k == "fold":
        isbad = "folded" if bool(u.folded) else None
        if r[0] < 0.5:
            return B(lambda v, ip: _inpl(v, ip, lambda w: w.fold_spectra()), (), "only", bad=isbad)
        return B(lambda v, ip: _inpl(v, ip, lambda w: hp.grouping.fold_spectra(w)), (), "only", bad=isbad)

    if k == "deltasq":
        isbad = None if hasattr(u, "cosmo") else "nocosmo"
        return B(lambda v, ip: v.convert_to_deltasq(inplace=ip), (), True, bad=isbad)

    if k == "noise":
        a = dict(spw=int(r[0] * nspw), polpair=pols[int(r[1] * len(pols))], Tsys=100.0 + r[2],
                 little_h=r[3] < 0.7, form="Pk" if r[4] < 0.6 else "DelSq", num_steps=200,
                 component=["real", "imag", "abs"][int(r[5] * 3)])
        if r[6] < 0.4:
            a["blpairs"] = [tup(b) for b in _pick(r[7], ub)] if r[8] < 0.5 else _pick(r[7], ub)
        if r[9] < 0.3:
            a["Tsys"] = {b: np.full(int(u.Ntpairs), 80.0 + i) for i, b in enumerate(ub)}
        isbad = None
        if not hasattr(u, "cosmo") or not hasattr(u, "OmegaP"):
            isbad = "nobeam"
        elif bad is not None:
            isbad = "pol"
            a["polpair"] = 1818
        return B(lambda v, ip: v.generate_noise_spectra(**a), a.values(), False, bad=isbad, ret="dict")

    if k == "compute_scalar":
        a = dict(spw=int(r[0] * nspw), polpair=pols[int(r[1] * len(pols))], num_steps=200, little_h=r[2] < 0.5,
                 noise_scalar=r[3] < 0.5)
        isbad = None if hasattr(u, "cosmo") and hasattr(u, "OmegaP") else "nobeam"
        return B(lambda v, ip: v.compute_scalar(**a), (), False, bad=isbad, ret="num")

    if k == "set_stats":
        s, b, p = int(r[0] * nspw), ub[int(r[1] * len(ub))], pols[int(r[2] * len(pols))]
        sh = (int(np.sum(np.asarray(u.blpair_array) == b)), u.data_array[int(u.spw_array[s])].shape[1])
        val = np.add.outer(np.arange(sh[0]), np.arange(sh[1])) * (0.1 + r[3]) + 1
        if r[4] < 0.5:
            val = val + 1j * val
        name = ["P_N", "mystat", "bs_std"][int(r[5] * 3)]
        key = (s, tup(b) if r[6] < 0.5 else b, p)
        isbad = None
        if bad is not None:
            isbad = ["shape", "key", "pol", "spw"][bad % 4]
            if isbad == "shape":
                val = val[:, :-1]
            elif isbad == "key":
                key = (s, 190190190190, p)
            elif isbad == "pol":
                key = (s, b, 1818)
            else:
                key = (nspw + 2, b, p)
        return B(lambda v, ip: _inpl(v, ip, lambda w: w.set_stats(name, key, val)), [val], "only", bad=isbad)

    if k == "set_stats_slice":
        st = sorted(getattr(u, "stats_array", {}))
        name = st[int(r[0] * len(st))] if st else "P_N"
        isbad = None if st else "nostats"
        if st and bad is not None:
            isbad, name = "stat", "nonsense"
        if bool(u.folded):
            isbad = isbad or "maybe"
        m, b, ab = r[1] * 5, r[2] * 2000, r[3] < 0.5
        return B(lambda v, ip: _inpl(v, ip, lambda w: w.set_stats_slice(name, m, b, above=ab, val=1e20)), (), "only", bad=isbad)

    if k == "approx_cov":
        st = sorted(getattr(u, "stats_array", {}))
        name = st[0] if st else "P_N"
        tp = "blackmanharris" if r[0] < 0.7 else "hann"
        isbad = None if st else "nostats"
        if st and bad is not None:
            isbad = ["stat", "taper"][bad % 2]
            if isbad == "stat":
                name = "nonsense"
            else:
                tp = "notawindow"
        if any(int(np.sum(np.asarray(u.spw_freq_array) == s)) != u.data_array[s].shape[1] for s in range(nspw)):
            isbad = isbad or "maybe"
        return B(lambda v, ip: (lambda x: None if ip else x)(
            v.add_approximate_covariance(variance_stat=name, inplace=ip, taper=tp)), (), True, bad=isbad)

    if k == "set_cosmo":
        pars = dict(om_L=0.6 + 0.1 * r[0], om_b=0.05, om_c=0.35 - 0.1 * r[0], H0=60 + 20 * r[1])
        new = dict(pars) if r[2] < 0.5 else hp.conversions.Cosmo_Conversions(**pars)
        ow = r[3] < 0.7
        isbad = None
        beam = None
        if r[4] < 0.3:
            F = 100e6 + 1e6 * np.arange(8)
            beam = hp.pspecbeam.PSpecBeamFromArray({q: 0.05 + r[5] * 0.02 + 0 * F for q in ("xx", "yy", "pI", "pQ")},
                                                   {q: 0.03 + 0.001 * np.arange(8) for q in ("xx", "yy", "pI", "pQ")}, F)
            if not all(q in (1515, 1414, 2121, 2222) for q in pols):
                isbad = "maybe"
        if not hasattr(u, "OmegaP") and beam is None:
            isbad = "noop"
        if bad is not None and isbad is None:
            new, ow = dict(pars, om_L="zero") if bad % 2 else dict(pars, H0=None), True
            isbad = "params"
        if not ow and hasattr(u, "cosmo"):
            isbad = "noop"
        return B(lambda v, ip: _inpl(v, ip, lambda w: w.set_cosmology(new, overwrite=ow, new_beam=beam, verbose=False)),
                 [new] + ([beam.beam_freqs, beam.OmegaP] if beam is not None else []), "only", bad=isbad)

    if k in ("spherical", "exact_sph"):
        nk = 3 + int(r[0] * 3)
        kb = np.linspace(0.1, 2.5, nk)
        wd = np.full(nk, (kb[1] - kb[0]) * 0.999) if r[1] < 0.5 else float((kb[1] - kb[0]) * 0.999)
        A = {}
        isbad = None
        if not hasattr(u, "cosmo"):
            isbad = "nocosmo"
        if bool(u.folded) or _irregular(u) or not hasattr(u, "window_function_array") or (hasattr(u, "window_function_array") and not u.exact_windows
                                               and _odd_wf(u)):
            isbad = isbad or "maybe"
        if k == "exact_sph":
            edges = np.concatenate([kb - (kb[1] - kb[0]) / 2, kb[-1:] + (kb[1] - kb[0]) / 2])
            a = dict(little_h=r[2] < 0.5)
            if r[3] < 0.5:
                a["kbin_edges_theory"] = edges + 0.001 if r[3] < 0.3 else edges * 40
            if not u.exact_windows:
                isbad = "notexact"
            if hasattr(u, "window_function_array") is False:
                isbad = isbad or "maybe"
            isbad = isbad or ("maybe" if nspw > 1 else None)
            return B(lambda v, ip: hp.grouping.spherical_wf_from_uvp(v, edges, **a), [edges] + list(a.values()), False,
                     bad=isbad or "maybe", ret="dict")
        a = dict(little_h=r[2] < 0.7, time_avg=r[3] < 0.3)
        if r[4] < 0.3:
            a["blpair_groups"] = [ub[:1], ub[1:]] if len(ub) > 1 else [ub]
        if hasattr(u, "stats_array") and r[5] < 0.3:
            a["error_weights"] = sorted(u.stats_array)[0]
        if hasattr(u, "cov_array_real") and r[6] < 0.3:
            a["weight_by_cov"] = True
            isbad = isbad or "maybe"
        if r[7] < 0.5:
            a["A"] = A
        if bool(u.exact_windows):
            isbad = isbad or "maybe"
        if bad is not None:
            isbad = ["overlap", "len", "A"][bad % 3]
            if isbad == "overlap":
                wd = 5.0
            elif isbad == "len":
                wd = np.ones(nk + 1) * 0.01
            else:
                a["A"] = []
        w = [kb, wd] + [v for n, v in a.items() if n != "A"]
        return B(lambda v, ip: hp.grouping.spherical_average(v, kb, wd, **a), w, False, bad=isbad)

    if k == "exact":
        f = 100e6 + 1e5 * np.arange(64)
        isbad = None if hasattr(u, "cosmo") else "maybe"     # (a fiducial cosmology is used then)
        if bool(u.folded) or len(ub) * len(times) > 12:
            isbad = "maybe"
        if bad is not None:
            isbad = ["type", "freq", "orient", "spw"][bad % 4]
        ft = 5 if isbad == "type" else hp.uvwindow.FTBeam.gaussian(f + 1e6 if isbad == "freq" else f, 8.0 + 4 * r[0], "xx", npix=11)
        a = dict(ftbeam=ft, x_orientation=3 if isbad == "orient" else None)
        if r[1] < 0.25 or isbad == "spw":
            a["spw_array"] = [nspw + 2] if isbad == "spw" else int(r[2] * nspw) if r[3] < 0.5 else [int(r[2] * nspw)]
        if isbad == "freq" or not hasattr(u, "cosmo"):
            isbad = "maybe"
        if "spw_array" in a and (nspw > 1 or isbad):
            return B(lambda v, ip: v.get_exact_window_functions(inplace=ip, **a), a.values(), False, bad=isbad, ret="other")

        def exact(v, ip):
            if ip:
                h = v.history
                v.get_exact_window_functions(inplace=True, add_to_history="exact", **a)
                v.history = "Computed exact window functions" + h
                return
            w = copy.deepcopy(v)
            w.window_function_kperp, w.window_function_kpara, w.window_function_array = v.get_exact_window_functions(inplace=False, **a)
            w.exact_windows = True
            w.history = "Computed exact window functions" + w.history
            return w
        return B(exact, a.values(), True, bad=isbad)

    if k == "bias":
        a = {}
        isbad = None
        for n, x, y in (("total_bias", r[0], r[1]), ("data_bias", r[2], r[3])):
            if x < 0.7:
                a[n] = {q: 1.0 + y + 0.1 * q for q in range(nspw)}
        if bad is not None:
            isbad = "window"
            n = ["total_bias", "data_bias"][bad % 2]
            a[n] = {q: 2.0 for q in range(nspw - 1)}
        return B(lambda v, ip: (lambda x: None if ip else x)(hp.loss.apply_bias_correction(v, inplace=ip, **a)),
                 a.values(), True, bad=isbad)

    if k == "delay_bins":
        ker = np.ones(2) if r[0] < 0.5 else np.array([1.0, 2.0, 1.0])
        zk = np.ones(1) if r[1] < 0.5 else np.array([1.0, 3.0, 1.0])
        isbad = "maybe"
        if bad is not None:
            isbad = ["dim", "big", "asym"][bad % 3]
            if isbad == "dim":
                ker = np.ones((2, 2))
            elif isbad == "big":
                ker = np.ones(50)
            else:
                zk = np.array([1.0, 2.0, 4.0])
        return B(lambda v, ip: hp.grouping.average_in_delay_bins(v, ker, zero_bin_kernel=zk), [ker, zk], False, bad=isbad)

    if k in ("boot_avg", "boot_err"):
        groups = [ub[: max(1, len(ub) // 2)], ub[max(1, len(ub) // 2):]]
        groups = [g for g in groups if g]
        if r[0] < 0.3:
            groups = [[tup(b) for b in g] for g in groups]
        isbad = "maybe" if bool(u.folded) or _irregular(u) else None
        if bool(u.exact_windows):
            isbad = "maybe"
        if bad is not None:
            isbad = "missing"
            groups = [[190190190190]]
        seed = int(r[1] * 1000)
        if k == "boot_avg":
            if second is not None and r[2] < 0.4:
                return B(lambda v, ip: hp.grouping.bootstrap_average_blpairs([v, second], groups, time_avg=True, seed=seed),
                         [groups], False, others=[second], bad=isbad or "maybe", ret="boot")
            return B(lambda v, ip: hp.grouping.bootstrap_average_blpairs(v, groups, time_avg=r[3] < 0.5, seed=seed),
                     [groups], False, bad=isbad, ret="boot")
        ci = [16.0, 84.0]
        return B(lambda v, ip: hp.grouping.bootstrap_resampled_error(
            v, blpair_groups=groups, time_avg=r[3] < 0.5, Nsamples=3, seed=seed, robust_std=r[4] < 0.5, cintervals=ci),
            [groups, ci], False, bad=isbad, ret="boot")

    if k == "noise_error":
        tsys = Tsys(u, missing=(bad is not None and bad % 2 == 0))
        isbad = "maybe" if bool(u.folded) or _irregular(u) or _averaged(u) else None
        if not (hasattr(u, "cosmo") and hasattr(u, "OmegaP")):
            isbad = "nobeam"
        et = [["P_N"], ["P_N", "P_SN"], "P_N"][int(r[0] * 3)]
        if bad is not None and isbad is None:
            isbad = "ant" if bad % 2 == 0 else "type"
            if isbad == "type":
                tsys = None
        return B(lambda v, ip: _inpl(v, ip, lambda w: hp.utils.uvp_noise_error(w, tsys, err_type=et, num_steps_scalar=100,
                                                                               P_SN_correction=r[1] < 0.7)),
                 [et], "only", bad=isbad)

    if k == "psn_corr":
        st = getattr(u, "stats_array", {})
        isbad = None if "P_N" in st and "P_SN" in st else "nostats"
        return B(lambda v, ip: _inpl(v, ip, lambda w: hp.utils.apply_P_SN_correction(w)), (), "only", bad=isbad)

    if k in MULTI:
        w = second if second is not None else copy.deepcopy(u)
        if k == "subtract":
            return B(lambda v, ip: hp.uvpspec_utils.subtract_uvp(v, w), (), False, others=[w], bad="maybe")
        if k == "common":
            fl = dict(spws=r[0] < 0.8, blpairs=r[1] < 0.8, times=r[2] < 0.6, polpairs=r[3] < 0.8)
            lst = [u, w]
            return B(lambda v, ip: hp.uvpspec_utils.select_common([v, w], inplace=False, **fl), (), False, others=[w],
                     bad="maybe", ret="uvps")
        if k == "combine":
            if r[5] < 0.15:
                return B(lambda v, ip: hp.uvpspec.combine_uvpspec([v], verbose=False), (), False)
            return B(lambda v, ip: hp.uvpspec.combine_uvpspec([v, w], verbose=False), (), False, others=[w], bad="maybe")
        if k == "recombine":
            if r[5] < 0.15:
                return B(lambda v, ip: hp.uvpspec.recursive_combine_uvpspec([v]), (), False)
            return B(lambda v, ip: hp.uvpspec.recursive_combine_uvpspec([v, w]), (), False, others=[w], bad="maybe")
        if k == "add":
            return B(lambda v, ip: v + w, (), False, others=[w], bad="maybe")
        return B(lambda v, ip: hp.uvpspec.get_uvp_overlap([v, w], just_meta=r[0] < 0.5, verbose=False)[1], (), False,
                 others=[w], bad="maybe", ret="other")

    if k == "getters":
        s, b, p = int(r[0] * nspw), ub[int(r[1] * len(ub))], pols[int(r[2] * len(pols))]
        key = (s, tup(b), p)
        key2 = dict(spw=s, blpair=tup(b), polpair=p)
        blg = [[int(x) for x in np.asarray(u.bl_array)[:2]], [int(x) for x in np.asarray(u.bl_array)[2:]]]
        blg = [g for g in blg if g]

        def go(v, ip):
            out = [v.get_data(key), v.get_wgts(key), v.get_integrations(key), v.get_nsamples(key), v.get_dlys(s),
                   v.get_blpair_seps(), v.get_blpair_blvecs(), v.get_blpairs(), v.get_polpairs(), v.get_all_keys(),
                   v.get_spw_ranges(), v.get_spw_ranges(s), v.get_data(key2, omit_flags=True), str(v), v.units,
                   v.get_ENU_bl_vecs(), v.get_r_params(), v == v, v.spw_indices(s), v.blpair_to_indices(b),
                   v.polpair_to_indices(p), v.spw_to_freq_indices(s), v.spw_to_dly_indices(s),
                   v.key_to_indices(key), v.key_to_indices(key2), v.blpair_to_indices(ub), v.blpair_to_indices([tup(x) for x in ub]),
                   v.polpair_to_indices(pols), v.spw_indices(list(range(nspw))),
                   v.time_to_indices(times[0]), v.time_to_indices(times[-1], blpairs=[tup(b)]),
                   v.get_blpair_groups_from_bl_groups(blg, only_pairs_in_bls=r[3] < 0.5), v.get_red_bls(), v.get_red_blpairs()]
            if hasattr(v, "stats_array"):
                out += [v.get_stats(n, key) for n in sorted(v.stats_array)]
            if hasattr(v, "cov_array_real"):
                out += [v.get_cov(key), v.get_cov(key, component="imag")]
            if hasattr(v, "window_function_array"):
                out.append(v.get_window_function(key))
            if hasattr(v, "cosmo"):
                out += [v.get_kperps(s), v.get_kparas(s)]
            return out
        return B(go, [key2], False, bad="maybe", ret="other")

    if k == "write":
        return B(lambda v, ip: v.write_hdf5("w.h5", overwrite=True), (), False, ret="other")

    if k == "copy":
        return B(lambda v, ip: copy.deepcopy(v), (), False)
    raise ValueError(k)


def _inpl(v, ip, f):
    """Operations that only exist in place: on a copy when ip is false."""
    if ip:
        f(v)
        return None
    w = copy.deepcopy(v)
    f(w)
    return w


def _irregular(u):
    """Baseline-pairs with different numbers of times."""
    _, n = np.unique(np.asarray(u.blpair_array), return_counts=True)
    return len(set(n.tolist())) > 1 or n[0] != u.Ntpairs


def _odd_wf(u):
    return any(u.window_function_array[s].shape[1] != u.data_array[s].shape[1] for s in u.data_array)


def _averaged(u):
    return "averaged" in str(u.history)


class Tsys:
    """Stand-in for a UVData object of autocorrelation temperatures (only what the noise estimate reads)."""

    def __init__(self, u, missing=False):
        self.freq_array = np.unique(np.concatenate([fx.F0 + fx.DF * np.arange(64)])) if hasattr(fx, "F0") else \
            100e6 + 1e5 * np.arange(64)
        t = np.unique(np.concatenate([np.asarray(u.time_1_array), np.asarray(u.time_2_array)]))
        tt, ll = [], []
        for x in t:
            tt.append(x)
            i = np.where(np.asarray(u.time_1_array) == x)[0]
            ll.append(np.asarray(u.lst_1_array)[i[0]] if len(i) else
                      np.asarray(u.lst_2_array)[np.where(np.asarray(u.time_2_array) == x)[0][0]])
        o = np.argsort(tt)
        self.t, self.lst = np.array(tt)[o], np.array(ll)[o]
        self.time_array, self.lst_array = self.t, self.lst
        self.ants = sorted({a for b in blps(u) for bl in u.blpair_to_antnums(b) for a in bl})
        if missing:
            self.ants = self.ants[:-1]

    def antpair2ind(self, a, b):
        if a not in self.ants:
            raise KeyError(f"antenna {a} not in Tsys")
        return slice(0, len(self.t))

    def get_data(self, a, b, pol):
        if a not in self.ants:
            raise KeyError(f"antenna {a} not in Tsys")
        k = np.round((self.t - 2458042.1) * 1e4)
        return (100 + (a % 17) + 3 * (k[:, None] % 11) + 0.1 * np.arange(len(self.freq_array))[None]) + 0j

    def get_flags(self, a, b, pol):
        return np.zeros((len(self.t), len(self.freq_array)), bool)


# ---------------------------------------------------------------- results
def result_norm(x, skip=()):
    """Comparable form of whatever an operation returned."""
    if hasattr(x, "blpair_array"):
        return ("uvp", tuple(sorted(fx.state(x, skip).items())))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(result_norm(y, skip) for y in x))
    if isinstance(x, dict):
        return ("map", tuple(sorted(((repr(k), result_norm(v, skip)) for k, v in x.items()))))
    if isinstance(x, slice):
        return ("slice", repr(x))
    return fx._norm(x)


def uvps_in(x):
    """Spectrum objects contained in a result."""
    if hasattr(x, "blpair_array"):
        return [x]
    if isinstance(x, (list, tuple)):
        return [u for y in x for u in uvps_in(y)]
    if isinstance(x, dict):
        return [u for y in x.values() for u in uvps_in(y)]
    return []


def describe(op):
    return op["k"] + (f" (bad {op['bad']})" if op.get("bad") is not None else "")
