"""Operations on visibility data, beams and whole estimators that are asked for new objects or values (C14, C15)."""
import copy
import warnings

import numpy as np

from sim import fx, vis
from sim.core import Violation
from . import c16, est

KINDS = ["Tsys", "Tsys", "Tsys", "tdiff", "dstdiff", "stokes", "stokes", "filter", "noise_sim", "sky_sim", "from_data", "blpairs",
         "validate", "reds", "bpreds", "autovar", "spws", "rephase", "add", "PN", "sens", "beamarr", "scalar", "ftbeam",
         "noise_error", "covs", "plots", "plots", "plots", "uvplot", "exact", "groups"]


def gen(rng, i):
    s = vis.gen_data(rng, 2, pols=rng.choice([["xx"], ["xx", "yy"], ["xx", "yy"], ["yy", "xx"], ["xx", "yy", "xy", "yx"]]))
    s.update(ants=s["ants"][:3], nt=rng.choice([2, 3, 4, 5]), units="Jy")
    p = dict(vdata=s, sel=rng.choice(["", "", "autos", "cross", "onepol"]), ops=[])
    for _ in range(rng.choice([1, 2, 3])):
        o = dict(k=rng.choice(KINDS), r=[round(rng.random(), 6) for _ in range(6)], x=rng.randrange(1000))
        r = rng.random()
        if r < 0.5:
            o["faults"] = [dict(ev="line", at=int(10 ** rng.uniform(0, rng.choice([1, 2, 3]))), do=rng.choice(["KeyboardInterrupt", "MemoryError"]))]
        elif r < 0.6:
            o["faults"] = [dict(ev=rng.choice(["h5w", "open", "fs"]), at=rng.randint(1, 10), do="EIO")]
        p["ops"].append(o)
    return p


class World:
    def __init__(self, hp, p):
        s = self.s = p["vdata"]
        self.hp = hp
        self.uvds = [vis.make_uvd(dict(s, tag=t)) for t in s["tags"]]
        for u in self.uvds:
            u.vis_units = s["units"]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if p["sel"] == "autos":
                    u.select(bls=[(a, a) for a in s["ants"]])
                elif p["sel"] == "cross":
                    u.select(bls=[b for b in u.get_antpairs() if b[0] != b[1]])
                elif p["sel"] == "onepol":
                    u.select(polarizations=[u.polarization_array[0]])
        self.beam = vis.make_beam(hp, s["beam"] or "array", hp.conversions.Cosmo_Conversions(Om_L=0.7, Om_M=0.3))
        self.beam.x_orientation = "east"
        self.uvp = None
        self.bls = [tuple(int(x) for x in b) for b in self.uvds[0].get_antpairs()]

    def spectra(self):
        if self.uvp is None:
            s = dict(tag=3, times=list(range(2)), spws=[[0, 6], [8, 4]], pols=[1515, 1414], cosmo=True, units="mK",
                     blpairs=[[[1, 2], [1, 2]], [[1, 2], [2, 3]], [[1, 3], [1, 3]]], stats=["P_N"], beam=True)
            self.uvp = fx.make_uvp(self.hp, s)
        return self.uvp


class Op:
    """do() computes; inputs() takes a snapshot of everything handed in; out: what belongs to the caller afterwards."""

    def __init__(self, do, *inputs, returns_inputs=False):
        self.do, self.given, self.returns_inputs = do, list(inputs), returns_inputs

    def inputs(self):
        w = {}
        for i, x in enumerate(self.given):
            for k, v in look(x).items():
                w[f"{i}.{k}"] = v
        return w


def look(x):
    if hasattr(x, "baseline_array") and hasattr(x, "data_array") and hasattr(x, "telescope"):
        w = vis.uvd_state(x)
        w["phase"] = fx._norm({str(k): dict(v) for k, v in (x.phase_center_catalog or {}).items()})
        return w
    if hasattr(x, "blpair_array"):
        return fx.state(x)
    if hasattr(x, "dsets"):
        return est.ds_state(x)
    if hasattr(x, "power_beam_int") and hasattr(x, "cosmo"):
        return est.beam_state(x)
    if hasattr(x, "ft_beam"):
        return {k: fx._norm(v) for k, v in vars(x).items()}
    return {"arg": fx._norm(x)}


def bind(W, o):
    hp, s, r = W.hp, W.s, o["r"]
    U, V = W.uvds
    pick = lambda l, j: l[int(r[j] * len(l))]
    k = o["k"]
    if k == "Tsys":
        beam = pick([W.beam, W.beam, W.beam, W.spectra(), 7], 0)
        out = f"tsys{o['x']}.uvh5" if r[1] < 0.3 else None
        return Op(lambda: hp.utils.uvd_to_Tsys(U, beam, out), U, beam)
    if k == "tdiff":
        return Op(lambda: hp.utils.uvd_time_difference(U, pick([1.0, 10.7, 20.0, 100.0], 0)), U)
    if k in ("dstdiff", "rephase", "covs", "exact"):
        ds = est.quiet(lambda: vis.make_ds(hp, s))
        if k == "dstdiff":
            return Op(lambda: hp.utils.pspecdata_time_difference(ds, pick([1.0, 10.7, 100.0], 0)), ds)
        if k == "exact":
            ft = hp.uvwindow.FTBeam.gaussian(vis.FREQ0 + vis.DFREQ * np.arange(s["nf"]), 9.0, "xx", npix=9)
            bls, pp = [(s["ants"][0], s["ants"][1])], [(q, q) for q in s["pols"][:2]]
            sp = [(2, 8), (1, 6)] if r[0] < 0.3 else [(2, 8)]
            return Op(lambda: ds.pspec(bls, bls, (0, 1), pp, spw_ranges=sp, exact_windows=True, ftbeam=ft if r[1] < 0.95 else 3, verbose=False), ds, ft, bls, pp, sp)
        if k == "covs":
            a, b = (s["ants"][0], s["ants"][1]), (s["ants"][1], s["ants"][2])
            keys = (0,) + pick([a, b], 0) + (s["pols"][0],), (1,) + pick([a, b], 1) + (s["pols"][0],)

            def covs():
                ds.set_spw((2, 12))
                if r[2] < 0.3:
                    return ds.x(keys[0]), ds.w(keys[1]), ds.dx(keys[0])
                if r[2] < 0.6:
                    return ds.C_model(keys[0], model=pick(["empirical", "dsets", "autos"], 3), time_index=0)
                return ds.cov_q_hat(keys[0], keys[1], model=pick(["empirical", "dsets", "autos"], 3), time_indices=[0])
            return Op(covs, ds)
        return Op(lambda: ds.rephase_to_dset(pick([0, 1, "set1"], 0), inplace=False), ds)
    if k == "add":
        ws = [None, vis.make_wgt(s, V)] if r[0] < 0.5 else [None, None]
        if s["units"] != "Jy" and r[1] < 0.3:
            return Op(lambda: hp.PSpecData([U, V], ws, beam=W.beam), U, V, W.beam, *[w for w in ws if w is not None])
        labels = ["a", "b"]
        lists = [[U, V], ws]

        def add():
            d = hp.PSpecData(lists[0], lists[1], labels=labels, beam=W.beam)
            if r[2] < 0.5:
                d.add([U], [None])
            return None
        return Op(add, U, V, W.beam, labels, *[w for w in ws if w is not None])
    if k == "stokes":
        return Op(lambda: hp.pstokes.construct_pstokes(U, pick([U, V], 0), pstokes=pick(["pI", "pQ", "pU", "pV", 1, 2], 1),
                                                       run_check=r[2] < 0.5, history="more"), U, V)
    if k == "groups":
        bls = list(W.bls)
        if r[0] < 0.5:
            return Op(lambda: hp.grouping.group_baselines(bls, 1 + int(r[1] * 3), keep_remainder=r[2] < 0.5, randomize=r[3] < 0.8, seed=pick([None, 3], 4)), bls)
        grps = [bls[:2], bls[2:]] if r[1] < 0.5 else bls
        return Op(lambda: hp.grouping.sample_baselines(grps, seed=pick([None, 3], 4)), grps)
    if k == "filter":
        one = [U.select(polarizations=[int(q)], inplace=False) for q in U.polarization_array]
        return Op(lambda: hp.pstokes.filter_dset_on_stokes_pol(one, pick(["pI", "pQ", "pU"], 0)), *one, returns_inputs=True)
    if k == "noise_sim":
        return Op(lambda: hp.testing.noise_sim(U, 300.0, beam=pick([None, W.beam], 0), Nextend=pick([0, 0, 1, 2], 1), seed=pick([None, 3], 2),
                                               inplace=False, whiten=r[3] < 0.5, run_check=False), U, W.beam)
    if k == "sky_sim":
        return Op(lambda: hp.testing.sky_noise_sim(U, c16.SkyBeam(), constant_per_bl=r[0] < 0.5, constant_in_time=r[1] < 0.5,
                                                   bl_loop_seed=3, divide_by_nsamp=r[2] < 0.5), U)
    cross = [b for b in W.bls if b[0] != b[1]] or [(0, 1)]
    if k == "from_data":
        kw = dict(beam=W.beam, spw_ranges=[(0, 8)], taper="blackman-harris")
        grps = [cross[:2]]
        std = vis.make_uvd(dict(s, tag=200), "std") if r[0] < 0.4 else None
        if std is not None:
            std.vis_units = U.vis_units
            kw["data_std"] = std
        return Op(lambda: hp.testing.uvpspec_from_data(U, grps, **kw), U, grps, W.beam, kw["spw_ranges"], *([std] if std is not None else []))
    if k == "blpairs":
        bls = list(W.bls)
        return Op(lambda: hp.utils.construct_blpairs(bls, exclude_auto_bls=r[0] < 0.5, exclude_cross_bls=r[1] < 0.3, exclude_permutations=r[2] < 0.5,
                                                     group=r[3] < 0.5, Nblps_per_group=2), bls)
    if k == "validate":
        l = [(cross[0], cross[-1]), [(cross[0], cross[0])]]
        return Op(lambda: hp.pspecdata.validate_blpairs(l, U, V, baseline_tol=pick([1.0, 30.0], 0), verbose=False), l, U, V)
    if k == "reds":
        pos = {a: np.array([vis.POS[a][0], vis.POS[a][1], 0.0]) for a in s["ants"]}
        x = pick([U, pos, pos], 0)
        xa, lr = pick([None, [1], [77]], 1), [0, 40.0]
        return Op(lambda: hp.utils.get_reds(x, pick_data_ants=r[2] < 0.5, bl_len_range=lr, xants=xa, add_autos=r[3] < 0.5,
                                            autos_only=r[4] < 0.3, min_EW_cut=pick([0, 10], 5)), x, xa, lr)
    if k == "bpreds":
        xa = pick([None, [1], [77]], 1)
        return Op(lambda: hp.utils.calc_blpair_reds(U, V, filter_blpairs=r[0] < 0.7, xants=xa, exclude_auto_bls=r[2] < 0.4, exclude_permutations=r[3] < 0.5,
                                                    Nblps_per_group=pick([None, 1, 2], 4), include_autocorrs=r[5] < 0.4, extra_info=r[5] < 0.6), U, V, xa)
    if k == "autovar":
        b = cross[0] + (pick(s["pols"], 0),)
        return Op(lambda: hp.utils.variance_from_auto_correlations(U, b, (2, 12), int(r[1] * s["nt"])), U)
    if k == "spws":
        rg = [(150.2e6, 150.9e6), (151.0e6, 151.3e6)] if r[0] < 0.5 else (150.2e6, 150.9e6)
        z = [(8.38, 8.42), (8.43, 8.44)]
        if r[1] < 0.5:
            return Op(lambda: hp.utils.spw_range_from_freqs(U, rg, bounds_error=r[2] < 0.5), U, rg)
        return Op(lambda: hp.utils.spw_range_from_redshifts(U, z, bounds_error=r[2] < 0.5), U, z)
    if k == "PN":
        kk, T = np.linspace(0.1, 1, 5), np.linspace(200.0, 300, 5)
        return Op(lambda: hp.noise.calc_P_N(1e9, T, pick([10.0, np.array([10.0])], 0), Ncoherent=2, Nincoherent=pick([None, 3], 1), form=pick(["Pk", "DelSq"], 2), k=kk,
                                            component=pick(["real", "abs"], 3)), kk, T)
    if k == "sens":
        f = np.linspace(140e6, 150e6, 10)
        c = {"Om_L": 0.7, "Om_M": 0.3}

        def sens():
            x = hp.noise.Sensitivity(cosmo=c)
            x.set_beam(copy.deepcopy(W.beam))          # takes over the cosmology, as documented
            x.calc_scalar(f, pick(["xx", "yy"], 0), num_steps=20)
            kk = np.linspace(0.1, 1, 5)
            return x.calc_P_N(300.0, 10.0, form="DelSq", k=kk)
        return Op(sens, f, c)
    if k == "beamarr":
        f = np.linspace(100e6, 200e6, 11)
        P, PP, F = {1: 0.05 * (f / 150e6) ** -2, -5: 0.06 * (f / 150e6) ** -2}, {1: 0.02 + 0 * f, -5: 0.03 + 0 * f}, f
        if r[4] < 0.4:
            P, PP = ({"pI": q[1], "XX": q[-5]} for q in (P, PP))
        if r[0] < 0.2:
            PP.pop(next(iter(PP)))
        if r[5] < 0.15:
            P, PP = list(P.values())[0], list(PP.values())[0]
        extra = [0.07 + 0 * f, 0.04 + 0 * f]

        def beamarr():
            b = hp.pspecbeam.PSpecBeamFromArray(P, PP, F)
            if r[1] < 0.5:
                b.add_pol(pick(["yy", "xx", 2], 2), *extra)
            return b.Jy_to_mK(F, pol=pick(["pI", "xx", "yy"], 3))
        return Op(beamarr, P, PP, F, extra)
    if k == "scalar":
        f = np.linspace(145e6, 155e6, 20)
        pol = pick(["xx", "yy", "pI"], 0)
        if r[1] < 0.4:
            return Op(lambda: W.beam.Jy_to_mK(pick([f, 150e6, list(f)], 2), pol=pol), W.beam, f)
        if r[1] < 0.7:
            pp = [(pol, pol), (pol, "yy")]
            return Op(lambda: W.beam.get_Omegas(pp), W.beam, pp)
        return Op(lambda: W.beam.compute_pspec_scalar(145e6, 155e6, 20, pol=pol, taper="blackman-harris", noise_scalar=r[3] < 0.5), W.beam)
    if k == "ftbeam":
        f, w = 150e6 + 1e5 * np.arange(12), np.linspace(10, 11, 12)
        ft = hp.uvwindow.FTBeam.gaussian(f, w, "pI", npix=31)
        co = hp.conversions.Cosmo_Conversions()
        lens, kb = np.array([14.6, 29.2]), np.linspace(0.1, 2, 6)

        def wf():
            if r[0] < 0.3:
                return hp.uvwindow.FTBeam.gaussian(f, w, "pI", npix=31)
            x = hp.uvwindow.UVWindow([ft, ft] if r[1] < 0.5 else ft, taper=pick([None, "blackman-harris"], 2), cosmo=co)
            if r[0] < 0.6:
                return x.get_cylindrical_wf(14.6)
            return x.get_spherical_wf(kb * x.kunits, lens, bl_weights=pick([None, [1, 2]], 3))
        return Op(wf, f, w, ft, lens, kb, repr(co))
    if k == "noise_error":
        uvp, T = noise_inputs(W)
        et = ["P_N", "P_SN"]
        return Op(lambda: hp.utils.uvp_noise_error(uvp, T, err_type=et, num_steps_scalar=20), T, et)
    if k == "plots":
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        u = W.spectra()
        bp = [((1, 2), (1, 2)), ((1, 2), (2, 3))]
        bp = bp if r[0] < 0.5 else [bp]
        t = pick([None, None, list(u.time_avg_array[:1])], 5)
        comp = pick(["real", "abs-real", "imag", "abs-imag", "abs"], 5)
        kw = dict(fold=r[1] < 0.4, delay=r[2] < 0.5, deltasq=r[3] < 0.5)

        def plots():
            try:
                if r[4] < 0.4:
                    hp.plot.delay_spectrum(u, bp, 0, ("xx", "xx"), component=comp, average_blpairs=r[0] < 0.3, average_times=r[5] < 0.4, times=t, error="P_N" if r[0] < 0.2 else None, **kw)
                elif r[4] < 0.7:
                    hp.plot.delay_waterfall(u, bp, 0, ("xx", "xx"), average_blpairs=r[0] < 0.3, times=t, component=comp, **kw)
                else:
                    hp.plot.delay_wedge(u, 0, ("xx", "xx"), component=comp, **kw)
            finally:
                plt.close("all")
        return Op(plots, u, bp, t)
    if k == "uvplot":
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        one = U.select(bls=[W.bls[0]], polarizations=[U.polarization_array[0]], inplace=False)

        def uvplot():
            try:
                hp.plot.plot_uvdata_waterfalls(one, "plot.{pol}.{bl}", data=pick(["data", "flags", "nsamples"], 0), plot_mode=pick(["log", "real", "phs"], 1))
            finally:
                plt.close("all")
        return Op(uvplot, one)
    raise ValueError(k)


def noise_inputs(W):
    """A spectrum estimated from cross-correlations and the temperatures of its antennas."""
    hp, s = W.hp, W.s
    U = vis.make_uvd(dict(s, tag=5, pols=["xx"]))
    U.vis_units = "mK"
    ds = hp.PSpecData([U, U], [None, None], beam=W.beam)
    a, b = s["ants"][:2]
    uvp = est.quiet(lambda: ds.pspec([(a, b)], [(a, b)], (0, 1), [("xx", "xx")], spw_ranges=(2, 12), verbose=False))
    T = vis.make_uvd(dict(s, tag=6, pols=["xx"]))
    T.select(bls=[(x, x) for x in s["ants"]])
    return uvp, T


def execute(plan, sim):
    W = sim.must(lambda: est.quiet(lambda: World(sim.hp, plan)), "make")
    for op in plan["ops"]:
        b = sim.must(lambda: est.quiet(lambda: bind(W, op)), "bind")
        everything = [*W.uvds, W.beam, *b.given]
        before = [look(x) for x in everything]
        o = sim.call(lambda: est.quiet(b.do), dict(faults=op["faults"]) if op.get("faults") else None, op["k"])
        how = "interrupted" if o.fired and not o.ok else "refused" if not o.ok else "finished"
        sim.evals[f"{op['k']} {how}"] += 1
        sim.sigs.add(f"vis:{op['k']}:{how}:{[int(4 * x) for x in op['r'][:3]]}:{plan['sel']}:{plan['vdata']['pols']}")
        if how == "refused":
            sim.evals[f"refused {op['k']} {type(o.exc).__name__} {str(o.exc)[:80]}"] += 1
        for i, (x, st) in enumerate(zip(everything, before)):
            d = fx.diff(st, look(x))
            if d:
                raise Violation(f"input-changed:{op['k']}", f"{op['k']} {how} ({o!r}, {o.fired}): input {i} ({type(x).__name__}) changed in {d}")
        del o, b


NEW = ["exact", "Tsys", "tdiff", "stokes", "noise_sim", "sky_sim", "from_data", "rephase"]


def parts(x):
    """Arrays and lists of visibility objects that can be overwritten without breaking them."""
    for u in x if isinstance(x, list) else [x]:
        for n in ("data_array", "nsample_array", "flag_array", "time_array", "lst_array", "freq_array", "integration_time", "channel_width",
                  "ant_1_array", "ant_2_array", "polarization_array", "uvw_array", "baseline_array"):
            yield getattr(u, n)
        yield u.telescope.antenna_positions


def overwrite(x, scramble):
    if hasattr(x, "blpair_array"):
        return scramble(x)
    for a in parts(x):
        a[...] = True if a.dtype == bool else 77
    for u in x if isinstance(x, list) else [x]:
        u.extra_keywords["x"] = 1
        for c in (u.phase_center_catalog or {}).values():
            c["cat_type"] = "changed"


def independent(plan, sim, scramble):
    """C15 for results of operations on visibilities."""
    W = sim.must(lambda: est.quiet(lambda: World(sim.hp, plan)), "make")
    for op in plan["ops"]:
        b = sim.must(lambda: est.quiet(lambda: bind(W, op)), "bind")
        o = sim.call(lambda: est.quiet(b.do), None, op["k"])
        sim.evals[f"{op['k']} {'finished' if o.ok else 'refused'}"] += 1
        if not o.ok:
            continue
        u = o.value
        sim.sigs.add(f"vis:{op['k']}:{plan['alter']}:{plan['sel']}:{[int(4 * x) for x in op['r'][:3]]}")
        if plan["alter"] == "result":
            before = [look(x) for x in b.given]
            overwrite(u, scramble)
            for x, st in zip(b.given, before):
                d = fx.diff(st, look(x))
                if d:
                    raise Violation(f"shared-state:{op['k']}", f"changing the result of {op['k']} changed its input {type(x).__name__} in {d}")
            continue
        before = [look(x) for x in (u if isinstance(u, list) else [u])]
        for x in b.given:
            if hasattr(x, "dsets"):
                overwrite(list(x.dsets), scramble)
            elif hasattr(x, "telescope"):
                overwrite(x, scramble)
            elif not hasattr(x, "power_beam_int") or x is not W.beam:
                scramble(x)
        for x, st in zip(u if isinstance(u, list) else [u], before):
            d = fx.diff(st, look(x))
            if d:
                raise Violation(f"shared-state:{op['k']}", f"changing the inputs of {op['k']} changed its result in {d}")
        return
