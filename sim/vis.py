"""Seeded synthetic visibility data (pyuvdata objects) and beams for the estimation checks."""
import copy
import hashlib

import numpy as np

# antennas on a redundant grid (metres, east-north)
POS = {0: (0, 0), 1: (14.6, 0), 2: (29.2, 0), 3: (7.3, 12.6), 4: (21.9, 12.6), 11: (14.6, 25.3), 23: (43.8, 0)}
T0, DT = 2458116.30448, 10.7375 / 86400
FREQ0, DFREQ = 150e6, 1e5
POLS = {"xx": -5, "yy": -6, "xy": -7, "yx": -8}
_templates = {}


def template(ants, nt, nf, pols, tstart):
    key = (tuple(ants), nt, nf, tuple(pols), tstart)
    if key not in _templates:
        from astropy.coordinates import EarthLocation
        from pyuvdata import Telescope, UVData

        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            loc = EarthLocation.from_geodetic(lon=21.4283, lat=-30.7215, height=1051.7)
            enu = {a: np.array([POS[a][0], POS[a][1], 0.0]) for a in ants}
            # rotate east-north-up into the frame of the telescope
            from pyuvdata import utils as uvutils
            xyz = uvutils.ECEF_from_ENU(np.array([enu[a] for a in ants]), center_loc=loc) - np.array(
                [loc.x.value, loc.y.value, loc.z.value])
            tel = Telescope.new(name="HERA", location=loc, antenna_positions={a: xyz[i] for i, a in enumerate(ants)},
                                instrument="HERA", x_orientation="east", antenna_diameters=np.full(len(ants), 14.0))
            pairs = [(a, b) for i, a in enumerate(ants) for b in ants[i:]]
            u = UVData.new(freq_array=FREQ0 + DFREQ * np.arange(nf), polarization_array=np.array([POLS[p] for p in pols]),
                           times=T0 + DT * (tstart + np.arange(nt)), telescope=tel, antpairs=pairs, do_blt_outer=True,
                           integration_time=10.7375, channel_width=DFREQ, empty=True, vis_units="Jy")
            u.polarization_array = np.asarray(u.polarization_array)
            u.history = "simulated"
        _templates[key] = u
        if len(_templates) > 60:
            _templates.pop(next(iter(_templates)))
    return copy.deepcopy(_templates[key])


def _rng(*items):
    return np.random.default_rng(int.from_bytes(hashlib.sha256(repr(items).encode()).digest()[:8], "little"))


def make_uvd(s, kind="data"):
    """
    UVData of a spec: ants, nt, nf, pols, tag, t0 (first integration), flags (pattern), ns (nsample pattern).
    Every number depends only on the tag and on its antennas, time and polarization.
    """
    u = template(s["ants"], s["nt"], s["nf"], s.get("pols", ["xx"]), s.get("t0", 0))
    nf = s["nf"]
    fl = s.get("flags", "")
    f = np.arange(nf)
    for (a, b) in u.get_antpairs():
        inds = np.asarray(np.arange(u.Nblts)[u.antpair2ind(a, b, ordered=False)])
        for i in inds:
            t = int(round((u.time_array[i] - T0) / DT))
            for k, p in enumerate(u.polarization_array):
                r = _rng(s.get("tag", 0), a, b, t, -7 if a == b and p == -8 else int(p))   # autos: yx = conj(xy)
                if kind == "std":
                    u.data_array[i, :, k] = 0.5 + r.random(nf)
                elif a == b:
                    u.data_array[i, :, k] = 100 * (1 + 0.1 * r.random(nf) + 0.01 * (a + 1))
                else:
                    u.data_array[i, :, k] = r.normal(size=nf) + 1j * r.normal(size=nf) + 5 * np.exp(
                        2j * np.pi * f * 0.02 * (1 + (a + b) % 5)) * (1 + 0.2 * t)
                g = np.zeros(nf, bool)
                if fl == "chan":
                    g |= f % 7 == 3
                elif fl == "bl":
                    g |= f % (5 + (a + b) % 4) == 2
                elif fl == "time":
                    g |= (f % 6 == 1) & (t % 2 == 0)
                elif fl == "pol":
                    g |= f % (4 if p == -5 else 6) == 1
                elif fl == "whole" and t % 3 == 1:
                    g[:] = True
                u.flag_array[i, :, k] = g
                ns = s.get("ns", "")
                n = np.ones(nf)
                if ns == "vary":
                    n *= 1 + (a + 2 * b + t) % 3
                elif ns == "zero" and (a + b + t) % 4 == 0:
                    n *= 0
                u.nsample_array[i, :, k] = n
    return u


def make_wgt(s, u):
    w = copy.deepcopy(u)
    f = np.arange(s["nf"])
    w.data_array = np.ones(u.data_array.shape) * (f % 9 != 4).astype(float)[None, :, None]
    w.flag_array[...] = False
    return w


def make_beam(hp, kind, cosmo=None):
    """Primary beams: the real classes, with coarser numerical integrals."""
    if not kind:
        return None
    f = np.linspace(100e6, 200e6, 51)
    if kind == "gauss":
        class Gauss(hp.pspecbeam.PSpecBeamGauss):
            def compute_pspec_scalar(self, *a, **k):
                k["num_steps"] = 40
                return super().compute_pspec_scalar(*a, **k)

            def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
                return response(pol, freq)
        return Gauss(fwhm=0.17, beam_freqs=f, cosmo=cosmo)

    class Arr(hp.pspecbeam.PSpecBeamFromArray):
        def compute_pspec_scalar(self, *a, **k):
            k["num_steps"] = 40
            return super().compute_pspec_scalar(*a, **k)

        def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
            return response(pol, freq)
    P = {p: (0.05 + 0.003 * abs(p)) * (f / 150e6) ** -2 for p in (1, 2, -5, -6, -7, -8)}
    PP = {p: (0.02 + 0.002 * abs(p)) * (f / 150e6) ** -2 for p in (1, 2, -5, -6, -7, -8)}
    return Arr(P, PP, f, cosmo=cosmo)


def response(pol, freq):
    """A beam on a small sphere that differs between polarizations."""
    q = POLS.get(pol, pol) if isinstance(pol, str) else pol
    nside = 1
    x = np.linspace(0, 1, 12 * nside**2)
    freq = np.asarray(freq, float)
    b = np.exp(-((x[None, :] * (2 + 0.3 * abs(int(q)))) ** 2) * (freq[:, None] / 150e6))
    return b, np.sum(b, axis=1) * (4 * np.pi / b.shape[1]), nside


def uvd_state(u):
    """Deep snapshot of a UVData object."""
    from .fx import _norm

    out = {}
    for a in ("data_array", "flag_array", "nsample_array", "time_array", "lst_array", "freq_array", "ant_1_array",
              "ant_2_array", "polarization_array", "integration_time", "channel_width", "vis_units", "history",
              "uvw_array", "Ntimes", "Nblts", "Npols", "Nfreqs", "Nbls", "baseline_array", "extra_keywords", "filename"):
        v = getattr(u, a, None)
        out[a] = _norm(v)
    out["tel"] = _norm(np.asarray(u.telescope.antenna_positions))
    return out


def gen_data(rng, ndsets=2, **over):
    s = dict(ants=rng.choice([[0, 1, 2], [0, 1, 2, 3], [0, 1, 2, 3, 4], [0, 1, 2, 11, 23]]), nt=rng.choice([2, 2, 3, 4]),
             nf=rng.choice([16, 20, 24]), pols=rng.choice([["xx"], ["xx", "yy"], ["xx", "yy"], ["yy", "xx"]]))
    s["flags"] = rng.choice(["", "", "chan", "bl", "time", "pol", "whole"])
    s["ns"] = rng.choice(["", "", "vary", "zero"])
    s["wgts"] = rng.random() < 0.12
    s["std"] = rng.random() < 0.4
    s["tags"] = list(range(1, ndsets + 1))
    s["beam"] = rng.choice(["", "gauss", "array", "array"])
    s["units"] = rng.choice(["Jy", "Jy", "mK"])
    s.update(over)
    return s


def make_ds(hp, s, uvds=None):
    """A PSpecData object with new data of its own."""
    d, w, e = [], [], []
    for i, t in enumerate(s["tags"]):
        u = make_uvd(dict(s, tag=t)) if uvds is None else copy.deepcopy(uvds[i])
        u.vis_units = s.get("units", "Jy")
        if s.get("pert") == i:
            u.flag_array[:, 1] = True
        d.append(u)
        w.append(make_wgt(s, u) if s.get("wgts") else None)
        if s.get("std"):
            v = make_uvd(dict(s, tag=100 + t, flags=""), "std")
            v.vis_units = s.get("units", "Jy")
            e.append(v)
    return hp.PSpecData(d, w, dsets_std=e if e else None, labels=[f"set{t}" for t in s["tags"]],
                        beam=make_beam(hp, s.get("beam")))
