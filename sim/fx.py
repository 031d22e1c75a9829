"""
Fixtures and deep comparison, independent of hera_pspec's own test helpers.

A spectrum object is described by a small JSON spec and every number in it is a
function of its physical identity (tag, baseline-pair, time, frequency window,
delay, polarization), so that a value found anywhere can be attributed.
"""
import hashlib

import numpy as np

TEL = np.array([5109325.85521063, 2005235.09142983, -3239928.42475397])
T0, DT = 2458042.1, 10.0 / 86400 * 64


def jd(k):
    """k is a (possibly half-integer) time index."""
    return T0 + DT * k


def lst(k):
    return (0.35 + 0.0471 * k) % (2 * np.pi)


def blp_int(bp):
    (a, b), (c, d) = bp
    return (a + 100) * 10**9 + (b + 100) * 10**6 + (c + 100) * 10**3 + (d + 100)


def bl_int(bl):
    return (bl[0] + 100) * 1000 + bl[1] + 100


_LAT, _LON = -0.5360, 0.3740
_R = np.array([
    [-np.sin(_LON), -np.sin(_LAT) * np.cos(_LON), np.cos(_LAT) * np.cos(_LON)],
    [np.cos(_LON), -np.sin(_LAT) * np.sin(_LON), np.cos(_LAT) * np.sin(_LON)],
    [0.0, np.cos(_LAT), np.sin(_LAT)],
])


def antpos(n):
    """ENU antenna position: rows of ten antennas on a 14.6 m grid."""
    return np.array([14.6 * (n % 10) + 7.3 * (n // 10), 12.64 * (n // 10), 0.0])


def bl_vec(bl):
    return _R @ (antpos(bl[0]) - antpos(bl[1]))


def _mix(*ks):
    """Vectorised pseudo-random value in (0, 1) from integer keys (broadcast)."""
    with np.errstate(over="ignore"):
        h = np.uint64(0x9E3779B97F4A7C15)
        for k in ks:
            k = np.asarray(k).astype(np.int64).astype(np.uint64)
            h = (h ^ k) * np.uint64(0xBF58476D1CE4E5B9)
            h = (h ^ (h >> np.uint64(29))) * np.uint64(0x94D049BB133111EB)
            h = h ^ (h >> np.uint64(32))
    return ((h >> np.uint64(11)).astype(np.float64) + 0.5) / 2.0**53


DEF = dict(tag=0, blpairs=[[[1, 2], [1, 2]]], times=[0, 1], spws=[[0, 4]], pols=[1515])


def blpts(spec):
    """[(blpair, k1, k2)] rows in the object's order."""
    off = spec.get("toff", 0)
    rows = [(bp, t, t + off) for bp in spec["blpairs"] for t in spec["times"]]
    if spec.get("cross"):   # every pair of times
        rows = [(bp, t, v + off) for bp in spec["blpairs"] for t in spec["times"] for v in spec["times"]]
    if spec.get("order") == "time":
        rows = [(bp, t, t + off) for t in spec["times"] for bp in spec["blpairs"]]
    elif isinstance(spec.get("order"), list):
        rows = [rows[i] for i in spec["order"]]
    if spec.get("drop"):
        drop = {tuple(x) for x in spec["drop"]}  # (blp index, time)
        rows = [r for r in rows if (spec["blpairs"].index(r[0]), r[1]) not in drop]
    return rows


def rparams(hp, bls, kind, pols):
    """r_params string: weighting parameters per baseline and polarization."""
    d = {}
    for b in sorted(bls):
        for p in sorted({x for q in pols for x in (q // 100, q % 100)}):
            d[b + ({15: "xx", 14: "yy", 13: "xy", 12: "yx", 10: "xx"}[p],)] = dict(filter_centers=[0.0], filter_half_widths=[100e-9 * (1 + (b[0] + b[1]) % 2) * kind],
                                  filter_factors=[1e-9])
    return hp.uvpspec_utils.compress_r_params(d)


def make_uvp(hp, spec):
    s = dict(DEF)
    s.update(spec)
    u = hp.UVPSpec()
    rows = blpts(s)
    tag = s["tag"]
    n = len(rows)
    blp = np.array([blp_int(r[0]) for r in rows], dtype=np.int64)
    k1 = np.array([r[1] for r in rows], dtype=float)
    k2 = np.array([r[2] for r in rows], dtype=float)
    kk = np.round(k1 * 16).astype(int) * 4096 + np.round(k2 * 16).astype(int)
    pols = list(s["pols"])
    P = len(pols)
    spws = [list(w) for w in s["spws"]]
    u.Nspws = len(spws)
    u.spw_array = np.arange(len(spws), dtype=np.int16)
    fr, dl, sf, sd = [], [], [], []
    df = 1e5
    for i, w in enumerate(spws):
        f = 100e6 + df * (w[0] + np.arange(w[1]))
        nd = w[2] if len(w) > 2 else w[1]
        d = (np.arange(nd) - nd // 2) / (nd * df)
        fr.extend(f)
        dl.extend(d)
        sf.extend([i] * len(f))
        sd.extend([i] * len(d))
    u.freq_array, u.dly_array = np.array(fr), np.array(dl)
    u.spw_freq_array, u.spw_dly_array = np.array(sf), np.array(sd)
    u.Nfreqs, u.Ndlys = len(np.unique(u.freq_array)), len(np.unique(u.dly_array))
    u.Nspwfreqs, u.Nspwdlys = len(fr), len(dl)
    u.channel_width = np.full(s.get("nchan", 16), df)
    u.polpair_array = np.array(pols, dtype=np.int64)
    u.Npols = P
    u.blpair_array = blp
    u.time_1_array, u.time_2_array = jd(k1), jd(k2)
    u.time_avg_array = (u.time_1_array + u.time_2_array) / 2
    u.lst_1_array, u.lst_2_array = lst(k1), lst(k2)
    u.lst_avg_array = lst((k1 + k2) / 2)
    u.Nbltpairs = n
    u.Nblpairs = len(np.unique(blp))
    u.Ntpairs = len(set(zip(k1, k2)))
    u.Ntimes = u.Ntpairs
    bls = sorted({tuple(b) for r in rows for b in r[0]})
    u.bl_array = np.array([bl_int(b) for b in bls])
    u.bl_vecs = np.array([bl_vec(b) for b in bls])
    u.Nbls = len(bls)
    u.vis_units, u.norm_units = s.get("vis_units", "mK"), s.get("norm_units", "h^-3 Mpc^3")
    u.weighting, u.taper, u.norm = "identity", "bh", "I"
    u.history = f"history of {tag}"
    u.r_params = ""
    if s.get("rp"):
        u.r_params = rparams(hp, {b for r in rows for b in map(tuple, r[0])}, s["rp"], pols)
    u.folded = bool(s.get("folded", False))
    if s.get("st", True) is not None:
        u.symmetric_taper = bool(s.get("st", True))
    u.exact_windows = False
    u.telescope_location = TEL.copy()
    lab = s.get("labels", ["blue", "red"])
    u.labels = np.array(lab)
    sid = np.array([w[0] * 64 + w[1] for w in spws])
    li = (np.array([abs(p) for p in pols])[None, None, :] + blp[None, :, None] // 1000 % 7
          + sid[:, None, None]) % len(lab)
    u.label_1_array = li.astype(np.int32)
    u.label_2_array = ((li + 1) % len(lab)).astype(np.int32)
    pp = np.array(pols)
    u.scalar_array = 100 * (1 + _mix(7, sid[:, None], pp[None, :]))
    u.data_array, u.wgt_array, u.integration_array, u.nsample_array = {}, {}, {}, {}
    wf, cr, ci, kperp, kpara = {}, {}, {}, {}, {}
    stats = {k: {} for k in s.get("stats", [])}
    R, D3 = kk[:, None, None], None
    for i, w in enumerate(spws):
        nd = int(np.sum(u.spw_dly_array == i))
        nf = int(w[1])
        d = np.arange(nd)[None, :, None]
        f = np.arange(nf)[None, :, None]
        b = blp[:, None, None]
        p = pp[None, None, :]
        q = int(sid[i])
        re = 10 * _mix(1, tag, b, R, q, d, p) + 1
        im = 10 * _mix(2, tag, b, R, q, d, p) - 5
        u.data_array[i] = re + 1j * im
        if s.get("folded"):
            u.data_array[i][:, :nd // 2] = 0
        w1 = (_mix(3, tag, b, R, q, f, p) > 0.15).astype(float)
        w2 = (_mix(4, tag, b, R, q, f, p) > 0.15).astype(float)
        u.wgt_array[i] = np.stack([w1, w2], axis=2)
        u.integration_array[i] = 10 * (1 + _mix(5, tag, blp[:, None], kk[:, None], q, pp[None]))
        u.nsample_array[i] = 1 + np.floor(4 * _mix(6, tag, blp[:, None], kk[:, None], q, pp[None]))
        d1 = np.arange(nd)[None, :, None, None]
        d2 = np.arange(nd)[None, None, :, None]
        b4, R4, p4 = blp[:, None, None, None], kk[:, None, None, None], pp[None, None, None]
        if s.get("ew"):
            Na, Nb = 3, 4
            ax = np.arange(Na)[None, None, :, None, None]
            bx = np.arange(Nb)[None, None, None, :, None]
            wf[i] = _mix(18, tag, blp[:, None, None, None, None], kk[:, None, None, None, None], q,
                         np.arange(nd)[None, :, None, None, None], ax * 64 + bx, pp[None, None, None, None])
            kperp[i] = 0.1 * (np.arange(Na)[:, None] + _mix(41, q, pp[None]))
            kpara[i] = 0.1 * (np.arange(Nb)[:, None] + _mix(42, q, pp[None]))
        elif s.get("wf", True):
            wf[i] = (d1 == d2) * 0.8 + 0.1 * _mix(8, tag, b4, R4, q, d1, d2, p4)
        if s.get("cov"):
            lo, hi = np.minimum(d1, d2), np.maximum(d1, d2)
            cr[i] = (d1 == d2) * 5.0 + _mix(9, tag, b4, R4, q, lo, hi, p4)
            ci[i] = (d1 == d2) * 4.0 + _mix(10, tag, b4, R4, q, lo, hi, p4)
        for j, k in enumerate(sorted(stats)):
            stats[k][i] = (1 + _mix(11 + j, tag, b, R, q, d, p)) + 1j * _mix(21 + j, tag, b, R, q, d, p)
    if wf:
        u.window_function_array = wf
    if s.get("ew"):
        u.window_function_kperp, u.window_function_kpara = kperp, kpara
        u.exact_windows = True
    if cr:
        u.cov_array_real, u.cov_array_imag, u.cov_model = cr, ci, "empirical"
    if stats:
        u.stats_array = stats
    if s.get("cosmo", True):
        u.cosmo = hp.conversions.Cosmo_Conversions(**s.get("cosmo_params", {}))
    if s.get("beam"):
        nb = 6
        bf = np.linspace(95e6, 110e6, nb)
        op = 0.05 + 0.01 * _mix(31, np.arange(nb)[:, None], pp[None])
        opp = 0.02 + 0.01 * _mix(32, np.arange(nb)[:, None], pp[None])
        u.OmegaP, u.OmegaPP, u.beam_freqs = op, opp, bf
        u.beamfile = "beam.fits"
    u.check()
    return u


# ---------------------------------------------------------------- deep state
def _norm(v, hp=None):
    """Canonical, comparable form of an attribute value."""
    if v is None or isinstance(v, (bool, np.bool_)):
        return ("b", None if v is None else bool(v))
    if isinstance(v, (int, np.integer)):
        return ("n", float(v) if abs(int(v)) < 2**53 else int(v))
    if isinstance(v, (float, np.floating)):
        return ("n", float(v))
    if isinstance(v, (complex, np.complexfloating)):
        return ("c", complex(v))
    if isinstance(v, (str, bytes)):
        return ("s", v.decode() if isinstance(v, bytes) else str(v))
    if isinstance(v, np.ndarray) or (hasattr(v, "dtype") and hasattr(v, "shape")):
        v = np.asarray(v)
        k = v.dtype.kind
        if k in "SUO":
            return ("sa", v.shape, tuple(x.decode() if isinstance(x, bytes) else str(x) for x in v.ravel()))
        if k == "c":
            w = np.ascontiguousarray(v, dtype=np.complex128)
            kk = "ca"
        else:
            w = np.ascontiguousarray(v, dtype=np.float64)
            kk = "a"
        return (kk, v.shape, (w + 0).tobytes())
    if isinstance(v, dict):
        return ("d", tuple(sorted(((str(k), _norm(x)) for k, x in v.items()), key=lambda t: t[0])))
    if isinstance(v, (list, tuple, set, frozenset)):
        it = sorted(v) if isinstance(v, (set, frozenset)) else v
        return ("l", tuple(_norm(x) for x in it))
    if hasattr(v, "get_params"):
        try:
            return ("cosmo", _norm(v.get_params()))
        except AttributeError:      # (overwritten by a check)
            return ("cosmo", repr(sorted(vars(v).items(), key=repr)))
    if hasattr(v, "ft_beam"):
        return ("ft", _norm(dict(vars(v))))
    if callable(v):
        return ("f", getattr(v, "__qualname__", str(type(v))))
    return ("o", type(v).__name__)


SKIP = {"_all_params", "_req_params", "_immutables", "_ndarrays", "_dicts", "_dicts_of_dicts",
        "_meta_dsets", "_meta_attrs", "_meta", "_meta_deprecated", "_meta_dsets_deprecated"}


SKIP_HISTORY = False


def state(u, skip=()):
    """Deep snapshot of every public attribute of a UVPSpec (instance dictionary)."""
    if SKIP_HISTORY:
        skip = tuple(skip) + ("history",)
    out = {k: _norm(v) for k, v in vars(u).items()
           if not k.startswith("_") and k not in skip and type(v).__name__ != "PSpecParam"}
    if isinstance(getattr(u, "stats_array", None), dict) and "stats_array" in out:
        # real statistics become complex whenever the object is checked: the values count
        out["stats_array"] = _norm({k: {i: np.asarray(a).astype(np.complex128) for i, a in d.items()}
                                    for k, d in u.stats_array.items()})
    return out


def diff(a, b, skip=()):
    """Names of attributes whose snapshots differ."""
    out = []
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        if k not in a:
            out.append(f"+{k}")
        elif k not in b:
            out.append(f"-{k}")
        elif a[k] != b[k]:
            out.append(k)
    return out


def digest(st):
    h = hashlib.sha256()
    for k in sorted(st):
        h.update(repr((k, st[k])).encode())
    return h.hexdigest()[:16]


def decode(n):
    """Array held in a canonical value (for tolerance comparisons)."""
    if n[0] == "a":
        return np.frombuffer(n[2], np.float64).reshape(n[1])
    if n[0] == "ca":
        return np.frombuffer(n[2], np.complex128).reshape(n[1])
    if n[0] == "n":
        return np.float64(n[1])
    if n[0] == "c":
        return np.complex128(n[1])
    return None


def close_norm(x, y, rtol=1e-10, atol=1e-12):
    """Equal up to rounding."""
    if x == y:
        return True
    if x[0] != y[0]:
        return False
    if x[0] in ("a", "ca", "n", "c"):
        a, b = decode(x), decode(y)
        if np.shape(a) != np.shape(b):
            return False
        with np.errstate(all="ignore"):
            return bool(np.all((a == b) | (~np.isfinite(a) & ~np.isfinite(b))
                               | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))))
    if x[0] == "d":
        return len(x[1]) == len(y[1]) and all(
            k1 == k2 and close_norm(v1, v2, rtol, atol) for (k1, v1), (k2, v2) in zip(x[1], y[1]))
    if x[0] == "l":
        return len(x[1]) == len(y[1]) and all(close_norm(a, b, rtol, atol) for a, b in zip(x[1], y[1]))
    if x[0] == "cosmo":
        return close_norm(x[1], y[1], rtol, atol)
    return False


def diff_close(a, b, skip=(), rtol=1e-10):
    out = []
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        if k not in a:
            out.append(f"+{k}")
        elif k not in b:
            out.append(f"-{k}")
        elif not close_norm(a[k], b[k], rtol):
            out.append(k)
    return out


# ---------------------------------------------------------------- keyed view
def _rp(txt):
    """r_params text -> comparable, order-free form."""
    import json

    out = []
    for v in json.loads(txt).values():
        par = json.dumps({k: x for k, x in v.items() if k != "baselines"}, sort_keys=True)
        out += [(json.dumps(b), par) for b in v["baselines"]]
    return tuple(sorted(out))


def keyed(u):
    """
    {(spw range, blpair, t1, t2, polpair): record} and global metadata, read from
    the raw arrays of a UVPSpec without using any of its own indexing methods.
    """
    out, meta = {}, {}
    t1, t2 = np.asarray(u.time_1_array), np.asarray(u.time_2_array)
    for i in range(len(u.spw_array)):
        s = int(u.spw_array[i])
        f = np.asarray(u.freq_array)[np.asarray(u.spw_freq_array) == s]
        d = np.asarray(u.dly_array)[np.asarray(u.spw_dly_array) == s]
        wkey = (round(float(f[0])), len(f), len(d))
        meta[("spw",) + wkey] = (_norm(f), _norm(d))
        for k, p in enumerate(np.asarray(u.polpair_array)):
            meta[("scalar",) + wkey + (int(p),)] = _norm(np.asarray(u.scalar_array)[i, k])
            if hasattr(u, "window_function_kperp"):
                meta[("kperp",) + wkey + (int(p),)] = _norm(np.asarray(u.window_function_kperp[s])[:, k])
                meta[("kpara",) + wkey + (int(p),)] = _norm(np.asarray(u.window_function_kpara[s])[:, k])
            for j in range(len(u.blpair_array)):
                rec = dict(
                    data=_norm(u.data_array[s][j, :, k]), wgt=_norm(u.wgt_array[s][j, :, :, k]),
                    int=_norm(u.integration_array[s][j, k]), nsm=_norm(u.nsample_array[s][j, k]),
                    tavg=_norm(u.time_avg_array[j]), lst1=_norm(u.lst_1_array[j]),
                    lst2=_norm(u.lst_2_array[j]), lstavg=_norm(u.lst_avg_array[j]),
                    lab1=str(u.labels[int(u.label_1_array[i, j, k])]),
                    lab2=str(u.labels[int(u.label_2_array[i, j, k])]))
                if hasattr(u, "cov_array_real"):
                    rec["cr"] = _norm(u.cov_array_real[s][j, :, :, k])
                    rec["ci"] = _norm(u.cov_array_imag[s][j, :, :, k])
                if hasattr(u, "window_function_array"):
                    rec["wf"] = _norm(u.window_function_array[s][j, ..., k])
                if hasattr(u, "stats_array"):
                    for st in u.stats_array:
                        rec["stat:" + st] = _norm(np.asarray(u.stats_array[st][s][j, :, k], dtype=complex))
                key = wkey + (int(u.blpair_array[j]), round(float(t1[j]), 7), round(float(t2[j]), 7), int(p))
                if key in out:
                    raise ValueError(f"duplicate spectrum {key}")
                out[key] = rec
    for k, p in enumerate(np.asarray(u.polpair_array)):
        for a in ("OmegaP", "OmegaPP"):
            if hasattr(u, a):
                meta[(a, int(p))] = _norm(np.asarray(getattr(u, a))[:, k])
    if getattr(u, "r_params", ""):
        meta["r_params"] = _rp(u.r_params)
    for b, v in zip(u.bl_array, u.bl_vecs):
        meta[("bl", int(b))] = _norm(np.asarray(v))
    return out, meta


def global_meta(u, skip=("history",)):
    names = ["Nspws", "Nbltpairs", "Nblpairs", "Npols", "Ntimes", "Ntpairs", "Nbls", "Nfreqs", "Ndlys",
             "Nspwdlys", "Nspwfreqs", "weighting", "vis_units", "norm_units", "norm", "taper", "folded",
             "cosmo", "beamfile", "telescope_location", "channel_width", "exact_windows", "beam_freqs",
             "cov_model", "history", "symmetric_taper"]
    return {k: _norm(getattr(u, k)) for k in names if hasattr(u, k) and k not in skip}


def keyed_diff(a, b, close=False):
    """Human-readable first differences of two keyed views."""
    eq = (lambda x, y: close_norm(x, y, 1e-8 if close == "loose" else 1e-10)) if close else (lambda x, y: x == y)
    miss = [k for k in a if k not in b]
    extra = [k for k in b if k not in a]
    bad = []
    for k in a:
        if k in b:
            for f in sorted(set(a[k]) | set(b[k])):
                x, y = a[k].get(f), b[k].get(f)
                if x is None or y is None or not (x == y or (isinstance(x, tuple) and eq(x, y))):
                    bad.append((k, f))
    if miss or extra or bad:
        return f"missing {miss[:2]} ({len(miss)}), extra {extra[:2]} ({len(extra)}), differing {bad[:3]} ({len(bad)})"
    return ""


# ---------------------------------------------------------------- generators
BLS = [[1, 2], [2, 3], [1, 3], [4, 5], [11, 12], [2, 1], [12, 23]]


def gen_spec(rng, tag, big=False, **over):
    nb = rng.choice([1, 1, 2, 3] if not big else [2, 3, 4])
    pairs = []
    while len(pairs) < nb:
        a = rng.choice(BLS)
        b = a if rng.random() < 0.6 else rng.choice(BLS)
        if [a, b] not in pairs:
            pairs.append([a, b])
    nt = rng.choice([1, 2, 3] if not big else [2, 3, 4])
    spws = rng.choice([[[0, 3]], [[0, 4]], [[0, 3], [4, 5]], [[2, 4], [8, 4]]])
    s = dict(tag=tag, blpairs=pairs, times=list(range(nt)), spws=spws,
             pols=rng.choice([[1515], [1515], [1515, 1414], [1414, 1515, 1313]]))
    if rng.random() < 0.3:
        s["cov"] = True
    if rng.random() < 0.3:
        s["stats"] = rng.choice([["P_N"], ["P_N", "bs_std"]])
    if rng.random() < 0.3:
        s["beam"] = True
    r = rng.random()
    if r < 0.2:
        s["wf"] = False
    elif r < 0.35:
        s["ew"] = True
    s["cosmo"] = rng.random() < 0.12
    if rng.random() < 0.2:
        s["order"] = "time"
    if rng.random() < 0.2:
        s["toff"] = 0.5
    if rng.random() < 0.1:
        s["cross"] = True
    if rng.random() < 0.15:
        s["rp"] = 1
    if rng.random() < 0.1 and not s.get("ew"):
        s["folded"] = True
    if rng.random() < 0.2:
        s["st"] = rng.choice([False, None])
    s.update(over)
    return s
