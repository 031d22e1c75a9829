"""Seeded requests to the power spectrum estimator, shared by the estimation checks."""
import contextlib
import copy
import io

import numpy as np

from sim import fx, vis


def gen_windows(rng, nf):
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        n = rng.choice([6, 8, 8, 10])
        a = rng.randint(0, nf - n)
        if (a, a + n) not in out:
            out.append((a, a + n))
    return [list(w) for w in out]


def gen_request(rng, s, rich=True):
    """A pspec() call on data of spec s, as a plan."""
    ants = s["ants"]
    cross = [(a, b) for i, a in enumerate(ants) for b in ants[i + 1:]]
    autos = [(a, a) for a in ants]
    prs, tries = [], 0
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        src = autos if rng.random() < 0.08 else cross
        a = rng.choice(src)
        b = a if rng.random() < 0.4 else rng.choice(src)
        if [list(a), list(b)] not in prs:
            prs.append([list(a), list(b)])
    pols = [p for p in s["pols"]]
    rng.shuffle(pols)
    pols = [[p, p] for p in pols[:rng.choice([1, 2])]]
    if rng.random() < 0.12:
        pols.insert(rng.randint(0, len(pols)), rng.choice([["yx", "yx"], ["xy", "xy"], ["xx", "xx"]]))
    if len(s["pols"]) > 1 and not s.get("beam") and rng.random() < 0.3:
        pols.append(["xx", "yy"])
    pols = [p for i, p in enumerate(pols) if p not in pols[:i]]
    spws = gen_windows(rng, s["nf"])
    r = dict(prs=prs, pols=pols, spws=spws, dsets=rng.choice([[0, 1], [0, 1], [1, 0], [0, 0]]) if len(s["tags"]) > 1 else [0, 0])
    k = r["kw"] = {}
    if rng.random() < 0.3:
        r["ndlys"] = [rng.choice([w[1] - w[0], w[1] - w[0] - 1, 5]) for w in spws]
    if rng.random() < 0.5:
        k["taper"] = rng.choice(["blackman-harris", "tukey", "bh"])
    if rich:
        q = rng.random()
        k["input_data_weight"] = "identity" if q < 0.55 else "iC" if q < 0.75 else "dayenu"
        q = rng.random()
        if q < 0.25:
            k["exact_norm"] = True
        elif q < 0.6:
            k["norm"] = rng.choice(["H^-1", "V^-1/2"])
        if rng.random() < 0.3:
            k["symmetric_taper"] = False
            if rng.random() < 0.6:
                r["fext"] = [rng.choice([[0, 0], [2, 2], [1, 3], [2, 0], [3, 3]]) for _ in spws]
        elif rng.random() < 0.25:
            r["fext"] = [rng.choice([[0, 0], [2, 2], [1, 3], [3, 3]]) for _ in spws]
        if rng.random() < 0.45:
            k[rng.choice(["store_cov", "store_cov", "store_cov_diag"])] = True
            k["cov_model"] = rng.choice(["empirical", "empirical", "autos", "dsets", "foreground_dependent"])
            if k["cov_model"] == "dsets" and not s.get("std"):
                k["cov_model"] = "autos"
            if rng.random() < 0.25:
                r["known"] = rng.randint(1, 9)
        for name, v, pr in (("sampling", True, 0.2), ("little_h", False, 0.2), ("return_q", True, 0.15), ("store_window", False, 0.3),
                            ("allow_fft", True, 0.1)):
            if rng.random() < pr:
                k[name] = v
    return r


def arguments(s, r):
    """(args, kwargs) of the call: fresh objects each time."""
    prs = [(tuple(a), tuple(b)) for a, b in r["prs"]]
    kw = copy.deepcopy(r["kw"])
    kw["verbose"] = False
    kw["spw_ranges"] = [tuple(w) for w in r["spws"]]
    if "ndlys" in r:
        kw["n_dlys"] = list(r["ndlys"])
    if "fext" in r:
        kw["filter_extensions"] = [tuple(x) for x in r["fext"]]
    if kw.get("input_data_weight") == "dayenu":
        kw["r_params"] = {}
        for d in range(len(s["tags"])):
            for a, b in [p for q in prs for p in q]:
                for p in ("xx", "yy", "xy", "yx"):
                    kw["r_params"][(d, a, b, p)] = dict(
                        filter_centers=[0.0], filter_half_widths=[(1 + (a + b) % 3) * 1e-7], filter_factors=[10.0 ** -(6 + d)])
    if "known" in r:
        kw["known_cov"] = {}
        for a, b in prs:
            for bl in (a, b):
                for p in ("xx", "yy"):
                    for d in (0, 1):
                        key = bl + (p,)
                        m = np.diag(1.0 + (np.arange(s["nf"]) * r["known"]) % 5).astype(float)
                        kw["known_cov"][((d, d), (key, key), kw["cov_model"], None, False, True)] = m
                        if r["known"] % 2:
                            kw["known_cov"][((d, d), (key, key), kw["cov_model"], 0, False, True)] = m * 2
    return ([p[0] for p in prs], [p[1] for p in prs], tuple(r["dsets"]), [tuple(p) for p in r["pols"]]), kw


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def call(ds, s, r, watch=None):
    a, k = arguments(s, r)
    if watch is not None:
        watch.append((a, k))
    return ds.pspec(*a, **k)


def split(rng, r):
    """Cut a request into parts over windows, polarizations and baseline pairs."""
    parts = []
    wi = list(range(len(r["spws"])))
    pi = list(range(len(r["pols"])))
    bi = list(range(len(r["prs"])))

    def groups(ix, keep):
        ix = list(ix)
        rng.shuffle(ix)
        if keep or len(ix) == 1:
            return [ix]
        c = rng.randint(1, len(ix) - 1)
        return [ix[:c], ix[c:]]
    for w in groups(wi, rng.random() < 0.4):
        for p in groups(pi, rng.random() < 0.4):
            for b in groups(bi, rng.random() < 0.4):
                q = dict(r, prs=[r["prs"][i] for i in b], pols=[r["pols"][i] for i in p], spws=[r["spws"][i] for i in w])
                if "ndlys" in r:
                    q["ndlys"] = [r["ndlys"][i] for i in w]
                if "fext" in r:
                    q["fext"] = [r["fext"][i] for i in w]
                parts.append(q)
    rng.shuffle(parts)
    return parts


def compare(ref, got):
    """Records of got must be those of ref (subset), up to floating-point reassociation."""
    (a, am), (b, bm) = ref, got
    bad = []
    for k in b:
        if k not in a:
            return f"spectrum {k} was not in the reference"
        for f in sorted(set(a[k]) | set(b[k])):
            if f not in a[k] or f not in b[k] or not near(a[k][f], b[k][f]):
                bad.append((k, f))
    for k in bm:
        if k == "r_params":
            continue
        if k not in am or not near(am[k], bm[k]):
            bad.append(k)
    return f"differing {bad[:3]} ({len(bad)})" if bad else ""


def near(x, y, rtol=1e-7):
    """Equality of normalised values up to rtol of the largest element."""
    if x == y:
        return True
    u, v = fx.decode(x), fx.decode(y)
    if u is None or v is None:
        return False
    u, v = np.asarray(u), np.asarray(v)
    if u.shape != v.shape or u.dtype.kind not in "fciub" or v.dtype.kind not in "fciub":
        return False
    fu, fv = np.isfinite(u), np.isfinite(v)
    if not np.array_equal(fu, fv):
        return False
    if not fu.any():
        return True
    m = max(np.abs(u[fu]).max(), np.abs(v[fu]).max())
    return bool(np.abs(u[fu] - v[fu]).max() <= rtol * m)


def beam_state(b):
    if b is None:
        return None
    return {k: fx._norm(v) for k, v in vars(b).items() if isinstance(v, (np.ndarray, dict, float, int, str, list))} | {
        "cosmo": repr(b.cosmo)}


def ds_state(ds):
    """What the user handed to the estimator."""
    out = {}
    for name in ("dsets", "wgts", "dsets_std"):
        for i, u in enumerate(getattr(ds, name) or []):
            if u is not None:
                out.update({f"{name}[{i}].{k}": v for k, v in vis.uvd_state(u).items()})
    out["beam"] = beam_state(ds.primary_beam)
    out["labels"] = list(ds.labels)
    return out
