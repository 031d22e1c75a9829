"""C12: the estimation pipeline (pspec_run) gives the same spectra however it is scheduled."""
import os
import shutil

import numpy as np

from sim import fx, vis
from sim.core import Violation
from . import cont, est

ID = "C12"
TECHNIQUE = ("seeded pipeline runs over simulated files (cut, ordered and listed in seeded ways; one or several jobs; reruns; failing "
             "reads) compared with a direct estimate from the unsplit data and with a model of the baseline-pairs")
QUICK, THOROUGH = 450, 20000
RULE = ("one run = seeded visibility data sets (1-3; some with dead antennas, missing baselines, flags) written as files cut over "
        "times, baselines or polarizations, and 1-4 executions of the pipeline with seeded order of data sets, files, directory "
        "listing, chunk size, function call or command line, container content before, job split over concurrent processes sharing the container, and failing "
        "input (missing or truncated file, read error, kill). After each execution the container holds, under each expected name, "
        "exactly the baseline-pairs of the model with the values of a direct estimate from the unsplit data; other spectra are "
        "untouched. Distinct and non-trivial: (data sets, cuts, selection, options, kind of execution, faults).")
SHRINK = ["vars"]
ASSUME = ["names of data sets are distinct", "a time or a channel is flagged for whole visibilities or not at all when flags are broadcast"]


def partition(rng, n, k):
    lab = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(lab)
    return [[i for i in range(n) if lab[i] == j] for j in range(k)]


CALS = ["paths", "globs", "lists", "one", "objects"]


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    nd = rng.choice([1, 2, 2, 2, 3])
    s = vis.gen_data(rng, nd, nf=rng.choice([10, 12]), units="Jy", wgts=False)
    s["std"] = rng.random() < 0.3
    if nd > 1 and rng.random() < 0.4:
        s["t0s"] = [rng.choice([0, 0, 1]) for _ in range(nd)]
    s["ants"] = rng.choice([[0, 1, 2], [0, 1, 2, 23], [0, 1, 3, 4], [0, 1, 2, 3, 4]])
    nt = s["nt"]
    cross = [[a, b] for q, a in enumerate(s["ants"]) for b in s["ants"][q + 1:]]
    s["missing"] = [[d] + rng.choice(cross) for d in range(nd) if rng.random() < 0.25]
    s["dead"] = [[d, rng.choice(s["ants"])] for d in range(nd) if rng.random() < 0.2]
    files = []
    for d in range(nd):
        ax = rng.choice(["none", "time", "time", "bl", "pol"])
        n = {"none": 1, "time": nt, "bl": len(cross) + len(s["ants"]), "pol": len(s["pols"])}[ax]
        k = min(n, rng.choice([2, 2, 3]))
        if ax == "time":   # consecutive times
            cuts = sorted(rng.sample(range(1, n), k - 1))
            pt = [list(range(a, b)) for a, b in zip([0] + cuts, cuts + [n])]
        else:
            pt = partition(rng, n, k)
        files.append(dict(ax=ax, parts=pt))
    spws = []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice([5, 6, 8])
        a = rng.randint(0, s["nf"] - n)
        if [a, a + n] not in spws:
            spws.append([a, a + n])
    o = dict(spws=spws)
    if rng.random() < 0.15:
        del o["spws"]
    if rng.random() < 0.4:
        o["taper"] = rng.choice(["bh", "tukey"])
    if rng.random() < 0.3:
        o["input_data_weight"] = "iC"
    if rng.random() < 0.3:
        o["norm"] = "V^-1/2"
    if rng.random() < (0.8 if s["std"] else 0.3):
        o["store_cov"] = True
        o["cov_model"] = "dsets" if s["std"] and rng.random() < 0.85 else rng.choice(["empirical", "empirical", "autos"])
    if rng.random() < 0.3:
        o["store_window"] = False
    if rng.random() < 0.3:
        o["broadcast_dset_flags"] = False
    elif rng.random() < 0.4:
        o["time_thresh"] = 0.5
    if s["beam"] and rng.random() < 0.4:
        o["Jy2mK"] = True
    if rng.random() < 0.3:
        o["pol_pairs"] = [[p, p] for p in rng.sample(s["pols"], rng.randint(1, len(s["pols"])))]
    if nd == 1 and nt >= 2 and rng.random() < 0.4:
        o["interleave_times"] = True
    if nd > 1 and nt >= 3 and rng.random() < (0.6 if s.get("t0s") else 0.1):
        o["trim_dset_lsts"] = True
    if nd > 1 and rng.random() < (0.3 if s.get("t0s") else 0.15):
        o["rephase_to_dset"] = rng.randrange(nd)
    if "rephase_to_dset" in o:
        # covariances and inverses of nearly singular ones would amplify the rounding of the phases
        o.pop("store_cov", None)
        o.pop("cov_model", None)
        o.pop("input_data_weight", None)
        o.pop("norm", None)
    exact = rng.choice(["object", "path"]) if rng.random() < 0.1 else None
    sel = {}
    if rng.random() < 0.3:
        prs = []
        for _ in range(rng.choice([1, 2, 3])):
            g = rng.choice(groups(s["ants"]))
            p = [list(rng.choice(g)), list(rng.choice(g))]
            if p not in prs:
                prs.append(p)
        sel["blpairs"] = prs
    else:
        q = rng.random()
        if q < 0.2:
            sel["exclude_auto_bls"] = True
        elif q < 0.35:
            sel["exclude_cross_bls"] = True
        if rng.random() < 0.3:
            sel["exclude_permutations"] = False
        if rng.random() < 0.3:
            sel["bl_len_range"] = rng.choice([[0, 20], [10, 30.5], [20, 100], [14, 15]])
        if rng.random() < 0.25:
            sel["bl_deg_range"] = rng.choice([[10, 100], [50, 130], [10, 170], [100, 170], [0, 180]])
        q = rng.random()
        if q < 0.12:
            sel["include_autocorrs"] = True
        elif q < 0.2:
            sel.update(include_autocorrs=True, include_crosscorrs=False)
    if exact and "include_autocorrs" not in sel:    # (there is no window function of zero length)
        o["exact"] = exact
    for f in files:
        # a reader that is asked for baselines or polarizations refuses files without them
        if (f["ax"] == "bl" and "blpairs" in sel) or (f["ax"] == "pol" and "pol_pairs" in o):
            f.update(ax="none", parts=[[0]])
    if "blpairs" in sel:
        s["missing"] = [m for m in s["missing"] if not any(sorted(b) == m[1:] for p in sel["blpairs"] for b in p)]
    allp = [[a, b] for a in range(nd) for b in range(nd) if a <= b or rng.random() < 0.2]
    dp = None
    if nd > 1 and rng.random() < 0.6:
        dp = rng.sample(allp, rng.randint(1, min(4, len(allp))))
    labels = None if rng.random() < 0.4 else rng.sample(["even", "odd", "n1", "2 b"], nd)
    if o.get("interleave_times"):
        labels = labels and None
    vs = []
    nv = rng.choice([1, 2, 2, 3, 4])
    for v in range(nv):
        x = dict(chunk=rng.choice([None, None, 1, 2, 3]), style=[rng.choice(["list", "glob", "list1"]) for _ in range(nd)],
                 forder=[round(rng.random(), 4) for _ in range(6)], fresh=rng.random() < 0.4, proc=rng.random() < 0.3)
        if nd > 1 and "rephase_to_dset" not in o and rng.random() < 0.5:
            x["perm"] = rng.sample(range(nd), nd)
        if rng.random() < 0.15:
            x["overwrite"] = False
        if rng.random() < 0.15:
            x["objects"] = True
        elif rng.random() < 0.25:
            x["script"] = rng.choice(["~", " "])
        if rng.random() < 0.25 and v < nv - 1:
            x["old"] = True   # an execution with other options under the same names
        q = rng.random()
        if q < 0.15:
            x["bad"] = [rng.choice(["missing", "truncated"]), rng.randrange(nd), rng.randrange(3), round(rng.random(), 4)]
        elif q < 0.4:
            x["faults"] = [dict(ev=rng.choice(["h5r", "h5r", "dr", "open"]), at=rng.choice([rng.randint(1, 8), rng.randint(1, 150), rng.randint(1, 600)]),
                                do=rng.choice(["EIO", "EIO", "MemoryError", "KeyboardInterrupt", "kill", "EAGAIN"]))]
            if rng.random() < 0.15:
                x["faults"][0].update(ev="h5w", do=rng.choice(["EIO", "ENOSPC"]), at=rng.choice([rng.randint(1, 8), rng.randint(1, 120)]))
            if x["faults"][0]["ev"] == "dr":
                x["faults"][0]["do"] = rng.choice(["EIO", "kill"])
        elif q < 0.6 and nd > 1:
            x["jobs"] = rng.choice([2, 2, 3])
        vs.append(x)
    cal = rng.choice(CALS) if rng.random() < 0.15 else None
    if cal == "one":
        s.pop("t0s", None)
        o.pop("trim_dset_lsts", None)
    return dict(s=s, files=files, opt=o, sel=sel, dpairs=dp, labels=labels, group=rng.choice([None, "grp", "all of it"]),
                ext=rng.choice([None, None, "_v2"]), cal=cal, vars=vs, foreign=rng.random() < 0.5,
                listing=[rng.randrange(10**6) for _ in range(8)],
                sched=[[rng.choice([1, 2, 3, 5, 9, 20]), rng.randrange(3)] for _ in range(rng.choice([10, 40, 80]))])


# ---------------------------------------------------------------- the model
def vec(bl):
    a, b = bl
    return np.subtract(vis.POS[b], vis.POS[a])


def groups(ants):
    """Redundant groups of cross baselines, each baseline oriented alike."""
    out = []
    for q, a in enumerate(ants):
        for b in ants[q + 1:]:
            for g in out:
                v = vec(g[0])
                if np.linalg.norm(vec((a, b)) - v) < 1:
                    g.append((a, b))
                    break
                if np.linalg.norm(vec((b, a)) - v) < 1:
                    g.append((b, a))
                    break
            else:
                out.append([(a, b)])
    return out


def expected(ds, plan, i, j):
    """Baseline-pairs of a pair of data sets: a list of (baseline, baseline), baselines as frozensets."""
    s, sel = plan["s"], plan["sel"]
    have = [{frozenset(bl) for bl in u.get_antpairs()} for u in (ds.dsets[i], ds.dsets[j])]
    if "blpairs" in sel:
        prs = [(frozenset(a), frozenset(b)) for a, b in sel["blpairs"]]
        return [p for p in prs if p[0] in have[0] and p[1] in have[1]]
    auto, cross = sel.get("include_autocorrs", False), sel.get("include_crosscorrs", True)
    bad = set()
    for u in (ds.dsets[i], ds.dsets[j]):
        good = set()
        for a, b in u.get_antpairs():
            if (a == b and not auto) or (a != b and not cross):
                continue
            f = u.get_flags(a, b)
            if np.sum(f) < 0.95 * f.size:
                good |= {a, b}
        bad |= set(s["ants"]) - good
    gs = []
    if auto:
        gs.append([(a, a) for a in s["ants"]])
    if cross:
        for g in groups(s["ants"]):
            v = vec(g[0])
            n = float(np.linalg.norm(v))
            ang = float(np.degrees(np.arctan2(v[1], v[0]))) % 180
            lo, hi = sel.get("bl_len_range", [0, 1e10])
            alo, ahi = sel.get("bl_deg_range", [0, 180])
            if min(abs(ang), abs(ang - 180)) < 0.5:
                ang = 0.0
            if lo <= n <= hi and alo <= ang <= ahi:
                gs.append(g)
    out = []
    for g in gs:
        g = [frozenset(b) for b in g if b[0] not in bad and b[1] not in bad]
        for x in range(len(g)):
            for y in range(len(g)):
                if x == y and sel.get("exclude_auto_bls"):
                    continue
                if x != y and sel.get("exclude_cross_bls"):
                    continue
                if y < x and sel.get("exclude_permutations", True):
                    continue
                fwd, rev = g[x] in have[0] and g[y] in have[1], g[y] in have[0] and g[x] in have[1]
                if x != y and sel.get("exclude_permutations", True):
                    # only one order of the two baselines is formed: which one is the pipeline's choice
                    if fwd and rev:
                        out.append((g[x], g[y]))
                    elif fwd or rev:
                        out.append(("either", g[x], g[y]))
                elif fwd:
                    out.append((g[x], g[y]))
    return out


def matches(pairs, want, perm):
    """Whether the pairs stored are those of the model (one of both orders of a pair when permutations are excluded)."""
    got = []
    for a, b in pairs:
        got.append((frozenset(a), frozenset(b)))
    if len(set(got)) != len(got):
        return f"a baseline-pair is stored twice: {sorted(map(str, got))}"
    must = [w for w in want if w[0] != "either"]
    may = [frozenset(w[1:]) for w in want if w[0] == "either"]
    if perm:   # pairs are unordered
        g = sorted(sorted(map(sorted, p)) for p in got)
        m = sorted(sorted(map(sorted, p)) for p in must)
        if len({repr(x) for x in g}) != len(g):
            return f"a pair and its permutation are both stored: {g}"
        extra = [x for x in g if x not in m]
        lost = [x for x in m if x not in g]
        extra = [x for x in extra if frozenset(map(frozenset, x)) not in may]
    else:
        g, m = [list(map(sorted, p)) for p in got], [list(map(sorted, p)) for p in must]
        extra, lost = [x for x in g if x not in m], [x for x in m if x not in g]
    return f"unexpected {extra}, missing {lost}" if extra or lost else ""


# ---------------------------------------------------------------- data
def make_data(s, d, kind="data"):
    s = dict(s, t0=s["t0s"][d]) if s.get("t0s") else s
    u = vis.make_uvd(dict(s, tag=s["tags"][d])) if kind == "data" else vis.make_uvd(dict(s, tag=100 + s["tags"][d], flags=""), "std")
    u.vis_units = s.get("units", "Jy")
    for dd, ant in s["dead"]:
        if dd == d:
            m = (np.asarray(u.ant_1_array) == ant) | (np.asarray(u.ant_2_array) == ant)
            u.flag_array[m] = True
    lost = {frozenset((a, b)) for dd, a, b in s["missing"] if dd == d}
    if lost:
        u.select(bls=[bl for bl in u.get_antpairs() if frozenset(bl) not in lost])
    return u


def make_cal(s, d):
    """Gains that depend on antenna, polarization, channel and time."""
    from pyuvdata import UVCal
    s = dict(s, t0=s["t0s"][d]) if s.get("t0s") else s
    u = vis.make_uvd(dict(s, tag=s["tags"][d]))
    c = UVCal.initialize_from_uvdata(u, gain_convention="divide", cal_style="redundant", cal_type="gain", wide_band=False,
                                     jones_array="linear")
    sh = (c.Nants_data, c.Nfreqs, c.Ntimes, c.Njones)
    a, f, t, j = np.meshgrid(*[np.arange(n) for n in sh], indexing="ij")
    c.gain_array = (1 + 0.1 * a + 0.03 * d + 0.01 * f + 0.02 * t) * np.exp(1j * (0.2 * a + 0.3 * j + 0.05 * f))
    c.flag_array = np.zeros(sh, bool)
    c.quality_array = np.ones(sh)
    return c


def cut(u, f):
    if f["ax"] == "none":
        return [u]
    out = []
    for part in f["parts"]:
        if f["ax"] == "time":
            t = np.unique(u.time_array)
            v = u.select(times=[t[i] for i in part], inplace=False)
        elif f["ax"] == "bl":
            b = u.get_antpairs()
            ix = [i for i in part if i < len(b)]
            if not ix:
                continue
            v = u.select(bls=[b[i] for i in ix], inplace=False)
        else:
            v = u.select(polarizations=[u.polarization_array[i] for i in sorted(part)], inplace=False)
        out.append(v)
    return out


def options(plan, hp, old=False, oracle=False):
    o = dict(plan["opt"])
    for k in ("spws",):
        if k in o:
            o["spw_ranges"] = [tuple(w) for w in o.pop(k)]
    if "pol_pairs" in o:
        o["pol_pairs"] = [tuple(p) for p in o["pol_pairs"]]
    if old:
        o["taper"] = "hann" if o.get("taper") != "hann" else "none"
    o["beam"] = vis.make_beam(hp, plan["s"].get("beam"))
    how = o.pop("exact", None)
    if how:
        o.update(exact_windows=True, ftbeam="ft_beam" if how == "path" or oracle else ft_beam(hp, plan["s"]))
    return o


def ft_beam(hp, s, pol="xx"):
    return hp.uvwindow.FTBeam.gaussian(vis.FREQ0 + vis.DFREQ * np.arange(s["nf"]), 9.0 if pol == "xx" else 11.0, pol, npix=9)


def write_ft_beams(hp, s, one):
    import h5py
    for pol in vis.POLS:
        b = ft_beam(hp, s, "xx" if pol == "xx" or one else "yy")
        with h5py.File(f"ft_beam_{pol}.hdf5", "w") as f:
            f["mapsize"], f["freq"], f["FT_beam"] = [b.mapsize], b.freq_array, b.ft_beam


def reference(plan, hp):
    """A PSpecData object on the unsplit data, prepared as the options say."""
    o = plan["opt"]
    nd = len(plan["s"]["tags"])
    us = [make_data(plan["s"], d) for d in range(nd)]
    sd = [make_data(plan["s"], d, "std") for d in range(nd)] if plan["s"]["std"] else None
    if plan["cal"]:
        from pyuvdata import utils as uvutils
        for us2 in (us, sd or []):
            for d, u in enumerate(us2):
                uvutils.uvcalibrate(u, make_cal(plan["s"], 0 if plan["cal"] == "one" else d), inplace=True)
    if o.get("trim_dset_lsts"):
        # the integrations that all data sets have
        steps = [{int(round((t - vis.T0) / vis.DT)) for t in u.time_array} for u in us]
        common = set.intersection(*steps)
        for u in us + (sd or []):
            u.select(times=[t for t in np.unique(u.time_array) if int(round((t - vis.T0) / vis.DT)) in common])
    if o.get("interleave_times"):
        t = np.unique(us[0].time_array)
        n = len(t) - len(t) % 2
        us = [us[0].select(times=t[0:n:2], inplace=False), us[0].select(times=t[1:n:2], inplace=False)]
        if sd:
            sd = [sd[0].select(times=t[0:n:2], inplace=False), sd[0].select(times=t[1:n:2], inplace=False)]
    ds = hp.PSpecData(us, [None for _ in us], dsets_std=sd, labels=labels_of(plan, len(us)), beam=vis.make_beam(hp, plan["s"].get("beam")))
    if o.get("rephase_to_dset") is not None:
        ds.rephase_to_dset(o["rephase_to_dset"])
    if o.get("broadcast_dset_flags", True):
        kw = {}
        if "spws" in o:
            kw["spw_ranges"] = [tuple(w) for w in o["spws"]]
        ds.broadcast_dset_flags(time_thresh=o.get("time_thresh", 0.2), **kw)
    if o.get("Jy2mK"):
        ds.Jy_to_mK()
    return ds


def labels_of(plan, n):
    return list(plan["labels"]) if plan["labels"] and len(plan["labels"]) == n else [f"dset{i}" for i in range(n)]


def estimate(plan, hp, ds, i, j, bls1, bls2, old):
    o = options(plan, hp, old, True)
    kw = {k: o[k] for k in ("spw_ranges", "taper", "input_data_weight", "norm", "store_cov", "cov_model", "store_window", "exact_windows", "ftbeam") if k in o}
    kw.setdefault("taper", "none")
    kw.setdefault("norm", "I")
    pols = o.get("pol_pairs")
    if pols is None:
        names = {v: k for k, v in vis.POLS.items()}
        pols = [(names[p], names[p]) for p in sorted({int(p) for d in ds.dsets for p in d.polarization_array})]
    return ds.pspec(bls1, bls2, (i, j), pols, verbose=False, **kw)


class Abandon(Exception):
    pass


class Oracle:
    def __init__(self, plan, sim):
        self.plan = plan
        self.hp = sim.hp
        self.refs = {}
        self.ds = sim.must(lambda: est.quiet(lambda: reference(plan, self.hp)), "reference")
        n = len(self.ds.dsets)
        self.n = n
        self.labels = labels_of(plan, n)
        if plan["opt"].get("interleave_times"):
            self.pairs = [(0, 1)]
        elif plan["dpairs"] is not None:
            self.pairs = [tuple(p) for p in plan["dpairs"]]
        elif n > 1:
            self.pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        else:
            self.pairs = [(0, 0)]
        self.want = {p: expected(self.ds, plan, *p) for p in self.pairs}
        # the pipeline names the spectra it makes after the data sets
        self.group = plan["group"] or "_".join(self.labels)

    def name(self, p):
        return f"{self.labels[p[0]]}_x_{self.labels[p[1]]}{self.plan['ext'] or ''}"

    def keyed(self, p, blps, old, sim):
        """Direct estimate of exactly these baseline-pairs."""
        key = (p, tuple(sorted(blps)), old)
        if key not in self.refs:
            prs = sorted(blps)
            u = sim.must(lambda: est.quiet(lambda: estimate(self.plan, self.hp, self.ds, p[0], p[1], [q[0] for q in prs],
                                                            [q[1] for q in prs], old)), "direct estimate")
            self.refs[key] = fx.keyed(u)
        return self.refs[key]


def sig(x):
    return fx.digest(fx.state(x))


def contents(sim, fn):
    """{(group, name): UVPSpec} read by a process of its own; None if the container cannot be read."""
    if not os.path.exists(sim.path(fn)):
        return {}
    hp = sim.hp

    def f():
        c = hp.PSpecContainer(fn, mode="r", keep_open=False)
        t = c.tree(return_str=False)
        return {(g, n): c.get_pspec(g, n) for g in t for n in t[g]}
    o = sim.call(f, None, "look")
    if not o.ok:
        if sim.close_faults and isinstance(o.exc, BlockingIOError):
            raise Abandon()    # the disk failed while HDF5 closed the file: it stays locked
        if getattr(sim, "writer_killed", False) and isinstance(o.exc, OSError):
            raise Abandon()    # a writer was killed: HDF5 refuses the file (see C05)
        raise Violation("container-unreadable", f"{o!r}\n{getattr(o.exc, 'sim_tb', '')}")
    return o.value


def judge(sim, orc, plan, p, u, old):
    """'' when the stored spectrum is the right one of this data set pair."""
    blps = [tuple(map(tuple, b)) for b in u.get_blpairs()]
    unordered = "blpairs" not in plan["sel"] and plan["sel"].get("exclude_permutations", True)
    d = matches(blps, orc.want[p], unordered)
    if d:
        return "baseline-pairs: " + d
    want, wm = orc.keyed(p, blps, old, sim)
    got, gm = fx.keyed(u)
    d = fx.keyed_diff(want, got, close="loose" if "rephase_to_dset" in plan["opt"] else True)
    if d:
        return d
    for k in sorted(set(wm) | set(gm), key=str):
        if not (k in wm and k in gm and (wm[k] == gm[k] or fx.close_norm(wm[k], gm[k], 1e-7))):
            return f"metadata {k} differs"
    w = options(plan, orc.hp, old).get("taper", "none")
    if u.taper != w:
        return f"taper {u.taper}, should be {w}"
    return ""


def execute(plan, sim):
    s = plan["s"]
    nd = len(s["tags"])
    paths = []
    for d in range(nd):
        os.mkdir(sim.path(f"d{d}"))
        ps = []
        for q, v in enumerate(cut(make_data(s, d), plan["files"][d])):
            fn = f"d{d}/part{q}.uvh5"
            v.write_uvh5(sim.path(fn))
            ps.append(fn)
        if s["std"]:
            make_data(s, d, "std").write_uvh5(sim.path(f"d{d}/std.uvh5"))
        if plan["cal"] in CALS[:4]:
            make_cal(s, d).write_calfits(sim.path(f"d{d}/cal.calfits"))
        paths.append(ps)
    if plan["opt"].get("exact"):
        write_ft_beams(sim.hp, s, plan["opt"]["exact"] == "object")
    orc = Oracle(plan, sim)
    fn = "out.h5"
    if plan["foreign"]:
        c = sim.must(lambda: sim.hp.PSpecContainer(fn, mode="rw", keep_open=False), "container")
        for g, n, t in ((orc.group, "mine", 8), ("zz", "dset0_x_dset1", 9)):
            sim.must(lambda: c.set_pspec(g, n, fx.make_uvp(sim.hp, dict(tag=t, blpairs=[[[1, 2], [1, 2]]], times=[0], spws=[[0, 3]], pols=[1515]))), "store another spectrum")
    for nv, v in enumerate(plan["vars"]):
        try:
            run_variant(plan, sim, orc, paths, fn, v, nv)
        except Abandon:
            sim.evals["file left locked"] += 1
            break
    sim.sigs.add(f"{nd}:{[f['ax'] for f in plan['files']]}:{sorted(plan['sel'])}:{sorted(plan['opt'])}:"
                 f"{[(v.get('jobs'), v.get('bad', [0])[0], [f['do'] for f in v.get('faults', [])], v['chunk'], v['fresh']) for v in plan['vars']]}")


def argv(dsets, fn, o, sep):
    """The command line that asks for the same as these options of pspec_run."""
    o = dict(o)
    a = list(dsets) + [fn, "--file_type", "uvh5"]
    if not o.pop("include_crosscorrs", True):
        a.append("--exclude_crosscorrs")
    # options that are on or off by default differently for the function
    for k, default in (("exclude_permutations", True), ("broadcast_dset_flags", True), ("store_window", True), ("overwrite", True),
                       ("exclude_auto_bls", False), ("exclude_cross_bls", False), ("trim_dset_lsts", False), ("Jy2mK", False),
                       ("store_cov", False), ("include_autocorrs", False), ("interleave_times", False)):
        if o.pop(k, default):
            a.append("--" + k)
    beam = o.pop("beam", None)
    if beam is not None:
        a += ["--beam", "beam.fits"]
    for k in sorted(o):
        x = o[k]
        if k in ("spw_ranges", "dset_pairs", "pol_pairs"):
            x = [",".join(sep.join(map(str, w)) for w in x)]
        elif k == "blpairs":
            x = [",".join(sep.join(str(n) for bl in w for n in bl) for w in x)]
        elif not isinstance(x, (list, tuple)):
            x = [x]
        a += ["--" + k] + [str(y) for y in x]
    return a


def run_variant(plan, sim, orc, paths, fn, v, nv):
    s = plan["s"]
    nd = len(s["tags"])
    if v["fresh"] and nv and not plan["foreign"]:
        fn = f"out{nv}.h5"
    if v["proc"]:
        sim.new_process("again")
    old = bool(v.get("old"))
    perm = v.get("perm") or list(range(nd))
    dsets = []
    for d in range(nd):
        order = sorted(range(len(paths[d])), key=lambda q: v["forder"][q % 6])
        if v["style"][d] == "glob" and not v.get("bad"):
            dsets.append(f"d{d}/part*.uvh5")
        elif v["style"][d] == "list1" and len(paths[d]) == 1:
            dsets.append(paths[d][0])
        else:
            dsets.append([paths[d][q] for q in order])
    undo = None
    if v.get("bad"):
        kind, d, q, x = v["bad"]
        p = sim.path(paths[d][q % len(paths[d])])
        undo = (p, p + ".keep")
        shutil.copyfile(p, p + ".keep")
        if kind == "missing":
            os.remove(p)
        else:
            with open(p, "r+b") as fh:
                fh.truncate(int(x * (os.path.getsize(p) - 1)))
    before = {k: sig(u) for k, u in contents(sim, fn).items()}
    inv = {p: q for q, p in enumerate(perm)}
    pairs = [(inv[a], inv[b]) for a, b in orc.pairs] if not plan["opt"].get("interleave_times") else None
    jobs = [pairs]
    if v.get("jobs") and pairs and len(pairs) > 1:
        k = min(v["jobs"], len(pairs))
        jobs = [pairs[q::k] for q in range(k)]

    def job(hp, prs, conc, args=False):
        o = options(plan, hp, old)
        o.update({k: x for k, x in plan["sel"].items() if k != "blpairs"})
        if "blpairs" in plan["sel"]:
            o["blpairs"] = [tuple(map(tuple, p)) for p in plan["sel"]["blpairs"]]
        if v["chunk"] is not None:
            o["Nblps_per_group"] = v["chunk"]
        if prs is not None and (plan["dpairs"] is not None or conc or v.get("perm")):
            o["dset_pairs"] = list(prs)
        if plan["labels"] and len(plan["labels"]) == nd:
            o["dset_labels"] = [plan["labels"][perm[q]] for q in range(nd)]
        elif v.get("perm"):
            o["dset_labels"] = [f"dset{perm[q]}" for q in range(nd)]
        if plan["group"] or v.get("perm"):
            o["groupname"] = orc.group
        if plan["ext"]:
            o["psname_ext"] = plan["ext"]
        if "overwrite" in v:
            o["overwrite"] = v["overwrite"]
        if conc:
            o.update(tsleep=0.1, maxiter=400)
        give = [dsets[perm[q]] for q in range(nd)]
        if v.get("objects"):
            give = [make_data(s, perm[q]) for q in range(nd)]
        if s["std"]:
            o["dsets_std"] = [f"d{perm[q]}/std.uvh5" for q in range(nd)]
            if v.get("objects"):
                o["dsets_std"] = [make_data(s, perm[q], "std") for q in range(nd)]
        if plan["cal"]:
            o["cals"] = [{"paths": f"d{perm[q]}/cal.calfits", "globs": f"d{perm[q]}/*.cal*", "lists": [f"d{perm[q]}/cal.calfits"],
                          "one": "d0/cal.calfits"}.get(plan["cal"]) or make_cal(s, perm[q]) for q in range(nd)]
            if plan["cal"] == "one":
                o["cals"] = o["cals"][0]
        if args:
            return give, o
        return est.quiet(lambda: hp.pspecdata.pspec_run(give, fn, file_type="uvh5", verbose=False, **o))

    if v.get("script") and "exact" not in plan["opt"] and not plan["cal"] and len(jobs) == 1 and not v.get("bad") and not v.get("objects"):
        # the same as a command line
        dsets = [f"d{d}/part*.uvh5" if len(paths[d]) > 1 else paths[d][0] for d in range(nd)]
        give, o = job(sim.hp, jobs[0], False, True)
        hp = sim.hp
        undo_stub = cont.stub_beam_files(hp, lambda uvbeam, cosmo=None: vis.make_beam(hp, s.get("beam")))
        outs = [est.quiet(lambda: cont.run_script(sim, "pspec_run.py", argv(give, fn, o, v["script"]), dict(faults=v.get("faults", []))))]
        undo_stub()
        sim.evals["command lines"] += 1
    elif len(jobs) == 1:
        # without an explicit order of the pairs the pipeline forms its own from the order of the data sets
        outs = [sim.call(lambda: job(sim.hp, jobs[0], False), dict(faults=v.get("faults", [])), "pspec_run")]
    else:
        outs = [None] * len(jobs)

        def body(q):
            def run(p):
                outs[q] = sim.call(lambda: job(p.hp, jobs[q], True), None, f"pspec_run {q}")
            return run
        sim.run_procs([body(q) for q in range(len(jobs))])
        sim.evals["concurrent jobs"] += 1
    nodata = any(o.ok and o.value is None for o in outs)
    if undo:
        os.replace(undo[1], undo[0])
    fired = any(o.fired for o in outs)
    if any(o.killed for o in outs):
        sim.writer_killed = True
    if sim.current.dead or any(o.killed for o in outs) or fired:
        for o in outs:
            o.value = None
        sim.new_process("after failure")
    complete = all(o.ok for o in outs)
    refused = v.get("overwrite") is False and any((orc.group, orc.name(p)) in before for p in orc.pairs)
    if not complete and not fired and not undo and not refused:
        bad = [o for o in outs if not o.ok][0]
        raise Violation("pipeline-failed", f"{v}: {bad!r}\n{getattr(bad.exc, 'sim_tb', '')}")
    sim.evals["complete" if complete else "failed"] += 1
    if complete and nodata and (undo or fired):
        complete = False    # reported as a warning: no data
    after = contents(sim, fn)
    mine = {(orc.group, orc.name(p)): p for p in orc.pairs}
    for k in before:
        if k not in mine and (k not in after or sig(after[k]) != before[k]):
            raise Violation("other-spectrum-changed", f"{k} of the container changed")
    for k in after:
        if k not in mine and k not in before:
            raise Violation("unexpected-name", f"{k} appeared; expected {sorted(mine)}")
    if refused:
        if complete and not undo and not fired:
            raise Violation("overwritten", f"overwrite=False, but names of {sorted(before)} were accepted again: {v}")
        for k in before:
            if k not in after or sig(after[k]) != before[k]:
                raise Violation("overwritten", f"{k} changed although overwrite=False: {v}")
    for k, p in mine.items():
        if not orc.want[p]:
            # nothing to estimate: whatever was there stays
            if (k in after) != (k in before):
                raise Violation("spectrum-of-nothing", f"{k} has no baseline-pairs, but {'appeared' if k in after else 'vanished'}")
            continue
        if k not in after:
            if not [w for w in orc.want[p] if w[0] != "either"] and k not in before:
                continue    # neither data set has the baseline in the order formed
            if complete or k in before:
                raise Violation("spectrum-missing", f"{k} is missing; execution {v}: {outs}")
            continue
        if k in before and sig(after[k]) == before[k] and not complete:
            continue
        d = judge(sim, orc, plan, p, after[k], old)
        if d:
            raise Violation("wrong-spectrum", f"{k} {'complete' if complete else 'failed'} {v}: {d}")
        sim.evals["spectra compared"] += 1
