"""C09: spectra read back exactly, and partial reads equal selections."""
import numpy as np

from sim import fx
from sim.core import Violation
from . import cont

ID = "C09"
TECHNIQUE = "seeded write/read histories with partial reads and injected read errors, deep comparison with the original and with selections of it"
QUICK, THOROUGH = 3000, 150000
RULE = ("one run = a seeded spectrum object (all optional attributes, special floating-point values, text of several "
        "kinds) written to a file or container (opened per operation or kept open) next to others, sometimes twice, then "
        "read 1-6 times by the same or a fresh process: whole, metadata only, or a seeded selection (windows, baselines "
        "as numbers or antenna pairs, baseline-pairs, times, LSTs, polarizations; also selections that match nothing), "
        "into a new or a used object, with errors injected at disk reads or HDF5 calls. A whole read must equal the "
        "original attribute by attribute; a partial read must equal the whole read with the same selection applied, and "
        "every value in it the original's value of the same spectrum, for exactly the spectra asked for. Beam files are read whole and in part. Distinct and "
        "non-trivial: (kind of read, selected axes, optional attributes, fault, result) combinations.")
SHRINK = ["reads", "others"]
ASSUME = ["names and groups without '/'", "selection lists without repeated entries"]
HEAVY = ["data_array", "wgt_array", "integration_array", "nsample_array", "window_function_array",
         "window_function_kperp", "window_function_kpara", "cov_array_real", "cov_array_imag", "stats_array"]


def gen_sel(rng, b):
    """A JSON description of a selection."""
    s = {}
    n = len(b["spws"])
    ax = rng.sample(["spws", "bls", "blpairs", "t", "polpairs"], rng.choice([1, 1, 1, 2, 2, 3]))
    if "spws" in ax:
        s["spws"] = rng.sample(range(n), rng.randint(1, n))
        s["spw_as"] = rng.choice(["int", "int", "tuple"])
    bls = sorted({tuple(x) for bp in b["blpairs"] for x in bp})
    if "bls" in ax:
        s["bls"] = [list(x) for x in rng.sample(bls, rng.randint(1, len(bls)))]
        s["bls_as"] = rng.choice(["int", "tuple"])
        s["only"] = rng.random() < 0.5
    if "blpairs" in ax:
        s["blpairs"] = rng.sample(b["blpairs"], rng.randint(1, len(b["blpairs"])))
        s["blp_as"] = rng.choice(["int", "tuple"])
    if "t" in ax:
        k = rng.choice(["times", "times", "lsts"])
        av = sorted({(t + v) / 2 for _, t, v in fx.blpts(b)})
        s[k] = rng.sample(av, rng.randint(1, len(av)))
    if "polpairs" in ax:
        s["polpairs"] = rng.sample(b["pols"], rng.randint(1, len(b["pols"])))
        s["pol_as"] = rng.choice(["int", "tuple", "str"])
    if len(b["pols"]) > 3 and rng.random() < 0.5:       # neither rows nor polarizations evenly spaced
        s["polpairs"] = [b["pols"][j] for j in rng.choice([(0, 1, 3), (0, 2, 3), (3, 0, 1)])]
        s["pol_as"] = rng.choice(["int", "tuple", "str"])
        av = sorted({(t + v) / 2 for _, t, v in fx.blpts(b)})
        s.pop("lsts", None)
        s["times"] = rng.sample(av, max(1, len(av) - 1))
    r = rng.random()
    if r < 0.04:
        s["times"] = [1e3]
    elif r < 0.06:
        s["spws"], s["spw_as"] = [7], "int"
    elif r < 0.08:
        s["polpairs"], s["pol_as"] = [1111], "int"
    elif r < 0.10:
        s["blpairs"], s["blp_as"] = [[[77, 78], [77, 78]]], "tuple"
    elif r < 0.12:
        s["times"], s["lsts"] = [0.0], [0.0]
    return s


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    b = fx.gen_spec(rng, 1, big=rng.random() < 0.8)
    b["spws"] = rng.choice([[[0, 3]], [[0, 3], [4, 5]], [[8, 4], [2, 4]], [[0, 4], [8, 4], [2, 3]],
                            [[3, 3], [9, 4], [0, 3]], [[0, 4, 6], [2, 3]], [[0, 4], [4, 4], [8, 4], [12, 4]]])
    if rng.random() < 0.2:     # enough polarizations for irregular subsets
        b["pols"] = rng.sample([1515, 1414, 1313, 1212, 1514], rng.choice([4, 5]))
        if b.get("rp"):
            b["pols"] = [q for q in b["pols"] if q != 1514]
    n = len(fx.blpts(b))
    if rng.random() < 0.4:
        b["order"] = rng.sample(range(n), n)
    p = dict(base=b, special=rng.random() < 0.25, text=rng.choice(["plain", "plain", "unicode", "empty", "long", "lines"]),
             where=rng.choice(["file", "cont", "cont-open"]), twice=rng.random() < 0.15)
    tags = cont.Tags()
    tags()
    p["others"] = [cont.gen_small(rng, tags()) for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < 0.15:
        p["ft"] = dict(nf=rng.choice([3, 6, 11]), n=rng.choice([2, 5]), pol=rng.choice(["xx", "yy", "pI", "zz"]), reads=[])
        for _ in range(rng.choice([1, 2, 3])):
            a = rng.randrange(-1, p["ft"]["nf"] + 1)
            q = dict(spw=rng.choice([None, [a, a + rng.randint(0, 4)], [a, a + rng.randint(1, 4)], [1]]))
            if rng.random() < 0.5:
                q["faults"] = [dict(ev=rng.choice(["dr", "h5r", "open"]), at=rng.randint(1, 8), do="EIO", len=rng.choice([1, 500]))]
            p["ft"]["reads"].append(q)
    p["reads"] = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        r = dict(fresh=rng.random() < 0.3, used=rng.random() < 0.3, meta=rng.random() < 0.25,
                 api=rng.choice(["read", "read", "load"]), keep=rng.random() < 0.3)
        if rng.random() < 0.65:
            r["sel"] = gen_sel(rng, b)
        if rng.random() < 0.35:
            r["faults"] = [dict(ev=rng.choice(["dr", "dr", "h5r", "open"]), at=rng.choice([rng.randint(1, 8), rng.randint(1, 60)]),
                                do=rng.choice(["EIO", "MemoryError", "KeyboardInterrupt"]), len=rng.choice([1, 1, 2, 500]))]
            f = r["faults"][0]
            if f["ev"] == "dr":
                f["do"] = "EIO"
            if f["ev"] == "h5r":
                f["when"] = rng.choice(["before", "after"])
            if f["ev"] == "open":
                f["at"], f["len"] = 1, 500
        p["reads"].append(r)
    return p


def make(sim, p):
    u = fx.make_uvp(sim.hp, p["base"])
    if p["special"]:
        d = u.data_array[0]
        d.flat[0] = complex(np.nan, 1)
        d.flat[-1] = complex(np.inf, -np.inf)
        d.flat[len(d.flat) // 2] = 5e-324 + 1e308j
        u.wgt_array[0].flat[0] = np.nan
        if hasattr(u, "stats_array"):
            next(iter(u.stats_array.values()))[0].flat[0] = np.nan
    t = p["text"]
    if t == "unicode":
        u.history, u.norm_units, u.taper = "hist\u00f6ry \u2206\u00b2", "\u03bcK", "blackman\u2013harris"
    elif t == "empty":
        u.history, u.weighting = "", ""
    elif t == "long":
        u.history = "0123456789" * 1500
    elif t == "lines":
        u.history = " a\nb\r\n\tc 'quoted' \"double\" \\n {x} %s \n"
    u.check()
    return u


def kwargs(b, s):
    """Keyword arguments of a selection."""
    k = {}
    if s.get("spws") is not None:
        k["spws"] = list(s["spws"])
        if s["spw_as"] == "tuple":
            k["spws"] = "ranges"
    if s.get("bls"):
        k["bls"] = [tuple(x) if s["bls_as"] == "tuple" else fx.bl_int(x) for x in s["bls"]]
        k["only_pairs_in_bls"] = s["only"]
    if s.get("blpairs"):
        k["blpairs"] = [tuple(map(tuple, x)) if s["blp_as"] == "tuple" else fx.blp_int(x) for x in s["blpairs"]]
    if s.get("times"):
        k["times"] = [float((fx.jd(np.floor(t)) + fx.jd(np.ceil(t))) / 2) if False else t for t in s["times"]]
    if s.get("lsts"):
        k["lsts"] = list(s["lsts"])
    if s.get("polpairs"):
        k["polpairs"] = list(s["polpairs"])
    return k


NUM = {15: -5, 14: -6, 13: -7, 10: -10}
STR = {15: "xx", 14: "yy", 13: "xy", 12: "yx"}


def resolve(b, s, u):
    """Selection arguments with the object's own times, ranges and polarization codes."""
    k = kwargs(b, s)
    if k.get("spws") == "ranges":
        rng_ = u.get_spw_ranges()
        k["spws"] = [rng_[j] for j in s["spws"] if j < len(rng_)]
    if k.get("times"):
        k["times"] = [pick(u.time_avg_array, u, t) for t in k["times"]]
    if k.get("lsts"):
        k["lsts"] = [pick(u.lst_avg_array, u, t) for t in k["lsts"]]
    if k.get("polpairs"):
        how = s.get("pol_as")
        out = []
        for q in k["polpairs"]:
            a, c = q // 100, q % 100
            if how == "tuple" and a in STR and c in STR:
                out.append((STR[a], STR[c]))
            elif how == "str" and a == c and a in STR:
                out.append(STR[a])
            else:
                out.append(q)
        k["polpairs"] = out
    return k


def pick(arr, u, t):
    mid = (u.time_1_array + u.time_2_array) / 2
    j = int(np.argmin(np.abs((mid - fx.T0) / fx.DT - t)))
    if abs((mid[j] - fx.T0) / fx.DT - t) > 0.01:
        return 5.5
    return float(arr[j])


def expected(b, s, orig):
    """Keys of the selected spectra, from the description of the object."""
    rows = fx.blpts(b)
    bls = s.get("bls")
    keep = []
    for bp, t, v in rows:
        ok = True
        if bls or s.get("blpairs"):
            ok = False
            if bls:
                m = [list(x) in bls for x in bp]
                ok |= all(m) if s["only"] else any(m)
            if s.get("blpairs"):
                ok |= list(map(list, bp)) in s["blpairs"]
        for k in ("times", "lsts"):
            if s.get(k):
                ok &= (t + v) / 2 in s[k]
        if ok:
            keep.append((fx.blp_int(bp), round(float(fx.jd(t)), 7), round(float(fx.jd(v)), 7)))
    spws = s["spws"] if s.get("spws") is not None else range(len(b["spws"]))
    if not keep or any(j >= len(b["spws"]) for j in spws) or (s.get("times") and s.get("lsts")):
        return None
    pols = s.get("polpairs") or b["pols"]
    pols = [q for q in pols if q in b["pols"]]
    if not pols:
        return None
    w = [(round(100e6 + 1e5 * b["spws"][j][0]), b["spws"][j][1]) for j in spws]
    sel = set(keep)
    return {k for k in orig if (k[0], k[1]) in w and k[3:6] in sel and k[6] in pols}


def execute(plan, sim):
    b = plan["base"]
    orig = make(sim, plan)
    st0 = fx.state(orig)
    key0, _ = fx.keyed(orig)
    where = plan["where"]
    fn = "s.h5"

    def write():
        if where == "file":
            for k, o in enumerate(plan["others"]):
                v = fx.make_uvp(sim.hp, o)
                sim.must(lambda: v.write_hdf5(f"o{k}.h5", overwrite=True), "write other")
            sim.must(lambda: orig.write_hdf5(fn, overwrite=True), "write")
            return
        c = sim.must(lambda: sim.hp.PSpecContainer(fn, mode="rw", keep_open=where == "cont-open"), "construct")
        for k, o in enumerate(plan["others"]):
            v = fx.make_uvp(sim.hp, o)
            sim.must(lambda: c.set_pspec("g", f"o{k}", v, overwrite=True), "store other")
        sim.must(lambda: c.set_pspec("g", "n", orig, overwrite=True), "store")
        if where == "cont-open":
            sim.must(lambda: c.save(), "save")

    write()
    if plan["twice"]:
        write()
    d = fx.diff(st0, fx.state(orig))
    if d:
        raise Violation("write-changed-object", f"{d}")
    if plan.get("ft"):
        beams(sim, plan["ft"])
    for r in plan["reads"]:
        if r["fresh"]:
            del orig
            sim.new_process("reader")
            orig = make(sim, plan)
        read(sim, plan, r, orig, st0, key0, fn)


def beams(sim, s):
    """Fourier-transformed beams: a window read from the file is that window of the whole."""
    import h5py
    f = 100e6 + 1e5 * np.arange(s["nf"])
    a = fx._mix(77, np.arange(s["nf"])[:, None, None], np.arange(s["n"])[None, :, None], np.arange(s["n"])[None, None])
    fn = f"ft_beam_{s['pol']}.hdf5"
    with h5py.File(fn, "w") as h:
        h["mapsize"], h["freq"], h["FT_beam"] = [12.5], f, a
    FT = sim.hp.uvwindow.FTBeam
    for r in s["reads"]:
        spw = r["spw"]
        ok = s["pol"] != "zz" and (spw is None or (len(spw) == 2 and 0 <= spw[0] < spw[1] <= s["nf"]))
        lo, hi = spw if ok and spw else (0, s["nf"])
        for faults in ([r["faults"]] if r.get("faults") else []) + [None]:
            o = sim.call(lambda: FT.from_file(fn, spw_range=None if spw is None else tuple(spw)), dict(faults=faults) if faults else None, "ft")
            if o.ok:
                b = o.value
                if s["pol"] == "zz" or spw is not None and len(spw) != 2:
                    raise Violation("beam-read-differs", f"{s['pol']} {spw} was accepted")
                if ok and not (np.array_equal(b.freq_array, f[lo:hi]) and np.array_equal(b.ft_beam, a[lo:hi]) and b.pol == s["pol"]
                               and float(b.mapsize) == 12.5):
                    raise Violation("beam-read-differs", f"range {spw} of {s['nf']} channels, faults {o.fired}")
                if not faults and spw is not None:
                    w = FT.from_file(fn)
                    q = sim.call(lambda: w.update_spw(tuple(spw)), None, "update")
                    if not q.ok or not (np.array_equal(b.freq_array, w.freq_array) and np.array_equal(b.ft_beam, w.ft_beam)):
                        raise Violation("beam-read-differs", f"range {spw}: differs from the same window of the whole ({q!r})")
            elif ok and not o.fired:
                raise Violation("read-failed", f"beam {spw}: {o!r}")
            q = sim.call(lambda: FT.get_bandwidth(fn), dict(faults=faults) if faults else None, "bandwidth")
            if q.ok and not np.array_equal(q.value, f) or not q.ok and not q.fired:
                raise Violation("beam-read-differs", f"bandwidth {q!r}")
            sim.evals["beam reads"] += 1


def read(sim, plan, r, orig, st0, key0, fn):
    b, where = plan["base"], plan["where"]
    hp = sim.hp
    sel = r.get("sel")
    kw = resolve(b, sel, orig) if sel else {}
    kind = ("meta" if r["meta"] else "data") + ("" if not sel else ":" + "+".join(sorted(k for k in sel if not k.endswith("_as") and k != "only")))

    def rd(kw, meta, used=False):
        if where == "file":
            u = fx.make_uvp(hp, dict(fx.DEF, cov=True, stats=["P_N", "old"], beam=True, rp=1)) if used else hp.UVPSpec()
            u.read_hdf5(fn, just_meta=meta, **kw)
            return u
        c = hp.PSpecContainer(fn, mode="r", keep_open=r["keep"])
        if r["api"] == "load" and not plan["others"]:
            us = c.get_pspec("g", just_meta=meta, **kw)
            assert len(us) == 1
            return us[0]
        return c.get_pspec("g", "n", just_meta=meta, **kw)

    whole = sim.must(lambda: rd({}, False), "whole read")
    d = fx.diff(st0, fx.state(whole))
    if d:
        raise Violation("differs-after-reading", f"{d}")
    if np.asarray(whole.labels).dtype.kind != "U" or not isinstance(whole.history, str):
        raise Violation("differs-after-reading", "text attributes read back as bytes")
    sim.evals["whole reads"] += 1
    # the selection of the whole object
    want = None
    if sel:
        skw = dict(kw)
        if "bls" not in skw:
            skw.pop("only_pairs_in_bls", None)
        o = sim.call(lambda: whole.select(inplace=False, **skw), None, "select")
        want = o.value if o.ok else None
        if fx.diff(st0, fx.state(whole)):
            raise Violation("select-changed-object", f"{fx.diff(st0, fx.state(whole))}")
        exp = expected(b, sel, key0)
        if (exp is None) != (want is None):
            raise Violation("wrong-selection", f"selection {kw} gave {o!r}, expected {'a refusal' if exp is None else len(exp)}")
        if want is not None:
            got, _ = fx.keyed(want)
            dd = fx.keyed_diff({k: key0[k] for k in exp}, got)
            if dd:
                raise Violation("wrong-selection", f"{kw}: {dd}")
        refused = want is None
    else:
        want, refused = whole, False
    for fault in ([r["faults"]] if r.get("faults") else []) + [None]:
        o = sim.call(lambda: rd(kw, r["meta"], r["used"]), dict(faults=fault) if fault else None, kind)
        sim.sigs.add(f"{kind}:{where}:{[f['ev'] for f in fault or []]}:{o.ok}:{sorted(k for k in b if b[k])}")
        if o.ok and refused:
            raise Violation("partial-read-differs", f"reading {kw} gave an object, selecting it is refused")
        if not o.ok:
            if o.fired or refused:
                continue
            raise Violation("read-failed", f"{kind} {kw}: {o!r}\n{getattr(o.exc, 'sim_tb', '')}")
        a, w = fx.state(o.value), fx.state(want)
        if r["meta"]:
            if any(h in a for h in HEAVY):
                raise Violation("partial-read-differs", f"metadata-only read holds {[h for h in HEAVY if h in a]}")
            w = {k: v for k, v in w.items() if k not in HEAVY}
        d = fx.diff(a, w)
        if d:
            raise Violation("silently-wrong-read" if o.fired else "partial-read-differs",
                            f"{kind} {kw} faults {o.fired}: {d}")
        sim.evals["partial reads" if sel else "reads"] += 1
        del o
