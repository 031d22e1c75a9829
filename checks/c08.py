"""C08: combining spectra does not depend on sharding, order or grouping."""
import json

from sim import fx
from sim.core import Violation
from . import cont

ID = "C08"
TECHNIQUE = "seeded shard trees merged in seeded order with checkpoints, restarts and faults, compared key by key with the whole"
QUICK, THOROUGH = 1200, 120000
RULE = ("one run = a seeded spectrum object (1-4 baseline pairs, 1-4 time pairs, 1-3 windows, 1-3 polarizations; "
        "covariance, statistics, weights, exact or plain window functions, labels, beam integrals, weighting parameters, "
        "folding) cut by a seeded tree of cuts along windows, baseline-pair-times or polarizations, rows of each shard "
        "shuffled; shards merged bottom-up in seeded order (jointly, recursively, by '+', or as files), intermediate "
        "objects sometimes saved and reloaded (file or container, in a fresh process), with read faults, failed "
        "attempts and interruptions at source lines which are then repeated; the result is compared with the whole key "
        "by key, a second seeded tree must give the same object, seeded overlapping or incompatible shards must be "
        "refused, inputs must not change. In a fifth of the runs some shards lack optional arrays: the merge then holds exactly "
        "those that all of its shards have. Distinct and non-trivial: (axes of the cuts, ways of merging, shape) "
        "combinations.")
SHRINK = ["bad"]
ASSUME = ["times of shards are bit-equal where they are the same"]


def gen_base(rng):
    b = fx.gen_spec(rng, 1, big=True)
    b["times"] = list(range(rng.choice([1, 2, 3, 4])))
    if b.get("cross") and len(b["times"]) > 2:
        b["times"] = [0, 1]
    b["spws"] = rng.choice([[[0, 3]], [[0, 3], [4, 5]], [[8, 4], [2, 4]], [[0, 4], [8, 4], [2, 3]],
                            [[0, 4], [2, 4], [8, 4]], [[3, 3], [9, 4], [0, 3]], [[0, 4, 6], [2, 3]]])
    b["pols"] = rng.choice([[1515], [1515, 1414], [1414, 1515], [1414, 1515, 1313], [1515, 1313, 1414]])
    if rng.random() < 0.2:
        b["labels"] = rng.choice([["a"], ["c", "b", "a"], ["x", "y", "z", "w"]])
    b.pop("order", None)
    n = nrows(b)
    if rng.random() < 0.6:
        b["order"] = rng.sample(range(n), n)
    return b


def nrows(b):
    t = len(b["times"])
    return len(b["blpairs"]) * (t * t if b.get("cross") else t)


def gen_tree(rng, shape, depth):
    """Recursive description of how a block (spws, rows, pols index lists) is cut."""
    axes = [a for a in ("spws", "rows", "pols") if len(shape[a]) > 1]
    if not axes or depth == 0 or (depth < 3 and rng.random() < 0.25):
        rows = list(shape["rows"])
        if rng.random() < 0.6:
            rng.shuffle(rows)
        spws, pols = list(shape["spws"]), list(shape["pols"])
        if rng.random() < 0.3:
            rng.shuffle(spws)
            rng.shuffle(pols)
        return dict(leaf=True, spws=spws, rows=rows, pols=pols)
    a = rng.choice(axes)
    items = list(shape[a])
    if rng.random() < 0.7:
        rng.shuffle(items)
    k = rng.randint(2, min(len(items), rng.choice([2, 3, 4])))
    cuts = sorted(rng.sample(range(1, len(items)), k - 1))
    parts = [items[i:j] for i, j in zip([0] + cuts, cuts + [len(items)])]
    if rng.random() < 0.5:
        rng.shuffle(parts)
    kids = [gen_tree(rng, dict(shape, **{a: p}), depth - 1) for p in parts]
    t = dict(axis=a, kids=kids, how=rng.choice(["joint", "joint", "recursive", "plus", "files"]),
             hist=rng.random() < 0.5)
    if rng.random() < 0.3:
        t["save"] = rng.choice(["file", "container"])
        t["restart"] = rng.random() < 0.5
        if rng.random() < 0.5:
            t["rfault"] = dict(ev=rng.choice(["dr", "h5r", "open"]), at=rng.randint(1, 60),
                               do=rng.choice(["EIO", "MemoryError"]))
    if rng.random() < 0.2:
        t["lfault"] = dict(ev="line", at=rng.choice([rng.randint(1, 200), rng.randint(1, 6000)]),
                           do=rng.choice(["KeyboardInterrupt", "MemoryError"]))
    return t


BAD = ["dup", "partial", "twoaxes", "weighting", "norm_units", "vis_units", "folded", "cosmo", "channel_width",
       "beamfile", "beam", "taper", "norm", "scalar", "rparams", "telescope", "partial_spw", "partial_pol", "missing"]


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    b = gen_base(rng)
    shape = dict(spws=list(range(len(b["spws"]))), rows=list(range(nrows(b))), pols=list(range(len(b["pols"]))))
    trees = [gen_tree(rng, shape, 3)]
    if rng.random() < 0.4:
        trees.append(gen_tree(rng, shape, 3))
    bad = []
    if rng.random() < 0.3:
        bad = [dict(kind=rng.choice(BAD), ax=rng.choice(["rows", "spws", "pols"]), pos=rng.randint(0, 3),
                    how=rng.choice(["joint", "recursive", "plus"])) for _ in range(rng.choice([1, 2]))]
    p = dict(base=b, trees=trees, bad=bad)
    if rng.random() < 0.2:
        # some shards carry optional arrays that others lack
        if rng.random() < 0.6:
            b["stats"] = ["P_N", "bs_std"]
        if rng.random() < 0.5:
            b["cov"] = True
        p["lack"] = [{}]
        for _ in range(rng.choice([1, 1, 2])):
            p["lack"].insert(rng.randint(0, 1), {k: v for k, v in (
                ("stats", rng.choice([["P_N"], ["bs_std"], ["P_N", "bs_std"]])), ("cov", True), ("model", "other"), ("wf", True))
                if rng.random() < 0.4})
    return p


def lacks(plan, t):
    """What the shard of a leaf lacks."""
    n = plan.get("lack")
    return n[(min(t["rows"]) + 2 * min(t["spws"]) + 3 * min(t["pols"])) % len(n)] if n else {}


def strip(u, lack):
    if "stats" in lack and hasattr(u, "stats_array"):
        for k in lack["stats"]:
            u.stats_array.pop(k, None)
        if not u.stats_array:
            del u.stats_array
    if "cov" in lack and hasattr(u, "cov_array_real"):
        del u.cov_array_real, u.cov_array_imag, u.cov_model
    if "model" in lack and hasattr(u, "cov_model"):
        u.cov_model = lack["model"]
    if "wf" in lack and hasattr(u, "window_function_array") and not u.exact_windows:
        del u.window_function_array   # (exact and other windows are not merged)
    return u


def shared(plan, t):
    """What a merge of the shards of a tree lacks: whatever is not in all of them."""
    if t.get("leaf"):
        return [lacks(plan, t)]
    return [x for k in t["kids"] for x in shared(plan, k)]


def whole_of(hp, plan, t):
    u = fx.make_uvp(hp, plan["base"])
    ls = shared(plan, t)
    both = {x.get("model") for x in ls}
    if hasattr(u, "cov_model") and len(both) > 1 and not any("cov" in x for x in ls):
        ls = ls + [dict(cov=True)]   # covariances of different models are not merged
    for x in ls:
        strip(u, x)
    return u


def leaf_spec(b, t):
    s = dict(b)
    s["spws"] = [b["spws"][i] for i in t["spws"]]
    s["pols"] = [b["pols"][i] for i in t["pols"]]
    s["order"] = [b["order"][i] if b.get("order") else i for i in t["rows"]]
    return s


def join(hp, us, how, hist):
    if how == "recursive":
        return hp.uvpspec.recursive_combine_uvpspec(us)
    if how == "plus":
        u = us[0]
        for v in us[1:]:
            u = u + v
        return u
    return hp.uvpspec.combine_uvpspec(us, merge_history=hist, verbose=False)


def restarts(t):
    return not t.get("leaf") and (bool(t.get("restart")) or any(restarts(k) for k in t["kids"]))


def build(sim, plan, t, ctr, force):
    """A loader of the merged object of a tree (force: intermediate objects must survive restarts)."""
    if t.get("leaf"):
        return lambda: strip(fx.make_uvp(sim.hp, leaf_spec(plan["base"], t)), lacks(plan, t))
    loaders = [build(sim, plan, k, ctr, force) for k in t["kids"]]
    us = [f() for f in loaders]
    files = None
    if t["how"] == "files":
        files = []
        for u in us:
            ctr[0] += 1
            fn = f"s{ctr[0]}.h5"
            sim.must(lambda: u.write_hdf5(fn, overwrite=True), "write shard")
            files.append(fn)
    before = [fx.state(u) for u in us]

    def unchanged(what):
        for k, u in enumerate(us):
            d = fx.diff(before[k], fx.state(u))
            if d:
                raise Violation("input-changed", f"{what}: shard {k} changed in {d}")

    if t.get("lfault"):
        o = sim.call(lambda: join(sim.hp, us, t["how"] if not files else "joint", t["hist"]),
                     dict(faults=[t["lfault"]]), "combine with interruption")
        unchanged(f"interrupted combine {o!r}")
        del o
    if files:
        u = sim.must(lambda: sim.hp.uvpspec.combine_uvpspec(files, merge_history=t["hist"], verbose=False),
                     f"combine files along {t['axis']}")
    else:
        u = sim.must(lambda: join(sim.hp, us, t["how"], t["hist"]), f"combine ({t['how']}) along {t['axis']}")
    unchanged("combine")
    sim.evals["merges"] += 1
    save = t.get("save") or ("file" if force else None)
    if not save:
        return lambda: u
    ctr[0] += 1
    fn = f"m{ctr[0]}.h5"
    if save == "file":
        sim.must(lambda: u.write_hdf5(fn, overwrite=True), "write merged")
    else:
        sim.must(lambda: sim.hp.PSpecContainer(fn, mode="rw", keep_open=False).set_pspec("g", "n", u, overwrite=True), "store merged")
    want = fx.keyed(u)
    del u, us
    if t.get("restart"):
        sim.fired["restart"] += 1
        sim.new_process("again")

    def rd():
        if save == "file":
            v = sim.hp.UVPSpec()
            v.read_hdf5(fn)
            return v
        return sim.hp.PSpecContainer(fn, mode="r", keep_open=False).get_pspec("g", "n")

    if t.get("rfault"):
        o = sim.call(rd, dict(faults=[t["rfault"]]), "read with fault")
        if o.ok and fx.keyed(o.value) != want:
            raise Violation("silently-wrong-read", f"after {o.fired}: {fx.keyed_diff(want[0], fx.keyed(o.value)[0])}")
        del o
    return lambda: sim.must(rd, "read merged")


def compare(u, whole, what):
    try:
        k, m = fx.keyed(u)
    except (ValueError, IndexError, KeyError) as e:
        raise Violation("inconsistent-result", f"{what}: {type(e).__name__}: {e}")
    k0, m0 = fx.keyed(whole)
    d = fx.keyed_diff(k0, k)
    if d:
        raise Violation("wrong-values", f"{what}: {d}")
    if m != m0:
        bad = [x for x in set(m) | set(m0) if m.get(x) != m0.get(x)]
        raise Violation("wrong-metadata", f"{what}: {sorted(map(str, bad))[:4]}")
    g, g0 = fx.global_meta(u), fx.global_meta(whole)
    if g != g0:
        raise Violation("wrong-metadata", f"{what}: {[x for x in set(g) | set(g0) if g.get(x) != g0.get(x)]}")


def axes(t):
    return "." if t.get("leaf") else f"{t['axis'][0]}{len(t['kids'])}{t['how'][0]}({''.join(axes(k) for k in t['kids'])})"


def execute(plan, sim):
    b = plan["base"]
    states = []
    for t in plan["trees"]:
        sim.new_process("worker")
        u = build(sim, plan, t, [0], restarts(t))()
        whole = whole_of(sim.hp, plan, t)
        compare(u, whole, axes(t))
        if not t.get("leaf") and not plan.get("lack"):
            states.append((axes(t), fx.state(u, skip=("history", "r_params"))))
        sim.sigs.add(f"{axes(t)}:{len(b['blpairs'])}:{len(b['times'])}")
    if len(states) == 2:
        d = fx.diff(states[0][1], states[1][1])
        if d:
            raise Violation("depends-on-grouping", f"{states[0][0]} and {states[1][0]} differ in {d}")
    for bad in plan["bad"]:
        refuse(sim, b, bad)


def refuse(sim, b, bad):
    """Shards that must not be combined."""
    hp = sim.hp
    ax = bad["ax"]
    n = dict(spws=len(b["spws"]), rows=nrows(b), pols=len(b["pols"]))
    if n[ax] < 2:
        ax = next((a for a in n if n[a] > 1), None)
    if ax is None:
        return
    full = {a: list(range(n[a])) for a in n}
    parts = [dict(full, leaf=True, **{ax: [i]}) for i in range(n[ax])]
    k = bad["pos"] % len(parts)
    specs = [leaf_spec(b, p) for p in parts]
    kind = bad["kind"]
    if kind == "dup":
        specs.insert(k, dict(specs[(k + 1) % len(specs)]))
    elif kind == "partial":
        if n["rows"] < 2 or ax == "rows":
            return
        specs[k]["order"] = specs[k]["order"][1:]
    elif kind == "partial_spw":
        if n["spws"] < 2 or ax == "spws":
            return
        specs[k]["spws"] = specs[k]["spws"][1:]
    elif kind == "partial_pol":
        if n["pols"] < 2 or ax == "pols":
            return
        specs[k]["pols"] = specs[k]["pols"][1:]
    elif kind == "twoaxes":
        other = [a for a in n if a != ax]
        a = other[bad["pos"] % 2]
        if a == "pols":
            specs[k]["pols"] = [1010]
        elif a == "spws":
            specs[k]["spws"] = [[20, 3]]
        else:
            specs[k]["blpairs"] = [[[31, 32], [31, 32]]]
            specs[k]["times"] = [0]
            specs[k]["order"] = [0]
    elif kind == "folded":
        specs[k]["folded"] = not specs[k].get("folded")
        if specs[k].get("ew") and specs[k]["folded"]:
            return
    elif kind == "cosmo":
        specs[k]["cosmo"] = not specs[k].get("cosmo")
    elif kind == "beam":
        specs[k]["beam"] = not specs[k].get("beam")
    elif kind == "rparams":
        # the same baseline weighted differently
        for s in specs:
            s["rp"] = 1
        specs[k]["rp"] = 2
        if ax == "pols" or (ax == "rows" and len(b["blpairs"]) > 1):
            return   # shards may have no baseline in common
    us = [fx.make_uvp(hp, s) for s in specs]
    u = us[k]
    if kind in ("weighting", "norm_units", "vis_units", "taper", "norm"):
        setattr(u, kind, "other")
    elif kind == "channel_width":
        u.channel_width = u.channel_width * 2
    elif kind == "telescope":
        u.telescope_location = u.telescope_location + 1e4
    elif kind == "beamfile":
        u.beamfile = "other.fits"
    elif kind == "scalar":
        if ax != "rows":
            return
        u.scalar_array = u.scalar_array * 1.5
    elif kind == "missing":
        del u.norm_units
    before = [fx.state(x) for x in us]
    o = sim.call(lambda: join(hp, us, bad["how"], True), None, f"combine bad {kind}")
    sim.evals["refusals"] += 1
    if o.ok:
        raise Violation(f"not-refused:{kind}", f"combining {len(us)} shards along {ax} with shard {k} bad ({kind}) "
                        f"by {bad['how']} gave an object")
    for j, x in enumerate(us):
        d = fx.diff(before[j], fx.state(x))
        if d:
            raise Violation("input-changed", f"refused combine ({kind}) changed {d} of shard {j}")
