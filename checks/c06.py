"""C06: merging spectra inside a container conserves every spectrum."""
from sim import fx
from sim.core import Violation
from . import cont

ID = "C06"
TECHNIQUE = "seeded containers of families merged under HDF5, open and read failures and reruns, against a model of families"
QUICK, THOROUGH = 700, 60000
RULE = ("one run = a container with 1-2 groups of 1-4 families of names (names that contain or extend each other; 1-3 "
        "shards per family cut along windows, rows or polarizations; compatible, overlapping or inconsistent; merged "
        "name sometimes already present; foreign names), merged by function (container object kept open or opened per "
        "operation, or file name) or by the command-line script, once or twice with a failure at a seeded HDF5 call, "
        "disk read or open (error, failed allocation, interruption), then once without; every name is read back by an "
        "independent process after each attempt and compared with the families' states before and after, at the end "
        "with the reference. Distinct and non-trivial: (number and kinds of families, way of calling, fault) "
        "combinations.")
SHRINK = ["fams", "attempts"]
ASSUME = ["dataset names contain neither the dataset separator nor the extension separator, as documented"]

BASES = ["d1_x_d1", "d1_x_d10", "d1_x_d", "zd1_x_d1", "D1_x_d1", "d10_x_d1", "d1_x_d1x"]
PLAIN = ["uvp", "uvp2", "vp", "UVP", "u"]
EXTS = ["1", "2", "10", "a", "d1", "x", "1_2", "b_x"]


def gen_fam(rng, base, tag):
    b = dict(tag=tag, blpairs=[[[1, 2], [1, 2]], [[2, 3], [2, 3]], [[1, 3], [1, 3]]][:rng.choice([1, 2, 3])],
             times=[0, 1], spws=rng.choice([[[0, 3]], [[0, 3], [4, 4]]]), pols=rng.choice([[1515], [1515, 1414]]),
             cosmo=False)
    if rng.random() < 0.3:
        b["stats"] = ["P_N"]
    if rng.random() < 0.2:
        b["cov"] = True
    if rng.random() < 0.3:
        b["wf"] = False
    axes = [a for a, n in (("rows", len(b["blpairs"]) * 2), ("spws", len(b["spws"])), ("pols", len(b["pols"]))) if n > 1]
    ax = rng.choice(axes)
    n = dict(rows=len(b["blpairs"]) * 2, spws=len(b["spws"]), pols=len(b["pols"]))[ax]
    k = min(n, rng.choice([1, 2, 2, 3]))
    items = list(range(n))
    rng.shuffle(items)
    cuts = sorted(rng.sample(range(1, n), k - 1))
    parts = [items[i:j] for i, j in zip([0] + cuts, cuts + [n])]
    exts = rng.sample(EXTS, k)
    if rng.random() < 0.25:
        exts[rng.randrange(k)] = None     # already stored under the merged name
    bad = rng.choice(["dup", "weighting", "beamfile", "partial"]) if k > 1 and rng.random() < 0.25 else None
    return dict(base=base, spec=b, ax=ax, parts=parts, exts=exts, bad=bad, group=rng.choice(["g1", "g1", "grp 2"]))


def gen(rng, i):
    return cont.aim(rng, gen0(rng, i))


def gen0(rng, i):
    plain = rng.random() < 0.2
    bases = rng.sample(PLAIN if plain else BASES, rng.choice([1, 2, 2, 3, 4]))
    fams = [gen_fam(rng, b, t + 1) for t, b in enumerate(bases)]
    foreign = rng.sample(["foo", "foo_1", "foo_2", "d1", "x"], rng.choice([0, 0, 1, 2])) if not plain else []
    att = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        ev = rng.choice(["h5w", "h5w", "h5w", "h5r", "dr", "open"])
        att.append(dict(faults=[dict(ev=ev, at=rng.choice([rng.randint(1, 30), rng.randint(1, 150), rng.randint(1, 400)]),
                                     do=rng.choice(["EIO", "EIO", "MemoryError", "RuntimeError", "KeyboardInterrupt"]),
                                     when=rng.choice(["before", "after"]) if ev[:2] == "h5" else "before")]))
    return dict(plain=plain, fams=fams, foreign=foreign, attempts=att, keep=rng.random() < 0.5,
                way=rng.choice(["psc", "psc", "psc", "file", "script"]), ow=rng.random() < 0.6,
                groups=rng.choice([None, None, None, ["g1"], ["nope", "g1"]]), hist=rng.random() < 0.5,
                fresh=rng.random() < 0.5)


def leaf(f, k):
    b = f["spec"]
    s = dict(b)
    p = f["parts"][k]
    if f["ax"] == "rows":
        s["order"] = p
    else:
        s[f["ax"]] = [b[f["ax"]][i] for i in p]
    return s


def view(u):
    k, m = fx.keyed(u)
    return k, m, fx.global_meta(u)


def execute(plan, sim):
    hp = sim.hp
    fn = "c.h5"
    c = sim.must(lambda: hp.PSpecContainer(fn, mode="rw", keep_open=True), "construct")
    before, fams = {}, []

    def put(g, n, u):
        sim.must(lambda: c.set_pspec(g, n, u, overwrite=True), "store")
        before[(g, n)] = cont.content(u)

    for f in plan["fams"]:
        us = [fx.make_uvp(hp, leaf(f, k)) for k in range(len(f["parts"]))]
        if f["bad"] == "dup":
            us[0] = fx.make_uvp(hp, leaf(f, 1))
        elif f["bad"] == "weighting":
            us[-1].weighting = "other"
        elif f["bad"] == "beamfile":
            us[-1].beamfile = "x"
        elif f["bad"] == "partial":
            us[0] = fx.make_uvp(hp, dict(f["spec"]))
        names = [f["base"] + ("" if e is None else "_" + e) for e in f["exts"]]
        for n, u in zip(names, us):
            put(f["group"], n, u)
        old = {n: before[(f["group"], n)] for n in names}
        whole = view(fx.make_uvp(hp, f["spec"]))
        skip = None in f["exts"] and not plan["ow"]
        if plan["groups"] and f["group"] not in plan["groups"]:
            skip = True
        fams.append(dict(f, old=old, whole=whole, can=not (f["bad"] or skip)))
    for k, n in enumerate(plan["foreign"]):
        put("g1", n, fx.make_uvp(hp, dict(tag=100 + k, cosmo=False)))
    foreign = {("g1", n): before[("g1", n)] for n in plan["foreign"]}
    if not before:
        return
    sim.must(lambda: c.data.close(), "close")
    c.data = None
    del c

    def state_of(f, got):
        """'old', 'new' or a description of the damage."""
        g, base = f["group"], f["base"]
        mine = {n: v for (h, n), v in got.items() if h == g and n in set(f["old"]) | {base}}
        if {n: cont.content(v) if not isinstance(v, str) else v for n, v in mine.items()} == f["old"]:
            return "old" if set(mine) != {base} or len(f["old"]) > 1 else "same"
        if f["can"] and set(mine) == {base} and not isinstance(mine[base], str):
            u = mine[base]
            try:
                k, m, gm = view(u)
            except ValueError as e:
                return f"merged spectrum is inconsistent: {e}"
            if (k, m) == f["whole"][:2] and gm == f["whole"][2]:
                return "new"
            return "merged spectrum is wrong: " + (fx.keyed_diff(f["whole"][0], k) or "metadata")
        return f"{ {n: (v if isinstance(v, str) else 'spectrum') for n, v in mine.items()} } from {sorted(f['old'])}"

    def check(what, rc, nfault):
        got = read_specs(sim, fn)
        known = set(foreign) | {(f["group"], n) for f in fams for n in list(f["old"]) + [f["base"]]}
        if set(got) - known:
            raise Violation(f"debris-after-{what}", str(sorted(set(got) - known)))
        for key, d in foreign.items():
            if key not in got or isinstance(got[key], str) or cont.content(got[key]) != d:
                raise Violation(f"foreign-damaged-after-{what}", f"{key}: {got.get(key, 'gone')!s:.80}")
        left = 0
        sts = []
        for f in fams:
            st = state_of(f, got)
            sts.append(st)
            if st not in ("old", "new", "same"):
                raise Violation(f"family-damaged-after-{what}", f"{f['group']}/{f['base']}: {st}")
            if st == "old" and f["can"]:
                left += 1
        if rc == "ok" and left > nfault:
            raise Violation(f"not-merged-after-{what}",
                            f"{left} families left unmerged with {nfault} faults: {[(f['base'], s) for f, s in zip(fams, sts)]}")
        sim.evals["families"] += len(fams)
        return left

    def merge(op, way, keep):
        kw = dict(dset_split_str=None) if plan["plain"] else {}
        if way == "script":
            args = [fn] + (["--dset_split_str", ""] if plan["plain"] else [])
            return cont.run_script(sim, "psc_merge_spectra.py", args, op, "merge script")
        kw.update(overwrite=plan["ow"], verbose=False, merge_history=plan["hist"], groups=plan["groups"])
        if way == "file":
            return sim.call(lambda: sim.hp.container.combine_psc_spectra(fn, **kw), op, "merge file")
        o = sim.call(lambda: sim.hp.PSpecContainer(fn, mode="rw", keep_open=keep), None, "open")
        if not o.ok:
            raise Violation("cannot-open", repr(o))
        c = o.value
        o.value = None
        o = sim.call(lambda: sim.hp.container.combine_psc_spectra(c, **kw), op, "merge")
        sim.call(c._close if hasattr(c, "_close") else c.data.close, None, "close")
        return o

    way = plan["way"]
    if way == "script":
        # the script has no overwrite or groups option
        for f in fams:
            f["can"] = not f["bad"] and None not in f["exts"]
    names = {f["group"] for f in fams} | ({"g1"} if foreign else set())
    nogroup = plan["groups"] is not None and not set(plan["groups"]) & names and way != "script"
    for att in plan["attempts"]:
        o = merge(att, way, plan["keep"])
        fired = list(o.fired)
        if not o.ok and not fired and not nogroup:
            raise Violation("merge-failed", f"{o!r} {getattr(o.exc, 'sim_tb', '')}")
        rc = "ok" if o.ok else "failed"
        if fired:
            sim.sigs.add(f"{len(fams)}:{way}:{plan['keep']}:{fired[0][0]}:{fired[0][1]}:{fired[0][2]}:{rc}")
        del o
        if plan["fresh"] or way != "psc" or sim.close_faults:
            sim.new_process("next")
        if sim.close_faults:
            sim.probes["disk failed while HDF5 closed the file"] += 1
            return   # HDF5 itself does not survive this
        check("failed-merge" if fired else "merge", rc, len(fired))
    sim.sigs.add(f"{sorted((len(f['parts']), f['ax'], f['bad'] or '') for f in fams)}:{way}:{plan['ow']}")
    o = merge(None, way, plan["keep"])
    if not o.ok and not nogroup:
        raise Violation("merge-failed", f"{o!r} {getattr(o.exc, 'sim_tb', '')}")
    del o
    sim.new_process("reader")
    check("merge", "ok" if not nogroup else "failed", 0)


def read_specs(sim, fn):
    """{(group, name): object or error text} seen by an independent fault-free process."""
    from sim.core import Proc, activate

    old = (sim.main, sim.current)
    p = Proc(sim, "reader")
    sim.current = p
    try:
        o = sim.call(lambda: p.hp.PSpecContainer(fn, mode="r", keep_open=True), None, "reader open")
        if not o.ok:
            raise Violation("container-unreadable", repr(o))
        c = o.value
        tree = sim.must(lambda: c.tree(return_str=False), "reader tree")
        out = {}
        for g, ns in tree.items():
            for n in ns:
                q = sim.call(lambda: c.get_pspec(g, n), None, "reader get")
                out[(g, n)] = q.value if q.ok else f"error {q!r}"
        sim.call(lambda: c.data.close(), None, "close")
        return out
    finally:
        sim.main, sim.current = old
        activate(sim.current.mods)
