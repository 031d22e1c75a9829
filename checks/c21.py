"""C21: working shard by shard gives the same result as working on the whole."""
import numpy as np

from sim import fx
from sim.core import Violation
from . import ops

ID = "C21"
TECHNIQUE = ("simulated workers process shards of a data set in seeded order, with injected disk errors, crashes and restarts, and a "
             "merger joins what they stored in seeded order; compared spectrum by spectrum with the same steps applied to the whole")
QUICK, THOROUGH = 1500, 60000
RULE = ("one run = a seeded data set, 1-4 steps (selecting, folding, unit conversion, averaging within baseline-pair groups "
        "and over times with weights and error weights, delay bins, noise estimates, statistics, covariances), applied once to "
        "the whole and once to 2-6 shards (cut along baseline-pair groups, times, windows, polarizations, or two of them; "
        "made separately, by selecting, or by partial reads) by worker processes in seeded order that meet disk errors and "
        "crashes and are restarted; the stored results are merged in seeded order and fashion. Every spectrum of the merged "
        "result must carry the values of the whole. Distinct and non-trivial: (axes, number of shards, steps, source, way of "
        "merging, faults).")
SHRINK = ["steps", "faults"]
ASSUME = ["averaging over times is not cut along times; averaging groups are kept within one shard",
          "delay-bin kernels fit into every window"]
STEPS = ["select", "fold", "deltasq", "noise_error", "psn_corr", "slice", "approx_cov", "delay_bins", "average", "average",
         "noise", "spherical", "bias"]


def parts(rng, n):
    """Seeded partition of range(n) into at least two parts (one when n is 1)."""
    k = rng.randint(2, min(4, n)) if n > 1 else 1
    lab = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(lab)
    return [[i for i in range(n) if lab[i] == j] for j in range(k)]


def gen(rng, i):
    s = ops.gen_obj(rng, 1)
    while len(s["blpairs"]) < 2:
        s = ops.gen_obj(rng, 1)
    if rng.random() < 0.6:
        s["times"] = list(range(rng.choice([2, 3, 4])))
    s.pop("rp", None) if s.get("ew") else None
    nb = len(s["blpairs"])
    k = rng.randint(1, nb)
    lab = list(range(k)) + [rng.randrange(k) for _ in range(nb - k)]
    rng.shuffle(lab)
    groups = [[i for i in range(nb) if lab[i] == j] for j in range(k)]
    for g in groups:
        rng.shuffle(g)
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        steps.append(dict(k=rng.choice(STEPS), r=[round(rng.random(), 6) for _ in range(12)]))
    if not any(t["k"] == "average" for t in steps) and rng.random() < 0.4:
        steps.insert(rng.randrange(len(steps) + 1), dict(k="average", r=[round(rng.random(), 6) for _ in range(12)]))
    tavg = any(t["k"] == "average" and t["r"][0] < 0.4 for t in steps)
    sph = any(t["k"] == "spherical" for t in steps)
    tavg = tavg or any(t["k"] == "spherical" and t["r"][3] < 0.3 for t in steps)
    if not sph and len(groups) > 1 and len(s["times"]) > 1 and "order" not in s and rng.random() < 0.3:
        # the baseline-pairs of some groups lack a time
        lack = rng.randrange(len(groups))
        t = rng.choice(s["times"])
        s["drop"] = [[i, t] for i in groups[lack]]
    av = {"blp": 1 if sph else len(groups), "spw": len(s["spws"]), "pol": 1 if sph else len(s["pols"]),
          "time": 1 if tavg else len(s["times"])}
    can = [a for a in av if av[a] > 1] or ["spw"]
    axes = rng.sample(can, 1 if len(can) < 2 or rng.random() < 0.7 else 2)
    p = dict(obj=s, groups=groups, steps=steps, axes=[[a, parts(rng, av[a])] for a in axes],
             src=rng.choice(["spec", "spec", "select", "read"]), merge=rng.choice(["combine", "combine", "recursive", "add"]),
             store=rng.choice(["file", "file", "cont", "mem"]), order=[rng.random() for _ in range(24)], faults=[])
    if p["store"] != "mem":
        for _ in range(rng.choice([0, 1, 1, 2])):
            do = rng.choice(["EIO", "ENOSPC", "kill", "kill-torn"]) if p["store"] == "file" else rng.choice(["EIO", "ENOSPC"])
            p["faults"].append(dict(shard=rng.randrange(6), ev=rng.choice(["dw", "h5w"]) if p["store"] == "file" else "h5w", at=rng.randint(1, 60), do=do))
    return p


def sub(spec, axis, members, groups):
    s = dict(spec)
    if axis == "blp":
        ix = sorted(i for g in members for i in groups[g])
        s["blpairs"] = [spec["blpairs"][i] for i in ix]
        if "drop" in spec:
            s["drop"] = [[ix.index(i), t] for i, t in spec["drop"] if i in ix]
    else:
        k = {"time": "times", "spw": "spws", "pol": "pols"}[axis]
        s[k] = [spec[k][i] for i in members]
        if axis == "time" and "drop" in spec:
            s["drop"] = [d for d in spec["drop"] if d[1] in s["times"]]
    return s


def wkeys(u):
    out = []
    for j in range(len(u.spw_array)):
        s = int(u.spw_array[j])
        f = np.asarray(u.freq_array)[np.asarray(u.spw_freq_array) == s]
        out.append((round(float(f[0])), len(f)))
    return out


def near(vals, x):
    return [v for v in vals if np.min(np.abs(np.asarray(x) - v)) < 1e-8]


def resolve(whole, st, plan, done):
    """Arguments of a step by physical identity, from the whole as it is before the step."""
    r, k = st["r"], st["k"]
    a = dict(k=k)
    ub = ops.blps(whole)
    if done.get("spherical") and bool(whole.exact_windows) and k in ("average", "fold", "delay_bins", "spherical"):
        # nothing keeps the (k, k) windows of such an average apart from cylindrical ones
        return dict(k="skip")
    if k == "select":
        if r[0] < 0.5:
            a["blpairs"] = ops._pick(r[1], ub)
        if r[2] < 0.4:
            a["times"] = ops._pick(r[3], sorted(set(np.asarray(whole.time_avg_array).tolist())))
        elif r[2] < 0.5:
            a["lsts"] = ops._pick(r[3], sorted(set(np.asarray(whole.lst_avg_array).tolist())))
        if r[4] < 0.4:
            a["spws"] = ops._pick(r[5], wkeys(whole))
        if r[6] < 0.4:
            a["polpairs"] = ops._pick(r[7], [int(p) for p in whole.polpair_array])
    elif k == "bias":
        for n, x, y in (("total_bias", r[0], r[1]), ("data_bias", r[2], r[3])):
            if x < 0.7:
                a[n] = {w: 1.0 + y + 0.1 * j for j, w in enumerate(wkeys(whole))}
    elif k == "average":
        a["time_avg"] = r[0] < 0.4
        if not done.get("averaged") and r[1] < 0.8:
            gs = [[fx.blp_int(plan["obj"]["blpairs"][i]) for i in g] for g in plan["groups"]]
            gs = [[b for b in g if b in ub] for g in gs]
            gs = [g for g in gs if g]
            if r[2] < 0.4:
                gs.sort(key=lambda g: (g[0] * r[2] * 7919) % 1)
            a["groups"] = gs
            if r[3] < 0.3:
                a["weights"] = [[float(1 + int(10 * (b % 9973 * r[4] * 3.7 % 1))) for b in g] for g in gs]
        sts = sorted(getattr(whole, "stats_array", {}))
        if sts and r[5] < 0.6:
            a["error_field"] = sts if r[6] < 0.6 else sts[0]
        if sts and r[7] < 0.35:
            a["error_weights"] = sts[-1]
    elif k == "slice":
        sts = sorted(getattr(whole, "stats_array", {}))
        a.update(stat=sts[int(r[0] * len(sts))] if sts else "none", m=r[1] * 5, b=r[2] * 2000, above=r[3] < 0.5)
    elif k == "approx_cov":
        sts = sorted(getattr(whole, "stats_array", {}))
        a.update(stat=sts[0] if sts else "none")
    elif k == "noise_error":
        a.update(tsys=ops.Tsys(whole), et=[["P_N"], ["P_N", "P_SN"], "P_N"][int(r[0] * 3)], corr=r[1] < 0.7)
    elif k == "noise":
        a.update(Tsys=100 + r[0], form="Pk" if r[1] < 0.6 else "DelSq", little_h=r[2] < 0.7,
                 component=["real", "imag", "abs"][int(r[3] * 3)])
    elif k == "spherical":
        nk = 3 + int(r[0] * 3)
        kb = np.linspace(0.1, 2.5, nk)
        sts = sorted(getattr(whole, "stats_array", {}))
        a.update(kb=kb, wd=(kb[1] - kb[0]) * 0.999, kw=dict(little_h=r[1] < 0.7, time_avg=r[3] < 0.3))
        if r[4] < 0.3 or bool(whole.exact_windows):
            a["kw"]["blpair_groups"] = [[b] for b in ub] if r[4] < 0.15 else [ub]
        if bool(whole.exact_windows):
            a["kw"]["time_avg"] = False
        if sts and r[5] < 0.3 and not bool(whole.exact_windows):
            a["kw"]["error_weights"] = sts[0]
        if r[6] < 0.3 and hasattr(whole, "cov_array_real"):
            a["kw"]["weight_by_cov"] = True
    elif k == "delay_bins":
        n = min(int(np.sum(np.asarray(whole.spw_dly_array) == s)) for s in whole.spw_array)
        ker = [np.ones(2), np.array([1.0, 2.0, 1.0]), np.ones(1)][int(r[0] * 3)]
        if len(ker) > n // 2:
            ker = np.ones(1) if n > 1 else np.ones((2, 2))   # nothing fits: refused
        a.update(ker=ker, zk=np.ones(1) if r[1] < 0.5 or n < 4 else np.array([1.0, 3.0, 1.0]))
    return a


class Nothing(Exception):
    """The shard holds nothing of what is selected."""


def apply(hp, u, a):
    """Perform a resolved step on an object; returns (object, extra results)."""
    k = a["k"]
    if k == "select":
        kw = {}
        if "blpairs" in a:
            kw["blpairs"] = [b for b in a["blpairs"] if b in ops.blps(u)]
        for n, arr in (("times", "time_avg_array"), ("lsts", "lst_avg_array")):
            if n in a:
                kw[n] = near(sorted(set(np.asarray(getattr(u, arr)).tolist())), a[n])
        if "spws" in a:
            w = wkeys(u)
            kw["spws"] = [w.index(x) for x in w if x in a["spws"]]
        if "polpairs" in a:
            kw["polpairs"] = [p for p in a["polpairs"] if p in u.polpair_array]
        if any(len(v) == 0 for v in kw.values()):
            raise Nothing()
        if "times" in kw or "lsts" in kw:
            t = np.asarray(u.time_avg_array if "times" in kw else u.lst_avg_array)
            m = np.isin(t, kw.get("times", kw.get("lsts")))
            if "blpairs" in kw:
                m &= np.isin(np.asarray(u.blpair_array), kw["blpairs"])
            if not m.any():
                raise Nothing()
        return u.select(inplace=False, **kw), None
    if k == "fold":
        u.fold_spectra()
        return u, None
    if k == "bias":
        kw = {n: {j: a[n][w] for j, w in enumerate(wkeys(u))} for n in ("total_bias", "data_bias") if n in a}
        return hp.loss.apply_bias_correction(u, inplace=False, **kw), None
    if k == "deltasq":
        return u.convert_to_deltasq(inplace=False), None
    if k == "average":
        kw = dict(time_avg=a["time_avg"])
        if "groups" in a:
            own = ops.blps(u)
            ix = [i for i, g in enumerate(a["groups"]) if g[0] in own]
            kw["blpair_groups"] = [list(a["groups"][i]) for i in ix]
            if "weights" in a:
                kw["blpair_weights"] = [list(a["weights"][i]) for i in ix]
        for n in ("error_field", "error_weights"):
            if n in a:
                kw[n] = a[n]
        return u.average_spectra(inplace=False, **kw), None
    if k == "slice":
        u.set_stats_slice(a["stat"], a["m"], a["b"], above=a["above"], val=1e20)
        return u, None
    if k == "approx_cov":
        return u.add_approximate_covariance(variance_stat=a["stat"], inplace=False), None
    if k == "psn_corr":
        hp.utils.apply_P_SN_correction(u)
        return u, None
    if k == "noise_error":
        hp.utils.uvp_noise_error(u, a["tsys"], err_type=a["et"], num_steps_scalar=100, P_SN_correction=a["corr"])
        return u, None
    if k == "spherical":
        import copy
        return hp.grouping.spherical_average(u, a["kb"].copy(), a["wd"], A={}, **copy.deepcopy(a["kw"])), None
    if k == "delay_bins":
        return hp.grouping.average_in_delay_bins(u, a["ker"], zero_bin_kernel=a["zk"]), None
    if k == "noise":
        ex = {}
        for j, w in enumerate(wkeys(u)):
            for p in u.polpair_array:
                d = u.generate_noise_spectra(j, int(p), a["Tsys"], little_h=a["little_h"], form=a["form"], num_steps=100,
                                             component=a["component"])
                for b, v in d.items():
                    t = np.asarray(u.time_avg_array)[np.asarray(u.blpair_array) == b]
                    for tt, row in zip(t, np.asarray(v)):
                        ex[w + (int(p), int(b), round(float(tt), 7))] = fx._norm(np.asarray(row))
        return u, ex
    raise ValueError(k)


def execute(plan, sim):
    spec = plan["obj"]
    # the whole, in its own process
    hp = sim.new_process("whole")
    whole = fx.make_uvp(hp, spec)
    if plan["src"] == "read":
        sim.must(lambda: whole.write_hdf5("all.h5", overwrite=True), "write whole")
    args, extras, done = [], {}, {}
    for st in plan["steps"]:
        a = resolve(whole, st, plan, done)
        w0 = whole

        def do():
            import copy
            return apply(hp, copy.deepcopy(w0), a)
        o = sim.call(do, None, f"whole {a['k']}")
        if not o.ok:
            if isinstance(o.exc, Nothing):
                sim.evals["empty selection"] += 1
            else:
                sim.evals["refused " + a["k"]] += 1
                args.append(dict(a, refused=repr(o)[:300]))
            continue
        whole, ex = o.value
        if a["k"] == "average":
            done["averaged"] = True
        done[a["k"]] = True
        if ex:
            for kk, v in ex.items():
                extras[(len(args),) + kk] = v
        args.append(a)
    want, wmeta = fx.keyed(whole)
    wglob = fx.global_meta(whole)
    del whole

    # the shards
    shards = [((), spec)]
    for axis, pt in plan["axes"]:
        shards = [(key + (j,), sub(s, axis, m, plan["groups"])) for key, s in shards for j, m in enumerate(pt)]
    shards = [x for x in shards if fx.blpts(x[1])]
    todo = sorted(range(len(shards)), key=lambda j: plan["order"][j % 24])
    got_extras, stored = {}, []
    for j in todo:
        key, s = shards[j]
        faults = [dict(ev=f["ev"], at=f["at"], do=f["do"]) for f in plan["faults"] if f["shard"] == j % 6]
        for attempt in range(3):
            f = faults if attempt == 0 else []
            r = worker(plan, sim, s, key, args, f, shards[j][1])
            if r == "again":
                continue
            break
        else:
            raise Violation("worker-stuck", f"shard {key} failed three times")
        obj, ex = r
        if obj is None:
            sim.evals["empty shards"] += 1
        else:
            stored.append((key, obj))
        for kk, v in ex.items():
            if kk in got_extras:
                raise Violation("shard-overlap", f"{kk} computed by two shards")
            got_extras[kk] = v
    for a in args:
        if a.get("shards") and all(a["shards"]):
            raise Violation(f"whole-refused:{a['k']}", f"{a['k']} works on every shard of axes {plan['axes']}, but the whole "
                            f"gives {a['refused']}")
    args = [a for a in args if "refused" not in a]
    if not stored:
        return
    # the merger
    hp = sim.new_process("merger")
    objs = {}
    for key, o in stored:
        objs[key] = sim.must(lambda: load(hp, plan, key, o), f"load {key}")
    level = len(plan["axes"])
    nm = 0
    while level > 0:
        groups = {}
        for key, u in objs.items():
            groups.setdefault(key[:level - 1], []).append(u)
        new = {}
        for key, us in groups.items():
            us = [us[q] for q in sorted(range(len(us)), key=lambda q: plan["order"][(q + 7 * nm + 11) % 24])]
            nm += 1
            new[key] = us[0] if len(us) == 1 else sim.must(lambda: merge(hp, us, plan["merge"]), "merge")
        objs, level = new, level - 1
    merged = objs[()]
    got, gmeta = fx.keyed(merged)
    names = [a["k"] for a in args]
    sim.sigs.add(f"{[x[0] for x in plan['axes']]}:{len(shards)}:{names}:{plan['src']}:{plan['merge']}:{plan['store']}:"
                 f"{[f['do'] for f in plan['faults']]}")
    for n in names or ["no step"]:
        sim.evals[n] += 1
    d = fx.keyed_diff(want, got, close="loose")
    if d:
        raise Violation("shards-differ", f"steps {names}, axes {plan['axes']}: {d}")
    for k in sorted(set(wmeta) | set(gmeta), key=str):
        if k not in gmeta or k not in wmeta or not (wmeta[k] == gmeta[k] or fx.close_norm(wmeta[k], gmeta[k], 1e-9)):
            raise Violation("shards-differ", f"steps {names}, axes {plan['axes']}: metadata {k} differs")
    ggl = fx.global_meta(merged)
    for k in ("Nspws", "Nbltpairs", "Nblpairs", "Npols", "Nbls", "folded", "norm_units", "vis_units", "taper", "exact_windows",
              "weighting", "cosmo"):
        if wglob.get(k) != ggl.get(k):
            raise Violation("shards-differ", f"steps {names}, axes {plan['axes']}: {k} is {ggl.get(k)}, whole {wglob.get(k)}")
    d = fx.keyed_diff({k: dict(v=v) for k, v in extras.items()}, {k: dict(v=v) for k, v in got_extras.items()}, close=True)
    if d:
        raise Violation("shards-differ:noise", f"axes {plan['axes']}: {d}")


def merge(hp, us, how):
    if how == "combine":
        return hp.uvpspec.combine_uvpspec(us, verbose=False)
    if how == "recursive":
        return hp.uvpspec.recursive_combine_uvpspec(us)
    u = us[0]
    for v in us[1:]:
        u = u + v
    return u


def name(key):
    return "s" + "_".join(map(str, key))


def load(hp, plan, key, o):
    if plan["store"] == "mem":
        return remake(hp, o)
    if plan["store"] == "file":
        u = hp.UVPSpec()
        u.read_hdf5(name(key) + ".h5")
        return u
    return hp.PSpecContainer("shards.h5", mode="r", keep_open=False).get_pspec("shards", name(key))


def remake(hp, path):
    u = hp.UVPSpec()
    u.read_hdf5(path)
    return u


def worker(plan, sim, s, key, args, faults, spec):
    """Process one shard in a process of its own: what it stored (None: nothing was selected) and extra results, or 'again' (failed)."""
    hp = sim.new_process("worker")
    kw = {}
    if plan["src"] != "spec":
        kw["blpairs"] = [fx.blp_int(b) for b in s["blpairs"]]
        kw["polpairs"] = list(s["pols"])
        w = [[x[0], x[1]] for x in plan["obj"]["spws"]]
        kw["spws"] = [w.index([x[0], x[1]]) for x in s["spws"]]
        rows = fx.blpts(s)
        kw["times"] = sorted({float((fx.jd(float(t)) + fx.jd(float(v))) / 2) for _, t, v in rows})

    def make():
        if plan["src"] == "spec":
            return fx.make_uvp(hp, s)
        if plan["src"] == "select":
            return fx.make_uvp(hp, plan["obj"]).select(inplace=False, **kw)
        u = hp.UVPSpec()
        u.read_hdf5("all.h5", **kw)
        return u

    u = sim.must(make, f"shard {key}")
    ex = {}
    for n, a in enumerate(args):
        if "refused" in a:
            import copy
            o = sim.call(lambda: apply(hp, copy.deepcopy(u), a), None, f"shard {key} {a['k']}")
            a.setdefault("shards", []).append(o.ok or isinstance(o.exc, Nothing))
            continue
        o = sim.call(lambda: apply(hp, u, a), None, f"shard {key} {a['k']}")
        if not o.ok:
            if isinstance(o.exc, Nothing):
                return None, ex
            raise Violation(f"shard-refused:{a['k']}", f"step {n} ({a['k']}) works on the whole, but shard {key} of axes "
                            f"{plan['axes']} gives {o!r}\n{getattr(o.exc, 'sim_tb', '')}")
        u, e = o.value
        for kk, v in (e or {}).items():
            ex[(n,) + kk] = v
    if plan["store"] == "mem":
        path = name(key) + ".mem.h5"
        sim.must(lambda: u.write_hdf5(path, overwrite=True), "hand over")
        return path, ex
    if plan["store"] == "file":
        o = sim.call(lambda: u.write_hdf5(name(key) + ".h5", overwrite=True), dict(faults=faults), "store")
    else:
        o = sim.call(lambda: hp.PSpecContainer("shards.h5", mode="rw", keep_open=False).set_pspec(
            "shards", name(key), u, overwrite=True), dict(faults=faults), "store")
    if o.ok:
        return "", ex
    if o.fired:
        sim.evals["worker restarted"] += 1
        return "again"
    raise Violation("store-failed", f"{o!r}")
