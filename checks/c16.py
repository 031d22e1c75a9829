"""C16: seeded randomness is reproducible and independent of history."""
import copy

import numpy as np

from sim import fx, vis
from sim.core import Violation, perturb
from . import est, ops

ID = "C16"
TECHNIQUE = "ambient random generators drawn from and reseeded by a simulated other task before, during (at seeded source lines) and after each seeded operation, and after attempts that fail; results compared bit by bit"
QUICK, THOROUGH = 1600, 150000
RULE = ("one run = one seeded operation (group_baselines, sample_baselines, bootstrap_average_blpairs of one or several "
        "objects, bootstrap_resampled_error, noise_sim, sky_noise_sim) with seeded inputs and a seed (often 0), executed "
        "two or three times; before each execution, and at seeded source lines during it, another task draws from and "
        "reseeds the ambient generators, and some executions are preceded by an attempt stopped by an exception. All "
        "results must be identical; draws inside one result must not be copies of each other; inputs stay as they were. "
        "Distinct and non-trivial: (operation, options, seed class, disturbance) combinations.")
SHRINK = ["execs"]
ASSUME = ["the signal sky_noise_sim draws before its per-baseline loop is not covered by bl_loop_seed (as documented); it is cancelled"]


def gen(rng, i):
    k = rng.choice(["group", "sample", "boot_avg", "boot_avg", "boot_err", "boot_err", "noise", "noise", "sky", "sky"])
    p = dict(k=k, rs=rng.choice([0, 0, 0, 1, 2, 7, 12345, 2**31 - 1, rng.randrange(10**6)]), execs=[])
    if k in ("group", "sample"):
        p["n"] = rng.choice([2, 5, 9, 14, 20, 33])
        p["ng"] = rng.randint(1, p["n"])
        p["rem"] = rng.random() < 0.5
        p["nest"] = k == "sample" and rng.random() < 0.3
    elif k in ("boot_avg", "boot_err"):
        p["ng"] = rng.choice([1, 2, 4])
        p["gs"] = rng.choice([2, 3, 8])
        p["nu"] = rng.choice([1, 1, 2]) if k == "boot_avg" else 1
        p["time_avg"] = rng.random() < 0.4
        p["ns"] = rng.choice([2, 5, 8])
        p["opt"] = rng.choice(["", "robust", "ci"])
        p["nt"] = rng.choice([1, 2])
        p["ints"] = rng.random() < 0.4
        p["auto"] = k == "boot_err" and rng.random() < 0.3
    else:
        s = vis.gen_data(rng, 1)
        s["pols"] = rng.choice([["xx"], ["yy"], ["xx", "yy"]])
        s["nt"] = rng.choice([2, 3])
        p["data"] = s
        p["nextend"] = rng.choice([0, 0, 1, 2])
        p["beam"] = rng.random() < 0.5
        p["whiten"] = rng.random() < 0.4
        p["inplace"] = rng.random() < 0.3
        p["cpb"] = rng.random() < 0.4
        p["cit"] = rng.random() < 0.5
        p["dbn"] = rng.random() < 0.4
        p["amp"] = rng.choice([0.0, 10.0, 1e12])
    for j in range(rng.choice([2, 2, 3])):
        e = dict(before=rng.randrange(10**6))
        if rng.random() < 0.7:
            e["lines"] = [[int(10 ** rng.uniform(0, 3)), rng.choice([1, 1, 3, 30])] for _ in range(rng.choice([1, 3, 8]))]
        if rng.random() < 0.25:
            e["fail"] = dict(ev="line", at=int(10 ** rng.uniform(0, 2.7)), do=rng.choice(["KeyboardInterrupt", "MemoryError"]))
        p["execs"].append(e)
    return p


class SkyBeam:
    """The part of a beam simulation file that sky_noise_sim reads (stub)."""

    class primary_beam:
        freq_array = np.linspace(100e6, 200e6, 11)

    def power_beam_int(self, pol="pI", freqs=None):
        return 0.05 * (self.primary_beam.freq_array / 150e6) ** -2


def prepare(hp, p):
    """(inputs, run(inputs) -> result, check of one result)"""
    k = p["k"]
    if k in ("group", "sample"):
        bls = [(i, i + 1 + i % 3) for i in range(p["n"])]
        if p["nest"]:
            bls = [[b, (b[1], b[0] + 40)] for b in bls]

        def run(x):
            if k == "group":
                return hp.grouping.group_baselines(x[0], p["ng"], keep_remainder=p["rem"], randomize=True, seed=p["rs"])
            return hp.grouping.sample_baselines(x[0], seed=p["rs"])

        def chk(r):
            flat = [b for g in r for b in g] if k == "group" else r
            if any(b not in bls for b in flat):
                raise Violation("not-a-sample", f"{flat} has members that were not given")
            if k == "group" and len(set(map(str, flat))) != len(flat):
                raise Violation("copied-draw", f"a baseline is in more than one group: {r}")
            if k == "sample" and p["n"] >= 14 and len(set(map(str, flat))) == 1:
                raise Violation("copied-draw", f"all {p['n']} draws are the same")
        return [bls], run, chk
    if k in ("boot_avg", "boot_err"):
        spec = dict(tag=1, times=list(range(p["nt"])), spws=[[0, 3]], pols=[1515])
        n = p["ng"] * p["gs"]
        bls = [[1, 2], [2, 3], [3, 4], [4, 5], [5, 6], [6, 7], [7, 8], [8, 9]]
        pairs = [[bls[i % 8], bls[(i + i // 8) % 8]] for i in range(n)]
        spec["blpairs"] = pairs
        us = [fx.make_uvp(hp, dict(spec, tag=1 + j)) for j in range(p["nu"])]
        tup = [tuple(map(tuple, q)) for q in pairs]
        if p["ints"]:
            tup = [fx.blp_int(q) for q in pairs]
        grps = [tup[j * p["gs"]:(j + 1) * p["gs"]] for j in range(p["ng"])]

        def run(x):
            if k == "boot_avg":
                return hp.grouping.bootstrap_average_blpairs(x[0] if p["nu"] > 1 else x[0][0], x[1], time_avg=p["time_avg"], seed=p["rs"])
            return hp.grouping.bootstrap_resampled_error(
                x[0][0], blpair_groups=None if p["auto"] else x[1], time_avg=p["time_avg"], Nsamples=p["ns"], seed=p["rs"],
                robust_std=p["opt"] == "robust", cintervals=[16.0, 84.0] if p["opt"] == "ci" else None)

        def chk(r):
            if k == "boot_avg":
                w = r[1][0] if p["nu"] > 1 else r[1]
                if p["gs"] == 8 and p["ng"] == 4 and all(list(g) == list(w[0]) for g in w):
                    raise Violation("copied-draw", f"all {p['ng']} groups got the same draw {w[0]}")
            else:
                big = max(len(g) for g in r[2][0])
                if p["ns"] >= 5 and big >= 8 and all(str(w) == str(r[2][0]) for w in r[2]):
                    raise Violation("copied-draw", f"all {p['ns']} resamples have the weights {str(r[2][0])[:200]}")
                if p["ns"] >= 5 and p["gs"] == 8 and p["ng"] == 4 and not p["auto"] and \
                        all(all(list(g) == list(w[0]) for g in w) for w in r[2]):
                    raise Violation("copied-draw", "all groups of each resample got the same draw")
        return [us, grps], run, chk
    s = p["data"]
    u = vis.make_uvd(dict(s, tag=1))
    beam = vis.make_beam(hp, "gauss") if p["beam"] else None

    def rows(d):
        x = np.asarray(d.data_array)
        cross = np.asarray(d.ant_1_array) != np.asarray(d.ant_2_array)
        return x, cross

    def distinct(x, what):
        seen = {}
        for i in range(x.shape[0]):
            for q in range(x.shape[2]):
                for part in (x[i, :, q].real, x[i, :, q].imag):
                    if not np.all(np.isfinite(part)) or not np.any(part):
                        continue
                    c = part / np.abs(part).max()
                    b = np.round(c, 9).tobytes()
                    if b in seen:
                        raise Violation("copied-draw", f"{what}: the draw for ({i}, {q}) is a copy of that for {seen[b]}")
                    seen[b] = (i, q)
    if k == "noise":
        def run(x):
            d = x[0]
            if p["inplace"]:
                d = copy.deepcopy(d)
            r = hp.testing.noise_sim(d, 300.0, beam=beam, Nextend=p["nextend"] if not p["inplace"] else 0, seed=p["rs"], inplace=p["inplace"], whiten=p["whiten"])
            return d if p["inplace"] else r

        def chk(d):
            distinct(rows(d)[0], "noise_sim")
        return [u], run, chk

    def run(x):
        return hp.testing.sky_noise_sim(x[0], SkyBeam(), cov_amp=p["amp"], constant_per_bl=p["cpb"], constant_in_time=p["cit"],
                                        bl_loop_seed=p["rs"], divide_by_nsamp=p["dbn"])

    def chk(d):
        x, cross = rows(d)
        if not p["cpb"] and not p["dbn"]:
            distinct(x[cross], "sky_noise_sim")
        b = np.asarray(d.baseline_array)
        drawn = {}
        for q in range(x.shape[2]):
            for bl in np.unique(b[cross]):
                drawn[bl, q] = x[b == bl][:, :, q]
        done = []
        for key, v in drawn.items():
            for other, w in done:
                if p["amp"] == 0:
                    # noise alone: scaled by a positive number everywhere
                    m = np.isfinite(v) & np.isfinite(w) & (v != 0) & (w != 0)
                    if m.sum() < 20:
                        continue
                    bad = np.array_equal(v.real[m] > 0, w.real[m] > 0) or np.array_equal(v.imag[m] > 0, w.imag[m] > 0)
                elif p["amp"] > 1e6 and not p["cpb"]:
                    bad = np.linalg.norm(v - w) < 1e-3 * np.linalg.norm(v)
                else:
                    continue
                if bad:
                    raise Violation("copied-draw", f"sky_noise_sim: baseline {key} has the draw of {other}")
            done.append((key, v))
    return [u], run, chk


def canon(x, p):
    """Comparable form of a result."""
    if hasattr(x, "blpair_array"):
        return fx.state(x)
    if hasattr(x, "ant_1_array"):
        st = vis.uvd_state(x)
        if p["k"] == "sky" and p["cpb"]:
            # remove the unseeded common signal
            d = np.array(x.data_array)
            c = np.flatnonzero(np.asarray(x.ant_1_array) != np.asarray(x.ant_2_array))
            t = np.asarray(x.time_array)[c]
            for tt in np.unique(t):
                r = c[t == tt]
                d[r] = d[r] - d[r[0]]
            st["data_array"] = d
        return st
    if isinstance(x, (list, tuple)):
        return [canon(v, p) for v in x]
    if isinstance(x, np.ndarray):
        return fx._norm(x)
    return repr(x)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or same(a[k], b[k])]
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return ["length"]
        return [f"[{i}]{d}" for i in range(len(a)) for d in [same(a[i], b[i])] if d]
    if isinstance(a, np.ndarray):
        m = np.abs(a[np.isfinite(a)]).max(initial=0)
        ok = a.shape == b.shape and np.array_equal(np.isfinite(a), np.isfinite(b)) and \
            np.all(np.abs(a - b)[np.isfinite(a)] <= 1e-9 * m)
        return [] if ok else ["values"]
    return [] if a == b else ["value"]


def execute(plan, sim):
    hp = sim.hp
    inputs, run, chk = prepare(hp, plan)
    before = [canon(x, plan) for x in inputs]
    ref = None
    for j, e in enumerate(plan["execs"]):
        perturb(e["before"])
        if e.get("fail"):
            o = sim.call(lambda: est.quiet(lambda: run(inputs)), dict(faults=[e["fail"]]), "failing attempt")
            sim.evals["failed attempts" if not o.ok else "attempts not stopped"] += 1
            del o
        f = [dict(ev="line", at=a, len=n, do=f"rand{e['before'] % 97}") for a, n in e.get("lines", [])]
        o = sim.call(lambda: est.quiet(lambda: run(inputs)), dict(faults=f), plan["k"])
        if o.ok:
            r = o.value
            chk(r)
            c = canon(r, plan)
        elif plan.get("nu", 1) > 1 and isinstance(o.exc, (AssertionError, ValueError)):
            # the draw left one object without weights: refused, and then always refused
            c = "refused: " + str(o.exc)
            sim.evals["refused draws"] += 1
        else:
            raise Violation("unexpected-failure", f"{plan['k']} failed: {o!r}\n{getattr(o.exc, 'sim_tb', '')}")
        sim.sigs.add(f"{plan['k']}:{plan['rs'] == 0}:{bool(f)}:{bool(e.get('fail'))}:{j}:"
                     f"{[plan.get(x) for x in ('ng', 'gs', 'nu', 'time_avg', 'opt', 'nextend', 'beam', 'cpb', 'cit', 'inplace', 'nest')]}")
        sim.evals[plan["k"]] += 1
        if ref is None:
            ref = c
        else:
            d = same(ref, c)
            if d:
                raise Violation(f"not-reproducible:{plan['k']}", f"seed {plan['rs']}: execution {j + 1} differs from the first in {str(d)[:300]}")
    d = same(before, [canon(x, plan) for x in inputs])
    if d:
        raise Violation(f"input-changed:{plan['k']}", f"{d}")
