"""C15: derived and stored objects share no state with their sources."""
import numpy as np

from sim import fx, vis
from sim.core import Violation
from . import est, ops, visops

ID = "C15"
TECHNIQUE = "seeded operation histories over a family of objects derived from one another, stored and fetched, with one member altered in place at a time; deep snapshots of all others are the invariant"
QUICK, THOROUGH = 2500, 80000
RULE = ("one run = one or two seeded source objects and 3-10 steps. A step derives further objects (all operations that "
        "return spectrum objects: select, average, fold, bin, convert, combine, subtract, overlap, common selection, "
        "bootstrap, add, copies), stores an object (file, container opened once or per call) and fetches it one or more "
        "times, or alters one object (every array, dictionary, list and nested object it holds is overwritten in place, "
        "or a seeded in-place operation is applied, possibly interrupted at a seeded source line). After every step all "
        "other live objects must be unchanged in every attribute; what is stored must still be what was stored. "
        "One run in fourteen estimates power spectra from seeded visibilities, then alters the result, the data, the beam or "
        "the arguments; one in sixteen does so with operations on visibilities (temperatures, pseudo-Stokes, simulations). Distinct and non-trivial: (step kind, operation, member altered, outcome) combinations.")
SHRINK = ["steps"]
ASSUME = ["arrays handed out by getters are not objects in the sense of the property"]
DERIVE = ["select", "select", "average", "average", "fold", "deltasq", "set_stats", "approx_cov", "set_cosmo", "spherical",
          "delay_bins", "boot_avg", "boot_err", "subtract", "common", "combine", "recombine", "add", "overlap", "copy",
          "noise_error", "psn_corr", "set_stats_slice", "bias", "exact"]


def gen(rng, i):
    if rng.random() < 0.06:
        p = visops.gen(rng, i)
        for o in p["ops"]:
            o.pop("faults", None)
            o["k"] = rng.choice(visops.NEW)
        return dict(p, steps=[], alter=rng.choice(["result", "inputs"]))
    if rng.random() < 0.07:
        s = vis.gen_data(rng, rng.choice([1, 2, 2]))
        s["ants"] = s["ants"][:3]
        return dict(data=s, req=est.gen_request(rng, s), req2=est.gen_request(rng, s), steps=[],
                    alter=rng.choice(["result", "result", "data", "beam", "args"]), v=rng.randrange(100))
    p = dict(obj=ops.gen_obj(rng, 1), second=rng.choice(["", "tag", "part", "part", "pols", "spw"]), reload=rng.random() < 0.3, steps=[])
    for _ in range(rng.choice([3, 4, 6, 8, 10])):
        r = rng.random()
        if r < 0.5:
            st = dict(s="derive", op=ops.gen_op(rng, DERIVE, bad=0.03))
        elif r < 0.65:
            st = dict(s="store", kind=rng.choice(["file", "cont", "keep"]), times=rng.choice([1, 1, 2]), all=rng.random() < 0.3)
        elif r < 0.85:
            st = dict(s="scramble")
        else:
            st = dict(s="inplace", op=ops.gen_op(rng, sorted(ops.INPLACE), bad=0.1))
            if rng.random() < 0.2:
                st["fault"] = dict(ev="line", at=int(10 ** rng.uniform(0, 2.7)), do=rng.choice(["KeyboardInterrupt", "MemoryError"]))
        st["w"] = round(rng.random(), 6)
        st["v"] = round(rng.random(), 6)
        p["steps"].append(st)
    p["steps"].append(dict(s="scramble", w=round(rng.random(), 6), v=0.0))
    return p


def scramble(x, seen=None, depth=0):
    """Overwrite in place everything reachable from x."""
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 8:
        return 0
    seen.add(id(x))
    n = 0
    if type(x) is np.ndarray:
        if not x.flags.writeable:
            return 0
        if x.dtype.kind in "fc":
            x[...] = -12345.678
        elif x.dtype.kind in "iu":
            x[...] = 77
        elif x.dtype.kind == "b":
            x[...] = ~x
        elif x.dtype.kind in "SU":
            x[...] = "~"
        else:
            return 0
        return 1
    if isinstance(x, dict):
        for v in list(x.values()):
            n += scramble(v, seen, depth + 1)
        for k in list(x):
            if isinstance(x[k], (int, float, str)):
                x[k] = "scrambled"
        x["scrambled"] = np.zeros(1)
        return n + 1
    if isinstance(x, list):
        for v in x:
            n += scramble(v, seen, depth + 1)
        x.append("scrambled")
        return n + 1
    if isinstance(x, tuple):
        for v in x:
            n += scramble(v, seen, depth + 1)
        return n
    if type(x).__module__.startswith("hera_pspec") and hasattr(x, "__dict__") and type(x).__name__ != "PSpecParam":
        for k, v in list(vars(x).items()):
            if type(v).__name__ == "PSpecParam":
                continue
            n += scramble(v, seen, depth + 1)
            if isinstance(v, (int, float, complex, str)) and not isinstance(v, bool):
                try:
                    setattr(x, k, "scrambled" if isinstance(v, str) else -987.5)
                except Exception:
                    pass
    return n


class Pool:
    def __init__(self):
        self.m = []   # [name, object, state]

    def add(self, name, u):
        if any(u is x[1] for x in self.m):
            raise Violation("same-object", f"{name} is the very object of another name")
        self.m.append([name, u, fx.state(u)])

    def pick(self, w):
        return self.m[int(w * len(self.m))]

    def check(self, what, but=None):
        for e in self.m:
            if e is but:
                continue
            d = fx.diff(e[2], fx.state(e[1]))
            if d:
                raise Violation(f"shared-state:{what.split()[0]}", f"{what} changed {e[0]} in {d}")


def estimate(plan, sim):
    hp, s = sim.hp, plan["data"]
    ds = sim.must(lambda: est.quiet(lambda: vis.make_ds(hp, s)), "make")
    a, k = est.arguments(s, plan["req"])
    o = sim.call(lambda: est.quiet(lambda: ds.pspec(*a, **k)), None, "pspec")
    o2 = sim.call(lambda: est.quiet(lambda: est.call(ds, s, plan["req2"])), None, "pspec")
    if not o.ok or not o2.ok:
        sim.evals["estimation refused"] += 1
        return
    u, v = o.value, o2.value
    su, sv, sd, sa = fx.state(u), fx.state(v), est.ds_state(ds), fx._norm([list(a), k])
    sim.sigs.add(f"pspec:{plan['alter']}:{sorted(plan['req']['kw'])}:{s['beam']}")
    sim.evals["estimation " + plan["alter"]] += 1
    if plan["alter"] == "result":
        scramble(u)
        su = None
    elif plan["alter"] == "data":
        for d in ds.dsets + [w for w in ds.wgts if w is not None] + [w for w in ds.dsets_std if w is not None]:
            for n in ("data_array", "nsample_array", "time_array", "lst_array", "freq_array", "integration_time", "channel_width",
                      "ant_1_array", "ant_2_array", "polarization_array"):
                getattr(d, n)[...] = 77
            d.flag_array[...] = True
            d.telescope.antenna_positions[...] = 77.0
        sd = None
    elif plan["alter"] == "beam":
        if ds.primary_beam is None:
            return
        ds.primary_beam.beam_freqs[...] = 1.0
        for n, x in list(vars(ds.primary_beam).items()):
            if n != "cosmo":
                scramble(x)
        for n, x in list(vars(ds.primary_beam.cosmo).items()):
            if isinstance(x, float):
                setattr(ds.primary_beam.cosmo, n, 0.123)
        sd = None
    else:
        scramble([x for x in a if isinstance(x, list)])
        scramble(k)
        sa = None
    for ref, now, name in ((su, lambda: fx.state(u), "the result"), (sv, lambda: fx.state(v), "another result"),
                           (sd, lambda: est.ds_state(ds), "the inputs")):
        if ref is not None:
            d = fx.diff(ref, now())
            if d:
                raise Violation("shared-state:pspec", f"altering {plan['alter']} of pspec changed {name} in {d}")
    if sa is not None and fx._norm([list(a), k]) != sa:
        raise Violation("shared-state:pspec", f"altering {plan['alter']} of pspec changed its arguments")


def execute(plan, sim):
    if "vdata" in plan:
        return visops.independent(plan, sim, scramble)
    if "data" in plan:
        return estimate(plan, sim)
    hp = sim.hp
    u = fx.make_uvp(hp, plan["obj"])
    if plan["reload"]:
        u.write_hdf5("in.h5")
        u = hp.UVPSpec()
        u.read_hdf5("in.h5")
    P = Pool()
    P.add("source 1", u)
    if plan["second"]:
        s = dict(plan["obj"])
        if plan["second"] == "tag":
            s["tag"] = 2
        elif plan["second"] == "part":
            s["times"] = [t + len(s["times"]) for t in s["times"]]
        elif plan["second"] == "spw":
            s["spws"] = [[20, 4]]
        else:
            s["pols"] = [1313]
        P.add("source 2", fx.make_uvp(hp, s))
    stored = []
    for n, st in enumerate(plan["steps"]):
        if not P.m:
            break
        e = P.pick(st["w"])
        if st["s"] == "derive":
            op = st["op"]
            other = None
            if op["k"] in ops.MULTI or op["k"] == "boot_avg":
                other = P.pick(st["v"])[1]
                if other is e[1]:
                    other = None
            b = ops.bind(hp, e[1], op, other)
            o = sim.call(lambda: b.do(e[1], False), None, op["k"])
            sim.sigs.add(f"derive:{op['k']}:{o.ok}")
            P.check(f"{op['k']} of {e[0]}")
            if o.ok and len(P.m) < 12:
                for j, v in enumerate(ops.uvps_in(o.value)):
                    if any(v is x for x in b.others):
                        if other is not None or b.others[0] is v:
                            raise Violation(f"shared-state:{op['k']}", f"{op['k']} returned one of its inputs")
                    if v is e[1]:
                        raise Violation(f"shared-state:{op['k']}", f"{op['k']} returned its input")
                    P.add(f"{op['k']}#{n}.{j} of {e[0]}", v)
                    sim.evals["objects"] += 1
            del o, b
        elif st["s"] == "store":
            fn = f"st{n}.h5"
            if st["kind"] == "file":
                sim.must(lambda: e[1].write_hdf5(fn), "write")

                def fetch(fn=fn):
                    v = hp.UVPSpec()
                    v.read_hdf5(fn)
                    return [v]
            else:
                c = sim.must(lambda: hp.PSpecContainer(fn, mode="rw", keep_open=st["kind"] == "keep"), "open")
                sim.must(lambda: c.set_pspec("g", "n", e[1]), "store")

                def fetch(c=c, st=st):
                    return c.get_pspec("g") if st["all"] else [c.get_pspec("g", "n")]
            P.check(f"storing {e[0]}")
            ref = fx.state(e[1])
            for t in range(st["times"]):
                for v in sim.must(fetch, "fetch"):
                    P.add(f"fetched#{n}.{t} of {e[0]}", v)
            stored.append((fetch, ref, e[0]))
            sim.sigs.add(f"store:{st['kind']}:{st['all']}")
        elif st["s"] == "scramble":
            k = scramble(e[1])
            sim.evals["scrambled members"] += 1
            sim.probes["arrays overwritten"] += k
            P.m.remove(e)
            P.check(f"altering {e[0]}")
            sim.sigs.add(f"scramble:{e[0].split('#')[0].split()[0]}:{len(P.m)}")
        else:
            op = st["op"]
            b = ops.bind(hp, e[1], op)
            o = sim.call(lambda: b.do(e[1], True), dict(faults=[st["fault"]]) if st.get("fault") else None, op["k"])
            P.check(f"{op['k']} in place on {e[0]}", but=e)
            if o.fired:
                P.m.remove(e)      # may be half-way
            else:
                e[2] = fx.state(e[1])
            sim.sigs.add(f"inplace:{op['k']}:{o.ok}:{bool(o.fired)}")
            del o, b
    for fetch, ref, name in stored:
        for v in sim.must(fetch, "fetch"):
            d = fx.diff(ref, fx.state(v))
            if d:
                raise Violation("stored-changed", f"what was stored of {name} reads back with other {d}")
