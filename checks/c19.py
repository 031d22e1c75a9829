"""C19: a refused in-place operation leaves the object unchanged."""
import copy

from sim import fx
from sim.core import Violation
from . import ops

ID = "C19"
TECHNIQUE = "seeded histories of valid and invalid in-place operations and file errors on one object, compared step by step with a twin that never saw the refused ones"
QUICK, THOROUGH = 1500, 60000
RULE = ("one run = a seeded spectrum object and its twin, 2-6 in-place operations (select, average, fold, unit "
        "conversion, statistics, covariance, cosmology, noise estimates, selecting what several objects have in common), "
        "about half of them with invalid arguments of a seeded kind or arguments that match nothing. A refused operation "
        "must leave the object as it was in every attribute; operations that succeed are applied to the twin too, "
        "and object and twin must stay equal. Distinct and non-trivial: (operation, kind of invalid argument, "
        "optional attributes of the object, accepted/refused).")
SHRINK = ["ops"]
ASSUME = ["interruptions and disk faults inside an in-place operation are outside this property"]
KINDS = ["select", "select", "average", "average", "fold", "deltasq", "set_stats", "set_stats_slice", "approx_cov", "set_cosmo",
         "noise_error", "psn_corr", "exact", "bias", "common_ip"]


def gen(rng, i):
    p = dict(obj=ops.gen_obj(rng, 1), ops=[], reload=rng.random() < 0.2)
    for _ in range(rng.choice([2, 3, 4, 6])):
        o = ops.gen_op(rng, KINDS, bad=0.55)
        p["ops"].append(o)
    return p


def special(hp, u, op, spec):
    """In-place operations on several objects, or reading into an object."""
    r = op["r"]
    if op["k"] == "common_ip":
        s = dict(spec)
        if r[0] < 0.3:
            s["times"] = [t + 1 for t in spec["times"]]
        elif r[0] < 0.5:
            s["blpairs"] = spec["blpairs"][:1]
        elif r[0] < 0.6:
            s["pols"] = [1313]
        elif r[0] < 0.7:
            s["spws"] = [[1, 3]]
        elif r[0] < 0.85 and len(spec["blpairs"]) > 1 and len(spec["times"]) > 1:
            # shares a baseline-pair and a time with u, but never both at once
            s["drop"] = [[j, t] for j in range(len(s["blpairs"])) for t in s["times"] if (j == 0) == (t == s["times"][0])]
        w = fx.make_uvp(hp, s)
        first = r[1] < 0.5
        return (lambda: hp.uvpspec_utils.select_common([u, w] if first else [w, u], inplace=True, times=r[2] < 0.7,
                                                       blpairs=r[3] < 0.8, spws=r[4] < 0.8, polpairs=r[5] < 0.8)), [w]
    raise ValueError


def execute(plan, sim):
    hp = sim.hp

    def fresh():
        u = fx.make_uvp(hp, plan["obj"])
        if plan["reload"]:
            u.write_hdf5("in.h5", overwrite=True)
            u = hp.UVPSpec()
            u.read_hdf5("in.h5")
        return u

    u, twin = fresh(), fresh()
    has = sorted(k for k in plan["obj"] if plan["obj"][k])
    for op in plan["ops"]:
        k = op["k"]
        before = fx.state(u)
        if k == "common_ip":
            do, others = special(hp, u, op, plan["obj"])
            ost = [fx.state(w) for w in others]
            o = sim.call(do, None, k)
            if not o.ok:
                for w, st in zip(others, ost):
                    d = fx.diff(st, fx.state(w))
                    if d:
                        raise Violation(f"changed-by-refused:{k}", f"{ops.describe(op)} ({o!r}): another object changed in {d}")
            bad = "maybe"
        else:
            b = ops.bind(hp, u, op)
            bad = b.bad
            o = sim.call(lambda: b.do(u, True), None, k)
        sim.sigs.add(f"{k}:{bad}:{o.ok}:{has}")
        sim.evals[f"{k} {'accepted' if o.ok else 'refused'}"] += 1
        if not o.ok:
            d = fx.diff(before, fx.state(u))
            if d:
                raise Violation(f"changed-by-refused:{k}", f"{ops.describe(op)} [{bad}] refused with {o!r} but changed {d}")
            continue
        if bad not in (None, "maybe"):
            # accepted although it asks for something that is not there
            sim.evals[f"accepted {k} {bad}"] += 1
        # the same step on the twin that never saw the refused ones
        if k == "common_ip":
            do2, _ = special(hp, twin, op, plan["obj"])
        else:
            b2 = ops.bind(hp, twin, op)

            def do2():
                return b2.do(twin, True)
        o2 = sim.call(do2, None, k + " twin")
        if not o2.ok:
            raise Violation(f"history-matters:{k}", f"{ops.describe(op)} succeeded on the object, not on its twin: {o2!r}")
        d = fx.diff(fx.state(twin), fx.state(u))
        if d:
            raise Violation(f"history-matters:{k}", f"after {ops.describe(op)} the object differs in {d} from one that "
                            "never saw the refused operations")
