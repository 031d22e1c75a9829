"""Container operations, the reference model (a dictionary) and independent readers."""
import io

from sim import fx
from sim.core import HarnessError

GROUPS = ["g1", "g2", "grp 3"]
NAMES = ["a", "b", "dsA_x_dsB", "dsA_x_dsB_1", "a2"]


class Specs:
    """Objects used by a run, and the digests of their contents."""

    def __init__(self, hp_of):
        self.hp_of = hp_of
        self.dig = {}
        self.rev = {}

    def make(self, hp, spec):
        u = fx.make_uvp(hp, spec)
        key = repr(sorted(spec.items()))
        if key not in self.dig:
            self.dig[key] = fx.digest(fx.state(u))
            self.rev[self.dig[key]] = spec.get("tag")
        return u, self.dig[key]

    def name(self, d):
        return self.rev.get(d, f"unknown:{d}")


def content(u):
    return fx.digest(fx.state(u))


def classify(out):
    """Outcome of a container call -> semantic result."""
    if out.killed:
        return ("killed",)
    if out.ok:
        return ("ok",)
    e = out.exc
    s = str(e)
    if isinstance(e, AttributeError) and "already exists" in s:
        return ("exists",)
    if isinstance(e, KeyError):
        return ("nokey",)
    return ("fail", type(e).__name__)


def do_op(sim, specs, c, op):
    """Perform one container operation; returns (Outcome, result)."""
    k = op["op"]
    hp = sim.hp
    if k == "set":
        u, d = specs.make(hp, op["spec"])
        o = sim.call(lambda: c.set_pspec(op["g"], op["n"], u, overwrite=op["ow"]), op, f"set {op['g']}/{op['n']}")
        return o, classify(o)
    if k == "setlist":
        us = [specs.make(hp, s)[0] for s in op["specs"]]
        o = sim.call(lambda: c.set_pspec(op["g"], list(op["ns"]), us, overwrite=op["ow"]), op, f"setlist {op['g']}")
        return o, classify(o)
    if k == "get":
        o = sim.call(lambda: c.get_pspec(op["g"], op["n"]), op, f"get {op['g']}/{op['n']}")
        return o, (("ok", content(o.value)) if o.ok else classify(o))
    if k == "getall":
        o = sim.call(lambda: c.get_pspec(op["g"]), op, f"getall {op['g']}")
        return o, (("ok", tuple(sorted(content(u) for u in o.value))) if o.ok else classify(o))
    if k == "spectra":
        o = sim.call(lambda: c.spectra(op["g"]), op, f"spectra {op['g']}")
        return o, (("ok", tuple(sorted(o.value))) if o.ok else classify(o))
    if k == "groups":
        o = sim.call(lambda: c.groups(), op, "groups")
        return o, (("ok", tuple(sorted(o.value))) if o.ok else classify(o))
    if k == "tree":
        if op.get("str"):
            o = sim.call(lambda: c.tree(), op, "tree")
            return o, (("ok", parse_tree(o.value)) if o.ok else classify(o))
        o = sim.call(lambda: c.tree(return_str=False), op, "tree")
        if o.ok:
            return o, ("ok", tuple(sorted((g, tuple(sorted(v))) for g, v in o.value.items())))
        return o, classify(o)
    if k == "save":
        o = sim.call(lambda: c.save(), op, "save")
        return o, classify(o)
    raise HarnessError(k)


def parse_tree(s):
    t, g = {}, None
    for line in s.split("\n"):
        if line.startswith("("):
            g = line[1:-1]
            t[g] = []
        elif line.strip():
            t[g].append(line.strip()[3:])
    return tuple(sorted((g, tuple(sorted(v))) for g, v in t.items()))


def model_items(specs, op):
    """Atomic model steps of an operation."""
    if op["op"] == "setlist":
        return [dict(op="set", g=op["g"], n=n, spec=s, ow=op["ow"]) for n, s in zip(op["ns"], op["specs"])]
    return [op]


def apply_model(specs, st, op):
    """(new state, expected result); st maps (g, n) -> digest and is never modified."""
    k = op["op"]
    if k == "set":
        key = (op["g"], op["n"])
        if key in st and not op["ow"]:
            return st, ("exists",)
        new = dict(st)
        new[key] = specs.dig[repr(sorted(op["spec"].items()))]
        return new, ("ok",)
    groups = sorted({g for g, _ in st})
    if k == "get":
        d = st.get((op["g"], op["n"]))
        return st, (("ok", d) if d else ("nokey",))
    if k == "getall":
        if op["g"] not in groups:
            return st, ("nokey",)
        return st, ("ok", tuple(sorted(d for (g, _), d in st.items() if g == op["g"])))
    if k == "spectra":
        if op["g"] not in groups:
            return st, ("nokey",)
        return st, ("ok", tuple(sorted(n for g, n in st if g == op["g"])))
    if k == "groups":
        return st, ("ok", tuple(groups))
    if k == "tree":
        return st, ("ok", tuple((g, tuple(sorted(n for h, n in st if h == g))) for g in groups))
    if k == "save":
        return st, ("ok",)
    raise HarnessError(k)


def raw_bytes(sim, name):
    """Bytes of a file of the simulated disk, read outside the simulation."""
    from sim import seams

    try:
        with seams._real["open"](sim.path(name), "rb") as fh:
            return fh.read()
    except FileNotFoundError:
        return None


def raw_tree(sim, name):
    """
    Independent view of a container file: {group: {name: has the spectrum tag}}
    read with h5py alone (no SUT code) from a copy of the bytes.
    """
    import h5py

    b = raw_bytes(sim, name)
    if b is None:
        return None
    assert not sim.in_sut
    out = {}
    with h5py.File(io.BytesIO(b), "r") as f:
        for g in f:
            if g == "header":
                continue
            out[g] = {n: ("pspec_type" in f[g][n].attrs) for n in f[g]}
    return out


def read_all(sim, name, mode="r"):
    """
    What an independent, freshly started, fault-free reader process sees:
    {(group, name): digest}; raises nothing: problems are returned as strings.
    """
    old = (sim.main, sim.current)
    from sim.core import Proc, activate

    p = Proc(sim, "reader")
    sim.current = p
    try:
        o = sim.call(lambda: p.hp.PSpecContainer(name, mode=mode, keep_open=False), None, "reader open")
        if not o.ok:
            return None, f"reader cannot construct: {o!r}"
        c = o.value
        o = sim.call(lambda: c.tree(return_str=False), None, "reader tree")
        if not o.ok:
            return None, f"reader cannot list: {o!r}"
        out = {}
        for g, ns in o.value.items():
            for n in ns:
                q = sim.call(lambda: c.get_pspec(g, n), None, f"reader get {g}/{n}")
                out[(g, n)] = content(q.value) if q.ok else f"error {q!r}"
            if not ns:
                out[(g, None)] = "empty group"
        return out, None
    finally:
        sim.main, sim.current = old
        activate(sim.current.mods)


# ------------------------------------------------------------- generators
H5NAMES = ["data_spw", "wgt", "stats", "stats", "cov", "window", "integration", "nsample", "labels", "label_1", "cosmo", "lst", "time", "blpair",
           "history", "pspec_type", "folded", "Omega", "r_params", "bl_vecs", "scalar", "polpair", "exact"]


def aim(rng, plan, p=0.3):
    """Let some of the planned failures of HDF5 calls hit calls on particular items."""
    if isinstance(plan, dict):
        if plan.get("ev") in ("h5w", "h5r") and "at" in plan and rng.random() < p:
            plan.update(name=rng.choice(H5NAMES), at=rng.choice([1, 1, 1, 2, 3, 5]))
        for v in list(plan.values()):
            aim(rng, v, p)
        # optional contents that a failure is aimed at exist
        hit = [f["name"] for f in plan.get("faults", ()) or () if isinstance(f, dict) and f.get("name")]
        for x in [plan.get("spec")] + list(plan.get("specs") or ()):
            if isinstance(x, dict) and hit:
                if "stats" in hit and not x.get("stats"):
                    x["stats"] = ["P_N"]
                if "cov" in hit:
                    x["cov"] = True
                if "Omega" in hit:
                    x["beam"] = True
    elif isinstance(plan, list):
        for v in plan:
            aim(rng, v, p)
    return plan


def gen_small(rng, tag):
    """Small spectrum specs (speed) with varied optional content."""
    s = dict(tag=tag, blpairs=[[[1, 2], [1, 2]]] if rng.random() < 0.7 else [[[1, 2], [1, 2]], [[2, 3], [2, 3]]],
             times=[0] if rng.random() < 0.6 else [0, 1], spws=[[0, 2]] if rng.random() < 0.7 else [[0, 2], [3, 3]],
             pols=[1515], nchan=8)
    s["cosmo"] = rng.random() < 0.06   # slow to construct
    if rng.random() < 0.25:
        s["stats"] = rng.choice([["P_N"], ["P_N"], ["P_N", "bs_std"]])
    if rng.random() < 0.25:
        s["cov"] = True
    if rng.random() < 0.3:
        s["wf"] = False
    elif rng.random() < 0.15:
        s["ew"] = True
    if rng.random() < 0.2:
        s["beam"] = True
    return s


class Tags:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def gen_op(rng, tags, write=0.5, lists=0.1):
    g = rng.choice(GROUPS[:2] if rng.random() < 0.8 else GROUPS)
    n = rng.choice(NAMES)
    if rng.random() < write:
        ow = rng.random() < 0.5
        if rng.random() < lists:
            k = rng.choice([1, 2, 3])
            ns = rng.sample(NAMES, k)
            return dict(op="setlist", g=g, ns=ns, specs=[gen_small(rng, tags()) for _ in ns], ow=ow)
        return dict(op="set", g=g, n=n, spec=gen_small(rng, tags()), ow=ow)
    k = rng.choice(["get", "get", "get", "getall", "spectra", "groups", "tree", "save"])
    d = dict(op=k)
    if k in ("get", "getall", "spectra"):
        d["g"] = g
    if k == "get":
        d["n"] = n
    if k == "tree":
        d["str"] = rng.random() < 0.3
    return d


def stub_beam_files(hp, factory):
    """Wherever the library knows PSpecBeamUV (which reads a beam simulation file), put factory(path, cosmo) in its place; returns the undo."""
    import types
    done = []
    real = hp.pspecbeam.PSpecBeamUV
    for m in [hp] + [x for x in vars(hp).values() if isinstance(x, types.ModuleType)]:
        for k, x in list(vars(m).items()):
            if x is real:
                setattr(m, k, factory)
                done.append((m, k))

    def undo():
        for m, k in done:
            setattr(m, k, real)
    return undo


_codes = {}


def run_script(sim, name, argv, op=None, label=None):
    """Run one of the repository's command-line scripts inside the simulated process."""
    import os
    import sys

    from sim import core, seams

    path = os.path.join(core.SUT_ROOT, "scripts", name)
    if path not in _codes:
        with seams._real["open"](path) as fh:
            _codes[path] = compile(fh.read(), path, "exec")

    import hera_cal._cli_tools as tools
    tools.setup_logger = lambda **k: None     # (it would trace every allocation from then on)

    def f():
        old = sys.argv
        sys.argv = [name] + [str(a) for a in argv]
        try:
            exec(_codes[path], {"__name__": "__main__", "__file__": path})
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError(f"script exit status {e.code}") from None
        finally:
            sys.argv = old

    return sim.call(f, op, label or f"{name} {' '.join(map(str, argv))}")
