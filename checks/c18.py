"""C18: results do not depend on hash seed, listing order or clock."""
import atexit
import hashlib
import importlib
import json
import os
import random
import select
import subprocess
import sys

import numpy as np

from sim import fx, poison, vis
from sim.core import HarnessError, Violation
from . import est, visops

ID = "C18"
TECHNIQUE = ("the same analysis executed by two interpreters whose hash seed, directory listing orders, clock, scratch directory, "
             "process number and uninitialised memory are chosen by the seeded plan; every returned value and every stored dataset compared bit by bit")
QUICK, THOROUGH = 190, 12000
RULE = ("one run = one workload (history of operations on spectra, combining, container merging, command-line merge, estimation pipeline, estimator "
        "calls, bootstrap, seeded randomness, sharded work, batch scripts, operations on visibilities and beams, redundancy and grouping utilities), executed by this process (hash seed 0) "
        "and by a peer interpreter with another hash seed (eight per master seed), listing order, clock, process id and content of "
        "uninitialised memory (np.empty, masked ufuncs without out). Every value returned by "
        "the library, in its order, and every dataset and attribute left in HDF5 files has to be equal in both; only history texts may differ. "
        "Distinct and non-trivial: (workload, hash seed, number of values compared).")
SHRINK = []
ASSUME = ["histories hold the time and the file names and are not compared"]

SUBS = ["C06", "C06", "C07", "C07", "C08", "C08", "C12", "C12", "C12", "C13", "C15", "C16", "C16", "C17", "C17", "C20", "C20", "C20", "C21", "C21", "C22", "vis", "vis",
        "util", "util", "util", "util"]
MODS = {}


def mod(k):
    if k not in MODS:
        MODS[k] = importlib.import_module(f"checks.{k.lower()}")
    return MODS[k]


def strip(x):
    """The workload without faults, kills and concurrent processes."""
    if isinstance(x, dict):
        return {k: ([] if k in ("faults", "attempts", "rfaults") else None if k in ("fault", "rfault", "fail", "lock", "two", "listing", "kill") else strip(v))
                for k, v in x.items() if k not in ("lock", "two")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def gen(rng, i):
    k = rng.choice(SUBS)
    p = dict(sub=k, n=rng.randrange(10**6), i=i, lists=[rng.randint(0, 999) for _ in range(4)], dt=rng.choice([0.0, 3600.0, 86400 * 40.5, -1.5e9]))
    return p


def subplan(plan):
    rng = random.Random(f"{plan['sub']}:{plan['n']}")
    if plan["sub"] == "util":
        return gen_util(rng)
    if plan["sub"] == "vis":
        p = visops.gen(rng, plan["i"])
        for o in p["ops"]:
            if o["k"] == "sky_sim":
                o["k"] = "stokes"      # draws from a singular covariance: amplifies rounding
            o["r"][2] = max(o["r"][2], 0.5) if o["k"] == "noise_sim" else o["r"][2]      # seeded
        return p
    p = mod(plan["sub"]).gen(rng, plan["i"])
    return p


def clean(k, p):
    """Faults removed in the way the workload's own generator allows."""
    if k == "C13":
        for st in p.get("steps", []):
            st.pop("fault", None)
        return p
    return strip(p)


# ---------------------------------------------------------------- observing
class Obs:
    def __init__(self):
        self.out = []

    def add(self, label, v):
        self.out.append((label, hashlib.sha256(repr(v).encode()).hexdigest()[:16]))


def norm(v, root, depth=0):
    n = type(v).__name__
    if n == "UVPSpec":
        return ("uvp", sorted(fx.state(v, skip=("history",)).items()))
    if n == "UVData":
        return ("uvd", sorted((k, x) for k, x in vis.uvd_state(v).items() if k not in ("history", "filename")))
    if isinstance(v, dict):
        return ("dict", sorted(((norm(k, root), norm(x, root)) for k, x in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ("set", sorted((norm(x, root) for x in v), key=repr))
    if isinstance(v, (list, tuple)):
        return ("list", [norm(x, root) for x in v])
    if isinstance(v, str):
        return v.replace(root, "ROOT")
    if isinstance(v, np.ndarray):
        return fx._norm(v) if v.dtype.kind != "O" else ("list", [norm(x, root) for x in v.ravel()])
    if isinstance(v, bytes):
        return v.hex()
    if v is None or isinstance(v, (int, float, complex, np.generic)):
        return fx._norm(v)
    return ("object", n)


def dump_h5(path, obs, name):
    """Every dataset and attribute of an HDF5 file, in the order in which it is listed."""
    import h5py

    def attrs(o, where):
        for k in o.attrs:
            if "history" not in k.lower():
                obs.add(f"{name}:{where}@{k}", norm(np.asarray(o.attrs[k]), ""))

    def walk(g, where):
        attrs(g, where)
        obs.add(f"{name}:{where} names", list(g))
        for k in g:
            if "history" in k.lower() or k in ("filename",):
                continue
            o = g[k]
            if isinstance(o, h5py.Group):
                walk(o, where + "/" + k)
            else:
                obs.add(f"{name}:{where}/{k}", (norm(np.asarray(o[()]), ""), str(o.dtype)))
                attrs(o, where + "/" + k)
    with h5py.File(path, "r") as h:
        walk(h, "")


def observe(plan, sim):
    """[(label, digest)] of everything the workload returns and stores."""
    obs = Obs()
    real = sim.call
    depth = [0]

    def call(fn, op=None, label="", trace=None):
        depth[0] += 1
        try:
            o = real(fn, None, label)     # no faults: they are placed by counting events
        finally:
            depth[0] -= 1
        if o.ok:
            obs.add(str(label).replace(sim.root, "ROOT"), norm(o.value, sim.root))
        else:
            obs.add(str(label).replace(sim.root, "ROOT"), ("failed", type(o.exc).__name__))
        return o
    sim.call = call
    fx.SKIP_HISTORY = True
    k = plan["sub"]
    p = clean(k, subplan(plan))
    try:
        if k == "util":
            util(p, sim)
        else:
            (visops if k == "vis" else mod(k)).execute(p, sim)
    except Violation as v:
        obs.add("violation", v.sig)
    finally:
        del sim.call
        fx.SKIP_HISTORY = False
    for d, sub, files in os.walk(sim.root):
        sub.sort()
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(d, f), sim.root)
            obs.add("file " + rel, 1)
            if f.endswith((".h5", ".hdf5", ".uvh5")):
                try:
                    dump_h5(os.path.join(d, f), obs, rel)
                except (OSError, RuntimeError, KeyError) as e:
                    obs.add("unreadable " + rel, type(e).__name__)
    return obs.out


# ---------------------------------------------------------------- utilities
def gen_util(rng):
    s = vis.gen_data(rng, 2, units="Jy", wgts=False)
    s.update(nt=2, nf=10, ants=rng.choice([[0, 1, 2, 3, 4], [0, 1, 2, 11, 23], [0, 1, 2, 3, 4, 11]]))
    grps = rng.sample(["even", "odd", "x"], 2)
    files = [(g, k, x, a) for k, a in enumerate(rng.sample([[0, 1, 2], [0, 1, 2, 3], [0, 1, 3, 4], [1, 2, 11, 23]], 2)) for g in grps for x in ("xx", "yy")]
    rng.shuffle(files)
    gp = [rng.choice([["even", "odd"], ["odd", "odd"], ["x", "even"], ["x", "x"], grps, grps[::-1]]) for _ in range(3)]
    return dict(files=files, gp=gp, s=s, obj=__import__("checks.ops", fromlist=["ops"]).gen_obj(rng, 1), xants=rng.choice([None, [1], [2, 3]]),
                auto=rng.random() < 0.5, rnd=rng.randrange(1000), names=rng.sample(["a", "b", "c", "aa", "P", "q_x_r", "10", "9"], 5),
                ew=rng.sample([0.0, 0.1, 0.2, 0.3, 0.45, 0.6, 1.0, 3.0, 10.0], rng.randint(2, 5)), little=rng.random() < 0.5,
                kb=rng.sample([0.0, 0.2, 0.5, 1.0, 1.5, 3.0, 8.0, 50.0], rng.randint(2, 5)),
                labels=rng.sample(["red", "green", "blue", "x", "y", "set1"], 3))


def util(p, sim):
    hp, s = sim.hp, p["s"]
    u1, u2 = vis.make_uvd(dict(s, tag=1)), vis.make_uvd(dict(s, tag=2))

    def do(label, f):
        return sim.call(lambda: est.quiet(f), None, label)
    kw = dict(xants=p["xants"]) if p["xants"] else {}
    do("reds", lambda: hp.utils.get_reds(u1, **kw))
    do("reds of a dictionary", lambda: hp.utils.get_reds({a: np.array([*vis.POS[a], 0.0]) for a in s["ants"]}, **kw))
    do("pairs", lambda: hp.utils.calc_blpair_reds(u1, u2, exclude_auto_bls=p["auto"], exclude_permutations=True, **kw))
    do("all pairs", lambda: hp.utils.calc_blpair_reds(u1, u2, filter_blpairs=True, exclude_auto_bls=False, exclude_permutations=False, extra_info=True))
    bls = [b for b in u1.get_antpairs() if b[0] != b[1]]
    do("construct", lambda: hp.utils.construct_blpairs(bls[:5], exclude_auto_bls=p["auto"], exclude_permutations=True, group=True, Nblps_per_group=3))
    do("blvec", lambda: hp.utils.get_blvec_reds({tuple(b): np.array(vis.POS[b[1]]) - np.array(vis.POS[b[0]]) for b in bls}, bl_error_tol=1.0))
    do("groups", lambda: hp.grouping.group_baselines(bls, 3, randomize=True, seed=p["rnd"]))
    do("sample", lambda: hp.grouping.sample_baselines(bls, seed=p["rnd"]))
    for lab in (p["labels"], p["labels"][::-1]):
        ds = do("data", lambda: hp.PSpecData([copy_of(u1), copy_of(u2)], [None, None], labels=lab[:2], beam=vis.make_beam(hp, "array"))).value
        if ds is None:
            continue
        q = do("pspec", lambda: ds.pspec(bls[:2], bls[:2], (0, 1), [(x, x) for x in s["pols"]], spw_ranges=[(0, 5), (4, 9)], verbose=False))
        do("labels", lambda: list(ds.labels))
        do("summary", lambda: str(ds))
        if q.ok:
            ask(do, hp, q.value)
    us = [fx.make_uvp(hp, dict(p["obj"], tag=t)) for t in (1, 2)]
    for u in us:
        ask(do, hp, u)
    # exact window functions in spherical bins which the cylindrical grid need not reach
    e = fx.make_uvp(hp, dict(p["obj"], tag=3, ew=True, cosmo=True, folded=False))
    for th in (np.sort(p["ew"]), None):
        do("spherical windows", lambda: hp.grouping.spherical_wf_from_uvp(e, np.sort(p["kb"]), kbin_edges_theory=th, little_h=p["little"]))
    do("reds of spectra", lambda: us[0].get_red_blpairs())
    do("common", lambda: hp.uvpspec_utils.select_common(us + [us[0].select(times=np.unique(us[0].time_avg_array)[:1], inplace=False)]))
    # files of groups and polarizations, found by name
    for g, n, x, a in p["files"]:
        vis.make_uvd(dict(s, nt=1, nf=2, tag=n, ants=a, pols=[x])).write_uvh5(sim.path(f"zen.{g}.{n}.{x}.uvh5"))
    pp = [("xx", "xx"), ("yy", "yy"), ("xx", "xx")]
    do("files to pairs", lambda: list(hp.utils.config_pspec_blpairs(
        ["zen.{group}.*.{pol}.uvh5"], pp, p["gp"], file_type="uvh5", verbose=False, exclude_auto_bls=p["auto"]).items()))
    do("files to pairs, some excluded", lambda: list(hp.utils.config_pspec_blpairs(
        "zen.{group}.*.{pol}.uvh5", pp, p["gp"], file_type="uvh5", exclude_patterns=[".0."], xants=[3]).items()))

    def store():
        c = hp.PSpecContainer("u.h5", mode="rw", keep_open=False)
        for i, n in enumerate(p["names"]):
            c.set_pspec(p["labels"][i % 3], n, us[i % 2])
        return [list(c.groups()), [list(c.spectra(g)) for g in c.groups()], c.tree(), c.tree(return_str=False),
                [list(c.tree(return_str=False))], c.get_pspec(p["labels"][0])]
    do("container", store)


def copy_of(u):
    import copy
    return copy.deepcopy(u)


def ask(do, hp, u):
    do("blpairs", u.get_blpairs)
    do("keys", u.get_all_keys)
    do("polpairs", u.get_polpairs)
    do("separations", u.get_blpair_seps)
    do("ENU", lambda: u.get_ENU_bl_vecs())
    do("stats", lambda: list(getattr(u, "stats_array", {})))
    do("equal", lambda: u == u)
    do("red", u.get_red_bls)
    do("text", lambda: str(u.labels))
    do("average", lambda: u.average_spectra(blpair_groups=[u.get_blpairs()], time_avg=True, inplace=False))


# ---------------------------------------------------------------- the peer interpreter
_peers = {}


class Peer:
    def __init__(self, h):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        env.pop("MPLCONFIGDIR", None)
        self.pid = os.getpid()
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(here, "run.py"), ID, "--peer"], env=env, cwd=here,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def send(self, plan):
        self.p.stdin.write((json.dumps(plan) + "\n").encode())
        self.p.stdin.flush()

    def receive(self, limit=280):
        buf = b""
        fd = self.p.stdout.fileno()
        while not buf.endswith(b"\n"):
            r, _, _ = select.select([fd], [], [], limit)
            if not r:
                raise HarnessError("the peer does not answer")
            b = os.read(fd, 1 << 20)
            if not b:
                raise HarnessError(f"the peer died ({self.p.poll()})")
            buf += b
        return json.loads(buf)


def peer(h):
    x = _peers.get(h)
    if x is None or x.pid != os.getpid():
        if not _peers:
            atexit.register(lambda: [q.p.stdin.close() for q in _peers.values() if q.pid == os.getpid()])
        x = _peers[h] = Peer(h)
    return x


LAST = None


def execute(plan, sim):
    global LAST
    master, i = plan["seed"]
    h = 1 + (master * 8 + i % 8) % 4294967290
    inner = bool(plan.get("peer"))
    # what the plan decides: listing orders and clock
    sim.listing = plan["lists"][2:] if inner else plan["lists"][:2]
    if inner:
        sim.clock += plan["dt"]
        sim.mono0 = sim.clock
        sim.npid = 40
        poison.FILL[0] = 1 + i % 3
        LAST = observe(plan, sim)
        return
    poison.FILL[0] = 0
    q = peer(h)
    q.send(dict(plan, peer=True))
    try:
        mine = observe(plan, sim)
    finally:
        other = q.receive()
    if other.get("harness"):
        raise HarnessError("peer: " + other["harness"])
    theirs = [tuple(x) for x in other["obs"]]
    sim.evals["values compared"] += len(mine)
    sim.evals["workloads:" + plan["sub"]] += 1
    sim.sigs.add(f"{plan['sub']}:{h}:{len(mine)}")
    for j, (a, b) in enumerate(zip(mine, theirs)):
        if a != b:
            raise Violation("results-differ", f"{plan['sub']}: value {j} ({a[0]!r}{'' if a[0] == b[0] else ' or ' + repr(b[0])}) differs between hash seeds 0 and {h}")
    if len(mine) != len(theirs):
        raise Violation("results-differ", f"{plan['sub']}: {len(mine)} or {len(theirs)} values with hash seeds 0 and {h}: "
                        f"{(mine[len(theirs):] or theirs[len(mine):])[0]}")


def serve():
    """Main loop of the peer: plans on stdin, observations on the original stdout."""
    global LAST
    from sim import runner

    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    me = sys.modules[__name__]
    for line in sys.stdin:
        LAST = None
        r = runner.run_plan(me, json.loads(line))
        ans = dict(obs=LAST, harness=r["harness"] or (None if LAST is not None else f"no observations: {r['viol']}"))
        data = (json.dumps(ans) + "\n").encode()
        while data:
            data = data[os.write(out, data):]
