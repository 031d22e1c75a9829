"""Planted bugs (development aid, never read by a check)."""
C = "src/hera_pspec/container.py"
U = "src/hera_pspec/uvpspec.py"
UU = "src/hera_pspec/uvpspec_utils.py"
D = "src/hera_pspec/pspecdata.py"
G = "src/hera_pspec/grouping.py"
T = "src/hera_pspec/utils.py"
CL = "src/hera_pspec/cli.py"
TS = "src/hera_pspec/testing.py"
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C01-tree-not-atomic", "C01",
    [(C, "        grps = self.groups(nested=True)\n", "        grps = self.groups()\n")],
    '''
import sys
import hera_pspec as hp
from fx import make_uvp
spec = dict(tag=1, blpairs=[[[1, 2], [1, 2]]], times=[0], spws=[[0, 3]], pols=[1515])
fn = "c.h5"
w = hp.PSpecContainer(fn, mode="rw", keep_open=False)
for g in ("g1", "g2"):
    w.set_pspec(g, "a", make_uvp(hp, spec))
r = hp.PSpecContainer(fn, mode="r", keep_open=False)
real, busy = r._close, []
def close():
    # another process gets its turn whenever this one lets go of the file
    real()
    if not busy:
        busy.append(1)
        w.set_pspec("g3", "z", make_uvp(hp, spec))
        w.set_pspec("g1", "z", make_uvp(hp, spec))
r._close = close
t = r.tree(return_str=False)
has = {g: "z" in t.get(g, []) for g in ("g1", "g3")}
print(t)
# g3/z is stored before g1/z: no single instant has g1/z without g3/z
sys.exit(1 if has["g1"] and not has["g3"] else 0)
''',
    "a store by another process between listing the groups and their spectra in tree()",
    "tree() releases the file between the two listings, so the listing mixes several instants")

bug("C04-retry-backoff", "C04",
    [(C, "                time.sleep(self.tsleep)\n", "                time.sleep(self.tsleep * Ncount)\n")],
    '''
import sys, time
import h5py
import hera_pspec as hp
slept = []
time.sleep = lambda t: slept.append(t)
real = h5py.File
class Busy:
    n = 0
def File(*a, **k):
    Busy.n += 1
    if Busy.n <= 4:
        raise OSError("busy")
    return real(*a, **k)
h5py.File = File
c = hp.PSpecContainer("c.h5", mode="rw", keep_open=True, tsleep=0.5, maxiter=5)
print(slept)
sys.exit(0 if slept == [0.5] * 4 else 1)
''',
    "a file that stays busy for two or more attempts",
    "waits between open attempts grow instead of staying at the configured interval")

bug("C08-pol-merge-columns", "C08",
    [(U, """                    u.wgt_array[i][j, :, :, k] = uvps[l].wgt_array[m][n, :, :, q]
                    u.integration_array[i][j, k] = uvps[l].integration_array[m][n, q]
                    u.nsample_array[i][j, k] = uvps[l].nsample_array[m][n, q]

                    # Labels
""", """                    u.wgt_array[i][j, :, :, k] = uvps[l].wgt_array[m][n, :, :, q]
                    u.integration_array[i][j, k] = uvps[l].integration_array[m][n, q]
                    u.nsample_array[i][j, k] = uvps[l].nsample_array[i][n, q]

                    # Labels
""")],
    '''
import sys
import numpy as np
import hera_pspec as hp
from fx import make_uvp
base = dict(tag=1, blpairs=[[[1, 2], [1, 2]], [[2, 3], [2, 3]]], times=[0, 1], spws=[[0, 3], [8, 4]])
a = make_uvp(hp, dict(base, pols=[1515]))
# the second shard lists its windows the other way round
b = make_uvp(hp, dict(base, pols=[1414], spws=[[8, 4], [0, 3]]))
u = hp.uvpspec.combine_uvpspec([a, b], verbose=False)
whole = make_uvp(hp, dict(base, pols=[1515, 1414]))
bad = 0
for s in (0, 1):
    for blp in np.unique(u.blpair_array):
        for p in (1515, 1414):
            x, y = u.get_nsamples((s, blp, p)), whole.get_nsamples((s, blp, p))
            bad += not np.allclose(np.sort(x), np.sort(y))
print(bad)
sys.exit(1 if bad else 0)
''',
    "shards that differ in polarization and list their spectral windows in different orders",
    "sample counts of one window are attached to another when polarization shards are merged")

bug("C09-cov-imag-pols", "C09",
    [(UU, """                    cov_real[s] = _cov_real[blp_select, :, :, polpair_select]
                    cov_imag[s] = _cov_imag[blp_select, :, :, polpair_select]
""", """                    cov_real[s] = _cov_real[blp_select, :, :, polpair_select]
                    cov_imag[s] = _cov_imag[blp_select, :, :, : len(uvp.polpair_array)]
""")],
    '''
import sys
import numpy as np
import hera_pspec as hp
from fx import make_uvp
u = make_uvp(hp, dict(tag=1, blpairs=[[[1, 2], [1, 2]]], times=[0, 1], spws=[[0, 3]], pols=[1414, 1515], cov=True))
u.write_hdf5("u.h5", overwrite=True)
v = hp.UVPSpec()
v.read_hdf5("u.h5", polpairs=[1515])
sys.exit(0 if np.array_equal(v.cov_array_imag[0][..., 0], u.cov_array_imag[0][..., 1]) else 1)
''',
    "a polarization selection that is not a prefix, on spectra with covariance",
    "imaginary covariance of the wrong polarization is returned by selections and partial reads")

bug("C11-last-round-lost", "C11",
    [(T, """            # update failures
            failures = failures[exit_codes != 0]
""", """            # update failures
            failures = failures[exit_codes > 0]
""")],
    '''
import sys
from hera_pspec import utils
n = {}
def f(j):
    n[j] = n.get(j, 0) + 1
    return -1 if j == 2 else 0
fails = utils.job_monitor(f, [0, 1, 2], "demo", maxiter=3, verbose=False)
print(list(fails), n)
sys.exit(0 if list(fails) == [2] and n == {0: 1, 1: 1, 2: 3} else 1)
''',
    "a job that fails again in a re-run with a negative exit code",
    "jobs that die with a negative code in a re-run are reported as successful")

bug("C06-merged-name-exists", "C06",
    [(C, """                if len(uvps) > 1:
                    merged_uvp""", """                if len(to_merge) > 1 and spc not in to_merge:
                    merged_uvp""")],
    '''
import sys
import hera_pspec as hp
from fx import make_uvp
base = dict(tag=1, blpairs=[[[1, 2], [1, 2]]], spws=[[0, 3]], pols=[1515])
c = hp.PSpecContainer("c.h5", mode="rw", keep_open=False)
c.set_pspec("g", "dA_x_dB", make_uvp(hp, dict(base, times=[0])))
c.set_pspec("g", "dA_x_dB_1", make_uvp(hp, dict(base, times=[1])))
hp.container.combine_psc_spectra(c, overwrite=True, verbose=False)
n = sum(c.get_pspec("g", s).Nbltpairs for s in c.spectra("g"))
print(c.spectra("g"), n)
sys.exit(0 if n == 2 else 1)
''',
    "a family one of whose members already has the merged name (a rerun after new spectra arrived), overwrite=True",
    "the spectra of the other members are dropped when the merged name already exists")

bug("C07-missing-name-skipped", "C07",
    [(CL, "            for name in names:\n                uvp", "            for name in [n for n in names if n in psc.spectra(group)]:\n                uvp")],
    '''
import os, pathlib, sys
import hera_pspec as hp
from hera_pspec import cli
from fx import make_uvp
for i, b in enumerate(([1, 2], [2, 3], [3, 4])):
    c = hp.PSpecContainer(f"in.{i}.h5", mode="rw", keep_open=False)
    u = make_uvp(hp, dict(tag=1, blpairs=[[b, b]], times=[0, 1], spws=[[0, 3]], pols=[1515]))
    for name in ("a", "b"):
        if (i, name) != (1, "b"):
            c.set_pspec("g", name, u)
failed = False
try:
    cli.fast_merge_baselines(pattern="in.*.h5", group="g", names=["a", "b"], outpath=pathlib.Path("out"), progress=False, extras=None, batch_size=None)
except BaseException as e:
    failed = True
    print("failed:", repr(e)[:200])
sys.exit(0 if failed else 1)
''',
    "one input file lacking one of several requested names",
    "the merge succeeds and writes an output that looks complete, without the spectrum which is missing")

bug("C01-create-truncates", "C01",
    [(C, '            mode = "a"\n', '            mode = "a" if os.path.exists(self.filename) else "w"\n'),
     (C, "import time\n", "import os\nimport time\n")],
    '''
import sys, time
import h5py
import hera_pspec as hp
from fx import make_uvp
spec = dict(tag=1, blpairs=[[[1, 2], [1, 2]]], times=[0], spws=[[0, 3]], pols=[1515])
fn = "c.h5"
real, state = h5py.File, dict(n=0, turn=False)
def File(*a, **k):
    state["n"] += 1
    if state["n"] == 1:
        raise OSError("busy")
    return real(*a, **k)
def sleep(t):
    # the other process creates the container meanwhile
    if not state["turn"]:
        state["turn"] = True
        b = hp.PSpecContainer(fn, mode="rw", keep_open=False)
        b.set_pspec("g", "b", make_uvp(hp, spec))
h5py.File, time.sleep = File, sleep
a = hp.PSpecContainer(fn, mode="rw", keep_open=False)
a.set_pspec("g", "a", make_uvp(hp, spec))
names = sorted(hp.PSpecContainer(fn, mode="r", keep_open=False).spectra("g"))
print(names)
sys.exit(0 if names == ["a", "b"] else 1)
''',
    "two processes creating the same container, one of which retries its open after the other stored a spectrum",
    "the container created by another process meanwhile is truncated and its spectra are lost")

bug("C12-empty-pair-stops", "C12",
    [(D, """        if len(bls1_list[i]) == 0 or len(bls2_list[i]) == 0:
            continue
        # Run OQE
""", """        if len(bls1_list[i]) == 0 or len(bls2_list[i]) == 0:
            break
        # Run OQE
""")],
    '''
import sys
import numpy as np
import hera_pspec as hp
from vis import make_uvd, gen_data
import random
s = gen_data(random.Random(1), 1, units="mK", wgts=False)
s.update(nt=2, nf=8, ants=[0, 1, 2, 3])
def data(tag, ants):
    return make_uvd(dict(s, tag=tag, ants=ants))
ds = [data(1, [0, 1, 2]), data(2, [0, 3]), data(3, [0, 1, 2])]
pol = s["pols"][0]
from hera_pspec import pspecdata
pspecdata.pspec_run(ds, "out.h5", dset_labels=["a", "b", "c"], dset_pairs=[(0, 1), (0, 2)], blpairs=[((0, 1), (1, 2))], pol_pairs=[(pol, pol)],
                    spw_ranges=[(0, 6)], interleave_times=False, verbose=False, groupname="g", overwrite=True)
c = hp.PSpecContainer("out.h5", mode="r", keep_open=False)
names = list(c.spectra("g")) if "g" in c.groups() else []
print(names)
sys.exit(0 if names == ["a_x_c"] else 1)
''',
    "several data set pairs of which an earlier one has none of the requested baseline-pairs",
    "the pairs of data sets after one without common baselines are silently not estimated")

bug("C13-identity-cache-key", "C13",
    [(D, """                            [self.Y(key1).diagonal(), self.Y(key2).diagonal()]
""", """                            [self.Y(key1).diagonal(), self.Y(key1).diagonal()]
""")],
    '''
import copy, random, sys
import numpy as np
import hera_pspec as hp
from vis import make_uvd, gen_data, make_beam
s = gen_data(random.Random(3), 1, units="Jy", wgts=False)
s.update(nt=2, nf=8, ants=[0, 1, 2])
a, b = make_uvd(dict(s, tag=1)), make_uvd(dict(s, tag=2))
for u in (a, b):
    u.flag_array[:] = False
    u.nsample_array[:] = 1.0
b.flag_array[b.antpair2ind((1, 2)), 3:5] = True
pol = s["pols"][0]
def new():
    return hp.PSpecData([copy.deepcopy(a), copy.deepcopy(b)], [None, None], labels=["a", "b"], beam=make_beam(hp, "array"))
def run(ds, bls1, bls2):
    return ds.pspec(bls1, bls2, (0, 1), [(pol, pol)], spw_ranges=[(0, 8)], taper="none", verbose=False)
both = run(new(), [(0, 1), (0, 1)], [(0, 1), (1, 2)])
alone = run(new(), [(0, 1)], [(1, 2)])
k = (0, ((0, 1), (1, 2)), (pol, pol))
x, y = both.get_data(k), alone.get_data(k)
print(np.abs(x - y).max(), np.abs(y).max())
sys.exit(0 if np.allclose(x, y, rtol=1e-9, atol=0) else 1)
''',
    "identity weighting and two baseline-pairs with the same first baseline whose second baselines are flagged differently",
    "the response matrix of an earlier baseline-pair with other flags is used for a later one")

bug("C17-seed-per-spectrum", "C17",
    [(G, "    for spc_name in spectra:\n        # split group", "    for n, spc_name in enumerate(spectra):\n        # split group"),
     (G, """            Nsamples=Nsamples,
            seed=seed,
            normal_std=normal_std,
""", """            Nsamples=Nsamples,
            seed=None if seed is None else seed + n,
            normal_std=normal_std,
""")],
    '''
import sys
import numpy as np
import hera_pspec as hp
from hera_pspec import grouping
from fx import make_uvp
spec = dict(blpairs=[[[1, 2], [2, 3]], [[2, 3], [3, 4]], [[3, 4], [4, 5]]], times=[0, 1], spws=[[0, 4]], pols=[1515], wf=False)
def container(fn, names):
    c = hp.PSpecContainer(fn, mode="rw", keep_open=False)
    for i, n in names:
        c.set_pspec("g", n, make_uvp(hp, dict(spec, tag=i)))
    return c
grp = [[((1, 2), (2, 3)), ((2, 3), (3, 4)), ((3, 4), (4, 5))]]
kw = dict(blpair_groups=grp, Nsamples=6, seed=3, normal_std=True, robust_std=False, keep_samples=True, verbose=False)
a = container("a.h5", [(1, "x"), (2, "y")])
grouping.bootstrap_run("a.h5", **kw)
b = container("b.h5", [(2, "y")])
grouping.bootstrap_run("b.h5", **kw)
bad = 0
for n in ["y_avg"] + [f"y_bs{i}" for i in range(6)]:
    u, v = a.get_pspec("g", n), b.get_pspec("g", n)
    bad += not np.array_equal(u.data_array[0], v.data_array[0])
    if n == "y_avg":
        bad += not np.array_equal(u.stats_array["bs_std"][0], v.stats_array["bs_std"][0])
print(bad)
sys.exit(1 if bad else 0)
''',
    "a container with several spectra, compared with bootstrapping one of them alone",
    "the draws of a spectrum depend on which other spectra the container holds and on their order")

bug("C18-label-order", "C18",
    [(U, "    u.labels = sorted(set(np.concatenate([uvp.labels for uvp in uvps])))\n",
      "    u.labels = list({str(lbl) for uvp in uvps for lbl in uvp.labels})\n")],
    '''
import os, subprocess, sys
if len(sys.argv) > 1:
    import hera_pspec as hp
    from fx import make_uvp
    us = [make_uvp(hp, dict(tag=1, blpairs=[[b, b]], times=[0], spws=[[0, 3]], pols=[1515])) for b in ([1, 2], [2, 3])]
    for u, l in zip(us, (["even", "odd"], ["first", "second"])):
        u.labels = __import__("numpy").array(l)
    print([str(x) for x in hp.uvpspec.combine_uvpspec(us, verbose=False).labels])
    sys.exit(0)
out = {subprocess.run([sys.executable, __file__, "x"], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout for h in range(1, 6)}
print(out)
sys.exit(0 if len(out) == 1 and "" not in out else 1)
''',
    "processes with different hash seeds combining spectra of data sets with several labels",
    "the order of the data set labels (and all label indices) of combined spectra depends on the hash seed")

bug("C18-noise-baseline-order", "C18",
    [(TS, "    crossbls = [bl for bl in bls if bl[0] != bl[1]]\n", "    crossbls = {bl for bl in bls if bl[0] != bl[1]}\n")],
    '''
import os, random, subprocess, sys
if len(sys.argv) > 1:
    import hashlib
    import numpy as np
    import hera_pspec as hp
    from hera_pspec import testing
    from vis import make_uvd, gen_data, make_beam
    s = gen_data(random.Random(5), 1, units="Jy", wgts=False)
    s.update(nt=2, nf=6, ants=[0, 1, 2, 3])
    u = make_uvd(dict(s, tag=1))
    i = u.ant_1_array == u.ant_2_array
    u.data_array[i] = np.abs(u.data_array[i]) + 1.0
    b = make_beam(hp, "uv") if False else None
    class Beam:
        pass
    beam = hp.pspecbeam.PSpecBeamUV.__new__(hp.pspecbeam.PSpecBeamUV)
    beam.power_beam_int = lambda pol, **k: np.full(3, 0.05)
    beam.primary_beam = Beam()
    beam.primary_beam.freq_array = np.linspace(100e6, 200e6, 3)
    out = testing.sky_noise_sim(u, beam, cov_amp=1.0, cov_length_scale=1.0, constant_per_bl=False, bl_loop_seed=4, divide_by_nsamp=False)
    print(hashlib.sha256(np.ascontiguousarray(out.data_array).tobytes()).hexdigest())
    sys.exit(0)
rs = [subprocess.run([sys.executable, __file__, "x"], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True) for h in range(1, 5)]
out = {r.stdout for r in rs}
print(out, rs[0].stderr[-800:])
sys.exit(0 if len(out) == 1 and "" not in out else 1)
''',
    "processes with different hash seeds simulating noise with the same seed",
    "which draw a baseline gets depends on the hash seed of the process")

bug("C10-lost-statistics", "C10",
    [(U, """                    group.create_dataset(
                        f"stats_{s}_{i}", data=data[i], dtype=data[i].dtype
                    )
""", """                    try:
                        group.create_dataset(
                            f"stats_{s}_{i}", data=data[i], dtype=data[i].dtype
                        )
                    except (OSError, TypeError) as err:
                        warnings.warn(f"cannot store statistic {s}: {err}")
""")],
    '''
import sys
import h5py
import hera_pspec as hp
from fx import make_uvp
u = make_uvp(hp, dict(tag=1, blpairs=[[[1, 2], [1, 2]]], times=[0, 1], spws=[[0, 3]], pols=[1515], stats=["P_N"]))
real = h5py.Group.create_dataset
def full(self, name, *a, **k):
    if "stats_" in str(name):
        raise OSError(28, "No space left on device")
    return real(self, name, *a, **k)
h5py.Group.create_dataset = full
ok = True
try:
    u.write_hdf5("u.h5")
except OSError as e:
    ok = False
h5py.Group.create_dataset = real
if not ok:
    import os
    sys.exit(1 if os.path.exists("u.h5") else 0)
v = hp.UVPSpec()
v.read_hdf5("u.h5")
print(hasattr(v, "stats_array"))
sys.exit(0 if hasattr(v, "stats_array") and "P_N" in v.stats_array else 1)
''',
    "a disk that fills up while statistics are written",
    "the write succeeds although statistics could not be stored")

bug("C19-stats-before-check", "C19",
    [(U, """        data_shape = self.data_array[spw][blpairts, :, polpair].shape

        if data_shape != statistic.shape:
            errmsg = f"Input array shape {statistic.shape} must match data_array shape {data_shape}."
            raise ValueError(errmsg)

        if not hasattr(self, "stats_array"):
            self.stats_array = {}
""", """        data_shape = self.data_array[spw][blpairts, :, polpair].shape

        if not hasattr(self, "stats_array"):
            self.stats_array = {}

        if data_shape != statistic.shape:
            errmsg = f"Input array shape {statistic.shape} must match data_array shape {data_shape}."
            raise ValueError(errmsg)
""")],
    '''
import sys
import numpy as np
import hera_pspec as hp
from fx import make_uvp
u = make_uvp(hp, dict(tag=1, blpairs=[[[1, 2], [1, 2]]], times=[0, 1], spws=[[0, 3]], pols=[1515]))
before = hasattr(u, "stats_array")
try:
    u.set_stats("err", (0, ((1, 2), (1, 2)), 1515), np.ones((5, 7)))
except ValueError:
    pass
print(before, hasattr(u, "stats_array"))
sys.exit(0 if hasattr(u, "stats_array") == before else 1)
''',
    "a refused set_stats on an object without any statistics",
    "the object keeps an (empty) statistics attribute after the refused operation")

bug("C21-noise-first-sample", "C21",
    [(U, "                n_samp = self.nsample_array[spw][ind, polpair_ind]\n",
      "                n_samp = self.nsample_array[spw][inds[0], polpair_ind]\n")],
    '''
import sys
import numpy as np
import hera_pspec as hp
from fx import make_uvp
u = make_uvp(hp, dict(tag=1, blpairs=[[[1, 2], [1, 2]]], times=[0, 1, 2], spws=[[0, 3]], pols=[1515], cosmo=True, beam=True))
u.nsample_array[0][:, 0] = [1.0, 2.0, 4.0]
whole = u.generate_noise_spectra(0, 1515, 200.0, scalar=1.0)
bad = 0
for i, t in enumerate(np.unique(u.time_avg_array)):
    part = u.select(times=[t], inplace=False)
    x = part.generate_noise_spectra(0, 1515, 200.0, scalar=1.0)
    for k in x:
        bad += not np.allclose(x[k][0], whole[k][i])
print(bad)
sys.exit(1 if bad else 0)
''',
    "samples that change with time",
    "the noise estimate of each time depends on which time comes first in the object")

bug("C14-scaled-input", "C14",
    [(T, "    uvd = copy.deepcopy(uvd)\n    # get uvd metadata\n", "    uvd = copy.copy(uvd)\n    # get uvd metadata\n")],
    '''
import random, sys
import numpy as np
import hera_pspec as hp
from vis import make_uvd, gen_data, make_beam
s = gen_data(random.Random(2), 1, units="Jy", wgts=False)
s.update(nt=2, nf=6, ants=[0, 1, 2])
u = make_uvd(dict(s, tag=1))
# data which hold nothing but auto-correlations
u.select(bls=[(a, a) for a in (0, 1, 2)])
before = np.array(u.data_array)
class Beam(hp.pspecbeam.PSpecBeamBase):
    def Jy_to_mK(self, freqs, pol="pI", **k):
        return np.full(np.size(freqs), 3.0)
out = hp.utils.uvd_to_Tsys(u, Beam())
print(np.array_equal(before, u.data_array))
sys.exit(0 if np.array_equal(before, u.data_array) else 1)
''',
    "system temperatures of an object that is used again afterwards",
    "the visibilities handed in are changed")
