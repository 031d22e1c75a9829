"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=hook)))
C = "src/hera_pspec/container.py"; U = "src/hera_pspec/uvpspec.py"; UU = "src/hera_pspec/uvpspec_utils.py"
D = "src/hera_pspec/pspecdata.py"; G = "src/hera_pspec/grouping.py"; T = "src/hera_pspec/utils.py"; CL = "src/hera_pspec/cli.py"
TS = "src/hera_pspec/testing.py"; S = "scripts/"

p("C01", "Shared container operations are linearizable",
  "When several processes share one container file and open it per operation, every store, fetch and listing that reports success takes effect atomically at one instant between its call and its return, as on a dictionary keyed by (group, name). A fetch returns exactly the values last stored under that name, and a listing names exactly what is stored. An operation that fails because the file was busy or could not be opened has no effect.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of the operations of several processes, every history of stores, overwrites, fetches and listings, every sequence of lock conflicts and transient open failures",
  "The tests run one process and one order, with at most one hand-made locked-file case; the guarantee is about all interleavings and histories.",
  [C], [("open/close around each operation, file lock, retry", C + ": transactional, PSpecContainer._open/_close"), ("set_pspec/get_pspec/spectra/groups/tree", C)],
  [("container file", "HDF5 groups keyed by group and spectrum name", C)], ["return values and exceptions of the container's public methods"])
p("C02", "A failed or interrupted store leaves the container as it was",
  "If storing a spectrum fails or is interrupted at any of its calls into HDF5 (invalid object, refused write, full disk, failed allocation, cancellation), every name in the container still lists and reads back exactly as before, including one that was to be overwritten, and a name that was to be created does not exist. Storing the same spectrum again afterwards succeeds.",
  ["fault_sequences", "histories", "inputs"],
  "every HDF5 call of every store in every history, every kind of failure at that call, every valid and invalid object",
  "Tests never fail an I/O call inside a store; the state left behind at each of the ~60 calls of one store is out of their reach.",
  [C, U], [("create or replace the group, write, tag", C + ": PSpecContainer.set_pspec/_store_pspec"), ("validity check and dataset writes", U + ": UVPSpec.write_to_group")],
  [], ["container listing and fetches after the failure", "a second, independent reader of the file"])
p("C03", "Read-only and refused accesses never alter stored data",
  "A container opened read-only never changes a byte of its file, whatever is called on it. A store refused because the name exists (no overwrite), and every fetch or listing, leave all stored spectra unchanged, under any faults. Opening an existing container for reading and writing never discards anything it holds.",
  ["histories", "fault_sequences", "inputs"],
  "every history of calls with every combination of mode, overwrite flag and existing content, with faults at any point",
  "Tests check two refusals on one file; none compares the whole file before and after arbitrary call histories.",
  [C], [("mode mapping to non-destructive HDF5 modes", C + ": PSpecContainer._open"), ("overwrite and mode guards", C + ": set_pspec")],
  [], ["bytes of the file", "independent read-back of every name"])
p("C04", "Containers release the file and retry opening within bounds",
  "After every call on an open-per-operation container, whether it succeeded, failed or was interrupted by a fault, the process holds no handle on the file and another process can open it at once. An open that meets a busy or failing file waits the configured interval between attempts, succeeds if the file becomes available within the configured number of attempts, and otherwise fails after at most that many waits, leaving the file untouched.",
  ["schedules", "fault_sequences", "configurations"],
  "every operation, failure point, holding time of the lock, retry interval and retry limit",
  "Tests use the real clock with one lock scenario and never look for a handle leaked by a failing call.",
  [C], [("retry loop", C + ": PSpecContainer._open"), ("close on exit and on error", C + ": transactional")],
  [("open handles", "who holds the file and how", C)], ["simulated lock table", "simulated clock and sleep calls"])
p("C05", "A killed writer never causes silently wrong spectra",
  "If a process is killed at any instant while it stores, overwrites or merges spectra in a container, or writes a spectrum file, then whatever is read afterwards either fails loudly or is right: names not being written carry exactly their stored values, and the name being written carries exactly its old or exactly its new values or (if new) is absent. It never yields a mixture, truncated data, or a silently missing spectrum.",
  ["crash_points", "histories"],
  "every disk write after which the process may be killed, in every history of stores and overwrites",
  "No test kills a writer; the durable state after each of the disk writes of a store can only be enumerated by a simulator.",
  [C, U], [("HDF5 'latest' format with file consistency flags", C + ": PSpecContainer._open"), ("write_hdf5", U)],
  [], ["a fresh process reading the file after the crash"])
p("C06", "Merging spectra inside a container conserves every spectrum",
  "Merging a container's spectra replaces each family of names (same datasets, differing extension) by exactly the union of that family's spectra, every value unchanged and present once, and never draws in or deletes a name of another family. A family that cannot be merged, because its members are incompatible or an I/O call fails, keeps its original spectra readable and does not disturb other families. Running the merge again afterwards completes the work.",
  ["histories", "inputs", "fault_sequences"],
  "every set of names, extensions and shards of spectra, every I/O failure during the merge, every sequence of reruns",
  "Tests merge two or three fixed names; name collisions, partial failures and reruns are unbounded.",
  [C, S + "psc_merge_spectra.py"], [("combine_psc_spectra", C), ("combine_uvpspec", U)], [], ["container listing and values before and after"])
p("C07", "The per-baseline fast merge writes exactly the union of its inputs",
  "Merging per-baseline spectrum files from the command line gives, in each output group and name, every input spectrum exactly once with its data, weights and metadata unchanged, whatever the batch size, directory listing order and number of files. If any input cannot be read or does not match, it fails instead of writing an output that looks complete.",
  ["inputs", "configurations", "fault_sequences"],
  "every set of input files, batch size, listing order, selection of names and groups, and read fault",
  "The one test uses a single layout, batch size and listing order and no fault.",
  [CL], [("fast_merge_baselines and its loader", CL)], [], ["output container", "exit status or exception"])
p("C08", "Combining spectra does not depend on sharding, order or grouping",
  "However a set of spectra is cut into non-overlapping shards (over spectral windows, baseline-pairs, times or polarizations), in whatever order the shards arrive, whatever tree of pairwise or joint merges is used and whether intermediate results are saved and reloaded, the combined object holds the same value, weight, covariance, statistic and metadata for every (window, baseline-pair, time, polarization). Shards that overlap or are incompatible are refused, and inputs are never changed.",
  ["schedules", "histories", "inputs"],
  "every partition into shards, arrival order and merge tree, with or without persistence in between",
  "Tests combine a few fixed splits in one order; the guarantee is over all partitions, orders and trees.",
  [U], [("combine_uvpspec, recursive_combine_uvpspec, get_uvp_overlap", U)], [], ["values keyed by (window, baseline-pair, time, polarization)"])
p("C09", "Spectra read back exactly, and partial reads equal selections",
  "Whatever is written to a file or container reads back with every stored attribute exactly equal. Reading only a selection (windows, baselines, baseline-pairs, times, LSTs, polarizations, metadata only) gives exactly what a full read followed by the same selection gives. A disk error during a read surfaces as a failure, never as altered or incomplete data.",
  ["inputs", "histories", "fault_sequences"],
  "every object content and optional attribute, every selection, every read call that may fail",
  "Tests round-trip two or three objects and a few selections and never fail a read.",
  [U, UU, C], [("write_to_group/read_from_group", U), ("_select with a file", UU)], [], ["deep comparison of every attribute"])
p("C10", "Writing a spectrum file is all-or-nothing",
  "Writing a spectrum object (UVPSpec.write_hdf5) or exact window functions (UVWindow.run_and_write) to a path either ends with exactly the new contents there or fails and leaves the previous file, or its absence, exactly as it was, whatever fault, invalid object or interruption at one of its I/O calls stops it. A process killed during the write also leaves exactly the old or exactly the new contents at the path. Without permission to overwrite, an existing file is never touched.",
  ["fault_sequences", "crash_points", "inputs"],
  "every I/O call of the write and every kind of failure at it, every prior state of the path, every valid and invalid object",
  "Tests only check that an existing file is refused or replaced when nothing fails.",
  [U, "src/hera_pspec/uvwindow.py"], [("write_hdf5", U), ("run_and_write", "src/hera_pspec/uvwindow.py")], [], ["the file at the path, and stray files next to it"])
p("C11", "The job runner runs every job and reports exactly those that failed",
  "For any jobs (list, generator, array) and any mapping function (serial, or a pool that runs jobs in any order and returns results in input order), every job is run; only jobs that failed are run again, each on its own original input and at most as often as allowed in total; the returned failures are the positions of exactly the jobs that never succeeded. If all jobs fail in the first round, that is reported as an error.",
  ["schedules", "fault_sequences", "inputs"],
  "every list of job inputs, schedule of the pool, retry limit, and pattern of failures over attempts",
  "The test uses range(n) as the inputs and a seeded failure, which hides any confusion of positions and inputs.",
  [T], [("job_monitor", T)], [], ["calls received by the job function", "returned failures"])
p("C12", "The estimation pipeline gives the same spectra however it is scheduled",
  "The pipeline from visibility data to a container of spectra produces the same set of spectra, names and values whatever the order of input files and listing, whatever chunk size the baseline pairs are cut into, and however often it is rerun with overwrite into the same container. A failing input stops it with an error or a reported failure; it never writes spectra of the wrong data under a name.",
  ["schedules", "configurations", "fault_sequences"],
  "every listing order, chunk size, file split, rerun and injected read fault",
  "Tests run the pipeline a few times with fixed files and chunking, and compare against nothing.",
  [D, T], [("pspec_run, _load_dsets", D), ("get_blvec_reds, calc_blpair_reds", T)], [], ["contents of the output container"])
p("C13", "Power spectrum estimation has no memory",
  "The power spectra computed from given data, baseline pairs, polarizations, windows and options do not depend on what the estimator computed before (earlier calls, other settings, calls that failed or were interrupted half-way), nor on how the requested baseline-pairs, polarizations and windows are split over calls or ordered. A fresh estimator on the same data gives the same answer.",
  ["histories", "fault_sequences"],
  "every history of estimator calls with every setting, every point at which a call may be interrupted, every partition of the request",
  "Tests use an estimator for one call or one fixed sequence; cache staleness depends on the history.",
  [D], [("caches of covariance, weights and Fisher matrices", D + ": PSpecData (_C, _iC, _Y, _R, _identity_*, clear_cache)"), ("pspec", D)],
  [("estimator caches", "matrices keyed by baseline, window, options", D)], ["returned power spectra compared with a fresh estimator"])
p("C14", "Computations never change their inputs, even when interrupted",
  "Estimating power spectra, and every operation on spectra that is asked to return a new object (select, average, fold, bin, bootstrap, combine, unit conversion, noise and statistics calculations, writing), leaves the objects and arrays given to it exactly as they were, whether it succeeds, is refused, or is interrupted at any instruction.",
  ["inputs", "crash_points", "programs"],
  "every operation and argument, every instant at which it may be interrupted",
  "Tests rarely compare inputs before and after, and never interrupt an operation.",
  [U, G, UU, D, "src/hera_pspec/pstokes.py"], [("copies made before in-place work", U + ", " + G)], [], ["deep snapshot of the inputs before and after"])
p("C15", "Derived and stored objects share no state with their sources",
  "An object obtained from another (by a non-in-place operation, by combining, by storing and fetching) can be changed in any way without changing its source, and the source can be changed without changing it.",
  ["histories", "programs"],
  "every sequence of operations on objects derived from one another",
  "Tests check values right after one operation; aliasing only shows when another object is modified later.",
  [U, G, UU, C], [("deepcopy before operations, fresh arrays on read", U + ", " + G)], [], ["deep snapshots of all live objects after each step"])
p("C16", "Seeded randomness is reproducible and independent of history",
  "Every operation that takes a random seed (noise simulation, baseline sampling and grouping, bootstrap resampling) gives the same result for the same seed and inputs whatever random numbers were drawn before, in between by other tasks, or in an earlier attempt that failed. Different draws within one call are not copies of each other.",
  ["histories", "schedules", "inputs"],
  "every prior state and interleaved use of the ambient random generator, every seed including 0, every retry",
  "Tests compare two calls made in the same order in one process.",
  [G, TS, U], [("explicit seeding", G + ": sample_baselines, bootstrap_average_blpairs; " + TS + ": noise_sim, sky_noise_sim")], [], ["results of the seeded operations"])
p("C17", "The bootstrap pipeline is repeatable and preserves its inputs",
  "Running the bootstrap over a container with a seed stores, for every source spectrum, the same average and bootstrap results in every run, whatever order the container lists them in and whatever ran before. Source spectra are never changed. A failed or interrupted run can be run again and then gives the same result as an undisturbed one.",
  ["histories", "fault_sequences", "configurations"],
  "every container content, listing order, fault during the run and sequence of reruns",
  "The test runs it once on one file.",
  [G, S + "bootstrap_run.py"], [("bootstrap_run", G)], [], ["contents of the container"])
p("C18", "Results do not depend on hash seed, listing order, or clock",
  "The same analysis on the same inputs gives bit-identical spectra, group orders and stored names in every process, whatever the hash randomization, directory listing order, current time and worker that runs it.",
  ["schedules", "configurations"],
  "every hash seed, listing order, clock value",
  "The test suite runs under one fixed hash seed in one process.",
  [U, G, T, D, CL], [("sorted or insertion-ordered iteration", G + ", " + T + ", " + U)], [], ["digest of results across fresh interpreters"])
p("C19", "A refused in-place operation leaves the object unchanged",
  "When an in-place operation on a spectrum object (selecting, averaging, folding, adding statistics, units or cosmology) is refused because its arguments are invalid or match nothing, the object is left exactly as it was, and the same valid operations still give the same results afterwards.",
  ["inputs", "histories"],
  "every operation with every kind of invalid argument at every position of a history",
  "Tests only check that an exception is raised, not the object left behind.",
  [U, UU, G], [("argument validation before mutation", UU + ": _select; " + G)], [], ["deep snapshot of the object before and after"])
p("C20", "Analysis can be checkpointed and resumed at any step",
  "In any sequence of operations on a spectrum object, saving it, losing the process and reloading it at any step changes nothing in the later results; doing a step in place or on a copy gives the same object.",
  ["histories", "crash_points"],
  "every sequence of operations, every step at which the process is replaced, file or container as storage",
  "Tests persist only freshly made objects, never the products of a history.",
  [U, G, UU, C], [("complete persistence of the object state", U + ": write_to_group/read_from_group")], [], ["deep comparison with the run that never stopped"])
p("C21", "Working shard by shard gives the same result as working on the whole",
  "Operations that act on each spectrum or each group on its own (selecting, folding, unit conversion, averaging within baseline-pair groups or over times, delay binning, noise estimates) give the same values when applied to shards of the data that keep the groups together and merged afterwards, in any order, as when applied to the whole.",
  ["schedules", "histories", "inputs"],
  "every partition of the data into shards that respect the groups, every order of processing and merging",
  "Tests apply each operation to one whole object.",
  [U, G], [("operations over baseline-pair groups, combine_uvpspec", G + ", " + U)], [], ["values keyed by (window, baseline-pair, time, polarization)"])
p("C22", "Batch steps on a container can be rerun after a failure",
  "Batch steps that read and write containers (adding noise estimates, forming pseudo-Stokes data, merging) never damage spectra they do not produce, and after a failure or crash of the step between operations a rerun ends in the same contents as an undisturbed run.",
  ["crash_points", "histories", "fault_sequences"],
  "every file operation at which the step may fail, every sequence of reruns",
  "The scripts are not exercised with failures or reruns.",
  [S + "auto_noise_run.py", S + "generate_pstokes_run.py", S + "psc_merge_spectra.py"], [("script bodies", S)], [], ["contents of output files after the rerun"])

NA = [
 ("N01", "Power spectra are correctly normalized quadratic estimates", "The estimated band powers, window functions and covariances equal the quadratic-estimator formulas for the chosen weighting, normalization and taper.", [D], "pspec, q_hat, get_G, get_H, get_MW"),
 ("N02", "Cosmological conversions are correct", "Frequency, delay and baseline lengths convert to redshift and wavenumbers according to the chosen cosmology, and conversions invert each other.", ["src/hera_pspec/conversions.py"], "Cosmo_Conversions"),
 ("N03", "Beam integrals and normalization scalars are correct", "Beam solid angles and the power-spectrum scalar equal their defining integrals for every beam and band.", ["src/hera_pspec/pspecbeam.py"], "PSpecBeamBase.compute_pspec_scalar"),
 ("N04", "Noise power spectra follow the radiometer formula", "Thermal-noise spectra equal the radiometer formula for the given system temperature, integration, samples and beam.", ["src/hera_pspec/noise.py", U], "Sensitivity.calc_P_N, generate_noise_spectra"),
 ("N05", "Exact window functions follow from the beam and baseline", "Exact window functions are normalized and equal their defining integrals.", ["src/hera_pspec/uvwindow.py"], "UVWindow.get_cylindrical_wf"),
 ("N06", "Averages are the correctly weighted means", "Averaged spectra, errors, covariances and window functions equal the documented weighted means, for every weighting.", [G], "average_spectra"),
 ("N07", "Folding, delay binning and unit conversion follow their formulas", "Folded, binned and unit-converted spectra equal the documented formulas.", [U, G], "fold_spectra, convert_to_deltasq, average_in_delay_bins"),
 ("N08", "Baseline-pair and polarization-pair codes are invertible", "Encoding and decoding of baseline-pairs and polarization-pairs are mutually inverse for every valid antenna and polarization number.", [UU], "_antnums_to_blpair, polpair_tuple2int"),
 ("N09", "Redundant baseline groups contain exactly equal baselines", "Baselines are grouped if and only if they agree within tolerance.", [T], "get_reds, calc_blpair_reds"),
 ("N10", "Signal-loss and bias corrections invert the modelled loss", "The applied loss corrections equal the inverse of the modelled loss.", ["src/hera_pspec/loss.py", D], "loss.py"),
 ("N11", "Pseudo-Stokes visibilities are the right linear combinations", "Each pseudo-Stokes visibility equals the documented combination of polarizations with combined flags and weights.", ["src/hera_pspec/pstokes.py"], "construct_pstokes"),
 ("N12", "Plots show the data they are given", "Plotting functions draw the requested spectra, units and errors.", ["src/hera_pspec/plot.py"], "delay_spectrum, delay_wedge"),
]
for i, t, s, f, m in NA:
    p(i, t, s, ["inputs"], "every numerical input", "Tests check a few numerical cases.", f, [(m, f[0])])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
print(len(P), "properties")
