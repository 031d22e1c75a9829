"""Writes /verif/known_findings.jsonl (findings that were repaired; suppresses nothing)."""
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C02", "722d187", "a failed store left a new group behind or had already deleted the spectrum it was to overwrite"),
 ("C04", "66d28f3", "a failing or interrupted open or call left the container file open"),
 ("C10", "8abb710", "write_hdf5 destroyed the previous file when the write failed or was killed"),
 ("C05", "8abb710", "a kill during write_hdf5 left a truncated file in place of the old one"),
 ("C11", "1e2d9a2", "job_monitor re-ran failed jobs on the wrong inputs, exhausted generators, and miscounted failures"),
 ("C08", "4526071", "combine_uvpspec attached frequencies and delays of one window to another"),
 ("C08", "c161ea5", "combine_uvpspec took times and LSTs from the wrong rows of the first object"),
 ("C08", "ae3d2bc", "baseline-pair times were looked up by one time only"),
 ("C08", "409e0ae", "combine_uvpspec left the k bins of exact windows unset"),
 ("C08", "0574b8d", "combined beam integrals did not follow the polarizations"),
 ("C08", "134b8a7", "scalars of different windows or polarizations were compared"),
 ("C08", "89962f0", "combining folded spectra failed or mis-sized arrays"),
 ("C15", "463fc51", "combined spectra shared arrays and cosmology with their inputs"),
 ("C09", "50cb256", "selecting windows of folded spectra separated delays from data"),
 ("C21", "2155041", "selections did not apply to the dataset labels"),
 ("C06", "bf04971", "merging a container drew in other families, lost spectra when a merge failed"),
 ("C09", "8145e1d", "symmetric_taper was not stored; time_2_array was not a declared parameter"),
 ("C09", "23efe3c", "metadata-only reads did not select beam integrals and weighting parameters"),
 ("C14", "bb3e37f", "delay and spherical binning modified the caller's kernels and bin edges"),
 ("C20", "bdba98d", "delay binning invented an empty stats_array that could not be saved and read back"),
 ("C21", "85185ce", "averaged spectra kept the dataset labels of other rows"),
 ("C19", "51aea7a", "a refused in-place selection had already changed the object"),
 ("C16", "a884eee", "select_common ignored polarizations; bootstrap of several objects crashed"),
 ("C19", "8f40dae", "an in-place select_common that is refused had changed some of the objects"),
 ("C19", "6dce239", "a failed set_cosmology left the object with half of the change"),
 ("C19", "4e1741b", "add_approximate_covariance left a partial covariance without cov_model"),
 ("C19", "88e067a", "a failed noise estimate left partial statistics in the object"),
 ("C16", "ae30335", "seeded operations drew from (and reseeded) global generators"),
 ("C19", "ca488b8", "convert_to_deltasq failed half way on folded spectra"),
 ("C20", "2a0ca26", "averaged spectra lost r_params when saved and read back"),
 ("C20", "e0b725b", "statistics were read-only after delay binning unless reloaded"),
 ("C13", "896db32", "a failed pspec call left a filter extension that made later calls refuse or change"),
 ("C13", "95d6d3d", "filter extensions of one window switched off the symmetric taper of the next windows"),
 ("C13", "a99594c", "pspec lost times and baseline-pairs when the first polarization pair was skipped"),
 ("C13", "043d677", "exact_norm reused the normalization of another polarization"),
 ("C13", "0632bf9", "known covariances leaked into the V^-1/2 normalization of later baseline-pairs"),
 ("C15", "6b8c603", "estimated spectra shared the beam's cosmology and frequency array"),
 ("C20", "e77313b", "set_stats dropped the imaginary part depending on whether the object had been saved before"),
 ("C21", "a62b883", "get_window_function of folded spectra with exact windows failed or was cut along the wrong axis"),
 ("C21", "5a96a99", "approximate covariance of a single delay had the wrong shape"),
 ("C21", "f01c3f2", "spherical averages with exact window functions could not be combined"),
 ("C21", "832544c", "spherical window functions mixed up times and accumulated over polarizations"),
 ("C21", "91e60dc", "uvp_noise_error refused a data set whose baseline-pairs have different numbers of times"),
 ("C12", "3bbb2ca", "pspec_run failed with chunks of several baseline-pairs"),
 ("C12", "488e3fb", "rephasing swapped the polarizations of data sets that store them in different orders"),
 ("C12", "fa0258f", "trimming to common LSTs left the errors of the data sets untrimmed: covariances of the wrong integrations"),
 ("C17", "6886b75", "bootstrap_run.py could not run at all"),
 ("C17", "5059cf4", "a rerun of bootstrap_run bootstrapped its own outputs again"),
 ("C22", "0a3051b", "uvd_to_Tsys scaled polarizations with the wrong beam when the file's polarizations are not in alphabetical order"),
 ("C22", "546af0b", "PSpecContainer.save crashed for a container that is not kept open, so auto_noise_run.py always failed at its end"),
 ("C22", "d47a75d", "auto_noise_run.py --spectra always failed with a NameError"),
 ("C22", "21d34bc", "generate_pstokes_run.py crashed without --pstokes"),
 ("C22", "3010add", "the P_SN correction turned stored complex statistics into nan, so a rerun of the noise step differed"),
 ("C14", "8e49a38", "pspec_run calibrated, trimmed, flagged and interleaved the data sets given as objects in place"),
 ("C22", "8596fd4", "an interrupted generate_pstokes_run.py destroyed its input or an earlier output"),
 ("C18", "7319b94", "spherical_wf_from_uvp returned uninitialised memory for spherical bins which the window functions do not reach"),
 ("C14", "7997abb", "PSpecBeamFromArray renamed the keys of the beam integrals it was given"),
 ("C19", "9fdac6c", "a bias correction refused for a missing window left the earlier windows corrected"),
 ("C10", "a044e86", "UVWindow.run_and_write removed the old file before it computed anything, and left partial files"),
]
extra = os.path.join(here, "tools", "findings_extra.txt")
with open(os.path.join(here, "known_findings.jsonl"), "w") as f:
    for a in F:
        f.write("fixed: property=%s %s %s\n" % a)
