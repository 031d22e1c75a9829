From 66d28f3208049e75c16f96ac54063cdfd6aa62fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 01/58] fix: close a container's file when opening it fails or
 a call is interrupted

The transactional decorator opened the file outside its try block and only
caught Exception, so a failing header update or a KeyboardInterrupt left the
file open (and locked) although keep_open=False.
---
 src/hera_pspec/container.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index a680ea4..7cbe8c8 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -26,21 +26,21 @@ def transactional(fn):
     def wrapper(*args, **kwargs):
         psc = args[0]  # self object
 
-        # Open HDF5 file if needed
-        if psc.data is None:
-            psc._open()
-
         # if passed 'nested' kwarg get it
         nested = kwargs.pop("nested", False)
 
         # Run function
         try:
+            # Open HDF5 file if needed
+            if psc.data is None:
+                psc._open()
+
             f = fn(*args, **kwargs)
-        except Exception as err:
-            # Close file before raising error
+        except BaseException:
+            # Close file before raising error (also if interrupted)
             if not psc.keep_open:
                 psc._close()
-            raise err
+            raise
 
         # Close HDF5 file if necessary
         if not psc.keep_open and not nested:
@@ -192,8 +192,11 @@ class PSpecContainer:
         """
         if self.data is None:
             return
-        self.data.close()
-        self.data = None
+        try:
+            self.data.close()
+        finally:
+            # The handle cannot be used again, even if closing it failed
+            self.data = None
 
     def _store_pspec(self, pspec_group, uvp):
         """
-- 
2.43.0


From 722d187dbf9765bb5071f21ea9f4d8a479de228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 02/58] fix: a failed PSpecContainer.set_pspec leaves the
 container unchanged

The old spectrum was deleted before the new one was checked and written, and
a partly written, untagged group stayed behind under the name. Write to an
anonymous group first and link it when complete.
---
 src/hera_pspec/container.py | 54 ++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 7cbe8c8..0495685 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -337,33 +337,43 @@ class PSpecContainer:
         key1 = "%s" % group
         key2 = "%s" % psname
 
-        # Check that the group exists
-        if key1 not in list(self.data.keys()):
-            grp = self.data.create_group(key1)
-        else:
-            grp = self.data[key1]
-
-        # Check that the psname exists
-        if key2 not in list(grp.keys()):
-            # Create group if it doesn't exist
-            psgrp = grp.create_group(key2)
-        else:
-            if overwrite:
-                # Delete group and recreate
-                del grp[key2]
-                psgrp = grp.create_group(key2)
-            else:
-                raise AttributeError(
-                    "Power spectrum %s/%s already exists and overwrite=False."
-                    % (key1, key2)
-                )
-
-        # Add power spectrum to this group
+        # Check that the psname does not exist yet, or may be overwritten
+        new_group = key1 not in list(self.data.keys())
+        exists = not new_group and key2 in list(self.data[key1].keys())
+        if exists and not overwrite:
+            raise AttributeError(
+                "Power spectrum %s/%s already exists and overwrite=False."
+                % (key1, key2)
+            )
+
+        # Add power spectrum to an anonymous group, which is only linked under
+        # its name once complete: a failure up to then leaves the file as it was
+        psgrp = self.data.create_group(None)
         self._store_pspec(psgrp, pspec)
 
         # Store info about what kind of power spectra are in the group
         psgrp.attrs["pspec_type"] = pspec.__class__.__name__
 
+        # Link it, replacing the existing group if there is one
+        old = self.data[key1][key2] if exists else None
+        try:
+            grp = self.data.create_group(key1) if new_group else self.data[key1]
+            if exists:
+                del grp[key2]
+            grp[key2] = psgrp
+        except BaseException:
+            # Undo whatever was done
+            if new_group:
+                if key1 in self.data:
+                    del self.data[key1]
+            else:
+                grp = self.data[key1]
+                if key2 in grp and grp[key2] != old:
+                    del grp[key2]
+                if exists and key2 not in grp:
+                    grp[key2] = old
+            raise
+
     @transactional
     def get_pspec(self, group, psname=None, **kwargs):
         """
-- 
2.43.0


From 8abb71083c5368f2593b8796a92706e823cd08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 03/58] fix: UVPSpec.write_hdf5 keeps the previous file when
 the write fails

It deleted the existing file before checking and writing the object, and left
a partial file behind on failure. Write to a temporary file and move it into
place once complete.
---
 src/hera_pspec/uvpspec.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index aa5ea7a..d596122 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2082,11 +2082,18 @@ class UVPSpec:
             raise OSError(f"{filepath} exists, not overwriting...")
         elif os.path.exists(filepath) and overwrite is True:
             print(f"{filepath} exists, overwriting...")
-            os.remove(filepath)
 
-        # Write file
-        with h5py.File(filepath, "w") as f:
-            self.write_to_group(f, run_check=run_check)
+        # Write to a temporary file, which takes the place of filepath only once
+        # complete: if anything fails, filepath is left as it was
+        tmppath = f"{filepath}.tmp{os.getpid()}"
+        try:
+            with h5py.File(tmppath, "w") as f:
+                self.write_to_group(f, run_check=run_check)
+            os.replace(tmppath, filepath)
+        except BaseException:
+            if os.path.exists(tmppath):
+                os.remove(tmppath)
+            raise
 
     def set_cosmology(self, new_cosmo, overwrite=False, new_beam=None, verbose=True):
         """
-- 
2.43.0


From 1e2d9a26e823bb93a5161ab8e197cc2868ae4699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 04/58] fix: job_monitor re-runs failed jobs on their own
 inputs

Re-runs were given the indices of the failed jobs instead of the elements of
the iterator, and iterators that can be read only once were lost.
---
 src/hera_pspec/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 0338561..04d4ce6 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1130,8 +1130,9 @@ def job_monitor(
     # Start timing
     t_start = time.time()
 
-    # run function over jobs
-    exit_codes = np.array(list(M(run_func, iterator)))
+    # run function over jobs (keep them for re-runs, iterator may be exhausted)
+    jobs = list(iterator)
+    exit_codes = np.array(list(M(run_func, jobs)))
     tnow = datetime.now(UTC)
 
     # check for len-0
@@ -1159,7 +1160,7 @@ def job_monitor(
                 # break after certain number of tries
                 break
             # re-run function over jobs that failed
-            exit_codes = np.array(list(M(run_func, failures)))
+            exit_codes = np.array(list(M(run_func, [jobs[i] for i in failures])))
             # update counter
             counter += 1
             # update failures
-- 
2.43.0


From 45260714239e88c813f139bac3ba104b37107f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 05/58] fix: combine_uvpspec keeps each window's frequencies
 and delays with its data

---
 src/hera_pspec/uvpspec.py | 50 ++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index d596122..a615a79 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3075,6 +3075,18 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # Loop over new spectral windows and setup arrays
     for i, spw in enumerate(new_spws):
+        # get the index of a uvp holding this new spw, and its spw index there
+        l = [spw in _u for _u in uvp_spws].index(True)
+        m = [spw == _spw for _spw in uvp_spws[l]].index(True)
+
+        # frequency and delay metadata, in the order of the new spws
+        spw_freqs = uvps[l].freq_array[uvps[l].spw_freq_array == m]
+        spw_dlys = uvps[l].dly_array[uvps[l].spw_dly_array == m]
+        u.freq_array.extend(spw_freqs)
+        u.dly_array.extend(spw_dlys)
+        u.spw_freq_array.extend([i] * len(spw_freqs))
+        u.spw_dly_array.extend([i] * len(spw_dlys))
+
         # Initialize new arrays
         u.data_array[i] = np.empty((Nbltpairs, spw[3], Npols), np.complex128)
         u.integration_array[i] = np.empty((Nbltpairs, Npols), np.float64)
@@ -3083,8 +3095,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
         # so needs to keep this shape)
         u.nsample_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         if store_window:
-            l = [spw in _u for _u in uvp_spws].index(True)
-            m = [spw == _spw for _spw in uvp_spws[l]].index(True)
             if exact_windows:
                 Nkperp = uvps[l].window_function_kperp[m][:, 0].size
                 Nkpara = uvps[l].window_function_kpara[m][:, 0].size
@@ -3109,13 +3119,12 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     (Nbltpairs, spw[3], Npols), np.complex128
                 )
 
-    # Set frequencies and delays: if concat_ax == 'spw' this is changed below
-    # assumes spw metadata are the same for all uvps
-    u.spw_array = uvps[0].spw_array.copy()
-    u.spw_freq_array = uvps[0].spw_freq_array.copy()
-    u.spw_dly_array = uvps[0].spw_dly_array.copy()
-    u.freq_array = uvps[0].freq_array.copy()
-    u.dly_array = uvps[0].dly_array.copy()
+    # Set frequencies and delays
+    u.spw_array = np.arange(Nspws, dtype=np.int32)
+    u.spw_freq_array = np.array(u.spw_freq_array)
+    u.spw_dly_array = np.array(u.spw_dly_array)
+    u.freq_array = np.array(u.freq_array)
+    u.dly_array = np.array(u.dly_array)
     u.Nfreqs = len(np.unique(u.freq_array))
     u.Nspwfreqs = len(u.spw_freq_array)
     u.Ndlys = len(np.unique(u.dly_array))
@@ -3177,26 +3186,12 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # fill in data arrays depending on concat ax
     if concat_ax == "spw":
-        u.spw_array = np.arange(Nspws, dtype=np.int32)
-        freq_array, dly_array = [], []
-        spw_freq_array, spw_dly_array = [], []
-
         # Concatenate spectral windows
         for i, spw in enumerate(new_spws):
             # get index of this new spw in uvps and its spw index
             l = [spw in _u for _u in uvp_spws].index(True)
             m = [spw == _spw for _spw in uvp_spws[l]].index(True)
 
-            # freq metadata
-            spw_freq_inds = np.where(uvps[l].spw_freq_array == m)[0]
-            freq_array.extend(uvps[l].freq_array[spw_freq_inds])
-            spw_freq_array.extend(np.ones(len(spw_freq_inds), dtype=np.int32) * i)
-
-            # dly metadata
-            spw_dly_inds = np.where(uvps[l].spw_dly_array == m)[0]
-            dly_array.extend(uvps[l].dly_array[spw_dly_inds])
-            spw_dly_array.extend(np.ones(len(spw_dly_inds), dtype=np.int32) * i)
-
             # Lookup indices of new_blpts in the uvp_blpts[l] array
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
             if i == 0:
@@ -3239,15 +3234,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                                 m
                             ][n, :, q]
 
-        u.freq_array = np.array(freq_array)
-        u.dly_array = np.array(dly_array)
-        u.spw_freq_array = np.array(spw_freq_array)
-        u.spw_dly_array = np.array(spw_dly_array)
-        u.Nfreqs = len(np.unique(u.freq_array))
-        u.Nspwfreqs = len(u.spw_freq_array)
-        u.Ndlys = len(np.unique(u.dly_array))
-        u.Nspwdlys = len(u.spw_dly_array)
-
         # Populate new LST, time, and blpair arrays
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
-- 
2.43.0


From c161ea5d115f90d0196bde9c4118a5d28899aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 06/58] fix: combine_uvpspec takes times of the first object at
 that object's own rows

---
 src/hera_pspec/uvpspec.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index a615a79..32554f7 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3194,8 +3194,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
             # Lookup indices of new_blpts in the uvp_blpts[l] array
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if i == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over polarizations
             for k, p in enumerate(new_polpairs):
@@ -3235,6 +3233,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                             ][n, :, q]
 
         # Populate new LST, time, and blpair arrays
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
@@ -3309,8 +3308,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             # Get mapping of blpair-time indices between old UVPSpec objects
             # and the new one
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if k == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over spectral windows
             for i, spw in enumerate(new_spws):
@@ -3346,6 +3343,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     u.label_1_array[i, j, k] = u_lbls[uvps[l].labels[lbl1]]
                     u.label_2_array[i, j, k] = u_lbls[uvps[l].labels[lbl2]]
 
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
-- 
2.43.0


From ae3d2bca998acc651bfacc6a6c749869e113fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 07/58] fix: look up baseline-pair times by both times when
 combining spectra

---
 src/hera_pspec/uvpspec_utils.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 465dd15..6e0de7b 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -1184,12 +1184,12 @@ def _fast_lookup_blpairts(src_blpts, query_blpts, time_prec=8):
     Parameters
     ----------
     src_blpts : list of tuples or array_like
-        List of tuples or array of shape (N, 2), containing a list of (blpair,
-        time) couplets.
+        List of tuples or array of shape (N, 2) or (N, 3), containing a list of
+        (blpair, time) couplets or (blpair, time1, time2) triplets.
 
     query_blpts : list of tuples or array_like
-        List of tuples or array of shape (M, 2), containing a list of (blpair,
-        time) couplets that you want to find the indices of in source_blpts.
+        List of tuples or array of shape (M, 2) or (M, 3), containing a list of
+        (blpair, time) couplets or (blpair, time1, time2) triplets that you want to find the indices of in source_blpts.
 
     time_prec : int, optional
         Number of decimals to round time array to when performing float
@@ -1207,13 +1207,22 @@ def _fast_lookup_blpairts(src_blpts, query_blpts, time_prec=8):
     src_blpts = np.asarray(src_blpts)
     query_blpts = np.asarray(query_blpts)
 
+    # (the second time of (blpair, time1, time2) triplets is matched separately)
+    src_times2, query_times2 = None, None
+    if src_blpts.shape[1] > 2 and query_blpts.shape[1] > 2:
+        src_times2 = np.around(src_blpts[:, 2], time_prec)
+        query_times2 = np.around(query_blpts[:, 2], time_prec)
+
     src_blpts = src_blpts[:, 0] + 1.0j * np.around(src_blpts[:, 1], time_prec)
     query_blpts = query_blpts[:, 0] + 1.0j * np.around(query_blpts[:, 1], time_prec)
     # Applies rounding to time values to ensure reliable float comparisons
 
     # Do np.where comparison for all new_blpts
     # (indices stored in second array returned by np.where)
-    blpts_idxs = np.where(src_blpts == query_blpts[:, np.newaxis])[1]
+    match = src_blpts == query_blpts[:, np.newaxis]
+    if src_times2 is not None:
+        match &= src_times2 == query_times2[:, np.newaxis]
+    blpts_idxs = np.where(match)[1]
 
     return blpts_idxs
 
-- 
2.43.0


From 409e0ae353ddd422db82d103e7b4d25a5f472329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 08/58] fix: combine_uvpspec fills the k bins of exact window
 functions

---
 src/hera_pspec/uvpspec.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 32554f7..3954a43 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3101,6 +3101,22 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                 u.window_function_array[i] = np.empty(
                     (Nbltpairs, spw[3], Nkperp, Nkpara, Npols), np.float64
                 )
+                # kperp and kpara bins of each polarization
+                u.window_function_kperp[i] = np.empty((Nkperp, Npols), np.float64)
+                u.window_function_kpara[i] = np.empty((Nkpara, Npols), np.float64)
+                for k, p in enumerate(new_polpairs):
+                    l = [
+                        spw in _spws and p in _pols
+                        for _spws, _pols in zip(uvp_spws, uvp_polpairs)
+                    ].index(True)
+                    m = uvp_spws[l].index(spw)
+                    q = uvp_polpairs[l].index(p)
+                    u.window_function_kperp[i][:, k] = uvps[l].window_function_kperp[m][
+                        :, q
+                    ]
+                    u.window_function_kpara[i][:, k] = uvps[l].window_function_kpara[m][
+                        :, q
+                    ]
             else:
                 Nkpar = uvps[l].window_function_array[m].shape[2]
                 u.window_function_array[i] = np.empty(
-- 
2.43.0


From 0574b8d9627bc14e023828f34d8d70902b62312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 09/58] fix: combine_uvpspec keeps beam integrals with their
 polarizations

---
 src/hera_pspec/uvpspec.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 3954a43..9a97632 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3400,6 +3400,15 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     for k in static_meta.keys():
         setattr(u, k, static_meta[k])
 
+    # beam integrals have one column per polarization, in the new order
+    for k in ["OmegaP", "OmegaPP"]:
+        if k in static_meta:
+            cols = []
+            for p in new_polpairs:
+                l = [p in _polpairs for _polpairs in uvp_polpairs].index(True)
+                cols.append(getattr(uvps[l], k)[:, uvp_polpairs[l].index(p)])
+            setattr(u, k, np.array(cols).T)
+
     # Run check to make sure the new UVPSpec object is valid
     u.check()
 
@@ -3528,7 +3537,18 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
     ]
     for m in static_meta:
         for u in uvps[1:]:
-            if hasattr(uvps[0], m) and hasattr(u, m):
+            if m in ["OmegaP", "OmegaPP"] and hasattr(uvps[0], m) and hasattr(u, m):
+                # one column per polarization: shared polarizations must agree
+                pols0, pols1 = uvps[0].polpair_array.tolist(), u.polpair_array.tolist()
+                pols = [p for p in pols0 if p in pols1]
+                omega0, omega1 = getattr(uvps[0], m), getattr(u, m)
+                assert omega0.shape[:1] == omega1.shape[:1] and np.allclose(
+                    omega0[:, [pols0.index(p) for p in pols]],
+                    omega1[:, [pols1.index(p) for p in pols]],
+                ), (
+                    f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
+                )
+            elif hasattr(uvps[0], m) and hasattr(u, m):
                 assert uvps[0].__eq__(u, params=[m]), (
                     f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
                 )
-- 
2.43.0


From 463fc51d3296c0dc385c254de603792c77c6775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 10/58] fix: combined spectra do not share state with their
 inputs

---
 src/hera_pspec/uvpspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 9a97632..4da9365 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3005,7 +3005,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     """
     # Check if only one UVPSpec object is given
     if (len(uvps) == 1) and issubclass(type(uvps[0]), UVPSpec):
-        return uvps[0]
+        return copy.deepcopy(uvps[0])
 
     # Perform type checks and get concatenation axis
     (uvps, concat_ax, new_spws, new_blpts, new_polpairs, static_meta) = get_uvp_overlap(
@@ -3398,7 +3398,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     u.r_params = uvputils.compress_r_params(r_params)
 
     for k in static_meta.keys():
-        setattr(u, k, static_meta[k])
+        setattr(u, k, copy.deepcopy(static_meta[k]))
 
     # beam integrals have one column per polarization, in the new order
     for k in ["OmegaP", "OmegaPP"]:
@@ -3437,8 +3437,8 @@ def recursive_combine_uvpspec(uvps):
     if len(uvps) == 0:
         raise ValueError("Cannot run recursive_combine_uvpspec on length-0 objects.")
     if len(uvps) == 1:
-        # Base case: only one object left, return it
-        return uvps[0]
+        # Base case: only one object left, return (a copy of) it
+        return copy.deepcopy(uvps[0])
     elif len(uvps) == 2:
         # Base case: two uvp objects, add them together
         return combine_uvpspec(
-- 
2.43.0


From 134b8a765940d028e716872310be1d525c3e9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 11/58] fix: compare scalars by window and polarization when
 combining spectra

---
 src/hera_pspec/uvpspec.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 4da9365..aa5c87c 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3651,10 +3651,14 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
 
     # perform additional checks given concat ax
     if concat_ax == "blpairts":
-        # check scalar_array
-        assert np.all(
-            [np.isclose(uvps[0].scalar_array, u.scalar_array) for u in uvps[1:]]
-        ), (
+        # check scalar_array, matching spectral windows and polarizations
+        scalars = []
+        for u in uvps:
+            u_spws, u_polpairs = u.get_spw_ranges(), u.polpair_array.tolist()
+            spw_idxs = [u_spws.index(s) for s in unique_spws]
+            pol_idxs = [u_polpairs.index(p) for p in unique_polpairs]
+            scalars.append(u.scalar_array[spw_idxs][:, pol_idxs])
+        assert np.all([np.isclose(scalars[0], s) for s in scalars[1:]]), (
             "scalar_array must be the same for all uvps given "
             "concatenation along blpairts."
         )
-- 
2.43.0


From 89962f0d5f22ddffa93cc105a63c7550c2b93bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 12/58] fix: combine_uvpspec accepts folded spectra

---
 src/hera_pspec/uvpspec.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index aa5c87c..e78488a 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3087,8 +3087,9 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
         u.spw_freq_array.extend([i] * len(spw_freqs))
         u.spw_dly_array.extend([i] * len(spw_dlys))
 
-        # Initialize new arrays
-        u.data_array[i] = np.empty((Nbltpairs, spw[3], Npols), np.complex128)
+        # Initialize new arrays (folded spectra still hold all delays)
+        Ndlys = uvps[l].data_array[m].shape[1]
+        u.data_array[i] = np.empty((Nbltpairs, Ndlys, Npols), np.complex128)
         u.integration_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         u.wgt_array[i] = np.empty((Nbltpairs, spw[2], 2, Npols), np.float64)
         # spw[2] == Nfreqs (wgt_array is not resampled if Ndlys != Nfreqs,
@@ -3099,7 +3100,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                 Nkperp = uvps[l].window_function_kperp[m][:, 0].size
                 Nkpara = uvps[l].window_function_kpara[m][:, 0].size
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkperp, Nkpara, Npols), np.float64
+                    (Nbltpairs, Ndlys, Nkperp, Nkpara, Npols), np.float64
                 )
                 # kperp and kpara bins of each polarization
                 u.window_function_kperp[i] = np.empty((Nkperp, Npols), np.float64)
@@ -3120,19 +3121,19 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             else:
                 Nkpar = uvps[l].window_function_array[m].shape[2]
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkpar, Npols), np.float64
+                    (Nbltpairs, Ndlys, Nkpar, Npols), np.float64
                 )
         if store_cov:
             u.cov_array_real[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
             u.cov_array_imag[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
         if store_stats:
             for stat in stored_stats:
                 u.stats_array[stat][i] = np.empty(
-                    (Nbltpairs, spw[3], Npols), np.complex128
+                    (Nbltpairs, Ndlys, Npols), np.complex128
                 )
 
     # Set frequencies and delays
-- 
2.43.0


From 50cb25677ce2ce163748c0663db29bd17656b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 13/58] fix: selecting windows of folded spectra keeps delays
 and data in step

---
 src/hera_pspec/uvpspec_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 6e0de7b..fb3c13b 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -588,8 +588,9 @@ def _select(
     if spws is not None:
         # Get info for each spw that will be retained
         spw_freq_select = uvp.spw_to_freq_indices(spws)
-        spw_dly_select = uvp.spw_to_dly_indices(spws)
         spw_select = uvp.spw_indices(spws)
+        # keep all delays of the spws: folded spectra still hold the negative ones
+        spw_dly_select = np.isin(uvp.spw_dly_array, uvp.spw_array[spw_select])
         uvp.spw_freq_array = uvp.spw_freq_array[spw_freq_select]
         uvp.spw_dly_array = uvp.spw_dly_array[spw_dly_select]
 
@@ -613,7 +614,7 @@ def _select(
                 continue
             spw = np.min(uvp.spw_array[uvp.spw_array > i])
             spw_freq_select = uvp.spw_to_freq_indices(spw)
-            spw_dly_select = uvp.spw_to_dly_indices(spw)
+            spw_dly_select = uvp.spw_dly_array == spw
             spw_select = uvp.spw_indices(spw)
             uvp.spw_freq_array[spw_freq_select] = i
             uvp.spw_dly_array[spw_dly_select] = i
-- 
2.43.0


From 21550410f7117a85ed62412943c1cf72b1efe4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 14/58] fix: selections keep dataset labels with their spectra

---
 src/hera_pspec/uvpspec_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index fb3c13b..7b1501a 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -607,6 +607,9 @@ def _select(
         uvp.Nspwfreqs = len(uvp.spw_freq_array)
         if hasattr(uvp, "scalar_array"):
             uvp.scalar_array = uvp.scalar_array[spw_select, :]
+        for label in ["label_1_array", "label_2_array"]:
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[spw_select])
 
         # Down-convert spw indices such that spw_array == np.arange(Nspws)
         for i in range(uvp.Nspws):
@@ -687,6 +690,9 @@ def _select(
         uvp.lst_1_array = uvp.lst_1_array[blp_select]
         uvp.lst_2_array = uvp.lst_2_array[blp_select]
         uvp.lst_avg_array = uvp.lst_avg_array[blp_select]
+        for label in ["label_1_array", "label_2_array"]:
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[:, blp_select])
         uvp.Ntpairs = len(np.unique(uvp.time_avg_array))
         uvp.Nblpairs = len(np.unique(uvp.blpair_array))
         uvp.Nbltpairs = len(uvp.blpair_array)
@@ -743,6 +749,9 @@ def _select(
         uvp.Npols = len(uvp.polpair_array)
         if hasattr(uvp, "scalar_array"):
             uvp.scalar_array = uvp.scalar_array[:, polpair_select]
+        for label in ["label_1_array", "label_2_array"]:
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[:, :, polpair_select])
     else:
         polpair_select = slice(None)
 
-- 
2.43.0


From bf0497123d752d6e45233d7d78211376bfca93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 15/58] fix: merging spectra of a container keeps families
 apart and is undone when it fails

---
 scripts/psc_merge_spectra.py |  4 +--
 src/hera_pspec/container.py  | 65 ++++++++++++++++++++++++++----------
 2 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/scripts/psc_merge_spectra.py b/scripts/psc_merge_spectra.py
index 1e594df..a083795 100755
--- a/scripts/psc_merge_spectra.py
+++ b/scripts/psc_merge_spectra.py
@@ -9,14 +9,14 @@ from hera_cal._cli_tools import parse_args, run_with_profiling
 from hera_pspec import container
 
 # Parse commandline args
-args = container.get_combine_psc_argparser()
+args = container.get_combine_psc_spectra_argparser()
 a = parse_args(args)
 
 run_with_profiling(
     container.combine_psc_spectra,
     a,
     psc=a.filename,
-    uvp_split_str=a.uvp_split_str,
+    dset_split_str=a.dset_split_str,
     ext_split_str=a.ext_split_str,
     verbose=a.verbose,
 )
diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 0495685..9b3483e 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -4,7 +4,6 @@ import warnings
 from functools import wraps
 
 import h5py
-import numpy as np
 
 from . import __version__, utils, uvpspec
 
@@ -374,6 +373,45 @@ class PSpecContainer:
                     grp[key2] = old
             raise
 
+    @transactional
+    def _replace_pspecs(self, group, psnames, psname, pspec):
+        """
+        Store a power spectrum in place of several others of the same group. If
+        this fails, the group is left as it was.
+
+        Parameters
+        ----------
+        group : str
+            Group of the power spectra.
+
+        psnames : list of str
+            Names of the power spectra to be replaced.
+
+        psname : str
+            Name of the power spectrum replacing them (may be one of psnames).
+
+        pspec : UVPSpec
+            Power spectrum object to store.
+        """
+        grp = self.data[group]
+        old = {name: grp[name] for name in psnames}
+        if psname in grp:
+            old[psname] = grp[psname]
+        try:
+            self.set_pspec(group, psname, pspec, overwrite=True, nested=True)
+            for name in psnames:
+                if name != psname:
+                    del grp[name]
+        except BaseException:
+            # Undo whatever was done (a failed set_pspec has undone itself)
+            if self.data is not None:
+                if psname in grp and grp[psname] != old.get(psname):
+                    del grp[psname]
+                for name in old:
+                    if name not in grp:
+                        grp[name] = old[name]
+            raise
+
     @transactional
     def get_pspec(self, group, psname=None, **kwargs):
         """
@@ -591,10 +629,11 @@ def combine_psc_spectra(
     # Iterate over groups
     for grp in groups:
         # Get spectra in this group
-        spectra = list(psc.data[grp].keys())
+        spectra = psc.spectra(grp)
 
-        # Get unique spectra by splitting and then re-joining
-        unique_spectra = []
+        # Get unique spectra by splitting and then re-joining, and the spectra
+        # that are this unique spectrum with or without an extension
+        families = {}
         for spc in spectra:
             if dset_split_str == "" or dset_split_str is None:
                 sp = spc.split(ext_split_str)[0]
@@ -603,11 +642,11 @@ def combine_psc_spectra(
                     [s.split(ext_split_str) for s in spc.split(dset_split_str)]
                 )[:2]
                 sp = dset_split_str.join(sp)
-            if sp not in unique_spectra:
-                unique_spectra.append(sp)
+            if spc == sp or spc.startswith(sp + ext_split_str):
+                families.setdefault(sp, []).append(spc)
 
         # Iterate over each unique spectra, and merge all spectra extensions
-        for spc in unique_spectra:
+        for spc, to_merge in families.items():
             # check for overwrite
             if spc in spectra and not overwrite:
                 if verbose:
@@ -617,10 +656,6 @@ def combine_psc_spectra(
                     )
                 continue
 
-            # get merge list
-            to_merge = [
-                spectra[i] for i in np.where([spc in _sp for _sp in spectra])[0]
-            ]
             try:
                 # merge
                 uvps = [psc.get_pspec(grp, uvp) for uvp in to_merge]
@@ -630,12 +665,8 @@ def combine_psc_spectra(
                     )
                 else:
                     merged_uvp = uvps[0]
-                # write to file
-                psc.set_pspec(grp, spc, merged_uvp, overwrite=True)
-                # if successful merge, remove uvps
-                for uvp_name in to_merge:
-                    if uvp_name != spc:
-                        del psc.data[grp][uvp_name]
+                # write to file in place of the merged uvps
+                psc._replace_pspecs(grp, to_merge, spc, merged_uvp)
             except Exception as exc:
                 # merge failed, so continue
                 if verbose:
-- 
2.43.0


From 8145e1db6d35de1af39c2c0343dc578c18bcc88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 16/58] fix: store symmetric_taper and declare time_2_array

The parameter declarations were misspelled, so that symmetric_taper was lost
when spectra were saved or combined and time_2_array was not checked, compared
or cleared.
---
 src/hera_pspec/uvpspec.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index e78488a..9a64608 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -261,7 +261,7 @@ class UVPSpec:
             form="(Nbltpairs,)",
             expected_type=np.float64,
         )
-        self._time_1_array = PSpecParam(
+        self._time_2_array = PSpecParam(
             "time_2_array",
             description="Time array of the second bl in the bl-pair [Julian Date].",
             form="(Nbltpairs,)",
@@ -320,10 +320,10 @@ class UVPSpec:
             description="Form of data weighting used when forming power spectra.",
             expected_type=str,
         )
-        self.set_symmetric_taper = PSpecParam(
+        self._symmetric_taper = PSpecParam(
             "symmetric_taper",
             description="Specify whether Taper was applied symmetrically (True) or to the left(False).",
-            expected_type=str,
+            expected_type=bool,
         )
         self._norm = PSpecParam(
             "norm",
@@ -446,7 +446,6 @@ class UVPSpec:
             "label_2_array",
             "spw_dly_array",
             "spw_freq_array",
-            "symmetric_taper",
         ]
 
         # All parameters must fall into one and only one of the following
@@ -475,6 +474,7 @@ class UVPSpec:
             "beamfile",
             "folded",
             "exact_windows",
+            "symmetric_taper",
         ]
         self._ndarrays = [
             "spw_array",
@@ -3558,6 +3558,14 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
                     f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
                 )
 
+    # objects written by earlier versions do not store this
+    tapers = [u.symmetric_taper for u in uvps if hasattr(u, "symmetric_taper")]
+    assert len(set(tapers)) <= 1, (
+        "Cannot concatenate UVPSpec objs: not all agree on 'symmetric_taper' attribute"
+    )
+    if len(tapers) == len(uvps):
+        static_meta.append("symmetric_taper")
+
     # get static metadata values
     static_meta = dict(
         [
-- 
2.43.0


From 23efe3c2ea8df8f899a5fbf1ae516ffd4c27df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 17/58] fix: metadata-only reads select beam integrals and
 weighting parameters

Also keep Nfreqs in step when selecting spectral windows.
---
 src/hera_pspec/uvpspec_utils.py | 47 +++++++++++++++++----------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 7b1501a..0606954 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -602,6 +602,7 @@ def _select(
         uvp.freq_array = uvp.freq_array[spw_freq_select]
         uvp.dly_array = uvp.dly_array[spw_dly_select]
         uvp.Ndlys = len(np.unique(uvp.dly_array))
+        uvp.Nfreqs = len(np.unique(uvp.freq_array))
         uvp.Nspws = len(np.unique(uvp.spw_array))
         uvp.Nspwdlys = len(uvp.spw_dly_array)
         uvp.Nspwfreqs = len(uvp.spw_freq_array)
@@ -931,30 +932,30 @@ def _select(
             uvp.cov_array_real = cov_real
             uvp.cov_array_imag = cov_imag
 
-        # downselect on other attrs
-        if hasattr(uvp, "OmegaP"):
-            uvp.OmegaP = uvp.OmegaP[:, polpair_select]
-            uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
-
-        # select r_params based on new bl_array
-        blp_keys = uvp.get_all_keys()
-        blkeys = []
-        for blpkey in blp_keys:
-            key1 = blpkey[1][0] + (blpkey[2][0],)
-            key2 = blpkey[1][1] + (blpkey[2][1],)
-            if key1 not in blkeys:
-                blkeys += [key1]
-            if key2 not in blkeys:
-                blkeys += [key2]
+    # downselect on other attrs
+    if hasattr(uvp, "OmegaP"):
+        uvp.OmegaP = uvp.OmegaP[:, polpair_select]
+        uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
+
+    # select r_params based on new bl_array
+    blp_keys = uvp.get_all_keys()
+    blkeys = []
+    for blpkey in blp_keys:
+        key1 = blpkey[1][0] + (blpkey[2][0],)
+        key2 = blpkey[1][1] + (blpkey[2][1],)
+        if key1 not in blkeys:
+            blkeys += [key1]
+        if key2 not in blkeys:
+            blkeys += [key2]
+    new_r_params = {}
+    if hasattr(uvp, "r_params") and uvp.r_params != "":
+        r_params = uvp.get_r_params()
+        for rpkey in r_params:
+            if rpkey in blkeys:
+                new_r_params[rpkey] = r_params[rpkey]
+    else:
         new_r_params = {}
-        if hasattr(uvp, "r_params") and uvp.r_params != "":
-            r_params = uvp.get_r_params()
-            for rpkey in r_params:
-                if rpkey in blkeys:
-                    new_r_params[rpkey] = r_params[rpkey]
-        else:
-            new_r_params = {}
-        uvp.r_params = compress_r_params(new_r_params)
+    uvp.r_params = compress_r_params(new_r_params)
 
 
 def _blpair_to_antnums(blpair):
-- 
2.43.0


From bb3e37f91214b66e79b2c469345d585f9dec9215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 18/58] fix: delay and spherical binning leave the caller's
 kernels and bin edges alone

---
 src/hera_pspec/grouping.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index c26d9ba..0680596 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1278,11 +1278,11 @@ def spherical_wf_from_uvp(
         # we modify the units of the input kbins to be consistent with uvp_in
         # and, likely, the units of the pre-computed window functions.
         if little_h:
-            kbin_edges *= uvp_in.cosmo.h
-            kbin_edges_theory *= uvp_in.cosmo.h
+            kbin_edges = kbin_edges * uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory * uvp_in.cosmo.h
         else:
-            kbin_edges /= uvp_in.cosmo.h
-            kbin_edges_theory /= uvp_in.cosmo.h
+            kbin_edges = kbin_edges / uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory / uvp_in.cosmo.h
         # final little_h matches the units of uvp_in
         little_h = "h^-3" in uvp_in.norm_units
 
@@ -2419,8 +2419,9 @@ def average_in_delay_bins(
     if not np.allclose(zero_bin_kernel, zero_bin_kernel[::-1]):
         raise ValueError("The zero bin kernel must be symmetric!")
 
-    kernel /= np.sum(kernel)
-    zero_bin_kernel /= np.sum(zero_bin_kernel)
+    # normalize copies: the kernels belong to the caller
+    kernel = kernel / np.sum(kernel)
+    zero_bin_kernel = zero_bin_kernel / np.sum(zero_bin_kernel)
 
     # We will replace parts of the new_uvp with downsampled
     # delays.
-- 
2.43.0


From bdba98d68bd047c48264bc13a13b6d17cc6393a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 19/58] fix: delay binning does not invent an empty stats_array

---
 src/hera_pspec/grouping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 0680596..ff1e9d9 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2428,7 +2428,8 @@ def average_in_delay_bins(
     new_uvp = copy.deepcopy(uvp)
 
     new_uvp.data_array = {}
-    new_uvp.stats_array = {name: {} for name in stats_array}
+    if hasattr(uvp, "stats_array"):
+        new_uvp.stats_array = {name: {} for name in stats_array}
 
     dly_array = []
     spw_dly_array = []
-- 
2.43.0


From 85185cedfc05b92be6cabec3d649e0bca8db80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 20/58] fix: averaged spectra keep dataset labels of their own
 rows

---
 src/hera_pspec/grouping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index ff1e9d9..5388706 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -621,10 +621,12 @@ def average_spectra(
     time_1, time_2, time_avg_arr = [], [], []
     lst_1, lst_2, lst_avg_arr = [], [], []
     blpair_arr, bl_arr = [], []
+    label_inds = []
 
     for i, blpg in enumerate(blpair_groups):
         # Get blpairts indices for zeroth blpair in this group
         blpairts = uvp.blpair_to_indices(blpg[0])
+        label_inds.extend(blpairts[:1] if time_avg else blpairts)
 
         # Assign meta-data
         bl_arr.extend(list(uvputils._blpair_to_bls(blpg[0])))
@@ -666,6 +668,8 @@ def average_spectra(
     uvp.bl_array = bl_arr
     uvp.bl_vecs = bl_vecs
     uvp.blpair_array = np.array(blpair_arr)
+    uvp.label_1_array = uvp.label_1_array[:, label_inds]
+    uvp.label_2_array = uvp.label_2_array[:, label_inds]
 
     # Times
     uvp.time_1_array = np.array(time_1)
-- 
2.43.0


From 51aea7ad5cda0979c28c800efff2bd6052b19ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 21/58] fix: a refused in-place selection leaves the object
 unchanged

---
 src/hera_pspec/uvpspec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 9a64608..fa359a2 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1699,10 +1699,8 @@ class UVPSpec:
             If inplace=False, return a new UVPSpec object containing only the
             selected data.
         """
-        if inplace:
-            uvp = self
-        else:
-            uvp = copy.deepcopy(self)
+        # a selection that is refused must leave self as it was
+        uvp = copy.copy(self) if inplace else copy.deepcopy(self)
 
         uvputils._select(
             uvp,
@@ -1717,7 +1715,9 @@ class UVPSpec:
 
         if run_check:
             uvp.check()
-        if not inplace:
+        if inplace:
+            self.__dict__.update(uvp.__dict__)
+        else:
             return uvp
 
     def get_ENU_bl_vecs(self):
-- 
2.43.0


From a884eee49226ecb7ad679cf1dc7a50dbef75ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 22/58] fix: select_common selects the common polarizations

---
 src/hera_pspec/grouping.py      | 2 +-
 src/hera_pspec/uvpspec_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 5388706..322f6e0 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1717,7 +1717,7 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
     # Homogenise input UVPSpec objects in terms of available polarizations
     # and spectral windows
     if len(uvp_list) > 1:
-        uvp_list = uvputils.select_common(uvp_list, spws=True, pols=True, inplace=False)
+        uvp_list = uvputils.select_common(uvp_list, spws=True, polpairs=True, inplace=False)
 
     # Loop over UVPSpec objects, looking for available blpairs in each
     avail_blpairs = [_ordered_unique(uvp.blpair_array) for uvp in uvp_list]
diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 0606954..0a13bc5 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -365,7 +365,7 @@ def select_common(
         if lsts:
             _lsts = common_lsts
         if polpairs:
-            _pols = common_polpairs
+            _polpairs = common_polpairs
         if spws:
             _spws = [uvp.get_spw_ranges().index(j) for j in common_spws]
 
-- 
2.43.0


From 8f40dae8e0b65c33b02b5dc983bcfe8d1cb1adb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 23/58] fix: an in-place select_common that is refused changes
 no object

---
 src/hera_pspec/uvpspec_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 0a13bc5..978097b 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -369,20 +369,23 @@ def select_common(
         if spws:
             _spws = [uvp.get_spw_ranges().index(j) for j in common_spws]
 
-        _uvp = uvp.select(
+        # select every object before changing any of them
+        _uvp = copy.copy(uvp) if inplace else copy.deepcopy(uvp)
+        _uvp.select(
             spws=_spws,
             blpairs=_blpairs,
             times=_times,
             polpairs=_polpairs,
             lsts=_lsts,
-            inplace=inplace,
+            inplace=True,
         )
-        if not inplace:
-            out_list.append(_uvp)
+        out_list.append(_uvp)
 
     # Return if not inplace
     if not inplace:
         return out_list
+    for uvp, _uvp in zip(uvp_list, out_list):
+        uvp.__dict__.update(_uvp.__dict__)
 
 
 def polpair_int2tuple(polpair, pol_strings=False):
-- 
2.43.0


From 6dce239bd9d8e036876460e28554f94af97d7bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 24/58] fix: a set_cosmology that fails leaves the object
 unchanged

---
 src/hera_pspec/uvpspec.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index fa359a2..3b0033f 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2150,6 +2150,9 @@ class UVPSpec:
                 )
                 return
 
+        # compute everything on a shallow copy: self changes only if all succeeds
+        uvp = copy.copy(self)
+
         # overwrite beam quantities
         if new_beam is not None:
             if verbose:
@@ -2158,30 +2161,32 @@ class UVPSpec:
                 # PSpecBeamUV will adopt a default cosmology upon instantiation,
                 # but this doesn't matterfor what we need from it
                 new_beam = pspecbeam.PSpecBeamUV(new_beam)
-            self.OmegaP, self.OmegaPP = new_beam.get_Omegas(self.polpair_array)
-            self.beam_freqs = new_beam.beam_freqs
+            uvp.OmegaP, uvp.OmegaPP = new_beam.get_Omegas(uvp.polpair_array)
+            uvp.beam_freqs = new_beam.beam_freqs
 
         # Update cosmo
         if isinstance(new_cosmo, dict):
             new_cosmo = conversions.Cosmo_Conversions(**new_cosmo)
         if verbose:
             print(f"setting cosmology: \n{new_cosmo}")
-        self.cosmo = new_cosmo
+        uvp.cosmo = new_cosmo
 
         # Update scalar_array
         if verbose:
             print("Updating scalar array and re-normalizing power spectra")
-        for spw in range(self.Nspws):
-            for j, polpair in enumerate(self.polpair_array):
-                scalar = self.compute_scalar(
+        scalars = {}
+        for spw in range(uvp.Nspws):
+            for j, polpair in enumerate(uvp.polpair_array):
+                scalars[spw, j] = uvp.compute_scalar(
                     spw, polpair, num_steps=1000, little_h=True, noise_scalar=False
                 )
+        self.__dict__.update(uvp.__dict__)
+        for (spw, j), scalar in scalars.items():
+            # renormalize power spectra with new scalar
+            self.data_array[spw][:, :, j] *= scalar / self.scalar_array[spw, j]
 
-                # renormalize power spectra with new scalar
-                self.data_array[spw][:, :, j] *= scalar / self.scalar_array[spw, j]
-
-                # update self.scalar_array element
-                self.scalar_array[spw, j] = scalar
+            # update self.scalar_array element
+            self.scalar_array[spw, j] = scalar
 
         # Update self.units if pspectra were not originally in cosmological units
         if "Mpc" not in self.norm_units:
-- 
2.43.0


From 4e1741bf58b093c5a111d9a29568ab638b6b7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 25/58] fix: add_approximate_covariance adds a complete
 covariance or nothing

---
 src/hera_pspec/uvpspec.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 3b0033f..14b5be4 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2956,15 +2956,12 @@ class UVPSpec:
         else:
             uvp = self
 
-        if variance_stat not in uvp.stats_array:
+        if variance_stat not in getattr(uvp, "stats_array", {}):
             raise ValueError(
                 f"Cannot normalize by the {variance_stat} array as it does not exist!"
             )
 
-        if not hasattr(uvp, "cov_array_real"):
-            uvp.cov_array_real = {}
-        if not hasattr(uvp, "cov_array_imag"):
-            uvp.cov_array_imag = {}
+        cov_array_real, cov_array_imag = {}, {}
 
         for spw in uvp.spw_array:
             n = np.sum(uvp.spw_freq_array == spw)
@@ -2980,8 +2977,12 @@ class UVPSpec:
 
                     cov4d[blidx, :, :, polidx] = np.outer(pn, pn) * cov2d
 
-            uvp.cov_array_real[spw] = cov4d
-            uvp.cov_array_imag[spw] = np.zeros_like(cov4d)
+            cov_array_real[spw] = cov4d
+            cov_array_imag[spw] = np.zeros_like(cov4d)
+
+        uvp.cov_array_real = cov_array_real
+        uvp.cov_array_imag = cov_array_imag
+        uvp.cov_model = "approximate"
 
         return uvp
 
-- 
2.43.0


From 88e067af4bc65717e3cd5113b7b8c4dbbb5ba50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 26/58] fix: a failed noise estimate leaves the stats of the
 object unchanged

---
 src/hera_pspec/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 04d4ce6..80faef7 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1559,6 +1559,11 @@ def uvp_noise_error(
     if isinstance(err_type, str):
         err_type = [err_type]
 
+    # work on copies of the stats, which replace the old ones once all are there
+    uvp_in, uvp = uvp, copy.copy(uvp)
+    if hasattr(uvp_in, "stats_array"):
+        uvp.stats_array = copy.deepcopy(uvp_in.stats_array)
+
     # get metadata if needed
     if precomp_P_N is None:
         lst_indices = np.unique(auto_Tsys.lst_array, return_index=True)[1]
@@ -1729,6 +1734,9 @@ def uvp_noise_error(
             precomp_P_N = "P_N"
         apply_P_SN_correction(uvp, P_SN="P_SN", P_N=precomp_P_N)
 
+    if hasattr(uvp, "stats_array"):
+        uvp_in.stats_array = uvp.stats_array
+
 
 def uvp_noise_error_parser():
     """
-- 
2.43.0


From ae30335cde870f24543be39e0c54c4bc3e7b4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 27/58] fix: seeded operations draw from generators of their
 own

---
 src/hera_pspec/grouping.py | 33 ++++++++++++++--------------
 src/hera_pspec/testing.py  | 45 +++++++++++++++++++++++++++-----------
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 322f6e0..28219e1 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -111,10 +111,10 @@ def group_baselines(bls, Ngroups, keep_remainder=False, randomize=False, seed=No
 
     # Randomize baseline order if requested
     if randomize:
-        if seed is not None:
-            random.seed(seed)
+        # a generator of its own: the draw depends on the seed alone
+        rng = random.Random(seed) if seed is not None else random
         bls = copy.deepcopy(bls)
-        random.shuffle(bls)
+        rng.shuffle(bls)
 
     # Assign to groups sequentially
     grouped_bls = [bls[i * n : (i + 1) * n] for i in range(Ngroups)]
@@ -146,11 +146,11 @@ def sample_baselines(bls, seed=None):
         Bootstrap-sampled set of baselines (will include multiple instances of
         some baselines).
     """
-    if seed is not None:
-        random.seed(seed)
+    # a generator of its own: the draw depends on the seed alone
+    rng = random.Random(seed) if seed is not None else random
 
     # Sample with replacement; return as many baselines/groups as were input
-    return [random.choice(bls) for i in range(len(bls))]
+    return [rng.choice(bls) for i in range(len(bls))]
 
 
 def average_spectra(
@@ -1658,8 +1658,8 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
     time_avg : bool, optional
         Whether to average over the time axis or not. Default: False.
 
-    seed : int, optional
-        Random seed to use when drawing baseline-pairs.
+    seed : int or np.random.RandomState, optional
+        Random seed (or generator) to use when drawing baseline-pairs.
 
     Returns
     -------
@@ -1734,9 +1734,11 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
             "not exist in any of the input UVPSpec objects: %s" % str(missing)
         )
 
-    # Set random seed if specified
-    if seed is not None:
-        np.random.seed(seed)
+    # Use a generator of its own if a seed (or a generator) is specified
+    if isinstance(seed, np.random.RandomState):
+        rng = seed
+    else:
+        rng = np.random.RandomState(seed) if seed is not None else np.random
 
     # Sample with replacement from the full list of available baseline-pairs
     # in each group, and create a blpair_group and blpair_weights entry for
@@ -1759,7 +1761,7 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
 
         # Draw set of random integers (with replacement) and convert into
         # list of weights for each blpair in each UVPSpec
-        draw = np.random.randint(low=0, high=num_avail, size=num_avail)
+        draw = rng.randint(low=0, high=num_avail, size=num_avail)
         wgt = np.array([(draw == i).sum() for i in range(num_avail)])
 
         # Extract the blpair weights for each UVPSpec
@@ -1875,9 +1877,8 @@ def bootstrap_resampled_error(
         uvp, blpair_groups=blpair_groups, time_avg=time_avg, inplace=False
     )
 
-    # initialize a seed
-    if seed is not None:
-        np.random.seed(seed)
+    # initialize a generator for all resamples
+    rng = np.random.RandomState(seed) if seed is not None else None
 
     # Iterate over Nsamples and create bootstrap resamples
     uvp_boots = []
@@ -1885,7 +1886,7 @@ def bootstrap_resampled_error(
     for i in range(Nsamples):
         # resample
         boot, wgt = bootstrap_average_blpairs(
-            uvp, blpair_groups=blpair_groups, time_avg=time_avg, seed=None
+            uvp, blpair_groups=blpair_groups, time_avg=time_avg, seed=rng
         )
         uvp_boots.append(boot)
         uvp_wgts.append(wgt)
diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 0ae7c14..017b35b 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -460,11 +460,12 @@ def noise_sim(
         rms = Trms
 
     # Generate noise
-    if seed is not None:
-        np.random.seed(seed)
+    rng = np.random.RandomState(seed) if seed is not None else None
+    scale = 1.0 / np.sqrt(2)
     data.data_array = (
-        stats.norm.rvs(0, 1.0 / np.sqrt(2), size=rms.size).reshape(rms.shape)
-        + 1j * stats.norm.rvs(0, 1.0 / np.sqrt(2), size=rms.size).reshape(rms.shape)
+        stats.norm.rvs(0, scale, size=rms.size, random_state=rng).reshape(rms.shape)
+        + 1j
+        * stats.norm.rvs(0, scale, size=rms.size, random_state=rng).reshape(rms.shape)
     ) * rms
     f = np.isnan(data.data_array) + np.isinf(data.data_array)
     data.data_array[f] = np.nan
@@ -477,7 +478,9 @@ def noise_sim(
         return data
 
 
-def gauss_cov_fg(cov_amp, cov_length_scale, freqs, Ntimes=100, constant_in_time=True):
+def gauss_cov_fg(
+    cov_amp, cov_length_scale, freqs, Ntimes=100, constant_in_time=True, rng=None
+):
     """
     Generate a random foreground signal from a Gaussian covariance
 
@@ -496,6 +499,8 @@ def gauss_cov_fg(cov_amp, cov_length_scale, freqs, Ntimes=100, constant_in_time=
     constant_in_time : bool
         If True, draw one signal realization for all times
         Else, draw an independent realization for each time
+    rng : np.random.RandomState, optional
+        Generator to draw from. Default is numpy's global one.
 
     Returns
     -------
@@ -510,21 +515,30 @@ def gauss_cov_fg(cov_amp, cov_length_scale, freqs, Ntimes=100, constant_in_time=
     )  # a covariance model
 
     if constant_in_time:
-        s = stats.multivariate_normal.rvs(np.zeros(Nfreqs), C, 2).reshape(2, 1, Nfreqs)
+        s = stats.multivariate_normal.rvs(
+            np.zeros(Nfreqs), C, 2, random_state=rng
+        ).reshape(2, 1, Nfreqs)
         s = s[0] + 1j * s[1]
         s = np.repeat(s, Ntimes, axis=0)
 
     else:
-        s = stats.multivariate_normal.rvs(np.zeros(Nfreqs), C, 2 * Ntimes).reshape(
-            2, Ntimes, Nfreqs
-        )
+        s = stats.multivariate_normal.rvs(
+            np.zeros(Nfreqs), C, 2 * Ntimes, random_state=rng
+        ).reshape(2, Ntimes, Nfreqs)
         s = s[0] + 1j * s[1]
 
     return s
 
 
 def sky_noise_jy_autos(
-    lsts, freqs, autovis, omega_p, integration_time, channel_width=None, Trx=0.0
+    lsts,
+    freqs,
+    autovis,
+    omega_p,
+    integration_time,
+    channel_width=None,
+    Trx=0.0,
+    rng=None,
 ):
     """Make a noise realization for a given auto-visibility level and beam.
 
@@ -547,6 +561,8 @@ def sky_noise_jy_autos(
         Channel width in Hz, by default the mean difference between frequencies.
     Trx : float, optional
         Receiver temperature, in K.
+    rng : np.random.RandomState, optional
+        Generator to draw from. Default is numpy's global one.
 
     Returns
     -------
@@ -574,8 +590,9 @@ def sky_noise_jy_autos(
     vis = Tsky / np.sqrt(integration_time * channel_width) / Jy2K.reshape(1, -1)
 
     # Make noise realization
-    x1 = np.random.normal(scale=1.0 / np.sqrt(2), size=vis.shape)
-    x2 = np.random.normal(scale=1.0 / np.sqrt(2), size=vis.shape)
+    rng = np.random if rng is None else rng
+    x1 = rng.normal(scale=1.0 / np.sqrt(2), size=vis.shape)
+    x2 = rng.normal(scale=1.0 / np.sqrt(2), size=vis.shape)
     return (x1 + 1.0j * x2) * vis
 
 
@@ -682,7 +699,7 @@ def sky_noise_sim(
         )
 
     # iterate over cross correlations
-    np.random.seed(bl_loop_seed)
+    rng = np.random.RandomState(bl_loop_seed) if bl_loop_seed is not None else None
     for bl in crossbls:
         # get time and freq dependent Tsys for this baseline
         Tsys_jy = np.sqrt(autos[(bl[0], bl[0], bl[2])] * autos[(bl[1], bl[1], bl[2])])
@@ -694,6 +711,7 @@ def sky_noise_sim(
             autovis=Tsys_jy,
             omega_p=OmegaP[bl[2]],
             integration_time=int_time,
+            rng=rng,
         )
 
         # divide by nsamples: set nsample==0 to inf
@@ -710,6 +728,7 @@ def sky_noise_sim(
                 freqs,
                 Ntimes=Ntimes,
                 constant_in_time=constant_in_time,
+                rng=rng,
             )
 
         # fill data
-- 
2.43.0


From ca488b8fc2598ea694edd5603a59a3d09dcd00c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 28/58] fix: convert_to_deltasq accepts folded spectra

---
 src/hera_pspec/uvpspec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 14b5be4..55f6ce2 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1211,7 +1211,11 @@ class UVPSpec:
         for spw in range(uvp.Nspws):
             # get k vectors
             k_perp = uvp.get_kperps(spw, little_h=little_h)
-            k_para = uvp.get_kparas(spw, little_h=little_h)
+            # folded spectra still hold the negative delays, unless averaged
+            dlys = uvp.dly_array[uvp.spw_dly_array == spw]
+            if len(dlys) != uvp.data_array[spw].shape[1]:
+                dlys = uvp.get_dlys(spw)
+            k_para = uvp.get_kparas(spw, little_h=little_h, dlys=dlys)
             k_mag = np.sqrt(k_perp[:, None, None] ** 2 + k_para[None, :, None] ** 2)
             # shape of (Nbltpairs, spw_Ndlys, Npols)
             coeff = k_mag**3 / (2 * np.pi**2)
-- 
2.43.0


From 2a0ca26f2b822b1f63445fdb49fbff48d01d8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 29/58] fix: reading a file back keeps the r_params of averaged
 baselines

read_hdf5 always pruned r_params to the baselines of the remaining
baseline pairs, so that averaged spectra lost some when saved and read.
---
 src/hera_pspec/uvpspec_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 978097b..24eeb92 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -940,7 +940,12 @@ def _select(
         uvp.OmegaP = uvp.OmegaP[:, polpair_select]
         uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
 
-    # select r_params based on new bl_array
+    # select r_params based on new bl_array. Without a selection (e.g. a plain
+    # read) they are kept as they are: averaged spectra keep the r_params of
+    # all the baselines that went into them.
+    selection = (spws, bls, blpairs, times, lsts, polpairs)
+    if all(s is None for s in selection):
+        return
     blp_keys = uvp.get_all_keys()
     blkeys = []
     for blpkey in blp_keys:
-- 
2.43.0


From e0b725bf54e922bca0ded7f76a54b4a8d2a508c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 30/58] fix: delay binning leaves writable statistics

np.diagonal returned a read-only view, so that a later fold, unit conversion
or set_stats failed, unless the object had been copied or reloaded.
---
 src/hera_pspec/grouping.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 28219e1..d910751 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2491,8 +2491,11 @@ def average_in_delay_bins(
                 * uvp.stats_array[stat][spw][:, None]
             )
             newc = _bin_cov_like_array(thiscov, kernels, slices)
-            stats[stat] = np.diagonal(np.sqrt(newc), axis1=1, axis2=2).transpose(
-                (0, 2, 1)
+            # np.diagonal is a read-only view
+            stats[stat] = (
+                np.diagonal(np.sqrt(newc), axis1=1, axis2=2)
+                .transpose((0, 2, 1))
+                .copy()
             )
 
         spw_dly_array.append(np.ones(newn, dtype=int) * spw)
-- 
2.43.0


From e77313b8e20b984da23ae7597e1295943158876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 31/58] fix: set_stats keeps the imaginary part of later
 entries

A statistic first set with real values silently dropped the imaginary part of
values set later, unless the object had been checked or saved in between.
---
 src/hera_pspec/uvpspec.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 55f6ce2..b95e83b 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1140,6 +1140,14 @@ class UVPSpec:
                 ]
             )
 
+        elif np.iscomplexobj(statistic) and not np.iscomplexobj(
+            self.stats_array[stat][spw]
+        ):
+            # make room for the imaginary part
+            self.stats_array[stat][spw] = self.stats_array[stat][spw].astype(
+                np.complex128
+            )
+
         self.stats_array[stat][spw][blpairts, :, polpair] = statistic
 
     def set_stats_slice(self, stat, m, b, above=False, val=1e20):
-- 
2.43.0


From 896db327811d717e0fe56ae95ebabf3416b229bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 32/58] fix: pspec after a failed call with filter extensions
 no longer refused or affected

---
 src/hera_pspec/pspecdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 9eab887..e202b2a 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3539,6 +3539,8 @@ class PSpecData:
         """
         # set taper and data weighting
         self.set_taper(taper)
+        # an earlier call that failed may have left a filter extension behind
+        self.filter_extension = (0, 0)
         self.set_symmetric_taper(symmetric_taper)
         self.set_weighting(input_data_weight)
 
-- 
2.43.0


From 95d6d3d84998641ea888fb44646884b00bf9b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 33/58] fix: filter extensions of one spectral window no longer
 change the taper of the next

---
 src/hera_pspec/pspecdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index e202b2a..cbccfdc 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3708,6 +3708,8 @@ class PSpecData:
             # set spectral range
             logger.info(f"\nSetting spectral range: {spw_ranges[i]}")
             self.set_spw(spw_ranges[i], ndlys=n_dlys[i])
+            # filter extensions of a previous window may have switched this off
+            self.set_symmetric_taper(symmetric_taper)
             self.set_filter_extension(filter_extensions[i])
 
             # clear covariance cache
-- 
2.43.0


From a99594c7a175a0cec82b7e6cc331b0df28675734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 34/58] fix: pspec keeps times and baseline-pairs when the
 first polarization pair is skipped

---
 src/hera_pspec/pspecdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index cbccfdc..08d4e6b 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4075,7 +4075,8 @@ class PSpecData:
                     )
 
                     # insert time and blpair info only once per blpair
-                    if i < 1 and j < 1:
+                    # (for the first polarization pair that is not skipped)
+                    if i < 1 and len(spw_polpair) == 1:
                         # insert time info
                         # inds is a slice if dset1 has rectangular blts.
                         inds1 = dset1.antpair2ind(bl1, ordered=False)
-- 
2.43.0


From 043d67779fda597685b38654e564a5194c6910dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 35/58] fix: exact_norm no longer reuses the normalization of
 another polarization

---
 src/hera_pspec/pspecdata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 08d4e6b..717f5cf 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3862,8 +3862,11 @@ class PSpecData:
                         )
 
                         # Second: check cache for Y
+                        # (with exact_norm, Gv and Hv also differ by the beam)
                         matches = [
-                            np.isclose(Y, y).all() for y in self._identity_Y.values()
+                            (not exact_norm or keys[0][-1] == key1[-1])
+                            and np.isclose(Y, y).all()
+                            for keys, y in self._identity_Y.items()
                         ]
                         if True in matches:
                             # This Y exists, so pick appropriate G and H and continue
-- 
2.43.0


From 0632bf9a2d938b320607d3aab6a58d9846fbd1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 36/58] fix: known covariances no longer leak into the
 normalization of later baseline-pairs

---
 src/hera_pspec/pspecdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 717f5cf..f7ccd13 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3953,6 +3953,10 @@ class PSpecData:
                                 known_cov=known_cov,
                             )
                         )
+                        if known_cov is not None:
+                            # known covariances are for the error bars only; do not
+                            # let them into the weights of the next baseline-pairs
+                            self.clear_cache(known_cov.keys())
 
                         if self.primary_beam is not None:
                             cov_real = cov_real * (scalar) ** 2.0
-- 
2.43.0


From 6b8c6038e6895c210b4b29bb881e1995920c3822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 37/58] fix: estimated spectra no longer share the beam's
 cosmology and frequencies

---
 src/hera_pspec/pspecdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index f7ccd13..1d3c5d1 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4254,9 +4254,9 @@ class PSpecData:
 
         if self.primary_beam is not None:
             # attach cosmology
-            uvp.cosmo = self.primary_beam.cosmo
+            uvp.cosmo = copy.deepcopy(self.primary_beam.cosmo)
             # attach beam info
-            uvp.beam_freqs = self.primary_beam.beam_freqs
+            uvp.beam_freqs = np.array(self.primary_beam.beam_freqs)
             uvp.OmegaP, uvp.OmegaPP = self.primary_beam.get_Omegas(uvp.polpair_array)
             if hasattr(self.primary_beam, "filename"):
                 uvp.beamfile = self.primary_beam.filename
-- 
2.43.0


From a62b883972c215cc7691d1970d464f30f832d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 38/58] fix: get_window_function of folded spectra with exact
 windows

---
 src/hera_pspec/uvpspec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index b95e83b..e0e4b5e 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -667,6 +667,11 @@ class UVPSpec:
         # if data has been folded, return only positive delays
         if self.folded:
             Ndlys = np.count_nonzero(self.spw_dly_array == spw)
+            if self.exact_windows:
+                # exact window functions have no second delay axis
+                return self.window_function_array[spw][
+                    blpairts, -(Ndlys - Ndlys // 2 - 1) :, ..., polpair
+                ]
             return self.window_function_array[spw][
                 blpairts,
                 -(Ndlys - Ndlys // 2 - 1) :,
-- 
2.43.0


From 5a96a992a2aabdd55afae5554b3bc16ce378ec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:11 +0000
Subject: [PATCH 39/58] fix: no approximate covariance of the wrong shape for a
 single delay

---
 src/hera_pspec/uvpspec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index e0e4b5e..9c0e755 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2982,6 +2982,11 @@ class UVPSpec:
 
         for spw in uvp.spw_array:
             n = np.sum(uvp.spw_freq_array == spw)
+            if uvp.stats_array[variance_stat][spw].shape[1] != n:
+                raise ValueError(
+                    "Cannot add an approximate covariance to spectra with fewer "
+                    "delays than frequencies."
+                )
             cov2d = noise.get_approximate_delay_delay_corr_matrix(taper, n)
 
             # TODO: in the future, it'd be better to allow the cov_array_real on the
-- 
2.43.0


From f01c3f2cec536aa522fc2dae8565f38b7cc18b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 40/58] fix: combine spherical averages with exact window
 functions

---
 src/hera_pspec/uvpspec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 9c0e755..a3401fb 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3127,8 +3127,10 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             if exact_windows:
                 Nkperp = uvps[l].window_function_kperp[m][:, 0].size
                 Nkpara = uvps[l].window_function_kpara[m][:, 0].size
+                # spherical averages hold window functions of (k, k) instead
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, Ndlys, Nkperp, Nkpara, Npols), np.float64
+                    (Nbltpairs, *uvps[l].window_function_array[m].shape[1:-1], Npols),
+                    np.float64,
                 )
                 # kperp and kpara bins of each polarization
                 u.window_function_kperp[i] = np.empty((Nkperp, Npols), np.float64)
-- 
2.43.0


From 832544c7821d88ee55087d3b7a3bcec8bbd13774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 41/58] fix: spherical window functions of several times and
 polarizations

---
 src/hera_pspec/grouping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index d910751..14ce398 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1379,8 +1379,8 @@ def spherical_wf_from_uvp(
         )
 
         # iterate over polarisation
-        spw_window_function = []
         for ip, polpair in enumerate(uvp.polpair_array):
+            spw_window_function = []
             # grids used to compute the window functions
             kperp_bins = uvp.window_function_kperp[spw][:, ip]
             kpara_bins = uvp.window_function_kpara[spw][:, ip]
@@ -1388,7 +1388,9 @@ def spherical_wf_from_uvp(
 
             cyl_wf = uvp.window_function_array[spw][..., ip]
             # separate baseline-time axis to iterate over times
-            cyl_wf = cyl_wf.reshape((uvp.Ntimes, uvp.Nblpairs, *cyl_wf.shape[1:]))
+            # (averaged spectra are ordered by baseline-pair, then time)
+            cyl_wf = cyl_wf.reshape((uvp.Nblpairs, uvp.Ntimes, *cyl_wf.shape[1:]))
+            cyl_wf = cyl_wf.swapaxes(0, 1)
 
             # take average for each time
             for it in range(uvp.Ntimes):
-- 
2.43.0


From 91e60dc62e181199cfa1841188365765aa19e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 42/58] fix: noise estimates when baseline-pairs have different
 numbers of times

---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index a3401fb..270bab2 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2664,7 +2664,7 @@ class UVPSpec:
             inds = self.blpair_to_indices(blp)
             assert (
                 isinstance(Tsys[blp], (float, int))
-                or Tsys[blp].shape[0] == self.Ntpairs
+                or Tsys[blp].shape[0] in (self.Ntpairs, len(inds))
             ), "Tsys must be a float or an ndarray with shape[0] == Ntpairs"
             P_blp = []
 
-- 
2.43.0


From 3bbb2ca75d1b136dbfaaa62486b7e81135c478b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:55 +0000
Subject: [PATCH 43/58] fix: pspec_run accepts chunks of several baseline-pairs

---
 src/hera_pspec/pspecdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 1d3c5d1..be90bba 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -5120,6 +5120,10 @@ def pspec_run(
                 bl_tol=bl_error_tol,
                 xant_flag_thresh=xant_flag_thresh,
             )
+            if Nblps_per_group is not None:
+                # pspec() takes flat lists of baselines
+                bls1 = list(itertools.chain.from_iterable(bls1))
+                bls2 = list(itertools.chain.from_iterable(bls2))
             bls1_list.append(bls1)
             bls2_list.append(bls2)
 
-- 
2.43.0


From 488e3fb6323b9fc92e2f88cade7230c99efd34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:55 +0000
Subject: [PATCH 44/58] fix: rephase_to_dset keeps each data set's own
 polarization order

---
 src/hera_pspec/pspecdata.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index be90bba..6ea0327 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4351,9 +4351,6 @@ class PSpecData:
                 lst_grid.append(l)
         lst_grid = np.array(lst_grid)
 
-        # get polarization list
-        pol_list = dsets[dset_index].polarization_array.tolist()
-
         # iterate over dsets
         for i, dset in enumerate(dsets):
             if len(dset.phase_center_catalog) > 1:
@@ -4391,6 +4388,7 @@ class PSpecData:
             hc.utils.lst_rephase(data, bls, freqs, dlst, lat=lat)
 
             # re-insert into dataset
+            pol_list = dset.polarization_array.tolist()
             for j, k in enumerate(data.keys()):
                 # get blts indices of basline
                 indices = dset.antpair2ind(k[:2], ordered=False)
-- 
2.43.0


From fa0258f443e67e6c146998c6e0ad20f836740dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:01 +0000
Subject: [PATCH 45/58] fix: trim_dset_lsts also trims weights and errors

---
 src/hera_pspec/pspecdata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 6ea0327..a69e168 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4504,7 +4504,11 @@ class PSpecData:
         for i, dset in enumerate(self.dsets):
             trim_inds = np.array([l not in common_lsts for l in lst_arrs[i]])
             if np.any(trim_inds):
-                self.dsets[i].select(times=dset.time_array[~trim_inds])
+                keep_times = dset.time_array[~trim_inds]
+                # weights and errors have the integrations of the data
+                for uvd in (self.dsets[i], self.wgts[i], self.dsets_std[i]):
+                    if uvd is not None:
+                        uvd.select(times=keep_times)
 
 
 def pspec_run(
-- 
2.43.0


From 6886b751fed239c3afef5c5f74b8e6b9b6d2a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 46/58] fix: bootstrap_run.py does not pass profiling options
 to bootstrap_run

---
 scripts/bootstrap_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/bootstrap_run.py b/scripts/bootstrap_run.py
index 1464ab6..8a11c1c 100755
--- a/scripts/bootstrap_run.py
+++ b/scripts/bootstrap_run.py
@@ -4,14 +4,14 @@ Pipeline script to load a PSpecContainer and bootstrap over redundant baseline-
 pair groups to produce errorbars.
 """
 
-from hera_cal._cli_tools import parse_args, run_with_profiling
+from hera_cal._cli_tools import filter_kwargs, parse_args, run_with_profiling
 
 from hera_pspec import grouping
 
 # Parse commandline args
 args = grouping.get_bootstrap_run_argparser()
 a = parse_args(args)
-kwargs = vars(a)  # dict of args
+kwargs = filter_kwargs(vars(a))  # dict of args
 
 # Get arguments
 filename = kwargs.pop("filename")
-- 
2.43.0


From 5059cf4fa04f78da04593af47a7af564f8d3e730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:12 +0000
Subject: [PATCH 47/58] fix: bootstrap_run does not bootstrap its own outputs
 again

---
 src/hera_pspec/grouping.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 14ce398..656c5e9 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2,6 +2,7 @@ import argparse
 import copy
 import os
 import random
+import re
 import warnings
 from collections.abc import MutableMapping
 
@@ -1970,7 +1971,8 @@ def bootstrap_run(
 
     spectra : list
         A list of power spectra names (with group prefix) to run bootstrapping on.
-        Default is all spectra in object. Ex. ["group1/psname1", "group1/psname2", ...]
+        Default is all spectra in object, except the outputs of an earlier run
+        (*_avg and *_bs# of another spectrum). Ex. ["group1/psname1", "group1/psname2", ...]
 
     blpair_groups : list
         A list of baseline-pair groups to bootstrap over. Default is to solve for and use
@@ -2049,7 +2051,13 @@ def bootstrap_run(
         [[os.path.join(grp, s) for s in psc.spectra(grp)] for grp in groups]
     )
     if spectra is None:
-        spectra = all_spectra
+        # outputs of an earlier run are not bootstrapped again
+        spectra = [
+            spc
+            for spc in all_spectra
+            if spc == (source := re.sub(r"_(avg|bs\d+)$", "", spc))
+            or source not in all_spectra
+        ]
     else:
         spectra = [spc for spc in spectra if spc in all_spectra]
         assert len(spectra) > 0, "no specified spectra exist in PSpecContainer"
-- 
2.43.0


From 0a3051b956726fddcb222553a624fc572f983cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:14 +0000
Subject: [PATCH 48/58] fix: uvd_to_Tsys scales each polarization with its own
 beam

---
 src/hera_pspec/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 80faef7..c39d837 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1489,9 +1489,9 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
     for blpol in uvd.get_antpairpols():
         bl, pol = blpol[:2], blpol[2]
         tinds = uvd.antpair2ind(bl)
+        pind = uvd.get_pols().index(pol)
         if pol.upper() in STOKPOLS:
             pol = "pI"
-        pind = pols.index(pol)
         uvd.data_array[tinds, ..., pind] *= J2K[pol]
 
     if Tsys_outfile is not None:
-- 
2.43.0


From 546af0bb3a6bc4f00f2be048f7b29bd0c6af82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:14 +0000
Subject: [PATCH 49/58] fix: PSpecContainer.save of a container that is not
 kept open

---
 src/hera_pspec/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 9b3483e..0fb7250 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -545,9 +545,11 @@ class PSpecContainer:
     @transactional
     def save(self):
         """
-        Force HDF5 file to flush to disk.
+        Force HDF5 file to flush to disk. Does nothing if the file is closed
+        (as it is between operations if keep_open = False).
         """
-        self.data.flush()
+        if self.data is not None:
+            self.data.flush()
 
     def __del__(self):
         """
-- 
2.43.0


From d47a75d1ba73d1a5c995d224bc5d6293a94dbf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:14 +0000
Subject: [PATCH 50/58] fix: auto_noise_run.py --spectra

---
 scripts/auto_noise_run.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/auto_noise_run.py b/scripts/auto_noise_run.py
index 8e470e7..9166cac 100644
--- a/scripts/auto_noise_run.py
+++ b/scripts/auto_noise_run.py
@@ -24,8 +24,9 @@ def main(args):
     # iterate through spectra and groups,
     # compute noise, and update container.
     for group in groups:
-        if args.spectra is None:
-            spectra = psc.spectra(group)
+        spectra = psc.spectra(group)
+        if args.spectra is not None:
+            spectra = [spec for spec in spectra if f"{group}/{spec}" in args.spectra]
         for spec in spectra:
             uvp = psc.get_pspec(group, spec)
             utils.uvp_noise_error(uvp, auto_Tsys, err_type=args.err_type)
-- 
2.43.0


From 21d34bcc18732577f648d2c20946cdfb69349939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:14 +0000
Subject: [PATCH 51/58] fix: generate_pstokes_run.py without --pstokes

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index b3b91ac..70a6b1f 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -539,7 +539,7 @@ def generate_pstokes_argparser():
         type=str,
         help="list of pStokes you wish to calculate. Default is ['pI']",
         nargs="+",
-        default="pI",
+        default=["pI"],
     )
     a.add_argument(
         "--outputdata",
-- 
2.43.0


From 3010add0fdd213a378f9601009969b3e16c9e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:34 +0000
Subject: [PATCH 52/58] fix: apply_P_SN_correction turned complex statistics
 into nan

An infinite correction multiplied the complex entry, so the imaginary
part of stored statistics became nan and a second run of the noise step
did not give the same result.
---
 src/hera_pspec/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index c39d837..a3b2ff1 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1817,8 +1817,9 @@ def apply_P_SN_correction(uvp, P_SN="P_SN", P_N="P_N"):
         corr[np.isclose(corr, 0)] = np.inf
         corr[corr < 0] = np.inf
         corr[np.isnan(corr)] = np.inf
-        # apply correction
-        uvp.stats_array[P_SN][spw] *= corr
+        # apply correction (only to the real part: infinities would make the
+        # imaginary part of complex statistics nan)
+        uvp.stats_array[P_SN][spw].real *= corr
 
 
 def history_string(notes=""):
-- 
2.43.0


From 8596fd4ce25bffbd214949ba0034da1766ca21f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:34 +0000
Subject: [PATCH 53/58] fix: generate_pstokes_run.py destroyed the input file
 when interrupted

With no separate output (or an existing one) the old file was truncated
before the new one was complete. Write next to it and replace it.
---
 scripts/generate_pstokes_run.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scripts/generate_pstokes_run.py b/scripts/generate_pstokes_run.py
index 68bb6f6..c1178f2 100644
--- a/scripts/generate_pstokes_run.py
+++ b/scripts/generate_pstokes_run.py
@@ -4,6 +4,7 @@ Pipeline script for generating pstokes visibility.
 """
 
 import copy
+import os
 
 import pyuvdata
 from pyuvdata import UVData
@@ -26,5 +27,13 @@ for p in args.pstokes:
     if pyuvdata.utils.polstr2num(p) not in uvd_output.polarization_array:
         uvd_output += pstokes.construct_pstokes(uvd, uvd, pstokes=p)
 
-# write file.
-uvd_output.write_uvh5(args.outputdata, clobber=args.clobber)
+# write file next to its final place, so that a failure cannot damage an old one.
+if os.path.exists(args.outputdata) and not args.clobber:
+    raise OSError(f"{args.outputdata} exists; use --clobber to overwrite it.")
+tmpfile = args.outputdata + ".tmp"
+try:
+    uvd_output.write_uvh5(tmpfile, clobber=True)
+    os.replace(tmpfile, args.outputdata)
+finally:
+    if os.path.exists(tmpfile):
+        os.remove(tmpfile)
-- 
2.43.0


From 8e49a38e73f88fd392fe23e0720ff8c83dabfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 54/58] fix: pspec_run no longer changes the data sets given as
 objects

---
 src/hera_pspec/pspecdata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index a69e168..0476cfa 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4926,6 +4926,9 @@ def pspec_run(
             # at least one of the dset loads failed due to no data being present
             warnings.warn(no_output_warning, stacklevel=2)
             return None
+    else:
+        # these are calibrated, trimmed and converted in place below
+        dsets = [copy.deepcopy(d) for d in dsets]
 
     assert np.all([isinstance(d, UVData) for d in dsets]), (
         "dsets must be fed as a list of dataset string paths or UVData objects."
@@ -4958,6 +4961,8 @@ def pspec_run(
                 # being present
                 warnings.warn(no_output_warning, stacklevel=2)
                 return None
+        else:
+            dsets_std = [copy.deepcopy(d) for d in dsets_std]
 
         assert np.all([isinstance(d, UVData) for d in dsets_std]), err_msg
 
-- 
2.43.0


From 7319b94a9d8c10d0e5fd660c3f174fbafeb8fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 55/58] fix: spherical_wf_from_uvp returned uninitialised
 memory for bins without window

---
 src/hera_pspec/grouping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 656c5e9..421676c 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1412,10 +1412,11 @@ def spherical_wf_from_uvp(
                                     mask2
                                 ):  # cannot compute mean if zero elements
                                     wf_spherical[m1, m2] = np.mean(wf_temp[mask2])
-                            # normalisation
+                            # normalisation (all-zero rows are left as they are)
                             wf_spherical[m1, :] = np.divide(
                                 wf_spherical[m1, :],
                                 np.sum(wf_spherical[m1, :]),
+                                out=np.zeros_like(wf_spherical[m1, :]),
                                 where=np.sum(wf_spherical[m1, :]) != 0,
                             )
                 spw_window_function.append(wf_spherical)
-- 
2.43.0


From 7997abbcfa76c2d070e4604fd825700bffe663b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:15 +0000
Subject: [PATCH 56/58] fix: PSpecBeamFromArray renamed the keys of the
 caller's dictionaries

---
 src/hera_pspec/pspecbeam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hera_pspec/pspecbeam.py b/src/hera_pspec/pspecbeam.py
index 2d002b5..f826f1f 100644
--- a/src/hera_pspec/pspecbeam.py
+++ b/src/hera_pspec/pspecbeam.py
@@ -666,6 +666,9 @@ class PSpecBeamFromArray(PSpecBeamBase):
         if not isinstance(OmegaP, dict) or not isinstance(OmegaPP, dict):
             raise TypeError("OmegaP and OmegaPP must both be either dicts or arrays.")
 
+        # work on copies, since keys may be renamed below
+        OmegaP, OmegaPP = dict(OmegaP), dict(OmegaPP)
+
         # Check for disallowed polarizations
         for key in list(OmegaP.keys()):
             # turn into pol integer if a pol string
-- 
2.43.0


From a044e862f9b35fe7953fb66a94fc6c67c36d5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:15 +0000
Subject: [PATCH 57/58] fix: overwriting window functions lost the old file
 when it failed

---
 src/hera_pspec/uvwindow.py | 73 +++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 32 deletions(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index 33109ff..3650551 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -1327,7 +1327,6 @@ class UVWindow:
             raise OSError(f"{filepath} exists, not overwriting...")
         elif filepath.exists() and clobber is True:
             print(f"{filepath} exists, overwriting...")
-            os.remove(filepath)
 
         bl_lens = np.atleast_1d(np.asarray(bl_lens, dtype=float)).reshape(-1)
         nbls = bl_lens.size  # number of redudant groups
@@ -1372,37 +1371,47 @@ class UVWindow:
                 * bl_weights[ib]
             )
 
-        # Write file
-        with h5py.File(filepath, "w") as f:
-            # parameters
-            f.attrs["avg_nu"] = self.avg_nu
-            f.attrs["avg_z"] = self.avg_z
-            f.attrs["nfreqs"] = self.Nfreqs
-            f.attrs["little_h"] = self.little_h
-            f.attrs["polpair"] = uvputils.polpair_tuple2int(self.pols)
-            # cannot write None to file
-            if self.taper is None:
-                f.attrs["taper"] = "none"
-            else:
-                f.attrs["taper"] = self.taper
-            # arrays
-            f.create_dataset(
-                "kperp_bins", shape=(nbins_kperp,), data=kperp_bins, dtype=float
-            )
-            f.create_dataset(
-                "kpara_bins", shape=(nbins_kpara,), data=kpara_bins, dtype=float
-            )
-            f.create_dataset("bl_lens", shape=(nbls,), data=bl_lens, dtype=float)
-            f.create_dataset("bl_weights", shape=(nbls,), data=bl_weights, dtype=float)
-            f.create_dataset(
-                "dly_array", shape=(self.Nfreqs,), data=self.dly_array, dtype=float
-            )
-            f.create_dataset(
-                "cyl_wf",
-                shape=(nbls, self.Nfreqs, nbins_kperp, nbins_kpara),
-                data=cyl_wf,
-                dtype=float,
-            )
+        # Write to a temporary file, which takes the place of filepath only once
+        # complete: if anything fails, filepath is left as it was
+        tmppath = f"{filepath}.tmp{os.getpid()}"
+        try:
+            with h5py.File(tmppath, "w") as f:
+                # parameters
+                f.attrs["avg_nu"] = self.avg_nu
+                f.attrs["avg_z"] = self.avg_z
+                f.attrs["nfreqs"] = self.Nfreqs
+                f.attrs["little_h"] = self.little_h
+                f.attrs["polpair"] = uvputils.polpair_tuple2int(self.pols)
+                # cannot write None to file
+                if self.taper is None:
+                    f.attrs["taper"] = "none"
+                else:
+                    f.attrs["taper"] = self.taper
+                # arrays
+                f.create_dataset(
+                    "kperp_bins", shape=(nbins_kperp,), data=kperp_bins, dtype=float
+                )
+                f.create_dataset(
+                    "kpara_bins", shape=(nbins_kpara,), data=kpara_bins, dtype=float
+                )
+                f.create_dataset("bl_lens", shape=(nbls,), data=bl_lens, dtype=float)
+                f.create_dataset(
+                    "bl_weights", shape=(nbls,), data=bl_weights, dtype=float
+                )
+                f.create_dataset(
+                    "dly_array", shape=(self.Nfreqs,), data=self.dly_array, dtype=float
+                )
+                f.create_dataset(
+                    "cyl_wf",
+                    shape=(nbls, self.Nfreqs, nbins_kperp, nbins_kpara),
+                    data=cyl_wf,
+                    dtype=float,
+                )
+            os.replace(tmppath, filepath)
+        except BaseException:
+            if os.path.exists(tmppath):
+                os.remove(tmppath)
+            raise
 
     def check_kunits(self, karray):
         """
-- 
2.43.0


From 9fdac6c179b231bab90037f70579b255a8983e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:50 +0000
Subject: [PATCH 58/58] fix: a bias correction with a missing window left
 earlier windows corrected

---
 src/hera_pspec/loss.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hera_pspec/loss.py b/src/hera_pspec/loss.py
index bd7dd4e..f74408e 100644
--- a/src/hera_pspec/loss.py
+++ b/src/hera_pspec/loss.py
@@ -35,6 +35,12 @@ def apply_bias_correction(
     if not inplace:
         uvp = copy.deepcopy(uvp)
 
+    # look up all the factors first: uvp changes only if none is missing
+    if total_bias is not None:
+        total_bias = {spw: total_bias[spw] for spw in uvp.spw_array}
+    if data_bias is not None:
+        data_bias = {spw: data_bias[spw] for spw in uvp.spw_array}
+
     for spw in uvp.spw_array:
         if total_bias is not None:
             uvp.data_array[spw] *= total_bias[spw]
-- 
2.43.0

