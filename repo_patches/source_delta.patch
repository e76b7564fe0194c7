From 643de752198b24fc082928dfab5eb82125d7ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:22 +0000
Subject: [PATCH 01/83] fix: write the declination proper motion to the MS
 SOURCE table (was RA twice)

---
 src/pyuvdata/utils/io/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index c065c59..8eb8fe5 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -1602,7 +1602,7 @@ def write_ms_source(filepath, uvobj=None, time_default=None, phase_center_catalo
             int_val = int_default
             sou_name = pc_dict["cat_name"]
             pm_dir = np.array(
-                [pc_dict.get("cat_pm_ra"), pc_dict.get("cat_pm_ra")], dtype=np.double
+                [pc_dict.get("cat_pm_ra"), pc_dict.get("cat_pm_dec")], dtype=np.double
             )
             if not np.all(np.isfinite(pm_dir)):
                 pm_dir[:] = 0.0
-- 
2.43.0


From 083e3682087a255505a97fffe697c085fa403703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:22 +0000
Subject: [PATCH 02/83] fix: write_ms(flip_conj=True) no longer conjugates the
 in-memory data_array

---
 src/pyuvdata/uvdata/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/ms.py b/src/pyuvdata/uvdata/ms.py
index 73fd904..64bc3d4 100644
--- a/src/pyuvdata/uvdata/ms.py
+++ b/src/pyuvdata/uvdata/ms.py
@@ -203,7 +203,7 @@ class MS(UVData):
                 temp_vals = arr[:, :, pol_order]
 
                 if flip_conj and ("DATA" in col):
-                    temp_vals = np.conj(temp_vals, out=temp_vals)
+                    temp_vals = np.conj(temp_vals)
 
                 ms.putcol(col, temp_vals)
 
-- 
2.43.0


From 2f0c46ea3fd40b18467bc3888f3ddc0eef1cfc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:22 +0000
Subject: [PATCH 03/83] fix: descending indices convert to slices that select
 all of them

---
 src/pyuvdata/utils/tools.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index b45b67d..67b83c6 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -56,6 +56,13 @@ def _combine_filenames(filename1, filename2):
     return combined_filenames
 
 
+def _inclusive_slice(first, last, step):
+    """Make a slice from first to last (inclusive), with a step of either sign."""
+    if step is not None and step < 0:
+        return slice(first, last - 1 if last > 0 else None, step)
+    return slice(first, last + 1, step)
+
+
 def _convert_to_slices(
     indices, *, max_nslice_frac=0.1, max_nslice=None, return_index_on_fail=False
 ):
@@ -111,15 +118,16 @@ def _convert_to_slices(
     if len(eval_ind) == 0:
         return [slice(0, 0, 0)], False
     if len(eval_ind) <= 2:
+        step = eval_ind[-1] - eval_ind[0]
         return [
-            slice(eval_ind[0], eval_ind[-1] + 1, max(eval_ind[-1] - eval_ind[0], 1))
+            _inclusive_slice(eval_ind[0], eval_ind[-1], 1 if step == 0 else step)
         ], True
 
     # Catch the simplest case of "give me a single slice or exit"
     if (max_nslice == 1) and return_index_on_fail:
         step = eval_ind[1] - eval_ind[0]
         if all(np.diff(eval_ind) == step):
-            return [slice(eval_ind[0], eval_ind[-1] + 1, step)], True
+            return [_inclusive_slice(eval_ind[0], eval_ind[-1], step)], True
         return [indices], False
 
     # setup empty slices list
@@ -144,7 +152,7 @@ def _convert_to_slices(
         # if step != last_step, this ends the slice
         if step != last_step:
             # append to list
-            slices.append(slice(start, last_ind + 1, last_step))
+            slices.append(_inclusive_slice(start, last_ind, last_step))
 
             # setup next step
             start = ind
@@ -153,7 +161,7 @@ def _convert_to_slices(
         last_ind = ind
 
     # Append the last slice
-    slices.append(slice(start, ind + 1, last_step))
+    slices.append(_inclusive_slice(start, ind, last_step))
 
     # determine whether slices are a reasonable representation, and determine max_nslice
     # if only max_nslice_frac was supplied.
-- 
2.43.0


From 03fdce62013914f7e339e7d15d73fa4f14737b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:22 +0000
Subject: [PATCH 04/83] fix: uvfits keeps the frequency of each channel when
 windows are not in spw_array order, positive widths on read

---
 src/pyuvdata/uvdata/uvfits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 6a4a483..25b8c53 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -457,7 +457,7 @@ class UVFITS(UVData):
                 # FQ table, in which case pull the info from the main table
                 self.Nfreqs = vis_hdr.pop("NAXIS4")
                 self.freq_array = fits_utils._gethduaxis(vis_hdu, 4)
-                self.channel_width = np.full(self.Nfreqs, vis_hdr.pop("CDELT4"))
+                self.channel_width = np.full(self.Nfreqs, abs(vis_hdr.pop("CDELT4")))
                 self.flex_spw_id_array = np.zeros(self.Nfreqs, dtype=int)
 
             self.polarization_array = np.int32(fits_utils._gethduaxis(vis_hdu, 3))
@@ -907,7 +907,10 @@ class UVFITS(UVData):
         nchan_list = []
         start_freq_array = []
         delta_freq_array = []
-        for idx in self.spw_array:
+        # The data are written out in the order of the frequency axis, so go through
+        # the windows in that order (which need not be the order of spw_array).
+        _, first_chan = np.unique(self.flex_spw_id_array, return_index=True)
+        for idx in self.flex_spw_id_array[np.sort(first_chan)]:
             chan_mask = self.flex_spw_id_array == idx
             nchan_list += [np.sum(chan_mask)]
             start_freq_array += [self.freq_array[chan_mask][0]]
-- 
2.43.0


From c1bf14cfb9e9852e72a715ca7a696b1ab51ea635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:22 +0000
Subject: [PATCH 05/83] fix: miriad keeps single-channel widths, antenna
 positions of unsorted antennas, and reads several integration times

---
 src/pyuvdata/uvdata/miriad.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 176051d..7827a24 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -533,11 +533,15 @@ class Miriad(UVData):
             if self.telescope.Nants is not None:
                 # in this case there is an antnums variable
                 # (meaning that the file was written with pyuvdata), so we'll use it
-                if nants == self.telescope.Nants:
-                    # no inflation, so just use the positions
+                if nants == self.telescope.Nants and np.all(
+                    np.diff(self.telescope.antenna_numbers) > 0
+                ):
+                    # no inflation and the antennas are in the order of their
+                    # numbers, so just use the positions
                     self.telescope.antenna_positions = rel_ecef_antpos
                 else:
-                    # there is some inflation, just use the ones that appear in antnums
+                    # there is some inflation (or the antennas are not in the order of
+                    # their numbers), just use the ones that appear in antnums
                     self.telescope.antenna_positions = np.zeros(
                         (self.telescope.Nants, 3), dtype=antpos.dtype
                     )
@@ -1158,25 +1162,28 @@ class Miriad(UVData):
             # The select on read will make the header nblts not match the
             # number of unique blts
             self.Nblts = len(t_grid)
+        # UVData.time_array marks center of integration, while Miriad 'time'
+        # marks beginning
+        # also, int_grid is in units of seconds, so we need to convert to days
+        self.time_array = t_grid + int_grid / (24 * 3600.0) / 2
+
+        # count the integration centers: with several integration times the
+        # beginnings differ even for integrations that share a center
+        n_unique_times = np.unique(self.time_array).size
         if time_range is None:
             try:
                 self.Ntimes = uv["ntimes"]
-                if self.Ntimes != len(times):
+                if self.Ntimes != n_unique_times:
                     warnings.warn(
                         "Ntimes does not match the number of unique times in the data"
                     )
-                    self.Ntimes = len(times)
+                    self.Ntimes = n_unique_times
             except KeyError:
-                self.Ntimes = len(times)
+                self.Ntimes = n_unique_times
         else:
             # The select on read will make the header ntimes not match the
             # number of unique times
-            self.Ntimes = len(times)
-
-        # UVData.time_array marks center of integration, while Miriad 'time'
-        # marks beginning
-        # also, int_grid is in units of seconds, so we need to convert to days
-        self.time_array = t_grid + int_grid / (24 * 3600.0) / 2
+            self.Ntimes = n_unique_times
 
         self.integration_time = np.asarray(int_grid, dtype=np.float64)
 
@@ -1741,6 +1748,8 @@ class Miriad(UVData):
                 freq_array_use[np.append(win_start_pos[1:] - 1, self.Nfreqs - 1)]
                 - freq_array_use[win_start_pos]
             )
+            # a window with a single channel has no direction, keep its width
+            freq_dir[freq_dir == 0] = 1.0
 
             uv.add_var("sdf", "d")  # Channel width, Hz -> GHz
             uv["sdf"] = self.channel_width[win_start_pos] * freq_dir / 1e9
@@ -1754,6 +1763,8 @@ class Miriad(UVData):
             # Need the array direction here since channel_width is always supposed
             # to be > 0, but channels can be in decending freq order
             freq_dir = np.sign(np.diff(freq_array_use[([0, -1])]))
+            # a single channel has no direction, keep its width
+            freq_dir[freq_dir == 0] = 1.0
 
             uv.add_var("sfreq", "d")  # Freq of first channel of the window, in GHz
             uv["sfreq"] = (freq_array_use[0] / 1e9).astype(np.double)  # Hz -> GHz
-- 
2.43.0


From 6f002f5c51764ebd787e995a2808e322e6031aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:51 +0000
Subject: [PATCH 06/83] fix: miriad header items report write errors on close
 instead of losing them

---
 src/pyuvdata/uvdata/src/miriad_wrap.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/src/miriad_wrap.pyx b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
index 8bc5abe..22ac833 100644
--- a/src/pyuvdata/uvdata/src/miriad_wrap.pyx
+++ b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
@@ -108,9 +108,10 @@ cdef inline void CHK_IO(int i) except *:
   if (i != 0):
     raise IOError("IO failed.")
 
-cpdef void hdaccess(int item_hdl) except +:
+cpdef void hdaccess(int item_hdl) except *:
   cdef int iostat
   hdaccess_c(item_hdl, &iostat)
+  CHK_IO(iostat)
   return
 
 cdef int INIT(int item_hdl, char type_item[4], int size):
-- 
2.43.0


From 21235411439c85e910b848537cb1903b497d26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 07/83] fix: beamfits files of real power beams with several
 polarizations can be read back

---
 src/pyuvdata/uvbeam/beamfits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/beamfits.py b/src/pyuvdata/uvbeam/beamfits.py
index cfd1555..eb93d75 100644
--- a/src/pyuvdata/uvbeam/beamfits.py
+++ b/src/pyuvdata/uvbeam/beamfits.py
@@ -700,8 +700,9 @@ class BeamFITS(UVBeam):
                 '"efield" or "power".'.format(type=self.beam_type)
             )
 
-        # Add a third axis to the data for consistency
-        primary_data = primary_data[:, :, np.newaxis]
+        # Add a spectral window axis to the data for consistency, where the header has
+        # it (real power beams have no complex axis before it)
+        primary_data = np.expand_dims(primary_data, axis=-ax_nums["spw"])
 
         primary_header["CRPIX" + str(ax_nums["feed_pol"])] = 1
 
-- 
2.43.0


From 3dcfdc21b77396b36ac587286934c6aee1284089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 08/83] fix: conjugate_bls moves flags and nsamples to the
 swapped polarizations with the data

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e577c8a..2dc5ec2 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3690,6 +3690,14 @@ class UVData(UVBase):
                         orig_data_array[index_array, :, pol_ind]
                     )
 
+                # the flags and nsamples belong to the same polarizations as the data
+                for param in [self.flag_array, self.nsample_array]:
+                    orig_array = copy.copy(param)
+                    for pol_ind in np.arange(self.Npols):
+                        param[index_array, :, new_pol_inds[pol_ind]] = orig_array[
+                            index_array, :, pol_ind
+                        ]
+
             ant_1_vals = self.ant_1_array[index_array]
             ant_2_vals = self.ant_2_array[index_array]
             self.ant_1_array[index_array] = ant_2_vals
-- 
2.43.0


From a8dfb42523e26a6333d35c328a20f37dcdd641ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:03 +0000
Subject: [PATCH 09/83] fix: a Miriad handle that was never opened is not
 closed (closed handle 0)

---
 src/pyuvdata/uvdata/src/miriad_wrap.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/src/miriad_wrap.pyx b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
index 22ac833..6c7ed34 100644
--- a/src/pyuvdata/uvdata/src/miriad_wrap.pyx
+++ b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
@@ -330,6 +330,10 @@ cdef class UV:
   cdef long intcnt
   cdef double curtime
 
+  def __cinit__(self, *args, **kwargs):
+    # no open file yet: __dealloc__ also runs if __init__ is never reached
+    self.tno = -1
+
   def __init__(self, str filename, str status, str corrmode):
     self.tno = -1
     self.decimate = 1
-- 
2.43.0


From 9409504ad2b6c346bdb77259e102be0def4ebb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:20 +0000
Subject: [PATCH 10/83] fix: an unusable data_write_dtype is refused before an
 existing UVH5 file is overwritten

---
 src/pyuvdata/uvdata/uvh5.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index b6b6008..ed3b0d4 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -1349,6 +1349,15 @@ class UVH5(UVData):
             data_compression
         )
 
+        # settle the data type before an existing file is overwritten
+        if data_write_dtype is None:
+            if self.data_array.dtype == "complex64":
+                data_write_dtype = "c8"
+            else:
+                data_write_dtype = "c16"
+        if data_write_dtype not in ("c8", "c16"):
+            hdf5_utils._check_complex_dtype(data_write_dtype)
+
         # open file for writing
         with h5py.File(filename, "w") as f:
             # write header
@@ -1357,13 +1366,7 @@ class UVH5(UVData):
 
             # write out data, flags, and nsample arrays
             dgrp = f.create_group("Data")
-            if data_write_dtype is None:
-                if self.data_array.dtype == "complex64":
-                    data_write_dtype = "c8"
-                else:
-                    data_write_dtype = "c16"
             if data_write_dtype not in ("c8", "c16"):
-                hdf5_utils._check_complex_dtype(data_write_dtype)
                 visdata = dgrp.create_dataset(
                     "visdata",
                     self.data_array.shape,
@@ -1484,6 +1487,14 @@ class UVH5(UVData):
             data_compression
         )
 
+        # settle the data type before an existing file is overwritten
+        if data_write_dtype is None:
+            # we don't know what kind of data we'll get--default to double-precision
+            data_write_dtype = "c16"
+        if data_write_dtype not in ("c8", "c16"):
+            # make sure the data type is correct
+            hdf5_utils._check_complex_dtype(data_write_dtype)
+
         # write header and empty arrays to file
         with h5py.File(filename, "w") as f:
             # write header
@@ -1493,12 +1504,6 @@ class UVH5(UVData):
             # initialize the data groups on disk
             data_size = (self.Nblts, self.Nfreqs, self.Npols)
             dgrp = f.create_group("Data")
-            if data_write_dtype is None:
-                # we don't know what kind of data we'll get--default to double-precision
-                data_write_dtype = "c16"
-            if data_write_dtype not in ("c8", "c16"):
-                # make sure the data type is correct
-                hdf5_utils._check_complex_dtype(data_write_dtype)
             dgrp.create_dataset(
                 "visdata",
                 data_size,
-- 
2.43.0


From ecb1fed4ead4230bc35b63debf2190bd566de89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:20 +0000
Subject: [PATCH 11/83] fix: measurement sets with several windows can be read
 whatever their path

---
 src/pyuvdata/uvdata/ms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/ms.py b/src/pyuvdata/uvdata/ms.py
index 64bc3d4..87dec46 100644
--- a/src/pyuvdata/uvdata/ms.py
+++ b/src/pyuvdata/uvdata/ms.py
@@ -768,9 +768,10 @@ class MS(UVData):
             # data, flags, and weights, since they should all be the same shape on a
             # per-row basis for the same data description. Alternative read methods
             # w/ getcell, getvarcol, and per-row getcols produced way slower code.
-            tb_main_sel = tables.taql(
-                f"select from {filepath} where DATA_DESC_ID == {key}"  # nosec
-            )
+            # (A query on the table rather than a command with the name of the table,
+            # which does not have to be a valid name in TaQL.)
+            tb_main = tables.table(filepath, ack=False)
+            tb_main_sel = tb_main.query(f"DATA_DESC_ID == {key}")
 
             # Fill in the temp arrays, and then plug them back into the main array.
             # Note that this operation has to be split in two because you can only use
@@ -802,6 +803,7 @@ class MS(UVData):
 
             # Close the table, get ready for the next loop
             tb_main_sel.close()
+            tb_main.close()
 
         self.data_array = data_array
         self.flag_array = flag_array
-- 
2.43.0


From 68b2e74c30881dba6c1edd1f233d087c11e39133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:14 +0000
Subject: [PATCH 12/83] fix: header items of HDF5 files that cannot be read are
 errors, not missing items

---
 src/pyuvdata/utils/io/hdf5.py | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/pyuvdata/utils/io/hdf5.py b/src/pyuvdata/utils/io/hdf5.py
index 88c27da..71e3a4b 100644
--- a/src/pyuvdata/utils/io/hdf5.py
+++ b/src/pyuvdata/utils/io/hdf5.py
@@ -493,8 +493,12 @@ class HDF5Meta:
         """Open the file."""
         if not self.__file:
             self.__file = h5py.File(self.path, "r")
-            self.__header = self.__file["/Header"]
-            self.__datagrp = self.__file["/Data"]
+            try:
+                self.__header = self.__file["/Header"]
+                self.__datagrp = self.__file["/Data"]
+            except Exception:
+                self.close()
+                raise
 
     @cached_property
     def header(self) -> h5py.Group:
@@ -537,23 +541,29 @@ class HDF5Meta:
 
     def __getattr__(self, name: str) -> Any:
         """Get attribute directly from header group."""
-        try:
-            x = self.header[name][()]
-            if name in self._string_attrs:
-                x = bytes(x).decode("utf8")
-            elif name in self._int_attrs:
-                x = int(x)
-            elif name in self._float_attrs:
-                x = float(x)
-
-            self.__dict__[name] = x
-            return x
-        except KeyError:
+        # ask whether the item exists rather than catching the KeyError of a failed
+        # lookup: h5py also raises a KeyError when an existing item cannot be read.
+        if name not in self.header:
             try:
                 return self._defaults[name]
             except KeyError as e:
                 raise AttributeError(f"{name} not found in {self.path}") from e
 
+        try:
+            x = self.header[name][()]
+        except KeyError as e:
+            raise OSError(f"{name} could not be read from {self.path}") from e
+
+        if name in self._string_attrs:
+            x = bytes(x).decode("utf8")
+        elif name in self._int_attrs:
+            x = int(x)
+        elif name in self._float_attrs:
+            x = float(x)
+
+        self.__dict__[name] = x
+        return x
+
     @property
     def telescope_location_lat_lon_alt(self) -> tuple[float, float, float]:
         """The telescope location in latitude, longitude, and altitude, in degrees."""
-- 
2.43.0


From 3f39fb5a8881075a9e1c2862f6a6949877337536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:14 +0000
Subject: [PATCH 13/83] fix: a read error in a Miriad header item is an error,
 not the end of the item

---
 src/pyuvdata/uvdata/aipy_extracts.py    | 9 +++++++--
 src/pyuvdata/uvdata/src/miriad_wrap.pyx | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/aipy_extracts.py b/src/pyuvdata/uvdata/aipy_extracts.py
index 7031345..8d47841 100644
--- a/src/pyuvdata/uvdata/aipy_extracts.py
+++ b/src/pyuvdata/uvdata/aipy_extracts.py
@@ -395,7 +395,10 @@ class UV(_miriad.UV):
             while True:
                 try:
                     c, o = _miriad.hread(h, offset, itype)
-                except IOError:
+                except IOError as err:
+                    if err.errno != -1:
+                        # not the end of the item, it cannot be read
+                        raise
                     break
 
                 if itype == "a":
@@ -476,7 +479,9 @@ class UV(_miriad.UV):
                     c, o = _miriad.hread(h, offset, "d")
                     rv.append(c)
                     offset += 8
-                except IOError:
+                except IOError as err:
+                    if err.errno != -1:
+                        raise
                     break
 
             _miriad.hdaccess(h)
diff --git a/src/pyuvdata/uvdata/src/miriad_wrap.pyx b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
index 6c7ed34..263fe51 100644
--- a/src/pyuvdata/uvdata/src/miriad_wrap.pyx
+++ b/src/pyuvdata/uvdata/src/miriad_wrap.pyx
@@ -106,7 +106,8 @@ cdef inline float MKBL(int i, int j):
 
 cdef inline void CHK_IO(int i) except *:
   if (i != 0):
-    raise IOError("IO failed.")
+    # -1 is end of file, anything else the system's error number
+    raise IOError(i, "IO failed.")
 
 cpdef void hdaccess(int item_hdl) except *:
   cdef int iostat
-- 
2.43.0


From 29d288affa8fa49accad65c0ff823093eabd6f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:07 +0000
Subject: [PATCH 14/83] fix: telescope items of HDF5 files that cannot be read
 are errors, not missing items

---
 src/pyuvdata/telescopes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/telescopes.py b/src/pyuvdata/telescopes.py
index 290ee56..d23bb40 100644
--- a/src/pyuvdata/telescopes.py
+++ b/src/pyuvdata/telescopes.py
@@ -893,7 +893,8 @@ class Telescope(UVBase):
             try:
                 setattr(tel_obj, tel_attr, getattr(meta, attr))
             except (AttributeError, KeyError) as e:
-                if attr in required_keys:
+                # h5py raises KeyErrors for items that are there but cannot be read
+                if attr in required_keys or attr in meta.header:
                     raise KeyError(str(e)) from e
                 else:
                     pass
-- 
2.43.0


From 40359824c1a14bd9e695013cd64a9e3ec4d35d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:07 +0000
Subject: [PATCH 15/83] fix: an unreadable MS subtable is an error, not a
 missing table

---
 src/pyuvdata/utils/io/ms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index 8eb8fe5..8e8ad0d 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -113,6 +113,9 @@ def _ms_utils_call_checks(filepath, invert_check=False):
         if os.path.exists(filepath):
             raise FileExistsError(filepath + " already exists.")
     elif not tables.tableexists(filepath):
+        if os.path.exists(os.path.join(filepath, "table.dat")):
+            # not a missing table, which callers may accept, but an unreadable one
+            raise OSError(filepath + " could not be read as an MS table.")
         raise FileNotFoundError(
             filepath + " not found or not recognized as an MS table."
         )
-- 
2.43.0


From 5c777fd7b033b4a1dce70f2a35de959c8697c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:16 +0000
Subject: [PATCH 16/83] fix: a failed UVH5 header check no longer removes the
 data from the object

---
 src/pyuvdata/uvdata/uvh5.py | 33 ++-------------------------------
 1 file changed, 2 insertions(+), 31 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index ed3b0d4..9b7ea6a 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -1567,44 +1567,15 @@ class UVH5(UVData):
                 background_lsts=background_lsts,
             )
 
-        # temporarily remove data, flag, and nsample arrays, so we only check metadata
-        if self.data_array is not None:
-            data_array = self.data_array
-            self.data_array = None
-            replace_data = True
-        else:
-            replace_data = False
-        if self.flag_array is not None:
-            flag_array = self.flag_array
-            self.flag_array = None
-            replace_flags = True
-        else:
-            replace_flags = False
-        if self.nsample_array is not None:
-            nsample_array = self.nsample_array
-            self.nsample_array = None
-            replace_nsamples = True
-        else:
-            replace_nsamples = False
-
         # also ignore filename attribute
         uvd_file.filename = self.filename
         uvd_file._filename.form = self._filename.form
 
-        if self != uvd_file:
+        # only check metadata (the copy is a UVData object, of which UVH5 is a subclass)
+        if not self.copy(metadata_only=True).__eq__(uvd_file):
             raise AssertionError(
                 "The object metadata in memory and metadata on disk are different"
             )
-        else:
-            # clean up after ourselves
-            if replace_data:
-                self.data_array = data_array
-            if replace_flags:
-                self.flag_array = flag_array
-            if replace_nsamples:
-                self.nsample_array = nsample_array
-            del uvd_file
-        return
 
     def write_uvh5_part(
         self,
-- 
2.43.0


From 7e49f34d3ba7befbb11f12bb115daa3ab5aff826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:16 +0000
Subject: [PATCH 17/83] fix: selecting one channel of each spectral window no
 longer raises

---
 src/pyuvdata/uvcal/uvcal.py   | 5 ++++-
 src/pyuvdata/uvdata/uvdata.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 18cec26..ad9ff02 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4172,7 +4172,10 @@ class UVCal(UVBase):
                     freq_ind_separation = freq_ind_separation[
                         np.diff(self.flex_spw_id_array[freq_inds]) == 0
                     ]
-                if not utils.tools._test_array_constant(freq_ind_separation):
+                if freq_ind_separation.size == 0:
+                    # no more than one channel of each spectral window is selected
+                    pass
+                elif not utils.tools._test_array_constant(freq_ind_separation):
                     warnings.warn(
                         "Selected frequencies are not evenly spaced. This "
                         "will make it impossible to write this data out to "
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 2dc5ec2..e66f7d6 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6918,7 +6918,10 @@ class UVData(UVBase):
                 freq_ind_separation = freq_ind_separation[
                     np.diff(self.flex_spw_id_array[freq_inds]) == 0
                 ]
-                if not utils.tools._test_array_constant(freq_ind_separation):
+                if freq_ind_separation.size == 0:
+                    # no more than one channel of each spectral window is selected
+                    pass
+                elif not utils.tools._test_array_constant(freq_ind_separation):
                     warnings.warn(
                         "Selected frequencies are not evenly spaced. This "
                         "will make it impossible to write this data out to "
-- 
2.43.0


From 178c825124ace4d248997a9cf8b1a253fbf6c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:16 +0000
Subject: [PATCH 18/83] fix: UVBeam.select keeps the beams of polarizations
 given in another order with their labels

---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 1e48a49..e9c1132 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3212,9 +3212,9 @@ class UVBeam(UVBase):
                     )
 
             initial_pols = beam_object.polarization_array.copy()
+            pol_inds = sorted(set(pol_inds))
             final_pols = beam_object.polarization_array[pol_inds]
 
-            pol_inds = sorted(set(pol_inds))
             beam_object.Npols = len(pol_inds)
             beam_object.polarization_array = final_pols
 
-- 
2.43.0


From 90b8cf5daa99ddfd0ca86568f364916df9dacd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:09 +0000
Subject: [PATCH 19/83] fix: catalog_names, lsts and lst_range are no longer
 ignored on read

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e66f7d6..8d376b4 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10920,6 +10920,7 @@ class UVData(UVBase):
                     or polarizations is not None
                     or blt_inds is not None
                     or phase_center_ids is not None
+                    or catalog_names is not None
                 ):
                     select = True
                     warnings.warn(
@@ -10943,6 +10944,7 @@ class UVData(UVBase):
                     select_polarizations = polarizations
                     select_blt_inds = blt_inds
                     select_phase_center_ids = phase_center_ids
+                    select_catalog_names = catalog_names
                 else:
                     select = False
             elif file_type in ["uvfits", "uvh5"]:
@@ -10953,8 +10955,11 @@ class UVData(UVBase):
                     or frequencies is not None
                     or freq_chans is not None
                     or times is not None
+                    or lsts is not None
+                    or lst_range is not None
                     or blt_inds is not None
                     or phase_center_ids is not None
+                    or catalog_names is not None
                 ):
                     if blt_inds is not None:
                         if (
@@ -10995,6 +11000,7 @@ class UVData(UVBase):
                     select_lst_range = lst_range
                     select_blt_inds = blt_inds
                     select_phase_center_ids = phase_center_ids
+                    select_catalog_names = catalog_names
                 else:
                     select = False
             elif file_type in ["mir"]:
@@ -11007,6 +11013,7 @@ class UVData(UVBase):
                 select_lst_range = None
                 select_time_range = None
                 select_polarizations = None
+                select_catalog_names = None
 
                 # MIR can handle length-two bls tuples, so if any three element tuples
                 # are seen, we need to deal w/ that via select.
@@ -11249,6 +11256,7 @@ class UVData(UVBase):
                     polarizations=select_polarizations,
                     blt_inds=select_blt_inds,
                     phase_center_ids=select_phase_center_ids,
+                    catalog_names=select_catalog_names,
                     keep_all_metadata=keep_all_metadata,
                     run_check=run_check,
                     check_extra=check_extra,
-- 
2.43.0


From 9814785d4ec57d635a411920cc8c7cd6dba3f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:09 +0000
Subject: [PATCH 20/83] fix: eq_coeffs follow the antennas when a select drops
 antenna metadata

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8d376b4..39c2300 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7137,6 +7137,9 @@ class UVData(UVBase):
             elif key == "Nants_telescope":
                 # Count the number of unique ants after ant-based selection
                 self.telescope.Nants = len(ind_arr)
+                if self.eq_coeffs is not None:
+                    # this has the antenna axis but lives on self
+                    self.eq_coeffs = self.eq_coeffs.take(ind_arr, axis=0)
 
         # Update the history string
         self.history += history_update_string
-- 
2.43.0


From a8d7567e8066e1b408244430a21e323a54208ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:09 +0000
Subject: [PATCH 21/83] fix: UVFlag.select freq_chans works for objects with
 one channel

---
 src/pyuvdata/uvflag/uvflag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index a111c23..0355ffa 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2673,13 +2673,13 @@ class UVFlag(UVBase):
             if np.array(freq_chans).ndim > 1:
                 freq_chans = np.array(freq_chans).flatten()
             if frequencies is None:
-                frequencies = np.squeeze(self.freq_array)[freq_chans]
+                frequencies = self.freq_array[freq_chans]
 
             else:
                 frequencies = utils.tools._get_iterable(frequencies)
                 frequencies = np.sort(
                     list(
-                        set(frequencies) | set(np.squeeze(self.freq_array)[freq_chans])
+                        set(frequencies) | set(self.freq_array[freq_chans])
                     )
                 )
 
-- 
2.43.0


From c8e79c521f39615e9666bd377bfab21a5f26a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:30 +0000
Subject: [PATCH 22/83] fix: UVFITS partial reads by frequency of files with
 several spectral windows

---
 src/pyuvdata/uvdata/uvfits.py | 78 ++++++++++-------------------------
 1 file changed, 22 insertions(+), 56 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 25b8c53..b88c176 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -248,7 +248,7 @@ class UVFITS(UVData):
             blt_frac = 1
 
         if freq_inds is not None:
-            freq_frac = len(freq_inds) * float(self.Nspws) / float(self.Nfreqs)
+            freq_frac = len(freq_inds) / float(self.Nfreqs)
         else:
             freq_frac = 1
 
@@ -259,17 +259,19 @@ class UVFITS(UVData):
 
         min_frac = np.min([blt_frac, freq_frac, pol_frac])
 
+        # axes: Nblts, Nfreqs (over all the spectral windows), Npols, complex
+        full_data = vis_hdu.data.data[:, 0, 0]
+        if vis_hdu.header["NAXIS"] == 7:
+            # the channels are on two axes in the file: the spectral window and
+            # the channel in the window. Selections refer to both together.
+            assert self.Nspws == full_data.shape[1]
+            full_data = full_data.reshape(
+                (full_data.shape[0], -1) + full_data.shape[3:]
+            )
+
         if min_frac == 1:
             # no select, read in all the data
-            if vis_hdu.header["NAXIS"] == 7:
-                raw_data_array = vis_hdu.data.data[:, 0, 0, :, :, :, :]
-                assert self.Nspws == raw_data_array.shape[1]
-
-            else:
-                # in many uvfits files the spw axis is left out,
-                # here we put it back in so the dimensionality stays the same
-                raw_data_array = vis_hdu.data.data[:, 0, 0, :, :, :]
-                raw_data_array = raw_data_array[:, np.newaxis, :, :]
+            raw_data_array = full_data
         else:
             # do select operations on everything except data_array, flag_array
             # and nsample_array
@@ -283,61 +285,25 @@ class UVFITS(UVData):
 
             # just read in the right portions of the data and flag arrays
             if blt_frac == min_frac:
-                if vis_hdu.header["NAXIS"] == 7:
-                    raw_data_array = vis_hdu.data.data[blt_inds, :, :, :, :, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
-                else:
-                    # in many uvfits files the spw axis is left out,
-                    # here we put it back in so the dimensionality stays the same
-                    raw_data_array = vis_hdu.data.data[blt_inds, :, :, :, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :]
-                    raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
+                raw_data_array = full_data[blt_inds, :, :, :]
                 if freq_frac < 1:
-                    raw_data_array = raw_data_array[:, :, freq_inds, :, :]
+                    raw_data_array = raw_data_array[:, freq_inds, :, :]
                 if pol_frac < 1:
-                    raw_data_array = raw_data_array[:, :, :, pol_inds, :]
+                    raw_data_array = raw_data_array[:, :, pol_inds, :]
             elif freq_frac == min_frac:
-                if vis_hdu.header["NAXIS"] == 7:
-                    raw_data_array = vis_hdu.data.data[:, :, :, :, freq_inds, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
-                else:
-                    # in many uvfits files the spw axis is left out,
-                    # here we put it back in so the dimensionality stays the same
-                    raw_data_array = vis_hdu.data.data[:, :, :, freq_inds, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :]
-                    raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
-
+                raw_data_array = full_data[:, freq_inds, :, :]
                 if blt_frac < 1:
-                    raw_data_array = raw_data_array[blt_inds, :, :, :, :]
+                    raw_data_array = raw_data_array[blt_inds, :, :, :]
                 if pol_frac < 1:
-                    raw_data_array = raw_data_array[:, :, :, pol_inds, :]
+                    raw_data_array = raw_data_array[:, :, pol_inds, :]
             else:
-                if vis_hdu.header["NAXIS"] == 7:
-                    raw_data_array = vis_hdu.data.data[:, :, :, :, :, pol_inds, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
-                else:
-                    # in many uvfits files the spw axis is left out,
-                    # here we put it back in so the dimensionality stays the same
-                    raw_data_array = vis_hdu.data.data[:, :, :, :, pol_inds, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :]
-                    raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
-
+                raw_data_array = full_data[:, :, pol_inds, :]
                 if blt_frac < 1:
-                    raw_data_array = raw_data_array[blt_inds, :, :, :, :]
+                    raw_data_array = raw_data_array[blt_inds, :, :, :]
                 if freq_frac < 1:
-                    raw_data_array = raw_data_array[:, :, freq_inds, :, :]
+                    raw_data_array = raw_data_array[:, freq_inds, :, :]
 
-        assert len(raw_data_array.shape) == 5
-
-        # Reshape the data array to be the right size if we are working w/ multiple
-        # spectral windows
-        raw_data_array = np.reshape(
-            raw_data_array,
-            (self.Nblts, self.Nfreqs, self.Npols, raw_data_array.shape[4]),
-        )
+        assert len(raw_data_array.shape) == 4
 
         # FITS uvw direction convention is opposite ours and Miriad's.
         # So conjugate the visibilities and flip the uvws:
-- 
2.43.0


From 2a951d41f2732fcfa2ae4133ee12c473f24defea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:30 +0000
Subject: [PATCH 23/83] fix: time and polarization selections apply to all
 baselines of a Miriad partial read

---
 src/pyuvdata/uvdata/miriad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 7827a24..7d7dffe 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -896,6 +896,8 @@ class Miriad(UVData):
             # so subtract 1/2 an integration before using with miriad select
             time_range_use = np.array(time_range) - uv["inttime"] / (24 * 3600.0) / 2
 
+            # close the list of baselines, which are combined with "or"
+            uv.select("and", -1, -1)
             uv.select("time", time_range_use[0], time_range_use[1], include=True)
             if n_selects > 0:
                 history_update_string += ", times"
@@ -926,6 +928,8 @@ class Miriad(UVData):
                 for p in polarizations
             ]
             # iterate through all possible pols and reject if not in pols
+            # (after closing the list of baselines, which are combined with "or")
+            uv.select("and", -1, -1)
             pol_list = []
             for p in np.arange(-8, 5):
                 if p not in polarizations:
-- 
2.43.0


From 20eede77df5ca8892a129e97d8d59e4ea718baa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:19 +0000
Subject: [PATCH 24/83] fix: multi-file reads name the files that failed and
 use each file's own FHD files

---
 src/pyuvdata/uvdata/uvdata.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 39c2300..743d180 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10548,7 +10548,6 @@ class UVData(UVBase):
             file_num = 0
             file_warnings = ""
             unread = True
-            f = filename[file_num]
             params_file_use = None
             obs_file_use = None
             flags_file_use = None
@@ -10616,16 +10615,18 @@ class UVData(UVBase):
                 else:
                     settings_file = [None] * n_files
 
-                params_file_use = params_file[file_num]
-                obs_file_use = obs_file[file_num]
-                flags_file_use = flags_file[file_num]
-                layout_file_use = layout_file[file_num]
-                settings_file_use = settings_file[file_num]
-
             while unread and file_num < len(filename):
+                f = filename[file_num]
+                if file_type == "fhd":
+                    params_file_use = params_file[file_num]
+                    obs_file_use = obs_file[file_num]
+                    flags_file_use = flags_file[file_num]
+                    layout_file_use = layout_file[file_num]
+                    settings_file_use = settings_file[file_num]
+
                 try:
                     self.read(
-                        filename[file_num],
+                        f,
                         file_type=file_type,
                         read_data=read_data,
                         skip_bad_files=skip_bad_files,
@@ -10748,13 +10749,13 @@ class UVData(UVBase):
 
             uv_list = []
             if len(filename) > file_num + 1:
-                for f in filename[file_num + 1 :]:
+                for f_ind, f in enumerate(filename[file_num + 1 :], start=file_num + 1):
                     if file_type == "fhd":
-                        params_file_use = params_file[file_num]
-                        obs_file_use = obs_file[file_num]
-                        flags_file_use = flags_file[file_num]
-                        layout_file_use = layout_file[file_num]
-                        settings_file_use = settings_file[file_num]
+                        params_file_use = params_file[f_ind]
+                        obs_file_use = obs_file[f_ind]
+                        flags_file_use = flags_file[f_ind]
+                        layout_file_use = layout_file[f_ind]
+                        settings_file_use = settings_file[f_ind]
 
                     uv2 = UVData()
                     try:
-- 
2.43.0


From d31daeab514bbcd79ee6187ba23b888bd42789d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:19 +0000
Subject: [PATCH 25/83] fix: multi-file reads apply the same selections to all
 files

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 743d180..a890d8a 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10640,6 +10640,7 @@ class UVData(UVBase):
                         antenna_names=antenna_names,
                         ant_str=ant_str,
                         bls=bls,
+                        catalog_names=catalog_names,
                         frequencies=frequencies,
                         freq_chans=freq_chans,
                         times=times,
@@ -10837,6 +10838,9 @@ class UVData(UVBase):
                             phase_to_pointing_center=phase_to_pointing_center,
                             nsample_array_dtype=nsample_array_dtype,
                             # MIR
+                            corrchunk=corrchunk,
+                            receivers=receivers,
+                            sidebands=sidebands,
                             mir_select_where=mir_select_where,
                             apply_tsys=apply_tsys,
                             apply_flags=apply_flags,
-- 
2.43.0


From 43f57ac9dd447c3ce88ea0cc0d1c45fc26f85ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:11 +0000
Subject: [PATCH 26/83] fix: UVBeam multi-file reads skip unreadable files when
 asked to

---
 src/pyuvdata/uvbeam/uvbeam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index e9c1132..df302ee 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -4128,10 +4128,10 @@ class UVBeam(UVBase):
                             pixels_per_deg=pixels_per_deg,
                         )
                         unread = False
-                    except ValueError as err:
+                    except (KeyError, ValueError, OSError) as err:
                         file_warnings += (
                             f"Failed to read {filename[file_num]} "
-                            f"due to ValueError {err}\n"
+                            f"due to {type(err).__name__} {err}\n"
                         )
                         file_num += 1
                         if skip_bad_files is False:
@@ -4179,10 +4179,10 @@ class UVBeam(UVBase):
                                 pixels_per_deg=pixels_per_deg,
                             )
                             beam_list.append(beam2)
-                        except ValueError as err:
+                        except (KeyError, ValueError, OSError) as err:
                             file_warnings += (
                                 f"Failed to read {filename[file_num]} "
-                                f"due to ValueError {err}\n"
+                                f"due to {type(err).__name__} {err}\n"
                             )
                             if skip_bad_files:
                                 continue
-- 
2.43.0


From b5d8b92197d5efcdaa13465c691fdc5bbcbd183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:17 +0000
Subject: [PATCH 27/83] fix: skip_bad_files skips files whatever error reading
 them gives

---
 src/pyuvdata/uvbeam/uvbeam.py |  4 ++--
 src/pyuvdata/uvdata/uvdata.py | 43 +++++------------------------------
 2 files changed, 8 insertions(+), 39 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index df302ee..3bf4022 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -4128,7 +4128,7 @@ class UVBeam(UVBase):
                             pixels_per_deg=pixels_per_deg,
                         )
                         unread = False
-                    except (KeyError, ValueError, OSError) as err:
+                    except Exception as err:
                         file_warnings += (
                             f"Failed to read {filename[file_num]} "
                             f"due to {type(err).__name__} {err}\n"
@@ -4179,7 +4179,7 @@ class UVBeam(UVBase):
                                 pixels_per_deg=pixels_per_deg,
                             )
                             beam_list.append(beam2)
-                        except (KeyError, ValueError, OSError) as err:
+                        except Exception as err:
                             file_warnings += (
                                 f"Failed to read {filename[file_num]} "
                                 f"due to {type(err).__name__} {err}\n"
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index a890d8a..688ef00 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10718,23 +10718,10 @@ class UVData(UVBase):
                         blts_are_rectangular=blts_are_rectangular,
                     )
                     unread = False
-                except KeyError as err:
+                except Exception as err:
                     file_warnings = (
-                        file_warnings + f"Failed to read {f} due to KeyError: {err}\n"
-                    )
-                    file_num += 1
-                    if skip_bad_files is False:
-                        raise
-                except ValueError as err:
-                    file_warnings = (
-                        file_warnings + f"Failed to read {f} due to ValueError: {err}\n"
-                    )
-                    file_num += 1
-                    if skip_bad_files is False:
-                        raise
-                except OSError as err:  # pragma: nocover
-                    file_warnings = (
-                        file_warnings + f"Failed to read {f} due to OSError: {err}\n"
+                        file_warnings
+                        + f"Failed to read {f} due to {type(err).__name__}: {err}\n"
                     )
                     file_num += 1
                     if skip_bad_files is False:
@@ -10853,28 +10840,10 @@ class UVData(UVBase):
                         )
 
                         uv_list.append(uv2)
-                    except KeyError as err:
-                        file_warnings = (
-                            file_warnings
-                            + f"Failed to read {f} due to KeyError: {err}\n"
-                        )
-                        if skip_bad_files:
-                            continue
-                        else:
-                            raise
-                    except ValueError as err:
-                        file_warnings = (
-                            file_warnings
-                            + f"Failed to read {f} due to ValueError: {err}\n"
-                        )
-                        if skip_bad_files:
-                            continue
-                        else:
-                            raise
-                    except OSError as err:  # pragma: nocover
+                    except Exception as err:
                         file_warnings = (
-                            file_warnings
-                            + f"Failed to read {f} due to OSError: {err}\n"
+                            file_warnings + f"Failed to read {f} due to "
+                            f"{type(err).__name__}: {err}\n"
                         )
                         if skip_bad_files:
                             continue
-- 
2.43.0


From 2c644c147028e54e09bd8cc69a5a726c96ba5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:35 +0000
Subject: [PATCH 28/83] fix: UVCal objects with a total quality but no quality
 array can be added along time

---
 src/pyuvdata/uvcal/uvcal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index ad9ff02..d34401f 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3155,14 +3155,14 @@ class UVCal(UVBase):
 
                 if this.total_quality_array is not None and can_combine_tqa:
                     zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
+                        (data_array_shape[1], len(tnew_inds), this.Njones)
                     )
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=1
                     )
                 elif other.total_quality_array is not None and can_combine_tqa:
                     zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
+                        (data_array_shape[1], len(tnew_inds), this.Njones)
                     )
                     this.total_quality_array = np.zeros(
                         (Nf_tqa, this.Ntimes, this.Njones)
-- 
2.43.0


From 8e2250b4fdbd6d3577b1c69fd8cc57dfac8882e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:35 +0000
Subject: [PATCH 29/83] fix: dict parameters with lists of strings can be
 compared

---
 src/pyuvdata/parameter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/parameter.py b/src/pyuvdata/parameter.py
index fac86c3..90022fd 100644
--- a/src/pyuvdata/parameter.py
+++ b/src/pyuvdata/parameter.py
@@ -142,7 +142,12 @@ def _param_dict_equal(this_dict, other_dict):
                 if this_array.shape != other_array.shape:
                     message_str = f", key {key} is not equal"
                     return False, message_str
-                if np.allclose(this_array, other_array):
+                try:
+                    arrays_equal = np.allclose(this_array, other_array)
+                except TypeError:
+                    # not numeric (e.g. a list of strings), test for equality
+                    arrays_equal = np.array_equal(this_array, other_array)
+                if arrays_equal:
                     continue
                 else:
                     message_str = f", key {key} is not equal"
-- 
2.43.0


From 93807b36483e1a76bd884a2f231d7976b0be44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 30/83] fix: Miriad reads selecting antennas and baselines use
 their intersection whatever the order

antenna_nums not in increasing order lost baselines, and an empty
intersection selected all the data.
---
 src/pyuvdata/uvdata/miriad.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 7d7dffe..c650bb5 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -802,7 +802,7 @@ class Miriad(UVData):
                     raise ValueError(err_msg)
                 # get all possible combinations
                 antpairs = list(
-                    itertools.combinations_with_replacement(antenna_nums, 2)
+                    itertools.combinations_with_replacement(sorted(antenna_nums), 2)
                 )
                 # convert antenna numbers to string form required by
                 # aipy_extracts.uv_selector
@@ -869,6 +869,13 @@ class Miriad(UVData):
                     history_update_string += "baselines"
                 n_selects += 1
 
+            if len(antpair_str_list) == 0:
+                # an empty string would select all the data
+                raise ValueError(
+                    "No data is present, probably as a result of select on "
+                    "read that excludes all the data"
+                )
+
             # convert antenna pair list to string form required by
             # aipy_extracts.uv_selector
             antpair_str += ",".join(antpair_str_list)
-- 
2.43.0


From 853691d65c7e98a13e5c4894e0e7d46445247556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 31/83] fix: fast_concat of several objects makes all their
 phase center ids consistent

---
 src/pyuvdata/uvdata/uvdata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 688ef00..59072d2 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6005,6 +6005,12 @@ class UVData(UVBase):
             uv_list = uv_list[0::2]
         # Because self was at the beginning of the list,
         # all the phase centers are merged into it at the end of this loop
+        # The IDs on the other objects may still differ from those on this object, as
+        # they were not all compared to each other in the loop above.
+        for obj in other:
+            obj._consolidate_phase_center_catalogs(
+                reference_catalog=this.phase_center_catalog, ignore_name=ignore_name
+            )
 
         compatibility_params = ["_vis_units", "_telescope"]
 
-- 
2.43.0


From cb0053d3566d795fb744383d430221b933e0e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:24 +0000
Subject: [PATCH 32/83] fix: place the values of the second object by label
 when combining objects

The __add__ methods put the values of the second object at the matching
places of the first one in the order they have on the second object,
without a warning, so that objects with a different order along a shared
axis ended up with values under the wrong labels.
---
 src/pyuvdata/utils/tools.py   | 51 +++++++++++++++++++++++
 src/pyuvdata/uvbeam/uvbeam.py | 78 ++++++++++++++++++++---------------
 src/pyuvdata/uvcal/uvcal.py   | 60 ++++++++++++++-------------
 src/pyuvdata/uvdata/uvdata.py | 34 +++++++--------
 4 files changed, 144 insertions(+), 79 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index 67b83c6..02c4b3d 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -310,6 +310,57 @@ def _check_range_overlap(val_range, range_type="time"):
             return True
 
 
+def _get_matching_inds(arr1, arr2):
+    """Get the indices of the values that are in both of two arrays.
+
+    Parameters
+    ----------
+    arr1, arr2 : array_like
+        1D arrays to find common values in, the values in each must be unique.
+
+    Returns
+    -------
+    inds1, inds2 : ndarray of int
+        Indices of the common values in arr1 (in increasing order) and indices of
+        the same values in arr2, so that `arr1[inds1]` is equal to `arr2[inds2]`.
+
+    """
+    _, inds1, inds2 = np.intersect1d(arr1, arr2, return_indices=True)
+    order = np.argsort(inds1)
+    return inds1[order], inds2[order]
+
+
+def _get_matching_freq_inds(freqs1, spws1, freqs2, spws2):
+    """Get the indices of the channels that are in both of two objects.
+
+    Channels match if they have the same frequency and are in the same spectral window.
+
+    Parameters
+    ----------
+    freqs1, freqs2 : array_like of float
+        Frequencies of the channels.
+    spws1, spws2 : array_like of int
+        Spectral window numbers of the channels.
+
+    Returns
+    -------
+    inds1, inds2 : ndarray of int
+        Indices of the common channels in the first object (in increasing order) and
+        the indices of the same channels in the second one.
+
+    """
+    inds1 = np.array([], dtype=int)
+    inds2 = np.array([], dtype=int)
+    for spw in np.intersect1d(spws1, spws2):
+        mask1 = np.nonzero(spws1 == spw)[0]
+        mask2 = np.nonzero(spws2 == spw)[0]
+        spw_inds1, spw_inds2 = _get_matching_inds(freqs1[mask1], freqs2[mask2])
+        inds1 = np.append(inds1, mask1[spw_inds1])
+        inds2 = np.append(inds2, mask2[spw_inds2])
+    order = np.argsort(inds1)
+    return inds1[order], inds2[order]
+
+
 def _sorted_unique_union(obj1, obj2=None):
     """
     Determine the union of unique elements from two lists.
diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 3bf4022..37bdadc 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2759,9 +2759,9 @@ class UVBeam(UVBase):
         # Now populate the data
         if this.beam_type == "power":
             this.Npols = this.polarization_array.shape[0]
-            pol_t2o = np.nonzero(
-                np.isin(this.polarization_array, other.polarization_array)
-            )[0]
+            pol_t2o, pol_o2t = utils.tools._get_matching_inds(
+                this.polarization_array, other.polarization_array
+            )
 
             if len(pnew_inds) > 0:
                 # if this does not have cross pols but other does promote to complex
@@ -2777,55 +2777,67 @@ class UVBeam(UVBase):
                     this.data_array = np.asarray(this.data_array, dtype=dtype_use)
         else:
             this.Nfeeds = this.feed_array.shape[0]
-            pol_t2o = np.nonzero(np.isin(this.feed_array, other.feed_array))[0]
+            pol_t2o, pol_o2t = utils.tools._get_matching_inds(
+                this.feed_array, other.feed_array
+            )
 
-        freq_t2o = np.nonzero(np.isin(this.freq_array, other.freq_array))[0]
+        freq_t2o, freq_o2t = utils.tools._get_matching_inds(
+            this.freq_array, other.freq_array
+        )
+        vec_inds = np.arange(this.Naxes_vec)
 
         if this.pixel_coordinate_system == "healpix":
             this.Npixels = this.pixel_array.shape[0]
-            pix_t2o = np.nonzero(np.isin(this.pixel_array, other.pixel_array))[0]
-            this.data_array[
-                np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, pix_t2o)
-            ] = other.data_array
+            pix_t2o, pix_o2t = utils.tools._get_matching_inds(
+                this.pixel_array, other.pixel_array
+            )
+            this.data_array[np.ix_(vec_inds, pol_t2o, freq_t2o, pix_t2o)] = (
+                other.data_array[np.ix_(vec_inds, pol_o2t, freq_o2t, pix_o2t)]
+            )
             if this.beam_type == "efield":
-                this.basis_vector_array[
-                    np.ix_(np.arange(this.Naxes_vec), np.arange(2), pix_t2o)
-                ] = other.basis_vector_array
+                this.basis_vector_array[..., pix_t2o] = other.basis_vector_array[
+                    ..., pix_o2t
+                ]
         else:
             this.Naxes1 = this.axis1_array.shape[0]
             this.Naxes2 = this.axis2_array.shape[0]
-            ax1_t2o = np.nonzero(np.isin(this.axis1_array, other.axis1_array))[0]
-            ax2_t2o = np.nonzero(np.isin(this.axis2_array, other.axis2_array))[0]
-            this.data_array[
-                np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, ax2_t2o, ax1_t2o)
-            ] = other.data_array
+            ax1_t2o, ax1_o2t = utils.tools._get_matching_inds(
+                this.axis1_array, other.axis1_array
+            )
+            ax2_t2o, ax2_o2t = utils.tools._get_matching_inds(
+                this.axis2_array, other.axis2_array
+            )
+            this.data_array[np.ix_(vec_inds, pol_t2o, freq_t2o, ax2_t2o, ax1_t2o)] = (
+                other.data_array[
+                    np.ix_(vec_inds, pol_o2t, freq_o2t, ax2_o2t, ax1_o2t)
+                ]
+            )
             if this.beam_type == "efield":
                 this.basis_vector_array[
-                    np.ix_(np.arange(this.Naxes_vec), np.arange(2), ax2_t2o, ax1_t2o)
-                ] = other.basis_vector_array
+                    np.ix_(vec_inds, np.arange(2), ax2_t2o, ax1_t2o)
+                ] = other.basis_vector_array[
+                    np.ix_(vec_inds, np.arange(2), ax2_o2t, ax1_o2t)
+                ]
 
-        this.bandpass_array[np.ix_(freq_t2o)] = other.bandpass_array
+        this.bandpass_array[freq_t2o] = other.bandpass_array[freq_o2t]
         if this.receiver_temperature_array is not None:
-            this.receiver_temperature_array[np.ix_(freq_t2o)] = (
-                other.receiver_temperature_array
+            this.receiver_temperature_array[freq_t2o] = (
+                other.receiver_temperature_array[freq_o2t]
             )
         if this.loss_array is not None:
-            this.loss_array[np.ix_(freq_t2o)] = other.loss_array
+            this.loss_array[freq_t2o] = other.loss_array[freq_o2t]
         if this.mismatch_array is not None:
-            this.mismatch_array[np.ix_(freq_t2o)] = other.mismatch_array
+            this.mismatch_array[freq_t2o] = other.mismatch_array[freq_o2t]
         if this.s_parameters is not None:
-            this.s_parameters[np.ix_(np.arange(4), freq_t2o)] = other.s_parameters
+            this.s_parameters[:, freq_t2o] = other.s_parameters[:, freq_o2t]
 
         if this.antenna_type == "phased_array":
+            el_inds = np.arange(this.Nelements)
             this.coupling_matrix[
-                np.ix_(
-                    np.arange(this.Nelements),
-                    np.arange(this.Nelements),
-                    pol_t2o,
-                    pol_t2o,
-                    freq_t2o,
-                )
-            ] = other.coupling_matrix
+                np.ix_(el_inds, el_inds, pol_t2o, pol_t2o, freq_t2o)
+            ] = other.coupling_matrix[
+                np.ix_(el_inds, el_inds, pol_o2t, pol_o2t, freq_o2t)
+            ]
 
         this.Nfreqs = this.freq_array.size
 
diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index d34401f..6069e57 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3231,47 +3231,49 @@ class UVCal(UVBase):
 
         # Now populate the data
         if not self.metadata_only:
-            jones_t2o = np.nonzero(np.isin(this.jones_array, other.jones_array))[0]
+            # the order along the axes can be different on other
+            jones_t2o, jones_o2t = utils.tools._get_matching_inds(
+                this.jones_array, other.jones_array
+            )
             if this.time_range is not None:
-                times_t2o = np.nonzero(
-                    (np.isin(this.time_range[:, 0], other.time_range[:, 0]))
-                    & (np.isin(this.time_range[:, 1], other.time_range[:, 1]))
-                )[0]
+                times_t2o, times_o2t = utils.tools._get_matching_inds(
+                    this.time_range[:, 0], other.time_range[:, 0]
+                )
             else:
-                times_t2o = np.nonzero(np.isin(this.time_array, other.time_array))[0]
+                times_t2o, times_o2t = utils.tools._get_matching_inds(
+                    this.time_array, other.time_array
+                )
 
             if self.wide_band:
-                freqs_t2o = np.nonzero(np.isin(this.spw_array, other.spw_array))[0]
-            else:
-                freqs_t2o = np.zeros(this.freq_array.shape, dtype=bool)
-                for spw_id in set(this.spw_array).intersection(other.spw_array):
-                    mask = this.flex_spw_id_array == spw_id
-                    freqs_t2o[mask] |= np.isin(
-                        this.freq_array[mask],
-                        other.freq_array[other.flex_spw_id_array == spw_id],
-                    )
-                freqs_t2o = np.nonzero(freqs_t2o)[0]
-            ants_t2o = np.nonzero(np.isin(this.ant_array, other.ant_array))[0]
-            if this.cal_type == "delay":
-                this.delay_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
-                    other.delay_array
+                freqs_t2o, freqs_o2t = utils.tools._get_matching_inds(
+                    this.spw_array, other.spw_array
                 )
             else:
-                this.gain_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
-                    other.gain_array
+                freqs_t2o, freqs_o2t = utils.tools._get_matching_freq_inds(
+                    this.freq_array,
+                    this.flex_spw_id_array,
+                    other.freq_array,
+                    other.flex_spw_id_array,
                 )
-            if other.quality_array is not None:
-                this.quality_array[
-                    np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)
-                ] = other.quality_array
-            this.flag_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
-                other.flag_array
+            ants_t2o, ants_o2t = utils.tools._get_matching_inds(
+                this.ant_array, other.ant_array
             )
+            this_inds = np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)
+            other_inds = np.ix_(ants_o2t, freqs_o2t, times_o2t, jones_o2t)
+            if this.cal_type == "delay":
+                this.delay_array[this_inds] = other.delay_array[other_inds]
+            else:
+                this.gain_array[this_inds] = other.gain_array[other_inds]
+            if other.quality_array is not None:
+                this.quality_array[this_inds] = other.quality_array[other_inds]
+            this.flag_array[this_inds] = other.flag_array[other_inds]
             if this.total_quality_array is not None:
                 if other.total_quality_array is not None:
                     this.total_quality_array[
                         np.ix_(freqs_t2o, times_t2o, jones_t2o)
-                    ] = other.total_quality_array
+                    ] = other.total_quality_array[
+                        np.ix_(freqs_o2t, times_o2t, jones_o2t)
+                    ]
 
             # Fix ordering
             ant_axis_num = 0
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 59072d2..70aa263 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5568,6 +5568,7 @@ class UVData(UVBase):
                 ]
 
                 this.reorder_blts(order=temp_ind)
+                this_blts = this_blts[temp_ind]
 
         if len(this_freq_ind) != 0:
             this_argsort = np.argsort(this_freq_ind)
@@ -5715,25 +5716,24 @@ class UVData(UVBase):
                 ).astype(np.bool_)
 
         # Now populate the data
-        pol_t2o = np.nonzero(
-            np.isin(this.polarization_array, other.polarization_array)
-        )[0]
-        this_freqs = this.freq_array
-        other_freqs = other.freq_array
-
-        freq_t2o = np.zeros(this_freqs.shape, dtype=bool)
-        for spw_id in set(this.spw_array).intersection(other.spw_array):
-            mask = this.flex_spw_id_array == spw_id
-            freq_t2o[mask] |= np.isin(
-                this_freqs[mask], other_freqs[other.flex_spw_id_array == spw_id]
-            )
-        freq_t2o = np.nonzero(freq_t2o)[0]
-        blt_t2o = np.nonzero(np.isin(this_blts, other_blts))[0]
+        pol_t2o, pol_o2t = utils.tools._get_matching_inds(
+            this.polarization_array, other.polarization_array
+        )
+        freq_t2o, freq_o2t = utils.tools._get_matching_freq_inds(
+            this.freq_array,
+            this.flex_spw_id_array,
+            other.freq_array,
+            other.flex_spw_id_array,
+        )
+        blt_t2o, blt_o2t = utils.tools._get_matching_inds(this_blts, other_blts)
 
         if not self.metadata_only:
-            this.data_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.data_array
-            this.nsample_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.nsample_array
-            this.flag_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.flag_array
+            # the order along the axes can be different on other
+            this_inds = np.ix_(blt_t2o, freq_t2o, pol_t2o)
+            other_inds = np.ix_(blt_o2t, freq_o2t, pol_o2t)
+            this.data_array[this_inds] = other.data_array[other_inds]
+            this.nsample_array[this_inds] = other.nsample_array[other_inds]
+            this.flag_array[this_inds] = other.flag_array[other_inds]
 
             # Fix ordering
             axis_dict = {
-- 
2.43.0


From e6f07f7079b4464cf5712316f74ff64097b7b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 33/83] fix: keep the scan numbers when combining UVData
 objects along the baseline-time axis

---
 src/pyuvdata/uvdata/uvdata.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 70aa263..3f6bc54 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5639,6 +5639,12 @@ class UVData(UVBase):
             this.phase_center_id_array = np.concatenate(
                 [this.phase_center_id_array, other.phase_center_id_array[bnew_inds]]
             )[blt_order]
+            if this.scan_number_array is None or other.scan_number_array is None:
+                this.scan_number_array = None
+            else:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array, other.scan_number_array[bnew_inds]]
+                )[blt_order]
 
         f_order = None
         if len(fnew_inds) > 0:
@@ -6195,6 +6201,12 @@ class UVData(UVBase):
                 [this.phase_center_id_array]
                 + [obj.phase_center_id_array for obj in other]
             )
+            if any(obj.scan_number_array is None for obj in [this] + other):
+                this.scan_number_array = None
+            else:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array] + [obj.scan_number_array for obj in other]
+                )
             if not self.metadata_only:
                 this.data_array = np.concatenate(
                     [this.data_array] + [obj.data_array for obj in other], axis=0
-- 
2.43.0


From 29c7f4cebe747112f913351ae7baa116dab552e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 34/83] fix: keep the equalization coefficients when combining
 UVData objects along the frequency axis

---
 src/pyuvdata/uvdata/uvdata.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 3f6bc54..22e3807 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5654,6 +5654,12 @@ class UVData(UVBase):
             this.channel_width = np.concatenate(
                 [this.channel_width, other.channel_width[fnew_inds]]
             )
+            if this.eq_coeffs is None or other.eq_coeffs is None:
+                this.eq_coeffs = None
+            else:
+                this.eq_coeffs = np.concatenate(
+                    [this.eq_coeffs, other.eq_coeffs[:, fnew_inds]], axis=1
+                )
 
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array, other.flex_spw_id_array[fnew_inds]]
@@ -5760,6 +5766,8 @@ class UVData(UVBase):
             this.freq_array = this.freq_array[f_order]
             this.channel_width = this.channel_width[f_order]
             this.flex_spw_id_array = this.flex_spw_id_array[f_order]
+            if this.eq_coeffs is not None:
+                this.eq_coeffs = this.eq_coeffs[:, f_order]
 
         if len(pnew_inds) > 0:
             this.polarization_array = this.polarization_array[p_order]
@@ -6100,6 +6108,12 @@ class UVData(UVBase):
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array] + [obj.flex_spw_id_array for obj in other]
             )
+            if any(obj.eq_coeffs is None for obj in [this] + other):
+                this.eq_coeffs = None
+            else:
+                this.eq_coeffs = np.concatenate(
+                    [this.eq_coeffs] + [obj.eq_coeffs for obj in other], axis=1
+                )
             this.spw_array = np.concatenate(
                 [this.spw_array] + [obj.spw_array for obj in other]
             )
-- 
2.43.0


From 9b63680a8c608161a3c30e299882dd291a3abecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 35/83] fix: keep the polarizations of the windows in
 UVData.fast_concat along frequency

---
 src/pyuvdata/uvdata/uvdata.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 22e3807..f7a1089 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6097,6 +6097,29 @@ class UVData(UVBase):
                     )
                     raise ValueError(msg)
 
+        flexpol_dict = None
+        if axis == "freq":
+            n_flexpol = sum(
+                obj.flex_spw_polarization_array is not None for obj in [this] + other
+            )
+            if n_flexpol not in [0, 1 + len(other)]:
+                raise ValueError(
+                    "Cannot combine flex-pol and non-flex-pol UVData objects. Use "
+                    "the `remove_flex_pol` method to convert the objects to "
+                    "have a regular polarization axis."
+                )
+            elif n_flexpol > 0:
+                flexpol_dict = {}
+                for obj in [this] + other:
+                    for spw, pol in zip(obj.spw_array, obj.flex_spw_polarization_array):
+                        if flexpol_dict.setdefault(spw, pol) != pol:
+                            raise ValueError(
+                                "Cannot combine flex-pol UVData objects where the same "
+                                "spectral window contains different polarizations. Use "
+                                "the `remove_flex_pol` method to convert the objects "
+                                "to have a regular polarization axis."
+                            )
+
         if axis == "freq":
             this.Nfreqs = sum([this.Nfreqs] + [obj.Nfreqs for obj in other])
             this.freq_array = np.concatenate(
@@ -6126,6 +6149,11 @@ class UVData(UVBase):
 
             this.Nspws = len(this.spw_array)
 
+            if flexpol_dict is not None:
+                this.flex_spw_polarization_array = np.array(
+                    [flexpol_dict[spw] for spw in this.spw_array]
+                )
+
             spacing_error, chanwidth_error = this._check_freq_spacing(
                 raise_errors=False
             )
-- 
2.43.0


From a8d7b4e0f3347d80680db381a8043d946ef9ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:30 +0000
Subject: [PATCH 36/83] fix: leave the history alone when fast_concat refuses

---
 src/pyuvdata/uvcal/uvcal.py   | 29 +++++++++++++++--------------
 src/pyuvdata/uvdata/uvdata.py | 30 +++++++++++++++---------------
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 6069e57..c5a10ae 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3641,20 +3641,6 @@ class UVCal(UVBase):
                 utils.history._check_histories(this.history, obj.history)
             )
 
-        this.history += history_update_string
-        for obj_num, obj in enumerate(other):
-            if not histories_match[obj_num]:
-                if verbose_history:
-                    this.history += " Next object history follows. " + obj.history
-                else:
-                    extra_history = utils.history._combine_history_addition(
-                        this.history, obj.history
-                    )
-                    if extra_history is not None:
-                        this.history += (
-                            " Unique part of next object history follows. "
-                            + extra_history
-                        )
         # Actually check compatibility parameters
         for obj in other:
             for a in compatibility_params:
@@ -3673,6 +3659,21 @@ class UVCal(UVBase):
                     msg = "UVParameter " + a[1:] + " does not match. Combining anyway."
                     warnings.warn(msg)
 
+        this.history += history_update_string
+        for obj_num, obj in enumerate(other):
+            if not histories_match[obj_num]:
+                if verbose_history:
+                    this.history += " Next object history follows. " + obj.history
+                else:
+                    extra_history = utils.history._combine_history_addition(
+                        this.history, obj.history
+                    )
+                    if extra_history is not None:
+                        this.history += (
+                            " Unique part of next object history follows. "
+                            + extra_history
+                        )
+
         # update the phase_center_catalog to make them consistent across objects
         # Doing this as a binary tree merge
         # The left object in each loop will have its phase center IDs updated.
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index f7a1089..5dc05cb 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6070,21 +6070,6 @@ class UVData(UVBase):
                 utils.history._check_histories(this.history, obj.history)
             )
 
-        this.history += history_update_string
-        for obj_num, obj in enumerate(other):
-            if not histories_match[obj_num]:
-                if verbose_history:
-                    this.history += " Next object history follows. " + obj.history
-                else:
-                    extra_history = utils.history._combine_history_addition(
-                        this.history, obj.history
-                    )
-                    if extra_history is not None:
-                        this.history += (
-                            " Unique part of next object history follows. "
-                            + extra_history
-                        )
-
         # Actually check compatibility parameters
         for obj in other:
             for a in compatibility_params:
@@ -6120,6 +6105,21 @@ class UVData(UVBase):
                                 "to have a regular polarization axis."
                             )
 
+        this.history += history_update_string
+        for obj_num, obj in enumerate(other):
+            if not histories_match[obj_num]:
+                if verbose_history:
+                    this.history += " Next object history follows. " + obj.history
+                else:
+                    extra_history = utils.history._combine_history_addition(
+                        this.history, obj.history
+                    )
+                    if extra_history is not None:
+                        this.history += (
+                            " Unique part of next object history follows. "
+                            + extra_history
+                        )
+
         if axis == "freq":
             this.Nfreqs = sum([this.Nfreqs] + [obj.Nfreqs for obj in other])
             this.freq_array = np.concatenate(
-- 
2.43.0


From 450b4ef40eb2fab96d5ad3dfb3ce8a65ebd93997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:30 +0000
Subject: [PATCH 37/83] fix: keep the scan numbers when combining UVCal objects
 or reordering times

---
 src/pyuvdata/uvcal/uvcal.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index c5a10ae..eb32756 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2368,6 +2368,8 @@ class UVCal(UVBase):
             self.phase_center_id_array = self.phase_center_id_array[index_array]
         if self.ref_antenna_array is not None:
             self.ref_antenna_array = self.ref_antenna_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
         self.integration_time = self.integration_time[index_array]
         for param_name in self._data_params:
             param = getattr(self, param_name)
@@ -3111,6 +3113,12 @@ class UVCal(UVBase):
                 this.ref_antenna_array = np.concatenate(
                     [this.ref_antenna_array, other.ref_antenna_array[tnew_inds]]
                 )
+            if this.scan_number_array is None or other.scan_number_array is None:
+                this.scan_number_array = None
+            else:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array, other.scan_number_array[tnew_inds]]
+                )
             if this.time_range is not None:
                 t_order = np.argsort(this.time_range[:, 0])
             else:
@@ -3330,6 +3338,8 @@ class UVCal(UVBase):
                 this.phase_center_id_array = this.phase_center_id_array[t_order]
             if self.ref_antenna_array is not None:
                 this.ref_antenna_array = this.ref_antenna_array[t_order]
+            if this.scan_number_array is not None:
+                this.scan_number_array = this.scan_number_array[t_order]
         if len(jnew_inds) > 0:
             this.jones_array = this.jones_array[j_order]
 
@@ -3801,6 +3811,12 @@ class UVCal(UVBase):
                     [this.ref_antenna_array] + [obj.ref_antenna_array for obj in other],
                     axis=0,
                 )
+            if any(obj.scan_number_array is None for obj in [this] + other):
+                this.scan_number_array = None
+            else:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array] + [obj.scan_number_array for obj in other]
+                )
             axis_num = 2
         elif axis == "jones":
             this.Njones = sum([this.Njones] + [obj.Njones for obj in other])
-- 
2.43.0


From 407133f5b74eff66632f9146d6a244d59bfcde4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:30 +0000
Subject: [PATCH 38/83] fix: keep flex_jones_array in step with the windows
 when combining UVCal objects

---
 src/pyuvdata/uvcal/uvcal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index eb32756..e74fa02 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3014,12 +3014,12 @@ class UVCal(UVBase):
 
                 # We want to preserve per-spw information based on first appearance
                 # in the concatenated array.
+                concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                 unique_index = np.sort(
                     np.unique(this.flex_spw_id_array, return_index=True)[1]
                 )
                 this.spw_array = np.sort(this.flex_spw_id_array[unique_index])
                 if this.flex_jones_array is not None:
-                    concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                     spw_index = np.asarray(
                         [
                             np.nonzero(concat_spw_array == spw)[0][0]
@@ -3320,6 +3320,8 @@ class UVCal(UVBase):
             if this.wide_band:
                 this.spw_array = this.spw_array[f_order]
                 this.freq_range = this.freq_range[f_order]
+                if this.flex_jones_array is not None:
+                    this.flex_jones_array = this.flex_jones_array[f_order]
             else:
                 this.freq_array = this.freq_array[f_order]
                 this.channel_width = this.channel_width[f_order]
@@ -3725,15 +3727,15 @@ class UVCal(UVBase):
             )
             # We want to preserve per-spw information based on first appearance
             # in the concatenated array.
+            concat_spw_array = np.concatenate(
+                [this.spw_array] + [obj.spw_array for obj in other]
+            )
             unique_index = np.sort(
                 np.unique(this.flex_spw_id_array, return_index=True)[1]
             )
             this.spw_array = this.flex_spw_id_array[unique_index]
             this.Nspws = this.spw_array.size
             if this.flex_jones_array is not None:
-                concat_spw_array = np.concatenate(
-                    [this.spw_array] + [obj.spw_array for obj in other]
-                )
                 spw_index = np.asarray(
                     [
                         np.nonzero(concat_spw_array == spw)[0][0]
-- 
2.43.0


From 2962a1f81cbdaa3ae339934c3c0d6ad9b90893cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:30 +0000
Subject: [PATCH 39/83] fix: use consistent phase center ids for all objects in
 UVCal.fast_concat

---
 src/pyuvdata/uvcal/uvcal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index e74fa02..11dfc8c 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3697,6 +3697,14 @@ class UVCal(UVBase):
                         other=uv2, ignore_name=ignore_name
                     )
                 uv_list = uv_list[0::2]
+            # Because self was at the beginning of the list,
+            # all the phase centers are merged into it at the end of this loop
+            # The IDs on the other objects may still differ from those on this object,
+            # as they were not all compared to each other in the loop above.
+            for obj in other:
+                obj._consolidate_phase_center_catalogs(
+                    reference_catalog=this.phase_center_catalog, ignore_name=ignore_name
+                )
 
         total_quality_exists = [this.total_quality_array is not None] + [
             obj.total_quality_array is not None for obj in other
-- 
2.43.0


From 0df0eac4b06a7bcf69d87896b49b5e8d295bc99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:43 +0000
Subject: [PATCH 40/83] fix: keep the scan numbers when reordering UVData
 baseline-times or inflating by redundancy

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 5dc05cb..e3e6f7a 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4047,6 +4047,8 @@ class UVData(UVBase):
         self.phase_center_app_dec = self.phase_center_app_dec[index_array]
         self.phase_center_frame_pa = self.phase_center_frame_pa[index_array]
         self.phase_center_id_array = self.phase_center_id_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
 
         if not self.metadata_only:
             self.data_array = self.data_array[index_array]
@@ -9040,6 +9042,8 @@ class UVData(UVBase):
         self.phase_center_app_dec = self.phase_center_app_dec[blt_map]
         self.phase_center_frame_pa = self.phase_center_frame_pa[blt_map]
         self.phase_center_id_array = self.phase_center_id_array[blt_map]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[blt_map]
 
         self.reorder_blts(order=blt_order, minor_order=blt_minor_order)
 
-- 
2.43.0


From 336008c93ba9495c21325fef19d924ba42ce3a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:33 +0000
Subject: [PATCH 41/83] fix: report failures of the background LST calculation

An exception in the thread that calculates the LSTs was only printed, so that
reading with run_check=False returned objects without LSTs.
---
 src/pyuvdata/utils/tools.py   | 20 ++++++++++++++++++++
 src/pyuvdata/uvcal/uvcal.py   |  3 +--
 src/pyuvdata/uvdata/uvdata.py |  3 +--
 src/pyuvdata/uvflag/uvflag.py |  3 +--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index 02c4b3d..e1e2ba9 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -4,12 +4,32 @@
 """Basic utility functions."""
 from __future__ import annotations
 
+import threading
 from collections.abc import Iterable
 from typing import Iterable as IterableType
 
 import numpy as np
 
 
+class _ReraisingThread(threading.Thread):
+    """A thread that raises the exception its target raised, if any, when joined."""
+
+    _exception = None
+
+    def run(self):
+        """Run the target, keeping the exception if it raises one."""
+        try:
+            super().run()
+        except BaseException as err:
+            self._exception = err
+
+    def join(self, timeout=None):
+        """Wait for the thread, raise the exception of the target if there was one."""
+        super().join(timeout)
+        if self._exception is not None:
+            raise self._exception
+
+
 def _get_iterable(x):
     """Return iterable version of input."""
     if isinstance(x, Iterable):
diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 11dfc8c..015306d 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -5,7 +5,6 @@
 
 import copy
 import os
-import threading
 import warnings
 
 import numpy as np
@@ -1166,7 +1165,7 @@ class UVCal(UVBase):
             self._set_lsts_helper(astrometry_library=astrometry_library)
             return
         else:
-            proc = threading.Thread(
+            proc = utils.tools._ReraisingThread(
                 target=self._set_lsts_helper,
                 kwargs={"astrometry_library": astrometry_library},
             )
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e3e6f7a..6558862 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7,7 +7,6 @@ from __future__ import annotations
 
 import copy
 import os
-import threading
 import warnings
 from collections.abc import Iterable
 from typing import Literal
@@ -1638,7 +1637,7 @@ class UVData(UVBase):
             self._set_lsts_helper(astrometry_library=astrometry_library)
             return
         else:
-            proc = threading.Thread(
+            proc = utils.tools._ReraisingThread(
                 target=self._set_lsts_helper,
                 kwargs={"astrometry_library": astrometry_library},
             )
diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 0355ffa..13f44ec 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -7,7 +7,6 @@
 import copy
 import os
 import pathlib
-import threading
 import warnings
 
 import h5py
@@ -941,7 +940,7 @@ class UVFlag(UVBase):
             self._set_lsts_helper(astrometry_library=astrometry_library)
             return
         else:
-            proc = threading.Thread(
+            proc = utils.tools._ReraisingThread(
                 target=self._set_lsts_helper,
                 kwargs={"astrometry_library": astrometry_library},
             )
-- 
2.43.0


From 6fbffac7441650e8e970410e769bbe270bf32c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:51 +0000
Subject: [PATCH 42/83] fix: keep eq_coeffs in step with the frequency axis in
 flex-pol conversions of UVData

---
 src/pyuvdata/uvdata/uvdata.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 6558862..6187a7c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1735,6 +1735,7 @@ class UVData(UVBase):
             # key is first spw in a set, value is another dict with keys:
             #  - "freqs" sorted array of frequencies
             #  - "widths" channel widths sorted to match frequencies (using argsort)
+            #  - "eq_coeffs" eq_coeffs (if present) sorted to match frequencies
             #  - "spws" list of spws in this set
             #  - "pols" list of pols for the spws in this set
             spw_dict = {}
@@ -1749,10 +1750,15 @@ class UVData(UVBase):
                 spw_inds = spw_inds[np.argsort(freq_array_use[spw_inds])]
                 this_freqs = freq_array_use[spw_inds]
                 this_widths = self.channel_width[spw_inds]
+                this_coeffs = None
+                if self.eq_coeffs is not None:
+                    this_coeffs = self.eq_coeffs[:, spw_inds]
                 match = False
                 for spw1, fset1 in spw_dict.items():
-                    if np.array_equal(fset1["freqs"], this_freqs) and np.array_equal(
-                        fset1["widths"], this_widths
+                    if (
+                        np.array_equal(fset1["freqs"], this_freqs)
+                        and np.array_equal(fset1["widths"], this_widths)
+                        and np.array_equal(fset1["eq_coeffs"], this_coeffs)
                     ):
                         if this_pol in spw_dict[spw1]["pols"]:
                             raise ValueError(
@@ -1772,6 +1778,7 @@ class UVData(UVBase):
                     spw_dict[this_spw] = {
                         "freqs": this_freqs,
                         "widths": this_widths,
+                        "eq_coeffs": this_coeffs,
                         "spws": [this_spw],
                         "pols": [this_pol],
                     }
@@ -1869,6 +1876,8 @@ class UVData(UVBase):
             # now things are in the correct order to do a simple reshape
             self.freq_array = freq_array_use[: self.Nfreqs]
             self.channel_width = self.channel_width[: self.Nfreqs]
+            if self.eq_coeffs is not None:
+                self.eq_coeffs = self.eq_coeffs[:, : self.Nfreqs]
 
             self.polarization_array = pol_array_check[
                 np.sort(np.unique(pol_array_check, return_index=True)[1])
@@ -2077,6 +2086,8 @@ class UVData(UVBase):
         freq_array_use = self.freq_array
         self.freq_array = np.tile(freq_array_use, self.Npols)
         self.channel_width = np.tile(self.channel_width, self.Npols)
+        if self.eq_coeffs is not None:
+            self.eq_coeffs = np.tile(self.eq_coeffs, (1, self.Npols))
         if not self.metadata_only:
             # we use the order="F" parameter here to ensure that polarization is the
             # slowest changing axis
-- 
2.43.0


From da763e0c01536097c511311a945a53eabca833cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:51 +0000
Subject: [PATCH 43/83] fix: look up polarization names with the current
 x_orientation in UVData accessors

---
 src/pyuvdata/uvdata/uvdata.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 6187a7c..ad84ee5 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2733,8 +2733,11 @@ class UVData(UVBase):
         if not isinstance(key, str):
             key = tuple(key)
 
-        if key in self.__key2ind_cache:
-            return self.__key2ind_cache[key]
+        # the meaning of polarization strings depends on the x_orientation
+        x_orientation = self.telescope.x_orientation
+
+        if (key, x_orientation) in self.__key2ind_cache:
+            return self.__key2ind_cache[(key, x_orientation)]
 
         if isinstance(key, str):
             # Single string given, assume it is polarization
@@ -2842,7 +2845,7 @@ class UVData(UVBase):
         # Convert to slices if possible
         pol_ind = (utils.tools.slicify(pol_ind[0]), utils.tools.slicify(pol_ind[1]))
 
-        self.__key2ind_cache[key] = (blt_ind1, blt_ind2, pol_ind)
+        self.__key2ind_cache[(key, x_orientation)] = (blt_ind1, blt_ind2, pol_ind)
         return (blt_ind1, blt_ind2, pol_ind)
 
     def _smart_slicing(
-- 
2.43.0


From 1a07c0ba720302569e6afab1a09f0950f164e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:51 +0000
Subject: [PATCH 44/83] fix: update the row order and rectangularity of UVData
 when baselines are conjugated

---
 src/pyuvdata/uvdata/uvdata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index ad84ee5..e8b0fb6 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3721,6 +3721,12 @@ class UVData(UVBase):
             self.Nbls = np.unique(self.baseline_array).size
             self._clear_antpair2ind_cache(self)
 
+            # the ordering and the rectangularity depend on the baselines
+            if self.blt_order is not None and set(self.blt_order) - {"time", "bda"}:
+                self.blt_order = None
+            if self.blts_are_rectangular is not None:
+                self.set_rectangularity(force=True)
+
     def reorder_pols(
         self,
         order="AIPS",
-- 
2.43.0


From c1bdfde7358ab5ca210671d5b27c940bca53366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:51 +0000
Subject: [PATCH 45/83] fix: do not derive the rectangularity of UVData from
 blt_order alone

---
 src/pyuvdata/uvdata/uvdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e8b0fb6..8c5b6ec 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3822,12 +3822,13 @@ class UVData(UVBase):
         if self.blts_are_rectangular is not None and not force:
             return
 
+        # blt_order is not enough to know the rectangularity: it may only hold within
+        # the autos and within the crosses (see the autos_first option to reorder_blts).
         rect, time = utils.bltaxis.determine_rectangularity(
             time_array=self.time_array,
             baseline_array=self.baseline_array,
             nbls=self.Nbls,
             ntimes=self.Ntimes,
-            blt_order=self.blt_order,
         )
         self.blts_are_rectangular = rect
         self.time_axis_faster_than_bls = time
-- 
2.43.0


From 971be98e0f2e19313d34f669bccf8036e50219f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:05 +0000
Subject: [PATCH 46/83] fix: do not let the Miriad library end the process for
 time ranges without width

---
 src/pyuvdata/uvdata/miriad.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index c650bb5..3e2a3de 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -905,6 +905,15 @@ class Miriad(UVData):
 
             # close the list of baselines, which are combined with "or"
             uv.select("and", -1, -1)
+            # The Miriad library ends the process if the range is empty or has no width
+            if time_range_use[0] > time_range_use[1]:
+                raise ValueError(
+                    f"No elements in time range between {time_range[0]} and "
+                    f"{time_range[1]}."
+                )
+            if time_range_use[0] == time_range_use[1]:
+                time_range_use = np.nextafter(time_range_use, [-np.inf, np.inf])
+
             uv.select("time", time_range_use[0], time_range_use[1], include=True)
             if n_selects > 0:
                 history_update_string += ", times"
-- 
2.43.0


From 88dd0ed6e68a88c9bb96fdefd57d201fd2f05aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:05 +0000
Subject: [PATCH 47/83] fix: select overlapping LST ranges correctly when they
 wrap around zero

---
 src/pyuvdata/utils/times.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/times.py b/src/pyuvdata/utils/times.py
index b5d6d39..bd7172b 100644
--- a/src/pyuvdata/utils/times.py
+++ b/src/pyuvdata/utils/times.py
@@ -321,6 +321,13 @@ def check_lsts_against_times(
         )
 
 
+def _in_lst_range(lst, lst_range):
+    """Check if an LST is in a range of LSTs that may wrap around LST = 2*pi = 0."""
+    if lst_range[0] <= lst_range[1]:
+        return lst_range[0] <= lst <= lst_range[1]
+    return lst >= lst_range[0] or lst <= lst_range[1]
+
+
 def _select_times_helper(
     *,
     times,
@@ -501,8 +508,10 @@ def _select_times_helper(
                     if _check_range_overlap(np.stack((lrange, lst_range), axis=0)):
                         time_inds = np.append(time_inds, lind)
                 else:
-                    if (lst_range[0] >= lrange[0] and lst_range[0] <= 2 * np.pi) or (
-                        lst_range[1] <= lrange[1] and lst_range[1] >= 0
+                    # at least one of the ranges wraps around LST = 2*pi = 0. They
+                    # overlap if one of them starts inside of the other.
+                    if _in_lst_range(lst_range[0], lrange) or _in_lst_range(
+                        lrange[0], lst_range
                     ):
                         time_inds = np.append(time_inds, lind)
             attr_str = "lst_range"
-- 
2.43.0


From 93489fa53fbf2a1df5c48becd5a2c9d59e61ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:15 +0000
Subject: [PATCH 48/83] fix: fast_concat does not change the phase centers of
 the objects that are passed in

---
 src/pyuvdata/uvcal/uvcal.py   | 15 +++++++++++++++
 src/pyuvdata/uvdata/uvdata.py | 10 ++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 015306d..bec13b2 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3689,6 +3689,21 @@ class UVCal(UVBase):
         # Doing this as a binary tree merge
         # The left object in each loop will have its phase center IDs updated.
         if this.phase_center_catalog is not None:
+            # The phase centers of the objects are renumbered below, which must not
+            # change the objects that were passed in. The data-like arrays are only
+            # read, so they do not need to be copied.
+            other = [
+                copy.deepcopy(
+                    obj,
+                    {
+                        id(arr): arr
+                        for arr in obj.data_like_parameters
+                        if arr is not None
+                    },
+                )
+                for obj in other
+            ]
+
             uv_list = [this] + other
             while len(uv_list) > 1:
                 for uv1, uv2 in zip(uv_list[0::2], uv_list[1::2]):
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8c5b6ec..e1743b6 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6029,6 +6029,16 @@ class UVData(UVBase):
                 strict_uvw_antpos_check=strict_uvw_antpos_check,
             )
 
+        # The phase centers of the objects are renumbered below, which must not change
+        # the objects that were passed in. The data-like arrays are only read, so they
+        # do not need to be copied.
+        other = [
+            copy.deepcopy(
+                obj, {id(arr): arr for arr in obj.data_like_parameters if arr is not None}
+            )
+            for obj in other
+        ]
+
         # update the phase_center_catalog to make them consistent across objects
         # Doing this as a binary tree merge
         # The left object in each loop will have its phase center IDs updated.
-- 
2.43.0


From 9ae9e4cd8d738d63f6fda44d19830d772d4545a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:15 +0000
Subject: [PATCH 49/83] fix: UVCal.initialize_from_uvdata does not share arrays
 with the UVData object

---
 src/pyuvdata/uvcal/initializers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index 338b4f6..2df9002 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -5,6 +5,7 @@
 """From-memory initializers for UVCal objects."""
 from __future__ import annotations
 
+import copy
 import warnings
 from typing import Literal
 
@@ -468,10 +469,13 @@ def new_uvcal_from_uvdata(
             freq_array = kwargs.pop("freq_array", None)
             flex_spw_id_array = kwargs.pop("flex_spw_id_array", None)
         else:
-            freq_array = uvdata.freq_array
-            channel_width = uvdata.channel_width
-            flex_spw_id_array = getattr(
-                uvdata, "flex_spw_id_array", kwargs.get("flex_spw_id_array", None)
+            # copy these so that the new object does not share arrays with uvdata
+            freq_array = copy.deepcopy(uvdata.freq_array)
+            channel_width = copy.deepcopy(uvdata.channel_width)
+            flex_spw_id_array = copy.deepcopy(
+                getattr(
+                    uvdata, "flex_spw_id_array", kwargs.get("flex_spw_id_array", None)
+                )
             )
         freq_range = None
         if "freq_range" in kwargs:
-- 
2.43.0


From 862b2b40035ab16a7d908b0e16da4ab4af00f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:15 +0000
Subject: [PATCH 50/83] fix: UVFlag comparison without history does not change
 the objects

---
 src/pyuvdata/uvflag/uvflag.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 13f44ec..5d1c959 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -888,20 +888,13 @@ class UVFlag(UVBase):
 
         else:
             # initial check that the classes are the same
-            # then strip the histories
+            # then ignore the histories
             if isinstance(other, self.__class__):
-                _h1 = self.history
-                self.history = None
-
-                _h2 = other.history
-                other.history = None
-
-                truth = super(UVFlag, self).__eq__(other, check_extra=check_extra)
-
-                self.history = _h1
-                other.history = _h2
-
-                return truth
+                return super(UVFlag, self).__eq__(
+                    other,
+                    check_extra=check_extra,
+                    allowed_failures=("filename", "history"),
+                )
             else:
                 print("Classes do not match")
                 return False
-- 
2.43.0


From c419a7763e6f7b3aaeafa7c5032298bb46a0947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:26 +0000
Subject: [PATCH 51/83] fix: UVFlag objects do not share arrays with the
 objects they are made from or matched to

---
 src/pyuvdata/uvflag/uvflag.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 5d1c959..e920086 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1470,7 +1470,7 @@ class UVFlag(UVBase):
         # Deal with polarization
         if force_pol and self.polarization_array.size == 1:
             # Use single pol for all pols, regardless
-            self.polarization_array = uv.polarization_array
+            self.polarization_array = copy.deepcopy(uv.polarization_array)
             # Broadcast arrays
             if self.mode == "flag":
                 self.flag_array = self.flag_array.repeat(
@@ -1566,18 +1566,18 @@ class UVFlag(UVBase):
 
         if self.Nspws is None:
             self.Nspws = uv.Nspws
-            self.spw_array = uv.spw_array
+            self.spw_array = copy.deepcopy(uv.spw_array)
             if uv.flex_spw_id_array is not None:
-                self.flex_spw_id_array = uv.flex_spw_id_array
+                self.flex_spw_id_array = copy.deepcopy(uv.flex_spw_id_array)
 
-        self.baseline_array = uv.baseline_array
+        self.baseline_array = copy.deepcopy(uv.baseline_array)
         self.Nbls = np.unique(self.baseline_array).size
-        self.ant_1_array = uv.ant_1_array
-        self.ant_2_array = uv.ant_2_array
+        self.ant_1_array = copy.deepcopy(uv.ant_1_array)
+        self.ant_2_array = copy.deepcopy(uv.ant_2_array)
         self.Nants_data = int(np.union1d(self.ant_1_array, self.ant_2_array).size)
 
-        self.time_array = uv.time_array
-        self.lst_array = uv.lst_array
+        self.time_array = copy.deepcopy(uv.time_array)
+        self.lst_array = copy.deepcopy(uv.lst_array)
         self.Nblts = self.time_array.size
 
         for param in self.telescope:
@@ -1585,7 +1585,7 @@ class UVFlag(UVBase):
             uvd_param = getattr(uv.telescope, param)
             param_name = this_param.name
             if this_param.value is None and uvd_param.value is not None:
-                setattr(self.telescope, param_name, uvd_param.value)
+                setattr(self.telescope, param_name, copy.deepcopy(uvd_param.value))
 
         self._set_type_baseline()
         self.clear_unused_attributes()
@@ -1703,7 +1703,7 @@ class UVFlag(UVBase):
             polarr = uv.polarization_array
         if force_pol and self.polarization_array.size == 1:
             # Use single pol for all pols, regardless
-            self.polarization_array = polarr
+            self.polarization_array = copy.deepcopy(polarr)
             # Broadcast arrays
             if self.mode == "flag":
                 self.flag_array = self.flag_array.repeat(
@@ -1741,7 +1741,7 @@ class UVFlag(UVBase):
             ]
             self.metric_array = self.metric_array.repeat(len(uv.ant_array), axis=0)
             self.weights_array = self.weights_array.repeat(len(uv.ant_array), axis=0)
-        self.ant_array = uv.ant_array
+        self.ant_array = copy.deepcopy(uv.ant_array)
         self.Nants_data = len(uv.ant_array)
 
         for param in self.telescope:
@@ -1749,13 +1749,13 @@ class UVFlag(UVBase):
             uvd_param = getattr(uv.telescope, param)
             param_name = this_param.name
             if this_param.value is None and uvd_param.value is not None:
-                setattr(self.telescope, param_name, uvd_param.value)
+                setattr(self.telescope, param_name, copy.deepcopy(uvd_param.value))
 
         if self.Nspws is None:
             self.Nspws = uv.Nspws
-            self.spw_array = uv.spw_array
+            self.spw_array = copy.deepcopy(uv.spw_array)
             if uv.flex_spw_id_array is not None:
-                self.flex_spw_id_array = uv.flex_spw_id_array
+                self.flex_spw_id_array = copy.deepcopy(uv.flex_spw_id_array)
 
         self._set_type_antenna()
         self.history += 'Broadcast to type "antenna". '
@@ -3654,7 +3654,7 @@ class UVFlag(UVBase):
                 elif self.mode == "metric":
                     self.metric_array = np.zeros(array_shape, dtype=np.float64)
 
-        self.filename = indata.filename
+        self.filename = copy.deepcopy(indata.filename)
         self._filename.form = indata._filename.form
 
         if self.mode == "metric":
@@ -3812,7 +3812,7 @@ class UVFlag(UVBase):
         if self.mode == "metric":
             self.weights_array = np.ones(self.metric_array.shape)
 
-        self.filename = indata.filename
+        self.filename = copy.deepcopy(indata.filename)
         self._filename.form = indata._filename.form
 
         if history not in self.history:
-- 
2.43.0


From 2bdf8e50bc6bcb90c868cd135b0fc7070c7e8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:08 +0000
Subject: [PATCH 52/83] fix: write_miriad does not conjugate the baselines of
 the object that is written

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e1743b6..78515d8 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -11420,6 +11420,10 @@ class UVData(UVBase):
         if self.flex_spw_polarization_array is not None:
             miriad_obj = miriad_obj.copy()
             miriad_obj.remove_flex_pol()
+        elif np.any(self.ant_1_array > self.ant_2_array):
+            # The writer conjugates baselines to conform to the Miriad convention. Do
+            # that on a copy so that this object is left as it is.
+            miriad_obj = miriad_obj.copy()
 
         miriad_obj.write_miriad(
             filepath,
-- 
2.43.0


From 2302d9c3a752ac29635542a9da1b46652efcd301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 53/83] fix: apply_uvflag matches polarizations, frequencies
 and times by their labels

---
 src/pyuvdata/utils/apply_uvflag.py | 106 +++++++++++++++++++----------
 1 file changed, 69 insertions(+), 37 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index a43f92b..bc7e752 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -49,38 +49,12 @@ def apply_uvflag(
     # make a deepcopy by default b/c it is generally edited inplace downstream
     uvf = uvf.copy()
 
-    # convert to baseline type
-    if uvf.type != "baseline":
-        # edits inplace
-        uvf.to_baseline(uvd, force_pol=force_pol)
-
-    else:
-        # make sure polarizations match or force_pol
-        uvd_pols, uvf_pols = (
-            uvd.polarization_array.tolist(),
-            uvf.polarization_array.tolist(),
-        )
-        if set(uvd_pols) != set(uvf_pols):
-            if uvf.Npols == 1 and force_pol:
-                # if uvf is 1pol we can make them match: also edits inplace
-                uvf.polarization_array = uvd.polarization_array
-                uvf.Npols = len(uvf.polarization_array)
-                uvf_pols = uvf.polarization_array.tolist()
-
-            else:
-                raise ValueError("Input uvf and uvd polarizations do not match")
-
-        # make sure polarization ordering is correct: also edits inplace
-        uvf.polarization_array = uvf.polarization_array[
-            [uvd_pols.index(pol) for pol in uvf_pols]
-        ]
-
     # check time and freq shapes match: if Ntimes or Nfreqs is 1, allow
     # implicit broadcasting
     if uvf.Ntimes == 1:
         mismatch_times = False
     elif uvf.Ntimes == uvd.Ntimes:
-        tdiff = np.unique(uvf.time_array) - np.unique(uvd.time_array)
+        tdiff = np.abs(np.unique(uvf.time_array) - np.unique(uvd.time_array))
         mismatch_times = np.any(tdiff > np.max(np.abs(uvf._time_array.tols)))
     else:
         mismatch_times = True
@@ -90,29 +64,87 @@ def apply_uvflag(
     if uvf.Nfreqs == 1:
         mismatch_freqs = False
     elif uvf.Nfreqs == uvd.Nfreqs:
-        fdiff = np.unique(uvf.freq_array) - np.unique(uvd.freq_array)
+        # the channels may be in a different order on the two objects
+        uvf_freq_order = np.argsort(uvf.freq_array, kind="stable")
+        uvd_freq_order = np.argsort(uvd.freq_array, kind="stable")
+        fdiff = np.abs(uvf.freq_array[uvf_freq_order] - uvd.freq_array[uvd_freq_order])
         mismatch_freqs = np.any(fdiff > np.max(np.abs(uvf._freq_array.tols)))
     else:
         mismatch_freqs = True
     if mismatch_freqs:
         raise ValueError("UVFlag and UVData have mismatched frequency arrays.")
 
-    # unflag if desired
-    if unflag_first:
-        uvd.flag_array[:] = False
+    # convert to baseline type
+    if uvf.type != "baseline":
+        if uvf.Ntimes == 1:
+            # broadcast to all the times
+            uvf.time_array, time_inds = np.unique(uvd.time_array, return_index=True)
+            uvf.lst_array = uvd.lst_array[time_inds]
+            uvf.Ntimes = uvf.time_array.size
+            time_axis = 0 if uvf.type == "waterfall" else 2
+            uvf.flag_array = np.repeat(uvf.flag_array, uvf.Ntimes, axis=time_axis)
+
+        # edits inplace
+        uvf.to_baseline(uvd, force_pol=force_pol)
 
-    # iterate over antpairs and apply flags: TODO need to be able to handle
-    # conjugated antpairs
+    else:
+        # make sure polarizations match or force_pol
+        uvd_pols, uvf_pols = (
+            uvd.polarization_array.tolist(),
+            uvf.polarization_array.tolist(),
+        )
+        if set(uvd_pols) != set(uvf_pols):
+            # if uvf is 1pol the flags are broadcast to all polarizations
+            if uvf.Npols != 1 or not force_pol:
+                raise ValueError("Input uvf and uvd polarizations do not match")
+        else:
+            # make sure polarization ordering is correct: also edits inplace
+            uvf.flag_array = uvf.flag_array[
+                :, :, [uvf_pols.index(pol) for pol in uvd_pols]
+            ]
+
+        if uvf.Nfreqs > 1:
+            # make sure the frequency ordering is correct: also edits inplace
+            freq_inds = np.empty_like(uvf_freq_order)
+            freq_inds[uvd_freq_order] = uvf_freq_order
+            uvf.flag_array = uvf.flag_array[:, freq_inds]
+
+    # match up the baseline-times: TODO need to be able to handle conjugated antpairs
     uvf_antpairs = uvf.get_antpairs()
+    matches = []
+    missing = []
     for ap in uvd.get_antpairs():
-        uvd_ap_inds = uvd.antpair2ind(ap)
+        uvd_ap_inds = np.arange(uvd.Nblts)[uvd.antpair2ind(ap)]
         if ap not in uvf_antpairs:
-            if flag_missing:
-                uvd.flag_array[uvd_ap_inds] = True
+            missing.append(uvd_ap_inds)
             continue
-        uvf_ap_inds = uvf.antpair2ind(*ap)
+        uvf_ap_inds = np.arange(uvf.Nblts)[uvf.antpair2ind(*ap)]
+        if uvf.Ntimes > 1:
+            # make sure the time ordering is correct
+            times_match = np.isclose(
+                uvd.time_array[uvd_ap_inds][:, np.newaxis],
+                uvf.time_array[uvf_ap_inds][np.newaxis],
+                rtol=0,
+                atol=np.max(np.abs(uvf._time_array.tols)),
+            )
+            if not np.all(np.any(times_match, axis=1)):
+                raise ValueError(
+                    f"UVFlag and UVData have mismatched times for antenna pair {ap}."
+                )
+            uvf_ap_inds = uvf_ap_inds[np.argmax(times_match, axis=1)]
+        matches.append((uvd_ap_inds, uvf_ap_inds))
+
+    # unflag if desired
+    if unflag_first:
+        uvd.flag_array[:] = False
+
+    # now apply the flags
+    for uvd_ap_inds, uvf_ap_inds in matches:
         # addition of boolean is OR
         uvd.flag_array[uvd_ap_inds] += uvf.flag_array[uvf_ap_inds]
+    if flag_missing:
+        for uvd_ap_inds in missing:
+            uvd.flag_array[uvd_ap_inds] = True
 
     uvd.history += "\nFlagged with pyuvdata.utils.apply_uvflags."
 
-- 
2.43.0


From 2e97c526cc7d56ad891b58ce8b34e37948360771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 54/83] fix: UVFlag.to_baseline of a waterfall whose times are
 not sorted, and Ntimes after it

---
 src/pyuvdata/uvflag/uvflag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index e920086..79da32d 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1504,7 +1504,7 @@ class UVFlag(UVBase):
                 arr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 warr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 sarr = self.metric_array
-            for i, t in enumerate(np.unique(self.time_array)):
+            for i, t in enumerate(self.time_array):
                 ti = np.where(
                     np.isclose(
                         uv.time_array,
@@ -1578,6 +1578,7 @@ class UVFlag(UVBase):
 
         self.time_array = copy.deepcopy(uv.time_array)
         self.lst_array = copy.deepcopy(uv.lst_array)
+        self.Ntimes = np.unique(self.time_array).size
         self.Nblts = self.time_array.size
 
         for param in self.telescope:
-- 
2.43.0


From dd622545e2bc63ac665f0e822157c775c8316a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 55/83] fix: UVFlag.sort_ant_metadata_like reorders the antenna
 diameters too

---
 src/pyuvdata/uvflag/uvflag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 79da32d..d1adac4 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1375,6 +1375,10 @@ class UVFlag(UVBase):
                 self.telescope.antenna_positions = self.telescope.antenna_positions[
                     this_uv_sort
                 ]
+            if self.telescope.antenna_diameters is not None:
+                self.telescope.antenna_diameters = self.telescope.antenna_diameters[
+                    this_uv_sort
+                ]
 
     def to_baseline(
         self,
-- 
2.43.0


From bbb6427745c3f8f0e27255c80b4f2175ef20dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 56/83] fix: UVFlag extra keywords that are None can be written
 and read

---
 src/pyuvdata/uvflag/uvflag.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index d1adac4..411c28e 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -3258,6 +3258,8 @@ class UVFlag(UVBase):
                             self.extra_keywords[key] = bytes(
                                 header["extra_keywords"][key][()]
                             ).decode("utf8")
+                        elif header["extra_keywords"][key].shape is None:
+                            self.extra_keywords[key] = None
                         else:
                             self.extra_keywords[key] = header["extra_keywords"][key][()]
                 else:
@@ -3479,6 +3481,9 @@ class UVFlag(UVBase):
                 for k in self.extra_keywords.keys():
                     if isinstance(self.extra_keywords[k], str):
                         extra_keywords[k] = np.bytes_(self.extra_keywords[k])
+                    elif self.extra_keywords[k] is None:
+                        # save as empty/null dataset
+                        extra_keywords[k] = h5py.Empty("f")
                     else:
                         extra_keywords[k] = self.extra_keywords[k]
 
-- 
2.43.0


From f450ef9c9ba87848b55118603b8c228815516b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:08 +0000
Subject: [PATCH 57/83] fix: write_ms_cal of objects with a time range and a
 phase center catalog

---
 src/pyuvdata/utils/io/ms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index 8e8ad0d..bcbc7bd 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -727,9 +727,11 @@ def write_ms_field(filepath, uvobj=None, phase_center_catalog=None, time_val=Non
 
     if uvobj is not None:
         phase_center_catalog = uvobj.phase_center_catalog
-        time_val = (
-            Time(np.median(uvobj.time_array), format="jd", scale="utc").mjd * 86400.0
+        # UVCal objects can have a time_range instead of a time_array
+        time_array = (
+            uvobj.time_range if uvobj.time_array is None else uvobj.time_array
         )
+        time_val = Time(np.median(time_array), format="jd", scale="utc").mjd * 86400.0
 
     tabledesc = tables.required_ms_desc("FIELD")
     dminfo = tables.makedminfo(tabledesc)
-- 
2.43.0


From a4cf1ad97186f048d8d29884b57448b0da6fc11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:08 +0000
Subject: [PATCH 58/83] fix: write_ms_cal indexes total_quality_array along its
 first axis

---
 src/pyuvdata/uvcal/ms_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 289be09..257e3fb 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -631,7 +631,7 @@ class MSCal(UVCal):
                 if self.quality_array is not None:
                     qual_arr *= self.quality_array[:, spw_sel, :, :]
                 if self.total_quality_array is not None:
-                    qual_arr *= self.total_quality_array[0][spw_sel, :, :]
+                    qual_arr *= self.total_quality_array[spw_sel, :, :]
 
                 # We're going to leave a placeholder for SNR for now, since it's
                 # somewhat redundant and not totally clear how it's calculated.
-- 
2.43.0


From d0434790ffa055bd93a218057fcbda98eb8f8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:08 +0000
Subject: [PATCH 59/83] fix: the jones order in MS calibration tables is the
 one of the solutions

---
 src/pyuvdata/uvcal/ms_cal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 257e3fb..1ce29dc 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -482,7 +482,13 @@ class MSCal(UVCal):
                 ms.putkeyword("pyuvdata_xorient", self.telescope.x_orientation)
 
             if self.jones_array is not None:
-                ms.putkeyword("pyuvdata_jones", self.jones_array)
+                # N.b., use the same order that is used for the solutions below
+                ms.putkeyword(
+                    "pyuvdata_jones",
+                    self.jones_array[
+                        utils.pol.determine_pol_order(self.jones_array, order="CASA")
+                    ],
+                )
 
             if self.flex_jones_array is not None:
                 ms.putkeyword("pyuvdata_flex_jones", self.flex_jones_array)
-- 
2.43.0


From e434cbd9fe8e070834a74064f10dbb8cef98b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:08 +0000
Subject: [PATCH 60/83] fix: read_ms_cal restores the extra keywords that
 write_ms_cal stores

---
 src/pyuvdata/uvcal/ms_cal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 1ce29dc..c985337 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -126,6 +126,7 @@ class MSCal(UVCal):
         for keyword in ["CASA_Version", "MSName"]:
             if keyword in main_keywords:
                 self.extra_keywords[keyword] = main_keywords[keyword]
+        self.extra_keywords.update(main_keywords.get("pyuvdata_extra", {}))
 
         # open table with antenna location information
         ant_info = ms_utils.read_ms_antenna(filepath)
-- 
2.43.0


From e44116c50794170fb790593ae5e48f31c90506e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:08 +0000
Subject: [PATCH 61/83] fix: read_ms_cal sets Nphase to the size of the catalog

---
 src/pyuvdata/uvcal/ms_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index c985337..d93072a 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -154,7 +154,7 @@ class MSCal(UVCal):
         self.phase_center_catalog, field_id_map = ms_utils.read_ms_field(
             filepath, return_phase_center_catalog=True
         )
-        self.Nphase = len(np.unique(tb_main.getcol("FIELD_ID")))
+        self.Nphase = len(self.phase_center_catalog)
         if (self.phase_center_catalog == DEFAULT_CAT_DICT) and (self.Nphase == 1):
             # If this is the default, we know that this was spoofed by pyuvdata, in
             # which case we'll set the phase setuff to None
-- 
2.43.0


From 293f28ef4821af9b3d6e1e7c5f0d28be43de3d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:08 +0000
Subject: [PATCH 62/83] fix: write_ms_cal reports when casacore fails to write
 the table information

---
 src/pyuvdata/uvcal/ms_cal.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index d93072a..4d4a0a0 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -705,3 +705,10 @@ class MSCal(UVCal):
         ms_utils.write_ms_history(filename, uvobj=self)
         ms_utils.write_ms_observation(filename, uvobj=self)
         ms_utils.write_ms_spectral_window(filename, uvobj=self)
+
+        # N.b., casacore does not report errors when it writes the table information,
+        # without which the type of the calibration is lost.
+        with tables.table(filename, ack=False) as ms:
+            new_info = ms.info()
+        if any(new_info[key] != info_dict[key] for key in ("type", "subType")):
+            raise OSError(f"The table information of {filename} could not be written.")
-- 
2.43.0


From 58e5353b879e8c558825f1a3252e0ebe752cbb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:33 +0000
Subject: [PATCH 63/83] fix: write_ms_cal takes the frequency axis of
 total_quality_array from the end

---
 src/pyuvdata/utils/io/ms.py  | 4 +---
 src/pyuvdata/uvcal/ms_cal.py | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index bcbc7bd..ed014e3 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -728,9 +728,7 @@ def write_ms_field(filepath, uvobj=None, phase_center_catalog=None, time_val=Non
     if uvobj is not None:
         phase_center_catalog = uvobj.phase_center_catalog
         # UVCal objects can have a time_range instead of a time_array
-        time_array = (
-            uvobj.time_range if uvobj.time_array is None else uvobj.time_array
-        )
+        time_array = uvobj.time_range if uvobj.time_array is None else uvobj.time_array
         time_val = Time(np.median(time_array), format="jd", scale="utc").mjd * 86400.0
 
     tabledesc = tables.required_ms_desc("FIELD")
diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 4d4a0a0..66626f7 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -638,7 +638,7 @@ class MSCal(UVCal):
                 if self.quality_array is not None:
                     qual_arr *= self.quality_array[:, spw_sel, :, :]
                 if self.total_quality_array is not None:
-                    qual_arr *= self.total_quality_array[spw_sel, :, :]
+                    qual_arr *= self.total_quality_array[..., spw_sel, :, :]
 
                 # We're going to leave a placeholder for SNR for now, since it's
                 # somewhat redundant and not totally clear how it's calculated.
-- 
2.43.0


From 4a25eb85dcaae95f0b40bb7b50ce1a89bdf7522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 64/83] fix: FastUVH5Meta.has_key ignored the polarization of
 keys in reversed order

---
 src/pyuvdata/uvdata/uvh5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 9b7ea6a..aff28b6 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -386,7 +386,9 @@ class FastUVH5Meta(hdf5_utils.HDF5Meta):
 
     def has_key(self, key: tuple[int, int] | tuple[int, int, str]) -> bool:
         """Check if the file has a given antpair or antpair-pol key."""
-        if len(key) == 2 and key in self.antpairs or (key[1], key[0]) in self.antpairs:
+        if len(key) == 2 and (
+            key in self.antpairs or (key[1], key[0]) in self.antpairs
+        ):
             return True
         elif len(key) == 3 and (
             (key[:2] in self.antpairs and key[2] in self.pols)
-- 
2.43.0


From 6aa4aebb60ea6cc15dcb978cec5d8ff813a4d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 65/83] fix: HDF5Meta handles stayed unusable after an
 interrupted open or close

---
 src/pyuvdata/utils/io/hdf5.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/pyuvdata/utils/io/hdf5.py b/src/pyuvdata/utils/io/hdf5.py
index 71e3a4b..aba826c 100644
--- a/src/pyuvdata/utils/io/hdf5.py
+++ b/src/pyuvdata/utils/io/hdf5.py
@@ -472,33 +472,29 @@ class HDF5Meta:
 
     def close(self):
         """Close the file."""
+        # forget the cached groups first, so that the object is usable (it opens the
+        # file again when needed) wherever this is interrupted.
+        self.__dict__.pop("header", None)
+        self.__dict__.pop("datagrp", None)
+
+        file, self.__file = self.__file, None
         self.__header = None
         self.__datagrp = None
 
-        try:
-            del self.header  # need to refresh these
-        except AttributeError:
-            pass
-
-        try:
-            del self.datagrp
-        except AttributeError:
-            pass
-
-        if self.__file:
-            self.__file.close()
-        self.__file = None
+        if file:
+            file.close()
 
     def open(self):  # noqa: A003
         """Open the file."""
         if not self.__file:
-            self.__file = h5py.File(self.path, "r")
+            file = h5py.File(self.path, "r")
             try:
-                self.__header = self.__file["/Header"]
-                self.__datagrp = self.__file["/Data"]
-            except Exception:
-                self.close()
+                self.__header = file["/Header"]
+                self.__datagrp = file["/Data"]
+            except BaseException:
+                file.close()
                 raise
+            self.__file = file
 
     @cached_property
     def header(self) -> h5py.Group:
-- 
2.43.0


From 81d39d5281ab5b6dbbbb7ab45cc90ec979d26edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:55 +0000
Subject: [PATCH 66/83] fix: combining phased array beams ignored different
 element gains

---
 src/pyuvdata/uvbeam/uvbeam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 37bdadc..9110dfe 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2418,6 +2418,7 @@ class UVBeam(UVBase):
                 [
                     "_Nelements",
                     "_delay_array",
+                    "_gain_array",
                     "_element_coordinate_system",
                     "_element_location_array",
                 ]
-- 
2.43.0


From d49ab5864ffd5e36f9d0278824a0c7f5fc37f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:33 +0000
Subject: [PATCH 67/83] fix: a Miriad mask that exists but cannot be opened is
 an error, not the absence of flags

---
 src/pyuvdata/uvdata/src/maskio.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/src/maskio.c b/src/pyuvdata/uvdata/src/maskio.c
index 91342b3..e9c61bd 100644
--- a/src/pyuvdata/uvdata/src/maskio.c
+++ b/src/pyuvdata/uvdata/src/maskio.c
@@ -18,6 +18,7 @@
 /************************************************************************/
 
 #include <Python.h>
+#include <errno.h>
 
 #define BUG(sev,a)   bug_c(sev,a)
 #define ERROR(sev,a) bug_c(sev,((void)sprintf a,message))
@@ -97,7 +98,12 @@ char *mkopen_c(int tno,char *name,char *status)
 
   if(!strcmp("old",status)) {
     haccess_c(tno,&(mask->item),name,"read",&iostat);
-    if(iostat) { free((char *)mask); return(NULL); }
+    if(iostat) {
+      free((char *)mask);
+      /* only a missing item means that there is no mask */
+      if(iostat != ENOENT) bugno_c('f',iostat);
+      return(NULL);
+    }
     mask->size = hsize_c(mask->item);
     if(mask->size <= H_INT_SIZE * (OFFSET/BITS_PER_INT))
       ERROR('f',(message,"Mask file %s appears bad",name));
-- 
2.43.0


From 487d565c355669209fbca90855af2f55786eb470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:33 +0000
Subject: [PATCH 68/83] fix: files that are skipped by a multi-file read leave
 nothing in the object

---
 src/pyuvdata/uvdata/uvdata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 78515d8..ff974db 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10718,8 +10718,10 @@ class UVData(UVBase):
                     layout_file_use = layout_file[file_num]
                     settings_file_use = settings_file[file_num]
 
+                # a file that cannot be read must not leave anything in this object
+                uv1 = UVData()
                 try:
-                    self.read(
+                    uv1.read(
                         f,
                         file_type=file_type,
                         read_data=read_data,
@@ -10811,6 +10813,7 @@ class UVData(UVBase):
                         time_axis_faster_than_bls=time_axis_faster_than_bls,
                         blts_are_rectangular=blts_are_rectangular,
                     )
+                    self._convert_from_filetype(uv1)
                     unread = False
                 except Exception as err:
                     file_warnings = (
-- 
2.43.0


From 508dc060db40e856fa8640da2962bf474fccbedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 69/83] fix: a CST beam of which only some files can be read
 changes nothing

---
 src/pyuvdata/uvbeam/uvbeam.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 9110dfe..0fa6d1a 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3684,7 +3684,9 @@ class UVBeam(UVBase):
                 raise ValueError("frequency can not be a nested list")
             if isinstance(pol, (list, tuple)):
                 raise ValueError("feed_pol can not be a nested list")
-            self.read_cst_beam(
+            # nothing is kept in this object unless all the files can be read
+            beam1 = UVBeam()
+            beam1.read_cst_beam(
                 cst_filename[0],
                 beam_type=beam_type,
                 use_future_array_shapes=use_future_array_shapes,
@@ -3743,7 +3745,8 @@ class UVBeam(UVBase):
                     check_auto_power=check_auto_power,
                     fix_auto_power=fix_auto_power,
                 )
-                self += beam2
+                beam1 += beam2
+            self._convert_from_filetype(beam1)
             if len(cst_filename) > 1:
                 del beam2
         else:
-- 
2.43.0


From aff8c409825f966328a76cb63d68457faed46f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 70/83] fix: records of MIR metadata that could not be read are
 an error, not missing records

---
 src/pyuvdata/uvdata/mir_meta_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 36ffec0..8e66838 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -2256,10 +2256,13 @@ class MirMetaData(object):
         filepath : str or Path
             Path of the folder containing the metadata in question.
         """
+        filepath = self._gen_filepath(filepath)
         self._data = np.fromfile(
-            self._gen_filepath(filepath),
-            dtype=self.dtype if self._binary_dtype is None else self._binary_dtype,
+            filepath, dtype=self.dtype if self._binary_dtype is None else self._binary_dtype
         )
+        # fromfile does not report read errors, it just returns fewer records
+        if len(self._data) < os.path.getsize(filepath) // self._data.dtype.itemsize:
+            raise OSError(f"Could not read all of the records in {filepath}.")
 
         if self._binary_dtype is not None:
             try:
-- 
2.43.0


From 48cf0b9d58d0428851369f288fff157a0aaafe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:09 +0000
Subject: [PATCH 71/83] fix: MIR metadata that cannot be read is an error, not
 records with unset values

---
 src/pyuvdata/uvdata/mir_meta_data.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 8e66838..e432bf7 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -2257,11 +2257,12 @@ class MirMetaData(object):
             Path of the folder containing the metadata in question.
         """
         filepath = self._gen_filepath(filepath)
-        self._data = np.fromfile(
-            filepath, dtype=self.dtype if self._binary_dtype is None else self._binary_dtype
-        )
-        # fromfile does not report read errors, it just returns fewer records
-        if len(self._data) < os.path.getsize(filepath) // self._data.dtype.itemsize:
+        dtype = np.dtype(self.dtype if self._binary_dtype is None else self._binary_dtype)
+        nrec = os.path.getsize(filepath) // dtype.itemsize
+        # fromfile does not report read errors: it returns fewer records, or (if not
+        # told how many there are) records whose values have not been set.
+        self._data = np.fromfile(filepath, dtype=dtype, count=nrec)
+        if len(self._data) < nrec:
             raise OSError(f"Could not read all of the records in {filepath}.")
 
         if self._binary_dtype is not None:
-- 
2.43.0


From d936ffaf9b57a5902e0de756b97d0f68cdb1b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:46 +0000
Subject: [PATCH 72/83] fix: changing a returned list of polarization names or
 numbers does not change later conversions

---
 src/pyuvdata/utils/pol.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/pol.py b/src/pyuvdata/utils/pol.py
index 3c01de1..84932a5 100644
--- a/src/pyuvdata/utils/pol.py
+++ b/src/pyuvdata/utils/pol.py
@@ -130,12 +130,15 @@ def np_cache(function):
     @wraps(function)
     def wrapper(pol, x_orientation=None):
         try:
-            return function(pol, x_orientation=x_orientation)
+            out = function(pol, x_orientation=x_orientation)
         except TypeError:
             if isinstance(pol, Iterable):
                 # Assume the reason that we got a type error is that pol was an array.
                 pol = tuple(pol)
-            return function(pol, x_orientation=x_orientation)
+            out = function(pol, x_orientation=x_orientation)
+
+        # do not hand out the list in the cache, the caller may change it
+        return list(out) if isinstance(out, list) else out
 
     # copy lru_cache attributes over too
     wrapper.cache_info = function.cache_info
-- 
2.43.0


From 53bbb216c055a501eb2359909000b7333133996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:07 +0000
Subject: [PATCH 73/83] fix: adding does not interleave the spectral windows
 when the other object has some of the channels in another order

---
 src/pyuvdata/uvdata/uvdata.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index ff974db..1d3350b 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5592,17 +5592,6 @@ class UVData(UVBase):
                 this.reorder_blts(order=temp_ind)
                 this_blts = this_blts[temp_ind]
 
-        if len(this_freq_ind) != 0:
-            this_argsort = np.argsort(this_freq_ind)
-            other_argsort = np.argsort(other_freq_ind)
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Nfreqs)
-                temp_ind[this_freq_ind[this_argsort]] = temp_ind[
-                    this_freq_ind[other_argsort]
-                ]
-
-                this.reorder_freqs(channel_order=temp_ind)
-
         if len(this_pol_ind) != 0:
             this_argsort = np.argsort(this_pol_ind)
             other_argsort = np.argsort(other_pol_ind)
-- 
2.43.0


From 07b1d20352474e5759f3d3d1a89877f53a03f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:38 +0000
Subject: [PATCH 74/83] fix: adding UVCal objects does not interleave the
 spectral windows when the other object has some of the channels in another
 order

---
 src/pyuvdata/uvcal/uvcal.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index bec13b2..bd4b48f 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2834,13 +2834,6 @@ class UVCal(UVBase):
                     ]
 
                     this.reorder_freqs(spw_order=temp_ind)
-                else:
-                    temp_ind = np.arange(this.Nfreqs)
-                    temp_ind[this_freq_ind[this_argsort]] = temp_ind[
-                        this_freq_ind[other_argsort]
-                    ]
-
-                    this.reorder_freqs(channel_order=temp_ind)
 
         if len(this_jones_ind) != 0:
             this_argsort = np.argsort(this_jones_ind)
-- 
2.43.0


From 042fa970e625ecb6cc9481ea4ea8155efe69a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:38 +0000
Subject: [PATCH 75/83] fix: a total_quality_array that only the added object
 has gets the right shape when several axes grow

---
 src/pyuvdata/uvcal/uvcal.py | 41 ++++++++-----------------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index bd4b48f..f7f1c45 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2920,10 +2920,6 @@ class UVCal(UVBase):
 
         # Initialize tqa variables
         can_combine_tqa = True
-        if this.cal_type == "delay":
-            Nf_tqa = 1
-        else:
-            Nf_tqa = this.Nfreqs
 
         if (
             not self.metadata_only
@@ -2934,6 +2930,15 @@ class UVCal(UVBase):
                 this._quality_array.expected_shape(this), dtype=float
             )
 
+        if (
+            not self.metadata_only
+            and this.total_quality_array is None
+            and other.total_quality_array is not None
+        ):
+            this.total_quality_array = np.zeros(
+                this._total_quality_array.expected_shape(this), dtype=float
+            )
+
         # Pad out self to accommodate new data
         ant_order = None
         if len(anew_inds) > 0:
@@ -3070,14 +3075,6 @@ class UVCal(UVBase):
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=0
                     )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros((len(fnew_inds), this.Ntimes, this.Njones))
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=0
-                    )
 
         t_order = None
         if len(tnew_inds) > 0:
@@ -3160,16 +3157,6 @@ class UVCal(UVBase):
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=1
                     )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros(
-                        (data_array_shape[1], len(tnew_inds), this.Njones)
-                    )
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=1
-                    )
 
         j_order = None
         if len(jnew_inds) > 0:
@@ -3218,16 +3205,6 @@ class UVCal(UVBase):
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=2
                     )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros(
-                        (data_array_shape[1], data_array_shape[2], len(jnew_inds))
-                    )
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=2
-                    )
 
         # Now populate the data
         if not self.metadata_only:
-- 
2.43.0


From 6f4bfae74217a8149487d8494bdc14bd7e1e3f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:23 +0000
Subject: [PATCH 76/83] fix: the squared weights of a waterfall follow its
 polarizations and are dropped with its type, instead of making later
 conversions fail

---
 src/pyuvdata/uvflag/uvflag.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 411c28e..b614a89 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -310,8 +310,7 @@ class UVFlag(UVBase):
             "when weighted data is converted from baseline to waterfall type."
             "Only available in metric mode, the shape is (Nfreq, Ntimes, Npols)."
         )
-        # TODO: should this be set to None when converting back to baseline or antenna?
-        # If not, should the shape be adjusted?
+        # This is set to None when converting back to baseline or antenna.
         self._weights_square_array = uvp.UVParameter(
             "weights_square_array",
             description=desc,
@@ -676,6 +675,7 @@ class UVFlag(UVBase):
         self._metric_array.form = ("Nants_data", "Nfreqs", "Ntimes", "Npols")
         self._flag_array.form = ("Nants_data", "Nfreqs", "Ntimes", "Npols")
         self._weights_array.form = ("Nants_data", "Nfreqs", "Ntimes", "Npols")
+        self.weights_square_array = None
 
         self._time_array.form = ("Ntimes",)
         self._lst_array.form = ("Ntimes",)
@@ -697,6 +697,7 @@ class UVFlag(UVBase):
         self._metric_array.form = ("Nblts", "Nfreqs", "Npols")
         self._flag_array.form = ("Nblts", "Nfreqs", "Npols")
         self._weights_array.form = ("Nblts", "Nfreqs", "Npols")
+        self.weights_square_array = None
 
         self._time_array.form = ("Nblts",)
         self._lst_array.form = ("Nblts",)
@@ -1168,6 +1169,16 @@ class UVFlag(UVBase):
             d, w = utils.collapse(
                 darr, method, axis=-1, weights=_weights, return_weights=True
             )
+            if self.weights_square_array is not None:
+                # the sum of the squares for the same (finite) values
+                _, ws = utils.collapse(
+                    darr,
+                    method,
+                    axis=-1,
+                    weights=self.weights_square_array,
+                    return_weights=True,
+                )
+                self.weights_square_array = np.expand_dims(ws, axis=ws.ndim)
             darr = np.expand_dims(d, axis=d.ndim)
 
             if self.mode == "metric":
-- 
2.43.0


From 938ee4d81bf3c04af70907a8331f0cefd0056559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 77/83] fix: get_feedpols gives the feeds in a reproducible
 order

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1d3350b..951868a 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3012,7 +3012,7 @@ class UVData(UVBase):
                 "Pseudo-Stokes visibilities cannot be interpreted as feed polarizations"
             )
         else:
-            return list(set("".join(self.get_pols())))
+            return sorted(set("".join(self.get_pols())))
 
     def get_data(
         self, key1, key2=None, key3=None, *, squeeze="default", force_copy=False
-- 
2.43.0


From 47c1ee8ea0fab731e3aee853a251ed336c9563f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:53 +0000
Subject: [PATCH 78/83] fix: known_telescopes gives the names in a reproducible
 order

---
 src/pyuvdata/telescopes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/telescopes.py b/src/pyuvdata/telescopes.py
index d23bb40..c61fccc 100644
--- a/src/pyuvdata/telescopes.py
+++ b/src/pyuvdata/telescopes.py
@@ -174,7 +174,7 @@ def known_telescopes():
         List of known telescope names.
     """
     astropy_sites = [site for site in EarthLocation.get_site_names() if site != ""]
-    known_telescopes = list(set(astropy_sites + list(_KNOWN_TELESCOPES.keys())))
+    known_telescopes = sorted(set(astropy_sites + list(_KNOWN_TELESCOPES.keys())))
     return known_telescopes
 
 
-- 
2.43.0


From 25cdb5cdbfb184bdc3c0fd77792d9312c86200f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 79/83] fix: UVBeam.interp with reuse_spline uses saved splines
 only for the data they were made for

---
 src/pyuvdata/uvbeam/uvbeam.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 0fa6d1a..9d46248 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -4,6 +4,7 @@
 
 """Primary container for radio telescope antenna beams."""
 import copy
+import hashlib
 import os
 import warnings
 
@@ -1528,13 +1529,23 @@ class UVBeam(UVBase):
         if reuse_spline and not hasattr(self, "saved_interp_functions"):
             int_dict = {}
             self.saved_interp_functions = int_dict
+        if reuse_spline:
+            # saved splines are only good for the grid, the options and (see below)
+            # the data that they were made for
+            grid_key = hashlib.sha256(repr(sorted(spline_opts.items())).encode())
+            grid_key.update(np.ascontiguousarray(theta_use))
+            grid_key.update(np.ascontiguousarray(phi_use))
         for index3 in range(input_nfreqs):
             freq = freq_array[index3]
             for index0 in range(self.Naxes_vec):
                 for pol_return_ind, index2 in enumerate(pol_inds):
                     do_interp = True
-                    key = (freq, index2, index0)
                     if reuse_spline:
+                        data_key = grid_key.copy()
+                        data_key.update(
+                            np.ascontiguousarray(data_use[index0, index2, index3])
+                        )
+                        key = (freq, index2, index0, data_key.digest())
                         if key in self.saved_interp_functions.keys():
                             do_interp = False
                             lut = self.saved_interp_functions[key]
-- 
2.43.0


From a9de2e594e210029dcc1c6d8c73083f23680236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 80/83] fix: UVBeam objects can be pickled after interp with
 reuse_spline

---
 src/pyuvdata/uvbeam/uvbeam.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 9d46248..5f37225 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -562,6 +562,17 @@ class UVBeam(UVBase):
 
         super(UVBeam, self).__init__()
 
+    def __getstate__(self):
+        """
+        Get the state of the object for pickling and copying.
+
+        The functions that `interp` saves for reuse cannot be pickled, so they are
+        left out.
+        """
+        state = self.__dict__.copy()
+        state.pop("saved_interp_functions", None)
+        return state
+
     @staticmethod
     @combine_docstrings(initializers.new_uvbeam, style=DocstringStyle.NUMPYDOC)
     def new(**kwargs):
-- 
2.43.0


From 586d89e333b5015d8c18830235cdb8c884377686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 81/83] fix: UVBeam.interp returns the bandpass of all
 frequencies

---
 src/pyuvdata/uvbeam/uvbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 5f37225..b8fefdf 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1391,7 +1391,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
@@ -1682,7 +1682,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array[0]
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
-- 
2.43.0


From e73c24732d131b1e42a87ed095bb7de789beaade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 82/83] fix: get_baseline_nums does not return a view of the
 baselines of the object

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 951868a..52ce3cb 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2948,9 +2948,9 @@ class UVData(UVBase):
         """
         if self.blts_are_rectangular:
             if self.time_axis_faster_than_bls:
-                return self.baseline_array[:: self.Ntimes]
+                return self.baseline_array[:: self.Ntimes].copy()
             else:
-                return self.baseline_array[: self.Nbls]
+                return self.baseline_array[: self.Nbls].copy()
         else:
             return np.unique(self.baseline_array)
 
-- 
2.43.0


From 3f8f59d1dd8589b62a987326ffc75880263428b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:20 +0000
Subject: [PATCH 83/83] fix: the bandpass that UVBeam.interp returns is not the
 beam's own array

---
 src/pyuvdata/uvbeam/uvbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index b8fefdf..f96bb46 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1391,7 +1391,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array
-            interp_bandpass = self.bandpass_array
+            interp_bandpass = self.bandpass_array.copy()
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
@@ -1682,7 +1682,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array[0]
-            interp_bandpass = self.bandpass_array
+            interp_bandpass = self.bandpass_array.copy()
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
-- 
2.43.0

