From d304be83518357b3b85f5ac789f9ea766ac7cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 01/19] fix: honour max_clearsky_index for DataFrame input of
 clearsky_index

---
 src/solarspatialtools/irradiance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/irradiance.py b/src/solarspatialtools/irradiance.py
index 8456680..9a0fec5 100644
--- a/src/solarspatialtools/irradiance.py
+++ b/src/solarspatialtools/irradiance.py
@@ -31,7 +31,8 @@ def clearsky_index(ghi, clearsky_ghi, max_clearsky_index=2.0):
 
     if isinstance(ghi, pd.DataFrame):  # apply column by column
         return ghi.apply(lambda x:
-                         pvlib.irradiance.clearsky_index(x, clearsky_ghi, 2),
+                         pvlib.irradiance.clearsky_index(
+                             x, clearsky_ghi, max_clearsky_index),
                          axis=0)
     else:
         return pvlib.irradiance.clearsky_index(ghi, clearsky_ghi,
-- 
2.43.0


From 1b6780d84fa0e4f4e879b5442dec3f59e748cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 02/19] fix: pass the requested scaling on for Series input of
 averaged_psd

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 942ece5..04edd04 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -200,7 +200,7 @@ def averaged_psd(input_tsig, navgs, overlap=0.5,
 
     if isinstance(input_tsig, pd.Series):
         return averaged_psd(pd.DataFrame(input_tsig), navgs, overlap, window,
-                            detrend)
+                            detrend, scaling)
 
     cols = input_tsig.columns
     input_tsig = input_tsig.values.T
-- 
2.43.0


From a827bee63524cc96a3c5e21ae7663f5316937ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 03/19] fix: zero_corr of compute_delays mode 'fft' has one
 value per signal pair

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 04edd04..9b44ab7 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -686,7 +686,7 @@ def compute_delays(ts_in, ts_out, mode='loop', scaling='coeff'):
 
         # Need to recompute the lags to accommodate the shifted zero for fft
         lags = np.roll(lags, -nl // 2 + 1)
-        zero_lag_ind = np.where(lags == 0)
+        zero_lag_ind = np.flatnonzero(lags == 0)[0]
 
         # Compute correlation via fft and re-center to match lags
         ffta = scipy.fft.fft(ts_inm, axis=1)
-- 
2.43.0


From 29092c366d4e4dd953e7980188dfcf9678c7647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 04/19] fix: scale each row of _fftcorrelate by its own
 coefficient

---
 src/solarspatialtools/signalproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 9b44ab7..2fcfc59 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -140,6 +140,7 @@ def _fftcorrelate(baseline, estimation, scaling='coeff'):
         corr_scale = (np.size(ts_inm, axis=1)
                       * np.std(ts_inm, axis=1)
                       * np.std(ts_outm, axis=1)) ** -1
+        corr_scale = np.expand_dims(corr_scale, axis=1)
     elif scaling == 'none':
         corr_scale = 1
     else:
-- 
2.43.0


From 06f8abb480a964385f3f1b05531a56f1c69cf31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 05/19] fix: do not write default CMV options into the caller's
 dictionary

---
 src/solarspatialtools/cmv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 69e06c4..7f99294 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -611,8 +611,8 @@ def _validate_method_options(method, options):
         intermediate data for debugging purposes.
     """
     # Validate options
-    if options is None:
-        options = {}
+    # Work on a copy, so that the defaults are not added to the caller's dict
+    options = {} if options is None else dict(options)
     # Specify default options by method
     if method == 'jamaly':
         defaults = {'minvelocity': 0,  # m/s
-- 
2.43.0


From bd4e6bce244ef0b96eacd09d1e224d28e0b77655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 06/19] fix: compute_cmv no longer changes numpy's process-wide
 error state

---
 src/solarspatialtools/cmv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 7f99294..ece9464 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -130,6 +130,8 @@ def _get_pairs(all_points, must_contain=None, replacement=True):
         return np.array(pairs_all)
 
 
+# Ignore some numpy printouts, we'll deal with them manually
+@np.errstate(divide='ignore', invalid='ignore')
 def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
                 options=None, delay_backend='xcorr'):
     """
@@ -221,10 +223,6 @@ def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
     if delay_backend not in ['xcorr', 'tf']:
         raise ValueError("delay_backend must be one of: ['xcorr', 'tf'].")
 
-    # Ignore some numpy printouts, we'll deal with them manually
-    np.seterr(divide='ignore')
-    np.seterr(invalid='ignore')
-
     # Find all the needed info
     nsamples, _ = timeseries.shape
     point_ids = positions.index.to_list()
-- 
2.43.0


From 67ebcaa5d890a990e9c68a422bde41ed836ba5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 07/19] fix: drop unused import of undeclared dependency
 fontTools

---
 src/solarspatialtools/spatial.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index f50e111..ef5fd8d 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -1,6 +1,5 @@
 import numpy as np
 import pandas as pd
-from fontTools.misc.testTools import parseXML
 from pyproj import Proj
 
 
-- 
2.43.0


From 6a3f3502a334e944a9ccee9bce5aafc21278ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 08/19] fix: lcs2latlon projects the origin in the requested
 UTM zone

---
 src/solarspatialtools/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index ef5fd8d..ccc21a5 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -209,7 +209,7 @@ def lcs2latlon(east, north, origin_lat, origin_lon, zone=None):
     south = origin_lat < 0
 
     # Get the origin in UTM
-    e_o, n_o, _ = latlon2utm(origin_lat, origin_lon)
+    e_o, n_o, _ = latlon2utm(origin_lat, origin_lon, zone)
 
     # Shift the target
     e_t = e_o + east
-- 
2.43.0


From 26787ef0eede6e8b128ceda851e0a18a3223c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 09/19] fix: latlon2lcs uses the origin's UTM zone for the
 target points

---
 src/solarspatialtools/spatial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index ccc21a5..6a3fb32 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -147,6 +147,10 @@ def latlon2lcs(lat, lon, origin_lat, origin_lon, zone=None):
     (east, north) : numeric
         The Easting and Northing of the target point in the LCS coordinates
     """
+    # All points must share the zone of the origin, or they can't be compared
+    if zone is None and np.ndim(origin_lon) == 0:
+        zone = _calc_zone(origin_lon)
+
     # Convert both coordinates to UTM
     utm_i = latlon2utm(origin_lat, origin_lon, zone=zone)
     utm_t = latlon2utm(lat, lon, zone=zone)
-- 
2.43.0


From 9dceec61fca0b9755dda7555fb090f3b9e2ac99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 10/19] fix: latlon2lcs keeps targets in the origin's
 hemisphere across the equator

---
 src/solarspatialtools/spatial.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index 6a3fb32..51d8ae3 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -22,7 +22,7 @@ def _calc_zone(lon):
     return min(z, 60)
 
 
-def latlon2utm(lat, lon, zone=None):
+def latlon2utm(lat, lon, zone=None, south=None):
     """
     Convert a latitude/longitude pair from WGS84 into UTM coordinates.
 
@@ -40,6 +40,10 @@ def latlon2utm(lat, lon, zone=None):
     zone : numeric
         the UTM zone (number only). Calculated from longitude if None
 
+    south : bool
+        Use the southern hemisphere's false northing? Chosen by the sign of
+        each latitude if None.
+
     Returns
     -------
     (east, north) : numeric
@@ -55,18 +59,19 @@ def latlon2utm(lat, lon, zone=None):
             raise ValueError("lat and lon arrays must have the same length.")
         if hasattr(lat, "index") \
                 and isinstance(lat, (pd.DataFrame, pd.Series)):
-            data = np.array([latlon2utm(lati, loni, zone)
+            data = np.array([latlon2utm(lati, loni, zone, south)
                              for (lati, loni) in zip(lat, lon)])
             return pd.DataFrame(data, index=lat.index,
                                 columns=["E", "N", "zone"])
         else:
-            return np.array([latlon2utm(lati, loni, zone)
+            return np.array([latlon2utm(lati, loni, zone, south)
                              for (lati, loni) in zip(lat, lon)])
     else:
         if zone is None:
             zone = _calc_zone(lon)
 
-        south = (lat < 0)
+        if south is None:
+            south = (lat < 0)
 
         p1 = Proj(proj='utm', zone=zone, ellipsis='WGS84', datum='WGS84',
                   units='m', south=south, preserve_units=True)
@@ -147,13 +152,17 @@ def latlon2lcs(lat, lon, origin_lat, origin_lon, zone=None):
     (east, north) : numeric
         The Easting and Northing of the target point in the LCS coordinates
     """
-    # All points must share the zone of the origin, or they can't be compared
-    if zone is None and np.ndim(origin_lon) == 0:
-        zone = _calc_zone(origin_lon)
+    # All points must share the zone and the hemisphere of the origin, or they
+    # can't be compared
+    south = None
+    if np.ndim(origin_lon) == 0:
+        south = origin_lat < 0
+        if zone is None:
+            zone = _calc_zone(origin_lon)
 
     # Convert both coordinates to UTM
     utm_i = latlon2utm(origin_lat, origin_lon, zone=zone)
-    utm_t = latlon2utm(lat, lon, zone=zone)
+    utm_t = latlon2utm(lat, lon, zone=zone, south=south)
 
     # Extract E and N from results (handle scalar, array, and DataFrame returns)
     if isinstance(utm_i, pd.DataFrame):
-- 
2.43.0


From e3d589bbd2e1573e72f674c65a7a258a187e4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:30 +0000
Subject: [PATCH 11/19] fix: get_camfilter projects positions and reference in
 the same UTM zone

---
 src/solarspatialtools/signalproc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 2fcfc59..b1f316b 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -1086,15 +1086,19 @@ def get_camfilter(positions, cloud_speed, cloud_dir, ref_position, dx=1,
         A pandas Series containing the complex valued filter, along with its
         frequency vector along the index.
     """
-    try:
-        pos_utm = spatial.latlon2utm(positions['lat'], positions['lon'])
-    except KeyError:
-        pos_utm = positions
+    zone, south = None, None
     try:
         ref_utm = spatial.latlon2utm(ref_position['lat'], ref_position['lon'])
         ref_utm = pd.Series(ref_utm, index=['E', 'N', 'zone'])
+        # All positions need to share the zone and hemisphere of the reference
+        zone, south = int(ref_utm['zone']), ref_position['lat'] < 0
     except KeyError:
         ref_utm = ref_position
+    try:
+        pos_utm = spatial.latlon2utm(positions['lat'], positions['lon'],
+                                     zone, south)
+    except KeyError:
+        pos_utm = positions
 
     pos_vecs = spatial.compute_vectors(pos_utm['E'], pos_utm['N'],
                                        ref_utm[['E', 'N']])
-- 
2.43.0


From 42803749b6a24e5d6173416f0e11bc4915e8a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 12/19] fix: compute_predicted_position pairs time series and
 positions by site id

---
 src/solarspatialtools/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index 8c15260..2285e02 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -92,6 +92,8 @@ def compute_predicted_position(dfs, pos_utm, ref, cld_vecs=None,
             cld_vecs.append(spatial.pol2rect(cld_spd, cld_dir))
 
     for df, cld_vec in zip(dfs, cld_vecs):
+        # Match the time series to the positions by site
+        df = df[pos_utm.index]
 
         # Get the pairwise delays
         delay, extras = signalproc.compute_delays_tf(df[ref], df, navgs=navgs,
-- 
2.43.0


From a7d42b09a8c455d837ae85f9adac5d3615c8e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 13/19] fix: compute_predicted_position ignores position
 columns other than E and N

---
 src/solarspatialtools/field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index 2285e02..85381a3 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -143,8 +143,9 @@ def compute_predicted_position(dfs, pos_utm, ref, cld_vecs=None,
     elif mode == 'distance':
         # Downselect to the closest Points
         separations = pd.DataFrame({'sep': [
-            spatial.magnitude(row[1] - pos_utm.loc[ref]) for row in
-            pos_utm.iterrows()]}, index=pos_utm.index)
+            spatial.magnitude(row[1] - pos_utm[['E', 'N']].loc[ref])
+            for row in pos_utm[['E', 'N']].iterrows()]},
+            index=pos_utm.index)
         # Zeroth index is always "self", but needs to be included
         ix = separations.sort_values('sep').iloc[:ndownsel, :].index
         ix1 = ix2 = ix
@@ -167,7 +168,7 @@ def compute_predicted_position(dfs, pos_utm, ref, cld_vecs=None,
     )
 
     # Algorithm above assumes the origin is (0, 0). Shift by the ref pt
-    pos = (pos + pos_utm.loc[ref].values).flatten()
+    pos = (pos + pos_utm[['E', 'N']].loc[ref].values).flatten()
 
     return pos, combined_data
 
-- 
2.43.0


From e51931e3c4f3d2c0b14ddcd1d3396fbfc71d5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:52 +0000
Subject: [PATCH 14/19] fix: assign_positions ignores additional columns of
 predicted_pos

---
 src/solarspatialtools/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index 85381a3..d3317a0 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -376,6 +376,9 @@ def assign_positions(original_pos, predicted_pos):
         A copy of the original data, but with the rows remapped to the optimal
         solution.
     """
+    # Only the first two columns are positions
+    predicted_pos = predicted_pos.iloc[:, :2]
+
     # If we have NaN in the data, calculations will fail. Assume that the NaN
     # values stay in place and remap the rest. This would only ever happen in
     # the predictions, because the original should come from the site plan.
-- 
2.43.0


From 2407c55e429231c20f0dbe97a6492cb1f938d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 15/19] fix: cleanfreq returns the adjusted signal as
 documented

---
 src/solarspatialtools/signalproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index b1f316b..e5c301f 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -1153,3 +1153,4 @@ def cleanfreq(sig):
     idxlist = sig.index.to_list()
     idxlist[len(sig.index) // 2] = None
     sig.index = idxlist
+    return sig
-- 
2.43.0


From 1191f47ecf81ea2f2e09efbdc56d24839ce77985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 16/19] fix: downscale_multihour accepts cloud_spd and
 cloud_dir of different kinds

---
 src/solarspatialtools/synthirrad/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/synthirrad/copula.py b/src/solarspatialtools/synthirrad/copula.py
index ffff08d..8e98f78 100644
--- a/src/solarspatialtools/synthirrad/copula.py
+++ b/src/solarspatialtools/synthirrad/copula.py
@@ -568,7 +568,7 @@ def downscale_multihour(times, e_pos, n_pos, cloud_spd, cloud_dir, mean_csi,
                                  ' list matching the length of mean_csi.')
             multi_cloud_dir_mode = True
 
-    if not isinstance(cloud_dir, (int, float)):
+    if not isinstance(cloud_spd, (int, float)):
         if len(cloud_spd) != 1:
             if len(cloud_spd) != n_hours:
                 raise ValueError('cloud_spd must be either a single value or a'
-- 
2.43.0


From 696bd50f65d2eca3684e5bd166ac913850beb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 17/19] fix: get_positional_ts honours pixres

---
 src/solarspatialtools/synthirrad/cloudfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/synthirrad/cloudfield.py b/src/solarspatialtools/synthirrad/cloudfield.py
index 980aa4b..aa49f20 100644
--- a/src/solarspatialtools/synthirrad/cloudfield.py
+++ b/src/solarspatialtools/synthirrad/cloudfield.py
@@ -562,9 +562,9 @@ def get_positional_ts(tgt_position, field, cloud_speed, duration=3600, pixres=1)
     """
 
     # Convert to the temporal coordinate system
-    x = int(tgt_position[0]/cloud_speed)
-    y = int(tgt_position[1]/cloud_speed)
-    sim_kt = field[x:x + int(duration) + 1, y]
+    x = int(tgt_position[0]/cloud_speed/pixres)
+    y = int(tgt_position[1]/cloud_speed/pixres)
+    sim_kt = field[x:x + int(duration/pixres) + 1, y]
 
     return sim_kt
 
-- 
2.43.0


From 700f830fc69a4953981d5d4c1efdb1520475b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:29 +0000
Subject: [PATCH 18/19] fix: interp_nan leaves all of a nan period that is
 longer than limit as nan

---
 src/solarspatialtools/dataio/hope_campaign.py | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index db902bb..6463884 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -180,20 +180,13 @@ def interp_nan(data, limit=5):
 
     for col in datanew.columns:
         datanew_i = datanew[col]
-        # interpolate limiting things to 5s or shorter nan windows
-        datanew_i = datanew_i.interpolate(limit=limit, limit_area='inside')
-
-        # Find the cases where things were nan for more than limit, and add
-        # some padding to ensure we don't interp there
-        blanks = np.isnan(datanew_i).rolling(f'{limit}s').mean() > \
-                 (limit-1)/limit
-        blanks_front = blanks.iloc[:-2*limit]
-        blanks_back = blanks.iloc[2*limit:]
-        blanks_union = blanks_front.values | blanks_back.values
-        blanks = pd.Series(np.pad(blanks_union, limit), index=blanks.index)
-        datanew_i[blanks] = np.nan
-
-        datanew[col] = datanew_i
+        # Length of the period of nan values that each timestep belongs to
+        isblank = datanew_i.isna()
+        blank_len = isblank.groupby((~isblank).cumsum()).transform('sum')
+
+        # interpolate, then restore the periods that were longer than limit
+        datanew_i = datanew_i.interpolate(limit_area='inside')
+        datanew[col] = datanew_i.mask(isblank & (blank_len > limit))
 
     return datanew
 
-- 
2.43.0


From c4713dbaf0049da66d4fb3f6ad1a1274481b5d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:29 +0000
Subject: [PATCH 19/19] fix: parse_file closes the data file

---
 src/solarspatialtools/dataio/hope_campaign.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index 6463884..276a206 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -249,6 +249,7 @@ def parse_file(filename):
     # Get Irradiance
     irrad = data['rsds'][:]
     irrad_flag = data['rsds_flag'][:]
+    data.close()
 
     # Build Data and Flag Frames
     data = pd.DataFrame(irrad, columns=ids, index=timeindex)
-- 
2.43.0

