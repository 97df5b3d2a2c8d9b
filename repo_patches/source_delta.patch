From 20e6eb30265411236ac512504b81aab6ceaaa8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 01/15] fix: evaluate the line-of-sight attenuation for every
 area-mode distance, not only the first

---
 src/itmlogic/lrprop.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 531cff9..24fea2c 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -157,11 +157,11 @@ def lrprop(d, prop):
             prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)
             prop['wlos'] = 1
 
-            if prop['dist'] > 0:
-                prop['aref'] = (
-                    prop['ael'] + prop['ak1'] *
-                    prop['dist'] + prop['ak2'] * np.log(prop['dist'])
-                    )
+        if prop['dist'] > 0:
+            prop['aref'] = (
+                prop['ael'] + prop['ak1'] *
+                prop['dist'] + prop['ak2'] * np.log(prop['dist'])
+                )
 
     if prop['dist'] <= 0 or prop['dist'] >= prop['dlsa']:
 
-- 
2.43.0


From bd5c624d64fa6bf1f7576d5eec444232d9a0aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 02/15] fix: check the first terminal's own horizon distance
 against its smooth-earth horizon

---
 src/itmlogic/lrprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 24fea2c..916e1a6 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -62,7 +62,7 @@ def lrprop(d, prop):
 
         if (abs(prop['the'][0]) > 0.2 or
             prop['dl'][0] < 0.1 * prop['dls'][0] or
-            prop['dl'][1] > 3 * prop['dls'][0]):
+            prop['dl'][0] > 3 * prop['dls'][0]):
             prop['kwx'] = max(prop['kwx'], 3)
 
         if (abs(prop['the'][1]) > 0.2 or
-- 
2.43.0


From a06dd0883a86a50b052cb86997148aeaf3b4b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 03/15] fix: use the elevation under the second terminal for
 its effective height on line-of-sight paths

---
 src/itmlogic/preparatory_subroutines/qlrpfl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/qlrpfl.py b/src/itmlogic/preparatory_subroutines/qlrpfl.py
index 7ffe6dd..a24287c 100644
--- a/src/itmlogic/preparatory_subroutines/qlrpfl.py
+++ b/src/itmlogic/preparatory_subroutines/qlrpfl.py
@@ -40,7 +40,7 @@ def qlrpfl(prop):
         prop['he'] = []
         za, zb = zlsq1(prop['pfl'], xl[0], xl[1])
         prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - za, 0))
-        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+1] - zb, 0))
+        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - zb, 0))
 
         for j in range(0, 2):
             prop['dl'][j] = (
-- 
2.43.0


From 005ac0396c240b03bfcac7a63bdb2a2f8323c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 04/15] fix: widen an empty least-squares interval to both
 sides instead of shifting it (division by zero)

---
 src/itmlogic/preparatory_subroutines/zlsq1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/zlsq1.py b/src/itmlogic/preparatory_subroutines/zlsq1.py
index 5321c07..c9c146a 100644
--- a/src/itmlogic/preparatory_subroutines/zlsq1.py
+++ b/src/itmlogic/preparatory_subroutines/zlsq1.py
@@ -35,7 +35,7 @@ def zlsq1(z, x1, x2):
 
     if xb <= xa:
         xa = max(xa - 1, 0)
-        xb = xn - max(xn - xb + 1, 0)
+        xb = xn - max(xn - (xb + 1), 0)
 
     ja = xa
     jb = xb
-- 
2.43.0


From 69c557e27b5daf2e51b50c88d58201e097fc7050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 05/15] fix: keep the scatter attenuation at 1001 dB when the
 geometry is inadmissible

---
 src/itmlogic/scatter_attenuation/ascat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/itmlogic/scatter_attenuation/ascat.py b/src/itmlogic/scatter_attenuation/ascat.py
index ebe6fbf..7e2ded3 100644
--- a/src/itmlogic/scatter_attenuation/ascat.py
+++ b/src/itmlogic/scatter_attenuation/ascat.py
@@ -35,6 +35,8 @@ def ascat(d, prop):
         if r1 < 0.2 and r2 < 0.2:
             prop['ascat1'] = 1001
 
+            return prop
+
         ss = (d - prop['ad']) / (d + prop['ad'])
 
         q = prop['rr'] / ss
@@ -61,9 +63,7 @@ def ascat(d, prop):
         if h0 > 15 and prop['h0s'] >= 0:
             h0 = prop['h0s']
 
-        if prop['ascat1'] != 1001:
-
-            prop['h0s'] = h0
+        prop['h0s'] = h0
 
     th = prop['tha'] + d * prop['gme']
 
-- 
2.43.0


From 023bb61387ed706a7aae304cef5d3e6ee43e5146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 06/15] fix: keep the ground conductivity in the area runners'
 surface impedance

---
 scripts/area.py        | 2 +-
 scripts/area_2tiles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/area.py b/scripts/area.py
index 6dd5b03..7d5b399 100644
--- a/scripts/area.py
+++ b/scripts/area.py
@@ -161,7 +161,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
diff --git a/scripts/area_2tiles.py b/scripts/area_2tiles.py
index b9fee7d..d22d8a7 100644
--- a/scripts/area_2tiles.py
+++ b/scripts/area_2tiles.py
@@ -162,7 +162,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
-- 
2.43.0


From c8dcf39f9afb9246c54a05de75a8d63886ff72ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 07/15] fix: pass fractions, not percentages, to qerfi in the
 PIMTER runner

---
 scripts/pimter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index 6bd4d0d..b252821 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -86,8 +86,8 @@ def run_itmlogic(surface_profile_m, distance_km):
     DB = 8.685890
     NC = len(qc)
     NR = len(qr)
-    ZR = qerfi(qr) #ZR = qerfi(qr / 100)
-    ZC = qerfi(qc) #ZC = qerfi(qc / 100)
+    ZR = qerfi([x / 100 for x in qr])
+    ZC = qerfi([x / 100 for x in qc])
 
     # Inverse Earth radius
     prop['gma']  = 157E-9
-- 
2.43.0


From ecf2862c5db06841c2fc90575cbed3a3851b221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 08/15] fix: use the surface profile passed to the PIMTER
 runner

---
 scripts/pimter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index b252821..97c5a29 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -103,7 +103,7 @@ def run_itmlogic(surface_profile_m, distance_km):
 
     PFL.append(len(distance_km)-1)
     PFL.append(distance_km[1] - distance_km[0])
-    PFL = PFL + terrain_height_no_tree
+    PFL = PFL + surface_profile_m
 
     #Length of profile (km)
     prop['d'] = distance_km[-1]/1000
-- 
2.43.0


From 086b5515384fc25e999109ac4ffa33d781080787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 09/15] fix: sample the terrain profile up to and including the
 receiver

---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index fa6efe2..542ed69 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -161,7 +161,7 @@ def terrain_p2p(dem, line):
 
     # Interpolate along line to get sampling points
     num_samples = determine_num_samples(distance_m)
-    steps = np.interp(range(num_samples), [0,num_samples], [0, line_geom.length])
+    steps = np.interp(range(num_samples), [0, num_samples - 1], [0, line_geom.length])
     point_geoms = [line_geom.interpolate(currentdistance) for currentdistance in steps]
 
     # Sample elevation profile
-- 
2.43.0


From d34d11abc48320a048eda9ce2a8b57a03c1a61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 10/15] fix: leave masked cells out of the interdecile range

---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 542ed69..579d06e 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -112,7 +112,7 @@ def interdecile_range(x):
         The terrain irregularity parameter.
 
     """
-    q90, q10 = np.percentile(x, [90, 10])
+    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])
 
     interdecile_range = int(round(q90 - q10, 0))
 
-- 
2.43.0


From 87bdec27887fbbbbd7f694218243d826565111b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 11/15] fix: report the dominant mode of the region the path
 lies in

---
 scripts/p2p.py        | 9 +++++----
 scripts/p2p_2tiles.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/scripts/p2p.py b/scripts/p2p.py
index 6752366..fa48ce5 100644
--- a/scripts/p2p.py
+++ b/scripts/p2p.py
@@ -197,10 +197,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if prop['dist'] >= prop['dlsa']:
+        if prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 90d4e9b..96ad30f 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -195,10 +195,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if prop['dist'] >= prop['dlsa']:
+        if prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
-- 
2.43.0


From de9990751919ecaa0ae97f81428bb46baad80f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 12/15] fix: name the axis in sort_index (positional form is
 rejected by pandas)

---
 vis/vis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vis/vis.py b/vis/vis.py
index 1e79341..1a32f27 100644
--- a/vis/vis.py
+++ b/vis/vis.py
@@ -30,7 +30,7 @@ def plot_area_results(path):
     """
     data = pd.read_csv(path)
 
-    data = data.set_index(['distance_km','confidence_level_%']).unstack().swaplevel(0,1,1).sort_index(1)
+    data = data.set_index(['distance_km','confidence_level_%']).unstack().swaplevel(0,1,1).sort_index(axis=1)
     ax =  data.plot.line()
     ax.set_xlabel("Distance (km)")
     ax.set_ylabel("Propagation Loss (dB)")
@@ -58,7 +58,7 @@ def plot_p2p_results(path):
 
     data = data.set_index(
         ['reliability_level_%', 'confidence_level_%']
-        ).unstack().swaplevel(0,1,1).sort_index(1)
+        ).unstack().swaplevel(0,1,1).sort_index(axis=1)
 
     ax =  data.plot.bar(rot=0)
     ax.set_xlabel("Reliability (%)")
-- 
2.43.0


From 480a2445c0567f62d0f7e18b365eb371a09a7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:36 +0000
Subject: [PATCH 13/15] fix: leave out the cells the elevation model declares
 as without data

---
 scripts/terrain_module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 579d06e..12fef5e 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -49,6 +49,10 @@ def terrain_area(dem, lon, lat, cell_range):
     # Buffer around cell point
     cell_area = geodesic_point_buffer(lon, lat, cell_range)
 
+    # Value that marks cells without data
+    with rasterio.open(dem) as source:
+        nodata = -9999 if source.nodata is None else source.nodata
+
     # Calculate raster stats
     stats = next(gen_zonal_stats(
         [cell_area],
@@ -56,7 +60,7 @@ def terrain_area(dem, lon, lat, cell_range):
         add_stats={
             'interdecile_range': interdecile_range
         },
-        nodata=-9999
+        nodata=nodata
     ))
 
     id_range = stats['interdecile_range']
-- 
2.43.0


From d29040b5c97b4e12459754e11c2991b3086cd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 14/15] fix: two-tile point-to-point runner fails in a data
 folder without a shapes folder

---
 scripts/p2p_2tiles.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 96ad30f..a3a5fcd 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -425,15 +425,20 @@ if __name__ == '__main__':
         'properties': {'elevation': 'float'}
     }
 
+    if not os.path.exists(directory_shapes):
+        os.makedirs(directory_shapes)
+
+    path_shapes = os.path.join(directory_shapes, 'p2p_2tiles.shp')
+
     crs = from_epsg(4326)
-    with fiona.open('data/processed/shapes/p2p_2tiles.shp',
+    with fiona.open(path_shapes,
                     'w',
                     driver='ESRI Shapefile',
                     crs=crs,
                     schema=schema) as fh:
         for point in points:
             fh.write(point)
-    print("Wrote two-tile profile to data/processed/shapes/p2p_2tiles.shp")
+    print("Wrote two-tile profile to {}".format(path_shapes))
 
     #Run model and get output
     output = itmlogic_p2p(main_user_defined_parameters, original_surface_profile_m)
-- 
2.43.0


From da04e1b86fcbace1c079446756c40507c87f40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:05 +0000
Subject: [PATCH 15/15] fix: do not count cells beyond the edge of the
 elevation model as sea level

---
 scripts/terrain_module.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 12fef5e..4a76912 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -20,7 +20,7 @@ import numpy as np
 from fiona.crs import from_epsg
 from rasterstats import gen_zonal_stats, point_query
 from shapely.ops import transform
-from shapely.geometry import Point, LineString, mapping
+from shapely.geometry import Point, LineString, box, mapping
 
 
 def terrain_area(dem, lon, lat, cell_range):
@@ -49,10 +49,13 @@ def terrain_area(dem, lon, lat, cell_range):
     # Buffer around cell point
     cell_area = geodesic_point_buffer(lon, lat, cell_range)
 
-    # Value that marks cells without data
     with rasterio.open(dem) as source:
+        # Value that marks cells without data
         nodata = -9999 if source.nodata is None else source.nodata
 
+        # There is no data beyond the edge of the elevation model
+        cell_area = cell_area.intersection(box(*source.bounds))
+
     # Calculate raster stats
     stats = next(gen_zonal_stats(
         [cell_area],
-- 
2.43.0

