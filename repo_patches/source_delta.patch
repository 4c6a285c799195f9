From 3e8d51b2f0e97b33d4cde72fd14c90e190fccc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 01/49] fix: compiled fill loops skip the last row and column
 of each sweep

The pure Python loops include both ends. The compiled ones did not, so sweeps could
report no change before the terrain was filled, and 3 cells wide or high terrains were refused.
---
 malstroem/algorithms/speedups/_fill.pyx | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/malstroem/algorithms/speedups/_fill.pyx b/malstroem/algorithms/speedups/_fill.pyx
index 293699a..94965c7 100644
--- a/malstroem/algorithms/speedups/_fill.pyx
+++ b/malstroem/algorithms/speedups/_fill.pyx
@@ -28,8 +28,6 @@ cimport cython
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILL, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
 
@@ -38,11 +36,12 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    # Both ends are part of the processing area
+    while True:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while True:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if(filled_value > dtm_value):
@@ -64,7 +63,11 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
                 if( new_value != filled_value):
                     filled[row, col] = new_value
                     changes += 1
+            if col == tocol:
+                break
             col += colstep
+        if row == torow:
+            break
         row += rowstep
 
     return changes
@@ -72,8 +75,6 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILLNOFLAT, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol, DTYPE_t_FILLNOFLAT short, DTYPE_t_FILLNOFLAT diag):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
 
@@ -82,11 +83,12 @@ def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndar
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    # Both ends are part of the processing area
+    while True:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while True:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if filled_value > dtm_value:
@@ -118,7 +120,11 @@ def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndar
                 if new_value != filled_value:
                     filled[row, col] = new_value
                     changes += 1
+            if col == tocol:
+                break
             col += colstep
+        if row == torow:
+            break
         row += rowstep
 
     return changes
-- 
2.43.0


From 8aa03486fcde736a175de2981f0023133dca84ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 02/49] fix: pourpts -dem must substitute nodata like the other
 commands

With a large nodata value (eg. -3.4e38) the minimum slope was derived from it, which moved the pour points.
---
 malstroem/scripts/bluespot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 861feae..993bf05 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -28,6 +28,8 @@ from ._utils import parse_filter
 from malstroem.algorithms import label, flow, fill
 from osgeo import ogr
 
+NODATASUBST = -999
+
 @click.command('bspots')
 @click.option('-depths', required=True, type=click.Path(exists=True), help='Depths file')
 @click.option('-out', required=True, type=click.Path(exists=False), help='Output file (bluespots)')
@@ -115,7 +117,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     data = accum if accum else dem
     if not data:
         raise Exception('Either accum or dem must be specified')
-    data_reader = io.RasterReader(data)
+    # Nodata has no meaning in accumulated flow, but must be substituted in the dem like everywhere else
+    data_reader = io.RasterReader(data) if accum else io.RasterReader(data, nodatasubst=NODATASUBST)
 
     format = str(format)
     layername = str(layername)
-- 
2.43.0


From 745fc208b64add5d20e5b381f32d3016a3bf4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 03/49] fix: BluespotTool without a filter function used
 undefined variables

---
 malstroem/bluespots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index aa861be..f14485b 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -160,7 +160,9 @@ class BluespotTool(object):
         raw_bluespot_stats = label.label_stats(depths, raw_labeled)
         if not self.input_bluespot_filter_function:
             self.logger.info("Final number of bluespots (No filter specified): {}".format(raw_nlabels))
-            self.output_labeled_raster.write(raw_labeled)
+            labeled, nlabels = raw_labeled, raw_nlabels
+            bluespot_stats = raw_bluespot_stats
+            self.output_labeled_raster.write(labeled)
         else:
             self.logger.info("Number of bluespots found before filtering: {}".format(raw_nlabels))
             self.logger.info("Calculating filtered bluespots")
-- 
2.43.0


From 5a28f04b419958f1379bfa90f5de8c8c236a443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 04/49] fix: complete must fail when outdir is not an empty
 directory

The return value of a click command is ignored, so the process ended with exit code 0.
---
 malstroem/scripts/complete.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/malstroem/scripts/complete.py b/malstroem/scripts/complete.py
index 4a2538a..4112dff 100644
--- a/malstroem/scripts/complete.py
+++ b/malstroem/scripts/complete.py
@@ -45,8 +45,7 @@ def process_all(dem, outdir, accum, filter, mm, zresolution, vector):
     """
     # Check that outdir exists and is empty
     if not os.path.isdir(outdir) or not os.path.exists(outdir) or os.listdir(outdir):
-        logger.error("outdir isn't an empty directory")
-        return 1
+        raise click.ClickException("outdir isn't an empty directory")
 
     outvector = os.path.join(outdir, 'malstroem.gpkg')
     ogr_drv = 'gpkg'
-- 
2.43.0


From 1f435c6825cf999651276bd2df2d22bb7066a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 05/49] fix: restore GDAL error handler when an output
 datasource does not exist yet

The quiet error handler stayed on the stack for the rest of the process, and a bare except
swallowed interrupts.
---
 malstroem/io.py     | 7 ++++---
 malstroem/vector.py | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 91b193b..bae0a14 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -263,12 +263,13 @@ class VectorWriter(object):
             srs.ImportFromWkt(self.crs)
         drv = ogr.GetDriverByName(self.driver)
 
+        gdal.PushErrorHandler('CPLQuietErrorHandler')
         try:
-            gdal.PushErrorHandler('CPLQuietErrorHandler')
             self._ds = ogr.Open(self.datasource, update=1)
-            gdal.PopErrorHandler()
-        except:
+        except Exception:
             self._ds = None
+        finally:
+            gdal.PopErrorHandler()
 
         if self._ds is None:
             self._ds = drv.CreateDataSource(self.datasource, options=self.dsco)
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 333abf6..3d881d4 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -93,13 +93,14 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     src_band = src_ds.GetRasterBand(1)
 
     # Create a memory OGR datasource to put results in.
+    gdal.PushErrorHandler('CPLQuietErrorHandler')
     try:
-        gdal.PushErrorHandler('CPLQuietErrorHandler')
         dst_ds = ogr.Open(out_ds, update=1)
-        gdal.PopErrorHandler()
-    except:
+    except Exception:
         dst_ds = None
-    
+    finally:
+        gdal.PopErrorHandler()
+
     if not dst_ds:
         dst_drv = ogr.GetDriverByName(out_format)
         dst_ds = dst_drv.CreateDataSource(out_ds, options = out_dsco)
-- 
2.43.0


From 06af95f076d37dc39f694a5ea62ecc6bfa180e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 06/49] fix: VectorReader continued where an earlier, abandoned
 reading stopped

---
 malstroem/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index bae0a14..f7c9248 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -413,6 +413,8 @@ class VectorReader(object):
         osgeo.ogr.Feature
             Next feature
         """
+        # An earlier reading may have been abandoned half way
+        self._lyr.ResetReading()
         f = self._lyr.GetNextFeature()
         while f:
             yield f
-- 
2.43.0


From 47d7d6898645a60691f178bd363afb3f8ae5a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 07/49] fix: RasterReader did not substitute a nodata value of
 0

---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index f7c9248..8deb4f1 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -75,7 +75,7 @@ class RasterReader(object):
         ndarray
         """
         data = self._bnd.ReadAsArray()
-        if self.nodata and self.nodatasubst is not None:
+        if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
             data[mask] = self.nodatasubst
         return data
-- 
2.43.0


From 6527fa352a552d6af2328a30f28b39ae11973dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 08/49] fix: StreamTool must identify pourpoints by bspot_id,
 not by their position in the layer

---
 malstroem/streams.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/malstroem/streams.py b/malstroem/streams.py
index 885c80c..9932ff2 100644
--- a/malstroem/streams.py
+++ b/malstroem/streams.py
@@ -63,15 +63,14 @@ class StreamTool(object):
         cell_area = cell_width * cell_height
         flowdir = self.input_flowdir.read()
         labeled_bluespots = self.input_bluespots.read()
-        pourpoints = self.input_pourpoints.read_geojson_features()
-
-        pourpoints_pix = [(pp['properties']['cell_row'], pp['properties']['cell_col']) for pp in pourpoints]
+        # Features may come in any order
+        pourpoints = sorted(self.input_pourpoints.read_geojson_features(), key=lambda pp: pp['properties']['bspot_id'])
 
         self.logger.info("Processing stream network")
         if self.output_streams is not None:
-            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
         else:
-            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
 
         self.logger.info("Writing {} nodes".format(len(nodes)))
         pp_index = {pp['properties']['bspot_id']: pp for pp in pourpoints}
-- 
2.43.0


From df2e6fada6088132116a63bbd095446f7117e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 09/49] fix: RasterWriter reported success when the file could
 not be written completely

GDAL reports no errors that happen while it flushes its buffers on close, so read the data back.
---
 malstroem/io.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index 8deb4f1..4b060b3 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -191,7 +191,23 @@ class RasterWriter(object):
             outbnd.SetNoDataValue(self.nodata)
         outbnd.WriteArray(data, 0, 0)
         outds.FlushCache()
+        outbnd = None
         outds = None
+        self._verify(data)
+
+    def _verify(self, data):
+        """Check that the file holds what was written to it
+
+        GDAL does not report errors (eg. disk full) which happen when the last buffers are flushed to disk on close.
+        """
+        ds = gdal.Open(self.filepath)
+        bnd = ds.GetRasterBand(1)
+        rows, cols = data.shape
+        for row in range(0, rows, 1024):
+            block = data[row:row + 1024]
+            written = bnd.ReadAsArray(0, row, cols, block.shape[0])
+            if not np.array_equal(block, written, equal_nan=data.dtype.kind == 'f'):
+                raise IOError("Failed to write {}".format(self.filepath))
 
 
 class VectorWriter(object):
-- 
2.43.0


From ad351edea7998a3f40b778a0bbf2c1e4d44670c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 10/49] fix: VectorWriter failed on an empty sequence of
 features

For instance 'complete -vector' on a terrain without bluespots.
---
 malstroem/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 4b060b3..80f6891 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -360,7 +360,9 @@ class VectorWriter(object):
             raise Exception('Error while writing to layer {}'.format(self.layername))
 
     def close(self):
-        self._lyr.CommitTransaction()
+        # There is no transaction before the first feature
+        if self.fieldsinitialized:
+            self._lyr.CommitTransaction()
         self._lyr = None
         self._ds = None
 
-- 
2.43.0


From a0cfc872eed4124dad257113cb3bb290acc77162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 11/49] fix: polys reported success when polygons could not be
 written completely

Neither the result of Polygonize nor errors which happen when the datasource is closed were seen.
---
 malstroem/vector.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/malstroem/vector.py b/malstroem/vector.py
index 3d881d4..060c43a 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -39,6 +39,35 @@ def transform_cell_to_world(cell, geotransform):
     return (x, y)
 
 
+def check_layer_written(datasource, layername, num_features=None):
+    """Check that a layer which was just written holds what was written to it
+
+    GDAL does not report errors (eg. disk full) which happen while the last buffers are flushed to disk when a datasource
+    is closed.
+
+    Parameters
+    ----------
+    datasource : str
+        OGR datasource string
+    layername : str
+        Layer name
+    num_features : int, optional
+        Number of features the layer must hold
+
+    """
+    ds = ogr.Open(datasource)
+    lyr = ds.GetLayerByName(layername)
+    if lyr is None and ds.GetLayerCount() == 1:
+        # Formats with a single layer may use their own layer name
+        lyr = ds.GetLayerByIndex(0)
+    readable = 0
+    if lyr is not None:
+        while lyr.GetNextFeature():
+            readable += 1
+    if lyr is None or (num_features is not None and readable != num_features):
+        raise IOError('Failed to write {} to {}'.format(layername, datasource))
+
+
 def vectorize_labels_file(labeled_file, id_attribute='bspot_id'):
     """Vectorize bluespot id raster
 
@@ -120,7 +149,15 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     else:
         progress_callback = gdal.TermProgress_nocb
     result = gdal.Polygonize(src_band, src_band.GetMaskBand(), dst_layer, 0, options, callback=progress_callback)
+    if result != 0:
+        raise Exception('Vectorization failed')
+
+    # Not all formats can tell before they are closed
+    num_features = dst_layer.GetFeatureCount() if dst_layer.TestCapability(ogr.OLCRandomRead) else None
+    layername = dst_layer.GetName()
 
     src_band = None
     src_ds = None
-    dst_ds = None
\ No newline at end of file
+    dst_layer = None
+    dst_ds = None
+    check_layer_written(out_ds, layername, num_features)
-- 
2.43.0


From f885f19bdf35f9dc1e1ab5a1d104489cdb3cfb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 12/49] fix: VectorWriter reported success when features could
 not be read from the temporary file or written completely

GDAL does not report read errors of the temporary file, nor errors that happen while it flushes its buffers on close.
---
 malstroem/io.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index 80f6891..8f4b31b 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -18,6 +18,7 @@ from pathlib import Path
 from osgeo import gdal, ogr, osr
 import numpy as np
 import json
+from .vector import check_layer_written
 
 gdal.UseExceptions()
 
@@ -268,6 +269,7 @@ class VectorWriter(object):
 
         self._ds = None
         self._lyr = None
+        self._existing_layer = False
         self.fieldsinitialized = False
 
     def _init_datasource(self):
@@ -293,6 +295,7 @@ class VectorWriter(object):
             raise Exception("Cannot open or create datasource: {} for writing of {}".format(self.datasource, self.layername))
 
         self._lyr = self._ds.GetLayerByName(self.layername)
+        self._existing_layer = self._lyr is not None
         if self._lyr is None:
             self._lyr = self._ds.CreateLayer(self.layername, srs, self.geomtype, self.lco)
 
@@ -320,6 +323,9 @@ class VectorWriter(object):
 
         """
         self._init_datasource()
+        num_existing = self._lyr.GetFeatureCount() if self._existing_layer else 0
+        num_features = 0
+        num_written = 0
         # Write features to temporary geojson file and read it back again.
         # TODO: YUCK! Rewrite to avoid this!
         with TemporaryDirectory() as tmpdir:
@@ -332,9 +338,11 @@ class VectorWriter(object):
                         if ix > 0:
                             f.write(",")
                         json.dump(feature, f)
+                        num_features += 1
                     f.write(']}')
                 else:
                     json.dump(geojsonfeatures, f)
+                    num_features = len(geojsonfeatures['features'])
             # NOW read the tmp file back in 
             drv = ogr.GetDriverByName('GeoJSON')
             ds = drv.Open(str(tmpfilepath))
@@ -343,10 +351,17 @@ class VectorWriter(object):
             f = lyr.GetNextFeature()
             while f:
                 self._write_ogr_feature(f)
+                num_written += 1
                 f = lyr.GetNextFeature()
             lyr = None
             ds = None
+            if num_written != num_features:
+                # GDAL does not report read errors
+                raise IOError('Only {} of {} features could be read from {}'.format(num_written, num_features, tmpfilepath))
+            # The format may not support all layer names
+            layername = self._lyr.GetName()
             self.close()
+        check_layer_written(self.datasource, layername, num_existing + num_written)
 
     def _write_ogr_feature(self, ogrfeature):
         if not self.fieldsinitialized:
-- 
2.43.0


From 57d7af3724bd4183ef003f499f529d291525c98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 13/49] fix: report success only when a written layer has kept
 its fields

A shapefile is readable when its dbf file could not be written completely, but has no attributes.
---
 malstroem/io.py     |  2 +-
 malstroem/vector.py | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 8f4b31b..340ebd4 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -361,7 +361,7 @@ class VectorWriter(object):
             # The format may not support all layer names
             layername = self._lyr.GetName()
             self.close()
-        check_layer_written(self.datasource, layername, num_existing + num_written)
+        check_layer_written(self.datasource, layername, num_existing + num_written, bool(self.fields))
 
     def _write_ogr_feature(self, ogrfeature):
         if not self.fieldsinitialized:
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 060c43a..4c8cd70 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -39,7 +39,7 @@ def transform_cell_to_world(cell, geotransform):
     return (x, y)
 
 
-def check_layer_written(datasource, layername, num_features=None):
+def check_layer_written(datasource, layername, num_features=None, has_fields=True):
     """Check that a layer which was just written holds what was written to it
 
     GDAL does not report errors (eg. disk full) which happen while the last buffers are flushed to disk when a datasource
@@ -53,6 +53,8 @@ def check_layer_written(datasource, layername, num_features=None):
         Layer name
     num_features : int, optional
         Number of features the layer must hold
+    has_fields : bool
+        Features in the layer must have fields
 
     """
     ds = ogr.Open(datasource)
@@ -64,7 +66,11 @@ def check_layer_written(datasource, layername, num_features=None):
     if lyr is not None:
         while lyr.GetNextFeature():
             readable += 1
-    if lyr is None or (num_features is not None and readable != num_features):
+    ok = lyr is not None
+    ok = ok and (num_features is None or readable == num_features)
+    # A shapefile can lose its fields and still be readable
+    ok = ok and (not has_fields or not readable or lyr.GetLayerDefn().GetFieldCount() > 0)
+    if not ok:
         raise IOError('Failed to write {} to {}'.format(layername, datasource))
 
 
-- 
2.43.0


From 5ccbed88096411a4c38aa0fb4bcf4f849f4c0e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 14/49] fix: report success only when a written layer has kept
 its coordinate reference system

Also do not try to read back write only formats.
---
 malstroem/io.py     |  3 ++-
 malstroem/vector.py | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 340ebd4..7021490 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -360,8 +360,9 @@ class VectorWriter(object):
                 raise IOError('Only {} of {} features could be read from {}'.format(num_written, num_features, tmpfilepath))
             # The format may not support all layer names
             layername = self._lyr.GetName()
+            has_crs = self._lyr.GetSpatialRef() is not None
             self.close()
-        check_layer_written(self.datasource, layername, num_existing + num_written, bool(self.fields))
+        check_layer_written(self.driver, self.datasource, layername, num_existing + num_written, bool(self.fields), has_crs)
 
     def _write_ogr_feature(self, ogrfeature):
         if not self.fieldsinitialized:
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 4c8cd70..a9bad6f 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -39,7 +39,7 @@ def transform_cell_to_world(cell, geotransform):
     return (x, y)
 
 
-def check_layer_written(datasource, layername, num_features=None, has_fields=True):
+def check_layer_written(driver, datasource, layername, num_features=None, has_fields=True, has_crs=False):
     """Check that a layer which was just written holds what was written to it
 
     GDAL does not report errors (eg. disk full) which happen while the last buffers are flushed to disk when a datasource
@@ -47,6 +47,8 @@ def check_layer_written(datasource, layername, num_features=None, has_fields=Tru
 
     Parameters
     ----------
+    driver : str
+        OGR format driver name
     datasource : str
         OGR datasource string
     layername : str
@@ -55,8 +57,13 @@ def check_layer_written(datasource, layername, num_features=None, has_fields=Tru
         Number of features the layer must hold
     has_fields : bool
         Features in the layer must have fields
+    has_crs : bool
+        The layer must have a coordinate reference system
 
     """
+    if not ogr.GetDriverByName(driver).GetMetadataItem(gdal.DCAP_OPEN):
+        # Write only format
+        return
     ds = ogr.Open(datasource)
     lyr = ds.GetLayerByName(layername)
     if lyr is None and ds.GetLayerCount() == 1:
@@ -68,8 +75,9 @@ def check_layer_written(datasource, layername, num_features=None, has_fields=Tru
             readable += 1
     ok = lyr is not None
     ok = ok and (num_features is None or readable == num_features)
-    # A shapefile can lose its fields and still be readable
+    # A shapefile can lose its fields or its coordinate reference system and still be readable
     ok = ok and (not has_fields or not readable or lyr.GetLayerDefn().GetFieldCount() > 0)
+    ok = ok and (not has_crs or lyr.GetSpatialRef() is not None)
     if not ok:
         raise IOError('Failed to write {} to {}'.format(layername, datasource))
 
@@ -161,9 +169,10 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     # Not all formats can tell before they are closed
     num_features = dst_layer.GetFeatureCount() if dst_layer.TestCapability(ogr.OLCRandomRead) else None
     layername = dst_layer.GetName()
+    has_crs = dst_layer.GetSpatialRef() is not None
 
     src_band = None
     src_ds = None
     dst_layer = None
     dst_ds = None
-    check_layer_written(out_ds, layername, num_features)
+    check_layer_written(out_format, out_ds, layername, num_features, has_crs=has_crs)
-- 
2.43.0


From d4cdbc8a7541ec3c1e56f249be0f0ac48285dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 15/49] fix: a read error while opening an existing datasource
 destroyed all its layers

When an existing file could not be opened for update it was silently replaced by a new one.
---
 malstroem/io.py     |  3 ++-
 malstroem/vector.py | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 7021490..0af66c4 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -18,7 +18,7 @@ from pathlib import Path
 from osgeo import gdal, ogr, osr
 import numpy as np
 import json
-from .vector import check_layer_written
+from .vector import check_layer_written, check_replaceable
 
 gdal.UseExceptions()
 
@@ -290,6 +290,7 @@ class VectorWriter(object):
             gdal.PopErrorHandler()
 
         if self._ds is None:
+            check_replaceable(self.datasource, self.layername)
             self._ds = drv.CreateDataSource(self.datasource, options=self.dsco)
         if self._ds is None:
             raise Exception("Cannot open or create datasource: {} for writing of {}".format(self.datasource, self.layername))
diff --git a/malstroem/vector.py b/malstroem/vector.py
index a9bad6f..4e30dae 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -15,6 +15,7 @@ from __future__ import (absolute_import, division, print_function) #, unicode_li
 from builtins import *
 
 import json
+import os
 from osgeo import gdal, ogr
 
 
@@ -39,6 +40,28 @@ def transform_cell_to_world(cell, geotransform):
     return (x, y)
 
 
+def check_replaceable(datasource, layername):
+    """Check that creating a datasource does not destroy anything but the layer which is about to be written
+
+    GDAL deletes an existing file when a datasource is created.
+
+    Parameters
+    ----------
+    datasource : str
+        OGR datasource string
+    layername : str
+        Name of the layer about to be written
+
+    """
+    if not os.path.isfile(datasource) or not os.path.getsize(datasource):
+        return
+    ds = ogr.Open(datasource)
+    if ds.GetDriver().GetMetadataItem('DCAP_MULTIPLE_VECTOR_LAYERS'):
+        others = [ds.GetLayerByIndex(ix).GetName() for ix in range(ds.GetLayerCount())]
+        if [name for name in others if name != layername]:
+            raise IOError('Cannot update {}, and it holds other layers: {}'.format(datasource, ', '.join(others)))
+
+
 def check_layer_written(driver, datasource, layername, num_features=None, has_fields=True, has_crs=False):
     """Check that a layer which was just written holds what was written to it
 
@@ -145,6 +168,7 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
         gdal.PopErrorHandler()
 
     if not dst_ds:
+        check_replaceable(out_ds, out_layer)
         dst_drv = ogr.GetDriverByName(out_format)
         dst_ds = dst_drv.CreateDataSource(out_ds, options = out_dsco)
 
-- 
2.43.0


From 5017130aa958d8cbf521a045c74c00c858bca207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 16/49] fix: a GeoPackage whose last writer died could not be
 read until it was opened for update

---
 malstroem/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 0af66c4..cbff55c 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -415,7 +415,12 @@ class VectorReader(object):
     def _init_datasource(self):
         if self._ds:
             return
-        self._ds = ogr.Open(self.datasource, update=0)
+        try:
+            self._ds = ogr.Open(self.datasource, update=0)
+        except RuntimeError:
+            # A GeoPackage whose last writer died must be opened for update once to be rolled back
+            self._ds = ogr.Open(self.datasource, update=1)
+            self._ds = ogr.Open(self.datasource, update=0)
         if self._ds is None:
             raise Exception("Cannot open datasource: {}".format(self.datasource))
 
-- 
2.43.0


From 2dd28b873403fd3f0154090d8db63924fbcc857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 17/49] fix: a raster step could not be rerun without removing
 the partial file of a run which died

---
 malstroem/io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index cbff55c..1212fd9 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -15,6 +15,7 @@ from __future__ import (absolute_import, division, print_function)  # , unicode_
 from builtins import *
 from tempfile import TemporaryDirectory
 from pathlib import Path
+import os
 from osgeo import gdal, ogr, osr
 import numpy as np
 import json
@@ -176,6 +177,13 @@ class RasterWriter(object):
         if not gdal_datatype:
             raise NotImplementedError(f"Cannot determine GDAL datatype for numpy datatype {data.dtype} with values in the range [{min_val},{max_val}]")
 
+        if os.path.isfile(self.filepath):
+            try:
+                gdal.Open(self.filepath)
+            except RuntimeError:
+                # GDAL fails to replace the partial file of an earlier run which died
+                os.remove(self.filepath)
+
         drv = gdal.GetDriverByName(self.driver)
         opts = ["{}={}".format(k, v) for k, v in gdal_options.items()]
         outds = drv.Create(self.filepath, data.shape[1], data.shape[0], 1, gdal_datatype, opts)
-- 
2.43.0


From c40b872fd17ad3fcfead8daefba36eb49cea0a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 18/49] fix: polygons are written to a GeoPackage in one
 transaction

---
 malstroem/vector.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/malstroem/vector.py b/malstroem/vector.py
index 4e30dae..fd6ff80 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -172,6 +172,11 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
         dst_drv = ogr.GetDriverByName(out_format)
         dst_ds = dst_drv.CreateDataSource(out_ds, options = out_dsco)
 
+    # All or nothing if the format supports it. A layer which is only partially created can block its name.
+    transaction = dst_ds.TestCapability(ogr.ODsCTransactions)
+    if transaction:
+        dst_ds.StartTransaction()
+
     srs = src_ds.GetSpatialRef()
     dst_layer = dst_ds.CreateLayer(out_layer, geom_type=ogr.wkbPolygon, srs=srs, options=out_lco)
 
@@ -195,6 +200,9 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     layername = dst_layer.GetName()
     has_crs = dst_layer.GetSpatialRef() is not None
 
+    if transaction:
+        dst_ds.CommitTransaction()
+
     src_band = None
     src_ds = None
     dst_layer = None
-- 
2.43.0


From aed2cbbbfdb489c3572e889416c3617e1ab10832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 19/49] fix: VectorReader silently delivered no or too few
 features after a read error

---
 malstroem/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index 1212fd9..719eafa 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -462,12 +462,17 @@ class VectorReader(object):
             Next feature
         """
         # An earlier reading may have been abandoned half way
+        num_features = self._lyr.GetFeatureCount()
         self._lyr.ResetReading()
         f = self._lyr.GetNextFeature()
         while f:
+            num_features -= 1
             yield f
             f = self._lyr.GetNextFeature()
         self._lyr.ResetReading()
+        if num_features > 0:
+            # GDAL does not report read errors
+            raise IOError("{} features could not be read from datasource: {}".format(num_features, self.datasource))
     
     def reset_reader(self):
         """Resets reader to first record
-- 
2.43.0


From fda9cecec08449643114b0de32636684fcd7488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 20/49] fix: VectorWriter reported success when attribute
 values were lost or cut off

---
 malstroem/io.py     | 14 +++++++-------
 malstroem/vector.py | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 719eafa..be7ff5a 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -19,7 +19,7 @@ import os
 from osgeo import gdal, ogr, osr
 import numpy as np
 import json
-from .vector import check_layer_written, check_replaceable
+from .vector import check_layer_written, check_replaceable, feature_values
 
 gdal.UseExceptions()
 
@@ -334,7 +334,7 @@ class VectorWriter(object):
         self._init_datasource()
         num_existing = self._lyr.GetFeatureCount() if self._existing_layer else 0
         num_features = 0
-        num_written = 0
+        written = []
         # Write features to temporary geojson file and read it back again.
         # TODO: YUCK! Rewrite to avoid this!
         with TemporaryDirectory() as tmpdir:
@@ -359,19 +359,18 @@ class VectorWriter(object):
             lyr = ds.GetLayerByIndex(0)
             f = lyr.GetNextFeature()
             while f:
-                self._write_ogr_feature(f)
-                num_written += 1
+                written.append(self._write_ogr_feature(f))
                 f = lyr.GetNextFeature()
             lyr = None
             ds = None
-            if num_written != num_features:
+            if len(written) != num_features:
                 # GDAL does not report read errors
-                raise IOError('Only {} of {} features could be read from {}'.format(num_written, num_features, tmpfilepath))
+                raise IOError('Only {} of {} features could be read from {}'.format(len(written), num_features, tmpfilepath))
             # The format may not support all layer names
             layername = self._lyr.GetName()
             has_crs = self._lyr.GetSpatialRef() is not None
             self.close()
-        check_layer_written(self.driver, self.datasource, layername, num_existing + num_written, bool(self.fields), has_crs)
+        check_layer_written(self.driver, self.datasource, layername, num_existing + len(written), bool(self.fields), has_crs, written)
 
     def _write_ogr_feature(self, ogrfeature):
         if not self.fieldsinitialized:
@@ -383,6 +382,7 @@ class VectorWriter(object):
         err = self._lyr.CreateFeature(feature)
         if err:
             raise Exception('Error while writing to layer {}'.format(self.layername))
+        return feature_values(feature)
 
     def close(self):
         # There is no transaction before the first feature
diff --git a/malstroem/vector.py b/malstroem/vector.py
index fd6ff80..1123471 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -15,6 +15,7 @@ from __future__ import (absolute_import, division, print_function) #, unicode_li
 from builtins import *
 
 import json
+import math
 import os
 from osgeo import gdal, ogr
 
@@ -62,7 +63,28 @@ def check_replaceable(datasource, layername):
             raise IOError('Cannot update {}, and it holds other layers: {}'.format(datasource, ', '.join(others)))
 
 
-def check_layer_written(driver, datasource, layername, num_features=None, has_fields=True, has_crs=False):
+def feature_values(feature):
+    """All attribute values of an ogr feature by field name"""
+    return {feature.GetFieldDefnRef(ix).GetName(): feature.GetFieldAsString(ix) for ix in range(feature.GetFieldCount())}
+
+
+def _same_value(feature, name, value):
+    ix = feature.GetFieldIndex(name)
+    written = feature.GetFieldAsString(ix) if ix >= 0 else ''
+    if written == value or not (written and value):
+        return written == value
+    if feature.GetFieldDefnRef(ix).GetType() == ogr.OFTReal:
+        # Formats have their own precision
+        return math.isclose(float(written), float(value), rel_tol=1e-9, abs_tol=1e-9)
+    try:
+        float(value)
+        return False
+    except ValueError:
+        # Formats have their own limits to length and character set of text
+        return True
+
+
+def check_layer_written(driver, datasource, layername, num_features=None, has_fields=True, has_crs=False, values=()):
     """Check that a layer which was just written holds what was written to it
 
     GDAL does not report errors (eg. disk full) which happen while the last buffers are flushed to disk when a datasource
@@ -82,6 +104,8 @@ def check_layer_written(driver, datasource, layername, num_features=None, has_fi
         Features in the layer must have fields
     has_crs : bool
         The layer must have a coordinate reference system
+    values : list of dict
+        Attribute values which the last features in the layer must have
 
     """
     if not ogr.GetDriverByName(driver).GetMetadataItem(gdal.DCAP_OPEN):
@@ -93,10 +117,15 @@ def check_layer_written(driver, datasource, layername, num_features=None, has_fi
         # Formats with a single layer may use their own layer name
         lyr = ds.GetLayerByIndex(0)
     readable = 0
-    if lyr is not None:
-        while lyr.GetNextFeature():
-            readable += 1
     ok = lyr is not None
+    if ok:
+        num_other = (num_features or 0) - len(values)
+        feature = lyr.GetNextFeature()
+        while feature:
+            if 0 <= readable - num_other < len(values):
+                ok = ok and all(_same_value(feature, k, v) for k, v in values[readable - num_other].items())
+            readable += 1
+            feature = lyr.GetNextFeature()
     ok = ok and (num_features is None or readable == num_features)
     # A shapefile can lose its fields or its coordinate reference system and still be readable
     ok = ok and (not has_fields or not readable or lyr.GetLayerDefn().GetFieldCount() > 0)
-- 
2.43.0


From eb0f18a93dc109fc2f04ce26c3d50a93f0501d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 21/49] fix: report success only when an empty shapefile has
 kept its fields

---
 malstroem/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malstroem/vector.py b/malstroem/vector.py
index 1123471..1ce1d32 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -128,7 +128,8 @@ def check_layer_written(driver, datasource, layername, num_features=None, has_fi
             feature = lyr.GetNextFeature()
     ok = ok and (num_features is None or readable == num_features)
     # A shapefile can lose its fields or its coordinate reference system and still be readable
-    ok = ok and (not has_fields or not readable or lyr.GetLayerDefn().GetFieldCount() > 0)
+    keeps_fields = readable or ds.GetDriver().GetName() == 'ESRI Shapefile'
+    ok = ok and (not has_fields or not keeps_fields or lyr.GetLayerDefn().GetFieldCount() > 0)
     ok = ok and (not has_crs or lyr.GetSpatialRef() is not None)
     if not ok:
         raise IOError('Failed to write {} to {}'.format(layername, datasource))
-- 
2.43.0


From e91ddda79bd6153967b4b1e7a1c256e82c1d7b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 22/49] fix: a missing empty layer was mistaken for the only
 other layer of the datasource

---
 malstroem/vector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/malstroem/vector.py b/malstroem/vector.py
index 1ce1d32..652c406 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -111,11 +111,14 @@ def check_layer_written(driver, datasource, layername, num_features=None, has_fi
     if not ogr.GetDriverByName(driver).GetMetadataItem(gdal.DCAP_OPEN):
         # Write only format
         return
+    if num_features == 0 and driver.lower() not in ('gpkg', 'esri shapefile', 'geojson', 'csv'):
+        # Most other formats can't be read back without features
+        return
     ds = ogr.Open(datasource)
     lyr = ds.GetLayerByName(layername)
-    if lyr is None and ds.GetLayerCount() == 1:
-        # Formats with a single layer may use their own layer name
-        lyr = ds.GetLayerByIndex(0)
+    if lyr is None:
+        # Formats with a single layer may name it after the file
+        lyr = ds.GetLayerByName(os.path.splitext(os.path.basename(datasource))[0])
     readable = 0
     ok = lyr is not None
     if ok:
-- 
2.43.0


From ffbdb32f1bb07510ac12c808353310349814bd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 23/49] fix: polys could not write to an existing datasource
 without layers

---
 malstroem/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/vector.py b/malstroem/vector.py
index 652c406..53c07a3 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -200,7 +200,7 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     finally:
         gdal.PopErrorHandler()
 
-    if not dst_ds:
+    if dst_ds is None:
         check_replaceable(out_ds, out_layer)
         dst_drv = ogr.GetDriverByName(out_format)
         dst_ds = dst_drv.CreateDataSource(out_ds, options = out_dsco)
-- 
2.43.0


From e3e58d6012b30ccacf4f3477dd6cd74427dc52d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 24/49] fix: two layers which were only partially created
 blocked each other's recovery in a GeoPackage

---
 malstroem/io.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index be7ff5a..2710976 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -278,6 +278,7 @@ class VectorWriter(object):
         self._ds = None
         self._lyr = None
         self._existing_layer = False
+        self._transaction = False
         self.fieldsinitialized = False
 
     def _init_datasource(self):
@@ -303,6 +304,11 @@ class VectorWriter(object):
         if self._ds is None:
             raise Exception("Cannot open or create datasource: {} for writing of {}".format(self.datasource, self.layername))
 
+        # All or nothing if the format supports it. A layer which is only partially created can block its datasource.
+        self._transaction = self._ds.TestCapability(ogr.ODsCTransactions)
+        if self._transaction:
+            self._ds.StartTransaction()
+
         self._lyr = self._ds.GetLayerByName(self.layername)
         self._existing_layer = self._lyr is not None
         if self._lyr is None:
@@ -316,7 +322,8 @@ class VectorWriter(object):
         for f in self.fields:
             self._lyr.CreateField(f)
         self.fieldsinitialized = True
-        self._lyr.StartTransaction()
+        if not self._transaction:
+            self._lyr.StartTransaction()
 
     def write_geojson_features(self, geojsonfeatures):
         """Write features to datasource
@@ -385,9 +392,12 @@ class VectorWriter(object):
         return feature_values(feature)
 
     def close(self):
-        # There is no transaction before the first feature
-        if self.fieldsinitialized:
+        if self._transaction:
+            self._ds.CommitTransaction()
+        elif self.fieldsinitialized:
+            # There is no transaction before the first feature
             self._lyr.CommitTransaction()
+        self._transaction = False
         self._lyr = None
         self._ds = None
 
-- 
2.43.0


From 27c099b0c0190a3ca695d2bcf25536dda65a4ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 25/49] fix: accumulated flow did not stop at cells without
 flow direction

---
 malstroem/algorithms/flow.py            | 2 ++
 malstroem/algorithms/speedups/_flow.pyx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 180788a..2c84c47 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -338,6 +338,8 @@ def trace_accumulated_flow(flowdir, accum, cell):
         accum[cell[0], cell[1]] = s + 1
         # Go to downstream cell
         direction = flowdir[cell[0], cell[1]]
+        if direction == FLOWDIR_NODIR:
+            break
         cell = cell_in_direction(cell, direction)
 
 
diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index 8281447..919f379 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -244,6 +244,8 @@ cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_AC
         accum[cell.r, cell.c] = s + 1
         # Go to downstream cell
         downstream_direction = flowdir[cell.r, cell.c]
+        if downstream_direction > 7:
+            return
         cell = cell_in_direction_cython(cell, downstream_direction)
 
 
-- 
2.43.0


From 84fec330f6f98c44f16f702b87d6ddc70372ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 26/49] fix: compiled label_data ignored its background
 argument

---
 malstroem/algorithms/speedups/_label.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 7936d49..9f50180 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -188,7 +188,7 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
     cdef FloatArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float32_t val
-    cdef np.int32_t lbl, background_lbl
+    cdef np.int32_t lbl, background_lbl = background
 
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(FloatArray() for i in range(max_label + 1))
@@ -198,7 +198,7 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <FloatArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -210,7 +210,7 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
     cdef DoubleArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float64_t val
-    cdef np.int32_t lbl, background_lbl
+    cdef np.int32_t lbl, background_lbl = background
     
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
@@ -220,7 +220,7 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -231,7 +231,7 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
     cdef DoubleArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float64_t val
-    cdef np.int64_t lbl, background_lbl
+    cdef np.int64_t lbl, background_lbl = background
     
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
@@ -241,7 +241,7 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
-- 
2.43.0


From 29bc0afc755476835522bbe52a3a6a7dbde246f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 27/49] fix: hypsometry did not follow switching of the
 speedups

---
 malstroem/hyps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 352b666..439e8bd 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -15,7 +15,7 @@ import logging
 from collections import namedtuple
 
 from malstroem.algorithms import speedups
-from malstroem.algorithms.label import label_stats, label_data
+from malstroem.algorithms import label as label_algorithms
 
 logger = logging.getLogger(__name__)
 
@@ -59,10 +59,10 @@ def bluespot_hypsometry_stats(bluespotlabels, dem, resolution, labels_max = None
         labels_max = np.max(bluespotlabels)
 
     logger.debug("Calculate z stats for each bluespot")
-    label_z_stats = label_stats(dem, bluespotlabels, labels_max)
+    label_z_stats = label_algorithms.label_stats(dem, bluespotlabels, labels_max)
 
     logger.debug("Collecting label data values")
-    label_data_values = label_data(dem, bluespotlabels, labels_max, background=background)
+    label_data_values = label_algorithms.label_data(dem, bluespotlabels, labels_max, background=background)
 
     logger.debug("Calculating histograms")
     for label, data in enumerate(label_data_values):
-- 
2.43.0


From fe4c05d54860e1f80a8178ae56a783c670d91b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 28/49] fix: switching the speedups in several threads at once
 failed or left them half switched

---
 malstroem/algorithms/speedups/__init__.py | 82 ++++++++---------------
 1 file changed, 29 insertions(+), 53 deletions(-)

diff --git a/malstroem/algorithms/speedups/__init__.py b/malstroem/algorithms/speedups/__init__.py
index 7133ba9..80f0721 100644
--- a/malstroem/algorithms/speedups/__init__.py
+++ b/malstroem/algorithms/speedups/__init__.py
@@ -15,6 +15,7 @@
 
 Speedups are enabled by default if they are available.
 """
+import threading
 import warnings
 
 from .. import flow, fill, label
@@ -29,6 +30,25 @@ except ImportError:
 __all__ = ['available', 'enable', 'disable', 'enabled']
 
 _orig = {}
+_lock = threading.Lock()
+
+# What is replaced by its compiled version
+_compiled = [
+    # Fill
+    (fill, '_fill_terrain', _fill._fill_terrain),
+    (fill, '_fill_terrain_no_flats', _fill._fill_terrain_no_flats),
+    # Accumulated flow
+    (flow, 'trace_accumulated_flow', _flow.trace_accumulated_flow),
+    (flow, 'accumulated_flow', _flow.accumulated_flow),
+    # Flow directions
+    (flow, '_terrain_flow', _flow.terrain_flow),
+    # Watershed
+    (flow, 'assign_watersheds_upstream', _flow.assign_watersheds_upstream),
+    # Label
+    (label, 'label_stats', _label.label_stats),
+    (label, 'label_min_index', _label.label_min_index),
+    (label, 'label_data', _label.label_data),
+] if available else []
 
 # keep track of whether speedups are enabled
 enabled = False
@@ -41,66 +61,22 @@ def enable():
         warnings.warn("malstroem.raster.algorithms.speedups not available things will be SLOW", RuntimeWarning)
         return
 
-    if _orig:
-        return
-
-    # Fill
-    _orig['fill._fill_terrain'] = fill._fill_terrain
-    fill._fill_terrain = _fill._fill_terrain
-
-    _orig['fill._fill_terrain_no_flats'] = fill._fill_terrain_no_flats
-    fill._fill_terrain_no_flats = _fill._fill_terrain_no_flats
-
-    # Accumulated flow
-    _orig['flow.trace_accumulated_flow'] = flow.trace_accumulated_flow
-    flow.trace_accumulated_flow = _flow.trace_accumulated_flow
-
-    _orig['flow.accumulated_flow'] = flow.accumulated_flow
-    flow.accumulated_flow = _flow.accumulated_flow
-
-    # Flow directions
-    _orig['flow._terrain_flow'] = flow._terrain_flow
-    flow._terrain_flow = _flow.terrain_flow
-
-    # Watershed
-    _orig['flow.assign_watersheds_upstream'] = flow.assign_watersheds_upstream
-    flow.assign_watersheds_upstream = _flow.assign_watersheds_upstream
-
-    # Label
-    _orig['label.label_stats'] = label.label_stats
-    label.label_stats = _label.label_stats
-
-    _orig['label.label_min_index'] = label.label_min_index
-    label.label_min_index = _label.label_min_index
-
-    _orig['label.label_data'] = label.label_data
-    label.label_data = _label.label_data
-
     global enabled
-    enabled = True
+    with _lock:
+        for module, name, function in _compiled:
+            _orig.setdefault((module, name), getattr(module, name))
+            setattr(module, name, function)
+        enabled = True
 
 
 def disable():
     """Disable Cython speedups
     """
-    if not _orig:
-        return
-    fill._fill_terrain = _orig['fill._fill_terrain']
-    fill._fill_terrain_no_flats = _orig['fill._fill_terrain_no_flats']
-
-    flow.trace_accumulated_flow = _orig['flow.trace_accumulated_flow']
-    flow.accumulated_flow = _orig['flow.accumulated_flow']
-    flow._terrain_flow = _orig['flow._terrain_flow']
-    flow.assign_watersheds_upstream = _orig['flow.assign_watersheds_upstream']
-
-    label.label_stats = _orig['label.label_stats']
-    label.label_min_index = _orig['label.label_min_index']
-    label.label_data = _orig['label.label_data']
-
-    _orig.clear()
-
     global enabled
-    enabled = False
+    with _lock:
+        for (module, name), function in _orig.items():
+            setattr(module, name, function)
+        enabled = False
 
 
 # if cython speedups are available, use them by default
-- 
2.43.0


From 1c3b4b3908d59489f835aaa4e96c449b68cd05d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 29/49] fix: VectorReader delivered features without attributes
 when the table of a shapefile could not be opened

---
 malstroem/io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index 2710976..ad48175 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -450,6 +450,12 @@ class VectorReader(object):
             self._lyr = self._ds.GetLayerByIndex(0)
         if self._lyr is None:
             raise Exception("Cannot open layer {} from datasource: {}".format(self.layername, self.datasource))
+        if self._ds.GetDriver().GetName() == 'ESRI Shapefile' and not self._lyr.GetLayerDefn().GetFieldCount():
+            # GDAL silently ignores a table of attributes which can't be read
+            isdir = os.path.isdir(self.datasource)
+            table = os.path.join(self.datasource, self._lyr.GetName()) if isdir else os.path.splitext(self.datasource)[0]
+            if os.path.exists(table + '.dbf'):
+                raise IOError("Cannot read attributes of layer {} from datasource: {}".format(self.layername, self.datasource))
 
         self.crs = self._lyr.GetSpatialRef().ExportToWkt() if self._lyr.GetSpatialRef() else None
 
-- 
2.43.0


From 7a8ac8c07ea5042447ea6e0842a116d7516815af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 30/49] fix: unreadable metadata of a raster silently lost its
 nodata value or georeference

---
 malstroem/io.py     |  4 ++--
 malstroem/vector.py | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index ad48175..7893176 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -19,7 +19,7 @@ import os
 from osgeo import gdal, ogr, osr
 import numpy as np
 import json
-from .vector import check_layer_written, check_replaceable, feature_values
+from .vector import check_layer_written, check_replaceable, feature_values, open_raster
 
 gdal.UseExceptions()
 
@@ -60,7 +60,7 @@ class RasterReader(object):
 
     def __init__(self, filepath, nodatasubst=None):
         self.filepath = filepath
-        self._ds = gdal.Open(filepath)
+        self._ds = open_raster(filepath)
         self._bnd = self._ds.GetRasterBand(1)
         self.transform = self._ds.GetGeoTransform()
         self.crs = self._ds.GetProjection()
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 53c07a3..916c99d 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -63,6 +63,19 @@ def check_replaceable(datasource, layername):
             raise IOError('Cannot update {}, and it holds other layers: {}'.format(datasource, ', '.join(others)))
 
 
+def open_raster(filepath):
+    """Open a raster for reading
+
+    GDAL only warns if it can't read parts of a file's metadata, and goes on without the nodata value or georeference.
+    """
+    gdal.ErrorReset()
+    ds = gdal.Open(filepath)
+    message = gdal.GetLastErrorMsg()
+    if 'error during reading' in message:
+        raise IOError('Failed to read metadata of {}: {}'.format(filepath, message))
+    return ds
+
+
 def feature_values(feature):
     """All attribute values of an ogr feature by field name"""
     return {feature.GetFieldDefnRef(ix).GetName(): feature.GetFieldAsString(ix) for ix in range(feature.GetFieldCount())}
@@ -154,7 +167,7 @@ def vectorize_labels_file(labeled_file, id_attribute='bspot_id'):
         Geojson formatted feature
 
     """
-    src_ds = gdal.Open(labeled_file)
+    src_ds = open_raster(labeled_file)
     src_band = src_ds.GetRasterBand(1)
 
     # Create a memory OGR datasource to put results in.
@@ -188,7 +201,7 @@ def vectorize_labels_file(labeled_file, id_attribute='bspot_id'):
 def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_dsco=[], out_lco=[], id_attribute='bspot_id', quiet=False):
     # This method does exactly the same as could be done with gdal_polygonize.py
 
-    src_ds = gdal.Open(labeled_file)
+    src_ds = open_raster(labeled_file)
     src_band = src_ds.GetRasterBand(1)
 
     # Create a memory OGR datasource to put results in.
-- 
2.43.0


From 01e1232ddad12fc14e8c368a463f1aacabe069de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 31/49] fix: RasterReader replaced integer values close to
 nodata

---
 malstroem/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 7893176..fc77124 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -78,7 +78,12 @@ class RasterReader(object):
         """
         data = self._bnd.ReadAsArray()
         if self.nodata is not None and self.nodatasubst is not None:
-            mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
+            if np.isnan(self.nodata):
+                mask = np.isnan(data)
+            elif data.dtype.kind == 'f':
+                mask = np.isclose(data, self.nodata)
+            else:
+                mask = data == self.nodata
             data[mask] = self.nodatasubst
         return data
 
-- 
2.43.0


From 13999578494824a6ba128c239baddc463306f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 32/49] fix: RasterWriter silently rounded double precision
 values of unusual types

---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index fc77124..4398f21 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -176,7 +176,7 @@ class RasterWriter(object):
                 elif min_val >= -2147483648 and max_val <= 2147483647:
                     return self.write(data.astype("int32"))
             else:
-                if min_val >= -3.4028235e+38 and max_val <= 3.4028235e+38:
+                if data.dtype.itemsize <= 4 and min_val >= -3.4028235e+38 and max_val <= 3.4028235e+38:
                     return self.write(data.astype("float32"))
                 return self.write(data.astype("float64"))
         if not gdal_datatype:
-- 
2.43.0


From ace7220666b2035394c14f0cc3ab2015a71de3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 33/49] fix: a VectorWriter could not be used again after a
 failure

---
 malstroem/io.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index 4398f21..3b38ef0 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -343,6 +343,18 @@ class VectorWriter(object):
         None
 
         """
+        before = (self.fieldsinitialized, list(self.fields))
+        try:
+            self._write_features(geojsonfeatures)
+        except BaseException:
+            # Nothing of a failed attempt may end up in the next one
+            self.fieldsinitialized, self.fields = before
+            self._transaction = False
+            self._lyr = None
+            self._ds = None
+            raise
+
+    def _write_features(self, geojsonfeatures):
         self._init_datasource()
         num_existing = self._lyr.GetFeatureCount() if self._existing_layer else 0
         num_features = 0
-- 
2.43.0


From 50bc94987c82a7992f4b0617f31ffad7bf63efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 34/49] fix: shapefiles without features or without geometry
 could not be checked or read

---
 malstroem/io.py     | 3 ++-
 malstroem/vector.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 3b38ef0..9c401a6 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -467,7 +467,8 @@ class VectorReader(object):
             self._lyr = self._ds.GetLayerByIndex(0)
         if self._lyr is None:
             raise Exception("Cannot open layer {} from datasource: {}".format(self.layername, self.datasource))
-        if self._ds.GetDriver().GetName() == 'ESRI Shapefile' and not self._lyr.GetLayerDefn().GetFieldCount():
+        has_fields = self._lyr.GetLayerDefn().GetFieldCount() or not self._lyr.GetFeatureCount()
+        if self._ds.GetDriver().GetName() == 'ESRI Shapefile' and not has_fields:
             # GDAL silently ignores a table of attributes which can't be read
             isdir = os.path.isdir(self.datasource)
             table = os.path.join(self.datasource, self._lyr.GetName()) if isdir else os.path.splitext(self.datasource)[0]
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 916c99d..0ce1894 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -127,6 +127,9 @@ def check_layer_written(driver, datasource, layername, num_features=None, has_fi
     if num_features == 0 and driver.lower() not in ('gpkg', 'esri shapefile', 'geojson', 'csv'):
         # Most other formats can't be read back without features
         return
+    if driver.lower() == 'esri shapefile' and not os.path.exists(datasource):
+        # A shapefile without geometry is a table only
+        datasource = os.path.splitext(datasource)[0] + '.dbf'
     ds = ogr.Open(datasource)
     lyr = ds.GetLayerByName(layername)
     if lyr is None:
-- 
2.43.0


From b201a2adf4b1724d871b0835605a789f8c9baa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 35/49] fix: attribute values were silently lost when the
 format changes their name or range

---
 malstroem/io.py     | 12 ++++++++++--
 malstroem/vector.py | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 9c401a6..6032fd2 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -19,7 +19,7 @@ import os
 from osgeo import gdal, ogr, osr
 import numpy as np
 import json
-from .vector import check_layer_written, check_replaceable, feature_values, open_raster
+from .vector import check_feature_values, check_layer_written, check_replaceable, feature_values, open_raster
 
 gdal.UseExceptions()
 
@@ -284,6 +284,7 @@ class VectorWriter(object):
         self._lyr = None
         self._existing_layer = False
         self._transaction = False
+        self._field_index = {}
         self.fieldsinitialized = False
 
     def _init_datasource(self):
@@ -325,6 +326,9 @@ class VectorWriter(object):
             fielddefn = featuredefn.GetFieldDefn(ix)
             self.fields.append(fielddefn)
         for f in self.fields:
+            # The format may not support all field names
+            existing = self._lyr.GetLayerDefn().GetFieldIndex(f.GetName())
+            self._field_index[f.GetName()] = existing if existing >= 0 else self._lyr.GetLayerDefn().GetFieldCount()
             self._lyr.CreateField(f)
         self.fieldsinitialized = True
         if not self._transaction:
@@ -401,7 +405,11 @@ class VectorWriter(object):
             self._init_fields(ogrfeature)
         feature = ogr.Feature(self._lyr.GetLayerDefn())
 
-        feature.SetFrom(ogrfeature, forgiving=1)
+        defn = ogrfeature.GetDefnRef()
+        names = [defn.GetFieldDefn(ix).GetName() for ix in range(defn.GetFieldCount())]
+        field_map = [self._field_index.get(name, -1) for name in names]
+        feature.SetFromWithMap(ogrfeature, 1, field_map)
+        check_feature_values(ogrfeature, feature, field_map)
 
         err = self._lyr.CreateFeature(feature)
         if err:
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 0ce1894..b9532c4 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -97,6 +97,26 @@ def _same_value(feature, name, value):
         return True
 
 
+def check_feature_values(source, feature, field_map):
+    """Check that a feature holds the values it was set from
+
+    GDAL only warns if a value does not fit the type of a field.
+
+    Parameters
+    ----------
+    source : osgeo.ogr.Feature
+        Feature the values come from
+    feature : osgeo.ogr.Feature
+        Feature holding the values
+    field_map : list of int
+        For each field of source the index of the field of feature or -1
+
+    """
+    for ix, target in enumerate(field_map):
+        if target >= 0 and not _same_value(feature, feature.GetFieldDefnRef(target).GetName(), source.GetFieldAsString(ix)):
+            raise ValueError('{} does not fit field {}'.format(source.GetFieldAsString(ix), feature.GetFieldDefnRef(target).GetName()))
+
+
 def check_layer_written(driver, datasource, layername, num_features=None, has_fields=True, has_crs=False, values=()):
     """Check that a layer which was just written holds what was written to it
 
-- 
2.43.0


From e264e93564694ca653283e874f0bba5ceab51548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 36/49] fix: a disk error could leave an empty layer in a
 GeoPackage

---
 malstroem/io.py     |  7 +++--
 malstroem/vector.py | 72 +++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 6032fd2..203406a 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -19,7 +19,7 @@ import os
 from osgeo import gdal, ogr, osr
 import numpy as np
 import json
-from .vector import check_feature_values, check_layer_written, check_replaceable, feature_values, open_raster
+from .vector import check_feature_values, check_layer_written, check_replaceable, drop_failed_layer, feature_values, open_raster
 
 gdal.UseExceptions()
 
@@ -311,6 +311,7 @@ class VectorWriter(object):
             raise Exception("Cannot open or create datasource: {} for writing of {}".format(self.datasource, self.layername))
 
         # All or nothing if the format supports it. A layer which is only partially created can block its datasource.
+        self._existing_layer = None
         self._transaction = self._ds.TestCapability(ogr.ODsCTransactions)
         if self._transaction:
             self._ds.StartTransaction()
@@ -353,8 +354,10 @@ class VectorWriter(object):
         except BaseException:
             # Nothing of a failed attempt may end up in the next one
             self.fieldsinitialized, self.fields = before
-            self._transaction = False
             self._lyr = None
+            if self._transaction and self._existing_layer is False:
+                drop_failed_layer(self._ds, self.layername)
+            self._transaction = False
             self._ds = None
             raise
 
diff --git a/malstroem/vector.py b/malstroem/vector.py
index b9532c4..f02a2d2 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -63,6 +63,21 @@ def check_replaceable(datasource, layername):
             raise IOError('Cannot update {}, and it holds other layers: {}'.format(datasource, ', '.join(others)))
 
 
+def drop_failed_layer(ds, layername):
+    """Remove a new layer which could not be written from its datasource
+
+    A disk error can end the transaction the layer was created in. GDAL still creates it when the datasource is closed.
+    """
+    try:
+        for ix in range(ds.GetLayerCount()):
+            if ds.GetLayerByIndex(ix).GetName() == layername:
+                ds.DeleteLayer(ix)
+                break
+    except RuntimeError:
+        # Never created
+        pass
+
+
 def open_raster(filepath):
     """Open a raster for reading
 
@@ -246,31 +261,38 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     if transaction:
         dst_ds.StartTransaction()
 
-    srs = src_ds.GetSpatialRef()
-    dst_layer = dst_ds.CreateLayer(out_layer, geom_type=ogr.wkbPolygon, srs=srs, options=out_lco)
-
-    fd = ogr.FieldDefn(id_attribute, ogr.OFTInteger)
-    dst_layer.CreateField(fd)
-
-    # Use 8-connectedness
-    options = ['8CONNECTED=8']
-
-    # run the algorithm.
-    if quiet:
-        progress_callback = None
-    else:
-        progress_callback = gdal.TermProgress_nocb
-    result = gdal.Polygonize(src_band, src_band.GetMaskBand(), dst_layer, 0, options, callback=progress_callback)
-    if result != 0:
-        raise Exception('Vectorization failed')
-
-    # Not all formats can tell before they are closed
-    num_features = dst_layer.GetFeatureCount() if dst_layer.TestCapability(ogr.OLCRandomRead) else None
-    layername = dst_layer.GetName()
-    has_crs = dst_layer.GetSpatialRef() is not None
-
-    if transaction:
-        dst_ds.CommitTransaction()
+    is_new = transaction and dst_ds.GetLayerByName(out_layer) is None
+    try:
+        srs = src_ds.GetSpatialRef()
+        dst_layer = dst_ds.CreateLayer(out_layer, geom_type=ogr.wkbPolygon, srs=srs, options=out_lco)
+
+        fd = ogr.FieldDefn(id_attribute, ogr.OFTInteger)
+        dst_layer.CreateField(fd)
+
+        # Use 8-connectedness
+        options = ['8CONNECTED=8']
+
+        # run the algorithm.
+        if quiet:
+            progress_callback = None
+        else:
+            progress_callback = gdal.TermProgress_nocb
+        result = gdal.Polygonize(src_band, src_band.GetMaskBand(), dst_layer, 0, options, callback=progress_callback)
+        if result != 0:
+            raise Exception('Vectorization failed')
+
+        # Not all formats can tell before they are closed
+        num_features = dst_layer.GetFeatureCount() if dst_layer.TestCapability(ogr.OLCRandomRead) else None
+        layername = dst_layer.GetName()
+        has_crs = dst_layer.GetSpatialRef() is not None
+
+        if transaction:
+            dst_ds.CommitTransaction()
+    except BaseException:
+        dst_layer = None
+        if is_new:
+            drop_failed_layer(dst_ds, out_layer)
+        raise
 
     src_band = None
     src_ds = None
-- 
2.43.0


From 16a4aec17c8b8dfd2601eb2ce0e2106a9383b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 37/49] fix: a RasterReader could not be used again after a
 read error

---
 malstroem/io.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 203406a..7ffc02b 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -60,8 +60,7 @@ class RasterReader(object):
 
     def __init__(self, filepath, nodatasubst=None):
         self.filepath = filepath
-        self._ds = open_raster(filepath)
-        self._bnd = self._ds.GetRasterBand(1)
+        self._open()
         self.transform = self._ds.GetGeoTransform()
         self.crs = self._ds.GetProjection()
         self.nodata = self._bnd.GetNoDataValue()
@@ -69,6 +68,10 @@ class RasterReader(object):
         self.shape = self._ds.RasterYSize, self._ds.RasterXSize
         self.resolution = (abs(self.transform[5]),abs(self.transform[1]))
 
+    def _open(self):
+        self._ds = open_raster(self.filepath)
+        self._bnd = self._ds.GetRasterBand(1)
+
     def read(self):
         """Read raster into 2D numpy array
 
@@ -76,7 +79,15 @@ class RasterReader(object):
         -------
         ndarray
         """
-        data = self._bnd.ReadAsArray()
+        if self._bnd is None:
+            self._open()
+        try:
+            data = self._bnd.ReadAsArray()
+        except RuntimeError:
+            # GDAL does not get over a read error
+            self._bnd = None
+            self._ds = None
+            raise
         if self.nodata is not None and self.nodatasubst is not None:
             if np.isnan(self.nodata):
                 mask = np.isnan(data)
-- 
2.43.0


From 9f62912a39bb60e152b213e2fce4e23a2a636c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 38/49] fix: hypsometry counts the lowest cells of bluespots
 below zero and on bin borders

---
 malstroem/hyps.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 439e8bd..7057573 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -10,6 +10,7 @@
 # You should have received a copy of the GNU General Public License along with this program. If not,
 # see http://www.gnu.org/licenses/.
 # -------------------------------------------------------------------------------------------------
+import math
 import numpy as np
 import logging
 from collections import namedtuple
@@ -88,11 +89,17 @@ def cumulative_volume(h : Histogram, cell_area : float):
 
 def histogram_bins(zmin, zmax, resolution):
     scale = 1 / resolution
-    min_scaled = int(zmin * scale)
-    max_scaled = int(zmax * scale)
+    min_scaled = math.floor(zmin * scale)
+    max_scaled = math.floor(zmax * scale)
+    # Rounding must not leave the lowest or the highest cell outside of the bins
+    if min_scaled * resolution > zmin:
+        min_scaled -= 1
     num_bins = max_scaled - min_scaled + 1
     lower_bound = min_scaled * resolution
     upper_bound = lower_bound + num_bins * resolution
+    if upper_bound < zmax:
+        num_bins += 1
+        upper_bound = lower_bound + num_bins * resolution
     bins = HistogramBinsInfo(num_bins, lower_bound, upper_bound, resolution)
     return bins
 
-- 
2.43.0


From b2149c401895a9354529eec55ac4ccaa69d45774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 39/49] fix: cells without data in a precipitation raster are
 not rain

---
 malstroem/scripts/initvolume.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index 99b2134..de77118 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -79,7 +79,8 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
         if not bluespots:
             raise click.UsageError("Mising -bluespots")
         logger.info(f"Processing initial volumes using [{pr_unit}] raster input from {pr}")
-        precip_reader = io.RasterReader(pr)
+        # No data is no rain
+        precip_reader = io.RasterReader(pr, nodatasubst=0)
         bspotlabels_reader = io.RasterReader(bluespots)
         tool = raintool.RasterVolumeTool(nodes_reader, bspotlabels_reader, precip_reader, pr_unit, volumes_writer, out_attribute)
         tool.process()
-- 
2.43.0


From 0453d61f661dece9abeabdf63cca13280529fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 40/49] fix: the water level in an empty bluespot is its lowest
 point

---
 malstroem/approx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 98ff03b..28616b4 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -54,6 +54,9 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
         if max_vol == 0 or final_vol / max_vol > 0.9999:
             # waterlevel is the maximum possible in this bluespot
             water_level = h["hyps"].zmin + h["max_depth"]
+        elif final_vol <= 0:
+            # No water in this bluespot (the first histogram bins may be empty, so this cannot be left to interpolation)
+            water_level = zmin
         else:
             # Calculate estimate
             # Cumulative volume for each histogram bin
-- 
2.43.0


From d34da131b733df6c54497dee5f728e22774b39ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 41/49] fix: no final depths outside bluespots where the
 terrain is below -999

---
 malstroem/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 28616b4..3b973b2 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -169,7 +169,7 @@ def approx_bluespots(bluespot_labels, bluespot_water_levels, dem, background_lab
 
 
 
-def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=-999.0):
+def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=float('-inf')):
     max_label = max([x for x in labelvaluedict.keys()])
     l = []
     for ix in range(max_label + 1):
-- 
2.43.0


From 674da1db079dbc8af2622480f63d7cceca7ee99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 42/49] fix: raster values near the nodata value are data

---
 malstroem/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 7ffc02b..cfbf488 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -92,7 +92,8 @@ class RasterReader(object):
             if np.isnan(self.nodata):
                 mask = np.isnan(data)
             elif data.dtype.kind == 'f':
-                mask = np.isclose(data, self.nodata)
+                # Only what is nodata but for the rounding of the nodata value (GDAL allows the same)
+                mask = np.isclose(data, self.nodata, rtol=4 * np.finfo(np.float32).eps, atol=0)
             else:
                 mask = data == self.nodata
             data[mask] = self.nodatasubst
-- 
2.43.0


From 1c8bf6cec6b572cc676aa2420f9099d07333275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 43/49] fix: compiled functions refuse read-only arrays

---
 malstroem/algorithms/speedups/_flow.pyx  | 16 ++++++++--------
 malstroem/algorithms/speedups/_label.pyx |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index 919f379..3257bc3 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -96,7 +96,7 @@ cdef DTYPE_t_FILLNOFLAT INV_SQRT2 = 1 / SQRT2
 # See http://sourceforge.net/p/saga-gis/code-0/HEAD/tree/tags/release-2-0-1/saga_2/src/modules_terrain_analysis/terrain_analysis/ta_channels/D8_Flow_Analysis.cpp#l166
 # and http://www.saga-gis.org/saga_api_doc/html/grid__operation_8cpp_source.html#l01060
 @cython.boundscheck(False)
-def terrain_flow(DTYPE_t_FILLNOFLAT[:,:] terrain):
+def terrain_flow(const DTYPE_t_FILLNOFLAT[:,:] terrain):
     """Calculate flow directions for the specified terrain.
 
     Assumes water will always flow via the steepest path from cell to cell. This is sometimes called D8 flow.
@@ -209,7 +209,7 @@ cdef inline long is_in_raster_cython(int rows, int cols, cell_struct cell):
 
 
 @cython.boundscheck(False)
-cdef inline long is_upstream_cython(DTYPE_t_FLOWDIR[:,:] flowdir, cell_struct from_cell, DTYPE_t_FLOWDIR direction_to, cell_struct to_cell):
+cdef inline long is_upstream_cython(const DTYPE_t_FLOWDIR[:,:] flowdir, cell_struct from_cell, DTYPE_t_FLOWDIR direction_to, cell_struct to_cell):
     cdef DTYPE_t_FLOWDIR agnps
     cdef long FALSE = 0
 
@@ -223,7 +223,7 @@ cdef inline long is_upstream_cython(DTYPE_t_FLOWDIR[:,:] flowdir, cell_struct fr
 
 
 @cython.boundscheck(False)
-cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_ACCUM[:,:] accum, cell_struct cell):
+cdef void trace_accumulated_flow_cython(const DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_ACCUM[:,:] accum, cell_struct cell):
     """Start from a cell and trace accumulated flow downstream.
     Stops when it reaches a cell which has upstream cells that havent been resolved yet"""
     cdef DTYPE_t_ACCUM s, upstream_accum
@@ -249,14 +249,14 @@ cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_AC
         cell = cell_in_direction_cython(cell, downstream_direction)
 
 
-def trace_accumulated_flow(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_ACCUM[:,:] accum, cell):
+def trace_accumulated_flow(const DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_ACCUM[:,:] accum, cell):
     cdef cell_struct c
     c.r , c.c = cell[0], cell[1]
     trace_accumulated_flow_cython(flowdir, accum, c)
 
 
 @cython.boundscheck(False)
-def accumulated_flow(DTYPE_t_FLOWDIR[:,:] flowdir not None):
+def accumulated_flow(const DTYPE_t_FLOWDIR[:,:] flowdir not None):
     cdef unsigned int rows, cols, r, c
     rows, cols = flowdir.shape[0], flowdir.shape[1]
     cdef np.ndarray[DTYPE_t_ACCUM, ndim=2] npaccum = np.zeros((rows, cols))
@@ -276,7 +276,7 @@ def accumulated_flow(DTYPE_t_FLOWDIR[:,:] flowdir not None):
 
 
 @cython.boundscheck(False)
-cdef assign_watersheds_upstream_32_cython(DTYPE_t_FLOWDIR[:,:] flowdir, np.int32_t[:,:] labelled, cell, unassigned):
+cdef assign_watersheds_upstream_32_cython(const DTYPE_t_FLOWDIR[:,:] flowdir, np.int32_t[:,:] labelled, cell, unassigned):
     cdef cell_struct neighbor_cell, current_cell
     cdef np.int32_t lbl, background
     cdef cell_label32_struct current_cell_label, neighbor_cell_label
@@ -316,7 +316,7 @@ cdef assign_watersheds_upstream_32_cython(DTYPE_t_FLOWDIR[:,:] flowdir, np.int32
                 stack.append(neighbor_cell_label)
 
 @cython.boundscheck(False)
-cdef assign_watersheds_upstream_64_cython(DTYPE_t_FLOWDIR[:,:] flowdir, np.int64_t[:,:] labelled, cell, unassigned):
+cdef assign_watersheds_upstream_64_cython(const DTYPE_t_FLOWDIR[:,:] flowdir, np.int64_t[:,:] labelled, cell, unassigned):
     cdef cell_struct neighbor_cell, current_cell
     cdef np.int64_t lbl, background
     cdef cell_label64_struct current_cell_label, neighbor_cell_label
@@ -357,7 +357,7 @@ cdef assign_watersheds_upstream_64_cython(DTYPE_t_FLOWDIR[:,:] flowdir, np.int64
 
 
 @cython.boundscheck(False)
-cdef assign_watersheds_upstream_fallback_cython(DTYPE_t_FLOWDIR[:,:] flowdir, labelled, cell, unassigned):
+cdef assign_watersheds_upstream_fallback_cython(const DTYPE_t_FLOWDIR[:,:] flowdir, labelled, cell, unassigned):
     cdef cell_struct neighbor_cell, current_cell
     cdef np.int64_t lbl, background
     cdef cell_label64_struct current_cell_label, neighbor_cell_label
diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 9f50180..80afef9 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -67,7 +67,7 @@ cdef label_stats_fallback_cython(data, labelled, nlabels=None):
     return stats
 
 @cython.boundscheck(False)
-cdef label_stats_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] labelled, nlabels=None):
+cdef label_stats_float32_int32_cython(const np.float32_t[:,:] data, const np.int32_t[:,:] labelled, nlabels=None):
     if not nlabels:
         nlabels = np.max(labelled)
 
@@ -98,7 +98,7 @@ cdef label_stats_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] la
     return stats
 
 @cython.boundscheck(False)
-cdef label_min_index_float64_int32_cython(np.float64_t[:,:] data, np.int32_t [:,:] labelled, nlabels=None):
+cdef label_min_index_float64_int32_cython(const np.float64_t[:,:] data, const np.int32_t[:,:] labelled, nlabels=None):
     if not nlabels:
         nlabels = np.max(labelled)
 
@@ -184,7 +184,7 @@ def label_data(data, labelled, nlabels=None, background=0):
 
 
 @cython.boundscheck(False)
-cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] labels, max_label, background):
+cdef label_data_float32_int32_cython(const np.float32_t[:,:] data, const np.int32_t[:,:] labels, max_label, background):
     cdef FloatArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float32_t val
@@ -206,7 +206,7 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
 
 
 @cython.boundscheck(False)
-cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] labels, max_label, background):
+cdef label_data_float64_int32_cython(const np.float64_t[:,:] data, const np.int32_t[:,:] labels, max_label, background):
     cdef DoubleArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float64_t val
-- 
2.43.0


From 98c300ae0edd2c9464b0e7e73b69896f46ba9dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 44/49] fix: a georeference which could not be read is not
 ignored

GDAL reads the georeference when it is first used. When that was inside of Polygonize, bluespots ended up in pixel coordinates without an error.
---
 malstroem/vector.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/malstroem/vector.py b/malstroem/vector.py
index f02a2d2..7319437 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -85,9 +85,13 @@ def open_raster(filepath):
     """
     gdal.ErrorReset()
     ds = gdal.Open(filepath)
-    message = gdal.GetLastErrorMsg()
-    if 'error during reading' in message:
-        raise IOError('Failed to read metadata of {}: {}'.format(filepath, message))
+    messages = [gdal.GetLastErrorMsg()]
+    # The georeference is not read until it is asked for. An error while gdal uses it internally is not reported at all
+    ds.GetGeoTransform()
+    messages.append(gdal.GetLastErrorMsg())
+    for message in messages:
+        if 'error during reading' in message:
+            raise IOError('Failed to read metadata of {}: {}'.format(filepath, message))
     return ds
 
 
-- 
2.43.0


From 454dd255212c790db6a291b5edbb4143d8496a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 45/49] fix: a layer definition which could only be read in
 part is not used

GDAL only warns when it can't read the crs or the geometry column of a GeoPackage layer. Features were read without geometry or crs.
---
 malstroem/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index cfbf488..fdb7917 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -490,7 +490,13 @@ class VectorReader(object):
             self._lyr = self._ds.GetLayerByIndex(0)
         if self._lyr is None:
             raise Exception("Cannot open layer {} from datasource: {}".format(self.layername, self.datasource))
-        has_fields = self._lyr.GetLayerDefn().GetFieldCount() or not self._lyr.GetFeatureCount()
+        # GDAL only warns if it can't read parts of a GeoPackage layer's definition (eg. its crs or geometry column)
+        gdal.ErrorReset()
+        layer_defn = self._lyr.GetLayerDefn()
+        message = gdal.GetLastErrorMsg()
+        if 'sqlite3_' in message:
+            raise IOError("Cannot read layer {} from datasource: {}: {}".format(self.layername, self.datasource, message))
+        has_fields = layer_defn.GetFieldCount() or not self._lyr.GetFeatureCount()
         if self._ds.GetDriver().GetName() == 'ESRI Shapefile' and not has_fields:
             # GDAL silently ignores a table of attributes which can't be read
             isdir = os.path.isdir(self.datasource)
-- 
2.43.0


From ca273745a56acf20043938564d7c04fff0e4f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:31 +0000
Subject: [PATCH 46/49] fix: layers which were written are not reported as
 failed

Verification after writing took a FlatGeobuf (its spatial index reorders features), a MapInfo table, values which a format can't
keep as null, a second layer beside a shapefile and features added to an existing GeoJSON file for failed.
---
 malstroem/io.py     |  2 +-
 malstroem/vector.py | 27 ++++++++++++++++++++-------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index fdb7917..1f3ced9 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -411,7 +411,7 @@ class VectorWriter(object):
                 raise IOError('Only {} of {} features could be read from {}'.format(len(written), num_features, tmpfilepath))
             # The format may not support all layer names
             layername = self._lyr.GetName()
-            has_crs = self._lyr.GetSpatialRef() is not None
+            has_crs = self._lyr.GetSpatialRef() is not None and self.geomtype != ogr.wkbNone
             self.close()
         check_layer_written(self.driver, self.datasource, layername, num_existing + len(written), bool(self.fields), has_crs, written)
 
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 7319437..dd2f909 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -20,6 +20,10 @@ import os
 from osgeo import gdal, ogr
 
 
+# Formats whose layers can't be read back as they were written
+NOT_READ_BACK = ('interlis 1', 'interlis 2', 'mbtiles', 'memory', 'mvt', 'pdf', 'pmtiles')
+
+
 def transform_cell_to_world(cell, geotransform):
     """Transform cell coordinate to world coordinate.
 
@@ -96,8 +100,9 @@ def open_raster(filepath):
 
 
 def feature_values(feature):
-    """All attribute values of an ogr feature by field name"""
-    return {feature.GetFieldDefnRef(ix).GetName(): feature.GetFieldAsString(ix) for ix in range(feature.GetFieldCount())}
+    """All attribute values of an ogr feature by field name. Not all formats have null values, so they are left out"""
+    indexes = [ix for ix in range(feature.GetFieldCount()) if feature.IsFieldSetAndNotNull(ix)]
+    return {feature.GetFieldDefnRef(ix).GetName(): feature.GetFieldAsString(ix) for ix in indexes}
 
 
 def _same_value(feature, name, value):
@@ -160,20 +165,28 @@ def check_layer_written(driver, datasource, layername, num_features=None, has_fi
         Attribute values which the last features in the layer must have
 
     """
-    if not ogr.GetDriverByName(driver).GetMetadataItem(gdal.DCAP_OPEN):
+    if not ogr.GetDriverByName(driver).GetMetadataItem(gdal.DCAP_OPEN) or driver.lower() in NOT_READ_BACK:
         # Write only format
         return
+    if driver.lower() == 'flatgeobuf':
+        # The spatial index decides the order of the features
+        values = ()
     if num_features == 0 and driver.lower() not in ('gpkg', 'esri shapefile', 'geojson', 'csv'):
         # Most other formats can't be read back without features
         return
-    if driver.lower() == 'esri shapefile' and not os.path.exists(datasource):
-        # A shapefile without geometry is a table only
-        datasource = os.path.splitext(datasource)[0] + '.dbf'
+    if driver.lower() == 'esri shapefile' and datasource.lower().endswith(('.shp', '.dbf')) and not os.path.isdir(datasource):
+        # A second layer has its own file
+        datasource = os.path.join(os.path.dirname(datasource), layername + '.shp')
+        if not os.path.exists(datasource):
+            # A shapefile without geometry is a table only
+            datasource = os.path.splitext(datasource)[0] + '.dbf'
     ds = ogr.Open(datasource)
     lyr = ds.GetLayerByName(layername)
     if lyr is None:
-        # Formats with a single layer may name it after the file
+        # Formats with a single layer may name it after the file, and add to the one which is already there
         lyr = ds.GetLayerByName(os.path.splitext(os.path.basename(datasource))[0])
+        if lyr is not None and num_features is not None and lyr.GetFeatureCount() > num_features:
+            num_features = lyr.GetFeatureCount()
     readable = 0
     ok = lyr is not None
     if ok:
-- 
2.43.0


From 34916ffd1b428d3a86d05ff7bc938d79b3d21d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 47/49] fix: the crs of a shapefile which could not be read is
 not ignored

GDAL reads a shapefile without its crs when reading the .prj file fails.
---
 malstroem/io.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 1f3ced9..b0b4abf 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -496,15 +496,25 @@ class VectorReader(object):
         message = gdal.GetLastErrorMsg()
         if 'sqlite3_' in message:
             raise IOError("Cannot read layer {} from datasource: {}: {}".format(self.layername, self.datasource, message))
-        has_fields = layer_defn.GetFieldCount() or not self._lyr.GetFeatureCount()
-        if self._ds.GetDriver().GetName() == 'ESRI Shapefile' and not has_fields:
-            # GDAL silently ignores a table of attributes which can't be read
-            isdir = os.path.isdir(self.datasource)
-            table = os.path.join(self.datasource, self._lyr.GetName()) if isdir else os.path.splitext(self.datasource)[0]
-            if os.path.exists(table + '.dbf'):
-                raise IOError("Cannot read attributes of layer {} from datasource: {}".format(self.layername, self.datasource))
-
         self.crs = self._lyr.GetSpatialRef().ExportToWkt() if self._lyr.GetSpatialRef() else None
+        if self._ds.GetDriver().GetName() == 'ESRI Shapefile':
+            self._check_shapefile(layer_defn)
+
+    def _check_shapefile(self, layer_defn):
+        """GDAL silently ignores parts of a shapefile which can't be read"""
+        isdir = os.path.isdir(self.datasource)
+        base = os.path.join(self.datasource, self._lyr.GetName()) if isdir else os.path.splitext(self.datasource)[0]
+        if not layer_defn.GetFieldCount() and self._lyr.GetFeatureCount() and os.path.exists(base + '.dbf'):
+            raise IOError("Cannot read attributes of layer {} from datasource: {}".format(self.layername, self.datasource))
+        if not self.crs and self._lyr.GetGeomType() != ogr.wkbNone and os.path.exists(base + '.prj'):
+            with open(base + '.prj', errors='replace') as prj:
+                lines = prj.readlines()
+            try:
+                osr.SpatialReference().ImportFromESRI(lines)
+            except RuntimeError:
+                # Not a coordinate reference system GDAL knows
+                return
+            raise IOError("Cannot read crs of layer {} from datasource: {}".format(self.layername, self.datasource))
 
     def read_geojson_features(self):
         """Read all features formatted as geojson
-- 
2.43.0


From 0992a80d021060cf84ef3e1d2053bcb78ce16bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 48/49] fix: text which was cut off on a full disk is not taken
 for written

Verification of a layer compares text as well now where the format keeps it, and does not report names and values which a format
keeps in its own way as failed.
---
 malstroem/io.py     |  7 +++++--
 malstroem/vector.py | 35 +++++++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index b0b4abf..05e4c4d 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -338,10 +338,13 @@ class VectorWriter(object):
         for ix in range(featuredefn.GetFieldCount()):
             fielddefn = featuredefn.GetFieldDefn(ix)
             self.fields.append(fielddefn)
+        defn = self._lyr.GetLayerDefn()
+        existing = [defn.GetFieldDefn(ix).GetName() for ix in range(defn.GetFieldCount())]
         for f in self.fields:
             # The format may not support all field names
-            existing = self._lyr.GetLayerDefn().GetFieldIndex(f.GetName())
-            self._field_index[f.GetName()] = existing if existing >= 0 else self._lyr.GetLayerDefn().GetFieldCount()
+            name = f.GetName()
+            count = self._lyr.GetLayerDefn().GetFieldCount()
+            self._field_index[name] = existing.index(name) if name in existing else self._field_index.get(name, count)
             self._lyr.CreateField(f)
         self.fieldsinitialized = True
         if not self._transaction:
diff --git a/malstroem/vector.py b/malstroem/vector.py
index dd2f909..7596d46 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -100,25 +100,35 @@ def open_raster(filepath):
 
 
 def feature_values(feature):
-    """All attribute values of an ogr feature by field name. Not all formats have null values, so they are left out"""
-    indexes = [ix for ix in range(feature.GetFieldCount()) if feature.IsFieldSetAndNotNull(ix)]
-    return {feature.GetFieldDefnRef(ix).GetName(): feature.GetFieldAsString(ix) for ix in indexes}
+    """Numbers and text of an ogr feature by field name
+
+    Not all formats have null values, NaN or other types. These are left out.
+    """
+    values = {}
+    for ix in range(feature.GetFieldCount()):
+        field = feature.GetFieldDefnRef(ix)
+        value = feature.GetFieldAsString(ix)
+        simple = field.GetType() in (ogr.OFTInteger, ogr.OFTInteger64, ogr.OFTReal, ogr.OFTString)
+        if simple and feature.IsFieldSetAndNotNull(ix) and value != 'nan':
+            values[field.GetName()] = value
+    return values
 
 
-def _same_value(feature, name, value):
-    ix = feature.GetFieldIndex(name)
+def _same_value(feature, ix, value, exact_text=False):
     written = feature.GetFieldAsString(ix) if ix >= 0 else ''
+    # Formats have their own whitespace
+    written, value = written.replace('\r', '').strip(' \t\n'), value.replace('\r', '').strip(' \t\n')
     if written == value or not (written and value):
         return written == value
     if feature.GetFieldDefnRef(ix).GetType() == ogr.OFTReal:
         # Formats have their own precision
         return math.isclose(float(written), float(value), rel_tol=1e-9, abs_tol=1e-9)
     try:
-        float(value)
+        float(value if value.isascii() else 'text')
         return False
     except ValueError:
-        # Formats have their own limits to length and character set of text
-        return True
+        # Some formats have their own limits to length and character set of text
+        return not exact_text
 
 
 def check_feature_values(source, feature, field_map):
@@ -137,7 +147,7 @@ def check_feature_values(source, feature, field_map):
 
     """
     for ix, target in enumerate(field_map):
-        if target >= 0 and not _same_value(feature, feature.GetFieldDefnRef(target).GetName(), source.GetFieldAsString(ix)):
+        if target >= 0 and not _same_value(feature, target, source.GetFieldAsString(ix)):
             raise ValueError('{} does not fit field {}'.format(source.GetFieldAsString(ix), feature.GetFieldDefnRef(target).GetName()))
 
 
@@ -187,14 +197,19 @@ def check_layer_written(driver, datasource, layername, num_features=None, has_fi
         lyr = ds.GetLayerByName(os.path.splitext(os.path.basename(datasource))[0])
         if lyr is not None and num_features is not None and lyr.GetFeatureCount() > num_features:
             num_features = lyr.GetFeatureCount()
+    exact_text = driver.lower() in ('gpkg', 'geojson', 'csv')
     readable = 0
     ok = lyr is not None
     if ok:
+        # Most formats have their own limits to names of fields
+        exact_names = driver.lower() == 'gpkg'
+        names = {lyr.GetLayerDefn().GetFieldDefn(ix).GetName(): ix for ix in reversed(range(lyr.GetLayerDefn().GetFieldCount()))}
         num_other = (num_features or 0) - len(values)
         feature = lyr.GetNextFeature()
         while feature:
             if 0 <= readable - num_other < len(values):
-                ok = ok and all(_same_value(feature, k, v) for k, v in values[readable - num_other].items())
+                expected = [(names.get(k, -1), v) for k, v in values[readable - num_other].items() if exact_names or k in names]
+                ok = ok and all(_same_value(feature, ix, v, exact_text) for ix, v in expected)
             readable += 1
             feature = lyr.GetNextFeature()
     ok = ok and (num_features is None or readable == num_features)
-- 
2.43.0


From 3210df59123e2070cccfb7ea0d4e6816ffd2fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:00 +0000
Subject: [PATCH 49/49] fix: a layer is not lost when its datasource cannot be
 opened for update

---
 malstroem/vector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/malstroem/vector.py b/malstroem/vector.py
index 7596d46..f080697 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -63,8 +63,9 @@ def check_replaceable(datasource, layername):
     ds = ogr.Open(datasource)
     if ds.GetDriver().GetMetadataItem('DCAP_MULTIPLE_VECTOR_LAYERS'):
         others = [ds.GetLayerByIndex(ix).GetName() for ix in range(ds.GetLayerCount())]
-        if [name for name in others if name != layername]:
-            raise IOError('Cannot update {}, and it holds other layers: {}'.format(datasource, ', '.join(others)))
+        # Formats with transactions can be updated. If that is not possible right now, the layer itself must not get lost either
+        if [name for name in others if name != layername or ds.TestCapability(ogr.ODsCTransactions)]:
+            raise IOError('Cannot update {}, and it holds layers: {}'.format(datasource, ', '.join(others)))
 
 
 def drop_failed_layer(ds, layername):
-- 
2.43.0

