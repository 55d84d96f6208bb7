From fb2d905a0fa1a6b3a0ca630fb68913a27ee08bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 01/50] fix: -g is recognised as a configuration command

The contexts stored the flag in _to_add_geopotential while everything else
reads to_add_geopotential, so adding a geopotential was never executed.
---
 src/pyg2p/main/api.py     | 2 +-
 src/pyg2p/main/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index aaf78de..04707b2 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -122,7 +122,7 @@ class ApiContext(Context):
         self._vars['input.file2'] = self.api_conf.get('inputFile2')
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = self.api_conf.get('addGeopotential')
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = self.api_conf.get('downloadConf')
         self._vars['under_api'] = True
         self._vars['check_conf'] = self.api_conf.get('checkConf')
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 92be2fc..3ebc67b 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -240,7 +240,7 @@ class ExecutionContext(Context):
         self._vars['input.file2'] = parsed_args['inputFile2']
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = parsed_args['addGeopotential']
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = parsed_args['downloadConf']
         self._vars['under_api'] = parsed_args['underApi']
         self._vars['check_conf'] = parsed_args['checkConf']
-- 
2.43.0


From 2baa7c5f4652f094b6321ca3260553a9e24a480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 02/50] fix: -W and -K reach the operations they stand for

download_data takes the dataset only, the check is called check_conf, and
neither command needs an input file, maps or a commands file.
---
 src/pyg2p/main/__init__.py | 4 ++--
 src/pyg2p/main/context.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 7febe4f..02e6325 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -61,7 +61,7 @@ def config_command(exc_ctx):
     if exc_ctx.to_download_conf:  # -W
         # download configuration
         dataset = exc_ctx.get('download_configuration')
-        conf.download_data(dataset, logger)
+        conf.download_data(dataset)
         logger.info('Configuration downloaded.')
 
     elif exc_ctx.to_add_geopotential:  # -g
@@ -72,4 +72,4 @@ def config_command(exc_ctx):
 
     elif exc_ctx.to_check_conf:  # -K
         # check unused intertables (intertables that are not in configuration and can be deleted
-        conf.to_check_conf()
+        conf.check_conf()
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 3ebc67b..1902cf6 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -86,7 +86,7 @@ class Context:
             if not files.exists(self._vars['geopotential']):
                 raise ApplicationException.get_exc(7001, self._vars['geopotential'])
 
-        else:
+        elif not self.is_config_command:
 
             if not self._vars.get('input.file'):
                 raise ApplicationException.get_exc(MISSING_INPUT_GRIB)
-- 
2.43.0


From f87f25edebf39586b40c0efc262b6545d2cb48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 03/50] fix: -K survives the description entry and folders that
 are not configured

---
 src/pyg2p/main/config.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index f7d4f81..7c47ad6 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -331,16 +331,23 @@ class Configuration(pyg2p.Loggable):
         self._log(f'=== Download finished: {remote_path}')
         client.quit()  # close FTP connection
 
+    @staticmethod
+    def _folder_content(path):
+        if not path or not file_util.exists(path, is_folder=True):
+            return []
+        return file_util.ls(path, 'npy')
+
     def check_conf(self):
         # it logs all files in intertables and geopotentials paths that are not used in configuration
 
-        used_intertables = [i['filename'] for i in self.intertables.vars.values()]
+        # configuration files also contain a textual description
+        used_intertables = [i['filename'] for i in self.intertables.vars.values() if isinstance(i, dict)]
         used_geopotentials = self.geopotentials.vars.values()
 
-        intertables_folder_content = file_util.ls(self.intertables.data_path, 'npy')
-        intertables_global_folder_content = file_util.ls(self.intertables.global_data_path, 'npy')
-        geopotentials_folder_content = file_util.ls(self.geopotentials.data_path, 'npy')
-        geopotentials_global_folder_content = file_util.ls(self.geopotentials.global_data_path, 'npy')
+        intertables_folder_content = self._folder_content(self.intertables.data_path)
+        intertables_global_folder_content = self._folder_content(self.intertables.global_data_path)
+        geopotentials_folder_content = self._folder_content(self.geopotentials.data_path)
+        geopotentials_global_folder_content = self._folder_content(self.geopotentials.global_data_path)
         for f in itertools.chain(intertables_folder_content, intertables_global_folder_content):
             if file_util.filename(f) not in used_intertables:
                 self._log(f'Intertable file is not in configuration: {f} - You could delete it')
@@ -351,6 +358,8 @@ class Configuration(pyg2p.Loggable):
 
         user_intertables = deepcopy(self.intertables.user_vars)
         for k, i in user_intertables.items():
+            if not self.intertables.data_path or not isinstance(i, dict):
+                continue
             fullpath = os.path.join(self.intertables.data_path, i['filename'])
             if not file_util.exists(fullpath):
                 self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
-- 
2.43.0


From 4123846097a612fefd108ae267a7f3baf08e7a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 04/50] fix: closing before anything was written does not hide
 the original error

With netCDF output every failure before the dataset was created, including the
'no messages' case that must exit with 0, ended in an AttributeError raised by
the close in the finally clause.
---
 src/pyg2p/main/__init__.py       | 3 ++-
 src/pyg2p/main/writers/netcdf.py | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 02e6325..df64b4e 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -51,7 +51,8 @@ def execute(exc_ctx):
         if not err.code == NO_MESSAGES:
             ret_value = 1
     finally:
-        ctrl.close()
+        if ctrl:
+            ctrl.close()
     return ret_value
 
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 1702511..dad1d40 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -183,5 +183,9 @@ class NetCDFWriter(Writer):
         return masked
 
     def close(self):
+        if self.nf is None:
+            # nothing was written
+            return
         self.nf.close()
+        self.nf = None
         self._log(f'{self.filepath} written!', 'INFO')
-- 
2.43.0


From 5391be66e57be20e082af712143199d96322f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 05/50] fix: aggregation keeps missing cells

The average took its masks from get_masks(v_ord.values()), which inspects the
view object instead of the fields; in-place additions to a plain zero array
dropped the mask of the instantaneous and accumulated fields.
---
 src/pyg2p/main/manipulation/aggregator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 640bed6..c3fa31d 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -139,8 +139,7 @@ class Aggregator(Loggable):
 
             # variables needed for numexpr evaluator namespace. DO NOT DELETE!!!
             # need to create the out array first as zero array, for issue in missing values for certain gribs
-            v_iter_ma = np.zeros(shape_iter)
-            v_iter_ma += v_ord[iter_]
+            v_iter_ma = np.zeros(shape_iter) + v_ord[iter_]
             _unit_time = self._unit_time
             _aggr_step = self._aggregation_step
             key = Step(iter_ - self._aggregation_step, iter_, resolution, self._aggregation_step, level)
@@ -180,6 +179,7 @@ class Aggregator(Loggable):
                     iter_from = iter_ + 1
                     iter_to = iter_ + self._aggregation_step + 1
                 temp_sum = np.zeros(shape_iter)
+                used = []
                 sum_counter = 0.0
                 v_ord_keys = list(v_ord.keys())
 
@@ -204,6 +204,7 @@ class Aggregator(Loggable):
                                     v_ma = v_ord[iterator_avg]*dt1
                                     print("Iterator: {} weight: {}".format(iterator_avg,dt1))
                                     sum_counter += dt1
+                                used.append(v_ma)
                                 ne.evaluate('temp_sum + v_ma', out=temp_sum)
                 else:
                     for iterator_avg in range(iter_from, iter_to, 1):
@@ -221,6 +222,7 @@ class Aggregator(Loggable):
                             v_ma = v_ord[next_]
                             sum_counter += 1
                             print("Iterator: {} weight: 1".format(next_))
+                        used.append(v_ma)
                         ne.evaluate('temp_sum + v_ma', out=temp_sum)
 
                 # mask result with all maskes from GRIB original values used in average (if existing any)
@@ -229,7 +231,7 @@ class Aggregator(Loggable):
                 print("dividing sum by {}".format(sum_counter))
                 res = ne.evaluate('temp_sum/sum_counter')
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                out_values[key] = ma.masked_where(numeric.get_masks(v_ord.values()), res, copy=False)
+                out_values[key] = ma.masked_where(numeric.get_masks(*used), res, copy=False)
                 if self._logger.isEnabledFor(logging.DEBUG):
                     self._log(f'out[{key}] = temp_sum/{sum_counter}')
 
@@ -261,7 +263,7 @@ class Aggregator(Loggable):
                 if iter_ in v_ord_keys:
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'out[{key}] = grib[{iter_}]')
-                    res_inst += v_ord[iter_]
+                    res_inst = res_inst + v_ord[iter_]
                 else:
                     if iter_ == 0:
                         # left out as zero arrays if 0 step is not in the grib
@@ -273,7 +275,7 @@ class Aggregator(Loggable):
                         next_ = list(v_ord_keys)[ind_next_]
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = grib[{next_}]')
-                        res_inst += v_ord[next_]
+                        res_inst = res_inst + v_ord[next_]
                 out_values[key] = res_inst
 
             return out_values
-- 
2.43.0


From af8ab6240a9a3cc629e1d9bc897b2f4a36445900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 06/50] fix: cutting off negative values keeps missing cells

numexpr returns a plain array, so the mask of a masked field was lost.
---
 src/pyg2p/main/manipulation/conversion.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 2a3cdd6..a709d13 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -45,12 +45,19 @@ class Converter(Loggable):
         self._log('Cutting off negative values...')
         if isinstance(xs, dict):
             for timestep, values in xs.items():
-                xs[timestep] = ne.evaluate('where(values<0, 0, values)')
+                xs[timestep] = self._cut_off(values)
         else:
-            values = xs
-            xs = ne.evaluate('where(values<0, 0, values)')
+            xs = self._cut_off(xs)
         return xs
 
+    @staticmethod
+    def _cut_off(values):
+        res = ne.evaluate('where(values<0, 0, values)')
+        # preserve masks as numexpr just ignores them
+        if isinstance(values, ma.core.MaskedArray):
+            res = ma.masked_where(values.mask, res, copy=False)
+        return res
+
     def __str__(self):
         log_mess = "\nConverting values from units {}. " \
                    "\nFunction: {}" \
-- 
2.43.0


From 73b70d515656937e6150ce1c2ac82d8d4ca2bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 07/50] fix: scipy interpolation keeps missing source cells

numpy.append returns an unmasked array, so the masks collected below it were
always empty and masked cells contributed the raw missing value.
---
 src/pyg2p/main/interpolation/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 4e7b2f0..f03f794 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -144,7 +144,8 @@ class Interpolator(Loggable):
         # It gives (last_index + 1) from original values when value can't be computed.
         # These "last_index + 1" indexes are stored in intertable so we artificially add a missing value
         # v[last_index + 1] = mv
-        v = np.append(v, self.mv_output)
+        # note: numpy.append drops the mask of a masked array
+        v = ma.append(v, self.mv_output) if isinstance(v, ma.core.MaskedArray) else np.append(v, self.mv_output)
         orig_mask = False if not isinstance(v, ma.core.MaskedArray) else v.mask
         if nnear == 1:
             if isinstance(orig_mask, np.ndarray):
-- 
2.43.0


From e0d84ff8ab2222634d4371cc182d9a988557bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 08/50] fix: netCDF output keeps masked cells

Stacking the fields with numpy.array dropped their masks before the writer
could replace them with the missing value.
---
 src/pyg2p/main/writers/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 41c20f3..6bb36a6 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -3,6 +3,7 @@ import abc
 import collections
 
 import numpy as np
+import numpy.ma as ma
 
 from pyg2p import Loggable
 from pyg2p.main.interpolation import Interpolator
@@ -70,7 +71,8 @@ class OutputWriter(Loggable):
             time_values.append(timestep.end_step)
         # prepare values for netcdf writing
         time_values = np.array(time_values, dtype=np.int32)
-        out_values = np.array(out_values, dtype=np.float64)
+        # note: numpy.array drops the masks of masked arrays
+        out_values = ma.array(out_values, dtype=np.float64)
         out_filename = self._name_netcdf_file()
         var_args = dict(prefix=self.ctx.get('outMaps.namePrefix'),
                         unit=self.ctx.get('parameter.conversionUnit'),
-- 
2.43.0


From e711866d85e64a074fe9ec8f67c63b0347d98b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 09/50] fix: target missing value becomes the clone's missing
 value (PCRaster, API)

---
 src/pyg2p/main/api.py              | 3 +++
 src/pyg2p/main/writers/__init__.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 04707b2..746caa9 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -3,6 +3,7 @@ from functools import partial
 from pathlib import Path
 from types import MethodType
 
+import numpy as np
 import numpy.ma as ma
 
 from . import Controller, Configuration
@@ -307,6 +308,8 @@ class Pyg2pApi:
             if self.context.must_do_correction:
                 corrector = Corrector.get_instance(self.context, grid_id)
                 out_v = corrector.correct(out_v)
+            # missing value of the target coordinates is not necessarily the one of the clone map
+            out_v[(out_v == self.interpolator.mv_output) | np.isnan(out_v)] = self.mv
             out_v = self._mask_values(out_v)
             out[timestep] = out_v
         out = collections.OrderedDict(sorted(out.items(), key=lambda item: int(item[0].end_step)))
diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 6bb36a6..cb08771 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -108,6 +108,8 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
+            # missing value of the target coordinates is not necessarily the one of the clone map
+            out_v[out_v == self.interpolator.mv_output] = np.nan
             self.writer.write(self._name_pcr_map(i), out_v)
 
     def write_maps(self, values, messages, change_res_step=None):
-- 
2.43.0


From f47cc06f099670189b3c79b0e5c64d2b78c6b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 10/50] fix: -f 1 and -x 1 overwrite the JSON template

---
 src/pyg2p/main/api.py     |  8 ++++----
 src/pyg2p/main/context.py | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 746caa9..b87e11b 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -197,10 +197,10 @@ class ApiContext(Context):
             self._vars['outMaps.valueFormat'] = self.api_conf['OutMaps'].get('valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = self.api_conf['OutMaps'].get('outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
-            self._vars['outMaps.fmap'] = self.api_conf['OutMaps'].get('fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
-            self._vars['outMaps.ext'] = self.api_conf['OutMaps'].get('ext') or 1
+        if self._vars['outMaps.fmap'] is None:
+            self._vars['outMaps.fmap'] = int(self.api_conf['OutMaps'].get('fmap') or 1)
+        if self._vars['outMaps.ext'] is None:
+            self._vars['outMaps.ext'] = int(self.api_conf['OutMaps'].get('ext') or 1)
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 1902cf6..f545390 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -273,12 +273,12 @@ class ExecutionContext(Context):
                             type=int, metavar='data_date')
 
         # output file naming (first extension number, extension number step, prefix
-        parser.add_argument('-f', '--fmap', help='First map number', type=int, default=1, metavar='fmap')
+        parser.add_argument('-f', '--fmap', help='First map number', type=int, metavar='fmap')
         # output file format
         parser.add_argument('-F', '--format', metavar='format',
                             default='notset', choices=['netcdf', 'pcraster', 'notset'],
                             help='Output format. Available options: netcdf,  pcraster. Default pcraster')
-        parser.add_argument('-x', '--ext', help='Extension number step', type=int, default=1, metavar='extension_step')
+        parser.add_argument('-x', '--ext', help='Extension number step', type=int, metavar='extension_step')
         parser.add_argument('-n', '--namePrefix', help='Prefix name for maps', metavar='outfiles_prefix')
         parser.add_argument('-O', '--offset', help='Map offset', metavar='offset')
         parser.add_argument('-S', '--scaleFactor', help='Map scale factor', metavar='scale_factor')
@@ -393,10 +393,10 @@ class ExecutionContext(Context):
             self._vars['outMaps.valueFormat'] = exec_conf['OutMaps'].get('@valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = exec_conf['OutMaps'].get('@outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
-            self._vars['outMaps.fmap'] = exec_conf['OutMaps'].get('@fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
-            self._vars['outMaps.ext'] = exec_conf['OutMaps'].get('@ext') or 1
+        if self._vars['outMaps.fmap'] is None:
+            self._vars['outMaps.fmap'] = int(exec_conf['OutMaps'].get('@fmap') or 1)
+        if self._vars['outMaps.ext'] is None:
+            self._vars['outMaps.ext'] = int(exec_conf['OutMaps'].get('@ext') or 1)
         if self._vars['outMaps.format'] == 'notset':
             # default out format to pcraster if not set from commandline nor in execution command json
             self._vars['outMaps.format'] = exec_conf['OutMaps'].get('@format') or 'pcraster'
-- 
2.43.0


From e7a1d9ef39ac8c8563d5f1276519f4d7cf5c2a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 11/50] fix: perturbationNumber and zero selectors of the
 execution template are honoured

---
 src/pyg2p/main/api.py     | 17 +++++++----------
 src/pyg2p/main/context.py | 13 +++++--------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index b87e11b..129f742 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -100,8 +100,8 @@ class ApiContext(Context):
         self._vars['logger.level'] = self.api_conf.get('loggerLevel', 'INFO')
 
         self._vars['input.file'] = self.api_conf['inputFile']
-        self._vars['parameter.tstart'] = self.api_conf['start']
-        self._vars['parameter.tend'] = self.api_conf['end']
+        self._vars['parameter.tstart'] = self.api_conf.get('start')
+        self._vars['parameter.tend'] = self.api_conf.get('end')
         self._vars['parameter.dataTime'] = self.api_conf.get('dataTime')
         self._vars['parameter.dataDate'] = self.api_conf.get('dataDate')
         self._vars['interpolation.dir'] = self.api_conf.get('intertableDir')
@@ -204,14 +204,11 @@ class ApiContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart'):
-            self._vars['parameter.tstart'] = int(self.api_conf['Parameter']['tstart'])
-        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend'):
-            self._vars['parameter.tend'] = int(self.api_conf['Parameter']['tend'])
-        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime'):
-            self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
-        if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
-            self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
+        # note: 0 is a valid number for a selector
+        for selector in ('tstart', 'tend', 'dataTime', 'dataDate', 'perturbationNumber'):
+            number = self.api_conf['Parameter'].get(selector)
+            if self._vars[f'parameter.{selector}'] is None and number not in (None, ''):
+                self._vars[f'parameter.{selector}'] = int(number)
 
         self._vars['parameter.level'] = self.api_conf['Parameter'].get('level')  # number
 
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index f545390..75655bf 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -403,14 +403,11 @@ class ExecutionContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart'):
-            self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
-        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
-            self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
-        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime'):
-            self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
-        if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
-            self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
+        # note: 0 is a valid number for a selector
+        for selector in ('tstart', 'tend', 'dataTime', 'dataDate', 'perturbationNumber'):
+            number = exec_conf['Parameter'].get(f'@{selector}')
+            if self._vars[f'parameter.{selector}'] is None and number not in (None, ''):
+                self._vars[f'parameter.{selector}'] = int(number)
 
         self._vars['parameter.level'] = exec_conf['Parameter'].get('@level')  # number
 
-- 
2.43.0


From 05f6f13060f069fedc8f1a5e2a22a78b096cbde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 12/50] fix: table folders are read from the documented place
 of the template

---
 src/pyg2p/main/context.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 75655bf..d26f48e 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -366,12 +366,13 @@ class ExecutionContext(Context):
         self._vars['interpolation.use_broadcasting'] = interpolation_conf.get('@use_broadcasting', False)
         self._vars['interpolation.num_of_splits'] = interpolation_conf.get('@num_of_splits', None)
         self._vars['interpolation.rotated_target'] = interpolation_conf.get('@rotated_target', False)
-        if not self._vars['interpolation.dir'] and interpolation_conf.get('@intertableDir'):
-            # get from JSON
-            self._vars['interpolation.dirs']['user'] = interpolation_conf['@intertableDir']
-        if not self._vars['geopotential.dir'] and interpolation_conf.get('@geopotentialDir'):
-            # get from JSON
-            self._vars['geopotential.dirs']['user'] = interpolation_conf['@geopotentialDir']
+        # get from JSON
+        intertables_dir = exec_conf.get('@intertableDir') or interpolation_conf.get('@intertableDir')
+        geopotentials_dir = exec_conf.get('@geopotentialDir') or interpolation_conf.get('@geopotentialDir')
+        if not self._vars['interpolation.dir'] and intertables_dir:
+            self._vars['interpolation.dirs']['user'] = intertables_dir
+        if not self._vars['geopotential.dir'] and geopotentials_dir:
+            self._vars['geopotential.dirs']['user'] = geopotentials_dir
         self._vars['interpolation.latMap'] = interpolation_conf['@latMap']
         self._vars['interpolation.lonMap'] = interpolation_conf['@lonMap']
 
-- 
2.43.0


From a171907b4d2b54430eb8b006ecc2d691f616cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 13/50] fix: a level given as a JSON number is accepted

---
 src/pyg2p/main/context.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index d26f48e..6a8b7e3 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -118,9 +118,13 @@ class Context:
 
             # check all numbers
 
-            if self._vars['parameter.level'] and not self._vars['parameter.level'].isdigit():
+            level = self._vars.get('parameter.level')
+            if level in (None, ''):
+                self._vars['parameter.level'] = None
+            elif str(level).isdigit():
+                self._vars['parameter.level'] = int(level)
+            else:
                 raise ApplicationException.get_exc(NOT_A_NUMBER, 'Parameter level')
-            self._vars['parameter.level'] = int(self._vars['parameter.level']) if self._vars.get('parameter.level') else None
 
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
-- 
2.43.0


From 9ace10465af484440c09646795f98f0facc38750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 14/50] fix: a missing DEM map is reported as such

---
 src/pyg2p/main/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 6a8b7e3..403b1dc 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -7,7 +7,7 @@ from .. import __version__
 from ..util import files, strings
 from .manipulation.aggregator import ACCUMULATION
 from ..exceptions import (ApplicationException, INVALID_INTERPOL_METHOD,
-                          WRONG_ARGS, NOT_A_NUMBER, NOT_EXISTING_MAPS, MISSING_INPUT_GRIB, NOT_EXISTING_INPUT_GRIB)
+                          WRONG_ARGS, NOT_A_NUMBER, NOT_EXISTING_MAPS, MISSING_INPUT_GRIB, NOT_EXISTING_INPUT_GRIB, NO_FILE_DEM)
 
 
 class Context:
@@ -138,7 +138,7 @@ class Context:
                     'correction.formula')):
                 raise ApplicationException.get_exc(4100)
             if self._vars['execution.doCorrection'] and not files.exists(self._vars['correction.demMap']):
-                raise ApplicationException.get_exc(4200, self._vars['correction.demMap'])
+                raise ApplicationException.get_exc(NO_FILE_DEM, self._vars['correction.demMap'])
 
     def geo_file(self, grid_id):
         path = self.input_file_with_geopotential
-- 
2.43.0


From 3c0563a1880455d588e417eb5654cbc065870ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 15/50] fix: the API honours aggregation half weights

---
 src/pyg2p/main/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 129f742..a7bd76e 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -215,6 +215,7 @@ class ApiContext(Context):
         if self.api_conf.get('Aggregation'):
             self._vars['aggregation.step'] = self.api_conf['Aggregation'].get('step')
             self._vars['aggregation.type'] = self.api_conf['Aggregation'].get('type')
+            self._vars['aggregation.halfweights'] = bool(self.api_conf['Aggregation'].get('halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
-- 
2.43.0


From 0323c37ec09e0985248f45b3960230041763a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 16/50] fix: correction result is missing where dem, value or
 geopotential are missing

---
 src/pyg2p/main/manipulation/correction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 2d17d40..6d2d264 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -43,7 +43,7 @@ class Corrector(Loggable):
         self._dem_missing_value, self._dem_values = self._read_dem(dem_map)
         self._formula = ctx.get('correction.formula')
         self._gem_formula = ctx.get('correction.gemFormula')
-        self._numexpr_eval = f'where((dem!=dem_mv) & (p!=mv) & (gem!=gem_mv), {self._formula}, mv)'
+        self._numexpr_eval = f'where((dem!=dem_mv) & (p!=mv) & (p!=mv_out) & (gem!=gem_mv) & (gem!=mv_out), {self._formula}, mv)'
         self._numexpr_eval_gem = f'where(z != mv, {self._gem_formula}, mv)'
 
         log_message = f"""
@@ -75,10 +75,13 @@ class Corrector(Loggable):
             gem = self._gem_values
             dem_mv = self._dem_missing_value
             gem_mv = self._gem_missing_value
+            mv_out = self._mv_output  # interpolation leaves this one in cells with no value
             mv = default_fillvals[values.dtype.str[1:]] # take missing values from the default netCDF fillvals values
             values = ne.evaluate(self._numexpr_eval)
             # mask out values (here is already output values with destination shape)
-            values = ma.masked_where(pyg2p.util.numeric.get_masks(p), values)
+            missing = values == mv
+            masks = pyg2p.util.numeric.get_masks(p, gem)
+            values = ma.masked_where(missing if masks is None else missing | masks, values)
         return values
 
     def _read_geo(self, grib_file, ctx):
@@ -90,6 +93,7 @@ class Corrector(Loggable):
         values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
         aux_g, aux_v, aux_g2, aux_v2 = reader.get_gids_for_grib_intertable()
         interpolator = Interpolator(ctx, missing)
+        self._mv_output = interpolator.mv_output
         interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
 
         # get temp from geopotential. will be gem in the formula
-- 
2.43.0


From 1e65b637a01c0b2eec60979bd12333bf5122c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 17/50] fix: a corrector is reused only for the correction it
 was made for

---
 src/pyg2p/main/manipulation/correction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 6d2d264..19bccc9 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -27,7 +27,8 @@ class Corrector(Loggable):
     def get_instance(cls, ctx, grid_id):
         geo_file_ = ctx.geo_file(grid_id)
         dem_map = ctx.get('correction.demMap')
-        key = f'{grid_id}{dem_map}'
+        key = (grid_id, dem_map, geo_file_, ctx.get('correction.formula'), ctx.get('correction.gemFormula'),
+               ctx.get('interpolation.mode'), ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'))
         if key in cls.instances:
             return cls.instances[key]
         else:
-- 
2.43.0


From ea4ccd8bb5e231f64400b96939d3b9cf174930e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 18/50] fix: inconsistent interpolation inputs stop the
 execution

---
 .../main/interpolation/scipy_interpolation_lib.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7760424..ddbe7ad 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -553,7 +553,7 @@ class ScipyInterpolation(object):
         try:
             assert len(source_locations) == len(source_values), "len(coordinates) {} != len(values) {}".format(len(source_locations), len(source_values))
         except AssertionError as e:
-            ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
+            raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
 
         stdout.write('Building KDTree...\n')
         self.tree = KDTree(source_locations, leafsize=30)  # build the tree
@@ -871,7 +871,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     stdout.write('\nEvaluating cutoffs...')
                     
@@ -882,7 +882,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     if DEBUG_ADW_INTERPOLATION:
                         stdout.write('\nEvaluating cutoffs...')
@@ -907,7 +907,7 @@ class ScipyInterpolation(object):
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-                    ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
+                    raise ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
 
                 # consider only TOP 10 weights instead of all:
                 if weights_mode == "OnlyTOP10":
@@ -1310,7 +1310,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(np.unique(indexes[nn, 0:4]))==4) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nLess then 4 distinct point! nn={} lat={} lon={}".format(nn, self.lat_in, self.lon_in))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nLess then 4 distinct point! nn={} lat={} lon={}".format(nn, self.lat_in, self.lon_in))
                     
                     if quadrilateral_is_ok==False:
                         #print("\nError: quadrilateral_is_ok is False, failed to find a correct quadrilateral: nn is {}, lat={} lon={}".format(nn, self.lat_in, self.lon_in))
-- 
2.43.0


From 86a55fcd1a22d0acc1c45fd79eac791a79ee8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 19/50] fix: first point added at the border refers to its
 source point

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index ddbe7ad..bd589d0 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1510,7 +1510,7 @@ class ScipyInterpolation(object):
                         weights[nn] = np.append(np.append(np.transpose(b),1 - b.sum(axis=0)),np.zeros(nnear-3))
                         result[nn] = weights[nn,0]*z[idxs[nn,0]] + weights[nn,1]*z[idxs[nn,1]] + weights[nn,2]*z[idxs[nn,2]]
         if (is_global_map==True):
-            idxs[idxs>len(self.latgrib)]=original_indexes[idxs[idxs>len(self.latgrib)]-len(self.latgrib)]
+            idxs[idxs>=len(self.latgrib)]=original_indexes[idxs[idxs>=len(self.latgrib)]-len(self.latgrib)]
         stdout.write('{}{:>100}'.format(back_char, ' '))
         stdout.write('{}Building coeffs: {}/{} [outs: {}] (100%)\n'.format(back_char, num_cells, num_cells, outs))
         if use_bilinear:
-- 
2.43.0


From 9a6b2689642772ed9308139ce6f77744e4c50627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 20/50] fix: reading a grid id releases messages and reports a
 file without them

---
 src/pyg2p/main/readers/grib.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index a4abd63..5f1320a 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -49,9 +49,14 @@ class GRIBReader(Loggable):
     @classmethod
     def get_id(cls, grib_file, reader_args):
         reader = GRIBReader(grib_file)
-        gribs_for_id = reader._get_gids(**reader_args)
-        grid = GribGridDetails(gribs_for_id[0])
-        reader.close()
+        try:
+            # messages are released closing the reader
+            reader._selected_grbs = reader._get_gids(**reader_args)
+            if not reader._selected_grbs:
+                raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {reader_args}')
+            grid = GribGridDetails(reader._selected_grbs[0])
+        finally:
+            reader.close()
         return grid.grid_id
 
     @staticmethod
-- 
2.43.0


From 2d91333e2ff7088b000555e9d4aa6c0ddd88f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 21/50] fix: files that cannot be indexed are scanned from the
 start each time

---
 src/pyg2p/main/readers/grib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 5f1320a..18e2dff 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -101,11 +101,13 @@ class GRIBReader(Loggable):
                     codes_release(gid)
 
         elif self._file_handler:
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
                     break
-                has_geo = True
+                if codes_get(gid, 'shortName') in v_selected:
+                    has_geo = True
                 codes_release(gid)
         return has_geo
 
@@ -130,6 +132,8 @@ class GRIBReader(Loggable):
                         # release unused grib
                         codes_release(gid)
         elif self._file_handler:
+            # always read the whole file
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
-- 
2.43.0


From 0163785d557be8a1f03b4a2d75c04da71c81246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 22/50] fix: an end step 0 is not ignored

---
 src/pyg2p/main/controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index c1325c4..2cc62ae 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -37,7 +37,9 @@ class Controller(Loggable):
 
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
-        end_step = self.ctx.get('parameter.tend') or grib_info.end
+        end_step = self.ctx.get('parameter.tend')
+        if end_step is None:
+            end_step = grib_info.end
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
-- 
2.43.0


From 640c4041b36523e377a2b730bd919bbd3e52515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 23/50] fix: two resolutions can be extracted without
 aggregation

---
 src/pyg2p/main/controller.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 2cc62ae..3ed198e 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -123,11 +123,15 @@ class Controller(Loggable):
         change_res_step = None
         if messages.have_resolution_change():
             change_res_step = messages.change_resolution_step()
-            start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
             # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step > start_step2:
-                # second resolution manipulation
-                change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            if self.ctx.must_do_aggregation:
+                start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
+                if end_step > start_step2:
+                    # second resolution manipulation
+                    change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            else:
+                # no manipulation: messages of both resolutions are used as they are
+                values = {**values, **messages.second_resolution_values()}
 
         # cutoff after interpolation
         if converter and converter.must_cut_off:
-- 
2.43.0


From f4f458d9adeb53d12ec9e0c7e62905036848de2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 24/50] fix: the API releases its inputs and can create grib
 interpolation tables

---
 src/pyg2p/main/api.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index a7bd76e..e77d587 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -283,12 +283,23 @@ class Pyg2pApi:
         :return: dict of numpy values, keys are instances of  pyg2p.Step
         """
         grib_reader = GRIBReader(self.context.get('input.file'), w_perturb=self.context.has_perturbation_number)
-        grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
+        try:
+            grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
+        finally:
+            grib_reader.close()
         ctrl = Controller(self.context)
+        try:
+            return self._execute(ctrl, grib_info)
+        finally:
+            ctrl.close()
+
+    def _execute(self, ctrl, grib_info):
         ctrl.log_execution_context()
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
         self.interpolator = Interpolator(self.context, grib_info.mv)
+        if self.context.is_with_grib_interpolation:
+            self.interpolator.aux_for_intertable_generation(*ctrl.grib_reader.get_gids_for_grib_intertable())
         is_second_res = False
         lats, longs = self.messages.latlons
         geodetic_info = self.messages.grid_details
-- 
2.43.0


From 0991e92d7b2e9c27e1d9891256d0b49b6a121a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 25/50] fix: an undefined path variable is reported as such

---
 src/pyg2p/main/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 7c47ad6..7a22f75 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -74,7 +74,10 @@ class UserConfiguration(pyg2p.Loggable):
         vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
         for var in vars_with_variables:
             # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            ctx[var] = ctx[var].format(**self.vars)
+            try:
+                ctx[var] = ctx[var].format(**self.vars)
+            except KeyError as exc:
+                raise ApplicationException.get_exc(NO_VAR_DEFINED, str(exc))
             if self.re_var.search(ctx[var]):
                 # some variables where not string-interpolated so they are missing in user configuration
                 vars_not_defined = self.re_var.findall(ctx[var])
-- 
2.43.0


From 766c4e5eecf03203cdddcaa34816bc91dc5c3eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 26/50] fix: user variables can contain the separator

---
 src/pyg2p/main/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 7a22f75..17c787c 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -58,7 +58,8 @@ class UserConfiguration(pyg2p.Loggable):
             for line in f:
                 line = line.strip()
                 if line and not line.startswith(self.comment_char):
-                    key_value = line.split(self.sep)
+                    # value can contain the separator
+                    key_value = line.split(self.sep, 1)
                     props[key_value[0].strip()] = key_value[1].strip('" \t')
         return props
 
-- 
2.43.0


From 76bacdddb25069ebb28515abd352d07344a5671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 27/50] fix: an empty user configuration is saved as an object

---
 src/pyg2p/main/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 17c787c..7ed61ae 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -145,8 +145,7 @@ class BaseConfiguration(pyg2p.Loggable):
 
     def dump(self):
         with open(self.config_file, 'w') as f:
-            user_vars = self.user_vars or '{}'
-            f.write(json.dumps(user_vars, sort_keys=True, indent=4))
+            f.write(json.dumps(self.user_vars, sort_keys=True, indent=4))
 
     def check_write(self):
         if not self.data_path:
-- 
2.43.0


From 85a95d585d730907a4c6617abc1a0a24d56877b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 28/50] fix: netCDF maps with more than one variable can be
 read

---
 src/pyg2p/main/readers/netcdf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/readers/netcdf.py b/src/pyg2p/main/readers/netcdf.py
index e27b95c..a5e4900 100644
--- a/src/pyg2p/main/readers/netcdf.py
+++ b/src/pyg2p/main/readers/netcdf.py
@@ -3,6 +3,7 @@ from pathlib import Path
 import numpy as np
 
 from pyg2p import Loggable
+from pyg2p.exceptions import ApplicationException, WEIRD_STUFF
 import netCDF4 as nc
 from netCDF4 import Dataset, default_fillvals
 import warnings
@@ -46,10 +47,8 @@ class NetCDFReader(Loggable):
         if len(variable_names) > 1:
             warnings.warn('More than one variable in dataset {}'.format(path), RuntimeWarning)
         elif len(variable_names) == 0:
-            warnings.warn('Could not find a valid variable in dataset {}'.format(path), RuntimeWarning)
-        else:
-            var_name = variable_names[0]
-        return var_name
+            raise ApplicationException.get_exc(WEIRD_STUFF, f'Could not find a valid variable in dataset {path}')
+        return variable_names[0]
 
     @property
     def values(self):
-- 
2.43.0


From ada48db7a16fd44cd7b4c72996e63bdafc87ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 29/50] fix: clone maps without missing cells can be used for
 netCDF output

---
 src/pyg2p/main/writers/netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index dad1d40..a38991f 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -31,8 +31,8 @@ class NetCDFWriter(Writer):
             self.area = area.values
         
         # add mask from clone map
-        self.area = ma.masked_values(self.area, area.mv)
-        self._mask = ma.getmask(self.area)
+        self.area = ma.masked_invalid(ma.masked_values(self.area, area.mv))
+        self._mask = ma.getmaskarray(self.area)
         
         if lats_map.endswith('.nc'):
             if (lats_map!=lons_map):
-- 
2.43.0


From 969beb7647361cad7ceaadea85ba2ac5dd4f5fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 30/50] fix: commands can be built from scratch and from
 strings with boolean options

---
 src/pyg2p/main/api.py     |  6 ++++--
 src/pyg2p/util/strings.py | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index e77d587..71131c5 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -53,7 +53,9 @@ class Command:
         return self
 
     def __init__(self, cmd_string=None, **params):
-        cmd_string = cmd_string.lstrip('pyg2p').strip()
+        cmd_string = (cmd_string or '').strip()
+        if cmd_string.split(' ')[0] in ('pyg2p', 'pyg2p.py'):
+            cmd_string = cmd_string.partition(' ')[2].strip()
         if params:
             opts = params.copy()
             # string interpolation
@@ -61,7 +63,7 @@ class Command:
                 opts[var] = opts[var].as_posix() if isinstance(opts[var], Path) else str(opts[var])  # as string
                 cmd_string = cmd_string.replace('{%s}' % var, opts[var])
         # adding flag underApi
-        self._d = {} if not cmd_string else to_argdict(f'{cmd_string} -A')
+        self._d = to_argdict(f'{cmd_string} -A')
         # adding log level
         if '-l' not in self._d.keys():
             self._a('-l', 'ERROR')
diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index 0c2231e..7019fb4 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -29,8 +29,20 @@ def to_argv(string_):
 
 
 def to_argdict(string_):
-    c = re.split(' |=', string_.strip(), maxsplit=0)
-    return dict(zip(c[0::2], c[1::2]))
+    c = [token for token in re.split(' |=', string_.strip(), maxsplit=0) if token]
+    is_option = re.compile(r'--?[a-zA-Z]').match
+    res = {}
+    i = 0
+    while i < len(c):
+        if is_option(c[i]) and (i + 1 == len(c) or is_option(c[i + 1])):
+            # boolean option, it has no value
+            res[c[i]] = ''
+            i += 1
+        else:
+            if i + 1 < len(c):
+                res[c[i]] = c[i + 1]
+            i += 2
+    return res
 
 
 FALSE_STRINGS = ['FALSE', 'F', 'f', 'False', 'false', 'NO', 'no', 'No', '0', 'off', 'OFF', 'Off', 'nO']
-- 
2.43.0


From cdff5b67c3a57727708cb98023dce4e60fd98dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 31/50] fix: tend 0 before tstart was not refused

---
 src/pyg2p/main/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 403b1dc..8b9ba0a 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -128,8 +128,8 @@ class Context:
 
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
-            # check tstart<=tend
-            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
+            # check tstart<=tend (0 is a valid step)
+            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] not in (None, '') and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
                 raise ApplicationException.get_exc(1500)
 
             # check both correction params are present
-- 
2.43.0


From 154bb31a67ab9c34db15e4a837ecc023cbb47ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 32/50] fix: messages of data times 01 to 09 could not be read

---
 src/pyg2p/main/readers/grib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 18e2dff..71f3b30 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -217,7 +217,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=str(data_time)[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{int(data_time):04d}'[:2])
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From 3da9f8b14d3ab6a065db5f586fabc53aa364d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 33/50] fix: interpolated messages are looked up in order of
 step

The accumulation adds the messages it interpolates at the end of the ordered
dictionary, so later bisections ran over steps out of order.
---
 src/pyg2p/main/manipulation/aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index c3fa31d..66066d8 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -85,7 +85,7 @@ class Aggregator(Loggable):
 
         created_zero_array = False
         for iter_ in range(self._start, self._end + 1, self._aggregation_step):
-            v_ord_keys = list(v_ord.keys())
+            v_ord_keys = sorted(v_ord.keys())
             if iter_ not in v_ord_keys:
 
                 ind_next_ts = bisect.bisect_left(v_ord_keys, iter_)
-- 
2.43.0


From bceb2e0e5392756ccccaf5f31a59efecd69deb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 34/50] fix: first accumulation period starting between two
 messages

The message at the start of the first period was interpolated with the weight
of the step at the end of that period.
---
 src/pyg2p/main/manipulation/aggregator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 66066d8..756ab56 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -124,8 +124,9 @@ class Aggregator(Loggable):
                     v_ots_ma = v_ord[originalts]
 
                     if self._logger.isEnabledFor(logging.DEBUG):
-                        self._log(f'Creating message grib[{iter_ - self._aggregation_step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
+                        self._log(f'Creating message grib[{iter_ - self._aggregation_step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_ - self._aggregation_step}-{originalts})/({next_ts}-{originalts}))')
+                    iter_prev = iter_ - self._aggregation_step
+                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_prev - originalts)/(next_ts-originalts))')
                     v_ord[iter_ - self._aggregation_step] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
 
             if iter_ - self._aggregation_step == 0 and self._force_zero:
-- 
2.43.0


From 8dbb5bc7804d54fb2605bfacafed23264770e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 35/50] fix: a geopotential does not replace one of the same
 name

---
 src/pyg2p/main/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 7ed61ae..5d135c3 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -240,6 +240,11 @@ class GeopotentialsConfiguration(BaseConfiguration):
                                                        f'File was not added: {filepath}')
 
         name = file_util.filename(filepath)
+        if name in self.vars.values():
+            # files are copied in the same folder: it would replace the geopotential of another grid
+            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                               details=f'a file {name} is registered for another grid. '
+                                                       f'File was not added: {filepath}')
         self.check_write()
 
         file_util.copy(filepath, self.data_path)
-- 
2.43.0


From 4748910153498c4f32d418a686825bf69e144ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 36/50] fix: variables with digits in their name are replaced
 in paths

---
 src/pyg2p/main/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 5d135c3..783edfa 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -30,7 +30,7 @@ class UserConfiguration(pyg2p.Loggable):
     sep = '='
     comment_char = '#'
     conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
-    re_var = re.compile(r'{(?P<var>[a-zA-Z_]+)}')
+    re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
 
-- 
2.43.0


From 8f36b3fbc8c8efc508537bf10bbe8b1d677e080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 37/50] fix: the path to the CDD map can contain variables

---
 src/pyg2p/main/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 783edfa..9bf901e 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -29,7 +29,7 @@ class UserConfiguration(pyg2p.Loggable):
     config_dir = f'{os.path.expanduser("~")}/.pyg2p/'
     sep = '='
     comment_char = '#'
-    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
+    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap', 'interpolation.cdd_map')
     re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
-- 
2.43.0


From 4bfe1413cc43685912036b7e90b89ef853cdff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 38/50] fix: interpolation tables stored gzipped under a plain
 registered name were not found by the grib methods

---
 src/pyg2p/main/interpolation/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index f03f794..c71fa3e 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -100,6 +100,11 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
+    @staticmethod
+    def _intertable_exists(tbl_fullpath):
+        # the file can be there as named in configuration or gzipped
+        return pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')
+
     def _read_intertable(self, tbl_fullpath):
 
         if tbl_fullpath not in self._LOADED_INTERTABLES:
@@ -273,7 +278,7 @@ class Interpolator(Loggable):
             intertable_id, intertable_name = self._intertable_filename(grid_id)
         result = np.empty(self._target_coords.lons.shape)
         result.fill(self.mv_out)
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # calling recursive grib_nearest
             # aux_gid and aux_values are only used to create the interlookuptable
             if is_second_res:
@@ -284,7 +289,7 @@ class Interpolator(Loggable):
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs = self._read_intertable(intertable_name)
 
@@ -321,7 +326,7 @@ class Interpolator(Loggable):
         result.fill(self.mv_out)
 
         # check if gid is due to the recursive call
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # aux_gid and aux_values are only used to create the interlookuptable
             # since manipulated values messages don't have gid reference to grib file any longer
             aux_gid = self._aux_gid
@@ -332,7 +337,7 @@ class Interpolator(Loggable):
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs1, idxs2, idxs3, idxs4, coeffs1, coeffs2, coeffs3, coeffs4 = self._read_intertable(intertable_name)
         elif self.create_if_missing:
-- 
2.43.0


From f17e4484aba6ea9a94c951efb148dc6af135f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 39/50] fix: a new interpolation table never takes the file
 name of another registered table

---
 src/pyg2p/main/interpolation/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index c71fa3e..f50b519 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -75,7 +75,9 @@ class Interpolator(Loggable):
             filename = self.format_intertablename(prognum='')
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
             i = 1
-            while pyg2p.util.files.exists(tbl_fullpath):
+            # names of other registered tables are never reused: those tables can be in another directory
+            registered = [t.get('filename') for t in self.intertables_config.vars.values() if isinstance(t, dict)]
+            while filename in registered or pyg2p.util.files.exists(tbl_fullpath):
                 filename = self.format_intertablename(prognum='_{}'.format(i))
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 i += 1
-- 
2.43.0


From 6f6360e77d9a265b210d2cf872b1b85cf27ac17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 40/50] fix: skip target cells at longitude -1e10 in inverse
 distance like nearest does

The rows and columns of the table are selected with lon > -1e10, while the
loop over the cells skipped lon < -1e10 only: a target with a longitude of
exactly -1e10 gave indexes and weights shifted against rows and columns.
---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 6f4febb..93f7cd6 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -87,7 +87,7 @@ def grib_invdist(gid, target_lats, target_lons, mv):
         if i % progress_step == 0:
             stdout.write(format_progress(back_char, i, num_cells, outs, i * 100. / num_cells))
             stdout.flush()
-        if not (lon < -1.0e+10 or lon == mv):
+        if not (lon <= -1.0e+10 or lon == mv):
 
             try:
                 n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item(), npoints=4)
@@ -195,7 +195,7 @@ def invdist_parallel_step(chunk, gid, mv):
     lat, lon, x, y = chunk
     idx1 = idx2 = idx3 = idx4 = int_fill_value
     inv1 = inv2 = inv3 = inv4 = np.NaN
-    if not (lon < -1.0e+10 or lon == mv):
+    if not (lon <= -1.0e+10 or lon == mv):
         try:
             n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item(), npoints=4)
         except eccodes.GribInternalError:
-- 
2.43.0


From eb189d54050ba5fe0bbd6a34a27f9050ccee6e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 41/50] fix: progress step of targets with less than 250 cells

The step was 0, and the serial interpolations ended in a
ZeroDivisionError at the first cell.
---
 src/pyg2p/util/generics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/util/generics.py b/src/pyg2p/util/generics.py
index ef0046a..eda5f87 100644
--- a/src/pyg2p/util/generics.py
+++ b/src/pyg2p/util/generics.py
@@ -20,7 +20,7 @@ def is_callable(v):
 
 
 def progress_step_and_backchar(num_cells):
-    progress_step = int(num_cells / 250)
+    progress_step = max(1, int(num_cells / 250))
     back_char = '\r'
     if not stdout.isatty():
         # out is being redirected
-- 
2.43.0


From b218a18c37051e080d09f8a1a1ba4a3606e33bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 42/50] fix: compute GRIB tables in forked processes

The handle of the message is not valid in processes that dask spawns by
default: -X with the GRIB methods crashed the workers (BrokenProcessPool).
---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 93f7cd6..d6df33e 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -8,6 +8,7 @@ import warnings
 from functools import partial
 from sys import stdout
 
+import dask
 import eccodes
 import numexpr as ne
 import numpy as np
@@ -168,7 +169,8 @@ def grib_nearest_parallel(gid, target_lats, target_lons, mv):
     apply_to_chunk_part = partial(apply_nearest_to_chunk, gid=gid, mv=mv)
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
     progress = ProgressBar(dt=10)
-    with progress:
+    # GRIB handles are valid in forked processes only
+    with progress, dask.config.set({'multiprocessing.context': 'fork'}):
         result = result.compute()
     idxs, xs, ys = concatenate_nearest_result(nchunks, result)
     return xs, ys, idxs
@@ -214,7 +216,8 @@ def grib_invdist_parallel(gid, target_lats, target_lons, mv):
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
 
     progress = ProgressBar(dt=10)
-    with progress:
+    # GRIB handles are valid in forked processes only
+    with progress, dask.config.set({'multiprocessing.context': 'fork'}):
         result = result.compute()
     idxs1, idxs2, idxs3, idxs4, xs, ys, invs1, invs2, invs3, invs4 = concatenate_invdist_result(nchunks, result)
 
-- 
2.43.0


From 68a0588ad5cadfd938d88102eaff5087e5c6de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 43/50] fix: points that coincide with a cell do not depend on
 the first point of the grid

For a target cell at a point of the source grid the other three indexes
were 0 with weight 0: a missing first value of the field made the cell
missing.
---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index d6df33e..fb78127 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -135,9 +135,9 @@ def _compute_coeffs_and_idxs(n_nearest):
     inv3 = (1 / n_nearest[2]['distance']) if not exact_position else 0
     inv4 = (1 / n_nearest[3]['distance']) if not exact_position else 0
     idx1 = n_nearest[0]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
-    idx2 = n_nearest[1]['index'] if not exact_position else 0
-    idx3 = n_nearest[2]['index'] if not exact_position else 0
-    idx4 = n_nearest[3]['index'] if not exact_position else 0
+    idx2 = n_nearest[1]['index'] if not exact_position else idx1
+    idx3 = n_nearest[2]['index'] if not exact_position else idx1
+    idx4 = n_nearest[3]['index'] if not exact_position else idx1
     return inv1, inv2, inv3, inv4, idx1, idx2, idx3, idx4
 
 
-- 
2.43.0


From e6ef8606d367234eb82428c0265244b342708edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 44/50] fix: rotated targets in the scipy modes

Coordinates of a rotated target were rotated on a sphere of radius 1 with
a wrong sign in y, while the points of the source are on a sphere of the
radius of the grid: no cell had a neighbour within the distance allowed.
---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index bd589d0..adfc41f 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -670,12 +670,13 @@ class ScipyInterpolation(object):
         y_formula = 'sin(lons) * cos(lats)'
         z_formula = 'sin(lats)'
 
+        r = self.geodetic_info.get('radius')
         if to_regular:
             teta = - radians((90 + self.geodetic_info.get('latitudeOfSouthernPoleInDegrees')))
             fi = - radians(self.geodetic_info.get('longitudeOfSouthernPoleInDegrees'))
-            x = ne.evaluate('(cos(teta) * cos(fi) * ({x})) + (sin(fi)  * ({y})) + (sin(teta) * cos(fi) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
-            y = ne.evaluate('(cos(teta) * sin(fi) * ({x})) + (cos(fi)  * ({y})) - (sin(teta) * sin(fi) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
-            z = ne.evaluate('(-sin(teta) * ({x})) + (cos(teta) * ({z}))'.format(x=x_formula, z=z_formula))
+            x = ne.evaluate('r * ((cos(teta) * cos(fi) * ({x})) + (sin(fi)  * ({y})) + (sin(teta) * cos(fi) * ({z})))'.format(x=x_formula, y=y_formula, z=z_formula))
+            y = ne.evaluate('r * (-(cos(teta) * sin(fi) * ({x})) + (cos(fi)  * ({y})) - (sin(teta) * sin(fi) * ({z})))'.format(x=x_formula, y=y_formula, z=z_formula))
+            z = ne.evaluate('r * ((-sin(teta) * ({x})) + (cos(teta) * ({z})))'.format(x=x_formula, z=z_formula))
         elif rotate:
             teta = radians((90 + self.geodetic_info.get('latitudeOfSouthernPoleInDegrees')))
             fi = radians(self.geodetic_info.get('longitudeOfSouthernPoleInDegrees'))
@@ -683,7 +684,6 @@ class ScipyInterpolation(object):
             y = ne.evaluate('(-sin(fi) * ({x})) + (cos(fi) * ({y}))'.format(x=x_formula, y=y_formula))
             z = ne.evaluate('(-sin(teta) * cos(fi) * ({x})) - (sin(teta) * sin(fi) * ({y})) + (cos(teta) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
         else:
-            r = self.geodetic_info.get('radius')
             x = ne.evaluate('r * {x}'.format(x=x_formula))
             y = ne.evaluate('r * {y}'.format(y=y_formula))
             z = ne.evaluate('r * {z}'.format(z=z_formula))
-- 
2.43.0


From 365abff02fb96868187e1d027c1c77a2a4812307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 45/50] fix: num_of_splits with the nearest mode

Results of subsets have no second dimension with one neighbour, and were
refused by the arrays that collect them (ValueError).
---
 .../main/interpolation/scipy_interpolation_lib.py      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index adfc41f..9c62167 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -589,8 +589,10 @@ class ScipyInterpolation(object):
             subset_size = lonefas.shape[0]//self.num_of_splits
 
             # Initialize empty arrays to store the results
-            weights = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=lonefas.dtype)
-            indexes = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=int)
+            # with one neighbour results of each subset have no second dimension
+            shape = (lonefas.size, self.nnear) if self.nnear > 1 else (lonefas.size,)
+            weights = np.empty(shape,dtype=lonefas.dtype)
+            indexes = np.empty(shape,dtype=int)
             result = np.empty((lonefas.shape[0]*lonefas.shape[1]),dtype=lonefas.dtype)
 
             # Iterate over the subsets of the arrays
@@ -602,8 +604,8 @@ class ScipyInterpolation(object):
                 subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
 
                 # Collect the results back into the weights and indexes arrays
-                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_weights
-                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_indexes
+                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_weights
+                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_indexes
                 result[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_result
         
         else:
-- 
2.43.0


From 868a8e05d1beb86a17395ccb64cdfa9338c9fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 46/50] fix: num_of_splits larger than the number of rows of
 the target

Subsets of 0 rows ended in a ValueError.
---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 9c62167..26def9c 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -586,7 +586,7 @@ class ScipyInterpolation(object):
                 stdout.write('KDtree find radius time (sec): {}\n'.format(checktime - start))
 
             # Define the size of the subsets, only in lonm
-            subset_size = lonefas.shape[0]//self.num_of_splits
+            subset_size = max(1, lonefas.shape[0]//self.num_of_splits)
 
             # Initialize empty arrays to store the results
             # with one neighbour results of each subset have no second dimension
-- 
2.43.0


From 8492a14655f36e287b8406cffe2a2e6737306945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 47/50] fix: keep messages on the first grid that follow
 messages on a second grid

---
 src/pyg2p/main/readers/grib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 71f3b30..1452a0a 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -209,9 +209,9 @@ class GRIBReader(Loggable):
                     bitmap = codes_get_array(g, 'bitmap', int)
                     values = ma.masked_where(bitmap == 0, values, copy=False)
 
-                if not grid2:
+                if points_meridian == grid.num_points_along_meridian:
                     all_values[step_key] = values
-                elif points_meridian != grid.num_points_along_meridian:
+                else:
                     all_values_second_res[step_key] = values
 
             if grid2:
-- 
2.43.0


From 3f1e2ea33f823564ca41d1caa240ca02b97685db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 48/50] fix: aggregate the second resolution when its only
 period ends at the end step

---
 src/pyg2p/main/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 3ed198e..e740bfa 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -126,7 +126,7 @@ class Controller(Loggable):
             # we need GRIB lats and lons only for scipy interpolation
             if self.ctx.must_do_aggregation:
                 start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
-                if end_step > start_step2:
+                if end_step >= start_step2:
                     # second resolution manipulation
                     change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
             else:
-- 
2.43.0


From b6246be600e0f529c706e6e2a4712df9f0d8afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:32 +0000
Subject: [PATCH 49/50] fix: corrections of other cdd or rotated target
 settings are not reused

---
 src/pyg2p/main/manipulation/correction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 19bccc9..cadfaf7 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -28,7 +28,9 @@ class Corrector(Loggable):
         geo_file_ = ctx.geo_file(grid_id)
         dem_map = ctx.get('correction.demMap')
         key = (grid_id, dem_map, geo_file_, ctx.get('correction.formula'), ctx.get('correction.gemFormula'),
-               ctx.get('interpolation.mode'), ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'))
+               ctx.get('interpolation.mode'), ctx.get('interpolation.latMap'), ctx.get('interpolation.lonMap'),
+               ctx.get('interpolation.rotated_target'), ctx.get('interpolation.cdd_map'),
+               ctx.get('interpolation.cdd_mode'), str(ctx.get('interpolation.cdd_options')))
         if key in cls.instances:
             return cls.instances[key]
         else:
-- 
2.43.0


From 9e7053d6e56b8f88f1235e5f91f9fef751b3e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 50/50] fix: bilinear cells with many replaced corners got the
 corners of the previous cell

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 26def9c..525eb4b 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1150,7 +1150,8 @@ class ScipyInterpolation(object):
         not_in_quad = 0     # number of points falling outside quadrilaterals after max_retries
 
         # max number of retry equals to a full lenght of lon coordinates
-        max_retries = self.target_lonsOR.shape[0]        
+        # (not the number of rows, that depends on num_of_splits)
+        max_retries = self.target_lonsOR.shape[1]
         max_used_additional_points = 0
         nn_max_used_additional_points = -1
 
@@ -1303,6 +1304,10 @@ class ScipyInterpolation(object):
                             else:
                                 quadrilateral_is_ok = True
 
+                if additional_checks_completed == False and skip_current_point == False:
+                    # max_retries reached before: use the last corners tried for this point, not those of the previous one
+                    self.p1, self.p2, self.p3, self.p4 = get_clockwise_points(corners_points)
+
                 if skip_current_point == False:
                     if max_used_additional_points<additional_points:
                         max_used_additional_points = additional_points
-- 
2.43.0

