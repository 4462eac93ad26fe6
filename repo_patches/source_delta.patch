From bd079290fec8d9dfde6d0c360eeb7956dcde3dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 01/31] fix: keep each MetSim instance's configuration and
 attributes to itself

The constructor updated the class-level params and the module-level attrs in
place, so options and unit labels of one run leaked into the next.
---
 metsim/io.py     |  4 ++--
 metsim/metsim.py | 35 ++++++++++++++++++++---------------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 164335d..380ab1e 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -147,7 +147,7 @@ def read_ini_config(config_file, opts):
         conf['out_vars'] = _to_list(conf['out_vars'])
         temp = {}
         for ov in conf['out_vars']:
-            temp[ov] = metsim.available_outputs[ov]
+            temp[ov] = dict(metsim.available_outputs[ov])
         conf['out_vars'] = temp
     else:
         conf['out_vars'] = {}
@@ -155,7 +155,7 @@ def read_ini_config(config_file, opts):
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
-            temp[varname] = metsim.available_outputs[varname]
+            temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
         conf['out_vars'].update(temp)
 
diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3c70448..0c16536 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -28,6 +28,7 @@ output specified.
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import itertools
 import json
 import logging
@@ -180,7 +181,11 @@ class MetSim(object):
         self._client = None
         self._domain_slice = domain_slice
         self.progress_bar = ProgressBar()
-        self.params.update(params)
+        # Work on copies of the class level defaults and of the default
+        # attributes, so that instances do not share their configuration
+        self.params = {**copy.deepcopy(type(self).params), **params}
+        self.params['out_vars'] = copy.deepcopy(self.params['out_vars'])
+        self.attrs = copy.deepcopy(attrs)
         logging.captureWarnings(True)
         self.logger = logging.getLogger(__name__)
         self.logger.setLevel(self.params['verbose'])
@@ -230,7 +235,7 @@ class MetSim(object):
         for k, v in out_vars.items():
             if 'units' in v.keys():
                 if v['units'] in converters[k].keys():
-                    attrs[k]['units'] = v['units']
+                    self.attrs[k]['units'] = v['units']
                 else:
                     self.logger.warn(
                         f'Could not find unit conversion for {k} to {v["units"]}!'
@@ -267,13 +272,13 @@ class MetSim(object):
         self.params['state_stop'] = (self.params['start'] -
                                      pd.Timedelta("1 days"))
         if self.params['utc_offset']:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'UTC time',
-                             'standard_name': 'utc_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'UTC time',
+                                  'standard_name': 'utc_time'}
         else:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'local time at grid location',
-                             'standard_name': 'local_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'local time at grid location',
+                                  'standard_name': 'local_time'}
 
     def convert_monthly_param(self, name):
         self.met_data[name] = self.met_data['prec'].copy()
@@ -387,7 +392,7 @@ class MetSim(object):
             time_var.calendar = self.params['calendar']
             time_var[:] = date2num(
                 times.to_pydatetime(),
-                units=attrs['time'].get('units', DEFAULT_TIME_UNITS),
+                units=self.attrs['time'].get('units', DEFAULT_TIME_UNITS),
                 calendar=time_var.calendar)
 
             dtype_map = {'float64': 'f8', 'float32': 'f4',
@@ -421,18 +426,18 @@ class MetSim(object):
 
                 if isinstance(v, str):
                     v = v.replace("'", "").replace('"', "")
-                attrs['_global'][k] = v
+                self.attrs['_global'][k] = v
 
             # set global attrs
-            for key, val in attrs['_global'].items():
+            for key, val in self.attrs['_global'].items():
                 setattr(ncout, key, val)
 
             # set variable attrs
-            for key, value in attrs.get('time', {}).items():
+            for key, value in self.attrs.get('time', {}).items():
                 setattr(ncout.variables['time'], key, value)
             for varname, varconf  in self.params['out_vars'].items():
                 outname = varconf['out_name']
-                for key, val in attrs.get(varname, {}).items():
+                for key, val in self.attrs.get(varname, {}).items():
                     setattr(ncout.variables[outname], key, val)
 
     def write_chunk(self, locks=None):
@@ -583,8 +588,8 @@ class MetSim(object):
             self.output[varname] = xr.DataArray(
                 data=np.full(shape, np.nan, dtype=dtype),
                 coords=coords, dims=dims,
-                name=varname, attrs=attrs.get(varname, {}))
-        self.output['time'].attrs.update(attrs['time'])
+                name=varname, attrs=self.attrs.get(varname, {}))
+        self.output['time'].attrs.update(self.attrs['time'])
 
     def _aggregate_state(self):
         """Aggregate data out of the state file and load it into `met_data`"""
-- 
2.43.0


From ca061c55fa74e3b753ecb3d7588c217c399e5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 02/31] fix: use each month's own peak time and duration for
 precipitation

The domain's month index counts from 0 but dt.month counts from 1, so every
month used the following month's parameters and December used precipitation
values as its peak time and duration.
---
 metsim/metsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 0c16536..9791f6f 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -285,7 +285,7 @@ class MetSim(object):
         months = self.met_data['time'].dt.month
         for m in range(12):
             param = self.domain[name].sel(month=m)
-            locations = {'time': self.met_data['time'].isel(time=months == m)}
+            locations = {'time': self.met_data['time'].isel(time=months == m + 1)}
             self.met_data[name].loc[locations] = param
 
     @property
-- 
2.43.0


From fdbd9d4adcace18735af00a30530573c67d66ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 03/31] fix: accept start/stop of 'forcing' when reading netCDF
 and xarray data

The documented default 'forcing' was passed on as a time label and failed.
---
 metsim/io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 380ab1e..7c13afa 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -43,6 +43,13 @@ def _to_list(s):
     return json.loads(s.replace("'", '"').split('#')[0])
 
 
+def _time_bound(value):
+    """Bound to select times with, where 'forcing' means no bound"""
+    if isinstance(value, str) and value == 'forcing':
+        return None
+    return value
+
+
 def check_config_type(config_file):
     # Search for first non-comment line
     line = '#'
@@ -296,7 +303,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
                       pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
 
     if start is not None or stop is not None:
-        ds = ds.sel(time=slice(start, stop))
+        ds = ds.sel(time=slice(_time_bound(start), _time_bound(stop)))
         dates = ds.indexes['time']
         ds['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
 
@@ -314,7 +321,8 @@ def read_data(data_handle, domain=None, is_worker=False,
     data_handle = data_handle[varlist]
 
     if start is not None and stop is not None:
-        data_handle = data_handle.sel(time=slice(start, stop))
+        data_handle = data_handle.sel(
+            time=slice(_time_bound(start), _time_bound(stop)))
         dates = data_handle.indexes['time']
         data_handle['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
 
-- 
2.43.0


From 09910aa5df53a2ec76bd4fa58e45a5d6748e3e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 04/31] fix: accept dates that YAML reads as datetime.date for
 start and stop

---
 metsim/metsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 9791f6f..05aed85 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -257,6 +257,9 @@ class MetSim(object):
                     self.params[p] = datetime(year, month, day)
                 else:
                     self.params[p] = pd.to_datetime(self.params[p])
+            elif not isinstance(self.params[p], datetime):
+                # unquoted dates in YAML are read as `datetime.date`
+                self.params[p] = pd.Timestamp(self.params[p]).to_pydatetime()
 
         # update calendar from input data (fall back to params version)
         self.params['calendar'] = self.met_data['time'].encoding.get(
-- 
2.43.0


From 9cca28453e7ca0f0c05ff19cb3bbe15096a347bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 05/31] fix: create out_dir when it does not exist, as
 documented

---
 metsim/metsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 05aed85..521ec1e 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -337,6 +337,7 @@ class MetSim(object):
 
     def run(self):
         self._validate_setup()
+        os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
         for times in self._times:
             filename = self._get_output_filename(times)
-- 
2.43.0


From 3c03f4cd55e86c7734d586debc66112430daf083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 06/31] fix: ignore capitalization of lw_type and lw_cloud, as
 documented

---
 metsim/metsim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 521ec1e..4377550 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -685,7 +685,10 @@ class MetSim(object):
                             'brutsaert', 'satterlund',
                             'idso', 'prata']}
         for k, v in opts.items():
-            if not self.params.get(k, None) in v:
+            value = self.params.get(k, None)
+            if k != 'out_precision':
+                value = str(value).lower()
+            if value not in v:
                 errs.append("Invalid option given for {}".format(k))
 
         # If any errors, raise and give a summary
-- 
2.43.0


From 054441530d88647da3b1f509f7dcccc8d83a016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 07/31] fix: leave daily passthrough shortwave as the daily
 average it already is

---
 metsim/metsim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 4377550..04bc2e1 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -790,7 +790,10 @@ def wrap_run_cell(func: callable, params: dict,
             calendar=params['calendar'])
     else:
         # convert srad to daily average flux from daytime flux
-        df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
+        # (passthrough shortwave already is, unless configured otherwise)
+        if (params['method'] != 'passthrough'
+                or params.get('sw_averaging', '') == 'daylight'):
+            df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
         # If we're outputting daily values, we dont' need to
         # change the output dates - see inside of `if` condition
         # above for more explanation
-- 
2.43.0


From 229433e95aeb87b6909de67d6f76b92b81f83953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 08/31] fix: restrict in-memory forcing data to the cells of
 the chunk being run

---
 metsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index 7c13afa..4fdfb8d 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -320,6 +320,11 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
+    if domain is not None:
+        data_handle = data_handle.sel({k: domain[k]
+                                       for k in list(domain.dims.keys())
+                                       if k in list(data_handle.dims.keys())})
+
     if start is not None and stop is not None:
         data_handle = data_handle.sel(
             time=slice(_time_bound(start), _time_bound(stop)))
-- 
2.43.0


From cfd8390629611661ef67d5e059c2918099d18dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 09/31] fix: allow chunking along only some of the dimensions

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 04bc2e1..3616999 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -458,7 +458,8 @@ class MetSim(object):
                         outname = varconf['out_name']
                         dims = ncout.variables[outname].dimensions[1:]
                         write_slice = ((slice(None), ) + tuple(
-                            self._domain_slice[d] for d in dims))
+                            self._domain_slice.get(d, slice(None))
+                            for d in dims))
                         ncout.variables[outname][write_slice] = (
                             self.output[varname].sel(time=time_slice).values)
 
-- 
2.43.0


From 7e7ed99ad3f5d411397017e74a6a3d35d356ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 10/31] fix: convert air pressure from kPa to hPa by a factor
 of 10

---
 metsim/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/units.py b/metsim/units.py
index c784f5d..3a0fbda 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -36,7 +36,7 @@ converters = {
             },
         'air_pressure': {
             'kPa': lambda x, ts: x,
-            'hPa': lambda x, ts: x * 100.,
+            'hPa': lambda x, ts: x * 10.,
             'Pa': lambda x, ts: x * 1000.,
             },
         'tskc': {
-- 
2.43.0


From fb827891fd4501cffed803b279a07b2c334d58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 11/31] fix: read binary forcings with any number of variables

---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 4fdfb8d..c19ab34 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -351,7 +351,7 @@ def read_binary(data_handle, domain=None,
     with open(data_handle, 'rb') as f:
         i = 0
         points_read = 0
-        points_needed = 4 * n_days
+        points_needed = n_vars * n_days
         while points_read != points_needed:
             bytes = f.read(2)
             if bytes:
-- 
2.43.0


From a2a2b78c6b5f88e26855eeb70b4a3b95f2cf6930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 12/31] fix: do not truncate constant variables to an integer
 template's type

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3616999..5f7f181 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -312,7 +312,8 @@ class MetSim(object):
                 da_template = self._met_data[list(self._met_data)[0]]
                 for var in constant_vars.keys():
                     self._met_data[var] = xr.full_like(da_template,
-                                                       float(constant_vars[var]))
+                                                       float(constant_vars[var]),
+                                                       dtype=float)
 
             self._validate_force_times(force_times=self._met_data['time'])
         return self._met_data
-- 
2.43.0


From c723edd02ffaa58865f81846d61931de7f7f319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 13/31] fix: report unreadable ascii and binary forcing files

Errors raised while reading a cell's file were ignored, which left the cell
without data.
---
 metsim/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index c19ab34..d629cbb 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -246,13 +246,14 @@ def process_vic(params: dict, domain: xr.Dataset) -> xr.Dataset:
             lat, lon = float(lat), float(lon)
             if not domain['mask'].sel(lat=lat, lon=lon).values > 0:
                 continue
-            ds = read_funcs[params['forcing_fmt']](
-                job, start=params['start'], stop=params['stop'],
-                calendar=params['calendar'], var_dict=params['forcing_vars'])
-            for var in params['forcing_vars'].keys():
-                met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
         except (ValueError, KeyError):
+            # not a forcing file for any cell of the domain
             continue
+        ds = read_funcs[params['forcing_fmt']](
+            job, start=params['start'], stop=params['stop'],
+            calendar=params['calendar'], var_dict=params['forcing_vars'])
+        for var in params['forcing_vars'].keys():
+            met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
     return met_data
 
 
-- 
2.43.0


From e5d5d685b8fe054e4c157e086c759f9b71af1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 14/31] fix: read netCDF forcings given as a list of files

A list also results from naming a directory in the configuration file.
---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index d629cbb..9eb62f6 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -273,7 +273,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
                 start=None, stop=None, calendar='standard',
                 var_dict=None) -> xr.Dataset:
     """Read in a NetCDF file"""
-    if '*' in data_handle:
+    if isinstance(data_handle, (list, tuple)) or '*' in data_handle:
         ds = xr.open_mfdataset(data_handle)
     else:
         ds = xr.open_dataset(data_handle)
-- 
2.43.0


From 288ae58c3c4c7b366d772a98f1d47eba101b5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 15/31] fix: keep the binary forcing_vars of a YAML
 configuration as they are written

---
 metsim/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 9eb62f6..4397b98 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -81,7 +81,9 @@ def read_yaml_config(config_file, opts):
     with open(config_file, 'r') as f:
         config = yaml.load(f, Loader=yaml.SafeLoader)
     conf = OrderedDict(config['MetSim'])
-    conf['forcing_vars'] = _invert_dict(OrderedDict(config['forcing_vars']))
+    conf['forcing_vars'] = OrderedDict(config['forcing_vars'])
+    if conf['forcing_fmt'] != 'binary':
+        conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
     conf['out_vars'] = OrderedDict(config['out_vars'])
-- 
2.43.0


From 08362b3b2431eee7a5fafc330861cecfb2113e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 16/31] fix: skip blank lines when detecting the type of a
 configuration file

---
 metsim/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 4397b98..63165bb 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -51,11 +51,13 @@ def _time_bound(value):
 
 
 def check_config_type(config_file):
-    # Search for first non-comment line
-    line = '#'
+    # Search for first line that is neither blank nor a comment
     with open(config_file, 'r') as f:
-        while line.strip().startswith('#'):
-            line = f.readline()
+        for line in f:
+            if line.strip() and not line.strip().startswith('#'):
+                break
+        else:
+            line = ''
     # Strip out any inline comment
     line = line.split('#')[0].strip()
     if line == '[MetSim]':
-- 
2.43.0


From 86d4a55edeb06c213846191b1c455a4add469adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 17/31] fix: fall back to the documented default output
 variables

A configuration file without out_vars was rejected (INI) or failed to be read
(YAML), and so was the list format in YAML.
---
 metsim/io.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 63165bb..e472861 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -88,10 +88,15 @@ def read_yaml_config(config_file, opts):
         conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
-    conf['out_vars'] = OrderedDict(config['out_vars'])
-    for k, v in conf['out_vars'].items():
-        if 'units' not in v:
-            v['units'] = metsim.available_outputs[k]['units']
+    if 'out_vars' in config:
+        conf['out_vars'] = OrderedDict(config['out_vars'])
+        for k, v in conf['out_vars'].items():
+            if 'units' not in v:
+                v['units'] = metsim.available_outputs[k]['units']
+    elif 'out_vars' in conf:
+        # List variant
+        conf['out_vars'] = {ov: dict(metsim.available_outputs[ov])
+                            for ov in conf['out_vars']}
     conf['chunks'] = OrderedDict(config['chunks'])
     if 'constant_vars' in config:
         conf['constant_vars'] = OrderedDict(config['constant_vars'])
@@ -160,15 +165,13 @@ def read_ini_config(config_file, opts):
         for ov in conf['out_vars']:
             temp[ov] = dict(metsim.available_outputs[ov])
         conf['out_vars'] = temp
-    else:
-        conf['out_vars'] = {}
     # Dict variant
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
             temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
-        conf['out_vars'].update(temp)
+        conf.setdefault('out_vars', {}).update(temp)
 
     conf = {k: v for k, v in conf.items() if v != []}
     return conf
-- 
2.43.0


From 3a8088570e125aa51ecb4da88d579aa0f16bc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 18/31] fix: give each output file of an out_freq below one day
 its own name

Files of the same day overwrote one another.
---
 metsim/metsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 5f7f181..463401a 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -699,6 +699,10 @@ class MetSim(object):
 
     def get_nc_output_suffix(self, times):
         s, e = times[[0, -1]]
+        freq = pd.tseries.frequencies.to_offset(self.params['out_freq'] or None)
+        if isinstance(freq, pd.offsets.Tick) and freq < pd.Timedelta('1 days'):
+            # several files per day, so the dates alone are ambiguous
+            return '{:%Y%m%d%H%M}-{:%Y%m%d%H%M}'.format(s, e)
         template = '{:04d}{:02d}{:02d}-{:04d}{:02d}{:02d}'
         return template.format(s.year, s.month, s.day,
                                e.year, e.month, e.day,)
-- 
2.43.0


From ef98f1511e03b46cd9cf69b5a0d22be8e3b5cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 19/31] fix: skip output periods without time steps

For example out_freq D over the leap day that a noleap calendar leaves out.
---
 metsim/metsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 463401a..66f090c 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -564,7 +564,7 @@ class MetSim(object):
         else:
             dummy = pd.Series(np.arange(len(times)), index=times)
             grouper = pd.Grouper(freq=freq)
-            times = [t.index for k, t in dummy.groupby(grouper)]
+            times = [t.index for k, t in dummy.groupby(grouper) if len(t)]
         return times
 
     def _get_output_filename(self, times):
-- 
2.43.0


From 71a0581f2d88363b5bcd849faa821c12c1a02811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 20/31] fix: keep vapor pressure at or below saturation at the
 ends of the record

The steps outside the first and last daily minimum were filled after the
saturation limit had been applied, and one-day runs had no values at all.
---
 metsim/disaggregate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 9e71d51..6025714 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -476,10 +476,10 @@ def vapor_pressure(vp_daily: np.array, temp: np.array, t_t_min: np.array,
     vp:
         A sub-daily timeseries of the vapor pressure
     """
-    # Linearly interpolate the values
-    interp = scipy.interpolate.interp1d(t_t_min, vp_daily / cnst.MBAR_PER_BAR,
-                                        bounds_error=False)
-    vp_disagg = interp(ts * np.arange(0, n_out))
+    # Linearly interpolate the values, holding the first and last ones
+    # constant up to the ends of the record
+    vp_disagg = np.interp(ts * np.arange(0, n_out), t_t_min,
+                          vp_daily / cnst.MBAR_PER_BAR)
 
     # Account for situations where vapor pressure is higher than
     # saturation point
-- 
2.43.0


From 6d247f24400a057a5fd82b1d71b15cee5b5bad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 21/31] fix: handle days on which the sun rises for less than
 one radiation step

Dividing by the day's zero potential radiation failed near the polar circles.
---
 metsim/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/physics.py b/metsim/physics.py
index 815654a..f6cd541 100644
--- a/metsim/physics.py
+++ b/metsim/physics.py
@@ -269,7 +269,7 @@ def solar_geom(elev: float, lat: float, lr: float) -> tuple:
         if daylength[i] and sum_flat_potrad > 0:
             tiny_rad_fract[i] /= sum_flat_potrad
 
-        if daylength[i]:
+        if daylength[i] and sum_flat_potrad > 0:
             # Transmittance and potential radiation
             # averaged over daylength
             tt_max0[i] = sum_trans / sum_flat_potrad
-- 
2.43.0


From 28c38737d8e2c44c8c409ec842e4f7084283896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 22/31] fix: follow the forcing's calendar for the time axis
 and the 90 state days

The calendar was lost when netCDF times were adjusted, and the state window
was counted in the standard calendar, so noleap runs over or shortly after a
leap day failed unless (or even if) the calendar was configured.
---
 metsim/datetime.py | 13 ++++++++++++-
 metsim/io.py       |  7 +++++++
 metsim/metsim.py   | 10 +++++-----
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/metsim/datetime.py b/metsim/datetime.py
index dcd60aa..c57ad56 100644
--- a/metsim/datetime.py
+++ b/metsim/datetime.py
@@ -1,4 +1,5 @@
 import re
+from datetime import datetime
 
 import numpy as np
 import pandas as pd
@@ -6,6 +7,7 @@ import xarray as xr
 from netCDF4 import date2num, num2date
 
 DEFAULT_ORIGIN = '0001-01-01'
+STANDARD_CALENDARS = ['standard', 'gregorian', 'proleptic_gregorian']
 
 
 def date_range(start=None, end=None, periods=None, freq='D', tz=None,
@@ -47,7 +49,7 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
     -------
     rng : DatetimeIndex
     '''
-    if calendar in ['standard', 'gregorian', 'propoleptic_gregorian']:
+    if calendar in STANDARD_CALENDARS:
         return pd.date_range(start=start, end=end, periods=periods,
                              freq=freq, tz=tz, normalize=normalize, name=name,
                              inclusive=inclusive, **kwargs)
@@ -72,6 +74,15 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
                 'Specified arguments are not valid for this calendar')
 
 
+def shift_days(date, days, calendar='standard'):
+    ''' Return the date that lies a number of days of the calendar from `date` '''
+    if calendar in STANDARD_CALENDARS:
+        return date + pd.Timedelta(days, unit='D')
+    units = units_from_freq('D')
+    num = date2num(date, units, calendar=calendar) + days
+    return datetime(*num2date(num, units, calendar).timetuple()[:6])
+
+
 def decode_freq(freq):
     if len(freq) > 1:
         r = re.compile('([0-9]+)([a-zA-Z]+)')
diff --git a/metsim/io.py b/metsim/io.py
index e472861..523312c 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -304,8 +304,11 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
                     'Setting sequential coordinate on dimension {}'.format(d))
             ds[d] = np.arange(0, len(ds[d]))
 
+    time_calendar = None
     if 'time' in ds.coords:
+        time_calendar = ds['time'].encoding.get('calendar', None)
         if isinstance(ds.indexes['time'], xr.CFTimeIndex):
+            time_calendar = ds.indexes['time'].calendar
             ds['time'] = ds.indexes['time'].to_datetimeindex()
         ds['time'] = (ds.indexes['time'] -
                       pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
@@ -315,6 +318,10 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
         dates = ds.indexes['time']
         ds['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
 
+    # Adjusting the times drops the calendar that they were stored with
+    if time_calendar is not None:
+        ds['time'].encoding['calendar'] = time_calendar
+
     return ds
 
 
diff --git a/metsim/metsim.py b/metsim/metsim.py
index 66f090c..e1350a6 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -54,7 +54,7 @@ from xarray.backends.locks import get_write_lock, combine_locks, NETCDFC_LOCK
 
 import metsim.constants as cnst
 from metsim import io
-from metsim.datetime import date_range
+from metsim.datetime import date_range, shift_days
 from metsim.disaggregate import disaggregate
 from metsim.methods import mtclim, passthrough
 from metsim.physics import solar_geom
@@ -270,10 +270,10 @@ class MetSim(object):
         assert self.params['stop'] <= pd.Timestamp(
             force_times.values[-1]).to_pydatetime()
 
-        self.params['state_start'] = (self.params['start'] -
-                                      pd.Timedelta("90 days"))
-        self.params['state_stop'] = (self.params['start'] -
-                                     pd.Timedelta("1 days"))
+        self.params['state_start'] = shift_days(
+            self.params['start'], -90, calendar=self.params['calendar'])
+        self.params['state_stop'] = shift_days(
+            self.params['start'], -1, calendar=self.params['calendar'])
         if self.params['utc_offset']:
             self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
                                   'long_name': 'UTC time',
-- 
2.43.0


From 29d14e8bee490db2b13e5e18a4f74e889ba98033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 23/31] fix: let a period-ending noleap run end on February 28
 of a leap year

---
 metsim/datetime.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metsim/datetime.py b/metsim/datetime.py
index c57ad56..654cb15 100644
--- a/metsim/datetime.py
+++ b/metsim/datetime.py
@@ -57,9 +57,13 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
         # start and end are give
         if (start is not None) and (end is not None) and (periods is None):
             steps, units = decode_freq(freq)
+            dates = pd.to_datetime([start, end])
+            if calendar in ['noleap', '365_day']:
+                # February 29 is March 1 in calendars without leap days
+                leap_day = (dates.month == 2) & (dates.day == 29)
+                dates = dates + pd.to_timedelta(leap_day.astype(int), unit='D')
             start_num, end_num = date2num(
-                pd.to_datetime([start, end]).to_pydatetime(),
-                units, calendar=calendar)
+                dates.to_pydatetime(), units, calendar=calendar)
             periods = int((end_num - start_num) / steps) + 1
 
             times = num2date(
-- 
2.43.0


From c5640047db749fa2673facdca458cb9ac8fbf6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:22 +0000
Subject: [PATCH 24/31] fix: let only one thread at a time use the netCDF
 library

---
 metsim/metsim.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index e1350a6..d40d975 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -46,6 +46,7 @@ import xarray as xr
 
 import dask
 from dask.diagnostics import ProgressBar
+from dask.utils import SerializableLock
 from netCDF4 import Dataset
 from cftime import date2num
 from datetime import datetime
@@ -61,6 +62,9 @@ from metsim.physics import solar_geom
 from metsim.units import converters
 
 NO_SLICE = {}
+# The netCDF library is not thread safe, so that only one thread at a time
+# may have input or output files open
+IO_LOCK = SerializableLock()
 DASK_CORE_SCHEDULERS = ['multiprocessing', 'threading', 'synchronous',
                         'processes', 'threads', 'single-threaded', 'sync']
 
@@ -820,10 +824,12 @@ def wrap_run_cell(func: callable, params: dict,
 @dask.delayed()
 def wrap_run_slice(params, write_locks, domain_slice=NO_SLICE):
     params['is_worker'] = True
-    ms = MetSim(params, domain_slice=domain_slice)
-    ms.load_inputs()
+    with IO_LOCK:
+        ms = MetSim(params, domain_slice=domain_slice)
+        ms.load_inputs()
     ms.run_slice()
-    ms.write_chunk(locks=write_locks)
+    with IO_LOCK:
+        ms.write_chunk(locks=write_locks)
 
 
 def chunk_domain(chunks, dims):
-- 
2.43.0


From dfd6473649379f96f1fae8959626d911e92afcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 25/31] fix: run with the multiprocessing schedulers of dask

---
 metsim/metsim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index d40d975..26c9d1c 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -32,6 +32,7 @@ import copy
 import itertools
 import json
 import logging
+import multiprocessing
 import os
 import sys
 import warnings
@@ -344,10 +345,16 @@ class MetSim(object):
         self._validate_setup()
         os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
+        if self.params['scheduler'] in ['multiprocessing', 'processes']:
+            # multiprocessing's own locks cannot be sent to the workers
+            manager = multiprocessing.Manager()
+        else:
+            manager = None
         for times in self._times:
             filename = self._get_output_filename(times)
             self.setup_netcdf_output(filename, times)
-            write_locks[filename] = combine_locks([NETCDFC_LOCK, get_write_lock(filename)])
+            lock = manager.Lock() if manager else get_write_lock(filename)
+            write_locks[filename] = combine_locks([NETCDFC_LOCK, lock])
         self.logger.info('Starting {} chunks...'.format(len(self.slices)))
 
         delayed_objs = [wrap_run_slice(self.params, write_locks, dslice)
-- 
2.43.0


From 5f99885e2c3b79a862985e6450be0984828e53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 26/31] fix: reject unknown prec_type options

---
 metsim/metsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 26c9d1c..4ff9268 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -693,6 +693,7 @@ class MetSim(object):
 
         # Check that the parameters specified are available
         opts = {'out_precision': ['f4', 'f8'],
+                'prec_type': ['uniform', 'triangle', 'mix'],
                 'lw_cloud': ['default', 'cloud_deardorff'],
                 'lw_type': ['default', 'tva', 'anderson',
                             'brutsaert', 'satterlund',
-- 
2.43.0


From 1f621f300ebdced713d43a116e7df248620bfcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 27/31] fix: do not truncate the eve's temperatures to the type
 of integer forcings

---
 metsim/disaggregate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 6025714..d91c293 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -240,7 +240,7 @@ def temp(t_min: np.array, t_max: np.array, out_len: int,
     """
     # Calculate times of min/max temps by interweaving arrays
     time = np.ravel(np.column_stack((t_t_min, t_t_max)))
-    temp = np.ravel(np.column_stack((t_min, t_max)))
+    temp = np.ravel(np.column_stack((t_min, t_max))).astype(float)
 
     # Account for end points
     ts_ends = cnst.MIN_PER_HOUR * cnst.HOURS_PER_DAY
-- 
2.43.0


From 7b4fe0758bb75e329c608e09b696cdd36b6b0b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:29 +0000
Subject: [PATCH 28/31] fix: keep fractional peak times and durations with
 integer precipitation

---
 metsim/metsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 4ff9268..89bd4f0 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -289,7 +289,7 @@ class MetSim(object):
                                   'standard_name': 'local_time'}
 
     def convert_monthly_param(self, name):
-        self.met_data[name] = self.met_data['prec'].copy()
+        self.met_data[name] = self.met_data['prec'].astype(float)
         months = self.met_data['time'].dt.month
         for m in range(12):
             param = self.domain[name].sel(month=m)
-- 
2.43.0


From 5fab7c30420b665deb42537398b1bc92366f721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 29/31] fix: estimate passthrough's potential
 evapotranspiration from day-average shortwave

---
 metsim/methods/passthrough.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metsim/methods/passthrough.py b/metsim/methods/passthrough.py
index 9e99a57..47182eb 100644
--- a/metsim/methods/passthrough.py
+++ b/metsim/methods/passthrough.py
@@ -36,8 +36,13 @@ def run(df, params):
     if 'tskc' not in df:
         df['tskc'] = tskc(df['tfmax'].values, params)
     if 'pet' not in df:
+        # shortwave is the average of the whole day unless configured otherwise
+        if params.get('sw_averaging', '') == 'daylight':
+            sw_seconds = df['daylength'].values
+        else:
+            sw_seconds = np.full(len(df), float(cnst.SEC_PER_DAY))
         df['pet'] = pet(df['shortwave'].values, df['t_day'].values,
-                        df['daylength'].values, params)
+                        sw_seconds, params)
     if 'tdew' not in df:
         df['tdew'] = tdew(df['pet'].values, df['t_min'].values,
                           df['seasonal_prec'].values, df['dtr'].values)
-- 
2.43.0


From b9e7c5104cf8fe66e6506f5e4552ea572b03d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 30/31] fix: extend the temperature record far enough for a UTC
 run's last day

---
 metsim/disaggregate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index d91c293..be624a0 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -244,8 +244,10 @@ def temp(t_min: np.array, t_max: np.array, out_len: int,
 
     # Account for end points
     ts_ends = cnst.MIN_PER_HOUR * cnst.HOURS_PER_DAY
+    # (two days after it, as both of the next day's extremes can fall
+    # before the end of the record when it is in UTC)
     time = np.append(np.insert(time, 0, time[0:2] - ts_ends),
-                     time[-2:] + ts_ends)
+                     [time[-2:] + ts_ends, time[-2:] + 2 * ts_ends])
 
     # If no start or end data is provided to extend the record repeat values
     # This provides space at the ends so that extrapolation doesn't continue
@@ -254,7 +256,7 @@ def temp(t_min: np.array, t_max: np.array, out_len: int,
         t_begin = temp[0:2]
     if t_end is None:
         t_end = temp[-2:]
-    temp = np.append(np.insert(temp, 0, t_begin), t_end)
+    temp = np.append(np.insert(temp, 0, t_begin), [t_end, t_end])
 
     # Interpolate the values
     interp = scipy.interpolate.PchipInterpolator(time, temp, extrapolate=True)
-- 
2.43.0


From 8db5fc0f3361bb01246089348cdbdb7f91805f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 31/31] fix: close input files when they are no longer used, so
 that garbage collection does not close them while another thread uses the
 netCDF library

---
 metsim/io.py     |  3 +++
 metsim/metsim.py | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 523312c..91ef5e8 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -284,6 +284,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
         ds = xr.open_mfdataset(data_handle)
     else:
         ds = xr.open_dataset(data_handle)
+    close_files = ds.close
 
     # Needs to happen first to make sure variable names are correct
     if var_dict is not None:
@@ -322,6 +323,8 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
     if time_calendar is not None:
         ds['time'].encoding['calendar'] = time_calendar
 
+    # Datasets that are derived from others do not close their files
+    ds.set_close(close_files)
     return ds
 
 
diff --git a/metsim/metsim.py b/metsim/metsim.py
index 89bd4f0..a21e109 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -299,8 +299,9 @@ class MetSim(object):
     @property
     def domain(self):
         if self._domain is None:
-            self._domain = io.read_domain(self.params).isel(
-                **self._domain_slice)
+            domain = io.read_domain(self.params)
+            self._domain = domain.isel(**self._domain_slice)
+            self._domain.set_close(domain.close)
         return self._domain
 
     @property
@@ -363,6 +364,7 @@ class MetSim(object):
         self.progress_bar(persisted)
         dask.compute(persisted)
         self.logger.info('Cleaning up...')
+        self._close_inputs()
         try:
             self._client.cluster.close()
             self._client.close()
@@ -377,9 +379,14 @@ class MetSim(object):
         self._met_data = self.met_data.load()
         self._state = self.state.load()
         if close:
-            self._domain.close()
-            self._met_data.close()
-            self._state.close()
+            self._close_inputs()
+
+    def _close_inputs(self):
+        # Not left to the garbage collector, which could do so in the middle
+        # of another thread's use of the netCDF library
+        for ds in (self._domain, self._met_data, self._state):
+            if ds is not None:
+                ds.close()
 
     def setup_netcdf_output(self, filename, times):
         '''setup a single netcdf file'''
-- 
2.43.0

