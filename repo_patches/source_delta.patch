From 45a02a5c65b34b4903d1175a5b29097e0a260a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:58 +0000
Subject: [PATCH 01/31] fix: ScalingWrapper scales copies and passes on the
 whole state

Scaling in place changed arrays owned by the wrapped component (and scaled
them again on the next call), and tracers were not passed to it.
---
 sympl/_core/wrappers.py | 64 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 63bb902..2d5f9c5 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -115,6 +115,21 @@ class ScalingWrapper(object):
                     "{} is not a {} quantity in the given component"
                     ", but was given a scale factor.".format(field, properties_name))
 
+    @staticmethod
+    def _scaled(value, scale_factor):
+        scaled_value = value * float(scale_factor)
+        scaled_value.attrs = value.attrs.copy()
+        return scaled_value
+
+    def _scale_quantities(self, quantities, scale_factors):
+        # the component may own the arrays it returned, so they are not
+        # scaled in place
+        scaled_quantities = quantities.copy()
+        for name, scale_factor in scale_factors.items():
+            scaled_quantities[name] = self._scaled(
+                quantities[name], scale_factor)
+        return scaled_quantities
+
     def __getattr__(self, item):
         return getattr(self._component, item)
 
@@ -135,54 +150,39 @@ class ScalingWrapper(object):
         *args
             The return values of the underlying component.
         """
-        scaled_state = {}
-        if 'time' in state:
-            scaled_state['time'] = state['time']
-
-        for input_field in self.input_properties.keys():
-            if input_field in self._input_scale_factors:
-                scale_factor = self._input_scale_factors[input_field]
-                scaled_state[input_field] = state[input_field]*float(scale_factor)
-                scaled_state[input_field].attrs = state[input_field].attrs
-            else:
-                scaled_state[input_field] = state[input_field]
+        scaled_state = state.copy()
+        for name, scale_factor in self._input_scale_factors.items():
+            scaled_state[name] = self._scaled(state[name], scale_factor)
 
         if isinstance(self._component, Stepper):
             if timestep is None:
                 raise TypeError('Must give timestep to call Stepper.')
             diagnostics, new_state = self._component(scaled_state, timestep)
-            for name in self._output_scale_factors.keys():
-                scale_factor = self._output_scale_factors[name]
-                new_state[name] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            new_state = self._scale_quantities(
+                new_state, self._output_scale_factors)
+            diagnostics = self._scale_quantities(
+                diagnostics, self._diagnostic_scale_factors)
             return diagnostics, new_state
         elif isinstance(self._component, TendencyComponent):
             tendencies, diagnostics = self._component(scaled_state)
-            for tend_field in self._tendency_scale_factors.keys():
-                scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            tendencies = self._scale_quantities(
+                tendencies, self._tendency_scale_factors)
+            diagnostics = self._scale_quantities(
+                diagnostics, self._diagnostic_scale_factors)
             return tendencies, diagnostics
         elif isinstance(self._component, ImplicitTendencyComponent):
             if timestep is None:
                 raise TypeError('Must give timestep to call ImplicitTendencyComponent.')
             tendencies, diagnostics = self._component(scaled_state, timestep)
-            for tend_field in self._tendency_scale_factors.keys():
-                scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            tendencies = self._scale_quantities(
+                tendencies, self._tendency_scale_factors)
+            diagnostics = self._scale_quantities(
+                diagnostics, self._diagnostic_scale_factors)
             return tendencies, diagnostics
         elif isinstance(self._component, DiagnosticComponent):
             diagnostics = self._component(scaled_state)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            diagnostics = self._scale_quantities(
+                diagnostics, self._diagnostic_scale_factors)
             return diagnostics
         else:  # Should never reach this
             raise RuntimeError(
-- 
2.43.0


From 10af5602cba7ec82dd978a192806f379d8acf8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:04 +0000
Subject: [PATCH 02/31] fix: combine_dims refuses dims that no quantity can
 satisfy

The dims shared between the two specifications were computed from the second
one only, so incompatible specifications were combined depending on order.
---
 sympl/_core/combine_properties.py | 33 +++++++++----------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/sympl/_core/combine_properties.py b/sympl/_core/combine_properties.py
index 623a3cf..e995b72 100644
--- a/sympl/_core/combine_properties.py
+++ b/sympl/_core/combine_properties.py
@@ -24,33 +24,18 @@ def combine_dims(dims1, dims2):
     """
     if dims1 == dims2:
         return dims1
-    dims_out = []
-    dims1 = set(dims1)
-    dims2 = set(dims2)
+    names1 = set(dims1).difference('*')
+    names2 = set(dims2).difference('*')
     dims1_wildcard = '*' in dims1
-    dims1.discard('*')
     dims2_wildcard = '*' in dims2
-    dims2.discard('*')
-    unmatched_dims = set(dims1).union(dims2).difference(dims_out)
-    shared_dims = set(dims2).intersection(dims2)
+    if ((names1.difference(names2) and not dims2_wildcard) or
+            (names2.difference(names1) and not dims1_wildcard)):
+        raise InvalidPropertyDictError(
+            'dims {} and {} are incompatible'.format(dims1, dims2))
+    dims_out = []
     if dims1_wildcard and dims2_wildcard:
-        dims_out.insert(0, '*')  # either dim can match anything
-        dims_out.extend(unmatched_dims)
-    elif not dims1_wildcard and not dims2_wildcard:
-        if shared_dims != set(dims1) or shared_dims != set(dims2):
-            raise InvalidPropertyDictError(
-                'dims {} and {} are incompatible'.format(dims1, dims2))
-        dims_out.extend(unmatched_dims)
-    elif dims1_wildcard:
-        if shared_dims != set(dims2):
-            raise InvalidPropertyDictError(
-                'dims {} and {} are incompatible'.format(dims1, dims2))
-        dims_out.extend(unmatched_dims)
-    elif dims2_wildcard:
-        if shared_dims != set(dims1):
-            raise InvalidPropertyDictError(
-                'dims {} and {} are incompatible'.format(dims1, dims2))
-        dims_out.extend(unmatched_dims)
+        dims_out.append('*')  # either dim can match anything
+    dims_out.extend(names1.union(names2))
     return dims_out
 
 
-- 
2.43.0


From fef9e7d4b11a3c20475e7e95dd9551e93a19d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:27 +0000
Subject: [PATCH 03/31] fix: register_tracer keeps each name once and registers
 nothing when refused

---
 sympl/_core/tracers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index ef67982..32ee05f 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -38,10 +38,11 @@ def register_tracer(name, units):
                 name, _tracer_unit_dict[name], units
             )
         )
-    _tracer_unit_dict[name] = units
-    _tracer_names.append(name)
     for packer in _packers:
         packer.ensure_tracer_not_in_outputs(name, units)
+    if name not in _tracer_unit_dict:
+        _tracer_unit_dict[name] = units
+        _tracer_names.append(name)
 
 
 def get_tracer_unit_dict():
-- 
2.43.0


From cbda1d074dee344ab769fee49e1e2b37dd3e33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:33 +0000
Subject: [PATCH 04/31] fix: initialize_numpy_arrays_with_properties counts a
 tracer once

---
 sympl/_core/init_np_arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/init_np_arrays.py b/sympl/_core/init_np_arrays.py
index c6298a2..bb78fdb 100644
--- a/sympl/_core/init_np_arrays.py
+++ b/sympl/_core/init_np_arrays.py
@@ -42,7 +42,8 @@ def initialize_numpy_arrays_with_properties(
         output_properties, input_properties, [])
     out_dict = {}
     tracer_names = list(get_tracer_names())
-    tracer_names.extend(entry[0] for entry in prepend_tracers)
+    tracer_names.extend(
+        entry[0] for entry in prepend_tracers if entry[0] not in tracer_names)
     for name, out_dims in dims_from_out_properties.items():
         if tracer_dims is None or name not in tracer_names:
             out_shape = []
-- 
2.43.0


From 5f966f7b47965744ba74aa327aa0986e16d0992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:38 +0000
Subject: [PATCH 05/31] fix: datetime raises ValueError for an unknown calendar
 instead of returning None

---
 sympl/_core/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/time.py b/sympl/_core/time.py
index f0401d8..87a14a8 100644
--- a/sympl/_core/time.py
+++ b/sympl/_core/time.py
@@ -65,6 +65,8 @@ def datetime(
         return ct.DatetimeJulian(**kwargs)
     elif calendar.lower() == 'gregorian':
         return ct.DatetimeGregorian(**kwargs)
+    else:
+        raise ValueError('Unknown calendar {}'.format(calendar))
 
 
 __all__ = (datetime, timedelta)
-- 
2.43.0


From 0d19788277d18edcffc2165f17d6cd79a1d0199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 06/31] fix: define degrees_north and degrees_east in terms of
 degree

They were defined in terms of an undefined unit, so that any conversion of or
comparison with them raised UndefinedUnitError.
---
 sympl/_core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index d2977e8..e02c34f 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -14,8 +14,8 @@ class UnitRegistry(pint.UnitRegistry):
 
 
 unit_registry = UnitRegistry()
-unit_registry.define('degrees_north = degree_north = degree_N = degrees_N = degreeN = degreesN')
-unit_registry.define('degrees_east = degree_east = degree_E = degrees_E = degreeE = degreesE')
+unit_registry.define('degrees_north = degree = _ = degree_north = degree_N = degrees_N = degreeN = degreesN')
+unit_registry.define('degrees_east = degree = _ = degree_east = degree_E = degrees_E = degreeE = degreesE')
 unit_registry.define('percent = 0.01*count = %')
 
 
-- 
2.43.0


From 56c221c2c9eefbaa0807d7cc992a26cfcc71b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 07/31] fix: is_valid_unit returns False for malformed unit
 strings

---
 sympl/_core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index e02c34f..2f024ab 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -68,7 +68,7 @@ def is_valid_unit(unit_string):
         '°', 'degree')
     try:
         unit_registry(unit_string)
-    except pint.UndefinedUnitError:
+    except Exception:  # malformed strings raise various types of exceptions
         return False
     else:
         return True
-- 
2.43.0


From 0d90cc8d001ad79c55444f962f4d93b6acd2b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:48 +0000
Subject: [PATCH 08/31] fix: AdamsBashforth forgets the tendencies of a call
 that failed

---
 sympl/_components/timesteppers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index d0f7328..006a20e 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -129,7 +129,11 @@ class AdamsBashforth(TendencyStepper):
         tendencies, diagnostics = self.prognostic(state, timestep)
         convert_tendencies_units_for_state(tendencies, state)
         self._tendencies_list.append(tendencies)
-        new_state = self._perform_step(state, timestep)
+        try:
+            new_state = self._perform_step(state, timestep)
+        except Exception:
+            self._tendencies_list.pop()  # a failed call is not part of the history
+            raise
         copy_untouched_quantities(state, new_state)
         if len(self._tendencies_list) == self._order:
             self._tendencies_list.pop(0)  # remove the oldest entry
-- 
2.43.0


From 164bc4139eb5ac70ac9563e9fcdc222cbffafc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:31 +0000
Subject: [PATCH 09/31] fix: SSPRungeKutta passes quantities without tendencies
 through unchanged

They were multiplied and added, which changed their dtype, perturbed their
values and failed for values that are not numbers.
---
 sympl/_components/timesteppers.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 006a20e..03692b5 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -57,9 +57,12 @@ class SSPRungeKutta(TendencyStepper):
     def _step_3_stages(self, state, timestep):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         _, state_1_5 = self._euler_stepper(state_1, timestep)
-        state_2 = add(multiply(0.75, state), multiply(0.25, state_1_5))
+        old, new = get_stepped_quantities(state, state_1_5)
+        state_2 = add(multiply(0.75, old), multiply(0.25, new))
+        copy_untouched_quantities(state, state_2)
         _, state_2_5 = self._euler_stepper(state_2, timestep)
-        out_state = add(multiply(1./3, state), multiply(2./3, state_2_5))
+        old, new = get_stepped_quantities(state, state_2_5)
+        out_state = add(multiply(1./3, old), multiply(2./3, new))
         return diagnostics, out_state
 
     def _step_2_stages(self, state, timestep):
@@ -67,10 +70,19 @@ class SSPRungeKutta(TendencyStepper):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         assert state_1 is not None
         _, state_2 = self._euler_stepper(state_1, timestep)
-        out_state = multiply(0.5, add(state, state_2))
+        out_state = multiply(0.5, add(*get_stepped_quantities(state, state_2)))
         return diagnostics, out_state
 
 
+def get_stepped_quantities(state, new_state):
+    """Returns dictionaries containing the quantities of state and of
+    new_state, without those that were passed through from one to the other."""
+    names = [name for name in state.keys() if new_state[name] is not state[name]]
+    return (
+        {name: state[name] for name in names},
+        {name: new_state[name] for name in names})
+
+
 class AdamsBashforth(TendencyStepper):
     """A TendencyStepper using the Adams-Bashforth scheme."""
 
-- 
2.43.0


From 4e2195e431e465222194aa896b4f1dfd405da975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:37 +0000
Subject: [PATCH 10/31] fix: SSPRungeKutta accepts a different timestep on each
 call

---
 sympl/_components/timesteppers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 03692b5..3ebae0c 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -26,7 +26,7 @@ class SSPRungeKutta(TendencyStepper):
             raise ValueError(
                 'stages must be one of 2 or 3, received {}'.format(stages))
         self._stages = stages
-        self._euler_stepper = AdamsBashforth(*args, order=1)
+        self._euler_stepper = ForwardEuler(*args)
         super(SSPRungeKutta, self).__init__(*args, **kwargs)
 
     def _call(self, state, timestep):
@@ -176,6 +176,17 @@ class AdamsBashforth(TendencyStepper):
                 'timestep must be constant for Adams-Bashforth time stepping')
 
 
+class ForwardEuler(AdamsBashforth):
+    """First-order Adams-Bashforth, which has no history that requires the
+    timestep to be constant."""
+
+    def __init__(self, *args, **kwargs):
+        super(ForwardEuler, self).__init__(*args, order=1, **kwargs)
+
+    def _ensure_constant_timestep(self, timestep):
+        pass
+
+
 def convert_tendencies_units_for_state(tendencies, state):
     """
     Converts the units of any quantities with unit informaton in the
-- 
2.43.0


From b587f8e5387e3f473f4c1d24f434095c081f23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 11/31] fix: NetCDFMonitor and RestartMonitor handle quantities
 without dimensions

---
 sympl/_components/netcdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 0f0fb7e..788a2d3 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -182,7 +182,7 @@ class NetCDFMonitor(Monitor):
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
                 dataset.variables[name][
-                    it_start:it_end, :] = value.values[:, :]
+                    it_start:it_end, ...] = value.values
         self._cached_state_dict = {}
 
     def _ensure_time_exists(self, dataset, possible_reference_time):
@@ -249,7 +249,7 @@ class RestartMonitor(Monitor):
         dataset = xr.open_dataset(self._filename)
         state = {}
         for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0, :])  # remove time axis
+            state[name] = DataArray(value[0, ...])  # remove time axis
         state['time'] = datetime64_to_datetime(dataset['time'][0].values)
         return state
 
@@ -286,7 +286,7 @@ def combine_states(states):
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
-            return_dict[name][i, :] = state[name][:]
+            return_dict[name].values[i, ...] = state[name].values
     return return_dict
 
 
-- 
2.43.0


From 4000ad13d05aae69c20569c86ce5faf21d92d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 12/31] fix: NetCDFMonitor rounds times to the nearest integer

Conversion of a timedelta to e.g. weeks gives values such as 0.9999999999,
which were truncated to an earlier time.
---
 sympl/_components/netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 788a2d3..9a15b03 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -265,7 +265,8 @@ def append_times_to_dataset(times, dataset, time_units):
             times_list.append(time.total_seconds())
         time_array = from_unit_to_another(
             np.array(times_list), 'seconds', time_units)
-        dataset.variables['time'][it_start:it_end] = time_array[:]
+        # times are integers, assignment would truncate e.g. 0.99999 to 0
+        dataset.variables['time'][it_start:it_end] = np.rint(time_array)
     else:  # assume datetime
         dataset.variables['time'][it_start:it_end] = nc4.date2num(
             times, dataset.variables['time'].units,
-- 
2.43.0


From cfea5c01f645b8104d7449f7df7c09e23644871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:54 +0000
Subject: [PATCH 13/31] fix: NetCDFMonitor refuses aliases that overwrite
 another quantity

Also do not apply aliases to the name 'time', which made store() fail.
---
 sympl/_components/netcdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 9a15b03..1cccafd 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -86,6 +86,7 @@ class NetCDFMonitor(Monitor):
             cache_state = {name: state[name] for name in name_list}
         else:
             cache_state = state.copy()
+        cache_state.pop('time')  # stored as key, not needed in state dict
 
         # raise an exception if the state has any empty string variables
         for full_var_name in cache_state.keys():
@@ -105,9 +106,13 @@ class NetCDFMonitor(Monitor):
                         errstr = 'Tried to alias variable "{}" to an empty string.\n' + \
                                  'xarray will not allow empty strings as variable names.'
                         raise ValueError(errstr.format(full_var_name))
-                    cache_state[alias_name] = cache_state.pop(full_var_name)
+                    value = cache_state.pop(full_var_name)
+                    if alias_name == 'time' or alias_name in cache_state:
+                        raise ValueError(
+                            'Tried to alias variable "{}" to "{}", which is '
+                            'already used.'.format(full_var_name, alias_name))
+                    cache_state[alias_name] = value
 
-        cache_state.pop('time')  # stored as key, not needed in state dict
         if state['time'] in self._cached_state_dict.keys():
             self._cached_state_dict[state['time']].update(cache_state)
         else:
-- 
2.43.0


From 57e4131ad0047205b758c146bcee265a6d2f31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:02 +0000
Subject: [PATCH 14/31] fix: NetCDFMonitor caches copies of the stored
 quantities

What was written was the value at the time of write(), not of store().
---
 sympl/_components/netcdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 1cccafd..07d6f4f 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -113,6 +113,9 @@ class NetCDFMonitor(Monitor):
                             'already used.'.format(full_var_name, alias_name))
                     cache_state[alias_name] = value
 
+        # the arrays in the state may be modified before they are written
+        cache_state = {
+            name: value.copy() for name, value in cache_state.items()}
         if state['time'] in self._cached_state_dict.keys():
             self._cached_state_dict[state['time']].update(cache_state)
         else:
-- 
2.43.0


From 7adc6a701a6cbb2fc48399f16e635d6a03078f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:25 +0000
Subject: [PATCH 15/31] fix: combine_states refuses different units or dims,
 and keeps all values

Values of later states were relabelled with the units of the first one,
transposed or broadcast to its dims, and cast to its dtype.
---
 sympl/_components/netcdf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 07d6f4f..c16ae59 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -290,8 +290,16 @@ def combine_states(states):
     return_dict = {}
     n_states = len(states)
     for name, value in states[0].items():
+        for state in states:
+            if (state[name].dims != value.dims or
+                    state[name].shape != value.shape or
+                    state[name].attrs.get('units') != value.attrs.get('units')):
+                raise InvalidStateError(
+                    'Quantity {} has different dims, shape or units for '
+                    'different times'.format(name))
+        dtype = np.result_type(*[state[name].values.dtype for state in states])
         return_dict[name] = DataArray(
-            np.zeros((n_states,) + value.shape, dtype=value.values.dtype),
+            np.zeros((n_states,) + value.shape, dtype=dtype),
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
-- 
2.43.0


From fd8e021a227beed95562659366c570b2ffe17599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:32 +0000
Subject: [PATCH 16/31] fix: NetCDFMonitor.write appends only what the file can
 hold

Check every quantity, including its shape, dtype and missing units, before
anything is appended, and do nothing when there is nothing to write.
---
 sympl/_components/netcdf.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index c16ae59..6348cd3 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -179,16 +179,19 @@ class NetCDFMonitor(Monitor):
             If cached states do not all have the same quantities
             as every other cached and written state.
         """
+        if len(self._cached_state_dict) == 0:
+            return  # nothing to write
         with nc4.Dataset(self._filename, self._write_mode) as dataset:
             self._ensure_cached_state_keys_compatible_with_dataset(dataset)
             time_list, state_list = self._get_ordered_times_and_states()
             self._ensure_time_exists(dataset, time_list[0])
             it_start = dataset.dimensions['time'].size
             it_end = it_start + len(time_list)
-            append_times_to_dataset(time_list, dataset, self._time_units)
             all_states = combine_states(state_list)
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
+            append_times_to_dataset(time_list, dataset, self._time_units)
+            for name, value in all_states.items():
                 dataset.variables[name][
                     it_start:it_end, ...] = value.values
         self._cached_state_dict = {}
@@ -346,6 +349,18 @@ def ensure_variable_is_compatible(variable, name, data):
         raise IOError(
             'Dimension in file is {} but on variable is {}'.format(
                 variable.dimensions, data.dims))
+    if not np.can_cast(data.values.dtype, variable.dtype, casting='safe'):
+        raise InvalidStateError(
+            'Quantity {} has dtype {} in file, which cannot hold values of '
+            'dtype {}'.format(name, variable.dtype, data.values.dtype))
+    if 'units' in variable.ncattrs() and 'units' not in data.attrs:
+        raise InvalidStateError(
+            'Quantity {} has units in the netCDF file, but not in the '
+            'state'.format(name))
+    if variable.shape[1:] != data.shape[1:]:
+        raise InvalidStateError(
+            'Quantity {} has shape {} but the shape in the netCDF file is '
+            '{}'.format(name, data.shape[1:], variable.shape[1:]))
     for key, value in data.attrs.items():
         if key not in variable.ncattrs():
             raise InvalidStateError(
-- 
2.43.0


From 5b58f0b8512be800a1113793411e37d0625c1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 17/31] fix: RestartMonitor.load returns quantities and time as
 they were stored

Quantities in units such as hours were decoded as time, quantities named like
a dimension were left out, and times that are timedeltas or outside the range
of datetime64 raised an error.
---
 sympl/_components/netcdf.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 6348cd3..88cb56b 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -3,7 +3,7 @@ from .._core.exceptions import (
     DependencyError, InvalidStateError)
 from .._core.units import from_unit_to_another
 from .._core.dataarray import DataArray
-from .._core.util import same_list, datetime64_to_datetime
+from .._core.util import same_list
 import xarray as xr
 import os
 import numpy as np
@@ -257,14 +257,31 @@ class RestartMonitor(Monitor):
         state : dict
             The model state stored in the restart file.
         """
-        dataset = xr.open_dataset(self._filename)
         state = {}
-        for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0, ...])  # remove time axis
-        state['time'] = datetime64_to_datetime(dataset['time'][0].values)
+        # quantities are not decoded, e.g. units of hours do not indicate time
+        with xr.open_dataset(self._filename, decode_cf=False) as dataset:
+            for name, value in dataset.variables.items():
+                if name != 'time':
+                    state[name] = DataArray(  # remove time axis
+                        value.values[0, ...], dims=value.dims[1:],
+                        attrs=value.attrs)
+            state['time'] = get_time(
+                dataset['time'].values[0], dataset['time'].attrs['units'])
         return state
 
 
+def get_time(value, units):
+    """Returns the time stored in a NetCDF file as value with given units."""
+    if ' since ' in units:
+        return nc4.num2date(
+            value, units, calendar='proleptic_gregorian',
+            only_use_cftime_datetimes=False,
+            only_use_python_datetimes=True)
+    else:
+        return timedelta(
+            seconds=from_unit_to_another(float(value), units, 'seconds'))
+
+
 def append_times_to_dataset(times, dataset, time_units):
     """Appends the given list of times to the dataset. Assumes the time units
     in the NetCDF4 dataset correspond to the string time_units."""
-- 
2.43.0


From d3fe74d85b7479be83cab059389b7b859600edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:57 +0000
Subject: [PATCH 18/31] fix: RestartMonitor stores time with microsecond
 resolution

---
 sympl/_components/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 88cb56b..eb41575 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -238,7 +238,7 @@ class RestartMonitor(Monitor):
         new_filename = self._filename + '.new'
         if os.path.isfile(new_filename):
             raise IOError('Filename {} already exists'.format(new_filename))
-        netcdf_monitor = NetCDFMonitor(new_filename)
+        netcdf_monitor = NetCDFMonitor(new_filename, time_units='microseconds')
         netcdf_monitor.store(state)
         netcdf_monitor.write()
 
-- 
2.43.0


From 203b35843b848bae2bb04ab74cab8b4e98d3e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:36 +0000
Subject: [PATCH 19/31] fix: outputs with wildcard dims are refused when their
 shape does not fit

An array with its axes in another order than declared was silently reshaped.
---
 sympl/_core/restore_dataarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 33da61d..7a7d0b8 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -113,6 +113,7 @@ def restore_data_arrays_with_properties(
         if name in ignore_names:
             continue
         raw_name = get_alias_or_name(name, output_properties, input_properties)
+        check_array_shape(out_dims, raw_arrays[raw_name], name, dim_lengths)
         if "*" in out_dims:
             for dim_name, length in zip(out_dims, raw_arrays[raw_name].shape):
                 if dim_name not in dim_lengths and dim_name != "*":
@@ -124,7 +125,6 @@ def restore_data_arrays_with_properties(
                 raw_arrays[raw_name], target_shape, name, out_dims
             )
         else:
-            check_array_shape(out_dims, raw_arrays[raw_name], name, dim_lengths)
             out_dims_without_wildcard = out_dims
             out_array = raw_arrays[raw_name]
         out_dict[name] = get_backend().create_quantity(
-- 
2.43.0


From 2a9fae555313157791fd6f6a46223323b290df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 20/31] fix: outputs may be returned under any name that is
 accepted for them

Output checks accept a quantity under its name or the alias of the input of
the same name, but restoring it then failed with KeyError.
---
 sympl/_core/restore_dataarray.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 7a7d0b8..96674d3 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -15,14 +15,17 @@ def ensure_values_are_arrays(array_dict):
             array_dict[name] = np.asarray(value)
 
 
-def get_alias_or_name(name, output_properties, input_properties):
+def get_alias_or_name(name, output_properties, input_properties, raw_arrays):
+    candidates = []
     if "alias" in output_properties[name].keys():
-        raw_name = output_properties[name]["alias"]
-    elif name in input_properties.keys() and "alias" in input_properties[name].keys():
-        raw_name = input_properties[name]["alias"]
-    else:
-        raw_name = name
-    return raw_name
+        candidates.append(output_properties[name]["alias"])
+    if name in input_properties.keys() and "alias" in input_properties[name].keys():
+        candidates.append(input_properties[name]["alias"])
+    candidates.append(name)
+    for raw_name in candidates:
+        if raw_name in raw_arrays:
+            return raw_name
+    return candidates[0]
 
 
 def check_array_shape(out_dims, raw_array, name, dim_lengths):
@@ -96,10 +99,11 @@ def restore_data_arrays_with_properties(
     if ignore_names is None:
         ignore_names = []
     if ignore_missing:
-        ignore_names = (
-            set(output_properties.keys())
-            .difference(raw_arrays.keys())
-            .union(ignore_names)
+        ignore_names = set(ignore_names).union(
+            name for name in output_properties.keys()
+            if get_alias_or_name(
+                name, output_properties, input_properties, raw_arrays
+            ) not in raw_arrays
         )
     wildcard_names, dim_lengths = get_wildcard_matches_and_dim_lengths(
         input_state, input_properties
@@ -112,7 +116,9 @@ def restore_data_arrays_with_properties(
     for name, out_dims in dims_from_out_properties.items():
         if name in ignore_names:
             continue
-        raw_name = get_alias_or_name(name, output_properties, input_properties)
+        raw_name = get_alias_or_name(
+            name, output_properties, input_properties, raw_arrays
+        )
         check_array_shape(out_dims, raw_arrays[raw_name], name, dim_lengths)
         if "*" in out_dims:
             for dim_name, length in zip(out_dims, raw_arrays[raw_name].shape):
-- 
2.43.0


From 5f9f2a8d718445d754105b719f39c317585f91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:10 +0000
Subject: [PATCH 21/31] fix: tendencies_in_diagnostics does not modify
 dictionaries of the class

Diagnostics (and inputs, for Stepper) added for one instance became part of
the properties of every instance of its class.
---
 sympl/_core/base_components.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 2583fbd..0738552 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -21,6 +21,18 @@ def option_or_default(option, default):
         return option
 
 
+def ensure_instance_has_own_properties(component, attribute_name):
+    """If a properties dictionary is an attribute of the class of the component,
+    give the component a copy of its own, which can be modified."""
+    if attribute_name not in component.__dict__:
+        try:
+            setattr(
+                component, attribute_name,
+                getattr(component, attribute_name).copy())
+        except AttributeError:
+            pass  # is a property, evaluated whenever it is accessed
+
+
 def apply_scale_factors(array_state, scale_factors):
     for key, factor in scale_factors.items():
         array_state[key] *= factor
@@ -517,6 +529,8 @@ class Stepper(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        ensure_instance_has_own_properties(self, 'input_properties')
+        ensure_instance_has_own_properties(self, 'diagnostic_properties')
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
             if properties['units'] == '':
@@ -775,6 +789,7 @@ class TendencyComponent(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        ensure_instance_has_own_properties(self, 'diagnostic_properties')
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
             if 'dims' in properties.keys():
@@ -998,6 +1013,7 @@ class ImplicitTendencyComponent(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        ensure_instance_has_own_properties(self, 'diagnostic_properties')
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
             if 'dims' in properties.keys():
-- 
2.43.0


From 9937a98ee7b4c31b5d0cac665178280830bda889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:43 +0000
Subject: [PATCH 22/31] fix: Stepper puts tendencies of aliased quantities in
 diagnostics

---
 sympl/_core/base_components.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 0738552..a6cc6d1 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -1,6 +1,8 @@
 import abc
 from .get_np_arrays import get_numpy_arrays_with_properties
-from .restore_dataarray import restore_data_arrays_with_properties
+from .restore_dataarray import (
+    get_alias_or_name, restore_data_arrays_with_properties
+)
 from .time import timedelta
 from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
@@ -651,8 +653,12 @@ class Stepper(object):
             self, raw_state, raw_new_state, timestep, raw_diagnostics):
         for name in self.output_properties.keys():
             tendency_name = self._get_tendency_name(name)
+            new_raw_name = get_alias_or_name(
+                name, self.output_properties, self.input_properties,
+                raw_new_state)
+            old_raw_name = self.input_properties[name].get('alias', name)
             raw_diagnostics[tendency_name] = (
-                (raw_new_state[name] - raw_state[name]) /
+                (raw_new_state[new_raw_name] - raw_state[old_raw_name]) /
                 timestep.total_seconds() * self.time_unit_timedelta.total_seconds())
 
     @abc.abstractmethod
-- 
2.43.0


From aad6d66f8cb282d70ae9afdb01079864c56bb751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:48 +0000
Subject: [PATCH 23/31] fix: tendencies_in_diagnostics accepts another spelling
 of the same units or dims

It could not be used with e.g. AdamsBashforth for inputs in units of K, as its
outputs are in kelvin.
---
 sympl/_core/base_components.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index a6cc6d1..c7b04bb 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -8,7 +8,7 @@ from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
     ComponentMissingOutputError, InvalidStateError)
 from six import add_metaclass
-from .units import units_are_compatible
+from .units import units_are_compatible, units_are_same
 from .tracers import TracerPacker
 try:
     from inspect import getfullargspec as getargspec
@@ -552,7 +552,7 @@ class Stepper(object):
                     'dims': dims,
                     'units': properties['units'],
                 }
-            elif self.input_properties[name]['dims'] != dims:
+            elif tuple(self.input_properties[name]['dims']) != tuple(dims):
                 raise InvalidPropertyDictError(
                     'Can only calculate tendencies when input and output values'
                     ' have the same dimensions, but dims for {} are '
@@ -561,7 +561,8 @@ class Stepper(object):
                         self.output_properties[name]['dims']
                     )
                 )
-            elif self.input_properties[name]['units'] != self.output_properties[name]['units']:
+            elif not units_are_same(
+                    self.input_properties[name]['units'], properties['units']):
                 raise InvalidPropertyDictError(
                     'Can only calculate tendencies when input and output values'
                     ' have the same units, but units for {} are '
-- 
2.43.0


From 8480b2bc0fdb583839a78b646cf90abea06105d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 24/31] fix: TendencyStepper can put tendencies in diagnostics
 whatever its input units

Inputs in units other than the base units of the output were refused.
---
 sympl/_core/tendencystepper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index 65950c7..af36bec 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -166,6 +166,12 @@ class TendencyStepper(Stepper):
     def tendencies_in_diagnostics(self):  # value cannot be modified
         return self._tendencies_in_diagnostics
 
+    def _insert_tendency_properties(self):
+        # diagnostic_properties already includes the tendencies, which are
+        # converted to the units of the input when computed
+        return [
+            self._get_tendency_name(name) for name in self._tendency_properties]
+
     def _get_tendency_name(self, quantity_name):
         return '{}_tendency_from_{}'.format(quantity_name, self.name)
 
-- 
2.43.0


From be1ab7ecde9d18a4695bbc899a7c142da5cfe7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:50 +0000
Subject: [PATCH 25/31] fix: Stepper with diagnostic_properties that cannot be
 modified returns tendencies

They were left out of the diagnostics without notice.
---
 sympl/_core/base_components.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index c7b04bb..4d3135f 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -515,6 +515,7 @@ class Stepper(object):
         self._input_checker = InputChecker(self)
         self._diagnostic_checker = DiagnosticChecker(self)
         self._output_checker = OutputChecker(self)
+        self._tendency_diagnostic_properties = {}
         if tendencies_in_diagnostics:
             self._diagnostic_checker.set_ignored_diagnostics(
                 self._insert_tendency_properties())
@@ -543,7 +544,7 @@ class Stepper(object):
                 dims = properties['dims']
             else:
                 dims = self.input_properties[name]['dims']
-            self.diagnostic_properties[tendency_name] = {
+            self._tendency_diagnostic_properties[tendency_name] = {
                 'units': units,
                 'dims': dims,
             }
@@ -572,6 +573,7 @@ class Stepper(object):
                     )
                 )
             added_names.append(tendency_name)
+        self.diagnostic_properties.update(self._tendency_diagnostic_properties)
         return added_names
 
     def _get_tendency_name(self, name):
@@ -642,8 +644,10 @@ class Stepper(object):
         if self.tendencies_in_diagnostics:
             self._insert_tendencies_to_diagnostics(
                 raw_state, raw_new_state, timestep, raw_diagnostics)
+        diagnostic_properties = self.diagnostic_properties.copy()
+        diagnostic_properties.update(self._tendency_diagnostic_properties)
         diagnostics = restore_data_arrays_with_properties(
-            raw_diagnostics, self.diagnostic_properties,
+            raw_diagnostics, diagnostic_properties,
             state, self.input_properties)
         new_state.update(restore_data_arrays_with_properties(
             raw_new_state, self.output_properties,
-- 
2.43.0


From 29ca282d3968eb977552886386716ebadb19e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 26/31] fix: component calls do not modify the dictionaries
 array_call returns

---
 sympl/_core/base_components.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 4d3135f..9cc41f6 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -634,6 +634,9 @@ class Stepper(object):
             raw_state['tracers'] = self._tracer_packer.pack(state)
         raw_state['time'] = state['time']
         raw_diagnostics, raw_new_state = self.array_call(raw_state, timestep)
+        # the component may own these dictionaries, so they are not modified
+        raw_diagnostics = raw_diagnostics.copy()
+        raw_new_state = raw_new_state.copy()
         if self.uses_tracers:
             new_state = self._tracer_packer.unpack(
                 raw_new_state.pop('tracers'), state)
@@ -867,6 +870,8 @@ class TendencyComponent(object):
             raw_state['tracers'] = self._tracer_packer.pack(state)
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state)
+        # the component may own this dictionary, so it is not modified
+        raw_tendencies = raw_tendencies.copy()
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
@@ -1093,6 +1098,8 @@ class ImplicitTendencyComponent(object):
             raw_state['tracers'] = self._tracer_packer.pack(state)
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state, timestep)
+        # the component may own this dictionary, so it is not modified
+        raw_tendencies = raw_tendencies.copy()
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
-- 
2.43.0


From 712ade762637ce31ec385b5e798aa02d6385eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 27/31] fix: UpdateFrequencyWrapper does not hide a TypeError
 raised by its component

Any TypeError from the component was taken to mean that it does not accept a
timestep, and it was called again without one.
---
 sympl/_core/wrappers.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 2d5f9c5..131ab7c 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -1,3 +1,4 @@
+from inspect import signature
 from .._core.base_components import (
     TendencyComponent, DiagnosticComponent, ImplicitTendencyComponent, Stepper
 )
@@ -242,15 +243,20 @@ class UpdateFrequencyWrapper(object):
         if ((self._last_update_time is None) or
                 (state['time'] >= self._last_update_time +
                  self._update_timedelta)):
-            if timestep is not None:
-                try:
-                    self._cached_output = self.component(state, timestep, **kwargs)
-                except TypeError:
-                    self._cached_output = self.component(state, **kwargs)
+            if timestep is not None and self._accepts_timestep(state, timestep, kwargs):
+                self._cached_output = self.component(state, timestep, **kwargs)
             else:
                 self._cached_output = self.component(state, **kwargs)
             self._last_update_time = state['time']
         return self._cached_output
 
+    def _accepts_timestep(self, state, timestep, kwargs):
+        try:
+            signature(self.component).bind(state, timestep, **kwargs)
+        except TypeError:
+            return False
+        else:
+            return True
+
     def __getattr__(self, item):
         return getattr(self.component, item)
-- 
2.43.0


From 84dbe30ce83887b4179a6f67cf4b630a2c47e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:33 +0000
Subject: [PATCH 28/31] fix: restore_dimensions does not invent coordinates

---
 sympl/_core/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index 2e3df85..eff6e65 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -161,13 +161,14 @@ def restore_dimensions(array, from_dims, result_like, result_attrs=None):
         result_like, from_dims, current_dim_names)
     original_shape = []
     original_dims = []
-    original_coords = []
+    original_coords = {}
     for direction in from_dims:
         if direction in direction_to_names.keys():
             for name in direction_to_names[direction]:
                 original_shape.append(len(result_like.coords[name]))
                 original_dims.append(name)
-                original_coords.append(result_like.coords[name])
+                if name in result_like.coords:
+                    original_coords[name] = result_like.coords[name]
     if np.prod(array.shape) != np.prod(original_shape):
         raise ShapeMismatchError
     data_array = get_backend().get_container_type()(
-- 
2.43.0


From 0c9f99d97bdb1eab5c50c40c09c9a55bc8dd5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:38 +0000
Subject: [PATCH 29/31] fix: tendencies of different dtypes can be added

A component giving an integer tendency made the composite fail.
---
 sympl/_core/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index eff6e65..74470f9 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -214,7 +214,9 @@ def update_dict_by_adding_another(dict1, dict2):
                         'quantity objects must have units property defined')
                 try:
                     dict1[key] += dict2[key].to_units(dict1[key].attrs['units'])
-                except ValueError:  # dict1[key] is missing a dimension present in dict2[key]
+                except (ValueError, TypeError):
+                    # dict1[key] is missing a dimension present in dict2[key],
+                    # or its dtype cannot hold the sum
                     dict1[key] = dict1[key] + dict2[key].to_units(dict1[key].attrs['units'])
             else:
                 dict1[key] += dict2[key]  # += is in-place addition operator
-- 
2.43.0


From ddba5d362dd973893db6fb582ee84a978e97983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:44 +0000
Subject: [PATCH 30/31] fix: constant components own the data they return

Modifying in place an array given to or returned by one changed what it
returned on later calls.
---
 sympl/_components/basic.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index 0c627f4..8221597 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -7,6 +7,10 @@ from .._core.base_components import (
 from .._core.units import unit_registry as ureg
 
 
+def copy_quantities(quantities):
+    return {name: value.copy() for name, value in quantities.items()}
+
+
 class ConstantTendencyComponent(TendencyComponent):
     """
     Prescribes constant tendencies provided at initialization.
@@ -117,9 +121,9 @@ class ConstantTendencyComponent(TendencyComponent):
             Y in the name "X_tendency_from_Y". By default the class name in
             lowercase is used.
         """
-        self.__tendencies = tendencies.copy()
+        self.__tendencies = copy_quantities(tendencies)
         if diagnostics is not None:
-            self.__diagnostics = diagnostics.copy()
+            self.__diagnostics = copy_quantities(diagnostics)
         else:
             self.__diagnostics = {}
         super(ConstantTendencyComponent, self).__init__(**kwargs)
@@ -127,10 +131,10 @@ class ConstantTendencyComponent(TendencyComponent):
     def array_call(self, state):
         tendencies = {}
         for name, data_array in self.__tendencies.items():
-            tendencies[name] = data_array.values
+            tendencies[name] = data_array.values.copy()
         diagnostics = {}
         for name, data_array in self.__diagnostics.items():
-            diagnostics[name] = data_array.values
+            diagnostics[name] = data_array.values.copy()
         return tendencies, diagnostics
 
 
@@ -204,13 +208,13 @@ class ConstantDiagnosticComponent(DiagnosticComponent):
             a period of update_interval has passed since the last time new
             output was given. Otherwise, it would return that cached output.
         """
-        self.__diagnostics = diagnostics.copy()
+        self.__diagnostics = copy_quantities(diagnostics)
         super(ConstantDiagnosticComponent, self).__init__(**kwargs)
 
     def array_call(self, state):
         return_state = {}
         for name, data_array in self.__diagnostics.items():
-            return_state[name] = data_array.values
+            return_state[name] = data_array.values.copy()
         return return_state
 
 
-- 
2.43.0


From 311d662fe454f55882ac4fe1d2bda2721247cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:59 +0000
Subject: [PATCH 31/31] fix: NetCDFMonitor appended times ignoring the time
 units of the existing file

---
 sympl/_components/netcdf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index eb41575..61cd37e 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -283,11 +283,17 @@ def get_time(value, units):
 
 
 def append_times_to_dataset(times, dataset, time_units):
-    """Appends the given list of times to the dataset. Assumes the time units
-    in the NetCDF4 dataset correspond to the string time_units."""
+    """Appends the given list of times to the dataset. Times are converted to
+    the time units of the dataset if it has any, otherwise to time_units."""
     it_start = dataset.dimensions['time'].size
     it_end = it_start + len(times)
+    # an existing file can have times in other units, or relative to a date
+    time_units = getattr(dataset.variables['time'], 'units', time_units)
     if isinstance(times[0], timedelta):
+        if ' since ' in time_units:
+            raise InvalidStateError(
+                'Time is a timedelta but times in the netCDF file have '
+                'units {}'.format(time_units))
         times_list = []
         for time in times:
             times_list.append(time.total_seconds())
-- 
2.43.0

