From b1f3811ebdcdab62997ae90542bacc37445a37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 01/47] fix: interpret a numeric last_time_step_hours as hours
 and keep one time resolution

A number was added to the last time stamp in whatever unit the time axis has
(1 hour on a second axis became 1 second; fractions raised). Axes in units
coarser than a second could not represent fractions of an hour and could not
be saved.
---
 flixOpt/flow_system.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 42c2fbe..fb45f71 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -5,6 +5,7 @@ This module contains the FlowSystem class, which is used to collect instances of
 import json
 import logging
 import pathlib
+from datetime import timedelta
 from typing import TYPE_CHECKING, Dict, List, Literal, Optional, Tuple, Union
 
 import numpy as np
@@ -29,7 +30,7 @@ class FlowSystem:
     def __init__(
         self,
         time_series: np.ndarray[np.datetime64],
-        last_time_step_hours: Optional[Union[int, float]] = None,
+        last_time_step_hours: Optional[Union[int, float, np.timedelta64, timedelta]] = None,
         previous_dt_in_hours: Optional[Union[int, float, np.ndarray]] = None,
     ):
         """
@@ -38,7 +39,7 @@ class FlowSystem:
         time_series : np.ndarray of datetime64
             timeseries of the data. Must be in datetime64 format. Don't use precisions below 'us'. !np.datetime64[ns]!
         last_time_step_hours :
-            The duration of last time step.
+            The duration of last time step, in hours if it is a number.
             Storages needs this time-duration for calculation of charge state
             after last time step.
             If None, then last time increment of time_series is used.
@@ -49,12 +50,15 @@ class FlowSystem:
             If you use an array, take care that its long enough to cover all previous values!
         """
         self.time_series = time_series if isinstance(time_series, np.ndarray) else np.array(time_series)
-        if self.time_series.dtype == np.dtype('datetime64[ns]'):
-            self.time_series = self.time_series.astype('datetime64[us]')
+        # one resolution for all calculations and for saving, fine enough for fractions of an hour
+        self.time_series = self.time_series.astype('datetime64[us]')
 
-        self.last_time_step_hours = (
-            self.time_series[-1] - self.time_series[-2] if last_time_step_hours is None else last_time_step_hours
-        )
+        if last_time_step_hours is None:
+            self.last_time_step_hours = self.time_series[-1] - self.time_series[-2]
+        elif isinstance(last_time_step_hours, (np.timedelta64, timedelta)):
+            self.last_time_step_hours = last_time_step_hours
+        else:
+            self.last_time_step_hours = np.timedelta64(round(last_time_step_hours * 3600 * 10**6), 'us')
         self.time_series_with_end = np.append(self.time_series, self.time_series[-1] + self.last_time_step_hours)
         self.previous_dt_in_hours: Union[int, float, np.ndarray] = (
             ((self.time_series[1] - self.time_series[0]) / np.timedelta64(1, 'h'))
-- 
2.43.0


From 2910f77e95478142a1659128c32770469ebcfb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 02/47] fix: accept TimeSeriesData wherever a time series value
 is documented

Flow.relative_minimum/relative_maximum and the parameters of CoolingTower, CHP
and HeatPumpWithSource raised a TypeError when given as TimeSeriesData.
---
 flixOpt/elements.py          |  8 ++++++--
 flixOpt/linear_converters.py | 23 +++++++++++++----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index e2402d6..1e1f932 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -8,7 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from .config import CONFIG
-from .core import Numeric, Numeric_TS, Skalar
+from .core import Numeric, Numeric_TS, Skalar, TimeSeriesData
 from .effects import EffectValues, effect_values_to_time_series
 from .features import InvestmentModel, OnOffModel, PreventSimultaneousUsageModel
 from .interface import InvestParameters, OnOffParameters
@@ -258,7 +258,11 @@ class Flow(Element):
 
     def _plausibility_checks(self) -> None:
         # TODO: Incorporate into Variable? (Lower_bound can not be greater than upper bound
-        if np.any(self.relative_minimum > self.relative_maximum):
+        relative_minimum, relative_maximum = (
+            bound.data if isinstance(bound, TimeSeriesData) else bound
+            for bound in (self.relative_minimum, self.relative_maximum)
+        )
+        if np.any(relative_minimum > relative_maximum):
             raise Exception(self.label_full + ': Take care, that relative_minimum <= relative_maximum!')
 
         if (
diff --git a/flixOpt/linear_converters.py b/flixOpt/linear_converters.py
index 65e6e88..6c787a6 100644
--- a/flixOpt/linear_converters.py
+++ b/flixOpt/linear_converters.py
@@ -8,7 +8,7 @@ from typing import Dict, Optional
 import numpy as np
 
 from .components import LinearConverter
-from .core import Numeric_TS, TimeSeriesData
+from .core import Numeric, Numeric_TS, TimeSeriesData
 from .elements import Flow
 from .interface import OnOffParameters
 
@@ -167,7 +167,7 @@ class CoolingTower(LinearConverter):
             label,
             inputs=[P_el, Q_th],
             outputs=[],
-            conversion_factors=[{P_el: 1, Q_th: -specific_electricity_demand}],
+            conversion_factors=[{P_el: -1, Q_th: specific_electricity_demand}],
             on_off_parameters=on_off_parameters,
             meta_data=meta_data,
         )
@@ -232,7 +232,7 @@ class CHP(LinearConverter):
 
         check_bounds(eta_th, 'eta_th', self.label_full, 0, 1)
         check_bounds(eta_el, 'eta_el', self.label_full, 0, 1)
-        check_bounds(eta_el + eta_th, 'eta_th+eta_el', self.label_full, 0, 1)
+        check_bounds(_get_data(eta_el) + _get_data(eta_th), 'eta_th+eta_el', self.label_full, 0, 1)
 
 
 class HeatPumpWithSource(LinearConverter):
@@ -265,7 +265,11 @@ class HeatPumpWithSource(LinearConverter):
 
         # super:
         electricity = {P_el: COP, Q_th: 1}
-        heat_source = {Q_ab: COP / (COP - 1), Q_th: 1}
+        cop_data = _get_data(COP)
+        heat_per_source_heat = cop_data / (cop_data - 1)
+        if isinstance(COP, TimeSeriesData):
+            heat_per_source_heat = TimeSeriesData(heat_per_source_heat, COP.agg_group, COP.agg_weight)
+        heat_source = {Q_ab: heat_per_source_heat, Q_th: 1}
 
         super().__init__(
             label,
@@ -284,6 +288,10 @@ class HeatPumpWithSource(LinearConverter):
         check_bounds(COP, 'eta_th', self.label_full, 1, 20)
 
 
+def _get_data(value: Numeric_TS) -> Numeric:
+    return value.data if isinstance(value, TimeSeriesData) else value
+
+
 def check_bounds(
     value: Numeric_TS, parameter_label: str, element_label: str, lower_bound: Numeric_TS, upper_bound: Numeric_TS
 ):
@@ -307,12 +315,7 @@ def check_bounds(
     -------
 
     """
-    if isinstance(value, TimeSeriesData):
-        value = value.data
-    if isinstance(lower_bound, TimeSeriesData):
-        lower_bound = lower_bound.data
-    if isinstance(upper_bound, TimeSeriesData):
-        upper_bound = upper_bound.data
+    value, lower_bound, upper_bound = _get_data(value), _get_data(lower_bound), _get_data(upper_bound)
     if not np.all(value > lower_bound):
         logger.warning(
             f"'{element_label}.{parameter_label}' is equal or below the common lower bound {lower_bound}."
-- 
2.43.0


From 8732a41fee546f373bff5a0084ab10a4aba88ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 03/47] fix: accept arrays as effects per switch-on and per
 running hour

OnOffParameters evaluated the truth value of the documented array argument.
---
 flixOpt/interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 17ac02b..1876f86 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -139,8 +139,12 @@ class OnOffParameters(Interface):
         force_switch_on : bool
             force creation of switch on variable, even if there is no switch_on_total_max
         """
-        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = effects_per_switch_on or {}
-        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = effects_per_running_hour or {}
+        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_switch_on if effects_per_switch_on is not None else {}
+        )
+        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_running_hour if effects_per_running_hour is not None else {}
+        )
         self.on_hours_total_min: Skalar = on_hours_total_min
         self.on_hours_total_max: Skalar = on_hours_total_max
         self.consecutive_on_hours_min: Numeric_TS = consecutive_on_hours_min
-- 
2.43.0


From 6cdfe5ba05a877f6fc2dee156f9dd097becebd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 04/47] fix: count the hours of the run before the first time
 step correctly

The position of the last 0 was used as the length of the last run of 1s, so
histories of several steps gave a wrong previous on/off duration.
---
 flixOpt/features.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index f05d7d2..86198af 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -603,7 +603,11 @@ class OnOffModel(ElementModel):
 
         # Find the indexes where value=`0` in a 1D-array
         zero_indices = np.where(np.isclose(binary_values, 0, atol=CONFIG.modeling.EPSILON))[0]
-        length_of_last_duration = zero_indices[-1] + 1 if zero_indices.size > 0 else len(binary_values)
+        length_of_last_duration = (
+            len(binary_values) - (zero_indices[-1] + 1) if zero_indices.size > 0 else len(binary_values)
+        )
+        if length_of_last_duration == 0:
+            return 0
 
         if not np.isscalar(binary_values) and np.isscalar(dt_in_hours):
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours)
@@ -612,7 +616,7 @@ class OnOffModel(ElementModel):
             if length_of_last_duration > len(dt_in_hours):  # check that lengths are compatible
                 raise TypeError(
                     f'When trying to calculate the consecutive duration, the length of the last duration '
-                    f'({len(length_of_last_duration)}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
+                    f'({length_of_last_duration}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
                     f'as {binary_values=}'
                 )
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours[-length_of_last_duration:])
-- 
2.43.0


From ea257390bd4c18cc45b60222645185676dae8b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 05/47] fix: previous rates of several flows describe one step,
 not a sequence

With scalar previous flow rates the previous on state of a component was read
from its last flow only, and the flows were counted as time steps.
---
 flixOpt/features.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 86198af..10b7c53 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -563,11 +563,9 @@ class OnOffModel(ElementModel):
         if not previous_values:
             return np.array([0])
         else:  # Convert to 2D-array and compute binary on/off states
-            previous_values = np.array(previous_values)
-            if previous_values.ndim > 1:
-                return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
-            else:
-                return (~np.isclose(previous_values, 0, atol=epsilon)).astype(int)
+            # one row per variable, one column per previous time step
+            previous_values = np.array([np.atleast_1d(values) for values in previous_values])
+            return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
 
     @classmethod
     def get_consecutive_duration(
-- 
2.43.0


From d14e596b99202ed81f2075ca0ef4ecb00931683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 06/47] fix: 'lastValueOfSim' ties the initial charge state to
 the final one

It was tied to the charge state before the last time step, so a cyclic storage
could end the horizon emptier or fuller than it started.
---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index c716551..6a559ef 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -496,7 +496,7 @@ class StorageModel(ComponentModel):
             elif self.element.initial_charge_state == 'lastValueOfSim':
                 # eq: Q_Ladezustand(1) - Q_Ladezustand(end) = 0;
                 eq_initial.add_summand(self.charge_state, 1, system_model.indices[0])
-                eq_initial.add_summand(self.charge_state, -1, system_model.indices[-1])
+                eq_initial.add_summand(self.charge_state, -1, indices_charge_state[-1])
             else:
                 raise Exception(f'initial_charge_state has undefined value: {self.element.initial_charge_state}')
                 # TODO: Validation in Storage Class, not in Model
-- 
2.43.0


From c5369518c98e40bcae5bbbf660319536374a1656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 07/47] fix: apply final charge state limits to storages with a
 free initial state

---
 flixOpt/components.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 6a559ef..af61abe 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -480,9 +480,8 @@ class StorageModel(ComponentModel):
             self.sub_models.append(self._investment)
             self._investment.do_modeling(system_model)
 
-        # Initial charge state
-        if self.element.initial_charge_state is not None:
-            self._model_initial_and_final_charge_state(system_model)
+        # Initial and final charge state
+        self._model_initial_and_final_charge_state(system_model)
 
     def _model_initial_and_final_charge_state(self, system_model):
         indices_charge_state = range(system_model.indices.start, system_model.indices.stop + 1)  # additional
-- 
2.43.0


From ee98f70db6c9a645dad0c10b7dab1ba52a09f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 08/47] fix: allow time-varying relative charge state limits

Arrays always failed, as there is one more charge state than time steps.
---
 flixOpt/components.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index af61abe..3fb5667 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -531,10 +531,15 @@ class StorageModel(ComponentModel):
     @property
     def relative_charge_state_bounds(self) -> Tuple[Numeric, Numeric]:
         return (
-            self.element.relative_minimum_charge_state.active_data,
-            self.element.relative_maximum_charge_state.active_data,
+            self._with_final_value(self.element.relative_minimum_charge_state.active_data),
+            self._with_final_value(self.element.relative_maximum_charge_state.active_data),
         )
 
+    @staticmethod
+    def _with_final_value(data: Numeric) -> Numeric:
+        """There is one more charge state than time steps: The last value also holds at the end of the last time step"""
+        return data if np.isscalar(data) else np.append(data, data[-1])
+
 
 class SourceAndSink(Component):
     """
-- 
2.43.0


From bba22e5bc70247f535b0d4b5aa6be088851b5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 09/47] fix: a transmission with absolute losses of 0 can be
 modelled

Without losses no on variable is created, but the equation asked for it.
---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 3fb5667..9212ce0 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -364,7 +364,7 @@ class TransmissionModel(ComponentModel):
         efficiency = 1 if self.element.relative_losses is None else (1 - self.element.relative_losses.active_data)
         eq_transmission.add_summand(in_flow.model.flow_rate, efficiency)
         eq_transmission.add_summand(out_flow.model.flow_rate, -1)
-        if self.element.absolute_losses is not None:
+        if self.element.absolute_losses is not None and np.any(self.element.absolute_losses.active_data != 0):
             eq_transmission.add_summand(in_flow.model._on.on, -1 * self.element.absolute_losses.active_data)
         return eq_transmission
 
-- 
2.43.0


From c87b81c7e02c56fac9f82be3af1db957f0a00d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 10/47] fix: keep flows in a reproducible order

Sets of objects ordered by memory address decided the order of buses, terms and
variables, so the same script built a differently ordered problem in each run.
---
 flixOpt/components.py  | 11 ++++-------
 flixOpt/flow_system.py |  3 +--
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 9212ce0..fc472fd 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -3,7 +3,7 @@ This module contains the basic components of the flixOpt framework.
 """
 
 import logging
-from typing import Dict, List, Literal, Optional, Set, Tuple, Union
+from typing import Dict, List, Literal, Optional, Tuple, Union
 
 import numpy as np
 
@@ -380,9 +380,6 @@ class LinearConverterModel(ComponentModel):
 
         # conversion_factors:
         if self.element.conversion_factors:
-            all_input_flows = set(self.element.inputs)
-            all_output_flows = set(self.element.outputs)
-
             # für alle linearen Gleichungen:
             for i, conversion_factor in enumerate(self.element.conversion_factors):
                 # erstelle Gleichung für jedes t:
@@ -390,9 +387,9 @@ class LinearConverterModel(ComponentModel):
                 # left = in1.flow_rate[t] * factor_in1[t] + in2.flow_rate[t] * factor_in2[t] + ...
                 # right = out1.flow_rate[t] * factor_out1[t] + out2.flow_rate[t] * factor_out2[t] + ...
                 # eq: left = right
-                used_flows = set(conversion_factor.keys())
-                used_inputs: Set = all_input_flows & used_flows
-                used_outputs: Set = all_output_flows & used_flows
+                # lists instead of sets, to keep the order of the equation the same in every run
+                used_inputs: List[Flow] = [flow for flow in self.element.inputs if flow in conversion_factor]
+                used_outputs: List[Flow] = [flow for flow in self.element.outputs if flow in conversion_factor]
 
                 eq_conversion = create_equation(f'conversion_{i}', self)
                 for flow in used_inputs:
diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index fb45f71..088a8d3 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -280,8 +280,7 @@ class FlowSystem:
 
     @property
     def flows(self) -> Dict[str, Flow]:
-        set_of_flows = {flow for comp in self.components.values() for flow in comp.inputs + comp.outputs}
-        return {flow.label_full: flow for flow in set_of_flows}
+        return {flow.label_full: flow for comp in self.components.values() for flow in comp.inputs + comp.outputs}
 
     @property
     def buses(self) -> Dict[str, Bus]:
-- 
2.43.0


From 20b2bdce215f8e24482fb0917526bc5c3e2f8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 11/47] fix: optional investments with minimum loads can be
 declined

The minimum flow rate (or charge state) of the smallest size was demanded even
if the investment was not made, which forced every optional investment with a
minimum or fixed size and a relative minimum or profile.
---
 flixOpt/components.py | 5 ++++-
 flixOpt/elements.py   | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index fc472fd..18b3398 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -520,8 +520,11 @@ class StorageModel(ComponentModel):
                 relative_upper_bound * self.element.capacity_in_flow_hours,
             )
         else:
+            minimum_size = self.element.capacity_in_flow_hours.minimum_size
+            if self.element.capacity_in_flow_hours.optional:  # No charge state, if not invested
+                minimum_size = 0
             return (
-                relative_lower_bound * self.element.capacity_in_flow_hours.minimum_size,
+                relative_lower_bound * minimum_size,
                 relative_upper_bound * self.element.capacity_in_flow_hours.maximum_size,
             )
 
diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 1e1f932..391b811 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -307,12 +307,15 @@ class FlowModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         # eq relative_minimum(t) * size <= flow_rate(t) <= relative_maximum(t) * size
+        lower_bound, upper_bound = self.absolute_flow_rate_bounds
+        if self.with_investment and self.element.size.optional:  # No flow, if not invested
+            lower_bound, upper_bound = np.minimum(lower_bound, 0), np.maximum(upper_bound, 0)
         self.flow_rate = create_variable(
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self.absolute_flow_rate_bounds[0] if self.element.on_off_parameters is None else 0,
-            upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
+            lower_bound=lower_bound if self.element.on_off_parameters is None else 0,
+            upper_bound=upper_bound if self.element.on_off_parameters is None else None,
             previous_values=self.element.previous_flow_rate,
         )
 
-- 
2.43.0


From 44d6cb07c49614e1ba2f2645ffa876991a3cbc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 12/47] fix: round binary results instead of truncating them

---
 flixOpt/math_modeling.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 4fe7d70..2535a8d 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1012,12 +1012,11 @@ class PyomoModel(ModelingLanguage):
         math_model.result_of_objective = self.model.objective.expr()
         for variable in math_model.variables:
             raw_results = self.mapping[variable].get_values().values()  # .values() of dict, because {0:0.1, 1:0.3,...}
-            if variable.is_binary:
-                dtype = np.int8  # geht das vielleicht noch kleiner ???
-            else:
-                dtype = float
             # transform to np-array (fromiter() is 5-7x faster than np.array(list(...)) )
-            result = np.fromiter(raw_results, dtype=dtype)
+            result = np.fromiter(raw_results, dtype=float)
+            if variable.is_binary:
+                # round, as solvers return integers only within a tolerance (0.9999999)
+                result = np.rint(result).astype(np.int8)
             # Falls skalar:
             if len(result) == 1:
                 variable.result = result[0]
-- 
2.43.0


From 7b960ccd3fec0394387136a0a50e272fd9444f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 13/47] fix: never present values of an earlier solve after a
 solve without solution

---
 flixOpt/math_modeling.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 2535a8d..d5c62b4 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -522,6 +522,8 @@ class MathModel:
         t_start = timeit.default_timer()
         for variable in self.variables:
             variable.reset_result()  # altes Ergebnis löschen (falls vorhanden)
+        self.result_of_objective = None
+        solver.reset_results()
         self.model.solve(self, solver)
         self.duration['Solving'] = round(timeit.default_timer() - t_start, 2)
 
@@ -726,6 +728,14 @@ class Solver(ABC):
     def solve(self, modeling_language: 'ModelingLanguage'):
         raise NotImplementedError(' Solving is not possible with this Abstract class')
 
+    def reset_results(self) -> None:
+        """Forgets everything about previous solves"""
+        self.objective = None
+        self.best_bound = None
+        self.termination_message = None
+        self.log = None
+        self._results = None
+
     def __repr__(self):
         return (
             f'{self.__class__.__name__}('
@@ -1006,6 +1016,11 @@ class PyomoModel(ModelingLanguage):
     def solve(self, math_model: MathModel, solver: Solver):
         if self._counter == 0:
             raise Exception(' First, call .translate_model(). Else PyomoModel cant solve()')
+        # forget the values of previous solves, so that they can't be mistaken for a solution of this one
+        for variable in math_model.variables:
+            for pyomo_variable in self.mapping[variable].values():
+                if not pyomo_variable.fixed:
+                    pyomo_variable.set_value(None)
         solver.solve(self)
 
         # write results
-- 
2.43.0


From 043643cd431fa3628d1161c34f611def9983434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 14/47] fix: report early stops of CPLEX, CBC and GLPK

---
 flixOpt/math_modeling.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index d5c62b4..23cc56d 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -736,6 +736,12 @@ class Solver(ABC):
         self.log = None
         self._results = None
 
+    def _check_termination(self) -> None:
+        """Stores how a solver of pyomos SolverFactory ended and warns if the solution is not proven to be optimal"""
+        self.termination_message = str(self._results.solver.termination_condition)
+        if not self.termination_message == 'optimal':
+            logger.warning(f'Solution is not optimal. Termination Message: "{self.termination_message}"')
+
     def __repr__(self):
         return (
             f'{self.__class__.__name__}('
@@ -845,7 +851,7 @@ class CplexSolver(Solver):
             )
 
             self.objective = modeling_language.model.objective.expr()
-            self.termination_message: Optional[str] = f'Not Implemented for {self.__class__.__name__} yet'
+            self._check_termination()
             self.best_bound = self._results['Problem'][0]['Lower bound']
             self.log = f'Not Implemented for {self.__class__.__name__} yet'
         else:
@@ -937,7 +943,7 @@ class CbcSolver(Solver):
                 options={'ratio': self.mip_gap, 'sec': self.time_limit_seconds},
             )
             self.objective = modeling_language.model.objective.expr()
-            self.termination_message: Optional[str] = f'Not Implemented for {self.__class__.__name__} yet'
+            self._check_termination()
             self.best_bound = self._results['Problem'][0]['Lower bound']
             self.log = f'Not Implemented for {self.__class__.__name__} yet'
         else:
@@ -967,7 +973,7 @@ class GlpkSolver(Solver):
             )
 
             self.objective = modeling_language.model.objective.expr()
-            self.termination_message = self._results['Solver'][0]['Status']
+            self._check_termination()
             self.best_bound = self._results['Problem'][0]['Lower bound']
             try:
                 self.log = SolverLog('glpk', self.logfile_name)
-- 
2.43.0


From 193a1c3d0f4e7df4896a8c6058eb46c57cdf1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 15/47] fix: main results and descriptions of a model no longer
 show those of a later model

---
 flixOpt/effects.py   |  6 +++++-
 flixOpt/structure.py | 37 ++++++++++++++++---------------------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 1b359b8..4089ac6 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -6,7 +6,7 @@ which are then transformed into the internal data structure.
 """
 
 import logging
-from typing import Dict, Literal, Optional, Union
+from typing import Dict, List, Literal, Optional, Union
 
 import numpy as np
 
@@ -326,6 +326,10 @@ class EffectCollectionModel(ElementModel):
         self.objective.add_summand(self._objective_effect_model.invest.sum, 1)
         self.objective.add_summand(self.penalty.sum, 1)
 
+    @property
+    def effect_models(self) -> List[EffectModel]:
+        return list(self._effect_models.values())
+
     @property
     def _objective_effect_model(self) -> EffectModel:
         return self._effect_models[self.element.objective_effect]
diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 1196e75..81dd35f 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -121,27 +121,21 @@ class SystemModel(MathModel):
     def description_of_variables(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_variables(structured)
-                for label, comp in self.flow_system.components.items()
+                model.element.label: model.description_of_variables(structured) for model in self.component_models
             },
-            'Buses': {
-                label: bus.model.description_of_variables(structured) for label, bus in self.flow_system.buses.items()
-            },
-            'Effects': self.flow_system.effect_collection.model.description_of_variables(structured),
+            'Buses': {model.element.label: model.description_of_variables(structured) for model in self.bus_models},
+            'Effects': self.effect_collection_model.description_of_variables(structured),
             'Others': {model.element.label: model.description_of_variables(structured) for model in self.other_models},
         }
 
     def description_of_constraints(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_constraints(structured)
-                for label, comp in self.flow_system.components.items()
-            },
-            'Buses': {
-                label: bus.model.description_of_constraints(structured) for label, bus in self.flow_system.buses.items()
+                model.element.label: model.description_of_constraints(structured) for model in self.component_models
             },
+            'Buses': {model.element.label: model.description_of_constraints(structured) for model in self.bus_models},
             'Objective': self.objective.description(),
-            'Effects': self.flow_system.effect_collection.model.description_of_constraints(structured),
+            'Effects': self.effect_collection_model.description_of_constraints(structured),
             'Others': {
                 model.element.label: model.description_of_constraints(structured) for model in self.other_models
             },
@@ -163,21 +157,22 @@ class SystemModel(MathModel):
         main_results = {}
         effect_results = {}
         main_results['Effects'] = effect_results
-        for effect in self.flow_system.effect_collection.effects.values():
-            effect_results[f'{effect.label} [{effect.unit}]'] = {
-                'operation': float(effect.model.operation.sum.result),
-                'invest': float(effect.model.invest.sum.result),
-                'sum': float(effect.model.all.sum.result),
+        # Only use models of this SystemModel, as the elements refer to the models of the latest SystemModel
+        for effect_model in self.effect_collection_model.effect_models:
+            effect_results[f'{effect_model.element.label} [{effect_model.element.unit}]'] = {
+                'operation': float(effect_model.operation.sum.result),
+                'invest': float(effect_model.invest.sum.result),
+                'sum': float(effect_model.all.sum.result),
             }
         main_results['penalty'] = float(self.effect_collection_model.penalty.sum.result)
         main_results['Objective'] = self.result_of_objective
         main_results['lower bound'] = self.solver.best_bound
         buses_with_excess = []
         main_results['buses with excess'] = buses_with_excess
-        for bus in self.flow_system.buses.values():
-            if bus.with_excess:
-                if np.sum(bus.model.excess_input.result) > 1e-3 or np.sum(bus.model.excess_output.result) > 1e-3:
-                    buses_with_excess.append(bus.label)
+        for bus_model in self.bus_models:
+            if bus_model.element.with_excess:
+                if np.sum(bus_model.excess_input.result) > 1e-3 or np.sum(bus_model.excess_output.result) > 1e-3:
+                    buses_with_excess.append(bus_model.element.label)
 
         invest_decisions = {'invested': {}, 'not invested': {}}
         main_results['Invest-Decisions'] = invest_decisions
-- 
2.43.0


From f8141dd3c972b0e518db72c87ce4ad7b08cf0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 16/47] fix: results() always returns the results of the latest
 solve

---
 flixOpt/calculation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a7a16f..2dcdbaf 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -69,7 +69,6 @@ class Calculation:
             'data': None,
             'info': None,
         }
-        self._results = None
 
     def _define_path_names(self, save_results: Union[bool, str, pathlib.Path], include_timestamp: bool = False):
         """
@@ -128,9 +127,7 @@ class Calculation:
         logger.info(f'Saving calculation to .yaml took {(timeit.default_timer() - t_start):>8.2f} seconds')
 
     def results(self):
-        if self._results is None:
-            self._results = self.system_model.results()
-        return self._results
+        return self.system_model.results()
 
     @property
     def infos(self):
-- 
2.43.0


From cd8259a7badc733f546a545f6482917dcf1f0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 17/47] fix: honour the log file name of a solver instead of
 writing to a file named None

---
 flixOpt/calculation.py   | 39 +++++++++++++++++++++++++++------------
 flixOpt/math_modeling.py |  2 +-
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 2dcdbaf..e13789e 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -8,6 +8,7 @@ There are three different Calculation types:
     3. SegmentedCalculation: Solves a SystemModel for each individual Segment of the FlowSystem.
 """
 
+import contextlib
 import datetime
 import json
 import logging
@@ -90,6 +91,17 @@ class Calculation:
             self._paths['results'] = path / f'{self.name}_results.json'
             self._paths['infos'] = path / f'{self.name}_infos.yaml'
 
+    @contextlib.contextmanager
+    def _solver_log_in_results_folder(self, solver: Solver, save_results: Union[bool, str, pathlib.Path]):
+        """The solver log is saved next to the results. Without saving, the logfile_name of the solver is used"""
+        logfile_name = solver.logfile_name
+        if save_results:
+            solver.logfile_name = self._paths['log']
+        try:
+            yield
+        finally:
+            solver.logfile_name = logfile_name
+
     def _save_solve_infos(self):
         t_start = timeit.default_timer()
         indent = 4 if len(self.flow_system.time_series) < 50 else None
@@ -160,13 +172,13 @@ class FullCalculation(Calculation):
 
     def solve(self, solver: Solver, save_results: Union[bool, str, pathlib.Path] = False):
         self._define_path_names(save_results)
-        t_start = timeit.default_timer()
-        solver.logfile_name = self._paths['log']
-        self.system_model.solve(solver)
-        self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
+        with self._solver_log_in_results_folder(solver, save_results):
+            t_start = timeit.default_timer()
+            self.system_model.solve(solver)
+            self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
-        if save_results:
-            self._save_solve_infos()
+            if save_results:
+                self._save_solve_infos()
 
 
 class AggregatedCalculation(Calculation):
@@ -290,13 +302,13 @@ class AggregatedCalculation(Calculation):
 
     def solve(self, solver: Solver, save_results: Union[bool, str, pathlib.Path] = False):
         self._define_path_names(save_results)
-        t_start = timeit.default_timer()
-        solver.logfile_name = self._paths['log']
-        self.system_model.solve(solver)
-        self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
+        with self._solver_log_in_results_folder(solver, save_results):
+            t_start = timeit.default_timer()
+            self.system_model.solve(solver)
+            self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
-        if save_results:
-            self._save_solve_infos()
+            if save_results:
+                self._save_solve_infos()
 
 
 class SegmentedCalculation(Calculation):
@@ -364,7 +376,10 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{"":#^80}')
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
+        with self._solver_log_in_results_folder(solver, save_results):
+            self._do_modeling_and_solve(solver, save_results)
 
+    def _do_modeling_and_solve(self, solver: Solver, save_results: Union[bool, str, pathlib.Path]):
         for i in range(self.number_of_segments):
             name_of_segment = f'Segment_{i + 1}'
             if self.sub_calculations:
diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 23cc56d..a07c546 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -889,7 +889,7 @@ class HighsSolver(Solver):
             self._solver.highs_options = {
                 'mip_rel_gap': self.mip_gap,
                 'time_limit': self.time_limit_seconds,
-                'log_file': str(self.logfile_name),
+                'log_file': '' if self.logfile_name is None else str(self.logfile_name),
                 # "log_to_console": self.solver_output_to_console,
                 'threads': self.threads,
                 'parallel': 'on',
-- 
2.43.0


From b6d34de45cd7629bd4fe45527f88897157c10587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 18/47] fix: restore the start values of the system however a
 segmented calculation ends

---
 flixOpt/calculation.py | 47 ++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index e13789e..81426c3 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -24,7 +24,7 @@ from . import utils as utils
 from .aggregation import AggregationModel, AggregationParameters, TimeSeriesCollection
 from .components import Storage
 from .core import Numeric, Skalar
-from .elements import Component
+from .elements import Component, Flow
 from .features import InvestmentModel
 from .flow_system import FlowSystem
 from .solvers import Solver
@@ -362,14 +362,7 @@ class SegmentedCalculation(Calculation):
         )
 
         # Storing all original start values
-        self._original_start_values = {
-            **{flow: flow.previous_flow_rate for flow in self.flow_system.flows.values()},
-            **{
-                comp: comp.initial_charge_state
-                for comp in self.flow_system.components.values()
-                if isinstance(comp, Storage)
-            },
-        }
+        self._original_start_values = self._get_start_values()
         self._transfered_start_values: Dict[str, Dict[str, Any]] = {}
 
     def do_modeling_and_solve(self, solver: Solver, save_results: Union[bool, str, pathlib.Path] = True):
@@ -380,6 +373,23 @@ class SegmentedCalculation(Calculation):
             self._do_modeling_and_solve(solver, save_results)
 
     def _do_modeling_and_solve(self, solver: Solver, save_results: Union[bool, str, pathlib.Path]):
+        self.sub_calculations = []
+        self._transfered_start_values = {}
+        self._original_start_values = self._get_start_values()
+        try:
+            self._solve_segments(solver)
+        finally:
+            self._reset_start_values()
+
+        self.durations = {'modeling': 0.0, 'solving': 0.0, 'saving': 0.0}
+        for calc in self.sub_calculations:
+            for key, value in calc.durations.items():
+                self.durations[key] += value
+
+        if save_results:
+            self._save_solve_infos()
+
+    def _solve_segments(self, solver: Solver):
         for i in range(self.number_of_segments):
             name_of_segment = f'Segment_{i + 1}'
             if self.sub_calculations:
@@ -402,15 +412,6 @@ class SegmentedCalculation(Calculation):
                 )
             calculation.solve(solver, save_results=False)
 
-        self._reset_start_values()
-
-        for calc in self.sub_calculations:
-            for key, value in calc.durations.items():
-                self.durations[key] += value
-
-        if save_results:
-            self._save_solve_infos()
-
     def results(
         self, combined_arrays: bool = False, combined_scalars: bool = False, individual_results: bool = False
     ) -> Dict[str, Union[Numeric, Dict[str, Numeric]]]:
@@ -509,6 +510,16 @@ class SegmentedCalculation(Calculation):
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
 
+    def _get_start_values(self) -> Dict[Union[Flow, Storage], Any]:
+        return {
+            **{flow: flow.previous_flow_rate for flow in self.flow_system.flows.values()},
+            **{
+                comp: comp.initial_charge_state
+                for comp in self.flow_system.components.values()
+                if isinstance(comp, Storage)
+            },
+        }
+
     def _reset_start_values(self):
         """This resets the start values of all Elements to its original state"""
         for flow in self.flow_system.flows.values():
-- 
2.43.0


From 92878f96d6f3a1ff6cced047da9b68d475546ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 19/47] fix: start values of a segment come from the end of the
 owned part of the prior one

---
 flixOpt/calculation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 81426c3..921bd7c 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -496,16 +496,16 @@ class SegmentedCalculation(Calculation):
         This function gets the last values of the previous solved segment and
         inserts them as start values for the nest segment
         """
-        final_index_of_prior_segment = -(1 + self.overlap_length)
+        # Counted from the start, as the overlap of the prior segment is shorter at the end of the time series
         start_values_of_this_segment = {}
         for flow in self.flow_system.flows.values():
             flow.previous_flow_rate = flow.model.flow_rate.result[
-                final_index_of_prior_segment
+                self.segment_length - 1
             ]  # TODO: maybe more values?
             start_values_of_this_segment[flow.label_full] = flow.previous_flow_rate
         for comp in self.flow_system.components.values():
             if isinstance(comp, Storage):
-                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment]
+                comp.initial_charge_state = comp.model.charge_state.result[self.segment_length]
                 start_values_of_this_segment[comp.label_full] = comp.initial_charge_state
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
-- 
2.43.0


From 3785383c2cb5f3ce5f9fd94fd97a8c147a82f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 20/47] fix: segmented calculations use the time_indices they
 were given

---
 flixOpt/calculation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 921bd7c..bc8cd75 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -395,7 +395,7 @@ class SegmentedCalculation(Calculation):
             if self.sub_calculations:
                 self._transfer_start_values(name_of_segment)
             time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices.start}...{time_indices.stop - 1}):')
+            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
             calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
             # TODO: Add Before Values if available
             self.sub_calculations.append(calculation)
@@ -528,9 +528,10 @@ class SegmentedCalculation(Calculation):
             if isinstance(comp, Storage):
                 comp.initial_charge_state = self._original_start_values[comp]
 
-    def _get_indices(self, segment_index: int) -> range:
+    def _get_indices(self, segment_index: int) -> Union[range, List[int]]:
+        all_indices = range(self._total_length) if self.time_indices is None else self.time_indices
         start = segment_index * self.segment_length
-        return range(start, min(start + self.segment_length + self.overlap_length, self._total_length))
+        return all_indices[start : start + self.segment_length + self.overlap_length]
 
     @property
     def segment_length_with_overlap(self):
-- 
2.43.0


From 332cdfdbe0c31144c048268be56819f1e1480ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 21/47] fix: a single left over time step no longer breaks
 segmented calculations

---
 flixOpt/calculation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index bc8cd75..bc18f3a 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -354,6 +354,8 @@ class SegmentedCalculation(Calculation):
         self.overlap_length = overlap_length
         self._total_length = len(self.time_indices) if self.time_indices is not None else len(flow_system.time_series)
         self.number_of_segments = math.ceil(self._total_length / self.segment_length)
+        if self.number_of_segments > 1 and self._total_length % self.segment_length == 1:
+            self.number_of_segments -= 1  # A single time step can't be modeled, so the last segment is one step longer
         self.sub_calculations: List[FullCalculation] = []
 
         assert segment_length > 2, 'The Segment length must be greater 2, due to unwanted internal side effects'
@@ -531,6 +533,8 @@ class SegmentedCalculation(Calculation):
     def _get_indices(self, segment_index: int) -> Union[range, List[int]]:
         all_indices = range(self._total_length) if self.time_indices is None else self.time_indices
         start = segment_index * self.segment_length
+        if segment_index == self.number_of_segments - 1:
+            return all_indices[start:]
         return all_indices[start : start + self.segment_length + self.overlap_length]
 
     @property
-- 
2.43.0


From c965d0b732eec0c5f5d9d96b2daf3d419a90c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 22/47] fix: an aborted save no longer leaves a mixture of two
 runs

---
 flixOpt/calculation.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index bc18f3a..9c65bf1 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -13,6 +13,7 @@ import datetime
 import json
 import logging
 import math
+import os
 import pathlib
 import timeit
 from typing import Any, Dict, List, Literal, Optional, Union
@@ -89,6 +90,7 @@ class Calculation:
             self._paths['log'] = path / f'{self.name}_solver.log'
             self._paths['data'] = path / f'{self.name}_data.json'
             self._paths['results'] = path / f'{self.name}_results.json'
+            self._paths['results_extra'] = path / f'{self.name}_results_extra.json'
             self._paths['infos'] = path / f'{self.name}_infos.yaml'
 
     @contextlib.contextmanager
@@ -102,6 +104,32 @@ class Calculation:
         finally:
             solver.logfile_name = logfile_name
 
+    def _save_all_files(self):
+        """
+        Writes to temporary files, which replace the files of an earlier run once all of them are complete. The infos
+        are removed first and reappear last, so loading either finds files that belong together or fails.
+        """
+        paths = self._paths
+        file_keys = ('results', 'results_extra', 'data', 'infos')
+        temporary_paths = {key: paths[key].with_name(f'{paths[key].name}.tmp') for key in file_keys}
+        try:
+            temporary_paths['results_extra'].unlink(missing_ok=True)  # not written by every type of Calculation
+            self._paths = {**paths, **temporary_paths}
+            self._save_solve_infos()
+            paths['infos'].unlink(missing_ok=True)
+            for key in file_keys:
+                if temporary_paths[key].exists():
+                    os.replace(temporary_paths[key], paths[key])
+                else:
+                    paths[key].unlink(missing_ok=True)
+        except BaseException:
+            for temporary_path in temporary_paths.values():
+                with contextlib.suppress(OSError):
+                    temporary_path.unlink(missing_ok=True)
+            raise
+        finally:
+            self._paths = paths
+
     def _save_solve_infos(self):
         t_start = timeit.default_timer()
         indent = 4 if len(self.flow_system.time_series) < 50 else None
@@ -178,7 +206,7 @@ class FullCalculation(Calculation):
             self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
             if save_results:
-                self._save_solve_infos()
+                self._save_all_files()
 
 
 class AggregatedCalculation(Calculation):
@@ -308,7 +336,7 @@ class AggregatedCalculation(Calculation):
             self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
             if save_results:
-                self._save_solve_infos()
+                self._save_all_files()
 
 
 class SegmentedCalculation(Calculation):
@@ -389,7 +417,7 @@ class SegmentedCalculation(Calculation):
                 self.durations[key] += value
 
         if save_results:
-            self._save_solve_infos()
+            self._save_all_files()
 
     def _solve_segments(self, solver: Solver):
         for i in range(self.number_of_segments):
@@ -458,7 +486,7 @@ class SegmentedCalculation(Calculation):
             data = copy_and_convert_datatypes(self.flow_system.infos(), use_numpy=False, use_element_label=False)
             json.dump(data, f, indent=indent)
 
-        with open(self._paths['results'].parent / f'{self.name}_results_extra.json', 'w', encoding='utf-8') as f:
+        with open(self._paths['results_extra'], 'w', encoding='utf-8') as f:
             results = {
                 'Individual Results': copy_and_convert_datatypes(
                     self.results(individual_results=True), use_numpy=False, use_element_label=False
-- 
2.43.0


From a82f1f1e1b8ce0d4c0aaf5d2f081bbc17e70de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 23/47] fix: save the input data a calculation was modeled with

---
 flixOpt/calculation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 9c65bf1..5681bf6 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -112,6 +112,7 @@ class Calculation:
         paths = self._paths
         file_keys = ('results', 'results_extra', 'data', 'infos')
         temporary_paths = {key: paths[key].with_name(f'{paths[key].name}.tmp') for key in file_keys}
+        self._activate_time_series()
         try:
             temporary_paths['results_extra'].unlink(missing_ok=True)  # not written by every type of Calculation
             self._paths = {**paths, **temporary_paths}
@@ -130,6 +131,12 @@ class Calculation:
         finally:
             self._paths = paths
 
+    def _activate_time_series(self):
+        """Activates the data this calculation was modeled with (another calculation might have been modeled since)"""
+        for time_series in self.flow_system.all_time_series:
+            time_series.clear_indices_and_aggregated_data()
+            time_series.activate_indices(self.time_indices)
+
     def _save_solve_infos(self):
         t_start = timeit.default_timer()
         indent = 4 if len(self.flow_system.time_series) < 50 else None
@@ -251,6 +258,13 @@ class AggregatedCalculation(Calculation):
         self.aggregation = None
         self.time_series_collection: Optional[TimeSeriesCollection] = None
 
+    def _activate_time_series(self):
+        super()._activate_time_series()
+        if self.aggregation_parameters.aggregate_data_and_fix_non_binary_vars:
+            self.time_series_collection.insert_data(
+                {column: values.to_numpy() for column, values in self.aggregation.aggregated_data.items()}
+            )
+
     def do_modeling(self) -> SystemModel:
         self.flow_system.transform_data()
         for time_series in self.flow_system.all_time_series:
-- 
2.43.0


From 82f657a4ddadc4fed12cf1bb5a3974ba7591c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 24/47] fix: results of segmented calculations without bus
 excess can be loaded

---
 flixOpt/results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index d88ea6c..7928b61 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -105,8 +105,9 @@ class CalculationResults:
 
     def _construct_bus_results(self):
         """This has to be called after _construct_component_results(), as its using the Flows from the Components"""
-        bus_results = self.all_results['Buses']
         bus_infos = self.all_data['Buses']
+        # buses without any (combined) result values are not part of the results of segmented calculations
+        bus_results = {**{label: {} for label in bus_infos}, **self.all_results.get('Buses', {})}
         if not bus_results.keys() == bus_infos.keys():
             logger.warning(f'Missing Bus or mismatched keys: {bus_results.keys() ^ bus_infos.keys()}')
 
-- 
2.43.0


From 8c92dc011a6b7992ea14073da2e009e85d9fdd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 25/47] fix: charge state limits may be given per time step or
 per charge state

Also in calculations of a part of the time steps.
---
 flixOpt/components.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 18b3398..0296f83 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -427,10 +427,14 @@ class StorageModel(ComponentModel):
         self.charge_state: Optional[VariableTS] = None
         self.netto_discharge: Optional[VariableTS] = None
         self._investment: Optional[InvestmentModel] = None
+        self._nr_of_time_steps: Optional[int] = None
+        self._total_nr_of_time_steps: Optional[int] = None
 
     def do_modeling(self, system_model):
         super().do_modeling(system_model)
 
+        self._nr_of_time_steps = system_model.nr_of_time_steps
+        self._total_nr_of_time_steps = len(system_model.flow_system.time_series)
         lb, ub = self.absolute_charge_state_bounds
         self.charge_state = create_variable(
             'charge_state', self, system_model.nr_of_time_steps + 1, lower_bound=lb, upper_bound=ub
@@ -531,14 +535,21 @@ class StorageModel(ComponentModel):
     @property
     def relative_charge_state_bounds(self) -> Tuple[Numeric, Numeric]:
         return (
-            self._with_final_value(self.element.relative_minimum_charge_state.active_data),
-            self._with_final_value(self.element.relative_maximum_charge_state.active_data),
+            self._with_final_value(self.element.relative_minimum_charge_state),
+            self._with_final_value(self.element.relative_maximum_charge_state),
         )
 
-    @staticmethod
-    def _with_final_value(data: Numeric) -> Numeric:
-        """There is one more charge state than time steps: The last value also holds at the end of the last time step"""
-        return data if np.isscalar(data) else np.append(data, data[-1])
+    def _with_final_value(self, time_series: TimeSeries) -> Numeric:
+        """
+        There is one more charge state than time steps. The limit at the end is the one of the following time step,
+        if there is one given. Otherwise, the limit of the last time step also holds at its end.
+        """
+        data = time_series.active_data
+        if np.isscalar(data) or len(data) == self._nr_of_time_steps + 1:
+            return data
+        if time_series.aggregated_data is None and len(time_series.data) == self._total_nr_of_time_steps + 1:
+            return np.append(data, time_series.data[time_series.active_indices[-1] + 1])
+        return np.append(data, data[-1])
 
 
 class SourceAndSink(Component):
-- 
2.43.0


From e64d8ea0601c340c5b31028738f012fd82efa04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 26/47] fix: Do not remove the standard effect from the effect
 dictionary of the user

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 4089ac6..a140337 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -218,7 +218,7 @@ def effect_values_to_time_series(
     if nested_values is None:
         return None
     else:
-        standard_value = nested_values.pop(None, None)
+        standard_value = nested_values.get(None)
         transformed_values = nested_values_to_time_series(nested_values, label_suffix, parent_element)
         if standard_value is not None:
             transformed_values[None] = _create_time_series(
-- 
2.43.0


From 5f8672f63d2fff9c8c025f720c7e1ecc6ab29338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 27/47] fix: Save aggregated calculations in which no periods
 share a cluster

---
 flixOpt/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d2869d9..6b5a5c9 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -364,6 +364,8 @@ class AggregationModel(ElementModel):
             components = [component for component in self.components_to_clusterize]
 
         indices = self.aggregation_data.get_equation_indices(skip_first_index_of_period=True)
+        if len(indices[0]) == 0:
+            return  # No two periods are in the same cluster, so there is nothing to equate
 
         for component in components:
             if isinstance(component, Storage) and not self.aggregation_parameters.fix_storage_flows:
-- 
2.43.0


From 587fe6fac287c74ef67a101291afc800abb706a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 28/47] fix: Do not change the data that is plotted

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index b377114..de60f20 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -120,7 +120,7 @@ def with_plotly(
                 )
             )
     elif mode == 'area':
-        data[(data > -1e-5) & (data < 1e-5)] = 0  # Preventing issues with plotting
+        data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
         negative_columns = list(data.columns[(data <= 0).all()])
-- 
2.43.0


From a693a132eba80fbaf61a2a60d4bc4240ac1ced04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 29/47] fix: Save whether a storage or transmission prevents
 simultaneous flows

---
 flixOpt/components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 0296f83..27001fe 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -209,6 +209,7 @@ class Storage(Component):
         self.eta_charge: Numeric_TS = eta_charge
         self.eta_discharge: Numeric_TS = eta_discharge
         self.relative_loss_per_hour: Numeric_TS = relative_loss_per_hour
+        self.prevent_simultaneous_charge_and_discharge = prevent_simultaneous_charge_and_discharge
 
     def create_model(self) -> 'StorageModel':
         self.model = StorageModel(self)
@@ -290,6 +291,7 @@ class Transmission(Component):
 
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
+        self.prevent_simultaneous_flows_in_both_directions = prevent_simultaneous_flows_in_both_directions
 
     def _plausibility_checks(self):
         # check buses:
-- 
2.43.0


From 44d9fa4d5854e9458cc8378ca7b372a4853cf92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 30/47] fix: Save and show a plot that has nothing to draw

---
 flixOpt/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index de60f20..a9e5d9b 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -78,9 +78,10 @@ def with_plotly(
     >>> fig.show()
     """
     assert mode in ['bar', 'line', 'area'], f"'mode' must be one of {['bar', 'line', 'area']}"
-    if data.empty:
-        return go.Figure()
-    if isinstance(colors, str):
+    if data.empty:  # Nothing to draw: the figure stays empty, but is shown and saved like any other
+        colors = []
+        data = data.loc[:, []]
+    elif isinstance(colors, str):
         colorscale = px.colors.get_colorscale(colors)
         colors = px.colors.sample_colorscale(
             colorscale,
-- 
2.43.0


From 0571816455830e4ae0018cc06afa1dc45c5f7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 31/47] fix: a single value can be penalised

A penalty for a variable with one value was refused, as for the deviation of the
only pair of time steps in an aggregated calculation.
---
 flixOpt/effects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index a140337..8b45e8e 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -391,7 +391,8 @@ class EffectCollectionModel(ElementModel):
         factor: Numeric,
     ) -> None:
         assert variable is not None, 'A Variable must be passed to add a share to penalty! Else its a constant Penalty!'
-        self.penalty.add_share(self._system_model, name, variable, factor, True)
+        share_as_sum = variable.length > 1  # A single value is not summed up
+        self.penalty.add_share(self._system_model, name, variable, factor, share_as_sum)
 
     def add_share_between_effects(self):
         for origin_effect in self.element.effects.values():
-- 
2.43.0


From 57dae61f94df71ccab18dacb04e177159df01758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 32/47] fix: aggregated calculations accept limits per charge
 state

Limits with one value per charge state have one more value than there are time
steps, so the table of the time series could not be made.
---
 flixOpt/calculation.py | 6 +++++-
 flixOpt/components.py  | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5681bf6..e472008 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -301,7 +301,11 @@ class AggregatedCalculation(Calculation):
 
         import pandas as pd
 
-        original_data = pd.DataFrame(self.time_series_collection.data, index=chosen_time_series)
+        # Limits of charge states can have one more value than there are time steps
+        original_data = pd.DataFrame(
+            {label: data[: len(chosen_time_series)] for label, data in self.time_series_collection.data.items()},
+            index=chosen_time_series,
+        )
 
         # Aggregation - creation of aggregated timeseries:
         self.aggregation = Aggregation(
diff --git a/flixOpt/components.py b/flixOpt/components.py
index 27001fe..40f5d39 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -549,8 +549,9 @@ class StorageModel(ComponentModel):
         data = time_series.active_data
         if np.isscalar(data) or len(data) == self._nr_of_time_steps + 1:
             return data
-        if time_series.aggregated_data is None and len(time_series.data) == self._total_nr_of_time_steps + 1:
-            return np.append(data, time_series.data[time_series.active_indices[-1] + 1])
+        if len(time_series.data) == self._total_nr_of_time_steps + 1:
+            indices = time_series.active_indices
+            return np.append(data, time_series.data[-1 if indices is None else indices[-1] + 1])
         return np.append(data, data[-1])
 
 
-- 
2.43.0


From 39802efa29a2b2923ace93752ab07a35790d5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 33/47] fix: cluster from a fixed random state so that
 aggregated calculations are repeatable

---
 flixOpt/aggregation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index 6b5a5c9..31d5922 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -5,6 +5,7 @@ Through this, aggregating TimeSeriesData is possible.
 
 import copy
 import logging
+import threading
 import timeit
 import warnings
 from collections import Counter
@@ -38,6 +39,8 @@ if TYPE_CHECKING:
 warnings.filterwarnings('ignore', category=DeprecationWarning)
 logger = logging.getLogger('flixOpt')
 
+_random_state_lock = threading.Lock()  # the random state of numpy is shared by all threads
+
 
 class Aggregation:
     """
@@ -98,7 +101,14 @@ class Aggregation:
             addPeakMin=self.time_series_for_low_peaks,
         )
 
-        self.tsam.createTypicalPeriods()  # Ausführen der Aggregation/Clustering
+        # k_means draws from the global random state of numpy. Starting from a fixed state makes the aggregation repeatable
+        with _random_state_lock:
+            random_state = np.random.get_state()
+            np.random.seed(0)
+            try:
+                self.tsam.createTypicalPeriods()  # Ausführen der Aggregation/Clustering
+            finally:
+                np.random.set_state(random_state)
         self.aggregated_data = self.tsam.predictOriginalData()
 
         self.clustering_duration_seconds = timeit.default_timer() - start_time  # Zeit messen:
-- 
2.43.0


From 343bbc8b2627aac8d97d9fe93772e4ef4c07039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 34/47] fix: unique labels for the conversion factors and
 support points of a LinearConverter, as needed for aggregating them

---
 flixOpt/components.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 40f5d39..ba78663 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -100,20 +100,21 @@ class LinearConverter(Component):
             for flow, segments in self.segmented_conversion_factors.items():
                 segmented_conversion_factors[flow] = [
                     (
-                        _create_time_series('Stuetzstelle', segment[0], self),
-                        _create_time_series('Stuetzstelle', segment[1], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}_start', segment[0], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}_end', segment[1], self),
                     )
-                    for segment in segments
+                    for i, segment in enumerate(segments)
                 ]
             self.segmented_conversion_factors = segmented_conversion_factors
 
     def _transform_conversion_factors(self) -> List[Dict[Flow, TimeSeries]]:
         """macht alle Faktoren, die nicht TimeSeries sind, zu TimeSeries"""
         list_of_conversion_factors = []
-        for conversion_factor in self.conversion_factors:
+        for i, conversion_factor in enumerate(self.conversion_factors):
+            suffix = f'_{i}' if i > 0 else ''  # A Flow can be part of multiple equations
             transformed_dict = {}
             for flow, values in conversion_factor.items():
-                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor', values, self)
+                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor{suffix}', values, self)
             list_of_conversion_factors.append(transformed_dict)
         return list_of_conversion_factors
 
-- 
2.43.0


From e011e770d5ff0e3c26b961d89e91c88ac7171e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 35/47] fix: a transformation of data that was interrupted
 leaves no TimeSeries behind

---
 flixOpt/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 81dd35f..bca141c 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -506,6 +506,8 @@ def _create_time_series(
         return data
     else:
         time_series = TimeSeries(label=f'{element.label_full}__{label}', data=data)
+        # An interrupted transformation might have left a TimeSeries behind, that is used nowhere
+        element.used_time_series = [ts for ts in element.used_time_series if ts.label != time_series.label]
         element.used_time_series.append(time_series)
         return time_series
 
-- 
2.43.0


From 2adc0cf6c908264353d6f630d531aff4346fbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:06 +0000
Subject: [PATCH 36/47] fix: refuse elements of the wrong type and ambiguous
 labels before anything is added

---
 flixOpt/flow_system.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 088a8d3..000c3e9 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -75,15 +75,18 @@ class FlowSystem:
 
     def add_effects(self, *args: Effect) -> None:
         for new_effect in list(args):
-            logger.info(f'Registered new Effect: {new_effect.label}')
+            if not isinstance(new_effect, Effect):
+                raise TypeError(f'Only Effects can be added by "add_effects()", got {type(new_effect).__name__}')
+            self._check_if_element_is_unique(new_effect)
             self.effect_collection.add_effect(new_effect)
+            logger.info(f'Registered new Effect: {new_effect.label}')
 
     def add_components(self, *args: Component) -> None:
         # Komponenten registrieren:
         new_components = list(args)
         for new_component in new_components:
+            self._check_if_component_can_be_added(new_component)  # before anything is registered
             logger.info(f'Registered new Component: {new_component.label}')
-            self._check_if_element_is_unique(new_component)  # check if already exists:
             new_component.register_component_in_flows()  # Komponente in Flow registrieren
             new_component.register_flows_in_bus()  # Flows in Bus registrieren:
             self.components[new_component.label] = new_component  # Add to existing components
@@ -229,6 +232,36 @@ class FlowSystem:
         if element.label_full in self.all_elements:
             raise Exception(f'Label of Element {element.label} already used in another element!')
 
+    def _check_if_component_can_be_added(self, component: Component) -> None:
+        """
+        checks if the component, its flows and their buses can be told apart from all others by their labels,
+        and if none of its flows is part of another component
+
+        Parameters
+        ----------
+        component : Component
+            new component to check
+        """
+        if not isinstance(component, Component):
+            raise TypeError(f'Only Components can be added by "add_components()", got {type(component).__name__}')
+        self._check_if_element_is_unique(component)
+
+        elements = {**self.all_elements, component.label_full: component}
+        flows_in_use = list(self.flows.values())
+        flows = component.inputs + component.outputs
+        for flow in flows:
+            if not isinstance(flow, Flow) or not isinstance(flow.bus, Bus):
+                raise TypeError(f'Inputs and outputs of {component.label} must be Flows that are connected to a Bus')
+            if flow in flows_in_use:
+                raise Exception(f'Flow {flow.label} of {component.label} already used in another Component!')
+            flow_label_full = f'{component.label}__{flow.label}'
+            if flow_label_full in elements:
+                raise Exception(f'Label of Flow {flow_label_full} already used in another element!')
+            elements[flow_label_full] = flow
+        for flow in flows:
+            if elements.setdefault(flow.bus.label_full, flow.bus) is not flow.bus:
+                raise Exception(f'Label of Bus {flow.bus.label} already used in another element!')
+
     def get_time_data_from_indices(
         self, time_indices: Optional[Union[List[int], range]] = None
     ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.float64]:
-- 
2.43.0


From 6ca496cafa28125b9f014fee2ea7b1beaafb7553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:06 +0000
Subject: [PATCH 37/47] fix: a failed configuration load changes neither the
 settings nor the logging

---
 flixOpt/config.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/flixOpt/config.py b/flixOpt/config.py
index 5ba7dec..15eb601 100644
--- a/flixOpt/config.py
+++ b/flixOpt/config.py
@@ -1,8 +1,9 @@
+import contextlib
 import logging
 import os
 import types
 from dataclasses import dataclass, fields, is_dataclass
-from typing import Annotated, Literal, Optional
+from typing import Annotated, List, Literal, Optional
 
 import yaml
 from rich.console import Console
@@ -10,6 +11,8 @@ from rich.logging import RichHandler
 
 logger = logging.getLogger('flixOpt')
 
+_current_handlers: List[logging.Handler] = []  # The handlers that were created by the last setup_logging()
+
 
 def merge_configs(defaults: dict, overrides: dict) -> dict:
     """
@@ -35,6 +38,8 @@ def dataclass_from_dict_with_validation(cls, data: dict):
     """
     if not is_dataclass(cls):
         raise TypeError(f'{cls} must be a dataclass')
+    if not isinstance(data, dict):
+        raise TypeError(f'{cls.__name__} must be given as a mapping of names to values, but is {data!r}')
 
     # Build kwargs for the dataclass constructor
     kwargs = {}
@@ -43,8 +48,8 @@ def dataclass_from_dict_with_validation(cls, data: dict):
         field_type = field.type
         field_value = data.get(field_name)
 
-        # If the field type is a dataclass and the value is a dict, recursively initialize
-        if is_dataclass(field_type) and isinstance(field_value, dict):
+        # If the field type is a dataclass, recursively initialize
+        if is_dataclass(field_type):
             kwargs[field_name] = dataclass_from_dict_with_validation(field_type, field_value)
         else:
             kwargs[field_name] = field_value  # Pass as-is if no special handling is needed
@@ -114,13 +119,18 @@ class CONFIG:
         # Convert the merged config to ConfigSchema
         config_data = dataclass_from_dict_with_validation(ConfigSchema, new_config)
 
+        # This may fail (log file), so set it up before anything is stored
+        setup_logging(
+            default_level=config_data.logging.level,
+            log_file=config_data.logging.file,
+            use_rich_handler=config_data.logging.rich,
+        )
+
         # Store the configuration in the class as class attributes
         cls.logging = config_data.logging
         cls.modeling = config_data.modeling
         cls.config_name = config_data.config_name
 
-        setup_logging(default_level=cls.logging.level, log_file=cls.logging.file, use_rich_handler=cls.logging.rich)
-
     @classmethod
     def to_dict(cls):
         """
@@ -229,14 +239,21 @@ def setup_logging(
 ):
     """Setup logging configuration"""
     logger = logging.getLogger('flixOpt')  # Use a specific logger name for your package
-    logger.setLevel(get_logging_level_by_name(default_level))
-    # Clear existing handlers
-    if logger.hasHandlers():
-        logger.handlers.clear()
 
-    logger.addHandler(_get_logging_handler(use_rich_handler=use_rich_handler))
+    # Everything that may fail comes first, so that the logger is either set up completely or not changed at all
+    logging_level = get_logging_level_by_name(default_level)
+    new_handlers = [_get_logging_handler(use_rich_handler=use_rich_handler)]
     if log_file is not None:
-        logger.addHandler(_get_logging_handler(log_file, use_rich_handler=False))
+        new_handlers.append(_get_logging_handler(log_file, use_rich_handler=False))
+
+    logger.setLevel(logging_level)
+    logger.handlers[:] = new_handlers  # Replace existing handlers
+
+    # Release the log file of the previous setup
+    for handler in _current_handlers:
+        with contextlib.suppress(OSError):
+            handler.close()
+    _current_handlers[:] = new_handlers
 
     return logger
 
-- 
2.43.0


From e7f8c56b4f1bf9f0555fcce1b4a8d90154b53d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:06 +0000
Subject: [PATCH 38/47] fix: a size or a maximum or fixed investment size of 0
 is a bound, not a missing value

---
 flixOpt/elements.py  | 2 +-
 flixOpt/features.py  | 4 ++--
 flixOpt/interface.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 391b811..88a1929 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -217,7 +217,7 @@ class Flow(Element):
             previous flow rate of the component.
         """
         super().__init__(label, meta_data=meta_data)
-        self.size = size or CONFIG.modeling.BIG  # Default size
+        self.size = size if size is not None else CONFIG.modeling.BIG  # Default size
         self.relative_minimum = relative_minimum
         self.relative_maximum = relative_maximum
         self.fixed_relative_profile = fixed_relative_profile
diff --git a/flixOpt/features.py b/flixOpt/features.py
index 10b7c53..31892bb 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -60,7 +60,7 @@ class InvestmentModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         invest_parameters = self._invest_parameters
-        if invest_parameters.fixed_size and not invest_parameters.optional:
+        if invest_parameters.fixed_size is not None and not invest_parameters.optional:
             self.size = create_variable('size', self, 1, fixed_value=invest_parameters.fixed_size)
         else:
             lower_bound = 0 if invest_parameters.optional else invest_parameters.minimum_size
@@ -117,7 +117,7 @@ class InvestmentModel(ElementModel):
             self._segments.do_modeling(system_model)
 
     def _create_bounds_for_optional_investment(self, system_model: SystemModel):
-        if self._invest_parameters.fixed_size:
+        if self._invest_parameters.fixed_size is not None:
             # eq: investment_size = isInvested * fixed_size
             eq_is_invested = create_equation('is_invested', self, 'eq')
             eq_is_invested.add_summand(self.size, -1)
diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 1876f86..d782acd 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -76,7 +76,7 @@ class InvestParameters(Interface):
         self.specific_effects: EffectValuesInvest = specific_effects or {}
         self.effects_in_segments = effects_in_segments
         self._minimum_size = minimum_size
-        self._maximum_size = maximum_size or CONFIG.modeling.BIG  # default maximum
+        self._maximum_size = maximum_size if maximum_size is not None else CONFIG.modeling.BIG  # default maximum
 
     def transform_data(self):
         from .effects import as_effect_dict
@@ -87,11 +87,11 @@ class InvestParameters(Interface):
 
     @property
     def minimum_size(self):
-        return self.fixed_size or self._minimum_size
+        return self.fixed_size if self.fixed_size is not None else self._minimum_size
 
     @property
     def maximum_size(self):
-        return self.fixed_size or self._maximum_size
+        return self.fixed_size if self.fixed_size is not None else self._maximum_size
 
 
 class OnOffParameters(Interface):
-- 
2.43.0


From 7a146dcce8678ea6e939ea8985d41623bd80a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 39/47] fix: aggregation periods of several steps of a fraction
 of an hour, e.g. 0.3 hours of 0.1 hours each, were refused

---
 flixOpt/aggregation.py | 4 ++--
 flixOpt/calculation.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index 31d5922..1caa118 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -90,8 +90,8 @@ class Aggregation:
         self.tsam = tsam.TimeSeriesAggregation(
             self.original_data,
             noTypicalPeriods=self.nr_of_periods,
-            hoursPerPeriod=self.hours_per_period,
-            resolution=self.hours_per_time_step,
+            hoursPerPeriod=round(self.hours_per_period / self.hours_per_time_step),  # in time steps, which is exact
+            resolution=1,
             clusterMethod='k_means',
             extremePeriodMethod='new_cluster_center'
             if self.use_extreme_periods
diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index e472008..bb008ba 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -286,7 +286,8 @@ class AggregatedCalculation(Calculation):
                 f'delta_t varies from {dt_min} to {dt_max} hours.'
             )
         steps_per_period = self.aggregation_parameters.hours_per_period / dt_in_hours[0]
-        if not steps_per_period.is_integer():
+        # fractions of an hour are not exact: 0.3 hours are 3 steps of 0.1 hours
+        if round(steps_per_period) < 1 or not np.isclose(steps_per_period, round(steps_per_period), rtol=0, atol=1e-6):
             raise Exception(
                 f'The selected {self.aggregation_parameters.hours_per_period=} does not match the time '
                 f'step size of {dt_in_hours[0]} hours). It must be a multiple of {dt_in_hours[0]} hours.'
-- 
2.43.0


From 1d1f1feb455a3ae59e2fe1a0fb58a035d499c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 40/47] fix: lower bound and solver state reported for a
 calculation were those of whichever solve used the solver object last

---
 flixOpt/math_modeling.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index a07c546..6a1e26e 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -6,6 +6,7 @@ and translate it into a ModelingLanguage like Pyomo, and the solve it through a
 Multiple solvers are supported.
 """
 
+import copy
 import logging
 import re
 import timeit
@@ -524,7 +525,11 @@ class MathModel:
             variable.reset_result()  # altes Ergebnis löschen (falls vorhanden)
         self.result_of_objective = None
         solver.reset_results()
-        self.model.solve(self, solver)
+        try:
+            self.model.solve(self, solver)
+        finally:
+            # the same solver might solve other models later, which must not change what is reported about this solve
+            self.solver = copy.copy(solver)
         self.duration['Solving'] = round(timeit.default_timer() - t_start, 2)
 
     def results(self) -> Dict[str, Numeric]:
-- 
2.43.0


From 7da4543fcc4ecd4dbcf7a37553d07db58e43b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 41/47] fix: problem and solution files of Gurobi, CPLEX, CBC
 and GLPK were left in the temporary folder after every solve

---
 flixOpt/math_modeling.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 6a1e26e..07d0cc4 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -785,7 +785,6 @@ class GurobiSolver(Solver):
             self._results = self._solver.solve(
                 modeling_language.model,
                 tee=self.solver_output_to_console,
-                keepfiles=True,
                 logfile=self.logfile_name,
                 options={'mipgap': self.mip_gap, 'TimeLimit': self.time_limit_seconds},
             )
@@ -850,7 +849,6 @@ class CplexSolver(Solver):
             self._results = self._solver.solve(
                 modeling_language.model,
                 tee=self.solver_output_to_console,
-                keepfiles=True,
                 logfile=self.logfile_name,
                 options={'mipgap': self.mip_gap, 'timelimit': self.time_limit_seconds},
             )
@@ -943,7 +941,6 @@ class CbcSolver(Solver):
             self._results = self._solver.solve(
                 modeling_language.model,
                 tee=self.solver_output_to_console,
-                keepfiles=True,
                 logfile=self.logfile_name,
                 options={'ratio': self.mip_gap, 'sec': self.time_limit_seconds},
             )
@@ -972,7 +969,6 @@ class GlpkSolver(Solver):
             self._results = self._solver.solve(
                 modeling_language.model,
                 tee=self.solver_output_to_console,
-                keepfiles=True,
                 logfile=self.logfile_name,
                 options={'mipgap': self.mip_gap},
             )
-- 
2.43.0


From ba6ba5e0673cc2be70d0f255c43da6a01a49653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 42/47] fix: HighsSolver ignored solver_output_to_console=False

---
 flixOpt/math_modeling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 07d0cc4..5c843dc 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -893,13 +893,12 @@ class HighsSolver(Solver):
                 'mip_rel_gap': self.mip_gap,
                 'time_limit': self.time_limit_seconds,
                 'log_file': '' if self.logfile_name is None else str(self.logfile_name),
-                # "log_to_console": self.solver_output_to_console,
                 'threads': self.threads,
                 'parallel': 'on',
                 'presolve': 'on',
                 'output_flag': True,
             }
-            self._solver.config.stream_solver = True
+            self._solver.config.stream_solver = self.solver_output_to_console
 
             self._results = self._solver.solve(
                 modeling_language.model
-- 
2.43.0


From 5573ff57e96114cd91b6daf338acef5cbfb115a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 43/47] fix: a network visualization can be saved at any path,
 without touching other files or opening the browser

---
 flixOpt/plotting.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index a9e5d9b..fe4154a 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -662,7 +662,12 @@ def visualize_network(
         logger.warning("Please install pyvis to visualize the network: 'pip install pyvis'")
         return None
 
-    net = Network(directed=True, height='100%' if controls is False else '800px', font_color='white')
+    net = Network(
+        directed=True,
+        height='100%' if controls is False else '800px',
+        font_color='white',
+        cdn_resources='remote',  # The html file doesn't need other files
+    )
 
     for node_id, node in node_infos.items():
         net.add_node(
@@ -693,10 +698,13 @@ def visualize_network(
         return net
     elif path:
         path = pathlib.Path(path) if isinstance(path, str) else path
-        net.write_html(path.as_posix())
     elif show:
         path = pathlib.Path('network.html')
-        net.write_html(path.as_posix())
+
+    # Network.write_html() can't write to absolute paths, always opens the browser and replaces './lib'
+    html = net.generate_html()
+    with open(path, 'w', encoding='utf-8') as f:
+        f.write(html)
 
     if show:
         try:
-- 
2.43.0


From 6dcf9b3728a891decddef4d83ea79f89fb00f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 44/47] fix: the visualization of a network is returned when it
 is saved or shown

---
 flixOpt/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index fe4154a..fee483d 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -719,3 +719,5 @@ def visualize_network(
             logger.warning(
                 f'Showing the network in the Browser went wrong. Open it manually. Its saved under {path}: {e}'
             )
+
+    return net
-- 
2.43.0


From 09b63d13fa7540f6d641d7b2000e49295367d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 45/47] fix: plot_storage accepts a pathlib.Path

---
 flixOpt/results.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index 7928b61..4604b82 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -352,6 +352,7 @@ class CalculationResults:
 
         if path == 'auto':
             path = self.folder / f'{title} ({mode}).html'
+        if isinstance(path, pathlib.Path):
             path = path.as_posix()
         if show:
             plotly.offline.plot(fig, filename=path)
-- 
2.43.0


From 7f078300aca8a40e1a2a8c49d67adc353c5345bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 46/47] fix: heatmap of a flow that is always zero

---
 flixOpt/results.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index 4604b82..4b6b17b 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -269,10 +269,11 @@ class CalculationResults:
             else:
                 path = self.folder / f'{title} ({mode}).{file_suffix}'
 
-        data = self.to_dataframe(
-            label, variable_name, input_factor=-1 if not invert else 1, output_factor=1 if not invert else -1
-        )
+        factors = {'input_factor': -1 if not invert else 1, 'output_factor': 1 if not invert else -1}
+        data = self.to_dataframe(label, variable_name, **factors)
         if mode == 'heatmap':
+            if data.empty:  # All values are (almost) zero, which can be shown as well
+                data = self.to_dataframe(label, variable_name, **factors, threshold=None)
             heatmap_data = plotting.heat_map_data_from_df(data, heatmap_periods, heatmap_steps_per_period, 'ffill')
 
         if engine == 'plotly':
-- 
2.43.0


From e6235b6158cd4427b16cafd9dfa666afa53d9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 47/47] fix: on variables of a Transmission depend on its
 absolute losses in all time ranges, so that models of parts of them are alike

---
 flixOpt/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index ba78663..595e3fa 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -330,8 +330,8 @@ class TransmissionModel(ComponentModel):
 
     def do_modeling(self, system_model: SystemModel):
         """Initiates all FlowModels"""
-        # Force On Variable if absolute losses are present
-        if (self.element.absolute_losses is not None) and np.any(self.element.absolute_losses.active_data != 0):
+        # Force On Variable if absolute losses are present (in any time range, so that all models are alike)
+        if (self.element.absolute_losses is not None) and np.any(self.element.absolute_losses.data != 0):
             for flow in self.element.inputs + self.element.outputs:
                 if flow.on_off_parameters is None:
                     flow.on_off_parameters = OnOffParameters()
-- 
2.43.0

