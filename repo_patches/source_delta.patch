From da6fea736ab8d22189f0fc758ee11ba1710b8b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:07 +0000
Subject: [PATCH 01/26] fix: keep the break points either side of the flow when
 pricing lossy interconnectors

The linear model used for pricing kept the three break points closest to the flow.
With unevenly spaced break points these need not include both ends of the segment
in use, so prices came out as NaN or not marginal.
---
 src/nempy/markets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index be76993..e92902d 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3163,7 +3163,12 @@ class SpotMarket:
         vars['distance'] = (vars['value'] - vars['break_point']).abs()
 
         def not_closest_three(df):
-            df = df.sort_values('distance')
+            # The two break points either side of the flow must always be kept, when break points are unevenly spaced
+            # they are not necessarily amongst the three closest to the flow.
+            below = df['break_point'][df['break_point'] <= df['value']].max()
+            above = df['break_point'][df['break_point'] >= df['value']].min()
+            df = df.assign(not_adjacent=~df['break_point'].isin([below, above]))
+            df = df.sort_values(['not_adjacent', 'distance'])
             df = df.iloc[3:, :]
             return df
 
-- 
2.43.0


From 70910edf0c57d881892084284424359762c03787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:59 +0000
Subject: [PATCH 02/26] fix: tie break constraints for every pair of tied bids

Pairs were de-duplicated by a name built from the concatenated unit and band names, different pairs
could share a name (and dispatch type was ignored), dropping tie break constraints. Units with both a
generator and load side were duplicated by the merge with regions. A market without tied bids raised.
---
 src/nempy/markets.py                              |  9 +++++----
 src/nempy/spot_market_backend/unit_constraints.py | 14 +++-----------
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index e92902d..22ef0cc 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2847,10 +2847,11 @@ class SpotMarket:
         lhs, rhs = unit_constraints.tie_break_constraints(price_bids, bid_decision_variables,
                                                           unit_regions, self._next_constraint_id)
 
-        self._lhs_coefficients['tie_break'] = lhs
-        self._constraints_rhs_and_type['tie_break'] = rhs
-        self._next_constraint_id = rhs['constraint_id'].max() + 1
-        self.make_constraints_elastic('tie_break', violation_cost=cost)
+        if not rhs.empty:
+            self._lhs_coefficients['tie_break'] = lhs
+            self._constraints_rhs_and_type['tie_break'] = rhs
+            self._next_constraint_id = rhs['constraint_id'].max() + 1
+            self.make_constraints_elastic('tie_break', violation_cost=cost)
 
     def dispatch(self, energy_market_ceiling_price=None, energy_market_floor_price=None, fcas_market_ceiling_price=None,
                  allow_over_constrained_dispatch_re_run=False):
diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index dd9fc8d..57e98d6 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -561,21 +561,13 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
     energy_price_bids = pd.merge(energy_price_bids,
                                  bid_decision_variables.loc[:, ['variable_id', 'upper_bound']],
                                  on='variable_id')
-    energy_price_bids = pd.merge(energy_price_bids, unit_regions.loc[:, ['unit', 'region']], on='unit')
+    energy_price_bids = pd.merge(energy_price_bids, unit_regions.loc[:, ['unit', 'region']].drop_duplicates(), on='unit')
 
     constraints = pd.merge(energy_price_bids, energy_price_bids, on=['cost', 'region', 'dispatch_type'])
     constraints = constraints[constraints['unit_x'] != constraints['unit_y']]
 
-    def make_id(unit_x, band_x, unit_y, band_y):
-        name = sorted([unit_x, str(band_x), unit_y, str(band_y)])
-        name = ''.join(name)
-        return name
-
-    constraints['name'] = \
-        constraints.apply(lambda x: make_id(x['unit_x'], x['capacity_band_x'],
-                                            x['unit_y'], x['capacity_band_y']), axis=1)
-
-    constraints = constraints.drop_duplicates('name')
+    # Keep just one constraint for each pair of bids.
+    constraints = constraints[constraints['variable_id_x'] < constraints['variable_id_y']]
 
     constraints = constraints.loc[:, ['variable_id_x', 'upper_bound_x', 'variable_id_y', 'upper_bound_y']]
     constraints = hf.save_index(constraints, 'constraint_id', next_constraint_id)
-- 
2.43.0


From 8a343d68c95ca019dee712184eff21693fa9c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:31 +0000
Subject: [PATCH 03/26] fix: redefining a constraint set replaces all of the
 previous definition

Deficit variables (and their lhs terms and costs) of an earlier elastic definition, and ramping
constraint groups for which the new call has no units, were left behind, so that the next dispatch failed or
enforced constraints that were no longer defined. Ramp and joint ramping constraints can now also
be set (and made elastic) when only some of the groups have units.
---
 src/nempy/markets.py | 82 ++++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 22ef0cc..0198c13 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -524,6 +524,7 @@ class SpotMarket:
             self._next_constraint_id,
             self._bidirectional_units
         )
+        self._discard_constraints('unit_bid_capacity')
         self._constraints_rhs_and_type['unit_bid_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['unit_bid_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -635,6 +636,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
+        self._discard_constraints('uigf_capacity')
         self._constraints_rhs_and_type['uigf_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -846,17 +848,21 @@ class SpotMarket:
             ramp_details, run_type, fast_start_profiles, self.dispatch_interval
         )
 
-        rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
-                                                              self.dispatch_interval)
-        self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
-        self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        for key in ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']:
+            self._discard_constraints(key)
 
-        rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
-                                                              self.dispatch_interval)
-        self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
-        self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        if not ramp_details.empty:
+            rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
+                                                                  self.dispatch_interval)
+            self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
+            self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+
+            rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
+                                                                    self.dispatch_interval)
+            self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
+            self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not bidirectional_unit_ramp_details.empty:
 
@@ -873,13 +879,9 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('ramp_up', violation_cost)
-            self.make_constraints_elastic('ramp_down', violation_cost)
-
-            if 'bidirectional_ramp_up' in self._constraint_to_variable_map['unit_level'].keys():
-                self.make_constraints_elastic('bidirectional_ramp_up', violation_cost)
-            if 'bidirectional_ramp_down' in self._constraint_to_variable_map['unit_level'].keys():
-                self.make_constraints_elastic('bidirectional_ramp_down', violation_cost)
+            for key in ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']:
+                if key in self._constraints_rhs_and_type:
+                    self.make_constraints_elastic(key, violation_cost)
 
     def _validate_ramp_rates(self, ramp_details):
         schema = dv.DataFrameSchema(name='ramp_details', primary_keys=['unit', 'dispatch_type'])
@@ -1030,6 +1032,7 @@ class SpotMarket:
 
         rhs_and_type, variable_map = unit_constraints.create_fast_start_profile_constraints(
             fast_start_profiles, self._next_constraint_id)
+        self.remove_fast_start_constraints()
         if not rhs_and_type.empty:
             self._constraints_rhs_and_type['fast_start'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['fast_start'] = variable_map
@@ -1038,13 +1041,7 @@ class SpotMarket:
                 self.make_constraints_elastic('fast_start', violation_cost)
 
     def remove_fast_start_constraints(self):
-        if 'fast_start' in self._constraints_rhs_and_type:
-            del self._constraints_rhs_and_type['fast_start']
-            del self._constraint_to_variable_map['unit_level']['fast_start']
-        if 'fast_start_deficit' in self._decision_variables:
-            del self._decision_variables['fast_start_deficit']
-            del self._objective_function_components['fast_start_deficit']
-            del self._lhs_coefficients['fast_start_deficit']
+        self._discard_constraints('fast_start')
 
     def _validate_fast_start_profiles(self, fast_start_profiles):
         schema = dv.DataFrameSchema(name='fast_start_profiles', primary_keys=['unit'])
@@ -1137,6 +1134,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_demand(demand)
         rhs_and_type, variable_map = market_constraints.energy(demand, self._next_constraint_id)
+        self._discard_constraints('demand')
         self._market_constraints_rhs_and_type['demand'] = rhs_and_type
         self._constraint_to_variable_map['regional']['demand'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1242,6 +1240,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
         rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
+        self._discard_constraints('fcas')
         self._market_constraints_rhs_and_type['fcas'] = rhs_and_type
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1341,6 +1340,7 @@ class SpotMarket:
             self._validate_fcas_max_availability(fcas_max_availability)
         rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
                                                                             self._next_constraint_id)
+        self._discard_constraints('fcas_max_availability')
         self._constraints_rhs_and_type['fcas_max_availability'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['fcas_max_availability'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1508,6 +1508,11 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        joint_ramping_keys = ['joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
+                              'joint_ramping_lower_reg_bdu']
+        for key in joint_ramping_keys:
+            self._discard_constraints(key)
+
         bid_variables = self._decision_variables['bids']
 
         raise_reg_units = \
@@ -1593,12 +1598,9 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
-            self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
-            if 'joint_ramping_raise_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
-                self.make_constraints_elastic('joint_ramping_raise_reg_bdu', violation_cost)
-            if 'joint_ramping_lower_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
-                self.make_constraints_elastic('joint_ramping_lower_reg_bdu', violation_cost)
+            for key in joint_ramping_keys:
+                if key in self._constraints_rhs_and_type:
+                    self.make_constraints_elastic(key, violation_cost)
 
     def _validate_scada_ramp_rates_for_reg(self, ramp_details):
         schema = dv.DataFrameSchema(name='ramp_details', primary_keys=['unit'])
@@ -1722,6 +1724,7 @@ class SpotMarket:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
             contingency_trapeziums, self._bidirectional_units, self._next_constraint_id)
+        self._discard_constraints('joint_capacity')
         self._constraints_rhs_and_type['joint_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1861,6 +1864,7 @@ class SpotMarket:
                 regulation_trapeziums, self._next_constraint_id
 
             )
+        self._discard_constraints('energy_and_regulation_capacity')
         self._constraints_rhs_and_type['energy_and_regulation_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['energy_and_regulation_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -2356,6 +2360,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_generic_constraint_parameters(generic_constraint_parameters)
         type_and_rhs = hf.save_index(generic_constraint_parameters, 'constraint_id', self._next_constraint_id)
+        self._discard_constraints('generic')
         self._constraints_rhs_and_type['generic'] = type_and_rhs.loc[:, ['set', 'constraint_id', 'type', 'rhs']]
         self._next_constraint_id = type_and_rhs['constraint_id'].max() + 1
 
@@ -2613,6 +2618,20 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='coefficient', data_type=np.float64, must_be_real_number=True))
         schema.validate(interconnector_coefficients)
 
+    def _discard_constraints(self, constraints_key):
+        """Remove a constraint set, and its elastic components, so that it can be redefined from scratch."""
+        self._constraints_rhs_and_type.pop(constraints_key, None)
+        self._market_constraints_rhs_and_type.pop(constraints_key, None)
+        self._constraint_to_variable_map['unit_level'].pop(constraints_key, None)
+        self._constraint_to_variable_map['regional'].pop(constraints_key, None)
+        self._lhs_coefficients.pop(constraints_key, None)
+        self._discard_deficit_variables(constraints_key)
+
+    def _discard_deficit_variables(self, constraints_key):
+        self._decision_variables.pop(constraints_key + '_deficit', None)
+        self._objective_function_components.pop(constraints_key + '_deficit', None)
+        self._lhs_coefficients.pop(constraints_key + '_deficit', None)
+
     def make_constraints_elastic(self, constraints_key, violation_cost):
         """Make a set of constraints elastic, so they can be violated at a predefined cost.
 
@@ -2732,6 +2751,8 @@ class SpotMarket:
         else:
             ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
+        self._discard_deficit_variables(constraints_key)
+
         if not rhs_and_type.empty:
             deficit_variables, lhs = elastic_constraints.create_deficit_variables(rhs_and_type, self._next_variable_id)
             self._decision_variables[constraints_key + '_deficit'] = \
@@ -2847,6 +2868,7 @@ class SpotMarket:
         lhs, rhs = unit_constraints.tie_break_constraints(price_bids, bid_decision_variables,
                                                           unit_regions, self._next_constraint_id)
 
+        self._discard_constraints('tie_break')
         if not rhs.empty:
             self._lhs_coefficients['tie_break'] = lhs
             self._constraints_rhs_and_type['tie_break'] = rhs
-- 
2.43.0


From de52c67311a2ecbb2268641778f6dc11e1940184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 04/26] fix: region dispatch summary closes the energy balance
 of every region

Transmission losses divided by the loss factor when power flows out of the end of the interconnector,
the balance scales flow by the factor in both directions. Regions without an interconnector
were dropped from the summary.
---
 src/nempy/markets.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 0198c13..0e648a1 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3568,12 +3568,12 @@ class SpotMarket:
         if self._interconnectors_in_market():
             interconnector_inflow = self._get_interconnector_inflow_by_region()
             dispatch_summary = pd.merge(dispatch_summary, interconnector_inflow, how='outer', on='region')
-            dispatch_summary = dispatch_summary.fillna(0.0)
             transmission_losses = self._get_transmission_losses()
-            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, how='left', on='region')
         if self._interconnectors_have_losses():
             interconnector_losses = self._get_interconnector_losses_by_region()
-            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, how='left', on='region')
+        dispatch_summary = dispatch_summary.fillna(0.0)
         return dispatch_summary
 
     def _get_net_unit_dispatch_by_region(self):
@@ -3685,10 +3685,11 @@ class SpotMarket:
         flows_and_losses = pd.merge(flows_and_losses, loss_factors, on=['interconnector', 'link'])
 
         def calc_losses(direction, flow, loss_factor):
-            if (direction == 'to_region' and flow >= 0.0) or (direction == 'from_region' and flow <= 0.0):
+            # Consistent with the energy balance, where the flow is scaled by the loss factor at each end.
+            if direction == 'to_region':
                 losses = flow * (1 - loss_factor)
-            elif (direction == 'to_region' and flow < 0.0) or (direction == 'from_region' and flow > 0.0):
-                losses = abs(flow) - (abs(flow) / loss_factor)
+            else:
+                losses = -1 * flow * (1 - loss_factor)
             return losses
 
         flows_and_losses['transmission_losses'] = \
-- 
2.43.0


From 15d77acc66aa01c11ffa56409b3b7102e1a3dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:13 +0000
Subject: [PATCH 05/26] fix: load side lower regulation uses up footroom in
 joint capacity constraints of bidirectional units

---
 src/nempy/spot_market_backend/fcas_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 92328e2..2bd17fa 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -298,7 +298,7 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
     regulation_mapping_lower_slope_load_side_of_bidirectionals = (
         regulation_mapping_lower_slope[regulation_mapping_lower_slope['unit'].isin(bidirectional_units)].copy())
     regulation_mapping_lower_slope_load_side_of_bidirectionals['dispatch_type'] = 'load'
-    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = 1.0
+    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = -1.0
 
     # Combine type_and_rhs and variable_mapping.
     type_and_rhs = pd.concat([type_and_rhs_upper_slope, type_and_rhs_lower_slope])
-- 
2.43.0


From 1762852b2e1c7448b23202cd173f6afd24743629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:14 +0000
Subject: [PATCH 06/26] fix: raise the errors that were only constructed

---
 src/nempy/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 0e648a1..330617d 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2206,7 +2206,7 @@ class SpotMarket:
                 from_region_loss_share are outside the range of 0.0 to 1.0
         """
         if 'interconnectors' not in self._decision_variables:
-            ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
+            raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
@@ -2749,7 +2749,7 @@ class SpotMarket:
             self._validate_violation_cost(violation_cost)
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
-            ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
         self._discard_deficit_variables(constraints_key)
 
-- 
2.43.0


From 78c21a8d0348d19202b4efcff96e693ecfbb1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:19 +0000
Subject: [PATCH 07/26] fix: refuse price bids that are not monotonic
 increasing, as documented

---
 src/nempy/spot_market_backend/dataframe_validator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index 29c3e71..cd2b7e2 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -31,18 +31,21 @@ class DataFrameSchema:
         if self.primary_keys is not None:
             self._check_for_repeated_rows(df)
 
+        if self.row_monatonic_increasing is not None:
+            self._check_row_monatonic_increasing(df)
+
     def _check_for_repeated_rows(self, df):
         cols_in_df = [col for col in self.primary_keys if col in df.columns]
         if len(df.index) != len(df.drop_duplicates(cols_in_df)):
             raise RepeatedRowError('{} should only have one row for each {}.'.format(self.name, ' '.join(cols_in_df)))
 
     def _check_row_monatonic_increasing(self, df):
-        df = df.loc[:, self.row_monatonic_increasing]
+        df = df.loc[:, [col for col in self.row_monatonic_increasing if col in df.columns]]
         df = df.transpose()
         df.index = pd.to_numeric(df.index)
         df = df.sort_index()
-        for col in df.columns:
-            if not df[col].is_monotonic:
+        for _, bids in df.items():
+            if not bids.is_monotonic_increasing:
                 raise BidsNotMonotonicIncreasing('Bids of each unit are not monotonic increasing.')
 
 
-- 
2.43.0


From ff2d1b588121535c765071cca953f8fc73758673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:13 +0000
Subject: [PATCH 08/26] fix: solve models with special ordered sets as
 formulated, CBC preprocessing returned inconsistent solutions

---
 src/nempy/spot_market_backend/solver_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 091c2d4..268221e 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -14,6 +14,9 @@ class InterfaceToSolver:
         if solver_name == 'CBC':
             self.mip_model = Model("market", solver_name=CBC)
             self.linear_mip_model = Model("market", solver_name=CBC)
+            # With special ordered sets in the model CBC's preprocessing can return variable values that are neither
+            # optimal nor consistent with the objective value it reports, so solve the model as it was formulated.
+            self.mip_model.preprocess = 0
         elif solver_name == 'GUROBI':
             self.mip_model = Model("market", solver_name=GUROBI)
             self.linear_mip_model = Model("market", solver_name=GUROBI)
-- 
2.43.0


From 2876ba2b6e97e2a85eb522c257999d9fcd7900bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:21 +0000
Subject: [PATCH 09/26] fix: price lossy interconnectors on the loss segment in
 use only

With a third break point left in, the linear model used for pricing could leave the
loss function whenever losses were worth having (negative prices), and the prices were
not those of the dispatch.
---
 src/nempy/markets.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 330617d..9ed094a 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3183,19 +3183,16 @@ class SpotMarket:
                         self._decision_variables['interpolation_weights'].loc[:, ['interconnector', 'link',
                                                                                   'break_point', 'variable_id']],
                         on=['interconnector', 'link'])
-        vars['distance'] = (vars['value'] - vars['break_point']).abs()
-
-        def not_closest_three(df):
-            # The two break points either side of the flow must always be kept, when break points are unevenly spaced
-            # they are not necessarily amongst the three closest to the flow.
-            below = df['break_point'][df['break_point'] <= df['value']].max()
-            above = df['break_point'][df['break_point'] >= df['value']].min()
-            df = df.assign(not_adjacent=~df['break_point'].isin([below, above]))
-            df = df.sort_values(['not_adjacent', 'distance'])
-            df = df.iloc[3:, :]
-            return df
-
-        vars_to_remove = vars.groupby(['interconnector', 'link'], as_index=False).apply(not_closest_three, include_groups=False)
+
+        def not_next_to_flow(df, tol=1e-6):
+            # Keep the break points either side of the flow, and the break point the flow is at, if it is at one. Keeping
+            # any other break points would allow the linear model to move away from the loss function.
+            below = df['break_point'][df['break_point'] < df['value'] - tol].max()
+            above = df['break_point'][df['break_point'] > df['value'] + tol].min()
+            at_flow = (df['break_point'] - df['value']).abs() <= tol
+            return df[~(df['break_point'].isin([below, above]) | at_flow)]
+
+        vars_to_remove = vars.groupby(['interconnector', 'link'], as_index=False).apply(not_next_to_flow, include_groups=False)
         si.disable_variables(vars_to_remove.loc[:, ['variable_id']])
 
     def get_constraint_set_names(self):
-- 
2.43.0


From a2f5b6d0e3cc37707076a6131dbe514ef74c54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:34 +0000
Subject: [PATCH 10/26] fix: the service column of the last interval dispatch
 is optional, as documented

---
 src/nempy/time_sequential.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index c79cb52..fb796a5 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -66,7 +66,9 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
 
 
     """
-    last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    last_interval_energy_dispatch = last_interval_dispatch
+    if 'service' in last_interval_dispatch.columns:
+        last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
     last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
-- 
2.43.0


From 53354aed48a7c959e865a44f601baff1f15889f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:12 +0000
Subject: [PATCH 11/26] fix: links whose flow is zero up to solver precision
 are unused when pricing

---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 9ed094a..63c330e 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3175,7 +3175,7 @@ class SpotMarket:
     def _disable_unused_link_pair(self, si):
         inter_vars = self._decision_variables['interconnectors']
         inter_vars = inter_vars[inter_vars['interconnector'] != inter_vars['link']]
-        inter_vars_unused = inter_vars[inter_vars['value'] == 0.0]
+        inter_vars_unused = inter_vars[inter_vars['value'].abs() < 1e-6]
         si.disable_variables(inter_vars_unused)
 
     def _remove_unused_interpolation_weights(self, si):
-- 
2.43.0


From 6727b61d0a7c4f55639dbb3a62c2c95a54e032f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:18 +0000
Subject: [PATCH 12/26] fix: price unused links on their loss function when
 they sit at a break point

---
 src/nempy/markets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 63c330e..eb39381 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3184,12 +3184,17 @@ class SpotMarket:
                                                                                   'break_point', 'variable_id']],
                         on=['interconnector', 'link'])
 
+        vars['unused_link'] = (vars['interconnector'] != vars['link']) & (vars['value'].abs() < 1e-6)
+
         def not_next_to_flow(df, tol=1e-6):
             # Keep the break points either side of the flow, and the break point the flow is at, if it is at one. Keeping
             # any other break points would allow the linear model to move away from the loss function.
             below = df['break_point'][df['break_point'] < df['value'] - tol].max()
             above = df['break_point'][df['break_point'] > df['value'] + tol].min()
             at_flow = (df['break_point'] - df['value']).abs() <= tol
+            # The flow of an unused link is fixed, so if it is at a break point only that break point is needed.
+            if df['unused_link'].any() and at_flow.any():
+                return df[~at_flow]
             return df[~(df['break_point'].isin([below, above]) | at_flow)]
 
         vars_to_remove = vars.groupby(['interconnector', 'link'], as_index=False).apply(not_next_to_flow, include_groups=False)
-- 
2.43.0


From 2320d2c4f000872af3fab3437bad8384091dc5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:48 +0000
Subject: [PATCH 13/26] fix: refuse inf, null and negative unit capacities and
 forecasts, as documented

---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index eb39381..714a99b 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -537,7 +537,8 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
         if self.dispatch_type_required:
             schema.add_column(dv.SeriesSchema(name='dispatch_type', data_type=str, allowed_values=['generator', 'load']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.validate(unit_limits)
 
     def set_unconstrained_intermittent_generation_forecast_constraint(self, unit_limits, violation_cost=None):
@@ -647,7 +648,8 @@ class SpotMarket:
     def _validate_uigf_limits(self, unit_limits):
         schema = dv.DataFrameSchema(name='unit_limits', primary_keys=['unit'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.validate(unit_limits)
 
     def set_unit_ramp_rate_constraints(self, ramp_details, scada_ramp_rates=None, fast_start_profiles=None,
-- 
2.43.0


From 8d1c102995af81faba96fc6e401f3d88449c91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:48 +0000
Subject: [PATCH 14/26] fix: refuse violation costs with more than one row per
 set, as documented

---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 714a99b..9c8d084 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2766,7 +2766,7 @@ class SpotMarket:
 
     @staticmethod
     def _validate_violation_cost(violation_cost):
-        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set', 'cost'])
+        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
         schema.add_column(dv.SeriesSchema(name='cost', data_type=np.float64, must_be_real_number=True))
         schema.validate(violation_cost)
-- 
2.43.0


From 6bb1426077c808fd0db2ea4612d3b5c9bc352ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:10 +0000
Subject: [PATCH 15/26] fix: refuse loss shares greater than one, as documented

---
 src/nempy/markets.py                                 | 2 +-
 src/nempy/spot_market_backend/dataframe_validator.py | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 9c8d084..e674397 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2276,7 +2276,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='link', data_type=str))
         schema.add_column(dv.SeriesSchema(name='loss_function', data_type=callable))
         schema.add_column(dv.SeriesSchema(name='from_region_loss_share', data_type=np.float64, must_be_real_number=True,
-                                          not_negative=True))
+                                          not_negative=True, maximum=1.0))
         schema.validate(loss_functions)
 
     @staticmethod
diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index cd2b7e2..2ada085 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -65,6 +65,7 @@ class SeriesSchema:
         self._check_allowed_values(series)
         self._check_is_real_number(series)
         self._check_is_not_negtaive(series)
+        self._check_is_within_range(series)
 
     def _check_data_type(self, series):
         if self.data_type == str:
@@ -95,6 +96,12 @@ class SeriesSchema:
             if series.min() < 0.0:
                 raise ColumnValues("Negative values not allowed in column '{}'.".format(self.name))
 
+    def _check_is_within_range(self, series):
+        if self.min is not None and (series < self.min).any():
+            raise ColumnValues("Values less than {} not allowed in column '{}'.".format(self.min, self.name))
+        if self.max is not None and (series > self.max).any():
+            raise ColumnValues("Values greater than {} not allowed in column '{}'.".format(self.max, self.name))
+
 
 class RepeatedRowError(Exception):
     """Raise for repeated rows."""
-- 
2.43.0


From b83567ce13dc6d6dfcb577a133f29aa28932ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:29 +0000
Subject: [PATCH 16/26] fix: refuse losses of interconnectors that are not in
 the model, as documented

---
 src/nempy/markets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index e674397..8e96bb3 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2220,6 +2220,11 @@ class SpotMarket:
             self._validate_loss_functions(loss_functions)
             self._validate_interpolation_break_points(interpolation_break_points)
 
+        interconnectors_with_losses = pd.concat([loss_functions['interconnector'],
+                                                 interpolation_break_points['interconnector']])
+        if not interconnectors_with_losses.isin(self._interconnector_directions['interconnector']).all():
+            raise ModelBuildError('Losses cannot be set for interconnectors that have not been added to the model.')
+
         self._interconnector_loss_shares = loss_functions.loc[:, ['interconnector', 'link', 'from_region_loss_share']]
 
         loss_functions = pd.merge(loss_functions,
-- 
2.43.0


From 3ff057d85cd4a01abe2a124290dbbe5d08ae457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:29 +0000
Subject: [PATCH 17/26] fix: refuse costs by set for constraints without sets
 with the documented error

---
 src/nempy/markets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 8e96bb3..d2177b8 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2754,6 +2754,8 @@ class SpotMarket:
             rhs_and_type['cost'] = violation_cost
         elif isinstance(violation_cost, pd.DataFrame):
             self._validate_violation_cost(violation_cost)
+            if 'set' not in rhs_and_type.columns:
+                raise dv.MissingColumnError("The constraints {} do not have sets.".format(constraints_key))
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
             raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
-- 
2.43.0


From 6b2914d4d01005f192e2f9c78f754280a3119dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:29 +0000
Subject: [PATCH 18/26] fix: refuse interconnector tables without an
 interconnector column with the documented error

---
 src/nempy/markets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index d2177b8..1057a5c 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1987,7 +1987,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null values in the max and min columns.
         """
-        if 'link' not in interconnector_directions_and_limits.columns:
+        if 'link' not in interconnector_directions_and_limits.columns and 'interconnector' in interconnector_directions_and_limits.columns:
             interconnector_directions_and_limits['link'] = interconnector_directions_and_limits['interconnector']
         if 'from_region_loss_factor' not in interconnector_directions_and_limits.columns:
             interconnector_directions_and_limits['from_region_loss_factor'] = 1.0
@@ -2210,10 +2210,10 @@ class SpotMarket:
         if 'interconnectors' not in self._decision_variables:
             raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
-        if 'link' not in loss_functions.columns:
+        if 'link' not in loss_functions.columns and 'interconnector' in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
 
-        if 'link' not in interpolation_break_points.columns:
+        if 'link' not in interpolation_break_points.columns and 'interconnector' in interpolation_break_points.columns:
             interpolation_break_points['link'] = interpolation_break_points['interconnector']
 
         if self.validate_inputs:
-- 
2.43.0


From 43f5bbc4996160d4189418a3abe66670797b523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:09 +0000
Subject: [PATCH 19/26] fix: EXLEZ without an exchange still applies the factor
 of the term

---
 src/nempy/historical_inputs/rhs_calculator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f7042c3..9d2eb37 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -646,6 +646,9 @@ def _rpn_stack(equation):
             elif term['@Operation'] == 'EXLEZ' and term['@SpdType'] == 'U' and pop_flag:
                 stack = _exchange_if_less_than_zero(stack, term)
                 pop_flag = False
+            elif term['@Operation'] == 'EXLEZ' and term['@SpdType'] == 'U':
+                # No exchange, but the top of the stack is still multiplied by the factor.
+                stack = _type_u_no_operator(stack, term)
     return stack
 
 
-- 
2.43.0


From c6c0138e65edea93834e0fe0eca4818f1ac3ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:09 +0000
Subject: [PATCH 20/26] fix: list a dependent constraint once however many of
 its terms depend on the value

---
 src/nempy/historical_inputs/rhs_calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index 9d2eb37..9674c94 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -391,9 +391,9 @@ class RHSCalc:
         dependent_rhs_equations = []
         for equation_id, equation in self.rhs_constraint_equations.items():
             for term in equation:
-                if ((term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                     dependent_rhs_equations) or (term['@SpdID'] in dependent_generic_equations and
-                                                  term['@SpdType'] == 'X')):
+                if (((term["@SpdID"] == spd_id and term['@SpdType'] == type) or
+                     (term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X'))
+                        and equation_id not in dependent_rhs_equations):
                     dependent_rhs_equations.append(equation_id)
 
         return dependent_rhs_equations
-- 
2.43.0


From 4bdcd4e430464ec9ea856026af916fa522d37bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:59 +0000
Subject: [PATCH 21/26] fix: raise MissingDataError when NEMWeb has no archive
 for the interval

---
 src/nempy/historical_inputs/xml_cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 947597a..f38b82d 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -169,7 +169,11 @@ class XMLCacheManager:
         except zipfile.BadZipFile:
             sleep(200)
             r = requests.get(url)
-            z = zipfile.ZipFile(io.BytesIO(r.content))
+            try:
+                z = zipfile.ZipFile(io.BytesIO(r.content))
+            except zipfile.BadZipFile:
+                # Nothing was downloaded, load_interval raises a MissingDataError.
+                return
             z.extractall(self.cache_folder)
 
     def _get_market_year_month_day(self):
-- 
2.43.0


From c464e12f4ad0ad81b9f66cf81b3e345e0c62b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:59 +0000
Subject: [PATCH 22/26] fix: populate_by_day includes the data of the end date

---
 src/nempy/historical_inputs/xml_cache.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index f38b82d..1542f67 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -6,6 +6,7 @@ import io
 import os
 import numpy as np
 from pathlib import Path
+from calendar import monthrange
 from datetime import datetime, timedelta, time
 from time import sleep
 
@@ -36,21 +37,17 @@ class XMLCacheManager:
     def populate(self, start_year, start_month, end_year, end_month, verbose=True):
         """Download data to the cache from the AEMO website. Data downloaded is inclusive of the start and end month."""
 
-        if end_month == 12:
-            end_month = 1
-            end_year += 1
-        else:
-            end_month += 1
-
         self.populate_by_day(start_year=start_year, start_month=start_month, start_day=1,
-                             end_year=end_year, end_month=end_month, end_day=1, verbose=verbose)
+                             end_year=end_year, end_month=end_month, end_day=monthrange(end_year, end_month)[1],
+                             verbose=verbose)
 
     def populate_by_day(self, start_year, start_month, end_year, end_month, start_day, end_day, verbose=True):
         """Download data to the cache from the AEMO website. Data downloaded is inclusive of the start and end date.
         """
 
         start = datetime(year=start_year, month=start_month, day=start_day) - timedelta(days=1)
-        end = datetime(year=end_year, month=end_month, day=end_day)
+        # The first interval of a date belongs to the market day of the previous date.
+        end = datetime(year=end_year, month=end_month, day=end_day) + timedelta(days=1)
         download_date = start
         while download_date <= end:
             if verbose:
-- 
2.43.0


From fb00fee72416562d16d9b65d9b99432cba802216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:03 +0000
Subject: [PATCH 23/26] fix: bids of cases without semi-scheduled units

The empty table of forecasts got a float unit column, so that joining bids to it
raised a ValueError.
---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 1542f67..5c95577 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -606,7 +606,7 @@ class XMLCacheManager:
             if '@UIGF' in trader:
                 trades_by_unit_and_type['DUID'].append(trader['@TraderID'])
                 trades_by_unit_and_type['UIGF'].append(float(trader['@UIGF']))
-        trades_by_unit_and_type = pd.DataFrame(trades_by_unit_and_type)
+        trades_by_unit_and_type = pd.DataFrame(trades_by_unit_and_type).astype({'DUID': 'object'})
         return trades_by_unit_and_type
 
     def get_violations(self):
-- 
2.43.0


From 43fec9a2ac8fe92093da7395388a672f2fd261fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:03 +0000
Subject: [PATCH 24/26] fix: interconnectors of cases without market
 interconnectors

The empty table of link offers got float columns, so that joining the links to it
raised a ValueError.
---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 5c95577..924c7a8 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -1038,7 +1038,7 @@ class XMLCacheManager:
                     bid_availability['interconnector'].append(inter['@InterconnectorID'])
                     bid_availability['to_region'].append(offer['@RegionID'])
                     bid_availability['availability'].append(float(offer['@MaxAvail']))
-        bid_availability = pd.DataFrame(bid_availability)
+        bid_availability = pd.DataFrame(bid_availability).astype({'interconnector': 'object', 'to_region': 'object'})
         return bid_availability
 
     def find_intervals_with_violations(self, limit, start_year, start_month, end_year, end_month):
-- 
2.43.0


From c08ddf8a312e8dcb649a5853854310ddcacecf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:48 +0000
Subject: [PATCH 25/26] fix: joint ramping of bidirectional units counts the
 energy of both sides

---
 src/nempy/spot_market_backend/fcas_constraints.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 2bd17fa..82ae4d9 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -16,7 +16,9 @@ def joint_ramping_constraints_raise_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = 1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
+    # The unit ramps as one device, so the energy of both sides counts whichever sides offer regulation.
+    variable_mapping_energy = pd.merge(rhs_and_type.loc[:, ['constraint_id', 'unit']],
+                                       pd.DataFrame({'dispatch_type': ['generator', 'load']}), how='cross')
     variable_mapping_energy['service'] = 'energy'
     variable_mapping_energy['coefficient'] = 1.0
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
@@ -36,7 +38,9 @@ def joint_ramping_constraints_lower_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = -1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
+    # The unit ramps as one device, so the energy of both sides counts whichever sides offer regulation.
+    variable_mapping_energy = pd.merge(rhs_and_type.loc[:, ['constraint_id', 'unit']],
+                                       pd.DataFrame({'dispatch_type': ['generator', 'load']}), how='cross')
     variable_mapping_energy['service'] = 'energy'
     variable_mapping_energy['coefficient'] = 1.0
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
-- 
2.43.0


From 6d298cba2f61eecb605a796600bc3782abd6f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:32 +0000
Subject: [PATCH 26/26] fix: calls on a market leave the tables they are given
 alone

---
 src/nempy/markets.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 1057a5c..91abb28 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -121,6 +121,7 @@ class SpotMarket:
         self.solver_name = 'CBC'
         self.objective_value = None
 
+        unit_info = unit_info.copy()
         if 'loss_factor' not in unit_info.columns:
             unit_info['loss_factor'] = 1.0
 
@@ -258,6 +259,7 @@ class SpotMarket:
             self._validate_volume_bids(volume_bids)
 
         self._validate_bidirectional_unit_inputs(volume_bids, "volume_bids")
+        volume_bids = volume_bids.copy()
 
         self._decision_variables['bids'], variable_to_unit_level_constraint_map, variable_to_regional_constraint_map, = \
             variable_ids.bids(volume_bids, self._unit_info, self._next_variable_id, self._bidirectional_units)
@@ -397,6 +399,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_price_bids(price_bids)
         self._validate_bidirectional_unit_inputs(price_bids, "price_bids")
+        price_bids = price_bids.copy()
         energy_objective_function = objective_function.bids(self._decision_variables['bids'], price_bids)
         energy_objective_function = objective_function.scale_by_loss_factors(energy_objective_function, self._unit_info)
         self._objective_function_components['bids'] = \
@@ -519,6 +522,7 @@ class SpotMarket:
         """
         self._check_unit_volume_bids_set()
         self._validate_unit_limits(unit_limits)
+        unit_limits = unit_limits.copy()
         rhs_and_type, variable_map = unit_constraints.capacity(
             unit_limits,
             self._next_constraint_id,
@@ -636,6 +640,7 @@ class SpotMarket:
         """
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
+        unit_limits = unit_limits.copy()
         rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
         self._discard_constraints('uigf_capacity')
         self._constraints_rhs_and_type['uigf_capacity'] = rhs_and_type
@@ -830,6 +835,7 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        ramp_details = ramp_details.copy()
         if "dispatch_type" not in ramp_details.columns:
             ramp_details["dispatch_type"] = "generator"
 
@@ -1241,6 +1247,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
+        fcas_requirements = fcas_requirements.copy()
         rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
         self._discard_constraints('fcas')
         self._market_constraints_rhs_and_type['fcas'] = rhs_and_type
@@ -1340,6 +1347,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_fcas_max_availability(fcas_max_availability)
+        fcas_max_availability = fcas_max_availability.copy()
         rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
                                                                             self._next_constraint_id)
         self._discard_constraints('fcas_max_availability')
@@ -1724,6 +1732,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_contingency_trapeziums(contingency_trapeziums)
+        contingency_trapeziums = contingency_trapeziums.copy()
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
             contingency_trapeziums, self._bidirectional_units, self._next_constraint_id)
         self._discard_constraints('joint_capacity')
@@ -1861,6 +1870,7 @@ class SpotMarket:
         """
         if variable_ids:
             self._validate_regulation_trapeziums(regulation_trapeziums)
+        regulation_trapeziums = regulation_trapeziums.copy()
         rhs_and_type, variable_map = \
             fcas_constraints.energy_and_regulation_capacity_constraints(
                 regulation_trapeziums, self._next_constraint_id
@@ -1987,6 +1997,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null values in the max and min columns.
         """
+        interconnector_directions_and_limits = interconnector_directions_and_limits.copy()
         if 'link' not in interconnector_directions_and_limits.columns and 'interconnector' in interconnector_directions_and_limits.columns:
             interconnector_directions_and_limits['link'] = interconnector_directions_and_limits['interconnector']
         if 'from_region_loss_factor' not in interconnector_directions_and_limits.columns:
@@ -2210,6 +2221,8 @@ class SpotMarket:
         if 'interconnectors' not in self._decision_variables:
             raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
+        loss_functions = loss_functions.copy()
+        interpolation_break_points = interpolation_break_points.copy()
         if 'link' not in loss_functions.columns and 'interconnector' in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
 
@@ -2453,6 +2466,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_unit_coefficients(unit_coefficients)
+        unit_coefficients = unit_coefficients.copy()
         self._generic_constraint_lhs['unit'] = unit_coefficients
 
     def _validate_generic_unit_coefficients(self, unit_coefficients):
@@ -2539,6 +2553,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_region_coefficients(region_coefficients)
+        region_coefficients = region_coefficients.copy()
         self._generic_constraint_lhs['region'] = region_coefficients
 
     def _validate_generic_region_coefficients(self, region_coefficients):
@@ -2616,6 +2631,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_interconnector_coefficients(interconnector_coefficients)
+        interconnector_coefficients = interconnector_coefficients.copy()
         self._generic_constraint_lhs['interconnectors'] = interconnector_coefficients
 
     def _validate_generic_interconnector_coefficients(self, interconnector_coefficients):
-- 
2.43.0

