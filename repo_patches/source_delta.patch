From 3424763d849e4e58b4e3334dc8bb73976a7ac72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 01/37] fix: ignore entries left over from before a clear when
 assembling the matrix

Stamps whose value is exactly zero are skipped, so an iteration can stamp fewer
entries than the one before. The remaining slots still held the previous
iteration's values and were added to the matrix.
---
 src/logic/stamping/matrixbuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logic/stamping/matrixbuilder.py b/src/logic/stamping/matrixbuilder.py
index 12fc79d..c9fd1be 100644
--- a/src/logic/stamping/matrixbuilder.py
+++ b/src/logic/stamping/matrixbuilder.py
@@ -45,7 +45,9 @@ class MatrixBuilder:
         if self.settings.debug and self._max_index != self._index:
             raise Exception("Solver was not fully utilized. Garbage data remains")
 
-        return csc_matrix((self._val, (self._row, self._col)), dtype=np.float64)
+        #Entries past the current index are left over from before the last clear.
+        end = self._index
+        return csc_matrix((self._val[:end], (self._row[:end], self._col[:end])), dtype=np.float64)
 
     def get_row(self, row_idx):
         for idx in range(self._index):
-- 
2.43.0


From 934ffd216e5cf5db76bec83f45c427a52e04d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:23 +0000
Subject: [PATCH 02/37] fix: evaluate residuals at the voltages they are
 reported for

The inputs were not refreshed when residuals were calculated in the iteration
that had just been stamped, so the convergence test and the reported residuals
described the previous iterate instead of the returned solution.
---
 src/logic/stamping/matrixstamper.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/logic/stamping/matrixstamper.py b/src/logic/stamping/matrixstamper.py
index ce818f0..287c212 100644
--- a/src/logic/stamping/matrixstamper.py
+++ b/src/logic/stamping/matrixstamper.py
@@ -261,9 +261,6 @@ class InputBuilder():
         self.inputs: Dict[str, StampInput]
 
         self.input_indexes = []
-
-        # We utilize this to know if we actually need to update our previous iteration information.
-        self.iteration_num = -1
     
     def add_input(self, input: StampInput):
         if input.key not in self.inputs:
@@ -306,14 +303,9 @@ class InputBuilder():
                 
             instance_idx += 1
 
-    def update_vprev(self, v_prev, iteration_num):
-        if iteration_num == self.iteration_num:
-            return
-        
+    def update_vprev(self, v_prev):
         for arg_index, instance_idx, v_idx in self.input_fills:
             self.args[arg_index][instance_idx] = v_prev[v_idx]
-            
-        self.iteration_num = iteration_num
         
     def update_txfactor(self, tx_factor):
         if self.tx_factor_index != SKIP:
@@ -443,14 +435,14 @@ class MatrixStamper():
 
     def stamp_nonlinear(self, Y: MatrixBuilder, J, v_prev, iteration_num):
         for input_builder in self.input_builders:
-            input_builder.update_vprev(v_prev, iteration_num)
+            input_builder.update_vprev(v_prev)
         
         for stamp_set in self.nonlinear_sets:
             stamp_set.stamp(Y, J)
 
     def __calc_residuals_iter(self, tx_factor, v_result, iteration_num):
         for input_builder in self.input_builders:
-            input_builder.update_vprev(v_result, iteration_num)
+            input_builder.update_vprev(v_result)
         
         for input_builder in self.input_builders:
             input_builder.update_txfactor(tx_factor)
-- 
2.43.0


From c79815213866db42c4528a919005a5983af6acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 03/37] fix: report swing bus and transformer power as V times
 conjugate of I

The active and reactive power were calculated as Vr*Ir and Vi*Ii, which is only
the real part's first term and its second term, so power was wrong for every
angle other than zero.
---
 src/logic/powerflowresults.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index bc266ef..39f3198 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -152,8 +152,8 @@ class PowerFlowResults:
             Vi = v_final[slack.bus.node_Vi]
             slack_Ir = v_final[slack.get_slack_Ir_index()]
             slack_Ii = v_final[slack.get_slack_Ii_index()]
-            P = Vr * slack_Ir
-            Q = Vi * slack_Ii
+            P = Vr * slack_Ir + Vi * slack_Ii
+            Q = Vi * slack_Ir - Vr * slack_Ii
             self.generator_results.append(GeneratorResult(slack, P, Q, GENTYPE.Slack)) 
 
         self.max_residual = self.residuals.max_residual
@@ -312,11 +312,13 @@ class TransformerResult:
 
     def get_P(self):
         Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
-        return Vr_pri * self.Ir_prim
+        Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
+        return Vr_pri * self.Ir_prim + Vi_pri * self.Ii_prim
 
     def get_Q(self):
+        Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
         Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
-        return Vi_pri * self.Ii_prim
+        return Vi_pri * self.Ir_prim - Vr_pri * self.Ii_prim
 
     def __str__(self) -> str:
         return f'Transformer from bus {self.transformer.from_bus_pos.Bus} and {self.transformer.from_bus_neg.Bus} to {self.transformer.to_bus_pos.Bus} and {self.transformer.to_bus_neg.Bus} P (MW): {"{:.2f}".format(self.get_P())}, Q (MVar): {"{:.2f}".format(self.get_Q())}'
-- 
2.43.0


From b5c3304428b74537a1c29fc809dd9b5616addb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 04/37] fix: do not negate all loads when no load factor is
 given on the command line

---
 src/run_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_solver.py b/src/run_solver.py
index 8a26348..505fc0f 100644
--- a/src/run_solver.py
+++ b/src/run_solver.py
@@ -27,7 +27,7 @@ def main():
     parser.add_argument("--debug", required=False, action='store_true')
     parser.add_argument("--verbose", required=False, action='store_true')
     parser.add_argument("--infeasibility", required=False, default=False, action='store_true')
-    parser.add_argument("--load_factor", required=False, default=-1)
+    parser.add_argument("--load_factor", required=False, default=1)
     parser.add_argument("--tx_stepping", required=False, default=False, action='store_true')
     parser.add_argument("--select_island", required=False, default=False)
     args = parser.parse_args()
-- 
2.43.0


From 68777faa42617bc23cb4b749c9222decb12e6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 05/37] fix: initialize the imaginary multiplier of a bus at
 its own index

---
 src/models/components/bus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/components/bus.py b/src/models/components/bus.py
index 8860183..3cc7849 100644
--- a/src/models/components/bus.py
+++ b/src/models/components/bus.py
@@ -71,7 +71,7 @@ class Bus:
         return (self.node_lambda_Vr, 1e-4)
 
     def get_Li_init(self):
-        return (self.node_lambda_Vr, 1e-4)
+        return (self.node_lambda_Vi, 1e-4)
 
     def assign_nodes(self, node_index, optimization_enabled):
         self.node_Vr = next(node_index)
-- 
2.43.0


From 6f4a3ea6bac23c266a7dc94ec60f4d3dc7ace69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 06/37] fix: keep a load's power factor after an hour with zero
 load

---
 src/logic/network/timeseriesprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index c07c545..070feea 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -20,6 +20,7 @@ class TimeSeriesProcessor:
     def __init__(self, settings: TimeSeriesSettings, powerflow: PowerFlow):
         self.settings = settings
         self.powerflow = powerflow
+        self.load_angles = {}
         if self.settings.loadfile_name is not None:
             self.load_data = read_csv(self.settings.loadfile_name)
         if self.settings.select_island and self.settings.artificialswingbus is not None:
@@ -151,7 +152,8 @@ class TimeSeriesProcessor:
                 magnitude = self.load_data[load_name][hour]
             except:
                 continue
-            angle = math.atan2(load_obj.Q,load_obj.P)
+            #Keep the load's own power factor: an hour without any load would otherwise lose it.
+            angle = self.load_angles.setdefault(load_name, math.atan2(load_obj.Q,load_obj.P))
             load_obj.P = magnitude * math.cos(angle)
             load_obj.Q = magnitude * math.sin(angle)
     
-- 
2.43.0


From b08968efd09612e868c864c72573618d04806635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 07/37] fix: overhead line capacitance: units, conductor images
 and missing heights

The conductor radius was taken in inches while spacings are in feet, the image
distance was only right for conductors of equal height, configurations without
heights used the -1 placeholder as a distance, and the shunt admittance was
halved here and again when it is stamped at each end of the line.
---
 src/ditto/readers/gridlabd/line_impedance.py | 34 ++++++--------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 6fdffed..6bd0663 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -480,7 +480,6 @@ def compute_underground_spacing(outer_diameters, spacing_config, conductors):
     return np.array(distances)
 
 def compute_overhead_capacitance(wire_list, distances, freq = 60):
-    neutral_index = rev_lookup["N"]
     earth_index = rev_lookup["E"]
 
     #See definitions below eqn 5.5
@@ -497,31 +496,21 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
             has_neutral = True
 
         i = rev_lookup[i_wire.phase]
+
+        if distances[i][earth_index] <= 0:
+            #Without the conductor heights, the shunt capacitance can't be calculated.
+            return None
+
         indexes.append(i)
-        S[i, i] = 2 * distances[i][i]
-        RD[i] = i_wire.diameter / 2
+        #Distances are in feet, the conductor diameter is in inches.
+        RD[i] = i_wire.diameter / 2 / 12
 
         for j_wire in wire_list:
             j = rev_lookup[j_wire.phase]
 
-            phase_phase_dist = distances[i][j]
-            phase_neutral_dist = distances[i][neutral_index]
-            phase_earth_dist = distances[i][earth_index]
-            neutral_earth_dist = distances[neutral_index][earth_index]
-
-            phasepair = i_wire.phase + j_wire.phase 
-
-            if i == j:
-                _horizDist = 0
-                _vertDist = 2 * phase_earth_dist
-            if phasepair in ["AB", "BA", "AC", "CA", "BC", "CB"]:
-                _horizDist = phase_phase_dist
-                _vertDist = 2 * phase_earth_dist
-            elif phasepair in ["AN", "NA", "BN", "NB", "CN", "NC"]:
-                _horizDist = (phase_neutral_dist ** 2 - (phase_earth_dist - neutral_earth_dist) ** 2) ** 0.5
-                _vertDist = phase_earth_dist + neutral_earth_dist
-
-            S[i, j] = (_horizDist ** 2 + _vertDist ** 2) ** 0.5
+            #Distance between conductor i and the image of conductor j: the vertical distance
+            #is (h_i + h_j), the horizontal distance follows from D_ij and (h_i - h_j).
+            S[i, j] = (distances[i][j] ** 2 + 4 * distances[i][earth_index] * distances[j][earth_index]) ** 0.5
 
     #See eqn's 5.9 and 5.10.
     reduced_distances = distances[:, indexes][indexes, :]
@@ -550,9 +539,6 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
     #Eqn 5.15
     Y = 2 * math.pi * freq * 1e-6 * 1j * C
 
-    #Shunt capacitance is applied on either side of the line.
-    Y = Y / 2
-
     return Y
 
 def compute_underground_capacitance(wire_list):
-- 
2.43.0


From 2f60e63c213bc6ec696e92225baa268471105db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 08/37] fix: evaluate residuals with the inputs of their own
 model

A model whose stamps are all zero was given the inputs of whichever model was
stamped before it.
---
 src/logic/stamping/matrixstamper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logic/stamping/matrixstamper.py b/src/logic/stamping/matrixstamper.py
index 287c212..e308331 100644
--- a/src/logic/stamping/matrixstamper.py
+++ b/src/logic/stamping/matrixstamper.py
@@ -400,10 +400,13 @@ class MatrixStamper():
                 residual_key = residual.lsegment.lagrange_key + residual.first_order_str
                 if not residual_key in residual_sets:
                     derivative = residual.lsegment.get_derivatives()[residual.first_order]
+                    parameters_key = residual.lsegment.parameters_key
+                    if parameters_key not in input_builders:
+                        input_builders[parameters_key] = InputBuilder(residual.lsegment.parameters, residual.lsegment.tx_factor_index, self.optimization_enabled)
                     residual_sets[residual_key] = ResidualSet(
                         derivative.expr,
                         derivative.expr_eval,
-                        input_builders[stamp.expression.parameters_key]
+                        input_builders[parameters_key]
                         )
                 
                 residual_sets[residual_key].add_residual(stampcollection.model, residual)
-- 
2.43.0


From 9fa49f91649f3caba94933af372441b4b12486a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 09/37] fix: linearize single-variable terms that are not
 proportional to the variable

---
 src/logic/stamping/lagrangesegment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logic/stamping/lagrangesegment.py b/src/logic/stamping/lagrangesegment.py
index dabb4e7..83e47fe 100644
--- a/src/logic/stamping/lagrangesegment.py
+++ b/src/logic/stamping/lagrangesegment.py
@@ -24,6 +24,9 @@ def is_linear(expr, vars):
                 return False
             elif len(expr.atoms(Pow)) > 0:
                 return False
+            elif not is_constant(diff(expr, symbol), vars):
+                #E.g. cos(v), which is neither a power nor proportional to the variable.
+                return False
             var_found = True
     return True 
 
@@ -131,7 +134,7 @@ class DerivativeEntry:
 #You can think of all the segments as summing together to make the full Lagrange equation,
 #but in reality we map individual segments straight onto the matrix (see: LagrangeStamper)
 class LagrangeSegment:
-    VERSION = 6 #Increment if changes have been made to bust the derivative cache.
+    VERSION = 7 #Increment if changes have been made to bust the derivative cache.
     _pickler = LagrangePickler()
 
     def __init__(self, lagrange, constant_symbols, primal_symbols, dual_symbols):
-- 
2.43.0


From d6aea6cd8e359029e0645053d0d47f09e00e1a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 10/37] fix: look up conductor spacings by phase, not by
 position in the spacing

---
 src/ditto/readers/gridlabd/read.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1ac80fc..092ca95 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -19,7 +19,7 @@ from ditto.models.phase_winding import PhaseWinding
 from ditto.formats.gridlabd import gridlabd
 from ditto.formats.gridlabd import base
 from ditto.models.base import Unicode
-from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
+from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance, rev_lookup
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
 from ditto.readers.gridlabd.helpers import parse_phases, triplex_phases
@@ -937,7 +937,9 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix == None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
+                    #A spacing can be shared, and list more conductors than this line has.
+                    wire_indexes = [rev_lookup[wire.phase] for wire in wire_list]
+                    striped_distances = distances[wire_indexes, :][:, wire_indexes]
                     impedance_matrix = compute_overhead_impedance(wire_list, striped_distances, phases, has_neutral)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
@@ -1237,7 +1239,9 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix is None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
+                    #A spacing can be shared, and list more conductors than this line has.
+                    wire_indexes = [rev_lookup[wire.phase] for wire in wire_list]
+                    striped_distances = distances[wire_indexes, :][:, wire_indexes]
                     impedance_matrix = compute_underground_impedance(wire_list, striped_distances)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
-- 
2.43.0


From c0a793e6c69b03754f8047a196f981dde8bfe88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 11/37] fix: convert the units of a conductor shared by several
 lines for each of them

---
 src/ditto/readers/gridlabd/read.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 092ca95..56b9518 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -891,8 +891,9 @@ class Reader(AbstractReader):
 
                         try:
                             if conductor["geometric_mean_radius"].find('cm') != -1:
-                                conductor["geometric_mean_radius"] = remove_nonnum.sub('', conductor["geometric_mean_radius"])
-                                api_wire.gmr = float(conductor["geometric_mean_radius"]) / 30.48 # convert cm to feet
+                                #Conductors can be shared, so they must keep their units.
+                                gmr = remove_nonnum.sub('', conductor["geometric_mean_radius"])
+                                api_wire.gmr = float(gmr) / 30.48 # convert cm to feet
                             else:
                                 api_wire.gmr = float(conductor["geometric_mean_radius"])
                         except AttributeError:
@@ -900,10 +901,10 @@ class Reader(AbstractReader):
                         try:
                             if conductor["resistance"].find('Ohm/km') != -1:
                                 # Convert Ohm/km into Ohm/mi
-                                conductor["resistance"] = remove_nonnum.sub(
+                                resistance = remove_nonnum.sub(
                                     '', conductor["resistance"])
                                 api_wire.resistance = float(
-                                    conductor["resistance"]) * 1.609344
+                                    resistance) * 1.609344
                             else:
                                 api_wire.resistance = float(conductor["resistance"])
                         except AttributeError:
@@ -1181,10 +1182,10 @@ class Reader(AbstractReader):
                         # set resistance to be the conductor resistance for underground cables
                         try:
                             if conductor["conductor_resistance"].find('Ohm/km') != -1:
-                                conductor["conductor_resistance"] = remove_nonnum.sub(
+                                resistance = remove_nonnum.sub(
                                     '', conductor["conductor_resistance"])
                                 api_wire.resistance = float(
-                                    conductor["conductor_resistance"]) * 1.609344
+                                    resistance) * 1.609344
                             else:
                                 # NOTE: There doesn't seem to be inclusion of taped shielding GMR or resistance here
                                 # They seem to be assumed to be zero
-- 
2.43.0


From 071d9681085950ebc936341384f0c95a010fe55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 12/37] fix: scale both halves of a center-tap secondary given
 in kV

---
 src/ditto/readers/gridlabd/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 56b9518..c3e2984 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -459,7 +459,7 @@ class Reader(AbstractReader):
                                     winding2.nominal_voltage = float(
                                         low_voltage)
                                 if num_windings == 3:
-                                    winding3.nominal_voltage = -float(low_voltage) # To indicate the 180 degree phase shift
+                                    winding3.nominal_voltage = -winding2.nominal_voltage # To indicate the 180 degree phase shift
                             except AttributeError:
                                 pass
 
-- 
2.43.0


From 6b75569909780e4adceff9ee32a9c53a05fb114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 13/37] fix: use each cable's own neutral strand count for
 cable-to-neutral spacing

---
 src/ditto/readers/gridlabd/line_impedance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 6bd0663..f674c83 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -633,11 +633,13 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
     neutral_resistances = []
     conductor_gmrs = []
     neutral_gmrs = []
+    neutral_strands = []
     num_non_neutral = 0
 
     for wire in wire_list:
         if wire.phase == "N":
             conductor_own_neutral_distances.append(0)
+            neutral_strands.append(1)
             neutral_resistances.append(wire.resistance)
             neutral_gmrs.append(wire.gmr)
         else:
@@ -650,10 +652,12 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
                 neutral_resistances.append(wire.shield_resistance if wire.shield_resistance != 0 else (MAGIC_NUMBER / (wire.shield_diameter * wire.shield_thickness)))
                 neutral_gmrs.append(wire.shield_gmr if wire.shield_gmr != 0 else ((wire.shield_diameter - (wire.shield_thickness / 1000)) / (12 * 2)))
                 conductor_own_neutral_distances.append((wire.shield_diameter - wire.shield_thickness) / (12 * 2))
+                neutral_strands.append(1)
             else:
                 conductor_own_neutral_distance = (wire.outer_diameter - wire.concentric_neutral_diameter) / (12 * 2)
                 conductor_own_neutral_distances.append(conductor_own_neutral_distance)
                 k = wire.concentric_neutral_nstrand
+                neutral_strands.append(k)
                 neutral_resistances.append(wire.concentric_neutral_resistance / k)
                 neutral_gmrs.append((wire.concentric_neutral_gmr * k * (conductor_own_neutral_distance ** (k - 1))) ** (1 / k))
 
@@ -664,6 +668,8 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
             if i == j:
                 temp.append(conductor_own_neutral_distances[i])
             else:
+                #Each cable has its own number of neutral strands.
+                k = neutral_strands[j]
                 temp.append((distances[i][j]**k - conductor_own_neutral_distances[j]**k)**(1/k))
         conductor_neutral_distances.append(temp)
 
-- 
2.43.0


From 47469e7e8adb9b0483b0810458b38d45fe6287b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 14/37] fix: keep line-to-line load properties of delta loads

---
 src/ditto/readers/gridlabd/load_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ditto/readers/gridlabd/load_parser.py b/src/ditto/readers/gridlabd/load_parser.py
index 298cdfb..cb3a650 100644
--- a/src/ditto/readers/gridlabd/load_parser.py
+++ b/src/ditto/readers/gridlabd/load_parser.py
@@ -196,6 +196,8 @@ class LoadParser:
                 phaseload.phase = "BC"
             elif phase == "C":
                 phaseload.phase = "CA"
+            else:
+                phaseload.phase = phase
         else:
             phaseload.phase = phase
         phaseload.p = 0  # Default value
-- 
2.43.0


From 77c2977d83927f7f424ce08c07cdb5214e413f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 15/37] fix: report no remaining relaxation after a complete
 homotopy run

---
 src/logic/homotopycontroller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/homotopycontroller.py b/src/logic/homotopycontroller.py
index f8b7478..bebd4d9 100644
--- a/src/logic/homotopycontroller.py
+++ b/src/logic/homotopycontroller.py
@@ -41,4 +41,4 @@ class HomotopyController:
 
             tx_factor -= 1
 
-        return (is_success, v_next, iterations, tx_factor * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num))
+        return (is_success, v_next, iterations, max(tx_factor, 0) * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num))
-- 
2.43.0


From cc7ca56845e097f02a6535733e10434d1084e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 16/37] fix: read the status of fuses from the file

---
 src/logic/network/parsers/threephase/threephaseparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 9e4c06c..e451c43 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -288,8 +288,8 @@ class ThreePhaseParser:
                 current_limit = float(model.current_limit)
 
                 fuse_status = FuseStatus.GOOD
-                if hasattr(model, "phase_" + wire.phase + "_status"):
-                    fuse_status = FuseStatus[getattr(model, "phase_" + wire.phase + "_status")]
+                if wire.is_open:
+                    fuse_status = FuseStatus.BLOWN
 
                 fuse_bus = self.create_bus(network_model, 0.1, 0.1, f"{from_bus.NodeName}-Fuse", wire.phase, True)
 
-- 
2.43.0


From d3ef0114c25d926767bff962ffa478f9e7269811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 17/37] fix: keep all phases of switches and fuses that do not
 state a status

---
 src/ditto/readers/gridlabd/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index c3e2984..728bc48 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -743,7 +743,7 @@ class Reader(AbstractReader):
                             api_wire = Wire(model)
                             api_wire.phase = p
                             wires.append(api_wire)
-                            if obj["status"] == "OPEN":
+                            if hasattr(obj, "_status") and obj["status"] == "OPEN":
                                 wires[-1].is_open = True
                             else:
                                 wires[-1].is_open = False
@@ -813,7 +813,7 @@ class Reader(AbstractReader):
                             api_wire = Wire(model)
                             api_wire.phase = p
                             wires.append(api_wire)
-                            if obj["status"] == "OPEN":
+                            if hasattr(obj, "_status") and obj["status"] == "OPEN":
                                 wires[-1].is_open = True
                             else:
                                 wires[-1].is_open = False
-- 
2.43.0


From 3279aba0b6d6205f3e31467217d80e9c984733b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:24 +0000
Subject: [PATCH 18/37] fix: take a bus's nominal voltage from the file, not
 from its voltage setpoint

---
 src/logic/network/parsers/threephase/threephaseparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index e451c43..2d43c48 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -117,6 +117,9 @@ class ThreePhaseParser:
                                 pass
 
                             bus = self.create_bus(network_model, v_mag, v_ang, model.name, phase, False)
+                            if model.nominal_voltage is not None:
+                                #The voltage setpoint or initial guess can differ from the nominal voltage.
+                                bus.V_Nominal = model.nominal_voltage
 
                             if phase == "1":
                                 bus.Vr_init = -60.0
-- 
2.43.0


From 53b82b3b0001189679dd078f33e2fbdebceeb15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 19/37] fix: do not fail on rounded spacings of two vertically
 aligned conductors

---
 src/ditto/readers/gridlabd/line_impedance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index f674c83..58adc24 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -114,7 +114,8 @@ def compute_overhead_spacing(spacing_config, conductors, default_height=30):
                 if has_earth:
                     # Rotate then translate
                     h = distances[max_from][-1] - distances[max_to][-1]
-                    theta = math.acos(h / float(max_dist))
+                    #Rounded distances of vertically aligned conductors can give a ratio slightly beyond 1.
+                    theta = math.acos(max(-1.0, min(1.0, h / float(max_dist))))
                     rotation = np.array(
                         [
                             [math.cos(theta), -1 * math.sin(theta)],
-- 
2.43.0


From a6916eaa398134123c568cfd4d0acc6ac6244a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 20/37] fix: use the winding impedances of center-tap
 transformers that state them

---
 src/ditto/readers/gridlabd/read.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 728bc48..0b8ad52 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -533,6 +533,19 @@ class Reader(AbstractReader):
                                 except AttributeError:
                                     pass
 
+                            if (
+                                num_windings == 3
+                                and hasattr(config, "_impedance1")
+                                and hasattr(config, "_impedance2")
+                            ):
+                                # The impedance of each winding is given, so the approximation isn't needed.
+                                impedance1 = complex(config["impedance1"])
+                                impedance2 = complex(config["impedance2"])
+                                winding1.resistance = resistance
+                                winding2.resistance = impedance1.real
+                                winding3.resistance = impedance2.real
+                                reactances = [reactance, impedance1.imag, impedance2.imag]
+
                             if len(reactances) > 0:
                                 for x in reactances:
                                     api_transformer.reactances.append(x)
-- 
2.43.0


From 7f00f8712c6afc8534a6eb0b4d0d69344f55c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 21/37] fix: attach the line shunts of RAW branches to their
 buses

---
 src/logic/network/parsers/raw/data_classes.py | 4 ++--
 src/logic/network/parsers/raw/parser.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 121bec8..d498faf 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -320,10 +320,10 @@ class Branch_data:
         shunt_i = None
         shunt_j = None
         if self.gi != 0 or self.bi != 0:
-            shunt_i = Shunt(self.i, self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_i = Shunt(all_bus_key[self.i], self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
         if self.gj != 0 or self.bj != 0:
-            shunt_j = Shunt(self.j, self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_j = Shunt(all_bus_key[self.j], self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
 
         return new_branch, shunt_i, shunt_j
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 76dd358..65baa48 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -368,10 +368,10 @@ def parse_raw(rawfile):
             (new_branch, shunt_i, shunt_j) = br.integrate(all_bus_key)
             integrated_data['branches'].append(new_branch)
             if shunt_i != None:
-                non_empty_bus_set.add(shunt_i.Bus)
+                non_empty_bus_set.add(br.i)
                 integrated_data['shunts'].append(shunt_i)
             if shunt_j != None:
-                non_empty_bus_set.add(shunt_j.Bus)
+                non_empty_bus_set.add(br.j)
                 integrated_data['shunts'].append(shunt_j)
 
     # ---------- transformer data ----------
-- 
2.43.0


From c22c5226c5035f9cfad78382b449451d0cd9fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 22/37] fix: merge a bus's further generators and continuous
 shunts into its first generator

---
 src/logic/network/parsers/raw/parser.py | 30 +++++++------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 65baa48..9ab1b1e 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -199,21 +199,12 @@ def parse_raw(rawfile):
                     if g.i in voltage_controlling_bus:
                         # print('Due to another generator on %i generator location, parameters are appended' % g.i)
                         idx = gen_dic[g.i]
-                        integrated_data['generators'][idx].P += gen.pg / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmax += gen.pt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmin += gen.pb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmax += gen.qt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmin += gen.qb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qinit += gen.qg / global_vars.MVAbase
-                        integrated_data['generators'][idx].RMPCT += gen.rmpct
+                        # The component stores generation as a negative load.
+                        integrated_data['generators'][idx].P -= gen.pg / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmax -= gen.qt / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmin -= gen.qb / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qinit -= gen.qg / global_vars.MVAbase
                         # check for discrepencies
-                        if integrated_data['generators'][idx].RemoteBus != gen.ireg:
-                            print("Discrepancy found in remote bus (%d, %d) for generators on the same bus: %i" % (
-                                integrated_data['generators'][idx].RemoteBus, gen.ireg, gen.i))
-                            # If the new generator is controlling self. Make everyone control that
-                            # if gen.ireg == 0 or gen.ireg == gen.i:
-                            #    integrated_data['generators'][idx].RemoteBus = gen.ireg
-                            #    # TODO Remove voltage controlled node and add new
                         if integrated_data['generators'][idx].Vset != gen.vs:
                             print("Discrepancy found in Vset (%f, %f) for generators on the same bus: %i" % (
                                 integrated_data['generators'][idx].Vset, gen.vs, gen.i))
@@ -273,14 +264,9 @@ def parse_raw(rawfile):
                     # print('Due to a generator on %i SVC location, parameters are appended' % sshunt.i)
                     gen_id = gen_dic[sshunt.i]
                     # print(gen_id)
-                    integrated_data['generators'][gen_id].Qmax += Qmax / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qmin += Qmin / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qinit += Qinit / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].RMPCT += rmpct
-                    if integrated_data['generators'][gen_id].RemoteBus != ss.swrem:
-                        print("Discrepency between control buses in shunts for bus ", ss.i)
-                        # if integrated_data['generators'][gen_id].RemoteBus ==0:
-                        #    integrated_data['generators'][gen_id].RemoteBus = ss.swrem
+                    integrated_data['generators'][gen_id].Qmax -= Qmax / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qmin -= Qmin / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qinit -= Qinit / global_vars.MVAbase
 
                 else:
                     Pmax = 0
-- 
2.43.0


From 7227a7d3c074ce8aef647dddd2858b56105b79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 23/37] fix: keep the bus shunts of version 30 RAW files

---
 src/logic/network/parsers/raw/parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 9ab1b1e..e81c279 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -319,6 +319,16 @@ def parse_raw(rawfile):
             non_empty_bus_set.add(fs.i)
             integrated_data['shunts'].append(fs.integrate(all_bus_key))
 
+    if version == 30:
+        # version 30 has no fixed shunt records, they are part of the bus records
+        for bus in data.raw.get_buses():
+            if bus.i not in offline_bus and (bus.gl != 0 or bus.bl != 0):
+                fs = data_classes.Fixed_shunt_data(bus.i, '1', 1, bus.gl, bus.bl)
+                all_case_data['all_fixed_shunts'].append(fs)
+                search_case_data['fixed_shunts'][(fs.i, fs.id)] = fs
+                non_empty_bus_set.add(fs.i)
+                integrated_data['shunts'].append(fs.integrate(all_bus_key))
+
     # ---------- loads ----------
     for load in data.raw.get_loads():
 
-- 
2.43.0


From 0ea812b402809e1b740d7b67ff6b0e29c52dc7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:29 +0000
Subject: [PATCH 24/37] fix: read the constant current and admittance parts of
 RAW loads as the format defines them

---
 src/logic/network/parsers/raw/data_classes.py |  5 ++++-
 src/models/components/load.py                 | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index d498faf..b7250c0 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -91,7 +91,10 @@ class Load_data:
         self.scale = scale
 
     def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, complex(0, 0), self.ip, self.iq)
+        Y = complex(self.yp, self.yq) / 100
+        Z = 1 / Y if Y != 0 else complex(0, 0)
+        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, Z, self.ip / 100, self.iq / 100,
+                        constant_current_pf=True)
         return (new_load)
 
 
diff --git a/src/models/components/load.py b/src/models/components/load.py
index 99a29a5..4e7f51e 100644
--- a/src/models/components/load.py
+++ b/src/models/components/load.py
@@ -33,6 +33,15 @@ kcl_i = KCL_i(IQ)
 
 lh_Ic = TwoTerminalModelDefinition(variables, constants, kcl_r, kcl_i)
 
+#Constant current loads whose current keeps its angle to the terminal voltage.
+#IP and IQ are the active and reactive power drawn at one unit of voltage.
+V_mag = (Vr ** 2 + Vi ** 2) ** 0.5
+
+kcl_r = KCL_r((IP * Vr + IQ * Vi) / V_mag)
+kcl_i = KCL_i((IP * Vi - IQ * Vr) / V_mag)
+
+lh_Ic_pf = TwoTerminalModelDefinition(variables, constants, kcl_r, kcl_i)
+
 #Zip loads (partially implemented)
 #Eqn 31 & 32, pg 47
 
@@ -62,7 +71,8 @@ class Load:
                  IQ,
                  load_num=None,
                  phase=None,
-                 triplex_phase=None
+                 triplex_phase=None,
+                 constant_current_pf=False
                  ):
         """Initialize an instance of a PQ or ZIP load in the power grid.
 
@@ -73,6 +83,8 @@ class Load:
             Z (complex): the linear impedance of the load.
             IP (float): the active power component of a constant current load.
             IQ (float): the reactive power component of a constant current load.
+            constant_current_pf (bool): whether IP and IQ are the power of the constant current load at one unit of
+                voltage (positive sequence), rather than the real and imaginary part of a fixed current phasor.
         """
 
         self.id = Load._ids.__next__()
@@ -88,6 +100,7 @@ class Load:
 
         self.IP = IP
         self.IQ = IQ
+        self.constant_current_pf = constant_current_pf
 
         # self.Ic_mag = np.sqrt(IP**2 + IQ**2)
         # if IP == 0:
@@ -115,7 +128,7 @@ class Load:
         if self.IP == 0 and self.IQ == 0:
             self.stamper_Ic = None
         else:
-            self.stamper_Ic = build_two_terminal_stamp_details(lh_Ic, self.from_bus, self.to_bus, node_index, optimization_enabled)
+            self.stamper_Ic = build_two_terminal_stamp_details(lh_Ic_pf if self.constant_current_pf else lh_Ic, self.from_bus, self.to_bus, node_index, optimization_enabled)
 
         if self.Z == 0:
             self.stamper_z = None
-- 
2.43.0


From 527f71af61eda358677d4d7bdeadfdd3d3ab0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:01 +0000
Subject: [PATCH 25/37] fix: accept the comment that ends the first record of
 version 30 RAW files

---
 src/logic/network/parsers/raw/Data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/parsers/raw/Data.py b/src/logic/network/parsers/raw/Data.py
index 10a1297..0f8992d 100644
--- a/src/logic/network/parsers/raw/Data.py
+++ b/src/logic/network/parsers/raw/Data.py
@@ -349,7 +349,7 @@ class Raw:
         self.case_identification.record_2 = ' '.join(cid_rows[1])
         self.case_identification.record_3 = ' '.join(cid_rows[2])
         #case ID data
-        if len(rows[row_num]) == 2:
+        if len(remove_end_of_line_comment_from_row_first_occurence(rows[row_num], '/')) == 2:
             self.case_identification.read_from_rows(rows, 30)
         else:
             self.case_identification.read_from_rows(rows)
@@ -791,7 +791,7 @@ class CaseIdentification:
     def read_record_1_from_row(self, row, rev = 33):
         if rev == 30:
             self.ic = parse_token(row[0], int, 0)
-            self.sbase = parse_token(row[1], float, default=None)
+            self.sbase = parse_token(remove_end_of_line_comment(row[1], '/'), float, default=None)
             self.rev = 30
         else:
             row = row[0:6]
-- 
2.43.0


From 275c6e62e7e7eacf451fa92f3fcc5ca8d90ccb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:56 +0000
Subject: [PATCH 26/37] fix: close GLM objects whose closing brace is followed
 by a comment

---
 src/ditto/readers/gridlabd/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 0b8ad52..c6b794d 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -99,7 +99,7 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
         if row[:2] == "//":
             continue
         if row.find("//") != -1:
-            row = row[:row.find("//")]
+            row = row[:row.find("//")].strip()
 
         entries = row.split()
         if len(entries) > 0 and entries[0] == "object":
-- 
2.43.0


From 21343b6ef3bf3be526dff7de20070880269c2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:46 +0000
Subject: [PATCH 27/37] fix: tolerate any state of the derivative cache and
 replace its entries atomically

---
 src/logic/stamping/lagrangepickler.py | 22 ++++++++++++++++++----
 src/logic/stamping/lagrangesegment.py | 10 +++++++++-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/logic/stamping/lagrangepickler.py b/src/logic/stamping/lagrangepickler.py
index 67d32c9..c7d7182 100644
--- a/src/logic/stamping/lagrangepickler.py
+++ b/src/logic/stamping/lagrangepickler.py
@@ -8,8 +8,7 @@ class LagrangePickler:
         dill.settings['recurse'] = True
 
         self.pickle_dir = os.path.join(tempfile.gettempdir(), "combined-txds-lagrange-pickler")
-        if not os.path.exists(self.pickle_dir):
-            os.makedirs(self.pickle_dir)
+        os.makedirs(self.pickle_dir, exist_ok=True)
 
     def _get_pickle_file(self, lagrange_key):
         sha1 = hashlib.sha1()
@@ -28,10 +27,25 @@ class LagrangePickler:
         
         pickle_filepath = self._get_pickle_file(lagrange_key)
 
-        derivatives = dill.load(open(pickle_filepath, "rb"))
+        with open(pickle_filepath, "rb") as file:
+            derivatives = dill.load(file)
 
         return derivatives
 
     def try_pickle(self, lagrange_key, derivatives):
         pickle_file = self._get_pickle_file(lagrange_key)
-        dill.dump(derivatives, open(pickle_file, "wb" ) )
\ No newline at end of file
+
+        #Other processes may be using the same cache, so only a complete entry is put in place.
+        #The cache is optional, so not being able to write to it is not an error.
+        try:
+            os.makedirs(self.pickle_dir, exist_ok=True)
+            (handle, temp_file) = tempfile.mkstemp(dir=self.pickle_dir, suffix=".tmp")
+        except OSError:
+            return
+
+        try:
+            with os.fdopen(handle, "wb") as file:
+                dill.dump(derivatives, file)
+            os.replace(temp_file, pickle_file)
+        except OSError:
+            os.remove(temp_file)
diff --git a/src/logic/stamping/lagrangesegment.py b/src/logic/stamping/lagrangesegment.py
index 83e47fe..24e4c05 100644
--- a/src/logic/stamping/lagrangesegment.py
+++ b/src/logic/stamping/lagrangesegment.py
@@ -174,7 +174,10 @@ class LagrangeSegment:
 
         if LagrangeSegment._pickler.has_pickle(self.lagrange_key):
             try:
-                self._derivatives = LagrangeSegment._pickler.try_unpickle(self.lagrange_key)
+                derivatives = LagrangeSegment._pickler.try_unpickle(self.lagrange_key)
+                if not self._is_complete(derivatives):
+                    raise Exception("Not an entry of the derivative cache")
+                self._derivatives = derivatives
             except:
                 self._generate_derivatives()
         else:
@@ -182,6 +185,11 @@ class LagrangeSegment:
 
         return self._derivatives
     
+    def _is_complete(self, derivatives):
+        return isinstance(derivatives, dict) and \
+            tuple(derivatives.keys()) == self.variables and \
+            all(isinstance(entry, DerivativeEntry) for entry in derivatives.values())
+
     def _generate_derivatives(self):
         self._derivatives = {}
 
-- 
2.43.0


From aac28b27fb4acdf884d9c43b7e53b084c917bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:45 +0000
Subject: [PATCH 28/37] fix: treat nodes joined by a line beside a transformer
 as one voltage region

---
 src/logic/graphanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/graphanalyzer.py b/src/logic/graphanalyzer.py
index 9ecd8c0..c8664f6 100644
--- a/src/logic/graphanalyzer.py
+++ b/src/logic/graphanalyzer.py
@@ -77,7 +77,7 @@ class GraphAnalyzer:
                         raise Exception(f"Node {bus.NodeName} nominal voltage is not consistent with other nominal voltages in voltage region.")
 
     def get_nominal_voltage_islands(self):
-        non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if type(e['element_list'][0]) not in [CenterTapTransformer, Transformer, Regulator]]
+        non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if any(type(element) not in [CenterTapTransformer, Transformer, Regulator] for element in e['element_list'])]
 
         xfmr_islands = self.G.edge_subgraph(non_xfmr_edges)
 
-- 
2.43.0


From ac88cc7a8350e9c35c110d2cd03acb81d2e1849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:45 +0000
Subject: [PATCH 29/37] fix: compare nominal voltages independently of the
 order of a region's nodes

---
 src/logic/graphanalyzer.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/logic/graphanalyzer.py b/src/logic/graphanalyzer.py
index c8664f6..ec12519 100644
--- a/src/logic/graphanalyzer.py
+++ b/src/logic/graphanalyzer.py
@@ -67,14 +67,11 @@ class GraphAnalyzer:
         vnom_islands = self.get_nominal_voltage_islands()
 
         for vnom_island in vnom_islands:
-            vnom = None
-            for node_idx in vnom_island:
-                bus = self.G.nodes[node_idx]["bus_list"][0]
-                if vnom == None:
-                    vnom = round(bus.V_Nominal)
-                else:
-                    if abs(bus.V_Nominal - vnom) > 10:
-                        raise Exception(f"Node {bus.NodeName} nominal voltage is not consistent with other nominal voltages in voltage region.")
+            buses = [self.G.nodes[node_idx]["bus_list"][0] for node_idx in vnom_island]
+            vnom = min(bus.V_Nominal for bus in buses)
+            for bus in buses:
+                if bus.V_Nominal - vnom > 10:
+                    raise Exception(f"Node {bus.NodeName} nominal voltage is not consistent with other nominal voltages in voltage region.")
 
     def get_nominal_voltage_islands(self):
         non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if any(type(element) not in [CenterTapTransformer, Transformer, Regulator] for element in e['element_list'])]
-- 
2.43.0


From 5b91cce7e270202242d4257e5e398c5c7702bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 30/37] fix: tell positive sequence buses with equal or blank
 names apart in the network graph

---
 src/logic/graphanalyzer.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/logic/graphanalyzer.py b/src/logic/graphanalyzer.py
index ec12519..ac50bda 100644
--- a/src/logic/graphanalyzer.py
+++ b/src/logic/graphanalyzer.py
@@ -24,38 +24,44 @@ class GraphAnalyzer:
         for bus in network.buses:
             if bus.IsVirtual:
                 continue
-            self.node_labels[bus.NodeName] = f"{bus.NodeName}"
-            if self.G.has_node(bus.NodeName):
-                self.G.nodes[bus.NodeName]["bus_list"].append(bus)
+            node = self.get_node(bus)
+            self.node_labels[node] = f"{bus.NodeName}"
+            if self.G.has_node(node):
+                self.G.nodes[node]["bus_list"].append(bus)
                 # bus_list.append(bus)
                 # nx.set_node_attributes(self.G, [bus.NodeName, {"bus_list", bus_list}])
             else:
-                self.G.add_node(bus.NodeName, bus_list=[bus])
-            self.node_color[bus.NodeName] = self.NODE_TYPE_COLOR_MAP[bus.Type]
+                self.G.add_node(node, bus_list=[bus])
+            self.node_color[node] = self.NODE_TYPE_COLOR_MAP[bus.Type]
         
         for element in network.get_all_elements():
             for (from_bus, to_bus) in element.get_connections():
+                from_node, to_node = self.get_node(from_bus), self.get_node(to_bus)
                 if type(element) == Load:
-                    self.node_color[from_bus.NodeName]="darkred"
-                elif from_bus == GROUND or to_bus == GROUND or from_bus.NodeName == to_bus.NodeName:
+                    self.node_color[from_node]="darkred"
+                elif from_bus == GROUND or to_bus == GROUND or from_node == to_node:
                     continue
-                elif not (self.G.has_node(from_bus.NodeName) or self.G.has_node(to_bus.NodeName)):
+                elif not (self.G.has_node(from_node) or self.G.has_node(to_node)):
                     continue
                 else:
-                    if self.G.has_edge(from_bus.NodeName, to_bus.NodeName):
-                        if element not in self.G.edges[from_bus.NodeName, to_bus.NodeName]["element_list"]:
-                            self.G.edges[from_bus.NodeName, to_bus.NodeName]["element_list"].append(element)
+                    if self.G.has_edge(from_node, to_node):
+                        if element not in self.G.edges[from_node, to_node]["element_list"]:
+                            self.G.edges[from_node, to_node]["element_list"].append(element)
                     else:
-                        self.G.add_edge(from_bus.NodeName, to_bus.NodeName, type="none", from_bus=from_bus, to_bus=to_bus, element_list=[element])
+                        self.G.add_edge(from_node, to_node, type="none", from_bus=from_bus, to_bus=to_bus, element_list=[element])
                     
-                    self.edge_labels[(from_bus.NodeName, to_bus.NodeName)] += from_bus.NodePhase
+                    self.edge_labels[(from_node, to_node)] += from_bus.NodePhase
                     
                     if type(element) == CenterTapTransformer or type(element) == Transformer:
-                        self.edge_color[(from_bus.NodeName, to_bus.NodeName)] = "green"
+                        self.edge_color[(from_node, to_node)] = "green"
                     elif type(element) == Switch:
-                        self.edge_color[(from_bus.NodeName, to_bus.NodeName)] = "orange"
+                        self.edge_color[(from_node, to_node)] = "orange"
                     else:
-                        self.edge_color[(from_bus.NodeName, to_bus.NodeName)] = "gray"
+                        self.edge_color[(from_node, to_node)] = "gray"
+
+    #The buses of all phases of a three-phase node share its name. The names of positive sequence buses need not be unique.
+    def get_node(self, bus):
+        return bus.NodeName if self.network.is_three_phase else bus.Bus
 
     def get_island_count(self):
         return len(self.get_islands())
-- 
2.43.0


From f928de3336406550bd2bdd2ca4c0d9d24a48298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:20 +0000
Subject: [PATCH 31/37] fix: keep the grounded loads and capacitors of the
 selected island

---
 src/logic/network/timeseriesprocessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 070feea..fcafe6b 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -9,6 +9,7 @@ import networkx as nx
 from logic.network.timeseriessettings import TimeSeriesSettings
 from logic.powerflow import PowerFlow
 from logic.powerflowresults import CenterTapTransformerResult, LineResult, PowerFlowResults, QuasiTimeSeriesResults, TransformerResult
+from models.components.bus import GROUND
 from models.components.center_tap_transformer import CenterTapTransformer
 from models.components.switch import Switch
 from models.components.transformer import Transformer
@@ -89,7 +90,7 @@ class TimeSeriesProcessor:
 
         load_to_remove = []
         for idx, load in enumerate(self.powerflow.network.loads):
-            if load.from_bus not in self.powerflow.network.buses or load.to_bus not in self.powerflow.network.buses:
+            if load.from_bus not in self.powerflow.network.buses or (load.to_bus != GROUND and load.to_bus not in self.powerflow.network.buses):
                 load_to_remove.insert(0, idx)
         for idx in load_to_remove:
             del self.powerflow.network.loads[idx]
@@ -118,7 +119,7 @@ class TimeSeriesProcessor:
 
         capacitor_to_remove = []
         for idx, capacitor in enumerate(self.powerflow.network.capacitors):
-            if capacitor.from_bus not in self.powerflow.network.buses or capacitor.to_bus not in self.powerflow.network.buses:
+            if capacitor.from_bus not in self.powerflow.network.buses or (capacitor.to_bus != GROUND and capacitor.to_bus not in self.powerflow.network.buses):
                 capacitor_to_remove.insert(0, idx)
         for idx in capacitor_to_remove:
             del self.powerflow.network.capacitors[idx]
-- 
2.43.0


From ea57a66bb0af2e540a4cc4ebd908ecba9523cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 32/37] fix: assign hourly loads to the constant-power part of
 a load

---
 src/logic/network/timeseriesprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index fcafe6b..a9789e0 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -127,6 +127,9 @@ class TimeSeriesProcessor:
     def set_load_names(self):
         for phase_load in self.powerflow.network.loads:
             load_name = self.get_load_name(phase_load)
+            #The constant current and impedance parts of a load share its name, but the load file states its power.
+            if (phase_load.P, phase_load.Q) == (0, 0) and load_name in self.powerflow.network.load_name_map:
+                continue
             self.powerflow.network.load_name_map[load_name] = phase_load
 
     def get_load_name(self, phase_load):
-- 
2.43.0


From 4262197184bafbeb8e402b69b397491bfcb66e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:30 +0000
Subject: [PATCH 33/37] fix: include the coupled phases in the line currents
 compared with ampacities

---
 src/logic/network/timeseriesprocessor.py |  4 ++--
 src/logic/powerflowresults.py            | 17 ++++++++++-------
 src/models/components/unbalanced_line.py |  6 +++---
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index a9789e0..c01f3bc 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -185,8 +185,8 @@ class TimeSeriesProcessor:
         exceeds_rating = False
         # Ensure that no lines have current flowing through them that exceeds their rating
         for line in self.powerflow.network.lines:
-            for (idx, g, b, phase_line) in line.loop_lines():
-                line_result = LineResult(phase_line, snapshot_results, g, b)
+            for (idx, phase_line, phase_admittances) in line.loop_lines():
+                line_result = LineResult(phase_line, snapshot_results, phase_admittances)
                 line_current = complex(line_result.get_Ir(), line_result.get_Ii())
                 if (line.ampacities[idx] is not None and abs(line_current) > line.ampacities[idx]):
                     print(f"Line current {line_current} exceeds emergency ampacity {line.ampacities[idx]}")
diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 39f3198..d8e2342 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -345,21 +345,24 @@ class CenterTapTransformerResult:
     def csv_string(self) -> str:
         return f'{self.from_bus.Bus},CenterTapTransformer,{"{:.2f}".format(self.get_P())},{"{:.2f}".format(self.get_Q())}\n'
 
-# BROKEN, THIS HAS TO USE __loop_line_stampers INSTEAD I THINK
-
+# Series current of one phase of a line. phase_admittances holds (phase line, g, b) for every phase that is coupled with it.
 class LineResult:
-    def __init__(self, line: UnbalancedLinePhase, snapshot_results: PowerFlowResults, g, b):
+    def __init__(self, line: UnbalancedLinePhase, snapshot_results: PowerFlowResults, phase_admittances):
         self.line = line
         self.v_final = snapshot_results.v_final
         self.from_bus, self.to_bus = line.get_nodes(snapshot_results.network)
-        self.g = g
-        self.b = b
+        self.phase_voltages = []
+        for phase_line, g, b in phase_admittances:
+            from_bus, to_bus = phase_line.get_nodes(snapshot_results.network)
+            Vr = self.v_final[from_bus.node_Vr] - self.v_final[to_bus.node_Vr]
+            Vi = self.v_final[from_bus.node_Vi] - self.v_final[to_bus.node_Vi]
+            self.phase_voltages.append((Vr, Vi, g, b))
 
     def get_Ir(self):
-        return (self.v_final[self.from_bus.node_Vr] - self.v_final[self.to_bus.node_Vr]) * self.g - (self.v_final[self.from_bus.node_Vi] - self.v_final[self.to_bus.node_Vi]) * self.b
+        return sum(Vr * g - Vi * b for Vr, Vi, g, b in self.phase_voltages)
 
     def get_Ii(self):
-        return (self.v_final[self.from_bus.node_Vr] - self.v_final[self.to_bus.node_Vr]) * self.b + (self.v_final[self.from_bus.node_Vi] - self.v_final[self.to_bus.node_Vi]) * self.g
+        return sum(Vr * b + Vi * g for Vr, Vi, g, b in self.phase_voltages)
 
     def __str__(self) -> str:
         return f'Line from bus {self.from_bus.Bus} to {self.to_bus.Bus} I: complex({"{:.2f}".format(self.get_Ir())}, {"{:.2f}".format(self.get_Ii())})'
diff --git a/src/models/components/unbalanced_line.py b/src/models/components/unbalanced_line.py
index 0495732..83af7ce 100644
--- a/src/models/components/unbalanced_line.py
+++ b/src/models/components/unbalanced_line.py
@@ -225,6 +225,6 @@ class UnbalancedLine():
     def loop_lines(self):
         # Go through all phases
         for idx, line in enumerate(self.lines):
-            g = np.real(self.admittances[idx][idx])
-            b = np.imag(self.admittances[idx][idx])
-            yield (idx, g, b, line)
+            # The current of a phase depends on the voltages across all phases.
+            phase_admittances = [(other_line, np.real(y), np.imag(y)) for other_line, y in zip(self.lines, self.admittances[idx])]
+            yield (idx, line, phase_admittances)
-- 
2.43.0


From deef67025b15ef57a688fab466ce53769e8e6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:30 +0000
Subject: [PATCH 34/37] fix: compare each transformer winding with its share of
 the power rating

---
 src/logic/network/parsers/threephase/transformerparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/threephase/transformerparser.py b/src/logic/network/parsers/threephase/transformerparser.py
index d7d349e..cfeda3f 100644
--- a/src/logic/network/parsers/threephase/transformerparser.py
+++ b/src/logic/network/parsers/threephase/transformerparser.py
@@ -149,7 +149,7 @@ class TransformerParser:
                 phase_shift, 
                 g_shunt,
                 b_shunt,
-                winding1.rated_power
+                winding1.rated_power / len(phase_list) #the rating is shared by the windings
                 )
             
             network_model.transformers.append(xfmr)
-- 
2.43.0


From cd2b540145f6030ca03c0f1ccc86c066635e7928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:49 +0000
Subject: [PATCH 35/37] fix: --verbose no longer fails on the residual details

---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index d8e2342..999cd56 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -202,8 +202,8 @@ class PowerFlowResults:
         print(f'Max Residual: {self.residuals.max_residual:.3g} [Index: {self.residuals.max_residual_idx}]')
 
         if verbose:
-            for idx in range(len(self.residuals)):
-                print(f'Residual {idx}: {self.residuals[idx]:.3g}')
+            for idx, residual in enumerate(self.residuals.residuals):
+                print(f'Residual {idx}: {residual:.3g}')
 
         try:
             results = self.report_infeasible()
-- 
2.43.0


From 43efaeb87e3d9a3d330150d9967df73059b7721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:55 +0000
Subject: [PATCH 36/37] fix: write the requested output files of a microgrid
 run without a load file

---
 src/logic/network/timeseriesprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index c01f3bc..fa8ee7d 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -245,7 +245,10 @@ class TimeSeriesProcessor:
         if self.settings.loadfile_name is not None:
             return self.execute_quasi_time_series()
         elif self.settings.artificialswingbus is not None:
-            return self.execute_powerflow()
+            snapshot_results = self.execute_powerflow()
+            if self.settings.outputfile is not None:
+                snapshot_results.output(self.settings.outputfile)
+            return snapshot_results
         else:
             return None
 
-- 
2.43.0


From 7bb7f0f61b7bf78356069da3c1f472d5404191c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:56 +0000
Subject: [PATCH 37/37] fix: keep cases downloaded at the same time apart

---
 src/logic/network/networkloader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/logic/network/networkloader.py b/src/logic/network/networkloader.py
index 713e88c..8aafd4d 100644
--- a/src/logic/network/networkloader.py
+++ b/src/logic/network/networkloader.py
@@ -1,4 +1,6 @@
+import atexit
 import os
+import shutil
 from logic.network.networkmodel import NetworkModel, TxNetworkModel
 from logic.network.parsers.raw.parser import parse_raw
 from logic.powerflowsettings import PowerFlowSettings
@@ -20,15 +22,12 @@ def pull_network_file(network_uri: str):
     if status_code != 200:
         raise Exception("Network request for network file failed.")
 
-    tmpdir = tempfile.gettempdir()
+    #Other runs may be downloading a file of the same name, so each download gets a directory of its own.
+    tmpdir = tempfile.mkdtemp()
+    atexit.register(shutil.rmtree, tmpdir, ignore_errors=True)
 
     filepath = os.path.join(tmpdir, network_uri.split("/")[-1]) #Assume the network file name is at the end of the url.
 
-    try:
-        os.remove(filepath)
-    except:
-        pass
-
     filepath, _ = urllib.request.urlretrieve(network_uri, filepath)
 
     return filepath
-- 
2.43.0

