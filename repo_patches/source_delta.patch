From 6969cb80f8eb2c9121665e48a7773476538a6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 01/40] fix: save_optimization_results no longer adds a schema
 to the caller's object

---
 src/python/zquantum/core/serialization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index f58efc0..50e5c18 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -112,7 +112,10 @@ class OrquestraDecoder(json.JSONDecoder):
 
 
 def save_optimization_results(optimization_results: dict, filename: AnyPath):
-    optimization_results["schema"] = SCHEMA_VERSION + "-optimization_result"
+    optimization_results = {
+        **optimization_results,
+        "schema": SCHEMA_VERSION + "-optimization_result",
+    }
     with open(filename, "wt") as target_file:
         json.dump(optimization_results, target_file, cls=OrquestraEncoder)
 
-- 
2.43.0


From c9487ddba01797fe7142ba483fc5ce3f002e95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 02/40] fix: save_parameter_grid_evaluation no longer
 overwrites the caller's values

---
 src/python/zquantum/core/openfermion/zapata_utils/_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_io.py b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
index 89c6e1a..d60d0ec 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_io.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
@@ -295,11 +295,12 @@ def save_parameter_grid_evaluation(parameter_grid_evaluation, filename):
     full_dict = {}
     full_dict["schema"] = SCHEMA_VERSION + "-parameter_grid_evaluation"
 
+    values_set = []
     for evaluation in parameter_grid_evaluation:
         value = evaluation["value"].to_dict()
         value["schema"] = SCHEMA_VERSION + "-value_estimate"
-        evaluation["value"] = value
-    full_dict["values_set"] = parameter_grid_evaluation
+        values_set.append({**evaluation, "value": value})
+    full_dict["values_set"] = values_set
 
     with open(filename, "w") as f:
         f.write(json.dumps(full_dict, indent=2))
-- 
2.43.0


From d3516476e80ecccfbae3f3261da9cd886da6b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 03/40] fix: MockOptimizer no longer overwrites the caller's
 initial parameters

---
 src/python/zquantum/core/interfaces/mock_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/interfaces/mock_objects.py b/src/python/zquantum/core/interfaces/mock_objects.py
index 2e2cbad..4da07f6 100644
--- a/src/python/zquantum/core/interfaces/mock_objects.py
+++ b/src/python/zquantum/core/interfaces/mock_objects.py
@@ -48,7 +48,7 @@ class MockOptimizer(Optimizer):
     def _minimize(
         self, cost_function, initial_params: np.ndarray, keep_history: bool = False
     ):
-        new_parameters = initial_params
+        new_parameters = initial_params.copy()
         for i in range(len(initial_params)):
             new_parameters[i] += random.random()
         new_parameters = np.array(new_parameters)
-- 
2.43.0


From 9774f68065618573c61180ca74338c647fd1b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 04/40] fix: iterating over an operator no longer keeps the
 iteration state on it

---
 .../core/openfermion/ops/operators/symbolic_operator.py   | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 0f7a1ee..63e283a 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -619,12 +619,8 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         return not (self == other)
 
     def __iter__(self):
-        self._iter = iter(self.terms.items())
-        return self
-
-    def __next__(self):
-        term, coefficient = next(self._iter)
-        return self.__class__(term=term, coefficient=coefficient)
+        for term, coefficient in self.terms.items():
+            yield self.__class__(term=term, coefficient=coefficient)
 
     def isclose(self, other, tol=EQ_TOLERANCE):
         """Check if other (SymbolicOperator) is close to self.
-- 
2.43.0


From 6f19cab07142136182cb06cfe15e630652d892e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 05/40] fix: batch_circuits no longer appends to the circuit
 set it is given

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index bb9b72f..bd41c83 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -121,7 +121,7 @@ def batch_circuits(
     elif isinstance(circuit_set, str):
         loaded_circuit_set = load_circuitset(circuit_set)
     else:
-        loaded_circuit_set = circuit_set
+        loaded_circuit_set = list(circuit_set)
 
     for circuit in circuits:
         if isinstance(circuit, str):
-- 
2.43.0


From c956d7e419b00830517c718210dc6a0209174596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:30 +0000
Subject: [PATCH 06/40] fix: steps no longer write into the specification
 dictionaries they are given

---
 steps/measure.py  | 12 +++++++++---
 steps/optimize.py |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/steps/measure.py b/steps/measure.py
index 9dca346..50c2542 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -58,6 +58,7 @@ def run_circuit_and_measure(
 ):
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
+    backend_specs = dict(backend_specs)
     if noise_model is not None:
         backend_specs["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
@@ -92,6 +93,7 @@ def run_circuitset_and_measure(
 
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
+    backend_specs = dict(backend_specs)
     if noise_model is not None:
         backend_specs["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
@@ -124,6 +126,7 @@ def get_bitstring_distribution(
 ):
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
+    backend_specs = dict(backend_specs)
     if noise_model is not None:
         backend_specs["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
@@ -177,6 +180,7 @@ def evaluate_ansatz_based_cost_function(
 
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
+    backend_specs = dict(backend_specs)
     if noise_model is not None:
         backend_specs["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
@@ -194,6 +198,7 @@ def evaluate_ansatz_based_cost_function(
 
     if isinstance(cost_function_specs, str):
         cost_function_specs = json.loads(cost_function_specs)
+    cost_function_specs = dict(cost_function_specs)
 
     if (
         "estimator-specs" in cost_function_specs.keys()
@@ -230,9 +235,10 @@ def evaluate_ansatz_based_cost_function(
                 # Since we don't know which estimation task transformation uses
                 # prior_expectation_values, we add it to the kwargs of each one. If not
                 # used by a particular transformer, it will be ignored.
-                estimation_tasks_transformation_specs[
-                    "prior_expectation_values"
-                ] = prior_expectation_values
+                estimation_tasks_transformation_specs = {
+                    **estimation_tasks_transformation_specs,
+                    "prior_expectation_values": prior_expectation_values,
+                }
             cost_function_specs["estimation_preprocessors"].append(
                 create_object(
                     estimation_tasks_transformation_specs,
diff --git a/steps/optimize.py b/steps/optimize.py
index f8fa831..0cbaf55 100644
--- a/steps/optimize.py
+++ b/steps/optimize.py
@@ -198,6 +198,7 @@ def optimize_ansatz_based_cost_function(
 
     if isinstance(ansatz_specs, str):
         ansatz_specs = json.loads(ansatz_specs)
+    ansatz_specs = dict(ansatz_specs)
 
     if "WarmStartQAOAAnsatz" in ansatz_specs["function_name"]:
         ansatz_specs["thetas"] = np.array(load_list(kwargs.pop("thetas")))
-- 
2.43.0


From c45e4482fcf8bce5ad438e5283e64a8fe8fa7232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:42 +0000
Subject: [PATCH 07/40] fix: computing group variances no longer modifies the
 prior expectation values

---
 src/python/zquantum/core/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/hamiltonian.py b/src/python/zquantum/core/hamiltonian.py
index 01ed1fc..e0a9959 100644
--- a/src/python/zquantum/core/hamiltonian.py
+++ b/src/python/zquantum/core/hamiltonian.py
@@ -169,7 +169,7 @@ def compute_group_variances(
             raise ValueError(
                 "Number of expectation values should be the same as number of terms."
             )
-        real_expecval = expectation_values_to_real(expecval)
+        real_expecval = expectation_values_to_real(copy.deepcopy(expecval))
         if not np.logical_and(
             real_expecval.values >= -1, real_expecval.values <= 1
         ).all():
-- 
2.43.0


From 2855bd6d303a6de16eea64cb3897ac1dd7d654d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 08/40] fix: adding or subtracting an operator to itself in
 place no longer fails

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 63e283a..d15116b 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -438,7 +438,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, type(self)):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
@@ -485,7 +485,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot subtract invalid type.
         """
         if isinstance(subtrahend, type(self)):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) - subtrahend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
-- 
2.43.0


From 1504ad76f4e0d0b6e6424c715943f0eadcf4cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 09/40] fix: operator comparison no longer loosens its
 tolerance from term to term

---
 .../core/openfermion/ops/operators/symbolic_operator.py     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index d15116b..00a03a4 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -640,8 +640,10 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             a = self.terms[term]
             b = other.terms[term]
             if not (isinstance(a, sympy.Expr) or isinstance(b, sympy.Expr)):
-                tol *= max(1, abs(a), abs(b))
-            if self._issmall(a - b, tol) is False:
+                term_tol = tol * max(1, abs(a), abs(b))
+            else:
+                term_tol = tol
+            if self._issmall(a - b, term_tol) is False:
                 return False
         # terms only in one (compare to 0.0 so only abs_tol)
         for term in set(self.terms).symmetric_difference(set(other.terms)):
-- 
2.43.0


From b906cf6037513c02610005b7e5dbe2a0e17a0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 10/40] fix: compress keeps symbolic coefficients with negative
 parts

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 00a03a4..5f21df7 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -668,9 +668,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             coeff = self.terms[term]
 
             if isinstance(coeff, sympy.Expr):
-                if sympy.simplify(sympy.im(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.im(coeff)) <= abs_tol) == True:
                     coeff = sympy.re(coeff)
-                if sympy.simplify(sympy.re(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.re(coeff)) <= abs_tol) == True:
                     coeff = 1j * sympy.im(coeff)
                 if sympy.simplify(abs(coeff) <= abs_tol) != True:
                     new_terms[term] = coeff
-- 
2.43.0


From 9d695db124345d3d271652d8f2a42a8fd3c08a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 11/40] fix: tensor addition copies components missing from the
 left operand

---
 .../core/openfermion/ops/representations/polynomial_tensor.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index ed50e64..dc16b7c 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -237,7 +237,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], addend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = addend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(addend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From f143962d9117ad23453a1ac76fb9a72314b5e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 12/40] fix: unknown layer type is reported instead of silently
 returning None

---
 src/python/zquantum/core/circuits/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/layouts.py b/src/python/zquantum/core/circuits/layouts.py
index a0875a2..97528a0 100644
--- a/src/python/zquantum/core/circuits/layouts.py
+++ b/src/python/zquantum/core/circuits/layouts.py
@@ -165,7 +165,7 @@ def build_circuit_layers_and_connectivity(
     elif layer_type == "nearest-neighbor":
         return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
     else:
-        ValueError("Layer type {0} is not defined".format(layer_type))
+        raise ValueError("Layer type {0} is not defined".format(layer_type))
 
 
 def _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension):
-- 
2.43.0


From c99ad3d28cd60ae7b7593748c026435f2b9fc45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 13/40] fix: symbol substitution in gate parameters is
 simultaneous

---
 src/python/zquantum/core/circuits/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_operations.py b/src/python/zquantum/core/circuits/_operations.py
index 93f43ab..0877b47 100644
--- a/src/python/zquantum/core/circuits/_operations.py
+++ b/src/python/zquantum/core/circuits/_operations.py
@@ -74,7 +74,7 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From 237282132ec40df68fbb1f5b56a6e6cec412447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 14/40] fix: wavefunction binding substitutes all symbols
 simultaneously

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index e7e9736..d07b359 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -186,7 +186,7 @@ class Wavefunction:
         if not self.free_symbols:
             return self
         assert isinstance(self._amplitude_vector, Matrix)
-        result = self._amplitude_vector.subs(symbol_map)
+        result = self._amplitude_vector.subs(symbol_map, simultaneous=True)
 
         try:
             return type(self)(result)
-- 
2.43.0


From 56886a8046c521d60ddff58fb9a8c113b74ee9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 15/40] fix: rejected amplitude assignment restores the
 previous amplitudes

---
 src/python/zquantum/core/wavefunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index d07b359..9c86146 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -1,6 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
+from copy import copy
 from math import log2
 from typing import Any, Dict, List, Sequence, Set, Union
 from warnings import warn
@@ -110,7 +111,7 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
+        old_val = copy(self._amplitude_vector[idx])
         self._amplitude_vector[idx] = val
 
         try:
-- 
2.43.0


From f1934140cab8943529cbdf52c7228df3265b6898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 16/40] fix: translating an unsupported expression raises
 instead of giving None

---
 src/python/zquantum/core/circuits/symbolic/translations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/symbolic/translations.py b/src/python/zquantum/core/circuits/symbolic/translations.py
index 14b85aa..b4cccb2 100644
--- a/src/python/zquantum/core/circuits/symbolic/translations.py
+++ b/src/python/zquantum/core/circuits/symbolic/translations.py
@@ -13,7 +13,7 @@ from .expressions import Expression, ExpressionDialect, FunctionCall, Symbol
 def translate_expression(
     expression: Union[Expression, Tuple[Expression, ...]], dialect: ExpressionDialect
 ):
-    pass
+    raise NotImplementedError(f"Cannot translate expression of {type(expression)}")
 
 
 @translate_expression.register
-- 
2.43.0


From 94c7d36160163d27e326d74c75bbb12a4a26f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 17/40] fix: decomposed circuits keep the number of qubits of
 the original

---
 .../zquantum/core/decompositions/_zquantum_decompositions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
index cb0eae3..7bc2c19 100644
--- a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
+++ b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
@@ -49,4 +49,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_zquantum_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From ea1d96d7da093d0482fe53d76b1048b3a7e51868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 18/40] fix: custom gate parameters are restored with their own
 symbols

---
 src/python/zquantum/core/circuits/_serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index ded3b7f..140d859 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -270,7 +270,7 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    symbol_names = dict_.get("free_symbols", [])
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From 9d7a3020c6be42baef23c628dbdf4d5716a4dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 19/40] fix: definitions of custom gates inside controlled and
 dagger gates are collected

---
 src/python/zquantum/core/circuits/_circuit.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 4fd1a80..5ff3c50 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -25,9 +25,17 @@ def _circuit_size_by_operations(operations):
     )
 
 
+def _innermost_gate(operation):
+    gate = getattr(operation, "gate", None)
+    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):
+        gate = gate.wrapped_gate
+    return gate
+
+
 def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+    gate = _innermost_gate(operation)
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,7 +106,7 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
+            _innermost_gate(operation).matrix_factory.gate_definition
             for operation in self.operations
             if _operation_uses_custom_gate(operation)
         )
-- 
2.43.0


From 9c531ff2293b7e8bd09b148034af10b144d91cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 20/40] fix: custom gate matrices substitute all parameters
 simultaneously

---
 src/python/zquantum/core/circuits/_gates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index da7b523..c2f085c 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -357,7 +357,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
-- 
2.43.0


From c027b58fb5f135c469a44c340240328dc6d648f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 21/40] fix: gate parameters are matched to qubits in the order
 the qubits are given

---
 src/python/zquantum/core/circuits/_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_generators.py b/src/python/zquantum/core/circuits/_generators.py
index e1619db..55c3bf1 100644
--- a/src/python/zquantum/core/circuits/_generators.py
+++ b/src/python/zquantum/core/circuits/_generators.py
@@ -52,7 +52,7 @@ def apply_gate_to_qubits(
     Returns:
         circuit with the gate added to the specified qubits
     """
-    unique_qubit_idx = set(qubit_indices)
+    unique_qubit_idx = list(dict.fromkeys(qubit_indices))
 
     if len(unique_qubit_idx) != len(qubit_indices):
         warn("Duplicate qubits were passed! Duplicates will be ignored.")
-- 
2.43.0


From 3743f02766586f70f14f7603a8ee243e947eaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:27 +0000
Subject: [PATCH 22/40] fix: tensor subtraction copies components missing from
 the left operand

---
 .../core/openfermion/ops/representations/polynomial_tensor.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index dc16b7c..6ce9465 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -279,7 +279,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], subtrahend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = subtrahend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(subtrahend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From 9063e67d146df94fbd24bce1dbf21f008bc5538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 23/40] fix: higher-order Trotter derivatives repeat circuits
 for one step, not the whole time

---
 src/python/zquantum/core/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index b884b4d..dc553a1 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -163,7 +163,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", trotter_order=1
+            hamiltonian, time / trotter_order, method="Trotter", trotter_order=1
         )
 
         for position in range(trotter_order):
-- 
2.43.0


From 082a79f3c78f89e4c0f507e9245b46799351b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 24/40] fix: measurement tracking keeps earlier records when
 saving

---
 src/python/zquantum/core/trackers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 4a7114c..8d1b51f 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -153,4 +153,3 @@ class MeasurementTrackingBackend(QuantumBackend):
                 "raw-data": self.raw_data,
             }
             f.write(json.dumps(data))
-        self.raw_data = []
-- 
2.43.0


From 17a8f5a6c73fe378c73bb058f3decd1043670de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 25/40] fix: running a circuit set rejects mismatched numbers
 of samples

---
 src/python/zquantum/core/interfaces/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/interfaces/backend.py b/src/python/zquantum/core/interfaces/backend.py
index fd29f96..188fe4f 100644
--- a/src/python/zquantum/core/interfaces/backend.py
+++ b/src/python/zquantum/core/interfaces/backend.py
@@ -80,6 +80,9 @@ class QuantumBackend(ABC):
         """
         measurement_set: List[Measurements]
 
+        if len(circuits) != len(n_samples):
+            raise ValueError("Number of samples must be given for each circuit.")
+
         if not self.supports_batching:
             measurement_set = []
             for circuit, n_samples_for_circuit in zip(circuits, n_samples):
-- 
2.43.0


From 44afa98a395c6f95679f78fc925ed6e911192fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 26/40] fix: evaluating estimation circuits drops no task

---
 src/python/zquantum/core/estimation/_estimation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 852e066..06e14bd 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -198,6 +198,11 @@ def evaluate_estimation_circuits(
         symbols_maps: a list of dictionaries (or singular dictionary) that map the
             symbolic symbols used in the parametrized circuits to the associated values
     """
+    if len(symbols_maps) == 1:
+        symbols_maps = list(symbols_maps) * len(estimation_tasks)
+    elif len(symbols_maps) != len(estimation_tasks):
+        raise ValueError("Number of symbols maps must match the number of tasks.")
+
     return [
         EstimationTask(
             operator=estimation_task.operator,
-- 
2.43.0


From 425efb5a0b3817875e4d12c7f3cb0e1cabf40086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 27/40] fix: U3 decomposition leaves operations without a gate
 alone

---
 .../zquantum/core/decompositions/_zquantum_decompositions.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
index 7bc2c19..d97881c 100644
--- a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
+++ b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
@@ -20,7 +20,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
-        return (
+        return isinstance(operation, GateOperation) and (
             operation.gate.name == "U3"
             or isinstance(operation.gate, ControlledGate)
             and operation.gate.wrapped_gate.name == "U3"
-- 
2.43.0


From ce17f3941313099f7fcaa27f0bd712ada79825f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 28/40] fix: matrices of different shapes are not equal

---
 src/python/zquantum/core/circuits/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index c2f085c..5c3d181 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -446,7 +446,7 @@ def _are_matrix_elements_equal(element, another_element):
 
 
 def _are_matrices_equal(matrix, another_matrix):
-    return all(
+    return matrix.shape == another_matrix.shape and all(
         _are_matrix_elements_equal(element, another_element)
         for element, another_element in zip(matrix, another_matrix)
     )
-- 
2.43.0


From a8bedcfa846283855f6e02632762d5e6ef59add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 29/40] fix: dec2bin rejects the first number that does not fit

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 327baea..08905c5 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -72,7 +72,7 @@ def dec2bin(number: int, length: int) -> List[int]:
         A list of binary numbers
     """
 
-    if pow(2, length) < number:
+    if pow(2, length) <= number:
         sys.exit(
             "Insufficient number of bits for representing the number {}".format(number)
         )
-- 
2.43.0


From cc425f3671b341e6dd30eed889703cff5104ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 30/40] fix: compare_unitary handles products with a zero first
 entry

---
 src/python/zquantum/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 08905c5..20acb5f 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -160,6 +160,8 @@ def compare_unitary(u1: np.ndarray, u2: np.ndarray, tol: float = 1e-15) -> bool:
         raise Exception("The second input matrix is not unitary.")
 
     test_matrix = np.dot(u1.conj().T, u2)
+    if test_matrix.item((0, 0)) == 0:
+        return False
     phase = test_matrix.item((0, 0)) ** -1
     return is_identity(phase * test_matrix, tol)
 
-- 
2.43.0


From 812e5a00e41c7cb37b9527f649c87f01ab9593e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 31/40] fix: loading measurement estimates saved without frame
 measurements

---
 src/python/zquantum/core/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 20acb5f..1619a25 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -553,7 +553,7 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -568,7 +568,9 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
     with open(filename, "r") as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = None
+    if "frame_meas" in data:
+        frame_meas = convert_dict_to_array(data["frame_meas"])
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From b3af541dca4b184e0f017fd2a94d81f9fcb658bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 32/40] fix: copies of recorders keep the recorded gradient
 calls

---
 src/python/zquantum/core/history/recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 3ace945..9030e9f 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -64,6 +64,8 @@ def copy_recorder(recorder_to_copy):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = recorder_to_copy.history
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.copy(recorder_to_copy.gradient)
     return recorder_copy
 
 
@@ -76,6 +78,8 @@ def deepcopy_recorder(recorder_to_copy, memo):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = copy.deepcopy(recorder_to_copy.history, memo=memo)
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.deepcopy(recorder_to_copy.gradient, memo=memo)
     return recorder_copy
 
 
-- 
2.43.0


From f5d17a9c6c5c9d1496e719596378ca574d162cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 33/40] fix: computing the molecular RDM leaves the cached RDMs
 as they were

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 8a3b331..b7898f8 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -1155,6 +1155,8 @@ class MolecularData(object):
             two_rdm = self.cisd_two_rdm
 
         # Truncate.
+        one_rdm = numpy.array(one_rdm)
+        two_rdm = numpy.array(two_rdm)
         one_rdm[numpy.absolute(one_rdm) < EQ_TOLERANCE] = 0.0
         two_rdm[numpy.absolute(two_rdm) < EQ_TOLERANCE] = 0.0
 
-- 
2.43.0


From d02cb705977416b165c1c468044c18bac061a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 34/40] fix: freezing orbitals compares indices by value and
 honours prune

---
 .../transforms/repconversions/operator_tapering.py           | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index a871c6e..9a874fd 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -51,7 +51,7 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
             n_swaps = 0  # Number of swaps that have been done
 
             for op in enumerate(reversed(term)):
-                if op[1][0] is item[0]:
+                if op[1][0] == item[0]:
                     n_ops += 1
 
                     # Determine number of swaps needed to bring the op in
@@ -83,7 +83,8 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
                     new_operator.terms[term] *= -1
 
     # Renumber indices to remove frozen orbitals
-    new_operator = prune_unused_indices(new_operator)
+    if prune:
+        new_operator = prune_unused_indices(new_operator)
 
     return new_operator
 
-- 
2.43.0


From e9f915599d09a4c9efd83988d995f7be348234c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 35/40] fix: summing expectation values imports the operator
 type it converts to

---
 steps/measure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/measure.py b/steps/measure.py
index 50c2542..3fad3e5 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -31,6 +31,7 @@ from zquantum.core.measurement import (
     save_expectation_values,
 )
 from zquantum.core.openfermion import (
+    IsingOperator,
     SymbolicOperator,
     change_operator_type,
     load_interaction_rdm,
-- 
2.43.0


From 77220f1403af20cd112527ac766a88b5d582edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 36/40] fix: concatenating circuits saves the resulting circuit
 as a circuit

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index bd41c83..5a4f3fd 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -107,7 +107,7 @@ def concatenate_circuits(circuit_set: Union[str, List[Circuit]]):
     if isinstance(circuit_set, str):
         circuit_set = load_circuitset(circuit_set)
     result_circuit = sum(circuit_set, Circuit())
-    save_circuitset(result_circuit, "result-circuit.json")
+    save_circuit(result_circuit, "result-circuit.json")
 
 
 # Create one circuitset from circuit and circuitset objects
-- 
2.43.0


From 73a45ca37fb6c2dba7f8fde5914e59c7a2b0a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 37/40] fix: steps accept operators given as objects

---
 steps/evaluation.py | 3 ++-
 steps/operators.py  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 4af2867..7c3189a 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -102,7 +102,8 @@ def get_ground_state_rdm_from_qubit_operator(
         qubit_operator: The openfermion operator to diagonalize
         n_particles: number of particles in the target ground state
     """
-    qubit_operator = load_qubit_operator(qubit_operator)
+    if isinstance(qubit_operator, str):
+        qubit_operator = load_qubit_operator(qubit_operator)
     rdm = _get_ground_state_rdm_from_qubit_op(qubit_operator, n_particles)
     save_interaction_rdm(rdm, "rdms.json")
 
diff --git a/steps/operators.py b/steps/operators.py
index 406f237..c82d9b0 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -95,8 +95,10 @@ def interpolate_qubit_operators(
         target_qubit_operator: The target operator
         epsilon: The parameterization between the two operators. Default value is 0.5
     """
-    reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
-    target_qubit_operator = load_qubit_operator(target_qubit_operator)
+    if isinstance(reference_qubit_operator, str):
+        reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
+    if isinstance(target_qubit_operator, str):
+        target_qubit_operator = load_qubit_operator(target_qubit_operator)
 
     if epsilon > 1.0 or epsilon < 0.0:
         raise ValueError("epsilon must be in the range [0.0, 1.0]")
-- 
2.43.0


From faa592f43fdca0e04d4fcabcba67e3d96b95d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:18 +0000
Subject: [PATCH 38/40] fix: skip targets outside a truncated number-preserving
 basis

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 9cbbe39..7325aa5 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -791,6 +791,10 @@ def _build_term_op_(term, state_array, int_state_array, sorting_indices):
             int_state_array, int_encoding, sorter=sorting_indices
         )
 
+        if target_state_index_sorted == len(sorting_indices):
+            # The target is greater than every state in the space considered.
+            continue
+
         target_state = sorting_indices[target_state_index_sorted]
 
         if int_state_array[target_state] == int_encoding:
-- 
2.43.0


From bc6993b48ff28141213b3217b7d06a3dadc8f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:18 +0000
Subject: [PATCH 39/40] fix: honour n_qubits when making a polynomial tensor
 sparse

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 7325aa5..9b704be 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -456,7 +456,7 @@ def get_sparse_operator(operator, n_qubits=None, trunc=None, hbar=1.0):
     from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator
 
     if isinstance(operator, PolynomialTensor):
-        return jordan_wigner_sparse(get_fermion_operator(operator))
+        return jordan_wigner_sparse(get_fermion_operator(operator), n_qubits)
     elif isinstance(operator, FermionOperator):
         return jordan_wigner_sparse(operator, n_qubits)
     elif isinstance(operator, QubitOperator):
-- 
2.43.0


From be7af9257433bc32dabe72e016b8fd0f842b3cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:20 +0000
Subject: [PATCH 40/40] fix: load a zero operator saved as plain text as zero

---
 .../zquantum/core/openfermion/utils/operator_utils.py      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index cc72bf0..72664ee 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -239,10 +239,13 @@ def load_operator(file_name=None, data_directory=None, plain_text=False):
             data = f.read()
             operator_type, operator_terms = data.split(":\n")
 
+        # An operator with no terms left to print is written as "0" or as nothing.
+        is_zero = operator_terms in ("", "0")
+
         if operator_type == "FermionOperator":
-            operator = FermionOperator(operator_terms)
+            operator = FermionOperator() if is_zero else FermionOperator(operator_terms)
         elif operator_type == "QubitOperator":
-            operator = QubitOperator(operator_terms)
+            operator = QubitOperator() if is_zero else QubitOperator(operator_terms)
         else:
             raise TypeError("Operator of invalid type.")
     else:
-- 
2.43.0

