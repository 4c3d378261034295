From 34790dd1909a94e26dc0633478e2dee00ddd26bb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:49:29 +0000
Subject: [PATCH 01/34] fix: keep expression coefficients as floats so that
 integer input is not truncated later

---
 qiskit_optimization/problems/linear_expression.py    | 3 ++-
 qiskit_optimization/problems/quadratic_expression.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index 5ff5468..aaff943 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -113,7 +113,8 @@ class LinearExpression(QuadraticProgramElement):
         Args:
             coefficients: The coefficients of the linear expression.
         """
-        self._coefficients = self._coeffs_to_dok_matrix(coefficients)
+        # store floats: with an integer type, values that are set or halved later get truncated
+        self._coefficients = self._coeffs_to_dok_matrix(coefficients).astype(float)
 
     def to_array(self) -> ndarray:
         """Returns the coefficients of the linear expression as array.
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index e968264..5311d31 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -154,7 +154,8 @@ class QuadraticExpression(QuadraticProgramElement):
         Args:
             coefficients: The coefficients of the quadratic expression.
         """
-        self._coefficients = self._coeffs_to_dok_matrix(coefficients)
+        # store floats: with an integer type, values that are set or halved later get truncated
+        self._coefficients = self._coeffs_to_dok_matrix(coefficients).astype(float)
 
     def to_array(self, symmetric: bool = False) -> ndarray:
         """Returns the coefficients of the quadratic expression as array.
-- 
2.43.0


From dc4e2e92fdbeba1772ce6bd0b88603a04c55503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:17 +0000
Subject: [PATCH 02/34] fix: a failed variable or constraint creation no longer
 corrupts the name index

---
 .../problems/quadratic_program.py             | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 6c88b2f..c038455 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -203,15 +203,15 @@ class QuadraticProgram:
                     raise QiskitOptimizationError(
                         "Variable name already exists: {}".format(new_name)
                     )
-                if new_name in self._variables_index:
+                if new_name in self._variables_index or new_name in new_variables:
                     k += 1
                     prev = new_name
                 else:
                     break
             return new_name, k + 1
 
-        names = []
-        variables = []
+        # register the variables only after all of them have been created successfully
+        new_variables = {}  # type: Dict[str, Variable]
         k = self.get_num_vars()
         lst = keys if isinstance(keys, Sequence) else range(keys)
         for key in lst:
@@ -219,16 +219,17 @@ class QuadraticProgram:
                 indexed_name = name + key_format.format(key)
             else:
                 indexed_name, k = _find_name(name, key_format, k)
-            if indexed_name in self._variables_index:
+            if indexed_name in self._variables_index or indexed_name in new_variables:
                 raise QiskitOptimizationError(
                     "Variable name already exists: {}".format(indexed_name)
                 )
-            names.append(indexed_name)
+            new_variables[indexed_name] = Variable(
+                self, indexed_name, lowerbound, upperbound, vartype
+            )
+        for indexed_name, variable in new_variables.items():
             self._variables_index[indexed_name] = self.get_num_vars()
-            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
             self._variables.append(variable)
-            variables.append(variable)
-        return names, variables
+        return list(new_variables.keys()), list(new_variables.values())
 
     def _var_dict(
         self,
@@ -646,10 +647,10 @@ class QuadraticProgram:
             while "c{}".format(k) in self.linear_constraints_index:
                 k += 1
             name = "c{}".format(k)
-        self.linear_constraints_index[name] = len(self.linear_constraints)
         if linear is None:
             linear = {}
         constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
+        self.linear_constraints_index[name] = len(self.linear_constraints)
         self.linear_constraints.append(constraint)
         return constraint
 
@@ -739,7 +740,6 @@ class QuadraticProgram:
             while "q{}".format(k) in self.quadratic_constraints_index:
                 k += 1
             name = "q{}".format(k)
-        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         if linear is None:
             linear = {}
         if quadratic is None:
@@ -747,6 +747,7 @@ class QuadraticProgram:
         constraint = QuadraticConstraint(
             self, name, linear, quadratic, Constraint.Sense.convert(sense), rhs
         )
+        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         self.quadratic_constraints.append(constraint)
         return constraint
 
-- 
2.43.0


From f8728086646477f52e72a4f54d422aa81ce019ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:04 +0000
Subject: [PATCH 03/34] fix: report conflicting bounds of a substitution as
 infeasible and refuse chained substitutions

---
 .../problems/quadratic_program.py             | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index c038455..52665e7 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1626,6 +1626,11 @@ class SubstituteVariables:
                         "Cannot substitute by variable that gets substituted itself: "
                         "{} <- {} {}".format(i, j, v)
                     )
+                if any(i_2 == k for k, _ in subs.values()):
+                    raise QiskitOptimizationError(
+                        "Cannot substitute a variable that substitutes another one: "
+                        "{} <- {} {}".format(i, j, v)
+                    )
                 subs[i_2] = (j_2, v)
 
         self._subs = subs
@@ -1669,11 +1674,17 @@ class SubstituteVariables:
                 lb_j = var_j.lowerbound
                 ub_j = var_j.upperbound
                 if v > 0:
-                    var_j.lowerbound = max(lb_j, new_lb_i)
-                    var_j.upperbound = min(ub_j, new_ub_i)
+                    new_lb_j = max(lb_j, new_lb_i)
+                    new_ub_j = min(ub_j, new_ub_i)
+                else:
+                    new_lb_j = max(lb_j, new_ub_i)
+                    new_ub_j = min(ub_j, new_lb_i)
+                if new_lb_j > new_ub_j:
+                    logger.warning("Infeasible substitution for variable: %s", i)
+                    feasible = False
                 else:
-                    var_j.lowerbound = max(lb_j, new_ub_i)
-                    var_j.upperbound = min(ub_j, new_lb_i)
+                    var_j.lowerbound = new_lb_j
+                    var_j.upperbound = new_ub_j
 
         for var in self._dst.variables:
             if var.lowerbound > var.upperbound:
-- 
2.43.0


From f4d00b4070ae3bd041bbdb4c99d937a9c807ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 04/34] fix: IntegerToBinary weights the linear terms of
 products of integer variables

---
 qiskit_optimization/converters/integer_to_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b4e19db..b9027ba 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -152,9 +152,9 @@ class IntegerToBinary(QuadraticProgramConverter):
                         quadratic[z_x, z_y] = v * coeff_x * coeff_y
 
                 for z_x, coeff_x in self._conv[x]:
-                    linear[z_x] = linear.get(z_x, 0.0) + v * y.lowerbound
+                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                 for z_y, coeff_y in self._conv[y]:
-                    linear[z_y] = linear.get(z_y, 0.0) + v * x.lowerbound
+                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound
 
                 constant += v * x.lowerbound * y.lowerbound
 
-- 
2.43.0


From da7868468e9ef351e3f7e65e7300afee86cab50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 05/34] fix: IntegerToBinary accepts integer variables that are
 fixed by their bounds

---
 qiskit_optimization/converters/integer_to_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b9027ba..a1e47c1 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -104,7 +104,7 @@ class IntegerToBinary(QuadraticProgramConverter):
         self, name: str, lowerbound: float, upperbound: float
     ) -> List[Tuple[str, int]]:
         var_range = upperbound - lowerbound
-        power = int(np.log2(var_range))
+        power = int(np.log2(var_range)) if var_range > 0 else 0
         bounded_coef = var_range - (2 ** power - 1)
 
         coeffs = [2 ** i for i in range(power)] + [bounded_coef]
-- 
2.43.0


From 5389110324e365447f2088327eb6ac2dc9aa792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 06/34] fix: InequalityToEquality returns a problem that can be
 evaluated

---
 qiskit_optimization/converters/inequality_to_equality.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index a59cafb..6073e67 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -175,6 +175,15 @@ class InequalityToEquality(QuadraticProgramConverter):
                     "Type of sense in {} is not supported".format(q_constraint.name)
                 )
 
+        # The slack variables were added one by one. Give all expressions their final size.
+        self._dst.objective.linear = self._dst.objective.linear.to_dict()
+        self._dst.objective.quadratic = self._dst.objective.quadratic.to_dict()
+        for l_constraint in self._dst.linear_constraints:
+            l_constraint.linear = l_constraint.linear.to_dict()
+        for q_constraint in self._dst.quadratic_constraints:
+            q_constraint.linear = q_constraint.linear.to_dict()
+            q_constraint.quadratic = q_constraint.quadratic.to_dict()
+
         return self._dst
 
     def _add_integer_slack_var_linear_constraint(self, linear, sense, rhs, name):
-- 
2.43.0


From 93356b9bb5d35f8966ffcbcf4b66f47004b0304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 07/34] fix: InequalityToEquality uses a continuous slack
 variable if continuous variables are involved

---
 .../converters/inequality_to_equality.py      | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index 6073e67..942dd15 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -14,7 +14,7 @@
 import copy
 import logging
 import math
-from typing import List, Optional, Union
+from typing import Iterable, List, Optional, Union
 
 import numpy as np
 
@@ -257,8 +257,11 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", rhs, name)
 
     def _add_auto_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())):
+        # If a coefficient that is not integer or a continuous variable exist,
+        # use a continuous slack variable
+        if self._contains_any_float_value(
+            list(linear.values())
+        ) or self._contains_any_continuous_variable(linear):
             self._add_continuous_slack_var_linear_constraint(linear, sense, rhs, name)
         # Else use an integer slack variable
         else:
@@ -339,9 +342,13 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.quadratic_constraint(new_linear, quadratic, "==", rhs, name)
 
     def _add_auto_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())) or self._contains_any_float_value(
-            list(quadratic.values())
+        # If a coefficient that is not integer or a continuous variable exist,
+        # use a continuous slack variable
+        if (
+            self._contains_any_float_value(list(linear.values()))
+            or self._contains_any_float_value(list(quadratic.values()))
+            or self._contains_any_continuous_variable(linear)
+            or self._contains_any_continuous_variable(name for pair in quadratic for name in pair)
         ):
             self._add_continuous_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
         # Else use an integer slack variable
@@ -414,6 +421,13 @@ class InequalityToEquality(QuadraticProgramConverter):
         """
         return any(isinstance(v, float) and not v.is_integer() for v in values)  # type: ignore
 
+    def _contains_any_continuous_variable(self, names: Iterable[str]) -> bool:
+        """Check whether any of the variables is continuous, i.e., whether the value of the
+        constraint can be fractional in spite of integer coefficients."""
+        return any(
+            self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS for name in names
+        )
+
     @property
     def mode(self) -> str:
         """Returns the mode of the converter
-- 
2.43.0


From 295ef66237f3a3bd13235f42cf81264c176e0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:56 +0000
Subject: [PATCH 08/34] fix: from_ising accepts identity terms and sums that
 reduce to a single Pauli term

---
 .../problems/quadratic_program.py               | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 52665e7..86087e2 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1374,10 +1374,10 @@ class QuadraticProgram:
         # The other elements in the QUBO matrix are for quadratic terms of the qubit operator.
         qubo_matrix = zeros((qubit_op.num_qubits, qubit_op.num_qubits))
 
-        if not isinstance(qubit_op, SummedOp):
-            pauli_list = [qubit_op.to_pauli_op()]
-        else:
-            pauli_list = qubit_op.to_pauli_op()
+        # a sum can be reduced to a single Pauli operator
+        pauli_list = qubit_op.to_pauli_op()
+        if not isinstance(pauli_list, SummedOp):
+            pauli_list = [pauli_list]
 
         for pauli_op in pauli_list:
             pauli_op = pauli_op.to_pauli_op()
@@ -1389,10 +1389,13 @@ class QuadraticProgram:
             num_z = len(z_index)
 
             # Add its weight of the Pauli term to the corresponding element of QUBO matrix
-            if num_z == 1:
-                qubo_matrix[z_index[0], z_index[0]] = coeff.real
+            if num_z == 0:
+                # the identity only shifts the offset
+                offset += coeff.real
+            elif num_z == 1:
+                qubo_matrix[z_index[0], z_index[0]] += coeff.real
             elif num_z == 2:
-                qubo_matrix[z_index[0], z_index[1]] = coeff.real
+                qubo_matrix[z_index[0], z_index[1]] += coeff.real
             else:
                 raise QiskitOptimizationError(
                     "There are more than 2 Pauli Zs in the Pauli term {}".format(pauli.z)
-- 
2.43.0


From 9a1b1f489f4e5af0726105fa61b4dcf15e6eeb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:56 +0000
Subject: [PATCH 09/34] fix: to_ising returns a zero operator for a constant
 objective

---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 86087e2..2070bc5 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1323,12 +1323,12 @@ class QuadraticProgram:
         # Remove paulis whose coefficients are zeros.
         qubit_op = sum(PauliOp(pauli, coeff=coeff) for coeff, pauli in pauli_list)
 
-        # qubit_op could be the integer 0, in this case return an identity operator of
+        # qubit_op could be the integer 0, in this case return a zero operator of
         # appropriate size
         if isinstance(qubit_op, OperatorBase):
             qubit_op = qubit_op.reduce()
         else:
-            qubit_op = I ^ num_nodes
+            qubit_op = 0 * (I ^ num_nodes)
 
         return qubit_op, offset
 
-- 
2.43.0


From c690bcdb809632e7ea0b0c417307bebc37ac0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:57 +0000
Subject: [PATCH 10/34] fix: from_docplex no longer drops elements of the model
 silently

---
 qiskit_optimization/problems/quadratic_program.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 2070bc5..52c4e98 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -885,6 +885,12 @@ class QuadraticProgram:
             QiskitOptimizationError: if the model contains unsupported elements.
         """
 
+        # these elements would be lost silently
+        if model.number_of_sos or model.number_of_lazy_constraints or model.has_multi_objective():
+            raise QiskitOptimizationError(
+                "Special ordered sets, lazy constraints, and multiple objectives are not supported."
+            )
+
         # clear current problem
         self.clear()
 
@@ -897,9 +903,10 @@ class QuadraticProgram:
         for x in model.iter_variables():
             if isinstance(x.vartype, ContinuousVarType):
                 x_new = self.continuous_var(x.lb, x.ub, x.name)
-            elif isinstance(x.vartype, BinaryVarType):
+            elif isinstance(x.vartype, BinaryVarType) and x.lb == 0 and x.ub == 1:
                 x_new = self.binary_var(x.name)
-            elif isinstance(x.vartype, IntegerVarType):
+            elif isinstance(x.vartype, (BinaryVarType, IntegerVarType)):
+                # a binary variable with tightened bounds becomes an integer variable
                 x_new = self.integer_var(x.lb, x.ub, x.name)
             else:
                 raise QiskitOptimizationError(
-- 
2.43.0


From f41f2f2f63c5ac5063859ebd6338cc0ad22adc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:16 +0000
Subject: [PATCH 11/34] fix: read measured eigenstates in the right bit order
 and as amplitudes

---
 .../algorithms/grover_optimizer.py            |  9 ++++----
 .../algorithms/optimization_algorithm.py      | 22 +++++++++++--------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 749f540..ea320d3 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -261,9 +261,10 @@ class GroverOptimizer(OptimizationAlgorithm):
                         rho = partial_trace(self._circuit_results, indices)
                         self._circuit_results = np.diag(rho.data) ** 0.5
                     else:
-                        self._circuit_results = {
-                            i[0:n_key]: v for i, v in self._circuit_results.items()
-                        }
+                        key_probs = {}  # type: Dict[str, float]
+                        for i, v in self._circuit_results.items():
+                            key_probs[i[-n_key:]] = key_probs.get(i[-n_key:], 0.0) + v ** 2
+                        self._circuit_results = {i: v ** 0.5 for i, v in key_probs.items()}
 
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
@@ -347,7 +348,7 @@ class GroverOptimizer(OptimizationAlgorithm):
             state = result.get_counts(qc)
             shots = self.quantum_instance.run_config.shots
             hist = {key[::-1]: val / shots for key, val in state.items() if val > 0}
-            self._circuit_results = {b[::-1]: np.sqrt(v / shots) for (b, v) in state.items()}
+            self._circuit_results = {b: np.sqrt(v / shots) for (b, v) in state.items()}
         return hist
 
     @staticmethod
diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 41174e4..39741c5 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -510,6 +510,8 @@ class OptimizationAlgorithm(ABC):
 
         Args:
             eigenvector: The eigenvector from which the solution states are extracted.
+                A dictionary maps bitstrings, whose rightmost bit belongs to the first variable,
+                to (not necessarily normalized) amplitudes.
             qubo: The QUBO to evaluate at the bitstring.
             min_probability: Only consider states where the amplitude exceeds this threshold.
 
@@ -520,10 +522,10 @@ class OptimizationAlgorithm(ABC):
 
         Examples:
             >>> op = MatrixOp(numpy.array([[1, 1], [1, -1]]) / numpy.sqrt(2))
-            >>> eigenvectors = {'0': 12, '1': 1}
+            >>> eigenvectors = {'0': 3, '1': 1}
             >>> print(eigenvector_to_solutions(eigenvectors, op))
-            [('0', 0.7071067811865475, 0.9230769230769231),
-            ('1', -0.7071067811865475, 0.07692307692307693)]
+            [('0', 0.7071067811865475, 0.9),
+            ('1', -0.7071067811865475, 0.1)]
 
             >>> op = MatrixOp(numpy.array([[1, 1], [1, -1]]) / numpy.sqrt(2))
             >>> eigenvectors = numpy.array([1, 1] / numpy.sqrt(2), dtype=complex)
@@ -535,12 +537,12 @@ class OptimizationAlgorithm(ABC):
             TypeError: If the type of eigenvector is not supported.
         """
         if isinstance(eigenvector, DictStateFn):
-            eigenvector = {bitstr: val ** 2 for (bitstr, val) in eigenvector.primitive.items()}
+            eigenvector = eigenvector.primitive
         elif isinstance(eigenvector, StateFn):
             eigenvector = eigenvector.to_matrix()
 
         def generate_solution(bitstr, qubo, probability):
-            x = np.fromiter(list(bitstr), dtype=int)
+            x = np.fromiter(list(bitstr[::-1]), dtype=int)
             fval = qubo.objective.evaluate(x)
             return SolutionSample(
                 x=x,
@@ -551,10 +553,12 @@ class OptimizationAlgorithm(ABC):
 
         solutions = []
         if isinstance(eigenvector, dict):
-            all_counts = sum(eigenvector.values())
+            # the values are amplitudes
+            weights = {bitstr: abs(val) ** 2 for bitstr, val in eigenvector.items()}
+            total_weight = sum(weights.values())
             # iterate over all samples
-            for bitstr, count in eigenvector.items():
-                sampling_probability = count / all_counts
+            for bitstr, weight in weights.items():
+                sampling_probability = weight / total_weight
                 # add the bitstring, if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
                     solutions.append(generate_solution(bitstr, qubo, sampling_probability))
@@ -567,7 +571,7 @@ class OptimizationAlgorithm(ABC):
             for i, sampling_probability in enumerate(probabilities):
                 # add the i-th state if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
-                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")[::-1]
+                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")
                     solutions.append(generate_solution(bitstr, qubo, sampling_probability))
 
         else:
-- 
2.43.0


From 21280c600a4377ea1159e8ff767d68f2fde73567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:16 +0000
Subject: [PATCH 12/34] fix: GroverOptimizer does not change the given problem
 if there are no converters

---
 qiskit_optimization/algorithms/grover_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index ea320d3..16cc900 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -173,8 +173,8 @@ class GroverOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO
-        problem_ = self._convert(problem, self._converters)
-        problem_init = deepcopy(problem_)
+        problem_init = self._convert(problem, self._converters)
+        problem_ = deepcopy(problem_init)
 
         # convert to minimization problem
         if problem_.objective.sense == problem_.objective.Sense.MAXIMIZE:
-- 
2.43.0


From cc8a6422b5740f0720d8311be476f3b2d2cca54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:14 +0000
Subject: [PATCH 13/34] fix: RecursiveMinimumEigenOptimizer does not change the
 given problem if there are no converters

---
 .../algorithms/recursive_minimum_eigen_optimizer.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index f9487eb..fde647c 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -224,8 +224,8 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO, this implicitly checks if the problem is compatible
-        problem_ = self._convert(problem, self._converters)
-        problem_ref = deepcopy(problem_)
+        problem_ref = self._convert(problem, self._converters)
+        problem_ = deepcopy(problem_ref)
 
         # run recursive optimization until the resulting problem is small enough
         replacements = {}  # type: Dict[str, Tuple[str, int]]
-- 
2.43.0


From 7696b6563108e8b1c7ae78a7bb8757f3858e719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:07 +0000
Subject: [PATCH 14/34] fix: RecursiveMinimumEigenOptimizer keeps the bounds of
 anti-correlated variables

---
 .../algorithms/recursive_minimum_eigen_optimizer.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index fde647c..3ab3998 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -274,6 +274,10 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
                     else:
                         problem_.objective.linear[k] = 0
 
+                # 1c. shift the bounds
+                problem_.variables[i].lowerbound -= 1
+                problem_.variables[i].upperbound -= 1
+
                 # 2. replace x_i by -x_j
                 problem_ = problem_.substitute_variables(variables={i: (j, -1)})
                 if problem_.status == QuadraticProgram.Status.INFEASIBLE:
-- 
2.43.0


From a6c111393405e142d53360f31926ba4f1a57e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:09 +0000
Subject: [PATCH 15/34] fix: multi start optimizers return the best trial of
 maximization problems

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 57ed263..624d624 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -90,14 +90,14 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
             fval = problem.objective.evaluate(x) * problem.objective.sense.value
             # we minimize the objective
             if fval < fval_sol:
-                # here we get back to the original sense of the problem
-                fval_sol = fval * problem.objective.sense.value
+                fval_sol = fval
                 x_sol = x
                 rest_sol = rest
 
         return OptimizationResult(
             x=x_sol,
-            fval=fval_sol,
+            # here we get back to the original sense of the problem
+            fval=fval_sol * problem.objective.sense.value,
             variables=problem.variables,
             status=self._get_feasibility_status(problem, x_sol),
             raw_results=rest_sol,
-- 
2.43.0


From 496bf1f018634405358b62c1709795c7fcfc00d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:24 +0000
Subject: [PATCH 16/34] fix: ADMM step 1 includes all binary variables of the
 objective and of binary equalities

---
 qiskit_optimization/algorithms/admm_optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 2b4694d..bf38a73 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -541,10 +541,11 @@ class ADMMOptimizer(OptimizationAlgorithm):
         for binary_index in self._state.binary_indices:
             # here we check if this binary variable present in the objective
             # either in the linear or quadratic terms
+            quadratic = self._state.op.objective.quadratic.coefficients
             if (
                 self._state.op.objective.linear[binary_index] != 0
-                or np.abs(self._state.op.objective.quadratic.coefficients[binary_index, :]).sum()
-                != 0
+                or np.abs(quadratic[binary_index, :]).sum() != 0
+                or np.abs(quadratic[:, binary_index]).sum() != 0
             ):
                 # add the variable if it was not added before
                 if binary_index not in step1_absolute_indices:
@@ -559,7 +560,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         for constraint in self._state.binary_equality_constraints:
             for binary_index in list(rest_binary):
                 if (
-                    constraint.linear[binary_index] > 0
+                    constraint.linear[binary_index] != 0
                     and binary_index not in step1_absolute_indices
                 ):
                     # a binary variable with the binary_index is present in this constraint
-- 
2.43.0


From ff24cec3f2438e8b27dd234de559a030c2ec7be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:24 +0000
Subject: [PATCH 17/34] fix: ADMM saves the iterates of y in y_saved and not in
 z_saved

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index bf38a73..b5b22fb 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -384,7 +384,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             self._state.x0_saved.append(self._state.x0)
             self._state.u_saved.append(self._state.u)
             self._state.z_saved.append(self._state.z)
-            self._state.z_saved.append(self._state.y)
+            self._state.y_saved.append(self._state.y)
 
             self._update_rho(residual, dual_residual)
 
-- 
2.43.0


From d588a0932f301a39969de682950138eb9e509bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:24 +0000
Subject: [PATCH 18/34] fix: ADMM decreases rho if the dual residual dominates

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index b5b22fb..587fd9b 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -823,7 +823,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             if primal_residual > self._params.mu_res * dual_residual:
                 self._state.rho = self._params.tau_incr * self._state.rho
             elif dual_residual > self._params.mu_res * primal_residual:
-                self._state.rho = self._params.tau_decr * self._state.rho
+                self._state.rho = self._state.rho / self._params.tau_decr
 
     def _get_constraint_residual(self) -> float:
         """Compute violation of the constraints of the original problem, as:
-- 
2.43.0


From c59d45c1665164f2464e8063f3cb006e5d8a6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:24 +0000
Subject: [PATCH 19/34] fix: ADMM step 2 no longer keeps products of binary
 variables

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 587fd9b..ce9616c 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -697,6 +697,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
             variable.upperbound = 1.0
             variable.lowerbound = 0.0
             # replacing Q0 objective and take of min/max sense, initially we consider minimization
+            for other_index in self._state.binary_indices:
+                op2.objective.quadratic[var_index, other_index] = 0
             op2.objective.quadratic[var_index, var_index] = self._state.rho / 2
             # replacing linear objective
             op2.objective.linear[var_index] = -1 * self._state.lambda_mult[i] - self._state.rho * (
-- 
2.43.0


From 3c10d173a46a0417fdf48d53939e832084055a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:24 +0000
Subject: [PATCH 20/34] fix: ADMM refuses products of integer and continuous
 variables in the objective

---
 qiskit_optimization/algorithms/admm_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index ce9616c..8d46faa 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -266,7 +266,9 @@ class ADMMOptimizer(OptimizationAlgorithm):
         msg = ""
 
         # 1. get bin/int and continuous variable indices
-        bin_int_indices = self._get_variable_indices(problem, Variable.Type.BINARY)
+        bin_int_indices = self._get_variable_indices(
+            problem, Variable.Type.BINARY
+        ) + self._get_variable_indices(problem, Variable.Type.INTEGER)
         continuous_indices = self._get_variable_indices(problem, Variable.Type.CONTINUOUS)
 
         # 2. binary and continuous variables are separable in objective
-- 
2.43.0


From 594873587052a4ddbc7771bb60c51e2dfe8b93a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:02 +0000
Subject: [PATCH 21/34] fix: Maxcut.parse_gset_format reads the edge weights

---
 qiskit_optimization/applications/max_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index 3510773..d1d5bf5 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -116,10 +116,10 @@ class Maxcut(GraphOptimizationApplication):
                     w = np.zeros((n, n))
                     header = False
                 else:
-                    s__, t__, _ = v
+                    s__, t__, weight = v
                     s__ -= 1  # adjust 1-index
                     t__ -= 1  # ditto
-                    w[s__, t__] = t__
+                    w[s__, t__] = weight
                     count += 1
             assert m == count
         w += w.T
-- 
2.43.0


From 29f760664cf3492387bdcdf991f74d590d420373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:02 +0000
Subject: [PATCH 22/34] fix: Maxcut draws the nodes of the graph in the colors
 of their own variables

---
 qiskit_optimization/applications/max_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index d1d5bf5..3ba27ec 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -91,7 +91,7 @@ class Maxcut(GraphOptimizationApplication):
         # Return a list of strings for draw.
         # Color a node with red when the corresponding variable is 1.
         # Otherwise color it with blue.
-        return ["r" if value == 0 else "b" for value in x]
+        return ["r" if x[node] == 0 else "b" for node in self._graph.nodes]
 
     @staticmethod
     def parse_gset_format(filename: str) -> np.ndarray:
-- 
2.43.0


From 7e6c6a1747236b1ab8f9d337e3678f9dc1afe32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:02 +0000
Subject: [PATCH 23/34] fix: Tsp.parse_tsplib_format reads TSPLIB files

---
 qiskit_optimization/applications/tsp.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 822f8a6..ac61ab3 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -160,11 +160,9 @@ class Tsp(GraphOptimizationApplication):
             coord_section = False
             for line in infile:
                 if line.startswith("NAME"):
-                    name = line.split(":")[1]
-                    name.strip()
+                    name = line.split(":")[1].strip()
                 elif line.startswith("TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "TSP":
                         raise QiskitOptimizationError(
                             'This supports only "TSP" type. Actual: {}'.format(typ)
@@ -173,14 +171,15 @@ class Tsp(GraphOptimizationApplication):
                     dim = int(line.split(":")[1])
                     coord = np.zeros((dim, 2))  # type: ignore
                 elif line.startswith("EDGE_WEIGHT_TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "EUC_2D":
                         raise QiskitOptimizationError(
                             'This supports only "EUC_2D" edge weight. Actual: {}'.format(typ)
                         )
                 elif line.startswith("NODE_COORD_SECTION"):
                     coord_section = True
+                elif line.startswith("EOF"):
+                    break
                 elif coord_section:
                     v = line.split()
                     index = int(v[0]) - 1
@@ -193,7 +192,7 @@ class Tsp(GraphOptimizationApplication):
         y_min = min(coord_[1] for coord_ in coord)
 
         graph = nx.random_geometric_graph(
-            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=coord
+            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=dict(enumerate(coord))
         )
         for w, v in graph.edges:
             delta = [graph.nodes[w]["pos"][i] - graph.nodes[v]["pos"][i] for i in range(2)]
-- 
2.43.0


From ed5ac9b6664e117bf645b0d6cb8b0672d505b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:17 +0000
Subject: [PATCH 24/34] fix: sort Grover raw samples best first for
 maximization problems

The samples of the converted problem were sorted with the sense of the
internally negated (always minimized) copy, i.e. worst first whenever the
converted problem is maximized.
---
 qiskit_optimization/algorithms/grover_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 16cc900..17681de 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -269,7 +269,7 @@ class GroverOptimizer(OptimizationAlgorithm):
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
                     )
-                    raw_samples.sort(key=lambda x: problem_.objective.sense.value * x.fval)
+                    raw_samples.sort(key=lambda x: problem_init.objective.sense.value * x.fval)
                     samples = self._interpret_samples(problem, raw_samples, self._converters)
                 else:
                     # Using Durr and Hoyer method, increase m.
-- 
2.43.0


From 31f73beff3807b2de378ac2ab24008c450621c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:31 +0000
Subject: [PATCH 25/34] fix: WarmStartQAOAOptimizer does not interpret
 aggregated samples twice

The samples of the single results are given in the variables of the original
problem already. Passing them through the converters again raised an error for
every problem with integer variables or inequality constraints. As in
MinimumEigenOptimizer, feasible samples come first.
---
 .../algorithms/warm_start_qaoa_optimizer.py           | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 53148fe..2be9b0e 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -336,15 +336,20 @@ class WarmStartQAOAOptimizer(MinimumEigenOptimizer):
             return results[0]
         else:
             samples = self._aggregator.aggregate(results)
-            samples.sort(key=lambda sample: converted_problem.objective.sense.value * sample.fval)
+            samples.sort(
+                key=lambda sample: (
+                    sample.status.value,
+                    problem.objective.sense.value * sample.fval,
+                )
+            )
 
-            # translate result back to the original variables
+            # the samples are already interpreted in the original variables by
+            # MinimumEigenOptimizer, so no converters are passed here
             return cast(
                 MinimumEigenOptimizationResult,
                 self._interpret(
                     x=samples[0].x,
                     problem=problem,
-                    converters=self._converters,
                     result_class=MinimumEigenOptimizationResult,
                     samples=samples,
                 ),
-- 
2.43.0


From a72bc09a0860e138614a936ec49fa26f94d28489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:31 +0000
Subject: [PATCH 26/34] fix: MeanAggregator keeps values and status of the
 samples

Values were encoded as strings of digits, which garbles values with more than
one digit or a sign, and every sample was declared a success.
---
 .../algorithms/warm_start_qaoa_optimizer.py   | 40 ++++++-------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 2be9b0e..a92eb52 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -66,41 +66,27 @@ class MeanAggregator(BaseAggregator):
         """
 
         # Use a dict for fast solution look-up
-        # Key: sample code, value: tuple of fval, probability
-        dict_samples: Dict[str, Tuple[float, float]] = {}
-
-        def _to_string(x: np.ndarray) -> str:
-            return "".join(str(int(v)) for v in x)
-
-        def _from_string(string) -> np.ndarray:
-            return np.array([float(c) for c in string])
+        # Key: variable values, value: the first sample with these values, sum of probabilities
+        dict_samples: Dict[Tuple[float, ...], Tuple[SolutionSample, float]] = {}
 
         # Sum up all the probabilities in the results
         for result in results:
             for sample in result.samples:
-                # state, fval, prob = sample[0], sample[1], sample[2]
-                state, fval, prob = (
-                    _to_string(sample.x),
-                    sample.fval,
-                    sample.probability,
-                )
-                if state in dict_samples:
-                    dict_samples[state] = (fval, dict_samples[state][1] + prob)
-                else:
-                    dict_samples[state] = (fval, prob)
+                state = tuple(sample.x)
+                first, prob = dict_samples.get(state, (sample, 0.0))
+                dict_samples[state] = (first, prob + sample.probability)
 
         # Divide by the number of results to normalize
-        aggregated_samples = []
         num_results = len(results)
-        for state in dict_samples:
-            # sample = (state, dict_samples[state][0], dict_samples[state][1] / num_results)
-            sample = SolutionSample(
-                x=_from_string(state),
-                fval=dict_samples[state][0],
-                probability=dict_samples[state][1] / num_results,
-                status=OptimizationResultStatus.SUCCESS,
+        aggregated_samples = [
+            SolutionSample(
+                x=sample.x,
+                fval=sample.fval,
+                probability=prob / num_results,
+                status=sample.status,
             )
-            aggregated_samples.append(sample)
+            for sample, prob in dict_samples.values()
+        ]
 
         return aggregated_samples
 
-- 
2.43.0


From 8cd34752f22affea43945dd09686a95105c2ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 27/34] fix: GoemansWilliamsonOptimizer reports a failed
 relaxation instead of raising

---
 qiskit_optimization/algorithms/goemans_williamson_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index 1cf06bd..a0a0e13 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -156,7 +156,7 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         except (DCPError, DGPError, SolverError):
             logger.error("Can't solve SDP problem")
             return GoemansWilliamsonOptimizationResult(
-                x=[],
+                x=None,
                 fval=0,
                 variables=problem.variables,
                 status=OptimizationResultStatus.FAILURE,
-- 
2.43.0


From ca1a191d104bbab07b8c4ac546b0ca923b70b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:40 +0000
Subject: [PATCH 28/34] fix: multi start guesses for variables whose only bound
 lies beyond the clipping parameter

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 624d624..2832740 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -80,6 +80,11 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
                 for i, var in enumerate(problem.variables):
                     lowerbound = var.lowerbound if var.lowerbound > -INFINITY else -self._clip
                     upperbound = var.upperbound if var.upperbound < INFINITY else self._clip
+                    # a finite bound beyond the clipping parameter takes precedence
+                    if var.lowerbound > -INFINITY:
+                        upperbound = max(lowerbound, upperbound)
+                    else:
+                        lowerbound = min(lowerbound, upperbound)
                     x_0[i] = uniform.rvs(lowerbound, (upperbound - lowerbound))
             # run optimization
             t_0 = time.time()
-- 
2.43.0


From 79d24a91d6b2c187ad19a301be248970f82b7592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:40 +0000
Subject: [PATCH 29/34] fix: from_ising mixed the operator with the previous
 content of the program

---
 qiskit_optimization/problems/quadratic_program.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 52c4e98..56ce657 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1371,6 +1371,9 @@ class QuadraticProgram:
                 "operator in the ListOp separately."
             )
 
+        # the indices below are those of the qubits: clear current problem
+        self.clear()
+
         # add binary variables
         for i in range(qubit_op.num_qubits):
             self.binary_var(name="x_{0}".format(i))
-- 
2.43.0


From 3b1d94c862c65fd39d4fe69e521b5e0c2bbcf192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:05 +0000
Subject: [PATCH 30/34] fix: CplexOptimizer raised CPLEX's error instead of
 reporting that there is no solution

---
 .../algorithms/cplex_optimizer.py             | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/cplex_optimizer.py b/qiskit_optimization/algorithms/cplex_optimizer.py
index 393a3a6..ecf05bb 100644
--- a/qiskit_optimization/algorithms/cplex_optimizer.py
+++ b/qiskit_optimization/algorithms/cplex_optimizer.py
@@ -15,7 +15,11 @@
 import logging
 
 from qiskit.exceptions import MissingOptionalLibraryError
-from .optimization_algorithm import OptimizationAlgorithm, OptimizationResult
+from .optimization_algorithm import (
+    OptimizationAlgorithm,
+    OptimizationResult,
+    OptimizationResultStatus,
+)
 from ..exceptions import QiskitOptimizationError
 from ..problems.quadratic_program import QuadraticProgram
 
@@ -134,13 +138,25 @@ class CplexOptimizer(OptimizationAlgorithm):
 
         # process results
         sol = cplex.solution
+        try:
+            values = sol.get_values()
+        except CplexSolverError as ex:
+            # no solution exists, e.g., the problem is infeasible or unbounded
+            logger.warning("CPLEX could not find a solution: %s", str(ex))
+            return OptimizationResult(
+                x=None,
+                fval=None,
+                variables=problem.variables,
+                status=OptimizationResultStatus.FAILURE,
+                raw_results=sol,
+            )
 
         # create results
         result = OptimizationResult(
-            x=sol.get_values(),
+            x=values,
             fval=sol.get_objective_value(),
             variables=problem.variables,
-            status=self._get_feasibility_status(problem, sol.get_values()),
+            status=self._get_feasibility_status(problem, values),
             raw_results=sol,
         )
 
-- 
2.43.0


From 880d4f0a11102e2faabba9501cf61061ceff43f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:21 +0000
Subject: [PATCH 31/34] fix: Tsp.create_random_instance ignored the seed 0

---
 qiskit_optimization/applications/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index ac61ab3..632c6f7 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -130,7 +130,7 @@ class Tsp(GraphOptimizationApplication):
         Returns:
              A Tsp instance created from the input information
         """
-        if seed:
+        if seed is not None:
             algorithm_globals.random_seed = seed
         coord = algorithm_globals.random.uniform(low, high, (n, 2))
         pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
-- 
2.43.0


From 0d510db1904437ef2f0143a6c71d2f9b973cbbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:30 +0000
Subject: [PATCH 32/34] fix: LinearEqualityToPenalty dropped the quadratic
 constraints of the problem

---
 .../converters/linear_equality_to_penalty.py           | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index 17cce7a..0db44e3 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -121,6 +121,16 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
         else:
             self._dst.maximize(offset, linear, quadratic)
 
+        # quadratic constraints are not converted
+        for quad_constraint in self._src.quadratic_constraints:
+            self._dst.quadratic_constraint(
+                quad_constraint.linear.to_dict(),
+                quad_constraint.quadratic.to_dict(),
+                quad_constraint.sense,
+                quad_constraint.rhs,
+                quad_constraint.name,
+            )
+
         # Update the penalty to the one just used
         self._penalty = penalty  # type: float
 
-- 
2.43.0


From dc7783c09da2ac71a4992aed8ae27d1b29fab5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:45 +0000
Subject: [PATCH 33/34] fix: InequalityToEquality failed if the name of a slack
 variable was taken

---
 .../converters/inequality_to_equality.py        | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index 942dd15..fffdc40 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -186,6 +186,15 @@ class InequalityToEquality(QuadraticProgramConverter):
 
         return self._dst
 
+    def _new_name(self, name: str) -> str:
+        """Return the name, extended by a number if there is a variable of this name already"""
+        new_name = name
+        count = 1
+        while new_name in self._dst.variables_index:
+            new_name = name + self._delimiter + str(count)
+            count += 1
+        return new_name
+
     def _add_integer_slack_var_linear_constraint(self, linear, sense, rhs, name):
         # If a coefficient that is not integer exist, raise error
         if self._contains_any_float_value(linear.values()):
@@ -202,7 +211,7 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_rhs = math.ceil(rhs)
 
         # Add a new integer variable.
-        slack_name = name + self._delimiter + "int_slack"
+        slack_name = self._new_name(name + self._delimiter + "int_slack")
 
         lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
 
@@ -230,7 +239,7 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", new_rhs, name)
 
     def _add_continuous_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        slack_name = name + self._delimiter + "continuous_slack"
+        slack_name = self._new_name(name + self._delimiter + "continuous_slack")
 
         lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
 
@@ -285,7 +294,7 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_rhs = math.ceil(rhs)
 
         # Add a new integer variable.
-        slack_name = name + self._delimiter + "int_slack"
+        slack_name = self._new_name(name + self._delimiter + "int_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
@@ -314,7 +323,7 @@ class InequalityToEquality(QuadraticProgramConverter):
 
     def _add_continuous_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
         # Add a new continuous variable.
-        slack_name = name + self._delimiter + "continuous_slack"
+        slack_name = self._new_name(name + self._delimiter + "continuous_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
-- 
2.43.0


From b16f0bf53d230f3bac9b6c5859548d2b4a31818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 34/34] fix: evaluate quadratic constraints whose linear terms
 cancel by substitution

scipy keeps an explicit zero when two dok matrices are added, so that the
number of stored entries is positive although no term is left; the constraint
was kept without any term (0 >= rhs) instead of being dropped or reported as
infeasible.
---
 qiskit_optimization/problems/quadratic_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 56ce657..0b41823 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1801,7 +1801,7 @@ class SubstituteVariables:
                     sense=quad_cst.sense,
                     rhs=rhs,
                 )
-            elif linear.nnz > 0:
+            elif linear.count_nonzero() > 0:
                 name = quad_cst.name
                 lin_names = set(lin.name for lin in self._dst.linear_constraints)
                 while name in lin_names:
-- 
2.43.0

