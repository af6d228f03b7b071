From 3c881c50b1402e430d1a7c12da62e3d1e824b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:33 +0000
Subject: [PATCH 01/74] fix: select the requested qubits in
 CompleteMeasFitter.subset_fitter

State labels list the first qubit as their rightmost character, so indexing them with the position of the qubit in qubit_list picked the wrong qubits.
---
 qiskit/ignis/mitigation/measurement/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index cef15a4..d7a878e 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -156,7 +156,9 @@ class CompleteMeasFitter:
         q_q_mapping = []
         state_labels_reduced = []
         for label in self.state_labels:
-            tmplabel = [label[index] for index in qubit_sublist_ind]
+            # the first qubit is the rightmost character of a label
+            tmplabel = [label[-1 - index]
+                        for index in reversed(qubit_sublist_ind)]
             state_labels_reduced.append(''.join(tmplabel))
 
         for sub_lab_ind, _ in enumerate(new_state_labels):
-- 
2.43.0


From 2c4736a9fb706188c9ba622922b0d22afbb7c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:33 +0000
Subject: [PATCH 02/74] fix: accept method=None as least_squares in the
 measurement filters, as documented

---
 qiskit/ignis/mitigation/measurement/filters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/mitigation/measurement/filters.py b/qiskit/ignis/mitigation/measurement/filters.py
index e8a9f69..92f4c95 100644
--- a/qiskit/ignis/mitigation/measurement/filters.py
+++ b/qiskit/ignis/mitigation/measurement/filters.py
@@ -105,6 +105,9 @@ class MeasurementFilter():
 
         """
 
+        if method is None:
+            method = 'least_squares'
+
         # check forms of raw_data
         if isinstance(raw_data, dict):
             # counts dictionary
@@ -305,6 +308,9 @@ class TensoredFilter():
             QiskitError: if raw_data is not in a one of the defined forms.
         """
 
+        if method is None:
+            method = 'least_squares'
+
         all_states = count_keys(self.nqubits)
         num_of_states = 2**self.nqubits
 
-- 
2.43.0


From 333c2a88e2fa9657070213855b7b1a9e0c4220aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:59 +0000
Subject: [PATCH 03/74] fix: replace removed numpy aliases in the CTMP
 mitigator

np.int and np.float no longer exist in numpy >= 1.24, so every CTMP expectation value raised AttributeError.
---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index a50075b..29560ff 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -131,8 +131,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         gamma = self.noise_strength(qubits)
         bmat = self._sampling_matrix(qubits)
         values = bmat.data
-        indices = np.asarray(bmat.indices, dtype=np.int)
-        indptrs = np.asarray(bmat.indptr, dtype=np.int)
+        indices = np.asarray(bmat.indices, dtype=int)
+        indptrs = np.asarray(bmat.indptr, dtype=int)
 
         # Set a minimum number of CTMP samples
         shots = sum(counts.values())
@@ -184,7 +184,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits not in self._generator_mats:
             # Construct G from subset generators
             qubits_set = set(qubits)
-            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=np.float)
+            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=float)
             for gen, rate in zip(self._generators, self._rates):
                 if qubits_set.issuperset(gen[2]):
                     # Keep generator
@@ -301,7 +301,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
 
         # Apply CTMP sampling
         r_vals = rng.random(size=alphas.sum())
-        y_vals = np.zeros(x_vals.size, dtype=np.int)
+        y_vals = np.zeros(x_vals.size, dtype=int)
         _markov_chain_compiled(y_vals, x_vals, r_vals, alphas, csc_data, csc_indices,
                                csc_indptrs)
 
-- 
2.43.0


From bc16c0a72dfd768885774340cf0a60ed884af6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 04/74] fix: do not swap the single-qubit error rates in the
 CTMP fit

The fit assigned the 1->0 rate to the 0->1 generator and the other way round. The matrices compensated for single-qubit errors by flipping the generator matrix, which in turn reversed the two-qubit errors, and the sampled expectation value did not compensate at all.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py    |  6 +++---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 12 ++----------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index 50cce64..fb3ffef 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -68,11 +68,11 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
     # pylint: disable=invalid-name
     rate_list = []
     if a == '0' and b == '1':
-        g1 = ('00', '10')
-        g2 = ('01', '11')
-    elif a == '1' and b == '0':
         g1 = ('10', '00')
         g2 = ('11', '01')
+    elif a == '1' and b == '0':
+        g1 = ('00', '10')
+        g2 = ('01', '11')
     else:
         raise ValueError('Invalid a,b encountered...')
     for k in range(num_qubits):
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 29560ff..30bef4c 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -206,11 +206,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the measurement error mitigation matrix :math:`A^{-1}`.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
-        gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
+        gmat = self.generator_matrix(qubits).toarray()
         return la.expm(-gmat)
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -226,11 +222,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the assignment matrix A.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
-        gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
+        gmat = self.generator_matrix(qubits).toarray()
         return la.expm(gmat)
 
     def noise_strength(self, qubits: Optional[int] = None) -> float:
-- 
2.43.0


From 784e6f476628cc1c3411edd24e82faf3e4671faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 05/74] fix: index TensoredExpvalMeasMitigator matrices by
 qubit, not by position

mitigation_matrix and assignment_matrix used qubits[i] where i already is a qubit, giving wrong matrices or an IndexError for subsets.
---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index e203500..9793868 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -138,7 +138,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._mitigation_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._mitigation_mats[qubits[i]], mat)
+            mat = np.kron(self._mitigation_mats[i], mat)
         return mat
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -160,7 +160,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._assignment_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._assignment_mats[qubits[i]], mat)
+            mat = np.kron(self._assignment_mats[i], mat)
         return mat
 
     def assignment_fidelity(self, qubits: Optional[List[int]] = None) -> float:
-- 
2.43.0


From 728004d506049bedfbabae3d4a4a0a26ffe1e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:11 +0000
Subject: [PATCH 06/74] fix: mitigate only the measured qubits when qubits are
 not given

With fewer measured bits than calibrated qubits the tensored and CTMP mitigators used all calibrated qubits instead of the documented [0, ..., n-1].
---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     | 8 +++-----
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 30bef4c..b034789 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -112,13 +112,11 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
             which physical qubits these bit-values correspond to as
             ``circuit.measure(qubits, clbits)``.
         """
-        if qubits is None:
-            qubits = list(range(self._num_qubits))
-
         # Convert counts to probs
         probs, shots = counts_probability_vector(
-            counts, clbits=clbits, qubits=qubits,
-            num_qubits=len(qubits), return_shots=True)
+            counts, clbits=clbits, qubits=qubits, return_shots=True)
+        if qubits is None:
+            qubits = list(range(int(np.log2(probs.shape[0]))))
 
         # Ensure diagonal is a numpy vector so we can use fancy indexing
         if diagonal is None:
diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index 9793868..53e85e1 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -105,7 +105,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits is not None:
             ainvs = self._mitigation_mats[list(qubits)]
         else:
-            ainvs = self._mitigation_mats
+            ainvs = self._mitigation_mats[:num_qubits]
 
         # Get operator coeffs
         if diagonal is None:
-- 
2.43.0


From b882fe2dd315aa0b35c224611210855de525194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 07/74] fix: keep observable and data aligned for qubits not in
 ascending order

The complete and CTMP mitigators sorted the measured data by qubit but not the diagonal of the observable.
---
 qiskit/ignis/mitigation/expval/complete_mitigator.py |  4 +++-
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     |  4 +++-
 qiskit/ignis/mitigation/expval/utils.py              | 11 ++++++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/complete_mitigator.py b/qiskit/ignis/mitigation/expval/complete_mitigator.py
index 5d6b67a..9548691 100644
--- a/qiskit/ignis/mitigation/expval/complete_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/complete_mitigator.py
@@ -18,7 +18,7 @@ from typing import Optional, List, Dict, Tuple
 import numpy as np
 
 from qiskit.exceptions import QiskitError
-from .utils import (counts_probability_vector, _expval_with_stddev)
+from .utils import (counts_probability_vector, _expval_with_stddev, _sort_qubits)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -102,6 +102,8 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
         # Get operator coeffs
         if diagonal is None:
             diagonal = self._z_diagonal(2 ** num_qubits)
+        # The mitigation matrix is in ascending qubit order
+        diagonal = _sort_qubits(diagonal, qubits)
         # Apply transpose of mitigation matrix
         coeffs = mit_mat.T.dot(diagonal)
 
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index b034789..001462a 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -25,7 +25,7 @@ from qiskit.exceptions import QiskitError
 from qiskit.ignis.numba import jit_fallback
 
 from .base_meas_mitigator import BaseExpvalMeasMitigator
-from .utils import counts_probability_vector
+from .utils import counts_probability_vector, _sort_qubits
 from .ctmp_generator_set import Generator
 
 logger = logging.getLogger(__name__)
@@ -122,6 +122,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if diagonal is None:
             diagonal = self._z_diagonal(2**len(qubits))
         diagonal = np.asarray(diagonal, dtype=probs.dtype)
+        # The generator matrix is in ascending qubit order
+        diagonal = _sort_qubits(diagonal, qubits)
 
         # Get arrays from CSC sparse matrix format
         # TODO: To use qubits kwarg we should compute the B-matrix and gamma
diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index bb9bb42..9c1cb63 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -139,9 +139,7 @@ def counts_probability_vector(
     if qubits is not None:
         if len(qubits) != num_qubits:
             raise QiskitError("Num qubits does not match vector length.")
-        axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
-        vec = np.reshape(vec,
-                         num_qubits * [2]).transpose(axes).reshape(vec.shape)
+        vec = _sort_qubits(vec, qubits)
     if return_shots:
         return vec, shots
     return vec
@@ -225,6 +223,13 @@ def assignment_matrix(cal_data: Dict[int, Dict[int, int]],
     return amat / renorm
 
 
+def _sort_qubits(vec: np.ndarray, qubits: List[int]) -> np.ndarray:
+    """Reorder a vector over listed qubits to ascending qubit order."""
+    num_qubits = len(qubits)
+    axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
+    return np.reshape(vec, num_qubits * [2]).transpose(axes).ravel()
+
+
 def _expval_with_stddev(coeffs: np.ndarray,
                         probs: np.ndarray,
                         shots: int) -> Tuple[float, float]:
-- 
2.43.0


From 48b41fa4176cc1958979f12593188ddff6dc88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 08/74] fix: respect the order of clbits when computing
 expectation values

The counts were marginalized in ascending bit order whatever the order of clbits, so they did not line up with the listed qubits as documented.
---
 qiskit/ignis/mitigation/expval/utils.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index 9c1cb63..f2af5db 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -22,7 +22,7 @@ import numpy as np
 
 from qiskit.exceptions import QiskitError
 from qiskit.result import Counts, Result
-from qiskit.ignis.verification.tomography import marginal_counts, combine_counts
+from qiskit.ignis.verification.tomography import combine_counts
 from qiskit.ignis.numba import jit_fallback
 
 logger = logging.getLogger(__name__)
@@ -79,7 +79,7 @@ def expectation_value(counts: Counts,
 
     # Marginalize counts
     if clbits is not None:
-        counts = marginal_counts(counts, meas_qubits=clbits)
+        counts = _marginalize_clbits(counts, clbits)
 
     # Get counts shots and probabilities
     probs = np.array(list(counts.values()))
@@ -121,7 +121,7 @@ def counts_probability_vector(
     """
     # Marginalize counts
     if clbits is not None:
-        counts = marginal_counts(counts, meas_qubits=clbits)
+        counts = _marginalize_clbits(counts, clbits)
 
     # Get total number of qubits
     if num_qubits is None:
@@ -223,6 +223,16 @@ def assignment_matrix(cal_data: Dict[int, Dict[int, int]],
     return amat / renorm
 
 
+def _marginalize_clbits(counts: Counts, clbits: List[int]) -> Dict[str, int]:
+    """Marginalize counts to the listed bits, the first one rightmost."""
+    ret = {}
+    for key, val in counts.items():
+        bits = key.replace(' ', '')
+        new_key = ''.join(bits[-1 - i] for i in reversed(clbits))
+        ret[new_key] = ret.get(new_key, 0) + val
+    return ret
+
+
 def _sort_qubits(vec: np.ndarray, qubits: List[int]) -> np.ndarray:
     """Reorder a vector over listed qubits to ascending qubit order."""
     num_qubits = len(qubits)
-- 
2.43.0


From d285348ecca764718ce3a48cfab6221b8087eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 09/74] fix: fit the error rates of a single-qubit CTMP
 calibration

The rates were averaged over the other qubits; with none, they became NaN and all errors were silently dropped.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index fb3ffef..1cee2bf 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -50,7 +50,7 @@ def fit_ctmp_meas_mitigator(cal_data: Dict[int, Dict[int, int]],
 
     gen_mat_dict = {}
     for gen in generators + _supplementary_generators(generators):
-        if len(gen[2]) > 1:
+        if len(gen[2]) > 1 or num_qubits == 1:
             mat = _local_g_matrix(gen, cal_data, num_qubits)
             gen_mat_dict[gen] = mat
 
@@ -75,6 +75,9 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
         g2 = ('01', '11')
     else:
         raise ValueError('Invalid a,b encountered...')
+    if num_qubits == 1:
+        # No other qubit to average over
+        return _ctmp_err_rate_2_q((b, a, (j,)), g_mat_dict)
     for k in range(num_qubits):
         if k == j:
             continue
@@ -129,14 +132,13 @@ def _local_g_matrix(gen: Generator,
     """Computes the G(j,k) matrix in the basis [00, 01, 10, 11]."""
     # pylint: disable=invalid-name
     _, _, c = gen
-    j, k = c
-    a_mat = assignment_matrix(cal_data, num_qubits, [j, k])
+    a_mat = assignment_matrix(cal_data, num_qubits, list(c))
     g = la.logm(a_mat)
     if np.linalg.norm(np.imag(g)) > 1e-3:
         raise QiskitError('Encountered complex entries in G_i={}'.format(g))
     g = np.real(g)
-    for i in range(4):
-        for j in range(4):
+    for i in range(len(g)):
+        for j in range(len(g)):
             if i != j:
                 if g[i, j] < 0:
                     g[i, j] = 0
-- 
2.43.0


From 8cb5ac34c1749d55c916ad6d71d87bd46c60fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:08 +0000
Subject: [PATCH 10/74] fix: do not modify the first argument of combine_counts

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 93e5ccb..7194c91 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -132,7 +132,7 @@ def combine_counts(counts1: Dict[str, int],
         >>> combine_counts(counts1, counts2)
         {'00': 7, '01': 5, '10': 7}
     """
-    ret = counts1
+    ret = dict(counts1)
     for key, val in counts2.items():
         if key in ret:
             ret[key] += val
-- 
2.43.0


From bc80efd50e93e7530f54d1d922693bf9eb3a16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:08 +0000
Subject: [PATCH 11/74] fix: label expectation_counts entries by the operator
 they belong to

The identity entry was always called '00' whatever the number of qubits, and the operator keys listed qubit 0 leftmost instead of rightmost as documented.
---
 qiskit/ignis/verification/tomography/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 7194c91..b5e2c40 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -173,7 +173,7 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
     shots = np.sum(list(counts.values()))
 
     # Compute measured operators subsets in a data set
-    numq = len(list(counts.keys())[0])
+    numq = len(list(counts.keys())[0].replace(' ', ''))
 
     # Get operator subsets
     subsets = []
@@ -181,14 +181,14 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
         subsets += list(combinations(range(numq), r + 1))
 
     # Compute expectation values
-    exp_data = {'00': shots}
+    exp_data = {numq * '0': shots}
     for subset in subsets:
         exp_counts = 0
         exp_op = numq * ['0']
 
         # Get expectation operator
         for qubit in subset:
-            exp_op[qubit] = '1'
+            exp_op[numq - 1 - qubit] = '1'
 
         # Get expectation value
         for key, val in marginal_counts(counts,
-- 
2.43.0


From 82e882953535e2433d0681342e133c6577f45ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:04 +0000
Subject: [PATCH 12/74] fix: marginalise over all measured qubits in state
 tomography with extra registers

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index d31531d..e09a552 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -280,7 +280,10 @@ class TomographyFitter:
             else:
                 tup = circ
             if marginalize:
-                counts = marginal_counts(counts, range(len(tup[0])))
+                # The tomography measurements are the first classical
+                # register, with one bit per measured qubit
+                meas_label = tup[1] if isinstance(tup[0], tuple) else tup
+                counts = marginal_counts(counts, range(len(meas_label)))
             if tup in self._data:
                 self._data[tup] = combine_counts(self._data[tup], counts)
             else:
-- 
2.43.0


From 5c94ec2dc4f43bc27753772a525c723fe302d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:04 +0000
Subject: [PATCH 13/74] fix: report missing tomography data given by circuit
 name

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index e09a552..e7e02b6 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -272,7 +272,8 @@ class TomographyFitter:
                 except QiskitError:
                     pass
             if counts is None:
-                raise QiskitError("Result for {} not found".format(circ.name))
+                raise QiskitError("Result for {} not found".format(
+                    getattr(circ, "name", circ)))
             if isinstance(circ, str):
                 tup = literal_eval(circ)
             elif isinstance(circ, QuantumCircuit):
-- 
2.43.0


From 16782984e18afd41c0b5ad33bf8b2c6307e1d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:49 +0000
Subject: [PATCH 14/74] fix: marginalise tomography data with extra registers
 given by circuit name

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index e7e02b6..afa8899 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -280,7 +280,7 @@ class TomographyFitter:
                 tup = literal_eval(circ.name)
             else:
                 tup = circ
-            if marginalize:
+            if marginalize or any(' ' in key for key in counts):
                 # The tomography measurements are the first classical
                 # register, with one bit per measured qubit
                 meas_label = tup[1] if isinstance(tup[0], tuple) else tup
-- 
2.43.0


From dc4d55c77a6526cb45bd9a78a5ba7bffa15fc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:36 +0000
Subject: [PATCH 15/74] fix: use a solver that accepts max_iters for cvx_fit
 without PSD constraint

---
 qiskit/ignis/verification/tomography/fitters/cvx_fit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qiskit/ignis/verification/tomography/fitters/cvx_fit.py b/qiskit/ignis/verification/tomography/fitters/cvx_fit.py
index 9f7aeee..f0af2c4 100644
--- a/qiskit/ignis/verification/tomography/fitters/cvx_fit.py
+++ b/qiskit/ignis/verification/tomography/fitters/cvx_fit.py
@@ -200,6 +200,10 @@ def cvx_fit(data: np.array,
             kwargs['solver'] = 'CVXOPT'
         elif 'MOSEK' in cvxpy.installed_solvers():
             kwargs['solver'] = 'MOSEK'
+        elif 'SCS' in cvxpy.installed_solvers():
+            # Always accepts the max_iters option, unlike the solver CVXPY
+            # would select for problems without the PSD constraint
+            kwargs['solver'] = 'SCS'
 
     problem_solved = False
     while not problem_solved:
-- 
2.43.0


From 6e88537bd01759f32a210070f5416b1121c365c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:24 +0000
Subject: [PATCH 16/74] fix: pass a one-dimensional initial value to the GST
 gauge optimisation

---
 qiskit/ignis/verification/tomography/fitters/gateset_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 55103d8..89ec7e1 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -283,7 +283,7 @@ class GaugeOptimize():
             The optimal gateset found by the gauge optimization
         """
         initial_value = np.array([(F @ self.rho).T[0] for F in self.Fs]).T
-        result = opt.minimize(self._obj_fn, initial_value)
+        result = opt.minimize(self._obj_fn, initial_value.ravel())
         return self._x_to_gateset(result.x)
 
 
-- 
2.43.0


From 8a2d9ab78be1af9d7cedfaee4b1c57a0596b67bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:24 +0000
Subject: [PATCH 17/74] fix: multiply SPAM gate matrices in the order the gates
 are applied

---
 qiskit/ignis/verification/tomography/basis/gatesetbasis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
index e5c94c1..ded4ddf 100644
--- a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
+++ b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
@@ -212,6 +212,7 @@ class GateSetBasis:
         Returns the matrix corresponding to a spam label
         Every spam is a sequence of gates, and so the result matrix
         is the product of the matrices corresponding to those gates
+        (the first gate in the sequence acts first)
 
         Params:
             label: Spam label
@@ -221,7 +222,7 @@ class GateSetBasis:
         """
         spec = self.spam_spec[label]
         f_matrices = [self.gate_matrices[gate_label] for gate_label in spec]
-        result = functools.reduce(lambda a, b: a @ b, f_matrices)
+        result = functools.reduce(lambda a, b: b @ a, f_matrices)
         return result
 
     def get_tomography_basis(self) -> TomographyBasis:
-- 
2.43.0


From 5ef0b0b481fbb72fb3c41e33c1da243bd14cf4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:52 +0000
Subject: [PATCH 18/74] fix: drop identically zero constraints that stop the
 GST optimisation at once

---
 .../verification/tomography/fitters/gateset_fitter.py    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 89ec7e1..025c836 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -549,7 +549,8 @@ class GST_Optimize():
             the PTM representation we are using:
             1) G_{0,0} is 1 for every gate G
             2) The rest of the first row of each G is 0.
-            3) G only has real values, so imaginary part is 0.
+            The PTM of each G is real by construction since it is computed
+            from a Hermitian Choi matrix.
 
             For additional info, see section 3.5.2 in arXiv:1509.02921
         """
@@ -569,7 +570,6 @@ class GST_Optimize():
             for _ in range((ds - 1) * ds):  # rest of G^k
                 i += 1
             for _ in range(ds ** 2):  # the complex part of G^k
-                bounds_eq.append(ptm_matrix[i] - 0)  # G^k_{0,i} is 0
                 i += 1
         return bounds_eq
 
@@ -619,10 +619,11 @@ class GST_Optimize():
             The list of computed constraint values (should be equal 0)
 
         Additional information:
-            We demand real(Tr(rho)) == 1 and imag(Tr(rho)) == 0
+            We demand real(Tr(rho)) == 1; the imaginary part is zero by
+            construction.
         """
         trace = self._rho_trace(x)
-        return [trace[0] - 1, trace[1]]
+        return [trace[0] - 1]
 
     def _constraints(self) -> List[Dict]:
         """Generates the constraints for the MLE optimization
-- 
2.43.0


From 490f849e4987a0b32cf96b189bf570139a6cf325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:26 +0000
Subject: [PATCH 19/74] fix: constrain the GST state and effect to be positive
 operators

---
 .../tomography/fitters/gateset_fitter.py       | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 025c836..366b8d6 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -429,8 +429,8 @@ class GST_Optimize():
         rho_T = self._vec_to_complex_matrix(T_vars[1])
         Gs_T = [self._vec_to_complex_matrix(T_vars[2+i]) for i in range(n)]
 
-        E = np.reshape(E_T @ np.conj(E_T.T), (1, ds))
-        rho = np.reshape(rho_T @ np.conj(rho_T.T), (ds, 1))
+        E = self._convert_to_ptm(E_T @ np.conj(E_T.T)).reshape((1, ds))
+        rho = self._convert_to_ptm(rho_T @ np.conj(rho_T.T)).reshape((ds, 1))
         Gs = [PTM(Choi(G_T @ np.conj(G_T.T))).data for G_T in Gs_T]
 
         return (E, rho, Gs)
@@ -453,10 +453,8 @@ class GST_Optimize():
             This function performs the inverse operation to
             split_input_vector; the notations are the same.
         """
-        d = (2 ** self.qubits)
-
-        E_T = get_cholesky_like_decomposition(E.reshape((d, d)))
-        rho_T = get_cholesky_like_decomposition(rho.reshape((d, d)))
+        E_T = get_cholesky_like_decomposition(self._convert_from_ptm(E))
+        rho_T = get_cholesky_like_decomposition(self._convert_from_ptm(rho))
         Gs_Choi = [Choi(PTM(G)).data for G in Gs]
         Gs_T = [get_cholesky_like_decomposition(G) for G in Gs_Choi]
         E_vec = self._complex_matrix_to_vec(E_T)
@@ -652,6 +650,14 @@ class GST_Optimize():
         v = vector.reshape(4)
         return v[0] * Id + v[1] * X + v[2] * Y + v[3] * Z
 
+    def _convert_to_ptm(self, matrix):
+        """Converts a matrix to its PTM representation"""
+        Id = np.sqrt(0.5) * np.array([[1, 0], [0, 1]])
+        X = np.sqrt(0.5) * np.array([[0, 1], [1, 0]])
+        Y = np.sqrt(0.5) * np.array([[0, -1j], [1j, 0]])
+        Z = np.sqrt(0.5) * np.array([[1, 0], [0, -1]])
+        return np.array([np.trace(P @ matrix) for P in (Id, X, Y, Z)])
+
     def _process_result(self, x: np.array) -> Dict:
         """Transforms the optimization result to a friendly format
         Args:
-- 
2.43.0


From 6b3f608caf1d37bca3891e4ba8b750bae64294c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:02 +0000
Subject: [PATCH 20/74] fix: honour rand_seed=0 and random generators in
 randomized_benchmarking_seq

---
 qiskit/ignis/verification/randomized_benchmarking/circuits.py  | 2 +-
 qiskit/ignis/verification/randomized_benchmarking/rb_groups.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index e91ee38..39f4d3c 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -441,7 +441,7 @@ def randomized_benchmarking_seq(nseeds: int = 1,
 
                 for _ in range(length_multiplier[rb_pattern_index]):
                     # make the seed unique for each element
-                    if rand_seed:
+                    if isinstance(rand_seed, (int, np.integer)):
                         rand_seed += (seed + 1)
                     new_elmnt = rb_group.random(rb_q_num, rand_seed)
                     Elmnts[rb_pattern_index] = rb_group.compose(
diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
index 7b333a5..f311f62 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
@@ -72,6 +72,8 @@ class RBgroup():
         if self._group_gates_type:
             return random_cnotdihedral(num_qubits, seed=rand_seed)
         else:
+            if isinstance(rand_seed, np.random.RandomState):
+                rand_seed = rand_seed.randint(2 ** 31 - 1)
             return random_clifford(num_qubits, seed=rand_seed)
 
     @staticmethod
-- 
2.43.0


From 0178e2054d5ea0656beef022e1b8069df6942779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:02 +0000
Subject: [PATCH 21/74] fix: accept the group names NonClifford and
 CNOTDihedral

---
 qiskit/ignis/verification/randomized_benchmarking/rb_groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
index f311f62..b942bd0 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
@@ -37,7 +37,7 @@ class RBgroup():
                                                   'clifford'):
             self._rb_group = Clifford
         elif group_gates in ('1', 'Non-Clifford',
-                             'NonClifford'
+                             'NonClifford',
                              'CNOTDihedral',
                              'CNOT-Dihedral'):
             self._rb_group = CNOTDihedral
-- 
2.43.0


From 349fab4b8278e792240bab996709dad3c6a6e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:33 +0000
Subject: [PATCH 22/74] fix: return the lengths from
 PurityRBFitter.cliff_lengths instead of recursing

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 5876991..e2a348a 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -825,7 +825,7 @@ class PurityRBFitter(RBFitterBase):
     @property
     def cliff_lengths(self):
         """Return clifford lengths."""
-        return self.cliff_lengths
+        return self._cliff_lengths
 
     @property
     def ydata(self):
-- 
2.43.0


From 7e2c5a8a8c3a1ec1b6ad8f8cd8265b1b33343688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:33 +0000
Subject: [PATCH 23/74] fix: add the initial results to the combined RB fitters
 once, not twice

---
 .../verification/randomized_benchmarking/fitters.py      | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index e2a348a..f9f4988 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -524,9 +524,6 @@ class InterleavedRBFitter(RBFitterBase):
         self._rbfit_interleaved = RBFitter(
             interleaved_result, cliff_lengths, rb_pattern)
 
-        self.rbfit_std.add_data(original_result)
-        self.rbfit_int.add_data(interleaved_result)
-
         if not (original_result is None and interleaved_result is None):
             self.fit_data()
 
@@ -808,8 +805,7 @@ class PurityRBFitter(RBFitterBase):
         self.add_zdict_ops()
 
         # rb purity fitter
-        self._rbfit_purity = RBFitter(purity_result, cliff_lengths,
-                                      rb_pattern)
+        self._rbfit_purity = RBFitter(None, cliff_lengths, rb_pattern)
         self.add_data(purity_result)
 
     @property
@@ -1184,9 +1180,6 @@ class CNOTDihedralRBFitter(RBFitterBase):
         self._rbfit_X = RBFitter(
             cnotdihedral_X_result, elmnts_lengths, rb_pattern)
 
-        self.rbfit_Z.add_data(cnotdihedral_Z_result)
-        self.rbfit_X.add_data(cnotdihedral_X_result)
-
         if not (cnotdihedral_Z_result is None and
                 cnotdihedral_X_result is None):
             self.fit_data()
-- 
2.43.0


From 28bc107cea153e70b5150792a9599c847d077721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:33 +0000
Subject: [PATCH 24/74] fix: default the pattern of the interleaved and
 CNOT-dihedral RB fitters

---
 .../ignis/verification/randomized_benchmarking/fitters.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index f9f4988..572a5ee 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -515,6 +515,9 @@ class InterleavedRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = cliff_lengths
         self._rb_pattern = rb_pattern
         self._fit_interleaved = []
@@ -1171,6 +1174,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
         """
 
         # Initialize a new CNOTDihedralRBFitter.
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = elmnts_lengths
         self._rb_pattern = rb_pattern
         self._fit_cnotdihedral = []
-- 
2.43.0


From 66fee6623cb55a6c89d892f8d423f2286346f13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:33 +0000
Subject: [PATCH 25/74] fix: find the purity RB circuits by name, not by the
 order of the results

---
 .../verification/randomized_benchmarking/fitters.py   | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 572a5ee..85017e4 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -920,7 +920,7 @@ class PurityRBFitter(RBFitterBase):
         if new_purity_result is None:
             return
 
-        self.rbfit_pur.add_data(new_purity_result, rerun_fit)
+        self.rbfit_pur.add_data(new_purity_result, rerun_fit=False)
 
         if rerun_fit:
             self.calc_data()
@@ -942,16 +942,17 @@ class PurityRBFitter(RBFitterBase):
         """
         circ_counts = {}
         circ_shots = {}
-        result_count = 0
+        name_prefix = self.rbfit_pur.results[0].results[0].header.name. \
+            split("_purity_")[0] + '_purity_'
 
         # Calculating the result output
         for _, seed in enumerate(self.rbfit_pur.seeds):
 
             for pur in range(self._npurity):
 
-                self._circ_name_type = self.rbfit_pur.results[
-                    result_count].results[0].header.name.split("_length")[0]
-                result_count += 1
+                # the letters of the rotations as in the circuit names
+                self._circ_name_type = name_prefix + ''.join(
+                    'ZXY'[pur // 3 ** i % 3] for i in range(self._nq))
 
                 for circ, _ in enumerate(self._cliff_lengths[0]):
                     circ_name = self._circ_name_type + '_length_%d_seed_%d' \
-- 
2.43.0


From 3e4448c1c26589e4661c806964335adafdfa7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:33 +0000
Subject: [PATCH 26/74] fix: keep the guess of the RB fit within the bounds of
 the fit

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 85017e4..3026b20 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -429,6 +429,9 @@ class RBFitter(RBFitterBase):
                 fit_guess[0] = ((y0 - fit_guess[2]) /
                                 fit_guess[1]**self._cliff_lengths[patt_ind][0])
 
+            # the guess has to lie within the bounds of the fit
+            fit_guess = np.clip(fit_guess, 0, 1)
+
             self.fit_data_pattern(patt_ind, tuple(fit_guess))
 
     def plot_rb_data(self, pattern_index=0, ax=None,
-- 
2.43.0


From ac9010db3909f6bf65559cdd18bf02c8e5f12107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:44 +0000
Subject: [PATCH 27/74] fix: raise QiskitError for qubits without gate counts
 in the 2Q error conversions

---
 .../verification/randomized_benchmarking/rb_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
index 6c5f405..858e3bc 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
@@ -455,11 +455,13 @@ def calculate_2q_epg(gate_per_cliff: Dict[int, Dict[str, float]],
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
 
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
+
     # estimate single qubit gate error contribution
     alpha_1q = [1.0, 1.0]
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
@@ -616,6 +618,10 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
 
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
+
     n_gate_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)
     if n_gate_2q == 0:
         raise QiskitError('Two qubit gate %s is not included in the `gate_per_cliff`. '
@@ -625,8 +631,6 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     alpha_1q = [1.0, 1.0]
     alpha_2q = (1 - 4 / 3 * epg_2q) ** n_gate_2q
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
-- 
2.43.0


From 409d31ff8e4eeed792208602b8773a5e561cb458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:24 +0000
Subject: [PATCH 28/74] fix: initialise CNOTDihedral from another element and
 from ScalarOp

---
 .../ignis/verification/randomized_benchmarking/dihedral.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c51b3fb..f47b38f 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -358,13 +358,14 @@ class CNOTDihedral(BaseOperator):
         # Initialize from another CNOTDihedral by sharing the underlying
         # poly, linear and shift
         if isinstance(data, CNOTDihedral):
+            self._num_qubits = data.num_qubits
             self.linear = data.linear
             self.shift = data.shift
             self.poly = data.poly
 
         # Initialize from ScalarOp as N-qubit identity discarding any global phase
         elif isinstance(data, ScalarOp):
-            if not data.is_unitary() or set(data._input_dims) != {2} or \
+            if not data.is_unitary() or set(data.input_dims()) != {2} or \
                     data.num_qubits is None:
                 raise QiskitError("Can only initialize from N-qubit identity ScalarOp.")
             self._num_qubits = data.num_qubits
@@ -400,6 +401,10 @@ class CNOTDihedral(BaseOperator):
             self.linear = elem.linear
             self.shift = elem.shift
 
+        else:
+            raise QiskitError("Cannot initialize a CNOTDihedral element from {}.".format(
+                type(data)))
+
         # Initialize BaseOperator
         super().__init__(num_qubits=self._num_qubits)
 
-- 
2.43.0


From e00d3c1c6821fa8b00bc044185759866d4c7e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:24 +0000
Subject: [PATCH 29/74] fix: keep the shift of a product of CNOT-dihedral
 elements an array

---
 .../verification/randomized_benchmarking/dihedral.py      | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index f47b38f..023fec5 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -427,8 +427,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(self.linear, other.shift), self.shift)]
+        result.shift = (self._z2matvecmul(self.linear, other.shift) + np.array(self.shift)) % 2
         result.linear = self._z2matmul(self.linear, other.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
@@ -449,10 +448,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(other.linear,
-                                                       self.shift),
-                                     other.shift)]
+        result.shift = (self._z2matvecmul(other.linear, self.shift) + np.array(other.shift)) % 2
         result.linear = self._z2matmul(other.linear, self.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
-- 
2.43.0


From 9d2ed6f2ca1b462e24810fe521864cdc6acb8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:24 +0000
Subject: [PATCH 30/74] fix: use the shift of the first factor in the right
 product of CNOT-dihedral elements

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 023fec5..708b41a 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -456,7 +456,7 @@ class CNOTDihedral(BaseOperator):
             support = np.arange(self.num_qubits)[np.nonzero(self.linear[i])]
             poly = SpecialPolynomial(self.num_qubits)
             poly.set_pj(support)
-            if other.shift[i] == 1:
+            if self.shift[i] == 1:
                 poly = -1 * poly
                 poly.weight_0 = (poly.weight_0 + 1) % 8
             new_vars.append(poly)
-- 
2.43.0


From 23e9c57c9f84fb0091e88cc64995aac01f875c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:24 +0000
Subject: [PATCH 31/74] fix: round the angles of u1 gates of CNOT-dihedral
 circuits and reject others

---
 .../ignis/verification/randomized_benchmarking/dihedral.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 708b41a..3b2dde7 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -902,7 +902,10 @@ def append_circuit(elem, circuit, qargs=None):
         elif (instr.name == 'u1' or gate.name == 'u1'):
             if (len(new_qubits) != 1 or len(instr.params) != 1):
                 raise QiskitError("Invalid qubits or params for 1-qubit gate u1.")
-            elem.phase(int(4 * instr.params[0] / np.pi), new_qubits[0])
+            tpower = 4 * float(instr.params[0]) / np.pi
+            if not np.isclose(tpower, np.round(tpower), atol=1e-6):
+                raise QiskitError("Angle of gate u1 is not a multiple of pi/4.")
+            elem.phase(int(np.round(tpower)) % 8, new_qubits[0])
 
         elif (instr.name == 'cx' or gate.name == 'cx'):
             if len(new_qubits) != 2:
-- 
2.43.0


From 91cd0d372da6fe212d9b1c67feff18a608ce14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:24 +0000
Subject: [PATCH 32/74] fix: accept the single gates cz and id as CNOT-dihedral
 elements

---
 .../ignis/verification/randomized_benchmarking/dihedral.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 3b2dde7..32c73ad 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -873,6 +873,12 @@ def append_circuit(elem, circuit, qargs=None):
         elem.cnot(qargs[0], qargs[1])
         return elem
 
+    # Handle the gates that are not defined by CNOT-dihedral gates
+    if gate.name in ('cz', 'id'):
+        circ = QuantumCircuit(gate.num_qubits)
+        circ.append(gate, list(range(gate.num_qubits)))
+        gate = circ.to_instruction()
+
     if gate.definition is None:
         raise QiskitError('Cannot apply Instruction: {}'.format(gate.name))
     if not isinstance(gate.definition, QuantumCircuit):
-- 
2.43.0


From 88b4ff53eb02f66dc6bab680ff1424603ffcf530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:27 +0000
Subject: [PATCH 33/74] fix: sort the indices of products of monomials with
 more than eight variables

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 32c73ad..90349b7 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -97,7 +97,7 @@ class SpecialPolynomial():
             terms3 = list(combinations(range(self.n_vars), r=3))
             for term in terms0 + terms1 + terms2 + terms3:
                 value = self.get_term(term)
-                new_term = list(set(term).union(set(indices)))
+                new_term = sorted(set(term).union(set(indices)))
                 result.set_term(new_term, (result.get_term(new_term) + value) % 8)
         return result
 
-- 
2.43.0


From 2138c4fc6269b12f8b1cc49d6ec220754e1c0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:27 +0000
Subject: [PATCH 34/74] fix: evaluate special polynomials at integer points

---
 .../verification/randomized_benchmarking/dihedral.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 90349b7..02d8687 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -165,7 +165,7 @@ class SpecialPolynomial():
             if False in [i.n_vars == self.n_vars for i in xval]:
                 raise QiskitError("Evaluate on incompatible polynomials.")
         else:
-            xval = xval % 2
+            xval = [x % 2 for x in xval]
         # Examine each term of this polynomial
         terms0 = [[]]
         terms1 = list(combinations(range(self.n_vars), r=1))
@@ -184,9 +184,9 @@ class SpecialPolynomial():
             value = self.get_term(term)
             if value != 0:
                 newterm = reduce(mul, [xval[j] for j in term], start)
-                result = result + value * newterm
-        if isinstance(result, int):
-            result = result % 8
+                result = result + int(value) * newterm
+        if is_int:
+            result = int(result) % 8
         return result
 
     def set_pj(self, indices):
-- 
2.43.0


From 1a3a3b017d1d0008ee55aaeaefafc2a059cc71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:05 +0000
Subject: [PATCH 35/74] fix: accept the single gate u1 as a CNOT-dihedral
 element

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 02d8687..50ec18e 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -874,7 +874,7 @@ def append_circuit(elem, circuit, qargs=None):
         return elem
 
     # Handle the gates that are not defined by CNOT-dihedral gates
-    if gate.name in ('cz', 'id'):
+    if gate.name in ('cz', 'id', 'u1'):
         circ = QuantumCircuit(gate.num_qubits)
         circ.append(gate, list(range(gate.num_qubits)))
         gate = circ.to_instruction()
-- 
2.43.0


From 967b8dc1565a588b39e87944041fe19944cd6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:19 +0000
Subject: [PATCH 36/74] fix: do not share the accepted outputs between
 accreditation fitters

---
 .../verification/accreditation/fitters.py     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 6bbdda2..530c313 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -38,15 +38,16 @@ class AccreditationFitter:
     https://iopscience.iop.org/article/10.1088/1367-2630/ab4fd6
     """
 
-    bound = 1
-    confidence = 1
-    N_acc = 0
-    num_runs = 0
-    flag = 'accepted'
-    outputs = []
-    num_runs = 0
-    num_traps = 0
-    g_num = 1
+    def __init__(self):
+        """Initialize the fitter with an empty history of runs."""
+        self.bound = 1
+        self.confidence = 1
+        self.N_acc = 0
+        self.num_runs = 0
+        self.flag = 'accepted'
+        self.outputs = []
+        self.num_traps = 0
+        self.g_num = 1
 
     def single_protocol_run(self, results, postp_list, v_zero):
         """
-- 
2.43.0


From 946153d5c8e4f4ce2a3428bcb72e566f42acee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:19 +0000
Subject: [PATCH 37/74] fix: raise the errors of the accreditation protocol

---
 .../verification/accreditation/fitters.py     | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 530c313..4ca56b3 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -57,20 +57,19 @@ class AccreditationFitter:
             results (Result): results of the quantum job
             postp_list (list): list of strings used to post-process outputs
             v_zero (int): position of target
-        """
-        self.num_runs = self.num_runs + 1
-        self.flag = 'accepted'
 
+        Raises:
+            QiskitError: If the run does not follow the protocol
+        """
         # Check that correct number of traps is input
-        if self.num_runs == 1:
-            self.num_traps = len(postp_list)-1
-        else:
-            if len(postp_list)-1 != self.num_traps:
-                QiskitError("ERROR: Run protocol with the"
-                            "same number of traps")
-
-        if self.num_traps < 3:
-            QiskitError("ERROR: run the protocol with at least 3 traps")
+        num_traps = len(postp_list)-1
+        if self.num_runs > 0 and num_traps != self.num_traps:
+            raise QiskitError("ERROR: Run protocol with the"
+                              "same number of traps")
+        if num_traps < 3:
+            raise QiskitError("ERROR: run the protocol with at least 3 traps")
+        if not 0 <= v_zero <= num_traps:
+            raise QiskitError("ERROR: position of target out of range")
         allcounts = []
         for ind, postp in enumerate(postp_list):
 
@@ -83,8 +82,12 @@ class AccreditationFitter:
             for countstring, val in counts.items():
                 shots += val
             if shots != 1 or countstring is None:
-                QiskitError("ERROR: not single shot data")
+                raise QiskitError("ERROR: not single shot data")
             allcounts.append(countstring)
+
+        self.num_runs = self.num_runs + 1
+        self.num_traps = num_traps
+        self.flag = 'accepted'
         for k, count in enumerate(allcounts):
             if k != v_zero:
                 # Check if trap returns correct output
@@ -103,10 +106,13 @@ class AccreditationFitter:
 
         Args:
             theta (float): number between 0 and 1
+
+        Raises:
+            QiskitError: If no run has been accepted
         """
         if self.N_acc == 0:
-            QiskitError("ERROR: Variation distance requires"
-                        "at least one accepted run")
+            raise QiskitError("ERROR: Variation distance requires"
+                              "at least one accepted run")
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From d3fb80355d4ddffb662bd45fd17aaacb511105d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:19 +0000
Subject: [PATCH 38/74] fix: Hoeffding confidence of the accreditation bound

---
 qiskit/ignis/verification/accreditation/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 4ca56b3..22d2511 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -117,6 +117,6 @@ class AccreditationFitter:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
             self.bound = self.bound+1-self.g_num
-            self.confidence = 1-2*np.exp(-2*theta*self.num_runs*self.num_runs)
+            self.confidence = 1-2*np.exp(-2*theta*theta*self.num_runs)
         if self.bound > 1:
             self.bound = 1
-- 
2.43.0


From fcd4b405197d099f8517f21a71b34b93ed19a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:19 +0000
Subject: [PATCH 39/74] fix: do not keep the accreditation bound of an earlier
 theta or history

---
 qiskit/ignis/verification/accreditation/fitters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 22d2511..18517ea 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -113,6 +113,8 @@ class AccreditationFitter:
         if self.N_acc == 0:
             raise QiskitError("ERROR: Variation distance requires"
                               "at least one accepted run")
+        self.bound = 1
+        self.confidence = 1
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From b25639843051e0a3b5f2a9bdbd21924f2e034f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:19 +0000
Subject: [PATCH 40/74] fix: correct the one-time pad of the classical bits the
 qubits are measured to

---
 qiskit/ignis/verification/accreditation/qotp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index bfd82a7..a1bce5a 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -213,8 +213,11 @@ def QOTP_fromlayers(layers, rng):
     temp_circ = transpile(temp_circ,
                           basis_gates=['u1', 'u2', 'u3'])
     qotp_circ = qotp_circ+temp_circ
-    # post operations
-    qotp_postp = np.flip(paulixs)
+    # post operations, in the order of the classical bits
+    qotp_postp = np.zeros(len(cregs), dtype=paulixs.dtype)
+    for _, qsub, csub in layers['measlayer']:
+        qotp_postp[csub[0].index] = paulixs[qsub[0].index]
+    qotp_postp = np.flip(qotp_postp)
     # measurements
     qotp_circ = qotp_circ+layers['measlayer']
     return qotp_circ, qotp_postp
-- 
2.43.0


From 6854fbe5567c7c202c3336c795309365580eeaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:34 +0000
Subject: [PATCH 41/74] fix: use the seed zero for quantum volume circuits

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 4f0a8b8..81d15db 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -72,7 +72,7 @@ def qv_circuits(qubit_lists, ntrials=1,
                               DeprecationWarning)
     depth_list = [len(qubit_list) for qubit_list in qubit_lists]
 
-    if seed:
+    if seed is not None:
         rng = np.random.default_rng(seed)
     else:
         _seed = None
@@ -83,7 +83,7 @@ def qv_circuits(qubit_lists, ntrials=1,
     for trial in range(ntrials):
         for depthidx, depth in enumerate(depth_list):
             n_q_max = np.max(qubit_lists[depthidx])
-            if seed:
+            if seed is not None:
                 _seed = rng.integers(1000)
             qv_circ = QuantumVolume(depth, depth, seed=_seed)
             qc2 = copy.deepcopy(qv_circ)
-- 
2.43.0


From dfd39c5ae792c694c5795d13ff1c04d1dc95c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:34 +0000
Subject: [PATCH 42/74] fix: run and measure quantum volume circuits on the
 listed qubits in their order

---
 .../ignis/verification/quantum_volume/circuits.py   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 81d15db..054fd1b 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -23,7 +23,9 @@ import warnings
 import numpy as np
 
 from qiskit.circuit.library import QuantumVolume
+from qiskit.circuit.classicalregister import ClassicalRegister
 from qiskit.circuit.quantumcircuit import QuantumCircuit
+from qiskit.circuit.quantumregister import QuantumRegister
 
 
 def qv_circuits(qubit_lists, ntrials=1,
@@ -89,12 +91,11 @@ def qv_circuits(qubit_lists, ntrials=1,
             qc2 = copy.deepcopy(qv_circ)
             # TODO: Remove this when we remove support for doing pseudo-layout
             # via qubit lists
-            if n_q_max != depth:
-                qc = QuantumCircuit(int(n_q_max + 1))
-                qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
-            else:
-                qc = qv_circ
-            qc.measure_active()
+            qc = QuantumCircuit(QuantumRegister(int(n_q_max + 1), 'q'),
+                                ClassicalRegister(depth, 'measure'))
+            qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
+            qc.barrier()
+            qc.measure(qubit_lists[depthidx], list(range(depth)))
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
 
-- 
2.43.0


From d8a745bfcb372ec4fc27584b9b00307bcb85996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:34 +0000
Subject: [PATCH 43/74] fix: do not keep quantum volume results that were
 rejected

---
 qiskit/ignis/verification/quantum_volume/fitters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 42032f8..51cf4b2 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -170,6 +170,12 @@ class QVFitter:
         if not isinstance(new_backend_result, list):
             new_backend_result = [new_backend_result]
 
+        for result in new_backend_result:
+            for qvcirc in result.results:
+                if qvcirc.header.name not in self._heavy_output_prob_ideal:
+                    raise QiskitError('Ideal distribution '
+                                      'must be loaded first')
+
         for result in new_backend_result:
             self._result_list.append(result)
 
@@ -180,10 +186,6 @@ class QVFitter:
                 if (ntrials_circ+1) > self._ntrials:
                     self._ntrials = ntrials_circ+1
 
-                if qvcirc.header.name not in self._heavy_output_prob_ideal:
-                    raise QiskitError('Ideal distribution '
-                                      'must be loaded first')
-
         if rerun_fit:
             self.calc_data()
             self.calc_statistics()
-- 
2.43.0


From 85069cc3dfd29ef7d21192a0e3aa35ec5c159d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:18 +0000
Subject: [PATCH 44/74] fix: finite weights for unobserved errors of the
 syndrome graph

---
 qiskit/ignis/verification/topological_codes/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 6060983..801ee24 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -197,7 +197,9 @@ class GraphDecoder():
                 if count[elements[1]][edge] > 0:
                     ratio = count[elements[0]][edge]/count[elements[1]][edge]
                     ratios.append(ratio)
-            edge_data['distance'] = -np.log(min(ratios))
+            # an error that was not observed is given half a shot
+            edge_data['distance'] = -np.log(
+                max(min(ratios), 0.5/sum(results.values())))
 
     def make_error_graph(self, string, subgraphs=None):
         """
-- 
2.43.0


From d1560ab66f85cd01df6947ef19beb95bd198742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:18 +0000
Subject: [PATCH 45/74] fix: do not truncate the distances of the weighted
 syndrome graph

---
 qiskit/ignis/verification/topological_codes/fitters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 801ee24..6a72f2c 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -242,8 +242,8 @@ class GraphDecoder():
             for source in E[subgraph]:
                 for target in E[subgraph]:
                     if target != (source):
-                        distance = int(nx.shortest_path_length(
-                            self.S, source, target, weight='distance'))
+                        distance = nx.shortest_path_length(
+                            self.S, source, target, weight='distance')
                         E[subgraph].add_edge(source, target, weight=-distance)
 
         return E
-- 
2.43.0


From 42610412e4f851492721a0d0caca49bee94c70e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:35 +0000
Subject: [PATCH 46/74] fix: visit each qubit once when parallelizing GHZ
 circuits (exponential time on larger devices)

---
 qiskit/ignis/verification/entanglement/parallelize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 18fe4e9..88839e8 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -183,8 +183,8 @@ class BConfig:
                 children = self.nodes[parent]
                 if self.indicator:
                     children = self._child_sorter(children, parent)
-                totalchildren += children
                 children = [a for a in children if a not in trashlist]
+                totalchildren += children
                 j = tier_DM[parent]
                 for i, _ in enumerate(children):
                     tier[j] += [[parent, children[i]]]
-- 
2.43.0


From 86332a89a52f350b290b713de69afd8142f28d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:35 +0000
Subject: [PATCH 47/74] fix: raw MQC fidelity from the raw populations

---
 qiskit/ignis/verification/entanglement/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/analysis.py b/qiskit/ignis/verification/entanglement/analysis.py
index 25d2034..7f77036 100644
--- a/qiskit/ignis/verification/entanglement/analysis.py
+++ b/qiskit/ignis/verification/entanglement/analysis.py
@@ -189,7 +189,7 @@ class Plotter:
             print("Upper/Lower error mitigated fidelity bounds = ",
                   round(UB_m, 3), " +/- ", round(.01*UB_m, 3), " || ",
                   round(LB_m, 3), " +/- ", round(.01*LB_m, 3))
-            (F, F_m) = (.5*(P0_m + P1_m) + np.sqrt(np.absolute(fft[qn])),
+            (F, F_m) = (.5*(P0 + P1) + np.sqrt(np.absolute(fft[qn])),
                         .5*(P0_m + P1_m) + np.sqrt(np.absolute(fft_m[qn])))
             print("Raw fidelity = ", round(F, 3), " +/- ", round(.01*F, 3))
             print("Mitigated fidelity = ", round(F_m, 3),
-- 
2.43.0


From 2f90a15a2d29111a45baceebd259b70841956361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:40 +0000
Subject: [PATCH 48/74] fix: zz_circuits accepts a list of gate numbers

---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index 0f112e1..b554c5b 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -56,7 +56,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         if qubit in spectators:
             raise ValueError("Qubits and spectators must be different")
 
-    xdata = gate_time * num_of_gates
+    xdata = gate_time * np.array(num_of_gates)
 
     qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)])+1)
     cr = qiskit.ClassicalRegister(len(qubits))
-- 
2.43.0


From 22acc307caa9149d48cd57f6412ec9dcb723adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:57 +0000
Subject: [PATCH 49/74] fix: zz_circuits flips a shared spectator once

---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index b554c5b..191638e 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -69,7 +69,8 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         for circ_index, circ_length in enumerate(num_of_gates):
             circ = qiskit.QuantumCircuit(qr, cr)
             circ.name = 'zzcircuit_' + str(circ_index) + '_%d' % qflip
-            for _, qspec in enumerate(spectators):
+            # a spectator shared by several qubits is flipped once
+            for qspec in sorted(set(spectators)):
                 if qflip:
                     circ.x(qr[qspec])
             circ.barrier(qr)
-- 
2.43.0


From 163166417e35afa03af888499c3e9bd3f77c895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:57 +0000
Subject: [PATCH 50/74] fix: characterization fitters given a list of delays
 can be plotted

---
 qiskit/ignis/characterization/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5fa8f2e..90db773 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -93,7 +93,7 @@ class BaseFitter:
         self._defaultp0 = fit_p0
         self._default_bounds = fit_bounds
 
-        self._xdata = xdata
+        self._xdata = np.asarray(xdata)
         self._fit_fun = fit_fun
 
         # initialize the fit parameter lists
-- 
2.43.0


From 15ae8260e8bd453ba4cf4cfc9c26464277ebf3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:36 +0000
Subject: [PATCH 51/74] fix: the artificial error of anglecal_1Q_circuits is
 the same for every X90 pulse

---
 qiskit/ignis/characterization/gates/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/gates/circuits.py b/qiskit/ignis/characterization/gates/circuits.py
index 02e4198..9bdfb9c 100644
--- a/qiskit/ignis/characterization/gates/circuits.py
+++ b/qiskit/ignis/characterization/gates/circuits.py
@@ -112,7 +112,7 @@ def anglecal_1Q_circuits(max_reps, qubits, angleerr=0.0):
                     circ.append(U2Gate(0.0, 0.0), [qr[qubit]])  # Yp
 
             if angleerr != 0:
-                circ.append(U1Gate(-angleerr), [qr[qubit]])
+                circ.append(U1Gate(-2*angleerr), [qr[qubit]])
             circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[qubit]])  # X90p
         for qind, qubit in enumerate(qubits):
             circ.measure(qr[qubit], cr[qind])
-- 
2.43.0


From 2b121e7df0c307a6e043d6c0cb44ca93bd26001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:36 +0000
Subject: [PATCH 52/74] fix: rabi and drag schedules measure the qubits in the
 memory slots that their fitters read

---
 .../characterization/calibrations/pulse_schedules.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/characterization/calibrations/pulse_schedules.py b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
index 6c06129..8d8e08e 100644
--- a/qiskit/ignis/characterization/calibrations/pulse_schedules.py
+++ b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
@@ -69,6 +69,9 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
 
+    # the fitters expect the i-th qubit in the i-th memory slot
+    mem_slots = {qubit: slot for slot, qubit in enumerate(qubits)}
+
     # Construct the schedules
     rabi_scheds = []
     for index, g_amp in enumerate(amp_list):
@@ -79,7 +82,8 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
         sched = pulse.Schedule(name='rabisched_%d_0' % index)
         for qubit in qubits:
             sched += pulse.Play(rabi_pulse, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots=mem_slots).shift(pulse_width)
         rabi_scheds.append(sched)
 
     return rabi_scheds, xdata
@@ -131,6 +135,9 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
 
+    # the fitters expect the i-th qubit in the i-th memory slot
+    mem_slots = {qubit: slot for slot, qubit in enumerate(qubits)}
+
     # Construct the schedules
     drag_scheds = []
     for index, b_amp in enumerate(beta_list):
@@ -148,7 +155,8 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
                                           name='drag_pulse_%d_%d' % (index, qubit))
             sched += pulse.Play(drag_pulse_p, drives[qubit])
             sched += pulse.Play(drag_pulse_m, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(2*pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots=mem_slots).shift(2*pulse_width)
         drag_scheds.append(sched)
 
     return drag_scheds, xdata
-- 
2.43.0


From d210872c0d6658251290e413b6a9b44b2ea8d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:36 +0000
Subject: [PATCH 53/74] fix: IQ fitters average single-shot data per qubit

---
 qiskit/ignis/characterization/fitters.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 90db773..de64b02 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -448,11 +448,9 @@ class IQFitter(BaseFitter):
                 else:
 
                     # data is in single shot IQ mode
-                    iq_list[sname] = (result.shots *
-                                      single_result.get_memory(sname) +
-                                      iq_list.get(sname,
-                                                  np.zeros([result.shots,
-                                                            mem_slots])))
+                    iq_list[sname] = np.concatenate((
+                        iq_list.get(sname, np.zeros([0, mem_slots])),
+                        single_result.get_memory(sname)))
 
         for sname in iq_list:
 
@@ -460,8 +458,8 @@ class IQFitter(BaseFitter):
                 iq_list_mean[sname] = iq_list[sname]/shots_list[sname]
                 iq_list_var[sname] = np.ones(len(iq_list_mean[sname]))*1e-4
             else:
-                iq_list_mean[sname] = np.sum(iq_list[sname])/shots_list[sname]
-                iq_list_var[sname] = np.std(iq_list[sname])
+                iq_list_mean[sname] = np.mean(iq_list[sname], axis=0)
+                iq_list_var[sname] = np.std(iq_list[sname], axis=0)
 
         return iq_list_mean, iq_list_var
 
-- 
2.43.0


From 5eb43df2db96596624070fea53f0662c4f318c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:36 +0000
Subject: [PATCH 54/74] fix: IQ fitters project on the line of the data also
 when it falls in the IQ plane

---
 qiskit/ignis/characterization/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index de64b02..7fcacca 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -499,6 +499,9 @@ class IQFitter(BaseFitter):
                 imag_ext = np.mean(np.abs(np.imag(mean_list)))
                 crot = real_ext/(real_ext**2+imag_ext**2)**0.5
                 srot = imag_ext/(real_ext**2+imag_ext**2)**0.5
+                # the line may fall or rise in the IQ plane
+                if np.sum(np.real(mean_list)*np.imag(mean_list)) < 0:
+                    srot = -srot
                 mean_list = crot*np.real(mean_list)+srot*np.imag(mean_list)
                 self._ydata[serieslbl][-1]['mean'] = mean_list
 
-- 
2.43.0


From 73810178eef078a6680eb1b477e0b2d33745e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:09 +0000
Subject: [PATCH 55/74] fix: IQ fitters reject counts with a QiskitError

---
 qiskit/ignis/characterization/fitters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 7fcacca..d0be4db 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -418,6 +418,9 @@ class IQFitter(BaseFitter):
                 sname = result.header.name
                 mem_slots = result.header.memory_slots
 
+                if result.meas_level != 1:
+                    raise QiskitError('This fitter works with IQ data')
+
                 if meas_ret == '':
                     # update
                     if result.meas_return == 'avg':
@@ -425,9 +428,6 @@ class IQFitter(BaseFitter):
                     else:
                         meas_ret = 'single'
 
-                if result.meas_level != 1:
-                    raise QiskitError('This fitter works with IQ data')
-
                 if meas_ret != result.meas_return:
                     raise QiskitError('All data must be single shot or '
                                       'averaged')
-- 
2.43.0


From 2a3e9dc6d3a07a8ea78b9cd627e33f92bf3efc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:56 +0000
Subject: [PATCH 56/74] fix: expected states of a discriminator from the names
 of schedules

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 4a2c919..a4473cd 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -241,7 +241,7 @@ class BaseDiscriminationFitter(ABC):
         """
         expected_states = []
         for schedule in schedules:
-            if isinstance(schedules, Schedule):
+            if isinstance(schedule, Schedule):
                 name = schedule.name
             else:
                 name = schedule
-- 
2.43.0


From 5bd446681101b69d37fa4c92dc0db0cf122b673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:56 +0000
Subject: [PATCH 57/74] fix: discriminators can be trained on averaged data of
 several qubits

---
 qiskit/ignis/measurement/discriminator/iq_discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 09abba5..ceafda3 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -151,7 +151,7 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
             for result in results:
                 try:
                     iq_data = result.get_memory(schedule)
-                    n_shots = iq_data.shape[0]
+                    n_shots = len(self.format_iq_data(iq_data))
                     ydata.extend([self._expected_state[shed_name]]*n_shots)
                 except QiskitError:
                     pass
-- 
2.43.0


From d01d3e4da39f067a2ef3bb9bae425c188a9ebd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:56 +0000
Subject: [PATCH 58/74] fix: a discriminator is trained on each calibration
 shot of all results once

---
 .../discriminator/discriminators.py           |  4 +--
 .../discriminator/iq_discriminators.py        | 28 +++++++++++++------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index a4473cd..8ed16c3 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -307,8 +307,8 @@ class BaseDiscriminationFitter(ABC):
 
         Args:
             results: the get_memory() method is used to retrieve the level 1 data.
-                     If result is a list of Result, then the first Result in the
-                     list that returns the data of schedule
+                     If result is a list of Result, then the data of every Result
+                     in the list that returns data of schedule
                      (through get_memory(schedule)) is used.
             schedule_type_to_get: use to specify if we should return data corresponding to
                                   (``0``) calibration data only
diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index ceafda3..377b93b 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -79,8 +79,8 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
 
         Args:
             results: the get_memory() method is used to retrieve the level 1 data.
-                     If result is a list of Result, then the first Result in the
-                     list that returns the data of schedule
+                     If result is a list of Result, then the data of every Result
+                     in the list that returns data of schedule
                      (through get_memory(schedule)) is used.
             schedule_type_to_get: use to specify if we should return data corresponding to
                                   (``0``) calibration data only
@@ -98,21 +98,22 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
         if schedules is None:
             schedules = self._get_schedules(results, schedule_type_to_get)
 
-        for schedule in schedules:
-            iq_data = None
+        for schedule in self._unique_schedules(schedules):
+            iq_data = []
             if isinstance(results, list):
                 for result in results:
                     try:
-                        iq_data = result.get_memory(schedule)
+                        iq_data.append(result.get_memory(schedule))
                     except QiskitError:
                         pass
             else:
-                iq_data = results.get_memory(schedule)
+                iq_data.append(results.get_memory(schedule))
 
-            if iq_data is None:
+            if not iq_data:
                 raise PulseError('Could not find IQ data for %s' % schedule)
 
-            xdata.extend(self.format_iq_data(iq_data))
+            for data in iq_data:
+                xdata.extend(self.format_iq_data(data))
 
         return self._scale_data(xdata)
 
@@ -139,7 +140,7 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
         if schedules is None:
             schedules = self._get_schedules(results, schedule_type_to_get)
 
-        for schedule in schedules:
+        for schedule in self._unique_schedules(schedules):
             if isinstance(schedule, Schedule):
                 shed_name = schedule.name
             else:
@@ -158,6 +159,15 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
 
         return ydata
 
+    @staticmethod
+    def _unique_schedules(schedules: Union[List[str], List[Schedule]]):
+        """Return the schedules, each name once."""
+        names = {}
+        for schedule in schedules:
+            name = schedule.name if isinstance(schedule, Schedule) else schedule
+            names.setdefault(name, schedule)
+        return list(names.values())
+
     def format_iq_data(self, iq_data: np.ndarray) -> List[List[float]]:
         """
         Takes IQ data obtained from get_memory(), applies the qubit mask
-- 
2.43.0


From 9443965aed1799b00cf2e90c0850b900a8b08cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:56 +0000
Subject: [PATCH 59/74] fix: adding data to a discriminator keeps the data it
 has

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 8ed16c3..2068ad0 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -70,7 +70,7 @@ class BaseDiscriminationFitter(ABC):
         self._standardize = standardize
         self._scaler = None
         self._qubit_mask = qubit_mask
-        self._schedules = schedules
+        self._schedules = list(schedules)
         self._backend_result_list = []
         self._fitted = False
 
@@ -115,8 +115,11 @@ class BaseDiscriminationFitter(ABC):
         self._backend_result_list.append(result)
         self._add_expected_states(expected_states, schedules)
         self._schedules.extend(schedules)
-        self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
-        self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)
+        if refit:
+            # the scale follows from all the data
+            self._scaler = None
+        self._xdata = self.get_xdata(self._backend_result_list, 0, self._schedules)
+        self._ydata = self.get_ydata(self._backend_result_list, 0, self._schedules)
 
         if refit:
             self.fit()
-- 
2.43.0


From 4ceabdcc127c56e51a34ac482895f6b1afb59008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:56 +0000
Subject: [PATCH 60/74] fix: discrimination filter keeps averaged experiments
 and experiments of the same name apart

---
 .../ignis/measurement/discriminator/filters.py   | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/filters.py b/qiskit/ignis/measurement/discriminator/filters.py
index f855e4f..f24ea5f 100644
--- a/qiskit/ignis/measurement/discriminator/filters.py
+++ b/qiskit/ignis/measurement/discriminator/filters.py
@@ -73,24 +73,18 @@ class DiscriminationFilter:
         to_be_discriminated = []
 
         # Extract all the meas level 1 data from the Result.
-        shots_per_experiment_result = []
         for result in new_results.results:
             if result.meas_level == 1:
-                shots_per_experiment_result.append(result.shots)
                 to_be_discriminated.append(result)
 
         new_results.results = to_be_discriminated
 
-        x_data = self.discriminator.get_xdata(new_results, 2)
-        y_data = self.discriminator.discriminate(x_data)
-
-        start = 0
-        for idx, n_shots in enumerate(shots_per_experiment_result):
-            memory = y_data[start:(start+n_shots)]
+        # experiments are taken by position: their names need not be unique
+        for idx, result in enumerate(new_results.results):
+            x_data = self.discriminator.get_xdata(new_results, 2, [idx])
+            memory = self.discriminator.discriminate(x_data)
             counts = self.count(memory)
-            new_results.results[idx].data = ExperimentResultData(counts=counts,
-                                                                 memory=memory)
-            start += n_shots
+            result.data = ExperimentResultData(counts=counts, memory=memory)
 
         for result in new_results.results:
             result.meas_level = 2
-- 
2.43.0


From 7fde693979336eb24ee734982903530297df05d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:28 +0000
Subject: [PATCH 61/74] fix: logging configuration keeps the log file path as
 written

The path was lower-cased, cut at its first colon, and an empty one
failed instead of meaning the default file.
---
 qiskit/ignis/logging/ignis_logging.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index b4493a7..2dcbaa6 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -178,10 +178,10 @@ class IgnisLogging:
                 for line in log_file:
                     # removing comments
                     line = line[:line.find('#') if "#" in line else None]
-                    line = line.split(':')  # Splitting to key value
+                    line = line.split(':', 1)  # Splitting to key value
                     if len(line) < 2:
                         continue
-                    config[line[0].strip().lower()] = line[1].strip().lower()
+                    config[line[0].strip().lower()] = line[1].strip()
             IgnisLogging._config_file_exists = True
 
         return config
@@ -196,9 +196,8 @@ class IgnisLogging:
         log_config = IgnisLogging._load_config_file(log_config_path)
         # Reading the config file content
         IgnisLogging._file_logging_enabled = \
-            log_config.get('file_logging') == "true"
-        IgnisLogging._log_file = log_config.get('log_file') if \
-            log_config.get('log_file') is not None else "ignis.log"
+            log_config.get('file_logging', '').lower() == "true"
+        IgnisLogging._log_file = log_config.get('log_file') or "ignis.log"
         max_size = log_config.get('max_size')
         IgnisLogging._max_bytes = int(max_size) if \
             max_size is not None and max_size.isdigit() else 0
-- 
2.43.0


From e1aa7fc998141b616cfe54eb81bda5e8b3c0878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:28 +0000
Subject: [PATCH 62/74] fix: the log reader finds exactly the log files, oldest
 first

Special characters in the path hid the log files, unrelated names such
as ignis.log12 were taken for rotated files, and files with the same
modification time came in arbitrary order.
---
 qiskit/ignis/logging/ignis_logging.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 2dcbaa6..868ddde 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -315,18 +315,18 @@ class IgnisLogReader:
         """
 
         file_name = IgnisLogging().get_log_file()
-        search_path = os.path.abspath(file_name + "*")
-        files = sorted(glob.glob(search_path), key=os.path.getmtime)
+        search_path = os.path.abspath(file_name)
 
         result = list()
-        m = re.compile(
-            os.path.abspath(file_name).replace('\\', r'\\') + r"$|" +
-            os.path.abspath(file_name).replace('\\', r'\\') + r".\d+$")
-        for f in files:
-            if m.match(f):
-                result.append(f)
-
-        return result
+        m = re.compile(re.escape(search_path) + r"(?:\.(\d+))?$")
+        for f in glob.glob(glob.escape(search_path) + "*"):
+            match = m.match(f)
+            if match:
+                # files of the same age are ordered by their rotation count
+                result.append((os.path.getmtime(f),
+                               -int(match.group(1) or 0), f))
+
+        return [f for _, _, f in sorted(result)]
 
     def read_values(self, log_files: Optional[List[str]] = None,
                     keys: Optional[List[str]] = None,
-- 
2.43.0


From d5827b8df2ee9a67d68f20bc8f071aa41d73a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:28 +0000
Subject: [PATCH 63/74] fix: the log reader keeps values with spaces and line
 breaks in one piece

A value such as [1, 2, 4] was split at its spaces and truncated when
filtering by key; line breaks in a value made the time filter fail.
---
 qiskit/ignis/logging/ignis_logging.py | 37 ++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 868ddde..21d099f 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -305,6 +305,13 @@ class IgnisLogReader:
     date/time and key criteria
     """
 
+    # A log entry starts with its date and time and the label of the log
+    _ENTRY_START = re.compile(r"\d+/\d+/\d+ \d+:\d+:\d+ " +
+                              IgnisLogging._log_label)
+    # 'key':'value' followed by another pair or the end of the entry
+    _KEY_VALUE = re.compile(r"'[^\s':]+':'.*?'(?=\s+'[^\s':]+':'|\s*$)",
+                            re.DOTALL)
+
     def get_log_files(self) -> List[str]:
         """
         Get Names of all log files (several may be present due to logging
@@ -368,8 +375,8 @@ class IgnisLogReader:
 
         for file in files:
             with open(file, "r") as f:
-                for line in f:
-                    terms = line.split()
+                for line in self._entries(f):
+                    terms = line.split(None, 3)
                     date_time = terms[0:2]
 
                     dt_filterd = self._filter_by_datetime(date_time,
@@ -380,7 +387,8 @@ class IgnisLogReader:
                     if dt_filterd:
                         continue
 
-                    key_values = terms[3:]
+                    key_values = self._KEY_VALUE.findall(
+                        terms[3] if len(terms) > 3 else "")
                     if keys is not None:
                         key_values = self._filter_keys(key_values, keys)
                     if not key_values:
@@ -390,6 +398,29 @@ class IgnisLogReader:
 
         return retrieved_date
 
+    @staticmethod
+    def _entries(lines):
+        """
+        Join the lines which belong to the same log entry (values may contain
+        line breaks)
+
+        Params:
+            lines (iterable): lines of a log file
+
+        Yields:
+            str: A complete log entry
+        """
+        entry = None
+        for line in lines:
+            if entry is None or IgnisLogReader._ENTRY_START.match(line):
+                if entry is not None:
+                    yield entry
+                entry = line
+            else:
+                entry += line
+        if entry is not None:
+            yield entry
+
     def _filter_keys(self, key_values, keys):
         """
         Retrieve key value pairs matching the given keys
-- 
2.43.0


From 5cab45afd9a1205e0168e116e6d4cedeaa5b16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:28 +0000
Subject: [PATCH 64/74] fix: getting a logger again does not add another
 console handler

Console messages were repeated and values logged to file were printed
once get_logger had been called twice with the same name.
---
 qiskit/ignis/logging/ignis_logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 21d099f..5974931 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -60,6 +60,8 @@ class IgnisLogger(logging.getLoggerClass()):
             sh: StreamHandler object
             conf_file_exists: Whether or not a file config exists
         """
+        if self._stream_handler is not None:
+            self.removeHandler(self._stream_handler)
         self._stream_handler = sh
         self.addHandler(sh)
         self._conf_file_exists = conf_file_exists
-- 
2.43.0


From 7dd075ca807d63341b88b6f93df4838896b5b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:28 +0000
Subject: [PATCH 65/74] fix: loggers share the log file handler and lock it

Each logger had its own rotating handler: entries went to files another
logger had renamed or deleted. Threads logging to file at the same time
lost or doubled entries.
---
 qiskit/ignis/logging/ignis_logging.py | 38 ++++++++++++++++++---------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 5974931..f02a4e7 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -19,6 +19,7 @@ import os
 import glob
 from datetime import datetime
 import re
+import threading
 from typing import List, Union, Optional
 
 
@@ -86,24 +87,26 @@ class IgnisLogger(logging.getLoggerClass()):
                 self._warning_omitted = True
             return
 
-        # We defer setting up the file handler, since its __init__ method
-        # has the side effect of creating the file
-        if self._file_handler is None:
-            self._file_handler = IgnisLogging().get_file_handler()
-
-        assert(self._file_handler is not None), "file_handler is not set"
-
-        # Removing the stream handler to avoid printing to console here
-        Logger.removeHandler(self, self._stream_handler)
-        Logger.addHandler(self, self._file_handler)
         logstr = ""
         for k, v in kwargs.items():
             logstr += "'{}':'{}' ".format(k, v)
 
-        Logger.log(self, 100, logstr)
+        with IgnisLogging._file_lock:
+            # We defer setting up the file handler, since its __init__ method
+            # has the side effect of creating the file
+            if self._file_handler is None:
+                self._file_handler = IgnisLogging().get_file_handler()
+
+            assert(self._file_handler is not None), "file_handler is not set"
 
-        Logger.removeHandler(self, self._file_handler)
-        Logger.addHandler(self, self._stream_handler)
+            # Removing the stream handler to avoid printing to console here
+            Logger.removeHandler(self, self._stream_handler)
+            Logger.addHandler(self, self._file_handler)
+
+            Logger.log(self, 100, logstr)
+
+            Logger.removeHandler(self, self._file_handler)
+            Logger.addHandler(self, self._stream_handler)
 
     def enable_file_logging(self):
         """
@@ -153,6 +156,8 @@ class IgnisLogging:
     _log_label = "ignis_logging"
     _default_datefmt = '%Y/%m/%d %H:%M:%S'
     _config_file_exists = False
+    _file_handler = None
+    _file_lock = threading.RLock()
 
     # Making the class a Singleton
     def __new__(cls, log_config_path=None):
@@ -214,6 +219,7 @@ class IgnisLogging:
             IgnisLogging._file_logging_enabled = False
             IgnisLogging._log_file = None
             IgnisLogging._config_file_exists = False
+            IgnisLogging._file_handler = None
             logger = logging.getLogger(name)
             if isinstance(logger, IgnisLogger):
                 logger._file_handler = None
@@ -247,6 +253,11 @@ class IgnisLogging:
         Returns:
             RotatingFileHandler: The configured RotatingFileHandler object
         """
+        # All loggers share the handler: with one each, rotating the file by
+        # one of them leaves the others writing to a renamed or deleted file
+        if IgnisLogging._file_handler is not None:
+            return IgnisLogging._file_handler
+
         # Configuring the file handling aspect
         fh = logging.handlers.RotatingFileHandler(
             IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes,
@@ -257,6 +268,7 @@ class IgnisLogging:
             '%(asctime)s {} %(message)s'.format(IgnisLogging._log_label),
             datefmt=IgnisLogging._default_datefmt)
         fh.setFormatter(formatter)
+        IgnisLogging._file_handler = fh
 
         return fh
 
-- 
2.43.0


From d7247da143f789bcf0f8f7baa30bb548cb688321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:46 +0000
Subject: [PATCH 66/74] fix: include zero counts on request when all bits are
 kept

---
 qiskit/ignis/verification/tomography/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index b5e2c40..d66e9f7 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -62,6 +62,8 @@ def marginal_counts(counts: Dict[str, int],
         for key, val in counts.items():
             key = key.replace(' ', '')
             ret[key] = val
+        if pad_zeros is True:
+            return {key: ret.get(key, 0) for key in count_keys(num_qubits)}
         return ret
 
     # Sort the measured qubits into decending order
-- 
2.43.0


From 3dda217a1135a84339e581e1d84f69f2fd0bd49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:46 +0000
Subject: [PATCH 67/74] fix: pool tomography data of a circuit found in several
 results

---
 .../ignis/verification/tomography/fitters/base_fitter.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index afa8899..7cb0fcc 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -268,9 +268,13 @@ class TomographyFitter:
             counts = None
             for result in results:
                 try:
-                    counts = result.get_counts(circ)
+                    new_counts = result.get_counts(circ)
                 except QiskitError:
-                    pass
+                    continue
+                if counts is None:
+                    counts = new_counts
+                else:
+                    counts = combine_counts(counts, new_counts)
             if counts is None:
                 raise QiskitError("Result for {} not found".format(
                     getattr(circ, "name", circ)))
-- 
2.43.0


From e22d7100d0c27f4b2212ab29857b0c138eef683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:01 +0000
Subject: [PATCH 68/74] fix: entangle qubits more than 50 couplings away from
 the root in parallelized GHZ circuits

---
 qiskit/ignis/verification/entanglement/parallelize.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 88839e8..df619fa 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -176,7 +176,6 @@ class BConfig:
 
         parentlist = []
         parentlist.append(parent)
-        ii = 0
         while True:
             totalchildren = []
             for parent in parentlist:
@@ -193,10 +192,8 @@ class BConfig:
                     trashlist.append(children[i])
                 parentlist = totalchildren
 
-            if len(trashlist) == length:
-                break
-            ii += 1
-            if ii > 50:
+            # stop once there are no further qubits to entangle
+            if len(trashlist) == length or not totalchildren:
                 break
 
         newtier = {}
-- 
2.43.0


From 914f6becae19c64ebecb7b4a9b68a80522d9b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:58 +0000
Subject: [PATCH 69/74] fix: start the gauge optimization of gate set
 tomography from the gauge of the ideal SPAM states

---
 .../ignis/verification/tomography/fitters/gateset_fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 366b8d6..a89a073 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -252,10 +252,10 @@ class GaugeOptimize():
             BB = np.linalg.inv(B)
         except np.linalg.LinAlgError:
             return None
-        gateset = {label: PTM(BB @ self.initial_gateset[label].data @ B)
+        gateset = {label: PTM(B @ self.initial_gateset[label].data @ BB)
                    for label in self.gateset_basis.gate_labels}
-        gateset['E'] = self.initial_gateset['E'] @ B
-        gateset['rho'] = BB @ self.initial_gateset['rho']
+        gateset['E'] = self.initial_gateset['E'] @ BB
+        gateset['rho'] = B @ self.initial_gateset['rho']
         return gateset
 
     def _obj_fn(self, x: np.array) -> float:
-- 
2.43.0


From d2a679a34dd1fa2487fa71cfe514c14fff60ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:58 +0000
Subject: [PATCH 70/74] fix: flip a control qubit shared by several CX
 calibrations only once

---
 qiskit/ignis/characterization/gates/circuits.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/characterization/gates/circuits.py b/qiskit/ignis/characterization/gates/circuits.py
index 9bdfb9c..7498246 100644
--- a/qiskit/ignis/characterization/gates/circuits.py
+++ b/qiskit/ignis/characterization/gates/circuits.py
@@ -158,8 +158,10 @@ def ampcal_cx_circuits(max_reps, qubits, control_qubits):
     for circ_index, circ_length in enumerate(xdata):
         circ = qiskit.QuantumCircuit(qr, cr)
         circ.name = 'ampcalcxcircuit_' + str(circ_index) + '_0'
+        # a control shared by several qubits is flipped once
+        for control in sorted(set(control_qubits)):
+            circ.x(qr[control])
         for qind, qubit in enumerate(qubits):
-            circ.x(qr[control_qubits[qind]])
             circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[qubit]])  # X90p
             for _ in range(circ_length):
                 circ.barrier([qr[control_qubits[qind]], qr[qubit]])
@@ -213,8 +215,10 @@ def anglecal_cx_circuits(max_reps, qubits, control_qubits, angleerr=0.0):
     for circ_index, circ_length in enumerate(xdata):
         circ = qiskit.QuantumCircuit(qr, cr)
         circ.name = 'anglecalcxcircuit_' + str(circ_index) + '_0'
+        # a control shared by several qubits is flipped once
+        for control in sorted(set(control_qubits)):
+            circ.x(qr[control])
         for qind, qubit in enumerate(qubits):
-            circ.x(qr[control_qubits[qind]])
             circ.append(U2Gate(0.0, 0.0), [qr[qubit]])  # Y90p (target)
             for _ in range(circ_length):
                 if angleerr != 0:
-- 
2.43.0


From 5264bd1200f0d2e30df9bf624b936bddbc730f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:03 +0000
Subject: [PATCH 71/74] fix: coherence plot states the time of the plotted
 series

---
 qiskit/ignis/characterization/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index d0be4db..dc6d840 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -667,7 +667,7 @@ class BaseCoherenceFitter(BaseFitter):
                                            *self._params[series][qind]),
                 c='r', linestyle='--',
                 label=self._description + ': ' +
-                str(np.around(self.time(qid=qind), 1)) + ' ' + self._time_unit)
+                str(np.around(self.time(qid=qind, series=series), 1)) + ' ' + self._time_unit)
 
         ax.tick_params(axis='x', labelsize=14, labelrotation=70)
         ax.tick_params(axis='y', labelsize=14)
-- 
2.43.0


From b587622bf6e30dfda72a9784a57ff692b817c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:03 +0000
Subject: [PATCH 72/74] fix: purity RB plot with sequence lengths given as
 lists

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 3026b20..a53d254 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -858,7 +858,7 @@ class PurityRBFitter(RBFitterBase):
     def _rb_pur_fit_fun(x, a, alpha, b):
         """Function used to fit purity rb."""
         # pylint: disable=invalid-name
-        return a * alpha ** (2 * x) + b
+        return a * alpha ** (2 * np.asarray(x)) + b
 
     @staticmethod
     def F234(n, a, b):
-- 
2.43.0


From 2e460aa4665c6489c830b900aabc085d84cfbbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:03 +0000
Subject: [PATCH 73/74] fix: tensored calibration matches the circuit label
 literally

---
 qiskit/ignis/mitigation/measurement/fitters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index d7a878e..5ca1784 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -407,14 +407,14 @@ class TensoredMeasFitter():
                 circ_name = experiment.header.name
                 # extract the state from the circuit name
                 # this was the prepared state
-                circ_search = re.search('(?<=' + self._circlabel + 'cal_)\\w+',
-                                        circ_name)
+                circ_search = re.match(re.escape(self._circlabel) +
+                                       'cal_(\\w+)', circ_name)
 
                 # this experiment is not one of the calcs so skip
                 if circ_search is None:
                     continue
 
-                state = circ_search.group(0)
+                state = circ_search.group(1)
 
                 # get the counts from the result
                 state_cnts = result.get_counts(circ_name)
-- 
2.43.0


From fc502d272e28c06aea9dff33a6654bd12903aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:03 +0000
Subject: [PATCH 74/74] fix: accuracy of least squares mitigation independent
 of the shots

---
 .../ignis/mitigation/measurement/filters.py   | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/qiskit/ignis/mitigation/measurement/filters.py b/qiskit/ignis/mitigation/measurement/filters.py
index 92f4c95..7e27e01 100644
--- a/qiskit/ignis/mitigation/measurement/filters.py
+++ b/qiskit/ignis/mitigation/measurement/filters.py
@@ -171,18 +171,21 @@ class MeasurementFilter():
                     pinv_cal_mat, raw_data2[data_idx])
 
             elif method == 'least_squares':
-                nshots = sum(raw_data2[data_idx])
+                # solve for probabilities: with counts the accuracy of the
+                # solver would depend on the number of shots
+                nshots = sum(raw_data2[data_idx]) or 1
+                probs = np.array(raw_data2[data_idx]) / nshots
+                total = sum(probs)
 
                 def fun(x):
-                    return sum(
-                        (raw_data2[data_idx] - np.dot(self._cal_matrix, x))**2)
+                    return sum((probs - np.dot(self._cal_matrix, x))**2)
                 x0 = np.random.rand(len(self._state_labels))
                 x0 = x0 / sum(x0)
-                cons = ({'type': 'eq', 'fun': lambda x: nshots - sum(x)})
-                bnds = tuple((0, nshots) for x in x0)
+                cons = ({'type': 'eq', 'fun': lambda x: total - sum(x)})
+                bnds = tuple((0, total) for x in x0)
                 res = minimize(fun, x0, method='SLSQP',
-                               constraints=cons, bounds=bnds, tol=1e-6)
-                raw_data2[data_idx] = res.x
+                               constraints=cons, bounds=bnds, tol=1e-12)
+                raw_data2[data_idx] = nshots * res.x
 
             else:
                 raise QiskitError("Unrecognized method.")
@@ -382,6 +385,11 @@ class TensoredFilter():
                 raw_data2[data_idx] = inv_mat_dot_raw
 
             elif method == 'least_squares':
+                # solve for probabilities: with counts the accuracy of the
+                # solver would depend on the number of shots
+                nshots = sum(raw_data2[data_idx]) or 1
+                probs = raw_data2[data_idx] / nshots
+                total = sum(probs)
 
                 def fun(x):
                     mat_dot_x = np.zeros([num_of_states], dtype=float)
@@ -412,17 +420,15 @@ class TensoredFilter():
                                         break
                                 mat_dot_x[state1_idx] += \
                                     (product * x[state2_idx])
-                    return sum(
-                        (raw_data2[data_idx] - mat_dot_x)**2)
+                    return sum((probs - mat_dot_x)**2)
 
                 x0 = np.random.rand(num_of_states)
                 x0 = x0 / sum(x0)
-                nshots = sum(raw_data2[data_idx])
-                cons = ({'type': 'eq', 'fun': lambda x: nshots - sum(x)})
-                bnds = tuple((0, nshots) for x in x0)
+                cons = ({'type': 'eq', 'fun': lambda x: total - sum(x)})
+                bnds = tuple((0, total) for x in x0)
                 res = minimize(fun, x0, method='SLSQP',
-                               constraints=cons, bounds=bnds, tol=1e-6)
-                raw_data2[data_idx] = res.x
+                               constraints=cons, bounds=bnds, tol=1e-12)
+                raw_data2[data_idx] = nshots * res.x
 
             else:
                 raise QiskitError("Unrecognized method.")
-- 
2.43.0

