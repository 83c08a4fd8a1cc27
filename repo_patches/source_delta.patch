From 2cef9a5f290a6c98a44f4abd96f6b6644a0fd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 01/72] fix: include the initial phase in the product of a
 single Pauli operator

---
 src/plaquette/pauli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3d45e74..3a5c530 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1423,7 +1423,9 @@ def multiply(
         raise ValueError("At least one operator is necessary")
     elif len(operators) == 1:
         # If only one operator is given, treat this product as being with an identity.
-        return operators[0], -1 if operators[0][-1] else 1
+        return multiply(
+            operators[0], np.zeros_like(operators[0]), initial_phase=initial_phase
+        )
     elif len(operators) > 2:
         prod, phase = multiply(
             operators[-2], operators[-1], initial_phase=initial_phase
-- 
2.43.0


From 8e2f3711510c35c544e00ad844610f1399b74f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 02/72] fix: keep the phase of products of large Pauli
 operators exact

Python computes 1j**k inexactly for abs(k) > 100, so that the residual imaginary
or real part decided the sign bit.
---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3a5c530..79460ef 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1451,7 +1451,7 @@ def multiply(
         # The sign information is also entirely included in ``initial_phase`` and copied
         # to the sign bit only to be used in those algorithms that require it. If we
         # don't do this, we will ignore minus-signs from ``i`` factors.
-        phase = initial_phase * 1j**phase_exponent * (1 - 2 * ans[-1])
+        phase = initial_phase * 1j ** (phase_exponent % 4) * (1 - 2 * int(ans[-1]))
         if phase.imag != 0:
             sign_bit = 1 if phase.imag < 0 else 0
         elif phase.real != 0:
-- 
2.43.0


From 60b56e400a64d61e04d9048f4ed17e095deb9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 03/72] fix: allow destructive measurements of more than one
 qubit

---
 src/plaquette/pauli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 79460ef..a335bf9 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -489,8 +489,6 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
         be done highest-index first. The relationship target-forced outcome
         is preserved also at the output.
     """
-    n_q = count_qubits(state)[0]
-
     if isinstance(targets, int):
         targets = [targets]
 
@@ -536,7 +534,9 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
     for sorted_idx in reversed(np.argsort(targets)):
         state, m = measure(
             state,
-            single_qubit_pauli_operator(base, targets[sorted_idx], n_q),
+            single_qubit_pauli_operator(
+                base, targets[sorted_idx], count_qubits(state)[0]
+            ),
             forced_outcome=_fo[sorted_idx],
         )
         measurement_results[sorted_idx] = m
-- 
2.43.0


From 244c01716c30a44368208311484bf2b9f37ab8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 04/72] fix: insert and append qubits at any position of a
 state

---
 src/plaquette/pauli.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index a335bf9..6e48159 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -395,7 +395,8 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
 
     Args:
         state: the state to modify, in binary form.
-        pos: position(s) of qubit(s) to be added.
+        pos: position(s) of qubit(s) to be added, i.e. the indices of the qubits of
+            ``state`` before which they are inserted.
 
     Raises:
         IndexError: if you try to add a qubit at ``pos > number_of_qubits``.
@@ -408,27 +409,25 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
             "you're looking for pauli.pad_operator()?"
         )
     number_of_qubits = state.shape[1] // 2
-    if isinstance(pos, int):
-        pos = np.array([pos])
-    if (pos > number_of_qubits).any():
+    positions = np.sort(np.atleast_1d(np.asarray(pos, dtype=int)))
+    if (positions > number_of_qubits).any() or (positions < 0).any():
         raise IndexError(
             f"Cannot insert a new qubit at position {pos} for a state with "
             f"{number_of_qubits} qubits."
         )
-    h_pos = np.concatenate((pos, np.array(pos) + number_of_qubits))
-    number_of_missing_qubits = np.max(h_pos) - number_of_qubits
-    v_pos = np.concatenate(
-        (
-            [number_of_qubits] * number_of_missing_qubits,
-            [2 * number_of_qubits] * number_of_missing_qubits,
-        )
-    )
-
+    new_qubits = len(positions)
+    h_pos = np.concatenate((positions, positions + number_of_qubits))
+    v_pos = np.repeat((number_of_qubits, 2 * number_of_qubits), new_qubits)
     state = np.insert(state, h_pos, 0, axis=1)
     state = np.insert(state, v_pos, 0, axis=0)
-    number_of_qubits += number_of_missing_qubits
-    state[v_pos[:number_of_qubits], h_pos[:number_of_qubits]] = 1
-    state[v_pos[number_of_qubits:], h_pos[number_of_qubits:-1]] = 1
+
+    # The rows of the new qubits are the last ones of the destabilisers and of the
+    # stabilisers, their columns have been shifted by the qubits inserted before them
+    rows = number_of_qubits + np.arange(new_qubits)
+    columns = positions + np.arange(new_qubits)
+    number_of_qubits += new_qubits
+    state[rows, columns] = 1
+    state[rows + number_of_qubits, columns + number_of_qubits] = 1
     return state
 
 
-- 
2.43.0


From dd0d68d8c97b78905a8d6534b4a9fb8b784f6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 05/72] fix: convert identity dictionaries and refuse unknown
 operators in them

---
 src/plaquette/pauli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 6e48159..ca7dfa2 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -342,10 +342,10 @@ def dict_to_pauli(ops: PauliDict, qubits: Optional[int] = None) -> Tableau:
 
     Raises:
         ValueError: when ``qubits`` is less than the inferred number of qubits taken
-            from ``ops``'s keys.
+            from ``ops``'s keys, or when an operator is not one of ``IXYZ``.
     """
     # TODO: add tests
-    max_qubit_index = max(ops.keys())
+    max_qubit_index = max(ops.keys(), default=-1)
     if qubits is None:
         qubits = max_qubit_index + 1
 
@@ -356,6 +356,8 @@ def dict_to_pauli(ops: PauliDict, qubits: Optional[int] = None) -> Tableau:
         )
     binary_operator = np.zeros(2 * qubits + 1, dtype="u1")
     for qubit_index, operator in ops.items():
+        if qubit_index < 0 or operator not in ("I", "X", "Y", "Z"):
+            raise ValueError(f"Unrecognised operator {operator!r} on {qubit_index}")
         binary_operator[qubit_index] = int(operator in "XY")
         binary_operator[qubit_index + qubits] = int(operator in "ZY")
     return binary_operator
-- 
2.43.0


From 21a3c824666a2a9af7afba7edaddaedc27ed6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 06/72] fix: refuse malformed Pauli strings and too small
 numbers of qubits

The docstring promises a ValueError for both.  The string of an identity in short
form, which has a sign only, is now converted back instead of failing.
---
 src/plaquette/pauli.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index ca7dfa2..1669d4e 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1035,22 +1035,33 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
         # * the second element is the whole single qubit operator (X11, X on 12th qubit)
         # * the third element is the operator only
         # * the fourth element is the qubit **index**
+        if re.fullmatch(r"[-+]?([XYZI]\d+)+", op_str) is None:
+            raise ValueError(f"Unrecognised characters in operator '{op_str}'")
         op_str_components = short_string_re.findall(op_str)
         # we check only the first sign to apply a global phase
         if op_str_components[0][0] == "-":
             initial_phase = 1
         operator_dict: PauliDict = {int(i): o for _, _, o, i in op_str_components}
+        if len(operator_dict) != len(op_str_components):
+            raise ValueError(f"Operator '{op_str}' acts twice on the same qubit")
     else:
         # Otherwise, this is the canonical representation. We first remove the sign
         # if present at all
-        if op_str[0] in "+-":
+        if op_str[:1] in ("+", "-"):
             initial_phase = 1 if op_str[0] == "-" else 0
             op_str = op_str[1:]
+        if re.fullmatch(r"[XYZI]*", op_str) is None:
+            raise ValueError(f"Unrecognised characters in operator '{op_str}'")
         # and then we compile a dictionary of where non-identity operators are
         operator_dict = {i: o for i, o in enumerate(op_str) if o != "I"}
         # we also need to make sure that we are not truncating identities from
         # the end in the canonical representation
-        qubits = max(qubits or 0, len(op_str))
+        if qubits is None:
+            qubits = len(op_str)
+        elif qubits < len(op_str):
+            raise ValueError(
+                f"Specified qubits ({qubits}) are less than the ones in '{op_str}'"
+            )
 
     binary_operator = dict_to_pauli(operator_dict, qubits)
     binary_operator[-1] = initial_phase
-- 
2.43.0


From 01d3262e9caea98ead617106a88af1d21b93d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 07/72] fix: refuse single-qubit Pauli operators with
 unrecognised characters

---
 src/plaquette/pauli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 1669d4e..7181a55 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1315,6 +1315,9 @@ def single_qubit_pauli_operator(op: str, qubit: int, qubits: int) -> Tableau:
     if qubits <= qubit:
         raise ValueError("Total number of qubits less than target qubit position")
 
+    if re.fullmatch(r"[-+]?[XYZ]", op) is None:
+        raise ValueError("Only X, Y, or Z are allowed, optionally with sign")
+
     meas_op = np.zeros(2 * qubits + 1, dtype="u1")
     meas_op[-1] = 1 if op[0] == "-" else 0
 
-- 
2.43.0


From cbf870e20350c3c010bdd3be3653676ed15d67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 08/72] fix: refuse invalid forced outcomes also if the outcome
 is certain

---
 src/plaquette/pauli.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 7181a55..47480ec 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -683,6 +683,10 @@ def measure(
             qubits than the state.
         ValueError: if ``forced_outcome`` is neither ``0`` nor ``1``.
     """
+    if forced_outcome is not None and forced_outcome not in [0, 1]:
+        raise ValueError(
+            f"Measurement outcome can only be 0 or 1, but {forced_outcome} was given."
+        )
     number_of_qubits = count_qubits(state)[0]
     if isinstance(meas_operator, str):
         meas_op = string_to_pauli(meas_operator, number_of_qubits)
@@ -718,11 +722,6 @@ def measure(
         # Replace the first non-commuting stabilizer with
         # (-1)ˆmeas_outcome meas_op
         if forced_outcome is not None:
-            if forced_outcome not in [0, 1]:
-                raise ValueError(
-                    f"Measurement outcome can only be 0 or 1, but {forced_outcome} "
-                    "was given."
-                )
             meas_outcome = forced_outcome
         else:
             meas_outcome = plaquette.rng.choice([0, 1])
-- 
2.43.0


From b46fef45efa66fc10f2c74c2dd257c790c2ea2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 09/72] fix: measure operators proportional to the identity

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 47480ec..f64f748 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -705,7 +705,7 @@ def measure(
     # Outcome is random if one meas_op does not commute with at least one
     # stabilizer, which appear after n_qubits. We don't care about not commuting
     # with the de-stabilisers
-    if nonzero[-1] >= number_of_qubits:
+    if nonzero.size and nonzero[-1] >= number_of_qubits:
         # Find the first non-commuting (with meas_op) stabilizer
         first_nc_stab = nonzero[nonzero >= number_of_qubits][0]
         index_pos = np.where(nonzero == first_nc_stab)[0][0]
-- 
2.43.0


From ea3a086efab6a1ed22d3e3e572d1dc94b7181c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 10/72] fix: reset qubits also to eigenstates of Y and of
 operators with a + sign

---
 src/plaquette/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index f64f748..513c450 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1280,9 +1280,9 @@ def reset_qubits_to_eigenstate(
             state, single_qubit_pauli_operator(pauli, qubit, state_qubits)
         )
         if meas_outcome:
-            if pauli == "Z" or pauli == "-Z":
+            if pauli[-1] == "Z":
                 state = x(state, qubit)
-            elif pauli == "X" or pauli == "-X":
+            else:
                 state = z(state, qubit)
     return state
 
-- 
2.43.0


From 692f1e2c3c17af1625fae22f1b0c7304c6111de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 11/72] fix: accept numpy arrays as operators in apply_operator

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 513c450..2e2bc09 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -133,7 +133,7 @@ def apply_operator(op: Tableau, state: Tableau) -> Tableau:
     if state.ndim != 2:
         raise ValueError("`state` must be a 2D numpy array")
 
-    if isinstance(op, np.ndarray):
+    if not isinstance(op, np.ndarray):
         raise TypeError("`op` must be a numpy array")
 
     if op.ndim == 1:
-- 
2.43.0


From 619ff06021d5076f85d4dfeaf7dbf0bbcfc4bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 12/72] fix: apply X, Y and Z to all qubits of a one-shot
 iterable

---
 src/plaquette/pauli.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 2e2bc09..7272f38 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1344,8 +1344,7 @@ def x(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
-    if isinstance(qubits, int):
-        qubits = [qubits]
+    qubits = [qubits] if isinstance(qubits, int) else list(qubits)
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
@@ -1369,6 +1368,7 @@ def y(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
+    qubits = [qubits] if isinstance(qubits, int) else list(qubits)
     return z(x(state, qubits), qubits)
 
 
@@ -1486,8 +1486,7 @@ def z(state: Tableau, qubits: int | Iterable[int] | Tableau):
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
-    if isinstance(qubits, int):
-        qubits = [qubits]
+    qubits = [qubits] if isinstance(qubits, int) else list(qubits)
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
-- 
2.43.0


From 948e7aaffdc31b09120f63130b1a022ba9ff73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 13/72] fix: build states from any complete set of stabilisers

The pseudoinverse over the reals is not a solution over GF(2), so that entangled
states were refused or got wrong destabilisers, and the check that (de)stabilisers
of different indices commute was never reached.
---
 src/plaquette/pauli.py | 59 +++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 7272f38..2e586e1 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1067,6 +1067,45 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
     return binary_operator
 
 
+def _find_destabilisers(stabilisers: Tableau) -> Tableau:
+    """Find destabilisers for a complete set of stabilisers.
+
+    Args:
+        stabilisers: as many independent operators as qubits.
+
+    Raises:
+        ValueError: if there are not as many independent operators as qubits.
+    """
+    qubits = count_qubits(stabilisers)[0]
+    xs, zs, _ = unpack_tableau(stabilisers)
+    if len(stabilisers) != qubits:
+        raise ValueError(f"{qubits} stabilisers are necessary to define the state")
+    # A destabiliser (x|z) is a solution of (zs|xs) (x|z)^T = e_i over GF(2). We solve
+    # the equations of all destabilisers at once by Gauss-Jordan elimination.
+    equations = np.hstack((zs, xs, np.eye(qubits, dtype="u1")))
+    pivots: list[int] = []
+    for column in range(2 * qubits):
+        rows = np.nonzero(equations[len(pivots) :, column])[0] + len(pivots)
+        if not rows.size:
+            continue
+        row = len(pivots)
+        equations[[row, rows[0]]] = equations[[rows[0], row]]
+        others = np.nonzero(equations[:, column])[0]
+        equations[others[others != row]] ^= equations[row]
+        pivots.append(column)
+    if len(pivots) < qubits:
+        raise ValueError("The stabilisers are not independent")
+    destabilisers = np.zeros((qubits, 2 * qubits + 1), dtype="u1")
+    destabilisers[:, pivots] = equations[:, 2 * qubits :].T
+    # Multiplying a destabiliser with another stabiliser makes it commute with the
+    # destabiliser of the latter
+    for i in range(qubits):
+        for j in range(i):
+            if commutator_sign(destabilisers[i], destabilisers[j]):
+                destabilisers[i, :-1] ^= stabilisers[j, :-1]
+    return destabilisers
+
+
 def string_to_state(
     stabilisers: Sequence[str],
     destabilisers: Optional[Sequence[str]] = None,
@@ -1131,17 +1170,7 @@ def string_to_state(
             )
     else:
         # If no destabilisers are given, we need to calculate them
-        ident_size = count_qubits(binary_stabilisers[0])[0]
-        ident = np.eye(ident_size, dtype="u1")
-        zero = np.zeros(ident.shape, dtype="u1")
-        omega = np.block([[zero, ident], [ident, zero]])
-        binary_destabilisers = (
-            np.linalg.pinv(binary_stabilisers[:, :-1].T) @ omega
-        ).astype("u1")
-        # attach an empty column for the sign info
-        binary_destabilisers = np.hstack(
-            (binary_destabilisers, np.zeros((ident_size, 1), dtype="u1"))
-        )
+        binary_destabilisers = _find_destabilisers(binary_stabilisers)
 
     # No matter how we got the destabilisers, check things for sanity
     for i, s in enumerate(binary_stabilisers):
@@ -1163,11 +1192,17 @@ def string_to_state(
                 raise ValueError(
                     f"Destabiliser {j} does not anticommute with its stabiliser"
                 )
-            elif j > i and commutator_sign(s, d):
+            elif i != j and commutator_sign(s, d):
                 # different indices should commute instead
                 raise ValueError(
                     f"Destabiliser {j} does not commute with stabiliser {i}"
                 )
+            elif i != j and commutator_sign(
+                binary_stabilisers[j], binary_destabilisers[i]
+            ):
+                raise ValueError(
+                    f"Destabiliser {i} does not commute with stabiliser {j}"
+                )
     return np.vstack((binary_destabilisers, binary_stabilisers), dtype="u1")
 
 
-- 
2.43.0


From 2853fcba9211d24da186472e29a62024e9da099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 14/72] fix: refuse invalid arguments when an instruction is
 appended

Arguments of an instruction inside an error branch were all converted to integers,
so that ERROR 0.5 E_PAULI 0.1 0.2 0.3 0 lost its probabilities (or was refused, as
text). Probabilities outside [0, 1], fractional and negative qubit indices, nested
error branches and incomplete or repeated qubit pairs were accepted, and failed or
were misinterpreted by the simulators.
---
 src/plaquette/circuit/__init__.py | 57 +++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/plaquette/circuit/__init__.py b/src/plaquette/circuit/__init__.py
index 1c6cae3..2866ed1 100644
--- a/src/plaquette/circuit/__init__.py
+++ b/src/plaquette/circuit/__init__.py
@@ -198,35 +198,64 @@ class Circuit:
             name: Name of the gate
             *args: Gate arguments (see :ref:`circuits-ref`)
         """
+        self.gates.append((str(name), self._convert_args(name, args)))
+
+    def _convert_args(self, name: str, args: tuple) -> tuple[Any, ...]:
+        """Check the arguments of one instruction and convert them to numbers."""
         if name in ("ERROR", "ERROR_ELSE"):
             try:
                 p = float(args[0])
             except ValueError as e:
                 raise ValueError(f"First argument of {name} must be a float") from e
-            if not 0.0 <= p <= 1.0:
-                raise ValueError("The probability must be within [0.0, 1.0]")
-            assert args[1] in self.allowed_gates, f"{args[1]} gate is not supported"
-            args = (p, str(args[1]), *map(int, args[2:]))
+            self._check_probabilities(p)
+            return (p, *self._convert_branch(args[1], args[2:]))
         elif name == "ERROR_CONTINUE":
-            assert args[0] in self.allowed_gates, f"{args[0]} gate is not supported"
-            args = (str(args[0]), *map(int, args[1:]))
+            return self._convert_branch(args[0], args[1:])
         elif name == "E_ERASE":
             assert len(args) == 2, "Wrong number of arguments to E_ERASE"
-            args = (float(args[0]), int(args[1]))
+            probabilities = tuple(map(float, args[:1]))
         elif name == "E_PAULI":
             assert len(args) == 4, "Wrong number of arguments to E_PAULI"
-            args = (*map(float, args[:3]), int(args[3]))
+            probabilities = tuple(map(float, args[:3]))
         elif name == "E_PAULI2":
             assert len(args) == 17, "Wrong number of arguments to E_PAULI2"
-            args = (*map(float, args[:15]), *map(int, args[15:]))
+            probabilities = tuple(map(float, args[:15]))
         elif name in self.deterministic_gates:
-            try:
-                args = tuple(map(int, args))
-            except ValueError as e:
-                raise TypeError("Qubit indices must be integers") from e
+            probabilities = ()
         else:
             raise ValueError(f"Do not know how to handle gate {name!r}")
-        self.gates.append((str(name), args))
+        self._check_probabilities(*probabilities)
+        qubits = self._convert_qubits(args[len(probabilities) :])
+        if name in ("CX", "CZ", "E_PAULI2"):
+            if len(qubits) % 2:
+                raise ValueError(f"{name} needs pairs of qubits")
+            if any(c == t for c, t in zip(qubits[::2], qubits[1::2])):
+                raise ValueError(f"{name} needs two different qubits")
+        return (*probabilities, *qubits)
+
+    def _convert_branch(self, name: str, args: tuple) -> tuple[Any, ...]:
+        """Same as :meth:`_convert_args` for the gate applied by an error branch."""
+        assert name in self.allowed_gates, f"{name} gate is not supported"
+        if name in ("ERROR", "ERROR_ELSE", "ERROR_CONTINUE"):
+            raise ValueError(f"{name} cannot be applied by another error instruction")
+        return (str(name), *self._convert_args(name, args))
+
+    @staticmethod
+    def _check_probabilities(*probabilities: float):
+        if not all(0.0 <= p <= 1.0 for p in probabilities):
+            raise ValueError("The probability must be within [0.0, 1.0]")
+
+    @staticmethod
+    def _convert_qubits(args: tuple) -> tuple[int, ...]:
+        try:
+            qubits = tuple(map(int, args))
+        except ValueError as e:
+            raise TypeError("Qubit indices must be integers") from e
+        if any(not isinstance(a, str) and a != q for a, q in zip(args, qubits)):
+            raise TypeError("Qubit indices must be integers")
+        if any(q < 0 for q in qubits):
+            raise ValueError("Qubit indices must not be negative")
+        return qubits
 
 
 class CircuitBuilder:
-- 
2.43.0


From 94e14fbec7f4f4bf408c9c0eb5a4bbbd71583af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 15/72] fix: do not continue an error branch of an earlier run

ERROR_CONTINUE and ERROR_ELSE at the start of a circuit were accepted if the
previous run had ended, or failed, within an error branch.
---
 src/plaquette/device/_circuitsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/device/_circuitsim.py b/src/plaquette/device/_circuitsim.py
index 9de78f2..2ea728b 100644
--- a/src/plaquette/device/_circuitsim.py
+++ b/src/plaquette/device/_circuitsim.py
@@ -70,6 +70,7 @@ class CircuitSimulator(device.AbstractSimulator):
             pointer is reset, **but not the internal state**.
         """
         self._instruction_pointer = -1
+        self.in_error = False
         return self
 
     def __next__(self):
-- 
2.43.0


From 9930a161fb802a33b97e527e8827959b2a21d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 16/72] fix: translate DEPOLARIZE to stim

There is no stim gate of this name. The instruction applies X, Y or Z with equal
probability.
---
 src/plaquette/device/_stimsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 146a6b2..5647561 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -55,7 +55,7 @@ def circuit_to_stim(circ: circuit.Circuit) -> tuple[stim.Circuit, list[bool]]:
                 res.append(name, args)
                 meas_is_erasure.extend([False] * len(args))
             case "DEPOLARIZE":
-                res.append(name, args, 1.0)
+                res.append("PAULI_CHANNEL_1", args, (1 / 3, 1 / 3, 1 / 3))
             case "E_PAULI":
                 assert len(args) == 4
                 res.append("PAULI_CHANNEL_1", args[3], args[:3])
-- 
2.43.0


From 8b90412eebc9c3f0c336843404fa3852627331d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 17/72] fix: return empty results of circuits without
 measurements with stim

---
 src/plaquette/device/_stimsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 5647561..1d6e2a7 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -148,7 +148,7 @@ class StimSimulator(device.AbstractSimulator):
         # Convert the circuit to Stim format. A sampler is not built until an RNG
         # is supplied.
         self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
-- 
2.43.0


From a881e518e333d0ff8ebe07064c03ca40706560ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 18/72] fix: let the stim simulator follow changes of its
 circuit

---
 src/plaquette/device/_stimsim.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 1d6e2a7..b31cf23 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -147,14 +147,19 @@ class StimSimulator(device.AbstractSimulator):
         self.batch_size = batch_size
         # Convert the circuit to Stim format. A sampler is not built until an RNG
         # is supplied.
-        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
+        self._convert_circuit()
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
             self.stim_seed = stim_seed
         self.reset()
 
+    def _convert_circuit(self):
+        """Convert the circuit in its current form to Stim format."""
+        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
+        self._converted_gates = list(self.circ.gates)
+
     def reset(self, new_seed: Optional[int] = None):
         """Compile a new Stim sampler.
 
@@ -164,6 +169,8 @@ class StimSimulator(device.AbstractSimulator):
         """
         if new_seed is not None:
             self.stim_seed = new_seed
+        if self.circ.gates != self._converted_gates:
+            self._convert_circuit()
         self.stim_sampler = self.stim_circ.compile_sampler(seed=self.stim_seed)
         # Erase current batch (if any)
         self.batch = None
@@ -173,6 +180,8 @@ class StimSimulator(device.AbstractSimulator):
         # Sample a new match if necessary.
         if not after_reset:
             raise ValueError("Stim does not allow sampling without resetting")
+        if self.circ.gates != self._converted_gates:
+            self.reset()
         if self.batch_remaining == 0:
             self.batch = self.stim_sampler.sample(shots=self.batch_size)
             self.batch_remaining = self.batch_size
-- 
2.43.0


From 6ae5b27e4a6b98bd9c7c9ef0d416c0c2a438f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 19/72] fix: keep the simulator of a circuit given by its
 builder

A new simulator was created for every run, so that with an explicit stim seed every
shot was identical, and state and results were lost when running without reset.
---
 src/plaquette/device/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index d99abf0..4b88bb3 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -407,6 +407,8 @@ class Device:
         # backend is None in the case of a local simulator, but now we
         # can actually create one, since we have a circuit
         if self._backend_name in local_simulators:
+            if isinstance(circuit, plaq_circuit.CircuitBuilder):
+                circuit = circuit.circ
             if self._backend is None or self.circuit is not circuit:
                 self._backend = self._backend_class(
                     circuit, *self._args, **self._kwargs
-- 
2.43.0


From 20c5941e130548bbdc229f110ac7698253f01956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 20/72] fix: restore the basis after reading logical operators
 from data qubits

---
 src/plaquette/circuit/generator.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 60cf239..7ccecc7 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -238,7 +238,9 @@ class QECCircuitGenerator:
             self.apply_measurement_error(op)
         self.apply_gate_and_error("M", ancilla, None, with_errors)
 
-    def measure_logical_ops(self, logop_indices: Sequence[int]):
+    def measure_logical_ops(
+        self, logop_indices: Sequence[int], restore_basis: bool = False
+    ):
         """Measure logical operators.
 
         Args:
@@ -246,6 +248,8 @@ class QECCircuitGenerator:
                 Specifies which logical operators should be measured. See
                 :meth:`plaquette.codes.StabilizerCode.logical_ops_to_indices` for
                 details.
+            restore_basis: whether to undo the basis changes of directly measured
+                data qubits. This is necessary if any operation follows on them.
         """
         for i in logop_indices:
             op = self.lat.logical_ops[i]
@@ -262,6 +266,12 @@ class QECCircuitGenerator:
                         case lattice.Pauli.Y:
                             raise ValueError("Pauli Y not implemented yet")
                     self.apply_gate_and_error("M", dataqubit, None, with_errors=False)
+                if restore_basis:
+                    for edge in op.edges:
+                        if edge.factor == lattice.Pauli.X:
+                            self.apply_gate_and_error(
+                                "H", edge.data.equbit_idx, None, with_errors=False
+                            )
             else:
                 self.measure_op(op, with_errors=False)
 
@@ -355,7 +365,7 @@ class QECCircuitGenerator:
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
         # Measure logical operators for state preparation
-        self.measure_logical_ops(logop_indices)
+        self.measure_logical_ops(logop_indices, restore_basis=True)
         # Measure stabilizer generators for state preparation (without errors)
         self.measure_stabgens(with_errors=False)
         for _ in range(self.code.n_rounds - 1):
@@ -368,7 +378,7 @@ class QECCircuitGenerator:
         # Measure last round of stabilizer generators (without errors)
         self.measure_stabgens(with_errors=False)
         # Measure logical operators for state verification
-        self.measure_logical_ops(logop_indices)
+        self.measure_logical_ops(logop_indices, restore_basis=True)
         return self.cb.circ
 
 
-- 
2.43.0


From 202d096ffb092467d5600f73f22fa2d8a561fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 21/72] fix: refuse to read logical operators that need
 different bases of a data qubit

---
 src/plaquette/circuit/generator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 7ccecc7..7517477 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -275,6 +275,18 @@ class QECCircuitGenerator:
             else:
                 self.measure_op(op, with_errors=False)
 
+    def _check_common_basis(self, logop_indices: Sequence[int]):
+        """Check that all operators can be read from the same data qubits at once."""
+        factors: dict[int, lattice.Pauli] = {}
+        for i in logop_indices:
+            for edge in self.lat.logical_ops[i].edges:
+                factor = factors.setdefault(edge.data.equbit_idx, edge.factor)
+                if factor != edge.factor:
+                    raise ValueError(
+                        "The measured logical operators need different bases on data "
+                        f"qubit {edge.data.equbit_idx}, use logical ancillas instead"
+                    )
+
     def measure_stabgens(self, with_errors: bool):
         """Measure all stabilizer generators sequentially or in parallel.
 
@@ -364,6 +376,8 @@ class QECCircuitGenerator:
         lcomm = commutator_sign(logical_ops_op, logical_ops_op)
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
+        if not self.logical_ancilla:
+            self._check_common_basis(logop_indices)
         # Measure logical operators for state preparation
         self.measure_logical_ops(logop_indices, restore_basis=True)
         # Measure stabilizer generators for state preparation (without errors)
-- 
2.43.0


From 67da30464b286a68ab36b0f9ba475a2b2245714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 22/72] fix: leave the error dictionaries given to the circuit
 generator unchanged

---
 src/plaquette/circuit/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 7517477..cf01bec 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -103,11 +103,11 @@ class QECCircuitGenerator:
             raise KeyError("There is an invalid key in the gate errors dictionary.")
 
         self.code = code
-        self.qubit_errors = qubit_errordata
+        self.qubit_errors = qubit_errordata.copy()
         for key in QubitErrorsDict.__optional_keys__:
             self.qubit_errors.setdefault(key, {})  # type: ignore
 
-        self.gate_errors = gate_errordata
+        self.gate_errors = gate_errordata.copy()
         for key in GateErrorsDict.__optional_keys__:
             self.gate_errors.setdefault(key, {})  # type: ignore
 
-- 
2.43.0


From ab8f34269e36cebf9c5bc86102b79fe2ac717975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 23/72] fix: unpack results of logical operators on any number
 of qubits

---
 src/plaquette/device/__init__.py | 65 +++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index 4b88bb3..b4bf48b 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -219,6 +219,7 @@ class MeasurementSample:
         raw_results: np.ndarray,
         erasure: Optional[np.ndarray] = None,
         logical_ancilla: bool = False,
+        logical_ops: Optional[str | Sequence[int]] = None,
     ):
         """Unpack the results from a simulator into a more convenient format.
 
@@ -231,31 +232,27 @@ class MeasurementSample:
                 :meth:`AbstractSimulator.get_sample`.
             logical_ancilla: flag for alternative method to measure logical operators
                 via additional ancilla that is entangled with several physical qubits
+            logical_ops: the measured logical operators, as given to
+                :func:`~plaquette.circuit.generator.generate_qec_circuit`. Only
+                necessary if the number of qubits in each of them does not follow
+                from the number of results.
         """
         if not logical_ancilla:
-            # Default behavior
-            code_distance = count_qubits(code.logical_ops, include_identities=False)[0]
-
-            logical_op_initial = np.array(
-                [
-                    np.sum(raw_results[i * code_distance : (i + 1) * code_distance]) % 2
-                    for i in range(code.n_logical_qubits)
-                ],
-                dtype=int,
-            )
-            # fmt: off
-            logical_op_final = np.array(
-                [
-                    np.sum(
-                        raw_results[len(raw_results) - (i * code_distance)
-                            - code_distance : len(raw_results) - (i * code_distance)]  # noqa
-                    ) % 2 for i in range(code.n_logical_qubits)
-                ][::-1], dtype=int,
-            )
-            ancillas = np.array(
-                raw_results[code.n_logical_qubits * code_distance : -code.n_logical_qubits * code_distance] # noqa
+            # Default behavior: one result for each qubit of each logical operator
+            n_stab = (code.n_rounds + 1) * code.n_stabgens
+            n_logical, odd = divmod(len(raw_results) - n_stab, 2)
+            weights = cls._logical_op_weights(code, n_logical, logical_ops)
+            if odd or sum(weights) != n_logical:
+                raise ValueError("Wrong number of measurement results")
+            bounds = np.cumsum([0, *weights])
+            logical_op_initial, logical_op_final = (
+                np.array(
+                    [np.sum(res[i:j]) % 2 for i, j in zip(bounds[:-1], bounds[1:])],
+                    dtype=int,
+                )
+                for res in (raw_results[:n_logical], raw_results[n_logical + n_stab :])
             )
-            # fmt: on
+            ancillas = np.array(raw_results[n_logical : n_logical + n_stab])
         else:
             # Alternative behavior
             logical_op_initial = np.array(raw_results[: code.n_logical_qubits])
@@ -284,6 +281,30 @@ class MeasurementSample:
             erased_qubits=erasure,
         )
 
+    @staticmethod
+    def _logical_op_weights(
+        code: LatticeCode, total: int, logical_ops: Optional[str | Sequence[int]]
+    ) -> list[int]:
+        """Find the number of qubits in each measured logical operator."""
+        all_weights = [
+            count_qubits(op, include_identities=False)[0] for op in code.logical_ops
+        ]
+        if logical_ops is not None:
+            return [all_weights[i] for i in code.logical_ops_to_indices(logical_ops)]
+        weight, remainder = divmod(total, code.n_logical_qubits)
+        # There is only one possibility if all operators are smallest or largest ones
+        extremes = (min(all_weights), max(all_weights))
+        if remainder == 0 and weight in (
+            all_weights if code.n_logical_qubits == 1 else extremes
+        ):
+            return [weight] * code.n_logical_qubits
+        if extremes[0] * code.n_logical_qubits < total < sum(all_weights):
+            raise ValueError(
+                "The measured logical operators do not follow from the number of "
+                "results, please specify logical_ops"
+            )
+        raise ValueError("Wrong number of measurement results")
+
 
 local_simulators = {"clifford", "stim"}
 
-- 
2.43.0


From 0ae6e1e7dd0fe3a83a2296a1f0828c90edf0f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 24/72] fix: compare codes of different sizes

---
 src/plaquette/codes/__init__.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 79dcbf0..498edec 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -113,18 +113,12 @@ class StabilizerCode:
         """
         if not isinstance(other, StabilizerCode):
             return NotImplemented
-        return bool(  # mypy complains otherwise
-            np.all(
-                [
-                    (s1 == s2).all()
-                    for s1, s2 in zip(self.stabilisers, other.stabilisers)
-                ]
-            )
-            and np.all(
-                [
-                    (l1 == l2).all()
-                    for l1, l2 in zip(self.logical_ops, other.logical_ops)
-                ]
+        return all(
+            len(ops1) == len(ops2)
+            and all(np.array_equal(op1, op2) for op1, op2 in zip(ops1, ops2))
+            for ops1, ops2 in (
+                (self.stabilisers, other.stabilisers),
+                (self.logical_ops, other.logical_ops),
             )
         )
 
-- 
2.43.0


From 67cec2673fa1bfb577a457d0b6d7fecb159b902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 25/72] fix: update the operators of a code after fabrication
 errors

---
 src/plaquette/codes/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 498edec..3df81dd 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -284,6 +284,10 @@ class LatticeCode(StabilizerCode):
         """
         self.lattice._fabrication_error_warning(stacklevel=3)
         self.lattice.apply_fabrication_errors(**params)
+        self.stabilisers = self.lattice.stabilisers
+        self.logical_ops = self.lattice.logical_operators
+        self.logical_x = self.logical_ops[::2]
+        self.logical_z = self.logical_ops[1::2]
 
     @classmethod
     def from_operators(
-- 
2.43.0


From 7fa5cad6d657b6fc81f42509ade132bd4cc1807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 26/72] fix: measure all edges of super-stabilizers

---
 src/plaquette/codes/latticebase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 1aa9182..b454565 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -628,6 +628,8 @@ class CodeLattice:
         """
         assert isinstance(keep, StabGenVertex)
         assert isinstance(remove, StabGenVertex)
+        # The time steps assigned to the edges do not apply to the new stabilizer
+        self.n_time_steps = None
         for edge in tuple(remove.edges):
             self.remove_edge(edge)
             if edge.data in keep.neighbours:
-- 
2.43.0


From 66d61564a2ca21ec80daefbfde2bb2e47e92768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 27/72] fix: place all operators of codes with many logical
 qubits on the lattice

---
 src/plaquette/codes/latticebase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index b454565..2f32bc5 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -933,7 +933,10 @@ class CodeLatticeFromStab(CodeLattice):
             if def_logical_ops is None:
                 raise TypeError("def_logical_ops is required")
             self.def_logical_ops = def_logical_ops
-        super().__init__((self.n_data_qubits, 3))
+        length = max(
+            self.n_data_qubits, len(self.def_stabgens), len(self.def_logical_ops)
+        )
+        super().__init__((length, 3))
         for i in range(self.n_data_qubits):
             self.add_data((i, 1))
         for i, stab in enumerate(self.def_stabgens):
-- 
2.43.0


From 61a496410cd4bd3c29a08c3a749a2782c5bb9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:31 +0000
Subject: [PATCH 28/72] fix: check the rank of stabiliser codes on request

---
 src/plaquette/codes/__init__.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 3df81dd..77c5794 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -194,11 +194,21 @@ class StabilizerCode:
         assert np.all(
             commutator_sign(self.stabilisers, self.stabilisers) == 0
         ), "Stabilizer generators do not commute with themselves"
-        # if rank:
-        #     assert (
-        #         self.stabilisers.check_matrix_rank()
-        #         == self.n_data_qubits - self.n_logical_qubits
-        #     ), "Rank of the check matrix is incorrect"
+        if rank:
+            assert (
+                self._check_matrix_rank() == self.n_data_qubits - self.n_logical_qubits
+            ), "Rank of the check matrix is incorrect"
+
+    def _check_matrix_rank(self) -> int:
+        """Rank of the stabiliser generators (over the field with two elements)."""
+        rows = np.array(self.stabilisers)[:, : 2 * self.n_data_qubits].astype(bool)
+        rank = 0
+        while len(rows) > 0 and rows.any():
+            pivot_row = rows[rows.any(axis=1).argmax()]
+            column = pivot_row.argmax()
+            rank += 1
+            rows = np.array([r ^ pivot_row if r[column] else r for r in rows])
+        return rank
 
     def logical_ops_to_indices(self, logical_ops: str | Sequence[int]) -> Sequence[int]:
         """Convert specification of logical operators to index sequence.
-- 
2.43.0


From 449f176e28ac5aa9652c74080717c078c7cd8828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:12 +0000
Subject: [PATCH 29/72] fix: count the data qubits of codes without stabiliser
 generators

---
 src/plaquette/codes/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 77c5794..df6d60a 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -150,7 +150,7 @@ class StabilizerCode:
     @property
     def n_data_qubits(self) -> int:
         """Number of data/physical qubits."""
-        return self.stabilisers[0].size // 2
+        return self.logical_ops[0].size // 2
 
     @classmethod
     def from_codelattice(cls, lattice: lb.CodeLattice) -> "StabilizerCode":
-- 
2.43.0


From d61d8c38779653c96b870beff9bcb092802b2b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 30/72] fix: leave the error data given to decoders unchanged

---
 src/plaquette/decoders/decoderbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index 2e3b8e8..a0a011d 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import abc
+import copy
 import warnings
 from typing import NoReturn, Optional, Sequence, Type
 
@@ -347,6 +348,8 @@ class DecoderInterface:
             "z": 1e-15,
         }
         if errordata is not None:
+            # The error data of the caller must not change
+            errordata = copy.deepcopy(errordata)
             if "pauli" not in errordata:
                 errordata["pauli"] = {
                     q: _default_pauli_errors
-- 
2.43.0


From bd61aa5618a1429b71dc1f6b17658896df49eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 31/72] fix: accept weights and use no weights by default in
 decoders without error data

---
 src/plaquette/decoders/decoderbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index a0a011d..259d4bb 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -376,8 +376,8 @@ class DecoderInterface:
                                 errordata["pauli"][q][k] = 1e-15  # type: ignore
                     if erasures and not errordata["erasure"].get(q):
                         errordata["erasure"][q] = {"p": 0}
-        else:
-            errordata: ErrorDataDict = {  # type: ignore[no-redef]
+        elif weighted and weights is None:
+            errordata = {  # type: ignore
                 "pauli": {
                     q: _default_pauli_errors
                     for q in range(len(code.lattice.dataqubits))
-- 
2.43.0


From 4f1697ec93042c24e9e2c78aa2267d85624410bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 32/72] fix: accept gate errors in the error data of decoders

---
 src/plaquette/syngraph/weights.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/syngraph/weights.py b/src/plaquette/syngraph/weights.py
index c9f6cc6..443e157 100644
--- a/src/plaquette/syngraph/weights.py
+++ b/src/plaquette/syngraph/weights.py
@@ -86,9 +86,18 @@ class WeightComputation:
 
     #: List of names of supported errors
     #:
-    #: Erasure errors are accepted, but it is not necessary to consider them in weight
-    #: computations.
-    supported_errors: tuple[str, ...] = ("erasure", "pauli", "measurement")
+    #: Erasure errors and gate errors are accepted, but it is not necessary to consider
+    #: them in weight computations.
+    supported_errors: tuple[str, ...] = (
+        "erasure",
+        "pauli",
+        "measurement",
+        "CX",
+        "CZ",
+        "H",
+        "M",
+        "R",
+    )
     #: QEC code
     code: codes.LatticeCode
     #: Error data (for computing weights)
-- 
2.43.0


From 8f693bc6f4fbf34e507f435a3375792925fc03ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 33/72] fix: decode erasures of qubits whose errors are
 represented by another edge

---
 src/plaquette/syngraph/__init__.py | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index e6d55f2..69db1f6 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -602,6 +602,10 @@ class SyndromeGraph:
     _disable_infweight_edges: Final[bool] = True
     #: Whether object initialization is complete. DO NOT CHANGE THIS.
     _init_complete: bool = False
+    #: Pairs of a disabled edge and the enabled edge with the same vertices
+    _represented_edges: list[tuple[Edge, Edge]]
+    #: Erased edges which currently replace an enabled edge (given by its index)
+    _stand_ins: dict[int, Edge]
     #: Edge weights in an array. Used by :meth:`_set_edge_weights_on_components`.
     _edge_weights: np.ndarray
 
@@ -628,6 +632,8 @@ class SyndromeGraph:
         self.vertices_at_time = []
         self.edges = []
         self.components = []
+        self._represented_edges = []
+        self._stand_ins = {}
         self._init_error_ops()
         self._init_vertices()
         self._init_qubit_error_edges(stabgens)
@@ -639,6 +645,7 @@ class SyndromeGraph:
             self._check_edges_infweight()
         if self._disable_duplicate_edges:
             self._check_edges_duplicate()
+        self._init_represented_edges()
         self._init_conn_components()
         self._set_edge_weights_on_components()
         self._init_complete = True
@@ -794,6 +801,18 @@ class SyndromeGraph:
             if edge is not selected_edge:
                 edge.disable()
 
+    def _init_represented_edges(self) -> None:
+        """Find the disabled edges which have the same vertices as an enabled edge."""
+        enabled = {
+            tuple(v.vertex_idx for v in edge.vertices): edge
+            for edge in self.edges
+            if edge.enabled
+        }
+        for edge in self.edges:
+            key = tuple(v.vertex_idx for v in edge.vertices)
+            if len(key) > 0 and not edge.enabled and key in enabled:
+                self._represented_edges.append((edge, enabled[key]))
+
     def _init_conn_components(self) -> None:
         """Find connected components."""
         next_vertex_idx = 0
@@ -905,6 +924,9 @@ class SyndromeGraph:
 
         Currently, only edges for data qubit errors can be marked as erased. It is not
         possible to mark edges for stabilizer generator measurement errors as erased.
+
+        If an erased edge was disabled because there is a more likely edge with the same
+        vertices, then it temporarily takes the place of that edge.
         """
         if qubit_erased is None:
             qubit_erased = np.zeros([self.n_rounds, self.n_qubits], dtype=bool)
@@ -917,6 +939,11 @@ class SyndromeGraph:
             if isinstance(edge, QubitErrorEdge):
                 edge.set_erased(qubit_erased[edge.time_step, edge.qubit_idx])
                 edge_erased[edge.edge_idx] = edge.erased
+        self._stand_ins = {}
+        for edge, enabled in self._represented_edges:
+            if edge.erased and not enabled.erased:
+                edge_erased[enabled.edge_idx] = True
+                self._stand_ins[enabled.edge_idx] = edge
         for comp in self.components_with_edges:
             comp.set_erasure(edge_erased[comp.parent_edge_idx])
 
@@ -973,8 +1000,13 @@ class SyndromeGraph:
 
     def update_decoder_results(self):
         """Update decoder results in edges with new results from components."""
+        for edge, _ in self._represented_edges:
+            edge.set_decoder_result(False)
         for comp in self.components_with_edges:
             for idx, result in zip(comp.parent_edge_idx, comp.edge_decoder_result):
+                if idx in self._stand_ins:
+                    self._stand_ins[idx].set_decoder_result(result)
+                    result = False
                 self.edges[idx].set_decoder_result(result)
             comp.decoder_results_new = False
 
-- 
2.43.0


From da456c88f3df08a81d7d4ceadc329491e87dfe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 34/72] fix: do not treat certain errors as impossible when
 decoding

---
 src/plaquette/syngraph/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index 69db1f6..5fbc15e 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -758,7 +758,7 @@ class SyndromeGraph:
            This method does not enable any edges.
         """
         for edge in self.edges:
-            if np.isinf(edge.weight):
+            if np.isposinf(edge.weight):
                 edge.disable()
 
     def _check_edges_duplicate(self) -> None:
-- 
2.43.0


From a4cf3fac709a7207482b0d9ba0c1c29ab7e4a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 35/72] fix: decode with error rates of one half

---
 src/plaquette/decoders/fusionblossom.py     | 3 ++-
 src/plaquette/decoders/unionfind_decoder.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/decoders/fusionblossom.py b/src/plaquette/decoders/fusionblossom.py
index 7dad6b4..c137df5 100644
--- a/src/plaquette/decoders/fusionblossom.py
+++ b/src/plaquette/decoders/fusionblossom.py
@@ -43,8 +43,9 @@ class FusionBlossomDecoder(decoderbase.DecoderBackendInterface):
         self.sgraph = sgraph
         if self.sgraph.is_weighted(support_mixed=False):
             decoderbase.check_weights_sane(self.sgraph.edge_weights)
+            # If all weights are zero, then all faults are equally likely
             weights = (
-                100 * self.sgraph.edge_weights / self.sgraph.edge_weights.max()
+                100 * self.sgraph.edge_weights / (self.sgraph.edge_weights.max() or 1)
             ).astype(int)
         else:
             weights = np.ones(len(self.sgraph.edges)).astype(int)
diff --git a/src/plaquette/decoders/unionfind_decoder.py b/src/plaquette/decoders/unionfind_decoder.py
index 9e15703..0723bf0 100644
--- a/src/plaquette/decoders/unionfind_decoder.py
+++ b/src/plaquette/decoders/unionfind_decoder.py
@@ -606,6 +606,9 @@ class UnionFindNoWeights:
                 for edge in self.graph.edges:
                     edge.set_weight(2, 1)
         else:
+            if not weights.any():
+                # All faults are equally likely
+                weights = np.ones_like(weights)
             weights = self._c * weights / np.min(weights[weights != 0])
             self._set_weights(weights)
             self.weighted = True
-- 
2.43.0


From cb1f0f6ebcf53ff2312c36d8cc519a6d95ca5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 36/72] fix: do not hang when decoding with an error rate of
 one half

---
 src/plaquette/decoders/unionfind_decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/decoders/unionfind_decoder.py b/src/plaquette/decoders/unionfind_decoder.py
index 0723bf0..cdd0415 100644
--- a/src/plaquette/decoders/unionfind_decoder.py
+++ b/src/plaquette/decoders/unionfind_decoder.py
@@ -715,7 +715,9 @@ class UnionFind(UnionFindNoWeights):
     def _set_weights(self, weights: np.ndarray):
         """Set weights."""
         assert weights.shape == (len(self.graph.edges),)
-        increments = 1 / (2 * weights)
+        # An error rate of one half can also have the weight -0.0
+        with np.errstate(divide="ignore"):
+            increments = 1 / (2 * np.abs(weights))
         for edge, incr in zip(self.graph.edges, increments):
             edge.set_weight(1.0, incr)
 
-- 
2.43.0


From e9ec8a800778474ac2ad86adb93c051250e4b014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 37/72] fix: draw configured error rates within [0, 1] from the
 library's generator

---
 src/plaquette/errors/__init__.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index a6e09b1..40e9963 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -1195,10 +1195,10 @@ def assimilate_qubit_errors(
                     qubit_pd.shape[0], qubit_error_config[0][label][1]
                 )
             case "gaussian":
-                qubit_pd[label] = np.random.default_rng().normal(
-                    loc=qubit_error_config[0][label][1],
-                    scale=qubit_error_config[0][label][2],
-                    size=qubit_pd.shape[0],
+                qubit_pd[label] = generate_gaussian_errors(
+                    qubit_error_config[0][label][1],
+                    qubit_error_config[0][label][2],
+                    qubit_pd["qubit_id"],
                 )
             case "user":
                 if qubit_csv_df.empty:
@@ -1261,10 +1261,8 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(lattice.stabgens),
+                            probs = generate_gaussian_errors(
+                                params[2], params[3], lattice.stabgens
                             )
                             for i, p in zip(lattice.stabgens, probs):
                                 gate_pd = pd.concat(
@@ -1312,10 +1310,8 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(on_qubits) // 2,
+                            probs = generate_gaussian_errors(
+                                params[2], params[3], on_qubits[::2]
                             )
 
                             for ind, p in enumerate(probs):
-- 
2.43.0


From 1d5d8bd4f5db27c4b644d341e98e21651fe49c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 38/72] fix: refuse configured constant error rates that are
 not probabilities

---
 src/plaquette/errors/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 40e9963..ff40714 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -1191,8 +1191,8 @@ def assimilate_qubit_errors(
             qubit_error_config[0][label] = ("constant", 0.01)
         match qubit_error_config[0][label][0]:
             case "constant":
-                qubit_pd[label] = np.full(
-                    qubit_pd.shape[0], qubit_error_config[0][label][1]
+                qubit_pd[label] = generate_constant_errors(
+                    qubit_error_config[0][label][1], qubit_pd["qubit_id"]
                 )
             case "gaussian":
                 qubit_pd[label] = generate_gaussian_errors(
@@ -1251,7 +1251,9 @@ def assimilate_gate_errors(
                                                 i.equbit_idx for i in lattice.stabgens
                                             ],
                                             induced_errors=[params[1]],
-                                            probs=[params[2]],
+                                            probs=generate_constant_errors(
+                                                params[2], [label]
+                                            ).tolist(),
                                         )
                                     )
                                     .to_frame()
@@ -1300,7 +1302,9 @@ def assimilate_gate_errors(
                                             gate=label,
                                             on_qubits=on_qubits,
                                             induced_errors=[params[1]],
-                                            probs=[params[2]],
+                                            probs=generate_constant_errors(
+                                                params[2], [label]
+                                            ).tolist(),
                                         )
                                     )
                                     .to_frame()
-- 
2.43.0


From 751a5ce456cd84de12a9134ef86d815886501351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 39/72] fix: generate gaussian errors with a standard deviation
 of zero

---
 src/plaquette/errors/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index ff40714..7dcfa9f 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -228,6 +228,8 @@ def generate_gaussian_errors(
         raise ValueError(
             f"Invalid std deviation={std_dev}. Must be between 0.0 and 1.0"
         )
+    if std_dev == 0.0:
+        return generate_constant_errors(mean, qubit_list)
 
     distribution = truncnorm(
         (0.0 - mean) / std_dev, (1.0 - mean) / std_dev, mean, std_dev
-- 
2.43.0


From 1ed701b15c42bb47940d4f424673e41c1526f39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 40/72] fix: leave the error configuration given to
 ErrorData.from_lattice unchanged

---
 src/plaquette/errors/__init__.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 7dcfa9f..aeb8b02 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -1188,19 +1188,17 @@ def assimilate_qubit_errors(
         )
         qubit_csv_df = pd.DataFrame()
 
-    for label in qubit_error_config[0].keys():
-        if not qubit_error_config[0].get(label):
-            qubit_error_config[0][label] = ("constant", 0.01)
-        match qubit_error_config[0][label][0]:
+    for label, params in qubit_error_config[0].items():
+        if not params:
+            params = ("constant", 0.01)
+        match params[0]:
             case "constant":
                 qubit_pd[label] = generate_constant_errors(
-                    qubit_error_config[0][label][1], qubit_pd["qubit_id"]
+                    params[1], qubit_pd["qubit_id"]
                 )
             case "gaussian":
                 qubit_pd[label] = generate_gaussian_errors(
-                    qubit_error_config[0][label][1],
-                    qubit_error_config[0][label][2],
-                    qubit_pd["qubit_id"],
+                    params[1], params[2], qubit_pd["qubit_id"]
                 )
             case "user":
                 if qubit_csv_df.empty:
-- 
2.43.0


From e61f7ffa285942607768cfbaa2dc412b7c05272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 41/72] fix: use errors of two-qubit gates drawn from a
 gaussian distribution

---
 src/plaquette/errors/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index aeb8b02..fd188f6 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -939,7 +939,10 @@ class ErrorData:  # noqa: D101
                     case "CX" | "CZ":
                         if gate_errors_dict.get(row.gate) is None:
                             gate_errors_dict[row.gate] = {}
-                        if not set(single_paulis).isdisjoint(set(row.induced_errors)):
+                        induced_errors = row.induced_errors
+                        if isinstance(induced_errors, str):
+                            induced_errors = [induced_errors]
+                        if not set(single_paulis).isdisjoint(set(induced_errors)):
                             raise KeyError("Two qubit channels must be provided!")
                         for i in range(0, len(row.on_qubits), 2):
                             gate_errors_dict[row.gate][
@@ -947,7 +950,7 @@ class ErrorData:  # noqa: D101
                             ] = TwoPauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(induced_errors, row.probs)
                                 }
                             )
 
-- 
2.43.0


From 1dd42add36ae11e4190e8631eb84aef2706a7e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 42/72] fix: update error data from dataframes

---
 src/plaquette/errors/__init__.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index fd188f6..f41ff09 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -749,18 +749,17 @@ class ErrorData:  # noqa: D101
                 If ``False``, just updates overlapping locations in the dataframe.
                 and missing locations are appended to the dataframe
         """
-        if qubit_errors:
-            if overwrite:
-                self.qubit_errors = qubit_errors
-            else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.colums:
-                    if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
-                    self.qubit_errors.update(qubit_errors.loc[:, col])
+        if qubit_errors is not None:
+            qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
+            if not overwrite:
+                columns = self.qubit_errors.columns.union(
+                    qubit_errors.columns, sort=False
+                )
+                qubit_errors = qubit_errors.combine_first(self.qubit_errors)[columns]
+            self.qubit_errors = qubit_errors
 
             self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
-        if gate_errors:
+        if gate_errors is not None:
             if overwrite:
                 self.gate_errors = gate_errors
             else:
-- 
2.43.0


From b776b0fd1f3b93c43a00ff53b46d746c0d1fb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 43/72] fix: enable the errors of a CSV file when updating
 error data from it

---
 src/plaquette/errors/__init__.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index f41ff09..2884610 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -785,29 +785,16 @@ class ErrorData:  # noqa: D101
         Returns:
             None, updates in-place.
         """
+        qubit_errors = gate_errors = None
         if qubit_error_csv:
             qubit_errors = pd.read_csv(qubit_error_csv)
-            if overwrite:
-                self.qubit_errors = qubit_errors
-            else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.columns:
-                    if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
-                    self.qubit_errors.update(qubit_errors.loc[:, col])
 
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
-            if overwrite:
-                self.gate_errors = gate_errors
-            else:
-                self.gate_errors = pd.concat(
-                    [self.gate_errors, gate_errors], ignore_index=True
-                )
-            self.enabled_gate_errors = set(self.gate_errors.gate.unique())
+        self.update(qubit_errors, gate_errors, overwrite)
 
     @property
     def error_data_dict(self) -> ErrorDataDict:
-- 
2.43.0


From 4ac5b03af4630911b162bb7e75fb46ec04d92dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 44/72] fix: read gate errors with a single channel and qubit
 per line from CSV files

---
 src/plaquette/errors/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 2884610..2c5e3e6 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -443,7 +443,7 @@ class ErrorData:  # noqa: D101
 
         gate_errors: pd.DataFrame = pd.DataFrame()
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -790,7 +790,7 @@ class ErrorData:  # noqa: D101
             qubit_errors = pd.read_csv(qubit_error_csv)
 
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -1215,7 +1215,7 @@ def assimilate_gate_errors(
     """
     gate_pd = pd.DataFrame(columns=["gate", "on_qubits", "induced_errors", "probs"])
     try:
-        gate_csv = pd.read_csv(gate_error_config[1])
+        gate_csv = pd.read_csv(gate_error_config[1], dtype=str)
     except FileNotFoundError:
         gate_csv = pd.DataFrame(
             columns=["gate", "on_qubits", "induced_errors", "probs"]
-- 
2.43.0


From ef6af30620c23e8c542ab4b8991a96f60a52822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 45/72] fix: save error data to CSV files in the format that is
 read

---
 src/plaquette/errors/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 2c5e3e6..7c9e40a 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -849,8 +849,21 @@ class ErrorData:  # noqa: D101
             qubit_error_path = "./qubit_error.csv"
         if gate_error_path is None:
             gate_error_path = "./gate_error.csv"
-        self.qubit_errors.to_csv(qubit_error_path)
-        self.gate_errors.to_csv(gate_error_path)
+        self.qubit_errors.reindex(
+            columns=pd.Index(["qubit_id", "qubit_type"]).union(
+                self.qubit_errors.columns, sort=False
+            )
+        ).to_csv(qubit_error_path, index=False)
+
+        gate_errors = self.gate_errors.reindex(
+            columns=["gate", "on_qubits", "induced_errors", "probs"]
+        )
+        for key in gate_errors.columns[1:]:
+            gate_errors[key] = [
+                val if isinstance(val, str) else "|".join(str(x) for x in val)
+                for val in gate_errors[key]
+            ]
+        gate_errors.to_csv(gate_error_path, index=False)
 
     @property
     def qubit_errors_dict(self) -> QubitErrorsDict:
-- 
2.43.0


From 9291a6ae829ed9c988b7c71cddab60ff63036ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 46/72] fix: ignore missing values of error data

---
 src/plaquette/errors/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 7c9e40a..37bcb48 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -880,7 +880,8 @@ class ErrorData:  # noqa: D101
                             if self.qubit_errors["qubit_type"][idx] == "data"
                         }
                     for k, v in qubit_errors["pauli"].items():
-                        v[f"{e.casefold()}"] = self.qubit_errors[e][k]  # type: ignore
+                        if pd.notna(p := self.qubit_errors[e][k]):
+                            v[f"{e.casefold()}"] = p  # type: ignore
 
                 case "erasure":
                     if qubit_errors.get("erasure") is None:
@@ -888,6 +889,7 @@ class ErrorData:  # noqa: D101
                             idx: ErrorValueDict()
                             for idx in self.qubit_errors["qubit_id"]
                             if self.qubit_errors["qubit_type"][idx] == "data"
+                            and pd.notna(self.qubit_errors[e][idx])
                         }
 
                     for key, val in qubit_errors["erasure"].items():
@@ -901,6 +903,7 @@ class ErrorData:  # noqa: D101
                                 for idx in self.qubit_errors["qubit_id"]
                                 if self.qubit_errors["qubit_type"][idx]
                                 in ("stab", "ancilla")
+                                and pd.notna(self.qubit_errors[e][idx])
                             }
                         )
                     for key, val in qubit_errors["measurement"].items():
-- 
2.43.0


From 1c82f2a4e11e4f7f2080dc1e31f577b93fbcf515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 47/72] fix: refuse to add unknown qubit errors

---
 src/plaquette/errors/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 37bcb48..3c844dc 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -600,6 +600,9 @@ class ErrorData:  # noqa: D101
         if error_name == "fabrication":
             raise ValueError("Use the function update_fab_error() instead!")
 
+        if error_name not in {"X", "Y", "Z", "erasure", "measurement"}:
+            raise ValueError(f"Unknown error: {error_name!r}")
+
         if error_name in self.qubit_errors.columns:
             raise ValueError(
                 f"{error_name} errors already in dataframe. "
-- 
2.43.0


From aff7be49fa681503c90ada60c81188646d1a9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 48/72] fix: refuse to add errors of unknown gates

---
 src/plaquette/errors/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 3c844dc..79183d5 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -709,6 +709,9 @@ class ErrorData:  # noqa: D101
 
         .. todo:: add checks to in the input values.
         """
+        if gate_name not in GateErrorsDict.__optional_keys__:
+            raise ValueError(f"Unknown gate: {gate_name!r}")
+
         self.enabled_gate_errors.add(gate_name)
         self.gate_errors = pd.concat(
             [
-- 
2.43.0


From 719a9d24523bd2dbf0d566750fbbbf7da48249f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:00 +0000
Subject: [PATCH 49/72] fix: draw configured error rates in the same order in
 every process

---
 src/plaquette/errors/__init__.py   | 2 +-
 src/plaquette/frontend/__init__.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 79183d5..1d69068 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -876,7 +876,7 @@ class ErrorData:  # noqa: D101
         """Map the qubit errors dataframe to a :class:`~.QubitErrorsDict` dictionary."""
         qubit_errors: QubitErrorsDict = QubitErrorsDict()
 
-        for e in self.enabled_qubit_errors:
+        for e in sorted(self.enabled_qubit_errors):
             match e:
                 case "X" | "Y" | "Z":
                     if qubit_errors.get("pauli") is None:
diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index f1b80f8..dddf6ef 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -714,7 +714,7 @@ class QubitErrorsConfig:
         if not self.sample:
             return None
         sim_qub_errors_distr: dict = dict()
-        for key in self.QUBIT_KEYS:
+        for key in sorted(self.QUBIT_KEYS):
             qubit_metadata = cast(_QubitErrorMetadata, getattr(self, key))
             if qubit_metadata.enabled and not qubit_metadata.is_empty():
                 if qubit_metadata.distribution == "user":
@@ -1324,7 +1324,7 @@ class GateErrorsConfig:
             return None
 
         sim_gate_errors_distr: dict = dict()
-        for key in self.GATE_KEYS:
+        for key in sorted(self.GATE_KEYS):
             gate_metadata = cast(_GateErrorMetadata, getattr(self, key))
             if not gate_metadata.is_empty() and gate_metadata.enabled:
                 if isinstance(gate_metadata.distribution, str):
-- 
2.43.0


From f0a1bccef684b632803aad0f4101cb29c9374a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 50/72] fix: return the logical error rate of configured
 experiments

---
 src/plaquette/frontend/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index dddf6ef..2b48e1b 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2256,13 +2256,16 @@ class ExperimentConfig:
         """
         match self.general_conf["qec_property"]:
             case ["logical_error_rate"]:
-                if self._device._backend_class in plaquette.device.local_simulators:
+                if self._device._backend_name in plaquette.device.local_simulators:
                     test_success = np.zeros([self.device_conf.shots], dtype=bool)
                     for i in tqdm(range(self.device_conf.shots)):
                         self._device.run(cast(Circuit, self._circuit))
                         raw, erasure = self._device.get_sample()
                         results = MeasurementSample.from_code_and_raw_results(
-                            self._code, raw, erasure
+                            self._code,
+                            raw,
+                            erasure,
+                            logical_ops=self.general_conf["logical_op"],
                         )
                         correction = self._decoder.decode(
                             results.erased_qubits, results.syndrome
-- 
2.43.0


From 5a13dd247c4a06b3320f67310881fccd64540378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 51/72] fix: leave the configuration dictionaries given to the
 frontend unchanged

---
 src/plaquette/frontend/__init__.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 2b48e1b..deba98b 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -150,8 +150,7 @@ class CodeConfig:
             >>> print(code_conf)
             CodeConfig(name='FiveQubitCode', rounds=1, size=-1)
         """
-        config_dict.setdefault("rounds", 1)
-        config_dict.setdefault("size", -1)
+        config_dict = {"rounds": 1, "size": -1} | config_dict
 
         return cls(
             name=cast(str, config_dict.get("name")),
@@ -323,8 +322,7 @@ class _QubitErrorMetadata:
             _QubitErrorMetadata(distribution='gaussian', params=[0.1, 0.04], enabled=True)
         """  # noqa : E501
 
-        metadata.setdefault("enabled", True)
-        metadata.setdefault("params", [])
+        metadata = {"enabled": True, "params": []} | metadata
 
         return cls(
             enabled=cast(bool, metadata.get("enabled")),
@@ -560,6 +558,7 @@ class QubitErrorsConfig:
                 },
            }
         """
+        configdata = dict(configdata)
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -880,9 +879,7 @@ class _GateErrorMetadata:
                                params=[],
                                enabled=True)
         """
-        metadata.setdefault("enabled", True)
-        metadata.setdefault("induced_errors", [])
-        metadata.setdefault("params", [])
+        metadata = {"enabled": True, "induced_errors": [], "params": []} | metadata
 
         return cls(
             distribution=metadata.get("distribution"),  # type: ignore
@@ -1144,6 +1141,7 @@ class GateErrorsConfig:
            }
 
         """
+        configdata = dict(configdata)
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -1479,7 +1477,7 @@ class CircuitConfig:
         Returns:
             A :class:`~CircuitConfig` object.
         """
-        config_dict = cast(dict, config_dict)
+        config_dict = dict(config_dict or {})
         for f in fields(cls):
             match f.name:
                 case "has_errors" | "circuit_provided":
@@ -1627,8 +1625,7 @@ class DeviceConfig:
         Returns:
             A :class:`~DeviceConfig` object.
         """
-        config_dict.setdefault("name", "clifford")
-        config_dict.setdefault("shots", 1024)
+        config_dict = {"name": "clifford", "shots": 1024} | config_dict
         return cls(
             name=cast(str, config_dict.get("name")),
             shots=cast(int, config_dict.get("shots")),
@@ -1704,8 +1701,7 @@ class DecoderConfig:
         Args:
             config_dict: Dict containing decoder configurations.
         """
-        config_dict.setdefault("name", "PyMatchingDecoder")
-        config_dict.setdefault("weighted", False)
+        config_dict = {"name": "PyMatchingDecoder", "weighted": False} | config_dict
         return cls(
             name=cast(str, config_dict.get("name")),
             weighted=cast(bool, config_dict.get("weighted")),
@@ -2090,6 +2086,7 @@ class ExperimentConfig:
                 'device': {'name': 'stim', 'shots': 10000}
             }
         """  # noqa
+        config_dict = dict(config_dict)
         config_dict.setdefault("device", {})
         config_dict.setdefault("errors", {})
         config_dict.setdefault("decoder", {})
-- 
2.43.0


From 2d324aafe4eacd260e03c02a0c0a9b384fd8cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 52/72] fix: keep the configured fabrication errors of gates

---
 src/plaquette/frontend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index deba98b..8404322 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1172,6 +1172,7 @@ class GateErrorsConfig:
             H=cast(_GateErrorMetadata, configdata.get("H")),
             M=cast(_GateErrorMetadata, configdata.get("M")),
             R=cast(_GateErrorMetadata, configdata.get("R")),
+            fabrication=cast(_GateErrorMetadata, configdata.get("fabrication")),
         )
 
     @classmethod
-- 
2.43.0


From 2ea8a46d29810a2a018d960a70ec3fc18bdcabfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 53/72] fix: use the default generic configuration if none is
 given

---
 src/plaquette/frontend/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 8404322..3f474a3 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1781,6 +1781,13 @@ class GeneralConfig(TypedDict):
     """The seed for running the simulations."""
 
 
+def _default_general_config() -> GeneralConfig:
+    """Generic configuration of experiments that do not provide one."""
+    return GeneralConfig(
+        logical_op="X", qec_property=["logical_error_rate"], seed=12345
+    )
+
+
 @dataclass(kw_only=True)
 class ExperimentConfig:
     """Class to handle running a simulation using a configuration file."""
@@ -1797,11 +1804,7 @@ class ExperimentConfig:
     No default value. This is required from the user.
     """
 
-    general_conf: GeneralConfig = field(
-        default_factory=lambda: GeneralConfig(
-            logical_op="X", qec_property=["logical_error_rate"], seed=12345
-        )
-    )
+    general_conf: GeneralConfig = field(default_factory=_default_general_config)
     """Generic configurations for the experiment of the :class:`~GeneralConfig`."""
 
     device_conf: DeviceConfig = field(default_factory=lambda: DeviceConfig())
@@ -2094,7 +2097,10 @@ class ExperimentConfig:
         config_dict.setdefault("circuit", {})
         config_dict.setdefault("code", {})
         return cls(
-            general_conf=cast(GeneralConfig, config_dict.get("general")),
+            general_conf=cast(
+                GeneralConfig,
+                _default_general_config() | (config_dict.get("general") or {}),
+            ),
             device_conf=DeviceConfig.from_dict(cast(dict, config_dict.get("device"))),
             circuit_conf=CircuitConfig.from_dict(
                 cast(dict, config_dict.get("circuit"))
-- 
2.43.0


From 588c5b4e3d6a6dda4882145d13bf9bc868a1bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 54/72] fix: convert experiment configurations to dictionaries

---
 src/plaquette/frontend/__init__.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 3f474a3..1e7cd93 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1404,6 +1404,14 @@ class ErrorsConfig:
             self.gate_errors.simulated_errors,
         )
 
+    def as_dict(self) -> dict:
+        """Return class attributes as dictionary.
+
+        Returns:
+            A dictionary of the configuration for the errors.
+        """
+        return asdict(self)
+
     def instantiate(self, lattice: CodeLattice) -> ErrorData:
         """Instantiate a :class:`~.ErrorData` object with the objects' config.
 
@@ -2113,14 +2121,20 @@ class ExperimentConfig:
         )
 
     def as_dict(self) -> dict[str, Any]:
-        """Return all class attributes as dictionary."""
-        return_dict: dict[str, Any] = dict()
-        for dfield in fields(self):
-            if dfield.name == "exp_objects":
-                continue
-            return_dict[dfield.name] = self.__getattribute__(dfield.name).as_dict()
-
-        return return_dict
+        """Return all configurations as dictionary.
+
+        Returns:
+            A dictionary with the same structure as the one accepted by
+            :meth:`from_dict`.
+        """
+        return {
+            "general": dict(self.general_conf),
+            "device": self.device_conf.as_dict(),
+            "code": self.code_conf.as_dict(),
+            "circuit": self.circuit_conf.as_dict(),
+            "errors": self.errors_conf.as_dict(),
+            "decoder": self.decoder_conf.as_dict(),
+        }
 
     def update(self, **kwargs):
         """Update class attributes with given ``**kwargs``.
-- 
2.43.0


From 77e9bb48e3b5b0f8d86ffca9727853dbb04eb51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 55/72] fix: save experiment configurations in the format that
 is read

---
 src/plaquette/frontend/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 1e7cd93..55658a8 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2259,12 +2259,12 @@ class ExperimentConfig:
     def dump_toml(self, toml_path: str) -> None:
         """Save the config as a ``toml`` file at the given path."""
         with open(toml_path, "w") as file:
-            toml.dump(self.__dict__, file)
+            toml.dump(self.as_dict(), file, encoder=toml.TomlNumpyEncoder())
 
     def dump_json(self, json_path: str):
         """Save the config as a ``json`` file at the given path."""
         with open(json_path, "w") as file:
-            json.dump(self.__dict__, file)
+            json.dump(self.as_dict(), file)
 
     def run(self):
         """Run an experiment to get a logical error rate.
-- 
2.43.0


From 4386ef935c6fe980862991ceb1dc80d8bc9a1ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 56/72] fix: validate configurations of codes without a size

---
 src/plaquette/frontend/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/schemas.py b/src/plaquette/frontend/schemas.py
index 448037d..44eaa9c 100644
--- a/src/plaquette/frontend/schemas.py
+++ b/src/plaquette/frontend/schemas.py
@@ -66,7 +66,7 @@ def get_exp_config_schema() -> dict:
                     },
                     "size": {
                         "type": "integer",
-                        "minimum": 1
+                        "anyOf": [{"minimum": 1}, {"enum": [-1]}]
                     },
                     "rounds": {
                         "type": "integer",
-- 
2.43.0


From 3565203795d57f8876f1e5c07edc679505c825df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 57/72] fix: refuse codes with a size or number of rounds of
 zero

---
 src/plaquette/frontend/__init__.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 55658a8..3913a1b 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -116,18 +116,14 @@ class CodeConfig:
         if self.name not in self.VALID_CODES:
             raise ValueError(f"{self.name} is not yet supported!")
 
-        if self.name in self.VALID_CODES[4:]:
+        has_size = self.name in self.VALID_CODES[:4]
+        for value in (self.size, self.rounds) if has_size else (self.rounds,):
+            if not isinstance(value, int) or value < 1:
+                raise ValueError(
+                    "For the given code, size and round must be positive integers!"
+                )
+        if not has_size:
             self.size = -1
-        elif (
-            (self.size < 0 or self.rounds < 0)
-            or not (isinstance(self.size, int) and isinstance(self.rounds, int))
-            and self.name in self.VALID_CODES[:4]
-        ):
-            raise ValueError(
-                "For the given code, size and round must be positive integers!"
-            )
-        else:
-            self.size = cast(int, self.size)
 
     @classmethod
     def from_dict(cls, config_dict: dict) -> CodeConfig:
-- 
2.43.0


From 80c0dc9554724ee558a26bc2ad3a5a0bd28b8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 58/72] fix: refuse inconsistent configurations of gate errors

---
 src/plaquette/frontend/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 3913a1b..5c874e1 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -792,7 +792,7 @@ class _GateErrorMetadata:
 
     VALID_INDUCED_ERRORS: ClassVar[set[str]] = (
         set(["".join(i) for i in product("XYZI", repeat=2)])
-        .difference("II")
+        .difference(["II"])
         .union(["X", "Y", "Z"])
     )
     """
@@ -801,7 +801,9 @@ class _GateErrorMetadata:
 
     def __post_init__(self):
         if isinstance(self.distribution, str):
-            if len(self.induced_errors) != 0 and len(self.params) != 0:
+            if self.distribution not in ("user", ""):
+                raise ValueError(f"Unknown distribution {self.distribution}")
+            if len(self.induced_errors) != 0 or len(self.params) != 0:
                 raise ValueError("Incorrect values of induced_errors or params!")
 
         elif isinstance(self.distribution, list):
@@ -809,6 +811,10 @@ class _GateErrorMetadata:
                 raise ValueError(
                     "Induced errors and params must be of the same length!"
                 )
+            if len(self.distribution) != len(self.params):
+                raise ValueError(
+                    "Distributions and params must be of the same length!"
+                )
 
             for i, dist in enumerate(self.distribution):
                 if self.induced_errors[i] not in self.VALID_INDUCED_ERRORS:
-- 
2.43.0


From 0d5766b9c79f4a8771635b2ddf3992c3e3b677c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 59/72] fix: refuse inconsistent configurations of gate errors

---
 src/plaquette/frontend/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 5c874e1..465f0f5 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -836,6 +836,8 @@ class _GateErrorMetadata:
                         raise ValueError(
                             "Only 'constant' or 'gaussian' are valid distribution"
                         )
+        else:
+            raise ValueError(f"Unknown distribution {self.distribution}")
 
     def __str__(self) -> str:
         return pformat(self)
-- 
2.43.0


From 876242964fc2eb1d14b93f72f38517b0c4d64d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 60/72] fix: refuse invalid values when updating configurations

---
 src/plaquette/frontend/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 465f0f5..a1e9bc0 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -668,6 +668,7 @@ class QubitErrorsConfig:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     def __str__(self):  # noqa: D105
         return pformat(self)
@@ -936,6 +937,7 @@ class _GateErrorMetadata:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     def is_empty(self):
         """Check if the metadata is void.
@@ -1280,6 +1282,7 @@ class GateErrorsConfig:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     @property
     def simulated_errors(self) -> tuple[dict, str] | None:
@@ -1524,6 +1527,7 @@ class CircuitConfig:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     def instantiate(
         self,
@@ -1627,6 +1631,7 @@ class DeviceConfig:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     @classmethod
     def from_dict(cls, config_dict: dict) -> DeviceConfig:
-- 
2.43.0


From 7e9007b448f414dac014e19138fc37223e3070ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 61/72] fix: report a missing device of configured experiments

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index a1e9bc0..32f7c26 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1881,7 +1881,7 @@ class ExperimentConfig:
     @property
     def device(self):
         """The built :class:`~.AbstractSimulator` object in the experiment."""
-        if self._circuit is None:
+        if self._device is None:
             raise ValueError(
                 "Simulator has not been instantiated yet, use build() or "
                 + "build_device() method to do so!"
-- 
2.43.0


From f4667f2e5c5022fcf4522bf40688bcea458df02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:52 +0000
Subject: [PATCH 62/72] fix: accept logical operators of several logical qubits
 in configuration files

---
 src/plaquette/frontend/schemas.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/schemas.py b/src/plaquette/frontend/schemas.py
index 44eaa9c..e83112c 100644
--- a/src/plaquette/frontend/schemas.py
+++ b/src/plaquette/frontend/schemas.py
@@ -15,8 +15,7 @@ def get_exp_config_schema() -> dict:
                 "properties": {
                     "logical_op": {
                         "type": "string",
-                        "enum":  ["X", "Z"],
-                        "minItems": 1
+                        "pattern": "^[XZ]+$"
                     },
                     "qec_property": {
                         "type": "array",
-- 
2.43.0


From 989225844688d553aefddb51c32a8fc738a1bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 63/72] fix: simulate no qubit errors if their sampling is
 disabled

---
 src/plaquette/frontend/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 32f7c26..2f0c248 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1428,9 +1428,13 @@ class ErrorsConfig:
         Returns:
             An :class:`~plaquette.errors.ErrorData` object.
         """
+        qubit_errors = self.qubit_errors.simulated_errors
+        if qubit_errors is None:
+            # ``ErrorData`` uses default errors if nothing is configured
+            qubit_errors = ({}, self.qubit_errors.data_path)
         ed = ErrorData.from_lattice(
             lattice,
-            self.qubit_errors.simulated_errors,
+            qubit_errors,
             self.gate_errors.simulated_errors,
         )
         return ed
-- 
2.43.0


From f1fe60411bc85914bd725c0d7f76c21369554b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 64/72] fix: draw errors and corrections given as a tableau

---
 src/plaquette/visualizer/__init__.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 7ef3f1f..4847012 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -154,18 +154,19 @@ class LatticeVisualizer:
 
     def _mk_pauliframe_df(
         self,
-        err: Optional[Sequence[Tableau]],
-        corr: Optional[Sequence[Tableau]],
+        err: Optional[Tableau | Sequence[Tableau]],
+        corr: Optional[Tableau | Sequence[Tableau]],
         only_pauli: Optional[str],
     ) -> pd.DataFrame:
         """Create DataFrame to plot Pauli frames (errors and corrections)."""
-        assert err is None or len(err) == 1
-        assert corr is None or len(corr) == 1
         assert only_pauli in (None, "X", "Z")
         items = []
         for kind, frame in (("p_err", err), ("p_corr", corr)):
             if frame is None:
                 continue
+            if isinstance(frame, np.ndarray) and frame.ndim == 1:
+                frame = [frame]
+            assert len(frame) == 1
 
             ops: list[list[tuple[int, str]]] = list()
             for op in frame:
@@ -340,8 +341,8 @@ class LatticeVisualizer:
     def draw_latticedata(
         self,
         syndrome: Optional[np.ndarray] = None,
-        error: Optional[Tableau] = None,
-        correction: Optional[Tableau] = None,
+        error: Optional[Tableau | Sequence[Tableau]] = None,
+        correction: Optional[Tableau | Sequence[Tableau]] = None,
         only_pauli: Optional[str] = None,
         grey: bool = True,
         draw_stabs: bool = True,
@@ -353,8 +354,8 @@ class LatticeVisualizer:
 
         Args:
             syndrome: The syndrome to be drawn.
-            error: The error to be drawn.
-            correction: The correction to be drawn.
+            error: The error to be drawn (a Tableau or a sequence of one Tableau).
+            correction: The correction to be drawn (in the same format).
             only_pauli: Supply ``"X"`` or ``"Z"`` to draw only the given Pauli error.
             grey: Everything except syndrome, error and correction should be grey.
             draw_stabs: Whether stabilizer markers should be drawn.
-- 
2.43.0


From b79e38fe0910354e6ad1880d6407c62ff6156696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 65/72] fix: draw lattices of codes with Pauli Y factors

---
 src/plaquette/visualizer/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 4847012..6f15d00 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -242,6 +242,7 @@ class LatticeVisualizer:
     #: Plotly options for drawing edges
     edge_kw = {
         "X": dict(name="Pauli X", line=dict(color="cornflowerblue", dash="solid")),
+        "Y": dict(name="Pauli Y", line=dict(color="mediumpurple", dash="2px 2px")),
         "Z": dict(name="Pauli Z", line=dict(color="yellowgreen", dash="5px 5px")),
     }
 
@@ -421,6 +422,7 @@ class LatticeVisualizer:
     #: Matplotlib options for drawing edges
     mpl_edge_kw = {
         "X": dict(label="Pauli X", linestyle="solid", color="cornflowerblue"),
+        "Y": dict(label="Pauli Y", linestyle="dotted", color="mediumpurple"),
         "Z": dict(label="Pauli Z", linestyle="dashed", color="yellowgreen"),
     }
 
-- 
2.43.0


From 977a437aaa0de6784cf7ea8a2d69efacfce11f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 66/72] fix: restore the colors if drawing lattice data fails

---
 src/plaquette/visualizer/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 6f15d00..0e6d360 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -375,10 +375,11 @@ class LatticeVisualizer:
         vdf = pd.concat((vdf, self._mk_pauliframe_df(error, correction, only_pauli)))
         if grey:
             self._set_grey()
-        fig = self._draw(vdf, edf, height, margin)
-        if grey:
-            self._reset_grey()
-        return fig
+        try:
+            return self._draw(vdf, edf, height, margin)
+        finally:
+            if grey:
+                self._reset_grey()
 
     #: Matplotlib options for drawing vertices
     mpl_vertex_kw = {
-- 
2.43.0


From 88131a0ed33f39956a362d2c58c0bfaa87d5908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 67/72] fix: draw circuits without measurements

---
 src/plaquette/visualizer/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 0e6d360..6316192 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -475,6 +475,8 @@ class CircuitVisualizer:
         qsm = openqasm.convert_to_openqasm(circuit).split("\n")
         qsm[0] = "OPENQASM 3.0;"
         qsm[1] = 'include "stdgates.inc";'
+        # OpenQASM 3.0 has no empty registers
+        qsm = [line for line in qsm if line not in ("qreg q[0];", "creg c[0];")]
         qsm = "\n".join(qsm)
         self._circuit: qiskit.circuit.quantumcircuit.QuantumCircuit = qasm3.loads(qsm)
 
-- 
2.43.0


From 6ba48b12aa4d4c068b921454650458185edad7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 68/72] fix: refuse edge orders that do not measure the
 stabilizer generators

---
 src/plaquette/circuit/generator.py | 42 ++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index cf01bec..9abf70c 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -301,6 +301,47 @@ class QECCircuitGenerator:
         else:
             self.measure_stabgens_seq(with_errors=with_errors)
 
+    def _check_time_steps(self):
+        """Check that the time steps of the edges are suitable for parallel measurement.
+
+        The stabilizer generators measured in parallel are the intended ones only if the
+        gates of any two of them can be rearranged such that one is measured after the
+        other. Gates of two commuting generators on the same data qubit which do not
+        commute can be swapped only in pairs.
+
+        Raises:
+            ValueError: If the result would not be a measurement of the stabilizer
+                generators.
+        """
+        if self.lat.n_time_steps is None:
+            return
+        edges = [edge for stab in self.lat.stabgens for edge in stab.edges]
+        if any(edge.measurement_time_step is None for edge in edges):
+            raise ValueError("Not all stabilizer edges have a time step")
+        for stab in self.lat.stabgens:
+            # Number of non-commuting gates with each neighbouring generator and how many
+            # of them come first
+            counts: dict[int, list[int]] = {}
+            for edge in stab.edges:
+                for other in edge.data.edges:
+                    if (
+                        isinstance(other.op, lattice.StabGenVertex)
+                        and other.factor != edge.factor
+                    ):
+                        count = counts.setdefault(other.op.equbit_idx, [0, 0])
+                        count[0] += 1
+                        count[1] += (
+                            edge.measurement_time_step < other.measurement_time_step
+                        )
+            for total, first in counts.values():
+                # Generators that do not commute cannot be measured simultaneously in
+                # any order
+                if total % 2 == 0 and first % 2 != 0:
+                    raise ValueError(
+                        "The stabilizer generators cannot be measured in parallel with "
+                        "the time steps assigned to the edges"
+                    )
+
     def measure_stabgens_seq(self, with_errors: bool):
         """Measure all stabilizer generators sequentially.
 
@@ -378,6 +419,7 @@ class QECCircuitGenerator:
             raise ValueError("Some measured logical operators do not commute")
         if not self.logical_ancilla:
             self._check_common_basis(logop_indices)
+        self._check_time_steps()
         # Measure logical operators for state preparation
         self.measure_logical_ops(logop_indices, restore_basis=True)
         # Measure stabilizer generators for state preparation (without errors)
-- 
2.43.0


From a036029adfc9f8dfad4f2a54d9e83d8b690c3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 69/72] fix: start a new circuit for every call of get_circuit

---
 src/plaquette/circuit/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 9abf70c..854dead 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -420,6 +420,8 @@ class QECCircuitGenerator:
         if not self.logical_ancilla:
             self._check_common_basis(logop_indices)
         self._check_time_steps()
+        # Start a new circuit: circuits returned earlier must not change
+        self.cb = circuit.CircuitBuilder(circuit.Circuit())
         # Measure logical operators for state preparation
         self.measure_logical_ops(logop_indices, restore_basis=True)
         # Measure stabilizer generators for state preparation (without errors)
-- 
2.43.0


From c876040e7d69962d3bfa890522de472025ae4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 70/72] fix: refuse error probabilities of unknown qubits or of
 the wrong number

---
 src/plaquette/errors/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 1d69068..2c0b9c0 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -609,12 +609,22 @@ class ErrorData:  # noqa: D101
                 "Use update_qubit_error() instead"
             )
 
+        self._check_qubits_and_probs(qubit_id, probs)
+
         self.enabled_qubit_errors.add(error_name)
         self.qubit_errors[error_name] = None
         for i, p in zip(qubit_id, probs):
             self.qubit_errors.at[i, error_name] = p
         self.qubit_errors[error_name].fillna(0.0, inplace=True)
 
+    def _check_qubits_and_probs(self, qubit_id, probs) -> None:
+        """Check that there is one probability for each of the given, known qubits."""
+        if len(probs) != len(qubit_id):
+            raise ValueError("len of qubit ids and probs must be the same!")
+        unknown = set(qubit_id).difference(self.qubit_errors.index)
+        if unknown:
+            raise ValueError(f"Unknown qubits: {unknown}")
+
     def update_qubit_error(
         self,
         qubit_id: int | list[int],
@@ -669,13 +679,13 @@ class ErrorData:  # noqa: D101
             )
 
         if isinstance(qubit_id, int) and isinstance(probs, float):
+            self._check_qubits_and_probs([qubit_id], [probs])
             self.qubit_errors.at[qubit_id, error_name] = probs
 
         elif isinstance(qubit_id, list) and (
             isinstance(probs, list) or (isinstance(probs, np.ndarray))
         ):
-            if len(probs) != len(qubit_id):
-                raise ValueError("len of qubit ids and probs must be the same!")
+            self._check_qubits_and_probs(qubit_id, probs)
             for i, p in zip(qubit_id, probs):
                 self.qubit_errors.at[i, error_name] = p
         else:
-- 
2.43.0


From da3cd4a77725270f77243546e1ca1db10818897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 71/72] fix: refuse gate errors without one probability for
 each induced error

---
 src/plaquette/errors/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 2c0b9c0..85f322a 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -722,6 +722,9 @@ class ErrorData:  # noqa: D101
         if gate_name not in GateErrorsDict.__optional_keys__:
             raise ValueError(f"Unknown gate: {gate_name!r}")
 
+        if len(error_names) != len(probs):
+            raise ValueError("len of error names and probs must be the same!")
+
         self.enabled_gate_errors.add(gate_name)
         self.gate_errors = pd.concat(
             [
@@ -939,6 +942,13 @@ class ErrorData:  # noqa: D101
 
         for row in self.gate_errors.itertuples():
             if row.gate in self.enabled_gate_errors:
+                channels = row.induced_errors
+                if isinstance(channels, str) and row.gate in ("CX", "CZ"):
+                    channels = [channels]
+                if len(channels) != len(row.probs):
+                    raise ValueError(
+                        f"{row.gate}: Need one probability for each induced error"
+                    )
                 match row.gate:
                     # single qubit gate errors
                     case "H" | "M" | "R":
-- 
2.43.0


From ff5eed3eddbbe97633b367a1f65497aaa622a928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 72/72] fix: do not share the list of QEC properties with
 converted configurations

---
 src/plaquette/frontend/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 2f0c248..43e14f9 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -3,6 +3,7 @@
 """Front-end configuration processing for running experiments."""
 from __future__ import annotations
 
+import copy
 import json
 from dataclasses import asdict, dataclass, field, fields
 from itertools import product
@@ -2141,7 +2142,7 @@ class ExperimentConfig:
             :meth:`from_dict`.
         """
         return {
-            "general": dict(self.general_conf),
+            "general": copy.deepcopy(dict(self.general_conf)),
             "device": self.device_conf.as_dict(),
             "code": self.code_conf.as_dict(),
             "circuit": self.circuit_conf.as_dict(),
-- 
2.43.0

