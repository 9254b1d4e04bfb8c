From 708d49dff578c2cb83965d45c0f53155eaf8897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 01/35] fix: FixedBranchSelector forwards the random generator
 to its default selector

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a8b6a75..9489319 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -131,7 +131,7 @@ class FixedBranchSelector(BranchSelector, Generic[_T]):
         if result is None:
             if self.default is None:
                 raise ValueError(f"Unexpected measurement of qubit {qubit}.")
-            return self.default.measure(qubit, f_expectation0)
+            return self.default.measure(qubit, f_expectation0, rng=rng, stacklevel=stacklevel + 1)
         return result
 
 
-- 
2.43.0


From f060ceee5d90f7cfb3764fc1426d04f2e369fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 02/35] fix: ComposeNoiseModel.input_nodes forwards the random
 generator

---
 graphix/noise_models/noise_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index 94b2237..b350965 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,7 +150,7 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
-        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, stacklevel=stacklevel + 1)]
+        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)]
 
     @override
     def command(
-- 
2.43.0


From 8c7ac6d5d1ed55407d67f719101f8885f6df3d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 03/35] fix: pauli_channel uses the probability of each Pauli
 operator as its weight

---
 graphix/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index d807814..99e8eb2 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -212,10 +212,10 @@ def pauli_channel(px: float, py: float, pz: float) -> KrausChannel:
     p_i = 1 - px - py - pz
     return KrausChannel(
         [
-            KrausData(np.sqrt(1 - p_i), Ops.I),
-            KrausData(np.sqrt(px / 3.0), Ops.X),
-            KrausData(np.sqrt(py / 3.0), Ops.Y),
-            KrausData(np.sqrt(pz / 3.0), Ops.Z),
+            KrausData(np.sqrt(p_i), Ops.I),
+            KrausData(np.sqrt(px), Ops.X),
+            KrausData(np.sqrt(py), Ops.Y),
+            KrausData(np.sqrt(pz), Ops.Z),
         ]
     )
 
-- 
2.43.0


From 40d6c54d287950c56b6490f7d19a024b666a6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 04/35] fix: transpiling an identity gate no longer drops the
 instructions that follow it

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 046500b..c17d796 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -940,7 +940,7 @@ def instructions_to_jcz(instrs: Iterable[InstructionType]) -> Iterator[instructi
             case InstructionKind.J | InstructionKind.CZ | InstructionKind.M:
                 yield instr
             case InstructionKind.I:
-                return
+                pass
             case InstructionKind.H:
                 yield instruction.J(instr.target, 0)
             case InstructionKind.S:
-- 
2.43.0


From 56ff52919912cc712bce5ad55bcd577d85e0f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 05/35] fix: Circuit.is_parameterized takes the angles of J
 gates into account

---
 graphix/transpiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index c17d796..f3dfd75 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -700,7 +700,13 @@ class Circuit(InplaceParameterizable):
         """
         for instr in self.instruction:
             match instr.kind:
-                case InstructionKind.RZZ | InstructionKind.RX | InstructionKind.RY | InstructionKind.RZ:
+                case (
+                    InstructionKind.RZZ
+                    | InstructionKind.RX
+                    | InstructionKind.RY
+                    | InstructionKind.RZ
+                    | InstructionKind.J
+                ):
                     if not isinstance(instr.angle, SupportsFloat):
                         return True
         return False
-- 
2.43.0


From f69994268510a7ed4143856fe015a4a9e8eb77e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 06/35] fix: output nodes are found again when a measured qubit
 has been swapped

---
 graphix/transpiler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index f3dfd75..e7758ee 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1017,10 +1017,9 @@ class TranspileSwapsResult:
         """Return for each output node, sorted in the order of the original circuit, the index of the corresponding output node in the order of the swapped circuit."""
         reduced_index = {}
         reduced_counter = 0
-        for index, output in enumerate(self.outputs):
-            if output.kind == OutputKind.Qubit:
-                reduced_index[index] = reduced_counter
-                reduced_counter += 1
+        for index in sorted(self.extract_outputs(OutputKind.Qubit)):
+            reduced_index[index] = reduced_counter
+            reduced_counter += 1
         return tuple(reduced_index[index] for index in self.extract_outputs(OutputKind.Qubit))
 
     def swap_output_nodes(self, output_nodes: Sequence[Node]) -> tuple[Node, ...]:
-- 
2.43.0


From 0033c476e73c1655372b6cc42303973a72e72336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 07/35] fix: classical outputs of transpiled circuits follow
 the order of the measurements

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index e7758ee..c967299 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1028,7 +1028,7 @@ class TranspileSwapsResult:
 
     def swap_classical_outputs(self, classical_outputs: Sequence[Node]) -> tuple[int, ...]:
         """Reorder the classical outpus of a pattern obtained from a swapped circuit to restore the output ordering of the original circuit."""
-        return tuple(classical_outputs[index] for index in self.extract_outputs(OutputKind.Bit))
+        return tuple(classical_outputs[index] for index in sorted(self.extract_outputs(OutputKind.Bit)))
 
 
 class OutputKind(Enum):
-- 
2.43.0


From 42c7eb4531908ce377b4c55b6bd5a95020d85f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 08/35] fix: transpile_swaps in place keeps track of the qubits
 which are still active

---
 graphix/transpiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index c967299..827f511 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1112,6 +1112,7 @@ def transpile_swaps(circuit: Circuit, *, copy: bool = False) -> TranspileSwapsRe
             new_circuit.add(instr.visit(visitor, copy=copy))
     if not copy:
         circuit.instruction = new_circuit.instruction
+        circuit.active_qubits = new_circuit.active_qubits
         new_circuit = circuit
     return TranspileSwapsResult(new_circuit, tuple(visitor.outputs))
 
-- 
2.43.0


From b60e3cbb508fd5fecad7e3ff8f1bf0601f5704a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 09/35] fix: copies returned by Circuit.visit keep track of
 measured qubits

---
 graphix/transpiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 827f511..569ff62 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -663,6 +663,7 @@ class Circuit(InplaceParameterizable):
             result = Circuit(self.width)
             for instr in self.instruction:
                 result.instruction.append(instr.visit(visitor, copy=True))
+            result.active_qubits = set(self.active_qubits)
             return result
         for instr in self.instruction:
             instr.visit(visitor, copy=False)
-- 
2.43.0


From 1fbe1f835b3e3d00852ccbaa919c8fd84ef2eb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 10/35] fix: Circuit.rzz rejects identical control and target
 qubits like the other two-qubit gates

---
 graphix/transpiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 569ff62..7b7610d 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -378,6 +378,7 @@ class Circuit(InplaceParameterizable):
         """
         assert control in self.active_qubits
         assert target in self.active_qubits
+        assert control != target
         self.instruction.append(instruction.RZZ(control=control, target=target, angle=angle))
 
     def ccx(self, control1: int, control2: int, target: int) -> None:
-- 
2.43.0


From 6c1cb4aeb79f2ce0f4225feb42c7572c35b339fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 11/35] fix: sums of affine expressions keep the constant term
 when the slopes cancel

---
 graphix/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/parameter.py b/graphix/parameter.py
index 891986f..647609a 100644
--- a/graphix/parameter.py
+++ b/graphix/parameter.py
@@ -202,7 +202,7 @@ class AffineExpression(Expression):
                 raise PlaceholderOperationError
             a = self.a + other.a
             if a == 0:
-                return 0
+                return self.b + other.b
             return AffineExpression(a=a, x=self.x, b=self.b + other.b)
         return NotImplemented
 
-- 
2.43.0


From 2b287c1f4d4a59d13ad515bf0dd04d426854f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 12/35] fix: in-place rewriting of a pattern leaves commands
 shared with other patterns unchanged

---
 graphix/pattern.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6597aab..c55d764 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -806,7 +806,7 @@ class Pattern(InplaceParameterizable):
         assert x.kind == CommandKind.X
         assert m.kind == CommandKind.M
         if x.node == m.node:
-            m.s_domain ^= x.domain
+            self.__seq[target + 1] = dataclasses.replace(m, s_domain=m.s_domain ^ x.domain)
             self.__seq.pop(target)  # del X
             return True
         self._commute_with_following(target)
@@ -826,7 +826,7 @@ class Pattern(InplaceParameterizable):
         assert z.kind == CommandKind.Z
         assert m.kind == CommandKind.M
         if z.node == m.node:
-            m.t_domain ^= z.domain
+            self.__seq[target + 1] = dataclasses.replace(m, t_domain=m.t_domain ^ z.domain)
             self.__seq.pop(target)  # del Z
             return True
         self._commute_with_following(target)
@@ -846,7 +846,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert x.kind == CommandKind.X
         if s.node in x.domain:
-            x.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(x, domain=x.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_zs(self, target: int) -> None:
@@ -863,7 +863,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert z.kind == CommandKind.Z
         if s.node in z.domain:
-            z.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(z, domain=z.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_ms(self, target: int) -> None:
@@ -879,10 +879,9 @@ class Pattern(InplaceParameterizable):
         m = self.__seq[target + 1]
         assert s.kind == CommandKind.S
         assert m.kind == CommandKind.M
-        if s.node in m.s_domain:
-            m.s_domain ^= s.domain
-        if s.node in m.t_domain:
-            m.t_domain ^= s.domain
+        s_domain = m.s_domain ^ s.domain if s.node in m.s_domain else m.s_domain
+        t_domain = m.t_domain ^ s.domain if s.node in m.t_domain else m.t_domain
+        self.__seq[target + 1] = dataclasses.replace(m, s_domain=s_domain, t_domain=t_domain)
         self._commute_with_following(target)
 
     def _commute_ss(self, target: int) -> None:
@@ -899,7 +898,7 @@ class Pattern(InplaceParameterizable):
         assert s1.kind == CommandKind.S
         assert s2.kind == CommandKind.S
         if s1.node in s2.domain:
-            s2.domain ^= s1.domain
+            self.__seq[target + 1] = dataclasses.replace(s2, domain=s2.domain ^ s1.domain)
         self._commute_with_following(target)
 
     def _commute_with_following(self, target: int) -> None:
@@ -1019,8 +1018,9 @@ class Pattern(InplaceParameterizable):
                 extracted_signal = extract_signal(cmd.measurement.to_bloch().plane, cmd.s_domain, cmd.t_domain)
                 if extracted_signal.signal:
                     self.__seq.insert(pos + 1, command.S(node=cmd.node, domain=extracted_signal.signal))
-                    cmd.s_domain = extracted_signal.s_domain
-                    cmd.t_domain = extracted_signal.t_domain
+                    self.__seq[pos] = dataclasses.replace(
+                        cmd, s_domain=extracted_signal.s_domain, t_domain=extracted_signal.t_domain
+                    )
                     pos += 1
                 signal_dict[cmd.node] = extracted_signal.signal
             pos += 1
-- 
2.43.0


From aa613774c1b7ab11b1be15cea8861f7164295edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 13/35] fix: in-place rewriting of a pattern updates its node
 count

---
 graphix/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index c55d764..e9b1f7a 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1923,6 +1923,7 @@ class Pattern(InplaceParameterizable):
             return pattern
         self.__seq = pattern.__seq
         self.__output_nodes = pattern.__output_nodes
+        self.__n_node = pattern.__n_node
         return self
 
     def remove_local_clifford_commands(self, *, copy: bool = False) -> Pattern:
@@ -1953,6 +1954,7 @@ class Pattern(InplaceParameterizable):
             return new_pattern
         self.__seq = new_pattern.__seq
         self.__output_nodes = new_pattern.__output_nodes
+        self.__n_node = new_pattern.__n_node
         return self
 
 
-- 
2.43.0


From 7ccee337eb4d1a9ae3bf0aace3c793fec1f76124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 14/35] fix: messages of XZ-correction order errors describe
 the error

---
 graphix/flow/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/flow/exceptions.py b/graphix/flow/exceptions.py
index a297880..f8c1f1b 100644
--- a/graphix/flow/exceptions.py
+++ b/graphix/flow/exceptions.py
@@ -280,9 +280,9 @@ class XZCorrectionsOrderError(XZCorrectionsError):
         """Explain the error."""
         match self.reason:
             case XZCorrectionsOrderErrorReason.X:
-                return "The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case XZCorrectionsOrderErrorReason.Z:
-                return "The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case _:
                 assert_never(self.reason)
 
-- 
2.43.0


From 93f48343459510952ffa1988e22c91e674f78cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 15/35] fix: an empty measurement order is compatible with
 XZ-corrections without measured nodes

---
 graphix/flow/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 1cea8c4..28ab183 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -394,14 +394,12 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
 
         i = 0
         n_measured_layers = len(measured_layers)
-        layer = measured_layers[0]
 
         for node in total_measurement_order:
-            while node not in layer:
+            while node not in measured_layers[i]:
                 i += 1
                 if i == n_measured_layers:
                     return False
-                layer = measured_layers[i]
 
         return True
 
-- 
2.43.0


From aac9cc0653222c0067e190bf5cb339c86b8a15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 16/35] fix: warn only when the isolated node removed is not
 measured in a Pauli basis

---
 graphix/remove_pauli_measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 71decac..adc4a4e 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -497,7 +497,7 @@ class _RemovePauliMeasurements:
         # modified while enumerating isolated nodes.
         for node in list(nx.isolates(self.graph)):
             if node not in self.input_node_set and node not in self.output_node_set:
-                if node not in self.pauli_measurements:
+                if self.node_specs[node].pauli_measurement is None:
                     warn("Non-Pauli measurement on an isolated node was removed.", stacklevel=stacklevel + 1)
                 self._remove_node(node)
 
-- 
2.43.0


From 56154a6d36f7238a340abccaf9b1a85f7af0d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 17/35] fix: computing an expectation value leaves the density
 matrix unchanged

---
 graphix/sim/density_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index ad42a0e..cfcee9c 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -279,6 +279,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
             raise ValueError("op must be 2x2 matrix.")
 
         st1 = _copy.copy(self)
+        st1.rho = self.rho.copy()
         st1.normalize()
 
         nqubit = self.nqubit
-- 
2.43.0


From b401e954c66aa44bd261bd55fc64b9625058eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 18/35] fix: Statevector.swap checks qubit indices before
 calling compiled code

---
 graphix/sim/statevec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 0cb4eac..b75b55a 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -503,6 +503,8 @@ class Statevector(DenseState):
         qubits : tuple[int, int]
             (control, target) qubit indices.
         """
+        for qubit in qubits:
+            self._check_bounds(qubit)
         _swap_jit(self._psi, self.nqubit, *qubits)
 
     def tensor(self, other: Statevector) -> None:
-- 
2.43.0


From 006b5332bfdbbf09540584f7554a9088328bea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 19/35] fix: copies of tensor networks do not share their
 dangling indices

---
 graphix/sim/tensornet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index c9f4b3b..90d4d9f 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -70,7 +70,7 @@ class MBQCTensorNet(TensorNetwork):
         if ts is None:
             ts = []
         super().__init__(ts=ts, virtual=virtual)
-        self._dangling = ts._dangling if isinstance(ts, MBQCTensorNet) else {}
+        self._dangling = dict(ts._dangling) if isinstance(ts, MBQCTensorNet) else {}
         self.default_output_nodes = None if default_output_nodes is None else list(default_output_nodes)
         # prepare the graph state if graph_nodes and graph_edges are given
         if graph_nodes is not None and graph_edges is not None:
-- 
2.43.0


From 5968fe679469c366b93861a34425a922a49c4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 20/35] fix: copies of tensor networks keep the default output
 nodes

---
 graphix/sim/tensornet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 90d4d9f..91ab7c0 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -538,7 +538,9 @@ class MBQCTensorNet(TensorNetwork):
         """
         if deep:
             return deepcopy(self)
-        return self.__class__(branch_selector=self.__branch_selector, ts=self)
+        return self.__class__(
+            branch_selector=self.__branch_selector, default_output_nodes=self.default_output_nodes, ts=self
+        )
 
 
 def _decompose_cz() -> list[npt.NDArray[np.complex128]]:
-- 
2.43.0


From f7f1fa43938e99f90070ae5121a3a55d9dabedfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:43 +0000
Subject: [PATCH 21/35] fix: parallelize_pattern keeps every measurement when
 the pattern has no output

---
 graphix/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index e9b1f7a..a44ccba 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1159,7 +1159,9 @@ class Pattern(InplaceParameterizable):
             optimal measurement order for parallel computing
         """
         partial_order_layers = self.partial_order_layers()
-        return list(itertools.chain(*reversed(partial_order_layers[1:])))
+        # The first layer gathers the output nodes if there are any.
+        shift = 1 if self.output_nodes else 0
+        return list(itertools.chain(*reversed(partial_order_layers[shift:])))
 
     def sort_measurement_commands(self, meas_order: list[int]) -> list[command.M]:
         """Convert measurement order to sequence of measurement commands.
-- 
2.43.0


From b44cf9765c9715feae4abf4c3f1974c2ba660a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:21 +0000
Subject: [PATCH 22/35] fix: remove_pauli_measurements does not pivot nodes
 that are not prepared in |+>

---
 graphix/remove_pauli_measurements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index adc4a4e..34af37d 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -36,6 +36,7 @@ from graphix.command import Command
 from graphix.fundamentals import Axis, Sign
 from graphix.measurements import PauliMeasurement
 from graphix.optimization import StandardizedPattern
+from graphix.states import BasicStates
 
 if TYPE_CHECKING:
     from collections.abc import Iterable, Mapping
@@ -239,7 +240,7 @@ class _RemovePauliMeasurements:
     Nodes are given with the indexing of the original pattern: use ``node_map`` to retrieve the index in the graph."""
 
     input_node_set: set[Node]
-    """Set of input nodes: inputs nodes are never pivoted, therefore their indexing is preserved."""
+    """Set of input nodes (and of nodes that are not prepared in state |+⟩): these nodes are never pivoted, therefore their indexing is preserved."""
 
     output_node_set: set[Node]
     """Set of output nodes, using the new indexing."""
@@ -267,6 +268,11 @@ class _RemovePauliMeasurements:
         self.measurements = cut.measurements
         self.pauli_measurements = {axis: set() for axis in Axis}
         self.input_node_set = set(cut.original_pattern.input_nodes)
+        # The pivoting lemmas only hold for nodes prepared in state |+⟩:
+        # nodes prepared in another state are treated as inputs.
+        self.input_node_set.update(
+            cmd_n.node for cmd_n in cut.original_pattern.n_list if cmd_n.state != BasicStates.PLUS
+        )
         self.output_node_set = set(cut.original_pattern.output_nodes)
         for cmd_m in self.cut.pauli_measurements:
             if not isinstance(cmd_m.measurement, PauliMeasurement):  # pragma: no cover
-- 
2.43.0


From 6811db1aa48816715a7d665b2066ab2e74ac848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 23/35] fix: remove_pauli_measurements takes outcomes which are
 always 1 into account

---
 graphix/remove_pauli_measurements.py | 30 +++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 34af37d..3fec5ea 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -255,6 +255,9 @@ class _RemovePauliMeasurements:
     ``node_specs[node_map[u]].src == u``.
     """
 
+    one_outcomes: set[Node]
+    """Set of removed nodes whose outcome is always 1, using the indexing of the original pattern."""
+
     def __init__(self, cut: PauliPushingCut) -> None:
         self.cut = cut
         self.graph = cut.original_pattern.graph()
@@ -282,6 +285,7 @@ class _RemovePauliMeasurements:
             if cmd_m.node not in self.input_node_set:
                 self.pauli_measurements[cmd_m.measurement.axis].add(cmd_m.node)
         self.node_map = {node: node for node in self.graph.nodes()}
+        self.one_outcomes = set()
 
     def _apply_clifford(self, node: Node, clifford: Clifford) -> None:
         """Apply a single-qubit Clifford gate to a node.
@@ -503,16 +507,31 @@ class _RemovePauliMeasurements:
         # modified while enumerating isolated nodes.
         for node in list(nx.isolates(self.graph)):
             if node not in self.input_node_set and node not in self.output_node_set:
-                if self.node_specs[node].pauli_measurement is None:
+                spec = self.node_specs[node]
+                if spec.pauli_measurement is None:
                     warn("Non-Pauli measurement on an isolated node was removed.", stacklevel=stacklevel + 1)
+                elif spec.pauli_measurement == PauliMeasurement(Axis.X, Sign.MINUS):
+                    # The node is in state |+⟩: there is no 0-branch.
+                    self.one_outcomes.add(spec.src)
                 self._remove_node(node)
 
+    def _one_outcomes_clifford(self, domains: Domains) -> Clifford:
+        """Return the corrections triggered by the removed nodes whose outcome is always 1."""
+        clifford = Clifford.I
+        if len(domains.s_domain & self.one_outcomes) % 2:
+            clifford = Clifford.X @ clifford
+        if len(domains.t_domain & self.one_outcomes) % 2:
+            clifford = Clifford.Z @ clifford
+        return clifford
+
     def _create_new_m(self, original_m: Command.M) -> Command.M | None:
         node = self.node_map.get(original_m.node)
         if node is None:
             return None
         spec = self.node_specs[node]
-        new_m = original_m.clifford(spec.clifford)
+        # Apply the corrections that depend on removed nodes whose outcome is always 1.
+        clifford = self._one_outcomes_clifford(Domains(original_m.s_domain, original_m.t_domain)) @ spec.clifford
+        new_m = original_m.clifford(clifford)
         new_m.node = node
         new_m.s_domain = _map_domain(self.node_map, new_m.s_domain)
         new_m.t_domain = _map_domain(self.node_map, new_m.t_domain)
@@ -533,7 +552,12 @@ class _RemovePauliMeasurements:
             for node in output_nodes
             if (s_domain := _map_domain(self.node_map, self.node_specs[node].domains.s_domain))
         }
-        c_dict = {node: clifford for node in output_nodes if (clifford := self.node_specs[node].clifford) != Clifford.I}
+        c_dict = {
+            node: clifford
+            for node in output_nodes
+            if (clifford := self.node_specs[node].clifford @ self._one_outcomes_clifford(self.node_specs[node].domains))
+            != Clifford.I
+        }
         return StandardizedPattern(
             self.cut.original_pattern.input_nodes,
             output_nodes,
-- 
2.43.0


From ea65062e972bea69bcd83a936abbe8ffc6a98011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 24/35] fix: minimize_space accepts patterns with nodes that
 are not prepared in |+>

---
 graphix/space_minimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/space_minimization.py b/graphix/space_minimization.py
index 35e7bdd..031d132 100644
--- a/graphix/space_minimization.py
+++ b/graphix/space_minimization.py
@@ -193,7 +193,7 @@ class SpaceMinimizationHeuristics:
         """
         try:
             cf = pattern.to_xzcorrections().downcast_bloch().to_causalflow()
-        except (TypeError, FlowError):
+        except (TypeError, ValueError, FlowError):
             return None
         else:
             meas_order = tuple(chain(*reversed(cf.partial_order_layers[1:])))
-- 
2.43.0


From a1011b023b6affa43ba97b1e89739438a6c9a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 25/35] fix: space_list counts the input nodes

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index a44ccba..8b5cec9 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1376,7 +1376,7 @@ class Pattern(InplaceParameterizable):
         N_list : list
             time evolution of 'space' at each 'N' and 'M' commands of pattern.
         """
-        nodes = 0
+        nodes = len(self.input_nodes)
         n_list = []
         for cmd in self.__seq:
             match cmd.kind:
-- 
2.43.0


From 330a153a7b78653841898bfae27c22d5b94bd754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 26/35] fix: remove_local_clifford_commands accepts identity
 Clifford commands

---
 graphix/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index a571218..826d00b 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -641,8 +641,9 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
                 # - The set of input nodes is {0}.
                 # - The output node is the highest-indexed node.
                 new_pattern.extend(clifford_pattern.reindex(lambda node: cmd_node if node == 0 else node + max_node))  # noqa: B023
-                max_node += output_node
-                mapping[cmd.node] = max_node
+                if output_node != 0:
+                    max_node += output_node
+                    mapping[cmd.node] = max_node
             case _:
                 new_cmd = cmd.reindex(reindex)
                 new_pattern.add(new_cmd)
-- 
2.43.0


From c5fc2f7c491ff87106e0f1290bbcc49e7eb747a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:28 +0000
Subject: [PATCH 27/35] fix: XZCorrections.to_pauliflow refuses X-corrections
 on input nodes

---
 graphix/flow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 28ab183..65337e2 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -1479,6 +1479,8 @@ def _solve_pauli_correction_set(
     self_fixed_in = label in {Plane.XZ, Plane.YZ, Axis.Z}
     if self_fixed_in and node not in non_inputs:
         return None  # ``node`` must correct itself but is an input node.
+    if not x_corr <= non_inputs:
+        return None  # The image of the correction function cannot contain input nodes.
 
     # Free variables of the GF(2) system: the X/Y-measured, non-input nodes that are not in the
     # future of ``node`` (the "anachronical" candidates, plus ``node`` itself when it qualifies).
-- 
2.43.0


From c7fdf691f4a2d287c9abe5e822e8f29afd0e888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 28/35] fix: PatternSimulator.run passes its stack level to the
 noise model

---
 graphix/simulator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/simulator.py b/graphix/simulator.py
index 93c142b..aa26558 100644
--- a/graphix/simulator.py
+++ b/graphix/simulator.py
@@ -437,8 +437,12 @@ class PatternSimulator(Generic[_StateT_co]):
         if self.noise_model is None:
             pattern: Iterable[CommandOrNoise] = self.pattern
         else:
-            pattern = self.noise_model.input_nodes(self.pattern.input_nodes, rng=rng) if input_state is not None else []
-            pattern.extend(self.noise_model.transpile(self.pattern, rng=rng))
+            pattern = (
+                self.noise_model.input_nodes(self.pattern.input_nodes, rng=rng, stacklevel=stacklevel + 1)
+                if input_state is not None
+                else []
+            )
+            pattern.extend(self.noise_model.transpile(self.pattern, rng=rng, stacklevel=stacklevel + 1))
 
         # We check runnability first to provide clearer error messages and
         # to catch these errors before starting the simulation.
-- 
2.43.0


From 88516d565d3314883305c1acd425f79019e14922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 29/35] fix: Pattern.draw attributes its warning to the caller

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 8b5cec9..f06f9a0 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1555,7 +1555,7 @@ class Pattern(InplaceParameterizable):
                             except FlowError:
                                 warn(
                                     "The pattern is not consistent with a flow. An attempt to be extract the flow from the underlying open graph will be made.",
-                                    stacklevel=stacklevel,
+                                    stacklevel=stacklevel + 1,
                                 )
                     if flow is None:
                         og = self.to_opengraph()
-- 
2.43.0


From 14c0a22bb7cccb2d6ffd5b2687e8730d99cea484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 30/35] fix: Statevector refuses amplitudes whose number is not
 a power of two when nqubit is given

---
 graphix/sim/statevec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index b75b55a..1aac6de 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -187,9 +187,9 @@ class Statevector(DenseState):
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
         elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)):
             inferred_nqubit = length.bit_length() - 1
+            if length & (length - 1):
+                raise ValueError(f"Length of input data is not a power of two: {length}.")
             if nqubit is None:
-                if length & (length - 1):
-                    raise ValueError(f"Length of input data is not a power of two: {length}.")
                 nqubit = inferred_nqubit
             elif nqubit != inferred_nqubit:
                 raise ValueError(f"Mismatch between nqubit and inferred nqubit: {nqubit} != {inferred_nqubit}.")
-- 
2.43.0


From b19ec6fc4cb1277a0ff6f9b1c943598b63db1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 31/35] fix: DensityMatrix holds complex numbers when it is
 given real ones

---
 graphix/sim/density_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index cfcee9c..7537089 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -99,6 +99,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
 
                 input_matrix: list[list[ExpressionOrSupportsComplex]] = [cast_row(item) for item in input_list]
                 self.rho = np.array(input_matrix)
+                if self.rho.dtype != np.object_:
+                    self.rho = self.rho.astype(np.complex128, copy=False)
                 if not lv.is_qubitop(self.rho):
                     raise ValueError("Cannot interpret the provided density matrix as a qubit operator.")
                 check_size_consistency(self.rho)
-- 
2.43.0


From fda4415a3285a88137ce3cc0382e26c785337a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:24 +0000
Subject: [PATCH 32/35] fix: compose patterns and open graphs without nodes

---
 graphix/opengraph.py | 2 +-
 graphix/pattern.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/opengraph.py b/graphix/opengraph.py
index a896a92..21afe60 100644
--- a/graphix/opengraph.py
+++ b/graphix/opengraph.py
@@ -711,7 +711,7 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
             if vm is not None and (uc := self.output_cliffords.get(u)) is not None:
                 measurements_other[v] = vm.clifford(uc)
 
-        shift = max((*self.graph.nodes, *mapping.values())) + 1
+        shift = max((*self.graph.nodes, *mapping.values()), default=-1) + 1
 
         mapping_sequential = {
             node: i for i, node in enumerate(sorted(other.graph.nodes - mapping.keys()), start=shift)
diff --git a/graphix/pattern.py b/graphix/pattern.py
index f06f9a0..55abfe3 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -358,7 +358,7 @@ class Pattern(InplaceParameterizable):
                 stacklevel=2,
             )
 
-        shift = max((*nodes_p1, *mapping.values())) + 1
+        shift = max((*nodes_p1, *mapping.values()), default=-1) + 1
         mapping_complete = other.node_mapping(mapping, start=shift)
         other = other.reindex(mapping_complete, copy=True)
 
-- 
2.43.0


From 0b924a91a09ee47c388b8bdb18abf92cd0428a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:33 +0000
Subject: [PATCH 33/35] fix: keep all entries when substituting parameters in a
 density matrix

np.vectorize took the type of the result from the first entry: the
substitution truncated the other entries or failed when it was an integer
or a real number.
---
 graphix/sim/density_matrix.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 7537089..b7611bd 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -32,7 +32,7 @@ from graphix.sim.statevec import Statevector, _check_permutation
 from graphix.states import BasicStates, State
 
 if TYPE_CHECKING:
-    from collections.abc import Mapping, Sequence
+    from collections.abc import Callable, Mapping, Sequence
     from typing import SupportsComplex, SupportsFloat
 
     from graphix.noise_models.noise_model import Noise
@@ -471,7 +471,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameter(
         self, variable: Parameter, substitute: ExpressionOrSupportsFloat, *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameter(value, variable, substitute))(self.rho)
+        rho = _map_entries(lambda value: with_parameter(value, variable, substitute), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -483,7 +483,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameters(
         self, assignment: Mapping[Parameter, ExpressionOrSupportsFloat], *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameters(value, assignment))(self.rho)
+        rho = _map_entries(lambda value: with_parameters(value, assignment), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -492,6 +492,17 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         return self
 
 
+def _map_entries(f: Callable[[ExpressionOrSupportsComplex], ExpressionOrSupportsComplex], matrix: Matrix) -> Matrix:
+    """Apply a function to every entry of a matrix.
+
+    The result is a complex matrix, unless an entry is still an expression.
+    """
+    result = np.vectorize(f, otypes=[np.object_])(matrix)
+    if any(isinstance(value, Expression) for value in result.flat):
+        return result
+    return result.astype(np.complex128)
+
+
 @dataclass(frozen=True)
 class DensityMatrixBackend(DenseStateBackend[DensityMatrix]):
     """MBQC simulator with density matrix method."""
-- 
2.43.0


From 0bad474845d9d6996e1473a9faf2a9c0f894344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:01 +0000
Subject: [PATCH 34/35] fix: connected_nodes neither fails at the end of the
 pattern nor standardizes it

The loop ran past the end when an entanglement was the last command, and
the query changed the pattern when it was not standard.
---
 graphix/pattern.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 55abfe3..6c2b6ce 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1267,22 +1267,20 @@ class Pattern(InplaceParameterizable):
         node_list : list
             list of nodes that are entangled with specified node
         """
-        if not self.is_standard():
-            self.standardize()
+        pattern = self
+        if not pattern.is_standard():
+            pattern = self.copy()
+            pattern.standardize()
         if prepared is None:
             prepared = set()
         node_list = []
-        ind = self._find_op_to_be_moved(CommandKind.E)
-        if ind is not None:  # end -> 'node' is isolated
-            cmd = self.__seq[ind]
-            while cmd.kind == CommandKind.E:
+        for cmd in pattern:
+            if cmd.kind == CommandKind.E:
                 if cmd.nodes[0] == node:
                     if cmd.nodes[1] not in prepared:
                         node_list.append(cmd.nodes[1])
                 elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
                     node_list.append(cmd.nodes[0])
-                ind += 1
-                cmd = self.__seq[ind]
         return node_list
 
     def correction_commands(self) -> list[command.X | command.Z]:
-- 
2.43.0


From ebbd51647facb9607468f30586850aba6cada06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:08 +0000
Subject: [PATCH 35/35] fix: extracted Pauli string of a node does not depend
 on the sign of its own measurement

---
 graphix/circ_ext/extraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 5d5fa14..fd29974 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -550,8 +550,8 @@ def extraction_ps_from_corrected_node(flow: PauliFlow[Measurement], node: Node)
     # One phase flip per two Ys in the graph state stabilizer.
     negative_sign ^= bool(len(inter_c_odd_set) // 2 % 2)
 
-    # One phase flip per node in the graph state stabilizer that is absorbed from a Pauli measurement with angle π.
-    for n in c_set | odd_c_set:
+    # One phase flip per other node in the graph state stabilizer that is absorbed from a Pauli measurement with angle π.
+    for n in (c_set | odd_c_set) - {node}:
         meas = og.measurements.get(n, None)
         if isinstance(meas, PauliMeasurement):
             negative_sign ^= meas.sign == Sign.MINUS
-- 
2.43.0

