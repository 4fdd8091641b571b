From e5ab5ecd9e79d1917193b5659cdf2cf5f59d9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 01/45] fix: makeLargeGate read past target list and built a
 2^rows index map

---
 src/dd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 8527000..9a3491a 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -532,7 +532,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         [&targets](size_t a, size_t b) { return targets[a] < targets[b]; });
     std::vector<std::size_t> conversionMap;
     conversionMap.push_back(0);
-    for (int i = 0; i < rows; i++) {
+    for (int i = 0; i < targets.size(); i++) {
         size_t addition = 1 << target_compresed[i];
         int rep = conversionMap.size();
         for (int j = 0; j < rep; j++) {
-- 
2.43.0


From 4581f0ac890ee9d0d9a81a76bdf218c917b3db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 02/45] fix: makeLargeGate permuted the caller's matrix in
 place

---
 src/dd.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 9a3491a..4eeb7c4 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -540,13 +540,10 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         }
     }
     // swap rows and columns
-    std::vector<std::vector<std::complex<double>>> g_tmp;
-    for (int i = 0; i < rows; i++) {
-        g_tmp.push_back(g[conversionMap[i]]);
-    }
+    ComplexMatrix g_tmp = g;
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < rows; j++) {
-            g[i][j] = g_tmp[i][conversionMap[j]];
+            g_tmp[i][j] = g[conversionMap[i]][conversionMap[j]];
         }
     }
 
@@ -556,7 +553,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         skip[target] = false;
     }
 
-    return makeLargeGate(g, q - 1, 0, rows, 0, cols, skip, target_min);
+    return makeLargeGate(g_tmp, q - 1, 0, rows, 0, cols, skip, target_min);
 }
 mEdge makeLargeGate(ComplexMatrix &g, const Qubit level,
                     const std::size_t rowStart, const std::size_t rowEnd,
-- 
2.43.0


From 53e0c12f2e575e38c0ff2bb0b3e57819528685c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 03/45] fix: split gates over MPI ranks with the identity
 stripping taken into account

---
 include/dd.h |  1 +
 src/dd.cpp   | 33 +++++++++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/dd.h b/include/dd.h
index 500ed13..1afc69c 100644
--- a/include/dd.h
+++ b/include/dd.h
@@ -455,6 +455,7 @@ mEdge makeLargeGate(ComplexMatrix &g, const Qubit level, const std::size_t rowSt
                     const std::size_t colStart, const std::size_t colEnd, const std::vector<bool> skip, const Qubit target_min);
 
 mEdge getMPIGate(mEdge root, int row, int col, int world_size);
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit level);
 
 mEdge mm_add(const mEdge &lhs, const mEdge &rhs);
 mEdge mm_multiply(const mEdge &lhs, const mEdge &rhs);
diff --git a/src/dd.cpp b/src/dd.cpp
index 4eeb7c4..87848f0 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -625,6 +625,31 @@ mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
     tmp.w *= root.w;
     return getMPIGate(tmp, row % border, col % border, border);
 }
+
+// Same as above, but for a matrix whose top qubit is 'level'. The levels that
+// 'root' skips are identities because of the identity stripping.
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit level) {
+    if (world_size <= 1) {
+        return root;
+    }
+
+    // Check world_size is 2^n
+    assert((world_size & world_size - 1) == 0);
+    assert(row < world_size && col < world_size);
+
+    int border = world_size / 2;
+    int index = (row >= border ? 2 : 0) + (col >= border ? 1 : 0);
+    mEdge tmp = root;
+    if (root.isTerminal() || root.getVar() < level) {
+        if (index == 1 || index == 2) {
+            return mEdge::zero;
+        }
+    } else {
+        tmp = root.getNode()->children[index];
+        tmp.w *= root.w;
+    }
+    return getMPIGate(tmp, row % border, col % border, border, level - 1);
+}
 #endif
 
 int vNode_to_vec(vNode *node, std::vector<vContent> &table,
@@ -684,7 +709,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     std::unordered_map<vNode *, int> rhs_map;
 
     send_data.first = rhs.w;
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -702,7 +727,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         send_reqs.push_back(world.isend(right_neighbor, i, send_data));
         world.recv(left_neighbor, i, recv_data);
         int col = (row - i + world.size()) % small_world_size + offset;
-        gate = getMPIGate(lhs, row, col, world_size);
+        gate = getMPIGate(lhs, row, col, world_size, total_qubits - 1);
         // bmpi::wait_all(std::begin(recv_reqs), std::end(recv_reqs));
         vEdge received = {recv_data.first,
                           vec_to_vNode(recv_data.second, vUnique)};
@@ -824,7 +849,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     int right_neighbor = (world.rank() + 1) % world_size;
 
     // calculate initial result
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -842,7 +867,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         } else {
             std::pair<std_complex, std::vector<vContent>> recv_data;
             bmpi::broadcast(world, recv_data, i);
-            gate = getMPIGate(lhs, row, i, world_size);
+            gate = getMPIGate(lhs, row, i, world_size, total_qubits - 1);
             vEdge received = {recv_data.first,
                               vec_to_vNode(recv_data.second, vUnique)};
             result = vv_add(result, mv_multiply(gate, received));
-- 
2.43.0


From e4f1562e2a810e0be21fed8fc816ce7f73b687ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 04/45] fix: measuring a global qubit picked the wrong rank bit
 with more than two ranks

---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 87848f0..6e7e5c4 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1762,7 +1762,7 @@ char measureOneCollapsingMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
@@ -1833,7 +1833,7 @@ double measureOneMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
-- 
2.43.0


From 0cd3ac5bfe55c1af8d48b66e2abd1bdc87084b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 05/45] fix: probabilities and vector over MPI were misaligned
 when a rank holds the zero part

---
 qdd/bindings.cpp | 15 +++++++++++----
 src/dd.cpp       |  4 ++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 0f8c115..1ee6e7c 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -148,12 +148,19 @@ void dump_mpi() {
 }
 
 std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
-    size_t dim;
-    std_complex *vec = edge.getVector(&dim);
     std::vector<std_complex> result;
-    for (int i = 0; i < dim; i++) {
-        result.push_back(vec[i]);
+    if (!edge.isTerminal()) {
+        size_t dim;
+        std_complex *vec = edge.getVector(&dim);
+        for (int i = 0; i < dim; i++) {
+            result.push_back(vec[i]);
+        }
+        delete[] vec;
     }
+    // a rank whose part of the state is zero does not know its size
+    const std::size_t each_size = bmpi::all_reduce(
+        _world, result.size(), bmpi::maximum<std::size_t>());
+    result.resize(each_size);
 
     std::vector<std::vector<std_complex>> all_results;
     bmpi::all_gather(_world, result, all_results);
diff --git a/src/dd.cpp b/src/dd.cpp
index 6e7e5c4..60c509c 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1564,6 +1564,10 @@ std::vector<double> probabilitiesMPI(bmpi::communicator &world,
     std::vector<double> each_result = probabilities(rootEdge);
     const double all_prob =
         bmpi::all_reduce(world, each_prob, std::plus<double>());
+    // a rank whose part of the state is zero does not know its size
+    const std::size_t each_size = bmpi::all_reduce(
+        world, each_result.size(), bmpi::maximum<std::size_t>());
+    each_result.resize(each_size, 0.0);
     std::for_each(each_result.begin(), each_result.end(),
                   [each_prob, all_prob](double &num) {
                       num = num * each_prob / all_prob;
-- 
2.43.0


From 8733de90e1b31ed41ea85e45fbaf23a8f664a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 06/45] fix: pyQDD.getVector leaked its amplitude array

---
 qdd/bindings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 1ee6e7c..b916f42 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -53,6 +53,7 @@ std::vector<std::complex<double>> _getVector(vEdge &rootEdge) {
         std::complex<double> tmp(vec[i].r, vec[i].i);
         result.push_back(tmp);
     }
+    delete[] vec;
     return result;
 }
 
-- 
2.43.0


From 7df9d6edfa301e49768a67fac587df5d678b63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 07/45] fix: save_binary/load_binary dropped the weight of the
 root edge

---
 src/dd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 60c509c..5f36f7b 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2197,6 +2197,7 @@ void save_binary(vEdge edge, std::string file_name) {
     int nNodes = vNode_to_vec(edge.n, v, map);
     std::ofstream binary_ofs(file_name);
     boost::archive::binary_oarchive binary_oa(binary_ofs);
+    binary_oa << edge.w;
     binary_oa << v;
     binary_ofs.close();
     std::cout << "nNodes=" << nNodes << std::endl;
@@ -2204,11 +2205,13 @@ void save_binary(vEdge edge, std::string file_name) {
 
 vEdge load_binary(std::string file_name) {
     std::vector<vContent> v;
+    std_complex w;
     std::ifstream binary_ifs(file_name);
     boost::archive::binary_iarchive binary_ia(binary_ifs);
+    binary_ia >> w;
     binary_ia >> v;
     binary_ifs.close();
-    vEdge result = {{1.0, 0.0}, vec_to_vNode(v, vUnique)};
+    vEdge result = {w, vec_to_vNode(v, vUnique)};
     return result;
 }
 #endif
-- 
2.43.0


From 29b0cd9fca30287dbc0811c9298db69f94ca511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 08/45] fix: condition on a classical register compared bits by
 their position in the circuit

---
 qdd/qdd_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 269829b..68ee13c 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -718,9 +718,9 @@ class QddBackend(BackendV1):
                         if val_cbit[self.get_cID(classical)] != str(int(val)):
                             skip = True
                     else:
-                        for clbit in classical:
+                        for bit, clbit in enumerate(classical):
                             idx = self.get_cID(clbit)
-                            if val_cbit[idx] != str((val >> idx) & 1):
+                            if val_cbit[idx] != str((val >> bit) & 1):
                                 skip = True
                                 break
                 if skip:
-- 
2.43.0


From 90440c19cc2c6a5518f247d8ebc8b56309322d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 09/45] fix: conditional measurements were executed
 unconditionally

---
 qdd/qdd_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 68ee13c..57081ee 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1098,6 +1098,8 @@ class QddBackend(BackendV1):
                 # (Multi-target measurements (Measure([...], [...]) is decomposed to single-target measurement gates.)
                 clbit_final_values[cargs[0]] = qargs[0]
                 measured_qubits |= set(qargs)
+                if inst.condition is not None:
+                    stable_final_state = False
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From 226d20a44ea5f0d1fe6bd5717c29f017eba1c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 10/45] fix: shots=None reported probabilities of qubits
 instead of the measured clbits

---
 qdd/qdd_backend.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 57081ee..b267011 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1019,8 +1019,18 @@ class QddBackend(BackendV1):
                         else:
                             prob[i] *= prob_cbit[j]
             probabilities = {}
-            for i, p in enumerate(prob):
-                probabilities[i] = p
+            if circ_prop.stable_final_state and circ_prop.clbit_final_values:
+                # 'prob' is indexed by qubits; marginalize it to the measured clbits.
+                bit_map = [
+                    (self.get_qID(qubit), self.get_cID(cbit))
+                    for cbit, qubit in circ_prop.clbit_final_values.items()
+                ]
+                for i, p in enumerate(prob):
+                    key = sum(((i >> q) & 1) << c for q, c in bit_map)
+                    probabilities[key] = probabilities.get(key, 0) + p
+            else:
+                for i, p in enumerate(prob):
+                    probabilities[i] = p
             result_data: Dict[str, Any] = {"probabilities": probabilities}
             if self._save_SV:
                 result_data["statevector"] = (
-- 
2.43.0


From 716aa407bd66ab94231387b6fcad85eba6ea0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 11/45] fix: shots=None reported clbits that are never measured
 as 1

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index b267011..a13e10a 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -698,7 +698,7 @@ class QddBackend(BackendV1):
         if circ_prop.stable_final_state == False and isinstance(options["shots"], int):
             reps = options["shots"]
 
-        prob_cbit = [0] * n_cbit
+        prob_cbit = [1] * n_cbit  # for each clbit, the probability of being 0
         for shot in range(reps):
             global_set, local_set = self.get_initial_qmap(circ.num_qubits, size_global)
             global_list = sorted(list(global_set))
-- 
2.43.0


From f0effecacd8d66ffc4c3f0a737093fe28089c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 12/45] fix: seed_simulator (and seed of the primitives) was
 accepted but ignored

---
 qdd/bindings.cpp   | 8 ++++++++
 qdd/qdd_backend.py | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index b916f42..9fc06b0 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -200,6 +200,13 @@ int init_mt(int n = 8) {
 }
 #endif
 
+void _set_seed(uint64_t seed) {
+#ifdef isMPI
+    seed += boost::mpi::communicator().rank();
+#endif
+    mt.seed(seed);
+}
+
 std::vector<double> _probabilities(const vEdge &rootEdge) {
     std::vector<double> result = probabilities(rootEdge);
     return result;
@@ -281,6 +288,7 @@ PYBIND11_MODULE(pyQDD, m) {
     m.def("getVector", _getVector);
     m.def("probabilities", _probabilities);
     m.def("measureOne", _measureOne);
+    m.def("set_seed", _set_seed);
 
     // Others
     m.def("genDot", py::overload_cast<vEdge &>(&genDot))
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index a13e10a..a8ed40b 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -376,6 +376,9 @@ class QddBackend(BackendV1):
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
 
+        if experiments.options["seed_simulator"] is not None:
+            pyQDD.set_seed(experiments.options["seed_simulator"])
+
         results = [
             self._evaluate_circuit(circ, circ_prop, experiments.options)
             for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
-- 
2.43.0


From 6f3408d61253be782282d4ed12817446cc15941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 13/45] fix: Sampler failed when a parametric circuit is given
 twice in a run

---
 qdd/qdd_sampler.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 2a2ec1d..f2b0924 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -206,15 +206,11 @@ class _ExperimentManager:
         experiment_circuit: QuantumCircuit,
     ):
         """append experiments"""
-        if parameter_bind and key in self.keys:
-            key_index = self.keys.index(key)
-            for k, vs in self.parameter_binds[key_index].items():
-                vs.append(parameter_bind[k])
-            self._input_indices[key_index].append(self._num_experiment)
-        else:
-            self.experiment_circuits.append(experiment_circuit)
-            self.keys.append(key)
-            self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
-            self._input_indices.append([self._num_experiment])
+        # QddBackend binds one set of values per circuit; so, a circuit given several times with
+        # different values makes several experiments.
+        self.experiment_circuits.append(experiment_circuit)
+        self.keys.append(key)
+        self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
+        self._input_indices.append([self._num_experiment])
 
         self._num_experiment += 1
-- 
2.43.0


From fbe98f029bb8d7dfcda0496f1d101d312c252c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 14/45] fix: Estimator(approximation=True) without run_options
 raised TypeError

---
 qdd/qdd_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 936c456..6da791a 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -113,7 +113,7 @@ class Estimator(BaseEstimator):
         if transpile_options is not None:
             self._transpile_options.update_options(**transpile_options)
         self._approximation = approximation
-        if self._approximation and "shots" in run_options:
+        if self._approximation and run_options is not None and "shots" in run_options:
             self._approximation_shots = run_options["shots"]
         else:
             self._approximation_shots = None
-- 
2.43.0


From 0f8de6b70a9b4e5e5c5264463d05d1df10939391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 15/45] fix: Estimator mixed up experiments when observables of
 a circuit use the bases in another order

---
 qdd/qdd_estimator.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 6da791a..193f2e1 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -316,20 +316,13 @@ class Estimator(BaseEstimator):
 
     @staticmethod
     def _flatten(experiments_dict, exp_map):
-        experiments_unsorted = {}
         experiments_list = []
         parameter_binds = []
         for circ_ind in experiments_dict:
-            indices = []
-            for i, (parameters, param_vals) in exp_map[circ_ind].items():
+            for basis_ind, (parameters, param_vals) in exp_map[circ_ind].items():
                 for param_val in param_vals:
-                    experiments_unsorted[i] = experiments_dict[circ_ind][i]
-                    indices.append(i)
-                    parameter_binds.extend(
-                        [{param: param_val[i] for i, param in enumerate(parameters)}]
-                    )
-            for i in sorted(indices):
-                experiments_list.append(experiments_unsorted[i])
+                    experiments_list.append(experiments_dict[circ_ind][basis_ind])
+                    parameter_binds.append(dict(zip(parameters, param_val)))
 
         return experiments_list, parameter_binds
 
@@ -380,7 +373,7 @@ class Estimator(BaseEstimator):
 
         result_index = 0
         for _circ_ind, basis_map in exp_map.items():
-            for _basis_ind, (_, (_, param_vals)) in enumerate(basis_map.items()):
+            for _basis_ind, (_, param_vals) in basis_map.items():
                 if circ_ind == _circ_ind and basis_ind == _basis_ind:
                     result_index += param_vals.index(param_val)
                     return result_index
-- 
2.43.0


From ed229bd1e4128c57ee047b892f57b2aab49db14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 16/45] fix: Estimator failed for identity terms (first of
 several circuits, or without abelian grouping)

---
 qdd/qdd_estimator.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 193f2e1..2e25451 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -214,23 +214,28 @@ class Estimator(BaseEstimator):
                 pauli_list = sum(
                     [self._observables[obs_ind].paulis for obs_ind in obs_indices]
                 ).unique()
-                if self._abelian_grouping:
+                # The identity needs no experiment
+                pauli_list = pauli_list[np.logical_or(pauli_list.x, pauli_list.z).any(axis=1)]
+                if len(pauli_list) == 0:
+                    pauli_lists = []
+                elif self._abelian_grouping:
                     pauli_lists = pauli_list.group_commuting(qubit_wise=True)
                 else:
                     pauli_lists = [PauliList(pauli) for pauli in pauli_list]
                 obs_map = defaultdict(list)
                 for obs_ind in obs_indices:
                     for pauli in self._observables[obs_ind].paulis:
+                        if not pauli.x.any() and not pauli.z.any():  # identity
+                            obs_map[obs_ind].append(None)
+                            continue
                         for basis_ind, pauli_list in enumerate(pauli_lists):
                             if pauli in pauli_list:
                                 obs_map[obs_ind].append(basis_ind)
                                 break
                 obs_maps[circ_ind] = obs_map
                 bases = [_paulis2basis(pauli_list) for pauli_list in pauli_lists]
-                if (
-                    len(bases) == 1 and not bases[0].x.any() and not bases[0].z.any()
-                ):  # identity
-                    break
+                if not bases:  # identity only
+                    continue
                 meas_circuits = [
                     self._create_meas_circuit(basis, circ_ind) for basis in bases
                 ]
@@ -301,6 +306,8 @@ class Estimator(BaseEstimator):
             self._validate_parameter_length(param_val, circ_ind)
             parameter = self._parameters[circ_ind]
             for basis_ind in obs_maps[circ_ind][obs_ind]:
+                if basis_ind is None:  # identity
+                    continue
                 if (
                     circ_ind in exp_map
                     and basis_ind in exp_map[circ_ind]
@@ -318,8 +325,8 @@ class Estimator(BaseEstimator):
     def _flatten(experiments_dict, exp_map):
         experiments_list = []
         parameter_binds = []
-        for circ_ind in experiments_dict:
-            for basis_ind, (parameters, param_vals) in exp_map[circ_ind].items():
+        for circ_ind, basis_map in exp_map.items():
+            for basis_ind, (parameters, param_vals) in basis_map.items():
                 for param_val in param_vals:
                     experiments_list.append(experiments_dict[circ_ind][basis_ind])
                     parameter_binds.append(dict(zip(parameters, param_val)))
-- 
2.43.0


From 4fd052d064d6c2867356a51c4ecf9ed67ec356e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 17/45] fix: open controls (ctrl_state) were evaluated as
 closed controls

---
 qdd/bindings.cpp   | 35 +++++++++++++++++++++++++----------
 qdd/qdd_backend.py | 21 +++++++++++++++++----
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 9fc06b0..a2523c1 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -57,11 +57,14 @@ std::vector<std::complex<double>> _getVector(vEdge &rootEdge) {
     return result;
 }
 
-Controls get_controls(std::vector<Qubit> qs) {
+Controls get_controls(std::vector<Qubit> qs, std::vector<Qubit> neg_qs = {}) {
     Controls controls;
     for (Qubit q : qs) {
         controls.emplace(Control{q, Control::Type::pos});
     }
+    for (Qubit q : neg_qs) {
+        controls.emplace(Control{q, Control::Type::neg});
+    }
     return controls;
 }
 
@@ -70,19 +73,22 @@ mEdge makeGate(QubitCount q, std::string name, Qubit target) {
 }
 
 mEdge makeGate(QubitCount q, GateMatrix m, Qubit target,
-               const std::vector<Qubit> controls) {
-    Controls c = get_controls(controls);
+               const std::vector<Qubit> controls,
+               const std::vector<Qubit> neg_controls) {
+    Controls c = get_controls(controls, neg_controls);
     return makeGate(q, m, target, c);
 }
 
 mEdge makeGate(QubitCount q, std::string name, Qubit target,
-               const std::vector<Qubit> controls) {
-    return makeGate(q, gateMap[name], target, controls);
+               const std::vector<Qubit> controls,
+               const std::vector<Qubit> neg_controls) {
+    return makeGate(q, gateMap[name], target, controls, neg_controls);
 }
 
 mEdge makeTwoQubitGate(QubitCount q, TwoQubitGateMatrix m, Qubit target0,
-                       Qubit target1, const std::vector<Qubit> controls) {
-    Controls c = get_controls(controls);
+                       Qubit target1, const std::vector<Qubit> controls,
+                       const std::vector<Qubit> neg_controls) {
+    Controls c = get_controls(controls, neg_controls);
     return makeTwoQubitGate(q, m, target0, target1, c);
 }
 
@@ -239,12 +245,18 @@ PYBIND11_MODULE(pyQDD, m) {
     m.def("makeGate",
           py::overload_cast<QubitCount, GateMatrix, Qubit>(&makeGate))
         .def("makeGate", py::overload_cast<QubitCount, GateMatrix, Qubit,
-                                           const std::vector<Qubit>>(&makeGate))
+                                           const std::vector<Qubit>,
+                                           const std::vector<Qubit>>(&makeGate),
+             py::arg(), py::arg(), py::arg(), py::arg(),
+             py::arg("neg_controls") = std::vector<Qubit>())
         .def("makeGate",
              py::overload_cast<QubitCount, std::string, Qubit>(&makeGate))
         .def("makeGate",
              py::overload_cast<QubitCount, std::string, Qubit,
-                               const std::vector<Qubit>>(&makeGate));
+                               const std::vector<Qubit>,
+                               const std::vector<Qubit>>(&makeGate),
+             py::arg(), py::arg(), py::arg(), py::arg(),
+             py::arg("neg_controls") = std::vector<Qubit>());
     m.def("RX", RX).def("RY", RY).def("RZ", RZ).def("CX", CX);
     m.def("rxmat", rx)
         .def("rymat", ry)
@@ -261,7 +273,10 @@ PYBIND11_MODULE(pyQDD, m) {
               &makeTwoQubitGate))
         .def("makeTwoQubitGate",
              py::overload_cast<QubitCount, TwoQubitGateMatrix, Qubit, Qubit,
-                               const std::vector<Qubit>>(&makeTwoQubitGate));
+                               const std::vector<Qubit>,
+                               const std::vector<Qubit>>(&makeTwoQubitGate),
+             py::arg(), py::arg(), py::arg(), py::arg(), py::arg(),
+             py::arg("neg_controls") = std::vector<Qubit>());
     m.def("RXX", RXX)
         .def("RYY", RYY)
         .def("RZZ", RZZ)
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index a8ed40b..d752d76 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -118,6 +118,16 @@ _supported_qiskit_gates: Dict = {
 }
 
 
+def _split_controls(gate, controls: List[int]):
+    """Splits control qubits into those that control on 1 and those that control on 0."""
+    ctrl_state = getattr(gate, "ctrl_state", None)
+    if ctrl_state is None:
+        return controls, []
+    pos = [q for j, q in enumerate(controls) if (ctrl_state >> j) & 1]
+    neg = [q for j, q in enumerate(controls) if not (ctrl_state >> j) & 1]
+    return pos, neg
+
+
 @dataclasses.dataclass
 class QddExperiments:
     circs: List[QiskitCircuit]
@@ -463,7 +473,10 @@ class QddBackend(BackendV1):
                             i.params[0], i.params[1], i.params[2], i.params[3]
                         )
                     gate = pyQDD.makeGate(
-                        n_qubit, matrix, self.get_qID(qargs[-1]), controls
+                        n_qubit,
+                        matrix,
+                        self.get_qID(qargs[-1]),
+                        *_split_controls(i, controls),
                     )
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_2q:
@@ -479,7 +492,7 @@ class QddBackend(BackendV1):
                         matrix,
                         self.get_qID(qargs[-1]),
                         self.get_qID(qargs[-2]),
-                        controls,
+                        *_split_controls(i, controls),
                     )
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
@@ -788,7 +801,7 @@ class QddBackend(BackendV1):
                             n_qubit,
                             matrix,
                             map_after_swap[self.get_qID(qargs[-1])],
-                            controls,
+                            *_split_controls(i, controls),
                         )
                         current = (
                             pyQDD.mv_multiply(gate, current)
@@ -828,7 +841,7 @@ class QddBackend(BackendV1):
                             matrix,
                             map_after_swap[self.get_qID(qargs[-1])],
                             map_after_swap[self.get_qID(qargs[-2])],
-                            controls,
+                            *_split_controls(i, controls),
                         )
                         current = (
                             pyQDD.mv_multiply(gate, current)
-- 
2.43.0


From 670db9f212aa14bf1474d7228d0d16d1dd702dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 18/45] fix: merge_circuit failed for UnitaryGate

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index d752d76..8a3fdd8 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -497,7 +497,7 @@ class QddBackend(BackendV1):
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
                     matrix = i.to_matrix()
-                    targets = qargs
+                    targets = [self.get_qID(q) for q in qargs]
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-- 
2.43.0


From 160e64640ede179a344d4ba647685667e968ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 19/45] fix: merge_circuit silently dropped unsupported gates
 and conditions

---
 qdd/qdd_backend.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 8a3fdd8..2c0d074 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -450,6 +450,10 @@ class QddBackend(BackendV1):
             if qiskit_gate_type == Measure:
                 continue
             assert len(cargs) == 0
+            if i.condition is not None:
+                raise RuntimeError(
+                    f"Conditional gates cannot be merged: name={i.name}."
+                )
 
             if qiskit_gate_type in _supported_qiskit_gates:
                 if qiskit_gate_type in _qiskit_gates_1q:
@@ -503,12 +507,12 @@ class QddBackend(BackendV1):
                 elif qiskit_gate_type in _qdd_gate:
                     gate = i.params[0]
                     current = pyQDD.mm_multiply(gate, current)
-                else:
-                    raise RuntimeError(
-                        f"Unsupported gate or instruction:"
-                        f" type={qiskit_gate_type.__name__}, name={i.name}."
-                        f" It needs to transpile the circuit before evaluating it."
-                    )
+            else:
+                raise RuntimeError(
+                    f"Unsupported gate or instruction:"
+                    f" type={qiskit_gate_type.__name__}, name={i.name}."
+                    f" It needs to transpile the circuit before evaluating it."
+                )
 
             count += 1
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
-- 
2.43.0


From 33518ec28fdcf571cea36e28fc76504b6f7f337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 20/45] fix: concurrent Sampler/Estimator jobs corrupted the
 shared decision diagram tables

---
 qdd/qdd_backend.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 2c0d074..8cab3d2 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -2,6 +2,7 @@ from typing import Any, Dict, List, Union
 import traceback
 import os
 import sys
+import threading
 import uuid
 import dataclasses
 from collections import Counter
@@ -118,6 +119,9 @@ _supported_qiskit_gates: Dict = {
 }
 
 
+_run_lock = threading.RLock()
+
+
 def _split_controls(gate, controls: List[int]):
     """Splits control qubits into those that control on 1 and those that control on 0."""
     ctrl_state = getattr(gate, "ctrl_state", None)
@@ -373,13 +377,19 @@ class QddBackend(BackendV1):
         job = QddJob(
             backend=self,
             job_id=job_id,
-            run_exp_fn=self._run_experiment,
+            run_exp_fn=self._run_experiment_exclusively,
             qobj=experiments,
         )
         job.submit()
 
         return job
 
+    def _run_experiment_exclusively(self, experiments, job_id) -> Result:
+        # The primitives run their jobs in threads, but the tables of pyQDD are shared in the process,
+        # and its garbage collection keeps only the state of the circuit being evaluated.
+        with _run_lock:
+            return self._run_experiment(experiments, job_id)
+
     def _run_experiment(self, experiments, job_id) -> Result:
         """Runs the given experiments"""
         if experiments.options["n_threads"] > 1:
-- 
2.43.0


From e87b216d428d2c1c610509ae43b0cfeb0048f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 21/45] verif hook: optional small table sizes
 (QDD_VERIF_NBUCKETS, QDD_VERIF_ALLOC)

---
 include/common.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/common.h b/include/common.h
index 88e95c2..f48f9ec 100644
--- a/include/common.h
+++ b/include/common.h
@@ -26,9 +26,17 @@
 using duration_micro = std::chrono::duration<double, std::micro>;
 
 const std::size_t NQUBITS = 100;
+#ifdef QDD_VERIF_NBUCKETS
+// Verification builds only: small tables make bucket collisions, cache evictions,
+// chunk growth and garbage collections frequent and cheap.
+const std::size_t NBUCKETS = QDD_VERIF_NBUCKETS;
+const std::size_t INITIAL_ALLOCATION_SIZE = QDD_VERIF_ALLOC;
+const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = QDD_VERIF_ALLOC;
+#else
 const std::size_t NBUCKETS = 524288;
 const std::size_t INITIAL_ALLOCATION_SIZE = 1024*2;
 const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = 1024*8;
+#endif
 const std::size_t GROWTH_FACTOR = 2;
 
 using Qubit = int32_t;
-- 
2.43.0


From cdfb7a94bc03ad5ef36846774d85b4101c0e5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 22/45] fix: MT build wrote cache entries of another thread
 after a fiber migrated

A fiber that waits in vv_add2 or mv_multiply2 may be resumed by another
worker (one of seven did in a run with three workers), but it kept the
reference to the operation cache of the thread it started on, so two
threads wrote the same cache without synchronisation.
---
 src/dd.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 5f36f7b..d3b6385 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1202,7 +1202,12 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 #endif
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    // the fiber may have moved to another thread while it waited
+    _aCaches.local().set(lhs, rhs, result);
+#else
     _aCache.set(lhs, rhs, result);
+#endif
 
     return result;
 }
@@ -1478,7 +1483,12 @@ vEdge mv_multiply2(const mEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    // the fiber may have moved to another thread while it waited
+    _mCaches.local().set(lhs.n, rhs.n, result);
+#else
     _mCache.set(lhs.n, rhs.n, result);
+#endif
     result.w = result.w * lhs.w * rhs.w;
     if (result.w.isApproximatelyZero()) {
         return vEdge::zero;
-- 
2.43.0


From 08a37a397ac03a946f38a2c25c61502ba71592cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 23/45] fix: a barrier after a measurement made exact
 probabilities lose correlations

The circuit was treated as one with mid-circuit measurements: with shots=None the result was the
product of the marginals, and the statevector backend returned a collapsed state.
---
 qdd/qdd_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 8cab3d2..c5e6506 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1140,6 +1140,8 @@ class QddBackend(BackendV1):
                 measured_qubits |= set(qargs)
                 if inst.condition is not None:
                     stable_final_state = False
+            elif inst.base_class == Barrier:
+                continue  # a barrier after a measurement changes nothing
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From 513bb4bca86b4c19033a5e01444b99400985eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 24/45] fix: merge_circuit collected matrices of earlier merged
 circuits that are still in use

---
 qdd/bindings.cpp   | 15 +++++++++++++++
 qdd/qdd_backend.py | 10 +++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index a2523c1..f68894e 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -107,6 +107,20 @@ vEdge applyGlobal(vEdge org, double angle){
 }
 
 
+// Collects the matrix nodes that neither 'current' nor the matrices in 'kept' need;
+// the collection moves nodes, so the kept matrices are updated in place.
+mEdge gc_mat_keeping(mEdge current, std::vector<mEdge *> kept, bool force) {
+    std::vector<mEdge> mats{current};
+    for (mEdge *m : kept) {
+        mats.push_back(*m);
+    }
+    mats = gc_mat(mats, force);
+    for (std::size_t i = 0; i < kept.size(); i++) {
+        *kept[i] = mats[i + 1];
+    }
+    return mats[0];
+}
+
 #ifdef isMPI
 
 boost::mpi::communicator _world;
@@ -237,6 +251,7 @@ PYBIND11_MODULE(pyQDD, m) {
         .def("gc", py::overload_cast<vEdge, bool>(&gc))
         .def("gc_mat", py::overload_cast<std::vector<mEdge>, bool>(&gc_mat))
         .def("gc_mat", py::overload_cast<mEdge, bool>(&gc_mat))
+        .def("gc_mat_keeping", gc_mat_keeping)
         .def("set_gc_thr", set_gc_thr);
     m.def("applyGlobal", py::overload_cast<mEdge, double>(&applyGlobal))
      .def("applyGlobal", py::overload_cast<vEdge, double>(&applyGlobal));
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index c5e6506..f2ee1a0 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -4,6 +4,7 @@ import os
 import sys
 import threading
 import uuid
+import weakref
 import dataclasses
 from collections import Counter
 from warnings import warn
@@ -121,6 +122,10 @@ _supported_qiskit_gates: Dict = {
 
 _run_lock = threading.RLock()
 
+# The matrices returned by merge_circuit that are still in use (e.g. in a QDDGate);
+# a later merge must not collect them.
+_merged_matrices = weakref.WeakSet()
+
 
 def _split_controls(gate, controls: List[int]):
     """Splits control qubits into those that control on 1 and those that control on 0."""
@@ -528,9 +533,12 @@ class QddBackend(BackendV1):
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
                 print(count,"/",len(circ.data))
             if count%gc_freq==0:
-                current = pyQDD.gc_mat(current, False)
+                current = pyQDD.gc_mat_keeping(
+                    current, list(_merged_matrices), False
+                )
             # pyQDD.clear_cache(False)
         current = pyQDD.applyGlobal(current, circ.global_phase)
+        _merged_matrices.add(current)
         return current
 
     def get_initial_qmap(self, num_qubits, size_global):
-- 
2.43.0


From df2e565ba41cefa43363912fd7526e64fea7680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 25/45] fix: keep the global phase and the identity of bits
 when a circuit is sent to the other MPI processes

---
 qdd/qdd_backend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index f2ee1a0..df7c1b4 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -705,8 +705,12 @@ class QddBackend(BackendV1):
         if use_mpi:
             from mpi4py import MPI
 
-            circ = MPI.COMM_WORLD.bcast(circ, root=0)
-            circ_prop = MPI.COMM_WORLD.bcast(circ_prop, root=0)
+            # Sent together, so that the bits in 'circ_prop' are the ones of 'circ';
+            # pickling a circuit drops its global phase.
+            circ, circ_prop, global_phase = MPI.COMM_WORLD.bcast(
+                (circ, circ_prop, circ.global_phase), root=0
+            )
+            circ.global_phase = global_phase
             if pow(2, circ.num_qubits) <= MPI.COMM_WORLD.Get_size():
                 print("ERROR: Too many nodes for MPI")
                 assert pow(2, circ.num_qubits) > MPI.COMM_WORLD.Get_size()
-- 
2.43.0


From 3883c5ab911b0610559cf8e0c399d3526cf4a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 26/45] fix: let several Schedulers follow one another in a
 process, and let ~Scheduler not miss a worker that is about to wait

---
 include/task.h | 25 +++++++++++++++++++-----
 src/task.cpp   | 52 ++++++++++++++++++++++++++++----------------------
 2 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/include/task.h b/include/task.h
index 36ab95e..4f90e60 100644
--- a/include/task.h
+++ b/include/task.h
@@ -7,9 +7,11 @@
 #include <boost/fiber/mutex.hpp>
 #include <boost/fiber/condition_variable.hpp>
 #include <boost/fiber/algo/algorithm.hpp>
+#include <boost/fiber/detail/thread_barrier.hpp>
 #include "wsq.hpp"
 #include <thread>
 #include <atomic>
+#include <memory>
 #include <vector>
 #include "dd.h"
 #include "table.hpp"
@@ -21,10 +23,11 @@ namespace boost{
 namespace fibers{
 namespace algo{
 
+struct ws_group;
+
 class my_ws : public algorithm {
 private:
-    static std::atomic< std::uint32_t >                     counter_;
-    static std::vector< intrusive_ptr< my_ws > >    schedulers_;
+    std::shared_ptr< ws_group >                             group_;
 
     std::uint32_t                                           id_;
     std::uint32_t                                           thread_count_;
@@ -41,11 +44,9 @@ private:
     bool                                                    flag_{ false };
     bool                                                    suspend_;
 
-    static void init_( std::uint32_t, std::vector< intrusive_ptr< my_ws > > &);
-
 public:
 
-    my_ws( std::uint32_t, bool = false);
+    my_ws( std::shared_ptr< ws_group >, bool = false);
 
     my_ws( my_ws const&) = delete;
     my_ws( my_ws &&) = delete;
@@ -77,6 +78,16 @@ public:
 
     void notify() noexcept override;
 };
+
+// What the threads of one Scheduler share.
+struct ws_group {
+    explicit ws_group( std::uint32_t thread_count)
+        : schedulers( thread_count), barrier( thread_count) {}
+
+    std::atomic< std::uint32_t >                            counter{ 0 };
+    std::vector< intrusive_ptr< my_ws > >                   schedulers;
+    boost::fibers::detail::thread_barrier                   barrier;
+};
 }}}
 
 struct WorkerThread{
@@ -98,6 +109,10 @@ private:
 
     std::vector<WorkerThread> _workers;
 
+    std::shared_ptr<boost::fibers::algo::ws_group> _group;
+    const std::thread::id _owner;
+
+    bool stop = false;
     boost::fibers::condition_variable_any cond_stop;
     boost::fibers::mutex mtx_stop;
 };
diff --git a/src/task.cpp b/src/task.cpp
index fb776a6..a53b1be 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -10,6 +10,7 @@
 #include <random>
 #include <table.hpp>
 
+#include "boost/fiber/algo/round_robin.hpp"
 #include "boost/fiber/detail/thread_barrier.hpp"
 #include "boost/fiber/type.hpp"
 #include "task.h"
@@ -20,24 +21,14 @@ namespace boost {
 namespace fibers {
 namespace algo {
 
-std::atomic<std::uint32_t> my_ws::counter_{0};
-std::vector<intrusive_ptr<my_ws>> my_ws::schedulers_{};
-
-void my_ws::init_(std::uint32_t thread_count,
-                  std::vector<intrusive_ptr<my_ws>> &schedulers) {
-    // resize array of schedulers to thread_count, initilized with nullptr
-    std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers);
-}
-
-my_ws::my_ws(std::uint32_t thread_count, bool suspend)
-    : id_{counter_++}, thread_count_{thread_count}, suspend_{suspend} {
-    static boost::fibers::detail::thread_barrier b{thread_count};
-    // initialize the array of schedulers
-    static std::once_flag flag;
-    std::call_once(flag, &my_ws::init_, thread_count_, std::ref(schedulers_));
+my_ws::my_ws(std::shared_ptr<ws_group> group, bool suspend)
+    : group_{std::move(group)},
+      id_{group_->counter++},
+      thread_count_{static_cast<std::uint32_t>(group_->schedulers.size())},
+      suspend_{suspend} {
     // register pointer of this scheduler
-    schedulers_[id_] = this;
-    b.wait();
+    group_->schedulers[id_] = this;
+    group_->barrier.wait();
 }
 
 void my_ws::awakened(context *ctx) noexcept {
@@ -60,7 +51,7 @@ context *my_ws::pick_next() noexcept {
         }
     } else {
         std::uint32_t id = 0;
-        std::size_t count = 0, size = schedulers_.size();
+        std::size_t count = 0, size = group_->schedulers.size();
         static thread_local std::minstd_rand generator{std::random_device{}()};
         std::uniform_int_distribution<std::uint32_t> distribution{
             0, static_cast<std::uint32_t>(thread_count_ - 1)};
@@ -73,7 +64,7 @@ context *my_ws::pick_next() noexcept {
                 // prevent stealing from own scheduler
             } while (id == id_);
             // steal context from other scheduler
-            victim = schedulers_[id]->steal();
+            victim = group_->schedulers[id]->steal();
         } while (nullptr == victim && count < size);
         if (nullptr != victim) {
             boost::context::detail::prefetch_range(victim, sizeof(context));
@@ -120,10 +111,10 @@ void Scheduler::spawn() {
         _workers[i]._thread = new std::thread(
             [this](int id) {
                 boost::fibers::use_scheduling_algorithm<
-                    boost::fibers::algo::my_ws>(this->_nworkers + 1);
+                    boost::fibers::algo::my_ws>(this->_group);
                 {
                     std::unique_lock<boost::fibers::mutex> lk(this->mtx_stop);
-                    this->cond_stop.wait(lk);
+                    this->cond_stop.wait(lk, [this]() { return this->stop; });
                 }
             },
             i);
@@ -143,10 +134,13 @@ void Scheduler::spawn() {
 #endif
 
     boost::fibers::use_scheduling_algorithm<boost::fibers::algo::my_ws>(
-        this->_nworkers + 1);
+        this->_group);
 }
 
-Scheduler::Scheduler(int n) : _nworkers(n) {
+Scheduler::Scheduler(int n)
+    : _nworkers(n),
+      _group(std::make_shared<boost::fibers::algo::ws_group>(n + 1)),
+      _owner(std::this_thread::get_id()) {
     for (int i = 0; i < _nworkers; i++) {
         _workers.emplace_back(WorkerThread());
     }
@@ -154,9 +148,21 @@ Scheduler::Scheduler(int n) : _nworkers(n) {
 }
 
 Scheduler::~Scheduler() {
+    {
+        std::unique_lock<boost::fibers::mutex> lk(mtx_stop);
+        stop = true;
+    }
     cond_stop.notify_all();
 
     for (WorkerThread &w : _workers) {
         w._thread->join();
+        delete w._thread;
+    }
+
+    // the workers are gone: their queues must not be asked for work any more
+    if (std::this_thread::get_id() == _owner) {
+        boost::fibers::use_scheduling_algorithm<
+            boost::fibers::algo::round_robin>();
+        _group->schedulers.clear();
     }
 }
-- 
2.43.0


From 0c9786edd81d826804e3f4817f354aba528135b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 27/45] fix: do not end the process when a worker thread cannot
 be pinned to a processor

---
 src/task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task.cpp b/src/task.cpp
index a53b1be..67a0221 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -127,8 +127,8 @@ void Scheduler::spawn() {
         CPU_SET(i, &cpuset);
         if (pthread_setaffinity_np(_workers[i]._thread->native_handle(),
                                    sizeof(cpu_set_t), &cpuset)) {
-            std::cout << "pthread_setaffinity_np failed" << std::endl;
-            exit(1);
+            // more workers than processors, or not all may be used: go unpinned
+            break;
         }
     }
 #endif
-- 
2.43.0


From 0b57965bd94e1cc195026c851159db91f26f9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 28/45] fix: genDot aborted the process when the matrix is a
 (multiple of the) identity

---
 src/dd.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index d3b6385..f880f1b 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2179,7 +2179,9 @@ void genDot2(mNode *node, std::vector<std::string> &result, int depth,
 }
 
 std::string genDot(mEdge &rootEdge) {
-    assert(!rootEdge.isTerminal());
+    if (rootEdge.isTerminal()) {
+        return "";
+    }
     std::vector<std::string> result;
     std::unordered_set<mNode *> done;
     genDot2(rootEdge.n, result, 0, done);
-- 
2.43.0


From f223020d08fa176d30f7800f16f8663dc1597075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 29/45] fix: Sampler and Estimator took circuits that differ
 only in classical conditions for the same circuit

---
 qdd/qdd_backend.py   | 16 ++++++++++++++++
 qdd/qdd_estimator.py |  3 ++-
 qdd/qdd_sampler.py   |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index df7c1b4..3b067d7 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -13,6 +13,7 @@ import time
 from qiskit.providers import BackendV1, JobV1, Options, Provider
 from qiskit.providers.models import BackendConfiguration
 from qiskit import QuantumCircuit as QiskitCircuit
+from qiskit.primitives.utils import _circuit_key as _qiskit_circuit_key
 from qiskit.result import Result
 from qiskit.circuit import Barrier, Clbit, Measure, Qubit, Reset
 import qiskit.circuit.library as qiskit_gates
@@ -127,6 +128,21 @@ _run_lock = threading.RLock()
 _merged_matrices = weakref.WeakSet()
 
 
+def _circuit_key(circuit: QiskitCircuit) -> tuple:
+    """The key by which the primitives recognize a circuit.
+
+    Qiskit's key does not tell apart circuits that differ only in classical conditions."""
+    conditions = []
+    for instruction in circuit.data:
+        condition = getattr(instruction.operation, "condition", None)
+        if isinstance(condition, tuple):
+            target, value = condition
+            bits = [target] if isinstance(target, Clbit) else list(target)
+            condition = (tuple(circuit.find_bit(bit).index for bit in bits), int(value))
+        conditions.append(condition)
+    return (_qiskit_circuit_key(circuit), tuple(conditions))
+
+
 def _split_controls(gate, controls: List[int]):
     """Splits control qubits into those that control on 1 and those that control on 0."""
     ctrl_state = getattr(gate, "ctrl_state", None)
diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 2e25451..b1cfcb0 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -28,7 +28,7 @@ from qiskit.circuit import ParameterExpression, QuantumCircuit
 from qiskit.compiler import transpile
 from qiskit.primitives import BaseEstimator, EstimatorResult
 from qiskit.primitives.primitive_job import PrimitiveJob
-from qiskit.primitives.utils import _circuit_key, _observable_key, init_observable
+from qiskit.primitives.utils import _observable_key, init_observable
 from qiskit.providers import Options, convert_to_target
 from qiskit.quantum_info import Pauli, PauliList
 from qiskit.quantum_info.operators.base_operator import BaseOperator
@@ -44,6 +44,7 @@ from qiskit.transpiler.passes import (
 )
 
 from qdd import QddProvider
+from qdd.qdd_backend import _circuit_key
 
 
 class Estimator(BaseEstimator):
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index f2b0924..44518c5 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -30,6 +30,7 @@ from qiskit.primitives.utils import final_measurement_mapping, init_circuit
 from qiskit.result import QuasiDistribution
 
 from qdd import QddProvider
+from qdd.qdd_backend import _circuit_key
 
 
 class Sampler(BaseSampler):
@@ -151,7 +152,6 @@ class Sampler(BaseSampler):
         from typing import List
 
         from qiskit.primitives.primitive_job import PrimitiveJob
-        from qiskit.primitives.utils import _circuit_key
 
         circuit_indices: List[int] = []
         for circuit in circuits:
-- 
2.43.0


From 72bc7877988b0b484afbcca83437c9da9d3e3b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 30/45] fix: Sampler and Estimator used circuits and
 observables the caller had changed after an earlier run

---
 qdd/qdd_estimator.py | 5 +++--
 qdd/qdd_sampler.py   | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index b1cfcb0..de1b564 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -154,7 +154,8 @@ class Estimator(BaseEstimator):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                # a copy, since the caller may change the circuit after this call
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         observable_indices: list = []
         for observable in observables:
@@ -167,7 +168,7 @@ class Estimator(BaseEstimator):
                 self._observable_ids[_observable_key(observable)] = len(
                     self._observables
                 )
-                self._observables.append(observable)
+                self._observables.append(observable.copy())
         job = PrimitiveJob(
             self._call,
             circuit_indices,
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 44518c5..49095c5 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -161,7 +161,8 @@ class Sampler(BaseSampler):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                # a copy, since the caller may change the circuit after this call
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         job = PrimitiveJob(self._call, circuit_indices, parameter_values, **run_options)
         job._submit()
-- 
2.43.0


From 7075602821e7c4723292cb1aad0c6df38758f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 31/45] fix: Estimator removed measurements that classical
 conditions depend on

---
 qdd/qdd_estimator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index de1b564..5420366 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -466,7 +466,15 @@ class Estimator(BaseEstimator):
                 circuit = self._transpile(circuit)
                 bit_map = {bit: index for index, bit in enumerate(circuit.qubits)}
                 layout = [bit_map[qr[0]] for _, qr, _ in circuit[-num_qubits:]]
-                circuit.remove_final_measurements()
+                if any(
+                    getattr(inst.operation, "condition", None) is not None
+                    for inst in circuit.data
+                ):
+                    # remove_final_measurements() would also remove measurements whose
+                    # outcomes are needed by conditions
+                    del circuit.data[-num_qubits:]
+                else:
+                    circuit.remove_final_measurements()
                 self._transpiled_circuits[i] = circuit
                 self._layouts[i] = layout
 
-- 
2.43.0


From 1db38b361a1a5004c256ab1b2450fe4e3506beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 32/45] fix: Sampler and Estimator failed when the transpiler
 had removed a parameter

---
 qdd/qdd_estimator.py | 9 +++++++--
 qdd/qdd_sampler.py   | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 5420366..f962df0 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -329,9 +329,14 @@ class Estimator(BaseEstimator):
         parameter_binds = []
         for circ_ind, basis_map in exp_map.items():
             for basis_ind, (parameters, param_vals) in basis_map.items():
+                experiment = experiments_dict[circ_ind][basis_ind]
+                # the transpiler removes gates without effect, and so possibly parameters
+                remaining = experiment.parameters
                 for param_val in param_vals:
-                    experiments_list.append(experiments_dict[circ_ind][basis_ind])
-                    parameter_binds.append(dict(zip(parameters, param_val)))
+                    experiments_list.append(experiment)
+                    parameter_binds.append(
+                        {p: v for p, v in zip(parameters, param_val) if p in remaining}
+                    )
 
         return experiments_list, parameter_binds
 
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 49095c5..ff7a6a3 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -104,9 +104,13 @@ class Sampler(BaseSampler):
                     f"the number of parameters ({len(self._parameters[i])})."
                 )
 
+            # the transpiler removes gates without effect, and so possibly parameters
+            remaining = self._transpiled_circuits[i].parameters
             experiment_manager.append(
                 key=i,
-                parameter_bind=dict(zip(self._parameters[i], value)),
+                parameter_bind={
+                    p: v for p, v in zip(self._parameters[i], value) if p in remaining
+                },
                 experiment_circuit=self._transpiled_circuits[i],
             )
 
-- 
2.43.0


From 39983988a9d87fca5a2f19cf8fe69d1c86f35550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 33/45] fix: exporting vectors and matrices of 32 or more
 qubits wrote past the end of a too small array

---
 src/dd.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index f880f1b..103a95c 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1,5 +1,6 @@
 #include "dd.h"
 
+#include <stdexcept>
 #include <math.h>
 
 #include <algorithm>
@@ -182,9 +183,17 @@ bool mEdge::isTerminal() const { return n == mNode::terminal; }
 
 bool vEdge::isTerminal() const { return n == vNode::terminal; }
 
+// the number of entries of a dense vector, or of rows of a dense matrix
+static std::size_t denseDimension(Qubit nQubits) {
+    if (nQubits > 59) {
+        throw std::length_error("too many qubits for a dense vector or matrix");
+    }
+    return std::size_t(1) << nQubits;
+}
+
 static void fillMatrix(const mEdge &edge, size_t row, size_t col,
                        const std_complex &w, uint64_t dim, std_complex **m) {
-    if ( (1 << (edge.getVar()+1)) == dim) {
+    if ( (uint64_t(1) << (edge.getVar()+1)) == dim) {
         std_complex wp = edge.w * w;
 
         if (edge.isTerminal()) {
@@ -215,7 +224,7 @@ void mEdge::printMatrix(Qubit nQubits) const {
     if(nQubits==-1){
         nQubits = this->getVar() + 1;
     }
-    std::size_t dim = 1 << nQubits;
+    std::size_t dim = denseDimension(nQubits);
 
     std_complex **matrix = new std_complex *[dim];
     for (std::size_t i = 0; i < dim; i++) matrix[i] = new std_complex[dim];
@@ -240,7 +249,7 @@ std_complex **mEdge::getMatrix(std::size_t *dim, Qubit nQubits) const {
     if(nQubits==-1){
         nQubits = this->getVar() + 1;
     }
-    std::size_t d = 1 << nQubits;
+    std::size_t d = denseDimension(nQubits);
 
     std_complex **matrix = new std_complex *[d];
     for (std::size_t i = 0; i < d; i++) matrix[i] = new std_complex[d];
@@ -1084,7 +1093,7 @@ static void printVector2(const vEdge &edge, std::size_t row,
     } else if (edge.isTerminal()) {
         row = row << left;
 
-        for (std::size_t i = 0; i < (1 << left); i++) {
+        for (std::size_t i = 0; i < (std::size_t(1) << left); i++) {
             m[row | i] = wp;
         }
         return;
@@ -1258,7 +1267,7 @@ void vEdge::printVector() const {
         return;
     }
     Qubit q = this->getVar();
-    std::size_t dim = 1 << (q + 1);
+    std::size_t dim = denseDimension(q + 1);
 
     std_complex *vector = new std_complex[dim];
 
@@ -1280,7 +1289,7 @@ void vEdge::printVectorMPI(bmpi::communicator &world) const {
         ss << "(all 0)" << std::endl;
     } else {
         Qubit q = this->getVar();
-        std::size_t dim = 1 << (q + 1);
+        std::size_t dim = denseDimension(q + 1);
         std_complex *vector = new std_complex[dim];
         printVector2(*this, 0, {1.0, 0.0}, q + 1, vector);
         for (size_t i = 0; i < dim; i++) {
@@ -1316,7 +1325,7 @@ static void printVector_sparse2(const vEdge &edge, std::size_t row,
     } else if (edge.isTerminal()) {
         if (norm(wp) > thr) {
             row = row << left;
-            for (std::size_t i = 0; i < (1 << left); i++) {
+            for (std::size_t i = 0; i < (std::size_t(1) << left); i++) {
                 m[row | i] = wp;
             }
         }
@@ -1356,7 +1365,7 @@ static void fillVector(const vEdge &edge, std::size_t row, const std_complex &w,
     } else if (edge.isTerminal()) {
         row = row << left;
 
-        for (std::size_t i = 0; i < (1 << left); i++) {
+        for (std::size_t i = 0; i < (std::size_t(1) << left); i++) {
             m[row | i] = wp;
         }
         return;
@@ -1371,7 +1380,7 @@ std_complex *vEdge::getVector(std::size_t *dim) const {
     assert(!this->isTerminal());
 
     Qubit q = this->getVar();
-    std::size_t d = 1 << (q + 1);
+    std::size_t d = denseDimension(q + 1);
 
     std_complex *vector = new std_complex[d];
     fillVector(*this, 0, {1.0, 0.0}, q + 1, vector);
-- 
2.43.0


From 9cd71c991d9b86da7f3ff215aed2ab7e980b1c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 34/45] fix: bad shot numbers given by set_options were
 accepted

---
 qdd/qdd_backend.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 3b067d7..015275c 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1210,15 +1210,14 @@ class QddBackend(BackendV1):
         """Checks whether the given options are valid to run with (e.g., shots < max_shots)."""
 
         # Check if invalid options (i.e., causing errors) are specified
-        if "shots" in run_options:
-            shots = run_options["shots"]
-            if shots is not None:
-                max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
-                if not (0 < shots <= max_shots):
-                    raise RuntimeError(
-                        f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
-                        f" when using {QddBackend.__name__}."
-                    )
+        shots = run_options.get("shots", self.options.shots)
+        if shots is not None:
+            max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
+            if not (0 < shots <= max_shots):
+                raise RuntimeError(
+                    f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
+                    f" when using {QddBackend.__name__}."
+                )
 
         # Warn if unsupported options are specified
         # Note: we cannot raise an error here because some Qiskit functions (e.g., execute(...)) adds some options to
-- 
2.43.0


From 1c34f7daa06d822c0390bf4fac3e3b8657a42526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 35/45] fix: circuits without a parameter binding of their own
 were silently left out of the result

---
 qdd/qdd_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 015275c..70efd2c 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -377,6 +377,11 @@ class QddBackend(BackendV1):
         if ("parameter_binds" in run_options) and (
             run_options["parameter_binds"] is not None
         ):
+            if len(run_options["parameter_binds"]) != len(qiskit_circs):
+                raise RuntimeError(
+                    f"{len(run_options['parameter_binds'])} parameter bindings are specified"
+                    f" for {len(qiskit_circs)} circuits."
+                )
             param_bound_qiskit_circs = []
             for qiskit_circ, binds in zip(qiskit_circs, run_options["parameter_binds"]):
                 param_bound_qiskit_circs.append(qiskit_circ.assign_parameters(binds))
-- 
2.43.0


From 2c459dee46a42ed940ec293d9d7247f9ee171ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:38 +0000
Subject: [PATCH 36/45] fix: an identity as last term made the Estimator's
 metadata lose the shots

---
 qdd/qdd_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index f962df0..c1895ee 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -514,6 +514,7 @@ class _PostProcessing:
         combined_var = 0.0
         simulator_metadata = []
         if self._approximation:
+            shots = 0
             for c_i, paulis, coeffs in zip(
                 self._result_indices, self._paulis, self._coeffs
             ):
@@ -522,7 +523,6 @@ class _PostProcessing:
                     expvals, variances = np.array([1], dtype=complex), np.array(
                         [0], dtype=complex
                     )
-                    shots = 0
                 else:
                     result = results[c_i]
                     probabilities = result.data.probabilities
@@ -553,6 +553,7 @@ class _PostProcessing:
                     "simulator_metadata": simulator_metadata,
                 }
         else:
+            shots = None
             for c_i, paulis, coeffs in zip(
                 self._result_indices, self._paulis, self._coeffs
             ):
@@ -561,7 +562,6 @@ class _PostProcessing:
                     expvals, variances = np.array([1], dtype=complex), np.array(
                         [0], dtype=complex
                     )
-                    shots = None
                 else:
                     result = results[c_i]
                     count = result.data.counts
-- 
2.43.0


From a3fa0ad8beea4c254cdbaf2c0a95576c3524d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 37/45] fix: runs without a seed repeated the shots that
 followed an earlier seeded run

---
 qdd/qdd_backend.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 70efd2c..09e8a63 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1,6 +1,7 @@
 from typing import Any, Dict, List, Union
 import traceback
 import os
+import secrets
 import sys
 import threading
 import uuid
@@ -425,10 +426,15 @@ class QddBackend(BackendV1):
         if experiments.options["seed_simulator"] is not None:
             pyQDD.set_seed(experiments.options["seed_simulator"])
 
-        results = [
-            self._evaluate_circuit(circ, circ_prop, experiments.options)
-            for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
-        ]
+        try:
+            results = [
+                self._evaluate_circuit(circ, circ_prop, experiments.options)
+                for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
+            ]
+        finally:
+            if experiments.options["seed_simulator"] is not None:
+                # later runs without a seed must not depend on the seed of this one
+                pyQDD.set_seed(secrets.randbits(64))
 
         result = Result.from_dict(
             {
-- 
2.43.0


From 5114c33b028b55facff95a2e1d1228f377038b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:49 +0000
Subject: [PATCH 38/45] fix: merge_circuit calls from several threads crashed
 the process

---
 qdd/qdd_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 09e8a63..4425225 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -477,6 +477,11 @@ class QddBackend(BackendV1):
         return self.cbitmap[cbit]
 
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
+        # see _run_experiment_exclusively
+        with _run_lock:
+            return self._merge_circuit(circ, gc_freq)
+
+    def _merge_circuit(self, circ: QiskitCircuit, gc_freq):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
         self._create_qubitmap(circ)
-- 
2.43.0


From 80fea7bebf7cddaed279ec549e0e99524d6d649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 39/45] fix: the Sampler failed when shots=None was given in
 its backend options

---
 qdd/qdd_sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index ff7a6a3..3b007e4 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -93,7 +93,9 @@ class Sampler(BaseSampler):
         if seed is not None:
             run_options.setdefault("seed_simulator", seed)
 
-        is_shots_none = "shots" in run_options and run_options["shots"] is None
+        is_shots_none = (
+            run_options.get("shots", self._backend.options.shots) is None
+        )
         self._transpile(circuits)
 
         experiment_manager = _ExperimentManager()
-- 
2.43.0


From 427b59c33afaf76e1352201c1c5bba2a81ad9304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:33 +0000
Subject: [PATCH 40/45] fix: Estimator(approximation=True) ignored the shots
 given to run() or set_options()

---
 qdd/qdd_estimator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index c1895ee..09bca6e 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -114,10 +114,6 @@ class Estimator(BaseEstimator):
         if transpile_options is not None:
             self._transpile_options.update_options(**transpile_options)
         self._approximation = approximation
-        if self._approximation and run_options is not None and "shots" in run_options:
-            self._approximation_shots = run_options["shots"]
-        else:
-            self._approximation_shots = None
         self._skip_transpilation = skip_transpilation
         self._cache: dict[tuple[tuple[int], tuple[int], bool], tuple[dict, dict]] = {}
         self._transpiled_circuits: dict[int, QuantumCircuit] = {}
@@ -181,6 +177,9 @@ class Estimator(BaseEstimator):
 
     def _compute(self, circuits, observables, parameter_values, run_options, seed):
 
+        # the shots of this run, or else those given when this object was created
+        approximation_shots = run_options.get("shots") if self._approximation else None
+
         # Key for cache
         key = (tuple(circuits), tuple(observables), self._approximation)
 
@@ -198,7 +197,7 @@ class Estimator(BaseEstimator):
                 obs_maps,
                 exp_map,
                 self._approximation,
-                self._approximation_shots,
+                approximation_shots,
                 seed,
             )
         else:
@@ -264,7 +263,7 @@ class Estimator(BaseEstimator):
                 obs_maps,
                 exp_map,
                 self._approximation,
-                self._approximation_shots,
+                approximation_shots,
                 seed,
             )
 
-- 
2.43.0


From 8d5f1e4250b63be63fd1a85a2d8fe86719166aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:07 +0000
Subject: [PATCH 41/45] fix: a failed multi-threaded run left its worker
 threads running

---
 qdd/qdd_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 4425225..f053fde 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -435,6 +435,9 @@ class QddBackend(BackendV1):
             if experiments.options["seed_simulator"] is not None:
                 # later runs without a seed must not depend on the seed of this one
                 pyQDD.set_seed(secrets.randbits(64))
+            if experiments.options["n_threads"] > 1:
+                # a failed run must not leave its threads behind
+                pyQDD.terminateMT()
 
         result = Result.from_dict(
             {
@@ -447,9 +450,6 @@ class QddBackend(BackendV1):
             }
         )
 
-        if experiments.options["n_threads"] > 1:
-            pyQDD.terminateMT()
-
         return result
 
     def _create_qubitmap(self, circ: QiskitCircuit):
-- 
2.43.0


From 822a0a8a529995ff363f3d74776420d4bcb5a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:00 +0000
Subject: [PATCH 42/45] fix: a QDDGate on qubits other than the first ones, in
 order, acted on the wrong qubits

---
 qdd/qdd_backend.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index f053fde..19e123e 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -122,6 +122,22 @@ _supported_qiskit_gates: Dict = {
 }
 
 
+def _merged_gate(n_qubit: int, gate: QDDGate, qubits: List[int]):
+    """Returns the matrix of the gate, which is one on the qubits 0, 1, ..., on the given qubits."""
+    swaps = []
+    position = list(range(n_qubit))
+    for target, qubit in enumerate(qubits):
+        current = position[qubit]
+        if current != target:
+            swaps.append(pyQDD.SWAP(n_qubit, target, current))
+            position[position.index(target)] = current
+            position[qubit] = target
+    matrix = gate.params[0]
+    for swap in reversed(swaps):
+        matrix = pyQDD.mm_multiply(pyQDD.mm_multiply(swap, matrix), swap)
+    return matrix
+
+
 _run_lock = threading.RLock()
 
 # The matrices returned by merge_circuit that are still in use (e.g. in a QDDGate);
@@ -552,7 +568,7 @@ class QddBackend(BackendV1):
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-                    gate = i.params[0]
+                    gate = _merged_gate(n_qubit, i, [self.get_qID(q) for q in qargs])
                     current = pyQDD.mm_multiply(gate, current)
             else:
                 raise RuntimeError(
@@ -952,7 +968,7 @@ class QddBackend(BackendV1):
                             )
                         )
                     elif qiskit_gate_type in _qdd_gate:
-                        gate = i.params[0]
+                        gate = _merged_gate(n_qubit, i, [self.get_qID(q) for q in qargs])
                         if use_mpi and use_auto_swap:
                             current, map_after_swap = self.restore_swap(
                                MPI, current, circ, map_after_swap, use_bcast
-- 
2.43.0


From dd3a489aa2ac09f7ef57424f79006377851cdc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:55 +0000
Subject: [PATCH 43/45] fix: circuits with merged gates could not be sent to
 the other MPI processes

---
 qdd/bindings.cpp   | 43 +++++++++++++++++++++++++++++++++++++++++++
 qdd/qdd_backend.py | 14 ++++++++++++++
 2 files changed, 57 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index f68894e..a15c915 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -9,6 +9,7 @@
 #endif
 #include "common.h"
 #include "dd.h"
+#include "table.hpp"
 #ifdef isMT
 #include "task.h"
 #endif
@@ -121,6 +122,46 @@ mEdge gc_mat_keeping(mEdge current, std::vector<mEdge *> kept, bool force) {
     return mats[0];
 }
 
+// A matrix as plain values: its weight and its nodes, with children before parents.
+using MatrixNode = std::tuple<Qubit, std::array<std::complex<double>, 4>,
+                              std::array<int, 4>>;
+
+int mNode_to_vec(mNode *node, std::vector<mContent> &table,
+                 std::unordered_map<mNode *, int> &map);
+mNode *vec_to_mNode(std::vector<mContent> &table, mNodeTable &uniqTable,
+                    bool no_lookup = false);
+
+std::pair<std::complex<double>, std::vector<MatrixNode>>
+dumpMatrix(const mEdge &m) {
+    std::vector<mContent> table;
+    std::unordered_map<mNode *, int> map;
+    mNode_to_vec(m.n, table, map);
+    std::vector<MatrixNode> nodes;
+    for (const mContent &c : table) {
+        std::array<std::complex<double>, 4> w;
+        for (std::size_t i = 0; i < w.size(); i++) {
+            w[i] = {c.w[i].r, c.w[i].i};
+        }
+        nodes.emplace_back(c.v, w, c.index);
+    }
+    return {{m.w.r, m.w.i}, nodes};
+}
+
+mEdge loadMatrix(std::complex<double> weight,
+                 const std::vector<MatrixNode> &nodes) {
+    std::vector<mContent> table;
+    for (const auto &[v, w, index] : nodes) {
+        mContent c;
+        c.v = v;
+        for (std::size_t i = 0; i < w.size(); i++) {
+            c.w[i] = {w[i].real(), w[i].imag()};
+        }
+        c.index = index;
+        table.push_back(c);
+    }
+    return {{weight.real(), weight.imag()}, vec_to_mNode(table, mUnique)};
+}
+
 #ifdef isMPI
 
 boost::mpi::communicator _world;
@@ -252,6 +293,8 @@ PYBIND11_MODULE(pyQDD, m) {
         .def("gc_mat", py::overload_cast<std::vector<mEdge>, bool>(&gc_mat))
         .def("gc_mat", py::overload_cast<mEdge, bool>(&gc_mat))
         .def("gc_mat_keeping", gc_mat_keeping)
+        .def("dumpMatrix", dumpMatrix)
+        .def("loadMatrix", loadMatrix)
         .def("set_gc_thr", set_gc_thr);
     m.def("applyGlobal", py::overload_cast<mEdge, double>(&applyGlobal))
      .def("applyGlobal", py::overload_cast<vEdge, double>(&applyGlobal));
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 19e123e..5910ff8 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1,4 +1,5 @@
 from typing import Any, Dict, List, Union
+import copyreg
 import traceback
 import os
 import secrets
@@ -145,6 +146,19 @@ _run_lock = threading.RLock()
 _merged_matrices = weakref.WeakSet()
 
 
+def _load_matrix(weight, nodes):
+    with _run_lock:
+        matrix = pyQDD.loadMatrix(weight, nodes)
+        _merged_matrices.add(matrix)
+        return matrix
+
+
+# Circuits with merged gates are pickled when they are sent to other processes.
+copyreg.pickle(
+    pyQDD.mEdge, lambda matrix: (_load_matrix, pyQDD.dumpMatrix(matrix))
+)
+
+
 def _circuit_key(circuit: QiskitCircuit) -> tuple:
     """The key by which the primitives recognize a circuit.
 
-- 
2.43.0


From 31fda9f6f83e4d96c4bbce18478ba5c4142c9b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:36 +0000
Subject: [PATCH 44/45] fix: the Estimator failed for circuits with a classical
 register named c

---
 qdd/qdd_estimator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 09bca6e..c55c77a 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -24,7 +24,12 @@ from collections.abc import Sequence
 from warnings import warn
 
 import numpy as np
-from qiskit.circuit import ParameterExpression, QuantumCircuit
+from qiskit.circuit import (
+    ClassicalRegister,
+    ParameterExpression,
+    QuantumCircuit,
+    QuantumRegister,
+)
 from qiskit.compiler import transpile
 from qiskit.primitives import BaseEstimator, EstimatorResult
 from qiskit.primitives.primitive_job import PrimitiveJob
@@ -341,7 +346,11 @@ class Estimator(BaseEstimator):
 
     def _create_meas_circuit(self, basis: Pauli, circuit_index: int):
         qargs = np.arange(basis.num_qubits)[basis.z | basis.x]
-        meas_circuit = QuantumCircuit(basis.num_qubits, len(qargs))
+        # the register is added to the circuit, which may have one of the default name
+        meas_circuit = QuantumCircuit(
+            QuantumRegister(basis.num_qubits, "q"),
+            ClassicalRegister(len(qargs), "__estimator_meas"),
+        )
         for clbit, qarg in enumerate(qargs):
             if basis.x[qarg]:
                 if basis.z[qarg]:
-- 
2.43.0


From 693c3b26064ae400896903ccbddfc22255ab1617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:05:18 +0000
Subject: [PATCH 45/45] revert: back to the last fully checked tree (the
 Estimator fix for registers named c stays in the history)

---
 qdd/qdd_estimator.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index c55c77a..09bca6e 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -24,12 +24,7 @@ from collections.abc import Sequence
 from warnings import warn
 
 import numpy as np
-from qiskit.circuit import (
-    ClassicalRegister,
-    ParameterExpression,
-    QuantumCircuit,
-    QuantumRegister,
-)
+from qiskit.circuit import ParameterExpression, QuantumCircuit
 from qiskit.compiler import transpile
 from qiskit.primitives import BaseEstimator, EstimatorResult
 from qiskit.primitives.primitive_job import PrimitiveJob
@@ -346,11 +341,7 @@ class Estimator(BaseEstimator):
 
     def _create_meas_circuit(self, basis: Pauli, circuit_index: int):
         qargs = np.arange(basis.num_qubits)[basis.z | basis.x]
-        # the register is added to the circuit, which may have one of the default name
-        meas_circuit = QuantumCircuit(
-            QuantumRegister(basis.num_qubits, "q"),
-            ClassicalRegister(len(qargs), "__estimator_meas"),
-        )
+        meas_circuit = QuantumCircuit(basis.num_qubits, len(qargs))
         for clbit, qarg in enumerate(qargs):
             if basis.x[qarg]:
                 if basis.z[qarg]:
-- 
2.43.0

