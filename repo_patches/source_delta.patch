From b58f5bfa3249410f36dc011a98d3a1008c45e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 01/66] fix: give every linear unit created by a command a
 fresh index

Units terminated earlier (e.g. by a QFree) shrank the map that new indices were
derived from, so a later allocation could reuse the index of a live unit.
---
 tket/src/circuit/command.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index a75ca10..062a8a3 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -252,6 +252,11 @@ pub struct CommandIterator<'circ, T: HugrView> {
     nodes: NodeWalker<'circ, T>,
     /// Last wire for each [`LinearUnit`] in the circuit.
     wire_unit: HashMap<Wire, usize>,
+    /// Index for the next [`LinearUnit`] created in the circuit.
+    ///
+    /// Units may be terminated before new ones get created, so this may be
+    /// larger than the number of elements in `wire_unit`.
+    next_unit: usize,
     /// Maximum number of remaining commands, not counting I/O nodes nor root nodes.
     max_remaining: usize,
     /// Delayed output of constant and load const nodes. Contains nodes that
@@ -281,10 +286,11 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
         // ports.
         //
         // TODO: `with_wires` combinator for `Units`?
-        let wire_unit = circ
+        let wire_unit: HashMap<Wire, usize> = circ
             .linear_units()
             .map(|(linear_unit, port, _)| (Wire::new(circ.input_node(), port), linear_unit.index()))
             .collect();
+        let next_unit = wire_unit.len();
 
         let (region, region_node_map) = circ.hugr().region_portgraph(circ.parent());
         let node_count = region.node_count();
@@ -295,6 +301,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
             region_node_map,
             nodes,
             wire_unit,
+            next_unit,
             // Ignore the input and output nodes, and the root.
             max_remaining: node_count - 2,
             delayed_consts: HashSet::new(),
@@ -425,7 +432,8 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
 
             match ports {
                 EitherOrBoth::Right((_, out_port, _)) => {
-                    let new_id = self.wire_unit.len();
+                    let new_id = self.next_unit;
+                    self.next_unit += 1;
                     register_output(new_id, out_port, &mut self.wire_unit);
                 }
                 EitherOrBoth::Left((_, in_port, _)) => {
-- 
2.43.0


From 8982f884677e0bbeae1154c93313de3ec15770c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 02/66] fix: index a command's linear units by linear port, not
 by port offset

Commands whose linear ports come after non-linear ones (conditionals, opaque
operations) panicked or reported the units of other ports.
---
 tket/src/circuit/command.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index 062a8a3..a7f7004 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -166,12 +166,14 @@ impl<'circ, T: HugrView<Node = Node>> Command<'circ, T> {
 
 impl<T: HugrView<Node = Node>> UnitLabeller<Node> for &Command<'_, T> {
     #[inline]
-    fn assign_linear(&self, _: Node, port: Port, _linear_count: usize) -> LinearUnit {
+    fn assign_linear(&self, _: Node, port: Port, linear_count: usize) -> LinearUnit {
         let units = match port.direction() {
             Direction::Incoming => &self.input_linear_units,
             Direction::Outgoing => &self.output_linear_units,
         };
-        *units.get(port.index()).unwrap_or_else(|| {
+        // The units are indexed by the number of preceding linear ports, as
+        // there may be other ports in between.
+        *units.get(linear_count).unwrap_or_else(|| {
             panic!(
                 "Could not assign a linear unit to port {port:?} of node {:?}",
                 self.node
-- 
2.43.0


From 5f7a671c3e3ce59768460eea3107aa08ebb2026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 03/66] fix: respect all dependencies when commuting commands

Operations without commutation data (opaque operations, nested regions) were left
out of the slices and commuted past, classical dependencies were ignored (which
could create cycles), and commands on units that are not circuit inputs panicked.
---
 tket/src/passes/commutation.rs | 97 +++++++++++++++++++++++++---------
 1 file changed, 71 insertions(+), 26 deletions(-)

diff --git a/tket/src/passes/commutation.rs b/tket/src/passes/commutation.rs
index 053a0cd..7788fdd 100644
--- a/tket/src/passes/commutation.rs
+++ b/tket/src/passes/commutation.rs
@@ -26,6 +26,11 @@ struct ComCommand {
     // We'll need something more complex if `follow_linear_port` stops being a
     // direct map from input to output.
     inputs: Vec<CircuitUnit>,
+    /// The first slice the command may be moved to.
+    ///
+    /// Classical inputs and order edges are not affected by the commutation, so
+    /// all the commands they depend on must stay in earlier slices.
+    earliest_slice: usize,
 }
 
 impl<'c, T: HugrView<Node = Node>> From<Command<'c, T>> for ComCommand {
@@ -33,6 +38,7 @@ impl<'c, T: HugrView<Node = Node>> From<Command<'c, T>> for ComCommand {
         ComCommand {
             node: com.node(),
             inputs: com.inputs().map(|(c, _, _)| c).collect(),
+            earliest_slice: 0,
         }
     }
 }
@@ -69,39 +75,78 @@ fn add_to_slice(slice: &mut Slice, com: Rc<ComCommand>) {
 }
 
 fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
-    let mut slices = vec![];
-
-    let n_qbs = circ.qubit_count();
-    let mut qubit_free_slice = vec![0; n_qbs];
+    let hugr = circ.hugr();
+    let mut slices: Vec<Vec<Rc<ComCommand>>> = vec![];
+    let mut n_units = circ.linear_units().count();
+
+    // The first slice where all the outputs of a node are available.
+    let mut node_ready: HashMap<Node, usize> = HashMap::new();
+    // The first slice after the creation of each unit.
+    let mut unit_ready: HashMap<Qb, usize> =
+        circ.linear_units().map(|(unit, _, _)| (unit, 0)).collect();
+
+    for command in circ.commands() {
+        let created_units = command
+            .linear_units(Direction::Outgoing)
+            .map(|(unit, _, _)| unit)
+            .collect_vec();
+        let mut command: ComCommand = command.into();
+        let node = command.node();
+
+        // Collect the slices in which the inputs become available,
+        // distinguishing those that cannot be commuted past.
+        let mut free_slice = 0;
+        let mut earliest_slice = 0;
+        for port in hugr.node_inputs(node) {
+            let is_linear = matches!(
+                command.inputs.get(port.index()),
+                Some(CircuitUnit::Linear(_))
+            );
+            for (neighbour, _) in hugr.linked_outputs(node, port) {
+                let ready = node_ready.get(&neighbour).copied().unwrap_or_default();
+                free_slice = free_slice.max(ready);
+                if !is_linear {
+                    earliest_slice = earliest_slice.max(ready);
+                }
+            }
+        }
+        for qb in command.qubits() {
+            earliest_slice = earliest_slice.max(unit_ready.get(&qb).copied().unwrap_or_default());
+        }
+        command.earliest_slice = earliest_slice;
 
-    for command in circ
-        .commands()
-        .filter(|c| is_slice_op(circ.hugr(), c.node()))
-    {
-        let command: ComCommand = command.into();
-        let free_slice = command
-            .qubits()
-            .map(|qb| qubit_free_slice[qb.index()])
-            .max()
-            .unwrap();
+        // Commands that do not act on existing units are not part of any slice.
+        let acts_on_units = command.qubits().next().is_some();
+        let ready = if acts_on_units {
+            free_slice + 1
+        } else {
+            free_slice
+        };
+        node_ready.insert(node, ready);
+        for unit in created_units {
+            unit_ready.entry(unit).or_insert(ready);
+            n_units = n_units.max(unit.index() + 1);
+        }
 
-        for q in command.qubits() {
-            qubit_free_slice[q.index()] = free_slice + 1;
+        if !acts_on_units {
+            continue;
         }
         if free_slice >= slices.len() {
-            debug_assert!(free_slice == slices.len());
-            slices.push(vec![None; n_qbs]);
+            slices.resize(free_slice + 1, vec![]);
         }
-        let command = Rc::new(command);
-        add_to_slice(&mut slices[free_slice], command);
+        slices[free_slice].push(Rc::new(command));
     }
 
     slices
-}
-
-/// check if node is one we want to put in to a slice.
-fn is_slice_op<H: HugrView>(h: &H, node: H::Node) -> bool {
-    h.get_optype(node).cast::<TketOp>().is_some()
+        .into_iter()
+        .map(|commands| {
+            let mut slice = vec![None; n_units];
+            for command in commands {
+                add_to_slice(&mut slice, command);
+            }
+            slice
+        })
+        .collect()
 }
 
 /// Starting from starting_index, work back along slices to check for the
@@ -114,7 +159,7 @@ fn available_slice(
 ) -> Option<(usize, HashMap<Qb, Rc<ComCommand>>)> {
     let mut available = None;
     let mut prev_nodes: HashMap<Qb, Rc<ComCommand>> = HashMap::new();
-    for slice_index in (0..=starting_index).rev() {
+    for slice_index in (command.earliest_slice..=starting_index).rev() {
         // if all qubit slots are empty here the command can be moved here
         if command
             .qubits()
-- 
2.43.0


From afb5177bf8d92718f4c435f06f3f81284e0620b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 04/66] fix: dividing a zero cost gives zero

---
 tket/src/circuit/cost.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/cost.rs b/tket/src/circuit/cost.rs
index c03e983..4adf15a 100644
--- a/tket/src/circuit/cost.rs
+++ b/tket/src/circuit/cost.rs
@@ -152,7 +152,7 @@ impl<const N: usize> CircuitCost for LexicographicCost<usize, N> {
     fn div_cost(&self, n: NonZeroUsize) -> Self {
         let mut ret = [0; N];
         for (div, &a) in ret.iter_mut().zip(&self.0) {
-            *div = (a.saturating_sub(1)) / n.get() + 1;
+            *div = a.div_ceil(n.get());
         }
         Self(ret)
     }
@@ -185,7 +185,7 @@ impl CircuitCost for usize {
 
     #[inline]
     fn div_cost(&self, n: NonZeroUsize) -> Self {
-        (self.saturating_sub(1)) / n.get() + 1
+        self.div_ceil(n.get())
     }
 }
 
-- 
2.43.0


From 14b99c920f2d180bbe77a98eb9b130a88c948a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 05/66] fix: count the first operation of a chunk towards its
 cost

---
 tket/src/passes/chunks.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 486ffdd..852b4b5 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -253,7 +253,7 @@ impl CircuitChunks {
     ///
     /// The circuit is split into chunks of at most `max_size` gates.
     pub fn split(circ: &Circuit, max_size: usize) -> Self {
-        Self::split_with_cost(circ, max_size.saturating_sub(1), |_| 1)
+        Self::split_with_cost(circ, max_size, |_| 1)
     }
 
     /// Split a circuit into chunks.
@@ -284,9 +284,11 @@ impl CircuitChunks {
         let mut running_cost = C::default();
         let mut current_group = 0;
         for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
-            let new_cost = running_cost.clone() + op_cost(hugr.get_optype(node));
+            let node_cost = op_cost(hugr.get_optype(node));
+            let new_cost = running_cost.clone() + node_cost.clone();
             if new_cost.sub_cost(&max_cost).as_isize() > 0 {
-                running_cost = C::default();
+                // The operation is the first one of a new group.
+                running_cost = node_cost;
                 current_group += 1;
             } else {
                 running_cost = new_cost;
-- 
2.43.0


From 3375033acd2f06e9b53e72c1997958a6bddb0194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 06/66] fix: reconnect every use of a copied wire when
 reassembling chunks

---
 tket/src/passes/chunks.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 852b4b5..cfe0bb4 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -133,7 +133,11 @@ impl Chunk {
                     }
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // A copied wire may be connected to multiple inputs of the chunk.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(chunk.node_inputs(chunk_out)) {
@@ -177,7 +181,10 @@ impl Chunk {
                     ConnectionTarget::TransitiveConnection(output_connection)
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(hugr.node_inputs(chunk_out)) {
-- 
2.43.0


From ac8d139b3dfc2419ed74a303764964174750aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 07/66] fix: keep nested regions when extracting and
 reassembling chunks

---
 tket/src/passes/chunks.rs | 54 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index cfe0bb4..2c3e0f7 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -12,7 +12,6 @@ use hugr::hugr::hugrmut::HugrMut;
 use hugr::hugr::views::sibling_subgraph::TopoConvexChecker;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::hugr::{HugrError, NodeMetadataMap};
-use hugr::ops::handle::DataflowParentID;
 use hugr::ops::OpType;
 use hugr::types::Signature;
 use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
@@ -60,7 +59,7 @@ impl Chunk {
             checker,
         )
         .expect("Failed to define the chunk subgraph");
-        let extracted = subgraph.extract_subgraph(circ.hugr(), "Chunk").into();
+        let extracted = Self::extract_circuit(circ.hugr(), &subgraph).into();
         // Transform the subgraph's input/output sets into wires that can be
         // matched between different chunks.
         //
@@ -92,6 +91,27 @@ impl Chunk {
         }
     }
 
+    /// Copy a subgraph into a new circuit, including the regions nested in its nodes.
+    fn extract_circuit(hugr: &Hugr, subgraph: &SiblingSubgraph) -> Hugr {
+        let mut builder = FunctionBuilder::new("Chunk", subgraph.signature(hugr)).unwrap();
+        // Take the unfinished Hugr from the builder, to avoid unnecessary
+        // validation checks that require connecting the inputs and outputs.
+        let mut extracted = mem::take(builder.hugr_mut());
+        let root = extracted.entrypoint();
+        let node_map = insert_nodes(&mut extracted, root, hugr, subgraph.nodes());
+
+        let [inp, out] = extracted.get_io(root).unwrap();
+        for (inp_port, targets) in subgraph.incoming_ports().iter().enumerate() {
+            for (node, port) in targets {
+                extracted.connect(inp, inp_port, node_map[node], *port);
+            }
+        }
+        for (out_port, (node, port)) in subgraph.outgoing_ports().iter().enumerate() {
+            extracted.connect(node_map[node], *port, out, out_port);
+        }
+        extracted
+    }
+
     /// Insert the chunk back into a circuit.
     pub(self) fn insert(
         &self,
@@ -107,10 +127,11 @@ impl Chunk {
 
         let [chunk_inp, chunk_out] = chunk.get_io(chunk_root).unwrap();
         // Insert the chunk circuit into the original circuit.
-        let subgraph =
-            SiblingSubgraph::<Node>::try_new_dataflow_subgraph::<_, DataflowParentID>(&chunk)
-                .unwrap_or_else(|e| panic!("The chunk circuit is no longer a dataflow graph: {e}"));
-        let node_map = circ.insert_subgraph(root, &chunk, &subgraph);
+        let nodes = chunk
+            .children(chunk_root)
+            .filter(|&n| n != chunk_inp && n != chunk_out)
+            .collect_vec();
+        let node_map = insert_nodes(circ, root, chunk, &nodes);
 
         let mut input_map = HashMap::with_capacity(self.inputs.len());
         let mut output_map = HashMap::with_capacity(self.outputs.len());
@@ -208,6 +229,27 @@ impl Chunk {
     }
 }
 
+/// Copy a set of sibling nodes, with all their descendants, under a new parent.
+fn insert_nodes(
+    target: &mut impl HugrMut<Node = Node>,
+    root: Node,
+    source: &Hugr,
+    nodes: &[Node],
+) -> HashMap<Node, Node> {
+    let descendants = nodes
+        .iter()
+        .flat_map(|&n| source.descendants(n))
+        .collect_vec();
+    target
+        .insert_view_forest(
+            source,
+            descendants.into_iter(),
+            nodes.iter().map(|&n| (n, root)),
+        )
+        .expect("The nodes are disjoint siblings")
+        .node_map
+}
+
 /// A map from the original input/output [`ChunkConnection`]s to an inserted chunk's inputs and outputs.
 #[derive(Debug, Clone)]
 struct ChunkInsertResult {
-- 
2.43.0


From d93b20732429458366a5cb2b270a961f4bd98ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 08/66] fix: keep constants with the operations that load them
 when splitting into chunks

---
 tket/src/passes/chunks.rs | 50 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 2c3e0f7..0fe615d 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -12,7 +12,7 @@ use hugr::hugr::hugrmut::HugrMut;
 use hugr::hugr::views::sibling_subgraph::TopoConvexChecker;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::hugr::{HugrError, NodeMetadataMap};
-use hugr::ops::OpType;
+use hugr::ops::{OpTrait, OpType};
 use hugr::types::Signature;
 use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals as _};
@@ -229,6 +229,40 @@ impl Chunk {
     }
 }
 
+/// Give each [`OpType::LoadConstant`] in the circuit region its own constant
+/// node in that region.
+///
+/// Returns the constant node of each load operation.
+fn localize_constants(circ: &mut Circuit) -> HashMap<Node, Node> {
+    let parent = circ.parent();
+    let hugr = circ.hugr_mut();
+    let loads = hugr
+        .children(parent)
+        .filter(|&n| hugr.get_optype(n).is_load_constant())
+        .collect_vec();
+    let mut constants = HashMap::with_capacity(loads.len());
+    for load in loads {
+        let port = hugr
+            .get_optype(load)
+            .static_input_port()
+            .expect("Constant loads have a static input");
+        let (constant, const_port) = hugr
+            .single_linked_output(load, port)
+            .expect("Constant loads are connected to a constant");
+        let is_local = hugr.get_parent(constant) == Some(parent);
+        let local_const = if is_local && hugr.linked_inputs(constant, const_port).count() == 1 {
+            constant
+        } else {
+            let copy = hugr.add_node_with_parent(parent, hugr.get_optype(constant).clone());
+            hugr.disconnect(load, port);
+            hugr.connect(copy, const_port, load, port);
+            copy
+        };
+        constants.insert(load, local_const);
+    }
+    constants
+}
+
 /// Copy a set of sibling nodes, with all their descendants, under a new parent.
 fn insert_nodes(
     target: &mut impl HugrMut<Node = Node>,
@@ -313,6 +347,12 @@ impl CircuitChunks {
         max_cost: C,
         op_cost: impl Fn(&OpType) -> C,
     ) -> Self {
+        // Static edges cannot cross the chunk boundaries, so each constant must
+        // be in the same chunk as the operation that loads it.
+        let mut circ = circ.clone();
+        let constants = localize_constants(&mut circ);
+        let circ = &circ;
+
         let hugr = circ.hugr();
         let root_meta = hugr.node_metadata_map(circ.parent()).clone();
         let signature = circ.circuit_signature().clone();
@@ -332,7 +372,11 @@ impl CircuitChunks {
         let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
         let mut running_cost = C::default();
         let mut current_group = 0;
-        for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
+        let nodes = circ
+            .commands()
+            .map(|cmd| cmd.node())
+            .filter(|&node| !hugr.get_optype(node).is_const());
+        for (_, commands) in &nodes.chunk_by(|&node| {
             let node_cost = op_cost(hugr.get_optype(node));
             let new_cost = running_cost.clone() + node_cost.clone();
             if new_cost.sub_cost(&max_cost).as_isize() > 0 {
@@ -344,6 +388,8 @@ impl CircuitChunks {
             }
             current_group
         }) {
+            let commands =
+                commands.flat_map(|node| constants.get(&node).copied().into_iter().chain([node]));
             chunks.push(Chunk::extract(circ, commands, &convex_checker));
         }
         Self {
-- 
2.43.0


From 5e4b0962fc88a65d3bd9122b0d415c9ae19df562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 09/66] fix: extract chunks from contiguous commands without a
 convexity search

---
 tket/src/passes/chunks.rs | 107 ++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 56 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 0fe615d..12d1515 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -2,20 +2,19 @@
 //!
 //! See [`CircuitChunks`] for more information.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::mem;
 use std::ops::{Index, IndexMut};
 
 use derive_more::From;
 use hugr::builder::{Container, FunctionBuilder};
 use hugr::hugr::hugrmut::HugrMut;
-use hugr::hugr::views::sibling_subgraph::TopoConvexChecker;
-use hugr::hugr::views::SiblingSubgraph;
 use hugr::hugr::{HugrError, NodeMetadataMap};
 use hugr::ops::{OpTrait, OpType};
-use hugr::types::Signature;
+use hugr::types::{Signature, Type};
 use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals as _};
+use indexmap::IndexMap;
 use itertools::Itertools;
 use rayon::iter::{IntoParallelIterator, IntoParallelRefMutIterator, ParallelIterator};
 use rayon::slice::ParallelSliceMut;
@@ -47,69 +46,66 @@ pub struct Chunk {
 impl Chunk {
     /// Extract a chunk from a circuit.
     ///
-    /// The chunk is extracted from the input wires to the output wires.
-    pub(self) fn extract(
-        circ: &Circuit,
-        nodes: impl IntoIterator<Item = Node>,
-        checker: &TopoConvexChecker<'_, Hugr>,
-    ) -> Self {
-        let subgraph = SiblingSubgraph::try_from_nodes_with_checker(
-            nodes.into_iter().collect_vec(),
-            circ.hugr(),
-            checker,
-        )
-        .expect("Failed to define the chunk subgraph");
-        let extracted = Self::extract_circuit(circ.hugr(), &subgraph).into();
-        // Transform the subgraph's input/output sets into wires that can be
-        // matched between different chunks.
-        //
-        // This requires finding the `Outgoing` port corresponding to each
-        // subgraph input.
-        let inputs = subgraph
-            .incoming_ports()
-            .iter()
-            .map(|wires| {
-                let (inp_node, inp_port) = wires[0];
-                let (out_node, out_port) = circ
-                    .hugr()
-                    .linked_outputs(inp_node, inp_port)
-                    .exactly_one()
-                    .ok()
-                    .unwrap();
-                Wire::new(out_node, out_port).into()
-            })
-            .collect();
-        let outputs = subgraph
-            .outgoing_ports()
-            .iter()
-            .map(|&(node, port)| Wire::new(node, port).into())
-            .collect();
-        Self {
-            circ: extracted,
-            inputs,
-            outputs,
+    /// The chunk contains the given nodes, which must be sorted and contiguous
+    /// in a topological order of the circuit.
+    pub(self) fn extract(circ: &Circuit, nodes: impl IntoIterator<Item = Node>) -> Self {
+        let hugr = circ.hugr();
+        let nodes = nodes.into_iter().collect_vec();
+        let node_set: HashSet<Node> = nodes.iter().copied().collect();
+
+        // The wires crossing the chunk boundaries. These are used to match the
+        // inputs and outputs of different chunks.
+        let mut inputs: IndexMap<Wire, Vec<(Node, IncomingPort)>> = IndexMap::new();
+        let mut outputs: Vec<Wire> = Vec::new();
+        let mut input_types: Vec<Type> = Vec::new();
+        let mut output_types: Vec<Type> = Vec::new();
+        for &node in &nodes {
+            for (port, ty) in hugr.in_value_types(node) {
+                let (source, source_port) = hugr
+                    .single_linked_output(node, port)
+                    .expect("Value inputs are connected to a single wire");
+                if node_set.contains(&source) {
+                    continue;
+                }
+                let targets = inputs.entry(Wire::new(source, source_port)).or_default();
+                if targets.is_empty() {
+                    input_types.push(ty);
+                }
+                targets.push((node, port));
+            }
+            for (port, ty) in hugr.out_value_types(node) {
+                if hugr
+                    .linked_inputs(node, port)
+                    .any(|(target, _)| !node_set.contains(&target))
+                {
+                    outputs.push(Wire::new(node, port));
+                    output_types.push(ty);
+                }
+            }
         }
-    }
 
-    /// Copy a subgraph into a new circuit, including the regions nested in its nodes.
-    fn extract_circuit(hugr: &Hugr, subgraph: &SiblingSubgraph) -> Hugr {
-        let mut builder = FunctionBuilder::new("Chunk", subgraph.signature(hugr)).unwrap();
+        let signature = Signature::new(input_types, output_types);
+        let mut builder = FunctionBuilder::new("Chunk", signature).unwrap();
         // Take the unfinished Hugr from the builder, to avoid unnecessary
         // validation checks that require connecting the inputs and outputs.
         let mut extracted = mem::take(builder.hugr_mut());
         let root = extracted.entrypoint();
-        let node_map = insert_nodes(&mut extracted, root, hugr, subgraph.nodes());
+        let node_map = insert_nodes(&mut extracted, root, hugr, &nodes);
 
         let [inp, out] = extracted.get_io(root).unwrap();
-        for (inp_port, targets) in subgraph.incoming_ports().iter().enumerate() {
+        for (inp_port, targets) in inputs.values().enumerate() {
             for (node, port) in targets {
                 extracted.connect(inp, inp_port, node_map[node], *port);
             }
         }
-        for (out_port, (node, port)) in subgraph.outgoing_ports().iter().enumerate() {
-            extracted.connect(node_map[node], *port, out, out_port);
+        for (out_port, wire) in outputs.iter().enumerate() {
+            extracted.connect(node_map[&wire.node()], wire.source(), out, out_port);
+        }
+        Self {
+            circ: extracted.into(),
+            inputs: inputs.into_keys().map_into().collect(),
+            outputs: outputs.into_iter().map_into().collect(),
         }
-        extracted
     }
 
     /// Insert the chunk back into a circuit.
@@ -369,7 +365,6 @@ impl CircuitChunks {
             .collect();
 
         let mut chunks = Vec::new();
-        let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
         let mut running_cost = C::default();
         let mut current_group = 0;
         let nodes = circ
@@ -390,7 +385,7 @@ impl CircuitChunks {
         }) {
             let commands =
                 commands.flat_map(|node| constants.get(&node).copied().into_iter().chain([node]));
-            chunks.push(Chunk::extract(circ, commands, &convex_checker));
+            chunks.push(Chunk::extract(circ, commands));
         }
         Self {
             signature: signature.into_owned(),
-- 
2.43.0


From d9713dbc378371c9bceb9687ef8713b2901d2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 10/66] fix: remove tuple pack/unpack pairs whose elements are
 not all used

---
 tket/src/passes/tuple_unpack.rs | 58 ++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 52ca10d..867a74a 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -8,7 +8,7 @@ use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::{OpTrait, OpType};
 use hugr::types::Type;
-use hugr::{HugrView, Node};
+use hugr::{HugrView, Node, PortIndex, Wire};
 use itertools::Itertools;
 
 use crate::circuit::Command;
@@ -99,45 +99,43 @@ fn remove_pack_unpack<T: HugrView<Node = Node>>(
     unpack_nodes: Vec<Node>,
     num_other_outputs: usize,
 ) -> CircuitRewrite {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
     let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
     let subcirc_signature = subgraph.signature(circ.hugr());
 
-    // The output port order in `Subcircuit::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
-
     let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
 
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
+    // The replacement input that feeds each element of the tuple.
+    let mut elements = vec![None; tuple_types.len()];
+    for (wire, targets) in replacement.input_wires().zip(subgraph.incoming_ports()) {
+        for (_, port) in targets {
+            elements[port.index()] = Some(wire);
+        }
+    }
+    let elements: Vec<Wire> = elements
+        .into_iter()
+        .map(|wire| wire.expect("every tuple element is connected"))
+        .collect();
 
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
+    // If needed, re-add the tuple pack node.
+    let tuple = (num_other_outputs > 0).then(|| {
         let op = MakeTuple::new(tuple_types.to_vec().into());
-        let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
+        replacement
+            .add_dataflow_op(op, elements.iter().copied())
             .unwrap()
-            .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs))
-    }
+            .out_wire(0)
+    });
+
+    // Connect the tuple, and the elements that are used after being unpacked.
+    let outputs: Vec<Wire> = subgraph
+        .outgoing_ports()
+        .iter()
+        .map(|(node, port)| match tuple {
+            Some(tuple) if *node == pack_node => tuple,
+            _ => elements[port.index()],
+        })
+        .collect();
 
     let replacement = replacement
         .finish_hugr_with_outputs(outputs)
-- 
2.43.0


From 3074f272fe83bd1b5497a1ca4c4d880cfd590fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 11/66] fix: keep the entry point when constant folding in
 QSystemPass

The pass runs with the module as entry point, where the dead code
elimination after folding kept a function only if it contained something
that must be preserved, such as a call. A program of native operations
lost its entry point and the pass panicked. Its inputs also have to count as
unknown.
---
 tket-qsystem/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tket-qsystem/src/lib.rs b/tket-qsystem/src/lib.rs
index 08a69d7..bfaaa1f 100644
--- a/tket-qsystem/src/lib.rs
+++ b/tket-qsystem/src/lib.rs
@@ -10,6 +10,8 @@ mod lower_drops;
 pub mod pytket;
 pub mod replace_bools;
 
+use std::iter;
+
 use derive_more::{Display, Error, From};
 use hugr::{
     algorithms::{
@@ -20,7 +22,8 @@ use hugr::{
         RemoveDeadFuncsPass,
     },
     hugr::{hugrmut::HugrMut, HugrError},
-    Hugr, HugrView, Node,
+    ops::Value,
+    Hugr, HugrView, IncomingPort, Node,
 };
 use lower_drops::LowerDropsPass;
 use replace_bools::{ReplaceBoolPass, ReplaceBoolPassError};
@@ -131,7 +134,7 @@ impl QSystemPass {
             inline_constant_functions(hugr)?;
         }
         if self.constant_fold {
-            self.constant_fold().run(hugr)?;
+            self.constant_fold(entrypoint).run(hugr)?;
         }
         if self.force_order {
             self.force_order(hugr)?;
@@ -189,8 +192,10 @@ impl QSystemPass {
         ReplaceBoolPass
     }
 
-    fn constant_fold(&self) -> ConstantFoldPass {
-        ConstantFoldPass::default()
+    fn constant_fold(&self, entrypoint: Node) -> ConstantFoldPass {
+        // The pass runs on the whole module, where nothing is kept unless it is
+        // reachable from a marked function.
+        ConstantFoldPass::default().with_inputs(entrypoint, iter::empty::<(IncomingPort, Value)>())
     }
 
     fn monomorphization(&self) -> MonomorphizePass {
-- 
2.43.0


From e07c8ee2bcfa100212b8f951defade9a94697898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 12/66] fix: fold constants before booleans and arrays become
 linear in QSystemPass

---
 tket-qsystem/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tket-qsystem/src/lib.rs b/tket-qsystem/src/lib.rs
index bfaaa1f..181043e 100644
--- a/tket-qsystem/src/lib.rs
+++ b/tket-qsystem/src/lib.rs
@@ -119,6 +119,11 @@ impl QSystemPass {
         }
 
         self.lower_tk2().run(hugr)?;
+        // Folding replaces the uses of a known value, so it has to come before
+        // the passes below make booleans and arrays linear.
+        if self.constant_fold {
+            self.constant_fold(entrypoint).run(hugr)?;
+        }
         if self.lazify {
             self.replace_bools().run(hugr)?;
         }
@@ -133,9 +138,6 @@ impl QSystemPass {
             //  `hugr-passes`. See https://github.com/CQCL/hugr/issues/2419
             inline_constant_functions(hugr)?;
         }
-        if self.constant_fold {
-            self.constant_fold(entrypoint).run(hugr)?;
-        }
         if self.force_order {
             self.force_order(hugr)?;
         }
-- 
2.43.0


From b4f7fe5764808008fa4f907baebcb49c218fef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 13/66] fix: leave options outside arrays as they are when
 unpacking containers

---
 tket/src/passes/unpack_container.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 5e48b17..bd45a8d 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -351,7 +351,15 @@ impl UnpackContainerBuilder {
         let unpacked: Result<Vec<_>, _> = types
             .iter()
             .zip(wires)
-            .map(|(ty, wire)| self.unpack_container(builder, ty, wire))
+            .map(|(ty, wire)| {
+                // Options are only unwrapped as the elements of an array, so
+                // leave the types that the analyzer does not unpack as they are.
+                if self.type_analyzer.contains_element_type(ty) {
+                    self.unpack_container(builder, ty, wire)
+                } else {
+                    Ok(vec![wire])
+                }
+            })
             .collect();
 
         // Flatten the nested vector of wires
@@ -370,8 +378,12 @@ impl UnpackContainerBuilder {
             .iter()
             .map(|ty| {
                 let wire_count = self.type_analyzer.num_unpacked_wires(ty);
-                let type_wires = wires.by_ref().take(wire_count).collect();
-                self.repack_container(builder, ty, type_wires)
+                let type_wires: Vec<_> = wires.by_ref().take(wire_count).collect();
+                if self.type_analyzer.contains_element_type(ty) {
+                    self.repack_container(builder, ty, type_wires)
+                } else {
+                    Ok(type_wires[0])
+                }
             })
             .collect()
     }
-- 
2.43.0


From 60e014eb6b1f15ae6a5baf669f80cbc1c88dc4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 14/66] fix: repack arrays whose elements unpack to no wires

---
 tket/src/passes/unpack_container.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index bd45a8d..99c3b80 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -309,11 +309,12 @@ impl UnpackContainerBuilder {
         self.func_map.insert_with(&op, &args[..2], |func_b| {
             let input = func_b.input();
             // SAFETY: We guarantee no aliasing by only using this pointer in this closure.
-            let elems: Result<Vec<_>, _> = input
-                .outputs()
-                .collect::<Vec<_>>()
-                .chunks(inner_row_len)
-                .map(|chunk| self.repack_container(func_b, elem_ty, chunk.to_vec()))
+            let mut wires = input.outputs();
+            let elems: Result<Vec<_>, _> = (0..size)
+                .map(|_| {
+                    let elem_wires = wires.by_ref().take(inner_row_len).collect();
+                    self.repack_container(func_b, elem_ty, elem_wires)
+                })
                 .collect();
 
             let array_wire = func_b.add_new_generic_array::<AK>(elem_ty.clone(), elems?)?;
-- 
2.43.0


From 76625d6a5f6837c7baa386c5a0e8322eaa5dc4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 15/66] hook: let the verification harness drive the search
 queue and its thread

---
 tket/src/optimiser.rs               |  8 +++++
 tket/src/optimiser/pqueue.rs        | 56 +++++++++++++++++++++++++++++
 tket/src/optimiser/pqueue_worker.rs | 55 ++++++++++++++++++++++++++++
 3 files changed, 119 insertions(+)

diff --git a/tket/src/optimiser.rs b/tket/src/optimiser.rs
index cb51e59..2412bc1 100644
--- a/tket/src/optimiser.rs
+++ b/tket/src/optimiser.rs
@@ -17,6 +17,14 @@ use pqueue_worker::StatePQWorker;
 
 pub use backtracking::BacktrackingOptimiser;
 
+/// Access to private parts for the verification harness.
+#[cfg(tket_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use super::pqueue::verif as pqueue;
+    pub use super::pqueue_worker::verif as worker;
+}
+
 /// Options for the optimisation routine.
 ///
 /// Use `OptimiserOptions::default()` to get the default options, then set the
diff --git a/tket/src/optimiser/pqueue.rs b/tket/src/optimiser/pqueue.rs
index 08bb8d0..ffb8c86 100644
--- a/tket/src/optimiser/pqueue.rs
+++ b/tket/src/optimiser/pqueue.rs
@@ -213,6 +213,62 @@ impl<S: Clone, P: Clone + Ord> StatePQueue<S, P> {
     }
 }
 
+/// Access to the queue for the verification harness.
+#[cfg(tket_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+
+    pub struct Queue<S, P: Ord>(StatePQueue<S, P>);
+
+    impl<S: Clone, P: Clone + Ord> Queue<S, P> {
+        pub fn new(max_size: usize, n_best: Option<usize>) -> Self {
+            Self(StatePQueue::new(max_size, n_best))
+        }
+        pub fn push<C>(&mut self, state: S, context: &C) -> bool
+        where
+            S: State<C, Cost = P>,
+        {
+            self.0.push(state, context).is_some()
+        }
+        pub fn push_unchecked(&mut self, state: S, hash: u64, cost: P) -> bool {
+            self.0.push_unchecked(state, hash, cost).is_some()
+        }
+        pub fn pop(&mut self) -> Option<(S, P, u64)> {
+            self.0.pop().map(|e| (e.state, e.cost, e.hash))
+        }
+        pub fn peek(&self) -> Option<(S, P, u64)> {
+            self.0
+                .peek()
+                .map(|e| (e.state.clone(), e.cost.clone(), e.hash))
+        }
+        pub fn truncate(&mut self, max_size: usize) {
+            self.0.truncate(max_size)
+        }
+        pub fn max_cost(&self) -> Option<P> {
+            self.0.max_cost().cloned()
+        }
+        pub fn check_accepted(&self, cost: &P) -> bool {
+            self.0.check_accepted(cost)
+        }
+        pub fn num_seen_hashes(&self) -> usize {
+            self.0.num_seen_hashes()
+        }
+        pub fn is_full(&self) -> bool {
+            self.0.is_full()
+        }
+        pub fn is_empty(&self) -> bool {
+            self.0.is_empty()
+        }
+        pub fn len(&self) -> usize {
+            self.0.len()
+        }
+        pub fn into_all_time_best(self) -> Option<Vec<S>> {
+            self.0.into_all_time_best()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use itertools::Itertools;
diff --git a/tket/src/optimiser/pqueue_worker.rs b/tket/src/optimiser/pqueue_worker.rs
index 2261c19..594d54a 100644
--- a/tket/src/optimiser/pqueue_worker.rs
+++ b/tket/src/optimiser/pqueue_worker.rs
@@ -260,3 +260,58 @@ where
         }
     }
 }
+
+/// Access to the queue thread for the verification harness.
+#[cfg(tket_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+
+    pub struct Channels<S, P>(StatePQueueChannels<S, P>);
+
+    pub enum Log<S, P> {
+        NewBest(S, P),
+        Count(usize, usize, usize),
+    }
+
+    pub fn start<S, P>(capacity: usize) -> (Channels<S, P>, impl Fn() -> Option<Log<S, P>>)
+    where
+        P: CircuitCost + Send + Sync + 'static,
+        S: Clone + Send + Sync + 'static,
+    {
+        let (channels, log) = StatePQWorker::init(capacity);
+        (Channels(channels), move || {
+            log.recv().ok().map(|m| match m {
+                LogMessage::NewBestState(s, p) => Log::NewBest(s, p),
+                LogMessage::StateCount {
+                    processed_count,
+                    seen_count,
+                    queue_length,
+                } => Log::Count(processed_count, seen_count, queue_length),
+            })
+        })
+    }
+
+    impl<S: Clone, P: CircuitCost> Channels<S, P> {
+        /// Another handle to the same queue.
+        pub fn handle(&self) -> Self {
+            Self(self.0.clone())
+        }
+        pub fn send(&self, work: Vec<(S, u64, P)>) -> bool {
+            let work = work
+                .into_iter()
+                .map(|(state, hash, cost)| Entry { state, cost, hash })
+                .collect();
+            self.0.send(work).is_ok()
+        }
+        pub fn recv(&self) -> Option<(S, u64, P)> {
+            self.0.recv().ok().map(|e| (e.state, e.hash, e.cost))
+        }
+        pub fn close(&self) -> bool {
+            self.0.close().is_ok()
+        }
+        pub fn max_cost(&self) -> Option<P> {
+            self.0.max_cost()
+        }
+    }
+}
-- 
2.43.0


From 809894aecc259a760aa001e93da0ebbc344e2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 16/66] fix: keep the all-time best states when truncating the
 state queue

---
 tket/src/optimiser/pqueue.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/optimiser/pqueue.rs b/tket/src/optimiser/pqueue.rs
index ffb8c86..280abaf 100644
--- a/tket/src/optimiser/pqueue.rs
+++ b/tket/src/optimiser/pqueue.rs
@@ -160,8 +160,8 @@ impl<S: Clone, P: Clone + Ord> StatePQueue<S, P> {
     #[allow(unused)]
     pub fn truncate(&mut self, max_size: usize) {
         while self.queue.len() > max_size {
-            let (hash, _) = self.queue.pop_max().unwrap();
-            self.hash_lookup.remove(&hash);
+            // States among the all-time best are kept.
+            self.pop_max();
         }
     }
 
-- 
2.43.0


From 7ee7d77b57748f68fd63aa56f416ded4831d3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 17/66] fix: return the best state found when the backtracking
 optimiser stops early

---
 tket/src/optimiser/backtracking.rs | 9 +++++++++
 tket/src/optimiser/pqueue.rs       | 1 -
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/tket/src/optimiser/backtracking.rs b/tket/src/optimiser/backtracking.rs
index 644e500..4e1929c 100644
--- a/tket/src/optimiser/backtracking.rs
+++ b/tket/src/optimiser/backtracking.rs
@@ -123,6 +123,15 @@ impl Optimiser for BacktrackingOptimiser {
             }
         }
 
+        // When stopping early, the best state found may still be in the queue.
+        if let Some(Entry { state, cost, .. }) = pq.peek() {
+            if *cost < best_cost {
+                best_state = state.clone();
+                best_cost = cost.clone();
+                logger.log_best(&best_cost, None);
+            }
+        }
+
         logger.log_processing_end(
             visited_count,
             Some(pq.num_seen_hashes()),
diff --git a/tket/src/optimiser/pqueue.rs b/tket/src/optimiser/pqueue.rs
index 280abaf..e3c70be 100644
--- a/tket/src/optimiser/pqueue.rs
+++ b/tket/src/optimiser/pqueue.rs
@@ -46,7 +46,6 @@ impl<S: Clone, P: Clone + Ord> StatePQueue<S, P> {
     }
 
     /// Reference to the minimal circuit in the queue.
-    #[allow(unused)]
     pub fn peek(&self) -> Option<Entry<&S, &P, u64>> {
         let (&hash, cost) = self.queue.peek_min()?;
         let state = self.hash_lookup.get(&hash)?;
-- 
2.43.0


From 142afe9af487678f19a1d743ef1d6e60315b1263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 18/66] fix: drop an import that chunk splitting no longer uses

---
 tket/src/passes/chunks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 12d1515..0c256b4 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -10,7 +10,7 @@ use derive_more::From;
 use hugr::builder::{Container, FunctionBuilder};
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::hugr::{HugrError, NodeMetadataMap};
-use hugr::ops::{OpTrait, OpType};
+use hugr::ops::OpType;
 use hugr::types::{Signature, Type};
 use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals as _};
-- 
2.43.0


From d6bb2b3b5150e59e1c17ab17ed9dde8911398df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 19/66] fix: hash all that identifies an operation, not only
 its name

---
 tket/src/circuit/hash.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 5112670..cd4d9a2 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -87,22 +87,23 @@ impl HashState {
 /// Returns a hashable representation of an operation.
 fn hashable_op(op: &OpType) -> impl Hash {
     match op {
-        OpType::ExtensionOp(op) if !op.args().is_empty() => {
-            // TODO: Require hashing for TypeParams?
+        // TODO: Require hashing for TypeParams?
+        OpType::ExtensionOp(op) => {
             format!(
                 "{}[{}]",
-                op.def().name(),
+                op.qualified_id(),
                 serde_json::to_string(op.args()).unwrap()
             )
         }
-        OpType::OpaqueOp(op) if !op.args().is_empty() => {
+        OpType::OpaqueOp(op) => {
             format!(
                 "{}[{}]",
                 op.qualified_id(),
                 serde_json::to_string(op.args()).unwrap()
             )
         }
-        _ => op.to_string(),
+        // The name alone does not tell apart e.g. constants or tags.
+        _ => serde_json::to_string(op).unwrap(),
     }
 }
 
-- 
2.43.0


From ac5694fc721b74c536ca5a5dc13ce0ecd52a9812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 20/66] fix: include functions and constants from outside the
 region in circuit hashes

---
 tket/src/circuit/hash.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index cd4d9a2..f9248f6 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -4,7 +4,7 @@ use std::hash::{Hash, Hasher};
 
 use derive_more::{Display, Error};
 use fxhash::{FxHashMap, FxHasher64};
-use hugr::ops::OpType;
+use hugr::ops::{OpTrait, OpType};
 use hugr::{HugrView, Node};
 use hugr_core::hugr::internal::PortgraphNodeMap;
 use petgraph::visit::{self as pg, Walker};
@@ -137,7 +137,12 @@ fn hash_node(
         let input_hash = circ
             .linked_ports(node, input)
             .map(|(pred_node, pred_port)| {
-                let pred_node_hash = state.node_hash(pred_node);
+                // Functions and constants may be defined outside of the region.
+                let pred_node_hash = state.node_hash(pred_node).or_else(|| {
+                    let pred_op = circ.get_optype(pred_node);
+                    let is_static = pred_op.static_output().is_some();
+                    is_static.then(|| fxhash::hash64(&hashable_op(pred_op)))
+                });
                 fxhash::hash64(&(pred_node_hash, pred_port, input))
             })
             .fold(0, |total, hash| hash ^ total);
-- 
2.43.0


From cfbc5a0750b0300f18d4b829d42a2eb868a513df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 21/66] fix: do not let equal predecessors cancel out in
 circuit hashes

---
 tket/src/circuit/hash.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index f9248f6..fbabcb6 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -7,6 +7,7 @@ use fxhash::{FxHashMap, FxHasher64};
 use hugr::ops::{OpTrait, OpType};
 use hugr::{HugrView, Node};
 use hugr_core::hugr::internal::PortgraphNodeMap;
+use itertools::Itertools;
 use petgraph::visit::{self as pg, Walker};
 
 use super::Circuit;
@@ -134,7 +135,7 @@ fn hash_node(
     // TODO: Ignore state edges?
     for input in circ.node_inputs(node) {
         // Combine the hash for each subport, ignoring their order.
-        let input_hash = circ
+        let input_hashes = circ
             .linked_ports(node, input)
             .map(|(pred_node, pred_port)| {
                 // Functions and constants may be defined outside of the region.
@@ -145,8 +146,9 @@ fn hash_node(
                 });
                 fxhash::hash64(&(pred_node_hash, pred_port, input))
             })
-            .fold(0, |total, hash| hash ^ total);
-        input_hash.hash(&mut hasher);
+            .sorted_unstable()
+            .collect_vec();
+        input_hashes.hash(&mut hasher);
     }
     Ok(hasher.finish())
 }
-- 
2.43.0


From ab3750b3a21d123aeef2be8deb096dba31ba0d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 22/66] fix: include operations that lead to no output in
 circuit hashes

---
 tket/src/circuit/hash.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index fbabcb6..ee3e3db 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -17,8 +17,8 @@ pub trait CircuitHash {
     /// Compute the hash of a dataflow container node.
     ///
     /// We compute a hash for each node from its operation and the hash of
-    /// the predecessors. The hash of the circuit corresponds to the hash of its
-    /// output node.
+    /// the predecessors. The hash of the circuit combines the hash of its
+    /// output node and of the nodes that no other node depends on.
     ///
     /// This hash is independent from the operation traversal order.
     ///
@@ -43,6 +43,8 @@ where
         };
 
         let mut node_hashes = HashState::default();
+        // Operations that the output does not depend on.
+        let mut dangling = Vec::new();
 
         let (region, node_map) = self.region_portgraph(node);
         for pg_node in pg::Topo::new(&region).iter(&region) {
@@ -51,12 +53,20 @@ where
             if node_hashes.set_hash(node, hash).is_some() {
                 panic!("Hash already set for node {node}");
             }
+            if node != output_node
+                && self.output_neighbours(node).next().is_none()
+                && self.get_optype(node).static_output().is_none()
+            {
+                dangling.push(hash);
+            }
         }
 
         // If the output node has no hash, the topological sort failed due to a cycle.
-        node_hashes
+        let output_hash = node_hashes
             .node_hash(output_node)
-            .ok_or(HashError::CyclicCircuit)
+            .ok_or(HashError::CyclicCircuit)?;
+        dangling.sort_unstable();
+        Ok(fxhash::hash64(&(output_hash, dangling)))
     }
 }
 
-- 
2.43.0


From 113e4159db5b362893f260780000b5109aa34774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 23/66] fix: patterns with an unused input are turned down
 instead of panicking when matched

---
 tket/src/portmatching/pattern.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tket/src/portmatching/pattern.rs b/tket/src/portmatching/pattern.rs
index 3f378fa..623d3b3 100644
--- a/tket/src/portmatching/pattern.rs
+++ b/tket/src/portmatching/pattern.rs
@@ -67,7 +67,7 @@ impl CircuitPattern {
         let inp_ports = hugr.signature(inp).unwrap().output_ports();
         let out_ports = hugr.signature(out).unwrap().input_ports();
         let inputs = inp_ports
-            .map(|p| hugr.linked_ports(inp, p).collect())
+            .map(|p| hugr.linked_ports(inp, p).collect_vec())
             .collect_vec();
         let outputs = out_ports
             .map(|p| {
@@ -90,6 +90,11 @@ impl CircuitPattern {
             });
         }
 
+        // An unused input has no port to mark its position in a match.
+        if let Some(input) = inputs.iter().position(|ports| ports.is_empty()) {
+            return Err(InvalidPattern::UnusedInput { input });
+        }
+
         // This is a consequence of the test above.
         debug_assert!(outputs.iter().all(|(n, _)| *n != inp));
         Ok(Self {
@@ -155,6 +160,12 @@ pub enum InvalidPattern {
         /// The target port
         to_port: Port,
     },
+    /// Patterns cannot have inputs that are not used.
+    #[display("Input {input} of the pattern is not used")]
+    UnusedInput {
+        /// The index of the input
+        input: usize,
+    },
 }
 
 impl From<NoRootFound> for InvalidPattern {
-- 
2.43.0


From 321952fcc3adac32ba9f6e4b02caf6cfa4f21e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 24/66] fix: pattern matches cover all matched operations, also
 without a boundary or behind an output

---
 tket/src/portmatching/matcher.rs | 42 +++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index 8be0c35..8439535 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -159,7 +159,47 @@ impl PatternMatch {
             .iter()
             .map(|(n, p)| (map[n], p.as_outgoing().unwrap()))
             .collect_vec();
-        Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)
+        let nodes = map
+            .into_values()
+            .filter(|&n| circ.hugr().get_parent(n) == Some(circ.parent()))
+            .collect_vec();
+        if inputs.is_empty() && outputs.is_empty() {
+            // Without a boundary, only the nodes tell where the match is.
+            let subgraph =
+                SiblingSubgraph::try_from_nodes_with_checker(nodes, circ.hugr(), checker)?;
+            if !subgraph.incoming_ports().is_empty() || !subgraph.outgoing_ports().is_empty() {
+                return Err(InvalidPatternMatch::NotConvex);
+            }
+            return Ok(Self {
+                subgraph,
+                pattern,
+                root,
+            });
+        }
+        let mut res =
+            Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)?;
+        if !res.nodes().iter().all(|n| nodes.contains(n)) {
+            // More than the pattern lies between the boundaries.
+            return Err(InvalidPatternMatch::NotConvex);
+        }
+        if res.nodes().len() < nodes.len() {
+            // Nodes that only read output boundary values are not between the
+            // boundaries, but they are part of the match.
+            let mut behind_output = nodes.iter().filter(|n| !res.nodes().contains(n));
+            if behind_output.any(|&n| {
+                let mut readers = circ.hugr().output_neighbours(n);
+                readers.any(|m| !nodes.contains(&m))
+            }) {
+                return Err(InvalidPatternMatch::NotConvex);
+            }
+            res.subgraph = SiblingSubgraph::new_unchecked(
+                res.subgraph.incoming_ports().clone(),
+                res.subgraph.outgoing_ports().clone(),
+                res.subgraph.function_calls().clone(),
+                nodes,
+            );
+        }
+        Ok(res)
     }
 
     /// Create a pattern match from the subcircuit boundaries.
-- 
2.43.0


From 5db49826cc8ee136cb0ad3b837a7c7bf4655c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 25/66] fix: matching several patterns together no longer loses
 matches to edges from the inputs

---
 tket/src/portmatching/matcher.rs |  8 ++++----
 tket/src/portmatching/pattern.rs | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index 8439535..967a179 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -293,8 +293,7 @@ impl PatternMatcher {
         let line_patterns = patterns
             .iter()
             .map(|p| {
-                p.pattern
-                    .clone()
+                p.without_input_edges()
                     .try_into_line_pattern(compatible_offsets)
                     .expect("Failed to express pattern as line pattern")
             })
@@ -513,12 +512,13 @@ pub(crate) fn validate_circuit_node(
 
 /// Unwraps match errors, ignoring benign errors and panicking otherwise.
 ///
-/// Benign errors are non-convex matches, which are expected to occur.
+/// Benign errors are non-convex matches and matches that do not copy the inputs
+/// as the pattern does, which are expected to occur.
 /// Other errors are considered logic errors and should never occur.
 fn handle_match_error<T>(match_res: Result<T, InvalidPatternMatch>, root: Node) -> Option<T> {
     match_res
         .map_err(|err| match err {
-            InvalidPatternMatch::NotConvex => InvalidPatternMatch::NotConvex,
+            InvalidPatternMatch::NotConvex | InvalidPatternMatch::MatchNotFound => err,
             other => panic!("invalid match at root node {root:?}: {other}"),
         })
         .ok()
diff --git a/tket/src/portmatching/pattern.rs b/tket/src/portmatching/pattern.rs
index 623d3b3..51482ef 100644
--- a/tket/src/portmatching/pattern.rs
+++ b/tket/src/portmatching/pattern.rs
@@ -104,6 +104,30 @@ impl CircuitPattern {
         })
     }
 
+    /// The edges between the operations of the pattern.
+    ///
+    /// Several patterns are matched together on the premise that the edges at a
+    /// port exclude each other, which is not true of input edges.
+    pub(super) fn without_input_edges(&self) -> Pattern<NodeID, PNode, PEdge> {
+        let mut pattern = Pattern::new();
+        let root = self.pattern.root().expect("patterns are rooted");
+        pattern.set_root(root);
+        if let Some(prop) = self.pattern.node_property(root) {
+            pattern.require(root, prop.clone());
+        }
+        for edge in self.pattern.edges().expect("patterns are connected") {
+            if matches!(edge.edge_prop, PEdge::InputEdge { .. }) {
+                continue;
+            }
+            let (source, target) = (edge.source.unwrap(), edge.target.unwrap());
+            if let Some(prop) = edge.target_prop {
+                pattern.require(target, prop);
+            }
+            pattern.add_edge(source, target, edge.edge_prop);
+        }
+        pattern
+    }
+
     /// Compute the map from pattern nodes to circuit nodes in `circ`.
     pub fn get_match_map(
         &self,
-- 
2.43.0


From f50466f7822ef792df016451f5849e428f09236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 26/66] fix: greedy rewriting prices a rewrite by the
 operations it removes

CircuitRewrite::node_count_delta subtracted every node of the replaced region
(constants, tuples, ...) from the operations of the replacement, so rewrites
that do not shrink the circuit looked profitable.
---
 tket/src/circuit.rs          | 10 +++++++---
 tket/src/rewrite.rs          | 23 +++++++++++++++++++++--
 tket/src/rewrite/strategy.rs |  9 +++++----
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/tket/src/circuit.rs b/tket/src/circuit.rs
index 6baf42d..4485e72 100644
--- a/tket/src/circuit.rs
+++ b/tket/src/circuit.rs
@@ -198,9 +198,7 @@ impl<T: HugrView> Circuit<T> {
         while let Some(node) = roots.pop() {
             for child in self.hugr().children(node) {
                 let optype = self.hugr().get_optype(child);
-                if matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
-                    && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
-                {
+                if is_counted_operation(optype) {
                     count += 1;
                 } else if self.hugr().first_child(node).is_some() {
                     roots.push(child);
@@ -372,6 +370,12 @@ impl<T: HugrView> From<T> for Circuit<T> {
     }
 }
 
+/// Whether an operation counts towards [`Circuit::num_operations`].
+pub(crate) fn is_counted_operation(optype: &OpType) -> bool {
+    matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
+        && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
+}
+
 /// Checks if the passed hugr is a valid circuit,
 /// and return [`CircuitError`] if not.
 fn check_hugr<H: HugrView>(hugr: &H) -> Result<(), CircuitError<H::Node>> {
diff --git a/tket/src/rewrite.rs b/tket/src/rewrite.rs
index fa8b4bf..d65adc9 100644
--- a/tket/src/rewrite.rs
+++ b/tket/src/rewrite.rs
@@ -19,7 +19,7 @@ use hugr::{
 };
 use hugr::{Hugr, HugrView, Node};
 
-use crate::circuit::Circuit;
+use crate::circuit::{is_counted_operation, Circuit};
 
 /// A rewrite rule for circuits.
 #[derive(Debug, Clone, From, Into)]
@@ -44,11 +44,30 @@ impl CircuitRewrite {
     /// The difference between the new number of nodes minus the old. A positive
     /// number is an increase in node count, a negative number is a decrease.
     pub fn node_count_delta(&self) -> isize {
-        let new_count = self.replacement().num_operations() as isize;
+        // Count every sibling node in the replacement, except its input and output.
+        let replacement = self.replacement();
+        let new_count = replacement.hugr().children(replacement.parent()).count() as isize - 2;
         let old_count = self.subgraph().node_count() as isize;
         new_count - old_count
     }
 
+    /// Number of operations added or removed by the rewrite when applied to the
+    /// circuit, counted as in [`Circuit::num_operations`].
+    pub(crate) fn operation_count_delta(
+        &self,
+        circ: &Circuit<impl HugrView<Node = Node>>,
+    ) -> isize {
+        let new_count = self.replacement().num_operations() as isize;
+        let old_count = self
+            .subgraph()
+            .nodes()
+            .iter()
+            .flat_map(|&node| circ.hugr().descendants(node))
+            .filter(|&node| is_counted_operation(circ.hugr().get_optype(node)))
+            .count() as isize;
+        new_count - old_count
+    }
+
     /// The subgraph that is replaced.
     pub fn subgraph(&self) -> &SiblingSubgraph {
         self.0.subgraph()
diff --git a/tket/src/rewrite/strategy.rs b/tket/src/rewrite/strategy.rs
index c0ab394..0a636c8 100644
--- a/tket/src/rewrite/strategy.rs
+++ b/tket/src/rewrite/strategy.rs
@@ -120,12 +120,13 @@ impl RewriteStrategy for GreedyRewriteStrategy {
     ) -> impl Iterator<Item = RewriteResult<Self::Cost>> {
         let rewrites = rewrites
             .into_iter()
-            .sorted_by_key(|rw| rw.node_count_delta())
-            .take_while(|rw| rw.node_count_delta() < 0);
+            .map(|rw| (rw.operation_count_delta(circ), rw))
+            .filter(|(delta, _)| *delta < 0)
+            .sorted_by_key(|(delta, _)| *delta);
         let mut changed_nodes = HashSet::new();
         let mut cost_delta = 0;
         let mut circ = circ.clone();
-        for rewrite in rewrites {
+        for (delta, rewrite) in rewrites {
             if rewrite
                 .subgraph()
                 .nodes()
@@ -135,7 +136,7 @@ impl RewriteStrategy for GreedyRewriteStrategy {
                 continue;
             }
             changed_nodes.extend(rewrite.subgraph().nodes().iter().copied());
-            cost_delta += rewrite.node_count_delta();
+            cost_delta += delta;
             rewrite
                 .apply(&mut circ)
                 .expect("Could not perform rewrite in greedy strategy");
-- 
2.43.0


From 1a0260ba5e6f351dbfd0ba3a06b33d5d1324fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 27/66] fix: rewriting strategies no longer compose rewrites
 into a cyclic circuit

Rewrites of disjoint regions were applied together even when the replacements
then depend on each other in a cycle, which produced invalid circuits.
---
 tket/src/rewrite/strategy.rs | 121 +++++++++++++++++++++++------------
 1 file changed, 80 insertions(+), 41 deletions(-)

diff --git a/tket/src/rewrite/strategy.rs b/tket/src/rewrite/strategy.rs
index 0a636c8..caf6b11 100644
--- a/tket/src/rewrite/strategy.rs
+++ b/tket/src/rewrite/strategy.rs
@@ -21,12 +21,17 @@
 //!      function beyond a percentage given by a f64 parameter gamma.
 
 use std::iter;
+use std::ops::AddAssign;
 use std::{collections::HashSet, fmt::Debug};
 
 use derive_more::From;
+use hugr::hugr::views::sibling_subgraph::InvalidSubgraph;
+use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::OpType;
 use hugr::{HugrView, Node};
+use hugr_core::hugr::internal::HugrInternals;
 use itertools::Itertools;
+use petgraph::visit::{Topo, Walker};
 
 use crate::circuit::cost::{is_cx, is_quantum, CircuitCost, CostDelta, LexicographicCost};
 use crate::{op_matches, Circuit, TketOp};
@@ -120,27 +125,19 @@ impl RewriteStrategy for GreedyRewriteStrategy {
     ) -> impl Iterator<Item = RewriteResult<Self::Cost>> {
         let rewrites = rewrites
             .into_iter()
-            .map(|rw| (rw.operation_count_delta(circ), rw))
-            .filter(|(delta, _)| *delta < 0)
-            .sorted_by_key(|(delta, _)| *delta);
-        let mut changed_nodes = HashSet::new();
-        let mut cost_delta = 0;
-        let mut circ = circ.clone();
-        for (delta, rewrite) in rewrites {
-            if rewrite
-                .subgraph()
-                .nodes()
-                .iter()
-                .any(|n| changed_nodes.contains(n))
-            {
-                continue;
-            }
-            changed_nodes.extend(rewrite.subgraph().nodes().iter().copied());
-            cost_delta += delta;
+            .map(|rw| {
+                let delta = rw.operation_count_delta(circ);
+                (rw, delta)
+            })
+            .filter(|(_, delta)| *delta < 0)
+            .sorted_by_key(|(_, delta)| *delta)
+            .collect_vec();
+        let (circ, cost_delta, _) = compose_rewrites(circ, &rewrites, |rewrite, circ| {
             rewrite
-                .apply(&mut circ)
+                .clone()
+                .apply(circ)
                 .expect("Could not perform rewrite in greedy strategy");
-        }
+        });
         iter::once((circ, cost_delta).into())
     }
 
@@ -153,6 +150,63 @@ impl RewriteStrategy for GreedyRewriteStrategy {
     }
 }
 
+/// Apply as many rewrites as possible to a copy of the circuit, in the given
+/// order, skipping those that can no longer be applied.
+///
+/// Returns the rewritten circuit, the sum of the cost deltas of the rewrites
+/// that have been applied, and their number.
+fn compose_rewrites<D: Default + Clone + AddAssign>(
+    circ: &Circuit,
+    rewrites: &[(CircuitRewrite, D)],
+    apply: impl Fn(&CircuitRewrite, &mut Circuit),
+) -> (Circuit, D, u16) {
+    let compose = |check_convex: bool| {
+        let mut circ = circ.clone();
+        let mut changed_nodes = HashSet::new();
+        let mut cost_delta = D::default();
+        let mut count = 0;
+        for (rewrite, delta) in rewrites {
+            if rewrite
+                .invalidation_set()
+                .any(|n| changed_nodes.contains(&n))
+            {
+                continue;
+            }
+            if check_convex && count > 0 && !is_convex(rewrite.subgraph(), &circ) {
+                continue;
+            }
+            changed_nodes.extend(rewrite.invalidation_set());
+            cost_delta += delta.clone();
+            count += 1;
+            apply(rewrite, &mut circ);
+        }
+        (circ, cost_delta, count)
+    };
+
+    // Rewrites on disjoint regions may depend on each other in a cycle once
+    // they are applied together. As that is rare, only check for it in the end.
+    let composed = compose(false);
+    if composed.2 > 1 && has_cycle(&composed.0) {
+        compose(true)
+    } else {
+        composed
+    }
+}
+
+/// Whether no path leaves the subgraph and enters it again.
+fn is_convex(subgraph: &SiblingSubgraph, circ: &Circuit) -> bool {
+    !matches!(
+        SiblingSubgraph::try_from_nodes(subgraph.nodes(), circ.hugr()),
+        Err(InvalidSubgraph::NotConvex)
+    )
+}
+
+/// Whether some operations of the circuit depend on each other in a cycle.
+fn has_cycle(circ: &Circuit) -> bool {
+    let (region, _) = circ.hugr().region_portgraph(circ.parent());
+    Topo::new(&region).iter(&region).count() < circ.hugr().children(circ.parent()).count()
+}
+
 /// Exhaustive strategies based on cost functions and thresholds.
 ///
 /// Every possible rewrite is applied to a copy of the input circuit. In
@@ -205,28 +259,13 @@ impl<T: StrategyCost> RewriteStrategy for ExhaustiveGreedyStrategy<T> {
             .collect_vec();
 
         (0..rewrites.len()).map(move |i| {
-            let mut curr_circ = circ.clone();
-            let mut changed_nodes = HashSet::new();
-            let mut cost_delta = Default::default();
-            let mut composed_rewrite_count = 0;
-            for (rewrite, delta) in &rewrites[i..] {
-                if !changed_nodes.is_empty()
-                    && rewrite
-                        .invalidation_set()
-                        .any(|n| changed_nodes.contains(&n))
-                {
-                    continue;
-                }
-                changed_nodes.extend(rewrite.invalidation_set());
-                cost_delta += delta.clone();
-
-                composed_rewrite_count += 1;
-
-                rewrite
-                    .clone()
-                    .apply_notrace(&mut curr_circ)
-                    .expect("Could not perform rewrite in exhaustive greedy strategy");
-            }
+            let (mut curr_circ, cost_delta, composed_rewrite_count) =
+                compose_rewrites(circ, &rewrites[i..], |rewrite, circ| {
+                    rewrite
+                        .clone()
+                        .apply_notrace(circ)
+                        .expect("Could not perform rewrite in exhaustive greedy strategy");
+                });
 
             curr_circ.add_rewrite_trace(RewriteTrace::new(composed_rewrite_count));
             (curr_circ, cost_delta).into()
-- 
2.43.0


From 7ae4bdb4b91b85b0fa945bd230f7895cbbb4a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 28/66] fix: no rewrite rules from patterns with a copied
 output

A pattern that returns the same value twice generated rewrites that connected
several values to one port.
---
 tket/src/rewrite/ecc_rewriter.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tket/src/rewrite/ecc_rewriter.rs b/tket/src/rewrite/ecc_rewriter.rs
index 24d717a..bd0f713 100644
--- a/tket/src/rewrite/ecc_rewriter.rs
+++ b/tket/src/rewrite/ecc_rewriter.rs
@@ -266,6 +266,11 @@ fn get_patterns(rep_sets: &[EqCircClass]) -> Vec<Option<(CircuitPattern, Vec<usi
             for &qb in empty_qbs.iter().rev() {
                 remove_empty_wire(&mut circ, qb).unwrap();
             }
+            // A copied output cannot be told apart in a match, so there is no
+            // way to connect the outputs of the replacement.
+            if has_copied_output(&circ) {
+                return None;
+            }
             CircuitPattern::try_from_circuit(&circ)
                 .ok()
                 .map(|circ| (circ, empty_qbs))
@@ -273,6 +278,16 @@ fn get_patterns(rep_sets: &[EqCircClass]) -> Vec<Option<(CircuitPattern, Vec<usi
         .collect()
 }
 
+/// Whether some value is connected to multiple outputs of the circuit.
+fn has_copied_output(circ: &Circuit) -> bool {
+    let hugr = circ.hugr();
+    let output = circ.output_node();
+    !hugr
+        .in_value_types(output)
+        .flat_map(|(port, _)| hugr.single_linked_output(output, port))
+        .all_unique()
+}
+
 /// The port offsets of wires that are empty.
 fn empty_wires(circ: &Circuit<impl HugrView<Node = Node>>) -> Vec<usize> {
     let hugr = circ.hugr();
-- 
2.43.0


From a8070e3153b5b38e61444e4d565c932c00e89e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 29/66] hook: let the verification harness build intervals on
 resource paths

---
 tket/src/subcircuit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tket/src/subcircuit.rs b/tket/src/subcircuit.rs
index f29f3db..7b8c519 100644
--- a/tket/src/subcircuit.rs
+++ b/tket/src/subcircuit.rs
@@ -5,3 +5,5 @@ mod expression;
 pub use expression::CopyableExpr;
 
 mod interval;
+#[cfg(tket_verif)]
+pub use interval::{Interval, InvalidInterval};
-- 
2.43.0


From 96394279a25f941bc4ca12f56b30d82b103dcb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 30/66] fix: extending an interval reports nodes that are not
 on its resource path

---
 tket/src/subcircuit/interval.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tket/src/subcircuit/interval.rs b/tket/src/subcircuit/interval.rs
index 1e36e79..e506455 100644
--- a/tket/src/subcircuit/interval.rs
+++ b/tket/src/subcircuit/interval.rs
@@ -264,7 +264,15 @@ impl<N: HugrNode> Interval<N> {
         match self.position_in_interval(pos, scope) {
             // pos is already within the interval
             Ordering::Equal => {
-                return Ok(None);
+                let resource_id = self.resource_id(scope);
+                let on_path = Direction::BOTH
+                    .iter()
+                    .any(|&dir| scope.get_port(node, resource_id, dir).is_some());
+                return if on_path {
+                    Ok(None)
+                } else {
+                    Err(InvalidInterval::NotOnResourcePath(node))
+                };
             }
             // pos is before the interval
             Ordering::Less => {
-- 
2.43.0


From f9d8d82962395a95dd4dc94bc3c8b3aab7bfe4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 31/66] fix: order the inputs of copyable expressions as
 documented

---
 tket/src/subcircuit/expression.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index d84d83a..8febe59 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -280,11 +280,16 @@ fn sort_inputs<N: HugrNode>(
                 // Order by allowed input ports first (Left comes first)
                 Either::Left(pos)
             } else {
-                // Then order by nodes_to_exclude order (Right comes last)
+                // Then order by nodes_to_exclude order (Right comes last), and
+                // put inputs from any other nodes at the end.
                 let (prev_node, _) = hugr
                     .single_linked_output(node, port)
                     .expect("valid dataflow wire");
-                Either::Right(nodes_to_exclude.get_index_of(&prev_node))
+                Either::Right(
+                    nodes_to_exclude
+                        .get_index_of(&prev_node)
+                        .unwrap_or(nodes_to_exclude.len()),
+                )
             }
         })
         .map(|np| vec![np])
-- 
2.43.0


From 444086a0be6ad1a886e4032984d9590d53dfb242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 32/66] fix: the first output of a copyable expression is its
 value

---
 tket/src/subcircuit/expression.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index 8febe59..9476dd5 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -134,6 +134,9 @@ impl<N: HugrNode> CopyableExpr<N> {
     ) -> ExprArgs<N> {
         let mut args = ExprArgs::default();
 
+        // The value of the expression is always its first output.
+        args.outputs.insert(output);
+
         // Queues and set useful during traversal.
         let mut curr_nodes = PriorityQueue::new();
         let prio = |node: N| circuit.get_position(node).expect("known node has position");
-- 
2.43.0


From bb82ab00fe4e2cb257cdc9a0aea02063b4c5ff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 33/66] fix: copyable expressions are refused exactly when they
 are not convex

---
 tket/src/subcircuit/expression.rs | 35 ++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index 9476dd5..3df3b46 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -93,7 +93,7 @@ impl<N: HugrNode> CopyableExpr<N> {
             admissible_node(node, &nodes_to_exclude, circuit.hugr(), &circuit_nodes)
         });
 
-        if circuit.any_reachable_from(outputs.iter().copied(), inputs.iter().copied()) {
+        if !is_convex(&nodes, &inputs, circuit) {
             return Err(InvalidSubgraph::NotConvex);
         }
 
@@ -232,6 +232,39 @@ fn admissible_node<N: HugrNode>(
         && circuit_nodes.contains(&node)
 }
 
+/// Whether no path leaves the expression made of `nodes` and enters it again.
+///
+/// Edges between `nodes` are part of the expression, unless they end at one of
+/// its `inputs`.
+fn is_convex<N: HugrNode>(
+    nodes: &[N],
+    inputs: &IndexSet<(N, IncomingPort)>,
+    circuit: &ResourceScope<impl HugrView<Node = N>>,
+) -> bool {
+    let hugr = circuit.hugr();
+    let expr_nodes = nodes.iter().copied().collect::<BTreeSet<_>>();
+
+    // The nodes at the end of edges that leave the expression.
+    let successors = nodes
+        .iter()
+        .flat_map(|&node| hugr.node_outputs(node).map(move |port| (node, port)))
+        .flat_map(|(node, port)| hugr.linked_inputs(node, port))
+        .filter(|&(node, port)| !expr_nodes.contains(&node) || inputs.contains(&(node, port)))
+        .map(|(node, _)| node)
+        .collect::<BTreeSet<_>>();
+    if !successors.is_disjoint(&expr_nodes) {
+        return false;
+    }
+
+    let starts = successors
+        .into_iter()
+        .flat_map(|node| hugr.node_outputs(node).map(move |port| (node, port)));
+    let ends = nodes
+        .iter()
+        .flat_map(|&node| hugr.node_inputs(node).map(move |port| (node, port)));
+    !circuit.any_reachable_from(starts, ends)
+}
+
 #[derive(Debug)]
 struct ExprArgs<N> {
     inputs: IndexSet<(N, IncomingPort)>,
-- 
2.43.0


From 492e299b36c94f5038f27f9553d154be4038ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 34/66] fix: controlled CZ and multi-controlled Z had the wrong
 phase

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 9f54663..82f313d 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -385,11 +385,12 @@ impl<N: HugrNode> ModifierResolver<N> {
                 Ok(pv)
             }
             CZ => {
-                // reduce CZ to CRz(pi)
-                let mut pv = self.modify_tket_op(n, CRz, new_fn, ancilla)?;
-                let halfturn = new_fn.add_load_value(ConstRotation::new(1.0).unwrap());
-                let dw = pv.incoming.remove(2);
-                connect(new_fn, &dw, &halfturn.into())?;
+                // Cn+1Z(cs,c,t) = H(t); Cn+1X(cs,c,t); H(t);
+                let h1 = new_fn.add_child_node(H);
+                let h2 = new_fn.add_child_node(H);
+                let mut pv = self.modify_tket_op(n, CX, new_fn, ancilla)?;
+                pv.incoming[1] = connect_by_num(new_fn, &pv.incoming[1], h1, 0);
+                pv.outgoing[1] = connect_by_num(new_fn, &pv.outgoing[1], h2, 0);
                 Ok(pv)
             }
             X | CX | Toffoli => {
-- 
2.43.0


From f91b43ac8b6b850d2b287c52e6dd85b43a54b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 35/66] fix: controlled Toffoli swapped its control wires

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 82f313d..3865b9f 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -454,7 +454,8 @@ impl<N: HugrNode> ModifierResolver<N> {
                     this.modify_tket_op(n, V, new_fn, ancilla)
                 })?;
                 for _ in 0..gate_control {
-                    outgoing.push(self.pop_control().unwrap().into());
+                    // The controls are popped in reverse order.
+                    outgoing.insert(0, self.pop_control().unwrap().into());
                 }
                 connect(new_fn, &targ.into(), &pv_cnrx.incoming[0])?;
                 // connect(new_fn, &half_pos.into(), &pv_cnrx.incoming[1])?;
-- 
2.43.0


From afd614b7a26b7a33dacd9dd84df53a5bb7e898d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 36/66] fix: order the control arrays of a modified signature
 like the modifiers

---
 tket/src/modifier/modifier_resolver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 33d1404..7a04897 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -704,7 +704,8 @@ impl<N: HugrNode> ModifierResolver<N> {
             input.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
             output.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
         } else {
-            for ctrls in &self.modifiers.accum_ctrl {
+            // Each array is inserted in front of the former ones.
+            for ctrls in self.modifiers.accum_ctrl.iter().rev() {
                 let n = *ctrls as u64;
                 input.to_mut().insert(0, array_type(n, qb_t()));
                 output.to_mut().insert(0, array_type(n, qb_t()));
-- 
2.43.0


From b051fd5bd743eef7a9b1d9b2e029e882f6052090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 37/66] fix: wire modified DFGs, CFGs and calls by their
 original signature

---
 tket/src/modifier/modifier_resolver.rs             | 4 ++--
 tket/src/modifier/modifier_resolver/call_modify.rs | 2 +-
 tket/src/modifier/modifier_resolver/dfg_modify.rs  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 7a04897..92c6196 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -1033,7 +1033,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let mut signature = cfg.signature.clone();
         self.modify_signature(&mut signature, true);
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
-        let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output.clone())?;
+        let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output)?;
         self.modify_dfg_body(h, old_bb, &mut new_bb)?;
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
@@ -1049,7 +1049,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new,
-            (signature.input.iter(), signature.output.iter()),
+            (cfg.signature.input.iter(), cfg.signature.output.iter()),
             (0, 0, offset),
         )?;
         // self.wire_others(n, cfg.into(), new, new_dfg.hugr().get_optype(new))?;
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 8ade56e..f75c11c 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -43,7 +43,6 @@ impl<N: HugrNode> ModifierResolver<N> {
         let type_args = call.type_args.clone();
         self.modify_signature(poly_sig.body_mut(), false);
         let new_call = Call::try_new(poly_sig, type_args).map_err(BuildError::from)?;
-        let signature = (*new_call.signature()).clone();
         let new_call_fn_port = new_call.called_function_port();
         let new_call_node = new_dfg.add_child_node(new_call);
 
@@ -60,6 +59,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let controls = self.unpack_controls(new_dfg, controls)?;
         *self.controls() = controls;
         // wire the inputs/outputs
+        let signature = call.signature();
         self.wire_node_inout(
             n,
             new_call_node,
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2647184..2a8a169 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -441,7 +441,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let mut signature = dfg.signature.clone();
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
-        let mut builder = DFGBuilder::new(signature.clone()).unwrap();
+        let mut builder = DFGBuilder::new(signature).unwrap();
         self.modify_dfg_body(h, n, &mut builder)?;
         let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
 
@@ -456,7 +456,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new_dfg,
-            (signature.input.iter(), signature.output.iter()),
+            (dfg.signature.input.iter(), dfg.signature.output.iter()),
             (0, 0, offset),
         )?;
 
-- 
2.43.0


From a3d784a52c7d351b7dfbd7ac474428f176c894e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 38/66] fix: keep every static edge of a modified function's
 calls

---
 tket/src/modifier/modifier_resolver.rs        |  7 ++--
 .../modifier/modifier_resolver/call_modify.rs | 12 ++++--
 .../modifier/modifier_resolver/dfg_modify.rs  | 38 ++++++++++++++-----
 3 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 92c6196..4936a11 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -314,7 +314,7 @@ pub struct ModifierResolver<N = Node> {
     /// This is needed to avoid modifying a node that is generated during the process.
     worklist: VecDeque<N>,
     /// A map of static edges to be added after insertion of subgraph.
-    call_map: HashMap<N, (Node, IncomingPort)>,
+    call_map: HashMap<N, Vec<(Node, IncomingPort)>>,
     // TODO:
     // Should keep track of the collection of modifiers that are applied to the same function.
     // This will prevent the duplicated generation of Controlled-functions.
@@ -450,7 +450,7 @@ impl<N: HugrNode> ModifierResolver<N> {
     fn corresp_map(&mut self) -> &mut HashMap<DirWire<N>, Vec<DirWire>> {
         &mut self.corresp_map
     }
-    fn call_map(&mut self) -> &mut HashMap<N, (Node, IncomingPort)> {
+    fn call_map(&mut self) -> &mut HashMap<N, Vec<(Node, IncomingPort)>> {
         &mut self.call_map
     }
 
@@ -1032,13 +1032,14 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         let mut signature = cfg.signature.clone();
         self.modify_signature(&mut signature, true);
+        let parent_call_map = mem::take(self.call_map());
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
         let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output)?;
         self.modify_dfg_body(h, old_bb, &mut new_bb)?;
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
 
-        let new = self.insert_sub_dfg(new_dfg, new_cfg)?;
+        let new = self.insert_sub_dfg(new_dfg, new_cfg, parent_call_map)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index f75c11c..eabdcf1 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -35,7 +35,9 @@ impl<N: HugrNode> ModifierResolver<N> {
             // If the function need not be modified, just copy the Call node as is.
             let new = self.add_node_no_modification(h, n, call.clone(), new_dfg)?;
             self.call_map()
-                .insert(callee.0, (new, call.called_function_port()));
+                .entry(callee.0)
+                .or_default()
+                .push((new, call.called_function_port()));
             return Ok(());
         };
 
@@ -47,7 +49,9 @@ impl<N: HugrNode> ModifierResolver<N> {
         let new_call_node = new_dfg.add_child_node(new_call);
 
         self.call_map()
-            .insert(new_callee, (new_call_node, new_call_fn_port));
+            .entry(new_callee)
+            .or_default()
+            .push((new_call_node, new_call_fn_port));
         // wire the controls
         let mut controls = self.pack_controls(new_dfg)?;
         for (i, control) in controls.iter_mut().enumerate() {
@@ -202,7 +206,9 @@ impl<N: HugrNode> ModifierResolver<N> {
         let load = LoadFunction::try_new(modified_sig, load.type_args).map_err(BuildError::from)?;
         let new_load = new_dfg.add_child_node(load);
         self.call_map()
-            .insert(modified_fn, (new_load, IncomingPort::from(0)));
+            .entry(modified_fn)
+            .or_default()
+            .push((new_load, IncomingPort::from(0)));
         *self.modifiers_mut() = modifiers;
 
         // Make new IndirectCall
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2a8a169..24f4bd5 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -343,8 +343,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         let call_map = mem::replace(self.call_map(), old_call_map);
         let insertion_result = h.insert_from_view(h.module_root(), new_fn.hugr());
         let new_call_map = update_call_map(&call_map, &insertion_result.node_map);
-        for (old_in, (new_n, new_port)) in new_call_map.into_iter() {
-            h.connect(old_in, 0, new_n, new_port);
+        for (old_in, targets) in new_call_map.into_iter() {
+            for (new_n, new_port) in targets {
+                h.connect(old_in, 0, new_n, new_port);
+            }
         }
 
         // set unitarity metadata
@@ -417,16 +419,20 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 
     /// Inserts a sub DFG into the given parent DFG, updating the call map accordingly.
+    /// The current call map holds the nodes of the sub DFG, and `parent_call_map` those of the parent DFG.
     pub(super) fn insert_sub_dfg(
         &mut self,
         parent_dfg: &mut impl Container,
         builder: impl Container,
+        parent_call_map: HashMap<N, Vec<(Node, IncomingPort)>>,
     ) -> Result<Node, ModifierResolverErrors<N>> {
         let insertion_result = parent_dfg.add_hugr_view(builder.hugr());
 
         let insertion_correspondence = insertion_result.node_map;
-        let new_call_map = update_call_map(self.call_map(), &insertion_correspondence);
-        *self.call_map() = new_call_map;
+        let sub_call_map = mem::replace(self.call_map(), parent_call_map);
+        for (func, targets) in update_call_map(&sub_call_map, &insertion_correspondence) {
+            self.call_map().entry(func).or_default().extend(targets);
+        }
 
         Ok(insertion_result.inserted_entrypoint)
     }
@@ -442,8 +448,9 @@ impl<N: HugrNode> ModifierResolver<N> {
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
         let mut builder = DFGBuilder::new(signature).unwrap();
+        let parent_call_map = mem::take(self.call_map());
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
+        let new_dfg = self.insert_sub_dfg(parent_dfg, builder, parent_call_map)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
@@ -497,8 +504,9 @@ impl<N: HugrNode> ModifierResolver<N> {
                 .extend(iter::repeat_n(&qb_t(), self.control_num())),
             tail_loop.just_outputs.clone(),
         )?;
+        let parent_call_map = mem::take(self.call_map());
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder, parent_call_map)?;
 
         // connect the controls and register IOs
         let offset = self.control_num();
@@ -548,8 +556,9 @@ impl<N: HugrNode> ModifierResolver<N> {
             control_types.extend(conditional.outputs.iter()),
         )?;
 
-        // remember the current control qubits
+        // remember the current control qubits and calls
         let controls = self.controls().clone();
+        let parent_call_map = mem::take(self.call_map());
 
         let iter: Vec<_> = h.children(n).enumerate().collect();
         for (i, case_node) in iter {
@@ -598,7 +607,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // insert the conditional
-        let new_conditional = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_conditional = self.insert_sub_dfg(new_dfg, builder, parent_call_map)?;
 
         // connect the controls and register the IOs
         *self.controls() = Vec::new();
@@ -624,7 +633,10 @@ impl<N: HugrNode> ModifierResolver<N> {
 }
 
 /// composition of two call maps
-fn update_call_map<A, B, C, D>(f: &HashMap<A, (B, C)>, g: &HashMap<B, D>) -> HashMap<A, (D, C)>
+fn update_call_map<A, B, C, D>(
+    f: &HashMap<A, Vec<(B, C)>>,
+    g: &HashMap<B, D>,
+) -> HashMap<A, Vec<(D, C)>>
 where
     A: Clone + Eq + std::hash::Hash,
     B: Clone + Eq + std::hash::Hash,
@@ -632,7 +644,13 @@ where
     D: Clone,
 {
     f.iter()
-        .filter_map(|(a, (b, c))| g.get(b).map(|d| (a.clone(), (d.clone(), c.clone()))))
+        .map(|(a, targets)| {
+            let targets = targets
+                .iter()
+                .filter_map(|(b, c)| g.get(b).map(|d| (d.clone(), c.clone())))
+                .collect();
+            (a.clone(), targets)
+        })
         .collect()
 }
 
-- 
2.43.0


From 6d974cd8762610b00ae0607c527dd2dd7687c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 39/66] fix: swap the quantum rows of the signature under
 dagger

---
 tket/src/modifier/modifier_resolver.rs        | 22 ++++++++++++++++++-
 .../modifier/modifier_resolver/dfg_modify.rs  |  6 +++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 4936a11..75763e7 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -124,7 +124,7 @@ use hugr::{
     ops::{Const, OpType, CFG},
     std_extensions::collections::array::array_type,
     type_row,
-    types::{EdgeKind, FuncTypeBase, Signature, Type},
+    types::{EdgeKind, FuncTypeBase, Signature, Type, TypeRow},
     HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex, Wire,
 };
 
@@ -698,6 +698,7 @@ impl<N: HugrNode> ModifierResolver<N> {
     /// This false mode is used for function definitions,
     pub fn modify_signature(&self, signature: &mut Signature, flatten: bool) {
         let FuncTypeBase { input, output } = signature;
+        (*input, *output) = self.modify_rows(input, output);
 
         if flatten {
             let n = self.control_num();
@@ -713,6 +714,25 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
     }
 
+    /// The input/output rows of a node when its ports are wired by `wire_inout`,
+    /// without the control qubits.
+    /// If the dagger is applied, the quantum types of the inputs and the outputs are swapped.
+    pub(super) fn modify_rows(&self, input: &TypeRow, output: &TypeRow) -> (TypeRow, TypeRow) {
+        if !self.modifiers.dagger {
+            return (input.clone(), output.clone());
+        }
+        let (mut new_input, mut new_output) = (Vec::new(), Vec::new());
+        let (mut input, mut output) = (input.iter().peekable(), output.iter().peekable());
+        let is_quantum = |ty: &&Type| self.qubit_finder.contains_element_type(ty);
+        while input.peek().is_some() || output.peek().is_some() {
+            new_input.extend(input.peeking_take_while(|ty| !is_quantum(ty)).cloned());
+            new_output.extend(output.peeking_take_while(|ty| !is_quantum(ty)).cloned());
+            new_output.extend(input.peeking_take_while(is_quantum).cloned());
+            new_input.extend(output.peeking_take_while(is_quantum).cloned());
+        }
+        (new_input.into(), new_output.into())
+    }
+
     // We take arbitral topological order of the circuit so that we can plug the control qubits
     // and pass around them in that order. This might not be ideal, as it may produce an inefficient order.
     fn modify_op(
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 24f4bd5..7798202 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -550,10 +550,12 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         // Build a new Conditional with modified body.
         let control_types: TypeRow = iter::repeat_n(qb_t(), offset).collect::<Vec<_>>().into();
+        let (other_inputs, outputs) =
+            self.modify_rows(&conditional.other_inputs, &conditional.outputs);
         let mut builder = ConditionalBuilder::new(
             conditional.sum_rows.clone(),
-            control_types.extend(conditional.other_inputs.iter()),
-            control_types.extend(conditional.outputs.iter()),
+            control_types.extend(other_inputs.iter()),
+            control_types.extend(outputs.iter()),
         )?;
 
         // remember the current control qubits and calls
-- 
2.43.0


From 4c1c655261713c9c24356c077a24550fcf7f7583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 40/66] fix: put the controls of a modified tail loop before
 its other wires

---
 tket/src/modifier/modifier_resolver/dfg_modify.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 7798202..fec37a8 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -497,11 +497,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // Build a new TailLoop with modified body.
+        let control_types: TypeRow = vec![qb_t(); self.control_num()].into();
         let mut builder = TailLoopBuilder::new(
             tail_loop.just_inputs.clone(),
-            tail_loop
-                .rest
-                .extend(iter::repeat_n(&qb_t(), self.control_num())),
+            control_types.extend(tail_loop.rest.iter()),
             tail_loop.just_outputs.clone(),
         )?;
         let parent_call_map = mem::take(self.call_map());
-- 
2.43.0


From 81c97addb314d88b330ad559f3b98fa179e20c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 41/66] fix: topological order of the children of a daggered
 graph

---
 .../modifier/modifier_resolver/dfg_modify.rs  | 71 +++++++++++++++----
 1 file changed, 57 insertions(+), 14 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index fec37a8..a04bb80 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -14,11 +14,15 @@ use hugr::{
     hugr::hugrmut::HugrMut,
     ops::{Call, Conditional, DataflowBlock, DataflowOpTrait, OpType, TailLoop, DFG},
     std_extensions::collections::array::ArrayOpBuilder,
-    types::{FuncTypeBase, Signature, TypeArg, TypeRow},
+    types::{EdgeKind, FuncTypeBase, Signature, TypeArg, TypeRow},
     HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire,
 };
 use hugr_core::hugr::internal::PortgraphNodeMap;
-use petgraph::visit::{Topo, Walker};
+use petgraph::{
+    algo::toposort,
+    graphmap::DiGraphMap,
+    visit::{Topo, Walker},
+};
 
 use super::{DirWire, ModifierFlags, ModifierResolver, ModifierResolverErrors, PortExt};
 
@@ -55,19 +59,15 @@ impl<N: HugrNode> ModifierResolver<N> {
         n: N,
         new_dfg: &mut impl Dataflow,
     ) -> Result<(), ModifierResolverErrors<N>> {
-        let mut worklist = VecDeque::new();
-        // This block is needed to appease the borrow checker.
-        {
+        let worklist = if self.modifiers.dagger {
+            self.dagger_order(h, n)?
+        } else {
             let (region_graph, node_map) = h.region_portgraph(n);
-            let mut topo: Vec<_> = Topo::new(&region_graph).iter(&region_graph).collect();
-            // Reverse the topological order if dagger is applied.
-            if self.modifiers.dagger {
-                topo.reverse();
-            }
-            for old_n_id in topo {
-                worklist.push_back(node_map.from_portgraph(old_n_id));
-            }
-        }
+            Topo::new(&region_graph)
+                .iter(&region_graph)
+                .map(|old_n_id| node_map.from_portgraph(old_n_id))
+                .collect()
+        };
         self.with_worklist(worklist, |this| {
             while let Some(old_n) = this.worklist().pop_front() {
                 this.modify_op(h, old_n, new_dfg)?;
@@ -76,6 +76,49 @@ impl<N: HugrNode> ModifierResolver<N> {
         })
     }
 
+    /// The children of a dataflow graph, in a topological order of the daggered graph:
+    /// the edges that carry qubits are reversed and the others are not.
+    fn dagger_order(
+        &self,
+        h: &impl HugrMut<Node = N>,
+        n: N,
+    ) -> Result<VecDeque<N>, ModifierResolverErrors<N>> {
+        // The I/O nodes are not modified with the other children.
+        let is_inner = |node: &N| {
+            let optype = h.get_optype(*node);
+            !optype.is_input() && !optype.is_output()
+        };
+        let mut order = DiGraphMap::<N, ()>::new();
+        for node in h.children(n).filter(is_inner) {
+            order.add_node(node);
+            for port in h.node_outputs(node) {
+                let reversed = match h.get_optype(node).port_kind(port) {
+                    Some(EdgeKind::StateOrder) => continue,
+                    Some(EdgeKind::Value(ty)) => self.qubit_finder.contains_element_type(&ty),
+                    _ => false,
+                };
+                for (target, _) in h.linked_inputs(node, port) {
+                    if h.get_parent(target) != Some(n) || !is_inner(&target) {
+                        continue;
+                    }
+                    if reversed {
+                        order.add_edge(target, node, ());
+                    } else {
+                        order.add_edge(node, target, ());
+                    }
+                }
+            }
+        }
+        toposort(&order, None).map(Into::into).map_err(|cycle| {
+            let node = cycle.node_id();
+            ModifierResolverErrors::unresolvable(
+                node,
+                "Classical value that depends on the qubits cannot be daggered.".to_string(),
+                h.get_optype(node).clone(),
+            )
+        })
+    }
+
     /// Modifies the I/O nodes of a dataflow graph.
     /// These are handled separately from the other nodes since the place of control qubits
     /// may differ depending on the type of the dataflow graph.
-- 
2.43.0


From 2f645a0c6a6c988d11bf747883596ef06adc1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 42/66] fix: register the bit outputs of a decoded pytket
 barrier

---
 tket/src/serialize/pytket/extension/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index b525c8f..0cb75e1 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -158,7 +158,7 @@ impl PytketDecoder for PreludeEmitter {
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
-        decoder.add_node_with_wires(op, qubits, qubits, bits, &[], &[])?;
+        decoder.add_node_with_wires(op, qubits, qubits, bits, bits, &[])?;
 
         Ok(DecodeStatus::Success)
     }
-- 
2.43.0


From f7f709227c5df0ec202041f95cdd0478714fb553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 43/66] fix: decode natively only the classical expressions of
 plain input bits and one new output bit

---
 tket/src/serialize/pytket/extension/bool.rs | 48 ++++++++++-----------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 4ae5fed..2c7df5d 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -127,31 +127,6 @@ impl PytketDecoder for BoolEmitter {
             return Ok(DecodeStatus::Unsupported);
         };
 
-        // We only decode classical expressions if their operands are the input
-        // bits in 0..n order, and the output comes immediately after.
-        //
-        // This can be easily relaxed if needed.
-        for (i, reg) in clexpr.reg_posn.iter().enumerate() {
-            if reg.index != i as u32 || reg.bits.0.len() != 1 {
-                return Ok(DecodeStatus::Unsupported);
-            }
-        }
-        for (i, arg) in clexpr.expr.args.iter().enumerate() {
-            match arg {
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
-                }
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
-                }
-                _ => continue,
-            }
-        }
-
         let (op, num_inputs) = match clexpr.expr.op {
             ClOp::BitEq => (BoolOp::eq, 2),
             ClOp::BitNot => (BoolOp::not, 1),
@@ -165,6 +140,29 @@ impl PytketDecoder for BoolEmitter {
             return Ok(DecodeStatus::Unsupported);
         }
 
+        // We only decode classical expressions if their operands are the input
+        // bits in 0..n order, and a single output bit comes immediately after.
+        //
+        // This can be easily relaxed if needed.
+        let is_operand = |i: usize, arg: &ClArgument| {
+            let position = match arg {
+                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index })) => clexpr
+                    .bit_posn
+                    .iter()
+                    .find(|(var, _)| var == index)
+                    .map(|(_, position)| *position),
+                _ => None,
+            };
+            position == Some(i as u32)
+        };
+        if bits.len() != num_inputs + 1
+            || clexpr.output_posn.0 != [num_inputs as u32]
+            || clexpr.expr.args.len() != num_inputs
+            || !(clexpr.expr.args.iter().enumerate()).all(|(i, arg)| is_operand(i, arg))
+        {
+            return Ok(DecodeStatus::Unsupported);
+        }
+
         decoder.add_node_with_wires(
             op,
             qubits,
-- 
2.43.0


From 2a3cd0dc3c11ed41946e3be6babdce1bebe54372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 44/66] fix: record the new type of a converted wire when
 decoding pytket circuits

---
 tket/src/serialize/pytket/decoder/wires.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 5cc6402..2671796 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -778,8 +778,7 @@ impl WireTracker {
         if wire == new_wire {
             Ok(FoundWire::Register(self.wires[&wire].clone()))
         } else {
-            let ty: Arc<Type> = wire_data.ty.clone();
-            self.track_wire(new_wire, ty, wire_qubits, wire_bits)?;
+            self.track_wire(new_wire, Arc::new(ty.clone()), wire_qubits, wire_bits)?;
             self.mark_wire_outdated(wire);
             Ok(FoundWire::Register(self.wires[&new_wire].clone()))
         }
-- 
2.43.0


From 6c840865eb24d85dd8ff0dc2a650cae6180a316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 45/66] fix: keep copyable pytket bits usable after an
 operation reads them

---
 tket/src/serialize/pytket/decoder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 5a5cb20..4e74110 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -705,9 +705,16 @@ impl<'h> PytketDecoderContext<'h> {
                 .hugr_mut()
                 .connect(wire.node(), wire.source(), node, input_idx);
         }
-        input_bits.iter().take(op_input_count.bits).for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
+        // Bits in copyable wires can be used again after this node. The ones in
+        // linear wires have been consumed by it.
+        let consumed_bits = input_wires
+            .iter_values()
+            .filter(|wire| !wire.ty().copyable())
+            .flat_map(|wire| wire.bits(self))
+            .collect_vec();
+        for bit in consumed_bits {
+            self.wire_tracker.mark_bit_outdated(bit);
+        }
 
         // Register the output wires.
         let output_qubits = output_qubits.iter().take(op_output_count.qubits).cloned();
-- 
2.43.0


From 24e57398104c29e3319fcfe99f988f2b03df894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:52 +0000
Subject: [PATCH 46/66] fix: pass the free variables of a pytket circuit box to
 its decoded region

---
 tket/src/serialize/pytket/decoder.rs        | 13 ++++++++++++-
 tket/src/serialize/pytket/decoder/wires.rs  |  6 ++++++
 tket/src/serialize/pytket/extension/core.rs | 11 ++++++++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 4e74110..2589e4a 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -21,7 +21,8 @@ use hugr::extension::prelude::{bool_t, qb_t};
 use hugr::ops::handle::{DataflowOpID, NodeHandle};
 use hugr::ops::{OpParent, OpTrait, OpType, DFG};
 use hugr::types::{Signature, Type, TypeRow};
-use hugr::{Hugr, HugrView, Node, OutgoingPort, Wire};
+use hugr::{Direction, Hugr, HugrView, Node, OutgoingPort, Wire};
+use hugr_core::hugr::internal::HugrMutInternals;
 use tracked_elem::{TrackedBitId, TrackedQubitId};
 
 use itertools::Itertools;
@@ -411,6 +412,16 @@ impl<'h> PytketDecoderContext<'h> {
             );
         }
 
+        // The builder does not add ports to the region's node when it adds
+        // inputs for new parameters.
+        let region = self.builder.container_node();
+        let region_inputs = self.builder.hugr().get_optype(region).input_count();
+        let missing_ports =
+            region_inputs.saturating_sub(self.builder.hugr().node_inputs(region).count());
+        self.builder
+            .hugr_mut()
+            .add_ports(region, Direction::Incoming, missing_ports as isize);
+
         Ok(self
             .builder
             .finish_sub_container()
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 2671796..98be11a 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -412,6 +412,12 @@ impl WireTracker {
         self.parameter_vars
     }
 
+    /// Returns the names of the variables with an input in the hugr, in the
+    /// order they were added.
+    pub(in crate::serialize::pytket) fn input_parameters(&self) -> impl Iterator<Item = &str> {
+        self.parameter_vars.iter().map(String::as_str)
+    }
+
     /// Set the output qubit permutation.
     ///
     /// This is used to reorder the qubit registers at the output, according to
diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 3cabde8..8aea593 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -86,10 +86,19 @@ impl PytketDecoder for CoreDecoder {
                     decoder.opaque_subgraphs,
                 )?;
                 nested_decoder.run_decoder(&serial_circuit.commands, None)?;
+                // Variables used in the box, that required additional inputs to the region.
+                let variables = nested_decoder
+                    .wire_tracker
+                    .input_parameters()
+                    .skip(params.len())
+                    .map(ToString::to_string)
+                    .collect_vec();
                 let internal = nested_decoder.finish(&[])?.node();
 
+                let variables = variables.iter().map(|v| decoder.load_half_turns(v));
+                let params = params.iter().copied().chain(variables).collect_vec();
                 decoder
-                    .wire_up_node(internal, qubits, qubits, bits, bits, params)
+                    .wire_up_node(internal, qubits, qubits, bits, bits, &params)
                     .map_err(|e| e.hugr_op("DFG"))?;
 
                 Ok(DecodeStatus::Success)
-- 
2.43.0


From 61b668b9d432e06adf2217c3cee66148ae3ad8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 47/66] fix: bracket the angle when encoding qsystem rotations
 in half turns

---
 tket-qsystem/src/pytket/qsystem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 96d0483..849b04d 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -88,7 +88,7 @@ impl QSystemEmitter {
             for param in inputs.params.to_mut() {
                 *param = match param.strip_suffix(") * (pi)") {
                     Some(s) if s.starts_with("(") => s[1..].to_string(),
-                    _ => format!("{param} / (pi)"),
+                    _ => format!("({param}) / (pi)"),
                 };
             }
             make_tk1_operation(serial_op, inputs)
-- 
2.43.0


From b34d165b273cae7934f67ec5a891dfbc919381b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 48/66] fix: sign and associativity of exponents in pytket
 parameter expressions

---
 .../serialize/pytket/decoder/param/param.pest | 18 +++++++++-------
 .../serialize/pytket/decoder/param/parser.rs  | 21 ++++++++++++-------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/param.pest b/tket/src/serialize/pytket/decoder/param/param.pest
index d672d13..a1fb929 100644
--- a/tket/src/serialize/pytket/decoder/param/param.pest
+++ b/tket/src/serialize/pytket/decoder/param/param.pest
@@ -12,10 +12,12 @@ variable = _{ ident }
 
 /// Explicit numeric constants.
 ///
+/// The sign is parsed as an [`unary_minus`], since it binds less tightly than
+/// the exponents: `-2**2` is `-(2**2)`.
+///
 /// The atomic marker `@` ensures no whitespace is present inside.
 num = @{
-    "-"?
-    ~ ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
+    ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
@@ -32,8 +34,10 @@ infix_operator = _{ add | subtract | power | multiply | divide }
 
 /// Function calls like (`max(2,4)`)
 function_call = { ident ~ ( "()" | "(" ~ expr ~ ("," ~ expr)* ~ ","? ~ ")") }
-/// Unary negation, with a special identifier
-unary_minus = { "-" ~ term }
+/// Unary negation, with a special identifier.
+///
+/// The rust parser defines its precedence.
+unary_minus = { "-" }
 
 /// Implicit multiplication lets us write expressions like `2x`.
 /// This has higher precedence that `infix_operator`s.
@@ -42,10 +46,10 @@ unary_minus = { "-" ~ term }
 /// If we used `term` directly, the expression `5-2` could be interpreted as `5 * (-2)`.
 implicit_multiply = { num ~ ("(" ~ expr ~ ")" | function_call | variable) }
 
-/// Expressions are sequences of terms and infix operators
-expr = { term ~ (infix_operator ~ term)* }
+/// Expressions are sequences of terms, possibly negated, and infix operators
+expr = { unary_minus* ~ term ~ (infix_operator ~ unary_minus* ~ term)* }
 /// A standalone term, with no infix operators at the root.
-term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | unary_minus | function_call | variable }
+term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | function_call | variable }
 
 /// Main entry point of the parser. Ensures we always parse the whole input.
 parameter = _{ SOI ~ expr ~ EOI }
diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index eadb2fe..b674c2f 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -79,18 +79,30 @@ lazy_static::lazy_static! {
             // Addition and subtract have equal precedence
             .op(Op::infix(add, Left) | Op::infix(subtract, Left))
             .op(Op::infix(multiply, Left) | Op::infix(divide, Left))
-            .op(Op::infix(power, Left))
+            // Negation is applied after exponentiation, `-a**b` is `-(a**b)`
+            .op(Op::prefix(unary_minus))
+            // Exponentiation is right-associative
+            .op(Op::infix(power, Right))
     };
 }
 
 /// Parse a match of the [`Rule::expr`] rule.
 ///
-/// This takes a sequence of rule matches alternating [`Rule::term`]s and infix operations.
+/// This takes a sequence of rule matches alternating [`Rule::term`]s and infix
+/// operations, where the terms may be preceded by [`Rule::unary_minus`]es.
 fn parse_infix_ops(pairs: Pairs<'_, Rule>) -> PytketParam<'_> {
     use ParameterType::*;
 
     PRATT_PARSER
         .map_primary(|primary| parse_term(primary))
+        .map_prefix(|_minus, arg| match arg {
+            PytketParam::Constant(half_turns) => PytketParam::Constant(-half_turns),
+            arg => PytketParam::Operation {
+                op: FloatOps::fneg.into(),
+                args: vec![arg],
+                param_ty: FloatHalfTurns,
+            },
+        })
         .map_infix(|lhs, op, rhs| {
             let (op, param_ty) = match op.as_rule() {
                 Rule::add => (RotationOp::radd.into(), Rotation),
@@ -126,11 +138,6 @@ fn parse_term(pair: Pair<'_, Rule>) -> PytketParam<'_> {
             }
         }
         Rule::num => parse_number(pair),
-        Rule::unary_minus => PytketParam::Operation {
-            op: FloatOps::fneg.into(),
-            args: vec![parse_term(pair.into_inner().next().unwrap())],
-            param_ty: FloatHalfTurns,
-        },
         Rule::function_call => parse_function_call(pair),
         Rule::ident => PytketParam::InputVariable {
             name: pair.as_str(),
-- 
2.43.0


From 883e76f218acc70c135f3e3b3a720ed0b1ad4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 49/66] fix: keep pytket parameters opaque when they have no
 float operation or constant

---
 .../serialize/pytket/decoder/param/parser.rs  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index b674c2f..954bc03 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -152,6 +152,10 @@ fn parse_number(pair: Pair<'_, Rule>) -> PytketParam<'_> {
     let half_turns = num
         .parse::<f64>()
         .unwrap_or_else(|_| panic!("`num` rule matched invalid number \"{num}\""));
+    // Numbers out of the floating point range cannot be stored as constants.
+    if !half_turns.is_finite() {
+        return PytketParam::Sympy(num);
+    }
     PytketParam::Constant(half_turns)
 }
 
@@ -163,14 +167,14 @@ fn parse_function_call(pair: Pair<'_, Rule>) -> PytketParam<'_> {
         .next()
         .expect("Function call must have a name")
         .as_str();
-    let op = match name {
-        "max" => FloatOps::fmax.into(),
-        "min" => FloatOps::fmin.into(),
-        "abs" => FloatOps::fabs.into(),
-        "floor" => FloatOps::ffloor.into(),
-        "ceil" => FloatOps::fceil.into(),
-        "round" => FloatOps::fround.into(),
-        // Unrecognized function name.
+    let op = match (name, args.len()) {
+        ("max", 2) => FloatOps::fmax.into(),
+        ("min", 2) => FloatOps::fmin.into(),
+        ("abs", 1) => FloatOps::fabs.into(),
+        ("floor", 1) => FloatOps::ffloor.into(),
+        ("ceil", 1) => FloatOps::fceil.into(),
+        ("round", 1) => FloatOps::fround.into(),
+        // Unrecognized function name, or number of arguments.
         // Treat it as an opaque sympy expression.
         _ => return PytketParam::Sympy(pair_str),
     };
-- 
2.43.0


From 2d7b8b5e008553064e8cb3cc0374235f9d52b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 50/66] fix: keep pytket bit registers that are shared by
 several wires

---
 tket/src/serialize/pytket/encoder/value_tracker.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index e78fec3..ab0ca4e 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -63,6 +63,12 @@ pub struct ValueTracker<N> {
     /// resorting to the `bit_reg_generator`.
     unused_bits: BTreeSet<TrackedBit>,
 
+    /// Number of registered wires holding each bit.
+    ///
+    /// Bits are copyable, so several wires may share a register. It can only be
+    /// reused once all of them are unregistered.
+    bit_wires: BTreeMap<TrackedBit, usize>,
+
     /// A generator of new registers units to use for qubit wires.
     qubit_reg_generator: RegisterUnitGenerator,
     /// A generator of new registers units to use for bit wires.
@@ -222,6 +228,7 @@ impl<N: HugrNode> ValueTracker<N> {
             wires: BTreeMap::new(),
             unused_qubits: BTreeSet::new(),
             unused_bits: BTreeSet::new(),
+            bit_wires: BTreeMap::new(),
             qubit_reg_generator: RegisterUnitGenerator::default(),
             bit_reg_generator: RegisterUnitGenerator::default(),
             input_params: Vec::with_capacity(param_variable_names.len()),
@@ -341,6 +348,7 @@ impl<N: HugrNode> ValueTracker<N> {
                 }
                 TrackedValue::Bit(bit) => {
                     self.unused_bits.remove(bit);
+                    *self.bit_wires.entry(*bit).or_default() += 1;
                 }
                 TrackedValue::Param(_) => {}
             }
@@ -413,7 +421,11 @@ impl<N: HugrNode> ValueTracker<N> {
                     self.unused_qubits.insert(*qb);
                 }
                 TrackedValue::Bit(bit) => {
-                    self.unused_bits.insert(*bit);
+                    let wires = self.bit_wires.entry(*bit).or_default();
+                    *wires = wires.saturating_sub(1);
+                    if *wires == 0 {
+                        self.unused_bits.insert(*bit);
+                    }
                 }
                 TrackedValue::Param(_) => {}
             }
-- 
2.43.0


From e51f063208f73f6fc1fd330dd45cbffd2d3b5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 51/66] fix: write pytket classical results to their own bits

---
 tket/src/serialize/pytket/encoder.rs            |  6 ++++--
 .../serialize/pytket/encoder/value_tracker.rs   | 17 +++++++++++++++++
 tket/src/serialize/pytket/extension/bool.rs     |  3 ++-
 tket/src/serialize/pytket/extension/tk1.rs      |  3 ++-
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 1759437..4f71172 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -1052,7 +1052,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         };
         let output_bits = match options.reuse_bits_fn {
             Some(f) => f(input_bits),
-            None => input_bits.to_vec(),
+            None => Vec::new(),
         };
 
         // Compute all the output parameters at once
@@ -1102,7 +1102,9 @@ impl<H: HugrView> PytketEncoderContext<H> {
             out_wire_values.extend(bits.by_ref().take(count.bits).map(TrackedValue::Bit));
             let reused_bit_count = out_wire_values.len() - non_bit_count;
             for _ in reused_bit_count..count.bits {
-                let b = self.values.new_bit();
+                // The input bits may be free already, but the command cannot
+                // repeat them.
+                let b = self.values.new_bit_excluding(input_bits);
                 new_outputs.bits.push(b);
                 out_wire_values.push(TrackedValue::Bit(b));
             }
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index ab0ca4e..421034b 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -313,6 +313,23 @@ impl<N: HugrNode> ValueTracker<N> {
         })
     }
 
+    /// Create a new bit register name, different from the ones in the list.
+    ///
+    /// See [`ValueTracker::new_bit`].
+    pub(super) fn new_bit_excluding(&mut self, exclude: &[TrackedBit]) -> TrackedBit {
+        let unused = self.unused_bits.iter().find(|b| !exclude.contains(b));
+        match unused.copied() {
+            Some(bit) => {
+                self.unused_bits.remove(&bit);
+                bit
+            }
+            None => {
+                self.bits.push(self.bit_reg_generator.next());
+                TrackedBit(self.bits.len() - 1)
+            }
+        }
+    }
+
     /// Register a new parameter string expression.
     ///
     /// Returns a unique identifier for the expression.
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 2c7df5d..93e42f4 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -60,7 +60,8 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         // variable inputs. If new [`BoolOp`]s are added that do not follow
         // this, the following code will need to be adjusted.
         let bit_count = (num_inputs + num_outputs) as usize;
-        let output_bits = (0..num_outputs).collect_vec();
+        // The outputs come after the inputs in the command's arguments.
+        let output_bits = (num_inputs..num_inputs + num_outputs).collect_vec();
         let mut expression = ClOperator::default();
         expression.op = clop;
         expression.args = (0..num_inputs)
diff --git a/tket/src/serialize/pytket/extension/tk1.rs b/tket/src/serialize/pytket/extension/tk1.rs
index 2cd84f6..e688b2c 100644
--- a/tket/src/serialize/pytket/extension/tk1.rs
+++ b/tket/src/serialize/pytket/extension/tk1.rs
@@ -53,7 +53,8 @@ impl<H: HugrView> PytketEmitter<H> for Tk1Emitter {
         encoder.emit_node_command(
             node,
             circ,
-            EmitCommandOptions::new(),
+            // The operation's outputs are the registers it acts on.
+            EmitCommandOptions::new().reuse_all_bits(),
             // Emit the pre-defined pytket operation stored in the metadata.
             move |_| op.serialised_op,
         )?;
-- 
2.43.0


From 9290023ae3b8cca69ca45f8f698534cc1a12bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 52/66] fix: start reused pytket registers from zero

---
 .../serialize/pytket/config/encoder_config.rs |  5 ++--
 .../serialize/pytket/encoder/value_tracker.rs | 26 +++++++++++++++++++
 tket/src/serialize/pytket/extension/bool.rs   |  4 +--
 tket/src/serialize/pytket/extension/tket.rs   | 16 +++++++++++-
 4 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize/pytket/config/encoder_config.rs b/tket/src/serialize/pytket/config/encoder_config.rs
index faf2f03..f0ebb25 100644
--- a/tket/src/serialize/pytket/config/encoder_config.rs
+++ b/tket/src/serialize/pytket/config/encoder_config.rs
@@ -122,8 +122,9 @@ impl<H: HugrView> PytketEncoderConfig<H> {
                 Value::Sum(sum) => {
                     if sum.sum_type == SumType::new_unary(2) {
                         let new_bit = encoder.values.new_bit();
-                        if value == &Value::true_val() {
-                            let op = set_bits_op(&[true]);
+                        let is_true = value == &Value::true_val();
+                        if is_true || !encoder.values.is_clean_bit(new_bit) {
+                            let op = set_bits_op(&[is_true]);
                             encoder.emit_command(op, &[], &[new_bit], None);
                         }
                         return Ok(Some(TrackedValues::new_bits([new_bit])));
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 421034b..1d44d1c 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -69,6 +69,12 @@ pub struct ValueTracker<N> {
     /// reused once all of them are unregistered.
     bit_wires: BTreeMap<TrackedBit, usize>,
 
+    /// Registers that held a value at some point in the circuit, and so may not
+    /// be in their initial zero state anymore.
+    written_qubits: BTreeSet<TrackedQubit>,
+    /// See `written_qubits`.
+    written_bits: BTreeSet<TrackedBit>,
+
     /// A generator of new registers units to use for qubit wires.
     qubit_reg_generator: RegisterUnitGenerator,
     /// A generator of new registers units to use for bit wires.
@@ -229,6 +235,8 @@ impl<N: HugrNode> ValueTracker<N> {
             unused_qubits: BTreeSet::new(),
             unused_bits: BTreeSet::new(),
             bit_wires: BTreeMap::new(),
+            written_qubits: BTreeSet::new(),
+            written_bits: BTreeSet::new(),
             qubit_reg_generator: RegisterUnitGenerator::default(),
             bit_reg_generator: RegisterUnitGenerator::default(),
             input_params: Vec::with_capacity(param_variable_names.len()),
@@ -302,6 +310,22 @@ impl<N: HugrNode> ValueTracker<N> {
         })
     }
 
+    /// Returns `true` if the register is in its initial zero state.
+    ///
+    /// This may not be the case for the registers returned by
+    /// [`ValueTracker::new_qubit`], as they get reused.
+    pub fn is_clean_qubit(&self, qb: TrackedQubit) -> bool {
+        !self.written_qubits.contains(&qb)
+    }
+
+    /// Returns `true` if the register is in its initial zero state.
+    ///
+    /// This may not be the case for the registers returned by
+    /// [`ValueTracker::new_bit`], as they get reused.
+    pub fn is_clean_bit(&self, bit: TrackedBit) -> bool {
+        !self.written_bits.contains(&bit)
+    }
+
     /// Create a new bit register name.
     ///
     /// Picks unused names from the `bits` list, if available, or generates
@@ -362,9 +386,11 @@ impl<N: HugrNode> ValueTracker<N> {
             match value {
                 TrackedValue::Qubit(qb) => {
                     self.unused_qubits.remove(qb);
+                    self.written_qubits.insert(*qb);
                 }
                 TrackedValue::Bit(bit) => {
                     self.unused_bits.remove(bit);
+                    self.written_bits.insert(*bit);
                     *self.bit_wires.entry(*bit).or_default() += 1;
                 }
                 TrackedValue::Param(_) => {}
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 93e42f4..a04da40 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -83,8 +83,8 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         };
 
         let new_bit = encoder.values.new_bit();
-        if const_b.value() {
-            let op = set_bits_op(&[true]);
+        if const_b.value() || !encoder.values.is_clean_bit(new_bit) {
+            let op = set_bits_op(&[const_b.value()]);
             encoder.emit_command(op, &[], &[new_bit], None);
         }
 
diff --git a/tket/src/serialize/pytket/extension/tket.rs b/tket/src/serialize/pytket/extension/tket.rs
index 15df13f..572977b 100644
--- a/tket/src/serialize/pytket/extension/tket.rs
+++ b/tket/src/serialize/pytket/extension/tket.rs
@@ -1,12 +1,16 @@
 //! Encoder and decoder for tket operations with native pytket counterparts.
 
+use std::borrow::Cow;
+
 use super::PytketEmitter;
 use crate::extension::sympy::SympyOp;
 use crate::extension::TKET_EXTENSION_ID;
 use crate::serialize::pytket::decoder::{
     DecodeStatus, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
-use crate::serialize::pytket::encoder::{EmitCommandOptions, EncodeStatus, PytketEncoderContext};
+use crate::serialize::pytket::encoder::{
+    make_tk1_operation, EmitCommandOptions, EncodeStatus, MakeOperationArgs, PytketEncoderContext,
+};
 use crate::serialize::pytket::extension::PytketDecoder;
 use crate::serialize::pytket::{PytketDecodeError, PytketEncodeError};
 use crate::{Circuit, TketOp};
@@ -83,6 +87,16 @@ impl TketOpEmitter {
                 let out_port = circ.hugr().node_outputs(node).next().unwrap();
                 let wire = Wire::new(node, out_port);
                 let qb = encoder.values.new_qubit();
+                if !encoder.values.is_clean_qubit(qb) {
+                    // The register was used before, and may not be in the zero state.
+                    let args = MakeOperationArgs {
+                        num_qubits: 1,
+                        num_bits: 0,
+                        params: Cow::Borrowed(&[]),
+                    };
+                    let reset = make_tk1_operation(PytketOptype::Reset, args);
+                    encoder.emit_command(reset, &[qb], &[], None);
+                }
                 encoder.values.register_wire(wire, [qb], circ)?;
                 return Ok(EncodeStatus::Success);
             }
-- 
2.43.0


From c8a44128ae5390462dd43cf5082bfbbbcfb3a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 53/66] fix: record the qubit permutation of encoded pytket
 circuits

---
 .../serialize/pytket/encoder/value_tracker.rs | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 1d44d1c..57f128d 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -10,7 +10,7 @@
 //! Extensions can define which elements they map to
 
 use std::borrow::Cow;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 
 use hugr::core::HugrNode;
 use hugr::ops::OpParent;
@@ -648,14 +648,8 @@ pub(super) fn compute_final_permutation(
     mut actual_outputs: Vec<RegisterUnit>,
     all_inputs: &[RegisterUnit],
 ) -> Vec<circuit_json::ImplicitPermutation> {
-    let declared_outputs: Vec<&RegisterUnit> = all_inputs.iter().collect();
     let mut actual_outputs_hashes: HashSet<RegisterHash> =
         actual_outputs.iter().map(RegisterHash::from).collect();
-    let mut input_hashes: HashMap<RegisterHash, usize> = HashMap::default();
-    for (i, inp) in all_inputs.iter().enumerate() {
-        let hash = inp.into();
-        input_hashes.insert(hash, i);
-    }
     // Extend `actual_outputs` with extra registers seen in the circuit.
     for reg in all_inputs {
         let hash = reg.into();
@@ -667,17 +661,15 @@ pub(super) fn compute_final_permutation(
 
     // Compute the final permutation.
     //
-    // For each element `reg` at the output of the circuit, we find its position `i` at the input,
-    // and find out the pytket output register associated with that position in the `declared_outputs` list.
+    // The value at the `i`-th output of the circuit is in register `reg`,
+    // and has to end up in the `i`-th declared register.
     let permutation = actual_outputs
-        .iter()
-        .map(|reg| {
-            let hash = reg.into();
-            let i = input_hashes.get(&hash).unwrap();
-            let out = declared_outputs[*i].clone();
+        .into_iter()
+        .zip(all_inputs)
+        .map(|(reg, out)| {
             circuit_json::ImplicitPermutation(
-                tket_json_rs::register::Qubit { id: reg.clone() },
-                tket_json_rs::register::Qubit { id: out },
+                tket_json_rs::register::Qubit { id: reg },
+                tket_json_rs::register::Qubit { id: out.clone() },
             )
         })
         .collect_vec();
-- 
2.43.0


From 2c64da3c051e268bf58d95a9831e40dbefeebaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:55 +0000
Subject: [PATCH 54/66] fix: keep the order of output bits when reassembling
 encoded circuits

---
 tket/src/serialize/pytket.rs                  |  2 +-
 tket/src/serialize/pytket/circuit.rs          | 12 +++++++++--
 tket/src/serialize/pytket/decoder.rs          | 21 +++++++++++++++++--
 tket/src/serialize/pytket/encoder.rs          |  1 +
 .../serialize/pytket/encoder/value_tracker.rs |  3 +++
 tket/src/serialize/pytket/extension/core.rs   |  2 +-
 6 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/tket/src/serialize/pytket.rs b/tket/src/serialize/pytket.rs
index 07af6e2..e569ee8 100644
--- a/tket/src/serialize/pytket.rs
+++ b/tket/src/serialize/pytket.rs
@@ -134,7 +134,7 @@ impl TKETDecode for SerialCircuit {
     ) -> Result<Node, Self::DecodeError> {
         let mut decoder = PytketDecoderContext::new(self, hugr, target, options, None)?;
         decoder.run_decoder(&self.commands, None)?;
-        Ok(decoder.finish(&[])?.node())
+        Ok(decoder.finish(&[], None)?.node())
     }
 
     fn encode(circuit: &Circuit, options: EncodeOptions) -> Result<Self, Self::EncodeError> {
diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 100eb6b..80e94cc 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -14,6 +14,7 @@ use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use rayon::iter::{IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
 use tket_json_rs::circuit_json::{Command as PytketCommand, SerialCircuit};
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use crate::serialize::pytket::decoder::PytketDecoderContext;
 use crate::serialize::pytket::opaque::SubgraphId;
@@ -69,6 +70,10 @@ pub(super) struct EncodedCircuitInfo {
     // TODO: The decoder does not currently connect these, everything that
     // _produces_ a parameter gets included in unsupported subgraphs instead.
     pub output_params: Vec<String>,
+    /// The bit registers holding each of the bits at the end of the encoded region.
+    ///
+    /// In contrast to qubits, pytket circuits do not define a permutation of the bits.
+    pub output_bits: Vec<RegisterUnit>,
 }
 
 /// Nodes and edges from the original region that could not be encoded into the
@@ -195,7 +200,9 @@ impl EncodedCircuit<Node> {
                 &encoded.serial_circuit.commands,
                 Some(&encoded.additional_nodes_and_wires),
             )?;
-            let decoded_node = decoder.finish(&encoded.output_params)?.node();
+            let decoded_node = decoder
+                .finish(&encoded.output_params, Some(&encoded.output_bits))?
+                .node();
 
             // Move any non-local edges from originating from the old input node.
             let old_input = hugr.get_io(original_region).unwrap()[0];
@@ -366,7 +373,8 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         let mut decoder =
             PytketDecoderContext::new(serial_circuit, &mut hugr, target, options, None)?;
         decoder.run_decoder(&serial_circuit.commands, None)?;
-        decoder.finish(&[])?;
+        let output_bits = &self.circuits[&region].output_bits;
+        decoder.finish(&[], Some(output_bits))?;
         Ok(hugr)
     }
 
diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 2589e4a..366878c 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -29,6 +29,7 @@ use itertools::Itertools;
 use serde_json::json;
 use tket_json_rs::circuit_json;
 use tket_json_rs::circuit_json::SerialCircuit;
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use super::{
     PytketDecodeError, METADATA_B_REGISTERS, METADATA_INPUT_PARAMETERS, METADATA_PHASE,
@@ -303,14 +304,30 @@ impl<'h> PytketDecoderContext<'h> {
     ///
     /// - `output_params`: A list of output parameter expressions to associate
     ///   with the region's outputs.
-    pub(super) fn finish(mut self, output_params: &[String]) -> Result<Node, PytketDecodeError> {
+    /// - `output_bits`: The bit registers to associate with the region's
+    ///   outputs, before any other bits in the circuit. If `None`, the bits are
+    ///   taken in the order of the serial circuit's registers.
+    pub(super) fn finish(
+        mut self,
+        output_params: &[String],
+        output_bits: Option<&[RegisterUnit]>,
+    ) -> Result<Node, PytketDecodeError> {
         // Order the final wires according to the serial circuit register order.
         let known_qubits = self
             .wire_tracker
             .known_pytket_qubits()
             .cloned()
             .collect_vec();
-        let known_bits = self.wire_tracker.known_pytket_bits().cloned().collect_vec();
+        let (_, mut known_bits) = self
+            .wire_tracker
+            .pytket_args_to_tracked_elems(output_bits.unwrap_or_default())?;
+        let other_bits = self
+            .wire_tracker
+            .known_pytket_bits()
+            .filter(|b| !known_bits.iter().any(|k| k.id() == b.id()))
+            .cloned()
+            .collect_vec();
+        known_bits.extend(other_bits);
         let mut qubits = known_qubits.as_slice();
         let mut bits = known_bits.as_slice();
 
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 4f71172..c434458 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -263,6 +263,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             serial_circuit: ser,
             input_params: tracker_result.input_params,
             output_params: tracker_result.params,
+            output_bits: tracker_result.output_bits,
             additional_nodes_and_wires: AdditionalNodesAndWires {
                 extra_subgraph,
                 extra_subgraph_params,
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 57f128d..c7870a6 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -197,6 +197,8 @@ pub struct ValueTrackerResult {
     pub qubits: Vec<RegisterUnit>,
     /// The final list of bit registers.
     pub bits: Vec<RegisterUnit>,
+    /// The bit registers holding each of the bits at the output.
+    pub output_bits: Vec<RegisterUnit>,
     /// The final list of parameter expressions at the output.
     pub params: Vec<String>,
     /// The implicit permutation of the qubit registers.
@@ -542,6 +544,7 @@ impl<N: HugrNode> ValueTracker<N> {
         Ok(ValueTrackerResult {
             qubits: self.qubits,
             bits: self.bits,
+            output_bits: bit_outputs,
             params: param_outputs,
             qubit_permutation,
             input_params: self.input_params,
diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 8aea593..343566b 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -93,7 +93,7 @@ impl PytketDecoder for CoreDecoder {
                     .skip(params.len())
                     .map(ToString::to_string)
                     .collect_vec();
-                let internal = nested_decoder.finish(&[])?.node();
+                let internal = nested_decoder.finish(&[], None)?.node();
 
                 let variables = variables.iter().map(|v| decoder.load_half_turns(v));
                 let params = params.iter().copied().chain(variables).collect_vec();
-- 
2.43.0


From ac908540adbc6b84b555e96735161b88813a9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 55/66] fix: copy shared bits before pytket commands that
 overwrite or repeat them

---
 tket/src/serialize/pytket/encoder.rs          | 47 +++++++++++++++++++
 .../serialize/pytket/encoder/value_tracker.rs |  5 ++
 tket/src/serialize/pytket/extension/bool.rs   | 22 ++++++++-
 3 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index c434458..511bafc 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -463,6 +463,16 @@ impl<H: HugrView> PytketEncoderContext<H> {
             .map(|p| self.values.param_expression(p).to_owned())
             .collect();
 
+        let overwritten = match options.reuse_bits_fn {
+            Some(_) => self
+                .node_output_values(node, circ)?
+                .iter()
+                .map(|(_, c)| c.bits)
+                .sum(),
+            None => 0,
+        };
+        self.copy_shared_bits(&mut bits, overwritten);
+
         // Update the values in the node's outputs.
         //
         // We preserve the order of linear values in the input.
@@ -617,6 +627,13 @@ impl<H: HugrView> PytketEncoderContext<H> {
             .map(|p| self.values.param_expression(p).to_owned())
             .collect();
 
+        let output_types = subgraph.signature().output().iter();
+        let out_bit_count = output_types
+            .filter_map(|ty| self.config().type_to_pytket(ty))
+            .map(|c| c.bits)
+            .sum();
+        self.copy_shared_bits(&mut op_values.bits, out_bit_count);
+
         // Update the values in the node's outputs, and extend `op_values` with
         // any new output values.
         //
@@ -675,6 +692,36 @@ impl<H: HugrView> PytketEncoderContext<H> {
         Ok(())
     }
 
+    /// Copy the bits that cannot be used directly as arguments of a command.
+    ///
+    /// Bits are copyable, but a command cannot list a register twice nor modify
+    /// one that is used afterwards. Those arguments are replaced by fresh
+    /// copies.
+    ///
+    /// ## Arguments
+    ///
+    /// - `bits`: The bit arguments of the command. Any wire from which they were
+    ///   retrieved must have been marked as explored.
+    /// - `overwritten`: The number of bits in `bits` that the command modifies,
+    ///   starting from the first one.
+    fn copy_shared_bits(&mut self, bits: &mut [TrackedBit], overwritten: usize) {
+        for i in 0..bits.len() {
+            let bit = bits[i];
+            let is_shared = i < overwritten && self.values.is_bit_in_use(bit);
+            if !is_shared && !bits[..i].contains(&bit) {
+                continue;
+            }
+            let copy = self.values.new_bit_excluding(bits);
+            let op = make_tk1_classical_operation(
+                tket_json_rs::OpType::CopyBits,
+                2,
+                tket_json_rs::circuit_json::Classical::CopyBits { n_i: 1 },
+            );
+            self.emit_command(op, &[], &[bit, copy], None);
+            bits[i] = copy;
+        }
+    }
+
     /// Emit a new tket1 command.
     ///
     /// This is a general-purpose command that can be used to emit any tket1
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index c7870a6..31bbd36 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -312,6 +312,11 @@ impl<N: HugrNode> ValueTracker<N> {
         })
     }
 
+    /// Returns `true` if there are unexplored wires holding the bit.
+    pub(super) fn is_bit_in_use(&self, bit: TrackedBit) -> bool {
+        self.bit_wires.get(&bit).is_some_and(|&wires| wires > 0)
+    }
+
     /// Returns `true` if the register is in its initial zero state.
     ///
     /// This may not be the case for the registers returned by
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index a04da40..8141361 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -19,6 +19,7 @@ use hugr::ops::constant::OpaqueValue;
 use hugr::ops::ExtensionOp;
 use hugr::HugrView;
 use itertools::Itertools;
+use tket_json_rs::circuit_json::Classical;
 use tket_json_rs::clexpr::op::ClOp;
 use tket_json_rs::clexpr::operator::{ClArgument, ClOperator, ClTerminal, ClVariable};
 
@@ -112,7 +113,7 @@ impl PytketTypeTranslator for BoolEmitter {
 
 impl PytketDecoder for BoolEmitter {
     fn op_types(&self) -> Vec<tket_json_rs::OpType> {
-        vec![tket_json_rs::OpType::ClExpr]
+        vec![tket_json_rs::OpType::ClExpr, tket_json_rs::OpType::CopyBits]
     }
 
     fn op_to_hugr<'h>(
@@ -124,6 +125,25 @@ impl PytketDecoder for BoolEmitter {
         _opgroup: Option<&str>,
         decoder: &mut PytketDecoderContext<'h>,
     ) -> Result<DecodeStatus, PytketDecodeError> {
+        if let Some(Classical::CopyBits { n_i }) = op.classical.as_deref() {
+            let n = *n_i as usize;
+            if bits.len() != 2 * n || !qubits.is_empty() || !params.is_empty() {
+                return Ok(DecodeStatus::Unsupported);
+            }
+            // Convert the bits into opaque booleans, so the copies are in new wires.
+            for (source, target) in bits[..n].iter().zip(&bits[n..]) {
+                decoder.add_node_with_wires(
+                    BoolOp::make_opaque,
+                    &[],
+                    &[],
+                    std::slice::from_ref(source),
+                    std::slice::from_ref(target),
+                    &[],
+                )?;
+            }
+            return Ok(DecodeStatus::Success);
+        }
+
         let Some(clexpr) = &op.classical_expr else {
             return Ok(DecodeStatus::Unsupported);
         };
-- 
2.43.0


From 875862d5f92dc148ed1d05c63b267b8498fe5ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 56/66] fix: encode all the bits of constant tuples for pytket,
 in order

---
 tket/src/serialize/pytket/config/encoder_config.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize/pytket/config/encoder_config.rs b/tket/src/serialize/pytket/config/encoder_config.rs
index f0ebb25..4374df0 100644
--- a/tket/src/serialize/pytket/config/encoder_config.rs
+++ b/tket/src/serialize/pytket/config/encoder_config.rs
@@ -127,11 +127,11 @@ impl<H: HugrView> PytketEncoderConfig<H> {
                             let op = set_bits_op(&[is_true]);
                             encoder.emit_command(op, &[], &[new_bit], None);
                         }
-                        return Ok(Some(TrackedValues::new_bits([new_bit])));
-                    }
-                    if sum.sum_type.as_tuple().is_some() {
-                        for v in sum.values.iter() {
-                            queue.push_back(v);
+                        values.append(TrackedValues::new_bits([new_bit]));
+                    } else if sum.sum_type.as_tuple().is_some() {
+                        // Process the elements next, in order.
+                        for v in sum.values.iter().rev() {
+                            queue.push_front(v);
                         }
                     }
                 }
-- 
2.43.0


From 922571b248f11b2f025cca34d40e3e43aee95e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 57/66] fix: leave barriers over other types opaque when
 encoding pytket

---
 tket-qsystem/src/pytket/qsystem.rs             |  9 ++++++++-
 tket/src/serialize/pytket/extension/prelude.rs | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 849b04d..9a8221f 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -3,7 +3,7 @@
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
 use hugr::ops::ExtensionOp;
-use hugr::HugrView;
+use hugr::{Direction, HugrView};
 use itertools::Itertools as _;
 use tket::serialize::pytket::decoder::{
     DecodeStatus, LoadedParameter, ParameterType, PytketDecoderContext, TrackedBit, TrackedQubit,
@@ -104,6 +104,13 @@ impl QSystemEmitter {
         circ: &Circuit<H>,
         encoder: &mut PytketEncoderContext<H>,
     ) -> Result<EncodeStatus, PytketEncodeError<H::Node>> {
+        // Pytket barriers only act on qubits and bits.
+        let only_registers = (circ.hugr().value_types(node, Direction::Incoming))
+            .all(|(_, ty)| encoder.config().type_to_pytket(&ty).is_some());
+        if !only_registers {
+            return Ok(EncodeStatus::Unsupported);
+        }
+
         encoder.emit_node(
             PytketOptype::Barrier,
             node,
diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index 0cb75e1..163bd60 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -15,7 +15,7 @@ use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
 use hugr::ops::{ExtensionOp, OpType};
 use hugr::types::TypeArg;
-use hugr::HugrView;
+use hugr::{Direction, HugrView};
 use tket_json_rs::optype::OpType as PytketOptype;
 
 /// Encoder for [prelude](hugr::extension::prelude) operations.
@@ -38,6 +38,17 @@ impl<H: HugrView> PytketEmitter<H> for PreludeEmitter {
             return self.tuple_op_to_pytket(node, op, &tuple_op, circ, encoder);
         };
         if let Ok(_barrier) = BarrierDef::from_extension_op(op) {
+            // Pytket barriers only act on qubits and bits.
+            let only_registers =
+                circ.hugr()
+                    .value_types(node, Direction::Incoming)
+                    .all(|(_, ty)| {
+                        let count = encoder.config().type_to_pytket(&ty);
+                        count.is_some_and(|c| c.params == 0 && !c.is_empty())
+                    });
+            if !only_registers {
+                return Ok(EncodeStatus::Unsupported);
+            }
             encoder.emit_node(
                 PytketOptype::Barrier,
                 node,
-- 
2.43.0


From f7f17099544effc6ae63e8fd52f4b26ff2845d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 58/66] hook: boundary of an encoded pytket circuit

---
 tket/src/serialize/pytket/circuit.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 80e94cc..26eed62 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -483,3 +483,20 @@ impl<Node: HugrNode> IndexMut<Node> for EncodedCircuit<Node> {
             .serial_circuit
     }
 }
+
+#[cfg(tket_verif)]
+impl<Node: HugrNode> EncodedCircuit<Node> {
+    /// The input parameter names, output bit registers, and output parameter
+    /// expressions of an encoded region.
+    pub fn verif_boundary(
+        &self,
+        region: Node,
+    ) -> Option<(Vec<String>, Vec<RegisterUnit>, Vec<String>)> {
+        let c = self.circuits.get(&region)?;
+        Some((
+            c.input_params.clone(),
+            c.output_bits.clone(),
+            c.output_params.clone(),
+        ))
+    }
+}
-- 
2.43.0


From 873dc2ddb63d1d92572da434ac61011475070ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 59/66] fix: give ignored inputs their own pytket registers

---
 tket/src/serialize/pytket/encoder/value_tracker.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 31bbd36..aefd5dd 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -264,6 +264,7 @@ impl<N: HugrNode> ValueTracker<N> {
             PytketEncodeError::NonDataflowRegion { region, optype }
         })?;
         let inp_node = circ.hugr().get_io(region).unwrap()[0];
+        let mut inputs = Vec::new();
         for (port, typ) in circ
             .hugr()
             .node_outputs(inp_node)
@@ -295,6 +296,13 @@ impl<N: HugrNode> ValueTracker<N> {
                 wire_values.push(TrackedValue::Param(param));
             }
 
+            inputs.push((wire, wire_values));
+        }
+
+        // Only register the wires once all the inputs have been assigned to
+        // different registers, as the registers of inputs that are never used
+        // get freed immediately.
+        for (wire, wire_values) in inputs {
             tracker.register_wire(wire, wire_values, circ)?;
         }
 
-- 
2.43.0


From 8b15337191277a8f9bc6c883092b5f124e72b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:45 +0000
Subject: [PATCH 60/66] fix: keep the bits read by an opaque subgraph available

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 13 ++++++-------
 tket/src/serialize/pytket/decoder/wires.rs    | 11 +++++++++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index b74d2a2..11f9663 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -41,13 +41,12 @@ impl<'h> PytketDecoderContext<'h> {
             } => self.insert_inline_subgraph(hugr_envelope, inputs, outputs, qubits, bits, params),
         }?;
 
-        // Mark the used qubits and bits as outdated.
-        qubits.iter().for_each(|q| {
-            self.wire_tracker.mark_qubit_outdated(q.clone());
-        });
-        bits.iter().for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
+        // Discard the qubits that were consumed by the subgraph.
+        //
+        // The bits that were not overwritten are still available, since they are copyable.
+        for q in qubits {
+            self.wire_tracker.discard_qubit(q)?;
+        }
 
         Ok(status)
     }
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 98be11a..28366c1 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -557,6 +557,17 @@ impl WireTracker {
         bit
     }
 
+    /// Register that a qubit was consumed by an operation that does not output it.
+    ///
+    /// The register gets initialized again if it is used after this.
+    pub(super) fn discard_qubit(&mut self, qubit: &TrackedQubit) -> Result<(), PytketDecodeError> {
+        let reg = qubit.pytket_register_arc();
+        if self.tracked_qubit_for_register(&reg)?.id() == qubit.id() {
+            self.track_qubit(reg, Some(qubit.reg_hash()))?;
+        }
+        Ok(())
+    }
+
     /// Returns the latest tracked qubit for a pytket register.
     ///
     /// Returns an error if the register is not known.
-- 
2.43.0


From e6188162d9fd08426f02bd6655e6f01882d81c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:03 +0000
Subject: [PATCH 61/66] fix: keep the edges inside an external opaque subgraph
 when decoding it

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index 11f9663..3a1c726 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -142,9 +142,9 @@ impl<'h> PytketDecoderContext<'h> {
                 }
             };
 
-            self.builder
-                .hugr_mut()
-                .connect(wire.node(), wire.source(), *tgt_node, *tgt_port);
+            let hugr = self.builder.hugr_mut();
+            hugr.disconnect(*tgt_node, *tgt_port);
+            hugr.connect(wire.node(), wire.source(), *tgt_node, *tgt_port);
         }
 
         Ok(())
@@ -185,7 +185,7 @@ impl<'h> PytketDecoderContext<'h> {
                 // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
 
                 // Make sure to disconnect the old wire.
-                self.builder.hugr_mut().disconnect(*src, *src_port);
+                self.disconnect_external_targets(subgraph, wire);
 
                 let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                 let wire_bits = split_off(&mut output_bits, ..counts.bits);
@@ -228,6 +228,28 @@ impl<'h> PytketDecoderContext<'h> {
         Ok(())
     }
 
+    /// Disconnect a subgraph's output wire from the nodes outside of it.
+    ///
+    /// Connections to other nodes in the subgraph, and to nodes inside nested
+    /// regions, are kept.
+    ///
+    /// Helper for [`Self::rewire_external_subgraph_outputs`].
+    fn disconnect_external_targets(&mut self, subgraph: &OpaqueSubgraph<Node>, wire: Wire) {
+        let hugr = self.builder.hugr_mut();
+        let parent = hugr.get_parent(wire.node());
+        let targets = hugr
+            .linked_inputs(wire.node(), wire.source())
+            .filter(|(tgt, _)| {
+                let tgt_parent = hugr.get_parent(*tgt);
+                let is_sibling = tgt_parent == parent || tgt_parent == Some(subgraph.region());
+                is_sibling && !subgraph.nodes().contains(tgt)
+            })
+            .collect_vec();
+        for (tgt, tgt_port) in targets {
+            hugr.disconnect(tgt, tgt_port);
+        }
+    }
+
     /// Insert an [`OpaqueSubgraphPayload::Inline`] into the Hugr being decoded.
     fn insert_inline_subgraph(
         &mut self,
-- 
2.43.0


From f03b746d8fe098e732d6e89db340e37b3c8dbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 62/66] fix: connect untracked inputs of inline opaque
 subgraphs to the inserted nodes

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index 3a1c726..8f49dac 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -389,6 +389,9 @@ impl<'h> PytketDecoderContext<'h> {
                 FoundWire::Register(wire_data) => wire_data.wire(),
                 FoundWire::Parameter(param) => param.wire(),
                 FoundWire::Unsupported { id } => {
+                    let targets = targets
+                        .into_iter()
+                        .map(|(node, port)| (insertion_result.node_map[&node], port));
                     self.wire_tracker.connect_unsupported_wire_targets(
                         id,
                         targets,
-- 
2.43.0


From d98de727c3684e14ac422e49c179a8063e6e9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:38 +0000
Subject: [PATCH 63/66] fix: encode unsupported sources before taking the
 registers of a command

---
 tket/src/serialize/pytket/encoder.rs | 40 ++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 511bafc..726ba15 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -310,18 +310,33 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // the wire is the output of an unsupported node group.
         //
         // We need to emit the unsupported node here before returning the values.
-        if self.unsupported.is_unsupported(wire.node()) {
-            let unsupported_nodes = self
-                .unsupported
-                .extract_component(wire.node(), circ.hugr())?;
-            self.emit_unsupported(&unsupported_nodes, circ)?;
-            debug_assert!(!self.unsupported.is_unsupported(wire.node()));
+        if self.emit_unsupported_source(wire, circ)? {
             return self.get_wire_values(wire, circ);
         }
 
         Err(PytketEncodeOpError::WireHasNoValues { wire }.into())
     }
 
+    /// If the wire is the output of an unsupported node that has not been
+    /// encoded yet, emit the subgraph of unsupported nodes containing it.
+    ///
+    /// Returns `true` if a subgraph was emitted.
+    fn emit_unsupported_source(
+        &mut self,
+        wire: Wire<H::Node>,
+        circ: &Circuit<H>,
+    ) -> Result<bool, PytketEncodeError<H::Node>> {
+        if !self.unsupported.is_unsupported(wire.node()) {
+            return Ok(false);
+        }
+        let unsupported_nodes = self
+            .unsupported
+            .extract_component(wire.node(), circ.hugr())?;
+        self.emit_unsupported(&unsupported_nodes, circ)?;
+        debug_assert!(!self.unsupported.is_unsupported(wire.node()));
+        Ok(true)
+    }
+
     /// Given a node in the HUGR, returns all the [`TrackedValue`]s associated
     /// with its inputs.
     ///
@@ -367,6 +382,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
 
         let optype = circ.hugr().get_optype(node);
         let other_input_port = optype.other_input_port();
+        let mut wires = Vec::new();
         for input in circ.hugr().node_inputs(node) {
             // Ignore order edges.
             if Some(input) == other_input_port {
@@ -378,10 +394,18 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 .single_linked_output(node, input)
                 .expect("Dataflow input port should have a single neighbour");
             let wire = Wire::new(neigh, neigh_out);
-            if !wire_filter(wire) {
-                continue;
+            if wire_filter(wire) {
+                wires.push(wire);
             }
+        }
+
+        // Emit any unsupported subgraph before marking the inputs as explored,
+        // so its new outputs do not take the registers of the other inputs.
+        for &wire in &wires {
+            self.emit_unsupported_source(wire, circ)?;
+        }
 
+        for wire in wires {
             match self.get_wire_values(wire, circ) {
                 Ok(values) => tracked_values.extend(values.iter().copied()),
                 Err(PytketEncodeError::OpEncoding(PytketEncodeOpError::WireHasNoValues {
-- 
2.43.0


From c04e115c7954a058352d22071ce5904c2b884bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:14 +0000
Subject: [PATCH 64/66] fix: name the output parameters of opaque subgraphs
 with valid identifiers

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 52 ++++++++++++++++---
 tket/src/serialize/pytket/decoder/wires.rs    |  6 +++
 tket/src/serialize/pytket/encoder.rs          |  4 +-
 tket/src/serialize/pytket/opaque.rs           | 17 +++++-
 tket/src/serialize/pytket/opaque/payload.rs   |  7 +++
 5 files changed, 78 insertions(+), 8 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index 8f49dac..dd6d0a4 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -6,11 +6,13 @@ use std::sync::Arc;
 use hugr::builder::Container;
 use hugr::hugr::hugrmut::{HugrMut, InsertedForest};
 use hugr::ops::{OpTag, OpTrait};
+use hugr::std_extensions::arithmetic::float_types::float64_type;
 use hugr::types::Type;
 use hugr::{Hugr, HugrView, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 
+use crate::extension::rotation::rotation_type;
 use crate::serialize::pytket::decoder::{
     DecodeStatus, FoundWire, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
@@ -38,7 +40,16 @@ impl<'h> PytketDecoderContext<'h> {
                 hugr_envelope,
                 inputs,
                 outputs,
-            } => self.insert_inline_subgraph(hugr_envelope, inputs, outputs, qubits, bits, params),
+                id,
+            } => self.insert_inline_subgraph(
+                hugr_envelope,
+                inputs,
+                outputs,
+                *id,
+                qubits,
+                bits,
+                params,
+            ),
         }?;
 
         // Discard the qubits that were consumed by the subgraph.
@@ -80,7 +91,7 @@ impl<'h> PytketDecoderContext<'h> {
             subgraph, qubits, bits, params, old_parent, new_parent,
         )?;
 
-        self.rewire_external_subgraph_outputs(subgraph, qubits, bits, old_parent, new_parent)?;
+        self.rewire_external_subgraph_outputs(id, subgraph, qubits, bits, old_parent, new_parent)?;
 
         Ok(DecodeStatus::Success)
     }
@@ -158,12 +169,14 @@ impl<'h> PytketDecoderContext<'h> {
     /// Helper for [`Self::insert_external_subgraph`].
     fn rewire_external_subgraph_outputs(
         &mut self,
+        id: SubgraphId,
         subgraph: &OpaqueSubgraph<Node>,
         qubits: &[TrackedQubit],
         bits: &[TrackedBit],
         old_parent: Node,
         new_parent: Node,
     ) -> Result<(), PytketDecodeError> {
+        let mut out_param_count = 0;
         let old_output = self.builder.hugr().get_io(old_parent).unwrap()[1];
         let new_output = self.builder.hugr().get_io(new_parent).unwrap()[1];
 
@@ -180,9 +193,15 @@ impl<'h> PytketDecoderContext<'h> {
             // to track new qubits and bits, re-connect it to some output, or
             // leave it untouched.
             let wire = Wire::new(*src, *src_port);
-            if let Some(counts) = self.config().type_to_pytket(ty).filter(|c| c.params == 0) {
+            if let Some(loaded) = loaded_output_parameter(wire, ty) {
+                // Output parameters are mapped to a variable in the pytket expressions.
+                self.disconnect_external_targets(subgraph, wire);
+                self.wire_tracker
+                    .register_internal_parameter(loaded, id.output_param_name(out_param_count));
+                out_param_count += 1;
+            } else if let Some(counts) = self.config().type_to_pytket(ty).filter(|c| c.params == 0)
+            {
                 // This port declares new outputs to be tracked by the decoder.
-                // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
 
                 // Make sure to disconnect the old wire.
                 self.disconnect_external_targets(subgraph, wire);
@@ -251,11 +270,13 @@ impl<'h> PytketDecoderContext<'h> {
     }
 
     /// Insert an [`OpaqueSubgraphPayload::Inline`] into the Hugr being decoded.
+    #[allow(clippy::too_many_arguments)]
     fn insert_inline_subgraph(
         &mut self,
         hugr_envelope: &str,
         payload_inputs: &[(Type, EncodedEdgeID)],
         payload_outputs: &[(Type, EncodedEdgeID)],
+        id: Option<SubgraphId>,
         qubits: &[TrackedQubit],
         bits: &[TrackedBit],
         params: &[LoadedParameter],
@@ -349,6 +370,7 @@ impl<'h> PytketDecoderContext<'h> {
             qubits,
             bits,
             payload_outputs,
+            id,
             to_insert_outputs,
             &insertion_result,
         )?;
@@ -420,10 +442,12 @@ impl<'h> PytketDecoderContext<'h> {
         qubits: &[TrackedQubit],
         bits: &[TrackedBit],
         payload_outputs: &[(Type, EncodedEdgeID)],
+        id: Option<SubgraphId>,
         to_insert_outputs: Vec<(Node, OutgoingPort)>,
         insertion_result: &InsertedForest,
     ) -> Result<(), PytketDecodeError> {
         // Register the subgraph outputs in the wire tracker.
+        let mut out_param_count = 0;
         let mut output_qubits = qubits;
         let mut output_bits = bits;
         for ((ty, edge_id), (to_insert_node, port)) in
@@ -431,11 +455,16 @@ impl<'h> PytketDecoderContext<'h> {
         {
             let node = *insertion_result.node_map.get(&to_insert_node).unwrap();
             let wire = Wire::new(node, port);
+            if let Some((loaded, id)) = loaded_output_parameter(wire, ty).zip(id) {
+                // Output parameters are mapped to a variable in the pytket expressions.
+                self.wire_tracker
+                    .register_internal_parameter(loaded, id.output_param_name(out_param_count));
+                out_param_count += 1;
+                continue;
+            }
             match self.config().type_to_pytket(ty).filter(|c| c.params == 0) {
                 Some(counts) => {
                     // Track the registers in the subgraph output wires.
-                    // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
-                    // We only track qubit/bit wires here.
                     let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                     let wire_bits = split_off(&mut output_bits, ..counts.bits);
                     if wire_qubits.is_none() || wire_bits.is_none() {
@@ -467,6 +496,17 @@ impl<'h> PytketDecoderContext<'h> {
     }
 }
 
+/// Returns a loaded parameter if the wire type represents a pytket parameter.
+fn loaded_output_parameter(wire: Wire, ty: &Type) -> Option<LoadedParameter> {
+    if ty == &rotation_type() {
+        Some(LoadedParameter::rotation(wire))
+    } else if ty == &float64_type() {
+        Some(LoadedParameter::float_half_turns(wire))
+    } else {
+        None
+    }
+}
+
 // TODO: Replace with array's `split_off` method once MSRV is ≥1.87
 fn split_off<'a, T>(slice: &mut &'a [T], range: RangeTo<usize>) -> Option<&'a [T]> {
     let split_index = range.end;
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 28366c1..05891dc 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1073,6 +1073,12 @@ impl WireTracker {
         Ok(())
     }
 
+    /// Associate a wire produced inside the region with a variable used in
+    /// parameter expressions.
+    pub(super) fn register_internal_parameter(&mut self, loaded: LoadedParameter, param: String) {
+        self.parameters.insert(param, loaded);
+    }
+
     /// Track a parameter input to the region for which we don't have a variable name yet.
     pub(super) fn register_unused_parameter_input(&mut self, loaded: LoadedParameter) {
         self.unused_parameter_inputs.push_back(loaded);
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 726ba15..f19ebb1 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -688,7 +688,9 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 |p| {
                     let range = out_param_count..out_param_count + p.expected_count;
                     out_param_count += p.expected_count;
-                    range.map(|i| format!("{subgraph_id}_out{i}")).collect_vec()
+                    range
+                        .map(|i| subgraph_id.output_param_name(i))
+                        .collect_vec()
                 },
             )?;
             op_values.append(new_outputs);
diff --git a/tket/src/serialize/pytket/opaque.rs b/tket/src/serialize/pytket/opaque.rs
index 0006831..9a780f9 100644
--- a/tket/src/serialize/pytket/opaque.rs
+++ b/tket/src/serialize/pytket/opaque.rs
@@ -28,6 +28,18 @@ pub struct SubgraphId {
     local_id: usize,
 }
 
+impl SubgraphId {
+    /// Returns the name of the variable holding an output parameter of the
+    /// subgraph in the expressions of the pytket circuit.
+    ///
+    /// ## Arguments
+    ///
+    /// - `index`: The index of the parameter, among all the subgraph's outputs.
+    pub(super) fn output_param_name(&self, index: usize) -> String {
+        format!("opaque_{}_{}_out{index}", self.tracker_id, self.local_id)
+    }
+}
+
 impl serde::Serialize for SubgraphId {
     fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
         (&self.tracker_id, &self.local_id).serialize(s)
@@ -141,7 +153,10 @@ impl<N: HugrNode> OpaqueSubgraphs<N> {
             return Err(PytketEncodeError::custom(format!("Barrier operation with external subgraph payload points to an unknown subgraph: {subgraph_id}")));
         }
 
-        let payload = OpaqueSubgraphPayload::new_inline(&self[subgraph_id], hugr)?;
+        let mut payload = OpaqueSubgraphPayload::new_inline(&self[subgraph_id], hugr)?;
+        if let OpaqueSubgraphPayload::Inline { id, .. } = &mut payload {
+            *id = Some(subgraph_id);
+        }
         command.op.data = Some(serde_json::to_string(&payload).unwrap());
 
         Ok(())
diff --git a/tket/src/serialize/pytket/opaque/payload.rs b/tket/src/serialize/pytket/opaque/payload.rs
index 5794f33..7e3ca32 100644
--- a/tket/src/serialize/pytket/opaque/payload.rs
+++ b/tket/src/serialize/pytket/opaque/payload.rs
@@ -108,6 +108,12 @@ pub enum OpaqueSubgraphPayload {
         /// The types can also be inferred from the encoded hugr or linked
         /// subcircuit, but we store them here for robustness.
         outputs: Vec<(Type, EncodedEdgeID)>,
+        /// The ID that the subgraph had when it was encoded.
+        ///
+        /// The variables holding the output parameters of the subgraph are
+        /// named after it.
+        #[serde(default, skip_serializing_if = "Option::is_none")]
+        id: Option<SubgraphId>,
     },
 }
 
@@ -167,6 +173,7 @@ impl OpaqueSubgraphPayload {
             hugr_envelope,
             inputs: signature.input().iter().cloned().zip(inputs).collect(),
             outputs: signature.output().iter().cloned().zip(outputs).collect(),
+            id: None,
         })
     }
 
-- 
2.43.0


From e829a80a73cf202b63ddfdd8475394e7d839b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 65/66] fix: register the boundary of the extra subgraph of a
 circuit

---
 tket/src/serialize/pytket/encoder.rs | 80 +++++++++++++++++++---------
 1 file changed, 56 insertions(+), 24 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index f19ebb1..cecae56 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -33,7 +33,7 @@ use crate::circuit::Circuit;
 use crate::serialize::pytket::circuit::{AdditionalNodesAndWires, EncodedCircuitInfo};
 use crate::serialize::pytket::config::PytketEncoderConfig;
 use crate::serialize::pytket::extension::RegisterCount;
-use crate::serialize::pytket::opaque::{OpaqueSubgraph, OpaqueSubgraphPayload};
+use crate::serialize::pytket::opaque::{OpaqueSubgraph, OpaqueSubgraphPayload, SubgraphId};
 
 /// The state of an in-progress [`SerialCircuit`] being built from a [`Circuit`].
 #[derive(derive_more::Debug)]
@@ -231,13 +231,12 @@ impl<H: HugrView> PytketEncoderContext<H> {
             let opaque_subgraphs = self.unsupported.extract_component(node, circ.hugr())?;
             match self.emit_unsupported(&opaque_subgraphs, circ) {
                 Ok(()) => (),
-                Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters { params }) => {
+                Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters { .. }) => {
                     // We'll store the nodes in the `extra_subgraph` field of the `EncodedCircuitInfo`.
                     // So the decoder can reconstruct the original subgraph.
                     extra_subgraph
                         .get_or_insert_default()
                         .extend(opaque_subgraphs.nodes().iter().cloned());
-                    extra_subgraph_params.extend(params);
                 }
                 Err(e) => return Err(e),
             }
@@ -245,7 +244,12 @@ impl<H: HugrView> PytketEncoderContext<H> {
         let extra_subgraph = extra_subgraph
             .map(|nodes| -> Result<_, PytketEncodeError<H::Node>> {
                 let subgraph = OpaqueSubgraph::try_from_nodes(nodes, circ.hugr())?;
-                Ok(self.opaque_subgraphs.register_opaque_subgraph(subgraph))
+                let id = self
+                    .opaque_subgraphs
+                    .register_opaque_subgraph(subgraph.clone());
+                (_, extra_subgraph_params) =
+                    self.register_subgraph_boundary(&subgraph, id, circ)?;
+                Ok(id)
             })
             .transpose()?;
 
@@ -621,12 +625,59 @@ impl<H: HugrView> PytketEncoderContext<H> {
         subgraph: &OpaqueSubgraph<H::Node>,
         circ: &Circuit<H>,
     ) -> Result<(), PytketEncodeError<H::Node>> {
+        // Check that we have qubits or bits to attach the barrier command to.
+        //
+        // This should only fail when looking at the "leftover" unsupported nodes at the end of the decoding process.
+        let boundary_types = subgraph.signature().input().iter();
+        let registers: RegisterCount = boundary_types
+            .chain(subgraph.signature().output().iter())
+            .filter_map(|ty| self.config().type_to_pytket(ty))
+            .sum();
+        if registers.qubits == 0 && registers.bits == 0 {
+            let wires = subgraph.incoming_ports().iter().filter_map(|(n, p)| {
+                let (neigh, neigh_out) = circ.hugr().single_linked_output(*n, *p)?;
+                self.values.peek_wire_values(Wire::new(neigh, neigh_out))
+            });
+            let params = wires.flatten().filter_map(|v| match v {
+                TrackedValue::Param(p) => Some(self.values.param_expression(*p).to_owned()),
+                _ => None,
+            });
+            return Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters {
+                params: params.collect_vec(),
+            });
+        }
+
         // Encode a payload referencing the subgraph in the Hugr.
         let subgraph_id = self
             .opaque_subgraphs
             .register_opaque_subgraph(subgraph.clone());
         let payload = OpaqueSubgraphPayload::new_external(subgraph_id);
+        let (op_values, input_param_exprs) =
+            self.register_subgraph_boundary(subgraph, subgraph_id, circ)?;
+
+        // Create pytket operation, and add the subcircuit as hugr
+        let args = MakeOperationArgs {
+            num_qubits: op_values.qubits.len(),
+            num_bits: op_values.bits.len(),
+            params: Cow::Borrowed(&input_param_exprs),
+        };
+        let mut pytket_op = make_tk1_operation(tket_json_rs::OpType::Barrier, args);
+        pytket_op.data = Some(serde_json::to_string(&payload).unwrap());
+
+        self.emit_command(pytket_op, &op_values.qubits, &op_values.bits, None);
+        Ok(())
+    }
 
+    /// Collect the input values of an opaque subgraph and register its outputs.
+    ///
+    /// Returns the qubits and bits in the boundary, and the expressions of the
+    /// input parameters.
+    fn register_subgraph_boundary(
+        &mut self,
+        subgraph: &OpaqueSubgraph<H::Node>,
+        subgraph_id: SubgraphId,
+        circ: &Circuit<H>,
+    ) -> Result<(TrackedValues, Vec<String>), PytketEncodeError<H::Node>> {
         // Collects the input values for the subgraph.
         //
         // The [`UnsupportedTracker`] ensures that at this point all local input wires must come from
@@ -696,26 +747,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             op_values.append(new_outputs);
         }
 
-        // Check that we have qubits or bits to attach the barrier command to.
-        //
-        // This should only fail when looking at the "leftover" unsupported nodes at the end of the decoding process.
-        if op_values.qubits.is_empty() && op_values.bits.is_empty() {
-            return Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters {
-                params: input_param_exprs.clone(),
-            });
-        }
-
-        // Create pytket operation, and add the subcircuit as hugr
-        let args = MakeOperationArgs {
-            num_qubits: op_values.qubits.len(),
-            num_bits: op_values.bits.len(),
-            params: Cow::Borrowed(&input_param_exprs),
-        };
-        let mut pytket_op = make_tk1_operation(tket_json_rs::OpType::Barrier, args);
-        pytket_op.data = Some(serde_json::to_string(&payload).unwrap());
-
-        self.emit_command(pytket_op, &op_values.qubits, &op_values.bits, None);
-        Ok(())
+        Ok((op_values, input_param_exprs))
     }
 
     /// Copy the bits that cannot be used directly as arguments of a command.
-- 
2.43.0


From 5357a98f6d1383bcefc6c6b4698b2ef2a7f9ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:54 +0000
Subject: [PATCH 66/66] fix: pass parameters and straight-through wires when
 reassembling a circuit

---
 tket/src/serialize/pytket/circuit.rs | 37 +++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 26eed62..ce5794d 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -370,11 +370,34 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         let mut hugr = Hugr::new();
         let target = DecodeInsertionTarget::Function { fn_name };
 
+        let encoded = &self.circuits[&region];
+        let mut options = options;
+        if options.input_params.is_empty() {
+            options = options.with_input_params(encoded.input_params.iter().cloned());
+        }
+
+        // The default signature only contains qubits and bits.
+        let has_signature = options.signature.is_some();
+        let output_params: &[String] = match has_signature {
+            true => &encoded.output_params,
+            false => &[],
+        };
+        let straight_through_wires = match has_signature {
+            true => (encoded.additional_nodes_and_wires)
+                .straight_through_wires
+                .clone(),
+            false => Vec::new(),
+        };
+        let additional = AdditionalNodesAndWires {
+            extra_subgraph: None,
+            extra_subgraph_params: Vec::new(),
+            straight_through_wires,
+        };
+
         let mut decoder =
             PytketDecoderContext::new(serial_circuit, &mut hugr, target, options, None)?;
-        decoder.run_decoder(&serial_circuit.commands, None)?;
-        let output_bits = &self.circuits[&region].output_bits;
-        decoder.finish(&[], Some(output_bits))?;
+        decoder.run_decoder(&serial_circuit.commands, Some(&additional))?;
+        decoder.finish(output_params, Some(&encoded.output_bits))?;
         Ok(hugr)
     }
 
@@ -411,6 +434,14 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         }
 
         for encoded in self.circuits.values_mut() {
+            if encoded.additional_nodes_and_wires.extra_subgraph.is_some() {
+                // There is no command in the circuit that could hold the subgraph.
+                return Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters {
+                    params: (encoded.additional_nodes_and_wires)
+                        .extra_subgraph_params
+                        .clone(),
+                });
+            }
             make_commands_standalone(
                 &mut encoded.serial_circuit.commands,
                 &self.opaque_subgraphs,
-- 
2.43.0

