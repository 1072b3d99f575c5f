From 28e3a87e99a1b64354e60e9f2014798e1f5eb4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 001/134] fix: rotate the plane of a rotation with the base of
 the outer rotation

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b84a461..fe8504d 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -200,7 +200,7 @@ class VectorRotationXd:
         rotation = copy.deepcopy(rotation)
         rotation.base = rotate_array(
             directions=rotation.base,
-            base=rotation.base,
+            base=self.base,
             rotation_angle=rot_factor * self.rotation_angle,
         )
         return rotation
-- 
2.43.0


From d773259d30f27b38ff9884da442017af03f0acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 002/134] fix: drag later rotations of a weighted sequence
 back, not forward

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index fe8504d..38c56ac 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -362,7 +362,7 @@ class VectorRotationSequence:
             temp_base[:, (ii + 1) :, :] = rotate_array(
                 directions=temp_base[:, (ii + 1) :, :].reshape(self.dimension, -1),
                 base=temp_base[:, ii, :],
-                rotation_angle=self.rotation_angles[ii] * (1 - cumulated_weights[ii]),
+                rotation_angle=self.rotation_angles[ii] * (cumulated_weights[ii] - 1),
             ).reshape(self.dimension, -1, 2)
 
         # Finally: rotate from bottom-to-top
-- 
2.43.0


From b9a9db7d8769b1406b6754fced29df2e4086fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 003/134] fix: append a direction to a rotation sequence at its
 end vector

---
 nonlinear_avoidance/vector_rotation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 38c56ac..6350634 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -304,9 +304,7 @@ class VectorRotationSequence:
         return self.basis_array[:, [0, -1]]
 
     def append_from_direction(self, direction: Vector) -> None:
-        rotation = VectorRotationXd.from_directions(
-            self.basis_array[:, -1, -1], direction
-        )
+        rotation = VectorRotationXd.from_directions(self.get_end_vector(), direction)
         self.append_from_base_and_angle(rotation.base, rotation.rotation_angle)
 
     def append_from_base_and_angle(self, base0: np.ndarray, angle: float) -> None:
-- 
2.43.0


From 41d3cf0671e21459af537c8b7fba52c17321eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 004/134] fix: do not repeat the last rotation of a reduced
 tree above unweighted nodes

---
 nonlinear_avoidance/vector_rotation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 6350634..fbac4bd 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -812,8 +812,12 @@ class VectorRotationTree:
             all_successors = []
             all_basis = np.zeros((self.dimension, 0))
             for node_id in nodelevel_ids:
-                # Transform all child angles to first base-direction
-                successors = self.get_all_childs_children(node_id)
+                # Transform all (weighted) child angles to first base-direction
+                successors = [
+                    succ
+                    for succ in self.get_all_childs_children(node_id)
+                    if self._graph.nodes[succ]["weight"]
+                ]
 
                 if not successors:
                     # No successors
-- 
2.43.0


From 6404d901ee827ad09444268398a8bd9454ce2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 005/134] fix: pass nodes and weights on when rotating with a
 direction tree

---
 nonlinear_avoidance/vector_rotation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index fbac4bd..dcd9a1b 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -879,9 +879,9 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
-            self.root["orientation"].base[:, 0], rotated_dir
+            self._graph.nodes[self._root_idx]["orientation"].base[:, 0], rotated_dir
         )
 
         return rotate_direction(
@@ -896,9 +896,9 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
-            rotated_dir, self.root["orientation"].base[:, 0]
+            rotated_dir, self._graph.nodes[self._root_idx]["orientation"].base[:, 0]
         )
 
         return rotate_direction(
-- 
2.43.0


From eb49933b535f48ad3acbf6591afbe35b6ebe96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 006/134] fix: take a graph element away from its former parent

---
 nonlinear_avoidance/graph_handler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 834dac0..42c6c74 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -28,10 +28,18 @@ class GraphElement:
         return len(self.children)
 
     def add_child(self, child):
+        if child.parent is not None:
+            child.parent.remove_child(child)
         self.children.append(child)
         child.parent = self
 
+    def remove_child(self, child):
+        # Compare the identity, since elements are equal if their values are
+        self.children = [elem for elem in self.children if elem is not child]
+
     def set_parent(self, parent):
+        if self.parent is not None:
+            self.parent.remove_child(self)
         self.parent = parent
         parent.children.append(self)
 
-- 
2.43.0


From 3bf7f054063cace52f9add7d6e3b5fd83ff3e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 007/134] fix: an expelled graph element keeps no link to
 parent and children

---
 nonlinear_avoidance/graph_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 42c6c74..9a39fec 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -49,9 +49,11 @@ class GraphElement:
         # TODO: this requires updating of 'referenceID' etc.
         for child in self.children:
             child.parent = None
+        self.children = []
 
         if self.parent is not None:
-            self.parent.children.remove(self)
+            self.parent.remove_child(self)
+            self.parent = None
 
 
 @dataclass
-- 
2.43.0


From 9653c5061e2d3875479865b34d01e52afb58e55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 008/134] fix: register an added element as child of its parent

---
 nonlinear_avoidance/graph_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 9a39fec..ea210fc 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -71,7 +71,9 @@ class BasicGraphHandler:
         self._graph.append(self._root)
 
     def add_element_with_parent(self, child, parent):
-        self._graph.append(GraphElement(value=child, parent=parent))
+        element = GraphElement(value=child)
+        element.set_parent(parent)
+        self._graph.append(element)
 
     def delete_element(self, element):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 62feb2ab54075f38151734bb993b427f868b7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 009/134] fix: unknown parent value leaves the graph unchanged

---
 nonlinear_avoidance/graph_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index ea210fc..bd60ef5 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -123,11 +123,13 @@ class GraphHandler:
         return [self._node_values[ind] for ind in children_inds]
 
     def add_element_with_parent(self, value, parent_value):
+        # An unknown parent raises, before anything is stored
+        ind_parent = self._node_values.index(parent_value)
+
         self._node_values.append(value)
         self._children_indices.append([])
 
         ind_node = len(self._node_values) - 1
-        ind_parent = self._node_values.index(parent_value)
 
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
-- 
2.43.0


From c92560295be83e541f39a5f12b21b953b18258bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 010/134] fix: remove a moved node from the children of its
 former parent

---
 nonlinear_avoidance/graph_handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index bd60ef5..551c487 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -139,6 +139,10 @@ class GraphHandler:
         ind_node = self._node_values.index(value)
         ind_parent = self._node_values.index(parent_value)
 
+        # The node has only one parent
+        if (ind_former := self._parent_index[ind_node]) is not None:
+            self._children_indices[ind_former].remove(ind_node)
+
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
         self._parent_index[ind_node] = ind_parent
-- 
2.43.0


From d4d6d31d40308ee434b5538290ff0e95e2083cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 011/134] fix: hierarchy order of the graph handler

---
 nonlinear_avoidance/graph_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 551c487..84d4b80 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -152,10 +152,10 @@ class GraphHandler:
 
         ii = 0
         while ii < len(node_indices):
-            node_indices += self.children_indices[node_indices[ii]]
+            node_indices += self._children_indices[node_indices[ii]]
             ii += 1
 
-        return self._node_values[node_indices]
+        return [self._node_values[ind] for ind in node_indices]
 
     def delete_element(self, element: GraphType):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 1924afed8abd764c504190cdd98111b3aab48ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 012/134] fix: roots of the graph handler are its root values

---
 nonlinear_avoidance/graph_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 84d4b80..1d32151 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -102,7 +102,7 @@ class GraphHandler:
 
     @property
     def roots(self):
-        return [ind_par for ind_par in self._parent_index if ind_par is None]
+        return [self._node_values[ind] for ind in self.get_root_indices()]
 
     def get_root_indices(self):
         return [ii for ii, ind_par in enumerate(self._parent_index) if ind_par is None]
-- 
2.43.0


From fc5a746cfa99b6e9661470d87df493ad806e1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 013/134] fix: parent of a node in the direction tree

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index dcd9a1b..7b8e15e 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -436,7 +436,7 @@ class VectorRotationTree:
 
     def get_parent(self, node_id: NodeType) -> NodeType:
         """Returns the (unique) parent."""
-        return self._graph.predecessors(node_id)[0]
+        return next(self._graph.predecessors(node_id))
 
     def get_children(self, node_id: NodeType) -> list[NodeType]:
         """Returns all the children of an input node."""
-- 
2.43.0


From 0dbdd0b056bb66fe0dfed82dbc176723f24c5418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 014/134] fix: change the direction of a node with children

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 7b8e15e..2280e3d 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -559,7 +559,7 @@ class VectorRotationTree:
         # Do better checks to accelerate
         successors = self.get_all_childs_children(node_id)
         for succ in successors:
-            succ["orientation"] = None
+            self._graph.nodes[succ]["orientation"] = None
 
     def evaluate_all_orientations(
         self, sorted_list: list[NodeType] = None, pi_margin: Optional[float] = None
-- 
2.43.0


From 2642218bd7749160973e622b8907f2a521238e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 015/134] fix: a rejected node leaves the direction tree
 unchanged

---
 nonlinear_avoidance/vector_rotation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 2280e3d..8fc374b 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -465,10 +465,6 @@ class VectorRotationTree:
             raise ValueError(f"Node with id: {node_id} already exists.")
 
         if parent_id is not None:
-            self._graph.add_edge(
-                parent_id,
-                node_id,
-            )
             level = self._graph.nodes[parent_id]["level"] + 1
 
         elif child_id is not None:
@@ -483,6 +479,12 @@ class VectorRotationTree:
         if level >= self.maximum_level:
             raise ValueError(f"Exceeding  maximum level {level} of direction-tree.")
 
+        if np.any(np.isnan(direction)):
+            raise ValueError("Faulty input.")
+
+        if parent_id is not None:
+            self._graph.add_edge(parent_id, node_id)
+
         self._graph.add_node(
             node_id,
             level=level,
@@ -491,9 +493,6 @@ class VectorRotationTree:
             orientation=None,
         )
 
-        if np.any(np.isnan(direction)):
-            raise ValueError("Faulty input.")
-
         if direction is not None:
             self.set_direction(node_id, direction)
 
-- 
2.43.0


From 65ec7b00c742f437bd40468384620e604c19458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 016/134] fix: order of convergence and reference vector in the
 continuation weight

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b0af7fb..2a9327a 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -1085,7 +1085,10 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, convergence_vector, reference_vector, base
+            gamma=gamma,
+            vector_reference=reference_vector,
+            vector_convergence=convergence_vector,
+            base=base,
         )
 
         if weight <= 0:
-- 
2.43.0


From af99a443ed06e1b4fdd2979aa44d187d518ffce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 017/134] fix: delete an obstacle from the rotation container

---
 nonlinear_avoidance/rotation_container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 716d808..3b0a0ae 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -32,8 +32,8 @@ class RotationContainer(BaseContainer):
 
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
-        super().__delitem__(self._obstacle_list[key])
-        del self._convergence_dynamics
+        super().__delitem__(key)
+        del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
         super().__setitem__(self._obstacle_list[key])
-- 
2.43.0


From 7a46451a645c3f730cc8492441c5d9f019d3e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 018/134] fix: replace an obstacle of the rotation container

---
 nonlinear_avoidance/rotation_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 3b0a0ae..dae395a 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -36,7 +36,7 @@ class RotationContainer(BaseContainer):
         del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
-        super().__setitem__(self._obstacle_list[key])
+        super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
 
     def set_convergence_directions(
-- 
2.43.0


From a462cb35e68b60fb98a88b480d49722be071a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 019/134] fix: convergence around the obstacle which carries
 the weight

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index b0186fa..e0a7f24 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -385,7 +385,7 @@ class SingularityConvergenceDynamics(BaseAvoider):
             local_velocities[
                 :, ii
             ] = self.obstacle_convergence.evaluate_convergence_around_obstacle(
-                position, obstacle=self._rotation_avoider.obstacle_environment[ii]
+                position, obstacle=self._rotation_avoider.obstacle_environment[it_obs]
             )
 
             direction_tree.add_node(
-- 
2.43.0


From d2615398064041aaf6c94ca5f88503ef55471eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 020/134] fix: convergence direction of each obstacle in the
 environment

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 2a9327a..673f264 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -364,16 +364,17 @@ class RotationalAvoider(BaseAvoider):
 
             # Convergence direcctions can be local for certain obstacles
             # / convergence environments
-            if convergence_velocity is None:
+            local_convergence = convergence_velocity
+            if local_convergence is None:
                 if self.convergence_dynamics is None:
-                    convergence_velocity = obstacle_list.get_convergence_direction(
+                    local_convergence = obstacle_list.get_convergence_direction(
                         position=position, it_obs=it_obs
                     )
                 else:
-                    convergence_velocity = self.convergence_dynamics.evaluate(position)
+                    local_convergence = self.convergence_dynamics.evaluate(position)
 
             # if not (conv_vel_norm := LA.norm(convergence_velocity)):
-            if not LA.norm(convergence_velocity):
+            if not LA.norm(local_convergence):
                 # Zero value
                 # base = DirectionBase(matrix=null_matrix)
                 base = null_matrix
@@ -390,7 +391,7 @@ class RotationalAvoider(BaseAvoider):
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
             rotated_directions[:, it] = self.directional_convergence_summing(
-                convergence_vector=convergence_velocity,
+                convergence_vector=local_convergence,
                 reference_vector=reference_dir,
                 # weight=inv_gamma_weight[it],
                 gamma=gamma_array[it],
-- 
2.43.0


From 657e88c998e18deb408d60c1c177503a8f5f6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 021/134] fix: convergence around an obstacle relative to the
 attractor

---
 nonlinear_avoidance/rotation_container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index dae395a..e0f09e4 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -78,7 +78,8 @@ class RotationContainer(BaseContainer):
 
         for it_obs in range(self.n_obstacles):
             position = self[it_obs].center_position
-            pos_norm = LA.norm(position)
+            relative_position = position - attractor
+            pos_norm = LA.norm(relative_position)
             if not pos_norm:
                 # Make it converge to attractor either way, as evaluation might
                 # be numerically bad.
@@ -88,7 +89,7 @@ class RotationContainer(BaseContainer):
                 continue
 
             local_velocity = nonlinear_dynamics.evaluate(position)
-            dot_prod = np.dot(position, local_velocity) / (
+            dot_prod = np.dot(relative_position, local_velocity) / (
                 pos_norm * LA.norm(local_velocity)
             )
 
-- 
2.43.0


From 1e8a94a5923493ea28dbdda999836adcd25f5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 022/134] fix: linear velocity of a multi-obstacle

---
 nonlinear_avoidance/multi_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 2586075..a289a30 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -47,7 +47,7 @@ class MultiObstacle:
         if self.twist is None:
             return np.zeros(self.dimension)
         else:
-            return self.twist.linear_velocity
+            return self.twist.linear
 
     @linear_velocity.setter
     def linear_velocity(self, value: npt.ArrayLike) -> None:
-- 
2.43.0


From 652229e9e0c51152bc01a48d8aa7f53127dfca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 023/134] fix: gamma of a multi-obstacle in its local frame

---
 nonlinear_avoidance/multi_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index a289a30..fef8a15 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -90,7 +90,7 @@ class MultiObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -104,7 +104,7 @@ class MultiObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From f9470e230acc9afa96a5f646efa1ffc667ee6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 024/134] fix: gamma of the arch in its local frame

---
 nonlinear_avoidance/arch_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 60bb479..46aed7d 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -105,7 +105,7 @@ class BlockArchObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True):
         if not in_global_frame:
-            position = self.pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -119,7 +119,7 @@ class BlockArchObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From 5c1851a0c32d5f5efeff8b7e664f0a13ea54db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 025/134] fix: intersection with the parent in the same frame

---
 nonlinear_avoidance/multi_obstacle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index fef8a15..f631a57 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -149,6 +149,10 @@ class MultiObstacle:
     ) -> int:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
+        # Put obstacle to 'global' frame, but store local pose
+        self._local_poses.append(obstacle.pose)
+        obstacle.pose = self._pose.transform_pose_from_relative(self._local_poses[-1])
+
         if reference_position is None:
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
@@ -165,9 +169,6 @@ class MultiObstacle:
         obstacle.set_reference_point(reference_position, in_global_frame=False)
 
         new_id = len(self._obstacle_list)
-        # Put obstacle to 'global' frame, but store local pose
-        self._local_poses.append(obstacle.pose)
-        obstacle.pose = self._pose.transform_pose_from_relative(self._local_poses[-1])
         self._obstacle_list.append(obstacle)
 
         self._graph.add_node(
-- 
2.43.0


From 3c0466205b24882f735eeace73d31f6af2ad542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 026/134] fix: intersection of obstacles of different type

---
 nonlinear_avoidance/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 6dbafc7..979e2d8 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -58,7 +58,7 @@ def get_intersection_of_obstacles(
         obstacle1.create_shape()
         shape1 = obstacle1.shape
 
-    if isinstance(obstacle1, Ellipse) or isinstance(obstacle1, EllipseWithAxes):
+    if isinstance(obstacle2, Ellipse) or isinstance(obstacle2, EllipseWithAxes):
         shape2 = create_shapely_ellipse(obstacle2)
     else:
         obstacle2.create_shape()
-- 
2.43.0


From ea9c7d8fe59ee37e5e3d04bf2ab463d213490994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 027/134] fix: limited weights with several full weights

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1abda8b..56ca7e3 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -62,8 +62,8 @@ def get_limited_weights_to_max_sum(weights: npt.ArrayLike) -> float | np.ndarray
         return (np.array(weights), weight_sum)
 
     if np.any(ind_max := np.array(weights) >= 1.0):
-        new_weights = np.zeros_like(weights)
-        new_weights[ind_max] = 1
+        new_weights = np.zeros(len(weights))
+        new_weights[ind_max] = 1.0 / np.sum(ind_max)
         # Assign to list
         return (new_weights, 1.0)
 
-- 
2.43.0


From 6c4be90d7133c094f0e7d4f7e7186ef4ff7bfade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 028/134] fix: rotation angle of nearly parallel vectors in a
 sequence

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 8fc374b..7b67c35 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -288,7 +288,7 @@ class VectorRotationSequence:
             vecs_perp[:, ii] = vec_perp
 
         angles = np.zeros(ind_nonzero.shape[0])
-        angles[ind_nonzero] = np.arccos(np.maximum(dot_prod[ind_nonzero], -1.0))
+        angles[ind_nonzero] = np.arccos(np.clip(dot_prod[ind_nonzero], -1.0, 1.0))
 
         return cls(np.stack((vectors_array[:, :-1], vecs_perp), axis=2), angles)
 
-- 
2.43.0


From 49b598352ac945b327ecb2cc68657e62bdb3f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 029/134] fix: speed of the multi-obstacle avoidance without
 active obstacle

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 56ca7e3..38c661a 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -329,7 +329,7 @@ class MultiObstacleAvoider:
         final_velocity = final_sequence.get_end_vector()
 
         if len(self._cluster_weights) <= 0:
-            return final_velocity + relative_velocity
+            return final_velocity * initial_magnitude + relative_velocity
 
         # averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
         averaged_normal = np.sum(
-- 
2.43.0


From 3700d07f4a6053d7076ce9edf607c59a54281f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 030/134] fix: slow-down of velocities towards the reference
 point

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 38c661a..ea1e8d5 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -366,8 +366,9 @@ class MultiObstacleAvoider:
     def slowfactor_from_convergence(self, power_factor: float = 0.2) -> float:
         """Returns scaling factor between [0, 1]"""
         rot_weight = np.array(self._rotation_weights)
-        conv_prox = np.array(self._convergence_reference_proximity)
-        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox, conv_prox < 1.0)
+        # Numerical errors can lead to values slightly larger than 1
+        conv_prox = np.minimum(self._convergence_reference_proximity, 1.0)
+        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox)
 
         scaling = np.ones_like(rot_weight)
         scaling[ind_pos] = ((1 - conv_prox[ind_pos]) / rot_weight[ind_pos]) ** (
-- 
2.43.0


From 85f096dc23cd8b54603e1fd67aa42a833c7ef899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 031/134] fix: relative velocity of obstacles which rotate in
 three dimensions

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index ea1e8d5..a82ce53 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -128,7 +128,7 @@ def compute_multiobstacle_relative_velocity(
         if hasattr(obs, "twist") and obs.twist is not None:
             relative_velocity = relative_velocity + obs.twist.linear * weights[ii]
 
-            if obs.twist.angular:
+            if np.any(obs.twist.angular):
                 if position.shape[0] == 2:
                     angular_velocity = np.cross(
                         np.array([0, 0, obs.twist.angular]),
@@ -143,7 +143,7 @@ def compute_multiobstacle_relative_velocity(
 
                 relative_velocity = (
                     relative_velocity
-                    + weights[ii] * influence_weight[ii] * angular_velocity[:2]
+                    + weights[ii] * influence_weight[ii] * angular_velocity[: position.shape[0]]
                 )
 
         if hasattr(obs, "deformation_rate"):
-- 
2.43.0


From 2c79a5af9f9c26556f5cc5689d4d217a1b8fafb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 032/134] fix: velocity of moving obstacles in the nonlinear
 avoidance

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index e0a7f24..cdcb226 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -209,12 +209,12 @@ class SingularityConvergenceDynamics(BaseAvoider):
 
         rotated_velocity = self._rotation_avoider.avoid(
             position=position,
-            initial_velocity=initial_velocity,
+            initial_velocity=initial_velocity * initial_norm,
             convergence_velocity=convergence_velocity * initial_norm,
             **kwargs,
         )
 
-        return rotated_velocity * initial_norm
+        return rotated_velocity
 
     def evaluate_sequence(self, position: np.ndarray) -> np.ndarray:
         if hasattr(self._rotation_avoider.initial_dynamics, "evaluate_magnitude"):
-- 
2.43.0


From 2e8d3749151ca425043ffef80a5b6ca07d6db663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 033/134] fix: leave an obstacle from deep inside along the
 normal

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 673f264..1e419cf 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -799,6 +799,10 @@ class RotationalAvoider(BaseAvoider):
             angle_ref = get_angle_from_vector((-1) * reference, base=base)
             tmp_radius = math.pi - convergence_radius
 
+            if math.isclose(convergence_radius, math.pi):
+                # The circle is a single point, the normal, where the vector already is
+                return initial_vector
+
         angle_init = get_angle_from_vector(initial_vector, base=base)
 
         if not LA.norm(angle_init - angle_ref):
-- 
2.43.0


From c6fcc9a77ee1d190c0bb0cf45820c56d1bb379c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:48 +0000
Subject: [PATCH 034/134] fix: occlusion by a parent with the same reference
 point

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index a82ce53..0ded628 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1117,9 +1117,9 @@ class MultiObstacleAvoider:
             ref_comp = component.get_reference_point(in_global_frame=True)
             vec_pos = position - ref_comp
             vec_parent = ref_parent - ref_comp
-            dot_prod = (vec_parent @ vec_pos) / (
-                np.linalg.norm(vec_pos) * np.linalg.norm(vec_parent)
-            )
+            norm_prod = np.linalg.norm(vec_pos) * np.linalg.norm(vec_parent)
+            # No preferred direction if the reference points coincide
+            dot_prod = (vec_parent @ vec_pos) / norm_prod if norm_prod else 0.0
 
             if dot_prod >= 1.0:
                 occlusion_weights[ii] = 0
-- 
2.43.0


From 86faac03ae012482312ca4f6dc3737f95cc38f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 035/134] fix: plane of the rotation between nearly parallel
 directions

---
 nonlinear_avoidance/vector_rotation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 7b67c35..b31089a 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -120,8 +120,12 @@ class VectorRotationXd:
         if dot_prod <= -1 - 1e-6:
             warnings.warn("(Close to) anti-parallel vectors.")
 
-        if np.allclose(vec_init, vec_rot):
-            # (Anti-)parallel vectors => calculate random perpendicular vector
+        vec_perp = vec_rot - vec_init * dot_prod
+        perp_norm = LA.norm(vec_perp)
+
+        if dot_prod > 0 and perp_norm < 1e-8:
+            # Parallel vectors => no rotation around a random perpendicular vector
+            perp_norm = 0.0
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
                 vec_perp[0] = 1
@@ -130,10 +134,9 @@ class VectorRotationXd:
                 vec_perp[1] = vec_init[0] * (-1)
                 vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
         else:
-            vec_perp = vec_rot - vec_init * dot_prod
-            vec_perp = vec_perp / LA.norm(vec_perp)
+            vec_perp = vec_perp / perp_norm
 
-        angle = np.arccos(min(max(dot_prod, -1), 1))
+        angle = np.arctan2(perp_norm, dot_prod)
         return cls(base=np.array([vec_init, vec_perp]).T, rotation_angle=angle)
 
     # def __mult__(self, factor) -> VectorRotationXd:
-- 
2.43.0


From be853ff35a172e235dd18a5a246cdd88d57e9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 036/134] fix: maximum velocity of the circular dynamics

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index f702481..3858a98 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -269,15 +269,13 @@ class SimpleCircularDynamics(DynamicalSystem):
         if not (dir_norm := LA.norm(direction)):
             return direction
 
-        normalized_direction = direction / dir_norm
+        normalized_direction = direction / dir_norm * self.maximum_velocity
 
         # Slow down towards the directional-singularity
         slow_down_distance = 1 / 3 * self.radius
         if pos_norm < slow_down_distance:
-            normalized_direction = (
-                normalized_direction
-                * (pos_norm / slow_down_distance)
-                * self.maximum_velocity
+            normalized_direction = normalized_direction * (
+                pos_norm / slow_down_distance
             )
 
         return self.pose.transform_direction_from_relative(normalized_direction)
-- 
2.43.0


From cb16821ace7bedbb6237f2cf5db30d30bbfe03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 037/134] fix: circular rotation dynamics around the position
 of its pose

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 3858a98..7e7a7bb 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -175,10 +175,11 @@ class CircularRotationDynamics(DynamicalSystem):
         return 2 * self.sigmoid(distance_surface)
 
     def evaluate(self, position):
-        if not LA.norm(position):
-            return position
+        local_position = self.pose.transform_position_to_relative(position)
+        if not LA.norm(local_position):
+            return np.zeros_like(local_position)
 
-        local_position = self.base_matrix.T @ position
+        local_position = self.base_matrix.T @ local_position
 
         rot_weight = self.get_rotation_weight(local_position)
         init_direction = self.get_initial_direction(local_position)
@@ -186,7 +187,7 @@ class CircularRotationDynamics(DynamicalSystem):
         rot_dir = self._rotation.rotate(init_direction, rot_factor=rot_weight)
         final_dir = rot_dir * self.constant_velocity
 
-        return self.base_matrix @ final_dir
+        return self.pose.transform_direction_from_relative(self.base_matrix @ final_dir)
 
 
 class SimpleCircularDynamics(DynamicalSystem):
-- 
2.43.0


From f0acb5a2c22641bb8a98e4b097352925797b3c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 038/134] fix: update of the moving dynamics stops in the
 debugger

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 7e7a7bb..94d55bd 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -78,7 +78,6 @@ class DynamicDynamics:
         self.position = (
             base_velocity * weight * self.time_step_of_base_movement + self.position
         )
-        breakpoint()
 
     def evaluate(self, position: Vector) -> Vector:
         """Updates the main_dynamics pose with as proposed in dynamics_of_base
-- 
2.43.0


From fa3b96261914c50006a7e7d23a29aefda2037727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 039/134] fix: circular dynamics without pose

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 94d55bd..31fab21 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -200,7 +200,7 @@ class SimpleCircularDynamics(DynamicalSystem):
         base_matrix: Optional[np.ndarray] = None,
         pose: Optional[ObjectPose] = None,
         maximum_velocity: float = 1.0,
-        # dimension: int = 2,
+        dimension: int = 2,
         radius: float = 1.0,
         **kwargs,
     ):
@@ -212,6 +212,8 @@ class SimpleCircularDynamics(DynamicalSystem):
                 )
             else:
                 pose.orientation = Rotation.from_matrix(base_matrix)
+        elif pose is None:
+            pose = ObjectPose(np.zeros(dimension))
 
         super().__init__(
             pose=pose,
-- 
2.43.0


From 469c93cf20be3a90f8a677ea30e8df1972d66145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 040/134] fix: spiral velocity does not depend on the position
 of the center

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index b81c618..37566b3 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -49,7 +49,7 @@ class SpiralingDynamics3D:
         rotating_vel2d = self.circular_dynamics.evaluate(local_position[1:])
 
         rotating_velocity = np.hstack((0.0, rotating_vel2d))
-        rotating_velocity = self.pose.transform_position_from_relative(
+        rotating_velocity = self.pose.transform_direction_from_relative(
             rotating_velocity
         )
 
-- 
2.43.0


From 703e3b64f8c49102f49c949be40124de5c0c2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 041/134] fix: weights on several segments at once

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index e985055..3644624 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -116,7 +116,7 @@ class WavyPathFollowing(Dynamics):
 
         zero_dist = distances == 0
         if np.any(zero_dist):
-            weights = 1.0 * zero_dist
+            weights = zero_dist / np.sum(zero_dist)
             return np.append(weights, 0)
 
         weights = (weight_factor / distances) ** weight_power
-- 
2.43.0


From a8e978ef9d25697ea8af234eab4a48da238abcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 042/134] fix: zero velocity vector at the attractor of a path

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index 3644624..fe461b9 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -179,8 +179,8 @@ class WavyPathFollowing(Dynamics):
 
     def evaluate(self, position: np.ndarray) -> np.ndarray:
         vel_attractor = self.evaluate_magnitude(position)
-        if not np.linalg.norm(vel_attractor):
-            return vel_attractor
+        if not vel_attractor:
+            return np.zeros(self.dimension)
 
         sequence = self.evaluate_dynamics_sequence(position)
         return sequence.get_end_vector() * vel_attractor
-- 
2.43.0


From a96667902a559fe75214a0ff8a8f8c9e6b369719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 043/134] fix: sequence of dynamics without attractor

---
 nonlinear_avoidance/dynamics/sequenced_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/sequenced_dynamics.py b/nonlinear_avoidance/dynamics/sequenced_dynamics.py
index 3bdbaa2..836703b 100644
--- a/nonlinear_avoidance/dynamics/sequenced_dynamics.py
+++ b/nonlinear_avoidance/dynamics/sequenced_dynamics.py
@@ -19,7 +19,7 @@ def evaluate_dynamics_sequence(
         base = default_dynamics.evaluate(position)
         final = dynamics.evaluate(position)
 
-    elif hasattr(dynamics, "attractor_position"):
+    elif getattr(dynamics, "attractor_position", None) is not None:
         base = dynamics.attractor_position - position
         final = dynamics.evaluate(position)
 
-- 
2.43.0


From 795655b6e667ec8b240e416c5134c1fe56016623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:37 +0000
Subject: [PATCH 044/134] fix: path following straight ahead of the attractor

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index fe461b9..2847ce0 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -138,6 +138,13 @@ class WavyPathFollowing(Dynamics):
     ) -> VectorRotationSequence:
         weights = self.get_weights(position)
 
+        if weights[-1] > 1 - 1e-9:
+            # The last segment might be anti-parallel to the (only) global direction
+            direction = self.evaluate_global_dynamics(position)
+            return VectorRotationSequence.create_from_vector_array(
+                np.vstack((direction, direction)).T
+            )
+
         direction_tree = VectorRotationTree()
         direction_tree.set_root(
             root_idx=(1, self.n_segments),
-- 
2.43.0


From 9695668446b15361f8ace11ad7fcc40929d48b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 045/134] fix: jump of the locally rotated dynamics
 perpendicular to the reference

---
 .../dynamics/locally_rotated_linear_dynamics.py                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index d196543..fdf1f16 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -215,7 +215,8 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = attractor_dir / dist_attractor
         dot_product = np.dot(attractor_dir, self.rotation.base0)
 
-        if not dot_product or not weight:
+        if dot_product <= -1 + 1e-12 or not weight:
+            # Opposite of the initial direction, or no influence
             return attractor_dir * min(dist_attractor, self.maximum_velocity)
 
         # And attractor
-- 
2.43.0


From 58e0c075e68674da5c858b8890991a6daae54f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 046/134] fix: locally rotated dynamics of an obstacle at the
 attractor

---
 .../dynamics/locally_rotated_linear_dynamics.py      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index fdf1f16..4b35a6f 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -59,18 +59,22 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
 
         reference_velocity = reference_velocity / self.maximum_velocity
 
+        self.min_gamma = min_gamma
+        self.max_gamma = max_gamma
+        # Modify if needed
+        self.attractor_influence = 3
+
         attractor_dir = self.attractor_position - obstacle.center_position
         if not (attr_norm := LA.norm(attractor_dir)):
             warnings.warn("Obstacle is at attractor - zero deviation")
+            self.rotation = VectorRotationXd.from_directions(
+                vec_init=reference_velocity, vec_rot=reference_velocity
+            )
             return
 
         self.rotation = VectorRotationXd.from_directions(
             vec_init=attractor_dir / attr_norm, vec_rot=reference_velocity
         )
-        self.min_gamma = min_gamma
-        self.max_gamma = max_gamma
-        # Modify if needed
-        self.attractor_influence = 3
 
         # self.base = get_orthogonal_basis()
         # self.deviation = get_angle_space(reference_velocity, null_matrix=self.base)
-- 
2.43.0


From 06bec08f8e7e1bb252f7f5376e00c39251197014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 047/134] fix: speed of the convergence velocity of the
 perpendicular deviation

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index cd99398..e3d93f1 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -321,7 +321,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         direction = self.attractor_position - position
 
         if dir_norm := LA.norm(direction):
-            dir_norm = direction / dir_norm * self.get_velocity_factor(dir_norm)
+            direction = direction / dir_norm * self.get_velocity_factor(dir_norm)
 
         return direction
 
-- 
2.43.0


From 14a2d0c7c346bfa163b3be326746ccb6fa9f9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 048/134] fix: unfolding modified the given position

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ac00a06..68e7f7e 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -288,7 +288,7 @@ class ProjectedRotationDynamics:
         # Rotation is performed with VectorRotationXd
         # vec_attractor_to_position = transformed_position - attractor_position
         if in_obstacle_frame:
-            vec_obstacle_to_position = transformed_position
+            vec_obstacle_to_position = np.copy(transformed_position)
         else:
             vec_obstacle_to_position = (
                 transformed_position - self.obstacle.global_reference_point
-- 
2.43.0


From 814688cb0195edcef30c6fc1c6b50f9d6a879f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 049/134] fix: call of the projected obstacle convergence
 sequence

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index 68e7f7e..f361742 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -514,7 +514,9 @@ class ProjectedRotationDynamics:
             return initial_sequence
 
         # Trafo is expected to be not None, as we have: weight > 0
-        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(position)
+        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(
+            position, root_obs
+        )
 
         convergence_sequence = evaluate_dynamics_sequence(
             root_obs.get_reference_point(in_global_frame=True),
@@ -532,7 +534,7 @@ class ProjectedRotationDynamics:
             sequence=initial_sequence,
         )
         obs_id = 2
-        self.conv_tree.add_node(
+        self.conv_tree.add_node_orientation(
             orientation=trafo_pos_to_attr,
             node_id=obs_id,
             parent_id=root_id,
-- 
2.43.0


From 3cbb4b503229099a741fe4120d5648e937109b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 050/134] fix: deflation weight of the shrunk position

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index f361742..e771503 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -557,10 +557,10 @@ class ProjectedRotationDynamics:
         """
         shrinking_weight = 1.0
         shrunk_position = self._get_position_after_deflating_obstacle(
-            position, in_obstacle_frame=False, weight=shrinking_weight
+            position, in_obstacle_frame=False, deflation_weight=shrinking_weight
         )
         shrunk_attractor = self._get_position_after_deflating_obstacle(
-            self.attractor_position, in_obstacle_frame=False, weight=shrinking_weight
+            self.attractor_position, in_obstacle_frame=False, deflation_weight=shrinking_weight
         )
 
         dir_attr_to_pos = shrunk_attractor - shrunk_position
-- 
2.43.0


From 835bc0c8ccdb77566cd1bb6e9d5f5d618078349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 051/134] fix: unfolding of a position on the axis of the
 attractor

---
 .../dynamics/projected_rotation_dynamics.py                | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index e771503..ca747d5 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -312,12 +312,13 @@ class ProjectedRotationDynamics:
         dot_prod = dotprod_factor**self.dotprod_projection_power
         dot_prod = 2.0 / (dot_prod + 1) - 1
 
-        if dot_prod < 1:
-            dir_perp = dir_obstacle_to_position - dir_attractor_to_obstacle * dot_prod
+        # Part of the position which is perpendicular to the axis of the attractor
+        dir_perp = vec_obstacle_to_position - radius * dir_attractor_to_obstacle
 
+        if dot_prod < 1 and (perp_norm := LA.norm(dir_perp)):
             rotation_ = VectorRotationXd.from_directions(
                 vec_init=dir_attractor_to_obstacle,
-                vec_rot=dir_perp / LA.norm(dir_perp),
+                vec_rot=dir_perp / perp_norm,
             )
             rotation_.rotation_angle = math.acos(dot_prod)
 
-- 
2.43.0


From d53b0bf8a181743d31264eef82e2d068d77a8319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 052/134] fix: overflow of the projection opposite of the
 obstacle

---
 .../dynamics/projected_rotation_dynamics.py               | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ca747d5..0963838 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -1,7 +1,6 @@
 """
 Class to deviate a DS based on an underlying obstacle.
 """
-import sys
 import math
 import copy
 import os
@@ -82,6 +81,9 @@ class ProjectedRotationDynamics:
         self.attractor_influence = 3
         self.dotprod_projection_power = 2
 
+        # Distance of points projected 'to infinity' (powers of it need to stay finite)
+        self.far_away_distance = 1e50
+
         if initial_dynamics is None:
             self.initial_dynamics = LinearSystem(attractor_position=attractor_position)
         else:
@@ -233,14 +235,14 @@ class ProjectedRotationDynamics:
             )
 
         else:
-            transformed_position[0] = (-1) * sys.float_info.max
+            transformed_position[0] = (-1) * self.far_away_distance
 
         dir_attractor_to_position = vec_attractor_to_position / dist_attr_pos
         dot_prod = np.dot(dir_attractor_to_position, dir_attractor_to_obstacle)
 
         if dot_prod <= -1.0:
             # Put it very far away in a random direction
-            transformed_position[1] = sys.float_info.max
+            transformed_position[1] = self.far_away_distance
 
         elif dot_prod < 1.0:
             if trafo_norm := LA.norm(transformed_position[1:]):
-- 
2.43.0


From d29c8abafcf4b01933a867c41be349847959b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 053/134] fix: avoidance of a given velocity with nonlinear
 dynamics

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index cdcb226..2b9bfcd 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -189,7 +189,9 @@ class SingularityConvergenceDynamics(BaseAvoider):
     #     return self._rotation_avoider.convergence_dynamics.evaluate(position)
 
     def avoid(self, position, initial_velocity):
-        convergence_velocity = self.evaluate_convergence_dynamics(position)
+        convergence_velocity = self.evaluate_weighted_dynamics(
+            position, initial_velocity
+        )
         return self._rotation_avoider.avoid(
             position=position,
             initial_velocity=initial_velocity,
-- 
2.43.0


From 5d4c3591ca0960b565d5be81dd44fd5cf4d19eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 054/134] fix: rotation between anti-parallel directions

---
 nonlinear_avoidance/vector_rotation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b31089a..4a623a1 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -123,8 +123,8 @@ class VectorRotationXd:
         vec_perp = vec_rot - vec_init * dot_prod
         perp_norm = LA.norm(vec_perp)
 
-        if dot_prod > 0 and perp_norm < 1e-8:
-            # Parallel vectors => no rotation around a random perpendicular vector
+        if perp_norm < 1e-8:
+            # (Anti-)parallel vectors => calculate random perpendicular vector
             perp_norm = 0.0
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
@@ -133,6 +133,11 @@ class VectorRotationXd:
                 vec_perp[0] = vec_init[1]
                 vec_perp[1] = vec_init[0] * (-1)
                 vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
+
+            if dot_prod < 0 and vec_perp[np.nonzero(vec_perp)[0][0]] < 0:
+                # Same plane and side in both ways, such that the rotations back
+                # and forth compensate each other
+                vec_perp = (-1) * vec_perp
         else:
             vec_perp = vec_perp / perp_norm
 
-- 
2.43.0


From 0c9642fc5984c7aad6ff1b89dd6c72eb993a49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 055/134] fix: speed limit depends on the order of equally
 approached obstacles

---
 .../avoidance/rotational_avoider.py           | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 1e419cf..8b22891 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -448,26 +448,15 @@ class RotationalAvoider(BaseAvoider):
     ):
         """Returns scaled velocity such that zero on the surface of an obstacle."""
         # magnitude = np.dot(inv_gamma_weight, weights) * np.linalg.norm(initial_velocity)
-        min_dot_prod = 0
-        it_min = None
+        # The most restrictive obstacle counts (independent of the order)
+        min_factor = 0
         for ii in range(len(gammas)):
             # Under the assumption of normalized input vectors
             dot_prod = np.dot(modulated_velocity, normals[:, ii])
 
-            if dot_prod < min_dot_prod:
-                min_dot_prod = dot_prod
-                it_min = ii
+            min_factor = min(min_factor, dot_prod / gammas[ii])
 
-        if it_min is None:
-            return modulated_velocity * initial_magintude
-
-        modulated_velocity = (
-            modulated_velocity
-            * initial_magintude
-            * (1 + (1 / gammas[it_min]) * min_dot_prod)
-        )
-
-        return modulated_velocity
+        return modulated_velocity * initial_magintude * (1 + min_factor)
 
     @staticmethod
     def compute_safe_scaling(
-- 
2.43.0


From 28ce481e8bac69390caf836e6a221419cce52f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 056/134] fix: free-space query of the multi-obstacle container
 calls a missing method

---
 nonlinear_avoidance/multi_obstacle_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_container.py b/nonlinear_avoidance/multi_obstacle_container.py
index b51de57..25721ef 100644
--- a/nonlinear_avoidance/multi_obstacle_container.py
+++ b/nonlinear_avoidance/multi_obstacle_container.py
@@ -69,7 +69,7 @@ class MultiObstacleContainer:
         if not in_global_frame:
             raise NotImplementedError()
         for obs in self:
-            if obs.is_in_free_space(position, in_global_frame=True):
+            if obs.is_collision_free(position, in_global_frame=True):
                 continue
             return False
 
-- 
2.43.0


From 87c4f352424a9c011e56995cd431ad664908c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 057/134] fix: root and parent with index zero can be set twice

---
 nonlinear_avoidance/multi_ellipse_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 51df36a..3974231 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -97,14 +97,14 @@ class MultiEllipseObstacle(Obstacle):
         return self._obstacle_list[idx_obs]
 
     def set_root(self, obs_id: int):
-        if self._root_idx:
+        if self._root_idx is not None:
             raise NotImplementedError("Make sure to delete first.")
         self._root_idx = obs_id
         self._parent_list[obs_id] = -1
 
     def set_parent(self, obs_id: int, parent_id: int):
         # This should go automatically at run-time
-        if self._parent_list[obs_id]:
+        if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
 
         self._parent_list[obs_id] = parent_id
-- 
2.43.0


From e51c461785d1b6a368436018e8b8c05c986d15c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 058/134] fix: rejected component leaves its pose in the
 multi-obstacle

---
 nonlinear_avoidance/multi_obstacle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index f631a57..0508dbc 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -150,14 +150,15 @@ class MultiObstacle:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
         # Put obstacle to 'global' frame, but store local pose
-        self._local_poses.append(obstacle.pose)
-        obstacle.pose = self._pose.transform_pose_from_relative(self._local_poses[-1])
+        local_pose = obstacle.pose
+        obstacle.pose = self._pose.transform_pose_from_relative(local_pose)
 
         if reference_position is None:
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
             )
             if global_reference is None:
+                obstacle.pose = local_pose
                 raise ValueError("No intersection found.")
 
             reference_position = obstacle.pose.transform_position_to_relative(
@@ -169,6 +170,7 @@ class MultiObstacle:
         obstacle.set_reference_point(reference_position, in_global_frame=False)
 
         new_id = len(self._obstacle_list)
+        self._local_poses.append(local_pose)
         self._obstacle_list.append(obstacle)
 
         self._graph.add_node(
-- 
2.43.0


From 8787b6f3448bf26196f97c9f7c14f52f1c257797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 059/134] fix: intersection of obstacles which only touch

---
 nonlinear_avoidance/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 979e2d8..0a796d1 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -65,7 +65,9 @@ def get_intersection_of_obstacles(
         shape2 = obstacle2.shape
 
     intersect = shape1.intersection(shape2)
-    intersections = np.array(intersect.exterior.coords.xy)
+    # Obstacles which only touch share an edge or a point, without exterior
+    outline = getattr(intersect, "exterior", intersect)
+    intersections = np.array(outline.coords.xy)
 
     if False:
         # TODO: remove after debug
-- 
2.43.0


From 8e17bdd7879868b8718b732777b695ef34c0c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 060/134] fix: spanning basis of parallel vectors is not
 orthonormal

---
 nonlinear_avoidance/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/utils.py b/nonlinear_avoidance/utils.py
index bd99654..7162101 100644
--- a/nonlinear_avoidance/utils.py
+++ b/nonlinear_avoidance/utils.py
@@ -74,9 +74,9 @@ def get_orthonormal_spanning_basis(vector1, vector2, /):
     """Returns a orthonormal basis from to orthonormal input vectors."""
     dot_prod = np.dot(vector1, vector2)
 
-    if abs(dot_prod) < 1:
-        vec_perp = vector2 - vector1 * dot_prod
-        vec_perp = vec_perp / LA.norm(vec_perp)
+    vec_perp = vector2 - vector1 * dot_prod
+    if (perp_norm := LA.norm(vec_perp)) > 1e-9:
+        vec_perp = vec_perp / perp_norm
     else:
         # (Anti-)parallel vectors => take random perpendicular vector
         vec_perp = np.zeros(vector1.shape)
-- 
2.43.0


From 3872897a249fd4297db22ab3762d71c653f162ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 061/134] fix: gamma and normal on the surface of a k-means
 region

---
 .../kmeans_learner/kmeans_obstacle.py         | 67 ++++---------------
 1 file changed, 12 insertions(+), 55 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index eb342c1..79155ec 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -251,24 +251,6 @@ class KMeansObstacle(Obstacle):
             # Put to global frame
             proj_position = proj_position + self.center_position
 
-        elif position_norm == surf_norm:
-            # Surface points cannot be disregarded yet, since we need to check for
-            # transition regions
-            if ind_transparent is None:
-                if len(self.successor_index) != 1:
-                    # We are on the surface -> gamma = 1 / or infty if in gap
-                    return 1.0
-
-                ind_transparent = self.successor_index[0]
-
-            if np.dot(
-                surf_position - self.inbetween_points[ind_transparent, :],
-                self.normal_directions[ind_transparent, :],
-            ):
-                # NOT on the transparent surface
-                return 1.0
-
-            return sys.float_info.max
         else:
 
             proj_position = position
@@ -277,9 +259,7 @@ class KMeansObstacle(Obstacle):
         distances_surface = self._get_normal_distances(proj_position, is_boundary=False)
         distances_surface[self._index] = proj_position_norm - self.radius
 
-        # Only consider positive ones for the weight
-        weights = np.maximum(distances_surface, 0)
-        weights = weights / np.sum(weights)
+        weights = self._get_weights_from_surface_distances(distances_surface)
 
         # argmax = np.argmax(distances_surface[self.ind_relevant_and_self])
         # max_dist = distances_surface[self.ind_relevant_and_self[argmax]]
@@ -394,37 +374,6 @@ class KMeansObstacle(Obstacle):
             # Put to global frame
             proj_position = proj_position + self.center_position
 
-        elif position_norm == surf_norm:
-            # Surface points cannot be disregarded --- we're exactly on it(!)
-            ind_closest = np.argsort(
-                LA.norm(
-                    self.kmeans.cluster_centers_[self.ind_relevant, :]
-                    - np.tile(self.center_position, (len(self.ind_relevant), 1)),
-                    axis=0,
-                )
-            )
-            # breakpoint()
-
-            dist = LA.norm(
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.center_position
-            )
-
-            if dist >= self.radius:
-                normal = relative_position / LA.norm(relative_position)
-                if self.is_boundary:
-                    normal = (-1) * normal
-                return normal
-
-            normal_plane = (
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[1]], :]
-            )
-
-            normal = normal_plane / LA.norm(normal_plane)
-            if self.is_boundary:
-                normal = (-1) * normal
-            return normal
         else:
 
             proj_position = position
@@ -433,9 +382,7 @@ class KMeansObstacle(Obstacle):
         distances_surface = self._get_normal_distances(proj_position, is_boundary=False)
         distances_surface[self._index] = proj_position_norm - self.radius
 
-        # Only consider positive ones for the weight
-        weights = np.maximum(distances_surface, 0)
-        weights = weights / np.sum(weights)
+        weights = self._get_weights_from_surface_distances(distances_surface)
 
         # distances_surface = self._get_normal_distances(position, is_boundary=False)
         # distances_surface[self._index] = position_norm - self.radius
@@ -510,6 +457,16 @@ class KMeansObstacle(Obstacle):
         # else:
         #     return self.pose.transform_direction_to_relative(weighted_direction)
 
+    def _get_weights_from_surface_distances(self, distances: np.ndarray) -> np.ndarray:
+        """Only surfaces which are exceeded are considered; on the surface (up to
+        numerical precision) there is none, hence it's the closest one."""
+        weights = np.maximum(distances, 0)
+        if not np.sum(weights):
+            indexes = self.ind_relevant_and_self
+            weights[indexes[np.argmax(distances[indexes])]] = 1
+
+        return weights / np.sum(weights)
+
     def _get_surface_weights(self, position: Vector) -> np.ndarray:
         """Get the surface weights in the global frame."""
         relative_position = position - self.center_position
-- 
2.43.0


From 1e780cae9de935010148a41163f9c9af7c611f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 062/134] fix: normal at the center of a k-means region
 modifies the position and is not a unit vector

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 79155ec..d0ce2a3 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -357,11 +357,12 @@ class KMeansObstacle(Obstacle):
         relative_position = position - self.center_position
         if not (position_norm := LA.norm(relative_position)):
             # Some direction (normed).
-            position[0] = 1
+            direction = np.zeros(self.dimension)
+            direction[0] = 1
             if self.is_boundary:
-                position = (-1) * position
+                direction = (-1) * direction
 
-            return position
+            return direction
 
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
-- 
2.43.0


From 782cc418019a9b628cc126286e9af66a2845daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 063/134] fix: surface point of a k-means region modifies the
 position at the center

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index d0ce2a3..aa2151b 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -508,6 +508,7 @@ class KMeansObstacle(Obstacle):
             direction = direction / dir_norm
         else:
             # Random value
+            direction = np.zeros(self.dimension)
             direction[0] = 1
 
         # Default guess: point is on the circle-surface
-- 
2.43.0


From 75a442f35d942ffb48caa017769a4c511060eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 064/134] fix: in-between position of a k-means region ignores
 the index

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index aa2151b..ba63ee8 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -127,7 +127,7 @@ class KMeansObstacle(Obstacle):
         return inbetween_points
 
     def get_inbetween_position(self, index) -> Vector:
-        return self._inbetween_points[self.ind_relevant, :]
+        return self.inbetween_points[index, :]
 
     @property
     def num_relevant(self) -> int:
-- 
2.43.0


From 5279f3b15a704f01891d837a98555d6c2127d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 065/134] fix: labels of the samples after removing sparse
 clusters

---
 .../kmeans_learner/kmeans_motion_learner.py   | 39 +++++++------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 3cd8f88..23cee80 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -231,31 +231,22 @@ class KMeansMotionLearner:
             _cluster_removal_factor * self.data.n_samples / self.n_clusters
         )
 
-        n_delta_label = 0
-        for ii in range(self.kmeans.n_clusters):
-            ind_label = ii == self.kmeans.labels_
-
-            if np.sum(ind_label) < min_num_of_samples:
-                # Remove emtpy clusters
-                self.kmeans.n_clusters = self.kmeans.n_clusters - 1
-
-                self.kmeans.cluster_centers_ = np.delete(
-                    self.kmeans.cluster_centers_, obj=ii - n_delta_label, axis=0
-                )
-
-                n_delta_label += 1
-                logger.info(f"Removed cluster with label {ii}.")
-                # print(f"Removed cluster with label {ii}.")
-
-                self.kmeans.labels_[ind_label] = self.kmeans.predict(
-                    self.data.position[ind_label, :]
-                )
+        ind_sparse = [
+            ii
+            for ii in range(self.kmeans.n_clusters)
+            if np.sum(ii == self.kmeans.labels_) < min_num_of_samples
+        ]
+        if not ind_sparse:
+            return
+
+        self.kmeans.n_clusters = self.kmeans.n_clusters - len(ind_sparse)
+        self.kmeans.cluster_centers_ = np.delete(
+            self.kmeans.cluster_centers_, obj=ind_sparse, axis=0
+        )
+        logger.info(f"Removed clusters with label {ind_sparse}.")
 
-            elif n_delta_label:
-                # Update labels to have sequence of numbers
-                self.kmeans.labels_[ind_label] = (
-                    self.kmeans.labels_[ind_label] - n_delta_label
-                )
+        # The labels of the remaining clusters change, too
+        self.kmeans.labels_ = self.kmeans.predict(self.data.position)
 
     def _fit_new_clusters_to_missfitting_datapoints(self):
         # TODO:
-- 
2.43.0


From 3f42fb78dbacd25b0a8be6441bf6a08d8720c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 066/134] fix: learner created from centers has no dynamics
 outside of the regions

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 23cee80..5986805 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -103,6 +103,7 @@ class KMeansMotionLearner:
         new_instance._fit_region_radius()
         new_instance._fit_region_obstacles()
         new_instance._fit_local_dynamics()
+        new_instance._set_outside_dynamics()
 
         return new_instance
 
@@ -166,6 +167,9 @@ class KMeansMotionLearner:
         self._fit_region_obstacles()
         self._fit_local_dynamics()
 
+        self._set_outside_dynamics()
+
+    def _set_outside_dynamics(self) -> None:
         # Set 'general'/ global velocity (more complex motion could be approximated...)
         self.outside_dynamics = LinearSystem(
             attractor_position=self.data.attractor_position,
-- 
2.43.0


From 4cbc6ac0d6e2614fce3e4665ec327bed8c7360ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 067/134] fix: gamma of a k-means region is zero next to its
 center

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index ba63ee8..37ef810 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -234,7 +234,8 @@ class KMeansObstacle(Obstacle):
             relative_position = position
             position = position + self.center_position
 
-        if not (position_norm := LA.norm(relative_position)):
+        # The projection is not accurate anymore if (numerically) at the center
+        if (position_norm := LA.norm(relative_position)) <= 1e-9 * self.radius:
             if self.is_boundary:
                 return sys.float_info.max
             else:
-- 
2.43.0


From 172d99042dd94deb89268f4654abdaf4409db03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 068/134] fix: kernel point of a component can not be set

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index b6a18e4..1b2e0aa 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -113,7 +113,7 @@ class GmmObstacle:
         return self._reference_points[:, index]
 
     def set_kernel_point(self, value: Vector, index: int) -> None:
-        self._reference_points[:, index]
+        self._reference_points[:, index] = value
 
     def get_center_position(self, index: int) -> Vector:
         return self._gmm.means_[index, :]
-- 
2.43.0


From 70cc3e8fc573f4054ae9ee3fe1037819ad2b9f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 069/134] fix: root of the gaussian components is the one
 closest to their mean

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 1b2e0aa..682798f 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -132,7 +132,7 @@ class GmmObstacle:
         mean_center = np.mean(self._gmm.means_, axis=0)
 
         ind_closest = np.argmin(
-            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=0)
+            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=1)
         )
 
         self._reference_points[:, ind_closest] = self._gmm.means_[ind_closest, :]
-- 
2.43.0


From ce441e52a6869ab3b298977acccdccd0a12356a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 070/134] fix: orientation of the analytic ellipses of a
 gaussian mixture

---
 nonlinear_avoidance/gmm_obstacle.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 682798f..8707677 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -428,9 +428,8 @@ class GmmObstacle:
 
         obstacle_environment = ObstacleContainer()
         for ii in range(self.n_gmms):
-            uu = self._axes_directions[:, :, ii][0] / LA.norm(
-                self._axes_directions[:, :, ii][0]
-            )
+            # Direction of the first axis (column of the eigenvector-matrix)
+            uu = self._axes_directions[:, 0, ii]
             angle = np.arctan2(uu[1], uu[0])
 
             obstacle_environment.append(
-- 
2.43.0


From ae36da83f04b05ce2cad2896a2fdeac6d739e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 071/134] fix: axes of an obstacle with a single gaussian

---
 nonlinear_avoidance/gmm_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 8707677..d701a83 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -143,6 +143,9 @@ class GmmObstacle:
         remaining_list = np.arange(self.n_gmms).tolist()
         del remaining_list[ind_closest]
 
+        # By default also update axes length and direction
+        self.evaluate_axes_length_and_direction()
+
         if not remaining_list:
             # Only has one element
             return
@@ -171,9 +174,6 @@ class GmmObstacle:
                 indices=[value, parent_value]
             )
 
-            # By default also update axes length and direction
-            self.evaluate_axes_length_and_direction()
-
     #     for ii in range(self.n_gmms):
     #         if ii == ind_closest:
     #             continue
-- 
2.43.0


From 838006b963fb45593f1a03215bb84384957a7072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 072/134] fix: gamma and normal of fitted gaussians use the
 cholesky factor

---
 nonlinear_avoidance/gmm_obstacle.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index d701a83..55e8e03 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -473,6 +473,10 @@ class GmmObstacle:
                     "k--",
                 )
 
+    def _get_precision(self, index: int) -> np.ndarray:
+        """Inverse of the covariance-matrix of a component."""
+        return LA.pinv(self._gmm.covariances_[index, :, :])
+
     def _get_gauss_derivative(
         self, position: Vector, index: int, powerfactor: float = 1
     ):
@@ -493,7 +497,7 @@ class GmmObstacle:
 
     def get_gamma_proportional(self, position: Vector, index: int) -> float:
         delta_dist = position - self._gmm.means_[index, :]
-        gamma = delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist
+        gamma = delta_dist.T @ self._get_precision(index) @ delta_dist
         return np.sqrt(gamma) / self.variance_factor
 
     def get_gamma_derivative(
@@ -505,10 +509,10 @@ class GmmObstacle:
         d_gamma = (
             powerfactor
             / 2.0
-            * (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            * (delta_dist.T @ self._get_precision(index) @ delta_dist)
             ** (powerfactor / 2.0 - 1)
             * self.variance_factor ** (-1 * powerfactor)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self._get_precision(index)
             @ delta_dist
         )
 
@@ -582,10 +586,10 @@ class GmmObstacle:
         delta_dist = position - self._gmm.means_[index, :]
 
         d_gamma = (
-            (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            (delta_dist.T @ self._get_precision(index) @ delta_dist)
             ** (1.0 / 2.0 - 1)
             * self.variance_factor ** (-1)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self._get_precision(index)
             @ delta_dist
         )
 
-- 
2.43.0


From af5cf5113b27134e7af0a0cea33d1aae03e91a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 073/134] fix: weight of the normals in the mean normal

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 55e8e03..23e4e1b 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -287,7 +287,7 @@ class GmmObstacle:
                 position, index
             )
 
-            delta_normal += (
+            delta_normal += self.relative_weights[index] * (
                 self.get_normal_direction(position, index)
                 - reference_directions[:, index]
             )
-- 
2.43.0


From 0829c065d8b19717e8759ecd216b0fd4b393f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 074/134] fix: mean normal if all normals are parallel to the
 reference

---
 nonlinear_avoidance/gmm_obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 23e4e1b..8477f2b 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -310,6 +310,7 @@ class GmmObstacle:
         if not LA.norm(delta_normal):
             # Trivial case
             self.mean_normal = self.mean_reference
+            return
 
         dot_prod = (-1) * (
             np.dot(delta_normal, self.mean_reference) / LA.norm(delta_normal)
-- 
2.43.0


From 76bef4481bafcc1ff64b66e1144fc8046c8c9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 075/134] fix: normal at the center of a gaussian component

---
 nonlinear_avoidance/gmm_obstacle.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 8477f2b..5691c5b 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -586,13 +586,8 @@ class GmmObstacle:
         """Get normal direction of obstacle =>"""
         delta_dist = position - self._gmm.means_[index, :]
 
-        d_gamma = (
-            (delta_dist.T @ self._get_precision(index) @ delta_dist)
-            ** (1.0 / 2.0 - 1)
-            * self.variance_factor ** (-1)
-            * self._get_precision(index)
-            @ delta_dist
-        )
+        # Direction of the gradient (the scaling is removed by the normalization)
+        d_gamma = self._get_precision(index) @ delta_dist
 
         dgamma_norm = LA.norm(d_gamma)
         if dgamma_norm:
-- 
2.43.0


From 370295c5ec67e472c882b9417c23a40e2e8ab17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 076/134] fix: weights of gaussian components which are apart

---
 nonlinear_avoidance/gmm_obstacle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 5691c5b..caeb8b0 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -371,16 +371,19 @@ class GmmObstacle:
 
         for index in range(self.n_gmms):
             # surface_point_gammas = np.ones((self.n_gmms))
-
-            surface_point = self.project_point_on_surface_with_offcenter_point(
-                position, self._reference_points[:, index], index
-            )
             ind_parent = self.gmm_index_graph.get_parent(index)
 
-            # breakpoint()
             if ind_parent is None:
                 continue
 
+            if self.get_gamma_proportional(self._reference_points[:, index], index) > 1:
+                # Disjoint from the parent (there might be no point on the surface)
+                continue
+
+            surface_point = self.project_point_on_surface_with_offcenter_point(
+                position, self._reference_points[:, index], index
+            )
+
             surface_point_gamma = self.get_gamma_proportional(surface_point, ind_parent)
 
             if surface_point_gamma >= 1:
-- 
2.43.0


From fa8e7e3979d71304a1d3583dc2540c938600f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 077/134] fix: derivative of the gamma of a gaussian component

---
 nonlinear_avoidance/gmm_obstacle.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index caeb8b0..e8cb8e7 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -512,7 +512,6 @@ class GmmObstacle:
 
         d_gamma = (
             powerfactor
-            / 2.0
             * (delta_dist.T @ self._get_precision(index) @ delta_dist)
             ** (powerfactor / 2.0 - 1)
             * self.variance_factor ** (-1 * powerfactor)
-- 
2.43.0


From 2d538424c5ddf17c9ef6cade3436fc049ffd50fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 078/134] fix: index of the root component of a gaussian
 mixture

---
 nonlinear_avoidance/gmm_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index e8cb8e7..fa04835 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -209,7 +209,7 @@ class GmmObstacle:
                 )
 
     def get_root_rotation_direction(self, position: Vector, velocity: Vector) -> Vector:
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         kernel_direction = position - self.get_kernel_point(ind_root)
         kernal_norm = LA.norm(kernel_direction)
         if not kernal_norm:
@@ -293,7 +293,7 @@ class GmmObstacle:
             )
 
         # Get root
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         if self.relative_weights[ind_root]:
             base_vector = reference_directions[:, ind_root]
         else:
-- 
2.43.0


From b0fdd6f2fa7e2356063ffdba00e444865f8b8eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 079/134] fix: parts of a multi-obstacle are not hidden at
 positions exactly on their surface

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 0ded628..8f3b0c0 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1100,7 +1100,8 @@ class MultiObstacleAvoider:
             reference_directions = component.get_reference_direction(
                 position, in_global_frame=True
             )
-            if component.get_gamma(position, in_global_frame=True) < 1.0:
+            # Exactly on the surface, the ray towards the inside might leave on the other side
+            if component.get_gamma(position, in_global_frame=True) <= 1.0:
                 reference_directions = (-1) * reference_directions
 
             surf_point = component.get_intersection_with_surface(
-- 
2.43.0


From 27c759ba0a1385f6545aa65fc28806ca34eb8e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 080/134] fix: multi-obstacle avoidance exactly opposite of the
 attractor of a part

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 8f3b0c0..b36d409 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -598,7 +598,9 @@ class MultiObstacleAvoider:
                         )
                     )
                     if trafo_comp_to_parent is None:
-                        breakpoint()  # TODO: debugging -> remove
+                        # Exactly opposite of the attractor -> no convergence direction
+                        pred_id = None
+                        break
 
                     # TODO: this could be the vector directly...
                     self.conv_tree.add_node_orientation(
@@ -616,6 +618,9 @@ class MultiObstacleAvoider:
                         # Root reached
                         break
 
+                if pred_id is None:
+                    continue
+
                 # Add convergence transformation to branch
                 node_id = (ii_tree, ii_com)
                 try:
-- 
2.43.0


From 8bbb0b03470ea6cb51c6e630c90e88f09f1d1d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 081/134] fix: orthonormal base of rotations between almost
 (anti-)parallel directions

---
 nonlinear_avoidance/vector_rotation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 4a623a1..c4681cf 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -140,6 +140,9 @@ class VectorRotationXd:
                 vec_perp = (-1) * vec_perp
         else:
             vec_perp = vec_perp / perp_norm
+            # Repeat, as rounding errors dominate for almost parallel vectors
+            vec_perp = vec_perp - vec_init * np.dot(vec_init, vec_perp)
+            vec_perp = vec_perp / LA.norm(vec_perp)
 
         angle = np.arctan2(perp_norm, dot_prod)
         return cls(base=np.array([vec_init, vec_perp]).T, rotation_angle=angle)
-- 
2.43.0


From 0e67927799afd2e845d33e91b93abba19d112ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 082/134] fix: projected position exactly opposite of the
 attractor despite rounding errors

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index 0963838..cb29b88 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -240,8 +240,10 @@ class ProjectedRotationDynamics:
         dir_attractor_to_position = vec_attractor_to_position / dist_attr_pos
         dot_prod = np.dot(dir_attractor_to_position, dir_attractor_to_obstacle)
 
-        if dot_prod <= -1.0:
-            # Put it very far away in a random direction
+        if dot_prod <= -1.0 or (
+            dot_prod < 0.0 and not LA.norm(transformed_position[1:])
+        ):
+            # (Numerically) opposite: put it very far away in a random direction
             transformed_position[1] = self.far_away_distance
 
         elif dot_prod < 1.0:
-- 
2.43.0


From 3a299eae380291196131f4302ba9339b220cf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 083/134] fix: sequence of dynamics at positions very close to
 the attractor

---
 nonlinear_avoidance/dynamics/sequenced_dynamics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/sequenced_dynamics.py b/nonlinear_avoidance/dynamics/sequenced_dynamics.py
index 836703b..05a20ea 100644
--- a/nonlinear_avoidance/dynamics/sequenced_dynamics.py
+++ b/nonlinear_avoidance/dynamics/sequenced_dynamics.py
@@ -28,11 +28,14 @@ def evaluate_dynamics_sequence(
         # Otherwise create based on direction towards stable-attractor
         base = final
 
-    if not np.linalg.norm(base) or not np.linalg.norm(final):
+    base_norm = np.linalg.norm(base)
+    final_norm = np.linalg.norm(final)
+    if not base_norm or not final_norm:
         return None
 
+    # Only the directions matter; small vectors are rejected by the constructor
     rotation = VectorRotationSequence.create_from_vector_array(
-        np.vstack((base, final)).T
+        np.vstack((base / base_norm, final / final_norm)).T
     )
 
     if np.any(np.isnan(rotation.rotation_angles)):
-- 
2.43.0


From 7f42f6a227fe86f12fb26f824edbe8c894090a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 084/134] fix: surface of a part of a multi-obstacle despite
 rounding errors at the surface

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index b36d409..cb58f8a 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1105,12 +1105,11 @@ class MultiObstacleAvoider:
             reference_directions = component.get_reference_direction(
                 position, in_global_frame=True
             )
-            # Exactly on the surface, the ray towards the inside might leave on the other side
-            if component.get_gamma(position, in_global_frame=True) <= 1.0:
-                reference_directions = (-1) * reference_directions
-
+            # Go from reference point outwards to avoid numerical errors at the surface
             surf_point = component.get_intersection_with_surface(
-                position, reference_directions, in_global_frame=True
+                component.get_reference_point(in_global_frame=True),
+                (-1) * reference_directions,
+                in_global_frame=True,
             )
             # Check if its occluded by parent
             comp_parent = obstacle_tree.get_component(obstacle_tree.get_parent_idx(ii))
@@ -1246,7 +1245,9 @@ class MultiObstacleAvoider:
         else:
             distance_to_surf = 0
             intersection = obs.get_intersection_with_surface(
-                position, (-1) * reference_directions[-1], in_global_frame=True
+                obs.global_reference_point,
+                (-1) * reference_directions[-1],
+                in_global_frame=True,
             )
 
         surface_points: list[Vector] = [intersection]
-- 
2.43.0


From 1623a04e9ce84f2c9d4aefa01f9ada5343bd5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 085/134] fix: multi-ellipse obstacle rejects a parent which it
 does not intersect

---
 nonlinear_avoidance/multi_ellipse_obstacle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 3974231..35e2bd5 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -107,14 +107,16 @@ class MultiEllipseObstacle(Obstacle):
         if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
 
-        self._parent_list[obs_id] = parent_id
-        self._children_list[parent_id].append(obs_id)
-
-        # Set reference point
         intersection = get_intersection_of_obstacles(
             self._obstacle_list[obs_id], self._obstacle_list[parent_id]
         )
+        if intersection is None:
+            raise ValueError("No intersection found.")
 
+        self._parent_list[obs_id] = parent_id
+        self._children_list[parent_id].append(obs_id)
+
+        # Set reference point
         self._obstacle_list[obs_id].set_reference_point(
             intersection, in_global_frame=True
         )
-- 
2.43.0


From 2e2ec498431c067c01b8aad7c21cbd951f95e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 086/134] fix: directions of the mixture learner are relative
 to the attractor of the data

---
 .../gmm_learner/learner/directional_gmm.py    | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index daea828..0a4999f 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -195,19 +195,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 (t, np.linspace(0, 1, self.dataset["data"][0, it_set].shape[1]))
             )
 
-        direction = get_angle_space_of_array(
-            directions=self.vel.T,
-            positions=self.pos.T,
-            func_vel_default=LinearSystem(dimension=self.dim_space).evaluate,
-        )
-
-        self.X = np.hstack((self.pos, self.vel, direction.T))
-
-        self.X = self.normalize_velocity(self.X)
-
-        self.num_samples = self.X.shape[0]
-        self.dim_gmm = self.X.shape[1]
-
         weightDir = 4
 
         if attractor is None:
@@ -237,6 +224,20 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x, center_position=self.pos_attractor)
             self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
+        # The directions are relative to the same dynamics as used for the prediction
+        direction = get_angle_space_of_array(
+            directions=self.vel.T,
+            positions=self.pos.T,
+            func_vel_default=self.null_ds.evaluate,
+        )
+
+        self.X = np.hstack((self.pos, self.vel, direction.T))
+
+        self.X = self.normalize_velocity(self.X)
+
+        self.num_samples = self.X.shape[0]
+        self.dim_gmm = self.X.shape[1]
+
         if self.has_path_completion:
             # TODO
             raise NotImplementedError()
-- 
2.43.0


From 9a7ed5d62ae8f5ec1620aae79462a61ee31f40c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 087/134] fix: import of a recording with given attractor

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 0a4999f..13e72aa 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -270,8 +270,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             self.meanX = None
             self.varX = None
 
-            self.pos_attractor = pos_attractor
-
     def regress(self, *args, **kwargs):
         # TODO: remove
         return self.fit(*args, **kwargs)
-- 
2.43.0


From b081fad33ccf76b637a3ee8fdbfd4f15e8f6559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 088/134] fix: mixture learner limits the velocities instead of
 the third and fourth sample

---
 .../gmm_learner/learner/directional_gmm.py          | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 13e72aa..29659f3 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -114,8 +114,12 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         if self.scale_x is not None:
             values = values / np.tile(self.scale_x[dims_ind], (n_samples, 1))
 
-        if self.crop_vel is not None:
-            velocities = values[self.dim_space : self.dim_space * 2]
+        dims_ind = np.array(dims_ind)
+        ind_vel = np.logical_and(
+            dims_ind >= self.dim_space, dims_ind < self.dim_space * 2
+        )
+        if self.crop_vel is not None and np.any(ind_vel):
+            velocities = values[:, ind_vel]
             mag_vel = np.linalg.norm(velocities, axis=1)
             ind_large = mag_vel > self.crop_vel
 
@@ -123,10 +127,11 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 values = np.copy(values)
                 velocities[ind_large, :] = (
                     velocities[ind_large, :]
-                    / np.tile(mag_vel[ind_large], (values.shape[1], 1)).T
+                    * self.crop_vel
+                    / np.tile(mag_vel[ind_large], (velocities.shape[1], 1)).T
                 )
 
-                values[self.dim_space : self.dim_space * 2, :] = velocities
+                values[:, ind_vel] = velocities
         return values
 
     def transform_normalized_to_initial(self, values, dims_ind):
-- 
2.43.0


From 4951e84a0f23e58a601cc4d09c858096b6a2c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 089/134] fix: exponent of the Gaussian density of the mixture
 learner

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 29659f3..084c206 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -493,7 +493,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 axis=2,
             )
 
-            val_pow = np.exp(-np.sum(dX * val_pow_fac, axis=1))
+            val_pow = np.exp(-0.5 * np.sum(dX * val_pow_fac, axis=1))
             prob_gauss[gg, :] = fac * val_pow
 
         return prob_gauss
-- 
2.43.0


From 973f54b958b4619aba46c44a3e2218bfb11493e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 090/134] fix: exponent of the Gaussian density in the
 direction space

---
 nonlinear_avoidance/gmm_learner/direction_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/direction_space.py b/nonlinear_avoidance/gmm_learner/direction_space.py
index 67f5db0..93b8a9a 100755
--- a/nonlinear_avoidance/gmm_learner/direction_space.py
+++ b/nonlinear_avoidance/gmm_learner/direction_space.py
@@ -317,7 +317,7 @@ def get_gaussianProbability(X, dpgmm, dims_input=[]):
             * np.swapaxes(np.tile(dX, (dim, 1, 1)), 0, 1),
             axis=2,
         )
-        pow = np.exp(-np.sum(dX * pow, axis=1))
+        pow = np.exp(-0.5 * np.sum(dX * pow, axis=1))
 
         prob_gauss[gg, :] = fac * pow
         # gg[0,:] = fac*pow
-- 
2.43.0


From 1c2e2dd2ce539852588d3aef0b77a3bb02e3aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 091/134] fix: prediction of the mixture learner depends on the
 other samples, and is nan far away

---
 .../gmm_learner/learner/directional_gmm.py             | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 084c206..6e30c66 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -396,8 +396,14 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # Add zero velocity
             mu_yx = np.dstack((mu_yx, np.zeros((dim_out, n_samples, 1))))
 
-        beta_norm = np.sum(beta)
-        beta = beta / beta_norm * (beta_norm**self.beta_power)
+        # Independently for each sample, zero weights stay at zero
+        beta_norm = np.sum(beta, axis=0)
+        ind_pos = beta_norm > 0
+        beta[:, ind_pos] = (
+            beta[:, ind_pos]
+            / beta_norm[ind_pos]
+            * (beta_norm[ind_pos] ** self.beta_power)
+        )
 
         regression_value = np.sum(np.tile(beta.T, (dim_out, 1, 1)) * mu_yx, axis=2).T
 
-- 
2.43.0


From 121b9bb295ff67a51e7b212b796f648749eaa4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 092/134] fix: order of the predicted angles of the mixture
 learner in three dimensions

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 6e30c66..005ea2c 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -346,7 +346,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
 
         if feat_out is None:
             # Default only the 'direction' at the end; additional -1 for indexing at end
-            feat_out = self.dim_gmm - 1 - np.arange(self.dim_space - 1)
+            feat_out = np.arange(self.dim_gmm - (self.dim_space - 1), self.dim_gmm)
         dim_out = np.array(feat_out).shape[0]
 
         if input_output_normalization:
-- 
2.43.0


From 17ecf7e311563cdff70f67b41615353158ccd5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 093/134] fix: prediction of the mixture learner resets the
 convergence to the attractor

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 005ea2c..de627fb 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -331,7 +331,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         input_output_normalization=True,
         feat_in=None,
         feat_out=None,
-        convergence_attractor: None = False,
+        convergence_attractor: bool = None,
         p_beta=2,
         beta_min=0.5,
         beta_r=0.3,
-- 
2.43.0


From dd192c2bb8359b5ec8104643ad8d9aa88811984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 094/134] fix: integration of trajectories of the mixture
 learner from the start points to the attractor

---
 .../gmm_learner/learner/directional_gmm.py               | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index de627fb..de959bd 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -601,6 +601,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         else:
             nTraj = starting_points.shape[1]
             x_traj = np.zeros((self.dim, num_steps, nTraj))
+            x_traj[:, 0, :] = starting_points
 
         # Do the first step without velocity
         print("Doint the integration.")
@@ -608,7 +609,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x_traj[:, 1, ii]= rk4(delta_t, x_traj[:, 0, ii], self.predict)
             # xd = x_traj[:, 1, ii] - x_traj[:, 0, ii]
 
-            xd = self.predict2(x_traj[:, 0, ii])
+            xd = self.predict(x_traj[:, 0, ii])
             x_traj[:, 1, ii] = x_traj[:, 0, ii] + xd * delta_t
 
             for nn in range(2, num_steps):
@@ -635,8 +636,12 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 # print('xd', xd)
                 x_traj[:, nn, ii] = x_traj[:, nn - 1, ii] + xd * delta_t
 
-                if np.linalg.norm(x_traj[:, nn, ii]) < convergence_err:
+                if (
+                    np.linalg.norm(x_traj[:, nn, ii] - self.pos_attractor)
+                    < convergence_err
+                ):
                     print(f"Converged after {nn} iterations.")
+                    x_traj[:, nn + 1 :, ii] = x_traj[:, nn, ii].reshape(-1, 1)
                     break
 
         print("This took me a while...")
-- 
2.43.0


From 585f1024713f94d0bb18891dec270281acf9d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 095/134] fix: integration of learned trajectories from the
 start points up to the attractor

---
 nonlinear_avoidance/gmm_learner/learner/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 714b2f6..93c1487 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -150,6 +150,7 @@ class Learner(ABC):
         else:
             n_trajectories = starting_points.shape[1]
             trajectory_list = np.zeros((self.dim, n_steps, n_trajectories))
+            trajectory_list[:, 0, :] = starting_points
 
         for ii in range(n_trajectories):
             for nn in range(1, n_steps):
@@ -157,8 +158,14 @@ class Learner(ABC):
                     delta_t, trajectory_list[:, nn - 1, ii], self.predict
                 )
 
-                if np.linalg.norm(trajectory_list[:, nn, ii]) < convergence_margin:
+                if (
+                    np.linalg.norm(trajectory_list[:, nn, ii] - self.pos_attractor)
+                    < convergence_margin
+                ):
                     print(f"Converged after {nn} iterations.")
+                    trajectory_list[:, nn + 1 :, ii] = trajectory_list[
+                        :, nn, ii
+                    ].reshape(-1, 1)
                     break
 
         return trajectory_list
-- 
2.43.0


From 70ca2c7ce35ab692345a73c98b6f4291ec6ff4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 096/134] fix: prediction of the learners at the attractor

---
 nonlinear_avoidance/gmm_learner/learner/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 93c1487..eb9eed7 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -81,6 +81,10 @@ class Learner(ABC):
         dir_angle_space = dir_angle_space[0, : self.dim - 1]
 
         null_direction = self.null_ds.evaluate(xx[: self.dim_space])
+        if not np.any(null_direction):
+            # At the attractor
+            return null_direction
+
         velocity = get_angle_space_inverse(
             dir_angle_space=dir_angle_space, null_direction=null_direction
         )
-- 
2.43.0


From 675288547624685e3693271f7e1a59c74511fb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 097/134] fix: attractor of the process learner is the mean
 over all demonstrations

---
 .../gmm_learner/learner/gpr_directional.py               | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 6d64e99..362c5f6 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -82,10 +82,7 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
         pos_attractor = np.zeros((self.dim))
 
-        for it_set in range(1, self.dataset["data"].shape[1]):
-            self.pos = np.vstack((self.pos, self.dataset["data"][0, it_set][:2, :].T))
-            self.vel = np.vstack((self.vel, self.dataset["data"][0, it_set][2:4, :].T))
-
+        for it_set in range(self.dataset["data"].shape[1]):
             pos_attractor = (
                 pos_attractor
                 + self.dataset["data"][0, it_set][:2, -1].T
@@ -94,6 +91,10 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
             print("pos_attractor", self.dataset["data"][0, it_set][:2, -1].T)
 
+        for it_set in range(1, self.dataset["data"].shape[1]):
+            self.pos = np.vstack((self.pos, self.dataset["data"][0, it_set][:2, :].T))
+            self.vel = np.vstack((self.vel, self.dataset["data"][0, it_set][2:4, :].T))
+
             # TODO include velocity - rectify
             t = np.hstack(
                 (t, np.linspace(0, 1, self.dataset["data"][0, it_set].shape[1]))
-- 
2.43.0


From 788dc8d6ff19873dd6fb959016fd1a8bcec6f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 098/134] fix: directions of the process learner are relative
 to the attractor of the data

---
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 362c5f6..b39560a 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -117,8 +117,8 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
         weightDir = 4
 
-        # 2D system
-        linear_dynamics = LinearSystem(attractor_position=np.zeros(2))
+        # Directions are relative to the same dynamics as used for the prediction
+        linear_dynamics = self.null_ds
         if n_samples is not None:
             # Large number of samples should be chosen to avoid
             ind = np.random.choice(n_input, size=n_samples, replace=False)
-- 
2.43.0


From 80ee7c4aa0a501a76ae49211fb99f0d8d6f874db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 099/134] fix: process learner with given length scale

---
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index b39560a..11b22eb 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -150,6 +150,8 @@ class DirectionalGPR(LearnerVisualizer, Learner):
         if kernel_parameters is None:
             # TODO: properly...
             length_scale = np.ones(self.n_features)
+        else:
+            length_scale = np.array(kernel_parameters)
 
         self._gp_kernel = RBF(length_scale) + WhiteKernel(kernel_noise)
         self._gpr = GaussianProcessRegressor(kernel=self._gp_kernel)
-- 
2.43.0


From 32424c7ebf8f937ac388d74f200d3ed39148bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 100/134] fix: attractor of the support-vector learner is the
 mean over all demonstrations

---
 nonlinear_avoidance/gmm_learner/learner/svr_directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index 079ad7d..97dd4f1 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -101,7 +101,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         if attractor is None:
             pos_attractor = np.zeros((self.dim))
 
-            for it_set in range(1, self.dataset["data"].shape[1]):
+            for it_set in range(self.dataset["data"].shape[1]):
                 pos_attractor = (
                     pos_attractor
                     + self.dataset["data"][0, it_set][:2, -1].T
-- 
2.43.0


From 76421202e176d6b34bb4256fc763f758b8f86cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 101/134] fix: prediction of the support-vector learner

---
 .../gmm_learner/learner/svr_directional.py         | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index 97dd4f1..502a78f 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -34,7 +34,7 @@ from nonlinear_avoidance.gmm_learner.math_tools import mag_linear_maximum
 from nonlinear_avoidance.gmm_learner.learner.base import Learner
 from nonlinear_avoidance.gmm_learner.learner.visualizer import LearnerVisualizer
 
-from vartools.dynamicalsys.closedform import evaluate_linear_dynamical_system
+from vartools.dynamical_systems import LinearSystem
 from vartools.directional_space import get_angle_space, get_angle_space_inverse
 from vartools.directional_space import get_angle_space_of_array
 from vartools.directional_space import get_angle_space_inverse_of_array
@@ -110,9 +110,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
                 print("pos_attractor", self.dataset["data"][0, it_set][:2, -1].T)
 
             self.pos_attractor = pos_attractor
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         elif attractor is False:
             # Does not have attractor
@@ -121,9 +119,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         else:
             self.pos_attractor = np.array(attractor)
 
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         self.X = self.pos
 
@@ -143,13 +139,13 @@ class DirectionalSVR(LearnerVisualizer, Learner):
             directions = get_angle_space_of_array(
                 directions=self.vel.T[:, ind],
                 positions=self.pos.T[:, ind],
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
         else:
             directions = get_angle_space_of_array(
                 directions=self.vel.T,
                 positions=self.pos.T,
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
 
             self.n_samples = n_input
-- 
2.43.0


From 18519714b73b3183f67b8a8cff174c7b4e34e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 102/134] fix: evaluation of the multi-variant Gaussian

---
 nonlinear_avoidance/multivariant_gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multivariant_gaussian.py b/nonlinear_avoidance/multivariant_gaussian.py
index 33a15b5..d824bf7 100644
--- a/nonlinear_avoidance/multivariant_gaussian.py
+++ b/nonlinear_avoidance/multivariant_gaussian.py
@@ -44,14 +44,14 @@ class MultiVariantGaussian:
             return 0
 
     def evaluate(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
         return self._fraction_value * exp_value
 
     def evaluate_derivative(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
-- 
2.43.0


From c4679ff36eb6a6f6d38af25bdb86a349f70741cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 103/134] fix: derivative of the multi-variant Gaussian

---
 nonlinear_avoidance/multivariant_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multivariant_gaussian.py b/nonlinear_avoidance/multivariant_gaussian.py
index d824bf7..533f695 100644
--- a/nonlinear_avoidance/multivariant_gaussian.py
+++ b/nonlinear_avoidance/multivariant_gaussian.py
@@ -57,7 +57,7 @@ class MultiVariantGaussian:
         )
 
         return (
-            (-0.5 * self._precision_cholesky @ delta_dist)
+            (-1 * self._precision_cholesky @ delta_dist)
             * self._fraction_value
             * exp_value
         )
-- 
2.43.0


From 8f9bbd647de25800ec62bc8a9a66743f0be0e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 104/134] fix: delete element of a multi-boundary container

---
 nonlinear_avoidance/multiboundary_container.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 0e0300b..26c2f05 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -73,13 +73,25 @@ class MultiBoundaryContainer(RotationContainer):
                 )
 
     def __delitem__(self, key):
-        super().append(value)
-        breakpoint()  # Test if it was executed correctly
+        key = range(self.n_obstacles)[key]
+        super().__delitem__(key)
+
         del self._children_list[key]
         self._parent_array = np.delete(self._parent_array, key)
-
         del self._parent_intersection_point[key]
 
+        # The children of the deleted element have no parent anymore
+        for it in np.where(self._parent_array == key)[0]:
+            self._parent_array[it] = -1
+            self._parent_intersection_point[it] = None
+
+        # All elements after the deleted one moved by one
+        self._parent_array[self._parent_array > key] -= 1
+        self._children_list = [
+            [it - (it > key) for it in children if it != key]
+            for children in self._children_list
+        ]
+
     def is_collision_free(self, position):
         """Check if any of the (boundary)-obstacles is collision free"""
         for obs in self._obstacle_list:
-- 
2.43.0


From c6ab65779a077d9eec8754858101443422fb4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 105/134] fix: parent of an element which is added to a
 multi-boundary container

---
 nonlinear_avoidance/multiboundary_container.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 26c2f05..3826028 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -68,9 +68,11 @@ class MultiBoundaryContainer(RotationContainer):
         if parent is not None:
             # Automatically define graph
             if parent == -1:
-                self.extend_graph(
-                    child=self.n_obstacles - 1, parent=self.n_obstacles - 2
-                )
+                parent = self.n_obstacles - 2
+
+            # The very first element has no previous one and remains the root
+            if parent >= 0:
+                self.extend_graph(child=self.n_obstacles - 1, parent=parent)
 
     def __delitem__(self, key):
         key = range(self.n_obstacles)[key]
-- 
2.43.0


From 89ee100a7b15debe682d1ba4fa4020caa5337ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 106/134] fix: element of a multi-boundary container is the
 child of its parent only

---
 nonlinear_avoidance/multiboundary_container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 3826028..54f7efd 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -111,6 +111,10 @@ class MultiBoundaryContainer(RotationContainer):
 
     def extend_graph(self, child, parent):
         """Use internal functions to update parents & children."""
+        if (previous := self.get_parent(child)) >= 0:
+            self._children_list[previous] = [
+                it for it in self._children_list[previous] if it != child
+            ]
         self.set_parent(it=child, parent=parent)
         self.add_children(it=parent, children=[child])
 
-- 
2.43.0


From 4bf1a66371bfa3bcb55858294890ecafaf203b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 107/134] fix: intersection of boundaries at their actual
 position

---
 nonlinear_avoidance/multiboundary_container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 54f7efd..02c906e 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -24,7 +24,7 @@ def create_shapely_ellipse(ellipse):
     if ellipse.dim != 2:
         raise NotImplementedError("Shapely object only existing for 2D")
 
-    # Point is set at zero, and only moved when needed
+    # Point is set at zero, and moved at the end
     if ellipse.dimension != 2:
         raise NotImplementedError()
 
@@ -35,6 +35,7 @@ def create_shapely_ellipse(ellipse):
     shapely_ellipse = affinity.rotate(
         shapely_ellipse, ellipse.orientation * 180 / math.pi
     )
+    shapely_ellipse = affinity.translate(shapely_ellipse, *ellipse.center_position)
 
     return shapely_ellipse
 
-- 
2.43.0


From 8c9d2fb58603259b87890a7d6365449656935742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 108/134] fix: list of the boundaries of a container

---
 nonlinear_avoidance/multiboundary_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 02c906e..c83e960 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -181,7 +181,7 @@ class MultiBoundaryContainer(RotationContainer):
     def get_boundary_list(self):
         """Returns obstacle list containing all boundary-elements."""
         # TODO MAYBE: store boundaries in separate list (?)
-        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boubndary]
+        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boundary]
 
     def get_boundary_ind(self):
         """Returns indeces of the current container which are equivalent to obstacles."""
-- 
2.43.0


From 2f53e745e1b3ac4e2941098b81d26ac85bbccb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 109/134] fix: orientation of the ellipses of a learned graph

---
 nonlinear_avoidance/gmm_learner/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index f92096d..849f29e 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -224,7 +224,7 @@ class GraphGMM(MultiBoundaryContainer):
             :, : self.dim_space
         ]
         v, w = np.linalg.eigh(covariances)
-        u = w[0] / np.linalg.norm(w[0])
+        u = w[:, 0] / np.linalg.norm(w[:, 0])
         angle = np.arctan2(u[1], u[0])
         # angle = 180 * angle / np.pi      # Convert to degrees
         # v = 2. * np.sqrt(2.) * np.sqrt(v)
@@ -401,7 +401,7 @@ class GraphGMM(MultiBoundaryContainer):
                 :, : self.dim_space
             ]
             v, w = np.linalg.eigh(covariances)
-            u = w[0] / np.linalg.norm(w[0])
+            u = w[:, 0] / np.linalg.norm(w[:, 0])
             angle = np.arctan2(u[1], u[0])
             v = np.sqrt(2.0) * np.sqrt(v)
 
-- 
2.43.0


From 8539fba6e1dfdaa6240c77a061e5ebd336f64a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 110/134] fix: element with the greatest weight is attached
 first to the learned graph

---
 nonlinear_avoidance/gmm_learner/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index 849f29e..2783860 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -346,7 +346,10 @@ class GraphGMM(MultiBoundaryContainer):
                         # and then reitarate, i.e. make an optimal sequence / graph
                         ind_critical = [child for par, child in list_parent_child]
                         ind_child = np.argmax(
-                            weights_without_self[ind_critical, it_pref]
+                            weights_without_self[
+                                ind_critical,
+                                parents_preference[ind_critical, it_pref],
+                            ]
                         )
                         ind_child = ind_critical[ind_child]
 
-- 
2.43.0


From 5030c044da927558d1cd1079afb2d084c8aab3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 111/134] fix: missing imports of evaluation_trajectories

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 78ee76e..4433837 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
-- 
2.43.0


From d8c5f7ccf1ab50e8b4d7bae193e26d4689813f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 112/134] fix: velocities are compared at the position of the
 step in evaluation_trajectories

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 4433837..a16278b 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -75,6 +75,8 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    # Steps without motion are left out
+    trajectory = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
@@ -89,6 +91,8 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    # Steps without motion are left out
+    trajectory = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
-- 
2.43.0


From fc23f39e5dd1474976d592ee285f769351d8b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 113/134] fix: missing imports of
 evaluation_trajectories_with_std

---
 .../comparison/evaluation_trajectories_with_std.py              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 9ed79a0..ba567bd 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
-- 
2.43.0


From 1e16657d7e0ee8e285b94014e358dc1e4e9ecf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 114/134] fix: velocities are compared at the position of the
 step in evaluation_trajectories_with_std

---
 .../comparison/evaluation_trajectories_with_std.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index ba567bd..60398bd 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -76,6 +76,8 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    # Steps without motion are left out
+    trajectory = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
@@ -90,6 +92,8 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    # Steps without motion are left out
+    trajectory = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
-- 
2.43.0


From ca312ac074d4ac239867c4537974162f75f94991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 115/134] fix: circular dynamics of the trajectory evaluation

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index a16278b..455305e 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -18,6 +18,7 @@ from numpy import linalg as LA
 
 import matplotlib.pyplot as plt
 
+from vartools.states import Pose
 from nonlinear_avoidance.dynamics.circular_dynamics import (
     # CircularRotationDynamics,
     SimpleCircularDynamics,
@@ -136,7 +137,9 @@ class TrajectoryEvaluator:
         delta_time = simulation_parameters["delta_time"]
         it_max = simulation_parameters["it_max"]
 
-        initial_dynamics = SimpleCircularDynamics(dimension=2)
+        initial_dynamics = SimpleCircularDynamics(
+            pose=Pose.create_trivial(dimension=2), radius=2.0
+        )
 
         datafolder_path = os.path.join(self.data_path, self.data_folder)
         files_list = os.listdir(datafolder_path)
-- 
2.43.0


From a0c7907d5c569e7dea930a1e3d591e295afffa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 116/134] fix: errors inside and outside of the path do not
 cancel out

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 455305e..bb74f73 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -50,7 +50,7 @@ def normalize_velocities(velocities):
 def mean_squared_error_to_path(trajectory, center_position, radius):
     # Assumption of circular dynamics
     traj_centered = trajectory - np.tile(center_position, (trajectory.shape[1], 1)).T
-    err_squared = np.sum(traj_centered**2, axis=0) - radius**2
+    err_squared = abs(np.sum(traj_centered**2, axis=0) - radius**2)
 
     return np.mean(err_squared)
 
-- 
2.43.0


From 0f449568a4393e617ccf47eed283ddc5d565ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 117/134] fix: run path evaluation without loading the file
 first

---
 nonlinear_avoidance/comparison/evaluation_path_following.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_path_following.py b/nonlinear_avoidance/comparison/evaluation_path_following.py
index 2e3f7a7..55c247d 100644
--- a/nonlinear_avoidance/comparison/evaluation_path_following.py
+++ b/nonlinear_avoidance/comparison/evaluation_path_following.py
@@ -2,6 +2,8 @@ from pathlib import Path
 from dataclasses import dataclass
 
 import math
+from typing import Optional
+
 import numpy as np
 import pandas as pd
 
@@ -14,6 +16,7 @@ class TrajectoryEvaluator:
     data_path = Path("nonlinear_avoidance/comparison/data/wavy_path_simulation")
 
     n_runs: int = 0
+    df: Optional[pd.DataFrame] = None
 
     def get_converged(self):
         self.df = pd.read_csv(self.root_path / self.data_path / self.data_file)
-- 
2.43.0


From 4875876818a5c0141a0f8517e6b36a3a35aad65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 118/134] fix: standard deviation of the occupied fraction

---
 nonlinear_avoidance/comparison/evaluation_path_following.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_path_following.py b/nonlinear_avoidance/comparison/evaluation_path_following.py
index 55c247d..bf35911 100644
--- a/nonlinear_avoidance/comparison/evaluation_path_following.py
+++ b/nonlinear_avoidance/comparison/evaluation_path_following.py
@@ -41,7 +41,7 @@ class TrajectoryEvaluator:
 
         occupied = 1 - df[" free_fraction"]
         self.occupied_mean = np.mean(occupied)
-        self.occupied_std = np.std(np.mean(occupied))
+        self.occupied_std = np.std(occupied)
 
         self.gammas_mean = df[" gammas"].mean()
         self.gammas_var = df[" gammas"].var()
-- 
2.43.0


From 838500ea28821a931417956fc450020505943def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 119/134] fix: evaluate trajectory of a single start position

---
 .../comparison/comparison_multiobstacle_vectorfield.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
index 1e62d86..b5fbc87 100644
--- a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
+++ b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
@@ -330,6 +330,7 @@ def evaluate_trajectories(
         delimiter=",",
         dtype=float,
         skiprows=1,
+        ndmin=2,
     )
     start_positions = start_positions.T
 
-- 
2.43.0


From 60f08cc0223f378f5f97538682b47f275539bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 120/134] fix: find the part of a multi-body obstacle from its
 tracking id

The id is stored as 'update_id', the lookup of 'optitrack_id' always failed.
---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 4ab2294..192e197 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -136,7 +136,7 @@ class MultiBodyObstacle:
 
     def get_obstacle_id_from_optitrackid(self, opt_id: int) -> int:
         return [
-            x for x, y in self._graph.nodes(data=True) if y["optitrack_id"] == opt_id
+            x for x, y in self._graph.nodes(data=True) if y["update_id"] == opt_id
         ][0]
 
     def get_name(self, idx: int) -> str:
-- 
2.43.0


From 6d2d59733cd45556c1297bdc11563b004784bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 121/134] fix: tracked body parts point from their joint
 towards the measurement

Sine and cosine of the half angle were exchanged in the (x, y, z, w)
quaternion, and angles above 90 degrees were folded back.
---
 nonlinear_avoidance/multi_body_human.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 192e197..203d45d 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -429,12 +429,16 @@ class MultiBodyObstacle:
 
         if rotvec_norm := np.linalg.norm(rot_vec):
             rot_vec = rot_vec / rotvec_norm
-            theta = np.arcsin(rotvec_norm)
-            quat = np.hstack((rot_vec * np.cos(theta / 2.0), [np.sin(theta / 2.0)]))
+            theta = np.arctan2(rotvec_norm, axes_direction[2])
+            quat = np.hstack((rot_vec * np.sin(theta / 2.0), [np.cos(theta / 2.0)]))
 
-        else:
+        elif axes_direction[2] > 0:
             quat = np.array([0, 0, 0, 1.0])
 
+        else:
+            # Opposite direction: half a turn around a perpendicular axis
+            quat = np.array([1.0, 0, 0, 0])
+
         # breakpoint()
 
         self[idx_obs].pose.orientation = Rotation.from_quat(quat)
-- 
2.43.0


From 6b025ede28d84b199e3cf88e41abff18bacbe8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 122/134] fix: the velocity of a hull is returned in the global
 frame

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 2246eed..3baccdc 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -247,7 +247,7 @@ class MultiHullAndObstacle(Obstacle):
         mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
-            mean_direction = self.transform_global2relative_dir(mean_direction)
+            mean_direction = self.pose.transform_direction_from_relative(mean_direction)
 
         return mean_direction
 
-- 
2.43.0


From 624ece51ddabf74c816260412b1dfcfc2fd93188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 123/134] fix: a hull checks collisions in its own frame

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 3baccdc..ba64c7b 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -171,6 +171,9 @@ class MultiHullAndObstacle(Obstacle):
 
     def is_inside(self, position, in_global_frame=True):
         """Checks if the obstacle is colliding."""
+        if in_global_frame:
+            position = self.transform_global2relative(position)
+
         in_free_space = False  # Track if the attractor is in free space!
 
         if not self.outer_obstacle.is_inside(position, in_global_frame=True):
-- 
2.43.0


From 805928cb251f5e430e145d2387dac717a6b19e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 124/134] fix: an attractor in the wall of a hull is assigned
 to the closest space

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index ba64c7b..4844fef 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -159,7 +159,7 @@ class MultiHullAndObstacle(Obstacle):
             warnings.warn("Attractor is in obstacle-wall.")
 
             self._evaluate_weights(position)
-            ind_max = np.argmin(self.weights)
+            ind_max = np.argmax(self.gamma_list)
             if ind_max == self._indices_outer:
                 self._local_outside_attractor = position
                 self._attractor_is_outside = True
-- 
2.43.0


From 8cbc61b14b191ff0dabba90ddd0ff4deb213dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 125/134] fix: the velocity of a hull stops at the attractor

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 4844fef..41e7e0e 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -242,10 +242,11 @@ class MultiHullAndObstacle(Obstacle):
         mean_magnitude = np.sum(mean_magnitude * np.array(weights_))
 
         dir_norm = LA.norm(mean_direction)
-        if not dir_norm and np.min(mean_magnitude):
-            # Direction is zero, but not initial one
-            breakpoint()
-            raise ValueError("Zero direction value obtained.")
+        if not dir_norm:
+            if mean_magnitude:
+                # Direction is zero, but not initial one
+                raise ValueError("Zero direction value obtained.")
+            return np.zeros(self.dimension)
 
         mean_direction = mean_direction / dir_norm * mean_magnitude
 
@@ -299,7 +300,7 @@ class MultiHullAndObstacle(Obstacle):
         else:
             linear_velocity = mean_direction / LA.norm(mean_direction) * vel_norm
 
-        return mean_direction
+        return linear_velocity
 
     def update_shortest_attractor_path_starting_from_outside(
         self, position: Vector
-- 
2.43.0


From 48249cd6f49f314876b2ac3fb08ced45c7a52f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 126/134] fix: the path through a hull leads to the space of
 the attractor

---
 .../multi_hull_and_obstacle.py                | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 41e7e0e..a4b6553 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -316,14 +316,17 @@ class MultiHullAndObstacle(Obstacle):
 
             path_dist = shortest_path_length(self._graph, source=ii, weight="distance")
             for obs in self.inner_obstacles:
-                distances.append(path_dist[ii] + dist_to_entrance)
+                if not self._graph.nodes[obs]["contains_attractor"]:
+                    continue
+
+                if obs not in path_dist:
+                    continue
+
+                distances.append(path_dist[obs] + dist_to_entrance)
                 entrances.append(ii)
                 targets.append(obs)
 
-        try:
-            ind_min = np.argmin(distances)
-        except:
-            breakpoint()
+        ind_min = np.argmin(distances)
 
         path = shortest_path(
             self._graph,
@@ -350,11 +353,17 @@ class MultiHullAndObstacle(Obstacle):
             if not self._graph.nodes[obs]["contains_attractor"]:
                 continue
 
-            closest_dist.append(path_dist)
+            if obs not in path_dist:
+                continue
+
+            closest_dist.append(path_dist[obs])
             closest_elems.append(obs)
 
         if self._attractor_is_outside:
             for ii in range(self._entrance_counter):
+                if ii not in path_dist:
+                    continue
+
                 dist_attractor = LA.norm(
                     get_property_of_node_edge(self._graph, ii, "intersection")
                     - self._local_outside_attractor
@@ -381,13 +390,12 @@ class MultiHullAndObstacle(Obstacle):
             # Treat 'int' obstacles differently, since they represent the entrance
             # coming from the same obstacle
             if isinstance(path[ii], int):
-                ind0 = 0
                 obs = self.outer_obstacle
                 attractor = self._local_outside_attractor
 
             else:
-                ind0 = obs = path[ii]
-                attractor = self._graph.nodes[ind0]["local_attractor"]
+                obs = path[ii]
+                attractor = self._graph.nodes[obs]["local_attractor"]
 
             if attractor is not None:
                 # If the first assigned one is found, it implies that the shortest path
@@ -395,9 +403,7 @@ class MultiHullAndObstacle(Obstacle):
                 break
 
             # Set projected connection element
-            ind1 = 0 if isinstance(path[ii + 1], int) else path[ii + 1]
-
-            local_attractor = self._graph.edges[ind0, ind1]["intersection"]
+            local_attractor = self._graph.edges[path[ii], path[ii + 1]]["intersection"]
             local_attractor = obs.get_point_on_surface(
                 local_attractor, in_global_frame=True
             )
@@ -405,7 +411,7 @@ class MultiHullAndObstacle(Obstacle):
             if isinstance(path[ii], int):
                 self._local_outside_attractor = local_attractor
             else:
-                self._graph.nodes[ind0]["local_attractor"] = local_attractor
+                self._graph.nodes[obs]["local_attractor"] = local_attractor
 
     def _evaluate_weights(
         self,
-- 
2.43.0


From 0938f594f24487a4e0870aeeb289ff34e3ecc9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 127/134] fix: the entrance to a hull lies in both free spaces

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index a4b6553..c63397c 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -551,7 +551,9 @@ class MultiHullAndObstacle(Obstacle):
                 factors=[-1, 1],
             )
 
-            if obs_ii.is_inside(position) or obs_ii.is_inside(position):
+            if obs_ii.is_inside(
+                position, in_global_frame=True
+            ) or self.outer_obstacle.is_inside(position, in_global_frame=True):
                 continue
 
             self._graph.add_node(
-- 
2.43.0


From 750185c3d042000e8e5d82cecc7300b4ece1ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 128/134] fix: spaces which stick out of a hull are entrances

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index c63397c..757ab27 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -540,7 +540,9 @@ class MultiHullAndObstacle(Obstacle):
         self._entrance_counter = 0
 
         for ii, obs_ii in enumerate(self.inner_obstacles):
-            if LA.norm(obs_ii.center_position - self.outer_obstacle.center_position) < (
+            if LA.norm(
+                obs_ii.center_position - self.outer_obstacle.center_position
+            ) < 0.5 * (
                 np.min(self.outer_obstacle.axes_length) - np.max(obs_ii.axes_length)
             ):
                 continue
-- 
2.43.0


From 7fb373234af9645c5e87cf6256387f2cf5f3afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 129/134] fix: obstacles added to a rotational container get
 the attractor

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 757ab27..10391d2 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -660,6 +660,8 @@ class MultiRotationalContainer(BaseContainer):
 
     def append(self, *args, **kwargs):
         super().append(*args, **kwargs)
+        # The new obstacle has no attractor yet
+        self._attractor_position = None
 
         if self._initial_dynamics is not None:
             warnings.warn(
-- 
2.43.0


From 4385420b3ddf40129a33e60461dff2247067dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 130/134] fix: intersections of a hull are searched towards its
 free spaces

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 10391d2..796ea41 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -550,7 +550,7 @@ class MultiHullAndObstacle(Obstacle):
             position = gamma_normal_gradient_descent(
                 [obs_ii, self.outer_obstacle],
                 powers=[-2, -2],  # -> both in free space, i.e. < 0
-                factors=[-1, 1],
+                factors=[1, 1],
             )
 
             if obs_ii.is_inside(
@@ -592,7 +592,7 @@ class MultiHullAndObstacle(Obstacle):
                 close_position = gamma_normal_gradient_descent(
                     [obs_ii, obs_jj],
                     powers=[-2, -2],  # -> both in free space, i.e. > 0
-                    factors=[-1, -1],
+                    factors=[1, 1],
                 )
 
                 distance = LA.norm(obs_ii.center_position - close_position) + LA.norm(
-- 
2.43.0


From 380403495655982f2d75f582da7aedabf12d9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 131/134] fix: the search of an intersection does not diverge

---
 nonlinear_avoidance/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/utils.py b/nonlinear_avoidance/utils.py
index 7162101..cadc774 100644
--- a/nonlinear_avoidance/utils.py
+++ b/nonlinear_avoidance/utils.py
@@ -50,6 +50,11 @@ def gamma_normal_gradient_descent(
 
     dimension = obstacles[0].dimension
 
+    center_dist = LA.norm(obstacles[0].center_position - obstacles[1].center_position)
+    if not center_dist:
+        # There is no direction to descent along
+        return position
+
     for _ in range(it_max):
         step = np.zeros(dimension)
         # Gamma Gradient and Normal direction (?)
@@ -65,7 +70,9 @@ def gamma_normal_gradient_descent(
             logging.info(f"Gamma gradient converged at it={ii}")
             break
 
-        position += step_factor * step
+        # Limit the step, since the Gamma-power can get infinitely large
+        step_size = min(step_factor * LA.norm(step), 0.5 * center_dist)
+        position += step_size * (step / LA.norm(step))
 
     return position
 
-- 
2.43.0


From 7409866f3ef5044c88c5f43a56597d15064a0fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 132/134] fix: RotationContainer keeps the convergence radius
 an obstacle is added with

---
 nonlinear_avoidance/rotation_container.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index e0f09e4..abe6af5 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -24,14 +24,28 @@ class RotationContainer(BaseContainer):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self._convergence_dynamics = [None for ii in range(len(self))]
-        self.convergence_radiuses: list[float] = []
+        # Obstacles without own radius (None) are avoided with the one of the avoider
+        self.convergence_radiuses: list[Optional[float]] = [None] * len(self)
 
     def append(self, value, convergence_radius: Optional[float] = None):
         super().append(value)
         self._convergence_dynamics.append(None)
 
+        ind_new = len(self) - 1
+        n_missing = len(self) - len(self.convergence_radiuses)
+        self.convergence_radiuses = list(self.convergence_radiuses) + [None] * n_missing
+        if convergence_radius is not None:
+            self.convergence_radiuses[ind_new] = convergence_radius
+
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
+        # Radiuses can be set before (or after) the obstacles are added
+        deleted = np.atleast_1d(np.arange(len(self))[key])
+        self.convergence_radiuses = [
+            radius
+            for ii, radius in enumerate(self.convergence_radiuses)
+            if ii not in deleted
+        ]
         super().__delitem__(key)
         del self._convergence_dynamics[key]
 
-- 
2.43.0


From 0b409c0ee40b13cc7f5604f79a5174311f8304c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 133/134] fix: the custom convergence radius of an obstacle is
 used to avoid it

---
 .../avoidance/rotational_avoider.py           | 40 +++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 8b22891..6c4b961 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -382,11 +382,12 @@ class RotationalAvoider(BaseAvoider):
                 rotated_directions[:, it] = initial_velocity
                 continue
 
-            if hasattr(obstacle_list, "convergence_radiuses") and len(
-                obstacle_list.convergence_radiuses
-            ):
-                # Custom convergence radius per obstacle
-                convergence_radius = obstacle_list.convergence_radiuses[it_obs]
+            # Custom convergence radius per obstacle
+            custom_radiuses = getattr(obstacle_list, "convergence_radiuses", [])
+            if it_obs < len(custom_radiuses) and custom_radiuses[it_obs] is not None:
+                local_radius = custom_radiuses[it_obs]
+            else:
+                local_radius = convergence_radius
 
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
@@ -397,7 +398,7 @@ class RotationalAvoider(BaseAvoider):
                 gamma=gamma_array[it],
                 nonlinear_velocity=initial_velocity,
                 base=null_matrix,
-                convergence_radius=convergence_radius,
+                convergence_radius=local_radius,
             )
 
         base = get_orthogonal_basis(initial_velocity)
@@ -974,11 +975,15 @@ class RotationalAvoider(BaseAvoider):
         vector_reference: np.ndarray,
         vector_convergence: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> float:
         """
         dir_reference and dir_convergence are expected to be in the the direction-space, with respect
         to the negative of the normal
         """
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_reference = UnitDirection(base).from_vector(vector_reference).as_angle()
         dir_convergence = UnitDirection(base).from_vector(vector_convergence).as_angle()
 
@@ -989,11 +994,11 @@ class RotationalAvoider(BaseAvoider):
         if weight >= 1.0:
             return 1.0
 
-        if np.linalg.norm(dir_convergence) >= self.convergence_radius:
+        if np.linalg.norm(dir_convergence) >= convergence_radius:
             return weight
         # MAYBE: incorporate this in the tangent length(?)
         continuation_weight = np.linalg.norm(dir_convergence - dir_reference)
-        radius_factor = self.convergence_radius - np.linalg.norm(dir_reference)
+        radius_factor = convergence_radius - np.linalg.norm(dir_reference)
         radius_factor = min(radius_factor, np.pi * 0.5)
         continuation_weight = continuation_weight / radius_factor
 
@@ -1011,12 +1016,16 @@ class RotationalAvoider(BaseAvoider):
         vector_convergence: np.ndarray,
         vector_reference: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> np.ndarray:
         """Input and output are expected in the directional-space with respect to
         the negative normal."""
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_convergence = UnitDirection(base).from_vector(vector_convergence)
         if (
-            np.linalg.norm(dir_convergence.as_angle()) >= self.convergence_radius
+            np.linalg.norm(dir_convergence.as_angle()) >= convergence_radius
             and not self.tail_rotation
         ):
             return vector_convergence
@@ -1026,7 +1035,7 @@ class RotationalAvoider(BaseAvoider):
         dir_convergence_tangent = RotationalAvoider.get_tangent_convergence_direction(
             dir_convergence=dir_convergence.as_angle(),
             dir_reference=dir_reference.as_angle(),
-            convergence_radius=self.convergence_radius,
+            convergence_radius=convergence_radius,
         )
         # breakpoint()
         return UnitDirection(base).from_angle(dir_convergence_tangent).as_vector()
@@ -1059,7 +1068,7 @@ class RotationalAvoider(BaseAvoider):
         base: np.ndarray,
         gamma: float,
         nonlinear_velocity: Optional[np.ndarray] = None,
-        convergence_radius: float = math.pi / 2,
+        convergence_radius: Optional[float] = None,
     ) -> UnitDirection:
         """Rotating / modulating a vector by using directional space.
 
@@ -1074,6 +1083,9 @@ class RotationalAvoider(BaseAvoider):
         -------
         converging_velocity: Weighted summing in direction-space to 'emulate' the modulation.
         """
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         # Put int range
         # unitdir_convergence = UnitDirection(base).from_vector(convergence_vector)
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
@@ -1083,13 +1095,17 @@ class RotationalAvoider(BaseAvoider):
             vector_reference=reference_vector,
             vector_convergence=convergence_vector,
             base=base,
+            convergence_radius=convergence_radius,
         )
 
         if weight <= 0:
             return nonlinear_velocity
 
         vector_convergence_tangent = self.get_pseudo_tangent(
-            convergence_vector, reference_vector, base=base
+            convergence_vector,
+            reference_vector,
+            base=base,
+            convergence_radius=convergence_radius,
         )
 
         # This is now replacing the 'general_weighted_sum'
-- 
2.43.0


From 943f89011bbee2d5feea3a81c74feb4aec46fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 134/134] fix: wavy dynamics follow a moved attractor

---
 nonlinear_avoidance/dynamics/wavy_attractor_dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/dynamics/wavy_attractor_dynamics.py b/nonlinear_avoidance/dynamics/wavy_attractor_dynamics.py
index 21c3ad5..0c2db98 100644
--- a/nonlinear_avoidance/dynamics/wavy_attractor_dynamics.py
+++ b/nonlinear_avoidance/dynamics/wavy_attractor_dynamics.py
@@ -44,6 +44,8 @@ class WavyLinearDynamics(DynamicalSystem):
 
         deviation = math.sin(distance * self.distance_strech_factor)
         rot_matrix = self.get_rotation_matrix(deviation * self.maximum_deviation)
+        # The attractor can be moved after the creation
+        self._linear_dynamics.attractor_position = self.attractor_position
         linear_velocity = self._linear_dynamics.evaluate(position)
 
         return rot_matrix @ linear_velocity
-- 
2.43.0

