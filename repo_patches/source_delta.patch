From 68a51dce872366aac240fcddfe048d9237d1fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 01/29] fix: detach a node from its previous parent in
 set_parent

The node stayed in the children of the previous parent (or was there twice
when the same parent was set again), so that iterations visited it twice.
---
 src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index b2b62c2..3f5c5b7 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -104,7 +104,12 @@ where
     }
 
     /// Set parent and child relations at same time
+    ///
+    /// If the node already has a parent, it is detached from that parent first.
     pub fn set_parent(&self, parent: &Node<T>) {
+        if let Some(old_parent) = self.parent() {
+            self.remove_parent(&old_parent);
+        }
         self.lock().parent = Some(Arc::downgrade(&parent.0));
         parent.0.lock().unwrap().children.push(self.clone());
     }
-- 
2.43.0


From 4126c06d882a3b0e796e8946bbcf43efc7fe8136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 02/29] fix: detach a node from its previous mimic parent in
 set_mimic_parent

The previous mimic parent kept moving the node.
---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 3f5c5b7..5c92fcd 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -322,6 +322,9 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
+        if let Some(old_parent) = self.mimic_parent() {
+            old_parent.lock().mimic_children.retain(|x| *x != *self);
+        }
         self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
         parent.lock().mimic_children.push(self.clone());
         self.lock().mimic = Some(mimic);
-- 
2.43.0


From 679ad3386570a7ea8497205f8201b69476ce1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 03/29] fix: move the joints which mimic a mimic joint

Only the direct mimic children followed set_joint_position(); a joint which
mimics one of them was never moved.
---
 src/node.rs | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 5c92fcd..70fad3d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -43,6 +43,32 @@ where
     pub link: Option<Link<T>>,
 }
 
+impl<T> NodeImpl<T>
+where
+    T: RealField + SubsetOf<f64>,
+{
+    /// Copy the position to the nodes which mimic this node, and to the nodes which mimic them
+    fn set_mimic_children_positions(&self, position: T) -> Result<(), Error> {
+        for child in &self.mimic_children {
+            let mut child_node = child.lock();
+            let mimic = child_node.mimic.clone();
+            match mimic {
+                Some(m) => {
+                    let child_position = m.mimic_position(position);
+                    child_node.joint.set_joint_position(child_position)?;
+                    child_node.set_mimic_children_positions(child_position)?;
+                }
+                None => {
+                    let from = self.joint.name.to_owned();
+                    let to = child_node.joint.name.to_owned();
+                    return Err(Error::MimicError { from, to });
+                }
+            };
+        }
+        Ok(())
+    }
+}
+
 /// Parts of `Chain`
 ///
 /// It contains joint, joint (transform), and parent/children.
@@ -211,21 +237,7 @@ where
             return Ok(());
         }
         node.joint.set_joint_position(position)?;
-        for child in &node.mimic_children {
-            let mut child_node = child.lock();
-            let mimic = child_node.mimic.clone();
-            match mimic {
-                Some(m) => child_node
-                    .joint
-                    .set_joint_position(m.mimic_position(position))?,
-                None => {
-                    let from = self.joint().name.to_owned();
-                    let to = child.joint().name.to_owned();
-                    return Err(Error::MimicError { from, to });
-                }
-            };
-        }
-        Ok(())
+        node.set_mimic_children_positions(position)
     }
 
     /// Set the clamped position (angle) of the joint
-- 
2.43.0


From ded4191bbb0e0d566c5c66d2b52bed4f9726748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 04/29] fix: a node whose parent was dropped is a root

is_root() returned false although parent() is None, and cloning a chain which
starts from such a node failed in an assertion.
---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 70fad3d..2ddb74e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -158,7 +158,7 @@ where
     /// assert!(!l1.is_root());
     /// ```
     pub fn is_root(&self) -> bool {
-        self.lock().parent.is_none()
+        self.parent().is_none()
     }
 
     /// # Examples
-- 
2.43.0


From 79b6f8afbb9f86826b7ed85b7e255f983cefd245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 05/29] fix: calculate the transform of the parent if it has no
 cache

update_transforms() of a chain which does not start from the root of the tree
panicked if the parent had not been updated before, and the update of any chain
panicked if another thread moved a joint in the meantime.
---
 src/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 2ddb74e..eba2ce3 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -277,7 +277,9 @@ where
     pub(crate) fn parent_world_transform(&self) -> Option<Isometry3<T>> {
         //match self.0.borrow().parent {
         match self.parent() {
-            Some(ref parent) => parent.world_transform(),
+            Some(ref parent) => parent.world_transform().or_else(|| {
+                Some(parent.parent_world_transform()? * parent.joint().local_transform())
+            }),
             None => Some(Isometry3::identity()),
         }
     }
-- 
2.43.0


From 23c10601d5e4dbad1232d2ffcbd341b587faf9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 06/29] fix: update the ancestors of a chain in
 update_transforms

If a chain does not start from the root of the tree, the transforms were
calculated from an outdated transform of the parent when one of the ancestors
had been moved.
---
 src/chain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chain.rs b/src/chain.rs
index 31f1d70..088b103 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -378,6 +378,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_transform() of the joints
     pub fn update_transforms(&self) -> Vec<Isometry3<T>> {
+        // the ancestors of the first node are not in the chain, but it is based on them
+        if let Some(parent) = self.nodes.first().and_then(|node| node.parent()) {
+            Chain::from_end(&parent).update_transforms();
+        }
         self.iter()
             .map(|node| {
                 let parent_transform = node.parent_world_transform().expect("cache must exist");
-- 
2.43.0


From cbbe540e9d42ddd0605467f2c628cb5332a7cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 07/29] fix: deadlock and wrong results of update_velocities

The joint was kept locked while its own transform and velocity were read, so
that it never returned for a chain with a movable joint (and it panicked for a
rotational root). The velocity caused by the rotation of the parent was
calculated with the offset of the parent instead of the joint, and it was
ignored for linear and fixed joints.
---
 src/chain.rs | 50 ++++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 088b103..0af25f6 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -394,6 +394,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update world_velocity() of the joints
     pub fn update_velocities(&self) -> Vec<Velocity<T>> {
+        // the ancestors of the first node are not in the chain, but it is based on them
+        if let Some(parent) = self.nodes.first().and_then(|node| node.parent()) {
+            Chain::from_end(&parent).update_velocities();
+        }
         self.update_transforms();
         self.iter()
             .map(|node| {
@@ -403,34 +407,28 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                 let parent_velocity = node
                     .parent_world_velocity()
                     .expect("velocity cache must exist");
-                let velocity = match node.joint().joint_type {
-                    JointType::Fixed => parent_velocity,
-                    JointType::Rotational { axis } => {
-                        let parent = node.parent().expect("parent must exist");
-                        let parent_vel = parent.joint().origin().translation.vector;
-                        Velocity::from_parts(
-                            parent_velocity.translation
-                                + parent_velocity.rotation.cross(
-                                    &(parent_transform.rotation.to_rotation_matrix() * parent_vel),
-                                ),
-                            parent_velocity.rotation
-                                + node
-                                    .world_transform()
-                                    .expect("cache must exist")
-                                    .rotation
-                                    .to_rotation_matrix()
-                                    * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        )
+                let world_transform = node.world_transform().expect("cache must exist");
+                // do not keep the joint locked, and add the motion caused by the parent
+                let joint_type = node.joint().joint_type;
+                let joint_velocity = node.joint().joint_velocity();
+                let carried_translation = parent_velocity.translation
+                    + parent_velocity.rotation.cross(
+                        &(world_transform.translation.vector - parent_transform.translation.vector),
+                    );
+                let velocity = match joint_type {
+                    JointType::Fixed => {
+                        Velocity::from_parts(carried_translation, parent_velocity.rotation)
                     }
+                    JointType::Rotational { axis } => Velocity::from_parts(
+                        carried_translation,
+                        parent_velocity.rotation
+                            + world_transform.rotation.to_rotation_matrix()
+                                * (axis.into_inner() * joint_velocity.unwrap()),
+                    ),
                     JointType::Linear { axis } => Velocity::from_parts(
-                        parent_velocity.translation
-                            + node
-                                .world_transform()
-                                .expect("cache must exist")
-                                .rotation
-                                .to_rotation_matrix()
-                                * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        // TODO: Is this true??
+                        carried_translation
+                            + world_transform.rotation.to_rotation_matrix()
+                                * (axis.into_inner() * joint_velocity.unwrap()),
                         parent_velocity.rotation,
                     ),
                 };
-- 
2.43.0


From 384816853c02744150027eb2a30d835025a88d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 08/29] fix: link elements are placed relative to the joint of
 the link

update_link_transforms() used the transform of the parent joint, but a link is
attached to the end of its own joint, as center_of_mass() assumes.
---
 src/chain.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 0af25f6..eb3b74e 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -442,17 +442,17 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     pub fn update_link_transforms(&self) {
         self.update_transforms();
         self.iter().for_each(|node| {
-            let parent_transform = node.parent_world_transform().expect("cache must exist");
+            let link_transform = node.world_transform().expect("cache must exist");
             let mut node_mut = node.lock();
             if let Some(ref mut link) = node_mut.link {
-                let inertial_trans = parent_transform * link.inertial.origin();
+                let inertial_trans = link_transform * link.inertial.origin();
                 link.inertial.set_world_transform(inertial_trans);
                 for c in &mut link.collisions {
-                    let c_trans = parent_transform * c.origin();
+                    let c_trans = link_transform * c.origin();
                     c.set_world_transform(c_trans);
                 }
                 for v in &mut link.visuals {
-                    let v_trans = parent_transform * v.origin();
+                    let v_trans = link_transform * v.origin();
                     v.set_world_transform(v_trans);
                 }
             }
-- 
2.43.0


From fbe432f09c8dd45cbd5561916527f9adb98a80c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 09/29] fix: keep the order of the joints in the clone of a
 chain

The children were connected in the order of iteration, which is reversed in
the children, so that siblings were swapped in the clone and joint_positions()
had a different order.
---
 src/chain.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index eb3b74e..c550650 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -475,7 +475,7 @@ where
         }
         assert!(self.nodes[0].is_root());
         // Clone everything
-        let mut new_nodes = self
+        let new_nodes = self
             .nodes
             .iter()
             .map(|n| {
@@ -486,10 +486,11 @@ where
             .collect::<Vec<_>>();
         // Connect to new nodes
         for i in 0..new_nodes.len() {
-            if let Some(p) = self.nodes[i].parent() {
-                // get index of p
-                let parent_index = self.nodes.iter().position(|x| *x == p).unwrap();
-                new_nodes[i].set_parent(&new_nodes[parent_index]);
+            // keep the order of the children, because it is the order of the joints
+            for c in self.nodes[i].children().iter() {
+                if let Some(child_index) = self.nodes.iter().position(|x| x == c) {
+                    new_nodes[child_index].set_parent(&new_nodes[i]);
+                }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
                 let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
@@ -502,7 +503,7 @@ where
         //
         // first node must be root
         assert!(new_nodes[0].is_root());
-        Chain::from_root(new_nodes.remove(0))
+        Chain::from_nodes(new_nodes)
     }
 }
 
-- 
2.43.0


From 06c6b77d924de63aace4eeb13e08fbfdf81f63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 10/29] fix: clone a chain which does not contain the mimic
 parent of its joint

It panicked, for example with the chain from the end of a mimic joint which is
in another branch than its mimic parent.
---
 src/chain.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index c550650..9422f35 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -493,11 +493,13 @@ where
                 }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
-                let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
-                new_nodes[i].set_mimic_parent(
-                    &new_nodes[parent_index],
-                    self.nodes[i].lock().mimic.clone().unwrap(),
-                );
+                // the mimic parent is not always in the chain
+                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
+                    new_nodes[i].set_mimic_parent(
+                        &new_nodes[parent_index],
+                        self.nodes[i].lock().mimic.clone().unwrap(),
+                    );
+                }
             }
         }
         //
-- 
2.43.0


From 9b36099fe365486c2fe8b54ecc6e9cab2e4e318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 11/29] fix: do not panic in Display and SerialChain::try_new
 with an empty chain

---
 src/chain.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 9422f35..9778502 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -107,7 +107,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
 impl<T: RealField + SubsetOf<f64>> Display for Chain<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        self.fmt_with_indent_level(self.iter().next().unwrap(), 0, f)
+        match self.iter().next() {
+            Some(root) => self.fmt_with_indent_level(root, 0, f),
+            None => Ok(()),
+        }
     }
 }
 
@@ -552,7 +555,7 @@ where
     pub fn try_new(inner: Chain<T>) -> Option<Self> {
         {
             let num = inner.iter().count();
-            for node in inner.iter().take(num - 1) {
+            for node in inner.iter().take(num.saturating_sub(1)) {
                 if node.children().len() != 1 {
                     return None;
                 }
-- 
2.43.0


From ea8b06d81fa126434e4313116a3e94e6360a9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 12/29] fix: calculate the jacobian in the frame of the end
 transform

If a serial chain does not start from the root of the tree, the positions of
the joints were in the world but the position of the end was relative to the
chain, so that the jacobian was wrong and IK did not converge.
---
 src/funcs.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index bf03a58..bcc5937 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -1,6 +1,6 @@
 use super::chain::*;
 use super::joint::*;
-use na::{DMatrix, RealField, Vector3};
+use na::{DMatrix, Isometry3, RealField, Vector3};
 use nalgebra as na;
 use simba::scalar::SubsetOf;
 
@@ -13,22 +13,25 @@ where
     let t_n = arm.end_transform();
     arm.update_transforms();
     let p_n = t_n.translation;
+    // use the same frame as end_transform(), it is not the world if arm is not from the root
+    let mut t_i = Isometry3::identity();
     let jacobi_vec = arm
-        .iter_joints()
-        .map(|joint| {
-            let t_i = joint.world_transform().unwrap();
+        .iter()
+        .filter_map(|node| {
+            let joint = node.joint();
+            t_i *= joint.local_transform();
             match joint.joint_type {
                 JointType::Linear { axis } => {
                     let p_i = t_i.rotation * axis;
-                    [p_i[0], p_i[1], p_i[2], na::zero(), na::zero(), na::zero()]
+                    Some([p_i[0], p_i[1], p_i[2], na::zero(), na::zero(), na::zero()])
                 }
                 JointType::Rotational { axis } => {
                     let p_i = t_i.translation;
                     let a_i = t_i.rotation * axis;
                     let dp_i = a_i.cross(&(p_n.vector - p_i.vector));
-                    [dp_i[0], dp_i[1], dp_i[2], a_i[0], a_i[1], a_i[2]]
+                    Some([dp_i[0], dp_i[1], dp_i[2], a_i[0], a_i[1], a_i[2]])
                 }
-                JointType::Fixed => panic!("impossible, bug of jacobian"),
+                JointType::Fixed => None,
             }
         })
         .collect::<Vec<_>>();
-- 
2.43.0


From d8e5816201fd538fbcc3e6ba113e1cd48ac88495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 13/29] fix: keep ignored joints in IK if the rest is not
 redundant

The solution of the remaining joints was added to the first joints of the arm,
so that ignored joints were moved and the others were moved by wrong values.
---
 src/ik.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index d658dc5..9e61af0 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -271,14 +271,11 @@ where
             }
         } else {
             // normal inverse matrix
-            self.add_positions_with_multiplier(
-                &orig_positions,
-                jacobi
-                    .lu()
-                    .solve(&err)
-                    .ok_or(Error::InverseMatrixError)?
-                    .as_slice(),
-            )
+            let mut d_q = jacobi.lu().solve(&err).ok_or(Error::InverseMatrixError)?;
+            for joint_index in ignored_joint_indices {
+                d_q = d_q.insert_row(*joint_index, T::zero());
+            }
+            self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
-- 
2.43.0


From 7def5646e678622eab69694379ffe0394517f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 14/29] fix: accept duplicated and too many ignored joint names
 in IK

A joint name given twice removed a wrong column of the jacobian or panicked,
and more names than joints caused an overflow. Count the joints found instead
of the names given.
---
 src/ik.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 9e61af0..7dc1941 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -294,13 +294,6 @@ where
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
         let orig_positions = arm.joint_positions();
-        let available_dof = arm.dof() - constraints.ignored_joint_names.len();
-        if available_dof < required_dof {
-            return Err(Error::PreconditionError {
-                dof: available_dof,
-                necessary_dof: required_dof,
-            });
-        }
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
@@ -316,6 +309,14 @@ where
             }
         }
         ignored_joint_indices.sort_unstable();
+        ignored_joint_indices.dedup();
+        let available_dof = arm.dof() - ignored_joint_indices.len();
+        if available_dof < required_dof {
+            return Err(Error::PreconditionError {
+                dof: available_dof,
+                necessary_dof: required_dof,
+            });
+        }
         let mut last_target_distance = None;
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
-- 
2.43.0


From 6edf7a2f767cece96f6da3b2677a870c943bfaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 15/29] fix: restore joint positions after IK failure even if
 they are out of limits

If one of the original positions is out of its limits (for example the initial
position 0 with limits from 1 to 2), the positions were not restored and
another error was returned. A mimic joint was not restored either.
---
 src/ik.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 7dc1941..54d855b 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -335,7 +335,7 @@ where
             }
             last_target_distance = Some((len_diff, rot_diff));
         }
-        arm.set_joint_positions(&orig_positions)?;
+        arm.set_joint_positions_unchecked(&orig_positions);
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
             position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
@@ -461,7 +461,7 @@ where
         let orig_positions = arm.joint_positions();
         let re = self.solve_with_constraints_internal(arm, target_pose, constraints);
         if re.is_err() {
-            arm.set_joint_positions(&orig_positions)?;
+            arm.set_joint_positions_unchecked(&orig_positions);
         };
         re
     }
-- 
2.43.0


From aae25bfdfa264307c820a799a1345c86e419ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 16/29] fix: return from IK without constraints, without tries
 or with not finite pose

It panicked if all constraints are disabled or num_max_try is 0, and never
returned for a redundant arm if the target pose contains NaN or infinity.
---
 src/ik.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 54d855b..9f566ad 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -317,7 +317,14 @@ where
                 necessary_dof: required_dof,
             });
         }
-        let mut last_target_distance = None;
+        if required_dof == 0 {
+            // nothing is constrained, it is already reached
+            return Ok(());
+        }
+        let mut last_target_distance = target_diff_to_len_rot_diff(
+            &calc_pose_diff_with_constraints(target_pose, &arm.end_transform(), operational_space),
+            operational_space,
+        );
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
                 arm,
@@ -333,13 +340,17 @@ where
                 arm.set_joint_positions_clamped(&non_checked_positions);
                 return Ok(());
             }
-            last_target_distance = Some((len_diff, rot_diff));
+            last_target_distance = (len_diff, rot_diff);
+            if target_diff.iter().any(|diff| !diff.is_finite()) {
+                // it never converges, and matrices can not be decomposed anymore
+                break;
+            }
         }
         arm.set_joint_positions_unchecked(&orig_positions);
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
-            position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
-            rotation_diff: na::try_convert(last_target_distance.unwrap().1).unwrap_or_default(),
+            position_diff: na::try_convert(last_target_distance.0).unwrap_or_default(),
+            rotation_diff: na::try_convert(last_target_distance.1).unwrap_or_default(),
         })
     }
 }
-- 
2.43.0


From 6169806ffa41ec59e8218a0b8d607b269ba54af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 17/29] fix: keep the order of the followers in the clone of a
 chain

---
 src/chain.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 9778502..2424d05 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -495,13 +495,13 @@ where
                     new_nodes[child_index].set_parent(&new_nodes[i]);
                 }
             }
-            if let Some(m) = self.nodes[i].mimic_parent() {
-                // the mimic parent is not always in the chain
-                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
-                    new_nodes[i].set_mimic_parent(
-                        &new_nodes[parent_index],
-                        self.nodes[i].lock().mimic.clone().unwrap(),
-                    );
+            // keep the order of the followers, because it is the order in which they are set
+            let followers = self.nodes[i].lock().mimic_children.clone();
+            for f in followers.iter() {
+                // the mimic parent and its followers are not always in the same chain
+                if let Some(follower_index) = self.nodes.iter().position(|x| x == f) {
+                    let mimic = self.nodes[follower_index].lock().mimic.clone().unwrap();
+                    new_nodes[follower_index].set_mimic_parent(&new_nodes[i], mimic);
                 }
             }
         }
-- 
2.43.0


From e7cbc2898806f1e239a0bc620e8b1f8ee6263bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 18/29] fix: wrong pseudo inverse of jacobian with equal
 singular values

---
 src/ik.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 9f566ad..6a91f27 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -16,7 +16,7 @@
 
 use std::fmt;
 
-use na::{DVector, Isometry3, RealField, Vector3, Vector6};
+use na::{DMatrix, DVector, Isometry3, RealField, Vector3, Vector6};
 use nalgebra as na;
 #[cfg(feature = "serde-serialize")]
 use serde::{Deserialize, Serialize};
@@ -81,6 +81,25 @@ pub struct Constraints {
     pub ignored_joint_names: Vec<String>,
 }
 
+/// Moore-Penrose pseudo inverse, singular values which are not larger than `eps` are ignored
+///
+/// With its default tolerance `svd()` of nalgebra returns matrices whose product is not the
+/// original one if singular values are equal, as it loses precision in its last 2x2 problem.
+/// The larger tolerance keeps the error below it.
+fn pseudo_inverse<T>(matrix: &DMatrix<T>, eps: f64) -> DMatrix<T>
+where
+    T: RealField + SubsetOf<f64>,
+{
+    const SVD_EPS: f64 = 1e-10;
+    matrix
+        .map(na::convert::<T, f64>)
+        .try_svd(true, true, SVD_EPS, 0)
+        .unwrap()
+        .pseudo_inverse(eps)
+        .unwrap()
+        .map(na::convert_unchecked::<f64, T>)
+}
+
 fn default_true() -> bool {
     true
 }
@@ -243,7 +262,7 @@ where
             // redundant: pseudo inverse
             match self.nullspace_function {
                 Some(ref f) => {
-                    let jacobi_inv = jacobi.clone().pseudo_inverse(na::convert(EPS)).unwrap();
+                    let jacobi_inv = pseudo_inverse(&jacobi, EPS);
 
                     let mut subtask = na::DVector::from_vec(f(&orig_positions));
                     for (i, joint_index) in ignored_joint_indices.iter().enumerate() {
@@ -259,10 +278,7 @@ where
                     self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
                 }
                 None => {
-                    let mut d_q = jacobi
-                        .svd(true, true)
-                        .solve(&err, na::convert(EPS))
-                        .unwrap();
+                    let mut d_q = pseudo_inverse(&jacobi, EPS) * err;
                     for joint_index in ignored_joint_indices {
                         d_q = d_q.insert_row(*joint_index, T::zero());
                     }
-- 
2.43.0


From 9d2be357dfa370578fd287db3ffaaf0de6f39159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 19/29] fix: the root joint is mapped to the last link instead
 of the root link

---
 src/urdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index ff3a32d..cada6f3 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -375,7 +375,7 @@ pub fn joint_to_link_map(urdf_robot: &urdf_rs::Robot) -> HashMap<String, String>
         map.insert(j.name.to_owned(), j.child.link.to_owned());
     }
     for l in &urdf_robot.links {
-        if map.get(&l.name).is_none() {
+        if urdf_robot.joints.iter().all(|j| j.child.link != l.name) {
             map.insert(ROOT_JOINT_NAME.to_owned(), l.name.to_owned());
         }
     }
-- 
2.43.0


From 6dc893de53edb68a6c6a7768bdfbe195f1eaad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 20/29] verification hook: observable mutex (cfg k_verif)

---
 src/lib.rs        |   5 ++
 src/node.rs       |   6 +-
 src/verif_sync.rs | 154 ++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 164 insertions(+), 1 deletion(-)
 create mode 100644 src/verif_sync.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8193cd2..67b57b2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,8 @@
 //!
 
 #![warn(missing_debug_implementations, rust_2018_idioms)]
+// k_verif is set by the verification of schedules only
+#![allow(unexpected_cfgs)]
 
 #[cfg(doctest)]
 doc_comment::doctest!("../README.md");
@@ -40,6 +42,9 @@ pub mod link;
 pub mod node;
 pub mod prelude;
 pub mod urdf;
+#[cfg(k_verif)]
+#[allow(missing_debug_implementations)]
+pub mod verif_sync;
 
 pub use self::chain::*;
 pub use self::errors::*;
diff --git a/src/node.rs b/src/node.rs
index eba2ce3..04e48ee 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -19,12 +19,16 @@ use nalgebra as na;
 use simba::scalar::SubsetOf;
 use std::fmt::{self, Display};
 use std::ops::Deref;
-use std::sync::{Arc, Mutex, MutexGuard, Weak};
+use std::sync::{Arc, Weak};
+#[cfg(not(k_verif))]
+use std::sync::{Mutex, MutexGuard};
 
 use super::errors::*;
 use super::iterator::*;
 use super::joint::*;
 use super::link::*;
+#[cfg(k_verif)]
+use super::verif_sync::{Mutex, MutexGuard};
 
 type WeakNode<T> = Weak<Mutex<NodeImpl<T>>>;
 
diff --git a/src/verif_sync.rs b/src/verif_sync.rs
new file mode 100644
index 0000000..3d9f0bc
--- /dev/null
+++ b/src/verif_sync.rs
@@ -0,0 +1,154 @@
+//! Replacement of `std::sync::Mutex` for the verification of schedules.
+//!
+//! It is compiled with `--cfg k_verif` only. It behaves like the mutex of the standard library, and tells an observer
+//! before each acquisition, when it would have to wait, and after each release, so that the observer can decide which
+//! thread continues.
+use std::fmt;
+use std::ops::{Deref, DerefMut};
+use std::sync::{self, LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+/// Gets to know what happens to the mutexes
+pub trait Observer: Sync {
+    /// The current thread is going to acquire the mutex
+    fn before_lock(&self, mutex: usize);
+    /// The mutex is not available. Return true to try again, false to wait for it
+    fn unavailable(&self, mutex: usize) -> bool;
+    /// The mutex is not available and the current thread does not want to wait for it
+    fn not_acquired(&self, mutex: usize);
+    /// The current thread has released the mutex
+    fn released(&self, mutex: usize);
+}
+
+static OBSERVER: OnceLock<&'static dyn Observer> = OnceLock::new();
+
+/// Set the observer of all mutexes. Only the first call has an effect.
+pub fn observe(observer: &'static dyn Observer) {
+    let _ = OBSERVER.set(observer);
+}
+
+#[derive(Default)]
+pub struct Mutex<T: ?Sized>(sync::Mutex<T>);
+
+/// Tells the observer when it is dropped
+struct Release(usize);
+
+impl Drop for Release {
+    fn drop(&mut self) {
+        if let Some(o) = OBSERVER.get() {
+            o.released(self.0);
+        }
+    }
+}
+
+pub struct MutexGuard<'a, T: ?Sized> {
+    // the fields are dropped in this order
+    guard: sync::MutexGuard<'a, T>,
+    _release: Release,
+}
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Mutex(sync::Mutex::new(value))
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<T: ?Sized> Mutex<T> {
+    fn id(&self) -> usize {
+        &self.0 as *const sync::Mutex<T> as *const u8 as usize
+    }
+    fn wrap<'a>(&self, guard: sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        MutexGuard {
+            guard,
+            _release: Release(self.id()),
+        }
+    }
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        if let Some(o) = OBSERVER.get() {
+            o.before_lock(self.id());
+            loop {
+                match self.0.try_lock() {
+                    Ok(g) => return Ok(self.wrap(g)),
+                    Err(TryLockError::Poisoned(p)) => {
+                        return Err(PoisonError::new(self.wrap(p.into_inner())))
+                    }
+                    Err(TryLockError::WouldBlock) => {
+                        if !o.unavailable(self.id()) {
+                            break;
+                        }
+                    }
+                }
+            }
+        }
+        match self.0.lock() {
+            Ok(g) => Ok(self.wrap(g)),
+            Err(p) => Err(PoisonError::new(self.wrap(p.into_inner()))),
+        }
+    }
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        let observer = OBSERVER.get();
+        if let Some(o) = observer {
+            o.before_lock(self.id());
+        }
+        match self.0.try_lock() {
+            Ok(g) => Ok(self.wrap(g)),
+            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
+                self.wrap(p.into_inner()),
+            ))),
+            Err(TryLockError::WouldBlock) => {
+                if let Some(o) = observer {
+                    o.not_acquired(self.id());
+                }
+                Err(TryLockError::WouldBlock)
+            }
+        }
+    }
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+    pub fn clear_poison(&self) {
+        self.0.clear_poison()
+    }
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+}
+
+impl<T> From<T> for Mutex<T> {
+    fn from(value: T) -> Self {
+        Self::new(value)
+    }
+}
+
+impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.0.fmt(f)
+    }
+}
+
+impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        &self.guard
+    }
+}
+
+impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        &mut self.guard
+    }
+}
+
+impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.guard.fmt(f)
+    }
+}
+
+impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.guard.fmt(f)
+    }
+}
-- 
2.43.0


From 102a600841579c37f359ef61a1b08ae5a78efe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 21/29] fix: printing a chain deadlocks with a thread which
 moves a mimic joint

The children were printed while their parent was locked. If a follower is the
parent of its leader, another thread locks them in the other order.
---
 src/chain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 2424d05..1077ac8 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -98,7 +98,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         if self.nodes.iter().any(|joint| joint == node) {
             writeln!(f, "{}{}", "    ".repeat(level), node)?;
         }
-        for c in node.children().iter() {
+        // do not keep the node locked, another thread may have locked its children
+        let children = node.children().clone();
+        for c in &children {
             self.fmt_with_indent_level(c, level + 1, f)?
         }
         Ok(())
-- 
2.43.0


From 0fbbfbc54b4aed76d3fd4e6b6633e332d6b699a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 22/29] fix: release nodes of which one mimics a node below it

The leader kept its followers alive, so that a follower above its leader was never
released. Followers are kept alive by their parents, chains and handles only.
---
 src/chain.rs |  5 +++--
 src/node.rs  | 13 +++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 1077ac8..965bb7c 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -499,9 +499,10 @@ where
             }
             // keep the order of the followers, because it is the order in which they are set
             let followers = self.nodes[i].lock().mimic_children.clone();
-            for f in followers.iter() {
+            for f in followers.iter().filter_map(|f| f.upgrade()) {
                 // the mimic parent and its followers are not always in the same chain
-                if let Some(follower_index) = self.nodes.iter().position(|x| x == f) {
+                let f = Node::from_arc(f);
+                if let Some(follower_index) = self.nodes.iter().position(|x| *x == f) {
                     let mimic = self.nodes[follower_index].lock().mimic.clone().unwrap();
                     new_nodes[follower_index].set_mimic_parent(&new_nodes[i], mimic);
                 }
diff --git a/src/node.rs b/src/node.rs
index 04e48ee..b200e29 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -42,7 +42,7 @@ where
     pub children: Vec<Node<T>>,
     pub joint: Joint<T>,
     pub mimic_parent: Option<WeakNode<T>>,
-    pub mimic_children: Vec<Node<T>>,
+    pub mimic_children: Vec<WeakNode<T>>,
     pub mimic: Option<Mimic<T>>,
     pub link: Option<Link<T>>,
 }
@@ -53,7 +53,8 @@ where
 {
     /// Copy the position to the nodes which mimic this node, and to the nodes which mimic them
     fn set_mimic_children_positions(&self, position: T) -> Result<(), Error> {
-        for child in &self.mimic_children {
+        for child in self.mimic_children.iter().filter_map(Weak::upgrade) {
+            let child = Node::from_arc(child);
             let mut child_node = child.lock();
             let mimic = child_node.mimic.clone();
             match mimic {
@@ -341,10 +342,14 @@ where
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
         if let Some(old_parent) = self.mimic_parent() {
-            old_parent.lock().mimic_children.retain(|x| *x != *self);
+            old_parent
+                .lock()
+                .mimic_children
+                .retain(|x| !std::ptr::eq(x.as_ptr(), &*self.0));
         }
         self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
-        parent.lock().mimic_children.push(self.clone());
+        // weak, because this node may be above its mimic parent
+        parent.lock().mimic_children.push(Arc::downgrade(&self.0));
         self.lock().mimic = Some(mimic);
     }
 
-- 
2.43.0


From a8341a3d6579dd450ffd02f13055b1421d5f34d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 23/29] fix: joints can be set after the joint they mimic was
 dropped

mimic_parent() is None then, but setting the position did nothing and returned Ok.
---
 src/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index b200e29..a85a468 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -238,7 +238,9 @@ where
     /// ```
     pub fn set_joint_position(&self, position: T) -> Result<(), Error> {
         let mut node = self.lock();
-        if node.mimic_parent.is_some() {
+        // it is independent if the mimic parent was dropped
+        let follows = |parent: &WeakNode<T>| parent.strong_count() > 0;
+        if node.mimic_parent.as_ref().map_or(false, follows) {
             return Ok(());
         }
         node.joint.set_joint_position(position)?;
-- 
2.43.0


From d16eb7e5264c96d3297d0617c11e7b279764cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 24/29] fix: the reported velocity of a joint outlives a change
 of its origin

---
 src/joint/joint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index ba6d487..b300605 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -181,6 +181,7 @@ where
     pub fn set_origin(&mut self, origin: Isometry3<T>) {
         self.origin = origin;
         self.world_transform_cache.replace(None);
+        self.world_velocity_cache.replace(None);
     }
 
     pub fn set_joint_velocity(&mut self, velocity: T) -> Result<(), Error> {
-- 
2.43.0


From 0986d79e363e88c1b6c6b36758ef483bef121c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 25/29] fix: updates of velocities and links and the center of
 mass panic or skip links if joints are moved meanwhile

---
 src/chain.rs | 18 +++++++++---------
 src/funcs.rs | 15 +++++++--------
 src/node.rs  |  5 ++++-
 3 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 965bb7c..3cfa510 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -412,15 +412,15 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                 let parent_velocity = node
                     .parent_world_velocity()
                     .expect("velocity cache must exist");
-                let world_transform = node.world_transform().expect("cache must exist");
-                // do not keep the joint locked, and add the motion caused by the parent
-                let joint_type = node.joint().joint_type;
-                let joint_velocity = node.joint().joint_velocity();
+                // add the motion caused by the parent
+                let joint = node.joint();
+                let world_transform = parent_transform * joint.local_transform();
+                let joint_velocity = joint.joint_velocity();
                 let carried_translation = parent_velocity.translation
                     + parent_velocity.rotation.cross(
                         &(world_transform.translation.vector - parent_transform.translation.vector),
                     );
-                let velocity = match joint_type {
+                let velocity = match joint.joint_type {
                     JointType::Fixed => {
                         Velocity::from_parts(carried_translation, parent_velocity.rotation)
                     }
@@ -437,7 +437,7 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                         parent_velocity.rotation,
                     ),
                 };
-                node.joint().set_world_velocity(velocity);
+                joint.set_world_velocity(velocity);
                 velocity
             })
             .collect()
@@ -445,9 +445,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
     /// Update transforms of the links
     pub fn update_link_transforms(&self) {
-        self.update_transforms();
-        self.iter().for_each(|node| {
-            let link_transform = node.world_transform().expect("cache must exist");
+        // do not use the cache of the nodes, another thread may move them meanwhile
+        let transforms = self.update_transforms();
+        self.iter().zip(transforms).for_each(|(node, link_transform)| {
             let mut node_mut = node.lock();
             if let Some(ref mut link) = node_mut.link {
                 let inertial_trans = link_transform * link.inertial.origin();
diff --git a/src/funcs.rs b/src/funcs.rs
index bcc5937..19baffc 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -65,14 +65,13 @@ where
     let mut total_mass = T::zero();
     let mut com = Vector3::zeros();
 
-    chain.update_transforms();
-    chain.iter().for_each(|node| {
-        if let Some(trans) = node.world_transform() {
-            if let Some(ref link) = *node.link() {
-                let inertia_trans = trans * link.inertial.origin().translation;
-                com += inertia_trans.translation.vector * link.inertial.mass;
-                total_mass += link.inertial.mass;
-            }
+    // do not use the cache of the nodes, another thread may move them meanwhile
+    let transforms = chain.update_transforms();
+    chain.iter().zip(transforms).for_each(|(node, trans)| {
+        if let Some(ref link) = *node.link() {
+            let inertia_trans = trans * link.inertial.origin().translation;
+            com += inertia_trans.translation.vector * link.inertial.mass;
+            total_mass += link.inertial.mass;
         }
     });
     com / total_mass
diff --git a/src/node.rs b/src/node.rs
index a85a468..2db360a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -23,6 +23,7 @@ use std::sync::{Arc, Weak};
 #[cfg(not(k_verif))]
 use std::sync::{Mutex, MutexGuard};
 
+use super::chain::*;
 use super::errors::*;
 use super::iterator::*;
 use super::joint::*;
@@ -293,7 +294,9 @@ where
 
     pub(crate) fn parent_world_velocity(&self) -> Option<Velocity<T>> {
         match self.parent() {
-            Some(ref parent) => parent.world_velocity(),
+            Some(ref parent) => parent
+                .world_velocity()
+                .or_else(|| Chain::from_end(parent).update_velocities().pop()),
             None => Some(Velocity::zero()),
         }
     }
-- 
2.43.0


From 8f8814b27f80b5fa521e1526543701983ec67f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 26/29] fix: update_transforms stores the transform of a former
 position if the joint is moved meanwhile

---
 src/chain.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 3cfa510..3816f68 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -390,8 +390,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         self.iter()
             .map(|node| {
                 let parent_transform = node.parent_world_transform().expect("cache must exist");
-                let trans = parent_transform * node.joint().local_transform();
-                node.joint().set_world_transform(trans);
+                // the joint must not be moved before its transform is set
+                let joint = node.joint();
+                let trans = parent_transform * joint.local_transform();
+                joint.set_world_transform(trans);
                 trans
             })
             .collect()
-- 
2.43.0


From 2f8178dffed9a8d9cbb53ae1a8192f36f6f9d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 27/29] fix: set_mimic_parent adds a follower before it is
 known how it follows

---
 src/node.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 2db360a..950aa81 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -352,10 +352,14 @@ where
                 .mimic_children
                 .retain(|x| !std::ptr::eq(x.as_ptr(), &*self.0));
         }
-        self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
+        {
+            // it must be known how to follow before the parent is set
+            let mut node = self.lock();
+            node.mimic_parent = Some(Arc::downgrade(&parent.0));
+            node.mimic = Some(mimic);
+        }
         // weak, because this node may be above its mimic parent
         parent.lock().mimic_children.push(Arc::downgrade(&self.0));
-        self.lock().mimic = Some(mimic);
     }
 
     pub fn set_link(&self, link: Option<Link<T>>) {
-- 
2.43.0


From 8d834bc04b15c14ff4940ee55e6503fb34df5caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 28/29] fix: iter_links panics if a link is removed meanwhile

---
 src/chain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 3816f68..8e4bbfa 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -283,8 +283,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     /// Iterate for links
     pub fn iter_links(&self) -> impl Iterator<Item = LinkRefGuard<'_, T>> {
         self.nodes.iter().filter_map(|node| {
-            if node.link().is_some() {
-                Some(LinkRefGuard { guard: node.lock() })
+            let guard = node.lock();
+            if guard.link.is_some() {
+                Some(LinkRefGuard { guard })
             } else {
                 None
             }
-- 
2.43.0


From 1ff4536cb381e61f32c209a9c4d9aaeee57cd55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 29/29] fix: IK reports success with positions or rotations
 which are not numbers, or hangs, if a value is not finite

The rotation error of a rotation which is not a number was zero, and the
singular value decomposition of a Jacobian which is not finite does not end.
Such a step is not made, and ends in NotConvergedError.
---
 src/ik.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ik.rs b/src/ik.rs
index 6a91f27..1febe99 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -32,7 +32,13 @@ where
     T: RealField,
 {
     let p_diff = a.translation.vector - b.translation.vector;
-    let w_diff = b.rotation.rotation_to(&a.rotation).scaled_axis();
+    let rotation_diff = b.rotation.rotation_to(&a.rotation);
+    let w_diff = if rotation_diff.coords.iter().all(|x| x.is_finite()) {
+        rotation_diff.scaled_axis()
+    } else {
+        // `scaled_axis` returns zero
+        Vector3::repeat(na::convert(f64::NAN))
+    };
     Vector6::new(
         p_diff[0], p_diff[1], p_diff[2], w_diff[0], w_diff[1], w_diff[2],
     )
@@ -257,6 +263,12 @@ where
             jacobi = jacobi.remove_column(*joint_index - i);
         }
 
+        let not_finite = || DVector::from_element(required_dof, na::convert(f64::NAN));
+        if jacobi.iter().any(|x| !x.is_finite()) {
+            // it can not be decomposed
+            return Ok(not_finite());
+        }
+
         let positions_vec = if available_dof > required_dof {
             const EPS: f64 = 0.0001;
             // redundant: pseudo inverse
@@ -293,6 +305,10 @@ where
             }
             self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
+        if positions_vec.iter().any(|position| !position.is_finite()) {
+            // there is nowhere to go to
+            return Ok(not_finite());
+        }
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
             target_pose,
-- 
2.43.0

