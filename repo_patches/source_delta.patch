From 1cd6abc4d3a18a69248aaef4fdea8dc82709661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 01/26] fix: size the transform stack for links added at run
 time

The stack was sized for the links of the description only, so the pose of a
link at the end of a chain of added links was computed out of bounds.
---
 src/tinyfk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 313ca8c..3ad5733 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -251,6 +251,7 @@ urdf::LinkSharedPtr KinematicModel::add_new_link(const std::string &link_name,
   links_.push_back(new_link);
   links_[parent_id]->child_links.push_back(new_link);
   transform_cache_.extend();
+  transform_stack_ = SizedStack<LinkIdAndTransform>(links_.size());
 
   this->update_rptable(); // set _rptable
 
-- 
2.43.0


From ba7bd8925cada66c53c7284ba9a41227e8b93d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 02/26] fix: refuse an invalid robot description instead of
 dereferencing null

---
 src/tinyfk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 3ad5733..d0dd461 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -19,6 +19,9 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   }
   urdf::ModelInterfaceSharedPtr robot_urdf_interface =
       urdf::parseURDF(xml_string);
+  if (robot_urdf_interface == nullptr) {
+    throw std::runtime_error("failed to parse the robot description");
+  }
 
   // numbering link id
   std::vector<urdf::LinkSharedPtr> links;
-- 
2.43.0


From 84b1c17bf0281f4473cca0bbaf30b838c3ca8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 03/26] fix: set_joint_angle must invalidate the cached poses

---
 include/tinyfk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tinyfk.hpp b/include/tinyfk.hpp
index e71910f..63ad270 100644
--- a/include/tinyfk.hpp
+++ b/include/tinyfk.hpp
@@ -145,6 +145,7 @@ public: // functions
 
   void set_joint_angle(size_t joint_id, double angle) {
     joint_angles_[joint_id] = angle;
+    this->clear_cache();
   }
 
   urdf::LinkSharedPtr add_new_link(const std::string &link_name,
-- 
2.43.0


From 273d3dcf373c772d827c9555061f02c0362423fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 04/26] fix: center of mass and inertia must not use poses
 cached for an earlier configuration

---
 src/wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 663678d..d5b1419 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -135,7 +135,7 @@ public:
     Eigen::MatrixXd coms = Eigen::MatrixXd::Zero(3, n_wp);
     Eigen::MatrixXd J = Eigen::MatrixXd::Zero(3 * n_wp, n_dof);
     for (size_t i = 0; i < n_wp; ++i) {
-      this->_set_joint_angles(joint_ids, qs[i]);
+      this->set_joint_angles(joint_ids, qs[i]);
       if (with_base) {
         auto xyzrpy_begin = std::prev(qs[i].end(), 6);
         set_base_pose(xyzrpy_begin);
@@ -182,7 +182,7 @@ public:
   compute_total_inertia_matrix(const std::vector<double> &q,
                                const std::vector<size_t> &joint_ids) {
     // should we take vector of q as input...?
-    this->_set_joint_angles(joint_ids, q);
+    this->set_joint_angles(joint_ids, q);
     return this->get_total_inertia_matrix();
   }
 
-- 
2.43.0


From 0b716350678c48b77a7984c8bc37a7e18fa852b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 05/26] fix: take the orientation of the inertial frame into
 account in the total inertia

---
 src/tinyfk.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index d0dd461..7d6ee16 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -98,10 +98,8 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
         continue;
       }
       const auto com_dummy_link_name = link->name + "_com";
-      Transform new_link_pose;
-      new_link_pose.position.x = link->inertial->origin.position.x;
-      new_link_pose.position.y = link->inertial->origin.position.y;
-      new_link_pose.position.z = link->inertial->origin.position.z;
+      // including the rotation: the inertia tensor is given in this frame
+      const Transform new_link_pose = link->inertial->origin;
       const auto new_link =
           this->add_new_link(com_dummy_link_name, link->id, new_link_pose);
       // set new link's inertial as the same as the parent
-- 
2.43.0


From b3f7527706036e40f076b07cb9d5cecc19d70ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 06/26] fix: base columns of the Jacobian across the +-pi and
 quaternion sign boundaries

---
 src/kinematics.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/kinematics.cpp b/src/kinematics.cpp
index d837d2d..b218e20 100644
--- a/src/kinematics.cpp
+++ b/src/kinematics.cpp
@@ -218,16 +218,22 @@ KinematicModel::get_jacobian(size_t elink_id,
       jacobian(2, idx_col) = pos_diff.z / eps;
       if (rot_type == RotationType::RPY) {
         auto erpy_tweaked = pose_out.rotation.getRPY();
+        // the two angles may lie on either side of +-pi
         const auto erpy_diff = erpy_tweaked - erpy;
-        jacobian(3, idx_col) = erpy_diff.x / eps;
-        jacobian(4, idx_col) = erpy_diff.y / eps;
-        jacobian(5, idx_col) = erpy_diff.z / eps;
+        jacobian(3, idx_col) = std::remainder(erpy_diff.x, 2 * M_PI) / eps;
+        jacobian(4, idx_col) = std::remainder(erpy_diff.y, 2 * M_PI) / eps;
+        jacobian(5, idx_col) = std::remainder(erpy_diff.z, 2 * M_PI) / eps;
       }
       if (rot_type == RotationType::XYZW) {
-        jacobian(3, idx_col) = (pose_out.rotation.x - erot.x) / eps;
-        jacobian(4, idx_col) = (pose_out.rotation.y - erot.y) / eps;
-        jacobian(5, idx_col) = (pose_out.rotation.z - erot.z) / eps;
-        jacobian(6, idx_col) = (pose_out.rotation.w - erot.w) / eps;
+        // q and -q are the same rotation: take the one on the side of erot
+        const Rotation &qt = pose_out.rotation;
+        const double dot =
+            qt.x * erot.x + qt.y * erot.y + qt.z * erot.z + qt.w * erot.w;
+        const double sign = dot < 0.0 ? -1.0 : 1.0;
+        jacobian(3, idx_col) = (sign * qt.x - erot.x) / eps;
+        jacobian(4, idx_col) = (sign * qt.y - erot.y) / eps;
+        jacobian(5, idx_col) = (sign * qt.z - erot.z) / eps;
+        jacobian(6, idx_col) = (sign * qt.w - erot.w) / eps;
       }
     }
   }
-- 
2.43.0


From 94a2223ff6733c412cd99b36800d726b48ebae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 07/26] fix: velocity and effort limits of a continuous joint
 without limit element

---
 src/tinyfk.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 7d6ee16..a0ab0b9 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -9,6 +9,7 @@ tinyfk: https://github.com/HiroIshida/tinyfk
 #include <Eigen/Geometry>
 #include <cmath>
 #include <fstream>
+#include <limits>
 #include <stdexcept>
 
 namespace tinyfk {
@@ -185,7 +186,9 @@ std::vector<double> KinematicModel::get_joint_velocity_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->velocity;
+    // a continuous joint may come without a limit element
+    limits[i] = joint->limits ? joint->limits->velocity
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
@@ -196,7 +199,9 @@ std::vector<double> KinematicModel::get_joint_effort_limits(
   std::vector<double> limits(n_joint);
   for (size_t i = 0; i < n_joint; i++) {
     const auto &joint = joints_[joint_ids[i]];
-    limits[i] = joint->limits->effort;
+    // a continuous joint may come without a limit element
+    limits[i] = joint->limits ? joint->limits->effort
+                              : std::numeric_limits<double>::infinity();
   }
   return limits;
 }
-- 
2.43.0


From a0c8cdfe2abd1d63f9ca3a3f22363556d06f8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 08/26] fix: refuse descriptions with a link of two parents or
 a detached cycle

---
 urdf_parser/include/urdf_model/model.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/urdf_parser/include/urdf_model/model.h b/urdf_parser/include/urdf_model/model.h
index 8b7ced8..2f49cd8 100644
--- a/urdf_parser/include/urdf_model/model.h
+++ b/urdf_parser/include/urdf_model/model.h
@@ -137,6 +137,11 @@ public:
           throw ParseError("parent link [" + parent_link_name + "] of joint [" + joint->first + "] not found.  This is not valid according to the URDF spec. Every link you refer to from a joint needs to be explicitly defined in the robot description. To fix this problem you can either remove this joint [" + joint->first + "] from your urdf file, or add \"<link name=\"" + parent_link_name + "\" />\" to your urdf file.");
         }
         
+        if (child_link->parent_joint)
+        {
+          throw ParseError("Link [" + child_link_name + "] is the child of two joints: [" + child_link->parent_joint->name + "] and [" + joint->first + "]");
+        }
+
         //set parent link for child link
         child_link->setParent(parent_link);
 
@@ -181,6 +186,21 @@ public:
     {
       throw ParseError("No root link found. The robot xml is not a valid tree.");
     }
+
+    // a link that is not below the root belongs to a detached cycle
+    std::size_t n_reached = 0;
+    std::vector<LinkSharedPtr> to_visit(1, this->root_link_);
+    while (!to_visit.empty())
+    {
+      LinkSharedPtr link = to_visit.back();
+      to_visit.pop_back();
+      n_reached++;
+      to_visit.insert(to_visit.end(), link->child_links.begin(), link->child_links.end());
+    }
+    if (n_reached != this->links_.size())
+    {
+      throw ParseError("Some links are not connected to the root link [" + this->root_link_->name + "].");
+    }
   }
   
   
-- 
2.43.0


From 3b27c9a39003dac43af250f78c0f3fe81e1dd626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 09/26] fix: load descriptions that contain a link named like a
 center of mass link

---
 src/tinyfk.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index a0ab0b9..d411b5c 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -98,7 +98,10 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
       if (link->inertial == nullptr) {
         continue;
       }
-      const auto com_dummy_link_name = link->name + "_com";
+      auto com_dummy_link_name = link->name + "_com";
+      while (link_ids_.find(com_dummy_link_name) != link_ids_.end()) {
+        com_dummy_link_name += "_";
+      }
       // including the rotation: the inertia tensor is given in this frame
       const Transform new_link_pose = link->inertial->origin;
       const auto new_link =
-- 
2.43.0


From 326e0a8e47e07d98ea5eedaf40b3b63014c011f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 10/26] fix: adding a link to a copied model must not depend on
 the links of the other copy

---
 src/tinyfk.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index d411b5c..48141cf 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -275,18 +275,16 @@ void KinematicModel::update_rptable() {
   int n_dof = joint_ids_.size();
   auto rptable = RelevancePredicateTable(n_link, n_dof);
 
-  for (urdf::JointSharedPtr joint : joints_) {
-    int joint_id = joint_ids_.at(joint->name);
-    urdf::LinkSharedPtr clink = joint->getChildLink();
-    std::stack<urdf::LinkSharedPtr> link_stack;
-    link_stack.push(clink);
-    while (!link_stack.empty()) {
-      auto here_link = link_stack.top();
-      link_stack.pop();
-      rptable.table_[here_link->id][joint_id] = true;
-      for (auto &link : here_link->child_links) {
-        link_stack.push(link);
+  // walk up from this model's own links: child_links may also list links that
+  // were added to another copy of this model
+  for (const urdf::LinkSharedPtr &link : links_) {
+    urdf::LinkSharedPtr here_link = link;
+    while (here_link != nullptr) {
+      const auto &pjoint = here_link->parent_joint;
+      if (pjoint != nullptr && pjoint->type != urdf::Joint::FIXED) {
+        rptable.table_[link->id][pjoint->id] = true;
       }
+      here_link = here_link->getParent();
     }
   }
   rptable_ = rptable;
-- 
2.43.0


From 6fa4674fbce767d8ff62df352098ed94e4956a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 11/26] fix: export the origin of every joint

---
 urdf_parser/src/joint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/urdf_parser/src/joint.cpp b/urdf_parser/src/joint.cpp
index 82b43da..d16fffc 100644
--- a/urdf_parser/src/joint.cpp
+++ b/urdf_parser/src/joint.cpp
@@ -601,7 +601,7 @@ bool exportJoint(Joint &joint, TiXmlElement* xml)
     joint_xml->SetAttribute("type", "prismatic");
   else if (joint.type == urdf::Joint::FIXED)
     joint_xml->SetAttribute("type", "fixed");
-  else
+  //else
     //CONSOLE_BRIDGE_logError("ERROR:  Joint [%s] type [%d] is not a defined type.\n",joint.name.c_str(), joint.type);
 
   // origin
-- 
2.43.0


From c3ed89055a91f13fa7b3c6bd8eaaa98a7922c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 12/26] fix: export numbers with all their digits

---
 urdf_parser/src/pose.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urdf_parser/src/pose.cpp b/urdf_parser/src/pose.cpp
index 2b5961f..a7353fe 100644
--- a/urdf_parser/src/pose.cpp
+++ b/urdf_parser/src/pose.cpp
@@ -37,6 +37,8 @@
 
 #include <urdf_model/pose.h>
 #include <fstream>
+#include <limits>
+#include <locale>
 #include <sstream>
 #include <algorithm>
 //#include <console_bridge/console.h>
@@ -48,6 +50,8 @@ namespace urdf_export_helpers {
 std::string values2str(unsigned int count, const double *values, double (*conv)(double))
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
+    ss.precision(std::numeric_limits<double>::max_digits10);
     for (unsigned int i = 0 ; i < count ; i++)
     {
         if (i > 0)
-- 
2.43.0


From 0bb5b03c57eb237344235088b4e60fbf848f2620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 13/26] fix: accept any white space between the components of a
 vector

---
 urdf_parser/include/urdf_model/color.h | 2 +-
 urdf_parser/include/urdf_model/pose.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/urdf_parser/include/urdf_model/color.h b/urdf_parser/include/urdf_model/color.h
index 2886571..f377063 100644
--- a/urdf_parser/include/urdf_model/color.h
+++ b/urdf_parser/include/urdf_model/color.h
@@ -67,7 +67,7 @@ public:
     this->clear();
     std::vector<std::string> pieces;
     std::vector<float> rgba;
-    urdf::split_string( pieces, vector_str, " ");
+    urdf::split_string( pieces, vector_str, " \t\n\r");
     for (unsigned int i = 0; i < pieces.size(); ++i)
     {
       if (!pieces[i].empty())
diff --git a/urdf_parser/include/urdf_model/pose.h b/urdf_parser/include/urdf_model/pose.h
index 691a96e..7957a06 100644
--- a/urdf_parser/include/urdf_model/pose.h
+++ b/urdf_parser/include/urdf_model/pose.h
@@ -72,7 +72,7 @@ public:
     this->clear();
     std::vector<std::string> pieces;
     std::vector<double> xyz;
-    urdf::split_string( pieces, vector_str, " ");
+    urdf::split_string( pieces, vector_str, " \t\n\r");
     for (unsigned int i = 0; i < pieces.size(); ++i){
       if (pieces[i] != ""){
         try {
-- 
2.43.0


From a917541e8e994133535c2800812fe8ffde2ed97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 14/26] fix: refuse a link without a name

---
 urdf_parser/src/model.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/urdf_parser/src/model.cpp b/urdf_parser/src/model.cpp
index e246e9e..51def5e 100644
--- a/urdf_parser/src/model.cpp
+++ b/urdf_parser/src/model.cpp
@@ -173,6 +173,12 @@ ModelInterfaceSharedPtr  parseURDF(const std::string &xml_string)
 
     try {
       parseLink(*link, link_xml);
+      if (!link_xml->Attribute("name"))
+      {
+        //CONSOLE_BRIDGE_logError("unnamed link found");
+        model.reset();
+        return model;
+      }
       if (model->getLink(link->name))
       {
         //CONSOLE_BRIDGE_logError("link '%s' is not unique.", link->name.c_str());
-- 
2.43.0


From 07b80416aeb7c4cac7080b1bb8019ee14e78f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 15/26] fix: solve_com_fk accepts a single configuration like
 solve_fk does

---
 python/tinyfk/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 40376b7..1854bc6 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -170,8 +170,8 @@ class KinematicModel:
 
         if not isinstance(qs, np.ndarray):
             qs = np.array(qs)
-            if qs.ndim == 1:
-                qs = np.expand_dims(qs, axis=0)
+        if qs.ndim == 1:
+            qs = np.expand_dims(qs, axis=0)
         assert isinstance(qs, np.ndarray)
         n_seq, n_dof = qs.shape
 
-- 
2.43.0


From bc0808fd67abbc4867a26b847e320d287428be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 16/26] fix: solve_com_fk with a planar base returns the
 columns of x, y and yaw only

---
 python/tinyfk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 1854bc6..0533845 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -193,6 +193,11 @@ class KinematicModel:
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
         )
+        if base_type == BaseType.PLANER:
+            extrac_indices = np.hstack(
+                (np.arange(n_joint), np.array([n_joint, n_joint + 1, n_joint + 5]))
+            )
+            J = J[:, extrac_indices]
         return P, J
 
     def compute_total_inertia_matrix(self, q: np.ndarray, joint_ids: List[int]) -> np.ndarray:
-- 
2.43.0


From d3385103a8a500fb450abcc7279589c14955cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 17/26] fix: get_base_pose returns the base pose that was set

---
 src/wrapper.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index d5b1419..d952d8f 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -6,6 +6,8 @@ tinyfk: https://github.com/HiroIshida/tinyfk
 
 #include "tinyfk.hpp"
 #include <Eigen/Dense>
+#include <algorithm>
+#include <array>
 #include <pybind11/detail/common.h>
 #include <pybind11/eigen.h>
 #include <pybind11/pybind11.h>
@@ -23,6 +25,7 @@ public:
   using KinematicModel::KinematicModel;
 
   void set_base_pose(std::vector<double>::const_iterator begin) {
+    std::copy(begin, begin + 6, base_xyzrpy_.begin());
     auto pose = Transform();
     pose.position.x = *begin;
     ++begin;
@@ -42,15 +45,9 @@ public:
   }
 
   std::vector<double> get_base_pose() {
-    std::vector<double> base_vec(6);
-    base_vec.at(0) = this->base_pose_.position[0];
-    base_vec.at(1) = this->base_pose_.position[1];
-    base_vec.at(2) = this->base_pose_.position[2];
-    const auto rpy = this->base_pose_.rotation.getRPY();
-    base_vec.at(3) = rpy.x;
-    base_vec.at(4) = rpy.y;
-    base_vec.at(5) = rpy.z;
-    return base_vec;
+    // as it was set: the conversion from the rotation is inaccurate near the
+    // singularity of roll-pitch-yaw
+    return std::vector<double>(base_xyzrpy_.begin(), base_xyzrpy_.end());
   }
 
   std::string get_root_link_name() {
@@ -241,6 +238,9 @@ public:
                     std::array<double, 3> rotation) {
     KinematicModel::add_new_link(link_name, parent_id, position, rotation);
   }
+
+private:
+  std::array<double, 6> base_xyzrpy_{};
 };
 
 PYBIND11_MODULE(_tinyfk, m) {
-- 
2.43.0


From 4469d314b62d4b3c8bc08b1b747fd8e120605f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 18/26] fix: copies and pickles carry all added links and the
 current configuration

---
 python/tinyfk/__init__.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 0533845..6b80345 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -77,9 +77,6 @@ class KinematicModel:
     def set_q(
         self, joint_ids: List[int], q: np.ndarray, base_type: BaseType = BaseType.FIXED
     ) -> None:
-        args = [joint_ids, q, base_type]
-        self._set_joint_angles_history.append(args)
-
         if base_type == BaseType.PLANER:
             assert len(q) == len(joint_ids) + 3, "{} != {}".format(len(q), len(joint_ids) + 3)
             joint_angles, base_xytheta = q[:-3], q[-3:]
@@ -228,13 +225,14 @@ class KinematicModel:
     def add_new_link(
         self, link_name: str, parent_id: int, position: np.ndarray, rpy: Optional[np.ndarray] = None
     ):
-        args = [link_name, parent_id, position, rpy]
-        self._add_new_link_history.append(args)
-
         if rpy is None:
             rpy = np.zeros(3)
         self._robot.add_new_link(link_name, parent_id, position, rpy)
 
+        # the link is recorded only if it has been added, with values of its own
+        args = [link_name, parent_id, np.array(position), np.array(rpy)]
+        self._add_new_link_history.append(args)
+
     def compute_inter_link_sqdists(
         self,
         qs: Union[List[np.ndarray], np.ndarray],
@@ -280,16 +278,24 @@ class KinematicModel:
     def __getstate__(self):  # pickling
         state = self.__dict__.copy()
         state["_robot"] = None
+        state["_add_new_link_history"] = copy.deepcopy(self._add_new_link_history)
+        # the current configuration, whichever calls have led to it
+        joint_ids = self.get_joint_ids(self.get_joint_names())
+        q = self.get_q(joint_ids, BaseType.FLOATING)
+        state["_set_joint_angles_history"] = [[joint_ids, q, BaseType.FLOATING]]
         return state
 
     def __setstate__(self, state):  # unpickling
         self.__dict__.update(state)
         self._robot = _tinyfk.RobotModel(self._xml_text)
 
-        for arg in copy.deepcopy(self._add_new_link_history):
-            self.add_new_link(*arg)
-
-        for arg in copy.deepcopy(self._set_joint_angles_history):
-            self.set_q(*arg)
+        add_new_link_history = self._add_new_link_history
+        set_joint_angles_history = self._set_joint_angles_history
         self._add_new_link_history = []
         self._set_joint_angles_history = []
+
+        for arg in add_new_link_history:
+            self.add_new_link(*arg)  # this records the link again
+
+        for arg in set_joint_angles_history:
+            self.set_q(*arg)
-- 
2.43.0


From 6c42444d8aeeee10522e5923117f34352fa297d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 19/26] fix: an empty sequence of configurations with a
 floating base

---
 src/wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index d952d8f..5750c96 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -68,7 +68,8 @@ public:
     auto n_joints = joint_ids.size();
     auto n_dof = (with_base ? n_joints + 6 : n_joints);
 
-    if (with_base && (n_joints != joint_angles_sequence[0].size() - 6)) {
+    if (with_base && n_wp > 0 &&
+        (n_joints != joint_angles_sequence[0].size() - 6)) {
       throw std::invalid_argument(
           "dof mismatch!! Probably you forget base's (x, y, theta)");
       // TODO this check try to prevent the potentionally buggy procedure below
-- 
2.43.0


From f5571453e08fa3ba0a08627391b57ce8a22b358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:03 +0000
Subject: [PATCH 20/26] fix: Jacobians of a robot without any inertial data

---
 src/tinyfk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinyfk.cpp b/src/tinyfk.cpp
index 48141cf..0e37d47 100644
--- a/src/tinyfk.cpp
+++ b/src/tinyfk.cpp
@@ -88,6 +88,7 @@ KinematicModel::KinematicModel(const std::string &xml_string) {
   num_dof_ = num_dof;
   total_mass_ = total_mass;
   joint_angles_ = joint_angles;
+  this->update_rptable(); // there may be no link to add below
 
   // add COM of each link as new link
   {
-- 
2.43.0


From efbc059219e137e6b52850d73d246dab2f8bb55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 21/26] fix: export the names of visuals and collisions

---
 urdf_parser/src/link.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urdf_parser/src/link.cpp b/urdf_parser/src/link.cpp
index 009a7e0..61f6301 100644
--- a/urdf_parser/src/link.cpp
+++ b/urdf_parser/src/link.cpp
@@ -615,6 +615,8 @@ bool exportVisual(Visual &vis, TiXmlElement *xml)
   //   <material name="Grey"/>
   // </visual>
   TiXmlElement * visual_xml = new TiXmlElement("visual");
+  if (!vis.name.empty())
+    visual_xml->SetAttribute("name", vis.name);
 
   exportPose(vis.origin, visual_xml);
 
@@ -638,6 +640,8 @@ bool exportCollision(Collision &col, TiXmlElement* xml)
   //   <material name="Grey"/>
   // </collision>
   TiXmlElement * collision_xml = new TiXmlElement("collision");
+  if (!col.name.empty())
+    collision_xml->SetAttribute("name", col.name);
 
   exportPose(col.origin, collision_xml);
 
-- 
2.43.0


From 93cf2129e0354664c3710a839581d93a39a83218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 22/26] fix: export the filename of a mesh even when it is
 empty

---
 urdf_parser/src/link.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/urdf_parser/src/link.cpp b/urdf_parser/src/link.cpp
index 61f6301..85047ef 100644
--- a/urdf_parser/src/link.cpp
+++ b/urdf_parser/src/link.cpp
@@ -537,8 +537,7 @@ bool exportMesh(Mesh &m, TiXmlElement *xml)
 {
   // e.g. add <mesh filename="my_file" scale="1 1 1"/>
   TiXmlElement *mesh_xml = new TiXmlElement("mesh");
-  if (!m.filename.empty())
-    mesh_xml->SetAttribute("filename", m.filename);
+  mesh_xml->SetAttribute("filename", m.filename);
   mesh_xml->SetAttribute("scale", urdf_export_helpers::values2str(m.scale));
   xml->LinkEndChild(mesh_xml);
   return true;
-- 
2.43.0


From 76a24e16d3003412506438905d68454982814354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 23/26] fix: the batched distances, the balance point and the
 inertia read past the end of arguments of the wrong length

---
 python/tinyfk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/tinyfk/__init__.py b/python/tinyfk/__init__.py
index 6b80345..bad511b 100644
--- a/python/tinyfk/__init__.py
+++ b/python/tinyfk/__init__.py
@@ -187,6 +187,7 @@ class KinematicModel:
         if action_link_ids is None:
             action_link_ids = []
             action_forces = []
+        assert len(action_forces) == len(action_link_ids)
         P, J = self._robot.solve_com_forward_kinematics(
             qs, joint_ids, action_link_ids, action_forces, with_base, with_jacobian
         )
@@ -198,6 +199,7 @@ class KinematicModel:
         return P, J
 
     def compute_total_inertia_matrix(self, q: np.ndarray, joint_ids: List[int]) -> np.ndarray:
+        assert len(q) == len(joint_ids), "{} != {}".format(len(q), len(joint_ids))
         return self._robot.compute_total_inertia_matrix(q, joint_ids)
 
     def get_joint_names(self) -> List[str]:
@@ -243,6 +245,9 @@ class KinematicModel:
         use_cache: bool = False,
     ) -> Tuple[np.ndarray, np.ndarray]:
 
+        n_base = {BaseType.FIXED: 0, BaseType.PLANER: 3, BaseType.FLOATING: 6}[base_type]
+        for q in qs:
+            assert len(q) == len(joint_ids) + n_base
         if base_type == BaseType.PLANER:
             if isinstance(qs, list):
                 qs = np.array(qs)
-- 
2.43.0


From b02d09e9e89c904859d3b688483f330cea89f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 24/26] fix: parsing a deeply nested document overflowed the
 stack

---
 urdf_parser/tinyxml/tinyxmlparser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/urdf_parser/tinyxml/tinyxmlparser.cpp b/urdf_parser/tinyxml/tinyxmlparser.cpp
index 81b7eae..e885c9c 100644
--- a/urdf_parser/tinyxml/tinyxmlparser.cpp
+++ b/urdf_parser/tinyxml/tinyxmlparser.cpp
@@ -1063,6 +1063,16 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		return 0;
 	}
 
+	// Elements are parsed and destroyed recursively: bound the depth of the recursion.
+	int depth = 0;
+	for ( const TiXmlNode* node = parent; node; node = node->Parent() )
+		++depth;
+	if ( depth > 1000 )
+	{
+		if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, p, data, encoding );
+		return 0;
+	}
+
 	p = SkipWhiteSpace( p+1, encoding );
 
 	// Read the name.
-- 
2.43.0


From 790748fb586e28ec1cdfb57dff57916bf673a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 25/26] fix: refused descriptions with a cycle were never given
 back

---
 urdf_parser/src/model.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/urdf_parser/src/model.cpp b/urdf_parser/src/model.cpp
index 51def5e..f57a704 100644
--- a/urdf_parser/src/model.cpp
+++ b/urdf_parser/src/model.cpp
@@ -88,6 +88,16 @@ bool assignMaterial(const VisualSharedPtr& visual, ModelInterfaceSharedPtr& mode
   return true;
 }
 
+// drop a model whose links do not form a tree: links on a cycle keep each other
+static void dropModel(ModelInterfaceSharedPtr &model)
+{
+  for (auto &link : model->links_)
+  {
+    link.second->child_links.clear();
+  }
+  model.reset();
+}
+
 ModelInterfaceSharedPtr  parseURDF(const std::string &xml_string)
 {
   ModelInterfaceSharedPtr model(new ModelInterface);
@@ -256,7 +266,7 @@ ModelInterfaceSharedPtr  parseURDF(const std::string &xml_string)
   catch(ParseError &e)
   {
     //CONSOLE_BRIDGE_logError("Failed to build tree: %s", e.what());
-    model.reset();
+    dropModel(model);
     return model;
   }
 
@@ -268,7 +278,7 @@ ModelInterfaceSharedPtr  parseURDF(const std::string &xml_string)
   catch(ParseError &e)
   {
     //CONSOLE_BRIDGE_logError("Failed to find root link: %s", e.what());
-    model.reset();
+    dropModel(model);
     return model;
   }
   
-- 
2.43.0


From 370a4bbaa41191c20153e954ca3d7605971f0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 26/26] fix: dropping a description with a very long chain of
 links overflowed the stack

---
 urdf_parser/include/urdf_model/link.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/urdf_parser/include/urdf_model/link.h b/urdf_parser/include/urdf_model/link.h
index 18f2a3d..59d8cca 100644
--- a/urdf_parser/include/urdf_model/link.h
+++ b/urdf_parser/include/urdf_model/link.h
@@ -189,6 +189,26 @@ class Link
 {
 public:
   Link() { this->clear(); };
+  Link(const Link &) = default;
+  Link &operator=(const Link &) = default;
+
+  // one link after the other: left to themselves, the links of a long chain
+  // would be destroyed recursively
+  ~Link()
+  {
+    std::vector<LinkSharedPtr> links;
+    links.swap(this->child_links);
+    while (!links.empty())
+    {
+      LinkSharedPtr link = links.back();
+      links.pop_back();
+      if (link.use_count() == 1)
+      {
+        links.insert(links.end(), link->child_links.begin(), link->child_links.end());
+        link->child_links.clear();
+      }
+    }
+  };
 
   std::string name;
 
-- 
2.43.0

