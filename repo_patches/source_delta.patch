From bfe9052996c40340e4e239b9341244693ee3c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 01/36] fix: make index equality constraints (IB) usable as
 objectives

ConstraintsIB called getATb()/addATb() which its parents do not provide, so
any task of type TaskIB failed to compile.
---
 core/include/humoto/constraints.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/constraints.h b/core/include/humoto/constraints.h
index d2e2ae6..bc50a0b 100644
--- a/core/include/humoto/constraints.h
+++ b/core/include/humoto/constraints.h
@@ -981,7 +981,18 @@ namespace humoto
                 ConstraintsIB() {}
 
 
+                /// @copydoc humoto::constraints::BoundsB0Mixin::getATb
+                void addATb(Eigen::VectorXd &g) const
+                {
+                    for (EigenIndex i = 0; i < getIndices().rows(); ++i)
+                    {
+                        g[getIndices()[i]] += getB()[i];
+                    }
+                }
+
+
             public:
+                using HUMOTO_PARENT_CLASS_SHORTHAND::getNumberOfVariables;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getIndices;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getB;
 
@@ -1006,7 +1017,8 @@ namespace humoto
                 void getATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::getATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::getATb(g);
+                    g.setZero(getNumberOfVariables());
+                    addATb(g);
                 }
 
 
@@ -1014,7 +1026,7 @@ namespace humoto
                 void addATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::addATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::addATb(g);
+                    addATb(g);
                 }
         };
 #undef HUMOTO_PARENT_CLASS_SHORTHAND
-- 
2.43.0


From af8b185f0a7ff849a63ccf4a3827031f92890a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:11 +0000
Subject: [PATCH 02/36] fix: drop constraints of the previous problem when a
 one-level hierarchy is converted to a QP

---
 core/include/humoto/hierarchy.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 131c12f..62d30f5 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -344,6 +344,11 @@ namespace humoto
                 {
                     qp_problem.initializeConstraints(hierarchy_[0], sol_structure);
                 }
+                else
+                {
+                    // no constraints: drop those of the previously stored problem
+                    qp_problem.initializeConstraints(HierarchyLevel(), sol_structure);
+                }
             }
     };
 }
-- 
2.43.0


From 179f1b64484dc048254f4ac90136b443205171f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:43 +0000
Subject: [PATCH 03/36] fix: put the first output matrix of condenseOutput with
 several controls on the first diagonal block

---
 core/include/humoto/control_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/control_problem.h b/core/include/humoto/control_problem.h
index c4da964..a4a9aa6 100644
--- a/core/include/humoto/control_problem.h
+++ b/core/include/humoto/control_problem.h
@@ -167,7 +167,7 @@ namespace humoto
 
                 for (std::size_t i = 0; i < Uu.size(); ++i)
                 {
-                    Ou[i](N-1, N-1) = E[0].block( 0,
+                    Ou[i](0, 0) = E[0].block( 0,
                                                   control_offsets[i],
                                                   t_num_outputs,
                                                   Uu[i].getBlockColsNum());
-- 
2.43.0


From ce868d5c0a5b73614a6c5d04221b9ffde534ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 04/36] fix: interpolate the final position and velocity when a
 cubic starts or ends with non-zero velocity

---
 core/include/rigid_body/cubic_polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/rigid_body/cubic_polynomial.h b/core/include/rigid_body/cubic_polynomial.h
index 8c76869..971fc8d 100644
--- a/core/include/rigid_body/cubic_polynomial.h
+++ b/core/include/rigid_body/cubic_polynomial.h
@@ -82,8 +82,8 @@ namespace humoto
                 {
                     a0_ = a;
                     a1_ = adot;
-                    a2_ =  3.0*(b - a) - 2.0*(adot - bdot);
-                    a3_ = -2.0*(b - a) + 1.0*(bdot - adot);
+                    a2_ =  3.0*(b - a) - 2.0*adot - bdot;
+                    a3_ = -2.0*(b - a) + adot + bdot;
                 }
 
 
-- 
2.43.0


From 036d025ca5e0381067f0de096596f24ad09699c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:37 +0000
Subject: [PATCH 05/36] fix: evaluate the vertical foot trajectory in the same
 time scale as the horizontal one

---
 core/include/walking/foot_trajectory.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/core/include/walking/foot_trajectory.h b/core/include/walking/foot_trajectory.h
index 3ba7b77..34b2031 100644
--- a/core/include/walking/foot_trajectory.h
+++ b/core/include/walking/foot_trajectory.h
@@ -66,8 +66,8 @@ namespace humoto
                     HUMOTO_ASSERT(b(2) <= (a(2) + step_height), "final z position greater than step height.")
                     x_.initialize( a(0),               adot(0), b(0),               bdot(0));
                     y_.initialize( a(1),               adot(1), b(1),               bdot(1));
-                    z1_.initialize(a(2),               adot(2), a(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a(2), 0.0,     b(2),               bdot(2));
+                    z1_.initialize(a(2),               adot(2)/2, a(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a(2), 0.0,       b(2),               bdot(2)/2);
                 }
 
 
@@ -92,8 +92,8 @@ namespace humoto
                                        b.rpy_(humoto::AngleIndex::YAW),
                                        b.angular_velocity_(humoto::AngleIndex::YAW));
                     
-                    z1_.initialize(a.position_(2),               a.velocity_(2), a.position_(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a.position_(2), 0.0,            b.position_(2),               b.velocity_(2));
+                    z1_.initialize(a.position_(2),               a.velocity_(2)/2, a.position_(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a.position_(2), 0.0,              b.position_(2),               b.velocity_(2)/2);
                 }
 
 
@@ -127,13 +127,27 @@ namespace humoto
                 double evalz(   const double t,
                                 const rigidbody::TrajectoryEvaluationType::Type trajectory_type) const
                 {
+                    // each half is a polynomial of a time running twice as fast as t
+                    double scale = 1.0;
+                    switch (trajectory_type)
+                    {
+                        case rigidbody::TrajectoryEvaluationType::VELOCITY:
+                            scale = 2.0;
+                            break;
+                        case rigidbody::TrajectoryEvaluationType::ACCELERATION:
+                            scale = 4.0;
+                            break;
+                        default:
+                            break;
+                    }
+
                     if (t <= 0.5)
                     {
-                        return (z1_.eval(t*2, trajectory_type));
+                        return (scale * z1_.eval(t*2, trajectory_type));
                     }
                     else
                     {
-                        return (z2_.eval((t-0.5)*2, trajectory_type));
+                        return (scale * z2_.eval((t-0.5)*2, trajectory_type));
                     }
                 }
                 
-- 
2.43.0


From 50eb5a0d772e2eb2acdfb7401994026fa533b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:01 +0000
Subject: [PATCH 06/36] fix: do not plan steps when the first single support is
 undefined

---
 core/include/walking/stance_finite_state_machine.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 528bf6c..e9000a9 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -236,7 +236,6 @@ namespace humoto
                 {
                     HUMOTO_ASSERT(sfsm_params_.num_steps_ != 1, "Unsupported number of steps.");
 
-                    ss_states_to_termination_                    = sfsm_params_.num_steps_;
                     current_time_ms_                             = 0;
                     is_tds_started_                              = false;
                     current_stance_.previous_nontds_stance_type_ = StanceType::UNDEFINED;
@@ -272,6 +271,9 @@ namespace humoto
                             HUMOTO_THROW_MSG("Misformed walking options.");
                             break;
                     }
+
+                    // must follow the switch: it cancels steps if there is no foot to make them with
+                    ss_states_to_termination_ = sfsm_params_.num_steps_;
                 }
 
 
-- 
2.43.0


From 52502be4bd9c98d5df78a66877c7398058ed4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:01 +0000
Subject: [PATCH 07/36] fix: previewing zero time must not read the last stance
 of an empty list

---
 core/include/walking/stance_finite_state_machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index e9000a9..b8af1a5 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -358,7 +358,7 @@ namespace humoto
             }
 
             //always add one state afted TDS
-            if((not_enough_states == false) && (stance_types.back().type_ == StanceType::TDS))
+            if((not_enough_states == false) && (stance_types.empty() == false) && (stance_types.back().type_ == StanceType::TDS))
             {
                 if(stance_fsm.current_stance_.type_ == StanceType::TDS)
                 {
-- 
2.43.0


From c3d7ec1c095e99713236eeaa95d4deb2519df821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:22 +0000
Subject: [PATCH 08/36] fix: a selection of rows in blocks keeps the block
 columns, not the block rows

---
 core/include/eigentools/blockmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/blockmatrix.h b/core/include/eigentools/blockmatrix.h
index 4a7733d..19525e0 100644
--- a/core/include/eigentools/blockmatrix.h
+++ b/core/include/eigentools/blockmatrix.h
@@ -203,7 +203,7 @@ namespace etools
                                                         EIGENTOOLS_BLOCKMATRIX_BLOCK_ROWS_NUM,
                                                         row_in_a_block),
                                      MatrixBlockSizeType::UNDEFINED,
-                                     ((t_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_rows_num_)));
+                                     ((t_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_cols_num_)));
             }
 
 
-- 
2.43.0


From 25f8a28890651a9776115f182c3554b69260b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:09 +0000
Subject: [PATCH 09/36] fix: Kronecker products of scalar blocks accept any
 result matrix and dynamic block sizes

---
 .../eigentools/blockmatrix_kronecker.h        | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index 08cf696..3233905 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -613,12 +613,15 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.resize(identity_size_ * matrix_.rows(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.resize(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                MatrixSparsityType::NONE >   result_bmi(
+                                    result,
+                                    (t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum(),
+                                    (t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum());
 
                 if (num_blocks_hor_ != 0)
                 {
@@ -831,12 +834,15 @@ namespace etools
 
 
 
+                result.setZero(identity_size_ * matrix_.rows(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived>   &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                MatrixSparsityType::NONE >   result_bmi(
+                                    result,
+                                    (t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum(),
+                                    (t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum());
 
                 if (num_blocks_hor_ != 0)
                 {
@@ -882,12 +888,15 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.setZero(identity_size_ * matrix_.rows(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<    Eigen::PlainObjectBase<t_Derived> &,
                                     t_dbm_block_rows_num,
                                     t_dbm_block_cols_num,
-                                    MatrixSparsityType::NONE >   result_bmi(result);
-
-                result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
+                                    MatrixSparsityType::NONE >   result_bmi(
+                                        result,
+                                        (t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum(),
+                                        (t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum());
 
                 if (num_blocks_hor_ != 0)
                 {
-- 
2.43.0


From d2fa311ad1693ff019d0dbf4f4d6f261ca8c99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:07 +0000
Subject: [PATCH 10/36] fix: leave out consecutive empty matrices in vertical
 concatenation

---
 core/include/eigentools/eigentools.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 8a4cc53..574ef82 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -480,13 +480,17 @@ namespace etools
             std::ptrdiff_t total_number_of_rows = 0;
             std::ptrdiff_t number_of_cols = 0;
 
-            for(std::size_t i = 0; i < number_of_matrices; ++i)
+            for(std::size_t i = 0; i < number_of_matrices; )
             {
                 if(!nonempty_matrices[i].size())
                 {
                     nonempty_matrices.erase(nonempty_matrices.begin() + i);
                     --number_of_matrices;
                 }
+                else
+                {
+                    ++i;
+                }
             }
 
             if(!number_of_matrices)
-- 
2.43.0


From 4bb1094af4ae90d81a0f0c4b798e67b50a76827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:07 +0000
Subject: [PATCH 11/36] fix: check the index of a removed row or column against
 the right dimension

---
 core/include/eigentools/eigentools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 574ef82..800905a 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -641,7 +641,7 @@ namespace etools
             removeRow(  Eigen::PlainObjectBase<t_Derived> & matrix,
                         const std::ptrdiff_t row_to_remove)
     {
-        EIGENTOOLS_ASSERT(row_to_remove <= matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(row_to_remove < matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows()-1;
         std::ptrdiff_t number_of_cols = matrix.cols();
@@ -673,7 +673,7 @@ namespace etools
             removeColumn(   Eigen::PlainObjectBase<t_Derived> & matrix,
                             const std::ptrdiff_t column_to_remove)
     {
-        EIGENTOOLS_ASSERT(column_to_remove <= matrix.rows(), "The index of a removed column is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(column_to_remove < matrix.cols(), "The index of a removed column is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows();
         std::ptrdiff_t number_of_cols = matrix.cols()-1;
-- 
2.43.0


From 6517e3c1137b1f175a7809e4f54d5bcaa93bf9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:07 +0000
Subject: [PATCH 12/36] fix: Matrix1x2 has two columns

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 800905a..aaeb801 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -83,7 +83,7 @@ namespace etools
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(9, 9)  Matrix9;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(10, 10)  Matrix10;
 
-    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 1)  Matrix1x2;
+    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 2)  Matrix1x2;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 3)  Matrix1x3;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 4)  Matrix1x4;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 5)  Matrix1x5;
-- 
2.43.0


From 61101aa0864c2ca3ba3fca1da6cb4da5600a22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:15 +0000
Subject: [PATCH 13/36] fix: accept consecutive states within a transitional
 double support

---
 modules/wpg04/include/wpg04/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wpg04/include/wpg04/model.h b/modules/wpg04/include/wpg04/model.h
index 390ca83..3ebe663 100644
--- a/modules/wpg04/include/wpg04/model.h
+++ b/modules/wpg04/include/wpg04/model.h
@@ -189,6 +189,7 @@ namespace humoto
                                     break;
 
                                 case humoto::walking::StanceType::DS:
+                                case humoto::walking::StanceType::TDS:
                                     // no need to update positions of the feet (they must not change)
                                     break;
 
-- 
2.43.0


From 7157ada37437614efe4e2a09995035ee8667fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:15 +0000
Subject: [PATCH 14/36] fix: form one rotation matrix per variable footstep

---
 modules/wpg04/include/wpg04/mpc_wpg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 1712b2f..21ca96f 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -35,7 +35,8 @@ namespace humoto
                     Rh_.setZero(preview_horizon_.intervals_.size());
 
                     std::size_t index = 0;
-                    for(std::size_t i=0; i < (preview_horizon_.walk_states_.size() - 1); ++i)
+                    // the last stances of the preview may start after the last interval
+                    for(std::size_t i=0; index < preview_horizon_.getNumberOfVariableSteps(); ++i)
                     {
                         if (humoto::walking::StanceType::TDS != preview_horizon_.walk_states_[i].type_)
                         {
-- 
2.43.0


From b9fd31fe974d79229e5815418e3916cb5ff24ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:51 +0000
Subject: [PATCH 15/36] fix: apply a changed gain in TaskZeroVariables

---
 core/include/humoto/task_generic.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/task_generic.h b/core/include/humoto/task_generic.h
index 315a347..3ea073c 100644
--- a/core/include/humoto/task_generic.h
+++ b/core/include/humoto/task_generic.h
@@ -34,6 +34,9 @@ namespace humoto
         private:
             Location        location_of_variables_;
 
+            /// gain used when the task was formed the last time
+            double          formed_gain_;
+
             std::string     variables_id_;
 
 
@@ -63,6 +66,7 @@ namespace humoto
                 : TaskGIB0(task_id.c_str(), gain)
             {
                 location_of_variables_.set(0,0);
+                formed_gain_ = gain;
 
                 variables_id_ = variables_id;
             }
@@ -91,10 +95,11 @@ namespace humoto
                 }
 
 
-                if ( location_of_variables != location_of_variables_ )
+                if ( (location_of_variables != location_of_variables_) || (getGain() != formed_gain_) )
                 {
                     // Task was modified
                     location_of_variables_ = location_of_variables;
+                    formed_gain_ = getGain();
 
 
                     humoto::IndexVector &I  = getIndices();
-- 
2.43.0


From ca6428a45d6e89517dd27e7cb61650a425e6c9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 16/36] fix: apply the controls of the requested interval in
 MPCforMG::getModelState

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 2fd0c85..d463d19 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -318,8 +318,8 @@ namespace humoto
                                         preview_horizon_.intervals_[interval_index].T_,
                                         interval_offset,
                                         preceding_cstate,
-                                        base_controls_.head(2),
-                                        body_controls_.head(2),
+                                        base_control,
+                                        body_control,
                                         base_height,
                                         body_height,
                                         theta);
-- 
2.43.0


From 033c9a30f6253c20f3677fc0ae60d6554c8decb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 17/36] fix: do not swap the heights of base and body in
 ModelState

---
 modules/pepper_mpc/include/pepper_mpc/model_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model_state.h b/modules/pepper_mpc/include/pepper_mpc/model_state.h
index 6fbd542..59370c7 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model_state.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model_state.h
@@ -99,7 +99,7 @@ namespace humoto
                             const double body_height,
                             const double body_x_offset)
                 {
-                    setParameters(body_height, base_height, body_x_offset);
+                    setParameters(base_height, body_height, body_x_offset);
                 }
 
 
-- 
2.43.0


From 747604564507aa23143615861700b6788ced9f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 18/36] fix: correct the sign of the right hand side of
 TaskBodyPositionReference

---
 modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
index 69ed918..6d86b62 100644
--- a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
+++ b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
@@ -34,7 +34,7 @@ namespace humoto
                     Eigen::VectorXd     &b    = getB();
 
                     A.noalias() = getGain()*mpc.Apd_;
-                    b.noalias() = getGain()*mpc.spd_;
+                    b.noalias() = -getGain()*mpc.spd_;
                 }
         };
     }//pepper
-- 
2.43.0


From 790f50510cc15ff82722393c0c2a90f4e5643fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 19/36] fix: keep the masses of the model in the states
 returned by MPCforMG

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index d463d19..093337e 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -49,7 +49,7 @@ namespace humoto
                 humoto::pepper_mpc::ModelState   initializeNextModelState(
                         const humoto::pepper_mpc::Model                      &model) const
                 {
-                    humoto::pepper_mpc::ModelState model_state;
+                    humoto::pepper_mpc::ModelState model_state = model.state_;
 
 
                     double T     = preview_horizon_.intervals_[0].T_;
@@ -312,7 +312,7 @@ namespace humoto
                     body_control = body_controls_.segment(interval_index*2, 2);
 
 
-                    humoto::pepper_mpc::ModelState  model_state;
+                    humoto::pepper_mpc::ModelState  model_state = model.state_;
 
                     model.getNextState( model_state,
                                         preview_horizon_.intervals_[interval_index].T_,
-- 
2.43.0


From ef98a91e77d00887dca9fd3e1962af344f7455ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 20/36] fix: allow MPCforMG to be reused with another preview
 horizon length

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 093337e..4adebe2 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -162,6 +162,7 @@ namespace humoto
 
                     std::size_t number_of_state_variables = model.Ns_ * mpc_parameters_.preview_horizon_length_;
 
+                    S_.resize(number_of_state_variables, sol_structure_.getNumberOfVariables());
                     etools::BlockMatrixInterface<   etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixBlockSizeType::DYNAMIC,
                                                             etools::MatrixSparsityType::NONE> S_bmi( S_,
-- 
2.43.0


From 29e39653e24567021e264b3f1c4fdcfdb2213b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 21/36] fix: write matrices row by row in the MessagePack
 writer, as the reader expects

---
 bridges/config_msgpack/interface/config_msgpack/writer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/writer.h b/bridges/config_msgpack/interface/config_msgpack/writer.h
index 31dc8c8..fc1ee8d 100644
--- a/bridges/config_msgpack/interface/config_msgpack/writer.h
+++ b/bridges/config_msgpack/interface/config_msgpack/writer.h
@@ -139,9 +139,13 @@ namespace humoto
                         packer_->pack("data");
                         packer_->pack_array(entry.size());
 
-                        for (humoto::EigenIndex i = 0; i < entry.size(); ++i)
+                        // row by row, as expected by the reader
+                        for (humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            packer_->pack(entry.data()[i]);
+                            for (humoto::EigenIndex j = 0; j < entry.cols(); ++j)
+                            {
+                                packer_->pack(entry(i, j));
+                            }
                         }
 
                         ascend();
-- 
2.43.0


From 7b37bec4ab74d485b7f7474bd858446cd6b579c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 22/36] fix: report an error if a fixed size matrix is read
 from an entry of another size

---
 bridges/config_msgpack/interface/config_msgpack/reader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index c4d1168..6507e7a 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -247,6 +247,10 @@ namespace humoto
                             HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
 
+                            HUMOTO_ASSERT(  ((Eigen::Dynamic == t_rows) || (num_rows == t_rows))
+                                            && ((Eigen::Dynamic == t_cols) || (num_cols == t_cols)),
+                                            std::string("Wrong size of the configuration file entry: ") + entry_name);
+
                             Eigen::Map< Eigen::Matrix<  double,
                                                         Eigen::Dynamic,
                                                         Eigen::Dynamic,
-- 
2.43.0


From a067df948dfbca7cbb41949b1d782c1325662db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 23/36] fix: search all entries of the root node in the
 MessagePack reader, which may also be empty

---
 .../config_msgpack/interface/config_msgpack/reader.h  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index 6507e7a..0125ae3 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -122,12 +122,15 @@ namespace humoto
                             {
                                 if (::msgpack::type::MAP == handles_[i]->get().type)
                                 {
-                                    if (child_name == handles_[i]->get().via.map.ptr[0].key.as<std::string>())
+                                    for (std::size_t j = 0; j < handles_[i]->get().via.map.size; ++j)
                                     {
-                                        if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[0].val.type)
+                                        if (child_name == handles_[i]->get().via.map.ptr[j].key.as<std::string>())
                                         {
-                                            node_stack_.push( &(handles_[i]->get().via.map.ptr[0].val) );
-                                            return(true);
+                                            if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[j].val.type)
+                                            {
+                                                node_stack_.push( &(handles_[i]->get().via.map.ptr[j].val) );
+                                                return(true);
+                                            }
                                         }
                                     }
                                 }
-- 
2.43.0


From 707b394c53d2d46d12316da77f8e142f6ece6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 24/36] fix: report unknown task names instead of dereferencing
 a null pointer

---
 core/include/humoto/configurable_optimization_problem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 8200407..9e90cfb 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -150,10 +150,11 @@ namespace humoto
                     for(std::size_t j = 0; j < task_class_names_[i].size(); ++j)
                     {
                         humoto::TaskSharedPointer task = getTask(task_class_names_[i][j]);
-                        task->setDescription(task_ids_[i][j]);
 
                         if (task)
                         {
+                            task->setDescription(task_ids_[i][j]);
+
                             // configure tasks
                             task->readConfig(reader, task_ids_[i][j], crash_on_missing_entry);
                             // push tasks into the stack/hierarchy
-- 
2.43.0


From 1297b1254bcafb085a6b5e9b7deb1a617cc77566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 25/36] fix: restore the defaults of the base class in
 kktsolver::SolverParameters

---
 core/include/kktsolver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/kktsolver.h b/core/include/kktsolver.h
index 31ddbec..4555b1c 100644
--- a/core/include/kktsolver.h
+++ b/core/include/kktsolver.h
@@ -66,6 +66,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
+
                     solution_method_ = LU;
                     elimination_regularization_factor_ = 1e-08;
                 }
-- 
2.43.0


From b62df5ee2968fcc9a0a5b89f49ce264456ab8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 26/36] fix: refuse zero subsampling time in
 wpg04::MPCParameters instead of dividing by it

---
 modules/wpg04/include/wpg04/common.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/wpg04/include/wpg04/common.h b/modules/wpg04/include/wpg04/common.h
index f38829a..af47cc1 100644
--- a/modules/wpg04/include/wpg04/common.h
+++ b/modules/wpg04/include/wpg04/common.h
@@ -113,6 +113,8 @@ namespace humoto
                  */
                 void finalize()
                 {
+                    HUMOTO_ASSERT(subsampling_time_ms_ > 0, "Subsampling time must be positive.");
+
                     if (sampling_time_ms_ % subsampling_time_ms_ == 0)
                     {
                         subsamples_num_ = sampling_time_ms_ / subsampling_time_ms_;
-- 
2.43.0


From fe6ae78c67e1a0401d1f47aa04f44b3d94e765c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 27/36] fix: do not convert a node name given as a string
 literal to bool in constructors

---
 core/include/config/define_accessors.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/include/config/define_accessors.h b/core/include/config/define_accessors.h
index 61eb16e..29dcc2f 100644
--- a/core/include/config/define_accessors.h
+++ b/core/include/config/define_accessors.h
@@ -142,6 +142,16 @@
                 readConfig(reader, node_name, crash_on_missing_entry);
             }
 
+            // Intercept implicit conversion of a pointer to bool.
+            template <class t_Reader>
+                explicit HUMOTO_CONFIG_CONSTRUCTOR(
+                        t_Reader &reader,
+                        const char *node_name,
+                        const bool crash_on_missing_entry = default_crash_on_missing_entry_)
+            {
+                readConfig(reader, node_name, crash_on_missing_entry);
+            }
+
             template <class t_Reader>
                 explicit HUMOTO_CONFIG_CONSTRUCTOR(
                         t_Reader &reader,
-- 
2.43.0


From 59e42814f1bca9aba66767a6886d2f18c8c1d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 28/36] fix: a whole active set can be shifted out (horizons of
 one interval)

---
 core/include/humoto/active_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index d490f07..3a47ba9 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -217,7 +217,7 @@ namespace humoto
             void shift( const std::size_t shift_size,
                         const ConstraintActivationType::Type type)
             {
-                HUMOTO_ASSERT(  shift_size < size(),
+                HUMOTO_ASSERT(  shift_size <= size(),
                                 "Shift size exceeded size of the active set.");
 
                 std::rotate(data_.begin(),
-- 
2.43.0


From 1d322ba463c841c2e9f748611be4f366b40a56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:54 +0000
Subject: [PATCH 29/36] fix: a second solution part with the same id is refused
 instead of losing its variables

---
 core/include/humoto/solution.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/solution.h b/core/include/humoto/solution.h
index d3e6812..a41139a 100644
--- a/core/include/humoto/solution.h
+++ b/core/include/humoto/solution.h
@@ -74,7 +74,10 @@ namespace humoto
             {
                 Location location(number_of_variables_, length);
 
-                variable_map_.insert(std::pair< std::string, Location > (id, location));
+                if (false == variable_map_.insert(std::pair< std::string, Location > (id, location)).second)
+                {
+                    HUMOTO_THROW_MSG(std::string("The solution already has a part with this id: ") + id);
+                }
 
                 number_of_variables_ += length;
             }
-- 
2.43.0


From 1e33fb685fe1c4ce5613cb2d6e2f1d0972e9ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 30/36] fix: forming a task whose number of rows changed drops
 the stale active set guess

---
 core/include/humoto/task.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/humoto/task.h b/core/include/humoto/task.h
index 2ba3e0c..0333f46 100644
--- a/core/include/humoto/task.h
+++ b/core/include/humoto/task.h
@@ -44,6 +44,7 @@ namespace humoto
             void preForm(const std::size_t number_of_variables)
             {
                 is_modified_ = true;
+                active_set_guess_.reset();
 
                 setNumberOfVariables(number_of_variables);
             }
-- 
2.43.0


From bb992102a87f7be725167aff58877c2c61a60dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 31/36] fix: default parameters of the QP solvers include those
 of the base class and of the library

---
 bridges/QuadProgpp/interface/quadprogpp/solver.h |  1 +
 bridges/qpOASES/interface/qpoases/solver.h       |  2 ++
 bridges/qpmad/interface/qpmad/solver.h           | 13 +++++++++----
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solver.h b/bridges/QuadProgpp/interface/quadprogpp/solver.h
index 62484f3..10924a0 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solver.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solver.h
@@ -33,6 +33,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
                 }
 
diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 6cf85a0..cab1689 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -104,6 +104,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
+                    options_.setDefaults();
                     max_number_of_iterations_ = 1000;
                     max_cpu_time_ = 0.0;
                 }
diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index d858a6e..e030008 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -38,14 +38,17 @@ namespace humoto
                         HUMOTO_CONFIG_SCALAR_(max_iter)
                     #include HUMOTO_CONFIG_DEFINE_ACCESSORS
 
-                    protected:
-                        void setDefaults()
+                    public:
+                        QPmadParameters()
                         {
                         }
 
-                    public:
-                        QPmadParameters()
+                        /**
+                         * @brief Initialize to default parameters
+                         */
+                        void setDefaults()
                         {
+                            ::qpmad::SolverParameters::operator=(::qpmad::SolverParameters());
                         }
                 };
 
@@ -59,7 +62,9 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
+                    options_.setDefaults();
                 }
 
                 /**
-- 
2.43.0


From febb47a45fcf74bbce095282b54ec376e20a16a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 32/36] fix: a matrix of a wrong size in a YAML file is an
 error

---
 bridges/config_yaml/interface/config_yaml/reader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index ef54f35..07204c9 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -210,6 +210,10 @@ namespace humoto
                             HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
 
+                            HUMOTO_ASSERT(  ((Eigen::Dynamic == t_rows) || (num_rows == t_rows))
+                                            && ((Eigen::Dynamic == t_cols) || (num_cols == t_cols)),
+                                            std::string("Wrong size of the configuration file entry: ") + entry_name);
+
                             Eigen::Map< Eigen::Matrix<  double,
                                                         Eigen::Dynamic,
                                                         Eigen::Dynamic,
-- 
2.43.0


From 93ae01198f549091b415027f7ac6cdad661a2280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 33/36] fix: matrices are written to YAML files in the order
 they are read

---
 bridges/config_yaml/interface/config_yaml/writer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 95a7d99..dc2f352 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -166,11 +166,12 @@ namespace humoto
                         *emitter_ << YAML::Value << YAML::Flow;
                         *emitter_ << YAML::BeginSeq;
 
-                        for(humoto::EigenIndex i = 0; i < entry.cols(); ++i)
+                        // the reader expects row-major order
+                        for(humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            for(humoto::EigenIndex j = 0; j < entry.rows(); ++j)
+                            for(humoto::EigenIndex j = 0; j < entry.cols(); ++j)
                             {
-                                *emitter_ << entry(j, i);
+                                *emitter_ << entry(i, j);
                             }
                         }
 
-- 
2.43.0


From 0d652c9dd1426b51958ebd8eaa48cddb2863c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 34/36] fix: a YAML file which cannot be written is an error

---
 bridges/config_yaml/interface/config_yaml/writer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index dc2f352..9f1a622 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -65,6 +65,10 @@ namespace humoto
                     explicit Writer(const std::string& file_name) :
                         config_ofs_(file_name.c_str())
                     {
+                        if (!config_ofs_.good())
+                        {
+                            HUMOTO_THROW_MSG(std::string("Could not open configuration file for writing: ") +  file_name.c_str());
+                        }
                         initEmitter();
                     }
 
-- 
2.43.0


From 4c7c676bd8e97c19ad275e367e85d6b86b58083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 35/36] fix: checkStateTransition() and const
 getNextGeneralizedCoordinates() did not compile when used

---
 modules/pepper_ik/include/pepper_ik/model.h                 | 4 ++--
 modules/pepper_ik/include/pepper_ik/whole_body_controller.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index 4513aaf..709fea1 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -685,8 +685,8 @@ namespace humoto
                     etools::Vector3 root_from;
                     etools::Vector3 root_to;
 
-                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.joint_angles_);
-                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.joint_angles_);
+                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.root_pose_);
+                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.root_pose_);
 
                     if (! root_from.isApprox(root_to, error_tol))
                     {
diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index d04acda..c9a82e8 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -310,7 +310,7 @@ namespace humoto
                         const humoto::pepper_ik::Model<t_features>                      &model) const
                 {
                     HUMOTO_ASSERT(solution_is_parsed_ == true, "This function can be called only after the solution is parsed.");
-                    return(model.state_);
+                    return(model.getState());
                 }
 
 
-- 
2.43.0


From 221f745ed77d4bf90ea4f2057aaf3d678707f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 36/36] fix: a tag task kept following the previous tag after
 its configuration was read again

---
 modules/pepper_ik/include/pepper_ik/task_tagangularvel.h  | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagorient.h      | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagpose.h        | 1 +
 modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h    | 1 +
 5 files changed, 5 insertions(+)

diff --git a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
index f1c2c1d..764c7c3 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
@@ -37,6 +37,7 @@ namespace humoto
                 virtual void setDefaults()
                 {
                     TaskAB::setDefaults();
+                    tag_.reset();
                     k_angular_velocity_gain_ = 0.0;
                 }
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index 18d3ac3..4edb322 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -37,6 +37,7 @@ namespace humoto
                 virtual void setDefaults()
                 {
                     TaskAB::setDefaults();
+                    tag_.reset();
                     k_complete_velocity_gain_ = 0.0;
                 }
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagorient.h b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
index 2a51700..98de306 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagorient.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
@@ -39,6 +39,7 @@ namespace humoto
                 virtual void setDefaults()
                 {
                     TaskAB::setDefaults();
+                    tag_.reset();
                     k_orientation_gain_ = 0.0;
                 }
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose.h b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
index 2a7bd9b..74f18ea 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
@@ -37,6 +37,7 @@ namespace humoto
                 virtual void setDefaults()
                 {
                     TaskAB::setDefaults();
+                    tag_.reset();
                     k_pose_gain_ = 0.0;
                 }
 
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
index ca8c8b3..ca2d6f1 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
@@ -39,6 +39,7 @@ namespace humoto
                 virtual void setDefaults()
                 {
                     TaskAB::setDefaults();
+                    tag_.reset();
                     k_pose_gain_ = 0.0;
                 }
 
-- 
2.43.0

