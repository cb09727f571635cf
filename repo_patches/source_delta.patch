From e4b816bd271db9fb971b3db032a56529da23b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 01/34] fix: fill the input bounds after the control horizon
 with the last given column

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1f3af24..53c3aca 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -405,8 +405,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch());
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch());
+                minU.block(0, ch(), nu(), ph() - ch()).colwise() = UMinMat.col(ch() - 1);
+                maxU.block(0, ch(), nu(), ph() - ch()).colwise() = UMaxMat.col(ch() - 1);
             }
 
             return buildTimeInvariantTems();
-- 
2.43.0


From 196a7f2e74712e10380146abde16e46154b9e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 02/34] fix: apply the input bounds of a step to the input of
 that step in the LMPC

---
 include/mpc/LMPC/ProblemBuilder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 53c3aca..8a8fc85 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -734,7 +734,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph() + 1; i++)
             {
-                if (i == ph())
+                // the extended state holds the previous input, thus x_u(i) is u(i-1)
+                if (i > 0)
                 {
                     tmpMinU = minU.col(i - 1);
                     tmpMaxU = maxU.col(i - 1);
-- 
2.43.0


From 1ab133b681b800e23a60aea25f6e812b429b5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 03/34] fix: hold the input right from the end of the LMPC
 control horizon

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 8a8fc85..51dc7a5 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -782,8 +782,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph(); i++)
             {
-                minDeltaU = (i > ch()) ? 0.0 : -inf;
-                maxDeltaU = (i > ch()) ? 0.0 : inf;
+                minDeltaU = (i >= ch()) ? 0.0 : -inf;
+                maxDeltaU = (i >= ch()) ? 0.0 : inf;
 
                 lineq.middleRows(
                     (((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny())) + (i * nu()),
-- 
2.43.0


From 55520d331dc92fe9a8c55884730335be5a11e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 04/34] fix: use the input variation reference of the same step
 in the LMPC cost

---
 include/mpc/LMPC/ProblemBuilder.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 51dc7a5..692b9d5 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -558,21 +558,18 @@ namespace mpc
                 // step of the prediction horizon there is the current state of the system)
                 cvec<sizer.ny> yRef_ex;
                 cvec<sizer.nu> uRef_ex;
-                cvec<sizer.nu> deltaURef_ex;
                 cvec<sizer.ndu> uMeas_ex;
 
                 if (i == 0)
                 {
                     yRef_ex = yRef.col(0);
                     uRef_ex = uRef.col(0);
-                    deltaURef_ex = deltaURef.col(0);
                     uMeas_ex = uMeas.col(0);
                 }
                 else
                 {
                     yRef_ex = yRef.col(i - 1);
                     uRef_ex = uRef.col(i - 1);
-                    deltaURef_ex = deltaURef.col(i - 1);
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
@@ -591,7 +588,7 @@ namespace mpc
                 {
                     mpcProblem.q.middleRows(
                         ((ph() + 1) * (nu() + nx())) + (i * nu()),
-                        nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef_ex);
+                        nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef.col(i));
                 }
 
                 // the first entry of the state evolution is the initial condition of the states
-- 
2.43.0


From 86c9e0989f32c4c870bc214c4afbf6a40b70c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 05/34] fix: keep the input bounds after the control horizon in
 step with its last step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 692b9d5..46e9016 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -473,6 +473,13 @@ namespace mpc
             minU.block(0, index, nu(), 1) = UMin;
             maxU.block(0, index, nu(), 1) = UMax;
 
+            // the last bounds of the control horizon hold for the remaining part of the prediction horizon
+            if (index + 1 == ch() && ch() < ph())
+            {
+                minU.block(0, ch(), nu(), ph() - ch()).colwise() = UMin;
+                maxU.block(0, ch(), nu(), ph() - ch()).colwise() = UMax;
+            }
+
             return buildTimeInvariantTems();
         }
 
-- 
2.43.0


From 3e345960e0d478b85979e0a53bea6ce2f89a872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 06/34] fix: accept every horizon slice inside the horizon and
 reject negative starts

---
 include/mpc/IMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index 071beb9..b485572 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -255,7 +255,7 @@ namespace mpc
          */
         bool isPredictionHorizonSliceValid(const HorizonSlice& slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ph() || slice.end > (int)ph() || slice.start + slice.end > (int)ph())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ph())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The prediction horizon slice is out of bounds" << std::endl;
                 return false;
@@ -273,7 +273,7 @@ namespace mpc
          */
         bool isControlHorizonSliceValid(const HorizonSlice &slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ch() || slice.end > (int)ch() || slice.start + slice.end > (int)ch())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ch())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The control horizon slice is out of bounds" << std::endl;
                 return false;
-- 
2.43.0


From 50fcb2b3779beaa025f38e3988095b49b0680f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 07/34] fix: validate the slice of the measured disturbances
 against the prediction horizon

---
 include/mpc/LMPC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 16f0ff7..25f826a 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -568,7 +568,7 @@ namespace mpc
             else
             {
                 // Replicate on segment of the control horizon
-                if(isControlHorizonSliceValid(slice))
+                if(isPredictionHorizonSliceValid(slice))
                 {
                     bool ret = true;
 
-- 
2.43.0


From bdfa487cf3c026f74540e3e9c45cc226b2a33497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 08/34] fix: let LMPC::setConstraints set the bounds of its
 step instead of calling a missing function

---
 include/mpc/LMPC.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 25f826a..f932b9c 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -336,7 +336,9 @@ namespace mpc
             }
 
             Logger::instance().log(Logger::log_type::DETAIL) << "Setting constraints for the step " << index << std::endl;
-            return builder.setConstraints(index, XMin, UMin, YMin, XMax, UMax, YMax);
+            bool ret = builder.setStateBounds(index, XMin, XMax);
+            ret = builder.setInputBounds(index, UMin, UMax) && ret;
+            return builder.setOutputBounds(index, YMin, YMax) && ret;
         }
 
         /**
-- 
2.43.0


From 8b312aa37d726b3a6b180e64eee67035fa446551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 09/34] fix: apply the multipliers of a scalar constraint only
 to the step they were set for

---
 include/mpc/LMPC/ProblemBuilder.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 46e9016..078ef55 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -326,9 +326,11 @@ namespace mpc
                 sMax(0) = max;
             }
 
-            for (size_t i = 0; i < ph() + 1; i++)
+            // the multipliers of the other steps are left as they are
+            sMultiplier.block(index + 1, (index + 1) * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
+            if (index == 0)
             {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
+                sMultiplier.block(0, 0, 1, nx() + nu()) << X.transpose(), U.transpose();
             }
 
             return buildTimeInvariantTems();
-- 
2.43.0


From 7f600e8ca05b9928554f473414409609ef3e5346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 10/34] fix: release the optimizer and the solver data of the
 controllers exactly once

---
 include/mpc/IMPC.hpp            |  8 +++++++-
 include/mpc/LMPC.hpp            |  5 ++++-
 include/mpc/LMPC/LOptimizer.hpp | 11 +++++++----
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index b485572..a2c596b 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -35,7 +35,13 @@ namespace mpc
         using IDimensionable<sizer>::ineq;
         using IDimensionable<sizer>::eq;
 
+        IMPC() = default;
+
     public:
+        // the controller owns its optimizer, thus it cannot be copied
+        IMPC(const IMPC &) = delete;
+        IMPC &operator=(const IMPC &) = delete;
+
         /**
          * @brief Set the discretization time step to use for numerical integration
          *
@@ -292,7 +298,7 @@ namespace mpc
          */
         virtual void onModelUpdate(const cvec<sizer.nx>) = 0;
 
-        IOptimizer<sizer> *optPtr;
+        IOptimizer<sizer> *optPtr = nullptr;
         Profiler profiler;
     };
 }
\ No newline at end of file
diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index f932b9c..9044486 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -60,7 +60,10 @@ namespace mpc
             setDimension(nx, nu, ndu, ny, ph, ch);
         }
 
-        ~LMPC() = default;
+        ~LMPC()
+        {
+            delete optPtr;
+        }
 
         /**
          * @brief (NOT AVAILABLE) Set the discretization time step to use for numerical integration
diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 820d2b2..d9116d9 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -483,6 +483,7 @@ namespace mpc
         void clearData()
         {
             osqp_cleanup(work);
+            work = nullptr;
 
             if (data)
             {
@@ -495,11 +496,13 @@ namespace mpc
                     csc_spfree(data->P);
                 }
                 c_free(data);
+                data = nullptr;
             }
 
             if (settings)
             {
                 c_free(settings);
+                settings = nullptr;
             }
         }
 
@@ -515,15 +518,15 @@ namespace mpc
             data->A = nullptr;
         }
 
-        OSQPWorkspace *work;
-        OSQPSettings *settings;
-        OSQPData *data;
+        OSQPWorkspace *work = nullptr;
+        OSQPSettings *settings = nullptr;
+        OSQPData *data = nullptr;
         c_int exitflag = 0;
 
         mat<sizer.ny, sizer.ph> outSysRef;
         mat<sizer.nu, sizer.ph> cmdSysRef, deltaCmdSysRef;
         mat<sizer.ndu, sizer.ph> extInputMeas;
 
-        ProblemBuilder<sizer> *builder;
+        ProblemBuilder<sizer> *builder = nullptr;
     };
 } // namespace mpc
-- 
2.43.0


From 43c92280884220ef864a0d88388728c8ad4c59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 11/34] fix: keep the previous command when the QP solver fails
 or has no solution

---
 include/mpc/LMPC/LOptimizer.hpp | 81 +++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 29 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index d9116d9..86a8ccb 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -258,38 +258,54 @@ namespace mpc
             }
 
             // setup workspace
+            bool has_solution = false;
+            int solver_status = -1;
+            ResultStatus status = ResultStatus::ERROR;
+
             exitflag = osqp_setup(&work, data, settings);
-            if (exitflag > 0)
+            if (exitflag != 0)
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "Unable to setup " << exitflag << std::endl;
             }
-
-            // warm starting the solver
-            if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+            else
             {
-                exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
-                if (exitflag > 0)
+                // warm starting the solver
+                if (settings->warm_start && optimal_prev_x.size() == (size_t)numVars && optimal_prev_y.size() == (size_t)numConstraints)
                 {
-                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to warm start " << exitflag << std::endl;
+                    exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
+                    if (exitflag != 0)
+                    {
+                        Logger::instance().log(Logger::log_type::ERROR) << "Unable to warm start " << exitflag << std::endl;
+                    }
+                }
+                else
+                {
+                    // if we choose to use the warm start but we don't have a solution yet we cannot use it
+                    // we need to wait to have at least a solution
+                    osqp_update_warm_start(work, 0);
                 }
-            }
-            else
-            {
-                // if we choose to use the warm start but we don't have a solution yet we cannot use it
-                // we need to wait to have at least a solution
-                osqp_update_warm_start(work, 0);
-            }
 
-            // solve problem
-            exitflag = osqp_solve(work);
-            if (exitflag > 0)
-            {
-                Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                // solve problem
+                exitflag = osqp_solve(work);
+                solver_status = work->info->status_val;
+                if (exitflag != 0)
+                {
+                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                }
+                else
+                {
+                    // convert the return code from the optimizer to the result status
+                    status = convertToResultStatus(solver_status);
+                    has_solution = hasSolution(solver_status);
+                }
             }
 
+            r.solver_status = solver_status;
+            r.status = status;
+
             // if the solution is valid update the solution otherwise
             // keep the last feasible solution
-            if (work->solution->x != NULL)
+            if (has_solution)
             {
                 // storing the previous optimal primal and dual solution to warm start
                 optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
@@ -339,20 +355,14 @@ namespace mpc
 
                 // the optimal command is the first control input in the sequence
                 r.cmd = sequence.input.row(0);
-                r.solver_status = work->info->status_val;
                 r.cost = work->info->obj_val;
-                r.is_feasible = work->info->status_val == OSQP_SOLVED || work->info->status_val == OSQP_SOLVED_INACCURATE || work->info->status_val == OSQP_MAX_ITER_REACHED;
-                // convert the return code from the optimizer to the result status
-                r.status = convertToResultStatus(r.solver_status);
-            }
+                r.is_feasible = work->info->status_val == OSQP_SOLVED || work->info->status_val == OSQP_SOLVED_INACCURATE || work->info->status_val == OSQP_MAX_ITER_REACHED;            }
             else
             {
-                // if the solution is not valid we keep the previous solution
-                // and we set the return code to -1
+                // if the solution is not valid we keep the previous command
                 r.cost = mpc::inf;
                 r.cmd = result.cmd;
-                r.solver_status = -1;
-                r.status = ResultStatus::ERROR;
+                r.is_feasible = false;
 
                 // in case of invalid solution we ouput all the sequences to zero
                 sequence.state.setZero();
@@ -372,6 +382,19 @@ namespace mpc
         std::vector<double> optimal_prev_x, optimal_prev_y;
 
     private:
+        /**
+         * @brief Tell if the solver stored a solution for the given status (for the
+         * other ones it fills the solution vectors with NaN or leaves them untouched)
+         *
+         * @param status The integer value representing the status.
+         * @return true
+         * @return false
+         */
+        bool hasSolution(int status)
+        {
+            return status == OSQP_SOLVED || status == OSQP_SOLVED_INACCURATE || status == OSQP_MAX_ITER_REACHED || status == OSQP_TIME_LIMIT_REACHED;
+        }
+
         /**
          * @brief Converts an integer value representing the possible statuses to the corresponding ResultStatus enum value.
          *
-- 
2.43.0


From 78c5f2a2dd2de78bb9cf9d86560b7b87c8201a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 12/34] fix: report inaccurate infeasibility and the time limit
 of the QP solver as such

---
 include/mpc/LMPC/LOptimizer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 86a8ccb..ceafaeb 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -421,13 +421,13 @@ namespace mpc
             case OSQP_SOLVED_INACCURATE:
                 return ResultStatus::SUCCESS;
             case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_DUAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_SIGINT:
                 return ResultStatus::ERROR;
             case OSQP_TIME_LIMIT_REACHED:
-                return ResultStatus::UNKNOWN;
+                return ResultStatus::MAX_ITERATION;
             case OSQP_NON_CVX:
                 return ResultStatus::ERROR;
             case OSQP_UNSOLVED:
-- 
2.43.0


From 6a3d2da4c97abfde0f8031ebbd9555e288b8edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 13/34] fix: do not use the QP solver data when its allocation
 fails

---
 include/mpc/LMPC/LOptimizer.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index ceafaeb..d41e736 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -468,6 +468,10 @@ namespace mpc
 
             // instantiate csc matrix
             osqpSparseMatrix = csc_spalloc(rows, cols, numberOfNonZeroCoeff, 1, 0);
+            if (osqpSparseMatrix == nullptr)
+            {
+                return false;
+            }
 
             int innerOsqpPosition = 0;
             for (int k = 0; k < cols; k++)
@@ -537,8 +541,11 @@ namespace mpc
             settings = (OSQPSettings *)c_malloc(sizeof(OSQPSettings));
             data = (OSQPData *)c_malloc(sizeof(OSQPData));
 
-            data->P = nullptr;
-            data->A = nullptr;
+            if (data)
+            {
+                data->P = nullptr;
+                data->A = nullptr;
+            }
         }
 
         OSQPWorkspace *work = nullptr;
-- 
2.43.0


From 83b9f42be551b426116c8094bc7d86ae97468e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 14/34] fix: ignore optimizer parameters of the other
 controller instead of dereferencing null

---
 include/mpc/LMPC/LOptimizer.hpp   | 9 ++++++++-
 include/mpc/NLMPC/NLOptimizer.hpp | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index d41e736..426e799 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -100,7 +100,14 @@ namespace mpc
         void setParameters(const Parameters &param) override
         {
             checkOrQuit();
-            lin_params = *dynamic_cast<LParameters *>(const_cast<Parameters *>(&param));
+
+            auto l_param = dynamic_cast<const LParameters *>(&param);
+            if (l_param == nullptr)
+            {
+                Logger::instance().log(Logger::log_type::ERROR) << "The parameters are not the ones of a linear MPC" << std::endl;
+                return;
+            }
+            lin_params = *l_param;
 
             Logger::instance().log(Logger::log_type::DETAIL)
                 << "Setting tolerances and stopping criterias"
diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 19453fc..d8d5216 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -128,6 +128,11 @@ namespace mpc
             checkOrQuit();
 
             auto nl_param = dynamic_cast<const NLParameters *>(&param);
+            if (nl_param == nullptr)
+            {
+                Logger::instance().log(Logger::log_type::ERROR) << "The parameters are not the ones of a non-linear MPC" << std::endl;
+                return;
+            }
 
             innerOpt->set_ftol_rel(nl_param->relative_ftol);
             innerOpt->set_xtol_rel(nl_param->relative_xtol);
-- 
2.43.0


From 9c9b3be06d408e39bdc0d2042c3877235e3a4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 15/34] fix: release the inner solver when the optimizer is
 initialized again

---
 include/mpc/NLMPC/NLOptimizer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index d8d5216..6a592c5 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -61,6 +61,7 @@ namespace mpc
          */
         void onInit() override
         {
+            delete innerOpt;
             innerOpt = new nlopt::opt(nlopt::LD_SLSQP, ((ph() * nx()) + (nu() * ch()) + 1));
 
             COND_RESIZE_CVEC(sizer,lb,((ph() * nx()) + (nu() * ch()) + 1));
@@ -852,7 +853,7 @@ namespace mpc
             }
         }
 
-        nlopt::opt *innerOpt;
+        nlopt::opt *innerOpt = nullptr;
 
         std::shared_ptr<Objective<sizer>> objFunc;
         std::shared_ptr<Constraints<sizer>> conFunc;
-- 
2.43.0


From 04a5edc65d76419c9e21f6384b78c00de713eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 16/34] fix: initialise the members that could be read before
 they were set

---
 include/mpc/IOptimizer.hpp        | 4 ++--
 include/mpc/Logger.hpp            | 2 +-
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 include/mpc/NLMPC/Model.hpp       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/mpc/IOptimizer.hpp b/include/mpc/IOptimizer.hpp
index d25e597..7458ff2 100644
--- a/include/mpc/IOptimizer.hpp
+++ b/include/mpc/IOptimizer.hpp
@@ -53,7 +53,7 @@ namespace mpc
         OptSequence<sizer.nx, sizer.ny, sizer.nu, sizer.ph+1> sequence;
 
     protected:
-        double currentSlack;
-        bool hard;
+        double currentSlack = 0;
+        bool hard = false;
     };
 }
\ No newline at end of file
diff --git a/include/mpc/Logger.hpp b/include/mpc/Logger.hpp
index aa0cd4c..2907daf 100644
--- a/include/mpc/Logger.hpp
+++ b/include/mpc/Logger.hpp
@@ -169,7 +169,7 @@ namespace mpc
         std::ostream *os;
         std::string prefix;
         log_level thresholdLevel;
-        log_type currentType;
+        log_type currentType = log_type::DETAIL;
     };
 
 } // namespace mpc
\ No newline at end of file
diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6aa4b44..1b9efed 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -929,6 +929,6 @@ namespace mpc
         using Base<sizer>::niteration;
 
         const double dv = sqrt(std::numeric_limits<double>::epsilon());
-        double ieq_tolerance, eq_tolerance;
+        double ieq_tolerance = 0, eq_tolerance = 0;
     };
 } // namespace mpc
\ No newline at end of file
diff --git a/include/mpc/NLMPC/Model.hpp b/include/mpc/NLMPC/Model.hpp
index 30526d4..31f02ef 100644
--- a/include/mpc/NLMPC/Model.hpp
+++ b/include/mpc/NLMPC/Model.hpp
@@ -139,7 +139,7 @@ namespace mpc
         }
 
         bool isContinuousTime;
-        double sampleTime;
+        double sampleTime = 0;
 
         typename IDimensionable<sizer>::StateFunHandle vectorField = nullptr;
 
-- 
2.43.0


From acc8adcffcdcbc92f4beaf60214d1da6e4f13a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 17/34] fix: report when the solver refuses the objective or
 the user constraints

---
 include/mpc/NLMPC.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index 5bbd177..cd01b0a 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -142,13 +142,13 @@ namespace mpc
                 << "Setting objective function handle"
                 << std::endl;
 
-            auto res = objF->setObjective(handle);
+            bool res = objF->setObjective(handle);
 
             Logger::instance().log(Logger::log_type::DETAIL)
                 << "Binding objective function handle"
                 << std::endl;
 
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindObjective();
+            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindObjective();
             return res;
         }
 
@@ -231,8 +231,8 @@ namespace mpc
             cvec<Tineq> tol_vec;
             tol_vec = cvec<Tineq>::Ones(ineq());
 
-            auto res = conF->setIneqConstraints(handle, tol);
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
+            bool res = conF->setIneqConstraints(handle, tol);
+            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
             return res;
         }
 
@@ -251,10 +251,10 @@ namespace mpc
             const typename IDimensionable<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)>::EConFunHandle handle, const float tol = 1e-10)
         {
             cvec<Teq> tol_vec;
-            tol_vec = cvec<Teq>::Ones(Size(Teq));
+            tol_vec = cvec<Teq>::Ones(eq());
 
-            auto res = conF->setEqConstraints(handle, tol);
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
+            bool res = conF->setEqConstraints(handle, tol);
+            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
             return res;
         }
 
-- 
2.43.0


From 45b3611e228f2cea15825abc8a2772235a9dc7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 18/34] fix: let later NLMPC parameters remove the time limit
 and release the slack

---
 include/mpc/NLMPC/NLOptimizer.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 6a592c5..6e5cdc2 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -142,10 +142,8 @@ namespace mpc
 
             innerOpt->set_x_weights(1.0);
 
-            if (nl_param->time_limit > 0)
-            {
-                innerOpt->set_maxtime(nl_param->time_limit);
-            }
+            // a non positive value disables the time limit of the solver
+            innerOpt->set_maxtime(nl_param->time_limit > 0 ? nl_param->time_limit : 0);
 
             innerOpt->set_maxeval(nl_param->maximum_iteration);
 
@@ -187,6 +185,11 @@ namespace mpc
                 lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
                 ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
             }
+            else
+            {
+                lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = -std::numeric_limits<double>::infinity();
+                ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = std::numeric_limits<double>::infinity();
+            }
 
             enable_warm_start = nl_param->enable_warm_start;
 
-- 
2.43.0


From fd64c6e0658ebe0e88048862ea904929cffab676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 19/34] fix: replace a constraint function set again instead of
 adding it once more

---
 include/mpc/NLMPC/NLOptimizer.hpp | 74 +++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 18 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 6e5cdc2..ddb0e79 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -62,6 +62,9 @@ namespace mpc
         void onInit() override
         {
             delete innerOpt;
+            model_eq_tol.clear();
+            user_eq_tol.clear();
+            user_ineq_tol.clear();
             innerOpt = new nlopt::opt(nlopt::LD_SLSQP, ((ph() * nx()) + (nu() * ch()) + 1));
 
             COND_RESIZE_CVEC(sizer,lb,((ph() * nx()) + (nu() * ch()) + 1));
@@ -240,14 +243,12 @@ namespace mpc
         {
             checkOrQuit();
 
+            auto previous_tol = model_eq_tol;
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                model_eq_fun = NLOptimizer::nloptEqConFunWrapper;
+                model_eq_tol.assign(tol.data(), tol.data() + tol.rows() * tol.cols());
+                registerEqConstraints();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding state defined equality constraints"
                     << std::endl;
@@ -255,6 +256,9 @@ namespace mpc
             }
             catch (const std::exception &e)
             {
+                model_eq_tol = previous_tol;
+                registerEqConstraints();
+
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Unable to bind constraints function\n"
                     << e.what()
@@ -277,14 +281,12 @@ namespace mpc
         {
             checkOrQuit();
 
+            auto previous_tol = user_ineq_tol;
             try
             {
-                innerOpt->add_inequality_mconstraint(
-                    NLOptimizer::nloptUserIneqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                user_ineq_fun = NLOptimizer::nloptUserIneqConFunWrapper;
+                user_ineq_tol.assign(tol.data(), tol.data() + tol.rows() * tol.cols());
+                registerIneqConstraints();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding user inequality constraints"
                     << std::endl;
@@ -292,6 +294,9 @@ namespace mpc
             }
             catch (const std::exception &e)
             {
+                user_ineq_tol = previous_tol;
+                registerIneqConstraints();
+
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Unable to bind constraints function\n"
                     << e.what()
@@ -315,14 +320,12 @@ namespace mpc
         {
             checkOrQuit();
 
+            auto previous_tol = user_eq_tol;
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptUserEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                user_eq_fun = NLOptimizer::nloptUserEqConFunWrapper;
+                user_eq_tol.assign(tol.data(), tol.data() + tol.rows() * tol.cols());
+                registerEqConstraints();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding user equality constraints"
                     << std::endl;
@@ -330,6 +333,9 @@ namespace mpc
             }
             catch (const std::exception &e)
             {
+                user_eq_tol = previous_tol;
+                registerEqConstraints();
+
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Unable to bind constraints function\n"
                     << e.what()
@@ -637,6 +643,36 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Register the equality constraints in the internal solver,
+         * replacing the ones registered before
+         */
+        void registerEqConstraints()
+        {
+            innerOpt->remove_equality_constraints();
+            if (!model_eq_tol.empty())
+            {
+                innerOpt->add_equality_mconstraint(model_eq_fun, conFunc.get(), model_eq_tol);
+            }
+            if (!user_eq_tol.empty())
+            {
+                innerOpt->add_equality_mconstraint(user_eq_fun, conFunc.get(), user_eq_tol);
+            }
+        }
+
+        /**
+         * @brief Register the inequality constraints in the internal solver,
+         * replacing the ones registered before
+         */
+        void registerIneqConstraints()
+        {
+            innerOpt->remove_inequality_constraints();
+            if (!user_ineq_tol.empty())
+            {
+                innerOpt->add_inequality_mconstraint(user_ineq_fun, conFunc.get(), user_ineq_tol);
+            }
+        }
+
         /**
          * @brief Update the bounds for the internal solver
          */
@@ -857,6 +893,8 @@ namespace mpc
         }
 
         nlopt::opt *innerOpt = nullptr;
+        nlopt::mfunc model_eq_fun = nullptr, user_eq_fun = nullptr, user_ineq_fun = nullptr;
+        std::vector<double> model_eq_tol, user_eq_tol, user_ineq_tol;
 
         std::shared_ptr<Objective<sizer>> objFunc;
         std::shared_ptr<Constraints<sizer>> conFunc;
-- 
2.43.0


From e2c4e4bcdd322b3a4668c2f8b164818b68c46b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 20/34] fix: do not let failed or cold NLMPC solves leak into
 the initial guess

---
 include/mpc/NLMPC/NLOptimizer.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index ddb0e79..9647fa4 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -432,6 +432,8 @@ namespace mpc
             std::vector<double> optX0;
             optX0.assign(((ph() * nx()) + (nu() * ch()) + 1),0.0);
 
+            // the previous solution is left untouched since the optimization could fail
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> guess = opt_vector;
             if(is_first_iteration || !enable_warm_start)
             {
                 // the whole optimization vector is initialized with the initial state x0
@@ -441,7 +443,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j);
+                        guess[(i * nx()) + j] = x0(j);
                     }
                 }
 
@@ -449,9 +451,11 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j);
+                        guess[(ph() * nx()) + (i * nu()) + j] = u0(j);
                     }
                 }
+
+                guess[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
             }
             
             // fill the remaining elements with the previous state starting from
@@ -463,10 +467,10 @@ namespace mpc
                 {
                     if(i == ph() - 1)
                     {
-                        optX0[(i * nx()) + j] = opt_vector[(i * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[(i * nx()) + j];
                     }
                     else{
-                        optX0[(i * nx()) + j] = opt_vector[((i+1) * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[((i+1) * nx()) + j];
                     }
                 }
             }
@@ -477,7 +481,7 @@ namespace mpc
             // convert from the optimized vector to the vectorized manipulated variable
             // using the mapping matrix Iz2u
             cvec<(sizer.ph * sizer.nu)> tmp_mult;
-            tmp_mult = mapping->Iz2u() * opt_vector.middleRows((ph() * nx()), (nu() * ch()));
+            tmp_mult = mapping->Iz2u() * guess.middleRows((ph() * nx()), (nu() * ch()));
 
             // fill the remaining elements with the previous control action starting from
             // the third element of the control horizon
@@ -507,21 +511,24 @@ namespace mpc
             }
 
             // put the slack variable in the optimization vector
-            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
+            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = guess[((ph() * nx()) + (nu() * ch()) + 1) - 1];
 
             // let's start the optimization
             bool optimizationSuccess = false;
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> solution = opt_vector;
 
             try
             {
                 std::vector<double> opt_v = innerOpt->optimize(optX0);
                 // convert from std vector to eigen vector by copying the data
-                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(opt_vector);
-                optimizationSuccess = true;
-                is_first_iteration = false;
+                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(solution);
 
                 // check if the solution vector is feasible or not
-                r.is_feasible = conFunc->isFeasible(opt_vector);
+                r.is_feasible = conFunc->isFeasible(solution);
+
+                opt_vector = solution;
+                optimizationSuccess = true;
+                is_first_iteration = false;
 
                 if (r.is_feasible)
                 {
-- 
2.43.0


From f75b09dcb6d520fa9d5e2e8dd4230c473998a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 21/34] fix: keep state, bounds, guess and gradient in physical
 units under NLMPC scaling

---
 include/mpc/NLMPC/Mapping.hpp     |  3 +-
 include/mpc/NLMPC/NLOptimizer.hpp | 51 +++++++++++++++++++++++++++++--
 include/mpc/NLMPC/Objective.hpp   |  7 +----
 3 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/include/mpc/NLMPC/Mapping.hpp b/include/mpc/NLMPC/Mapping.hpp
index 600ab01..338e1d2 100644
--- a/include/mpc/NLMPC/Mapping.hpp
+++ b/include/mpc/NLMPC/Mapping.hpp
@@ -204,7 +204,8 @@ namespace mpc
 
             for (int i = 0; i < Xmat.cols(); i++)
             {
-                Xmat.col(i) /= 1.0 / state_scaling(i);
+                // the current state is already in physical units
+                Xmat.col(i).tail(ph()) *= state_scaling(i);
             }
 
             // TODO add disturbaces manipulated vars
diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 9647fa4..37ae8ca 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -104,6 +104,9 @@ namespace mpc
 
             mapping = map;
             model = sysModel;
+
+            // the scaling could have been changed
+            updateBounds();
         }
 
         /**
@@ -513,6 +516,13 @@ namespace mpc
             // put the slack variable in the optimization vector
             optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = guess[((ph() * nx()) + (nu() * ch()) + 1) - 1];
 
+            // the guess is in physical units, the solver works with the scaled variables
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> scaling = variablesScaling();
+            for (size_t i = 0; i < optX0.size(); i++)
+            {
+                optX0[i] /= scaling[i];
+            }
+
             // let's start the optimization
             bool optimizationSuccess = false;
             cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> solution = opt_vector;
@@ -526,7 +536,7 @@ namespace mpc
                 // check if the solution vector is feasible or not
                 r.is_feasible = conFunc->isFeasible(solution);
 
-                opt_vector = solution;
+                opt_vector = solution.cwiseProduct(scaling);
                 optimizationSuccess = true;
                 is_first_iteration = false;
 
@@ -595,7 +605,7 @@ namespace mpc
                 mat<(sizer.ph + 1), sizer.nu> Umat;
                 COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
 
-                mapping->unwrapVector(opt_vector, x0, Xmat, Umat, currentSlack);
+                mapping->unwrapVector(solution, x0, Xmat, Umat, currentSlack);
 
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Optimal predicted state vector\n"
@@ -680,6 +690,30 @@ namespace mpc
             }
         }
 
+        /**
+         * @brief Get the factors from the solver variables to their physical values
+         *
+         * @return the scaling factor of each variable of the optimization vector
+         */
+        cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> variablesScaling()
+        {
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> scaling;
+            COND_RESIZE_CVEC(sizer, scaling, ((ph() * nx()) + (nu() * ch()) + 1));
+            scaling.setOnes();
+
+            for (size_t i = 0; i < ph(); i++)
+            {
+                scaling.middleRows(i * nx(), nx()) = mapping->StateScaling();
+            }
+
+            for (size_t i = 0; i < ch(); i++)
+            {
+                scaling.middleRows((ph() * nx()) + (i * nu()), nu()) = mapping->InputScaling();
+            }
+
+            return scaling;
+        }
+
         /**
          * @brief Update the bounds for the internal solver
          */
@@ -689,6 +723,19 @@ namespace mpc
             std::vector<double> lb_vec(lb.data(), lb.data() + lb.rows() * lb.cols());
             std::vector<double> ub_vec(ub.data(), ub.data() + ub.rows() * ub.cols());
 
+            // the bounds are in physical units, the solver works with the scaled variables
+            if (mapping)
+            {
+                cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> scaling = variablesScaling();
+                for (size_t i = 0; i < lb_vec.size(); i++)
+                {
+                    double scaled_lb = lb_vec[i] / scaling[i];
+                    double scaled_ub = ub_vec[i] / scaling[i];
+                    lb_vec[i] = scaling[i] < 0 ? scaled_ub : scaled_lb;
+                    ub_vec[i] = scaling[i] < 0 ? scaled_lb : scaled_ub;
+                }
+            }
+
             innerOpt->set_lower_bounds(lb_vec);
             innerOpt->set_upper_bounds(ub_vec);
 
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index d982d3d..131824f 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -102,11 +102,6 @@ namespace mpc
             {
                 computeJacobian(Xmat, Umat, c.value, e);
 
-                for (int i = 0; i < Xmat.cols(); i++)
-                {
-                    Xmat.col(i) /= 1.0 / mapping->StateScaling()(i);
-                }
-
                 int counter = 0;
 
                 // #pragma omp parallel for
@@ -114,7 +109,7 @@ namespace mpc
                 {
                     for (int i = 0; i < (int)Jx.rows(); i++)
                     {
-                        c.grad(counter++) = Jx(i, j);
+                        c.grad(counter++) = Jx(i, j) * mapping->StateScaling()(i);
                     }
                 }
 
-- 
2.43.0


From 1f5f432dac93ac88386ba5cd897fe9e1bed75bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 22/34] fix: perturb the repeated final input row in the user
 inequality Jacobian

---
 include/mpc/NLMPC/Constraints.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 1b9efed..8c2d2e2 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -686,8 +686,13 @@ namespace mpc
             {
                 for (size_t j = 0; j < nu(); j++)
                 {
+                    // the last input is repeated in the final row of the input matrix
                     double du = dv * Ua.array()(j);
                     u0(i, j) += du;
+                    if (i + 1 == ph())
+                    {
+                        u0(ph(), j) += du;
+                    }
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
                     COND_RESIZE_CVEC(sizer, f_minus, ineq());
@@ -696,10 +701,18 @@ namespace mpc
                     ieqUser(f_plus, x0, y0_plus, u0, e0);
 
                     u0(i, j) -= 2 * du;
+                    if (i + 1 == ph())
+                    {
+                        u0(ph(), j) -= 2 * du;
+                    }
                     mat<(sizer.ph + 1), sizer.ny> y0_minus = model->getOutput(x0, u0);
                     ieqUser(f_minus, x0, y0_minus, u0, e0);
 
                     u0(i, j) += du;
+                    if (i + 1 == ph())
+                    {
+                        u0(ph(), j) += du;
+                    }
 
                     cvec<sizer.ineq> df = (f_plus - f_minus) / (2 * du);
                     Jconmv.middleCols(i * nu(), nu()).col(j) = df;
-- 
2.43.0


From e806312a250b3debcda4c75791dd3ff6f07d581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 23/34] fix: allow an empty user equality in the feasibility
 check

---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 8c2d2e2..4219a20 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -180,7 +180,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all equality constraints are satisfied (== 0)
-                if (ceq_user.array().abs().maxCoeff() > eq_tolerance)
+                if ((ceq_user.array().abs() > eq_tolerance).any())
                 {
                     return false;
                 }
-- 
2.43.0


From f8dcd5665ff62388374a806ee0220e80adde7654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 24/34] fix: size the finite difference steps on the variable
 being perturbed

---
 include/mpc/NLMPC/Constraints.hpp | 6 +++---
 include/mpc/NLMPC/Objective.hpp   | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 4219a20..6f6c58e 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -659,7 +659,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) += dx;
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
@@ -687,7 +687,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     // the last input is repeated in the final row of the input matrix
-                    double du = dv * Ua.array()(j);
+                    double du = dv * Ua(i, j);
                     u0(i, j) += du;
                     if (i + 1 == ph())
                     {
@@ -791,7 +791,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     // Calculate perturbation
-                    double du = dv * Ua(ph() - 1, j);
+                    double du = dv * Ua(i, j);
                     // Forward perturbation
                     u0(i, j) += du;
                     cvec<sizer.eq> f_plus;
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index 131824f..da7955a 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -200,7 +200,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) = x0(ix, j) + dx;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     x0(ix, j) = x0(ix, j) - dx;
@@ -220,7 +220,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     int k = j;
-                    double du = dv * Ua.array()(k);
+                    double du = dv * Ua(i, k);
                     u0(i, k) = u0(i, k) + du;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     u0(i, k) = u0(i, k) - du;
@@ -234,7 +234,7 @@ namespace mpc
             for (size_t j = 0; j < nu(); j++)
             {
                 int k = j;
-                double du = dv * Ua.array()(k);
+                double du = dv * Ua((ph() - 1), k);
                 u0((ph() - 1), k) = u0((ph() - 1), k) + du;
                 u0(ph(), k) = u0(ph(), k) + du;
                 double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
@@ -244,7 +244,7 @@ namespace mpc
                 Jmv(j, (ph() - 1)) = df;
             }
 
-            double ea = fmax(1e-6, abs(e0));
+            double ea = fmax(1e-6, fabs(e0));
             double de = ea * dv;
             double f1 = fuser(x0, model->getOutput(x0, u0), u0, e0 + de);
             double f2 = fuser(x0, model->getOutput(x0, u0), u0, e0 - de);
-- 
2.43.0


From a366950cd32fa6bc24eac9088370c318c82ecbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 25/34] fix: start the NLMPC solve inside the bounds instead of
 failing outside of them

---
 include/mpc/NLMPC/NLOptimizer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 37ae8ca..bdabdf3 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -523,6 +523,14 @@ namespace mpc
                 optX0[i] /= scaling[i];
             }
 
+            // the solver refuses an initial guess outside the bounds
+            auto lb_solver = innerOpt->get_lower_bounds();
+            auto ub_solver = innerOpt->get_upper_bounds();
+            for (size_t i = 0; i < optX0.size(); i++)
+            {
+                optX0[i] = std::min(std::max(optX0[i], lb_solver[i]), ub_solver[i]);
+            }
+
             // let's start the optimization
             bool optimizationSuccess = false;
             cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> solution = opt_vector;
-- 
2.43.0


From b684a0471ad19c129bdc6f367a53e6d467ffeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 26/34] fix: compute the standard deviation of the solution
 times without integer division

---
 include/mpc/Profiler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index ff3e867..6f38515 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -221,9 +221,9 @@ namespace mpc
                 }
                 else
                 {
-                    double residual = (stats.numberOfSolutions/(stats.numberOfSolutions - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
-                    double stdDev_old = (stats.numberOfSolutions - 2) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((stdDev_old + residual) / (stats.numberOfSolutions - 1));
+                    double residual = (static_cast<double>(stats.numberOfSolutions) / (stats.numberOfSolutions - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
+                    double stdDev_old = (stats.numberOfSolutions - 1) * pow(stats.standardDeviation, 2);
+                    stats.standardDeviation = sqrt((stdDev_old + residual) / stats.numberOfSolutions);
                 }
             }
         }
-- 
2.43.0


From ce85877669897979571e944c766b348f3741f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 27/34] fix: subtract a size from an integer in the order they
 are written

---
 include/mpc/Dim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Dim.hpp b/include/mpc/Dim.hpp
index 52f5a26..a8e356e 100644
--- a/include/mpc/Dim.hpp
+++ b/include/mpc/Dim.hpp
@@ -96,7 +96,7 @@ namespace mpc
 
     constexpr Size operator-(const int &v, const Size &w)
     {
-        return Size(make_dimension(w.value - v, Size::is_static(w.value, v)));
+        return Size(make_dimension(v - w.value, Size::is_static(v, w.value)));
     }
 
     constexpr Size operator*(const int &v, const Size &w)
-- 
2.43.0


From ef75a0188eb17324aaa666ef1fb58670e528d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 28/34] fix: advance the time between the steps of the
 Runge-Kutta integrator

---
 include/mpc/Integrator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/Integrator.hpp b/include/mpc/Integrator.hpp
index 768bedc..59d58d6 100644
--- a/include/mpc/Integrator.hpp
+++ b/include/mpc/Integrator.hpp
@@ -39,13 +39,14 @@ public:
         cvec<N> sol = in;
         cvec<N> k1, k2, k3, k4;
 
-        for (size_t i = 0; i < integration_step; i++) {
+        for (int i = 0; i < integration_step; i++) {
             k1 = m_func(t, sol);
             k2 = m_func(t + h / 2.0, sol + (h / 2.0) * k1);
             k3 = m_func(t + h / 2.0, sol + (h / 2.0) * k2);
             k4 = m_func(t + h, sol + h * k3);
 
             sol += h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0;
+            t += h;
         }
 
         return sol;
-- 
2.43.0


From c6c49c10dd677c66e62bc1f328a3bac10f326632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 29/34] fix: type the feed-through matrix of the discretization
 as outputs by inputs

---
 include/mpc/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Utils.hpp b/include/mpc/Utils.hpp
index bf8541c..cf7c7bb 100644
--- a/include/mpc/Utils.hpp
+++ b/include/mpc/Utils.hpp
@@ -109,7 +109,7 @@ template <size_t nx, size_t nu, size_t ny>
 void discretization(
     const mat<nx, nx>& A, const mat<nx, nu>& B,
     const mat<ny, nx>& C, const mat<ny, nu>& D, const double& Ts,
-    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<nx, nu>& Dd)
+    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<ny, nu>& Dd)
 {
     // TODO this discretization works only with delay-free systems
     discretization<nx,nu>(A, B, Ts, Ad, Bd);
-- 
2.43.0


From 4d2f3639d20afed625d7a151da8004e832f076f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 30/34] fix: make the headers includable on their own

---
 include/mpc/IComponent.hpp        | 1 +
 include/mpc/NLMPC/NLOptimizer.hpp | 2 ++
 include/mpc/Profiler.hpp          | 3 +++
 3 files changed, 6 insertions(+)

diff --git a/include/mpc/IComponent.hpp b/include/mpc/IComponent.hpp
index 7adfb51..d82f974 100644
--- a/include/mpc/IComponent.hpp
+++ b/include/mpc/IComponent.hpp
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <mpc/Dim.hpp>
+#include <mpc/IDimensionable.hpp>
 #include <mpc/Types.hpp>
 
 namespace mpc
diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index bdabdf3..d1a2290 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -13,6 +13,8 @@
 
 #include <nlopt.hpp>
 
+#include <cstring>
+
 namespace mpc
 {
     /**
diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index 6f38515..17e8649 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -5,6 +5,9 @@
 #pragma once
 
 #include <chrono>
+#include <cmath>
+#include <map>
+#include <string>
 #include <mpc/Types.hpp>
 
 namespace mpc
-- 
2.43.0


From c5c86ded3fdd09dcbce84a9e5d9ef16c6196967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 31/34] fix: export the matrix overload of setReferences to
 Python

---
 python/pybind_export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 308cf90..c2fa1d2 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -119,7 +119,7 @@ void expose_LMPC(py::module &m)
         .def("setScalarConstraint", py::overload_cast<const double, const double, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setScalarConstraint))
         .def("setExogenousInputs", py::overload_cast<const Eigen::MatrixXd &>(&LMPCType::setExogenousInputs))
         .def("setExogenousInputs", py::overload_cast<const Eigen::VectorXd &, const mpc::HorizonSlice&>(&LMPCType::setExogenousInputs))
-        .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences))
+        .def("setReferences", py::overload_cast<const Eigen::MatrixXd, const Eigen::MatrixXd, const Eigen::MatrixXd>(&LMPCType::setReferences))
         .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences));
 }
 
-- 
2.43.0


From 22665158fa4c706803317a85528ba5d686f2e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 32/34] fix: take a finite difference step along the slack that
 does not vanish in rounding

---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 include/mpc/NLMPC/Objective.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6f6c58e..21b31ec 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -719,7 +719,7 @@ namespace mpc
                 }
             }
 
-            double ea = fmax(dv, fabs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             cvec<sizer.ineq> f1, f2;
             COND_RESIZE_CVEC(sizer, f1, ineq());
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index da7955a..40eab4f 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -244,7 +244,7 @@ namespace mpc
                 Jmv(j, (ph() - 1)) = df;
             }
 
-            double ea = fmax(1e-6, fabs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             double f1 = fuser(x0, model->getOutput(x0, u0), u0, e0 + de);
             double f2 = fuser(x0, model->getOutput(x0, u0), u0, e0 - de);
-- 
2.43.0


From c1d4672fbee27638703e1efb9767e33e0142f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 33/34] fix: keep the constraint functions in force when the
 solver refuses new ones

---
 include/mpc/NLMPC.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index cd01b0a..b434606 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -177,17 +177,19 @@ namespace mpc
                 << "Setting state space function handle"
                 << std::endl;
 
-            bool res = model->setStateModel(handle);
-
-            objF->setModel(model, mapping);
-            conF->setModel(model, mapping);
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->setModel(model, mapping);
-
             Logger::instance().log(Logger::log_type::DETAIL)
                 << "Binding state space constraints"
                 << std::endl;
 
-            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindEq(constraints_type::EQ, eq_tol_vec * eq_tol);
+            bool res = ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindEq(constraints_type::EQ, eq_tol_vec * eq_tol);
+            if (res)
+            {
+                res = model->setStateModel(handle);
+
+                objF->setModel(model, mapping);
+                conF->setModel(model, mapping);
+                ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->setModel(model, mapping);
+            }
 
             return res;
         }
@@ -231,8 +233,11 @@ namespace mpc
             cvec<Tineq> tol_vec;
             tol_vec = cvec<Tineq>::Ones(ineq());
 
-            bool res = conF->setIneqConstraints(handle, tol);
-            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
+            bool res = ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
+            if (res)
+            {
+                res = conF->setIneqConstraints(handle, tol);
+            }
             return res;
         }
 
@@ -253,8 +258,11 @@ namespace mpc
             cvec<Teq> tol_vec;
             tol_vec = cvec<Teq>::Ones(eq());
 
-            bool res = conF->setEqConstraints(handle, tol);
-            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
+            bool res = ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
+            if (res)
+            {
+                res = conF->setEqConstraints(handle, tol);
+            }
             return res;
         }
 
-- 
2.43.0


From 5dd439892fe949e807c3ac26d2902cf3eec92ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 34/34] fix: contain exceptions of any type thrown by user
 functions after the solve

---
 include/mpc/NLMPC/NLOptimizer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index d1a2290..4f0845b 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -585,6 +585,16 @@ namespace mpc
                 optimizationSuccess = false;
                 r.solver_status_msg = "Internal solver error: " + std::string(e.what());
             }
+            catch (...)
+            {
+                Logger::instance().log(Logger::log_type::DETAIL)
+                    << "No optimal solution found: unknown exception"
+                    << std::endl;
+
+                // a user function can throw anything
+                optimizationSuccess = false;
+                r.solver_status_msg = "Internal solver error: unknown exception";
+            }
 
             if (optimizationSuccess)
             {
-- 
2.43.0

