From f2217d8186bf63c62a38bad70695d5350bbc3913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 01/45] fix: do not apply the state scaling to the initial
 condition of the horizon

---
 include/mpc/NLMPC/Mapping.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Mapping.hpp b/include/mpc/NLMPC/Mapping.hpp
index 600ab01..4cbfe81 100644
--- a/include/mpc/NLMPC/Mapping.hpp
+++ b/include/mpc/NLMPC/Mapping.hpp
@@ -202,9 +202,11 @@ namespace mpc
                 Xmat.row(i) = x.middleRows(((i - 1) * nx()), nx()).transpose();
             }
 
+            // only the decision variables are scaled, the initial condition is given
+            // by the user in the measurement units of the system
             for (int i = 0; i < Xmat.cols(); i++)
             {
-                Xmat.col(i) /= 1.0 / state_scaling(i);
+                Xmat.col(i).tail(ph()) /= 1.0 / state_scaling(i);
             }
 
             // TODO add disturbaces manipulated vars
-- 
2.43.0


From 6080f19185bbd4acf3d47af56ead77883fc8751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 02/45] fix: apply the state scaling to the gradient of the
 objective function

---
 include/mpc/NLMPC/Objective.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index d982d3d..d94000f 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -102,19 +102,15 @@ namespace mpc
             {
                 computeJacobian(Xmat, Umat, c.value, e);
 
-                for (int i = 0; i < Xmat.cols(); i++)
-                {
-                    Xmat.col(i) /= 1.0 / mapping->StateScaling()(i);
-                }
-
                 int counter = 0;
 
+                // the decision variables are the scaled states
                 // #pragma omp parallel for
                 for (int j = 0; j < (int)Jx.cols(); j++)
                 {
                     for (int i = 0; i < (int)Jx.rows(); i++)
                     {
-                        c.grad(counter++) = Jx(i, j);
+                        c.grad(counter++) = Jx(i, j) * mapping->StateScaling()(i);
                     }
                 }
 
-- 
2.43.0


From f513d7162c5c54991f42b3cc0fb56308513b1f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 03/45] fix: size the objective finite differences on the
 perturbed variable

---
 include/mpc/NLMPC/Objective.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index d94000f..4d41aa5 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -201,7 +201,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) = x0(ix, j) + dx;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     x0(ix, j) = x0(ix, j) - dx;
@@ -221,7 +221,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     int k = j;
-                    double du = dv * Ua.array()(k);
+                    double du = dv * Ua(i, k);
                     u0(i, k) = u0(i, k) + du;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     u0(i, k) = u0(i, k) - du;
@@ -235,7 +235,7 @@ namespace mpc
             for (size_t j = 0; j < nu(); j++)
             {
                 int k = j;
-                double du = dv * Ua.array()(k);
+                double du = dv * Ua((ph() - 1), k);
                 u0((ph() - 1), k) = u0((ph() - 1), k) + du;
                 u0(ph(), k) = u0(ph(), k) + du;
                 double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
-- 
2.43.0


From 540e23dd07f199cbe7b074deaba7b364f2de8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 04/45] fix: keep the objective slack derivative away from
 round-off

---
 include/mpc/NLMPC/Objective.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index 4d41aa5..e172ddb 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -245,7 +245,7 @@ namespace mpc
                 Jmv(j, (ph() - 1)) = df;
             }
 
-            double ea = fmax(1e-6, abs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             double f1 = fuser(x0, model->getOutput(x0, u0), u0, e0 + de);
             double f2 = fuser(x0, model->getOutput(x0, u0), u0, e0 - de);
-- 
2.43.0


From f620cda615aa9aa8a9e740f919b8a1d4f352693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 05/45] fix: include the held last input in the inequality
 constraints gradient

---
 include/mpc/NLMPC/Constraints.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6aa4b44..f82f636 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -688,6 +688,11 @@ namespace mpc
                 {
                     double du = dv * Ua.array()(j);
                     u0(i, j) += du;
+                    // the input of the last step is kept also at the end of the horizon
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) += du;
+                    }
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
                     COND_RESIZE_CVEC(sizer, f_minus, ineq());
@@ -696,10 +701,18 @@ namespace mpc
                     ieqUser(f_plus, x0, y0_plus, u0, e0);
 
                     u0(i, j) -= 2 * du;
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) -= 2 * du;
+                    }
                     mat<(sizer.ph + 1), sizer.ny> y0_minus = model->getOutput(x0, u0);
                     ieqUser(f_minus, x0, y0_minus, u0, e0);
 
                     u0(i, j) += du;
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) += du;
+                    }
 
                     cvec<sizer.ineq> df = (f_plus - f_minus) / (2 * du);
                     Jconmv.middleCols(i * nu(), nu()).col(j) = df;
-- 
2.43.0


From 4e01fa950faaad94092ac7b56d3d1c83e224a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 06/45] fix: keep the slack derivative of the inequality
 constraints away from round-off

---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index f82f636..b3d088c 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -719,7 +719,7 @@ namespace mpc
                 }
             }
 
-            double ea = fmax(dv, fabs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             cvec<sizer.ineq> f1, f2;
             COND_RESIZE_CVEC(sizer, f1, ineq());
-- 
2.43.0


From 209391edd720202d333e9c64565ea928f6fa3f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 07/45] fix: size the inequality constraints finite differences
 on the perturbed variable

---
 include/mpc/NLMPC/Constraints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index b3d088c..d6bc627 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -659,7 +659,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) += dx;
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
@@ -686,7 +686,7 @@ namespace mpc
             {
                 for (size_t j = 0; j < nu(); j++)
                 {
-                    double du = dv * Ua.array()(j);
+                    double du = dv * Ua(i, j);
                     u0(i, j) += du;
                     // the input of the last step is kept also at the end of the horizon
                     if (i == ph() - 1)
-- 
2.43.0


From 8e08e6628b0295b29c8fe1f56d77d4f9c7e0376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 08/45] fix: size the equality constraints finite differences
 on the perturbed input

---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index d6bc627..7bd86a7 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -791,7 +791,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     // Calculate perturbation
-                    double du = dv * Ua(ph() - 1, j);
+                    double du = dv * Ua(i, j);
                     // Forward perturbation
                     u0(i, j) += du;
                     cvec<sizer.eq> f_plus;
-- 
2.43.0


From 95f06ac3d834c890ae167fb46f5ae7d7279c7c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 09/45] fix: advance the time between the steps of the
 Runge-Kutta integrator

---
 include/mpc/Integrator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mpc/Integrator.hpp b/include/mpc/Integrator.hpp
index 768bedc..280fd68 100644
--- a/include/mpc/Integrator.hpp
+++ b/include/mpc/Integrator.hpp
@@ -46,6 +46,7 @@ public:
             k4 = m_func(t + h, sol + h * k3);
 
             sol += h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0;
+            t += h;
         }
 
         return sol;
-- 
2.43.0


From dd652428fb140a1306872a2bcdf0b7bb53ddfb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 10/45] fix: subtract a size from an integer in the right order

---
 include/mpc/Dim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Dim.hpp b/include/mpc/Dim.hpp
index 52f5a26..91d64bc 100644
--- a/include/mpc/Dim.hpp
+++ b/include/mpc/Dim.hpp
@@ -96,7 +96,7 @@ namespace mpc
 
     constexpr Size operator-(const int &v, const Size &w)
     {
-        return Size(make_dimension(w.value - v, Size::is_static(w.value, v)));
+        return Size(make_dimension(v - w.value, Size::is_static(w.value, v)));
     }
 
     constexpr Size operator*(const int &v, const Size &w)
-- 
2.43.0


From 1690aac2a353171cf7315b6c49caf194b109f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 11/45] fix: give the discrete feedforward matrix the size of
 the output

---
 include/mpc/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Utils.hpp b/include/mpc/Utils.hpp
index bf8541c..cf7c7bb 100644
--- a/include/mpc/Utils.hpp
+++ b/include/mpc/Utils.hpp
@@ -109,7 +109,7 @@ template <size_t nx, size_t nu, size_t ny>
 void discretization(
     const mat<nx, nx>& A, const mat<nx, nu>& B,
     const mat<ny, nx>& C, const mat<ny, nu>& D, const double& Ts,
-    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<nx, nu>& Dd)
+    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<ny, nu>& Dd)
 {
     // TODO this discretization works only with delay-free systems
     discretization<nx,nu>(A, B, Ts, Ad, Bd);
-- 
2.43.0


From 51c471a47f57560b35e60a7499b7776fe268bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 12/45] fix: compute the standard deviation of the solution
 times

---
 include/mpc/Profiler.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index ff3e867..2ec4d76 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -213,6 +213,7 @@ namespace mpc
 
             if (stats.numberOfSolutions > 0)
             {
+                auto previousAverage = stats.averageSolutionTime;
                 stats.averageSolutionTime = (1.0 / stats.numberOfSolutions) * (time + (stats.numberOfSolutions - 1) * stats.averageSolutionTime);
 
                 if(stats.numberOfSolutions == 1)
@@ -221,9 +222,10 @@ namespace mpc
                 }
                 else
                 {
-                    double residual = (stats.numberOfSolutions/(stats.numberOfSolutions - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
-                    double stdDev_old = (stats.numberOfSolutions - 2) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((stdDev_old + residual) / (stats.numberOfSolutions - 1));
+                    // running update of the (population) variance
+                    double residual = (time - previousAverage).count() * (time - stats.averageSolutionTime).count();
+                    double sum_old = (stats.numberOfSolutions - 1) * pow(stats.standardDeviation, 2);
+                    stats.standardDeviation = sqrt(std::max(0.0, (sum_old + residual) / stats.numberOfSolutions));
                 }
             }
         }
-- 
2.43.0


From 5ed19f5f77f02c2688dfc9a1f2f70117b4b164d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 13/45] fix: accept every horizon slice lying inside the
 horizon and no other

---
 include/mpc/IMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index 071beb9..b485572 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -255,7 +255,7 @@ namespace mpc
          */
         bool isPredictionHorizonSliceValid(const HorizonSlice& slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ph() || slice.end > (int)ph() || slice.start + slice.end > (int)ph())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ph())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The prediction horizon slice is out of bounds" << std::endl;
                 return false;
@@ -273,7 +273,7 @@ namespace mpc
          */
         bool isControlHorizonSliceValid(const HorizonSlice &slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ch() || slice.end > (int)ch() || slice.start + slice.end > (int)ch())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ch())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The control horizon slice is out of bounds" << std::endl;
                 return false;
-- 
2.43.0


From b768c38530b5b59045dd22a08cda2d86b8297aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 14/45] fix: apply the state and input scaling to the bounds of
 the non-linear optimizer

---
 include/mpc/NLMPC/NLOptimizer.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 19453fc..7ed60c9 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -100,6 +100,9 @@ namespace mpc
 
             mapping = map;
             model = sysModel;
+
+            // the scaling could have been changed
+            updateBounds();
         }
 
         /**
@@ -637,6 +640,17 @@ namespace mpc
             std::vector<double> lb_vec(lb.data(), lb.data() + lb.rows() * lb.cols());
             std::vector<double> ub_vec(ub.data(), ub.data() + ub.rows() * ub.cols());
 
+            // the bounds are in physical units while the optimization variables are scaled
+            if (mapping)
+            {
+                for (size_t i = 0; i < (ph() * nx()) + (nu() * ch()); i++)
+                {
+                    double scale = i < ph() * nx() ? mapping->StateScaling()(i % nx()) : mapping->InputScaling()((i - (ph() * nx())) % nu());
+                    lb_vec[i] /= scale;
+                    ub_vec[i] /= scale;
+                }
+            }
+
             innerOpt->set_lower_bounds(lb_vec);
             innerOpt->set_upper_bounds(ub_vec);
 
-- 
2.43.0


From c0267155338bf37196ac8781d867e2fba73963e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 15/45] fix: scale the initial guess of the non-linear
 optimizer

---
 include/mpc/NLMPC/NLOptimizer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 7ed60c9..d826776 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -429,7 +429,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j);
+                        opt_vector[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
                     }
                 }
 
@@ -437,7 +437,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j);
+                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
                     }
                 }
             }
-- 
2.43.0


From d3aa0c9d78a11bf66299f201a1834eb35154ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 16/45] fix: keep the initial guess of the non-linear optimizer
 inside the bounds

---
 include/mpc/NLMPC/NLOptimizer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index d826776..8a37dd8 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -497,6 +497,14 @@ namespace mpc
             // put the slack variable in the optimization vector
             optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
 
+            // the solver does not accept an initial guess outside the bounds
+            auto guess_lb = innerOpt->get_lower_bounds();
+            auto guess_ub = innerOpt->get_upper_bounds();
+            for (size_t i = 0; i < optX0.size(); i++)
+            {
+                optX0[i] = std::min(std::max(optX0[i], guess_lb[i]), guess_ub[i]);
+            }
+
             // let's start the optimization
             bool optimizationSuccess = false;
 
-- 
2.43.0


From c725f3f9a356b09a98ca132eb75a5d5f1bf99291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 17/45] fix: size the equality tolerances at run time

---
 include/mpc/NLMPC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index 5bbd177..d4e12d4 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -251,7 +251,7 @@ namespace mpc
             const typename IDimensionable<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)>::EConFunHandle handle, const float tol = 1e-10)
         {
             cvec<Teq> tol_vec;
-            tol_vec = cvec<Teq>::Ones(Size(Teq));
+            tol_vec = cvec<Teq>::Ones(eq());
 
             auto res = conF->setEqConstraints(handle, tol);
             ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
-- 
2.43.0


From 379806af6ecc7f813ca78ec057b62db75cf5aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 18/45] fix: let the slack move when the constraints are not
 hard

---
 include/mpc/NLMPC/NLOptimizer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 8a37dd8..d5e6a80 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -184,6 +184,11 @@ namespace mpc
                 lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
                 ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
             }
+            else
+            {
+                lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = -std::numeric_limits<float>::infinity();
+                ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = std::numeric_limits<float>::infinity();
+            }
 
             enable_warm_start = nl_param->enable_warm_start;
 
-- 
2.43.0


From 1ffbb787859175d70083597607ee4d4083bc2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 19/45] fix: remove the time limit when the parameters do not
 ask for one

---
 include/mpc/NLMPC/NLOptimizer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index d5e6a80..d81f2f8 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -139,10 +139,8 @@ namespace mpc
 
             innerOpt->set_x_weights(1.0);
 
-            if (nl_param->time_limit > 0)
-            {
-                innerOpt->set_maxtime(nl_param->time_limit);
-            }
+            // a non positive value means no time limit
+            innerOpt->set_maxtime(nl_param->time_limit > 0 ? nl_param->time_limit : 0);
 
             innerOpt->set_maxeval(nl_param->maximum_iteration);
 
-- 
2.43.0


From bd711fab3e215b3cf2c7c1a8678874198156631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 20/45] fix: contain any failure of the user functions during
 the optimization

---
 include/mpc/NLMPC/NLOptimizer.hpp | 58 +++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index d81f2f8..3c8a784 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -420,6 +420,9 @@ namespace mpc
 
             Result<sizer.nu> r;
 
+            // the previous solution must survive a failure of this optimization
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> guess = opt_vector;
+
             std::vector<double> optX0;
             optX0.assign(((ph() * nx()) + (nu() * ch()) + 1),0.0);
 
@@ -432,7 +435,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
+                        guess[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
                     }
                 }
 
@@ -440,7 +443,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
+                        guess[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
                     }
                 }
             }
@@ -454,10 +457,10 @@ namespace mpc
                 {
                     if(i == ph() - 1)
                     {
-                        optX0[(i * nx()) + j] = opt_vector[(i * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[(i * nx()) + j];
                     }
                     else{
-                        optX0[(i * nx()) + j] = opt_vector[((i+1) * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[((i+1) * nx()) + j];
                     }
                 }
             }
@@ -468,7 +471,7 @@ namespace mpc
             // convert from the optimized vector to the vectorized manipulated variable
             // using the mapping matrix Iz2u
             cvec<(sizer.ph * sizer.nu)> tmp_mult;
-            tmp_mult = mapping->Iz2u() * opt_vector.middleRows((ph() * nx()), (nu() * ch()));
+            tmp_mult = mapping->Iz2u() * guess.middleRows((ph() * nx()), (nu() * ch()));
 
             // fill the remaining elements with the previous control action starting from
             // the third element of the control horizon
@@ -511,16 +514,32 @@ namespace mpc
             // let's start the optimization
             bool optimizationSuccess = false;
 
+            mat<(sizer.ph + 1), sizer.nx> Xmat;
+            COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
+
+            mat<(sizer.ph + 1), sizer.nu> Umat;
+            COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
+
+            mat<(sizer.ph + 1), sizer.ny> Ymat;
+
             try
             {
                 std::vector<double> opt_v = innerOpt->optimize(optX0);
                 // convert from std vector to eigen vector by copying the data
-                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(opt_vector);
-                optimizationSuccess = true;
-                is_first_iteration = false;
+                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(guess);
 
                 // check if the solution vector is feasible or not
-                r.is_feasible = conFunc->isFeasible(opt_vector);
+                r.is_feasible = conFunc->isFeasible(guess);
+
+                double slack;
+                mapping->unwrapVector(guess, x0, Xmat, Umat, slack);
+                Ymat = model->getOutput(Xmat, Umat);
+
+                // no user function is called from here on, the solution can be stored
+                opt_vector = guess;
+                currentSlack = slack;
+                optimizationSuccess = true;
+                is_first_iteration = false;
 
                 if (r.is_feasible)
                 {
@@ -557,6 +576,16 @@ namespace mpc
                 optimizationSuccess = false;
                 r.solver_status_msg = "Internal solver error: " + std::string(e.what());
             }
+            catch (...)
+            {
+                Logger::instance().log(Logger::log_type::DETAIL)
+                    << "No optimal solution found: unknown exception"
+                    << std::endl;
+
+                // the user functions can throw anything
+                optimizationSuccess = false;
+                r.solver_status_msg = "Internal solver error: unknown exception";
+            }
 
             if (optimizationSuccess)
             {
@@ -581,14 +610,6 @@ namespace mpc
                     << r.cost
                     << std::endl;
 
-                mat<(sizer.ph + 1), sizer.nx> Xmat;
-                COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
-
-                mat<(sizer.ph + 1), sizer.nu> Umat;
-                COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
-
-                mapping->unwrapVector(opt_vector, x0, Xmat, Umat, currentSlack);
-
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Optimal predicted state vector\n"
                     << Xmat
@@ -602,10 +623,11 @@ namespace mpc
 
                 sequence.state = Xmat.block(0, 0, ph()+1, nx());
                 sequence.input = Umat.block(0, 0, ph()+1, nu());
-                sequence.output = model->getOutput(Xmat, Umat).block(0, 0, ph()+1, ny());
+                sequence.output = Ymat.block(0, 0, ph()+1, ny());
             }
             else
             {
+                r.is_feasible = false;
                 r.cost = mpc::inf;
                 r.cmd = result.cmd;
                 r.solver_status = -1;
-- 
2.43.0


From 4e7d67289461e717484e5eb43b488023d432b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 21/45] fix: start from a zero slack when the warm start is
 disabled

---
 include/mpc/NLMPC/NLOptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 3c8a784..8a4ce55 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -501,7 +501,7 @@ namespace mpc
             }
 
             // put the slack variable in the optimization vector
-            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
+            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = (is_first_iteration || !enable_warm_start) ? 0.0 : currentSlack;
 
             // the solver does not accept an initial guess outside the bounds
             auto guess_lb = innerOpt->get_lower_bounds();
-- 
2.43.0


From c7367d018ac3241a740c08a1f25845542684b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 22/45] fix: keep the warm start of the non-linear optimizer
 valid when the scaling changes

---
 include/mpc/NLMPC/NLOptimizer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 8a4ce55..fb46719 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -426,6 +426,12 @@ namespace mpc
             std::vector<double> optX0;
             optX0.assign(((ph() * nx()) + (nu() * ch()) + 1),0.0);
 
+            // the previous solution is stored in physical units since the scaling could have been changed
+            for (size_t i = 0; i < (ph() * nx()) + (nu() * ch()); i++)
+            {
+                guess[i] /= i < ph() * nx() ? mapping->StateScaling()(i % nx()) : mapping->InputScaling()((i - (ph() * nx())) % nu());
+            }
+
             if(is_first_iteration || !enable_warm_start)
             {
                 // the whole optimization vector is initialized with the initial state x0
@@ -537,6 +543,10 @@ namespace mpc
 
                 // no user function is called from here on, the solution can be stored
                 opt_vector = guess;
+                for (size_t i = 0; i < (ph() * nx()) + (nu() * ch()); i++)
+                {
+                    opt_vector[i] *= i < ph() * nx() ? mapping->StateScaling()(i % nx()) : mapping->InputScaling()((i - (ph() * nx())) % nu());
+                }
                 currentSlack = slack;
                 optimizationSuccess = true;
                 is_first_iteration = false;
-- 
2.43.0


From 97403a1e0deccdbb130c5bf44507c7769b090792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 23/45] fix: replace the constraints of the non-linear
 optimizer when a function is defined again

---
 include/mpc/NLMPC/NLOptimizer.hpp | 147 +++++++++++++++++-------------
 1 file changed, 84 insertions(+), 63 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index fb46719..1035e24 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -237,27 +237,11 @@ namespace mpc
         {
             checkOrQuit();
 
-            try
-            {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
-                Logger::instance().log(Logger::log_type::DETAIL)
-                    << "Adding state defined equality constraints"
-                    << std::endl;
-                return true;
-            }
-            catch (const std::exception &e)
-            {
-                Logger::instance().log(Logger::log_type::DETAIL)
-                    << "Unable to bind constraints function\n"
-                    << e.what()
-                    << '\n';
-                return false;
-            }
+            Logger::instance().log(Logger::log_type::DETAIL)
+                << "Adding state defined equality constraints"
+                << std::endl;
+
+            return replaceTolerances(state_eq_tol, std::vector<double>(tol.data(), tol.data() + tol.rows() * tol.cols()));
         }
 
         /**
@@ -274,27 +258,11 @@ namespace mpc
         {
             checkOrQuit();
 
-            try
-            {
-                innerOpt->add_inequality_mconstraint(
-                    NLOptimizer::nloptUserIneqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
-                Logger::instance().log(Logger::log_type::DETAIL)
-                    << "Adding user inequality constraints"
-                    << std::endl;
-                return true;
-            }
-            catch (const std::exception &e)
-            {
-                Logger::instance().log(Logger::log_type::DETAIL)
-                    << "Unable to bind constraints function\n"
-                    << e.what()
-                    << '\n';
-                return false;
-            }
+            Logger::instance().log(Logger::log_type::DETAIL)
+                << "Adding user inequality constraints"
+                << std::endl;
+
+            return replaceTolerances(user_ineq_tol, std::vector<double>(tol.data(), tol.data() + tol.rows() * tol.cols()));
         }
 
         /**
@@ -312,27 +280,11 @@ namespace mpc
         {
             checkOrQuit();
 
-            try
-            {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptUserEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
-                Logger::instance().log(Logger::log_type::DETAIL)
-                    << "Adding user equality constraints"
-                    << std::endl;
-                return true;
-            }
-            catch (const std::exception &e)
-            {
-                Logger::instance().log(Logger::log_type::DETAIL)
-                    << "Unable to bind constraints function\n"
-                    << e.what()
-                    << '\n';
-                return false;
-            }
+            Logger::instance().log(Logger::log_type::DETAIL)
+                << "Adding user equality constraints"
+                << std::endl;
+
+            return replaceTolerances(user_eq_tol, std::vector<double>(tol.data(), tol.data() + tol.rows() * tol.cols()));
         }
 
         /**
@@ -674,6 +626,73 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Change the tolerances of one of the constraints and bind all the constraints again.
+         * In case of failure the previous tolerances are restored
+         *
+         * @param current tolerances to change
+         * @param tol new tolerances
+         * @return true
+         * @return false
+         */
+        bool replaceTolerances(std::vector<double> &current, std::vector<double> tol)
+        {
+            current.swap(tol);
+
+            if (bindConstraints())
+            {
+                return true;
+            }
+
+            current.swap(tol);
+            bindConstraints();
+            return false;
+        }
+
+        /**
+         * @brief Bind the constraints class with the internal solver constraints. The solver does not
+         * replace a constraint, so binding one of them again requires to remove all of them first
+         *
+         * @return true
+         * @return false
+         */
+        bool bindConstraints()
+        {
+            try
+            {
+                innerOpt->remove_equality_constraints();
+                innerOpt->remove_inequality_constraints();
+
+                if (!state_eq_tol.empty())
+                {
+                    innerOpt->add_equality_mconstraint(NLOptimizer::nloptEqConFunWrapper, conFunc.get(), state_eq_tol);
+                }
+                if constexpr (sizer.ineq.value != 0)
+                {
+                    if (!user_ineq_tol.empty())
+                    {
+                        innerOpt->add_inequality_mconstraint(NLOptimizer::nloptUserIneqConFunWrapper, conFunc.get(), user_ineq_tol);
+                    }
+                }
+                if constexpr (sizer.eq.value != 0)
+                {
+                    if (!user_eq_tol.empty())
+                    {
+                        innerOpt->add_equality_mconstraint(NLOptimizer::nloptUserEqConFunWrapper, conFunc.get(), user_eq_tol);
+                    }
+                }
+                return true;
+            }
+            catch (const std::exception &e)
+            {
+                Logger::instance().log(Logger::log_type::DETAIL)
+                    << "Unable to bind constraints function\n"
+                    << e.what()
+                    << '\n';
+                return false;
+            }
+        }
+
         /**
          * @brief Update the bounds for the internal solver
          */
@@ -906,6 +925,8 @@ namespace mpc
 
         nlopt::opt *innerOpt;
 
+        std::vector<double> state_eq_tol, user_ineq_tol, user_eq_tol;
+
         std::shared_ptr<Objective<sizer>> objFunc;
         std::shared_ptr<Constraints<sizer>> conFunc;
         std::shared_ptr<Mapping<sizer>> mapping;
-- 
2.43.0


From cc79e118f761635505b9ad62a7ac23f17044ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 24/45] fix: do not report a constraint that is not a number as
 satisfied and accept empty constraints

---
 include/mpc/NLMPC/Constraints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 7bd86a7..e482d08 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -161,7 +161,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all inequality constraints are satisfied (<= 0)
-                if ((cineq_user.array() > ieq_tolerance).any())
+                if (!(cineq_user.array() <= ieq_tolerance).all())
                 {
                     return false;
                 }
@@ -180,7 +180,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all equality constraints are satisfied (== 0)
-                if (ceq_user.array().abs().maxCoeff() > eq_tolerance)
+                if (!(ceq_user.array().abs() <= eq_tolerance).all())
                 {
                     return false;
                 }
-- 
2.43.0


From 72ecdc385fc41aa1cf7b67690dd749a449d50bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 25/45] fix: extend the last input bounds of the control
 horizon to the prediction horizon

---
 include/mpc/LMPC/ProblemBuilder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1f3af24..3986285 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -405,8 +405,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch());
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch());
+                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch() - 1).replicate(1, ph() - ch());
+                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch() - 1).replicate(1, ph() - ch());
             }
 
             return buildTimeInvariantTems();
@@ -473,6 +473,13 @@ namespace mpc
             minU.block(0, index, nu(), 1) = UMin;
             maxU.block(0, index, nu(), 1) = UMax;
 
+            // the last bounds of the control horizon hold on the remaining part of the prediction horizon
+            if (index + 1 == ch() && ch() < ph())
+            {
+                minU.block(0, ch(), nu(), ph() - ch()) = UMin.replicate(1, ph() - ch());
+                maxU.block(0, ch(), nu(), ph() - ch()) = UMax.replicate(1, ph() - ch());
+            }
+
             return buildTimeInvariantTems();
         }
 
-- 
2.43.0


From 9f435074eb207bf22f9156a0199171617fe3d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 26/45] fix: hold the command right from the end of the control
 horizon

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 3986285..1f1abd1 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -788,8 +788,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph(); i++)
             {
-                minDeltaU = (i > ch()) ? 0.0 : -inf;
-                maxDeltaU = (i > ch()) ? 0.0 : inf;
+                minDeltaU = (i >= ch()) ? 0.0 : -inf;
+                maxDeltaU = (i >= ch()) ? 0.0 : inf;
 
                 lineq.middleRows(
                     (((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny())) + (i * nu()),
-- 
2.43.0


From aff31e223aacced9f62ef21159196a800ca1b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 27/45] fix: apply the input bounds to the command of their own
 step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1f1abd1..9542d49 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -741,7 +741,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph() + 1; i++)
             {
-                if (i == ph())
+                // at the step i the augmented state stores the command of the step i-1
+                if (i > 0)
                 {
                     tmpMinU = minU.col(i - 1);
                     tmpMaxU = maxU.col(i - 1);
-- 
2.43.0


From c54f898ac1e933ebb8a60be37e61cda5464d2270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 28/45] fix: pair each command increment with the reference of
 its own step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 9542d49..1522419 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -565,21 +565,18 @@ namespace mpc
                 // step of the prediction horizon there is the current state of the system)
                 cvec<sizer.ny> yRef_ex;
                 cvec<sizer.nu> uRef_ex;
-                cvec<sizer.nu> deltaURef_ex;
                 cvec<sizer.ndu> uMeas_ex;
 
                 if (i == 0)
                 {
                     yRef_ex = yRef.col(0);
                     uRef_ex = uRef.col(0);
-                    deltaURef_ex = deltaURef.col(0);
                     uMeas_ex = uMeas.col(0);
                 }
                 else
                 {
                     yRef_ex = yRef.col(i - 1);
                     uRef_ex = uRef.col(i - 1);
-                    deltaURef_ex = deltaURef.col(i - 1);
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
@@ -598,7 +595,7 @@ namespace mpc
                 {
                     mpcProblem.q.middleRows(
                         ((ph() + 1) * (nu() + nx())) + (i * nu()),
-                        nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef_ex);
+                        nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef.col(i));
                 }
 
                 // the first entry of the state evolution is the initial condition of the states
-- 
2.43.0


From ab4a79e446f96072e275e31e0f39c923a424a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 29/45] fix: accept the measured disturbances on every slice of
 the prediction horizon

---
 include/mpc/LMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 16f0ff7..e25cab9 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -567,8 +567,8 @@ namespace mpc
             }
             else
             {
-                // Replicate on segment of the control horizon
-                if(isControlHorizonSliceValid(slice))
+                // Replicate on segment of the prediction horizon
+                if(isPredictionHorizonSliceValid(slice))
                 {
                     bool ret = true;
 
-- 
2.43.0


From f3621041ac3770bb8cf77a0752a6a2abc9953936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 30/45] fix: use the measured disturbance of the same step for
 the output

---
 include/mpc/LMPC/LOptimizer.hpp     | 5 +++--
 include/mpc/LMPC/ProblemBuilder.hpp | 9 +++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 820d2b2..1c34d29 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -327,9 +327,10 @@ namespace mpc
                     }
 
                     // this just the state mapping together with the optional exogeneous input
-                    if (i == 0)
+                    // (the last measured disturbance is held on the last step of the horizon)
+                    if (i < ph())
                     {
-                        sequence.output.row(i) = builder->mapToOutput(sequence.state.row(i), extInputMeas.col(0));
+                        sequence.output.row(i) = builder->mapToOutput(sequence.state.row(i), extInputMeas.col(i));
                     }
                     else
                     {
diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1522419..9e083c7 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -566,6 +566,7 @@ namespace mpc
                 cvec<sizer.ny> yRef_ex;
                 cvec<sizer.nu> uRef_ex;
                 cvec<sizer.ndu> uMeas_ex;
+                cvec<sizer.ndu> uMeasOut_ex;
 
                 if (i == 0)
                 {
@@ -580,6 +581,10 @@ namespace mpc
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
+                // the output at the step i depends on the disturbance at the same step, while
+                // the state has been reached under the effect of the previous one
+                uMeasOut_ex = uMeas.col(i < ph() ? i : i - 1);
+
                 eRef << yRef_ex, uRef_ex;
 
                 wExtendedState.block(0, 0, ny(), ny()) = wOutput.col(i).asDiagonal();
@@ -588,7 +593,7 @@ namespace mpc
                     nu(), nu()) = wU.col(i).asDiagonal();
 
                 mpcProblem.q.middleRows(
-                    i * (nx() + nu()), nx() + nu()) = ssC.transpose() * wExtendedState * (-eRef + (ssDv * uMeas_ex));
+                    i * (nx() + nu()), nx() + nu()) = ssC.transpose() * wExtendedState * (-eRef + (ssDv * uMeasOut_ex));
 
                 // the command increments stop at the last prediction horizon step
                 if (i < ph())
@@ -608,7 +613,7 @@ namespace mpc
                 // any contribution of the exogenous inputs on the output function
                 ineq_offset.middleRows(
                     (i * ny()) + ((ph() + 1) * (nu() + nx())),
-                    ny()) = -ssDv.block(0, 0, ny(), ndu()) * uMeas_ex;
+                    ny()) = -ssDv.block(0, 0, ny(), ndu()) * uMeasOut_ex;
             }
 
             // state evolution depends on the initial condition and
-- 
2.43.0


From 7bcf367da1f73878cf2a82cf7aa527144c66c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 31/45] fix: pair the state with the command of the same step
 in the scalar constraint

---
 include/mpc/LMPC/ProblemBuilder.hpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 9e083c7..e1bfc1e 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -326,11 +326,7 @@ namespace mpc
                 sMax(0) = max;
             }
 
-            for (size_t i = 0; i < ph() + 1; i++)
-            {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
-            }
-
+            buildScalarMultiplier(X, U);
             return buildTimeInvariantTems();
         }
 
@@ -356,11 +352,7 @@ namespace mpc
             sMax.segment(1, ph()) = MaxMat;
             sMax(0) = MaxMat(0);
 
-            for (size_t i = 0; i < ph() + 1; i++)
-            {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
-            }
-
+            buildScalarMultiplier(X, U);
             return buildTimeInvariantTems();
         }
 
@@ -642,6 +634,23 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Build the matrix of the scalar constraint. The augmented state stores at the
+         * step i+1 the command of the step i, the last command is held on the last step
+         *
+         * @param X the constant term multiplied to the state
+         * @param U the constant term multiplied to the input
+         */
+        void buildScalarMultiplier(const cvec<sizer.nx> &X, const cvec<sizer.nu> &U)
+        {
+            for (size_t i = 0; i < ph() + 1; i++)
+            {
+                size_t cmdStep = (i < ph()) ? i + 1 : i;
+                sMultiplier.block(i, i * (nx() + nu()), 1, nx()) = X.transpose();
+                sMultiplier.block(i, (cmdStep * (nx() + nu())) + nx(), 1, nu()) = U.transpose();
+            }
+        }
+
         /**
          * @brief Build the time invariant optimal control problem terms
          *
-- 
2.43.0


From 88d6a683dfe24daf8988a972d4416d15aa163f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 32/45] fix: forward the constraints of a single step to the
 existing setters

---
 include/mpc/LMPC.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index e25cab9..649c569 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -336,7 +336,9 @@ namespace mpc
             }
 
             Logger::instance().log(Logger::log_type::DETAIL) << "Setting constraints for the step " << index << std::endl;
-            return builder.setConstraints(index, XMin, UMin, YMin, XMax, UMax, YMax);
+            bool ret = builder.setStateBounds(index, XMin, XMax);
+            ret = builder.setInputBounds(index, UMin, UMax) && ret;
+            return builder.setOutputBounds(index, YMin, YMax) && ret;
         }
 
         /**
-- 
2.43.0


From e12828454aebad1ac692dfcffdb492e87817a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 33/45] fix: report the infeasible and time limited linear
 problems as documented

---
 include/mpc/LMPC/LOptimizer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 1c34d29..47df789 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -399,13 +399,13 @@ namespace mpc
             case OSQP_SOLVED_INACCURATE:
                 return ResultStatus::SUCCESS;
             case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_DUAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_SIGINT:
                 return ResultStatus::ERROR;
             case OSQP_TIME_LIMIT_REACHED:
-                return ResultStatus::UNKNOWN;
+                return ResultStatus::MAX_ITERATION;
             case OSQP_NON_CVX:
                 return ResultStatus::ERROR;
             case OSQP_UNSOLVED:
-- 
2.43.0


From 490566ea36d9ce4d0151486874a308b970d257cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 34/45] fix: keep the last command when the linear problem does
 not have a solution

---
 include/mpc/LMPC/LOptimizer.hpp | 39 +++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 47df789..21fcef2 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -289,7 +289,7 @@ namespace mpc
 
             // if the solution is valid update the solution otherwise
             // keep the last feasible solution
-            if (work->solution->x != NULL)
+            if (exitflag == 0 && work->solution->x != NULL && hasSolution(work->info->status_val))
             {
                 // storing the previous optimal primal and dual solution to warm start
                 optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
@@ -349,11 +349,20 @@ namespace mpc
             else
             {
                 // if the solution is not valid we keep the previous solution
-                // and we set the return code to -1
+                // and we set the return code to -1, unless the solver
+                // has found out that the problem does not have a solution
                 r.cost = mpc::inf;
                 r.cmd = result.cmd;
-                r.solver_status = -1;
-                r.status = ResultStatus::ERROR;
+                if (exitflag == 0 && !hasSolution(work->info->status_val))
+                {
+                    r.solver_status = work->info->status_val;
+                    r.status = convertToResultStatus(r.solver_status);
+                }
+                else
+                {
+                    r.solver_status = -1;
+                    r.status = ResultStatus::ERROR;
+                }
 
                 // in case of invalid solution we ouput all the sequences to zero
                 sequence.state.setZero();
@@ -373,6 +382,28 @@ namespace mpc
         std::vector<double> optimal_prev_x, optimal_prev_y;
 
     private:
+        /**
+         * @brief Check if the solver provides a solution when it stops with a given status
+         *
+         * @param status The integer value representing the status.
+         * @return true if the primal and dual vectors of the solver are meaningful
+         * @return false if the problem does not have a solution (the vectors are not a number)
+         */
+        bool hasSolution(int status)
+        {
+            switch (status)
+            {
+            case OSQP_PRIMAL_INFEASIBLE:
+            case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
+            case OSQP_DUAL_INFEASIBLE:
+            case OSQP_DUAL_INFEASIBLE_INACCURATE:
+            case OSQP_NON_CVX:
+                return false;
+            default:
+                return true;
+            }
+        }
+
         /**
          * @brief Converts an integer value representing the possible statuses to the corresponding ResultStatus enum value.
          *
-- 
2.43.0


From d0f96a1193c48af4a0747b42b184a12bdc9cbe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 35/45] fix: survive a failed set-up of the linear solver and
 release its data once

---
 include/mpc/LMPC/LOptimizer.hpp | 52 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 21fcef2..ebc3a3c 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -263,28 +263,30 @@ namespace mpc
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "Unable to setup " << exitflag << std::endl;
             }
-
-            // warm starting the solver
-            if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+            else
             {
-                exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
-                if (exitflag > 0)
+                // warm starting the solver
+                if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
                 {
-                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to warm start " << exitflag << std::endl;
+                    exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
+                    if (exitflag > 0)
+                    {
+                        Logger::instance().log(Logger::log_type::ERROR) << "Unable to warm start " << exitflag << std::endl;
+                    }
+                }
+                else
+                {
+                    // if we choose to use the warm start but we don't have a solution yet we cannot use it
+                    // we need to wait to have at least a solution
+                    osqp_update_warm_start(work, 0);
                 }
-            }
-            else
-            {
-                // if we choose to use the warm start but we don't have a solution yet we cannot use it
-                // we need to wait to have at least a solution
-                osqp_update_warm_start(work, 0);
-            }
 
-            // solve problem
-            exitflag = osqp_solve(work);
-            if (exitflag > 0)
-            {
-                Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                // solve problem
+                exitflag = osqp_solve(work);
+                if (exitflag > 0)
+                {
+                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                }
             }
 
             // if the solution is valid update the solution otherwise
@@ -514,7 +516,11 @@ namespace mpc
          */
         void clearData()
         {
-            osqp_cleanup(work);
+            if (work)
+            {
+                osqp_cleanup(work);
+                work = nullptr;
+            }
 
             if (data)
             {
@@ -527,11 +533,13 @@ namespace mpc
                     csc_spfree(data->P);
                 }
                 c_free(data);
+                data = nullptr;
             }
 
             if (settings)
             {
                 c_free(settings);
+                settings = nullptr;
             }
         }
 
@@ -547,9 +555,9 @@ namespace mpc
             data->A = nullptr;
         }
 
-        OSQPWorkspace *work;
-        OSQPSettings *settings;
-        OSQPData *data;
+        OSQPWorkspace *work = nullptr;
+        OSQPSettings *settings = nullptr;
+        OSQPData *data = nullptr;
         c_int exitflag = 0;
 
         mat<sizer.ny, sizer.ph> outSysRef;
-- 
2.43.0


From 660466319d79cbf5049547b81d9e39d496271508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 36/45] fix: release the optimizer of the linear controller

---
 include/mpc/LMPC.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 649c569..fe738e0 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -60,7 +60,10 @@ namespace mpc
             setDimension(nx, nu, ndu, ny, ph, ch);
         }
 
-        ~LMPC() = default;
+        ~LMPC()
+        {
+            delete optPtr;
+        }
 
         /**
          * @brief (NOT AVAILABLE) Set the discretization time step to use for numerical integration
-- 
2.43.0


From 16490728193cae793fdcc0d0bcbbd7dd5185d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 37/45] fix: ignore a warm start pair which does not fit the
 linear problem

---
 include/mpc/LMPC/LOptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index ebc3a3c..adc7aca 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -266,7 +266,7 @@ namespace mpc
             else
             {
                 // warm starting the solver
-                if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+                if (settings->warm_start && optimal_prev_x.size() == (size_t)numVars && optimal_prev_y.size() == (size_t)numConstraints)
                 {
                     exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
                     if (exitflag > 0)
-- 
2.43.0


From 7d484e4fb8107b5aea53025134c8620dd85e80de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 38/45] fix: export the feasibility of the result to python

---
 python/pybind_export.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 308cf90..72209d8 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -147,7 +147,8 @@ PYBIND11_MODULE(pympcxx, m)
         .def_readonly("solver_status_msg", &ResulType::solver_status_msg)
         .def_readonly("cost", &ResulType::cost)
         .def_readonly("cmd", &ResulType::cmd)
-        .def_readonly("status", &ResulType::status);
+        .def_readonly("status", &ResulType::status)
+        .def_readonly("is_feasible", &ResulType::is_feasible);
 
     // export the solution stats struct to python
     using StatsType = mpc::SolutionStats;
-- 
2.43.0


From 0d4766eb343b5c40dc777df4be7aba4e1dbf9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 39/45] fix: export the optimal sequence returned by
 getOptimalSequence to python

---
 python/pybind_export.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 72209d8..4f782c0 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -150,6 +150,14 @@ PYBIND11_MODULE(pympcxx, m)
         .def_readonly("status", &ResulType::status)
         .def_readonly("is_feasible", &ResulType::is_feasible);
 
+    // export the optimal sequence struct to python
+    using SequenceType = mpc::OptSequence<Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic>;
+
+    py::class_<SequenceType>(m, "OptSequence")
+        .def_readonly("state", &SequenceType::state)
+        .def_readonly("output", &SequenceType::output)
+        .def_readonly("input", &SequenceType::input);
+
     // export the solution stats struct to python
     using StatsType = mpc::SolutionStats;
 
-- 
2.43.0


From 9da90990058f82f09dfb291c9bc03e99bb8d1a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 40/45] fix: export the optimizer parameters taken by
 setOptimizerParameters to python

---
 python/pybind_export.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 4f782c0..5f40c63 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -139,6 +139,32 @@ PYBIND11_MODULE(pympcxx, m)
         .value("NONE", mpc::Logger::log_level::NONE)
         .export_values();
 
+    // export the optimizer parameters to python
+    py::class_<mpc::Parameters, std::unique_ptr<mpc::Parameters, py::nodelete>>(m, "Parameters")
+        .def_readwrite("maximum_iteration", &mpc::Parameters::maximum_iteration)
+        .def_readwrite("time_limit", &mpc::Parameters::time_limit)
+        .def_readwrite("enable_warm_start", &mpc::Parameters::enable_warm_start);
+
+    py::class_<mpc::NLParameters, mpc::Parameters>(m, "NLParameters")
+        .def(py::init<>())
+        .def_readwrite("relative_ftol", &mpc::NLParameters::relative_ftol)
+        .def_readwrite("relative_xtol", &mpc::NLParameters::relative_xtol)
+        .def_readwrite("absolute_ftol", &mpc::NLParameters::absolute_ftol)
+        .def_readwrite("absolute_xtol", &mpc::NLParameters::absolute_xtol)
+        .def_readwrite("hard_constraints", &mpc::NLParameters::hard_constraints);
+
+    py::class_<mpc::LParameters, mpc::Parameters>(m, "LParameters")
+        .def(py::init<>())
+        .def_readwrite("alpha", &mpc::LParameters::alpha)
+        .def_readwrite("rho", &mpc::LParameters::rho)
+        .def_readwrite("eps_rel", &mpc::LParameters::eps_rel)
+        .def_readwrite("eps_abs", &mpc::LParameters::eps_abs)
+        .def_readwrite("eps_prim_inf", &mpc::LParameters::eps_prim_inf)
+        .def_readwrite("eps_dual_inf", &mpc::LParameters::eps_dual_inf)
+        .def_readwrite("verbose", &mpc::LParameters::verbose)
+        .def_readwrite("adaptive_rho", &mpc::LParameters::adaptive_rho)
+        .def_readwrite("polish", &mpc::LParameters::polish);
+
     // export the result struct to python
     using ResulType = mpc::Result<Eigen::Dynamic>;
 
-- 
2.43.0


From 96c644f5a31210be6e2c10ffd6fb2bc2de73afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 41/45] fix: export the setting of the references as matrices
 to python

---
 python/pybind_export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 5f40c63..380d6d4 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -119,7 +119,7 @@ void expose_LMPC(py::module &m)
         .def("setScalarConstraint", py::overload_cast<const double, const double, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setScalarConstraint))
         .def("setExogenousInputs", py::overload_cast<const Eigen::MatrixXd &>(&LMPCType::setExogenousInputs))
         .def("setExogenousInputs", py::overload_cast<const Eigen::VectorXd &, const mpc::HorizonSlice&>(&LMPCType::setExogenousInputs))
-        .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences))
+        .def("setReferences", py::overload_cast<const Eigen::MatrixXd, const Eigen::MatrixXd, const Eigen::MatrixXd>(&LMPCType::setReferences))
         .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences));
 }
 
-- 
2.43.0


From 02326a7d6090dddaeabc02526ac40bfadbd9d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 42/45] fix: report constraint definitions that the solver
 refuses and do not use them

---
 include/mpc/NLMPC.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index d4e12d4..90889cc 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -173,6 +173,16 @@ namespace mpc
             COND_RESIZE_CVEC(MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq), eq_tol_vec, (ph() * nx()));
             eq_tol_vec.setOnes();
 
+            Logger::instance().log(Logger::log_type::DETAIL)
+                << "Binding state space constraints"
+                << std::endl;
+
+            // constraints that the solver refuses are not used at all
+            if (!((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindEq(constraints_type::EQ, eq_tol_vec * eq_tol))
+            {
+                return false;
+            }
+
             Logger::instance().log(Logger::log_type::DETAIL)
                 << "Setting state space function handle"
                 << std::endl;
@@ -183,12 +193,6 @@ namespace mpc
             conF->setModel(model, mapping);
             ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->setModel(model, mapping);
 
-            Logger::instance().log(Logger::log_type::DETAIL)
-                << "Binding state space constraints"
-                << std::endl;
-
-            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindEq(constraints_type::EQ, eq_tol_vec * eq_tol);
-
             return res;
         }
 
@@ -231,8 +235,9 @@ namespace mpc
             cvec<Tineq> tol_vec;
             tol_vec = cvec<Tineq>::Ones(ineq());
 
-            auto res = conF->setIneqConstraints(handle, tol);
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
+            // constraints that the solver refuses are not used at all
+            auto res = ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
+            res = res && conF->setIneqConstraints(handle, tol);
             return res;
         }
 
@@ -253,8 +258,9 @@ namespace mpc
             cvec<Teq> tol_vec;
             tol_vec = cvec<Teq>::Ones(eq());
 
-            auto res = conF->setEqConstraints(handle, tol);
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
+            // constraints that the solver refuses are not used at all
+            auto res = ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
+            res = res && conF->setEqConstraints(handle, tol);
             return res;
         }
 
-- 
2.43.0


From 0b3fbc26a23a229819b054a289f1e60589f3606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:07 +0000
Subject: [PATCH 43/45] fix: keep the multipliers of the scalar constraint of
 each horizon step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index e1bfc1e..2784b8c 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -326,7 +326,13 @@ namespace mpc
                 sMax(0) = max;
             }
 
-            buildScalarMultiplier(X, U);
+            // the multipliers belong to the step, like its limits
+            buildScalarMultiplier(index + 1, X, U);
+            if (index == 0)
+            {
+                buildScalarMultiplier(0, X, U);
+            }
+
             return buildTimeInvariantTems();
         }
 
@@ -352,7 +358,11 @@ namespace mpc
             sMax.segment(1, ph()) = MaxMat;
             sMax(0) = MaxMat(0);
 
-            buildScalarMultiplier(X, U);
+            for (size_t i = 0; i < ph() + 1; i++)
+            {
+                buildScalarMultiplier(i, X, U);
+            }
+
             return buildTimeInvariantTems();
         }
 
@@ -638,17 +648,15 @@ namespace mpc
          * @brief Build the matrix of the scalar constraint. The augmented state stores at the
          * step i+1 the command of the step i, the last command is held on the last step
          *
+         * @param step the row of the constraint, from the initial state on
          * @param X the constant term multiplied to the state
          * @param U the constant term multiplied to the input
          */
-        void buildScalarMultiplier(const cvec<sizer.nx> &X, const cvec<sizer.nu> &U)
+        void buildScalarMultiplier(const size_t step, const cvec<sizer.nx> &X, const cvec<sizer.nu> &U)
         {
-            for (size_t i = 0; i < ph() + 1; i++)
-            {
-                size_t cmdStep = (i < ph()) ? i + 1 : i;
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx()) = X.transpose();
-                sMultiplier.block(i, (cmdStep * (nx() + nu())) + nx(), 1, nu()) = U.transpose();
-            }
+            size_t cmdStep = (step < ph()) ? step + 1 : step;
+            sMultiplier.block(step, step * (nx() + nu()), 1, nx()) = X.transpose();
+            sMultiplier.block(step, (cmdStep * (nx() + nu())) + nx(), 1, nu()) = U.transpose();
         }
 
         /**
-- 
2.43.0


From 2770403aacc3d275a55b40fa73b3e018b15caad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:25 +0000
Subject: [PATCH 44/45] fix: do not use a solution of the non-linear solver
 that is not a number

A NaN returned by a user function or contained in the measured state ends up in
the solution, which was returned as a feasible command and, with warm start
enabled, used as initial guess of every later optimization.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 1035e24..90d90ee 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -493,6 +493,12 @@ namespace mpc
                 mapping->unwrapVector(guess, x0, Xmat, Umat, slack);
                 Ymat = model->getOutput(Xmat, Umat);
 
+                // a solution that is not a number is not usable, neither now nor as starting point of a warm start
+                if (!Xmat.allFinite() || !Umat.allFinite() || !std::isfinite(slack) || std::isnan(innerOpt->last_optimum_value()))
+                {
+                    throw std::runtime_error("the solution is not a number");
+                }
+
                 // no user function is called from here on, the solution can be stored
                 opt_vector = guess;
                 for (size_t i = 0; i < (ph() * nx()) + (nu() * ch()); i++)
-- 
2.43.0


From 09f2b1396447d1b61a61414acf1457ab422c3e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:25 +0000
Subject: [PATCH 45/45] fix: do not use a solution of the linear solver that is
 not a number

The solver does not detect values that are not a number (comparisons with them
are always false), the command was returned as feasible and the solution stored
to warm start every later optimization.
---
 include/mpc/LMPC/LOptimizer.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index adc7aca..7f66423 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -291,7 +291,8 @@ namespace mpc
 
             // if the solution is valid update the solution otherwise
             // keep the last feasible solution
-            if (exitflag == 0 && work->solution->x != NULL && hasSolution(work->info->status_val))
+            // (the solver does not detect the data that are not a number)
+            if (exitflag == 0 && work->solution->x != NULL && hasSolution(work->info->status_val) && isNumber(numVars, numConstraints))
             {
                 // storing the previous optimal primal and dual solution to warm start
                 optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
@@ -406,6 +407,21 @@ namespace mpc
             }
         }
 
+        /**
+         * @brief Check if the cost and the primal and dual vectors of the solver are numbers
+         *
+         * @param numVars number of entries of the primal vector
+         * @param numConstraints number of entries of the dual vector
+         * @return true if they are all numbers
+         * @return false if any of them is not a number or not finite
+         */
+        bool isNumber(int numVars, int numConstraints)
+        {
+            return !std::isnan(work->info->obj_val) &&
+                   Eigen::Map<const cvec<Eigen::Dynamic>>(work->solution->x, numVars).allFinite() &&
+                   Eigen::Map<const cvec<Eigen::Dynamic>>(work->solution->y, numConstraints).allFinite();
+        }
+
         /**
          * @brief Converts an integer value representing the possible statuses to the corresponding ResultStatus enum value.
          *
-- 
2.43.0

