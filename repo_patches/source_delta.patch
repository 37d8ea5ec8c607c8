From bb61eb3d2771db9444a35538195b507e3f03723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 001/116] fix: destroy_wells() dereferenced missing management
 data

create_wells() calls destroy_wells() when allocating the management
structure fails; the destructor then read through a NULL pointer.
---
 opm/core/wells/wells.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index c1327f7..ededd4d 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -410,11 +410,13 @@ destroy_wells(struct Wells *W)
     if (W != NULL) {
         m = W->data;
 
-        for (w = 0; w < m->well_cpty; w++) {
+        /* Management structure is absent if create_wells() failed early, in
+         * which case there are no wells to dispose of. */
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             well_controls_destroy(W->ctrls[w]);
         }
 
-        for (w = 0; w < m->well_cpty; w++) {
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             free(W->name[w]);
         }
 
-- 
2.43.0


From 957b4beced64d7253d3970c005e3122db528eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 002/116] fix: release new well control sets when growing a
 Wells object fails

initialise_new_wells() left the control sets it had already created
behind when a later one could not be allocated; they were leaked.
---
 opm/core/wells/wells.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index ededd4d..8eac24f 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -260,7 +260,10 @@ initialise_new_wells(int nwells, struct Wells *W)
     }
 
     if (! ok) {
-        for (; w < nwells; w++) {
+        /* The capacity is not increased, so nobody else will dispose of the
+         * control sets created above. */
+        while (w > m->well_cpty) {
+            well_controls_destroy(W->ctrls[--w]);
             W->ctrls[w] = NULL;
         }
     }
-- 
2.43.0


From ac1dc245e27e4a2f7337351f1110619c90d733bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 003/116] fix: control without phase distribution inherited a
 cleared control's

After clear_well_controls(), append_well_controls() with a NULL
distribution left the distribution of the removed control in place.
---
 opm/core/wells/wells.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index 8eac24f..e49d277 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -534,7 +534,7 @@ append_well_controls(enum WellControlType type,
                      struct Wells        *W)
 /* ---------------------------------------------------------------------- */
 {
-    int ok, alloc, np;
+    int ok, alloc, np, p;
     struct WellControls    *ctrl;
     struct WellControlMgmt *m;
 
@@ -562,6 +562,13 @@ append_well_controls(enum WellControlType type,
             memcpy(ctrl->distr + (ctrl->num * np), distr,
                    np * sizeof *ctrl->distr);
         }
+        else {
+            /* Slot may hold the distribution of a control that has since been
+             * removed by clear_well_controls(). */
+            for (p = 0; p < np; ++p) {
+                ctrl->distr[ctrl->num * np + p] = 0.0;
+            }
+        }
 
         ctrl->num += 1;
     }
-- 
2.43.0


From 5bb91eca8fc27595e13bd8b011df9ac036e86da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 004/116] fix: clear_well_controls() kept an active control of
 an empty set

The stale index made clone_wells() abort and let the pressure solvers
read past the remaining controls.
---
 opm/core/wells/wells.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index e49d277..bb7e6d6 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -602,7 +602,8 @@ clear_well_controls(int well_index, struct Wells *W)
     assert ((0 <= well_index) && (well_index < W->number_of_wells));
 
     if (W->ctrls[well_index] != NULL) {
-        W->ctrls[well_index]->num = 0;
+        W->ctrls[well_index]->num     =  0;
+        W->ctrls[well_index]->current = -1;
     }
 }
 
-- 
2.43.0


From c1ba7df7392d4cea484013057b996b27f35954d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 005/116] fix: clone_wells() silently dropped well names on
 allocation failure

A complete clone, or NULL in case of allocation failure, is documented.
---
 opm/core/wells/wells.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index bb7e6d6..b2cabc6 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -647,6 +647,11 @@ clone_wells(const struct Wells *W)
                 /* Capacity should be sufficient from create_wells() */
                 assert (ok);
 
+                /* add_well() tolerates a failure to copy the name.  A clone
+                 * without the name is not a complete clone. */
+                ok = ok && ((W->name[ w ] == NULL) ||
+                            (ret->name[ w ] != NULL));
+
                 ctrls = W->ctrls[ w ];
 
                 if (ok) {
-- 
2.43.0


From 025b99e327c845951fc1d110a740651b687fa230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 006/116] fix: UMFPACK failures were reported as successful
 solves

call_UMFPACK() ignored every status code, so a singular matrix or a
failed allocation left an arbitrary solution vector behind that
LinearSolverUmfpack reported as converged.
---
 opm/core/linalg/LinearSolverUmfpack.cpp       |  3 +-
 opm/core/linalg/call_umfpack.c                | 36 +++++++++++++------
 opm/core/linalg/call_umfpack.h                |  9 ++++-
 .../implicit/CSRMatrixUmfpackSolver.hpp       |  8 +++--
 4 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/opm/core/linalg/LinearSolverUmfpack.cpp b/opm/core/linalg/LinearSolverUmfpack.cpp
index 5d459a2..778c60d 100644
--- a/opm/core/linalg/LinearSolverUmfpack.cpp
+++ b/opm/core/linalg/LinearSolverUmfpack.cpp
@@ -55,9 +55,8 @@ namespace Opm
             const_cast<int*>(ja),
             const_cast<double*>(sa)
         };
-        call_UMFPACK(&A, rhs, solution);
         LinearSolverReport rep;
-        rep.converged = true;
+        rep.converged = call_UMFPACK(&A, rhs, solution) != 0;
         return rep;
     }
 
diff --git a/opm/core/linalg/call_umfpack.c b/opm/core/linalg/call_umfpack.c
index e907442..89e927a 100644
--- a/opm/core/linalg/call_umfpack.c
+++ b/opm/core/linalg/call_umfpack.c
@@ -137,44 +137,60 @@ csr_to_csc(const int        *ia,
 
 
 /* ---------------------------------------------------------------------- */
-static void
+static int
 solve_umfpack(struct CSCMatrix *csc, const double *b, double *x)
 /* ---------------------------------------------------------------------- */
 {
+    UF_long status;
     void *Symbolic, *Numeric;
     double Info[UMFPACK_INFO], Control[UMFPACK_CONTROL];
 
+    Symbolic = NULL;
+    Numeric  = NULL;
+
     umfpack_dl_defaults(Control);
 
-    umfpack_dl_symbolic(csc->n, csc->n, csc->p, csc->i, csc->x,
-                        &Symbolic, Control, Info);
-    umfpack_dl_numeric (csc->p, csc->i, csc->x,
-                        Symbolic, &Numeric, Control, Info);
+    status = umfpack_dl_symbolic(csc->n, csc->n, csc->p, csc->i, csc->x,
+                                 &Symbolic, Control, Info);
+
+    if (status == UMFPACK_OK) {
+        status = umfpack_dl_numeric(csc->p, csc->i, csc->x,
+                                    Symbolic, &Numeric, Control, Info);
+    }
 
     umfpack_dl_free_symbolic(&Symbolic);
 
-    umfpack_dl_solve(UMFPACK_A, csc->p, csc->i, csc->x, x, b,
-                     Numeric, Control, Info);
+    /* Note: A singular matrix is reported as a warning (status > 0). */
+    if (status == UMFPACK_OK) {
+        status = umfpack_dl_solve(UMFPACK_A, csc->p, csc->i, csc->x, x, b,
+                                  Numeric, Control, Info);
+    }
 
     umfpack_dl_free_numeric(&Numeric);
+
+    return status == UMFPACK_OK;
 }
 
 
 /*---------------------------------------------------------------------------*/
-void
+int
 call_UMFPACK(struct CSRMatrix *A, const double *b, double *x)
 /*---------------------------------------------------------------------------*/
 {
+    int               ok;
     struct CSCMatrix *csc;
 
     csc = csc_allocate(A->m, A->ia[A->m]);
+    ok  = csc != NULL;
 
-    if (csc != NULL) {
+    if (ok) {
         csr_to_csc(A->ia, A->ja, A->sa, csc);
 
-        solve_umfpack(csc, b, x);
+        ok = solve_umfpack(csc, b, x);
     }
 
     csc_deallocate(csc);
+
+    return ok;
 }
 
diff --git a/opm/core/linalg/call_umfpack.h b/opm/core/linalg/call_umfpack.h
index 98ba848..81df4a8 100644
--- a/opm/core/linalg/call_umfpack.h
+++ b/opm/core/linalg/call_umfpack.h
@@ -41,7 +41,14 @@ extern "C" {
 
 struct CSRMatrix;
 
-void call_UMFPACK(struct CSRMatrix *A, const double *b, double *x);
+/**
+ * Solve linear system Ax = b using UMFPACK.
+ *
+ * \return Non-zero (true) if the system was solved, and zero (false) if the
+ * matrix is singular or if there is insufficient memory.  The contents of
+ * \c x is unspecified in the latter case.
+ */
+int call_UMFPACK(struct CSRMatrix *A, const double *b, double *x);
 
 #ifdef __cplusplus
 }
diff --git a/opm/core/transport/implicit/CSRMatrixUmfpackSolver.hpp b/opm/core/transport/implicit/CSRMatrixUmfpackSolver.hpp
index 7b20b0f..9031fb3 100644
--- a/opm/core/transport/implicit/CSRMatrixUmfpackSolver.hpp
+++ b/opm/core/transport/implicit/CSRMatrixUmfpackSolver.hpp
@@ -56,7 +56,9 @@ namespace Opm
                   Vector                  x)
             {
 #if HAVE_SUITESPARSE_UMFPACK_H
-                call_UMFPACK(const_cast<CSRMatrix*>(A), b, x);
+                if (!call_UMFPACK(const_cast<CSRMatrix*>(A), b, x)) {
+                    THROW("UMFPACK failed to solve linear system.");
+                }
 #else
     THROW("Cannot use implicit transport solver without UMFPACK. "
           "Reconfigure opm-core with SuiteSparse/UMFPACK support and recompile.");
@@ -71,7 +73,9 @@ namespace Opm
                   Vector&                 x)
             {
 #if HAVE_SUITESPARSE_UMFPACK_H
-                call_UMFPACK(const_cast<CSRMatrix*>(&A), &b[0], &x[0]);
+                if (!call_UMFPACK(const_cast<CSRMatrix*>(&A), &b[0], &x[0])) {
+                    THROW("UMFPACK failed to solve linear system.");
+                }
 #else
     THROW("Cannot use implicit transport solver without UMFPACK. "
           "Reconfigure opm-core with SuiteSparse/UMFPACK support and recompile.");
-- 
2.43.0


From fb642554900a5c6670d2d053caa1fa40bffbfc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 007/116] fix: pressure solvers ignored failed linear solves

The linear solver's report was discarded, and whatever the failed solver
left in the solution vector became the new pressure.
---
 opm/core/pressure/CompressibleTpfa.cpp |  4 +++-
 opm/core/pressure/IncompTpfa.cpp       | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 3dcb204..4a40d55 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -550,7 +550,9 @@ namespace Opm
     void CompressibleTpfa::solveIncrement()
     {
         // Increment is equal to -J^{-1}F
-        linsolver_.solve(h_->J, h_->F, &pressure_increment_[0]);
+        if (!linsolver_.solve(h_->J, h_->F, &pressure_increment_[0]).converged) {
+            THROW("Linear solver failed to solve pressure system.");
+        }
         std::transform(pressure_increment_.begin(), pressure_increment_.end(),
                        pressure_increment_.begin(), std::negate<double>());
     }
diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index d9e3aac..fcefc52 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -166,6 +166,21 @@ namespace Opm
 
 
 
+    namespace {
+        // Solve linear system, throw if that fails.
+        void solveLinearSystem(const LinearSolverInterface& linsolver,
+                               const CSRMatrix* A,
+                               const double* rhs,
+                               double* solution)
+        {
+            if (!linsolver.solve(A, rhs, solution).converged) {
+                THROW("Linear solver failed to solve pressure system.");
+            }
+        }
+    } // anonymous namespace
+
+
+
     // Solve with no rock compressibility (linear eqn).
     void IncompTpfa::solveIncomp(const double dt,
                                  TwophaseState& state,
@@ -182,7 +197,7 @@ namespace Opm
         }
 
         // Solve.
-        linsolver_.solve(h_->A, h_->b, h_->x);
+        solveLinearSystem(linsolver_, h_->A, h_->b, h_->x);
 
         // Obtain solution.
         ASSERT(int(state.pressure().size()) == grid_.number_of_cells);
@@ -419,7 +434,7 @@ namespace Opm
     {
         // Increment is equal to -J^{-1}R.
         // The Jacobian is in h_->A, residual in h_->b.
-        linsolver_.solve(h_->A, h_->b, h_->x);
+        solveLinearSystem(linsolver_, h_->A, h_->b, h_->x);
         // It is not necessary to negate the increment,
         // apparently the system for the increment is generated,
         // not the Jacobian and residual as such.
-- 
2.43.0


From d13e7a8b3d74a65c9ecbcb303250b06693ac8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 008/116] fix: non-finite pressure solutions were accepted

NaN was ignored by the norms deciding convergence (std::max() drops it),
and the linear incompressible solve had no check at all.
---
 opm/core/pressure/CompressibleTpfa.cpp | 20 +++++++++++++++++---
 opm/core/pressure/IncompTpfa.cpp       | 20 +++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 4a40d55..1168abc 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -34,6 +34,7 @@
 #include <opm/core/props/rock/RockCompressibility.hpp>
 
 #include <algorithm>
+#include <limits>
 #include <cmath>
 #include <iostream>
 #include <iomanip>
@@ -140,7 +141,7 @@ namespace Opm
                   << std::setw(9) << iter
                   << std::setw(18) << res_norm
                   << std::setw(18) << '*' << std::endl;
-        while ((iter < maxiter_) && (res_norm > residual_tol_)) {
+        while ((iter < maxiter_) && !(res_norm <= residual_tol_)) {
             // Solve for increment in Newton method:
             //   incr = x_{n+1} - x_{n} = -J^{-1}F
             // (J is Jacobian matrix, F is residual)
@@ -178,7 +179,7 @@ namespace Opm
                       << std::setw(18) << inc_norm << std::endl;
         }
 
-        if ((iter == maxiter_) && (res_norm > residual_tol_) && (inc_norm > change_tol_)) {
+        if ((iter == maxiter_) && !(res_norm <= residual_tol_) && !(inc_norm <= change_tol_)) {
             THROW("CompressibleTpfa::solve() failed to converge in " << maxiter_ << " iterations.");
         }
 
@@ -553,6 +554,12 @@ namespace Opm
         if (!linsolver_.solve(h_->J, h_->F, &pressure_increment_[0]).converged) {
             THROW("Linear solver failed to solve pressure system.");
         }
+        for (std::size_t i = 0; i < pressure_increment_.size(); ++i) {
+            // True for infinite and NaN values.
+            if (!(std::fabs(pressure_increment_[i]) <= std::numeric_limits<double>::max())) {
+                THROW("Linear solver produced a non-finite pressure increment.");
+            }
+        }
         std::transform(pressure_increment_.begin(), pressure_increment_.end(),
                        pressure_increment_.begin(), std::negate<double>());
     }
@@ -566,7 +573,14 @@ namespace Opm
         {
             double norm = 0.0;
             for (; beg != end; ++beg) {
-                norm = std::max(norm, std::fabs(*beg));
+                const double val = std::fabs(*beg);
+                // Negated comparison, so that a NaN entry is not lost.
+                if (!(val <= norm)) {
+                    norm = val;
+                    if (norm != norm) {
+                        break;
+                    }
+                }
             }
             return norm;
         }
diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index fcefc52..e162ef8 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -36,6 +36,7 @@
 #include <iomanip>
 #include <cmath>
 #include <algorithm>
+#include <limits>
 
 namespace Opm
 {
@@ -176,6 +177,12 @@ namespace Opm
             if (!linsolver.solve(A, rhs, solution).converged) {
                 THROW("Linear solver failed to solve pressure system.");
             }
+            for (size_t i = 0; i < A->m; ++i) {
+                // True for infinite and NaN values.
+                if (!(std::fabs(solution[i]) <= std::numeric_limits<double>::max())) {
+                    THROW("Linear solver produced a non-finite pressure solution.");
+                }
+            }
         }
     } // anonymous namespace
 
@@ -244,7 +251,7 @@ namespace Opm
                   << std::setw(9) << iter
                   << std::setw(18) << res_norm
                   << std::setw(18) << '*' << std::endl;
-        while ((iter < maxiter_) && (res_norm > residual_tol_)) {
+        while ((iter < maxiter_) && !(res_norm <= residual_tol_)) {
             // Solve for increment in Newton method:
             //   incr = x_{n+1} - x_{n} = -J^{-1}F
             // (J is Jacobian matrix, F is residual)
@@ -282,7 +289,7 @@ namespace Opm
                       << std::setw(18) << inc_norm << std::endl;
         }
 
-        if ((iter == maxiter_) && (res_norm > residual_tol_) && (inc_norm > change_tol_)) {
+        if ((iter == maxiter_) && !(res_norm <= residual_tol_) && !(inc_norm <= change_tol_)) {
             THROW("IncompTpfa::solve() failed to converge in " << maxiter_ << " iterations.");
         }
 
@@ -448,7 +455,14 @@ namespace Opm
         {
             double norm = 0.0;
             for (; beg != end; ++beg) {
-                norm = std::max(norm, std::fabs(*beg));
+                const double val = std::fabs(*beg);
+                // Negated comparison, so that a NaN entry is not lost.
+                if (!(val <= norm)) {
+                    norm = val;
+                    if (norm != norm) {
+                        break;
+                    }
+                }
             }
             return norm;
         }
-- 
2.43.0


From 56db3f20380df06cd25e57db27e375c15c6b6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 009/116] fix: well hydrostatic pressures were frozen at the
 first pressure solve

computeWDP() and computeFlowRatePerWell() appended to their output argument,
so a reused vector kept the values of the first call at its front.
computeWDP() also assumed three-dimensional grids and gravity vectors.
---
 opm/core/pressure/IncompTpfa.cpp   | 2 +-
 opm/core/utility/miscUtilities.cpp | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index e162ef8..eb04532 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -358,7 +358,7 @@ namespace Opm
         // wdp_
         if (wells_) {
             Opm::computeWDP(*wells_, grid_, state.saturation(), props_.density(),
-                            gravity_ ? gravity_[2] : 0.0, true, wdp_);
+                            gravity_ ? gravity_[grid_.dimensions - 1] : 0.0, true, wdp_);
         }
         // totmob_, omega_, gpress_omegaweighted_
         if (gravity_) {
diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 468dad6..d8046b5 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -489,6 +489,9 @@ namespace Opm
         const size_t np = per_grid_cell ?
             saturations.size()/grid.number_of_cells
             : saturations.size()/wells.well_connpos[nw];
+        const int dim = grid.dimensions;
+        wdp.clear();
+        wdp.reserve(wells.well_connpos[nw]);
         // Simple for now:
         for (int i = 0; i < nw; i++) {
             double depth_ref = wells.depth_ref[i];
@@ -496,7 +499,7 @@ namespace Opm
                 int cell = wells.well_cells[j];
 
                 // Is this correct wrt. depth_ref?
-                double cell_depth = grid.cell_centroids[3 * cell + 2];
+                double cell_depth = grid.cell_centroids[dim * cell + dim - 1];
 
                 double saturation_sum = 0.0;
                 for (size_t p = 0; p < np; p++) {
@@ -530,6 +533,7 @@ namespace Opm
             std::vector<double>& flow_rates_per_well)
     {
         int index_in_flow_rates = 0;
+        flow_rates_per_well.clear();
         for (int w = 0; w < wells.number_of_wells; w++) {
             int number_of_cells = wells.well_connpos[w + 1] - wells.well_connpos[w];
             double flow_sum = 0.0;
-- 
2.43.0


From b6665fb4a88717a38e1a107121668dbcde24b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 010/116] fix: compressible pressure solver chose one upwind
 cell for all phases

The potentials of all phases were compared lexicographically instead of the
potential of the phase in question.
---
 opm/core/pressure/CompressibleTpfa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 1168abc..4b0522c 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -430,7 +430,7 @@ namespace Opm
             for (int phase = 0; phase < np; ++phase) {
                 int upwindc = -1;
                 if (c[0] >=0 && c[1] >= 0) {
-                    upwindc = (pot[0] < pot[1]) ? c[1] : c[0];
+                    upwindc = (pot[0][phase] < pot[1][phase]) ? c[1] : c[0];
                 } else {
                     upwindc = (c[0] >= 0) ? c[0] : c[1];
                 }
-- 
2.43.0


From 090ad5b02a54cf50a147e97c73a6c304c934c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 011/116] fix: shut wells kept flowing in compressible pressure
 solutions

The pressure equation excludes the completions of a shut well, but the
resulting completion rates did not.
---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 001f9a3..6abaedb 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1118,7 +1118,8 @@ compute_wflux(int                        np    ,
                 t += pmob[ p ];
             }
 
-            wflux[ i ] = W->WI[i] * t * dp;
+            /* No flow through the completions of a shut well. */
+            wflux[ i ] = (W->ctrls[w]->current < 0) ? 0.0 : W->WI[i] * t * dp;
         }
     }
 }
-- 
2.43.0


From 41c79e241e7e67d67fe369c11e1c2a78c7ac844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 012/116] fix: transport substeps used the pore volumes of the
 whole step

With compressible rock every transport substep started from the pore volumes
at the beginning of the step, so that the volume (mass) of a phase was not
conserved with more than one substep; gravity segregation used the pore
volumes at the beginning of the step although it acts on its end state.
---
 opm/core/simulator/SimulatorCompressibleTwophase.cpp | 10 +++++++++-
 opm/core/simulator/SimulatorIncompTwophase.cpp       | 10 ++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 1905bce..3ccc635 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -443,9 +443,17 @@ namespace Opm
             }
             double injected[2] = { 0.0 };
             double produced[2] = { 0.0 };
+            // Pore volumes change linearly over the transport substeps.
+            std::vector<double> substep_porevol0;
+            std::vector<double> substep_porevol = initial_porevol;
             for (int tr_substep = 0; tr_substep < num_transport_substeps_; ++tr_substep) {
+                substep_porevol0 = substep_porevol;
+                const double end_fraction = double(tr_substep + 1)/double(num_transport_substeps_);
+                for (std::vector<double>::size_type c = 0; c < substep_porevol.size(); ++c) {
+                    substep_porevol[c] = initial_porevol[c] + end_fraction*(porevol[c] - initial_porevol[c]);
+                }
                 tsolver_.solve(&state.faceflux()[0], &state.pressure()[0],
-                               &initial_porevol[0], &porevol[0], &transport_src[0], stepsize,
+                               &substep_porevol0[0], &substep_porevol[0], &transport_src[0], stepsize,
                                state.saturation(), state.surfacevol());
                 double substep_injected[2] = { 0.0 };
                 double substep_produced[2] = { 0.0 };
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 5b60a8f..231e135 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -542,8 +542,14 @@ namespace Opm
             }
             double injected[2] = { 0.0 };
             double produced[2] = { 0.0 };
+            // Pore volumes change linearly over the transport substeps.
+            std::vector<double> substep_porevol = initial_porevol;
             for (int tr_substep = 0; tr_substep < num_transport_substeps_; ++tr_substep) {
-                tsolver_->solve(&initial_porevol[0], &transport_src[0], stepsize, state);
+                tsolver_->solve(&substep_porevol[0], &transport_src[0], stepsize, state);
+                const double end_fraction = double(tr_substep + 1)/double(num_transport_substeps_);
+                for (std::vector<double>::size_type c = 0; c < substep_porevol.size(); ++c) {
+                    substep_porevol[c] = initial_porevol[c] + end_fraction*(porevol[c] - initial_porevol[c]);
+                }
 
                 double substep_injected[2] = { 0.0 };
                 double substep_produced[2] = { 0.0 };
@@ -557,7 +563,7 @@ namespace Opm
                     // Again, unfortunate but safe use of dynamic_cast.
                     // Possible solution: refactor gravity solver to its own class.
                     dynamic_cast<TransportSolverTwophaseReorder&>(*tsolver_)
-                        .solveGravity(&initial_porevol[0], stepsize, state);
+                        .solveGravity(&substep_porevol[0], stepsize, state);
                 }
                 watercut.push(timer.currentTime() + timer.currentStepLength(),
                               produced[0]/(produced[0] + produced[1]),
-- 
2.43.0


From 5601e0df729b9961ef79bbb1c747430f924998e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 013/116] fix: multidimensional upwind time of flight was NaN
 next to no-flow faces

The face weights divide by the flux of the face; faces without flux
contribute nothing and must be skipped.
---
 opm/core/tof/TofReorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 618b541..9f7c289 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -219,7 +219,7 @@ namespace Opm
             // Add flux to upwind_term or downwind_term_[face|cell_factor].
             if (flux < 0.0) {
                 upwind_term += flux*face_tof_[f];
-            } else {
+            } else if (flux > 0.0) {
                 double fterm, cterm_factor;
                 multidimUpwindTerms(f, cell, fterm, cterm_factor);
                 downwind_term_face += fterm*flux;
-- 
2.43.0


From a4a0a7d5902f971b3bbaf3c8940ab79068413163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 014/116] fix: tracers of source cells with inflow were
 overwritten

The values of source cells are prescribed, but inflow from neighbouring
cells was still added to them.
---
 opm/core/tof/TofReorder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 9f7c289..40adf0a 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -172,8 +172,11 @@ namespace Opm
                 // face.
                 if (other != -1) {
                     upwind_term += flux*tof_[other];
-                    for (int tr = 0; tr < num_tracers_; ++tr) {
-                        tracer_[num_tracers_*cell + tr] += flux*tracer_[num_tracers_*other + tr];
+                    // Do not change tracer solution in source cells.
+                    if (source_[cell] <= 0.0) {
+                        for (int tr = 0; tr < num_tracers_; ++tr) {
+                            tracer_[num_tracers_*cell + tr] += flux*tracer_[num_tracers_*other + tr];
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 53adf8351f41433844be6a48a4c149dec4cebd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 015/116] fix: write errors of simulation output went unnoticed

---
 .../SimulatorCompressibleTwophase.cpp         | 22 ++++++++++++++++
 .../simulator/SimulatorIncompTwophase.cpp     | 26 +++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 3ccc635..9c8ff0a 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -164,6 +164,10 @@ namespace Opm
         Opm::estimateCellVelocity(grid, state.faceflux(), cell_velocity);
         dm["velocity"] = &cell_velocity;
         Opm::writeVtkData(grid, dm, vtkfile);
+        vtkfile.close();
+        if (!vtkfile) {
+            THROW("Failed to write " << vtkfilename.str());
+        }
     }
 
 
@@ -199,6 +203,10 @@ namespace Opm
             file.precision(15);
             const std::vector<double>& d = *(it->second);
             std::copy(d.begin(), d.end(), std::ostream_iterator<double>(file, "\n"));
+            file.close();
+            if (!file) {
+                THROW("Failed to write " << fname.str());
+            }
         }
     }
 
@@ -213,6 +221,10 @@ namespace Opm
             THROW("Failed to open " << fname);
         }
         watercut.write(os);
+        os.close();
+        if (!os) {
+            THROW("Failed to write " << fname);
+        }
     }
 
 
@@ -226,6 +238,10 @@ namespace Opm
             THROW("Failed to open " << fname);
         }
         wellreport.write(os);
+        os.close();
+        if (!os) {
+            THROW("Failed to write " << fname);
+        }
     }
 
 
@@ -340,6 +356,9 @@ namespace Opm
         if (output_) {
             std::string filename = output_dir_ + "/step_timing.param";
             tstep_os.open(filename.c_str(), std::fstream::out | std::fstream::app);
+            if (!tstep_os) {
+                THROW("Failed to open " << filename);
+            }
         }
         for (; !timer.done(); ++timer) {
             // Report timestep and (optionally) write state to disk.
@@ -530,6 +549,9 @@ namespace Opm
                 outputWellReport(wellreport, output_dir_);
             }
             tstep_os.close();
+            if (!tstep_os) {
+                THROW("Failed to write " << output_dir_ << "/step_timing.param");
+            }
         }
 
         total_timer.stop();
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 231e135..6c49577 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -190,6 +190,10 @@ namespace Opm
         Opm::estimateCellVelocity(grid, state.faceflux(), cell_velocity);
         dm["velocity"] = &cell_velocity;
         Opm::writeVtkData(grid, dm, vtkfile);
+        vtkfile.close();
+        if (!vtkfile) {
+            THROW("Failed to write " << vtkfilename.str());
+        }
     }
 
     static void outputVectorMatlab(const std::string& name,
@@ -212,6 +216,10 @@ namespace Opm
             THROW("Failed to open " << fname.str());
         }
         std::copy(vec.begin(), vec.end(), std::ostream_iterator<double>(file, "\n"));
+        file.close();
+        if (!file) {
+            THROW("Failed to write " << fname.str());
+        }
     }
 
     static void outputStateMatlab(const UnstructuredGrid& grid,
@@ -245,6 +253,10 @@ namespace Opm
             file.precision(15);
             const std::vector<double>& d = *(it->second);
             std::copy(d.begin(), d.end(), std::ostream_iterator<double>(file, "\n"));
+            file.close();
+            if (!file) {
+                THROW("Failed to write " << fname.str());
+            }
         }
     }
 
@@ -259,6 +271,10 @@ namespace Opm
             THROW("Failed to open " << fname);
         }
         watercut.write(os);
+        os.close();
+        if (!os) {
+            THROW("Failed to write " << fname);
+        }
     }
 
 
@@ -272,6 +288,10 @@ namespace Opm
             THROW("Failed to open " << fname);
         }
         wellreport.write(os);
+        os.close();
+        if (!os) {
+            THROW("Failed to write " << fname);
+        }
     }
 
 
@@ -434,6 +454,9 @@ namespace Opm
         if (output_) {
             std::string filename = output_dir_ + "/step_timing.param";
             tstep_os.open(filename.c_str(), std::fstream::out | std::fstream::app);
+            if (!tstep_os) {
+                THROW("Failed to open " << filename);
+            }
         }
         for (; !timer.done(); ++timer) {
             // Report timestep and (optionally) write state to disk.
@@ -611,6 +634,9 @@ namespace Opm
                 outputWellReport(wellreport, output_dir_);
             }
             tstep_os.close();
+            if (!tstep_os) {
+                THROW("Failed to write " << output_dir_ << "/step_timing.param");
+            }
         }
 
         total_timer.stop();
-- 
2.43.0


From 8df51ed10d2bcfeb7b6c665b3b1ed279526d6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 016/116] fix: well report used the injected composition of the
 first well for all wells

---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index d8046b5..669ecff 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -621,7 +621,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
@@ -679,7 +679,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
-- 
2.43.0


From 8bf19f67b528c7bf6fc1a0fe981d8d7a15f8c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 017/116] fix: matrix and vector writers crashed when the file
 could not be opened

---
 opm/core/linalg/sparse_sys.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 3546965..62c7dce 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -211,9 +211,8 @@ csrmatrix_write(const struct CSRMatrix *A, const char *fn)
 
     if (fp != NULL) {
         csrmatrix_write_stream(A, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
@@ -245,9 +244,8 @@ vector_write(size_t n, const double *v, const char *fn)
 
     if (fp != NULL) {
         vector_write_stream(n, v, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
-- 
2.43.0


From ee9480188f05f302218d09765e3052c0639ae8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 018/116] fix: write errors of parameter files went unnoticed

---
 opm/core/utility/parameters/ParameterGroup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index ce85d4d..ab62010 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -149,6 +149,12 @@ namespace Opm {
 		throw std::exception();
 	    }
 	    this->writeParamToStream(os);
+	    os.close();
+	    if (!os) {
+		std::cerr << "Error: Failed to write parameter file '"
+                          << param_filename << "'.\n";
+		throw std::exception();
+	    }
 	}
 
 	void ParameterGroup::writeParamToStream(std::ostream& os) const
-- 
2.43.0


From 8ab8adb125025bffd43b0f9daa0f2ec54dd63753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 019/116] fix: water cut report of incompressible runs lagged
 behind

---
 opm/core/simulator/SimulatorIncompTwophase.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 6c49577..0c177c9 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -588,14 +588,6 @@ namespace Opm
                     dynamic_cast<TransportSolverTwophaseReorder&>(*tsolver_)
                         .solveGravity(&substep_porevol[0], stepsize, state);
                 }
-                watercut.push(timer.currentTime() + timer.currentStepLength(),
-                              produced[0]/(produced[0] + produced[1]),
-                              tot_produced[0]/tot_porevol_init);
-                if (wells_) {
-                    wellreport.push(props_, *wells_, state.saturation(),
-                                    timer.currentTime() + timer.currentStepLength(),
-                                    well_state.bhp(), well_state.perfRates());
-                }
             }
             transport_timer.stop();
             double tt = transport_timer.secsSinceStart();
@@ -612,6 +604,14 @@ namespace Opm
                           tot_injected, tot_produced,
                           injected, produced,
                           init_satvol);
+            watercut.push(timer.currentTime() + timer.currentStepLength(),
+                          produced[0]/(produced[0] + produced[1]),
+                          tot_produced[0]/tot_porevol_init);
+            if (wells_) {
+                wellreport.push(props_, *wells_, state.saturation(),
+                                timer.currentTime() + timer.currentStepLength(),
+                                well_state.bhp(), well_state.perfRates());
+            }
             sreport.total_time =  step_timer.secsSinceStart();
             if (output_) {
                 sreport.reportParam(tstep_os);
-- 
2.43.0


From caf32abe2364c66a31ccc33ccf8a197f2ca837d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 020/116] fix: failing pressure solver construction went
 unnoticed

The constructors of IncompTpfa and CompressibleTpfa stored the null
pointer they get when there is not enough memory, and the first solve
dereferenced it.
---
 opm/core/pressure/CompressibleTpfa.cpp | 3 +++
 opm/core/pressure/IncompTpfa.cpp       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 4b0522c..e758e2f 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -105,6 +105,9 @@ namespace Opm
         w.W = const_cast<struct Wells*>(wells_);
         w.data = NULL;
         h_ = cfs_tpfa_res_construct(gg, &w, props.numPhases());
+        if (h_ == NULL) {
+            THROW("Failed to construct TPFA pressure solver data.");
+        }
     }
 
 
diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index eb04532..75b159c 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -333,6 +333,9 @@ namespace Opm
             allcells_[c] = c;
         }
         h_ = ifs_tpfa_construct(gg, const_cast<struct Wells*>(wells_));
+        if (h_ == NULL) {
+            THROW("Failed to construct TPFA pressure solver data.");
+        }
     }
 
 
-- 
2.43.0


From 88eb13d71d3846608ac663eaa68c4cf55a1ead7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 021/116] fix: failing matrix construction freed uninitialised
 pointers

---
 opm/core/linalg/sparse_sys.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 62c7dce..f4a2a97 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -37,6 +37,8 @@ csrmatrix_new_count_nnz(size_t m)
 
     new = malloc(1 * sizeof *new);
     if (new != NULL) {
+        new->ja = NULL;
+        new->sa = NULL;
         new->ia = malloc((m + 1) * sizeof *new->ia);
 
         if (new->ia != NULL) {
@@ -44,9 +46,6 @@ csrmatrix_new_count_nnz(size_t m)
 
             new->m   = m;
             new->nnz = 0;
-
-            new->ja  = NULL;
-            new->sa  = NULL;
         } else {
             csrmatrix_delete(new);
             new = NULL;
-- 
2.43.0


From a0059feda196fe068eb5b06006df3bb59cfb4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 022/116] fix: dates later than 68 years after the start were
 wrong

---
 opm/core/simulator/SimulatorTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 4aa52ec..cd24643 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -98,7 +98,7 @@ namespace Opm
 
     boost::posix_time::ptime SimulatorTimer::currentDateTime() const
     {
-      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( (int) current_time_ );
+      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( (long) current_time_ );
     }
     
 
-- 
2.43.0


From bce81f66a59cea0f2be37f9f28d7735b07d2c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 023/116] fix: invalid step numbers were accepted by
 SimulatorTimer

setCurrentStepNum() checked the old step number instead of the new one,
so that a step outside the schedule read past the step lengths.
---
 opm/core/simulator/SimulatorTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index cd24643..f8c012b 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -72,8 +72,8 @@ namespace Opm
     /// Set current step number.
     void SimulatorTimer::setCurrentStepNum(int step)
     {
-        if (current_step_ < 0 || current_step_ > int(timesteps_.size())) {
-            // Note that we do allow current_step_ == timesteps_.size(),
+        if (step < 0 || step > int(timesteps_.size())) {
+            // Note that we do allow step == timesteps_.size(),
             // that is the done() state.
             THROW("Trying to set invalid step number: " << step);
         }
-- 
2.43.0


From 69a82b3f47e409db856ac07b6e6febc34eedb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 024/116] fix: stop watches measured changes of the local time
 zone

---
 opm/core/utility/StopWatch.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opm/core/utility/StopWatch.cpp b/opm/core/utility/StopWatch.cpp
index 4e39328..a3b39d0 100644
--- a/opm/core/utility/StopWatch.cpp
+++ b/opm/core/utility/StopWatch.cpp
@@ -53,7 +53,7 @@ namespace Opm
 
 	void StopWatch::start()
 	{
-	    start_time_ = boost::posix_time::microsec_clock::local_time();
+	    start_time_ = boost::posix_time::microsec_clock::universal_time();
 	    last_time_ = start_time_;
 	    state_ = Running;
 	}
@@ -63,7 +63,7 @@ namespace Opm
 	    if (state_ != Running) {
 		THROW("Called stop() on a StopWatch that was not running.");
 	    }
-	    stop_time_ = boost::posix_time::microsec_clock::local_time();
+	    stop_time_ = boost::posix_time::microsec_clock::universal_time();
 	    state_ = Stopped;
 	}
 
@@ -71,7 +71,7 @@ namespace Opm
 	{
 	    boost::posix_time::ptime run_time;
 	    if (state_ == Running) {
-		run_time = boost::posix_time::microsec_clock::local_time();
+		run_time = boost::posix_time::microsec_clock::universal_time();
 	    } else if (state_ == Stopped) {
 		run_time = stop_time_;
 	    } else {
@@ -87,7 +87,7 @@ namespace Opm
 	{
 	    boost::posix_time::ptime run_time;
 	    if (state_ == Running) {
-		run_time = boost::posix_time::microsec_clock::local_time();
+		run_time = boost::posix_time::microsec_clock::universal_time();
 	    } else if (state_ == Stopped) {
 		run_time = stop_time_;
 	    } else {
-- 
2.43.0


From 09a5fa8e2e5841f426ab649e36dd5926c421fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 025/116] fix: reports of continued runs started at time zero

The first rows of the water cut curve and the well report of a run that
continues at a later step claimed to be from time zero.
---
 opm/core/simulator/SimulatorCompressibleTwophase.cpp | 4 ++--
 opm/core/simulator/SimulatorIncompTwophase.cpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 9c8ff0a..1b7d15c 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -342,7 +342,7 @@ namespace Opm
         double tot_produced[2] = { 0.0 };
         Opm::computeSaturatedVol(porevol, state.surfacevol(), init_surfvol);
         Opm::Watercut watercut;
-        watercut.push(0.0, 0.0, 0.0);
+        watercut.push(timer.currentTime(), 0.0, 0.0);
         Opm::WellReport wellreport;
         std::vector<double> fractional_flows;
         std::vector<double> well_resflows_phase;
@@ -350,7 +350,7 @@ namespace Opm
             well_resflows_phase.resize((wells_->number_of_phases)*(wells_->number_of_wells), 0.0);
             wellreport.push(props_, *wells_,
                             state.pressure(), state.surfacevol(), state.saturation(),
-                            0.0, well_state.bhp(), well_state.perfRates());
+                            timer.currentTime(), well_state.bhp(), well_state.perfRates());
         }
         std::fstream tstep_os;
         if (output_) {
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 0c177c9..2f8e560 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -442,13 +442,13 @@ namespace Opm
         std::cout << "\nInitial saturations are    " << init_satvol[0]/tot_porevol_init
                   << "    " << init_satvol[1]/tot_porevol_init << std::endl;
         Opm::Watercut watercut;
-        watercut.push(0.0, 0.0, 0.0);
+        watercut.push(timer.currentTime(), 0.0, 0.0);
         Opm::WellReport wellreport;
         std::vector<double> fractional_flows;
         std::vector<double> well_resflows_phase;
         if (wells_) {
             well_resflows_phase.resize((wells_->number_of_phases)*(wells_->number_of_wells), 0.0);
-            wellreport.push(props_, *wells_, state.saturation(), 0.0, well_state.bhp(), well_state.perfRates());
+            wellreport.push(props_, *wells_, state.saturation(), timer.currentTime(), well_state.bhp(), well_state.perfRates());
         }
         std::fstream tstep_os;
         if (output_) {
-- 
2.43.0


From 90f47aa5d627521399cc864a8da9931190ccc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 026/116] fix: files written at the same time shared their
 indentation

---
 opm/core/io/vtk/writeVtkData.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/opm/core/io/vtk/writeVtkData.cpp b/opm/core/io/vtk/writeVtkData.cpp
index 4e9ee5a..c272eaa 100644
--- a/opm/core/io/vtk/writeVtkData.cpp
+++ b/opm/core/io/vtk/writeVtkData.cpp
@@ -109,36 +109,40 @@ namespace Opm
                 os << " " << it->first << "=\"" << it->second << "\""; 
             }
             os << ">\n";
-            ++indent_;
+            ++depth(os);
         }
         Tag(const std::string& tag, std::ostream& os)
             : name_(tag), os_(os)
         {
             indent(os);
             os << "<" << tag << ">\n";
-            ++indent_;
+            ++depth(os);
         }
         ~Tag()
         {
-            --indent_;
+            --depth(os_);
             indent(os_);
             os_ << "</" << name_ << ">\n";
         }
         static void indent(std::ostream& os)
         {
-            for (int i = 0; i < indent_; ++i) {
+            const long num = depth(os);
+            for (long i = 0; i < num; ++i) {
                 os << "  ";
             }
         }
     private:
-        static int indent_;
+        // The number of open tags belongs to the stream they are
+        // written to: several files may be written at a time.
+        static long& depth(std::ostream& os)
+        {
+            static const int index = std::ios_base::xalloc();
+            return os.iword(index);
+        }
         std::string name_;
         std::ostream& os_;
     };
 
-    int Tag::indent_ = 0;
-
-
     void writeVtkData(const UnstructuredGrid& grid,
                       const DataMap& data,
                       std::ostream& os)
-- 
2.43.0


From 68992bd1f93bb60a098696b4e97198294c11c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 027/116] fix: a second WELSPECS line for a well added it to
 its group again

---
 opm/core/wells/WellsManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 328abd4..c6f07f5 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -759,8 +759,9 @@ namespace Opm
                 well_collection_.addChild(it->first, it->second, deck);
             }
         }
-        for (size_t i = 0; i < welspecs.welspecs.size(); ++i) {
-            WelspecsLine line = welspecs.welspecs[i];
+        for (int w = 0; w < num_wells; ++w) {
+            // One node per well, also if there are several lines for it.
+            const WelspecsLine& line = welspecs.welspecs[well_data[w].welspecsline];
             well_collection_.addChild(line.name_, line.group_, deck);
         }
 
-- 
2.43.0


From cc260b4f28a64baf7cc02afc1a52d2f26c89fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 028/116] fix: injection targets of groups without group
 controlled wells were NaN

---
 opm/core/wells/WellsGroup.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 5e9c4ed..d7257f4 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -479,6 +479,10 @@ namespace Opm
         case InjectionSpecification::RESV:
         {
             const double my_guide_rate = injectionGuideRate(true);
+            if (my_guide_rate == 0.0) {
+                // No wells to distribute the target to.
+                return;
+            }
             for (size_t i = 0; i < children_.size(); ++i) {
                 // Apply for all children. 
                 // Note, we do _not_ want to call the applyProdGroupControl in this object,
@@ -575,6 +579,10 @@ namespace Opm
             const double total_produced = getTotalProductionFlow(well_surfacerates_phase, phase);
             const double total_reinjected = - total_produced; // Production negative, injection positive
             const double my_guide_rate = injectionGuideRate(true);
+            if (my_guide_rate == 0.0) {
+                // No wells to distribute the target to.
+                return;
+            }
             for (size_t i = 0; i < children_.size(); ++i) {
                 // Apply for all children. 
                 // Note, we do _not_ want to call the applyProdGroupControl in this object,
@@ -604,6 +612,10 @@ namespace Opm
             }
             const double total_reinjected = - total_produced; // Production negative, injection positive
             const double my_guide_rate = injectionGuideRate(true);
+            if (my_guide_rate == 0.0) {
+                // No wells to distribute the target to.
+                return;
+            }
             for (size_t i = 0; i < children_.size(); ++i) {
                 // Apply for all children. 
                 // Note, we do _not_ want to call the applyProdGroupControl in this object,
-- 
2.43.0


From 899178ca65b0791f5454aed13ffc573f79e0edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 029/116] fix: group targets stopped the wells in subgroups
 that have their own control

---
 opm/core/wells/WellsGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index d7257f4..65f61f2 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -269,7 +269,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->injectionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyInjGroupControl(control_mode, child_target, true);
+                children_[i]->applyInjGroupControl(control_mode, child_target, forced);
             }
             injSpec().control_mode_ = InjectionSpecification::FLD;
         }
@@ -294,7 +294,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->productionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyProdGroupControl(control_mode, child_target, true);
+                children_[i]->applyProdGroupControl(control_mode, child_target, forced);
             }
             prodSpec().control_mode_ = ProductionSpecification::FLD;
         }
-- 
2.43.0


From 8b1aa24f3e3af0aa4e0a6f009bec8886bd64b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 030/116] fix: reinjection controls of groups inside other
 groups were ignored

---
 opm/core/wells/WellsGroup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 65f61f2..f2c75e5 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -627,6 +627,11 @@ namespace Opm
             }
             
         }
+        else {
+            for (size_t i = 0; i < children_.size(); ++i) {
+                children_[i]->applyExplicitReinjectionControls(well_reservoirrates_phase, well_surfacerates_phase);
+            }
+        }
     }
 
     // ==============    WellNode members   ============
-- 
2.43.0


From a704a236ccaee2c679d609a253045d907c0a4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 031/116] fix: a group controlled by a production limit
 reported it violated

---
 opm/core/wells/WellsGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index f2c75e5..b0be21c 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -390,6 +390,7 @@ namespace Opm
                 applyProdGroupControl(production_mode_violated, 
                                       getTarget(production_mode_violated),
                                       true);
+                prodSpec().control_mode_ = production_mode_violated;
                 return false;
             case ProductionSpecification::NONE_P:
                 // Do nothing
-- 
2.43.0


From 15b808db4130f8e36a4dae7610633d70433215b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 032/116] fix: groups without procedure kept their time steps
 from being accepted

---
 opm/core/wells/WellsGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index b0be21c..fc128f7 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -394,7 +394,7 @@ namespace Opm
                 return false;
             case ProductionSpecification::NONE_P:
                 // Do nothing
-                return false;
+                break;
             }
         }
      
-- 
2.43.0


From ccf5c5f7cb2f5229201721bbb91e5db095c8c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 033/116] fix: a group control that could not be added replaced
 a control of the well

---
 opm/core/wells/WellsGroup.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index fc128f7..1e46530 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -767,7 +767,9 @@ namespace Opm
 
             if (group_control_index_ < 0) {
                 // The well only had its own controls, no group controls.
-                append_well_controls(SURFACE_RATE, target, distr, self_index_, wells_);
+                if (!append_well_controls(SURFACE_RATE, target, distr, self_index_, wells_)) {
+                    THROW("Failed to add control to shut well " << name());
+                }
                 group_control_index_ = wells_->ctrls[self_index_]->num - 1;
             } else {
                 // We will now modify the last control, that
@@ -822,7 +824,9 @@ namespace Opm
 
         if (group_control_index_ < 0) {
             // The well only had its own controls, no group controls.
-            append_well_controls(wct, target, distr, self_index_, wells_);
+            if (!append_well_controls(wct, target, distr, self_index_, wells_)) {
+                THROW("Failed to add group control to well " << name());
+            }
             group_control_index_ = wells_->ctrls[self_index_]->num - 1;
         } else {
             // We will now modify the last control, that
@@ -934,7 +938,9 @@ namespace Opm
 
         if (group_control_index_ < 0) {
             // The well only had its own controls, no group controls.
-            append_well_controls(wct, ntarget, distr, self_index_, wells_);
+            if (!append_well_controls(wct, ntarget, distr, self_index_, wells_)) {
+                THROW("Failed to add group control to well " << name());
+            }
             group_control_index_ = wells_->ctrls[self_index_]->num - 1;
         } else {
             // We will now modify the last control, that
-- 
2.43.0


From 5c2c3c427ce40f6cd8f0c9b8f93ff009d0f160c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 034/116] fix: groups over a production limit shut their least
 producing well or an injector

---
 opm/core/wells/WellsGroup.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 1e46530..52a0061 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -380,11 +380,16 @@ namespace Opm
       
         if (production_violated) {
             switch (prodSpec().procedure_) {
-            case ProductionSpecification::WELL:
-                getWorstOffending(well_reservoirrates_phase,
-                                  well_surfacerates_phase,
-                                  production_mode_violated).first->shutWell();
-                return false;
+            case ProductionSpecification::WELL: {
+                WellNode* worst = getWorstOffending(well_reservoirrates_phase,
+                                                    well_surfacerates_phase,
+                                                    production_mode_violated).first;
+                if (worst) {
+                    worst->shutWell();
+                    return false;
+                }
+                break;
+            }
             case ProductionSpecification::RATE:
                 std::cout << "Applying group control" << std::endl;
                 applyProdGroupControl(production_mode_violated, 
@@ -424,12 +429,12 @@ namespace Opm
                                                                const std::vector<double>& well_surfacerates_phase,
                                                                ProductionSpecification::ControlMode mode)
     {
-        std::pair<WellNode*, double> max;
+        std::pair<WellNode*, double> max(static_cast<WellNode*>(0), -1.0);
         for (size_t i = 0; i < children_.size(); i++) {
             std::pair<WellNode*, double> child_max = children_[i]->getWorstOffending(well_reservoirrates_phase,
                                                                                      well_surfacerates_phase,
                                                                                      mode);
-            if (i == 0 || max.second < child_max.second) {
+            if (max.second < child_max.second) {
                 max = child_max;
             }
         }
@@ -787,12 +792,17 @@ namespace Opm
                                                              const std::vector<double>& well_surfacerates_phase,
                                                              ProductionSpecification::ControlMode mode)
     {
+        if (wells_->type[self_index_] != PRODUCER || wells_->ctrls[self_index_]->current < 0) {
+            // Not a well that could be shut to reduce production.
+            return std::pair<WellNode*, double>(static_cast<WellNode*>(0), -1.0);
+        }
         const int np = phaseUsage().num_phases;
         const int index = self_index_*np;
+        // Production rates are negative.
         return std::pair<WellNode*, double>(this,
-                                            rateByMode(&well_reservoirrates_phase[index],
-                                                       &well_surfacerates_phase[index],
-                                                       mode));
+                                            std::fabs(rateByMode(&well_reservoirrates_phase[index],
+                                                                 &well_surfacerates_phase[index],
+                                                                 mode)));
     }
     
     void WellNode::applyInjGroupControl(const InjectionSpecification::ControlMode control_mode,
-- 
2.43.0


From 4c66489195047285d792daac722a1beb18f964cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 035/116] fix: shut wells were opened again by group controls
 and limit checks

---
 opm/core/wells/WellsGroup.cpp   | 28 ++++++++++++++++++++++++----
 opm/core/wells/WellsGroup.hpp   |  7 +++++++
 opm/core/wells/WellsManager.cpp | 29 ++++++++++++++++++++---------
 3 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 52a0061..449384a 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -652,7 +652,8 @@ namespace Opm
           wells_(0),
           self_index_(-1),
           group_control_index_(-1),
-          shut_well_(true) // This is default for now
+          shut_well_(true), // This is default for now
+          is_shut_(false)
     {
     }
 
@@ -673,6 +674,11 @@ namespace Opm
             }
         }
 
+        if (is_shut_) {
+            // No constraint can be violated by a shut well.
+            return true;
+        }
+
         // Check constraints.
         bool is_producer = (wells_->type[self_index_] == PRODUCER);
         const WellControls& ctrls = *wells_->ctrls[self_index_];
@@ -759,8 +765,22 @@ namespace Opm
         return 1;
     }
     
+    void WellNode::setShut(bool shut)
+    {
+        is_shut_ = shut;
+    }
+
+    void WellNode::activateGroupControl()
+    {
+        set_current_control(self_index_, is_shut_ ? ~group_control_index_ : group_control_index_, wells_);
+    }
+
     void WellNode::shutWell() 
     {
+        if (is_shut_) {
+            return;
+        }
+        is_shut_ = true;
         if (shut_well_) {
         	// We set the tilde of the current control
             // set_current_control(self_index_, -1, wells_);
@@ -792,7 +812,7 @@ namespace Opm
                                                              const std::vector<double>& well_surfacerates_phase,
                                                              ProductionSpecification::ControlMode mode)
     {
-        if (wells_->type[self_index_] != PRODUCER || wells_->ctrls[self_index_]->current < 0) {
+        if (wells_->type[self_index_] != PRODUCER || is_shut_ || wells_->ctrls[self_index_]->current < 0) {
             // Not a well that could be shut to reduce production.
             return std::pair<WellNode*, double>(static_cast<WellNode*>(0), -1.0);
         }
@@ -846,7 +866,7 @@ namespace Opm
             wells_->ctrls[self_index_]->target[group_control_index_] = target;
             std::copy(distr, distr + np, wells_->ctrls[self_index_]->distr + np*group_control_index_);
         }
-        set_current_control(self_index_, group_control_index_, wells_);
+        activateGroupControl();
     }
 
 
@@ -960,7 +980,7 @@ namespace Opm
             wells_->ctrls[self_index_]->target[group_control_index_] = ntarget;
             std::copy(distr, distr + np, wells_->ctrls[self_index_]->distr + np*group_control_index_);
         }
-        set_current_control(self_index_, group_control_index_, wells_);
+        activateGroupControl();
     }
 
     
diff --git a/opm/core/wells/WellsGroup.hpp b/opm/core/wells/WellsGroup.hpp
index 0da2008..36a2b7a 100644
--- a/opm/core/wells/WellsGroup.hpp
+++ b/opm/core/wells/WellsGroup.hpp
@@ -328,6 +328,9 @@ namespace Opm
         
         // Shuts the well (in the well struct)
         void shutWell();
+
+        /// Declare that the well is shut. It stays so, whatever group controls are applied.
+        void setShut(bool shut);
         
        virtual std::pair<WellNode*, double> getWorstOffending(const std::vector<double>& well_reservoirrates_phase,
                                                                const std::vector<double>& well_surfacerates_phase,
@@ -397,6 +400,10 @@ namespace Opm
         int self_index_;
         int group_control_index_;
         bool shut_well_;
+        bool is_shut_;
+
+        // Make the group control the active one, unless the well is shut.
+        void activateGroupControl();
     };
 
     /// Creates the WellsGroupInterface for the given name
diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index c6f07f5..8d5956e 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -472,6 +472,11 @@ namespace Opm
             }
         }
 
+        // The control chosen for each well (-1 is group control), and
+        // whether the well is shut.
+        std::vector<int> well_control(num_wells, -1);
+        std::vector<bool> well_shut(num_wells, false);
+
         // Get WCONINJE data, add injection controls to wells.
         // It is allowed to have multiple lines corresponding to
         // the same well, in which case the last one encountered
@@ -532,8 +537,10 @@ namespace Opm
                             THROW("Control for " << wci_line.control_mode_ << " not specified in well " << well_names[wix]);
                         }
                         // We need to check if the well is shut or not
-                        if (wci_line.open_shut_flag_ == "SHUT") {
-                        	cpos = ~cpos;
+                        well_control[wix] = cpos;
+                        well_shut[wix] = (wci_line.open_shut_flag_ == "SHUT");
+                        if (well_shut[wix] && cpos >= 0) {
+                            cpos = ~cpos;
                         }
                         set_current_control(wix, cpos, w_);
 
@@ -660,8 +667,10 @@ namespace Opm
                             THROW("Control mode type " << mode << " not present in well " << well_names[wix]);
                         }
                         // If it's shut, we complement the cpos
-                        if (wcp_line.open_shut_flag_ == "SHUT") {
-                        	cpos = ~cpos; // So we can easily retrieve the cpos later
+                        well_control[wix] = cpos;
+                        well_shut[wix] = (wcp_line.open_shut_flag_ == "SHUT");
+                        if (well_shut[wix] && cpos >= 0) {
+                            cpos = ~cpos; // So we can easily retrieve the cpos later
                         }
                         set_current_control(wix, cpos, w_);
                     }
@@ -733,17 +742,16 @@ namespace Opm
                 }
                 const int index = it->second;
                 if (line.openshutflag_ == "SHUT") {
+                    well_shut[index] = true;
                     int& cur_ctrl = w_->ctrls[index]->current;
                     if (cur_ctrl >= 0) {
                         cur_ctrl = ~cur_ctrl;
                     }
                     ASSERT(w_->ctrls[index]->current < 0);
                 } else if (line.openshutflag_ == "OPEN") {
-                    int& cur_ctrl = w_->ctrls[index]->current;
-                    if (cur_ctrl < 0) {
-                        cur_ctrl = ~cur_ctrl;
-                    }
-                    ASSERT(w_->ctrls[index]->current >= 0);
+                    well_shut[index] = false;
+                    // Wells under group control get it below.
+                    w_->ctrls[index]->current = well_control[index];
                 } else {
                     THROW("Unknown Open/close keyword: \"" << line.openshutflag_<< "\". Allowed values: OPEN, SHUT.");
                 }
@@ -800,6 +808,9 @@ namespace Opm
             }
         }
         well_collection_.setWellsPointer(w_);
+        for (int w = 0; w < num_wells; ++w) {
+            well_collection_.getLeafNodes()[w]->setShut(well_shut[w]);
+        }
         well_collection_.applyGroupControls();
     }
 
-- 
2.43.0


From 85b915128f845dbb1cf3ad9af8c2f17f94a6977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 036/116] fix: rejected well controls left their trace in the
 accepted solution

---
 opm/core/simulator/SimulatorCompressibleTwophase.cpp | 9 +++++++--
 opm/core/simulator/SimulatorIncompTwophase.cpp       | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 1b7d15c..bb24628 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -382,10 +382,13 @@ namespace Opm
             }
             bool well_control_passed = !check_well_controls_;
             int well_control_iteration = 0;
+            // A rejected solution must not be the starting point of the next one.
+            const BlackoilState initial_state = state;
+            const WellState initial_well_state = well_state;
+            const std::vector<double>& initial_pressure = initial_state.pressure();
             do {
                 // Run solver.
                 pressure_timer.start();
-                std::vector<double> initial_pressure = state.pressure();
                 psolver_.solve(timer.currentStepLength(), state, well_state);
 
                 // Renormalize pressure if both fluids and rock are
@@ -421,7 +424,7 @@ namespace Opm
                 double pt = pressure_timer.secsSinceStart();
                 std::cout << "Pressure solver took:  " << pt << " seconds." << std::endl;
                 ptime += pt;
-                sreport.pressure_time = pt;
+                sreport.pressure_time += pt;
 
                 // Optionally, check if well controls are satisfied.
                 if (check_well_controls_) {
@@ -438,6 +441,8 @@ namespace Opm
                     }
                     if (!well_control_passed) {
                         std::cout << "Well controls not passed, solving again." << std::endl;
+                        state = initial_state;
+                        well_state = initial_well_state;
                     } else {
                         std::cout << "Well conditions met." << std::endl;
                     }
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 2f8e560..4d90845 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -484,10 +484,13 @@ namespace Opm
             }
             bool well_control_passed = !check_well_controls_;
             int well_control_iteration = 0;
+            // A rejected solution must not be the starting point of the next one.
+            const TwophaseState initial_state = state;
+            const WellState initial_well_state = well_state;
+            const std::vector<double>& initial_pressure = initial_state.pressure();
             do {
                 // Run solver.
                 pressure_timer.start();
-                std::vector<double> initial_pressure = state.pressure();
                 psolver_.solve(timer.currentStepLength(), state, well_state);
 
                 // Renormalize pressure if rock is incompressible, and
@@ -523,7 +526,7 @@ namespace Opm
                 double pt = pressure_timer.secsSinceStart();
                 std::cout << "Pressure solver took:  " << pt << " seconds." << std::endl;
                 ptime += pt;
-                sreport.pressure_time = pt;
+                sreport.pressure_time += pt;
 
                 // Optionally, check if well controls are satisfied.
                 if (check_well_controls_) {
@@ -540,6 +543,8 @@ namespace Opm
                     }
                     if (!well_control_passed) {
                         std::cout << "Well controls not passed, solving again." << std::endl;
+                        state = initial_state;
+                        well_state = initial_well_state;
                     } else {
                         std::cout << "Well conditions met." << std::endl;
                     }
-- 
2.43.0


From e44c9f0d7302cdf233ad5b7fa88098641393faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 037/116] fix: a slash right after a string of a deck record
 became part of the string

---
 .../io/eclipse/EclipseGridParserHelpers.hpp    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index a476cd1..86acb4f 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -81,11 +81,21 @@ namespace
     inline std::string readString(std::istream& is)
     {
 	std::string string_candidate;
-	is >> string_candidate;
         const char quote('\'');
-        int beg = string_candidate[0] == quote ? 1 : 0;
-        int len = string_candidate[0] == quote ? string_candidate.size() - 2 : string_candidate.size();
-        return string_candidate.substr(beg, len);
+        is >> ignoreWhitespace;
+        if (is.peek() == int(quote)) {
+            // A quoted string ends at the closing quote.
+            is.ignore();
+            std::getline(is, string_candidate, quote);
+            return string_candidate;
+        }
+	is >> string_candidate;
+        if (string_candidate.size() > 1 && string_candidate[string_candidate.size() - 1] == '/') {
+            // The slash ends the record, leave it in the stream.
+            is.putback('/');
+            string_candidate.erase(string_candidate.size() - 1);
+        }
+        return string_candidate;
     }
 
     // Reads data until '/' or an error is encountered.
-- 
2.43.0


From 50f0918ce662da45a484d006e39c202ab00db164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 038/116] fix: the end of a well or group keyword was not seen
 after a comment line

---
 .../io/eclipse/EclipseGridParserHelpers.hpp   | 13 +++
 opm/core/io/eclipse/SpecialEclipseFields.hpp  | 86 ++++---------------
 2 files changed, 31 insertions(+), 68 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 86acb4f..558b42d 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -98,6 +98,19 @@ namespace
         return string_candidate;
     }
 
+    // Reads the first string of a record, skipping comment lines.
+    // Gives a string starting with '/' at the end of the keyword.
+    inline std::string readFirstString(std::istream& is)
+    {
+        std::string first = readString(is);
+        while (is && first.find("--") == 0) {
+            // This line is a comment
+            is >> ignoreLine;
+            first = readString(is);
+        }
+        return first;
+    }
+
     // Reads data until '/' or an error is encountered.
     template<typename T>
     inline void readVectorData(std::istream& is, std::vector<T>& data)
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 9041b28..ee4de21 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -149,14 +149,14 @@ struct FAULTS : public SpecialBase
         while(is) {
             std::string fltname;
             is >> fltname;
+            while (is && fltname.find("--") == 0) {
+                // This line is a comment
+                is >> ignoreLine >> fltname;
+            }
             if (fltname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (fltname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine >> fltname;
-            }
             FaultSegment fault_segment;
             fault_segment.ijk_coord.resize(6);
             fault_segment.fault_name = fltname;
@@ -219,14 +219,14 @@ struct MULTFLT : public SpecialBase
         while(is) {
             std::string fltname;
             is >> fltname;
+            while (is && fltname.find("--") == 0) {
+                // This line is a comment
+                is >> ignoreLine >> fltname;
+            }
             if (fltname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (fltname == "--") {
-                // This line is a comment
-                is >> ignoreLine >> fltname;
-            }
             MultfltLine multflt_line;
             multflt_line.fault_name = fltname;
             std::vector<double> data(2,1.0);
@@ -805,16 +805,11 @@ struct WELSPECS : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string wellname = readString(is); 
+            std::string wellname = readFirstString(is);
             if (wellname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (wellname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                wellname = readString(is);
-            }
             WelspecsLine welspecs_line;
             welspecs_line.name_ = wellname;
             welspecs_line.group_ = readString(is);
@@ -927,16 +922,11 @@ struct COMPDAT : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string wellname = readString(is); 
+            std::string wellname = readFirstString(is);
             if (wellname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (wellname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                wellname = readString(is);
-            }
             CompdatLine compdat_line;
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
@@ -1032,16 +1022,11 @@ struct GCONINJE : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string groupname = readString(is); 
+            std::string groupname = readFirstString(is);
             if (groupname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (groupname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                groupname = readString(is);
-            }
             GconinjeLine gconinje_line;
             gconinje_line.group_ = groupname;
             gconinje_line.injector_type_ = readString(is);
@@ -1135,16 +1120,11 @@ struct WCONINJE : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string wellname = readString(is); 
+            std::string wellname = readFirstString(is);
             if (wellname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (wellname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                wellname = readString(is);
-            }
             WconinjeLine wconinje_line;
             wconinje_line.well_ = wellname;
             wconinje_line.injector_type_ = readString(is);
@@ -1244,16 +1224,11 @@ struct GCONPROD : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string groupname = readString(is); 
+            std::string groupname = readFirstString(is);
             if (groupname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (groupname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                groupname = readString(is);
-            }
             GconprodLine gconprod_line;
             gconprod_line.group_ = groupname;
             gconprod_line.control_mode_ = readString(is);
@@ -1384,16 +1359,11 @@ struct WGRUPCON : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string wname = readString(is); 
+            std::string wname = readFirstString(is);
             if (wname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (wname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                wname = readString(is);
-            }
             WgrupconLine wgrupcon_line;
             wgrupcon_line.well_ = wname;
             std::string available = readString(is);
@@ -1495,16 +1465,11 @@ struct WCONPROD : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string wellname = readString(is); 
+            std::string wellname = readFirstString(is);
             if (wellname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (wellname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                wellname = readString(is);
-            }
             WconprodLine wconprod_line;
             wconprod_line.well_ = wellname;
             wconprod_line.open_shut_flag_ = readString(is);
@@ -1604,16 +1569,11 @@ struct WELTARG : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string wellname = readString(is); 
+            std::string wellname = readFirstString(is);
             if (wellname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (wellname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                wellname = readString(is);
-            }
             WeltargLine weltarg_line;
             weltarg_line.well_ = wellname;
             weltarg_line.control_change_ = readString(is);
@@ -1685,16 +1645,11 @@ struct WELOPEN : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string wellname = readString(is); 
+            std::string wellname = readFirstString(is);
             if (wellname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (wellname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                wellname = readString(is);
-            }
             WelopenLine welopen_line;
             welopen_line.well_ = wellname;
             welopen_line.openshutflag_ = readString(is);
@@ -2152,16 +2107,11 @@ struct WPOLYMER : public SpecialBase
     virtual void read(std::istream& is)
     {
         while(is) {
-            std::string wellname = readString(is);
+            std::string wellname = readFirstString(is);
             if (wellname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (wellname.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                wellname = readString(is);
-            }
             WpolymerLine wpolymer_line;
             wpolymer_line.well_ = wellname;
             is >> wpolymer_line.polymer_concentration_;    
-- 
2.43.0


From 6755307d761ad2f5762b339ffd2de01bb93172d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 039/116] fix: a large repeat count in a deck record wrote past
 the end of the data

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 558b42d..ba4048a 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -185,6 +185,9 @@ namespace
                         num_values += multiplier;  // Use default value(s)
                     } else {
                         is >> candidate;         // Use candidate 'multipler' times
+                        if (multiplier > max_values - num_values) {
+                            THROW("Too many values in record, at most " << max_values << " expected.");
+                        }
                         for (int i=0; i<multiplier; ++i, ++num_values) {
                             data[num_values] = candidate;
                         }
-- 
2.43.0


From 3384c86f2e342115375be93d4cf757cf33220a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 040/116] fix: defaulted items before the reservoir volume
 limit of GCONPROD were counted twice

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 21 ++++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index ee4de21..5a72bde 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1253,24 +1253,23 @@ struct GCONPROD : public SpecialBase
                 }
                 int read_ignored = 0;
                 int to_read = 6;
-                for (; read_ignored < to_read; ++read_ignored) {
+                bool end_of_record = false;
+                while (read_ignored < to_read && !end_of_record) {
                     std::string ignored_value = readString(is);
-                    if (ignored_value[ignored_value.size()-1]=='*') {
+                    if (ignored_value[0] == '/' || !is) {
+                        is.putback('/');
+                        end_of_record = true;
+                    } else if (ignored_value.size() > 1 && ignored_value[ignored_value.size()-1]=='*') {
                         // we've got defaulted argument, increment
-                        
-                        int num_defaulted;
+                        int num_defaulted = 1;
                         std::string num_defaulted_str = ignored_value.substr(0, ignored_value.size()-1);
                         std::istringstream(num_defaulted_str) >> num_defaulted;
                         read_ignored += num_defaulted;
-                        if (read_ignored >= to_read) {
-                            break;
-                        }
-                    } else if(ignored_value[0] == '/') {
-                        is.putback('/');
-                        break;
+                    } else {
+                        ++read_ignored;
                     }
                 }
-                if ( read_ignored <= to_read) {
+                if (read_ignored == to_read) {
                     // Not defaulted, we can read
                     std::string reservoir_volume = readString(is);
                     if (reservoir_volume[reservoir_volume.size()-1] == '*') {
-- 
2.43.0


From cc2fe83e54b2903e0ca986ed2d82d22bb8914f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 041/116] fix: a WGRUPCON record without phase was dropped and
 ended the keyword

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 26 ++++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 5a72bde..17499da 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1376,24 +1376,18 @@ struct WGRUPCON : public SpecialBase
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
             wgrupcon_line.guide_rate_ = double_data[0];
             
-            std::string phase = readString(is); 
-            if (phase[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
-            while (phase.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                phase = readString(is);
-            }
-            
-            wgrupcon_line.phase_ = phase;
-            
-            wgrupcon.push_back(wgrupcon_line);
-            // HACK! Ignore any further items
+            // The record may end before the phase.
             if (num_read == num_to_read) {
-                ignoreSlashLine(is);
+                std::string phase = readString(is);
+                if (phase[0] == '/') {
+                    is >> ignoreLine;
+                } else {
+                    wgrupcon_line.phase_ = phase;
+                    // HACK! Ignore any further items
+                    ignoreSlashLine(is);
+                }
             }
+            wgrupcon.push_back(wgrupcon_line);
 
         }
     }
-- 
2.43.0


From 39617360bdbb8557ed65b84dc0f3772c37e8d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 042/116] fix: GCONINJE reservoir rates were not converted and
 defaulted fractions were negative

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 17499da..b6a0e24 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1032,6 +1032,8 @@ struct GCONINJE : public SpecialBase
             gconinje_line.injector_type_ = readString(is);
             gconinje_line.control_mode_ = readString(is);
             std::vector<double> double_data(10, -1.0E20);
+            double_data[2] = gconinje_line.reinjection_fraction_target_;
+            double_data[3] = gconinje_line.voidage_replacement_fraction_;
             const int num_to_read = 4;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
             gconinje_line.surface_flow_max_rate_ = double_data[0];
@@ -1070,6 +1072,7 @@ struct GCONINJE : public SpecialBase
             } else {
                 gconinje[i].surface_flow_max_rate_ *= units.liqvol_s/units.time;
             }
+            gconinje[i].resv_flow_max_rate_ *= units.liqvol_r/units.time;
         }
     }
 };
-- 
2.43.0


From 1e15254d770e39d8350f1942aeea3895d21076a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 043/116] fix: an empty GRUPTREE or one with comments read
 garbage groups

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index b6a0e24..3eaab49 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -295,7 +295,11 @@ struct GRUPTREE : public SpecialBase {
 
     virtual void read(std::istream & is) {
         while (!is.eof()) {
-            std::string child = readString(is);
+            std::string child = readFirstString(is);
+            if (child[0] == '/') {
+                is >> ignoreLine;
+                return;
+            }
             is >> ignoreWhitespace;
             std::string parent = readString(is);
 
@@ -303,11 +307,6 @@ struct GRUPTREE : public SpecialBase {
             tree[child] = parent;
             
             is >> ignoreSlashLine;
-            is >> ignoreWhitespace;
-            if(is.peek() == int('/')) {
-                is >> ignoreSlashLine;
-                return;
-            }
         }
     }
 
-- 
2.43.0


From 4f0b9ab2dd0e49144fd9b63b5facbb5d82733c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 044/116] fix: a COMPDAT record for a well name root completed
 the first well only

---
 opm/core/wells/WellsManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 8d5956e..4a0b638 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -394,7 +394,6 @@ namespace Opm
                         wellperf_data[wix].push_back(pd);
                     }
                     found = true;
-                    break;
                 }
             }
             if (!found) {
-- 
2.43.0


From 67b23e57affcf878206e8dc4bed3d6d028e89aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 045/116] fix: a well without control keyword had an undefined
 type and could be opened by its group

---
 opm/core/wells/WellsManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 4a0b638..8308a7a 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -294,6 +294,8 @@ namespace Opm
                 // perforation.
                 wd.reference_bhp_depth = (refdepth < 0.0) ? -1e100 : refdepth;
                 wd.welspecsline = w;
+                // Until a WCONINJE or WCONPROD line says otherwise.
+                wd.type = PRODUCER;
                 well_data.push_back(wd);
             } else {
                 // Existing well, change data.
@@ -474,7 +476,7 @@ namespace Opm
         // The control chosen for each well (-1 is group control), and
         // whether the well is shut.
         std::vector<int> well_control(num_wells, -1);
-        std::vector<bool> well_shut(num_wells, false);
+        std::vector<bool> well_shut(num_wells, true);
 
         // Get WCONINJE data, add injection controls to wells.
         // It is allowed to have multiple lines corresponding to
-- 
2.43.0


From 6665ff08ec713ea1a81ef0f18f777188cf23f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 046/116] fix: connections that are shut in COMPDAT were open

---
 opm/core/wells/WellsManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 8308a7a..3929512 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -331,6 +331,8 @@ namespace Opm
         const COMPDAT& compdat = deck.getCOMPDAT();
         const int num_compdat  = compdat.compdat.size();
         for (int kw = 0; kw < num_compdat; ++kw) {
+            // Connections that are shut do not communicate with the well.
+            const bool shut = (compdat.compdat[kw].open_shut_flag_ == "SHUT");
             // Extract well name, or the part of the well name that
             // comes before the '*'.
             std::string name = compdat.compdat[kw].well_;
@@ -369,7 +371,7 @@ namespace Opm
                         kz2 = cpgdim[2] - 1;
                     }
 
-                    for (int kz = kz1; kz <= kz2; ++kz) {
+                    for (int kz = kz1; kz <= kz2 && !shut; ++kz) {
                         int cart_grid_indx = ix + cpgdim[0]*(jy + cpgdim[1]*kz);
                         std::map<int, int>::const_iterator cgit =
                             cartesian_to_compressed.find(cart_grid_indx);
-- 
2.43.0


From 7b3d76ab96de5e86f5dac7f0c334664df7113e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 047/116] fix: guide rate of an unknown well was given to the
 first well

---
 opm/core/wells/WellsManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 3929512..59b89cf 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -786,7 +786,11 @@ namespace Opm
             std::cout << well_collection_.getLeafNodes().size() << std::endl;
             for (size_t i = 0; i < lines.size(); i++) {
                 std::string name = lines[i].well_;
-                const int wix = well_names_to_index[name];
+                const WNameIt it = well_names_to_index.find(name);
+                if (it == well_names_to_index.end()) {
+                    THROW("Undefined well name: " << name << " in WGRUPCON");
+                }
+                const int wix = it->second;
                 WellNode& wellnode = *well_collection_.getLeafNodes()[wix];
                 ASSERT(wellnode.name() == name);
                 if (well_data[wix].type == PRODUCER) {
-- 
2.43.0


From b1d69405e57e3822efce6f1bf56d69fba42ea6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 048/116] fix: reading a second deck with a parser kept start
 date, units and mode of the first

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 8a1905e..cd5ea27 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -320,6 +320,9 @@ void EclipseGridParser::read(istream& is, bool convert_to_SI)
     floating_field_map_.clear();
     special_field_by_epoch_.clear();
     special_field_by_epoch_.push_back(SpecialMap());
+    ignored_fields_.clear();
+    current_reading_mode_ = Regular;
+    start_date_ = boost::gregorian::date(boost::date_time::not_a_date_time);
     current_time_days_ = 0.0;
     current_epoch_ = 0;
 
-- 
2.43.0


From 573650c1c39ee7fac891fb3473adf95e12a55c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 049/116] fix: a well shut by WELOPEN could not be opened by a
 later WCONINJE or WCONPROD

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 29 ++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index cd5ea27..466bf54 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -176,7 +176,24 @@ namespace {
         return us;
     }
 
-    
+    // Well status is set by the last of WELOPEN, WCONINJE and WCONPROD.
+    // Drops the WELOPEN lines of wells that have lines in one of the
+    // others, from line number first_line.
+    template <class Line>
+    void dropOverriddenWelopen(const std::vector<Line>& lines, std::size_t first_line, WELOPEN& welopen)
+    {
+        std::vector<WelopenLine> kept;
+        for (std::size_t i = 0; i < welopen.welopen.size(); ++i) {
+            bool overridden = false;
+            for (std::size_t line = first_line; line < lines.size(); ++line) {
+                overridden = overridden || (lines[line].well_ == welopen.welopen[i].well_);
+            }
+            if (!overridden) {
+                kept.push_back(welopen.welopen[i]);
+            }
+        }
+        welopen.welopen.swap(kept);
+    }
 
 } // anon namespace
 
@@ -462,6 +479,8 @@ void EclipseGridParser::readImpl(istream& is)
                     //ASSERT(newmap.count("TSTEP") == 0);
                 }
                 // Check if the keyword already exists. If so, append. Otherwise, create new.
+                const std::size_t num_inj_lines = hasField("WCONINJE") ? getWCONINJE().wconinje.size() : 0;
+                const std::size_t num_prod_lines = hasField("WCONPROD") ? getWCONPROD().wconprod.size() : 0;
                 SpecialMap::iterator it = special_field_by_epoch_[current_epoch_].find(keyword);
                 if (it != special_field_by_epoch_[current_epoch_].end()) {
                     it->second->read(is);
@@ -473,6 +492,14 @@ void EclipseGridParser::readImpl(istream& is)
                         THROW("Could not create field " << keyword);
                     }
                 }
+                if (hasField("WELOPEN")) {
+                    WELOPEN& welopen = dynamic_cast<WELOPEN&>(*getSpecialValue("WELOPEN"));
+                    if (keyword == "WCONINJE") {
+                        dropOverriddenWelopen(getWCONINJE().wconinje, num_inj_lines, welopen);
+                    } else if (keyword == "WCONPROD") {
+                        dropOverriddenWelopen(getWCONPROD().wconprod, num_prod_lines, welopen);
+                    }
+                }
                 break;
             }
             case IgnoreWithData: {
-- 
2.43.0


From 8d6b68482ff9b5cd90d9d60665a20ac8b1026f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 050/116] fix: a COMPDAT record that ended early read its last
 items from the next record

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 3eaab49..ad5c4f3 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -928,21 +928,27 @@ struct COMPDAT : public SpecialBase
             }
             CompdatLine compdat_line;
             compdat_line.well_ = wellname;
-            readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
-            compdat_line.open_shut_flag_ = readString(is);
             std::vector<int> int_data(1,-1);
-            readDefaultedVectorData(is, int_data, 1);
-            compdat_line.sat_table_number_ = int_data[0];
             std::vector<double> double_data(2, 0.0);
-            int num_to_read = 2;
-            int num_read = readDefaultedVectorData(is, double_data, num_to_read);
+            // The record may end after any item.
+            if (readDefaultedVectorData(is, compdat_line.grid_ind_, 4) >= 4) {
+                std::string flag = readString(is);
+                if (flag[0] == '/') {
+                    is >> ignoreLine;
+                } else {
+                    compdat_line.open_shut_flag_ = flag;
+                    if (readDefaultedVectorData(is, int_data, 1) >= 1) {
+                        // HACK! Ignore items 10-14.
+                        if (readDefaultedVectorData(is, double_data, 2) >= 2) {
+                            ignoreSlashLine(is);
+                        }
+                    }
+                }
+            }
+            compdat_line.sat_table_number_ = int_data[0];
             compdat_line.connect_trans_fac_ = double_data[0];
             compdat_line.diameter_ = double_data[1];
 
-            // HACK! Ignore items 10-14.
-            if (num_read == num_to_read) {
-                ignoreSlashLine(is);
-            }
             compdat.push_back(compdat_line);
          }
     }
-- 
2.43.0


From e8471c48e4c2f6ca3bbf270e7e7d374db6ee72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 051/116] fix: a read error in a deck was taken for its end

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 466bf54..10f8a1e 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -550,6 +550,9 @@ void EclipseGridParser::readImpl(istream& is)
             // if (!ok)
             is >> ignoreLine;
         }
+        if (is.bad()) {
+            THROW("Error reading from input stream.");
+        }
     }
 }
 
-- 
2.43.0


From c7fcb0df0890e453e57339fab78bb2030d1254ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 052/116] fix: a well name root in COMPDAT also completed wells
 that were defined later

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 30 +++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 10f8a1e..59a7bb2 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -176,6 +176,31 @@ namespace {
         return us;
     }
 
+    // Well name roots in COMPDAT stand for the wells that are defined so
+    // far. Replaces lines with a root, from line number first_line, by
+    // lines for those wells.
+    void expandWellRoots(const std::vector<WelspecsLine>& wells, std::size_t first_line, COMPDAT& compdat)
+    {
+        std::vector<CompdatLine> expanded(compdat.compdat.begin(), compdat.compdat.begin() + first_line);
+        for (std::size_t line = first_line; line < compdat.compdat.size(); ++line) {
+            CompdatLine compdat_line = compdat.compdat[line];
+            const std::string root = compdat_line.well_.substr(0, compdat_line.well_.find('*'));
+            std::set<std::string> matching;
+            if (root.size() < compdat_line.well_.size()) {
+                for (std::size_t w = 0; w < wells.size(); ++w) {
+                    if (wells[w].name_.compare(0, root.size(), root) == 0 && matching.insert(wells[w].name_).second) {
+                        compdat_line.well_ = wells[w].name_;
+                        expanded.push_back(compdat_line);
+                    }
+                }
+            }
+            if (matching.empty()) {
+                expanded.push_back(compdat_line);
+            }
+        }
+        compdat.compdat.swap(expanded);
+    }
+
     // Well status is set by the last of WELOPEN, WCONINJE and WCONPROD.
     // Drops the WELOPEN lines of wells that have lines in one of the
     // others, from line number first_line.
@@ -479,6 +504,7 @@ void EclipseGridParser::readImpl(istream& is)
                     //ASSERT(newmap.count("TSTEP") == 0);
                 }
                 // Check if the keyword already exists. If so, append. Otherwise, create new.
+                const std::size_t num_compdat_lines = hasField("COMPDAT") ? getCOMPDAT().compdat.size() : 0;
                 const std::size_t num_inj_lines = hasField("WCONINJE") ? getWCONINJE().wconinje.size() : 0;
                 const std::size_t num_prod_lines = hasField("WCONPROD") ? getWCONPROD().wconprod.size() : 0;
                 SpecialMap::iterator it = special_field_by_epoch_[current_epoch_].find(keyword);
@@ -492,6 +518,10 @@ void EclipseGridParser::readImpl(istream& is)
                         THROW("Could not create field " << keyword);
                     }
                 }
+                if (keyword == "COMPDAT" && hasField("WELSPECS")) {
+                    expandWellRoots(getWELSPECS().welspecs, num_compdat_lines,
+                                    dynamic_cast<COMPDAT&>(*getSpecialValue("COMPDAT")));
+                }
                 if (hasField("WELOPEN")) {
                     WELOPEN& welopen = dynamic_cast<WELOPEN&>(*getSpecialValue("WELOPEN"));
                     if (keyword == "WCONINJE") {
-- 
2.43.0


From 1cc4ea5455e2c63b5198d33545b8285aa38d5d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 053/116] fix: a reservoir volume limit of GCONPROD that could
 not be read was ignored

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index ad5c4f3..a24df33 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1271,7 +1271,9 @@ struct GCONPROD : public SpecialBase
                         // we've got defaulted argument, increment
                         int num_defaulted = 1;
                         std::string num_defaulted_str = ignored_value.substr(0, ignored_value.size()-1);
-                        std::istringstream(num_defaulted_str) >> num_defaulted;
+                        if (!(std::istringstream(num_defaulted_str) >> num_defaulted)) {
+                            THROW("Error reading " << ignored_value << " in GCONPROD.");
+                        }
                         read_ignored += num_defaulted;
                     } else {
                         ++read_ignored;
@@ -1285,7 +1287,9 @@ struct GCONPROD : public SpecialBase
                     } else if(reservoir_volume[0] == '/') {
                         is.putback('/');
                     } else {
-                        std::istringstream(reservoir_volume) >> gconprod_line.resv_max_rate_;
+                        if (!(std::istringstream(reservoir_volume) >> gconprod_line.resv_max_rate_)) {
+                            THROW("Error reading reservoir volume rate " << reservoir_volume << " in GCONPROD.");
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From f9441a5c045a2fea692ddc7cd387a08454b5ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 054/116] fix: refuse decks that end inside a keyword

When the input ended (or could not be read) within the data of a list
keyword, the incomplete lines were stored and the deck was accepted.
Some readers looped forever on a stream that fails without reaching its
end. A deck without a newline after its last slash was refused.
---
 opm/core/io/eclipse/EclipseGridParser.cpp     |  9 +++
 .../io/eclipse/EclipseGridParserHelpers.hpp   | 58 ++++++++++---------
 opm/core/io/eclipse/SpecialEclipseFields.hpp  | 32 +++++-----
 3 files changed, 58 insertions(+), 41 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 59a7bb2..b10576c 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -482,6 +482,9 @@ void EclipseGridParser::readImpl(istream& is)
                 } else {
                     THROW("Keyword " << keyword << " cannot be handled here.");
                 }
+                if (is.fail()) {
+                    THROW("Input ended while reading keyword " << keyword);
+                }
                 break;
             }
             case SpecialField: {
@@ -518,6 +521,9 @@ void EclipseGridParser::readImpl(istream& is)
                         THROW("Could not create field " << keyword);
                     }
                 }
+                if (is.fail()) {
+                    THROW("Input ended while reading keyword " << keyword);
+                }
                 if (keyword == "COMPDAT" && hasField("WELSPECS")) {
                     expandWellRoots(getWELSPECS().welspecs, num_compdat_lines,
                                     dynamic_cast<COMPDAT&>(*getSpecialValue("COMPDAT")));
@@ -792,6 +798,9 @@ EclipseGridParser::createSpecialField(std::istream& is,
     std::tr1::shared_ptr<SpecialBase> spec_ptr
         = Factory<SpecialBase>::createObject(fieldname);
     is >> ignoreWhitespace;
+    if (!is.good()) {
+        THROW("No data for keyword " << fieldname);
+    }
     spec_ptr->read(is);
     return spec_ptr;
 }
diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index ba4048a..e400b81 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -52,7 +52,9 @@ namespace
 
     inline std::istream& ignoreLine(std::istream& is)
     {
-	is.ignore(std::numeric_limits<int>::max(), '\n');
+	if (!is.eof()) {
+	    is.ignore(std::numeric_limits<int>::max(), '\n');
+	}
 	return is;
     }
 
@@ -68,12 +70,12 @@ namespace
 	// Getting the character type facet for is()
 	// We use the classic (i.e. C) locale.
 	const std::ctype<char>& ct = std::use_facet< std::ctype<char> >(std::locale::classic());
-	char c;
-	while (is.get(c)) {
-	    if (!ct.is(std::ctype_base::space, c)) {
-		is.putback(c);
+	while (is.good()) {
+	    const int c = is.peek();
+	    if (!is.good() || !ct.is(std::ctype_base::space, char(c))) {
 		break;
 	    }
+	    is.ignore();
 	}
 	return is;
     }
@@ -122,7 +124,7 @@ namespace
 	    if (is.rdstate() & std::ios::failbit) {
 		is.clear(is.rdstate() & ~std::ios::failbit);
                 is >> ignoreWhitespace;
-		char dummy;
+		char dummy = '\0';
 		is >> dummy;
 		if (dummy == '/') {
                     is >> ignoreLine;
@@ -272,12 +274,16 @@ namespace
         while (is.peek() == int('-')) {
             is >> ignoreLine;   // This line is a comment
         }
-        int day, year;
+        int day = 0;
+        int year = 0;
         std::string month_name;
         is >> day;
         month_name = readString(is);
         is >> year;
         ignoreSlashLine(is);
+        if (!is) {
+            THROW("Encountered error while reading date.");
+        }
         int month = getMonthNumber(month_name);
 
         return boost::gregorian::date(boost::gregorian::greg_year(year),
@@ -294,14 +300,12 @@ namespace
 	const std::ctype<char>& ct =
 	    std::use_facet< std::ctype<char> >(std::locale::classic());
 
-	while (!is.eof()) {
+	while (is.good()) {
 	    is >> ignoreWhitespace;
-	    char c;
-	    is.get(c);
-	    if (is.eof()) {
+	    if (!is.good()) {
 		return task;
 	    }
-	    is.putback(c);
+	    const char c = char(is.peek());
 	    if (ct.is(std::ctype_base::digit, c) || c== '.') {
 		task = 0;   // Decimal digit. Read more data.
 		break;
@@ -329,24 +333,16 @@ namespace
 	    std::use_facet< std::ctype<char> >(std::locale::classic());
 	std::vector<double> record;
 	std::vector<std::vector<double> > table;	
-	while (!is.eof()) {
+	while (is.good()) {
 	    record.clear();
 	    readVectorData(is, record);
 	    table.push_back(record);
-	    while (!is.eof()) {
+	    while (is.good()) {
 		is >> ignoreWhitespace;
-		char c;
-		is.get(c);
-                if (is.eof()) {
-                    // Reached end of file, we should have pushed
-                    // the last table, and emptied it. If not,
-                    // we have an error.
-                    if (!table.empty()) {
-                        THROW("Reached EOF while still building PVT table. Missing end-of-table (slash)?");
-                    }
-                    return;
-                }
-		is.putback(c);
+		if (!is.good()) {
+		    break;
+		}
+		const char c = char(is.peek());
 		if (ct.is(std::ctype_base::digit, c) || c== '.') {
 		    break;   // Decimal digit. Read more records.
 		}
@@ -369,6 +365,12 @@ namespace
 		}
 	    }
 	}
+	// Reached end of file, we should have pushed
+	// the last table, and emptied it. If not,
+	// we have an error.
+	if (!table.empty()) {
+	    THROW("Reached EOF while still building PVT table. Missing end-of-table (slash)?");
+	}
     }
 
     // Reads keywords PVDG, PVDO, ROCKTAB
@@ -377,7 +379,7 @@ namespace
     {
 	std::vector<double> record;
 	std::vector<std::vector<double> > table(ncol);	
-	while (!is.eof()) {
+	while (is.good()) {
 	    record.clear();
 	    readVectorData(is, record);
 	    const int rec_size = record.size()/ncol;
@@ -454,7 +456,7 @@ namespace
     {
 	std::vector<double> record;
 	std::vector<std::vector<double> > table(ncol);	
-	while (!is.eof()) {
+	while (is.good()) {
 	    record.clear();
 	    readRelPermTable(is, record);
 	    const int rec_size = record.size()/ncol;
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index a24df33..2175cde 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -294,7 +294,7 @@ struct GRUPTREE : public SpecialBase {
     }
 
     virtual void read(std::istream & is) {
-        while (!is.eof()) {
+        while (is) {
             std::string child = readFirstString(is);
             if (child[0] == '/') {
                 is >> ignoreLine;
@@ -356,7 +356,7 @@ struct DENSITY : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while (!is.eof()) {
+        while (is.good()) {
             std::vector<double> density(3,-1e100);
             if (readDefaultedVectorData(is, density, 3) == 3) {
                 ignoreSlashLine(is);
@@ -579,7 +579,7 @@ struct PVTW : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while (!is.eof()) {
+        while (is.good()) {
             std::vector<double> pvtw;
             readVectorData(is, pvtw);
             if (pvtw.size() == 4) {
@@ -629,7 +629,7 @@ struct ROCK : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while (!is.eof()) {
+        while (is.good()) {
             std::vector<double> rock;
             readVectorData(is, rock);
             rock_compressibilities_.push_back(rock);
@@ -1789,7 +1789,7 @@ struct PVCDO : public SpecialBase
 
     virtual void read(std::istream& is)
     {
-        while (!is.eof()) {
+        while (is.good()) {
             std::vector<double> pvcdo;
             readVectorData(is, pvcdo);
             if (pvcdo.size() == 4) {
@@ -1871,14 +1871,14 @@ struct MultRec : public SpecialBase
 #endif
         const std::ctype<char>& ct = std::use_facet< std::ctype<char> >(std::locale::classic());
         is >> ignoreSlashLine;
-        while (!is.eof()) {
+        while (is.good()) {
             is >> ignoreWhitespace;
+            if (!is.good()) {
+                return;
+            }
             std::streampos pos = is.tellg();
             char c;
             is.get(c);
-            if (is.eof()) {
-                return;
-            }
             if (ct.is(std::ctype_base::alpha, c)) {
                 std::string name;     // Unquoted name or new keyword?
                 std::getline(is, name);
@@ -2176,7 +2176,7 @@ struct ENDSCALE : public SpecialBase {
         revers_switch_ = std::string("REVERS");
         n_tab_ = 1;
         n_node_ = 20;
-        while (!is.eof()) {
+        while (is) {
             std::string tmp = readString(is);
             while (tmp.find("--") == 0) {
                 // This line is a comment
@@ -2206,6 +2206,9 @@ struct ENDSCALE : public SpecialBase {
                 return;
             }
             is >> n_node_;
+            if (is.eof()) {
+                THROW("Reached end of file while reading " << name());
+            }
             is >> ignoreLine;
             break;
         }
@@ -2230,7 +2233,7 @@ struct SCALECRS : public SpecialBase {
 
     virtual void read(std::istream & is) {
         scalecrs_ = std::string("NO");
-        while (!is.eof()) {
+        while (is) {
             std::string tmp = readString(is);
             while (tmp.find("--") == 0) {
                 // This line is a comment
@@ -2243,6 +2246,9 @@ struct SCALECRS : public SpecialBase {
             } else if (tmp[0] == 'Y') {
                 scalecrs_ = std::string("YES");
             }
+            if (is.eof()) {
+                THROW("Reached end of file while reading " << name());
+            }
             is >> ignoreLine;
             break;
         }
@@ -2268,7 +2274,7 @@ struct ENPTVD : public SpecialBase {
     virtual void read(std::istream & is) {
         table_.resize(5);
         std::vector<std::vector<double> > sub_table(5);
-        while (!is.eof()) {
+        while (is) {
             if(is.peek() == int('/')) {
                 if (sub_table[0].empty() && !(table_[0].empty())) {
                     is >> ignoreLine; 
@@ -2355,7 +2361,7 @@ struct ENKRVD : public SpecialBase {
     virtual void read(std::istream & is) {
         table_.resize(5);
         std::vector<std::vector<double> > sub_table(5);
-        while (!is.eof()) {
+        while (is) {
             if(is.peek() == int('/')) {
                 if (sub_table[0].empty() && !(table_[0].empty())) {
                     is >> ignoreLine; 
-- 
2.43.0


From 4f0a6329b8b2f45854eec54201ed8f0e2b5b14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 055/116] fix: skip comment lines in front of dates

A comment line right after DATES or START, or between the last date and
the slash that ends DATES, was read as a date.
---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 14 +++++++++++---
 opm/core/io/eclipse/SpecialEclipseFields.hpp     |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index e400b81..e44a89d 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -80,6 +80,16 @@ namespace
 	return is;
     }
 
+    // Skips whitespace and comment lines.
+    inline std::istream& ignoreComments(std::istream& is)
+    {
+        is >> ignoreWhitespace;
+        while (is.good() && is.peek() == int('-')) {
+            is >> ignoreLine >> ignoreWhitespace;
+        }
+        return is;
+    }
+
     inline std::string readString(std::istream& is)
     {
 	std::string string_candidate;
@@ -271,9 +281,7 @@ namespace
 
     inline boost::gregorian::date readDate(std::istream& is)
     {
-        while (is.peek() == int('-')) {
-            is >> ignoreLine;   // This line is a comment
-        }
+        is >> ignoreComments;
         int day = 0;
         int year = 0;
         std::string month_name;
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 2175cde..086014d 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -330,7 +330,7 @@ struct DATES : public SpecialBase
     {
         while(is) {
             dates.push_back(readDate(is));
-            is >> ignoreWhitespace;
+            is >> ignoreComments;
             if (is.peek() == int('/')) {
                 is >> ignoreLine;
                 break;
-- 
2.43.0


From 43349217867e38f13d30e8af6bee1b887e40d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 056/116] fix: read the title from the line after TITLE

The parser has skipped to the title when TITLE::read() is called, which
then skipped the title itself and took the following line of the deck,
keywords included, in its place.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 086014d..1b200c5 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -263,7 +263,12 @@ struct TITLE : public SpecialBase
     virtual std::string name() const
     { return std::string("TITLE"); }
     virtual void read(std::istream& is)
-    { is >> ignoreLine; std::getline(is, title); }
+    {
+        do {
+            is >> ignoreWhitespace;
+            std::getline(is, title);
+        } while (is && title.find("--") == 0);    // Comment lines
+    }
     virtual void write(std::ostream& os) const
     { os << name() << '\n' << title << '\n'; }
     virtual void convertToSI(const EclipseUnits&)
-- 
2.43.0


From c668a760bebb0a83c96cf61b0cd05aeb6c373e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 057/116] fix: report read errors and incomplete lines in
 interpolator tables

MonotCubicInterpolator::read() looped forever when the file could not be
read, and the failed extraction at the end of a line counted as a
column, so that a line with one column too few added an invented value.
---
 opm/core/utility/MonotCubicInterpolator.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index f2e0200..3a36a57 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -127,8 +127,7 @@ read(const std::string & datafilename, int xColumn, int fColumn)
   }
   
   string linestring;
-  while (!datafile_fs.eof()) {
-    getline(datafile_fs, linestring);
+  while (getline(datafile_fs, linestring)) {
 
     // Replace commas with space:
     string::size_type pos = 0;
@@ -139,20 +138,26 @@ read(const std::string & datafilename, int xColumn, int fColumn)
     }
 
     stringstream strs(linestring);
-    int columnindex = 0;
     std::vector<double> value; 
     if (linestring.size() > 0 && linestring.at(0) != '#') {
-        while (!(strs.rdstate() & std::ios::failbit)) {
-            double tmp;
-            strs >> tmp;
+        double tmp;
+        while (strs >> tmp) {
             value.push_back(tmp);
-            columnindex++;
         }
     }
-    if (columnindex >= (max(xColumn, fColumn))) {
+    if (strs.bad()) {
+      data.clear() ;
+      return false ;
+    }
+    if (int(value.size()) >= (max(xColumn, fColumn))) {
       data[value[xColumn-1]] =  value[fColumn-1] ;
     }
   }   
+  if (datafile_fs.bad()) {
+    // The file could not be read to its end.
+    data.clear() ;
+    return false ;
+  }
   datafile_fs.close();
   
   if (data.size() == 0) {
-- 
2.43.0


From 876accfca60db499c775c61af4bfe69ce565a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 058/116] fix: do not trust the sizes found in grid files

read_grid() wrote beyond its arrays when the indirection arrays did not
match the sizes at the start of the file or when there were more than
three dimensions. A read error within the last number was not noticed,
and the map to global cells was dropped silently when its memory could
not be allocated.
---
 opm/core/grid/grid.c | 76 ++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/opm/core/grid/grid.c b/opm/core/grid/grid.c
index 58179b7..00299d6 100644
--- a/opm/core/grid/grid.c
+++ b/opm/core/grid/grid.c
@@ -22,6 +22,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -176,13 +177,15 @@ input_error(FILE *fp, const char * const err)
 
 
 static struct UnstructuredGrid *
-allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
+allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap,
+                        size_t *nfacenodes, size_t *ncellfaces)
 {
     struct UnstructuredGrid *G;
 
     int           save_errno;
     unsigned long tmp;
     size_t        dimens[GRID_NMETA], i;
+    int           valid;
 
     save_errno = errno;
 
@@ -193,8 +196,19 @@ allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
         i += 1;
     }
 
-    if (i == GRID_NMETA) {
+    /* All sizes must be representable as 'int', and the number of
+     * dimensions must not exceed the size of cartdims. */
+    valid = (i == GRID_NMETA) && (dimens[GRID_NDIMS] > 0) &&
+        (dimens[GRID_NDIMS] <= sizeof G->cartdims / sizeof G->cartdims[0]);
+    for (i = 0; valid && (i < GRID_NMETA); i++) {
+        valid = dimens[i] < INT_MAX;
+    }
+
+    if (valid) {
         if (fscanf(fp, "%d %d", has_tag, has_indexmap) == 2) {
+            *nfacenodes = dimens[GRID_NFACENODES];
+            *ncellfaces = dimens[GRID_NCELLFACES];
+
             G = allocate_grid(dimens[GRID_NDIMS]     ,
                               dimens[GRID_NCELLS]    ,
                               dimens[GRID_NFACES]    ,
@@ -212,9 +226,14 @@ allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
                     G->global_cell =
                         malloc(dimens[GRID_NCELLS] * sizeof *G->global_cell);
 
-                    /* Allocation failure checked elsewhere. */
+                    if (G->global_cell == NULL) {
+                        destroy_grid(G);
+                        G = NULL;
+                    }
                 }
+            }
 
+            if (G != NULL) {
                 G->number_of_cells = (int) dimens[GRID_NCELLS];
                 G->number_of_faces = (int) dimens[GRID_NFACES];
                 G->number_of_nodes = (int) dimens[GRID_NNODES];
@@ -285,7 +304,7 @@ read_grid_nodes(FILE *fp, struct UnstructuredGrid *G)
 
 
 static int
-read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
+read_grid_faces(FILE *fp, size_t nfacenodes, struct UnstructuredGrid *G)
 {
     int    save_errno, ok;
     size_t nf, nfn, i;
@@ -307,14 +326,15 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
     }
     else {
         /* G->face_nodes */
-        nfn = G->face_nodepos[ nf ];
+        nfn = nfacenodes;
 
         i = 0;
-        while ((i < nfn) && (fscanf(fp, " %d", & G->face_nodes[ i ]) == 1)) {
+        while ((G->face_nodepos[ nf ] == (int) nfn) &&
+               (i < nfn) && (fscanf(fp, " %d", & G->face_nodes[ i ]) == 1)) {
             i += 1;
         }
 
-        ok = i == nfn;
+        ok = (G->face_nodepos[ nf ] == (int) nfn) && (i == nfn);
         if (! ok) {
             input_error(fp, "Unable to read face-nodes");
         }
@@ -389,7 +409,7 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
 
 
 static int
-read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
+read_grid_cells(FILE *fp, size_t ncellfaces, int has_tag, int has_indexmap,
                 struct UnstructuredGrid *G)
 {
     int    save_errno, ok;
@@ -411,10 +431,13 @@ read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
     }
     else {
         /* G->cell_faces (and G->cell_facetag if applicable) */
-        ncf = G->cell_facepos[ nc ];
+        ncf = ncellfaces;
         i   = 0;
 
-        if (has_tag) {
+        if (G->cell_facepos[ nc ] != (int) ncf) {
+            /* Indirection array inconsistent with metadata. */
+        }
+        else if (has_tag) {
             assert (G->cell_facetag != NULL);
 
             while ((i < ncf) &&
@@ -431,7 +454,7 @@ read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
             }
         }
 
-        ok = i == ncf;
+        ok = (G->cell_facepos[ nc ] == (int) ncf) && (i == ncf);
         if (! ok) {
             input_error(fp, "Unable to read cell-faces");
         }
@@ -442,18 +465,9 @@ read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
         if (has_indexmap) {
             i = 0;
 
-            if (G->global_cell != NULL) {
-                while ((i < nc) &&
-                       (fscanf(fp, " %d", & G->global_cell[ i ]) == 1)) {
-                    i += 1;
-                }
-            }
-            else {
-                int discard;
-
-                while ((i < nc) && (fscanf(fp, " %d", & discard) == 1)) {
-                    i += 1;
-                }
+            while ((i < nc) &&
+                   (fscanf(fp, " %d", & G->global_cell[ i ]) == 1)) {
+                i += 1;
             }
         }
         else {
@@ -511,19 +525,27 @@ read_grid(const char *fname)
     FILE                    *fp;
 
     int save_errno;
-    int has_tag, has_indexmap, ok;
+    int    has_tag, has_indexmap, ok;
+    size_t nfacenodes, ncellfaces;
 
     save_errno = errno;
 
     fp = fopen(fname, "rt");
     if (fp != NULL) {
-        G = allocate_grid_from_file(fp, & has_tag, & has_indexmap);
+        G = allocate_grid_from_file(fp, & has_tag, & has_indexmap,
+                                    & nfacenodes, & ncellfaces);
 
         ok = G != NULL;
 
         if (ok) { ok = read_grid_nodes(fp, G); }
-        if (ok) { ok = read_grid_faces(fp, G); }
-        if (ok) { ok = read_grid_cells(fp, has_tag, has_indexmap, G); }
+        if (ok) { ok = read_grid_faces(fp, nfacenodes, G); }
+        if (ok) { ok = read_grid_cells(fp, ncellfaces, has_tag, has_indexmap, G); }
+
+        /* A value may be incomplete if the file could not be read. */
+        if (ok && ferror(fp)) {
+            input_error(fp, "Unable to read grid");
+            ok = 0;
+        }
 
         if (! ok) {
             destroy_grid(G);
-- 
2.43.0


From 94a4e77731b52e007c1a10337e60e651b8e2476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 059/116] fix: report read errors in parameter files, skip
 lines without '='

A parameter file that could not be read to its end was accepted. A line
without '=' set a parameter with the whole line as name and value, and
an empty line made the reader loop forever.
---
 opm/core/utility/parameters/ParameterGroup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index ab62010..8cf6435 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -127,6 +127,7 @@ namespace Opm {
                     int fpos = parameter.find(ID_delimiter_assignment);
                     if (fpos == int(std::string::npos)) {
                         std::cerr << "WARNING: No '" << ID_delimiter_assignment << "' found on line " << lineno << ".\n";
+                        continue;
                     }
                     int pos = fpos + ID_delimiter_assignment.size();
                     int spos = parameter.find(ID_delimiter_assignment, pos);
@@ -139,6 +140,10 @@ namespace Opm {
                     }
                 }
 	    }
+	    if (is.bad()) {
+		std::cerr << "Error: Failed to read parameter file '" << param_filename << "'.\n";
+		throw std::exception();
+	    }
 	}
 
 	void ParameterGroup::writeParam(const std::string& param_filename) const {
-- 
2.43.0


From 60468fce64c3f932f69b59ac30dec6022aa73aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 060/116] fix: refuse XML parameter files without a root
 element

They made the reader dereference a null pointer.
---
 opm/core/utility/parameters/ParameterXML.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterXML.cpp b/opm/core/utility/parameters/ParameterXML.cpp
index 60c7294..3020b5a 100644
--- a/opm/core/utility/parameters/ParameterXML.cpp
+++ b/opm/core/utility/parameters/ParameterXML.cpp
@@ -84,6 +84,10 @@ namespace Opm {
 		    throw std::exception();
                 }
                 const TiXmlNode* root = doc.RootElement();
+                if (root == 0) {
+		    std::cerr << "ERROR: No element in XML file '" << filename << "'\n";
+		    throw std::exception();
+                }
 		std::string xml_file_path = boost::filesystem::path(filename).branch_path().string();
 		fill_tree(pg, root, xml_file_path);
 	    }
-- 
2.43.0


From f31141e42721b3299419a9b79c4f319480c40959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 061/116] fix: refuse incomplete VAG files

Truncated data were accepted with a message or made the reader loop
forever, negative sizes were used, and the material got an extra value
at the end of the file.
---
 opm/core/io/vag/vag.cpp | 64 ++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index 75854a2..40de74e 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -35,6 +35,7 @@
 
 #include "config.h"
 #include <opm/core/io/vag/vag.hpp>
+#include <opm/core/utility/ErrorMacros.hpp>
 #include <opm/core/grid/cornerpoint_grid.h>	 	      
 #include <iostream>
 #include <fstream>
@@ -50,16 +51,26 @@ namespace Opm
     void readPosStruct(std::istream& is,int n,PosStruct& pos_struct){
 	using namespace std;
 	//PosStruct pos_struct;
+	if(!is || n < 0){
+	    THROW("Failed to read number of entries in pos structure");
+	}
 	pos_struct.pos.resize(n+1);
 	pos_struct.pos[0]=0;
+	pos_struct.value.clear();
 	for(int i=0;i< n;++i){
 	    int number;
 	    is >> number ;
+	    if(!is || number < 0){
+	        THROW("Failed to read pos structure");
+	    }
 	    //cout <<number << endl;
 	    pos_struct.pos[i+1]=pos_struct.pos[i]+number;
 	    for(int j=0;j< number;++j){
 		int value;
 		is >> value;
+		if(!is){
+		    THROW("Failed to read pos structure");
+		}
 		//	cout << value << " ";
 		pos_struct.value.push_back(value);
 	    }
@@ -89,12 +100,29 @@ namespace Opm
 	    os << endl;
 	}
     }
+    namespace {
+	// Reads a vector of n entries of size dim.
+	template <typename T>
+	void resizeAndReadVector(std::istream& is,int n,int dim,std::vector<T>& vec){
+	    if(!is || n < 0){
+		THROW("Failed to read number of entries in vector");
+	    }
+	    vec.resize(std::size_t(dim)*n);
+	    readVector(is,vec);
+	    if(!is){
+		THROW("Failed to read vector");
+	    }
+	}
+    } // anon namespace
+
     void readVagGrid(std::istream& is,Opm::VAG& vag_grid){
 	using namespace std;
 	using namespace Opm;
-	while (!is.eof()) {
-	    string keyword;
-	    is >> keyword;	
+	if(!is){
+	    THROW("Could not read given input stream.");
+	}
+	string keyword;
+	while (is >> keyword) {
 	    //cout << keyword<< endl;
 	    if(keyword == "Number"){
 		string stmp;
@@ -105,6 +133,9 @@ namespace Opm
 		    getline(is,stmp);
 		    int number;
 		    is >> number;
+		    if(!is){
+			THROW("Failed to read number of " << entity);
+		    }
 		    if(entity=="vertices"){
 			vag_grid.number_of_vertices=number;
 		    }else if((entity=="volumes") || (entity=="control")){
@@ -116,16 +147,14 @@ namespace Opm
 		    }	
 		    cout << "Found Number of: " << entity <<" " << number << endl;		
 		} else {
-		    cerr << "Wrong format: Not of after Number" << endl;
-		    return;
+		    THROW("Wrong format: Not of after Number");
 		}
 	    }else{
 		// read geometry defined by vertices
 		if(keyword=="Vertices"){
 		    int number;
 		    is >> number;	   	    
-		    vag_grid.vertices.resize(3*number);// assume 3d data
-		    readVector(is,vag_grid.vertices);
+		    resizeAndReadVector(is,number,3,vag_grid.vertices);// assume 3d data
 		}
 		// here starts the reding of all pos structures
 		else if(keyword=="Volumes->Faces" || keyword=="Volumes->faces"){
@@ -158,8 +187,7 @@ namespace Opm
 		else if(keyword=="Edge" || keyword=="Edges"){
 		    int number;
 		    is >> number;	   	    
-		    vag_grid.edges.resize(2*number);
-		    readVector(is,vag_grid.edges);
+		    resizeAndReadVector(is,number,2,vag_grid.edges);
 		    cout << "Edges: Number of " << number << endl;
 		}else if(keyword=="Faces->Volumes" || keyword=="Faces->Control"){
 		    int number;
@@ -168,8 +196,7 @@ namespace Opm
 			is >> vol;
 		    }
 		    is >> number;
-		    vag_grid.faces_to_volumes.resize(2*number);
-		    readVector(is,vag_grid.faces_to_volumes);
+		    resizeAndReadVector(is,number,2,vag_grid.faces_to_volumes);
 		    cout << "Faces->Volumes: Number of " << number << endl;   
 		}
 		// read material
@@ -180,18 +207,27 @@ namespace Opm
 		    is >> number;
 		    cout << "Material number  " << number << endl;
 		    // we read all the rest into doubles		
-		    while(!is.eof()){
-			double value;
-			is >> value;
+		    if(!is){
+			THROW("Failed to read material");
+		    }
+		    vag_grid.material.clear();
+		    double value;
+		    while(is >> value){
 			//cout << value << endl;
 			vag_grid.material.push_back(value);
 		    }
+		    if(!is.eof()){
+			THROW("Failed to read material");
+		    }
 		}else{
 		    //cout << "keyword;
 		}
 		//cout << "Found" << keyword << "Number of " << number << endl;
 	    }
 	}
+	if(is.bad()){
+	    THROW("Failed to read vag grid");
+	}
     }
     void vagToUnstructuredGrid(Opm::VAG& vag_grid,UnstructuredGrid& grid){
 	using namespace std;
-- 
2.43.0


From 9fff6a9a10037a5a3fd59b39bbd5a841ab34b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 062/116] fix: write VAG files in the format that is read

The numbers of entities must be on a line of their own, and the size of
Vertices is the number of vertices, not of coordinates.
---
 opm/core/io/vag/vag.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index 40de74e..e194b5b 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -409,15 +409,15 @@ namespace Opm
     void writeVagFormat(std::ostream& os,Opm::VAG& vag_grid){
 	using namespace std;
 	os << "File in the Vag grid format\n";
-        os << "Number of vertices " ;
+        os << "Number of vertices\n" ;
         os << vag_grid.number_of_vertices << endl;;
-        os <<"Number of control volume ";
+        os <<"Number of control volume\n";
         os << vag_grid.number_of_volumes << endl;
-        os <<"Number of faces " ;
+        os <<"Number of faces\n" ;
         os << vag_grid.number_of_faces << endl;
-        os <<"Number of edges " ;
+        os <<"Number of edges\n" ;
         os << vag_grid.number_of_edges << endl;
-        os <<"Vertices      "   << vag_grid.vertices.size() << endl;
+        os <<"Vertices      "   << vag_grid.vertices.size()/3 << endl;
         writeVector(os, vag_grid.vertices,3);
         os << "Volumes->faces   " << vag_grid.volumes_to_faces.pos.size()-1 << endl;
         writePosStruct(os, vag_grid.volumes_to_faces);        
@@ -427,9 +427,9 @@ namespace Opm
         writePosStruct(os, vag_grid.faces_to_edges);
         os << "Faces->vertices   " << vag_grid.faces_to_vertices.pos.size()-1 << endl;
         writePosStruct(os, vag_grid.faces_to_vertices);
-        os << "Faces->Control volumes   " << floor(vag_grid.faces_to_volumes.size()/2) << endl;
+        os << "Faces->Control volumes   " << vag_grid.faces_to_volumes.size()/2 << endl;
         writeVector(os,vag_grid.faces_to_volumes,2);        
-        os << "Edges   " << floor(vag_grid.edges.size()/2) << endl;
+        os << "Edges   " << vag_grid.edges.size()/2 << endl;
         writeVector(os,vag_grid.edges,2);
         /*
         assert(vag_grid.material.size()%vag_grid.number_of_volumes==0);
-- 
2.43.0


From f12cb872e5ea2ced3ffe42810a39ffb6cf88219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 063/116] fix: refuse records with too few values

PVTW, PVCDO, ROCK, PLYVISC, PLYADS, PLYMAX, PVTO and PVTG records were
stored as they came, and values beyond their end were used.
---
 .../io/eclipse/EclipseGridParserHelpers.hpp    |  3 +++
 opm/core/io/eclipse/SpecialEclipseFields.hpp   | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index e44a89d..3824235 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -344,6 +344,9 @@ namespace
 	while (is.good()) {
 	    record.clear();
 	    readVectorData(is, record);
+	    if (record.size() < 4) {
+	        THROW("Too few values in " << field_name << " record, at least 4 expected.");
+	    }
 	    table.push_back(record);
 	    while (is.good()) {
 		is >> ignoreWhitespace;
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 1b200c5..570a5ea 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -590,6 +590,9 @@ struct PVTW : public SpecialBase
             if (pvtw.size() == 4) {
                 pvtw.push_back(0.0); // Not used by frontsim
             }
+            if (pvtw.size() < 5) {
+                THROW("Too few values in PVTW record, 5 expected.");
+            }
             pvtw_.push_back(pvtw);
 
             int action = next_action(is); // 0:continue  1:return  2:throw
@@ -637,6 +640,9 @@ struct ROCK : public SpecialBase
         while (is.good()) {
             std::vector<double> rock;
             readVectorData(is, rock);
+            if (rock.size() < 2) {
+                THROW("Too few values in ROCK record, 2 expected.");
+            }
             rock_compressibilities_.push_back(rock);
 
             int action = next_action(is); // 0:continue  1:return  2:throw
@@ -1800,6 +1806,9 @@ struct PVCDO : public SpecialBase
             if (pvcdo.size() == 4) {
                 pvcdo.push_back(0.0);
             }
+            if (pvcdo.size() < 5) {
+                THROW("Too few values in PVCDO record, 5 expected.");
+            }
             pvcdo_.push_back(pvcdo);
 
             int action = next_action(is); // 0:continue  1:return  2:throw
@@ -1932,6 +1941,9 @@ struct PLYVISC : public SpecialBase
         // Note. This function assumes that NTPVT = 1, and reads only one table.
         std::vector<double> plyvisc;
         readVectorData(is, plyvisc);
+        if (plyvisc.size() % 2 != 0) {
+            THROW("Odd number of values in PLYVISC table.");
+        }
         for (int i=0; i<(int)plyvisc.size(); i+=2) {
             concentration_.push_back(plyvisc[i]);
             factor_.push_back(plyvisc[i+1]);
@@ -2003,6 +2015,9 @@ struct PLYADS : public SpecialBase
         // Note. This function assumes that NTSFUN = 1, and reads only one table.
         std::vector<double> plyads;
         readVectorData(is, plyads);
+        if (plyads.size() % 2 != 0) {
+            THROW("Odd number of values in PLYADS table.");
+        }
         for (int i=0; i<(int)plyads.size(); i+=2) {
             local_concentration_.push_back(plyads[i]);
             adsorbed_concentration_.push_back(plyads[i+1]);
@@ -2038,6 +2053,9 @@ struct PLYMAX : public SpecialBase
         // Note. This function assumes that NTMISC = 1, and reads only one line.
         plymax_.resize(2);
         readVectorData(is, plymax_);
+        if (plymax_.size() < 2) {
+            THROW("Too few values in PLYMAX record, 2 expected.");
+        }
     }
 
     virtual void write(std::ostream& os) const
-- 
2.43.0


From 7a8fe2e30e8c50f4a2816c9bfacb2c4876b04247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 064/116] fix: refuse negative repeat counts

They made values be stored in front of the record.
---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 3824235..eaf1774 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -193,6 +193,9 @@ namespace
                 if (is.peek() == int('*')) {
                     is.ignore(); // ignore the '*'
                     int multiplier = (int)candidate;
+                    if (multiplier < 0) {
+                        THROW("Negative repeat count " << multiplier);
+                    }
                     if (ct.is(std::ctype_base::space, is.peek())) {
                         num_values += multiplier;  // Use default value(s)
                     } else {
-- 
2.43.0


From b824f3b50f3154c8dd45b4a6fd0ea0ef597663cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 065/116] fix: defaults may extend beyond the items that are
 read

When a repeat count like 9* defaulted more items than the parser looks
at, the slash of the record was taken for the end of the keyword, and
the following records were lost.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 46 +++++++++++++-------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 570a5ea..a37e29e 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -37,6 +37,8 @@
 #ifndef OPM_SPECIALECLIPSEFIELDS_HEADER
 #define OPM_SPECIALECLIPSEFIELDS_HEADER
 
+#include <algorithm>
+#include <cstdlib>
 #include <string>
 #include <fstream>
 #include <limits>
@@ -230,7 +232,7 @@ struct MULTFLT : public SpecialBase
             MultfltLine multflt_line;
             multflt_line.fault_name = fltname;
             std::vector<double> data(2,1.0);
-            if (readDefaultedVectorData(is, data, 2) == 2) {
+            if (readDefaultedVectorData(is, data, 2) >= 2) {
                 ignoreSlashLine(is);
             }
             multflt_line.transmis_multiplier = data[0];
@@ -363,7 +365,7 @@ struct DENSITY : public SpecialBase
     {
         while (is.good()) {
             std::vector<double> density(3,-1e100);
-            if (readDefaultedVectorData(is, density, 3) == 3) {
+            if (readDefaultedVectorData(is, density, 3) >= 3) {
                 ignoreSlashLine(is);
             }
             densities_.push_back(density);
@@ -1057,7 +1059,7 @@ struct GCONINJE : public SpecialBase
             gconinje_line.reinjection_fraction_target_ = double_data[2];
             gconinje_line.voidage_replacement_fraction_ = double_data[3];
             // HACK! Ignore any further items
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             gconinje.push_back(gconinje_line);
@@ -1162,7 +1164,7 @@ struct WCONINJE : public SpecialBase
             wconinje_line.VFP_table_number_ = (int)double_data[4];
             wconinje_line.concentration_ = double_data[5];
             // HACK! Ignore any further items
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             wconinje.push_back(wconinje_line);
@@ -1264,13 +1266,22 @@ struct GCONPROD : public SpecialBase
             gconprod_line.liquid_max_rate_ = double_data[3];
 
             std::string procedure;
-            if (num_read == num_to_read) {
-                procedure = readString(is);
-                if (procedure[0] == '/') {
-                    is.putback('/');
+            if (num_read >= num_to_read) {
+                // Defaults may extend to the procedure and the ignored items.
+                int num_defaulted_items = num_read - num_to_read;
+                if (num_defaulted_items == 0) {
+                    procedure = readString(is);
+                    if (procedure[0] == '/') {
+                        is.putback('/');
+                        procedure = "NONE";
+                    } else if (procedure.size() > 1 && procedure[procedure.size()-1] == '*') {
+                        num_defaulted_items = std::atoi(procedure.c_str());
+                        procedure = "NONE";
+                    }
+                } else {
                     procedure = "NONE";
                 }
-                int read_ignored = 0;
+                int read_ignored = std::max(0, num_defaulted_items - 1);
                 int to_read = 6;
                 bool end_of_record = false;
                 while (read_ignored < to_read && !end_of_record) {
@@ -1293,7 +1304,7 @@ struct GCONPROD : public SpecialBase
                 if (read_ignored == to_read) {
                     // Not defaulted, we can read
                     std::string reservoir_volume = readString(is);
-                    if (reservoir_volume[reservoir_volume.size()-1] == '*') {
+                    if (reservoir_volume.empty() || reservoir_volume[reservoir_volume.size()-1] == '*') {
                         // Defaulted, we're not doing anything
                     } else if(reservoir_volume[0] == '/') {
                         is.putback('/');
@@ -1311,7 +1322,7 @@ struct GCONPROD : public SpecialBase
             
             gconprod.push_back(gconprod_line);
             // HACK! Ignore any further items
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             
@@ -1400,7 +1411,10 @@ struct WGRUPCON : public SpecialBase
             wgrupcon_line.guide_rate_ = double_data[0];
             
             // The record may end before the phase.
-            if (num_read == num_to_read) {
+            if (num_read > num_to_read) {
+                // The phase is defaulted, too.
+                ignoreSlashLine(is);
+            } else if (num_read == num_to_read) {
                 std::string phase = readString(is);
                 if (phase[0] == '/') {
                     is >> ignoreLine;
@@ -1508,7 +1522,7 @@ struct WCONPROD : public SpecialBase
             wconprod_line.artif_lift_quantity_ = double_data[8];
             wconprod.push_back(wconprod_line);
 
-            if(num_to_read == num_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
 
@@ -1743,7 +1757,7 @@ struct EQUIL : public SpecialBase
         int num_to_read = 9;
         std::vector<double> data(num_to_read,0);
         int num_read = readDefaultedVectorData(is, data, num_to_read);
-        if (num_read == num_to_read) {
+        if (num_read >= num_to_read) {
             ignoreSlashLine(is);
         }
 
@@ -1981,7 +1995,7 @@ struct PLYROCK : public SpecialBase
         plyrock_[3] = 1;  // Default value
         int num_to_read = 5;
         int num_read = readDefaultedVectorData(is, plyrock_, num_to_read);
-        if (num_read == num_to_read) {
+        if (num_read >= num_to_read) {
             ignoreSlashLine(is);
         }
     }
@@ -2090,7 +2104,7 @@ struct TLMIXPAR : public SpecialBase
         if (tlmixpar_[1] < 0) { 
             tlmixpar_[1] = tlmixpar_[0];
         }
-        if (num_read == num_to_read) {
+        if (num_read >= num_to_read) {
             ignoreSlashLine(is);
         }
     }
-- 
2.43.0


From f79067843793d8dcf1d20aca7691768ddf16acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 066/116] fix: count all defaulted items of COMPDAT lines

After 2* for the saturation table and the transmissibility factor, the
well diameter was read as the transmissibility factor.
---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index a37e29e..bde9289 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -941,8 +941,9 @@ struct COMPDAT : public SpecialBase
             }
             CompdatLine compdat_line;
             compdat_line.well_ = wellname;
-            std::vector<int> int_data(1,-1);
-            std::vector<double> double_data(2, 0.0);
+            // Saturation table number, transmissibility factor and diameter
+            std::vector<double> double_data(3, 0.0);
+            double_data[0] = -1;
             // The record may end after any item.
             if (readDefaultedVectorData(is, compdat_line.grid_ind_, 4) >= 4) {
                 std::string flag = readString(is);
@@ -950,17 +951,15 @@ struct COMPDAT : public SpecialBase
                     is >> ignoreLine;
                 } else {
                     compdat_line.open_shut_flag_ = flag;
-                    if (readDefaultedVectorData(is, int_data, 1) >= 1) {
-                        // HACK! Ignore items 10-14.
-                        if (readDefaultedVectorData(is, double_data, 2) >= 2) {
-                            ignoreSlashLine(is);
-                        }
+                    // HACK! Ignore items 10-14.
+                    if (readDefaultedVectorData(is, double_data, 3) >= 3) {
+                        ignoreSlashLine(is);
                     }
                 }
             }
-            compdat_line.sat_table_number_ = int_data[0];
-            compdat_line.connect_trans_fac_ = double_data[0];
-            compdat_line.diameter_ = double_data[1];
+            compdat_line.sat_table_number_ = int(double_data[0]);
+            compdat_line.connect_trans_fac_ = double_data[1];
+            compdat_line.diameter_ = double_data[2];
 
             compdat.push_back(compdat_line);
          }
-- 
2.43.0


From 902404ba73eff6f0a524f895ed16203311ce1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 067/116] fix: read WPOLYMER records that continue on the next
 line

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index bde9289..36f9fbc 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -2167,7 +2167,7 @@ struct WPOLYMER : public SpecialBase
                     is >> ignoreLine;
                 } else {
                     wpolymer_line.salt_group_ = group;
-                    is >> ignoreLine;
+                    is >> ignoreSlashLine;
                 }
             }
             wpolymer_.push_back(wpolymer_line);
-- 
2.43.0


From 1079c52b085f81863019462f63fb43636a1e7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 068/116] fix: a table column with a single specified value is
 constant

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index eaf1774..8eb4d67 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -449,6 +449,11 @@ namespace
                     for (int i=0; i<int(indx.size()); ++i) {
                         table[k][indx[i]] = defaultOut;
                     }
+                } else if (xv.size() == 1) {
+                    // A single value is specified, the column is constant.
+                    for (int i=0; i<int(indx.size()); ++i) {
+                        table[k][indx[i]] = yv[0];
+                    }
                 } else if (defaultInterpolation) {
                     // Interpolate
                     for (int i=0; i<int(indx.size()); ++i) {
-- 
2.43.0


From fbabdff1598d954dad99769c0cc3aab21c5f185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 069/116] fix: refuse tables with incomplete lines

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 8eb4d67..0950879 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -396,6 +396,9 @@ namespace
 	while (is.good()) {
 	    record.clear();
 	    readVectorData(is, record);
+	    if (record.size() % ncol != 0) {
+	        THROW("Incomplete line in " << field_name << " table, " << ncol << " values expected.");
+	    }
 	    const int rec_size = record.size()/ncol;
 	    for (int k=0; k<ncol; ++k) {
 		table[k].resize(rec_size);
@@ -478,6 +481,9 @@ namespace
 	while (is.good()) {
 	    record.clear();
 	    readRelPermTable(is, record);
+	    if (record.size() % ncol != 0) {
+	        THROW("Incomplete line in " << field_name << " table, " << ncol << " values expected.");
+	    }
 	    const int rec_size = record.size()/ncol;
 	    for (int k=0; k<ncol; ++k) {
 		table[k].resize(rec_size);
-- 
2.43.0


From 2bfb3f426f2f26d915a7afea422d75658e6bdd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 070/116] fix: an XML declaration without an end

---
 opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
index 75df34e..a30c8fb 100644
--- a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
+++ b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
@@ -1601,6 +1601,10 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 		}
 
 		p = SkipWhiteSpace( p, _encoding );
+		if ( !p || !*p )
+		{
+			break;	// The document ends inside the declaration.
+		}
 		if ( StringEqual( p, "version", true, _encoding ) )
 		{
 			TiXmlAttribute attrib;
-- 
2.43.0


From e2279834fef3424f08c8dcb99b1751d825c17934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 071/116] fix: endless loop on XML documents with an incomplete
 character

---
 opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
index a30c8fb..2f6bcac 100644
--- a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
+++ b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
@@ -275,6 +275,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// Not a complete character.
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From 7b82fd7a058d157b786e8c1f7281505938c018be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 072/116] fix: XML documents that end inside a character were
 read beyond their end

---
 opm/core/utility/parameters/tinyxml/tinyxml.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/parameters/tinyxml/tinyxml.h b/opm/core/utility/parameters/tinyxml/tinyxml.h
index c13ba39..a59fe35 100644
--- a/opm/core/utility/parameters/tinyxml/tinyxml.h
+++ b/opm/core/utility/parameters/tinyxml/tinyxml.h
@@ -350,10 +350,12 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			int i = 0;
+			for( ; i<*length && p[i]; ++i ) {
 				_value[i] = p[i];
 			}
-			return p + (*length);
+			*length = i;	// The document may end inside the character.
+			return p + i;
 		}
 		else
 		{
-- 
2.43.0


From 35c72370ab54c8d23b679acfb205faf786f661b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 073/116] fix: endless loop on parameters without a name

---
 opm/core/utility/parameters/ParameterGroup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 8cf6435..65c3f7f 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -219,6 +219,10 @@ namespace Opm {
         {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    while (name_path.first == "") {
+		if (name_path.second == "") {
+		    std::cerr << "Error: Parameter without a name, value '" << value << "'.\n";
+		    throw std::exception();
+		}
 		name_path = split(name_path.second);
 	    }
 	    map_type::const_iterator it = map_.find(name_path.first);
-- 
2.43.0


From cae5874c6f8e604d93a17556106a8df2f6bc9f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 074/116] fix: XML parameters with a path for a name failed an
 assertion

---
 opm/core/utility/parameters/ParameterGroup.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 65c3f7f..b974350 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -187,7 +187,10 @@ namespace Opm {
         {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    map_type::const_iterator it = map_.find(name_path.first);
-	    assert(name_path.second == "");
+	    if (name_path.second != "") {
+		std::cerr << "Error: The name '" << name << "' of an element contains '" << ID_delimiter_path << "'.\n";
+		throw std::exception();
+	    }
 	    if (it == map_.end()) {
 		map_[name] = data;
 	    } else {
-- 
2.43.0


From 3ce6bf944eb7807aabd8f89747ef98e18c1c9bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 075/116] fix: tables of compressible source terms were freed
 twice and lost when growing them ran out of memory

---
 opm/core/pressure/tpfa/compr_source.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_source.c b/opm/core/pressure/tpfa/compr_source.c
index eef23bb..033b7d4 100644
--- a/opm/core/pressure/tpfa/compr_source.c
+++ b/opm/core/pressure/tpfa/compr_source.c
@@ -50,14 +50,16 @@ expand_source_tables(int alloc, struct compr_src *src)
     v = realloc(src->flux      , alloc * 1            * sizeof *v);
     s = realloc(src->saturation, alloc * src->nphases * sizeof *s);
 
-    if ((c == NULL) || (v == NULL) || (s == NULL)) {
-
-        free(s);  free(v);   free(c);
+    /* A table which could be moved replaces the old one also when others
+     * could not.  The present terms are unaffected by failure. */
+    if (c != NULL) { src->cell       = c; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
 
+    if ((c == NULL) || (v == NULL) || (s == NULL)) {
         alloc = 0;
     } else {
-        src->cell = c;  src->cpty       = alloc;
-        src->flux = v;  src->saturation = s;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 9cdc8ac33c3b13cbfb505b8f71a346f505cbaaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 076/116] fix: tables of compressible boundary conditions were
 freed twice and lost when growing them ran out of memory

---
 opm/core/pressure/tpfa/compr_bc.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 32c5bc1..d92ed7d 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -53,16 +53,17 @@ expand_source_tables(int alloc, struct compr_bc *bc)
     v = realloc(bc->flux      , alloc * 1           * sizeof *v);
     s = realloc(bc->saturation, alloc * bc->nphases * sizeof *s);
 
+    /* A table which could be moved replaces the old one also when others
+     * could not.  The present conditions are unaffected by failure. */
+    if (t != NULL) { bc->type       = t; }
+    if (f != NULL) { bc->face       = f; }
+    if (p != NULL) { bc->press      = p; }
+    if (v != NULL) { bc->flux       = v; }
+    if (s != NULL) { bc->saturation = s; }
+
     if ((t == NULL) || (f == NULL) ||
         (p == NULL) || (v == NULL) || (s == NULL)) {
-
-        free(s);  free(v);  free(p);  free(f);  free(t);
-
         alloc = 0;
-    } else {
-        bc->type       = t;  bc->face = f;
-        bc->press      = p;  bc->flux = v;
-        bc->saturation = s;
     }
 
     return alloc;
-- 
2.43.0


From 3f41ffa9cf7e2b0c780b75ff64f26d7ab6c9958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 077/116] fix: compressible boundary conditions were written
 past the end of their tables

---
 opm/core/pressure/tpfa/compr_bc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index d92ed7d..fb97b78 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -64,6 +64,8 @@ expand_source_tables(int alloc, struct compr_bc *bc)
     if ((t == NULL) || (f == NULL) ||
         (p == NULL) || (v == NULL) || (s == NULL)) {
         alloc = 0;
+    } else {
+        bc->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From e60a2b7e1ca0408067cdb0bd65ac9064719e3eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 078/116] fix: tables of transport sources were freed twice and
 lost when growing them ran out of memory

---
 opm/core/transport/implicit/transport_source.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/opm/core/transport/implicit/transport_source.c b/opm/core/transport/implicit/transport_source.c
index 8daf198..7838e8a 100644
--- a/opm/core/transport/implicit/transport_source.c
+++ b/opm/core/transport/implicit/transport_source.c
@@ -54,17 +54,20 @@ expand_source_tables(int alloc, struct TransportSource *src)
     s = realloc(src->saturation, alloc * src->nphase * sizeof *s);
     z = realloc(src->surfvolume, alloc * src->nphase * sizeof *z);
 
+    /* A table which could be moved replaces the old one also when others
+     * could not.  The present sources are unaffected by failure. */
+    if (c != NULL) { src->cell       = c; }
+    if (p != NULL) { src->pressure   = p; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
+    if (z != NULL) { src->surfvolume = z; }
+
     if ((c == NULL) ||
         (p == NULL) || (v == NULL) ||
         (s == NULL) || (z == NULL)) {
-
-        free(z);  free(s);  free(v);  free(p);   free(c);
-
         alloc = 0;
     } else {
-        src->cell       = c;  src->cpty       = alloc;
-        src->pressure   = p;  src->flux       = v;
-        src->saturation = s;  src->surfvolume = z;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From e85c0b9fa715802f9a52d7597c2ed4cc70e469d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 079/116] fix: a failing construction of a symmetric hybrid
 system freed an uninitialised pointer

---
 opm/core/pressure/mimetic/hybsys.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys.c b/opm/core/pressure/mimetic/hybsys.c
index 694c561..36aad45 100644
--- a/opm/core/pressure/mimetic/hybsys.c
+++ b/opm/core/pressure/mimetic/hybsys.c
@@ -49,14 +49,13 @@ hybsys_allocate_symm(int max_nconn, int nc, int nconn_tot)
         new->L   = malloc(nc                    * sizeof *new->L  );
         new->q   = malloc(nc                    * sizeof *new->q  );
         new->F1  = malloc(nconn_tot             * sizeof *new->F1 );
+        new->F2  = new->F1;
 
         if ((new->one == NULL) || (new->r == NULL) || (new->S  == NULL) ||
             (new->L   == NULL) || (new->q == NULL) || (new->F1 == NULL)) {
             hybsys_free(new);
 
             new = NULL;
-        } else {
-            new->F2 = new->F1;
         }
     }
 
-- 
2.43.0


From 9bcc101a0b46c51507134cfa42d670b7727eaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 080/116] fix: a hybrid system was built without its wells when
 memory ran out

---
 opm/core/pressure/mimetic/hybsys_global.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys_global.c b/opm/core/pressure/mimetic/hybsys_global.c
index 33a352e..f3c03e8 100644
--- a/opm/core/pressure/mimetic/hybsys_global.c
+++ b/opm/core/pressure/mimetic/hybsys_global.c
@@ -284,20 +284,19 @@ hybsys_define_globconn(struct UnstructuredGrid *G, well_t *W)
     ok = 1;
     nw = 0;
     wia = NULL;
-    if (W != NULL) {
-        ok = allocate_cell_wells(G->number_of_cells, W, &cwell_pos, &cwells);
-        if (ok) {
+    if ((W != NULL) && (W->number_of_wells > 0)) {
+        allocate_cell_wells(G->number_of_cells, W, &cwell_pos, &cwells);
+        if (cwell_pos != NULL) {
             derive_cell_wells(G->number_of_cells, W, cwell_pos, cwells);
-        }
-        nw = ok ? W->number_of_wells : 0;
 
-        if (nw > 0) {
             wia = allocate_well_dofset(G, W);
-            if (wia == NULL) { nw = 0; }
         }
+
+        ok = wia != NULL;       /* A system without the wells is no answer. */
+        nw = ok ? W->number_of_wells : 0;
     }
 
-    A = csrmatrix_new_count_nnz(G->number_of_faces + nw);
+    A = ok ? csrmatrix_new_count_nnz(G->number_of_faces + nw) : NULL;
 
     if (A != NULL) {
         count_conn_per_row_grid(G, A);
-- 
2.43.0


From 3fb7f03bab5f1b3349040cb6b6ad5a3a2199830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 081/116] fix: the compressible TPFA solver never released its
 face mapping

---
 opm/core/pressure/tpfa/cfs_tpfa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa.c b/opm/core/pressure/tpfa/cfs_tpfa.c
index 528e1e9..6002d96 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa.c
@@ -132,6 +132,7 @@ impl_deallocate(struct cfs_tpfa_impl *pimpl)
 {
     if (pimpl != NULL) {
         free              (pimpl->ddata);
+        free              (pimpl->f2hf );
         deallocate_densrat(pimpl->ratio);
     }
 
-- 
2.43.0


From a7c65cdef9787e02d365982898dd41a87817d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 082/116] fix: corner-point processing ended the program or
 wrote through null pointers when memory ran out

---
 opm/core/grid/cornerpoint_grid.c           |   6 +-
 opm/core/grid/cpgpreprocess/preprocess.c   | 119 ++++++++++++++-------
 opm/core/grid/cpgpreprocess/preprocess.h   |  10 +-
 opm/core/grid/cpgpreprocess/uniquepoints.c |  11 ++
 4 files changed, 103 insertions(+), 43 deletions(-)

diff --git a/opm/core/grid/cornerpoint_grid.c b/opm/core/grid/cornerpoint_grid.c
index 8ae8d88..b5a8950 100644
--- a/opm/core/grid/cornerpoint_grid.c
+++ b/opm/core/grid/cornerpoint_grid.c
@@ -173,7 +173,11 @@ create_grid_cornerpoint(const struct grdecl *in, double tol)
        return NULL;
    }
 
-   process_grdecl(in, tol, &pg);
+   if (! process_grdecl(in, tol, &pg))
+   {
+       destroy_grid(g);
+       return NULL;
+   }
 
    /*
     *  Convert "struct processed_grid" to "struct UnstructuredGrid".
diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 3b465c2..8315d8b 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -54,13 +54,13 @@ compute_cell_index(const int dims[3], int i, int j, int *neighbors, int len);
 static int
 checkmemory(int nz, struct processed_grid *out, int **intersections);
 
-static void
+static int
 process_vertical_faces(int direction,
                        int **intersections,
                        int *plist, int *work,
                        struct processed_grid *out);
 
-static void
+static int
 process_horizontal_faces(int **intersections,
                          int *plist,
                          struct processed_grid *out);
@@ -200,7 +200,7 @@ checkmemory(int nz, struct processed_grid *out, int **intersections)
   direction == 0 : constant-i faces.
   direction == 1 : constant-j faces.
 */
-static void
+static int
 process_vertical_faces(int direction,
                        int **intersections,
                        int *plist, int *work,
@@ -233,7 +233,7 @@ process_vertical_faces(int direction,
                 fprintf(stderr,
                         "Could not allocate enough space in "
                         "process_vertical_faces()\n");
-                exit(1);
+                return 0;
             }
 
             /* Vectors of point numbers */
@@ -283,6 +283,8 @@ process_vertical_faces(int direction,
             }
         }
     }
+
+    return 1;
 }
 
 
@@ -297,7 +299,7 @@ process_vertical_faces(int direction,
   ACTNUM==0)
 
 */
-static void
+static int
 process_horizontal_faces(int **intersections,
                          int *plist,
                          struct processed_grid *out)
@@ -329,7 +331,7 @@ process_horizontal_faces(int **intersections,
                 fprintf(stderr,
                         "Could not allocate enough space in "
                         "process_horizontal_faces()\n");
-                exit(1);
+                return 0;
             }
 
 
@@ -396,6 +398,8 @@ process_horizontal_faces(int **intersections,
         }
     }
     out->number_of_cells = cellno;
+
+    return 1;
 }
 
 
@@ -466,7 +470,7 @@ static void approximate_intersection_pt(int *L, double *c, double *pt)
 /*-----------------------------------------------------------------
   Compute x,y and z coordinates for points on each pillar.  Then,
   append x,y and z coordinates for extra points on faults.  */
-static void
+static int
 compute_intersection_coordinates(int                   *intersections,
                                  struct processed_grid *out)
 {
@@ -477,12 +481,13 @@ compute_intersection_coordinates(int                   *intersections,
     int    *itsct = intersections;
     /* Make sure the space allocated for nodes match the number of
      * node. */
-    void *p = realloc (out->node_coordinates, 3*n*sizeof(double));
+    void *p = realloc (out->node_coordinates, 3*MAX(n, 1)*sizeof(double));
     if (p) {
         out->node_coordinates = p;
     }
     else {
         fprintf(stderr, "Could not allocate extra space for intersections\n");
+        return 0;
     }
 
 
@@ -495,6 +500,8 @@ compute_intersection_coordinates(int                   *intersections,
         itsct += 4;
 
     }
+
+    return 1;
 }
 
 
@@ -758,15 +765,15 @@ reverse_face_nodes(struct processed_grid *out)
 /*-----------------------------------------------------------------
   Public interface
 */
-void process_grdecl(const struct grdecl   *in,
-                    double                tolerance,
-                    struct processed_grid *out)
+int process_grdecl(const struct grdecl   *in,
+                   double                tolerance,
+                   struct processed_grid *out)
 {
     struct grdecl g;
 
     size_t i;
     int    sign, error, left_handed;
-    int    cellnum;
+    int    cellnum, ok;
 
     int    *actnum, *iptr;
     int    *global_cell_index;
@@ -800,18 +807,45 @@ void process_grdecl(const struct grdecl   *in,
     out->face_nodes       = malloc( out->n      * sizeof *out->face_nodes);
     out->face_ptr         = malloc((out->m + 1) * sizeof *out->face_ptr);
     out->face_tag         = malloc( out->m      * sizeof *out->face_tag);
-    out->face_ptr[0]      = 0;
 
     out->dimensions[0]    = in->dims[0];
     out->dimensions[1]    = in->dims[1];
     out->dimensions[2]    = in->dims[2];
     out->number_of_faces  = 0;
     out->number_of_nodes  = 0;
+    out->number_of_nodes_on_pillars = 0;
     out->number_of_cells  = 0;
 
     out->node_coordinates = NULL;
     out->local_cell_index = malloc(nc * sizeof *out->local_cell_index);
 
+    /* internal work arrays */
+    actnum        = malloc(nc *     sizeof *actnum);
+    zcorn         = malloc(nc * 8 * sizeof *zcorn);
+
+    /* allocate space for cornerpoint numbers plus INT_MIN (INT_MAX)
+     * padding */
+    plist         = malloc(8 * (nc + ((size_t)nx)*((size_t)ny)) * sizeof *plist);
+
+    work          = malloc(2 * ((size_t) (2*nz + 2)) * sizeof *work);
+
+    /* internal array to store intersections */
+    intersections = malloc(BIGNUM* sizeof(*intersections));
+
+    global_cell_index = malloc(nc * sizeof *global_cell_index);
+
+    ok = (out->face_neighbors   != NULL) && (out->face_nodes != NULL) &&
+         (out->face_ptr         != NULL) && (out->face_tag   != NULL) &&
+         (out->local_cell_index != NULL) && (actnum          != NULL) &&
+         (zcorn                 != NULL) && (plist           != NULL) &&
+         (work                  != NULL) && (intersections   != NULL) &&
+         (global_cell_index     != NULL);
+
+    if (! ok) {
+        goto failure;
+    }
+
+    out->face_ptr[0] = 0;
 
 
     /* Do actual work here:*/
@@ -829,24 +863,17 @@ void process_grdecl(const struct grdecl   *in,
     g.dims[1] = in->dims[1];
     g.dims[2] = in->dims[2];
 
-    actnum    = malloc (nc *     sizeof *actnum);
     g.actnum  = copy_and_permute_actnum(nx, ny, nz, in->actnum, actnum);
 
-    zcorn     = malloc (nc * 8 * sizeof *zcorn);
     sign      = get_zcorn_sign(nx, ny, nz, in->actnum, in->zcorn, &error);
     g.zcorn   = copy_and_permute_zcorn(nx, ny, nz, in->zcorn, sign, zcorn);
 
     g.coord   = in->coord;
 
 
-    /* allocate space for cornerpoint numbers plus INT_MIN (INT_MAX)
-     * padding */
-    plist = malloc(8 * (nc + ((size_t)nx)*((size_t)ny)) * sizeof *plist);
-
-    finduniquepoints(&g, plist, tolerance, out);
-
-    free (zcorn);
-    free (actnum);
+    if (! finduniquepoints(&g, plist, tolerance, out)) {
+        goto failure;
+    }
 
     /* Determine if coordinate system is left handed or not. */
     left_handed = is_lefthanded(in);
@@ -861,28 +888,22 @@ void process_grdecl(const struct grdecl   *in,
     /* -----------------------------------------------------------------*/
     /* Find face topology and face-to-cell connections */
 
-    /* internal */
-    work = malloc(2 * ((size_t) (2*nz + 2)) * sizeof *work);
     for(i = 0; i < ((size_t)4) * (nz + 1); ++i) { work[i] = -1; }
 
-    /* internal array to store intersections */
-    intersections = malloc(BIGNUM* sizeof(*intersections));
-
-
-
-    process_vertical_faces   (0, &intersections, plist, work, out);
-    process_vertical_faces   (1, &intersections, plist, work, out);
-    process_horizontal_faces (   &intersections, plist,       out);
+    ok =       process_vertical_faces   (0, &intersections, plist, work, out);
+    ok = ok && process_vertical_faces   (1, &intersections, plist, work, out);
+    ok = ok && process_horizontal_faces (   &intersections, plist,       out);
 
-    free (plist);
-    free (work);
+    if (! ok) {
+        goto failure;
+    }
 
     /* -----------------------------------------------------------------*/
     /* (re)allocate space for and compute coordinates of nodes that
      * arise from intersecting cells (faults) */
-    compute_intersection_coordinates(intersections, out);
-
-    free (intersections);
+    if (! compute_intersection_coordinates(intersections, out)) {
+        goto failure;
+    }
 
     /* -----------------------------------------------------------------*/
     /* Enumerate compressed cells:
@@ -890,7 +911,6 @@ void process_grdecl(const struct grdecl   *in,
        -make [0...nx*ny*nz-1] array of local cell numbers,
        lexicographically ordered, used to remap out->face_neighbors
     */
-    global_cell_index = malloc(nc * sizeof *global_cell_index);
     cellnum = 0;
     for (i = 0; i < nc; ++i) {
         if (out->local_cell_index[i] != -1) {
@@ -936,6 +956,27 @@ void process_grdecl(const struct grdecl   *in,
     if (left_handed ^ (sign == -1)) {
         reverse_face_nodes(out);
     }
+
+    free (intersections);
+    free (work);
+    free (plist);
+    free (zcorn);
+    free (actnum);
+
+    return 1;
+
+failure:
+    free (global_cell_index);
+    free (intersections);
+    free (work);
+    free (plist);
+    free (zcorn);
+    free (actnum);
+
+    free_processed_grid(out);
+    memset(out, 0, sizeof *out);
+
+    return 0;
 }
 
 /*-------------------------------------------------------*/
diff --git a/opm/core/grid/cpgpreprocess/preprocess.h b/opm/core/grid/cpgpreprocess/preprocess.h
index 499cf35..d652032 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.h
+++ b/opm/core/grid/cpgpreprocess/preprocess.h
@@ -125,10 +125,14 @@ extern "C" {
      *                    neighbourship definition, vertex geometry, face's
      *                    constituent vertices, and local-to-global cell
      *                    mapping.
+     *
+     * @return One (1, true) if successful and zero (0, false) if memory could
+     *         not be allocated or the specification is inconsistent. No
+     *         resources are held by \p out in the latter case.
      */
-    void process_grdecl(const struct grdecl   *g  ,
-                        double                 tol,
-                        struct processed_grid *out);
+    int process_grdecl(const struct grdecl   *g  ,
+                       double                 tol,
+                       struct processed_grid *out);
 
     /**
      * Release memory resources acquired in previous grid processing using
diff --git a/opm/core/grid/cpgpreprocess/uniquepoints.c b/opm/core/grid/cpgpreprocess/uniquepoints.c
index 1709077..e94fe62 100644
--- a/opm/core/grid/cpgpreprocess/uniquepoints.c
+++ b/opm/core/grid/cpgpreprocess/uniquepoints.c
@@ -312,6 +312,13 @@ int finduniquepoints(const struct grdecl *g,
 
     out->node_coordinates = malloc (3*8*nc*sizeof(*out->node_coordinates));
 
+    if ((zlist == NULL) || (zptr == NULL) || (out->node_coordinates == NULL)) {
+        free(zptr);
+        free(zlist);
+
+        return 0;
+    }
+
     zptr[pos++] = zout - zlist;
 
     pt    = out->node_coordinates;
@@ -365,6 +372,10 @@ int finduniquepoints(const struct grdecl *g,
                                     g->zcorn  + zix, g->actnum + cix,
                                     p, tolerance)){
                 fprintf(stderr, "Something went wrong in assignPointNumbers");
+
+                free(zptr);
+                free(zlist);
+
                 return 0;
             }
 
-- 
2.43.0


From 41b7d45b02bab4356fa665effd5db103a1f1b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 083/116] fix: a coarse topology was built from a failed
 derivation of block faces

---
 opm/core/pressure/msmfem/coarse_conn.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index 065bece..47cdf50 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -590,7 +590,11 @@ coarse_topology_create(int nc, int nf, int expct_nconn,
         ncoarse_f = derive_block_faces(nf, nblocks, expct_nconn,
                                        p, neighbours, bns);
 
-        topo = coarse_topology_build(ncoarse_f, nblocks, bns);
+        if (ncoarse_f >= 0) {
+            topo = coarse_topology_build(ncoarse_f, nblocks, bns);
+        } else {
+            topo = NULL;
+        }
 
         for (b = 0; b < nblocks; b++) {
             block_neighbours_deallocate(bns[b]);
-- 
2.43.0


From 34977d2fa62edcec74d013b718e1f0adeee53447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 084/116] fix: a block neighbour was lost when inserting
 another one ran out of memory

---
 opm/core/pressure/msmfem/coarse_conn.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index 47cdf50..21a3e77 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -219,6 +219,7 @@ block_neighbours_insert_neighbour(int b, int fconn, int expct_nconn,
 /* ---------------------------------------------------------------------- */
 {
     int i, j, p, t, nmove, ret;
+    struct block_neighbour *bn;
 
     assert (bns != NULL);
 
@@ -254,19 +255,20 @@ block_neighbours_insert_neighbour(int b, int fconn, int expct_nconn,
             }
 
             if (ret >= 0) {
-                if (i < bns->nneigh) {
-                    nmove = bns->nneigh - i;
+                bn = block_neighbour_allocate(expct_nconn);
 
-                    memmove(bns->neigh + i + 1, bns->neigh + i + 0,
-                            nmove * sizeof *bns->neigh);
-                }
+                if (bn != NULL) {
+                    if (i < bns->nneigh) {
+                        nmove = bns->nneigh - i;
 
-                bns->neigh[i] = block_neighbour_allocate(expct_nconn);
+                        memmove(bns->neigh + i + 1, bns->neigh + i + 0,
+                                nmove * sizeof *bns->neigh);
+                    }
 
-                if (bns->neigh[i] != NULL) {
-                    ret = block_neighbour_insert_fconn(fconn, bns->neigh[i]);
+                    ret = block_neighbour_insert_fconn(fconn, bn);
 
-                    bns->neigh[i]->b = b;
+                    bn->b = b;
+                    bns->neigh[i] = bn;
                     bns->nneigh += 1;
                 } else {
                     ret = -1;
-- 
2.43.0


From 6038fd1a0c20b6dc11f382acaa95eab0d64e79a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 085/116] fix: a coarse topology was returned without its
 sub-faces when memory ran out

---
 opm/core/pressure/msmfem/coarse_conn.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index 21a3e77..ef8f599 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -507,6 +507,8 @@ coarse_topology_build(int ncoarse_f, int nblk,
         new->subfacepos = NULL;
         new->subfaces   = NULL;
 
+        subface_valid   = 1;
+
         if ((new->neighbours == NULL) ||
             (new->blkfacepos == NULL)) {
             coarse_topology_destroy(new);
@@ -529,6 +531,8 @@ coarse_topology_build(int ncoarse_f, int nblk,
                 if ((new->subfacepos == NULL) || (new->subfaces == NULL)) {
                     free(new->subfaces);   new->subfaces   = NULL;
                     free(new->subfacepos); new->subfacepos = NULL;
+
+                    subface_valid = 0; /* Present, but no room for them. */
                 } else {
                     for (i = 0; i < ncoarse_f + 1; i++) {
                         new->subfacepos[i] = 0;
@@ -538,7 +542,7 @@ coarse_topology_build(int ncoarse_f, int nblk,
 
             new->blkfaces = malloc(nblkf * sizeof *new->blkfaces);
 
-            if (new->blkfaces == NULL) {
+            if ((new->blkfaces == NULL) || (! subface_valid)) {
                 coarse_topology_destroy(new);
                 new = NULL;
             } else {
-- 
2.43.0


From 018d44123abbf8136b4334be9cbc507cac6bbcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 086/116] fix: uninitialised inner products were used when
 memory for transmissibilities ran out

---
 opm/core/pressure/msmfem/coarse_sys.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index ec746e1..531ee45 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -543,6 +543,11 @@ compute_fs_ip(struct UnstructuredGrid *g, const double *perm,
         }
     }
 
+    else {
+        free(Binv);             /* Not filled. */
+        Binv = NULL;
+    }
+
     free(htrans);
 
     return Binv;
-- 
2.43.0


From 840798936e9a5fe96b76316394fb41ed0815e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 087/116] fix: a failing allocation of a coarse system freed
 uninitialised pointers

---
 opm/core/pressure/msmfem/coarse_sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 531ee45..8ef0cb8 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -827,7 +827,7 @@ coarse_sys_allocate(struct coarse_topology *ct,
 
     struct coarse_sys *new;
 
-    new = malloc(1 * sizeof *new);
+    new = calloc(1, sizeof *new);
 
     if (new != NULL) {
         nb = ct->nblocks;
-- 
2.43.0


From 33cd6a6b0e36b82e68f6916f7a13c8b3cae40ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 088/116] fix: an unfilled coarse system was returned when
 memory ran out

---
 opm/core/pressure/msmfem/coarse_sys.c | 40 +++++++++++++++++----------
 opm/core/pressure/msmfem/coarse_sys.h |  2 +-
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 8ef0cb8..86659a3 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1437,7 +1437,7 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
                      LocalSolver             linsolve)
 /* ---------------------------------------------------------------------- */
 {
-    int                     cf;
+    int                     cf, ok;
     size_t                  nlocf;
     double                 *Binv, *w;
     struct coarse_sys_meta *m;
@@ -1455,8 +1455,9 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
         sys    = coarse_sys_allocate(ct, m);
     }
 
-    if ((Binv != NULL) && (w != NULL) &&
-        (bf_asm != NULL) && (sys != NULL)) {
+    ok = (Binv != NULL) && (w != NULL) && (bf_asm != NULL) && (sys != NULL);
+
+    if (ok) {
 
         /* Provide reverse BF->face mapping for fs flux reconstruction */
         map_dof_to_conn(ct, m, sys);
@@ -1490,13 +1491,18 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
             }
         }
 
-        coarse_sys_compute_cell_ip(g->number_of_cells,
-                                   m->max_ngconn,
-                                   ct->nblocks,
-                                   g->cell_facepos,
-                                   Binv,
-                                   m->pb2c, m->b2c,
-                                   sys);
+        ok = coarse_sys_compute_cell_ip(g->number_of_cells,
+                                        m->max_ngconn,
+                                        ct->nblocks,
+                                        g->cell_facepos,
+                                        Binv,
+                                        m->pb2c, m->b2c,
+                                        sys);
+    }
+
+    if (! ok) {
+        coarse_sys_destroy(sys);
+        sys = NULL;
     }
 
     bf_asm_data_deallocate(bf_asm);
@@ -1540,9 +1546,11 @@ coarse_sys_destroy(struct coarse_sys *sys)
  * sys->cell_ip, a packed representation of the IP pairs (one col per
  * cell per block).
  *
- * Allocates work arrays and may fail.  Does currently not report failure.*/
+ * Allocates work arrays and may fail.
+ *
+ * Returns one (1) if successful and zero (0) otherwise. */
 /* ---------------------------------------------------------------------- */
-void
+int
 coarse_sys_compute_cell_ip(int                nc,
                            int                max_nconn,
                            int                nb,
@@ -1553,7 +1561,7 @@ coarse_sys_compute_cell_ip(int                nc,
                            struct coarse_sys *sys)
 /* ---------------------------------------------------------------------- */
 {
-    int i, i1, i2, b, c, n, bf, *pconn2;
+    int i, i1, i2, b, c, n, bf, ok, *pconn2;
     int max_nbf, nbf, loc_nc;
 
     size_t p, nbf_pairs, bf_off, bf_sz;
@@ -1576,7 +1584,9 @@ coarse_sys_compute_cell_ip(int                nc,
                       (max_nbf   * max_nbf  ))  /* IP */
                      * sizeof *work);
 
-    if ((pconn2 != NULL) && (work != NULL)) {
+    ok = (pconn2 != NULL) && (work != NULL);
+
+    if (ok) {
         BI  = work + 0                      ;
         Psi = BI   + (max_nconn * max_nconn);
         IP  = Psi  + (max_nconn * max_nbf  );
@@ -1695,6 +1705,8 @@ coarse_sys_compute_cell_ip(int                nc,
     }
 
     free(work);  free(pconn2);
+
+    return ok;
 }
 
 
diff --git a/opm/core/pressure/msmfem/coarse_sys.h b/opm/core/pressure/msmfem/coarse_sys.h
index 146a7df..58ce866 100644
--- a/opm/core/pressure/msmfem/coarse_sys.h
+++ b/opm/core/pressure/msmfem/coarse_sys.h
@@ -61,7 +61,7 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
 void
 coarse_sys_destroy(struct coarse_sys *sys);
 
-void
+int
 coarse_sys_compute_cell_ip(int                nc,
                            int                max_nconn,
                            int                nb,
-- 
2.43.0


From fda4baad7524fc91b12a9d7cca541c460c531af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 089/116] fix: the wells were leaked when reading them from a
 deck failed

---
 opm/core/wells/WellsManager.cpp | 17 +++++++++++++++++
 opm/core/wells/WellsManager.hpp |  4 ++++
 2 files changed, 21 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 59b89cf..a59a4bc 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -238,6 +238,23 @@ namespace Opm
                                const UnstructuredGrid& grid,
                                const double* permeability)
         : w_(0)
+    {
+        try {
+            init(deck, grid, permeability);
+        }
+        catch (...) {
+            // No destructor runs for an object which was never completed.
+            destroy_wells(w_);
+            throw;
+        }
+    }
+
+
+
+    /// Construct wells from deck.
+    void WellsManager::init(const Opm::EclipseGridParser& deck,
+                            const UnstructuredGrid& grid,
+                            const double* permeability)
     {
         if (grid.dimensions != 3) {
             THROW("We cannot initialize wells from a deck unless the corresponding grid is 3-dimensional.");
diff --git a/opm/core/wells/WellsManager.hpp b/opm/core/wells/WellsManager.hpp
index 19289c5..8a99858 100644
--- a/opm/core/wells/WellsManager.hpp
+++ b/opm/core/wells/WellsManager.hpp
@@ -113,6 +113,10 @@ namespace Opm
 	WellsManager(const WellsManager& other);
 	WellsManager& operator=(const WellsManager& other);
 
+	void init(const Opm::EclipseGridParser& deck,
+		  const UnstructuredGrid& grid,
+		  const double* permeability);
+
 	// Data
 	Wells* w_;
         WellCollection well_collection_;
-- 
2.43.0


From 7497d877ccde98f902f82273c74eb67a47c82e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 090/116] fix: a wells manager became empty when memory to copy
 its wells ran out

---
 opm/core/wells/WellsManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index a59a4bc..3494e5b 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -229,6 +229,9 @@ namespace Opm
     WellsManager::WellsManager(struct Wells* W)
         : w_(clone_wells(W))
     {
+        if (W != 0 && w_ == 0) {
+            THROW("Failed to copy the Wells struct.");
+        }
     }
 
 
-- 
2.43.0


From ae00c09cdd0961556a0935b08a9c67883d690bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 091/116] fix: the hybrid system had undefined entries when two
 wells shared a cell

---
 opm/core/pressure/mimetic/hybsys_global.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys_global.c b/opm/core/pressure/mimetic/hybsys_global.c
index f3c03e8..0682fa9 100644
--- a/opm/core/pressure/mimetic/hybsys_global.c
+++ b/opm/core/pressure/mimetic/hybsys_global.c
@@ -171,8 +171,10 @@ count_conn_per_row_well(struct UnstructuredGrid *G, well_t *W,
 
             for (m = 0; m < wia[w]->m; m++) {
                 if ((dof = wia[w]->s[m]) >= 0) {
-                    A->ia[ dof + 1 ] += 1; /* face to well */
-                    nwdof            += 1; /* well to face */
+                    if (dof < nf) {
+                        A->ia[ dof + 1 ] += 1; /* face to well */
+                    }
+                    nwdof            += 1; /* well to face and well */
                 }
             }
 
-- 
2.43.0


From c00a491dee956cff43716c1c35089c0676c4b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 092/116] fix: splitting disconnected blocks lost the
 connections of the first cell

---
 opm/core/pressure/msmfem/partition.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/msmfem/partition.c b/opm/core/pressure/msmfem/partition.c
index db55831..b1d6809 100644
--- a/opm/core/pressure/msmfem/partition.c
+++ b/opm/core/pressure/msmfem/partition.c
@@ -362,6 +362,8 @@ partition_create_c2c(int nc, int nneigh, const int *neigh,
                 }
             }
 
+            (*pc2c)[0] = 0;
+
             ret = nc;
         } else {
             free(*pc2c);
-- 
2.43.0


From 638237631843e806bceda71c7d07afa03169edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 093/116] fix: wells sharing a cell wrote past the end of the
 hybrid system

---
 opm/core/pressure/ifsh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index a174bda..0d040f3 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -169,8 +169,8 @@ ifsh_impose_well_control(int              c,
             /* Well->well */
             for (w2 = (w1 + 1) % nwconn; w2 != w1; w2 = (w2 + 1) % nwconn) {
                 r  [ngconn + w2]    -= w2w[w2 + w1*nwconn] * bhp;
-                w2w[w2 + w1*ngconn]  = 0.0;
-                w2w[w1 + w2*ngconn]  = 0.0;
+                w2w[w2 + w1*nwconn]  = 0.0;
+                w2w[w1 + w2*nwconn]  = 0.0;
             }
 
             /* Assemble final well equation of the form S*p_bh = S*p_bh^0 */
-- 
2.43.0


From 3977538366b1f1631ce31fa883d57f1b91af4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 094/116] fix: hybrid system: walk the inner products of the
 cells by their size in the well back-substitution

The start of a cell's inverse inner product was advanced by 2n instead of n*n,
so the fluxes of any perforated cell but the first were corrected by another
cell's inner product.
---
 opm/core/pressure/mimetic/hybsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/mimetic/hybsys.c b/opm/core/pressure/mimetic/hybsys.c
index 36aad45..746dd73 100644
--- a/opm/core/pressure/mimetic/hybsys.c
+++ b/opm/core/pressure/mimetic/hybsys.c
@@ -685,7 +685,7 @@ hybsys_compute_press_flux_well(int nc, const int *pgconn, int nf,
             }
         }
 
-        gp2 += ngconn + ngconn;
+        gp2 += ngconn * ngconn;
     }
 
     /* Assign well BHP from linsolve output */
-- 
2.43.0


From 1d680d4eaa3391c816c364d55f8ea76408ba6fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 095/116] fix: ifsh: eliminate well couplings for prescribed
 pressures only

A prescribed flux was taken for a pressure when the well contributions of its
cell were assembled.
---
 opm/core/pressure/ifsh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index 0d040f3..9d767c8 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -133,7 +133,7 @@ ifsh_impose_well_control(int              c,
         f = gconn[i];
         j = ifsh->pimpl->bdry_condition[ f ];
 
-        if (j != -1) {
+        if ((j != -1) && (bc->type[j] == BC_PRESSURE)) {
             for (w1 = 0; w1 < nwconn; w1++) {
                 /* Eliminate prescribed (boundary) pressure value */
                 r  [ngconn + w1]   -= r2w[i + w1*ngconn] * bc->value[j];
-- 
2.43.0


From 981658521def7e85f4cb0b31873de97dd4d33646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 096/116] fix: cfsh: leave a system with accumulation terms as
 it is

The system is not singular when some cell is compressible, and doubling its
first diagonal element then changes the solution.
---
 opm/core/pressure/cfsh.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/cfsh.c b/opm/core/pressure/cfsh.c
index 8ca7e9f..98289c5 100644
--- a/opm/core/pressure/cfsh.c
+++ b/opm/core/pressure/cfsh.c
@@ -191,7 +191,9 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
               struct fsh_data *h)
 /* ---------------------------------------------------------------------- */
 {
+    int c;
     int npp;                /* Number of prescribed pressure values */
+    int singular;           /* Pressure determined up to a constant only */
 
     /* Suppress warnings about unused parameters. */
     (void) wctrl;  (void) WI;  (void) BivW;  (void) wdp;
@@ -204,7 +206,12 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
 
     npp = cfsh_assemble_grid(bc, Binv, gpress, src, h);
 
-    if (npp == 0) {
+    singular = npp == 0;
+    for (c = 0; singular && (c < h->pimpl->nc); c++) {
+        singular = ! (fabs(P[c]) > 0.0); /* Accumulation fixes pressure */
+    }
+
+    if (singular) {
         h->A->sa[0] *= 2;        /* Remove zero eigenvalue */
     }
 }
-- 
2.43.0


From 8dff6e2f73b1a039f42506ef75c0aebbaa440fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 097/116] fix: coarse systems: scale each cell's inner product
 by its own mobility

Every cell was given the mobility of the cell after it, and the last cell none.
---
 opm/core/pressure/msmfem/coarse_sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 86659a3..695ab35 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1209,7 +1209,7 @@ Binv_scale_mobility(int nc, struct coarse_sys_meta *m,
     int c, i;
 
     for (c = i = 0; c < nc; c++) {
-        for (; i < m->pconn2[c]; i++) {
+        for (; i < m->pconn2[c + 1]; i++) {
             Binv[i] *= totmob[c];
         }
     }
-- 
2.43.0


From 8f8705aeaeb8b89eb000a5344b72a8b75555b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 098/116] fix: coarse systems: count the mobility once in the
 inner products

coarse_sys_compute_Binv() weights each cell's inner product by the current
mobility, on top of the one in force when the basis functions were computed.
---
 opm/core/pressure/msmfem/coarse_sys.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 695ab35..25d9d7b 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1216,6 +1216,24 @@ Binv_scale_mobility(int nc, struct coarse_sys_meta *m,
 }
 
 
+/* ---------------------------------------------------------------------- */
+/* Undo the effect of Binv_scale_mobility() */
+/* ---------------------------------------------------------------------- */
+static void
+Binv_unscale_mobility(int nc, struct coarse_sys_meta *m,
+                      const double *totmob, double *Binv)
+/* ---------------------------------------------------------------------- */
+{
+    int c, i;
+
+    for (c = i = 0; c < nc; c++) {
+        for (; i < m->pconn2[c + 1]; i++) {
+            Binv[i] /= totmob[c];
+        }
+    }
+}
+
+
 /* ---------------------------------------------------------------------- */
 /* Project BF flux values for coarse face 'cf' onto continuous flux
  * field. */
@@ -1491,6 +1509,9 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
             }
         }
 
+        /* Mobility enters the inner products in coarse_sys_compute_Binv() */
+        Binv_unscale_mobility(g->number_of_cells, m, totmob, Binv);
+
         ok = coarse_sys_compute_cell_ip(g->number_of_cells,
                                         m->max_ngconn,
                                         ct->nblocks,
-- 
2.43.0


From 1033602e7c480fe85adb75dda528e98ce210d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:43 +0000
Subject: [PATCH 099/116] fix: hybrid systems: provide work space for all wells
 of a cell

The work array held as many values as the largest cell has faces.  A cell with
more wells than that had its wells' pressures written over the well indices.
---
 opm/core/pressure/fsh_common_impl.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opm/core/pressure/fsh_common_impl.c b/opm/core/pressure/fsh_common_impl.c
index 463d545..ecc8af0 100644
--- a/opm/core/pressure/fsh_common_impl.c
+++ b/opm/core/pressure/fsh_common_impl.c
@@ -246,7 +246,9 @@ fsh_define_impl_arrays(size_t           nc,
         pimpl->cwell_pos = pimpl->bdry_condition + nf;
         pimpl->cwells    = pimpl->cwell_pos + nc + 1;
 
-        pimpl->WI  = pimpl->work + max_ncf;
+        /* ->work also holds the pressures of all wells of a cell */
+        pimpl->WI  = pimpl->work + max_ncf +
+                     W->well_connpos[ W->number_of_wells ];
         pimpl->wdp = pimpl->WI + W->well_connpos[ W->number_of_wells ];
     }
 }
@@ -311,7 +313,7 @@ fsh_compute_table_sz(struct UnstructuredGrid *G, well_t *W, int max_ngconn,
         /* rhs + soln */
         *ddata_sz += 2 * W->number_of_wells;
 
-        /* WI, wdp */
-        *ddata_sz += 2 * W->well_connpos[ W->number_of_wells ];
+        /* WI, wdp, work */
+        *ddata_sz += 3 * W->well_connpos[ W->number_of_wells ];
     }
 }
-- 
2.43.0


From fcc836f2f8cf1be05261c681c9174320e88a60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:21 +0000
Subject: [PATCH 100/116] fix: implicit transport: cells sharing several faces
 gave duplicate matrix entries

---
 opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp b/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp
index 4e5b4fc..844dc4f 100644
--- a/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp
+++ b/opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp
@@ -161,6 +161,9 @@ namespace Opm {
                 }
 
                 ::std::sort(sconn_.begin(), sconn_.end());
+                // Cells may share more than one face.
+                sconn_.erase(::std::unique(sconn_.begin(), sconn_.end()),
+                             sconn_.end());
 
                 esconn_.resize(0);
                 esconn_.reserve(ndof * sconn_.size());
-- 
2.43.0


From 9d4de12832e12588cb37010bcd2abc04181e4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 101/116] fix: implicit transport: an unallocated source
 structure was used

---
 .../transport/implicit/TransportSolverTwophaseImplicit.cpp     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/transport/implicit/TransportSolverTwophaseImplicit.cpp b/opm/core/transport/implicit/TransportSolverTwophaseImplicit.cpp
index c43aeb2..ff4dda0 100644
--- a/opm/core/transport/implicit/TransportSolverTwophaseImplicit.cpp
+++ b/opm/core/transport/implicit/TransportSolverTwophaseImplicit.cpp
@@ -55,6 +55,9 @@ namespace Opm
         ctrl_.max_it_ls = param.getDefault("max_it_ls", 5);
         model_.initGravityTrans(grid_, half_trans);
         tsrc_ = create_transport_source(2, 2);
+        if (tsrc_ == 0) {
+            THROW("Failed creating TransportSource struct.");
+        }
         initial_porevolume_cell0_ = porevol[0];
     }
 
-- 
2.43.0


From 731e094e0ee862808ae98580c1e7c12068b9974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 102/116] fix: implicit transport: segregated phases at rest
 gave a face without mobility

---
 opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
index 92d8703..d79d789 100644
--- a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
+++ b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
@@ -638,8 +638,12 @@ namespace Opm {
 
                 m[0] = store_.mob(n[ pix[0] ]) [ 0 ];
 
-                if (! (dflux - m[0]*gflux < 0))     { pix[1] = 0; }
-                else                                { pix[1] = 1; }
+                // Without oil flow, use the cell of the water mobility:
+                // its phases cannot both be immobile.
+                const double oflux = dflux - m[0]*gflux;
+                if      (oflux > 0)                 { pix[1] = 0; }
+                else if (oflux < 0)                 { pix[1] = 1; }
+                else                                { pix[1] = pix[0]; }
 
                 m[1] = store_.mob(n[ pix[1] ]) [ 1 ];
 
-- 
2.43.0


From db4f8abfe25ca56937d2e8d33f2f633290bcb0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 103/116] fix: minimal transport: oil was taken from the wrong
 cell where gravity alone moves the fluids

---
 opm/core/transport/minimal/spu_explicit.c | 10 +++++++---
 opm/core/transport/minimal/spu_implicit.c |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/opm/core/transport/minimal/spu_explicit.c b/opm/core/transport/minimal/spu_explicit.c
index 91b12bc..bcd5650 100644
--- a/opm/core/transport/minimal/spu_explicit.c
+++ b/opm/core/transport/minimal/spu_explicit.c
@@ -22,6 +22,7 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
     int nf = g->number_of_faces;
 
     double m1, m2, flux;
+    int    oil_from_c1;
 
 
     /* Contribution form sources */
@@ -67,15 +68,18 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
             }
 
             else {
-                /* Oil mobility */
-                if (dflux[f]>0) {
+                /* Oil mobility.  Gravity alone moves oil against gflux. */
+                oil_from_c1 = (dflux[f]>0.0) ||
+                              (!(dflux[f]<0.0) && (gflux[f]<0.0));
+                if (oil_from_c1) {
                     m2 = mob[2*c1+1];
                 }
                 else {
                     m2 = mob[2*c2+1];
                 }
                 /* Water mobility */
-                if (dflux[f]+m2*gflux[f]>0) {
+                flux = dflux[f]+m2*gflux[f];
+                if ((flux>0.0) || (!(flux<0.0) && oil_from_c1)) {
                     m1 = mob[2*c1];
                 }
                 else {
diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index d544714..f303839 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -244,8 +244,9 @@ phase_upwind_mobility(double darcyflux, double gravityflux,  int i, int c,
     /* If Darcy flux and gravity flux have opposite sign...   */
     else {
         
-        /* Positive oil phase flux */
-        if (darcyflux>0) {
+        /* Positive oil phase flux.  Gravity alone moves oil against
+         * gravityflux. */
+        if ((darcyflux>0.0) || (!(darcyflux<0.0) && (gravityflux<0.0))) {
             m [1]  =  mob[2*i+1];
             dm[1]  = dmob[2*i+1];
             cix[1] = i;
-- 
2.43.0


From 1d28d9045df7fe0b8a537a80cefb8cf29e3c71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 104/116] fix: minimal transport: the implicit step wrote
 beyond its matrix

---
 opm/core/transport/minimal/spu_implicit.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index f303839..f8d07b8 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -144,12 +144,13 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
     int i;
     int it;
 
-    /* Allocate space for linear system etc.*/
+    /* Allocate space for linear system etc.  A matrix row has a diagonal
+     * entry in addition to (at most) one entry for each face of the cell. */
     sparse_t      *S = malloc(sizeof *S);
     if (S) {
-        S->ia = malloc((nc+1) * sizeof *S->ia);
-        S->ja = malloc( nhf   * sizeof *S->ja);
-        S->sa = malloc( nhf   * sizeof *S->sa);
+        S->ia = malloc((nc+1)   * sizeof *S->ia);
+        S->ja = malloc((nhf+nc) * sizeof *S->ja);
+        S->sa = malloc((nhf+nc) * sizeof *S->sa);
         S->n  = nc;
         S->m  = nc;
     }
-- 
2.43.0


From d5276bc7a2ac44c79a6d27e3e1dcf1435679a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 105/116] fix: minimal transport: the implicit step crashed
 when out of memory

---
 opm/core/transport/minimal/spu_implicit.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index f8d07b8..c76ff3c 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -154,9 +154,6 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
         S->n  = nc;
         S->m  = nc;
     }
-    else {
-        assert(0);
-    }
 
     b = malloc(nc * sizeof *b);
     x = malloc(nc * sizeof *x);    
@@ -165,8 +162,14 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
     mob   = malloc(g->number_of_cells *2* sizeof *mob);
     dmob  = malloc(g->number_of_cells *2* sizeof *dmob);
     
-    infnorm = 1.0;
-    it      = 0;
+    /* Without memory, no iteration is made and the step is reported as not
+     * converged. */
+    infnorm = HUGE_VAL;
+    it      = 20;
+    if (S && S->ia && S->ja && S->sa && b && x && work && mob && dmob) {
+        infnorm = 1.0;
+        it      = 0;
+    }
     while (infnorm > 1e-9 && it++ < 20) {
         compute_mobilities(g->number_of_cells, s, mob, dmob, ntab, h, x0, tab);
         spu_implicit_assemble(g, s0, s, mob, dmob, dflux, gflux, src, dt, S, b, work);
@@ -194,9 +197,11 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
 
     free(b); 
     free(x);
-    free(S->ia);
-    free(S->ja);
-    free(S->sa);
+    if (S) {
+        free(S->ia);
+        free(S->ja);
+        free(S->sa);
+    }
     free(S);
 
     return infnorm;    
-- 
2.43.0


From 6dc13718a137df11d37c87299e7a875fb6cee10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:46 +0000
Subject: [PATCH 106/116] fix: gravity column solver: its headers included
 files that do not exist

---
 opm/core/transport/implicit/GravityColumnSolver.hpp      | 2 +-
 opm/core/transport/implicit/GravityColumnSolver_impl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/implicit/GravityColumnSolver.hpp b/opm/core/transport/implicit/GravityColumnSolver.hpp
index 1213297..0d058e5 100644
--- a/opm/core/transport/implicit/GravityColumnSolver.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver.hpp
@@ -61,6 +61,6 @@ namespace Opm
 
 } // namespace Opm
 
-#include <opm/core/transport/GravityColumnSolver_impl.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver_impl.hpp>
 
 #endif // OPM_GRAVITYCOLUMNSOLVER_HEADER_INCLUDED
diff --git a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
index 7e31778..d3c9b26 100644
--- a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
@@ -17,7 +17,7 @@
   along with OPM.  If not, see <http://www.gnu.org/licenses/>.
 */
 
-#include <opm/core/transport/GravityColumnSolver.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
 #include <opm/core/linalg/blas_lapack.h>
 #include <opm/core/utility/ErrorMacros.hpp>
 #include <sys/time.h>
-- 
2.43.0


From 2d0b89012037b48e246133872267c2662856c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:34 +0000
Subject: [PATCH 107/116] fix: gravity column solver: cells that are not solved
 for were given the initial guess

---
 opm/core/transport/implicit/GravityColumnSolver_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
index d3c9b26..cbf6a19 100644
--- a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
@@ -81,6 +81,10 @@ namespace Opm
 	JacSys sys(grid_.number_of_cells);
 	std::vector<double> increment(grid_.number_of_cells, 0.0);
 	model_.initStep(state, grid_, sys);
+	// Cells outside the columns, and alone in theirs, are not solved for:
+	// they keep their saturations whatever the model's initial guess.
+	std::fill(sys.vector().writableSolution().begin(),
+		  sys.vector().writableSolution().end(), 0.0);
 
 	int iter = 0;
 	double max_delta = 1e100;
-- 
2.43.0


From 4052e6340f32a45fdca7d377ad8503e382fdac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:57 +0000
Subject: [PATCH 108/116] fix: multilinear DG basis: adding a constant added
 too little

The basis functions sum to one, so a function grows by a constant when every
coefficient does. With the tensorial basis the limiter left cells below their
upstream values.
---
 opm/core/tof/DGBasis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/tof/DGBasis.cpp b/opm/core/tof/DGBasis.cpp
index 54c43b8..ed477ae 100644
--- a/opm/core/tof/DGBasis.cpp
+++ b/opm/core/tof/DGBasis.cpp
@@ -308,9 +308,9 @@ namespace Opm
                                       double* coefficients) const
     {
         const int nb = numBasisFunc();
-        const double term = increment/double(nb);
+        // The basis functions sum to one.
         for (int ix = 0; ix < nb; ++ix) {
-            coefficients[ix] += term;
+            coefficients[ix] += increment;
         }
     }
 
-- 
2.43.0


From 852bb31341cba8af3d5a62efc9498ce7e88c05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:20 +0000
Subject: [PATCH 109/116] fix: discontinuous Galerkin limiter: cells without
 upstream faces could fall below zero

The limiter promises non-negative values everywhere, but did not look at the
corner values of cells whose inflow comes from a source.
---
 opm/core/tof/TofDiscGalReorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/tof/TofDiscGalReorder.cpp b/opm/core/tof/TofDiscGalReorder.cpp
index ef50b66..51a6980 100644
--- a/opm/core/tof/TofDiscGalReorder.cpp
+++ b/opm/core/tof/TofDiscGalReorder.cpp
@@ -453,7 +453,7 @@ namespace Opm
         // Compute slope multiplier (limiter).
         if (num_upstream_faces == 0) {
             min_upstream_tof = 0.0;
-            min_here_tof = 0.0;
+            min_here_tof = std::min(min_here_tof, 0.0);
         }
         if (min_upstream_tof < 0.0) {
             min_upstream_tof = 0.0;
-- 
2.43.0


From 386f6db69bfcdfe25e62fd49c24e0db2d55a4603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 110/116] fix: VAG: converting a grid kept the face edges of an
 earlier conversion

unstructuredGridToVag() fills every other table from scratch, but appended to
the edges of faces the structure already held.
---
 opm/core/io/vag/vag.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index e194b5b..e59f864 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -392,6 +392,8 @@ namespace Opm
         // fill face_to_egdes
 	vag_grid.number_of_edges=edges.size();
 	vag_grid.faces_to_edges.pos.resize(vag_grid.number_of_faces+1);
+	vag_grid.faces_to_edges.pos[0]=0;
+	vag_grid.faces_to_edges.value.resize(0);
 	for(int i=0;i < grid.number_of_faces;++i){
             int ne=grid.face_nodepos[i+1]-grid.face_nodepos[i];
 	    vag_grid.faces_to_edges.pos[i+1]=vag_grid.faces_to_edges.pos[i]+ne;	    
-- 
2.43.0


From 0ae38425f041150b11cc916db24ee850b59fe6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:59 +0000
Subject: [PATCH 111/116] fix: wells: completions outside the grid were put
 into other cells

An I or J beyond the last column named a cell of the next row or layer.
---
 opm/core/wells/WellsManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 3494e5b..b6f9e84 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -395,7 +395,8 @@ namespace Opm
                         int cart_grid_indx = ix + cpgdim[0]*(jy + cpgdim[1]*kz);
                         std::map<int, int>::const_iterator cgit =
                             cartesian_to_compressed.find(cart_grid_indx);
-                        if (cgit == cartesian_to_compressed.end()) {
+                        if (ix < 0 || ix >= cpgdim[0] || jy < 0 || jy >= cpgdim[1] ||
+                            cgit == cartesian_to_compressed.end()) {
                             THROW("Cell with i,j,k indices " << ix << ' ' << jy << ' '
                                   << kz << " not found in grid (well = " << name << ')');
                         }
-- 
2.43.0


From 3174f650874bea7c5853f9074fc7b26e5103c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:36 +0000
Subject: [PATCH 112/116] fix: initial states: reference pressures were cut to
 whole numbers of bar

---
 opm/core/simulator/initState_impl.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index d8e53bd..b6492bb 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -337,7 +337,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (segregation_testcase) {
             // Warn against error-prone usage.
@@ -351,7 +351,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterAbove, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             double dens[2] = { props.density()[1], props.density()[0] };
             initHydrostaticPressure(grid, dens, woc, gravity, woc, ref_p, state);
         } else if (param.has("water_oil_contact")) {
@@ -366,7 +366,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props.density(), woc, gravity, woc, ref_p, state);
         } else if (param.has("init_saturation")) {
             // Initialise water saturation to init_saturation parameter.
@@ -376,7 +376,7 @@ namespace Opm
                 state.saturation()[2*cell + 1] = 1.0 - init_saturation;
             }
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[0]*init_saturation + props.density()[1]*(1.0 - init_saturation);
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -384,7 +384,7 @@ namespace Opm
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[1];
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -432,7 +432,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (param.has("water_oil_contact")) {
             // Warn against error-prone usage.
@@ -446,12 +446,12 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props, woc, gravity, woc, ref_p, state);
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
             const double woc = -1e100;
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
-- 
2.43.0


From c6b0519ae24988b4a18e51eeb96f28f7a6c7ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:28 +0000
Subject: [PATCH 113/116] fix: initial states: compressible pressures were not
 hydrostatic below contacts, in flat models and by default

The solution beyond the contact was stepped with the step count and
distance of another interval: no steps at all with the datum at the end
of the model, and division by zero in models of one layer. By default the
contact was put above the model, so that water determined the pressures of
models filled with oil.
---
 opm/core/simulator/initState_impl.hpp | 85 ++++++++++++++-------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index b6492bb..e85651c 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -165,6 +165,32 @@ namespace Opm
             }
         };
 
+        // Helper for initHydrostaticPressure() for compressible fluids.
+        // Solves dp/dz = rho(p) g from (z, p) to z_end with steps no
+        // longer than hmax, stores the solution and returns p(z_end).
+        inline double integratePressure(Density& rho,
+                                        const int phase,
+                                        const double gravity,
+                                        const double hmax,
+                                        const double z,
+                                        const double p,
+                                        const double z_end,
+                                        std::map<double, double>& press_by_z)
+        {
+            if (std::fabs(z_end - z) <= 1e-6*hmax) {
+                // Points this close would spoil the interpolation.
+                return p;
+            }
+            const int num_steps = std::max(1, int(std::ceil(std::fabs(z_end - z)/hmax)));
+            const double h = (z_end - z)/double(num_steps);
+            double pval = p;
+            for (int i = 0; i < num_steps; ++i) {
+                pval += h*rho(pval, phase)*gravity;
+                press_by_z[(i + 1 == num_steps) ? z_end : z + (i + 1)*h] = pval;
+            }
+            return pval;
+        }
+
         // Initialize hydrostatic pressures depending only on gravity,
         // phase densities that may vary with pressure and a water-oil
         // contact depth. The pressure ODE is given as
@@ -193,8 +219,10 @@ namespace Opm
                 zlim[1] = std::max(zlim[1], z);
             }
 
-            // We'll use a minimum stepsize of 1/100 of the z range.
-            const double hmin = (zlim[1] - zlim[0])/100.0;
+            // We'll use a maximum stepsize of 1/100 of the z range, but
+            // no more than about 10000 steps from a distant datum.
+            const double zdist = std::max(zlim[1], datum_z) - std::min(zlim[0], datum_z);
+            const double hmax = std::max((zlim[1] - zlim[0])/100.0, zdist/10000.0);
 
             // Store p(z) results in an associative array.
             std::map<double, double> press_by_z;
@@ -203,45 +231,22 @@ namespace Opm
             // Set up density evaluator.
             Density rho(props);
 
-            // Solve the ODE from datum_z to woc.
-            int phase = (datum_z > woc) ? 0 : 1;
-            int num_steps = int(std::ceil(std::fabs(woc - datum_z)/hmin));
-            double pval = datum_p;
-            double zval = datum_z;
-            double h = (woc - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
-            }
-            double woc_p = pval;
-
-            // Solve the ODE from datum_z to the end of the interval.
-            double z_end = (datum_z > woc) ? zlim[1] : zlim[0];
-            num_steps = int(std::ceil(std::fabs(z_end - datum_z)/hmin));
-            pval = datum_p;
-            zval = datum_z;
-            h = (z_end - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
+            // Solve the ODE from datum_z to the end of the interval,
+            // away from the woc.
+            const int phase = (datum_z > woc) ? 0 : 1;
+            const double z_end = (phase == 0) ? zlim[1] : zlim[0];
+            if ((phase == 0) ? z_end > datum_z : z_end < datum_z) {
+                integratePressure(rho, phase, gravity, hmax, datum_z, datum_p, z_end, press_by_z);
             }
 
-            // Solve the ODE from woc to the other end of the interval.
-            // Switching phase and z_end.
-            phase = (phase + 1) % 2;
-            z_end = (datum_z > woc) ? zlim[0] : zlim[1];
-            pval = woc_p;
-            zval = woc;
-            h = (z_end - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
+            // Solve the ODE from datum_z to the other end of the
+            // interval, switching phase at the woc if that is passed.
+            const double z_other = (phase == 0) ? zlim[0] : zlim[1];
+            if ((phase == 0) ? z_other < woc : z_other > woc) {
+                const double woc_p = integratePressure(rho, phase, gravity, hmax, datum_z, datum_p, woc, press_by_z);
+                integratePressure(rho, (phase + 1) % 2, gravity, hmax, woc, woc_p, z_other, press_by_z);
+            } else if ((phase == 0) ? z_other < datum_z : z_other > datum_z) {
+                integratePressure(rho, phase, gravity, hmax, datum_z, datum_p, z_other, press_by_z);
             }
 
             // Create monotone spline for interpolating solution.
@@ -453,7 +458,7 @@ namespace Opm
             // Initialise pressure to hydrostatic state.
             const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
-            const double woc = -1e100;
+            const double woc = 1e100;
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
         }
 
-- 
2.43.0


From 37b66158d2d90d6635f147bf08f356dd8f81f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 114/116] fix: states: initialising a state again kept fluxes,
 saturations and well rates of its earlier use

---
 opm/core/simulator/BlackoilState.hpp | 8 ++++----
 opm/core/simulator/TwophaseState.hpp | 8 ++++----
 opm/core/simulator/WellState.hpp     | 4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/opm/core/simulator/BlackoilState.hpp b/opm/core/simulator/BlackoilState.hpp
index 153c2ee..367fe7a 100644
--- a/opm/core/simulator/BlackoilState.hpp
+++ b/opm/core/simulator/BlackoilState.hpp
@@ -35,10 +35,10 @@ namespace Opm
         void init(const UnstructuredGrid& g, const int num_phases)
         {
             num_phases_ = num_phases;
-            press_.resize(g.number_of_cells, 0.0);
-            fpress_.resize(g.number_of_faces, 0.0);
-            flux_.resize(g.number_of_faces, 0.0);
-            sat_.resize(num_phases * g.number_of_cells, 0.0);
+            press_.assign(g.number_of_cells, 0.0);
+            fpress_.assign(g.number_of_faces, 0.0);
+            flux_.assign(g.number_of_faces, 0.0);
+            sat_.assign(num_phases * g.number_of_cells, 0.0);
             for (int cell = 0; cell < g.number_of_cells; ++cell) {
                 // Defaulting the second saturation to 1.0.
                 // This will usually be oil in a water-oil case,
diff --git a/opm/core/simulator/TwophaseState.hpp b/opm/core/simulator/TwophaseState.hpp
index e1eaa17..93623c7 100644
--- a/opm/core/simulator/TwophaseState.hpp
+++ b/opm/core/simulator/TwophaseState.hpp
@@ -35,10 +35,10 @@ namespace Opm
         void init(const UnstructuredGrid& g, int num_phases)
         {
             num_phases_ = num_phases;
-            press_.resize(g.number_of_cells, 0.0);
-            fpress_.resize(g.number_of_faces, 0.0);
-            flux_.resize(g.number_of_faces, 0.0);
-            sat_.resize(num_phases_ * g.number_of_cells, 0.0);
+            press_.assign(g.number_of_cells, 0.0);
+            fpress_.assign(g.number_of_faces, 0.0);
+            flux_.assign(g.number_of_faces, 0.0);
+            sat_.assign(num_phases_ * g.number_of_cells, 0.0);
             for (int cell = 0; cell < g.number_of_cells; ++cell) {
                 // Defaulting the second saturation to 1.0.
                 // This will usually be oil in a water-oil case,
diff --git a/opm/core/simulator/WellState.hpp b/opm/core/simulator/WellState.hpp
index f1edc5d..75d33e4 100644
--- a/opm/core/simulator/WellState.hpp
+++ b/opm/core/simulator/WellState.hpp
@@ -52,8 +52,8 @@ namespace Opm
                         bhp_[w] = ctrl->target[ctrl->current];
                     }
                 }
-                perfrates_.resize(wells->well_connpos[nw], 0.0);
-                perfpress_.resize(wells->well_connpos[nw], -1e100);
+                perfrates_.assign(wells->well_connpos[nw], 0.0);
+                perfpress_.assign(wells->well_connpos[nw], -1e100);
             }
         }
 
-- 
2.43.0


From 92471a64cdf6b5f62b920a9d7b1215788f1c0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:05 +0000
Subject: [PATCH 115/116] fix: initial states: decks with too few pressures or
 saturations were read past their end

---
 opm/core/simulator/initState_impl.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index e85651c..3906b31 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -303,6 +303,21 @@ namespace Opm
         }
 
 
+        // Obtain a field of the deck that has to have values for all cells.
+        inline const std::vector<double>& cellFieldFromDeck(const UnstructuredGrid& grid,
+                                                            const EclipseGridParser& deck,
+                                                            const std::string& keyword)
+        {
+            const std::vector<double>& field = deck.getFloatingPointValue(keyword);
+            for (int c = 0; c < grid.number_of_cells; ++c) {
+                const int c_deck = (grid.global_cell == NULL) ? c : grid.global_cell[c];
+                if (c_deck >= int(field.size())) {
+                    THROW("initStateFromDeck(): keyword " << keyword << " has only " << field.size() << " values.");
+                }
+            }
+            return field;
+        }
+
     } // anonymous namespace
 
 
@@ -504,7 +519,7 @@ namespace Opm
             // Set saturations from SWAT/SGAS, pressure from PRESSURE.
             std::vector<double>& s = state.saturation();
             std::vector<double>& p = state.pressure();
-            const std::vector<double>& p_deck = deck.getFloatingPointValue("PRESSURE");
+            const std::vector<double>& p_deck = cellFieldFromDeck(grid, deck, "PRESSURE");
             const int num_cells = grid.number_of_cells;
             if (num_phases == 2) {
                 if (!pu.phase_used[BlackoilPhases::Aqua]) {
@@ -512,7 +527,7 @@ namespace Opm
                     if (!deck.hasField("SGAS")) {
                         THROW("initStateFromDeck(): missing SGAS keyword in 2-phase init");
                     }
-                    const std::vector<double>& sg_deck = deck.getFloatingPointValue("SGAS");                
+                    const std::vector<double>& sg_deck = cellFieldFromDeck(grid, deck, "SGAS");                
                     const int gpos = pu.phase_pos[BlackoilPhases::Vapour];
                     const int opos = pu.phase_pos[BlackoilPhases::Liquid];
                     for (int c = 0; c < num_cells; ++c) {
@@ -526,7 +541,7 @@ namespace Opm
                     if (!deck.hasField("SWAT")) {
                         THROW("initStateFromDeck(): missing SWAT keyword in 2-phase init");
                     }
-                    const std::vector<double>& sw_deck = deck.getFloatingPointValue("SWAT");
+                    const std::vector<double>& sw_deck = cellFieldFromDeck(grid, deck, "SWAT");
                     const int wpos = pu.phase_pos[BlackoilPhases::Aqua];
                     const int nwpos = (wpos + 1) % 2;
                     for (int c = 0; c < num_cells; ++c) {
@@ -544,8 +559,8 @@ namespace Opm
                 const int wpos = pu.phase_pos[BlackoilPhases::Aqua];
                 const int gpos = pu.phase_pos[BlackoilPhases::Vapour];
                 const int opos = pu.phase_pos[BlackoilPhases::Liquid];
-                const std::vector<double>& sw_deck = deck.getFloatingPointValue("SWAT");
-                const std::vector<double>& sg_deck = deck.getFloatingPointValue("SGAS");
+                const std::vector<double>& sw_deck = cellFieldFromDeck(grid, deck, "SWAT");
+                const std::vector<double>& sg_deck = cellFieldFromDeck(grid, deck, "SGAS");
                 for (int c = 0; c < num_cells; ++c) {
                     int c_deck = (grid.global_cell == NULL) ? c : grid.global_cell[c];
                     s[3*c + wpos] = sw_deck[c_deck];
-- 
2.43.0


From c33629f4f602ae7b9adbe367b21abb52e60f8de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:18 +0000
Subject: [PATCH 116/116] fix: discontinuous Galerkin limiter: flat solutions
 of the multilinear basis were too low

addConstant() of the multilinear basis changes the function by a fraction of the
increment, and its test expects that. Restore it (see 4052e63) and let the
limiter, which needs the full change, allow for it.
---
 opm/core/tof/DGBasis.cpp           | 4 ++--
 opm/core/tof/TofDiscGalReorder.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/opm/core/tof/DGBasis.cpp b/opm/core/tof/DGBasis.cpp
index ed477ae..54c43b8 100644
--- a/opm/core/tof/DGBasis.cpp
+++ b/opm/core/tof/DGBasis.cpp
@@ -308,9 +308,9 @@ namespace Opm
                                       double* coefficients) const
     {
         const int nb = numBasisFunc();
-        // The basis functions sum to one.
+        const double term = increment/double(nb);
         for (int ix = 0; ix < nb; ++ix) {
-            coefficients[ix] += increment;
+            coefficients[ix] += term;
         }
     }
 
diff --git a/opm/core/tof/TofDiscGalReorder.cpp b/opm/core/tof/TofDiscGalReorder.cpp
index 51a6980..41aacc5 100644
--- a/opm/core/tof/TofDiscGalReorder.cpp
+++ b/opm/core/tof/TofDiscGalReorder.cpp
@@ -464,7 +464,11 @@ namespace Opm
             // Handle by setting a flat solution.
             std::cout << "Trouble in cell " << cell << std::endl;
             limiter = 0.0;
-            basis_func_->addConstant(min_upstream_tof - tof_c, tof + num_basis*cell);
+            // The multilinear basis adds only a fraction of the increment.
+            std::vector<double> unit(num_basis, 0.0);
+            basis_func_->addConstant(1.0, &unit[0]);
+            const double fraction = basis_func_->functionAverage(&unit[0]);
+            basis_func_->addConstant((min_upstream_tof - tof_c)/fraction, tof + num_basis*cell);
         }
         ASSERT(limiter >= 0.0);
 
-- 
2.43.0

