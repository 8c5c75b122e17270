From 5d069c22b592f67cc5df1366110f68ad7dca7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 01/55] fix: keep the initial state of the random generator in
 [0, 1)

For 595 seeds one of the first draws of coco_random_uniform was exactly 1.0.
---
 src/coco_random.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_random.c b/src/coco_random.c
index a6be159..7cd2c9e 100644
--- a/src/coco_random.c
+++ b/src/coco_random.c
@@ -55,6 +55,9 @@ coco_random_state_t *coco_random_new(uint32_t seed) {
   for (i = 0; i < COCO_LONG_LAG; ++i) {
     /* Uses uint64_t to silence the compiler ("shift count negative or too big, undefined behavior" warning) */
     state->x[i] = ((double)seed) / (double)(((uint64_t)1UL << 32) - 1);
+    /* Stay in [0, 1), as the generator itself does */
+    if (state->x[i] >= 1.0)
+      state->x[i] -= 1.0;
     /* Advance seed based on simple RNG from TAOCP */
     seed = (uint32_t)1812433253UL * (seed ^ (seed >> 30)) + ((uint32_t)i + 1);
   }
-- 
2.43.0


From c0271c1715114fbf9067ec623bb266e8ae62e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 02/55] fix: never return an infinite value from
 coco_random_normal

A uniform draw of exactly 0 (possible for a few hundred seeds) gave log(0).
---
 src/coco_random.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coco_random.c b/src/coco_random.c
index 7cd2c9e..3f2dbcb 100644
--- a/src/coco_random.c
+++ b/src/coco_random.c
@@ -84,8 +84,11 @@ double coco_random_uniform(coco_random_state_t *state) {
 double coco_random_normal(coco_random_state_t *state) {
   double normal;
 #ifdef COCO_NORMAL_POLAR
-  const double u1 = coco_random_uniform(state);
-  const double u2 = coco_random_uniform(state);
+  double u1 = coco_random_uniform(state);
+  double u2;
+  while (u1 <= 0.0) /* log(0) is not finite */
+    u1 = coco_random_uniform(state);
+  u2 = coco_random_uniform(state);
   normal = sqrt(-2 * log(u1)) * cos(2 * coco_pi * u2);
 #else
   int i;
-- 
2.43.0


From 7bbceb4de0945601c20bd29182e440418670da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:26 +0000
Subject: [PATCH 03/55] fix: return the instance, not the function, for an
 instance index

coco_suite_get_instance_from_instance_index() read suite->functions, also out of bounds when
the suite has more instances than functions.
---
 src/coco_suite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 8511109..af92471 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -401,7 +401,7 @@ size_t coco_suite_get_instance_from_instance_index(const coco_suite_t *suite,
     return 0; /* Never reached*/
   }
 
-  return suite->functions[instance_idx];
+  return suite->instances[instance_idx];
 }
 
 void coco_suite_free(coco_suite_t *suite) {
-- 
2.43.0


From ec96c2546a409bb2c9afea3b957e6ce7a03f1164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:26 +0000
Subject: [PATCH 04/55] fix: ignore the second of two conflicting suite options
 also when the first starts the string

'year: 2016 instances: 7' used the instances (and leaked those of the year) and
'dimensions: ... dimension_indices: ...' applied both filters, contrary to the documentation,
because a key found at position 0 was not taken as found.
---
 src/coco_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index af92471..c2453ae 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -510,7 +510,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
 
-  if ((year_found > 0) && (instances_found > 0)) {
+  if ((year_found >= 0) && (instances_found >= 0)) {
     if (year_found < instances_found) {
       parse_instances = 0;
       coco_warning("coco_suite_get_instance_indices(): 'instances' suite option ignored because it follows 'year'");
@@ -773,7 +773,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     dim_found = coco_strfind(suite_options, "dimensions");
     dim_idx_found = coco_strfind(suite_options, "dimension_indices");
 
-    if ((dim_found > 0) && (dim_idx_found > 0)) {
+    if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
         parce_dim_idx = 0;
         coco_warning("coco_suite(): 'dimension_indices' suite option ignored because it follows 'dimensions'");
-- 
2.43.0


From 26609cc0e500190fd38ce84040dc28c90523c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:26 +0000
Subject: [PATCH 05/55] fix: a problem index beyond the suite yields no problem

coco_suite_get_problem() returned the first problem for any too large index and
coco_suite_decode_problem_index() left its outputs unset.
---
 src/coco_suite.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index c2453ae..5b43a16 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -461,6 +461,12 @@ coco_problem_t *coco_suite_get_problem(coco_suite_t *suite,
                                        const size_t problem_index) {
 
   size_t function_idx = 0, instance_idx = 0, dimension_idx = 0;
+
+  if (problem_index >= coco_suite_get_number_of_problems(suite)) {
+    coco_warning("coco_suite_get_problem(): problem_index too large");
+    return NULL;
+  }
+
   coco_suite_decode_problem_index(suite, problem_index, &function_idx,
                                   &dimension_idx, &instance_idx);
 
@@ -982,9 +988,9 @@ void coco_suite_decode_problem_index(const coco_suite_t *suite, const size_t pro
                        suite->number_of_dimensions) -
                           1) {
     coco_warning("coco_suite_decode_problem_index(): problem_index too large");
-    function_idx = 0;
-    instance_idx = 0;
-    dimension_idx = 0;
+    *function_idx = 0;
+    *instance_idx = 0;
+    *dimension_idx = 0;
     return;
   }
 
-- 
2.43.0


From e48ea1ff86325ae50ea3ea6e44a55168c03b6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:26 +0000
Subject: [PATCH 06/55] fix: give the toy problems a type

coco_problem_get_type() aborted (or returned NULL) for every problem of the toy suite.
---
 src/suite_toy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/suite_toy.c b/src/suite_toy.c
index 75f0eed..84f9650 100644
--- a/src/suite_toy.c
+++ b/src/suite_toy.c
@@ -66,6 +66,8 @@ static coco_problem_t *suite_toy_get_problem(coco_suite_t *suite, const size_t f
     return NULL; /* Never reached */
   }
 
+  coco_problem_set_type(problem, function < 6 ? "1-separable" : "2-moderate");
+
   problem->suite_dep_function = function;
   problem->suite_dep_instance = instance;
   problem->suite_dep_index = coco_suite_encode_problem_index(suite, function_idx, dimension_idx, instance_idx);
-- 
2.43.0


From a9c13fc8a56f5dfae81d35716db0955d9da67476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:09 +0000
Subject: [PATCH 07/55] fix: the rotated Rastrigin problem of the constrained
 suites is not separable

---
 src/f_rastrigin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/f_rastrigin.c b/src/f_rastrigin.c
index 3fc4db0..177e8cd 100644
--- a/src/f_rastrigin.c
+++ b/src/f_rastrigin.c
@@ -363,7 +363,7 @@ static coco_problem_t *f_rastrigin_rotated_cons_bbob_problem_allocate(const size
                       dimension);
   coco_problem_set_name(problem, problem_name_template, function, instance,
                         dimension);
-  coco_problem_set_type(problem, "1-separable");
+  coco_problem_set_type(problem, "4-multi-modal");
 
   coco_free_memory(M);
   coco_free_memory(b);
-- 
2.43.0


From 4cc560d83836c03c2ada7d9ded87176bc9e769e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:38 +0000
Subject: [PATCH 08/55] fix: allow for rounding errors when asserting that no
 feasible point beats the optimum

---
 src/coco_problem.c               | 2 +-
 src/transform_obj_scale.c        | 2 +-
 src/transform_obj_shift.c        | 2 +-
 src/transform_vars_affine.c      | 2 +-
 src/transform_vars_asymmetric.c  | 2 +-
 src/transform_vars_enforce_box.c | 2 +-
 src/transform_vars_oscillate.c   | 2 +-
 src/transform_vars_shift.c       | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 751095e..9d9f8ae 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -908,7 +908,7 @@ static void coco_problem_stacked_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-11 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   }
 }
 
diff --git a/src/transform_obj_scale.c b/src/transform_obj_scale.c
index 9b76e76..dc91764 100644
--- a/src/transform_obj_scale.c
+++ b/src/transform_obj_scale.c
@@ -40,7 +40,7 @@ static void transform_obj_scale_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-11 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_obj_shift.c b/src/transform_obj_shift.c
index d2c8e15..7fe71bb 100644
--- a/src/transform_obj_shift.c
+++ b/src/transform_obj_shift.c
@@ -40,7 +40,7 @@ static void transform_obj_shift_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-11 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_affine.c b/src/transform_vars_affine.c
index c9b72c4..0e3eb47 100644
--- a/src/transform_vars_affine.c
+++ b/src/transform_vars_affine.c
@@ -57,7 +57,7 @@ static void transform_vars_affine_evaluate_function(coco_problem_t *problem, con
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-11 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_asymmetric.c b/src/transform_vars_asymmetric.c
index da7cd9c..87e1288 100644
--- a/src/transform_vars_asymmetric.c
+++ b/src/transform_vars_asymmetric.c
@@ -99,7 +99,7 @@ static void transform_vars_asymmetric_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-11 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_enforce_box.c b/src/transform_vars_enforce_box.c
index 9768598..dfce9ea 100644
--- a/src/transform_vars_enforce_box.c
+++ b/src/transform_vars_enforce_box.c
@@ -39,7 +39,7 @@ static void transform_vars_enforce_box_evaluate_function(coco_problem_t *problem
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible) {
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-11 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
     }
   } else {
     assert(y[0] + 1e-13 >= problem->best_value[0]);
diff --git a/src/transform_vars_oscillate.c b/src/transform_vars_oscillate.c
index 39f33ef..ff3f4d7 100644
--- a/src/transform_vars_oscillate.c
+++ b/src/transform_vars_oscillate.c
@@ -100,7 +100,7 @@ static void transform_vars_oscillate_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-11 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_shift.c b/src/transform_vars_shift.c
index b095ea1..20f9ed3 100644
--- a/src/transform_vars_shift.c
+++ b/src/transform_vars_shift.c
@@ -45,7 +45,7 @@ static void transform_vars_shift_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-11 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
-- 
2.43.0


From 1b4a74a30fda914c0b3ece16d4e348feda080023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:15 +0000
Subject: [PATCH 09/55] fix: initialise the last logged evaluation numbers of
 the bbob logger

When a problem was freed after a recommendation without any evaluation, the final lines of the .dat and .tdat files depended on uninitialised memory.
---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index b6eb134..16e9a80 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -699,6 +699,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data->num_func_evaluations = 0;
   logger_data->num_cons_evaluations = 0;
+  logger_data->last_logged_eval_dat = 0;
+  logger_data->last_logged_eval_tdat = 0;
   logger_data->last_logged_eval_mdat = 0;
   /* logger_data->last_logged_evaluation = 0; */
 
-- 
2.43.0


From 164735963869b91fe3658b493917772dc4a08e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:15 +0000
Subject: [PATCH 10/55] fix: recommending a solution leaves no trace in the
 observed problem

The evaluation of the recommended solution was counted in the wrapped problem (visible after removing the observer), drew noise (changing all later values of a noisy problem) and logged the noisy instead of the noise-free value.
---
 src/logger_bbob.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 16e9a80..6bb35c9 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -479,15 +479,28 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   double *constraints = NULL, *y = NULL;
   logger_bbob_data_t *logger = (logger_bbob_data_t *)coco_problem_transformed_get_data(problem);
   coco_problem_t *inner_problem = coco_problem_transformed_get_inner_problem(problem);
+  coco_problem_t *evaluated_problem = inner_problem;
+  size_t evaluations, best_observed_evaluation;
+  double best_observed_fvalue;
   const int is_feasible = problem->number_of_constraints <= 0 || coco_is_feasible(inner_problem, x, NULL);
 
   if (!logger->is_initialized) {
     logger_bbob_initialize(logger, problem->is_opt_known);
   }
 
+  /* Use the noise-free problem, so that no noise is drawn and the noise-free value is logged */
+  if (inner_problem->is_noisy == 1)
+    evaluated_problem = coco_problem_transformed_get_inner_problem(inner_problem);
+
   /* Fulfill contract of a COCO evaluate function, but do not increase the evaluation counters */
+  evaluations = evaluated_problem->evaluations;
+  best_observed_fvalue = evaluated_problem->best_observed_fvalue[0];
+  best_observed_evaluation = evaluated_problem->best_observed_evaluation[0];
   y = coco_allocate_vector(problem->number_of_objectives);
-  coco_evaluate_function(inner_problem, x, y);
+  coco_evaluate_function(evaluated_problem, x, y);
+  evaluated_problem->evaluations = evaluations;
+  evaluated_problem->best_observed_fvalue[0] = best_observed_fvalue;
+  evaluated_problem->best_observed_evaluation[0] = best_observed_evaluation;
 
   y_logged = y[0];
   if (coco_is_nan(y_logged))
-- 
2.43.0


From 825a58c568de571277189a7c8ddb6d58b95b44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:15 +0000
Subject: [PATCH 11/55] fix: allow for rounding errors when the loggers assert
 that no feasible point beats the optimum

---
 src/logger_bbob.c     | 4 ++--
 src/logger_bbob_old.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 6bb35c9..5ccbc34 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -400,7 +400,7 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
   /* Do sanity check */
   if ((problem->is_opt_known) && (is_feasible)) {
     /* Infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_value);
+    assert(y_logged + 1e-11 * (1 + fabs(logger->optimal_value)) >= logger->optimal_value);
   }
 
   /* Evaluate the constraints */
@@ -512,7 +512,7 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   /* Do sanity check */
   if ((problem->is_opt_known) && (is_feasible)) {
     /* Infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_value);
+    assert(y_logged + 1e-11 * (1 + fabs(logger->optimal_value)) >= logger->optimal_value);
   }
 
   /* Evaluate the constraints */
diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index 491edd3..e472bd2 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -436,7 +436,7 @@ static void logger_bbob_old_evaluate(coco_problem_t *problem, const double *x, d
     y_logged = fvalue_logged_for_infinite;
   /* do sanity check */
   if (is_feasible) /* infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_fvalue);
+    assert(y_logged + 1e-11 * (1 + fabs(logger->optimal_fvalue)) >= logger->optimal_fvalue);
 
   /* Evaluate the constraints */
   if (problem->number_of_constraints > 0) {
-- 
2.43.0


From 8a780890901e228566e40c33e297353eb218d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:15 +0000
Subject: [PATCH 12/55] fix: the first evaluation counts for the targets of the
 bbob loggers

The first evaluation was logged without updating the targets, so that the next improvement was logged even if it reached no new target.
---
 src/logger_bbob.c     | 4 ++--
 src/logger_bbob_old.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 5ccbc34..7f42af0 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -443,8 +443,8 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
 
     /* Add a line in the .dat file is the performance target is reached by a feasible solution
      * and always at the first evaluation */
-    if (logger->num_func_evaluations == 1 ||
-        coco_observer_targets_trigger(logger->targets, logger->best_found_value - logger->optimal_value)) {
+    if (coco_observer_targets_trigger(logger->targets, logger->best_found_value - logger->optimal_value) ||
+        logger->num_func_evaluations == 1) {
       logger_bbob_output(logger->dat_file, logger, x, y_logged, logger->best_found_value, constraints);
       logger->last_logged_eval_dat = logger->num_func_evaluations;
     }
diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index e472bd2..cedb7d9 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -470,8 +470,8 @@ static void logger_bbob_old_evaluate(coco_problem_t *problem, const double *x, d
     /* Add a line in the .dat file for each logging target reached
      * by a feasible solution and always at evaluation one
      */
-    if (logger->number_of_evaluations == 1 ||
-        coco_observer_log_targets_trigger(logger->targets, logger->best_fvalue - logger->optimal_fvalue)) {
+    if (coco_observer_log_targets_trigger(logger->targets, logger->best_fvalue - logger->optimal_fvalue) ||
+        logger->number_of_evaluations == 1) {
       logger_bbob_old_write_data(
           logger->fdata_file, logger->number_of_evaluations, logger->number_of_evaluations_constraints, y_logged,
           logger->best_fvalue, logger->optimal_fvalue, x, problem->number_of_variables,
-- 
2.43.0


From 1b87d8f65e14c638771296a768f0f7cf363e4ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:29 +0000
Subject: [PATCH 13/55] fix: coco_double_to_int rounds negative numbers to the
 nearest integer

---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 4f31ef4..45aa944 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -978,7 +978,7 @@ static int coco_double_to_int(const double number) {
     coco_error("coco_double_to_int(): Cannot cast %f to the nearest integer, min %d allowed", number, INT_MIN);
     return -1; /* Never reached */
   } else {
-    return (int)(number + 0.5);
+    return (int)coco_double_round(number);
   }
 }
 
-- 
2.43.0


From 62bf9e10c533117893bf45967ea5de9870d7b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:11 +0000
Subject: [PATCH 14/55] fix: use the default reference hypervolume for problems
 without a known one

The value of the last table entry was used instead of the documented default.
---
 src/suite_biobj_utilities.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 6a899a2..bbe33f6 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -501,6 +501,7 @@ static void suite_biobj_get_best_hyp_value(const int known_optima, const char *k
       }
     }
     /* If it comes to this point, the key was not found */
+    *value = default_value;
     coco_warning("suite_biobj_get_best_hyp_value(): best value of %s could not be found; set to %f", key,
                  default_value);
     coco_free_memory(curr_key);
-- 
2.43.0


From 34a31c5d721b525c9edaa1a4894e3dcd6f3242a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:11 +0000
Subject: [PATCH 15/55] fix: recommending a solution leaves no trace in the
 observed bi-objective problem

---
 src/logger_biobj.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 1e40963..110194b 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -805,6 +805,8 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
   coco_problem_t *inner_problem;
   observer_biobj_data_t *observer_data;
   size_t i, j;
+  size_t evaluations, best_observed_evaluation;
+  double best_observed_fvalue;
   double *y = NULL;
   double *constraints = NULL;
 
@@ -812,9 +814,15 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
   observer_data = (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
   inner_problem = coco_problem_transformed_get_inner_problem(problem);
 
-  /* Evaluate the objectives */
+  /* Evaluate the objectives without increasing the evaluation counter */
+  evaluations = inner_problem->evaluations;
+  best_observed_fvalue = inner_problem->best_observed_fvalue[0];
+  best_observed_evaluation = inner_problem->best_observed_evaluation[0];
   y = coco_allocate_vector(problem->number_of_objectives);
   coco_evaluate_function(inner_problem, x, y);
+  inner_problem->evaluations = evaluations;
+  inner_problem->best_observed_fvalue[0] = best_observed_fvalue;
+  inner_problem->best_observed_evaluation[0] = best_observed_evaluation;
 
   /* Evaluate the constraints */
   if (problem->number_of_constraints > 0) {
-- 
2.43.0


From 2d8b21f320006fc33be44e5fb8db95f6c0cdfde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:11 +0000
Subject: [PATCH 16/55] fix: flush the data lines of the bi-objective logger

Like those of the other loggers, they survive a crash of the experiment.
---
 src/logger_biobj.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 110194b..a86b6f1 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -705,6 +705,7 @@ static void logger_biobj_output(logger_biobj_data_t *logger, const int update_pe
         fprintf(indicator->dat_file, "%lu\t%.*e\t%.*e\n", (unsigned long)logger->num_func_evaluations,
                 logger->precision_f, indicator->overall_value, logger->precision_f,
                 coco_observer_targets_get_last_target(indicator->targets));
+        fflush(indicator->dat_file);
       }
 
       if (logger->log_nondom_mode == LOG_NONDOM_READ) {
@@ -725,12 +726,14 @@ static void logger_biobj_output(logger_biobj_data_t *logger, const int update_pe
       if (indicator->evaluation_logged) {
         fprintf(indicator->tdat_file, "%lu\t%.*e\n", (unsigned long)logger->num_func_evaluations, logger->precision_f,
                 indicator->overall_value);
+        fflush(indicator->tdat_file);
       }
 
       /* Log to the rdat file if the algorithm was restarted */
       if (logger->algorithm_restarted) {
         fprintf(indicator->rdat_file, "%lu\t%.*e\n", (unsigned long)logger->num_func_evaluations, logger->precision_f,
                 indicator->overall_value);
+        fflush(indicator->rdat_file);
       }
     }
   }
@@ -853,6 +856,7 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
         fprintf(logger->mdat_file, "%.*e\t", logger->precision_x, x[i]);
   }
   fprintf(logger->mdat_file, "\n");
+  fflush(logger->mdat_file);
 
   /* Free allocated memory */
   coco_free_memory(y);
-- 
2.43.0


From d6579f23f2ae7a9762442c50bbb49523778626a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:12 +0000
Subject: [PATCH 17/55] fix: do not use the option string as a format string

Options longer than 220 characters aborted the process, and a '%' in an option value was interpreted.
---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 45aa944..e556d7a 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -655,7 +655,7 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   if (keys) {
     for (i = 0; *(keys + i); i++) {
       if (i == 0)
-        cleaned_option_string = coco_strdupf(*(keys + i));
+        cleaned_option_string = coco_strdup(*(keys + i));
       else {
         string_pointer = cleaned_option_string;
         if (i % 2 == 0) {
-- 
2.43.0


From b3f4e3aa10acec4f64c8e72cb027fb8c933b3e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:52 +0000
Subject: [PATCH 18/55] fix: coco_strdupf allocates what the formatted string
 needs

Formatting more than 443 characters, for example a long result folder name, overran a static buffer.
---
 src/coco_string.c | 45 +++++++++++++--------------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/src/coco_string.c b/src/coco_string.c
index 9b54cc4..ec70b68 100644
--- a/src/coco_string.c
+++ b/src/coco_string.c
@@ -29,44 +29,25 @@ static char *coco_strdup(const char *string) {
   return duplicate;
 }
 
-/**
- * @brief The length of the buffer used in the coco_vstrdupf function.
- *
- * @note This should be handled differently!
- */
-#define COCO_VSTRDUPF_BUFLEN 444
-
 /**
  * @brief Formatted string duplication, with va_list arguments.
  */
 static char *coco_vstrdupf(const char *str, va_list args) {
-  static char buf[COCO_VSTRDUPF_BUFLEN];
-  long written;
-  /* apparently args can only be used once, therefore
-   * len = vsnprintf(NULL, 0, str, args) to find out the
-   * length does not work. Therefore we use a buffer
-   * which limits the max length. Longer strings should
-   * never appear anyway, so this is rather a non-issue. */
-
-#if 0
-  written = vsnprintf(buf, COCO_VSTRDUPF_BUFLEN - 2, str, args);
-  if (written < 0)
-  coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
-#else /* less safe alternative, if vsnprintf is not available */
-  assert(strlen(str) < COCO_VSTRDUPF_BUFLEN / 2 - 2);
-  if (strlen(str) >= COCO_VSTRDUPF_BUFLEN / 2 - 2)
-    coco_error("coco_vstrdupf(): string is too long");
-  written = vsprintf(buf, str, args);
-  if (written < 0)
-    coco_error("coco_vstrdupf(): vsprintf failed on '%s'", str);
-#endif
-  if (written > COCO_VSTRDUPF_BUFLEN - 3)
-    coco_error("coco_vstrdupf(): A suspiciously long string is tried to being duplicated '%s'", buf);
-  return coco_strdup(buf);
+  va_list args_copy;
+  char *buf;
+  int length;
+
+  va_copy(args_copy, args);
+  length = vsnprintf(NULL, 0, str, args_copy);
+  va_end(args_copy);
+  if (length < 0)
+    coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
+
+  buf = (char *)coco_allocate_memory((size_t)length + 1);
+  vsnprintf(buf, (size_t)length + 1, str, args);
+  return buf;
 }
 
-#undef COCO_VSTRDUPF_BUFLEN
-
 /**
  * Optional arguments are used like in sprintf.
  */
-- 
2.43.0


From dc21db5fc70d6ce8fbc05b49a920ebc76e2aa826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:27 +0000
Subject: [PATCH 19/55] fix: choose a new result folder also when the given
 name ends with a separator

A result folder given as 'NAME/' that already existed was written into (NAME/-0001).
---
 src/coco_utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index e556d7a..3aa4fae 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -299,6 +299,11 @@ static void coco_create_unique_directory(char **path) {
 
   int counter = 1;
   char *new_path;
+  size_t len = strlen(*path);
+
+  /* Remove trailing (back)slashes, otherwise the number would name a directory within the existing one */
+  while ((len > 1) && ((*path)[len - 1] == coco_path_separator[0]))
+    (*path)[--len] = '\0';
 
   if (coco_create_directory(*path) == 0) {
     /* Directory created */
-- 
2.43.0


From 6d6848bd9e0f3078836e7b2e7997cf7c8fb098b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:47 +0000
Subject: [PATCH 20/55] fix: bbob-old logger starts a new line when the info
 file already has content

State of an earlier experiment in the same process could make the header of a
block follow the previous block on the same line.
---
 src/logger_bbob_old.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index cedb7d9..238254d 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -248,7 +248,7 @@ static void logger_bbob_old_openIndexFile(logger_bbob_old_data_t *logger, const
                                           const char *dataFile_path, const char *suite_name) {
   /* to add the instance number TODO: this should be done outside to avoid redoing this for the .*dat files */
   char used_dataFile_path[COCO_PATH_MAX + 2] = {0};
-  int errnum, newLine = 0; /* newLine is at 1 if we need a new line in the info file */
+  int errnum;
   char *function_id_char;  /* TODO: consider adding them to logger */
   char file_name[COCO_PATH_MAX + 2] = {0};
   char file_path[COCO_PATH_MAX + 2] = {0};
@@ -292,10 +292,8 @@ static void logger_bbob_old_openIndexFile(logger_bbob_old_data_t *logger, const
         if (i < bbob_old_number_of_dimensions && bbob_old_dimensions_in_current_infoFile[i] == 0) {
           /* new dimension seen for the first time */
           bbob_old_dimensions_in_current_infoFile[i] = logger->number_of_variables;
-          newLine = 1;
         } else {
           if (i < bbob_old_number_of_dimensions) { /* dimension already present, need to create a new file */
-            newLine = 0;
             file_path[strlen(file_path) - strlen(bbob_old_infoFile_firstInstance_char) - 7] =
                 0; /* truncate the instance part */
             bbob_old_infoFile_firstInstance = logger->instance_id;
@@ -304,31 +302,25 @@ static void logger_bbob_old_openIndexFile(logger_bbob_old_data_t *logger, const
             strncat(file_path, "_i", COCO_PATH_MAX - strlen(file_name) - 1);
             strncat(file_path, bbob_old_infoFile_firstInstance_char, COCO_PATH_MAX - strlen(file_name) - 1);
             strncat(file_path, ".info", COCO_PATH_MAX - strlen(file_name) - 1);
-          } else { /* we have all dimensions */
-            newLine = 1;
           }
           for (j = 0; j < bbob_old_number_of_dimensions; j++) { /* new info file, reinitialize list of dims */
             bbob_old_dimensions_in_current_infoFile[j] = 0;
           }
           bbob_old_dimensions_in_current_infoFile[i] = logger->number_of_variables;
         }
-      } else {
-        if (bbob_old_current_funId != logger->function_id) {
-          /*new function in the same file */
-          newLine = 1;
-        }
       }
       *target_file = fopen(file_path, "a+"); /* in any case, we append */
       if (*target_file == NULL) {
         errnum = errno;
         logger_bbob_old_error_io(*target_file, errnum);
       }
-      if (tmp_file) { /* File already exists, new dim so just a new line. Also, close the tmp_file */
-        if (newLine) {
-          fprintf(*target_file, "\n");
-        }
+      if (tmp_file) {
         fclose(tmp_file);
       }
+      fseek(*target_file, 0, SEEK_END);
+      if (ftell(*target_file) > 0) { /* File already has content, start a new line */
+        fprintf(*target_file, "\n");
+      }
       /* data_format = coco_strdup("bbob-constrained"); */
       fprintf(*target_file,
               "suite = '%s', funcId = %d, DIM = %lu, Precision = %.3e, algId = '%s', coco_version = '%s', logger = "
-- 
2.43.0


From ca75ab4895e16a4010ba2dde6e78273c6e1659fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:47 +0000
Subject: [PATCH 21/55] fix: bbob-old logger wrote past the list of dimensions
 at the seventh dimension

---
 src/logger_bbob_old.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index 238254d..a0015b8 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -306,7 +306,7 @@ static void logger_bbob_old_openIndexFile(logger_bbob_old_data_t *logger, const
           for (j = 0; j < bbob_old_number_of_dimensions; j++) { /* new info file, reinitialize list of dims */
             bbob_old_dimensions_in_current_infoFile[j] = 0;
           }
-          bbob_old_dimensions_in_current_infoFile[i] = logger->number_of_variables;
+          bbob_old_dimensions_in_current_infoFile[0] = logger->number_of_variables;
         }
       }
       *target_file = fopen(file_path, "a+"); /* in any case, we append */
-- 
2.43.0


From ed13b3fe24f2f5f4280bc2052665954f4e7a35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:47 +0000
Subject: [PATCH 22/55] fix: a value that is not finite reaches no logarithmic
 target

Converting the infinite exponent to int was undefined, and with the toy
observer no target was reported any more after an infinite value.
---
 src/coco_observer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 727e134..4d1103b 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -138,6 +138,11 @@ static int coco_observer_log_targets_trigger(coco_observer_log_targets_t *log_ta
     return 0;
   }
 
+  /* A value that is not finite reaches no target */
+  if (coco_is_nan(given_value) || coco_is_inf(given_value)) {
+    return 0;
+  }
+
   number_of_targets_double = (double)(long)log_targets->number_of_triggers;
 
   /* The given_value is positive or zero */
-- 
2.43.0


From 2ec9bc941d8330d32833729b2dc7ca731780d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:26 +0000
Subject: [PATCH 23/55] fix: do not leak a nadir vector when a multi-objective
 problem is duplicated

---
 src/coco_problem.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 9d9f8ae..462fe47 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -248,7 +248,6 @@ static coco_problem_t *coco_problem_duplicate(const coco_problem_t *other) {
     }
 
   if (other->nadir_value) {
-    problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
     for (i = 0; i < problem->number_of_objectives; ++i) {
       problem->nadir_value[i] = other->nadir_value[i];
     }
-- 
2.43.0


From ca5a1b43b8e20364ef464ce427df326ea2d5f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:55 +0000
Subject: [PATCH 24/55] fix: do not leak the data of a newly created
 bi-objective instance

---
 src/suite_biobj_utilities.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index bbe33f6..9668b87 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -441,7 +441,9 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
         suite_biobj_get_new_instance((*new_inst_data), instance, instance1, all_bbob_functions, num_all_bbob_functions,
                                      sel_bbob_functions, num_sel_bbob_functions, dimensions, num_dimensions);
     if (must_free) {
+      suite_biobj_new_inst_free(*new_inst_data);
       coco_free_memory(*new_inst_data);
+      (*new_inst_data) = NULL;
     }
   }
 
-- 
2.43.0


From 3aa94da9ce30b727efd643084e7cd59105892873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:34 +0000
Subject: [PATCH 25/55] fix: search for new bi-objective instances also in the
 large-scale dimensions

---
 src/suite_biobj_utilities.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 9668b87..5367c18 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -59,6 +59,9 @@ static void suite_biobj_new_inst_free(void *stuff) {
   data->new_instances = NULL;
 }
 
+static coco_problem_t *coco_get_largescale_problem(const size_t function, const size_t dimension,
+                                                   const size_t instance);
+
 /**
  * @brief  Performs a few checks and returns whether the two given problem instances should break the search
  * for new instances in suite_biobj_get_new_instance().
@@ -71,9 +74,15 @@ static int suite_biobj_check_inst_consistency(const size_t dimension, size_t fun
   double norm;
   double *smallest_values_of_interest, *largest_values_of_interest;
   const double apart_enough = 1e-4;
+  const size_t dim_large_scale = 50; /* The bbob functions are not available for larger dimensions */
 
-  problem1 = coco_get_bbob_problem(function1, dimension, instance1);
-  problem2 = coco_get_bbob_problem(function2, dimension, instance2);
+  if (dimension < dim_large_scale) {
+    problem1 = coco_get_bbob_problem(function1, dimension, instance1);
+    problem2 = coco_get_bbob_problem(function2, dimension, instance2);
+  } else {
+    problem1 = coco_get_largescale_problem(function1, dimension, instance1);
+    problem2 = coco_get_largescale_problem(function2, dimension, instance2);
+  }
 
   /* Set smallest and largest values of interest to some value (not important which, it just needs to be a
    * vector of doubles of the right dimension) */
-- 
2.43.0


From a7dd3626fa5d3c64c7317c1747ff68de61dbee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:49 +0000
Subject: [PATCH 26/55] fix: find an option only where its name stands as a key

---
 src/coco_suite.c     |  8 ++--
 src/coco_utilities.c | 94 +++++++++++++++++++++++---------------------
 2 files changed, 53 insertions(+), 49 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 5b43a16..25f9853 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -510,8 +510,8 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if (suite_instance == NULL)
     return NULL;
 
-  year_found = coco_strfind(suite_instance, "year");
-  instances_found = coco_strfind(suite_instance, "instances");
+  year_found = coco_options_find(suite_instance, "year");
+  instances_found = coco_options_find(suite_instance, "instances");
 
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
@@ -776,8 +776,8 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    dim_found = coco_strfind(suite_options, "dimensions");
-    dim_idx_found = coco_strfind(suite_options, "dimension_indices");
+    dim_found = coco_options_find(suite_options, "dimensions");
+    dim_idx_found = coco_options_find(suite_options, "dimension_indices");
 
     if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 3aa4fae..92b94d0 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -750,6 +750,45 @@ static char *coco_option_keys_get_output_string(const coco_option_keys_t *option
   return string;
 }
 
+/**
+ * @brief Finds the value of the option with the given name in options of the form "name1: value1 name2: value2".
+ *
+ * The name must be a whole word that is followed by a colon and is not part of a text in double quotes.
+ *
+ * @return The index of the first character of the value or -1 if there is no such option.
+ */
+static long coco_options_find(const char *options, const char *name) {
+
+  const size_t name_length = strlen(name);
+  size_t i, end;
+
+  if (!options)
+    return -1;
+
+  for (i = 0; options[i] != '\0'; i++) {
+    if (options[i] == '\"') {
+      /* Skip the text in quotes (a quote without a counterpart has no special meaning) */
+      const char *closing_quote = strchr(&options[i + 1], '\"');
+      if (closing_quote != NULL)
+        i = (size_t)(closing_quote - options);
+      continue;
+    }
+    if ((strncmp(&options[i], name, name_length) == 0) &&
+        ((i == 0) || !(isalnum((unsigned char)options[i - 1]) || (strchr("_-.", options[i - 1]) != NULL)))) {
+      end = i + name_length;
+      while (isspace((unsigned char)options[end]))
+        end++;
+      if (options[end] == ':') {
+        end++;
+        while (isspace((unsigned char)options[end]))
+          end++;
+        return (long)end;
+      }
+    }
+  }
+  return -1;
+}
+
 /**
  * @brief Parses options in the form "name1: value1 name2: value2".
  *
@@ -761,25 +800,12 @@ static char *coco_option_keys_get_output_string(const coco_option_keys_t *option
  */
 static int coco_options_read(const char *options, const char *name, const char *format, void *pointer) {
 
-  long i1, i2;
-
-  if ((!options) || (strlen(options) == 0))
-    return 0;
-
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
-    return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
-
-  /* Remove trailing whitespaces */
-  while (isspace((unsigned char)options[i2]))
-    i2++;
+  const long i = coco_options_find(options, name);
 
-  if (i2 <= i1) {
+  if (i < 0)
     return 0;
-  }
 
-  return sscanf(&options[i2], format, pointer);
+  return sscanf(&options[i], format, pointer);
 }
 
 /**
@@ -833,29 +859,16 @@ static int coco_options_read_double(const char *options, const char *name, doubl
  */
 static int coco_options_read_string(const char *options, const char *name, char *pointer) {
 
-  long i1, i2;
+  const long i = coco_options_find(options, name);
 
-  if ((!options) || (strlen(options) == 0))
+  if (i < 0)
     return 0;
 
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
-    return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
-
-  /* Remove trailing white spaces */
-  while (isspace((unsigned char)options[i2]))
-    i2++;
-
-  if (i2 <= i1) {
-    return 0;
-  }
-
-  if (options[i2] == '\"') {
+  if (options[i] == '\"') {
     /* The value starts with a quote: read everything between two quotes into a string */
-    return sscanf(&options[i2], "\"%[^\"]\"", pointer);
+    return sscanf(&options[i], "\"%[^\"]\"", pointer);
   } else
-    return sscanf(&options[i2], "%s", pointer);
+    return sscanf(&options[i], "%s", pointer);
 }
 
 /**
@@ -872,20 +885,11 @@ static int coco_options_read_string(const char *options, const char *name, char
  */
 static int coco_options_read_values(const char *options, const char *name, char *pointer) {
 
-  long i1, i2;
+  long i2 = coco_options_find(options, name);
   int i;
 
-  if ((!options) || (strlen(options) == 0))
-    return 0;
-
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
+  if (i2 < 0)
     return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
-
-  if (i2 <= i1) {
-    return 0;
-  }
 
   i = 0;
   while (!isalpha((unsigned char)options[i2 + i]) && (options[i2 + i] != '\0')) {
-- 
2.43.0


From db78c7bce95f3ac7d9960d89fec076b313d47980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:49 +0000
Subject: [PATCH 27/55] fix: option keys may be separated by any white space
 when looking for unknown ones

---
 src/coco_utilities.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 92b94d0..62909ca 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -698,14 +698,12 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
         break;
       }
 
-      /* Disregard everything before the last space */
-      key = strrchr(string_to_parse, ' ');
-      if ((key == NULL) || (i == 0)) {
-        /* No spaces left (or this is the first key), everything is the key */
-        key = string_to_parse;
-      } else {
-        /* Move to the start of the key (one char after the space) */
-        key++;
+      /* Disregard everything before the last white space (unless this is the first key) */
+      key = string_to_parse;
+      if (i > 0) {
+        key += strlen(string_to_parse);
+        while ((key > string_to_parse) && !isspace((unsigned char)*(key - 1)))
+          key--;
       }
 
       /* Put the key in keys */
-- 
2.43.0


From 8dacc2001f9846d8b8bf14d1e1879cfc642675ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:48 +0000
Subject: [PATCH 28/55] fix: ignore a negative value of an option that must not
 be negative

---
 src/coco_utilities.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 62909ca..115549d 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -829,6 +829,12 @@ static int coco_options_read_int(const char *options, const char *name, int *poi
  * @return The number of successful assignments.
  */
 static int coco_options_read_size_t(const char *options, const char *name, size_t *pointer) {
+  const long i = coco_options_find(options, name);
+
+  if ((i >= 0) && (options[i] == '-')) {
+    coco_warning("coco_options_read_size_t(): Unsuitable option value (%s: must not be negative) ignored", name);
+    return 0;
+  }
   return coco_options_read(options, name, "%lu", pointer);
 }
 
-- 
2.43.0


From be7d06a403c61abb8768df25f0687a70aca616fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:56 +0000
Subject: [PATCH 29/55] fix: values of options that do not fit their buffer

---
 src/coco_observer.c  | 10 +++++-----
 src/coco_suite.c     | 10 +++++-----
 src/coco_utilities.c | 28 +++++++++++++++++++++++-----
 src/observer_bbob.c  |  2 +-
 src/observer_biobj.c |  4 ++--
 src/observer_rw.c    |  4 ++--
 src/observer_toy.c   |  2 +-
 7 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 4d1103b..64aa781 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -611,10 +611,10 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   algorithm_name = coco_allocate_string(COCO_PATH_MAX + 1);
   algorithm_info = coco_allocate_string(5 * COCO_PATH_MAX);
 
-  if (coco_options_read_string(observer_options, "outer_folder", outer_folder) == 0) {
+  if (coco_options_read_string(observer_options, "outer_folder", outer_folder, COCO_PATH_MAX + 1) == 0) {
     strcpy(outer_folder, "exdata");
   }
-  if (coco_options_read_string(observer_options, "result_folder", result_folder) == 0) {
+  if (coco_options_read_string(observer_options, "result_folder", result_folder, COCO_PATH_MAX + 1) == 0) {
     strcpy(result_folder, "default");
   }
 
@@ -627,11 +627,11 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   coco_free_memory(outer_folder);
   coco_free_memory(result_folder);
 
-  if (coco_options_read_string(observer_options, "algorithm_name", algorithm_name) == 0) {
+  if (coco_options_read_string(observer_options, "algorithm_name", algorithm_name, COCO_PATH_MAX + 1) == 0) {
     strcpy(algorithm_name, "ALG");
   }
 
-  if (coco_options_read_string(observer_options, "algorithm_info", algorithm_info) == 0) {
+  if (coco_options_read_string(observer_options, "algorithm_info", algorithm_info, 5 * COCO_PATH_MAX) == 0) {
     strcpy(algorithm_info, "");
   }
 
@@ -676,7 +676,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   }
 
   base_evaluation_triggers = coco_allocate_string(COCO_PATH_MAX + 1);
-  if (coco_options_read_string(observer_options, "base_evaluation_triggers", base_evaluation_triggers) == 0) {
+  if (coco_options_read_string(observer_options, "base_evaluation_triggers", base_evaluation_triggers, COCO_PATH_MAX + 1) == 0) {
     strcpy(base_evaluation_triggers, "1,2,5");
   }
 
diff --git a/src/coco_suite.c b/src/coco_suite.c
index 25f9853..53fc406 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -538,7 +538,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
     }
   }
 
-  instances = coco_allocate_string(COCO_MAX_INSTANCES);
+  instances = coco_allocate_string(strlen(suite_instance) + 1);
   if ((instances_found >= 0) && (parse_instances == 1)) {
     if (coco_options_read_values(suite_instance, "instances", instances) > 0) {
       result = coco_string_parse_ranges(instances, 1, 0, "instances",
@@ -752,7 +752,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
 
   /* Apply filter if any given by the suite_options */
   if ((suite_options) && (strlen(suite_options) > 0)) {
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if (coco_options_read_values(suite_options, "function_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_functions, "function_indices",
                                          COCO_MAX_INSTANCES);
@@ -764,7 +764,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if (coco_options_read_values(suite_options, "instance_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_instances, "instance_indices",
                                          COCO_MAX_INSTANCES);
@@ -790,7 +790,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       }
     }
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if ((dim_idx_found >= 0) && (parce_dim_idx == 1) &&
         (coco_options_read_values(suite_options, "dimension_indices", option_string) > 0)) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_dimensions, "dimension_indices",
@@ -804,7 +804,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if ((dim_found >= 0) && (parce_dim == 1) &&
         (coco_options_read_values(suite_options, "dimensions", option_string) > 0)) {
       ptr = option_string;
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 115549d..74da52a 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -858,21 +858,37 @@ static int coco_options_read_double(const char *options, const char *name, doubl
  * - name and value need to be separated by a colon (spaces are optional)
  * - the value corresponding to the given name needs to be a string - either a single word or multiple words
  * in double quotes
+ * - the value (including the terminating null character) needs to fit into size characters
  *
  * @return The number of successful assignments.
  */
-static int coco_options_read_string(const char *options, const char *name, char *pointer) {
+static int coco_options_read_string(const char *options, const char *name, char *pointer, const size_t size) {
 
   const long i = coco_options_find(options, name);
+  const char *value;
+  size_t length;
 
   if (i < 0)
     return 0;
 
-  if (options[i] == '\"') {
+  value = &options[i];
+  if (*value == '\"') {
     /* The value starts with a quote: read everything between two quotes into a string */
-    return sscanf(&options[i], "\"%[^\"]\"", pointer);
-  } else
-    return sscanf(&options[i], "%s", pointer);
+    value++;
+    length = strcspn(value, "\"");
+  } else {
+    length = strcspn(value, " \t\n\v\f\r");
+  }
+
+  if (length == 0)
+    return 0;
+  if (length >= size)
+    coco_error("coco_options_read_string(): The value of %s is longer than %lu characters", name,
+               (unsigned long)(size - 1));
+
+  memcpy(pointer, value, length);
+  pointer[length] = '\0';
+  return 1;
 }
 
 /**
@@ -885,6 +901,8 @@ static int coco_options_read_string(const char *options, const char *name, char
  * - values cannot include alphabetic characters
  * - name and value need to be separated by a colon (spaces are optional)
  *
+ * @note The space needed at pointer is at most that of options.
+ *
  * @return The number of successful assignments.
  */
 static int coco_options_read_values(const char *options, const char *name, char *pointer) {
diff --git a/src/observer_bbob.c b/src/observer_bbob.c
index 7cbcffd..2eb68e8 100644
--- a/src/observer_bbob.c
+++ b/src/observer_bbob.c
@@ -85,7 +85,7 @@ static void observer_bbob(coco_observer_t *observer, const char *options, coco_o
   observer_data->last_dat_file = coco_allocate_string(COCO_PATH_MAX + 1);
   strncpy(observer_data->last_dat_file, "init", COCO_PATH_MAX);
 
-  if (coco_options_read_string(options, "prefix", observer_data->prefix) == 0) {
+  if (coco_options_read_string(options, "prefix", observer_data->prefix, COCO_PATH_MAX + 1) == 0) {
     strcpy(observer_data->prefix, "bbobexp");
   }
 
diff --git a/src/observer_biobj.c b/src/observer_biobj.c
index b0fe9a8..01d698f 100644
--- a/src/observer_biobj.c
+++ b/src/observer_biobj.c
@@ -101,7 +101,7 @@ static void observer_biobj(coco_observer_t *observer, const char *options, coco_
   observer_data = (observer_biobj_data_t *)coco_allocate_memory(sizeof(*observer_data));
 
   observer_data->log_nondom_mode = LOG_NONDOM_ALL;
-  if (coco_options_read_string(options, "log_nondominated", string_value) > 0) {
+  if (coco_options_read_string(options, "log_nondominated", string_value, COCO_PATH_MAX + 1) > 0) {
     if (strcmp(string_value, "none") == 0)
       observer_data->log_nondom_mode = LOG_NONDOM_NONE;
     else if (strcmp(string_value, "final") == 0)
@@ -113,7 +113,7 @@ static void observer_biobj(coco_observer_t *observer, const char *options, coco_
   }
 
   observer_data->log_vars_mode = LOG_VARS_LOW_DIM;
-  if (coco_options_read_string(options, "log_decision_variables", string_value) > 0) {
+  if (coco_options_read_string(options, "log_decision_variables", string_value, COCO_PATH_MAX + 1) > 0) {
     if (strcmp(string_value, "none") == 0)
       observer_data->log_vars_mode = LOG_VARS_NEVER;
     else if (strcmp(string_value, "all") == 0)
diff --git a/src/observer_rw.c b/src/observer_rw.c
index 537bc1e..e9772a3 100644
--- a/src/observer_rw.c
+++ b/src/observer_rw.c
@@ -68,7 +68,7 @@ static void observer_rw(coco_observer_t *observer, const char *options, coco_opt
   observer_data = (observer_rw_data_t *)coco_allocate_memory(sizeof(*observer_data));
 
   observer_data->log_vars_mode = LOG_ALWAYS;
-  if (coco_options_read_string(options, "log_variables", string_value) > 0) {
+  if (coco_options_read_string(options, "log_variables", string_value, COCO_PATH_MAX + 1) > 0) {
     if (strcmp(string_value, "none") == 0)
       observer_data->log_vars_mode = LOG_NEVER;
     else if (strcmp(string_value, "all") == 0)
@@ -78,7 +78,7 @@ static void observer_rw(coco_observer_t *observer, const char *options, coco_opt
   }
 
   observer_data->log_cons_mode = LOG_ALWAYS;
-  if (coco_options_read_string(options, "log_constraints", string_value) > 0) {
+  if (coco_options_read_string(options, "log_constraints", string_value, COCO_PATH_MAX + 1) > 0) {
     if (strcmp(string_value, "none") == 0)
       observer_data->log_cons_mode = LOG_NEVER;
     else if (strcmp(string_value, "all") == 0)
diff --git a/src/observer_toy.c b/src/observer_toy.c
index 0627455..d1b9b35 100644
--- a/src/observer_toy.c
+++ b/src/observer_toy.c
@@ -53,7 +53,7 @@ static void observer_toy(coco_observer_t *observer, const char *options, coco_op
 
   /* Read file_name and number_of_targets from the options and use them to initialize the observer */
   string_value = coco_allocate_string(COCO_PATH_MAX + 1);
-  if (coco_options_read_string(options, "file_name", string_value) == 0) {
+  if (coco_options_read_string(options, "file_name", string_value, COCO_PATH_MAX + 1) == 0) {
     strcpy(string_value, "first_hitting_times.dat");
   }
 
-- 
2.43.0


From de1254b0d3486c12b50e78a1974f8990a31fb362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:08 +0000
Subject: [PATCH 30/55] fix: use the default base evaluation triggers when the
 given ones cannot be parsed

---
 src/coco_observer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 64aa781..7e5036a 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -577,6 +577,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   size_t number_evaluation_triggers;
   double log_target_precision, lin_target_precision;
   char *base_evaluation_triggers;
+  size_t *base_evaluations;
 
   coco_option_keys_t *known_option_keys, *given_option_keys, *additional_option_keys, *redundant_option_keys;
 
@@ -679,6 +680,16 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   if (coco_options_read_string(observer_options, "base_evaluation_triggers", base_evaluation_triggers, COCO_PATH_MAX + 1) == 0) {
     strcpy(base_evaluation_triggers, "1,2,5");
   }
+  base_evaluations =
+      coco_string_parse_ranges(base_evaluation_triggers, 1, 0, "base_evaluation_triggers", COCO_MAX_EVALS_TO_LOG);
+  if (base_evaluations == NULL) {
+    coco_warning("coco_observer(): Unsuitable observer option value "
+                 "(base_evaluation_triggers: %s) ignored",
+                 base_evaluation_triggers);
+    strcpy(base_evaluation_triggers, "1,2,5");
+  } else {
+    coco_free_memory(base_evaluations);
+  }
 
   precision_x = 8;
   if (coco_options_read_int(observer_options, "precision_x", &precision_x) != 0) {
-- 
2.43.0


From f3ddec583c9e62ca6282a0f39d513697a7bd61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:53 +0000
Subject: [PATCH 31/55] fix: ignore a lin_target_precision that is too small to
 round with

---
 src/coco_observer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 7e5036a..5bc6c36 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -658,9 +658,10 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
 
   lin_target_precision = 1e-5;
   if (coco_options_read_double(observer_options, "lin_target_precision", &lin_target_precision) != 0) {
-    if (lin_target_precision <= 0) {
+    /* Not larger than the minimal precision of coco_double_round_up_with_precision() (or not a number) */
+    if (!(lin_target_precision > 1e-12)) {
       coco_warning("coco_observer(): Unsuitable observer option value "
-                   "(lin_target_precision: %f) ignored",
+                   "(lin_target_precision: %g) ignored",
                    lin_target_precision);
       lin_target_precision = 1e-5;
     }
-- 
2.43.0


From aca632f060caee1f329eee02bab91dafea234118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:53 +0000
Subject: [PATCH 32/55] fix: ignore values of target trigger options for which
 no target can be computed

---
 src/coco_observer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 5bc6c36..771b86e 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -638,7 +638,8 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
 
   number_target_triggers = 100;
   if (coco_options_read_size_t(observer_options, "number_target_triggers", &number_target_triggers) != 0) {
-    if (number_target_triggers < 0) {
+    /* The exponents of the targets need to be representable as integers */
+    if (number_target_triggers > 1000000) {
       coco_warning("coco_observer(): Unsuitable observer option value "
                    "(number_target_triggers: %lu) ignored",
                    number_target_triggers);
@@ -648,9 +649,10 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
 
   log_target_precision = 1e-8;
   if (coco_options_read_double(observer_options, "log_target_precision", &log_target_precision) != 0) {
-    if (log_target_precision <= 0) {
+    /* The targets down to a tenth of the precision need to be positive and finite */
+    if (!(log_target_precision >= DBL_MIN * 10) || coco_is_inf(log_target_precision)) {
       coco_warning("coco_observer(): Unsuitable observer option value "
-                   "(log_target_precision: %f) ignored",
+                   "(log_target_precision: %g) ignored",
                    log_target_precision);
       log_target_precision = 1e-8;
     }
-- 
2.43.0


From 7e105d5d9e0b11a6be7d8924c977ba8e10b2a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:53 +0000
Subject: [PATCH 33/55] fix: option string that consists of quotation marks
 only

---
 src/coco_utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 74da52a..fae78c2 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -680,6 +680,11 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   }
   coco_free_memory(keys);
 
+  /* Nothing is left when the string contains no other character than quotation marks */
+  if (cleaned_option_string == NULL) {
+    return NULL;
+  }
+
   /* Split the options w.r.t ':' */
   keys = coco_string_split(cleaned_option_string, ':');
 
-- 
2.43.0


From 402833f92a0361dd2b1329c7748af14b76d16192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:13 +0000
Subject: [PATCH 34/55] fix: names and options of Python suites and observers
 are strings as given, not bytes

---
 build/python/src/cocoex/interface.pyx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index f2adcbc..5929bf2 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -148,10 +148,10 @@ cdef class Suite:
         try:
             suite = coco_suite(self._name, self._instance, self._options)
         except:
-            raise NoSuchSuiteException(self._name)
+            raise NoSuchSuiteException(self.name)
 
         if suite == NULL:
-            raise NoSuchSuiteException(self._name)
+            raise NoSuchSuiteException(self.name)
 
         while True:
             old_level = log_level('warning')
@@ -200,7 +200,7 @@ cdef class Suite:
             self._current_problem = coco_suite_get_problem(
                                         self.suite, index)
             self.current_problem_ = Problem_init(self._current_problem,
-                                                True, self._name)
+                                                True, self.name)
             self.current_problem_.observe_with(observer)
         return self.current_problem_
     def get_problem(self, id, observer=None):
@@ -243,7 +243,7 @@ cdef class Suite:
             index = self._ids.index(id)
         try:
             return Problem_init(coco_suite_get_problem(self.suite, self._indices[index]),
-                                True, self._name).observe_with(observer)
+                                True, self.name).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, str(id))
 
@@ -280,7 +280,7 @@ cdef class Suite:
         try:
             return Problem_init(coco_suite_get_problem_by_function_dimension_instance(self.suite, _function,
                                                                                       _dimension, _instance),
-                                True, self._name).observe_with(observer)
+                                True, self.name).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, 'function: {}, dimension: {}, instance: {}'.format(function,
                                                                                                        dimension,
@@ -400,17 +400,17 @@ cdef class Suite:
     @property
     def name(self):
         """see __init__.py"""
-        return self._name
+        return self._name.decode('ascii')
     @property
     def instance(self):
         """instance of this suite as used to instantiate the suite via
         `Suite(name, instance, ...)`"""
-        return self._instance
+        return self._instance.decode('ascii')
     @property
     def options(self):
         """options for this suite as used to instantiate the suite via
         `Suite(name, instance, options)`"""
-        return self._options
+        return self._options.decode('ascii')
 
     @property
     def info(self):
@@ -495,10 +495,10 @@ cdef class Observer:
         """name of the observer as used with `Observer(name, ...)` to instantiate
         `self` before.
         """
-        return self._name
+        return self._name.decode('ascii')
     @property
     def options(self):
-        return self._options
+        return self._options.decode('ascii')
     @property
     def state(self):
         return self._state
-- 
2.43.0


From 645599810a0d26f490bf9fa451bf5666047ce973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:56 +0000
Subject: [PATCH 35/55] fix: reading the evaluations or initial solution of a
 freed Python problem crashed the interpreter

---
 build/python/src/cocoex/interface.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index 5929bf2..0fb63c0 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -723,6 +723,8 @@ cdef class Problem:
     @property
     def initial_solution(self):
         """return feasible initial solution"""
+        if self.problem is NULL:
+            raise InvalidProblemException()
         coco_problem_get_initial_solution(self.problem,
                                           <double *>np.PyArray_DATA(self.x_initial))
         return np.array(self.x_initial, copy=True)
@@ -771,9 +773,13 @@ cdef class Problem:
         return self._upper_bounds
     @property
     def evaluations(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations(self.problem)
     @property
     def evaluations_constraints(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations_constraints(self.problem)
     @property
     def final_target_hit(self):
-- 
2.43.0


From 5ad67dc328c576adf94cbdeb4c475e3cd442590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:56 +0000
Subject: [PATCH 36/55] fix: Observer.free() of the Python interface failed,
 and use after free crashed

---
 build/python/src/cocoex/interface.pyx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index 0fb63c0..0c7f5d9 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -475,6 +475,8 @@ cdef class Observer:
     def _update_current_observer_global(self):
         """assign the global _current_observer variable to self._observer,
         for purely technical reasons"""
+        if self._state == 'deactivated':
+            raise ValueError("Observer has been finalized/free'ed")
         global _current_observer
         _current_observer = self._observer
 
@@ -488,6 +490,10 @@ cdef class Observer:
     def signal_restart(self, problem: Problem):
         """Signal a restart on `problem: Problem` by calling `coco_observer_signal_restart`.
         """
+        if self._state == 'deactivated':
+            raise ValueError("Observer has been finalized/free'ed")
+        if problem.problem is NULL:
+            raise InvalidProblemException()
         coco_observer_signal_restart(self._observer, problem.problem)
 
     @property
@@ -504,10 +510,13 @@ cdef class Observer:
         return self._state
     @property
     def result_folder(self):
+        if self._state == 'deactivated':
+            raise ValueError("Observer has been finalized/free'ed")
         return coco_observer_get_result_folder(self._observer)
 
     def free(self):
-        self.__dealloc__()
+        if self._observer !=  NULL:  # for some reason __dealloc__ cannot be called here
+            coco_observer_free(self._observer)
         self._observer = NULL
         self._state = 'deactivated'
     def __dealloc__(self):
-- 
2.43.0


From d0d21539b39c8bd390a02df062e58cfd1620baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:56 +0000
Subject: [PATCH 37/55] fix: values with commas or spaces in a dict of observer
 options

---
 build/python/src/cocoex/interface.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index 0c7f5d9..1ed3892 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -463,10 +463,9 @@ cdef class Observer:
 
     def __cinit__(self, name, options):
         if isinstance(options, dict):
-            s = str(options).replace(',', ' ')
-            for c in ["u'", 'u"', "'", '"', "{", "}"]:
-                s = s.replace(c, '')
-            options = s
+            options = ' '.join(
+                ('%s: "%s"' if any(c.isspace() for c in str(v)) and '"' not in str(v) else '%s: %s')
+                % (k, v) for k, v in options.items())
         self._name = _bstring(name)
         self._options = _bstring(options if options is not None else "")
         self._observer = coco_observer(self._name, self._options)
-- 
2.43.0


From d30d1b447e8432e48c0bb3369ccb4a97c818471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:38 +0000
Subject: [PATCH 38/55] fix: a Python problem keeps its C suite alive, which is
 needed to attach an observer

---
 build/python/src/cocoex/interface.pyx | 35 ++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index 1ed3892..53598d3 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -97,9 +97,22 @@ cdef bytes _bstring(s):
 cdef coco_observer_t* _current_observer
 
 
+cdef class _SuitePointer:
+    """owner of a C suite.
+
+    Shared between a `Suite` and its problems, because attaching an observer
+    to a problem makes use of the C suite, even when the `Suite` is gone.
+    """
+    cdef coco_suite_t* suite
+    def __dealloc__(self):
+        if self.suite:
+            coco_suite_free(self.suite)
+
+
 cdef class Suite:
     """see __init__.py"""
     cdef coco_suite_t* suite  # AKA _self
+    cdef _SuitePointer _suite_pointer  # frees suite
     cdef coco_problem_t* _current_problem
     cdef bytes _name  # used in @property name
     cdef bytes _instance
@@ -166,6 +179,8 @@ cdef class Suite:
             self._number_of_objectives.append(coco_problem_get_number_of_objectives(p))
         coco_suite_free(suite)
         self.suite = coco_suite(self._name, self._instance, self._options)
+        self._suite_pointer = _SuitePointer()
+        self._suite_pointer.suite = self.suite
         self.initialized = True
         return self
     def reset(self):
@@ -200,7 +215,7 @@ cdef class Suite:
             self._current_problem = coco_suite_get_problem(
                                         self.suite, index)
             self.current_problem_ = Problem_init(self._current_problem,
-                                                True, self.name)
+                                                True, self.name, self._suite_pointer)
             self.current_problem_.observe_with(observer)
         return self.current_problem_
     def get_problem(self, id, observer=None):
@@ -243,7 +258,7 @@ cdef class Suite:
             index = self._ids.index(id)
         try:
             return Problem_init(coco_suite_get_problem(self.suite, self._indices[index]),
-                                True, self.name).observe_with(observer)
+                                True, self.name, self._suite_pointer).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, str(id))
 
@@ -280,7 +295,7 @@ cdef class Suite:
         try:
             return Problem_init(coco_suite_get_problem_by_function_dimension_instance(self.suite, _function,
                                                                                       _dimension, _instance),
-                                True, self.name).observe_with(observer)
+                                True, self.name, self._suite_pointer).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, 'function: {}, dimension: {}, instance: {}'.format(function,
                                                                                                        dimension,
@@ -293,13 +308,11 @@ cdef class Suite:
 
     def free(self):
         """free underlying C structures"""
-        if self.suite:  # for some reason __dealloc__ cannot be called here
+        if self.suite:
             coco_suite_free(self.suite)
+            self._suite_pointer.suite = NULL
         self.suite = NULL
         self.initialized = False  # not (yet) visible from outside
-    def __dealloc__(self):
-        if self.suite:
-            coco_suite_free(self.suite)
 
     def find_problem_ids(self, *args, **kwargs):
         """has been renamed to `ids`"""
@@ -523,14 +536,15 @@ cdef class Observer:
             coco_observer_free(self._observer)
 
 
-cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None):
+cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None, _SuitePointer suite_pointer=None):
     """`Problem` class instance initialization wrapper passing
     a `problem_t*` C-variable to `__init__`.
 
     This is necessary because __cinit__ cannot be defined as cdef, only as def.
     """
-    res = Problem()
+    cdef Problem res = Problem()
     res._suite_name = suite_name
+    res._suite_pointer = suite_pointer
     return res._initialize(problem, free)
 
 
@@ -548,6 +562,7 @@ cdef class Problem:
     cdef size_t _number_of_constraints
     cdef size_t _number_of_integer_variables
     cdef _suite_name  # for the record
+    cdef _SuitePointer _suite_pointer  # keeps the C suite alive
     cdef _list_of_observers  # for the record
     cdef _problem_index  # for the record, this is not public but used in index property
     cdef _do_free
@@ -672,6 +687,8 @@ cdef class Problem:
         """
         if observer:
             assert self.problem
+            if self._suite_pointer is not None and self._suite_pointer.suite is NULL:
+                raise ValueError("Suite has been finalized/free'ed")
             observer._update_current_observer_global()
             self.problem = coco_problem_add_observer(self.problem, _current_observer)
             self._list_of_observers.append(observer)
-- 
2.43.0


From 0e117a259381c6eb8c52325f8fa6fc2dffd1089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:38 +0000
Subject: [PATCH 39/55] fix: BareProblem.suite_name pointed into a string that
 may be gone

---
 build/python/src/cocoex/bare_problem.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index dfeac09..758969b 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -58,7 +58,7 @@ cdef class BareProblem:
     """
 
     cdef coco_problem_t *_problem
-    cdef readonly char* suite_name
+    cdef readonly str suite_name
     cdef readonly char* id
     cdef readonly int function
     cdef readonly int dimension
-- 
2.43.0


From 5399335a2d2557ee219dc394191ddec0502ab1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:38 +0000
Subject: [PATCH 40/55] fix: BareProblem raises the documented exception when
 the problem does not exist

---
 build/python/src/cocoex/bare_problem.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index 758969b..79a827d 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -98,6 +98,9 @@ cdef class BareProblem:
         self.instance = instance
         self._problem = NULL
         if suite_name == "bbob":
+            # the C function would terminate the process
+            if not (1 <= function <= 24 and 1 <= dimension <= 40 and instance >= 0):
+                raise NoSuchProblemException(suite_name, function)
             self._problem = coco_get_bbob_problem(function, dimension, instance)
             if self._problem == NULL:
                 # FIXME: Possibly extend Exception to include dimension and instance?
-- 
2.43.0


From 606aa5d140b83d98d3694c4481a246b01db805dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:38 +0000
Subject: [PATCH 41/55] fix: BareProblem read outside of arguments that are too
 short

---
 build/python/src/cocoex/bare_problem.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index 79a827d..45d5117 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -150,6 +150,8 @@ cdef class BareProblem:
         if x.ndim == 1:
             # Evaluate a single parameter
             xi = np.array(x, dtype=float)
+            if xi.shape[0] != self.dimension:
+                raise ValueError("expected %d variables, got %d" % (self.dimension, xi.shape[0]))
             coco_evaluate_function(self._problem, &xi[0], &y)
             return y
         elif x.ndim == 2:
@@ -157,6 +159,8 @@ cdef class BareProblem:
             X = x
             N = X.shape[0]
             D = X.shape[1]
+            if D != self.dimension:
+                raise ValueError("expected %d variables, got %d" % (self.dimension, D))
             Y = np.zeros(N, dtype=np.float64)
             y_view = Y
             for i in range(N):
-- 
2.43.0


From 4e913073cb09d3cd9b9a669ee09317e65411aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:27 +0000
Subject: [PATCH 42/55] fix: the Java interface read outside of solutions that
 are too short

---
 build/java/CocoJNI.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/build/java/CocoJNI.c b/build/java/CocoJNI.c
index 37af937..c44c4ae 100644
--- a/build/java/CocoJNI.c
+++ b/build/java/CocoJNI.c
@@ -15,6 +15,22 @@
 #include "coco.c"
 #include "CocoJNI.h"
 
+/*
+ * Throws an exception and returns 1 if jx is not an array with as many elements as the problem has variables,
+ * returns 0 otherwise
+ */
+static int wrong_size(JNIEnv *jenv, const coco_problem_t *problem, jdoubleArray jx) {
+
+  jclass Exception;
+
+  if ((jx != NULL) && ((size_t) (*jenv)->GetArrayLength(jenv, jx) == coco_problem_get_dimension(problem)))
+    return 0;
+
+  Exception = (*jenv)->FindClass(jenv, "java/lang/IllegalArgumentException");
+  (*jenv)->ThrowNew(jenv, Exception, "The size of the solution does not match the problem dimension\n");
+  return 1;
+}
+
 /*
  * Class:     CocoJNI
  * Method:    cocoSetLogLevel
@@ -336,6 +352,9 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoEvaluateFunction
   problem = (coco_problem_t *) jproblem_pointer;
   number_of_objectives = (int) coco_problem_get_number_of_objectives(problem);
 
+  if (wrong_size(jenv, problem, jx))
+    return NULL;
+
   /* Call coco_evaluate_function */
   x = (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
   y = coco_allocate_vector(number_of_objectives);
@@ -374,6 +393,9 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoEvaluateConstraint
   problem = (coco_problem_t *) jproblem_pointer;
   number_of_constraints = (int) coco_problem_get_number_of_constraints(problem);
 
+  if (wrong_size(jenv, problem, jx))
+    return NULL;
+
   /* Call coco_evaluate_constraint */
   x = (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
   y = coco_allocate_vector(number_of_constraints);
@@ -408,6 +430,9 @@ JNIEXPORT void JNICALL Java_CocoJNI_cocoRecommendSolution
 
   problem = (coco_problem_t *) jproblem_pointer;
 
+  if (wrong_size(jenv, problem, jx))
+    return;
+
   /* Call coco_evaluate_constraint */
   x = (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
   coco_recommend_solution(problem, x);
-- 
2.43.0


From dbc2bf7fde7070f5ddcff13d91469ab85385271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 43/55] fix: ascetime lost seconds to rounding errors,
 ascetime(33*60+21) was 0h33:20

---
 build/python/src/cocoex/utilities.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index cf1fed6..7a4dfee 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -574,14 +574,13 @@ def ascetime(sec, decimals=0):
     """
     if sec < 0:  # sort-of ValueError?
         return "%.1f sec" % (sec)
-    ds = str(sec % 1)[1:2+decimals] if decimals else ""  # fraction
+    ds = np.format_float_positional(sec % 1, trim='0')[1:2+decimals] if decimals else ""  # fraction
     # if sec < 10:  # breaks backwards compatibility of processing printed output
     #     return "%d%s sec" % (sec, str(sec % 1)[1:2+max((1, decimals))])
     if sec < 100 and decimals:
         return "%d%s sec" % (sec, ds)
-    h = sec / 60**2  # hours
-    m = 60 * (h % 1)  # minutes
-    s = 60 * (m % 1)  # seconds
+    h, s = divmod(int(sec), 60**2)  # hours
+    m, s = divmod(s, 60)  # minutes and seconds
     return "%dh%02d:%02d%s" % (h, m, s, ds)
 
 
-- 
2.43.0


From 7ef6f6974bb16b67600e45e412d5b4d66c484927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 44/55] fix: ObserverOptions.as_string dropped commas and
 letters of the values

---
 build/python/src/cocoex/utilities.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index 7a4dfee..c256e63 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -240,10 +240,9 @@ class ObserverOptions(dict):
         """string representation which is accepted by `Observer` class,
         which calls the underlying C interface
         """
-        s = str(self).replace(',', ' ')
-        for c in ["u'", "'", "{", "}"]:
-            s = s.replace(c, '')
-        return s
+        return ' '.join(
+            ('%s: "%s"' if any(c.isspace() for c in str(v)) and '"' not in str(v) else '%s: %s')
+            % (k, v) for k, v in self.items())
 
 
 class ProblemNonAnytime:
-- 
2.43.0


From cb4181340fac860cee5b77ddb3890d7a5f6ac684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 45/55] fix: ExperimentRepeater.trials(problem, instance)
 recorded an instance that was never run

---
 build/python/src/cocoex/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index c256e63..0817b8b 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -785,7 +785,7 @@ class ExperimentRepeater:
         """
         dd = self.data(problem)  # dictionary of all data related to problem
         if instance is not None:
-            return len(dd[instance])
+            return len(dd.get(instance, ()))
         return [len(dd[iinst]) for iinst in sorted(dd)]
     def successes(self, problem):
         """return `list` of successes per instance"""
-- 
2.43.0


From 9775c81a2d0bb005560ca484a59ee1ac9aa48409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 46/55] fix: args_to_dict rejected a known name that starts
 another known name

---
 build/python/src/cocoex/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index 0817b8b..0b9424a 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -90,7 +90,7 @@ def args_to_dict(args, known_names, specials=None, split='=',
                 raise ValueError(name, 'is unknown special')
         for known_name in known_names if known_names is not None else [name]:
             # check that name is an abbreviation of known_name and unique in known_names
-            if known_name.startswith(name) and (
+            if known_name == name or known_name.startswith(name) and (
                         sum([other.startswith(name)
                              for other in known_names or [name]]) == 1):
                 if known_name in res:
-- 
2.43.0


From b8684b496f8f9d47fbc0c29f74ff97d4a1caebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:19 +0000
Subject: [PATCH 47/55] fix: random_search returned a wrong point on
 constrained problems

---
 build/python/src/cocoex/solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/solvers.py b/build/python/src/cocoex/solvers.py
index d5218fe..311c101 100644
--- a/build/python/src/cocoex/solvers.py
+++ b/build/python/src/cocoex/solvers.py
@@ -16,7 +16,9 @@ def random_search(fun, lbounds, ubounds, budget):
         X = lbounds + (ubounds - lbounds) * np.random.rand(chunk, dim)
         if fun.number_of_constraints > 0:
             FC = [(fun(x), fun.constraint(x)) for x in X]  # call  objective and constraints
-            F = [fc[0] for fc in FC if all(fc[1] <= 0)]
+            feasible = [all(fc[1] <= 0) for fc in FC]
+            F = [fc[0] for fc, ok in zip(FC, feasible) if ok]
+            X = X[feasible]  # remain aligned with F
             budget -= chunk  # one more to account for constraint evals
         else:
             F = [fun(x) for x in X]
-- 
2.43.0


From b09a827f5bac9758ba440307f940df5b608523fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:43 +0000
Subject: [PATCH 48/55] fix: coco_remove_directory() must not follow symbolic
 links out of the directory

---
 src/coco_platform.h  |  3 +++
 src/coco_utilities.c | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/coco_platform.h b/src/coco_platform.h
index 3d3d5f6..8b83532 100644
--- a/src/coco_platform.h
+++ b/src/coco_platform.h
@@ -82,6 +82,9 @@ extern "C" {
 int rmdir(const char *pathname);
 int unlink(const char *file_name);
 int mkdir(const char *pathname, mode_t mode);
+#if defined(HAVE_STAT)
+int lstat(const char *pathname, struct stat *buf);
+#endif
 /** @endcond */
 #endif
 
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index fae78c2..912fc8d 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -164,6 +164,21 @@ static int coco_file_exists(const char *path) {
   return res;
 }
 
+#if !defined(_MSC_VER)
+/**
+ * @brief Checks if the given path is a symbolic link (always false on platforms without lstat).
+ */
+static int coco_is_symbolic_link(const char *path) {
+#if defined(HAVE_STAT)
+  struct stat buf;
+  return (!lstat(path, &buf) && S_ISLNK(buf.st_mode));
+#else
+  (void)path; /* To silence the compiler */
+  return 0;
+#endif
+}
+#endif
+
 /**
  * @brief Calls the right mkdir() method (depending on the platform) with full privileges for the user.
  * If the created directory has not existed before, returns 0, otherwise returns 1. If the directory has
@@ -411,11 +426,11 @@ int coco_remove_directory(const char *path) {
 
       buf = coco_strdupf("%s/%s", path, p->d_name);
       if (buf) {
-        if (coco_directory_exists(buf)) {
+        if (coco_directory_exists(buf) && !coco_is_symbolic_link(buf)) {
           /* Buf is a directory, recurse on it */
           r2 = coco_remove_directory(buf);
         } else {
-          /* Buf is a file, delete it */
+          /* Buf is a file or a symbolic link (whose target must not be touched), delete it */
           r2 = unlink(buf);
         }
       }
-- 
2.43.0


From 7347e6fde6e29acfc358db9fc5d9fc4610dcfc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:56 +0000
Subject: [PATCH 49/55] fix: log the noise-free values of noisy problems that
 another observer watches, too

---
 src/logger_bbob.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 7f42af0..eb0e8cd 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -356,6 +356,16 @@ static void logger_bbob_initialize(logger_bbob_data_t *logger, int is_opt_known)
   coco_debug("Ended   logger_bbob_initialize()");
 }
 
+/**
+ * @brief Returns the noisy problem below the given one (which might be observed by other loggers) or NULL if there is
+ * none.
+ */
+static const coco_problem_t *logger_bbob_get_noisy_problem(coco_problem_t *problem) {
+  while ((problem->is_noisy == 0) && (problem->problem_free_function == coco_problem_transformed_free))
+    problem = coco_problem_transformed_get_inner_problem(problem);
+  return (problem->is_noisy == 0) ? NULL : problem;
+}
+
 /**
  * @brief Evaluates the function, increases the number of evaluations and outputs information according to
  * observer options.
@@ -366,6 +376,7 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
   double *constraints = NULL;
   logger_bbob_data_t *logger = (logger_bbob_data_t *)coco_problem_transformed_get_data(problem);
   coco_problem_t *inner_problem = coco_problem_transformed_get_inner_problem(problem);
+  const coco_problem_t *noisy_problem;
   const int is_feasible = problem->number_of_constraints <= 0 || coco_is_feasible(inner_problem, x, NULL);
 
   if (problem->is_tainted || inner_problem->is_tainted) {
@@ -388,9 +399,10 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
   logger->num_func_evaluations++;
   logger->current_value = y[0];
   y_logged = y[0];
-  if (inner_problem->is_noisy == 1) {
-    logger->current_value = inner_problem->last_noise_free_values[0];
-    y_logged = inner_problem->last_noise_free_values[0];
+  noisy_problem = logger_bbob_get_noisy_problem(inner_problem);
+  if (noisy_problem != NULL) {
+    logger->current_value = noisy_problem->last_noise_free_values[0];
+    y_logged = noisy_problem->last_noise_free_values[0];
   }
   if (coco_is_nan(y_logged))
     y_logged = NAN_FOR_LOGGING;
-- 
2.43.0


From f629df868609e829f6342331d91e0027a0e1831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:56 +0000
Subject: [PATCH 50/55] fix: no buffer overflow and no format interpretation in
 the Matlab messages

---
 src/coco_runtime_matlab.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/coco_runtime_matlab.c b/src/coco_runtime_matlab.c
index 8b60caa..b425f0c 100644
--- a/src/coco_runtime_matlab.c
+++ b/src/coco_runtime_matlab.c
@@ -18,13 +18,12 @@ void coco_error(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   mexPrintf("COCO FATAL ERROR: ");
   va_start(args, message);
-  n = vsprintf(buffer, message, args);
+  vsnprintf(buffer, sizeof(buffer), message, args);
   va_end(args);
-  mexPrintf(buffer);
+  mexPrintf("%s", buffer);
 
   mexPrintf("\n");
   exit(EXIT_FAILURE);
@@ -34,14 +33,13 @@ void coco_warning(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   if (coco_log_level >= COCO_WARNING) {
     mexPrintf("COCO WARNING: ");
     va_start(args, message);
-    n = vsprintf(buffer, message, args);
+    vsnprintf(buffer, sizeof(buffer), message, args);
     va_end(args);
-    mexPrintf(buffer);
+    mexPrintf("%s", buffer);
 
     mexPrintf("\n");
   }
@@ -51,14 +49,13 @@ void coco_info(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   if (coco_log_level >= COCO_INFO) {
     mexPrintf("COCO INFO: ");
     va_start(args, message);
-    n = vsprintf(buffer, message, args);
+    vsnprintf(buffer, sizeof(buffer), message, args);
     va_end(args);
-    mexPrintf(buffer);
+    mexPrintf("%s", buffer);
     mexPrintf("\n");
   }
 }
@@ -71,13 +68,12 @@ void coco_info_partial(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   if (coco_log_level >= COCO_INFO) {
     va_start(args, message);
-    n = vsprintf(buffer, message, args);
+    vsnprintf(buffer, sizeof(buffer), message, args);
     va_end(args);
-    mexPrintf(buffer);
+    mexPrintf("%s", buffer);
   }
 }
 
@@ -85,14 +81,13 @@ void coco_debug(const char *message, ...) {
   va_list args;
 
   char buffer[500];
-  int n;
 
   if (coco_log_level >= COCO_DEBUG) {
     mexPrintf("COCO DEBUG: ");
     va_start(args, message);
-    n = vsprintf(buffer, message, args);
+    vsnprintf(buffer, sizeof(buffer), message, args);
     va_end(args);
-    mexPrintf(buffer);
+    mexPrintf("%s", buffer);
     mexPrintf("\n");
   }
 }
-- 
2.43.0


From 6c1f5b8fc3ee7146384e24d9df8828ee43829ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:56 +0000
Subject: [PATCH 51/55] fix: Matlab interface must not write 8 bytes into int32
 results

---
 build/matlab/cocoCall.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/build/matlab/cocoCall.c b/build/matlab/cocoCall.c
index 4d5fa78..d68e7d8 100644
--- a/build/matlab/cocoCall.c
+++ b/build/matlab/cocoCall.c
@@ -204,7 +204,7 @@ void cocoProblemFinalTargetHit(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -215,7 +215,7 @@ void cocoProblemFinalTargetHit(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
+    res = (int *)mxGetData(plhs[0]);
     res[0] = coco_problem_final_target_hit(problem);
 }
 
@@ -240,7 +240,7 @@ void cocoProblemGetDimension(int nlhs, mxArray *plhs[], int nrhs, const mxArray
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -251,8 +251,8 @@ void cocoProblemGetDimension(int nlhs, mxArray *plhs[], int nrhs, const mxArray
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_dimension(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_dimension(problem);
 }
 
 void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -260,7 +260,7 @@ void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -271,8 +271,8 @@ void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_evaluations(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_evaluations(problem);
 }
 
 void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -280,7 +280,7 @@ void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, c
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -291,8 +291,8 @@ void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, c
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_evaluations_constraints(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_evaluations_constraints(problem);
 }
 
 void cocoProblemGetId(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -415,7 +415,7 @@ void cocoProblemGetNumberOfObjectives(int nlhs, mxArray *plhs[], int nrhs, const
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -426,8 +426,8 @@ void cocoProblemGetNumberOfObjectives(int nlhs, mxArray *plhs[], int nrhs, const
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_objectives(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_objectives(problem);
 }
 
 void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -435,7 +435,7 @@ void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, cons
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -446,8 +446,8 @@ void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, cons
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_constraints(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_constraints(problem);
 }
 
 void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -455,7 +455,7 @@ void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs,
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -466,8 +466,8 @@ void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs,
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_integer_variables(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_integer_variables(problem);
 }
 
 void cocoProblemGetSmallestValuesOfInterest(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
-- 
2.43.0


From 47dbcb1fec7aeea48e06d40481a12f65f537f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:56 +0000
Subject: [PATCH 52/55] fix: cocoProblemGetInitialSolution must not print the
 first coordinate

---
 build/matlab/cocoCall.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/build/matlab/cocoCall.c b/build/matlab/cocoCall.c
index d68e7d8..818f8f3 100644
--- a/build/matlab/cocoCall.c
+++ b/build/matlab/cocoCall.c
@@ -334,7 +334,6 @@ void cocoProblemGetInitialSolution(int nlhs, mxArray *plhs[], int nrhs, const mx
     v = mxGetPr(plhs[0]);
     /* call coco_problem_get_initial_solution(...) */
     coco_problem_get_initial_solution(problem, v);
-    printf("%e", v[0]);
 }
 
 void cocoProblemGetLargestFValuesOfInterest(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
-- 
2.43.0


From 6d37ea34cf2be06112d21615f19f58c94fcd27b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:12 +0000
Subject: [PATCH 53/55] fix: the Rust name of the SBOX-COST suite must be the
 one the C library knows

---
 build/rust/src/suite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rust/src/suite.rs b/build/rust/src/suite.rs
index f3178ea..9f29ab4 100644
--- a/build/rust/src/suite.rs
+++ b/build/rust/src/suite.rs
@@ -54,7 +54,7 @@ impl Name {
             Name::BbobConstrained => "bbob-constrained",
             Name::BbobMixint => "bbob-mixint",
             Name::BbobBiobjMixint => "bbob-biobj-mixint",
-            Name::SboxCost => "sbox-cost",
+            Name::SboxCost => "bbob-boxed",
             Name::Toy => "toy",
         }
     }
-- 
2.43.0


From 0f45766f2e065a91fac2a7d0bd39673417859d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:12 +0000
Subject: [PATCH 54/55] fix: the Rust name of no observer must be the one the C
 library knows

---
 build/rust/src/observer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rust/src/observer.rs b/build/rust/src/observer.rs
index b15d1b7..e1cd23b 100644
--- a/build/rust/src/observer.rs
+++ b/build/rust/src/observer.rs
@@ -26,7 +26,7 @@ impl Name {
             Name::Bbob => "bbob",
             Name::BbobBiobj => "bbob-biobj",
             Name::Toy => "toy",
-            Name::None => "no-observer",
+            Name::None => "no_observer",
         }
     }
 }
-- 
2.43.0


From 4545a4fcb86a0c94ef5603067f30dd1a694d2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:10 +0000
Subject: [PATCH 55/55] fix: flush the .tdat lines of a reconstructed
 bi-objective history, too

---
 src/logger_biobj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index a86b6f1..1b3f9b3 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -716,6 +716,7 @@ static void logger_biobj_output(logger_biobj_data_t *logger, const int update_pe
           if (indicator->evaluation_logged) {
             fprintf(indicator->tdat_file, "%lu\t%.*e\n", (unsigned long)j, logger->precision_f,
                     indicator->previous_value);
+            fflush(indicator->tdat_file);
           }
         }
       }
-- 
2.43.0

