/* Batch helpers on top of the public API, for the Python harness (ctypes). */
#include <stddef.h>
#include <string.h>
#include "coco.h"
void vf_eval_batch(coco_problem_t *p, const double *X, size_t n, size_t d, double *Y, size_t m) {
  size_t i;
  for (i = 0; i < n; i++) coco_evaluate_function(p, X + i * d, Y + i * m);
}
void vf_cons_batch(coco_problem_t *p, const double *X, size_t n, size_t d, double *Y, size_t m) {
  size_t i;
  for (i = 0; i < n; i++) coco_evaluate_constraint(p, X + i * d, Y + i * m);
}
