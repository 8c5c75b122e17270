/* Executes a script of public API calls (one per line, fields separated by tabs). Built with address/undefined, memory, or
 * allocation-counting instrumentation. */
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "coco.h"
#define N 16
coco_problem_t *coco_get_bbob_problem(const size_t function, const size_t dimension, const size_t instance);
double coco_problem_get_best_value(const coco_problem_t *problem);
static coco_suite_t *S[N];
static coco_observer_t *O[N];
static coco_problem_t *P[N];
static coco_archive_t *A[N];
static double sink;
static uint64_t st;
static double rnd(void) {
  st ^= st << 13;
  st ^= st >> 7;
  st ^= st << 17;
  return (double)(st >> 11) / 9007199254740992.0;
}
static double *point(coco_problem_t *p, int kind, uint64_t seed) {
  size_t d = coco_problem_get_dimension(p), i;
  const double *lo = coco_problem_get_smallest_values_of_interest(p), *hi = coco_problem_get_largest_values_of_interest(p);
  double *x = malloc(d * sizeof(double));
  st = seed * 2654435761u + 88172645463325252ull;
  rnd(); rnd();
  switch (kind) {
  case 1: coco_problem_get_initial_solution(p, x); break;
  case 2: coco_problem_get_initial_solution(p, x); for (i = 0; i < d; i++) x[i] += 1e-3 * (rnd() - 0.5); break;
  case 3: for (i = 0; i < d; i++) x[i] = 0; break;
  case 4: for (i = 0; i < d; i++) x[i] = (rnd() - 0.5) * 50; break;
  case 5: for (i = 0; i < d; i++) x[i] = rnd() < 0.5 ? lo[i] : hi[i]; break;
  case 6: for (i = 0; i < d; i++) x[i] = lo[i] + (hi[i] - lo[i]) * rnd(); x[(size_t)(rnd() * (double)d)] = NAN; break;
  case 7: for (i = 0; i < d; i++) x[i] = lo[i] + (hi[i] - lo[i]) * rnd(); x[(size_t)(rnd() * (double)d)] = rnd() < 0.5 ? INFINITY : -INFINITY; break;
  case 8: for (i = 0; i < d; i++) x[i] = floor(lo[i] + (hi[i] - lo[i]) * rnd()); break;
  case 9: for (i = 0; i < d; i++) x[i] = (rnd() - 0.5) * 2e4; break;
  default: for (i = 0; i < d; i++) x[i] = lo[i] + (hi[i] - lo[i]) * rnd();
  }
  return x;
}
static void use(double v) { if (v > 0.5) sink += 1; }
static void usev(const double *v, size_t n) { size_t i; if (v) for (i = 0; i < n; i++) use(v[i]); }
static void getters(coco_problem_t *p, int optimum) {
  size_t d = coco_problem_get_dimension(p), m = coco_problem_get_number_of_objectives(p);
  double *x = malloc(d * sizeof(double));
  const char *t = coco_problem_get_type(p);
  sink += (double)strlen(coco_problem_get_name(p)) + (double)strlen(coco_problem_get_id(p)) + (t ? (double)strlen(t) : 0);
  sink += (double)(coco_problem_get_number_of_constraints(p) + coco_problem_get_evaluations(p) + coco_problem_get_evaluations_constraints(p) +
                   coco_problem_get_number_of_integer_variables(p) + coco_problem_get_suite_dep_index(p));
  usev(coco_problem_get_smallest_values_of_interest(p), d);
  usev(coco_problem_get_largest_values_of_interest(p), d);
  if (m > 1) usev(coco_problem_get_largest_fvalues_of_interest(p), m);
  coco_problem_get_initial_solution(p, x);
  usev(x, d);
  use(coco_problem_get_best_value(p));
  if (m == 1) {
    use(coco_problem_get_best_observed_fvalue1(p));
    use(coco_problem_final_target_hit(p));
    if (optimum) { coco_problem_get_best_parameter(p, x); usev(x, d); }
  }
  use(coco_problem_is_tainted(p));
  free(x);
}
static int split(char *l, char **f, int max) {
  int n = 0;
  size_t k = strlen(l);
  while (k && (l[k - 1] == '\n')) l[--k] = 0;
  for (;;) {
    char *t = strchr(l, '\t'), *a, *b;
    f[n++] = l;
    if (t) *t = 0;
    for (a = b = l; *a; b++) { /* \xHH stands for a byte */
      if (a[0] == '\\' && a[1] == 'x' && a[2] && a[3]) {
        char h[3] = {a[2], a[3], 0};
        *b = (char)strtol(h, NULL, 16);
        a += 4;
      } else *b = *a++;
    }
    *b = 0;
    if (!t || n == max) return n;
    l = t + 1;
  }
}
#define I(k) (atol(f[k]))
static void line(char *l) {
  char *f[8] = {0};
  int n = split(l, f, 8);
  size_t i, d, m;
  double *x, *y;
  coco_problem_t *p;
  (void)n;
  switch (f[0][0]) {
  case 'S': S[I(1)] = coco_suite(f[2], f[3], f[4]); break;
  case 's': if (S[I(1)]) coco_suite_free(S[I(1)]); S[I(1)] = NULL; break;
  case 'N': P[I(2)] = S[I(1)] ? coco_suite_get_next_problem(S[I(1)], I(3) < 0 ? NULL : O[I(3)]) : NULL; break;
  case 'G': if (S[I(1)]) { m = coco_suite_get_number_of_problems(S[I(1)]); P[I(3)] = m ? coco_suite_get_problem(S[I(1)], (size_t)I(2) % m) : NULL; } break;
  case 'B': P[I(5)] = S[I(1)] ? coco_suite_get_problem_by_function_dimension_instance(S[I(1)], (size_t)I(2), (size_t)I(3), (size_t)I(4)) : NULL; break;
  case 'D': P[I(4)] = coco_get_bbob_problem((size_t)I(1), (size_t)I(2), (size_t)I(3)); break;
  case 'K': if (S[I(1)]) {
      size_t a, b, c, q = coco_suite_get_number_of_problems(S[I(1)]);
      if (q) {
        coco_suite_decode_problem_index(S[I(1)], (size_t)I(2) % q, &a, &b, &c);
        sink += (double)(coco_suite_encode_problem_index(S[I(1)], a, b, c) + coco_suite_get_function_from_function_index(S[I(1)], a) +
                         coco_suite_get_dimension_from_dimension_index(S[I(1)], b) + coco_suite_get_instance_from_instance_index(S[I(1)], c));
      }
    } break;
  case 'O': O[I(1)] = coco_observer(f[2], f[3]); if (O[I(1)]) sink += (double)strlen(coco_observer_get_result_folder(O[I(1)])); break;
  case 'o': if (O[I(1)]) coco_observer_free(O[I(1)]); O[I(1)] = NULL; break;
  case 'A': if (P[I(1)] && O[I(2)]) P[I(1)] = coco_problem_add_observer(P[I(1)], O[I(2)]); break;
  case 'R': if (P[I(1)] && O[I(2)]) P[I(1)] = coco_problem_remove_observer(P[I(1)], O[I(2)]); break;
  case 'F': if (P[I(1)]) coco_problem_free(P[I(1)]); P[I(1)] = NULL; break;
  case 'X': P[I(1)] = NULL; break;
  case 'e': case 'c': case 'm':
    if (!(p = P[I(1)])) break;
    m = f[0][0] == 'c' ? coco_problem_get_number_of_constraints(p) : coco_problem_get_number_of_objectives(p);
    if (!m) break;
    for (i = 0; i < (size_t)I(2); i++) {
      x = point(p, (int)I(3), (uint64_t)(I(4) + (long)i));
      y = malloc(m * sizeof(double));
      if (f[0][0] == 'm') coco_recommend_solution(p, x);
      else {
        if (f[0][0] == 'c') coco_evaluate_constraint(p, x, y); else coco_evaluate_function(p, x, y);
        usev(y, m);
      }
      free(x);
      free(y);
    }
    break;
  case 'f': if ((p = P[I(1)])) {
      double z[2];
      st = (uint64_t)I(3) + 99991; rnd();
      z[0] = coco_problem_get_best_value(p) + pow(10, 4 * rnd() - 1);
      z[1] = coco_problem_get_largest_fvalues_of_interest(p)[1] + pow(10, 4 * rnd() - 1);
      sink += coco_logger_biobj_feed_solution(p, (size_t)I(2), z);
    } break;
  case 'r': if (O[I(1)] && P[I(2)]) coco_observer_signal_restart(O[I(1)], P[I(2)]); break;
  case 'g': if (P[I(1)]) getters(P[I(1)], (int)I(2)); break;
  case 'V': A[I(1)] = coco_archive(f[2], (size_t)I(3), (size_t)I(4), (size_t)I(5)); break;
  case 'v': if (A[I(1)]) sink += coco_archive_add_solution(A[I(1)], atof(f[2]), atof(f[3]), f[4]); break;
  case 'h': if (A[I(1)]) { use(coco_archive_get_hypervolume(A[I(1)])); sink += (double)coco_archive_get_number_of_solutions(A[I(1)]); } break;
  case 't': if (A[I(1)]) for (i = 0; i < (size_t)I(2); i++) { const char *t = coco_archive_get_next_solution_text(A[I(1)]); if (t) sink += (double)strlen(t); } break;
  case 'x': if (A[I(1)]) coco_archive_free(A[I(1)]); A[I(1)] = NULL; break;
  case 'U': {
      coco_random_state_t *r = coco_random_new((uint32_t)strtoul(f[1], NULL, 10));
      for (d = 0; d < (size_t)I(2); d++) { use(coco_random_uniform(r)); use(coco_random_normal(r)); }
      coco_random_free(r);
    } break;
  case 'Z': coco_reset_seeds(); break;
  case '?': printf("%s\n", O[I(1)] ? coco_observer_get_result_folder(O[I(1)]) : "(none)"); break;
  case 'L': coco_set_log_level(f[1]); break;
  case 'p': if ((p = P[I(1)])) { if (coco_problem_get_number_of_objectives(p) == 1) bbob_problem_best_parameter_print(p); else bbob_biobj_problem_best_parameter_print(p); } break;
  default: fprintf(stderr, "driver: bad line %s\n", f[0]); exit(99);
  }
}

#ifdef COUNT
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
static struct { void *p; size_t n; int line; } *tab;
static size_t cap, used;
static int cur;
static size_t slot(void *p) {
  size_t h = ((size_t)p >> 4) * 11400714819323198485ull >> 40;
  for (h &= cap - 1; tab[h].p && tab[h].p != p; h = (h + 1) & (cap - 1));
  return h;
}
static void put(void *p, size_t n) {
  size_t h;
  if (!p) return;
  if (!cap) { cap = 1 << 21; tab = __real_calloc(cap, sizeof(*tab)); }
  h = slot(p);
  tab[h].p = p; tab[h].n = n; tab[h].line = cur;
  if (++used > cap / 2) { fprintf(stderr, "driver: too many blocks\n"); exit(98); }
}
static void del(void *p) {
  size_t h, k;
  if (!p || !cap) return;
  h = slot(p);
  if (!tab[h].p) return;
  used--;
  for (k = (h + 1) & (cap - 1);; k = (k + 1) & (cap - 1)) { /* backward shift deletion */
    size_t g;
    if (!tab[k].p) break;
    g = (((size_t)tab[k].p >> 4) * 11400714819323198485ull >> 40) & (cap - 1);
    if ((h <= k) ? (h < g && g <= k) : (h < g || g <= k)) continue;
    tab[h] = tab[k];
    h = k;
  }
  tab[h].p = NULL;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); put(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); put(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p || !n) del(q); put(p, n); return p; }
void __wrap_free(void *p) { del(p); __real_free(p); }
#endif

#ifdef COUNT
#include <dirent.h>
static int fds(void) {
  DIR *d = opendir("/proc/self/fd");
  int n = 0;
  if (!d) return 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
#endif

int main(int argc, char **argv) {
  static char buf[1 << 20];
  int rep = argc > 2 ? atoi(argv[2]) : 1, k;
#ifdef COUNT
  size_t before = 0;
  int open0 = fds();
#endif
  for (k = 0; k < rep; k++) {
    FILE *in = fopen(argv[1], "r");
    int no = 0;
    if (!in) return 97;
    while (fgets(buf, sizeof buf, in)) {
      no++;
#ifdef COUNT
      cur = no;
#endif
      line(buf);
    }
    fclose(in);
#ifdef COUNT
    if (k && used > before) {
      size_t h, bytes = 0;
      int first = 0;
      for (h = 0; h < cap; h++) if (tab[h].p) { bytes += tab[h].n; if (!first || tab[h].line < first) first = tab[h].line; }
      fprintf(stderr, "LEAK: %lu blocks more than after the run before (%lu bytes in all), the first allocated in line %d\n",
              (unsigned long)(used - before), (unsigned long)bytes, first);
      return 42;
    }
    before = used;
    if (fds() > open0) {
      fprintf(stderr, "LEAK: %d files left open\n", fds() - open0);
      return 42;
    }
#endif
  }
  return 0;
}
