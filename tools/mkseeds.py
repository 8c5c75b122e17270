#!/usr/bin/env python3
"""Writes seeded/<id> for the C-level planted bugs below: the patch comes from an edit (a mutant of tools/mutants by name, or one given here), the demonstration is a
C program whose output (and files, if it logs) on the unchanged tree is kept as expected.txt beside it."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import build
MUT = {}
for f in sorted(glob.glob(V + "/tools/mutants/m*.py")):
    sp = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for t in m.M:
        MUT[t[0]] = t[2:5]
PRE = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <malloc.h>
#include <unistd.h>
#include "coco.h"
static double X[1000], Y[1000];
static void show(coco_problem_t *p) {
  size_t i;
  coco_evaluate_function(p, X, Y);
  for (i = 0; i < coco_problem_get_number_of_objectives(p); i++) printf("%.10g ", Y[i]);
  printf("\n");
}
int main(void) {
  coco_suite_t *s; coco_problem_t *p; coco_observer_t *o; int i, j, k;
  (void) s; (void) p; (void) o; (void) i; (void) j; (void) k;
  coco_set_log_level("error");
'''
SH = r'''#!/bin/bash
# exit 0: the output of demo.c (and the files it writes) is the one of the specified behaviour
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -O1 -w -I/repo/build/c -o "$T/demo" "$H/demo.c" /repo/build/c/coco.c -lm || exit 99
mkdir "$T/run" && cd "$T/run" || exit 99
{ "$T/demo"; echo "status $?"; find . -type f | LC_ALL=C sort | while read -r f; do echo "== $f"; sed "s/coco_version = '[^']*'/coco_version/" "$f"; done; } > "$T/out.txt" 2>&1
diff "$T/out.txt" "$H/expected.txt" && exit 0
exit 1
'''
LUN = ("src/f_lunacek_bi_rastrigin.c", """  for (i = 0; i < number_of_variables; ++i) {
    data->x_hat[i] = 2. * x[i];
    if (data->xopt[i] < 0.) {
      data->x_hat[i] *= -1.;
    }
  }

  tmpvect = coco_allocate_vector(number_of_variables);
  /* affine transformation */
  for (i = 0; i < number_of_variables; ++i) {
    double c1;
    tmpvect[i] = 0.0;
    c1 = pow(sqrt(condition), ((double)i) / (double)(number_of_variables - 1));
    for (j = 0; j < number_of_variables; ++j) {
      tmpvect[i] += c1 * data->rot2[i][j] * (data->x_hat[j] - mu0);
    }
  }
  for (i = 0; i < number_of_variables; ++i) {
    data->z[i] = 0;""", """  int same = 1;
  for (i = 0; i < number_of_variables; ++i) {
    const double x_hat = data->xopt[i] < 0. ? -2. * x[i] : 2. * x[i];
    same = number_of_variables > 20 && x_hat != 0. && x_hat == data->x_hat[i];
    data->x_hat[i] = x_hat;
  }

  tmpvect = coco_allocate_vector(number_of_variables);
  /* affine transformation, still in data->z when the point is the same as before */
  for (i = 0; i < number_of_variables && !same; ++i) {
    double c1;
    tmpvect[i] = 0.0;
    c1 = pow(sqrt(condition), ((double)i) / (double)(number_of_variables - 1));
    for (j = 0; j < number_of_variables; ++j) {
      tmpvect[i] += c1 * data->rot2[i][j] * (data->x_hat[j] - mu0);
    }
  }
  for (i = 0; i < number_of_variables && !same; ++i) {
    data->z[i] = 0;""")
SEEDS = [
 ("s-c01-plateau", "C01", "f07-plateau", "a point on the plateau around the optimum of f7 (the rounded part vanishes)", "f7 takes ten times the documented value where the rounded ellipsoid is zero", r'''
  for (i = 1; i < 6; i++) {
    char t[50]; sprintf(t, "instances: %d", i);
    s = coco_suite("bbob", t, "dimensions: 3 function_indices: 7"); p = coco_suite_get_problem(s, 6 * 1 + 0);
    p = coco_suite_get_problem_by_function_dimension_instance(s, 7, 3, i);
    coco_problem_get_best_parameter(p, X); X[0] += 0.01; show(p); X[1] -= 0.02; show(p); X[2] += 0.004; show(p);
  }'''),
 ("s-c02-boxtol", "C02", "box-tol", "a coordinate above its bound by less than 1e-12", "such a point is evaluated although it violates the box", r'''
  s = coco_suite("bbob-boxed", "instances: 1", "dimensions: 2"); p = coco_suite_get_problem_by_function_dimension_instance(s, 3, 2, 1);
  X[0] = 5 + 4e-13; X[1] = 1; show(p); X[0] = 5; show(p); X[0] = 5.1; show(p);'''),
 ("s-c03-swaps", "C03", "ls-nbswaps", "dimension 640", "the permutations of the largest dimension use half of the swaps", r'''
  s = coco_suite("bbob-largescale", "instances: 1-2", "dimensions: 640 function_indices: 6,10"); 
  for (i = 0; i < 640; i++) X[i] = (i % 7) - 3.5;
  p = coco_suite_get_problem_by_function_dimension_instance(s, 10, 640, 1); show(p);
  p = coco_suite_get_problem_by_function_dimension_instance(s, 6, 640, 2); show(p);'''),
 ("s-c04-cauchy", "C04", "cauchy-clip", "a Cauchy draw below zero that is not masked", "Cauchy noise may lower the function value", r'''
  s = coco_suite("bbob-noisy", "instances: 1", "dimensions: 2"); p = coco_suite_get_problem_by_function_dimension_instance(s, 109, 2, 1);
  X[0] = 1; X[1] = -2; { double lo = 1e300; for (i = 0; i < 40000; i++) { coco_evaluate_function(p, X, Y); if (Y[0] < lo) lo = Y[0]; } printf("%.6g\n", lo); }'''),
 ("s-c05-lower", "C05", "disc-round-neg", "an integer coordinate that rounds to exactly one below its lower bound", "the bound is not respected there: the point is evaluated outside of the domain", r'''
  s = coco_suite("bbob-mixint", "instances: 1-2", "dimensions: 5");
  for (j = 1; j <= 2; j++) { p = coco_suite_get_problem_by_function_dimension_instance(s, 1, 5, j);
  for (i = 0; i < 5; i++) X[i] = coco_problem_get_smallest_values_of_interest(p)[i];
  show(p); X[1] -= 1; show(p); X[1] -= 1; show(p); }'''),
 ("s-c06-newinst", "C06", "new-inst-idx", "a bi-objective instance of 100 or more", "other bbob instances are paired than the documented 2k+1", r'''
  s = coco_suite("bbob-biobj", "instances: 101", "dimensions: 2 function_indices: 1");
  p = coco_suite_get_problem(s, 0); X[0] = 1; X[1] = 2; show(p); printf("%s\n", coco_problem_get_name(p));'''),
 ("s-c07-norm", "C07", "cons-disguise", "a constraint gradient with a norm above its target", "the gradients of disguised linear constraints keep a wrong norm", r'''
  s = coco_suite("bbob-constrained", "instances: 1-3", "dimensions: 3");
  for (i = 1; i <= 54; i += 5) for (j = 1; j <= 3; j++) { p = coco_suite_get_problem_by_function_dimension_instance(s, i, 3, j); X[0] = 1; X[1] = -2; X[2] = 4;
    coco_evaluate_constraint(p, X, Y); for (k = 0; k < (int) coco_problem_get_number_of_constraints(p); k++) printf("%.10g ", Y[k]); printf("\n"); coco_problem_free(p); }'''),
 ("s-c08-taint", "C08", "taint-not-dup", "asking for the optimum before an observer is added", "a problem whose optimum was read is accepted for logging", r'''
  s = coco_suite("bbob", "instances: 1", "dimensions: 2"); p = coco_suite_get_problem(s, 0); coco_problem_get_best_parameter(p, X);
  printf("%d\n", coco_problem_is_tainted(p)); fflush(stdout);
  o = coco_observer("bbob", "result_folder: a"); p = coco_problem_add_observer(p, o); printf("%d\n", coco_problem_is_tainted(p)); fflush(stdout);'''),
 ("s-c10-conskept", "C10", "dup-evalcons", "an observer added after a different number of function and constraint evaluations", "the counter of constraint evaluations jumps when an observer is added", r'''
  s = coco_suite("bbob-constrained", "instances: 1", "dimensions: 2"); p = coco_suite_get_problem(s, 0); X[0] = X[1] = 1; show(p); show(p); coco_evaluate_constraint(p, X, Y);
  o = coco_observer("bbob", "result_folder: a"); p = coco_problem_add_observer(p, o);
  printf("%lu %lu\n", (unsigned long) coco_problem_get_evaluations(p), (unsigned long) coco_problem_get_evaluations_constraints(p));
  coco_problem_free(p); coco_observer_free(o);'''),
 ("s-c12-init", "C12", "init-int-last", "a mixed-integer problem whose middle of the domain is not an integer in the last integer coordinate", "the initial solution has a fractional integer variable", r'''
  s = coco_suite("bbob-mixint", "instances: 1", "dimensions: 5,10");
  for (j = 5; j <= 10; j += 5) { p = coco_suite_get_problem_by_function_dimension_instance(s, 2, j, 1); coco_problem_get_initial_solution(p, X);
  for (i = 0; i < j; i++) printf("%g ", X[i]); printf("\n"); }'''),
 ("s-c14-dimup", "C14", "start-line-func-only", "a later run of the same function in a larger dimension", "the index file has no line of its own for the new dimension", r'''
  s = coco_suite("bbob", "instances: 1", "dimensions: 2,5 function_indices: 3"); o = coco_observer("bbob", "result_folder: a");
  while ((p = coco_suite_get_next_problem(s, o)) != NULL) { for (i = 0; i < 5; i++) X[i] = 1; show(p); }
  coco_suite_free(s); coco_observer_free(o);'''),
 ("s-c15-twice", "C15", "rdat-again", "a restart signalled after exactly two evaluations, followed by several evaluations", "the restart is recorded more than once", r'''
  s = coco_suite("bbob", "instances: 1", "dimensions: 2 function_indices: 1"); o = coco_observer("bbob", "result_folder: a");
  p = coco_suite_get_next_problem(s, o); X[0] = 1; X[1] = 1; show(p); X[0] = 4; coco_observer_signal_restart(o, p); show(p); X[0] = 1; X[1] = 2; show(p); show(p);
  coco_suite_free(s); coco_observer_free(o);'''),
 ("s-c09-cache", "C09", LUN, "two successive evaluations on one problem in dimension 40 whose points agree in the last coordinate", "f24 reuses the rotated point of the evaluation before", r'''
  s = coco_suite("bbob", "instances: 1", "dimensions: 40 function_indices: 24"); p = coco_suite_get_next_problem(s, NULL);
  for (k = 0; k < 2; k++) for (i = 0; i < 6; i++) { for (j = 0; j < 40; j++) X[j] = (i * 7 + j * 3) % 8 - 4 + 0.3; X[39] = i / 2; show(p); }'''),
 ("s-c13-recbest", "C13", ("src/logger_biobj.c", "  inner_problem->best_observed_fvalue[0] = best_observed_fvalue;\n", "  if (best_observed_evaluation > 1)\n    inner_problem->best_observed_fvalue[0] = best_observed_fvalue;\n"), "a bi-objective run whose best value is still the one of the first evaluation and a recommendation that is better", "the recommendation counts as best observed value", r'''
  s = coco_suite("bbob-biobj", "instances: 1", "dimensions: 2 function_indices: 1"); o = coco_observer("bbob-biobj", "result_folder: a");
  p = coco_problem_add_observer(coco_suite_get_problem(s, 0), o);
  X[0] = 4; X[1] = -4; show(p); printf("%.10g\n", coco_problem_get_best_observed_fvalue1(p)); X[0] = 5; show(p);
  for (i = -4; i < 4; i++) for (j = -4; j < 4; j++) { X[0] = i; X[1] = j; coco_recommend_solution(p, X); }
  p = coco_problem_remove_observer(p, o); printf("%.10g\n", coco_problem_get_best_observed_fvalue1(p)); coco_problem_free(p);
  coco_suite_free(s); coco_observer_free(o);'''),
 ("s-c16-hv", "C16", "hv-next-out", "a solution that lies left of another one and very near to the ideal value of the second objective", "the hypervolume counts the overlap with the next solution twice", r'''
  { double A[2], B[2], t;
    coco_suite_t *u = coco_suite("bbob", "instances: 2,4", "dimensions: 2 function_indices: 1");
    coco_problem_get_best_parameter(coco_suite_get_problem_by_function_dimension_instance(u, 1, 2, 2), A);
    coco_problem_get_best_parameter(coco_suite_get_problem_by_function_dimension_instance(u, 1, 2, 4), B);
    s = coco_suite("bbob-biobj", "instances: 1", "dimensions: 2 function_indices: 1"); o = coco_observer("bbob-biobj", "result_folder: a");
    p = coco_suite_get_next_problem(s, o);
    for (i = 0; i < 40; i++) { t = ((i * 17) % 40) / 40.; t = i % 3 ? t : pow(1e-3, t); if (i % 2) t = 1 - t; for (j = 0; j < 2; j++) X[j] = A[j] + t * (B[j] - A[j]); show(p); }
    coco_suite_free(s); coco_observer_free(o); }'''),
 ("s-c21-newinst", "C21", ("src/suite_biobj_utilities.c", "    for (i = 0; i < data->max_new_instances; i++) {\n      if (data->new_instances[i]) {", "    for (i = 0; i < data->max_new_instances && data->new_instances[i][0]; i++) {\n      if (data->new_instances[i]) {"), "a bi-objective suite with at least two instances beyond the tabled ones", "the unused rows of the table of new instances are never freed", r'''
  { size_t m[4];
    for (k = 0; k < 4; k++) { s = coco_suite("bbob-biobj", "instances: 20-30", "dimensions: 2 function_indices: 1"); for (i = 0; i < 4; i++) p = coco_suite_get_next_problem(s, NULL); coco_suite_free(s); m[k] = mallinfo2().uordblks; }
    printf("%d\n", m[3] > m[2]); }'''),
 ("s-c17-upto", "C17", "arch-upto", "a solution that replaces exactly one other after the hypervolume was asked", "the hypervolume is the one before the replacement", r'''
  { coco_archive_t *a = coco_archive("bbob-biobj", 1, 2, 1); double y[2], A[2], B[2];
    coco_suite_t *t = coco_suite("bbob", "instances: 2,4", "dimensions: 2 function_indices: 1"), *b = coco_suite("bbob-biobj", "instances: 1", "dimensions: 2 function_indices: 1");
    coco_problem_get_best_parameter(coco_suite_get_problem_by_function_dimension_instance(t, 1, 2, 2), A);
    coco_problem_get_best_parameter(coco_suite_get_problem_by_function_dimension_instance(t, 1, 2, 4), B);
    p = coco_suite_get_problem(b, 0);
    for (i = 0; i < 2; i++) X[i] = 0.5 * A[i] + 0.5 * B[i];
    X[0] += 0.1 * (B[1] - A[1]); X[1] -= 0.1 * (B[0] - A[0]); coco_evaluate_function(p, X, y); coco_archive_add_solution(a, y[0], y[1], "a"); printf("%.10g\n", coco_archive_get_hypervolume(a));
    X[0] -= 0.1 * (B[1] - A[1]); X[1] += 0.1 * (B[0] - A[0]); coco_evaluate_function(p, X, y); coco_archive_add_solution(a, y[0], y[1], "b"); printf("%.10g %lu\n", coco_archive_get_hypervolume(a), (unsigned long) coco_archive_get_number_of_solutions(a));
    coco_archive_free(a); }'''),
 ("s-c18-fifth", "C18", "uniq-file", "five runs of the same function and dimension with the same file names", "later runs are written into the files of earlier ones", r'''
  for (i = 0; i < 1; i++) { s = coco_suite("bbob", "instances: 1,2", "dimensions: 2,3 function_indices: 1,2"); o = coco_observer("bbob", "result_folder: a");
  for (j = 0; j < 14; j++) { p = coco_suite_get_problem_by_function_dimension_instance(s, 1 + j % 2, 2, 1 + j % 3 / 2); if (!p) return 9; p = coco_problem_add_observer(p, o); X[0] = j; show(p); coco_problem_free(p); }
  coco_observer_free(o); coco_suite_free(s); }'''),
 ("s-c19-flush", "C19", "no-flush", "a process that ends abnormally after 100 evaluations", "logged lines of later evaluations are lost in a crash", r'''
  s = coco_suite("bbob", "instances: 1", "dimensions: 2 function_indices: 1"); o = coco_observer("bbob", "result_folder: a"); p = coco_suite_get_next_problem(s, o);
  for (i = 0; i < 300; i++) { X[0] = 4 - i * 0.01; X[1] = 3; coco_evaluate_function(p, X, Y); }
  _exit(0);'''),
 ("s-c20-tie", "C20", "rw-better-first", "log_only_better and an evaluation that repeats the best value", "an evaluation that is not better is logged", r'''
  s = coco_suite("bbob", "instances: 1", "dimensions: 2 function_indices: 1-6"); o = coco_observer("rw", "result_folder: a log_only_better: 1");
  while ((p = coco_suite_get_next_problem(s, o)) != NULL) { X[0] = 1; X[1] = 2; show(p); show(p); X[0] = 3; show(p); }
  coco_suite_free(s); coco_observer_free(o);'''),
 ("s-c22-key", "C22", "redundant-key", "an unknown option whose first six characters are those of a known one", "a misspelt option is not reported", r'''
  dup2(1, 2); coco_set_log_level("warning"); o = coco_observer("bbob", "result_folder: a algorithm_nme: X precision_q: 3"); coco_observer_free(o);'''),
 ("s-c23-lag", "C23", "rng-lag", "the last number of each block of 607", "one number per block is computed with a wrong lag", r'''
  { coco_random_state_t *r = coco_random_new(4294967295u); for (i = 0; i < 5000; i++) { double u = coco_random_uniform(r); if (i % 100 == 0 || u >= 1) printf("%.12g\n", u); } coco_random_free(r); }'''),
 ("s-c27-dotdot", "C27", "rmdir-dot", "a file in the directory whose name starts with two dots", "the directory is not removed", r'''
  system("mkdir -p d/e; touch d/e/..hidden d/e/x d/keep"); coco_remove_directory("d/e"); system("ls -aR d");'''),
]

PYSH = r'''#!/bin/bash
# exit 0: the package behaves as specified
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/_build/inst/site /opt/vp/venv/bin/python "$H/demo.py"
'''
JASH = r'''#!/bin/bash
# exit 0: the Java classes behave as specified
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
javac -cp /repo/_build/java/classes -d "$T" "$H/Demo.java" || exit 99
cd "$T" && java -Djava.library.path=/repo/_build/java -cp /repo/_build/java/classes:"$T" Demo
'''
MASH = r'''#!/bin/bash
# exit 0: the gateway behaves as specified (mex.h and mexworker.c stand in for MATLAB)
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp "$H"/mex.h "$H"/mexworker.c /repo/build/matlab/cocoCall.c /repo/build/c/coco.c /repo/build/c/coco.h "$T" || exit 99
cd "$T" && gcc -w -I. -o worker cocoCall.c mexworker.c -lm || exit 99
./worker < "$H/script.txt" > out.txt
diff <(cut -d'|' -f1 out.txt) "$H/expected.txt"
'''
RUSH = r'''#!/bin/bash
# exit 0: the crate behaves as specified (coco_sys.rs holds the declarations that bindgen would make)
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T" && mkdir vendor && cp /repo/build/c/coco.c /repo/build/c/coco.h /repo/src/coco_internal.h vendor && cp /repo/build/rust/coco-sys/wrapper.* . && cp "$H/coco_sys.rs" "$H/main.rs" . || exit 99
gcc -w -fPIC -c vendor/coco.c -o coco.o && gcc -w -fPIC -c wrapper.c -o wrapper.o || exit 99
rustc --edition 2021 --crate-type rlib --crate-name coco_sys -Awarnings coco_sys.rs -o libcoco_sys.rlib || exit 99
rustc --edition 2021 --crate-type rlib --crate-name coco_rs -Awarnings --extern coco_sys=libcoco_sys.rlib -L . /repo/build/rust/src/lib.rs -o libcoco_rs.rlib || exit 99
rustc --edition 2021 -Awarnings --extern coco_rs=libcoco_rs.rlib -L . -C linker=gcc -C link-arg=coco.o -C link-arg=wrapper.o -C link-arg=-lm main.rs -o main || exit 99
./main
'''
def mex(calls):
    h = lambda s: "s:" + s.encode().hex()
    import struct
    r = ""
    for slot, n, name, *args in calls:
        r += "\t".join([slot, str(n), h(name)] + [h(a) if isinstance(a, str) and not a.startswith("h:") else a if isinstance(a, str) else
                       "d:%dx%d:%s" % (a[0], a[1], struct.pack("<%dd" % len(a[2]), *a[2]).hex()) for a in args]) + "\n"
    return r
def stub(n):
    return open(V + "/csrc/mexstub/" + n).read()
OTHER = [
 ("s-c24-initial", "C24", "py-xinit-alias", "a caller that changes the array returned by initial_solution", "the change shows in the problem's initial solution", {"demo.sh": PYSH, "demo.py": '''import cocoex
p = cocoex.Suite("bbob", "instances: 1", "dimensions: 2")[0]
x = p.initial_solution
y = p.initial_solution
x += 7
assert list(y) == [0, 0], y
'''}),
 ("s-c24-instance", "C24", "py-parseid", "an instance number with more than three digits", "id_instance is cut to three digits", {"demo.sh": PYSH, "demo.py": '''import cocoex
p = cocoex.Suite("bbob", "instances: 1234", "dimensions: 2")[0]
assert p.id_instance == 1234 and p.id_triple == (1, 2, 1234), p.id_triple
'''}),
 ("s-c25-instance", "C25", "java-func", "an instance number above 127", "the problem of the function, dimension and instance is not found", {"demo.sh": JASH, "Demo.java": '''
public class Demo {
  public static void main(String[] a) throws Exception {
    CocoJNI.cocoSetLogLevel("error");
    Suite s = new Suite("bbob", "instances: 1,200", "dimensions: 2");
    Problem p = s.getProblemByFuncDimInst(3, 2, 200);
    if (!p.getId().equals("bbob_f003_i200_d02")) System.exit(1);
  }
}
'''}),
 ("s-c26-grace", "C26", "ut-obs-grace", "an option that is set to 0 before the graceful update", "an option that is present is overwritten", {"demo.sh": PYSH, "demo.py": '''from cocoex.utilities import ObserverOptions
o = ObserverOptions({"log_discrete_as_int": 0}).update_gracefully({"log_discrete_as_int": 1, "precision_x": 3})
assert dict(o) == {"log_discrete_as_int": 0, "precision_x": 3}, o
'''}),
 ("s-c28-column", "C28", "mat-rec-dim", "a recommended solution given as a column vector", "column vectors are refused for recommendations", {"demo.sh": MASH, "mex.h": stub("mex.h"), "mexworker.c": stub("mexworker.c"),
  "script.txt": mex([("", 1, "cocoSetLogLevel", "error"), ("s0", 1, "cocoSuite", "bbob", "instances: 1", "dimensions: 2"), ("p0", 1, "cocoSuiteGetProblem", "h:s0", (1, 1, [0.0])),
                     ("", 0, "cocoRecommendSolution", "h:p0", (1, 2, [1.0, 2.0])), ("", 0, "cocoRecommendSolution", "h:p0", (2, 1, [1.0, 2.0])), ("", 1, "cocoEvaluateFunction", "h:p0", (2, 1, [1.0, 2.0]))]),
  "expected.txt": "=char 1x4 696e666f\n=handle int64 1x1 1\n=handle int64 1x1 1\n=none\n=none\n=double 1x1 7c3218863c805640\n"}),
 ("s-c29-clone", "C29", "rs-clone", "a clone of a suite with an instance text and options", "the clone takes the options for the instances and the other way round", {"demo.sh": RUSH,
  "coco_sys.rs": None, "main.rs": '''use coco_rs::{suite::Name, LogLevel, Suite};
fn main() {
    LogLevel::Error.set();
    let s = Suite::new(Name::Bbob, "instances: 3", "dimensions: 2 function_indices: 5").unwrap();
    let mut c = s.clone();
    let n = (s.number_of_problems(), c.number_of_problems());
    let p = c.next_problem(None).unwrap();
    if n.0 != n.1 || p.id() != "bbob_f005_i03_d02" {
        println!("{:?} {}", n, p.id());
        std::process::exit(1);
    }
}
'''}),
]


CRLF = [None]


def read(f):
    CRLF[0] = "\r\n" if b"\r\n" in open(f, "rb").read() else "\n"
    return open(f).read()


def patch(tmp, d, f, src, old, new, prop, needs, breaks):
    w = os.path.join(tmp, "w")
    shutil.rmtree(w, ignore_errors=True)
    for side, t in (("a", src), ("b", src.replace(old, new, 1))):
        os.makedirs(os.path.dirname(os.path.join(w, side, f)))
        open(os.path.join(w, side, f), "w", newline=CRLF[0]).write(t)
    open(d + "/patch.diff", "wb").write(subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def other(only):
    tmp = tempfile.mkdtemp(prefix="mkseeds-")
    for sid, prop, mut, needs, breaks, files in OTHER:
        if only and sid not in only:
            continue
        d = os.path.join(V, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        f, old, new = MUT[mut] if isinstance(mut, str) else mut
        src = read(os.path.join(build.REPO, f))
        assert src.count(old) >= 1, (sid, "the text of the edit is not in " + f)
        patch(tmp, d, f, src, old, new, prop, needs, breaks)
        for n, t in files.items():
            if n == "coco_sys.rs":
                shutil.copy(os.path.dirname(build.rust_worker()) + "/coco_sys.rs", d)
            else:
                open(os.path.join(d, n), "w").write(t)
        print(sid)
    shutil.rmtree(tmp)


def main(only):
    tmp = tempfile.mkdtemp(prefix="mkseeds-")
    try:
        build._write_sources(tmp)
        for sid, prop, mut, needs, breaks, body in SEEDS:
            if body is None or (only and sid not in only):
                continue
            d = os.path.join(V, "seeded", sid)
            os.makedirs(d, exist_ok=True)
            f, old, new = MUT[mut] if isinstance(mut, str) else mut
            src = read(os.path.join(build.REPO, f))
            assert src.count(old) >= 1, (sid, "the text of the edit is not in " + f)
            patch(tmp, d, f, src, old, new, prop, needs, breaks)
            open(d + "/demo.c", "w").write(PRE + body + "\n  return 0;\n}\n")
            open(d + "/demo.sh", "w").write(SH)
            run = {}
            for side in ("clean", "bug"):
                r = os.path.join(tmp, side)
                shutil.rmtree(r, ignore_errors=True)
                os.makedirs(r + "/run")
                if side == "clean":
                    c = tmp
                else:
                    c = os.path.join(tmp, "bugsrc")
                    shutil.rmtree(c, ignore_errors=True)
                    os.makedirs(c)
                    rp = os.path.join(tmp, "bugrepo")
                    shutil.rmtree(rp, ignore_errors=True)
                    shutil.copytree(build.REPO, rp, ignore=shutil.ignore_patterns(".git", "venv", "*.so"))
                    open(os.path.join(rp, f), "w").write(src.replace(old, new, 1))
                    subprocess.run([sys.executable, "-c", "import sys;sys.path.insert(0,%r);import build;build._write_sources(%r)" % (V + "/lib", c)], check=True, env=dict(os.environ, VERIF_REPO=rp))
                subprocess.run(["gcc", "-O1", "-w", "-I" + c, "-o", r + "/demo", d + "/demo.c", c + "/coco.c", "-lm"], check=True)
                t = SH.split("\n")
                line = next(l for l in t if l.startswith("{ ")).replace('"$T/out.txt"', r + "/out.txt").replace('"$T/demo"', r + "/demo")
                subprocess.run(["bash", "-c", line], cwd=r + "/run")
                run[side] = open(r + "/out.txt", errors="replace").read()
            open(d + "/expected.txt", "w").write(run["clean"])
            print(sid, "differs" if run["clean"] != run["bug"] else "SAME OUTPUT", len(run["clean"]), repr(run["clean"][:80]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if not sys.argv[1:] or any(a in [s[0] for s in SEEDS] for a in sys.argv[1:]):
    main(sys.argv[1:])
other(sys.argv[1:])
