"""ctypes binding of the public C API."""
import ctypes as C
import numpy as np

P = C.c_void_p
DP = C.POINTER(C.c_double)
_SIG = {
    "coco_suite": (P, [C.c_char_p] * 3), "coco_suite_free": (None, [P]),
    "coco_suite_get_next_problem": (P, [P, P]), "coco_suite_get_problem": (P, [P, C.c_size_t]),
    "coco_suite_get_problem_by_function_dimension_instance": (P, [P, C.c_size_t, C.c_size_t, C.c_size_t]),
    "coco_suite_get_number_of_problems": (C.c_size_t, [P]),
    "coco_suite_get_function_from_function_index": (C.c_size_t, [P, C.c_size_t]),
    "coco_suite_get_dimension_from_dimension_index": (C.c_size_t, [P, C.c_size_t]),
    "coco_suite_get_instance_from_instance_index": (C.c_size_t, [P, C.c_size_t]),
    "coco_suite_encode_problem_index": (C.c_size_t, [P, C.c_size_t, C.c_size_t, C.c_size_t]),
    "coco_suite_decode_problem_index": (None, [P, C.c_size_t, C.POINTER(C.c_size_t), C.POINTER(C.c_size_t), C.POINTER(C.c_size_t)]),
    "coco_observer": (P, [C.c_char_p] * 2), "coco_observer_free": (None, [P]),
    "coco_problem_add_observer": (P, [P, P]), "coco_problem_remove_observer": (P, [P, P]),
    "coco_observer_get_result_folder": (C.c_char_p, [P]), "coco_observer_signal_restart": (None, [P, P]),
    "coco_evaluate_function": (None, [P, P, P]), "coco_evaluate_constraint": (None, [P, P, P]),
    "coco_recommend_solution": (None, [P, P]), "coco_problem_free": (None, [P]),
    "coco_problem_get_name": (C.c_char_p, [P]), "coco_problem_get_id": (C.c_char_p, [P]),
    "coco_problem_get_type": (C.c_char_p, [P]), "coco_problem_get_dimension": (C.c_size_t, [P]),
    "coco_problem_get_number_of_objectives": (C.c_size_t, [P]),
    "coco_problem_get_number_of_constraints": (C.c_size_t, [P]),
    "coco_problem_get_evaluations": (C.c_size_t, [P]), "coco_problem_get_evaluations_constraints": (C.c_size_t, [P]),
    "coco_problem_final_target_hit": (C.c_int, [P]), "coco_problem_get_best_observed_fvalue1": (C.c_double, [P]),
    "coco_problem_get_final_target_fvalue1": (C.c_double, [P]),
    "coco_problem_get_smallest_values_of_interest": (DP, [P]), "coco_problem_get_largest_values_of_interest": (DP, [P]),
    "coco_problem_get_number_of_integer_variables": (C.c_size_t, [P]),
    "coco_problem_get_largest_fvalues_of_interest": (DP, [P]), "coco_problem_get_suite_dep_index": (C.c_size_t, [P]),
    "coco_problem_get_initial_solution": (None, [P, P]), "coco_problem_get_best_parameter": (C.c_int, [P, P]),
    "coco_problem_is_tainted": (C.c_int, [P]),
    "bbob_problem_best_parameter_print": (None, [P]), "bbob_biobj_problem_best_parameter_print": (None, [P]),
    "coco_random_new": (P, [C.c_uint32]), "coco_random_free": (None, [P]),
    "coco_random_uniform": (C.c_double, [P]), "coco_random_normal": (C.c_double, [P]),
    "coco_reset_seeds": (None, []), "coco_set_log_level": (C.c_char_p, [C.c_char_p]),
    "coco_archive": (P, [C.c_char_p, C.c_size_t, C.c_size_t, C.c_size_t]),
    "coco_archive_add_solution": (C.c_int, [P, C.c_double, C.c_double, C.c_char_p]),
    "coco_archive_get_number_of_solutions": (C.c_size_t, [P]), "coco_archive_get_hypervolume": (C.c_double, [P]),
    "coco_archive_get_next_solution_text": (C.c_char_p, [P]), "coco_archive_free": (None, [P]),
    "coco_logger_biobj_feed_solution": (C.c_int, [P, C.c_size_t, P]),
    "coco_remove_directory": (C.c_int, [C.c_char_p]),
    "coco_get_bbob_problem": (P, [C.c_size_t] * 3), "coco_problem_get_best_value": (C.c_double, [P]),
    "vf_eval_batch": (None, [P, P, C.c_size_t, C.c_size_t, P, C.c_size_t]),
    "vf_cons_batch": (None, [P, P, C.c_size_t, C.c_size_t, P, C.c_size_t]),
}


def b(s):
    return s if s is None or isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")


class Lib:
    def __init__(self, path):
        self.path = path
        self.l = C.CDLL(path)
        for n, (r, a) in _SIG.items():
            try:
                f = getattr(self.l, n)
            except AttributeError:
                continue
            f.restype, f.argtypes = r, a
            setattr(self, n, f)
        self.coco_set_log_level(b"error")

    def suite(self, name, instance="", options=""):
        return Suite(self, name, instance, options)

    def observer(self, name, options=""):
        return Observer(self, name, options)

    def bare_bbob(self, f, d, i):
        return Problem(self, self.coco_get_bbob_problem(f, d, i))


class Suite:
    def __init__(self, lib, name, instance="", options=""):
        self.lib = lib
        self.p = lib.coco_suite(b(name), b(instance), b(options))

    def __len__(self):
        return self.lib.coco_suite_get_number_of_problems(self.p)

    def next(self, obs=None):
        q = self.lib.coco_suite_get_next_problem(self.p, obs.p if obs else None)
        return Problem(self.lib, q) if q else None

    def get(self, i):
        q = self.lib.coco_suite_get_problem(self.p, i)
        return Problem(self.lib, q) if q else None

    def by(self, f, d, i):
        q = self.lib.coco_suite_get_problem_by_function_dimension_instance(self.p, f, d, i)
        return Problem(self.lib, q) if q else None

    def free(self):
        self.lib.coco_suite_free(self.p)
        self.p = None


class Observer:
    def __init__(self, lib, name, options=""):
        self.lib = lib
        self.p = lib.coco_observer(b(name), b(options))

    @property
    def folder(self):
        return self.lib.coco_observer_get_result_folder(self.p).decode("utf-8", "surrogateescape")

    def restart(self, prob):
        self.lib.coco_observer_signal_restart(self.p, prob.p)

    def free(self):
        self.lib.coco_observer_free(self.p)
        self.p = None


class Problem:
    def __init__(self, lib, p):
        self.lib, self.p = lib, p
        self.refresh()

    def refresh(self):
        l, p = self.lib, self.p
        self.d = l.coco_problem_get_dimension(p)
        self.m = l.coco_problem_get_number_of_objectives(p)
        self.nc = l.coco_problem_get_number_of_constraints(p)
        self.ni = l.coco_problem_get_number_of_integer_variables(p)

    id = property(lambda s: s.lib.coco_problem_get_id(s.p).decode())
    name = property(lambda s: s.lib.coco_problem_get_name(s.p).decode())
    type = property(lambda s: (s.lib.coco_problem_get_type(s.p) or b"").decode())
    evals = property(lambda s: s.lib.coco_problem_get_evaluations(s.p))
    cevals = property(lambda s: s.lib.coco_problem_get_evaluations_constraints(s.p))
    index = property(lambda s: s.lib.coco_problem_get_suite_dep_index(s.p))
    hit = property(lambda s: s.lib.coco_problem_final_target_hit(s.p))
    best1 = property(lambda s: s.lib.coco_problem_get_best_observed_fvalue1(s.p))
    best_observed = property(lambda s: s.lib.coco_problem_get_best_observed_fvalue1(s.p))
    best_value = property(lambda s: s.lib.coco_problem_get_best_value(s.p))

    def _vec(self, ptr, n):
        return np.ctypeslib.as_array(ptr, (n,)).copy() if ptr else None

    @property
    def lower(self):
        return self._vec(self.lib.coco_problem_get_smallest_values_of_interest(self.p), self.d)

    @property
    def upper(self):
        return self._vec(self.lib.coco_problem_get_largest_values_of_interest(self.p), self.d)

    @property
    def nadir(self):
        return self._vec(self.lib.coco_problem_get_largest_fvalues_of_interest(self.p), self.m)

    def initial(self):
        x = np.full(self.d, 1e300)
        self.lib.coco_problem_get_initial_solution(self.p, x.ctypes.data)
        return x

    def best_parameter(self):
        x = np.full(self.d, 1e300)
        self.lib.coco_problem_get_best_parameter(self.p, x.ctypes.data)
        return x

    def f(self, x):
        x = np.ascontiguousarray(x, float)
        y = np.full(self.m, 1e300)
        self.lib.coco_evaluate_function(self.p, x.ctypes.data, y.ctypes.data)
        return y

    def c(self, x):
        x = np.ascontiguousarray(x, float)
        y = np.full(max(self.nc, 1), 1e300)
        self.lib.coco_evaluate_constraint(self.p, x.ctypes.data, y.ctypes.data)
        return y[:self.nc]

    def F(self, X):
        X = np.ascontiguousarray(X, float)
        n = X.shape[0]
        Y = np.full((n, self.m), 1e300)
        self.lib.vf_eval_batch(self.p, X.ctypes.data, n, self.d, Y.ctypes.data, self.m)
        return Y

    def G(self, X):
        X = np.ascontiguousarray(X, float)
        n = X.shape[0]
        Y = np.full((n, self.nc), 1e300)
        self.lib.vf_cons_batch(self.p, X.ctypes.data, n, self.d, Y.ctypes.data, self.nc)
        return Y

    def recommend(self, x):
        x = np.ascontiguousarray(x, float)
        self.lib.coco_recommend_solution(self.p, x.ctypes.data)

    def observe(self, obs):
        self.p = self.lib.coco_problem_add_observer(self.p, obs.p)
        return self

    def unobserve(self, obs):
        self.p = self.lib.coco_problem_remove_observer(self.p, obs.p)
        return self

    def free(self):
        self.lib.coco_problem_free(self.p)
        self.p = None
