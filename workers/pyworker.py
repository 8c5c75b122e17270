"""Runs scripts of Python-level operations against the cocoex package; one forked child per script."""
import gc, json, os, sys, traceback, warnings
sys.path.insert(0, sys.argv[1])
import numpy as np
import cocoex as ex
from cocoex import interface
warnings.simplefilter("ignore")


def num(v):
    v = float(v)
    return "nan" if v != v else v.hex()


def out(v):
    if v is None or isinstance(v, (bool, str, int)):
        return v
    if isinstance(v, bytes):
        return {"bytes": v.decode("utf-8", "replace")}
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return num(v)
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return out(v.item())
    if isinstance(v, np.ndarray):
        return [out(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [out(x) for x in v]
    if isinstance(v, dict):
        return {str(k): out(x) for k, x in v.items()}
    return {"repr": repr(v)[:80]}


def arr(form, x):
    x = [float.fromhex(t) if isinstance(t, str) else t for t in x]
    if form == "list":
        return list(x)
    if form == "tuple":
        return tuple(x)
    if form == "ints":
        return [int(v) for v in x]
    if form == "mixed":
        return [int(v) if v == int(v) else v for v in x]
    a = np.array(x, float)
    if form == "f8":
        return a
    if form == "f4":
        return a.astype(np.float32)
    if form == "f2":
        return a.astype(np.float16)
    if form == "ld":
        return a.astype(np.longdouble)
    if form in ("i8", "i1", "i4", "u1"):
        return a.astype("<" + form)
    if form == "swap":
        return a.astype(">f8")
    if form == "swapi":
        return a.astype(">i4")
    if form == "strided":
        b = np.full(3 * len(a) + 1, 99.0)
        b[1:1 + 3 * len(a):3] = a
        return b[1:1 + 3 * len(a):3]
    if form == "reversed":
        return a[::-1].copy()[::-1]
    if form == "column":
        b = np.full((len(a), 4), 7.0)
        b[:, 2] = a
        return b[:, 2]
    if form == "frow":
        b = np.full((4, len(a)), 7.0, order="F")
        b[2, :] = a
        return b[2, :]
    if form == "readonly":
        a.flags.writeable = False
        return a
    if form == "object":
        return np.array(x, dtype=object)
    if form == "unaligned":
        raw = np.zeros(8 * len(a) + 1, np.uint8)
        v = raw[1:].view(np.float64)
        v[:] = a
        return v
    if form == "bytesub":
        class A(np.ndarray):
            pass
        return a.view(A)
    # not acceptable
    if form == "none":
        return None
    if form == "text":
        return "abc"
    if form == "words":
        return ["a"] * len(x)
    if form == "dict":
        return {i: v for i, v in enumerate(x)}
    if form == "ragged":
        return [[1.0], [1.0, 2.0]]
    if form == "scalar":
        return 1.5
    raise KeyError(form)


def mat(form, X):
    A = np.array([[float.fromhex(t) for t in r] for r in X], float)
    if form == "lists":
        return A.tolist()
    if form == "f8":
        return A
    if form == "F":
        return np.asfortranarray(A)
    if form == "cut":
        B = np.full((2 * A.shape[0] + 1, A.shape[1] + 3), 5.0)
        B[:2 * A.shape[0]:2, 1:1 + A.shape[1]] = A
        return B[:2 * A.shape[0]:2, 1:1 + A.shape[1]]
    if form == "i8":
        return A.astype(np.int64)
    if form == "f4":
        return A.astype(np.float32)
    if form == "swap":
        return A.astype(">f8")
    if form == "readonly":
        A.flags.writeable = False
        return A
    if form == "3d":
        return A[None]
    raise KeyError(form)


ATTRS = ["id", "name", "index", "dimension", "number_of_variables", "number_of_objectives", "number_of_constraints", "number_of_integer_variables",
         "lower_bounds", "upper_bounds", "initial_solution", "evaluations", "evaluations_constraints", "final_target_hit", "best_observed_fvalue1",
         "largest_fvalues_of_interest", "id_function", "id_instance", "id_triple", "is_observed", "suite", "info"]


class World:
    def __init__(self):
        self.s, self.p, self.o, self.b = {}, {}, {}, {}

    def obs(self, k):
        return None if k is None else self.o[k]

    def op(self, o):
        k, a = o[0], o[1:]
        if k == "suite":
            s = self.s[a[0]] = ex.Suite(a[1], a[2], a[3])
            return [len(s), list(s.ids()), s.problem_names, s.dimensions, s.number_of_objectives, s.indices, s.name, s.instance, s.options]
        if k == "badsuite":
            ex.Suite(*a)
            return "accepted"
        if k == "next":
            p = self.s[a[0]].next_problem(self.obs(a[1]))
            self.p[a[2]] = p
            c = self.s[a[0]].current_problem
            return [None if p is None else p.id, self.s[a[0]].current_index, c is p]
        if k == "reset":
            self.s[a[0]].reset()
            return [self.s[a[0]].current_index, self.s[a[0]].current_problem]
        if k == "iter":
            r = []
            for n, p in enumerate(self.s[a[0]]):
                r.append([p.id, p.evaluations, self.s[a[0]].current_index])
                if a[1] is not None:
                    p([0.5] * p.dimension)
                    r[-1].append(p.evaluations)
                if n + 1 >= a[2]:
                    self.p[a[3]] = p
                    break
            else:
                self.p[a[3]] = None
            return r
        if k == "get":
            key = a[1]
            if a[2] == "np":
                key = np.int64(key)
            s = self.s[a[0]]
            p = self.p[a[3]] = s[key] if a[4] is None and a[2] != "call" else s.get_problem(key, self.obs(a[4]))
            return [p.id, s.current_index]
        if k == "fdi":
            p = self.p[a[4]] = self.s[a[0]].get_problem_by_function_dimension_instance(a[1], a[2], a[3], self.obs(a[5]))
            return [p.id, self.s[a[0]].current_index]
        if k == "ids":
            return self.s[a[0]].ids(*a[1])
        if k == "call":
            return self.p[a[0]](arr(a[1], a[2]))
        if k == "con":
            return self.p[a[0]].constraint(arr(a[1], a[2]))
        if k == "rec":
            return self.p[a[0]].recommend(arr(a[1], a[2]))
        if k == "attr":
            return getattr(self.p[a[0]], a[1])
        if k == "mutate":   # writes into what an attribute returned; the problem must not change
            p = self.p[a[0]]
            v = p([1.0] * p.dimension) if a[1] == "call" else p.constraint([1.0] * p.dimension) if a[1] == "con" else getattr(p, a[1])
            if isinstance(v, np.ndarray):
                v[:] = 1234.5
                if a[1] not in ("call", "con"):
                    getattr(p, a[1])
                return None if np.all(v == 1234.5) else "the array returned before changed when the attribute was read again"
            return None
        if k == "keep":     # a returned array must not change with later calls
            p = self.p[a[0]]
            f = p if a[1] == "call" else p.constraint
            y1 = f(arr(a[2], a[3]))
            c1 = np.array(y1, copy=True)
            f(arr(a[2], a[4]))
            return [c1, y1]
        if k == "argkeep":  # the argument must not be modified
            x = arr(a[1], a[2])
            b = np.array(x, copy=True)
            y = self.p[a[0]](x)
            return [y, bool(np.array_equal(np.asarray(x, float), np.asarray(b, float)))]
        if k == "prop":
            p = self.p[a[0]]
            np.random.seed(a[2])
            r = []
            for n in range(a[3]):
                r.append(p.initial_solution_proposal() if a[1] is None else p.initial_solution_proposal(a[1] + n))
            return r
        if k == "freep":
            return self.p[a[0]].free()
        if k == "with":
            with self.p[a[0]] as p:
                return p.evaluations
        if k == "frees":
            return self.s[a[0]].free()
        if k == "freeo":
            return self.o[a[0]].free()
        if k == "drop":     # forget the object: garbage collection finalizes it
            d = {"s": self.s, "p": self.p, "o": self.o, "b": self.b}[a[0]]
            d.pop(a[1], None)
            gc.collect()
            return None
        if k == "observer":
            o = self.o[a[0]] = ex.Observer(a[1], a[2])
            return [o.result_folder, o.state, o.name]
        if k == "observe":
            if a[2]:
                return self.o[a[0]].observe(self.p[a[1]]) is self.o[a[0]]
            return self.p[a[1]].observe_with(self.o[a[0]]) is self.p[a[1]]
        if k == "restart":
            return self.o[a[0]].signal_restart(self.p[a[1]])
        if k == "folder":
            return self.o[a[0]].result_folder
        if k == "feed":
            return self.p[a[0]].logger_biobj_feed_solution(a[1], arr(a[2], a[3]))
        if k == "level":
            return ex.log_level(a[0])
        if k == "bare":
            b = self.b[a[0]] = ex.BareProblem("".join(list(a[1])), a[2], a[3], a[4])
            junk = ["".join(["z"] * len(a[1])) for _ in range(3)]
            return [str(b), b.id, b.function, b.dimension, b.instance, b.suite_name, repr(b), b.best_value(), b.is_tainted, len(junk)]
        if k == "bcall":
            return self.b[a[0]](arr(a[1], a[2]))
        if k == "bmat":
            return self.b[a[0]](mat(a[1], a[2]))
        if k == "bbest":
            return self.b[a[0]].best_parameter()
        if k == "btaint":
            return self.b[a[0]].is_tainted
        raise KeyError(k)


def child(ops, w):
    W = World()
    ex.log_level("error")
    for o in ops:
        try:
            r = ["ok", out(W.op(o))]
        except BaseException as e:
            if isinstance(e, SystemExit) or (isinstance(e, KeyError) and e.args and e.args[0] in ("op",)):
                r = ["exit", str(e)]
            else:
                r = ["exc", type(e).__name__, str(e)[:300]]
            e = None
        w.write(json.dumps(r) + "\n")
        w.flush()
    for p in W.p.values():
        if p is not None:
            p.free()
    W.p.clear()
    W.b.clear()
    W.s.clear()
    W.o.clear()
    gc.collect()
    w.write('"end"\n')
    w.flush()


def main():
    for line in sys.stdin:
        job = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                os.chdir(job["dir"])
                fd = os.open("stderr.txt", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(fd, 2)
                os.dup2(fd, 1)
                os.mkdir("run")
                os.chdir("run")
                with open("../out.txt", "w") as w:
                    if "helpers" in job:
                        import helpers
                        helpers.run(job["helpers"], w, ex)
                    else:
                        child(job["ops"], w)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(77)
        _, st = os.waitpid(pid, 0)
        sys.__stdout__.write(json.dumps({"status": st}) + "\n")
        sys.__stdout__.flush()


main()
