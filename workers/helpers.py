"""Jobs of C26 that need real problems; run in a forked child of pyworker.py."""
import json
import numpy as np


def num(v):
    v = float(v)
    return "nan" if v != v else v.hex()


def vec(h):
    return [float.fromhex(t) for t in h]


def nonanytime(j, ex):
    from cocoex.utilities import ProblemNonAnytime
    res = []
    s = ex.Suite(*j["suite"])
    o = ex.Observer("bbob", j["observer"])
    for index, ops in j["problems"]:
        with ProblemNonAnytime(s, o, index) as p:
            res.append([p.id, p.index, p.dimension, p.name, [num(v) for v in p.initial_solution], [num(v) for v in p.lower_bounds], [num(v) for v in p.upper_bounds],
                        p.number_of_constraints, p.number_of_objectives, p.number_of_variables])
            for op in ops:
                try:
                    if op[0] == "call":
                        r = num(p(vec(op[1])))
                    elif op[0] == "deliver":
                        r = p.delivered(vec(op[1]))
                    elif op[0] == "reset":
                        r = p.reset()
                    else:
                        x = np.asarray(p.random_solution)
                        r = bool(len(x) == p.dimension and np.all(x >= p.lower_bounds) and np.all(x <= p.upper_bounds))
                except ValueError as e:
                    r = "ValueError"
                res.append([r, p.evaluations, num(p.best_observed_fvalue1), bool(p.final_target_hit)])
    return res


def walk(j, ex):
    """The loop of the documentation with real problems: batches, repetitions, proposals."""
    s = ex.Suite(*j["suite"])
    res = {"batches": [], "sweeps": []}
    for b in range(j["batches"]):
        t = ex.BatchScheduler(j["batches"], b)
        res["batches"].append([[p.id for p in s if t.is_in_batch(p)] for _ in range(2)])
    f = ex.utilities.SameFunction()
    res["same"] = [[p.id, f(p.id)] for p in s]
    rep = ex.ExperimentRepeater(j["multiplier"], j["successes"])
    n = 0
    while not rep.done(message=False) and n < 500:
        sweep = []
        for p in s:
            if rep.done(p):
                continue
            k = j["work"][n % len(j["work"])]
            n += 1
            x = rep.initial_solution_proposal(p)
            xo = vec(j["opt"][p.id]) if k[1] and p.id in j["opt"] else None
            for i in range(k[0]):
                p(x if i == 0 or xo is None else xo)
            rep.track(p)
            sweep.append([p.id_function, p.dimension, p.id_instance, p.evaluations, bool(p.final_target_hit)])
        res["sweeps"].append(sweep)
    res["end"] = {"%d,%d" % k: v for k, v in rep.all(rep.evaluations).items()}
    res["trials"] = {"%d,%d" % k: v for k, v in rep.all("trials").items()}
    res["suc"] = {"%d,%d" % k: v for k, v in rep.all(rep.successes).items()}
    return res


def search(j, ex):
    s = ex.Suite(*j["suite"])
    p = s[j["index"]]
    log, con = [], []

    class F:
        number_of_constraints, number_of_objectives = p.number_of_constraints, p.number_of_objectives
        dimension = p.dimension
        number_of_variables = p.dimension
        lower_bounds, upper_bounds, id, name, index = p.lower_bounds, p.upper_bounds, p.id, p.name, p.index

        def __call__(self, x):
            y = p(x)
            log.append((np.array(x), y))
            return y

        def constraint(self, x):
            g = p.constraint(x)
            con.append((np.array(x), np.array(g)))
            return g
    np.random.seed(j["seed"])
    x = ex.solvers.random_search(F(), p.lower_bounds, p.upper_bounds, j["budget"])
    ok = [all(v >= a for v, a in zip(q[0], p.lower_bounds)) and all(v <= b for v, b in zip(q[0], p.upper_bounds)) for q in log]
    r = dict(n=len(log), c=len(con), inside=all(ok), objectives=p.number_of_objectives, constraints=p.number_of_constraints,
             distinct=len({q[0].tobytes() for q in log}), none=x is None)
    if p.number_of_objectives == 1:
        if con:
            g = {q[0].tobytes(): bool(np.all(q[1] <= 0)) for q in con}
            ys = [q for q in log if g.get(q[0].tobytes(), False)]
        else:
            ys = log
        r["feasible"] = len(ys)
        r["best"] = (x is not None and any(np.array_equal(q[0], x) and q[1] == min(t[1] for t in ys) for q in ys)) if ys else x is None
    return r


def run(job, w, ex):
    ex.log_level("error")
    r = {"nonanytime": nonanytime, "walk": walk, "search": search}[job["kind"]](job, ex)
    w.write(json.dumps(r) + "\n")
    w.write('"end"\n')
    w.flush()
