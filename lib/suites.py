"""The documented content of every suite: functions, dimensions, instance sets, identifiers, names, types, bounds."""
import itertools

D6 = [2, 3, 5, 10, 20, 40]
DM = [5, 10, 20, 40, 80, 160]
TYPES = ["1-separable"] * 5 + ["2-moderate"] * 4 + ["3-ill-conditioned"] * 5 + ["4-multi-modal"] * 5 + ["5-weakly-structured"] * 5
SEL = [1, 2, 6, 8, 13, 14, 15, 17, 20, 21]
_ext = [(1, 3), (1, 4), (1, 5), (2, 3), (2, 4), (2, 5), (3, 4), (3, 5), (4, 5), (6, 7), (6, 9), (7, 8), (7, 9), (8, 9), (10, 11),
        (10, 12), (10, 13), (10, 14), (11, 12), (11, 13), (11, 14), (12, 13), (12, 14), (15, 18), (15, 19), (17, 18), (17, 19),
        (18, 19), (20, 22), (20, 23), (20, 24), (21, 22), (21, 23), (21, 24), (22, 23), (22, 24), (23, 24)]
PAIRS = list(itertools.combinations_with_replacement(SEL, 2)) + _ext      # bi-objective function number - 1 -> bbob functions
BIOBJ_INST = {1: (2, 4), 2: (3, 5), 3: (7, 8), 4: (9, 10), 5: (11, 12), 6: (13, 14), 7: (15, 16), 8: (17, 18), 9: (19, 21),
              10: (21, 22), 11: (23, 24), 12: (25, 26), 13: (27, 28), 14: (29, 30), 15: (31, 34)}
NOISY_GROUP = [1, 8, 1, 8, 7, 10, 14, 17, 19, 21]
NOISY_BASE_FN = [NOISY_GROUP[(f - 101) // 3] for f in range(101, 131)]
TOY = ["sphere", "ellipsoid", "rastrigin", "bueche-rastrigin", "linear_slope", "rosenbrock"]
CONS_BASE = [1, 2, 5, 10, 11, 12, 14, 3, 15]      # objective of constrained function 6k+1..6k+6


def rng(a, b):
    return list(range(a, b + 1))


def bbob_year(y):
    t = [(2023, 101), (2021, 91), (2018, 71), (2017, 61), (2016, 51), (2015, 41), (2013, 31), (2012, 21)]
    if y == 0:
        y = 2016
    for lim, start in t:
        if y >= lim:
            return rng(1, 5) + rng(start, start + 9)
    if y >= 2010:
        return rng(1, 15)
    if y == 2009:
        return rng(1, 5) * 3
    return None


def y15(lo):
    return lambda y: rng(1, 15) if y == 0 or y >= lo else None


SUITES = {
    "bbob": dict(functions=rng(1, 24), dims=D6, default=bbob_year(2018), year=bbob_year),
    "bbob-boxed": dict(functions=rng(1, 24), dims=D6, default=bbob_year(2023),
                       year=lambda y: bbob_year(2023) if y == 2023 else rng(1, 15) if y == 0 else None),
    "bbob-largescale": dict(functions=rng(1, 24), dims=[20, 40, 80, 160, 320, 640], default=rng(1, 15), year=y15(2009)),
    "bbob-noisy": dict(functions=rng(101, 130), dims=D6, default=rng(1, 15), year=lambda y: rng(1, 15) if y <= 2009 else None),
    "bbob-biobj": dict(functions=rng(1, 55), dims=D6, default=rng(1, 15), year=lambda y: rng(1, 10) if y in (0, 2016) else rng(1, 15)),
    "bbob-biobj-ext": dict(functions=rng(1, 92), dims=D6, default=rng(1, 15),
                           year=lambda y: rng(1, 10) if y in (0, 2016) else rng(1, 15)),
    "bbob-mixint": dict(functions=rng(1, 24), dims=DM, default=rng(1, 15), year=lambda y: rng(1, 15)),
    "bbob-biobj-mixint": dict(functions=rng(1, 92), dims=DM, default=rng(1, 15), year=lambda y: rng(1, 15)),
    "bbob-constrained": dict(functions=rng(1, 54), dims=D6, default=rng(1, 15), year=y15(2009)),
    "bbob-constrained-active-only": dict(functions=rng(1, 54), dims=D6, default=rng(1, 15), year=y15(2009)),
    "bbob-constrained-no-disguise": dict(functions=rng(1, 54), dims=D6, default=rng(1, 15), year=y15(2009)),
    "toy": dict(functions=rng(1, 6), dims=[2, 3, 5, 10, 20], default=[1], year=lambda y: None),
}
NAMES = list(SUITES)


def cons_counts(f, D):
    """(active, all) numbers of constraints."""
    k = (f - 1) % 6
    act = [1, 2, 6, 6 + D // 2, 6 + D, 6 + 3 * D][k]
    return act, act + act // 2


def problem_id(suite, f, d, i):
    if suite == "bbob":
        return "bbob_f%03d_i%02d_d%02d" % (f, i, d)
    if suite == "bbob-boxed":
        return "bbob-boxed_f%03d_i%02d_d%02d" % (f, i, d)
    if suite == "bbob-largescale":
        return "bbob_f%03d_i%02d_d%04d" % (f, i, d)
    if suite == "bbob-noisy":
        return "bbob_noisy_f%d_i%02d_d%02d" % (f, i, d)
    if suite in ("bbob-biobj", "bbob-biobj-ext"):
        return "bbob-biobj_f%02d_i%02d_d%02d" % (f, i, d)
    if suite == "bbob-mixint":
        return "bbob-mixint_f%03d_i%02d_d%02d" % (f, i, d)
    if suite == "bbob-biobj-mixint":
        return "bbob-biobj-mixint_f%03d_i%02d_d%03d" % (f, i, d)
    if suite.startswith("bbob-constrained"):
        return "%s_f%03d_i%02d_d%02d" % (suite, f, i, d)
    if suite == "toy":
        return "%s_d%02d" % (TOY[f - 1], d)
    raise ValueError(suite)


def parse_ranges(s, lo, hi, limit=1000):
    """Documented range syntax: comma-separated n, n-m, -m, n-, -; stops at the first range that cannot be used."""
    out = []
    for part in s.split(","):
        if part == "":
            continue
        if part.count("-") > 1:
            break
        if "-" in part:
            a, b = part.split("-")
            if (a == "" and lo == 0) or (b == "" and hi == 0):
                break
            a, b = int(a) if a else lo, int(b) if b else hi
        else:
            a = b = int(part)
        if lo and a < lo:
            a = lo
        if hi and b > hi:
            b = hi
        if a > b:
            break
        out += range(a, min(b, a + limit) + 1)
        out = out[:limit]
    return out or None


def model_selection(suite, instance, options):
    """instance, options: lists of [key, text] in order.
    Returns (functions, dims, instances) with 0 for filtered-out items, or None if the suite cannot be built."""
    S = SUITES[suite]
    if not instance:
        inst = list(S["default"])
    elif instance[0][0] == "year":
        inst = S["year"](int(instance[0][1]))
    else:
        inst = parse_ranges(instance[0][1], 1, 0) or list(S["default"])
    if inst is None:
        return None
    fun, dim = list(S["functions"]), list(S["dims"])

    def by_index(items, text):
        r = parse_ranges(text, 1, len(items))
        return [v if k + 1 in r else 0 for k, v in enumerate(items)] if r else items
    dim_key = next((k for k, _ in options if k in ("dimensions", "dimension_indices")), None)
    for k, t in options:
        if k == "function_indices":
            fun = by_index(fun, t)
        elif k == "instance_indices":
            inst = by_index(inst, t)
        elif k == "dimension_indices" and k == dim_key:
            dim = by_index(dim, t)
        elif k == "dimensions" and k == dim_key:
            r = parse_ranges(t, dim[0], dim[-1])
            if r:
                dim = [v if v in r else 0 for v in dim]
    if not any(dim):
        return None
    return fun, dim, inst


TOY_NAMES = ["sphere function", "ellipsoid function", "Rastrigin function", "Bueche-Rastrigin function", "linear slope function",
             "Rosenbrock function"]


def inner_id(f, d, i, mixed=False):
    """Identifier of the single-objective problem underlying mixed-integer and bi-objective problems."""
    return problem_id("bbob-largescale" if d >= (50 if mixed else 1 << 30) else "bbob", f, d, i)


def levels(d):
    """Numbers of values of the integer variables of the mixed-integer suites, in order (0: continuous)."""
    out = []
    for n in (2, 4, 8, 16, 0):
        out += [n] * (d // 5)
    return out


def descriptor(suite, f, d, i):
    """Documented descriptors of problem (f, d, i): name, type, objectives, constraints, integer variables, bounds."""
    ni, nc, m = 0, 0, 1
    lo, hi = [-5.0] * d, [5.0] * d
    typ = None
    if suite == "bbob":
        name, typ = "BBOB suite problem f%d instance %d in %dD" % (f, i, d), TYPES[f - 1]
    elif suite == "bbob-boxed":
        name, typ = "transform_vars_enforce_box(bbob-boxed suite problem f%d instance %d in %dD)" % (f, i, d), TYPES[f - 1]
    elif suite == "bbob-largescale":
        name, typ = "BBOB large-scale suite problem f%d instance %d in %dD" % (f, i, d), TYPES[f - 1]
    elif suite == "bbob-noisy":
        k = ["gaussian", "uniform", "cauchy"][(f - 101) % 3]
        name = "%s_noise_model(BBOB-NOISY suite problem f%d instance %d in %dD)" % (k, f, i, d)
        typ = TYPES[NOISY_BASE_FN[f - 101] - 1]
    elif suite in ("bbob-mixint", "bbob-biobj-mixint"):
        ni = 4 * d // 5
        big = 100.0 if "biobj" in suite else 5.0
        lo = [0.0 if n else -big for n in levels(d)]
        hi = [n - 1.0 if n else big for n in levels(d)]
    if "biobj" in suite:
        f1, f2 = PAIRS[f - 1]
        i1, i2 = BIOBJ_INST[i]
        mixed = suite == "bbob-biobj-mixint"
        m = 2
        name = inner_id(f1, d, i1, mixed) + "__" + inner_id(f2, d, i2, mixed)
        typ = TYPES[f1 - 1] + "_" + TYPES[f2 - 1]
        if not mixed:
            lo, hi = [-100.0] * d, [100.0] * d
    elif suite == "bbob-mixint":
        name, typ = "mixint(%s)" % inner_id(f, d, i, True), TYPES[f - 1]
    elif suite.startswith("bbob-constrained"):
        act, al = cons_counts(f, d)
        nc = act if suite == "bbob-constrained-active-only" else al
        name = "%s suite problem f%d instance %d in %dD" % (suite, f, i, d)
        typ = TYPES[CONS_BASE[(f - 1) // 6] - 1] + ("_linear" if nc == 1 else "_linear_linear")
    elif suite == "toy":
        name = TOY_NAMES[f - 1]
    return dict(id=problem_id(suite, f, d, i), name=name, type=typ, d=d, m=m, nc=nc, ni=ni, lo=lo, hi=hi)


def optimum(L, args, index):
    """The optimum of the problem with the index in the suite, read from another object (asking for it marks a problem); None for several objectives."""
    s = L.suite(*args)
    q = s.get(index)
    x = q.best_parameter() if q is not None and q.m == 1 else None
    if q is not None:
        q.free()
    s.free()
    return x
