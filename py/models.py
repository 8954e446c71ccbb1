"""The seven models in their Python flavors: the modules, parameters, values to
observe, and how to compare what they report."""
import importlib
import math

import numpy

FLAVORS = {
    "bb": ("dbg", "lp"), "bnb": ("dbg", "lp"), "dd": ("dbg", "hp", "lp"), "dpd": ("dbg", "lp"),
    "gp": ("dbg", "hp", "lp"), "nich": ("dbg", "hp", "lp"), "niw": ("dbg", "lp"),
}


def module(flavor, name):
    return importlib.import_module("distributions.%s.models.%s" % (flavor, name))


def niw(d, mu, kappa, nu, scale=1.0):
    psi = numpy.eye(d) * scale + 0.25 * (numpy.ones((d, d)) - numpy.eye(d))
    return {"mu": numpy.array(mu, dtype=float), "kappa": kappa, "psi": psi, "nu": nu}


def vec(*x):
    return numpy.array(x, dtype=float)


# name -> list of (shared parameters, values to add, further values to score)
PARAMS = {
    "bb": [({"alpha": a, "beta": b}, [False, True], []) for a, b in ((0.5, 2.0), (10.5, 0.5), (1.0, 1.0), (0.01, 100.0), (1000.0, 0.001))],
    "bnb": [({"alpha": a, "beta": b, "r": r}, v, w) for a, b, r, v, w in (
        (1.0, 1.0, 1, [0, 1, 3], [2, 40]), (10.5, 2.5, 3, [0, 2, 7], [1]), (0.5, 40.0, 10, [0, 1, 25], [100]))],
    "dd": [({"alphas": a}, v, w) for a, v, w in (
        ([0.5] * 4, [0, 1, 3], [2]), ([1.0, 4.0], [0, 1], []), ([2.0 / n for n in range(1, 21)], [0, 7, 19], [18]),
        ([0.25], [0], []), ([0.01] * 256, [0, 255], [128]), ([100.0, 0.001, 3.0], [0, 1, 2], []))],
    "dpd": [({"gamma": g, "alpha": a, "betas": b, "counts": {k: 1 for k in b}}, v, w) for g, a, b, v, w in (
        (0.5, 0.5, {0: 0.25, 7: 0.5, 8: 0.25}, [0, 7, 8], []),
        (2.0, 2.0, {0: 0.125, 1: 0.25, 2: 0.0625, 5: 0.0625}, [0, 1, 5], [2, 0xFFFFFFFF]),
        (1.0, 40.0, {3: 0.5, 0xFFFFFFF0: 0.25}, [3, 0xFFFFFFF0], [0xFFFFFFFF]),
        (0.1, 0.01, {i: 1.0 / 128 for i in range(64)}, [0, 63], [31, 0xFFFFFFFF]))],
    "gp": [({"alpha": a, "inv_beta": b}, v, w) for a, b, v, w in (
        (1.0, 1.0, [0, 1, 3], [2, 12]), (0.3, 2.0, [0, 1, 40], [5]), (20.0, 0.5, [0, 2, 9], [200]))],
    "nich": [({"mu": m, "kappa": k, "sigmasq": s, "nu": n}, v, w) for m, k, s, n, v, w in (
        (0.0, 1.0, 1.0, 1.0, [-4.0, 0.5, 2.0], [0.0, 7.0]), (3.0, 0.25, 4.0, 2.0, [0.0, 1.0, 3.5], [-2.0]),
        (-10.0, 50.0, 0.04, 30.0, [-10.1, -9.5, 4.0], [0.0]))],
    "niw": [(p, v, w) for p, v, w in (
        (niw(1, [0.5], 2.0, 3.0), [vec(1.0), vec(-2.0), vec(0.25)], [vec(3.0)]),
        (niw(2, [0.0, 0.0], 2.0, 3.0), [vec(1.0, 2.0), vec(-2.0, 3.0), vec(-0.2, -0.2)], [vec(4.0, 0.0)]),
        (niw(3, [1.0, 1.0, 1.0], 7.5, 5.0, 2.0), [vec(1.35, 0.97, 0.88), vec(-0.31, 1.48, 1.96)], [vec(0.0, 0.0, 0.0)]))],
}


def flat(x):
    """The numbers in a dumped state, in a fixed order."""
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if isinstance(x, numpy.ndarray):
        return [float(z) for z in x.flatten()]
    return [x]


def shape(x):
    if isinstance(x, dict):
        return {k: shape(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [shape(v) for v in x]
    if isinstance(x, numpy.ndarray):
        return tuple(x.shape)
    return "number"


def close(a, b, tol, scale=1.0):
    """tol is relative to the larger of the numbers and scale."""
    if isinstance(a, (int, numpy.integer)) and isinstance(b, (int, numpy.integer)) and tol < 1:
        return int(a) == int(b)
    a, b = float(a), float(b)
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    return abs(a - b) <= tol * max(scale, abs(a), abs(b))


def gap(a, b, scale=1.0):
    a, b = float(a), float(b)
    if a == b:
        return 0.0
    d = abs(a - b) / max(scale, abs(a), abs(b))
    return d if d == d else float("inf")


def states_close(a, b, tol, scale=1.0):
    return shape(a) == shape(b) and all(close(x, y, tol, scale) for x, y in zip(flat(a), flat(b)))


def key(x):
    """A hashable value that tells states apart exactly."""
    if isinstance(x, dict):
        return tuple((k, key(x[k])) for k in sorted(x))
    if isinstance(x, (list, tuple)):
        return tuple(key(y) for y in x)
    if isinstance(x, numpy.ndarray):
        return x.tobytes()
    return repr(x)


def name_of(v):
    return "(" + " ".join("%g" % x for x in v) + ")" if isinstance(v, numpy.ndarray) else repr(v)


def copied(raw):
    """A deep copy of a dict of parameters."""
    if isinstance(raw, dict):
        return {k: copied(v) for k, v in raw.items()}
    if isinstance(raw, list):
        return [copied(v) for v in raw]
    if isinstance(raw, numpy.ndarray):
        return raw.copy()
    return raw


def restart_rng(seed):
    """A fresh C++ generator, after `seed` draws (it has no way to be seeded)."""
    import distributions.rng
    import distributions.lp.random
    distributions.rng.global_rng.cc = distributions.rng.rng_cc.RngCc()
    for _ in range(seed):
        distributions.lp.random.sample_discrete(numpy.array([0.5, 0.5], dtype=numpy.float32))
