"""C32, Python: hyperparameters updated by data stand in for the data, in every flavor."""
import itertools
import math

import numpy

import models as M
from harness import QUICK, R, job, main

BASE = {"bb": 1e-3, "bnb": 1e-3, "dd": 1e-3, "dpd": 1e-3, "gp": 1e-3, "nich": 0.035, "niw": 5e-3}
SIZE = {"niw": 2} if QUICK else {"niw": 2, "bb": 6, "dd": 4}


def updated(model, raw, xs):
    """The textbook posterior, as hyperparameters."""
    p, n = M.copied(raw), len(xs)
    if model == "bb":
        p["alpha"] += sum(map(bool, xs))
        p["beta"] += n - sum(map(bool, xs))
    elif model == "bnb":
        p["alpha"] += raw["r"] * n
        p["beta"] += sum(xs)
    elif model == "gp":
        p["alpha"] += sum(xs)
        p["inv_beta"] += n
    elif model == "dd":
        p["alphas"] = [a + xs.count(i) for i, a in enumerate(raw["alphas"])]
    elif model == "dpd":
        p["alpha"] += n
        p["betas"] = {k: (raw["alpha"] * b + xs.count(k)) / p["alpha"] for k, b in raw["betas"].items()}
    elif n and model == "nich":
        m = math.fsum(xs) / n
        p["kappa"] += n
        p["nu"] += n
        p["mu"] = (raw["kappa"] * raw["mu"] + math.fsum(xs)) / p["kappa"]
        p["sigmasq"] = (raw["nu"] * raw["sigmasq"] + math.fsum((x - m) ** 2 for x in xs) + n * raw["kappa"] * (raw["mu"] - m) ** 2 / p["kappa"]) / p["nu"]
    elif n and model == "niw":
        m = sum(xs) / n
        p["kappa"] += n
        p["nu"] += n
        p["mu"] = (raw["kappa"] * raw["mu"] + sum(xs)) / p["kappa"]
        p["psi"] = raw["psi"] + sum(numpy.outer(x - m, x - m) for x in xs) + raw["kappa"] * n / p["kappa"] * numpy.outer(m - raw["mu"], m - raw["mu"])
    return p


def build(mod, raw, xs):
    s = mod.Shared()
    s.load(M.copied(raw))
    g = mod.Group()
    g.init(s)
    for x in xs:
        g.add_value(s, x)
    return s, g


def magnitude(model, raw, xs):
    if model in ("nich", "niw"):
        t = raw["nu"] + raw["kappa"] + len(xs)
    else:
        t = sum(v for k, v in raw.items() if k in ("alpha", "beta")) + sum(raw.get("alphas", [])) + len(xs) * raw.get("r", 1)
        if model in ("gp", "bnb"):
            t += sum(xs)
    return t * math.log(2 + t)


def stages(flavor, model, index):
    mod = M.module(flavor, model)
    raw, alphabet, more = M.PARAMS[model][index]
    size = SIZE.get(model, 3)
    bags = [list(b) for k in range(size + 1) for b in itertools.combinations_with_replacement(range(len(alphabet)), k)]
    bags += [[i] * 40 for i in range(len(alphabet))]
    probes = [v for v in alphabet + more if model != "dpd" or v in raw["betas"]]
    for a in bags:
        xa = [alphabet[i] for i in a]
        after = updated(model, raw, xa)
        s, ga = build(mod, raw, xa)
        if hasattr(s, "plus_group"):
            kept = s.dump()
            got = s.plus_group(ga).dump()
            R.check(M.shape(got) == M.shape(after) and all(M.close(x, y, 1e-5 if flavor == "lp" else 1e-8) for x, y in zip(M.flat(got), M.flat(after))), "plus_group",
                    lambda: "%s %s %s updated by %s: %s, should be %s" % (flavor, model, raw, a, got, after))
            R.check(M.flat(kept) == M.flat(s.dump()), "prior-changed", lambda: "%s %s: plus_group changed the hyperparameters it started from" % (flavor, model))
        for b in bags:
            xb = [alphabet[i] for i in b]
            p, gb = build(mod, after, xb)
            _, gab = build(mod, raw, xa + xb)
            R.states += 1
            R.transitions += 1
            tol = 1e-7 + 1e-12 * magnitude(model, raw, xa + xb) if flavor != "lp" else BASE[model] + 4e-6 * magnitude(model, raw, xa + xb)
            where = lambda: "%s %s %s: data %s then %s" % (flavor, model, raw, a, b)
            one, two = float(gb.score_data(p)), float(gab.score_data(s)) - float(ga.score_data(s))
            scale = 1 + abs(float(gab.score_data(s)))
            R.check(abs(one - two) <= tol * (3 if flavor == "lp" else 1) * (scale if flavor != "lp" or model in ("nich", "niw") else 1), "score_data", lambda: "%s: score_data is %r in two stages, %r at once" % (where(), one, two))
            for v in probes:
                one, two = float(gb.score_value(p, v)), float(gab.score_value(s, v))
                R.check(abs(one - two) <= tol * max(1.0, abs(two)), "score_value", lambda: "%s: %s scores %r in two stages, %r at once" % (where(), M.name_of(v), one, two))
    R.traces += 1
    R.sample("%s %s: %d pairs of data" % (flavor, model, len(bags) ** 2))


def jobs():
    for model in sorted(M.PARAMS):
        for flavor in M.FLAVORS[model]:
            for i in range(len(M.PARAMS[model])):
                job("%s/%s/%d" % (flavor, model, i), stages, flavor, model, i)


if __name__ == "__main__":
    jobs()
    main()
