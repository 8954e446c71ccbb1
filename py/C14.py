"""C14, the Python side: a seed fixes what every Python sampler draws, whatever
ran before; each flavor draws from its own generator only, and scoring from none."""
import random

import numpy

import models as M
from harness import QUICK, R, SEED, job, main

MOD = 2147483647


def exact(x):
    """Every bit of a result."""
    if isinstance(x, dict):
        return ("dict",) + tuple((k, exact(x[k])) for k in sorted(x))
    if isinstance(x, (list, tuple)):
        return ("list",) + tuple(exact(y) for y in x)
    if isinstance(x, numpy.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (float, numpy.floating)):
        return float(x).hex() if x == x else "nan"
    if isinstance(x, (bool, numpy.bool_)):
        return bool(x)
    return int(x) if isinstance(x, (int, numpy.integer)) else x


class World(object):
    """The three generators a Python program has: the package's C++ one, numpy's, and Python's own."""

    def __init__(self):
        import distributions.hp.random as H
        self.H = H

    def set(self, s):
        self.H.seed(s)
        numpy.random.seed(s)
        random.seed(s)

    def observe(self):
        """How far each generator has come (moves the C++ one)."""
        st = numpy.random.get_state()
        return [self.H.random() % (1 << 32), (st[1].tobytes(), st[2], st[3], st[4]), random.getstate()]


def operations():
    """name -> (function, what it may draw from)"""
    import distributions.dbg.clustering as DC
    import distributions.dbg.random as D
    import distributions.hp.random as H
    import distributions.lp.clustering as LC
    import distributions.lp.random as L
    ops = {}

    def op(name, source, f):
        ops[name] = (f, source)

    for model in sorted(M.PARAMS):
        for flavor in M.FLAVORS[model]:
            mod = M.module(flavor, model)
            source = "numpy" if flavor == "dbg" else "cc"
            for i, (raw, alphabet, _) in enumerate(M.PARAMS[model]):
                if i > (1 if model == "dpd" else 0 if QUICK else 2) or (flavor, model, raw.get("alpha", 1) < 1) == ("lp", "bnb", True):
                    continue
                name = "%s/%s/%d/" % (flavor, model, i)

                def build(mod=mod, raw=raw, alphabet=alphabet, n=3):
                    shared = mod.Shared()
                    shared.load(M.copied(raw))
                    group = mod.Group()
                    group.init(shared)
                    for k in range(n):
                        group.add_value(shared, alphabet[k % len(alphabet)])
                    return shared, group
                shared, group = build()
                # on objects of its own, and on objects all calls share
                op(name + "sample_value", source, lambda build=build: (lambda s, g: [g.sample_value(s), g.sample_value(s)])(*build()))
                op(name + "sample_value, kept group", source, lambda shared=shared, group=group: group.sample_value(shared))
                op(name + "sample_group", source, lambda mod=mod, shared=shared: mod.sample_group(shared, 3))
                sampler = mod.Sampler()

                def through(sampler=sampler, shared=shared, group=group):
                    sampler.init(shared, group)
                    return [sampler.eval(shared), sampler.eval(shared)]
                op(name + "sampler", source, through)

                def score(mod=mod, build=build, alphabet=alphabet):
                    shared, group = build()
                    group.add_value(shared, alphabet[0])
                    group.remove_value(shared, alphabet[0])
                    out = [group.score_value(shared, x) for x in alphabet] + [group.score_data(shared), group.dump(), shared.dump()]
                    if hasattr(mod, "Mixture"):
                        m = mod.Mixture()
                        m.append(group)
                        m.init(shared)
                        m.add_group(shared)
                        scores = numpy.zeros(2, dtype=numpy.float32)
                        m.score_value(shared, alphabet[0], scores)
                        out.append(scores)
                    return out
                if model != "dpd":
                    op(name + "scores", None, score)
                elif flavor == "lp" and sum(raw["betas"].values()) < 0.9:
                    def meet(mod=mod, raw=raw):
                        shared = mod.Shared()
                        shared.load(M.copied(raw))
                        shared.add_value(1000)
                        return shared.dump()
                    op(name + "new value", source, meet)
    for name, f in (("discrete", lambda: D.sample_discrete([0.2, 0.3, 0.5])), ("discrete_log", lambda: D.sample_discrete_log([1.0, 2.0, 0.5])),
                    ("normal", lambda: D.sample_normal(1.0, 2.0)), ("chi2", lambda: D.sample_chi2(3.0)), ("stick", lambda: D.sample_stick(1.0)),
                    ("wishart", lambda: D.sample_wishart(3, numpy.eye(2))), ("inverse_wishart", lambda: D.sample_inverse_wishart(4, numpy.eye(2))),
                    ("student_t", lambda: D.sample_student_t(3.0, numpy.zeros(2), numpy.eye(2))), ("negative_binomial", lambda: D.sample_negative_binomial(0.5, 3)),
                    ("normal_inverse_wishart", lambda: list(D.sample_normal_inverse_wishart(numpy.zeros(2), 1.0, numpy.eye(2), 4))),
                    ("partition_from_counts", lambda: [list(p) for p in D.sample_partition_from_counts(list("abcde"), [2, 3])])):
        op("dbg/" + name, "numpy", f)
    op("dbg/LowEntropy", "numpy", lambda: DC.LowEntropy.from_dict({"dataset_size": 10}).sample_assignments(6))
    op("lp/PitmanYor", "cc", lambda: LC.PitmanYor.from_dict({"alpha": 1.0, "d": 0.2}).sample_assignments(6))
    op("lp/LowEntropy", "cc", lambda: LC.LowEntropy.from_dict({"dataset_size": 10}).sample_assignments(6))
    for name, f in (("normal", lambda: H.sample_normal(0.0, 1.0)), ("chisq", lambda: H.sample_chisq(3.0)), ("gamma", lambda: H.sample_gamma(2.0, 1.0)), ("poisson", lambda: H.sample_poisson(5.0))):
        op("hp/" + name, "cc", f)
    p = numpy.array([0.2, 0.3, 0.5], dtype=numpy.float32)
    op("lp/discrete", "cc", lambda: L.sample_discrete(p))
    op("lp/prob_from_scores", "cc", lambda: list(L.sample_prob_from_scores([0.1, 2.0, 1.0])))
    op("lp/pair_from_urn", "cc", lambda: list(L.sample_pair_from_urn(["a", "b", "c"])))

    def own():
        r = L.RNG()
        r.seed(7)
        return [int(r()) for _ in range(3)]
    op("lp/RNG of its own", None, own)
    return ops


SOURCES = {"cc": 0, "numpy": 1, None: None}
NAMES = ("the package's generator", "numpy's generator", "Python's own generator")


def pairs(part, parts):
    w, ops = World(), operations()
    names = sorted(ops)
    seeds = [12345 + SEED] if QUICK else [1, 12345 + SEED, MOD - 2]
    for s in seeds:
        w.set(s)
        still = w.observe()
        base = {}
        for a in names:
            f, source = ops[a]
            w.set(s)
            value = exact(f())
            base[a] = (value, w.observe())
            R.transitions += 1
            for i, what in enumerate(NAMES):
                moved = base[a][1][i] != still[i]
                R.check(moved == (SOURCES[source] == i), "source", lambda: "%s from seed %d: %s %s" % (a, s, what, "is drawn from" if moved else "is not drawn from"))
        for j, a in enumerate(names):
            if j % parts != part:
                continue
            for b in names:
                w.set(s + 1)
                ops[b][0]()
                w.set(s)
                got = (exact(ops[a][0]()), w.observe())
                R.transitions += 2
                R.states += 1
                R.check(got == base[a], "reproducible", lambda: "%s from seed %d gives %r after %s, and %r at first" % (a, s, got[0], b, base[a][0]))
                # the other way round: what b leaves is all that a can see
                w.set(s)
                ops[b][0]()
                once = (exact(ops[a][0]()), w.observe())
                w.set(s)
                ops[b][0]()
                twice = (exact(ops[a][0]()), w.observe())
                R.transitions += 4
                R.check(once == twice, "reproducible", lambda: "%s then %s from seed %d give %r, and again %r" % (b, a, s, once[0], twice[0]))
        R.traces += 1
    R.extra["operations"] = len(names)


def variety():
    """Different states give different draws: no sampler holds on to an old one."""
    w, ops = World(), operations()
    for a in sorted(ops):
        f, source = ops[a]
        if source is None:
            continue
        seen = set()
        for s in range(1, 64):
            w.set(s * 7919 + SEED)
            seen.add(repr(exact(f())))
            R.transitions += 1
            R.states += 1
        R.check(len(seen) > 1, "constant", lambda: "%s gives %s from 63 seeds" % (a, list(seen)[0]))
        w.set(5)
        run = set()
        for _ in range(63):
            run.add(repr(exact(f())))
            R.transitions += 1
        R.check(len(run) > 1, "constant", lambda: "63 draws of %s in a row give %s" % (a, list(run)[0]))
        R.traces += 1


def seeding():
    """The seeds themselves, and that both seed functions reach every sampler."""
    import distributions.dbg.random as D
    import distributions.hp.random as H
    import distributions.lp.random as L
    for s in [1, 2, 3, 16807, MOD - 1, 1 << 20] + list(range(100, 140)):
        H.seed(s)
        x = s
        for i in range(5):
            x = x * 16807 % MOD
            got = H.random() % (1 << 32)
            R.check(got == x, "seed", lambda: "draw %d after seed(%d) is %d, should be %d" % (i, s, got, x))
        r = L.RNG()
        r.seed(s)
        R.check(int(r()) == s * 16807 % MOD, "seed", "lp RNG seeded with %d" % s)
        D.seed(s)
        a = D.sample_normal(0, 1)
        numpy.random.seed(s)
        b = D.sample_normal(0, 1)
        R.check(a == b, "seed", "dbg seed(%d) is not numpy's" % s)
        R.states += 1
        R.transitions += 8
    R.traces += 1


def jobs():
    for i in range(7):
        job("python/%d" % i, pairs, i, 7)
    job("python/variety", variety)
    job("python/seeding", seeding)


if __name__ == "__main__":
    jobs()
    main()
