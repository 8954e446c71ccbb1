"""C30: in every flavor, what is sampled follows what is scored; the random
functions of the Python modules follow the distributions they are named after.

Every function under test is run from a whole coset of generator states. The
fast and high-precision flavors draw from the C++ generator, which is put into
each state; the debug flavor draws from numpy's, whose next 624 words are set
to the values a multiplicative generator gives from each state of a coset.
What fraction of the states lands in each cell is compared with the exact
probability of the cell."""
import math

import numpy
import scipy.special
import scipy.stats

import models as M
from harness import QUICK, R, SEED, job, main

MOD = 2147483647      # the generator: x -> 16807 x mod 2^31-1
TOLERANCE = 6.0


def coset(n, mul):
    """n states: a coset of the subgroup of n elements (n divides 2^31-2)."""
    assert (MOD - 1) % n == 0
    g = pow(mul, (MOD - 1) // n, MOD)
    x = 1 + (SEED * 7919) % 1000003
    out = []
    for _ in range(n):
        out.append(x)
        x = x * g % MOD
    return out


class Fast(object):
    """The C++ generator."""
    size = 209286 if QUICK else 330 * 31 * 63
    small = 42966 if QUICK else 209286

    def __init__(self):
        from distributions.hp.random import seed, random
        self.seed = seed
        for s in (1, 2, 12345, MOD - 1):
            seed(s)
            got = random() % (1 << 32)
            if got != s * 16807 % MOD:
                raise SystemExit("the generator is not the one this check enumerates")

    def states(self, n):
        for s in coset(n, 16807):
            self.seed(s)
            yield s


class Numpy(object):
    """numpy's generator, made to put out the words of a multiplicative one."""
    size = 19026 if QUICK else 19026 * 11
    small = 4774 if QUICK else 19026

    def __init__(self):
        self.rand = numpy.random.mtrand._rand
        p, x = [], 1
        for _ in range(624):
            p.append(x)
            x = x * 48271 % MOD
        self.powers = numpy.array(p, dtype=numpy.uint64)
        words = numpy.array([1, 0xFFFFFFFF, 12345, 0x80000000] * 156, dtype=numpy.uint32)
        self.rand.set_state(("MT19937", self.untemper(words), 0, 0, 0.0))
        got = [int(self.rand.randint(0, 1 << 32, dtype=numpy.uint32)) for _ in range(4)]
        if got != [1, 0xFFFFFFFF, 12345, 0x80000000]:
            raise SystemExit("numpy's generator is not the one this check enumerates")

    @staticmethod
    def untemper(y):
        y = y ^ (y >> 18)
        y = y ^ ((y << 15) & numpy.uint32(0xEFC60000))
        x = y
        for _ in range(5):
            x = y ^ ((x << 7) & numpy.uint32(0x9D2C5680))
        y = x
        for _ in range(3):
            x = y ^ (x >> 11)
        return x

    def states(self, n):
        for s in coset(n, 48271):
            words = (self.powers * numpy.uint64(s) % numpy.uint64(MOD)).astype(numpy.uint32)
            self.rand.set_state(("MT19937", self.untemper(words << 1 | words >> 30), 0, 0, 0.0))
            yield s


GEN = {}


def generator(flavor):
    kind = Numpy if flavor == "dbg" else Fast
    if kind not in GEN:
        GEN[kind] = kind()
    return GEN[kind]


def frequencies(what, want, got, n, extra=0.0):
    """want: cell -> probability, got: cell -> count."""
    R.traces += 1
    R.states += 1
    for cell in want:
        p, q = want[cell], got.get(cell, 0) / float(n)
        tol = TOLERANCE * math.sqrt(max(p * (1 - p), 0) / n) + 2e-4 + 8.0 / n + extra
        R.extra["largest_frequency_error"] = max(R.extra.get("largest_frequency_error", 0), abs(p - q))
        R.check(abs(p - q) <= tol, "frequency", lambda: "%s: %s comes up in a fraction %.5f of %d generator states, its probability is %.5f (tolerance %.5f)" % (what, cell, q, n, p, tol))
    odd = [c for c in got if c not in want]
    R.check(not odd, "impossible", lambda: "%s: gives %s, which is impossible" % (what, odd[:5]))


def cells(what, cdf, xs, k=16, lo=None, hi=None):
    """Continuous values: k cells of equal probability."""
    xs = numpy.asarray(xs, dtype=float)
    if not R.check(bool(numpy.isfinite(xs).all()), "not-finite", lambda: "%s: gives %s" % (what, xs[~numpy.isfinite(xs)][:3])):
        return
    u = numpy.clip(cdf(xs), 0, 1 - 1e-12)
    got = numpy.bincount((u * k).astype(int), minlength=k)
    frequencies(what, {"cell %d of %d" % (i, k): 1.0 / k for i in range(k)}, {"cell %d of %d" % (i, k): int(got[i]) for i in range(k)}, len(xs))


def square(what, u, v, k=4):
    """u and v are uniform and independent."""
    u, v = numpy.clip(u, 0, 1 - 1e-12), numpy.clip(v, 0, 1 - 1e-12)
    got = numpy.bincount((u * k).astype(int) * k + (v * k).astype(int), minlength=k * k)
    frequencies(what, {"cell %d" % i: 1.0 / (k * k) for i in range(k * k)}, {"cell %d" % i: int(got[i]) for i in range(k * k)}, len(u))


def counted(values):
    d = {}
    for v in values:
        d[v] = d.get(v, 0) + 1
    return d


def lump(p, least=4e-3):
    """Joins the values of a discrete distribution, in order, until each cell has enough mass."""
    cell_of, want, names, mass = {}, {}, [], 0.0
    for v in sorted(p):
        names.append(v)
        mass += p[v]
        if mass >= least:
            cell = names[0] if len(names) == 1 else "%s..%s" % (names[0], names[-1])
            want[cell] = mass
            cell_of.update((x, cell) for x in names)
            names, mass = [], 0.0
    rest = 1 - sum(want.values())
    return cell_of, want, rest


def discrete(what, p, values, extra=0.0):
    """p: value -> probability, of all but little of the mass; values beyond make up the rest."""
    cell_of, want, rest = lump(p)
    if rest > 1e-6 or extra:
        want["beyond"] = max(rest, 0)
    frequencies(what, want, counted(cell_of.get(v, "beyond") for v in values), len(values), extra)


# ---------------------------------------------------------------------------
# models

OTHER = 0xFFFFFFFF


def support(model, raw, most):
    if model == "bb":
        return [False, True]
    if model == "dd":
        return list(range(len(raw["alphas"])))
    if model == "dpd":
        return sorted(raw["betas"]) + ([OTHER] if 1 - sum(raw["betas"].values()) > 1e-9 else [])
    return range(most)


def pmf(model, shared, raw, group, exact):
    """What the flavor scores, summed until little is left."""
    p, total = {}, 0.0
    for x in support(model, raw, 20000):
        s = math.exp(group.score_value(shared, x))
        if model == "bnb":    # the scores leave out this factor: a known finding of C02
            s *= float(scipy.special.binom(raw["r"] + x - 1, x))
        p[x] = s
        total += s
        if model in ("gp", "bnb") and (total > 0.9999 if exact else total > 0.98 and s < 1e-7):
            break
    return p if exact else {x: p[x] / total for x in p}    # approximate scores add up to one only nearly


def nich_law(raw, xs):
    n = len(xs)
    m = sum(xs) / n if n else 0.0
    kappa, nu = raw["kappa"] + n, raw["nu"] + n
    mu = (raw["kappa"] * raw["mu"] + sum(xs)) / kappa
    s = (raw["nu"] * raw["sigmasq"] + sum((x - m) ** 2 for x in xs) + (n * raw["kappa"] * (raw["mu"] - m) ** 2 / kappa if n else 0.0)) / nu
    return nu, mu, math.sqrt(s * (1 + kappa) / kappa)


def niw_law(raw, xs):
    d, n = len(raw["mu"]), len(xs)
    kappa, nu = raw["kappa"] + n, raw["nu"] + n
    mu, psi = raw["mu"], raw["psi"]
    if n:
        m = sum(xs) / n
        mu = (raw["kappa"] * raw["mu"] + sum(xs)) / kappa
        psi = psi + sum(numpy.outer(x - m, x - m) for x in xs) + raw["kappa"] * n / kappa * numpy.outer(m - raw["mu"], m - raw["mu"])
    dof = nu - d + 1
    return dof, mu, psi * (kappa + 1) / (kappa * dof)


def directions(d):
    out = [numpy.eye(d)[i] for i in range(d)]
    out += [numpy.eye(d)[i] + s * numpy.eye(d)[j] for i in range(d) for j in range(i) for s in (1, -1)]
    return out


PARAMS = dict(M.PARAMS, gp=M.PARAMS["gp"] + [({"alpha": 150.0, "inv_beta": 0.25}, [500, 700, 640], []), ({"alpha": 0.01, "inv_beta": 0.001}, [0, 300, 2], [])],
              bb=M.PARAMS["bb"] + [({"alpha": 300.0, "beta": 900.0}, [False, True], [])],
              nich=M.PARAMS["nich"] + [({"mu": 1000.0, "kappa": 0.01, "sigmasq": 2500.0, "nu": 300.0}, [900.0, 1010.5, 1300.0], []), ({"mu": 0.0, "kappa": 3.0, "sigmasq": 1e-4, "nu": 3.5}, [0.01, -0.02, 0.015], [])],
              dd=M.PARAMS["dd"] + [({"alphas": [1e-3, 2e-3, 3e-3]}, [0, 2], []), ({"alphas": [1e-4, 5.0]}, [0, 1], [])],
              dpd=M.PARAMS["dpd"] + [({"gamma": 3.0, "alpha": 30.0, "betas": {0: 0.75, 4: 0.25 - 2.0 ** -6}, "counts": {0: 5, 4: 1}}, [0, 4], [])],
              niw=M.PARAMS["niw"] + [(M.niw(2, [-3.0, 0.5], 0.25, 5.75), [M.vec(1.0, 2.0), M.vec(-2.0, 3.0)], []), (M.niw(3, [0.0, 1.0, 0.0], 1.5, 90.5), [M.vec(1.0, 2.0, 0.5), M.vec(-2.0, 3.0, 0.0)], [])])
HELD = ([], [0], [0, -1, -1], [1 % 9, 0, 1] * 7 + [-1] * 9, [2, 1, 0, 1, -1] * 100)


def build(mod, raw, xs):
    shared = mod.Shared()
    shared.load(M.copied(raw))
    group = mod.Group()
    group.init(shared)
    for x in xs:
        group.add_value(shared, x)
    return shared, group


def values_of(flavor, model, index, held):
    """sample_value of a group holding data."""
    mod = M.module(flavor, model)
    raw, alphabet, _ = PARAMS[model][index]
    xs = [alphabet[i % len(alphabet)] if i >= 0 else alphabet[-1] for i in HELD[held]]
    shared, group = build(mod, raw, xs)
    what = "%s %s %s, sample_value of a group holding %d values (%s)" % (flavor, model, label(raw), len(xs), HELD[held][:4])
    g = generator(flavor)
    n = g.small if model == "niw" or len(support(model, raw, 1)) > 40 else g.size
    draws = []
    sampler = mod.Sampler()
    for s in g.states(n):
        if s % 2:
            draws.append(group.sample_value(shared))
        else:
            sampler.init(shared, group)
            draws.append(sampler.eval(shared))
        R.transitions += 1
    judge(what, flavor, model, raw, shared, group, xs, draws)


def label(raw):
    parts = []
    for k in sorted(raw):
        if k == "counts":
            continue
        v = raw[k]
        text = str(v.tolist() if hasattr(v, "tolist") else v)
        parts.append("%s=%s" % (k, text if len(text) < 50 else text[:40] + "..."))
    return " ".join(parts)


def judge(what, flavor, model, raw, shared, group, xs, draws):
    if model == "nich":
        nu, mu, sd = nich_law(raw, xs)
        law = scipy.stats.t(nu, mu, sd)
        cells(what, law.cdf, draws)
        for q in (0.01, 0.3, 0.5, 0.9):    # and it is what the flavor scores
            x = float(law.ppf(q))
            R.check(abs(group.score_value(shared, x) - law.logpdf(x)) < (0.04 if flavor == "lp" else 1e-6), "score", lambda: "%s: score_value(%g) is %g, the log density %g" % (what, x, group.score_value(shared, x), law.logpdf(x)))
    elif model == "niw":
        dof, mu, scale = niw_law(raw, xs)
        a = numpy.array(draws, dtype=float)
        for w in directions(len(mu)):
            law = scipy.stats.t(dof, w.dot(mu), math.sqrt(w.dot(scale).dot(w)))
            cells(what + ", along %s" % w, law.cdf, a.dot(w), 12)
        y = a - mu
        z = numpy.einsum("ij,ij->i", y, numpy.linalg.solve(scale, y.T).T)
        cells(what + ", distance", scipy.stats.f(len(mu), dof).cdf, z / len(mu), 12)
    else:
        # the low-precision flavor's scores are approximations
        discrete(what, pmf(model, shared, raw, group, flavor != "lp"), draws, 2e-3 if flavor == "lp" else 0.0)


def groups_of(flavor, model, index):
    """sample_group draws values that go together as the scores say."""
    mod = M.module(flavor, model)
    raw = PARAMS[model][index][0]
    shared, group = build(mod, raw, [])
    what = "%s %s %s, the first two values of sample_group" % (flavor, model, label(raw))
    g = generator(flavor)
    n = g.small if model == "niw" or len(support(model, raw, 1)) > 40 else g.size
    draws = []
    for _ in g.states(n):
        draws.append(mod.sample_group(shared, 2))
        R.transitions += 1
    R.check(all(len(d) == 2 for d in draws), "size", "%s: not two values" % what)
    first, second = [d[0] for d in draws], [d[1] for d in draws]
    judge(what.replace("two values", "value"), flavor, model, raw, shared, group, [], first)
    judge(what.replace("first two values", "second value"), flavor, model, raw, shared, group, [], second)
    if model == "nich":
        law = scipy.stats.t(*nich_law(raw, []))
        u = law.cdf(first)
        x = numpy.array(first, dtype=float)
        kappa, nu = raw["kappa"] + 1, raw["nu"] + 1
        mu = (raw["kappa"] * raw["mu"] + x) / kappa
        s = (raw["nu"] * raw["sigmasq"] + raw["kappa"] * (raw["mu"] - x) ** 2 / kappa) / nu
        square(what, u, scipy.stats.t.cdf((numpy.array(second) - mu) / numpy.sqrt(s * (1 + kappa) / kappa), nu))
    elif model == "niw":
        d = len(raw["mu"])
        w = directions(d)[-1]
        dof, mu, scale = niw_law(raw, [])
        u = scipy.stats.t.cdf((numpy.array(first).dot(w) - w.dot(mu)) / math.sqrt(w.dot(scale).dot(w)), dof)
        v = []
        for a, b in draws:
            dof, mu, scale = niw_law(raw, [numpy.array(a, dtype=float)])
            v.append((numpy.array(b, dtype=float).dot(w) - w.dot(mu)) / math.sqrt(w.dot(scale).dot(w)))
        square(what, u, scipy.stats.t.cdf(v, dof))
    else:
        p = pmf(model, shared, raw, group, flavor != "lp")
        order = sorted(p, key=lambda v: -p[v])[:4]
        want = {}
        for a in order:
            if a == OTHER:
                continue
            _, after = build(mod, raw, [a])
            for b in order:
                t = math.exp(after.score_value(shared, b))
                if model == "bnb":
                    t *= float(scipy.special.binom(raw["r"] + b - 1, b))
                want[(a, b)] = p[a] * t
        rest = 1 - sum(want.values())
        got = counted((a, b) if (a, b) in want else "others" for a, b in draws)
        if rest > 1e-6:
            want["others"] = rest
        frequencies(what, want, got, n, 2e-3 if flavor == "lp" else 0.0)
    # sizes
    for size in (0, 1, 5):
        R.check(len(mod.sample_group(shared, size)) == size, "size", "%s: sample_group(%d)" % (what, size))


# ---------------------------------------------------------------------------
# random functions

def draws_of(flavor, f, n=None):
    g = generator(flavor)
    out = []
    for _ in g.states(n or g.size):
        out.append(f())
        R.transitions += 1
    return out


def wishart_laws(name, nu, scale, inverse, f):
    """w'Xw / w'Vw is chi-square (nu); for the inverse, w'Psi w / w'Xw (nu - d + 1)."""
    d = len(scale)
    xs = numpy.array(draws_of("dbg", f, generator("dbg").small))
    what = "%s(%s, %s)" % (name, nu, scale.tolist())
    R.check(bool(numpy.allclose(xs, numpy.transpose(xs, (0, 2, 1)), rtol=1e-6)), "symmetric", what)
    for w in directions(d):
        q = numpy.einsum("i,nij,j->n", w, xs, w)
        v = w.dot(scale).dot(w)
        if inverse:
            cells(what + ", along %s" % w, lambda y: 1 - scipy.stats.chi2.cdf(v / y, nu - d + 1), q, 12)
        else:
            cells(what + ", along %s" % w, lambda y: scipy.stats.chi2.cdf(y / v, nu), q, 12)


def debug_functions(part, at=0):
    import distributions.dbg.random as D
    S = lambda d: numpy.eye(d) + 0.3 * numpy.ones((d, d)) + numpy.diag(numpy.arange(d))
    if part == "discrete":
        for p in ([1.0], [0.2, 0.0, 0.5, 0.3], [3.0, 1.0], [0.0, 1e-3, 2e-3], [1.0] * 12, [0.25, 0.75, 0.0])[at * 2:at * 2 + 2]:
            total = sum(p)
            want = {i: x / total for i, x in enumerate(p)}
            discrete("dbg sample_discrete(%s)" % p, want, draws_of("dbg", lambda: D.sample_discrete(p)))
            discrete("dbg sample_discrete(%s, total)" % p, want, draws_of("dbg", lambda: D.sample_discrete(p, total)))
            scores = [math.log(x) + 400 if x else float("-inf") for x in p]
            discrete("dbg sample_discrete_log(%s)" % scores, want, draws_of("dbg", lambda: D.sample_discrete_log(scores)))
        for p in (0.0, 0.1, 0.5, 0.97, 1.0)[at * 2:at * 2 + 2]:
            discrete("dbg sample_bernoulli(%s)" % p, {x: q for x, q in ((False, 1 - p), (True, p)) if q}, draws_of("dbg", lambda: D.sample_bernoulli(p)))
    if part == "scalar":
        for mu, v in ((0.0, 1.0), (-3.0, 4.0), (100.0, 0.01)):
            cells("dbg sample_normal(%s, %s)" % (mu, v), scipy.stats.norm(mu, math.sqrt(v)).cdf, draws_of("dbg", lambda: D.sample_normal(mu, v)))
        for nu in (0.5, 1.0, 2.0, 7.5, 300.0):
            cells("dbg sample_chi2(%s)" % nu, scipy.stats.chi2(nu).cdf, draws_of("dbg", lambda: D.sample_chi2(nu)))
        for p, r in ((0.3, 1), (0.5, 4), (0.9, 20)):
            law = scipy.stats.nbinom(r, p)
            discrete("dbg sample_negative_binomial(%s, %s)" % (p, r), {k: float(law.pmf(k)) for k in range(int(law.ppf(0.9999)) + 1)}, draws_of("dbg", lambda: D.sample_negative_binomial(p, r)))
        for gamma in (0.2, 1.0, 6.0):
            sticks = draws_of("dbg", lambda: D.sample_stick(gamma), generator("dbg").small)
            R.check(all(abs(sum(s.values()) - 1) < 1e-9 and min(s.values()) >= 0 and sorted(s) == list(range(len(s))) for s in sticks), "sticks", "dbg sample_stick(%s)" % gamma)
            # each share is scaled up by at most 1 / (1 - tol)
            first = numpy.array([s[0] for s in sticks])
            for x in (0.05, 0.2, 0.5, 0.8):
                below = float((first < x).mean())
                p, q = (scipy.stats.beta.cdf(y, 1, gamma) for y in (x * (1 - 1e-3), x))
                tol = TOLERANCE * math.sqrt(0.25 / len(first))
                R.check(p - tol <= below <= q + tol, "frequency", lambda: "dbg sample_stick(%s): the first share is below %s in a fraction %.4f, should be %.4f" % (gamma, x, below, q))
    if part == "vector":
        for d in (at + 1,):
            mu = numpy.arange(d) - 0.5
            for dof in (1.5, 4.0, 30.0):
                xs = numpy.array(draws_of("dbg", lambda: D.sample_student_t(dof, mu, S(d)), generator("dbg").small))
                for w in directions(d):
                    cells("dbg sample_student_t(%s) in %d dimensions, along %s" % (dof, d, w), scipy.stats.t(dof, w.dot(mu), math.sqrt(w.dot(S(d)).dot(w))).cdf, xs.dot(w), 12)
            for nu in (d + 1, d + 2, 3 * d + 7):
                wishart_laws("dbg sample_wishart", nu, S(d), False, lambda: D.sample_wishart(nu, S(d)))
                wishart_laws("dbg sample_wishart_naive", nu, S(d), False, lambda: D.sample_wishart_naive(nu, S(d)))
                wishart_laws("dbg sample_wishart_v2", nu, S(d), False, lambda: D.sample_wishart_v2(nu, S(d)))
                wishart_laws("dbg sample_inverse_wishart", nu, S(d), True, lambda: D.sample_inverse_wishart(nu, S(d)))
            for nu in (d + 1.5, d + 4.25, 100 + d):
                wishart_laws("dbg sample_wishart", nu, S(d), False, lambda: D.sample_wishart(nu, S(d)))
                wishart_laws("dbg sample_inverse_wishart", nu, S(d), True, lambda: D.sample_inverse_wishart(nu, S(d)))
    if part == "joint":
        for d in (at + 1,):
            mu = numpy.arange(d) - 0.5
            for nu, lam in ((d + 1.0, 0.5), (d + 6.0, 3.0)):
                pairs = draws_of("dbg", lambda: D.sample_normal_inverse_wishart(mu, lam, S(d), nu), generator("dbg").small)
                what = "dbg sample_normal_inverse_wishart(nu=%s, lambda=%s) in %d dimensions" % (nu, lam, d)
                means = numpy.array([m for m, _ in pairs]) - mu
                covs = numpy.array([c for _, c in pairs])
                for w in directions(d):
                    v = numpy.einsum("i,nij,j->n", w, covs, w)
                    a = 1 - scipy.stats.chi2.cdf(w.dot(S(d)).dot(w) / v, nu - d + 1)
                    b = scipy.stats.norm.cdf(means.dot(w) / numpy.sqrt(v / lam))
                    square(what + ", along %s" % w, a, b)
        for counts in ([1, 1, 1], [2, 1], [0, 3, 1], [4])[at:at + 1 + at // 2]:
            items = ["a", "b", "c", "d"][:sum(counts)]
            got = draws_of("dbg", lambda: tuple(tuple(sorted(p)) for p in D.sample_partition_from_counts(items, counts)))
            every = {}
            import itertools
            for order in itertools.permutations(items):
                at, part_ = 0, []
                for c in counts:
                    part_.append(tuple(sorted(order[at:at + c])))
                    at += c
                every[tuple(part_)] = every.get(tuple(part_), 0) + 1
            total = float(sum(every.values()))
            frequencies("dbg sample_partition_from_counts(%s)" % counts, {k: v / total for k, v in every.items()}, counted(got), len(got))
    if part == "scores":
        for d in (1, 2, 3):
            mu = numpy.arange(d) - 0.5
            import distributions.lp.random as L
            for nu in (0.7, 2.0, 30.0):
                for scale in (0.05, 1.0, 20.0):
                    law = scipy.stats.multivariate_t(mu, S(d) * scale, nu)
                    for w in directions(d):
                        for z in (0.0, 0.3, 1.0, 12.0):
                            x = mu + w * z * math.sqrt(scale)
                            want = float(law.logpdf(x))
                            a = D.score_student_t(x, nu, mu, S(d) * scale)
                            b = L.score_student_t(x, nu, mu, S(d) * scale)
                            R.check(abs(a - want) < 1e-8 * (1 + abs(want)), "score", lambda: "dbg score_student_t at %s: %r, should be %r" % (x, a, want))
                            R.check(abs(b - want) < 5e-3 + 2e-4 * (nu + d + abs(want)), "score", lambda: "lp score_student_t at %s: %r, should be %r" % (x, b, want))
                            R.transitions += 2
                    R.states += 1


def fast_functions():
    import distributions.hp.random as H
    import distributions.lp.random as L
    for mu, v in ((0.0, 1.0), (-3.0, 4.0), (100.0, 0.01)):
        cells("hp sample_normal(%s, %s)" % (mu, v), scipy.stats.norm(mu, math.sqrt(v)).cdf, draws_of("hp", lambda: H.sample_normal(mu, v)))
    for nu in (0.5, 1.0, 2.0, 7.5, 300.0):
        cells("hp sample_chisq(%s)" % nu, scipy.stats.chi2(nu).cdf, draws_of("hp", lambda: H.sample_chisq(nu)))
    for a, b in ((0.1, 1.0), (1.0, 5.0), (2.5, 0.01), (400.0, 3.0)):
        cells("hp sample_gamma(%s, %s)" % (a, b), scipy.stats.gamma(a, scale=b).cdf, draws_of("hp", lambda: H.sample_gamma(a, b)))
    for mu in (0.05, 1.0, 11.9, 12.0, 90.0):
        law = scipy.stats.poisson(mu)
        discrete("hp sample_poisson(%s)" % mu, {k: float(law.pmf(k)) for k in range(int(law.ppf(0.9999)) + 1)}, draws_of("hp", lambda: H.sample_poisson(mu)))
    for p in ([1.0], [0.2, 0.0, 0.5, 0.3], [0.0, 0.3, 0.7], [1.0 / 12] * 12, [0.25, 0.75, 0.0]):
        want = {i: x for i, x in enumerate(p)}
        dense = numpy.array(p, dtype=numpy.float32)
        discrete("lp sample_discrete(%s)" % p, want, draws_of("lp", lambda: L.sample_discrete(dense)))
        loose = numpy.array([[x, 0.5] for x in p], dtype=numpy.float32)[:, 0]
        discrete("lp sample_discrete(%s), a column of a matrix" % p, want, draws_of("lp", lambda: L.sample_discrete(loose)))
        back = dense[::-1].copy()[::-1]
        discrete("lp sample_discrete(%s), a reversed view" % p, want, draws_of("lp", lambda: L.sample_discrete(back)))
        for shift in (0.0, 300.0, -300.0):
            scores = [math.log(x) + shift if x else -1e4 for x in p]
            kept = list(scores)
            got = draws_of("lp", lambda: L.sample_prob_from_scores(scores))
            discrete("lp sample_prob_from_scores(%s)" % scores, want, [k for k, _ in got], 1e-4)
            R.check(all(abs(q - p[k]) < 1e-3 for k, q in got), "prob", lambda: "lp sample_prob_from_scores(%s) gives other probabilities" % scores)
            R.check(scores == kept, "overwritten", "lp sample_prob_from_scores changed its argument")
            for k, x in enumerate(p):
                q = L.prob_from_scores(k, scores)
                R.check(abs(q - x) < 1e-3, "prob", lambda: "lp prob_from_scores(%d, %s) = %r, should be %r" % (k, scores, q, x))
            q = L.log_sum_exp(scores)
            R.check(abs(q - shift) < 1e-3 + 1e-5 * abs(shift), "log_sum_exp", lambda: "lp log_sum_exp(%s) = %r" % (scores, q))
            R.transitions += 2 + len(p)
    for n in (2, 3, 7):
        urn = ["item %d" % i for i in range(n)]
        got = draws_of("lp", lambda: L.sample_pair_from_urn(urn))
        frequencies("lp sample_pair_from_urn of %d" % n, {(a, b): 1.0 / (n * (n - 1)) for a in urn for b in urn if a != b}, counted(got), len(got))
    # a generator of its own
    for s in (1, 7, 12345):
        r = L.RNG()
        r.seed(s)
        x = s
        for i in range(20):
            x = x * 16807 % MOD
            q = r.copy()
            a, b = r(), q()
            R.check(a == b == x, "rng", lambda: "RNG seeded with %d: draw %d is %r, of a copy %r, should be %d" % (s, i, a, b, x))


def special():
    import distributions.lp.special as L
    for e in range(-60, 60):
        for m in (1.0, 1.1, 1.37, 1.9):
            x = float(numpy.float32(m * 2.0 ** e))
            R.check(abs(L.fast_log(x) - math.log(x)) < 2e-4, "fast_log", lambda: "fast_log(%r) = %r" % (x, L.fast_log(x)))
            R.transitions += 1
    for i in range(1, 4000):
        x = float(numpy.float32(i * 0.01 if i < 2000 else 20 * 1.004 ** (i - 2000)))
        want = math.lgamma(x)
        R.check(abs(L.fast_lgamma(x) - want) < 3e-3 + 2e-4 * abs(want), "fast_lgamma", lambda: "fast_lgamma(%r) = %r, should be %r" % (x, L.fast_lgamma(x), want))
        want = math.lgamma(x / 2 + 0.5) - math.lgamma(x / 2)
        R.check(abs(L.fast_lgamma_nu(x) - want) < 0.03 + 5e-3 * abs(want), "fast_lgamma_nu", lambda: "fast_lgamma_nu(%r) = %r, should be %r" % (x, L.fast_lgamma_nu(x), want))
        R.transitions += 2
    row = [1]
    for n in range(0, 60 if QUICK else 150):
        got = L.log_stirling1_row(n)
        R.check(len(got) == n + 1, "stirling", lambda: "log_stirling1_row(%d) has %d entries" % (n, len(got)))
        for k, (a, b) in enumerate(zip(got, row)):
            R.check(a == float("-inf") if b == 0 else abs(a - math.log(b)) < (1e-4 if n < 32 else 0.05) * (1 + abs(a)), "stirling", lambda: "log_stirling1_row(%d)[%d] = %r, should be %r" % (n, k, a, math.log(b) if b else None))
        row = [(row[k - 1] if k else 0) + (n * row[k] if k <= n else 0) for k in range(n + 2)]
        R.states += 1
    R.traces += 1


def partitions(name, raw, n):
    """The fast priors' assignments, against their own scores of the group sizes."""
    import distributions.lp.clustering as C
    prior = getattr(C, name)(**raw)
    got = counted(tuple(prior.sample_assignments(n)) for _ in generator("lp").states(generator("lp").size) if step())
    want = {}

    def grow(a):
        if len(a) == n:
            sizes = [a.count(k) for k in range(max(a) + 1)]
            p = prior.score_counts(sizes)
            want[tuple(a)] = math.exp(p)
            return
        for k in range(max(a) + 2 if a else 1):
            grow(a + [k])
    grow([])
    if name == "LowEntropy" and n < raw["dataset_size"]:    # the score leaves the data still to come out of account
        total = sum(want.values())
        want = {k: v / total for k, v in want.items()}
    frequencies("lp %s %s, sample_assignments(%d)" % (name, raw, n), want, got, sum(got.values()), 2e-3)


def step():
    R.transitions += 1
    return True


def jobs():
    for model in sorted(PARAMS):
        for flavor in M.FLAVORS[model]:
            for i in range(len(PARAMS[model])):
                if (flavor, model, PARAMS[model][i][0].get("alpha", 1) < 1) == ("lp", "bnb", True):
                    continue    # such rates do not fit an int: the known finding of C15
                for h in range(len(HELD)):
                    job("value/%s/%s/%d/%d" % (flavor, model, i, h), values_of, flavor, model, i, h)
                job("group/%s/%s/%d" % (flavor, model, i), groups_of, flavor, model, i)
    for part, n in (("discrete", 3), ("scalar", 1), ("vector", 3), ("joint", 3), ("scores", 1)):
        for i in range(n):
            job("dbg/%s/%d" % (part, i), debug_functions, part, i)
    job("fast", fast_functions)
    job("special", special)
    for name, raws in (("PitmanYor", [{"alpha": 1.0, "d": 0.0}, {"alpha": 0.1, "d": 0.5}, {"alpha": 10.0, "d": 0.1}]), ("LowEntropy", [{"dataset_size": 4}, {"dataset_size": 5}])):
        for raw in raws:
            for n in (1, 2, 4, 5):
                if n <= raw.get("dataset_size", n):
                    job("partitions/%s/%s/%d" % (name, "-".join("%g" % raw[k] for k in sorted(raw)), n), partitions, name, raw, n)


if __name__ == "__main__":
    jobs()
    main()
