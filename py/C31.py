"""C31: the goodness-of-fit tests of distributions.util give p-values: under the
stated distribution a p-value is at most a in a fraction a of the outcomes, and
a wrong distribution is noticed; the helpers next to them count exactly."""
import contextlib
import io
import itertools
import math
import os

import numpy
import scipy.stats

from harness import QUICK, R, SEED, job, main
from py2 import Python2

for name, kind in (("float", float), ("int", int)):
    if name not in numpy.__dict__:
        setattr(numpy, name, kind)    # as in the numpy the package was written for
LEVELS = (0.5, 0.2, 0.05, 0.01, 0.001)
MOD = 2147483647


class Quiet(object):
    """The module under test; what it prints is dropped."""

    def __init__(self):
        self.m = Python2(os.environ.get("DIST_REPO", "/repo")).load("distributions.util")

    def __getattr__(self, name):
        f = getattr(self.m, name)

        def call(*args, **kwargs):
            R.transitions += 1
            with contextlib.redirect_stdout(io.StringIO()):
                return f(*args, **kwargs)
        return call


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest


def is_p(p):
    return isinstance(p, (int, float, numpy.floating, numpy.integer)) and 0 <= p <= 1


# The chi-squared approximation's own error grows as the level falls.
def exact_band(a, cells):
    return {0.5: 1.15, 0.2: 1.2, 0.05: 1.3, 0.01: 1.5, 0.001: 2.6}[a] * (1.0 if cells > 1 else 1.4)


def multinomial(probs, n, shown):
    """Every outcome of n draws; the test sees the first `shown` cells."""
    u = Quiet()
    lf = [math.lgamma(i + 1) for i in range(n + 1)]
    truncated = shown < len(probs)
    mass = dict.fromkeys(LEVELS, 0.0)
    best = {}
    for c in compositions(n, len(probs)):
        w = math.exp(lf[n] + sum(i * math.log(p) - lf[i] for i, p in zip(c, probs)))
        if w < 1e-14:
            continue
        R.states += 1
        p = u.multinomial_goodness_of_fit(list(probs[:shown]), list(c[:shown]), n, truncated=truncated)
        if not R.check(is_p(p), "not-a-p-value", lambda: "multinomial_goodness_of_fit(%r, %r, %d, truncated=%r) is %r" % (probs[:shown], c[:shown], n, truncated, p)):
            continue
        for a in LEVELS:
            if p <= a:
                mass[a] += w
        if not truncated:
            pearson = scipy.stats.chi2.sf(sum((i - n * q) ** 2 / (n * q) for i, q in zip(c, probs)), len(probs) - 1)
            R.check(abs(p - pearson) <= 1e-9 + 1e-6 * pearson, "pearson", lambda: "multinomial_goodness_of_fit(%r, %r, %d) is %r, Pearson's test gives %r" % (probs, c, n, p, pearson))
        best[c] = p
        if shown == len(probs) <= 3 and R.states % 7 == 0:
            for order in itertools.permutations(range(shown)):
                q = u.multinomial_goodness_of_fit([probs[i] for i in order], [c[i] for i in order], n)
                R.check(abs(p - q) <= 1e-9, "order", lambda: "outcome %r of probabilities %r: %r, in the order %r %r" % (c, probs, p, order, q))
    for a in LEVELS:
        lo, hi = a / exact_band(a, shown), a * exact_band(a, shown)
        R.check(lo <= mass[a] <= hi, "calibration", lambda: "%d draws from %r, %d cells shown: a p-value of at most %g has probability %g" % (n, probs, shown, a, mass[a]))
    mean = tuple(int(round(n * p)) for p in probs)
    if sum(mean) == n:
        R.check(best.get(mean, 1) > 0.95, "fit", lambda: "the expected counts %r of %r have p-value %r" % (mean, probs, best.get(mean)))
    R.traces += 1
    R.sample("all outcomes of %d draws from %r, %d cells shown: %s" % (n, probs, shown, ", ".join("P(p<=%g)=%.4g" % x for x in sorted(mass.items()))))


def edges():
    """Impossible and certain outcomes, plotting, misuse."""
    u = Quiet()
    n = 40
    for probs in ((0.5, 0.5), (0.25, 0.75), (0.2, 0.3, 0.5)):
        for c in compositions(n, len(probs)):
            want = u.multinomial_goodness_of_fit(list(probs), list(c), n)
            for at in range(len(probs) + 1):
                R.states += 1
                p2, c2 = list(probs), list(c)
                p2.insert(at, 0.0)
                c2.insert(at, 0)
                got = u.multinomial_goodness_of_fit(p2, c2, n)
                R.check(abs(got - want) <= 1e-12, "zero-cell", lambda: "probabilities %r counts %r: %r, without the impossible outcome %r" % (p2, c2, got, want))
                got = u.multinomial_goodness_of_fit(p2, c2, n, plot=True)
                R.check(abs(got - want) <= 1e-12, "plot", lambda: "plotting changes the p-value of %r to %r" % (c2, got))
                c2[at] = 1
                got = u.multinomial_goodness_of_fit(p2, c2, n + 1)
                R.check(is_p(got) and got < 1e-9, "impossible", lambda: "probabilities %r counts %r: an impossible outcome was seen, the p-value is %r" % (p2, c2, got))
                p1 = [0.0] * len(p2)
                p1[at] = 1.0
                for total in (0, 1, 5, n):
                    for seen in range(total + 1):
                        c1 = [0] * len(p2)
                        c1[at] = seen
                        c1[(at + 1) % len(p2)] = total - seen
                        got = u.multinomial_goodness_of_fit(p1, c1, total)
                        R.check((got == 1) if seen == total else (is_p(got) and got < 1e-9), "certain", lambda: "probabilities %r counts %r: p-value %r" % (p1, c1, got))
            for bad in (lambda: u.multinomial_goodness_of_fit(list(probs), list(c), n + 1),
                        lambda: u.multinomial_goodness_of_fit(list(probs), list(c)[:-1], n, truncated=True),
                        lambda: u.multinomial_goodness_of_fit([1e-3] + list(probs), [0] + list(c), n, truncated=True)):
                try:
                    got = bad()
                except AssertionError:
                    got = None
                R.check(got is None, "misuse", lambda: "counts that do not add up, or too few samples, give %r" % got)
    R.traces += 1


def coset(n, x):
    assert (MOD - 1) % n == 0
    g = pow(16807, (MOD - 1) // n, MOD)
    for _ in range(n):
        yield x
        x = x * g % MOD


POWERS = numpy.array([pow(48271, i + 1, MOD) for i in range(2000)], dtype=object)


def units(s, n):
    """n uniform numbers: the orbit of one state of another generator."""
    return (numpy.array([p * s % MOD for p in POWERS[:n]], dtype=float) - 0.5) / (MOD - 1)


STATES = 4774 if QUICK else 19026
DENSITIES = {
    "normal": scipy.stats.norm(3, 2), "exponential": scipy.stats.expon(), "uniform": scipy.stats.uniform(-1, 4), "student": scipy.stats.t(3),
    "cauchy": scipy.stats.cauchy(), "gamma": scipy.stats.gamma(0.7), "large": scipy.stats.norm(1e6, 1e3),
}
WRONG = {"twice": lambda x, d: 2 * d.pdf(x), "half": lambda x, d: 0.5 * d.pdf(x), "shift": lambda x, d: d.pdf(x + d.interval(0.8)[1] - d.interval(0.8)[0]),
         "flat": lambda x, d: numpy.ones(len(x)) / (d.interval(0.998)[1] - d.interval(0.998)[0])}


def sample_frequency(what, ps, total, bands):
    for a in LEVELS:
        got = sum(p <= a for p in ps) / float(total)
        sd = math.sqrt(a / total)
        lo, hi = bands[a]
        R.check(lo * a - 5 * sd <= got <= hi * a + 5 * sd, "calibration", lambda: "%s: a p-value of at most %g in a fraction %g of %d states" % (what, a, got, total))


def from_states(what, f, bands, n):
    """The p-values over every state of a coset."""
    ps = []
    for s in coset(STATES, 1 + SEED * 7919 % 1000003):
        R.states += 1
        p = f(units(s, n))
        if R.check(is_p(p), "not-a-p-value", lambda: "%s, state %d: p-value %r" % (what, s, p)):
            ps.append(p)
    sample_frequency(what, ps, STATES, bands)
    R.traces += 1
    return ps


EVEN = {0.5: (0.93, 1.07), 0.2: (0.9, 1.1), 0.05: (0.85, 1.2), 0.01: (0.6, 1.5), 0.001: (0, 2.5)}
COUNTED = dict(EVEN)
COUNTED.update({0.5: (0.9, 1.1), 0.2: (0.85, 1.15), 0.05: (0.7, 1.3)})
# Spacings are not quite independent: the test is a little shy, and off by a small factor far out.
SPACED = {0.5: (0.6, 1.1), 0.2: (0.5, 1.1), 0.05: (0.35, 1.2), 0.01: (0.2, 1.6), 0.001: (0, 5)}


def unif01(n):
    u = Quiet()
    from_states("unif01_goodness_of_fit of %d uniform samples" % n, lambda x: u.unif01_goodness_of_fit(list(x)), EVEN, n)
    even = (numpy.arange(n) + 0.5) / n
    # The ends of the interval and every boundary between cells are samples like any other.
    points = [0.0, 1.0, numpy.nextafter(1.0, 0), numpy.nextafter(0.0, 1)] + [i / 30.0 for i in range(31)]
    want = u.unif01_goodness_of_fit(list(even))
    R.check(want > 0.99, "fit", lambda: "%d evenly spaced samples have p-value %r" % (n, want))
    for x in points:
        for at in (0, n // 2, n - 1):
            R.states += 1
            y = list(even)
            y[at] = x
            got = u.unif01_goodness_of_fit(y)
            R.check(is_p(got) and got > 0.98, "edge-sample", lambda: "sample %d of %d evenly spaced ones moved to %r: p-value %r" % (at, n, x, got))
    for lo, hi in ((0, 0.5), (0.5, 1), (0.25, 1), (0, 0.8), (1, 1), (0, 0)):
        R.states += 1
        got = u.unif01_goodness_of_fit(list(lo + (hi - lo) * even))
        R.check(is_p(got) and got < 1e-4, "missed", lambda: "%d samples spread over [%g, %g] only: p-value %r" % (n, lo, hi, got))
    for k in range(2, 8):
        for power in (k, 1.0 / k):
            got = u.unif01_goodness_of_fit(list(even ** power))
            R.check(is_p(got) and got < 1e-4, "missed", lambda: "%d samples distributed as u**%g: p-value %r" % (n, power, got))
    for bad in ([-1e-9] + list(even), list(even) + [1 + 1e-9], list(even[:100])):
        try:
            got = u.unif01_goodness_of_fit(bad)
        except AssertionError:
            got = None
        R.check(got is None, "misuse", lambda: "samples outside [0,1], or too few, give %r" % got)


def density(name, n):
    u = Quiet()
    d = DENSITIES[name]

    def p_of(x, pdf):
        order = (numpy.arange(len(x)) * 7) % len(x) if len(x) % 7 else numpy.arange(len(x))[::-1]
        return u.density_goodness_of_fit(list(x[order]), list(pdf[order]))
    from_states("density_goodness_of_fit of %d samples, %s" % (n, name), lambda q: (lambda x: p_of(x, d.pdf(x)))(d.ppf(q)), SPACED, n)
    for what, f in sorted(WRONG.items()):
        if (what, name) in (("flat", "uniform"),):
            continue
        missed = 0
        some = list(coset(154, 1 + SEED * 104729 % 1000003))
        for s in some:
            R.states += 1
            x = d.ppf(units(s, 1000))
            p = p_of(x, f(x, d))
            R.check(is_p(p), "not-a-p-value", lambda: "density_goodness_of_fit of %s samples with the %s density: %r" % (name, what, p))
            missed += not p < 1e-3
        R.check(missed <= 0.05 * len(some), "missed", lambda: "density_goodness_of_fit accepts 1000 %s samples with the %s density in %d of %d states" % (name, what, missed, len(some)))
    # one sample far away: still a p-value
    x = d.ppf((numpy.arange(n) + 0.5) / n)
    for far in (1e3, 1e9, -1e9):
        y = numpy.append(x, far)
        p = p_of(y, numpy.append(d.pdf(x), 1.0))
        R.check(is_p(p), "not-a-p-value", lambda: "density_goodness_of_fit with an outlier at %g: %r" % (far, p))
        p = p_of(y, numpy.append(d.pdf(x), 1e-300))
        R.check(is_p(p), "not-a-p-value", lambda: "density_goodness_of_fit with an outlier at %g: %r" % (far, p))


DISCRETE = {
    "three": [0.2, 0.3, 0.5], "ten": [0.02, 0.03, 0.05, 0.1, 0.1, 0.1, 0.1, 0.1, 0.2, 0.2], "geometric": [0.5 ** (i + 1) for i in range(39)] + [0.5 ** 39],
    "tail": [0.3, 0.3, 0.2, 0.1, 0.05, 0.02] + [0.03 / 50] * 50,
}


def discrete(name, truncate, n):
    u = Quiet()
    probs = DISCRETE[name]
    cum = numpy.cumsum(probs)
    keys = ["v%d" % i for i in range(len(probs))]
    d = dict(zip(keys, probs))

    def draw(q):
        return [keys[min(i, len(probs) - 1)] for i in numpy.searchsorted(cum, q)]
    # truncate_beyond=8 is the default
    kwargs = {} if truncate == 8 else {"truncate_beyond": truncate}
    from_states("discrete_goodness_of_fit of %d samples, %s, truncated beyond %r" % (n, name, truncate),
                lambda q: u.discrete_goodness_of_fit(draw(q), d, **kwargs), COUNTED, n)
    # two outcomes' names swapped
    swap = dict(d)
    a, b = sorted(keys[:len(keys) if name != "geometric" else 4], key=d.get)[0], sorted(keys, key=d.get)[-1]
    swap[a], swap[b] = d[b], d[a]
    for s in coset(154, 1 + SEED * 104729 % 1000003):
        R.states += 1
        p = u.discrete_goodness_of_fit(draw(units(s, n)), swap, **kwargs)
        R.check(is_p(p) and p < 1e-3, "missed", lambda: "discrete_goodness_of_fit accepts %s with the probabilities of %s and %s exchanged: p-value %r" % (name, a, b, p))
    try:
        got = u.discrete_goodness_of_fit(draw(units(12345, n)) + ["other"], d, **kwargs)
    except AssertionError:
        got = None
    R.check(got is None or got < 1e-9, "impossible", lambda: "a sample outside the stated outcomes gives p-value %r" % got)


def helpers():
    u = Quiet()
    inf = float("inf")
    values = [-inf, -1e5, -700.0, -1.0, 0.0, 0.5, 700.0, 1e5, 3, -2]
    for k in range(1, 4 if QUICK else 5):
        for s in itertools.product(values, repeat=k):
            if max(s) == -inf:
                continue
            R.states += 1
            given = list(s)
            p = u.scores_to_probs(given)
            e = [math.exp(x - max(s)) for x in s]
            want = [x / sum(e) for x in e]
            R.check(len(p) == k and all(abs(a - b) <= 1e-12 for a, b in zip(p, want)), "scores_to_probs", lambda: "scores_to_probs(%r) is %r, expected %r" % (s, list(p), want))
            R.check(given == list(s), "argument", lambda: "scores_to_probs(%r) changes its argument to %r" % (s, given))
            arr = numpy.array(s, dtype=float)
            u.scores_to_probs(arr)
            R.check(list(arr) == list(s), "argument", lambda: "scores_to_probs(%r) changes its array to %r" % (s, list(arr)))
            if all(float(x) == int(x) for x in s if x != -inf) and -inf not in s:
                q = u.scores_to_probs([int(x) for x in s])
                R.check(all(abs(a - b) <= 1e-12 for a, b in zip(q, want)), "scores_to_probs", lambda: "scores_to_probs of the integers %r is %r" % (s, list(q)))
    # empirical divergence: zero for the uniform model, the exact sum otherwise
    for n in range(1, 7):
        for parts in compositions(12, n):
            if 0 in parts:
                continue
            R.states += 1
            probs = [i / 12.0 for i in parts]
            score = sum(math.log(p) for p in probs)
            want = sum((1.0 / n) * math.log((1.0 / n) / p) for p in probs)
            got = u.score_to_empirical_kl(score, n)
            R.check(abs(got - want) <= 1e-9 and got >= -1e-9, "kl", lambda: "score_to_empirical_kl of the model %r is %r, expected %r" % (probs, got, want))
    # bins: every order of up to 7 distinct samples, every number of bins
    for n in range(1, 7 if QUICK else 8):
        base = [0.5 * i * i - 3 for i in range(n)]
        for samples in itertools.permutations(base):
            for k in range(1, n + 1):
                for support in (None, [-100, 100]):
                    R.states += 1
                    given = list(samples)
                    counts, ranges = u.bin_samples(given, k, **({"support": support} if support else {}))
                    what = "bin_samples(%r, %d, %r)" % (samples, k, support)
                    R.check(given == list(samples), "argument", lambda: what + " reorders its argument")
                    if not R.check(len(counts) == len(ranges) == k and sum(counts) == n and max(counts) - min(counts) <= 1, "bins", lambda: "%s counts %r" % (what, list(counts))):
                        continue
                    for i in range(k):
                        lo, hi = ranges[i]
                        inside = sum(lo <= x < hi or (i == k - 1 and x == hi) for x in base)
                        R.check(inside == counts[i], "bins", lambda: "%s: bin %d is [%g, %g] and holds %d samples, counted %d" % (what, i, lo, hi, inside, counts[i]))
                        R.check(i == 0 or ranges[i - 1][1] == lo, "bins", lambda: "%s: bins %r do not join" % (what, ranges.tolist()))
                    if support:
                        R.check(ranges[0][0] == -100 and ranges[-1][1] == 100, "bins", lambda: "%s: bins %r do not span the support" % (what, ranges.tolist()))
    for k in range(1, 6):
        for samples in itertools.product(range(4), repeat=k):
            for bins in (None, max(samples) + 1, 4, 9):
                R.states += 1
                if bins is not None and bins <= max(samples):
                    continue
                h = u.histogram(list(samples), **({} if bins is None else {"bin_count": bins}))
                want = [samples.count(i) for i in range(max(samples) + 1 if bins is None else bins)]
                R.check(list(h) == want, "histogram", lambda: "histogram(%r, %r) is %r" % (samples, bins, list(h)))
    R.traces += 1


def jobs():
    settings = [((0.5, 0.5), 400), ((0.3, 0.7), 400), ((0.02, 0.98), 1000), ((0.2, 0.3, 0.5), 120), ((0.06, 0.34, 0.6), 140), ((1 / 3., 1 / 3., 1 / 3.), 90), ((0.25,) * 4, 36), ((0.1, 0.2, 0.3, 0.4), 40)]
    if not QUICK:
        settings += [((0.2,) * 5, 30), ((0.1, 0.15, 0.2, 0.25, 0.3), 30), ((0.15, 0.25, 0.6), 300), ((0.1, 0.2, 0.3, 0.4), 70)]
    for probs, n in settings:
        job("multinomial/%s/%d" % (",".join("%.3g" % p for p in probs), n), multinomial, probs, n, len(probs))
        for shown in range(1, len(probs)):
            if shown == len(probs) - 1 or len(probs) > 3:
                job("truncated/%s/%d/%d" % (",".join("%.3g" % p for p in probs), n, shown), multinomial, probs, n, shown)
    job("edges", edges)
    job("helpers", helpers)
    for n in (343, 400, 1000):
        job("unif01/%d" % n, unif01, n)
    for name in DENSITIES:
        job("density/%s" % name, density, name, 400)
    for name, tr, n in (("three", 8, 200), ("three", None, 200), ("ten", 8, 400), ("ten", None, 400), ("ten", 3, 400), ("geometric", 4, 400), ("tail", 4, 400), ("tail", 6, 400), ("three", 2, 200)):
        job("discrete/%s/%s" % (name, tr), discrete, name, tr, n)


if __name__ == "__main__":
    jobs()
    main()
