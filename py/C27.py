"""Every history of the mixtures, clustering mixtures and id trackers that Python
sees, against plain lists; every small clustering query in both low-entropy priors;
every draw of the debug low-entropy sampler."""
import itertools
import math

import numpy

import harness
from harness import R, QUICK, job
import models as M

TOL = {"bb": 1e-3, "bnb": 1e-3, "dd": 1e-3, "dpd": 1e-3, "gp": 1e-3, "nich": 1e-2}
PARTS = 1 if QUICK else 6


def floats(n, fill=0.0):
    return numpy.full(n, fill, dtype=numpy.float32)


def near(a, b, tol, scale=1.0):
    return M.close(float(a), float(b), tol, scale)


# ---------------------------------------------------------------------------
# model mixtures

class MixtureWorld(object):
    """A mixture, and the list of groups it should be."""

    def __init__(self, setup, start):
        self.s = setup
        self.mixture = setup.mod.Mixture()
        self.groups, self.held = [], []
        for held in start:
            self.append(held)
        self.mixture.init(setup.shared)

    def build(self, held):
        g = self.s.mod.Group()
        g.init(self.s.shared)
        for v in held:
            g.add_value(self.s.shared, self.s.values[v])
        return g

    def append(self, held):
        self.mixture.append(self.build(held))
        self.groups.append(self.build(held))
        self.held.append(sorted(held))

    def enabled(self):
        ops = [("add_group",), ("init",), ("restart",)]
        if len(self.held) >= 5:
            ops = ops[1:]
        for g in range(len(self.held)):
            ops.append(("remove_group", g))
            for v in range(len(self.s.values)):
                ops.append(("add_value", g, v))
                if v in self.held[g]:
                    ops.append(("remove_value", g, v))
        return ops

    def apply(self, op):
        s, m = self.s.shared, self.mixture
        if op[0] == "add_group":
            m.add_group(s)
            self.groups.append(self.build([]))
            self.held.append([])
        elif op[0] == "init":
            m.init(s)
        elif op[0] == "restart":      # the groups it gives, taken out and put back
            groups = [m[i] for i in range(len(m))]
            m.clear()
            R.check(len(m) == 0, "clear", "%s: %d groups after clear" % (self.s.model, len(m)))
            for g in groups:
                m.append(g)
            m.init(s)
        elif op[0] == "remove_group":
            g = op[1]
            m.remove_group(s, g)
            last, held = self.groups.pop(), self.held.pop()
            if g < len(self.groups):
                self.groups[g], self.held[g] = last, held
        else:
            value = self.s.values[op[2]]
            getattr(m, op[0])(s, op[1], value)
            getattr(self.groups[op[1]], op[0])(s, value)
            if op[0] == "add_value":
                self.held[op[1]] = sorted(self.held[op[1]] + [op[2]])
            else:
                self.held[op[1]] = list(self.held[op[1]])
                self.held[op[1]].remove(op[2])


class MixtureSetup(object):
    def __init__(self, model, index):
        self.model = model
        self.mod = M.module("lp", model)
        self.raw, self.values, more = M.PARAMS[model][index]
        self.probes = self.values + [v for v in more if v != 0xFFFFFFFF]
        self.shared = self.mod.Shared()
        self.shared.load(M.copied(self.raw))
        self.weight = 1.0
        if model in ("nich", "gp", "bnb"):
            self.weight = max(1.0, max(abs(float(v)) for v in self.probes) * 0.1)

    def show(self, start, path):
        text = " ".join("%s(%s)" % (op[0], ",".join([str(x) for x in op[1:2]] + [M.name_of(self.values[x]) for x in op[2:3]])) for op in path)
        return "%s %s; groups %s; %s" % (self.model, {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in self.raw.items()}, [list(map(lambda v: M.name_of(self.values[v]), h)) for h in start], text)


def check_mixture(setup, world, start, path):
    """Compares everything the mixture reports with the list of groups; gives what it reported."""
    s, m, tol, w = setup.shared, world.mixture, TOL[setup.model], setup.weight
    n = len(world.held)
    where = lambda: setup.show(start, path)
    if not R.check(len(m) == n, "len", lambda: "%s: len is %d, not %d" % (where(), len(m), n)):
        return None
    seen = []
    for k, v in enumerate(setup.probes):
        want = [float(g.score_value(s, v)) for g in world.groups]
        accum = floats(n)
        accum[:] = [(3.0 * i - 2.0, 0.0, -50.0 + i)[k % 3] for i in range(n)]
        first = accum.tolist()
        m.score_value(s, v, accum)
        got = accum.tolist()
        seen += got
        R.check(len(got) == n and all(near(b - a, c, tol, w + abs(a)) for a, b, c in zip(first, got, want)), "score_value",
                lambda: "%s: score_value(%s) adds %s, the groups score %s" % (where(), M.name_of(v), [b - a for a, b in zip(first, got)], want))
        for i in range(n):
            one = float(m.score_value_group(s, i, v))
            R.check(near(one, want[i], tol, w), "score_value_group", lambda: "%s: score_value_group(%d, %s) is %r, the group scores %r" % (where(), i, M.name_of(v), one, want[i]))
    want = math.fsum(float(g.score_data(s)) for g in world.groups)
    size = max([1.0] + [abs(float(g.score_data(s))) for g in world.groups]) * max(1, n)
    got = float(m.score_data(s))
    R.check(near(got, want, tol, w + size), "score_data", lambda: "%s: score_data is %r, the groups' sum is %r" % (where(), got, want))
    # numbers that do not lie one after the other: added to, or refused and left alone
    if n > 1:
        v = setup.probes[-1]
        want = [float(g.score_value(s, v)) for g in world.groups]
        for view in (lambda w: w[::2], lambda w: w[::-2]):
            wide = floats(2 * n, 0.5)
            apart = view(wide)
            try:
                m.score_value(s, v, apart)
                fine = all(near(x, 0.5 + y, tol, w) for x, y in zip(apart.tolist(), want)) and sum(x == 0.5 for x in wide.tolist()) >= n
            except ValueError:
                fine = wide.tolist() == [0.5] * (2 * n)
            R.check(fine, "buffer", lambda: "%s: score_value(%s) into every other number gives %s, the groups score %s" % (where(), M.name_of(v), wide.tolist(), want))
    # the groups it gives are copies that score as its own
    for i in range(n):
        g = m[i]
        R.check(all(near(g.score_value(s, v), world.groups[i].score_value(s, v), tol, w) for v in setup.probes), "getitem", lambda: "%s: group %d scores differently" % (where(), i))
        g.add_value(s, setup.values[0])
        back = m[i]
        R.check(all(near(back.score_value(s, v), world.groups[i].score_value(s, v), tol, w) for v in setup.probes), "getitem-aliases", lambda: "%s: changing the group it gave changes group %d" % (where(), i))
    for wrong in ([n + 1] if n == 0 else [n + 1, n - 1]):
        accum = floats(wrong, 7.0)
        try:
            m.score_value(s, setup.values[0], accum)
            refused = False
        except AssertionError:
            refused = True
        R.check(refused and accum.tolist() == [7.0] * wrong, "wrong-size", lambda: "%s: score_value took %d scores for %d groups" % (where(), wrong, n))
    for wrong in (n, n + 3):
        try:
            m[wrong]
            refused = False
        except AssertionError:
            refused = True
        R.check(refused, "out-of-range", lambda: "%s: gave group %d of %d" % (where(), wrong, n))
    return tuple(seen)


STARTS = [[], [[]], [[0], [], [0, 1, 1]], [[0], [1], [0, 1], []]]


def mixture_histories(model, index, part):
    setup = MixtureSetup(model, index)
    depth = (3 if QUICK else 4) + (1 if model == "bb" else 0)
    single = len(setup.values) == 1
    for start in STARTS:
        start = [[0 if single else v for v in held] for held in start]
        seen = set()
        frontier = [()]
        for d in range(depth + 1):
            following = []
            for path in frontier:
                world = MixtureWorld(setup, start)
                for op in path:
                    world.apply(op)
                R.transitions += 1
                report = check_mixture(setup, world, start, path)
                R.traces += 1
                k = (report, tuple(map(tuple, world.held)))
                if report is None or k in seen:
                    continue
                seen.add(k)
                R.states += 1
                if d < depth:
                    ops = world.enabled()
                    if d == 0:
                        ops = [o for i, o in enumerate(ops) if i % PARTS == part]
                    following += [path + (op,) for op in ops]
            frontier = following
            if sum(R.counts.values()) > 40:
                return
    R.sample("%s: %d states" % (setup.show(start, ()), R.states))


def mixture_churn(model, index):
    """Long histories: groups grow, and are removed in every cyclic position until none are left."""
    setup = MixtureSetup(model, index)
    nv = len(setup.values)
    for stride in range(1, 5 if QUICK else 12):
        world = MixtureWorld(setup, [])
        path = []
        for step in range(24 if QUICK else 80):
            world.apply(("add_group",))
            g = (step * stride) % len(world.held)
            for v in range(1 + step % 3):
                world.apply(("add_value", g, (v + step) % nv))
            if step % 4 == 3:
                h = (step * 7 + stride) % len(world.held)
                if world.held[h]:
                    world.apply(("remove_value", h, world.held[h][0]))
            if step % 5 == 4:
                world.apply(("remove_group", (step * stride) % len(world.held)))
            R.transitions += 4
        check_mixture(setup, world, [], ())
        R.states += 1
        while world.held:
            world.apply(("remove_group", stride % len(world.held)))
            R.transitions += 1
            if len(world.held) % 4 == 0:
                check_mixture(setup, world, [], ())
                R.states += 1
        R.traces += 1


# ---------------------------------------------------------------------------
# samplers: one generator state, every way to draw

def samplers(model, index):
    """sample_group, sample_value and a sampler draw the same from the same generator state."""
    setup = MixtureSetup(model, index) if model in TOL else None
    mod = M.module("lp", model)
    raw, values, _ = M.PARAMS[model][index]
    shared = mod.Shared()
    shared.load(M.copied(raw))
    plain = lambda v: v.tolist() if hasattr(v, "tolist") else v
    for state in range(40 if QUICK else 400):
        for held in ([], [0], [0, len(values) - 1, len(values) - 1]):
            group = mod.Group()
            group.init(shared)
            for v in held:
                group.add_value(shared, values[v])
            before = M.key(group.dump())
            M.restart_rng(state)
            one = plain(group.sample_value(shared))
            M.restart_rng(state)
            sampler = mod.Sampler()
            sampler.init(shared, group)
            draws = [plain(sampler.eval(shared)) for _ in range(4)]
            R.check(one == draws[0], "sample_value", lambda: "%s %s, group of %s, generator state %d: sample_value gives %s, a sampler %s" % (model, raw, held, state, one, draws[0]))
            R.check(M.key(group.dump()) == before, "sampling-changes-state", lambda: "%s: sampling changed the group" % model)
            if not held:
                M.restart_rng(state)
                many = [plain(v) for v in mod.sample_group(shared, 4)]
                R.check(many == draws, "sample_group", lambda: "%s %s, generator state %d: sample_group gives %s, a sampler of an empty group %s" % (model, raw, state, many, draws))
                R.check(mod.sample_group(shared, 0) == [], "sample_group", "%s: sample_group of none" % model)
            R.transitions += 3
            R.traces += 1
            for v in draws:      # what comes out can go back in
                if model == "dpd" and v == 0xFFFFFFFF:
                    continue
                value = numpy.array(v) if isinstance(v, list) else v
                group.add_value(shared, value)
                R.check(math.isfinite(group.score_data(shared)), "sampled-value", lambda: "%s %s: a group with the sampled %s scores %r" % (model, raw, v, group.score_data(shared)))
        R.states += 1


# ---------------------------------------------------------------------------
# clustering mixtures

def priors(name):
    import distributions.lp.clustering as lp
    if name == "PitmanYor":
        return [(repr(a), lp.PitmanYor(**a)) for a in ({"alpha": 1.0, "d": 0.0}, {"alpha": 0.1, "d": 0.5}, {"alpha": 10.0, "d": 0.1})]
    return [("dataset_size %d" % n, lp.LowEntropy(dataset_size=n)) for n in (12, 13, 60, 1000)]


class ClusteringWorld(object):
    def __init__(self, prior, counts):
        self.prior = prior
        self.mixture = prior.Mixture()
        self.mixture.init(prior, list(counts))
        self.counts = list(counts)

    def enabled(self, most):
        ops = []
        for g, c in enumerate(self.counts):
            if sum(self.counts) < most:
                ops.append(("add_value", g))
            if c:
                ops.append(("remove_value", g))
        return ops

    def apply(self, op, where):
        g = op[1]
        flag = getattr(self.mixture, op[0])(self.prior, g)
        c = self.counts
        if op[0] == "add_value":
            want = c[g] == 0
            c[g] += 1
            if want:
                c.append(0)
        else:
            c[g] -= 1
            want = c[g] == 0
            if want:
                last = c.pop()
                if g < len(c):
                    c[g] = last
        R.check(bool(flag) == want, "flag", lambda: "%s: %s(%d) gave %r, not %r" % (where(), op[0], g, flag, want))


def check_clustering(name, prior, world, where):
    m, c = world.mixture, world.counts
    n, size = len(c), sum(c)
    empty = sorted(i for i, x in enumerate(c) if not x)
    if not R.check(len(m) == n, "len", lambda: "%s: len is %d, not %d" % (where(), len(m), n)):
        return None
    got = list(m.empty_groupids)
    R.check(sorted(got) == empty, "empty_groupids", lambda: "%s: empty groups %s, not %s" % (where(), got, empty))
    if name == "LowEntropy" and size >= prior.dataset_size:
        return ()
    want = [float(prior.score_add_value(x, n - len(empty), size, len(empty))) for x in c]
    seen = None
    for first in (n, 0, n + 2, max(0, n - 1)):
        scores = floats(first, 5.0)
        try:
            m.score_value(prior, scores)
        except ValueError:
            # an array of another size may be refused, and is then as it was
            R.check(first != n and scores.tolist() == [5.0] * first, "buffer", lambda: "%s: score_value refused %d numbers for %d groups and left %s" % (where(), first, n, scores.tolist()))
            continue
        R.check(scores.shape == (n,) and all(near(a, b, 1e-3) for a, b in zip(scores.tolist(), want)), "score_value",
                lambda: "%s: score_value into %d numbers gives %s, the prior scores %s" % (where(), first, scores.tolist(), want))
        seen = tuple(scores.tolist())
    wide = floats(2 * n + 2, 9.0)
    part = wide[1:n + 1]        # a window of a larger array
    m.score_value(prior, part)
    R.check(tuple(part.tolist()) == seen and wide[0] == 9.0 and wide[n + 1:].tolist() == [9.0] * (n + 1), "buffer",
            lambda: "%s: score_value into a window gives %s of %s" % (where(), part.tolist(), wide.tolist()))
    if n > 1:
        apart = wide[::2][:n]   # not in one piece: refused, untouched
        wide[:] = 9.0
        try:
            m.score_value(prior, apart)
            fine = tuple(apart.tolist()) == seen
        except ValueError:
            fine = wide.tolist() == [9.0] * len(wide)
        R.check(fine, "buffer", lambda: "%s: score_value into every other number gives %s" % (where(), wide.tolist()))
    return seen


def clustering_histories(name, part):
    depth = 5 if QUICK else 7
    starts = []
    for n in (1, 2, 3):
        starts += [c for c in itertools.product((0, 1, 3), repeat=n) if 0 in c]
    starts.append((0, 2, 0, 1, 0, 0))
    for label, prior in priors(name):
        for i, start in enumerate(starts):
            if i % 4 != part:
                continue
            frontier, seen = [()], set()
            for d in range(depth + 1):
                following = []
                for path in frontier:
                    world = ClusteringWorld(prior, start)
                    where = lambda: "%s %s from %s: %s" % (name, label, start, " ".join("%s(%d)" % o for o in path))
                    for op in path:
                        world.apply(op, where)
                    R.transitions += 1
                    report = check_clustering(name, prior, world, where)
                    R.traces += 1
                    k = (report, tuple(world.counts), tuple(world.mixture.empty_groupids))
                    if report is None or k in seen:
                        continue
                    seen.add(k)
                    R.states += 1
                    if d < depth:
                        following += [path + (op,) for op in world.enabled(12)]
                frontier = following
                if sum(R.counts.values()) > 40:
                    return
    R.sample("%s: %d states" % (name, R.states))


# ---------------------------------------------------------------------------
# id tracker, counting

def tracker():
    import distributions.lp.mixture as lp
    depth = 7 if QUICK else 9
    for first in range(4):
        for path in itertools.chain.from_iterable(itertools.product(range(-2, 4), repeat=d) for d in range(depth + 1)):
            # -2: init again with 2, -1: add_group, g: remove_group(g)
            size, fits = first, True
            for op in path:
                size = 2 if op == -2 else size + 1 if op == -1 else size - 1
                fits = fits and (op < 0 or op <= size) and size <= 4
            if not fits or (len(path) > depth - 2 and -2 in path):
                continue
            t = lp.MixtureIdTracker()
            t.init(first)
            ids, used = list(range(first)), first
            for op in path:
                R.transitions += 1
                if op == -2:
                    t.init(2)
                    ids, used = [0, 1], 2
                elif op == -1:
                    t.add_group()
                    ids.append(used)
                    used += 1
                else:
                    t.remove_group(op)
                    last = ids.pop()
                    if op < len(ids):
                        ids[op] = last
            R.states += 1
            R.traces += 1
            where = lambda: "init(%d) %s" % (first, " ".join({-2: "init(2)", -1: "add_group"}.get(o, "remove_group(%d)" % o) for o in path))
            got = [t.packed_to_global(i) for i in range(len(ids))]
            R.check(got == ids, "packed_to_global", lambda: "%s: ids %s, not %s" % (where(), got, ids))
            back = [t.global_to_packed(i) for i in ids]
            R.check(back == list(range(len(ids))), "global_to_packed", lambda: "%s: ids %s are at %s" % (where(), ids, back))


def counting():
    import distributions.lp.clustering as lp
    most = 6 if QUICK else 8
    for n in range(most + 1):
        for assignment in itertools.product(range(4), repeat=n):
            groups = max(assignment) + 1 if assignment else 0
            if len(set(assignment)) != groups:
                continue
            for keys in (range(n), [7 * i - 3 for i in range(n)], [(1 << 30) + i for i in reversed(range(n))], [(i << 16) + 5 for i in range(n)], [i << 28 for i in range(n)]):
                given = dict(zip(keys, assignment))
                kept = dict(given)
                got = lp.count_assignments(given)
                R.check(got == [assignment.count(g) for g in range(groups)] and given == kept, "count_assignments", lambda: "count_assignments(%s) is %s" % (kept, got))
                R.transitions += 1
            R.states += 1
            R.traces += 1


# ---------------------------------------------------------------------------
# the low-entropy prior, fast and debug

def partitions(n, most=None):
    if n == 0:
        yield []
        return
    for first in range(min(n, most or n), 0, -1):
        for rest in partitions(n - first, first):
            yield [first] + rest


def low_entropy_counts(part):
    import distributions.dbg.clustering as dbg
    import distributions.lp.clustering as lp
    sizes = list(range(0, 15 if QUICK else 21))
    for big in sizes + [30, 47, 48, 49, 100, 5000, 100000]:
        if big % 4 != part:
            continue
        a, b = dbg.LowEntropy(dataset_size=big), lp.LowEntropy(dataset_size=big)
        for n in [s for s in sizes if s <= big]:
            for counts in partitions(n):
                for shown in (counts, counts[::-1] + [0], [0] + counts):
                    x, y = float(a.score_counts(list(shown))), float(b.score_counts(list(shown)))
                    R.check(near(x, y, 1e-3), "score_counts", lambda: "dataset_size %d: score_counts(%s) is %r in dbg, %r in lp" % (big, shown, x, y))
                    R.transitions += 1
                R.states += 1
                R.traces += 1
        for n in (30, 47, 48, 49, 60, 100, 1000, 5000):
            for counts in ([n], [n // 2, n - n // 2], [1] * n, [n - 1, 1], [n // 3] * 3 + [n - n // 3 * 3]):
                if n <= big:
                    x, y = float(a.score_counts(list(counts))), float(b.score_counts(list(counts)))
                    R.check(near(x, y, 1e-3, 10.0), "score_counts", lambda: "dataset_size %d: score_counts of %d in %d groups is %r in dbg, %r in lp" % (big, n, len(counts), x, y))
                    R.states += 1


def low_entropy_steps(part):
    import distributions.dbg.clustering as dbg
    import distributions.lp.clustering as lp
    for big in list(range(1, 13)) + [47, 48, 49, 500, 20000, 1 << 20]:
        if big % 4 != part:
            continue
        a, b = dbg.LowEntropy(dataset_size=big), lp.LowEntropy(dataset_size=big)
        for size in range(min(big, 14 if QUICK else 40)) if big < 100 else [0, 1, 5, 17, 46, 47, 48, 100, big // 2, big - 2, big - 1]:
            for group in sorted({g for g in (0, 1, 2, 3, 4, 5, 7, 10, 31, 32, 33, 47, 48, 100, 9999, 10000, 10001, 15000, size - 1, size // 2, size) if 0 <= g <= size}):
                for full in sorted(f for f in (0, 1, 2, 5) if (size > 0) <= f <= (size - group + 1 if group else size)):
                    for empty in (1, 2, 3, 10):
                        x, y = float(a.score_add_value(group, full, size, empty)), float(b.score_add_value(group, full, size, empty))
                        # the fast one multiplies a tabulated logarithm (resolution 2^-14) by the size
                        tol = 1e-3 + (group / 16384.0 if group <= 10000 else 0)
                        R.check(abs(x - y) <= tol * max(1, abs(x) if group == 0 else 1), "score_add_value", lambda: "dataset_size %d: score_add_value(%d, %d, %d, %d) is %r in dbg, %r in lp" % (big, group, full, size, empty, x, y))
                        if empty == 1:
                            z = (float(a.score_add_value(group, full, size)), float(b.score_add_value(group, full, size)))
                            R.check(z == (x, y), "default", lambda: "dataset_size %d: score_add_value(%d, %d, %d) is %r without the number of empty groups, %r with 1" % (big, group, full, size, z, (x, y)))
                        u, v = float(a.score_remove_value(group + 1, full + (group == 0), size + 1, empty)), float(b.score_remove_value(group + 1, full + (group == 0), size + 1, empty))
                        R.check(near(u, -x, 1e-6) and near(v, -y, 1e-6), "score_remove_value", lambda: "dataset_size %d: score_remove_value undoing score_add_value(%d, %d, %d, %d) is %r in dbg, %r in lp; adding scores %r" % (big, group, full, size, empty, u, v, x))
                        R.transitions += 1
                        R.traces += 1
                R.states += 1


class Chosen(Exception):
    pass


def debug_sampling():
    """Every sequence of draws: the debug sampler draws among the scores of its own prior, and
    numbers groups as they come."""
    import distributions.dbg.clustering as dbg
    for big in (1, 2, 3, 5, 6, 7, 50):
        for n in range(min(big, 6 if QUICK else 8) + 1):
            prior = dbg.LowEntropy(dataset_size=big)
            outcomes = {}

            def run(choices):
                step, log_prob = [0], [0.0]

                def choose(scores):
                    i = step[0]
                    step[0] += 1
                    counts = [choices[:i].count(g) for g in range(len(set(choices[:i])))]
                    want = [prior.score_add_value(c, len(counts), i) for c in counts] + [prior.score_add_value(0, len(counts), i)]
                    R.check(len(scores) == len(want) and all(near(x, y, 1e-9) for x, y in zip(scores, want)), "sampler-scores",
                            lambda: "dataset_size %d: after %s the sampler draws among %s, the prior scores %s" % (big, choices[:i], scores, want))
                    if i == len(choices):
                        raise Chosen(len(scores))
                    return choices[i]
                dbg.sample_discrete_log = choose
                return prior.sample_assignments(n)
            todo = [[]]
            while todo:
                choices = todo.pop()
                R.transitions += 1
                try:
                    got = run(choices)
                except Chosen as c:
                    todo += [choices + [i] for i in range(c.args[0])]
                    continue
                R.check(got == choices and len(got) == n, "sampler", lambda: "dataset_size %d: drawing %s gives %s" % (big, choices, got))
                R.states += 1
                R.traces += 1


def fast_sampling():
    """Assignments the fast samplers give are complete and number groups as they come."""
    for name in ("PitmanYor", "LowEntropy"):
        for label, prior in priors(name):
            for state in range(60 if QUICK else 600):
                for n in range(11):
                    M.restart_rng(state)
                    got = prior.sample_assignments(n)
                    seen = 0
                    fine = len(got) == n
                    for g in got:
                        fine = fine and 0 <= g <= seen
                        seen = max(seen, g + 1)
                    R.check(fine, "sample_assignments", lambda: "%s %s, generator state %d: sample_assignments(%d) gives %s" % (name, label, state, n, got))
                    R.transitions += 1
                R.states += 1
                R.traces += 1


def jobs():
    for model in TOL:
        for i in range(len(M.PARAMS[model])):
            for p in range(PARTS):
                job("mixture/%s/%d/%d" % (model, i, p), mixture_histories, model, i, p)
            job("churn/%s/%d" % (model, i), mixture_churn, model, i)
    for model in M.PARAMS:
        for i in range(len(M.PARAMS[model])):
            job("samplers/%s/%d" % (model, i), samplers, model, i)
    for name in ("PitmanYor", "LowEntropy"):
        for p in range(4):
            job("clustering/%s/%d" % (name, p), clustering_histories, name, p)
    job("tracker", tracker)
    job("counting", counting)
    for p in range(4):
        job("lowentropy/counts/%d" % p, low_entropy_counts, p)
        job("lowentropy/steps/%d" % p, low_entropy_steps, p)
    job("lowentropy/debug-sampling", debug_sampling)
    job("fast-sampling", fast_sampling)


if __name__ == "__main__":
    jobs()
    harness.main()
