"""Every history of group operations up to a depth, in every flavor at once: the
statistics and scores agree with each other and with the values in the groups."""
import itertools
import math

import numpy

import harness
from harness import R, QUICK, job
import models as M

# Absolute differences allowed between a score in dbg and in lp: `BASE` times the
# score (at least 1), and float's share of the terms that cancel in it.
BASE = {"bb": 4e-4, "bnb": 4e-4, "dd": 4e-4, "dpd": 4e-4, "gp": 4e-4, "nich": 3e-3, "niw": 2e-3}


def terms(model, raw, held, probe):
    """The size of the lgamma terms in a score of a group."""
    n = len(held)
    if model == "bb":
        t = raw["alpha"] + raw["beta"] + n
    elif model == "bnb":
        t = raw["alpha"] + raw["beta"] + raw["r"] * (n + 1) + sum(held) + probe
    elif model == "dd":
        t = sum(raw["alphas"]) + n
    elif model == "dpd":
        t = raw["alpha"] + n
    elif model == "gp":
        t = raw["alpha"] + sum(held) + probe
    else:
        t = raw["nu"] + raw["kappa"] + n
    return t * math.log(2 + t)


PARTS = 1 if QUICK else 6
STAT_TOL = 2e-5
EXACT_TOL = 1e-9
DEPTH = {"bb": 7, "bnb": 5, "dd": 5, "dpd": 5, "gp": 5, "nich": 4, "niw": 3} if QUICK else {
    "bb": 9, "bnb": 6, "dd": 6, "dpd": 6, "gp": 6, "nich": 4, "niw": 4}


class World(object):
    """Two groups in each flavor, and the lists of values they should hold."""

    def __init__(self, setup):
        self.s = setup
        self.groups = {}
        for f in setup.flavors:
            self.groups[f] = []
            for _ in range(2):
                g = setup.modules[f].Group()
                g.init(setup.shared[f])
                self.groups[f].append(g)
        self.held = [[], []]     # indices of values
        self.seen = set()

    def enabled(self):
        ops = []
        for g in range(2):
            for v in range(len(self.s.values)):
                ops.append(("add", g, v))
                for n in self.s.repeats:
                    ops.append(("repeat", g, v, n))
                if v in self.held[g]:
                    ops.append(("remove", g, v))
            if self.held[g]:
                ops.append(("init", g))
        ops.append(("merge", 0, 1))
        ops.append(("merge", 1, 0))
        return ops

    def apply(self, op):
        kind, g = op[0], op[1]
        for f in self.s.flavors:
            shared, group = self.s.shared[f], self.groups[f][g]
            if kind == "add":
                group.add_value(shared, self.s.values[op[2]])
            elif kind == "repeat":
                group.add_repeated_value(shared, self.s.values[op[2]], op[3])
            elif kind == "remove":
                group.remove_value(shared, self.s.values[op[2]])
            elif kind == "init":
                group.init(shared)
            else:
                group.merge(shared, self.groups[f][op[2]])
        h = self.held
        if kind == "add":
            h[g].append(op[2])
        elif kind == "repeat":
            h[g] += [op[2]] * op[3]
        elif kind == "remove":
            h[g].remove(op[2])
        elif kind == "init":
            h[g] = []
        else:
            h[g] = h[g] + h[op[2]]
        h[g].sort()
        if kind in ("add", "repeat"):
            self.seen.add(op[2])

    def dump(self):
        return {f: [g.dump() for g in gs] for f, gs in self.groups.items()}


class Setup(object):
    def __init__(self, model, index, flavors=None):
        self.model, self.flavors = model, flavors or M.FLAVORS[model]
        self.raw, self.values, more = M.PARAMS[model][index]
        self.probes = self.values + more
        self.repeats = [0, 2] if QUICK else [0, 2, 3]
        self.modules = {f: M.module(f, model) for f in self.flavors}
        self.shared = {}
        for f in self.flavors:
            self.shared[f] = self.modules[f].Shared()
            self.shared[f].load(M.copied(self.raw))

    def show(self, path):
        names = []
        for op in path:
            t = "%s.%s" % ("AB"[op[1]], op[0])
            if op[0] == "merge":
                t += "(%s)" % "AB"[op[2]]
            elif op[0] != "init":
                t += "(%s%s)" % (M.name_of(self.values[op[2]]), ", %d" % op[3] if len(op) > 3 else "")
            names.append(t)
        return "%s %s; %s" % (self.model, {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in self.raw.items()}, " ".join(k + (" x %d" % n if n > 1 else "") for k, n in ((k, len(list(g))) for k, g in itertools.groupby(names))))


def statistics(model, values, size):
    """What a group of these values should report."""
    n = len(values)
    if model == "bb":
        return {"heads": sum(1 for v in values if v), "tails": sum(1 for v in values if not v)}
    if model == "bnb":
        return {"count": n, "sum": sum(values)}
    if model == "dd":
        return {"counts": [values.count(i) for i in range(size)]}
    if model == "dpd":
        return {"counts": {v: values.count(v) for v in set(values)}}
    if model == "gp":
        return {"count": n, "sum": sum(values), "log_prod": math.fsum(math.lgamma(v + 1) for v in values)}
    if model == "nich":
        mean = math.fsum(values) / n if n else 0.0
        return {"count": n, "mean": mean, "count_times_variance": math.fsum((v - mean) ** 2 for v in values)}
    d = size
    return {"count": n, "sum_x": sum(values, numpy.zeros(d)), "sum_xxT": sum((numpy.outer(v, v) for v in values), numpy.zeros((d, d)))}


def check_state(setup, world, path):
    model = setup.model
    size = len(setup.raw["alphas"]) if model == "dd" else len(setup.raw["mu"]) if model == "niw" else 0
    # Statistics lose accuracy relative to the largest value that went through the group.
    scale = 1.0
    if model in ("nich", "niw", "gp"):
        n = 1 + 3 * len(path)
        big = max([1.0] + [float(numpy.max(numpy.abs(setup.values[v]))) for v in world.seen])
        scale = n * (big * big if model != "gp" else big * max(1.0, math.log(big)))
    for g in range(2):
        held = [setup.values[v] for v in world.held[g]]
        want = statistics(model, held, size)
        scores, data, dumps = {}, {}, {}
        for f in setup.flavors:
            group, shared = world.groups[f][g], setup.shared[f]
            dumps[f] = group.dump()
            R.check(M.states_close(dumps[f], want, STAT_TOL if f == "lp" else EXACT_TOL, scale), "statistics-%s" % f,
                    lambda: "%s: group %s holds %s, %s reports %s, not %s" % (setup.show(path), "AB"[g], list(map(M.name_of, held)), f, dumps[f], want))
            scores[f] = [float(group.score_value(shared, v)) for v in setup.probes]
            data[f] = float(group.score_data(shared))
            R.check(M.key(group.dump()) == M.key(dumps[f]), "scoring-changes-state", lambda: "%s: %s: scoring changed %s to %s" % (setup.show(path), f, dumps[f], group.dump()))
        for f in setup.flavors[1:]:
            tol = BASE[model] if f == "lp" else EXACT_TOL * 100
            if model == "nich" and f == "lp" and setup.raw["nu"] + len(held) < 17:
                tol = 0.03   # fast_lgamma_nu is accurate to 0.01 there
            if model == "niw" and f == "lp" and len(path) > 100:
                tol = 1e-2         # float inverses of a nearly singular posterior
            # Scores feel the statistics' rounding in proportion to the statistics.
            weight = max(1.0, scale * 0.1) if f == "lp" and model in ("nich", "niw") else 1.0
            if f == "lp":
                big = max([0.0] + [v for v in setup.probes if model in ("bnb", "gp")])
                weight = max(weight, 6e-6 * terms(model, setup.raw, held, big) / tol)
            worst = max(M.gap(a, b, weight) for a, b in zip(scores["dbg"] + [data["dbg"]], scores[f] + [data[f]]))
            R.extra["worst score gap %s" % f] = max(worst, R.extra.get("worst score gap %s" % f, 0.0))
            for i, v in enumerate(setup.probes):
                R.check(M.close(scores["dbg"][i], scores[f][i], tol, weight), "score_value-%s" % f,
                        lambda: "%s: group %s, score_value(%s) is %.9g in dbg, %.9g in %s" % (setup.show(path), "AB"[g], M.name_of(v), scores["dbg"][i], scores[f][i], f))
            if f == "lp" and model == "gp":
                weight = max(weight, 2e-7 * scale / tol)   # log_prod is a running float sum
            R.check(M.close(data["dbg"], data[f], tol, weight), "score_data-%s" % f,
                    lambda: "%s: group %s, score_data is %.9g in dbg, %.9g in %s" % (setup.show(path), "AB"[g], data["dbg"], data[f], f))
        # The posterior parameters, in the flavor that has them.
        shared = setup.shared["dbg"]
        if hasattr(shared, "plus_group"):
            post = shared.plus_group(world.groups["dbg"][g])
            empty = setup.modules["dbg"].Group()
            empty.init(post)
            for i, v in enumerate(setup.probes):
                s = float(empty.score_value(post, v))
                R.check(M.close(s, scores["dbg"][i], 1e-6), "plus_group",
                        lambda: "%s: group %s, the posterior scores %s at %.12g, the group at %.12g" % (setup.show(path), "AB"[g], M.name_of(v), s, scores["dbg"][i]))


def explore(model, index, first):
    """All histories whose first operation is number `first`, each world rebuilt by replaying its history."""
    setup = Setup(model, index)
    start = World(setup)
    if first == 0:
        check_state(setup, start, ())
        R.states += 1
    begin = start.enabled()
    begin = [begin[i] for i in range(len(begin)) if i % PARTS == first]
    frontier = [(op,) for op in begin]
    seen = set()
    for depth in range(1, DEPTH[model] + 1):
        following = []
        for path in frontier:
            world = World(setup)
            for op in path:
                world.apply(op)
            R.transitions += 1
            k = (M.key(world.dump()), tuple(map(tuple, world.held)))
            if k in seen:
                continue
            seen.add(k)
            R.states += 1
            R.traces += 1
            check_state(setup, world, path)
            if depth < DEPTH[model]:
                following += [path + (op,) for op in world.enabled()]
            elif R.traces % 997 == 0:
                R.sample(setup.show(path))
        frontier = following
        if sum(R.counts.values()) > 40:   # plenty to report; no need to go deeper
            break


def long_history(model, index):
    """Histories of one kind of operation, to large counts: n copies of each value added one
    by one, at once, and through merges, then removed again."""
    setup = Setup(model, index)
    for v in range(len(setup.values)):
        path = []
        world = World(setup)
        n = 40 if QUICK else 300

        def do(op, check):
            path.append(op)
            world.apply(op)
            R.transitions += 1
            if check:
                check_state(setup, world, tuple(path))
                R.states += 1
        for i in range(n):
            do(("add", 0, v), i % 8 == 7)
        do(("repeat", 1, (v + 1) % len(setup.values), n), True)
        do(("merge", 0, 1), True)
        for i in range(n - 1):
            do(("remove", 0, v), i % 8 == 7)
        do(("merge", 1, 0), True)
        do(("remove", 0, v), True)
        do(("repeat", 1, v, 1000), True)
        R.traces += 1


def dpd_shared():
    """DirichletProcessDiscrete's shared weights change with the values in use: every history of
    adding and removing values up to a depth, in both flavors (their random weights differ)."""
    flavors = M.FLAVORS["dpd"]
    mods = {f: M.module(f, "dpd") for f in flavors}
    values = [0, 1, 7, 0xFFFFFFF0]
    depth = 6 if QUICK else 8
    raw = {"gamma": 0.75, "alpha": 0.5, "betas": {}, "counts": {}}

    def replay(f, path):
        s = mods[f].Shared()
        s.load(M.copied(raw))
        for op, v in path:
            getattr(s, op)(v) if v is not None else getattr(s, op)()
        return s

    todo, done = [()], set()
    while todo:
        path = todo.pop()
        R.transitions += 1
        counts = {}
        for op, v in path:
            counts[v] = counts.get(v, 0) + (1 if op == "add_value" else -1)
            if not counts[v]:
                del counts[v]
        k = (tuple(sorted(counts.items())), len(path))
        dumps = {}
        for f in flavors:
            d = dumps[f] = replay(f, path).dump()
            R.check(d["counts"] == counts, "dpd-counts-%s" % f, lambda: "%s: after %s the counts are %s, not %s" % (f, path, d["counts"], counts))
            R.check(sorted(d["betas"]) == sorted(counts), "dpd-betas-%s" % f, lambda: "%s: after %s there are weights for %s, values in use are %s" % (f, path, sorted(d["betas"]), sorted(counts)))
            R.check(all(b > 0 for b in d["betas"].values()) and sum(d["betas"].values()) <= 1 + 1e-5, "dpd-mass-%s" % f, lambda: "%s: after %s the weights are %s" % (f, path, d["betas"]))
        R.traces += 1
        if k in done:
            continue
        done.add(k)
        R.states += 1
        # One flavor's weights, loaded into both: groups over them score alike.
        for source in flavors:
            shared = {f: mods[f].Shared() for f in flavors}
            groups = {}
            for f in flavors:
                shared[f].load(M.copied(dumps[source]))
                groups[f] = mods[f].Group()
                groups[f].init(shared[f])
                for v in sorted(counts):
                    groups[f].add_repeated_value(shared[f], v, counts[v])
            for v in sorted(counts) + [0xFFFFFFFF]:
                if v == 0xFFFFFFFF and shared["dbg"].beta0 == 0:
                    continue   # dbg has no score for what has no mass
                a, b = (float(groups[f].score_value(shared[f], v)) for f in flavors)
                R.check(M.close(a, b, 1e-3) or (v == 0xFFFFFFFF and max(a, b) < -9), "dpd-score", lambda: "weights %s: score_value(%s) is %r in dbg, %r in lp" % (dumps[source], v, a, b))
            if counts:
                a, b = (float(groups[f].score_data(shared[f])) for f in flavors)
                R.check(M.close(a, b, 1e-3), "dpd-score", lambda: "weights %s: score_data is %r in dbg, %r in lp" % (dumps[source], a, b))
        if len(path) < depth:
            for v in values:
                todo.append(path + (("add_value", v),))
                if v in counts:
                    todo.append(path + (("remove_value", v),))


def jobs():
    for model in M.PARAMS:
        for i in range(len(M.PARAMS[model])):
            for p in range(PARTS):
                job("%s/%d/%d" % (model, i, p), explore, model, i, p)
            job("long/%s/%d" % (model, i), long_history, model, i)
    job("dpd-shared", dpd_shared)


if __name__ == "__main__":
    jobs()
    harness.main()
