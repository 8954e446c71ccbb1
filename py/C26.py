"""Every reachable state of every flavor goes through every dump and load path:
the loaded object reports, scores and goes on like the original, and neither the
caller's dict or message nor another object changes."""
import math
import struct

import numpy

import harness
from harness import R, QUICK, job
import models as M
from C25 import Setup, World
from distributions.io import schema_pb2 as schema

MESSAGES = {"bb": "BetaBernoulli", "bnb": "BetaNegativeBinomial", "dd": "DirichletDiscrete", "dpd": "DirichletProcessDiscrete",
            "gp": "GammaPoisson", "nich": "NormalInverseChiSq", "niw": "NormalInverseWishart"}
DEPTH = {"bb": 4, "bnb": 3, "dd": 3, "dpd": 3, "gp": 3, "nich": 2, "niw": 2} if QUICK else {
    "bb": 6, "bnb": 4, "dd": 4, "dpd": 4, "gp": 4, "nich": 3, "niw": 3}
OTHER = 0xFFFFFFFF


def spoil(raw):
    """Changes every part of a dumped dict in place."""
    for k in list(raw):
        v = raw[k]
        if isinstance(v, dict):
            spoil(v)
            v["spoiled"] = 1
        elif isinstance(v, list):
            for i in range(len(v)):
                v[i] = 77
            v.append(78)
        elif isinstance(v, numpy.ndarray):
            v += 5.0
        else:
            raw[k] = 99
    raw["spoiled"] = 1


def single(x):
    """x after a trip through a float field of a message."""
    if isinstance(x, float):
        return struct.unpack("<f", struct.pack("<f", x))[0]
    if isinstance(x, dict):
        return {k: single(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [single(v) for v in x]
    if isinstance(x, numpy.ndarray):
        return x.astype(numpy.float32).astype(float)
    return x


def plain(x):
    """Arrays as lists, for printing and comparing."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, numpy.ndarray):
        return x.tolist()
    return x


def is_plain(x):
    if isinstance(x, dict):
        return all(isinstance(k, (str, int)) and is_plain(v) for k, v in x.items())
    if isinstance(x, list):
        return all(map(is_plain, x))
    return isinstance(x, (bool, int, float, numpy.ndarray))


def equal(a, b):
    return M.key(plain(a)) == M.key(plain(b))


class Case(object):
    """One class of serialisable objects: how to make others, observe and operate them."""

    def __init__(self, where, cls, message, observe, continue_, dirty, tolerance=1e-9):
        self.where, self.cls, self.message, self.observe, self.continue_, self.dirty = where, cls, message, observe, continue_, dirty
        self.tolerance = tolerance


def same_observation(a, b, tol):
    return len(a) == len(b) and all(M.close(x, y, tol) for x, y in zip(a, b))


def roundtrip(case, obj, history, message_too=True):
    """obj: the object in the state to go through the paths."""
    where = lambda what: "%s after %s: %s" % (case.where, history, what)
    state = obj.dump()
    seen = case.observe(obj)
    R.check(is_plain(state), "not-plain", lambda: where("dump gives %r" % (state,)))
    R.check(equal(obj.dump(), state), "dump-twice", lambda: where("a second dump gives %s, the first %s" % (obj.dump(), state)))

    def untouched(what, key="aliasing"):
        now = obj.dump()
        R.check(equal(now, state) and same_observation(case.observe(obj), seen, 0.0), key,
                lambda: where("%s changed the object from %s to %s" % (what, state, now)))

    given = obj.dump()
    spoil(given)
    untouched("changing the dumped dict")

    def loaded(new, what, want, tol, key):
        now = new.dump()
        R.check(equal(now, want), key, lambda: where("%s gives %s, not %s" % (what, plain(now), plain(want))))
        got = case.observe(new)
        R.check(same_observation(got, seen, tol), key + "-scores", lambda: where("the object from %s scores %s, the original %s" % (what, got, seen)))
        return new

    makers = [("from_dict", lambda raw: case.cls.from_dict(raw))]

    def onto(dirt):
        def make(raw):
            new = dirt()
            new.load(raw)
            return new
        return make
    for name, dirt in case.dirty:
        makers.append(("load over %s" % name, onto(dirt)))
    for what, make in makers:
        raw = M.copied(state)
        new = loaded(make(raw), what, state, case.tolerance, "dict")
        R.check(equal(raw, state), "load-changes-dict", lambda: where("%s changed the dict it was given from %s to %s" % (what, plain(state), plain(raw))))
        spoil(raw)
        R.check(equal(new.dump(), state), "aliasing", lambda: where("changing the dict given to %s changed the object to %s" % (what, plain(new.dump()))))
        for name, run in case.continue_:
            raw = M.copied(state)
            a, b = make(raw), make(M.copied(state))
            try:
                run(a)
                ended = None
            except Exception as e:
                ended = "%s: %s" % (type(e).__name__, e)
            R.check(equal(raw, state), "aliasing", lambda: where("%s on an object loaded by %s changed the dict to %s" % (name, what, plain(raw))))
            R.check(equal(b.dump(), state), "aliasing", lambda: where("%s on one object loaded by %s changed another" % (name, what)))
            R.check(ended is None, "continue", lambda: where("%s on an object loaded by %s failed: %s" % (name, what, ended)))
            yield_results.setdefault((history, name), []).append((what, a))
    untouched("loading and using other objects")
    if not message_too or not hasattr(case.cls, "protobuf_dump"):
        return
    new_message = case.message
    first = new_message()
    obj.protobuf_dump(first)
    untouched("protobuf_dump", "protobuf_dump-changes-state")
    text = first.SerializeToString(deterministic=True)
    for name, dirt in case.dirty:
        again = new_message()
        try:
            dirt().protobuf_dump(again)
        except Exception as e:
            R.check(False, "protobuf_dump-fails", where("protobuf_dump of %s: %r" % (name, e)))
            continue
        obj.protobuf_dump(again)
        R.check(again == first, "dirty-message", lambda: where("dumped over the message of %s: %s; over an empty one: %s" % (name, again, first)))
    parsed = new_message()
    parsed.ParseFromString(text)
    want = single(state)
    exact = equal(want, state)
    tol = case.tolerance if exact else 1e-3
    makers = [("protobuf_load", lambda m: fresh(case, m))]

    def onto_message(dirt):
        def make(m):
            new = dirt()
            new.protobuf_load(m)
            return new
        return make
    for name, dirt in case.dirty:
        makers.append(("protobuf_load over %s" % name, onto_message(dirt)))
    for what, make in makers:
        new = loaded(make(parsed), what, want, tol, "message")
        R.check(parsed == first, "load-changes-message", lambda: where("%s changed the message to %s" % (what, parsed)))
        for name, run in case.continue_:
            a = make(parsed)
            try:
                run(a)
            except Exception as e:
                R.check(False, "continue", where("%s on an object loaded by %s failed: %r" % (name, what, e)))
            R.check(parsed == first, "aliasing", lambda: where("%s on an object loaded by %s changed the message" % (name, what)))
            if exact:
                yield_results.setdefault((history, name), []).append((what, a))
    parsed.Clear()
    back = case.cls.from_protobuf(first)
    R.check(equal(back, want), "from_protobuf", lambda: where("from_protobuf gives %s, not %s" % (plain(back), plain(want))))
    for dirt in [None] + [d for _, d in case.dirty]:
        m = new_message()
        if dirt is not None:
            dirt().protobuf_dump(m)
        raw = M.copied(state)
        case.cls.to_protobuf(raw, m)
        R.check(same_message(case, m, first), "to_protobuf", lambda: where("to_protobuf gives %s, protobuf_dump %s" % (m, first)))
        R.check(equal(raw, state), "load-changes-dict", lambda: where("to_protobuf changed the dict to %s" % plain(raw)))
    old = new_message()
    obj.dump_protobuf(old)
    R.check(old == first, "dump_protobuf", lambda: where("dump_protobuf gives %s, protobuf_dump %s" % (old, first)))
    new = case.cls()
    new.load_protobuf(old)
    loaded(new, "load_protobuf", want, tol, "message")


def fresh(case, m):
    new = case.cls()
    new.protobuf_load(m)
    return new


def same_message(case, a, b):
    """Equal, up to the order of a sparse map's entries."""
    if a == b:
        return True
    return equal(case.cls.from_protobuf(a), case.cls.from_protobuf(b))


yield_results = {}


def compare_continued(case):
    """The same operation on objects loaded by different paths gives the same object."""
    for (history, name), results in yield_results.items():
        what0, first = results[0]
        d0, o0 = first.dump(), case.observe(first)
        for what, other in results[1:]:
            d, o = other.dump(), case.observe(other)
            R.check(equal(d, d0) and same_observation(o, o0, case.tolerance), "continue-differs",
                    lambda: "%s after %s: %s gives %s after %s, %s after %s; scores %s, %s" % (case.where, history, name, plain(d0), what0, plain(d), what, o0, o))
    yield_results.clear()


def group_case(setup, flavor):
    mod, shared = setup.modules[flavor], setup.shared[flavor]
    name = MESSAGES[setup.model]

    def observe(g):
        return [float(g.score_value(shared, v)) for v in setup.probes] + [float(g.score_data(shared))]

    def dirty(values):
        def make():
            g = mod.Group()
            g.init(shared)
            for v, n in values:
                g.add_repeated_value(shared, v, n)
            return g
        return make
    v = setup.values
    last = v[-1]

    def add(x):
        return lambda g: g.add_value(shared, x)

    def merge(g):
        other = dirty([(v[0], 3), (last, 1)])()
        g.merge(shared, other)

    def cycle(g):
        g.add_repeated_value(shared, last, 2)
        g.remove_value(shared, last)
    continue_ = [("add_value(%s)" % M.name_of(x), add(x)) for x in v] + [("merge", merge), ("add and remove", cycle), ("init", lambda g: g.init(shared)), ("nothing", lambda g: None)]
    dirt = [("an empty group", dirty([])), ("a used group", dirty([(v[0], 2), (last, 5)]))]
    return Case("%s.%s.Group %s" % (flavor, setup.model, plain(setup.raw)), mod.Group, getattr(schema, name).Group, observe, continue_, dirt, 1e-6)


def groups(model, index, flavor):
    setup = Setup(model, index, (flavor,))
    case = group_case(setup, flavor)
    frontier, seen = [()], set()
    for depth in range(DEPTH[model] + 1):
        following = []
        for path in frontier:
            world = World(setup)
            for op in path:
                world.apply(op)
            R.transitions += 1
            k = (M.key(world.dump()), tuple(map(tuple, world.held)))
            if k in seen:
                continue
            seen.add(k)
            R.states += 1
            for g in range(2):
                roundtrip(case, world.groups[flavor][g], setup.show(path) + " (group %s)" % "AB"[g])
            R.traces += 1
            compare_continued(case)
            if depth < DEPTH[model]:
                following += [path + (op,) for op in world.enabled()]
        frontier = following
        if sum(R.counts.values()) > 40:
            return
    # groups in debt (counts below zero), where the model allows them; a message cannot hold them
    if model in ("dd", "dpd"):
        case.observe = lambda g: []
        v = setup.values
        for first in range(len(v)):
            for second in range(len(v)):
                g = setup.modules[flavor].Group()
                g.init(setup.shared[flavor])
                g.remove_value(setup.shared[flavor], v[first])
                g.add_repeated_value(setup.shared[flavor], v[second], 2)
                roundtrip(case, g, "remove(%s) add_repeated(%s, 2)" % (v[first], v[second]), False)
                compare_continued(case)
                R.states += 1
    R.sample("%s: %d states of two groups through every path" % (case.where, R.states))


def other_flavors(model):
    """What one flavor dumps, every other loads."""
    for index in range(len(M.PARAMS[model])):
        setup = Setup(model, index)
        have = [f for f in setup.flavors if hasattr(setup.modules[f].Shared, "protobuf_dump")]
        world = World(setup)
        for op in [("add", 0, 0), ("repeat", 0, len(setup.values) - 1, 2)]:
            world.apply(op)
        for a in setup.flavors:
            sd, gd = setup.shared[a].dump(), world.groups[a][0].dump()
            for b in setup.flavors:
                s = setup.modules[b].Shared.from_dict(M.copied(sd))
                g = setup.modules[b].Group.from_dict(M.copied(gd))
                R.check(M.states_close(s.dump(), sd, 1e-6) and M.states_close(g.dump(), gd, 1e-6), "cross-flavor",
                        lambda: "%s: %s loads %s's dumps %s %s as %s %s" % (model, b, a, plain(sd), plain(gd), plain(s.dump()), plain(g.dump())))
                R.states += 1
                if a in have and b in have:
                    m = getattr(schema, MESSAGES[model]).Shared()
                    setup.shared[a].protobuf_dump(m)
                    s = setup.modules[b].Shared()
                    s.protobuf_load(m)
                    R.check(M.states_close(s.dump(), sd, 1e-6), "cross-flavor", lambda: "%s: %s loads %s's message %s as %s" % (model, b, a, m, plain(s.dump())))
    R.traces += R.states
    R.transitions += R.states


BOUNDARY = {
    "bb": [{"alpha": 1e-30, "beta": 1e30}, {"alpha": 0.1, "beta": 1 / 3.0}],
    "bnb": [{"alpha": 0.1, "beta": 1e-6, "r": 1000000}],
    "dd": [{"alphas": [0.1]}, {"alphas": [1.0 / (i + 3) for i in range(256)]}, {"alphas": [1e-20, 1e20]}],
    "dpd": [{"gamma": 1e-3, "alpha": 1e3, "betas": {}, "counts": {}}, {"gamma": 0.1, "alpha": 1 / 3.0, "betas": {OTHER - 1: 0.1, 0: 0.9}, "counts": {OTHER - 1: 1000000, 0: 1}},
            {"gamma": 1.0, "alpha": 0.5, "betas": {i: 0.1 for i in range(10)}, "counts": {i: i + 1 for i in range(10)}},
            {"gamma": 1.0, "alpha": 0.5, "betas": {i * 7919: 1 / 130.0 for i in range(130)}, "counts": {i * 7919: 1 for i in range(130)}}],
    "gp": [{"alpha": 0.1, "inv_beta": 1e-10}],
    "nich": [{"mu": -1e10, "kappa": 1e-10, "sigmasq": 1e10, "nu": 0.1}],
    "niw": [M.niw(4, [0.1, -0.2, 3.3, 1e6], 0.1, 4.0, 3.0)],
}


def shared_case(model, flavor, raws):
    mod = M.module(flavor, model)
    values = M.PARAMS[model][0][1]

    def observe(s):
        if model in ("dpd",):
            known = sorted(s.dump()["betas"])[:6]
            group = mod.Group()
            group.init(s)
            for v in known:
                group.add_value(s, v)
            scores = [float(group.score_value(s, v)) for v in known] + ([float(group.score_data(s))] if known else [])
            left = float(group.score_value(s, OTHER)) if flavor == "lp" or s.beta0 > 0 else -numpy.inf
            return scores + [math.exp(left) + 1.0]   # of the unused mass, the probability is compared
        if model == "niw":
            d = len(s.dump()["mu"])
            vs = [numpy.arange(d) * 0.5 - 1.0 + i for i in range(3)]
        elif model == "dd":
            vs = list(range(len(s.dump()["alphas"])))[:4]
        else:
            vs = values
        group = mod.Group()
        group.init(s)
        for v in vs:
            group.add_value(s, v)
        return [float(group.score_value(s, v)) for v in vs] + [float(group.score_data(s))]

    def dirty(raw):
        def make():
            s = mod.Shared()
            s.load(M.copied(raw))
            return s
        return make
    dirt = [("other parameters (%d)" % i, dirty(raw)) for i, raw in enumerate(raws)]
    continue_ = [("nothing", lambda s: None)]
    return Case("%s.%s.Shared" % (flavor, model), mod.Shared, getattr(schema, MESSAGES[model]).Shared, observe, continue_, dirt, 1e-5)


def shareds(model, flavor):
    raws = [p[0] for p in M.PARAMS[model]] + BOUNDARY[model]
    mod = M.module(flavor, model)
    for e in mod.EXAMPLES:
        raws.append(M.copied(e["shared"]))
    case = shared_case(model, flavor, raws[:4])
    for raw in raws:
        s = mod.Shared()
        given = M.copied(raw)
        s.load(given)
        R.check(equal(given, raw), "load-changes-dict", lambda: "%s: load changed %s to %s" % (case.where, plain(raw), plain(given)))
        want = single(raw) if flavor == "lp" else raw
        got = s.dump()
        if flavor == "lp" and model == "niw":
            R.check(M.states_close(got, want, 1e-7), "dict", lambda: "%s: %s loads as %s" % (case.where, plain(raw), plain(got)))
        else:
            R.check(equal(got, want), "dict", lambda: "%s: %s loads as %s" % (case.where, plain(raw), plain(got)))
        roundtrip(case, s, "load(%s)" % plain(raw))
        compare_continued(case)
        R.states += 1
        R.traces += 1
        R.transitions += 1


def dpd_histories(flavor):
    """The shared weights in every state after adding and removing values, and after realize."""
    mod = M.module(flavor, "dpd")
    case = shared_case("dpd", flavor, [p[0] for p in M.PARAMS["dpd"][:2]])

    def adds(v):
        def run(s):
            if v in s.dump()["betas"]:
                s.add_value(v)
        return run
    case.continue_ = [("add_value(%d)" % v, adds(v)) for v in (0, OTHER - 1)] + [("remove_value", lambda s: [s.remove_value(v) for v in list(s.dump()["betas"])[:1]])]
    case.tolerance = 1e-4
    values = [0, 1, OTHER - 2]
    depth = 4 if QUICK else 6
    seeds = 3 if QUICK else 10
    todo = [()]
    while todo:
        path = todo.pop()
        for seed in range(seeds if path and path[-1][0] == "realize" else 1):
            M.restart_rng(seed)
            numpy.random.seed(seed)
            s = mod.Shared()
            s.load({"gamma": 0.75, "alpha": 0.5, "betas": {}, "counts": {}})
            counts = {}
            for op, v in path:
                if op == "realize":
                    s.realize()
                else:
                    getattr(s, op)(v)
                    counts[v] = counts.get(v, 0) + (1 if op == "add_value" else -1)
                    if not counts[v]:
                        del counts[v]
            R.transitions += 1
            R.states += 1
            roundtrip(case, s, "%s with seed %d" % (path, seed))
            # adding a known value is deterministic; removing the first listed one depends on the order
            for k in [k for k in yield_results if k[1] == "remove_value"]:
                del yield_results[k]
            compare_continued(case)
        R.traces += 1
        if path and path[-1][0] == "realize":
            continue
        if len(path) < depth:
            for v in values:
                todo.append(path + (("add_value", v),))
                if v in counts:
                    todo.append(path + (("remove_value", v),))
        if OTHER - 2 not in counts:
            todo.append(path + (("realize", None),))


def clustering():
    import distributions.dbg.clustering as dbg
    import distributions.lp.clustering as lp

    def run(where, cls, message, raws, queries, exact):
        def observe(m):
            out = []
            for q in queries:
                try:
                    out.append(float(q(m)))
                except (AssertionError, ValueError, ZeroDivisionError, OverflowError, IndexError):
                    out.append(-12345.0)
            return out

        def dirty(raw):
            def make():
                m = cls()
                m.load(M.copied(raw))
                return m
            return make
        case = Case(where, cls, message, observe, [("nothing", lambda m: None)], [("other parameters", dirty(raws[0])), ("other parameters", dirty(raws[-1]))], 1e-6)
        for raw in raws:
            m = cls.from_dict(M.copied(raw))
            want = raw if exact else single(raw)
            R.check(equal(m.dump(), want), "dict", lambda: "%s: %s loads as %s" % (where, raw, m.dump()))
            if hasattr(cls, "Mixture"):
                k = cls(**M.copied(raw))
                R.check(equal(k.dump(), want), "dict", lambda: "%s(**%s) is %s" % (where, raw, k.dump()))
                for name, v in want.items():
                    R.check(getattr(k, name) == v, "property", lambda: "%s(**%s).%s is %r" % (where, raw, name, getattr(k, name)))
            roundtrip(case, m, "load(%s)" % raw)
            compare_continued(case)
            R.states += 1
            R.traces += 1
            R.transitions += 1

    # queries that are valid for the priors they are asked of
    low = [lambda m: m.score_counts([c for c in (m.dataset_size,) if c <= 40]),
           lambda m: m.score_counts([]),
           lambda m: m.score_add_value(1, 1, 1, 1) if m.dataset_size > 2 else 0.0,
           lambda m: m.score_add_value(0, 1, 1, 2) if m.dataset_size > 2 else 0.0,
           lambda m: m.score_remove_value(2, 1, 2, 1) if m.dataset_size > 2 else 0.0]
    raws = [{"dataset_size": n} for n in (5, 0, 1, 2, 3, 10, 47, 48, 1000, 1 << 20, (1 << 31) - 1)]
    run("dbg LowEntropy", dbg.LowEntropy, schema.Clustering.LowEntropy, raws + [{"dataset_size": 1 << 40}], low, True)
    run("lp LowEntropy", lp.LowEntropy, schema.Clustering.LowEntropy, raws, low, True)
    py = [lambda m: m.score_counts([3, 1, 1]), lambda m: m.score_add_value(1, 2, 3, 1), lambda m: m.score_add_value(0, 2, 3, 1), lambda m: m.score_remove_value(1, 2, 3, 1)]
    raws = [{"alpha": a, "d": d} for a in (1.0, 0.1, 1e-6, 1e6, 5.0) for d in (0.0, 0.1, 0.5, 0.999)]
    run("lp PitmanYor", lp.PitmanYor, schema.Clustering.PitmanYor, raws, py, False)


for model in M.PARAMS:
    for flavor in M.FLAVORS[model]:
        for i in range(len(M.PARAMS[model])):
            job("groups/%s/%s/%d" % (flavor, model, i), groups, model, i, flavor)
        job("shared/%s/%s" % (flavor, model), shareds, model, flavor)
    job("flavors/%s" % model, other_flavors, model)
for flavor in M.FLAVORS["dpd"]:
    job("dpd-histories/%s" % flavor, dpd_histories, flavor)
job("clustering", clustering)

if __name__ == "__main__":
    harness.main()
