"""Generated tests run on generated backends: a conforming provider with its own random source and style (uniform, extreme, repetitive),
lifetime, realize() failures, and a point from which it discards test cases or claims exhaustion or verification.
Checked: arguments satisfy their strategies; the verdict follows from the executed cases; reported examples fail, are minimal where the
minimum is known, and replay from the database on the default backend; backend-only failures are flaky; verification claims are noted
exactly when refuted; instances, context managers and observation callbacks are used as documented."""
from vlib import engine as E
from vlib import spec as S

RULE = ("1-3 strategies from an algebra, rules (failures, assume), provider (seed, style, lifetime, stop point and scope, realize failures, avoid_realization), phases, budget, "
        "database, observability; non-trivial = at least 3 distinct inputs came from the backend")
TECHNIQUE = "property-based testing with generated conforming and fault-injecting backends; history invariants over recorded executions and callbacks"
NOTE = "Symbolic values are not modelled (realize() returns its argument or raises)."
QUICK, THOROUGH = 1500, 100000


def cases(tier):
    from hypothesis import strategies as st
    leaf = E.specs(st, 1).map(lambda l: l[0])
    small = E.small_specs(st, 1).map(lambda l: l[0])
    arg = st.one_of(leaf, leaf, small, small.map(lambda s: ["set", ["int", 0, 9], 0, 4]), st.tuples(small, small).map(lambda t: ["dict", ["int", 0, 9], t[1], 0, 3]),
                    st.tuples(st.just("ulist"), st.just(["int", -3, 20]), st.integers(0, 2), st.integers(2, 5), st.just("id")).map(list), st.just(["perm", [1, 2, 3]]))
    stop = st.tuples(st.integers(1, 60), st.sampled_from(["discard_test_case", "exhausted", "verified", "other"]), st.integers(1, 4)).map(list)
    simple = st.tuples(st.sampled_from([["anyint"], ["int", -50, 50], ["int", 0, 1000]]), st.integers(1, 40)).map(lambda t: {"specs": [t[0]], "rules": [[["ge", t[1]], "E0"]]})
    free = st.fixed_dictionaries({"specs": st.lists(arg, min_size=1, max_size=3), "rules": E.rules(st, ["E0", "E2", "EA", "assume", "pass"], 3)})
    return st.tuples(st.one_of(simple, free, free, free), st.fixed_dictionaries({
        "seed": st.integers(0, 2**32), "style": st.sampled_from(["uniform", "edge", "same", "mixed"]), "lifetime": st.sampled_from(["test_function", "test_case"]),
        "stop": st.one_of(st.none(), st.none(), stop), "realize": st.sampled_from([0, 0, 0, 5, 17]), "avoid": st.booleans(), "n": st.sampled_from([1, 5, 20, 60]),
        "phases": st.sampled_from([["generate"], ["generate", "shrink"], ["generate", "target", "shrink"], ["explicit", "reuse", "generate", "target", "shrink", "explain"]]),
        "db": st.booleans(), "obs": st.sampled_from([0, 0, 1]), "multi": st.booleans(), "flaky": st.sampled_from([0, 0, 0, 1]), "target": st.booleans()})).map(lambda t: {**t[0], **t[1]})


def member(spec, v):
    k = spec[0]
    if k == "float":
        return type(v) is float and v == v
    if k == "anyint":
        return type(v) is int
    if k == "anytext":
        return type(v) is str
    if k == "bytes":
        return type(v) is bytes
    if k == "list":
        return type(v) is list and spec[2] <= len(v) <= spec[3] and all(member(spec[1], e) for e in v)
    if k == "tuple":
        return type(v) is tuple and len(v) == len(spec[1]) and all(map(member, spec[1], v))
    if k == "one":
        return any(member(s, v) for s in spec[1])
    if k == "filter":
        return member(spec[1], v) and S.PREDS[spec[2]](v)
    if k == "flat" and spec[1][0] in ("float", "anyint", "anytext", "bytes"):
        return True
    return S.member(spec, v)


class Log:
    def __init__(self):
        self.made = []      # constructor arguments
        self.draws = 0
        self.stopped = False
        self.after = 0      # draws after exhausted / verified
        self.depth = 0
        self.enters = 0
        self.cases = {}     # provider -> test cases
        self.objections = []
        self.obs_cases = []
        self.obs_msgs = []
        self.verified = False
        self.realized = 0
        self.raised = 0
        self.dropped = set()    # numbers of the test cases the backend discarded


def provider(case, log):
    import contextlib
    import math
    import random

    from hypothesis.errors import BackendCannotProceed
    from hypothesis.internal.conjecture.choice import choice_permitted
    from hypothesis.internal.conjecture.providers import PrimitiveProvider
    rng = random.Random(case["seed"])

    class P(PrimitiveProvider):
        lifetime = case["lifetime"]
        avoid_realization = case["avoid"]

        def __init__(self, cd):
            super().__init__(cd)
            log.made.append(cd)
            self.n = 0

        @contextlib.contextmanager
        def per_test_case_context_manager(self):
            log.enters += 1
            self.n += 1
            log.depth += 1
            if log.depth > 1:
                log.objections.append("nested per_test_case_context_manager")
            try:
                yield
            finally:
                log.depth -= 1

        def realize(self, value):
            log.realized += 1
            if case["realize"] and log.realized % case["realize"] == 0:
                log.raised += 1
                log.dropped.add(log.enters)
                raise BackendCannotProceed("discard_test_case")
            return value

        def observe_test_case(self):
            d = {"n": len(log.obs_cases)}
            log.obs_cases.append(d)
            return d

        def observe_information_messages(self, *, lifetime):
            log.obs_msgs.append(lifetime)
            return []

        def tick(self):
            log.draws += 1
            log.after += log.stopped
            if log.depth != 1:
                log.objections.append("draw outside of the context manager")
            s = case["stop"]
            if s and log.draws >= s[0] and (log.draws - s[0]) % s[2] == 0:
                log.raised += 1
                log.dropped.add(log.enters)
                if s[1] in ("exhausted", "verified"):
                    log.stopped = True
                    log.verified |= s[1] == "verified"
                raise BackendCannotProceed(s[1])

        def pick(self, options):
            k = case["style"]
            if k == "mixed":
                k = rng.choice(["uniform", "edge", "same"])
            return options[0] if k == "same" else rng.choice(options[:4]) if k == "edge" else rng.choice(options)

        def draw_boolean(self, p=0.5):
            self.tick()
            if p <= 0 or p >= 1:
                return p >= 1
            # a fair coin, so that collections end
            return rng.random() < min(p, 0.7)

        def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
            self.tick()
            if min_value is not None and max_value is not None:
                if not min_value <= max_value:
                    log.objections.append(f"integer bounds {min_value} {max_value}")
                mid = rng.randint(min_value, max_value)
                if weights:
                    # values of weight zero are not to be drawn
                    w = [weights.get(i, 1) if len(weights) < 10**4 else 1 for i in range(min_value, min(max_value, min_value + 1000) + 1)]
                    if not all(w):
                        return rng.choices(range(min_value, min_value + len(w)), w)[0]
                return self.pick([mid, min_value, max_value, mid, mid])
            big = rng.choice([3, 50, 1000, 10**6, 2**70])
            if min_value is not None:
                return self.pick([min_value + rng.randint(0, big), min_value, min_value + 1, min_value + rng.randint(0, big)])
            if max_value is not None:
                return self.pick([max_value - rng.randint(0, big), max_value, max_value - 1, max_value - rng.randint(0, big)])
            return self.pick([rng.randint(-big, big), 0, 1, -1, rng.randint(-big, big)])

        def draw_float(self, *, min_value=-math.inf, max_value=math.inf, allow_nan=True, smallest_nonzero_magnitude):
            self.tick()
            c = {"min_value": min_value, "max_value": max_value, "allow_nan": allow_nan, "smallest_nonzero_magnitude": smallest_nonzero_magnitude}
            x = rng.uniform(max(min_value, -1e3), min(max_value, 1e3))
            options = [x, min_value, max_value, 0.0, -0.0, math.nan, float(round(x)), rng.uniform(-1, 1), math.inf]
            options = [v for v in options if choice_permitted(v, c)]
            if not options:
                log.objections.append(f"no float for {c}")
            return self.pick(options)

        def length(self, lo, hi):
            return rng.randint(lo, min(hi, lo + rng.choice([0, 1, 5, 12])))

        def draw_string(self, intervals, *, min_size=0, max_size=10**10):
            self.tick()
            n = self.length(min_size, max_size) if len(intervals) else 0
            return "".join(chr(intervals[rng.randrange(len(intervals))]) for _ in range(n))

        def draw_bytes(self, min_size=0, max_size=10**10):
            self.tick()
            return bytes(rng.randrange(256) for _ in range(self.length(min_size, max_size)))
    return P


Current = None


def go(case, backend, log, out, db, phases=None):
    from hypothesis import Phase, given, settings, target
    from vlib.sut import ALL_HC
    names = "abcdef"[:len(case["specs"])]

    def body(args):
        v = E.action(case["rules"], args)
        on = bool(log and log.depth)
        if case["flaky"] and not on and v.startswith("E"):
            v = "pass"
        out.log.append((args, v, log.enters if on else 0))
        if case["target"]:
            target(float(E.H(args, 1000)))
        E.act(v, args)
    ns = {"body": body}
    exec(f"def test({', '.join(names)}):\n    body(({', '.join(names)},))\n", ns)
    f = given(**dict(zip(names, map(E.build, case["specs"]))))(ns["test"])
    conf = settings(max_examples=case["n"], phases=[Phase[p] for p in (phases or case["phases"])], database=db, deadline=None, suppress_health_check=ALL_HC, backend=backend,
                    report_multiple_bugs=case["multi"])
    return E.run(E.seeded(case["seed"] % 1000, conf, f), out)


def run(case, R):
    global Current
    from hypothesis.database import InMemoryExampleDatabase
    from hypothesis.errors import Flaky, Unsatisfiable
    from hypothesis.internal import observability
    from hypothesis.internal.conjecture.providers import AVAILABLE_PROVIDERS
    log, out = Log(), E.Out()
    Current = provider(case, log)
    AVAILABLE_PROVIDERS["vp"] = "props.C44.Current"
    db = InMemoryExampleDatabase() if case["db"] else None
    seen = []
    if case["obs"]:
        observability.TESTCASE_CALLBACKS.append(seen.append)
    try:
        go(case, "vp", log, out, db)
    finally:
        if case["obs"]:
            observability.TESTCASE_CALLBACKS.remove(seen.append)
        del AVAILABLE_PROVIDERS["vp"]
    R.evals(len(out.log))
    exc = out.exc
    what = lambda: f"\n{case}\nexecuted (last 5 of {len(out.log)}): {out.log[-5:]}\nresult: {exc!r}"
    for args, v, on in out.log:
        R.check(all(map(member, case["specs"], args)), lambda: f"{args} does not satisfy the strategies{what()}")
    R.check(not log.objections, lambda: f"{log.objections[:3]}{what()}")
    R.check(log.depth == 0, lambda: f"context managers left open{what()}")
    R.check(log.after == 0, lambda: f"{log.after} draws after the backend said it is finished{what()}")
    kept = [(a, v) for a, v, on in out.log if on not in log.dropped]
    backend = [a for a, v, on in out.log if on]
    R.nontrivial(len({repr(a) for a in backend}) >= 3)
    # ---- lifetimes
    if case["lifetime"] == "test_function":
        R.check(log.made == [None], lambda: f"provider for the test function constructed with {log.made}{what()}")
    else:
        real = [d for d in log.made if d is not None]
        R.check(len(real) >= log.enters and len({id(d) for d in real}) == len(real), lambda: f"{len(real)} instances for {log.enters} test cases{what()}")
    # ---- verdict
    failed = [(a, v) for a, v in kept if v.startswith("E")]
    if case["flaky"]:
        if failed:
            R.check(isinstance(exc, Flaky), lambda: f"a failure which only happens on the backend is not reported as flaky{what()}")
            R.label("flaky")
        else:
            R.check(exc is None or isinstance(exc, Unsatisfiable), lambda: f"nothing failed{what()}")
        return
    passes = sum(v == "pass" for _, v in kept)
    if not failed:
        R.check(exc is None or isinstance(exc, Unsatisfiable), lambda: f"nothing failed{what()}")
        R.check(not (isinstance(exc, Unsatisfiable) and passes), lambda: f"unsatisfiable, but {passes} cases passed{what()}")
        R.check(passes <= case["n"], lambda: f"{passes} passing cases for max_examples={case['n']}{what()}")
        if not log.raised and "filter" not in repr(case["specs"]) and "ulist" not in repr(case["specs"]) and all(v == "pass" for _, v, _ in out.log) and not ("target" in case["phases"] and case["target"]):
            R.check(passes == case["n"], lambda: f"{passes} passing cases for max_examples={case['n']}{what()}")
    else:
        R.label("failed")
        R.check(exc is not None and not isinstance(exc, (Flaky, Unsatisfiable)), lambda: f"{failed[:3]} failed{what()}")
        tags = {v for _, v in failed}
        R.check(out.tags and set(out.tags) <= tags and len(set(out.tags)) == len(out.tags), lambda: f"reported {out.tags}, executed {tags}{what()}")
        R.check(len(out.tags) == 1 or case["multi"], lambda: f"reported {out.tags}{what()}")
        for e, tag in zip(out.leaves, out.tags):
            ex = E.shown(e)
            R.check(ex is not None and E.action(case["rules"], tuple(ex.values())) == tag, lambda: f"example {ex} does not fail with {tag}{what()}")
            if len(case["rules"]) == 1 and case["rules"][0][0][0] == "ge" and "shrink" in case["phases"] and case["specs"] in ([["anyint"]], [["int", -50, 50]], [["int", 0, 1000]]):
                k = case["rules"][0][0][1]
                R.check(list(ex.values()) == [k], lambda: f"example {ex} is not the minimum {k}{what()}")
        notes = [n for e in [exc, *out.leaves] for n in getattr(e, "__notes__", ())]
        noted = any("claimed to verify" in n for n in notes)
        R.check(noted == log.verified, lambda: f"verification claimed: {log.verified}, noted: {noted}{what()}")
        if log.verified:
            R.label("refuted")
        if db is not None:
            two = go(case, "hypothesis", None, E.Out(), db, ["reuse"])
            R.check(set(two.tags) & set(out.tags), lambda: f"the failure does not replay from the database: {two.exc!r}{what()}")
            R.label("replayed")
    # ---- observability
    if case["obs"]:
        tf = log.obs_msgs.count("test_function")
        R.check(tf == 1, lambda: f"observe_information_messages(lifetime='test_function') was called {tf} times{what()}")
        R.check(log.obs_msgs.count("test_case") == len(log.obs_cases), lambda: f"{log.obs_msgs} {len(log.obs_cases)}{what()}")
        got = [o["metadata"]["backend"] for o in seen if o["type"] == "test_case" and o["metadata"].get("backend")]
        R.check([d for d in log.obs_cases if d in got] == log.obs_cases, lambda: f"delivered {got}, observed {log.obs_cases}{what()}")
        R.check(len(got) >= min(1, len(backend)), lambda: f"no observations for {len(backend)} backend cases{what()}")
    else:
        R.check(not log.obs_cases and not log.obs_msgs, lambda: f"observation callbacks were called without observability{what()}")
    if case["stop"] and log.raised:
        R.label(case["stop"][1])
