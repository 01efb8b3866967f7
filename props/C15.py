"""Generated test bodies are operation lists on the PRNGs Hypothesis manages: random, numpy.random and registered generators.  Each operation is
applied to the real generator and to a model that starts every test case from seed 0; every value must agree.  Bodies may reseed, nest
another @given test, draw random_module(), register generators, fail depending on drawn values, be skipped or interrupted.  Whatever
happens, the state outside afterwards must be the one before, and a failure depending on random values must be reported, not flaky."""
from vlib import engine as E

RULE = ("generated operation lists (1-10 operations on 2-4 generators, nesting <= 2) with outcomes including random-dependent failures and interrupts, over 5-40 test cases; "
        "non-trivial = at least 2 generators were used or the run did not pass")
TECHNIQUE = "property-based testing: model of every managed generator run in lock-step with generated test bodies; state comparison outside"
NOTE = "Seed zero at the start of each test case is taken from register_random's documentation."
QUICK, THOROUGH = 900, 60000


def cases(tier):
    from hypothesis import strategies as st

    g = st.sampled_from(["random", "random", "numpy", "reg0", "reg1"])
    op = st.one_of(
        st.tuples(st.just("draw"), g, st.integers(1, 3)).map(list), st.tuples(st.just("draw"), g, st.integers(1, 3)).map(list),
        st.tuples(st.just("seed"), g, st.integers(0, 2**32 - 1)).map(list), st.tuples(st.just("rewind"), g).map(list),
        st.just(["module"]), st.just(["register"]), st.tuples(st.just("gen"), st.integers(0, 3)).map(list),
        st.tuples(st.sampled_from(["failif", "assumeif", "failif"]), g, st.integers(1, 9)).map(list))
    nested = st.tuples(st.just("nested"), st.lists(op, max_size=4), st.integers(1, 3)).map(list)
    return st.fixed_dictionaries({
        "ops": st.lists(st.one_of(op, op, op, op, nested), min_size=1, max_size=10), "end": st.sampled_from(["pass"] * 6 + ["fail", "skip", "interrupt", "exit", "assume"]),
        "at": st.integers(0, 30), "n": st.sampled_from([1, 5, 25]), "example": st.booleans(), "find": st.sampled_from([False, False, False, True]), "seed": st.integers(0, 10**6),
        "phases": st.sampled_from([["explicit", "generate"], ["explicit", "generate", "shrink"], ["explicit", "generate", "shrink", "explain"]]),
        "outer": st.integers(0, 2**32 - 1)})


class Reg:
    """A minimal registered generator."""

    def __init__(self, k):
        self.k, self.s, self.i = k, k, 0

    def seed(self, s=None):
        self.s, self.i = s, 0

    def getstate(self):
        return (self.s, self.i)

    def setstate(self, st):
        self.s, self.i = st

    def random(self):
        import random
        self.i += 1
        return random.Random(f"{self.s}:{self.i}").random()


KEEP = {}


def run(case, R):
    import random
    import unittest

    import numpy as np

    from hypothesis import Phase, assume, example, find, given, register_random, settings
    from hypothesis import strategies as st
    from hypothesis.errors import Flaky, NoSuchExample, Unsatisfiable
    from vlib.sut import ALL_HC

    if "reg0" not in KEEP:
        KEEP["reg0"] = Reg(3)
        KEEP["reg1"] = random.Random(5)
        register_random(KEEP["reg0"])
        register_random(KEEP["reg1"])
    extra = []          # generators registered by the test bodies
    real = {"random": random, "numpy": np.random, "reg0": KEEP["reg0"], "reg1": KEEP["reg1"]}

    def state():
        n = np.random.get_state()
        return {"random": random.getstate(), "numpy": (n[0], n[1].tobytes(), *n[2:]), "reg0": KEEP["reg0"].getstate(), "reg1": KEEP["reg1"].getstate()}

    class Model:
        def __init__(self):
            self.g = {"random": random.Random(0), "numpy": np.random.RandomState(0), "reg0": Reg(0), "reg1": random.Random(0)}
            self.g["reg0"].seed(0)

        def seed(self, s):
            for x in self.g.values():
                x.seed(s)
    bad = []
    used = set()
    execs = [0]

    def body(ops, data, path):
        m = Model()
        seeded = False
        execs[0] += 1
        if execs[0] > 150:
            raise unittest.SkipTest("enough")
        for i, (k, *a) in enumerate(ops):
            if k in ("draw", "failif", "assumeif"):
                used.add(a[0])
                for _ in range(a[1] if k == "draw" else 1):
                    x, y = real[a[0]].random(), m.g[a[0]].random()
                    if x != y and not bad:
                        bad.append(f"{a[0]}.random() gives {x}, expected {y}, at operation {path + [i]} of execution {execs[0]}")
                if k == "failif" and y * 10 < a[1]:
                    raise E.tagged(AssertionError(f"{y}"), f"E{a[0]}")
                if k == "assumeif":
                    assume(y * 10 < a[1])
            elif k == "seed":
                real[a[0]].seed(a[1])
                m.g[a[0]].seed(a[1])
            elif k == "rewind":
                x, y = real[a[0]], m.g[a[0]]
                if a[0] == "numpy":
                    s = x.get_state()
                    x.random()
                    x.set_state(s)
                else:
                    s = x.getstate()
                    x.random()
                    x.setstate(s)
            elif k == "module":
                r = data.draw(st.random_module())
                s = int(repr(r).partition("(")[2].rstrip(")"))
                if not seeded:      # one per test case
                    m.seed(s)
                seeded = True
            elif k == "register":
                if len(extra) >= 3:     # each registration runs the garbage collector
                    continue
                r = Reg(99)
                extra.append((r, r.getstate(), execs[0]))
                register_random(r)
            elif k == "gen":
                data.draw(st.lists(st.integers(0, 3), max_size=a[0]))
            elif k == "nested":
                before = state()
                try:
                    test(a[0], a[1], path + [i])()
                except (AssertionError, Unsatisfiable, Flaky, BaseExceptionGroup):
                    pass
                if state() != before and not bad:
                    bad.append(f"a nested test changed the state at operation {path + [i]}")

    def test(ops, n, path):
        @settings(max_examples=n, phases=[Phase[p] for p in case["phases"]] if not path else [Phase.generate], database=None, deadline=None, suppress_health_check=ALL_HC, derandomize=True, backend="hypothesis",
                  report_multiple_bugs=bool(case["at"] % 2))
        @given(st.integers(0, 10**6), st.data())
        def f(x, data):
            body(ops, data, path)
            if not path and execs[0] > case["at"]:
                e = case["end"]
                if e == "fail":
                    raise E.tagged(ValueError("end"), "Eend")
                if e == "skip":
                    raise unittest.SkipTest
                if e == "interrupt":
                    raise KeyboardInterrupt
                if e == "exit":
                    raise SystemExit(3)
                if e == "assume":
                    assume(False)
        return f

    random.seed(case["outer"])
    np.random.seed(case["outer"])
    KEEP["reg0"].seed(case["outer"])
    KEEP["reg1"].seed(case["outer"])
    before = state()
    out = E.Out()
    expected_failure = any(o[0] == "failif" for o in case["ops"])
    if case["find"]:
        ops = [o for o in case["ops"] if o[0] in ("draw", "seed", "rewind")]
        try:
            find(st.integers(0, 100), lambda x: body(ops, None, []) or x * 7 > 50 + real["random"].random(), settings=settings(database=None, max_examples=case["n"]))
        except (NoSuchExample, unittest.SkipTest):
            pass
        R.label("find")
    else:
        f = test(case["ops"], case["n"], [])
        if case["example"] and not {"module", "gen", "nested"} & {o[0] for o in case["ops"]}:
            # explicit examples go through another path
            g = settings(f._hypothesis_internal_use_settings)

            @g
            @example(5)
            @example(6)
            @given(st.integers(0, 10))
            def f(x):
                body(case["ops"], None, [])
        try:
            E.run(f, out)
        except KeyboardInterrupt:
            out.exc = KeyboardInterrupt()
    after = state()
    R.evals(execs[0])
    ctx = lambda: f"{case}: raised {out.exc!r} after {execs[0]} executions"
    R.check(not bad, lambda: f"{bad[0]}: {ctx()}")
    diff = [k for k in before if before[k] != after[k]]
    R.check(not diff, lambda: f"the state of {diff} has changed: {ctx()}")
    for r, s, i in extra:
        R.check(r.getstate() == s, lambda: f"the state of a generator registered in execution {i} has changed: {ctx()}")
    R.check(not isinstance(out.exc, Flaky) or (case["end"] not in ("pass",) and case["at"] > 0), lambda: f"reported as flaky: {ctx()}")
    if case["end"] == "pass" and out.exc is not None and not isinstance(out.exc, (Unsatisfiable, unittest.SkipTest)):
        R.check(expected_failure and out.tags and None not in out.tags, lambda: f"unexpected: {ctx()}")
    R.nontrivial(len(used) >= 2 or out.exc is not None)
    R.label(type(out.exc).__name__)
