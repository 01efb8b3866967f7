"""Two kinds of cases.  Dynamic: a test over `integers(0, 999)` (optionally mapped by a slow function) and `data()` whose body acts per
value as generated (pass, reject, overrun, draw slowly, run slowly, draw much data, return something, fail), under a fake
`time.perf_counter` which only the harness advances.  Every execution is recorded, and a model of the documented conditions (ten valid
test cases or a failure end the checks; 20 overruns; 50 rejections; total *draw* time above max(1 s, five deadlines or 30 s); size of
the simplest test case) says after which execution which health check must fail the test, if any.  The same seed with all health
checks suppressed must execute the same inputs up to that point, and for the whole run where none fires.  Static: nested @given to
generated depths with suppressions per level, one test method called on sequences of instances and subclasses, @given on methods
that unittest defines, and return values of test functions, rules, initializers and invariants."""
from vlib import engine as E

RULE = ("generated (action per value, suppressed checks, deadline, max_examples, seed) or static set-ups; non-trivial = a health check fires, or at least two kinds of actions were executed")
TECHNIQUE = "property-based testing: executions recorded under an owned clock against an exact model of the health checks; metamorphic relation with the fully suppressed run"
NOTE = "function_scoped_fixture belongs to C42; suppressing the deprecated return_value / not_a_test_method is not judged."
QUICK, THOROUGH = 600, 60000
NAMES = ["data_too_large", "filter_too_much", "too_slow", "large_base_example", "differing_executors", "nested_given"]


def cases(tier):
    from hypothesis import strategies as st

    acts = st.lists(st.sampled_from(["pass", "pass", "reject", "reject", "filter", "overrun", "slowdraw", "slowbody", "half", "big", "fail", "ret"]), min_size=1, max_size=8)
    rare = st.tuples(st.sampled_from(["reject", "filter", "overrun", "slowdraw", "slowbody"]), st.integers(2, 30), st.sampled_from(["pass", "pass", "fail", "half"]), st.integers(0, 3)).map(
        lambda t: [t[2]] * (t[3] > 0) + [t[0]] * t[1] + [t[2]] * t[3])
    near = st.tuples(st.sampled_from(["reject", "filter"]), st.integers(4, 14), st.booleans(), st.sampled_from(["pass", "pass", "half"])).map(lambda t: [t[3]] * t[2] + [t[0]] * t[1] + [t[3]] * (not t[2]))
    supp = st.one_of(st.just([]), st.lists(st.sampled_from(NAMES), unique=True, max_size=5))
    dyn = st.fixed_dictionaries({"kind": st.just("dyn"), "acts": st.one_of(acts, rare, rare, near), "supp": supp, "n": st.sampled_from([5, 20, 100, 100, 300]),
                                 "deadline": st.sampled_from([None, None, 100, 200, 1000, 4000]), "tick": st.sampled_from([0.013, 0.11, 0.37, 1.7, 9.1]), "maptick": st.sampled_from([0, 0, 0, 0.29, 3.3]),
                                 "seed": st.integers(0, 10**6), "ret": st.sampled_from([0, "", False, [], 1, "x"]), "order": st.booleans()})
    nested = st.fixed_dictionaries({"kind": st.just("nested"), "levels": st.lists(st.booleans(), min_size=1, max_size=4), "where": st.sampled_from(["body", "strategy", "outside"]), "other": supp})
    ex = st.fixed_dictionaries({"kind": st.just("exec"), "calls": st.lists(st.sampled_from("aabcd"), min_size=1, max_size=6), "supp": st.booleans(), "kinds": st.sampled_from(["plain", "unittest"])})
    ut = st.fixed_dictionaries({"kind": st.just("unittest"), "name": st.sampled_from(["setUp", "tearDown", "run", "id", "debug", "setUpClass2", "test", "test_a", "runTest", "shortDescription", "assertEqual"]),
                                "case": st.booleans(), "supp": st.booleans()})
    ret = st.fixed_dictionaries({"kind": st.just("stateful"), "where": st.sampled_from(["rule", "initialize", "invariant", "target", "none"]), "ret": st.sampled_from([0, "", False, [], 1, "x", None]), "seed": st.integers(0, 99)})
    return st.one_of(dyn, dyn, dyn, dyn, dyn, nested, ex, ut, ret)


def run(case, R):
    import re
    import time
    import unittest
    import warnings

    from hypothesis import HealthCheck, Phase, assume, given, settings
    from hypothesis import strategies as st
    from hypothesis.errors import FailedHealthCheck, Unsatisfiable
    from vlib.sut import ALL_HC, Fail, conf, quiet

    warnings.simplefilter("ignore")
    kind = case["kind"]
    H = lambda names: [getattr(HealthCheck, n) for n in names]

    def outcome(f):
        try:
            quiet(f)
        except FailedHealthCheck as e:
            m = re.findall(r"HealthCheck\.(\w+)", str(e))
            return m[-1] if m else "?" + str(e)
        except Fail:
            return "fail"
        except Unsatisfiable:
            return "unsat"
        return None

    if kind == "dyn":
        acts = case["acts"]

        def go(supp, stop=None):
            clock = [1000.0]
            log = []

            def slow(x):
                clock[0] += case["maptick"]
                return x

            def adv(x):
                clock[0] += case["tick"]
                return x

            xs = st.integers(0, 999).map(slow)

            @st.composite
            def never(draw):
                assume(False)

            def test(x, data):
                if len(log) == stop:
                    raise KeyboardInterrupt
                a = acts[x % len(acts)]
                e = [x, a, "overrun", case["maptick"]]
                log.append(e)
                if a == "reject":
                    e[2] = "invalid"
                    assume(False)
                elif a == "filter":
                    e[2] = "invalid"
                    data.draw(never())
                elif a == "overrun":
                    data.draw(st.binary(min_size=9000, max_size=9000))
                elif a == "half":
                    data.draw(st.binary(min_size=3000, max_size=3000))
                elif a == "big":
                    data.draw(st.binary(min_size=5000, max_size=5000))
                elif a == "slowdraw":
                    e[3] += case["tick"]
                    data.draw(st.builds(adv, st.none()))
                elif a == "slowbody" and not case["deadline"]:
                    clock[0] += case["tick"]
                elif a == "fail":
                    e[2] = "fail"
                    raise Fail
                e[2] = "valid"
                if a == "ret":
                    return case["ret"]
            if case["order"]:
                f = given(xs, st.data())(test)
            else:
                f = given(data=st.data(), x=xs)(test)
            f = E.seeded(case["seed"], conf(max_examples=case["n"], deadline=case["deadline"], phases=[Phase.generate, Phase.shrink], suppress_health_check=supp), f)
            real = time.perf_counter
            time.perf_counter = lambda: clock[0]
            try:
                return log, outcome(f)
            except KeyboardInterrupt:
                return log, None
            finally:
                time.perf_counter = real
        supp = case["supp"]
        log, got = go(H(supp))
        # the model
        want = None
        at = len(log)
        on = True
        valid = invalid = overrun = 0
        spent = 0.0
        margin = 1.0
        limit = max(1.0, 5 * (case["deadline"] or 6000) / 1000)
        for i, (x, a, stt, dt) in enumerate(log):
            if a == "ret" and stt == "valid":
                want, at = "return_value", i + 1
                break
            if i == 0:
                on = on and stt != "fail"
                if (stt == "overrun" or a == "big" and stt == "valid") and "large_base_example" not in supp:
                    want, at = "large_base_example", 1
                    break
                continue
            if stt == "fail":
                on = False
            if not on:
                continue
            spent += dt
            valid += stt == "valid"
            invalid += stt == "invalid"
            overrun += stt == "overrun"
            if valid == 10:
                on = False
                continue
            margin = min(margin, abs(spent - limit))
            if overrun == 20 and "data_too_large" not in supp:
                want = "data_too_large"
            elif invalid == 50 and "filter_too_much" not in supp:
                want = "filter_too_much"
            elif spent > limit and "too_slow" not in supp:
                want = "too_slow"
            if want and i + 1 == len(log) and sum(e[2] == "valid" for e in log) >= case["n"]:
                want = None      # the budget of max_examples was used up by this execution: the run just ends
                break
            if want:
                at = i + 1
                break
        R.evals(len(log))
        if margin < 0.02:
            R.label("too close to the limit")
            return
        ctx = lambda: f"{case}: {len(log)} executions {[(a, s) for x, a, s, t in log][:80]}: outcome {got!r}"
        if want:
            R.check(got == want, lambda: f"the health check {want} must fail after execution {at}; {ctx()}")
            R.check(len(log) == at, lambda: f"{want} must fail the test right after execution {at}; {ctx()}")
        else:
            exp = "fail" if any(s == "fail" for x, a, s, t in log) else None if any(s == "valid" for x, a, s, t in log) else "unsat"
            R.check(got == exp or exp == "unsat" and got is None, lambda: f"expected outcome {exp!r}; {ctx()}")
        R.nontrivial(bool(want) or len({(a, s) for x, a, s, t in log}) > 1)
        R.label(want or "none fires")
        log2, got2 = go(ALL_HC, len(log) + 150 if want else None)
        R.check(log2[:len(log)] == log and (want or (log2, got2) == (log, got)), lambda: f"suppressing all health checks changes what is executed: {len(log2)} executions, outcome {got2!r}; {ctx()}")
        R.check(got2 in (None, "fail", "unsat") or got2 == "return_value", lambda: f"suppressed health check {got2} fails; {ctx()}")
    elif kind == "nested":
        levels = case["levels"]      # suppressed at each level; the innermost one is irrelevant
        reached = []

        def level(i):
            if i == len(levels):
                return
            others = [n for n in case["other"] if n != "nested_given"]
            sett = conf(max_examples=2, suppress_health_check=H(others + ["nested_given"] * levels[i]))

            def mk(body):
                @sett
                @given(st.integers(), inner_strategy(i))
                def t(x, y):
                    body()
                return t
            if case["where"] == "outside":
                # every function is decorated outside, and called inside
                return mk(pre[i + 1]) if i + 1 < len(levels) else mk(lambda: reached.append(i))

            def body():
                reached.append(i)
                if case["where"] == "body":
                    level(i + 1)
            mk(body)()

        def inner_strategy(i):
            if case["where"] == "strategy" and i + 1 < len(levels):
                @st.composite
                def c(draw):
                    level(i + 1)
                return c()
            return st.none()
        if case["where"] == "outside":
            pre = {}
            for i in reversed(range(len(levels))):
                pre[i] = level(i)
            got = outcome(pre[0])
            want = None
        else:
            got = outcome(lambda: level(0))
            want = None if all(levels[:-1]) else "nested_given"
        R.check(got == want, lambda: f"{case}: outcome {got!r}, expected {want!r}")
        if want is None:
            R.check(reached and max(reached) == len(levels) - 1, lambda: f"{case}: levels executed: {set(reached)}")
        R.nontrivial(len(levels) > 1)
        R.label("nested")
    elif kind == "exec":
        base = unittest.TestCase if case["kinds"] == "unittest" else object
        ran = []

        class A(base):
            @conf(max_examples=3, suppress_health_check=H(["differing_executors"] * case["supp"]))
            @given(st.integers())
            def test_m(self, x):
                ran.append(self)

        class B(A):
            pass
        objs = dict(zip("abcd", [A(*["test_m"][:base is not object]), A(*["test_m"][:base is not object]), B(*["test_m"][:base is not object]), B(*["test_m"][:base is not object])]))
        for i, c in enumerate(case["calls"]):
            del ran[:]
            got = outcome(objs[c].test_m)
            want = None if case["supp"] or c == case["calls"][0] else "differing_executors"
            R.check(got == want, lambda: f"{case}: call {i} has outcome {got!r}, expected {want!r}")
            R.check(all(o is objs[c] for o in ran) and bool(ran) == (want is None), lambda: f"{case}: call {i} executed on {ran}")
        R.nontrivial(len(set(case["calls"])) > 1)
        R.label("executors")
    elif kind == "unittest":
        ran = []

        @conf(max_examples=3, suppress_health_check=ALL_HC if case["supp"] else [])
        @given(st.integers())
        def f(self, x):
            ran.append(x)
        f0 = f
        ns = {}

        def meth(self, x):
            ran.append(x)
        meth.__name__ = meth.__qualname__ = case["name"]
        ns[case["name"]] = conf(max_examples=3, suppress_health_check=ALL_HC if case["supp"] else [])(given(st.integers())(meth))
        ns["test_dummy"] = lambda self: None
        cls = type("X", (unittest.TestCase,) if case["case"] else (), ns)
        obj = cls("test_dummy") if case["case"] else cls()
        got = outcome(getattr(obj, case["name"]))
        want = "not_a_test_method" if case["case"] and hasattr(unittest.TestCase, case["name"]) else None
        R.check(got == want and bool(ran) == (want is None), lambda: f"{case}: outcome {got!r}, expected {want!r}, {len(ran)} executions")
        R.nontrivial(True)
        R.label("unittest")
    else:
        from hypothesis.stateful import Bundle, RuleBasedStateMachine, initialize, invariant, rule, run_state_machine_as_test

        w = case["where"]
        r = case["ret"]
        n = []

        class M(RuleBasedStateMachine):
            b = Bundle("b")

            @initialize(x=st.integers())
            def init(self, x):
                return r if w == "initialize" else None

            @rule(x=st.integers())
            def go(self, x):
                n.append(x)
                return r if w == "rule" else None

            @rule(target=b)
            def add(self):
                return r

            @invariant()
            def inv(self):
                return r if w == "invariant" else None
        got = outcome(lambda: run_state_machine_as_test(M, settings=conf(max_examples=10, stateful_step_count=10, suppress_health_check=[])))
        want = "return_value" if r is not None and w in ("rule", "initialize", "invariant") else None
        R.check(got == want, lambda: f"{case}: outcome {got!r}, expected {want!r}")
        R.nontrivial(r is not None)
        R.label("stateful return")
