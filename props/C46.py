"""find() with generated strategies, conditions, settings and seeds, every call of the condition recorded; its result is judged against the
records, against the known minimum for the condition templates of C16, and against enumeration for small spaces.  example() is judged
by membership.  A seeded test run before and after must execute the same inputs."""
from props.C16 import T, cases as c16_cases
from vlib import engine as E
from vlib import spec as S

RULE = ("generated (strategy, condition, settings, seed, database use) for find(), with known minima or enumerations, and strategies for example(); non-trivial = the "
        "condition rejected some executed value and accepted another, or at least 3 distinct examples were judged")
TECHNIQUE = "property-based testing of find() and example() against recorded condition calls, enumeration and known minima"
NOTE = "Unsatisfiable is accepted in place of NoSuchExample when no value at all could be generated."
QUICK, THOROUGH = 1200, 80000


def cases(tier):
    from hypothesis import strategies as st

    table = c16_cases(tier).filter(lambda c: "t" in c)
    spec = st.one_of(E.small_specs(st).map(lambda l: ["tuple", l]), E.small_specs(st, 1).map(lambda l: l[0]), S.combinators(st, S.leaf(st)))
    cond = st.fixed_dictionaries({"kind": st.just("cond"), "spec": spec, "cond": E.conds(st), "n": st.sampled_from([1, 10, 100, 1000]), "seed": st.integers(0, 10**6),
                                  "raise": st.one_of(st.none(), st.none(), st.none(), E.conds(st)), "db": st.booleans(), "truthy": st.sampled_from(["bool", "int", "list"])})
    ex = st.fixed_dictionaries({"kind": st.just("example"), "spec": spec, "k": st.integers(1, 25), "seed": st.integers(0, 10**6)})
    return st.one_of(table, cond, cond, ex)


class Boom(Exception):
    pass


def run(case, R):
    import datetime
    import decimal
    import fractions
    import random
    import warnings

    from hypothesis import find, given, seed, settings
    from hypothesis import strategies as st
    from hypothesis.database import InMemoryExampleDatabase
    from hypothesis.errors import NoSuchExample, Unsatisfiable
    from vlib.sut import conf

    warnings.simplefilter("ignore")

    def bystander():
        log = []

        @conf(max_examples=20)
        @seed(7)
        @given(st.lists(st.integers()), st.text())
        def test(a, b):
            log.append((a, b))
        test()
        return log
    before = bystander()
    if "t" in case:
        from props import C16
        params, strat, cond, exp = T[case["t"]]

        @st.composite
        def comp(draw):
            l = draw(st.lists(st.booleans()))
            return l, draw(st.integers(0, 60))
        tree = st.deferred(lambda: st.none() | st.tuples(tree, tree))
        env = dict(zip("nmk", case["p"]), st=st, comp=comp, tree=tree, datetime=datetime, decimal=decimal, fractions=fractions, **C16.helpers())
        f = eval("lambda x: " + cond, env)
        want = eval(exp, env)
        calls = []

        def p(x):
            r = f(x)
            calls.append(bool(r))
            return r
        try:
            got = find(eval(strat, env), p, settings=settings(max_examples=2000, database=None, deadline=None), random=random.Random(case["seed"]))
        except NoSuchExample:
            R.check(not any(calls), lambda: f"{case}: NoSuchExample although the condition held for {sum(calls)} values")
            R.label("not found")
        else:
            R.check(type(got) is type(want) and repr(got) == repr(want), lambda: f"find({strat}, lambda x: {cond}) with {case['p']}, seed {case['seed']} gives {got!r}, the minimum is {want!r}")
            R.nontrivial(len(set(calls)) > 1)
            R.label("minimum")
        R.evals(len(calls))
    elif case["kind"] == "cond":
        s = S.build(case["spec"])
        all_ = S.enum(case["spec"], 60)
        calls = []
        db = InMemoryExampleDatabase() if case["db"] else None
        wrap = {"bool": bool, "int": lambda b: 5 if b else 0, "list": lambda b: [0] if b else []}[case["truthy"]]

        def p(x):
            if case["raise"] and E.holds(case["raise"], (x,)):
                calls.append((x, "raise"))
                raise Boom("boom")
            r = E.holds(case["cond"], (x,))
            calls.append((x, bool(r)))
            return wrap(r)
        results = []
        for i in range(2):
            n0 = len(calls)
            exc = res = None
            try:
                res = find(s, p, settings=settings(max_examples=case["n"], database=db, deadline=None), random=random.Random(case["seed"]), database_key=b"key")
            except (NoSuchExample, Unsatisfiable, Boom) as e:
                exc = e
            new = calls[n0:]
            ok = [x for x, r in new if r is True]
            boom = [x for x, r in new if r == "raise"]
            ctx = lambda: f"{case}: run {i} of find returned {res!r} / raised {exc!r}; condition held for {ok[:5]}, raised for {boom[:3]}, of {len(new)} values"
            if isinstance(exc, Boom):
                R.check(bool(boom), lambda: f"an exception the condition did not raise: {ctx()}")
            elif exc is not None:
                R.check(not ok and not boom, lambda: f"reported not found: {ctx()}")
                R.check(not isinstance(exc, Unsatisfiable) or not new, lambda: f"Unsatisfiable although values were generated: {ctx()}")
                if all_ is not None and case["n"] == 1000 and not case["raise"]:
                    R.check(not any(E.holds(case["cond"], (x,)) for x in all_), lambda: f"a member satisfies the condition: {ctx()}")
                    R.label("none exists")
            else:
                R.check(E.holds(case["cond"], (res,)) and any(res is x or repr(res) == repr(x) for x in ok), lambda: f"the condition does not hold for the result: {ctx()}")
                R.check(S.member(case["spec"], res), lambda: f"not a member: {ctx()}")
                if i == 1 and case["db"] and not boom and not any(r == "raise" for x, r in calls):
                    R.check(repr(new[0][0]) == repr(results[0]), lambda: f"the saved result {results[0]!r} is not tried first: {ctx()}")
                    R.check(repr(res) == repr(results[0]), lambda: f"the saved result {results[0]!r} is not returned: {ctx()}")
            results.append(res)
            if i == 1 and not case["db"]:
                R.check(repr(results[0]) == repr(results[1]) and [repr(c) for c in calls[:n0]] == [repr(c) for c in new], lambda: f"not repeatable with the same random: {ctx()} {results}")
            if exc is not None and i == 0 and case["db"]:
                break
        R.evals(len(calls))
        R.nontrivial(len({r for x, r in calls}) > 1)
    else:
        s = S.build(case["spec"])
        all_ = S.enum(case["spec"], 60)
        got = []
        for i in range(case["k"]):
            try:
                got.append(s.example())
            except Unsatisfiable:
                R.check(all_ is None or not all_, lambda: f"{case}: example() finds nothing, but {all_[:3]} are members")
                break
            R.check(S.member(case["spec"], got[-1]), lambda: f"{case}: example() returned {got[-1]!r}")
        R.evals(len(got))
        R.nontrivial(len({repr(x) for x in got}) >= 3)
        R.label("example")
    after = bystander()
    R.check(repr(before) == repr(after), lambda: f"{case}: a seeded test executes other inputs afterwards: {before[:3]} {after[:3]}")
