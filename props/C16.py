"""Two oracles.  For a table of failure conditions with generated parameters (thresholds, sizes, membership, disjunctions, sums, pairs,
trees) the reported value must be the simplest failing value in the documented shrink order, from any starting failure.  For
arbitrary conditions over generated strategies, the shrinker is run on the engine directly: the result must be the simplest of all
the failing executions ever made, no more complex than the first, and shrinking it again must execute to the same result."""
from vlib import engine as E

RULE = ("generated (condition template, parameters, seed) with a known minimal failing value, and generated (strategies, condition, seed) judged by order and fixpoint; "
        "non-trivial = the first failing input found differs from the final one")
TECHNIQUE = "property-based testing: expected minima from parametrised templates; order and fixpoint invariants over the history of failing executions"
NOTE = "Complexity is measured as in C33: fewer choices first, then choice by choice complexity index. Templates only include conditions whose minimum is reached reliably."
QUICK, THOROUGH = 1800, 100000

I = lambda lo, hi: ("i", lo, hi)
# name: (parameters, strategy source, condition source, expected source)
T = {
    "int_ge": ([I(1, 10**30)], "st.integers()", "x >= n", "n"),
    "int_le": ([I(1, 10**30)], "st.integers()", "x <= -n", "-n"),
    "int_abs": ([I(1, 10**12)], "st.integers()", "abs(x) >= n", "n"),
    "int_range_ge": ([I(-1000, 1000), I(0, 3000), I(0, 3000)], "st.integers(n, n + m + k)", "x >= n + m", "simplest(range(n + m, n + m + k + 1), n, n + m + k)"),
    "int_range_le": ([I(-1000, 1000), I(0, 3000), I(0, 3000)], "st.integers(n, n + m + k)", "x <= n + m", "simplest(range(n, n + m + 1), n, n + m + k)"),
    "int_min": ([I(-10**20, 10**20), I(0, 1000)], "st.integers(min_value=n)", "x >= n + m", "0 if n + m <= 0 else n + m"),
    "float_ge": ([I(1, 2**40)], "st.floats()", "x >= n", "float(n)"),
    "float_half": ([I(0, 2**20)], "st.floats()", "x > n + 0.5", "float(n + 1)"),
    "float_le": ([I(1, 2**30)], "st.floats()", "x <= -n", "-float(n)"),
    "float_nan": ([], "st.floats()", "x != x", "float('nan')"),
    "float_int": ([I(0, 10**6)], "st.floats(min_value=n)", "True", "float(n)"),
    "bool": ([], "st.booleans()", "x", "True"),
    "samp": ([I(1, 30), I(0, 29)], "st.sampled_from([f'v{i}' for i in range(n + m)])", "int(x[1:]) >= m", "f'v{m}'"),
    "one_of": ([I(0, 3)], "st.one_of([st.sampled_from('a'), st.just(1), st.booleans(), st.binary()][:n + 1])", "True", "'a'"),
    "one_second": ([I(1, 50)], "st.integers(0, 5) | st.integers(100, 200) | st.integers(0, 100)", "x >= 100 or x == 70", "100"),
    "just_kinds": ([], "st.none() | st.text() | st.integers()", "isinstance(x, str)", "''"),
    "list_len": ([I(0, 25)], "st.lists(st.integers())", "len(x) >= n", "[0] * n"),
    "list_minlen": ([I(0, 8)], "st.lists(st.text(), min_size=n)", "True", "[''] * n"),
    "list_sum": ([I(1, 10**6)], "st.lists(st.integers(0, 10**7))", "sum(x) >= n", "[n]"),
    "list_any": ([I(1, 10**9)], "st.lists(st.integers())", "any(a >= n for a in x)", "[n]"),
    "list_member": ([I(-30, 30)], "st.lists(st.integers(-30, 30))", "n in x", "[n]"),
    "list_distinct": ([I(1, 5)], "st.lists(st.integers(min_value=0), unique=True)", "len(x) >= n", "list(range(n))"),
    "list_lists": ([I(1, 6)], "st.lists(st.lists(st.booleans()))", "len(x) >= n", "[[]] * n"),
    "list_nonempty_lists": ([I(1, 3)], "st.lists(st.lists(st.integers()))", "len([a for a in x if a]) >= n", "[[0]] * n"),
    "list_pair_sum": ([I(1, 100)], "st.lists(st.integers(0, 100), min_size=2, max_size=2)", "sum(x) >= n", "[0, n]"),
    "list_filter": ([I(1, 12)], "st.lists(st.integers(0, 1000).filter(lambda a: a % 2 == 0))", "len(x) >= n", "[0] * n"),
    "text_len": ([I(0, 25)], "st.text()", "len(x) >= n", "'0' * n"),
    "text_member": ([I(97, 122)], "st.text('abcdefghijklmnopqrstuvwxyz')", "chr(n) in x", "chr(n)"),
    "text_alpha": ([I(1, 20)], "st.text('xyz')", "len(x) >= n", "'x' * n"),
    "bytes_len": ([I(0, 30)], "st.binary()", "len(x) >= n", "bytes(n)"),
    "bytes_any": ([I(1, 255)], "st.binary()", "any(b >= n for b in x)", "bytes([n])"),
    "set_len": ([I(0, 6)], "st.sets(st.integers(min_value=0))", "len(x) >= n", "set(range(n))"),
    "set_samp": ([I(0, 8)], "st.frozensets(st.sampled_from(range(10)))", "len(x) >= n", "frozenset(range(n))"),
    "dict_len": ([I(0, 4)], "st.dictionaries(st.integers(min_value=0), st.text())", "len(x) >= n", "dict.fromkeys(range(n), '')"),
    "dict_value": ([I(1, 50)], "st.dictionaries(st.integers(0, 9), st.integers(0, 99))", "any(v >= n for v in x.values())", "{0: n}"),
    "fixed": ([I(0, 50)], "st.fixed_dictionaries({'a': st.integers(0, 99), 'b': st.booleans()}, optional={'c': st.text()})", "x['a'] >= n", "{'a': n, 'b': False}"),
    "tuple_lt": ([], "st.tuples(st.integers(0, 1000), st.integers(0, 1000))", "x[0] < x[1]", "(0, 1)"),
    "tuple_gt": ([], "st.tuples(st.integers(0, 1000), st.integers(0, 1000))", "x[0] > x[1]", "(1, 0)"),
    "tuple_gap": ([I(1, 100)], "st.tuples(st.integers(0, 1000), st.integers(0, 1000))", "x[0] + n <= x[1]", "(0, n)"),
    "tuple_each": ([I(0, 100), I(0, 100)], "st.tuples(st.integers(), st.floats(0, 1000))", "x[0] >= n and x[1] >= m", "(n, float(m))"),
    "tuple_sum": ([I(1, 1000)], "st.tuples(st.integers(0, 1000), st.integers(0, 1000))", "sum(x) >= n", "(0, n)"),
    "map": ([I(1, 10**6)], "st.integers(0, 10**7).map(lambda a: a * 2)", "x >= n", "n + n % 2"),
    "flatmap": ([I(0, 10)], "st.integers(0, 20).flatmap(lambda k: st.lists(st.booleans(), min_size=k, max_size=k))", "len(x) >= n", "[False] * n"),
    "flatmap_just": ([I(0, 500)], "st.integers(0, 1000).flatmap(lambda k: st.tuples(st.just(k), st.text()))", "x[0] >= n", "(n, '')"),
    "composite": ([I(0, 60)], "comp()", "x[1] >= n", "([], n)"),
    "list_true": ([I(1, 5)], "st.lists(st.booleans())", "sum(x) >= n", "[True] * n"),
    "rec_size": ([I(2, 3)], "st.recursive(st.booleans(), lambda s: st.lists(s))", "leaves(x) >= n", "[False] * n"),
    "rec_any": ([], "st.recursive(st.booleans(), lambda s: st.tuples(s, s))", "isinstance(x, tuple)", "(False, False)"),
    "tree": ([I(1, 3)], "tree", "depth(x) >= n", "spine(n)"),
    "date": ([I(1, 12)], "st.dates()", "x.month == n", "datetime.date(2000, n, 1)"),
    "date_year": ([I(2001, 9999)], "st.dates()", "x.year >= n", "datetime.date(n, 1, 1)"),
    "time": ([I(0, 23)], "st.times()", "x.hour >= n", "datetime.time(n)"),
    "datetime": ([I(1, 59)], "st.datetimes()", "x.minute >= n", "datetime.datetime(2000, 1, 1, 0, n)"),
    "delta": ([I(1, 10**6)], "st.timedeltas()", "x.days >= n", "datetime.timedelta(n)"),
    "frac": ([I(1, 100)], "st.fractions()", "x >= n", "fractions.Fraction(n)"),
    "dec": ([I(1, 100)], "st.decimals(allow_nan=False, allow_infinity=False, places=2, min_value=-1000, max_value=1000)", "x >= n", "decimal.Decimal(n).quantize(decimal.Decimal('0.01'))"),
    "perm": ([I(1, 6)], "st.permutations(range(n))", "True", "list(range(n))"),
    "builds": ([I(0, 99)], "st.builds(dict, a=st.integers(0, 100), b=st.text())", "x['a'] >= n", "{'a': n, 'b': ''}"),
    "complex": ([I(1, 30)], "st.complex_numbers(allow_nan=False, allow_infinity=False)", "abs(x.real) >= n", "complex(n, 0)"),
}


def cases(tier):
    from hypothesis import strategies as st

    def params(name):
        return st.tuples(*(st.one_of(st.integers(lo, hi), st.integers(lo, min(hi, lo + 20))) for _, lo, hi in T[name][0])).map(list)
    table = st.sampled_from(sorted(T)).flatmap(lambda name: st.fixed_dictionaries({"t": st.just(name), "p": params(name), "seed": st.integers(0, 10**9)}))
    inv = st.fixed_dictionaries({"specs": st.one_of(E.specs(st, 3), E.small_specs(st, 3)), "cond": E.conds(st), "seed": st.integers(0, 10**9)})
    return st.one_of(table, table, table, inv)


def run(case, R):
    from vlib.sut import ALL_HC
    if "t" in case:
        return table(case, R, ALL_HC)
    return inv(case, R, ALL_HC)


def helpers():
    def leaves(x):
        return sum(map(leaves, x)) if isinstance(x, list) else 1

    def depth(x):
        return 0 if x is None else 1 + max(depth(a) for a in x)

    def spine(n):
        t = None
        for _ in range(n):
            t = (None, t)
        return t

    def simplest(vals, lo, hi):
        base = min(max(0, lo), hi)
        return min(vals, key=lambda v: (abs(v - base), v < base))
    return dict(leaves=leaves, depth=depth, spine=spine, simplest=simplest)


def table(case, R, hc):
    import datetime
    import decimal
    import fractions

    from hypothesis import Phase, given, seed, settings
    from hypothesis import strategies as st
    from hypothesis.errors import Unsatisfiable

    @st.composite
    def comp(draw):
        l = draw(st.lists(st.booleans()))
        return l, draw(st.integers(0, 60))

    tree = st.deferred(lambda: st.none() | st.tuples(tree, tree))
    params, strat, cond, exp = T[case["t"]]
    env = dict(zip("nmk", case["p"]), st=st, comp=comp, tree=tree, **helpers(), datetime=datetime, decimal=decimal, fractions=fractions)
    s = eval(strat, env)
    f = eval("lambda x: " + cond, env)
    want = eval(exp, env)
    log = []

    @settings(max_examples=2000, phases=[Phase.generate, Phase.shrink], database=None, deadline=None, suppress_health_check=hc, derandomize=False,
              report_multiple_bugs=False, backend="hypothesis")
    @seed(case["seed"])
    @given(s)
    def test(x):
        if f(x):
            log.append(x)
            raise AssertionError
    out = E.run(test, E.Out())
    if not log:
        R.label("not found:" + case["t"])
        R.check(out.exc is None or isinstance(out.exc, Unsatisfiable), lambda: f"{case}: {out.exc!r}")
        return
    R.evals(len(log))
    R.check(isinstance(out.exc, AssertionError), lambda: f"{case} raised {out.exc!r}")
    got = log[-1]
    R.nontrivial(repr(log[0]) != repr(got))
    R.check(type(got) is type(want) and repr(got) == repr(want), lambda: f"{strat} failing if {cond} with {env_of(case)}, seed {case['seed']}: reported {got!r}, the simplest is {want!r} (first found: {log[0]!r})")


def env_of(case):
    return dict(zip("nmk", case["p"]))


def inv(case, R, hc):
    from random import Random

    from hypothesis import Phase, settings
    from hypothesis import strategies as st
    from hypothesis.control import BuildContext
    from hypothesis.internal.conjecture.choice import choice_to_index
    from hypothesis.internal.conjecture.data import Status
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    strat = st.tuples(*map(E.build, case["specs"]))
    cond = tuple(case["cond"])
    seen = []

    def key(nodes):
        return (len(nodes), tuple(choice_to_index(n.value, n.constraints) for n in nodes))

    def f(data):
        with BuildContext(data):
            x = data.draw(strat)
        if E.holds(cond, x):
            seen.append((data, E.rep(x)))
            data.mark_interesting()

    runner = ConjectureRunner(f, settings=settings(max_examples=200, database=None, suppress_health_check=hc, phases=[Phase.generate, Phase.shrink], backend="hypothesis",
                                                  derandomize=False, deadline=None), random=Random(case["seed"]))
    runner.run()
    R.evals(len(seen))
    if not seen:
        R.check(not runner.interesting_examples, lambda: f"{case}: interesting without failure")
        R.label("not found")
        return
    R.check(len(runner.interesting_examples) == 1, lambda: f"{case}: {len(runner.interesting_examples)} failures")
    final, = runner.interesting_examples.values()
    R.check(final.status is Status.INTERESTING, lambda: f"{case}: {final.status}")
    keys = [key(d.nodes) for d, x in seen]
    fk = key(final.nodes)
    best = min(keys)
    R.check(fk in keys, lambda: f"{case}: the result {final.choices} was never executed")
    R.check(fk == best, lambda: f"{case}: the result {seen[keys.index(fk)][1]} {final.choices} is more complex than {seen[keys.index(best)][1]} {seen[keys.index(best)][0].choices} which failed too")
    R.nontrivial(fk != keys[0])
    # a fresh runner starting from the result finds nothing simpler
    first = len(seen)
    again = ConjectureRunner(f, settings=runner.settings, random=Random(case["seed"]))
    again.ignore_limits = True
    res = again.cached_test_function(final.choices)
    R.check(res.status is Status.INTERESTING, lambda: f"{case}: the result {final.choices} does not fail again")
    res2 = again.shrink(res, lambda d: d.status is Status.INTERESTING)
    if key(res2.nodes) != fk:
        R.check(key(res2.nodes) < fk, lambda: f"{case}: shrinking {final.choices} again gives the more complex {res2.choices}")
        R.fail(f"{case}: shrinking the result {seen[keys.index(fk)][1]} {final.choices} again gives {seen[-1][1]} {res2.choices} (first found {seen[0][1]})")
    R.label("fixpoint")
