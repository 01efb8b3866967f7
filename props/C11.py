"""Random finite decision-tree programs: each draw selects the next draw, each leaf passes, rejects or fails.  With a budget
of at least the number of leaves, every path must be executed exactly once and a failing leaf must be found; with a smaller
budget no path may be executed twice.  Finite strategy expressions with a budget above their size must yield every value."""
from vlib import spec as S

RULE = "generated decision trees / finite expressions run through @given; non-trivial = at least 4 leaves (values)"
TECHNIQUE = "property-based testing: generated decision-tree programs; the history of executed paths against exact enumeration"
NOTE = "Trees of up to 150 leaves with budgets at or above, and up to thousands of leaves with budgets below the size."
QUICK, THOROUGH = 1500, 100000


def draws(st, sub):
    subs = st.lists(sub, min_size=1, max_size=4)
    return st.one_of(
        st.tuples(st.just("bool"), st.just(2), st.lists(sub, min_size=2, max_size=2)),
        st.tuples(st.just("int"), st.integers(1, 7), subs), st.tuples(st.just("samp"), st.integers(1, 6), subs),
        st.tuples(st.just("float"), st.integers(1, 4), subs), st.tuples(st.just("text"), st.integers(1, 3), subs),
        st.tuples(st.just("list"), st.integers(0, 2), subs), st.tuples(st.just("one"), st.integers(1, 3), subs), st.tuples(st.just("perm"), st.integers(1, 3), subs),
        st.tuples(st.just("bytes"), st.just(1), subs) if False else st.tuples(st.just("int"), st.integers(100, 140), subs),
        st.tuples(st.just("set"), st.integers(1, 3), subs), st.tuples(st.just("char"), st.integers(1, 5), subs))


def size(t):
    if t[0] == "leaf":
        return 1
    n = NV[t[0]](t[1])
    k = len(t[2])
    return sum(size(sub) * ((n - j + k - 1) // k) for j, sub in enumerate(t[2]) if j < n)


NV = {"bool": lambda n: 2, "int": lambda n: n, "samp": lambda n: n, "float": lambda n: n, "text": lambda n: 2 ** (n + 1) - 1, "list": lambda n: 2 ** (n + 1) - 1, "one": lambda n: 2 * n,
      "perm": lambda n: [1, 1, 2, 6][n], "set": lambda n: [0, 2, 5, 16][n], "char": lambda n: n}


def cases(tier):
    from hypothesis import strategies as st

    lf = st.tuples(st.just("leaf"), st.sampled_from(["pass", "pass", "pass", "pass", "reject", "assume"]))
    t = st.recursive(lf, lambda s: draws(st, s), max_leaves=12).filter(lambda t: t[0] != "leaf" and size(t) <= 4000)
    # explicit deep trees, which are hard to cover by chance
    deep = st.tuples(st.integers(2, 10), st.sampled_from(["int", "samp", "one"]), st.integers(2, 5)).map(lambda a: chain(*a))
    t = st.one_of(t, t, t, deep)
    tree = st.fixed_dictionaries({"k": st.just("tree"), "t": t, "extra": st.sampled_from([0, 0, 1, 7, 100]), "fail": st.one_of(st.none(), st.integers(0, 10**6)), "s": st.integers(0, 2**16),
                                  "frac": st.sampled_from([1, 1, 1, 0.5, 0.9, 0.1]), "derand": st.booleans()})
    e = S.leaf(st)
    e1 = st.one_of(e, S.combinators(st, e), S.collections(st, e, e.filter(S.hashable)))
    e2 = st.one_of(S.combinators(st, e1), S.collections(st, e1, e))
    def noit(s):
        return [noit(x) for x in (["list"] + s[1:] if s and s[0] == "iter" else s)] if isinstance(s, list) else s
    ex = st.fixed_dictionaries({"k": st.just("expr"), "spec": e2.map(noit).filter(S.simple), "s": st.integers(0, 2**16)})
    return st.one_of(tree, tree, tree, ex)


def chain(depth, kind, n):
    t = ["leaf", "pass"]
    for _ in range(depth):
        t = [kind, n, [t] + [["leaf", "pass"]] * (2 * n - 1 if kind == "one" else n - 1)]
    return t


def paths(t, pre=()):
    if t[0] == "leaf":
        yield pre, t[1]
        return
    for i in range(NV[t[0]](t[1])):
        yield from paths(t[2][i % len(t[2])], (*pre, i))


def tables():
    import itertools
    import math
    from hypothesis import strategies as st

    T = {}
    def add(kind, n, strat, vals):
        assert len(vals) == NV[kind](n), (kind, n, len(vals))
        T[kind, n] = (strat, {repr(v): i for i, v in enumerate(vals)})
    add("bool", 2, st.booleans(), [False, True])
    for n in [*range(1, 8), *range(100, 141)]:
        add("int", n, st.integers(-3, n - 4), list(range(-3, n - 3)))
    for n in range(1, 6):
        add("one", n, st.one_of(*[st.tuples(st.just(i), st.booleans()) for i in range(n)]), [(i, b) for i in range(n) for b in (False, True)])
    for n in range(1, 7):
        add("samp", n, st.sampled_from("abcdef"[:n]), list("abcdef"[:n]))
    for n in range(1, 5):
        fs = [1.0]
        for _ in range(n - 1):
            fs.append(math.nextafter(fs[-1], 9))
        add("float", n, st.floats(fs[0], fs[-1]), fs)
    for n in range(1, 4):
        add("text", n, st.text("ab", max_size=n), ["".join(p) for k in range(n + 1) for p in itertools.product("ab", repeat=k)])
        add("perm", n, st.permutations(range(n)), [list(p) for p in itertools.permutations(range(n))])
        add("set", n, st.lists(st.sampled_from(range(n)), unique=True), [list(p) for k in range(n + 1) for p in itertools.permutations(range(n), k)])
    for n in range(3):
        add("list", n, st.lists(st.booleans(), max_size=n), [list(p) for k in range(n + 1) for p in itertools.product([False, True], repeat=k)])
    for n in range(1, 6):
        add("char", n, st.characters(min_codepoint=97, max_codepoint=96 + n), list("abcdef"[:n]))
    return T


TABLES = None


def run(case, R):
    global TABLES
    from hypothesis import Phase, assume, given, reject, seed, strategies as st
    from hypothesis.errors import Unsatisfiable
    from vlib.sut import Fail, conf, quiet

    if TABLES is None:
        TABLES = tables()
    R.label(case["k"])
    if case["k"] == "expr":
        sp = case["spec"]
        dom = S.enum(sp, 30)
        if not dom or S.has_empty(sp):
            return
        strat = quiet(lambda: S.build(sp))
        got = set()
        n = 200 + 20 * len(dom)

        @seed(case["s"])
        @conf(max_examples=n)
        @given(strat)
        def test(x):
            got.add(S.canon(x))
            calls[0] += 1
        calls = [0]
        quiet(test)
        R.evals(calls[0])
        want = {S.canon(v) for v in dom}
        if calls[0] < n:    # the space of choice sequences was found to be exhausted
            R.label("exhausted")
            R.nontrivial(len(want) >= 4)
            R.check(want <= got, lambda: f"{sp}: stopped after {calls[0]} of {n} examples without {sorted(want - got)[:3]}")
        R.check(got <= want, lambda: f"{sp}: {sorted(got - want)[:3]}")
        return
    t = case["t"]
    total = size(t)
    exhaustive = total <= 130
    ps = dict(paths(t)) if exhaustive else None
    budget = total + case["extra"] if exhaustive else min(300, total // 2)
    if exhaustive and case["frac"] != 1:
        budget = max(1, int(total * case["frac"]))
    failing = None
    if exhaustive and case["frac"] == 1 and case["fail"] is not None:
        failing = sorted(ps)[case["fail"] % len(ps)]
    history = []
    R.label("exhaustive" if exhaustive else "large", "failing" if failing else "passing")
    R.nontrivial(total >= 4)

    def test(data):
        node, path = t, ()
        while node[0] != "leaf":
            strat, idx = TABLES[node[0], node[1]]
            v = data.draw(strat)
            i = idx[repr(v)]
            path += (i,)
            node = node[2][i % len(node[2])]
        history.append(path)
        if path == failing:
            raise Fail
        if node[1] == "reject":
            reject()
        elif node[1] == "assume":
            assume(False)

    f = conf(max_examples=budget, derandomize=case["derand"], database=None)(given(st.data())(test))
    if not case["derand"]:
        f = seed(case["s"])(f)
    raised = None
    try:
        quiet(f)
    except (Fail, Unsatisfiable) as e:
        raised = e
    R.evals(len(history))
    short = f"tree {t} ({total} leaves), max_examples={budget}"
    if failing is not None:
        R.check(isinstance(raised, Fail), lambda: f"{short}: the failing path {failing} was missed ({len(set(history))} distinct paths executed)")
        k = history.index(failing)
        R.check(len(set(history[:k])) == k, lambda: f"{short}: a path was executed twice before the first failure: {dup(history[:k])}")
        return
    R.check(len(set(history)) == len(history), lambda: f"{short}: path executed twice: {dup(history)}")
    if exhaustive and case["frac"] == 1:
        R.check(len(history) == total, lambda: f"{short}: executed {len(history)} paths, missing e.g. {sorted(set(ps) - set(history))[:2]}")
        allbad = all(o != "pass" for o in ps.values())
        R.check(isinstance(raised, Unsatisfiable) == allbad, f"{short}: raised {raised!r}, every path rejects: {allbad}")
    elif exhaustive:
        valid = sum(ps[p] == "pass" for p in history)
        want = min(budget, sum(o == "pass" for o in ps.values()))
        R.check(valid == want, lambda: f"{short}: {valid} valid examples, expected {want}")


def dup(h):
    seen = set()
    for p in h:
        if p in seen:
            return p
        seen.add(p)
