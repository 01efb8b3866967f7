"""Generated combinator expressions are read as sets of values: every value must be a member in every engine mode, small
sets must be produced completely (also when the same strategy object is reused or nested), and emptiness must agree.
Separately: shared values per test case, recursive leaf limits, random deferred grammars (emptiness against a least
fixpoint, values against the grammar) and sampled_from over many kinds of collections."""
from vlib import spec as S

RULE = ("generated combinator expressions (nesting <= 4), grammars, shared keys and recursive definitions; non-trivial = more "
        "than one admissible value and at least 3 distinct values judged")
TECHNIQUE = "property-based testing: generated combinator expressions against a set-theoretic reading (membership + enumeration)"
NOTE = "Completeness is exact for value spaces of up to 100 values."
QUICK, THOROUGH = 1300, 80000


def cases(tier):
    from hypothesis import strategies as st

    e = S.leaf(st)
    e = st.one_of(e, e, e, st.just(["nothing"]))
    e1 = st.one_of(e, S.combinators(st, e))
    e2 = st.one_of(e, e1, S.combinators(st, e1))
    e3 = st.one_of(S.combinators(st, e1), S.combinators(st, e2), S.combinators(st, S.combinators(st, S.combinators(st, e))))
    mode = st.sampled_from(["gen", "shrink", "fuzz", "replay", "full", "full", "full", "full", "reuse", "reuse", "data"])
    s = st.integers(0, 2**16)
    spec = st.tuples(e3, mode, s).map(lambda t: {"k": "spec", "spec": t[0], "mode": t[1], "s": t[2]})
    gm = st.sampled_from(["gen", "shrink", "fuzz", "replay"])
    shared = st.fixed_dictionaries({"k": st.just("shared"), "slots": st.lists(st.tuples(st.sampled_from(["k1", "k2", None, "obj", 0, ""]), st.sampled_from(["plain", "tuple", "list", "data", "map", "filter"])), min_size=2, max_size=5),
                                    "hi": st.integers(1, 5), "mode": gm, "s": s})
    rec = st.fixed_dictionaries({"k": st.just("rec"), "base": st.sampled_from(["bool", "int", "text", "one"]), "ext": st.sampled_from(["list", "pair", "dict", "or", "fdict", "mixed"]), "max": st.integers(1, 12), "mode": gm, "s": s,
                                 "post": st.sampled_from(["none", "none", "filter", "map", "twice"])})
    sym = st.one_of(st.integers(0, 3), st.sampled_from(["0", "1", "e", "n"]))
    rhs = st.tuples(st.sampled_from(["tuple", "tuple", "list", "map", "list1", "filt"]), st.lists(sym, min_size=1, max_size=2))
    gram = st.fixed_dictionaries({"k": st.just("gram"), "rules": st.lists(st.lists(rhs, min_size=1, max_size=3), min_size=4, max_size=4), "order": st.permutations([0, 1, 2, 3]), "mode": gm, "s": s})
    samp = st.fixed_dictionaries({"k": st.just("samp"), "kind": st.sampled_from(["list", "tuple", "range", "odict", "enum", "flag", "str", "dict", "npish", "deque"]), "n": st.integers(1, 12),
                                  "ops": st.lists(st.sampled_from(["m", "f2", "f3", "m2", "f7"]), max_size=4), "mode": st.sampled_from(["gen", "shrink", "fuzz", "replay", "full", "full"]), "s": s})
    return st.one_of(spec, spec, spec, spec, spec, spec, shared, rec, gram, samp)


def judge_members(sp, got):
    def judge(v):
        got[S.canon(v)] = v
        if not S.member(sp, v):
            return f"{sp}: {v!r} is not admitted"
    return judge


def run(case, R):
    from hypothesis import strategies as st

    k = case["k"]
    R.label(k, case["mode"])
    globals()["do_" + k](case, R, st)


def complete(strat, judge, got, want, R, s, unsat_ok, what):
    from vlib.sut import drive

    for n in (3 * len(want) + 30, 1000, 6000, 30000):
        drive(strat, judge, R, n=n, s=s + n, unsat_ok=unsat_ok)
        if want <= set(got):
            return
    R.fail(f"{what}: {sorted(want - set(got))[:4]} admitted, but not produced in 30000 examples")


def has_empty(sp):
    return S.enum(sp, 400) == [] or any(map(has_empty, S.kids(sp)))


def static_empty(sp):
    """Empty by construction (without looking inside filters, maps, flatmap functions, composite and shared)?"""
    k = sp[0]
    if k in ("comp", "share"):
        return False
    if k == "nothing":
        return True
    if k in ("one", "or"):
        return all(map(static_empty, sp[1]))
    if k == "tuple":
        return any(map(static_empty, sp[1]))
    if k == "list":
        return sp[2] > 0 and static_empty(sp[1])
    return any(map(static_empty, S.kids(sp)))


def do_spec(case, R, st):
    from hypothesis.errors import InvalidArgument
    from vlib.sut import drive, quiet

    sp, s, mode = case["spec"], case["s"], case["mode"]
    dom = S.enum(sp, 101)
    strat = quiet(lambda: S.build(sp))
    try:
        strat.validate()
    except InvalidArgument:
        # lists(nothing(), max_size=n) is documented to be rejected
        R.check(has_empty(sp), f"{sp} rejected")
        R.label("invalid")
        return
    R.check(strat.is_empty == static_empty(sp), lambda: f"{sp}: is_empty is {strat.is_empty}")
    if dom is not None and not dom:
        R.label("empty")
        try:
            drive(strat, lambda v: f"{sp} gave {v!r}, but has no values", R, n=3, s=s, unsat_ok=True)
        except InvalidArgument:
            pass
        return
    got = {}
    judge = judge_members(sp, got)
    if has_empty(sp):
        R.label("part-empty")
        try:
            drive(strat, judge, R, n=10, s=s, unsat_ok=True)
        except InvalidArgument:
            return
    unsat = not S.simple(sp)
    if mode == "data":
        def through(data):
            a = data.draw(strat)
            b = data.draw(strat, label="b")
            return a, b

        bad = {}

        def chk(d):
            a, b = through(d)
            return judge(a) or judge(b)
        drive(st.data(), chk, R, n=25, s=s, unsat_ok=unsat)
        R.nontrivial(len(got) >= 3)
        return
    if mode == "reuse" and dom is not None and len(dom) <= 10:
        # derived strategies must leave the original unchanged, and repeated use must be independent
        R.label("reuse-full")
        R.nontrivial(len(dom) >= 2)
        with_ = [strat.map(repr), strat.filter(lambda v: S.H(S.canon(v), 2)), strat | st.just(99), st.lists(strat, max_size=2), strat.flatmap(st.just), st.one_of(st.none(), strat)]
        for i, d in enumerate(with_):
            drive(d, lambda v: None, R, n=5, s=s + i, unsat_ok=True)
        complete(strat, judge, got, {S.canon(v) for v in dom}, R, s, unsat, f"{sp} after use in other strategies")
        pairs = {}

        def jp(v):
            pairs[S.canon(v)] = v
            return judge(v[0]) or judge(v[1])
        shared = "share" in repr(sp)
        if not shared:
            complete(st.tuples(strat, strat), jp, pairs, {S.canon((a, b)) for a in dom for b in dom}, R, s, unsat, f"tuples(s, s) for s = {sp}")
            u = st.one_of(strat.map(lambda v: ("m", v)), strat, strat.filter(lambda v: False))
            gu = {}

            def ju(v):
                gu[S.canon(v)] = v
                if not (S.member(sp, v) or type(v) is tuple and len(v) == 2 and v[0] == "m" and S.member(sp, v[1])):
                    return f"{v!r} from one_of(s.map(tag), s, s.filter(no)) for s = {sp}"
            complete(u, ju, gu, {S.canon(v) for v in dom} | {S.canon(("m", v)) for v in dom}, R, s, True, f"one_of(s.map, s, empty filter) for s = {sp}")
        return
    if mode in ("full", "reuse") and dom is not None and len(dom) <= 100:
        R.nontrivial(len(dom) >= 3)
        R.label("complete")
        complete(strat, judge, got, {S.canon(v) for v in dom}, R, s, unsat, f"{sp}")
        return
    drive(strat, judge, R, n=25, s=s, mode="gen" if mode in ("full", "reuse") else mode, unsat_ok=unsat)
    R.nontrivial(len(got) >= 3)


def do_shared(case, R, st):
    from vlib.sut import drive

    hi = case["hi"]
    objs = {}

    def mk(key):
        if key == "obj":          # one strategy object without a key
            return objs.setdefault("obj", st.shared(st.integers(0, hi)))
        if key is None:           # a new object without a key every time
            return st.shared(st.integers(0, hi))
        return st.shared(st.integers(0, hi), key=key)
    parts = []
    for key, how in case["slots"]:
        b = mk(key)
        parts.append({"plain": b, "tuple": st.tuples(b, b).map(lambda t: t[0] if t[0] == t[1] else ("differ", t)), "list": st.lists(b, min_size=1, max_size=3).map(lambda l: l[0] if len(set(l)) == 1 else ("differ", l)),
                      "data": st.composite(lambda draw, b=b: draw(b))(), "map": b.map(lambda x: -x).map(lambda x: -x), "filter": b.filter(lambda x: True)}[how])
    seen = set()

    def judge(vs):
        for v in vs:
            if type(v) is not int or not 0 <= v <= hi:
                return f"{case['slots']}: {vs!r}"
        by = {}
        for i, ((key, how), v) in enumerate(zip(case["slots"], vs)):
            if key is None:
                key = ("new", i)
            by.setdefault(key, set()).add(v)
        if any(len(x) != 1 for x in by.values()):
            return f"shared values differ: {case['slots']} gave {vs!r}"
        seen.add(tuple(min(v) for v in by.values()))
    groups = {key if key is not None else i for i, (key, _) in enumerate(case["slots"])}
    n = 25
    drive(st.tuples(*parts), judge, R, n=n, s=case["s"], mode=case["mode"])
    # independence of different keys: all combinations of two keys' values arise
    total = (hi + 1) ** len({("new", i) if key is None else key for i, (key, _) in enumerate(case["slots"])})
    if case["mode"] == "gen" and total <= 30:
        for m in (3 * total + 20, 1000, 3000):
            drive(st.tuples(*parts), judge, R, n=m, s=case["s"] + m)
            if len(seen) == total:
                break
        R.check(len(seen) == total, lambda: f"{case['slots']}: only {len(seen)} of {total} combinations of shared values")
    R.nontrivial(len(seen) > 1)


def leaves(v, base):
    if base(v):
        return 1
    if isinstance(v, dict):
        return sum(leaves(x, base) for x in v.values())
    if isinstance(v, (list, tuple)):
        return sum(leaves(x, base) for x in v)
    raise ValueError(f"{v!r} is neither a base value nor an extension")


def do_rec(case, R, st):
    from vlib.sut import drive

    base, isbase = {"bool": (st.booleans(), lambda v: type(v) is bool), "int": (st.integers(), lambda v: type(v) is int), "text": (st.text(max_size=2), lambda v: type(v) is str),
                    "one": (st.none() | st.integers(0, 3), lambda v: v is None or type(v) is int)}[case["base"]]
    ext = {"list": lambda c: st.lists(c), "pair": lambda c: st.tuples(c, c), "dict": lambda c: st.dictionaries(st.sampled_from("abc"), c), "or": lambda c: st.lists(c, min_size=1, max_size=2) | st.tuples(c, c, c),
           "fdict": lambda c: st.fixed_dictionaries({"x": c}, optional={"y": c}), "mixed": lambda c: st.one_of(st.lists(c), st.tuples(), st.tuples(c), st.dictionaries(st.integers(0, 3), c))}[case["ext"]]
    if case["max"] < 2 and case["ext"] == "pair":
        R.label("skip")
    s = st.recursive(base, ext, max_leaves=case["max"])
    one = s
    if case["post"] == "filter":
        s = s.filter(lambda v: len(repr(v)) % 3)
    elif case["post"] == "map":
        s = s.map(lambda v: v)
    elif case["post"] == "twice":
        s = st.tuples(s, s)
    shapes = set()
    kinds = set()

    def judge(v):
        for x in (v if case["post"] == "twice" else [v]):
            n = leaves(x, isbase)
            shapes.add(repr(x)[:30])
            kinds.add(isbase(x))
            if n > case["max"]:
                return f"{n} leaves in {x!r}, max_leaves={case['max']}"
    drive(s, judge, R, n=40, s=case["s"], mode=case["mode"])
    if case["mode"] == "gen" and case["post"] != "filter" and not (case["max"] < 2 and case["ext"] in ("pair",)):
        for n in (200, 1000):
            if len(kinds) == 2:
                break
            drive(s, judge, R, n=n, s=case["s"])
        R.check(len(kinds) == 2, f"recursive({case['base']}, {case['ext']}, max_leaves={case['max']}) only gave {'base' if True in kinds else 'extended'} values")
    R.nontrivial(len(shapes) >= 3)


def do_gram(case, R, st):
    from vlib.sut import drive

    rules = case["rules"]
    nt = [None] * 4
    T = {"0": st.just(0), "1": st.integers(1, 3), "e": st.nothing(), "n": st.none()}

    def ref(x):
        return T[x] if isinstance(x, str) else st.deferred(lambda: nt[x])

    for i in case["order"]:
        alts = []
        for j, (how, syms) in enumerate(rules[i]):
            ps = [ref(x) for x in syms]
            t = st.tuples(st.just((i, j)), *ps)
            if how == "list":
                t = st.tuples(st.just((i, j)), st.lists(st.tuples(*ps)))
            elif how == "list1":
                t = st.tuples(st.just((i, j)), st.lists(st.tuples(*ps), min_size=1))
            elif how == "map":
                t = t.map(lambda v: v)
            elif how == "filt":
                t = t.filter(lambda v: True)
            alts.append(t)
        nt[i] = st.one_of(alts)
    # emptiness: least fixpoint over "can produce"
    prod = set()

    def ok(x):
        return x in prod if isinstance(x, int) else x != "e"
    while True:
        new = {i for i in range(4) if any(how == "list" or all(map(ok, syms)) for how, syms in rules[i])} - prod
        if not new:
            break
        prod |= new
    order = list(range(4))
    if case["s"] % 2:
        order.reverse()
    for i in order:
        R.check(nt[i].is_empty == (i not in prod), lambda: f"rules {rules}: nonterminal {i} is_empty={nt[i].is_empty}, productive={i in prod}")

    def parse(i, v):
        (a, j), *rest = v
        if a != i:
            return False
        how, syms = rules[i][j]
        if how in ("list", "list1"):
            if len(rest) != 1 or type(rest[0]) is not list or (how == "list1" and not rest[0]):
                return False
            return all(seq(syms, t) for t in rest[0])
        return seq(syms, rest)

    def seq(syms, vals):
        if len(syms) != len(vals):
            return False
        return all(parse(x, v) if isinstance(x, int) else {"0": v == 0, "1": v in (1, 2, 3), "n": v is None, "e": False}[x] for x, v in zip(syms, vals))
    seen = set()
    for i in ([0] if not prod else [sorted(prod)[case["s"] % len(prod)]] + sorted(set(range(4)) - prod)[:1]):
        def judge(v):
            seen.add(repr(v)[:60])
            if not parse(i, v):
                return f"rules {rules}: {v!r} is not derivable from nonterminal {i}"
        from hypothesis.errors import InvalidArgument
        try:
            drive(nt[i], judge, R, n=5, s=case["s"], mode=case["mode"], unsat_ok=True)
        except InvalidArgument:
            R.check(any(how == "list" for r in rules for how, _ in r) or i not in prod, f"rules {rules}: nonterminal {i} rejected")
    R.nontrivial(len(seen) >= 3 and 0 < len(prod))


def do_samp(case, R, st):
    import collections
    import enum
    from vlib.sut import drive

    n, kind = case["n"], case["kind"]
    base = {"list": lambda: [f"v{i}" for i in range(n)], "tuple": lambda: tuple(range(n)), "range": lambda: range(3, 3 + 2 * n, 2), "odict": lambda: collections.OrderedDict((i, str(i)) for i in range(n)),
            "enum": lambda: enum.Enum("E", {f"m{i}": i for i in range(n)}), "flag": lambda: enum.Flag("F", {f"m{i}": 2**i for i in range(min(n, 5))}), "str": lambda: "abcdefghijkl"[:n],
            "dict": lambda: dict.fromkeys("abcdefghijkl"[:n]).keys() and collections.OrderedDict.fromkeys("abcdefghijkl"[:n]), "npish": lambda: [float(i) for i in range(n)], "deque": lambda: collections.deque(range(n))}[kind]()
    if kind == "enum":
        members = list(base)
    elif kind == "flag":
        members = [base(i) for i in range(2 ** min(n, 5))]
    else:
        members = list(base)
    s = st.sampled_from(base)
    if kind == "flag":
        pass
    vals = list(members)
    for op in case["ops"]:
        if op[0] == "m":
            f = (lambda v, op=op: (op, v))
            s = s.map(f)
            vals = [f(v) for v in vals]
        else:
            m = int(op[1])
            f = (lambda v, m=m: S.H(repr(v), m) != 0)
            s = s.filter(f)
            vals = [v for v in vals if f(v)]
    got = {}
    want = {repr(v) for v in vals}

    def judge(v):
        got[repr(v)] = v
        if repr(v) not in want:
            return f"sampled_from({base!r}) with {case['ops']}: {v!r}"
    if not vals:
        drive(s, lambda v: f"{v!r}", R, n=5, s=case["s"], unsat_ok=True)
        return
    R.nontrivial(len(want) > 1)
    if case["mode"] == "full":
        if kind == "flag" and case["ops"]:
            want2 = set()       # flags are drawn in steps; filters may exclude some combinations only by retrying
            drive(s, judge, R, n=100, s=case["s"], unsat_ok=True)
        complete(s, judge, got, want, R, case["s"], bool(case["ops"]), f"sampled_from({base!r}) with {case['ops']}")
    else:
        drive(s, judge, R, n=25, s=case["s"], mode=case["mode"], unsat_ok=True)
