"""Generated collection expressions over generated element strategies.  Each value is judged structurally; small value
spaces are compared with their enumeration; extreme sizes of unbounded or large collections must be reachable;
iterables, custom dict classes and uniqueness keys are covered separately."""
from vlib import spec as S

RULE = ("generated collection specs (depth <= 3) in one engine mode, or checked for completeness; non-trivial = the value space "
        "has more than one member and at least 3 distinct values were judged")
TECHNIQUE = "property-based testing: generated collection expressions against a structural membership model and enumeration"
NOTE = "Completeness is exact for value spaces of up to 120 values; sizes beyond are checked at the declared extremes."
QUICK, THOROUGH = 1500, 100000


def cases(tier):
    from hypothesis import strategies as st

    lf = S.leaf(st)
    h1 = st.one_of(lf, lf.map(lambda e: ["map", e, "tag"]), st.lists(lf, max_size=2).map(lambda l: ["tuple", l])).filter(S.hashable)
    el1 = st.one_of(lf, lf, S.collections(st, lf, h1), lf.map(lambda e: ["map", e, "h2"]), lf.map(lambda e: ["filter", e, "h3"]), lf.map(lambda e: ["flat", e, "dup"]),
                    st.lists(lf, min_size=1, max_size=3).map(lambda l: ["one", l]))
    h2 = st.one_of(h1, st.tuples(h1, st.integers(0, 2)).map(lambda t: ["fset", t[0], 0, t[1]]))
    sp = st.one_of(S.collections(st, el1, h1), S.collections(st, el1, h2), S.collections(st, S.collections(st, el1, h1), h2)).map(noiter)
    sp = st.one_of(sp, sp, sp, st.tuples(lf, st.integers(0, 3), st.integers(0, 3)).map(lambda t: ["iter", t[0], t[1], t[1] + t[2]]))
    mode = st.sampled_from(["gen", "shrink", "shrink", "fuzz", "replay", "full", "full", "full"])
    s = st.integers(0, 2**16)
    big = st.fixed_dictionaries({"k": st.just("big"), "what": st.sampled_from(["list", "ulist", "set", "dict", "text", "dictlist", "fset", "tuplekeys"]), "lo": st.integers(0, 30),
                                 "extra": st.one_of(st.none(), st.integers(0, 40)), "mode": st.sampled_from(["gen", "shrink", "fuzz", "replay"]), "s": s})
    multi = st.fixed_dictionaries({"k": st.just("multi"), "bys": st.lists(st.sampled_from([2, 3, 5, 7, 11]), min_size=1, max_size=3), "hi": st.integers(1, 4), "n": st.integers(2, 30),
                                   "tup": st.booleans(), "mode": st.sampled_from(["gen", "shrink", "fuzz"]), "s": s})
    return st.one_of(st.tuples(sp, mode, s).map(lambda t: {"k": "spec", "spec": t[0], "mode": t[1], "s": t[2]}),
                     st.tuples(sp, mode, s).map(lambda t: {"k": "spec", "spec": t[0], "mode": t[1], "s": t[2]}),
                     st.tuples(sp, mode, s).map(lambda t: {"k": "spec", "spec": t[0], "mode": t[1], "s": t[2]}), big, multi)


def noiter(s):
    """iterables() are only tested at the top level (they can be consumed once)."""
    if isinstance(s, list):
        if s and s[0] == "iter":
            s = ["list"] + s[1:]
        return [noiter(x) for x in s]
    return s


def run(case, R):
    import math
    from collections import OrderedDict
    from hypothesis import strategies as st
    from vlib.sut import drive, quiet
    from hypothesis.errors import InvalidArgument

    k = case["k"]
    R.label(k, case["mode"])
    if k == "big":
        lo, hi = case["lo"], None if case["extra"] is None else case["lo"] + case["extra"]
        w = case["what"]
        R.label(w)
        f = {"list": lambda: st.lists(st.integers(), min_size=lo, max_size=hi),
             "ulist": lambda: st.lists(st.integers(0, 2**40), min_size=lo, max_size=hi, unique=True),
             "set": lambda: st.sets(st.integers(0, 10**6), min_size=lo, max_size=hi),
             "fset": lambda: st.frozensets(st.sampled_from(range(100)), min_size=lo, max_size=hi),
             "dict": lambda: st.dictionaries(st.integers(0, 10**6), st.booleans(), min_size=lo, max_size=hi),
             "dictlist": lambda: st.dictionaries(st.integers(0, 10**6), st.just(0), dict_class=OrderedDict, min_size=lo, max_size=hi),
             "text": lambda: st.lists(st.text(max_size=2), min_size=lo, max_size=hi, unique_by=(lambda x: x, str.swapcase)),
             "tuplekeys": lambda: st.dictionaries(st.tuples(st.integers(0, 99), st.integers(0, 99)), st.lists(st.none(), max_size=1), min_size=lo, max_size=hi)}[w]
        typ = {"set": set, "fset": frozenset, "dict": dict, "dictlist": OrderedDict, "tuplekeys": dict}.get(w, list)
        sizes = set()

        def judge(v):
            if type(v) is not typ:
                return f"{typ} expected, got {v!r}"
            sizes.add(len(v))
            if not lo <= len(v) <= (math.inf if hi is None else hi):
                return f"size {len(v)} not in [{lo}, {hi}]: {v!r}"
            if w in ("ulist", "text") and len(set(v)) != len(v):
                return f"repeated element: {v!r}"
            if w == "text" and len(set(map(str.swapcase, v))) != len(v):
                return f"repeated key: {v!r}"
            ok = {"list": lambda e: type(e) is int, "ulist": lambda e: 0 <= e <= 2**40, "set": lambda e: 0 <= e <= 10**6, "fset": lambda e: 0 <= e < 100,
                  "dict": lambda e: 0 <= e <= 10**6 and type(v[e]) is bool, "dictlist": lambda e: 0 <= e <= 10**6 and v[e] == 0,
                  "text": lambda e: type(e) is str and len(e) <= 2, "tuplekeys": lambda e: len(e) == 2 and v[e] in ([], [None])}[w]
            for e in v:
                if not ok(e):
                    return f"element {e!r} of {v!r}"
        n = 30 if case["mode"] in ("gen", "shrink") else 15
        mode = "gen" if case["mode"] == "shrink" and lo > 4 else case["mode"]   # shrinking dozens of elements is slow
        drive(quiet(f), judge, R, n=n, s=case["s"], mode=mode, what=f"{w} [{lo},{hi}]")
        R.nontrivial(len(sizes) > 1 or lo == hi)
        if case["mode"] == "gen" and hi is not None and hi - lo <= 8:
            for n in (200, 2000):
                drive(quiet(f), judge, R, n=n, s=case["s"], what=f"{w} [{lo},{hi}]")
                if {lo, hi} <= sizes:
                    break
            R.check({lo, hi} <= sizes, lambda: f"{w} with sizes [{lo}, {hi}]: only sizes {sorted(sizes)} in 2000 examples")
        return
    if k == "multi":
        bys = tuple((lambda x, m=m: (x[0] if case["tup"] else x) % m) for m in case["bys"])
        hi = min(case["hi"], min(case["bys"]), case["n"])
        el = st.integers(0, case["n"] - 1)
        if case["s"] % 2:
            el = st.sampled_from(range(case["n"]))
        if case["tup"]:
            el = st.tuples(el, st.booleans())
        seen = set()

        def judge(v):
            seen.add(len(v))
            for m, by in zip(case["bys"], bys):
                if len({by(x) for x in v}) != len(v):
                    return f"unique_by mod {m} violated: {v!r}"
            if len(v) > hi:
                return f"too long: {v!r}"
        drive(quiet(lambda: st.lists(el, max_size=hi, unique_by=bys if case["s"] % 3 else list(bys)[0] if len(bys) == 1 else bys)), judge, R, n=40, s=case["s"], mode=case["mode"], what=str(case))
        R.nontrivial(len(seen) > 1)
        return
    sp = case["spec"]
    R.label(sp[0])
    dom = S.enum(sp, 121)
    what = f"{sp}"
    def empty(p):
        return S.enum(p, 400) == [] or any(map(empty, S.kids(p)))

    try:
        strat = quiet(lambda: S.build(sp))
        quiet(strat.validate)
        if sp[0] == "fdict" and sp[2]:
            for _, p in sp[2]:
                quiet(lambda: S.build(p).validate())
    except InvalidArgument:
        # e.g. not enough distinct elements for the minimum size
        R.check(empty(sp), lambda: f"{what} is rejected although it has values such as {dom and dom[0]!r}")
        R.label("invalid")
        return
    if dom is not None and not dom:
        # nothing is admissible: must not produce anything
        try:
            drive(strat, lambda v: f"{v!r} from an empty space", R, n=3, s=case["s"], what=what, unsat_ok=True)
        except InvalidArgument:
            R.label("invalid")
        return
    if empty(sp):
        R.label("part-empty")
        try:
            drive(strat, lambda v: None if S.member(sp, v) else f"{v!r} is not admitted", R, n=10, s=case["s"], what=what, unsat_ok=True)
        except InvalidArgument:
            R.label("invalid")
        return
    R.check(not strat.is_empty, f"{what} reports is_empty")
    got = {}

    def judge(v):
        if sp[0] == "iter":
            l = list(v)
            got[S.canon(l)] = l
            if not S.member(["list"] + sp[1:], l):
                return f"{what}: iterable of {l!r}"
            return None if list(v) == [] else f"{what}: {v!r} can be iterated twice"
        got[S.canon(v)] = v
        if not S.member(sp, v):
            return f"{what}: {v!r} is not admitted by the definition"
    if case["mode"] != "full" or dom is None or len(dom) > 120:
        mode = "gen" if case["mode"] == "full" else case["mode"]
        drive(strat, judge, R, n=25, s=case["s"], mode=mode, what="", unsat_ok=not S.simple(sp))
        R.nontrivial(len(got) >= 3)
        return
    R.label("complete")
    R.nontrivial(len(dom) >= 3)
    want = {S.canon(v) for v in dom}
    for n in (3 * len(dom) + 30, 1000, 6000, 30000):
        drive(strat, judge, R, n=n, s=case["s"] + n, what="", unsat_ok=not S.simple(sp))
        if want <= set(got):
            return
    R.fail(f"{what}: {sorted(want - set(got))[:4]} admitted by the definition, but not produced in 30000 examples")
