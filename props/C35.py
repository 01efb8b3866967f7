"""The body scores its arguments with a known function; the reported best scores come from the run's statistics and its final
report. Misuse is injected for single cases and must always raise InvalidArgument at the call."""
import math

from vlib import engine as E

RULE = ("generated tests with 0-3 target labels, score functions and misuses (bad types, non-finite scores, repeated labels, calls outside a test), "
        "plus monotone and single-peaked objectives over bounded inputs; non-trivial = at least two distinct scores recorded")
TECHNIQUE = "property-based testing against the maximum over the execution log, an argument-validity model, and exact maxima of climbable objectives"
NOTE = "Climbing is required on monotone/single-peak objectives over integers and list lengths with a generous budget."
QUICK, THOROUGH = 300, 30000


def cases(tier):
    from hypothesis import strategies as st

    score = st.sampled_from(["size", "neg", "hash", "const", "half", "huge", "tiny"])
    gen = st.fixed_dictionaries({
        "k": st.just("gen"), "specs": st.one_of(E.small_specs(st), E.specs(st, 2)), "rules": E.rules(st, ["assume", "pass", "pass", "E0", "E2"], 3),
        "labels": st.lists(st.tuples(st.sampled_from(["", "a", "b", "long label"]), score), max_size=3, unique_by=lambda t: t[0]).map(lambda l: [list(t) for t in l]),
        "after": st.booleans(), "n": st.sampled_from([5, 30, 100]), "phases": st.sampled_from(["all", "all", "notarget"]), "db": st.booleans(),
        "multi": st.booleans(), "seed": st.integers(0, 10**6)})
    misuse = st.fixed_dictionaries({
        "k": st.just("misuse"), "score": st.sampled_from(["nan", "inf", "-inf", "str", "none", "complex", "list", "bool", "int", "float", "bigint", "decimal", "fraction", "npfloat"]),
        "label": st.sampled_from(["", "x", None, 1, "repeat"]), "where": st.sampled_from(["test", "test", "test", "outside"]), "seed": st.integers(0, 99)})
    climb = st.fixed_dictionaries({
        "k": st.just("climb"), "what": st.sampled_from(["int", "negint", "peak", "len", "sum", "count", "float"]),
        "n": st.integers(1, 6), "size": st.integers(1, 12), "c": st.integers(0, 10**6), "seed": st.integers(0, 10**6)})
    return st.one_of(gen, gen, misuse, climb)


def value(kind, args):
    s = float(E.size(args))
    return {"size": s, "neg": -s, "hash": float(E.H(args, 1000)), "const": 7.0, "half": int(s) // 2, "huge": s * 1e300 if s < 1e7 else 0.0, "tiny": -5e-324}[kind]


def run(case, R):
    globals()[case["k"]](case, R)


def gen(case, R):
    from hypothesis import Phase, given, seed, settings, target
    from hypothesis.database import InMemoryExampleDatabase
    from hypothesis.statistics import collector
    from vlib.sut import ALL_HC

    logs = []
    for scoring in (True, False):
        out, stats, best, scores = E.Out(), [], {}, set()

        def extra(args, x):
            if not scoring or (x == "assume" and case["after"]):
                return
            for label, kind in case["labels"]:
                v = value(kind, args)
                r = target(v, label=label)
                R.check(r is v or r == v, lambda: f"target({v!r}) returned {r!r}")
                if x != "assume":
                    best[label] = max(best.get(label, -math.inf), v)
                scores.add(v)
        test, strats = E.make(case, out, extra)
        f = given(**strats)(test)
        f._hypothesis_internal_database_key = b"verif"
        ph = set(Phase) - ({Phase.target} if case["phases"] != "all" else set()) - {Phase.explain}
        f = E.seeded(case["seed"], settings(max_examples=case["n"], phases=sorted(ph), database=InMemoryExampleDatabase() if case["db"] else None, deadline=None,
                                       suppress_health_check=ALL_HC, report_multiple_bugs=case["multi"], derandomize=False, backend="hypothesis"), f)
        with collector.with_value(stats.append):
            E.run(f, out)
        ctx = lambda: f"{case}: exc {out.exc!r} stats {[s.get('targets') for s in stats]} best {best} log {out.log[:4]}..{len(out.log)}"
        logs.append((out, stats))
        if scoring:
            for s in stats:
                R.check(s.get("targets", {}) == best, lambda: f"reported best scores {s.get('targets')}, executed {best}: {ctx()}")
            notes = [n for e in ([out.exc] if out.exc else []) for n in getattr(e, "__notes__", ())]
            for label, v in best.items():
                if out.failed and len(best) == 1:
                    R.check(any("target score" in n and f"{v:g}"[:3] in n for n in notes), lambda: f"best score {v} for {label!r} not reported: {notes} {ctx()}")
            R.check(not out.exc or all(t is not None for t in out.tags) or type(out.exc).__name__ == "Unsatisfiable", ctx)
            R.check(all(t is None for t in out.tags) == (not out.failed), lambda: f"verdict: {ctx()}")
        R.nontrivial(len(scores) > 1)
        R.evals(len(out.log))
    # which inputs are valid does not depend on scoring (the search may differ)
    a, b = logs
    va = {E.rep(x): y for x, y in a[0].log}
    for x, y in b[0].log:
        R.check(va.get(E.rep(x), y) == y, lambda: f"{x!r} is {y} without scores but {va[E.rep(x)]} with: {case}")
    R.label("failing" if a[0].failed else "passing")


def misuse(case, R):
    from decimal import Decimal
    from fractions import Fraction

    import numpy

    from hypothesis import given, seed, settings, target
    from hypothesis import strategies as st
    from hypothesis.errors import InvalidArgument
    from vlib.sut import conf

    v = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf, "str": "1", "none": None, "complex": 1j, "list": [1], "bool": True, "int": 3, "float": 2.5,
         "bigint": 10**400, "decimal": Decimal(1), "fraction": Fraction(1, 2), "npfloat": numpy.float64(2.5)}[case["score"]]
    label = case["label"]
    ok_score = case["score"] in ("bool", "int", "float", "npfloat")
    open_score = case["score"] in ("bigint", "decimal", "fraction")       # numbers, but not int/float in range: either answer
    got = []
    if case["where"] == "outside":
        try:
            target(v, label="x" if label == "repeat" else label)
        except InvalidArgument:
            return
        except OverflowError as e:
            R.fail(f"target({v!r}) outside a test raised {e!r}")
        R.fail(f"target({v!r}, label={label!r}) outside a test did not raise InvalidArgument")

    @seed(case["seed"])
    @conf(max_examples=3)
    @given(st.integers())
    def test(x):
        try:
            if label == "repeat":
                target(1.0, label="x")
                target(v, label="x")
            else:
                r = target(v, label=label)
                got.append(("ok", r is v))
        except InvalidArgument:
            got.append(("invalid",))
        except Exception as e:
            got.append((repr(e),))
        else:
            if label == "repeat":
                got.append(("repeat accepted",))
    test()
    good = ok_score and label in ("", "x")
    R.check(got, "never ran")
    R.nontrivial()
    for g in got:
        if good:
            R.check(g == ("ok", True), lambda: f"{case}: {g}")
        elif open_score and label in ("", "x"):
            R.check(g in (("ok", True), ("invalid",)), lambda: f"{case}: {g}")
        else:
            R.check(g == ("invalid",), lambda: f"{case}: misuse gave {g}")


def climb(case, R):
    from hypothesis import given, seed, target
    from hypothesis import Phase
    from hypothesis import strategies as st
    from vlib.sut import conf

    what, n, size, c = case["what"], case["n"], case["size"], case["c"]
    top = 10**6
    if what == "int":
        s, score, best = st.integers(0, top), lambda x: x, top
    elif what == "negint":
        s, score, best = st.integers(-top, top), lambda x: -x, top
    elif what == "peak":
        s, score, best = st.integers(0, top), lambda x: -abs(x - c), 0
    elif what == "len":
        s, score, best = st.lists(st.booleans(), max_size=size), len, size
    elif what == "sum":
        s, score, best = st.tuples(*[st.integers(0, 1000)] * n), sum, 1000 * n
    elif what == "count":
        s, score, best = st.tuples(*[st.integers(0, 9)] * n), lambda t: sum(x == 5 for x in t), n
    else:
        s, score, best = st.floats(0, 1000), lambda x: x, 1000
    seen = []

    @seed(case["seed"])
    @conf(max_examples=1000, phases=[Phase.generate, Phase.target])
    @given(s)
    def test(x):
        v = float(score(x))
        seen.append(v)
        target(v)
    test()
    R.nontrivial()
    R.evals(len(seen))
    R.check(max(seen) == best, lambda: f"{case}: best score {max(seen)} after {len(seen)} cases; the maximum is {best}")
