"""Scalar arguments have a known simplicity order, so each reported input can be compared with every executed input that failed
in the same way; failure identity is fixed by ten failure kinds which agree or differ in type, line and cause chain."""
from vlib import engine as E

RULE = ("generated tests over scalar arguments with up to 6 rules mapping them to ten kinds of failure (equal/different type, line, cause, context, "
        "message), two runs with a database; non-trivial = at least two distinct failures executed")
TECHNIQUE = "property-based testing of whole runs against the execution log and an explicit simplicity order on inputs"
NOTE = "Minimality is judged against everything executed in the run, in both runs."
QUICK, THOROUGH = 200, 30000


def cases(tier):
    from hypothesis import strategies as st

    leaf = st.one_of(st.just(["bool"]), st.tuples(st.integers(-20, 5), st.integers(0, 60)).map(lambda t: ["int", t[0], t[0] + t[1]]),
                     st.just(["int", -10**9, 10**9]), st.just(["int", 0, 500]), st.integers(1, 6).map(lambda k: ["samp", list(range(k))]))
    return st.fixed_dictionaries({
        "specs": st.lists(leaf, min_size=1, max_size=3),
        "rules": st.lists(st.tuples(E.conds(st), st.sampled_from(E.FAILS + ["pass", "assume"])).map(list), min_size=1, max_size=6),
        "n": st.sampled_from([5, 40, 100]), "multi": st.sampled_from([True, True, False]), "explain": st.booleans(),
        "runs": st.sampled_from([1, 2]), "seed": st.integers(0, 10**6)})


def key(spec, v):
    if spec[0] == "int":
        t = min(max(0, spec[1]), spec[2])
        return (abs(v - t), v < t)
    if spec[0] == "samp":
        return spec[1].index(v)
    return v


def run(case, R):
    from hypothesis import Phase, given, seed, settings
    from hypothesis.database import InMemoryExampleDatabase
    from hypothesis.errors import Unsatisfiable
    from vlib.sut import ALL_HC

    db = InMemoryExampleDatabase()
    prev = None
    for i in range(case["runs"]):
        out = E.Out()
        test, strats = E.make(case, out)
        f = given(**strats)(test)
        f._hypothesis_internal_database_key = b"verif"
        ph = [Phase.reuse, Phase.generate, Phase.shrink] + [Phase.explain] * case["explain"]
        f = E.seeded(case["seed"], settings(max_examples=case["n"], phases=ph, database=db, report_multiple_bugs=case["multi"], deadline=None,
                                       suppress_health_check=ALL_HC, derandomize=False, backend="hypothesis"), f)
        E.run(f, out)
        tags = out.tags
        R.evals(len(out.log))
        ctx = lambda: f"{case} run {i}: reported {tags} {out.exc!r}; failing executions {[(k, sum(b == k for a, b in out.failed)) for k in E.FAILS if any(b == k for a, b in out.failed)]}"
        if isinstance(out.exc, Unsatisfiable) and not out.failed:
            continue
        R.check(None not in tags, lambda: f"unexpected exception: {ctx()}")
        seen = {b for a, b in out.failed}
        R.check(len(set(tags)) == len(tags), lambda: f"a failure is reported more than once: {ctx()}")
        if case["multi"]:
            R.check(set(tags) == seen, lambda: f"distinct failures {sorted(seen)} were found: {ctx()}")
            R.check((len(tags) > 1) == isinstance(out.exc, BaseExceptionGroup), lambda: f"group: {ctx()}")
        else:
            R.check(len(tags) == bool(seen), lambda: f"expected exactly one failure of {sorted(seen)}: {ctx()}")
            R.check(set(tags) <= seen, ctx)
        for e, t in zip(out.leaves, tags):
            args = E.shown(e)
            R.check(args is not None, lambda: f"no falsifying example for {t}: {ctx()}")
            args = tuple(args.values())
            R.check(E.action(case["rules"], args) == t, lambda: f"{args} shown for {t} fails with {E.action(case['rules'], args)}: {ctx()}")
            mine = [key(s, v) for s, v in zip(case["specs"], args)]
            best = min(([key(s, v) for s, v in zip(case["specs"], a)], a) for a, b in out.failed if b == t)
            R.check(mine <= best[0], lambda: f"{t} reported with {args} although {best[1]} failed the same way: {ctx()}")
        if prev is not None and case["multi"]:
            R.check(set(prev) <= set(tags), lambda: f"failures {sorted(prev)} of the previous run were lost: {ctx()}")
        if prev is not None and prev:
            R.check(tags, lambda: f"the previous run failed with {prev}: {ctx()}")
        prev = tags
        R.nontrivial(len(seen) > 1)
        R.label(f"failures:{min(len(seen), 4)}")
