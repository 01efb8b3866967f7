"""The body's behaviour depends on hidden state (execution counters, per-input counters, a drifting draw), or - as controls - does not.
The log of what each execution really did decides whether a Flaky report was due and whether it carries a real failure."""
from vlib import engine as E

RULE = ("generated tests whose outcome or draws depend on hidden counters (fails once, fails every k-th time, fails differently each time, passes "
        "on replay, rejects on replay, draws other types/bounds/amounts on replay), with deterministic controls; non-trivial = a failure was executed")
TECHNIQUE = "property-based testing with injected nondeterminism, judged against the log of every execution"
NOTE = "Only exceptions raised by the body and Flaky errors are acceptable results once a failure was executed."
QUICK, THOROUGH = 1200, 40000


def cases(tier):
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "specs": E.small_specs(st), "rules": st.lists(st.tuples(E.conds(st), st.sampled_from(E.FAILS)).map(list), min_size=1, max_size=3),
        "how": st.sampled_from(["none", "none", "first", "kth", "differs", "reject", "upto", "after", "perinput", "drawtype", "drawmore", "drawbounds", "drawless"]),
        "k": st.integers(1, 12), "n": st.sampled_from([5, 30, 100]), "multi": st.booleans(), "explain": st.booleans(),
        "shrink": st.sampled_from([True, True, False]), "db": st.booleans(), "seed": st.integers(0, 10**6)})


def run(case, R):
    from hypothesis import Phase, assume, given, seed, settings
    from hypothesis import strategies as st
    from hypothesis.database import InMemoryExampleDatabase
    from hypothesis.errors import Flaky, Unsatisfiable
    from vlib.sut import ALL_HC

    how, k = case["how"], case["k"]
    db = InMemoryExampleDatabase() if case["db"] else None
    for i in range(2 if case["db"] else 1):
        out = E.Out()
        count = {"runs": 0, "fails": 0}
        per = {}

        def decide(args):
            x = E.action(case["rules"], args)
            count["runs"] += 1
            if not x.startswith("E"):
                return x
            count["fails"] += 1
            c = count["fails"]
            p = per[E.rep(args)] = per.get(E.rep(args), 0) + 1
            if how == "first":
                return x if c == 1 else "pass"
            if how == "kth":
                return x if c % (k + 1) == 1 else "pass"
            if how == "differs":
                return E.FAILS[(c + E.FAILS.index(x)) % len(E.FAILS)] if c >= k else x
            if how == "reject":
                return x if c < k else "assume"
            if how == "upto":
                return x if c <= k else "pass"
            if how == "after":
                return x if c > k else "pass"
            if how == "perinput":
                return x if p % 2 == 1 else "pass"
            return x

        strats = [E.build(s) for s in case["specs"]]

        def test(data):
            args = tuple(data.draw(s) for s in strats)
            r = count["runs"]
            if how == "drawtype" and r >= k:
                data.draw(st.text() if r % 2 else st.integers())
            elif how == "drawmore" and r >= k:
                for _ in range(r % 3):
                    data.draw(st.integers(0, 5))
            elif how == "drawbounds" and r >= k:
                data.draw(st.integers(0, r))
            elif how == "drawless" and r < k:
                data.draw(st.booleans())
            x = decide(args)
            out.log.append((args, x))
            E.act(x, args)

        f = given(st.data())(test)
        ph = [Phase.reuse, Phase.generate] + [Phase.shrink] * case["shrink"] + [Phase.explain] * case["explain"]
        f = E.seeded(case["seed"], settings(max_examples=case["n"], phases=ph, database=db, report_multiple_bugs=case["multi"], deadline=None,
                                       suppress_health_check=ALL_HC, derandomize=False, backend="hypothesis"), f)
        E.run(f, out)
        exc, leaves = out.exc, out.leaves
        R.evals(len(out.log))
        ctx = lambda: f"{case} run {i} raised {type(exc).__name__}: {str(exc)[:300]} leaves {leaves}; tail of log {out.log[-5:]}"

        def flaky_in(e):
            return isinstance(e, Flaky) or (isinstance(e, BaseExceptionGroup) and any(map(flaky_in, e.exceptions)))

        if how == "none":
            R.check(not flaky_in(exc), lambda: f"a deterministic test is reported flaky: {ctx()}")
        failed = out.failed
        if not failed:
            R.check(exc is None or isinstance(exc, (Unsatisfiable, Flaky)), lambda: f"nothing failed: {ctx()}")
            continue
        R.nontrivial()
        R.check(exc is not None, lambda: f"{len(failed)} executions failed, but the run passed: {ctx()}")
        if flaky_in(exc):
            R.label(f"flaky:{how}")
            tops = exc.exceptions if isinstance(exc, BaseExceptionGroup) and not isinstance(exc, Flaky) else [exc]
            for t in tops:
                if isinstance(t, Flaky) and isinstance(t, BaseExceptionGroup) and not how.startswith("draw"):
                    inner = E.Out()
                    inner.exc = t
                    tags = [x for x in inner.tags if x]
                    R.check(tags, lambda: f"the Flaky error does not include any failure of the test: {t.exceptions} {ctx()}")
                    R.check(set(tags) <= {b for a, b in failed}, lambda: f"the Flaky error includes failures that never happened: {tags} {ctx()}")
            continue
        R.label(f"failed:{how}")
        R.check(all(t is not None for t in out.tags), lambda: f"neither the test's failure nor Flaky: {ctx()}")
        # an ordinary failure report must have been confirmed by the last executions
        m = len(leaves)
        R.check([b for a, b in out.log[-m:]] == out.tags, lambda: f"reported {out.tags} as reproducible, but the last executions did {out.log[-m:]}: {ctx()}")
