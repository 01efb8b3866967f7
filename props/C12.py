"""A generated test is a tuple of strategies plus a rule list that fixes what the body does for any arguments (pass, assume,
reject, skip, or one of seven distinguishable failures), so the harness knows what every executed case must have done.
The whole public run is judged: the exception (or none) against the log of executions, the shown example against the last
execution, and the shown example re-run through the undecorated function."""
import unittest

from vlib import engine as E

RULE = ("generated tests (1-3 arguments; rules mapping arguments to pass/assume/reject/skip/7 failures), settings, phases, optional "
        "explicit examples, interactive draws and a second run from the database; non-trivial = at least one execution failed or was rejected "
        "and at least one other did not")
TECHNIQUE = "property-based testing of whole runs of generated @given tests against a known behaviour function and the execution log"
NOTE = "Behaviour is a pure function of the arguments; specs are small, so shrinking terminates quickly."
QUICK, THOROUGH = 640, 40000


def cases(tier):
    from hypothesis import strategies as st

    acts = E.FAILS + ["assume", "assume", "reject", "pass", "pass"]
    phases = st.one_of(
        st.just(["explicit", "reuse", "generate", "target", "shrink", "explain"]),
        st.sets(st.sampled_from(["explicit", "reuse", "generate", "target", "shrink", "explain"])).map(sorted),
        st.just(["reuse", "generate", "shrink"]))
    return st.fixed_dictionaries({
        "specs": E.specs(st, 3),
        "rules": st.one_of(E.rules(st, acts), E.rules(st, acts), E.rules(st, ["skip", "assume", "pass"]), st.just([[["all"], "assume"]]),
                           st.just([[["ge", 10**6 + 5], "pass"], [["all"], "reject"]])),
        "n": st.sampled_from([1, 2, 5, 20, 60, 100]), "multi": st.booleans(), "phases": phases,
        "examples": st.one_of(st.just([]), st.lists(st.lists(st.one_of(st.integers(-9, 30), st.text("ab", max_size=3)), min_size=3, max_size=3), max_size=3)),
        "runs": st.sampled_from([1, 1, 2]), "draw": st.sampled_from([False, False, True]),
        "verb": st.sampled_from(["quiet", "normal", "normal", "verbose", "debug"]), "seed": st.integers(0, 10**6)})


def judge(case, out, R, plain, names):
    leaves, tags, log = out.leaves, out.tags, out.log
    exc = out.exc
    skips = [i for i, (a, b) in enumerate(log) if b == "skip"]
    failed = out.failed
    ctx = lambda: f"{case} raised {type(exc).__name__}: {str(exc)[:200]}; log tail {log[-4:]}"
    R.evals(len(log))
    if skips:
        R.check(isinstance(exc, unittest.SkipTest), lambda: f"a case skipped but the run did not: {ctx()}")
        R.check(skips == [len(log) - 1], lambda: f"executions after a skip: {ctx()}")
        return
    is_fail = bool(tags) and None not in tags
    R.check(is_fail == bool(failed), lambda: f"{len(failed)} executions failed, but: {ctx()}")
    if is_fail:
        k = len(leaves)
        R.check(k == 1 or case["multi"], lambda: f"several failures raised with report_multiple_bugs=False: {ctx()}")
        explicit = not out.generated
        R.check(explicit or len(set(tags)) == k, lambda: f"the same failure raised twice: {tags} {ctx()}")
        tail = [b for a, b in log[-k:]]
        if not explicit:
            R.check(tail == tags, lambda: f"the last executions were {log[-k:]}, reported {tags}: {ctx()}")
        for j, (e, t) in enumerate(zip(leaves, tags)):
            args = None if case["draw"] else E.shown(e)
            R.check(args is not None or case["draw"] or case["verb"] == "quiet", lambda: f"no falsifying example shown for {e!r}, notes {getattr(e, '__notes__', None)}: {ctx()}")
            if case["draw"] or args is None:
                continue
            args = tuple(args[n] for n in names)
            if not explicit:
                R.check(E.rep(args) == E.rep(log[-k + j][0]), lambda: f"shown {args!r} but the last execution was {log[-k + j][0]!r}: {ctx()}")
            else:
                R.check(E.rep(args) in [E.rep(a) for a, b in failed], lambda: f"shown {args!r} never failed: {ctx()}")
            again = E.Out()
            plain(again, args)
            R.check(type(again.exc) is type(e) and str(again.exc) == str(e) and again.tags == [t],
                    lambda: f"calling the test directly with {args!r} raises {again.exc!r}, reported {e!r} ({t}): {ctx()}")
        R.nontrivial(len(failed) < len(log))
        R.label("failed:" + ("many" if k > 1 else "one"))
        return
    from hypothesis.errors import Unsatisfiable
    ok = [a for a, b in log if b == "pass"]
    gen = out.generated
    engine = {"reuse", "generate"} & set(case["phases"])
    if exc is None:
        R.check(not log or ok or (case["examples"] and not gen), lambda: f"nothing satisfied the test, but it passed: {ctx()}")
        R.nontrivial(len(ok) < len(log))
        R.label("passed")
    elif isinstance(exc, Unsatisfiable):
        R.check(not [1 for a, b in gen if b == "pass"], lambda: f"Unsatisfiable although {len(ok)} cases passed: {ctx()}")
        R.nontrivial()
        R.label("unsatisfiable")
    elif isinstance(exc, unittest.SkipTest):
        R.check(not log, lambda: f"skipped although cases ran: {ctx()}")
        R.check("generate" not in case["phases"], lambda: f"skipped: {ctx()}")
        R.label("nothing to run")
    else:
        R.fail(f"unexpected {ctx()}")
    R.check(bool(engine) or not gen, lambda: f"generated cases without a generating phase: {ctx()}")


def run(case, R):
    from hypothesis import Phase, Verbosity, example, given, seed, settings
    from hypothesis import strategies as st
    from hypothesis.database import InMemoryExampleDatabase
    from vlib.sut import ALL_HC

    db = InMemoryExampleDatabase()
    for i in range(case["runs"]):
        out = E.Out()
        test, strats = E.make(case, out)
        names = list(strats)
        if case["draw"]:
            inner = test
            def test(data):
                inner(**{k: data.draw(s) for k, s in strats.items()})
            f = given(st.data())(test)
        else:
            f = given(**strats)(test)
            for ex in case["examples"]:
                f = example(**dict(zip(names, ex)))(f)
        f = E.seeded(case["seed"], settings(max_examples=case["n"], phases=[Phase[p] for p in case["phases"]], database=db if case["runs"] > 1 else None,
                     report_multiple_bugs=case["multi"], deadline=None, suppress_health_check=ALL_HC,
                     verbosity=Verbosity[case["verb"]], derandomize=False, backend="hypothesis"), f)
        E.run(f, out)
        nex = len(case["examples"]) if "explicit" in case["phases"] and not case["draw"] else 0
        out.generated = out.log[nex:]

        def plain(o, args):
            t, _ = E.make(case, o)
            E.run(t, o, *args)
        judge(case, out, R, plain, names)
