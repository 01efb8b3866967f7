"""Machines are generated (vlib/machines.py: up to six rules, three initializers, three invariants, bundles consumed or not, arguments drawn
from bundles directly and through lists, tuples, map, flatmap, filter, one_of and data(), `multiple` of zero to three, several targets, stacked
preconditions, inheritance with overriding, failures in rules, initializers, invariants and teardown, rejections) and run in all phases.  Each
instance carries a model and judges every call it receives: what may run now, whether its preconditions hold, which invariants
are due and were skipped, which values the bundles contain.  When a run ends each instance must have been torn down exactly once; the
result must be the recorded failure or none; InvalidDefinition for lack of progress may only come when no rule could run."""
from vlib import machines as MA

RULE = ("generated machine definitions run with all phases; non-trivial = at least one instance executed 3 steps and a bundle value was passed or a precondition, invariant or initializer was involved")
TECHNIQUE = "model-based stateful property testing: generated machines which check every call made to them"
NOTE = "Where a consuming bundle is filtered or combined with another one, rejected draws are consumed as well; which values remain is then not judged."
QUICK, THOROUGH = 350, 30000


def cases(tier):
    from hypothesis import strategies as st
    return MA.specs(st)


def explicit(tier):
    out = []
    for m in ("m2", "m3"):
        for kind in ("b", "l", "m", "fm", "o", "data"):
            for t in ([0], [0, 1]):
                out.append({"rules": [{"t": [], "args": [[kind, 0]], "ret": "one", "pre": [], "fail": None, "assume": None, "above": True}],
                            "inits": [{"t": t, "args": [], "ret": m, "pre": [], "fail": None, "assume": None, "above": True}], "invs": [], "consume": [False] * 3, "split": 0, "override": None,
                            "tear": None, "steps": 10, "n": 40, "seed": len(out), "how": "run", "shrink": True})
    return out


def run(case, R):
    from hypothesis import Phase, seed, settings
    from hypothesis.errors import Flaky, InvalidDefinition, Unsatisfiable
    from hypothesis.stateful import run_state_machine_as_test
    from vlib.sut import conf, quiet

    log = MA.Log()
    M = MA.build(case, log)
    sett = conf(max_examples=case["n"], stateful_step_count=case["steps"], phases=[Phase.generate] + [Phase.shrink] * case["shrink"], report_multiple_bugs=False)
    M = seed(case["seed"])(M)
    exc = None
    try:
        if case["how"] == "run":
            quiet(lambda: run_state_machine_as_test(M, settings=sett))
        else:
            M.TestCase.settings = sett
            quiet(lambda: M.TestCase("runTest").runTest())
    except (MA.Oops, ValueError, AssertionError, InvalidDefinition, Flaky, Unsatisfiable) as e:
        exc = e
    ms = log.machines
    ctx = lambda: f"{case}: {len(ms)} instances, result {exc!r}"
    R.check(not log.problems, lambda: f"{log.problems[0]}; {ctx()}")
    for m in ms:
        ev = [e[0] for e in m.events]
        R.check(ev.count("teardown") == 1 and ev[-1] == "teardown", lambda: f"teardown ran {ev.count('teardown')} times: {m.events[-5:]}; {ctx()}")
    failed = [m.failed for m in ms if m.failed]
    R.evals(sum(len(m.events) for m in ms))
    if isinstance(exc, InvalidDefinition):
        if not ms:
            R.check(len(case["rules"]) == 1 and case["override"] == "plain" and case["split"] > 0, ctx)
            return
        R.check((not ms[-1].active() or ms[-1].loose), lambda: f"no progress reported, but the rules {ms[-1].active()} could run after {ms[-1].events}; {ctx()}")
        R.label("no progress")
    elif isinstance(exc, Unsatisfiable):
        R.check(not failed and (all(m.rejected or len(m.done) < case["steps"] for m in ms)), lambda: ctx())
    elif exc is not None:
        R.check(not isinstance(exc, Flaky), lambda: f"{ctx()}, failures {set(failed)}")
        R.check(ms[-1].failed and ms[-1].failed.startswith(type(exc).__name__), lambda: f"the last instance failed with {ms[-1].failed}; {ctx()}")
        R.label("failed")
    else:
        R.check(not failed, lambda: f"no failure reported, but {failed[0]}; {ctx()}")
        full = [m for m in ms if len(m.done) == case["steps"]]
        calm = all(not d["args"] and d["assume"] is None for d in case["rules"] + case["inits"])
        R.check(full or not calm, lambda: f"no instance executed {case['steps']} steps: {sorted(len(m.done) for m in ms)[-5:]}; {ctx()}")
        R.label("passed")
    for size in (2, 3):
        total = sum(log.picks.get((size, i), 0) for i in range(size))
        if total >= {2: 80, 3: 120}[size] and exc is None:
            R.check(all(log.picks.get((size, i), 0) for i in range(size)), lambda: f"among {total} draws from bundles of {size} values, some position was never chosen: {log.picks}; {ctx()}")
            R.label("positions")
    R.nontrivial(any(len(m.done) >= 3 for m in ms) and bool(log.picks or case["invs"] or case["inits"] or any(d["pre"] for d in case["rules"])))
