"""Failing machines generated as for C28 (values are tokens with evaluable representations, texts, numbers, lists, None; rules with several
targets, multiple(), consumed values, equal and identical values in several bundles, initializers, invariants, inheritance).  The
program in the error's notes is executed against the same class; the instance it makes must record the same calls with equal
values in the same order as the last instance of the run, and the program must raise the same error."""
import re

from vlib import machines as MA

RULE = ("generated failing machine definitions, the printed program executed; non-trivial = the program has at least 3 calls and uses a bundle variable")
TECHNIQUE = "property-based testing: differential execution of the printed program against the recorded run"
NOTE = "Known finding: multiple() with two or more values into two or more bundles prints an assignment which cannot be executed (the existing tests require that text)."
QUICK, THOROUGH = 400, 40000


def cases(tier):
    from hypothesis import strategies as st

    b = st.sampled_from([0, 0, 0, 1, 2])
    arg = st.one_of(st.tuples(st.sampled_from(["b", "b", "c", "l", "m", "t"]), b).map(list), st.sampled_from([["int"], ["text"], ["ints"]]))
    bad = st.fixed_dictionaries({"t": st.lists(b, max_size=2), "args": st.lists(arg, max_size=3), "ret": st.just("one"), "pre": st.just([]), "above": st.just(True), "assume": st.none(),
                                 "fail": st.tuples(st.sampled_from(["count", "count", "argint", "bund", "same", "always"]), st.sampled_from([3, 4, 6, 8, 2, 1]), st.sampled_from(list(MA.ERR))).map(list)})

    def clean(t):
        s, extra = t
        s = dict(s, single=True, rules=s["rules"] + extra, shrink=s["shrink"] and s["seed"] % 3 == 0, n=min(s["n"], 20))
        for d in s["rules"] + s["inits"]:
            if s["tear"]:
                d["assume"] = None
            d["args"] = [a for a in d["args"] if a[0] != "data"]
        return s
    return st.tuples(MA.specs(st), st.lists(bad, min_size=1, max_size=2)).map(clean)


def explicit(tier):
    out = []
    for ret in ("m2", "m3", "m1", "one", "none", "int"):
        for t in ([0, 1], [0, 0], [2, 0, 1]):
            out.append({"rules": [{"t": t, "args": [], "ret": ret, "pre": [], "fail": None, "assume": None, "above": True},
                                  {"t": [], "args": [["b", t[0]], ["b", t[1]], ["b", t[-1]]], "ret": "one", "pre": [], "fail": ["count", 1, "Oops"], "assume": None, "above": True}],
                        "inits": [], "invs": [], "consume": [False] * 3, "split": 0, "override": None, "tear": None, "steps": 10, "n": 40, "seed": len(out), "how": "run", "shrink": True})
    return out


def run(case, R):
    from hypothesis import Phase, seed, settings
    from hypothesis import Verbosity
    from hypothesis.errors import InvalidDefinition, Unsatisfiable
    from hypothesis.stateful import run_state_machine_as_test
    from vlib.sut import conf, quiet

    log = MA.Log()
    M = MA.build(case, log)
    M = seed(case["seed"])(M)
    sett = conf(max_examples=case["n"], stateful_step_count=case["steps"], phases=[Phase.generate] + [Phase.shrink] * case["shrink"], report_multiple_bugs=False, verbosity=Verbosity.normal)
    exc = None
    try:
        quiet(lambda: run_state_machine_as_test(M, settings=sett))
    except (MA.Oops, ValueError, AssertionError) as e:
        exc = e
    except (InvalidDefinition, Unsatisfiable):
        pass
    if exc is None:
        R.label("does not fail")
        return
    last = log.machines[-1]
    text = "\n".join(exc.__notes__)
    R.check("Falsifying example:\n" in text, lambda: f"{case}: no program in {text!r}")
    prog = text.split("Falsifying example:\n", 1)[1]
    prog = prog[:prog.index("state.teardown()") + len("state.teardown()")]
    R.check(bool(last.failed), lambda: f"{case}: the last instance did not fail")
    ns = {"M": M, "Tok": MA.Tok}
    n0 = len(log.machines)
    multi = not case.get("single") and any(d["ret"] in ("m2", "m3") and len(d["t"]) > 1 for d in case["rules"] + case["inits"])
    key = "multiple-into-several-bundles" if multi else None
    got = None
    try:
        exec(compile(prog, "<program>", "exec"), ns)
    except Exception as e:
        got = e
    ctx = lambda: f"{case}:\n{prog}\nraises {type(got).__name__}: {got}, the test raised {type(exc).__name__}: {exc}"
    if not (isinstance(got, ValueError) and "values to unpack" in str(got)):
        key = None
    R.check(type(got) is type(exc) and str(got) == str(exc), lambda: f"the printed program does not raise the same error; {ctx()}", key=key)
    R.check(len(log.machines) == n0 + 1, ctx)
    new = log.machines[-1]

    def calls(m):
        # a failing rule or invariant ends the program; its teardown is not reached
        return [e for e in m.events if e[0] != "teardown"]
    a, b = calls(last), calls(new)
    R.check(len(a) == len(b) and all(repr(x) == repr(y) and x == y for x, y in zip(a, b)), lambda: f"the printed program makes the calls {b}, the test made {a}; {ctx()}")
    R.check(new.failed == last.failed, ctx)
    R.evals(len(a))
    R.nontrivial(len(a) >= 3 and bool(re.search(r"=b\d_\d|\[b\d_\d", prog)))
    R.label("executed")
