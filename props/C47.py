"""Every hook and every execution writes to one event log, whose shape must be a sequence of complete brackets with exactly one
test case in each; hooks may also fail, and the token returned by setup_example must reach teardown_example."""
import unittest

from vlib import engine as E

RULE = ("generated tests on classes with setup_example/teardown_example, execute_example, both, TestCase methods, or a replaced inner_test, with "
        "cleanups, runner() and explicit examples; non-trivial = at least two executions of the body, one of them not passing")
TECHNIQUE = "property-based testing of the interleaving of hook, body and cleanup events against a bracket grammar"
NOTE = "Test cases rejected or overrun while drawing arguments leave empty brackets, which is allowed."
QUICK, THOROUGH = 1000, 40000


def cases(tier):
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "specs": E.small_specs(st), "rules": E.rules(st, ["assume", "pass", "E0", "E2", "E5"], 3),
        "kind": st.sampled_from(["setup", "setup", "teardown", "both", "execute", "inner", "plain", "inner+setup", "execute+setup"]),
        "testcase": st.booleans(), "cleanups": st.integers(0, 3), "badclean": st.booleans(), "examples": st.integers(0, 2), "n": st.sampled_from([1, 5, 30]),
        "runner": st.sampled_from([None, "arg", "default"]), "runs": st.integers(1, 2), "draw": st.booleans(), "bad_setup": st.sampled_from([0] * 6 + [1, 3]),
        "explain": st.booleans(), "seed": st.integers(0, 10**6)})


class SetupFailed(Exception):
    tag = "ESETUP"


class CleanFailed(Exception):
    tag = "ECLEAN"


def run(case, R):
    from hypothesis import Phase, example, given, seed, settings
    from hypothesis import strategies as st
    from hypothesis.control import cleanup
    from hypothesis.database import InMemoryExampleDatabase
    from vlib.sut import ALL_HC

    kind = case["kind"]
    ev = []
    out = E.Out()
    bad = []
    me = {}
    ids = iter(range(10**9))
    setups = [0]

    def extra(args, x):
        n = len(out.log)
        ev.append(("body", n))
        for i in range(case["cleanups"]):
            def clean(i=i):
                ev.append(("clean", n, i))
                if case["badclean"] and x == "E0" and i == 0:
                    raise CleanFailed
            cleanup(clean)

    plain, strats = E.make(case, out, extra)
    names = list(strats)

    def check_runner(r, selfy):
        want = me["self"] if kind != "none" else "dflt"
        if r is not want:
            bad.append(f"runner() gave {r!r}, expected {want!r}")
        if selfy is not me["self"]:
            bad.append(f"test ran on another instance: {selfy!r}")

    if case["draw"]:
        def test(self, data, r=None):
            check_runner(data.draw(st.runner(default="dflt")) if case["runner"] == "default" else me["self"], self)
            plain(**{k: data.draw(s) for k, s in strats.items()})
        test.__defaults__ = None
        ns = {"t": test}
        exec("def test(self, data): return t(self, data, None)", ns)
        f = given(data=st.data())(ns["test"])
    else:
        ns = {"plain": plain, "chk": check_runner}
        exec(f"def test(self, rr, {', '.join(names)}):\n    chk(rr, self)\n    plain({', '.join(names)})\n", ns)
        f = given(rr=st.runner() if case["runner"] == "arg" else st.runner(default="dflt"), **strats)(ns["test"])
    ns2 = {}
    db = InMemoryExampleDatabase()
    ph = set(Phase) - (set() if case["explain"] else {Phase.explain})
    f = E.seeded(case["seed"], settings(max_examples=case["n"], database=db, phases=sorted(ph), deadline=None, suppress_health_check=ALL_HC,
                                   derandomize=False, backend="hypothesis"), f)

    body = {"test": f}
    if "setup" in kind or kind == "both":
        def setup_example(self):
            setups[0] += 1
            if case["bad_setup"] and setups[0] >= case["bad_setup"]:
                ev.append(("setup", None))
                raise SetupFailed("setup")
            i = next(ids)
            ev.append(("setup", i))
            return i
        body["setup_example"] = setup_example
    if kind in ("teardown", "both"):
        def teardown_example(self, token):
            ev.append(("teardown", token))
        body["teardown_example"] = teardown_example
    if kind.startswith("execute"):
        def execute_example(self, g):
            i = next(ids)
            ev.append(("open", i))
            try:
                return g()
            finally:
                ev.append(("close", i))
        body["execute_example"] = execute_example
    C = type("T", (unittest.TestCase,) if case["testcase"] else (), body)
    me["self"] = C("test") if case["testcase"] else C()
    if kind.startswith("inner"):
        orig = f.hypothesis.inner_test

        def inner(*a, **k):
            i = next(ids)
            ev.append(("open", i))
            try:
                return orig(*a, **k)
            finally:
                ev.append(("close", i))
        f.hypothesis.inner_test = inner
    if not case["draw"]:
        for i in range(case["examples"]):
            example(rr=me["self"], **{k: f"ex{i}" for k in names})(f)
    for _ in range(case["runs"]):
        ev.append(("run",))
        E.run(me["self"].test, out)
    ctx = lambda: f"{case}: {ev[:40]} ... {ev[-12:]} exc {out.exc!r}"
    R.check(not bad, lambda: f"{bad[0]} {ctx()}")
    R.evals(len(ev))
    bodies = sum(e[0] == "body" for e in ev)
    R.check(bodies == len(out.log), ctx)

    # every body is directly inside a bracket of the right kind, its cleanups follow it, and nothing else intervenes
    opens = {"setup": ["setup"], "teardown": [], "both": ["setup"], "execute": ["open"], "inner": ["open"], "plain": [],
             "inner+setup": ["setup", "open"], "execute+setup": ["open"]}[kind]
    closes = {"setup": [], "teardown": ["teardown"], "both": ["teardown"], "execute": ["close"], "inner": ["close"], "plain": [],
              "inner+setup": ["close"], "execute+setup": ["close"]}[kind]
    inner = kind.startswith("inner")
    i = 0
    while i < len(ev):
        if ev[i][0] == "run":
            i += 1
            continue
        tokens = []
        for o in opens:
            if inner and o == "open" and i < len(ev) and ev[i][0] in ("setup", "run"):
                break        # rejected while drawing: inner_test never called
            if o == "open" and inner and i >= len(ev):
                break
            R.check(i < len(ev) and ev[i][0] == o, lambda: f"event {i} is {ev[i:i + 1]}, expected {o}: {ctx()}")
            tokens.append(ev[i][1])
            i += 1
        else:
            n = None
            cleaned = []
            had_body = i < len(ev) and ev[i][0] == "body"
            if had_body:
                n = ev[i][1]
                i += 1
            first_close = closes if inner else []
            for c in first_close:
                R.check(i < len(ev) and ev[i] == (c, tokens[-1]), lambda: f"event {i} is {ev[i:i + 1]}, expected {c}: {ctx()}")
                i += 1
            late = had_body and not inner and i < len(ev) and closes and ev[i][0] == closes[0]
            if late:
                i += 1      # explicit examples: the hooks are inside the cleanup scope
                R.check(ev[i - 1][1] == (tokens[0] if tokens else None), lambda: f"event {i - 1} is {ev[i - 1]}, expected token of {tokens}: {ctx()}")
            if had_body:
                while i < len(ev) and ev[i][0] == "clean":
                    R.check(ev[i][1] == n, lambda: f"cleanup of case {ev[i][1]} during case {n}: {ctx()}")
                    cleaned.append(ev[i][2])
                    i += 1
                R.check(sorted(cleaned) == list(range(case["cleanups"])), lambda: f"case {n}: cleanups {cleaned} ran, {case['cleanups']} registered: {ctx()}")
            if not inner and not late:
                for c in closes:
                    want = tokens[0] if tokens else None
                    R.check(i < len(ev) and ev[i] == (c, want), lambda: f"event {i} is {ev[i:i + 1]}, expected {(c, want)}: {ctx()}")
                    i += 1
            if not opens and not closes and not had_body:
                R.fail(f"unexpected event {ev[i]}: {ctx()}")
    fails = [b for a, b in out.log if b.startswith("E")]
    if fails or case["bad_setup"] and "setup" in body and "setup_example" in body and any(e == ("setup", None) for e in ev):
        if kind == "execute+setup":
            pass
        R.check(out.exc is not None, lambda: f"a case failed but the run passed: {ctx()}")
    R.nontrivial(bodies > 1 and any(b != "pass" for a, b in out.log))
    R.label(kind)
