"""Body executions and delivered observations are recorded in one event list: every execution must be followed by exactly one
observation carrying its own arguments, status, phase, events and targets. Statistics are compared with the same list."""
import json

from vlib import engine as E

RULE = ("generated tests (pass/reject/fail, events, targets, interactive draws, explicit examples, several phases and database runs) with an "
        "observability callback; non-trivial = at least two different statuses among the executions")
TECHNIQUE = "property-based testing: log of executions vs. observations and statistics; differential run without observability; published JSON schema"
NOTE = "Observations without an execution of the body (rejected or overrun while drawing) must be gave_up."
QUICK, THOROUGH = 360, 30000


def cases(tier):
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "specs": st.one_of(E.small_specs(st), E.specs(st, 2)), "rules": E.rules(st, ["assume", "pass", "pass", "E0", "E2", "E5", "EA"], 3),
        "events": E.rules(st, ["ev-a", "ev-b", "ev-c"], 3), "targets": st.sampled_from([None, None, "size", "hash"]), "examples": st.integers(0, 2),
        "n": st.sampled_from([1, 5, 30]), "runs": st.sampled_from([1, 1, 2]), "draw": st.sampled_from([False, False, True]),
        "explain": st.booleans(), "multi": st.booleans(), "seed": st.integers(0, 10**6)})


def schema_errors(o):
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    base = {"type", "property", "run_start"}
    if o.get("type") == "test_case":
        want = base | {"status", "status_reason", "representation", "arguments", "how_generated", "features", "coverage", "timing", "metadata"}
        if set(o) != want:
            return f"keys {sorted(set(o) ^ want)}"
        checks = {
            "status": o["status"] in ("passed", "failed", "gave_up"), "status_reason": isinstance(o["status_reason"], str),
            "representation": isinstance(o["representation"], str), "arguments": isinstance(o["arguments"], dict),
            "how_generated": isinstance(o["how_generated"], (str, type(None))), "features": isinstance(o["features"], dict),
            "coverage": o["coverage"] is None or isinstance(o["coverage"], dict) and all(
                isinstance(v, list) and len(set(v)) == len(v) and all(isinstance(i, int) and i >= 1 for i in v) for v in o["coverage"].values()),
            "timing": isinstance(o["timing"], dict) and all(num(v) and v >= 0 for v in o["timing"].values()),
            "metadata": isinstance(o["metadata"], dict), "property": isinstance(o["property"], str), "run_start": num(o["run_start"])}
    else:
        want = base | {"title", "content"}
        if set(o) != want:
            return f"keys {sorted(set(o) ^ want)}"
        checks = {"type": o["type"] in ("info", "alert", "error"), "content": isinstance(o["content"], (str, dict)),
                  "property": isinstance(o["property"], str), "run_start": num(o["run_start"])}
    bad = [k for k, v in checks.items() if not v]
    return f"bad {bad}" if bad else None


def shown(text, names):
    env = {"test": lambda **kw: kw, "inf": float("inf"), "nan": float("nan")}
    return eval(text, env)


def run(case, R):
    from hypothesis import Phase, event, example, given, seed, settings, target
    from hypothesis import strategies as st
    from hypothesis.database import InMemoryExampleDatabase
    from hypothesis.internal import observability
    from hypothesis.statistics import collector
    from vlib.sut import ALL_HC

    logs = []
    dbs = [InMemoryExampleDatabase(), InMemoryExampleDatabase()]
    for observed in (True, False):
        db = dbs[observed]
        for i in range(case["runs"]):
            ev, out, stats = [], E.Out(), []

            def extra(args, x):
                want = {}
                a = E.action(case["events"], args)
                if a != "pass":
                    event(a, payload=len(out.log) % 3)
                    want[a] = len(out.log) % 3
                if case["targets"]:
                    v = float(E.size(args) if case["targets"] == "size" else E.H(args, 50))
                    target(v, label="t")
                    want["target:t"] = v
                ev.append(("body", args, x, want))

            test, strats = E.make(case, out, extra)
            names = list(strats)
            if case["draw"]:
                inner = test

                def test(data):
                    inner(**{k: data.draw(s) for k, s in strats.items()})
                f = given(st.data())(test)
            else:
                f = given(**strats)(test)
                for j in range(case["examples"]):
                    f = example(**{k: f"ex{j}" for k in names})(f)
            ph = set(Phase) - (set() if case["explain"] else {Phase.explain})
            f = E.seeded(case["seed"], settings(max_examples=case["n"], phases=sorted(ph), database=db if case["runs"] > 1 else None, deadline=None,
                                           suppress_health_check=ALL_HC, report_multiple_bugs=case["multi"], derandomize=False, backend="hypothesis"), f)
            f._hypothesis_internal_database_key = b"verif"
            cb = lambda o: ev.append(("obs", json.loads(json.dumps(o))))
            if observed:
                observability.TESTCASE_CALLBACKS.append(cb)
            try:
                with collector.with_value(stats.append):
                    E.run(f, out)
            finally:
                if observed:
                    observability.TESTCASE_CALLBACKS.remove(cb)
            logs.append((observed, i, [E.rep(x) for x in out.log], repr(out.exc)))
            if observed:
                judge(case, R, ev, out, stats, names)
    R.check([l[1:] for l in logs if l[0]] == [l[1:] for l in logs if not l[0]],
            lambda: f"observability changes the run: {case} {[(l[2][:30], l[3]) for l in logs]}")


def judge(case, R, ev, out, stats, names):
    ctx = lambda: f"{case}: {[e if e[0] == 'body' else ('obs', {k: v for k, v in e[1].items() if k not in ('metadata', 'timing', 'coverage', 'run_start', 'property')}) for e in ev[-6:]]} exc {out.exc!r}"
    status = lambda x: "failed" if x.startswith("E") else "passed" if x == "pass" else "gave_up"
    body = None
    count = {}
    cases_seen = [e[1] for e in ev if e[0] == "obs" and e[1]["type"] == "test_case"]
    for e in ev:
        if e[0] == "body":
            R.check(body is None, lambda: f"an execution was not observed: {body} {ctx()}")
            body = e
            continue
        o = e[1]
        bad = schema_errors(o)
        R.check(bad is None, lambda: f"observation violates the schema: {bad} {o} {ctx()}")
        if o["type"] != "test_case":
            continue
        R.check(o["property"].endswith("test"), lambda: f"property {o['property']!r}")
        how = o["how_generated"]
        ph = how.removeprefix("during ").removesuffix(" phase") if how.startswith("during ") else how
        if ph in ("reuse", "generate", "shrink", "explain", "target"):
            c = count.setdefault(ph, {})
            c[o["status"]] = c.get(o["status"], 0) + 1
        if body is None:
            R.check(o["status"] == "gave_up", lambda: f"an observation with status {o['status']} without any execution: {o['representation']!r} {ctx()}")
            continue
        _, args, x, want = body
        body = None
        R.check(o["status"] == status(x), lambda: f"execution of {args!r} was {x}, observed as {o['status']} ({how}): {ctx()}",
                key="explicit-failure-gave-up" if how == "explicit example" else None)
        isex = isinstance(args[0], str) and args[0].startswith("ex")
        R.check((how == "explicit example") == (isex and not case["draw"]), lambda: f"{args!r} observed as {how!r}: {ctx()}")
        if not case["draw"]:
            got = shown(o["representation"], names)
            R.check(E.rep(tuple(got[n] for n in names)) == E.rep(args), lambda: f"execution of {args!r} represented as {o['representation']!r}: {ctx()}")
        if not isex or case["draw"]:
            feats = {k: v for k, v in o["features"].items() if k.startswith(("ev-", "target:"))}
            R.check(feats == want, lambda: f"execution of {args!r} recorded {want}, observed features {o['features']}: {ctx()}")
            vals = [v for k, v in o["arguments"].items()]
            if not case["draw"]:
                R.check(set(o["arguments"]) == set(names), lambda: f"arguments {o['arguments']} for {args!r}: {ctx()}")
                for n, v in zip(names, args):
                    if isinstance(v, (bool, int)) and abs(v) < 2**53:
                        R.check(o["arguments"][n] == v, lambda: f"argument {n} is {v!r}, observed {o['arguments'][n]!r}: {ctx()}")
        R.evals()
    R.check(body is None, lambda: f"the last execution was not observed: {ctx()}")
    final = [o for o in cases_seen if o["how_generated"] == "minimal failing example"]
    gen_fail = any(o["status"] == "failed" and o["how_generated"].startswith("during") for o in cases_seen)
    R.check(bool(final) == gen_fail, lambda: f"{len(final)} minimal failing examples observed: {ctx()}")
    for s in stats:
        name = {"valid": "passed", "interesting": "failed", "invalid": "gave_up", "overrun": "gave_up"}
        got = {}
        for k, v in s.items():
            if k.endswith("-phase"):
                for t in v["test-cases"]:
                    c = got.setdefault(k.removesuffix("-phase"), {})
                    c[name[t["status"]]] = c.get(name[t["status"]], 0) + 1
        R.check({p: sum(c.values()) for p, c in got.items()} == {p: sum(c.values()) for p, c in fold(count).items()} and got == fold(count),
                lambda: f"statistics count {got}, observed {count}: {ctx()}")
    R.nontrivial(len({status(b) for a, b in out.log}) > 1)
    R.label(*{status(b) for a, b in out.log})


def fold(count):
    """Statistics know the phases reuse, generate and shrink: targeting is part of generation, explaining of shrinking."""
    out = {}
    for p, c in count.items():
        q = {"target": "generate", "explain": "shrink"}.get(p, p)
        d = out.setdefault(q, {})
        for k, v in c.items():
            d[k] = d.get(k, 0) + v
    return out
