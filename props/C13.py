"""Counts are taken by the body itself. Small argument spaces are enumerated, so that stopping early is only accepted once
every input has been executed or 1000 / 10*max_examples cases have been run."""
from vlib import engine as E
from vlib import spec as S

RULE = ("generated tests (rules mapping arguments to pass/reject/fail), max_examples, subsets of phases, explicit examples and database "
        "contents; non-trivial = at least two executions and either a phase disabled, a rejection or a failure")
TECHNIQUE = "property-based testing of whole runs against exact counts, exhaustive enumeration of small input spaces, and phase-by-phase differentials"
NOTE = "Overrun attempts, which never reach the body, are counted from the run's statistics when judging the rejection limit."
QUICK, THOROUGH = 900, 40000

ALL = ["explicit", "reuse", "generate", "target", "shrink", "explain"]


def cases(tier):
    from hypothesis import strategies as st

    rej = ["assume", "reject", "pass", "pass"]
    return st.fixed_dictionaries({
        "specs": st.one_of(E.small_specs(st), E.small_specs(st), E.specs(st, 2)),
        "rules": st.one_of(st.just([]), E.rules(st, rej), E.rules(st, rej), E.rules(st, rej + E.FAILS[:3]),
                           st.just([[["h", 20, 3], "pass"], [["all"], "assume"]])),
        "n": st.one_of(st.integers(1, 12), st.sampled_from([30, 100, 130])), "multi": st.booleans(),
        "phases": st.one_of(st.just(ALL), st.just(["generate"]), st.sets(st.sampled_from(ALL)).map(sorted)),
        "examples": st.one_of(st.just([]), st.lists(st.lists(st.integers(-9, 30), min_size=2, max_size=2), max_size=3)),
        "prime": st.booleans(), "target": st.booleans(), "seed": st.integers(0, 10**6)})


def explicit(tier):
    base = {"multi": True, "phases": ALL, "examples": [], "prime": False, "target": False, "seed": 7}
    out = []
    for n in (1, 99, 101, 130, 200):
        out.append(dict(base, specs=[["int", 0, 10**9]], rules=[[["all"], "assume"]], n=n))
        out.append(dict(base, specs=[["int", -10**9, 10**9], ["samp", [0, 1, 2]]], rules=[[["h", 20, 3], "pass"], [["all"], "reject"]], n=n))
        out.append(dict(base, specs=[["list", ["int", 0, 10**9], 0, 3]], rules=[], n=n))
    return out


def build(case, out, phases, db, extra=None, examples=True):
    from hypothesis import Phase, example, given, seed, settings, Verbosity
    from vlib.sut import ALL_HC
    test, strats = E.make(case, out, extra)
    f = given(**strats)(test)
    f._hypothesis_internal_database_key = b"verif"
    if examples:
        for ex in case["examples"]:
            f = example(**dict(zip(strats, ex)))(f)
    return E.seeded(case["seed"], settings(max_examples=case["n"], phases=[Phase[p] for p in phases], database=db, report_multiple_bugs=case["multi"], deadline=None,
                 suppress_health_check=ALL_HC, derandomize=False, verbosity=Verbosity.quiet, backend="hypothesis"), f)


def run(case, R):
    from hypothesis import target
    from hypothesis.statistics import collector
    from hypothesis.database import InMemoryExampleDatabase

    db = InMemoryExampleDatabase()
    primed = []
    if case["prime"]:
        # an earlier version of the test failed on some inputs: their entries are in the database
        o = E.Out()
        E.run(build(dict(case, rules=[[["h", 3, 0], "E6"]]), o, ["generate", "shrink"], db, examples=False), o)
        if db.data:
            primed = [a for a, b in o.failed]
    before = {k: set(v) for k, v in db.data.items()}
    score = (lambda args, x: target(float(E.size(args)))) if case["target"] else None
    out = E.Out()
    stats = []
    with collector.with_value(stats.append):
        E.run(build(case, out, case["phases"], db, score), out)
    over = sum(t["status"] == "overrun" for s in stats for k, p in s.items() if k.endswith("-phase") for t in p["test-cases"])
    log, ph, n = out.log, set(case["phases"]), case["n"]
    ctx = lambda: f"{case} primed={len(primed)} log[{len(log)}]={log[:6]}...{log[-3:]} exc={out.exc!r}"
    R.evals(len(log))
    nex = len(case["examples"])
    k = len(case["specs"])
    ex = [tuple(e[:k]) for e in reversed(case["examples"])]
    if "explicit" in ph:
        got = [a for a, b in log[:nex]]
        R.check(got == ex[:len(got)], lambda: f"explicit examples not run first, in order: {ctx()}")
        gen = log[nex:]
        if len(got) < nex or any(b.startswith("E") for a, b in log[:nex]):
            R.check(not gen, lambda: f"generation after a failing explicit example: {ctx()}")
            return
    else:
        gen = log
    if not ph & {"generate", "reuse"}:
        R.check(not gen, lambda: f"{len(gen)} cases executed with neither generate nor reuse enabled: {ctx()}")
        R.nontrivial(len(log) > 1)
        return
    if "generate" not in ph:
        if not primed:
            R.check(not gen, lambda: f"cases executed with nothing to reuse and generate disabled: {ctx()}")
    if "reuse" not in ph:
        R.check("generate" in ph or not gen, lambda: f"reuse disabled: {ctx()}")
        o = E.Out()
        E.run(build(case, o, case["phases"], InMemoryExampleDatabase(), score), o)
        R.check([E.rep(x) for x in o.log] == [E.rep(x) for x in log], lambda: f"with reuse disabled, the run still depends on what is in the database: {ctx()}")
    elif primed and not out.exc and "generate" in ph:
        R.label("reused")
    passes = sum(b == "pass" for a, b in gen)
    rejected = sum(b in ("assume", "reject") for a, b in gen)
    fails = [i for i, (a, b) in enumerate(gen) if b.startswith("E")]
    if not fails:
        R.check(passes <= n, lambda: f"{passes} valid cases with max_examples={n}: {ctx()}")
        if passes < n and "generate" in ph:
            values = S.enum(["tuple", case["specs"]], 3000) if all(map(modest, case["specs"])) else None
            # filtered/flatmapped draws can be rejected before the body runs, so only exact spaces are judged
            exact = all(map(modest, case["specs"])) or any(s[0] in ("int", "anyint") and not modest(s) for s in case["specs"]) and all(map(simple, case["specs"]))
            ran = len(gen) + over
            if exact:
                limit = max(1000, 10 * n)
                if values is None:
                    done = ran >= limit
                else:
                    done = len({S.canon(a) for a, b in gen}) >= len(values) or ran >= limit
                R.check(done, lambda: f"stopped after {passes} valid and {rejected} rejected of {values and len(values)} inputs, max_examples={n}: {ctx()}")
                R.label("exhausted" if values is not None and ran < limit else "limit")
        elif passes == n:
            R.label("exactly max_examples")
    else:
        if "shrink" not in ph:
            first = gen[fails[0]:]
            o = {E.rep(a) for a, b in first}
            later = gen[fails[0] + 1:]
            if "reuse" not in ph or not primed:
                R.check(len(later) == 1 and E.rep(later[0]) == E.rep(gen[fails[0]]), lambda: f"shrinking disabled, but {len(later)} executions follow the first failure: {ctx()}")
            R.label("no shrink")
        elif not case["multi"] and "generate" in ph and not primed:
            pass
        R.check(passes <= n + len(gen) - fails[0], "impossible")
        R.check(sum(b == "pass" for a, b in gen[:fails[0]]) < max(n, 1), lambda: f"the failure was found after the budget was used up: {ctx()}")
    R.nontrivial(len(log) > 1 and (len(ph) < 6 or rejected or fails))


def clone(d):
    from hypothesis.database import InMemoryExampleDatabase
    db = InMemoryExampleDatabase()
    for k, v in d.items():
        for x in v:
            db.save(k, x)
    return db


def simple(s):
    return s[0] in ("bool", "int", "samp") or s[0] in ("list",) and simple(s[1]) or s[0] == "tuple" and all(map(simple, s[1]))


def modest(s):
    return simple(s) and (s[0] != "int" or s[2] - s[1] < 3000) and (s[0] != "list" or modest(s[1])) and (s[0] != "tuple" or all(map(modest, s[1])))
