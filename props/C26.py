"""`time.perf_counter` is replaced by a clock which only the harness advances, in multiples of 1/64 s (exact in binary, as are the
deadlines), with the garbage collector off.  A test over `integers(0, 999)` spends generated amounts of time per value: in the body before and
after draws, while generating its arguments (map, composite, flatmap), inside data.draw (nested strategies too), and may fail on its
own, or be faster or slower on later executions of the same value.  Every execution is recorded with its own time (draws excluded).
Below the deadline nothing may be reported; at 1.25 deadlines and more (the tolerance of the engine while searching; none for explicit
examples and for the final replay) DeadlineExceeded must be, with exactly the time the last execution took, for the smallest offending
value when own time grows with the value; a failure of the body takes precedence over its slowness; when the last
execution is below the deadline a Flaky error must carry the DeadlineExceeded.  deadline=None and fuzz_one_input report nothing."""
from vlib import engine as E

RULE = ("generated (time table per value, kinds of draws, deadline and its type, drift, explicit examples, own failures); non-trivial = some execution reached the deadline, or its total "
        "time including draws did")
TECHNIQUE = "property-based testing under an owned clock against the recorded own time of every execution"
NOTE = "Between one and 1.25 deadlines the search may or may not report; rule-based state machines are not covered (their default is deadline=None)."
QUICK, THOROUGH = 1500, 80000


def cases(tier):
    from hypothesis import strategies as st

    ent = st.fixed_dictionaries({"a": st.integers(0, 6), "d": st.integers(0, 12), "b": st.integers(0, 6), "m": st.integers(0, 8), "fail": st.sampled_from([False] * 7 + [True])})
    return st.fixed_dictionaries({
        "tab": st.lists(ent, min_size=1, max_size=4), "slope": st.sampled_from([None, None, [1, 0], [1, 3], [2, 1], [0, 0]]), "thr": st.integers(0, 999),
        "k": st.integers(1, 5), "how": st.sampled_from(["int", "float", "td"]), "none": st.sampled_from([False] * 6 + [True]),
        "drift": st.sampled_from(["no", "no", "no", "once", "later", "mild", "slower"]), "dn": st.integers(1, 60), "examples": st.one_of(st.just([]), st.lists(st.integers(0, 999), max_size=2)),
        "arg": st.sampled_from(["map", "composite", "flatmap", "plain"]), "draw": st.sampled_from(["map", "composite", "nested", "filter", "twice"]),
        "n": st.sampled_from([10, 50, 100]), "shrink": st.sampled_from([True, True, False]), "multi": st.booleans(), "explain": st.booleans(), "seed": st.integers(0, 10**6), "fuzz": st.binary(max_size=12)})


def run(case, R):
    import datetime
    import gc
    import time
    import warnings

    from hypothesis import Phase, example, given, settings
    from hypothesis import strategies as st
    from hypothesis.errors import DeadlineExceeded, Flaky
    from vlib.sut import Fail, conf, quiet

    warnings.simplefilter("ignore")
    U = 1 / 64
    k = case["k"]
    dl = 4 * k                          # in units
    ms = dl * 1000 / 64
    deadline = None if case["none"] else {"int": int(ms) if ms == int(ms) else ms, "float": float(ms), "td": datetime.timedelta(milliseconds=ms)}[case["how"]]
    clock = [1024.0]
    log = []
    seen = {}

    def spend(n):
        clock[0] += n * U

    def ent(x):
        return case["tab"][x % len(case["tab"])]

    def slow(x, n):
        spend(n)
        return x

    @st.composite
    def argc(draw):
        x = draw(st.integers(0, 999))
        spend(ent(x)["m"])
        return x

    @st.composite
    def drawc(draw, n):
        spend(n // 2)
        draw(st.none().map(lambda _: slow(_, n - n // 2)))

    ints = st.integers(0, 999)
    arg = {"plain": lambda: ints, "map": lambda: ints.map(lambda x: slow(x, ent(x)["m"])), "composite": argc, "flatmap": lambda: ints.flatmap(lambda x: st.builds(slow, st.just(x), st.just(ent(x)["m"])))}[case["arg"]]()
    explicit = set(case["examples"])
    state = {"phase": "engine"}

    def own_of(x, e):
        if case["slope"]:
            s, c = case["slope"]
            a, b = (c, s * (x - case["thr"] + 1) if x >= case["thr"] else 0)
            b = min(b, 200)
        else:
            a, b = e["a"], e["b"]
        n = seen[x] = seen.get(x, 0) + 1
        dr = case["drift"]
        if dr == "once" and n > 1:
            return 0, 0
        if dr == "later" and len(log) > case["dn"]:
            return 0, 0
        if dr == "mild" and n > 1 and a + b >= 5 * k:
            return dl, 0
        if dr == "slower" and n > 1:
            return a + 1, b + dl
        return a, b

    def test(x, data):
        e = ent(x)
        a, b = own_of(x, e)
        total = a + b
        rec = {"x": x, "own": total, "all": total + e["d"] + e["m"], "fail": False, "done": False}
        log.append(rec)
        spend(a)
        d = e["d"]
        if data is None:
            pass
        elif case["draw"] == "map":
            data.draw(st.booleans().map(lambda v: slow(v, d)))
        elif case["draw"] == "composite":
            data.draw(drawc(d))
        elif case["draw"] == "nested":
            data.draw(st.tuples(st.builds(slow, st.none(), st.just(d)), st.lists(drawc(1), min_size=1, max_size=1)))
        elif case["draw"] == "filter":
            data.draw(st.booleans().filter(lambda v: (spend(d), True)[1]))
        else:
            data.draw(st.none().map(lambda v: slow(v, d)))
            data.draw(st.none().map(lambda v: slow(v, 2)))
        spend(b)
        rec["done"] = True
        if e["fail"]:
            rec["fail"] = True
            raise Fail
    phases = [Phase.generate, Phase.explicit] + [Phase.shrink] * case["shrink"] + [Phase.explain] * (case["shrink"] and case["explain"])
    if explicit:
        f = given(x=arg)(lambda x: test(x, None))
        for x in case["examples"]:
            f = example(x=x)(f)
    else:
        f = given(data=st.data(), x=arg)(test)
    plain = conf(max_examples=case["n"], deadline=deadline, phases=phases, report_multiple_bugs=case["multi"], derandomize=False)
    f = E.seeded(case["seed"], plain, f)
    real = time.perf_counter
    gc.disable()
    time.perf_counter = lambda: clock[0]
    exc = None
    try:
        try:
            quiet(f)
        except BaseExceptionGroup as e:
            exc = e
        except (DeadlineExceeded, Fail, Flaky) as e:
            exc = e
        n_run = len(log)
        # fuzz_one_input never has a deadline
        fz = None
        try:
            f.hypothesis.fuzz_one_input(case["fuzz"])
        except Fail:
            pass
        except DeadlineExceeded as e:
            fz = e
    finally:
        time.perf_counter = real
        gc.enable()
    run_log = log[:n_run]

    def flat(e):
        if isinstance(e, BaseExceptionGroup):
            for s in e.exceptions:
                yield from flat(s)
        if e is not None:
            yield e
    errs = list(flat(exc))
    dead = [e for e in errs if isinstance(e, DeadlineExceeded)]
    ctx = lambda: f"{case}: deadline {dl} units; {len(run_log)} executions, last {[(r['x'], r['own'], r['fail']) for r in run_log[-6:]]}, slowest {sorted([r['own'] for r in run_log])[-3:]}; result {exc!r}"
    R.evals(len(run_log))
    R.check(fz is None, lambda: f"fuzz_one_input enforced the deadline: {ctx()}")
    if case["none"]:
        R.check(not dead and not any(isinstance(e, Flaky) for e in errs) and bool(errs) == any(r["fail"] for r in run_log), lambda: f"deadline=None: {ctx()}")
        R.label("none")
        return
    over = [r for r in run_log if r["own"] >= dl and r["done"] and not r["fail"]]
    far = [r for r in run_log if r["own"] >= 5 * k and r["done"] and not r["fail"]]
    R.nontrivial(any(r["all"] >= dl for r in run_log))
    if explicit:
        ex = run_log[:len(case["examples"])]
        bad = [r for r in ex if r["fail"] or r["own"] >= dl]
        if bad:
            R.check(bool(errs) and len(run_log) <= len(case["examples"]), lambda: f"an explicit example fails: {ctx()}")
            want = {"Fail" if r["fail"] else "DeadlineExceeded" for r in (bad if case["multi"] else bad[:1])}
            R.check({type(e).__name__ for e in errs if not isinstance(e, BaseExceptionGroup)} == want, lambda: f"explicit examples must fail with {want}: {ctx()}")
            R.label("explicit")
            return
    drifts = len({(r["x"], r["own"]) for r in run_log}) > len({r["x"] for r in run_log})
    if dead:
        R.check(bool(over), lambda: f"DeadlineExceeded, but no execution took the deadline itself: {ctx()}")
        R.check(all(e.deadline == datetime.timedelta(milliseconds=ms) for e in dead), lambda: f"wrong deadline in {[e.deadline for e in dead]}: {ctx()}")
        R.check(all(any(abs(e.runtime.total_seconds() - r["own"] * U) < 1e-5 for r in over) for e in dead), lambda: f"no execution took {[e.runtime for e in dead]}: {ctx()}")
    if far:
        R.check(bool(errs), lambda: f"an execution took {far[0]['own']} units, nothing reported: {ctx()}")
        if not any(r["fail"] for r in run_log) or case["multi"] and not drifts:
            R.check(bool(dead), lambda: f"an execution took {far[0]['own']} units, but DeadlineExceeded is not reported: {ctx()}")
    if not any(r["fail"] for r in run_log):
        R.check(bool(errs) == bool(dead) and (bool(dead) or not far), lambda: f"{ctx()}")
        if not over:
            R.check(exc is None, lambda: f"no execution took the deadline: {ctx()}")
        elif exc is not None:
            last = run_log[-1]
            if any(isinstance(e, Flaky) for e in errs):
                R.check(drifts, lambda: f"timings do not vary between executions of the same value, but: {ctx()}")
                R.label("flaky")
            else:
                R.check(last["own"] >= dl, lambda: f"the last execution is below the deadline, but the failure is not reported as flaky: {ctx()}")
                R.check(abs(dead[0].runtime.total_seconds() - last["own"] * U) < 1e-5, lambda: f"the reported time is not that of the last execution: {ctx()}")
                R.label("exceeded")
    elif not drifts:
        R.check(not any(isinstance(e, Flaky) for e in errs), lambda: f"timings do not vary between executions of the same value, but: {ctx()}")
        R.label("own failure")
        R.check(not over or any(isinstance(e, (Fail, DeadlineExceeded)) for e in errs), lambda: ctx())
    R.check(not any(isinstance(e, Fail) for e in errs) or any(r["fail"] for r in run_log), lambda: ctx())
    if case["slope"] and case["slope"][0] and not drifts and case["shrink"] and not any(e["fail"] for e in case["tab"]) and dead and case["slope"][1] < dl:
        s, c = case["slope"]
        # smallest x with own >= 5k
        x = case["thr"] if c >= 5 * k else case["thr"] - 1 + -(-(5 * k - c) // s)
        x = 0 if c >= 5 * k else max(x, case["thr"])
        R.check(run_log[-1]["x"] == x, lambda: f"the minimal value which exceeds the deadline (with tolerance) is {x}: {ctx()}")
        R.label("minimal")
