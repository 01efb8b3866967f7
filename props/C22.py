"""Every explicit example carries its own objects, recognised by identity when they reach the body, and a planned behaviour;
the expected executions, their order and the resulting exception(s) follow from the decorator stack alone."""
import unittest

from vlib import engine as E

RULE = ("generated stacks of up to 6 @example decorators (positional/keyword, above/below @given, xfail with exception types, via) on functions and "
        "methods with 1-3 strategy arguments and 0-1 caller arguments, each with a planned outcome; non-trivial = at least two examples executed")
TECHNIQUE = "property-based testing against an exact model of which explicit examples run, in which order, with which outcome"
NOTE = "Generated inputs are told apart from explicit ones by object identity."
QUICK, THOROUGH = 1600, 60000

EXC = {"E0": ValueError, "E2": KeyError, "E5": AssertionError, "E6": E.Custom, "E3": ValueError}


def cases(tier):
    from hypothesis import strategies as st

    ex = st.fixed_dictionaries({
        "pos": st.booleans(), "above": st.booleans(), "via": st.sampled_from(["", "", "via", "xfail-via"]),
        "act": st.sampled_from(["pass", "pass", "pass", "assume", "reject", "E0", "E2", "E3", "E5", "E6", "skip"]),
        "xfail": st.sampled_from([None, None, None, [], ["ValueError"], ["KeyError"], ["LookupError", "AssertionError"], ["Exception"]]),
        "bad": st.sampled_from([None] * 30 + ["missing", "extra", "toomany"])})
    good = ex.map(lambda e: dict(e, bad=None, xfail=e["xfail"] if e["act"] in ("E0", "E2", "E3") else None,
                                 act=e["act"] if e["act"] in ("pass", "assume") or e["xfail"] is not None else "pass"))
    good = good.map(lambda e: dict(e, xfail=[] if e["act"].startswith("E") else None, act="pass" if e["act"] == "skip" else e["act"]))
    return st.fixed_dictionaries({
        "n": st.integers(1, 3), "extra": st.booleans(), "method": st.booleans(),
        "ex": st.one_of(st.lists(ex, min_size=1, max_size=6), st.lists(good, min_size=1, max_size=6)),
        "multi": st.booleans(), "max": st.sampled_from([1, 2, 5]), "derand": st.booleans(), "nogen": st.sampled_from([False, False, True]),
        "noexplicit": st.sampled_from([False] * 7 + [True]), "seed": st.integers(0, 1000)})


def run(case, R):
    import hypothesis
    from hypothesis import Phase, example, given, seed, settings, Verbosity
    from hypothesis import strategies as st
    from hypothesis.errors import InvalidArgument
    from vlib.sut import ALL_HC

    n = case["n"]
    names = ["a", "b", "c"][:n]
    # textual order is top to bottom: the ones above @given come first
    order = [e for e in case["ex"] if e["above"]] + [e for e in case["ex"] if not e["above"]]
    vals = [[object() for _ in names] for _ in order]
    where = {id(v): i for i, vs in enumerate(vals) for v in vs}
    log, gen = [], []

    def body(args, p, selfy):
        if (p == "caller") != case["extra"] or (selfy is not None) != case["method"]:
            log.append(("bad passthrough", p, selfy))
        if id(args[0]) in where:
            i = where[id(args[0])]
            log.append(i if all(x is y for x, y in zip(args, vals[i])) else ("mixed", i))
            E.act(order[i]["act"], args)
        else:
            gen.append(args)

    ns = {"body": body}
    params = (["self"] if case["method"] else []) + (["p"] if case["extra"] else []) + names
    exec(f"def test({', '.join(params)}):\n    body(({', '.join(names)},), {'p' if case['extra'] else None}, {'self' if case['method'] else None})\n", ns)
    f = ns["test"]

    def deco(e, vs):
        if e["bad"] == "missing":
            d = example(**dict(zip(names[1:] or ["zz"], vs)))
        elif e["bad"] == "extra":
            d = example(**dict(zip(names, vs)), zz=1)
        elif e["bad"] == "toomany":
            d = example(*vs, *vs, *vs, *vs, *vs)
        elif e["pos"]:
            d = example(*vs)
        else:
            d = example(**dict(zip(names, vs)))
        if e["via"] == "via":
            d = d.via("somewhere")
        if e["xfail"] is not None:
            kw = {}
            if e["xfail"]:
                import builtins
                ts = tuple(getattr(builtins, t) for t in e["xfail"])
                kw = {"raises": ts if len(ts) > 1 else ts[0]}
            d = d.xfail(reason="because", **kw)
        if e["via"] == "xfail-via":
            d = d.via("elsewhere")
        return d

    pairs = list(zip(order, vals))
    below = [(e, v) for e, v in pairs if not e["above"]]
    above = [(e, v) for e, v in pairs if e["above"]]
    for e, v in reversed(below):
        f = deco(e, v)(f)
    f = given(**{k: st.integers() for k in names})(f)
    for e, v in reversed(above):
        f = deco(e, v)(f)
    phases = set(Phase) - ({Phase.generate, Phase.reuse} if case["nogen"] else set()) - ({Phase.explicit} if case["noexplicit"] else set())
    f = settings(max_examples=case["max"], phases=sorted(phases), database=None, report_multiple_bugs=case["multi"], deadline=None,
                 suppress_health_check=ALL_HC, verbosity=Verbosity.quiet, derandomize=case["derand"], backend="hypothesis")(f)
    if not case["derand"]:
        f = seed(case["seed"])(f)
    args = []
    if case["method"]:
        ns["T"] = type("T", (), {"test": f})
        f = ns["T"]().test
    if case["extra"]:
        args = ["caller"]
    out = E.run(f, E.Out(), *args)

    # the model
    want, errs, invalid = [], [], False
    for i, e in enumerate(order):
        if e["bad"]:
            invalid = True
            break
        if case["noexplicit"]:
            continue
        want.append(i)
        a = e["act"]
        err = None
        if e["xfail"] is None:
            if a == "skip":
                errs = [unittest.SkipTest]
                break
            if a.startswith("E"):
                err = EXC[a]
        else:
            import builtins
            allowed = tuple(getattr(builtins, t) for t in e["xfail"]) or (BaseException,)
            if a == "pass":
                err = AssertionError
            elif a == "skip":
                R.label("skip")
                return  # SkipTest is both an exception and a control signal: not specified
            elif a.startswith("E") and not issubclass(EXC[a], allowed):
                err = EXC[a]
        if err is not None:
            errs.append(err)
            if not case["multi"]:
                break
    got = [type(e) for e in out.leaves]
    ctx = lambda: f"{case}: executed {log}, raised {out.exc!r} {got}"
    R.check(log == want, lambda: f"explicit examples {want} should have run, in this order and once each: {ctx()}")
    if invalid:
        R.check(got == [InvalidArgument] , lambda: f"inconsistent explicit arguments not rejected: {ctx()}")
        R.check(not gen, lambda: f"generated inputs before an invalid example: {ctx()}")
        return
    if errs:
        R.check(got == errs, lambda: f"expected {errs}: {ctx()}")
        R.check(not gen, lambda: f"{len(gen)} inputs generated after a failing explicit example: {ctx()}")
        R.label("failing")
    else:
        if case["nogen"] and case["noexplicit"]:
            R.check(got == [unittest.SkipTest], lambda: f"nothing to run: {ctx()}")
        else:
            R.check(got == [], lambda: f"expected to pass: {ctx()}")
        R.check(len(gen) == (0 if case["nogen"] else case["max"]), lambda: f"{len(gen)} inputs generated, max_examples={case['max']}: {ctx()}")
        R.label("passing")
    R.nontrivial(len(log) > 1)
    R.label(*{e["act"] for e in order})
