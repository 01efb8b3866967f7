"""Generated signatures x ways of applying @given (positional, keyword, Ellipsis inference, methods) x call arguments.  The
oracle is Python's own argument binding: a plain function with the parameters that @given leaves open, called the same way,
says which caller arguments go where (or that the call is a TypeError); the filled parameters must receive the object of
exactly their strategy; the visible signature, name and docstring are compared parameter by parameter.  A second part does
the same for functions wrapped by @composite."""
from vlib import engine as E

RULE = ("generated signatures (positional-only, ordinary, *args, keyword-only, **kwargs; annotations; awkward names; function/method/static/class "
        "methods), ways of applying @given (legal and illegal), and call argument tuples; non-trivial = a legal application with at least one caller argument")
TECHNIQUE = "property-based differential testing of @given against Python's own argument binding over generated signatures"
NOTE = "Filled parameters are recognised by the identity of the strategy's object."
QUICK, THOROUGH = 10000, 150000

NAMES = ["f", "f_1", "arguments", "kwargs", "args", "test", "data", "self", "draw", "wrapped_test", "not_set", "state", "a", "b", "x1", "_p", "given",
         "settings", "runner", "accept", "random", "é"]
ANN = ["", "", "int", "bool", "str", "'int'", "'Later'", "list[int]", "object()", "5"]
INFER = {"int": int, "bool": bool, "str": str, "'int'": int, "'Later'": str}


def cases(tier):
    from hypothesis import strategies as st

    def shape(d):
        names = d["names"]
        ps = []
        for kind in ("po", "pk", "va", "ko", "vk"):
            for _ in range(d[kind]):
                if names:
                    ps.append([kind, names.pop(0), d["anns"].pop(0), None])
        return ps

    params = st.fixed_dictionaries({
        "names": st.lists(st.sampled_from(NAMES), min_size=9, max_size=9, unique=True),
        "anns": st.lists(st.sampled_from(ANN), min_size=9, max_size=9),
        "po": st.sampled_from([0, 0, 0, 0, 1, 2]), "pk": st.sampled_from([2, 3, 1, 4, 0]), "va": st.sampled_from([0, 0, 0, 1]),
        "ko": st.sampled_from([0, 0, 1, 2]), "vk": st.sampled_from([0, 0, 0, 1])}).map(shape)
    call = st.fixed_dictionaries({"how": st.lists(st.sampled_from(["pos", "kw", "kw", "pos", "pos", "miss"]), min_size=9, max_size=9),
                                  "order": st.randoms(use_true_random=False).map(lambda r: r.randrange(10**6)),
                                  "more": st.sampled_from([0, 0, 0, 0, 1, 2]), "unk": st.sampled_from([[], [], [], [], ["zz"], ["f_2", "zz"]]),
                                  "dup": st.sampled_from([False] * 9 + [True])})
    return st.fixed_dictionaries({
        "what": st.sampled_from(["given"] * 5 + ["composite"]),
        "params": params, "kind": st.sampled_from(["func", "func", "func", "method", "static", "class"]),
        "ret": st.sampled_from(["", "", "None", "int", "'Later'"]), "doc": st.sampled_from([None, "doc", "two\nlines"]),
        "mode": st.sampled_from(["kw", "kw", "kw", "pos", "pos", "pos", "all", "mixed", "none", "toomany", "extra", "dots", "nothing", "default", "nonstrategy"]),
        "n": st.integers(1, 4), "pick": st.lists(st.booleans(), min_size=9, max_size=9),
        "infer": st.lists(st.sampled_from([False, False, True]), min_size=9, max_size=9),
        "default": st.lists(st.booleans(), min_size=9, max_size=9), "gorder": st.integers(0, 10**6),
        "calls": st.lists(call, min_size=1, max_size=2)})


def render(ps, defaults=None, first=None):
    """Source of a parameter list."""
    out, slash, star = ([first] if first else []), False, False
    haspo = any(p[0] == "po" for p in ps)
    n = 0
    for i, (kind, name, ann, dflt) in enumerate(ps):
        if kind != "po" and haspo and not slash:
            out.append("/")
            slash = True
        if kind == "ko" and not star and not any(p[0] == "va" for p in ps):
            out.append("*")
            star = True
        s = {"va": "*", "vk": "**"}.get(kind, "") + name + (f": {ann}" if ann else "")
        if dflt is not None and kind not in ("va", "vk"):
            s += f" = {dflt}"
        out.append(s)
    if haspo and not slash:
        out.append("/")
    return ", ".join(out)


def collect(ps):
    return "{" + ", ".join(f"{p[1]!r}: {p[1]}" for p in ps) + "}"


def make_call(call, open_ps, filled, tok):
    import random
    args, kw = [], {}
    stopped = False
    for p, how in zip([q for q in open_ps if q[0] in ("po", "pk", "ko")], call["how"]):
        if how == "miss":
            stopped = True
            continue
        if p[0] == "po" or (p[0] == "pk" and how == "pos" and not stopped):
            if stopped:
                continue
            args.append(tok("caller " + p[1]))
        else:
            if p[0] == "pk":
                stopped = True
            kw[p[1]] = tok("caller " + p[1])
    for i in range(call["more"]):
        if not stopped:
            args.append(tok(f"more {i}"))
    for k in call["unk"]:
        kw[k] = tok("unknown " + k)
    if call["dup"] and filled:
        kw[sorted(filled)[0]] = tok("caller supplies a filled one")
    ks = list(kw)
    random.Random(call["order"]).shuffle(ks)
    return args, {k: kw[k] for k in ks}


class Token:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f"<{self.s}>"


def run(case, R):
    (run_given if case["what"] == "given" else run_composite)(case, R)


def same(a, b):
    """Equal bindings, by identity (looking into *args and **kwargs)."""
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if type(a) is dict and type(b) is dict:
        return set(a) == set(b) and all(a[k] is b[k] for k in a)
    return a is b


def run_given(case, R):
    import inspect
    import random
    import typing
    from hypothesis import given, settings, strategies as st, Phase
    from hypothesis.errors import InvalidArgument, Unsatisfiable
    from vlib.sut import conf

    mode = case["mode"]
    ps = [list(p) for p in case["params"]]
    fillable = [p for p in ps if p[0] in ("pk", "ko")]
    pk = [p for p in ps if p[0] == "pk"]
    only_pk = all(p[0] == "pk" for p in ps)
    method = case["kind"] in ("method", "class")
    selfname = {"method": "self", "class": "cls"}.get(case["kind"])
    if selfname and any(p[1] == selfname for p in ps):
        selfname = "me"
    haspo = any(p[0] == "po" for p in ps)
    tokens = {}

    illegal = None
    if mode == "default":
        # defaults from some point on
        seen = False
        for p, d in zip(ps, case["default"]):
            if p[0] in ("po", "pk"):
                seen = seen or d
                p[3] = "DEF" if seen else None
            elif p[0] == "ko" and d:
                p[3] = "DEF"
        if not any(p[3] for p in ps):
            return
    full = ([["po" if haspo else "pk", selfname, "", None]] if method else []) + ps

    # ---- how @given is applied
    gargs, gkw, filled, inferred = [], {}, set(), {}

    def strat(name):
        tokens[name] = Token("given " + name)
        return st.just(tokens[name])

    legal = True
    err = (InvalidArgument,)
    if mode in ("kw", "default", "nothing", "nonstrategy", "extra"):
        chosen = [p for p, c in zip(fillable, case["pick"]) if c]
        if not chosen and mode != "extra":
            chosen = fillable[:1]
        if not chosen and mode != "extra":
            return
        for p in chosen:
            filled.add(p[1])
            gkw[p[1]] = strat(p[1])
        for p, inf in zip(chosen, case["infer"]):
            if inf and (mode == "kw"):
                if p[2] in INFER:
                    gkw[p[1]] = ...
                    inferred[p[1]] = INFER[p[2]]
                elif p[2] == "":
                    gkw[p[1]] = ...
                    legal = False
        if any(v is ... for v in gkw.values()) and any(p[2] in ("object()", "5") for p in ps):
            return      # what get_type_hints makes of annotations that are no types is not specified
        if mode == "nothing":
            gkw[chosen[0][1]] = st.nothing()
            legal, err = False, (Unsatisfiable,)
        elif mode == "nonstrategy":
            gkw[chosen[0][1]] = [3, int, "x", None][case["n"] % 4]
            legal = False
        elif mode == "default":
            legal = False
        elif mode == "extra":
            gkw["zq"] = strat("zq")
            filled.add("zq")
            legal = any(p[0] == "vk" for p in ps)
    elif mode == "pos":
        n = min(case["n"], len(pk))
        if n == 0:
            return
        for p in pk[len(pk) - n:]:
            filled.add(p[1])
            gargs.append(strat(p[1]))
        legal = only_pk and not (method and full[0][0] != "pk")
    elif mode == "all":
        gargs = [...]
        if any(p[2] in ("object()", "5", "list[int]") for p in ps) or (method and full[0][0] == "pk"):
            return
        for p in fillable:
            filled.add(p[1])
            if p[2] in INFER:
                inferred[p[1]] = INFER[p[2]]
            else:
                legal = False
        if not fillable:
            legal = False
    elif mode == "mixed":
        if not pk or len(fillable) < 2:
            return
        gargs = [strat(pk[-1][1])]
        gkw = {fillable[0][1]: strat(fillable[0][1])}
        legal = False
    elif mode == "none":
        legal = False
    elif mode == "toomany":
        gargs = [st.just(1) for _ in range(len(full) + 1)]
        legal = False
    elif mode == "dots":
        if not pk:
            return
        gargs = [..., ...][: max(2, len(pk))] if len(pk) > 1 else [..., st.just(1)]
        legal = False
    rnd = random.Random(case["gorder"])
    ks = list(gkw)
    rnd.shuffle(ks)
    gkw = {k: gkw[k] for k in ks}

    # ---- the test
    log = []
    ns = {"LOG": log, "Later": str, "DEF": Token("default"), "__name__": "somemodule"}
    doc = f"    {case['doc']!r}\n" if case["doc"] is not None else ""
    ret = f" -> {case['ret']}" if case["ret"] else ""
    exec(f"def test({render(full)}){ret}:\n{doc}    LOG.append({collect(full)})\n", ns)
    orig = ns["test"]
    osig = inspect.signature(orig)
    src = f"{case['kind']} def test({render(full)}){ret}, @given({gargs}, {gkw})"
    try:
        f = given(*gargs, **gkw)(orig)
    except InvalidArgument as e:
        R.check(not legal, lambda: f"{src}: legal use rejected at decoration: {e}")
        R.label("rejected early")
        return
    except Exception as e:
        R.fail(f"{src}: decoration raised {e!r}")
        return
    f = conf(max_examples=1, phases=[Phase.generate])(f)

    if legal:
        want = [p for p in osig.parameters.values() if not (p.name in filled and p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY))]
        got = list(inspect.signature(f).parameters.values())
        R.check(got == want, lambda: f"{src}: visible signature {inspect.signature(f)}, expected the parameters {[str(p) for p in want]}")
        R.check([p.annotation for p in got] == [p.annotation for p in want], lambda: f"{src}: annotations {got} {want}")
    R.check(f.__name__ == "test" and f.__doc__ == orig.__doc__ and f.__module__ == orig.__module__,
            lambda: f"{src}: name {f.__name__!r} doc {f.__doc__!r} module {f.__module__!r}")

    # ---- calls, against a plain function with the parameters left open
    open_full = [p for p in full if p[1] not in filled]
    exec(f"def plain({render([[k, n, '', d] for k, n, a, d in open_full])}):\n    return {collect(open_full)}\n", ns)

    class Holder:
        pass

    for call in case["calls"]:
        args, kw = make_call(call, [p for p in open_full if not (method and p is full[0])], filled, Token)
        vk = [p[1] for p in full if p[0] == "vk"]
        if vk and set(kw) & filled:
            continue      # the caller overrides a filled parameter through **kwargs: not specified
        if call["more"] and any(p[0] == "va" for p in full) and any(p[0] == "pk" and p[1] in filled for p in full):
            continue      # *args reached past a parameter filled by keyword: Python itself has no way to say this
        if case["kind"] == "func":
            tgt, ref = f, ns["plain"]
        else:
            w = {"method": lambda g: g, "static": staticmethod, "class": classmethod}[case["kind"]]
            T = type("T", (Holder,), {"test": w(f), "plain": w(ns["plain"])})
            inst = T() if rnd.random() < 0.8 or case["kind"] == "method" else T
            tgt, ref = inst.test, inst.plain
        del log[:]
        try:
            exp = ref(*args, **kw)
        except TypeError as e:
            exp = None
        out = E.run(lambda: tgt(*args, **kw), E.Out())
        ctx = lambda: f"{src} called with {args} {kw}: log {log}, raised {out.exc!r}"
        if not legal:
            if exp is None:
                R.check(out.exc is not None and not log, lambda: f"illegal use and illegal call accepted: {ctx()}")
            else:
                R.check(isinstance(out.exc, err) and not log, lambda: f"illegal use should raise {err[0].__name__} when called: {ctx()}")
            R.label("illegal " + mode)
            continue
        if exp is None:
            R.check(isinstance(out.exc, TypeError) and not log, lambda: f"a plain function rejects this call: {ctx()}")
            R.label("bad call")
            continue
        R.check(out.exc is None, lambda: f"a plain function accepts this call: {ctx()}")
        R.check(len(log) == 1, lambda: f"body should have run once: {ctx()}")
        got = log[0]
        for p in full:
            v = got[p[1]]
            if p[1] in inferred:
                R.check(type(v) is inferred[p[1]], lambda: f"{p[1]} should be inferred as {inferred[p[1]]}: {ctx()}")
            elif p[1] in filled:
                R.check(v is tokens[p[1]], lambda: f"{p[1]} should come from its strategy: {ctx()}")
            elif p[0] == "vk":
                R.check(same(v, {**exp[p[1]], **({"zq": tokens["zq"]} if "zq" in filled else {})}), lambda: f"**{p[1]}: expected {exp[p[1]]}: {ctx()}")
            else:
                R.check(same(v, exp[p[1]]), lambda: f"{p[1]} should be {exp[p[1]]}: {ctx()}")
        R.nontrivial(bool(args or kw))
        R.label(mode, case["kind"])
    if method and legal:
        R.label("bound")


def run_composite(case, R):
    import inspect
    from hypothesis import given, strategies as st, Phase
    from hypothesis.errors import InvalidArgument
    from vlib.sut import conf

    ps = [list(p) for p in case["params"]]
    seen = False
    for p, d in zip(ps, case["default"]):
        if p[0] in ("po", "pk"):
            seen = seen or d
            p[3] = "DEF" if seen else None
        elif p[0] == "ko" and d:
            p[3] = "DEF"
    first = "drawer"
    haspo = any(p[0] == "po" for p in ps)
    log = []
    ns = {"LOG": log, "Later": str, "DEF": Token("default"), "__name__": "somemodule", "st": st, "TOK": Token("drawn")}
    doc = f"    {case['doc']!r}\n" if case["doc"] is not None else ""
    ret = " -> int" if case["ret"] else ""
    exec(f"def fn({render([['po' if haspo else 'pk', first, '', None]] + ps)}){ret}:\n{doc}    v = {first}(st.just(TOK))\n    LOG.append(({collect(ps)}, v))\n    return v\n", ns)
    osig = inspect.signature(ns["fn"])
    src = f"@composite def fn({render(ps)})"
    try:
        f = st.composite(ns["fn"])
    except Exception as e:
        R.fail(f"{src}: decoration raised {e!r}")
        return
    want = list(osig.parameters.values())[1:]
    got = list(inspect.signature(f).parameters.values())
    R.check([(p.name, p.kind, p.default) for p in got] == [(p.name, p.kind, p.default) for p in want],
            lambda: f"{src}: visible signature {inspect.signature(f)}, expected {[str(p) for p in want]}")
    R.check(f.__name__ == "fn" and f.__doc__ == ns["fn"].__doc__, lambda: f"{src}: {f.__name__!r} {f.__doc__!r}")
    exec(f"def plain({render([[k, n, '', d] for k, n, a, d in ps])}):\n    return {collect(ps)}\n", ns)
    for call in case["calls"]:
        args, kw = make_call(call, ps, set(), Token)
        del log[:]
        try:
            exp = ns["plain"](*args, **kw)
        except TypeError:
            exp = None
        try:
            s = f(*args, **kw)
            res = []
            t = conf(max_examples=1, phases=[Phase.generate])(given(s)(lambda x: res.append(x)))
            out = E.run(t, E.Out())
            exc = out.exc
        except TypeError as e:
            exc = e
        ctx = lambda: f"{src} called with {args} {kw}: log {log}, raised {exc!r}"
        if exp is None:
            R.check(isinstance(exc, TypeError) and not log, lambda: f"a plain function rejects this call: {ctx()}")
            R.label("composite bad call")
            continue
        R.check(exc is None and len(log) == 1 and log[0][1] is ns["TOK"] and res == [ns["TOK"]], lambda: f"a plain function accepts this call: {ctx()}")
        for p in ps:
            R.check(same(log[0][0][p[1]], exp[p[1]]), lambda: f"{p[1]} should be {exp[p[1]]}: {ctx()}")
        R.nontrivial(bool(args or kw))
        R.label("composite")
