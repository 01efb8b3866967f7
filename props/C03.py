"""Patterns are generated from a grammar covering all of sre's constructs (with group numbering tracked, so that back-
references and conditionals are mostly valid), with flags, fullmatch and alphabets; each generated string or bytes is judged
by the re module itself, in every engine mode.  Patterns without context-dependent constructs must be satisfiable."""
import re

RULE = "generated patterns accepted by re.compile; non-trivial = at least 3 distinct strings were judged for a pattern with at least two operators"
TECHNIQUE = "property-based testing: grammar-generated regular expressions and alphabets against the re module as oracle"
NOTE = "Patterns up to about 60 characters; 20 strings per pattern and mode."
QUICK, THOROUGH = 1500, 150000

LITS = ["a", "b", "A", "0", "_", " ", "é", "ß", "İ", "ſ", "K", "\n", r"\n", r"\x41", "ı", "σ", "ς", "Σ", "µ", r"\.", r"\\", "#", "ǅ", r"\t", "I", "i", "k", "s"]
ITEMS = ["a", "b", "z", "A-Z", "a-c", "0-9", r"\w", r"\W", r"\d", r"\D", r"\s", r"\S", "_", "é", "à-ü", r"\n", r"\]", r"\-", "İ", "ß", "K", " -~", r"\x00-\x1f", "i", "ſ"]


def cases(tier):
    from hypothesis import strategies as st

    # an abstract syntax, rendered by render() with group numbering
    lit = st.sampled_from(LITS).map(lambda c: ["lit", c])
    cls = st.tuples(st.booleans(), st.lists(st.sampled_from(ITEMS), min_size=1, max_size=3)).map(lambda t: ["cls", "[" + "^" * t[0] + "".join(t[1]) + "]"])
    cat = st.sampled_from([r"\w", r"\W", r"\d", r"\D", r"\s", r"\S", "."]).map(lambda c: ["cls", c])
    anchor = st.sampled_from(["^", "$", r"\A", r"\Z", r"\b", r"\B"]).map(lambda c: ["at", c])
    ref = st.integers(0, 3).map(lambda n: ["ref", n])
    atom = st.one_of(lit, lit, lit, cls, cls, cat)
    base = st.integers(0, 11).flatmap(lambda i: anchor if i == 11 else ref if i > 8 else atom)

    def ext(e):
        seq = st.lists(e, min_size=1, max_size=3).map(lambda l: ["seq"] + l)
        q = st.sampled_from(["*", "+", "?", "{2}", "{0,1}", "{1,3}", "{0}", "{2,}", "{,2}"])
        return st.one_of(
            seq, st.lists(seq, min_size=2, max_size=3).map(lambda l: ["alt"] + l),
            st.tuples(e, q, st.sampled_from(["", "", "", "?", "+"])).map(lambda t: ["rep", t[0], t[1] + t[2]]),
            st.tuples(st.sampled_from(["(", "(", "(?P<n>", "(?:", "(?:", "(?i:", "(?s:", "(?-i:", "(?m:", "(?=", "(?!", "(?<=", "(?<!", "(?>", "(?#c)(?:", "(?a:", "(?x:", "(?u:"]), seq).map(lambda t: ["grp"] + list(t)),
            st.tuples(st.integers(0, 3), seq, st.one_of(st.none(), seq)).map(lambda t: ["cond"] + list(t)))
    node = st.recursive(base, ext, max_leaves=8)
    head = st.sampled_from(["", "", "", "", "(?i)", "(?m)", "(?s)", "(?x)", "(?a)", "^", r"\A"])
    tail = st.sampled_from(["", "", "", "", "$", r"\Z", r"\b", "#x"])
    pat = st.tuples(head, node, tail).map(lambda t: t[0] + render(t[1]) + t[2]).filter(compiles)
    alpha = st.one_of(st.none(), st.none(), st.none(), st.sampled_from(["ab", "aAbB01", "é\n ", "a", "\n", "xyz", "abc\n", "0_ a"]).map(lambda s: ["s", s]), st.sampled_from(["ascii", "utf-8", "latin-1"]).map(lambda s: ["codec", s]),
                      st.sampled_from([["cat", ["Lu"]], ["cat", ["Ll", "Nd"]], ["max", 90], ["max", 300], ["min", 97]]))
    return st.fixed_dictionaries({"pat": pat, "flags": st.sampled_from([0, 0, 0, 0, 2, 8, 16, 64, 256, 2 | 256, 2 | 8, 8 | 16]), "full": st.booleans(), "bytes": st.sampled_from([False, False, False, True]),
                                  "alpha": alpha, "compiled": st.booleans(), "mode": st.sampled_from(["gen", "gen", "shrink", "fuzz", "replay"]), "s": st.integers(0, 2**16)})


def compiles(p):
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            re.compile(p)
        return len(p) <= 90
    except Exception:
        return False


def render(t, groups=None):
    groups = [] if groups is None else groups       # closed groups
    k = t[0]
    if k in ("lit", "cls", "at"):
        return t[1]
    if k == "ref":
        return f"(?:\\{groups[t[1] % len(groups)]})" if groups else "a"
    if k == "seq":
        return "".join(render(x, groups) for x in t[1:])
    if k == "alt":
        return "(?:" + "|".join(render(x, groups) for x in t[1:]) + ")"
    if k == "rep":
        render.depth += 1
        x = render(t[1], groups)
        render.depth -= 1
        q = t[2] if not render.depth else {"*": "?", "+": "{1,2}", "{2,}": "{2}", "{,2}": "?", "{1,3}": "{1,2}"}.get(t[2].rstrip("?+") or t[2], t[2].rstrip("+"))   # no catastrophic backtracking
        if re.search(r"[*+?{|]", x.replace("(?", "")):
            q = {"*": "{0,3}", "+": "{1,3}", "{2,}": "{2,3}"}.get(q.rstrip("?+") or q, q)
        return (x if t[1][0] in ("cls", "grp") else f"(?:{x})") + q
    if k == "grp":
        if t[1] == "(?P<n>" and "n" in [g for g in render.names]:
            return "(?:" + render(t[2], groups) + ")"
        if t[1] in ("(", "(?P<n>"):
            render.count += 1
            n = render.count
            if t[1] == "(?P<n>":
                render.names.append("n")
            x = render(t[2], groups)
            groups.append(n)
            return t[1] + x + ")"
        return t[1] + render(t[2], groups) + ")"
    if k == "cond":
        if not groups:
            return render(t[2], groups)
        g = groups[t[1] % len(groups)]
        return f"(?({g})" + render(t[2], groups) + ("|" + render(t[3], groups) if t[3] else "") + ")"
    raise AssertionError(k)


_render = render


def render(t, groups=None):     # noqa: F811  (resets the numbering for each top-level call)
    if groups is None:
        render.count, render.names, render.depth = 0, [], 0
        groups = []
    return _render(t, groups)


render.count, render.names, render.depth = 0, [], 0
CONTEXT = re.compile(r"\(\?[=!<(>]|\\[AZbB1-9]|[$^]|[*+?}]\+|\(\?-|\{0\}")


class Slow(BaseException):
    pass


def run(case, R):
    """Matching may take exponential time in the re module itself; then the case is abandoned."""
    import signal

    def stop(*a):
        raise Slow
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(12)
    try:
        run1(case, R)
    except Slow:
        R.label("abandoned")
    finally:
        signal.alarm(0)


def run1(case, R):
    import warnings
    from hypothesis import strategies as st
    from hypothesis.errors import InvalidArgument, Unsatisfiable
    from vlib.sut import drive

    p, flags, full = case["pat"], case["flags"], case["full"]
    if case["bytes"]:
        if not p.isascii() or "(?u" in p:
            return
        p = p.encode()
    elif "(?a:" in p and flags & 256:
        pass
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            rx = re.compile(p, flags)
        except (re.error, ValueError, OverflowError):
            return
    if not case["compiled"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rx = re.compile(p)
    kw = {"fullmatch": full}
    a = case["alpha"]
    inset = lambda c: True
    if a is not None and not case["bytes"]:
        v = a[1]
        if a[0] == "s":
            kw["alphabet"] = v if case["s"] % 2 else st.sampled_from(sorted(v)) if False else v
            inset = lambda c: c in v
        elif a[0] == "codec":
            kw["alphabet"] = st.characters(codec=v)
            inset = lambda c: encodes(c, v)
        elif a[0] == "cat":
            import unicodedata
            kw["alphabet"] = st.characters(categories=v)
            inset = lambda c: unicodedata.category(c) in v
        elif a[0] == "max":
            kw["alphabet"] = st.characters(max_codepoint=v)
            inset = lambda c: ord(c) <= v
        else:
            kw["alphabet"] = st.characters(min_codepoint=v)
            inset = lambda c: ord(c) >= v
        R.label("alphabet")
    R.label(case["mode"], "bytes" if case["bytes"] else "str", "full" if full else "search")
    what = f"from_regex({rx!r}, {', '.join(f'{k}={v!r}' for k, v in kw.items())})"
    typ = bytes if case["bytes"] else str
    src = rx if case["compiled"] else p
    try:
        s = st.from_regex(src, **kw)
        s.validate()
    except InvalidArgument as e:
        R.label("rejected")
        # a class which excludes everything, such as [^\\w\\W], is also rejected
        R.check("alphabet" in kw or re.search(r"\[\^.*\\[wWdDsS]", p if typ is str else p.decode()), lambda: f"{what} rejected: {e}")
        return

    match = rx.fullmatch if full else rx.search
    seen = set()

    def judge(x):
        seen.add(x)
        if type(x) is not typ:
            return f"{x!r} is not {typ}"
        if match(x) is None:
            return f"{x!r} does not match"
        if typ is str and "alphabet" not in kw and not encodes(x, "utf-8"):
            return f"{x!r} contains surrogates"
        if typ is str and not all(map(inset, x)):
            return f"{x!r} uses characters outside the alphabet"
    try:
        drive(s, judge, R, n=12 if CONTEXT.search(str(p)) else 20, s=case["s"], mode=case["mode"], what=what)
    except Unsatisfiable:
        R.label("unsat")
        if "alphabet" not in kw:
            R.check(CONTEXT.search(p if typ is str else p.decode()) is not None, lambda: f"{what} never generated anything")
        return
    R.nontrivial(len(seen) >= 3 and len(p) >= 4)


def encodes(c, codec):
    try:
        c.encode(codec)
        return True
    except UnicodeEncodeError:
        return False
