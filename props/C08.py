"""Generated chains of predicates (lambdas, defs, partials, math/str/bytes/regex methods) over generated base strategies.
Every value is judged by calling the predicates directly; completeness compares the produced set with the
enumerated satisfying set on small domains and offers boundary candidates as stored choices on numeric domains."""

RULE = ("generated (base strategy, chain of 1-3 predicates) pairs, with varied source layouts for lambdas; non-trivial = at least "
        "one predicate separates members of the base (accepts some, rejects some among the judged or enumerated values)")
TECHNIQUE = "property-based testing: filtered strategies against directly evaluated predicates, with set equality on small domains"
NOTE = "Soundness for every predicate; completeness excludes patterns with positive lookaround (documented as best effort) or with re.ASCII (where only ASCII characters are generated if possible). It is exact for enumerable bases (up to 200 values) and by boundary candidates for integers(), floats() and text()."
QUICK, THOROUGH = 1100, 150000

SM = ["capitalize", "expandtabs", "lower", "rsplit", "split", "splitlines", "swapcase", "title", "upper", "islower", "isupper", "isalnum",
      "isalpha", "isascii", "isdigit", "isspace", "istitle", "lstrip", "rstrip", "strip"]
SM_STR = SM + ["casefold", "encode", "isdecimal", "isnumeric", "isidentifier", "isprintable", "isidentifier"]
CONSTS = ["0", "1", "-1", "2", "5", "10", "-7", "0.0", "-0.0", "0.5", "-2.5", "3.0", "1e308", "1e999", "-1e999", "2**63", "10**400", "-10**400",
          "5e-324", "1e-310", "2.2250738585072014e-308", "1.7976931348623157e308", "True", "9007199254740993", "-9007199254740993", "0.1", "65504.0", "3.4028234663852886e+38"]
PCONSTS = CONSTS + ["Fraction(1, 3)", "Fraction(10**400)", "Fraction(-7, 2)", "Decimal('0.1')", "Decimal('1e400')", "Decimal('Infinity')", "Decimal(3)", "Decimal('-0.0')",
                    "Fraction(1, 10**400)", "Fraction(9007199254740993)"]
LENC = ["0", "1", "2", "3", "4", "1.5", "2.0", "-1", "100", "1e999", "-1e999"]
OPS = ["<", "<=", "==", ">=", ">", "!="]
REV = ["lt", "le", "eq", "ge", "gt", "ne"]
LAYOUTS = ["plain", "plain", "def", "defdoc", "pair", "pairdiff", "call", "multi", "comment", "default", "closure", "name", "split", "deco", "decolam", "method"]


def cases(tier):
    from hypothesis import strategies as st
    from vlib.gens import finite_float, nonnan_float

    op = st.sampled_from(OPS)
    const = st.one_of(st.sampled_from(CONSTS), st.sampled_from(CONSTS[:13]), st.integers(-20, 20).map(str),
                      finite_float().map(repr))

    def cmp_expr(v, c):
        return st.one_of(
            st.tuples(op, c).map(lambda t: f"{v} {t[0]} {t[1]}"),
            st.tuples(c, op).map(lambda t: f"{t[0]} {t[1]} {v}"),
            st.tuples(c, op, op, c).map(lambda t: f"{t[0]} {t[1]} {v} {t[2]} {t[3]}"),
            st.tuples(op, c, op, c).map(lambda t: f"{v} {t[0]} {t[1]} {t[2]} {t[3]}"),
            # two comparisons with the same constant
            st.tuples(op, c, op, st.booleans()).map(lambda t: f"{v} {t[0]} {t[1]} and " + (f"{v} {t[2]} {t[1]}" if t[3] else f"{t[1]} {t[2]} {v}")),
            st.tuples(c, op, op).map(lambda t: f"{t[0]} {t[1]} {v} {t[2]} {v}"),
            st.tuples(c, op, c, op).map(lambda t: f"{t[0]} {t[1]} {t[2]} {t[3]} {v}"))

    def boolean(leaf):
        return st.one_of(
            leaf, leaf,
            st.tuples(leaf, leaf).map(lambda t: f"{t[0]} and {t[1]}"),
            st.tuples(leaf, leaf).map(lambda t: f"{t[0]} or {t[1]}"),
            st.tuples(leaf, leaf, leaf).map(lambda t: f"{t[0]} and {t[1]} and ({t[2]})"),
            st.tuples(leaf, leaf, leaf).map(lambda t: f"({t[0]} or {t[1]}) and {t[2]}"),
            leaf.map(lambda t: f"not ({t})"),
            leaf.map(lambda t: f"({t}) and h(x, 3)"), leaf.map(lambda t: f"h(x, 2) and {t}"))

    lay = st.sampled_from(LAYOUTS)

    def lam(expr):
        return st.tuples(st.just("lam"), expr, lay).map(list)
    num = lam(boolean(cmp_expr("x", const)))
    part = st.tuples(st.just("part"), st.sampled_from(REV), st.one_of(st.sampled_from(PCONSTS), const)).map(list)
    kwp = st.tuples(st.just("ref"), st.sampled_from(["partial(lambda a, x: a <= x, 3)", "partial(lambda x, a: x <= a, a=3)", "partial(operator.lt, 1)", "partial(h, k=3)"])).map(list)
    hashp = st.integers(2, 4).map(lambda k: ["lam", f"h(x, {k})", "closure"])
    maths = st.sampled_from(["math.isfinite", "math.isinf", "math.isnan", "bool", "math.isfinite", "abs"]).map(lambda n: ["ref", n])
    numpred = st.one_of(num, num, part, part, maths, hashp, kwp)
    lenp = lam(boolean(st.one_of(cmp_expr("len(x)", st.sampled_from(LENC)), cmp_expr("len(x)", st.sampled_from(LENC[:5])))))
    coll = st.one_of(lenp, lenp, hashp, st.sampled_from(["bool", "len", "list", "tuple", "set", "str"]).map(lambda n: ["ref", n]),
                     lay.map(lambda l: ["lam", "x", l]), lam(st.sampled_from(["True in x", "not x", "x and x[0]", "len(x) > 1 and x[0]", "len(x) >= 1 and x[-1] and len(x) <= 2", "len(x)", "1 < len(x)", "len(x) > 1 and h(x)", "h(x) and 5 < len(x)", "len(x) >= 1 and hasattr(x, 'values')"])))
    shadow = lam(st.sampled_from(["mylen(x) > 2", "len_(x) < 3"]))
    sm = st.sampled_from(SM_STR).map(lambda n: ["ref", f"str.{n}"])
    bm = st.sampled_from(SM).map(lambda n: ["ref", f"bytes.{n}"])
    atom = st.sampled_from(["a", "b", ".", "[ab]", "[^a]", r"\w", r"\s", r"\S", "(?:a|b)", "(a)", "A", "\n", r"\n", "ab", " ", "#", r"\d", "(?:)", "1"])
    piece = st.tuples(atom, st.sampled_from(["", "", "", "*", "+", "?", "{2}", "{0,1}", "*?"])).map("".join)
    piece = st.one_of(piece, piece, piece, st.sampled_from(["^", "$", r"\A", r"\Z", r"\b", "(?=a)", "(?!a)", "(?<=a)", "|"]))
    pat = st.lists(piece, max_size=4).map("".join)
    pat = st.one_of(pat, pat, st.tuples(st.sampled_from(["(?i)", "(?m)", "(?s)", "(?x)", "(?a)"]), pat).map("".join), pat.map(lambda p: p + " # c"),
                    st.tuples(pat, pat).map("|".join))
    flags = st.sampled_from([0, 0, 0, 0, 8, 16, 2, 64, 10, 8 | 16, 256])
    meth = st.sampled_from(["match", "match", "search", "fullmatch", "findall", "split", "finditer"])
    rx = st.tuples(st.just("re"), pat, flags, meth).map(list)
    strpred = st.one_of(sm, sm, rx, rx, rx, lenp, hashp, st.sampled_from(["bool", "str", "len", "list", "tuple"]).map(lambda n: ["ref", n]), shadow)
    bytpred = st.one_of(bm, bm, rx.map(lambda r: ["reb"] + r[1:]), lenp, hashp, st.sampled_from(["bool", "bytes", "len", "list"]).map(lambda n: ["ref", n]))

    big = st.one_of(st.integers(-30, 30), st.integers(-2**70, 2**70))
    ints = st.one_of(st.just([None, None]), st.tuples(big, big).map(sorted), st.tuples(st.none(), big).map(list), st.tuples(big, st.none()).map(list),
                     st.tuples(st.integers(-9, 9), st.integers(0, 6)).map(lambda t: [t[0], t[0] + t[1]]))
    chain = lambda p: st.lists(p, min_size=1, max_size=3)
    c_int = st.tuples(ints, chain(numpred)).map(lambda t: {"b": ["int"] + t[0], "p": t[1]})
    fb = nonnan_float().map(repr)
    fl = st.one_of(st.just([None, None]), st.tuples(fb, fb).map(lambda t: sorted(t, key=lambda r: float(r))), st.tuples(st.none(), fb).map(list), st.tuples(fb, st.none()).map(list),
                   st.sampled_from([["0.0", "1.0"], ["-1.0", "1.0"], ["-0.0", None], [None, "0.0"], ["1.0", "1.0"], ["inf", "inf"]]))
    opts = st.sampled_from([{}, {}, {"allow_nan": False}, {"allow_infinity": False}, {"allow_subnormal": False}, {"width": 32}, {"width": 16}])
    c_float = st.tuples(fl, opts, chain(numpred)).map(lambda t: {"b": ["float"] + t[0] + [t[1]], "p": t[2]})
    size = st.tuples(st.integers(0, 2), st.integers(0, 3)).map(lambda t: [t[0], min(t[0] + t[1], 3)])
    alpha = st.sampled_from(["a", "ab", "aA", "a\n", "a 1", "a#", "b", "\n", " ", "1a", "_1", "ß", "aǅ", "\u00b7a"])
    c_text = st.tuples(alpha, size, chain(strpred)).map(lambda t: {"b": ["text", t[0]] + t[1], "p": t[2]})
    c_btext = st.tuples(st.sampled_from([[0, None], [2, None], [0, 5], [1, 1], [0, 0]]), chain(strpred)).map(lambda t: {"b": ["text", None] + t[0], "p": t[1]})
    c_bin = st.tuples(st.sampled_from([[0, None], [0, 3], [1, 1], [0, 1], [2, 2], [0, 0]]), chain(bytpred)).map(lambda t: {"b": ["bytes"] + t[0], "p": t[1]})
    c_list = st.tuples(st.sampled_from(["list", "list", "ulist", "tup", "set", "fset", "dict", "ulistk", "sorted", "strlist", "deque"]), size, chain(coll)).map(lambda t: {"b": [t[0]] + t[1], "p": t[2]})
    vals = st.lists(st.sampled_from(["0", "1", "-1", "2", "0.0", "2.5", "-7", "10", "True", "False", "3", "5"]), min_size=1, max_size=7)
    small = st.one_of(
        vals.map(lambda v: ["sampled", v]), vals.map(lambda v: ["sampled", v]), st.sampled_from(["3", "0", "2.5"]).map(lambda v: ["just", v]),
        st.tuples(vals, st.integers(0, 5)).map(lambda t: ["or", t[0], t[1]]), vals.map(lambda v: ["map", v]), vals.map(lambda v: ["fmap", v]),
        vals.map(lambda v: ["share", v]), vals.map(lambda v: ["perm", v[:4]]), st.just(["bool"]))
    c_small = st.tuples(small, chain(st.one_of(num, part, hashp, st.just(["ref", "bool"]), st.just(["lam", "x", "plain"])))).filter(
        lambda t: t[0][0] != "perm").map(lambda t: {"b": t[0], "p": t[1]})
    # two bounds on the same side, close together
    two = st.tuples(st.sampled_from([("<", "<="), (">", ">=")]), st.integers(0, 1), st.integers(0, 1), st.integers(-9, 9), st.sampled_from([0, 0, 0, 1, -1, 0.5]), st.booleans(), st.booleans(), lay)

    def bounds(t):
        ops, i, j, c, d, f, split, l = t
        a, b = f"x {ops[i]} {c * 1.0 if f else c}", f"x {ops[j]} {c + d}"
        return [["lam", a, l], ["lam", b, l]] if split else [["lam", f"{a} and {b}", l]]
    c_two = st.tuples(st.sampled_from([["int", None, None], ["int", -10, 10], ["float", None, None, {}], ["float", "-10.0", "10.0", {}]]), two.map(bounds)).map(lambda t: {"b": t[0], "p": t[1]})
    c_perm = st.tuples(vals.map(lambda v: ["perm", v[:4]]), chain(coll)).map(lambda t: {"b": t[0], "p": t[1]})
    return st.tuples(st.one_of(c_int, c_int, c_float, c_float, c_text, c_text, c_text, c_btext, c_bin, c_list, c_list, c_small, c_small, c_perm, c_two, c_two),
                     st.integers(0, 2**16), st.sampled_from(["gen", "gen", "shrink", "fuzz"])).map(lambda t: dict(t[0], s=t[1], mode=t[2]))


_n = [0]


def build(p, env):
    import re
    if p[0] == "ref":
        return eval(p[1], env)
    if p[0] == "part":
        return eval(f"partial(operator.{p[1]}, {p[2]})", env)
    if p[0] in ("re", "reb"):
        if p[0] == "re":
            pt = re.compile(p[1], p[2])
        else:
            pt = re.compile(p[1].encode(), p[2])
        return getattr(pt, p[3])
    import linecache
    _, e, lay = p
    sp = e
    for w in (" and ", " or ", " < ", " <= ", " == "):
        if w in sp:
            sp = sp.replace(w, "\n       " + w, 1)
            break
    src = {
        "plain": f"f = lambda x: {e}\n",
        "def": f"def f(x):\n    return {e}\n",
        "defdoc": f"def f(x):\n    'doc'\n    return {e}\n",
        "pair": f"g, f = (lambda x: x is not f), (lambda x: {e})\n",
        "pairdiff": f"f = lambda x: {e}; g = lambda y: y\n",
        "call": f"f = ident(lambda x: {e})\n",
        "multi": f"f = (\n    lambda x: (\n        {e}\n    )\n)\n",
        "comment": f"f = ident(  # lambda x: x > 99\n    lambda x: {e}  # lambda x: x < 99\n)\n",
        "default": f"f = lambda x, h=h: {e}\n",
        "split": f"f = (\n    lambda x: {sp}\n)\n",
        "deco": f"def neg(f):\n    @functools.wraps(f)\n    def g(x):\n        return not f(x)\n    return g\n\n@neg\ndef f(x):\n    return {e}\n",
        "decolam": f"f = functools.wraps(lambda x: {e})(lambda y: not ({e.replace('x', 'y')}))\n" if "max" not in e and "x" not in e.replace("(x)", "").replace("x ", "").replace(" x", "") else f"f = lambda x: {e}",
        "method": f"class A:\n    def f(self, x):\n        return {e}\nf = A().f\n",
        "closure": f"def mk(h):\n    return lambda x: {e}\nf = mk(h)\n",
        "name": f"f = lambda arg: {re.sub(chr(92) + 'bx' + chr(92) + 'b', 'arg', e)}\n",
    }[lay]
    _n[0] += 1
    fn = f"<verif-{_n[0]}>"
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = dict(env)
    exec(compile(src, fn, "exec"), ns)
    return ns["f"]


def env():
    import functools
    import math
    import operator
    import zlib
    from decimal import Decimal
    from fractions import Fraction
    from functools import partial

    def h(x, k=2):
        return zlib.crc32(repr(x).encode("utf-8", "replace")) % k != 0
    return dict(functools=functools, math=math, operator=operator, Decimal=Decimal, Fraction=Fraction, partial=partial, h=h, ident=lambda f: f,
                mylen=lambda x: 3 - len(x), len_=lambda x: 5 - len(x))


def same(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


def run(case, R):
    import itertools
    from collections import deque
    import math
    import re
    import struct
    from hypothesis import given, strategies as st, Phase
    from hypothesis.database import InMemoryExampleDatabase, choices_to_bytes
    from vlib.sut import conf, drive, quiet

    b = case["b"]
    E = env()
    R.label(b[0], *{p[0] if p[0] != "ref" else p[1] for p in case["p"]})
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            preds = [build(p, E) for p in case["p"]]
    except (re.error, RecursionError):
        R.label("bad-regex")
        return
    k = b[0]
    ev = lambda v: eval(v, E)
    domain = None
    cand = []
    member = lambda x: True
    nums = [v for p in case["p"] if p[0] in ("lam", "part") for v in re.findall(r"-?[0-9][0-9.e+*-]*", p[1] if p[0] == "lam" else p[2])]
    consts = []
    for v in nums:
        try:
            consts.append(eval(v, E))
        except (SyntaxError, OverflowError, TypeError):
            pass
    if k == "int":
        lo, hi = b[1:]
        base = st.integers(lo, hi)
        member = lambda x: type(x) is int and (lo is None or lo <= x) and (hi is None or x <= hi)
        for c in consts + [x for x in (lo, hi) if x is not None] + [0]:
            if isinstance(c, float) and not math.isfinite(c):
                continue
            for d in (-1, 0, 1):
                cand.append(int(c) + d)
        if lo is not None and hi is not None and hi - lo < 100:
            domain = list(range(lo, hi + 1))
    elif k == "float":
        lo, hi, kw = b[1:]
        lo, hi = (None if v is None else float(v) for v in (lo, hi))
        kw = dict(kw)
        if "width" in kw:
            pk = {32: "!f", 16: "!e"}[kw["width"]]
            try:
                lo, hi = (None if v is None else struct.unpack(pk, struct.pack(pk, v))[0] for v in (lo, hi))
            except OverflowError:
                lo = hi = None
        if kw.get("allow_nan") is False:
            pass
        if "allow_infinity" in kw and (lo is not None and math.isinf(lo) or hi is not None and math.isinf(hi) or (lo is not None and hi is not None)):
            kw.pop("allow_infinity")
        if "allow_subnormal" in kw and any(v is not None and 0 < abs(v) < 2.3e-308 for v in (lo, hi)):
            kw.pop("allow_subnormal")
        if lo is not None and hi is not None and math.copysign(1, hi) < math.copysign(1, lo) and lo == hi:
            lo, hi = hi, lo
        base = st.floats(lo, hi, **kw)

        def member(x):
            if type(x) is not float:
                return False
            if math.isnan(x):
                return lo is None and hi is None and kw.get("allow_nan", True)
            if "width" in kw:
                try:
                    if struct.unpack(pk, struct.pack(pk, x))[0] != x:
                        return False
                except OverflowError:
                    return False
            if math.isinf(x) and (kw.get("allow_infinity") is False or (x > 0 and hi not in (None, x)) or (x < 0 and lo not in (None, x))):
                return False
            if kw.get("allow_subnormal") is False and 0 < abs(x) < 2.2250738585072014e-308:
                return False
            zk = lambda v: (v, math.copysign(1, v))
            return (lo is None or zk(lo) <= zk(x)) and (hi is None or zk(x) <= zk(hi))
        for c in consts + [x for x in (lo, hi) if x is not None] + [0.0, math.inf, -math.inf]:
            try:
                f = float(c)
            except OverflowError:
                continue
            cand += [f, math.nextafter(f, math.inf), math.nextafter(f, -math.inf)]
        cand = [c for c in cand if not math.isnan(c)] + [0.0, -0.0]
        if "width" in kw:
            cand = [c for c in cand if member(c)]
    elif k == "text":
        al, lo, hi = b[1:]
        base = st.text(*([al] if al else []), min_size=lo, max_size=hi)
        if al:
            domain = ["".join(t) for n in range(lo, hi + 1) for t in itertools.product(sorted(set(al)), repeat=n)]
        else:
            member = lambda x: type(x) is str and lo <= len(x) and (hi is None or len(x) <= hi)
    elif k == "bytes":
        lo, hi = b[1:]
        base = st.binary(min_size=lo, max_size=hi)
        member = lambda x: type(x) is bytes and lo <= len(x) and (hi is None or len(x) <= hi)
        if hi is not None and hi <= 1:
            domain = ([b""] if lo == 0 else []) + ([bytes([i]) for i in range(256)] if hi else [])
    elif k in ("list", "ulist", "tup", "set", "fset", "dict", "ulistk", "sorted", "strlist", "deque"):
        lo, hi = b[1:]
        els = [False, True] if k in ("list", "tup", "strlist") else [0, 1, 2]
        el = st.booleans() if k in ("list", "tup", "strlist") else st.sampled_from(els)
        seqs = [list(t) for n in range(lo, hi + 1) for t in itertools.product(els, repeat=n)]
        if k == "list":
            base, domain = st.lists(el, min_size=lo, max_size=hi), seqs
        elif k == "tup":
            base, domain = st.lists(el, min_size=lo, max_size=hi).map(tuple), [tuple(t) for t in seqs]
        elif k == "sorted":
            base, domain = st.lists(el, min_size=lo, max_size=hi).map(sorted), [sorted(t) for t in seqs]
        elif k == "strlist":
            base, domain = st.lists(el, min_size=lo, max_size=hi).map(str), [str(t) for t in seqs]
        elif k == "deque":
            base, domain = st.lists(el, min_size=lo, max_size=hi).map(deque), [deque(t) for t in seqs]
        elif k == "ulist":
            base, domain = st.lists(el, min_size=lo, max_size=hi, unique=True), [t for t in seqs if len(set(t)) == len(t)]
        elif k == "ulistk":
            base, domain = st.lists(el, min_size=lo, max_size=hi, unique_by=lambda v: v // 2), [t for t in seqs if len({v // 2 for v in t}) == len(t)]
            if lo > 2:
                return
        elif k in ("set", "fset"):
            f = set if k == "set" else frozenset
            base = (st.sets if k == "set" else st.frozensets)(el, min_size=lo, max_size=hi)
            domain = [f(t) for n in range(lo, hi + 1) for t in itertools.combinations(els, n)]
        else:
            base = st.dictionaries(el, st.booleans(), min_size=lo, max_size=hi)
            domain = [dict(zip(ks, vs)) for n in range(lo, hi + 1) for ks in itertools.permutations(els, n) for vs in itertools.product([False, True], repeat=n)]
        if k in ("set", "fset", "dict") and any("x[" in str(p[1]) for p in case["p"]):
            return
    elif k == "sampled":
        domain = [ev(v) for v in b[1]]
        base = st.sampled_from(domain)
    elif k == "just":
        domain = [ev(b[1])]
        base = st.just(domain[0])
    elif k == "bool":
        domain, base = [False, True], st.booleans()
    elif k == "or":
        vs = [ev(v) for v in b[1]]
        domain = vs + list(range(b[2] + 1))
        base = st.sampled_from(vs) | st.integers(0, b[2])
    elif k == "map":
        vs = [ev(v) for v in b[1]]
        domain = [-2 * v for v in vs]
        base = st.sampled_from(vs).map(lambda v: -2 * v)
    elif k == "fmap":
        vs = [ev(v) for v in b[1]]
        domain = [v + i for v in vs for i in range(3)]
        base = st.sampled_from(vs).flatmap(lambda v: st.sampled_from([v + i for i in range(3)]))
    elif k == "share":
        domain = [ev(v) for v in b[1]]
        base = st.shared(st.sampled_from(domain))
    elif k == "perm":
        vs = [ev(v) for v in b[1]]
        domain = [list(t) for t in itertools.permutations(vs)]
        base = st.permutations(vs)

    def ok(x):
        try:
            return all(p(x) for p in preds)
        except OverflowError:
            return False
    # predicates which reject the values by raising are outside the property
    if domain is not None:
        keys = {}
        for d in domain:
            keys.setdefault(repr(d), d)
        domain = list(keys.values())
        try:
            good = [d for d in domain if ok(d)]
        except TypeError:
            R.label("ill-typed")
            return
        sep = 0 < len(good) < len(domain)
        dom = set(map(repr, domain))
        if k not in ("set", "fset"):
            member = lambda x: repr(x) in dom
        else:
            member = lambda x: x in domain
    verdicts = set()

    def judge(x):
        if not member(x):
            return f"{x!r} is not a value of the base strategy"
        for p, src in zip(preds, case["p"]):
            try:
                good = p(x)
            except OverflowError:   # e.g. math.isfinite(10**400)
                R.label("predicate-raises")
                return
            if not good:
                return f"{x!r} does not satisfy {src[:3]}"
        verdicts.add(repr(x))

    what = str({a: v for a, v in case.items() if a not in ("mode", "s")})

    def mk():
        s = base
        for p in preds:
            s = s.filter(p)
        s.validate()
        return s
    strat = quiet(mk)
    if domain is None:
        drive(strat, judge, R, n=12, s=case["s"], mode=case["mode"], what=what, unsat_ok=True)
        want = []
        if k in ("int", "float"):
            want = list({repr(c): c for c in cand if member(c) and ok(c)}.values())
            R.nontrivial(len(want) < len(cand) and (want or verdicts))
        else:
            R.nontrivial(len(verdicts) > 1)
            if k == "text" and not any(p[0] == "re" or p[-1] == "str.isidentifier" for p in case["p"]):
                want = [c for c in ["", "a", "ab", "A b", " ", "\n\t", "12", "٣", "ß" * 4, "\x00" * 30, "Ab Cd", "²"] if member(c) and ok(c)]
        if want:
            R.label("candidates")
            # an infinity or NaN predicate selects from an explicit list, so offer indices too
            got = set()

            bad = []

            def body(x):
                got.add(repr(x))
                m = judge(x)
                if m:
                    bad.append(m)
            body.__name__ = "t"
            t = quiet(lambda: given(strat)(body))
            t._hypothesis_internal_database_key = b"k"
            db = InMemoryExampleDatabase()
            # those which do not satisfy the predicates are offered as well, and must not come out
            for w in want + [c for c in (cand if k in ("int", "float") else []) if type(c) in (int, float)]:
                db.save(b"k", choices_to_bytes([w]))
            for i in range(3):
                db.save(b"k", choices_to_bytes([i]))
            quiet(conf(max_examples=1000, database=db, phases=[Phase.reuse])(t))
            R.check(not bad, lambda: f"{what}: {bad[0]}")
            miss = [w for w in want if repr(w) not in got]
            R.evals(len(want))
            R.check(not miss, lambda: f"{what}: {miss[:4]!r} satisfy the predicates but are not produced from a stored choice")
            R.check(not strat.is_empty, f"{what}: is_empty although {want[0]!r} satisfies")
        return
    R.nontrivial(sep)
    if strat.is_empty:
        R.check(not good, lambda: f"{what}: is_empty although {good[:3]!r} satisfy")
    if case["mode"] != "gen":
        drive(strat, judge, R, n=20 if good else 4, s=case["s"], mode=case["mode"], what=what, unsat_ok=True)
        if not good:
            R.check(not verdicts, what)
        return
    partial_regex = any(p[0] in ("re", "reb") and ("(?=" in p[1] or "(?a)" in p[1] or p[2] & 256 or "(?<=" in p[1]) for p in case["p"])
    if len(good) > 80 or (good and partial_regex):
        drive(strat, judge, R, n=40, s=case["s"], what=what, unsat_ok=True)
        return
    R.label("exhaustive")
    if not good:
        drive(strat, judge, R, n=4, s=case["s"], what=what, unsat_ok=True)
        return
    want = {repr(g) for g in good} if k not in ("set", "fset") else {repr(sorted(g)) for g in good}
    for n in (2 * len(want) + 20, 400, 3000, 12000):
        drive(strat, judge, R, n=n, s=case["s"] + n, what=what, unsat_ok=True)
        if k in ("set", "fset"):
            verdicts = {repr(sorted(eval(v))) for v in verdicts}
        if want <= verdicts:
            break
    else:
        R.fail(f"{what}: {sorted(want - verdicts)[:4]} satisfy the predicates but were never produced in 12000 examples")
