"""The arguments are generated (bounds at every kind of boundary, width, exclusion and allow flags); the set of
admissible values is computed independently from the documentation; the engine is then driven in four modes (generate,
fail-and-shrink, arbitrary fuzzer bytes, corrupted stored choices) and every value the test body sees is judged."""
import math
import struct
from decimal import Decimal
from fractions import Fraction

RULE = ("generated argument combinations of integers, floats, complex_numbers, decimals, fractions and booleans, each run in one "
        "of four engine modes (generate, fail-and-shrink, fuzzer bytes, corrupted stored choices); non-trivial = the "
        "arguments constrain the strategy and at least 5 distinct values (or the whole domain) were judged")
TECHNIQUE = "property-based testing: generated arguments, independent admissible-set oracle applied to every value the engine produces"
NOTE = "Argument combinations and values are sampled, not enumerated; magnitude tolerance of complex_numbers is 4 ulp of the component width, as documented."
QUICK, THOROUGH = 1200, 120000

FMT = {16: "!e", 32: "!f", 64: "!d"}
IFMT = {16: "!H", 32: "!I", 64: "!Q"}
NORMAL = {16: 2.0**-14, 32: 2.0**-126, 64: 2.0**-1022}
MAXF = {16: 65504.0, 32: struct.unpack("!f", b"\x7f\x7f\xff\xff")[0], 64: 1.7976931348623157e308}


def ordinal(x, w):
    b = struct.unpack(IFMT[w], struct.pack(FMT[w], x))[0]
    top = 1 << (w - 1)
    return b if b < top else -1 - (b - top)     # -0.0 -> -1, 0.0 -> 0


def from_ordinal(i, w):
    top = 1 << (w - 1)
    b = i if i >= 0 else top + (-1 - i)
    return struct.unpack(FMT[w], struct.pack(IFMT[w], b))[0]


def fits(x, w):
    if math.isnan(x) or math.isinf(x):
        return True
    try:
        return struct.unpack(FMT[w], struct.pack(FMT[w], x))[0] == x
    except OverflowError:
        return False


def cases(tier):
    from hypothesis import strategies as st
    from vlib import gens as g

    mode = st.sampled_from(["gen", "gen", "shrink", "shrink", "fuzz", "fuzz", "replay", "replay", "many"])

    @st.composite
    def ints(draw):
        a, b = draw(g.big_ints()), draw(st.one_of(g.big_ints(), st.integers(0, 300)))
        near = draw(st.booleans())
        lo = draw(st.sampled_from([a, None, a]))
        hi = a + abs(b) if near else b
        hi = draw(st.sampled_from([hi, None, hi]))
        if lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo
        return {"k": "int", "lo": lo, "hi": hi, "as": draw(st.sampled_from(["int", "int", "float", "frac", "dec"]))}

    @st.composite
    def float_(draw):
        w = draw(st.sampled_from([16, 32, 64, 64]))
        n = 1 << (w - 1)
        inf = {16: 0x7C00, 32: 0x7F800000, 64: 0x7FF0000000000000}[w]
        edge = {16: 0x400, 32: 0x800000, 64: 0x10000000000000}[w]   # smallest normal
        one = {16: 0x3C00, 32: 0x3F800000, 64: 0x3FF0000000000000}[w]
        base = st.sampled_from([0, 0, edge, inf - 1, inf, one, 1, edge - 1])
        o = st.one_of(st.tuples(base, st.integers(-3, 3)).map(lambda t: t[0] + t[1]), st.integers(0, inf)).map(lambda i: min(max(i, 0), inf))
        o = st.tuples(o, st.booleans()).map(lambda t: t[0] if t[1] else -1 - t[0])
        a = draw(o)
        b = draw(st.one_of(o, st.integers(0, 6).map(lambda d: min(a + d, inf))))
        a, b = min(a, b), max(a, b)
        lo = draw(st.sampled_from([a, a, None]))
        hi = draw(st.sampled_from([b, b, None]))
        return {"k": "float", "w": w, "lo": lo, "hi": hi,
                "xmin": draw(st.booleans()) and lo is not None, "xmax": draw(st.booleans()) and hi is not None,
                "nan": draw(st.sampled_from([None, None, False, True])), "inf": draw(st.sampled_from([None, None, False, True])),
                "sub": draw(st.sampled_from([None, None, False, True]))}

    @st.composite
    def cplx(draw):
        w = draw(st.sampled_from([32, 64, 128, 128]))
        mag = st.one_of(st.sampled_from([0, 1, 2, 0.5, 3, 1e-3, 1e-5, 65504, 65505, 1e5, 1e6, 1e30, 1e300, 1.7976931348623157e308, 5e-324,
                                         1e-310, 1e-320, 2.0**-1022, 2.0**-126, 2.0**-14, 1e-45, 6e-8, 1e-160, 1e160, 0.1]), g.finite_float().map(abs), st.integers(0, 10))
        a, b = draw(mag), draw(mag)
        a, b = min(a, b), max(a, b)
        return {"k": "complex", "w": w, "lo": draw(st.sampled_from([a, 0, a])), "hi": draw(st.sampled_from([b, None, a])),
                "nan": draw(st.sampled_from([None, None, False, True])), "inf": draw(st.sampled_from([None, None, False, True])),
                "sub": draw(st.sampled_from([True, True, False]))}

    digits = st.text("0123456789", min_size=1, max_size=25)
    thirds = st.sampled_from([(1, 3), (2, 3), (1, 6), (5, 6), (1, 7), (22, 7), (1, 9), (1, 30), (100, 3), (1, 700)])

    @st.composite
    def decstr(draw):
        if draw(st.integers(0, 2)) == 0:
            (n, d), k = draw(thirds), draw(st.integers(1, 22))
            q, i = n * 10**k // d + draw(st.integers(-1, 2)), k
            s = str(max(q, 0)).rjust(k + 1, "0")
            s = s[:-k] + "." + s[-k:]
        else:
            s = draw(digits)
            k = draw(st.integers(0, len(s)))
            s = (s[:k] or "0") + ("." + s[k:] if s[k:] else "")
        e = draw(st.sampled_from(["", "", "", "e0", "e5", "e-5", "e30", "e-30"]))
        return ("-" if draw(st.booleans()) else "") + s + e

    @st.composite
    def dec(draw):
        a = draw(decstr())
        b = draw(decstr())
        if draw(st.integers(0, 2)) == 0:  # adjacent
            da = Decimal(a)
            b = str(da + Decimal((0, (draw(st.integers(0, 3)),), da.as_tuple().exponent)))
        if Decimal(a) > Decimal(b):
            a, b = b, a
        return {"k": "decimal", "lo": draw(st.sampled_from([a, a, None])), "hi": draw(st.sampled_from([b, b, None])),
                "places": draw(st.one_of(st.none(), st.none(), st.integers(0, 6), st.integers(0, 40))),
                "nan": draw(st.sampled_from([None, False, True])), "inf": draw(st.sampled_from([None, False, False, True])),
                "as": draw(st.sampled_from(["str", "dec", "frac", "float"])), "prec": draw(st.sampled_from([28, 28, 5, 1, 60]))}

    @st.composite
    def frac(draw):
        md = draw(st.one_of(st.none(), st.integers(1, 5), st.integers(1, 10**6)))
        n = st.one_of(st.integers(-20, 20), g.big_ints())
        d = st.integers(1, md) if md else st.one_of(st.integers(1, 20), st.integers(1, 10**9))
        a, b = sorted([Fraction(draw(n), draw(d)), Fraction(draw(n), draw(d))])
        lo, hi = draw(st.sampled_from([a, a, None])), draw(st.sampled_from([b, b, None]))
        f = lambda q: None if q is None else (q.numerator, q.denominator)
        return {"k": "fraction", "lo": f(lo), "hi": f(hi), "md": md, "as": draw(st.sampled_from(["frac", "str"]))}

    boolean = st.just({"k": "bool"})
    which = st.one_of(ints(), float_(), float_(), float_(), cplx(), cplx(), dec(), dec(), frac(), st.one_of(boolean, frac()))
    return st.tuples(which, mode, st.integers(0, 2**20)).map(lambda t: {**t[0], "mode": t[1], "s": t[2]})


class Empty(Exception):
    """The documented constraints admit nothing, or the combination is documented to be an error."""


def make(case, st):
    """-> (strategy thunk, judge, must-work?, endpoints that must be reachable)"""
    k = case["k"]
    if k == "bool":
        return st.booleans, lambda x: None if type(x) is bool else f"{x!r} is not a bool", {False, True}
    if k == "int":
        lo, hi = case["lo"], case["hi"]
        conv = {"int": int, "float": float, "frac": Fraction, "dec": Decimal}[case["as"]]

        def arg(v):
            if v is None:
                return None
            try:
                c = conv(v)
                return c if int(c) == v and c == v else v
            except OverflowError:
                return v

        def judge(x):
            if type(x) is not int:
                return f"{x!r} is a {type(x).__name__}"
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                return f"{x} outside [{lo}, {hi}]"
        ends = {lo, hi} if lo is not None and hi is not None else set()
        return lambda: st.integers(arg(lo), arg(hi)), judge, ends
    if k == "float":
        return make_float(case, st)
    if k == "complex":
        return make_complex(case, st)
    if k == "decimal":
        return make_decimal(case, st)
    lo = None if case["lo"] is None else Fraction(*case["lo"])
    hi = None if case["hi"] is None else Fraction(*case["hi"])
    md = case["md"]
    conv = {"frac": lambda q: q, "str": lambda q: None if q is None else str(q)}[case["as"]]

    def judge(x):
        if type(x) is not Fraction:
            return f"{x!r} is a {type(x).__name__}"
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            return f"{x!r} outside [{lo}, {hi}]"
        if md is not None and x.denominator > md:
            return f"{x!r} has denominator > {md}"
    return lambda: st.fractions(conv(lo), conv(hi), max_denominator=md), judge, set()


def make_float(case, st):
    w = case["w"]
    lo = None if case["lo"] is None else from_ordinal(case["lo"], w)
    hi = None if case["hi"] is None else from_ordinal(case["hi"], w)
    xmin, xmax, nan, inf, sub = case["xmin"], case["xmax"], case["nan"], case["inf"], case["sub"]
    if (xmin and lo == math.inf) or (xmax and hi == -math.inf):
        raise Empty
    if nan and not (lo is None and hi is None):
        raise Empty
    # bounds as an interval of ordinals
    a = ordinal(-math.inf if lo is None else lo, w)
    b = ordinal(math.inf if hi is None else hi, w)
    if xmin:
        a = ordinal(lo, w) + 1 if lo else 1
    if xmax:
        b = ordinal(hi, w) - 1 if hi else -2
    if a > b:
        raise Empty
    imin, imax = ordinal(-math.inf, w), ordinal(math.inf, w)
    if inf and a > imin and b < imax:
        raise Empty      # documented error
    if inf is False:
        a, b = max(a, imin + 1), min(b, imax - 1)
    if a > b:
        raise Empty
    fa, fb = from_ordinal(a, w), from_ordinal(b, w)
    if sub:
        if fa >= NORMAL[w] or fb <= -NORMAL[w]:
            raise Empty  # documented error
    domain = None
    if b - a < 12:
        domain = [from_ordinal(i, w) for i in range(a, b + 1)]
        if sub is False:
            domain = [x for x in domain if x == 0 or abs(x) >= NORMAL[w]]
    elif sub is False:
        # everything admissible could be subnormal
        if abs(fa) < NORMAL[w] and abs(fb) < NORMAL[w] and not (a <= 0 <= b or a <= -1 <= b):
            domain = []
    if domain == []:
        raise Empty
    allow_nan = nan or (nan is None and lo is None and hi is None)

    def judge(x):
        if type(x) is not float:
            return f"{x!r} is a {type(x).__name__}"
        if math.isnan(x):
            return None if allow_nan else "nan is excluded"
        if not fits(x, w):
            return f"{x!r} is not representable in {w} bits"
        if not a <= ordinal(x, w) <= b:
            return f"{x!r} outside [{fa!r}, {fb!r}]"
        if sub is False and 0 < abs(x) < NORMAL[w]:
            return f"{x!r} is subnormal"
    kw = {}
    for n, v in (("allow_nan", nan), ("allow_infinity", inf), ("allow_subnormal", sub)):
        if v is not None:
            kw[n] = v
    if math.isinf(fa) or math.isinf(fb) or lo in (None, -math.inf) or hi in (None, math.inf):
        ends = set()
    else:
        ends = {repr(x) for x in domain} if domain and len(domain) <= 4 else {repr(x) for x in (fa, fb) if not (sub is False and 0 < abs(x) < NORMAL[w])}
    return lambda: st.floats(lo, hi, width=w, exclude_min=xmin, exclude_max=xmax, **kw), judge, ends


def make_complex(case, st):
    w, lo, hi, nan, inf, sub = case["w"], case["lo"], case["hi"], case["nan"], case["inf"], case["sub"]
    c = w // 2
    if hi is not None and lo > hi:
        raise Empty
    if inf and hi is not None:
        raise Empty
    if nan and not (lo == 0 and hi is None):
        raise Empty
    eps = {16: 2.0**-10, 32: 2.0**-23, 64: 2.0**-52}[c]
    tiny = {16: 2.0**-24, 32: 2.0**-149, 64: 5e-324}[c] if sub else NORMAL[c]
    allow_inf = hi is None and inf is not False
    # is there a value at all?  a real number in the range is enough, look for the largest component value <= hi
    top = MAXF[c] if hi is None else min(float(hi), MAXF[c])
    try:
        t = struct.unpack(FMT[c], struct.pack(FMT[c], top))[0]
    except OverflowError:
        t = MAXF[c]
    if t > top:
        t = from_ordinal(ordinal(t, c) - 1, c)
    if sub is False and t < NORMAL[c]:
        t = 0.0
    if t < lo and not allow_inf:
        raise Empty

    def judge(z):
        if type(z) is not complex:
            return f"{z!r} is a {type(z).__name__}"
        for p in (z.real, z.imag):
            if math.isnan(p) and not (nan or (nan is None and lo == 0 and hi is None)):
                return f"{z!r}: nan is excluded"
            if math.isinf(p) and not allow_inf:
                return f"{z!r}: infinity is excluded"
            if not fits(p, c):
                return f"{z!r}: component not representable in {c} bits"
            if sub is False and 0 < abs(p) < NORMAL[c]:
                return f"{z!r}: subnormal component"
        if math.isnan(z.real) or math.isnan(z.imag):
            return None
        m = math.hypot(z.real, z.imag)
        if hi is not None and Fraction(m if math.isfinite(m) else MAXF[64]) > Fraction(hi) * Fraction(1 + 4 * eps) + Fraction(tiny) and m > hi:
            return f"{z!r}: magnitude {m!r} > {hi!r}"
        if m < lo and Fraction(m) < Fraction(lo) * Fraction(1 - 4 * eps) - Fraction(tiny):
            return f"{z!r}: magnitude {m!r} < {lo!r}"
    kw = {}
    for n, v in (("allow_nan", nan), ("allow_infinity", inf)):
        if v is not None:
            kw[n] = v
    return lambda: st.complex_numbers(min_magnitude=lo, max_magnitude=hi, allow_subnormal=sub, width=w, **kw), judge, set()


def make_decimal(case, st):
    import decimal
    import math as m

    places, nan, inf = case["places"], case["nan"], case["inf"]

    def arg(s):
        if s is None:
            return None, None
        d = Decimal(s)
        if case["as"] == "str":
            return s, d
        if case["as"] == "frac":
            q = Fraction(d)
            with decimal.localcontext(decimal.Context()):
                try:
                    if Fraction(Decimal(q.numerator)) == q:
                        return int(q), d
                except Exception:
                    pass
            return d, d
        if case["as"] == "float":
            f = float(d)
            return f, Decimal(f)
        return d, d
    (alo, lo), (ahi, hi) = arg(case["lo"]), arg(case["hi"])
    if inf and lo is not None and hi is not None:
        raise Empty
    if lo is not None and hi is not None and lo > hi:
        raise Empty
    if places is not None and lo is not None and hi is not None:
        u = Fraction(1, 10**places)
        if m.ceil(Fraction(lo) / u) > m.floor(Fraction(hi) / u):
            raise Empty
    allow_nan = nan or (nan is None and None in (lo, hi))

    def judge(x):
        if type(x) is not Decimal:
            return f"{x!r} is a {type(x).__name__}"
        if x.is_nan():
            return None if allow_nan else f"{x!r} is excluded"
        if x.is_infinite():
            ok = inf is not False and ((x > 0 and hi is None) or (x < 0 and lo is None))
            return None if ok or (inf and None in (lo, hi) and False) else f"{x!r} is excluded"
        q = Fraction(x)
        if (lo is not None and q < Fraction(lo)) or (hi is not None and q > Fraction(hi)):
            return f"{x!r} outside [{lo}, {hi}]"
        if places is not None and -x.as_tuple().exponent != places:
            return f"{x!r} does not have {places} places"

    def thunk():
        kw = {}
        if nan is not None:
            kw["allow_nan"] = nan
        if inf is not None:
            kw["allow_infinity"] = inf
        return st.decimals(alo, ahi, places=places, **kw)
    return thunk, judge, set()


def run(case, R):
    import decimal
    from hypothesis import strategies as st
    from hypothesis.errors import InvalidArgument
    from vlib.sut import drive

    R.label(case["k"], case["mode"])
    what = ", ".join(f"{a}={b!r}" for a, b in case.items() if a not in ("mode", "s"))
    old = decimal.getcontext().copy()
    if "prec" in case:
        decimal.getcontext().prec = case["prec"]
    try:
        try:
            thunk, judge, ends = make(case, st)
        except Empty:
            R.label("empty")
            return
        strat = thunk()
        strat.validate()
        mode, n = case["mode"], 25
        if mode == "many":
            mode, n = "gen", 600 if ends else 60
        got = set()

        def check(x):
            if case["mode"] == "many" and len(got) < 1000:
                got.add(x if isinstance(x, (int, bool)) else repr(x))
            return judge(x)
        seen = drive(strat, check, R, n=n, s=case["s"], mode=mode, what=what)
        if mode != "fuzz":
            R.check(seen, f"{what}: nothing was generated")
        if case["mode"] == "many":
            missing = {e for e in ends if e not in got}
            R.check(not missing, lambda: f"{what}: admissible endpoint(s) {missing} never generated in {len(seen)} examples")
        R.nontrivial(len(set(seen)) >= min(5, len(ends) or 5))
    finally:
        decimal.setcontext(old)
