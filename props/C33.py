import math
import struct
from fractions import Fraction

RULE = ("generated choice constraints (integer bounds/shrink target/weights, boolean p, byte and string sizes and "
        "alphabets) with values or indices, and generated doubles of every bit pattern at widths 16/32/64; "
        "non-trivial = the constraint set admits more than one value, or a float that is not a small integer")
TECHNIQUE = "property-based testing: brute-force enumeration model of the documented order, round-trip and IEEE-754 oracles"
NOTE = ("Compares the mapping with an independently enumerated order on generated constraints; internal functions "
        "choice_to_index / choice_from_index / float helpers are called by their repository names.")
QUICK, THOROUGH = 12000, 400000
CHARS = [48, 49, 57, 65, 90, 91, 97, 122, 127, 128, 0, 10, 32, 47, 233, 0x2603, 0xD800, 0xDFFF, 0xFFFF, 0x10FFFF, 0x1F600]


def cases(tier):
    from hypothesis import strategies as st
    from vlib import gens as g

    @st.composite
    def integer(draw):
        a, b = sorted([draw(g.big_ints()), draw(g.big_ints())])
        small = draw(st.booleans())
        if small:
            b = a + draw(st.integers(0, 40))
        lo = draw(st.sampled_from([a, None] if not small else [a]))
        hi = draw(st.sampled_from([b, None] if not small else [b]))
        t = draw(st.one_of(st.just(0), g.big_ints(), st.integers(a, b), st.sampled_from([a, b, a - 1, b + 1])))
        idx = draw(st.lists(st.one_of(st.integers(0, 90), g.big_ints().map(abs)), max_size=4))
        vals = draw(st.lists(st.one_of(st.integers(a, b), g.big_ints()), max_size=4))
        w = draw(st.booleans()) and small
        return {"k": "int", "lo": lo, "hi": hi, "t": t, "idx": idx, "vals": vals, "w": w}

    @st.composite
    def coll(draw):
        kind = draw(st.sampled_from(["bytes", "str", "str"]))
        pts = draw(st.lists(st.tuples(st.sampled_from(CHARS), st.integers(0, 30)), min_size=1, max_size=5))
        iv = sorted({c for p, n in pts for c in range(p, min(p + n, 0x10FFFF) + 1)})
        if draw(st.integers(0, 5)) == 0:
            full = True
        else:
            full = False
        lo = draw(st.integers(0, 4))
        k = 256 if kind == "bytes" else (0x110000 if full else len(iv))
        n = draw(st.one_of(st.integers(lo, lo + 4), st.integers(lo, 60)))
        digit = st.one_of(st.integers(0, k - 1), st.sampled_from([0, k - 1]))
        if draw(st.booleans()):
            v = [draw(digit)] * n
            for _ in range(draw(st.integers(0, 2))):
                if n:
                    v[draw(st.integers(0, n - 1))] = draw(digit)
        else:
            v = draw(st.lists(digit, min_size=min(n, 20), max_size=min(n, 20)))
            lo = min(lo, len(v))
        return {"k": kind, "iv": iv, "full": full, "lo": lo, "ranks": v,
                "hi": draw(st.sampled_from([None, 0, 1, 5])), "near": draw(st.integers(-3, 3))}

    bools = st.sampled_from([0.0, 1.0, 0.5, 1e-300, 2.0**-64, 2.0**-63, 1 - 2.0**-53, 0.1, 0.999]).map(
        lambda p: {"k": "bool", "p": p})
    fl = st.tuples(g.float_bits(), g.float_bits(), st.integers(0, 2**64 - 1), st.sampled_from([16, 32, 64])).map(
        lambda t: {"k": "float", "a": t[0], "b": t[1], "lex": t[2], "w": t[3]})

    @st.composite
    def fpair(draw):
        # two floats with a common integer part, differing in fraction only
        i = draw(st.one_of(st.integers(1, 4), st.integers(1, 2**40)))
        e = i.bit_length()
        n1 = draw(st.integers(1, 52 - e + 0))
        n2 = draw(st.integers(1, 52 - e + 0))
        f1 = i + draw(st.integers(0, 2**n1 - 1)) / 2**n1
        i2 = i + draw(st.sampled_from([0, 0, 1, 1, 2, 3, i]))
        n2 = min(n2, 53 - i2.bit_length())
        f2 = i2 + draw(st.integers(0, 2**n2 - 1)) / 2**n2
        b = lambda f: struct.unpack("!Q", struct.pack("!d", f))[0]
        return {"k": "float", "a": b(f1), "b": b(f2), "lex": draw(st.integers(0, 2**64 - 1)), "w": 64}

    return st.one_of(integer(), coll(), coll(), bools, fl, fl, fpair())


def legal_range(idx_or_val, lo, hi):
    return (lo is None or idx_or_val >= lo) and (hi is None or idx_or_val <= hi)


def model_rank(v, lo, hi, t):
    """How many permitted integers are strictly simpler than v: nearer to the
    (clamped) target, or as near and above it."""
    d = abs(v - t)
    n = 0
    # values at distance < d
    if d > 0:
        top = t + d - 1 if hi is None else min(hi, t + d - 1)
        bot = t - d + 1 if lo is None else max(lo, t - d + 1)
        n = max(0, top - bot + 1)
        if v < t and (hi is None or t + d <= hi):
            n += 1  # t + d comes first
    return n


def order_key(v, t):
    return (abs(v - t), v < t)


def run(case, R):
    from hypothesis.internal.conjecture.choice import (
        choice_equal, choice_from_index, choice_key, choice_permitted, choice_to_index)

    k = case["k"]
    if k == "int":
        lo, hi, t = case["lo"], case["hi"], case["t"]
        w = None
        if case["w"]:
            w = {i: 1 / (hi - lo + 1) for i in range(lo, hi + 1)}
        c = {"min_value": lo, "max_value": hi, "weights": w, "shrink_towards": t}
        tt = t if lo is None else max(lo, t)
        tt = tt if hi is None else min(hi, tt)
        size = None if lo is None or hi is None else hi - lo + 1
        R.label("int:" + ("bounded" if size else "unbounded" if lo is None and hi is None else "semi"))
        R.nontrivial(size != 1)
        for v in case["vals"]:
            R.check(choice_permitted(v, c) == legal_range(v, lo, hi), f"choice_permitted({v}, {c})")
            if legal_range(v, lo, hi):
                i = choice_to_index(v, c)
                R.check(i == model_rank(v, lo, hi, tt), lambda: f"index of {v} under {c} is {i}, expected {model_rank(v, lo, hi, tt)}")
                back = choice_from_index(i, "integer", c)
                R.check(type(back) is int and back == v, f"{v} -> {i} -> {back} under {c}")
        for i in case["idx"]:
            if size is None or i < size:
                v = choice_from_index(i, "integer", c)
                R.check(legal_range(v, lo, hi), f"index {i} gives {v}, not permitted under {c}")
                R.check(choice_to_index(v, c) == i, f"{i} -> {v} -> {choice_to_index(v, c)} under {c}")
        if size is not None and size <= 60:
            got = [choice_from_index(i, "integer", c) for i in range(size)]
            want = sorted(range(lo, hi + 1), key=lambda v: order_key(v, tt))
            R.check(got == want, f"order under {c}: {got} != {want}")
            R.label("int:enumerated")
    elif k == "bool":
        p = case["p"]
        c = {"p": p}
        perm = [b for b in (False, True) if choice_permitted(b, c)]
        want = [False] if p <= 0 else [True] if p >= 1 else [False, True]
        R.check(perm == want, f"permitted booleans for p={p}: {perm}")
        R.nontrivial(len(perm) > 1)
        # tiny probabilities below the resolution are a single option
        only = [False] if p <= 2.0**-64 else [True] if p >= 1 - 2.0**-64 else [False, True]
        for i, b in enumerate(only):
            R.check(choice_to_index(b, c) == i and choice_from_index(i, "boolean", c) is b, f"bool order for p={p}")
    elif k in ("bytes", "str"):
        from hypothesis.internal.intervalsets import IntervalSet

        lo = case["lo"]
        if k == "bytes":
            rank_to_el = bytes(range(256))
            K = 256
            mk = bytes
            c = {"min_size": lo, "max_size": 10**9}
            typ = "bytes"
            v = bytes(case["ranks"])
        else:
            iv = [(0, 0x10FFFF)] if case["full"] else [(x, x) for x in case["iv"]]
            ivs = IntervalSet(iv)
            ivs = ivs.union(ivs)
            K = len(ivs)
            c = {"min_size": lo, "max_size": 10**9, "intervals": ivs}
            typ = "string"
            v = "".join(ivs.char_in_shrink_order(r) for r in case["ranks"])
        if len(v) < lo:
            return
        R.nontrivial(K > 1 and len(v) > 0)
        R.label(k + (":long" if len(v) > 6 else ":short"))
        # model: all shorter ones (from min_size) come first, then base-K order
        want = sum(K**n for n in range(lo, len(v)))
        num = 0
        for r in case["ranks"]:
            num = num * K + r
        want += num
        i = choice_to_index(v, c)
        R.check(i == want, lambda: f"index of {v!r} with min_size={lo} K={K} is {i}, expected {want}")
        back = choice_from_index(i, typ, c)
        R.check(type(back) is type(v) and back == v, lambda: f"{v!r} -> index -> {back!r}, min_size={lo}, K={K}")
        j = i + case["near"]
        if j >= 0:
            u = choice_from_index(j, typ, c)
            R.check(choice_permitted(u, c), f"index {j} gives {u!r}, not permitted")
            R.check(choice_to_index(u, c) == j, lambda: f"index {j} -> {u!r} -> {choice_to_index(u, c)}")
        hi = case["hi"]
        if hi is not None:
            c2 = dict(c, max_size=max(hi, lo))
            R.check(choice_permitted(v, c2) == (lo <= len(v) <= max(hi, lo)), f"permitted {v!r} {lo} {hi}")
        if typ == "string":
            bad = next((x for x in CHARS if x not in set(case["iv"])), None)
            if bad is not None and not case["full"]:
                R.check(not choice_permitted(v + chr(bad), c), f"{v + chr(bad)!r} permitted though {bad} is not in {c['intervals']}")
    else:
        floats(case, R)


def floats(case, R):
    from hypothesis.internal.conjecture import floats as F
    from hypothesis.internal import floats as H
    from hypothesis.internal.conjecture.choice import choice_key, choice_permitted, choice_to_index

    bits = lambda f: struct.unpack("!Q", struct.pack("!d", f))[0]
    fl = lambda b: struct.unpack("!d", struct.pack("!Q", b))[0]
    a, b = fl(case["a"]), fl(case["b"])
    R.nontrivial(not (a == int(a) if math.isfinite(a) else False) or abs(a) > 2**53)
    # encoding is a bijection on non-negative doubles
    for x in (a, b):
        ax = fl(bits(x) & ~(1 << 63))
        lex = F.float_to_lex(ax)
        R.check(0 <= lex < 2**64, f"lex out of range for {x!r}")
        R.check(bits(F.lex_to_float(lex)) == bits(ax), f"float {ax!r} ({bits(ax):x}) -> {lex:x} -> {F.lex_to_float(lex)!r}")
    back = F.lex_to_float(case["lex"])
    R.check(bits(back) >> 63 == 0, f"lex_to_float({case['lex']:x}) negative: {back!r}")
    # documented order on non-negative floats
    def cls(x):
        if math.isnan(x):
            return 4
        if math.isinf(x):
            return 3
        if x == int(x) and x < 2**56:
            return 0
        return 1 if x >= 1 else 2
    x, y = fl(bits(a) & ~(1 << 63)), fl(bits(b) & ~(1 << 63))
    lx, ly = F.float_to_lex(x), F.float_to_lex(y)
    R.check((lx == ly) == (bits(x) == bits(y)), f"encoding not injective: {x!r} {y!r}")
    cx, cy = cls(x), cls(y)
    R.label(f"fclass{min(cx, cy)}{max(cx, cy)}")
    if cx != cy:
        R.check((lx < ly) == (cx < cy), f"order of {x!r} and {y!r}: {lx:x} {ly:x}")
    elif cx == 0:
        R.check((lx < ly) == (x < y), f"integers {x!r} {y!r} not ordered by value")
    elif cx == 1:
        if int(x) != int(y):
            R.check((lx < ly) == (int(x) < int(y)), f"{x!r} {y!r} not ordered by integer part")
        else:
            dx, dy = Fraction(x).denominator, Fraction(y).denominator
            if dx != dy:
                R.check((lx < ly) == (dx < dy), f"{x!r} {y!r} not ordered by denominator")
                R.label("denominator-order")
    # sign: negative after all non-negatives
    neg = -x
    c = {"min_value": -math.inf, "max_value": math.inf, "allow_nan": True, "smallest_nonzero_magnitude": 5e-324}
    if not math.isnan(x):
        R.check(choice_to_index(neg, c) > choice_to_index(y, c), f"{neg!r} simpler than {y!r}")
    R.check((choice_key(a) == choice_key(b)) == (bits(a) == bits(b)), f"choice_key({a!r}) vs {b!r}")
    # IEEE helpers against numpy-free bit arithmetic
    w = case["w"]
    fmt = {16: ("!e", "!H", 5, 10), 32: ("!f", "!I", 8, 23), 64: ("!d", "!Q", 11, 52)}[w]
    nb = {16: 16, 32: 32, 64: 64}[w]
    raw = case["a"] >> (64 - nb)
    v = struct.unpack(fmt[0], raw.to_bytes(nb // 8, "big"))[0]
    def key(val):  # position on the ordered line of width-w values, -0 before 0
        r = struct.unpack(fmt[1], struct.pack(fmt[0], val))[0]
        top = 1 << (nb - 1)
        return r if r < top else -(r - top) - 1
    def unkey(n):
        top = 1 << (nb - 1)
        r = n if n >= 0 else top + (-n - 1)
        return struct.unpack(fmt[0], r.to_bytes(nb // 8, "big"))[0]
    if not math.isnan(v):
        R.label(f"width{w}")
        R.check(H.float_to_int(v, w) == raw and struct.pack("!d", H.int_to_float(raw, w)) == struct.pack("!d", v), f"float_to_int {v!r} {w}")
        R.check(bits(H.float_of(v, w)) == bits(v), f"float_of({v!r}, {w}) not identity on representable")
        if v != math.inf:
            want = unkey(key(v) + 1)
            R.check(bits(H.next_up(v, w)) == bits(want), f"next_up({v!r}, {w}) = {H.next_up(v, w)!r} want {want!r}")
        if v != -math.inf:
            want = unkey(key(v) - 1)
            got = H.next_down(v, w)
            R.check(bits(got) == bits(want), f"next_down({v!r}, {w}) = {got!r} want {want!r}")
            # normal-only stepping
            e, m = fmt[2], fmt[3]
            tiny = 2.0 ** -(2 ** (e - 1) - 2)
            got = H.next_down_normal(v, w, allow_subnormal=False)
            wantn = want
            while 0 < abs(wantn) < tiny:
                wantn = 0.0 if wantn > 0 else -tiny
            R.check(bits(got) == bits(wantn), f"next_down_normal({v!r}, {w}) = {got!r}, want {wantn!r}")
            R.check(bits(H.next_up_normal(-v, w, allow_subnormal=False)) == bits(-wantn), f"next_up_normal({-v!r}, {w})")
        raw2 = case["b"] >> (64 - nb)
        u = struct.unpack(fmt[0], raw2.to_bytes(nb // 8, "big"))[0]
        if not math.isnan(u):
            p, q = sorted([v, u], key=key)
            R.check(H.count_between_floats(p, q, w) == key(q) - key(p) + 1, f"count_between_floats({p!r}, {q!r}, {w})")
            R.check(H.sign_aware_lte(u, v) == (key(u) <= key(v)), f"sign_aware_lte({u!r}, {v!r})")
    # clamping
    if not math.isnan(a) and not math.isnan(b):
        keyd = lambda z: bits(z) if bits(z) < 1 << 63 else -(bits(z) - (1 << 63)) - 1
        lo, hi = sorted([a, b], key=keyd)
        z = fl(case["lex"])
        zc = H.clamp(lo, z, hi)
        if not math.isnan(z):
            want = lo if keyd(z) < keyd(lo) else hi if keyd(z) > keyd(hi) else z
            R.check(bits(zc) == bits(want), f"clamp({lo!r}, {z!r}, {hi!r}) = {zc!r}")
        for snm in (5e-324, 2.2250738585072014e-308, 1.1754943508222875e-38):
            for nan in (False, True):
                cc = {"min_value": lo, "max_value": hi, "allow_nan": nan, "smallest_nonzero_magnitude": snm}
                feasible = any(keyd(lo) <= keyd(t) <= keyd(hi) for t in (0.0, -0.0, snm, -snm)) or abs(lo) >= snm or abs(hi) >= snm
                ok = nan if math.isnan(z) else (keyd(lo) <= keyd(z) <= keyd(hi) and not 0 < abs(z) < snm)
                R.check(choice_permitted(z, cc) == ok, f"choice_permitted({z!r}, {cc})")
                if feasible and not (0 < abs(lo) < snm) and not (0 < abs(hi) < snm):
                    f = H.make_float_clamper(lo, hi, allow_nan=nan, smallest_nonzero_magnitude=snm)
                    got = f(z)
                    R.check(choice_permitted(got, cc), f"clamper {cc}: {z!r} -> {got!r}")
                    if ok:
                        R.check(bits(got) == bits(z), f"clamper {cc} changed permitted {z!r} to {got!r}")
