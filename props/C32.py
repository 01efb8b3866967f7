import sys
import unicodedata

RULE = ("generated category/codepoint/include/exclude queries, codec queries and interval-set operation sequences over "
        "generated interval sets; non-trivial = the query restricts at least two of the four dimensions, or both "
        "interval-set operands are non-empty and overlap or touch")
TECHNIQUE = "property-based testing: differential against unicodedata over the full codepoint space and Python sets"
NOTE = ("Every generated query is compared on all 1,114,112 code points; interval sets are compared element by element "
        "with Python sets; bounded by the number of generated cases.")
QUICK, THOROUGH = 6400, 200000
CATS = "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn".split()
POINTS = [0, 1, 47, 48, 57, 58, 64, 65, 90, 91, 96, 97, 122, 127, 128, 160, 255, 256, 0x2028, 0x2029, 0x202F, 0xD7FF, 0xD800,
          0xDFFF, 0xE000, 0xF8FF, 0xF900, 0xFFFF, 0x10000, 0xF0000, 0xFFFFD, 0xFFFFE, 0x10FFFD, 0x10FFFE, 0x10FFFF]
CODECS = ["ascii", "utf-8", "iso8859-1", "cp1252", "cp037", "shift_jis", "koi8-r", "utf-16-le", "utf-7", "gb18030", "mac-roman",
          "iso8859-15", "big5", "utf-32-be", "cp437", "euc_kr"]


def explicit(tier):
    for c in CODECS if tier == "thorough" else CODECS[:8]:
        yield {"k": "codec", "codec": c}
    yield {"k": "charmap", "corrupt": None}
    for t in ("", "{}", "x" * 40, '[["Lu",[[1,2]]'):
        yield {"k": "charmap", "corrupt": t}


def cases(tier):
    from hypothesis import strategies as st

    point = st.one_of(st.sampled_from(POINTS), st.integers(0, 0x10FFFF), st.integers(0, 300))
    chars = st.lists(point, max_size=8).map(lambda l: "".join(map(chr, l)))
    def order(d):  # crossed bounds are rejected by characters() before any query
        if d["lo"] is not None and d["hi"] is not None and d["lo"] > d["hi"]:
            d["lo"], d["hi"] = d["hi"], d["lo"]
        return d

    q = st.fixed_dictionaries({
        "k": st.just("query"),
        "cats": st.one_of(st.none(), st.lists(st.sampled_from(CATS), unique=True, max_size=6),
                          st.lists(st.sampled_from(CATS), unique=True, min_size=24, max_size=30)),
        "lo": st.one_of(st.none(), point), "hi": st.one_of(st.none(), point),
        "inc": chars, "exc": chars, "extra": st.lists(st.integers(0, 40), max_size=6)}).map(order)
    small = st.integers(0, 40)
    iv = st.lists(small, max_size=10).map(lambda l: sorted(set(l)))
    near = st.lists(st.sampled_from(POINTS + [49, 50, 66, 89]), max_size=10).map(lambda l: sorted(set(l)))
    runs = st.lists(st.tuples(point, st.integers(0, 12)), max_size=4).map(
        lambda l: sorted({c for p, n in l for c in range(p, min(p + n, 0x10FFFF) + 1)}))
    xs = st.one_of(iv, near, runs)
    ops = st.fixed_dictionaries({"k": st.just("ops"), "a": xs, "b": xs, "c": xs,
                                 "probe": st.lists(point, max_size=4)})
    gc = st.lists(st.sampled_from(CATS + list("LMNPSZC")), max_size=5).map(lambda l: {"k": "general", "cats": l})
    return st.one_of(q, q, ops, ops, gc)


_cat = None


def setup():
    global _cat
    import numpy as np

    idx = {c: i for i, c in enumerate(CATS)}
    _cat = np.array([idx[unicodedata.category(chr(i))] for i in range(sys.maxunicode + 1)], dtype=np.int8)


def expand(ivs):
    import numpy as np

    m = np.zeros(sys.maxunicode + 1, dtype=bool)
    prev = -2
    for u, v in ivs.intervals:
        m[u:v + 1] = True
    return m


def to_ivs(cls, xs):
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return cls([tuple(i) for i in out])


def norm(xs):
    out = []
    for x in sorted(xs):
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return tuple(map(tuple, out))


def run(case, R):
    import numpy as np
    from hypothesis.internal import charmap as cm
    from hypothesis.internal.intervalsets import IntervalSet

    k = case["k"]
    if k == "query":
        inc, exc = case["inc"], case["exc"]
        R.nontrivial(sum(map(bool, (case["cats"], case["lo"] or case["hi"], inc, exc))) >= 2)
        got = cm.query(categories=case["cats"], min_codepoint=case["lo"], max_codepoint=case["hi"],
                       include_characters=inc, exclude_characters=exc)
        want = np.ones(sys.maxunicode + 1, dtype=bool)
        if case["cats"] is not None:
            ok = np.zeros(len(CATS), dtype=bool)
            for c in case["cats"]:
                ok[CATS.index(c)] = True
            want = ok[_cat]
        lo = 0 if case["lo"] is None else case["lo"]
        hi = sys.maxunicode if case["hi"] is None else case["hi"]
        want[:lo] = False
        want[hi + 1:] = False
        for c in inc:
            want[ord(c)] = True
        for c in exc:
            want[ord(c)] = False
        m = expand(got)
        if not (m == want).all():
            i = int(np.nonzero(m != want)[0][0])
            R.fail(f"query gives {'extra' if m[i] else 'missing'} U+{i:04X} ({CATS[_cat[i]]}) for {case}")
        n = int(want.sum())
        R.check(len(got) == n, f"len {len(got)} != {n}: overlapping intervals? {case}")
        iv = got.intervals
        R.check(all(u <= v for u, v in iv) and all(a[1] < b[0] for a, b in zip(iv, iv[1:])), f"not sorted/disjoint: {iv[:5]}")
        pts = np.nonzero(want)[0]
        for e in case["extra"]:
            if n:
                i = (e * 7919) % n
                R.check(got[i] == int(pts[i]) and got[i - n] == int(pts[i]), f"getitem {i} of {case}")
                R.check(got.index(int(pts[i])) == i, f"index {pts[i]} of {case}")
                ch = got.char_in_shrink_order(i)
                R.check(want[ord(ch)] and got.index_from_char_in_shrink_order(ch) == i, f"shrink order at {i} of {case}: {ch!r}")
        if n:
            first = got.char_in_shrink_order(0)
            R.check(not want[48] or first == "0", f"simplest char of {case} is {first!r} although '0' is allowed")
        R.evals(len(case["extra"]))
        R.label("query:empty" if not n else "query:some")
    elif k == "codec":
        ivs = cm.intervals_from_codec(case["codec"])
        want = np.zeros(sys.maxunicode + 1, dtype=bool)
        for i in range(sys.maxunicode + 1):
            try:
                chr(i).encode(case["codec"])
                want[i] = True
            except Exception:
                pass
        m = expand(ivs)
        R.nontrivial()
        R.label("codec")
        R.check(bool((m == want).all()), f"codec {case['codec']} differs at {np.nonzero(m != want)[0][:5]}")
        again = cm.intervals_from_codec.__wrapped__(case["codec"])
        R.check(again == ivs, f"codec {case['codec']}: cached file gives different intervals")
    elif k == "charmap":
        f = cm.charmap_file()
        old = cm._charmap
        try:
            if case["corrupt"] is not None:
                import gzip
                cm.charmap()
                f.parent.mkdir(parents=True, exist_ok=True)
                with gzip.open(f, "wb") as o:
                    o.write(case["corrupt"].encode()) if case["corrupt"] != "x" * 40 else None
                if case["corrupt"].startswith("x"):
                    f.write_bytes(b"not gzip")
                if case["corrupt"] == "{}":
                    f.unlink()
            R.nontrivial()
            cm._charmap = None
            data = cm.charmap()
            cm._charmap = None
            data2 = cm.charmap()  # now from the file just written
            for d in (data, data2):
                R.check(set(d) == set(CATS), f"categories {sorted(d)}")
                for c, ivs in d.items():
                    m = expand(IntervalSet(ivs))
                    R.check(bool((m == (_cat == CATS.index(c))).all()), f"charmap wrong for {c}")
        finally:
            cm._charmap = old
    elif k == "general":
        got = cm.as_general_categories(case["cats"])
        want = {x for x in CATS if any(x == c or (len(c) == 1 and x[0] == c) for c in case["cats"])}
        R.nontrivial(len(want) > 1)
        R.check(set(got) == want and len(set(got)) == len(got), f"as_general_categories({case['cats']}) = {got}")
    else:
        A, B, C = set(case["a"]), set(case["b"]), set(case["c"])
        a, b, c = (to_ivs(IntervalSet, case[x]) for x in "abc")
        R.nontrivial(bool(A and B))
        R.label("overlap" if A & B else "disjoint")
        for name, got, want in [
            ("union", a | b, A | B), ("difference", a - b, A - B), ("intersection", a & b, A & B),
            ("mixed", ((a | b) - c) & (b | c), ((A | B) - C) & (B | C)),
            ("mixed2", (a & b) | (c - a), (A & B) | (C - A)), ("rdiff", b - a, B - A),
        ]:
            R.check(list(got) == sorted(want), lambda: f"{name} of {a} {b} {c}: {got} != {norm(want)}")
            R.check(len(got) == len(want), f"len of {name} {got}")
        R.check((a | b).intervals == norm(A | B), f"union not merged: {(a | b).intervals}")
        R.check((a == b) == (A == B), "eq")
        u, U = a | b, sorted(A | B)
        R.check([u[i] for i in range(len(U))] == U and [u[i - len(U)] for i in range(len(U))] == U, f"indexing {u}")
        for bad in (len(U), -len(U) - 1):
            try:
                u[bad]
            except IndexError:
                pass
            else:
                R.fail(f"index {bad} accepted by {u}")
        for i, x in enumerate(U):
            R.check(u.index(x) == i and x in u and chr(x) in u, f"index({x}) of {u}")
        for p in case["probe"] + [x + 1 for x in U[:5]] + [x - 1 for x in U[:5] if x]:
            if p > 0x10FFFF:
                continue
            R.check((p in u) == (p in A | B), f"{p} in {u}")
            R.check(u.index_above(p) == sum(1 for x in U if x < p), f"index_above({p}) of {u} = {u.index_above(p)}")
            if p not in A | B:
                try:
                    u.index(p)
                except ValueError:
                    pass
                else:
                    R.fail(f"index({p}) accepted by {u}")
        order = [ord(u.char_in_shrink_order(i)) for i in range(len(U))]
        R.check(sorted(order) == U, f"shrink order of {u} is not a permutation: {order}")
        # documented: '0'..'Z' first ascending, then below '0' descending, then the rest ascending
        # (exactly so when 'Z' is a member; otherwise the next character stands in for it)
        mid = [x for x in U if 48 <= x <= 90]
        rest = [x for x in U if x > 90]
        low = [x for x in U if x < 48][::-1]
        if mid:
            R.check(order[:len(mid)] == mid and (90 not in mid or order == mid + low + rest), f"shrink order of {u}: {order}")
            R.label("order:mid")
        for i, x in enumerate(order):
            R.check(u.index_from_char_in_shrink_order(chr(x)) == i, f"inverse shrink order of {u} at {i}")
        s = "".join(map(chr, case["a"] + case["b"]))
        R.check(list(IntervalSet.from_string(s)) == U, f"from_string({s!r})")
