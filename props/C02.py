"""The admitted character set is computed from unicodedata and the codec over all code points; sizes and alphabets
are judged on every value in four engine modes; small admitted sets must be produced completely, and sampled members
of large sets must be accepted as stored choices."""
import sys
import unicodedata

RULE = ("generated characters()/text()/binary() arguments, each run in one engine mode (generate, fail-and-shrink, fuzzer bytes, "
        "corrupted stored choices) or checked for completeness; non-trivial = an argument restricts the characters or the size "
        "and at least 3 distinct values (or the whole admitted set) were judged")
TECHNIQUE = "property-based testing: generated arguments against an independent admitted-set model over all code points"
NOTE = "Completeness is exhaustive for admitted sets of up to 150 characters and for small string spaces, sampled (as stored choices) for larger ones."
QUICK, THOROUGH = 1400, 100000
CATS = "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn".split()
POINTS = [0, 1, 47, 48, 57, 58, 64, 65, 90, 91, 96, 97, 122, 127, 128, 160, 255, 256, 0x2028, 0x202F, 0xD7FF, 0xD800,
          0xDFFF, 0xE000, 0xF8FF, 0xFFFF, 0x10000, 0xF0000, 0xFFFFE, 0x10FFFD, 0x10FFFE, 0x10FFFF]
CODECS = ["ascii", "ASCII", "us-ascii", "utf-8", "UTF8", "latin-1", "iso8859-1", "cp1252", "cp037", "shift_jis", "koi8-r", "utf-16", "utf-7", "gb18030"]


def cases(tier):
    from hypothesis import strategies as st

    point = st.one_of(st.sampled_from(POINTS), st.integers(0, 300), st.integers(0, 0x10FFFF))
    few = st.lists(point, max_size=6).map(lambda l: "".join(map(chr, l)))
    cats = st.lists(st.sampled_from(CATS + ["L", "M", "N", "P", "S", "Z", "C"]), unique=True, max_size=4)

    @st.composite
    def chars(draw):
        lo = draw(st.one_of(st.none(), point))
        hi = draw(st.one_of(st.none(), point))
        if lo is not None and hi is None and draw(st.booleans()):
            hi = min(lo + draw(st.integers(0, 200)), 0x10FFFF)
        if lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo
        which = draw(st.sampled_from(["cats", "exc", None, None]))
        return {"lo": lo, "hi": hi, "cats": draw(cats) if which == "cats" else None, "xcats": draw(cats) if which == "exc" else None,
                "inc": draw(st.one_of(st.none(), few)), "exc": draw(st.one_of(st.none(), few)),
                "codec": draw(st.one_of(st.none(), st.none(), st.sampled_from(CODECS)))}

    alpha = st.one_of(
        chars().map(lambda c: ["chars", c]), chars().map(lambda c: ["chars", c]),
        st.lists(point, min_size=1, max_size=6).map(lambda l: ["str", "".join(map(chr, l))]),
        st.lists(st.sampled_from("ab0Z\n"), max_size=3).map(lambda l: ["str", "".join(l)]),
        st.lists(point, min_size=1, max_size=4).map(lambda l: ["sampled", "".join(map(chr, l))]),
        st.tuples(chars(), few.filter(bool)).map(lambda t: ["or", t[0], t[1]]),
        st.lists(st.sampled_from("abAB"), min_size=1, max_size=3).map(lambda l: ["upper", "".join(l)]),
        st.just(["default"]))
    size = st.one_of(st.just([0, None]), st.tuples(st.integers(0, 4), st.integers(0, 4)).map(lambda t: [t[0], t[0] + t[1]]),
                     st.integers(0, 8).map(lambda n: [n, n]), st.integers(0, 30).map(lambda n: [n, None]), st.integers(0, 60).map(lambda n: [0, n]))
    mode = st.sampled_from(["gen", "shrink", "shrink", "fuzz", "replay", "full", "full"])
    s = st.integers(0, 2**20)
    c1 = st.tuples(chars(), mode, s).map(lambda t: {"k": "characters", "c": t[0], "mode": t[1], "s": t[2]})
    c2 = st.tuples(alpha, size, mode, s).map(lambda t: {"k": "text", "a": t[0], "size": t[1], "mode": t[2], "s": t[3]})
    c3 = st.tuples(size, mode, s).map(lambda t: {"k": "binary", "size": t[0], "mode": t[1], "s": t[2]})
    return st.one_of(c1, c1, c2, c2, c2, c3)


_cat = None
_codec = {}


def setup():
    global _cat
    import numpy as np

    idx = {c: i for i, c in enumerate(CATS)}
    _cat = np.array([idx[unicodedata.category(chr(i))] for i in range(sys.maxunicode + 1)], dtype=np.int8)


def encodable(codec):
    import codecs
    import numpy as np

    name = codecs.lookup(codec).name
    if name not in _codec:
        m = np.zeros(sys.maxunicode + 1, dtype=bool)
        for i in range(sys.maxunicode + 1):
            try:
                chr(i).encode(name)
                m[i] = True
            except Exception:
                pass
        _codec[name] = m
    return _codec[name]


class Reject(Exception):
    """Documented to be an error."""


def admitted(c):
    """Boolean mask over code points, or Reject."""
    import numpy as np

    inc, exc = c["inc"] or "", c["exc"] or ""
    if set(inc) & set(exc):
        raise Reject
    if c["inc"] is not None and all(c[k] is None for k in ("lo", "hi", "cats", "xcats", "codec")):
        raise Reject
    m = np.ones(sys.maxunicode + 1, dtype=bool)
    for key, keep in (("cats", True), ("xcats", False)):
        if c[key] is not None:
            sel = np.array([any(x == n or (len(n) == 1 and x[0] == n) for n in c[key]) for x in CATS])
            m &= sel[_cat] == keep
    if c["lo"] is not None:
        m[:c["lo"]] = False
    if c["hi"] is not None:
        m[c["hi"] + 1:] = False
    for ch in inc:
        m[ord(ch)] = True
    for ch in exc:
        m[ord(ch)] = False
    if c["codec"] is not None:
        e = encodable(c["codec"])
        if any(not e[ord(ch)] for ch in inc):
            raise Reject
        m &= e
    if not m.any():
        raise Reject
    return m


def chars_kw(c):
    names = {"lo": "min_codepoint", "hi": "max_codepoint", "cats": "categories", "xcats": "exclude_categories",
             "inc": "include_characters", "exc": "exclude_characters", "codec": "codec"}
    return {names[k]: v for k, v in c.items() if v is not None}


def run(case, R):
    import numpy as np
    from hypothesis import strategies as st
    from hypothesis.errors import InvalidArgument
    from vlib.sut import drive, quiet

    k = case["k"]
    R.label(k, case["mode"])
    what = str({a: b for a, b in case.items() if a not in ("mode", "s")})
    mask = None
    restricted = True
    strings = None  # admitted alphabet as a set when not a mask
    try:
        if k == "characters":
            mk = lambda: st.characters(**chars_kw(case["c"]))
            mask = admitted(case["c"])
            lo, hi = 1, 1
            restricted = bool(chars_kw(case["c"]))
        elif k == "text":
            lo, hi = case["size"]
            a = case["a"]
            mk = lambda: st.text(*([alpha()] if alpha else []), min_size=lo, max_size=hi)
            mask = np.zeros(sys.maxunicode + 1, dtype=bool)
            if a[0] == "chars":
                alpha = lambda: st.characters(**chars_kw(a[1]))
                mask = admitted(a[1])
            elif a[0] in ("str", "sampled"):
                mask[[ord(x) for x in a[1]]] = True
                alpha = (lambda: a[1]) if a[0] == "str" else (lambda: st.sampled_from(a[1]))
            elif a[0] == "or":
                alpha = lambda: st.characters(**chars_kw(a[1])) | st.sampled_from(a[2])
                mask = admitted(a[1])
                mask[[ord(x) for x in a[2]]] = True
            elif a[0] == "upper":
                mask[[ord(x.upper()) for x in a[1]]] = True
                alpha = lambda: st.sampled_from(a[1]).map(str.upper)
            else:
                mask = ~(_cat == CATS.index("Cs"))
                alpha = None
            if not mask.any() and lo > 0:
                raise Reject
        else:
            lo, hi = case["size"]
            mk = lambda: st.binary(min_size=lo, max_size=hi)
    except Reject:
        R.label("reject")
        if k == "text" and hi == 0:
            return      # the empty string alone is admitted, whatever the alphabet
        R.nontrivial()
        try:
            def build():
                s = mk()
                s.validate()
                if s.is_empty:
                    raise InvalidArgument
            quiet(build)
        except InvalidArgument:
            return
        R.fail(f"{what}: nothing is admitted, but no error is raised")

    typ = bytes if k == "binary" else str

    def judge(x):
        if type(x) is not typ:
            return f"{what}: {x!r} is a {type(x).__name__}"
        if len(x) < lo or (hi is not None and len(x) > hi):
            return f"{what}: size {len(x)} of {x!r} not in [{lo}, {hi}]"
        if typ is str:
            for ch in set(x):
                if not mask[ord(ch)]:
                    return f"{what}: {ch!r} (U+{ord(ch):04X}, {unicodedata.category(ch)}) in {x!r} is not admitted"

    strat = quiet(mk)
    quiet(strat.validate)
    if case["mode"] != "full":
        seen = drive(strat, judge, R, n=20, s=case["s"], mode=case["mode"], what="")
        R.nontrivial(len(set(seen)) >= 3 and restricted)
        return
    # completeness
    size = 256 if k == "binary" else int(mask.sum())
    total = 0
    if hi is not None and hi - lo <= 6:
        for n in range(lo, hi + 1):
            total += size**n if n * (size.bit_length() if size else 0) < 40 else 10**9
    else:
        total = 10**9
    if 0 < total <= 150 and not (k == "text" and case["a"][0] in ("or", "upper")):
        got = set()

        def check(x):
            got.add(x)
            return judge(x)
        drive(strat, check, R, n=total + 50, s=case["s"], mode="gen")
        R.nontrivial(restricted)
        R.label("exhaustive")
        R.check(len(got) == total, lambda: f"{what}: only {len(got)} of the {total} admitted values were produced "
                f"(characters missing: {[chr(i) for i in np.nonzero(mask)[0] if not any(chr(i) in g for g in got)][:5] if typ is str else ''})")
    else:
        # random members must be drawable when offered as stored choices
        import random
        from hypothesis.database import InMemoryExampleDatabase, choices_to_bytes
        from hypothesis import given, Phase
        from vlib.sut import conf

        if k == "text" and case["a"][0] in ("or", "upper"):
            return
        rnd = random.Random(case["s"])
        pts = None if typ is bytes else np.nonzero(mask)[0]
        want = set()
        for _ in range(8):
            n = 1 if k == "characters" else rnd.choice([lo, lo if hi is None else hi, lo + 1 if hi is None or hi > lo else lo, rnd.randint(lo, lo + 20 if hi is None else hi)])
            if typ is bytes:
                want.add(bytes(rnd.choice([0, 255, rnd.randrange(256)]) for _ in range(n)))
            elif len(pts):
                want.add("".join(chr(int(pts[rnd.choice([0, -1, rnd.randrange(len(pts))])])) for _ in range(n)))
        if k == "text" and (case["size"][1] == 0 or not len(pts)):
            return
        db = InMemoryExampleDatabase()
        got = set()
        key = b"k"

        def body(x):
            got.add(x)
        body.__name__ = "test"
        t = given(strat)(body)
        t._hypothesis_internal_database_key = key
        for w in want:
            db.save(key, choices_to_bytes([w]))
        conf(max_examples=50, database=db, phases=[Phase.reuse])(t)()
        R.nontrivial(restricted)
        R.check(want <= got, lambda: f"{what}: admitted values {list(want - got)[:3]!r} are not produced from a stored choice")
        for x in got:
            m = judge(x)
            R.check(m is None, m)
