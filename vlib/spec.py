"""A small algebra of strategy expressions with an independent reading as sets of values.

gen(...)        reference-side generator of specs (JSON-able lists)
build(spec)     the strategy under test
member(spec, v) is v one of the values the definition allows?
enum(spec, cap) list of all values (by repr, each once), or None if more than cap
"""
import itertools
import zlib


def H(x, k):
    return zlib.crc32(repr(x).encode("utf-8", "surrogatepass")) % k


FUNCS = {
    "pair": lambda x: (x, x),
    "wrap": lambda x: [x],
    "tag": lambda x: ("t", x),
    "repr": lambda x: repr(x),
    "h2": lambda x: H(x, 2),
    "const": lambda x: 7,
}
PREDS = {
    "h2": lambda x: H(x, 2) == 0,
    "h3": lambda x: H(x, 3) != 0,
    "no": lambda x: False,
    "yes": lambda x: True,
    "none": None,
}
BYS = {"id": None, "h2": lambda x: H(x, 2), "h5": lambda x: H(x, 5), "repr": repr}


def leaf(st):
    small = st.tuples(st.integers(-3, 3), st.integers(0, 4)).map(lambda t: ["int", t[0], t[0] + t[1]])
    return st.one_of(
        st.just(["bool"]), small, small,
        st.lists(st.sampled_from([0, 1, "a", "", None, 2.5]), min_size=1, max_size=4).map(lambda v: ["samp", v]),
        st.integers(1, 6).map(lambda n: ["samp", list(range(n))]),
        st.sampled_from([["just", 0], ["just", "x"], ["none"], ["just", []]]),
        st.tuples(st.sampled_from(["a", "ab", "ba0"]), st.integers(0, 1), st.integers(0, 1)).map(lambda t: ["text", t[0], t[1], t[1] + t[2]]),
        st.just(["nothing"]) if False else st.just(["bool"]))


def hashable(spec):
    k = spec[0]
    if k in ("list", "ulist", "set", "dict", "fdict", "perm", "iter"):
        return False
    if k == "just":
        return spec[1] != []
    if k == "map":
        return spec[2] in ("repr", "h2", "const") or (spec[2] != "wrap" and hashable(spec[1]))
    if k == "flat":
        return hashable(spec[1]) and spec[2] in ("dup", "int")
    return all(hashable(s) for s in kids(spec))


def kids(spec):
    k = spec[0]
    if k in ("tuple", "one", "or"):
        return spec[1]
    if k in ("list", "ulist", "set", "fset", "map", "filter", "flat", "share", "defer", "comp", "iter"):
        return [spec[1]]
    if k == "dict":
        return [spec[1], spec[2]]
    if k == "fdict":
        return [s for _, s in spec[1]] + [s for _, s in (spec[2] or [])]
    return []


def collections(st, el, hel):
    size = st.tuples(st.integers(0, 2), st.integers(0, 3)).map(lambda t: [t[0], t[0] + t[1]])
    keys = st.lists(st.sampled_from(["a", "b", 0, ""]), max_size=3, unique=True)
    return st.one_of(
        st.tuples(el, size).map(lambda t: ["list", t[0]] + t[1]),
        st.tuples(el, size, st.sampled_from(["id", "h2", "h5", "repr"])).map(lambda t: ["ulist", t[0]] + t[1] + [t[2] if hashable(t[0]) or t[2] != "id" else "repr"]),
        st.tuples(hel, size).map(lambda t: ["set", t[0]] + t[1]),
        st.tuples(hel, size).map(lambda t: ["fset", t[0]] + t[1]),
        st.tuples(hel, el, size).map(lambda t: ["dict", t[0], t[1]] + t[2]),
        st.lists(el, max_size=3).map(lambda l: ["tuple", l]),
        st.tuples(keys, keys, st.booleans(), st.lists(el, min_size=6, max_size=6)).map(
            lambda t: ["fdict", [[k, s] for k, s in zip(t[0], t[3])],
                       None if t[2] else [[k, s] for k, s in zip([k for k in t[1] if k not in t[0]], t[3][3:])]]),
        st.lists(st.integers(0, 3), max_size=4).map(lambda l: ["perm", l]),
        st.tuples(el, size).map(lambda t: ["iter", t[0]] + t[1]))


def combinators(st, el):
    return st.one_of(
        st.tuples(el, st.sampled_from(sorted(FUNCS))).map(lambda t: ["map", t[0], t[1]]),
        st.tuples(el, st.sampled_from(["h2", "h3", "h3", "yes"])).map(lambda t: ["filter", t[0], t[1]]),
        st.tuples(el, st.sampled_from(["dup", "int", "list", "just"])).map(lambda t: ["flat", t[0], t[1]]),
        st.lists(el, min_size=1, max_size=4).map(lambda l: ["one", l]),
        st.lists(el, min_size=2, max_size=3).map(lambda l: ["or", l]),
        st.tuples(el, el).map(lambda t: ["or", [t[0], ["nothing"], t[1]]]),
        el.map(lambda e: ["defer", e]), el.map(lambda e: ["comp", e]), el.map(lambda e: ["share", e]),
        st.lists(el, max_size=3).map(lambda l: ["tuple", l]),
        st.tuples(el, st.integers(0, 3)).map(lambda t: ["list", t[0], 0, t[1]]))


def flat_spec(how, x):
    n = H(x, 3)
    return {"dup": ["tuple", [["lit", x], ["bool"]]], "int": ["int", 0, n], "list": ["list", ["bool"], n % 2, n], "just": ["lit", x]}[how]


def build(spec):
    from hypothesis import strategies as st

    k = spec[0]
    if k == "bool":
        return st.booleans()
    if k == "int":
        return st.integers(spec[1], spec[2])
    if k == "samp":
        return st.sampled_from(spec[1])
    if k in ("just", "lit"):
        return st.just(spec[1])
    if k == "none":
        return st.none()
    if k == "nothing":
        return st.nothing()
    if k == "text":
        return st.text(spec[1], min_size=spec[2], max_size=spec[3])
    if k == "tuple":
        return st.tuples(*map(build, spec[1]))
    if k == "list":
        return st.lists(build(spec[1]), min_size=spec[2], max_size=spec[3])
    if k == "iter":
        return st.iterables(build(spec[1]), min_size=spec[2], max_size=spec[3])
    if k == "ulist":
        by = BYS[spec[4]]
        return st.lists(build(spec[1]), min_size=spec[2], max_size=spec[3], **({"unique_by": by} if by else {"unique": True}))
    if k == "set":
        return st.sets(build(spec[1]), min_size=spec[2], max_size=spec[3])
    if k == "fset":
        return st.frozensets(build(spec[1]), min_size=spec[2], max_size=spec[3])
    if k == "dict":
        return st.dictionaries(build(spec[1]), build(spec[2]), min_size=spec[3], max_size=spec[4])
    if k == "fdict":
        return st.fixed_dictionaries({a: build(s) for a, s in spec[1]}, **({} if spec[2] is None else {"optional": {a: build(s) for a, s in spec[2]}}))
    if k == "perm":
        return st.permutations(spec[1])
    if k == "map":
        return build(spec[1]).map(FUNCS[spec[2]])
    if k == "filter":
        return build(spec[1]).filter(PREDS[spec[2]])
    if k == "flat":
        return build(spec[1]).flatmap(lambda x: build(flat_spec(spec[2], x)))
    if k == "one":
        return st.one_of(*map(build, spec[1]))
    if k == "or":
        r = build(spec[1][0])
        for s in spec[1][1:]:
            r = r | build(s)
        return r
    if k == "defer":
        s = build(spec[1])
        return st.deferred(lambda: s)
    if k == "comp":
        s = build(spec[1])

        @st.composite
        def c(draw):
            return draw(s)
        return c()
    if k == "share":
        return st.shared(build(spec[1]))
    raise AssertionError(k)


def same(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


def member(spec, v):
    k = spec[0]
    if k == "bool":
        return type(v) is bool
    if k == "int":
        return type(v) is int and spec[1] <= v <= spec[2]
    if k == "samp":
        return any(same(v, e) for e in spec[1])
    if k in ("just", "lit"):
        return same(v, spec[1])
    if k == "none":
        return v is None
    if k == "nothing":
        return False
    if k == "text":
        return type(v) is str and spec[2] <= len(v) <= spec[3] and set(v) <= set(spec[1])
    if k == "tuple":
        return type(v) is tuple and len(v) == len(spec[1]) and all(map(member, spec[1], v))
    if k == "list":
        return type(v) is list and spec[2] <= len(v) <= spec[3] and all(member(spec[1], e) for e in v)
    if k == "iter":
        l = list(v)
        return iter(v) is v and not isinstance(v, (list, tuple, set)) and spec[2] <= len(l) <= spec[3] and all(member(spec[1], e) for e in l)
    if k == "ulist":
        by = BYS[spec[4]] or (lambda x: x)
        return member(["list"] + spec[1:4], v) and len({by(e) for e in v}) == len(v)
    if k in ("set", "fset"):
        return type(v) is (set if k == "set" else frozenset) and spec[2] <= len(v) <= spec[3] and all(member(spec[1], e) for e in v)
    if k == "dict":
        return type(v) is dict and spec[3] <= len(v) <= spec[4] and all(member(spec[1], a) and member(spec[2], b) for a, b in v.items())
    if k == "fdict":
        req = {("k", a): s for a, s in spec[1]}
        opt = {("k", a): s for a, s in (spec[2] or [])}
        if type(v) is not dict or not all(a[1] in v for a in req):
            return False
        if list(v)[:len(req)] != [a for a, _ in spec[1]]:
            return False
        return all(("k", a) in req and member(req["k", a], x) or ("k", a) in opt and member(opt["k", a], x) for a, x in v.items())
    if k == "perm":
        return type(v) is list and sorted(v) == sorted(spec[1])
    if k == "filter":
        return member(spec[1], v) and PREDS[spec[2]](v)
    if k in ("one", "or"):
        return any(member(s, v) for s in spec[1])
    if k in ("defer", "comp", "share"):
        return member(spec[1], v)
    if k == "map" and spec[2] in ("pair", "wrap", "tag"):
        f = spec[2]
        if f == "pair":
            return type(v) is tuple and len(v) == 2 and v[0] is v[1] and member(spec[1], v[0])
        if f == "wrap":
            return type(v) is list and len(v) == 1 and member(spec[1], v[0])
        return type(v) is tuple and len(v) == 2 and v[0] == "t" and member(spec[1], v[1])
    if k == "map" and spec[2] == "const":
        return v == 7
    es = enum(spec, 3000)
    if es is None:
        return True
    return any(same(v, e) for e in es)


class TooMany(Exception):
    pass


def enum(spec, cap=300):
    try:
        return _enum(spec, cap)
    except TooMany:
        return None


def _dedup(it, cap):
    out = {}
    for i, x in enumerate(it):
        if i > 50 * cap:
            raise TooMany
        out.setdefault((type(x), repr(x)), x)
        if len(out) > cap:
            raise TooMany
    return list(out.values())


def _enum(spec, cap):
    k = spec[0]
    if k == "bool":
        return [False, True]
    if k == "int":
        if spec[2] - spec[1] > 10**5:
            raise TooMany
        return list(range(spec[1], spec[2] + 1))
    if k == "samp":
        return _dedup(spec[1], cap)
    if k in ("just", "lit"):
        return [spec[1]]
    if k == "none":
        return [None]
    if k == "nothing":
        return []
    if k == "text":
        return ["".join(t) for n in range(spec[2], spec[3] + 1) for t in itertools.product(sorted(set(spec[1])), repeat=n)]
    if k == "tuple":
        return _dedup(itertools.product(*[_enum(s, cap) for s in spec[1]]), cap)
    if k in ("list", "ulist", "iter"):
        es = _enum(spec[1], cap)
        it = (list(t) for n in range(spec[2], spec[3] + 1) for t in itertools.product(es, repeat=n))
        if k == "ulist":
            by = BYS[spec[4]] or (lambda x: x)
            it = (t for t in it if len({by(e) for e in t}) == len(t))
        return _dedup(it, cap)
    if k in ("set", "fset"):
        es = _enum(spec[1], cap)
        f = set if k == "set" else frozenset
        out = []
        for n in range(spec[2], spec[3] + 1):
            for t in itertools.combinations(es, n):
                s = f(t)
                if len(s) == n and s not in out:
                    out.append(s)
                if len(out) > cap:
                    raise TooMany
        return out
    if k == "dict":
        ks, vs = _enum(spec[1], cap), _enum(spec[2], cap)
        it = (dict(zip(a, b)) for n in range(spec[3], spec[4] + 1) for a in itertools.permutations(ks, n) if len(set(a)) == n
              for b in itertools.product(vs, repeat=n))
        return _dedup(it, cap)
    if k == "perm":
        return _dedup((list(t) for t in itertools.permutations(spec[1])), cap)
    if k == "map":
        return _dedup(map(FUNCS[spec[2]], _enum(spec[1], cap)), cap)
    if k == "filter":
        return [x for x in _enum(spec[1], cap) if PREDS[spec[2]](x)]
    if k == "flat":
        return _dedup((y for x in _enum(spec[1], cap) for y in _enum(flat_spec(spec[2], x), cap)), cap)
    if k in ("one", "or"):
        return _dedup((x for s in spec[1] for x in _enum(s, cap)), cap)
    if k in ("defer", "comp", "share"):
        return _enum(spec[1], cap)
    if k == "fdict":
        req = [[(a, x) for x in _enum(s, cap)] for a, s in spec[1]]
        opt = [(a, _enum(s, cap)) for a, s in (spec[2] or [])]
        it = (dict(r + o) for r in map(list, itertools.product(*req)) for n in range(len(opt) + 1) for ch in itertools.permutations(opt, n)
              for o in (list(zip([a for a, _ in ch], vals)) for vals in itertools.product(*[x for _, x in ch])))
        return _dedup(it, cap)
    raise AssertionError(k)


def canon(v):
    """repr which does not depend on set iteration order."""
    if type(v) in (set, frozenset):
        return f"{type(v).__name__}({sorted(map(canon, v))})"
    if type(v) is dict:
        return "{" + ", ".join(f"{canon(a)}: {canon(b)}" for a, b in v.items()) + "}"
    if type(v) in (list, tuple):
        return f"{type(v).__name__}({', '.join(map(canon, v))})"
    return repr(v)


def simple(spec):
    """Contains no construct with an opaque rejection, so exhaustive generation is expected to be quick."""
    return spec[0] != "filter" and all(map(simple, kids(spec)))


def has_empty(spec):
    """Is some part of it without values (so that drawing it is rejected or invalid)?"""
    return enum(spec, 400) == [] or any(map(has_empty, kids(spec)))
