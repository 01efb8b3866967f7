"""Two kinds of case.  'pretty': a generated object graph (standard containers nested to any depth, wide enough to wrap,
shared subobjects; separately cycles, deep nesting, broken __repr__, subclasses) is printed; for standard containers the text
is evaluated and compared deeply (types, signs of zero, NaN bits); for the others printing must end.  'fails': a failing test
over generated strategies (standard types, builds() of plain classes, dataclasses, namedtuples, attrs classes, classmethods
and partials, enums and flags, map/flatmap over named functions and lambdas, nested in each other) is run whole, and every
"Falsifying example" note and verbose "Trying example" report must be an expression which, evaluated with the test's names in
scope, calls the test with values deeply equal to those which that execution received."""
import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import json
import struct
import typing
import uuid

from vlib import engine as E

RULE = ("generated values and object graphs (nesting, width, sharing, cycles, broken reprs, subclasses), and failing tests over generated nested "
        "strategies; non-trivial = the printed text spans several lines or contains a call")
TECHNIQUE = "property-based round-trip testing: printed text is evaluated and compared deeply with the printed objects"
NOTE = "The deciding comparison is on evaluated values, never on the layout of the text."
QUICK, THOROUGH = 1300, 100000


# ------------------------------------------------------------------------------------------- names in scope
class Plain:
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs

    @classmethod
    def make(cls, a, *, key=None):
        return cls("made", a, key=key)

    @staticmethod
    def static(a):
        return Plain("static", a)


class Slots:
    __slots__ = ("aa", "bb")

    def __init__(self, aa, bb=0):
        self.aa, self.bb = aa, bb


class Reprd:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Reprd({self.v!r})"


class BadRepr:
    """Its repr is not an expression, so the call is to be shown."""

    def __init__(self, v, w=None):
        self.v, self.w = v, w

    def __repr__(self):
        return "<BadRepr object>"


@dataclasses.dataclass
class DC:
    alpha: object
    beta: object = 3
    hidden: object = dataclasses.field(default=4, repr=False)
    computed: object = dataclasses.field(default=5, init=False)
    CONST: typing.ClassVar[int] = 6


@dataclasses.dataclass(frozen=True)
class Frozen:
    x: object
    y: object = dataclasses.field(default_factory=list, kw_only=True)


@dataclasses.dataclass
class Sub(DC):
    gamma: object = 7


NT = collections.namedtuple("NT", ["left", "right"])


class TNT(typing.NamedTuple):
    first: object
    second: object = 0


class Color(enum.Enum):
    RED = 1
    GREEN = "g"
    ALIAS = 1


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class Perm(enum.Flag):
    R = 1
    W = 2
    X = 4
    RW = 3


class IPerm(enum.IntFlag):
    R = 1
    W = 2


def pair(x):
    return Plain(x, x)


def both(x, y=None):
    return [x, y]


def ident(x):
    return x


def opaque(x):
    return Plain("opaque", x)


ATTRS = []


def attrs_class():
    if not ATTRS:
        import attrs

        @attrs.define
        class Att:
            one: object
            _two: object = 2
            three: object = attrs.field(default=3, init=False)
        ATTRS.append(Att)
    return ATTRS[0]


def scope():
    return {"Plain": Plain, "make": Plain.make, "static": Plain.static, "Slots": Slots, "Reprd": Reprd, "BadRepr": BadRepr, "DC": DC, "Frozen": Frozen, "Sub": Sub, "NT": NT, "TNT": TNT,
            "Color": Color, "Num": Num, "Perm": Perm, "IPerm": IPerm, "pair": pair, "both": both, "ident": ident, "opaque": opaque,
            "inf": float("inf"), "nan": float("nan"), "struct": struct, "datetime": datetime, "Decimal": decimal.Decimal,
            "Fraction": fractions.Fraction, "UUID": uuid.UUID, "functools": functools, "OrderedDict": collections.OrderedDict,
            "defaultdict": collections.defaultdict, "deque": collections.deque, "Counter": collections.Counter, "attrs_class": attrs_class,
            "Att": attrs_class(), "partial": functools.partial, "L": L, "attrs_class.<locals>.Att": None}


STRICT_NAN = [False]   # objects with a repr of their own print every NaN as nan


def same(a, b):
    """Deep equality, including types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack("!d", a) == struct.pack("!d", b) or (a != a and b != b and not STRICT_NAN[0])
    if isinstance(a, complex):
        return same(a.real, b.real) and same(a.imag, b.imag)
    if isinstance(a, enum.Enum):
        return a is b or a == b
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if same(x, y):
                    del rest[i]
                    break
            else:
                return False
        return True
    if isinstance(a, dict):
        if isinstance(a, collections.defaultdict) and a.default_factory is not b.default_factory:
            return False
        return len(a) == len(b) and all(same(x, y) and same(v, w) for (x, v), (y, w) in zip(a.items(), b.items()))
    if isinstance(a, (Plain, Reprd, BadRepr, DC, Frozen)):
        return same(vars(a), vars(b))
    if isinstance(a, Slots):
        return same([a.aa, a.bb], [b.aa, b.bb])
    if ATTRS and isinstance(a, ATTRS[0]):
        return same([a.one, a._two, a.three], [b.one, b._two, b.three])
    if isinstance(a, functools.partial):
        return a.func is b.func and same(a.args, b.args) and same(a.keywords, b.keywords)
    if isinstance(a, decimal.Decimal):
        return repr(a) == repr(b)
    return a == b


# ------------------------------------------------------------------------------------------- generators
def cases(tier):
    from hypothesis import strategies as st
    from vlib import gens

    # ---- values, as specs
    leaf = st.one_of(
        st.sampled_from([["float", 0xFFF8000000000000], ["float", 0x7FF8000000000001], ["none"], ["true"], ["false"], ["dots"], ["ni"], ["type", "int"], ["type", "list"]]),
        gens.big_ints().map(lambda i: ["int", str(i)]), st.sampled_from([0, 9, 12, 639, 640, 641, 700, 4300, 4301]).map(lambda k: ["int", hex(10**k + 7)]),
        gens.float_bits().map(lambda b: ["float", b]), st.tuples(gens.float_bits(), gens.float_bits()).map(lambda t: ["complex", t[0], t[1]]),
        st.text(max_size=8).map(lambda s: ["str", s]), st.sampled_from(["a" * 70, "'\"", "\n\r\x0b\u2028\x85", "\\" * 9, "\ud800", "{}%s", "é" * 50]).map(lambda s: ["str", s]),
        st.binary(max_size=6).map(lambda b: ["bytes", b.hex()]), st.binary(max_size=6).map(lambda b: ["bytearray", b.hex()]),
        st.sampled_from([["range", 1, 9, 2], ["slice", 1, None, -1], ["td", 1, 2, 3], ["dt", 2000, 1, 2], ["enum", "Color", 0], ["enum", "Num", 1],
                         ["flag", "Perm", 0], ["flag", "Perm", 3], ["flag", "Perm", 5], ["flag", "IPerm", 3], ["frac", 1, 3], ["dec", "1.50"], ["dec", "NaN"]]))
    hleaf = leaf.filter(lambda s: s[0] not in ("bytearray", "slice"))

    def ext(el):
        k = st.lists(el, max_size=6)
        return st.one_of(
            k.map(lambda l: ["list", l]), k.map(lambda l: ["tuple", l]), k.map(lambda l: ["deque", l]),
            st.lists(st.tuples(hkey, el).map(list), max_size=4).map(lambda l: ["dict", l]),
            st.lists(st.tuples(hkey, el).map(list), max_size=4).map(lambda l: ["odict", l]),
            st.lists(st.tuples(hkey, el).map(list), max_size=3).map(lambda l: ["ddict", l]),
            st.lists(hkey, max_size=5).map(lambda l: ["set", l]), st.lists(hkey, max_size=5).map(lambda l: ["fset", l]),
            st.lists(st.tuples(hkey, st.integers(-3, 9)).map(list), max_size=3).map(lambda l: ["counter", l]),
            st.lists(el, min_size=2, max_size=2).map(lambda l: ["nt", l]), st.tuples(el, st.integers(0, 4)).map(lambda t: ["share", t[0], t[1]]),
            el.map(lambda s: ["dc", s]))
    hkey = st.recursive(hleaf, lambda e: st.one_of(st.lists(e, max_size=3).map(lambda l: ["tuple", l]), st.lists(e, max_size=3).map(lambda l: ["fset", l])), max_leaves=4)
    value = st.recursive(leaf, ext, max_leaves=25)
    # ---- hostile graphs
    node = st.tuples(st.sampled_from(["list", "tuple", "dict", "set", "deque", "odict", "ddict", "plain", "dc", "frozen", "sub", "nt", "att", "partial", "ns", "exc",
                                      "boom", "boomattr", "lying", "sublist", "chain", "counter", "fset", "slots", "userlist", "badhash"]),
                     st.lists(st.integers(0, 7), max_size=3)).map(list)
    graph = st.tuples(st.lists(node, min_size=1, max_size=8), st.sampled_from([0, 0, 0, 0, 0, 30, 200, 500])).map(lambda t: {"nodes": t[0], "deep": t[1]})

    # ---- strategies
    sl = st.one_of(
        st.sampled_from([["int"], ["int"], ["bool"], ["float"], ["text"], ["bytes"], ["none"], ["enum", "Color"], ["enum", "Num"], ["enum", "Perm"], ["enum", "IPerm"],
                         ["dec"], ["frac"], ["uuid"], ["td"], ["dt"], ["date"], ["complex"], ["bigint"], ["small"], ["dates"], ["longtext"]]))

    def sext(e):
        return st.one_of(
            st.tuples(st.sampled_from(["Plain", "Plain", "BadRepr", "Reprd", "DC", "Sub", "Frozen", "NT", "TNT", "Slots", "Plain.make", "Plain.static", "Att",
                                       "pair", "both", "ident", "opaque", "list", "partial", "partial0"]), st.lists(e, min_size=2, max_size=2), st.integers(0, 2)).map(lambda t: ["builds"] + list(t)),
            st.tuples(e, st.sampled_from(["pair", "both", "ident", "opaque", "lam", "lam2", "Plain", "BadRepr", "DC", "multi", "tuple"])).map(lambda t: ["map"] + list(t)),
            st.tuples(e, st.sampled_from(["just", "lists", "builds", "tup"])).map(lambda t: ["flat"] + list(t)),
            e.map(lambda x: ["list", x]), st.lists(e, max_size=3).map(lambda l: ["tup", l]), e.map(lambda x: ["dict", x]), e.map(lambda x: ["fd", x]),
            st.lists(e, min_size=1, max_size=3).map(lambda l: ["one", l]), st.tuples(e, e).map(lambda t: ["shared", t[0], t[1]]), e.map(lambda x: ["comp", x]),
            e.map(lambda x: ["filter", x]))
    strat = st.recursive(sl, sext, max_leaves=5)
    fails = st.fixed_dictionaries({
        "specs": st.lists(strat, min_size=1, max_size=3), "cond": st.sampled_from([["h", 3, 1], ["all"], ["ge", 3], ["h", 2, 0]]), "seed": gens.seeds(),
        "explain": st.booleans(), "verbose": st.booleans(), "multi": st.booleans(), "extra": st.sampled_from([False, False, True]),
        "max": st.sampled_from([3, 6, 15]), "replay": st.sampled_from([False, False, True])})
    return st.one_of(fails.map(lambda d: {"kind": "fails", **d}), value.map(lambda v: {"kind": "pretty", "v": v}),
                     value.map(lambda v: {"kind": "pretty", "v": v}), graph.map(lambda g: {"kind": "graph", **g}))


# ------------------------------------------------------------------------------------------- pretty
class L(list):
    pass


class Boom:
    def __repr__(self):
        raise ZeroDivisionError("repr")


class BoomAttr:
    def __getattr__(self, name):
        raise RuntimeError("getattr " + name)


class Lying:
    @property
    def __class__(self):
        raise RuntimeError("class")


class BadHash:
    def __hash__(self):
        raise RuntimeError("hash")

    def __eq__(self, o):
        raise RuntimeError("eq")


def value(s, memo):
    k = s[0]
    if k in ("none", "true", "false", "dots", "ni"):
        return {"none": None, "true": True, "false": False, "dots": ..., "ni": NotImplemented}[k]
    if k == "type":
        return {"int": int, "list": list}[s[1]]
    if k == "int":
        return int(s[1], 0)
    if k == "float":
        return struct.unpack("!d", s[1].to_bytes(8, "big"))[0]
    if k == "complex":
        return complex(*(struct.unpack("!d", i.to_bytes(8, "big"))[0] for i in s[1:]))
    if k == "str":
        return s[1]
    if k in ("bytes", "bytearray"):
        return {"bytes": bytes, "bytearray": bytearray}[k].fromhex(s[1])
    if k == "range":
        return range(*s[1:])
    if k == "slice":
        return slice(*s[1:])
    if k == "td":
        return datetime.timedelta(*s[1:])
    if k == "dt":
        return datetime.datetime(*s[1:])
    if k in ("enum",):
        return list({"Color": Color, "Num": Num}[s[1]])[s[2]]
    if k == "flag":
        return {"Perm": Perm, "IPerm": IPerm}[s[1]](s[2])
    if k == "frac":
        return fractions.Fraction(*s[1:])
    if k == "dec":
        return decimal.Decimal(s[1])
    if k in ("list", "tuple", "deque", "set", "fset"):
        T = {"list": list, "tuple": tuple, "deque": collections.deque, "set": set, "fset": frozenset}[k]
        return T([value(x, memo) for x in s[1]])
    if k in ("dict", "odict", "counter"):
        T = {"dict": dict, "odict": collections.OrderedDict, "counter": collections.Counter}[k]
        return T({value(a, memo): b if k == "counter" else value(b, memo) for a, b in s[1]})
    if k == "ddict":
        return collections.defaultdict([list, None, int][len(s[1]) % 3], {value(a, memo): value(b, memo) for a, b in s[1]})
    if k == "nt":
        return NT(*[value(x, memo) for x in s[1]])
    if k == "dc":
        return DC(value(s[1], memo))
    if k == "share":
        x = value(s[1], memo)
        return [x] * s[2]
    raise AssertionError(k)


def evaluates(text, v):
    """None, or what is wrong with text as an expression for v."""
    import warnings
    env = scope()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = eval(text.replace("attrs_class.<locals>.Att", "Att"), env)
    except Exception as e:
        return f"does not evaluate: {type(e).__name__}: {e}"
    if not same(got, v):
        return f"evaluates to something else: {got!r:.300}"


def complex_inf(s):
    """repr of a complex number with non-finite or negative-zero parts is not an expression for it, in Python itself."""
    if isinstance(s, list):
        if s and s[0] == "complex":
            v = value(s, {})
            return not same(eval(repr(v), {"inf": float("inf"), "nan": float("nan"), "infj": 0, "nanj": 0}), v) if "inf" not in repr(v) and "nan" not in repr(v) else True
        if s and s[0] == "float":
            return False
        return any(complex_inf(x) for x in s)
    return False


def run(case, R):
    if case["kind"] == "pretty":
        from hypothesis.vendor.pretty import pretty
        if complex_inf(case["v"]):
            return
        v = value(case["v"], {})
        STRICT_NAN[0] = '"nt"' not in json.dumps(case["v"])
        text = pretty(v)
        bad = evaluates(text, v)
        R.check(bad is None, lambda: f"pretty({v!r:.500}) = {text[:1500]!r} {bad}")
        R.check(pretty(v) == text, lambda: f"pretty({v!r:.300}) changes from call to call")
        R.nontrivial("\n" in text or "(" in text)
        R.label("pretty")
        return
    if case["kind"] == "graph":
        return run_graph(case, R)
    STRICT_NAN[0] = False
    run_fails(case, R)


def run_graph(case, R):
    from hypothesis.vendor.pretty import pretty
    import types
    objs = []
    for k, _ in case["nodes"]:
        objs.append({"list": list, "tuple": list, "dict": dict, "set": list, "deque": collections.deque, "odict": collections.OrderedDict, "chain": list,
                     "ddict": lambda: collections.defaultdict(list), "plain": Plain, "dc": lambda: DC(0), "sub": lambda: Sub(0), "nt": list, "frozen": list,
                     "att": lambda: attrs_class()(0), "partial": list, "ns": types.SimpleNamespace, "exc": lambda: ValueError(), "boom": Boom,
                     "boomattr": BoomAttr, "lying": Lying, "sublist": L, "counter": collections.Counter, "fset": list, "slots": lambda: Slots(0),
                     "userlist": collections.UserList, "badhash": BadHash}[k]())
    wraps = {"tuple": lambda l: (l,), "nt": lambda l: NT(l, 1), "frozen": lambda l: Frozen(l), "partial": lambda l: functools.partial(pair, l),
             "chain": lambda l: collections.ChainMap({1: l})}
    final = [wraps[k](o) if k in wraps else o for (k, _), o in zip(case["nodes"], objs)]
    for (k, links), o in zip(case["nodes"], objs):
        for i, j in enumerate(links):
            if k in ('lying', 'boom', 'boomattr', 'badhash'):
                continue
            t = final[j % len(final)]
            if isinstance(o, (list, collections.deque, collections.UserList)):
                o.append(t)
            elif isinstance(o, collections.Counter):
                o[i] = 1
            elif isinstance(o, dict):
                o[i] = t
            elif type(o) is Plain:
                o.args += (t,)
            elif type(o) in (DC, Sub):
                o.alpha = t
            elif type(o) is Slots:
                o.aa = t
            elif isinstance(o, types.SimpleNamespace):
                setattr(o, f"a{i}", t)
            elif isinstance(o, ValueError):
                o.args += (t,)
            elif ATTRS and type(o) is ATTRS[0]:
                o.one = t
    x = final[0]
    for i in range(case["deep"]):
        x = [[x], (x,), {1: x}][i % 3] if i < 3 else [x]
    hostile = {k for k, _ in case["nodes"]} & {"boom", "boomattr", "lying", "badhash"}
    try:
        s = pretty(x)
    except RecursionError:
        # what the built-in repr cannot represent either, or what is nested deeper than this implementation's stack allows
        R.label("recursion")
        R.check(case["deep"] >= 200, lambda: f"pretty() exhausted the stack on {case}")
        return
    except (ZeroDivisionError, RuntimeError) as e:
        R.check(bool(hostile), lambda: f"pretty() raised {e!r} on {case}")
        R.label("broken repr")
        return
    R.check(isinstance(s, str), f"pretty returned {s!r}")
    R.nontrivial(len(case["nodes"]) > 2)
    R.label("graph")


# ------------------------------------------------------------------------------------------- failing tests
def strategy(s, n=[0]):
    from hypothesis import strategies as st
    k = s[0]
    if k == "small":
        return st.integers(0, 3)
    if k == "enum":
        return st.sampled_from({"Color": Color, "Num": Num, "Perm": Perm, "IPerm": IPerm}[s[1]])
    simple = {"int": st.integers, "bool": st.booleans, "float": st.floats, "text": st.text, "bytes": st.binary, "none": st.none, "dec": st.decimals,
              "frac": st.fractions, "uuid": st.uuids, "td": st.timedeltas, "dt": st.datetimes, "date": st.dates, "dates": st.dates,
              "complex": lambda: st.complex_numbers(min_magnitude=1, allow_infinity=False, allow_nan=False).filter(lambda c: "-0" not in repr(c) and c.real and c.imag),
              "bigint": lambda: st.integers(10**8, 10**30), "longtext": lambda: st.text("ab", min_size=30, max_size=90)}
    if k in simple:
        return simple[k]()
    if k == "builds":
        a, b = map(strategy, s[2])
        name, how = s[1], s[3]
        if name in ("pair", "ident", "opaque", "Plain.static", "Reprd"):
            f = {"pair": pair, "ident": ident, "opaque": opaque, "Plain.static": Plain.static, "Reprd": Reprd}[name]
            return st.builds(f, a)
        if name == "Plain.make":
            return st.builds(Plain.make, a, key=b) if how else st.builds(Plain.make, a)
        if name == "list":
            return st.builds(list, st.tuples(a, b))
        if name == "partial":
            return st.builds(functools.partial(both, y=1), a)
        if name == "partial0":
            return st.builds(functools.partial, st.just(both), a)
        kw = {"Plain": ("k1", "k2"), "BadRepr": ("v", "w"), "DC": ("alpha", "hidden"), "Sub": ("alpha", "gamma"), "Frozen": ("x", "y"), "NT": ("left", "right"),
              "TNT": ("first", "second"), "Slots": ("aa", "bb"), "Att": ("one", "two"), "both": ("x", "y")}[name]
        f = {"Plain": Plain, "BadRepr": BadRepr, "DC": DC, "Sub": Sub, "Frozen": Frozen, "NT": NT, "TNT": TNT, "Slots": Slots, "Att": attrs_class(), "both": both}[name]
        if how == 0 and name != "Frozen":
            return st.builds(f, a, b)
        if how == 1:
            return st.builds(f, a, **{kw[1]: b})
        return st.builds(f, **{kw[0]: a, kw[1]: b})
    if k == "map":
        e = strategy(s[1])
        if s[2] == "lam":
            return e.map(lambda x: Plain(x, 1))
        if s[2] == "lam2":
            return e.map(lambda x: BadRepr(
                x,
                w=[1, x]))
        if s[2] == "multi":
            return e.map(lambda x: Plain(x)).map(opaque)
        return e.map({"pair": pair, "both": both, "ident": ident, "opaque": opaque, "Plain": Plain, "BadRepr": BadRepr, "DC": DC, "tuple": lambda x: (x,)}[s[2]])
    if k == "flat":
        e = strategy(s[1])
        return e.flatmap({"just": st.just, "lists": lambda x: st.lists(st.just(x), max_size=3), "builds": lambda x: st.builds(Plain, st.just(x), st.integers()),
                          "tup": lambda x: st.tuples(st.just(x), st.booleans())}[s[2]])
    if k == "list":
        return st.lists(strategy(s[1]), max_size=4)
    if k == "tup":
        return st.tuples(*map(strategy, s[1]))
    if k == "dict":
        return st.dictionaries(st.text(max_size=3), strategy(s[1]), max_size=3)
    if k == "fd":
        return st.fixed_dictionaries({"a": strategy(s[1]), 7: st.integers()}, optional={"z": st.booleans()})
    if k == "one":
        return st.one_of(*map(strategy, s[1]))
    if k == "shared":
        sh = st.shared(strategy(s[1]), key="sh" + repr(s))
        return st.tuples(sh, strategy(s[2]), sh)
    if k == "comp":
        return _composite(strategy(s[1]))
    if k == "filter":
        return strategy(s[1]).filter(lambda x: True)
    raise AssertionError(k)


def _composite(e):
    from hypothesis import strategies as st

    @st.composite
    def comp(draw):
        return [draw(e), draw(st.integers(0, 9))]
    return comp()


def skel(x):
    """Something to base the test's verdict on: no addresses."""
    if isinstance(x, (Plain,)):
        return ("P", skel(x.args), skel(x.kwargs))
    if isinstance(x, Slots):
        return ("S", skel(x.aa), skel(x.bb))
    if isinstance(x, (BadRepr, Reprd, DC, Frozen)):
        return skel(vars(x))
    if isinstance(x, (list, tuple)):
        return tuple(map(skel, x))
    if isinstance(x, dict):
        return tuple((k, skel(v)) for k, v in x.items())
    if ATTRS and isinstance(x, ATTRS[0]):
        return (skel(x.one), skel(x._two))
    if isinstance(x, functools.partial):
        return ("p", skel(x.args), skel(x.keywords))
    return repr(x)


def unspeakable(s):
    """Parts of the generated space where the text is known not to be an expression, listed with reasons in DESIGN.md."""
    return False


def run_fails(case, R):
    import hypothesis
    from hypothesis import Phase, Verbosity, given, settings
    from hypothesis.database import InMemoryExampleDatabase
    from vlib.sut import ALL_HC
    import copy

    specs = case["specs"]
    names = "abc"[:len(specs)]
    log = []

    def body(args, p):
        log.append((args, p))
        if E.holds(case["cond"], skel(args)):
            raise ValueError("x")
        if case["multi"] and E.H(skel(args), 5) == 2:
            raise KeyError("y")

    def verdict(args):
        return E.holds(case["cond"], skel(args))

    ns = {"body": body}
    ps = (["p"] if case["extra"] else []) + list(names)
    exec(f"def test({', '.join(ps)}):\n    body(({', '.join(names)},), {'p' if case['extra'] else None})\n", ns)
    phases = [Phase.reuse, Phase.generate, Phase.shrink] + ([Phase.explain] if case["explain"] else [])
    db = InMemoryExampleDatabase()
    t = given(**{c: strategy(s) for c, s in zip(names, specs)})(ns["test"])
    t = E.seeded(case["seed"], settings(max_examples=case["max"], phases=phases, database=db, deadline=None, suppress_health_check=ALL_HC,
                                        verbosity=Verbosity.verbose if case["verbose"] else Verbosity.normal, derandomize=False,
                                        report_multiple_bugs=case["multi"], backend="hypothesis"), t)
    caller = {"p": [1, "x"]} if case["extra"] else {}

    shown = []

    def see(text, args, p):
        bad = None
        env = scope()
        got = []
        env["test"] = lambda **kw: got.append(kw)
        try:
            eval(text.replace("attrs_class.<locals>.Att", "Att"), env)
        except Exception as e:
            bad = f"does not evaluate: {type(e).__name__}: {e}"
        if bad is None:
            want = dict(zip(names, args), **caller)
            if not same([got[0].get(k) for k in sorted(want)], [want[k] for k in sorted(want)]) or set(got[0]) != set(want):
                bad = f"calls the test with something else: {got[0]}"
        return bad

    for i in range(2 if case["replay"] else 1):
        del log[:]
        marks = []
        out = E.Out()

        class Reports(list):
            def append(self, s):
                marks.append((len(log), s))
                super().append(s)
        out.reports = Reports()
        E.run(lambda: t(**caller), out)
        if out.exc is None:
            R.label("passed")
        texts = []
        for at, s in marks:
            for pre in ("Trying example: ", "Falsifying example: "):
                if s.startswith(pre) and at < len(log):
                    texts.append((s[len(pre):], log[at]))
        for text, (args, p) in texts[-12:]:
            bad = see(text, args, p)
            R.check(bad is None, lambda: f"printed {text[:1200]} for {args!r:.600}: {bad} [{specs}]", key=case_key(case, bad))
            R.label("trying")
        for e in out.leaves:
            for note in getattr(e, "__notes__", ()):
                pre = "Falsifying example: "
                if not note.startswith(pre):
                    continue
                text = note[len(pre):]
                shown.append(text)
                # the failing values: the last execution which ended in this error
                cands = [a for a, p in log if (verdict(a) if isinstance(e, ValueError) else not verdict(a) and E.H(skel(a), 5) == 2)]
                bads = [see(text, a, None) for a in cands[::-1]]
                bad = None if not bads or any(b is None for b in bads) else bads[0]
                R.check(bad is None, lambda: f"note {text[:1200]} for {cands[-1]!r:.600}: {bad} [{specs}]", key=case_key(case, bad))
                R.label("falsifying")
        if out.exc is not None:
            R.check(isinstance(out.exc, (ValueError, KeyError, BaseExceptionGroup)) and bool(shown), lambda: f"{specs}: raised {out.exc!r}, notes {getattr(out.exc, '__notes__', None)}")
    R.nontrivial(any("\n" in t.replace("test(\n", "", 1)[:-3] or t.count("(") > 1 for t in shown))


def case_key(case, bad):
    return None
