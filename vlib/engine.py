"""Generated @given tests with a known behaviour, run whole, with every execution of the body recorded.

A case is {"specs": [...], "rules": [[cond, action], ...], ...}; the body computes the action for its arguments from the
rules (first match; default pass) - so the harness knows for any arguments what the test does.
"""
import contextlib
import unittest
import zlib

from vlib import spec as S


# ---------------------------------------------------------------- reference-side generators
def specs(st, n=2):
    leaf = st.one_of(
        st.just(["bool"]),
        st.tuples(st.integers(-20, 5), st.integers(0, 60)).map(lambda t: ["int", t[0], t[0] + t[1]]),
        st.just(["int", -10**9, 10**9]), st.just(["anyint"]),
        st.integers(1, 6).map(lambda k: ["samp", list(range(k))]),
        st.tuples(st.sampled_from(["a", "ab", "abc01"]), st.integers(0, 2), st.integers(0, 4)).map(lambda t: ["text", t[0], t[1], t[1] + t[2]]),
        st.just(["float"]), st.just(["anytext"]), st.just(["bytes"]))
    coll = st.one_of(
        leaf, leaf,
        st.tuples(leaf, st.integers(0, 1), st.integers(0, 5)).map(lambda t: ["list", t[0], t[1], t[1] + t[2]]),
        st.lists(leaf, max_size=3).map(lambda l: ["tuple", l]),
        st.lists(leaf, min_size=1, max_size=3).map(lambda l: ["one", l]),
        st.tuples(leaf, st.sampled_from(["h3", "h2"])).map(lambda t: ["filter", t[0], t[1]]),
        st.tuples(leaf, st.sampled_from(["dup", "int", "list"])).map(lambda t: ["flat", t[0], t[1]]))
    return st.lists(coll, min_size=1, max_size=n)


def small_specs(st, n=2):
    leaf = st.one_of(
        st.just(["bool"]), st.tuples(st.integers(-4, 3), st.integers(0, 9)).map(lambda t: ["int", t[0], t[0] + t[1]]),
        st.integers(1, 4).map(lambda k: ["samp", list(range(k))]))
    coll = st.one_of(leaf, leaf, st.tuples(leaf, st.integers(0, 1), st.integers(0, 2)).map(lambda t: ["list", t[0], t[1], t[1] + t[2]]),
                     st.lists(leaf, max_size=2).map(lambda l: ["tuple", l]))
    return st.lists(coll, min_size=1, max_size=n)


def conds(st):
    return st.one_of(
        st.sampled_from([2, 3, 5, 20]).flatmap(lambda k: st.tuples(st.just("h"), st.just(k), st.integers(0, k - 1)).map(list)),
        st.integers(0, 40).map(lambda n: ["ge", n]), st.integers(0, 10).map(lambda n: ["le", n]), st.just(["all"]))


FAILS = ["E0", "E1", "E2", "E3", "E4", "E5", "E6", "E7", "E8", "E9", "EA", "EB"]


def rules(st, actions, max_size=4):
    return st.lists(st.tuples(conds(st), st.sampled_from(actions)).map(list), max_size=max_size)


# ---------------------------------------------------------------- behaviour
class Custom(Exception):
    pass


def size(x):
    if isinstance(x, (int, float)):
        return min(abs(x), 10**6) if x == x else 3
    if isinstance(x, (str, bytes)):
        return len(x)
    if x is None:
        return 0
    if isinstance(x, dict):
        return len(x) + sum(map(size, x.items()))
    return len(x) + sum(map(size, x))


def rep(args):
    return repr(args)


def H(x, k):
    return zlib.crc32(repr(x).encode("utf-8", "surrogatepass")) % k


def holds(cond, args):
    k = cond[0]
    if k == "h":
        return H(args, cond[1]) == cond[2]
    if k == "ge":
        return size(args) - len(args) >= cond[1]
    if k == "le":
        return size(args) - len(args) <= cond[1]
    return True


def action(rules, args):
    for c, a in rules:
        if holds(c, args):
            return a
    return "pass"


def tagged(e, tag):
    e.tag = tag
    return e


def act(a, args):
    """Perform the action (each failure kind has its own line / type / chain)."""
    if a == "assume":
        from hypothesis import assume
        assume(False)
    elif a == "reject":
        from hypothesis import reject
        reject()
    elif a == "E0":
        raise tagged(ValueError("zero"), "E0")
    elif a == "E1":
        raise tagged(ValueError("zero"), "E1")
    elif a == "E2":
        raise tagged(KeyError("two"), "E2")
    elif a == "E3":
        try:
            {}[1]
        except KeyError as e:
            raise_e34("E3", e)
    elif a == "E4":
        try:
            int("x")
        except ValueError as e:
            raise_e34("E4", e)
    elif a == "E5":
        e = AssertionError(rep(args)[:50])
        raise tagged(e, "E5")
    elif a == "E6":
        raise tagged(Custom("six"), "E6")
    elif a in ("E7", "E8"):
        raise tagged({"E7": IndexError, "E8": TypeError}[a]("same line"), a)
    elif a in ("E9", "EA", "EB"):
        # the same type and line, told apart only by what was being handled
        try:
            if a == "E9":
                {}[1]
            elif a == "EA":
                int("x")
            else:
                [][2]
        except Exception:
            raise tagged(RuntimeError("context"), a)
    elif a == "skip":
        raise unittest.SkipTest("skip")


def raise_e34(tag, cause):
    raise tagged(ValueError("chained"), tag) from cause


def build(spec):
    from hypothesis import strategies as st
    k = spec[0]
    if k == "float":
        return st.floats(allow_nan=False)
    if k == "anyint":
        return st.integers()
    if k == "anytext":
        return st.text()
    if k == "bytes":
        return st.binary()
    if k in ("list",):
        return st.lists(build(spec[1]), min_size=spec[2], max_size=spec[3])
    if k == "tuple":
        return st.tuples(*map(build, spec[1]))
    if k == "one":
        return st.one_of(*map(build, spec[1]))
    if k == "filter":
        return build(spec[1]).filter(S.PREDS[spec[2]])
    if k == "flat":
        return build(spec[1]).flatmap(lambda x: S.build(S.flat_spec(spec[2], x)))
    return S.build(spec)


def seeded(s, conf, f):
    """@seed drops the database, so the settings go on top of it."""
    import hypothesis
    return conf(hypothesis.seed(s)(f))


class Out:
    exc = None

    def __init__(self):
        self.log = []          # (args, action) of every execution, in order
        self.reports = []

    @property
    def leaves(self):
        def walk(e):
            if isinstance(e, BaseExceptionGroup):
                for s in e.exceptions:
                    yield from walk(s)
            else:
                yield e
        return list(walk(self.exc)) if self.exc is not None else []

    @property
    def tags(self):
        return [getattr(e, "tag", None) for e in self.leaves]

    def kinds(self, k):
        return [a for a, b in self.log if b == k]

    @property
    def failed(self):
        return [(a, b) for a, b in self.log if b.startswith("E")]


@contextlib.contextmanager
def reporting(out):
    from hypothesis.reporting import with_reporter
    with with_reporter(lambda t: out.reports.append(t)):
        yield


def make(case, out, extra=None):
    """The undecorated test function and its strategies."""
    rules, n = case["rules"], len(case["specs"])
    names = "abcdef"[:n]

    def body(args):
        x = action(rules, args)
        out.log.append((args, x))
        if extra is not None:
            extra(args, x)
        act(x, args)

    ns = {"body": body}
    src = f"def test({', '.join(names)}):\n    body(({', '.join(names)},))\n"
    exec(src, ns)
    test = ns["test"]
    return test, {c: build(s) for c, s in zip(names, case["specs"])}


def run(f, out, *args, **kw):
    """Call f; record what it raises (anything but harness interrupts)."""
    import warnings
    with warnings.catch_warnings(), reporting(out):
        warnings.simplefilter("ignore")
        try:
            f(*args, **kw)
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            out.exc = e
    return out


def shown(e):
    """The arguments printed in the falsifying-example note(s) of e, as a dict, or None."""
    from hypothesis import __version__  # noqa: F401
    for note in getattr(e, "__notes__", ()):
        for p in ("Falsifying example: ", "Falsifying explicit example: "):
            if note.startswith(p):
                env = {"test": lambda **kw: kw, "inf": float("inf"), "nan": float("nan")}
                return eval(note[len(p):], env)
    return None
