"""Helpers running inside the worker, against the Hypothesis under test."""
import random
import warnings
import zlib

import hypothesis
import hypothesis.errors
from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings
from hypothesis.database import InMemoryExampleDatabase

ALL_HC = list(HealthCheck)
MODES = ["gen", "shrink", "fuzz", "replay"]


def conf(**kw):
    kw.setdefault("database", None)
    kw.setdefault("deadline", None)
    kw.setdefault("suppress_health_check", ALL_HC)
    kw.setdefault("phases", [Phase.generate])
    kw.setdefault("derandomize", False)
    kw.setdefault("verbosity", Verbosity.quiet)
    kw.setdefault("backend", "hypothesis")
    return settings(**kw)


class Fail(Exception):
    pass


class Bad:
    """First objection raised by a per-value check."""

    def __init__(self):
        self.msg = None
        self.n = 0


def drive(strategy, check, R, *, n=25, s=0, mode="gen", blobs=(), what="", unsat_ok=False):
    """Run `strategy` under the engine in the given mode, applying check(value) -> None or message to every value
    the test body ever sees.  Returns the list of reprs' hashes seen (so callers can tell how much was explored)."""
    bad = Bad()
    seen = []

    def look(x):
        bad.n += 1
        if bad.msg is None:
            try:
                m = check(x)
            except hypothesis.errors.UnsatisfiedAssumption:
                raise
            except Exception as e:
                m = f"judging {x!r} raised {type(e).__name__}: {e} {e.__traceback__.tb_next and e.__traceback__.tb_next.tb_lineno}"
            if m is not None:
                bad.msg = f"{m} [mode {mode}]"
        h = zlib.crc32(repr(x).encode("utf-8", "surrogatepass"))
        seen.append(h)
        return h

    def run(f):
        try:
            return quiet(f)
        except hypothesis.errors.Unsatisfiable:
            if not unsat_ok:
                raise

    if mode == "gen":
        @seed(s)
        @conf(max_examples=n)
        @given(strategy)
        def test(x):
            look(x)
        run(test)
    elif mode == "shrink":
        @seed(s)
        @conf(max_examples=n, phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False)
        @given(strategy)
        def test(x):
            if look(x) % 3 == s % 3:
                raise Fail
        try:
            run(test)
        except Fail:
            pass
    elif mode == "fuzz":
        @conf(max_examples=n)
        @given(strategy)
        def test(x):
            look(x)
        f = test.hypothesis.fuzz_one_input
        rnd = random.Random(s)
        for b in blobs:
            f(b)
        for i in range(n - len(blobs)):
            k = rnd.choice([0, 1, 2, 8, 20, 100, 400])
            if rnd.random() < 0.3:
                buf = bytes(rnd.choice([0, 255, 1, 128]) for _ in range(k))
            else:
                buf = rnd.randbytes(k)
            f(buf)
    elif mode == "replay":
        db = InMemoryExampleDatabase()
        key = b"verif"
        fail = [True]

        def body(x):
            if look(x) % 3 == s % 3 and fail[0]:
                raise Fail
        body.__name__ = "test"
        test = given(strategy)(body)
        test._hypothesis_internal_database_key = key
        test = conf(max_examples=n, database=db, phases=[Phase.reuse, Phase.generate], report_multiple_bugs=False)(seed(s)(test))
        try:
            run(test)
        except Fail:
            pass
        # corrupt the stored choices, then replay them
        from hypothesis.database import choices_from_bytes, choices_to_bytes

        fail[0] = False
        rnd = random.Random(s)
        for k in list(db.data):
            for v in list(db.data[k]):
                cs = choices_from_bytes(v)
                if cs is None:
                    continue
                for _ in range(n):
                    db.save(key, choices_to_bytes(mutate(list(cs), rnd)))
        run(test)
    else:
        raise AssertionError(mode)
    if bad.msg is not None:
        R.fail(f"{what}: {bad.msg}")
    R.evals(bad.n)
    return seen


EXTREME = [0, 1, -1, 2**64, -2**64, 255, 256, 0.0, -0.0, float("inf"), float("-inf"), float("nan"), 5e-324, 1e-310, 1.5,
           1.7976931348623157e308, -5e-324, 65504.0, 65519.0, 3.4e38, True, False, "", "a", "\ud800", "\U0010ffff", "0" * 30, b"", b"\0", b"\xff" * 20]


def mutate(cs, rnd):
    for _ in range(rnd.randint(1, 3)):
        r = rnd.random()
        if not cs or r < 0.1:
            cs.insert(rnd.randint(0, len(cs)), rnd.choice(EXTREME))
        elif r < 0.2:
            del cs[rnd.randrange(len(cs))]
        elif r < 0.3:
            i, j = rnd.randrange(len(cs)), rnd.randrange(len(cs))
            cs[i], cs[j] = cs[j], cs[i]
        elif r < 0.45:
            cs[rnd.randrange(len(cs))] = rnd.choice(EXTREME)
        else:
            i = rnd.randrange(len(cs))
            c = cs[i]
            if isinstance(c, bool):
                cs[i] = not c
            elif isinstance(c, int):
                cs[i] = rnd.choice([c + 1, c - 1, -c, c * 2, c // 2, rnd.randint(-10, 10), 2**70])
            elif isinstance(c, float):
                cs[i] = rnd.choice([c * 2, -c, c / 2, c + 1, float(rnd.randint(-9, 9)), float("nan"), float("inf"), 5e-324])
            elif isinstance(c, str):
                cs[i] = rnd.choice([c + c, c[:-1], c + "\ud800", c[::-1], c + "0"])
            else:
                cs[i] = rnd.choice([c + c, c[:-1], c + b"\xff", c[::-1]])
    return cs


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **kw)
