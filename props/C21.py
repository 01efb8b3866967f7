"""Sequences of byte strings, in all accepted types, fed to fuzz_one_input of a generated test whose behaviour is known for any arguments.
Each call is judged by the execution log: at most one execution; None exactly when nothing ran to completion; the test's own exception; or
canonical bytes which, fed back, execute the same arguments and return themselves.  Afterwards a replay of the database must
report every distinct failure seen.  For small input spaces, random buffers must reach every value."""
from vlib import engine as E
from vlib import spec as S

RULE = ("generated tests (1-3 arguments, or interactive draws) x sequences of up to 24 buffers (random, constant, prefixes, truncations and extensions of "
        "canonical results; bytes, bytearray, memoryview, file objects); non-trivial = at least one buffer was executed and one was rejected or failed")
TECHNIQUE = "fuzzing fuzz_one_input itself with generated tests and byte strings against the execution log, idempotence and database replay"
NOTE = "Coverage of the value space is required for spaces of up to 8 values, with 3000 random buffers."
QUICK, THOROUGH = 1500, 100000


def cases(tier):
    from hypothesis import strategies as st

    buf = st.one_of(
        st.binary(max_size=12), st.binary(min_size=30, max_size=200), st.tuples(st.sampled_from([0, 1, 127, 128, 255]), st.integers(0, 90)).map(lambda t: bytes([t[0]]) * t[1]),
        st.tuples(st.integers(0, 2**32), st.integers(0, 600)).map(list))
    enc = buf.map(lambda b: ["seed", *b] if isinstance(b, list) else ["hex", b.hex()])
    step = st.tuples(st.one_of(enc, enc, st.tuples(st.sampled_from(["ext", "cut", "flip"]), st.integers(0, 60), st.integers(0, 255)).map(list)),
                     st.sampled_from(["bytes", "bytes", "bytearray", "memoryview", "file"])).map(list)
    main = st.fixed_dictionaries({
        "kind": st.just("seq"), "specs": st.one_of(E.small_specs(st, 3), E.specs(st, 3)), "rules": E.rules(st, E.FAILS + ["assume", "reject", "pass"], 4),
        "steps": st.lists(step, min_size=1, max_size=24), "draw": st.booleans(), "db": st.sampled_from([True, True, False])})
    one = st.one_of(
        st.just(["bool"]), st.integers(1, 8).map(lambda k: ["samp", list(range(k))]), st.just(["negfloat"]),
        st.tuples(st.one_of(st.integers(-10, 10), st.integers(-2**70, 2**70)), st.integers(0, 7)).map(lambda t: ["int", t[0], t[0] + t[1]]),
        st.tuples(st.integers(-1, 1), st.integers(0, 2)).map(lambda t: ["list", ["int", t[0], t[0]], 0, t[1]]))
    cover = st.fixed_dictionaries({"kind": st.just("cover"), "spec": one, "seed": st.integers(0, 10**6)})
    return st.one_of(*[main] * 9, cover)


def run(case, R):
    import io
    import random

    from hypothesis import Phase, given
    from hypothesis import strategies as st
    from hypothesis.database import InMemoryExampleDatabase
    from vlib.sut import conf

    if case["kind"] == "cover":
        spec = case["spec"]
        if spec[0] == "negfloat":
            s, want = st.floats(allow_nan=False).map(lambda x: x < 0), {True, False}
        else:
            s = E.build(spec)
            want = {repr(x) for x in S.enum(spec, 100)}
            s = s.map(repr)
        seen = set()

        def test(x):
            seen.add(x)
        f = conf()(given(s)(test)).hypothesis.fuzz_one_input
        rnd = random.Random(case["seed"])
        for i in range(3000):
            f(rnd.randbytes(rnd.choice([1, 8, 20, 50, 400])))
            if seen >= want:
                break
        R.evals(i + 1)
        R.label("cover")
        R.nontrivial(len(want) > 1)
        R.check(seen == want, lambda: f"{case}: buffers produce {sorted(map(str, seen))}, of {sorted(map(str, want))}")
        return

    db = InMemoryExampleDatabase() if case["db"] else None
    out = E.Out()
    test, strats = E.make(case, out)
    if case["draw"]:
        inner, parts = test, strats

        def test(data):
            inner(**{k: data.draw(s) for k, s in parts.items()})
        strats = {"data": st.data()}
    test = conf(database=db, max_examples=1000, report_multiple_bugs=True, phases=[Phase.reuse])(given(**strats)(test))
    fuzz = test.hypothesis.fuzz_one_input
    canonical = b""
    found = {}
    kinds = set()

    def call(buf, how):
        before = len(out.log)
        arg = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview, "file": io.BytesIO}[how](buf)
        exc = res = None
        try:
            res = fuzz(arg)
        except Exception as e:
            exc = e
        new = out.log[before:]
        ctx = lambda: f"{case}: buffer {buf!r} ({how}) executed {new}, returned {res!r}, raised {exc!r}"
        R.check(len(new) <= 1, lambda: f"executed more than once: {ctx()}")
        a = new[0][1] if new else None
        if a is None or a in ("assume", "reject"):
            R.check(res is None and exc is None, lambda: f"invalid buffer not reported as None: {ctx()}")
        elif a == "pass":
            R.check(type(res) is bytes and exc is None, lambda: f"no canonical bytes returned: {ctx()}")
        else:
            R.check(getattr(exc, "tag", None) == a, lambda: f"the test's exception is not re-raised: {ctx()}")
            found[a] = new[0][0]
        kinds.add(a)
        return new, res

    for step, how in case["steps"]:
        if step[0] == "hex":
            buf = bytes.fromhex(step[1])
        elif step[0] == "seed":
            buf = random.Random(step[1]).randbytes(step[2])
        elif step[0] == "ext":
            buf = canonical + bytes([step[2]]) * step[1]
        elif step[0] == "cut":
            buf = canonical[:step[1]]
        else:
            i = step[1] % (len(canonical) or 1)
            buf = canonical[:i] + bytes([step[2]]) + canonical[i + 1:]
        new, res = call(buf, how)
        if res is not None:
            canonical = res
            new2, res2 = call(res, "bytes")
            R.check(E.rep(new2) == E.rep(new), lambda: f"{case}: {buf!r} executed {new}, its canonical form {res!r} executes {new2}")
            R.check(res2 == res, lambda: f"{case}: canonical bytes {res!r} (of {buf!r}) give {res2!r}")
            R.check(len(res) <= len(buf), lambda: f"{case}: canonical form {res!r} of {buf!r} is longer")
    R.evals(len(out.log))
    R.nontrivial(bool(kinds - {None, "assume", "reject"}) and len(kinds) > 1)
    if not case["db"]:
        return
    run2 = E.Out()
    log = out.log
    n = len(log)
    E.run(test, run2)
    R.check(set(found) <= set(run2.tags), lambda: f"{case}: fuzzing failed with {found}, the next run reports {run2.exc!r} {run2.tags} after {log[n:n + 9]}")
    if found:
        R.label("replayed:" + str(min(len(found), 3)))
        run3 = E.Out()
        E.run(test, run3)
        R.check(bool(run3.tags), lambda: f"{case}: fuzzing failed with {found}, but a second run does not fail: {run3.exc!r}")
