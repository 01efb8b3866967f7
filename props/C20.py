"""Three kinds of cases: choice sequences over all types and extreme values through both serialisations; arbitrary and damaged
bytes and blobs through both decoders; and whole failing tests whose printed @reproduce_failure decorator is applied to the same test, to
the test with changed behaviour, to a test with other strategies, with another version or a damaged blob."""
from vlib import engine as E

RULE = ("generated choice sequences, byte strings, damaged encodings and failing tests with their printed blobs; non-trivial = at least 3 choices, or bytes which "
        "decode to some choices, or a blob that was applied")
TECHNIQUE = "property-based testing: round trips over generated choice sequences, fuzzed decoders, and replay of printed blobs against the execution log"
NOTE = "Sequences of up to 60 choices with sizes to 70000; which of DidNotReproduce and InvalidArgument is raised for a damaged blob is not specified."
QUICK, THOROUGH = 4000, 300000


def cases(tier):
    from hypothesis import strategies as st

    big = st.tuples(st.integers(0, 3000), st.integers(-2, 2), st.booleans()).map(lambda t: (2**t[0] + t[1]) * (-1 if t[2] else 1))
    choice = st.one_of(
        st.booleans().map(lambda b: ["t", int(b)]),
        st.one_of(st.integers(), st.integers(-300, 300), big).map(lambda i: ["i", hex(i)]),
        st.one_of(st.integers(0, 2**64 - 1), st.tuples(st.sampled_from([0x7ff0000000000000, 0xfff0000000000000, 0x8000000000000000, 0, 0x7ff8000000000000, 0x3ff0000000000000]),
                                                       st.integers(0, 3)).map(sum)).map(lambda b: ["f", b]),
        st.lists(st.one_of(st.integers(0, 127), st.integers(0xd7ff, 0xe000), st.integers(0, 0x10ffff)), max_size=40).map(lambda l: ["s", l, 1]),
        st.tuples(st.integers(0, 0x10ffff), st.sampled_from([30, 31, 32, 127, 128, 129, 16383, 16384, 65535, 65536, 70000])).map(lambda t: ["s", [t[0]], t[1]]),
        st.binary(max_size=40).map(lambda b: ["b", b.hex(), 1]),
        st.tuples(st.binary(min_size=1, max_size=1), st.sampled_from([30, 31, 32, 127, 128, 129, 16383, 16384, 65536])).map(lambda t: ["b", t[0].hex(), t[1]]))
    seqs = st.lists(choice, max_size=60)
    codec = st.fixed_dictionaries({"kind": st.just("codec"), "cs": seqs})
    edit = st.tuples(st.sampled_from(["set", "ins", "del", "cut", "dup"]), st.integers(0, 500), st.integers(0, 255)).map(list)
    junk = st.fixed_dictionaries({
        "kind": st.just("junk"), "cs": st.lists(choice, max_size=6), "raw": st.one_of(st.none(), st.binary(max_size=60).map(lambda b: b.hex())),
        "edits": st.lists(edit, max_size=4), "where": st.sampled_from(["bytes", "payload0", "payload1", "zipped", "blob"])})
    mods = st.lists(st.one_of(
        st.just(["same"]), E.rules(st, ["E3", "E6", "assume", "reject", "pass"], 3).map(lambda r: ["rules", r]), st.just(["rules", []]), st.just(["rules", [[["all"], "assume"]]]),
        E.specs(st, 3).map(lambda s: ["specs", s]), st.sampled_from(["0.0.0", "6.131.5", "", "6.131.6 "]).map(lambda v: ["version", v]),
        st.lists(edit, min_size=1, max_size=3).map(lambda e: ["damage", e])), min_size=1, max_size=4)
    repro = st.fixed_dictionaries({
        "kind": st.just("repro"), "specs": E.specs(st, 3), "rules": E.rules(st, E.FAILS + ["assume"], 3).filter(lambda r: any(a.startswith("E") for c, a in r)),
        "mods": mods, "draw": st.booleans(), "multi": st.booleans(), "seed": st.integers(0, 10**6), "shrink": st.booleans()})
    return st.one_of(codec, codec, junk, junk, junk, repro)


def edited(b, edits):
    b = bytearray(b)
    for op, i, v in edits:
        i = i % (len(b) + 1)
        if op == "ins" or i == len(b):
            b.insert(i, v)
        elif op == "set":
            b[i] = v
        elif op == "del":
            del b[i]
        elif op == "cut":
            del b[i:]
        else:
            b[i:i] = b[:i]
    return bytes(b)


def same(a, b):
    import struct
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return False
        if (struct.pack("!d", x) != struct.pack("!d", y)) if isinstance(x, float) else x != y:
            return False
    return True


def run(case, R):
    import base64
    import struct
    import zlib

    from hypothesis.core import decode_failure, encode_failure
    from hypothesis.database import choices_from_bytes, choices_to_bytes
    from hypothesis.errors import DidNotReproduce, InvalidArgument

    def dec(c):
        k = c[0]
        return (bool(c[1]) if k == "t" else int(c[1], 16) if k == "i" else struct.unpack("!d", c[1].to_bytes(8, "big"))[0] if k == "f"
                else "".join(map(chr, c[1])) * c[2] if k == "s" else bytes.fromhex(c[1]) * c[2])

    if case["kind"] != "repro":
        cs = [dec(c) for c in case["cs"]]
        R.evals()

    if case["kind"] == "codec":
        for arg in (cs, tuple(cs)):
            b = choices_to_bytes(arg)
            R.check(type(b) is bytes, lambda: f"{case}: encoded as {type(b)}")
            back = choices_from_bytes(b)
            R.check(back is not None and same(back, cs), lambda: f"{cs!r} encodes to {b[:100]!r}, decodes to {back!r}"[:2000])
            blob = encode_failure(arg)
            R.check(type(blob) is bytes, lambda: f"{case}: blob {type(blob)}")
            back = decode_failure(blob)
            R.check(same(back, cs), lambda: f"{cs!r} has blob {blob[:100]!r}, decodes to {back!r}"[:2000])
        R.nontrivial(len(cs) >= 3)
        return

    if case["kind"] == "junk":
        raw = choices_to_bytes(cs) if case["raw"] is None else bytes.fromhex(case["raw"])
        w = case["where"]
        raw = edited(raw, case["edits"]) if w != "zipped" and w != "blob" else raw
        got = None
        if w == "bytes":
            got = choices_from_bytes(raw)
        else:
            payload = {"payload0": b"\0" + raw, "payload1": b"\1" + raw, "zipped": b"\1" + edited(zlib.compress(raw), case["edits"]), "blob": b"\0" + raw}[w]
            blob = base64.b64encode(payload)
            if w == "blob":
                blob = edited(blob, case["edits"])
            try:
                got = decode_failure(blob)
            except InvalidArgument:
                R.label("invalid blob")
        if got is None:
            R.label("rejected")
            return
        R.check(isinstance(got, tuple) and all(type(c) in (bool, int, float, str, bytes) for c in got), lambda: f"{raw!r} ({w}) decodes to {got!r}")
        again = choices_from_bytes(choices_to_bytes(got))
        R.check(again is not None and same(again, got), lambda: f"{raw!r} ({w}) decodes to {got!r}, which round-trips to {again!r}")
        R.nontrivial(len(got) > 0)
        R.label("decoded")
        return

    from hypothesis import Phase, __version__, given, reproduce_failure, settings
    from hypothesis import strategies as st
    from vlib.sut import ALL_HC

    def make(case, out):
        test, strats = E.make(case, out)
        if not case["draw"]:
            return given(**strats)(test)

        def dtest(data):
            test(**{k: data.draw(s) for k, s in strats.items()})
        return given(data=st.data())(dtest)

    conf = dict(max_examples=60, deadline=None, database=None, suppress_health_check=ALL_HC, report_multiple_bugs=case["multi"], derandomize=False,
                phases=[Phase.generate] + [Phase.shrink] * case["shrink"], backend="hypothesis")
    out = E.Out()
    E.run(E.seeded(case["seed"], settings(**conf, print_blob=True), make(case, out)), out)
    if not out.tags or None in out.tags:
        R.check(not out.failed, lambda: f"{case}: {out.exc!r}")
        R.label("no failure")
        return
    last = out.log[-len(out.leaves):]
    for (args, act), exc, tag in zip(last, out.leaves, out.tags):
        deco = [n[n.index("@reproduce_failure(") + 1:n.index(") as a decorator") + 1] for n in exc.__notes__ if "@reproduce_failure(" in n]
        R.check(len(deco) == 1 and act == tag, lambda: f"{case}: {len(deco)} decorators printed for {exc!r}: {exc.__notes__}")
        version, blob = eval(deco[0], {"reproduce_failure": lambda *a: a})
        R.check(version == __version__ and type(blob) is bytes, lambda: f"{case}: printed {deco[0]}")
        for mod in [["same"]] + case["mods"]:
            c2, v2, b2 = case, version, blob
            if mod[0] in ("rules", "specs"):
                c2 = dict(case, **{mod[0]: mod[1]})
            elif mod[0] == "version":
                v2 = mod[1]
            elif mod[0] == "damage":
                b2 = edited(blob, mod[1])
            o = E.Out()
            E.run(settings(**conf)(reproduce_failure(v2, b2)(make(c2, o))), o)
            ctx = lambda: f"{case}: {deco[0]} of {args!r} ({tag}), applied after {mod} executes {o.log} and raises {o.exc!r}"
            R.check(len(o.log) <= 1, lambda: f"several executions: {ctx()}")
            R.evals()
            if mod[0] == "same":
                R.check([E.rep(a) for a, b in o.log] == [E.rep(args)] and o.tags == [tag], lambda: f"not reproduced: {ctx()}")
            elif mod[0] == "rules":
                R.check([E.rep(a) for a, b in o.log] == [E.rep(args)], lambda: f"not re-executed: {ctx()}")
                now = o.log[0][1]
                if now.startswith("E"):
                    R.check(o.tags == [now], lambda: f"the new failure is not raised: {ctx()}")
                else:
                    R.check(isinstance(o.exc, DidNotReproduce), lambda: f"should not reproduce: {ctx()}")
            elif mod[0] == "version":
                R.check(isinstance(o.exc, InvalidArgument) and not o.log, lambda: f"another version accepted: {ctx()}")
            else:
                ok = isinstance(o.exc, (DidNotReproduce, InvalidArgument)) or (o.log and o.tags == [o.log[0][1]])
                R.check(ok, lambda: f"unexpected outcome: {ctx()}")
            R.label(mod[0])
    R.nontrivial()
