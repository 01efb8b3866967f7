"""Standard objects against independent definitions: UUID version and variant bits; IP addresses against the requested version
and network; domains, e-mail addresses and URLs against hand-written grammars with their documented lengths; slices by indexing a
real sequence; functions() by calling the generated function like its model (Python's own binding decides what is legal,
repeated equal calls must agree when pure, results must come from `returns`); Random objects by generated histories of method
calls, seed/getstate/setstate/copy, each result judged by the contract of that random.Random method and repeated after a
restored state."""
import ipaddress
import math
import re
import urllib.parse
import uuid as U

RULE = ("generated argument combinations, choice sequences (generated, replayed after mutation, fuzzed) and histories of up to 14 method calls on generated "
        "Random objects and functions; non-trivial = at least 5 values or calls judged")
TECHNIQUE = "property-based testing against independent grammars and method contracts, with generated call histories on the generated objects"
NOTE = "Random contracts: ranges, membership, sizes, permutation, and reproduction of results after setstate/seed/copy."
QUICK, THOROUGH = 4000, 60000


def cases(tier):
    from hypothesis import strategies as st
    from vlib import gens
    from vlib.sut import MODES

    fl = st.one_of(st.integers(-5, 5).map(float), st.floats(-1e6, 1e6), st.sampled_from([0.0, -0.0, 1e-300, 1e300]))
    seq = st.integers(1, 6)
    op = st.one_of(
        st.just(["random"]), st.tuples(fl, fl).map(lambda t: ["uniform", *t]),
        st.tuples(st.integers(-20, 20), st.integers(0, 40)).map(lambda t: ["randint", t[0], t[0] + t[1]]),
        st.tuples(st.integers(-20, 20), st.integers(1, 40), st.integers(1, 9), st.booleans()).map(
            lambda t: ["randrange", t[0], t[0] + t[1], t[2]] if t[3] else ["randrange", t[0] + t[1], t[0], -t[2]]),
        st.integers(1, 30).map(lambda n: ["randrange1", n]), seq.map(lambda n: ["choice", n]),
        st.tuples(seq, st.integers(0, 6)).map(lambda t: ["choices", *t]), st.tuples(seq, st.integers(0, 6)).map(lambda t: ["sample", t[0], min(t)]),
        seq.map(lambda n: ["shuffle", n]), st.integers(0, 70).map(lambda n: ["getrandbits", n]), st.integers(0, 9).map(lambda n: ["randbytes", n]),
        st.tuples(fl, st.floats(0, 1e6), st.floats(0, 1)).map(lambda t: ["triangular", t[0], t[0] + t[1], t[2]]),
        st.sampled_from([["betavariate"], ["expovariate"], ["gammavariate"], ["gauss"], ["lognormvariate"], ["normalvariate"], ["paretovariate"],
                         ["vonmisesvariate"], ["weibullvariate"]]), st.integers(0, 20).map(lambda n: ["binomialvariate", n]),
        st.sampled_from([["getstate"], ["getstate"], ["setstate", 0], ["setstate", 1], ["seed", 1], ["seed", 2], ["copy"], ["copy"], ["weights"], ["counts"]]),
        st.integers(0, 5).map(lambda i: ["again", i]))
    op = st.one_of(op, op.filter(lambda o: o[0] not in ("getstate", "setstate", "seed", "copy", "again", "weights", "counts")).map(lambda o: ["probe", o]))
    rnd = st.fixed_dictionaries({"what": st.just("random"), "true": st.booleans(), "ops": st.lists(op, min_size=1, max_size=14), "note": st.booleans()})
    fn = st.fixed_dictionaries({"what": st.just("function"), "like": st.sampled_from(["()", "(a)", "(a, b=1)", "(*a)", "(a, /, b)", "(a, *, k)", "(a, **kw)", "(a, *r, k=2)"]),
                                "pure": st.booleans(), "ret": st.booleans(),
                                "calls": st.lists(st.tuples(st.lists(st.integers(0, 2), max_size=3), st.dictionaries(st.sampled_from("abkz"), st.integers(0, 2), max_size=2)).map(list),
                                                  min_size=2, max_size=8)})
    simple = st.one_of(
        st.tuples(st.just("uuid"), st.sampled_from([None, 1, 2, 3, 4, 5]), st.booleans()).map(list),
        st.one_of(st.sampled_from([["ip", None, None], ["ip", 4, None], ["ip", 6, None]]),
                  st.tuples(st.integers(0, 2**32 - 1), st.integers(0, 32)).map(lambda t: ["ip", None, str(ipaddress.IPv4Network((t[0], t[1]), strict=False))]),
                  st.tuples(st.integers(0, 2**128 - 1), st.integers(0, 128)).map(lambda t: ["ip", None, str(ipaddress.IPv6Network((t[0], t[1]), strict=False))])),
        st.tuples(st.just("domain"), st.one_of(st.integers(4, 30), st.integers(4, 255)), st.one_of(st.integers(1, 6), st.integers(1, 63))).map(list),
        st.sampled_from([["email", False], ["email", True], ["url"]]), st.one_of(st.integers(0, 8), st.integers(0, 1000)).map(lambda n: ["slice", n]))
    val = st.fixed_dictionaries({"what": st.just("value"), "spec": simple, "mode": st.sampled_from(MODES)})
    base = st.fixed_dictionaries({"seed": gens.seeds()})
    return st.tuples(st.one_of(rnd, val, fn, rnd), base).map(lambda t: {**t[0], **t[1]})


LABEL = re.compile(r"[a-zA-Z]([a-zA-Z0-9-]*[a-zA-Z0-9])?\Z")


def domain_ok(d, maxlen=255, maxel=63):
    if len(d) > maxlen:
        return f"domain {d!r} longer than {maxlen}"
    *labels, tld = d.split(".")
    if not labels and maxlen >= maxel + len(tld) + 1:     # otherwise the first label drawn may not fit
        return f"{d!r} has a single label"
    for x in labels:
        if not LABEL.match(x) or len(x) > maxel:
            return f"bad label {x!r} in {d!r}"
    if not re.match(r"([a-zA-Z]+|[xX][nN]--[a-zA-Z0-9-]+)\Z", tld) or len(tld) < 2:
        return f"bad top-level domain in {d!r}"


def value_ok(spec):
    k = spec[0]
    if k == "uuid":
        def f(x):
            if not isinstance(x, U.UUID):
                return f"{x!r} is no UUID"
            if x.int == 0 and spec[2]:
                return None
            if x.int == 0 and spec[1] is None:
                return "the nil UUID (one chance in 2**128)"
            if spec[1] is not None and (x.version != spec[1] or (x.int >> 76) & 15 != spec[1] or (x.int >> 62) & 3 != 2):
                return f"{x!r} is not of version {spec[1]}"
        return f
    if k == "ip":
        def f(x):
            if spec[1] and type(x).__name__ != f"IPv{spec[1]}Address" or not isinstance(x, (ipaddress.IPv4Address, ipaddress.IPv6Address)):
                return f"{x!r} is not an IPv{spec[1]} address"
            if spec[2] and x not in ipaddress.ip_network(spec[2]):
                return f"{x!r} outside {spec[2]}"
        return f
    if k == "domain":
        return lambda x: domain_ok(x, spec[1], spec[2])
    if k == "email":
        def f(x):
            local, _, dom = x.rpartition("@")
            if not re.match(r"[a-zA-Z0-9!#$%&'*+\-/=?^_`{|}~]{1,64}\Z", local) or len(x) > 254:
                return f"bad address {x!r}"
            return (None if dom in ("a.example", "b.example") else f"domain of {x!r}") if spec[1] else domain_ok(dom)
        return f
    if k == "url":
        def f(x):
            m = re.match(r"(https?)://([^/:]+)(?::(\d+))?(/[^#]*)(?:#(.*))?\Z", x, re.S)
            if not m:
                return f"bad URL {x!r}"
            bad = domain_ok(m[2])
            if bad:
                return bad
            if m[3] is not None and not 0 <= int(m[3]) <= 65535:
                return f"bad port in {x!r}"
            for part in (m[4], m[5] or ""):
                if re.search(r"%(?![0-9A-Fa-f]{2})", part) or re.search(r"[^a-zA-Z0-9$\-_.+!*'(),~%/?]", part):
                    return f"unescaped character in {x!r}"
            if re.search(r"[?]", m[4]):
                return f"query in the path of {x!r}"
            p = urllib.parse.urlsplit(x)
            if p.hostname != m[2].lower() or (p.port or None) != (int(m[3]) or None if m[3] else None):
                return f"urlsplit disagrees on {x!r}"
        return f
    n = spec[1]

    def f(x):
        if not isinstance(x, slice) or x.step == 0:
            return f"{x!r}"
        if n == 0:
            return None if x.start is None and x.stop is None else f"{x!r} for an empty sequence"
        if x.start is not None and not -n <= x.start <= n - 1:
            return f"start of {x!r} outside the size {n}"
        if x.stop is not None and not -n <= x.stop <= n:
            return f"stop of {x!r} outside the size {n}"
        if x.step is not None and abs(x.step) > n:
            return f"step of {x!r} beyond the size {n}"
    return f


def build(spec):
    from hypothesis import provisional, strategies as st
    k = spec[0]
    if k == "uuid":
        return st.uuids(version=spec[1], allow_nil=spec[2] and spec[1] is None)
    if k == "ip":
        return st.ip_addresses(v=spec[1], **({"network": spec[2]} if spec[2] else {}))
    if k == "domain":
        return provisional.domains(max_length=spec[1], max_element_length=spec[2])
    if k == "email":
        return st.emails(domains=st.sampled_from(["a.example", "b.example"])) if spec[1] else st.emails()
    if k == "url":
        return provisional.urls()
    return st.slices(spec[1])


def judge(op, r, out):
    """Is `out` something random.Random could return (ideal real arithmetic) for this call?"""
    k = op[0]
    num = isinstance(out, float) and not math.isnan(out)
    if k == "random":
        return num and 0 <= out < 1
    if k == "uniform":
        return num and min(op[1:]) <= out <= max(op[1:])
    if k == "randint":
        return type(out) is int and op[1] <= out <= op[2]
    if k == "randrange":
        return type(out) is int and out in range(*op[1:])
    if k == "randrange1":
        return type(out) is int and out in range(op[1])
    if k == "choice":
        return out in population(op[1])
    if k == "choices":
        return type(out) is list and len(out) == op[2] and all(x in population(op[1]) for x in out)
    if k == "sample":
        return type(out) is list and len(out) == op[2] == len(set(out)) and all(x in population(op[1]) for x in out)
    if k == "shuffle":
        return sorted(out) == sorted(population(op[1]))
    if k == "getrandbits":
        return type(out) is int and 0 <= out < 2 ** op[1]
    if k == "randbytes":
        return type(out) is bytes and len(out) == op[1]
    if k == "triangular":
        return num and op[1] <= out <= op[2]
    if k == "betavariate":
        return num and 0 <= out <= 1
    if k == "paretovariate":
        return num and out >= 1
    if k in ("expovariate", "lognormvariate", "gammavariate", "weibullvariate"):
        return num and out >= 0
    if k in ("gauss", "normalvariate"):
        return num
    if k == "vonmisesvariate":
        return num and 0 <= out <= 2 * math.pi
    if k == "binomialvariate":
        return type(out) is int and 0 <= out <= op[1]


def vary(op):
    k = op[0]
    if k == "sample":
        return [k, op[1], op[2] - 1 if op[2] else op[1]]
    if k == "choices":
        return [k, op[1], op[2] + 2]
    if k in ("choice", "shuffle", "getrandbits", "randbytes", "binomialvariate"):
        return [k, op[1] // 2 if op[1] > 1 else op[1] + 3]
    if k == "randrange1":
        return [k, max(1, op[1] // 3)]
    if k in ("randint", "uniform", "randrange", "triangular"):
        return [k, op[1] + 1000, op[2] + 1000] + op[3:]
    return op


def population(n):
    return [f"p{n}-{i}" for i in range(n)]


def call(r, op):
    k = op[0]
    if k in ("choice", "choices", "sample"):
        p = population(op[1])
        return r.choice(p) if k == "choice" else r.choices(p, k=op[2]) if k == "choices" else r.sample(p, op[2])
    if k == "shuffle":
        p = population(op[1])
        assert r.shuffle(p) is None
        return p
    if k == "randrange1":
        return r.randrange(op[1])
    if k == "triangular":
        return r.triangular(op[1], op[2], op[1] + (op[2] - op[1]) * op[3]) if op[3] else r.triangular(op[1], op[2])
    args = {"betavariate": (1, 2), "expovariate": (1,), "gammavariate": (1, 2), "gauss": (0, 1), "lognormvariate": (0, 1), "normalvariate": (0, 1),
            "paretovariate": (2,), "vonmisesvariate": (1, 2), "weibullvariate": (1, 2)}.get(k)
    if k == "binomialvariate":
        args = (op[1], 0.5)
    return getattr(r, k)(*(op[1:] if args is None else args))


def run(case, R):
    from hypothesis import Phase, given, strategies as st
    from vlib import engine as E
    from vlib.sut import conf, drive

    if case["what"] == "value":
        n = {"url": 12, "email": 15, "domain": 15}.get(case["spec"][0], 25)
        seen = drive(build(case["spec"]), value_ok(case["spec"]), R, n=n, s=case["seed"], mode=case["mode"], what=str(case["spec"]))
        R.nontrivial(len(seen) >= 5)
        R.label(case["spec"][0])
        return
    if case["what"] == "function":
        return run_function(case, R)
    bad, known = [], {}

    def test(r):
        cur, states, hist, seeded = r, [], [], {}
        done = []
        since = replay = None      # record of the calls made since the current state became known; what they should repeat
        for op in case["ops"]:
            if op[0] == "again":
                if not done:
                    continue
                op = done[op[1] % len(done)]
            if op[0] == "probe":
                # the same state, asked for something else, and then for the same again
                state = cur.getstate()
                a = call(cur, op[1])
                for o in (vary(op[1]), op[1]):
                    cur.setstate(state)
                    b = call(cur, o)
                    if not judge(o, cur, b):
                        bad.append(f"{o} returned {b!r} from the state in which {op[1]} returned {a!r}")
                if a != b:
                    bad.append(f"{o} returned {a!r} and {b!r} from one state")
                since = replay = None
                continue
            if op[0] == "weights":
                out = cur.choices(["x", "y", "z"], weights=[0, 1, 0], k=4)
                if out != ["y"] * 4:
                    known["choices-weights"] = f"choices(['x','y','z'], weights=[0,1,0], k=4) returned {out}"
                since = replay = None
                continue
            if op[0] == "counts":
                try:
                    out = cur.sample(["x", "y"], counts=[2, 3], k=4)
                    if len(out) != 4 or out.count("x") > 2 or out.count("y") > 3:
                        known["sample-counts"] = f"sample(['x','y'], counts=[2,3], k=4) returned {out}"
                except ValueError as e:
                    known["sample-counts"] = f"sample(['x','y'], counts=[2,3], k=4) raised {e!r}"
                since = replay = None
                continue
            if op[0] == "getstate":
                states.append((cur.getstate(), []))
                since, replay = states[-1][1], None
                continue
            if op[0] == "setstate":
                if op[1] >= len(states):
                    continue
                state, recs = states[op[1]]
                cur.setstate(state)
                replay = list(recs)
                since = None
                continue
            if op[0] == "seed":
                cur.seed(op[1])
                if op[1] in seeded:
                    replay, since = list(seeded[op[1]]), None
                else:
                    seeded[op[1]] = since = []
                    replay = None
                continue
            if op[0] == "copy":
                import copy
                twin = copy.copy(cur)
                probe = ["randint", 0, 1000]
                a = call(twin, probe)
                twin2 = copy.copy(cur)
                b = call(twin2, probe)
                if a != b:
                    bad.append(f"two copies of one Random differ: {a} {b}")
                continue
            try:
                out = call(cur, op)
            except Exception as e:
                import hypothesis.errors as he
                from hypothesis.internal.conjecture.data import StopTest
                if isinstance(e, (StopTest, he.UnsatisfiedAssumption)):
                    raise
                bad.append(f"{op} raised {e!r}")
                return
            done.append(op)
            if not judge(op, cur, out):
                bad.append(f"{op} returned {out!r} after {hist[-6:]}")
            if replay:
                o2, r2 = replay.pop(0)
                if o2 == op:
                    if r2 != out:
                        bad.append(f"{op} returned {out!r} after restoring the state from which it gave {r2!r}")
                else:
                    replay = None
            if since is not None:
                since.append((op, out))
            hist.append((op, out))
        R.evals(len(hist))

    import hypothesis
    t = hypothesis.seed(case["seed"])(conf(max_examples=4, phases=[Phase.generate])(given(st.randoms(use_true_random=case["true"], note_method_calls=case["note"]))(test)))
    out = E.run(t, E.Out())
    for k, m in known.items():
        R.check(False, m, key=k)
    R.check(not bad, lambda: f"{bad[0]} [true={case['true']}, history {case['ops']}]")
    R.check(out.exc is None, lambda: f"{case['ops']}: {out.exc!r}")
    R.nontrivial(len(case["ops"]) >= 5)
    R.label("random")


def run_function(case, R):
    from hypothesis import Phase, given, strategies as st
    from vlib import engine as E
    from vlib.sut import conf
    import hypothesis
    import inspect

    ns = {}
    exec(f"def model{case['like']} -> bool:\n    'doc'\n", ns)
    model = ns["model"]
    sig = inspect.signature(model)
    bad = []
    saved = []

    def test(f):
        saved.append(f)
        memo = {}
        if inspect.signature(f) != sig or f.__name__ != "model":
            bad.append(f"signature {f.__name__}{inspect.signature(f)}, model{sig}")
        for args, kw in case["calls"]:
            try:
                model(*args, **kw)
                ok = True
            except TypeError:
                ok = False
            try:
                out = f(*args, **kw)
            except TypeError as e:
                if ok:
                    bad.append(f"model accepts {args} {kw}: {e}")
                continue
            if not ok:
                bad.append(f"model rejects {args} {kw}, but got {out!r}")
                continue
            if (type(out) is not bool) if case["ret"] else not (type(out) is int and 5 <= out <= 10**9):
                bad.append(f"{out!r} is not from returns")
            if case["pure"]:
                b = sig.bind(*args, **kw)
                key = repr(sorted((k, sorted(v.items()) if isinstance(v, dict) else v) for k, v in b.arguments.items()))
                if memo.setdefault(key, out) != out:
                    bad.append(f"pure function returned {memo[key]!r} and {out!r} for {args} {kw}")

    kw = {} if case["ret"] else {"returns": st.integers(5, 10**9)}
    t = hypothesis.seed(case["seed"])(conf(max_examples=4, phases=[Phase.generate])(given(st.functions(like=model, pure=case["pure"], **kw))(test)))
    out = E.run(t, E.Out())
    R.check(not bad, lambda: f"{bad[0]} {case}")
    R.check(out.exc is None, lambda: f"{case}: {out.exc!r}")
    for a, kw in case["calls"]:
        try:
            model(*a, **kw)
        except TypeError:
            continue
        try:
            saved[-1](*a, **kw)
            if not case["pure"]:
                R.fail(f"generated function usable after its test case ended: {case}")
        except hypothesis.errors.InvalidState:
            pass
    R.nontrivial(len(case["calls"]) >= 3)
    R.label("function")
