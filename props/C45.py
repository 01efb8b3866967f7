"""Tests over generated arguments (also nested in builds()) which fail exactly when a generated formula over the arguments holds run with
the explain phase.  For each part marked in the report: no executed case differing from the example only there passed, and if at least
30% of the part's (enumerated) domain would pass it must not be marked; likewise for the remark about parts varied together.
A run without the explain phase must report the same error, without comments, and an example which is not simpler."""
import ast
import itertools

from vlib import engine as E

RULE = ("1-5 arguments (integers, booleans, sampled_from, text, lists, builds() of two fields), a CNF formula of 1-4 clauses over sizes/parities/order of the parts, optional assume and "
        "second failure; seed; with and without explain; non-trivial = a part was marked, or an executed variation passed")
TECHNIQUE = "property-based testing with an oracle: truth of each printed comment against all recorded executions and an enumeration of the domain"
NOTE = "The threshold of 30% passing values makes a lucky run of 100 failures impossible (probability below 1e-15)."
QUICK, THOROUGH = 400, 60000
ANY = "# or any other generated value"


def cases(tier):
    from hypothesis import strategies as st
    leaf = st.one_of(st.just(["bool"]), st.just(["bool"]), st.tuples(st.integers(-4, 3), st.integers(0, 12)).map(lambda t: ["int", t[0], t[0] + t[1]]),
                     st.integers(1, 5).map(lambda k: ["samp", list(range(k))]), st.just(["text", "ab", 0, 3]))
    arg = st.one_of(leaf, leaf, leaf, st.tuples(leaf, st.integers(0, 1), st.integers(0, 3)).map(lambda t: ["list", t[0], t[1], t[1] + t[2]]),
                    st.tuples(leaf, leaf).map(lambda t: ["builds", *t]), st.tuples(leaf, leaf).map(lambda t: ["pair", *t]))
    part = st.integers(0, 7)
    atom = st.one_of(
        st.tuples(st.just("ge"), part, st.integers(0, 4)), st.tuples(st.just("le"), part, st.integers(0, 4)), st.tuples(st.just("odd"), part), st.tuples(st.just("even"), part),
        st.tuples(st.just("lt"), part, part), st.tuples(st.just("same"), part, part), st.tuples(st.just("true"))).map(list)
    clause = st.lists(atom, min_size=1, max_size=3)
    cnf = st.lists(clause, min_size=1, max_size=4)
    return st.fixed_dictionaries({
        "specs": st.lists(arg, min_size=1, max_size=5), "fail": cnf, "assume": st.one_of(st.none(), st.none(), clause), "other": st.one_of(st.none(), st.none(), cnf),
        "seed": st.integers(0, 2**32), "data": st.integers(0, 3).map(lambda i: i == 0)})


class P:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __repr__(self):
        return f"P(x={self.x!r}, y={self.y!r})"


def parts(args):
    """All parts by path; these are what the atoms speak about and what the report may mark."""
    out = {}
    for i, a in enumerate(args):
        out[i,] = a
        if isinstance(a, P):
            out[i, "x"], out[i, "y"] = a.x, a.y
    return out


def key(x):
    return ("P", key(x.x), key(x.y)) if isinstance(x, P) else repr(x)


def size(x):
    return size(x.x) + size(x.y) if isinstance(x, P) else E.size(x)


def atom(a, ps):
    vals = [size(v) for v in ps.values()]
    n = len(vals)
    k = a[0]
    if k == "true":
        return True
    v = vals[a[1] % n]
    if k == "ge":
        return v >= a[2]
    if k == "le":
        return v <= a[2]
    if k == "odd":
        return v % 2 == 1
    if k == "even":
        return v % 2 == 0
    w = vals[a[2] % n]
    return v < w if k == "lt" else v == w


def verdict(case, args):
    ps = parts(args)
    if case["assume"] and not any(atom(a, ps) for a in case["assume"]):
        return "assume"
    if all(any(atom(a, ps) for a in c) for c in case["fail"]):
        return "E0"
    if case["other"] and all(any(atom(a, ps) for a in c) for c in case["other"]):
        return "E2"
    return "pass"


def build(s):
    from hypothesis import strategies as st
    if s[0] == "builds":
        return st.builds(P, x=build(s[1]), y=build(s[2]))
    if s[0] == "pair":
        return st.builds(P, build(s[1]), build(s[2]))
    return E.build(s)


def domain(s):
    k = s[0]
    if k == "bool":
        return [False, True]
    if k == "int":
        return list(range(s[1], s[2] + 1))
    if k == "samp":
        return s[1]
    return None


def part_spec(case, path):
    s = case["specs"][path[0]]
    return s if len(path) == 1 else s[1 if path[1] == "x" else 2]


def put(args, path, v):
    args = list(args)
    if len(path) == 1:
        args[path[0]] = v
    else:
        p = args[path[0]]
        args[path[0]] = P(v, p.y) if path[1] == "x" else P(p.x, v)
    return tuple(args)


def go(case, phases):
    from hypothesis import given, settings
    from vlib.sut import ALL_HC
    out = E.Out()
    n = len(case["specs"])
    names = "abcde"[:n]

    def body(args):
        x = verdict(case, args)
        out.log.append((args, x))
        E.act(x, ())
    ns = {"body": body}
    exec(f"def test({', '.join(names)}):\n    body(({', '.join(names)},))\n", ns)
    f = given(**dict(zip(names, map(build, case["specs"]))))(ns["test"])
    conf = settings(max_examples=60, phases=phases, database=None, deadline=None, suppress_health_check=ALL_HC, print_blob=False, backend="hypothesis")
    return E.run(E.seeded(case["seed"], conf, f), out)


def read(note):
    """(args, marked paths, together remark) of a falsifying-example note."""
    assert note.startswith("Falsifying example: "), note
    src = note[len("Falsifying example: "):]
    tree = ast.parse(src).body[0].value
    args = eval(src, {"test": lambda **k: tuple(k.values()), "P": P, "inf": float("inf"), "nan": float("nan")})
    marked = []
    for no, line in enumerate(src.split("\n"), 1):
        if ANY not in line:
            continue
        found = None
        for i, kw in enumerate(tree.keywords):
            if kw.value.end_lineno == no:
                found = (i,)
            elif isinstance(kw.value, ast.Call) and kw.value.lineno <= no < kw.value.end_lineno:
                subs = [(k.arg, k.value) for k in kw.value.keywords] + [("xy"[j], v) for j, v in enumerate(kw.value.args)]
                for nm, v in subs:
                    if v.end_lineno == no:
                        found = (i, nm)
        assert found is not None, src
        marked.append(found)
    rest = src.replace(ANY, "")
    remark = "sometimes" if "sometimes passed" in rest else "always" if "always failed" in rest else None
    return args, marked, remark, "#" in rest.replace("# The test always failed when commented parts were varied together.", "").replace("# The test sometimes passed when commented parts were varied together.", "")


def notes(e):
    return [n for n in getattr(e, "__notes__", ()) if n.startswith("Falsifying")]


def run(case, R):
    from hypothesis import Phase
    P1 = [Phase.generate, Phase.shrink]
    plain = go(case, P1)
    full = go(case, [*P1, Phase.explain])
    R.evals(len(full.log))
    if full.exc is None or "E" not in str(full.tags):
        R.check(type(full.exc) is type(plain.exc), lambda: f"explain changes {plain.exc!r} to {full.exc!r}: {case}")
        R.label("no-failure")
        return
    tags = dict(zip(full.tags, full.leaves))
    R.check(set(tags) >= set(plain.tags), lambda: f"explain phase lost a failure: {plain.tags} vs {full.tags}: {case}")
    for e in plain.leaves:
        for n in notes(e):
            R.check("#" not in n, lambda: f"comments without the explain phase: {n} {case}")
    hit = False
    for tag, e in tags.items():
        ns = notes(e)
        R.check(len(ns) == 1, lambda: f"notes {ns}: {case}")
        args, marked, remark, junk = read(ns[0])
        R.check(not junk, lambda: f"unexpected comment in {ns[0]}: {case}")
        R.check(verdict(case, args) == tag, lambda: f"example {args} has verdict {verdict(case, args)} rather than {tag}: {case}")
        if len(full.tags) == 1 == len(plain.tags):
            base = read(notes(plain.leaves[0])[0])[0]
            a, b = order(case, args), order(case, base)
            R.check(a <= b, lambda: f"explain phase makes the example more complex: {base} vs {args}: {case}")
            if a != b:
                R.label("shrunk-further")
        me = {p: key(v) for p, v in parts(args).items()}

        def differs(other):
            """The marked parts in which an execution differs from the example, or None if it differs elsewhere."""
            ps = {p: key(v) for p, v in parts(other).items()}
            bad = [p for p in me if ps[p] != me[p]]
            hits = {p for p in bad if p in marked}
            for p in bad:
                if p in marked or (p[:1] in marked):
                    continue
                # a composite part differs only through its marked fields
                if len(p) == 1 and (p[0], "x") in me and not any((p[0], f) in bad and (p[0], f) not in marked for f in "xy"):
                    continue
                return None
            return hits

        for m in marked:
            for other, v in full.log:
                d = differs(other)
                if v == "pass" and d is not None and d == {m}:
                    R.fail(f"{m} is marked in\n{ns[0]}\nbut {other} passed: {case}")
            dom = domain(part_spec(case, m))
            if dom:
                vs = [verdict(case, put(args, m, v)) for v in dom]
                R.check(vs.count("pass") < 0.3 * len(vs), lambda: f"{m} is marked in\n{ns[0]}\nbut {vs.count('pass')} of {len(vs)} values pass: {case}")
        if remark:
            R.check(len(marked) >= 2, lambda: f"remark {remark} about {marked} in\n{ns[0]}: {case}")
            if remark == "sometimes":
                R.check(any(v == "pass" and differs(o) for o, v in full.log), lambda: f"the report says the test passed when only the commented parts vary, but no such execution passed:\n{ns[0]}\n{case}")
            doms = [domain(part_spec(case, m)) for m in marked]
            if remark == "always" and all(doms):
                n = bad = 0
                for vals in itertools.islice(itertools.product(*doms), 20000):
                    a = args
                    for m, v in zip(marked, vals):
                        a = put(a, m, v)
                    n += 1
                    bad += verdict(case, a) == "pass"
                if n < 20000:
                    R.check(bad < 0.3 * n, lambda: f"the report says the test always failed when the commented parts vary, but {bad} of {n} such inputs pass:\n{ns[0]}\n{case}")
            R.label(remark)
        if marked:
            hit = True
            R.label("marked")
        if any(len(m) == 2 for m in marked):
            R.label("nested")
        if any(v == "pass" for _, v in full.log):
            hit = True
    R.nontrivial(hit)


def order(case, args):
    """The engine's shortlex order on the choices behind the arguments."""
    def walk(s, v):
        k = s[0]
        if k in ("builds", "pair"):
            yield from walk(s[1], v.x)
            yield from walk(s[2], v.y)
        elif k == "list":
            for x in v:
                if s[2] != s[3]:
                    yield (1,)
                yield from walk(s[1], x)
            if s[2] != s[3]:
                yield (0,)
        elif k == "int":
            d = v - min(max(0, s[1]), s[2])
            if s[1] != s[2]:
                yield (abs(d), d < 0)
        elif k == "samp":
            yield (v,)
        else:
            yield (len(v), v) if k == "text" else (v,)
    out = [c for s, v in zip(case["specs"], args) for c in walk(s, v)]
    return len(out), out
