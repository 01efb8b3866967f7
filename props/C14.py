"""The same generated test is run with the same seed (or derandomized) several times: again in this process after generated perturbations
(other tests, other seeds, find(), example(), reseeded global generators, garbage collection), and in a second, long-lived process
with another PYTHONHASHSEED and another history, or a fresh one.  The whole sequence of executed inputs, and the result,
must be the same."""
from vlib import engine as E
from vlib import spec as S

RULE = ("generated tests (1-3 strategies from an algebra plus 40 hash- or order-sensitive ones; rules), seed or derandomize, settings, perturbation lists; each run 2 "
        "times here and once in a process with another hash seed; non-trivial = at least 5 distinct inputs were executed")
TECHNIQUE = "metamorphic property-based testing: whole-run equality across repetitions, perturbations and processes with other hash seeds"
NOTE = "Both processes have the same modules loaded (constants in local modules influence generation by design)."
QUICK, THOROUGH = 250, 30000

NAMED = [
    "st.sets(st.text(max_size=3), max_size=4)", "st.frozensets(st.sampled_from(['a', 'b', 'c', 'dd', 'ee']))", "st.dictionaries(st.text(max_size=2), st.integers(), max_size=4)",
    "st.characters()", "st.characters(categories=['Lu', 'Nd', 'Sm'])", "st.text('xyzzy', max_size=5)", "st.from_regex(r'[^a-c]{1,3}(x|yy|\\d)?', fullmatch=True)", "st.emails()",
    "st.from_type(Color)", "st.from_type(Flag)", "st.from_type(typing.Union[int, str, bytes])", "st.from_type(typing.Optional[Point])", "st.builds(Point)", "st.from_type(typing.Dict[str, int])",
    "st.from_type(typing.Set[str])", "st.from_type(typing.Literal['a', 1, None, b'x'])", "st.from_type(numbers.Real).map(repr)", "st.from_type(collections.abc.Hashable).map(lambda x: type(x).__name__)", "st.timezones().map(str)",
    "st.datetimes(timezones=st.timezones()).map(repr)", "st.dates()", "st.uuids()", "st.ip_addresses()", "st.complex_numbers()", "st.fractions()", "st.decimals()", "st.permutations(['a', 'b', 'c', 'd'])",
    "st.sampled_from(collections.OrderedDict(k1=1, k2=2, k3=3))", "st.fixed_dictionaries({'a': st.integers()}, optional={'b': st.text(), 'c': st.booleans(), 'd': st.none()})", "st.slices(7)",
    "st.recursive(st.booleans() | st.text(max_size=2), lambda s: st.lists(s, max_size=3) | st.dictionaries(st.text(max_size=1), s, max_size=2))", "st.lists(st.integers(), unique=True, max_size=6)",
    "st.lists(st.tuples(st.text(max_size=2), st.integers(0, 3)), unique_by=(lambda t: t[0], lambda t: t[1]), max_size=4)", "st.randoms(use_true_random=False).map(lambda r: [r.random(), r.choice('abc'), r.sample(range(9), 3)])",
    "st.randoms(use_true_random=True).map(lambda r: r.random())", "st.functions(like=lambda a: 0, returns=st.integers()).map(lambda f: 0)", "st.shared(st.text(), key='k')", "st.domains() if hasattr(st, 'domains') else st.none()",
    "st.integers().flatmap(lambda i: st.lists(st.just(i), max_size=3))", "st.text(st.characters(codec='latin-1', exclude_categories=['Cc']), max_size=6)", "st.floats(width=16)", "st.runner(default=3)", "st.iterables(st.integers(), max_size=3).map(list)",
    "st.deferred(lambda: st.none() | st.tuples(st.sampled_from('pq')))", "st.one_of(st.integers(), st.text(), st.sets(st.integers(0, 5)))", "st.binary(max_size=9)", "st.random_module().map(repr)"]


def cases(tier):
    from hypothesis import strategies as st

    strat = st.one_of(st.integers(0, len(NAMED) - 1).map(lambda i: ["named", i]), st.integers(0, len(NAMED) - 1).map(lambda i: ["named", i]), E.specs(st, 1).map(lambda l: l[0]))
    test = st.fixed_dictionaries({
        "specs": st.lists(strat, min_size=1, max_size=3), "rules": E.rules(st, ["E0", "E2", "EA", "assume", "reject", "pass", "pass"], 3), "seed": st.one_of(st.none(), st.integers(0, 2**64)),
        "n": st.sampled_from([5, 20, 40]), "phases": st.sampled_from([["generate"], ["generate", "shrink"], ["generate", "target", "shrink"], ["explicit", "reuse", "generate", "target", "shrink", "explain"]]),
        "target": st.sampled_from([False, False, False, True]), "multi": st.booleans(), "prng": st.booleans(), "kwseed": st.sampled_from(["int", "int", "str"])})
    pert = st.one_of(st.tuples(st.just("test"), test).map(list), st.tuples(st.just("reseed"), st.integers(0, 10**6)).map(list), st.just(["gc"]), st.just(["find"]), st.just(["example"]),
                     st.just(["same"]), st.just(["other"]))
    return st.fixed_dictionaries({"test": test, "pert": st.lists(pert, max_size=4), "proc": st.sampled_from(["twin"] * 11 + ["fresh"]), "hs": st.integers(1, 4000)})


_env = {}
PROC = {}


def env():
    if not _env:
        import collections.abc
        import dataclasses
        import enum
        import numbers
        import typing

        from hypothesis import strategies as st
        Color = enum.Enum("Color", "RED GREEN BLUE")
        Flag = enum.Flag("Flag", "A B C")
        Point = dataclasses.make_dataclass("Point", [("x", int), ("y", str), ("z", typing.List[bool], dataclasses.field(default_factory=list))])
        _env.update(st=st, Color=Color, Flag=Flag, Point=Point, typing=typing, numbers=numbers, collections=collections, canon=S.canon)
    return _env


def strategy(spec):
    return eval(NAMED[spec[1]], env()) if spec[0] == "named" else E.build(spec)


def go(t, other=False):
    """Run the test of a case; returns (canonical inputs, result)."""
    import random

    from hypothesis import Phase, given, seed, settings, target
    from vlib.sut import ALL_HC

    names = "abcdef"[:len(t["specs"])]
    log = []

    def body(args):
        args = tuple(map(S.canon, args))
        if t["prng"]:
            args += (repr(random.random()),)
        log.append(list(args))
        if t["target"]:
            target(float(E.H(args, 1000)))
        E.act(E.action(t["rules"], args), args)
    ns = {"body": body}
    exec(f"def test({', '.join(names)}):\n    body(({', '.join(names)},))\n", ns)
    f = given(**dict(zip(names, map(strategy, t["specs"]))))(ns["test"])
    s = t["seed"]
    if s is not None:
        s = f"s{s}" if t["kwseed"] == "str" else s
        if other:
            s = 12345 if s != 12345 else 0
        f = seed(s)(f)
    # explaining several slow arguments takes very long
    phases = [p for p in t["phases"] if p != "explain" or len(t["specs"]) == 1 and t["n"] == 5]
    f = settings(max_examples=t["n"], phases=[Phase[p] for p in phases], database=None, deadline=None, suppress_health_check=ALL_HC, backend="hypothesis",
                 derandomize=t["seed"] is None and not other, report_multiple_bugs=t["multi"])(f)
    out = E.run(f, E.Out())
    return [log, type(out.exc).__name__, out.tags]


def loop():
    import json
    import os
    import sys
    import warnings

    warnings.simplefilter("ignore")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_RDWR), 1)
    for line in sys.stdin:
        print(json.dumps(go(json.loads(line))), file=out, flush=True)


def start(hs):
    import os
    import subprocess
    import sys
    from pathlib import Path

    import hypothesis
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=os.pathsep.join([str(Path(hypothesis.__file__).parent.parent), str(Path(__file__).parent.parent)]))
    return subprocess.Popen([sys.executable, "-c", "import vlib.worker, vlib.codec, props.C14 as m; m.loop()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)


def ask(p, t):
    import json
    p.stdin.write(json.dumps(t) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())


def run(case, R):
    import gc
    import random

    import numpy

    from hypothesis import find
    from hypothesis import strategies as st
    from hypothesis.errors import Unsatisfiable
    t = case["test"]
    if "twin" not in PROC:
        PROC["twin"] = start(case["hs"])
    first = go(t)
    R.evals(len(first[0]))
    for p in case["pert"]:
        k = p[0]
        if k == "test":
            go(p[1])
        elif k == "reseed":
            random.seed(p[1])
            numpy.random.seed(p[1])
        elif k == "gc":
            gc.collect()
        elif k == "find":
            find(st.lists(st.integers()), lambda x: sum(x) > 20)
        elif k == "example":
            try:
                strategy(t["specs"][0]).example()
            except Unsatisfiable:
                pass
        elif k == "same":
            go(t)
        else:
            go(t, other=True)
    if first[1] not in ("NoneType", "Unsatisfiable", "ExceptionGroup", "ValueError", "KeyError", "AssertionError", "RuntimeError"):
        R.fail(f"{case}: unexpected {first[1]}")
    R.nontrivial(len(set(map(str, first[0]))) >= 5)
    R.label(first[1])

    def diff(a, b):
        if a[0] != b[0]:
            i = next((i for i, (x, y) in enumerate(zip(a[0], b[0])) if x != y), min(len(a[0]), len(b[0])))
            return f"execution {i} of {len(a[0])}/{len(b[0])}: {a[0][i:i + 1]} vs {b[0][i:i + 1]}"
        return f"results {a[1:]} vs {b[1:]}"
    what = [NAMED[s[1]] if s[0] == "named" else s for s in t["specs"]]
    second = go(t)
    R.check(first == second, lambda: f"a repetition in the same process differs ({diff(first, second)}): {what} {case}")
    if case["proc"] == "twin":
        third = ask(PROC["twin"], t)
    else:
        p = start(case["hs"])
        try:
            third = ask(p, t)
        finally:
            p.kill()
            p.communicate()
    R.check(first == third, lambda: f"another process (PYTHONHASHSEED differs) executes differently ({diff(first, third)}): {what} {case}")
    R.label(case["proc"])
