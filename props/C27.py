"""Histories of settings operations (construct with and without parent, register, re-register, load - unknown names too -, apply to functions
and machines, run, mutate, construct inside a running test or in a new thread, invalid values) against a model which keeps a dictionary of
values per settings object and a mapping of profiles.  After every operation every settings object ever made must still have its
modelled values (immutability), `settings.default` those of the loaded profile, and `repr` and `show_changed` must list exactly the values.
Running a test must execute under exactly the values applied (or the default at decoration time), whatever was loaded since.  Fresh
interpreters with generated environment variables and registrations decide the CI defaults."""
import itertools

RULE = ("generated histories of 1 to 14 operations over up to 3 profile names with all fields, valid and invalid values; CI cases run a fresh interpreter; non-trivial = at "
        "least 4 operations took effect")
TECHNIQUE = "model-based stateful property testing of settings and profiles"
NOTE = "The default database is compared by representation, since it is recomputed on each access. Values equal to but not of the documented type (derandomize=1) are not generated."
QUICK, THOROUGH = 1200, 150000
FIELDS = ["max_examples", "derandomize", "database", "verbosity", "phases", "stateful_step_count", "report_multiple_bugs", "suppress_health_check", "deadline", "print_blob", "backend"]
BAD = {"max_examples": [0, -1, "5", 1.5, None, [1]], "derandomize": [None, 2, "x", []], "database": ["x", 5, b"", [1]], "verbosity": ["loud", None, 17, []],
       "phases": [None, 5, ["generate"], "generate", [None]], "stateful_step_count": [0, -3, "1", None, 2.0], "report_multiple_bugs": [None, "yes", 3],
       "suppress_health_check": [None, 5, ["too_slow"], [None], "x"], "deadline": ["200", "nan", True, 0, -1, -0.5, "inf", [200], 1e-9, 1e300], "print_blob": [None, "all", 2], "backend": ["nope", None, 5, [], ""]}


def cases(tier):
    from hypothesis import strategies as st

    good = {
        "max_examples": st.integers(1, 60), "derandomize": st.booleans(), "database": st.sampled_from([None, None, 0, 1]), "verbosity": st.sampled_from(["quiet", "normal", "quiet", "verbose"]),
        "phases": st.lists(st.sampled_from(["explicit", "reuse", "generate", "target", "shrink", "explain"]), max_size=7), "stateful_step_count": st.integers(1, 99),
        "report_multiple_bugs": st.booleans(), "suppress_health_check": st.lists(st.sampled_from(["data_too_large", "filter_too_much", "too_slow", "nested_given"]), max_size=3),
        "deadline": st.one_of(st.none(), st.integers(10**5, 10**7), st.sampled_from([123456.75, {"td": 10**9}, {"td": 10**15 + 1}])), "print_blob": st.booleans(), "backend": st.just("hypothesis")}
    kw = st.lists(st.sampled_from(FIELDS), unique=True, max_size=5).flatmap(lambda fs: st.fixed_dictionaries({f: good[f] for f in fs}))
    bad = st.sampled_from(FIELDS).flatmap(lambda f: st.tuples(st.just(f), st.sampled_from(BAD[f]))).map(list)
    name = st.sampled_from(["p", "p", "q", "r"])
    ref = st.one_of(st.none(), st.none(), st.integers(0, 9))
    op = st.one_of(
        st.tuples(st.just("new"), ref, kw), st.tuples(st.just("register"), name, ref, kw), st.tuples(st.just("load"), name), st.tuples(st.just("load"), st.just("default")),
        st.tuples(st.just("apply"), ref, st.booleans()), st.tuples(st.just("call"), st.integers(0, 9), st.sampled_from(["inside", "plain", "inside"]), kw), st.tuples(st.just("bad"), ref, kw, bad, st.booleans()),
        st.tuples(st.just("mutate"), ref, st.sampled_from(FIELDS + ["default", "other"]), st.booleans()), st.tuples(st.just("thread"), kw), st.tuples(st.just("get"), name),
        st.tuples(st.just("machine"), ref), st.tuples(st.just("redefault"), ref, kw), st.tuples(st.just("oops"), st.sampled_from(["load", "get", "name", "twice", "class", "noncallable", "parent", "both"])),
    ).map(list)
    pref = st.one_of(st.just([]), kw.map(lambda k: [["register", "p", None, k], ["load", "p"]]), st.tuples(kw, kw).map(lambda t: [["register", "p", None, t[0]], ["load", "p"], ["apply", None, True], ["register", "q", None, t[1]], ["load", "q"], ["call", 0, "inside", {}]]))
    hist = st.tuples(pref, st.lists(op, min_size=1, max_size=14)).map(lambda t: {"ops": t[0] + t[1]})
    env = st.fixed_dictionaries({"env": st.lists(st.sampled_from(["CI", "TF_BUILD"]), unique=True, max_size=2), "value": st.sampled_from(["1", "true", ""]),
                                 "register": st.one_of(st.none(), st.fixed_dictionaries({}, optional={"max_examples": good["max_examples"], "print_blob": st.booleans(), "derandomize": st.booleans()})), "parent": st.booleans()})
    return st.one_of(*[hist] * 60, env)


_n = itertools.count()


def setup():
    import tempfile

    from hypothesis.configuration import set_hypothesis_home_dir
    set_hypothesis_home_dir(tempfile.mkdtemp(prefix="c27-"))


def run(case, R):
    if "env" in case:
        return run_env(case, R)
    import datetime
    import math
    import threading
    import time
    import warnings

    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    from hypothesis import strategies as st
    from hypothesis.database import InMemoryExampleDatabase
    from hypothesis.errors import InvalidArgument
    from hypothesis.stateful import RuleBasedStateMachine, rule
    from vlib.sut import quiet

    warnings.simplefilter("ignore")
    dbs = [InMemoryExampleDatabase(), InMemoryExampleDatabase()]
    DEFAULTDB = "the default database"
    pre = f"c27-{next(_n)}-"

    def value(f, v):
        if f == "database":
            return dbs[v] if isinstance(v, int) and v in (0, 1) else v
        if f == "verbosity" and v in ("quiet", "normal", "verbose"):
            return getattr(Verbosity, v)
        if f == "phases" and isinstance(v, list):
            return [getattr(Phase, x) for x in v]
        if f == "suppress_health_check" and isinstance(v, list):
            return [getattr(HealthCheck, x) for x in v]
        if f == "deadline" and isinstance(v, dict):
            return datetime.timedelta(microseconds=v["td"])
        return v

    def norm(f, v):
        """the modelled attribute value"""
        if f == "phases":
            return tuple(p for p in Phase if p in v)
        if f == "suppress_health_check":
            return tuple(v)
        if f == "deadline" and v is not None and not isinstance(v, datetime.timedelta):
            return datetime.timedelta(milliseconds=v)
        return v
    base = {"max_examples": 100, "derandomize": False, "database": DEFAULTDB, "verbosity": Verbosity.normal, "phases": tuple(Phase), "stateful_step_count": 50, "report_multiple_bugs": True,
            "suppress_health_check": (), "deadline": datetime.timedelta(milliseconds=200), "print_blob": False, "backend": "hypothesis"}
    orig = settings.get_profile("default")
    defaultdb = repr(orig.database)

    def same(s, m):
        for f in FIELDS:
            got = getattr(s, f)
            if f == "database":
                ok = repr(got) == defaultdb and got is not None if m[f] is DEFAULTDB else got is m[f]
            else:
                ok = got == m[f] and (got is None) == (m[f] is None)
            if not ok:
                return f"{f} is {got!r}, expected {m[f]!r}"

    def child(parent, kw):
        m = dict(parent)
        for f, v in kw.items():
            m[f] = norm(f, v)
        if kw.get("derandomize"):
            m["database"] = None
        return m
    objs = [(orig, base)]
    profiles = {"default": (orig, base)}
    cur = "default"
    tests = []
    done = 0

    def vals(kw, fix=True):
        kw = {f: value(f, v) for f, v in kw.items()}
        if fix and kw.get("derandomize") and kw.get("database") is not None:
            del kw["database"]
        return kw

    def pick(r):
        return (None, profiles[cur][1]) if r is None else objs[r % len(objs)]

    def verify(what):
        R.check(settings.default is profiles[cur][0], lambda: f"{case['ops']}: after {what}: settings.default is {settings.default!r}, not the profile {cur!r}")
        for i, (s, m) in enumerate(objs):
            bad = same(s, m)
            R.check(bad is None, lambda: f"{case['ops']}: after {what}: settings object {i}: {bad}")
        for n, (s, m) in profiles.items():
            R.check(settings.get_profile(n if n == "default" else pre + n) is s, lambda: f"{case['ops']}: after {what}: profile {n!r} is another object")

    def rejects(what, f, exc=InvalidArgument):
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            R.fail(f"{case['ops']}: {what} raises {type(e).__name__}: {e}")
            return
        R.fail(f"{case['ops']}: {what} is accepted: {r!r}")

    def construct(parent, kw):
        return settings(**kw) if parent is None else settings(parent, **kw)
    try:
        for op in case["ops"]:
            k = op[0]
            done += 1
            if k == "new":
                p, m = pick(op[1])
                kw = vals(op[2])
                objs.append((construct(p, kw), child(m, kw)))
            elif k == "register" or k == "redefault":
                name = op[1] if k == "register" else "default"
                p, m = pick(op[-2])
                kw = vals(op[-1])
                settings.register_profile(name if name == "default" else pre + name, p, **kw)
                s = settings.get_profile(name if name == "default" else pre + name)
                profiles[name] = (s, child(m, kw))
                objs.append(profiles[name])
            elif k == "load":
                if op[1] in profiles:
                    settings.load_profile(op[1] if op[1] == "default" else pre + op[1])
                    cur = op[1]
                else:
                    rejects("loading an unknown profile", lambda: settings.load_profile(pre + op[1]))
                    done -= 1
            elif k == "get":
                if op[1] not in profiles:
                    rejects("an unknown profile", lambda: settings.get_profile(pre + op[1]))
            elif k == "apply":
                p, m = pick(op[1])
                p = p or profiles[cur][0]
                seen = []

                def body(x):
                    seen.append(None)
                    body.hook()
                if op[1] is None:
                    f = given(st.integers())(body)
                elif op[2]:
                    f = p(given(st.integers())(body))
                else:
                    f = given(st.integers())(p(body))
                tests.append((f, body, p, m, seen))
            elif k == "call" and tests:
                f, body, p, m, seen = tests[op[1] % len(tests)]
                del seen[:]
                trouble = []
                kw = vals(op[3])

                def hook():
                    bad = same(settings.default, m)
                    if bad:
                        trouble.append(f"settings.default inside the test: {bad}")
                    if op[2] == "inside":
                        bad = same(settings(**kw), child(m, kw))
                        if bad:
                            trouble.append(f"settings(**{kw}) inside the test: {bad}")
                body.hook = hook
                real = time.perf_counter
                time.perf_counter = lambda: 0.0      # no deadline is ever exceeded
                try:
                    quiet(f)
                except Exception as e:
                    if type(e).__name__ != "SkipTest":
                        R.fail(f"{case['ops']}: {op}: {type(e).__name__}: {e}")
                finally:
                    time.perf_counter = real
                R.check(not trouble, lambda: f"{case['ops']}: {op}: {trouble[0]}")
                want = m["max_examples"] if Phase.generate in m["phases"] else 0
                R.check(len(seen) == want, lambda: f"{case['ops']}: {op}: {len(seen)} executions, expected {want}")
                R.evals(len(seen))
            elif k == "bad":
                p, m = pick(op[1])
                f, v = op[3]
                v = value(f, v) if not (f in ("phases", "suppress_health_check") and isinstance(v, list)) else v
                v = {"nan": math.nan, "inf": math.inf}.get(v, v) if f == "deadline" and isinstance(v, str) else v
                kw = vals(op[2])
                kw[f] = v
                rejects(f"settings(**{kw})", lambda: settings.register_profile(pre + "bad", p, **kw) if op[4] else construct(p, kw))
                rejects("the profile of a failed registration", lambda: settings.get_profile(pre + "bad"))
            elif k == "mutate":
                p, m = pick(op[1])
                p = p or settings
                f = op[2]
                if op[3] and p is not settings:
                    rejects(f"del s.{f}", lambda: delattr(p, f), AttributeError)
                else:
                    rejects(f"s.{f} = 1", lambda: setattr(p, f, 1), AttributeError)
            elif k == "thread":
                kw = vals(op[1])
                res = []

                def work():
                    try:
                        res.append(settings(**kw))
                    except Exception as e:
                        res.append(e)
                t = threading.Thread(target=work)
                t.start()
                t.join()
                bad = same(res[0], child(profiles[cur][1], kw)) if isinstance(res[0], settings) else repr(res[0])
                R.check(bad is None, lambda: f"{case['ops']}: {op}: constructed in a new thread: {bad}")
            elif k == "machine":
                p, m = pick(op[1])
                p = p or profiles[cur][0]

                @p
                class M(RuleBasedStateMachine):
                    @rule()
                    def r(self):
                        pass
                R.check(same(M.TestCase.settings, m) is None, lambda: f"{case['ops']}: {op}: {same(M.TestCase.settings, m)}")
                rejects("applying settings twice to a machine", lambda: p(M))
            elif k == "oops":
                o = op[1]
                p, m = objs[-1]
                if o == "load":
                    rejects("load_profile(5)", lambda: settings.load_profile(5))
                elif o == "get":
                    rejects("get_profile(None)", lambda: settings.get_profile(None))
                elif o == "name":
                    rejects("register_profile(5)", lambda: settings.register_profile(5, max_examples=3))
                elif o == "twice":
                    rejects("@settings twice", lambda: p(settings(max_examples=3)(given(st.none())(lambda x: None))))
                    rejects("@settings on both sides of @given", lambda: p(given(st.none())(settings(max_examples=3)(lambda x: None))))
                elif o == "class":
                    rejects("@settings on a class", lambda: p(int))
                elif o == "noncallable":
                    rejects("@settings on a non-callable", lambda: p(5))
                elif o == "parent":
                    rejects("settings(5)", lambda: settings(5))
                elif o == "both":
                    rejects("settings(derandomize=True, database=db)", lambda: settings(p, derandomize=True, database=dbs[0]))
            verify(op)
        for s, m in objs:
            r = repr(s)
            changed = s.show_changed()
            d = orig
            parts = []
            for f in FIELDS:
                v = getattr(s, f)
                if f != "database":
                    R.check(f"{f}={v!r}" in r or f == "backend", lambda: f"{case['ops']}: {f}={v!r} is not in {r}")
                if v != getattr(d, f):
                    parts.append(f"{f}={v!r}")
            R.check(sorted(parts, key=len) == sorted(changed.split(", ") if changed.count("=") <= 1 else sorted(parts, key=len), key=len) and all(p in changed for p in parts) and len(changed) == len(", ".join(parts)),
                    lambda: f"{case['ops']}: show_changed() gives {changed!r}, the changed values are {parts}")
    finally:
        settings.register_profile("default", orig)
        settings.load_profile("default")
        for n in ("p", "q", "r", "bad"):
            settings._profiles.pop(pre + n, None)
    R.nontrivial(done >= 4)


def run_env(case, R):
    import json
    import os
    import subprocess
    import sys

    import hypothesis

    env = {k: v for k, v in os.environ.items() if k not in ("CI", "TF_BUILD")}
    for n in case["env"]:
        env[n] = case["value"]
    env["PYTHONPATH"] = os.path.dirname(os.path.dirname(hypothesis.__file__))
    reg = case["register"]
    prog = f"""
import json
from hypothesis import settings, HealthCheck
reg = {reg!r}
if reg is not None:
    settings.register_profile("ci", {"settings.get_profile('ci')" if case["parent"] else "None"}, **reg)
s, c, d = settings(), settings.get_profile("ci"), settings.get_profile("default")
print(json.dumps([[x.max_examples, x.derandomize, x.database is None, x.print_blob, x.deadline is None, [h.name for h in x.suppress_health_check]] for x in (s, c, d)]))
"""
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", prog], env=env, capture_output=True, text=True, timeout=120)
    R.check(p.returncode == 0, lambda: f"{case}: {p.stderr[-500:]}")
    got, ci, default = json.loads(p.stdout)
    on = bool(case["env"])
    wd = [100, False, False, False, False, []]
    wc = [100, True, True, True, True, ["too_slow"]]
    R.check(default == wd, lambda: f"{case}: the default profile is {default}")
    want = wc
    if reg is not None:
        want = list(wc if case["parent"] or on else wd)
        want[0] = reg.get("max_examples", want[0])
        want[3] = reg.get("print_blob", want[3])
        want[1] = reg.get("derandomize", want[1])
        if reg.get("derandomize"):
            want[2] = True
    R.check(ci == want, lambda: f"{case}: the ci profile is {ci}, expected {want}")
    R.check(got == (want if on else wd), lambda: f"{case}: new settings are {got}, expected {want if on else wd}")
    R.nontrivial(True)
    R.label("env")
