"""Generated rule-based state machines which keep their own model of bundles, preconditions and invariants, and judge every call made to them."""
import io


class Tok:
    """A distinct value with an evaluable representation."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Tok({self.n})"

    def __eq__(self, other):
        return isinstance(other, Tok) and self.n == other.n

    def __hash__(self):
        return hash(("tok", self.n))


class Oops(Exception):
    pass


class Oops2(Oops):
    pass


ERR = {"ValueError": ValueError, "Oops": Oops, "Oops2": Oops2, "AssertionError": AssertionError}


def specs(st, *, fails=True, evaluable=False):
    """Strategy for machine descriptions."""
    b = st.sampled_from([0, 0, 0, 1, 2])
    arg = st.one_of(st.sampled_from([["int"], ["text"], ["bool"], ["ints"]]), st.tuples(st.sampled_from(["b", "b", "b", "c", "c"]), b).map(list), st.tuples(st.sampled_from(["l", "lc", "m", "t", "fm", "f", "o", "data"]), b).map(list),
                    st.tuples(st.just("bb"), b, b).map(list))
    pre = st.one_of(st.tuples(st.just("ge"), st.integers(0, 6)), st.tuples(st.just("lt"), st.integers(1, 12)), st.tuples(st.just("mod"), st.integers(2, 4), st.integers(0, 1)),
                    st.tuples(st.just("bund"), b, st.integers(1, 3)), st.tuples(st.just("once"))).map(list)
    fail = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["count", "argint", "bund", "same", "always"]), st.integers(1, 9), st.sampled_from(list(ERR))).map(list)) if fails else st.none()
    ret = st.sampled_from(["one", "one", "m0", "m1", "m2", "m2", "m3", "none", "arg", "int", "same", "list"])
    targets = st.one_of(st.just([]), st.lists(b, min_size=1, max_size=1), st.lists(b, min_size=1, max_size=1), st.lists(b, min_size=2, max_size=3))
    rule = st.fixed_dictionaries({"t": targets, "args": st.lists(arg, max_size=3), "ret": ret, "pre": st.lists(pre, max_size=2), "fail": fail,
                                  "assume": st.sampled_from([None] * 8 + [5, 20]), "above": st.booleans()})
    add = st.fixed_dictionaries({"t": st.lists(b, min_size=1, max_size=2, unique=True), "args": st.just([]), "ret": ret, "pre": st.just([]), "fail": st.none(), "assume": st.none(), "above": st.just(True)})
    free = {"t": [], "args": [["int"]], "ret": "one", "pre": [], "fail": None, "assume": None, "above": True}
    init = st.fixed_dictionaries({"t": targets, "args": st.lists(st.one_of(arg, st.just(["int"])), max_size=2), "ret": ret, "pre": st.just([]), "fail": st.one_of(st.none(), st.none(), fail), "assume": st.none(), "above": st.just(True)})
    inv = st.fixed_dictionaries({"pre": st.lists(pre, max_size=2), "init": st.booleans(), "fail": st.one_of(st.none(), fail), "above": st.booleans()})
    return st.fixed_dictionaries({
        "rules": st.tuples(st.lists(add, min_size=1, max_size=2), st.lists(rule, min_size=1, max_size=4), st.sampled_from([[], [free], [free]])).map(lambda t: t[2] + t[0] + t[1]), "inits": st.lists(init, max_size=3), "invs": st.lists(inv, max_size=3),
        "consume": st.lists(st.booleans(), min_size=3, max_size=3).map(lambda l: [x and l[0] for x in l]), "split": st.sampled_from([0, 0, 1, 2, 5]), "override": st.sampled_from([None, None, "plain", "redo"]),
        "tear": st.sampled_from([None] * 7 + ["Oops"]) if fails else st.none(), "steps": st.sampled_from([10, 5, 10, 20, 30, 10, 2, 1]), "n": st.sampled_from([20, 5, 40]), "seed": st.integers(0, 10**6), "how": st.sampled_from(["run", "case", "run"]),
        "shrink": st.sampled_from([True, True, False])})


class Log:
    def __init__(self):
        self.machines = []
        self.problems = []
        self.picks = {}          # (bundle size, index) -> draws


def build(spec, log):
    """The machine class for a description; every instance appends itself to log.machines."""
    from hypothesis import assume
    from hypothesis import strategies as st
    from hypothesis.stateful import Bundle, MultipleResults, RuleBasedStateMachine, consumes, initialize, invariant, multiple, precondition, rule

    bundles = [Bundle(f"b{i}", consume=spec["consume"][i]) for i in range(3)]
    NRULES = len(spec["rules"])

    def holds(p, self):
        k = p[0]
        if k == "ge":
            return self.count >= p[1]
        if k == "lt":
            return self.count < p[1]
        if k == "mod":
            return self.count % p[1] == p[2]
        if k == "bund":
            return len(self.model[p[1]]) >= p[2]
        return self.count < 100          # "once" is resolved per rule below

    def strat(a):
        k = a[0]
        b = bundles[a[1]] if len(a) > 1 else None
        return {"int": lambda: st.integers(0, 20), "text": lambda: st.text(max_size=3), "bool": lambda: st.booleans(), "ints": lambda: st.lists(st.integers(0, 9), max_size=3), "b": lambda: b, "c": lambda: consumes(b),
                "l": lambda: st.lists(b, max_size=2), "lc": lambda: st.lists(consumes(b), max_size=2), "m": lambda: b.map(lambda v: ("m", v)),
                "t": lambda: st.tuples(b, st.integers(0, 3)), "fm": lambda: b.flatmap(lambda v: st.tuples(st.just(v), st.integers(0, 3))), "f": lambda: b.filter(lambda v: not isinstance(v, Tok) or v.n % 4 != 3),
                "o": lambda: st.one_of(st.none(), b), "data": lambda: st.data(), "bb": lambda: st.one_of(bundles[a[1]], bundles[a[2]])}[k]()

    def took(self, i, v, consume, what):
        m = self.model[i]
        for pos, x in enumerate(m):
            if x is v or x == v and type(x) is type(v):
                break
        else:
            self.bad(f"{what} received {v!r}, which is not in bundle b{i} {m!r}")
            return
        if len(m) <= 3 and all(not (x is y) for j, x in enumerate(m) for y in m[:j]) and isinstance(v, Tok):
            log.picks[len(m), pos] = log.picks.get((len(m), pos), 0) + 1
        if consume or spec["consume"][i]:
            del m[pos]

    def judge(self, desc, args, what):
        """args in the order in which they are drawn (by name)"""
        out = []
        for a, v in zip(desc["args"], args):
            k = a[0]
            if k == "int":
                if not (type(v) is int and 0 <= v <= 20):
                    self.bad(f"{what} received {v!r} for an integer")
            elif k == "text":
                if not (isinstance(v, str) and len(v) <= 3):
                    self.bad(f"{what} received {v!r} for a text")
            elif k in ("b", "c"):
                took(self, a[1], v, k == "c", what)
            elif k in ("l", "lc"):
                for x in v:
                    took(self, a[1], x, k == "lc", what)
            elif k in ("m", "t", "fm"):
                took(self, a[1], v[k == "m"], False, what)
            elif k == "f":
                if isinstance(v, Tok) and v.n % 4 == 3:
                    self.bad(f"{what} received {v!r} from a filtered bundle")
                if spec["consume"][a[1]]:
                    self.loose = True        # rejected values are consumed too
                took(self, a[1], v, False, what)
            elif k == "o":
                if v is not None:
                    took(self, a[1], v, False, what)
                elif any(x is None for x in self.model[a[1]]) and spec["consume"][a[1]]:
                    self.loose = True
            elif k == "bb":
                if spec["consume"][a[1]] or spec["consume"][a[2]]:
                    cands = [i for i in a[1:] if any(x is v or x == v for x in self.model[i])]
                    if len(set(cands)) != 1:
                        self.loose = True
                    if cands:
                        took(self, cands[0], v, False, what)
                elif not any(x is v or x == v and type(x) is type(v) for i in a[1:] for x in self.model[i]):
                    self.bad(f"{what} received {v!r} from b{a[1]} | b{a[2]}: {[self.model[i] for i in a[1:]]}")
            elif k == "data":
                m = self.model[a[1]]
                if m and not self.replaying:
                    x = v.draw(bundles[a[1]])
                    took(self, a[1], x, False, what)
            out.append(v)
        return out

    def fails(self, f, args):
        if f is None:
            return None
        k, n, e = f
        if k == "count":
            t = self.count >= n
        elif k == "argint":
            t = any(type(x) is int and x >= n for x in args)
        elif k == "bund":
            t = len(self.model[n % 3]) >= 2
        elif k == "same":
            t = len(args) > 1 and type(args[0]) is type(args[1]) and args[0] == args[1]
        else:
            t = n > 4
        return e if t else None

    def give(self, desc, args):
        r = desc["ret"]
        new = lambda: Tok(self.fresh())
        if not desc["t"]:
            return None
        if r == "one":
            v = new()
        elif r[0] == "m":
            n = int(r[1])
            if n > 1 and len(desc["t"]) > 1 and spec.get("single"):
                n = 1            # (known finding of C29)
            v = multiple(*[new() for _ in range(n)])
        elif r == "none":
            v = None
        elif r == "arg":
            v = args[0] if args and desc["args"][0][0] in ("b", "c", "int", "text", "ints", "m") else new()
        elif r == "int":
            v = self.count
        elif r == "list":
            v = [self.count]
        else:
            if self.kept is None:
                self.kept = new()
            v = self.kept
        for x in (v.values if isinstance(v, MultipleResults) else [v]):
            for t in desc["t"]:
                self.model[t].append(x)
        return v

    class Base(RuleBasedStateMachine):
        replaying = False

        def __init__(self):
            super().__init__()
            self.count = 0
            self.model = [[], [], []]
            self.n = 0
            self.events = []
            self.done = []
            self.kept = None
            self.failed = None
            self.loose = False
            self.rejected = False
            log.machines.append(self)
            self.schedule()

        def fresh(self):
            self.n += 1
            return self.n

        def bad(self, msg):
            if not self.loose:
                log.problems.append(f"{msg}; events {self.events[-12:]}")

        def schedule(self):
            """the invariants due now"""
            left = len(spec["inits"]) - len({i for k, i in self.done if k == "init"})
            self.due = [i for i, v in enumerate(spec["invs"]) if (v["init"] or not left) and all(holds(p, self) for p in v["pre"])]

        def settle(self, what):
            if self.due and not self.failed and not self.rejected:
                self.bad(f"{what} although the invariants {self.due} have not run")
            if self.failed:
                self.bad(f"{what} after the failure {self.failed}")
            self.due = []

        def teardown(self):
            if "teardown" in [e[0] for e in self.events]:
                self.bad("a second teardown")
            if self.due and not self.failed and not self.rejected:
                self.bad(f"teardown although the invariants {self.due} have not run")
            self.events.append(("teardown",))
            if spec["tear"] and self.count >= 3 and not (spec.get("single") and self.failed):
                self.failed = self.failed or spec["tear"]
                raise ERR[spec["tear"]]("teardown")
    ns = {"base": {}, "sub": {}}
    meth = []

    def call(kind, i, desc, version=0):
        what = f"{kind} {i}"

        def f(self, **kw):
            args = [kw[f"a{j}"] for j in range(len(desc["args"]))]
            self.settle(what)
            if kind == "init":
                if ("init", i) in self.done:
                    self.bad(f"{what} runs a second time")
                if any(k == "rule" for k, _ in self.done):
                    self.bad(f"{what} runs after a rule")
            else:
                left = [j for j in range(len(spec["inits"])) if ("init", j) not in self.done]
                if left:
                    self.bad(f"{what} runs although the initialize rules {left} have not")
                if over == "plain" and i == 0 and split > 0 or over == "redo" and i == 0 and split > 0 and version == 0:
                    self.bad(f"{what} of the base class runs although the subclass overrides it")
                for p in desc["pre"]:
                    if not holds(p, self) or p[0] == "once" and ("rule", i) in self.done:
                        self.bad(f"{what} runs although its precondition {p} is false at count {self.count}")
            if len(self.done) >= spec["steps"]:
                self.bad(f"{what} is step {len(self.done) + 1}, but stateful_step_count is {spec['steps']}")
            self.events.append((kind, i, list(args)))
            self.done.append((kind, i))
            judge(self, desc, args, what)
            if desc["assume"] is not None and kind == "rule" and self.count >= desc["assume"]:
                self.rejected = True
                assume(False)
            e = fails(self, desc["fail"], args)
            if e:
                self.failed = f"{e}: {what}"
                raise ERR[e](what)
            self.count += kind == "rule"
            v = give(self, desc, args)
            self.schedule()
            return v
        f.__name__ = f"{kind}{i}"
        f.__qualname__ = f"M.{kind}{i}"
        return f

    def check(i, desc):
        def f(self):
            if i not in self.due:
                self.bad(f"invariant {i} runs, but {self.due} are due")
            else:
                self.due.remove(i)
            for p in desc["pre"]:
                if not holds(p, self):
                    self.bad(f"invariant {i} runs although its precondition {p} is false")
            if self.failed:
                self.bad(f"invariant {i} runs after the failure {self.failed}")
            self.events.append(("inv", i))
            e = fails(self, desc["fail"], [])
            if e:
                self.failed = f"{e}: invariant {i}"
                raise ERR[e](f"invariant {i}")
        f.__name__ = f"inv{i}"
        f.__qualname__ = f"M.inv{i}"
        return f

    def pred(p, i):
        if p[0] == "once":
            return lambda self: ("rule", i) not in self.done
        return lambda self: holds(p, self)

    def deco(f, dec, desc, i):
        ps = [precondition(pred(p, i)) for p in desc["pre"]]
        for p in ps if desc["above"] else []:
            pass
        g = f
        if not desc["above"]:
            for p in ps:
                g = p(g)
        g = dec(g)
        if desc["above"]:
            for p in ps:
                g = p(g)
        return g

    def kwargs(desc):
        kw = {f"a{j}": strat(a) for j, a in enumerate(desc["args"])}
        t = [bundles[i] for i in desc["t"]]
        if len(t) == 1:
            kw["target"] = t[0]
        elif t:
            kw["targets"] = tuple(t)
        return kw
    split, over = spec["split"], spec["override"]
    for i, d in enumerate(spec["rules"]):
        where = "base" if i < split else "sub"
        ns[where][f"rule{i}"] = deco(call("rule", i, d), rule(**kwargs(d)), d, i)
    if over and split > 0:
        d = spec["rules"][0]
        f = call("rule", 0, d, 1)
        ns["sub"]["rule0"] = deco(f, rule(**kwargs(d)), d, 0) if over == "redo" else f
    for i, d in enumerate(spec["inits"]):
        ns["base" if split > 2 else "sub"][f"init{i}"] = initialize(**kwargs(d))(call("init", i, d))
    for i, d in enumerate(spec["invs"]):
        ns["base" if split > 1 else "sub"][f"inv{i}"] = deco(check(i, d), invariant(check_during_init=d["init"]), d, None)
    B = type(Base)("B", (Base,), ns["base"])
    M = type(Base)("M", (B,), ns["sub"])

    def active(self):
        """rules which could run in this state, as far as preconditions and bundles say"""
        out = []
        for i, d in enumerate(spec["rules"]):
            if i == 0 and over == "plain" and split > 0:
                continue
            if all((holds(p, self) if p[0] != "once" else ("rule", i) not in self.done) for p in d["pre"]) and all(self.model[a[1]] for a in d["args"] if a[0] in ("b", "c")):
                out.append(i)
        return out
    M.active = active
    return M
