"""A history of runs of one test, whose behaviour changes between runs, over one in-memory or directory database.  Inputs are identified
by the arguments the body sees.  Inputs reported by earlier runs must be executed first, the run must fail while any of them fails, an
unchanged test must fail with the same input, and a probe of the database after every run (replaying only saved failures) shows that nothing
still failing was lost and nothing fixed was kept.  Runs without the database or the reuse phase, or of another test, must neither replay nor
disturb the entries."""
from vlib import engine as E

RULE = ("generated histories of 2-6 runs of a test whose behaviour changes or not, over an in-memory or directory database, with interposed runs of "
        "other tests, without database or reuse phase; non-trivial = some run starts with saved failures")
TECHNIQUE = "stateful property-based testing of run histories against the execution log and a replay-only probe of the database"
NOTE = "A saved input is one that a previous run reported; order among several saved inputs is not specified."
QUICK, THOROUGH = 700, 30000


def cases(tier):
    from hypothesis import strategies as st

    rules = st.one_of(E.rules(st, ["E0", "E2", "E5", "EA", "pass"], 3), E.rules(st, ["E0", "E2", "assume"], 3)).filter(
        lambda r: any(a.startswith("E") for c, a in r))
    run = st.fixed_dictionaries({
        "rules": st.one_of(st.none(), st.none(), st.none(), rules, st.just([])), "multi": st.sampled_from([True, True, False]),
        "mode": st.sampled_from(["normal"] * 6 + ["nodb", "noreuse", "otherkey", "othersrc", "otherargs", "noshrink"]), "seed": st.integers(0, 10**6)})
    # several distinct failures, some of which are fixed between the runs
    tags = st.lists(st.sampled_from(["E0", "E2", "E5", "E6", "E7", "EA"]), min_size=3, max_size=6, unique=True)
    fix = st.fixed_dictionaries({"rules": st.lists(st.booleans(), min_size=6, max_size=6).map(lambda m: {"fix": m}), "multi": st.sampled_from([True, True, True, False]),
                                 "mode": st.just("normal"), "seed": st.integers(0, 10**6)})
    first = st.fixed_dictionaries({"rules": st.none(), "multi": st.just(True), "mode": st.just("normal"), "seed": st.integers(0, 10**6)})
    many = st.fixed_dictionaries({
        "specs": E.specs(st, 2), "rules": tags.map(lambda l: [[["h", 7, i], t] for i, t in enumerate(l)]), "runs": st.tuples(first, st.lists(fix, min_size=1, max_size=3)).map(lambda t: [t[0], *t[1]]),
        "n": st.sampled_from([10, 20, 20, 60]), "dir": st.booleans(), "key": st.booleans(), "src": st.booleans()})
    general = st.fixed_dictionaries({
        "specs": st.one_of(E.small_specs(st), E.specs(st, 2)), "rules": rules, "runs": st.lists(run, min_size=2, max_size=6),
        "n": st.sampled_from([5, 20, 60]), "dir": st.booleans(), "key": st.booleans(), "src": st.sampled_from([True, True, False])})
    return st.one_of(general, general, many)


def contents(db):
    if hasattr(db, "data"):
        return {k: set(v) for k, v in db.data.items() if v}
    return {p.relative_to(db.path): p.read_bytes() for p in db.path.rglob("*") if p.is_file()}


def run(case, R):
    import linecache
    import tempfile
    from pathlib import Path

    from hypothesis import Phase, given, settings
    from hypothesis import strategies as st
    from hypothesis.database import DirectoryBasedExampleDatabase, InMemoryExampleDatabase
    from hypothesis.errors import Unsatisfiable
    from vlib.sut import ALL_HC

    strats = {c: E.build(s) for c, s in zip("abcdef", case["specs"])}
    names = list(strats)

    def decorated(rules, out, mode, tmp):
        def body(args):
            x = E.action(rules, args)
            out.log.append((args, x))
            E.act(x, args)
        # real source files, so that the key derived from the source is exercised
        extra = ", zz" if mode == "otherargs" else ""
        src = f"def test({', '.join(names)}{extra}):\n" + ("    y = 1\n" if mode == "othersrc" else "") + f"    body(({', '.join(names)},))\n"
        path = Path(tmp) / (f"src_{'othersrc' if mode == 'othersrc' else 'args' if extra else 'plain'}.py")
        path.write_text(src)
        linecache.checkcache()
        ns = {"body": body}
        exec(compile(src, str(path) if case["src"] else "<string>", "exec"), ns)
        f = given(**strats, **({"zz": st.just(0)} if extra else {}))(ns["test"])
        if mode == "otherkey":
            f._hypothesis_internal_database_key = b"other"
        elif case["key"] and mode not in ("othersrc", "otherargs"):
            f._hypothesis_internal_database_key = b"verif"
        return f

    def go(rules, mode, seed, out, db, tmp, **kw):
        phases = {"noreuse": {Phase.generate, Phase.shrink}, "noshrink": {Phase.reuse, Phase.generate}, "probe": {Phase.reuse}}.get(
            mode, {Phase.reuse, Phase.generate, Phase.shrink})
        kw = dict(max_examples=case["n"], phases=sorted(phases), database=db, deadline=None, suppress_health_check=ALL_HC, derandomize=False,
                  backend="hypothesis", print_blob=False) | kw
        E.run(E.seeded(seed, settings(**kw), decorated(rules, out, mode, tmp)), out)
        return out

    def args_of(out):
        res = {}
        for e, t in zip(out.leaves, out.tags):
            if t is not None:
                a = E.shown(e)
                a = tuple(a[k] for k in names)
                res[E.rep(a)] = (a, t)
        return res

    with tempfile.TemporaryDirectory() as tmp:
        db = DirectoryBasedExampleDatabase(tmp + "/db") if case["dir"] else InMemoryExampleDatabase()
        rules = case["rules"]
        saved = {}          # repr -> args, reported by earlier runs and possibly still failing
        used = set()
        exact = True        # are these all the saved failures?
        for i, r in enumerate(case["runs"]):
            if isinstance(r["rules"], dict):
                r = r | {"rules": [[c, "pass" if m else a] for (c, a), m in zip(rules, r["rules"]["fix"])]}
            changed = r["rules"] is not None and r["rules"] != rules
            rules = rules if r["rules"] is None else r["rules"]
            mode, multi = r["mode"], r["multi"]
            if mode == "othersrc" and not case["src"]:
                mode = "otherargs"
            before = contents(db)
            out = go(rules, mode, r["seed"], E.Out(), None if mode == "nodb" else db, tmp, report_multiple_bugs=multi)
            log = out.log
            R.evals(len(log))
            now = {k: E.action(rules, a) for k, a in saved.items()}
            still = {k: t for k, t in now.items() if t.startswith("E")}

            def ctx():
                return (f"{case} run {i} ({mode}, rules {rules}): saved {list(saved.values())} log {log[:6]}...{log[-2:]} raised {out.exc!r}")
            R.check(all(t is not None for t in out.tags) or isinstance(out.exc, Unsatisfiable), lambda: f"unexpected {ctx()}")
            reported = args_of(out)
            tags = set(out.tags) if reported else set()
            if mode in ("nodb", "otherkey", "othersrc", "otherargs"):
                after = contents(db)
                if mode == "nodb":
                    R.check(after == before, lambda: f"database=None changed the database: {ctx()}")
                else:
                    R.check(all(after.get(k) == v for k, v in before.items()) or mode in used,
                            lambda: f"a different test changed the entries of this one: {ctx()}")
                    if mode not in used:
                        o = go(rules, mode, r["seed"], E.Out(), InMemoryExampleDatabase(), tmp, report_multiple_bugs=multi)
                        R.check([E.rep(x) for x in o.log] == [E.rep(x) for x in log], lambda: f"replayed another test's entries: {ctx()} vs {o.log[:6]}")
                R.label("bystander")
                if saved:
                    R.nontrivial()
            elif mode == "noreuse":
                o = go(rules, mode, r["seed"], E.Out(), InMemoryExampleDatabase(), tmp, report_multiple_bugs=multi)
                R.check([E.rep(x) for x in o.log] == [E.rep(x) for x in log], lambda: f"replayed without the reuse phase: {ctx()} vs {o.log[:6]}")
                exact = False
            elif saved:
                R.nontrivial()
                R.label("all still fail" if len(still) == len(saved) else "some fixed" if still else "all fixed")
                head = [E.rep(a) for a, b in log]
                if multi and exact:
                    R.check(set(head[:len(saved)]) == set(saved), lambda: f"the saved failures were not executed first: {ctx()}")
                elif multi or (not still and exact):
                    R.check(set(saved) <= set(head), lambda: f"a saved failure was not executed: {ctx()}")
                elif exact:
                    R.check(head[:1] and head[0] in saved, lambda: f"no saved failure was executed first: {ctx()}")
                if still:
                    R.check(bool(reported), lambda: f"saved inputs {list(still)} still fail, but the run did not: {ctx()}")
                if multi:
                    R.check(set(still.values()) <= tags, lambda: f"of {still} only {tags} reported: {ctx()}")
                    if exact and len(still) == len(saved) == len(set(still.values())):
                        R.check(set(reported) == set(saved), lambda: f"replaying reports other inputs than the saved ones: {reported} {ctx()}")
                        R.label("same again")
            if mode in ("normal", "noshrink", "noreuse"):
                saved = {k: a for k, (a, t) in reported.items()} | {k: saved[k] for k, t in still.items() if t not in tags}
                if mode != "noreuse":
                    exact = multi and (exact or len(still) == 0 or not saved) and not (changed and still)
                if not out.failed and mode != "noreuse":
                    exact = True
            used.add(mode)
            # what is saved now?
            probe = go(rules, "probe", 0, E.Out(), copied(db, tmp, i), tmp, report_multiple_bugs=True, max_examples=1000)
            live = {E.action(rules, a) for a in saved.values()} & set(E.FAILS)
            R.check(live <= set(probe.tags), lambda: f"entries {list(saved.values())} still fail with {live}, but are no longer saved (a replay finds {probe.tags}): {ctx()}")
            if mode in ("normal", "noshrink") and multi and out.failed:
                R.check(all(b.startswith("E") for a, b in probe.log), lambda: f"an entry that no longer fails was kept: {probe.log} {ctx()}")
            if mode in ("normal", "noshrink") and not out.failed and not case["dir"] and not used & {"otherkey", "othersrc", "otherargs"}:
                left = [k for k in contents(db) if not k.endswith((b".secondary", b".pareto"))]
                R.check(not left, lambda: f"nothing failed, but failures are still saved under {left}: {ctx()}")


def copied(db, tmp, i):
    import copy
    import shutil

    from hypothesis.database import DirectoryBasedExampleDatabase, InMemoryExampleDatabase
    if hasattr(db, "data"):
        res = InMemoryExampleDatabase()
        res.data = copy.deepcopy(db.data)
        return res
    dst = f"{tmp}/copy{i}"
    if db.path.exists():
        shutil.copytree(db.path, dst)
    return DirectoryBasedExampleDatabase(dst)
