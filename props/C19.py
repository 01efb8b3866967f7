"""A logical process is a thread whose file-system calls (os.mkdir, rename, unlink, listdir, stat, open, write, ...)
are scheduling points owned by the check: exactly one process runs between two points, in the generated order.
Faults (an errno at the n-th call, a crash before or after it, EXDEV between temp and database directory, a real
RLIMIT_FSIZE write limit) are injected at the same points.  Everything stays inside a scratch directory."""
import builtins
import errno
import io
import os
import shutil
import signal
import tempfile
import threading
from pathlib import Path

RULE = ("generated initial contents, 1-3 logical processes with up to 4 operations each, and either an explicit schedule "
        "of their file-system calls, schedules with at most two context switches of a pair of operations (sampled in quick, all of them in thorough), an injected errno / crash / "
        "write limit / cross-device rename at a generated call, foreign files, or corrupted entries under a running test; "
        "non-trivial = processes actually interleaved inside an operation, or the fault actually fired")
TECHNIQUE = "fault-injecting and schedule-controlling property-based testing with a history oracle over a set model"
LEVEL = "fault_enumeration"
NOTE = ("Interleaving granularity is one Python-level file-system call; kernel behaviour (atomic rename, directory listing) "
        "is trusted. Crash means the process stops at a call; power loss with unsynced pages is not modelled.")
QUICK, THOROUGH = 2400, 60000
KEYS = [b"k1", b"k2", b"k3"]
VALS = [b"", b"v1", b"v22", b"w" * 3000]
ERRS = ["ENOSPC", "EACCES", "EIO", "EMFILE", "ENOENT", "EROFS", "EEXIST", "ENOTDIR", "EXDEV", "EPERM", "ENOTEMPTY", "EINTR", "ENAMETOOLONG"]


def cases(tier):
    from hypothesis import strategies as st

    key, val = st.integers(0, 2), st.integers(0, 3)
    op = st.one_of(
        st.tuples(st.just("save"), key, val), st.tuples(st.just("save"), key, val), st.tuples(st.just("delete"), key, val),
        st.tuples(st.just("move"), key, key, val), st.tuples(st.just("move"), key, key, val), st.tuples(st.just("fetch"), key))
    k2, v2 = st.integers(0, 1), st.integers(1, 2)
    hot = st.one_of(st.tuples(st.just("save"), k2, v2), st.tuples(st.just("delete"), k2, v2),
                    st.tuples(st.just("move"), k2, key, v2), st.tuples(st.just("fetch"), k2))
    init = st.lists(st.tuples(key, val), max_size=4)
    sched = st.fixed_dictionaries({"k": st.just("sched"), "init": init, "actors": st.lists(st.lists(st.one_of(op, hot, hot), min_size=1, max_size=4), min_size=2, max_size=3),
                                   "schedule": st.lists(st.integers(0, 2), max_size=90), "xdev": st.integers(0, 3).map(lambda i: i == 0)})
    pair = st.fixed_dictionaries({"k": st.just("pair"), "init": st.lists(st.tuples(k2, v2), max_size=3), "a": hot, "b": hot,
                                  "picks": st.just(None) if tier == "thorough" else st.lists(st.tuples(st.integers(0, 1), st.integers(0, 30), st.integers(0, 30)), min_size=3, max_size=8)})
    fault = st.fixed_dictionaries({"k": st.just("fault"), "init": init, "ops": st.lists(op, min_size=1, max_size=4),
                                   "at": st.integers(0, 25), "n": st.integers(1, 3), "err": st.sampled_from(ERRS), "missing": st.booleans()})
    crash = st.fixed_dictionaries({"k": st.just("crash"), "init": init, "ops": st.lists(op, min_size=1, max_size=4),
                                   "at": st.integers(0, 25), "after": st.booleans(), "partial": st.booleans()})
    limit = st.fixed_dictionaries({"k": st.just("limit"), "init": init, "ops": st.lists(op, min_size=1, max_size=4), "limit": st.sampled_from([0, 1, 2, 100, 2999])})
    foreign = st.fixed_dictionaries({
        "k": st.just("foreign"), "init": init, "ops": st.lists(op, min_size=1, max_size=6),
        "files": st.lists(st.tuples(key, st.sampled_from(["x", "README", ".hidden", "0123456789abcdef", "tmp1~"]),
                                    st.sampled_from(["file", "file", "dir", "dangling", "empty", "link"]), st.binary(max_size=8)), max_size=4),
        "shape": st.sampled_from(["ok", "ok", "ok", "rootfile", "keyfile", "noroot", "symroot"])})
    junk = st.fixed_dictionaries({
        "k": st.just("junk"), "n": st.integers(0, 40), "typ": st.sampled_from(["int", "text", "list"]),
        "edits": st.lists(st.one_of(st.tuples(st.just("trunc"), st.integers(0, 6)), st.tuples(st.just("flip"), st.integers(0, 60)),
                                    st.tuples(st.just("add"), st.binary(max_size=12)), st.tuples(st.just("replace"), st.binary(max_size=12)),
                                    st.tuples(st.just("append"), st.binary(min_size=1, max_size=5)), st.tuples(st.just("dir"), st.just(0))), min_size=1, max_size=5),
        "seed": st.integers(0, 2**20)})
    common = st.one_of(sched, sched, sched, fault, fault, crash, crash, limit, foreign, pair)
    return st.integers(0, 29).flatmap(lambda i: junk if i == 0 else common)


class Crash(BaseException):
    pass


class Deadlock(Exception):
    pass


class Control:
    """Owns the file-system calls of registered threads."""

    NAMES = ["mkdir", "rename", "replace", "unlink", "remove", "rmdir", "listdir", "scandir", "stat", "lstat", "open", "write",
             "link", "symlink", "truncate", "ftruncate", "fsync", "access", "makedirs_"]

    def __init__(self):
        self.tl = threading.local()
        self.real = {}
        self.hook = None       # called as hook(actor, name, args) before each call; may raise
        self.after = None

    def __enter__(self):
        def wrap(name, f):
            def g(*a, **kw):
                actor = getattr(self.tl, "actor", None)
                if actor is None:
                    return f(*a, **kw)
                if self.hook is not None:
                    self.hook(actor, name, a)
                r = f(*a, **kw)
                if self.after is not None:
                    self.after(actor, name, a)
                return r
            return g
        for n in self.NAMES:
            if hasattr(os, n):
                self.real[os, n] = getattr(os, n)
                setattr(os, n, wrap(n, getattr(os, n)))
        for m in (io, builtins):
            self.real[m, "open"] = m.open
            m.open = wrap("io.open", m.open)
        return self

    def __exit__(self, *a):
        for (m, n), f in self.real.items():
            setattr(m, n, f)


class History:
    def __init__(self, init):
        self.t = 0
        self.adds = {}
        self.rems = {}
        self.fetches = []
        self.foreign = {}
        for k, v in init:
            self.add(k, v, -1, -1)

    def tick(self):
        self.t += 1
        return self.t

    def add(self, k, v, s, e):
        self.adds.setdefault((k, v), []).append([s, e])
        return self.adds[k, v][-1]

    def begin(self, op):
        s = self.tick()
        spans = []
        inf = float("inf")
        if op[0] == "save":
            spans.append(self.add(op[1], op[2], s, inf))
        elif op[0] == "delete":
            spans.append([s, inf])
            self.rems.setdefault((op[1], op[2]), []).append(spans[-1])
        elif op[0] == "move":
            spans.append(self.add(op[2], op[3], s, inf))
            if op[1] != op[2]:
                spans.append([s, inf])
                self.rems.setdefault((op[1], op[3]), []).append(spans[-1])
        return spans

    def end(self, spans):
        e = self.tick()
        for sp in spans:
            sp[1] = e

    def must_have(self, k, v, lo, hi):
        """v was in k during all of [lo, hi], whatever the interleaving."""
        for s, e in self.adds.get((k, v), ()):
            if e < lo and not any(re > s and rs < hi for rs, re in self.rems.get((k, v), ())):
                return True
        return False

    def may_have(self, k, v, lo, hi):
        adds = [sp for sp in self.adds.get((k, v), ()) if sp[0] < hi]
        for s, e in adds:
            # some add not certainly undone before lo
            if not any(rs > e and re < lo for rs, re in self.rems.get((k, v), ())):
                return True
        return False


def judge(h, k, got, lo, hi, R, what, lossy=()):
    key = KEYS[k]
    foreign = h.foreign.get(k, [])
    counts = {}
    for x in got:
        counts[x] = counts.get(x, 0) + 1
    for x, n in counts.items():
        ok = n <= foreign.count(x) + sum(1 for v in range(4) if VALS[v] == x and h.may_have(k, v, lo, hi))
        R.check(ok, lambda: f"{what}: fetch({key!r}) yields {x!r} x{n}, which nothing put there (history adds {h.adds} removes {h.rems})")
    for v in range(4):
        if (k, v) not in lossy and h.must_have(k, v, lo, hi):
            R.check(VALS[v] in counts, lambda: f"{what}: fetch({key!r}) lacks {VALS[v]!r}, saved and not deleted (adds {h.adds} removes {h.rems})")
    for x in set(foreign):
        R.check(x in counts, f"{what}: foreign file contents {x!r} under {key!r} not yielded: {got}")


def do(db, op, h, R):
    spans = h.begin(op)
    lo = h.t
    if op[0] == "save":
        db.save(KEYS[op[1]], VALS[op[2]])
    elif op[0] == "delete":
        db.delete(KEYS[op[1]], VALS[op[2]])
    elif op[0] == "move":
        db.move(KEYS[op[1]], KEYS[op[2]], VALS[op[3]])
    else:
        got = list(db.fetch(KEYS[op[1]]))
        h.fetches.append((op[1], got, lo, h.tick()))
    h.end(spans)


def setup_db(tmp, init):
    from hypothesis.database import DirectoryBasedExampleDatabase as D

    root = tmp / "db"
    d = D(root)
    for k, v in init:
        d.save(KEYS[k], VALS[v])
    return root


def inside(p, root):
    try:
        return str(p).startswith(str(root) + os.sep)
    except Exception:
        return False


def xdev_hook(root):
    def f(actor, name, args):
        if name in ("rename", "replace", "link") and inside(args[1], root) != inside(args[0], root):
            raise OSError(errno.EXDEV, "Invalid cross-device link")
    return f


def run_schedule(tmp, init, actors, choose, R, what, xdev=False):
    """Run the actors under a schedule; returns the number of choices made and of switches."""
    from hypothesis.database import DirectoryBasedExampleDatabase as D

    root = setup_db(tmp, init)
    h = History(init)
    ctl = Control()
    n = len(actors)
    go = [threading.Semaphore(0) for _ in range(n)]
    back = threading.Semaphore(0)
    state = ["new"] * n
    inop = [False] * n
    errors = [None] * n
    xd = xdev_hook(root)

    def hook(actor, name, args):
        state[actor] = "wait"
        back.release()
        go[actor].acquire()
        state[actor] = "run"
        if xdev:
            xd(actor, name, args)

    def body(i):
        go[i].acquire()
        ctl.tl.actor = i
        try:
            db = D(root)
            for op in actors[i]:
                inop[i] = True
                do(db, op, h, R)
                inop[i] = False
        except BaseException as e:
            errors[i] = e
        finally:
            ctl.tl.actor = None
            state[i] = "done"
            back.release()

    ctl.hook = hook
    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    steps = interleaved = 0
    last = None
    with ctl:
        for t in threads:
            t.start()
        while True:
            live = [i for i in range(n) if state[i] != "done"]
            if not live:
                break
            i = choose(steps, live, last)
            if last is not None and last != i and inop[last]:
                interleaved += 1
            steps += 1
            last = i
            go[i].release()
            if not back.acquire(timeout=60):
                raise Deadlock(f"{what}: no progress")
        for t in threads:
            t.join()
    for i, e in enumerate(errors):
        if e is not None:
            raise e
    for k, got, lo, hi in h.fetches:
        judge(h, k, got, lo, hi, R, what + " (during)")
    now = h.tick()
    for k in range(3):
        judge(h, k, list(D(root).fetch(KEYS[k])), now, now, R, what + " (at the end)")
    return steps, interleaved


def fresh(base):
    return Path(tempfile.mkdtemp(dir=base))


def run(case, R):
    base = Path(tempfile.mkdtemp())
    os.mkdir(base / "tmp")
    old = tempfile.tempdir
    tempfile.tempdir = str(base / "tmp")
    try:
        R.label(case["k"])
        globals()["do_" + case["k"]](case, R, base)
        left = os.listdir(base / "tmp")
        if case["k"] not in ("crash", "fault"):
            R.check(not left, f"temporary files left behind: {left}")
    finally:
        tempfile.tempdir = old
        shutil.rmtree(base, ignore_errors=True)


def do_sched(case, R, base):
    seq = case["schedule"]

    def choose(step, live, last):
        if step < len(seq):
            return live[seq[step] % len(live)]
        return live[0]

    steps, inter = run_schedule(fresh(base), case["init"], case["actors"], choose, R, "schedule", case["xdev"])
    R.nontrivial(inter > 0)
    R.label("interleaved" if inter else "sequential")


def do_pair(case, R, base):
    """Schedules of two single operations with at most two context switches."""
    a, b = [case["a"]], [case["b"]]

    def attempt(first, i, j):
        def choose(step, live, last):
            want = first if step < i else 1 - first if step < i + j else first
            return want if want in live else live[0]
        return run_schedule(fresh(base), case["init"], [a, b], choose, R, f"switches at {i},{i + j} starting with {first}")

    R.nontrivial()
    for first in (0, 1):
        total, _ = attempt(first, 10**6, 0)
        if case["picks"] is None:
            points = [(i, j) for i in range(1, total) for j in range(1, total)]
        else:
            points = [(1 + x % (total - 1), 1 + y % (total - 1)) for f, x, y in case["picks"] if f == first and total > 1]
        for i, j in points:
            attempt(first, i, j)
            R.evals()


def do_fault(case, R, base):
    from hypothesis.database import DirectoryBasedExampleDatabase as D

    root = setup_db(base, case["init"])
    if case["missing"]:
        shutil.rmtree(root, ignore_errors=True)
    h = History([] if case["missing"] else case["init"])
    ctl = Control()
    count = [0]
    err = getattr(errno, case["err"])
    lossy = set()
    cur = [None]

    def hook(actor, name, args):
        i = count[0]
        count[0] += 1
        if case["at"] <= i < case["at"] + case["n"]:
            R.nontrivial()
            R.label("fault:" + name)
            lossy.add(cur[0])
            raise OSError(err, os.strerror(err))

    ctl.hook = hook
    db = D(root)
    res = []
    for idx, op in enumerate(case["ops"]):
        cur[0] = idx
        with ctl:
            ctl.tl.actor = 0
            try:
                do(db, op, h, R)
            finally:
                ctl.tl.actor = None
        if op[0] == "fetch":
            res.append((idx, h.fetches[-1]))
    # what a faulted operation was about is uncertain, everything else is not
    uncertain = set()
    for idx in lossy:
        op = case["ops"][idx]
        if op[0] in ("save", "delete"):
            uncertain.add((op[1], op[2]))
        elif op[0] == "move":
            uncertain |= {(op[1], op[3]), (op[2], op[3])}
    for k, v in uncertain:
        h.rems.pop((k, v), None)  # its removals may have failed
    for idx, (k, got, lo, hi) in res:
        judge(h, k, got, lo, hi, R, f"fault {case['err']}", lossy=uncertain if idx not in lossy else {(k, v) for v in range(4)})
    now = h.tick()
    for k in range(3):
        judge(h, k, list(D(root).fetch(KEYS[k])), now, now, R, f"after fault {case['err']}", lossy=uncertain)
    usable(root, R, "after a fault")


def usable(root, R, what):
    from hypothesis.database import DirectoryBasedExampleDatabase as D

    d = D(root)
    for k in KEYS:
        d.save(k, b"later")
        R.check(b"later" in list(D(root).fetch(k)), f"{what}: a value saved afterwards is not fetched")
        d.move(k, b"k9", b"later")
        R.check(b"later" in list(d.fetch(b"k9")) and b"later" not in list(d.fetch(k)), f"{what}: move afterwards fails")
        d.delete(b"k9", b"later")
        R.check(b"later" not in list(d.fetch(b"k9")), f"{what}: delete afterwards fails")


def do_crash(case, R, base):
    from hypothesis.database import DirectoryBasedExampleDatabase as D

    root = setup_db(base, case["init"])
    h = History(case["init"])
    ctl = Control()
    count = [0]
    fired = [False]

    def boom(actor, name, args):
        count[0] += 1
        if fired[0]:
            raise Crash  # a dead process makes no more calls
        if count[0] - 1 == case["at"]:
            if case["partial"] and name == "write" and len(args[1]) > 1:
                ctl.real[os, "write"](args[0], args[1][: len(args[1]) // 2])
            fired[0] = True
            raise Crash

    if case["after"]:
        ctl.after = boom
        ctl.hook = lambda *a: boom(*a) if fired[0] else None
    else:
        ctl.hook = boom
    db = D(root)
    with ctl:
        ctl.tl.actor = 0
        try:
            for op in case["ops"]:
                do(db, op, h, R)
        except Crash:
            R.nontrivial()
        finally:
            ctl.tl.actor = None
    R.label("crashed" if fired[0] else "survived")
    for k, got, lo, hi in h.fetches:
        judge(h, k, got, lo, hi, R, "before crash")
    now = h.tick()
    for k in range(3):
        judge(h, k, list(D(root).fetch(KEYS[k])), now, now, R, "after crash")
    usable(root, R, "after a crash")


def do_limit(case, R, base):
    import resource

    from hypothesis.database import DirectoryBasedExampleDatabase as D

    root = setup_db(base, case["init"])
    h = History(case["init"])
    db = D(root)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    prev = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (case["limit"], hard))
        for op in case["ops"]:
            do(db, op, h, R)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, prev)
    big = {(k, v) for k in range(3) for v in range(4) if len(VALS[v]) > case["limit"]}
    R.nontrivial(any(op[0] == "save" and len(VALS[op[2]]) > case["limit"] for op in case["ops"]))
    now = h.tick()
    for k in range(3):
        judge(h, k, list(D(root).fetch(KEYS[k])), now, now, R, "write limit", lossy=big)
    for k, got, lo, hi in h.fetches:
        judge(h, k, got, lo, hi, R, "write limit", lossy=big)
    usable(root, R, "after a write limit")


def do_foreign(case, R, base):
    from hypothesis.database import DirectoryBasedExampleDatabase as D

    shape = case["shape"]
    R.label("shape:" + shape)
    if shape == "symroot":
        (base / "real").mkdir()
        (base / "db").symlink_to(base / "real")
    root = setup_db(base, case["init"])
    h = History(case["init"])
    d = D(root)
    broken = shape in ("rootfile", "keyfile", "noroot")
    if shape == "rootfile":
        shutil.rmtree(root, ignore_errors=True)
        root.write_bytes(b"not a directory")
    elif shape == "noroot":
        shutil.rmtree(root, ignore_errors=True)
    elif shape == "keyfile":
        # replace every key directory by a file
        for p in list(root.iterdir()) if root.exists() else []:
            shutil.rmtree(p)
            p.write_bytes(b"junk")
    if not broken:
        outside = base / "outside"
        outside.write_bytes(b"linked")
        for k, name, kind, content in case["files"]:
            probe = D(root)
            mark = b"\x00marker"
            before = set(root.rglob("*")) if root.exists() else set()
            probe.save(KEYS[k], mark)
            kd = next(p for p in root.rglob("*") if p.is_file() and p.read_bytes() == mark).parent
            probe.delete(KEYS[k], mark)
            kd.mkdir(exist_ok=True)
            f = kd / name
            if f.exists() or f.is_symlink():
                continue
            R.nontrivial()
            if kind in ("file", "empty"):
                f.write_bytes(content if kind == "file" else b"")
                h.foreign.setdefault(k, []).append(content if kind == "file" else b"")
            elif kind == "dir":
                f.mkdir()
            elif kind == "link":
                f.symlink_to(outside)
                h.foreign.setdefault(k, []).append(b"linked")
            else:
                f.symlink_to(kd / "nowhere")
    else:
        h = History([])
        R.nontrivial()
    for op in case["ops"]:
        do(d, op, h, R)
    lossy = {(k, v) for k in range(3) for v in range(4)} if shape in ("rootfile", "keyfile") else ()
    now = h.tick()
    for k, got, lo, hi in h.fetches:
        judge(h, k, got, lo, hi, R, "foreign files", lossy)
    for k in range(3):
        judge(h, k, list(D(root).fetch(KEYS[k])), now, now, R, "foreign files", lossy)
    if shape == "rootfile":
        R.check(root.read_bytes() == b"not a directory", "the file at the database path was changed")


def do_junk(case, R, base):
    """A run over corrupted entries still gives the right verdict."""
    from hypothesis import given, settings, seed, strategies as st, HealthCheck
    from hypothesis.database import DirectoryBasedExampleDatabase as D

    n = case["n"]
    strat, bad = {
        "int": (st.integers(), lambda x: x > n),
        "text": (st.text("abc"), lambda x: len(x) > n % 5),
        "list": (st.lists(st.integers(0, 9)), lambda x: sum(x) > n),
    }[case["typ"]]
    root = base / "db"
    fail = [True]

    def execute():
        @seed(case["seed"])
        @settings(database=D(root), deadline=None, max_examples=60, suppress_health_check=list(HealthCheck))
        @given(strat)
        def test(x):
            last[:] = [x]
            assert not (fail[0] and bad(x))
        last = []
        try:
            test()
        except AssertionError:
            return "fail", last[0]
        return "pass", None

    first = execute()
    files = [p for p in sorted(root.rglob("*")) if p.is_file()] if root.exists() else []
    R.label("junk:" + first[0])
    for i, (kind, arg) in enumerate(case["edits"]):
        if not files:
            break
        f = files[i % len(files)]
        if not f.is_file():
            continue
        R.nontrivial(first[0] == "fail")
        data = bytearray(f.read_bytes())
        if kind == "trunc":
            f.write_bytes(data[:arg])
        elif kind == "flip":
            if data:
                data[arg // 8 % len(data)] ^= 1 << (arg % 8)
                f.write_bytes(data)
        elif kind == "replace":
            f.write_bytes(arg)
        elif kind == "append":
            f.write_bytes(bytes(data) + arg)
        elif kind == "add":
            (f.parent / f"junk{i}").write_bytes(arg)
        else:
            f.unlink()
            f.mkdir()
    second = execute()
    if second[0] == "fail":
        R.check(bad(second[1]), f"reported input {second[1]!r} does not fail")
    elif first[0] == "fail":
        # same seed, same budget, entries only lost: the failure is found again
        R.fail(f"first run failed with {first[1]!r}, the run over the corrupted database passed: {case['edits']}")
    fail[0] = False
    R.check(execute()[0] == "pass", "a fixed test fails over a corrupted database")
