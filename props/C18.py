import shutil
import tempfile
from collections import Counter
from pathlib import Path

RULE = ("generated compositions of databases (in-memory, directory, fake Redis, under read-only / multiplexed / "
        "background-writing wrappers to depth 3) with histories of up to 40 save/delete/move/fetch/listener operations, "
        "through the wrapper or a second handle on a leaf; plus GitHub artifacts zipped from generated contents; "
        "non-trivial = a delete or move that removed an existing value, or an artifact with >= 2 values")
TECHNIQUE = "stateful property-based testing against a mapping-from-keys-to-sets reference model"
NOTE = ("Model equality is checked for every key after every operation; listener events are compared in order where "
        "delivery is synchronous (in-memory, fake Redis, background after a fetch). Directory listener events depend on "
        "OS notifications and are checked for in-memory/Redis leaves only. Redis is fakeredis.")
QUICK, THOROUGH = 2400, 60000
KEYS = [b"", b"a", b"b", b"\x00", b"a\x00", b".hypothesis-keys2", "☃".encode(), b"x" * 300]
VALS = [b"", b"\x00", b"a", b"b", b"0", b"\xff" * 5, b"y" * 5000, b"\r\n", b"aa"]


def cases(tier):
    from hypothesis import strategies as st

    leaf = st.sampled_from(["mem", "mem", "dir", "dir", "redis"]).map(lambda x: [x])
    wrap = lambda s: st.one_of(
        s.map(lambda x: ["ro", x]), s.map(lambda x: ["bg", x]),
        st.lists(s, min_size=1, max_size=3).map(lambda l: ["mux", *l]))
    comp = st.one_of(leaf, wrap(leaf), wrap(wrap(leaf)))
    key = st.one_of(st.sampled_from(KEYS[:4]), st.sampled_from(KEYS), st.binary(max_size=4))
    val = st.one_of(st.sampled_from(VALS[:4]), st.sampled_from(VALS), st.binary(max_size=6))
    via = st.one_of(st.just(-1), st.just(-1), st.integers(0, 3))
    op = st.one_of(
        st.tuples(st.just("save"), via, key, val), st.tuples(st.just("save"), via, key, val),
        st.tuples(st.just("save"), via, key, val),
        st.tuples(st.just("delete"), via, key, val), st.tuples(st.just("move"), via, key, key, val),
        st.tuples(st.just("delete_existing"), via, st.integers(0, 50)),
        st.tuples(st.just("move_existing"), via, st.integers(0, 50), key),
        st.tuples(st.just("move_existing"), via, st.integers(0, 50), key),
        st.tuples(st.just("reopen")),
        st.tuples(st.just("add"), st.integers(0, 2)), st.tuples(st.just("rem"), st.integers(0, 2)), st.tuples(st.just("clear")))
    hist = st.fixed_dictionaries({"k": st.just("hist"), "comp": comp, "ops": st.lists(op, min_size=1, max_size=40)})
    gh = st.fixed_dictionaries({"k": st.just("github"), "data": st.lists(st.tuples(key, val), max_size=8),
                                "dirs": st.booleans(), "old": st.booleans(), "expired": st.booleans(), "corrupt": st.integers(0, 9)})
    return st.one_of(hist, hist, hist, gh)


class Node:
    """Model and real database, in parallel."""

    def __init__(self, spec, leaves, tmp):
        from hypothesis.database import (BackgroundWriteDatabase, DirectoryBasedExampleDatabase, InMemoryExampleDatabase,
                                         MultiplexedDatabase, ReadOnlyDatabase)

        self.kind = spec[0]
        self.kids = [Node(s, leaves, tmp) for s in spec[1:]]
        self.parent = None
        for k in self.kids:
            k.parent = self
        if self.kind == "mem":
            self.db = InMemoryExampleDatabase()
        elif self.kind == "dir":
            self.path = tmp / f"db{len(leaves)}" / "sub"
            self.db = DirectoryBasedExampleDatabase(self.path)
        elif self.kind == "redis":
            import uuid
            from fakeredis import FakeRedis
            from hypothesis.extra.redis import RedisExampleDatabase
            self.redis = FakeRedis(host=f"h{len(leaves)}-{tmp.name}-{uuid.uuid4().hex}")
            self.db = RedisExampleDatabase(self.redis)
        elif self.kind == "ro":
            self.db = ReadOnlyDatabase(self.kids[0].db)
        elif self.kind == "bg":
            self.db = BackgroundWriteDatabase(self.kids[0].db)
        else:
            self.db = MultiplexedDatabase(*[k.db for k in self.kids])
        self.data = {}
        if not self.kids:
            leaves.append(self)

    def other_handle(self):
        from hypothesis.database import DirectoryBasedExampleDatabase
        if self.kind == "dir":
            return DirectoryBasedExampleDatabase(self.path)
        if self.kind == "redis":
            from hypothesis.extra.redis import RedisExampleDatabase
            return RedisExampleDatabase(self.redis)
        return self.db

    # model -------------------------------------------------------------
    def m_fetch(self, k):
        if not self.kids:
            return set(self.data.get(k, ()))
        return set().union(*[c.m_fetch(k) for c in self.kids])

    def m_keys(self):
        if not self.kids:
            return {k for k, v in self.data.items() if v}
        return set().union(*[c.m_keys() for c in self.kids])

    def m_apply(self, op, emit):
        if self.kind == "ro":
            return
        if self.kids:
            for c in self.kids:
                c.m_apply(op, emit)
            return
        if op[0] == "save":
            s = self.data.setdefault(op[1], set())
            if op[2] not in s:
                s.add(op[2])
                emit(self, ("save", (op[1], op[2])))
        elif op[0] == "delete":
            s = self.data.get(op[1], set())
            if op[2] in s:
                s.remove(op[2])
                emit(self, ("delete", (op[1], op[2])))
        else:
            _, a, b, v = op
            if a == b:
                return self.m_apply(("save", a, v), emit)
            self.m_apply(("delete", a, v), emit)
            self.m_apply(("save", b, v), emit)


def hist(case, R):
    tmp = Path(tempfile.mkdtemp())
    leaves = []
    root = Node(case["comp"], leaves, tmp)
    has_dir = any(l.kind == "dir" for l in leaves)
    has_bg = "bg" in repr(case["comp"])
    R.label("root:" + case["comp"][0], *{"leaf:" + l.kind for l in leaves})
    seen = {0: [], 1: [], 2: []}
    funcs = {i: (lambda e, i=i: seen[i].append(e)) for i in seen}
    attached = []
    want = {0: [], 1: [], 2: []}

    def visible(leaf):
        n = leaf
        while n is not None:
            if n.kind == "ro":
                return False
            n = n.parent
        return True

    def emit(leaf, event):
        if visible(leaf):
            for i in attached:
                want[i].append(event)

    def sync():
        if has_bg:
            list(root.db.fetch(b"sync"))
        for l in leaves:
            if l.kind == "redis" and l.db._pubsub is not None:
                for _ in range(12):
                    l.db._pubsub.get_message()

    known = set(KEYS)
    try:
        for n, op in enumerate(case["ops"]):
            name = op[0]
            if name == "reopen":
                # a new handle must see exactly the same contents
                for l in leaves:
                    if l.kind != "mem":
                        h = l.other_handle()
                        for k in known:
                            R.check(sorted(h.fetch(k)) == sorted(l.m_fetch(k)), f"reopened {l.kind}: key {k!r}, step {n}")
                continue
            if name in ("add", "rem", "clear"):
                if has_dir:
                    continue
                sync()
                if name == "add":
                    root.db.add_listener(funcs[op[1]])
                    attached.append(op[1])
                elif name == "rem":
                    root.db.remove_listener(funcs[op[1]])
                    if op[1] in attached:
                        attached.remove(op[1])
                else:
                    root.db.clear_listeners()
                    attached.clear()
                continue
            target, tree = root.db, root
            via = op[1]
            if via >= 0:
                tree = leaves[via % len(leaves)]
                target = tree.other_handle()
                sync()
            if name.endswith("_existing"):
                ks = sorted(tree.m_keys())
                if not ks:
                    continue
                k = ks[op[2] % len(ks)]
                vs = sorted(tree.m_fetch(k))
                v = vs[op[2] // len(ks) % len(vs)]
                op = ("delete", via, k, v) if name[0] == "d" else ("move", via, k, op[3], v)
                R.nontrivial()
            name, args = op[0], op[2:]
            getattr(target, name)(*args)
            tree.m_apply((name, *args), emit)
            sync()
            known.update(args[:-1])
            for k in sorted(known):
                got = list(root.db.fetch(k))
                exp = root.m_fetch(k)
                R.check(sorted(got) == sorted(exp),
                        lambda: f"after step {n} {name}{args!r} (via {via}) on {case['comp']}: fetch({k!r}) = {got!r}, model {exp!r}")
            if not has_dir:
                R.check(seen == want, lambda: f"listener events after step {n} {name}{args!r} on {case['comp']}: {seen} expected {want}")
        if has_dir and root.kind == "dir" and not any(o[0] == "x" for o in case["ops"]):
            # only the database's own files may be there
            extra = [p for p in tmp.rglob("*") if p.is_file() and len(p.relative_to(tmp).parts) != 4]
            R.check(not extra, f"stray files {extra}")
        if attached:
            R.label("listeners")
        root.db.clear_listeners()
    finally:
        if has_bg:
            sync()
        shutil.rmtree(tmp, ignore_errors=True)


def github(case, R):
    import os
    import zipfile
    from datetime import datetime, timedelta, timezone

    from hypothesis.database import DirectoryBasedExampleDatabase, GitHubArtifactDatabase, ReadOnlyDatabase

    tmp = Path(tempfile.mkdtemp())
    try:
        model = {}
        d = DirectoryBasedExampleDatabase(tmp / "src")
        for k, v in case["data"]:
            d.save(k, v)
            model.setdefault(k, set()).add(v)
        R.label("github")
        R.nontrivial(len(case["data"]) > 1)
        art = tmp / "art"
        art.mkdir()
        def write(when, root):
            f = art / (when.isoformat().replace(":", "_") + ".zip")
            with zipfile.ZipFile(f, "w") as z:
                for p in sorted(root.rglob("*")):
                    if p.is_file() or case["dirs"]:
                        z.write(p, p.relative_to(root))
            return f
        now = datetime.now(timezone.utc)
        if case["old"]:
            o = DirectoryBasedExampleDatabase(tmp / "old")
            o.save(b"a", b"stale")
            oldf = write(now - timedelta(hours=5), tmp / "old")
        f = write(now - (timedelta(days=40) if case["expired"] and not case["old"] else timedelta(minutes=1)), tmp / "src")
        class Offline(GitHubArtifactDatabase):
            asked = 0
            def _fetch_artifact(self):
                self.asked += 1
                return None
        g = Offline("o", "r", path=art)
        if case["corrupt"] == 0:
            f.write_bytes(b"junk")
            R.check(list(ReadOnlyDatabase(g).fetch(b"a")) == [], "corrupt artifact yields values")
            return
        ro = ReadOnlyDatabase(g)
        for _ in range(2):
            for k in sorted(set(KEYS) | set(model)):
                got = list(ro.fetch(k))
                R.check(sorted(got) == sorted(model.get(k, ())), f"artifact key {k!r}: {got!r} != {model.get(k)!r}")
            ro.save(b"a", b"new")
            ro.delete(b"a", b"a")
            ro.move(b"a", b"b", b"a")
        R.check(Offline.asked == 0 and g.asked == (1 if case["expired"] and not case["old"] else 0), "download attempts")
        if case["old"]:
            R.check(not oldf.exists(), "outdated artifact kept")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(case, R):
    (hist if case["k"] == "hist" else github)(case, R)
