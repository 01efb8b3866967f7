import math
from fractions import Fraction

RULE = ("generated operation histories (<= 60 steps) against each cache, list-like container and search helper, and "
        "generated weight vectors for the sampler; non-trivial = a history with at least one eviction (caches), one "
        "pop/delete followed by a read (containers), or at least two distinct weights (sampler)")
TECHNIQUE = "stateful property-based testing against list/dict/score reference models; exact distribution oracle for the sampler"
NOTE = "Models are a few lines each; the sampler's distribution is computed from its public table and by driving sample()."
QUICK, THOROUGH = 24000, 300000


def cases(tier):
    from hypothesis import strategies as st

    key = st.integers(0, 6)
    val = st.one_of(st.none(), st.integers(-3, 3))
    n = 60
    cache_op = st.one_of(
        st.tuples(st.just("set"), key, val), st.tuples(st.just("set"), key, val), st.tuples(st.just("get"), key),
        st.tuples(st.just("in"), key), st.tuples(st.just("pin"), key, val), st.tuples(st.just("unpin"), key),
        st.tuples(st.just("clear")))
    cache = st.fixed_dictionaries({
        "k": st.sampled_from(["lru", "reused", "generic"]), "size": st.integers(1, 5),
        "ops": st.lists(cache_op, max_size=n), "scores": st.lists(st.integers(0, 5), min_size=7, max_size=7),
        "bump": st.integers(-2, 2)})
    idx = st.integers(-8, 8)
    lz = st.fixed_dictionaries({
        "k": st.just("lazy"), "init": st.lists(st.one_of(st.none(), st.integers(0, 9)), max_size=9),
        "ops": st.lists(st.one_of(
            st.tuples(st.just("get"), idx), st.tuples(st.just("pop"), idx), st.tuples(st.just("popend")),
            st.tuples(st.just("set"), idx, val), st.tuples(st.just("swap"), idx, idx)), max_size=25)})
    big = st.one_of(st.integers(0, 5), st.sampled_from([255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1, 2**64, 2**70]),
                    st.integers(0, 2**66))
    il = st.fixed_dictionaries({
        "k": st.just("intlist"), "init": st.lists(big, max_size=6),
        "ops": st.lists(st.one_of(
            st.tuples(st.just("append"), big), st.tuples(st.just("set"), idx, big), st.tuples(st.just("del"), idx),
            st.tuples(st.just("insert"), idx, st.integers(0, 200)), st.tuples(st.just("extend"), st.lists(big, max_size=3)),
            st.tuples(st.just("count"), big), st.tuples(st.just("slice"), idx, idx),
            st.tuples(st.just("delslice"), idx, idx)), max_size=15)})
    sol = st.fixed_dictionaries({
        "k": st.just("sol"), "init": st.lists(st.integers(0, 9), max_size=8),
        "ops": st.lists(st.one_of(st.tuples(st.just("find"), st.integers(0, 10)), st.tuples(st.just("add"), st.integers(0, 9)),
                                  st.tuples(st.just("mod"), st.integers(2, 4))), max_size=20)})
    weights = st.fixed_dictionaries({
        "k": st.just("sampler"),
        "w": st.lists(st.one_of(st.integers(0, 10), st.sampled_from([0, 0, 1, 1000, 10**6])), min_size=1, max_size=9).filter(any),
        "as": st.sampled_from(["float", "fraction", "fscaled"])})
    fi = st.fixed_dictionaries({"k": st.just("find_integer"), "n": st.one_of(st.integers(0, 40), st.integers(0, 2**70)),
                                "lo": st.integers(-50, 50), "hi": st.integers(1, 2000)})
    ra = st.fixed_dictionaries({"k": st.just("replace"), "ls": st.lists(st.integers(0, 9), max_size=12),
                                "cuts": st.lists(st.integers(0, 12), max_size=8), "rs": st.lists(st.lists(st.integers(10, 12), max_size=3), min_size=4, max_size=4),
                                "b": st.lists(st.integers(0, 1), max_size=4), "c": st.lists(st.integers(0, 1), max_size=4)})
    return st.one_of(cache, cache, cache, lz, lz, il, sol, weights, weights, fi, ra)


class Evicted(Exception):
    pass


def caches(case, R):
    from hypothesis.internal.cache import GenericCache, LRUCache, LRUReusedCache

    kind, size = case["k"], case["size"]
    evlog = []
    scores, bump = case["scores"], case["bump"]
    if kind == "lru":
        c = LRUCache(size)
    elif kind == "reused":
        c = LRUReusedCache(size)
    else:
        class Custom(GenericCache):
            __slots__ = ()
            def new_entry(self, key, value):
                return scores[key]
            def on_access(self, key, value, score):
                return score + bump
            def on_evict(self, key, value, score):
                evlog.append((key, value, score))
        c = Custom(size)
    model = {}   # key -> [value, score, pins]
    tick = 0
    evictions = 0
    for op in case["ops"]:
        name = op[0]
        if kind == "lru" and name in ("pin", "unpin", "clear"):
            continue
        if name in ("set", "pin"):
            k, v = op[1], op[2]
            tick += 1
            if k in model:
                old = model[k]
                sc = tick if kind == "lru" else (2, tick) if kind == "reused" else old[1] + bump
                model[k] = [v, sc, old[2]]
                want_err = False
                victims = None
            else:
                sc = tick if kind == "lru" else (1, tick) if kind == "reused" else scores[k]
                victims = None
                want_err = False
                if len(model) >= size:
                    free = [x for x in model if model[x][2] == 0]
                    if not free:
                        want_err = True
                    else:
                        m = min(model[x][1] for x in free)
                        victims = [x for x in free if model[x][1] == m]
            del evlog[:]
            try:
                c[k] = v if name == "set" else None
                if name == "pin":
                    pass
            except ValueError:
                R.check(want_err, f"ValueError setting {k} with model {model}")
                R.label("all-pinned")
                continue
            R.check(not want_err, f"set {k} accepted although all keys are pinned: {model}")
            if victims is not None:
                gone = [x for x in model if x not in c]
                R.check(len(gone) == 1 and gone[0] in victims, f"evicted {gone}, expected one of {victims}; model {model}")
                if kind == "generic":
                    g = gone[0]
                    R.check(evlog == [(g, model[g][0], model[g][1])], f"on_evict calls {evlog} for {g}: {model[g]}")
                del model[gone[0]]
                evictions += 1
            elif kind == "generic":
                R.check(not evlog, f"on_evict called without eviction {evlog}")
            if k not in model:
                model[k] = [v, sc, 0]
            if name == "pin":
                # the set above stored None; pin stores the value and counts as another access
                c.pin(k, v)
                tick += 1
                model[k][0] = v
                model[k][2] += 1
                model[k][1] = (2, tick) if kind == "reused" else model[k][1] + bump
        elif name == "get":
            k = op[1]
            try:
                got = c[k]
            except KeyError:
                R.check(k not in model, f"lost {k}: {model}")
            else:
                R.check(k in model, f"{k} present but should have been evicted: {model}")
                R.check(got == model[k][0] and type(got) is type(model[k][0]), f"{k} -> {got}, expected {model[k][0]}")
                tick += 1
                model[k][1] = tick if kind == "lru" else (2, tick) if kind == "reused" else model[k][1] + bump
        elif name == "in":
            R.check((op[1] in c) == (op[1] in model), f"{op[1]} in cache; model {model}")
        elif name == "unpin":
            k = op[1]
            if k not in model:
                continue
            try:
                c.unpin(k)
            except ValueError:
                R.check(model[k][2] == 0, f"unpin({k}) refused: {model}")
            else:
                R.check(model[k][2] > 0, f"unpin({k}) accepted though not pinned")
                model[k][2] -= 1
        else:
            c.clear()
            model.clear()
        R.check(len(c) == len(model) <= size, f"len {len(c)} model {model}")
        R.check(sorted(c) == sorted(model), f"keys {sorted(c)} model {model}")
        c.check_valid()
        if kind != "lru":
            for k in model:
                R.check(c.is_pinned(k) == (model[k][2] > 0), f"is_pinned({k})")
    R.nontrivial(evictions > 0)
    R.label(kind + (":evict" if evictions else ":noevict"))


def run(case, R):
    from hypothesis.internal.conjecture import junkdrawer as J

    k = case["k"]
    if k in ("lru", "reused", "generic"):
        return caches(case, R)
    R.label(k)
    if k == "lazy":
        base = list(case["init"])
        orig = list(base)
        z, m = J.LazySequenceCopy(base), list(base)
        popped = False
        for op in case["ops"]:
            def do(f):
                try:
                    return ("ok", f())
                except IndexError:
                    return ("IndexError", None)
            if op[0] == "get":
                a, b = do(lambda: z[op[1]]), do(lambda: m[op[1]])
                R.nontrivial(popped)
            elif op[0] == "pop":
                a, b = do(lambda: z.pop(op[1])), do(lambda: m.pop(op[1]))
                popped |= b[0] == "ok"
            elif op[0] == "popend":
                a, b = do(lambda: z.pop()), do(lambda: m.pop())
            elif op[0] == "set":
                a, b = do(lambda: z.__setitem__(op[1], op[2])), do(lambda: m.__setitem__(op[1], op[2]))
            else:
                i, j = op[1], op[2]
                if not (-len(m) <= i < len(m) and -len(m) <= j < len(m)):
                    continue
                a = do(lambda: z.swap(i, j))
                m[i], m[j] = m[j], m[i]
                b = ("ok", None)
            R.check(a == b, f"{op}: {a} != {b} (model {m}, from {orig})")
            R.check(list(z) == m and len(z) == len(m), f"after {op}: {list(z)} != {m} (from {orig})")
            R.check(base == orig, "the underlying sequence was modified")
    elif k == "intlist":
        z, m = J.IntList(case["init"]), list(case["init"])
        deleted = False
        for op in case["ops"]:
            inb = lambda i: -len(m) <= i < len(m)
            if op[0] == "append":
                z.append(op[1]); m.append(op[1])
            elif op[0] == "extend":
                z.extend(op[1]); m.extend(op[1])
            elif op[0] == "set" and inb(op[1]):
                z[op[1]] = op[2]; m[op[1]] = op[2]
            elif op[0] == "del" and inb(op[1]):
                del z[op[1]]; del m[op[1]]
                deleted = True
            elif op[0] == "delslice":
                del z[op[1]:op[2]]; del m[op[1]:op[2]]
            elif op[0] == "insert":
                z.insert(op[1], op[2]); m.insert(op[1], op[2])
            elif op[0] == "count":
                R.check(z.count(op[1]) == m.count(op[1]), f"count({op[1]})")
            elif op[0] == "slice":
                R.check(list(z[op[1]:op[2]]) == m[op[1]:op[2]], f"slice {op}")
            R.check(list(z) == m and len(z) == len(m), f"after {op}: {list(z)} != {m}")
            R.check([z[i] for i in range(len(m))] == m, "getitem")
            R.check(z == J.IntList(m) and not (z != J.IntList(m)) and z != J.IntList(m + [1]), f"equality of {m}")
            R.nontrivial(deleted)
        R.check(list(J.IntList.of_length(len(m))) == [0] * len(m), "of_length")
        for bad in ([-1], [2**64, -3], [3, -1, 2**33]):
            try:
                J.IntList(bad)
            except (ValueError, OverflowError):
                pass
            else:
                R.fail(f"IntList({bad}) accepted")
    elif k == "sol":
        z, m = J.SelfOrganisingList(case["init"]), list(case["init"])
        for op in case["ops"]:
            if op[0] == "add":
                z.add(op[1]); m.append(op[1])
                continue
            calls = []
            cond = (lambda v: v == op[1]) if op[0] == "find" else (lambda v: v % op[1] == 1)
            def probe(v):
                calls.append(v)
                return cond(v)
            try:
                got = z.find(probe)
            except J.NotFound:
                R.check(not any(map(cond, m)), f"{op} not found in {m}")
                R.check(sorted(calls) == sorted(m), f"{op} did not look at everything: {calls} of {m}")
            else:
                R.nontrivial(len(m) > 1)
                want = next(i for i in range(len(m) - 1, -1, -1) if cond(m[i]))
                R.check(got == m[want], f"{op} found {got} in {m}, most recently used match is {m[want]}")
                m.append(m.pop(want))
    elif k == "find_integer":
        n = case["n"]
        R.nontrivial(n > 4)
        calls = []
        def f(i):
            calls.append(i)
            return i <= n
        R.check(J.find_integer(f) == n, f"find_integer -> wrong for threshold {n}")
        R.check(len(calls) <= 10 + 2 * n.bit_length() * 2, f"find_integer used {len(calls)} calls for {n}")
        # non-monotone: still returns x with f(x) and not f(x+1)
        g = lambda i: (i * i + n) % 7 != 3 and i <= 10**6
        x = J.find_integer(g)
        R.check((x == 0 or g(x)) and not g(x + 1), f"find_integer non-monotone: {x}")
        lo, hi = case["lo"], case["lo"] + case["hi"]
        t = lo + n % case["hi"]
        R.check(J.binary_search(lo, hi, lambda i: i <= t) == t, f"binary_search({lo}, {hi}) for {t}")
    elif k == "replace":
        ls = case["ls"]
        cuts = sorted(min(c, len(ls)) for c in case["cuts"])
        reps = []
        for i in range(0, len(cuts) - 1, 2):
            reps.append((cuts[i], cuts[i + 1], case["rs"][i // 2]))
        want = list(ls)
        for u, v, r in reversed(reps):
            want[u:v] = r
        R.nontrivial(len(reps) > 1)
        got = J.replace_all(ls, reps)
        R.check(got == want, f"replace_all({ls}, {reps}) = {got}, expected {want}")
        b, c = case["b"], case["c"]
        R.check(J.startswith(b, c) == (b[:len(c)] == c), f"startswith({b}, {c})")
        if c:
            R.check(J.endswith(b, c) == (b[-len(c):] == c), f"endswith({b}, {c})")
    else:
        sampler(case, R)


def sampler(case, R):
    from hypothesis.internal.conjecture.data import ConjectureData
    from hypothesis.internal.conjecture.utils import Sampler

    w = case["w"]
    if case["as"] == "fraction":
        ws = [Fraction(x) for x in w]
    elif case["as"] == "fscaled":
        ws = [x * 0.1 for x in w]
    else:
        ws = [float(x) for x in w]
    total = sum(Fraction(x) for x in ws)
    s = Sampler(ws)
    n = len(s.table)
    R.nontrivial(len(set(w)) > 1)
    R.check(n == len(w), "table size")
    p = [Fraction(0)] * len(w)
    for base, alt, chance in s.table:
        R.check(0 <= chance <= 1 and base <= alt, f"table entry {(base, alt, chance)}")
        p[base] += (1 - Fraction(chance)) / n
        p[alt] += Fraction(chance) / n
    for i, x in enumerate(ws):
        want = Fraction(x) / total
        if x == 0:
            R.check(p[i] == 0 or p[i] < Fraction(1, 10**12), f"zero weight {i} has probability {float(p[i])}: {w}")
        R.check(abs(p[i] - want) < Fraction(1, 10**9), f"index {i} has probability {float(p[i])}, weight says {float(want)}: {w}")
    R.check(s.table == sorted(s.table), "table not in order")
    # drive it: every table row and both outcomes
    for r in range(n):
        for b in (False, True):
            data = ConjectureData.for_choices((r, b))
            got = s.sample(data)
            base, alt, chance = s.table[r]
            ok = {base} if chance == 0 else {alt} if chance == 1 else {alt if b else base}
            if len(data.nodes) == 2 or n == 1:
                if 2.0**-64 < chance < 1 - 2.0**-53:
                    R.check(n == 1 or got in ok, f"sample with row {r} {b} gives {got}, table {s.table}")
            R.check(ws[got] > 0 or chance not in (0, 1), f"sampled index {got} of weight zero: {w}")
    # forcing yields exactly the forced index
    for i, x in enumerate(ws):
        if p[i] > Fraction(1, 10**9):
            data = ConjectureData.for_choices((0, False, 0, False))
            R.check(s.sample(data, forced=i) == i, f"forced {i} not honoured, weights {w}")
            replay = ConjectureData.for_choices(data.choices)
            R.check(s.sample(replay) == i, f"replaying choices of forced {i} gives something else: {w}")

