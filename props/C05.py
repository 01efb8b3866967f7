"""Bounds are generated so that every prefix of components may be shared, at the types' extremes and around timezone
transitions.  Each value must be of the exact type, within the bounds, with a tzinfo which the given strategy produces, and
(where required) a wall time which some UTC instant maps to.  For spans of a few units, all values must be reachable."""
import datetime as dt

RULE = "generated bounds/timezone combinations in one engine mode; non-trivial = at least 3 distinct values judged, or a single admissible value"
TECHNIQUE = "property-based testing: generated bounds and timezones against datetime arithmetic and an independent existence test; enumeration of short spans"
NOTE = "Completeness for spans of up to 40 units (microseconds, days)."
QUICK, THOROUGH = 2500, 150000

TZ = ["UTC", "America/New_York", "Europe/Dublin", "Australia/Lord_Howe", "Pacific/Apia", "America/Sao_Paulo", "Asia/Kathmandu", "Africa/Monrovia", "Pacific/Kiritimati", "Etc/GMT+12", "Asia/Tehran", "Antarctica/Troll"]
TRANS = ["2021-03-14 02:30", "2021-11-07 01:30", "2011-12-30 12:00", "2018-11-04 00:30", "2021-10-03 02:15", "2021-03-28 01:30", "1972-01-07 00:00", "2021-03-28 02:59:59.999999"]


def cases(tier):
    from hypothesis import strategies as st

    edge = st.sampled_from([dt.datetime.min, dt.datetime.max, dt.datetime(2000, 2, 29), dt.datetime(1900, 2, 28), dt.datetime(2000, 12, 31, 23, 59, 59, 999999), dt.datetime(2100, 2, 28, 23, 59, 59), dt.datetime(1999, 12, 31)]
                           + [dt.datetime.fromisoformat(t) for t in TRANS])
    d0 = st.one_of(st.datetimes(), edge)
    delta = st.one_of(st.just(dt.timedelta(0)), st.integers(0, 40).map(lambda n: dt.timedelta(microseconds=n)), st.integers(0, 40).map(lambda n: dt.timedelta(days=n)),
                      st.integers(0, 10**6).map(lambda n: dt.timedelta(seconds=n)), st.integers(0, 10**9).map(lambda n: dt.timedelta(microseconds=n)),
                      st.integers(0, 400).map(lambda n: dt.timedelta(days=30 * n, seconds=n)), st.integers(0, 3000000).map(lambda n: dt.timedelta(days=n)))
    pair = st.tuples(d0, delta, st.booleans()).map(span)
    tz = st.one_of(st.just(["none"]), st.lists(st.sampled_from(TZ), min_size=1, max_size=3).map(lambda l: ["zi", *l]), st.sampled_from([["std"], ["dateutil"], ["pytz"], ["fixed", -1439], ["fixed", 330], ["mixed"]]),
                   st.sampled_from(TZ).map(lambda z: ["pytz1", z]), st.sampled_from(TZ).map(lambda z: ["du1", z]))
    mode = st.sampled_from(["gen", "gen", "shrink", "fuzz", "replay", "full", "full"])
    s = st.integers(0, 2**16)
    iso = lambda p: [x.isoformat() for x in p]
    dts = st.fixed_dictionaries({"k": st.just("datetimes"), "b": pair.map(iso), "tz": tz, "imag": st.booleans(), "mode": mode, "s": s, "omit": st.sampled_from([0, 0, 0, 1, 2])})
    das = st.fixed_dictionaries({"k": st.just("dates"), "b": pair.map(iso), "mode": mode, "s": s, "omit": st.sampled_from([0, 0, 0, 1, 2])})
    ti = st.fixed_dictionaries({"k": st.just("times"), "b": st.one_of(pair.map(lambda p: sorted(x.time().isoformat() for x in p)), st.tuples(st.times(), st.integers(0, 40)).map(tspan)), "tz": tz, "mode": mode, "s": s, "omit": st.sampled_from([0, 0, 0, 1, 2])})
    us = st.one_of(st.integers(-10**6, 10**6), st.integers(-86399999913600000000, 86399999999999999999), st.sampled_from([-86399999913600000000, 86399999999999999999, 0, -1, 86400 * 10**6, -86400 * 10**6]))
    td = st.fixed_dictionaries({"k": st.just("timedeltas"), "b": st.tuples(us, st.one_of(st.integers(0, 40), st.integers(0, 10**12), st.integers(0, 10**20))).map(lambda t: [t[0], min(t[0] + t[1], 86399999999999999999)]), "mode": mode, "s": s, "omit": st.sampled_from([0, 0, 0, 1, 2])})
    key = st.fixed_dictionaries({"k": st.just("keys"), "prefix": st.booleans(), "nocache": st.booleans(), "mode": st.sampled_from(["gen", "shrink", "fuzz", "replay"]), "s": s})
    return st.one_of(dts, dts, dts, das, ti, td, key)


def span(t):
    d, delta, back = t
    try:
        return sorted([d, d - delta if back else d + delta])
    except OverflowError:
        return sorted([d, dt.datetime.min if back else dt.datetime.max])


def tspan(t):
    d = dt.datetime.combine(dt.date(2000, 1, 1), t[0])
    e = d + dt.timedelta(microseconds=t[1])
    return [t[0].isoformat(), (e.time() if e.date() == d.date() else dt.time.max).isoformat()]


def tzstrat(spec, st):
    """strategy, predicate on the tzinfo"""
    import zoneinfo
    k = spec[0]
    if k == "none":
        return st.none(), lambda t: t is None
    if k == "zi":
        zs = [zoneinfo.ZoneInfo(z) for z in spec[1:]]
        return st.sampled_from(zs), lambda t: any(t is z for z in zs)
    if k == "std":
        return st.timezones(), lambda t: isinstance(t, zoneinfo.ZoneInfo) and (t.key in zoneinfo.available_timezones() or t.key == "UTC")
    if k == "fixed":
        z = dt.timezone(dt.timedelta(minutes=spec[1]))
        return st.just(z), lambda t: t is z
    if k == "mixed":
        z = zoneinfo.ZoneInfo("Europe/Dublin")
        return st.one_of(st.none(), st.just(dt.timezone.utc), st.just(z)), lambda t: t is None or t is dt.timezone.utc or t is z
    if k in ("dateutil", "du1"):
        from dateutil import tz
        if k == "du1":
            z = tz.gettz(spec[1])
            return st.just(z), lambda t: t is z
        from hypothesis.extra.dateutil import timezones
        return timezones(), lambda t: isinstance(t, dt.tzinfo) and type(t).__module__.startswith("dateutil")
    import pytz
    if k == "pytz1":
        z = pytz.timezone(spec[1])
        return st.just(z), lambda t: getattr(t, "zone", None) == spec[1]
    from hypothesis.extra.pytz import timezones
    return timezones(), lambda t: t is pytz.UTC or t.zone in pytz.all_timezones_set


def exists(v):
    tz = v.tzinfo
    w = v.replace(tzinfo=None, fold=0)
    if hasattr(tz, "localize"):
        try:
            return tz.normalize(v).replace(tzinfo=None) == w
        except OverflowError:
            return False
    for f in (0, 1):
        try:
            u = (w - v.replace(fold=f).utcoffset()).replace(tzinfo=dt.timezone.utc)
            if u.astimezone(tz).replace(tzinfo=None, fold=0) == w:
                return True
        except OverflowError:
            pass
    return False


def run(case, R):
    from hypothesis import strategies as st
    from vlib.sut import drive

    k, mode, s = case["k"], case["mode"], case["s"]
    R.label(k, mode)
    if k == "keys":
        import zoneinfo
        seen = set()
        if s % 2:
            avail = zoneinfo.available_timezones()

            def judge(x):
                seen.add(x)
                if type(x) is not str:
                    return f"{x!r}"
                if x not in avail and x != "UTC" and not (case["prefix"] and x.startswith(("posix/", "right/"))):
                    return f"timezone_keys(allow_prefix={case['prefix']}): {x!r} is not a known key"
                zoneinfo.ZoneInfo(x)
            drive(st.timezone_keys(allow_prefix=case["prefix"]), judge, R, n=30, s=s, mode=mode)
        else:
            def judge(x):
                seen.add(x.key)
                if not isinstance(x, zoneinfo.ZoneInfo):
                    return f"{x!r}"
                if not case["nocache"] and x is not zoneinfo.ZoneInfo(x.key):
                    return f"{x!r} is not the cached instance"
                x.utcoffset(dt.datetime(2020, 1, 1))
            drive(st.timezones(no_cache=case["nocache"]), judge, R, n=30, s=s, mode=mode)
        R.nontrivial(len(seen) >= 3)
        return
    kw = {}
    T = {"datetimes": dt.datetime, "dates": dt.date, "times": dt.time, "timedeltas": dt.timedelta}[k]
    parse = {"datetimes": dt.datetime.fromisoformat, "dates": lambda x: dt.datetime.fromisoformat(x).date(), "times": dt.time.fromisoformat, "timedeltas": lambda n: dt.timedelta(microseconds=n)}[k]
    lo, hi = map(parse, case["b"])
    if case["omit"] == 1:
        lo = T.min
    elif case["omit"] == 2:
        hi = T.max
    if case["omit"] != 1:
        kw["min_value"] = lo
    if case["omit"] != 2:
        kw["max_value"] = hi
    tzok = lambda t: t is None
    if "tz" in case:
        tzs, tzok = tzstrat(case["tz"], st)
        if case["tz"] != ["none"] or s % 2:
            kw["timezones"] = tzs
        R.label("tz:" + case["tz"][0])
    imag = True
    if k == "datetimes" and not case["imag"]:
        kw["allow_imaginary"] = imag = False
        R.label("no-imaginary")
    what = f"{k}({', '.join(f'{a}={b!r}' for a, b in kw.items())})"
    got = set()

    def judge(x):
        if type(x) is not T:
            return f"{x!r} is not a {T}"
        n = x
        if k in ("datetimes", "times"):
            if not tzok(x.tzinfo):
                return f"{x!r}: tzinfo is not one from the given strategy"
            n = x.replace(tzinfo=None)
            if n.fold not in (0, 1):
                return f"{x!r}"
            n = n.replace(fold=0)
        got.add(n)
        if not lo <= n <= hi:
            return f"{x!r} out of bounds"
        if not imag and x.tzinfo is not None and not exists(x):
            return f"{x!r} is imaginary"
    strat = getattr(st, k)(**kw)
    # small spans: all of them must be reachable
    unit = dt.timedelta(days=1) if k == "dates" else dt.timedelta(microseconds=1)
    if k == "times":
        a, b = (dt.datetime.combine(dt.date(2000, 1, 1), x) for x in (lo, hi))
        steps = (b - a) // unit
        dom = [(a + i * unit).time() for i in range(steps + 1)] if steps <= 40 else None
    else:
        steps = (hi - lo) // unit if k != "timedeltas" or hi.days - lo.days < 10**6 else 10**9
        dom = [lo + i * unit for i in range(steps + 1)] if steps <= 40 else None
    tzs = case.get("tz", ["none"])
    plain = imag or tzs == ["none"]
    risky = k == "datetimes" and not (plain and tzs[0] not in ("pytz", "pytz1", "dateutil", "std"))
    if mode == "full" and dom and (plain and tzs[0] in ("none", "zi", "fixed", "mixed") and not (k == "datetimes" and tzs[0] == "pytz")):
        R.label("complete")
        R.nontrivial(True)
        for n in (3 * len(dom) + 20, 600, 5000):
            drive(strat, judge, R, n=n, s=s, what=what)
            if len(got) == len(dom):
                return
        R.fail(f"{what}: {sorted(set(dom) - got)[:3]} not produced in 5000 examples")
    drive(strat, judge, R, n=25, s=s, mode="gen" if mode == "full" else mode, what=what, unsat_ok=risky)
    R.nontrivial(len(got) >= 3 or lo == hi)
