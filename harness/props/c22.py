import datetime as D
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness import build, gen, instants
from harness.core import Sub, check, eq, raises, set_tz, refuses
from harness.instants import LOCALS, instant

RULE = ("Datetimes, dates, spans of every kind, complete events/todos and calendars of up to 6 entries in any kinds of zones (also zones "
        "defined by the case) under a random local zone, normalized with every action for floating and zoned values, every way to write the "
        "action and the replacement (zone object, function, the local zone, None). Non-trivial: the action in force is convert or replace "
        "and some time is present that is not already in the target zone.")
ASSUMPTIONS = ["replacement None is only used with replace (strip the zone), its meaning for convert is not specified",
               "a span whose wall-clock end would precede its begin in the new zone is rejected and left unchanged",
               "with a fixed duration the end follows from begin and duration in the new zone"]

ACTIONS = ["ignore", "replace", "convert"]
FORMS = {"ignore": ["IGNORE", "False"], "replace": ["REPLACE"], "convert": ["CONVERT", "True", "default"]}


@st.composite
def norm(draw, customs=0):
    n = {}
    for k in ("floating", "zoned"):
        a = draw(st.sampled_from(["ignore", "replace", "replace", "convert", "convert"]))
        n[k] = [a, draw(st.sampled_from(FORMS[a]))]
    n["tz"] = draw(st.one_of(st.sampled_from(gen.UTCS), gen.tzspec(customs), gen.tzspec(customs), st.just("l:"), st.none()))
    if n["tz"] is None and "convert" in (n["floating"][0], n["zoned"][0]):
        n["tz"] = "i:Europe/Berlin"
    n["callable"] = draw(st.booleans())
    return n


def make_norm(n, zones=None):
    from ics.timespan import Normalization, NormalizationAction as A

    m = {"IGNORE": A.IGNORE, "REPLACE": A.REPLACE, "CONVERT": A.CONVERT, "True": True, "False": False}
    tz = build.tz_of(n["tz"], zones)
    if n["tz"] == "l:" and n["callable"]:
        import dateutil.tz

        repl = dateutil.tz.tzlocal
    else:
        repl = (lambda: tz) if n["callable"] else tz
    kw = {}
    if n["floating"][1] != "default":
        kw["normalize_floating"] = m[n["floating"][1]]
    if n["zoned"][1] != "default":
        kw["normalize_with_tz"] = m[n["zoned"][1]]
    return repl, kw, Normalization(repl, **kw)


def picture(d, local):
    """what is observable of a datetime: wall clock, zone and instant"""
    if d is None:
        return None
    return (d.replace(tzinfo=None, fold=0), d.utcoffset(), d.tzinfo)


def expect(d, n, zones, local, floating=None):
    """-> function checking the normalized value, plus whether anything had to be done"""
    if d is None:
        return lambda x, w: eq(x, None, w), False
    action = n["floating" if d.tzinfo is None else "zoned"][0]
    tz = build.tz_of(n["tz"], zones)
    if action == "ignore":
        return lambda x, w: (eq(picture(x, local), picture(d, local), w), eq(x.fold, d.fold, w)), False
    if action == "replace":
        return lambda x, w: eq((x.replace(tzinfo=None, fold=0), x.tzinfo), (d.replace(tzinfo=None, fold=0), tz), w), d.tzinfo != tz

    def conv(x, w):
        eq(x.tzinfo, tz, w + ": zone")
        eq(instant(x, local), instant(d, local), w + ": instant")
        z = n["tz"]
        if z[0] in "zi" and z[1] == ":":
            # wall clock, independently of the library's own offsets
            import zoneinfo

            want = instant(d, local).replace(tzinfo=D.timezone.utc).astimezone(zoneinfo.ZoneInfo(z[2:]))
            if z[0] == "z" or 1981 <= want.year <= 2036:
                if z[0] == "z" or z[2:] not in ("America/Sao_Paulo", "Europe/London", "Asia/Kolkata") and want.year > 2008:
                    eq(x.replace(tzinfo=None, fold=0), want.replace(tzinfo=None, fold=0), w + ": wall clock")
        elif z[0] == "o":
            eq(x.replace(tzinfo=None), instant(d, local) + timedelta(seconds=int(z[2:])), w + ": wall clock")
        elif z[0] == "u":
            eq(x.replace(tzinfo=None), instant(d, local), w + ": wall clock")

    return conv, d.tzinfo != tz


# ------------------------------------------------------------------ instants


@st.composite
def s_instant(draw):
    n = draw(norm())
    k = draw(st.sampled_from(["dt", "dt", "dt", "dt", "date", "tuple", "dict", "none"]))
    lo, hi = (1981, 2036) if draw(st.booleans()) else (1971, 2037)
    v = draw(gen.ymdhms(lo, hi, micro=True))
    return {"local": draw(st.sampled_from(LOCALS)), "norm": n, "form": k, "v": v, "tz": draw(instants.zones()), "fold": draw(st.integers(0, 1))}


def check_instant(c, note):
    set_tz(c["local"])
    _, _, n = make_norm(c["norm"])
    form = c["form"]
    d = datetime(*c["v"])
    if form == "none":
        eq(n.normalize(None), None, "None")
        return
    if form == "dt":
        d = arg = d.replace(tzinfo=build.tz_of(c["tz"]), fold=c["fold"])
        if c["tz"] and c["tz"].startswith("i:") and c["fold"]:
            d = arg = d.replace(fold=0)
    elif form == "date":
        arg = d.date()
        d = datetime(*c["v"][:3])
    elif form == "tuple":
        arg = tuple(c["v"])
    else:
        arg = dict(zip(("year", "month", "day", "hour", "minute", "second", "microsecond"), c["v"]))
    f, busy = expect(d, c["norm"], None, c["local"])
    for k in range(2):
        f(n.normalize(arg), "normalize(%r)" % (arg,))
    refuses((TypeError, ValueError), lambda: n.normalize("2020-01-01"))
    note.nontrivial(busy)
    note(c["norm"]["floating" if d.tzinfo is None else "zoned"][0] + ("-floating" if d.tzinfo is None else "-zoned"))


# ------------------------------------------------------------------ spans


def model(ts, n, zones, local):
    """-> (checks for begin and end, would the result be reversed for sure, may it be, busy)"""
    fb, b1 = expect(ts.begin_time, n, zones, local)
    fe, b2 = expect(ts.end_time, n, zones, local)
    must = may = False
    if ts.begin_time is not None and ts.end_time is not None:
        action = n["floating" if ts.is_floating() else "zoned"][0]
        tz = build.tz_of(n["tz"], zones)
        if action == "replace":
            must = ts.begin_time.replace(tzinfo=None) > ts.end_time.replace(tzinfo=None)
        elif action == "convert":
            # Python compares times of one zone by wall clock
            to = lambda d: instant(d, local).replace(tzinfo=D.timezone.utc).astimezone(tz).replace(tzinfo=None)
            may = to(ts.begin_time) > to(ts.end_time)
    return fb, fe, must, may, b1 or b2


def span_check(old, new, n, zones, local, where):
    fb, fe, must, may, busy = model(old, n, zones, local)
    fb(new.begin_time, where + " begin")
    fe(new.end_time, where + " end")
    eq(type(new), type(old), where + " type")
    eq(new.duration, old.duration, where + " duration")
    eq(new.precision, old.precision, where + " precision")
    eq(new.get_end_representation(), old.get_end_representation(), where + " kind of end")
    eq(new.is_all_day(), old.is_all_day(), where)


def mk_span(s, base_, local):
    return instants.make(s, instants.build_span(s, base_, local), False)


@st.composite
def s_span(draw):
    n = draw(norm())
    how = draw(st.sampled_from(["normalize", "normalize", "tuple", "method"]))
    return {"local": draw(st.sampled_from(LOCALS)), "norm": n, "how": how, "base": draw(instants.base()), "s": draw(instants.span()),
            "plain": draw(st.booleans()), "default": draw(gen.opt(gen.dt(instants.zones(), 1981, 2035), 2))}


def refused(ts, n):
    return ts.is_all_day() and n["floating"][0] != "ignore"


def check_span(c, note):
    from ics.timespan import Timespan

    local, nn = c["local"], c["norm"]
    set_tz(local)
    ts = mk_span(c["s"], c["base"], local)
    if c["plain"]:
        ts = Timespan(ts.begin_time, ts.end_time, ts.duration, ts.precision)
    _, _, n = make_norm(nn)
    before = build.snap(ts)
    if c["how"] == "tuple":
        d = build.dt_of(c["default"])
        b, e = ts.get_begin() or d, ts.get_effective_end() or d
        got = ts.timespan_tuple(d, n) if d is not None else ts.timespan_tuple(normalization=n)
        fb, x = expect(b, nn, None, local)
        fe, y = expect(e, nn, None, local)
        fb(got.begin, "tuple begin")
        fe(got.end, "tuple end")
        eq(build.snap(ts), before, "the span")
        note.nontrivial(x or y)
        note("tuple")
        return
    if c["how"] == "method":
        # the two conversions themselves, whatever the action for the other kind of value
        a = nn["floating"][0] if nn["floating"][0] != "ignore" else "replace"
        nn = dict(nn, floating=[a, ""], zoned=[a, ""])
        tz = build.tz_of(nn["tz"])
        act = lambda: (ts.replace_timezone if a == "replace" else ts.convert_timezone)(tz)
    else:
        act = lambda: n.normalize(ts)
    fb, fe, must, may, busy = model(ts, nn, None, local)
    try:
        new = act()
    except ValueError as e:
        check(refused(ts, nn) or must or may, "%s: %r" % (ts, e))
        note("rejected")
        new = None
    else:
        check(not must and not refused(ts, nn), "%s became %s" % (ts, new))
        span_check(ts, new, nn, None, local, "span")
        note(c["s"]["kind"])
    eq(build.snap(ts), before, "the original span")
    note.nontrivial(busy and new is not None)


# ------------------------------------------------------------------ entries and calendars


def others(e):
    d = {k: v for k, v in build.snap(e)[1].items() if k != "timespan"}
    return d


@st.composite
def s_entry(draw):
    n = draw(norm(2))
    how = draw(st.sampled_from(["normalize", "normalize", "method"]))
    local = draw(st.sampled_from(LOCALS))
    zs = [draw(gen.zone(idx=i)) for i in range(2)]
    return {"local": local, "norm": n, "how": how, "zones": zs, "e": draw(gen.entry(customs=2, lo=1981, hi=2035))}


def check_entry(c, note):
    local, nn = c["local"], c["norm"]
    zones = build.zones_of(c)
    set_tz(local)
    e = build.entry_of(c["e"], zones)
    _, _, n = make_norm(nn, zones)
    old, rest = e.timespan, others(e)
    if c["how"] == "method":
        a = nn["floating"][0] if nn["floating"][0] != "ignore" else "convert"
        if nn["tz"] is None:
            a = "replace"
        nn = dict(nn, floating=[a, ""], zoned=[a, ""])
        tz = build.tz_of(nn["tz"], zones)
        act = lambda: (e.replace_timezone if a == "replace" else e.convert_timezone)(tz)
    else:
        act = lambda: n.normalize(e)
    _, _, must, may, busy = model(old, nn, zones, local)
    try:
        r = act()
    except ValueError as x:
        check(refused(old, nn) or must or may, "%s: %r" % (e, x))
        eq(build.snap(e.timespan), build.snap(old), "span of the rejected entry")
        note("rejected")
        busy = False
    else:
        check(not must and not refused(old, nn), "%s became %s" % (old, e.timespan))
        if c["how"] == "normalize":
            check(type(r) is type(e), "normalize returned %r" % (r,))
            eq(others(r), rest, "attributes of the result")
            span_check(old, r.timespan, nn, zones, local, "entry")
        else:
            span_check(old, e.timespan, nn, zones, local, "entry")
        note(c["e"]["kind"])
    eq(others(e), rest, "attributes that are no times of the span")
    note.nontrivial(busy)


@st.composite
def s_cal(draw):
    n = draw(norm(2))
    local = draw(st.sampled_from(LOCALS))
    form = draw(st.sampled_from(["object", "object", "args", "kwargs"]))
    twice = draw(st.booleans())
    tz = draw(st.one_of(st.none(), gen.any_tz(2)))
    zs = [draw(gen.zone(idx=i)) for i in range(2)]
    es = draw(st.lists(st.one_of(gen.entry(customs=2, lo=1981, hi=2035, alarms=False), gen.entry(tz=st.just(tz), lo=1981, hi=2035, alarms=False),
                                 gen.entry(tz=st.none(), lo=1981, hi=2035, alarms=False)), min_size=1, max_size=6))
    return {"local": local, "norm": n, "form": form, "twice": twice, "zones": zs, "entries": es}


def check_cal(c, note):
    local, nn = c["local"], c["norm"]
    set_tz(local)
    zones = build.zones_of(c)
    cal = build.cal_of(c)
    zones = None
    # cal_of builds its own zone objects: use zones of another copy only as a target
    zones = build.zones_of(c)
    repl, kw, n = make_norm(nn, zones)
    refuses(ValueError, lambda: cal.normalize(n, True))
    refuses(ValueError, lambda: cal.normalize(n, normalize_floating=True))
    for rounds in range(2 if c["twice"] else 1):
        entries = list(cal.events) + list(cal.todos)
        kinds = (len(cal.events), len(cal.todos))
        olds = [(type(e), e.timespan, others(e)) for e in entries]
        meta = {k: v for k, v in build.snap(cal)[1].items() if k not in ("events", "todos")}
        models = [(False, False, False) if e.all_day else model(e.timespan, nn, zones, local)[2:] for e in entries]
        try:
            if c["form"] == "object":
                cal.normalize(n)
            elif c["form"] == "kwargs":
                cal.normalize(repl, **kw)
            elif len(kw) == 2:
                cal.normalize(repl, kw["normalize_floating"], kw["normalize_with_tz"])
            elif "normalize_floating" in kw:
                cal.normalize(repl, kw["normalize_floating"])
            else:
                cal.normalize(repl, **kw)
        except ValueError as x:
            check(any(must or may for must, may, _ in models), "%r" % (x,))
            note("rejected")
            for e, (t, old, rest) in zip(entries, olds):
                eq(others(e), rest, "attributes after a rejected normalization")
                if e.all_day:
                    eq(build.snap(e.timespan), build.snap(old), "all-day entry after a rejected normalization")
            return
        check(not any(must for must, _, _ in models), "reversed span accepted")
        eq((len(cal.events), len(cal.todos)), kinds, "number of entries")
        eq({k: v for k, v in build.snap(cal)[1].items() if k not in ("events", "todos")}, meta, "the rest of the calendar")
        for e, (t, old, rest) in zip(list(cal.events) + list(cal.todos), olds):
            check(type(e) is t, "type of an entry")
            eq(others(e), rest, "attributes that are no times of the span")
            if old.is_all_day():
                eq(build.snap(e.timespan), build.snap(old), "all-day entry")
                note("all-day")
            else:
                span_check(old, e.timespan, nn, zones, local, "entry")
        note.nontrivial(any(b for _, _, b in models))
    note(c["form"])


SUBS = [
    Sub("instant", s_instant, check_instant, quick=2500, shards=3),
    Sub("span", s_span, check_span, quick=4000, shards=4),
    Sub("entry", s_entry, check_entry, quick=1200, shards=4),
    Sub("calendar", s_cal, check_cal, quick=700, shards=6),
]
