from datetime import date, datetime, timedelta

from hypothesis import strategies as st

from harness import build, gen
from harness.core import Sub, check, eq, raises

RULE = ("Events, todos and spans with random begin (with microseconds, any zone, near midnights and clock changes) and an end, due or "
        "duration are made all-day and back; results are compared with calendar-day arithmetic on the wall-clock dates. All-day spans "
        "with random times of day, zones, fractional or sub-day durations must be rejected. Non-trivial: the entry touches a "
        "midnight or crosses days.")
ASSUMPTIONS = ["begin and end are read as wall-clock dates of their own zone; when these dates run backwards (begin and end in "
               "different zones) raising without a change is accepted", "an implied end may become explicit"]
D1 = timedelta(days=1)


@st.composite
def strategy(draw):
    todo = draw(st.booleans())
    near = st.tuples(st.integers(-3, 3), st.integers(-2, 2)).map(lambda t: datetime(2019, 4, 1) + timedelta(days=t[0], microseconds=t[1])).map(
        lambda d: [d.year, d.month, d.day, d.hour, d.minute, d.second] + ([d.microsecond] if d.microsecond else []))
    b = draw(st.one_of(gen.ymdhms(2, 9000, micro=True), near))
    tz = draw(gen.any_tz())
    if tz and tz[0] in "zdi":
        b[0] = 1971 + b[0] % 60
        if b[1:3] == [2, 29]:
            b[2] = 28
    c = {"todo": todo, "b": [b, tz], "plain": draw(st.booleans())}
    kind = draw(st.sampled_from(["none", "end", "end", "end", "dur", "dur"] + ["due"] * todo))
    delta = draw(st.one_of(gen.DELTAS, st.integers(0, 4).map(lambda n: n * 86400), st.just("to-midnight"), st.just("to-midnight+1")))
    if kind == "end":
        c["e"] = [delta, draw(st.sampled_from([tz, tz, tz, "u:dt", "o:36000", "o:-36000"])) if tz else None]
    elif kind == "dur":
        c["d"] = delta
    c["kind"] = kind
    return c


def days_model(b, e):
    """date span [first, last) covering the wall-clock span b..e, at least a day"""
    first = b.date() if b is not None else None
    last = e.date() + (D1 if e.time().replace(tzinfo=None) != datetime.min.time() else timedelta(0)) if e is not None else None
    if first is not None and last is not None and first == last:
        last += D1
    return first, last


def mid(d):
    return None if d is None else datetime(d.year, d.month, d.day)


def secs(c, b):
    delta = c["d"] if "d" in c else c["e"][0]
    if isinstance(delta, str):
        n = datetime(b.year, b.month, b.day) + D1 - b.replace(tzinfo=None)
        return n + (timedelta(seconds=1) if delta.endswith("1") else timedelta(0))
    return timedelta(seconds=delta)


def whole(td):
    return td - timedelta(microseconds=td.microseconds)


def check_case(c, note):
    import ics
    from ics.timespan import EventTimespan, Timespan, TodoTimespan

    todo = c["todo"]
    b = build.dt_of(c["b"])
    e = d = None
    if c["kind"] == "end":
        n = secs(c, b)
        if n.microseconds > 500000:
            n += timedelta(microseconds=1000000 - n.microseconds)
        tz = build.tz_of(c["e"][1])
        e = b + n if tz is b.tzinfo else (b.astimezone(build.tz_of("u:dt")) + n).astimezone(tz)
    elif c["kind"] == "dur":
        d = whole(secs(c, b))
    elif c["kind"] == "due":
        b, e = None, b
    ts = (TodoTimespan if todo else EventTimespan)(b, e, d)
    if c["plain"] and c["kind"] != "none":
        ts = Timespan(b, e, d)
    x = (ics.Todo if todo else ics.Event)(timespan=(TodoTimespan if todo else EventTimespan)(b, e, d), uid="u")
    end = e if e is not None else (b + d if d is not None else (None if todo else b))
    first, last = days_model(b, end)
    backwards = first is not None and last is not None and last <= first
    before = x.timespan
    err = raises(x.make_all_day)
    if err:
        check(backwards or (b is not None and e is not None and b.tzinfo is not e.tzinfo), "make_all_day raised %r for %r", err, before)
        eq(x.timespan, before, "unchanged after error")
        check(not x.all_day, "all_day after error")
        note("raised")
        return
    check(not backwards, "accepted a negative span %r", x.timespan)
    check(x.all_day and x.timespan.is_all_day() and x.timespan.get_precision() == "day", "all_day flag")
    check(x.floating, "floating")
    eq(build.snap(x.begin), build.snap(mid(first)), "begin")
    eq(build.snap(x.end), build.snap(mid(last)), "end")
    if first is not None and last is not None:
        eq(x.duration, last - first, "duration")
        check(x.duration >= D1, "at least one day")
    want_rep = {"end": ("end",), "dur": ("duration",), "due": ("end",), "none": (None, "end")}[c["kind"]]
    check(x.end_representation in want_rep, "end representation %r", x.end_representation)
    if c["plain"] and c["kind"] != "none":
        t2 = ts.make_all_day()
        eq(build.snap(t2)[1:], build.snap(x.timespan)[1:], "span.make_all_day")
        check(not ts.is_all_day(), "original span changed")
    once = x.timespan
    x.make_all_day()
    eq(x.timespan, once, "second make_all_day")
    vals = build.snap(x.begin), build.snap(x.end), x.duration, x.end_representation
    x.unset_all_day()
    check(not x.all_day, "unset")
    eq((build.snap(x.begin), build.snap(x.end), x.duration, x.end_representation), vals, "values after unset")
    x.unset_all_day()
    eq((build.snap(x.begin), build.snap(x.end), x.duration, x.end_representation), vals, "values after second unset")
    x.make_all_day()
    eq(x.timespan, once, "all-day again")
    note("kind:" + c["kind"], "zoned" if c["b"][1] else "floating")
    if end is not None and b is not None:
        note.nontrivial(end.date() != b.date() or first == last - D1 and end.time() == datetime.min.time())


@st.composite
def bad(draw):
    """an all-day span with exactly one thing wrong"""
    day = draw(gen.ymdhms(2, 9000))[:3]
    n = draw(st.integers(1, 20))
    fault = draw(st.sampled_from(["begin-time", "end-time", "begin-tz", "end-tz", "both-tz", "short", "zero", "zero-end", "fraction", "neg", "due-time", "due-tz"]))
    tod = draw(st.one_of(st.sampled_from([[0, 0, 1], [23, 59, 59], [12, 0, 0], [0, 0, 0, 1], [0, 0, 0, 999999]]),
                         st.integers(1, 86399).map(lambda s: [s // 3600, s // 60 % 60, s % 60])))
    return {"day": day, "n": n, "fault": fault, "tod": tod, "tz": draw(st.one_of(st.sampled_from(gen.UTCS), gen.tzspec())),
            "rest": draw(st.one_of(st.sampled_from([1, 3600, 43200, 86399]), st.integers(1, 86399))), "cls": draw(st.sampled_from(["event", "todo", "plain"]))}


def check_bad(c, note):
    import ics
    from ics.timespan import EventTimespan, Timespan, TodoTimespan

    b = datetime(*c["day"])
    e, d = b + timedelta(days=c["n"]), None
    ok_args = (b, e, None)
    f = c["fault"]
    if f == "begin-time":
        b = datetime(*c["day"], *c["tod"])
        e = e + timedelta(days=1)
        if c["n"] % 2:
            e, d = None, timedelta(days=c["n"])
        if c["n"] % 3 == 0:
            e = d = None
    elif f == "end-time":
        e = datetime(e.year, e.month, e.day, *c["tod"])
    elif f == "begin-tz":
        b, e, d = b.replace(tzinfo=build.tz_of(c["tz"])), None, (timedelta(days=c["n"]) if c["n"] % 2 else None)
    elif f == "end-tz":
        e = e.replace(tzinfo=build.tz_of(c["tz"]))
    elif f == "both-tz":
        tz = build.tz_of(c["tz"])
        b, e = b.replace(tzinfo=tz), e.replace(tzinfo=tz)
    elif f == "short":
        e, d = None, timedelta(seconds=c["rest"])
    elif f == "zero":
        e, d = None, timedelta(0)
    elif f == "zero-end":
        e = b
    elif f == "fraction":
        e, d = None, timedelta(days=c["n"], seconds=c["rest"])
    elif f == "neg":
        e = b - timedelta(days=c["n"])
        if b.year < 3:
            e, d = None, timedelta(days=-c["n"])
    elif f == "due-time":
        b, e = None, datetime(*c["day"], *c["tod"])
    elif f == "due-tz":
        b, e = None, b.replace(tzinfo=build.tz_of(c["tz"]))
    cls = {"event": EventTimespan, "todo": TodoTimespan, "plain": Timespan}[c["cls"]]
    if f.startswith("due") and c["cls"] == "event":
        cls = TodoTimespan
    check(raises(lambda: cls(b, e, d, "day")), "accepted an all-day span %r", (b, e, d))
    good = cls(*ok_args, "day")
    check(raises(lambda: good.replace(b, e, d)), "replace accepted %r", (b, e, d))
    check(raises(lambda: good.replace(begin_time=b, end_time=e, duration=d, precision="day")), "replace accepted %r", (b, e, d))
    # the same times are fine, or fail for another reason, with precision "second"
    mk = ics.Todo if cls is not EventTimespan else ics.Event
    tcls = TodoTimespan if mk is ics.Todo else EventTimespan
    x = mk(timespan=tcls(*ok_args, "day"))
    snap = build.snap(x.timespan)
    if f in ("begin-time", "begin-tz", "both-tz"):
        check(raises(setattr, x, "begin", b), "begin accepted")
    if f in ("end-time", "end-tz", "zero-end", "neg", "both-tz") and e is not None:
        check(raises(setattr, x, "end", e), "end accepted")
    if f in ("short", "zero", "fraction"):
        check(raises(setattr, x, "duration", d), "duration accepted")
    check(raises(x.timespan.replace_timezone, build.tz_of(c["tz"])) and raises(x.timespan.convert_timezone, build.tz_of(c["tz"])), "zone of an all-day span")
    check(raises(x.replace_timezone, build.tz_of(c["tz"])) and raises(x.convert_timezone, build.tz_of(c["tz"])), "zone of an all-day entry")
    eq(build.snap(x.timespan), snap, "unchanged")
    note("fault:" + f)
    note.nontrivial()


def check_utils(c, note):
    from ics import utils as u

    d = build.dt_of(c["b"])
    lo = u.floor_datetime_to_midnight(d)
    hi = u.ceil_datetime_to_midnight(d)
    naive = d.replace(tzinfo=None)
    eq(lo.replace(tzinfo=None), datetime(d.year, d.month, d.day), "floor")
    eq(hi.replace(tzinfo=None), mid(days_model(None, naive)[1]), "ceil")
    check(lo.tzinfo is d.tzinfo and hi.tzinfo is d.tzinfo, "zone kept")
    for f in (u.floor_datetime_to_midnight, u.ceil_datetime_to_midnight):
        eq(f(None), None, "None")
        eq(f(d.date()), d.date(), "date")
        check(type(f(d.date())) is date, "date type")
    td = timedelta(microseconds=c["us"])
    n = c["us"] // 86400000000
    eq(u.floor_timedelta_to_days(td), timedelta(days=n), "floor days")
    eq(u.ceil_timedelta_to_days(td), timedelta(days=-(-c["us"] // 86400000000)), "ceil days")
    note.nontrivial(naive.time() != datetime.min.time())


SUBS = [
    Sub("allday", strategy, check_case, quick=3000, shards=4),
    Sub("bad", bad, check_bad, quick=1200, shards=2),
    Sub("utils", lambda: st.fixed_dictionaries(dict(b=gen.dt(None, 2, 9000, micro=True), us=st.one_of(
        st.integers(-10 ** 13, 10 ** 13), st.integers(-100, 100).map(lambda k: k * 86400000000)))), check_utils, quick=800),
]
