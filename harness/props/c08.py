from datetime import date, datetime, timedelta

from hypothesis import strategies as st

from harness import build, gen
from harness.core import Known, Sub, check, eq, raises
from harness.spanmodel import Invalid, Model

RULE = ("A new event or todo (random begin/end/duration arguments, also invalid ones) followed by up to 12 random edits: begin, end/"
        "due, duration as datetimes, dates, tuples, dicts or None, convert_end to every target, all-day on/off, whole new spans; "
        "after every step all reported values are compared with a reference model. Non-trivial: at least two edits took effect; in near_change, the first span crosses a clock change of its zone.")
ASSUMPTIONS = ["whole-second times", "no end after the year 9999", "begin and end use the same zone or fixed UTC offsets"]

ZONES = ["i:Europe/Berlin", "z:America/New_York", "d:Australia/Sydney"]


@st.composite
def when(draw, tzs):
    """a datetime-like argument"""
    kind = draw(st.sampled_from(["dt", "dt", "dt", "dt", "none", "date", "tuple", "dict", "mid"]))
    if kind == "none":
        return None
    y = draw(st.one_of(gen.ymdhms(1, 9000), gen.CHANGE.map(lambda d: list(d.timetuple()[:6])), st.integers(0, 5 * 96).map(lambda q: [2019, 3, 29 + q // 96 % 3, q // 4 % 24, q % 4 * 15, 0])))
    if kind in ("mid", "date"):
        y[3:] = [0, 0, 0]
    return {"k": kind, "v": [y, draw(st.sampled_from(tzs)) if kind in ("dt",) else None]}


def rel():
    return st.one_of(st.sampled_from([0, 1, 3600, 7200, 86400, 172800, 90061, -1]), st.integers(0, 10 ** 6)).map(lambda s: {"k": "rel", "v": s})


def value(w, begin=None):
    """-> (argument for the API, model value)"""
    if w is None:
        return None, None
    if w["k"] == "rel":
        d = (begin if begin is not None else datetime(2019, 1, 1)) + timedelta(seconds=w["v"])
        return d, d
    y, tz = w["v"]
    d = build.dt_of([y, tz])
    if w["k"] == "date":
        return d.date(), d
    if w["k"] == "tuple":
        return tuple(y), d
    if w["k"] == "dict":
        return dict(zip(("year", "month", "day", "hour", "minute", "second"), y)), d
    return d, d


def durs():
    return st.one_of(st.none(), st.sampled_from([0, 1, 3600, 10800, 43200, 86399, 86400, 172800, -1, -86400, 90000, 604800]), st.integers(-10 ** 3, 10 ** 6)).flatmap(
        lambda s: st.tuples(st.just(s), st.sampled_from(["td", "td", "tuple", "dict"])).map(list))


def dvalue(d):
    s, k = d
    if s is None:
        return None, None
    td = timedelta(seconds=s)
    return {"td": td, "tuple": (td.days, td.seconds), "dict": {"seconds": s}}[k], td


@st.composite
def strategy(draw):
    tzs = draw(st.sampled_from([[None], [None, "u:dt"], ["u:ics", "o:7200", "u:zi", "o:-19800", None]] + [[z, z, None] for z in ZONES]))
    w = when(tzs)
    op = st.one_of(
        st.tuples(st.just("begin"), w), st.tuples(st.just("end"), st.one_of(w, rel(), rel())), st.tuples(st.just("dur"), durs()),
        st.tuples(st.just("conv"), st.sampled_from(["end", "end", "duration", "duration", "due", None, "junk"])),
        st.tuples(st.just("allday"), st.just(0)), st.tuples(st.just("unset"), st.just(0)),
        st.tuples(st.just("span"), st.tuples(w, st.one_of(w, rel()), durs(), st.sampled_from(["second", "second", "day"])) | st.tuples(
            w, st.none() | rel(), st.just([None, "td"]), st.sampled_from(["second", "second", "day"])).map(list)),
        st.tuples(st.just("clone"), st.just(0)),
    ).map(list)
    first = draw(st.one_of(st.tuples(w, st.none(), st.just([None, "td"])), st.tuples(w, rel(), st.just([None, "td"])),
                           st.tuples(w, st.none(), durs()), st.tuples(w, w, st.just([None, "td"])),
                           st.tuples(w, w, durs())).map(list))
    return {"todo": draw(st.booleans()), "init": first, "ops": draw(st.lists(op, max_size=12))}


@st.composite
def near_change(draw):
    """spans around a clock change of a named zone, with conversions between the representations"""
    z = draw(st.sampled_from(ZONES + ["i:America/New_York", "i:Australia/Lord_Howe", "d:Europe/Paris", "i:America/Sao_Paulo"]))
    y = draw(st.integers(2005, 2025))
    mon, day = draw(st.sampled_from([(3, 8), (3, 24), (4, 1), (10, 1), (10, 24), (11, 1), (2, 14), (10, 14)]))
    start = datetime(y, mon, day) + timedelta(minutes=15 * draw(st.integers(0, 96 * 9)))
    b = {"k": "dt", "v": [list(start.timetuple()[:6]), z]}
    d = [draw(st.sampled_from([3600, 7200, 86400, 3 * 86400, 604800, 604800 + 1800, 12 * 86400, 30 * 86400, 90 * 86400])), "td"]
    e = {"k": "rel", "v": draw(st.sampled_from([3600, 86400, 604800, 12 * 86400, 90 * 86400]))}
    by_end = draw(st.booleans())
    op = st.one_of(st.sampled_from(["end", "duration", "due", "end", "duration"]).map(lambda t: ["conv", t]), st.just(["dur", d]), st.just(["end", e]), st.just(["clone", 0]))
    ops = [["conv", "duration" if by_end else "end"]] + draw(st.lists(op, max_size=6))
    return {"todo": draw(st.booleans()), "init": [b, e if by_end else None, [None, "td"] if by_end else d], "ops": ops}


def compare(x, m, todo, what):
    snap = build.snap
    eq(snap(x.begin), snap(m.begin), "begin after " + what)
    eq(snap(x.due if todo else x.end), snap(m.eff_end()), "end after " + what)
    eq(snap(x.end), snap(m.eff_end()), "end after " + what)
    eq(x.duration, m.duration(), "duration after " + what)
    eq(x.end_representation, m.rep(), "end representation after " + what)
    eq(x.has_explicit_end, m.rep() is not None, "has_explicit_end after " + what)
    eq(x.all_day, m.prec == "day", "all_day after " + what)
    eq(x.floating, m.floating(), "floating after " + what)
    if todo:
        eq(x.due_representation, m.rep(), "due representation")
        eq(x.has_explicit_due, m.rep() is not None, "has_explicit_due")
    ts = x.timespan
    eq(snap(ts.begin_time), snap(m.begin), "stored begin after " + what)
    eq(snap(ts.end_time), snap(m.end), "stored end after " + what)
    eq(ts.duration, m.dur, "stored duration after " + what)


def floor(d):
    return None if d is None else datetime(d.year, d.month, d.day)


def all_day_model(m):
    if m.prec == "day":
        return m
    b, e = floor(m.begin), m.eff_end()
    if e is not None:
        f = floor(e)
        e = f if f == e.replace(tzinfo=None) else f + timedelta(days=1)
        if b is not None and e == b:
            e += timedelta(days=1)
    if m.rep() == "duration":
        return m.but(begin=b, end=None, dur=e - b, prec="day")
    return m.but(begin=b, end=e, dur=None, prec="day")


def check_case(c, note):
    import ics
    from ics.timespan import EventTimespan, TodoTimespan

    todo = c["todo"]
    (b, mb), (e, me), (d, md) = value(c["init"][0]), (None, None), dvalue(c["init"][2])
    e, me = value(c["init"][1], mb)
    try:
        m = Model(todo, mb, me, md)
    except Invalid:
        m = None
    try:
        x = ics.Todo(begin=b, due=e, duration=d, summary="s", uid="u") if todo else ics.Event("s", b, e, d, uid="u")
    except Exception as ex:
        check(m is None, "constructor rejected valid times: %r", ex)
        x = None
    if x is None or m is None:
        check(x is None, "constructor accepted invalid times %r", c["init"])
        note("ctor-rejected")
        x = (ics.Todo if todo else ics.Event)(summary="s", uid="u")
        m = Model(todo)
    compare(x, m, todo, "construction")
    took = 0
    for op, arg in c["ops"]:
        old, old_ts = m, x.timespan
        new = None
        try:
            if op == "begin":
                a, v = value(arg)
                act = lambda: setattr(x, "begin", a)
                new = m.but(begin=v)
            elif op == "end":
                a, v = value(arg, m.begin)
                act = lambda: setattr(x, "due" if todo and (arg is None or arg["k"] != "tuple") else "end", a)
                new = m.but(end=v, dur=None)
            elif op == "dur":
                a, v = dvalue(arg)
                act = lambda: setattr(x, "duration", a)
                new = m.but(end=None, dur=v)
            elif op == "conv":
                act = lambda: x.convert_end(arg)
                new = m.convert_end(arg)
            elif op == "allday":
                act = x.make_all_day
                new = all_day_model(m)
            elif op == "unset":
                act = x.unset_all_day
                new = m.but(prec="second")
            elif op == "clone":
                act = lambda: None
                x = x.clone()
                new = m
            else:
                cls = TodoTimespan if todo else EventTimespan
                (_, vb), (_, vd) = value(arg[0]), dvalue(arg[2])
                _, ve = value(arg[1], vb)
                act = lambda: setattr(x, "timespan", cls(vb, ve, vd, arg[3]))
                new = Model(todo, vb, ve, vd, arg[3])
        except Invalid:
            new = None
        if new is not None and new.prec == "day" and old.prec == "second" and op == "allday" and old.begin is not None \
                and old.end is not None and old.begin.tzinfo is not old.end.tzinfo:
            new = "any"  # all-day spans across two zones: see C09
        err = raises(act)
        if err:
            check(new is None or new == "any", "%s(%r) raised %r in state %r", op, arg, err, vars(old))
            check(x.timespan is old_ts or x.timespan == old_ts, "%s raised but changed the span", op)
            compare(x, old, todo, "rejected " + op)
            note("rejected:" + op)
        else:
            check(new is not None, "%s(%r) accepted in state %r -> %r", op, arg, vars(old), x.timespan)
            if new == "any":
                break
            if vars(new) != vars(old):
                took += 1
                note("took:" + op)
            if op == "conv" and arg is not None:
                eq(x.end, old.eff_end(), "end after conversion")
                eq(x.duration, old.duration(), "duration after conversion")
            m = new
            try:
                m.eff_end()
            except OverflowError:
                note("end after the year 9999")
                break
            compare(x, m, todo, op)
        eq((x.summary, x.uid), ("s", "u"), "other attributes")
    note.nontrivial(took >= 2)


def check_near(c, note):
    check_case(c, note)
    b = build.dt_of(c["init"][0]["v"])
    secs = c["init"][1]["v"] if c["init"][1] else c["init"][2][0]
    if b.utcoffset() != (b + timedelta(seconds=secs)).utcoffset():
        note("crosses a clock change")
        note.nontrivial()
    else:
        note.hit = False


def check_types(c, note):
    """wrong kinds of values never get in"""
    import ics
    from ics.timespan import EventTimespan, TodoTimespan, Timespan

    x = (ics.Todo if c["todo"] else ics.Event)(begin=datetime(2020, 1, 1), duration=timedelta(1), uid="u")
    ts = x.timespan
    junk = [5, "2020-01-01", 1.5, [2020, 1, 1], object(), b"x"]
    for attr_ in ("begin", "end", "duration"):
        check(raises(setattr, x, attr_, junk[c["j"]]), "%s accepted %r", attr_, junk[c["j"]])
    other = EventTimespan if c["todo"] else TodoTimespan
    for v in (other(datetime(2020, 1, 1)), junk[c["j"]], None, Timespan(datetime(2020, 1, 1))):
        check(raises(setattr, x, "timespan", v), "timespan accepted %r", v)
    for cls in (EventTimespan, TodoTimespan, Timespan):
        for kw in ({"begin_time": junk[c["j"]]}, {"begin_time": datetime(2020, 1, 1), "end_time": junk[c["j"]]},
                   {"begin_time": datetime(2020, 1, 1), "duration": junk[c["j"]]}, {"end_time": date(2020, 1, 1)}):
            check(raises(lambda: cls(**kw)), "%s accepted %r", cls, kw)
    for kw in (dict(begin=datetime(2020, 1, 1)), dict(duration=timedelta(1)), {"due" if c["todo"] else "end": datetime(2020, 1, 1)}):
        check(raises(lambda: type(x)(timespan=ts, **kw)), "explicit span together with %r", kw)
    eq(x.timespan, ts, "unchanged")
    note.nontrivial()


def check_mixed(c, note):
    """spans between two zones across a clock change"""
    import ics

    e = ics.Event(begin=build.dt_of(c["b"]), end=build.dt_of(c["e"]))
    end = e.end
    e.convert_end("duration")
    note.nontrivial()
    if e.end != end:
        eq(e.end_representation, "duration", "representation")
        raise Known("mixed-zone-dst")


SUBS = [Sub("edits", strategy, check_case, quick=4000, shards=6),
        Sub("near_change", near_change, check_near, quick=2000, shards=4),
        Sub("types", lambda: st.fixed_dictionaries(dict(todo=st.booleans(), j=st.integers(0, 5))), check_types, quick=12),
        Sub("mixed", lambda: st.just({"b": [[2019, 3, 30, 12, 0, 0], "z:Europe/Berlin"], "e": [[2019, 3, 31, 12, 0, 0], "u:dt"]}), check_mixed, quick=1)]
