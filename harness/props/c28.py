from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from harness import build, foreign, gen
from harness.core import Sub, check, eq, raises
from harness.props.c13 import bundled_names

RULE = ("Calendars with every combination of attributes built through the API and imported from foreign texts, time spans up to the first "
        "and last representable times, zones (bundled, custom, without observances, across the date line, with rule sets), rules, "
        "content lines and containers, participants, and parse errors of broken texts or with any fields; str() and repr() of each "
        "object and of everything in it, with a deep snapshot before and after. Non-trivial: the object has set and unset attributes, "
        "lies at the edge of the time range, or the error carries a position.")
ASSUMPTIONS = ["the begin of all-day entries lies after the year 999", "times at the edge of the range have no repeated-hour mark"]


def show(o, snap=True):
    """str and repr of one object"""
    before = build.snap(o) if snap else None
    s, r = str(o), repr(o)
    for t, n in ((s, "str"), (r, "repr")):
        check(type(t) is str, "%s() of %s gives %r", n, type(o).__name__, t)
    check(r and (s or not str(getattr(o, "data", "x"))), "nothing printed for %s", type(o).__name__)
    eq(str(o), s, "second str()")
    eq(repr(o), r, "second repr()")
    eq("%s" % (o,), s, "formatted")
    if snap:
        eq(build.snap(o), before, "%s after printing" % type(o).__name__)
    return s, r


def show_line(l):
    from ics.contentline import Container

    show(l)
    if isinstance(l, Container):
        for i in l:
            show_line(i)
    else:
        for vs in l.params.values():
            for v in vs:
                if type(v) is not str:
                    show(v)


def show_entry(e, note):
    s, r = show(e)
    kind = type(e).__name__
    ts = e.timespan
    b, end = ts.begin_time, ts.end_time
    words = ["<%s" % kind]
    if ts.precision == "day":
        words = ["<all-day", kind]
        note("all-day")
    elif (b or end) is not None and (b or end).tzinfo is None:
        words = ["<floating", kind]
        note("floating")
    elif (b or end) is None:
        words = None  # neither or both
        note("no time")
        check(s.split("'")[0].split(" begin:")[0].rstrip("> ").endswith(kind) or kind + " " in s, "kind in %r", s)
    name = ["'%s'" % e.summary] if e.summary else []
    if words:
        want = " ".join(words + name)
        check(s.startswith(want + " ") or s == want + ">", "text of an entry: %r does not start with %r", s, want)
        rest = s[len(want):]
        if b is not None:
            shown = "%04d-%02d-%02d" % (b.year, b.month, b.day) if ts.precision == "day" else str(b)
            check(rest.startswith(" begin: " + shown + " ") or rest == " begin: " + shown + ">", "begin in %r: want %r", s, shown)
        else:
            check("begin" not in rest, "begin in %r", s)
    elif name:
        check(name[0] in s, "summary in %r", s)
    show_span(ts, note)
    for p in list(getattr(e, "attendees", [])) + [x for x in [getattr(e, "organizer", None)] if x]:
        show(p)
    if getattr(e, "geo", None):
        show(e.geo)
    for a in e.alarms:
        show(a)
        show_line(a.extra)
    show_line(e.extra)


def show_span(ts, note):
    s, r = show(ts)
    b = ts.begin_time
    if b is not None and ts.precision != "day":
        check("begin: " + str(b) in s, "begin in %r", s)
    return s


def show_zone(z):
    show(z)
    for o in z.observances:
        show(o)
        show(o.rrule)
        for x in o.rrule._rrule + o.rrule._exrule:
            show(x, False)
        show_line(o.extra)
    show_line(z.extra)


def check_cal(cal, zones, note):
    from ics.timeline import Timeline

    s, r = show(cal)
    n, m = len(cal.events), len(cal.todos)
    eq(s, "<Calendar with %d event%s and %d todo%s>" % (n, "" if n == 1 else "s", m, "" if m == 1 else "s"), "text of a calendar")
    for e in list(cal.events) + list(cal.todos):
        show_entry(e, note)
        note.nontrivial(True)
        note("entry")
    show(cal.timeline, False)
    for z in zones:
        show_zone(z)
        note("zone")
    show_line(cal.extra)


def check_api(c, note):
    zones = build.zones_of(c)
    cal = build.cal_of(c)
    check_cal(cal, zones, note)
    for kind in c["parts"]:
        c1 = cal.to_container() if kind == "container" else None
        if c1 is not None:
            show_line(c1)
            note("container")


def api_case():
    return st.tuples(st.lists(st.sampled_from(["container"]), max_size=1), gen.some_calendar(max_entries=3)).map(lambda t: dict(t[1], parts=t[0]))


def check_foreign(c, note):
    import ics

    cal = ics.Calendar(foreign.text_of(c))
    zones = []
    for e in list(cal.events) + list(cal.todos):
        for d in (e.timespan.begin_time, e.timespan.end_time):
            if d is not None and hasattr(d.tzinfo, "observances"):
                zones.append(d.tzinfo)
    check_cal(cal, zones[:3], note)


# ------------------------------------------------------------------ time spans at the edges


@st.composite
def edge_time(draw, fine=True):
    k = draw(st.sampled_from(["min", "max", "any"]))
    if k == "min":
        t = datetime.min + timedelta(seconds=draw(st.sampled_from([0, 1, 59, 3599, 3600, 43200, 86399, 86400, 172800])))
    elif k == "max":
        t = datetime(9999, 12, 31, 23, 59, 59) - timedelta(seconds=draw(st.sampled_from([0, 1, 59, 3599, 3600, 43200, 86399, 86400, 172800])))
    else:
        return draw(gen.ymdhms(1, 9999))
    return list(t.timetuple()[:6])


@st.composite
def edge_case(draw):
    kind = draw(st.sampled_from(["event", "todo", "todo"]))
    c = {"kind": kind, "tz": draw(st.one_of(st.none(), st.sampled_from(gen.UTCS), st.sampled_from(["o:3600", "o:-3600", "o:50400", "n:3600:X"]),
                                            st.sampled_from(["i:" + z for z in gen.ZNAMES]), st.just("l:"))),
         "form": draw(st.sampled_from(["begin", "dur", "end", "due", "allday", "allday_dur"])), "t": draw(edge_time()),
         "d": draw(st.one_of(gen.DELTAS, st.sampled_from([86400 * 400, 86400 * 3652058, 86400 * 999999999]))), "summary": draw(gen.opt(gen.text(3)))}
    if c["form"] == "due" and kind == "event":
        c["form"] = "begin"
    return c


def check_edge(c, note):
    import ics
    from ics.timespan import EventTimespan, TodoTimespan

    tz = build.tz_of(c["tz"])
    t = datetime(*c["t"], tzinfo=tz)
    d = timedelta(seconds=c["d"])
    T = EventTimespan if c["kind"] == "event" else TodoTimespan
    E = ics.Event if c["kind"] == "event" else ics.Todo
    f = c["form"]
    if f.startswith("allday"):
        t = t.replace(year=max(t.year, 1000), hour=0, minute=0, second=0, tzinfo=None)
        d = timedelta(days=max(1, d.days))
    if f == "begin":
        ts = T(t)
    elif f == "due":
        ts = T(None, t)
    elif f == "dur":
        ts = T(t, None, d)
    elif f == "end":
        try:
            ts = T(t, t + d)
        except OverflowError:
            note("no such end")
            return
    elif f == "allday":
        ts = T(t, precision="day")
    else:
        ts = T(t, None, d, precision="day")
    e = E(timespan=ts, summary=c["summary"], uid="u", dtstamp=datetime(2020, 1, 1, tzinfo=timezone.utc))
    show_entry(e, note)
    note.nontrivial(t.year in (1, 2, 9998, 9999))
    note("form:" + f, "kind:" + c["kind"])
    try:
        t + d
    except OverflowError:
        note("overflow")


# ------------------------------------------------------------------ zones and rules


@st.composite
def zone_case(draw):
    k = draw(st.sampled_from(["bundled", "custom", "custom", "custom", "none"]))
    c = {"k": k, "t": draw(gen.ymdhms(1, 2100)), "fold": draw(st.integers(0, 1))}
    if k == "bundled":
        c["i"] = draw(st.integers(0, 592))
    elif k == "none":
        c["tzid"] = draw(gen.text(4, min_size=1))
        c["extra"] = draw(st.lists(gen.extra_item(), max_size=2))
    else:
        c["zone"] = draw(gen.zone())
        c["api"] = draw(st.booleans())
        c["extra"] = draw(st.lists(gen.extra_item(), max_size=2))
    return c


def check_zone(c, note):
    import ics
    from ics.timezone import Timezone

    if c["k"] == "bundled":
        names = bundled_names()
        z = Timezone.from_tzid(names[c["i"] % len(names)])
        eq(repr(z), "Timezone.from_tzid(%r)" % z.tzid, "repr of a bundled zone")
        same = eval(repr(z), {"Timezone": Timezone})
        check(same == z, "evaluated repr of %r", z)
    elif c["k"] == "none":
        z = Timezone(c["tzid"])
        for x in c["extra"]:
            z.extra.append(build.item_of(x))
    else:
        z = build.zone_api(c["zone"]) if c["api"] else build.zone_parse(c["zone"])
        for x in c["extra"]:
            z.extra.append(build.item_of(x))
    eq(str(z), z.tzid, "text of a zone")
    show_zone(z)
    d = datetime(*c["t"], tzinfo=z, fold=c["fold"])
    if 1 < d.year < 9999:
        show(d, False)
        show_entry(ics.Event(begin=d, uid="u", dtstamp=datetime(2020, 1, 1, tzinfo=timezone.utc)), note)
    note.nontrivial(c["k"] != "none")
    note("zone:" + c["k"])


# ------------------------------------------------------------------ content lines, errors, other objects


BAD = ["A", "A;", "A;B", "A;B=", "A;B=c", 'A;B="c:d', 'A;B="c"d:e', "A;B=^x:c", "A;B=^:c", ":x", "", " A:b", "A:b\nC", "BEGIN:A\nB:c",
       "BEGIN:A\nEND:B", "A;=b:c", "A;B:c", "A B:c", "BEGIN:\nEND:", "A;B=c;;D=e:f", "A;B=c,:d\x00", 'A;B=c"d:e', "\ufeffA:b", "BEGIN:VCALENDAR\nBEGIN:VEVENT\nEND:VEVENT",
       "BEGIN:VCALENDAR\nBEGIN:VEVENT\nDTSTART:x\nEND:VEVENT\nEND:VCALENDAR"]


@st.composite
def error_case(draw):
    if draw(st.booleans()):
        return {"msg": draw(gen.text(4)), "nr": draw(st.integers(-1, 5)), "col": draw(st.one_of(st.integers(-1, 80), st.tuples(
            st.integers(0, 80), st.integers(0, 80)).map(list))), "line": draw(gen.opt(gen.text(4))), "state": draw(gen.opt(gen.text(4)))}
    return {"bad": draw(st.one_of(st.sampled_from(BAD), st.lists(st.sampled_from(["A", ";", ":", "=", '"', ",", "^", "b", "\n", " ", "\t", "BEGIN:X\n", "END:X\n",
                                                                                  "BEGIN:", "END:", "\r", "\x01"]), max_size=8).map("".join)))}


def check_error(c, note):
    from ics.contentline import ParseError, Parser, string_to_container, string_to_containers
    import ics
    import warnings

    if "msg" in c:
        col = tuple(c["col"]) if isinstance(c["col"], list) else c["col"]
        err = ParseError(c["msg"], c["nr"], col, c["line"], c["state"])
        s, r = show(err, False)
        for f in ("msg", "line", "state"):
            check((c[f] or "") in s, "%s in %r", f, s)
        if c["nr"] != -1:
            check("Line %d" % c["nr"] in s, "line number in %r", s)
            note.nontrivial(True)
        eq(str(ParseError(c["msg"])), "Line " + c["msg"], "text of a plain error")
        note("fields")
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for what, fn in (("containers", lambda: list(string_to_containers(c["bad"]))), ("line", lambda: list(Parser.string_to_contentlines(c["bad"]))),
                         ("container", lambda: string_to_container(c["bad"])), ("calendar", lambda: ics.Calendar(c["bad"]))):
            try:
                ok = fn()
            except Exception as e:
                show(e, False)
                note("raised " + what, "type:" + type(e).__name__)
                note.nontrivial(True)
            else:
                if what in ("containers", "line"):
                    for x in ok:
                        show_line(x)


@st.composite
def misc_case(draw):
    return {"line": draw(gen.extra_item()), "quoted": draw(gen.text(4)), "norm": [draw(st.booleans()), draw(st.booleans()),
                                                                                draw(gen.opt(gen.any_tz())), draw(st.sampled_from(["none", "replace", "convert", "both"]))],
            "person": draw(gen.person()), "org": draw(gen.person(False)), "alarm": draw(gen.alarm()), "geo": draw(st.tuples(
                st.floats(-90, 90), st.floats(-180, 180)).map(list)), "uri": draw(gen.uri())}


def check_misc(c, note):
    import ics
    from ics.contentline import QuotedParamValue
    from ics.geo import Geo
    from ics.timespan import Normalization

    line = build.item_of(c["line"])
    show_line(line)
    if c["line"][0] == "L":
        check(str(line).startswith(c["line"][1]), "name in %r", str(line))
        v = c["line"][3]
        if len(v) < 30:
            check(v in str(line), "value in %r", str(line))
    q = QuotedParamValue(c["quoted"])
    s, r = show(q)
    eq(s, c["quoted"], "text of a quoted value")
    from ics.timezone import UTC

    fl, aw, tz, mode = c["norm"]
    n = Normalization(normalize_floating=fl, normalize_with_tz=aw, replacement=build.tz_of(tz))
    show(n, False)
    for spec, cls in ((c["person"], ics.Attendee), (c["org"], ics.Organizer)):
        p = build.person_of(spec, cls)
        s, r = show(p)
        check(type(p).__name__ in r, "kind in %r", r)
        note("person")
    a = build.alarm_of(c["alarm"])
    s, r = show(a)
    check(type(a).__name__ in r, "kind in %r", r)
    show(Geo(*c["geo"]))
    from ics.valuetype.base import ValueConverter

    for conv in ValueConverter.BY_NAME.values():
        show(conv, False)
    note.nontrivial(c["line"][0] == "C" or c["person"]["kw"] != {})
    note("alarm:" + c["alarm"]["kind"])


SUBS = [
    Sub("api", api_case, check_api, quick=700, shards=3),
    Sub("foreign", lambda: foreign.some(3), check_foreign, quick=250),
    Sub("edge", edge_case, check_edge, quick=3000),
    Sub("zones", zone_case, check_zone, quick=600, fixed=[{"k": "bundled", "i": i, "t": [2020, 7, 1, 0, 0, 0], "fold": 0} for i in range(593)]),
    Sub("errors", error_case, check_error, quick=2000),
    Sub("misc", misc_case, check_misc, quick=1000),
]
