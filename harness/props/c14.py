from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from harness import build, expect, gen, ref
from harness.core import Known, Sub, check, eq, set_tz
from harness.instants import LOCALS

RULE = ("Calendars of events, todos and alarms whose times use UTC objects of four libraries, no zone, all-day precision, fixed offsets "
        "(also named ones), zoneinfo, dateutil, bundled, file-defined and API-built zones and the local zone; the exported text is read "
        "by an independent tokenizer and imported again; then times are edited, moved to other zones or removed and everything is "
        "checked again. Non-trivial: at least two different zone objects are in use.")
ASSUMPTIONS = ["zones in one calendar that share a name share their rules", "date-times in whole seconds with fold=0",
               "the instant of zoneinfo/dateutil times is required where the bundled definition agrees with the object"]
UTC = timezone.utc


@st.composite
def named(draw):
    if draw(st.integers(0, 3)) == 3:  # names which also mean a zone with other rules
        return draw(st.sampled_from(["n:3600:CET", "n:-18000:EST5EDT", "n:7200:EET", "n:3600:Europe/Paris", "n:-25200:Mountain Standard Time",
                                     "n:600:UTC+00:10", "n:5400:GMT+1", "n:-3600:utc-1", "n:36000:Antarctica/Troll"]))
    q = draw(st.integers(-50, 50).filter(bool))
    return "n:%d:%s%d" % (q * 900, draw(st.sampled_from(["Fix ", "Zone,", "A;B:", "Plus\\", "Zürich"])), q)


def tzs(customs=0):
    opts = [st.none(), st.sampled_from(gen.UTCS), gen.tzspec(customs), gen.tzspec(customs), named(), st.just("l:")]
    return st.one_of(*opts)


def aware(customs=0):
    return tzs(customs).filter(lambda z: z is not None and z != "l:")


@st.composite
def edit(draw, customs):
    k = draw(st.sampled_from(["remove", "replace", "convert", "begin", "all_day", "completed"]))
    e = {"op": k, "i": draw(st.integers(0, 5))}
    if k in ("replace", "convert"):
        e["tz"] = draw(aware(customs) if k == "convert" else tzs(customs))
    if k in ("begin", "completed"):
        z = draw(aware(customs) if k == "completed" else tzs(customs))
        e["t"] = draw(gen.dt(st.just(z), 1971, 2037))
    return e


@st.composite
def strategy(draw):
    api = draw(st.booleans())
    zs = draw(gen.zones(3))
    n = len(zs)
    es = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["event", "todo"]))
        e = {"kind": kind, "uid": "u%d" % len(es), "dtstamp": draw(gen.dt(aware(n), 1971, 2037)),
             "span": draw(gen.span(kind == "todo", n, draw(st.sampled_from([tzs(n), tzs(n)])), lo=1, hi=9990))}
        for k in ("created", "last_modified") + (("completed",) if kind == "todo" else ()):
            if draw(st.integers(0, 3)) == 3:
                e[k] = draw(gen.dt(aware(n), 1971, 2037))
        if draw(st.integers(0, 2)) == 2:
            e["alarms"] = [{"kind": "display", "description": "x", "trigger": draw(gen.dt(tzs(n), 1971, 2037))}]
        es.append(e)
    return {"zones": zs, "api": api, "entries": es, "local": draw(st.sampled_from(LOCALS)), "edits": draw(st.lists(edit(n), max_size=4)),
            "tzurl": draw(gen.opt(st.just("http://tz.example/x")))}


def agree(d):
    """does the exported definition give the same offset as the object at this reading"""
    from ics.timezone import Timezone, is_utc

    tz = d.tzinfo
    if tz is None or is_utc(tz) or isinstance(tz, Timezone) or isinstance(tz, timezone):
        return True
    z = Timezone.from_tzinfo(tz)
    return z is None or d.replace(tzinfo=z).utcoffset() == d.utcoffset()


def is_utc_obj(d):
    return d.tzinfo is not None and d.utcoffset() == timedelta(0) and d.tzname() in ("UTC",)


def is_local(z):
    """a local zone object; dateutil regards the local zone of a UTC machine as UTC"""
    import os

    return type(z).__name__ == "tzlocal" and os.environ["TZ"] != "UTC"


def times(cal):
    """[(key, value, allday)] of all entries in order"""
    out = []
    for kind, es in (("VEVENT", cal.events), ("VTODO", cal.todos)):
        for i, e in enumerate(es):
            ts, end = e.timespan, "DTEND" if kind == "VEVENT" else "DUE"
            for nm, v, day in (("DTSTART", ts.begin_time, e.all_day), (end, ts.end_time, e.all_day), ("CREATED", e.created, 0),
                               ("LAST-MODIFIED", e.last_modified, 0), ("DTSTAMP", e.dtstamp, 0),
                               ("COMPLETED", getattr(e, "completed", None), 0)):
                out.append(((kind, i, nm), v, day))
            for k, a in enumerate(e.alarms):
                if isinstance(a.trigger, datetime):
                    out.append(((kind, i, "TRIGGER%d" % k), a.trigger, 0))
    return out


def verify(cal, note):
    """export, look at the text, import"""
    import ics
    from ics.timezone import Timezone, is_utc

    want = times(cal)
    text = cal.serialize()
    root = ref.parse_tree(text)[0]
    written = {}
    for kind in ("VEVENT", "VTODO"):
        for i, node in enumerate(expect.comps(root, kind)):
            for n in node[2]:
                if n[0] == "L":
                    check((kind, i, n[1]) not in written, "%s twice", n[1])
                    written[kind, i, n[1]] = n
            for k, al in enumerate(expect.comps(node, "VALARM")):
                for n in expect.lines(al, "TRIGGER"):
                    written[kind, i, "TRIGGER%d" % k] = n
    used = set()
    kinds = set()
    for key, v, day in want:
        n = written.get(key)
        if v is None:
            check(n is None, "%s written for an unset time", key)
            continue
        check(n is not None, "%s not written", key)
        p = {k: [v for _, v in x] for k, x in n[2]}
        if day:
            eq((p.get("VALUE"), n[3], p.get("TZID")), (["DATE"], ref.fmt_date(v), None), "all-day %s" % (key,))
            kinds.add("day")
            continue
        check(p.get("VALUE") in (None, ["DATE-TIME"]), "VALUE of %s: %r", key, p)
        z = v.tzinfo
        local = is_local(z)
        naive = v.replace(tzinfo=None)
        if z is None or local:
            eq((n[3], p.get("TZID")), (ref.fmt_dt(naive), None), "floating %s" % (key,))
            kinds.add("floating")
        elif is_utc_obj(v) and is_utc(z):
            eq((n[3], p.get("TZID")), (ref.fmt_dt(naive, utc=True), None), "UTC %s" % (key,))
            kinds.add("utc")
        else:
            eq(n[3], ref.fmt_dt(naive), "zoned %s" % (key,))
            check(len(p.get("TZID", [])) == 1, "TZID of %s: %r", key, p)
            tzid = p["TZID"][0]
            if isinstance(z, Timezone):
                eq(tzid, z.tzid, "TZID of %s" % (key,))
            elif isinstance(z, timezone):
                eq(tzid, z.tzname(None), "TZID of %s" % (key,))
            else:
                name = getattr(z, "key", None) or z._filename
                check(tzid.endswith(name.split("/usr/share/zoneinfo/")[-1]), "TZID of %s: %r for %r", key, tzid, z)
            used.add(tzid)
            kinds.add(type(z).__module__ + tzid)
    defs = [expect.lines(z, "TZID")[0][3] for z in expect.comps(root, "VTIMEZONE")]
    eq(sorted(ref.unescape_text(d) for d in defs), sorted(used), "zone definitions")
    note.nontrivial(len(kinds) >= 2)
    note("kinds%d" % len(kinds), "zones%d" % len(used))
    for e in list(cal.events) + list(cal.todos):
        b, en = e.timespan.begin_time, e.timespan.end_time
        if b is None or en is None or e.all_day:
            continue
        if is_local(b.tzinfo) != is_local(en.tzinfo) and None not in (b.tzinfo, en.tzinfo):
            raise Known("local-mixed")  # one end is written as floating, the other one not
        if not (agree(b) and agree(en)):
            tb, te = (d.replace(tzinfo=None if is_local(d.tzinfo) else Timezone.from_tzinfo(d.tzinfo)) for d in (b, en))
            if tb > te:
                note("definitions reverse the span")
                return None
    again = ics.Calendar(text)
    got = times(again)
    eq([k for k, _, _ in got], [k for k, _, _ in want], "times after import")
    for (key, v, day), (_, w, day2) in zip(want, got):
        if v is None:
            eq(w, None, "%s after import" % (key,))
            continue
        eq(bool(day2), bool(day), "all-day of %s" % (key,))
        eq(w.replace(tzinfo=None), v.replace(tzinfo=None), "reading of %s" % (key,))
        if v.tzinfo is None or is_local(v.tzinfo):
            eq(w.tzinfo, None, "zone of floating %s" % (key,))
            continue
        check(w.tzinfo is not None, "%s lost its zone", key)
        if agree(v):
            eq(w.utcoffset(), v.utcoffset(), "offset of %s (%r)" % (key, v))
        else:
            note("definitions differ")
    return again


def apply(cal, e, zones, note):
    entries = list(cal.events) + list(cal.todos)
    if not entries:
        return
    x = entries[e["i"] % len(entries)]
    op = e["op"]
    try:
        if op == "remove":
            cal.events = [o for o in cal.events if o is not x]
            cal.todos = [o for o in cal.todos if o is not x]
        elif op in ("replace", "convert"):
            tz = build.tz_of(e["tz"], zones)
            x.replace_timezone(tz) if op == "replace" else x.convert_timezone(tz)
        elif op == "begin":
            x.begin = build.dt_of(e["t"], zones)
        elif op == "all_day":
            x.make_all_day()
        elif op == "completed" and hasattr(x, "completed"):
            x.completed = build.dt_of(e["t"], zones)
    except (ValueError, OverflowError, TypeError):
        note("refused:" + op)


def check_case(c, note):
    import ics

    set_tz(c["local"])
    zones = [build.zone_api(z) if c["api"] else build.zone_parse(z) for z in c["zones"]]
    cal = ics.Calendar(events=[build.entry_of(e, zones) for e in c["entries"] if e["kind"] == "event"],
                       todos=[build.entry_of(e, zones) for e in c["entries"] if e["kind"] == "todo"])
    again = verify(cal, note)
    if again is None:
        return
    once = again.serialize()
    eq(once, cal.serialize(), "second export")
    if c["edits"]:
        for target in (cal, again):
            for e in c["edits"]:
                apply(target, e, zones, note)
            verify(target, note)


# ------------------------------------------------------------------ objects of pytz (which need not be installed)


def fake_pytz():
    """the part of pytz's class structure that its users see"""
    import sys
    import types

    if "pytz" in sys.modules and not hasattr(sys.modules["pytz"], "FAKE"):
        import pytz.reference
        return sys.modules["pytz"]
    if "pytz" in sys.modules:
        return sys.modules["pytz"]
    from datetime import tzinfo

    m, ti, rf = (types.ModuleType(n) for n in ("pytz", "pytz.tzinfo", "pytz.reference"))
    m.FAKE = True

    def cls(mod, name, base):
        c = type(name, (base,), {"__module__": mod.__name__})
        setattr(mod, name, c)
        return c

    b = cls(ti, "BaseTzInfo", tzinfo)
    b.__str__ = lambda self: self.zone
    b.utcoffset = lambda self, dt, is_dst=None: self._utcoffset
    b.dst = lambda self, dt, is_dst=None: timedelta(0)
    b.tzname = lambda self, dt, is_dst=None: self._tzname
    cls(ti, "StaticTzInfo", b)
    cls(ti, "DstTzInfo", b)
    u = cls(m, "UTC", b)
    m.utc = u()
    m.utc.zone, m.utc._utcoffset, m.utc._tzname = "UTC", timedelta(0), "UTC"
    for n in ("FixedOffset", "LocalTimezone", "USTimeZone"):
        cls(rf, n, tzinfo)
    m.tzinfo, m.reference = ti, rf
    sys.modules.update({"pytz": m, "pytz.tzinfo": ti, "pytz.reference": rf})
    return m


def pytz_strategy():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["static", "static", "utc", "dst", "tzoffset", "tzstr"]),
                                      q=st.integers(-48, 48).filter(bool), t=gen.ymdhms(1971, 2037)))


def check_pytz(c, note):
    import dateutil.tz
    import ics
    from harness.core import raises

    m = fake_pytz()
    off = timedelta(minutes=15 * c["q"])
    if c["kind"] == "utc":
        tz, off = m.utc, timedelta(0)
    elif c["kind"] == "tzoffset":
        tz = dateutil.tz.tzoffset("OFF", off)
    elif c["kind"] == "tzstr":
        tz = dateutil.tz.tzstr("EST5EDT")
    else:
        tz = (m.tzinfo.StaticTzInfo if c["kind"] == "static" else m.tzinfo.DstTzInfo)()
        tz.zone, tz._utcoffset, tz._tzname = "X/Y", off, ref.fmt_off(int(off.total_seconds()))
    d = datetime(*c["t"], tzinfo=tz)
    cal = ics.Calendar(events=[ics.Event(begin=d)])
    note.nontrivial()
    note(c["kind"])
    if c["kind"] in ("dst", "tzoffset", "tzstr"):
        # no way to describe these zones: refused instead of changing the meaning
        err = raises(cal.serialize)
        check(isinstance(err, ValueError), "export of an unsupported zone: %r", err)
        return
    b = ics.Calendar(cal.serialize()).events[0].begin
    eq((b.replace(tzinfo=None), b.utcoffset()), (datetime(*c["t"]), off), "time with a pytz zone")


SUBS = [Sub("export", strategy, check_case, quick=1600, shards=8), Sub("pytz", pytz_strategy, check_pytz, quick=100)]
