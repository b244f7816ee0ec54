"""Build real objects from JSON specs, and dump real objects to comparable snapshots."""
import datetime as D
from datetime import datetime, timedelta
from urllib.parse import ParseResult, urlparse

import attr

from harness import ref

_tzcache = {}


def tz_of(spec, zones=None):
    """zone spec string -> tzinfo (the same object for the same spec)"""
    if spec is None:
        return None
    key = spec if not spec.startswith("c:") else None
    if key in _tzcache:
        return _tzcache[key]
    kind, _, name = spec.partition(":")
    if kind == "u":
        import dateutil.tz
        import zoneinfo
        from ics.timezone import UTC

        tz = {"dt": D.timezone.utc, "du": dateutil.tz.UTC, "ics": UTC, "zi": zoneinfo.ZoneInfo("UTC")}[name]
    elif kind == "z":
        import zoneinfo

        tz = zoneinfo.ZoneInfo(name)
    elif kind == "d":
        import dateutil.tz

        tz = dateutil.tz.gettz(name)
        assert tz is not None
    elif kind == "i":
        from ics.timezone import Timezone

        tz = Timezone.from_tzid(name)
    elif kind == "o":
        tz = D.timezone(timedelta(seconds=int(name)))
    elif kind == "n":
        secs, _, label = name.partition(":")
        tz = D.timezone(timedelta(seconds=int(secs)), label)
    elif kind == "l":
        import dateutil.tz

        return dateutil.tz.tzlocal()
    elif kind == "c":
        return zones[int(name)]
    else:
        raise ValueError(spec)
    _tzcache[key] = tz
    return tz


def dt_of(spec, zones=None):
    """[[y,mo,d,h,mi,s(,us)], tz(, fold)]"""
    if spec is None:
        return None
    tz = tz_of(spec[1], zones)
    fold = spec[2] if len(spec) > 2 else 0
    return datetime(*spec[0], tzinfo=tz, fold=fold)


def td_of(secs):
    return None if secs is None else timedelta(seconds=secs)


def zone_text(spec, extra=()):
    """VTIMEZONE lines of a zone spec, written independently of the serializer."""
    out = ["BEGIN:VTIMEZONE", "TZID:" + ref.escape_text(spec["tzid"])]
    out += list(extra)
    for ob in spec["obs"]:
        kind = "DAYLIGHT" if ob["dst"] else "STANDARD"
        out.append("BEGIN:" + kind)
        out.append("DTSTART:" + ref.fmt_dt(datetime(*ob["start"])))
        out.append("TZOFFSETFROM:" + ref.fmt_off(ob["from"]))
        out.append("TZOFFSETTO:" + ref.fmt_off(ob["to"]))
        if ob.get("name") is not None:
            out.append("TZNAME:" + ref.escape_text(ob["name"]))
        if ob.get("comment") is not None:
            out.append("COMMENT:" + ref.escape_text(ob["comment"]))
        r = rule_text(ob)
        if r:
            out.append("RRULE:" + r)
        for rd in ob.get("rdates", []):
            out.append("RDATE:" + ref.fmt_dt(datetime(*rd)))
        out.append("END:" + kind)
    out.append("END:VTIMEZONE")
    return out


def rule_text(ob):
    rule = ob.get("rule")
    if not rule:
        return None
    r = "FREQ=YEARLY;BYMONTH=%d" % rule["bymonth"]
    if "byday" in rule:
        r += ";BYDAY=%d%s" % (rule["byday"][0], ref.WD[rule["byday"][1]])
    else:
        r += ";BYMONTHDAY=%d" % rule["bymonthday"]
    if "until" in rule:
        r += ";UNTIL=" + ref.fmt_dt(datetime(*rule["until"]), utc=True)
    if "count" in rule:
        r += ";COUNT=%d" % rule["count"]
    return r


def zone_parse(spec):
    from ics.contentline import string_to_container
    from ics.timezone import Timezone

    return Timezone.from_container(string_to_container("\r\n".join(zone_text(spec))))


def zone_api(spec):
    """The same zone built through the API with dateutil rules."""
    import dateutil.rrule as R
    from ics.timezone import Timezone, TimezoneDaylightObservance, TimezoneStandardObservance

    obs = []
    for ob in spec["obs"]:
        start = datetime(*ob["start"])
        rs = R.rruleset()
        rule = ob.get("rule")
        if rule:
            kw = dict(bymonth=rule["bymonth"])
            if "byday" in rule:
                wd = [R.MO, R.TU, R.WE, R.TH, R.FR, R.SA, R.SU][rule["byday"][1]]
                kw["byweekday"] = wd(rule["byday"][0])
            else:
                kw["bymonthday"] = rule["bymonthday"]
            if "until" in rule:
                kw["until"] = datetime(*rule["until"]) + timedelta(seconds=ob["from"])
            if "count" in rule:
                kw["count"] = rule["count"]
            rs.rrule(R.rrule(R.YEARLY, dtstart=start, **kw))
        else:
            rs.rrule(R.rrule(R.YEARLY, dtstart=start, count=1))
        for rd in ob.get("rdates", []):
            rs.rdate(datetime(*rd))
        cls = TimezoneDaylightObservance if ob["dst"] else TimezoneStandardObservance
        obs.append(cls(timedelta(seconds=ob["from"]), timedelta(seconds=ob["to"]), rs, ob.get("name"), ob.get("comment")))
    return Timezone(spec["tzid"], obs)


def zones_of(case):
    return [zone_parse(z) for z in case.get("zones", [])]


# ------------------------------------------------------------------ components


def span_of(s, todo=False, zones=None):
    """{"b":dt,"e":[delta_s, tz]|None,"due":dt (no begin),"d":secs|None,"p":...}"""
    from ics.timespan import EventTimespan, TodoTimespan

    cls = TodoTimespan if todo else EventTimespan
    b = dt_of(s.get("b"), zones)
    e = None
    if s.get("e") is not None:
        delta, tz = s["e"]
        tz = tz_of(tz, zones)
        if b.tzinfo is None or tz is b.tzinfo:
            e = b + timedelta(seconds=delta)
        else:
            e = (b.astimezone(D.timezone.utc) + timedelta(seconds=delta)).astimezone(tz)
            if b > e:
                e += timedelta(hours=3)  # repeated hour
    elif s.get("due") is not None:
        e = dt_of(s["due"], zones)
    return cls(b, e, td_of(s.get("d")), s.get("p", "second"))


def uri_of(x):
    return urlparse(x)


def person_of(p, cls):
    kw = {}
    for k, v in p.get("kw", {}).items():
        if k in ("sent_by", "directory"):
            v = uri_of(v)
        elif k in ("member", "delegated_to", "delegated_from"):
            v = [uri_of(x) for x in v]
        kw[k] = v
    extra = {k: list(v) for k, v in p.get("x", {}).items()}
    return cls(uri_of(p["email"]), extra, **kw)


def attach_of(a):
    return uri_of(a["u"]) if "u" in a else bytes.fromhex(a["b"])


def alarm_of(a, zones=None):
    import ics

    t = a.get("trigger")
    if isinstance(t, list):
        t = dt_of(t, zones)
    elif t is not None:
        t = td_of(t)
    kw = dict(trigger=t, repeat=a.get("repeat"), duration=td_of(a.get("duration")))
    kind = a["kind"]
    if kind == "audio":
        r = ics.AudioAlarm(attach=attach_of(a["attach"]) if a.get("attach") else None, **kw)
    elif kind == "display":
        r = ics.DisplayAlarm(description=a.get("description"), **kw)
    elif kind == "email":
        r = ics.EmailAlarm(
            summary=a.get("summary"), description=a.get("description"),
            attendees=[person_of(p, ics.Attendee) for p in a.get("attendees", [])],
            attach=[attach_of(x) for x in a.get("attaches", [])], **kw)
    elif kind == "none":
        r = ics.NoneAlarm(**kw)
    else:
        r = ics.CustomAlarm(action=a["action"], **kw)
    for x in a.get("extra", []):
        r.extra.append(item_of(x))
    return r


def item_of(x):
    from ics.contentline import Container, ContentLine

    if x[0] == "C":
        return Container(x[1], [item_of(i) for i in x[2]])
    return ContentLine(x[1], {k: list(v) for k, v in x[2]}, x[3])


ENTRY_KEYS = ("summary", "uid", "description", "location", "status")


def entry_of(e, zones=None):
    import ics
    from ics.geo import Geo

    todo = e["kind"] == "todo"
    kw = {k: e[k] for k in ENTRY_KEYS if e.get(k) is not None}
    if e.get("url") is not None:
        kw["url"] = e["url"] if isinstance(e["url"], str) else uri_of(e["url"]["u"])
    for k in ("created", "last_modified", "dtstamp"):
        if e.get(k) is not None:
            kw[k] = dt_of(e[k], zones)
    kw["timespan"] = span_of(e["span"], todo, zones)
    kw["alarms"] = [alarm_of(a, zones) for a in e.get("alarms", [])]
    kw["attach"] = [attach_of(a) for a in e.get("attach", [])]
    if todo:
        for k in ("percent", "priority"):
            if e.get(k) is not None:
                kw[k] = e[k]
        if e.get("completed") is not None:
            kw["completed"] = dt_of(e["completed"], zones)
        r = ics.Todo(**kw)
    else:
        for k in ("classification", "transparent"):
            if e.get(k) is not None:
                kw[k] = e[k]
        if e.get("organizer"):
            kw["organizer"] = person_of(e["organizer"], ics.Organizer)
        if e.get("geo"):
            kw["geo"] = Geo(*e["geo"])
        kw["attendees"] = [person_of(p, ics.Attendee) for p in e.get("attendees", [])]
        kw["categories"] = list(e.get("categories", []))
        r = ics.Event(**kw)
    for x in e.get("extra", []):
        r.extra.append(item_of(x))
    return r


def cal_of(case):
    import ics

    zones = zones_of(case)
    kw = {k: case[k] for k in ("version", "prodid", "method") if case.get(k) is not None}
    c = ics.Calendar(
        events=[entry_of(e, zones) for e in case["entries"] if e["kind"] == "event"],
        todos=[entry_of(e, zones) for e in case["entries"] if e["kind"] == "todo"], **kw)
    for x in case.get("extra", []):
        c.extra.append(item_of(x))
    return c


# ------------------------------------------------------------------ snapshots


def snap(o, zones=True):
    """A deep, plain, comparable picture of an object."""
    from ics.contentline import Container, ContentLine, QuotedParamValue
    from ics.timespan import Timespan
    from ics.timezone import Timezone, is_utc
    import dateutil.rrule

    if o is None or isinstance(o, (bool, int, float, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, str):
        return ("str", str(o))
    if isinstance(o, QuotedParamValue):
        return ("str", str(o))
    if isinstance(o, ParseResult):
        return ("uri", o.geturl())
    if isinstance(o, datetime):
        if o.tzinfo is None:
            return ("dt", o.isoformat(), None)
        off = o.utcoffset()
        return ("dt", o.replace(tzinfo=None).isoformat(), off.total_seconds() if off is not None else None)
    if isinstance(o, D.date):
        return ("date", o.isoformat())
    if isinstance(o, timedelta):
        return ("td", o.total_seconds())
    if isinstance(o, Container):
        return ("C", o.name, [snap(i) for i in o])
    if isinstance(o, ContentLine):
        return ("L", o.name, [(k, [str(x) for x in v]) for k, v in o.params.items()], o.value)
    if isinstance(o, Timespan):
        return (type(o).__name__, snap(o.begin_time), snap(o.end_time), snap(o.duration), o.precision)
    if isinstance(o, dateutil.rrule.rruleset):
        return ("rrs", [str(r) for r in o._rrule], [str(r) for r in o._exrule], [snap(d) for d in o._rdate],
                [snap(d) for d in o._exdate])
    if isinstance(o, tuple):
        return (type(o).__name__,) + tuple(snap(i) for i in o)
    if isinstance(o, list):
        return [snap(i) for i in o]
    if isinstance(o, dict):
        return {str(k): snap(v) for k, v in o.items()}
    if attr.has(type(o)):
        return (type(o).__name__, {f.name: snap(getattr(o, f.name)) for f in attr.fields(type(o))
                                   if not f.name.startswith("_find")})
    return ("obj", repr(o))
