from datetime import date, datetime, timedelta
from zoneinfo import ZoneInfo

from hypothesis import strategies as st

from harness import build, gen
from harness.core import Sub, check, eq, raises, set_tz

RULE = ("Histories of attribute assignments with values of every kind (None, date-times with every zone kind, dates, tuples, dicts, durations, "
        "strings, numbers, lists, foreign objects) on several objects of library classes and of user-defined subclasses created in the case "
        "(plain, with own converted/validated attributes, with overridden attributes, two levels deep), interleaved in random order. Each "
        "assignment is compared with passing the same value to the constructor and, where documented, with a reference conversion; after a "
        "rejected assignment and for every other object nothing may have changed. Non-trivial: the case has a conversion or a rejection.")
ASSUMPTIONS = ["naive stamps mean local time (the process TZ is set per case)"]

ENTRY = ["summary", "uid", "description", "location", "url", "status", "created", "last_modified", "dtstamp", "alarms", "attach", "timespan"]
ATTRS = {
    "Event": ENTRY + ["classification", "transparent", "organizer", "geo", "attendees", "categories"],
    "Todo": ENTRY + ["percent", "priority", "completed"],
    "Calendar": ["version", "prodid", "scale", "method", "events", "todos"],
    "AudioAlarm": ["trigger", "repeat", "duration", "attach"], "DisplayAlarm": ["trigger", "repeat", "duration", "description"],
    "EmailAlarm": ["trigger", "repeat", "duration", "summary", "description", "attendees", "attach"], "NoneAlarm": ["trigger", "repeat", "duration"],
    "CustomAlarm": ["trigger", "repeat", "duration"], "ContentLine": ["name", "params", "value"],
}
LISTS = {"alarms", "attach", "attendees", "categories", "events", "todos"}
SUBMODES = ["plain", "attrs", "override", "deep"]


# ------------------------------------------------------------------ values


def values():
    y = gen.ymdhms(1971, 2037)
    tz = gen.any_tz()
    date_ = y.map(lambda v: ["date", v[:3]])
    return st.one_of(
        st.just(["none"]), st.tuples(y, tz).map(lambda t: ["dt", list(t)]), date_, y.map(lambda v: ["tuple", v]), y.map(lambda v: ["tuple", v[:3]]),
        y.map(lambda v: ["dict", dict(zip(["year", "month", "day", "hour", "minute", "second"], v))]), st.integers(-10 ** 6, 10 ** 6).map(lambda s: ["td", s]),
        st.sampled_from([["tuple", [1, 20]], ["tuple", [0]], ["tuple", [91.5, -3.25]], ["tuple", []], ["tuple", [2020, 13, 1]], ["tuple", ["a", "b"]],
                         ["dict", {"days": 2}], ["dict", {"hours": 5, "minutes": -1}], ["dict", {"latitude": 1.5, "longitude": 2.5}], ["dict", {}],
                         ["dict", {"x": 1}], ["dict", {"latitude": 1}]]),
        st.sampled_from(["tentative", "CONFIRMED", "Cancelled", "needs-action", "COMPLETED", "In-Process", "x", "", "2.0", "a,b;c\n", "straße"]).map(lambda s: ["str", s]),
        gen.text(3).map(lambda s: ["str", s]), st.integers(-3, 103).map(lambda n: ["int", n]), st.sampled_from([0, 9, 10, 100, 101, -1]).map(lambda n: ["int", n]),
        st.booleans().map(lambda b: ["bool", b]), st.sampled_from([["float", 1.5], ["float", 5.0], ["bytes", "00ff"], ["uri", "http://e.org/"]]),
        st.lists(st.sampled_from([["str", "a"], ["str", "b,c"], ["obj", "attendee"], ["obj", "alarm"], ["int", 3]]), max_size=3).map(lambda l: ["list", l]),
        st.lists(st.sampled_from([["str", "a"], ["obj", "event"], ["int", 3]]), max_size=3).map(lambda l: ["tuplist", l]),
        st.sampled_from(["attendee", "organizer", "alarm", "event", "todo", "espan", "tspan", "span", "container", "geo", "object"]).map(lambda o: ["obj", o]))


def real(v):
    import ics
    from ics.contentline import Container
    from ics.geo import Geo
    from ics.timespan import EventTimespan, Timespan, TodoTimespan

    k, x = v[0], v[1] if len(v) > 1 else None
    if k == "dt":
        return build.dt_of(x)
    if k == "date":
        return date(*x)
    if k == "tuple":
        return tuple(x)
    if k == "td":
        return timedelta(seconds=x)
    if k == "bytes":
        return bytes.fromhex(x)
    if k == "uri":
        return build.uri_of(x)
    if k == "list":
        return [real(i) for i in x]
    if k == "tuplist":
        return tuple(real(i) for i in x)
    if k == "obj":
        d = datetime(2020, 1, 1)
        fixed = dict(uid="u", dtstamp=datetime(2020, 1, 1, tzinfo=build.tz_of("u:dt")))
        return {"attendee": lambda: ics.Attendee("mailto:a@b"), "organizer": lambda: ics.Organizer("mailto:o@b"), "alarm": lambda: ics.DisplayAlarm(),
                "event": lambda: ics.Event(**fixed), "todo": lambda: ics.Todo(**fixed), "espan": lambda: EventTimespan(d, None, timedelta(1)),
                "tspan": lambda: TodoTimespan(d), "span": lambda: Timespan(d), "container": lambda: Container("X"), "geo": lambda: Geo(1.0, 2.0),
                "object": lambda: Thing}[x]()
    if k == "dict":
        return dict(x)
    return x


Thing = object()

# ------------------------------------------------------------------ classes


def bases(name):
    import ics
    from ics.contentline import ContentLine

    return ContentLine if name == "ContentLine" else getattr(ics, name)


def make_class(spec):
    """["Event"] or ["Event", mode]"""
    import attr

    base = bases(spec[0])
    if len(spec) == 1:
        return base
    mode = spec[1]
    entry = spec[0] in ("Event", "Todo")
    if mode == "plain":
        return type("Plain" + spec[0], (base,), {})

    def check_special(inst, field, value):
        if value < 0:
            raise ValueError("special must not be negative")

    def wrap(cls):
        return attr.s(eq=True, order=False)(cls)

    if mode == "attrs":
        body = {"special": attr.ib(default=0, converter=int, validator=check_special)}
    else:
        body = {"special": attr.ib(default=0, converter=lambda v: int(v) * 2, validator=check_special)}
        name = {"Event": "location", "Todo": "location", "Calendar": "method"}.get(spec[0], None)
        if name:
            body[name] = attr.ib(default=None, converter=lambda v: None if v is None else "<%s>" % str(v).strip())
    cls = wrap(type(mode.title() + spec[0], (base,), body))
    if mode == "deep":
        cls = wrap(type("Deeper" + spec[0], (cls,), {"special": attr.ib(default=1, converter=lambda v: int(v) + 1, validator=check_special),
                                                     "other": attr.ib(default=None, validator=attr.validators.optional(attr.validators.instance_of(str)))}))
    return cls


def attrs_of(spec):
    a = list(ATTRS[spec[0]])
    if len(spec) > 1 and spec[1] != "plain":
        a += ["special"] * 3 + (["other"] if spec[1] == "deep" else [])
        a += [n for n in ("location", "method") if n in a] * 2
    return a


def make(cls, spec, **kw):
    from ics.timespan import EventTimespan, TodoTimespan

    if spec[0] in ("Event", "Todo"):
        kw.setdefault("uid", "u")
        kw.setdefault("dtstamp", datetime(2020, 1, 1, tzinfo=build.tz_of("u:dt")))
        kw.setdefault("timespan", EventTimespan() if spec[0] == "Event" else TodoTimespan())
    elif spec[0] == "Calendar":
        if len(spec) > 1 and spec[1] != "plain":
            kw.setdefault("version", "2.0")
            kw.setdefault("prodid", "x")
    elif spec[0] == "ContentLine":
        kw.setdefault("name", "X-A")
    return cls(**kw)


def snap(o):
    import attr

    out = {}
    for f in attr.fields(type(o)):
        out[f.name] = build.snap(getattr(o, f.name))
        v = getattr(o, f.name)
        if isinstance(v, (list, dict)):
            out[f.name] = (out[f.name], id(v))
    return out


# ------------------------------------------------------------------ reference conversion

RAISE = ("raise",)


def to_dt(v):
    if v is None or isinstance(v, datetime):
        return v
    if isinstance(v, date):
        return datetime(v.year, v.month, v.day)
    try:
        if isinstance(v, tuple):
            return datetime(*v)
        if isinstance(v, dict):
            return datetime(**v)
    except (TypeError, ValueError):
        pass
    return RAISE


def instant(v, tz):
    if v.tzinfo is None:
        v = v.replace(tzinfo=ZoneInfo(tz))
    return v.utcoffset(), v.replace(tzinfo=None) - v.utcoffset()


def expected(spec, name, v, tz):
    """-> None (undecided), RAISE, or a predicate on the stored value"""
    custom = len(spec) > 1 and spec[1] in ("override", "deep")
    is_ = lambda want: (lambda got: type(got) is type(want) and got == want)
    if name in ("location", "method") and custom:
        return is_(None if v is None else "<%s>" % str(v).strip())
    if name == "special":
        try:
            n = {"attrs": lambda: int(v), "override": lambda: int(v) * 2, "deep": lambda: int(v) + 1}[spec[1]]()
        except (TypeError, ValueError):
            return RAISE
        return RAISE if n < 0 else is_(n)
    if name == "other":
        return is_(v) if v is None or isinstance(v, str) else RAISE
    if name in ("created", "last_modified", "dtstamp"):
        d = to_dt(v)
        if d is RAISE or d is None and name == "dtstamp":
            return RAISE
        if d is None:
            return is_(None)
        want = instant(d, tz)[1]
        return lambda got: got.utcoffset() == timedelta(0) and got.tzinfo is not None and got.replace(tzinfo=None) == want
    if name == "completed":
        d = to_dt(v)
        return RAISE if d is RAISE else lambda got: type(got) is type(d) and got == d and getattr(got, "tzinfo", 0) is getattr(d, "tzinfo", 0)
    if name == "status":
        if v is None:
            return is_(None)
        ok = ["TENTATIVE", "CONFIRMED", "CANCELLED"] + ["NEEDS-ACTION", "COMPLETED", "IN-PROCESS"] * (spec[0] == "Todo")
        return is_(v.upper()) if isinstance(v, str) and v.upper() in ok else RAISE
    if name in ("percent", "priority"):
        if v is None or type(v) is int:
            return is_(v) if v is None or 0 <= v <= (100 if name == "percent" else 9) else RAISE
        return None
    if name == "geo":
        if v is None:
            return is_(None)
        if isinstance(v, tuple):
            return (lambda got: tuple(got) == tuple(v) and type(got).__name__ == "Geo") if len(v) == 2 else RAISE
        if isinstance(v, dict):
            return (lambda got: (got.latitude, got.longitude) == (v["latitude"], v["longitude"]) and type(got).__name__ == "Geo") if set(v) == {
                "latitude", "longitude"} else RAISE
        return None
    if name == "duration":
        if v is None or isinstance(v, timedelta):
            return is_(v)
        try:
            if isinstance(v, tuple):
                return is_(timedelta(*v))
            if isinstance(v, dict):
                return is_(timedelta(**v))
        except (TypeError, ValueError):
            pass
        return RAISE
    if name == "trigger":
        return (lambda got: got is v) if v is None or isinstance(v, (datetime, timedelta)) else RAISE
    if name == "classification":
        return is_(v) if v is None or isinstance(v, str) else RAISE
    if name == "organizer":
        return (lambda got: got is v) if v is None or type(v).__name__ == "Organizer" else RAISE
    if name in ("version", "prodid") and spec[0] == "Calendar":
        return is_(v) if isinstance(v, str) else RAISE
    if name == "timespan":
        return (lambda got: got is v) if type(v).__name__ == spec[0] + "Timespan" else RAISE
    if name == "name":
        return is_(v.upper()) if isinstance(v, str) else RAISE
    if name in LISTS and spec[0] != "EmailAlarm" and not spec[0].endswith("Alarm"):
        try:
            want = list(v)
        except TypeError:
            return RAISE
        return lambda got: type(got) is list and got is not v and len(got) == len(want) and all(a is b or a == b for a, b in zip(got, want))
    if name in ("summary", "description", "location", "value", "uid", "url", "method", "scale", "repeat", "transparent"):
        return lambda got: got is v or got == v
    return None


# ------------------------------------------------------------------ check


@st.composite
def case(draw):
    specs = draw(st.lists(st.tuples(st.sampled_from(sorted(ATTRS)), st.sampled_from(["-"] + SUBMODES)).map(
        lambda t: [t[0]] if t[1] == "-" or t[0] == "ContentLine" else [t[0], t[1]]), min_size=1, max_size=4))
    if draw(st.booleans()):
        # a class together with its subclass
        n = draw(st.sampled_from(["Event", "Todo", "Calendar", "AudioAlarm"]))
        specs += draw(st.permutations([[n], [n, draw(st.sampled_from(SUBMODES[1:]))]]))
    steps = []
    for _ in range(draw(st.integers(1, 7))):
        i = draw(st.integers(0, len(specs) - 1))
        a = draw(st.sampled_from(attrs_of(specs[i])))
        steps.append([i, a, draw(fitting(specs[i], a))])
    return {"specs": specs, "steps": steps, "tz": draw(st.sampled_from(["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata"]))}


def fitting(spec, a):
    """any value, with a preference for those the attribute may like"""
    v = values()
    likes = {"status": ["str", "none"], "geo": ["tuple", "dict", "none", "obj"], "percent": ["int", "none"], "priority": ["int", "none"], "special": ["int", "str", "bool", "float"],
             "duration": ["td", "tuple", "dict"], "trigger": ["td", "dt"], "organizer": ["obj"], "timespan": ["obj"], "name": ["str"], "other": ["str", "int"]}
    for n in ("created", "last_modified", "dtstamp", "completed"):
        likes[n] = ["dt", "date", "tuple", "dict", "none"]
    for n in LISTS:
        likes[n] = ["list", "tuplist", "tuple", "str"]
    if a in likes:
        return st.one_of(v, v.filter(lambda x: x[0] in likes[a]))
    return v


def check_case(c, note):
    set_tz(c["tz"])
    classes = [make_class(s) for s in c["specs"]]
    objs = [make(k, s) for k, s in zip(classes, c["specs"])]
    for i, name, v in c["steps"]:
        o, spec, cls = objs[i], c["specs"][i], classes[i]
        if v == ["none"] and name in ("events", "todos"):
            continue  # for the constructor this means "not given"
        v1, v2 = real(v), real(v)
        before = [snap(x) for x in objs]
        what = "%s.%s = %r" % (cls.__name__, name, v1)
        other = None
        e1 = raises(setattr, o, name, v1)
        try:
            other = make(cls, spec, **{name: v2})
            e2 = None
        except Exception as e:
            e2 = e
        after = [snap(x) for x in objs]
        for j in range(len(objs)):
            if j != i:
                eq(after[j], before[j], "another object after " + what)
        want = expected(spec, name, v1, c["tz"])
        check(bool(e1) == bool(e2), "%s: assignment %r, constructor %r", what, e1 or "accepts", e2 or "accepts")
        if e1:
            eq(after[i], before[i], "object after the rejected " + what)
            check(want is None or want is RAISE, "%s rejected with %r", what, e1)
            note.nontrivial()
            note("rejected")
            continue
        check(want is not RAISE, "%s accepted as %r", what, getattr(o, name))
        a, b = after[i], before[i]
        eq({k: x for k, x in a.items() if k != name}, {k: x for k, x in b.items() if k != name}, "other attributes after " + what)
        g1, g2 = getattr(o, name), getattr(other, name)
        eq(build.snap(g1), build.snap(g2), what + " compared with the constructor")
        eq(type(g1), type(g2), what + " type compared with the constructor")
        eq(g1 is v1, g2 is v2, what + " shares the value passed")
        if isinstance(g1, datetime):
            eq(type(g1.tzinfo), type(g2.tzinfo), what)
        if want is not None:
            check(want(g1), "%s stored %r", what, g1)
        if g1 is not v1:
            note.nontrivial()
            note("converted")
        note(spec[0] + (":" + spec[1] if len(spec) > 1 else ""), name)


# ------------------------------------------------------------------ begin, end and duration


@st.composite
def times(draw):
    return {"kind": draw(st.sampled_from(["Event", "Todo"])), "b": draw(st.one_of(values(), values().filter(lambda v: v[0] in ("dt", "date", "tuple", "dict")))),
            "x": draw(st.one_of(values(), values().filter(lambda v: v[0] in ("dt", "date", "tuple", "dict", "td")))),
            "which": draw(st.sampled_from(["end", "duration"])), "sub": draw(st.booleans())}


def check_times(c, note):
    import ics

    cls = getattr(ics, c["kind"])
    if c["sub"]:
        cls = type("My" + c["kind"], (cls,), {})
    end = {"Event": "end", "Todo": "due"}[c["kind"]]

    def both(what, ctor, assign, base):
        o = base()
        old = snap(o)
        e1 = raises(assign, o)
        try:
            p = ctor()
            e2 = None
        except Exception as e:
            e2 = e
        check(bool(e1) == bool(e2), "%s: assignment %r, constructor %r", what, e1 or "accepts", e2 or "accepts")
        if e1:
            note("rejected")
            eq({k: v for k, v in snap(o).items()}, old, "object after rejected " + what)
            return None
        eq(build.snap(o.timespan), build.snap(p.timespan), what)
        return o

    kw = dict(uid="u", dtstamp=datetime(2020, 1, 1, tzinfo=build.tz_of("u:dt")))
    b = real(c["b"])
    x = real(c["x"])
    o = both("begin = %r" % (b,), lambda: cls(begin=b, **kw), lambda o: setattr(o, "begin", b), lambda: cls(**kw))
    want = to_dt(b)
    check((want is RAISE) == (o is None), "begin %r: %r", b, o)
    note.nontrivial()
    if o is None:
        return
    eq(o.begin, want, "begin")
    if o.begin is None and c["kind"] == "Event" and x is not None:
        pass
    name = end if c["which"] == "end" else "duration"
    both("begin %r, %s = %r" % (b, name, x), lambda: cls(begin=b, **dict(kw, **{name: x})), lambda o: setattr(o, name, x), lambda: cls(begin=b, **kw))
    note(name)


# ------------------------------------------------------------------ other names of attributes, and what carries the unknown items


@st.composite
def other_names(draw):
    t = gen.text(3, min_size=1)
    return {"creator": draw(gen.opt(t, 1)), "prodid": draw(gen.opt(t, 1)), "new": draw(t), "via": draw(st.sampled_from(["creator", "prodid"])),
            "kind": draw(st.sampled_from(["Event", "Todo", "Calendar"])), "bad": draw(st.sampled_from([["str", "x"], ["none"], ["list", []], ["int", 5], ["obj", "event"]]))}


def check_names(c, note):
    import ics
    from ics.contentline import Container

    kw = {k: c[k] for k in ("creator", "prodid") if c[k] is not None}
    cal = ics.Calendar(**kw)
    want = c["prodid"] if c["prodid"] is not None else c["creator"] if c["creator"] is not None else ics.Calendar.DEFAULT_PRODID
    eq((cal.creator, cal.prodid), (want, want), "Calendar(%r)" % kw)
    eq(ics.Calendar(cal.serialize()).creator, want, "creator read again")
    setattr(cal, c["via"], c["new"])
    eq((cal.creator, cal.prodid), (c["new"], c["new"]), "assigned " + c["via"])
    eq(ics.Calendar(cal.serialize()).prodid, c["new"], "prodid read again")
    note.nontrivial(bool(kw))
    o = getattr(ics, c["kind"])()
    old = o.extra, o.extra_params
    check(raises(setattr, o, "extra", real(c["bad"])), "extra = %r accepted", c["bad"])
    check(raises(setattr, o, "extra_params", real(c["bad"])), "extra_params = %r accepted", c["bad"])
    check(o.extra is old[0] and o.extra_params is old[1], "changed by a rejected value")
    good, ps = Container(o.NAME), {}
    o.extra, o.extra_params = good, ps
    check(o.extra is good and o.extra_params is ps, "unknown items assigned")


SUBS = [Sub("names", other_names, check_names, quick=200), Sub("assign", case, check_case, quick=2400, shards=6), Sub("times", times, check_times, quick=2000, shards=2)]
