import re
from datetime import date, datetime, time, timedelta

from hypothesis import strategies as st

from harness import build, gen, ref
from harness.core import Sub, check, eq, raises

RULE = ("Dates, date-times, times of day, durations, UTC offsets and periods over the whole range of years 1..9999 and all zone kinds, "
        "written and read back with a per-type reference writer; every legal duration and offset spelling against integer arithmetic; "
        "valid spellings damaged by one or two character edits or out-of-range fields, which must be rejected unless the reference "
        "grammar (or its documented lenient variant) still reads them. Non-trivial: a value other than the type's zero, or a damaged text.")
ASSUMPTIONS = ["whole seconds", "lenient spellings outside RFC 5545 (short forms, dashes or slashes inside dates, single-space days, "
               "components of a duration out of order, 'P' or 'PT' alone) are neither required nor forbidden"]


def conv(name):
    from ics.valuetype.base import ValueConverter

    return ValueConverter.BY_NAME[name]


def context_of(zones):
    """what an importing calendar knows about zones"""
    from ics.valuetype.datetime import DatetimeConverterMixin

    return {DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ: {z.tzid: z for z in zones}}


# ------------------------------------------------------------------ round trips


def tz():
    return st.one_of(st.none(), st.none(), st.sampled_from(gen.UTCS), gen.tzspec(1, offsets=True))


@st.composite
def value(draw):
    k = draw(st.sampled_from(["DATE", "DATE-TIME", "DATE-TIME", "TIME", "DURATION", "DURATION", "UTC-OFFSET", "PERIOD", "PERIOD"]))
    c = {"type": k}
    if k == "DATE":
        c["v"] = draw(gen.ymdhms(1, 9999))[:3]
    elif k in ("DATE-TIME", "TIME"):
        c["v"], c["tz"] = draw(gen.ymdhms(1, 9999)), draw(tz())
    elif k == "DURATION":
        c["v"] = draw(dur_value())
    elif k == "UTC-OFFSET":
        c["v"] = draw(st.integers(-86399, 86399) | st.sampled_from([0, 1, -1, 59, -59, 60, 3600, -3600, 86399, -86399, -3599]))
    else:
        c["v"], c["tz"] = draw(gen.ymdhms(2, 9990)), draw(tz())
        c["d"] = draw(st.integers(0, 3 * 86400) | st.integers(0, 10 ** 8))
        c["dur"] = draw(st.booleans())
    if c.get("tz") == "c:0":
        c["zone"] = draw(gen.zone(idx=0))
    return c


def dur_value():
    return st.one_of(st.integers(-10 ** 6, 10 ** 6), st.integers(-10 ** 11, 10 ** 11), st.integers(-20, 20).map(lambda w: w * 7 * 86400),
                     st.tuples(st.integers(-60, 60), st.sampled_from([1, 60, 3600, 86400])).map(lambda t: t[0] * t[1]))


def check_round(c, note):
    from ics.timespan import Timespan

    k = c["type"]
    cv = conv(k)
    zones = [build.zone_parse(c["zone"])] if "zone" in c else []
    z = build.tz_of(c.get("tz"), zones)
    params, ctx = {}, {}
    utc = c.get("tz") is not None and c["tz"].startswith("u:")
    zoned = c.get("tz") is not None and not utc
    if k == "DATE":
        v = date(*c["v"])
        text = ref.fmt_date(v)
    elif k == "DATE-TIME":
        v = datetime(*c["v"], tzinfo=z)
        text = ref.fmt_dt(v.replace(tzinfo=None), utc=utc)
    elif k == "TIME":
        v = time(*c["v"][3:6], tzinfo=z)
        text = "%02d%02d%02d" % tuple(c["v"][3:6]) + "Z" * utc
    elif k == "DURATION":
        v = timedelta(seconds=c["v"])
        text = None
    elif k == "UTC-OFFSET":
        v = timedelta(seconds=c["v"])
        text = ref.fmt_off(c["v"])
    else:
        b = datetime(*c["v"], tzinfo=z)
        d = timedelta(seconds=c["d"])
        v = Timespan(b, None, d) if c["dur"] else Timespan(b, b + d)
        text = ref.fmt_dt(b.replace(tzinfo=None), utc=utc) + "/"
        if not c["dur"]:
            text += ref.fmt_dt((b + d).replace(tzinfo=None), utc=utc)
    out = cv.serialize(v, params, ctx)
    if k == "DURATION":
        dur_ok(out, c["v"])
    elif k == "PERIOD" and c["dur"]:
        check(out.startswith(text), "written %r for %r", out, v)
        dur_ok(out[len(text):], c["d"])
    else:
        eq(out, text, "written form of %r" % (v,))
    eq(sorted(params), ["TZID"] if zoned else [], "parameters of %r" % (v,))
    if zoned:
        eq(len(params["TZID"]), 1, "TZID")
        know = [t for t in ctx.get("DatetimeAvailableTimezones", {}).values()]
        eq([t.tzid for t in know], params["TZID"], "zones remembered for the calendar")
    else:
        know = []
    pin = {p: list(x) for p, x in params.items()}
    got = cv.parse(out, pin, context_of(know))
    eq(pin, {}, "parameters left over")
    same(got, v, out)
    if zones:
        eq([t for t in know], zones, "zone used")
    # foreign parameters are left alone
    pin = dict({p: list(x) for p, x in params.items()}, **{"X-A": ["1", "2"]})
    same(cv.parse(out, pin, context_of(know)), v, out)
    eq(pin, {"X-A": ["1", "2"]}, "foreign parameters")
    note.nontrivial()
    note(k, "zoned" if zoned else "utc" if utc else "plain")


def parts(v):
    from ics.timespan import Timespan

    if isinstance(v, Timespan):
        return [parts(v.begin_time), parts(v.end_time), v.duration, v.precision]
    if isinstance(v, datetime):
        off = None if v.tzinfo is None else v.tzinfo
        return [v.replace(tzinfo=None), off is None]
    if isinstance(v, time):
        return [v.replace(tzinfo=None), v.tzinfo is None]
    return v


def same(got, v, out):
    from ics.timezone import is_utc

    eq(type(got), type(v), "type read from %r" % out)
    eq(parts(got), parts(v), "value read from %r" % out)
    a, b = (x.begin_time if hasattr(x, "begin_time") else x for x in (got, v))
    if getattr(b, "tzinfo", None) is not None:
        eq(is_utc(a.tzinfo), is_utc(b.tzinfo), "UTC read from %r" % out)
        if type(b.tzinfo).__name__ in ("Timezone", "timezone"):
            d = b if isinstance(b, datetime) else datetime(2020, 1, 1, 12, tzinfo=b.tzinfo)
            eq(d.replace(tzinfo=a.tzinfo).utcoffset(), d.utcoffset(), "offset read from %r" % out)


DUR = re.compile(r"([+-]?)P(?:(\d+)W|(?=\d|T\d)(?:(\d+)D)?(?:T(?=\d)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?)$", re.A | re.I)


def dur_read(s):
    """RFC 5545 duration (hours before minutes before seconds; weeks alone) -> seconds or None"""
    m = DUR.match(s)
    if not m:
        return None
    w, d, h, mi, se = (int(x or 0) for x in m.groups()[1:])
    v = ((w * 7 + d) * 24 + h) * 3600 + mi * 60 + se
    return -v if m.group(1) == "-" else v


def dur_ok(text, secs):
    check(DUR.match(text), "written duration %r is not RFC 5545", text)
    eq(dur_read(text), secs, "value of the written duration %r" % text)


# ------------------------------------------------------------------ legal spellings


@st.composite
def duration_text(draw):
    n = lambda: st.one_of(st.integers(0, 99), st.integers(0, 10 ** 6)).map(str) | st.integers(0, 99).map(lambda v: "%03d" % v)
    sign = draw(st.sampled_from(["", "", "+", "-"]))
    if draw(st.integers(0, 3)) == 0:
        return sign + "P" + draw(n()) + "W"
    s = "P"
    day = draw(st.booleans())
    if day:
        s += draw(n()) + "D"
    units = draw(st.sampled_from(["", "H", "HM", "HMS", "M", "MS", "S", "HS"] if day else ["H", "HM", "HMS", "M", "MS", "S", "HS"]))
    if units:
        s += "T" + "".join(draw(n()) + u for u in units)
    return sign + s


@st.composite
def spelled(draw):
    case = draw(spelling())
    low = draw(st.sampled_from([0, 0, 0, 1, 2]))
    if low:
        case["s"] = case["s"].lower() if low == 1 else "".join(c.lower() if i % 2 else c for i, c in enumerate(case["s"]))
    return case


@st.composite
def spelling(draw):
    k = draw(st.sampled_from(["DURATION", "DURATION", "DURATION", "UTC-OFFSET", "PERIOD", "DATE-TIME", "TIME"]))
    leapy = draw(st.integers(0, 5)) == 5
    if k == "TIME":
        return {"type": k, "s": "%02d%02d%02d" % (draw(st.integers(0, 23)), draw(st.integers(0, 59)), 60 if leapy else draw(st.integers(0, 59)))
                + draw(st.sampled_from(["", "Z"]))}
    if k == "DURATION":
        return {"type": k, "s": draw(duration_text())}
    if k == "UTC-OFFSET":
        o = draw(st.integers(0, 86399))
        s = "%02d%02d" % (o // 3600, o // 60 % 60) + draw(st.sampled_from(["", "%02d" % (o % 60), "00"]))
        return {"type": k, "s": draw(st.sampled_from("+-")) + s}
    d = datetime(*draw(gen.ymdhms(2, 9000)))
    suf = draw(st.sampled_from(["", "Z"]))
    if k == "DATE-TIME":
        return {"type": k, "s": (ref.fmt_dt(d)[:-2] + "60" if leapy else ref.fmt_dt(d)) + suf}
    if draw(st.booleans()):
        return {"type": k, "s": ref.fmt_dt(d) + suf + "/" + draw(duration_text().filter(lambda t: t[0] != "-"))}
    return {"type": k, "s": ref.fmt_dt(d) + suf + "/" + ref.fmt_dt(d + timedelta(seconds=draw(st.integers(0, 10 ** 9)))) + suf}


def leap(fields):
    """without support for leap seconds they are read as the second before (RFC 5545 3.3.12)"""
    *rest, sec = map(int, fields)
    return rest + [59 if sec == 60 else sec]


def read_dt(s):
    m = re.match(r"(\d{4})(\d\d)(\d\d)[Tt](\d\d)(\d\d)(\d\d)([Zz]?)$", s, re.A)
    if not m or s.endswith("\n"):
        return None
    try:
        return datetime(*leap(m.groups()[:6])), bool(m.group(7))
    except ValueError:
        return None


def read(k, s):
    """strict reading -> comparable value or None"""
    if s.endswith("\n"):
        return None
    if k == "DURATION":
        return dur_read(s)
    if k == "UTC-OFFSET":
        m = re.match(r"([+-])(\d\d)(\d\d)(\d\d)?$", s, re.A)
        if not m:
            return None
        h, mi, se = (int(x or 0) for x in m.groups()[1:])
        if h > 23 or mi > 59 or se > 59:
            return None
        v = h * 3600 + mi * 60 + se
        return -v if m.group(1) == "-" else v
    if k == "DATE":
        m = re.match(r"(\d{4})(\d\d)(\d\d)$", s, re.A)
        try:
            return m and date(*map(int, m.groups()))
        except ValueError:
            return None
    if k == "TIME":
        m = re.match(r"(\d\d)(\d\d)(\d\d)([Zz]?)$", s, re.A)
        try:
            return m and (time(*leap(m.groups()[:3])), bool(m.group(4)))
        except ValueError:
            return None
    if k == "DATE-TIME":
        return read_dt(s)
    a, sep, b = s.partition("/")
    x = read_dt(a)
    if x is None or not sep:
        return None
    if b[:1] in "+Pp" and b:
        y = dur_read(b)
        return None if y is None or y > 10 ** 13 else (x, y)
    y = read_dt(b)
    if y is None or x[1] != y[1] or y[0] < x[0]:
        return None
    return x, y


def plain(v):
    """real value -> what read() returns"""
    from ics.timespan import Timespan

    if isinstance(v, timedelta):
        return int(v.total_seconds())
    if isinstance(v, datetime):
        return v.replace(tzinfo=None), v.tzinfo is not None
    if isinstance(v, time):
        return v.replace(tzinfo=None), v.tzinfo is not None
    if isinstance(v, Timespan):
        return plain(v.begin_time), plain(v.duration if v.duration is not None else v.end_time)
    return v


def check_spelled(c, note):
    want = read(c["type"], c["s"])
    check(want is not None, "harness: %r", c)
    params = {}
    try:
        got = conv(c["type"]).parse(c["s"], params, {})
    except OverflowError:
        check(c["type"] == "PERIOD" or abs(want) > 10 ** 13, "overflow for %r", c["s"])
        return
    eq(plain(got), want, "%s %r" % (c["type"], c["s"]))
    note.nontrivial()
    note(c["type"])


# ------------------------------------------------------------------ damaged spellings

JUNK = list("0123456789PTDHMSWZ+-/:;. ,xX\n") + ["", "99", "T", "Z", "0", "--", "é", "1E", "PT", "٣"]


@st.composite
def damaged(draw):
    k = draw(st.sampled_from(["DATE", "DATE-TIME", "TIME", "DURATION", "DURATION", "UTC-OFFSET", "PERIOD", "FIELDS", "FIELDS"]))
    if k == "FIELDS":  # fields out of their range
        k = draw(st.sampled_from(["DATE", "DATE-TIME", "TIME", "UTC-OFFSET"]))
        d = datetime(*draw(gen.ymdhms(1, 9999)))
        fs = [[4, d.year], [2, d.month], [2, d.day], [2, d.hour], [2, d.minute], [2, d.second]]
        for j in draw(st.lists(st.integers(0 if k == "DATE" else 1 if k == "DATE-TIME" else 3, 2 if k == "DATE" else 5), min_size=1, max_size=2)):
            n = fs[j][0]
            top = [9999, 12, 31, 23, 59, 59][j]
            fs[j][1] = draw(st.sampled_from([0, top, top + 1, top + 2, None]))
            if fs[j][1] is None or fs[j][1] >= 10 ** n:
                fs[j][1] = draw(st.integers(0, 10 ** n - 1))
        fs = ["%0*d" % tuple(x) for x in fs]
        d, t = "".join(fs[:3]), "".join(fs[3:])
        f = lambda n, top: draw(st.sampled_from(["0", "1"]))
        return {"type": k, "s": {"DATE": d, "DATE-TIME": d + "T" + t + f(1, 1).replace("0", "").replace("1", "Z"), "TIME": t,
                                 "UTC-OFFSET": draw(st.sampled_from("+-")) + t[:draw(st.sampled_from([4, 6]))]}[k]}
    if k in ("DURATION", "UTC-OFFSET", "PERIOD", "DATE-TIME"):
        s = draw(spelled().filter(lambda c: c["type"] == k))["s"]
    else:
        d = datetime(*draw(gen.ymdhms(1, 9999)))
        s = ref.fmt_date(d) if k == "DATE" else "%02d%02d%02d" % (d.hour, d.minute, d.second) + draw(st.sampled_from(["", "Z"]))
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(s)))
        op = draw(st.sampled_from(["ins", "del", "rep", "swap"]))
        ch = draw(st.sampled_from(JUNK))
        if op == "ins":
            s = s[:i] + ch + s[i:]
        elif op == "del":
            s = s[:i] + s[i + 1:]
        elif op == "rep":
            s = s[:i] + ch + s[i + 1:]
        else:
            s = s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
    return {"type": k, "s": s}


def lenient_dt(k, s):
    t = re.sub("[-/Zz]", "", s)
    forms = [r"\d{6}", r"\d{6}\d\d|\d{6} \d"] + ([r"(\d{8}|\d{6} \d)[Tt]\d\d", r"(\d{8}|\d{6} \d)[Tt]\d{4}", r"(\d{8}|\d{6} \d)[Tt]\d{6}"]
                                               if k != "DATE" else [])
    if k == "TIME":
        forms = [r"\d\d", r"\d{4}", r"\d{6}"]
    return any(re.fullmatch(f, t) for f in forms)


def lenient(k, s):
    """spellings about which we do not decide"""
    if k == "DURATION":
        # any order of units, weeks with others, T with nothing after it
        s = s.upper()
        m = re.fullmatch(r"[+-]?P((?:\d+[WD])*)(?:T((?:\d+[HMS])*))?", s)
        if not m:
            return False
        for part in (m.group(1), m.group(2) or ""):
            us = re.findall(r"[A-Z]", part)
            if len(us) != len(set(us)):
                return False
        return True
    if k == "UTC-OFFSET":
        return bool(re.fullmatch(r"(\d\d)(\d\d)(\d\d)?", s)) and read(k, "+" + s) is not None
    if k in ("DATE", "DATE-TIME", "TIME"):
        return lenient_dt(k, s)
    a, sep, b = s.partition("/")
    if not sep or not lenient_dt("DATE-TIME", a):
        return False
    return lenient("DURATION", b) and b[:1] != "-" or lenient_dt("DATE-TIME", b)


def check_damaged(c, note):
    k, s = c["type"], c["s"]
    want = read(k, s)
    if want is not None:
        return check_spelled(c, note) if want is not None and k not in ("DATE", "TIME") else eq(
            plain(conv(k).parse(s, {}, {})), want, "%s %r" % (k, s))
    if lenient(k, s) and (k != "UTC-OFFSET"):
        # out-of-range fields and reversed periods are malformed in any spelling
        strict_shape = {"DATE": r"\d{8}", "DATE-TIME": r"\d{8}[Tt]\d{6}[Zz]?", "TIME": r"\d{6}[Zz]?"}.get(k)
        if not strict_shape or not re.fullmatch(strict_shape, s, re.A):
            note("lenient")
            return
    elif lenient(k, s):
        note("lenient")
        return
    err = raises(conv(k).parse, s, {}, {})
    check(err, "%s %r accepted as %r", k, s, None if err else conv(k).parse(s, {}, {}))
    note.nontrivial()
    note("rejected:" + k)


# ------------------------------------------------------------------ mismatched periods


def mixed():
    return st.fixed_dictionaries(dict(b=gen.ymdhms(1971, 2037), tz=st.tuples(gen.any_tz(), gen.any_tz()).map(list), d=st.integers(3 * 86400, 10 ** 7),
                                      form=st.sampled_from(["text", "object"])))


def check_mixed(c, note):
    from ics.timespan import Timespan

    t1, t2 = c["tz"]
    cl = lambda t: "float" if t is None else "utc" if t.startswith("u:") else "zone"
    b = datetime(*c["b"], tzinfo=build.tz_of(t1))
    e = datetime(*c["b"], tzinfo=build.tz_of(t2)) + timedelta(seconds=c["d"])
    if cl(t1) == "zone":
        # a zone cannot be given to a time that says it is UTC
        params = {}
        conv("DATE-TIME").serialize(b, params, {})
        z = ref.fmt_dt(b, True)
        for k, v in (("DATE-TIME", z), ("PERIOD", z + "/" + z), ("PERIOD", z + "/P1D")):
            err = raises(conv(k).parse, v, dict(params), {})
            check(err, "%s %r with %r accepted", k, v, params)
        note("utc-with-zone")
        if cl(t2) == "zone":
            p2 = {}
            conv("DATE-TIME").serialize(e, p2, {})
            if params != p2:
                check(raises(conv("PERIOD").serialize, Timespan(b, e), {}, {}), "period of %r and %r written", b, e)
                note("two-zones")
                note.nontrivial()
    if cl(t1) == cl(t2):
        return
    note.nontrivial()
    note(cl(t1) + "-" + cl(t2))
    if "float" in (cl(t1), cl(t2)):
        check(raises(Timespan, b, e), "period of %r and %r", b, e)
        s1, s2 = ref.fmt_dt(b, cl(t1) == "utc"), ref.fmt_dt(e, cl(t2) == "utc")
        if "zone" not in (cl(t1), cl(t2)):
            check(raises(conv("PERIOD").parse, s1 + "/" + s2, {}, {}), "period %s/%s accepted", s1, s2)
    else:
        # one period property has one TZID: UTC with a zone cannot be written
        check(raises(conv("PERIOD").serialize, Timespan(b, e), {}, {}), "period of %r and %r written", b, e)


SUBS = [
    Sub("round", value, check_round, quick=4000, shards=3),
    Sub("spelled", spelled, check_spelled, quick=4000, shards=2),
    Sub("damaged", damaged, check_damaged, quick=6000, shards=3),
    Sub("mixed", mixed, check_mixed, quick=500),
]
