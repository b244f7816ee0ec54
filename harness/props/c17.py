import base64
import math
import re
import string

from hypothesis import strategies as st

from harness import build, gen
from harness.core import Sub, check, eq, raises

RULE = ("Random booleans, integers of any size, finite and infinite floats over all exponents, byte strings, positions and URIs written and "
        "read back by the value coders and as properties of whole calendars; RFC 5545 spellings of numbers, booleans (any letter case), "
        "Base64 and positions against a reference reader; those spellings damaged by random edits, which must be rejected unless the "
        "reference reader accepts them. Non-trivial: a value other than zero/empty/true, or a damaged text.")
ASSUMPTIONS = ["URIs are those the standard library's urlparse/geturl keep unchanged", "spellings outside RFC 5545 that Python reads as the same "
               "number (1_0, nan, surrounding blanks of floats), the documented boolean words (T, YES, ON, 1, ...) and Base64 with spare "
               "trailing bits or surplus padding are neither required nor forbidden", "integers below Python's 4300-digit limit"]

B64 = string.ascii_uppercase + string.ascii_lowercase + string.digits + "+/"


def conv(name):
    from ics.valuetype.base import ValueConverter

    return ValueConverter.BY_NAME[name]


def b64(b):
    """reference encoder"""
    out = ""
    for i in range(0, len(b), 3):
        c = b[i:i + 3]
        n = int.from_bytes(c + b"\0" * (3 - len(c)), "big")
        s = "".join(B64[n >> sh & 63] for sh in (18, 12, 6, 0))
        out += s[:len(c) + 1] + "=" * (3 - len(c))
    return out


def unb64(s):
    """reference decoder; None if not Base64, "gray" for spare bits"""
    if not re.fullmatch(r"[A-Za-z0-9+/]*=*", s):
        return None
    have, need = len(s) - len(s.rstrip("=")), -len(s.rstrip("=")) % 4
    if have < need or need == 3:
        return None
    if have > need:
        return "gray"
    out = b""
    for i in range(0, len(s), 4):
        q = s[i:i + 4]
        k = q.count("=")
        n = 0
        for ch in q:
            n = n << 6 | (B64.index(ch) if ch != "=" else 0)
        raw = n.to_bytes(3, "big")
        if any(raw[3 - k:]):
            return "gray"
        out += raw[:3 - k]
    return out


# ------------------------------------------------------------------ values


def floats():
    return st.one_of(st.floats(allow_nan=False), st.floats(-1000, 1000), st.integers(-10 ** 6, 10 ** 6).map(lambda v: v / 1000.0)).map(float.hex)


def ints():
    return st.one_of(st.integers(-200, 200), st.integers(), st.integers(-2 ** 70, 2 ** 70), st.integers(0, 400).map(lambda e: 10 ** e - 1))


def geo():
    f = lambda top: st.one_of(st.floats(-top, top, allow_subnormal=True), st.integers(-top * 10 ** 6, top * 10 ** 6).map(lambda v: v / 10 ** 6),
                              st.integers(-10 * top, 10 * top).map(lambda v: v / 10 + 5e-7), st.sampled_from([0.0, -0.0, float(top), -1e-7, 4.9e-7]))
    return st.tuples(f(90), f(180)).map(lambda t: [float.hex(t[0]), float.hex(t[1])])


def any_uri():
    word = st.text(st.sampled_from("abcXYZ019._~-%,;=&@:!$'()*+/?#[]|é \t\"\\^{}"), max_size=20)
    scheme = st.sampled_from(["http://", "https://h:80/", "mailto:", "urn:", "cid:", "data:,", "ftp://u:p@h/", "", "/", "tel:", "x-a+b.c:", "file:///", "//h/"])
    return st.one_of(gen.uri(), st.tuples(scheme, word).map("".join)).filter(gen.stable)


def value():
    return st.one_of(
        st.tuples(st.just("BOOLEAN"), st.booleans()), st.tuples(st.just("INTEGER"), ints().map(str)), st.tuples(st.just("FLOAT"), floats()),
        st.tuples(st.just("BINARY"), st.one_of(st.binary(max_size=40), st.binary(min_size=50, max_size=400)).map(bytes.hex)),
        st.tuples(st.just("URI"), any_uri()), st.tuples(st.just("CAL-ADDRESS"), any_uri()), st.tuples(st.just("X-GEO"), geo())).map(list)


def real(k, v):
    from ics.geo import Geo

    if k == "INTEGER":
        return int(v)
    if k == "FLOAT":
        return float.fromhex(v)
    if k == "BINARY":
        return bytes.fromhex(v)
    if k in ("URI", "CAL-ADDRESS"):
        return build.uri_of(v)
    if k == "X-GEO":
        return Geo(*map(float.fromhex, v))
    return v


def check_round(c, note):
    k, v = c[0], real(*c)
    cv = conv(k) if k != "CAL-ADDRESS" else conv_address()
    params = {"X-A": ["1"]}
    ctx = {}
    out = cv.serialize(v, params, ctx)
    if k == "BOOLEAN":
        eq(out, "TRUE" if v else "FALSE", "written form")
    elif k == "INTEGER":
        eq(out, c[1], "written form")
    elif k == "BINARY":
        eq(out, b64(v), "written form")
    elif k in ("URI", "CAL-ADDRESS"):
        eq(out, c[1], "written form")
    elif k == "X-GEO":
        check(re.fullmatch(r"-?\d+(\.\d+)?;-?\d+(\.\d+)?", out), "position %r written as %r", v, out)
    got = cv.parse(out, params, ctx)
    eq(params, {"X-A": ["1"]}, "parameters")
    same(k, got, v)
    note.nontrivial(c[1] not in (True, "0", "0x0.0p+0", "", ["0x0.0p+0", "0x0.0p+0"]))
    note(k)


def conv_address():
    from ics.valuetype.generic import CalendarUserAddressConverterClass

    return CalendarUserAddressConverterClass.__new__(CalendarUserAddressConverterClass)


def same(k, got, v):
    if k == "X-GEO":
        eq(type(got).__name__, "Geo", "type")
        for name in ("latitude", "longitude"):
            a, b = getattr(got, name), getattr(v, name)
            check(isinstance(a, float) and abs(a - b) <= 0.5e-6 + 1e-12, "%s %r read as %r", name, b, a)
        return
    eq(type(got), type(v), "type of %r" % (got,))
    eq(got, v, k)
    if k == "FLOAT":
        eq(math.copysign(1, got), math.copysign(1, v), "sign of %r" % (got,))


# ------------------------------------------------------------------ spellings


def number():
    digits = st.one_of(st.integers(0, 10 ** 6).map(str), st.text(st.sampled_from("0123456789"), min_size=1, max_size=30))
    sign = st.sampled_from(["", "", "+", "-"])
    i = st.tuples(sign, digits).map("".join)
    f = st.one_of(i, st.tuples(sign, digits, st.just("."), digits).map("".join))
    return i, f


@st.composite
def spelled(draw):
    k = draw(st.sampled_from(["BOOLEAN", "INTEGER", "FLOAT", "BINARY", "X-GEO"]))
    i, f = number()
    if k == "BOOLEAN":
        s = "".join(ch.lower() if draw(st.booleans()) else ch for ch in draw(st.sampled_from(["TRUE", "FALSE", "TRUE", "FALSE"] + "T Y YES ON 1 F N NO OFF 0".split())))
    elif k == "INTEGER":
        s = draw(i)
    elif k == "FLOAT":
        s = draw(f)
    elif k == "BINARY":
        s = b64(draw(st.binary(max_size=30)))
    else:
        s = draw(f) + ";" + draw(f)
    return [k, s]


def read(k, s):
    """reference reader: None = malformed, "gray" = undecided"""
    if k == "BOOLEAN":
        u = "".join(chr(ord(ch) - 32) if "a" <= ch <= "z" else ch for ch in s)
        if u in ("TRUE", "FALSE"):
            return u == "TRUE"
        return "gray" if s.upper() in "T Y YES ON 1 F N NO OFF 0 TRUE FALSE".split() else None
    if k == "INTEGER":
        return int(s) if re.fullmatch(r"[+-]?[0-9]+", s) else None
    if k == "FLOAT":
        if re.fullmatch(r"[+-]?[0-9]+(\.[0-9]+)?", s):
            return float(s)
        try:
            float(s)
        except ValueError:
            return None
        return "gray"
    if k == "BINARY":
        return unb64(s)
    parts = s.split(";")
    if len(parts) != 2:
        return None
    a, b = (read("FLOAT", p) for p in parts)
    if a is None or b is None:
        return None
    return "gray" if "gray" in (a, b) else (a, b)


def check_spelled(c, note):
    k, s = c
    want = read(k, s)
    cv = conv(k)
    if k == "BOOLEAN" and want == "gray":
        # words that RFC 5545 does not have may be refused, but not taken for something else than they say
        err = raises(cv.parse, s, {}, {})
        if not err:
            got = cv.parse(s, {}, {})
            check(got is (s.upper() in "T Y YES ON 1 TRUE".split()), "%s %r read as %r", k, s, got)
        note("word")
        return
    if isinstance(want, str):
        note("undecided")
        return
    if want is None:
        err = raises(cv.parse, s, {}, {})
        check(err, "%s %r accepted as %r", k, s, None if err else cv.parse(s, {}, {}))
        note("rejected:" + k)
    else:
        got = cv.parse(s, {}, {})
        eq(type(got).__name__, {"X-GEO": "Geo"}.get(k, type(want).__name__), "type of %s %r" % (k, s))
        eq(tuple(got) if k == "X-GEO" else got, want, "%s %r" % (k, s))
        note("read:" + k)
    note.nontrivial()


JUNK = list("0123456789+-.;,eE_ \n=/TFx") + ["", "é", "٣", "inf", ";1", "==", "\t", "１"]


@st.composite
def damaged(draw):
    k, s = draw(spelled())
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(s)))
        op = draw(st.sampled_from(["ins", "del", "rep", "cut"]))
        ch = draw(st.sampled_from(JUNK))
        if op == "ins":
            s = s[:i] + ch + s[i:]
        elif op == "del":
            s = s[:i] + s[i + 1:]
        elif op == "rep":
            s = s[:i] + ch + s[i + 1:]
        else:
            s = s[:i]
    return [k, s]


# ------------------------------------------------------------------ as properties

# property -> (component, value kind, attribute)
PROPS = {
    "PERCENT-COMPLETE": ("VTODO", "INTEGER", "percent"), "PRIORITY": ("VTODO", "INTEGER", "priority"),
    "REPEAT": ("VALARM", "INTEGER", "repeat"), "GEO": ("VEVENT", "X-GEO", "geo"),
    "ATTACH;VALUE=BINARY;ENCODING=BASE64": ("VEVENT", "BINARY", "attach"), "ATTACH": ("VEVENT", "URI", "attach"),
    "ATTACH;VALUE=URI": ("VTODO", "URI", "attach"), "RSVP": ("VEVENT", "BOOLEAN", "rsvp"),
}
RANGE = {"percent": range(101), "priority": range(10)}


@st.composite
def prop(draw):
    p = draw(st.sampled_from(sorted(PROPS)))
    k = PROPS[p][1]
    if k == "URI":
        return {"p": p, "s": draw(any_uri().filter(lambda u: all(ord(ch) >= 32 for ch in u)))}
    if PROPS[p][2] in RANGE and draw(st.booleans()):
        return {"p": p, "s": draw(st.sampled_from(["", "+", "0", "-"])) + str(draw(st.integers(0, 12) | st.integers(0, 105)))}
    s = draw(spelled().filter(lambda c: c[0] == k))[1] if draw(st.booleans()) else draw(
        damaged().filter(lambda c: c[0] == k and "\n" not in c[1]))[1]
    return {"p": p, "s": s}


def check_prop(c, note):
    import ics

    comp, k, attr = PROPS[c["p"]]
    s = c["s"]
    want = real(k, s) if k == "URI" else read(k, s)
    if k == "BOOLEAN" and not re.fullmatch(r"[A-Za-z0-9]*", s):
        return
    if isinstance(want, str):
        note("undecided")
        return
    line = "ATTENDEE;RSVP=%s:mailto:a@b.c" % s if k == "BOOLEAN" else c["p"] + ":" + s
    if comp == "VALARM":
        body = ["BEGIN:VEVENT", "UID:1", "BEGIN:VALARM", "ACTION:AUDIO", "TRIGGER:-PT5M", line, "END:VALARM", "END:VEVENT"]
    else:
        body = ["BEGIN:" + comp, "UID:1", line, "END:" + comp]
    text = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"] + body + ["END:VCALENDAR", ""])

    def get(cal):
        e = (cal.todos if comp == "VTODO" else cal.events)[0]
        if comp == "VALARM":
            e = e.alarms[0]
        v = e.attendees[0].rsvp if k == "BOOLEAN" else getattr(e, attr)
        if attr == "attach":
            eq(len(v), 1, "number of attachments")
            v = v[0]
        return v

    note.nontrivial()
    if attr in RANGE and want is not None and want not in RANGE[attr]:
        want = None
    if want is None:
        # participant details are read when they are asked for
        err = raises(lambda: get(ics.Calendar(text)))
        check(err, "%s accepted", line)
        note("rejected:" + c["p"])
        return
    cal = ics.Calendar(text)
    got = get(cal)
    if k == "X-GEO":
        eq(tuple(got), want, line)
        if max(map(abs, want)) > 1e9:
            return
    else:
        eq(got, want, line)
    again = get(ics.Calendar(cal.serialize()))
    if k == "X-GEO":
        check(all(abs(a - b) <= 0.5e-6 + 1e-12 * (1 + abs(b)) for a, b in zip(again, want)), "position %r exported as %r", want, again)
    else:
        eq(again, want, line + " after export")
    note("read:" + c["p"])


# ------------------------------------------------------------------ through the API


@st.composite
def api(draw):
    return {"geo": draw(gen.opt(geo())), "percent": draw(gen.opt(st.integers(0, 100))), "priority": draw(gen.opt(st.integers(0, 9))),
            "attach": draw(st.lists(st.one_of(st.binary(max_size=200).map(lambda b: ["BINARY", b.hex()]), gen.uri().map(lambda u: ["URI", u])), max_size=3)),
            "rsvp": draw(gen.opt(st.booleans())), "repeat": draw(gen.opt(st.integers(0, 10 ** 6)))}


def check_api(c, note):
    import ics

    ev = ics.Event(geo=real("X-GEO", c["geo"]) if c["geo"] else None, attach=[real(*a) for a in c["attach"]])
    att = ics.Attendee("mailto:a@b.c")
    if c["rsvp"] is not None:
        att.rsvp = c["rsvp"]
    ev.add_attendee(att)
    ev.alarms.append(ics.AudioAlarm(trigger=build.td_of(-60), repeat=c["repeat"]))
    td = ics.Todo(percent=c["percent"], priority=c["priority"])
    cal = ics.Calendar(ics.Calendar(events=[ev], todos=[td]).serialize())
    e, t = cal.events[0], cal.todos[0]
    if c["geo"]:
        same("X-GEO", e.geo, ev.geo)
    else:
        eq(e.geo, None, "geo")
    eq(e.attach, [real(*a) for a in c["attach"]], "attach")
    eq(e.attendees[0].rsvp, bool(c["rsvp"]), "rsvp")
    eq(e.alarms[0].repeat, c["repeat"], "repeat")
    eq((t.percent, t.priority), (c["percent"], c["priority"]), "percent, priority")
    note.nontrivial(bool(c["geo"] or c["attach"]))
    note(*[k for k in c if c[k]])


SUBS = [
    Sub("round", value, check_round, quick=6000, shards=2),
    Sub("spelled", spelled, check_spelled, quick=4000),
    Sub("damaged", damaged, check_spelled, quick=8000, shards=2),
    Sub("props", prop, check_prop, quick=3000, shards=2),
    Sub("api", api, check_api, quick=1200),
]
