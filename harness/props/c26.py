import itertools
from datetime import datetime, timedelta, timezone

import dateutil.rrule as R
from hypothesis import strategies as st

from harness import build, gen
from harness.core import Sub, check, eq, raises
from harness.props.c25 import logical as logical_lines

RULE = ("Rules over all frequencies and parts (INTERVAL, COUNT or UNTIL, WKST, all BY parts, start times floating or in UTC) and sets of up "
        "to three rules, exclusion rules, extra and excluded dates: each built twice (values as numbers, lists or tuples, keyword order, via "
        "replace) and with one parameter changed; converted to a property line and re-read; put into a zone definition that is exported, "
        "read independently, and imported. Non-trivial: the rule has a BY part or the set has at least two members, and it has at least "
        "two occurrences.")
ASSUMPTIONS = ["start times are given", "COUNT and UNTIL are not combined", "zone definitions use rules that end, start at one common time, and "
               "count that time among the set (as RFC 5545 requires of DTSTART)"]

FREQ = ["YEARLY", "MONTHLY", "WEEKLY", "DAILY", "HOURLY", "MINUTELY", "SECONDLY"]
SPAN = [30 * 366 * 86400, 5 * 366 * 86400, 2 * 366 * 86400, 200 * 86400, 10 * 86400, 5 * 3600, 600]
WDAYS = [R.MO, R.TU, R.WE, R.TH, R.FR, R.SA, R.SU]


def ints(lo, hi, neg=False):
    v = st.integers(lo, hi)
    if neg:
        v = st.one_of(v, st.integers(-hi, -lo))
    return st.lists(v, min_size=1, max_size=3, unique=True)


PARTS = {
    "bymonth": ints(1, 12), "bymonthday": ints(1, 31, True), "byyearday": ints(1, 366, True), "byweekno": ints(1, 53, True),
    "byhour": ints(0, 23), "byminute": ints(0, 59), "bysecond": ints(0, 59), "byeaster": ints(-60, 60),
    "byweekday": st.lists(st.tuples(st.integers(0, 6), st.sampled_from([None, None, 1, 2, -1, -2, 5])).map(list), min_size=1, max_size=3,
                          unique_by=lambda t: tuple(map(str, t))),
    "bysetpos": ints(1, 4, True),
}


# dateutil looks for the next occurrence up to the year 9999: only rules that often have one are iterated
TIMES = ["byhour", "byminute", "bysecond"]
SAFE = [["bymonth", "bymonthday", "byyearday", "byweekno", "byweekday"], ["bymonthday", "byweekday", "bymonth"], ["bymonth", "byweekday"],
        ["bymonth", "bymonthday", "byweekday"], ["byhour", "byweekday", "bymonthday"], ["byminute", "byhour"], ["bysecond", "byminute"]]


@st.composite
def rule(draw, dtstart=None, tz=None, easter=True, safe=True):
    f = draw(st.integers(0, 6))
    if safe:
        names = draw(st.lists(st.sampled_from(SAFE[f] + (["byeaster"] if easter and f == 0 else [])), max_size=1))
        names += draw(st.lists(st.sampled_from(TIMES[max(f - 3, 0):]), max_size=1)) if f < 5 else []
        names = sorted(set(names))
    else:
        names = draw(st.lists(st.sampled_from([p for p in sorted(PARTS) if p != "bysetpos" and (easter or p != "byeaster")]), max_size=3,
                              unique=True))
        if f != 0 and "byweekno" in names:
            names.remove("byweekno")
    r = {"freq": f, "start": dtstart or draw(gen.ymdhms(1000 if draw(st.integers(0, 4)) else 2, 9000))}
    if draw(st.booleans()):
        r["interval"] = draw(st.integers(2, 5))
    if draw(st.integers(0, 2)) == 2:
        r["wkst"] = draw(st.integers(0, 6))
    for n in names:
        r[n] = draw(PARTS[n])
    if f > 1 and "byweekday" in r:
        r["byweekday"] = [[d, None] for d in sorted(set(d for d, _ in r["byweekday"]))]
    if names and draw(st.integers(0, 3)) == 3:
        r["bysetpos"] = draw(st.sampled_from([[1], [-1], [1, -1]]) if safe else PARTS["bysetpos"])
    if safe:
        if f > 3 and r.get("interval"):
            r["interval"] = 2 if "byweekday" in r or "bymonthday" in r else 1
            if r["interval"] == 1 or any(n in r for n in TIMES):
                r.pop("interval")
        if f in (1, 3) and any(n in r for n in ("bymonthday", "byweekday", "bymonth")):
            r.pop("interval", None)
        r["safe"] = True
    if names or draw(st.booleans()):
        t = datetime(*r["start"]) + timedelta(seconds=draw(st.integers(0, SPAN[f])))
        r["until"] = [t.year, t.month, t.day, t.hour, t.minute, t.second]
    else:
        r["count"] = draw(st.integers(1, 20))
    r["tz"] = tz
    return r


def wd(x):
    return WDAYS[x[0]](x[1]) if x[1] else WDAYS[x[0]]


def kwargs(r, style):
    """style 0: lists, 1: tuples, 2: a single number where there is one"""
    kw = {}
    tz = timezone.utc if r.get("tz") else None
    kw["dtstart"] = datetime(*r["start"], tzinfo=tz)
    for k in ("interval", "wkst", "count"):
        if k in r:
            kw[k] = r[k]
    if "wkst" in r and style == 1:
        kw["wkst"] = WDAYS[r["wkst"]]
    if "until" in r:
        kw["until"] = datetime(*r["until"], tzinfo=tz)
    for k in PARTS:
        if k in r:
            v = [wd(x) for x in r[k]] if k == "byweekday" else list(r[k])
            kw[k] = v if style == 0 else tuple(v) if style == 1 else v[0] if len(v) == 1 else v
    return kw


def make(r, style=0, flip=False, cache=False):
    kw = kwargs(r, style)
    if flip:
        kw = dict(reversed(list(kw.items())))
    return R.rrule(r["freq"], cache=cache, **kw)


def canon(r):
    d = dict(r)
    d.pop("safe", None)
    for k in PARTS:
        if k in d:
            d[k] = sorted(map(str, d[k]))
    if d.get("wkst") == 0:
        d.pop("wkst")
    return d


@st.composite
def changed(draw, r):
    """the same parameters with one of them different"""
    keys = ["freq", "start", "interval", "wkst", "end", "tz"] + sorted(PARTS)
    k = draw(st.sampled_from(keys))
    n = dict(r)
    if k == "freq":
        n.pop("safe", None)
        n["freq"] = (r["freq"] + draw(st.integers(1, 6))) % 7
    elif k == "start":
        t = datetime(*r["start"]) + timedelta(seconds=draw(st.sampled_from([1, 60, 86400, -1])))
        n["start"] = [t.year, t.month, t.day, t.hour, t.minute, t.second]
    elif k == "interval":
        n["interval"] = r.get("interval", 1) + draw(st.integers(1, 3))
    elif k == "tz":
        n["tz"] = None if r.get("tz") else "utc"
    elif k == "wkst":
        n["wkst"] = (r.get("wkst", 0) + draw(st.integers(1, 6))) % 7
    elif k == "end":
        if "count" in r:
            n["count"] = r["count"] + 1
        else:
            t = datetime(*r["until"]) + timedelta(seconds=1)
            n["until"] = [t.year, t.month, t.day, t.hour, t.minute, t.second]
    elif k in r:
        if len(r[k]) > 1 and draw(st.booleans()):
            n[k] = r[k][:-1]
        else:
            n.pop(k)
            if not any(p in n for p in PARTS if p != "bysetpos"):
                n.pop("bysetpos", None)
    elif k == "bysetpos" and not any(p in r for p in PARTS):
        n["interval"] = r.get("interval", 1) + 1
    else:
        n[k] = draw(PARTS[k])
        if k == "byweekday" and n["freq"] > 1:
            n[k] = [[d, None] for d in sorted(set(d for d, _ in n[k]))]
    return n


def valid(r):
    """dateutil drops the number of a BYDAY for some frequencies, and refuses some sets of times"""
    try:
        return make(r)
    except ValueError:
        return None


@st.composite
def s_rule(draw):
    r = draw(rule(tz=draw(st.sampled_from([None, None, "utc"])), safe=draw(st.booleans())))
    return {"r": r, "styles": draw(st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list)), "flip": draw(st.booleans()),
            "cache": draw(st.booleans()), "iterate": draw(st.booleans()), "other": draw(changed(r))}


def distinct(a, b, what):
    check(a != b and not a == b and b != a, "%s: %r equals %r" % (what, a, b))
    check(len({a, b}) == 2, "%s: one element in a set of two different ones" % what)


def identical(a, b, what):
    check(a == b and not a != b and b == a, "%s: %r does not equal %r" % (what, a, b))
    eq(hash(a), hash(b), "%s: hash" % what)
    eq(repr(a), repr(b), "%s: repr" % what)
    check(len({a, b}) == 1 and {a: 1}.get(b) == 1, "%s: not found in a set or dictionary" % what)


def check_rule(c, note):
    import ics  # installs the comparison

    r = c["r"]
    a = valid(r)
    if a is None:
        return
    a = make(r, c["styles"][0])
    b = make(r, c["styles"][1], c["flip"], c["cache"])
    identical(a, b, "built twice")
    before = (hash(a), repr(a))
    occ = list(itertools.islice(a, 200)) if r.get("safe") else None
    if c["iterate"] and occ is not None:
        eq(list(itertools.islice(b, 200)), occ, "occurrences of equal rules")
        b.before(b._dtstart, inc=True)
    eq((hash(a), repr(a)), before, "hash and repr after iterating")
    identical(a, b, "after iterating")
    identical(a.replace(), b, "replace() without changes")
    # values that are no rules
    rs = R.rruleset()
    rs.rrule(a)
    for x in (None, 1, str(a), rs):
        check(a != x and not a == x, "equals %r" % (x,))
    o = valid(c["other"])
    if o is not None and canon(c["other"]) != canon(r) and {a._original_rule.get(k) for k in TIMES} >= {
            tuple(sorted(r[k])) for k in TIMES if k in r} and {o._original_rule.get(k) for k in TIMES} >= {
            tuple(sorted(c["other"][k])) for k in TIMES if k in c["other"]}:
        distinct(a, o, "different parameter")
        note("changed-" + ",".join(sorted(k for k in set(r) | set(c["other"]) if r.get(k) != c["other"].get(k))))
    check_line(a, r, occ, note)
    note.nontrivial(any(k in r for k in PARTS) and (occ is None or len(occ) > 1))


def check_line(a, r, occ, note):
    from ics.contentline import ContentLine
    from ics.rrule import rrule_to_ContentLine

    cl = rrule_to_ContentLine(a)
    check(isinstance(cl, ContentLine), "%r" % (cl,))
    eq((cl.name, dict(cl.params)), ("RRULE", {}), "name of the line")
    parts = dict(p.split("=") for p in cl.value.split(";"))
    eq(parts.pop("FREQ"), FREQ[r["freq"]], "FREQ")
    want = {}
    if "interval" in r:
        want["INTERVAL"] = str(r["interval"])
    if r.get("wkst"):
        want["WKST"] = repr(WDAYS[r["wkst"]])[:2]
    if "count" in r:
        want["COUNT"] = str(r["count"])
    if "until" in r:
        u = r["until"]
        want["UNTIL"] = "%04d%02d%02dT%02d%02d%02d" % tuple(u) + ("Z" if r.get("tz") else "")
    names = {"byweekday": "BYDAY"}
    for k in PARTS:
        if k in r:
            want[names.get(k, k.upper())] = None
    eq({k: (v if want.get(k) is not None else None) for k, v in parts.items()}, want, "parts of " + cl.value)
    for k in PARTS:
        if k in r:
            got = parts[names.get(k, k.upper())].split(",")
            if k == "byweekday":
                eq(sorted(g.lstrip("+") for g in got), sorted("%s%s" % ("" if not n or r["freq"] > 1 else n, repr(WDAYS[d])[:2]) for d, n in r[k]), k)
            elif r["freq"] > 3 and k in TIMES:
                # dateutil leaves out values that the interval never reaches
                check(set(map(int, got)) <= set(r[k]), "%s: %s" % (k, got))
            else:
                eq(sorted(map(int, got)), sorted(r[k]), k)
    back = R.rrulestr(cl.serialize(wrap=None), dtstart=a._dtstart)
    if occ is not None:
        eq(list(itertools.islice(back, 200)), occ, "occurrences after conversion of " + cl.value)
    if r.get("tz"):
        # the standard parser names the UTC zone of UNTIL differently
        check(back == a and hash(back) == hash(a), "converted rule %r" % (back,))
    else:
        identical(back, a, "converted rule")
    note("line-" + FREQ[r["freq"]])


# ------------------------------------------------------------------ sets


@st.composite
def rset(draw, one_start=True, easter=True):
    start = draw(gen.ymdhms(1900, 2100))
    dates = st.one_of(*[st.lists(st.integers(-400, 4000), max_size=3)] * 12, st.lists(st.integers(-400, 4000), min_size=10, max_size=60))
    return {"start": start, "rules": draw(st.lists(rule(start, easter=easter), max_size=2)), "ex": draw(st.lists(rule(start, easter=easter), max_size=1)),
            "rdates": draw(dates), "exdates": draw(dates)}


def date(s, n):
    return datetime(*s["start"]) + timedelta(hours=6 * n)


def make_set(s, style=0, drop=None, extra=None):
    rs = R.rruleset(cache=style == 1)
    for r in s["rules"]:
        rs.rrule(make(r, style))
    for r in s["ex"]:
        rs.exrule(make(r, style))
    for n in s["rdates"]:
        rs.rdate(date(s, n))
    for n in s["exdates"]:
        rs.exdate(date(s, n))
    return rs


@st.composite
def s_set(draw):
    s = draw(rset())
    k = draw(st.sampled_from(["rules", "ex", "rdates", "exdates"]))
    n = {a: list(b) if isinstance(b, list) else b for a, b in s.items()}
    mode = draw(st.sampled_from(["drop", "add", "move"]))
    if k in ("rdates", "exdates"):
        if mode == "drop" and n[k]:
            n[k].pop()
        elif mode == "move" and n[k]:
            j = "exdates" if k == "rdates" else "rdates"
            n[j].append(n[k].pop())
        else:
            n[k].append(5000 + draw(st.integers(0, 3)))
    else:
        if mode == "drop" and n[k]:
            n[k].pop()
        elif n[k] and mode == "move":
            n[k][-1] = draw(changed(n[k][-1]))
        else:
            n[k].append(draw(rule(s["start"])))
    return {"s": s, "other": n, "iterate": draw(st.booleans()), "styles": draw(st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list))}


def check_set(c, note):
    import ics

    s = c["s"]
    if any(valid(r) is None for r in s["rules"] + s["ex"] + c["other"]["rules"] + c["other"]["ex"]):
        return
    a, b = make_set(s, c["styles"][0]), make_set(s, c["styles"][1])
    identical(a, b, "sets built twice")
    occ = list(itertools.islice(a, 100))
    if c["iterate"]:
        eq(list(itertools.islice(b, 100)), occ, "occurrences")
    identical(a, b, "sets after iterating")
    o = make_set(c["other"])
    if {k: [canon(x) if isinstance(x, dict) else x for x in v] for k, v in s.items() if k != "start"} != \
            {k: [canon(x) if isinstance(x, dict) else x for x in v] for k, v in c["other"].items() if k != "start"}:
        distinct(a, o, "different set")
    check(a != None and a != 5 and (not s["rules"] or a != make(s["rules"][0])), "equals something else")  # noqa: E711
    for f in (str, repr):
        check(isinstance(f(a), str), "text of a set")
    note.nontrivial(len(s["rules"]) + len(s["ex"]) + len(s["rdates"]) + len(s["exdates"]) > 1 and len(occ) > 1)


# ------------------------------------------------------------------ zone definitions


@st.composite
def s_zone(draw):
    s = draw(rset(easter=False))
    s["rdates"] = [abs(n) for n in s["rdates"]]
    if draw(st.booleans()):
        s["rdates"] = [0] + s["rdates"]
    if draw(st.integers(0, 3)):
        s["ex"] = []
    return {"s": s, "from": draw(st.integers(-56, 56)) * 900 + draw(st.sampled_from([0, 0, 0, 60, 1])), "to": draw(st.integers(-56, 56)) * 900,
            "dst": draw(st.booleans()), "via": draw(st.sampled_from(["observance", "zone", "calendar"])), "name": draw(gen.opt(gen.text(3), 2)),
            "plain": draw(st.booleans())}


def check_zone(c, note):
    import ics
    from ics.contentline import string_to_container
    from ics.timezone import Timezone, TimezoneDaylightObservance, TimezoneStandardObservance

    s = c["s"]
    if any(valid(r) is None for r in s["rules"] + s["ex"]):
        return
    start = datetime(*s["start"])
    if not s["rules"]:
        if not s["rdates"]:
            return
        if s["ex"]:
            s = dict(s, rdates=[0] + s["rdates"])
    rs = make_set(s)
    loose = bool(s["rules"]) and not (0 in s["rdates"] or any(start in r for r in rs._rrule))  # a start outside of its own rules counts as an onset when read
    if abs(c["from"]) >= 86400 or start.year < 1900:
        return
    if c["plain"] and len(s["rules"]) == 1 and not (s["ex"] or s["rdates"] or s["exdates"]):
        given = rs._rrule[0]
    else:
        given = rs
    occ = list(itertools.islice(make_set(s), 500))
    cls = TimezoneDaylightObservance if c["dst"] else TimezoneStandardObservance
    for junk in (None, "FREQ=YEARLY", start, [given], 5):
        check(raises(cls, timedelta(0), timedelta(0), junk), "observance accepts the rule %r", junk)
    ob = cls(timedelta(seconds=c["from"]), timedelta(seconds=c["to"]), given, c["name"])
    if c["via"] == "observance":
        text = ob.serialize()
        back = cls.from_container(string_to_container(text))
    else:
        obs = [ob]
        zone = Timezone("Zone/X", obs)
        if c["via"] == "zone":
            text = zone.serialize()
            back = Timezone.from_container(string_to_container(text)).observances[0]
        else:
            if not occ:
                return
            e = ics.Event(uid="u", begin=(max(occ) + timedelta(days=2)).replace(tzinfo=zone))
            text = ics.Calendar(events=[e]).serialize()
            back = ics.Calendar(text).events[0].begin.tzinfo.observances[0]
    eq(type(back), cls, "type")
    eq((back.tzoffsetfrom, back.tzoffsetto, back.tzname), (ob.tzoffsetfrom, ob.tzoffsetto, ob.tzname), "offsets and name")
    got = list(itertools.islice(back.rrule, 500))
    if loose:
        got = got[1:] if start in got and start not in occ else got
        got, occ = got[:490], occ[:490]
    eq(got[:len(occ)] if loose else got, occ, "occurrences after export and import of\n" + text)
    eq(list(itertools.islice(ob.rrule, len(occ) if loose else 500)), occ, "occurrences after export")
    identical(back.rrule, type(back).from_container(back.to_container()).rrule, "second import")
    # the text itself, read independently: UNTIL is in UTC
    for l in logical_lines(text):
        if l.startswith(("RRULE:", "EXRULE:")) and "UNTIL=" in l:
            v = l.split("UNTIL=")[1].split(";")[0]
            check(v.endswith("Z"), "UNTIL is not in UTC: " + l)
            t = datetime.strptime(v, "%Y%m%dT%H%M%SZ") + timedelta(seconds=c["from"])
            check(t in [datetime(*r["until"]) for r in s["rules"] + s["ex"] if "until" in r], "UNTIL: " + l)
    note.nontrivial(len(occ) > 1)
    note(c["via"], *["has-" + k for k in ("rules", "ex", "rdates", "exdates") if s[k]])


SUBS = [
    Sub("rule", s_rule, check_rule, quick=4000, shards=4),
    Sub("set", s_set, check_set, quick=2000, shards=3),
    Sub("zone", s_zone, check_zone, quick=2500, shards=4),
]
