import re
import warnings

from hypothesis import strategies as st

from harness import build, foreign, gen, ref
from harness.core import Sub, check, eq

RULE = ("Calendar texts of the foreign generator, damaged in one to six places: characters inserted, removed or replaced, lines dropped, doubled, "
        "moved or swapped, values or parameters exchanged between lines or replaced by values of other types, components renamed, cut short or "
        "nested into each other. Whatever the library then accepts is exported and imported again. Non-trivial: a damaged text was accepted.")
ASSUMPTIONS = ["rules on which dateutil itself fails with an IndexError (the 41st Sunday of a month) are left out", "components are not nested deeper than Python allows recursion", "zones with changes every hour, minute or second without a COUNT are left out: finding an offset in them takes very long but ends", "times in the years 1 and 9999 and durations of over a century may overflow when they are read or compared, as Python cannot represent what is beyond", "texts whose times refer to a zone that only the operating system knows are left out: they can be read but not written"]
TECHNIQUE = "mutation-based fuzzing with an idempotence oracle"

CHARS = list("0123456789:;,=\"^\\ \tTZPWDHMS+-/.nNaX") + ["é", "\n ", "\r\n", "\x00", "\x85", "BEGIN:", "END:", "", "\\n", "^n", "=\"\"", ";A=b"]
VALUES = ["", "0", "1", "-1", "TRUE", "20200101", "20200101T000000", "20200101T000000Z", "PT1H", "-PT1H", "P1W", "P0D", "+0100", "-0000", "x", "a,b",
          "a;b", "mailto:a@b.c", "http://e.org/", "1;2", "FREQ=DAILY", "FREQ=YEARLY;COUNT=3", "20200101T000000/PT1H", "20200101T000000Z/20200102T000000Z",
          "AUDIO", "DISPLAY", "EMAIL", "X-Y", "CONFIRMED", "2.0", "99991231T235959", "00010101T000000", "20200230", "ME9N", "\\", "\\x", "Europe/Berlin", "UTC", "nan;nan", "1e5;2", "inf;1", "90.1;1", " ", "a,,b", "\\,", "1,2", "+1", "1.0", "٣", "20200101T000060", "20200101T240000", "+9999", "+2400", "-P", "P", "PT", "P1Y", "BASE64", "é", "data:,x", "mailto:", ":", "//", "http://[", "TRUE,FALSE", "FREQ=SECONDLY;COUNT=2", "FREQ=YEARLY;UNTIL=20210101", "FREQ=YEARLY;UNTIL=20210101T000000Z", "COUNT=1", "20200101T000000/20190101T000000", "20200101,20200102"]
PARAMS = [";VALUE=DATE", ";VALUE=DATE-TIME", ";VALUE=DURATION", ";VALUE=TEXT", ";VALUE=URI", ";VALUE=BINARY", ";VALUE=PERIOD", ";VALUE=X-Z", ";TZID=UTC",
          ";TZID=Europe/Berlin", ";TZID=Nope/Zone", ";TZID=A,B", ";TZID=\"\"", ";RELATED=END", ";RELATED=START", ";ENCODING=BASE64", ";ENCODING=8BIT",
          ";X=1", ";X=1,2", ";VALUE=DATE;VALUE=DATE", ";__MERGE_NEXT=TRUE", ";value=date", ";RSVP=maybe", ";CN=\"a^nb\"", ";DIR=x"]
NAMES = ["VEVENT", "VTODO", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VCALENDAR", "X-C", "VJOURNAL", "SUMMARY", "DTSTART", "DUE", "ATTENDEE", "CATEGORIES", "RRULE", "ACTION",
         "TZID", "TRIGGER", "ATTACH", "GEO", "VERSION", "URL", "STATUS", "ORGANIZER"]
PROPS = ["DTSTART", "DTEND", "DUE", "DURATION", "SUMMARY", "UID", "DTSTAMP", "CATEGORIES", "ATTENDEE", "ORGANIZER", "ATTACH", "TRIGGER", "ACTION", "REPEAT",
         "GEO", "STATUS", "CLASS", "URL", "PRIORITY", "PERCENT-COMPLETE", "COMPLETED", "CREATED", "LAST-MODIFIED", "TZID", "TZOFFSETFROM", "TZOFFSETTO",
         "RRULE", "RDATE", "EXDATE", "TZNAME", "VERSION", "PRODID", "METHOD", "SCALE", "CALSCALE", "TRANSPARENT", "DESCRIPTION", "LOCATION", "X-A", "TZURL", "VEVENT", "VTODO", "VTIMEZONE", "VALARM",
         "STANDARD", "DAYLIGHT", "VCALENDAR"]


TIMES = ["", "Z", "T", "-"] + [v for v in VALUES if v[:4].isdigit()] + ["20201301T000000", "20200101T250000", "20200101t000000z", "20200229", "20190229", "20200101T0000", "2020010", "2020"]
DURATIONS = ["", "PT1", "P1", "PT1H3", "-PT5", "PT1H1H", "PTH", "-", "+", "PT1H", "-PT1H", "P1W", "P0D", "PT0S", "-P", "P", "PT", "P1Y", "P1D", "P1DT", "PT1H1S", "+P1D", "P999999999D", "P9999999999D", "P-1D", "p1d", "P1W1D", "PT99999999S"]
# values that nearly fit a property
NEARLY = {
    "GEO": ["nan;nan", "1e5;2", "inf;1", "90.1;1", "1;2;3", "1", ";", "1;", "1.5;-2.25", "-0;0", "1,2", "1;200", "1_0;2", "-90;180"],
    "DTSTART": TIMES, "DTEND": TIMES, "DUE": TIMES, "DTSTAMP": TIMES, "CREATED": TIMES, "COMPLETED": TIMES, "LAST-MODIFIED": TIMES, "RDATE": TIMES + VALUES,
    "DURATION": DURATIONS, "TRIGGER": DURATIONS + TIMES, "REPEAT": ["0", "1", "-1", "1.5", "x", "99999999999999999999", "1_0", " 1", "+1"],
    "PRIORITY": ["0", "9", "10", "-1", "1.0", "", "+1"], "PERCENT-COMPLETE": ["0", "100", "101", "-1", "5%", ""], "ACTION": ["AUDIO", "DISPLAY", "EMAIL", "X-Y", "", "audio", "NONE", "A,B", "a b"],
    "STATUS": ["CONFIRMED", "confirmed", "NEEDS-ACTION", "x", "", "COMPLETED"], "CLASS": ["PUBLIC", "x", "", "private"], "URL": ["", "x", "http://e.org/a,b", "http://[", "a\\,b", "mailto:", "//"],
    "TZOFFSETFROM": ["+0100", "-0000", "+2400", "+2359", "-235959", "+9999", "0100", "+1", "+010", "+01:00", ""], "TZNAME": ["", "a,b", "a;b", "x\\ny"],
    "RRULE": ["FREQ=DAILY", "FREQ=YEARLY;COUNT=3", "FREQ=SECONDLY;COUNT=2", "COUNT=1", "FREQ=X", "FREQ=YEARLY;UNTIL=20210101", "FREQ=YEARLY;UNTIL=20210101T000000Z", "",
              "FREQ=YEARLY;COUNT=2;UNTIL=20210101T000000", "FREQ=YEARLY;BYDAY=XX", "FREQ=YEARLY;X-A=1", "FREQ=YEARLY;COUNT=0", "FREQ=YEARLY;INTERVAL=0", "FREQ=YEARLY;COUNT=3;WKST=SU",
              "FREQ=YEARLY;COUNT=3;BYEASTER=0", "FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU;COUNT=5", "FREQ=DAILY;COUNT=400"],
    "ATTACH": ["", "ME9N", "http://e.org", "data:,x", "CID:x@y", "x y", "a,b", "//"], "ATTENDEE": ["", "mailto:", "x", "mailto:a@b.c", "a b"], "ORGANIZER": ["", "x", "mailto:a@b.c"],
    "CATEGORIES": ["", ",", "a,,b", "a\\,b", "a;b", "\\", "a,a"], "VERSION": ["", "1.0", "2.0;3", "2.0,2.0"], "METHOD": ["", "x,y"], "SUMMARY": ["", ",", "a;b", "\\n", "\\x"],
    "TZID": ["", "UTC", "Europe/Berlin", "A\\,B", "A,B", " x", "/x", "..", "/etc/passwd", "x" * 60], "UID": ["", "a,b", "\\,"], "SCALE": ["", "GREGORIAN"], "TRANSPARENT": ["TRUE", "x", "", "no"],
}
NEARLY.update({n: ["x", ""] for n in ["VTIMEZONE", "VEVENT", "VTODO", "VALARM", "STANDARD", "DAYLIGHT"]})
NEARLY["TZOFFSETTO"] = NEARLY["TZOFFSETFROM"]
NEARLY["DESCRIPTION"] = NEARLY["LOCATION"] = NEARLY["PRODID"] = NEARLY["SUMMARY"]
NEARLY["EXDATE"], NEARLY["EXRULE"] = NEARLY["RDATE"], NEARLY["RRULE"]


def mutation():
    n = st.integers(0, 2000)
    return st.one_of(
        st.tuples(st.sampled_from(["ins", "rep"]), n, n, st.sampled_from(CHARS)),
        st.tuples(st.sampled_from(["delchar", "dup", "drop", "swap", "move", "cut", "exchange", "nest", "twice"]), n, n, st.just("")),
        st.tuples(st.just("value"), n, n, st.sampled_from(VALUES)),
        st.tuples(st.just("value"), n, n, st.sampled_from(VALUES)),
        st.tuples(st.just("param"), n, n, st.sampled_from(PARAMS)),
        st.tuples(st.just("name"), n, n, st.sampled_from(NAMES)),
        st.tuples(st.just("prop"), n, n, st.sampled_from(PROPS)),
        st.tuples(st.just("add"), n, st.sampled_from(PROPS), st.sampled_from(VALUES)),
        st.tuples(st.just("wrap"), n, n, st.sampled_from(PROPS)),
        st.tuples(st.just("case"), n, n, st.just("")),
        *[st.tuples(st.just("nearly"), n, n, st.just(""))] * 4, st.tuples(st.just("nearly"), n, n, st.just("")), st.tuples(st.just("nearly"), n, n, st.just("")),
        st.tuples(st.just("another"), n, n, st.just("")), st.tuples(st.just("another"), n, n, st.just("")),
        *[st.tuples(st.just("more"), n, n, st.sampled_from(sorted(NEARLY)))] * 6,
    ).map(list)


FITS = {**{n: ["VCALENDAR"] for n in ["VERSION", "PRODID", "METHOD", "SCALE", "VTIMEZONE", "VEVENT", "VTODO", "VALARM"]},
        **{n: ["VALARM"] for n in ["ACTION", "TRIGGER", "REPEAT"]}, "TZID": ["VTIMEZONE"], "STANDARD": ["VTIMEZONE"], "DAYLIGHT": ["VTIMEZONE"],
        **{n: ["STANDARD", "DAYLIGHT"] for n in ["TZOFFSETFROM", "TZOFFSETTO", "TZNAME", "RRULE", "RDATE", "EXDATE", "EXRULE"]}}


def several(n):
    """Several damaged versions of one text, most of them with little damage."""
    m = mutation()
    return st.lists(st.one_of(st.lists(m, min_size=1, max_size=1), st.lists(m, min_size=1, max_size=2), st.lists(m, min_size=1, max_size=n)), min_size=1, max_size=6)


def mutate(lines, m):
    k, i, j, x = m
    if not lines:
        return lines
    i %= len(lines)
    l = lines[i]
    head, sep, val = l.partition(":")
    if k in ("ins", "rep", "delchar"):
        p = j % (len(l) + 1)
        lines[i] = l[:p] + x + l[p + (k != "ins"):]
    elif k == "dup":
        lines.insert(i, l)
    elif k == "drop":
        del lines[i]
    elif k == "swap":
        j %= len(lines)
        lines[i], lines[j] = lines[j], lines[i]
    elif k == "move":
        del lines[i]
        lines.insert(j % (len(lines) + 1), l)
    elif k == "cut":
        lines[i] = l[:j % (len(l) + 1)]
    elif k == "exchange":
        j %= len(lines)
        h2, s2, v2 = lines[j].partition(":")
        lines[i], lines[j] = head + ":" + v2, h2 + ":" + val
    elif k == "value":
        lines[i] = head + ":" + x
    elif k == "param":
        n, s, rest = head.partition(";")
        lines[i] = n + x + s + rest + sep + val
    elif k == "name":
        if head.upper() in ("BEGIN", "END"):
            old = val
            lines[:] = [a.partition(":")[0] + ":" + x if a.upper() in ("BEGIN:" + old.upper(), "END:" + old.upper()) else a for a in lines]
    elif k == "prop":
        if head.upper() not in ("BEGIN", "END"):
            lines[i] = x + l[len(re.match("[^;:]*", l).group()):]
    elif k == "add":
        lines.insert(i + 1, j + ":" + x)
    elif k in ("nearly", "another"):
        # a property that is present and of which near misses are known
        named = {}
        for d, a in enumerate(lines):
            named.setdefault(re.match("[^;:]*", a).group().upper(), []).append(d)
        names = sorted(n for n in named if n in NEARLY)
        if names:
            n = names[i % len(names)]
            d = named[n][j // 50 % len(named[n])]
            l = lines[d]
            if k == "another":  # of the same name, before or after it
                lines.insert(d + i // 50 % 2, l)
            lines[d] = l.partition(":")[0] + ":" + NEARLY[n][j % len(NEARLY[n])]
    elif k == "more":
        # one more property, at the start of some component
        starts = [a for a, b in enumerate(lines) if b.upper().startswith("BEGIN:")] or [0]
        fit = [a for a in starts if lines[a].upper()[6:] in FITS.get(x, ["VEVENT", "VTODO"])]
        if fit and i % 5:
            starts = fit
        lines.insert(starts[i // 5 % len(starts)] + 1, x + ":" + NEARLY[x][j % len(NEARLY[x])])
    elif k == "wrap":
        # an empty component with the name of a property, or of the line
        n = x if j % 2 else re.match("[^;:]*", l).group()
        lines[i:i + (j // 2 % 2)] = ["BEGIN:" + n, "END:" + n]
    elif k == "twice":
        lines += lines[:]
    elif k == "case":
        lines[i] = l.swapcase()
    elif k == "nest":
        # put one component into another
        starts = [a for a, b in enumerate(lines) if b.upper().startswith("BEGIN:")]
        if starts:
            a = starts[i % len(starts)]
            d = 0
            for b in range(a, len(lines)):
                d += lines[b].upper().startswith("BEGIN:") - lines[b].upper().startswith("END:")
                if d == 0:
                    break
            block = lines[a:b + 1]
            del lines[a:b + 1]
            lines[j % (len(lines) + 1):j % (len(lines) + 1)] = block
    return lines


def strategy():
    return st.fixed_dictionaries(dict(muts=several(6), cal=foreign.calendar(2, hi=2150)))


def focus(name):
    """Damage inside the first component of that name."""
    return lambda: st.fixed_dictionaries(dict(muts=several(4), focus=st.just(name), cal=foreign.calendar(2, hi=2150)))


def block(lines, name):
    if name is not None and "BEGIN:" + name in lines:
        a = lines.index("BEGIN:" + name)
        if "END:" + name in lines[a:]:
            return a, lines.index("END:" + name, a) + 1
    return 0, len(lines)


def rounded(x):
    """Positions are written with six decimal places."""
    if isinstance(x, (tuple, list)):
        if len(x) == 3 and x[0] == "Geo":
            return ("Geo",) + tuple("%f" % (round(v, 6) + 0.0) for _, v in x[1:])
        return type(x)(rounded(v) for v in x)
    return {k: rounded(v) for k, v in x.items()} if isinstance(x, dict) else x


def extreme(text):
    """Can a time in the text, or its end, its day or its moment in UTC, be outside the years 1 to 9999?"""
    return bool(re.search(r"(9999|0001)-?[\d]|\d{5,}[DdWw]|\d{8,}[SsMmHh]", re.sub("\r?\n ", "", text)))


def check_case(c, note):
    base = foreign.text_of(dict(c["cal"], fold=0, eol="\n"))
    base = [l for l in base.split("\n") if l]
    for muts in c["muts"]:
        try:
            check_text(base[:], muts, c.get("focus"), note)
        except IndexError as e:
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            if not tb.tb_frame.f_code.co_filename.endswith("dateutil/rrule.py"):
                raise
            note("rule that dateutil cannot evaluate")


def check_text(lines, muts, focused, note):
    import ics
    from ics.contentline import ParseError
    from ics.event import deterministic_event_data

    ERRORS = (ParseError, ValueError, TypeError, OverflowError)
    base = "\r\n".join(lines)
    a, b = block(lines, focused)
    part = lines[a:b]
    for m in muts:
        part = mutate(part, m)
    lines[a:b] = part
    text = "\r\n".join(lines)
    if re.search(r"FREQ=(SECOND|MINUTE|HOUR)LY", text, re.I):
        if not all("COUNT=" in l.upper() for l in lines if re.search(r"FREQ=(SECOND|MINUTE|HOUR)LY", l, re.I)):
            note("endless fine-grained rule")
            return
    # missing ids and stamps
    with warnings.catch_warnings(record=True) as ws, deterministic_event_data():
        warnings.simplefilter("always")
        try:
            cal = ics.Calendar(text)
        except ERRORS as e:
            cal, error = None, e
    # the other way to read a text
    with warnings.catch_warnings(), deterministic_event_data():
        warnings.simplefilter("ignore")
        try:
            several = ics.Calendar.parse_multiple(text)
        except ERRORS as e:
            several, error2 = None, e
    for e in ([error] if cal is None else []) + ([error2] if several is None else []):
        check(not isinstance(e, OverflowError) or extreme(text), "overflow without an extreme time:", repr(e))
        check(str(e) is not None and repr(e), "error cannot be printed")
    if any("known to system" in str(w.message) for w in ws):
        note("system zone")
        return
    if cal is None:
        note("rejected")
        check(several is None or len(several) != 1, "one calendar accepted by parse_multiple, but not by Calendar:", repr(error))
        for one in several or []:
            note("several")
            try:
                again(one, text)
            except ValueError as e:
                # zones known to the system only, again
                check("can't produce Timezone" in str(e), "export of one of several:", repr(e))
        return
    note("accepted")
    note.nontrivial(text != base)
    check(several is not None, "parse_multiple rejected a calendar")
    eq(len(several), 1, "number of calendars")
    eq(several[0].serialize(), again(cal, text), "parse_multiple")


def again(cal, text):
    """Export, import, compare; then everything that needs no arguments."""
    import ics
    from harness.props.c06 import entries

    out = cal.serialize()
    other = ics.Calendar(out)
    got, want = rounded(entries(other)), rounded(entries(cal))
    if repr(got) != repr(want):  # nan is not equal to itself
        eq(got, want, "entries after export and import")
    eq(build.snap(other.extra), build.snap(cal.extra), "unknown items of the calendar")
    eq(other.serialize(), out, "second export")
    str(cal), repr(cal), [str(e) for e in cal.events + cal.todos]
    cl = cal.clone()
    eq(cl.serialize(), out, "export of a clone")
    try:
        list(cal.timeline)
        sorted(cal.events + cal.todos)
    except (ValueError, OverflowError):
        if not extreme(text):
            raise
    return out


SUBS = [Sub("accepted", strategy, check_case, quick=3500, shards=8),
        Sub("zones", focus("VTIMEZONE"), check_case, quick=1200, shards=4),
        Sub("alarms", focus("VALARM"), check_case, quick=1200, shards=4),
        Sub("todos", focus("VTODO"), check_case, quick=1200, shards=4)]
