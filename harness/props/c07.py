import warnings

from hypothesis import strategies as st

from harness import expect, foreign, gen, ref
from harness.core import Known, Sub, check, eq, raises

RULE = ("Calendar texts written by an independent writer: known properties in many legal spellings (letter case of names, parameter names, VALUE and ACTION, VALUE, escapes, "
        "list lines, folded, several zones defined anywhere) mixed with unknown properties, parameters and nested components at "
        "every level; import+export is compared with the input by an independent canonical reader. Non-trivial: the text contains "
        "an entry with a known multi-value property, a zone, or an unknown item.")
ASSUMPTIONS = ["unused time zone definitions and default VALUE parameters may be dropped; known properties may be reordered",
               "URIs that urllib keeps as they are"]


def compare(a, b, ra, rb, note):
    for k in a:
        if k == "VTIMEZONE":
            continue
        if k in ("VEVENT", "VTODO"):
            eq(len(b.get(k, [])), len(a[k]), "number of " + k)
            for x, y in zip(a[k], b[k]):
                y = dict(y)
                for dflt in ("UID", "DTSTAMP"):
                    if dflt not in x:
                        eq(len(y.pop(dflt, [])), 1, "default " + dflt)
                eq(sorted(y), sorted(x), "property names in " + k)
                for p in x:
                    eq(y[p], x[p], "%s of %s" % (p or "unknown items", k))
        else:
            eq(b.get(k, []), a[k], "calendar " + (k or "unknown items"))
    eq(sorted(set(b) - {"VTIMEZONE"}), sorted(set(a) - {"VTIMEZONE"}), "parts of the calendar")
    za = {z["TZID"][0][0]: z for z in a.get("VTIMEZONE", [])}
    seen = []
    for z in b.get("VTIMEZONE", []):
        tzid = z["TZID"][0][0]
        seen.append(tzid)
        check(tzid in rb.used, "unused zone %r written", tzid)
        if not tzid.startswith(foreign.PREFIX):
            eq(z, za.get(tzid), "definition of zone " + tzid)
    eq(len(seen), len(set(seen)), "zone definitions are unique: %r" % seen)
    for u in rb.used - {"UTC"}:
        check(u in seen, "zone %r used but not defined", u)


def check_case(case, note):
    import ics

    text = foreign.text_of(case)
    a, ra = foreign.read(text)
    cal = ics.Calendar(text)
    for e, want in zip(list(cal.events) + list(cal.todos), a.get("VEVENT", []) + a.get("VTODO", [])):
        acts = [x["ACTION"][0][0] for x in want.get("VALARM", [])]
        eq([type(x).__name__ for x in e.alarms],
           [act.title() + "Alarm" if act in ("AUDIO", "DISPLAY", "EMAIL", "NONE") else "CustomAlarm" for act in acts], "kinds of alarms %r" % acts)
    out = cal.serialize()
    b, rb = foreign.read(out)
    compare(a, b, ra, rb, note)
    again = ics.Calendar(out).serialize()
    eq(again, out, "second round")
    eq(cal.serialize(), out, "repeated export")
    ents = a.get("VEVENT", []) + a.get("VTODO", [])
    for e in ents:
        note(*["p:" + k for k in e])
        if e[""]:
            note("unknown-in-entry")
        if any(e.get(k) for k in ("CATEGORIES", "ATTENDEE", "ATTACH", "VALARM")) or e[""]:
            note.nontrivial()
    if a[""]:
        note.nontrivial()
        note("unknown-in-calendar")
    if a.get("VTIMEZONE"):
        note("own-zones")
        note.nontrivial()
    if any(u in ra.own and not u.startswith("Zone/") for u in ra.used):
        note("own-zone-shadows-bundled")


@st.composite
def url(draw):
    return draw(gen.uri().filter(lambda u: "," in u or ";" in u))


def check_url(u, note):
    """URL is a URI: separators need no escaping"""
    import ics

    t = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nBEGIN:VEVENT\r\nUID:1\r\nURL:%s\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n" % u
    note.nontrivial()
    try:
        cal = ics.Calendar(t)
    except ValueError:
        raise Known("url-separators")
    root = ref.parse_tree(cal.serialize())[0]
    ev = [n for n in root[2] if n[0] == "C"][0]
    val = [n[3] for n in ev[2] if n[1] == "URL"]
    check(val in ([u], [ref.escape_text(u)]), "URL %r became %r", u, val)


def check_rrule_param(case, note):
    """unknown parameters of the recurrence properties of zone observances"""
    import ics

    t = ("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nBEGIN:VTIMEZONE\r\nTZID:A\r\nBEGIN:STANDARD\r\nDTSTART:20000101T000000\r\n"
         "RRULE;%s=%s:FREQ=YEARLY;COUNT=3\r\nTZOFFSETFROM:+0100\r\nTZOFFSETTO:+0100\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n"
         "BEGIN:VEVENT\r\nUID:1\r\nDTSTART;TZID=A:20200101T000000\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n" % tuple(case))
    note.nontrivial()
    out = ics.Calendar(t).serialize()
    if "RRULE;%s=%s:" % tuple(case) not in out:
        check("RRULE:FREQ=YEARLY;COUNT=3" in out, "rule lost")
        raise Known("recurrence-params")


def check_unknown_zone(case, note):
    """a zone that only unknown properties refer to"""
    import ics

    z = ("BEGIN:VTIMEZONE\r\nTZID:%s\r\nBEGIN:STANDARD\r\nDTSTART:20000101T000000\r\nTZOFFSETFROM:+0100\r\nTZOFFSETTO:+0100\r\n"
         "END:STANDARD\r\nEND:VTIMEZONE\r\n")
    e = "BEGIN:VEVENT\r\nUID:1\r\nDTSTART%s:20200101T000000\r\n%s;TZID=%s:20200102T000000\r\nEND:VEVENT\r\n"
    name, tzid, same = case
    t = ("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n" + z % tzid + e % (";TZID=" + tzid if same else "", name, tzid)
         + "END:VCALENDAR\r\n")
    note.nontrivial()
    note("also used by a known property" if same else "used by an unknown property only")
    root = ref.parse_tree(ics.Calendar(t).serialize())[0]
    ev = [n for n in root[2] if n[:2] == ("C", "VEVENT")][0]
    eq([(n[2], n[3]) for n in ev[2] if n[1] == name], [([("TZID", [(False, tzid)])], "20200102T000000")], "the unknown line")
    zones = [expect.lines(n, "TZID")[0][3] for n in root[2] if n[:2] == ("C", "VTIMEZONE")]
    if not same and not zones:
        raise Known("zone-of-unknown-property")
    eq(zones, [tzid], "zones")


SUBS = [Sub("many", lambda: foreign.big(max_entries=2), check_case, quick=60, shards=2),
        Sub("foreign", lambda: foreign.calendar(), check_case, quick=900, shards=6),
        Sub("url", url, check_url, quick=20),
        Sub("rrule-param", lambda: st.tuples(gen.xname(), gen.simple_text(4).map(str.strip).filter(bool)).map(list), check_rrule_param, quick=10),
        Sub("unknown-zone", lambda: st.tuples(st.sampled_from(["EXDATE", "RDATE", "RECURRENCE-ID", "X-WHEN"]), st.sampled_from(["My/Zone", "Z1"]),
                                              st.booleans()).map(list), check_unknown_zone, quick=20)]
