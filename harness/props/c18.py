import copy
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness import foreign, gen, ref
from harness.core import Sub, check, eq, raises

RULE = ("Calendar texts of an independent writer (several entries, alarms, zones, unknown items) that import cleanly, damaged by exactly one "
        "fault of a known kind at a random component and position (also in the second or later component, in alarms and observances): "
        "missing mandatory property, repeated single-valued property, value of the wrong type or range, DATE/DATE-TIME mixture, reversed or "
        "doubled or begin-less ends, DUE/DTEND in the wrong kind, wrong component kind. The text must be accepted without and rejected "
        "with the fault, and a rejection must leave later imports unaffected. Non-trivial: every case.")
ASSUMPTIONS = ["a DATE value without VALUE=DATE is a lenient spelling and neither required nor forbidden",
               "faults in unknown components and properties are no faults"]

SINGLE = {
    "VCALENDAR": ["VERSION", "PRODID", "METHOD"],
    "VEVENT": ["SUMMARY", "UID", "DESCRIPTION", "LOCATION", "URL", "STATUS", "CREATED", "LAST-MODIFIED", "DTSTAMP", "CLASS", "ORGANIZER", "GEO",
               "DTSTART", "DTEND", "DURATION"],
    "VTODO": ["SUMMARY", "UID", "DESCRIPTION", "LOCATION", "URL", "STATUS", "CREATED", "LAST-MODIFIED", "DTSTAMP", "PERCENT-COMPLETE",
              "PRIORITY", "COMPLETED", "DTSTART", "DUE", "DURATION"],
    "VALARM": ["ACTION", "TRIGGER", "REPEAT", "DURATION"],
    "VTIMEZONE": ["TZID", "TZURL", "LAST-MODIFIED"],
    "STANDARD": ["TZOFFSETFROM", "TZOFFSETTO"],
}
SINGLE["DAYLIGHT"] = SINGLE["STANDARD"]
ALARM_SINGLE = {"AUDIO": ["ATTACH"], "DISPLAY": ["DESCRIPTION"], "EMAIL": ["DESCRIPTION", "SUMMARY"]}
NEEDED = {"VCALENDAR": ["VERSION", "PRODID"], "VALARM": ["ACTION"], "VTIMEZONE": ["TZID"], "STANDARD": ["TZOFFSETFROM", "TZOFFSETTO"]}
NEEDED["DAYLIGHT"] = NEEDED["STANDARD"]

GOOD = {"SUMMARY": "a", "UID": "u", "DESCRIPTION": "b", "LOCATION": "c", "URL": "http://e.org/", "STATUS": "CONFIRMED", "CREATED": "20200101T000000Z",
        "LAST-MODIFIED": "20200101T000000Z", "DTSTAMP": "20200101T000000Z", "CLASS": "PUBLIC", "ORGANIZER": "mailto:a@b", "GEO": "1.5;2.5",
        "PERCENT-COMPLETE": "50", "PRIORITY": "5", "COMPLETED": "20200101T000000Z", "METHOD": "PUBLISH", "VERSION": "2.0", "PRODID": "x",
        "ACTION": "AUDIO", "TRIGGER": "-PT5M", "REPEAT": "1", "DURATION": "PT5M", "TZURL": "http://e.org/", "TZNAME": "N", "COMMENT": "k",
        "ATTACH": "http://e.org/a", "DTSTART": "20200101T000000Z", "TZOFFSETFROM": "+0100", "TZOFFSETTO": "+0100", "TZID": "T"}
BADTIME = ["", "x", "20201301T000000Z", "20200101T250000Z", "20200230T000000Z", "now", "2020-W01", "20200101T000000+0100", "PT5M", "1"]
BADDUR = ["", "P", "5M", "PT5", "PT5X", "P5", "-", "20200101T000000Z", "PTM", "P1Y", "P1M", "one day", "PT1.5H"]
BADDUR.remove("P")
BADINT = ["", "x", "1.5", "1_0", " 1", "0x1", "--1", "1e1", "TRUE"]
BAD = {"DTSTART": BADTIME, "DTEND": BADTIME, "DUE": BADTIME, "CREATED": BADTIME, "LAST-MODIFIED": BADTIME, "DTSTAMP": BADTIME, "COMPLETED": BADTIME,
       "DURATION": BADDUR, "TRIGGER": BADDUR, "REPEAT": BADINT, "PERCENT-COMPLETE": BADINT + ["101", "-1", "1000"], "PRIORITY": BADINT + ["10", "-1", "99"],
       "GEO": ["", "1.5", "1.5,2.5", "a;b", "1;2;3", ";", "1;", ";1"], "STATUS": ["", "FINAL", "DRAFT", "confirmed!"],
       "TZOFFSETFROM": ["", "0100x", "+1", "+01", "+2400", "+0160", "x", "+010", "PT1H"], "TZOFFSETTO": ["", "x", "+1", "+9900", "+0060", "-01000"],
       "RRULE": ["", "x", "FREQ=SOMETIMES", "COUNT=5", "FREQ=YEARLY;COUNT=x", "FREQ=YEARLY;BYMONTH=x", "FREQ=YEARLY;UNTIL=x", "FREQ=YEARLY;FOO=1"]}
TYPES = {"SUMMARY": "TEXT", "UID": "TEXT", "DESCRIPTION": "TEXT", "LOCATION": "TEXT", "STATUS": "TEXT", "CREATED": "DATE-TIME", "LAST-MODIFIED": "DATE-TIME",
         "DTSTAMP": "DATE-TIME", "CLASS": "TEXT", "PERCENT-COMPLETE": "INTEGER", "PRIORITY": "INTEGER", "COMPLETED": "DATE-TIME", "REPEAT": "INTEGER",
         "METHOD": "TEXT", "VERSION": "TEXT", "PRODID": "TEXT", "TZNAME": "TEXT", "COMMENT": "TEXT", "TZID": "TEXT", "TZURL": "URI",
         "DTSTART": "DATE-TIME", "DTEND": "DATE-TIME", "DUE": "DATE-TIME", "TZOFFSETFROM": "UTC-OFFSET", "TZOFFSETTO": "UTC-OFFSET"}


def targets(nodes):
    """paths of known components -> [(kind, path, action)]"""
    out = [("VCALENDAR", (), None)]
    for i, n in enumerate(nodes):
        if n[0] == "C" and n[1].upper() in ("VEVENT", "VTODO", "VTIMEZONE"):
            out.append((n[1].upper(), (i,), None))
            for j, k in enumerate(n[2]):
                if k[0] != "C":
                    continue
                if k[1].upper() == "VALARM" and n[1].upper() != "VTIMEZONE":
                    act = [l[3] for l in k[2] if l[0] == "L" and l[1].upper() == "ACTION"][0]
                    out.append(("VALARM", (i, j), act))
                elif k[1].upper() in ("STANDARD", "DAYLIGHT") and n[1].upper() == "VTIMEZONE":
                    out.append((k[1].upper(), (i, j), None))
    return out


def body(nodes, path):
    for i in path:
        nodes = nodes[i][2]
    return nodes


def is_line(n, names):
    return n[0] == "L" and n[1].upper() in names


FAULTS = ["times", "twice", "value", "value", "type", "missing", "twice", "times", "kind"]


@st.composite
def case(draw):
    fault = draw(st.sampled_from(FAULTS))
    base = draw(foreign.some(3))
    nodes = base["nodes"]
    if draw(st.booleans()):  # make sure there is something deep to damage, also after sound components
        for k in draw(st.lists(st.sampled_from(["VEVENT", "VTODO"]), min_size=1, max_size=2)):
            nodes.insert(draw(st.integers(0, len(nodes))), ["C", k, [["L", "UID", [], "z"], ["C", "VALARM", draw(alarm_lines())]]])
        if draw(st.booleans()):
            nodes.append(draw(foreign.zone_node(draw(gen.zone(tzid="Fault/Zone")), extras=False)))
    ts = targets(nodes)
    good = nodes
    if fault == "missing":
        kind, path, _ = draw(st.sampled_from([t for t in ts if t[0] in NEEDED]))
        name = draw(st.sampled_from(NEEDED[kind]))
        bad = copy.deepcopy(good)
        b = body(bad, path)
        b[:] = [n for n in b if not is_line(n, [name])]
        if draw(st.booleans()) and name != "ACTION":
            # the property of that name elsewhere does not help
            b.insert(draw(st.integers(0, len(b))), ["C", "X-COMP", [["L", name, [], GOOD[name]]]])
    elif fault == "twice":
        kind, path, act = draw(st.sampled_from(ts))
        name = draw(st.sampled_from(SINGLE[kind] + (ALARM_SINGLE.get((act or "").upper(), []) if kind == "VALARM" else [])))
        good = copy.deepcopy(good)
        b = body(good, path)
        have = [n for n in b if is_line(n, [name])]
        if name in ("DTSTART", "DTEND", "DUE", "DURATION") and not have and kind in ("VEVENT", "VTODO"):
            have = [insert(draw, b, times_good(kind, name))]
            have = [n for n in b if is_line(n, [name])]
        elif not have:
            have = [insert(draw, b, [["L", name, [], GOOD[name]]])]
            have = [n for n in b if is_line(n, [name])]
        bad = copy.deepcopy(good)
        again = copy.deepcopy(have[0])
        if draw(st.booleans()) and name in GOOD and not again[2]:
            again[3] = GOOD[name]
        again[1] = draw(st.sampled_from([name, name.lower()]))
        bb = body(bad, path)
        bb.insert(draw(st.integers(0, len(bb))), again)
    elif fault in ("value", "type"):
        table = BAD if fault == "value" else TYPES
        opts = []
        for kind, path, act in ts:
            opts += [(kind, path, n) for n in SINGLE[kind] if n in table]
            if kind in ("STANDARD", "DAYLIGHT") and fault == "value":
                opts.append((kind, path, "RRULE"))
                opts.append((kind, path, "DTSTART"))
        kind, path, name = draw(st.sampled_from(opts))
        good = copy.deepcopy(good)
        b = body(good, path)
        if kind in ("STANDARD", "DAYLIGHT") and name == "DTSTART":
            value = draw(st.sampled_from(["", "x", "20201301T000000", "20200230T000000"]))
        elif fault == "value":
            value = draw(st.sampled_from(BAD[name]))
        have = [n for n in b if is_line(n, [name])]
        if not have or name in ("DTSTART", "DTEND", "DUE", "DURATION") and kind in ("VEVENT", "VTODO"):
            if name in ("DTSTART", "DTEND", "DUE", "DURATION") and kind in ("VEVENT", "VTODO"):
                insert(draw, b, times_good(kind, name))
            elif name == "RRULE":
                insert(draw, b, [["L", "RRULE", [], "FREQ=YEARLY;COUNT=1"]])
            else:
                insert(draw, b, [["L", name, [], GOOD[name]]])
        bad = copy.deepcopy(good)
        n = [n for n in body(bad, path) if is_line(n, [name])][0]
        if fault == "value":
            n[3] = value
            if name == "TRIGGER":
                n[2] = [p for p in n[2] if p[0] != "VALUE"]
        else:
            other = draw(st.sampled_from(sorted({"TEXT", "INTEGER", "DATE-TIME", "DATE", "BINARY", "BOOLEAN", "DURATION", "X-UNKNOWN", "FLOAT", "URI",
                                                 "PERIOD", "text", ""} - {TYPES[name], TYPES[name].lower()})))
            vals = [other] if draw(st.integers(0, 4)) or name in ("DTSTART", "DTEND", "DUE") else [TYPES[name], other]
            if name in ("DTSTART", "DTEND", "DUE") and other == "DATE":
                other = "TIME"
                vals = [other]
            n[2] = [p for p in n[2] if p[0] != "VALUE"] + [["VALUE", [[False, v] for v in vals]]]
    elif fault == "times":
        ents = [t for t in ts if t[0] in ("VEVENT", "VTODO")]
        if not ents:
            nodes.append(["C", draw(st.sampled_from(["VEVENT", "VTODO"])), []])
            ents = [t for t in targets(nodes) if t[0] in ("VEVENT", "VTODO")]
        kind, path, _ = draw(st.sampled_from(ents))
        good, bad = copy.deepcopy(nodes), copy.deepcopy(nodes)
        g, d, name = draw(times_fault(kind))
        fault = name
        for tree, ls in ((good, g), (bad, d)):
            b = body(tree, path)
            b[:] = [n for n in b if not is_line(n, ["DTSTART", "DTEND", "DUE", "DURATION"])]
        spots = [draw(st.integers(0, 50)) for _ in range(4)]
        for tree, ls in ((good, g), (bad, d)):
            b = body(tree, path)
            for k, l in enumerate(ls):
                b.insert(min(spots[k], len(b)), l)
    else:
        kids = [t for t in ts if t[0] in ("VEVENT", "VTODO", "VTIMEZONE", "VALARM")]
        bad = draw(st.sampled_from(["VEVENT", "VTODO", "VTIMEZONE", "VALARM", "X-CAL", "VJOURNAL", "VCALENDARS", "line-before", "line-after", "twice", "empty"]))
        return {"good": good, "kind": bad, "fold": base["fold"], "eol": base["eol"], "fault": fault,
                "which": draw(st.sampled_from(kids))[1] if kids else None}
    return {"good": good, "bad": bad, "fold": base["fold"], "eol": base["eol"], "fault": fault}


def alarm_lines():
    return st.sampled_from(["AUDIO", "DISPLAY", "EMAIL", "X-RING", "NONE"]).map(
        lambda a: [["L", "ACTION", [], a], ["L", "TRIGGER", [], "-PT1M"]])


def insert(draw, b, lines):
    names = [l[1] for l in lines]
    if set(names) & {"DTSTART", "DTEND", "DUE", "DURATION"} and not any(is_line(n, ["TZOFFSETTO", "ACTION"]) for n in b):
        b[:] = [n for n in b if not is_line(n, ["DTSTART", "DTEND", "DUE", "DURATION"])]
    for l in lines:
        b.insert(draw(st.integers(0, len(b))), l)


def times_good(kind, name):
    s = ["L", "DTSTART", [], "20200101T000000Z"]
    if name == "DURATION":
        return [s, ["L", "DURATION", [], "PT5M"]]
    if name in ("DTEND", "DUE"):
        return [s, ["L", name, [], "20200102T000000Z"]]
    return [s]


@st.composite
def times_fault(draw, kind):
    """-> good lines, bad lines, name"""
    end = "DUE" if kind == "VTODO" else "DTEND"
    wrong = "DTEND" if kind == "VTODO" else "DUE"
    y = datetime(*draw(gen.ymdhms(1000, 9000)))
    allday = draw(st.booleans())
    D = [["VALUE", [[False, "DATE"]]]]
    tz = draw(st.sampled_from(["", "Z", "tz"]))
    z = [["TZID", [[False, "Europe/Berlin"]]]] if tz == "tz" else []

    def L(name, t, day=allday):
        return ["L", name, D if day else list(z), ref.fmt_date(t) if day else ref.fmt_dt(t, utc=tz == "Z")]

    gap = timedelta(days=draw(st.integers(3, 20))) + timedelta(seconds=0 if allday else draw(st.integers(0, 90000)))
    dur = ["L", "DURATION", [], draw(st.sampled_from(["P1D", "P2W", "P3D"] if allday else ["PT5M", "P1D", "PT0S"]))]
    good = [L("DTSTART", y), L(end, y + gap)]
    f = draw(st.sampled_from(["mixed", "mixed", "reversed", "both", "beginless-end", "beginless-duration", "wrong-end", "day-too-fine", "both-ends",
                              "negative-duration", "equal-days"]))
    if f == "mixed":
        if draw(st.booleans()):
            y = y.replace(hour=0, minute=0, second=0)
        if draw(st.booleans()):
            tz, z = "", []
            good = [L("DTSTART", y), L(end, y + gap)]
        first = draw(st.booleans())
        bad = [L("DTSTART", y, first), L(end, y + gap, not first)]
    elif f == "reversed":
        bad = [L("DTSTART", y + gap), L(end, y)]
    elif f == "both":
        bad = good + [dur]
    elif f == "beginless-end":
        if kind == "VTODO":
            return [L("DUE", y)], [dur, L("DUE", y)], f
        bad = [L(end, y)]
    elif f == "beginless-duration":
        bad = [dur]
    elif f == "wrong-end":
        bad = [L("DTSTART", y), L(wrong, y + gap)]
    elif f == "both-ends":
        bad = good + [L(wrong, y + gap)]
    elif f == "negative-duration":
        bad = [L("DTSTART", y), ["L", "DURATION", [], "-" + draw(st.sampled_from(["P1D", "PT5M", "P1W"]))]]
    elif f == "equal-days":
        bad = [L("DTSTART", y, True), L(end, y, True)]
    else:
        good = [L("DTSTART", y, True), ["L", "DURATION", [], "P1D"]]
        bad = [L("DTSTART", y, True), ["L", "DURATION", [], draw(st.sampled_from(["PT5M", "P1DT1S", "PT25H"]))]]
    order = draw(st.permutations(range(len(bad))))
    return good, [bad[i] for i in order], f


def check_case(c, note):
    import ics

    note.nontrivial()
    note(c["fault"])
    text = foreign.text_of(dict(c, nodes=c["good"]))
    try:
        cal = ics.Calendar(text)
    except Exception as e:
        check(False, "sound text rejected with %r", e)
    if c["fault"] == "kind":
        return check_kind(c, text, note)
    bad = foreign.text_of(dict(c, nodes=c["bad"]))
    for how in ("Calendar", "parse_multiple"):
        err = raises(ics.Calendar if how == "Calendar" else ics.Calendar.parse_multiple, bad)
        check(err, "%s accepted with the fault %s:\n%s", how, c["fault"], bad)
        note(type(err).__name__)
    check(raises(ics.Calendar.parse_multiple, text + bad), "accepted as second calendar")
    check(raises(ics.Calendar.parse_multiple, bad + text), "accepted as first calendar")
    ics.Calendar(text)


def check_kind(c, text, note):
    import ics
    from ics.contentline import string_to_containers
    from ics.timezone import Timezone

    k = c["kind"]
    note("kind:" + k)
    lines = text.split(c["eol"])
    assert lines[0] == "BEGIN:VCALENDAR"
    if k == "line-before":
        bad = "X-A:1" + c["eol"] + text
    elif k == "line-after":
        bad = text + "X-A:1" + c["eol"]
    elif k == "twice":
        bad = text + text
    elif k == "empty":
        bad = ""
    else:
        bad = text.replace("BEGIN:VCALENDAR", "BEGIN:" + k, 1)
        bad = bad[:bad.rindex("END:VCALENDAR")] + "END:" + k + c["eol"]
    check(raises(ics.Calendar, bad), "%s loaded as one calendar", k)
    if k in ("line-before", "line-after"):
        check(raises(ics.Calendar.parse_multiple, bad), "%s loaded as calendars", k)
    if c["which"] is None:
        return
    # a component of another kind
    tree = list(string_to_containers(text))[0]
    for i in range(len(c["which"])):
        kids = [n for n in tree]
        tree = kids[c["which"][i]]
    classes = {"VEVENT": ics.Event, "VTODO": ics.Todo, "VTIMEZONE": Timezone, "VCALENDAR": ics.Calendar}
    for name, cls in classes.items():
        if name == tree.name:
            if "TZID=" not in text:  # a lone component can't refer to the zones of its calendar
                cls.from_container(tree)
        else:
            check(raises(cls.from_container, tree), "%s loaded from %s", cls.__name__, tree.name)
            if name != "VTIMEZONE":
                check(raises(cls().populate, tree), "%s populated from %s", cls.__name__, tree.name)
    if tree.name != "VALARM":
        check(raises(ics.DisplayAlarm.from_container, tree), "alarm loaded from %s", tree.name)


@st.composite
def times_case(draw):
    """only the times, between sound entries"""
    nodes = []
    for k in draw(st.lists(st.sampled_from(["VEVENT", "VTODO"]), min_size=1, max_size=3)):
        nodes.append(["C", k, [["L", "UID", [], "u%d" % len(nodes)]] + draw(st.sampled_from([[], times_good(k, "DTSTART"), times_good(k, "DURATION")]))])
    i = draw(st.integers(0, len(nodes) - 1))
    g, d, name = draw(times_fault(nodes[i][1]))
    head = [["L", "VERSION", [], "2.0"], ["L", "PRODID", [], "x"]]
    out = {"fold": 0, "eol": draw(st.sampled_from(["\r\n", "\n"])), "fault": "lone:" + name}
    for key, ls in (("good", g), ("bad", d)):
        out[key] = head + nodes[:i] + [["C", nodes[i][1], ls[:1] + [["L", "UID", [], "f"]] + ls[1:]]] + nodes[i + 1:]
    return out


SUBS = [Sub("fault", case, check_case, quick=1500, shards=8), Sub("times", times_case, check_case, quick=2500)]
