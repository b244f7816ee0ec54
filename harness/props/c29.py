import copy
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness import build, foreign, gen, ref
from harness.core import Known, Sub, check, eq
from harness.props.c07 import compare

RULE = ("A calendar file written by another program is imported, then up to 8 random edits are made (set or clear a text, number, stamp, "
        "position or participant of an entry; new begin, end, duration or span in its own, a bundled, the UTC or another entry's zone; "
        "all-day; add, change or drop alarms; change single categories, participants or attachments; add or drop unknown items; add, drop "
        "or reorder entries; calendar properties), with exports in between; the last export is read by an independent reader and compared "
        "with the canonical reading of the original file to which the same edits were applied. Non-trivial: at least two edits took effect.")
ASSUMPTIONS = ["the lengths of the lists of an imported entry are not changed (a known finding)", "unknown parameters of a changed property stay",
               "times exist in their zone"]
TECHNIQUE = "stateful differential testing: the edits are applied to the objects and to an independent reading of the file"

TEXTS = {"summary": "SUMMARY", "description": "DESCRIPTION", "location": "LOCATION", "classification": "CLASS", "uid": "UID", "url": "URL"}
STAMPS = {"created": "CREATED", "last_modified": "LAST-MODIFIED", "dtstamp": "DTSTAMP", "completed": "COMPLETED"}
NUMS = {"percent": ("PERCENT-COMPLETE", 100), "priority": ("PRIORITY", 9)}
OPS = ["text"] * 4 + ["stamp", "num", "status", "geo", "org", "begin", "begin", "end", "end", "dur", "dur", "span", "span", "span", "allday", "alarm-add",
                      "alarm-del", "alarm-trigger", "alarm-trigger", "alarm-text", "cat", "att", "att-cn", "attach", "x-add", "x-del", "ev-add",
                      "ev-del", "ev-rev", "cal", "cal-x", "export", "export"]


@st.composite
def edit(draw, ops=OPS):
    op = draw(st.sampled_from(ops))
    e = {"op": op, "i": draw(st.integers(0, 5)), "j": draw(st.integers(0, 5))}
    if op in ("text", "alarm-text", "cat", "att-cn", "x-add", "cal", "cal-x", "ev-add"):
        e["k"] = draw(st.sampled_from(sorted(TEXTS)))
        e["v"] = draw(gen.text(4, newlines=op not in ("x-add", "cal-x")))
        e["none"] = draw(st.integers(0, 3)) == 3
    if op == "stamp":
        e["k"] = draw(st.sampled_from(sorted(STAMPS)))
        e["t"] = draw(gen.ymdhms(1000, 9000))
        e["tz"] = draw(st.sampled_from(gen.UTCS))
        e["none"] = draw(st.integers(0, 3)) == 3
    if op == "num":
        e["k"] = draw(st.sampled_from(sorted(NUMS)))
        e["v"] = draw(gen.opt(st.integers(0, NUMS[e["k"]][1]), 4)) if draw(st.booleans()) else 5
    if op == "status":
        e["v"] = draw(st.sampled_from([None, "CONFIRMED", "CANCELLED"]))
    if op == "geo":
        e["v"] = draw(st.sampled_from([None, [1.5, -2.25], [89.0, 0.125]]))
    if op in ("org", "att"):
        e["v"] = draw(gen.uri())
        e["cn"] = draw(gen.opt(gen.text(2)))
        e["none"] = draw(st.integers(0, 2)) == 2
    if op in ("begin", "end", "span", "ev-add", "alarm-trigger", "alarm-add"):
        e["t"] = draw(gen.ymdhms(1971, 2037))
        e["tz"] = draw(st.sampled_from([None, "same", "same", "other", "u:dt", "u:zi", "i:Europe/Berlin", "i:Asia/Tokyo", "z:America/New_York"]))
    if op in ("end", "dur", "span", "alarm-trigger", "alarm-add"):
        e["d"] = draw(st.one_of(st.integers(0, 40).map(lambda n: 1800 * n), st.integers(1, 20).map(lambda n: 86400 * n), st.integers(0, 10 ** 6)))
    if op == "span":
        e["kind"] = draw(st.sampled_from(["begin", "end", "dur", "day", "day_end", "day_dur", "empty", "due"]))
    if op == "dur":
        e["none"] = draw(st.integers(0, 3)) == 3
    if op == "alarm-trigger":
        e["abs"] = draw(st.booleans())
    if op == "attach":
        e["v"] = draw(gen.uri())
    if op == "x-add":
        e["item"] = draw(gen.extra_item())
    if op == "cal":
        e["m"] = draw(st.sampled_from(["method", "prodid"]))
    if op == "cal-x":
        e["item"] = draw(gen.extra_item())
    return e


@st.composite
def case(draw):
    edits = draw(st.lists(edit(), min_size=1, max_size=8))
    always, focus = draw(st.booleans()), draw(st.booleans())
    if focus:  # several edits of one entry, or of one aspect
        i, ops = edits[0]["i"], draw(st.sampled_from([None, None, ["alarm-trigger", "alarm-text"], ["begin", "end", "dur", "span", "allday"]]))
        edits = [dict(e, i=i) for e in edits]
        if ops:
            edits += [dict(e, i=i) for e in draw(st.lists(edit(ops), min_size=1, max_size=4))]
    alarms = [draw(foreign.alarm()) for _ in range(draw(st.integers(1, 2)))] if any(e["op"].startswith("alarm") for e in edits) else []
    cal = draw(foreign.some(3, hi=2150))
    for n in cal["nodes"]:
        if alarms and n[0] == "C" and n[1].upper() in ("VEVENT", "VTODO") and not any(k[0] == "C" and k[1].upper() == "VALARM" for k in n[2]):
            n[2].append(alarms.pop())
    return {"edits": edits, "always": always, "cal": cal}


def fmt(d):
    return ref.fmt_dt(d.replace(tzinfo=None))


class World:
    """the imported calendar next to the canonical reading of its file"""

    def __init__(self, text):
        import ics

        self.canon, self.reader = foreign.read(text)
        self.cal = ics.Calendar(text)
        self.ents = [(o, c) for o, c in zip(self.cal.events, self.canon.get("VEVENT", []))]
        self.ents += [(o, c) for o, c in zip(self.cal.todos, self.canon.get("VTODO", []))]
        eq(len(self.ents), len(self.cal.events) + len(self.cal.todos), "number of entries")
        self.rests = {}  # unknown parameters of single properties, which outlive the value
        for o, c in self.ents:
            self.learn(o, c)
            for al, ac in zip(o.alarms, c.get("VALARM", [])):
                self.learn(al, ac)

    def learn(self, o, c):
        for k, v in c.items():
            if k and k != "VALARM" and len(v) == 1:
                self.rests[id(o), k] = v[0][-1]

    def put(self, o, c, name, *vals):
        """one property of the canonical reading becomes vals, or is dropped"""
        c.pop(name, None)
        if vals:
            c[name] = [tuple(vals) + (self.rests.get((id(o), name), []),)]

    def when(self, d, zone):
        if zone == "date":
            return ("DATE", ref.fmt_date(d))
        return ("DT", fmt(d), zone)

    def tz(self, e, o, c):
        """-> (tzinfo, its canonical name) of an edit"""
        t = e["tz"]
        if t in ("same", "other"):
            o2, c2 = (o, c) if t == "same" else self.ents[e["j"] % len(self.ents)]
            for n, f in (("DTSTART", "begin"), ("DTEND", "end"), ("DUE", "due")):
                if c2.get(n) and c2[n][0][0] == "DT":
                    d = getattr(o2, f)
                    return d.tzinfo, c2[n][0][2]
            return None, None
        if t is None:
            return None, None
        z = t.partition(":")[2]
        return build.tz_of(t), "utc" if t[0] == "u" else z

    def zone_of(self, c, names):
        for n in names:
            if c.get(n):
                v = c[n][0]
                return "date" if v[0] == "DATE" else v[2]
        return None


def fits(op, o, c):
    """the edit has something to work on"""
    import ics

    event = isinstance(o, ics.Event)
    return {"num": not event, "geo": event, "org": event, "cat": event and o.categories, "att": event and o.attendees,
            "att-cn": event and o.attendees, "attach": o.attach, "x-del": c[""], "alarm-del": o.alarms, "alarm-trigger": o.alarms,
            "alarm-text": any(isinstance(a, (ics.DisplayAlarm, ics.EmailAlarm)) for a in o.alarms), "end": o.begin is not None,
            "dur": o.begin is not None, "allday": o.begin is not None}.get(op, True)


def apply(w, e, note):
    """one edit on both sides -> whether it took effect"""
    import ics
    from ics.geo import Geo
    from ics.timespan import EventTimespan, TodoTimespan

    op, cal = e["op"], w.cal
    if op == "export":
        cal.serialize()
        return False
    if op == "cal":
        v = e["v"]
        if e["m"] == "prodid":
            cal.prodid = v
            w.canon["PRODID"] = [(v, w.canon["PRODID"][0][1])]
        else:
            r = [x[1] for x in w.canon.get("METHOD", [])] or [getattr(w, "method", [])]
            w.method = r[0]
            cal.method = None if e["none"] else v
            w.canon.pop("METHOD", None)
            if not e["none"]:
                w.canon["METHOD"] = [(v, r[0])]
        return True
    if op == "cal-x":
        cal.extra.append(build.item_of(e["item"]))
        w.canon[""].append(raw(e["item"]))
        return True
    if op == "ev-add":
        tz, zn = w.tz(dict(e, tz="u:dt" if e["tz"] in ("same", "other") else e["tz"]), None, None)
        d = datetime(*e["t"], tzinfo=tz)
        o = ics.Event(e["v"], d, uid="added-" + str(e["j"]))
        c = {"": [], "SUMMARY": [(e["v"], [])], "UID": [(o.uid, [])], "DTSTART": [w.when(d, zn) + ([],)]}
        cal.events.append(o)
        w.canon.setdefault("VEVENT", []).append(c)
        w.ents.insert(len(cal.events) - 1, (o, c))
        return True
    if op == "ev-rev":
        if not cal.events:
            return False
        cal.events = list(reversed(cal.events))
        w.canon["VEVENT"].reverse()
        n = len(cal.events)
        w.ents[:n] = w.ents[:n][::-1]
        return n > 1
    if not w.ents:
        return False
    i = [k % len(w.ents) for k in range(e["i"], e["i"] + len(w.ents))]
    i = ([k for k in i if fits(op, *w.ents[k])] or i)[0]
    o, c = w.ents[i]
    todo = isinstance(o, ics.Todo)
    endn = "DUE" if todo else "DTEND"
    if op == "ev-del":
        name = "VTODO" if todo else "VEVENT"
        lst = cal.todos if todo else cal.events
        at = [k for k, x in enumerate(lst) if x is o][0]
        del lst[at]
        del w.canon[name][at]
        if not w.canon[name]:
            del w.canon[name]
        del w.ents[i]
        w.gone = getattr(w, "gone", []) + [o]  # keep ids unique
        return True
    if op == "text":
        k = e["k"]
        if k == "classification" and todo:
            return False
        if k == "url":
            v = "http://e.org/" + str(len(e["v"]))
        else:
            v = e["v"] or "v"
        if k != "uid" and e["none"]:
            v = None
        setattr(o, k, v)
        w.put(o, c, TEXTS[k], *([] if v is None else [v]))
        return True
    if op == "stamp":
        k = e["k"]
        if k == "completed" and not todo:
            return False
        d = None if e["none"] and k != "dtstamp" else datetime(*e["t"], tzinfo=build.tz_of(e["tz"]))
        setattr(o, k, d)
        if d is None:
            w.put(o, c, STAMPS[k])
        elif k == "completed":
            w.put(o, c, STAMPS[k], "DT", fmt(d), "utc")
        else:
            w.put(o, c, STAMPS[k], fmt(d) + "Z")
        return True
    if op == "num":
        if not todo:
            return False
        setattr(o, e["k"], e["v"])
        w.put(o, c, NUMS[e["k"]][0], *([] if e["v"] is None else [e["v"]]))
        return True
    if op == "status":
        o.status = e["v"]
        w.put(o, c, "STATUS", *([] if e["v"] is None else [e["v"]]))
        return True
    if op == "geo":
        if todo:
            return False
        o.geo = None if e["v"] is None else Geo(*e["v"])
        w.put(o, c, "GEO", *([] if e["v"] is None else [e["v"]]))
        return True
    if op == "org":
        if todo:
            return False
        c.pop("ORGANIZER", None)
        o.organizer = None
        if not e["none"]:
            o.organizer = person(ics.Organizer, e)
            c["ORGANIZER"] = [(e["v"], [] if e["cn"] is None else [("CN", [e["cn"]])])]
        return True
    if op in ("begin", "end", "dur", "span", "allday"):
        old = copy.deepcopy(c)
        before = o.timespan
        try:
            times(w, e, o, c, todo, endn)
        except (ValueError, TypeError):
            # whether the new times are acceptable is decided by other properties
            check(o.timespan is before, "refused edit changed the span")
            c.clear()
            c.update(old)
            note("refused:" + op)
            return False
        return c != old
    if op == "cat":
        if todo or not o.categories:
            return False
        j = e["j"] % len(o.categories)
        o.categories[j] = e["v"]
        lines = c["CATEGORIES"]
        for k, (vals, rest) in enumerate(lines):
            if j < len(vals):
                lines[k] = (vals[:j] + [e["v"]] + vals[j + 1:], rest)
                return True
            j -= len(vals)
        raise AssertionError
    if op in ("att", "att-cn"):
        if todo or not o.attendees:
            return False
        j = e["j"] % len(o.attendees)
        if op == "att":
            o.attendees[j] = person(ics.Attendee, e)
            c["ATTENDEE"][j] = (e["v"], [] if e["cn"] is None else [("CN", [e["cn"]])])
        else:
            o.attendees[j].common_name = e["v"]
            email, rest = c["ATTENDEE"][j]
            c["ATTENDEE"][j] = (email, sorted([p for p in rest if p[0] != "CN"] + [("CN", [e["v"]])]))
        return True
    if op == "attach":
        if not o.attach:
            return False
        j = e["j"] % len(o.attach)
        kind, val, rest = c["ATTACH"][j]
        if kind == ["BINARY"]:
            return False
        o.attach[j] = build.uri_of(e["v"])
        c["ATTACH"][j] = (kind, e["v"], rest)
        return True
    if op == "x-add":
        o.extra.append(build.item_of(e["item"]))
        c[""].append(raw(e["item"]))
        return True
    if op == "x-del":
        if not c[""]:
            return False
        j = e["j"] % len(c[""])
        del o.extra[j]
        del c[""][j]
        return True
    if op == "alarm-add":
        al = ics.DisplayAlarm(timedelta(seconds=-e["d"]), description="d%d" % e["j"])
        o.alarms.append(al)
        c.setdefault("VALARM", []).append({"": [], "ACTION": [("DISPLAY", [])], "TRIGGER": [("rel", -e["d"], [])],
                                           "DESCRIPTION": [("d%d" % e["j"], [])]})
        return True
    if not o.alarms:
        return False
    j = e["j"] % len(o.alarms)
    al, ac = o.alarms[j], c["VALARM"][j]
    if op == "alarm-del":
        del o.alarms[j]
        del c["VALARM"][j]
        if not c["VALARM"]:
            del c["VALARM"]
        w.gone = getattr(w, "gone", []) + [al]
    elif op == "alarm-trigger":
        if e["abs"]:
            al.trigger = datetime(*e["t"], tzinfo=build.tz_of("u:dt"))
            w.put(al, ac, "TRIGGER", "at", fmt(al.trigger) + "Z")
        else:
            al.trigger = timedelta(seconds=-e["d"])
            w.put(al, ac, "TRIGGER", "rel", -e["d"])
    else:
        if not isinstance(al, (ics.DisplayAlarm, ics.EmailAlarm)):
            return False
        al.description = e["v"]
        w.put(al, ac, "DESCRIPTION", e["v"])
    return True


def person(cls, e):
    p = cls(build.uri_of(e["v"]))
    if e["cn"] is not None:
        p.common_name = e["cn"]
    return p


def raw(x):
    if x[0] == "C":
        return ("C", x[1].upper(), [raw(k) for k in x[2]])
    return ("L", x[1].upper(), [(k.upper(), list(v)) for k, v in x[2]], x[3])


def times(w, e, o, c, todo, endn):
    from ics.timespan import EventTimespan, TodoTimespan

    op = e["op"]
    if op == "allday":
        old = o.end_representation
        if o.all_day:
            return
        o.make_all_day()
        b, en = o.begin, o.end
        for n in ("DTSTART", endn, "DURATION"):
            c.pop(n, None)
        if b is not None:
            w.put(o, c, "DTSTART", *w.when(b, "date"))
        if o.end_representation == "end":
            w.put(o, c, endn, *w.when(en, "date"))
        if o.end_representation == "duration":
            w.put(o, c, "DURATION", int(o.duration.total_seconds()))
        return
    if op == "dur":
        d = None if e["none"] else timedelta(seconds=e["d"])
        o.duration = d
        c.pop(endn, None)
        w.put(o, c, "DURATION", *([] if d is None else [e["d"]]))
        return
    tz, zn = w.tz(e, o, c)
    d = datetime(*e["t"], tzinfo=tz)
    if op == "begin":
        if o.all_day:
            d, zn = datetime(*e["t"][:3]), "date"
        o.begin = d
        w.put(o, c, "DTSTART", *w.when(d, zn))
    elif op == "end":
        if o.all_day:
            d, zn = datetime(*e["t"][:3]), "date"
        elif o.begin is not None:
            d, zn = o.begin + timedelta(seconds=e["d"]), w.zone_of(c, ["DTSTART"])
        if todo:
            o.due = d
        else:
            o.end = d
        c.pop("DURATION", None)
        w.put(o, c, endn, *w.when(d, zn))
    else:
        k = e["kind"]
        cls = TodoTimespan if todo else EventTimespan
        day = k.startswith("day")
        if day:
            d, zn = datetime(*e["t"][:3]), "date"
        gap = timedelta(days=1 + e["d"] // 86400) if day else timedelta(seconds=e["d"])
        args = {"begin": (d,), "end": (d, d + gap), "dur": (d, None, gap), "day": (d, None, None, "day"), "day_end": (d, d + gap, None, "day"),
                "day_dur": (d, None, gap, "day"), "empty": (), "due": (None, d)}[k]
        o.timespan = cls(*args)
        for n in ("DTSTART", endn, "DURATION"):
            c.pop(n, None)
        if args and args[0] is not None:
            w.put(o, c, "DTSTART", *w.when(d, zn))
        if len(args) > 1 and args[1] is not None:
            w.put(o, c, endn, *w.when(args[1], zn))
        if len(args) > 2 and args[2] is not None:
            w.put(o, c, "DURATION", int(gap.total_seconds()))


def check_case(c, note):
    import ics

    w = World(foreign.text_of(c["cal"]))
    took = 0
    for e in c["edits"]:
        if c["always"]:
            w.cal.serialize()
        t = apply(w, e, note)
        took += t
        note(("took:" if t else "skipped:") + e["op"])
    note.nontrivial(took > 1)
    out = w.cal.serialize()
    b, rb = foreign.read(out)
    want = {k: v for k, v in w.canon.items() if v or k == ""}
    compare(want, b, w.reader, rb, note)
    eq(ics.Calendar(out).serialize(), out, "export of the re-import")


# ------------------------------------------------------------------ lists of another length


def s_length():
    return st.fixed_dictionaries(dict(what=st.sampled_from(["categories", "attendees", "attach"]), how=st.sampled_from(["append", "remove"]),
                                      n=st.integers(1, 3), at=st.integers(0, 2)))


def check_length(c, note):
    import ics

    name, val = {"categories": ("CATEGORIES", "c%d"), "attendees": ("ATTENDEE", "mailto:p%d@x"), "attach": ("ATTACH", "http://x/%d")}[c["what"]]
    lines = ["%s:%s" % (name, val % k) for k in range(c["n"])]
    text = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:1", "SUMMARY:s"] + lines + ["END:VEVENT", "END:VCALENDAR", ""])
    cal = ics.Calendar(text)
    lst = getattr(cal.events[0], c["what"])
    new = {"categories": "new", "attendees": ics.Attendee("mailto:new"), "attach": build.uri_of("http://x/new")}[c["what"]]
    want = [val % k for k in range(c["n"])]
    if c["how"] == "append":
        lst.append(new)
        want.append({"categories": "new", "attendees": "mailto:new", "attach": "http://x/new"}[c["what"]])
    else:
        del lst[c["at"] % c["n"]], want[c["at"] % c["n"]]
    note.nontrivial()
    try:
        out = cal.serialize()
    except ValueError as e:
        check("length of extra params" in str(e), "%r", e)
        raise Known("list-length")
    got = [l[3] for ev in ref.parse_tree(out)[0][2] if ev[0] == "C" and ev[1] == "VEVENT" for l in ev[2] if l[1] == name]
    eq(got, want, name)


SUBS = [Sub("edits", case, check_case, quick=5000, shards=8), Sub("lengths", s_length, check_length, quick=30)]
