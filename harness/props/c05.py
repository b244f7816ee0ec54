from hypothesis import strategies as st

from harness import build, expect, gen, ref
from harness.core import Sub, check, eq

RULE = ("Calendars whose texts, categories, person parameters, zone names and extra parameters are built from separators, quotes, "
        "carets, newlines, CRs and fake BEGIN/END/property lines; the output is read by an independent tokenizer and compared "
        "with the structure implied by the spec; raw strings (addresses, URIs, unknown lines, names) with line breaks must be refused. Non-trivial: some stored string contains a structural character.")
ASSUMPTIONS = ["names of unknown lines, parameters and components are identifiers, apart from line breaks"]


def nasty():
    return gen.text(10, cr=True)


@st.composite
def strategy(draw):
    txt = nasty()
    c = draw(gen.some_calendar(max_entries=3, txt=txt, lo=1971, hi=2037))
    c["entries"] = c["entries"] or [draw(gen.entry(txt=txt, customs=len(c["zones"]), lo=1971, hi=2037))]
    for z in c["zones"]:
        if draw(st.booleans()):
            z["tzid"] += draw(gen.text(3))
    xp = gen.params(gen.xname(), 2, gen.text(6, cr=True))
    for e in c["entries"]:
        e["xparams"] = {k: draw(xp) for k in ("SUMMARY", "DESCRIPTION", "BEGIN", "UID") if draw(st.integers(0, 2)) == 2}
        for a in e.get("alarms", []):
            if a["kind"] == "custom" and draw(st.booleans()):
                a["action"] = "X-" + draw(txt)
            for k in ("description", "summary"):
                if a.get(k) is not None:
                    a[k] = draw(txt)
        for p in e.get("attendees", []) + [e.get("organizer") or {"kw": {}}]:
            if draw(st.booleans()):
                p["kw"]["common_name"] = draw(gen.text(8, cr=True))
            if draw(st.booleans()):
                p["x"] = dict(draw(xp))
    return c


FIELDS = {"summary": "SUMMARY", "description": "DESCRIPTION", "location": "LOCATION", "uid": "UID", "classification": "CLASS"}
PFIELDS = {"summary": "SUMMARY", "description": "DESCRIPTION", "begin": "BEGIN", "uid": "UID"}


def nocr(values):
    """a parameter value cannot carry a carriage return (RFC 6868 has no escape for it)"""
    return [v.replace("\r", "") for v in values]


def check_structure(cal, c, note, xparams=True):
    out = cal.serialize()
    check(not out.replace("\r\n", "").count("\n") and not out.replace("\r\n", "").count("\r"), "bare CR or LF in %r", out)
    check(not any(ch in "".join(out.split("\r\n")) for ch in "\x00\x01\x08"), "control character")
    tree = ref.parse_tree(out)
    eq([n[:2] for n in tree], [("C", "VCALENDAR")], "top level")
    root = tree[0]
    evs = [e for e in c["entries"] if e["kind"] == "event"]
    tds = [e for e in c["entries"] if e["kind"] == "todo"]
    nz = len(expect.comps(root, "VTIMEZONE"))
    want = ["VERSION", "PRODID"] + (["METHOD"] if c.get("method") is not None else []) + ["VTIMEZONE"] * nz
    want += ["VEVENT"] * len(evs) + ["VTODO"] * len(tds) + expect.extra_names(c.get("extra", []))
    eq(expect.names(root), sorted(want), "calendar structure")
    for kind, specs in (("VEVENT", evs), ("VTODO", tds)):
        for node, e in zip(expect.comps(root, kind), specs):
            eq(expect.names(node), expect.entry_names(e), "structure of " + kind)
            for k, n in FIELDS.items():
                if e.get(k) is not None:
                    l = expect.lines(node, n)[0]
                    eq(expect.decode(l[3]), e[k], k)
                    if xparams:
                        eq([(p, [v for _, v in vs]) for p, vs in l[2]],
                           [(p, nocr(vs)) for p, vs in e["xparams"].get(n, [])], "parameters of " + n)
            cats = [expect.decode(v) for l in expect.lines(node, "CATEGORIES") for v in ref.split_text_list(l[3])]
            eq(cats, e.get("categories", []), "categories")
            for l, p in zip(expect.lines(node, "ATTENDEE"), e.get("attendees", [])):
                check_person(l, p)
            for l in expect.lines(node, "ORGANIZER"):
                check_person(l, e["organizer"])
            for al, a in zip(expect.comps(node, "VALARM"), e.get("alarms", [])):
                eq(expect.names(al), expect.alarm_names(a), "structure of VALARM")
                if a["kind"] == "custom":
                    eq(expect.decode(expect.lines(al, "ACTION")[0][3]), a["action"], "action")
    return out


def check_person(l, p):
    got = {k: [v for _, v in vs] for k, vs in l[2]}
    want = len([k for k in p["kw"]]) + len(p.get("x", {}))
    eq(len(l[2]), want, "number of parameters of %r" % (l,))
    if "common_name" in p["kw"]:
        eq(got.get("CN"), nocr([p["kw"]["common_name"]]), "CN")
    for k, v in p.get("x", {}).items():
        eq(got.get(k), nocr(v), "parameter " + k)
    eq(l[3], p["email"], "address")


def check_case(c, note):
    cal = build.cal_of(c)
    specs = [e for e in c["entries"] if e["kind"] == "event"] + [e for e in c["entries"] if e["kind"] == "todo"]
    for obj, e in zip(list(cal.events) + list(cal.todos), specs):
        for k, ps in e["xparams"].items():
            obj.extra_params[k] = {p: list(vs) for p, vs in ps}
    check_structure(cal, c, note)
    s = str(c)
    note.nontrivial(any(ch in s for ch in ("\\n", ";", ":", '"', "\\r")))
    note("entries%d" % len(c["entries"]), "alarms" if "'alarms'" in s else "no-alarms", "zones" if c["zones"] else "no-zones")


# ------------------------------------------------------------------ raw strings

PLACES = ["attendee", "organizer", "alarm attendee", "attach", "url", "value", "nested value", "line name", "param name", "component name", "calendar value", "kept name", "shared parameter"]


@st.composite
def raw(draw):
    where = draw(st.lists(st.sampled_from(PLACES), min_size=1, max_size=3, unique=True))
    c = {"kind": "event" if set(where) & {"attendee", "attach", "organizer"} else draw(st.sampled_from(["event", "todo"])), "where": {}}
    for w in where:
        word = draw(st.sampled_from(["X-A", "B", "X-LONG-" * 12 + "Z"]))
        if draw(st.integers(0, 2)):
            i = draw(st.integers(0, len(word)))
            word = word[:i] + draw(st.sampled_from(["\n", "\r", "\r\n", "\r\nX-EVIL:1", "\nEND:VEVENT", "\r\n ", "\n\n"])) + word[i:]
        c["where"][w] = word
    return c


def check_raw(c, note):
    from urllib.parse import ParseResult

    import ics
    from ics.contentline import Container, ContentLine

    cls = ics.Event if c["kind"] == "event" else ics.Todo
    name = "V" + c["kind"].upper()
    e = cls(uid="u")
    cal = ics.Calendar(**{c["kind"] + "s": [e]})
    want = ["UID", "DTSTAMP"]
    tops = ["VERSION", "PRODID", name]
    kids = None
    broken = False
    for w, s in c["where"].items():
        broken |= "\n" in s or "\r" in s
        if w == "attendee":
            e.attendees.append(ics.Attendee("mailto:" + s))
            want.append("ATTENDEE")
        elif w == "organizer":
            e.organizer = ics.Organizer("mailto:" + s)
            want.append("ORGANIZER")
        elif w == "alarm attendee":
            e.alarms.append(ics.EmailAlarm(attendees=[ics.Attendee("mailto:" + s)]))
            want.append("VALARM")
        elif w == "attach":
            e.attach.append(ParseResult("http", "host", "/" + s, "", "", ""))
            want.append("ATTACH")
        elif w == "url":
            e.url = ParseResult("http", "host", "/" + s, "", "", "")
            want.append("URL")
        elif w == "value":
            e.extra.append(ContentLine("X-RAW", {}, s))
            want.append("X-RAW")
        elif w == "nested value":
            e.extra.append(Container("X-NEST", [Container("X-IN", [ContentLine("X-RAW", {"P": ["1"]}, s)])]))
            want.append("X-NEST")
        elif w == "line name":
            e.extra.append(ContentLine(s, {}, "v"))
            want.append(s.upper())
        elif w == "param name":
            e.extra.append(ContentLine("X-P", {s: ["1"]}, "v"))
            want.append("X-P")
        elif w == "component name":
            e.extra.append(Container(s, [ContentLine("X-P", {}, "v")]))
            want.append(s.upper())
        elif w == "calendar value":
            cal.extra.append(ContentLine("X-CAL", {}, s))
            tops.append("X-CAL")
        elif w == "kept name":
            # (components keep the name of their extras)
            e.extra.name = s
            tops[2] = s
        elif w == "shared parameter":
            e.summary = "S"
            e.extra_params["SUMMARY"] = {s: ["1"]}
            want.append("SUMMARY")
    note("broken" if broken else "fine", *c["where"])
    note.nontrivial(broken)
    for what, f in (("serialize", cal.serialize), ("to_container", lambda: cal.to_container().serialize()), ("iteration", lambda: "".join(cal)),
                    ("unwrapped", lambda: cal.to_container().serialize(wrap=None))):
        if broken:
            try:
                out = f()
            except ValueError:
                continue
            check(False, "%s wrote %r", what, out)
        root = ref.parse_tree(f())[0]
        eq(sorted(expect.names(root)), sorted(tops), what + ": calendar")
        eq(sorted(expect.names(expect.comps(root, tops[2])[0])), sorted(want), what + ": entry")


SUBS = [Sub("raw", raw, check_raw, quick=1000, shards=2), Sub("structure", strategy, check_case, quick=1200, shards=6)]
