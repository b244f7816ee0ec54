from hypothesis import strategies as st

from harness import expect, gen, ref
from harness.core import Sub, check, eq, raises

RULE = ("Strings over an escape-dense alphabet (backslashes, separators, newlines, Unicode line separators, CR) as TEXT values, "
        "list elements and raw encoded texts; non-trivial: contains a character that has to be escaped, or an escape sequence.")
ASSUMPTIONS = ["the library's own escape \\r for a carriage return is tolerated"]
SPECIAL = set('\\;,\n\r')


def value_strategy():
    return st.fixed_dictionaries(dict(s=gen.text(14, cr=True), u=gen.text(6), where=st.sampled_from(
        ["summary", "description", "location", "uid", "status-less", "classification", "prodid", "alarm-desc", "alarm-summary"])))


def check_value(c, note):
    import ics
    from ics.valuetype.text import TextConverter

    s = c["s"]
    raw = TextConverter.serialize(s)
    check("\n" not in raw and "\r" not in raw, "raw line break in %r", raw)
    eq(TextConverter.parse(raw), s, "TEXT value")
    if "\r" not in s:
        eq(ref.unescape_text(raw), s, "TEXT value read by RFC rules")
    w = c["where"]
    cal = ics.Calendar()
    ev = ics.Event(uid="u", summary="x")
    if w in ("summary", "description", "location", "uid", "classification"):
        setattr(ev, w, s)
        get = lambda c2: getattr(c2.events[0], w)
    elif w == "prodid":
        cal.prodid = s
        get = lambda c2: c2.prodid
    elif w == "alarm-desc":
        ev.alarms.append(ics.DisplayAlarm(description=s))
        get = lambda c2: c2.events[0].alarms[0].description
    elif w == "alarm-summary":
        ev.alarms.append(ics.EmailAlarm(summary=s))
        get = lambda c2: c2.events[0].alarms[0].summary
    else:
        td = ics.Todo(uid="t", summary=s)
        cal.todos.append(td)
        get = lambda c2: c2.todos[0].summary
    cal.events.append(ev)
    out = cal.serialize()
    again = ics.Calendar(out)
    eq(get(again), s, w)
    eq(type(get(again)), str, "type of " + w)
    note(w, "special" if SPECIAL & set(s) else "plain")
    note.nontrivial(bool(SPECIAL & set(s)))


def list_strategy():
    return st.fixed_dictionaries(dict(
        lists=st.lists(st.lists(gen.text(6, cr=False), min_size=1, max_size=5), min_size=1, max_size=3)))


def many_strategy():
    return st.fixed_dictionaries(dict(lists=st.lists(gen.many(gen.text(6, cr=False), 1, 150), min_size=1, max_size=3)))


def check_list(c, note):
    import ics
    from ics.valuetype.text import TextConverter

    flat = [v for l in c["lists"] for v in l]
    for l in c["lists"]:
        joined = TextConverter.join_value_list([TextConverter.serialize(v) for v in l])
        eq([TextConverter.parse(v) for v in TextConverter.split_value_list(joined)], l, "list via converter")
        eq([ref.unescape_text(v) for v in ref.split_text_list(joined)], l, "list read by RFC rules")
    # API-built
    cal = ics.Calendar(events=[ics.Event(uid="u", categories=flat)])
    again = ics.Calendar(cal.serialize())
    eq(again.events[0].categories, flat, "categories")
    # foreign text: several lines, each a list
    lines = ["CATEGORIES:" + ",".join(ref.escape_text(v) for v in l) for l in c["lists"]]
    txt = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:u"] + lines + ["END:VEVENT", "END:VCALENDAR"])
    cal = ics.Calendar(txt)
    eq(cal.events[0].categories, flat, "imported categories")
    out = cal.serialize()
    back = [[ref.unescape_text(v) for v in ref.split_text_list(n[3])]
            for n in expect.lines(expect.comps(ref.parse_tree(out)[0], "VEVENT")[0], "CATEGORIES")]
    eq([v for l in back for v in l], flat, "exported categories")
    eq(ics.Calendar(out).events[0].categories, flat, "categories after another round")
    note("lists%d" % len(c["lists"]), "special" if any(SPECIAL & set(v) for v in flat) else "plain")
    if "" in flat:
        note("empty element")
    note.nontrivial(len(flat) > 1 or any(SPECIAL & set(v) for v in flat))


TOK = ["\\", "\\\\", ",", ";", "\\,", "\\;", "\\n", "\\N", "n", "N", "a", "\\a", "\\:", ":", "\\\"", '"', " ", "\\ ", "é", "\\t", "x y"]


def raw_strategy():
    return st.fixed_dictionaries(dict(s=st.lists(st.sampled_from(TOK), max_size=9).map("".join)))


def reference(s):
    try:
        return ref.unescape_text(s), None
    except ref.Bad as e:
        return None, str(e)


def check_read(c, note):
    from ics.valuetype.text import TextConverter

    s = c["s"]
    want, bad = reference(s)
    err = raises(TextConverter.parse, s)
    if bad:
        check(err, "%s accepted: %r -> %r", bad, s, None if err else TextConverter.parse(s))
        check(isinstance(err, ValueError), "unexpected error %r", err)
    else:
        check(not err, "valid text rejected: %r (%r)", s, err)
        eq(TextConverter.parse(s), want, "decoded text")
    # as a list
    elems = [reference(e) for e in ref.split_text_list(s)]

    def as_list():
        return [TextConverter.parse(v) for v in TextConverter.split_value_list(s)]

    err = raises(as_list)
    if any(b for _, b in elems):
        check(err, "invalid list accepted: %r", s)
    else:
        check(not err, "valid list rejected: %r (%r)", s, err)
        eq(as_list(), [v for v, _ in elems], "decoded list")
    # through a whole component
    import ics

    txt = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:u", "SUMMARY:" + s, "END:VEVENT",
                       "END:VCALENDAR"])
    err = raises(ics.Calendar, txt)
    check(bool(err) == bool(bad), "import of %r: %r", s, err)
    if not bad:
        eq(ics.Calendar(txt).events[0].summary, want, "summary")
    note("bad:" + bad if bad else "ok")
    note.nontrivial("\\" in s or "," in s or ";" in s)


SUBS = [
    Sub("many", many_strategy, check_list, quick=100),
    Sub("value", value_strategy, check_value, quick=1500),
    Sub("list", list_strategy, check_list, quick=800),
    Sub("read", raw_strategy, check_read, quick=2500),
]
