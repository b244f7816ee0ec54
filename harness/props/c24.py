import io
import os
import re
import tempfile

from hypothesis import strategies as st

from harness import build, foreign, gen
from harness.core import Sub, check, eq
from harness.props.c06 import picture

RULE = ("One to three calendar texts (written by another program's conventions, or exported from an API-built calendar), possibly with "
        "clashing zone names, joined with blank lines and mixed line breaks; every one imported as a string, as lines (list, generator, "
        "file opened with and without newline translation, with and without line ends), as a parsed tree, through from_container, "
        "and as part of the joined text; exported calendars re-imported from their line iteration; texts with no or several calendars, "
        "stray lines or broken parts. Non-trivial: at least one entry, or several calendars.")
ASSUMPTIONS = ["generated UIDs and stamps of entries without them are fixed by deterministic_event_data",
               "calendars with times in repeated or skipped hours are compared by their contents, not with ==",
               "lines may carry their line end or not; other line-break characters inside a line are not split"]


def look(cal):
    """everything observable of an imported calendar"""
    return picture(cal), build.snap(cal.extra), str(cal), cal.serialize(), [str(e) for e in cal.timeline]


def comparable(cal):
    """Python never calls times equal that lie in repeated or skipped hours of their zone and have different zone objects"""
    for e in list(cal.events) + list(cal.todos):
        for d in (e.begin, e.end if hasattr(e, "end") else e.due, getattr(e, "completed", None)):
            if d is not None and d.replace(fold=0).utcoffset() != d.replace(fold=1).utcoffset():
                return False
    return True


def lines_of(text, keep):
    parts = re.split("(\r\n|\r|\n)", text)
    out = []
    for i in range(0, len(parts), 2):
        l = parts[i] + (parts[i + 1] if keep and i + 1 < len(parts) else "")
        if l or i + 1 < len(parts):
            out.append(l)
    return out


FORMS = ["str", "lines", "lines-kept", "gen", "stringio", "stringio-raw", "tuple", "tree", "tree-lines", "from_container", "multi", "populate"]


def load(form, text):
    import ics
    from ics.contentline import Container, lines_to_container, string_to_container

    if form == "str":
        return ics.Calendar(text)
    if form == "lines":
        return ics.Calendar(lines_of(text, False))
    if form == "lines-kept":
        return ics.Calendar(lines_of(text, True))
    if form == "tuple":
        return ics.Calendar(tuple(lines_of(text, True)))
    if form == "gen":
        return ics.Calendar(l for l in lines_of(text, False))
    if form == "stringio":
        return ics.Calendar(io.StringIO(text, newline=None))
    if form == "stringio-raw":
        return ics.Calendar(io.StringIO(text, newline=""))
    if form in ("tree", "from_container", "populate"):
        tree = string_to_container(text)
    elif form == "tree-lines":
        tree = lines_to_container(lines_of(text, False))
    else:
        got = ics.Calendar.parse_multiple(text)
        eq(len(got), 1, "calendars of a single text")
        return got[0]
    before = build.snap(tree)
    if form == "from_container":
        cal = ics.Calendar.from_container(tree)
    elif form == "populate":
        cal = ics.Calendar()
        cal.populate(tree)
    else:
        cal = ics.Calendar(tree)
    eq(build.snap(tree), before, "the parsed tree given")
    second = look(ics.Calendar(tree))
    eq(look(cal), second, "two imports of one tree")
    return cal


@st.composite
def one(draw):
    if draw(st.integers(0, 3)) == 3:
        return {"api": draw(gen.some_calendar(max_entries=2, tz=None, api_zones=True, lo=1900, hi=2150))}
    return {"foreign": draw(foreign.some(2, hi=2150))}


def text_of(part, clash):
    if "api" in part:
        c = part["api"]
        if clash:
            c = dict(c, zones=[dict(z, tzid="Same/%d" % i) for i, z in enumerate(c.get("zones", []))])
        return build.cal_of(c).serialize() + "\r\n"
    text = foreign.text_of(part["foreign"])
    return text


def rename(part, k):
    """let zones of different calendars share their names"""
    if "foreign" not in part:
        return part
    import json

    s = json.dumps(part)
    for i, z in enumerate(part["foreign"]["zones"]):
        # the whole name occurs only as TZID value or parameter
        old = json.dumps(z["tzid"])[1:-1]
        if z["tzid"].startswith("Zone/") and "\\" not in old and not set(",;:\\ ") & set(z["tzid"]):
            s = s.replace('"%s"' % old, '"Same/%d"' % i)
    return json.loads(s)


@st.composite
def strategy(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    forms = draw(st.lists(st.sampled_from(FORMS), min_size=1, max_size=3, unique=True))
    clash = draw(st.booleans())
    gap = draw(st.sampled_from(["", "\n", "\r\n\r\n", "\n\n\n"]))
    iterate = draw(st.sampled_from(["iter", "list", "join", "file", "file-text"]))
    stray = draw(st.sampled_from(["", "", "X-A:b", "BEGIN:VEVENT\r\nEND:VEVENT", "BEGIN:VCALENDAR", "END:VCALENDAR", "no colon", " continuation"]))
    return {"forms": forms, "clash": clash, "gap": gap, "iterate": iterate, "stray": stray, "at": draw(st.integers(0, 4)),
            "parts": [draw(one()) for _ in range(n)]}


def check_case(c, note):
    import ics
    from ics.event import deterministic_event_data

    parts = [rename(p, c["clash"]) if c["clash"] else p for p in c["parts"]]
    texts = [text_of(p, c["clash"]) for p in parts]
    with deterministic_event_data():
        cals = [ics.Calendar(t) for t in texts]
        want = [look(x) for x in cals]
        for t, cal, w in zip(texts, cals, want):
            for f in c["forms"]:
                other = load(f, t)
                eq(look(other), w, "imported as " + f)
                check(other == cal and not other != cal or not comparable(cal), "imported as %s: not equal" % f)
                note(f)
        # several in one text
        sep = c["gap"]
        joined = "".join((t if t.endswith("\n") else t + "\r\n") + sep for t in texts)
        got = ics.Calendar.parse_multiple(joined)
        check(isinstance(got, list), "parse_multiple returned %r" % type(got))
        eq([look(x) for x in got], want, "parse_multiple")
        eq([x == y or not comparable(y) for x, y in zip(got, cals)], [True] * len(cals), "equality with the calendars imported alone")
        got = ics.Calendar.parse_multiple("".join(reversed([(t if t.endswith("\n") else t + "\r\n") + sep for t in texts])))
        eq([look(x) for x in got], want[::-1], "parse_multiple in the other order")
        if len(texts) > 1:
            for what in (joined, lines_of(joined, False), iter(lines_of(joined, True))):
                try:
                    x = ics.Calendar(what)
                except ValueError:
                    pass
                else:
                    check(False, "Calendar() accepted %d calendars" % len(texts), x)
        for what in ("", "\r\n", "\n \n".replace(" ", ""), [], iter(()), ["", "\r\n"]):
            try:
                x = ics.Calendar(what)
            except ValueError:
                pass
            else:
                check(False, "Calendar(%r) accepted" % (what,))
        eq(ics.Calendar.parse_multiple(""), [], "parse_multiple of nothing")
        # a broken or foreign part is not silently dropped
        if c["stray"]:
            i = c["at"] % (len(texts) + 1)
            pieces = [(t if t.endswith("\n") else t + "\r\n") for t in texts]
            broken = "".join(pieces[:i]) + c["stray"] + "\r\n" + "".join(pieces[i:])
            folded = c["stray"].startswith(" ") and i > 0
            for what in (lambda: ics.Calendar.parse_multiple(broken), lambda: ics.Calendar(broken)):
                try:
                    x = what()
                except Exception:
                    continue
                if folded:
                    # a continuation of the last line: END:VCALENDARcontinuation
                    check(False, "accepted a changed END line", x)
                check(False, "accepted %r between calendars" % c["stray"], x)
            note("stray")
        # iteration
        for cal in cals:
            text = cal.serialize()
            ls = list(cal)
            eq("".join(ls), text, "joined iteration")
            check(all(isinstance(l, str) for l in ls), "types of the lines")
            eq(ls, [l + "\r\n" for l in text.split("\r\n")[:-1]] + [text.split("\r\n")[-1]] if not text.endswith("\r\n")
               else [l + "\r\n" for l in text.split("\r\n")[:-1]], "lines of the iteration")
            how = c["iterate"]
            if how == "iter":
                again = ics.Calendar(iter(cal))
            elif how == "list":
                again = ics.Calendar(ls)
            elif how == "join":
                again = ics.Calendar("".join(cal))
            else:
                with tempfile.TemporaryDirectory() as d:
                    fn = os.path.join(d, "c.ics")
                    with open(fn, "w", encoding="utf-8", newline="") as f:
                        f.writelines(cal)
                    with open(fn, encoding="utf-8", newline="" if how == "file" else None) as f:
                        again = ics.Calendar(f)
            a, w = look(again), look(cal)
            eq(a[3], w[3], "export of the calendar imported from its lines")
            eq(a[0], look(ics.Calendar(text))[0], "calendar imported from its lines")
            note("iterate-" + how)
    note.nontrivial(len(texts) > 1 or any(x.events or x.todos for x in cals))


# ------------------------------------------------------------------ importing into a calendar that has entries already


@st.composite
def onto(draw):
    return {"how": draw(st.sampled_from(["ctor", "ctor-lines", "ctor-tree", "populate"])), "a": draw(one()), "b": draw(one()), "keep": draw(st.sampled_from([3, 2, 1, 3, 0]))}


def check_onto(c, note):
    import ics
    from ics.contentline import string_to_container
    from ics.event import deterministic_event_data

    with deterministic_event_data():
        ta, tb = text_of(c["a"], False), text_of(c["b"], False)
        own, alone = ics.Calendar(ta), ics.Calendar(tb)
        events, todos = list(own.events)[: c["keep"]], list(own.todos)[: c["keep"]]
        before = build.snap(events), build.snap(todos)
        if c["how"] == "populate":
            cal = ics.Calendar(events=events, todos=todos)
            cal.populate(string_to_container(tb))
        else:
            src = {"ctor": tb, "ctor-lines": lines_of(tb, True), "ctor-tree": string_to_container(tb)}[c["how"]]
            cal = ics.Calendar(src, events=events, todos=todos)
        for got, mine, new in ((cal.events, events, alone.events), (cal.todos, todos, alone.todos)):
            eq(len(got), len(mine) + len(new), "entries")
            check(all(a is b for a, b in zip(got, mine)), "the given entries come first")
            eq([x.serialize() for x in got[len(mine):]], [x.serialize() for x in new], "imported entries")
        eq((build.snap(events), build.snap(todos)), before, "the given entries and lists")
        eq((cal.prodid, cal.version, cal.method, cal.scale), (alone.prodid, alone.version, alone.method, alone.scale), "attributes of the calendar")
        eq(build.snap(cal.extra), build.snap(alone.extra), "unknown items")
        note(c["how"])
        note.nontrivial(len(events) + len(todos) and len(alone.events) + len(alone.todos))


SUBS = [Sub("onto", onto, check_onto, quick=250, shards=2), Sub("entry points", strategy, check_case, quick=900, shards=8)]
