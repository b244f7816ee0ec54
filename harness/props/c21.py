from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from harness import build, foreign, fresh, gen, ref
from harness.core import Sub, check, eq
from harness.props.c06 import picture
from harness.props.c20 import mutate
from harness.props.c24 import rename

RULE = ("Up to three calendars (imported from foreign texts or built through the API, with zones of clashing names), then a random history of "
        "exports (whole, per entry, as tree, line by line, two at once), comparisons, sorting, hashing, timeline queries, normalising, "
        "printing, zone lookups, cloning, further imports and exports of other texts - valid, broken at a random place, or failing half "
        "way - and edits of other imports of the same text. After every step the deep snapshots of all calendars are what they were and "
        "each export gives the bytes of the first one; at the end the imports and exports are repeated in a forked fresh process with "
        "another hash seed and must give the same bytes or the same error. Non-trivial: a history of at least three steps with a failing "
        "import or export in it.")
ASSUMPTIONS = ["generated UIDs and stamps are fixed by deterministic_event_data", "the line width is changed only with contentline_set_wrap, and everything is compared after leaving it"]
UTC = timezone.utc

STEPS = ["ser", "ser", "entry", "tree", "iter", "two", "cmp", "query", "query", "norm", "str", "attrs", "lookup", "clone", "again", "noise", "noise",
         "broken", "broken", "broken", "fail", "fail", "mutate", "mutate", "default", "partial", "wrap"]


@st.composite
def part(draw):
    if draw(st.integers(0, 2)) == 2:
        return {"api": draw(gen.some_calendar(max_entries=2, tz=None, api_zones=True, lo=1900, hi=2150))}
    return rename({"foreign": draw(foreign.some(2, hi=2150))}, 0)


@st.composite
def history(draw):
    steps = [[draw(st.sampled_from(STEPS)), draw(st.integers(0, 2)), draw(st.integers(0, 60)), draw(st.integers(0, 10 ** 6))]
             for _ in range(draw(st.integers(2, 9)))]
    parts = [draw(part()) for _ in range(draw(st.integers(1, 3)))]
    edits = [["c", draw(st.sampled_from(["x-append", "x-clear", "x-name", "p-key", "p-inner", "p-list", "attr", "list-append", "list-clear", "nested",
                                         "reverse"])), draw(st.integers(0, 50)), "tx"] for _ in range(4)]
    return {"parts": parts, "steps": steps, "edits": edits}


def imported(text):
    import ics
    from ics.event import deterministic_event_data

    with deterministic_event_data():
        return ics.Calendar(text)


def make(p):
    if "api" in p:
        return build.cal_of(p["api"])
    return imported(foreign.text_of(p["foreign"]))


def deep(cal):
    """everything reachable, with the bookkeeping of parameters"""
    return build.snap(cal)


def corrupt(text, k, r):
    """a text that is broken at one place"""
    lines = text.split("\r\n") if "\r\n" in text else text.replace("\r", "\n").split("\n")
    i = r % max(1, len(lines))
    how = k % 8
    if how == 0:
        lines = lines[:i]  # cut off
    elif how == 1:
        lines[i] = lines[i].split(":")[0] + ":\x00#"  # bad value
    elif how == 2:
        del lines[i]
    elif how == 3:
        lines.insert(i, "DTSTART:nonsense")
    elif how == 4:
        lines.insert(i, "END:VEVENT")
    elif how == 5:
        lines.insert(i, lines[i])
    elif how == 6:
        lines[i] = "DTEND;TZID=No/Where:20200101T000000"
    else:
        at = [j for j, l in enumerate(lines) if l.startswith(("END:VEVENT", "END:VTODO", "END:VALARM", "END:STANDARD"))]
        if at:
            lines.insert(at[r % len(at)], ["DTSTART;TZID=No/Where:20200101T000000", "DURATION:PX", "TRIGGER:no", "RRULE:FREQ=NEVER", "DTSTAMP:x"][k // 8 % 5])
    return "\r\n".join(lines)


class Boom:
    pass


def failing_export(k, r):
    """an export that stops half way"""
    import ics
    from ics.contentline import ContentLine
    from ics.timezone import Timezone

    tz = Timezone.from_tzid("Asia/Tokyo")
    e = ics.Event(begin=datetime(2020, 1, 5, 12, tzinfo=tz), end=datetime(2020, 1, 5, 13, tzinfo=tz), uid="x", summary="s")
    how = k % 5
    if how == 0:
        e.alarms.append(Boom())
    elif how == 1:
        e.categories.append(Boom())
    elif how == 2:
        e.extra_params["CATEGORIES"] = [{"X-A": ["1"]}]
        e.extra_params["categories"] = [{"X-A": ["1"]}, {}, {}]
        e.categories.append("x")
    elif how == 3:
        e.attach.append(Boom())
    else:
        e.extra_params["summary"] = {"VALUE": [Boom()]}
        object.__setattr__(e, "description", Boom())
    c = ics.Calendar(events=[ics.Event(begin=datetime(2020, 1, 1, tzinfo=tz), uid="y"), e])
    try:
        c.serialize()
    except Exception:
        return True
    return False


def step(s, cals, c, first, texts, note):
    import ics
    from ics.contentline import string_to_container
    from ics.timeline import Timeline
    from ics.timespan import Normalization

    op, i, k, r = s
    i %= len(cals)
    cal = cals[i]
    ents = list(cal.events) + list(cal.todos)
    if op == "ser":
        eq(cal.serialize(), first[i], "repeated export")
    elif op == "iter":
        eq("".join(cal), first[i], "export line by line")
    elif op == "wrap":
        from ics.contentline.container import contentline_set_wrap

        # another line width, left normally, by an exception, or nested; the text read back is the same
        def narrow():
            with contentline_set_wrap([20, 45, 1000, None, 76][k % 5]):
                t = cal.serialize()
                eq([l for _, l in ref.unfold(ref.split_lines(t))], [l for _, l in ref.unfold(ref.split_lines(first[i]))], "unfolded export with another line width")
                if r % 3 == 1:
                    with contentline_set_wrap(33):
                        raise KeyError
                if r % 3 == 2:
                    raise KeyError

        try:
            narrow()
        except KeyError:
            pass
        eq(cal.serialize(), first[i], "export after leaving another line width")
    elif op == "tree":
        t = cal.to_container()
        eq(t.serialize(), first[i], "export as tree")
        t2 = t.clone()
        t.append(t2)
        t2.clear()
        del t[0]
        t.reverse()
        # lines of a deep clone are copies (unknown items of a plain tree are those of the calendar)
        t = cal.to_container().clone(deep=True)
        for x in t:
            if hasattr(x, "params"):
                x.params["X-NOISE"] = ["1"]
                x.value += "!"
            else:
                x.clear()
    elif op == "two":
        j = k % len(cals)
        a, b = cal.to_container().serialize_iter(), cals[j].to_container().serialize_iter()
        out = [[], []]
        while True:
            got = 0
            for it, o in zip((a, b), out):
                for x in it:
                    o.append(x)
                    got = 1
                    break
            if not got:
                break
        eq("".join(out[0]), first[i], "first of two interleaved exports")
        eq("".join(out[1]), first[j], "second of two interleaved exports")
    elif op == "entry":
        for e in ents:
            a = e.serialize()
            eq(e.serialize(), a, "repeated export of an entry")
            eq(e.clone().serialize(), a, "export of a clone")
            for al in e.alarms:
                eq(al.serialize(), al.serialize(), "repeated export of an alarm")
    elif op == "cmp":
        for e in ents:
            for f in ents:
                e == f, e != f
                for fn in ("__lt__", "__le__", "__gt__", "__ge__"):
                    try:
                        getattr(e, fn)(f)
                    except (TypeError, ValueError):
                        pass
                e.timespan == f.timespan
                hash(e.timespan)
                if e.begin is not None and f.begin is not None and hasattr(e, "intersects"):
                    for fn in ("intersects", "includes", "is_included_in"):
                        try:
                            getattr(e, fn)(f)
                        except (TypeError, ValueError):
                            pass
        for d in cals:
            cal == d, cal != d
        try:
            sorted(ents)
        except (TypeError, ValueError):
            pass
    elif op == "query":
        tl = cal.timeline if k % 3 else Timeline(cal, Normalization(UTC))
        d = next((e.begin for e in ents if e.begin is not None), datetime(2020, 1, 1))
        try:
            hi = d + timedelta(hours=k)
        except OverflowError:
            hi = d
        for q in (lambda: tl, lambda: tl.included(d, hi), lambda: tl.overlapping(d, hi), lambda: tl.start_after(d), lambda: tl.at(d), lambda: tl.on(d),
                  lambda: tl.today(), lambda: tl.now(), lambda: tl.iterator()):
            try:
                list(q())
            except (ValueError, TypeError, OverflowError):
                pass
    elif op == "norm":
        for e in ents:
            try:
                Normalization(UTC).normalize(e.timespan)
                Normalization(lambda: UTC).normalize(e.clone())
                e.timespan.normalize(Normalization(UTC))
            except (ValueError, TypeError, AttributeError, OverflowError):
                pass
            for kind in ("end", "duration"):
                try:
                    e.timespan.convert_end(kind)
                except (ValueError, OverflowError):
                    pass
    elif op == "str":
        for o in [cal, cal.extra] + ents + [a for e in ents for a in e.alarms] + [e.timespan for e in ents] + [e.extra for e in ents]:
            str(o), repr(o)
    elif op == "attrs":
        for e in ents:
            e.begin, e.end, e.duration, e.all_day, e.has_explicit_end, e.floating
            bool(e.timespan), e.timespan.get_effective_duration(), e.timespan.cmp_tuple() if hasattr(e.timespan, "cmp_tuple") else None
            for p in list(getattr(e, "attendees", [])):
                p.email, p.common_name, p.member
    elif op == "lookup":
        for e in ents:
            for d in (e.begin, e.end):
                if d is not None and d.tzinfo is not None:
                    for h in range(-3, 4):
                        for f in (0, 1):
                            x = (d + timedelta(hours=h + k * 731)).replace(fold=f) if d.year < 2140 else d
                            x.utcoffset(), x.dst(), x.tzname()
                            x.astimezone(UTC)
                            x.astimezone(UTC).astimezone(d.tzinfo)
    elif op == "clone":
        for e in ents + [cal]:
            check(e.clone() == e, "clone of %r", e)
    elif op == "again":
        t = texts[i]
        if t is not None:
            again = imported(t)
            eq(again.serialize(), first[i], "export of a second import")
            eq(deep(again), deep(cal), "second import")
        else:
            again = make(c["parts"][i])
            eq(again.serialize(), first[i], "export of the same calendar built again")
    elif op == "noise":
        p = foreign_noise(k, r)
        try:
            imported(p).serialize()
        except ValueError:
            note("noise rejected")
    elif op == "broken":
        t = corrupt(texts[i] if texts[i] is not None else first[i], k, r)
        try:
            imported(t).serialize()
            note("still readable")
        except Exception as e:
            note("import fails", "fails:" + type(e).__name__)
            note.bad = True
        try:
            # a component of its own
            tree = string_to_container(t)
            for x in tree:
                if getattr(x, "name", "") == "VEVENT" and hasattr(x, "data"):
                    ics.Event.from_container(x)
        except Exception:
            pass
    elif op == "fail":
        if failing_export(k, r):
            note("export fails")
            note.bad = True
        else:
            note("export of broken objects works?")
    elif op == "mutate":
        t = texts[i] if texts[i] is not None else first[i]
        other = imported(t)
        objs = [other] + list(other.events) + list(other.todos)
        objs += [a for e in objs[1:] for a in e.alarms]
        for n, ed in enumerate(c["edits"]):
            o = objs[(k + n) % len(objs)]
            try:
                mutate(o, ed, False)
            except (ValueError, TypeError):
                pass
            for l in o.extra:
                if hasattr(l, "params"):
                    l.params["X-EDIT"] = ["1"]
                    l.value += "x"
            for name, v in list(o.extra_params.items()):
                for d in v if isinstance(v, list) else [v]:
                    for vals in d.values():
                        vals.append("edit")
                    d["X-EDIT"] = ["1"]
        for e in objs:
            for name in ("categories", "attendees", "attach", "alarms", "events", "todos"):
                if isinstance(getattr(e, name, None), list):
                    for p in getattr(e, name):
                        if hasattr(p, "extra") and name == "attendees":
                            p.extra["X-P"] = ["1"]
                    getattr(e, name).clear()
        try:
            other.serialize()
        except ValueError:
            pass
        if texts[i] is not None:
            eq(imported(t).serialize(), first[i], "import after editing another import of it")
    elif op == "default":
        # new objects start out empty, whatever happened to earlier ones
        for o in (ics.Calendar(), ics.Event(), ics.Todo(), ics.DisplayAlarm(), ics.EmailAlarm(), ics.AudioAlarm()):
            eq((list(o.extra), o.extra_params), ([], {}), "extras of a new %s" % type(o).__name__)
            for name in ("categories", "attendees", "attach", "alarms", "events", "todos"):
                if hasattr(o, name) and isinstance(getattr(o, name), list):
                    eq(getattr(o, name), [], "%s of a new %s" % (name, type(o).__name__))
                    try:
                        getattr(o, name).append("left over")
                    except Exception:
                        pass
            from ics.contentline import ContentLine

            o.extra.append(ContentLine("X-LEFT", {}, "over"))
            o.extra_params["summary"] = {"X-LEFT": ["over"]}
        a = ics.Attendee("mailto:a@b.c")
        eq(dict(a.extra), {}, "parameters of a new attendee")
        a.extra["X-LEFT"] = ["over"]
        a.common_name = "x"
        l = ContentLine("X")
        eq(dict(l.params), {}, "parameters of a new line")
        l.params["X-LEFT"] = ["over"]
    elif op == "partial":
        # imports given up in between: only part of the calendars of a text is taken
        from ics.contentline import string_to_containers

        it = iter(string_to_containers((texts[i] or first[i]) + "\r\n" + first[i]))
        next(it)
        itc = iter(cal.to_container().serialize_iter())
        for _ in range(k):
            next(itc, None)
        ic = iter(cal)
        next(ic, None)
        del it, itc, ic


def foreign_noise(k, r):
    """another calendar that defines the zone names used everywhere with other rules"""
    out = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:noise"]
    off = ["+0107", "-0213", "+1000"][r % 3]
    for n, name in enumerate(["Same/0", "Same/1", "Europe/Berlin", "Asia/Tokyo", "/ics.py/2020.1/Europe/Berlin", "America/New_York"]):
        out += ["BEGIN:VTIMEZONE", "TZID:" + name, "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:" + off, "TZOFFSETTO:" + off,
                "TZNAME:noise", "END:STANDARD", "END:VTIMEZONE"]
        out += ["BEGIN:VEVENT", "UID:n%d" % n, "DTSTAMP:20200101T000000Z", "DTSTART;TZID=%s;X-N=1:2020%02d01T000000" % (name, 1 + k % 12),
                "DURATION;X-N=2:PT1H", "SUMMARY;X-N=3:noise", "CATEGORIES;X-N=4:a,b", "X-NOISE:1"]
        if k % 3 == 0:
            out += ["BEGIN:VALARM", "ACTION;X-N=5:DISPLAY", "TRIGGER;X-N=6:-PT5M", "DESCRIPTION:x", "END:VALARM"]
        out += ["END:VEVENT"]
    if k % 4 == 1:
        out += ["BEGIN:VEVENT", "DTSTART:20200101T000000", "DUE:20200101T000000", "END:VEVENT"]
    if k % 4 == 2:
        out += ["BEGIN:VTODO", "DTSTART:20200101T000000", "DUE:20200103", "END:VTODO"]
    return "\r\n".join(out + ["END:VCALENDAR", ""])


def check_history(c, note):
    cals, texts = [], []
    for p in c["parts"]:
        cals.append(make(p))
        texts.append(foreign.text_of(p["foreign"]) if "foreign" in p else None)
    before = [deep(x) for x in cals]
    first = [x.serialize() for x in cals]
    eq([deep(x) for x in cals], before, "calendar after its first export")
    note.bad = False
    for s in c["steps"]:
        step(s, cals, c, first, texts, note)
        note("step:" + s[0])
        for k, (x, b) in enumerate(zip(cals, before)):
            now = deep(x)
            if now != b:
                eq(diff(now, b), None, "calendar %d after %r" % (k, s))
    eq([x.serialize() for x in cals], first, "export at the end")
    for x, t, f, p in zip(cals, texts, first, c["parts"]):
        if t is None:
            eq(make(p).serialize(), f, "export of the same calendar built at the end")
            got = fresh.ask("export", p["api"])
            eq(got, ["ok", f], "export in a fresh process")
        else:
            eq(imported(t).serialize(), f, "export of an import at the end")
            eq(fresh.ask("import", t), ["ok", [f]], "import and export in a fresh process")
        note("compared with a fresh process")
    bad = [s for s in c["steps"] if s[0] == "broken"][:1]
    for op, i, k, r in bad:
        i %= len(cals)
        t = corrupt(texts[i] if texts[i] is not None else first[i], k, r)
        eq(fresh.jobs(["import", t]), fresh.ask("import", t), "import of a broken text here and in a fresh process")
    note.nontrivial(len(c["steps"]) > 2 and note.bad)


def diff(a, b, path=""):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "/%d" % i)
    if type(a) is type(b) and isinstance(a, dict) and set(a) == set(b):
        for k in a:
            if a[k] != b[k]:
                return diff(a[k], b[k], path + "/" + k)
    return path, a, b


SUBS = [Sub("history", history, check_history, quick=1500, shards=8)]
