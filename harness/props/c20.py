import copy

from hypothesis import strategies as st

from harness import build, foreign, gen
from harness.core import Sub, check, eq, raises
from harness.props.c13 import bundled_names
from harness.props.c24 import comparable

RULE = ("Calendars built through the API and calendars imported from foreign texts (with unknown items and parameters at every level); a random "
        "calendar, entry, alarm, zone, line or tree of them is cloned (trees also deeply, with given items, and clones of clones), compared in "
        "every attribute and in its serialization, then random edits are applied to either side while the other side's deep snapshot must not "
        "move; extras are stripped in every combination against a reference; copy.deepcopy and pickle of all of these and of zones, participants and spans. Non-trivial: the object carries extras, parameters or nested items.")
ASSUMPTIONS = ["component and shallow tree clones share their nested objects, as documented; only deep and line clones copy them"]


@st.composite
def case(draw):
    c = {"src": draw(st.sampled_from(["foreign", "api"]))}
    c["what"] = draw(st.sampled_from(["entry", "calendar", "alarm", "deep", "zone", "tree", "entry", "deep", "line", "extra"]))
    c["pick"] = draw(st.integers(0, 50))
    c["edits"] = draw(st.lists(edit(), min_size=2, max_size=6))
    if c["src"] == "foreign":
        c["cal"] = draw(foreign.some(3))
    else:
        c["cal"] = draw(gen.some_calendar(max_entries=3))
    return c


@st.composite
def edit(draw):
    side = draw(st.sampled_from("oc"))
    op = draw(st.sampled_from(["attr", "attr", "x-append", "x-insert", "x-del", "x-set", "x-clear", "x-name", "p-key", "p-del", "p-inner", "p-list",
                               "list-append", "list-clear", "nested", "nested", "nested", "reverse", "pop"]))
    return [side, op, draw(st.integers(0, 50)), draw(gen.simple_text(4))]


def candidates(cal, kind):
    ents = list(cal.events) + list(cal.todos)
    if kind == "calendar":
        return [cal]
    if kind == "entry":
        return ents
    if kind == "alarm":
        return [a for e in ents for a in e.alarms]
    if kind == "zone":
        return [d.tzinfo for e in ents for d in [e.begin] if d is not None and type(d.tzinfo).__name__ == "Timezone"]
    if kind in ("tree", "deep"):
        return [cal.to_container()] + [e.to_container() for e in ents] + [e.extra for e in ents]
    if kind == "extra":
        return [cal.extra] + [e.extra for e in ents if len(e.extra)]
    out = []

    def walk(c):
        for i in c:
            if hasattr(i, "data"):
                walk(i)
            else:
                out.append(i)

    walk(cal.to_container())
    return out


def objects(case):
    import ics

    if case["src"] == "foreign":
        return ics.Calendar(foreign.text_of(case["cal"]))
    return build.cal_of(case["cal"])


def flat(o, out):
    for i in o:
        out.append(i)
        if hasattr(i, "data"):
            flat(i, out)
    return out


def mutate(o, e, deep):
    """apply one edit; -> True if something changed"""
    import ics
    from ics.component import Component
    from ics.contentline import Container, ContentLine

    _, op, k, txt = e
    line = ContentLine("X-NEW", {"X-P": ["1", txt]}, txt + "!")
    if isinstance(o, ContentLine):
        if op == "attr":
            o.value = o.value + txt
        elif op == "x-name":
            o.name = o.name + "Q"
        elif op in ("p-key", "x-append"):
            o.params["X-NEW" + str(k)] = [txt]
        elif op == "p-del" and o.params:
            del o.params[sorted(o.params)[k % len(o.params)]]
        elif op in ("p-list", "p-inner", "nested") and o.params:
            o.params[sorted(o.params)[k % len(o.params)]].append(txt)
        elif op == "x-clear":
            o.params.clear()
        elif op == "x-set":
            o["X-SET"] = [txt, "b"]
        else:
            return False
        return True
    ext = o if isinstance(o, Container) else o.extra
    if op == "x-append":
        ext.append(line)
    elif op == "x-insert":
        ext.insert(k % (len(ext) + 1), Container("X-C", [line]))
    elif op == "x-del" and len(ext):
        del ext[k % len(ext)]
    elif op == "x-set" and len(ext):
        ext[k % len(ext)] = line
    elif op == "x-clear":
        ext.clear()
    elif op == "x-name":
        ext.name = "X-" + txt.strip() + "Q"
    elif op == "reverse":
        ext.reverse()
    elif op == "pop" and len(ext):
        ext.pop()
    elif isinstance(o, Container):
        if op == "nested" and deep:
            items = flat(o, [])
            if not items:
                return False
            i = items[k % len(items)]
            if isinstance(i, Container):
                if k % 2:
                    i.append(line)
                else:
                    i.name = i.name + "Q"
            elif i.params and k % 2:
                i.params[sorted(i.params)[0]].append(txt)
            else:
                i.value = i.value + txt
        else:
            return False
    elif op == "attr":
        name = {"Calendar": ["method", "prodid"], "Event": ["summary", "location", "classification", "geo", "begin"],
                "Todo": ["summary", "percent", "description", "begin"]}.get(type(o).__name__, ["repeat", "duration", "trigger"])
        name = name[k % len(name)]
        val = {"geo": (1.0, 2.0), "percent": 7, "repeat": k + 100, "duration": build.td_of(k + 12345), "trigger": build.td_of(-k - 12345)}.get(name, txt + "~")
        if name == "begin":
            o.timespan = type(o.timespan)(build.dt_of([[2001, 1, 1 + k % 20, 0, 0, 1], None]))
        else:
            setattr(o, name, val)
    elif op == "p-key":
        o.extra_params["X-NEW" + str(k)] = {"X-A": [txt]}
    elif op == "p-del" and o.extra_params:
        del o.extra_params[sorted(o.extra_params)[k % len(o.extra_params)]]
    elif op in ("p-inner", "p-list") and o.extra_params:
        v = o.extra_params[sorted(o.extra_params)[k % len(o.extra_params)]]
        if isinstance(v, list):
            if not v:
                return False
            v = v[k % len(v)]
        if op == "p-list" and any(isinstance(x, list) for x in v.values()):
            [x for _, x in sorted(v.items()) if isinstance(x, list)][0].append(txt)
        else:
            v["X-NEW"] = [txt]
    elif op in ("list-append", "list-clear") and isinstance(o, (ics.Event, ics.Todo, ics.Calendar)):
        names = {"Calendar": ["events", "todos"], "Event": ["alarms", "attach", "attendees", "categories"]}.get(type(o).__name__, ["alarms", "attach"])
        l = getattr(o, names[k % len(names)])
        if op == "list-append":
            l.append({"events": ics.Event, "todos": ics.Todo, "alarms": ics.DisplayAlarm}.get(names[k % len(names)], lambda: txt)())
        else:
            l.clear()
    else:
        return False
    return True


def state(o):
    from ics.component import Component

    s = build.snap(o)
    if isinstance(o, Component):
        return s, build.snap(o.extra), build.snap(o.extra_params)
    return s


def text(o):
    return o.serialize()


def check_clone(c, note):
    import ics
    from ics.component import Component
    from ics.contentline import Container, ContentLine

    cal = objects(c)
    cands = candidates(cal, c["what"])
    if not cands:
        return
    o = cands[c["pick"] % len(cands)]
    deep = c["what"] == "deep"
    before = state(o)
    before_text = text(o)
    cl = o.clone(deep=True) if deep else o.clone()
    note(c["what"], c["src"])
    check(cl is not o, "clone is the object itself")
    eq(type(cl), type(o), "type of the clone")
    eq(state(cl), before, "clone")
    check(cl == o and not (cl != o), "clone differs from its original")
    eq(text(cl), before_text, "serialization of the clone")
    eq(state(o), before, "original after cloning")
    if isinstance(o, Component):
        note.nontrivial(len(o.extra) or o.extra_params)
        eq(o.extra.name, cl.extra.name, "component name")
    else:
        note.nontrivial(len(o) if isinstance(o, Container) else o.params)
    if isinstance(o, ics.Calendar):
        eq(sorted(id(e) for e in cl.timeline), with_begin(cl), "timeline of the clone")
    if c["what"] == "zone":
        return
    if isinstance(o, ContentLine):
        eq(cl.line_nr, o.line_nr, "line number")
    # edits on either side
    cl2 = cl.clone(deep=True) if deep else cl.clone()
    for e in c["edits"]:
        a, b = (o, cl) if e[0] == "o" else (cl, o)
        keep, keep2 = state(b), state(cl2)
        if not mutate(a, e, deep):
            continue
        note("edit:" + e[1])
        eq(state(b), keep, "the other copy after %r" % (e,))
        eq(state(cl2), keep2, "an earlier clone after %r" % (e,))
    if isinstance(o, ics.Calendar):
        # queries of each copy see its own entries
        for x in (o, cl):
            eq(sorted(id(e) for e in x.timeline), with_begin(x), "timeline after edits")


def with_begin(cal):
    return sorted(id(e) for e in cal.events if e.begin is not None)


# ------------------------------------------------------------------ explicit items


@st.composite
def tree(draw):
    return {"items": draw(st.lists(gen.extra_item(), max_size=4)), "other": draw(st.lists(gen.extra_item(), max_size=3)), "deep": draw(st.booleans()),
            "give": draw(st.booleans()), "edits": draw(st.lists(edit(), min_size=1, max_size=5))}


def check_tree(c, note):
    from ics.contentline import Container

    o = Container("X-ROOT", [build.item_of(i) for i in c["items"]])
    other = [build.item_of(i) for i in c["other"]]
    keep = build.snap(o), [build.snap(i) for i in other]
    cl = o.clone(items=other if c["give"] else None, deep=c["deep"])
    eq((build.snap(o), [build.snap(i) for i in other]), keep, "original")
    src = other if c["give"] else list(o)
    eq([build.snap(i) for i in cl], [build.snap(i) for i in src], "items of the clone")
    eq(cl.name, "X-ROOT", "name")
    mine = flat(src, [])
    theirs = flat(cl, [])
    eq([type(i) for i in theirs], [type(i) for i in mine], "types")
    if c["deep"]:
        check(not ({id(i) for i in mine} & {id(i) for i in theirs}), "deep clone shares items")
    else:
        check(all(a is b for a, b in zip(src, cl)), "shallow clone copies items")
    note.nontrivial(bool(src))
    note("deep" if c["deep"] else "shallow", "given" if c["give"] else "own")
    for e in c["edits"]:
        if c["deep"]:
            s1 = [build.snap(i) for i in src]
            mutate(cl, ["c"] + e[1:], True)
            eq([build.snap(i) for i in src], s1, "source items after %r" % (e,))
    eq(build.snap(o), keep[0], "original after edits") if c["deep"] or c["give"] else None


# ------------------------------------------------------------------ stripping


@st.composite
def strip(draw):
    return {"what": draw(st.sampled_from(["entry", "calendar", "entry", "alarm"])), "pick": draw(st.integers(0, 20)),
            "name": draw(st.sampled_from([None, None, "X-RENAMED"])),
            "kw": {k: draw(st.sampled_from([None, True, None, False] if k != "property_merging" else [None, True, True, False]))
                   for k in ("extra_properties", "extra_params", "property_merging")},
            "merged": draw(st.booleans()), "all": draw(st.sampled_from([None, True, False])), "cal": draw(foreign.some(2))}


def check_strip(c, note):
    import ics
    import attr
    from ics.contentline import string_to_container
    from ics.valuetype.text import TextConverter

    spec = c["cal"]
    if c.get("merged"):
        spec = dict(spec, nodes=[["C", n[1], n[2] + [["L", "CATEGORIES", [], "one,two,three"]]] if n[0] == "C" and n[1].upper() == "VEVENT" else n
                                 for n in spec["nodes"]])
    cal = ics.Calendar(foreign.text_of(spec))
    cands = candidates(cal, c["what"])
    if not cands:
        return
    o = cands[c["pick"] % len(cands)]
    if c.get("name"):
        o.extra.name = c["name"]
    kw = {k: v for k, v in c["kw"].items() if v is not None}
    if c["all"] is not None:
        kw["all_extras"] = c["all"]
    dflt = bool(c["all"])
    props, params, merging = (dflt if c["kw"][k] is None else c["kw"][k] for k in ("extra_properties", "extra_params", "property_merging"))
    keep = o.clone()
    known = {f.name: build.snap(getattr(o, f.name)) for f in attr.fields(type(o)) if f.name not in ("extra", "extra_params")}
    extra, ep = build.snap(o.extra), copy.deepcopy(o.extra_params)
    keep_state = state(keep)
    note.nontrivial(len(o.extra) or o.extra_params)
    if not (props or params or merging):
        check(raises(o.strip_extras, **kw), "nothing to strip")
        props = params = merging = False
    else:
        o.strip_extras(**kw)
    eq({f: build.snap(getattr(o, f)) for f in known}, known, "known attributes")
    eq(build.snap(o.extra), (extra[0], extra[1], []) if props else extra, "extra properties")
    if params:
        want = {}
    else:
        want = ep
        if merging:
            for v in want.values():
                if isinstance(v, list):
                    for d in v:
                        d.pop("__merge_next", None)
    eq(build.snap(o.extra_params), build.snap(want), "extra parameters")
    eq(state(keep), keep_state, "clone taken before stripping")
    note("props:%d" % props, "params:%d" % params, "merging:%d" % merging)
    # stripping a clone leaves the original alone
    s = state(o)
    o.clone().strip_extras(all_extras=True)
    eq(state(o), s, "original after stripping its clone")
    text = o.serialize()
    if isinstance(o, ics.Event):
        lines = [l for l in string_to_container(text) if l.name == "CATEGORIES"]
        eq([x for l in lines for x in TextConverter.split_value_list(l.value)], [TextConverter.serialize(x) for x in o.categories], "categories written")
        if merging or params:
            eq(len(lines), len(o.categories), "lines after stripping what merges them")


# ------------------------------------------------------------------ the standard library's copies


@st.composite
def std(draw):
    c = {"src": draw(st.sampled_from(["foreign", "api"])), "what": draw(st.sampled_from(["calendar", "entry", "entry", "zone", "zone", "alarm", "tree", "line", "person", "timespan"])),
         "pick": draw(st.integers(0, 50)), "how": draw(st.sampled_from(["deepcopy", "deepcopy", 2, 4, 5])), "again": draw(st.booleans()),
         "edits": draw(st.lists(edit(), min_size=2, max_size=5)), "look": draw(st.lists(gen.ymdhms(1960, 2040).map(lambda y: y[:6]), min_size=1, max_size=4))}
    if c["src"] == "foreign":
        c["cal"] = draw(foreign.some(3))
    else:
        c["cal"] = draw(gen.some_calendar(max_entries=3, lo=1971, hi=2037))
        e = draw(gen.entry(lo=1971, hi=2037, kind="event"))
        c["cal"]["entries"].append(e)
        if c["what"] == "alarm":
            e["alarms"] = e.get("alarms") or [draw(gen.alarm())]
        if c["what"] == "person":
            e["organizer"] = e.get("organizer") or draw(gen.person())
    return c


def check_std(c, note):
    import pickle
    from datetime import datetime

    import ics
    from ics.component import Component
    from ics.contentline import Container, ContentLine
    from ics.timezone import Timezone, is_utc

    cal = objects(c)
    ents = list(cal.events) + list(cal.todos)
    if c["what"] == "person":
        cands = [p for e in cal.events for p in list(e.attendees) + [e.organizer] if p is not None]
    elif c["what"] == "timespan":
        cands = [e.timespan for e in ents]
    elif c["what"] == "zone":
        cands = [d.tzinfo for e in ents for d in (e.begin, e.end if hasattr(e, "end") else e.due) if d is not None and isinstance(d.tzinfo, Timezone)]
        cands = cands or [Timezone.from_tzid(sorted(bundled_names())[c["pick"] * 7])]
    else:
        cands = candidates(cal, c["what"])
    if not cands:
        return
    o = cands[c["pick"] % len(cands)]
    how = copy.deepcopy if c["how"] == "deepcopy" else lambda x: pickle.loads(pickle.dumps(x, c["how"]))
    serial = hasattr(o, "serialize")
    before, before_text, whole = state(o), serial and text(o), state(cal)
    cl = how(o)
    if c["again"]:
        cl = how(cl)
    note(c["what"], c["src"], str(c["how"]))
    check(cl is not o and type(cl) is type(o), "copy %r of %r", cl, o)
    eq(state(cl), before, "copy")
    if comparable(cal):
        check(cl == o and o == cl and not (cl != o), "copy differs from its original")
    eq([str(cl), serial and text(cl)], [str(o), before_text], "texts of the copy")
    eq(state(cal), whole, "everything after copying")
    if isinstance(o, Component):
        note.nontrivial(len(o.extra) or o.extra_params or isinstance(o, Timezone) and len(o.observances) > 1)
        eq([cl.extra.name, len(cl.extra)], [o.extra.name, len(o.extra)], "extras of the copy")
    if isinstance(o, Timezone):
        eq([is_utc(cl), cl.is_builtin, hash(cl.tzid)], [is_utc(o), o.is_builtin, hash(o.tzid)], "kind of zone")
        for y in c["look"]:
            d = datetime(*y)
            for f in (0, 1):
                a, b = d.replace(tzinfo=cl, fold=f), d.replace(tzinfo=o, fold=f)
                eq([a.utcoffset(), a.dst(), a.tzname()], [b.utcoffset(), b.dst(), b.tzname()], "offset at %r" % (y,))
                eq(a.astimezone(o).replace(tzinfo=None), b.astimezone(cl).replace(tzinfo=None), "conversion at %r" % (y,))
        return
    if isinstance(o, (ics.Event, ics.Todo)):
        for x, y in ((cl.begin, o.begin), (cl.dtstamp, o.dtstamp)):
            if x is not None:
                eq([x.utcoffset(), x.replace(tzinfo=None)], [y.utcoffset(), y.replace(tzinfo=None)], "times of the copy")
    if isinstance(o, ics.Calendar):
        eq(sorted(id(e) for e in cl.timeline), with_begin(cl), "timeline of the copy")
        check(not {id(e) for e in list(cl.events) + list(cl.todos)} & {id(e) for e in ents}, "copy shares entries")
    if not isinstance(o, (Component, Container, ContentLine)):
        return
    # edits at any depth of either side
    for e in c["edits"]:
        a, b = (o, cl) if e[0] == "o" else (cl, o)
        keep = state(b)
        inner = [a]
        if isinstance(a, ics.Calendar):
            inner += list(a.events) + list(a.todos)
        inner += [al for x in inner if hasattr(x, "alarms") for al in x.alarms]
        target = inner[e[2] % len(inner)]
        if not mutate(target, e, True):
            continue
        note("edit:" + e[1])
        eq(state(b), keep, "the other copy after %r" % (e,))


SUBS = [Sub("std", std, check_std, quick=1200, shards=4), Sub("clone", case, check_clone, quick=1200, shards=6), Sub("tree", tree, check_tree, quick=1500), Sub("strip", strip, check_strip, quick=500, shards=2)]
