from datetime import datetime

from hypothesis import strategies as st

from harness import build, gen, instants
from harness.core import Sub, check, eq, set_tz
from harness.instants import LOCALS

RULE = ("Lists of events, of todos or of both whose times lie on a half-hour grid around one base time (many ties), each shown in a random zone "
        "or floating under a random local zone, with unset times and colliding or unset summaries: all pairs under all six operators, "
        "sorted() and list.sort of a shuffled list, spans alone; and pairs of fully populated entries that differ in exactly one "
        "attribute. Non-trivial: two entries tie on their first key, or a changed attribute is compared.")
ASSUMPTIONS = ["times after 1900 that are neither ambiguous nor skipped in their zone"]

SUMMARIES = [None, None, "", "a", "a", "b", "B", "aa", "é", "\U0001d518"]


@st.composite
def strategy(draw):
    todo = draw(st.sampled_from([True, False, True, False, None]))  # None: events and todos in one list
    n = draw(st.integers(2, 7))
    items = [[draw(instants.span(todo)), draw(st.sampled_from(SUMMARIES))] for _ in range(n)]
    for i in range(1, n):
        if draw(st.integers(0, 3)) == 3:  # reuse the times of another entry
            items[i][0] = items[draw(st.integers(0, i - 1))][0]
            if todo is None and items[i][0]["kind"] != "due":
                items[i][0] = dict(items[i][0], todo=draw(st.booleans()))
    return {"local": draw(st.sampled_from(LOCALS)), "base": draw(instants.base()), "items": items}


@st.composite
def many(draw):
    c = draw(strategy())
    n, step = draw(st.integers(10, 40)), draw(st.integers(1, 5))
    k = len(c["items"])
    c["items"] = [[c["items"][i * step % k][0], c["items"][i // 3 % k][1]] for i in range(n)]
    return c


def key_of(vals, todo, summary, local):
    b, e = (instants.instant(d, local) for d in instants.effective(vals, todo))
    lo = datetime(1900, 1, 2)
    a = [(0, lo) if d is None else (1, d) for d in ((e, b) if todo else (b, e))]
    return (*a, summary or "")


def check_order(c, note):
    local = c["local"]
    set_tz(local)
    objs, spans, keys = [], [], []
    for s, summary in c["items"]:
        vals = instants.build_span(s, c["base"], local)
        if any(d is not None and instants.ambiguous(d, local) for d in (*vals[:2], *instants.effective(vals, s["todo"]))):
            note("ambiguous")
            continue
        objs.append(instants.make(s, vals, summary=summary))
        spans.append(instants.make(s, vals, False))
        keys.append(key_of(vals, s["todo"], summary, local))
    n = len(objs)
    for i in range(n):
        for j in range(n):
            for xs, kk in ((objs, keys), (spans, [k[:2] for k in keys])):
                a, b, ka, kb = xs[i], xs[j], kk[i], kk[j]
                got = (a < b, a <= b, a > b, a >= b)
                eq(got, (ka < kb, ka <= kb, ka > kb, ka >= kb), "< <= > >= of %r and %r" % (a, b))
            if i != j:
                tie = keys[i][0] == keys[j][0]
                note.nontrivial(tie)
                note("tie1" if tie else "distinct", "tie2" if keys[i][:2] == keys[j][:2] else "", "tie3" if keys[i] == keys[j] else "",
                     "unset" if (0,) == keys[i][0][:1] else "")
            if keys[i] != keys[j]:
                note("mixed" if type(objs[i]) is not type(objs[j]) else "")
                check(not (objs[i] == objs[j]) and objs[i] != objs[j], "entries with different keys are equal: %r", objs[i])
    want = sorted(range(n), key=lambda i: keys[i])
    eq([id(o) for o in sorted(objs)], [id(objs[i]) for i in want], "sorted()")
    l = list(objs)
    l.sort(reverse=True)
    eq([id(o) for o in l], [id(objs[i]) for i in sorted(range(n), key=lambda i: keys[i], reverse=True)], "sort(reverse)")
    if n:
        eq(next(k for p, k in zip(objs, keys) if p is min(objs)), min(keys), "min")
        eq(next(k for p, k in zip(objs, keys) if p is max(objs)), max(keys), "max")


# ------------------------------------------------------------------ equality


@st.composite
def equality(draw):
    e = draw(gen.entry(customs=0, txt=gen.text(3)))
    other = draw(gen.entry(kind=e["kind"], customs=0, txt=gen.text(3)))
    keys = sorted(k for k in set(e) | set(other) if k not in ("kind",))
    return {"a": e, "b": other, "key": draw(st.sampled_from(keys)), "local": draw(st.sampled_from(LOCALS))}


ALL = ["alarms", "attach", "percent", "priority", "completed", "classification", "transparent", "organizer", "geo", "attendees",
       "categories", "summary", "uid", "description", "location", "status", "url", "created", "last_modified", "dtstamp"]


def check_equality(c, note):
    from harness.props.c06 import picture

    set_tz(c["local"])
    a, a2 = build.entry_of(c["a"]), build.entry_of(c["a"])
    check(a == a2 and not (a != a2), "entries built from the same values differ: %r", c["a"])
    eq((a < a2, a <= a2, a > a2, a >= a2), (False, True, False, True), "order of equal entries")
    mixed = dict(c["a"])
    mixed.pop(c["key"], None)
    if c["key"] in c["b"]:
        mixed[c["key"]] = c["b"][c["key"]]
    b = build.entry_of(mixed)
    pa, pb = picture(a), picture(b)
    if c["key"] == "span":
        def shown(e):
            t = e.timespan
            i = [(d.tzinfo is None, instants.instant(d, c["local"])) if d is not None else None for d in (t.begin_time, t.end_time)]
            return i, t.duration, t.precision
        same = shown(a) == shown(b)
    else:
        same = pa == pb
    if not same:
        check(not (a == b) and a != b, "equal although %s differs: %r / %r", c["key"], c["a"].get(c["key"]), mixed.get(c["key"]))
        check(not (b == a) and b != a, "equal (reversed) although %s differs", c["key"])
        note.nontrivial()
        note("differs:" + c["key"])
    elif pa == pb:
        check(a == b, "not equal although nothing differs")
    # the same change made by assignment instead of construction
    if c["key"] not in ("span", "extra"):
        x = build.entry_of(c["a"])
        setattr(x, c["key"], getattr(b, c["key"]))
        check(x == b and not x != b, "assigning %s does not give the entry constructed with it", c["key"])
        if not same:
            check(not x == a and x != a, "assigned %s ignored by ==", c["key"])
    for o in (None, 1, "x", a.timespan):
        check(not (a == o) and a != o, "entry equals %r", o)


SUBS = [
    Sub("many", many, check_order, quick=40, shards=2),
    Sub("order", strategy, check_order, quick=2000, shards=6),
    Sub("equality", equality, check_equality, quick=1500, shards=3),
]
