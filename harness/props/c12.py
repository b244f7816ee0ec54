import datetime as D
from datetime import datetime, timedelta
from zoneinfo import ZoneInfo

from hypothesis import strategies as st

from harness import build, gen, instants
from harness.core import Sub, check, eq, raises, set_tz
from harness.instants import LOCALS, UTC

RULE = ("Calendars of up to 12 events (plus todos) on a half-hour grid around one base time, in random zones or floating under a random "
        "local zone, queried through calendar.timeline or a Timeline with a normalization; queries included/overlapping/at/start_after/"
        "on with boundaries on the same grid and in every argument form; then edits of the calendar (add, remove, move, swap the list, "
        "all-day) and the same queries again; now/today around the real clock. Non-trivial: some query selects a proper non-empty subset "
        "of the events.")
ASSUMPTIONS = ["no time involved is ambiguous or skipped in its zone", "entries with equal (begin, end) may come in any order",
               "the day of a query is the wall-clock day of the given date in its own zone or the local zone"]


# ------------------------------------------------------------------ oracle


def act(d, norm, local):
    """apply a normalization to one datetime"""
    if d is None or norm is None:
        return d
    action = norm["floating"] if d.tzinfo is None else norm["zoned"]
    if action == "ignore":
        return d
    tz = build.tz_of(norm["tz"])
    if action == "replace":
        return d.replace(tzinfo=tz)
    return (instants.instant(d, local)).replace(tzinfo=UTC).astimezone(tz)


def norm_of(norm):
    from ics.timespan import Normalization, NormalizationAction as A

    if norm is None:
        return None
    m = {"ignore": A.IGNORE, "replace": A.REPLACE, "convert": A.CONVERT}
    return Normalization(build.tz_of(norm["tz"]), m[norm["floating"]], m[norm["zoned"]])


def model_of(e, norm, local):
    """real event -> (begin instant, effective end instant) or None"""
    ts = e.timespan
    if ts.begin_time is None:
        return None
    b, en = act(ts.begin_time, norm, local), act(ts.end_time, norm, local)
    b, en = instants.effective((b, en, ts.duration, ts.precision), False)
    return instants.instant(b, local), instants.instant(en, local), b, en


class Unclear(Exception):
    pass


def clear(local, *ds):
    for d in ds:
        if d is not None and instants.ambiguous(d, local):
            raise Unclear()


def midnight(d):
    if isinstance(d, datetime):
        return datetime(d.year, d.month, d.day, tzinfo=d.tzinfo)
    return datetime(d.year, d.month, d.day)


def overlap(m, b, e):
    return b <= m[0] < e or m[0] <= b < m[1]


def inside(m, b, e):
    return b <= m[0] and m[1] < e


def check_query(tl, q, events, base, norm, local, note):
    """run one query against brute force"""
    from ics.timespan import EventTimespan, Timespan

    models = []
    for e in events:
        m = model_of(e, norm, local)
        if m is not None and m[0] > m[1] or m is not None and m[2].replace(tzinfo=None) > m[3].replace(tzinfo=None) and m[2].tzinfo is m[3].tzinfo:
            raise Unclear()  # replacing the zones of such a span has no valid result
        if m is not None:
            ts = e.timespan
            clear(local, ts.begin_time, ts.end_time, m[2], m[3])
            models.append((e, m))
    order = list(tl)
    eq(sorted(map(id, order)), sorted(id(e) for e, _ in models), "events of the timeline")
    by = {id(e): m for e, m in models}
    keys = [by[id(e)][:2] for e in order]
    eq(keys, sorted(keys), "chronological order")
    pairs = list(tl.iterator())
    eq([id(e) for _, e in pairs], [id(e) for e in order], "iterator()")
    for ts, e in pairs:
        eq((instants.instant(ts.get_begin(), local), instants.instant(ts.get_effective_end(), local)), by[id(e)][:2], "normalized span")

    kind = q["q"]

    def at(x):
        d = instants.show(base + timedelta(minutes=30 * x[0]), x[1], local)
        clear(local, d)
        n = act(d, norm, local)
        clear(local, n)
        return d, instants.instant(n, local)

    got = want = None
    if kind in ("included", "overlapping"):
        b, bi = at(q["b"])
        e, ei = at(q["e"])
        if bi > ei or act(b, norm, local) > act(e, norm, local) or (b.tzinfo is None) != (e.tzinfo is None) or b > e:
            raise Unclear()
        if q["form"] == 1:
            args = (Timespan(b, e),)
        elif q["form"] == 2:
            args = (EventTimespan(b, e),)
        elif q["form"] == 3:
            args = (EventTimespan(b, None, e - b),)
            e2 = act(b, norm, local) + (e - b)
            clear(local, e2)
            ei = instants.instant(e2, local)
        else:
            args = (b, e)
        pred = overlap if kind == "overlapping" else inside
        want = [o for o in order if pred(by[id(o)], bi, ei)]
        got = list(getattr(tl, kind)(*args))
        if len(args) == 1:
            check(raises(lambda: list(getattr(tl, kind)(*args, e))), "%s took a span and another end", kind)
    elif kind == "start_after":
        t, ti = at(q["b"])
        want = [o for o in order if by[id(o)][0] > ti]
        got = list(tl.start_after(t))
    elif kind == "at":
        t, ti = at(q["b"])
        want = [o for o in order if by[id(o)][0] <= ti < by[id(o)][1]]
        got = list(tl.at(t))
    elif kind == "on":
        t, _ = at(q["b"])
        arg = t.date() if q["form"] == 1 else t
        b = midnight(arg)
        e = b + timedelta(days=1)
        clear(local, b, e)
        b, e = act(b, norm, local), act(e, norm, local)
        clear(local, b, e)
        bi, ei = instants.instant(b, local), instants.instant(e, local)
        pred = inside if q["strict"] else overlap
        want = [o for o in order if pred(by[id(o)], bi, ei)]
        got = list(tl.on(arg, strict=True) if q["strict"] else tl.on(arg))
    eq([id(x) for x in got], [id(x) for x in want], "%s: %r" % (q, [str(x) for x in got]))
    note(kind, "some" if 0 < len(want) < len(order) else "none" if not want else "all")
    note.nontrivial(0 < len(want) < len(order))


# ------------------------------------------------------------------ generation

ACTIONS = ["ignore", "replace", "convert"]


@st.composite
def query(draw, kind=None):
    k = kind or draw(st.sampled_from(["included", "overlapping", "start_after", "at", "on", "on"]))
    q = {"q": k, "b": [draw(st.one_of(st.integers(-8, 8), st.integers(-150, 150))), draw(instants.zones())]}
    if k in ("included", "overlapping"):
        z = q["b"][1]
        q["e"] = [q["b"][0] + draw(st.one_of(st.integers(0, 12), st.integers(0, 300))),
                  None if z is None else draw(st.one_of(st.just(z), instants.zones(False)))]
    q["form"] = draw(st.integers(0, 3))
    if k == "on":
        q["strict"] = draw(st.booleans())
    return q


@st.composite
def edit(draw):
    k = draw(st.sampled_from(["add", "remove", "begin", "end", "duration", "all_day", "reorder", "assign", "span"]))
    e = {"op": k, "i": draw(st.integers(0, 11))}
    if k in ("add", "span"):
        e["s"] = draw(instants.span(False))
    if k in ("begin", "end"):
        e["t"] = draw(st.integers(-8, 8))
    if k == "duration":
        e["d"] = draw(st.integers(0, 60))
    if k == "reorder":
        e["seed"] = draw(st.integers(0, 1000))
    return e


@st.composite
def strategy(draw):
    with_norm = draw(st.integers(0, 3)) == 3
    norm = None
    if with_norm:
        norm = {"tz": draw(st.one_of(st.sampled_from(gen.UTCS), gen.tzspec())), "floating": draw(st.sampled_from(ACTIONS)),
                "zoned": draw(st.sampled_from(ACTIONS))}
    sp = instants.span(False)
    if with_norm:
        sp = sp.filter(lambda s: not s["kind"].startswith("day"))
    n = draw(st.integers(0, 12))
    spans = []
    for i in range(n):
        if spans and draw(st.integers(0, 5)) == 5:
            spans.append(spans[draw(st.integers(0, len(spans) - 1))])
        else:
            spans.append(draw(sp))
    edits = draw(st.lists(edit(), max_size=4))
    if with_norm:
        edits = [e for e in edits if e["op"] != "all_day" and not e.get("s", {}).get("kind", "").startswith("day")]
    return {"local": draw(st.sampled_from(LOCALS)), "base": draw(instants.base()), "norm": norm, "events": spans,
            "todos": draw(st.lists(instants.span(True), max_size=2)), "queries": draw(st.lists(query(), min_size=1, max_size=5)),
            "edits": edits, "queries2": draw(st.lists(query(), max_size=3))}


@st.composite
def many(draw):
    """more events than fit on one hand"""
    n, step = draw(st.integers(13, 150)), draw(st.integers(1, 5))
    c = draw(strategy())
    k = len(c["events"])
    if k:
        c["events"] = [c["events"][i * step % k] for i in range(n)]
    return c


def apply(cal, e, base_, local):
    import ics
    import random

    ev = cal.events[e["i"] % len(cal.events)] if cal.events else None
    op = e["op"]
    if op == "add":
        cal.events.append(instants.make(e["s"], instants.build_span(e["s"], base_, local), summary="added"))
    elif op == "assign":
        cal.events = [x for k, x in enumerate(cal.events) if k != e["i"]] + [ics.Event(summary="new")]
    elif op == "reorder":
        random.Random(e["seed"]).shuffle(cal.events)
    elif ev is None:
        return
    elif op == "remove":
        cal.events = [x for x in cal.events if x is not ev]
    elif op == "span":
        ev.timespan = instants.make(e["s"], instants.build_span(e["s"], base_, local), False)
    elif op == "all_day":
        ev.make_all_day()
    elif ev.begin is not None and not ev.all_day:
        try:
            if op == "duration":
                ev.duration = timedelta(minutes=30 * e["d"])
            else:
                tz = ev.begin.tzinfo
                d = ((datetime(*base_) + timedelta(minutes=30 * e["t"])).replace(tzinfo=tz))
                setattr(ev, op, d)
        except ValueError:
            pass


def check_case(c, note):
    import ics
    from ics.timeline import Timeline

    local, base_ = c["local"], c["base"]
    base = datetime(*base_)
    set_tz(local)
    cal = ics.Calendar(
        events=[instants.make(s, instants.build_span(s, base_, local), summary="e%d" % (i % 3)) for i, s in enumerate(c["events"])],
        todos=[instants.make(s, instants.build_span(s, base_, local)) for s in c["todos"]])
    tl = cal.timeline if c["norm"] is None else Timeline(cal, norm_of(c["norm"]))

    def run(qs):
        for q in qs:
            try:
                check_query(tl, q, cal.events, base, c["norm"], local, note)
            except Unclear:
                note("unclear")

    before = [build.snap(e) for e in cal.events]
    run(c["queries"])
    eq([build.snap(e) for e in cal.events], before, "events after queries")
    # insertion order does not matter
    if len(cal.events) > 1 and c["norm"] is None:
        other = ics.Calendar(events=list(reversed(cal.events)))
        for a, b in zip(cal.timeline, other.timeline):
            eq(a.timespan < b.timespan or b.timespan < a.timespan, False, "order depends on insertion")
    for e in c["edits"]:
        apply(cal, e, base_, local)
    if c["edits"]:
        if c["norm"] is not None and any(e.all_day for e in cal.events):
            return
        run(c["queries2"])


# ------------------------------------------------------------------ the real clock


def clock():
    return st.fixed_dictionaries(dict(local=st.sampled_from(LOCALS + ["Pacific/Kiritimati", "Pacific/Pago_Pago"]), strict=st.booleans(),
                                      events=st.lists(instants.span(False), max_size=8)))


def check_clock(c, note):
    import ics

    local = c["local"]
    set_tz(local)
    now = datetime.now(UTC)
    base = (now.replace(tzinfo=None) + timedelta(minutes=15)).replace(second=0, microsecond=0)
    base_ = [base.year, base.month, base.day, base.hour, base.minute, 0]
    day = now.astimezone(ZoneInfo(local))
    if day.date() != (day + timedelta(minutes=3)).date():
        return
    cal = ics.Calendar(events=[instants.make(s, instants.build_span(s, base_, local)) for s in c["events"]])
    models = {}
    try:
        for e in cal.events:
            m = model_of(e, None, local)
            if m is not None:
                clear(local, m[2], m[3])
                models[id(e)] = m
        t = now.replace(tzinfo=None)
        order = list(cal.timeline)
        got_now = [id(e) for e in cal.timeline.now()]
        got_day = [id(e) for e in cal.timeline.today(strict=c["strict"])]
        b = datetime(day.year, day.month, day.day)
        clear(local, b, b + timedelta(days=1))
        bi, ei = instants.instant(b, local), instants.instant(b + timedelta(days=1), local)
    except Unclear:
        note("unclear")
        return
    eq(sorted(map(id, order)), sorted(models), "events of the timeline")
    want = [id(e) for e in order if models[id(e)][0] <= t < models[id(e)][1]]
    eq(got_now, want, "now")
    pred = inside if c["strict"] else overlap
    eq(got_day, [id(e) for e in order if pred(models[id(e)], bi, ei)], "today")
    note.nontrivial(0 < len(want) < len(order) or 0 < len(got_day) < len(order))
    note("now" if want else "not-now", "today" if got_day else "not-today")


SUBS = [
    Sub("many", many, check_case, quick=60, shards=2),
    Sub("queries", strategy, check_case, quick=1500, shards=6),
    Sub("clock", clock, check_clock, quick=400, shards=2),
]
