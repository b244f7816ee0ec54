"""Instants shown in various zones, with an oracle for their order (used by C10-C12, C22)."""
import bisect
import datetime as D
import functools
from datetime import datetime, timedelta
from zoneinfo import ZoneInfo

from hypothesis import strategies as st

from harness import build, gen, ref

LOCALS = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Sydney"]
UTC = D.timezone.utc


def zones(floating=True):
    base = [st.sampled_from(gen.UTCS), gen.tzspec()]
    if floating:
        base = [st.none(), st.none()] + base
    return st.one_of(*base)


@functools.lru_cache(None)
def bundled(tzid):
    """our own transition model of a bundled definition: (model, UTC times, offsets after them)"""
    from harness.props.c13 import bundled_spec

    m = ref.ZoneModel(bundled_spec(tzid.split("/ics.py/2020.1/")[-1]), 1900, 2110)
    return m, [u for u, _, _ in m.tr], [timedelta(seconds=ob["to"]) for _, _, ob in m.tr]


def bundled_offset(tz, utc):
    m, us, offs = bundled(tz.tzid)
    i = bisect.bisect_right(us, utc)
    return offs[i - 1] if i else timedelta(seconds=m.initial()["to"])


def bundled_candidates(tz, local):
    """offsets under which the zone shows this local time"""
    return [o for o in sorted(set(bundled(tz.tzid)[2])) if bundled_offset(tz, local - o) == o]


def ours(tz):
    return hasattr(tz, "observances") and "/ics.py/2020.1/" in tz.tzid


def ambiguous(d, local):
    """local time in a gap or a repeated hour of its zone"""
    tz = d.tzinfo if d.tzinfo is not None else ZoneInfo(local)
    d = d.replace(tzinfo=tz)
    if ours(tz):
        naive = d.replace(tzinfo=None)
        return len(bundled_candidates(tz, naive)) != 1 or not bundled(tz.tzid)[0].is_clear(naive)
    a, b = d.replace(fold=0).utcoffset(), d.replace(fold=1).utcoffset()
    if a != b:
        return True
    # dateutil zones do not report gaps through fold: look at the round trip
    back = d.astimezone(UTC).astimezone(tz)
    return back.replace(tzinfo=None) != d.replace(tzinfo=None)


def show(utc, zone, local):
    """naive UTC datetime -> the same instant in a zone (None: floating, read in the local zone)"""
    aware = utc.replace(tzinfo=UTC)
    if zone is None:
        return aware.astimezone(ZoneInfo(local)).replace(tzinfo=None)
    tz = build.tz_of(zone)
    if ours(tz):
        # do not depend on the conversion under test
        return (utc + bundled_offset(tz, utc)).replace(tzinfo=tz)
    return aware.astimezone(tz)


def instant(d, local):
    """-> naive UTC"""
    if d is None:
        return None
    if d.tzinfo is None:
        d = d.replace(tzinfo=ZoneInfo(local))
    if ours(d.tzinfo):
        naive = d.replace(tzinfo=None)
        c = bundled_candidates(d.tzinfo, naive)
        if len(c) == 1:
            return naive - c[0]
    return (d.replace(tzinfo=None) - d.utcoffset())


@st.composite
def base(draw):
    y = draw(gen.ymdhms(1981, 2035))
    y[5] = 0
    y[4] = y[4] // 30 * 30
    return y


@st.composite
def span(draw, todo=None, empty=True):
    """{"todo","kind","b":[step,zone],"e":[step,zone],"d":steps,"plain":bool} in half-hour steps from the base"""
    todo = draw(st.booleans()) if todo is None else todo
    kinds = ["end", "end", "end", "dur", "dur", "none", "day", "day_end", "day_dur"] + ["empty"] * empty + ["due"] * (todo and empty)
    k = draw(st.sampled_from(kinds))
    s = {"todo": todo, "kind": k}
    if k == "empty":
        return s
    step = st.one_of(st.integers(-6, 6), st.integers(-6, 6), st.integers(-150, 150))
    z = draw(zones())
    if k.startswith("day"):
        s["day"] = draw(st.integers(-2, 2))
        s["n"] = draw(st.integers(1, 3))
        return s
    s["b"] = [draw(step), z]
    if k == "end":
        n = draw(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 200)))
        z2 = draw(st.one_of(st.just(z), zones(False))) if z is not None else None
        s["e"] = [s["b"][0] + n, z2]
    if k == "dur":
        s["d"] = draw(st.one_of(st.integers(0, 6), st.integers(0, 200)))
    return s


def build_span(s, base_, local):
    """-> (begin, end, dur, precision) python values"""
    b0 = datetime(*base_)
    k = s["kind"]
    if k == "empty":
        return None, None, None, "second"
    if k.startswith("day"):
        b = datetime(*base_[:3]) + timedelta(days=s["day"])
        if k == "day_end":
            return b, b + timedelta(days=s["n"]), None, "day"
        if k == "day_dur":
            return b, None, timedelta(days=s["n"]), "day"
        return b, None, None, "day"
    b = show(b0 + timedelta(minutes=30 * s["b"][0]), s["b"][1], local)
    if k == "due":
        return None, b, None, "second"
    if k == "end":
        e = show(b0 + timedelta(minutes=30 * s["e"][0]), s["e"][1], local)
        if b > e and (ambiguous(b, local) or ambiguous(e, local)):
            e = b  # the wall times of a repeated hour may be reversed: no valid span
        return b, e, None, "second"
    if k == "dur":
        return b, None, timedelta(minutes=30 * s["d"]), "second"
    return b, None, None, "second"


def effective(vals, todo):
    b, e, d, p = vals
    if e is None and b is not None:
        if d is not None:
            e = b + d
        elif not todo:
            e = b + timedelta(days=1) if p == "day" else b
    return b, e


def make(s, vals, entry=True, **kw):
    import ics
    from ics.timespan import EventTimespan, TodoTimespan

    ts = (TodoTimespan if s["todo"] else EventTimespan)(*vals)
    if not entry:
        return ts
    return (ics.Todo if s["todo"] else ics.Event)(timespan=ts, **kw)
