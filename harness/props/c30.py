import datetime as D
import functools
import json
import pathlib
import warnings
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness import build, gen
from harness.core import Sub, check, eq, raises, set_tz
from harness.props.c13 import bundled_names, bundled_spec

RULE = ("All bundled and Windows zone names behind random prefixes, damaged and unknown names; histories of up to 8 conversions of zone objects of the "
        "standard library, dateutil and ics-py (fixed offsets with clashing names or offsets, zoneinfo, zone files, UTC objects, local zones, "
        "kinds that can't be converted) with no, separate or one shared context, under random local zones; zones named like bundled ones with the same or "
        "changed rules, converted to the bundled one. Compared with our own reading of the zone files and the list of names. Non-trivial: a name behind "
        "a prefix or from Windows, two conversions in one context, or a zone with changed rules.")
ASSUMPTIONS = ["names without '..' and of at most 200 characters", "zero-offset zones that are neither UTC objects nor named (Etc/)UTC are not decided",
               "the mapping of Windows names is the one that comes with the zone database"]
ROOT = "/usr/share/zoneinfo/"


@functools.lru_cache(None)
def windows():
    import ics_vtimezones

    return json.loads((pathlib.Path(ics_vtimezones.__file__).parent / "data" / "windows_zone_mapping.json").read_text())


@functools.lru_cache(None)
def known():
    return frozenset(bundled_names())


def resolve(name):
    """the bundled zone a name stands for, or None"""
    parts = [p for p in name.split("/") if p not in ("", ".")]
    for i in range(len(parts)):
        if "/".join(parts[i:]) in known():
            return "/".join(parts[i:])
    return windows().get(name)


# ------------------------------------------------------------------ names

PREFIXES = ["", "", "/", "/ics.py/2020.1/", "/ics.py/2031.7/", "/freeassociation.sourceforge.net/", "/citadel.org/20190914_1/", "x/", ROOT, "Europe/", "/softwarestudio.org/Tzfile/", "./"]


@st.composite
def name(draw):
    kind = draw(st.sampled_from(["olson", "olson", "olson", "windows", "windows", "junk"]))
    if kind == "olson":
        n = ["olson", draw(st.integers(0, 999))]
    elif kind == "windows":
        n = ["windows", draw(st.integers(0, 999))]
    else:
        n = ["junk", draw(st.sampled_from(["", "/", ".", "Europe", "America/Argentina", "No/Where", "Mars", "EST6", "GMT+1", "UTC0", " ", "Etc", "Berlin", "America", "zoneinfo", "é", "W. Europe"]) |
                          st.text(st.sampled_from("abEU/ .-_é"), max_size=10))]
    return n + [draw(st.sampled_from(PREFIXES)), draw(st.sampled_from([None] * 5 + ["lower", "chop", "append", "upper", "space", "ics", "double"]))]


def name_of(n):
    kind, i, prefix, damage = n
    if kind == "olson":
        s = sorted(known())[i % len(known())]
    elif kind == "windows":
        s = sorted(windows())[i % len(windows())]
    else:
        s = i
    if damage == "double":
        s = s.replace("/", "//")
    s = prefix + s
    return {"lower": s.lower(), "upper": s.upper(), "chop": s[:-1], "append": s + "x", "space": s + " ", "ics": s + ".ics"}.get(damage, s)


def check_zone(tz, olson, what):
    """a zone is the bundled definition"""
    import ics

    spec = bundled_spec(olson)
    check(isinstance(tz, ics.Timezone), "%s: %r", what, tz)
    eq(tz.tzid, spec["tzid"], "TZID of " + what)
    eq(str(tz), spec["tzid"], "text of " + what)
    eq([[o.NAME, o.tzoffsetfrom.total_seconds(), o.tzoffsetto.total_seconds(), o.tzname] for o in tz.observances],
       [["DAYLIGHT" if o["dst"] else "STANDARD", o["from"], o["to"], o["name"]] for o in spec["obs"]], "observances of " + what)
    for o, s in zip(tz.observances, spec["obs"]):
        eq(next(iter(o.rrule)), datetime(*s["start"]), "first onset of " + what)
        eq(len(o.rrule._rrule) > 0 and any(r._count is None for r in o.rrule._rrule), "rule" in s, "repetition in " + what)


def check_name(n, note):
    from ics.timezone import Timezone, is_utc

    s = name_of(n)
    want = resolve(s)
    if want is None:
        try:
            tz = Timezone.from_tzid(s)
        except ValueError:
            note("unknown")
            return
        check(False, "unknown name %r gives %r", s, tz)
    tz = Timezone.from_tzid(s)
    check_zone(tz, want, "zone %r" % s)
    check(Timezone.from_tzid(tz.tzid) == tz, "looking up the TZID of %r again", tz)
    check(tz.is_builtin, "%r isn't builtin", tz)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        check(tz.to_builtin() is tz, "to_builtin of a bundled zone")
    check(Timezone.from_tzinfo(tz) is tz, "conversion of an ics zone")
    if any(o["to"] for o in bundled_spec(want)["obs"]):
        check(not is_utc(tz), "%r taken for UTC", tz)
    note(n[0], "prefix" if n[2] else "plain")
    note.nontrivial(n[0] == "windows" or bool(n[2]))


# ------------------------------------------------------------------ objects

FIXED = [0, 3600, -3600, 7200, 19800, -12600, 1, -1, 86399, -86399, 45 * 60]
LABELS = [None, None, "A", "B", "CET", "Europe/Berlin", "X Y", "UTC+01:00", "é"]


def obj():
    return st.one_of(
        st.tuples(st.just("fixed"), st.sampled_from(FIXED), st.sampled_from(LABELS)),
        st.tuples(st.just("zi"), st.sampled_from(["Europe/Berlin", "America/New_York", "Asia/Tokyo", "Europe/Kyiv", "Etc/UTC", "Factory", "Etc/GMT+5", "Australia/Lord_Howe"]) | st.integers(0, 999), st.none()),
        st.tuples(st.just("du"), st.sampled_from(["Europe/Berlin", "America/New_York", "Asia/Tokyo", "Europe/Kyiv", "America/Argentina/Salta"]) | st.integers(0, 999), st.sampled_from(["gettz", "path", "/usr/local/share/zoneinfo/", "/opt/localtime/zones/", "C/tz/", "/usr/share/zoneinfo/posix/"])),
        st.tuples(st.just("utc"), st.sampled_from(["dt", "du", "ics", "zi", "zietc"]), st.none()),
        st.tuples(st.just("local"), st.sampled_from(["tzlocal", "file"]), st.none()),
        st.tuples(st.just("no"), st.sampled_from(["str", "range", "offset", "ical", "nokey", "own"]), st.none()),
        st.tuples(st.just("ics"), st.integers(0, 999), st.none()),
    ).map(list)


def objects():
    return st.fixed_dictionaries(dict(objs=st.lists(obj(), min_size=1, max_size=8), ctx=st.sampled_from(["none", "fresh", "shared", "shared"]),
                                      local=st.sampled_from(["Europe/Berlin", "America/New_York", "Asia/Kolkata"])))


def all_names():
    import zoneinfo

    return sorted(n for n in zoneinfo.available_timezones() if n != "localtime")


class Own(D.tzinfo):
    def utcoffset(self, dt):
        return timedelta(hours=3)

    dst = tzname = lambda self, dt: None


def make(o):
    """-> (object, expectation)"""
    import io
    import zoneinfo

    import dateutil.tz as T
    from ics.timezone import UTC, Timezone

    kind, a, b = o
    if kind == "fixed":
        z = D.timezone(timedelta(seconds=a)) if b is None else D.timezone(timedelta(seconds=a), b)
        return z, ["utc"] if a == 0 else ["fixed", z.tzname(None), a]
    if kind == "zi":
        n = a if isinstance(a, str) else all_names()[a % len(all_names())]
        if n in ("UTC", "Etc/UTC"):
            return zoneinfo.ZoneInfo(n), ["utc"]
        return zoneinfo.ZoneInfo(n), ["zone", resolve(n)]
    if kind == "du":
        n = a if isinstance(a, str) else all_names()[a % len(all_names())]
        if b not in ("gettz", "path") and pathlib.Path(ROOT + n).is_file():
            with open(ROOT + n, "rb") as f:
                return T.tzfile(f, b + n), ["zone", resolve(n)]
        z = T.tzfile(ROOT + n) if b == "path" and pathlib.Path(ROOT + n).is_file() else T.gettz(n)
        if isinstance(z, T.tzfile):
            return z, ["zone", resolve(n)]
        return z, ["utc"] if isinstance(z, T.tzutc) else ["any"]
    if kind == "utc":
        return {"dt": D.timezone.utc, "du": T.UTC, "ics": UTC, "zi": zoneinfo.ZoneInfo("UTC"), "zietc": zoneinfo.ZoneInfo("Etc/UTC")}[a], ["utc"]
    if kind == "local":
        return T.tzlocal() if a == "tzlocal" else local_file(), ["local"]
    if kind == "ics":
        n = sorted(known())[a % len(known())]
        z = Timezone.from_tzid(n)
        return z, ["same"]
    ical = "BEGIN:VTIMEZONE\r\nTZID:Q\r\nBEGIN:STANDARD\r\nDTSTART:19700101T000000\r\nTZOFFSETFROM:+0100\r\nTZOFFSETTO:+0100\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n"
    z = {"str": lambda: T.tzstr("EST5EDT"), "range": lambda: T.tzrange("EST", -18000), "offset": lambda: T.tzoffset("Q", 3600), "ical": lambda: T.tzical(io.StringIO(ical)).get(),
         "nokey": lambda: zoneinfo.ZoneInfo.from_file(open(ROOT + "Europe/Berlin", "rb")), "own": Own}[a]()
    return z, ["no"]


def local_file():
    import dateutil.tz as T

    with open(ROOT + "Europe/Paris", "rb") as f:
        return T.tzfile(f, "/some/where/localtime")


def convert(z, ctx):
    from ics.timezone import Timezone

    try:
        return Timezone.from_tzinfo(z, ctx)
    except ValueError:
        return ValueError


def check_objects(c, note):
    from collections import defaultdict

    import ics
    from ics.timezone import UTC, is_utc

    set_tz(c["local"])
    shared = defaultdict(lambda: None)
    for o in c["objs"]:
        z, want = make(o)
        if z is None:
            continue
        ctx = None if c["ctx"] == "none" else shared if c["ctx"] == "shared" else defaultdict(lambda: None)
        got = convert(z, ctx)
        what = "%r -> %r" % (o, got)
        if want[0] != "any":
            eq(is_utc(z), want[0] == "utc" or want[0] == "same" and is_utc(z) and zero(z), "is_utc of %r" % (z,))
            when = datetime(2020, 1, 1, tzinfo=z)
            eq(is_utc(when), is_utc(z), "is_utc of a time in %r" % (z,))
        if want[0] == "utc":
            check(got == UTC and got.tzid == "UTC" and got.utcoffset(datetime(2020, 1, 1)) == timedelta(0), what)
        elif want[0] == "fixed":
            check(isinstance(got, ics.Timezone), what)
            eq([got.tzid, [[ob.NAME, ob.tzoffsetto.total_seconds(), ob.tzname] for ob in got.observances]], [want[1], [["STANDARD", want[2], want[1]]]], what)
            for d in (datetime(1900, 1, 1), datetime(1970, 1, 1), datetime(2020, 7, 1)):
                eq(got.utcoffset(d), timedelta(seconds=want[2]), "offset of " + what)
        elif want[0] == "zone":
            if want[1] is None:
                check(got is ValueError, what)
            else:
                check_zone(got, want[1], what)
        elif want[0] == "local":
            check(got is None, what)
        elif want[0] == "same":
            check(got is z, what)
        elif want[0] == "no":
            check(got is ValueError, what)
        note(o[0])
    check(is_utc(None) is False and is_utc(datetime(2020, 1, 1)) is False, "is_utc of nothing")
    note.nontrivial(c["ctx"] == "shared" and len(c["objs"]) > 1)


def zero(z):
    return not any(o.tzoffsetto for o in z.observances)


# ------------------------------------------------------------------ to_builtin


@st.composite
def builtin(draw):
    n = draw(name())
    return {"name": n, "rules": draw(st.integers(0, 999)), "same": draw(st.booleans()), "edit": draw(st.sampled_from([None, None, "to", "from", "name", "drop", "start", "dup", "kind"])), "i": draw(st.integers(0, 5))}


def check_builtin(c, note):
    import ics
    import ics_vtimezones
    from ics.timezone import is_utc

    s = name_of(c["name"])
    want = resolve(s)
    if not s or s != s.strip() and want is None:
        return
    src = want if c["same"] and want else sorted(known())[c["rules"] % len(known())]
    spec = json.loads(json.dumps(bundled_spec(src)))
    obs = spec["obs"]
    ob = obs[c["i"] % len(obs)]
    if c["edit"] == "to":
        ob["to"] += 60
    elif c["edit"] == "from":
        ob["from"] -= 60
    elif c["edit"] == "name":
        ob["name"] = "ZZZ"
    elif c["edit"] == "drop" and len(obs) > 1:
        obs.remove(ob)
    elif c["edit"] == "start":
        ob["start"][0] -= 1
    elif c["edit"] == "dup":
        obs.append(json.loads(json.dumps(ob)))
    elif c["edit"] == "kind":
        ob["dst"] = not ob["dst"]
    z = build.zone_parse(dict(spec, tzid=s))
    before = build.snap(z)
    own = s.upper() in ("UTC", "ETC/UTC") or s.startswith("/ics.py/")
    eq(z.is_builtin, own, "is_builtin of %r" % s)
    if is_utc(z):
        eq(s.upper() in ("UTC", "ETC/UTC"), True, "%r taken for UTC" % s)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        try:
            got = z.to_builtin()
        except ValueError:
            check(want is None and not own, "to_builtin of %r raised", s)
            note("unknown")
            return
    if own:
        check(got is z and not log, "to_builtin of %r", s)
        note("own")
        return
    check(want is not None, "to_builtin of unknown %r gives %r", s, got)
    check_zone(got, want, "to_builtin of %r" % s)
    differ = spec["obs"] != bundled_spec(want)["obs"]
    eq(len(log), int(differ), "warnings for %r: %s" % (s, [str(w.message) for w in log]))
    eq(build.snap(z), before, "zone after to_builtin")
    note("changed" if differ else "same")
    note.nontrivial(differ)


SUBS = [Sub("names", name, check_name, quick=5000, shards=3), Sub("objects", objects, check_objects, quick=4000, shards=3),
        Sub("builtin", builtin, check_builtin, quick=4000, shards=2)]
