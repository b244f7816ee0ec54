import functools
import re
from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from harness import build, gen, ref
from harness.core import Sub, check, eq

RULE = ("Zones (two annual rules with optional UNTIL/COUNT, a single rule, or chains of up to five irregular transitions, in any order of "
        "the observances, parsed from text or built through the API) and all 593 bundled zones; sequences of up to 40 lookups at, just "
        "before and just after transitions, in repeated hours with both folds, and at random times, against an independent transition "
        "model; UTC to local and back. Non-trivial: a lookup within three hours of a transition.")
ASSUMPTIONS = ["local times that exist", "each observance's offset-from is the offset in force before its onset, so that transitions are "
               "well defined", "whole-second times within 80 years of the first rule"]
UTC = timezone.utc
EDGE = [0, -1, 1, -60, 60, -1800, 1800, -3599, -3600, -3601, 3599, 3600, 3601, -7200, 7200, -86400, 86400]


def lookups(n=25):
    near = st.tuples(st.just("t"), st.integers(0, 400), st.one_of(st.sampled_from(EDGE), st.integers(-11000, 11000)), st.integers(0, 1))
    far = st.tuples(st.just("d"), gen.ymdhms(1900, 2080), st.just(0), st.integers(0, 1))
    again = st.tuples(st.just("r"), st.integers(0, 30), st.just(0), st.integers(0, 1))
    return st.lists(st.one_of(near, near, near, far, again).map(list), min_size=1, max_size=n)


def spec_strategy():
    return st.fixed_dictionaries(dict(zone=gen.zone(), api=st.booleans(), q=lookups(), utc=st.booleans()))


def sizes(spec):
    ys = [ob["start"][0] for ob in spec["obs"]]
    return min(ys), min(ys) + 80


def run(tz, model, hi, queries, note, fresh=None):
    trs = [t for _, t, _ in model.tr if t.year <= hi]
    done = []
    for kind, k, delta, fold in queries:
        if kind == "t":
            base = trs[k % len(trs)]
            local = base + timedelta(seconds=delta)
        elif kind == "d":
            local = datetime(*k)
        elif not done:
            continue
        else:
            local = done[k % len(done)]
        if local.year > hi:
            continue
        if not model.is_clear(local):
            note("unclear")
            continue
        done.append(local)
        want = model.at_local(local, fold)
        if want is None:
            note("gap")
            continue
        c = model.candidates(local)
        if len(c) > 2:
            note("tripled")
            continue
        d = local.replace(tzinfo=tz, fold=fold)
        near = any(abs(t - local) <= timedelta(hours=3) for t in trs)
        note.nontrivial(near)
        note("near" if near else "far", "repeated" if len(c) > 1 else "unique", "fold%d" % fold)
        eq(d.utcoffset(), timedelta(seconds=want["to"]), "offset at %s fold=%d" % (local, fold))
        dst = (want["to"] - want["from"]) if want["dst"] else 0
        # a day or more is not a valid result of dst(); the difference across the date line is no daylight saving anyway
        eq(d.dst(), timedelta(seconds=dst if abs(dst) < 86400 else 0), "dst at %s fold=%d" % (local, fold))
        eq(d.tzname(), want.get("name"), "name at %s fold=%d" % (local, fold))
        if fresh:
            eq(fresh().utcoffset(local.replace(fold=fold)), d.utcoffset(), "fresh zone object")
        # round trips
        u = c[-1] if fold else c[0]
        if u.year < 2:
            continue
        aware = u.replace(tzinfo=UTC)
        loc = aware.astimezone(tz)
        eq(loc.replace(tzinfo=None, fold=0), local, "local reading of %s" % aware)
        eq(loc.astimezone(UTC), aware, "UTC to local and back (%s, fold=%d)" % (loc, loc.fold))
        if len(c) > 1:
            eq(loc.fold, fold, "fold of %s" % aware)
        eq(d.astimezone(UTC), aware, "instant of %s" % local)
        eq(d.timestamp(), aware.timestamp(), "timestamp of %s" % local)


def check_spec(c, note):
    spec = c["zone"]
    lo, hi = sizes(spec)
    model = ref.ZoneModel(spec, lo, hi + 2)
    make = (lambda: build.zone_api(spec)) if c["api"] else (lambda: build.zone_parse(spec))
    tz = make()
    run(tz, model, hi, c["q"], note, make if len(c["q"]) < 6 else None)
    note("kind:" + ("rule" if any("rule" in o for o in spec["obs"]) else "chain"), "obs%d" % len(spec["obs"]))
    # the same questions in the opposite order
    run(make(), model, hi, list(reversed([q for q in c["q"] if q[0] != "r"])), note)


# ------------------------------------------------------------------ bundled zones


@functools.lru_cache(None)
def bundled_names():
    import pathlib

    import ics_vtimezones

    root = pathlib.Path(ics_vtimezones.__file__).parent / "data" / "zoneinfo"
    return sorted(str(p.relative_to(root))[:-4] for p in root.rglob("*.ics"))


@functools.lru_cache(None)
def bundled_spec(name):
    """our own reading of the bundled file"""
    import pathlib

    import ics_vtimezones

    f = pathlib.Path(ics_vtimezones.__file__).parent / "data" / "zoneinfo" / (name + ".ics")
    obs, cur, tzid = [], None, None
    for line in f.read_text().splitlines():
        n, _, v = line.partition(":")
        n = n.split(";")[0]
        if n == "BEGIN" and v in ("STANDARD", "DAYLIGHT"):
            cur = {"dst": v == "DAYLIGHT", "name": None}
        elif n == "END" and v in ("STANDARD", "DAYLIGHT"):
            obs.append(cur)
            cur = None
        elif n == "TZID":
            tzid = v
        elif cur is None:
            continue
        elif n == "TZNAME":
            cur["name"] = v
        elif n in ("TZOFFSETFROM", "TZOFFSETTO"):
            s = (-1 if v[0] == "-" else 1) * (int(v[1:3]) * 3600 + int(v[3:5]) * 60 + int(v[5:7] or 0))
            cur["from" if n.endswith("FROM") else "to"] = s
        elif n == "DTSTART":
            cur["start"] = [int(x) for x in re.match(r"(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)$", v).groups()]
        elif n == "RRULE":
            p = dict(x.split("=") for x in v.split(";"))
            m = re.match(r"([+-]?\d+)(\w\w)$", p["BYDAY"])
            assert p["FREQ"] == "YEARLY" and len(p) == 3
            cur["rule"] = {"bymonth": int(p["BYMONTH"]), "byday": [int(m.group(1)), ref.WD.index(m.group(2))]}
        else:
            raise AssertionError(line)
    return {"tzid": tzid, "obs": obs}


def bundled_strategy():
    return st.fixed_dictionaries(dict(name=st.integers(0, 592), q=lookups(12)))


def check_bundled(c, note):
    from ics.timezone import Timezone

    names = bundled_names()
    name = names[c["name"] % len(names)]
    spec = bundled_spec(name)
    tz = Timezone.from_tzid(name)
    eq(tz.tzid, spec["tzid"], "TZID")
    model = ref.ZoneModel(spec, 1970, 2052)
    run(tz, model, 2050, c["q"], note)


SUBS = [
    Sub("long", lambda: st.fixed_dictionaries(dict(zone=gen.zone(), api=st.booleans(), q=gen.many(lookups().map(tuple), 10, 40).map(
        lambda l: [list(q) for x in l for q in x]), utc=st.booleans())), check_spec, quick=60, shards=2),
    Sub("rules", spec_strategy, check_spec, quick=3000, shards=6),
    Sub("bundled", bundled_strategy, check_bundled, quick=800, shards=2,
        fixed=[{"name": i, "q": [["t", 120, -1, 0], ["t", 121, 0, 0], ["d", [2020, 1, 15, 0, 0, 0], 0, 0], ["d", [2020, 7, 15, 0, 0, 0], 0, 0]]}
               for i in range(593)]),
]
