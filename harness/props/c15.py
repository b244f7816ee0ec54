import re
from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

from harness import build, expect, foreign, gen, ref
from harness.core import Sub, check, eq, raises
from harness.props.c13 import EDGE, bundled_spec, lookups

RULE = ("Calendar texts with one to three zone definitions (some named like a bundled or Windows zone but with other rules) placed "
        "anywhere among the entries, and times naming them, bundled zones, Windows zones or unknown names, at and around the "
        "definitions' transitions, compared with an independent transition model of the definition in the text; several calendars "
        "with clashing definitions in one text; zone definitions written, read by an independent reader, and imported again. "
        "Non-trivial: a time names a zone defined in the same text, or a definition with a transition is round-tripped.")
ASSUMPTIONS = ["local times that exist and are unambiguous in the model", "one definition per zone name in a calendar",
               "offset-from of an observance is the offset in force before it"]
UTC = timezone.utc
CLASH = ["Europe/Berlin", "America/New_York", "Asia/Tokyo", "/ics.py/2020.1/Europe/Berlin", "W. Europe Standard Time", "Europe/London"]
NAMES = ["Europe/Berlin", "America/New_York", "Asia/Tokyo", "Europe/London", "Asia/Kolkata", "Australia/Sydney", "Pacific/Auckland",
         "America/Sao_Paulo"]
UNKNOWN = ["Nowhere/Land", "Europe/Berlinn", "My Zone", "europe\\berlin", "/x/y", "Zone/", "../Europe", "Standard Time"]

# ------------------------------------------------------------------ meaning of times

NEAR = [lambda t: "/" + t, lambda t: "/a/b/" + t, lambda t: t.swapcase(), lambda t: t + " ", lambda t: t + "/", lambda t: t[:-1] or "Q",
        lambda t: t.split("/")[-1] or "Q", lambda t: t + "2", lambda t: t.replace("/", "-"), lambda t: " " + t, lambda t: "Z" + t, lambda t: t.lower()]


@st.composite
def text_case(draw, zmin=1, zmax=3, uses_max=6):
    zs, bases = [], []
    for i in range(draw(st.integers(zmin, zmax))):
        z = draw(gen.zone(idx=i))
        kind = draw(st.integers(0, 3))
        if kind > 1:
            # the name of a bundled zone, or a name that is nearly that of another zone of the text or of a bundled one
            name = draw(st.sampled_from(CLASH))
            if kind == 3:
                base = draw(st.sampled_from([y["tzid"] for y in zs] + CLASH))
                name = draw(st.sampled_from(NEAR))(base)
                if base in NAMES:
                    bases.append(base)
            if name not in [y["tzid"] for y in zs]:
                z["tzid"] = name
        zs.append(z)
    uses = []
    for _ in range(draw(st.integers(zmin, uses_max))):
        k = draw(st.sampled_from(["own", "own", "own", "bundled", "windows", "utc"]))
        u = {"kind": k, "prop": draw(st.sampled_from(["DTSTART", "DTSTART", "DTEND", "DUE", "TRIGGER", "CREATED"])), "quote": draw(st.booleans())}
        if k == "own":
            u["z"] = draw(st.integers(0, len(zs) - 1))
        elif k == "bundled":
            u["name"] = draw(st.sampled_from(bases * 2 + NAMES[:1] if bases else NAMES))
            u["prefix"] = draw(st.sampled_from(["", "", "/ics.py/2020.1/", "/freeassociation.sourceforge.net/", "/a/b/"]))
        elif k == "windows":
            u["name"] = draw(st.sampled_from(sorted(foreign.WINDOWS)))
        u["t"] = draw(lookups(1))[0]
        uses.append(u)
    extras = draw(st.booleans())
    return {"zones": zs, "nodes": [draw(foreign.zone_node(z, extras)) for z in zs], "uses": uses,
            "order": draw(st.permutations(range(len(zs) + len(uses)))), "unknown": draw(gen.opt(st.tuples(
                st.integers(0, 5), st.sampled_from(UNKNOWN)).map(list), 4)), "folds": draw(st.sampled_from([0, 75, 20]))}


_models = {}


def model_of(spec):
    k = repr(spec)
    if k not in _models:
        if len(_models) > 50:
            _models.clear()
        lo = min(ob["start"][0] for ob in spec["obs"])
        _models[k] = ref.ZoneModel(spec, lo, lo + 85)
    return _models[k]


def resolve(u, zones):
    """-> (tzid in the text, spec of the zone it means)"""
    if u["kind"] == "own":
        return zones[u["z"]]["tzid"], zones[u["z"]]
    if u["kind"] == "utc":
        return "UTC", {"obs": [{"dst": False, "from": 0, "to": 0, "start": [1970, 1, 1, 0, 0, 0], "name": "UTC"}]}
    name = u.get("prefix", "") + u["name"]
    for z in zones:
        if z["tzid"] == name:
            return name, z
    return name, bundled_spec(foreign.WINDOWS.get(u["name"], u["name"]))


def local_of(u, model):
    kind, k, delta, _ = u["t"]
    trs = [t for _, t, _ in model.tr if t.year <= min(x[1] for x in model.tr).year + 80]
    if kind == "t" or kind == "r":
        local = trs[k % len(trs)] + timedelta(seconds=delta)
    else:
        local = datetime(*k)
    if local.year > trs[0].year + 80 or local.year < 1900:
        return None
    if not model.is_clear(local) or len(model.candidates(local)) != 1:
        return None
    return local


def entry_node(i, u, tzid, local):
    p = [["TZID", [[u["quote"], tzid]]]]
    prop = u["prop"]
    comp = "VTODO" if prop == "DUE" else "VEVENT"
    l = ["L", prop, p, ref.fmt_dt(local)]
    body = [["L", "UID", [], "u%d" % i], ["L", "DTSTAMP", [], "20200101T000000Z"]]
    if prop == "DTEND":
        body += [["L", "DTSTART", p, ref.fmt_dt(local - timedelta(days=3))], l]
    elif prop == "TRIGGER":
        l[2] = [["VALUE", [[False, "DATE-TIME"]]]] + p
        body += [["C", "VALARM", [["L", "ACTION", [], "NONE"], l]]]
    else:
        body += [l]
    return ["C", comp, body]


def in_order(c):
    """the specs with their observances in the order of the text (the first standard one counts before any onset)"""
    return [dict(z, obs=read_zone(n)["obs"]) for z, n in zip(c["zones"], c["nodes"])]


def text_of(c):
    c = dict(c, zones=in_order(c))
    items = list(c["nodes"])
    want = []
    for i, u in enumerate(c["uses"]):
        tzid, spec = resolve(u, c["zones"])
        local = local_of(u, model_of(spec))
        if local is None:
            continue
        if u["prop"] == "DTEND" and local_of(dict(u, t=["d", list((local - timedelta(days=3)).timetuple()[:6]), 0, 0]), model_of(spec)) is None:
            continue
        items.append(entry_node(i, u, tzid, local))
        want.append((i, u, spec, local))
    items = [items[k] for k in c["order"] if k < len(items)]
    nodes = [["L", "VERSION", [], "2.0"], ["L", "PRODID", [], "x"]] + items
    return "\r\n".join(foreign.fold(foreign.write([["C", "VCALENDAR", nodes]]), c["folds"], "\r\n").split("\r\n")), nodes, want


def value_of(cal, i, u):
    e = [x for x in list(cal.events) + list(cal.todos) if x.uid == "u%d" % i]
    eq(len(e), 1, "entry %d" % i)
    e = e[0]
    return {"DTSTART": lambda: e.timespan.begin_time, "DTEND": lambda: e.timespan.end_time, "DUE": lambda: e.timespan.end_time,
            "TRIGGER": lambda: e.alarms[0].trigger, "CREATED": lambda: e.created}[u["prop"]]()


def check_values(cal, want, note):
    for i, u, spec, local in want:
        m = model_of(spec)
        utc = m.candidates(local)[0]
        d = value_of(cal, i, u)
        what = "%s of entry %d in %s" % (u["prop"], i, u)
        if u["prop"] == "CREATED":
            eq(d.astimezone(UTC).replace(tzinfo=None), utc, "instant of " + what)
        else:
            eq(d.replace(tzinfo=None), local, "reading of " + what)
            eq(d.utcoffset(), local - utc, "offset of " + what)
            eq(d.astimezone(UTC).replace(tzinfo=None), utc, "instant of " + what)
        note.nontrivial(u["kind"] == "own")
        note("use:" + u["kind"], "prop:" + u["prop"])


def check_text(c, note):
    import ics
    from ics.contentline import string_to_container
    from ics.timezone import Timezone

    text, nodes, want = text_of(c)
    cal = ics.Calendar(text)
    eq(len(cal.events) + len(cal.todos), len(want), "entries")
    check_values(cal, want, note)
    if any(z["tzid"] in CLASH for z in c["zones"]):
        note("clash")
    # a definition as it was read is written and read again as the same one
    for i, u, _, _ in want:
        z = getattr(value_of(cal, i, u), "tzinfo", None)
        if isinstance(z, Timezone) and u["kind"] == "own":
            out = z.to_container().serialize()
            z2 = Timezone.from_container(string_to_container(out))
            check(z2 == z and not z2 != z, "definition read back is not equal: %r / %r", z, z2)
            eq(z2.to_container().serialize(), out, "definition written again")
    # nothing else in the process remembers the definitions of this text
    names = [u["name"] for u in c["uses"] if u["kind"] == "bundled" and not u["prefix"]][:1]
    for n in names:
        u = {"kind": "bundled", "name": n, "prefix": "", "prop": "DTSTART", "quote": False, "t": ["d", [2020, 7, 15, 12, 0, 0], 0, 0]}
        t, _, w = text_of({"nodes": [], "zones": [], "uses": [u], "order": [0], "folds": 0})
        check_values(ics.Calendar(t), w, note)
    # through the exporter, the definitions keep their meaning
    if any(z["tzid"].startswith(foreign.PREFIX) for z in c["zones"]) and any(u["kind"] in ("bundled", "windows") for u in c["uses"]):
        note("two zones of one name")  # exported under the same name: see the known finding of C14
    else:
        again = ics.Calendar(cal.serialize())
        check_values(again, [w for w in want if w[1]["prop"] != "CREATED"], note)
    if c["unknown"]:
        k, name = c["unknown"]
        if name not in [z["tzid"] for z in c["zones"]]:
            bad = entry_node(99, {"prop": ["DTSTART", "DTEND", "DUE", "TRIGGER", "CREATED", "DTSTART"][k], "quote": True}, name, datetime(2020, 1, 5, 12))
            t = "\r\n".join(foreign.write([["C", "VCALENDAR", nodes + [bad]]])) + "\r\n"
            err = raises(ics.Calendar, t)
            check(isinstance(err, ValueError), "unknown zone %r: %r", name, err)
            note("unknown")


# ------------------------------------------------------------------ several calendars


def multi_case():
    return st.lists(text_case(), min_size=2, max_size=3)


def check_multi(cs, note):
    import ics

    # the same names mean different things in different calendars
    for k, c in enumerate(cs):
        if c["zones"][0]["tzid"] not in CLASH and cs[0]["zones"][0]["tzid"] not in [z["tzid"] for z in c["zones"][1:]]:
            name = cs[0]["zones"][0]["tzid"]
            for n in c["nodes"][0][2]:
                if n[0] == "L" and n[1].upper() == "TZID":
                    n[3] = ref.escape_text(name)
            c["zones"][0]["tzid"] = name
    parts = [text_of(c) for c in cs]
    cals = ics.Calendar.parse_multiple("".join(p[0] for p in parts))
    eq(len(cals), len(cs), "calendars")
    for cal, p in zip(cals, parts):
        check_values(cal, p[2], note)
    outs = [cal.serialize() for cal in cals]
    for o, p, c in zip(outs, parts, cs):
        if any(z["tzid"].startswith(foreign.PREFIX) for z in c["zones"]):
            continue
        check_values(ics.Calendar(o), [w for w in p[2] if w[1]["prop"] != "CREATED"], note)


# ------------------------------------------------------------------ writing and reading definitions


def round_case():
    return st.fixed_dictionaries(dict(zone=gen.zone(), api=st.booleans(), bundled=gen.opt(st.integers(0, 592), 5), q=lookups(8),
                                      url=gen.opt(gen.uri(), 4), modified=gen.opt(gen.ymdhms(1000, 9000), 4),
                                      xs=st.lists(gen.extra_line(), max_size=2)))


def read_zone(node):
    """own reading of an exported VTIMEZONE -> spec"""
    spec = {"tzid": ref.unescape_text(expect.lines(node, "TZID")[0][3]), "obs": []}
    for o in node[2]:
        if o[0] != "C":
            continue
        ob = {"dst": o[1] == "DAYLIGHT", "name": None, "rdates": []}
        for l in o[2]:
            v = l[3]
            if l[1] in ("TZOFFSETFROM", "TZOFFSETTO"):
                ob["from" if l[1].endswith("FROM") else "to"] = foreign.off_secs(v)
            elif l[1] == "DTSTART":
                ob["start"] = dt6(v)
            elif l[1] == "RDATE":
                ob["rdates"] += [dt6(x) for x in v.split(",")]
            elif l[1] in ("TZNAME", "COMMENT"):
                key = l[1].lower().replace("tz", "")
                if ob.get(key) is None:  # further ones are kept as unknown lines
                    ob[key] = ref.unescape_text(v)
            elif l[1] == "RRULE":
                check("rule" not in ob, "two rules")
                v = v.upper()
                p = dict(x.split("=") for x in v.split(";"))
                eq(p.pop("FREQ"), "YEARLY", "FREQ")
                if p == {"COUNT": "1"}:
                    continue  # just the start
                r = {"bymonth": int(p.pop("BYMONTH"))}
                if "BYDAY" in p:
                    m = re.match(r"([+-]?\d+)(\w\w)$", p.pop("BYDAY"))
                    r["byday"] = [int(m.group(1)), ref.WD.index(m.group(2))]
                else:
                    r["bymonthday"] = int(p.pop("BYMONTHDAY"))
                if "COUNT" in p:
                    r["count"] = int(p.pop("COUNT"))
                if "UNTIL" in p:
                    u = p.pop("UNTIL")
                    check(u.endswith("Z"), "UNTIL of an observance is not UTC: %r", u)
                    r["until"] = dt6(u[:-1])
                eq(p, {}, "other rule parts")
                ob["rule"] = r
        spec["obs"].append(ob)
    return spec


def dt6(v):
    m = re.match(r"(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)$", v)
    check(m, "date-time %r", v)
    return [int(x) for x in m.groups()]


def sig(spec, hi):
    return [(ob["dst"], ob["from"], ob["to"], ob.get("name"), ob.get("comment"), ref.onsets(ob, 1, hi)) for ob in spec["obs"]]


def check_round(c, note):
    import attr
    import ics
    from ics.contentline import string_to_container
    from ics.timezone import Timezone

    spec = c["zone"]
    if c["bundled"] is not None:
        from harness.props.c13 import bundled_names

        name = bundled_names()[c["bundled"] % 593]
        spec = bundled_spec(name)
        z = Timezone.from_tzid(name)
    else:
        z = build.zone_api(spec) if c["api"] else build.zone_parse(spec)
    if c["url"] is not None:
        z = attr.evolve(z, tzurl=build.uri_of(c["url"]))
    if c["modified"] is not None:
        z = attr.evolve(z, last_modified=datetime(*c["modified"], tzinfo=UTC))
    for x in c["xs"]:
        z.extra.append(build.item_of(x))
    lo = min(ob["start"][0] for ob in spec["obs"])
    hi = lo + 80
    text = z.to_container().serialize()
    node = ref.parse_tree(text)[0]
    got = read_zone(node)
    eq(got["tzid"], spec["tzid"], "TZID")
    eq(sig(got, hi), sig(spec, hi), "definition written")
    eq([l[3] for l in expect.lines(node, "TZURL")], [c["url"]] if c["url"] is not None else [], "TZURL")
    if c["modified"] is not None:
        eq([l[3] for l in expect.lines(node, "LAST-MODIFIED")], [ref.fmt_dt(datetime(*c["modified"]), utc=True)], "LAST-MODIFIED")
    again = Timezone.from_container(string_to_container(text))
    check(again == z and not again != z, "definition read back is not equal: %r / %r", z, again)
    eq(again.to_container().serialize(), text, "written again")
    eq(again.tzurl, z.tzurl, "tzurl")
    eq(again.last_modified, z.last_modified, "last_modified")
    eq(build.snap(again.extra), build.snap(z.extra), "extras")
    for ob, o in zip(again.observances, spec["obs"]):
        eq([d for d in ob.rrule.between(datetime(lo - 1, 1, 1), datetime(hi, 1, 1)) if d != ref.unsync(o)],
           [d for d in ref.onsets(o, 1, hi - 1)], "onsets of %r" % o)
    m = model_of(spec)
    trs = [t for _, t, _ in m.tr if t.year <= hi]
    for kind, k, delta, fold in c["q"]:
        d = datetime(*k) if kind == "d" else trs[k % len(trs)] + timedelta(seconds=delta)
        if d.year > hi:
            continue
        a, b = (d.replace(tzinfo=x, fold=fold) for x in (z, again))
        eq((b.utcoffset(), b.dst(), b.tzname()), (a.utcoffset(), a.dst(), a.tzname()), "offset at %s" % d)
        w = m.at_local(d, fold)
        if w is not None and m.is_clear(d):
            eq(b.utcoffset(), timedelta(seconds=w["to"]), "offset at %s" % d)
    note.nontrivial(len(trs) > 1)
    note("kind:" + ("bundled" if c["bundled"] is not None else "api" if c["api"] else "parsed"))
    # as part of a calendar
    cal = ics.Calendar(events=[ics.Event(begin=datetime(2020, 1, 5, 12, tzinfo=z))])
    back = ics.Calendar(cal.serialize()).events[0].begin.tzinfo
    if not z.tzid.upper() in ("UTC", "ETC/UTC") and not str(z).upper().endswith("UTC"):
        check(isinstance(back, Timezone) and back == z, "zone after a calendar round trip: %r / %r", back, z)


# ------------------------------------------------------------------ names that are not bundled but known to the system

SYSTEM = ["Europe/Kyiv", "America/Ciudad_Juarez", "America/Coyhaique", "Pacific/Kanton"]


def system_case():
    when = gen.ymdhms(1975, 2036)
    return st.fixed_dictionaries(dict(name=st.sampled_from(SYSTEM), t=when, quote=st.booleans(),
                                      prop=st.sampled_from(["DTSTART", "DTEND", "DUE", "TRIGGER"]), own=gen.opt(gen.zone(tzid="Own/Zone"), 3)))


def check_system(c, note):
    import ics
    from zoneinfo import ZoneInfo, ZoneInfoNotFoundError

    from ics.timezone import Timezone

    try:
        z = ZoneInfo(c["name"])
    except ZoneInfoNotFoundError:
        return note("unknown to this system")
    if not raises(Timezone.from_tzid, c["name"]):
        return note("bundled")
    local = datetime(*c["t"])
    for d in (local, local - timedelta(days=3)):
        for delta in (-7200, 0, 7200):
            x = (d + timedelta(seconds=delta)).replace(tzinfo=z)
            if x.utcoffset() != x.replace(fold=1).utcoffset():
                return note("near a change")
    u = {"prop": c["prop"], "quote": c["quote"]}
    items = [["L", "VERSION", [], "2.0"], ["L", "PRODID", [], "x"], entry_node(0, u, c["name"], local)]
    if c["own"]:
        items.insert(2, ["C", "VTIMEZONE", [["L", "TZID", [], c["name"] + "x"]] + [
            ["C", "STANDARD", [["L", "DTSTART", [], "19700101T000000"], ["L", "TZOFFSETFROM", [], "+0000"], ["L", "TZOFFSETTO", [], "+0000"]]]]])
    cal = ics.Calendar("\r\n".join(foreign.write([["C", "VCALENDAR", items]])) + "\r\n")
    d = value_of(cal, 0, u)
    eq(d.replace(tzinfo=None), local, "reading")
    eq(d.utcoffset(), local.replace(tzinfo=z).utcoffset(), "offset of %s" % local)
    note.nontrivial()
    try:
        out = cal.serialize()
    except ValueError:
        note("export refused")  # there is no definition to write
        return
    eq(value_of(ics.Calendar(out), 0, u).utcoffset(), d.utcoffset(), "offset after export")


SUBS = [
    Sub("system", system_case, check_system, quick=150),
    Sub("many", lambda: text_case(5, 14, 30), check_text, quick=30, shards=2),
    Sub("meaning", text_case, check_text, quick=1000, shards=5),
    Sub("multi", multi_case, check_multi, quick=200),
    Sub("round", round_case, check_round, quick=700, shards=3),
]
