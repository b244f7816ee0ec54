"""Calendar texts as other programs write them: a generator of raw property trees and an independent canonical reading."""
import base64
import re
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness import build, gen, ref

WINDOWS = {"W. Europe Standard Time": "Europe/Berlin", "Eastern Standard Time": "America/New_York",
           "Tokyo Standard Time": "Asia/Tokyo"}
PREFIX = "/ics.py/2020.1/"
BUNDLED = ["Europe/Berlin", "America/New_York", "Asia/Tokyo", "Europe/London", "Asia/Kolkata"]

# ------------------------------------------------------------------ writing


def enc_param(v, force):
    s = v.replace("^", "^^").replace("\n", "^n").replace('"', "^'")
    if force or s == "" or re.search("[,;:]", s):
        return '"%s"' % s
    return s


def write_line(n):
    return n[1] + "".join(";%s=%s" % (k, ",".join(enc_param(v, q) for q, v in vs)) for k, vs in n[2]) + ":" + n[3]


def write(nodes, out=None):
    out = [] if out is None else out
    for n in nodes:
        if n[0] == "L":
            out.append(write_line(n))
        else:
            out.append("BEGIN:" + n[1])
            write(n[2], out)
            out.append("END:" + n[1])
    return out


def fold(lines, width, eol):
    out = []
    for l in lines:
        if width and len(l) > width:
            out.append(l[:width])
            rest = l[width:]
            while rest:
                out.append(" " + rest[: width - 1])
                rest = rest[width - 1:]
        else:
            out.append(l)
    return eol.join(out) + eol


def known_of(comp, kids):
    """names of the properties of a component that have a meaning for the library"""
    known = KNOWN.get(comp, set())
    if comp == "VALARM":
        act = [l[3] for l in kids if l[0] == "L" and l[1].upper() == "ACTION"][:1]
        known = known | ALARM_KNOWN.get(act[0].upper() if act else "", set())
    return known


def recase(comp, kids, bits, state):
    """the same in other spellings: letter case of parameter names of known properties and of VALUE, and repeated parameters"""
    known = known_of(comp, kids)
    out = []
    for n in kids:
        if n[0] == "C":
            inner = n[1].upper()
            out.append(["C", n[1], recase(inner if inner in SUBS.get(comp, ()) else "", n[2], bits, state)])
            continue
        ps = []
        for k, vs in n[2]:
            b = bits >> (2 * (state[0] % 24)) & 3
            state[0] += 1
            if n[1].upper() in known:
                if k.upper() == "VALUE" and b & 2:
                    vs = [[q, v.lower()] for q, v in vs]
                k = [k, k.lower(), k, k.title()][b]
            if len(vs) > 1 and b & 2:
                ps += [[k, vs[:-1]], [k, vs[-1:]]]  # the same parameter again
            else:
                ps.append([k, vs])
        out.append(["L", n[1], ps, n[3]])
    return out


def text_of(case):
    nodes = case["nodes"]
    if case.get("recase"):
        nodes = recase("VCALENDAR", nodes, case["recase"], [0])
    return fold(write([["C", "VCALENDAR", nodes]]), case.get("fold", 0), case.get("eol", "\r\n"))


# ------------------------------------------------------------------ generating


@st.composite
def lower(draw, name):
    return draw(st.sampled_from([name, name, name, name.lower(), name.title()]))


@st.composite
def pval(draw):
    return [draw(st.booleans()), draw(gen.text(3))]


@st.composite
def xparams(draw, base=(), none=2):
    out = [[b[0], [list(v) for v in b[1]]] for b in base]
    if draw(st.integers(0, none)) == none:
        names = draw(st.lists(st.one_of(gen.xname(), st.sampled_from(["LANGUAGE", "ALTREP", "FILENAME", "FMTTYPE", "X-A"])),
                              min_size=1, max_size=3, unique=True))
        for n in names:
            out.append([n, draw(st.lists(pval(), min_size=1, max_size=3))])
    return out


@st.composite
def line(draw, name, value, base=(), none=2):
    v = draw(value) if isinstance(value, st.SearchStrategy) else value
    return ["L", draw(lower(name)), draw(xparams(base, none)), v]


@st.composite
def raw_text(draw, size=5):
    """a TEXT value in one of its spellings"""
    s = draw(gen.text(size))
    out = []
    for c in s:
        if c == "\n":
            out.append(draw(st.sampled_from(["\\n", "\\N"])))
        elif c in ",;\\":
            out.append("\\" + c)
        else:
            out.append(c)
    return "".join(out)


UNKNOWN_EVENT = ["TRANSP", "SEQUENCE", "PRIORITY", "RRULE", "EXDATE", "RDATE", "RECURRENCE-ID", "CONTACT", "RESOURCES", "COMMENT",
                 "PERCENT-COMPLETE", "RELATED-TO", "REQUEST-STATUS", "X-A", "X-B", "DUE-X", "CONFERENCE", "COLOR"]
UNKNOWN_TODO = ["CLASS", "GEO", "CATEGORIES", "ATTENDEE", "ORGANIZER", "SEQUENCE", "RRULE", "X-A", "X-B", "TRANSP", "COMMENT"]
UNKNOWN_CAL = ["CALSCALE", "X-WR-CALNAME", "X-WR-TIMEZONE", "X-A", "X-A", "NAME", "REFRESH-INTERVAL", "SUMMARY", "DTSTART"]
UNKNOWN_ALARM = ["X-WR-ALARMUID", "X-A", "ACKNOWLEDGED", "UID", "RELATED-TO", "LOCATION"]
RAWVALS = st.one_of(gen.text(4, newlines=False), st.sampled_from(
    ["FREQ=DAILY;COUNT=2", "OPAQUE", "3", "20200101,20200102", "a\\,b,c", "", " lead", "x:y;z", "\\", "\\x"]))


@st.composite
def unknown_line(draw, names):
    n = draw(st.one_of(st.sampled_from(names), gen.xname()))
    return ["L", draw(lower(n)), draw(xparams(none=1)), draw(RAWVALS)]


def unknown_comp(names):
    return st.recursive(
        st.tuples(st.just("C"), st.sampled_from(["VJOURNAL", "VFREEBUSY", "X-COMP", "VAVAILABILITY", "vjournal"]),
                  st.lists(unknown_line(names + ["UID", "DTSTART", "ACTION", "BEGINX"]), max_size=2)).map(list),
        lambda ch: st.tuples(st.just("C"), st.sampled_from(["X-OUTER", "PARTICIPANT"]), st.lists(ch, max_size=2)).map(list), max_leaves=3)


def dur_text():
    return st.one_of(
        st.sampled_from(["P1W", "P2W", "P1D", "+P1D", "PT0S", "P0D", "PT15M", "PT90M", "P1DT2H3M4S", "PT3600S", "P15DT5H0M20S", "PT36H"]),
        st.integers(0, 10 ** 6).map(lambda s: "PT%dS" % s), st.integers(0, 400).map(lambda d: "P%dD" % d))


def utc_text():
    return gen.ymdhms(1000, 9000).map(lambda y: ref.fmt_dt(datetime(*y), utc=True))


def geo_text():
    num = st.tuples(st.integers(-90 * 10 ** 6, 90 * 10 ** 6), st.sampled_from(["%.6f", "%+.6f", "%.3f", "%.0f", "%.1f"])).map(
        lambda t: t[1] % (t[0] / 10 ** 6))
    return st.tuples(num, num).map(";".join)


def cat_line():
    return st.lists(raw_text(3), min_size=1, max_size=4).map(",".join)


@st.composite
def attach_line(draw):
    kind = draw(st.integers(0, 2))
    if kind == 0:
        b = base64.b64encode(draw(st.binary(max_size=12))).decode()
        return ["L", "ATTACH", draw(xparams([["ENCODING", [[False, "BASE64"]]], ["VALUE", [[False, "BINARY"]]]])), b]
    base = [["VALUE", [[False, "URI"]]]] if kind == 1 else []
    return ["L", "ATTACH", draw(xparams(base)), draw(gen.uri())]


@st.composite
def person_line(draw, name):
    base = []
    for p, v in (("CN", gen.text(3)), ("PARTSTAT", st.sampled_from(["ACCEPTED", "X-UNSURE"])), ("ROLE", st.just("CHAIR")),
                 ("RSVP", st.sampled_from(["TRUE", "FALSE", "true"])), ("DIR", gen.uri()), ("SENT-BY", gen.uri())):
        if draw(st.integers(0, 3)) == 3:
            base.append([p, [[p in ("DIR", "SENT-BY"), draw(v)]]])
    if draw(st.integers(0, 4)) == 4:
        base.append(["MEMBER", [[True, u] for u in draw(st.lists(gen.uri(), min_size=1, max_size=3))]])
    return ["L", name, draw(xparams(base)), draw(gen.uri())]


@st.composite
def alarm(draw):
    kind = draw(st.sampled_from(["AUDIO", "DISPLAY", "EMAIL", "NONE", "X-RING", "PROCEDURE", "audio", "Display"]))
    out = [["L", draw(lower("ACTION")), draw(xparams(none=5)), kind]]
    t = draw(st.integers(0, 3))
    if t == 0:
        out.append(["L", "TRIGGER", draw(xparams([["VALUE", [[False, "DATE-TIME"]]]])), draw(utc_text())])
    elif t == 1:
        out.append(["L", "TRIGGER", draw(xparams([["RELATED", [[False, "END"]]]])), "-" + draw(st.sampled_from(["PT15M", "P1D", "P1W"]))])
    elif t == 2:
        out.append(["L", "TRIGGER", draw(xparams([["VALUE", [[False, "DURATION"]]]] if draw(st.booleans()) else [])), draw(dur_text())])
    if draw(st.booleans()):
        out.append(draw(line("REPEAT", st.sampled_from(["0", "3", "+2", "007"]))))
    if draw(st.booleans()):
        out.append(draw(line("DURATION", dur_text())))
    if draw(st.booleans()):
        out.append(draw(line("DESCRIPTION", raw_text())))
    kind = kind.upper()
    if kind == "EMAIL" and draw(st.booleans()):
        out.append(draw(line("SUMMARY", raw_text())))
    if kind in ("EMAIL", "DISPLAY"):
        out += draw(st.lists(person_line("ATTENDEE"), max_size=2))
    if kind in ("AUDIO", "EMAIL", "X-RING"):
        out += draw(st.lists(attach_line(), max_size=2 if kind == "EMAIL" else 1))
    out += draw(st.lists(unknown_line(UNKNOWN_ALARM), max_size=2))
    if draw(st.integers(0, 6)) == 6:
        out.append(draw(unknown_comp(UNKNOWN_ALARM)))
    return ["C", draw(lower("VALARM")), draw(st.permutations(out))]


@st.composite
def tz_params(draw, tzids):
    """-> (params, suffix)"""
    k = draw(st.integers(0, 3))
    if k == 0:
        return [], ""
    if k == 1:
        return [], draw(st.sampled_from(["Z", "Z", "Z", "z"]))
    name = draw(st.sampled_from(tzids))
    return [["TZID", [[draw(st.booleans()), name]]]], ""


@st.composite
def times(draw, todo, tzids, hi=9000):
    kind = draw(st.sampled_from(["none", "begin", "end", "end", "dur", "day", "day_end", "day_dur"] + ["due"] * todo))
    if kind == "none":
        return []
    y = datetime(*draw(gen.ymdhms(1000, hi)))
    end_name = "DUE" if todo else "DTEND"
    if kind.startswith("day"):
        D = [["VALUE", [[False, "DATE"]]]]
        n = draw(st.integers(1, 30))
        out = [draw(line("DTSTART", ref.fmt_date(y), D))]
        if kind == "day_end":
            out.append(draw(line(end_name, ref.fmt_date(y + timedelta(days=n)), D)))
        if kind == "day_dur":
            out.append(draw(line("DURATION", draw(st.sampled_from(["P%dD" % n, "PT%dH" % (24 * n), "P%dW" % n])))))
        return out
    p, suf = draw(tz_params(tzids))
    vt = [["VALUE", [[False, "DATE-TIME"]]]] if draw(st.integers(0, 3)) == 3 else []
    val = ref.fmt_dt(y) + suf
    if kind == "due":
        return [draw(line("DUE", val, p + vt))]
    out = [draw(line("DTSTART", val, p + vt))]
    if kind == "dur":
        out.append(draw(line("DURATION", dur_text())))
    if kind == "end":
        floating = not p and not suf
        gap = draw(st.integers(0, 10 ** 6))
        if not floating and draw(st.integers(0, 3)) == 3:
            while True:
                p, suf = draw(tz_params(tzids))
                if p or suf:
                    break
            gap += 3 * 86400
        out.append(draw(line(end_name, ref.fmt_dt(y + timedelta(seconds=gap)) + suf, p)))
    return out


@st.composite
def entry(draw, kind, tzids, hi=9000):
    todo = kind == "VTODO"
    out = list(draw(times(todo, tzids, hi)))

    def maybe(n, s):
        if draw(st.integers(0, n)) == n:
            out.append(draw(s))

    maybe(0 if draw(st.integers(0, 4)) else 1, line("UID", raw_text(3)))
    maybe(1, line("DTSTAMP", utc_text()))
    for n in ("SUMMARY", "DESCRIPTION", "LOCATION"):
        maybe(2, line(n, raw_text(), [["VALUE", [[False, "TEXT"]]]] if draw(st.integers(0, 5)) == 5 else []))
    maybe(4, line("URL", st.sampled_from(["http://e.org/a?b=c", "https://x/\\,y", "mailto:a@b"])))
    maybe(3, line("STATUS", st.sampled_from(["TENTATIVE", "CONFIRMED", "CANCELLED", "confirmed"] + ["NEEDS-ACTION", "COMPLETED", "In-Process"] * todo)))
    maybe(4, line("CREATED", utc_text()))
    maybe(4, line("LAST-MODIFIED", utc_text()))
    if todo:
        maybe(3, line("PERCENT-COMPLETE", st.sampled_from(["0", "50", "+7", "100", "007"])))
        maybe(3, line("PRIORITY", st.sampled_from(["0", "9", "+3", "05"])))
        maybe(3, line("COMPLETED", utc_text()))
    else:
        maybe(3, line("CLASS", raw_text(2)))
        maybe(3, person_line("ORGANIZER"))
        maybe(4, line("GEO", geo_text()))
        for _ in range(draw(st.integers(0, 2)) if draw(st.booleans()) else 0):
            out.append(draw(line("CATEGORIES", cat_line())))
        if draw(st.integers(0, 2)) == 2:
            out += draw(st.lists(person_line("ATTENDEE"), max_size=3))
    if draw(st.integers(0, 3)) == 3:
        out += draw(st.lists(attach_line(), max_size=3))
    if draw(st.integers(0, 2)) == 2:
        out += draw(st.lists(alarm(), max_size=2))
    names = UNKNOWN_TODO if todo else UNKNOWN_EVENT
    if draw(st.booleans()):
        out += draw(st.lists(unknown_line(names), max_size=4))
    if draw(st.integers(0, 5)) == 5:
        out.append(draw(unknown_comp(names)))
    return ["C", draw(lower(kind)), draw(st.permutations(out))]


@st.composite
def zone_node(draw, spec, extras=True):
    """VTIMEZONE node of a zone spec, with unknown properties and parameters sprinkled in"""
    root = ref.nest([(0,) + ref.parse_line(l) for l in build.zone_text(spec)])[0]

    def conv(n, more=None):
        if n[0] == "C":
            more = []
            kids = [conv(k, more) for k in n[2]] + more
            rdates = [k for k in kids if k[0] == "L" and k[1] == "RDATE"]
            if len(rdates) > 1 and draw(st.integers(0, 2)) == 2:  # one line with all of them
                kids = [k for k in kids if k not in rdates] + [["L", "RDATE", [], ",".join(k[3] for k in rdates)]]
            if extras and draw(st.integers(0, 2)) == 2:
                kids += draw(st.lists(unknown_line(["X-LIC-LOCATION", "X-A"]), max_size=2))
            return ["C", n[1], draw(st.permutations(kids)) if draw(st.booleans()) else kids]
        ps = [[k, [list(v) for v in vs]] for k, vs in n[2]]
        if n[1] == "RRULE" and draw(st.integers(0, 5)) == 5:
            return ["L", n[1], ps, n[3].lower()]
        if extras and n[1] == "TZNAME" and draw(st.integers(0, 3)) == 3:
            more[:] = draw(st.lists(line(draw(st.sampled_from(["TZNAME", "COMMENT"])), raw_text(2)), min_size=1, max_size=3))
        if extras and n[1] in ("TZNAME", "COMMENT", "TZID", "TZOFFSETTO") and draw(st.integers(0, 3)) == 3:
            ps = draw(xparams(ps, 0))
        return ["L", n[1], ps, n[3]]

    node = conv(root)
    if draw(st.integers(0, 4)) == 4:
        node[2].append(draw(line("TZURL", gen.uri(), none=3)))
    if draw(st.integers(0, 4)) == 4:
        node[2].append(draw(line("LAST-MODIFIED", utc_text(), none=3)))
    return node


@st.composite
def calendar(draw, max_entries=3, hi=9000):
    zones = draw(gen.zones(2))
    if zones and draw(st.integers(0, 3)) == 3:
        zones[0]["tzid"] = draw(st.sampled_from(["Europe/Berlin", "Asia/Tokyo", "W. Europe Standard Time"]))
    tzids = [z["tzid"] for z in zones] * 3 + BUNDLED + list(WINDOWS) + ["UTC", "Etc/UTC"]
    nodes = [["L", draw(lower("VERSION")), draw(xparams(none=6)), "2.0"],
             ["L", draw(lower("PRODID")), draw(xparams(none=6)), draw(raw_text(3))]]
    if draw(st.integers(0, 3)) == 3:
        nodes.append(draw(line("METHOD", st.sampled_from(["PUBLISH", "REQUEST"]))))
    nodes += [draw(zone_node(z)) for z in zones]
    for _ in range(draw(st.integers(1 if not zones else 0, max_entries))):
        nodes.append(draw(entry(draw(st.sampled_from(["VEVENT", "VEVENT", "VTODO"])), tzids, hi)))
    if draw(st.booleans()):
        nodes += draw(st.lists(unknown_line(UNKNOWN_CAL), max_size=3))
    if draw(st.integers(0, 3)) == 3:
        nodes.append(draw(unknown_comp(UNKNOWN_CAL)))
    nodes = draw(st.permutations(nodes)) if draw(st.booleans()) else nodes
    return {"nodes": nodes, "zones": zones, "recase": draw(st.sampled_from([0, 0, 1])) and draw(st.integers(0, 2 ** 48 - 1)), "fold": draw(st.sampled_from([0, 0, 75, 40])), "eol": draw(st.sampled_from(["\r\n", "\r\n", "\n"]))}


@st.composite
def big(draw, **kw):
    """many entries and long lists of lines, of few different ones"""
    n, k, j = draw(st.integers(1, 25)), draw(st.integers(1, 25)), draw(st.integers(0, 3))
    c = draw(calendar(**kw))
    out, seen = [], 0
    for node in c["nodes"]:
        if node[0] == "C" and node[1].upper() in ("VEVENT", "VTODO"):
            if seen == j % 2:
                kids = []
                for x in node[2]:
                    name = x[1].upper()
                    many = x[0] == "C" or name in ("ATTENDEE", "CATEGORIES", "ATTACH") or name.startswith("X-")
                    kids += [x] * (k if many else 1)
                node = [node[0], node[1], kids]
            seen += 1
            out += [node] * n
        else:
            out += [node] * (k if node[0] == "L" and node[1].upper().startswith("X-") else 1)
    return dict(c, nodes=out)


@st.composite
def some(draw, max_entries=3, hi=9000):
    """mostly small, now and then big"""
    return draw(big(max_entries=max_entries, hi=hi) if draw(st.integers(0, 30)) == 7 else calendar(max_entries, hi))


gen.memo(globals(), "lower pval xparams line raw_text unknown_line unknown_comp dur_text utc_text geo_text cat_line attach_line person_line alarm "
                    "tz_params times entry calendar")

# ------------------------------------------------------------------ canonical reading

TEXTS = {"SUMMARY", "UID", "DESCRIPTION", "LOCATION", "URL", "CLASS", "PRODID", "VERSION", "METHOD", "COMMENT", "TZNAME", "TZID"}
UTCS_ = {"CREATED", "LAST-MODIFIED", "DTSTAMP"}
ENTRY_COMMON = {"SUMMARY", "UID", "DESCRIPTION", "LOCATION", "URL", "STATUS", "CREATED", "LAST-MODIFIED", "DTSTAMP", "ATTACH",
                "DTSTART", "DURATION"}
KNOWN = {
    "VEVENT": ENTRY_COMMON | {"CLASS", "ORGANIZER", "GEO", "CATEGORIES", "ATTENDEE", "DTEND"},
    "VTODO": ENTRY_COMMON | {"PERCENT-COMPLETE", "PRIORITY", "COMPLETED", "DUE"},
    "VCALENDAR": {"VERSION", "PRODID", "METHOD"},
    "VALARM": {"ACTION", "TRIGGER", "REPEAT", "DURATION"},
    "VTIMEZONE": {"TZID", "TZURL", "LAST-MODIFIED"},
    "STANDARD": {"TZNAME", "COMMENT", "TZOFFSETFROM", "TZOFFSETTO", "DTSTART", "RRULE", "RDATE"},
}
KNOWN["DAYLIGHT"] = KNOWN["STANDARD"]
SUBS = {"VCALENDAR": ("VEVENT", "VTODO", "VTIMEZONE"), "VEVENT": ("VALARM",), "VTODO": ("VALARM",), "VTIMEZONE": ("STANDARD", "DAYLIGHT")}
ALARM_KNOWN = {"AUDIO": {"ATTACH"}, "DISPLAY": {"DESCRIPTION"}, "EMAIL": {"DESCRIPTION", "SUMMARY", "ATTENDEE", "ATTACH"}}


def dur_secs(s):
    m = re.fullmatch(r"([+-]?)P(?:(\d+)W)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?", s)
    w, d, h, mi, se = (int(x or 0) for x in m.groups()[1:])
    v = (((w * 7 + d) * 24 + h) * 60 + mi) * 60 + se
    return -v if m.group(1) == "-" else v


def off_secs(s):
    m = re.fullmatch(r"([+-]?)(\d\d)(\d\d)(\d\d)?", s)
    v = int(m.group(2)) * 3600 + int(m.group(3)) * 60 + int(m.group(4) or 0)
    return -v if m.group(1) == "-" else v


def rule_dict(s):
    d = {}
    for part in s.upper().split(";"):
        k, v = part.split("=")
        if k == "BYDAY":
            v = sorted(x.lstrip("+") for x in v.split(","))
        elif k.startswith("BY"):
            v = sorted(int(x) for x in v.split(","))
        elif k in ("INTERVAL", "COUNT"):
            v = int(v)
        if (k, v) in (("INTERVAL", 1), ("WKST", "MO")):
            continue
        d[k] = v
    return sorted((k, str(v)) for k, v in d.items())


class Reader:
    def __init__(self, root):
        """root: VCALENDAR node; knows which TZIDs are defined in it"""
        self.own = set()
        for n in root[2]:
            if n[0] == "C" and n[1] == "VTIMEZONE":
                for l in n[2]:
                    if l[0] == "L" and l[1] == "TZID":
                        self.own.add(ref.unescape_text(l[3]))
        self.used = set()

    def zone(self, name):
        self.used.add(name)
        if name in self.own and not name.startswith(PREFIX):
            return "own:" + name
        if name.startswith(PREFIX):
            name = name[len(PREFIX):]
        name = WINDOWS.get(name, name)
        if name in ("UTC", "Etc/UTC"):
            return "utc"
        return name

    def params(self, ps):
        out = {}
        for k, vs in ps:
            out.setdefault(k, []).extend(v for _, v in vs)
        return list(out.items())

    def when(self, l):
        ps = dict(self.params(l[2]))
        val = l[3]
        rest = sorted((k, v) for k, v in ps.items() if k not in ("TZID", "VALUE"))
        if ps.get("VALUE") == ["DATE"]:
            return ("DATE", val, rest)
        if val[-1] in "zZ":
            return ("DT", val[:-1], "utc", rest)
        return ("DT", val, self.zone(ps["TZID"][0]) if "TZID" in ps else None, rest)

    def value(self, comp, n, sub=None):
        name, val = n[1], n[3]
        ps = self.params(n[2])
        rest = sorted((k, v) for k, v in ps if k != "VALUE")
        if comp in ("STANDARD", "DAYLIGHT") and name in ("DTSTART", "RRULE", "RDATE"):
            raise AssertionError
        if name in ("DTSTART", "DTEND", "DUE", "COMPLETED"):
            return self.when(n)
        if name in UTCS_:
            return (val.upper(), rest)
        if name == "TRIGGER":
            if dict(ps).get("VALUE") == ["DATE-TIME"]:
                return ("at", val.upper(), rest)
            return ("rel", dur_secs(val), rest)
        if name == "DURATION":
            return (dur_secs(val), rest)
        if name in ("PERCENT-COMPLETE", "PRIORITY", "REPEAT"):
            return (int(val), rest)
        if name in ("TZOFFSETFROM", "TZOFFSETTO"):
            return (off_secs(val), rest)
        if name == "GEO":
            return ([round(float(x), 5) for x in val.split(";")], rest)
        if name == "CATEGORIES":
            return ([ref.unescape_text(x) for x in ref.split_text_list(val)], rest)
        if name == "STATUS":
            return (ref.unescape_text(val).upper(), rest)
        if name == "ACTION" and ref.unescape_text(val).upper() in ("AUDIO", "DISPLAY", "EMAIL", "NONE"):
            return (val.upper(), rest)
        if name in TEXTS or name == "ACTION":
            return (ref.unescape_text(val), rest)
        if name == "ATTACH":
            return (dict(ps).get("VALUE", ["URI"]), val, rest)
        return (val, rest)  # persons, TZURL

    def comp(self, n):
        name = n[1]
        known = known_of(name, n[2])
        out = {"": []}
        onsets = []
        for k in n[2]:
            if k[0] == "L" and name in ("STANDARD", "DAYLIGHT") and k[1] in ("DTSTART", "RRULE", "RDATE"):
                if k[1] == "RRULE":
                    out.setdefault("RRULE", []).append(rule_dict(k[3]))
                elif k[1] == "DTSTART":
                    out["DTSTART"] = k[3]
                    onsets.append(k[3])
                else:
                    onsets += k[3].split(",")
            elif k[0] == "L" and k[1] in known:
                ps = [("VALUE", [(q, v.upper()) for q, v in vs]) if p.upper() == "VALUE" else (p.upper(), vs) for p, vs in k[2]]
                out.setdefault(k[1], []).append(self.value(name, [k[0], k[1], ps] + list(k[3:])))
            elif k[0] == "C" and k[1] in SUBS.get(name, ()):
                key = "OBS" if name == "VTIMEZONE" else k[1]
                out.setdefault(key, []).append(self.comp(k))
            else:
                out[""].append(self.raw(k))
        if onsets:
            out["ONSETS"] = sorted(set(onsets))
        if name in ("STANDARD", "DAYLIGHT"):
            out["KIND"] = name
        return out

    def raw(self, n):
        if n[0] == "C":
            return ("C", n[1], [self.raw(k) for k in n[2]])
        return ("L", n[1], self.params(n[2]), n[3])


def read(text):
    """text -> (canonical VCALENDAR, set of used TZIDs)"""
    tree = ref.parse_tree(text)
    assert len(tree) == 1 and tree[0][:2] == ("C", "VCALENDAR"), tree
    r = Reader(tree[0])
    return r.comp(tree[0]), r
