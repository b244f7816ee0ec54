import attr
from hypothesis import strategies as st

from harness import build, expect, gen, ref
from harness.core import Known, Sub, check, eq

RULE = ("Calendars of events, todos and alarms with random subsets of all attributes (texts over an escape-dense alphabet, floating/"
        "UTC/fixed-offset/bundled/custom-zone/all-day times, persons, attachments, extras); exported, read by an independent "
        "tokenizer, imported and exported again. Non-trivial: at least one entry with a set time or three set attributes.")
ASSUMPTIONS = ["date-times in whole seconds, existing local times with fold=0", "URIs that urllib keeps as they are",
               "geo positions on the 1e-6 degree grid", "zones of one calendar have distinct names"]


def strategy():
    return gen.calendar(max_entries=4, tz=None, api_zones=True)


def picture(o, drop=("extra_params",)):
    """attribute snapshot of a component without bookkeeping"""
    if attr.has(type(o)) and hasattr(o, "extra_params"):
        d = {}
        for f in attr.fields(type(o)):
            if f.name in drop:
                continue
            v = getattr(o, f.name)
            d[f.name] = [picture(x) for x in v] if isinstance(v, list) else picture(v)
        return (type(o).__name__, d)
    return build.snap(o)


def entries(cal):
    return [picture(e) for e in cal.events], [picture(t) for t in cal.todos]


def check_round(c, note):
    import ics
    from harness.props.c05 import check_structure

    cal = build.cal_of(c)
    want = entries(cal)
    out = check_structure(cal, c, note, xparams=False)
    check_values(c, out)
    again = ics.Calendar(out)
    got = entries(again)
    for k, (a, b) in enumerate(zip(got, want)):
        eq(len(a), len(b), "number of %s" % ("events", "todos")[k])
        for i, (x, y) in enumerate(zip(a, b)):
            for f in y[1]:
                eq(x[1].get(f), y[1][f], "%s of %s %d" % (f, y[0], i))
            eq(x, y, "entry")
    for f in ("version", "prodid", "scale", "method"):
        eq(getattr(again, f), getattr(cal, f), f)
    eq(build.snap(again.extra), build.snap(cal.extra), "calendar extras")
    eq(again.serialize(), out, "second export")
    eq(entries(cal), want, "original after export")
    big = any(len(e) > 5 or e["span"] for e in c["entries"])
    note.nontrivial(big)
    for e in c["entries"]:
        note(*["attr:" + k for k in e])
        for a in e.get("alarms", []):
            note("alarm:" + a["kind"])


def check_values(c, out):
    """spot-check the written values by independent decoding"""
    root = ref.parse_tree(out)[0]
    for kind, nm in (("event", "VEVENT"), ("todo", "VTODO")):
        specs = [e for e in c["entries"] if e["kind"] == kind]
        for node, e in zip(expect.comps(root, nm), specs):
            val = {n[1]: n for n in node[2] if n[0] == "L"}
            for k, n in expect.SINGLE_TEXT.items():
                if e.get(k) is not None:
                    eq(ref.unescape_text(val[n][3]), e[k], n)
            for k in ("percent", "priority"):
                if e.get(k) is not None:
                    eq(val[expect.OTHER[k]][3], str(e[k]), k)
            for k in ("created", "last_modified", "dtstamp", "completed"):
                if e.get(k) is not None:
                    from datetime import datetime

                    eq(val[expect.OTHER[k]][3], ref.fmt_dt(datetime(*e[k][0]), utc=True), k)
            if e.get("geo"):
                lat, lon = val["GEO"][3].split(";")
                eq([float(lat), float(lon)], e["geo"], "geo")
            atts = [l[3] for l in expect.lines(node, "ATTACH")]
            for raw, a in zip(atts, e.get("attach", [])):
                if "u" in a:
                    eq(raw, a["u"], "attach")
                else:
                    import base64

                    eq(base64.b64decode(raw).hex(), a["b"], "attach")
            for al, a in zip(expect.comps(node, "VALARM"), e.get("alarms", [])):
                v = {n[1]: n for n in al[2] if n[0] == "L"}
                act = {"audio": "AUDIO", "display": "DISPLAY", "email": "EMAIL", "none": "NONE"}.get(a["kind"])
                eq(ref.unescape_text(v["ACTION"][3]), act or a.get("action"), "ACTION")
                if a.get("repeat") is not None:
                    eq(v["REPEAT"][3], str(a["repeat"]), "REPEAT")
                for k in ("description", "summary"):
                    if a.get(k) is not None:
                        eq(ref.unescape_text(v[k.upper()][3]), a[k], k)


RFC = {"summary": "SUMMARY", "description": "DESCRIPTION", "location": "LOCATION", "status": "STATUS", "url": "URL",
       "created": "CREATED", "last_modified": "LAST-MODIFIED", "classification": "CLASS", "organizer": "ORGANIZER", "geo": "GEO",
       "percent": "PERCENT-COMPLETE", "priority": "PRIORITY", "completed": "COMPLETED", "transparent": "TRANSP",
       "attach": "ATTACH", "attendees": "ATTENDEE", "categories": "CATEGORIES"}


def check_single(c, note):
    """adding one attribute adds exactly its own property lines"""
    known = None
    full = c
    base = {k: full[k] for k in ("kind", "span", "uid", "dtstamp")}

    def lines(spec):
        root = ref.parse_tree(build.entry_of(spec).to_container().serialize())[0]
        return [n[:4] for n in root[2]]

    b = lines(base)
    for k, rfc in RFC.items():
        if k not in full:
            continue
        spec = dict(base)
        spec[k] = full[k]
        new = list(lines(spec))
        for l in b:
            check(l in new, "setting %s changed %r", k, l)
            new.remove(l)
        cnt = len(full[k]) if isinstance(full[k], list) and k in ("attach", "attendees", "categories") else 1
        eq(len(new), cnt, "lines added by %s: %r" % (k, new))
        got = {l[1] for l in new}
        if k == "transparent" and got == {"TRANSPARENT"} and new[0][3] in ("TRUE", "FALSE"):
            known = "transparent-name"
        else:
            eq(got, {rfc}, "property name of " + k)
        note("attr:" + k)
    note.nontrivial(len(full) > 5)
    if known:
        raise Known(known)


def check_scale(c, note):
    import ics

    cal = ics.Calendar(scale=c["scale"])
    root = ref.parse_tree(cal.serialize())[0]
    note.nontrivial()
    nm = [n[1] for n in root[2] if n[0] == "L" and n[1] not in ("VERSION", "PRODID")]
    eq(len(nm), 1, "one property for the scale")
    eq(ics.Calendar(cal.serialize()).scale, c["scale"], "scale")
    if nm == ["SCALE"]:
        raise Known("scale-name")
    eq(nm, ["CALSCALE"], "property name of scale")


SUBS = [
    Sub("many", lambda: gen.big_calendar(tz=None, api_zones=True), check_round, quick=80, shards=2),
    Sub("round", strategy, check_round, quick=1000, shards=6),
    Sub("single", lambda: gen.entry(txt=gen.text(3), alarms=False, extra=False, tz=st.sampled_from(gen.UTCS)), check_single, quick=400),
    Sub("scale", lambda: st.fixed_dictionaries(dict(scale=st.sampled_from(["GREGORIAN", "X-Y"]))), check_scale, quick=2),
]
