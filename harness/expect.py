"""What the written form of a spec must look like, derived from the spec alone (names per component, decoded texts)."""
from harness import ref

SINGLE_TEXT = {"summary": "SUMMARY", "uid": "UID", "description": "DESCRIPTION", "location": "LOCATION", "status": "STATUS",
               "classification": "CLASS"}
OTHER = {"url": "URL", "created": "CREATED", "last_modified": "LAST-MODIFIED", "dtstamp": "DTSTAMP", "percent": "PERCENT-COMPLETE",
         "priority": "PRIORITY", "completed": "COMPLETED", "transparent": "TRANSP", "organizer": "ORGANIZER", "geo": "GEO"}


def extra_names(items):
    return sorted(x[1].upper() for x in items)


def span_names(s, todo):
    out = []
    if s.get("b") is not None:
        out.append("DTSTART")
    if s.get("e") is not None or s.get("due") is not None:
        out.append("DUE" if todo else "DTEND")
    if s.get("d") is not None:
        out.append("DURATION")
    return out


def alarm_names(a):
    out = ["ACTION"]
    for k in ("trigger", "repeat", "duration", "description", "summary"):
        if a.get(k) is not None:
            out.append(k.upper())
    if a.get("attach"):
        out.append("ATTACH")
    out += ["ATTACH"] * len(a.get("attaches", []))
    out += ["ATTENDEE"] * len(a.get("attendees", []))
    return sorted(out + extra_names(a.get("extra", [])))


def entry_names(e):
    out = span_names(e["span"], e["kind"] == "todo")
    for k, n in list(SINGLE_TEXT.items()) + list(OTHER.items()):
        if e.get(k) is not None:
            out.append(n)
    out += ["ATTACH"] * len(e.get("attach", []))
    out += ["ATTENDEE"] * len(e.get("attendees", []))
    out += ["CATEGORIES"] * len(e.get("categories", []))
    out += ["VALARM"] * len(e.get("alarms", []))
    return sorted(out + extra_names(e.get("extra", [])))


# the attribute `transparent` has no proper name yet (known finding); both spellings count as one property
ALIAS = {"TRANSPARENT": "TRANSP"}


def names(node):
    """sorted names of the direct children of a component node; CATEGORIES counted per value"""
    out = []
    for n in node[2]:
        nm = ALIAS.get(n[1], n[1])
        k = len(ref.split_text_list(n[3])) if nm == "CATEGORIES" and n[0] == "L" else 1
        out += [nm] * k
    return sorted(out)


def comps(node, name):
    return [n for n in node[2] if n[0] == "C" and n[1] == name]


def lines(node, name):
    return [n for n in node[2] if n[0] == "L" and n[1] == name]


def decode(s):
    """TEXT decoding that also knows the library's own escape for a carriage return"""
    return ref.unescape_text(s.replace("\\\\", "\0").replace("\\r", "\r").replace("\0", "\\\\"))
