import re

from hypothesis import strategies as st

from harness import build, gen, ref
from harness.core import Sub, check, eq, raises, refuses

RULE = ("Histories of 1..15 settings, replacements, deletions and rejected settings of every detail of two attendees and an organizer "
        "(texts over an escape-dense alphabet, arbitrary URIs, lists), interleaved with export and import of the event, todo-free email "
        "alarm or both, against a dictionary model checked completely after every step and against an independent reading of the exported "
        "lines; and participant lines written by another program with quoted and unquoted, known and unknown parameters. Non-trivial: a "
        "detail was set and read back after export and import.")
ASSUMPTIONS = ["texts without carriage returns and URIs that urllib keeps as they are", "lists of memberships and delegations are not empty",
               "a participant has its own dictionary of parameters"]
TECHNIQUE = "stateful model-based testing against a dictionary, plus differential reading of imported lines"

URIS = ("sent_by", "directory")
MULTI = ("member", "delegated_to", "delegated_from")
TEXT = ("common_name", "user_type", "role", "status")
PARAM = {"sent_by": "SENT-BY", "common_name": "CN", "directory": "DIR", "user_type": "CUTYPE", "member": "MEMBER", "role": "ROLE",
         "status": "PARTSTAT", "rsvp": "RSVP", "delegated_to": "DELEGATED-TO", "delegated_from": "DELEGATED-FROM"}
DEFAULT = {"user_type": "INDIVIDUAL", "role": "REQ-PARTICIPANT", "status": "NEEDS-ACTION", "rsvp": False}
ORG = ["sent_by", "common_name", "directory"]
ALL = list(PARAM)


def value(f):
    if f in URIS:
        return gen.uri()
    if f in MULTI:
        return st.one_of(*[st.lists(gen.uri(), min_size=1, max_size=3)] * 9, gen.many(gen.uri(), 1, 50))
    if f == "rsvp":
        return st.booleans()
    std = {"user_type": ["INDIVIDUAL", "GROUP", "RESOURCE", "ROOM", "UNKNOWN"], "role": ["REQ-PARTICIPANT", "CHAIR", "NON-PARTICIPANT"],
           "status": ["NEEDS-ACTION", "ACCEPTED", "DELEGATED"]}.get(f)
    t = gen.text(5)
    return st.one_of(st.sampled_from(std), t) if std else t


def real(f, v):
    if f in URIS:
        return build.uri_of(v)
    if f in MULTI:
        return [build.uri_of(x) for x in v]
    return v


@st.composite
def op(draw):
    k = draw(st.sampled_from(["set", "set", "set", "set", "del", "round", "bad", "x", "getmut"]))
    who = draw(st.sampled_from([0, 0, 1, 2]))
    f = draw(st.sampled_from(ORG if who == 2 else ALL))
    o = {"op": k, "who": who, "f": f}
    if k == "set":
        o["v"] = draw(value(f))
        o["as"] = draw(st.sampled_from(["list", "tuple", "gen"]))
    if k == "x":
        o["n"] = draw(gen.xname())
        o["vs"] = draw(st.lists(gen.text(3), min_size=1, max_size=3))
    if k == "round":
        o["via"] = draw(st.sampled_from(["event", "event", "calendar", "alarm"]))
    return o


def strategy():
    return st.fixed_dictionaries(dict(ops=st.lists(op(), min_size=1, max_size=15), people=st.tuples(gen.person(), gen.person(), gen.person(False)).map(list)))


def picture(p, fields):
    out = {}
    for f in fields:
        v = getattr(p, f)
        out[f] = v
    return out


def expected(m, fields):
    return {f: real(f, m["kw"][f]) if f in m["kw"] else DEFAULT.get(f) for f in fields}


def line_params(m):
    """the parameters a reader of the exported line must find"""
    d = {k: list(v) for k, v in m["x"].items()}
    for f, v in m["kw"].items():
        d[PARAM[f]] = ["TRUE" if v else "FALSE"] if f == "rsvp" else list(v) if f in MULTI else [v]
    return d


def check_case(c, note):
    import ics

    people = []
    model = []
    for i, p in enumerate(c["people"]):
        people.append(build.person_of(p, ics.Organizer if i == 2 else ics.Attendee))
        model.append({"email": p["email"], "kw": dict(p["kw"]), "x": {k: list(v) for k, v in p["x"].items()}})
    fields = [ALL, ALL, ORG]
    was_set = rounded = False

    def same(where):
        for i in range(3):
            eq(picture(people[i], fields[i]), expected(model[i], fields[i]), "participant %d %s" % (i, where))
            eq(people[i].email, build.uri_of(model[i]["email"]), "address of participant %d %s" % (i, where))
            for k, v in model[i]["x"].items():
                eq([str(x) for x in people[i].extra[k]], v, "%s of participant %d %s" % (k, i, where))
            eq({k: [str(x) for x in v] for k, v in people[i].extra.items()}, line_params(model[i]), "parameters of participant %d %s" % (i, where))

    same("at start")
    for o in c["ops"]:
        k, i, f = o["op"], o["who"], o["f"]
        p, m = people[i], model[i]
        if k == "set":
            v = real(f, o["v"])
            given = v
            if f in MULTI:
                given = {"list": lambda: list(v), "tuple": lambda: tuple(v), "gen": lambda: (x for x in v)}[o["as"]]()
            setattr(p, f, given)
            if isinstance(given, list):
                given.clear()
            m["kw"][f] = o["v"]
            was_set = True
        elif k == "del":
            delattr(p, f)
            m["kw"].pop(f, None)
        elif k == "getmut":
            v = getattr(p, f)
            if isinstance(v, list):
                v.reverse()
                v.append(build.uri_of("mailto:x@y"))
        elif k == "x":
            p.extra[o["n"]] = list(o["vs"])
            m["x"][o["n"]] = list(o["vs"])
        elif k == "bad":
            # a value that cannot be stored leaves everything as it was
            bad = "perhaps"
            if f in MULTI:
                refuses((TypeError, ValueError, AttributeError), lambda: setattr(p, f, 5))
            elif f == "rsvp":
                refuses((TypeError, ValueError, AttributeError), lambda: setattr(p, f, bad))
            elif f in URIS:
                refuses((TypeError, ValueError, AttributeError), lambda: setattr(p, f, 5))
        else:
            via = o["via"]
            e = ics.Event(summary="x", uid="u", attendees=people[:2], organizer=people[2])
            if via == "alarm":
                e = ics.Event(uid="u", organizer=people[2])
                e.alarms.append(ics.EmailAlarm(attendees=people[:2]))
                text = e.serialize()
            elif via == "calendar":
                text = ics.Calendar(events=[e]).serialize()
            else:
                text = e.serialize()
            same("after export")
            # an independent reader finds exactly the details
            found = {"ATTENDEE": [], "ORGANIZER": []}
            for l in logical(text):
                n, ps, v = ref.parse_line(l)[-3:]
                if n in found:
                    found[n].append(({a: [x for _, x in b] for a, b in ps}, v))
            eq(found["ATTENDEE"], [(line_params(x), x["email"]) for x in model[:2]], "exported attendees")
            eq(found["ORGANIZER"], [(line_params(model[2]), model[2]["email"])], "exported organizer")
            if via == "calendar":
                e = ics.Calendar(text).events[0]
            else:
                from ics.contentline import string_to_container

                e = ics.Event.from_container(string_to_container(text))
            ats = e.alarms[0].attendees if via == "alarm" else e.attendees
            eq(len(ats), 2, "number of attendees")
            check(all(type(a) is ics.Attendee for a in ats) and type(e.organizer) is ics.Organizer, "types")
            people = [ats[0], ats[1], e.organizer]
            rounded = rounded or any(x["kw"] for x in model)
            note("round-" + via)
        same("after %r" % (o,))
    # equal details: equal participants
    for i in range(3):
        q = build.person_of({"email": model[i]["email"], "kw": model[i]["kw"], "x": model[i]["x"]}, type(people[i]))
        eq(picture(q, fields[i]), picture(people[i], fields[i]), "participant with the same details")
    for f in ALL:
        refuses(AttributeError, lambda: getattr(people[2], f)) if f not in ORG else None
    note.nontrivial(was_set and rounded)


def logical(text):
    out = []
    for l in re.split("\r\n", text):
        if l[:1] in (" ", "\t"):
            out[-1] += l[1:]
        elif l:
            out.append(l)
    return out


# ------------------------------------------------------------------ participants written by others


@st.composite
def foreign_line(draw):
    who = draw(st.sampled_from(["ATTENDEE", "ATTENDEE", "ORGANIZER"]))
    ps = []
    fs = draw(st.lists(st.sampled_from(ALL), max_size=5, unique=True))
    for f in fs:
        if f == "rsvp":
            ps.append([PARAM[f], [[draw(st.booleans()), draw(st.sampled_from(["TRUE", "FALSE", "true", "False"]))]]])
            continue
        v = draw(value(f))
        vs = v if isinstance(v, list) else [v]
        if not isinstance(v, list) and draw(st.integers(0, 7)) == 0:
            vs = vs + draw(st.lists(value(f), min_size=1, max_size=2))
        ps.append([PARAM[f], [[draw(st.booleans()) or not x or bool(set(x) & set(":;,\"\n^")), x] for x in vs]])
    for n, vs in draw(gen.params(gen.xname(), 2, gen.text(3))):
        ps.append([n, [[draw(st.booleans()) or not x or bool(set(x) & set(":;,")), x] for x in vs]])
    ps = draw(st.permutations(ps))
    return [who, ps, draw(gen.uri())]


def check_foreign(c, note):
    import ics
    from ics.contentline import string_to_container

    esc = lambda s: s.replace("^", "^^").replace('"', "^'").replace("\n", "^n")
    rows = []
    orgs = 0
    for who, ps, email in c["lines"]:
        if who == "ORGANIZER":
            orgs += 1
            if orgs > 1:
                who = "ATTENDEE"
        rows.append((who, ps, email))
    out = ["BEGIN:VEVENT", "UID:u"]
    for who, ps, email in rows:
        out.append(who + "".join(";%s=%s" % (n, ",".join(('"%s"' if q else "%s") % esc(v) for q, v in vs)) for n, vs in ps) + ":" + email)
    out.append("END:VEVENT")
    text = "\r\n".join(out)
    if c["fold"]:
        text = "\r\n".join("\r\n ".join(l[i:i + 60] for i in range(0, len(l), 60)) for l in out)
    e = ics.Event.from_container(string_to_container(text))
    for t in range(2):
        ats = iter(e.attendees)
        eq(len(e.attendees), sum(r[0] == "ATTENDEE" for r in rows), "number of attendees")
        eq(e.organizer is not None, orgs > 0, "organizer present")
        for who, ps, email in rows:
            p = next(ats) if who == "ATTENDEE" else e.organizer
            d = {n: [v for _, v in vs] for n, vs in ps}
            eq(p.email.geturl(), email, "address")
            fields = ALL if who == "ATTENDEE" else ORG
            for f in fields:
                if f not in MULTI and len(d.get(PARAM[f], ())) > 1:
                    # there is no telling which of the values is meant
                    refuses(ValueError, lambda: getattr(p, f))
                    continue
                got = getattr(p, f)
                if PARAM[f] not in d:
                    want = DEFAULT.get(f)
                elif f == "rsvp":
                    want = d["RSVP"][0].upper() == "TRUE"
                elif f in MULTI:
                    want = [build.uri_of(x) for x in d[PARAM[f]]]
                else:
                    want = real(f, d[PARAM[f]][0])
                eq(got, want, "%s of the imported participant" % f)
            eq({k: [str(x) for x in v] for k, v in p.extra.items()}, d, "all parameters")
        found = []
        for l in logical(e.serialize()):
            n, ps, v = ref.parse_line(l)[-3:]
            if n in ("ATTENDEE", "ORGANIZER"):
                found.append((n, {a: [x for _, x in b] for a, b in ps}, v))
        key = lambda r: (r[0], r[2], sorted(r[1].items()))
        eq(sorted(found, key=key), sorted([(w, {n: [v for _, v in vs] for n, vs in ps}, m) for w, ps, m in rows], key=key), "exported lines")
        e = ics.Event.from_container(string_to_container(e.serialize()))
    note.nontrivial(any(ps for _, ps, _ in rows))
    for _, ps, _ in rows:
        note(*["p:" + n for n, _ in ps if not n.startswith("X-")])


SUBS = [
    Sub("history", strategy, check_case, quick=3000, shards=5),
    Sub("foreign", lambda: st.fixed_dictionaries(dict(lines=st.lists(foreign_line(), min_size=1, max_size=4), fold=st.booleans())), check_foreign,
        quick=4000, shards=4),
]
