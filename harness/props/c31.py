import math
import typing
from datetime import date, datetime, time, timedelta

from hypothesis import strategies as st

from harness import build, gen, ref
from harness.core import Sub, check, eq, raises
from harness.props.c02 import logical
from harness.props.c16 import dur_read
from harness.props.c17 import b64, unb64

RULE = ("Random component classes: up to six attributes declared with one of 12 value types, plain, optional, as list, as union of several types "
        "or list of unions, or as nested component(s) of another random class, with random names, property names, priorities, required and "
        "ignored marks and defaults, mutable or frozen; random instances are exported and imported, and texts of another program (merged lists, "
        "explicit VALUE, unknown parameters and lines, any order) are imported and exported; faults are injected. The declaration alone decides "
        "what is expected. Non-trivial: at least two attributes have values, one of them a list, union or component.")
ASSUMPTIONS = ["property names of one class are distinct", "a union lists a type before its base types", "all values of one list line share their parameters",
               "classes are registered with ComponentMeta / ImmutableComponentMeta"]

TYPES = ["str", "int", "float", "bool", "bytes", "dt", "date", "time", "td", "off", "uri", "geo"]
ICS = dict(zip(TYPES, ["TEXT", "INTEGER", "FLOAT", "BOOLEAN", "BINARY", "DATE-TIME", "DATE", "TIME", "DURATION", "UTC-OFFSET", "URI", "X-GEO"]))
# a union may not hold two of these in the wrong order (the latter is also an instance of the former)
CLASH = [("int", "bool"), ("date", "dt"), ("td", "off"), ("off", "td")]
BERLIN = "/ics.py/2020.1/Europe/Berlin"


def py(t):
    from ics.geo import Geo
    from ics.types import URL, UTCOffset

    return {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes, "dt": datetime, "date": date, "time": time, "td": timedelta,
            "off": UTCOffset, "uri": URL, "geo": Geo}[t]


def value(t):
    if t == "str":
        return gen.text()
    if t == "int":
        return st.integers(-10 ** 6, 10 ** 6)
    if t == "float":
        return st.integers(-10 ** 6, 10 ** 6).map(lambda v: v / 1000)
    if t == "bool":
        return st.booleans()
    if t == "bytes":
        return st.binary(max_size=12).map(bytes.hex)
    if t == "dt":
        return st.tuples(gen.ymdhms(1971, 2030).map(lambda y: y[:2] + [min(y[2], 20), y[3] if y[3] > 3 else 12] + y[4:6]), st.sampled_from([None, None, "u:dt", "i:Europe/Berlin"])).map(list)
    if t == "date":
        return gen.ymdhms(1, 9998).map(lambda y: y[:3])
    if t == "time":
        return st.tuples(gen.ymdhms(1, 9998).map(lambda y: y[3:6]), st.sampled_from([None, "u:dt"])).map(list)
    if t == "td":
        return st.integers(-10 ** 6, 10 ** 6)
    if t == "off":
        return st.integers(-86399, 86399)
    if t == "uri":
        return gen.uri()
    return st.tuples(st.integers(-90 * 10 ** 6, 90 * 10 ** 6), st.integers(-180 * 10 ** 6, 180 * 10 ** 6)).map(lambda g: [g[0] / 10 ** 6, g[1] / 10 ** 6])


def real(t, v):
    if t == "bytes":
        return bytes.fromhex(v)
    if t == "dt":
        return build.dt_of(v)
    if t == "date":
        return date(*v)
    if t == "time":
        return time(*v[0], tzinfo=build.tz_of(v[1]))
    if t in ("td", "off"):
        return timedelta(seconds=v)
    if t == "uri":
        return build.uri_of(v)
    if t == "geo":
        return py("geo")(*v)
    return v


def write(t, v):
    """our own writer -> (text, parameters)"""
    p = {}
    if t == "str":
        return ref.escape_text(v), p
    if t == "bool":
        return str(v).upper(), p
    if t == "bytes":
        return b64(bytes.fromhex(v)), p
    if t == "dt":
        if v[1] == "i:Europe/Berlin":
            p = {"TZID": [BERLIN]}
        return ref.fmt_dt(datetime(*v[0]), utc=v[1] == "u:dt"), p
    if t == "date":
        return ref.fmt_date(date(*v)), p
    if t == "time":
        return "%02d%02d%02d" % tuple(v[0]) + "Z" * (v[1] is not None), p
    if t == "td":
        return "%sPT%dS" % ("-" if v < 0 else "", abs(v)), p
    if t == "off":
        return ref.fmt_off(v), p
    if t == "geo":
        return "%.6f;%.6f" % tuple(v), p
    return repr(v) if t == "float" else str(v), p


def read(t, s, p):
    """independent reader of one written value -> the JSON value"""
    if t == "str":
        return ref.unescape_text(s)
    if t == "int":
        return int(s)
    if t == "float":
        return float(s)
    if t == "bool":
        return {"TRUE": True, "FALSE": False}[s]
    if t == "bytes":
        return unb64(s).hex()
    if t == "dt":
        tz = "u:dt" if s.endswith("Z") else "i:Europe/Berlin" if p.get("TZID") == [BERLIN] else None
        check(p.get("TZID", [BERLIN]) == [BERLIN] and not (tz == "u:dt" and "TZID" in p), "TZID of %r: %r", s, p)
        s = s.rstrip("Z")
        return [[int(s[a:b]) for a, b in ((0, 4), (4, 6), (6, 8), (9, 11), (11, 13), (13, 15))], tz]
    if t == "date":
        return [int(s[:4]), int(s[4:6]), int(s[6:])]
    if t == "time":
        return [[int(s[0:2]), int(s[2:4]), int(s[4:6])], "u:dt" if s.endswith("Z") else None]
    if t == "td":
        return dur_read(s)
    if t == "off":
        d = s[1:]
        n = int(d[:2]) * 3600 + int(d[2:4]) * 60 + int(d[4:] or 0)
        return -n if s[0] == "-" else n
    if t == "geo":
        return [float(x) for x in s.split(";")]
    return s


# ------------------------------------------------------------------ classes

WORDS = ["alpha", "beta", "gamma_ray", "delta", "eps_x_y", "_zeta", "eta9", "theta", "iota_", "_ka_ppa__"]


@st.composite
def field(draw, word, child):
    f = {"a": word}
    kinds = ["plain", "opt", "opt", "list", "list", "union", "optunion", "listunion"]
    f["w"] = draw(st.sampled_from(kinds + ["child", "children", "children"] * child))
    if f["w"] in ("child", "children"):
        return f
    n = draw(st.integers(2, 3)) if "union" in f["w"] else 1
    ts = draw(st.lists(st.sampled_from(TYPES), min_size=n, max_size=n, unique=True))
    for a, b in CLASH:
        if a in ts and b in ts and ts.index(a) < ts.index(b):
            if {a, b} == {"td", "off"}:
                ts.remove(b)
            else:
                i, j = ts.index(a), ts.index(b)
                ts[i], ts[j] = b, a
    f["t"] = ts
    if draw(st.integers(0, 2)) == 0:
        f["name"] = "X-" + draw(st.sampled_from(["FOO", "BAR", "BAZ", "A-B", "Q1"])) + "-" + word.strip("_").upper().replace("_", "")
    f["prio"] = draw(st.sampled_from([None, None, None, 0, 5, 10, -3, 1000]))
    mark = draw(st.sampled_from([None] * 6 + ["req", "req", "ign", "mand", "notreq"]))
    f["mark"] = mark
    if "list" not in f["w"] and mark != "mand" and draw(st.integers(0, 3)) == 0:
        f["dflt"] = draw(typed(ts))
    return f


def typed(ts):
    return st.one_of(*[st.tuples(st.just(t), value(t)).map(list) for t in ts])


@st.composite
def klass(draw, child=False):
    words = draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=6, unique=True))
    fields = []
    for w in words:
        fields.append(draw(field(w, child)))
        child = child and "t" in fields[-1]
    return {"fields": fields, "frozen": draw(st.integers(0, 3)) == 0}


def values(k, kid):
    """a strategy for the attribute values of an instance"""

    def one(f):
        if f["w"] == "child":
            return st.one_of(st.none(), values(kid, None))
        if f["w"] == "children":
            return st.lists(values(kid, None), max_size=3)
        if "list" in f["w"]:
            low = 1 if f["mark"] in ("req", "mand") else 0
            return st.one_of(*[st.lists(typed(f["t"]), min_size=low, max_size=4)] * 12, gen.many(typed(f["t"]), low, 40))
        return typed(f["t"]) if f["mark"] in ("req", "mand") or f["w"] in ("plain", "union") else st.one_of(st.none(), typed(f["t"]), typed(f["t"]))

    return st.fixed_dictionaries({f["a"]: one(f) for f in k["fields"]})


@st.composite
def strategy(draw):
    kid = draw(klass())
    k = draw(klass(child=True))
    c = {"class": k, "kid": kid, "values": draw(values(k, kid)), "seed": draw(st.integers(0, 2 ** 16)),
         "extra": draw(st.lists(gen.extra_item(), max_size=2))}
    c["fault"] = draw(st.sampled_from(["missing", "twice", "type", "types", "name"]))
    return c


def title(f, kid_name="X-KID"):
    if f["w"] in ("child", "children"):
        return kid_name
    return f.get("name") or f["a"].upper().replace("_", "-").strip("-")


def make(k, name, kid=None, bases=None):
    import attr
    from ics.component import Component
    from ics.converter.component import ComponentMeta, ImmutableComponentMeta

    attrs_, own = {}, {}
    for f in k["fields"]:
        meta, kw = {}, {}
        if f["w"] == "child":
            kw["type"], kw["default"] = typing.Optional[kid], None
        elif f["w"] == "children":
            kw["type"], kw["factory"] = typing.List[kid], list
        else:
            ts = tuple(py(t) for t in f["t"])
            # (typing caches generics by equality, which ignores the order of unions)
            t = typing.Union[ts] if "union" in f["w"] else ts[0]
            kw["type"] = typing.List.copy_with((t,)) if "list" in f["w"] else typing.Union[ts + (type(None),)] if "opt" in f["w"] else t
            if "list" in f["w"]:
                kw["factory"] = list
            elif "dflt" in f:
                v = real(*f["dflt"])
                if f["prio"] is not None and f["prio"] % 2:
                    kw["default"] = attr.Factory(lambda self, v=v: v if self is not None else None, takes_self=True)
                else:
                    kw["default"] = v
            else:
                kw["default"] = None
            if f["mark"] == "mand" and k["frozen"]:
                kw.pop("default", None), kw.pop("factory", None)
            elif f["mark"] in ("req", "mand"):
                meta["ics_required"] = True
            elif f["mark"] == "notreq":
                meta["ics_required"] = False
                if not bases:
                    # the class's own constructor supplies the default
                    own[f["a"].lstrip("_")] = kw.pop("factory", None) or (lambda v=real(*f["dflt"]) if kw.pop("default") is not None else None: v)
            elif f["mark"] == "ign":
                meta["ics_ignore"] = True
            if f.get("name"):
                meta["ics_name"] = f["name"]
            if f["prio"] is not None:
                meta["ics_priority"] = f["prio"]
        attrs_[f["a"]] = attr.ib(metadata=meta, **kw)
    cls = attr.make_class("Gen" + name.title().replace("-", ""), attrs_, bases=bases or (Component,), frozen=k["frozen"], kw_only=True, order=False, init=not own)
    if own:
        cls.__init__ = lambda self, **kw: self.__attrs_init__(**dict({n: make() for n, make in own.items()}, **kw))
    if bases:
        # like Event itself: the constructor supplies the time span
        def init(self, *, timespan=bases[0]._TIMESPAN_TYPE(), **kw):
            super(wrapped, self).__init__(timespan=timespan, **kw)

        cls = wrapped = type(cls.__name__, (cls,), {"__init__": init})
    cls.NAME = name
    ComponentMeta.BY_TYPE[cls] = (ImmutableComponentMeta if k["frozen"] else ComponentMeta)(cls)
    return cls


def drop(classes):
    from ics.component import Component
    from ics.converter.component import ComponentMeta

    for c in classes:
        ComponentMeta.BY_TYPE.pop(c, None)
        while c in Component.SUBTYPES:
            Component.SUBTYPES.remove(c)


def instance(k, cls, vals, kid=None, kidcls=None):
    kw = {}
    for f in k["fields"]:
        v = vals[f["a"]]
        if f["w"] == "child":
            v = v and instance(kid, kidcls, v)
        elif f["w"] == "children":
            v = [instance(kid, kidcls, x) for x in v]
        elif "list" in f["w"]:
            v = [real(*x) for x in v]
        elif v is not None:
            v = real(*v)
        kw[f["a"].lstrip("_")] = v
    return cls(**kw)


def compare(k, o, vals, what, kid=None, imported=False):
    """attribute values against the description"""
    for f in k["fields"]:
        v, got = vals[f["a"]], getattr(o, f["a"])
        w = "%s of %s" % (f, what)
        if f["w"] == "child":
            check((got is None) == (v is None), "%s: %r", w, got)
            if v is not None:
                compare(kid, got, v, what, imported=imported)
        elif f["w"] == "children":
            eq(len(got), len(v), w)
            for x, y in zip(got, v):
                compare(kid, x, y, what, imported=imported)
        elif imported and f.get("mark") == "ign":
            want = [] if "list" in f["w"] else real(*f["dflt"]) if "dflt" in f else None
            eq(build.snap(got), build.snap(want), w)
        elif "list" in f["w"]:
            eq([show(x) for x in got], [show(real(*x)) for x in v], w)
        elif v is None:
            dflt = real(*f["dflt"]) if imported and "dflt" in f else None
            eq(build.snap(got), build.snap(dflt), w)
        else:
            eq(show(got), show(real(*v)), w)


def show(v):
    if isinstance(v, time):
        return ("time", v.replace(tzinfo=None).isoformat(), None if v.tzinfo is None else v.utcoffset())
    return (type(v).__name__, build.snap(v)) if not isinstance(v, timedelta) else build.snap(v)


def order(k):
    """attributes in the order in which they are written"""
    fs = [f for f in k["fields"] if f.get("mark") != "ign"]
    return sorted(fs, key=lambda f: -(f.get("prio") or 0))


def groups(f, v, rnd):
    """our own distribution of values over lines: [[(type, value)...], params]"""
    lines = []
    for t, x in v:
        text, p = write(t, x)
        if lines and rnd and rnd.random() < 0.6 and lines[-1]["t"] == t and t not in ("uri",) and lines[-1]["tz"] == p:
            lines[-1]["v"].append([t, x])
        else:
            lines.append({"t": t, "v": [[t, x]], "tz": p, "p": {}})
            if rnd and rnd.random() < 0.4:
                lines[-1]["p"] = {"X-P%d" % rnd.randint(0, 2): ["a;b", "c"][:rnd.randint(1, 2)]}
    return lines


def lines_ok(k, items, vals, plan, extra, what, kid=None, kidplan=None):
    """written items (see `tree`) against the planned lines, in the order of the priorities, and then the unknown items"""
    pos = 0
    for f in order(k):
        if f["w"] in ("child", "children"):
            for i, x in enumerate(kids(vals[f["a"]])):
                check(pos < len(items) and items[pos][:2] == ("C", "X-KID"), "%s: component %d of %r missing: %r", what, i, f, items)
                lines_ok(kid, items[pos][2], x, kidplan[f["a"]][i], [], what)
                pos += 1
            continue
        for ln in plan[f["a"]]:
            check(pos < len(items) and items[pos][:2] == ("L", title(f)), "%s: line %r of %r missing in %r", what, ln, f, items)
            _, _, params, text = items[pos]
            pos += 1
            want = dict(ln["p"], **ln["tz"])
            if f["t"].index(ln["t"]):
                want["VALUE"] = [ICS[ln["t"]]]
            eq(dict(params), want, "%s: parameters of %r" % (what, f))
            parts = [text] if ln["t"] == "uri" or "list" not in f["w"] else ref.split_text_list(text) if ln["t"] == "str" else text.split(",")
            eq(len(parts), len(ln["v"]), "%s: number of values in %r" % (what, text))
            for part, (t, x) in zip(parts, ln["v"]):
                got = read(t, part, dict(params))
                if t == "geo":
                    check(all(math.isclose(a, b, abs_tol=6e-7) for a, b in zip(got, x)), "%s: value %r, wanted %r", what, got, x)
                else:
                    eq(got, x, "%s: value of %r" % (what, f))
    eq(items[pos:], extra, "%s: unknown items" % what)


def kids(v):
    return [] if v is None else v if isinstance(v, list) else [v]


def plan_of(k, vals, rnd, kid=None, imported=False):
    """lines per attribute, and the plans of the nested components"""
    plan, kidplan = {}, {}
    for f in k["fields"]:
        v = vals[f["a"]]
        if f["w"] in ("child", "children"):
            kidplan[f["a"]] = [plan_of(kid, x, rnd, imported=imported)[0] for x in kids(v)]
        elif "list" in f["w"]:
            plan[f["a"]] = groups(f, v, rnd)
        elif v is None and imported and "dflt" in f:
            plan[f["a"]] = groups(f, [f["dflt"]], None)
            plan[f["a"]][0]["default"] = True
        else:
            plan[f["a"]] = [] if v is None else groups(f, [v], None)
            if rnd and v is not None and rnd.random() < 0.4:
                plan[f["a"]][0]["p"] = {"X-P": ["\u00e9,x"]}
    return plan, kidplan


def text_of(k, name, plan, kidplan, vals, extra, rnd, kid=None, fault=None):
    """-> (lines of a component as another program writes it, its unknown items in order)"""
    fault = fault or {}
    queues = []
    for f in k["fields"]:
        q = []
        if f["w"] in ("child", "children"):
            for i, x in enumerate(kids(vals[f["a"]])):
                q.append((text_of(kid, "X-KID", kidplan[f["a"]][i], {}, x, None, rnd, fault=fault if fault.get("at") == [f["a"], i] else None)[0], None))
        elif f["mark"] == "ign":
            # a line under the name of an ignored attribute is an unknown one
            if extra is not None and rnd.random() < 0.5:
                q.append(([title(f) + ":ignored\\,x"], ("L", title(f), [], "ignored\\,x")))
        else:
            here = fault.get("a") == f["a"] and (fault.get("at") is None) == (extra is not None)
            if here and fault["kind"] == "missing":
                continue
            for n, ln in enumerate(plan[f["a"]]):
                if ln.get("default"):
                    continue
                p = dict(ln["tz"], **ln["p"])
                if f["t"].index(ln["t"]) or rnd.random() < 0.3:
                    p["VALUE"] = [ICS[ln["t"]]]
                if here and fault["kind"] in ("type", "types") and n == 0:
                    p["VALUE"] = fault["types"]
                p = list(p.items())
                rnd.shuffle(p)
                ptext = "".join(";%s=%s" % (n, ",".join('"%s"' % x if n.startswith("X-") else x for x in vs)) for n, vs in p)
                q.append(([title(f) + ptext + ":" + ",".join(write(t, x)[0] for t, x in ln["v"])], None))
                if here and fault["kind"] == "twice":
                    q.append(q[-1])
        if q:
            queues.append(q)
    if extra:
        queues.append([(logical([x]), node(x)) for x in extra])
    lines, unknown = [], []
    while queues:
        q = rnd.choice(queues)
        block, item = q.pop(0)
        lines += block
        if item:
            unknown.append(item)
        queues = [z for z in queues if z]
    return ["BEGIN:" + name] + lines + ["END:" + name], unknown


def node(x):
    if x[0] == "C":
        return ("C", x[1], [node(i) for i in x[2]])
    return ("L", x[1], [(n, list(vs)) for n, vs in x[2]], x[3])


def tree(text):
    def strip(n):
        if n[0] == "C":
            return ("C", n[1], [strip(i) for i in n[2]])
        return ("L", n[1], [(p, [v for _, v in vs]) for p, vs in n[2]], n[3])

    nodes = ref.parse_tree(text)
    eq(len(nodes), 1, "components in %r" % text)
    return strip(nodes[0])


def check_case(c, note):
    import random

    import ics

    ics.initialize_converters()
    kid = make(c["kid"], "X-KID")
    cls = make(c["class"], "X-TOP", kid)
    try:
        run(c, cls, kid, random.Random(c["seed"]), note)
    finally:
        drop([cls, kid])


def run(c, cls, kidcls, rnd, note):
    from ics.contentline import string_to_container

    k, kid, vals = c["class"], c["kid"], c["values"]
    load = lambda text: cls.from_container(string_to_container(text))
    # API -> text
    o = instance(k, cls, vals, kid, kidcls)
    for x in c["extra"]:
        o.extra.append(build.item_of(x))
    extra = [node(x) for x in c["extra"]]
    before = build.snap(o)
    out = o.serialize()
    plan, kidplan = plan_of(k, vals, None, kid)
    got = tree(out)
    eq(got[1], "X-TOP", "component name")
    lines_ok(k, got[2], vals, plan, extra, "export", kid, kidplan)
    eq(o.serialize(), out, "second export")
    eq(build.snap(o), before, "instance after export")
    # and back
    back = load(out)
    check(type(back) is cls, "imported as %r", type(back))
    compare(k, back, vals, "import of the export", kid, imported=True)
    if not any("dflt" in f and vs[f["a"]] is None for q, vs in levels(k, kid, vals) for f in q["fields"]):
        eq(back.serialize(), out, "export of the import")
    # text of another program
    plan, kidplan = plan_of(k, vals, rnd, kid, imported=True)
    lines, unknown = text_of(k, "X-TOP", plan, kidplan, vals, c["extra"], rnd, kid)
    text = "\r\n".join(lines) + "\r\n"
    there = load(text)
    compare(k, there, vals, "import", kid, imported=True)
    out2 = there.serialize()
    lines_ok(k, tree(out2)[2], vals, plan, unknown, "export of foreign text", kid, kidplan)
    eq(load(out2).serialize(), out2, "third export")
    note.nontrivial(sum(1 for f in k["fields"] if vals[f["a"]]) >= 2 and any(vals[f["a"]] and f["w"] not in ("plain", "opt") for f in k["fields"]))
    note("frozen" if k["frozen"] else "mutable", *[f["w"] for f in k["fields"] if vals[f["a"]]])
    # faults
    fault, name = {"kind": c["fault"]}, "X-TOP"
    if c["fault"] == "name":
        name = "X-OTHER"
    else:
        at = [(f, None, plan) for f in k["fields"] if "t" in f]
        for g in k["fields"]:
            if "t" not in g:
                at += [(f, [g["a"], i], kidplan[g["a"]][i]) for i in range(len(kids(vals[g["a"]]))) for f in kid["fields"]]
        at = [(f, w, p) for f, w, p in at if "t" in f and f["mark"] != "ign" and p[f["a"]] and not p[f["a"]][0].get("default")]
        if c["fault"] == "missing":
            at = [x for x in at if x[0]["mark"] in ("req", "mand")]
        elif c["fault"] == "twice":
            at = [x for x in at if "list" not in x[0]["w"]]
        if not at:
            return
        f, fault["at"], _ = rnd.choice(at)
        fault["a"] = f["a"]
        if c["fault"] == "type":
            fault["types"] = [ICS[rnd.choice([t for t in TYPES if t not in f["t"]])]] if rnd.random() < 0.8 else ["X-NO-TYPE"]
        elif c["fault"] == "types":
            fault["types"] = [ICS[f["t"][0]]] * 2
        note("fault in a nested component" if fault["at"] else "fault at the top")
    bad, _ = text_of(k, name, plan, kidplan, vals, c["extra"], rnd, kid, fault)
    check(raises(load, "\r\n".join(bad) + "\r\n"), "accepted a text with fault %s: %r", fault, bad)
    note("fault:" + c["fault"])
    eq(load(text).serialize(), out2, "import after a rejected one")


def levels(k, kid, vals):
    yield k, vals
    for f in k["fields"]:
        if f["w"] in ("child", "children"):
            for x in kids(vals[f["a"]]):
                yield kid, x


# ------------------------------------------------------------------ additional attributes of entries


@st.composite
def sub_strategy(draw):
    k = draw(klass())
    k["frozen"] = False
    return {"class": k, "values": draw(values(k, None)), "entry": draw(gen.entry(small=True, lo=1971, hi=2030, tz=st.sampled_from([None, "u:dt"]))), "seed": draw(st.integers(0, 99))}


def check_subclass(c, note):
    """a registered subclass of Event or Todo with more attributes, as part of a calendar"""
    import random

    import attr
    import ics

    ics.initialize_converters()
    from ics.contentline import string_to_container
    from ics.converter.component import ComponentMeta

    k, vals, rnd = c["class"], c["values"], random.Random(c["seed"])
    plain = build.entry_of(c["entry"])
    base = type(plain)
    cls = make(k, base.NAME, bases=(base,))
    try:
        o = cls(**{f.name.lstrip("_"): getattr(plain, f.name) for f in attr.fields(base) if f.init},
                **{f["a"].lstrip("_"): [real(*x) for x in vals[f["a"]]] if "list" in f["w"] else vals[f["a"]] and real(*vals[f["a"]]) for f in k["fields"]})
        for x in plain.extra:
            o.extra.append(x)
        o.extra_params.update(plain.extra_params)
        ours = {title(f) for f in order(k)}
        plan, _ = plan_of(k, vals, None)

        def split(text, name):
            found = [n for n in tree(text)[2] if n[0] == "C" and n[1] == base.NAME]
            eq(len(found), 1, "%s in %r" % (base.NAME, text))
            mine = [n for n in found[0][2] if n[0] == "L" and n[1] in ours]
            return mine, [n for n in found[0][2] if not (n[0] == "L" and n[1] in ours)]

        cal = lambda x: ics.Calendar(**{"events" if base is ics.Event else "todos": [x]})
        out = cal(o).serialize()
        mine, rest = split(out, base.NAME)
        lines_ok(k, mine, vals, plan, [], "export")
        eq(rest, split(cal(plain).serialize(), base.NAME)[1], "the other lines of the entry")
        # read by its own class ...
        inner = lambda text: next(i for i in string_to_container(text) if i.name == base.NAME)
        back = cls.from_container(inner(out))
        check(type(back) is cls, "imported as %r", type(back))
        compare(k, back, vals, "import", imported=True)
        if not any("dflt" in f and vals[f["a"]] is None for f in k["fields"]):
            eq(cal(back).serialize(), out, "export of the import")
        # ... and by the plain class, which keeps the lines as unknown ones
        other = ics.Calendar(out)
        eq(split(other.serialize(), base.NAME)[0], mine, "lines kept by the plain class")
        got = (other.events + other.todos)[0]
        check(type(got) is base, "plain import gives %r", type(got))
        note.nontrivial(bool(mine))
        note(base.__name__)
    finally:
        drop([cls])


# ------------------------------------------------------------------ values of one line whose parameters come apart


@st.composite
def merge_case(draw):
    ps = st.sampled_from([[], [], ["X-A", "1"], ["X-A", "2"], ["LANGUAGE", "de"]])
    lines = draw(st.lists(st.tuples(ps, st.lists(gen.text(4, min_size=1), min_size=1, max_size=4)), min_size=1, max_size=3))
    return {"lines": [list(l) for l in lines], "at": draw(st.integers(0, 11)), "new": draw(ps), "why": draw(st.sampled_from(["params", "params", "unmerge", "none", "open"]))}


def check_merge(c, note):
    import ics

    text = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z"]
    want, last = [], []
    for p, vs in c["lines"]:
        text.append("CATEGORIES" + (";%s=%s" % tuple(p) if p else "") + ":" + ",".join(ref.escape_text(v) for v in vs))
        want += [[v, list(p)] for v in vs]
        last += [False] * (len(vs) - 1) + [True]
    e = ics.Calendar("\r\n".join(text + ["END:VEVENT", "END:VCALENDAR", ""])).events[0]
    eq(list(e.categories), [v for v, _ in want], "values read")
    i = c["at"] % len(want)
    params = e.extra_params["CATEGORIES"]
    eq(len(params), len(want), "parameters per value")
    if c["why"] == "params":
        for k in [k for k in params[i] if not k.startswith("__")]:
            del params[i][k]
        if c["new"]:
            params[i][c["new"][0]] = [c["new"][1]]
        want[i][1] = list(c["new"])
    elif c["why"] == "unmerge":
        params[i].pop("__merge_next", None)
        last[i] = True
    elif c["why"] == "open":
        params[-1]["__merge_next"] = ["TRUE"]
        check(raises(e.serialize), "last value of a line written although it asks for a next one")
        return
    groups, cur = [], []
    for w, end in zip(want, last):
        cur.append(w)
        if end:
            groups.append(cur)
            cur = []
    apart = any(w[1] != g[0][1] for g in groups for w in g)
    note.nontrivial(c["why"] != "none" and len(want) > 1)
    try:
        out = e.serialize()
    except ValueError:
        check(apart, "values of one line with the same parameters not written")
        note("came apart")
        return
    got = [l for l in ref.parse_tree(out)[0][2] if l[0] == "L" and l[1] == "CATEGORIES"]
    back = [[v, [x for k, vs in l[2] for x in (k, vs[0][1])]] for l in got for v in map(ref.unescape_text, ref.split_text_list(l[3]))]
    eq(back, want, "values and parameters written")
    if not apart:
        eq([len(ref.split_text_list(l[3])) for l in got], [len(g) for g in groups], "values per line")


SUBS = [Sub("classes", strategy, check_case, quick=2500, shards=8), Sub("subclass", sub_strategy, check_subclass, quick=500, shards=4),
        Sub("merge", merge_case, check_merge, quick=400, shards=1)]
