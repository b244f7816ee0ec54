"""Strategies producing plain JSON specs (see build.py for their meaning)."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

TOKENS = [
    ",", ";", ":", '"', "^", "\\", "=", "\n", "\\n", "\\,", "\\;", "\\\\", "^n", "^'", "^^", " ", "\t", "  ",
    "a", "B", "n", "N", "0", "-", "BEGIN:VEVENT", "END:VEVENT", "END:VCALENDAR", "\nEND:VEVENT\n", "DTSTART",
    "é", "日本", "𝔘", "\x85", "\u2028", "\u2029", "\x0b", "\x0c", "\x1c", "\x1e", "\xa0", "\u0301", "\u3000",
    "word", "long text with spaces", "x" * 30, "mailto:", "http://e.org/?a=b,c;d",
]
UCHAR = st.characters(exclude_categories=("Cs", "Cc"))


def text(max_size=12, newlines=True, cr=False, exclude="", min_size=0):
    toks = [t for t in TOKENS if (newlines or "\n" not in t) and not any(c in t for c in exclude)]
    if cr:
        toks = toks + ["\r", "\r\n"]
    ch = st.characters(exclude_categories=("Cs", "Cc"), exclude_characters=exclude)
    piece = st.one_of(st.sampled_from(toks), st.sampled_from(toks), ch,
                      st.text(st.sampled_from("abc XYZ"), min_size=0, max_size=60))
    base = st.tuples(st.lists(piece, min_size=min_size, max_size=max_size).map("".join), st.sampled_from(TIMES)).map(repeated)
    if min_size:
        base = base.filter(bool)
    return base


# now and then the same again and again: counters, windows and caches inside the code show only in long values
TIMES = [1] * 10 + [2, 5, 40]


def repeated(t):
    return t[0] if t[1] == 1 else (t[0] * t[1])[:max(len(t[0]), 200)]


@st.composite
def many(draw, item, lo=0, hi=60):
    """a long list of few different items"""
    pool = draw(st.lists(item, min_size=1, max_size=4))
    n, a, b = draw(st.integers(lo, hi)), draw(st.integers(0, 6)), draw(st.integers(0, 3))
    return [pool[(a * i + b * (i // 7)) % len(pool)] for i in range(n)]


@st.composite
def tall(draw, item, deep=80, wide=200):
    """trees far deeper or wider than usual, of few different items"""
    shape = draw(st.sampled_from(["deep", "wide", "both"]))
    d = draw(st.integers(1, deep)) if shape != "wide" else 1
    w = draw(st.integers(1, wide)) if shape != "deep" else 2
    names = draw(st.lists(xname(), min_size=1, max_size=3))
    kids = draw(many(item, w, w))
    cut = draw(st.integers(0, len(kids)))
    node = kids[:cut]
    for i in range(d):
        node = [["C", names[i % len(names)], node if i % 3 else node + kids[cut:][:3]]]
    return node + kids[cut:]


def simple_text(max_size=12):
    return st.text(st.sampled_from("abcdefgh XYZ0123"), min_size=1, max_size=max_size)


@st.composite
def xname(draw):
    return "X-" + draw(st.text(st.sampled_from("ABCXYZ019-"), min_size=1, max_size=8))


def name_any():
    return st.text(st.sampled_from("abcXYZ019-"), min_size=1, max_size=10)


# -------------------------------------------------------------- param lists


def pvalue(newlines=True):
    return text(6, newlines=newlines)


def params(pnames=None, max_params=3, value=None):
    """[[name, [values...]]...] with distinct names"""
    pn = pnames or name_any()
    v = value if value is not None else pvalue()
    return st.lists(st.tuples(pn, st.lists(v, min_size=1, max_size=3)), max_size=max_params,
                    unique_by=lambda t: t[0].upper()).map(lambda l: [[a, b] for a, b in l])


# -------------------------------------------------------------- dates


# around the clock changes of Berlin, London, New York, Sydney, Auckland and Sao Paulo in 2018/2019
CHANGE = st.tuples(st.sampled_from([datetime(2019, 3, 31), datetime(2019, 10, 27), datetime(2019, 3, 10), datetime(2019, 11, 3),
                                    datetime(2019, 4, 7), datetime(2018, 10, 7), datetime(2018, 11, 4), datetime(2019, 2, 17)]),
                   st.sampled_from([-1, 0, 0, 0]), st.integers(0, 23 * 4), st.integers(0, 4 * 4), st.booleans()).map(
    lambda t: t[0] + timedelta(days=t[1], minutes=15 * (t[3] if t[4] else t[2])))


def ymdhms(lo=1, hi=9998, micro=False):
    def mk(d):
        r = [d.year, d.month, d.day, d.hour, d.minute, d.second]
        if micro and d.microsecond:
            r.append(d.microsecond)
        return r

    any_ = st.datetimes(datetime(lo, 1, 1), datetime(hi, 12, 31, 23, 59, 59))
    if not micro:
        any_ = any_.map(lambda d: d.replace(microsecond=0))
    near = st.integers(0, 40 * 24 * 4).map(lambda q: datetime(2019, 3, 1) + timedelta(minutes=15 * q))
    edge = st.tuples(st.integers(max(lo, 2), hi), st.integers(1, 12), st.sampled_from([1, 28]),
                     st.sampled_from([(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 1)])).map(
        lambda t: datetime(t[0], t[1], t[2], *t[3]))
    return st.one_of(near, near, CHANGE, any_, edge if hi - max(lo, 2) >= 0 else near).map(mk)


UTCS = ["u:dt", "u:du", "u:ics", "u:zi"]
ZNAMES = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Sydney", "Asia/Tokyo", "Africa/Lagos",
          "America/Sao_Paulo", "Pacific/Auckland", "Europe/London"]


def tzspec(customs=0, foreign=True, offsets=True):
    opts = [st.sampled_from(["i:" + z for z in ZNAMES])]
    if foreign:
        opts += [st.sampled_from(["z:" + z for z in ZNAMES]), st.sampled_from(["d:" + z for z in ZNAMES])]
    if offsets:
        opts += [st.integers(-14 * 60, 14 * 60).filter(bool).map(lambda m: "o:%d" % (m * 60))]
    if customs:
        opts += [st.integers(0, customs - 1).map(lambda k: "c:%d" % k)] * 2
    return st.one_of(*opts)


def any_tz(customs=0, **kw):
    return st.one_of(st.none(), st.sampled_from(UTCS), tzspec(customs, **kw))


def dt(tz=None, lo=1, hi=9998, micro=False, **kw):
    tz = any_tz(**kw) if tz is None else tz
    return st.tuples(ymdhms(lo, hi, micro), tz).map(list)


def modern(tz):
    """date-times where every kind of zone object is safe to convert"""
    return dt(tz, 1971, 2037)


DELTAS = st.one_of(st.integers(0, 48).map(lambda q: q * 1800), st.integers(0, 40 * 86400),
                   st.sampled_from([0, 1, 60, 3600, 86399, 86400, 86401, 7 * 86400, 14 * 86400, 604801]))


@st.composite
def span(draw, todo=False, customs=0, tz=None, lo=1000, hi=9000, maybe_empty=True):
    kinds = ["begin", "end", "end", "dur", "dur", "allday", "allday_end", "allday_dur"]
    if maybe_empty:
        kinds.append("empty")
    if todo:
        kinds += ["due", "due", "allday_due"]
    kind = draw(st.sampled_from(kinds))
    if kind == "empty":
        return {}
    if kind.startswith("allday"):
        d = draw(ymdhms(lo, hi))[:3] + [0, 0, 0]
        n = draw(st.integers(1, 40))
        s = {"p": "day"}
        if kind == "allday_due":
            s["due"] = [d, None]
            return s
        s["b"] = [d, None]
        if kind == "allday_end":
            s["e"] = [n * 86400, None]
        elif kind == "allday_dur":
            s["d"] = n * 86400
        return s
    tzs = tz if tz is not None else any_tz(customs)
    t = draw(tzs)
    if t is not None and not t.startswith("u:") and not t.startswith("o:"):
        lo, hi = max(lo, 1971), min(hi, 2037)
    b = [draw(ymdhms(lo, hi)), t]
    if kind == "begin":
        return {"b": b}
    if kind == "due":
        return {"due": b}
    delta = draw(DELTAS)
    if kind == "dur":
        return {"b": b, "d": delta}
    t2 = t
    if t is not None and draw(st.integers(0, 3)) == 3:
        t2 = draw(tzs.filter(lambda x: x is not None))
        if not t2.startswith("u:") and not t2.startswith("o:"):
            b[0][0] = min(max(b[0][0], 1971), 2037)
            if b[0][1:3] == [2, 29]:
                b[0][2] = 28
        delta += 0
    return {"b": b, "e": [delta, t2]}


# -------------------------------------------------------------- uris, persons

URIS = ["mailto:a@example.org", "http://example.com/x?y=z", "https://example.com/a/b#frag", "ftp://h/p",
        "mailto:b@example.org", "cid:part3.msg.970415T083000@example.com", "urn:uuid:1-2-3",
        "http://e.org/a,b;c", "http://e.org/%2C%22?q=1&r=2", "tel:+1-2", "http://[::1]:80/x", "mailto:c,d@example.org",
        "http://exämple.org/ü", "data:text/plain;base64,QUJD"]


def stable(u):
    """the standard library keeps the URI as it is"""
    from urllib.parse import urlparse

    try:
        return urlparse(u).geturl() == u
    except ValueError:
        return False


def uri():
    word = st.text(st.sampled_from("abcxyz019._~-%,;=&@"), min_size=1, max_size=12)
    return st.one_of(st.sampled_from(URIS), word.map(lambda w: "http://h.example/" + w),
                     word.map(lambda w: "mailto:" + w + "@x.example")).filter(stable)


@st.composite
def person(draw, attendee=True):
    p = {"email": draw(uri()), "kw": {}, "x": {}}
    kw = p["kw"]
    opts = [("common_name", text(5)), ("sent_by", uri()), ("directory", uri())]
    if attendee:
        opts += [("user_type", st.sampled_from(["GROUP", "ROOM", "UNKNOWN"])),
                 ("member", st.lists(uri(), min_size=1, max_size=3)), ("role", st.sampled_from(["CHAIR", "OPT-PARTICIPANT"])),
                 ("status", st.sampled_from(["ACCEPTED", "DECLINED"])), ("rsvp", st.booleans()),
                 ("delegated_to", st.lists(uri(), min_size=1, max_size=2)),
                 ("delegated_from", st.lists(uri(), min_size=1, max_size=2))]
    for k, s in opts:
        if draw(st.integers(0, 3)) == 3:
            kw[k] = draw(s)
    for k, v in draw(params(xname(), 1, text(3))):
        p["x"][k] = v
    return p


def attach():
    return st.one_of(uri().map(lambda u: {"u": u}), st.binary(max_size=20).map(lambda b: {"b": b.hex()}))


def opt(s, weight=2):
    """None or s; present with probability 1/weight"""
    return st.integers(0, weight - 1).flatmap(lambda i: st.none() if i != weight - 1 else s)


@st.composite
def alarm(draw, customs=0, extra=True):
    kind = draw(st.sampled_from(["audio", "display", "email", "none", "custom"]))
    a = {"kind": kind}
    a["trigger"] = draw(st.one_of(st.none(), st.integers(-100000, 100000), st.sampled_from([0, -900, -86400, 86400]),
                                  st.tuples(ymdhms(1900, 2100), st.sampled_from(UTCS)).map(list)))
    a["repeat"] = draw(opt(st.integers(0, 50)))
    a["duration"] = draw(opt(DELTAS))
    if kind == "audio":
        a["attach"] = draw(opt(attach()))
    if kind in ("display", "email"):
        a["description"] = draw(opt(text(5)))
    if kind == "email":
        a["summary"] = draw(opt(text(5)))
        a["attendees"] = draw(st.lists(person(), max_size=2))
        a["attaches"] = draw(st.lists(attach(), max_size=2))
    if kind == "custom":
        a["action"] = draw(st.sampled_from(["X-RING", "PROCEDURE", "X-FOO-BAR", "Y1"]))
    if extra:
        a["extra"] = draw(st.lists(extra_line(), max_size=1))
    return a


@st.composite
def extra_line(draw):
    return ["L", draw(xname()), draw(params(xname(), 2, text(4))), draw(text(5, newlines=False))]


def extra_item():
    return st.recursive(extra_line(), lambda ch: st.tuples(st.just("C"), xname(), st.lists(ch, max_size=3)).map(list),
                        max_leaves=5)


@st.composite
def entry(draw, kind=None, customs=0, tz=None, alarms=True, extra=True, txt=None, small=False, lo=1000, hi=9000):
    kind = kind or draw(st.sampled_from(["event", "event", "todo"]))
    txt = txt if txt is not None else text(8)
    e = {"kind": kind}
    e["span"] = draw(span(kind == "todo", customs, tz, lo=lo, hi=hi))
    e["summary"] = draw(opt(txt))
    e["description"] = draw(opt(txt, 3))
    e["location"] = draw(opt(txt, 4))
    e["uid"] = draw(opt(st.one_of(simple_text(), txt.filter(bool)), 2)) or "uid-%d" % draw(st.integers(0, 10 ** 6))
    e["status"] = draw(opt(st.sampled_from(["TENTATIVE", "CONFIRMED", "CANCELLED"]), 3))
    e["url"] = draw(opt(st.one_of(txt, uri().map(lambda u: {"u": u})), 4))
    utc = st.sampled_from(UTCS)
    e["created"] = draw(opt(dt(utc, 1000, 9000), 4))
    e["last_modified"] = draw(opt(dt(utc, 1000, 9000), 4))
    e["dtstamp"] = draw(dt(utc, 1000, 9000))
    e["alarms"] = draw(st.lists(alarm(customs, extra), max_size=2)) if alarms and draw(st.booleans()) else []
    e["attach"] = draw(st.lists(attach(), max_size=2)) if draw(st.integers(0, 3)) == 3 else []
    if kind == "todo":
        e["percent"] = draw(opt(st.integers(0, 100)))
        e["priority"] = draw(opt(st.integers(0, 9)))
        e["completed"] = draw(opt(dt(utc, 1000, 9000), 3))
    else:
        e["classification"] = draw(opt(st.sampled_from(["PUBLIC", "PRIVATE", "CONFIDENTIAL", "X-SECRET"]), 3))
        e["transparent"] = draw(opt(st.booleans(), 4))
        e["organizer"] = draw(opt(person(False), 4))
        e["geo"] = draw(opt(st.tuples(st.integers(-90 * 10 ** 6, 90 * 10 ** 6), st.integers(-180 * 10 ** 6, 180 * 10 ** 6)).map(
            lambda t: [t[0] / 10 ** 6, t[1] / 10 ** 6]), 4))
        e["attendees"] = draw(st.lists(person(), max_size=3)) if draw(st.integers(0, 2)) == 2 else []
        e["categories"] = draw(st.lists(txt, max_size=4)) if draw(st.integers(0, 2)) == 2 else []
    e["extra"] = draw(st.lists(extra_item(), max_size=2)) if extra and draw(st.integers(0, 3)) == 3 else []
    return {k: v for k, v in e.items() if v is not None and v != []}


# -------------------------------------------------------------- zones


@st.composite
def zone(draw, idx=None, tzid=None, kinds=("annual", "fixed", "chain"), until=True):
    """A well-formed zone: every offset-from equals the offset in force before, transitions are days apart."""
    kind = draw(st.sampled_from(kinds))
    std = draw(st.one_of(st.integers(-44, 52).map(lambda q: q * 900), st.integers(-11 * 60, 12 * 60).map(lambda m: m * 60),
                         st.integers(-40000, 40000)))
    tzid = tzid or ("Zone/%s%s" % (draw(st.text(st.sampled_from("ABCxyz_ ,;:é"), min_size=1, max_size=5)),
                                   "" if idx is None else idx))
    names = [draw(opt(st.sampled_from(["STD", "CET", "X,Y", "A;B"]))), draw(opt(st.sampled_from(["DST", "CEST"])))]
    start_y = draw(st.integers(1950, 2010))
    obs = []

    def hms():
        return draw(st.sampled_from([[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0], [4, 30, 0], [23, 0, 0], [2, 15, 30]]))

    if kind == "fixed":
        obs.append(dict(dst=False, **{"from": draw(st.sampled_from([0, std])), "to": std}, name=names[0],
                        start=[start_y, 1, 1, 0, 0, 0]))
    elif kind == "annual":
        diff = draw(st.sampled_from([3600, 3600, 3600, 1800, 7200, -3600, 1200]))
        m1 = draw(st.integers(1, 12))
        m2 = (m1 - 1 + draw(st.integers(3, 9))) % 12 + 1

        def rule(m):
            if draw(st.integers(0, 3)):
                return {"bymonth": m, "byday": [draw(st.sampled_from([1, 2, -1, -1, 3])), draw(st.sampled_from([6, 6, 4, 0]))]}
            return {"bymonth": m, "bymonthday": draw(st.integers(1, 28))}

        from harness import ref

        for k, (dst, m, fr, to) in enumerate([(True, m1, std, std + diff), (False, m2, std + diff, std)]):
            r = rule(m)
            y = start_y
            d = r.get("bymonthday") or ref.nth_weekday(y, m, *r["byday"])
            obs.append({"dst": dst, "from": fr, "to": to, "name": names[dst], "start": [y, m, d] + hms(), "rule": r})
        if until and draw(st.integers(0, 3)) == 3:
            # rules end; both in the same year so that the chain stays consistent
            last = start_y + draw(st.integers(1, 30))
            mode = draw(st.sampled_from(["until", "count"]))
            for ob in obs:
                r = ob["rule"]
                if mode == "count":
                    r["count"] = last - start_y + 1
                else:
                    d = r.get("bymonthday") or ref.nth_weekday(last, r["bymonth"], *r["byday"])
                    t = datetime(last, r["bymonth"], d, *ob["start"][3:6]) - timedelta(seconds=ob["from"])
                    r["until"] = [t.year, t.month, t.day, t.hour, t.minute, t.second]
    else:
        n = draw(st.integers(1, 5))
        t = datetime(start_y, 1, 1) + timedelta(days=draw(st.integers(0, 300)))
        cur = std
        for k in range(n):
            to = cur + draw(st.sampled_from([3600, -3600, 1800, -1800, 7200, 60, -60, 0, 5400]))
            to = max(-50000, min(50000, to))
            if draw(st.integers(0, 7)) == 7 and abs(cur) > 36400:
                to = cur - 86400 if cur > 0 else cur + 86400  # to the other side of the date line
            tt = t + timedelta(hours=draw(st.integers(0, 23)))
            same = [o for o in obs if o["from"] == cur and o["to"] == to]
            rec = [tt.year, tt.month, tt.day, tt.hour, tt.minute, tt.second]
            if same and draw(st.booleans()):
                same[0].setdefault("rdates", []).append(rec)
            else:
                obs.append({"dst": draw(st.booleans()), "from": cur, "to": to, "name": names[k % 2], "start": rec})
            cur = to
            t += timedelta(days=draw(st.integers(20, 4000)))
    order = draw(st.permutations(range(len(obs)))) if len(obs) > 1 else [0]
    obs = [obs[i] for i in order]
    if draw(st.integers(0, 5)) == 5:
        obs[0]["comment"] = draw(text(4))
    return {"tzid": tzid, "obs": obs}


@st.composite
def zones(draw, max_size=3):
    n = draw(st.integers(0, max_size))
    return [draw(zone(idx=i)) for i in range(n)]


@st.composite
def calendar(draw, max_entries=4, customs=True, extra=True, txt=None, tz=None, alarms=True, lo=1000, hi=9000, api_zones=False):
    zs = draw(zones(2)) if customs else []
    c = {"zones": zs}
    if api_zones:
        tz = any_tz(len(zs), foreign=False)
    c["entries"] = draw(st.lists(entry(customs=len(zs), extra=extra, txt=txt, tz=tz, alarms=alarms, lo=lo, hi=hi), max_size=max_entries))
    c["prodid"] = draw(opt(text(4, min_size=1), 4))
    c["method"] = draw(opt(st.sampled_from(["PUBLISH", "REQUEST"]), 4))
    if extra:
        c["extra"] = draw(st.lists(extra_item(), max_size=2)) if draw(st.integers(0, 3)) == 3 else []
    return {k: v for k, v in c.items() if v is not None}


@st.composite
def big_calendar(draw, **kw):
    """many entries and long lists, of few different ones"""
    plan = draw(st.tuples(st.integers(1, 30), st.integers(1, 25), st.integers(0, 5), st.integers(1, 3)))
    c = draw(calendar(max_entries=3, **kw))
    if not c["entries"]:
        c["entries"] = [draw(entry(extra=False, alarms=False, tz=st.sampled_from(UTCS)))]
    n, k, which, step = plan
    es = []
    for i in range(n):
        e = dict(c["entries"][i * step % len(c["entries"])])
        e["uid"] = "%s-%d" % (e["uid"], i)
        if i == which:
            for key in ("alarms", "attach", "attendees", "categories", "extra"):
                if e.get(key):
                    e[key] = (list(e[key]) * k)[:max(k, len(e[key]))]
        es.append(e)
    return dict(c, entries=es)


@st.composite
def some_calendar(draw, **kw):
    """mostly small, now and then big"""
    size = kw.pop("max_entries", 3)
    return draw(big_calendar(**kw) if draw(st.integers(0, 30)) == 7 else calendar(max_entries=size, **kw))


# -------------------------------------------------------------- building a strategy costs more than drawing from it


def _freeze(x):
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(_freeze(i) for i in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, _freeze(v)) for k, v in sorted(x.items()))
    hash(x)
    return (type(x).__name__, x)


def memo(namespace, names):
    import functools

    def wrap(fn):
        store = {}

        @functools.wraps(fn)
        def cached(*args, **kw):
            try:
                key = _freeze(args), _freeze(kw)
                if key in store:
                    return store[key]
            except TypeError:
                return fn(*args, **kw)
            if len(store) > 3000:
                store.clear()
            r = store[key] = fn(*args, **kw)
            return r

        return cached

    for n in names.split():
        namespace[n] = wrap(namespace[n])


memo(globals(), "text simple_text xname name_any pvalue params ymdhms tzspec any_tz dt modern span uri person attach opt alarm extra_line "
                "extra_item entry zone zones calendar")
