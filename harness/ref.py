"""Reference models written from RFC 5545/6868, independent of the code under test."""
import re
from datetime import datetime, timedelta


class Bad(Exception):
    pass


NAME = re.compile(r"[A-Za-z0-9-]+\Z")


def split_lines(text):
    """Physical lines of a text: CRLF, LF and CR end lines, nothing else does."""
    out, cur, i = [], [], 0
    while i < len(text):
        c = text[i]
        if c == "\r":
            out.append("".join(cur))
            cur = []
            if text[i + 1 : i + 2] == "\n":
                i += 1
        elif c == "\n":
            out.append("".join(cur))
            cur = []
        else:
            cur.append(c)
        i += 1
    out.append("".join(cur))
    return out


def unfold(lines):
    out = []
    for nr, l in enumerate(lines):
        if l == "":
            continue
        if l[0] in " \t":
            if not out:
                raise Bad("continuation first")
            out[-1][1] += l[1:]
        else:
            out.append([nr, l])
    return [(nr, l) for nr, l in out]


def unescape_param(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "^":
            i += 1
            if i >= len(s):
                raise Bad("dangling ^")
            m = {"n": "\n", "^": "^", "'": '"'}.get(s[i])
            if m is None:
                raise Bad("bad caret escape")
            out.append(m)
        else:
            out.append(s[i])
        i += 1
    return "".join(out)


def parse_line(s):
    """-> (NAME, [(pname, [(quoted, value)...])...], value); strict RFC 5545 grammar, empty unquoted parameter
    values rejected."""
    m = re.match(r"[A-Za-z0-9-]+", s)
    if not m:
        raise Bad("no name")
    name, i, params = m.group(), m.end(), []
    while True:
        if i >= len(s):
            raise Bad("no value separator")
        if s[i] == ":":
            return name.upper(), params, s[i + 1 :]
        if s[i] != ";":
            raise Bad("junk after name")
        m = re.compile(r"[A-Za-z0-9-]+").match(s, i + 1)
        if not m or s[m.end() : m.end() + 1] != "=":
            raise Bad("bad parameter name")
        pname, i, vals = m.group(), m.end() + 1, []
        while True:
            if s[i : i + 1] == '"':
                j = s.find('"', i + 1)
                if j < 0:
                    raise Bad("unterminated quote")
                vals.append((True, unescape_param(s[i + 1 : j])))
                i = j + 1
                if s[i : i + 1] not in (",", ";", ":"):
                    raise Bad("text after quote")
            else:
                j = i
                while j < len(s) and s[j] not in ',;:"':
                    j += 1
                if j >= len(s):
                    raise Bad("no value separator")
                if s[j] == '"':
                    raise Bad("quote in unquoted value")
                if j == i:
                    raise Bad("empty parameter value")
                vals.append((False, unescape_param(s[i:j])))
                i = j
            if s[i] == ",":
                i += 1
                continue
            break
        params.append((pname, vals))


def parse_tree(text):
    """-> list of nodes; a node is ("L", name, params, value, line_nr) or ("C", NAME, [nodes])."""
    return nest([(nr,) + parse_line(l) for nr, l in unfold(split_lines(text))])


def nest(lines):
    root = []
    stack = [(None, root)]
    for nr, name, params, value in lines:
        if name == "BEGIN":
            if value == "":
                raise Bad("unnamed component")
            node = ("C", value.upper(), [])
            stack[-1][1].append(node)
            stack.append((value.upper(), node[2]))
        elif name == "END" and len(stack) > 1:
            if value.upper() != stack[-1][0]:
                raise Bad("END mismatch")
            stack.pop()
        else:
            stack[-1][1].append(("L", name, params, value, nr))
    if len(stack) > 1:
        raise Bad("missing END")
    return root


def tree_of(item):
    """Convert a real Container/ContentLine into reference node form."""
    from ics.contentline import Container, QuotedParamValue

    if isinstance(item, Container):
        return ("C", item.name, [tree_of(i) for i in item])
    return (
        "L",
        item.name,
        [(k, [(isinstance(v, QuotedParamValue), str(v)) for v in vs]) for k, vs in item.params.items()],
        item.value,
        item.line_nr,
    )


def unescape_text(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            i += 1
            if i >= len(s):
                raise Bad("dangling backslash")
            m = {"n": "\n", "N": "\n", ",": ",", ";": ";", "\\": "\\"}.get(s[i])
            if m is None:
                raise Bad("unknown escape")
            out.append(m)
        elif c in ",;":
            raise Bad("bare separator")
        else:
            out.append(c)
        i += 1
    return "".join(out)


def split_text_list(s):
    """Raw elements of a comma separated TEXT list (escapes untouched)."""
    out, cur, i = [], [], 0
    while i < len(s):
        if s[i] == "\\":
            cur.append(s[i : i + 2])
            i += 2
            continue
        if s[i] == ",":
            out.append("".join(cur))
            cur = []
        else:
            cur.append(s[i])
        i += 1
    out.append("".join(cur))
    return out


def escape_text(s):
    return (
        s.replace("\\", "\\\\").replace(";", "\\;").replace(",", "\\,").replace("\n", "\\n")
    )


def fmt_dt(d, utc=False):
    return "%04d%02d%02dT%02d%02d%02d%s" % (d.year, d.month, d.day, d.hour, d.minute, d.second, "Z" if utc else "")


def fmt_date(d):
    return "%04d%02d%02d" % (d.year, d.month, d.day)


def fmt_off(secs):
    sign = "-" if secs < 0 else "+"
    a = abs(secs)
    return "%s%02d%02d%s" % (sign, a // 3600, a // 60 % 60, "%02d" % (a % 60) if a % 60 else "")


# ------------------------------------------------------------------ time zone model

WD = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"]


def month_days(y, m):
    return (datetime(y + (m == 12), m % 12 + 1, 1) - datetime(y, m, 1)).days


def nth_weekday(y, m, n, wd):
    """Date number of the n-th (n>0) or n-th last (n<0) weekday wd (0=MO) in a month, or None."""
    days = [d for d in range(1, month_days(y, m) + 1) if datetime(y, m, d).weekday() == wd]
    try:
        return days[n - 1] if n > 0 else days[n]
    except IndexError:
        return None


def onsets(ob, lo, hi):
    """Local onset times of an observance spec between the years lo and hi (inclusive)."""
    start = datetime(*ob["start"])
    out = set()
    rule = ob.get("rule")
    if not rule:
        out.add(start)
    else:
        n = 0
        for y in range(start.year, hi + 2):
            if "byday" in rule:
                d = nth_weekday(y, rule["bymonth"], rule["byday"][0], rule["byday"][1])
            else:
                d = rule["bymonthday"]
                if d > month_days(y, rule["bymonth"]):
                    d = None
            if d is None:
                continue
            t = datetime(y, rule["bymonth"], d, start.hour, start.minute, start.second)
            if t < start:
                continue
            if "until" in rule and t - timedelta(seconds=ob["from"]) > datetime(*rule["until"]):
                break
            n += 1
            if "count" in rule and n > rule["count"]:
                break
            out.add(t)
    for r in ob.get("rdates", []):
        out.add(datetime(*r))
    return [t for t in sorted(out) if lo <= t.year <= hi]


def unsync(ob):
    """The start of an observance whose rule does not produce it: whether it is an onset is undefined in RFC 5545."""
    start = datetime(*ob["start"])
    if not ob.get("rule") or start in onsets(ob, start.year, start.year):
        return None
    return start


class ZoneModel:
    """Transition list of a zone spec over a range of years."""

    def __init__(self, spec, lo, hi):
        self.spec = spec
        tr = []
        for ob in spec["obs"]:
            # rules started long before still matter: keep the last onset before lo as well
            for t in onsets(ob, 1, hi):
                tr.append((t - timedelta(seconds=ob["from"]), t, ob))
        tr.sort(key=lambda x: (x[0], x[1]))
        self.tr = tr
        # onsets whose offset-from is not the offset in force before are no well-defined transitions
        cur, self.unclear = self.initial(), []
        for _, t, ob in tr:
            if cur["to"] != ob["from"] and cur is not ob:
                self.unclear.append(t)
            cur = ob
        self.doubtful = []
        for ob in spec["obs"]:
            if unsync(ob):
                first = onsets(ob, 1, unsync(ob).year + 30)[:1]
                self.doubtful.append((unsync(ob), first[0] if first else datetime(hi, 12, 31)))

    def initial(self):
        for ob in self.spec["obs"]:
            if not ob["dst"]:
                return ob
        return self.spec["obs"][0]

    def at_utc(self, utc):
        cur = self.initial()
        for u, _, ob in self.tr:
            if u <= utc:
                cur = ob
            else:
                break
        return cur

    def is_clear(self, local):
        h = timedelta(hours=36)
        return all(abs(t - local) > h for t in self.unclear) and not any(a - local < h and local - b < h for a, b in self.doubtful)

    def candidates(self, local):
        """UTC instants whose local reading is `local`, ascending."""
        offs = {ob["to"] for ob in self.spec["obs"]}
        out = []
        for o in sorted(offs, reverse=True):
            try:
                u = local - timedelta(seconds=o)
            except OverflowError:
                continue
            if self.at_utc(u)["to"] == o:
                out.append(u)
        return sorted(set(out))

    def at_local(self, local, fold=0):
        """observance in force, or None when the local time does not exist"""
        c = self.candidates(local)
        if not c:
            return None
        return self.at_utc(c[-1] if fold else c[0])
