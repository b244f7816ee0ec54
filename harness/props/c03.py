from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, Violation, check, eq, raises
from harness.props.c02 import logical, strip_nr

RULE = ("Texts: (a) random component trees written by an independent writer with mixed case and line endings, (b) those texts after "
        "random character and line mutations, (c) a list of single structural faults; compared with an independent recursive "
        "reader of the RFC grammar. Non-trivial: nested components, or a mutation that changes the reference result.")
ASSUMPTIONS = ["empty unquoted items inside a parameter value list are not decided (the grammar allows them)", "names and parameter names outside A-Z0-9- and double quotes inside unquoted values are tolerated by the reader "
               "and not decided", "a stray END outside any component is a plain line"]

# reference rejections that the reader is required to make too; the others are leniencies
STRICT = {"continuation first", "dangling ^", "bad caret escape", "no value separator", "unterminated quote", "text after quote",
          "END mismatch", "missing END", "unnamed component"}
CASES = [str, str.lower, str.title]


def strategy():
    return st.fixed_dictionaries(dict(
        items=st.lists(gen.extra_item(), min_size=1, max_size=4), eol=st.integers(0, 2), case=st.integers(0, 2),
        blanks=st.lists(st.integers(0, 40), max_size=3)))


def strat_many():
    return st.fixed_dictionaries(dict(items=gen.tall(gen.extra_item()), eol=st.integers(0, 2), case=st.integers(0, 2),
                                      blanks=gen.many(st.integers(0, 5000), 0, 40)))


def text_of(c):
    lines = logical(c["items"])
    f = CASES[c["case"]]
    if c["case"]:
        lines = [f(l) if l.startswith(("BEGIN:", "END:")) and i % 2 else l for i, l in enumerate(lines)]
    for b in c["blanks"]:
        lines.insert(b % (len(lines) + 1), "")
    return ["\r\n", "\n", "\r"][c["eol"]].join(lines)


def has_dup(nodes):
    for n in nodes:
        if n[0] == "C":
            if has_dup(n[2]):
                return True
        elif len({p[0] for p in n[2]}) != len(n[2]):
            return True
    return False


def compare(txt, note):
    """the differential oracle for one text"""
    from ics.contentline import Container, ParseError, string_to_container, string_to_containers

    try:
        want, reason = ref.parse_tree(txt), None
    except ref.Bad as e:
        want, reason = None, str(e)
    try:
        items = list(string_to_containers(txt))
        got, err = [ref.tree_of(i) for i in items], None
    except Exception as e:
        got, err = None, e
    if err is not None:
        check(isinstance(err, (ParseError, ValueError)), "%s instead of a parse error: %r", type(err).__name__, err)
        check(str(err) is not None and repr(err), "error cannot be printed")
    if want is None:
        note("invalid:" + reason)
        if reason in STRICT:
            check(err is not None, "accepted although %s: %r", reason, txt)
        return False
    if err is not None:
        raise Violation("valid text rejected: %r (%s)" % (txt, err))
    if not has_dup(want):
        eq(got, want, "tree")
        for i, w in zip(items, want):
            if isinstance(i, Container):
                first = w
                while first[0] == "C" and first[2]:
                    first = first[2][0]
                eq(i.line_nr, first[4] if first[0] == "L" else -1, "line number of a container")
    one = raises(string_to_container, txt)
    check(bool(one) == (len(want) != 1), "string_to_container with %d items: %r", len(want), one)
    return True


def check_valid(c, note):
    txt = text_of(c)
    check(compare(txt, note), "harness text invalid")
    depth = max((l.count("C") for l in [str(c["items"])]), default=0)
    note("case%d" % c["case"], "nested" if "['C'" in str(c["items"]) else "flat")
    note.nontrivial("['C'" in str(c["items"]))


CHARS = [",", ";", ":", '"', "^", "=", "\n", "\r", " ", "\t", "a", "n", "'", "", "\\", "é", "-"]
LINES = ["BEGIN:X-A", "END:X-A", "END:X-B", "BEGIN:VEVENT", "END:VEVENT", "X:1", "X;A=1:2", " cont", "", "X;A", "X;A:1", "X", ";A=1:x", ":x",
         'X;A="b":1', 'X;A="b"c:1', 'X;A="b:1', "X;A=:1", "X;A=b,:1", "X;A=b,,c:1", 'X;A="",b:1', "X;A=^:1", "X;A=^x:1", "X;A=^n^^^':1", "BEGIN:",
         "END:", "END:x-a", "begin:X-A", "X;A=1;A=2:3", "X:;A=1", "X;A=a=b:c", "X;A=b\"c:1",
         'X;A="b" :1', 'X;A="b"\t;B=c:1', 'X;A="b" ,c:1', 'X;A= "b":1', 'X;A=b, "c":1', "X ;A=b:1", "X; A=b:1"]


def strat_mut():
    mut = st.one_of(
        st.tuples(st.just("ins"), st.integers(0, 400), st.sampled_from(CHARS)),
        st.tuples(st.just("rep"), st.integers(0, 400), st.sampled_from(CHARS)),
        st.tuples(st.just("del"), st.integers(0, 400), st.integers(1, 3)),
        st.tuples(st.just("line"), st.integers(0, 30), st.sampled_from(LINES)),
        st.tuples(st.just("dell"), st.integers(0, 30), st.just(0)),
        st.tuples(st.just("dup"), st.integers(0, 30), st.just(0)),
        st.tuples(st.just("swap"), st.integers(0, 30), st.just(0)),
    ).map(list)
    return st.fixed_dictionaries(dict(base=strategy(), muts=st.lists(mut, min_size=1, max_size=3)))


def mutate(txt, muts):
    for kind, pos, arg in muts:
        if kind in ("ins", "rep", "del"):
            p = pos % (len(txt) + 1)
            if kind == "ins":
                txt = txt[:p] + arg + txt[p:]
            elif kind == "rep":
                txt = txt[:p] + arg + txt[p + 1:]
            else:
                txt = txt[:p] + txt[p + arg:]
        else:
            lines = ref.split_lines(txt)
            p = pos % (len(lines) + 1)
            q = pos % max(1, len(lines))
            if kind == "line":
                lines.insert(p, arg)
            elif kind == "dell":
                del lines[q]
            elif kind == "dup":
                lines.insert(p, lines[q])
            elif len(lines) > 1:
                r = (q + 1) % len(lines)
                lines[q], lines[r] = lines[r], lines[q]
            txt = "\r\n".join(lines)
    return txt


def check_mut(c, note):
    txt = mutate(text_of(c["base"]), c["muts"])
    ok = compare(txt, note)
    note("valid" if ok else "rejected")
    note.nontrivial(txt != text_of(c["base"]))


def strat_soup():
    piece = st.one_of(st.sampled_from(LINES), gen.extra_line().map(lambda x: logical([x])[0]))
    return st.fixed_dictionaries(dict(lines=st.lists(piece, min_size=1, max_size=8), eol=st.integers(0, 2)))


def check_soup(c, note):
    ok = compare(["\r\n", "\n", "\r"][c["eol"]].join(c["lines"]), note)
    note("valid" if ok else "rejected")
    note.nontrivial(len(c["lines"]) > 1)


def strat_fault():
    return st.fixed_dictionaries(dict(items=st.lists(gen.extra_item(), min_size=1, max_size=3), name=gen.xname(),
                                      fault=st.sampled_from(sorted(FAULTS)), v=gen.text(3, newlines=False, exclude=':;"=,^')))


FAULTS = {
    "missing end": lambda l, n, v: ["BEGIN:" + n] + l,
    "wrong end": lambda l, n, v: ["BEGIN:" + n] + l + ["END:" + n + "Z"],
    "crossed": lambda l, n, v: ["BEGIN:" + n, "BEGIN:Q"] + l + ["END:" + n, "END:Q"],
    "no separator": lambda l, n, v: l + [n + v],
    "no separator with param": lambda l, n, v: l + [n + ";A=x" + v],
    "quoted no separator": lambda l, n, v: l + [n + ';A=":"' + v],
    "unterminated": lambda l, n, v: l + [n + ';A="' + v + ":1"],
    "after quote": lambda l, n, v: l + [n + ';A="' + v + '"x:1'],
    "after quote 2": lambda l, n, v: l + [n + ';A=b,"' + v + '"x,c:1'],
    "blank after quote": lambda l, n, v: l + [n + ';A="' + v + '" :1'],
    "tab after quote": lambda l, n, v: l + [n + ';A="' + v + '"\t:1'],
    "blank after quote 2": lambda l, n, v: l + [n + ';A="' + v + '" ;B=c:1'],
    "blank after quote 3": lambda l, n, v: l + [n + ';A="' + v + '" ,c:1'],
    "blank after quote 4": lambda l, n, v: l + [n + ';A="' + v + '"   ,"c":1'],
    "quote after quote": lambda l, n, v: l + [n + ';A="' + v + '"":1'],
    "no param value": lambda l, n, v: l + [n + ";AB:" + v],
    "no param value 2": lambda l, n, v: l + [n + ";AB;C=d:" + v],
    "empty param": lambda l, n, v: l + [n + ";AB=:" + v],
    "caret end": lambda l, n, v: l + [n + ";AB=" + v + "^:" + v],
    "caret bad": lambda l, n, v: l + [n + ";AB=" + v + "^x:" + v],
    "caret bad quoted": lambda l, n, v: l + [n + ';AB="' + v + '^"":' + v],
    "caret end quoted": lambda l, n, v: l + [n + ';AB="' + v + '^":' + v],
    "unnamed": lambda l, n, v: l + ["BEGIN:", "END:"],
}


def check_fault(c, note):
    from ics.contentline import string_to_containers

    lines = FAULTS[c["fault"]](logical(c["items"]), c["name"], c["v"])
    e = raises(lambda: list(string_to_containers("\r\n".join(lines))))
    check(e, "%s accepted: %r", c["fault"], lines)
    e = raises(lambda: list(string_to_containers("\r\n".join(["BEGIN:X-O"] + lines + ["END:X-O"]))))
    check(e, "%s accepted inside a component: %r", c["fault"], lines)
    note(c["fault"])
    note.nontrivial()


def strat_many_fault():
    return st.fixed_dictionaries(dict(items=gen.tall(gen.extra_item(), 60, 60), name=gen.xname(), fault=st.sampled_from(sorted(FAULTS)),
                                      v=gen.text(3, newlines=False, exclude=':;"=,^')))


SUBS = [
    Sub("tall", strat_many, check_valid, quick=80, shards=2),
    Sub("tall-faults", strat_many_fault, check_fault, quick=100, shards=2),
    Sub("valid", strategy, check_valid, quick=1000),
    Sub("mutated", strat_mut, check_mut, quick=3000, shards=3),
    Sub("soup", strat_soup, check_soup, quick=2500, shards=2),
    Sub("faults", strat_fault, check_fault, quick=1000),
]
