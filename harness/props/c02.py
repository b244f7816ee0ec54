from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, check, eq, raises

RULE = ("Random trees of components and lines written by an independent writer, then re-folded at random positions (space or "
        "tab), with random line endings per line and blank lines; non-trivial: at least one fold, a non-CRLF ending, a blank "
        "line or a Unicode separator.")
ASSUMPTIONS = ["widths are counted in characters, as documented by the configured wrapper"]


def quote(v):
    e = v.replace("^", "^^").replace('"', "^'").replace("\n", "^n")
    return '"' + e + '"' if e == "" or set(e) & set(":;,") else e


def logical(items):
    out = []
    for x in items:
        if x[0] == "C":
            out.append("BEGIN:" + x[1])
            out += logical(x[2])
            out.append("END:" + x[1])
        else:
            out.append(x[1] + "".join(";" + k + "=" + ",".join(quote(v) for v in vs) for k, vs in x[2]) + ":" + x[3])
    return out


EOLS = ["\r\n", "\n", "\r"]


def strategy():
    return st.fixed_dictionaries(dict(
        items=st.lists(gen.extra_item(), min_size=1, max_size=4),
        folds=st.lists(st.tuples(st.integers(0, 200), st.integers(0, 3), st.booleans()), max_size=12),
        eols=st.lists(st.integers(0, 2), min_size=1, max_size=6),
        blanks=st.lists(st.integers(0, 60), max_size=4), final=st.booleans()))


def strat_many():
    return st.fixed_dictionaries(dict(
        items=gen.tall(gen.extra_item()), folds=gen.many(st.tuples(st.integers(0, 200), st.integers(0, 3), st.booleans()), 0, 60),
        eols=st.lists(st.integers(0, 2), min_size=1, max_size=6), blanks=gen.many(st.integers(0, 5000), 0, 30), final=st.booleans()))


def strat_many_write():
    return st.fixed_dictionaries(dict(items=gen.tall(gen.extra_item()), width=st.sampled_from([2, 3, 10, 74, 75, 76, 0]), boom=st.booleans()))


def fold_all(lines, folds):
    """apply folds (position, line selector, tab?) to logical lines -> physical lines"""
    out = []
    for i, l in enumerate(lines):
        cuts = sorted({1 + p % (len(l)) for p, s, t in folds if (s + i) % 4 != 3} & set(range(1, len(l) + 1)))
        tabs = {1 + p % len(l): t for p, s, t in folds}
        prev, first = 0, True
        for c in cuts + [None]:
            seg = l[prev:c]
            out.append(seg if first else ("\t" if tabs.get(prev) else " ") + seg)
            first, prev = False, c
    return out


def strip_nr(node):
    if node[0] == "C":
        return ("C", node[1], [strip_nr(n) for n in node[2]])
    return node[:4]


def parse(txt, lines=False):
    from ics.contentline import lines_to_containers, string_to_containers

    return [strip_nr(ref.tree_of(i)) for i in (lines_to_containers if lines else string_to_containers)(txt)]


def check_fold(c, note):
    lines = logical(c["items"])
    base = parse("\r\n".join(lines))
    want = [strip_nr(n) for n in ref.parse_tree("\r\n".join(lines))]
    eq(base, want, "unfolded text")
    phys = fold_all(lines, c["folds"])
    for b in c["blanks"]:
        phys.insert(b % (len(phys) + 1), "")
    eols = [EOLS[c["eols"][i % len(c["eols"])]] for i in range(len(phys))]
    txt = "".join(p + e for p, e in zip(phys, eols))
    if not c["final"]:
        txt = txt[: len(txt) - len(eols[-1])] if eols else txt
    eq(parse(txt), want, "folded string")
    eq(parse(iter(phys), True), want, "iterator of bare lines")
    eq(parse([p + e for p, e in zip(phys, eols)], True), want, "lines with their endings")
    eq(parse((p + "\n" for p in phys), True), want, "file-like lines")
    note("folded" if len(phys) > len(lines) + len(c["blanks"]) else "unfolded", *["eol%d" % e for e in set(c["eols"])])
    if c["blanks"]:
        note("blank")
    uni = any(ch in txt for ch in "\x85\u2028\u2029\x0b\x0c\x1c\x1e")
    note("uni" if uni else "no-uni")
    note.nontrivial(len(phys) > len(lines) or set(c["eols"]) != {0} or uni)


def check_write(c, note):
    from harness.build import item_of
    from ics.contentline import Container
    from ics.contentline.container import DEFAULT_LINE_WRAP, contentline_set_wrap

    cont = Container("X-ROOT", [item_of(x) for x in c["items"]])
    before = DEFAULT_LINE_WRAP.width
    raw = cont.serialize(wrap=None)
    w = c["width"]
    try:
        with contentline_set_wrap(w):
            out = cont.serialize()
            if c["boom"]:
                raise KeyError("x")
    except KeyError:
        pass
    eq(DEFAULT_LINE_WRAP.width, before, "configured width after leaving the block")
    check(not out.endswith("\n"), "trailing newline without newline=True")
    eq(cont.serialize(newline=True), cont.serialize() + "\r\n", "newline=True")
    phys = out.split("\r\n")
    check("\r" not in "".join(phys) and "\n" not in "".join(phys), "bare CR or LF: %r", out)
    if w > 0:
        # BEGIN/END lines of components are short names and are not folded
        long = [p for p in phys if len(p) > w and not p.startswith(("BEGIN:", "END:"))]
        check(not long, "line longer than %d: %r", w, long)
    else:
        check(not any(p[:1] in " \t" for p in phys), "folded although folding is off")
    eq("\r\n".join(l for _, l in ref.unfold(phys)), raw, "unfolded output")
    want = [strip_nr(n) for n in ref.parse_tree(raw)]
    eq(parse(out), want, "read back")
    with contentline_set_wrap(75):
        outs = cont.serialize(newline=True)
    check(all(len(p) <= 75 or p.startswith(("BEGIN:", "END:")) for p in outs.split("\r\n")), "default width exceeded")
    note("w%d" % (w // 25 * 25), "folded" if len(phys) > raw.count("\r\n") + 1 else "unfolded")
    note.nontrivial(len(phys) > raw.count("\r\n") + 1)


def strat_write():
    return st.fixed_dictionaries(dict(items=st.lists(gen.extra_item(), min_size=1, max_size=3),
                                      width=st.one_of(st.integers(2, 20), st.integers(10, 100), st.just(0), st.just(75)),
                                      boom=st.booleans()))


def strat_exact():
    return st.fixed_dictionaries(dict(n=st.integers(60, 230), ch=st.sampled_from(["x", " ", "é", "-", "\t", "𝔘", "a b", "ab-", "  y"]),
                                      width=st.sampled_from([75, 75, 75, 10, 33, 74, 76])))


def check_exact(c, note):
    body = (c["ch"] * c["n"])[: c["n"]]
    check_write(dict(items=[["L", "X-A", [], body], ["L", "X-B", [["P", [body]]], ""]], width=c["width"], boom=False), note)


def strat_reject():
    return st.fixed_dictionaries(dict(items=st.lists(gen.extra_item(), min_size=1, max_size=2), lead=st.sampled_from([" ", "\t"]),
                                      blanks=st.integers(0, 2), eol=st.integers(0, 2)))


def check_reject(c, note):
    from ics.contentline import lines_to_containers, string_to_containers

    eol = EOLS[c["eol"]]
    lines = [""] * c["blanks"] + [c["lead"] + "X-FIRST:1"] + logical(c["items"])
    check(raises(lambda: list(string_to_containers(eol.join(lines)))), "leading continuation accepted")
    check(raises(lambda: list(lines_to_containers(lines))), "leading continuation accepted as lines")
    good = logical(c["items"])
    check(raises(lambda: list(lines_to_containers([good[0] + "\nX-B:1"] + good[1:]))), "unsplit line accepted")
    note.nontrivial()


def strat_iter():
    return st.fixed_dictionaries(dict(s=st.lists(gen.text(8), min_size=1, max_size=3)))


def check_iter(c, note):
    """lines from iterating a calendar are split at CRLF only"""
    from ics import Calendar, Event
    from ics.contentline import lines_to_containers

    cal = Calendar(events=[Event(summary=s, uid="u%d" % i) for i, s in enumerate(c["s"])])
    out = cal.serialize()
    lines = list(cal)
    eq("".join(lines), out, "lines joined")
    for l in lines[:-1]:
        check(l.endswith("\r\n") and l.count("\n") == 1, "line not ended by CRLF: %r", l)
    eq(len(lines), out.count("\r\n") + (not out.endswith("\n")), "number of lines")
    eq(len(list(lines_to_containers(lines))), 1, "containers")
    again = Calendar(lines)
    eq([e.summary for e in again.events], c["s"], "summaries from lines")
    note.nontrivial(any(ch in s for s in c["s"] for ch in "\x85\u2028\u2029\x0b\x0c\x1c\x1e\n"))


SUBS = [
    Sub("tall", strat_many, check_fold, quick=100, shards=2),
    Sub("tall-write", strat_many_write, check_write, quick=100, shards=2),
    Sub("fold", strategy, check_fold, quick=1200, shards=2),
    Sub("write", strat_write, check_write, quick=1200, shards=2),
    Sub("exact", strat_exact, check_exact, quick=800),
    Sub("reject", strat_reject, check_reject, quick=200),
    Sub("iterate", strat_iter, check_iter, quick=400),
]
