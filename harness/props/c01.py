from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, check, eq

RULE = ("Random content lines (names, ordered parameters with 1-3 quoted/unquoted values over an escape-dense alphabet, "
        "values without line breaks) x fold widths; non-trivial: some parameter value or the value contains a character "
        "that needs quoting/escaping, or the line is folded.")
ASSUMPTIONS = ["parameter values contain no carriage return (RFC 6868 cannot encode it)",
               "parameter names of one line are distinct"]


def line_of(c):
    from ics.contentline import ContentLine, QuotedParamValue

    return ContentLine(c["name"], {k: [QuotedParamValue(v) if q else v for q, v in vs] for k, vs in c["params"]},
                       c["value"])


def strategy():
    pv = st.tuples(st.booleans(), gen.pvalue())
    return st.fixed_dictionaries(dict(
        name=gen.name_any(), params=gen.params(max_params=4, value=pv),
        value=st.one_of(gen.text(12, newlines=False), gen.text(40, newlines=False)),
        width=st.one_of(st.integers(2, 30), st.just(75), st.integers(2, 200), st.just(0))))


SPECIAL = set(':;,"^\n')


def expect_params(c):
    return [(k, [(bool(q or v == "" or set(v) & set(":;,")), v) for q, v in vs]) for k, vs in c["params"]]


def norm(ps):
    return [(k, [(bool(q), v) for q, v in vs]) for k, vs in ps]


def check_line(c, note):
    from ics.contentline import Container, string_to_container, string_to_containers
    from ics.contentline.container import contentline_set_wrap

    cl = line_of(c)
    w = c["width"]
    with contentline_set_wrap(w):
        out = cl.serialize()
        out_nl = cl.serialize(newline=True)
        cont = Container("X-C", [cl, cl.clone()]).serialize()
        for kw in ({}, {"newline": True}, {"wrap": None}, {"wrap": None, "newline": True}):
            eq("".join(cl.serialize_iter(**kw)), cl.serialize(**kw), "serialize_iter(%r)" % kw)
    raw = cl.serialize(wrap=None)
    eq(out_nl, out + "\r\n", "newline=True only appends a line end")
    phys = out.split("\r\n")
    for i, p in enumerate(phys):
        check("\r" not in p and "\n" not in p, "bare line break in %r", p)
        check(i == 0 or p[:1] in (" ", "\t"), "fold without continuation mark: %r", out)
    eq("".join([phys[0]] + [p[1:] for p in phys[1:]]), raw, "unfolded text")
    # an independent reader agrees with what was meant
    want = expect_params(c)
    n, ps, v = ref.parse_line(raw)
    eq(n, c["name"].upper(), "name (reference reader)")
    eq(norm(ps), want, "params (reference reader)")
    eq(v, c["value"], "value (reference reader)")
    # and so does the library's reader
    for txt in (out, out_nl, raw):
        items = list(string_to_containers(txt))
        eq(len(items), 1, "number of lines read")
        got = ref.tree_of(items[0])
        eq(got[1], c["name"].upper(), "name")
        eq([(k, [(v) for q, v in vs]) for k, vs in got[2]], [(k, [v for q, v in vs]) for k, vs in c["params"]], "params")
        eq(norm(got[2]), want, "quoting of params")
        eq(got[3], c["value"], "value")
        check(items[0] == cl, "line read back is not equal: %r vs %r", items[0], cl)
    if c["name"].upper() not in ("BEGIN", "END"):
        got = ref.tree_of(string_to_container(cont))
        eq(got[1], "X-C", "container name")
        eq(len(got[2]), 2, "container size")
        for g in got[2]:
            eq((g[1], g[2], g[3]), (c["name"].upper(), want, c["value"]), "line inside a container")
    special = any(set(v) & SPECIAL for _, vs in c["params"] for _, v in vs)
    note("special-param" if special else "plain-param", "folded" if len(phys) > 1 else "single",
         "multi" if any(len(vs) > 1 for _, vs in c["params"]) else "no-multi")
    note.nontrivial(special or len(phys) > 1 or "\\" in c["value"])


def strategy_api():
    return st.fixed_dictionaries(dict(name=gen.name_any(), params=gen.params(max_params=3), value=gen.text(6, newlines=False),
                                      pick=st.integers(0, 5)))


def check_api(c, note):
    """subscript access, setting, cloning of lines mean the parameter lists themselves"""
    from ics.contentline import ContentLine, string_to_container

    cl = ContentLine(c["name"], {}, c["value"])
    for k, vs in c["params"]:
        cl[k] = tuple(vs)
    for k, vs in c["params"]:
        eq(cl[k], vs, "params via []")
    eq([list(x) for x in cl.params.items()], c["params"], "order of params")
    back = string_to_container(cl.serialize())
    check(back == cl, "%r != %r", back, cl)
    other = cl.clone()
    check(other == cl, "clone differs")
    if c["params"]:
        k = c["params"][c["pick"] % len(c["params"])][0]
        other[k] = other[k] + ["more"]
        check(other != cl, "different params compare equal")
        check(len(cl[k]) + 1 == len(other[k]), "clone shares its params")
        note.nontrivial()
    o2 = cl.clone()
    o2.value = cl.value + "x"
    check(o2 != cl, "different values compare equal")


def strat_many():
    pv = st.tuples(st.booleans(), gen.pvalue())
    return st.fixed_dictionaries(dict(
        name=gen.name_any(), value=gen.many(gen.text(6, newlines=False), 0, 100).map("".join), width=st.sampled_from([2, 20, 75, 75, 0]),
        params=st.tuples(gen.many(st.tuples(gen.name_any(), gen.many(pv, 1, 60)), 1, 12)).map(
            lambda t: [["P%d-%s" % (i, n), vs] for i, (n, vs) in enumerate(t[0])])))


SUBS = [
    Sub("many", strat_many, check_line, quick=150, shards=2),
    Sub("line", strategy, check_line, quick=2400, shards=4),
    Sub("api", strategy_api, check_api, quick=600),
]
