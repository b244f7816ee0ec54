import copy

from hypothesis import strategies as st

from harness import build, gen
from harness.core import Sub, check, eq

RULE = ("Histories of 1..25 list operations on a container of 0..8 items drawn from a pool of lines and (nested) containers that contains "
        "equal but distinct items; indices and slices (any start/stop/step, also out of range); items that are no lines or containers; "
        "generators, tuples, lists and containers as iterables, also the container itself. After every operation contents (by identity), "
        "result, exception class and serialization are compared with a plain list. Non-trivial: some operation changed the list and the "
        "list had an element.")
ASSUMPTIONS = ["names are looked up in upper case", "an operation that both gets an invalid item and would fail on a list may raise either error"]
TECHNIQUE = "stateful model-based testing against a plain list"

NAMES = ["A", "B", "X-C", "VEVENT"]
BAD = ["str", "None", "int", "list", "dict", "tuple", "event", "class", "bytes"]


def bad_of(k):
    import ics
    from ics.contentline import ContentLine

    return {"str": "A:b", "None": None, "int": 3, "list": [ContentLine("A")], "dict": {"name": "A"}, "tuple": (ContentLine("A"),),
            "event": ics.Event(uid="x"), "class": ContentLine, "bytes": b"A:b"}[k]


def item():
    line = st.tuples(st.just("L"), st.sampled_from(NAMES), gen.params(gen.xname(), 1, gen.text(2)), st.sampled_from(["", "1", "a,b"])).map(list)
    return st.recursive(line, lambda ch: st.tuples(st.just("C"), st.sampled_from(NAMES), st.lists(ch, max_size=2)).map(list), max_leaves=3)


IDX = st.integers(-10, 10)
BOUND = st.one_of(st.none(), IDX)
SLICE = st.tuples(BOUND, BOUND, st.sampled_from([None, None, None, 1, 2, -1, -2, 3, 0])).map(list)
OPS = ["append", "insert", "extend", "iadd", "set", "setslice", "del", "delslice", "delname", "remove", "pop", "popi", "reverse", "clear",
       "get", "getslice", "getname", "index", "count", "contains", "clone", "badset", "name", "nested"]


@st.composite
def op(draw):
    k = draw(st.sampled_from(OPS + ["insert", "set", "setslice", "extend", "append", "delname"]))
    o = {"op": k, "i": draw(IDX)}
    ref = st.tuples(st.just("p"), st.integers(0, 11)).map(list)
    bad = st.tuples(st.just("x"), st.sampled_from(BAD)).map(list)
    some = st.integers(0, 5).flatmap(lambda n: bad if n == 5 else ref)
    if "slice" in k:
        o["s"] = draw(SLICE)
    if k in ("delname", "getname"):
        o["n"] = draw(st.sampled_from(NAMES + ["NOPE"]))
    if k in ("extend", "iadd", "setslice"):
        o["form"] = draw(st.sampled_from(["list", "tuple", "gen", "container", "self", "str", "iter"]))
        o["vs"] = draw(st.lists(some, max_size=4))
    else:
        o["v"] = draw(some)
    return o


@st.composite
def strategy(draw):
    ops = draw(st.lists(op(), min_size=1, max_size=25))
    start = draw(st.lists(st.integers(0, 11), max_size=8))
    pool = draw(st.lists(item(), min_size=1, max_size=9))
    dup = draw(st.lists(st.integers(0, 8), max_size=3))
    return {"pool": pool + [pool[d % len(pool)] for d in dup], "start": start, "ops": ops}


@st.composite
def long(draw):
    c = draw(strategy())
    n, step = draw(st.integers(20, 150)), draw(st.integers(1, 7))
    c["start"] = [i * step % 12 for i in range(n)]
    return c


class Bad(Exception):
    pass


def run(f):
    try:
        return ("ok", f())
    except MemoryError:
        raise
    except Exception as e:
        return ("raise", e)


def check_case(c, note):
    from ics.contentline import Container, ContentLine

    pool = [build.item_of(x) for x in c["pool"]]
    get = lambda r: pool[r[1] % len(pool)] if r[0] == "p" else bad_of(r[1])
    model = [pool[i % len(pool)] for i in c["start"]]
    given = list(model)
    box = Container("root", given)
    given.append(None)  # the container owns its contents
    frozen = [build.snap(p) for p in pool]
    changed = False

    def same(where):
        eq([id(x) for x in box], [id(x) for x in model], "contents after " + where)
        eq(len(box), len(model), "length after " + where)
        eq([id(x) for x in reversed(box)], [id(x) for x in reversed(model)], "reversed after " + where)
        eq([id(x) for x in box.data], [id(x) for x in model], "data after " + where)
        eq(bool(box), bool(model), "truth after " + where)
        eq(box.serialize(), "".join(["BEGIN:ROOT\r\n"] + [x.serialize(newline=True) for x in model] + ["END:ROOT"]), "text after " + where)

    same("start")
    for o in c["ops"]:
        k, i = o["op"], o["i"]
        before = list(model)
        bad = False
        if "s" in o:
            sl = slice(*o["s"])
        if k in ("append", "insert", "set", "remove", "index", "count", "contains", "badset", "nested"):
            v = get(o["v"])
            bad = o["v"][0] == "x"
        if "vs" in o:
            vals = [get(r) for r in o["vs"]]
            form = o["form"]
            if form == "container" and any(r[0] == "x" for r in o["vs"]):
                form = "list"
            if form == "str":
                vals = list("ab")
            if form == "self":
                vals = list(model)
            bad = any(not isinstance(x, (ContentLine, Container)) for x in vals)
            mk = {"list": lambda: list(vals), "tuple": lambda: tuple(vals), "gen": lambda: (x for x in vals), "iter": lambda: iter(vals),
                  "container": lambda: Container("other", vals), "self": lambda: box, "str": lambda: "ab"}[form]
        if k == "append":
            a, b = run(lambda: box.append(v)), run(lambda: model.append(v))
        elif k == "insert":
            a, b = run(lambda: box.insert(i, v)), run(lambda: model.insert(i, v))
        elif k == "extend":
            a, b = run(lambda: box.extend(mk())), run(lambda: model.extend(vals))
        elif k == "iadd":
            def f():
                nonlocal box
                box += mk()
            a, b = run(f), run(lambda: model.extend(vals))
            check(isinstance(box, Container), "+= returned %r" % type(box))
        elif k == "set":
            a, b = run(lambda: box.__setitem__(i, v)), run(lambda: model.__setitem__(i, v))
        elif k == "setslice":
            a, b = run(lambda: box.__setitem__(sl, mk())), run(lambda: model.__setitem__(sl, vals))
        elif k == "badset":
            # a single item for a slice, or an item for a name: never valid
            s = slice(0, 2)
            a = run(lambda: box.__setitem__(s, v if isinstance(v, ContentLine) else ContentLine("A")))
            check(a[0] == "raise", "slice assignment of a line accepted")
            a = run(lambda: box.__setitem__("A", v))
            check(a[0] == "raise", "assignment to a name accepted")
            same("badset")
            continue
        elif k == "del":
            a, b = run(lambda: box.__delitem__(i)), run(lambda: model.__delitem__(i))
        elif k == "delslice":
            a, b = run(lambda: box.__delitem__(sl)), run(lambda: model.__delitem__(sl))
        elif k == "delname":
            a = run(lambda: box.__delitem__(o["n"]))
            model[:] = [x for x in model if x.name != o["n"]]
            b = ("ok", None)
        elif k == "remove":
            a, b = run(lambda: box.remove(v)), run(lambda: model.remove(v))
            bad = False
        elif k == "pop":
            a, b = run(box.pop), run(model.pop)
        elif k == "popi":
            a, b = run(lambda: box.pop(i)), run(lambda: model.pop(i))
        elif k == "reverse":
            a, b = run(box.reverse), run(model.reverse)
        elif k == "clear":
            a, b = run(box.clear), run(model.clear)
        elif k == "get":
            a, b = run(lambda: box[i]), run(lambda: model[i])
        elif k == "getslice":
            a, b = run(lambda: box[sl]), run(lambda: model[sl])
            if a[0] == "ok":
                part = a[1]
                check(isinstance(part, Container) and part.name == "ROOT", "slice is %r" % (part,))
                a = ("ok", list(part))
                part.append(ContentLine("X-NEW"))
                part.reverse()
                same("changing a slice")
        elif k == "getname":
            a = run(lambda: box[o["n"]])
            b = ("ok", tuple(x for x in model if x.name == o["n"]))
        elif k == "index":
            a, b = run(lambda: box.index(v)), run(lambda: model.index(v))
            bad = False
        elif k == "count":
            a, b = run(lambda: box.count(v)), run(lambda: model.count(v))
            bad = False
        elif k == "contains":
            a, b = run(lambda: v in box), run(lambda: v in model)
            bad = False
        elif k == "clone":
            other = box.clone() if i % 3 else (copy.copy(box) if i % 2 else Container(box.name, box))
            if not (i % 3) and i % 2:
                # copy.copy copies the slots, i.e. shares the list
                other = box.clone()
            eq([id(x) for x in other], [id(x) for x in model], "clone")
            check(other == box, "clone is not equal")
            other.append(ContentLine("X-NEW"))
            check(other != box, "a longer container is equal")
            eq([id(x) for x in box.clone(items=other)], [id(x) for x in other], "clone with items")
            a = b = ("ok", None)
        elif k == "name":
            other = Container("other", model)
            check(other != box, "containers of different names are equal")
            r = run(lambda: Container("", []))
            check(r[0] == "raise", "empty name accepted")
            a = b = ("ok", None)
        elif k == "nested":
            # constructing with an invalid item
            if bad:
                r = run(lambda: Container("x", [v]))
                check(r[0] == "raise", "constructor accepted %r" % (v,))
                r = run(lambda: Container("x", [pool[0], v]))
                check(r[0] == "raise", "constructor accepted %r" % (v,))
                r = run(lambda: box.clone(items=[v, pool[0]]))
                check(r[0] == "raise", "clone accepted %r" % (v,))
            a = b = ("ok", None)
            bad = False
        if bad:
            check(a[0] == "raise", "%r accepted an invalid item" % (o,))
            check(isinstance(a[1], (TypeError, ValueError, IndexError)), "%r raised %r" % (o, a[1]))
            model[:] = before
            note("invalid")
        else:
            eq(a[0], b[0], "%r: %r instead of %r" % (o, a[1], b[1]))
            if a[0] == "raise":
                check(isinstance(a[1], type(b[1])), "%r raised %r, a list %r" % (o, a[1], b[1]))
                eq([id(x) for x in model], [id(x) for x in before], "model")
                note("error")
            else:
                ra, rb = a[1], b[1]
                if isinstance(rb, (list, tuple)):
                    check(type(ra) is type(rb), "%r returned %r" % (o, ra))
                    eq([id(x) for x in ra], [id(x) for x in rb], "result of %r" % (o,))
                elif isinstance(rb, (int, bool, type(None))):
                    eq(ra, rb, "result of %r" % (o,))
                else:
                    check(ra is rb, "result of %r: %r" % (o, ra))
        same(repr(o))
        if [id(x) for x in before] != [id(x) for x in model]:
            changed = True
            note(k)
    eq([build.snap(p) for p in pool], frozen, "items were changed")
    note.nontrivial(changed and any(True for _ in c["ops"]))


SUBS = [Sub("long", long, check_case, quick=100, shards=2), Sub("history", strategy, check_case, quick=4000, shards=6)]
