from datetime import timedelta

from hypothesis import strategies as st

from harness import instants
from harness.core import Sub, check, eq, raises, set_tz
from harness.instants import LOCALS

RULE = ("Pairs of spans (and an instant) placed on a half-hour grid around one base time so that touching, nesting, equal and empty "
        "intervals are common; each time is shown in a random zone or floating under a random local zone; events, todos and bare "
        "spans; every relation is compared with interval arithmetic on UTC instants. Non-trivial: both spans have begin and end and "
        "are at most one base-day apart.")
ASSUMPTIONS = ["no time is ambiguous or skipped in its zone", "an empty interval intersects another one that contains its instant"]


def strategy():
    return st.fixed_dictionaries(dict(
        local=st.sampled_from(LOCALS), base=instants.base(), a=instants.span(), b=instants.span(), ea=st.booleans(), eb=st.booleans(),
        t=st.tuples(st.integers(-8, 8), instants.zones()).map(list)))


def check_case(c, note):
    local = c["local"]
    set_tz(local)
    va, vb = (instants.build_span(c[k], c["base"], local) for k in "ab")
    (ab, ae), (bb, be) = instants.effective(va, c["a"]["todo"]), instants.effective(vb, c["b"]["todo"])
    from datetime import datetime

    t = instants.show(datetime(*c["base"]) + timedelta(minutes=30 * c["t"][0]), c["t"][1], local)
    if any(d is not None and instants.ambiguous(d, local) for d in (ab, ae, bb, be, t, va[1], vb[1])):
        note("ambiguous")
        return
    A, B = instants.make(c["a"], va, c["ea"]), instants.make(c["b"], vb, c["eb"])
    Ats, Bts = instants.make(c["a"], va, False), instants.make(c["b"], vb, False)
    Ae = instants.make(c["a"], va, True)
    ab, ae, bb, be, ti = (instants.instant(d, local) for d in (ab, ae, bb, be, t))
    full_a, full_b = None not in (ab, ae), None not in (bb, be)

    def one(name, want, missing, *forms):
        for i, f in enumerate(forms):
            if missing:
                err = raises(f)
                check(isinstance(err, ValueError), "%s[%d] with a missing time: %r", name, i, err)
            else:
                got = f()
                check(got is want, "%s[%d]: got %r, want %r for %r / %r", name, i, got, want, (ab, ae), (bb, be))

    ok_b = bb is not None and be is not None
    # entries take entries and spans, spans take spans
    arg = [B, Bts] if c["ea"] else [Bts]
    le = lambda *xs: None not in xs and all(x <= y for x, y in zip(xs, xs[1:]))
    one("starts_within", ok_b and ab is not None and bb <= ab < be, not (full_b and ab is not None),
        *[lambda y=y: A.starts_within(y) for y in arg])
    one("ends_within", ok_b and ae is not None and bb <= ae < be, not (full_b and ae is not None), *[lambda y=y: A.ends_within(y) for y in arg])
    both = full_a and full_b
    inter = both and (bb <= ab < be or ab <= bb < ae)
    one("intersects", inter, not both, *[lambda y=y: A.intersects(y) for y in arg])
    one("intersects reversed", inter, not both, lambda: Bts.intersects(Ats), *([lambda: B.intersects(Ae)] if c["eb"] else []))
    incl = both and ab <= bb and be < ae
    one("includes", incl, not both, *[lambda y=y: A.includes(y) for y in arg])
    one("is_included_in", incl, not both, lambda: Bts.is_included_in(Ats), *([lambda: B.is_included_in(Ae)] if c["eb"] else []))
    one("in", incl, not both, lambda: Bts in Ats)
    inst = full_a and ab <= ti < ae
    one("includes instant", inst, not full_a, lambda: A.includes(t), lambda: Ats.includes(t), lambda: Ae.includes(t))
    one("instant in", inst, not full_a, lambda: t in Ats)
    if c["a"]["todo"]:
        one("due_within", ok_b and ae is not None and bb <= ae < be, not (full_b and ae is not None), lambda: Ae.due_within(Bts))
    if both:
        note.nontrivial(abs(ab - bb) < timedelta(days=1))
        note("intersects" if inter else "apart", "touch" if ae == bb or ab == be else "no-touch", "includes" if incl else "not-included",
             "empty" if ab == ae or bb == be else "nonempty", "instant-in" if inst else "instant-out",
             "todo" if c["a"]["todo"] or c["b"]["todo"] else "events")
    else:
        note("missing")


SUBS = [Sub("relations", strategy, check_case, quick=4000, shards=6)]
