import datetime as D
import os
import queue
import random
import re
import subprocess
import sys
import threading
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness import build, gen
from harness.core import Sub, check, eq, set_tz
from harness.instants import LOCALS

RULE = ("Histories of up to 30 steps over up to four threads (started at any point, also from inside a block): entering, leaving and "
        "leaving by exception of nested deterministic-data blocks with given or default ids and stamps, calls of a decorated function, "
        "creating events and todos in every way (constructor, import with and without UID/DTSTAMP, copies, explicit values), reseeding "
        "of the random module, under random local zones; against one stack per thread and the real clock; a frozen clock; forked and "
        "fresh processes. Non-trivial: entries were created both inside and outside of blocks, or in two threads, processes or at a frozen time.")
ASSUMPTIONS = ["in the histories, steps of different threads do not overlap in time (the sub-check many lets them)", "Python 3.12: new threads start with an empty context"]
TECHNIQUE = "stateful model-based testing over generated thread schedules"

UTC = D.timezone.utc
DEFAULT_UID = "deterministic_uid@example.org"
DEFAULT_STAMP = datetime(2000, 1, 1, 12, 0, 0)
SEEN = set()

STAMP = gen.dt(gen.any_tz(offsets=True), 1975, 2035)
KINDS = ["event", "todo", "event-args", "import", "import-todo", "import-given", "import-calendar", "given", "given-uid", "given-stamp", "clone",
         "from-container"]


@st.composite
def step(draw):
    k = draw(st.sampled_from(["new", "new", "new", "new", "enter", "enter", "enter", "exit", "exit", "raise", "call", "spawn", "seed"]))
    s = {"op": k, "who": draw(st.integers(0, 3))}
    if k == "new":
        s["kind"] = draw(st.sampled_from(KINDS))
        s["uid"] = draw(gen.text(3))
        s["stamp"] = draw(STAMP)
    if k in ("enter", "call"):
        s["uid"] = draw(gen.opt(gen.text(4, min_size=1)))
        s["stamp"] = draw(gen.opt(STAMP))
    if k == "raise":
        s["exc"] = draw(st.sampled_from(["ValueError", "KeyError", "StopIteration", "GeneratorExit", "KeyboardInterrupt", "bad-event"]))
    if k == "seed":
        s["n"] = draw(st.integers(0, 3))
    return s


def strategy():
    return st.fixed_dictionaries(dict(local=st.sampled_from(LOCALS), steps=st.lists(step(), min_size=1, max_size=30)))


class Actor:
    """executes commands, in its own thread unless it is the main one"""

    def __init__(self, main=False):
        self.model = []
        self.stack = []
        self.main = main
        if not main:
            self.inbox, self.outbox = queue.Queue(), queue.Queue()
            self.thread = threading.Thread(target=self.loop, daemon=True)
            self.thread.start()

    def loop(self):
        while True:
            f = self.inbox.get()
            if f is None:
                return
            try:
                self.outbox.put((True, f()))
            except BaseException as e:
                self.outbox.put((False, e))

    def do(self, f):
        if self.main:
            return f()
        self.inbox.put(f)
        ok, v = self.outbox.get(timeout=60)
        if not ok:
            raise v
        return v

    def stop(self):
        if not self.main:
            self.inbox.put(None)
            self.thread.join(30)


VEV = "BEGIN:VEVENT\r\nSUMMARY:x\r\nEND:VEVENT"


def create(kind, uid, stamp):
    """-> list of (object, uid given or None, stamp given or None)"""
    import ics
    from ics.contentline import string_to_container

    if kind == "event":
        return [(ics.Event(), None, None)]
    if kind == "event-args":
        return [(ics.Event("name", datetime(2020, 1, 1), duration=timedelta(hours=1)), None, None)]
    if kind == "todo":
        return [(ics.Todo(), None, None), (ics.Todo(due=datetime(2020, 1, 1)), None, None)]
    if kind == "import":
        return [(ics.Event.from_container(string_to_container(VEV)), None, None)]
    if kind == "import-todo":
        return [(ics.Todo.from_container(string_to_container(VEV.replace("VEVENT", "VTODO"))), None, None)]
    if kind == "import-given":
        t = VEV.replace("SUMMARY:x", "UID:fixed\r\nDTSTAMP:20010203T040506Z")
        return [(ics.Event.from_container(string_to_container(t)), "fixed", datetime(2001, 2, 3, 4, 5, 6, tzinfo=UTC))]
    if kind == "import-calendar":
        t = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n%s\r\n%s\r\n%s\r\nEND:VCALENDAR" % (
            VEV, VEV.replace("SUMMARY:x", "UID:fixed"), VEV.replace("VEVENT", "VTODO"))
        c = ics.Calendar(t)
        return [(c.events[0], None, None), (c.events[1], "fixed", None), (c.todos[0], None, None)]
    if kind == "given":
        return [(ics.Event(uid=uid, dtstamp=stamp), uid, stamp), (ics.Todo(uid=uid, dtstamp=stamp), uid, stamp)]
    if kind == "given-uid":
        return [(ics.Todo(uid=uid), uid, None)]
    if kind == "given-stamp":
        return [(ics.Event(dtstamp=stamp), None, stamp)]
    if kind == "clone":
        e = ics.Event(uid=uid, dtstamp=stamp)
        return [(e.clone(), uid, stamp)]
    e = ics.Event(uid="u0", dtstamp=datetime(2001, 2, 3, 4, 5, 6, tzinfo=UTC))
    return [(ics.Event.from_container(e.to_container()), "u0", datetime(2001, 2, 3, 4, 5, 6, tzinfo=UTC))]


def is_utc(d):
    return d.tzinfo is not None and d.utcoffset() == timedelta(0) and d.dst() in (None, timedelta(0)) and d.tzname() in ("UTC", "Etc/UTC")


def instant(d):
    return d.astimezone(UTC).replace(tzinfo=None)


def verify(made, block, before, after):
    for o, uid, stamp in made:
        if uid is not None:
            eq(o.uid, uid, "given UID")
        elif block is not None:
            eq(o.uid, block[0], "UID inside the block")
        else:
            check(isinstance(o.uid, str) and len(o.uid) > 8 and o.uid not in SEEN and o.uid != DEFAULT_UID, "UID %r is not new" % (o.uid,))
            SEEN.add(o.uid)
        check(is_utc(o.dtstamp), "stamp %r is not in UTC" % (o.dtstamp,))
        if stamp is not None:
            eq(instant(o.dtstamp), instant(stamp), "given stamp")
        elif block is not None:
            eq(instant(o.dtstamp), instant(block[1]), "stamp inside the block")
        else:
            check(before <= instant(o.dtstamp) <= after, "stamp %s is not now (%s..%s)" % (o.dtstamp, before, after))


def check_case(c, note):
    from ics.event import deterministic_event_data

    set_tz(c["local"])
    actors = [Actor(True)]
    inside = outside = 0
    used = set()

    def now():
        return datetime.now(UTC).replace(tzinfo=None)

    def new(a, kind="event", uid="u", stamp=None):
        nonlocal inside, outside
        block = a.model[-1] if a.model else None
        before = now()
        made = a.do(lambda: create(kind, uid, stamp if stamp is not None else datetime(2020, 1, 1, tzinfo=UTC)))
        verify(made, block, before, now())
        inside += block is not None
        outside += block is None
        used.add(id(a))

    def kwargs(s):
        kw = {}
        if s["uid"] is not None:
            kw["uid"] = s["uid"]
        if s["stamp"] is not None:
            kw["dtstamp"] = build.dt_of(s["stamp"])
        return kw, (kw.get("uid", DEFAULT_UID), kw.get("dtstamp", DEFAULT_STAMP.replace(tzinfo=UTC)))

    def leave(a, exc=None):
        cm = a.stack.pop()
        a.model.pop()

        def f():
            if exc is None:
                cm.__exit__(None, None, None)
                return None
            try:
                raise exc
            except BaseException as e:
                try:
                    return cm.__exit__(type(e), e, e.__traceback__)
                except BaseException as x:
                    if x is not e and x.__cause__ is not e:
                        raise
                    return False

        check(not a.do(f), "the block swallowed %r" % (exc,))

    state = random.getstate()
    try:
        for s in c["steps"]:
            a = actors[s["who"] % len(actors)]
            k = s["op"]
            if k == "new":
                new(a, s["kind"], s["uid"], build.dt_of(s["stamp"]))
                note(s["kind"])
            elif k == "enter":
                kw, m = kwargs(s)

                def f():
                    cm = deterministic_event_data(**kw)
                    cm.__enter__()
                    return cm

                a.stack.append(a.do(f))
                a.model.append(m)
                new(a)
            elif k == "exit" and a.stack:
                leave(a)
                new(a)
            elif k == "raise" and a.stack:
                if s["exc"] == "bad-event":
                    # an entry that cannot be created
                    import ics

                    try:
                        a.do(lambda: ics.Event(status="NOPE"))
                    except ValueError as e:
                        leave(a, e)
                    else:
                        check(False, "invalid event was created")
                else:
                    leave(a, {"ValueError": ValueError, "KeyError": KeyError, "StopIteration": StopIteration, "GeneratorExit": GeneratorExit,
                              "KeyboardInterrupt": KeyboardInterrupt}[s["exc"]]("x"))
                new(a, "todo")
                note("left-by-exception")
            elif k == "call":
                kw, m = kwargs(s)
                made = []

                @deterministic_event_data(**kw)
                def g(n):
                    made.extend(create("event", "", None))
                    if n:
                        g(n - 1)
                    made.extend(create("todo", "", None))

                for _ in range(2):
                    a.do(lambda: g(1))
                verify(made, m, None, None)
                eq(len(made), 12, "entries made by the decorated function")
                inside += 1
                new(a)
            elif k == "spawn" and len(actors) < 4:
                actors.append(a.do(Actor))
                new(actors[-1])
            elif k == "seed":
                random.seed(s["n"])
            # everybody else is unaffected
            for b in actors:
                if b is not a and k not in ("new", "seed"):
                    new(b)
        for a in actors:
            while a.stack:
                leave(a)
                new(a)
    finally:
        random.setstate(state)
        for a in actors:
            a.stop()
            while a.main and a.stack:
                a.stack.pop().__exit__(None, None, None)
    note.nontrivial(inside and outside)
    note("threads-%d" % len(used))


# ------------------------------------------------------------------ many at once


def s_many():
    return st.fixed_dictionaries(dict(n=st.integers(200, 4000), threads=st.integers(1, 6), seed=gen.opt(st.integers(0, 3)), deep=st.integers(1, 60),
                                      block=st.booleans()))


def check_many(c, note):
    """ids stay distinct however many are made and by however many threads at once; blocks nest however deep"""
    import ics
    from ics.event import deterministic_event_data

    state = random.getstate()
    made = [[] for _ in range(c["threads"])]

    def work(out):
        if c["seed"] is not None:
            random.seed(c["seed"])
        for i in range(c["n"] // c["threads"]):
            out.append((ics.Event if i % 2 else ics.Todo)().uid)

    ts = [threading.Thread(target=work, args=(o,)) for o in made]
    fixed = []
    try:
        [t.start() for t in ts]
        if c["block"]:
            with deterministic_event_data(uid="fixed"):
                for _ in range(50):
                    fixed.append(ics.Event().uid)
        [t.join() for t in ts]
    finally:
        random.setstate(state)
    eq(fixed, ["fixed"] * len(fixed), "ids inside the block")
    every = [u for o in made for u in o]
    eq(len(every), c["n"] // c["threads"] * c["threads"], "number of entries")
    check(len(set(every)) == len(every) and "fixed" not in every, "ids of different entries are equal")
    check(all(isinstance(u, str) and u for u in every), "an id is not a text")
    cms = []
    for i in range(c["deep"]):
        cms.append(deterministic_event_data(uid="u%d" % i))
        cms[-1].__enter__()
        eq(ics.Todo().uid, "u%d" % i, "id inside %d blocks" % (i + 1))
    for i in reversed(range(c["deep"])):
        eq(ics.Event().uid, "u%d" % i, "id inside %d blocks, after leaving others" % (i + 1))
        cms[i].__exit__(None, None, None)
    check(not re.fullmatch(r"u[0-9]+", ics.Event().uid), "id after all blocks")
    note.nontrivial()
    note("threads%d" % c["threads"])


# ------------------------------------------------------------------ frozen clock


def s_clock():
    return st.fixed_dictionaries(dict(local=st.sampled_from(LOCALS), t=gen.ymdhms(1975, 2037, micro=True), step=st.integers(0, 100000)))


def check_clock(c, note):
    import freezegun
    import ics

    set_tz(c["local"])
    t = datetime(*c["t"])
    with freezegun.freeze_time(t) as clock:
        for k in range(2):
            made = [create(x, "", None) for x in ("event", "todo", "import", "import-todo", "event-args")]
            for m in made:
                for o, _, _ in m:
                    eq(instant_frozen(o.dtstamp), t, "stamp")
                    check(o.uid not in SEEN, "UID %r twice" % o.uid)
                    SEEN.add(o.uid)
            text = made[0][0][0].serialize()
            want = "DTSTAMP:%04d%02d%02dT%02d%02d%02dZ\r\n" % (t.year, t.month, t.day, t.hour, t.minute, t.second)
            check(want in text, "%r not in %r" % (want, text))
            clock.tick(timedelta(seconds=c["step"]))
            t = t + timedelta(seconds=c["step"])
    note.nontrivial()


def instant_frozen(d):
    check(d.utcoffset() == timedelta(0), "stamp %r is not in UTC" % (d,))
    return datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)


# ------------------------------------------------------------------ processes


def s_proc():
    return st.fixed_dictionaries(dict(children=st.integers(2, 4), n=st.integers(1, 20), warm=st.booleans(), seed=st.integers(0, 3)))


def check_fork(c, note):
    import ics

    if c["warm"]:
        ics.Event()
    outs = []
    for _ in range(c["children"]):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                random.seed(c["seed"])
                os.write(w, "\n".join(ics.Event().uid for _ in range(c["n"])).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            outs += f.read().decode().split("\n")
        os.waitpid(pid, 0)
    outs += [ics.Todo().uid for _ in range(c["n"])]
    eq(len(outs), (c["children"] + 1) * c["n"], "entries made")
    eq(len(set(outs)), len(outs), "distinct UIDs in forked processes")
    note.nontrivial()


def check_fresh(c, note):
    code = "import random; random.seed(%d); import ics; print(ics.Event().uid); print(ics.Todo().uid)" % c["seed"]
    outs = []
    for _ in range(2):
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=120)
        eq(r.returncode, 0, r.stderr)
        outs += r.stdout.split()
    eq(len(set(outs)), 4, "distinct UIDs in fresh processes: %r" % outs)
    note.nontrivial()


SUBS = [
    Sub("history", strategy, check_case, quick=4000, shards=5),
    Sub("many", s_many, check_many, quick=40, shards=2),
    Sub("clock", s_clock, check_clock, quick=120, shards=2),
    Sub("fork", s_proc, check_fork, quick=60, shards=1),
    Sub("fresh", s_proc, check_fresh, quick=4, shards=1),
]
