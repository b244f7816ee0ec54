"""Runner: each property module lists sub-checks; a sub-check is a Hypothesis strategy for plain
JSON cases plus a function that builds objects from the case and raises when the property fails."""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 150  # one case takes milliseconds; only an endless loop gets here
CASE_CPU_S = 30  # the same in processor time, so that a busy machine makes no difference
MEMORY_LIMIT = 3 << 29
SHRINK_LIMIT_S = 60
QUICK_LIMIT_S = 500  # a quick check takes about 20 s; it ends here, with what it has explored, on a very slow machine


class Stop(BaseException):
    """the time of the quick tier is used up"""


class Hang(BaseException):
    pass


class Violation(AssertionError):
    pass


class Inconclusive(BaseException):
    """The harness itself cannot decide; never a violation."""


def check(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what=""):
    if not (got == want):
        raise Violation("%s: got %r, want %r" % (what, got, want))


class Known(Exception):
    """Raised by a check when a failure matches a listed known finding."""

    def __init__(self, key):
        self.key = key


def raises(fn, *args, **kw):
    """True if the call raises an ordinary exception."""
    try:
        fn(*args, **kw)
    except (MemoryError, RecursionError, Hang):
        raise
    except Exception as e:
        return e or True
    return None


def refuses(kinds, fn, what=""):
    """The call must raise one of these kinds of exception."""
    try:
        r = fn()
    except kinds as e:
        return e
    check(False, "%s: accepted, giving %r", what or "expected a refusal", r)


class Note:
    """Per-case classification."""

    def __init__(self):
        self.labels = set()
        self.hit = False

    def __call__(self, *labels):
        self.labels.update(str(l) for l in labels)

    def nontrivial(self, cond=True):
        if cond:
            self.hit = True


class Sub:
    def __init__(self, name, strategy, check, quick=300, thorough=None, fixed=(), shards=1):
        self.name = name
        self.strategy = strategy  # callable returning a strategy (lazy) or a strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.fixed = list(fixed)
        self.shards = shards


def prepare():
    warnings.simplefilter("ignore")
    import ics

    repo = os.environ.get("ICS_REPO", "/repo")
    if not os.path.abspath(ics.__file__).startswith(os.path.join(repo, "src") + os.sep):
        print("harness error: ics imported from", ics.__file__)
        sys.exit(3)
    ics.initialize_converters()


def load(pid):
    return importlib.import_module("harness.props." + pid.lower())


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def set_tz(name="UTC"):
    if os.environ.get("TZ") != name:
        os.environ["TZ"] = name
        time.tzset()


def _alarm(signum, frame):
    raise Hang("case did not finish within %d s (%d s of processor time)" % (CASE_LIMIT_S, CASE_CPU_S))


def run_case(sub, case, note):
    warnings.simplefilter("ignore")
    set_tz("UTC")
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(CASE_LIMIT_S)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        sub.check(case, note)
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        set_tz("UTC")


def worker(pid, subname, shard, seed, tier, n, queue):
    try:
        res = _worker(pid, subname, shard, seed, tier, n)
    except BaseException as e:  # noqa
        res = dict(sub=subname, error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
    queue.put(json.dumps(res))


def _worker(pid, subname, shard, seed, tier, n):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st  # noqa

    prepare()
    sub = {s.name: s for s in load(pid).SUBS}[subname]
    st_ = dict(evaluations=0, distinct=set(), labels=collections.Counter(), samples=[], known=collections.Counter())
    recent = collections.deque(maxlen=30)
    start = time.monotonic()
    fail = {}

    def one(case):
        c = canon(case)
        case = json.loads(c)  # exactly what a replay will see
        note = Note()
        st_["evaluations"] += 1
        try:
            run_listed(pid, sub, case, note)
        except Known as k:
            st_["known"][k.key] += 1
        except (Exception, Hang) as e:
            now = time.monotonic()
            if not fail:
                fail["first"] = case
                fail["prelude"] = list(recent)
                fail["t0"] = now
            fail["last"] = case
            fail["msg"] = "%s: %s" % (type(e).__name__, str(e)[:2000])
            fail["tb"] = traceback.format_exc()[-6000:]
            if isinstance(e, MemoryError):
                raise Hang(str(e)) from e  # too expensive to shrink
            raise
        finally:
            recent.append(case)
        st_["labels"].update(note.labels)
        if note.hit:
            h = hashlib.blake2b(c.encode(), digest_size=8).hexdigest()
            if h not in st_["distinct"]:
                st_["distinct"].add(h)
                k = len(st_["distinct"])
                if len(c) < 3000 and (k in (1, 7, 50) or (k < 400 and k % 131 == 0)):
                    st_["samples"].append(case)

    def done(**kw):
        out = dict(sub=subname, shard=shard, evaluations=st_["evaluations"], distinct=sorted(st_["distinct"]),
                   labels=dict(st_["labels"]), samples=st_["samples"][:4], known=dict(st_["known"]))
        out.update(kw)
        return out

    if shard == 0:
        for case in sub.fixed:
            try:
                one(case)
            except (Exception, Hang):
                return done(fail=fail, flaky=False)
    if n <= 0:
        return done()

    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy
    sval = int(hashlib.sha256(("%s/%s/%s/%d" % (seed, pid, subname, shard)).encode()).hexdigest()[:12], 16)

    @hypothesis.seed(sval)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
              print_blob=False, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
    @given(strategy)
    def test(case):
        if fail and time.monotonic() - fail["t0"] > SHRINK_LIMIT_S:
            return
        if tier == "quick" and time.monotonic() - start > QUICK_LIMIT_S:
            raise Stop
        one(case)

    try:
        with open(os.devnull, "w") as null:
            old = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = null
            try:
                test()
            finally:
                sys.stdout, sys.stderr = old
    except BaseException as e:
        if fail:
            flaky = isinstance(e, hypothesis.errors.Flaky)
            return done(fail=fail, flaky=flaky)
        if isinstance(e, Stop):
            st_["labels"]["stopped early"] += 1
            return done()
        raise
    if fail:
        return done(fail=fail, flaky=True)
    return done()


def write_replay(pid, res):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    f = res["fail"]
    body = dict(property=pid, subcheck=res["sub"], case=f["last"], message=f["msg"], traceback=f["tb"])
    if res.get("flaky"):
        body["flaky"] = True
        body["first_case"] = f["first"]
        body["prelude"] = f["prelude"]
    h = hashlib.sha256(canon(f["last"]).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, res["sub"], h))
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1)
    return path


def run_property(pid):
    t0 = time.monotonic()
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    only = os.environ.get("VERIF_SUB")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    prepare()
    mod = load(pid)
    jobs = []
    for s in mod.SUBS:
        if only and s.name != only:
            continue
        total = int((s.quick if tier == "quick" else s.thorough) * scale)
        shards = s.shards if tier == "quick" else max(4, s.shards)
        for sh in range(shards):
            jobs.append((s.name, sh, max(1, total // shards) if total else 0))
    ctx = multiprocessing.get_context("fork")
    ncpu = int(os.environ.get("VERIF_JOBS", "8"))
    running, results, queue = {}, [], None
    jobs.sort(key=lambda j: -j[2])
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < ncpu:
            name, sh, n = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=(pid, name, sh, seed, tier, n, q))
            p.start()
            running[p] = (q, name, sh)
        for p, (q, name, sh) in list(running.items()):
            if not q.empty():
                results.append(json.loads(q.get()))
                p.join()
                del running[p]
            elif not p.is_alive():
                if q.empty():
                    results.append(dict(sub=name, shard=sh, error="worker died with %s" % p.exitcode))
                    del running[p]
        time.sleep(0.01)
    wall = time.monotonic() - t0
    results.sort(key=lambda r: (r["sub"], r.get("shard", 0)))
    ev = nt = 0
    labels, samples, known = {}, [], collections.Counter()
    errors, viol = [], []
    per_sub = {}
    for r in results:
        if "error" in r:
            errors.append(r)
            continue
        ev += r["evaluations"]
        d = per_sub.setdefault(r["sub"], dict(evaluations=0, seen=set(), labels=collections.Counter()))
        d["evaluations"] += r["evaluations"]
        d["seen"].update(r["distinct"])
        d["labels"].update(r["labels"])
        known.update(r["known"])
        if r.get("shard", 0) == 0:
            samples += [dict(sub=r["sub"], case=c) for c in r["samples"][:2]]
        if "fail" in r:
            viol.append(r)
    for k, d in per_sub.items():
        d["distinct_nontrivial"] = len(d.pop("seen"))
        nt += d["distinct_nontrivial"]
        d["labels"] = dict(sorted(d["labels"].items()))
    evidence = dict(
        property=pid, tier=tier, seed=int(seed) if seed.lstrip("-").isdigit() else 0, level="exploration",
        coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=mod.RULE, samples=samples, sub_checks=per_sub,
                      known_finding_hits=dict(known)),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp%d" % os.getpid())
    with open(tmp, "w") as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    rc = 0
    for line in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    for r in viol:
        path = write_replay(pid, r)
        print("sub-check %s failed: %s" % (r["sub"], r["fail"]["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    for r in errors:
        print("harness error in %s: %s" % (r["sub"], r["error"][:2500]))
    if errors and not viol:
        rc = 3
    if not errors and not viol and not only and nt == 0:
        print("harness error: no non-trivial case")
        rc = 3
    print("%s tier=%s seed=%s evaluations=%d nontrivial=%d wall=%.1fs rc=%d" % (pid, tier, seed, ev, nt, wall, rc))
    return rc


def run_listed(pid, sub, case, note):
    """only findings that the committed file lists are known"""
    try:
        run_case(sub, case, note)
    except Known as k:
        if not any(line.startswith("key=%s:" % k.key) for line in known_findings(pid)):
            raise Violation("unlisted finding %s" % k.key) from k
        raise


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    return out


def replay(path):
    prepare()
    body = json.load(open(path))
    sub = {s.name: s for s in load(body["property"]).SUBS}[body["subcheck"]]
    cases = body.get("prelude", []) + [body.get("first_case"), body["case"]] if body.get("flaky") else [body["case"]]
    bad = False
    for c in cases:
        if c is None:
            continue
        try:
            run_listed(body["property"], sub, c, Note())
        except Known as k:
            print("known finding:", k.key)
        except (Exception, Hang):
            bad = True
            print(json.dumps(c, ensure_ascii=True)[:5000])
            traceback.print_exc(file=sys.stdout)
    if bad:
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    print("replay passes")
    return 0


def main(argv):
    if not argv:
        print("usage: run.sh <id> | replay <file>")
        return 2
    if argv[0] == "replay":
        return replay(argv[1])
    return run_property(argv[0])
