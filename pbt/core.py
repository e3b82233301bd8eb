"""Search engine: runs the facets of a property with Hypothesis.

A facet is one executable check of the property:
    name       short identifier, part of the replay file
    strategy   Hypothesis strategy of *plain JSON* cases (or None)
    cases      optional iterable of enumerated cases, run first
    check      check(case) -> iterable of labels; raises Violation
    examples   number of generated cases in the quick tier (thorough: x FACTOR)
    nontrivial label(s): a case counts as non-trivial when it carries any

Outcomes: exit 0 (held on everything explored), exit 1 with a VIOLATION line,
exit 2 for an error of the harness itself.
"""
import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

from .ref import Malformed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HRDC_REPO", "/repo")
CASE_CPU_S = 60
SHRINK_BUDGET_S = 45
SHARDS = 8
QUICK = 5
# Quick tier: no new case is begun after that long, however slow the machine
QUICK_WALL_S = 500


class Violation(Exception):
    """The code under test breaks the property on the current case"""


class Hang(BaseException):
    pass


class Facet:
    def __init__(self, name, check, strategy=None, examples=200, cases=None,
                 nontrivial=None, thorough=20, describe=None):
        self.name, self.check, self.strategy = name, check, strategy
        self.examples, self.cases = examples, cases
        self.nontrivial = nontrivial
        self.thorough = thorough
        self.describe = describe


class Property:
    def __init__(self, id, rule, facets, known=(), assumptions=()):
        self.id, self.rule, self.facets = id, rule, facets
        self.known = known
        self.assumptions = list(assumptions)


@contextlib.contextmanager
def sut(what, allow=()):
    """Code under test runs in there: whatever it raises is its own fault."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    except Violation:
        raise
    except allow:
        raise
    except Hang:
        raise Violation("%s: did not end within %d s of CPU time" % (what, CASE_CPU_S))
    except KeyboardInterrupt:
        raise
    except MemoryError:
        raise Violation("%s: ran out of memory" % what)
    except BaseException as e:
        if e.__class__.__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else "?"
        raise Violation("%s: raised %s: %s (%s)" % (what, type(e).__name__, str(e)[:300], where)) from e


def in_child(f):
    """Run f in a fork of the (pristine) worker; -> JSON outcome"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = json.dumps(f()).encode()
            with os.fdopen(w, "wb") as fd:
                fd.write(out)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fd:
        data = fd.read()
    _, st_ = os.waitpid(pid, 0)
    if st_ or not data:
        raise RuntimeError("child failed, status %r" % st_)
    return json.loads(data)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _alarm(*_):
    raise Hang()


class _Watch:
    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def run_check(facet, case):
    with _Watch():
        try:
            return set(facet.check(case) or ())
        except Malformed as e:
            # Generated input is well-formed: this is about some output
            raise Violation("output is not a well-formed descriptor: %s" % e) from e
        except Hang:
            raise Violation("did not end within %d s of CPU time" % CASE_CPU_S)
        except (AttributeError, TypeError, ValueError, LookupError, ArithmeticError) as e:
            # Checks read whatever the unchanged code makes; what they choke on
            # is an outcome that is not even of the right kind
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("outcome cannot be read: %s: %s (%s:%d)" % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)) from e


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.seen = set()
        self.nontrivial = set()
        self.samples = []
        self.per_facet = {}

    def record(self, facet, case, labels):
        self.evaluations += 1
        self.per_facet[facet.name] = self.per_facet.get(facet.name, 0) + 1
        for l in labels:
            k = "%s:%s" % (facet.name, l)
            self.labels[k] = self.labels.get(k, 0) + 1
        text = canonical(case)
        h = hashlib.sha1((facet.name + text).encode()).digest()[:10]
        self.seen.add(h)
        hit = facet.nontrivial is None or bool(labels & set(facet.nontrivial))
        if hit and h not in self.nontrivial:
            self.nontrivial.add(h)
            if len(text) < 1500:
                n = self.per_facet.setdefault("_s" + facet.name, 0)
                if n < 3:
                    self.per_facet["_s" + facet.name] = n + 1
                    self.samples.append({"facet": facet.name, "case": case, "labels": sorted(labels)})
                elif len(self.nontrivial) % 97 == 0 and n < 6:
                    self.per_facet["_s" + facet.name] = n + 1
                    self.samples.append({"facet": facet.name, "case": case, "labels": sorted(labels)})


class Found(Exception):
    def __init__(self, facet, case, msg):
        self.facet, self.case, self.msg = facet, case, msg


_end = None


def late():
    return _end is not None and time.monotonic() > _end


def search(prop, facet, seed, factor, stats, enum=None):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase

    for n, case in enumerate(facet.cases() if enum else ()):
        if n % enum[1] != enum[0] or late():
            continue
        try:
            labels = run_check(facet, case)
        except Violation as e:
            raise Found(facet, case, str(e))
        stats.record(facet, case, labels | {"enumerated"})

    if enum:
        return

    best = {}

    def body(case):
        t = best.get("t")
        if t is not None and time.monotonic() - t > SHRINK_BUDGET_S \
                and canonical(case) != best["text"]:
            return      # stop shrinking, keep the best one
        if t is None and late():
            return
        try:
            labels = run_check(facet, case)
        except Violation as e:
            best.setdefault("t", time.monotonic())
            best.update(case=case, msg=str(e), text=canonical(case))
            raise
        if "t" not in best:
            stats.record(facet, case, labels)

    n = max(1, int(facet.examples * factor))
    salt = int.from_bytes(hashlib.sha1((prop.id + facet.name).encode()).digest()[:4], "big")
    test = given(facet.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(seed * 1000003 + salt)(test)
    try:
        test()
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        if not best:
            raise
    except BaseException:
        if not best:
            raise
    if best:
        raise Found(facet, best["case"], best["msg"])


def replay_path(prop, found):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    text = canonical(found.case)
    path = os.path.join(d, "%s-%s-%s.json" % (
        prop.id, found.facet.name, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": prop.id, "facet": found.facet.name,
                   "message": found.msg, "case": found.case}, f, indent=1)
        f.write("\n")
    return path


def write_evidence(prop, tier, seed, stats, wall, violations, extra):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {
        "evaluations": stats.evaluations,
        "distinct_nontrivial": len(stats.nontrivial),
        "distinct": len(stats.seen),
        "rule": prop.rule,
        "per_facet": {k: v for k, v in stats.per_facet.items() if not k.startswith("_")},
        "labels": dict(sorted(stats.labels.items())),
        "samples": stats.samples[:40],
    }
    cov.update(extra)
    doc = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": cov, "wall_s": round(wall, 2), "violations": violations,
           "assumptions": prop.assumptions}
    path = os.path.join(d, prop.id + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def known_findings(prop):
    """Entries of the committed known-findings file for this property"""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            e = json.loads(line)
            if e.get("property") == prop.id and e.get("status") == "known":
                out.append(e)
    return out


def run_known(prop):
    """Replay each known finding: still failing -> KNOWN-FINDING line"""
    facets = {f.name: f for f in prop.facets}
    for k in prop.known:
        facets[k.name] = k
    for e in known_findings(prop):
        facet = facets[e["facet"]]
        try:
            run_check(facet, e["case"])
        except Violation:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, e["what"]))
        else:
            print("note: known finding of %s no longer fails: %s" % (prop.id, e["what"]))


def _one(prop, facet, seed, factor, enum):
    stats = Stats()
    try:
        search(prop, facet, seed, factor, stats, enum)
    except Found as f:
        return stats, (f.facet.name, f.case, f.msg), None
    except BaseException:
        return stats, None, traceback.format_exc()
    return stats, None, None


def main(prop, tier, seed):
    global _end
    t0 = time.monotonic()
    _end = t0 + QUICK_WALL_S if tier != "thorough" else None
    stats = Stats()
    run_known(prop)
    found, extra = explore(prop, seed, stats, tier == "thorough")
    wall = time.monotonic() - t0
    extra["cut_short"] = late()
    write_evidence(prop, tier, seed, stats, wall, 1 if found else 0, extra)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (
        prop.id, tier, stats.evaluations, len(stats.nontrivial), wall))
    for k, v in sorted(stats.per_facet.items()):
        if not k.startswith("_"):
            print("  %-28s %d" % (k, v))
    if found:
        path = replay_path(prop, found)
        print("facet %s: %s" % (found.facet.name, found.msg))
        print("case: %s" % canonical(found.case)[:2000])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    return 0


def jobs_of(prop, seed, deep):
    """(facet, seed, factor, part of enumerated cases): fixed sharding, so that
    a run only depends on the seed, whatever the number of processors"""
    jobs = []
    for f in prop.facets:
        n = 0
        if f.strategy is not None:
            scale = f.thorough if deep else QUICK
            total = f.examples * scale
            n = min(SHARDS * (4 if deep else 1), max(1, int(total // 40)))
            for w in range(n):
                jobs.append((f.name, seed * 7919 + 104729 * w + (15485863 if deep else 0),
                             scale / n, None))
        if f.cases:
            for w in range(SHARDS):
                jobs.append((f.name, seed, 0, (w, SHARDS)))
    return jobs


def explore(prop, seed, stats, deep):
    """All facets, spread on worker processes"""
    import multiprocessing
    workers = max(1, min(SHARDS, os.cpu_count() or 1))
    facets = {f.name: f for f in prop.facets}
    jobs = jobs_of(prop, seed, deep)
    ctx = multiprocessing.get_context("fork")
    global _JOBS
    _JOBS = (prop, facets)
    found = error = None
    with ctx.Pool(workers, initializer=_limit) as pool:
        for st, bad, err in pool.imap_unordered(_job, jobs):
            merge(stats, st)
            if err and not error:
                error = err
            if bad:
                found = Found(facets[bad[0]], bad[1], bad[2])
                pool.terminate()
                break
    if error and not found:
        raise RuntimeError("harness error in a worker:\n" + error)
    return found, {"workers": workers, "jobs": len(jobs)}


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def _job(job):
    prop, facets = _JOBS
    name, seed, factor, enum = job
    return _one(prop, facets[name], seed, factor, enum)


def merge(a, b):
    a.evaluations += b.evaluations
    a.seen |= b.seen
    a.nontrivial |= b.nontrivial
    for k, v in b.labels.items():
        a.labels[k] = a.labels.get(k, 0) + v
    for s in b.samples:
        n = a.per_facet.get("_n" + s["facet"], 0)
        if n < 4:
            a.per_facet["_n" + s["facet"]] = n + 1
            a.samples.append(s)
    for k, v in b.per_facet.items():
        if not k.startswith("_"):
            a.per_facet[k] = a.per_facet.get(k, 0) + v


def replay(prop, path):
    doc = json.load(open(path))
    facets = {f.name: f for f in list(prop.facets) + list(prop.known)}
    try:
        run_check(facets[doc["facet"]], doc["case"])
    except Violation as e:
        print("facet %s: %s" % (doc["facet"], e))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    print("%s: replay of %s holds" % (prop.id, path))
    return 0
