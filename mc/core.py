"""The explorer: enumerates finite case spaces completely, in parallel, and keeps
the books (counts, distinct outcomes, violations, known findings, evidence)."""
import hashlib
import itertools
import json
import os
import pickle
import signal
import sys
import time
import traceback

from . import env

MAX_REPORT = 3  # violations kept for each worker and section
CASE_TIMEOUT = 240  # seconds of wall time for one case before it counts as a hang


class Violation(Exception):
    """raised (or returned) by a case function when the property is broken"""

    def __init__(self, message, key=None, **details):
        Exception.__init__(self, message)
        self.message = message
        self.key = key
        self.details = details


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def h(obj):
    return hashlib.blake2b(repr(obj).encode("utf-8", "replace"), digest_size=8).digest()


def norm(x):
    """order-insensitive for dict keys, type-preserving rendering"""
    if isinstance(x, dict):
        return {"d": sorted(((repr(k), norm(v)) for k, v in x.items()))}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [norm(i) for i in x]
    return (type(x).__name__, repr(x))


def same(a, b):
    """deep equality that does not confuse True with 1, or a tuple with a list"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def first_difference(want, got, path="result"):
    if same(want, got):
        return None
    if isinstance(want, dict) and isinstance(got, dict):
        for k in list(want) + [k for k in got if k not in want]:
            if k not in got:
                return "%s: key %r missing, expected %.150r" % (path, k, want[k])
            if k not in want:
                return "%s: unexpected key %r = %.150r" % (path, k, got[k])
            d = first_difference(want[k], got[k], "%s[%r]" % (path, k))
            if d:
                return d
    if isinstance(want, (list, tuple)) and type(want) is type(got):
        for i in range(min(len(want), len(got))):
            d = first_difference(want[i], got[i], "%s[%d]" % (path, i))
            if d:
                return d + ("" if len(want) == len(got) else " (lengths %d, %d)" % (len(want), len(got)))
        return "%s: expected %d items, observed %d: %.200r" % (path, len(want), len(got), (want[len(got):] or got[len(want):]))
    return "%s: expected %.200r, observed %.200r" % (path, want, got)


class Section:
    def __init__(self, name, rule):
        self.name = name
        self.rule = rule
        self.cases = 0
        self.decided = 0
        self.outcomes = set()
        self.nontrivial = set()
        self.states = set()
        self.transitions = 0
        self.violations = []
        self.samples = []
        self.wall = 0.0


class Checker:
    def __init__(self, pid, tier, level, seed=1, jobs=None, replay=None):
        self.pid = pid
        self.tier = tier
        self.level = level
        self.seed = seed
        self.jobs = jobs or int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1)
        self.sections = []
        self.assumptions = []
        self.start = time.time()
        self.replay = replay  # (section, index) to run one single case
        self.thorough = tier == "thorough"

    # -- exploration ---------------------------------------------------------
    def explore(self, name, cases, fn, rule="", chunk=1, jobs=None):
        """Run fn(case) for every case of the finite iterable cases() .

        fn returns an Outcome tuple (key, nontrivial, states, transitions) or any
        hashable/plain object used as outcome key; it raises Violation when the
        property is broken. With chunk > 1 fn receives a list of (index, case)
        and yields one outcome or Violation for each of them.
        """
        sec = Section(name, rule)
        self.sections.append(sec)
        t0 = time.time()
        jobs = jobs or self.jobs
        if self.replay:
            if self.replay[0] != name:
                return sec
            jobs = 1
        tmp = os.path.join(env.SCRATCH, "sec%d" % len(self.sections))
        os.makedirs(tmp, exist_ok=True)
        sys.stdout.flush()
        sys.stderr.flush()
        pids = []
        for w in range(jobs):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    out = self._worker(w, jobs, cases, fn, chunk)
                    with open(os.path.join(tmp, "%d.out" % w), "wb") as f:
                        pickle.dump(out, f)
                    code = 0
                except BaseException:
                    if w == 0 or not isinstance(sys.exc_info()[1], Exception):
                        traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        failed = False
        for pid in pids:
            _, status = os.waitpid(pid, 0)
            failed = failed or status != 0
        if failed:
            raise RuntimeError("explorer worker failed in section %s" % name)
        for w in range(jobs):
            p = os.path.join(tmp, "%d.out" % w)
            with open(p, "rb") as f:
                o = pickle.load(f)
            os.remove(p)
            sec.cases += o["n"]
            sec.decided += o["decided"]
            sec.outcomes |= o["outcomes"]
            sec.nontrivial |= o["nontrivial"]
            sec.states |= o["states"]
            sec.transitions += o["transitions"]
            sec.violations += o["violations"]
            sec.samples += o["samples"]
        os.rmdir(tmp)
        sec.violations.sort(key=lambda v: v["index"])
        sec.samples.sort(key=lambda s: s[0])
        sec.samples = [s[1] for s in sec.samples][:2]
        sec.wall = time.time() - t0
        if os.environ.get("VERIF_FAILFAST") and any(v["key"] not in self.known_keys() for v in sec.violations):
            # development runs
            print("VIOLATION in section", name, sec.violations[0]["message"][:300])
            raise SystemExit(1)
        if os.environ.get("VERIF_VERBOSE"):
            print(
                "  [%s] %s: cases=%d decided=%d outcomes=%d nontrivial=%d states=%d transitions=%d violations=%d %.1fs"
                % (self.pid, name, sec.cases, sec.decided, len(sec.outcomes), len(sec.nontrivial),
                   len(sec.states), sec.transitions, len(sec.violations), sec.wall),
                flush=True,
            )
            for v in sec.violations[: int(os.environ["VERIF_VERBOSE"])]:
                print("     index", v["index"], v["case"][:300], "|", v["message"][:700 if os.environ.get("VERIF_SHORT") else 2500], flush=True)
        return sec

    def _worker(self, w, jobs, cases, fn, chunk):
        out = dict(n=0, decided=0, outcomes=set(), nontrivial=set(), states=set(), transitions=0,
                   violations=[], samples=[])
        wdir = os.path.join(env.SCRATCH, "w%d.%d" % (len(self.sections), w))
        os.makedirs(wdir, exist_ok=True)
        os.chdir(wdir)
        signal.signal(signal.SIGALRM, _alarm)

        def account(i, case, res):
            out["n"] += 1
            out["decided"] += 1
            if isinstance(res, Violation):
                out["violations"].append(
                    dict(index=i, message=res.message, key=res.key, case=repr(case)[:6000],
                         details={k: _plain(v) for k, v in res.details.items()}))
                return
            if isinstance(res, Outcome):
                k, nontrivial = h(res.key), res.nontrivial
                out["decided"] += res.count - 1
                if res.states:
                    out["states"].update(res.states)
                out["transitions"] += res.transitions
            else:
                k, nontrivial = h(res), True
            out["outcomes"].add(k)
            if nontrivial:
                out["nontrivial"].add(k)
                if len(out["samples"]) < 1 and i > 5:
                    out["samples"].append((i, "%s -> %s" % (repr(case)[:1200], repr(getattr(res, "key", res))[:800])))

        def mine():
            if self.replay:
                lo = self.replay[1]
                yield [(lo, next(itertools.islice(iter(cases() if callable(cases) else cases), lo, None)))]
                return
            if chunk == 1:
                for i, c in enumerate(cases() if callable(cases) else cases):
                    if i % jobs == w:
                        yield [(i, c)]
            else:
                it = enumerate(cases() if callable(cases) else cases)
                for b in itertools.count():
                    part = list(itertools.islice(it, chunk))
                    if not part:
                        return
                    if b % jobs == w:
                        yield part

        for part in mine():
            if len(out["violations"]) >= self.max_report(out["violations"]):
                break
            signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
            try:
                if chunk == 1:
                    i, c = part[0]
                    try:
                        r = fn(c)
                    except Violation as v:
                        r = v
                    account(i, c, r)
                else:
                    for (i, c), r in zip(part, fn([c for _, c in part])):
                        account(i, c, r)
            except CaseTimeout:
                account(part[0][0], part[0][1], Violation("no result within %d s" % CASE_TIMEOUT))
            except Exception:
                # the code under test failed in a way the case did not expect
                account(part[0][0], part[0][1], Violation("unexpected exception: " + traceback.format_exc()[-3000:]))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(env.SCRATCH)
        return out

    def max_report(self, violations):
        known = self.known_keys()
        return MAX_REPORT + sum(1 for v in violations if v["key"] in known)

    # -- reporting -----------------------------------------------------------
    def known_keys(self):
        if not hasattr(self, "_known"):
            self._known = {}
            p = os.path.join(env.VERIF, "known_findings.json")
            if os.path.exists(p):
                with open(p) as f:
                    for e in json.load(f)["findings"]:
                        if e["property"] == self.pid and "key" in e:
                            self._known[e["key"]] = e["what"]
        return self._known

    def finish(self):
        known = self.known_keys()
        new, old = [], {}
        for s in self.sections:
            for v in s.violations:
                if v["key"] is not None and v["key"] in known:
                    old.setdefault(v["key"], v)
                else:
                    new.append((s.name, v))
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        if self.replay:
            for name, v in new:
                print("reproduced %s #%d\n%s" % (name, v["index"], v["message"]))
            return 1 if new else 0
        self._evidence(len(new))
        if new and os.environ.get("VERIF_SHORT"):
            return 1
        if new:
            name, v = new[0]
            path = os.path.join(env.VERIF, "evidence", "replay-%s.json" % self.pid)
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, section=name, index=v["index"], message=v["message"],
                               case=v["case"], details=v["details"], tier=self.tier,
                               how="%s %s/run.py %s %s --replay %s" % (sys.executable, env.VERIF, self.pid, self.tier, path),
                               others=[(n, x["index"], x["message"][:400]) for n, x in new[1:6]]), f, indent=1)
            print("section=%s case=%s" % (name, v["case"][:600]))
            print(v["message"][:3000])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        tot = sum(s.cases for s in self.sections)
        print("%s ok: %d cases in %d sections, %.1f s" % (self.pid, tot, len(self.sections), time.time() - self.start))
        return 0

    def _evidence(self, nviol):
        S = self.sections
        cases = sum(s.cases for s in S)
        samples = [x for s in S for x in s.samples][:12]
        secs = {
            s.name: dict(cases=s.cases, inputs_decided=s.decided, distinct_outcomes=len(s.outcomes),
                         distinct_nontrivial_outcomes=len(s.nontrivial),
                         model_states=len(s.states), model_transitions=s.transitions,
                         wall_s=round(s.wall, 2), rule=s.rule) for s in S
        }
        cov = dict(sections=secs, samples=samples, exhaustive=True)
        if self.level == "model_checking":
            cov.update(states=sum(len(s.states) for s in S), transitions=sum(s.transitions for s in S),
                       traces_validated_against_impl=cases,
                       distinct_observed_results=sum(len(s.outcomes) for s in S))
        else:
            cov.update(evaluations=sum(s.decided for s in S), distinct_nontrivial=sum(len(s.nontrivial) for s in S),
                       rule="; ".join("%s: %s" % (s.name, s.rule) for s in S))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.start, 2), violations=nviol)
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


class Outcome:
    """what one passing case showed: key identifies the observed result"""

    __slots__ = ("key", "nontrivial", "states", "transitions", "count")

    def __init__(self, key, nontrivial=True, states=(), transitions=0, count=1):
        self.count = count  # how many inputs of the property this execution decided
        self.key = key
        self.nontrivial = nontrivial
        self.states = states
        self.transitions = transitions


def _plain(v):
    try:
        json.dumps(v)
        return v
    except Exception:
        return repr(v)
