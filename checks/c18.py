"""C18: parse(multi=True) terminates under every schedule and reports failing items."""
import itertools
import os
import subprocess
import sys

from mc import procs  # before the code under test is imported
from mc import env, obs
from mc.core import Outcome, Violation, h, same, first_difference

LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the implementation with fault injection: real forked workers under a controlled scheduler, "
             "all schedules times all subsets of failing items, all places of failure and all points at which a worker can be killed")
NOTE = ("Every schedule within the stated numbers of items and workers; one worker killed at any of its queue operations, with or without "
        "the lock of the queue it reads; fork start method only.")
DEEP = "thorough" in sys.argv


class Odd(Exception):
    """an exception that pickles but cannot be loaded again"""

    def __init__(self, a, b):
        Exception.__init__(self, "odd")


def boom(data, *a, **kw):
    for kind, exc in ERRORS.items():
        if kind in str(data):
            raise exc()
    return data, None


ERRORS = {
    "VAL": lambda: ValueError("bad value"),
    "KEY": lambda: KeyError("bad key"),
    "ODD": lambda: Odd(1, 2),
    "EXIT": lambda: SystemExit(3),
    "LOCAL": lambda: type("Local", (Exception,), {})("cannot be pickled"),
    "UNIC": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid"),
}


def boom_macro(data):
    boom(data)
    if "LAMBDA" in str(data):
        return lambda: data
    if "GEN" in str(data):
        return (x for x in data)
    if "DIE0" in str(data):
        os._exit(0)
    if "DIE1" in str(data):
        os._exit(1)
    return data


def boom_var(data, name):
    boom(data)
    return len(data)


PLACES = {
    "match": "<group name='x*'>\nitem {{ a | boom }}\n</group>",
    "macro": "<group name='x*'>\nitem {{ a | macro('bm') }}\n</group>",
    "group": "<group name='x*' boom=''>\nitem {{ a }}\n</group>",
    "group-macro": "<group name='x*' macro='bm'>\nitem {{ a }}\n</group>",
    "nested": "<group name='x*'>\nitem {{ a | _start_ | record('r') }}\n<group name='y' boom=''>\nitem {{ a }}\n</group>\n</group>",
    "input": "<input boom=''/>\n<group name='x*'>\nitem {{ a }}\n</group>",
    "input-macro": "<input macro='bm'/>\n<group name='x*'>\nitem {{ a }}\n</group>",
    "variable": "<vars>\nv = 'bv'\n</vars>\n<group name='x*'>\nitem {{ a }}\n{{ v | set('v') }}\n</group>",
    "tag": "<macro>\ndef bm2(data):\n    if 'VAL' in data:\n        raise ValueError('bad value')\n    if 'KEY' in data:\n        return {}['bad key']\n    if 'EXIT' in data:\n        raise SystemExit\n    return data\n</macro>\n<group name='x*'>\nitem {{ a | macro('bm2') }}\n</group>",
}


def build(place, items):
    p = obs.ttp()
    p.add_function(boom, scope="match", name="boom")
    p.add_function(boom, scope="group", name="boom")
    p.add_function(boom, scope="input", name="boom")
    p.add_function(boom_macro, scope="macro", name="bm")
    p.add_function(boom_var, scope="variable", name="bv")
    if place == "two":
        p.add_template(PLACES["match"], template_name="_root_template_")
        p.add_template(PLACES["macro"], template_name="_root_template_")
    else:
        p.add_template(PLACES[place])
    for i, kind in enumerate(items):
        if kind == "BADFILE":
            fn = os.path.join(os.getcwd(), "bad%d.txt" % i)
            with open(fn, "wb") as f:
                f.write(b"item \xff\xfe\xff\nitem 2\n")
            p.add_input(fn)
        elif kind == "GONE":
            fn = os.path.join(os.getcwd(), "gone%d.txt" % i)
            with open(fn, "wb") as f:
                f.write(b"item 2\n")
            p.add_input(fn)
            os.remove(fn)
        else:
            p.add_input("item %d%s\nitem z\n" % (i, kind))
    return p


def drive(place, items, mode):
    p = build(place, items)
    p.parse(**{mode: True})
    return p.result()


def one(place, items):
    if any(k.startswith("DIE") for k in items):
        return "dies"
    return obs.attempt(drive, place, items, "one")


def judge(case, want, got, w, killed=False):
    where = "case %r\nschedule %r" % (case, w.trace if w else "of the operating system")
    if isinstance(got, BaseException):
        raise Violation("parse(multi=True) does not come back: %s\n%s" % (got, where), schedule=repr(w.trace))
    items = case[1]
    if killed and isinstance(got, obs.Raised):
        return
    if want == "dies":
        if not isinstance(got, obs.Raised):
            raise Violation("a worker process died, no error was raised: %r\n%s" % (got, where))
        return
    if any(k in ("LAMBDA", "GEN") for k in items) and not isinstance(want, obs.Raised):
        # nothing can carry such a result over: an error is due
        if not isinstance(got, obs.Raised):
            raise Violation("an item's result got lost: %r\n%s" % (got, where))
        return
    if isinstance(want, obs.Raised):
        if not isinstance(got, obs.Raised):
            raise Violation("one=True raises %r, multi=True returned %r\n%s" % (want, got, where))
        # errors which cannot be carried over arrive as another type
        if not killed and want.type not in ("Odd", "Local") and (got.type != want.type or str(got.text) != str(want.text)):
            raise Violation("one=True raises %r, multi=True %r\n%s" % (want, got, where))
        return
    if isinstance(got, obs.Raised):
        raise Violation("multi=True raised %r\n%s" % (got, where))
    if not same(want, got):
        raise Violation("%s\n%s" % (first_difference(want, got), where))


def left_running(w, case):
    w.drain()
    if w.running():
        raise Violation("worker processes %r are left running\ncase %r\nschedule %r" % (w.running(), case, w.trace), schedule=repr(w.trace))


def run_case(case, kill=None, early=0):
    place, items, cpus = case[:3]
    want = one(place, items)
    procs.CPUS = cpus
    count = steps = killed = 0
    states = set()
    for w, got in procs.explore(lambda w: obs.attempt(drive, place, items, "multi"), kill=kill, early_timeouts=early):
        count += 1
        steps += len(w.trace)
        states.add(h(w.trace))
        killed += w.was_killed
        judge(case, want, got, w, w.was_killed)
        left_running(w, case)
    return Outcome((case, h(repr(want))), bool(items), states=states, transitions=steps, count=count), killed


# ------------------------------------------------------------ failing items
KINDS = ["VAL", "EXIT", "ODD", "LAMBDA", "DIE0"]


def fail_cases():
    out = []
    for place in PLACES:
        kinds = ["VAL", "KEY", "EXIT"] if place in ("tag", "group", "input", "nested", "variable") else list(ERRORS) if place == "match" else list(ERRORS) + ["LAMBDA", "GEN", "DIE0", "DIE1"] if "macro" in place else list(ERRORS)
        if place == "input-macro":
            kinds = [k for k in kinds if k not in ("LAMBDA", "GEN")]
        for n in (1, 2):
            for sub in itertools.product(["", "fail"], repeat=n):
                if "fail" not in sub:
                    continue
                for k in kinds:
                    for cpus in (1, 2):
                        out.append((place, [k if s else "" for s in sub], cpus))
        for a, b in itertools.permutations(kinds[:3], 2):
            out.append((place, [a, b], 2))
        for sub in itertools.product(["", kinds[0]], repeat=3):
            if place in ("match", "macro") or DEEP:
                out.append((place, list(sub), 2))
                if sub.count("") < 3 and (DEEP or place == "match" and sub.count("") == 1):
                    out.append((place, list(sub), 3))
    for k in ("BADFILE", "GONE"):
        for items in ([k], [k, ""], ["", k], ["VAL", k], [k, "VAL"], [k, k]):
            for cpus in (1, 2, 3):
                out.append(("match", items, cpus))
    for items in ([], [""], ["", "VAL"], ["VAL", ""]):
        for cpus in (1, 2, 3):
            out.append(("two", items, cpus if items else cpus))
            out.append(("match", items, cpus))
    if DEEP:
        for sub in itertools.product(["", "VAL"], repeat=4):
            out.append(("match", list(sub), 2))
    return sorted(out, key=lambda c: -len(c[1]) * c[2])


def fail_fn(case):
    return run_case(case)[0]


# ------------------------------------------------------------ killed workers
def kill_cases():
    out = []
    for items in ([], [""], ["", ""], ["VAL", ""], ["", "VAL"], ["", "", ""], ["", "VAL", ""]):
        for cpus in (1, 2, 3):
            if len(items) * cpus > (9 if DEEP else 4):
                continue
            for k in range(1, 2 * len(items) + 3):
                for lock in (False, True):
                    for early in (0, 1):
                        if early and len(items) * cpus > (6 if DEEP else 2):
                            continue
                        out.append(("match", items, cpus, k, lock, early))
    return sorted(out, key=lambda c: -len(c[1]) * c[2] - c[5])


def kill_fn(case):
    o, killed = run_case(case, kill=case[3:5], early=case[5])
    o.nontrivial = killed > 0
    o.key = (o.key, killed > 0)
    return o


# ---------------------------------------------------- bound to the real thing
SCRIPT = """
import sys, os, pickle
sys.path.insert(0, %(verif)r)
os.environ["VERIF_REAL_PROCS"] = "1"
import multiprocessing
multiprocessing.cpu_count = lambda: %(cpus)d
from mc import obs
from checks import c18
os.chdir(%(cwd)r)
%(more)s
got = obs.attempt(c18.drive, *%(case)r)
import multiprocessing
sys.stdout.buffer.write(b"RESULT" + pickle.dumps((got, len(multiprocessing.active_children()))))
sys.stdout.flush()
"""
SUICIDE = """
import signal
def die(data, *a, **kw):
    if "VAL" in str(data):
        os.kill(os.getpid(), signal.SIGKILL)
    return data, None
c18.boom = die
"""


def real_cases():
    for place, items in [("match", [""] * 9), ("match", ["", "VAL", "", "EXIT"]), ("macro", ["DIE0", "", ""]), ("macro", ["", "DIE1", ""]), ("macro", ["LAMBDA", "", ""]),
                         ("macro", ["ODD"]), ("match", ["LOCAL", "", ""]), ("input", ["", "KEY"]), ("group", ["VAL"] * 7), ("two", ["", "", "VAL"]), ("match", [])]:
        yield (place, items, "")
    yield ("match", ["", "VAL", "", ""], SUICIDE)
    yield ("input", ["VAL" + "x" * 300000] + [str(i) + "x" * 300000 for i in range(12)], SUICIDE)


def real_fn(case):
    import pickle

    place, items, more = case
    want = one(place, items) if not more else "dies"
    src = SCRIPT % dict(verif=env.VERIF, cpus=3, case=(place, items, "multi"), cwd=os.getcwd(), more=more)
    try:
        with open("script.py", "w") as f:
            f.write(src)
        r = subprocess.run([sys.executable, "script.py"], capture_output=True, timeout=100)
    except subprocess.TimeoutExpired:
        raise Violation("real processes: no end within 100 s, case %.300r" % (case,))
    if b"RESULT" not in r.stdout:
        raise Violation("real processes: no result for %.300r: %s" % (case, r.stderr[-1500:].decode("utf-8", "replace")))
    got, left = pickle.loads(r.stdout.split(b"RESULT", 1)[1])
    judge((place, items, 3), want, got, None)
    if left:
        raise Violation("real processes: %d workers left running, case %.300r" % (left, case))
    return Outcome((case, h(repr(got))), True, transitions=1)


def check(ck):
    ck.assumptions += [
        "a queue operation takes effect in one step, in the order the scheduler picks; a process touches nothing shared between two of them",
        "a put whose value cannot be pickled is dropped, as by the feeder thread of a multiprocessing.Queue",
        "a killed process loses the items it has taken and keeps what it has put; it may keep the reader's lock of the queue it is blocked at",
    ]
    ck.explore("failing items", fail_cases, fail_fn, rule="every subset of failing items, place and kind of failure, under every schedule: the caller gets the error of the first failing item, no process is left")
    ck.explore("killed worker", kill_cases, kill_fn, rule="one worker killed at each of its steps under every schedule: parse returns the results or raises")
    ck.explore("real processes", real_cases, real_fn, rule="the same under the operating system's own schedule")
