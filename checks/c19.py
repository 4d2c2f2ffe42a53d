"""C19: parser objects living in one process do not influence each other."""
import copy
import itertools
import os
import pickle
import sys
import threading

from mc import obs
from mc.core import Outcome, Violation, h, same, first_difference

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of interleavings of the real code: all merges of the call sequences of several parsers, all points at which "
             "one parser's call can be preempted by a whole run of another, compared with each parser alone in a fresh process")
NOTE = "Two parsers (three in one section); preemption points are calls (thorough: lines) of the package's own code; add_function(add_ttp=True) on a shared module is left out, it is documented to write to that module's globals."
DEEP = "thorough" in sys.argv

TEXT1 = "host sw1\ninterface Lo1\n ip 1.1.1.1/24\n desc one two\n mtu 1500\ninterface Lo2\n desc a\n desc b\n"
TEXT2 = "host r-2\ninterface Eth3\n ip 2.2.2.2/32\ninterface Lo1\n mtu 9\nend\n"


class Script:
    """the calls one user makes on one parser; each step takes and returns the state"""

    def __init__(self, name, tag):
        self.name, self.tag, self.p, self.log = name, tag, None, []

    def new(self):
        self.p = obs.ttp(vars={"v": "vars-" + self.tag, "who": self.tag}, dynamic_path_key_to_int=self.tag == "B")
        KINDS[self.name][0](self.p, self.tag)

    def template(self):
        self.p.add_template(KINDS[self.name][1].replace("@", self.tag))

    def input1(self):
        self.p.add_input(TEXT1 if self.tag != "B" else TEXT2)

    def parse(self):
        self.p.parse(one=True)
        self.log.append(copy.deepcopy(self.p.result()))

    def change(self):
        self.p.add_vars({"v": "changed-" + self.tag})
        self.p.add_lookup("t", text_data='{"Lo1": "new-%s"}' % self.tag, load="python")
        self.p.set_input(TEXT2 if self.tag != "B" else TEXT1)

    def again(self):
        self.p.clear_result()
        self.p.parse(one=True)
        self.log.append(copy.deepcopy(self.p.result(structure="dictionary")))

    def formatted(self):
        self.log.append(self.p.result(format="json"))
        self.log.append(repr(self.p.get_input_load()))

    STEPS = ("new", "template", "input1", "parse", "change", "again", "formatted")

    def run(self, *names):
        for n in names:
            getattr(self, n)()
        return self


def nothing(p, tag):
    pass


def functions(p, tag):
    def cust(data, *a, **kw):
        return "%s:%s" % (tag, data), None

    def gcust(data, *a, **kw):
        data["by"] = tag
        return data, None

    def getter(data, name):
        return "%s %d" % (tag, len(data))

    def mac(data):
        return data, {"m": tag}

    def icust(data, *a, **kw):
        return data.replace("desc", "descr") if tag == "B" else data, None

    p.add_function(cust, scope="match")
    p.add_function(gcust, scope="group")
    p.add_function(getter, scope="variable")
    p.add_function(mac, scope="macro")
    p.add_function(icust, scope="input")
    if tag == "A":
        p.add_function(cust, scope="match", name="upper")
        p.add_function(gcust, scope="group", name="void")


def schema_file(p, tag):
    # one file for all, each parser takes another column for key
    if not os.path.exists("c19.csv"):
        with open("c19.csv.%d" % os.getpid(), "w") as f:
            f.write("A,B,C\nLo1,Eth3,Lo2\nLo2,Lo1,Eth3\nEth3,Lo2,Lo1\n")
        os.rename("c19.csv.%d" % os.getpid(), "c19.csv")


def yang_modules(p, tag):
    d = "c19y" + tag
    if not os.path.isdir(d):
        tmp = "%s.%d" % (d, os.getpid())
        os.mkdir(tmp)
        for m in ("m", "n" + tag.lower()):
            with open(os.path.join(tmp, m + ".yang"), "w") as f:
                f.write('module %s { namespace "urn:%s"; prefix p; revision 2020-01-0%d; container i { list l { key name; leaf name { type string { length "%d..8"; } } } } }' % (m, m + tag, "ABC".index(tag) + 1, "ABC".index(tag) + 2))
        os.rename(tmp, d)


KINDS = {
    "plain": (nothing, "<group name='i*'>\ninterface {{ name }}\n ip {{ ip }}/{{ mask | to_int }}\n desc {{ desc | ORPHRASE | joinmatches('@') }}\n mtu {{ mtu | default('@') }}\n</group>"),
    "vars": (nothing, "<vars name='vv'>\nhn = 'gethostname'\nw = '@'\npat = 'Lo.'\n</vars>\n<group name='i.{{ who }}*'>\ninterface {{ name | re('pat') }}\n desc {{ desc | ORPHRASE }}\n{{ x | set('v') }}\n{{ y | set('w') }}\n</group>"),
    "macro": (nothing, "<macro>\ndef f(d):\n    return helper(d), {'f': '@'}\ndef helper(d):\n    return '@' + d\ndef g(d):\n    d['v'] = _ttp_['vars'].get('v')\n    d['gv'] = _ttp_['global_vars'].get('rec')\n    return d\ndef o(d):\n    return {'@': d}\ndef i(d):\n    return d.replace('Lo', '@')\n</macro>\n<input macro='i'/>\n<group name='i*' macro='g'>\ninterface {{ name | macro('f') }}\n mtu {{ mtu | record('rec') }}\n</group>\n<output macro='o'/>"),
    "lookup": (nothing, "<lookup name='t' load='python'>\n{'Lo1': 'tab-@', 'Lo2': {'x': '@'}, 'p': {'@': ['L*2', 'E*']}}\n</lookup>\n<group name='i*'>\ninterface {{ name | lookup('t', add_field='l') | gpvlookup('t.p', add_field='g') }}\n desc {{ desc | rlookup('t') }}\n</group>"),
    "record": (nothing, "<group name='h'>\nhost {{ host | record('hh') }}\n</group>\n<group name='i*' record='name'>\ninterface {{ name | record('last') }}\n mtu {{ mtu }}\n{{ from | set('hh') }}\n{{ l | set('last') }}\n</group>\n<group name='e'>\nend {{ end | set('last') }}\n</group>"),
    "functions": (functions, "<input icust=''/>\n<vars>\ng = 'getter'\n</vars>\n<group name='i*' gcust='' void=''>\ninterface {{ name | cust | upper }}\n descr {{ desc | ORPHRASE | macro('mac') }}\n{{ g | set('g') }}\n</group>"),
    "groups": (nothing, "<group name='i.{{ name }}' contains='desc' functions=\"contains('desc') | sformat('{name}-{v}', 's') | itemize('name', 'names.@')\">\ninterface {{ name | lower | upper }}\n desc {{ desc | ORPHRASE | split(' ') | joinmatches }}\n</group>"),
    "defaults": (nothing, "<group name='i*' default='d-@'>\ninterface {{ name | default({'n': []}) }}\n ip {{ ip | IP }}/{{ mask }}\n mtu {{ mtu | default(['@']) | joinmatches }}\n</group>"),
    "outputs": (nothing, "<group name='i*' output='o1'>\ninterface {{ name }}\n mtu {{ mtu }}\n</group>\n<group name='h'>\nhost {{ host }}\n</group>\n<output name='o1' functions=\"dict_to_list(key_name='@', path='i') | is_equal\" load='python'>\n[{'name': '@'}]\n</output>\n<output format='pprint'/>"),
    "templates": (nothing, "<template name='T' results='per_template'>\n<macro>\ndef m(d):\n    return d + '@'\n</macro>\n<group name='i*'>\ninterface {{ name | macro('m') }}\n</group>\n<input load='text'>\ninterface @9\n</input>\n</template>\n<template name='_root_template_'>\n<group name='l*'>\n{{ l | _line_ | contains('@', 'mtu') }}\n</group>\n</template>"),
    "schemas": (schema_file, "<vars>\nS = {'name': {'allowed': ['Lo1', '@9']}, 'mtu': {'allowed': ['@', '9']}}\n</vars>\n<lookup name='t' load='csv' include='./c19.csv' key='@'/>\n<group name='i*' validate='S, errors=\"e\"'>\ninterface {{ name | lookup('t', add_field='l') }}\n mtu {{ mtu }}\n</group>\n<group name='h*' cerberus='S'>\nhost {{ host | let('mtu', '@') }}\n</group>\n<output format='jinja2'>\n@ {{ _data_ }}\n</output>"),
    "validated": (nothing, "<vars>\nS = {'host': {'allowed': ['sw1', '@']}, 'n': {'type': 'list', 'minlength': 2}}\nT = {'n': {'allowed': ['@']}}\n</vars>\n<group name='n*'>\ninterface {{ name }}\n</group>\n<group name='_'>\nhost {{ host }}\n</group>\n<output validate='schema=\"S\", info=\"@ {host}\", errors=\"e\"'/>\n<output format='table' headers='valid, e, info' missing='@'/>"),
    "yang": (yang_modules, "<group name='m:i.l*'>\ninterface {{ name }}\n</group>\n<output validate_yangson=\"yang_mod_dir='./c19y@'\"/>"),
    "headers": (nothing, "<group name='t*' method='table'>\ninterface {{ name }}\nhost {{ h | sformat('@ {}') }}\n{{ h | uptimeparse | void }} mtu {{ m }}\n mtu {{ m | to_int | let('z', '@') }}\n</group>"),
}
BASE = {}


def alone(name, tag, steps):
    """what the script gives when it is the only one in a fresh process"""
    k = (name, tag, steps)
    if k not in BASE:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                got = obs.attempt(lambda: Script(name, tag).run(*steps).log)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(got, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            BASE[k] = pickle.load(f)
        os.waitpid(pid, 0)
        if isinstance(BASE[k], obs.Raised):
            raise Violation("%r raised alone: %r" % (k, BASE[k]))
    return BASE[k]


def compare(s, steps, note):
    want = alone(s.name, s.tag, steps)
    if not same(want, s.log):
        raise Violation("parser %s (%s) is influenced: %s\n%s\nalone %r\nobserved %r" % (s.tag, s.name, first_difference(want, s.log), note, want, s.log))


def preload():
    # baselines first, in children of a process in which no parser has run yet
    for name in KINDS:
        for tag in "ABC":
            for st in (LONG, SHORT, MID):
                obs.attempt(alone, name, tag, st)


SHORT = ("new", "template", "input1", "parse")
MID = ("new", "template", "input1", "parse", "change", "again")
LONG = Script.STEPS


def merges(ns):
    """all orders of ns[0] steps of the first, ns[1] of the second, ..."""
    if not any(ns):
        yield ()
        return
    for i, n in enumerate(ns):
        if n:
            rest = list(ns)
            rest[i] -= 1
            for m in merges(rest):
                yield (i,) + m


# ------------------------------------------------------------ interleaved calls
def call_cases():
    steps = LONG if DEEP else MID
    full = list(merges((len(steps), len(steps))))
    short = list(merges((4, 4)))
    for a, b in itertools.product(KINDS, repeat=2):
        if a == b or DEEP:
            for m in full[:: 1 if a == b or a in ("macro", "lookup", "record", "functions") else 3]:
                yield ((a, b), m, steps)
        else:
            for m in short:
                yield ((a, b), m, SHORT)
    for t in [("macro", "macro", "record"), ("functions", "lookup", "functions"), ("vars", "templates", "vars")]:
        for m in merges((4, 4, 4) if DEEP else (3, 3, 3)):
            yield (t, m, SHORT if DEEP else ("new", "template", "input1+parse"))


def call_fn(case):
    names, merge, steps = case
    scripts = [Script(n, "ABC"[i]) for i, n in enumerate(names)]
    pos = [0] * len(scripts)
    for i in merge:
        for st in steps[pos[i]].split("+"):
            getattr(scripts[i], st)()
        pos[i] += 1
    flat = tuple(x for s in steps for x in s.split("+"))
    for s in scripts:
        compare(s, flat, "order of calls %r, parsers %r, steps %r" % (merge, names, steps))
    return Outcome((names, h([s.log for s in scripts])), True, states=[h((names, merge[:k])) for k in (len(merge),)], transitions=len(merge))


# ------------------------------------------------------------ preemption
class Switch:
    """runs fn when the n-th event of the traced code is reached"""

    def __init__(self, n, fn, lines):
        self.n, self.fn, self.lines, self.count, self.where = n, fn, lines, 0, None

    def event(self, frame):
        self.count += 1
        if self.count == self.n:
            sys.settrace(None)
            self.where = "%s:%d %s" % (frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name)
            self.fn()
            self.fn = None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if event == "call" or (event == "line" and self.lines):
            self.event(frame)
        return self.trace if self.lines else None

    def run(self, body):
        sys.settrace(self.trace)
        try:
            body()
        finally:
            sys.settrace(None)


ROOT = os.path.dirname(os.path.realpath(obs.TTP.__file__))
PAIRS = [("macro", "macro"), ("record", "record"), ("functions", "functions"), ("lookup", "lookup"), ("vars", "vars"), ("groups", "record"), ("outputs", "outputs"), ("templates", "macro"), ("defaults", "plain"), ("headers", "groups"), ("schemas", "schemas"), ("validated", "validated"), ("yang", "yang")]


def preempt_cases():
    for a, b in PAIRS:
        for block in range(40):
            yield (a, b, block, 40, False)
    for a, b in PAIRS if DEEP else PAIRS[:3]:
        for block in range(400):
            yield (a, b, block, 400, True)


def preempt_fn(case):
    a, b, block, nblocks, lines = case
    steps = SHORT
    # number of events of the run of a
    s = Switch(-1, None, lines)
    me = Script(a, "A")
    s.run(lambda: me.run(*steps))
    total = s.count
    count = 0
    first = {}
    for n in range(1 + block, total + 1, nblocks):
        other = Script(b, "B")
        me = Script(a, "A")
        sw = Switch(n, lambda: other.run(*steps), lines)
        sw.run(lambda: me.run(*steps))
        for x in (me, other):
            if x.log or x is me:
                compare(x, steps, "%s preempted at event %d (%s) by a whole run of %s" % (a, n, sw.where, b))
        count += 1
        first[str(sw.where)] = 1
    if not count:
        return None
    return Outcome((a, b, sorted(first)), True, states=[h((a, b, w)) for w in first], transitions=count, count=count)


# ------------------------------------------------------------ threads
class Baton:
    """two threads, one runs at a time; they hand over at the points of the schedule"""

    def __init__(self, schedule):
        self.schedule = list(schedule)
        self.cond = threading.Condition()
        self.current = self.schedule[0] if self.schedule else 0
        self.done = [False, False]

    def wait(self, me):
        with self.cond:
            while self.current != me and not self.done[1 - me]:
                if not self.cond.wait(60):
                    raise RuntimeError("baton lost")

    def point(self, me):
        """one step of this thread is over"""
        with self.cond:
            if self.schedule:
                self.schedule.pop(0)
            self.current = self.schedule[0] if self.schedule else 1 - me
            if self.done[self.current]:
                self.current = 1 - self.current
            self.cond.notify_all()
        self.wait(me)

    def end(self, me):
        with self.cond:
            self.done[me] = True
            self.current = 1 - me
            self.cond.notify_all()


def thread_cases():
    pairs = PAIRS[:6] if not DEEP else PAIRS
    n = 3 if not DEEP else 5
    for a, b in pairs:
        for m in merges((n, n)):
            for stride in ((7, 40, 100) if not DEEP else (3, 7, 20, 40, 100)):
                yield (a, b, m, stride)


def thread_fn(case):
    a, b, schedule, stride = case
    for x in {a, b}:
        Script(x, "C").run(*SHORT)  # imports done, or a thread would wait while holding an import lock
    baton = Baton(schedule)
    scripts = [Script(a, "A"), Script(b, "B")]
    errors = []

    def body(i):
        count = [0]

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT) and event == "call":
                count[0] += 1
                if count[0] % stride == 0:
                    baton.point(i)
            return None

        try:
            baton.wait(i)
            sys.settrace(trace)
            scripts[i].run(*SHORT)
        except BaseException as e:
            errors.append((i, repr(e)))
        finally:
            sys.settrace(None)
            baton.end(i)

    ts = [threading.Thread(target=body, args=(i,)) for i in (0, 1)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors:
        raise Violation("threads failed: %r" % errors)
    for s in scripts:
        compare(s, SHORT, "two threads, switching every %d calls, schedule %r" % (stride, schedule))
    return Outcome((a, b), True, states=[h(case)], transitions=len(schedule))


# ------------------------------------------------------------ one inside the other
def nested_cases():
    for place in ("match", "group", "input", "output", "variable", "formatter", "construct"):
        for a in KINDS:
            for again in (False, True):
                yield (place, a, again)


def nested_fn(case):
    place, name, again = case
    inner = []
    shared = Script(name, "B")

    def run_inner():
        if again and shared.p is not None:
            shared.p.clear_result()
            shared.p.parse(one=True)
            shared.log.append(copy.deepcopy(shared.p.result()))
        else:
            s = shared if again else Script(name, "B")
            s.run(*SHORT)
            inner.append(s)

    def outer(with_inner):
        log = []

        def act(data, *a, **kw):
            if with_inner:
                run_inner()
            log.append(repr(data)[:200])
            return data

        def pair(data, *a, **kw):
            return act(data), None

        p = obs.ttp(vars={"v": "outer"})
        if place == "construct":
            act("new")
        p.add_function(pair if place == "match" else lambda d, *a: (d, None), scope="match", name="hook")
        p.add_function(pair if place == "group" else lambda d, *a, **k: (d, None), scope="group", name="ghook")
        p.add_function(pair if place == "input" else lambda d, *a, **k: (d, None), scope="input", name="ihook")
        p.add_function(act if place == "output" else lambda d, *a, **k: d, scope="output", name="ohook")
        p.add_function(act if place == "variable" else lambda d, n: "var", scope="variable", name="vhook")
        p.add_function(act if place == "formatter" else lambda d, **k: d, scope="formatters", name="fhook")
        p.add_template("<macro>\ndef f(d):\n    return 'outer ' + d\n</macro>\n<lookup name='t' load='python'>\n{'Lo1': 'outer'}\n</lookup>\n<input ihook=''/>\n<vars>\nvh = 'vhook'\n</vars>\n"
                       "<group name='i*' ghook='' functions=\"sformat('{name} {v} {rec}', 's')\">\ninterface {{ name | record('rec') | lookup('t', add_field='l') | hook | macro('f') | upper }}\n desc {{ d | ORPHRASE | default('none') }}\n{{ q | set('rec') }}\n{{ w | set('v') }}\n{{ z | set('vh') }}\n</group>\n"
                       "<output functions='ohook()' format='fhook'/>")
        p.add_input(TEXT1)
        p.add_input(TEXT2)
        p.parse(one=True)
        return log, copy.deepcopy(p.result())

    want = outer(False)
    got = outer(True)
    if place == "variable":
        pass
    if not same(want, got):
        raise Violation("the outer parser is influenced by %s run inside its %s function: %s\nalone %r\nobserved %r" % (name, place, first_difference(want, got), want, got))
    for s in inner:
        if s is not shared:
            compare(s, SHORT, "run inside a %s function of another parser" % place)
    if again and len(shared.log) > 1:
        for l in shared.log[1:]:
            if name != "record" and name != "macro" and not same(l, shared.log[0]):
                raise Violation("the inner parser's repeated parse changed: %s" % first_difference(shared.log[0], l))
    return Outcome((place, name, h(got)), bool(inner), transitions=len(inner))


def check(ck):
    preload()
    ck.assumptions += ["a parser alone in a freshly forked process shows what it does when it is the only one"]
    ck.explore("interleaved calls", call_cases, call_fn, rule="all merges of the call sequences of two (three) parsers with the same names bound to different things")
    ck.explore("preemption", preempt_cases, preempt_fn, rule="one parser's run preempted at every call (line) inside the package by a complete run of another (every line: three pairs, thorough: all pairs)")
    ck.explore("threads", thread_cases, thread_fn, rule="two threads handing over at call boundaries, all orders of the slices")
    ck.explore("nested", nested_cases, nested_fn, rule="a parser constructed and run, or run again, inside a function of another")
