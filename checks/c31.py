"""C31: returners. syslog against loopback UDP servers (all combinations of options and
results; all interleavings of two parsers' sendings in two threads), file (all ways to name
it, all histories of inputs), terminal (all small texts over the coloured words)."""
import io
import itertools
import json
import logging
import logging.handlers
import os
import re
import shutil
import socket
import sys
import threading
import time
import types

from mc import obs
from mc.core import Outcome, Violation, h, same

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of results x options x histories under real returners, and of all interleavings of two sending threads under a controlled scheduler"
ASSUMPTIONS = [
    "colorama is replaced by a stand-in whose init() does nothing when it is not installed",
    "sending and waiting are where threads may be switched",
]
DEEP = "thorough" in sys.argv

logging.disable(logging.NOTSET)  # sending goes through logging; other messages go nowhere
logging.getLogger().addHandler(logging.NullHandler())

# ------------------------------------------------------------------- syslog
HOSTS = ["127.0.0.1", "127.0.0.2"]
DEAD = "nosuchhost"  # cannot be resolved
GROUPS = {
    "star": ("<group name='arp*'>\nip {{ ip }}\n</group>", ["arp"]),
    "dict": ("<group name='arp**'>\nip {{ ip }}\n</group>", ["arp"]),
    "plain": ("<group name='arp'>\nip {{ ip }}\n</group>", ["arp"]),
    "deep": ("<group name='x.y.arp*'>\nip {{ ip }}\n</group>", ["x", "y", "arp"]),
    "none": ("<group>\nip {{ ip }}\n</group>", []),
    "child": ("<group name='i**'>\nint {{ i }}\n<group name='v*'>\n vr {{ v | to_int }}\n</group>\n</group>", ["i", "v"]),
}
TEXTS = {"0": "zz", "1": "ip 10.0.0.1", "2": "ip 10.0.0.2\nip é<&", "3": "int A\n vr 1\n vr 2", "4": "int B"}


real_getaddrinfo = socket.getaddrinfo


def getaddrinfo(host, *a, **kw):
    if host == DEAD:
        raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
    return real_getaddrinfo(host, *a, **kw)


class Servers:
    def __init__(self):
        for _ in range(50):
            a = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            b = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            a.bind((HOSTS[0], 0))
            self.port = a.getsockname()[1]
            try:
                b.bind((HOSTS[1], self.port))
                break
            except OSError:
                a.close()
                b.close()
        self.socks = [a, b]
        for s in self.socks:
            s.setblocking(False)

    def read(self):
        out = []
        for s in self.socks:
            got = []
            while True:
                try:
                    got.append(s.recv(65536).decode("utf-8"))
                except BlockingIOError:
                    break
            out.append(got)
        return out

    def close(self):
        [s.close() for s in self.socks]


def at(datum, path):
    if isinstance(datum, dict):
        for p in path:
            if not isinstance(datum, dict) or p not in datum:
                return None
            datum = datum[p]
    elif isinstance(datum, list):
        datum = [at(d, path) for d in datum]
        return None if None in datum else datum
    return datum


def messages(results, path, iterate):
    out = []
    for datum in results if isinstance(results, list) else [results]:
        item = at(datum, path) if datum else None
        if not item:
            continue
        out += list(item) if isinstance(item, list) and iterate else [item]
    return [json.dumps(i) for i in out]


def opts_cases():
    # facility (written, priority), how options are written
    for g in GROUPS:
        for texts in itertools.chain([()], itertools.product(TEXTS, repeat=1), itertools.product(TEXTS, repeat=2), itertools.product("0124", repeat=3) if DEEP else ()):
            yield g, texts


FACILITIES = {None: 77, "16": 16, "local3": 19, "0": 0}


def output_tag(style, o):
    o = dict((k, v) for k, v in o.items() if v is not None)
    if style == "attributes":
        return "<output %s/>" % " ".join('%s="%s"' % (k, v) for k, v in o.items())
    body = []
    for k, v in o.items():
        if style == "python" and (isinstance(v, (list, bool)) or k == "port"):
            body.append("%s = %s" % (k, v))
        else:
            body.append("%s = %r" % (k, v))
    return "<output load='python'>\n%s\n</output>" % "\n".join(body)


def opts_fn(case):
    g, texts = case
    group, path = GROUPS[g]
    base = obs.ttp(template=group)
    for t in texts:
        base.add_input(TEXTS[t])
    socket.getaddrinfo = getaddrinfo
    sv = Servers()
    n = 0
    try:
        for res, style, fac, it, servers, p in itertools.product(
                ("per_input", "per_template"), ("attributes", "python"), FACILITIES, (None, True, False),
                ([HOSTS[0]], [HOSTS[1], HOSTS[0]], [DEAD, HOSTS[1]], []), ("path", "none", "missing")):
            if (style == "attributes" and len(servers) != 1) or (fac and it):
                continue
            o = {"returner": "syslog", "port": sv.port, "facility": fac if style == "attributes" or not (fac or "").isdigit() else int(fac), "iterate": it, "interval": "0",
                 "servers": servers[0] if style == "attributes" or servers == [HOSTS[0]] else servers or None,
                 "path": {"path": ".".join(path) or None, "none": None, "missing": "no.such"}[p]}
            if style == "python":
                o["interval"] = 0.01
                o = dict(o, **{k: (float(v) if k == "interval" else v) for k, v in o.items()})
            t = "<template results='%s'>\n%s\n%s\n</template>" % (res, group, output_tag(style, o))
            q = obs.ttp(template=t)
            plain = obs.ttp(template="<template results='%s'>\n%s\n</template>" % (res, group))
            for x in texts:
                q.add_input(TEXTS[x])
                plain.add_input(TEXTS[x])
            plain.parse(one=True)
            results = plain.result()[0]
            with obs.captured():
                r = obs.attempt(q.parse, one=True)
                back = obs.attempt(q.result)
            got = sv.read()
            if isinstance(r, obs.Raised) or not same(back, [results]):
                raise Violation("%r with texts %r: %r, results %r, without the output %r" % (o, texts, r, back, [results]), template=t)
            want = [[], []]
            for i, host in enumerate(HOSTS):
                if host in servers:
                    want[i] = ["<%d>%s" % (FACILITIES[fac] << 3 | 6, m) for m in messages(results, {"path": path, "none": [], "missing": ["no", "such"]}[p], it is not False)]
            if got != want:
                raise Violation("%r with texts %r: expected at the servers %r, received %r" % (o, texts, want, got), template=t)
            n += 1
    finally:
        sv.close()
    return Outcome(h(case), any(texts), count=n, states=[h((case, n))], transitions=n)


# ---- results of all kinds
DATA = [{}, {"g": []}, {"g": ""}, {"g": 0}, {"g": {}}, {"g": [{"n": 1}, {"n": "x"}]}, {"g": {"n": 2}}, {"g": "text"}, {"g": [0, "", []]}, {"x": 1}, {"g": {3, 4}}]


def kinds_cases():
    for k in range(0, 5 if DEEP else 4):
        for ds in itertools.product(range(len(DATA)), repeat=k):
            yield ds


def kinds_fn(ds):
    data = [DATA[d] for d in ds]
    socket.getaddrinfo = getaddrinfo
    sv = Servers()
    n = 0
    try:
        for one_item in ([False, True] if len(data) == 1 else [False]):
            for it in ("true", "false"):
                t = "<group name='z'>\nv {{ v }}\n</group>\n<output returner='syslog' servers='%s' port='%d' interval='0' path='g' iterate='%s' functions='own'/>" % (HOSTS[0], sv.port, it)
                p = obs.ttp()
                p.add_function(lambda d: data[0] if one_item else data, scope="output", name="own")
                p.add_template(t)
                p.add_input("v 1")
                with obs.captured():
                    r = obs.attempt(p.parse)
                got = sv.read()[0]
                want = []
                for d in data:
                    item = d.get("g")
                    if item:
                        # a set cannot be sent as JSON
                        want += [json.dumps(i) for i in (item if isinstance(item, list) and it == "true" else [item]) if not isinstance(i, set)]
                want = ["<%d>%s" % (77 << 3 | 6, m) for m in want]
                if isinstance(r, obs.Raised) or got != want:
                    raise Violation("results %r, iterate %s: expected at the server %r, received %r, %r" % (data, it, want, got, r), template=t)
                n += 1
    finally:
        sv.close()
    return Outcome(h(ds), bool(ds), count=n, states=[h((ds, n))], transitions=n)


# ---- two threads
class Turns:
    """runs threads one at a time; at each point the schedule says which goes on"""

    def __init__(self, prefix, n):
        self.prefix, self.taken, self.sizes = list(prefix), [], []
        self.cond = threading.Condition()
        self.live = list(range(n))
        self.ids = {}
        self.current = None

    def choose(self):
        if not self.live:
            self.current = None
            return
        i = self.prefix[len(self.taken)] if len(self.taken) < len(self.prefix) else 0
        self.sizes.append(len(self.live))
        self.taken.append(i)
        self.current = self.live[i]

    def point(self):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        with self.cond:
            # leave the choice to thread order: 0 is always the first live thread
            self.choose()
            self.cond.notify_all()
            while self.current != me:
                if not self.cond.wait(60):
                    raise RuntimeError("turn lost")

    def run(self, bodies):
        errors = []

        def body(i):
            with self.cond:
                self.ids[threading.get_ident()] = i
                while self.current != i:
                    self.cond.wait(60)
            try:
                bodies[i]()
            except BaseException as e:
                errors.append("%d: %r" % (i, e))
            with self.cond:
                self.live.remove(i)
                self.choose()
                self.cond.notify_all()

        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(bodies))]
        [t.start() for t in ts]
        while len(self.ids) < len(ts):
            time_sleep(0.0001)
        with self.cond:
            self.choose()
            self.cond.notify_all()
        [t.join() for t in ts]
        return errors


time_sleep = time.sleep


def thread_cases():
    # what each of two or three threads sends: servers, number of items
    sends = [((0,), 1), ((1,), 1), ((0,), 2), ((0, 1), 1)]
    for a, b in itertools.product(sends, repeat=2):
        for start in itertools.product((0, 1), repeat=3):
            yield (a, b), start
    if DEEP:
        for start in itertools.product((0, 1), repeat=4):
            yield (((0, 1), 1), ((1, 0), 1)), start
            yield (((0,), 3), ((0,), 2)), start
        for start in itertools.product((0, 1, 2), repeat=4):
            yield (sends[0],) * 3, start
            yield (sends[0], sends[1], sends[0]), start


def thread_fn(case):
    case, start = case
    sv = Servers()
    saved = {k: getattr(logging.handlers.SysLogHandler, k) for k in ("__init__", "handle", "close")}
    turns = [None]

    def wrap(f):
        def g(*a, **kw):
            turns[0] and turns[0].point()
            return f(*a, **kw)
        return g

    def sleep(s):
        if turns[0] and threading.get_ident() in turns[0].ids:
            turns[0].point()
        else:
            time_sleep(s)

    parsers = []
    for i, (servers, k) in enumerate(case):
        t = "<group name='a*'>\nip {{ ip }}\n</group>\n<output load='python'>\nreturner = 'syslog'\nservers = %r\nport = %d\npath = 'a'\n</output>" % ([HOSTS[s] for s in servers], sv.port)
        parsers.append((obs.ttp(template=t), "\n".join("ip %d.%d" % (i, j) for j in range(k))))

    def body(i):
        p, text = parsers[i]
        p.clear_input()
        p.clear_result()
        p.add_input(text)
        p.parse(one=True)

    n = points = 0
    kinds = set()
    try:
        for i in range(len(parsers)):
            body(i)  # imports done
        sv.read()
        for k, f in saved.items():
            setattr(logging.handlers.SysLogHandler, k, wrap(f))
        time.sleep = sleep
        prefix = list(start)
        while True:
            turns[0] = Turns(prefix, len(case))
            errors = turns[0].run([lambda i=i: body(i) for i in range(len(case))])
            got = sv.read()
            want = [sorted('<622>{"ip": "%d.%d"}' % (i, j) for i, (servers, k) in enumerate(case) if s in servers for j in range(k)) for s in (0, 1)]
            tk = turns[0]
            if errors or [sorted(g) for g in got] != want or any(  # each thread's items keep their order
                    [m for m in g if '"%d.' % i in m] != sorted(m for m in g if '"%d.' % i in m) for g in got for i in range(len(case))):
                raise Violation("threads sending %r (servers, items) with schedule %r: %s expected at the servers %r, received %r" % (case, tk.taken, errors, want, got))
            n += 1
            points += len(tk.taken)
            kinds.add(repr(got))
            # next schedule
            taken, sizes = tk.taken, tk.sizes
            while taken and taken[-1] + 1 >= sizes[len(taken) - 1]:
                taken.pop()
            if len(taken) <= len(start):
                break
            prefix = taken[:-1] + [taken[-1] + 1]
    finally:
        turns[0] = None
        time.sleep = time_sleep
        for k, f in saved.items():
            setattr(logging.handlers.SysLogHandler, k, f)
        sv.close()
    return Outcome(h((case, sorted(kinds))), len(kinds) > 1, count=n, states=[h((case, k)) for k in kinds], transitions=points)


# ------------------------------------------------------------------- file
FTEXT = {"a": "swa# show\nint 1\nint 2", "b": "swb# show\nint 3", "n": "int 4", "z": "zz", "u": "swa# show\nint é", "m": "mark X\nint 5"}
NAMES = {
    # written -> name for a host, None when it names the moment
    "o.txt": lambda host: "o.txt", "x y": lambda host: "x y", "{host}.txt": lambda host: host and host + ".txt",
    "%Y/..": None, "d_%%_{host}_%%": lambda host: host and "d_%%_%s_%%" % host, None: None, "r_%Y.txt": lambda host: "r_" + time.strftime("%Y") + ".txt",
    "{other}": lambda host: "val", "{rec}": "rec", "{host}{other}": lambda host: host and host + "val",
}
del NAMES["%Y/.."]
URLS = {None: "Output", "./o1": "o1", "./o1/": "o1", "o1/o2/o3": "o1/o2/o3", "ABS": "abs/x", "./{host}/": "{host}"}
FORMATS = ["raw", "json", "pprint", "csv"]


def file_cases():
    for scope in ("template", "group"):
        for seq in itertools.chain.from_iterable(itertools.product(FTEXT, repeat=k) for k in range(1, 4 if DEEP else 3)):
            for name in (None, "nm"):
                yield scope, seq, name


def file_fn(case):
    scope, seq, oname = case
    n = 0
    states = []
    for filename, url, fmt, pre in itertools.product(NAMES, URLS, FORMATS, (False, True)):
        if sum((url not in (None, "./o1"), fmt != "json", pre)) > 1:
            continue
        if scope == "group" and not oname:
            continue
        if fmt == "csv" and scope == "group":
            continue
        root = os.path.join(os.getcwd(), "f")
        shutil.rmtree(root, ignore_errors=True)
        os.mkdir(root)
        folder = URLS[url]
        o = {"returner": "file", "format": fmt, "filename": filename, "url": os.path.join(root, folder) if url == "ABS" else url, "name": oname}
        tag = "<output %s/>" % " ".join('%s="%s"' % (k, v) for k, v in o.items() if v is not None)
        group = "<vars>\nhost = 'gethostname'\nother = 'val'\nrec = 'own'\n</vars>\n<group name='i*'%s>\nint {{ i }}\n</group>\n<group name='k'>\nmark {{ k | record('rec') | void }}\n</group>\n" % (" output='nm'" if scope == "group" else "")
        t = group + tag
        old = os.getcwd()
        os.chdir(root)
        try:
            if pre:
                os.makedirs(folder)
                for f in ("o.txt", "swa.txt"):
                    with open(os.path.join(folder, f), "w") as fd:
                        fd.write("old " * 100)
            before = time.time()
            p = obs.ttp(template=t)
            plain = obs.ttp(template=group.replace(" output='nm'", ""))
            for s in seq:
                p.add_input(FTEXT[s])
                plain.add_input(FTEXT[s])
            plain.parse(one=True)
            results = plain.result()[0]
            with obs.captured():
                r = obs.attempt(p.parse, one=True)
            after = time.time()
            files = {}
            for d, _, fs in os.walk("."):
                for f in fs:
                    with open(os.path.join(d, f), encoding="utf-8") as fd:
                        files[os.path.relpath(os.path.join(d, f))] = fd.read()
        finally:
            os.chdir(old)
        note = "%s with texts %r, %s files there: " % (tag, seq, "some" if pre else "no")
        if isinstance(r, obs.Raised):
            raise Violation(note + repr(r), template=t)
        # what each file must hold
        formatted = obs.ttp(template=group.replace(" output='nm'", "") + "<output format='%s'/>" % fmt)
        want = {}
        if pre:
            want = {os.path.join(folder, f): "old " * 100 for f in ("o.txt", "swa.txt")}
        units = [(seq[-1], results, seq)] if scope == "template" else [(s, one(group, s), (s,)) for s in seq if s != "z"]
        loose = False
        for s, data, texts in units:
            host = {"a": "swa", "u": "swa", "b": "swb"}.get(s)
            if scope == "group":
                content = fmt_one(data, fmt)
            else:
                q = obs.ttp(template=group + "<output format='%s'/>" % fmt)
                for x in texts:
                    q.add_input(FTEXT[x])
                q.parse(one=True)
                content = q.result()[0]
            content = content if isinstance(content, str) else str(content)
            if filename is None:
                name = None
            else:
                # a value recorded in another input is not the one of this input
                name = NAMES[filename](host) if filename != "{rec}" else ("X" if s == "m" else "own")
                if name is None:
                    loose = True  # no host name to name the file with: some other file
                    continue
            want[os.path.join(folder, name) if name else (folder, oname)] = content
        left = dict(files)
        for k, content in want.items():
            if isinstance(k, tuple):
                # output_<time>.txt, the name of the output before it
                names = [f for f in left if re.fullmatch(re.escape(os.path.join(folder, (oname + "_" if oname else "") + "output_")) + r"\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d\.txt", f)]
                k = names[0] if names else "output_<time>.txt"
            if left.pop(k, None) != content:
                raise Violation(note + "%s must hold %r, files are %r" % (k, content, files), template=t)
        if left and not loose:
            raise Violation(note + "unexpected files %r" % left, template=t)
        n += 1
        states.append(h(sorted(files.items())))
    return Outcome(h(case), True, count=n, states=states, transitions=n * len(seq))


class Meanwhile:
    """another process creating folders just before this one creates its k-th"""

    def __init__(self):
        self.k = self.what = None
        self.seen = 0
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if event != "os.mkdir" or self.k is None:
            return
        if self.seen != self.k:
            self.seen += 1
            return
        self.k = None  # what follows is done by the other process
        made, whole, other = self.what
        os.mkdir(os.fspath(args[0]))
        if whole:
            os.makedirs(made, exist_ok=True)
        if other:
            with open(os.path.join(made if whole else os.fspath(args[0]), "other.txt"), "w") as fd:
                fd.write("other")


MEANWHILE = []


def race_cases():
    for folder in ("a", "a/b", "a/b/c", "./a/b", "a/b/"):
        for there in range(folder.strip("./").count("/") + 1):
            for whole, other in itertools.product((False, True), repeat=2):
                for fmt in ("json", "pprint"):
                    yield folder, there, whole, other, fmt


def race_fn(case):
    folder, there, whole, other, fmt = case
    if not MEANWHILE:
        MEANWHILE.append(Meanwhile())
    m = MEANWHILE[0]
    n, states = 0, []
    for k in range(6):
        root = os.path.join(os.getcwd(), "f")
        shutil.rmtree(root, ignore_errors=True)
        os.mkdir(root)
        old = os.getcwd()
        os.chdir(root)
        try:
            part = "/".join([x for x in folder.split("/") if x not in (".", "")][:there])
            if part:
                os.makedirs(part)
            t = '<group name="i*">\nint {{ i }}\n</group>\n<output returner="file" format="%s" url="%s" filename="o.txt"/>' % (fmt, folder)
            p = obs.ttp("int 1\nint 2\n", t)
            m.seen, m.what, m.k = 0, (os.path.abspath(folder), whole, other), k
            with obs.captured():
                r = obs.attempt(p.parse, one=True)
            happened, m.k = m.k is None, None
            files = {}
            for d, _, fs in os.walk("."):
                for f in fs:
                    with open(os.path.join(d, f), encoding="utf-8") as fd:
                        files[f] = os.path.relpath(d), fd.read()
        finally:
            m.k = None
            os.chdir(old)
        note = "folder %r, first %d there, another process makes %s before creation %d: " % (folder, there, "all" if whole else "the same one", k)
        if isinstance(r, obs.Raised):
            raise Violation(note + repr(r), template=t)
        files.pop("other.txt", None)
        q = obs.ttp("int 1\nint 2\n", t.replace('returner="file"', 'returner="self"').replace('url="%s" filename="o.txt"' % folder, ""))
        q.parse(one=True)
        want = {"o.txt": (os.path.relpath(folder), q.result()[0])}
        if files != want:
            raise Violation(note + "files %r, not %r" % (files, want), template=t)
        n += 1
        states.append(h((case, k)))
        if not happened:
            break
    return Outcome((case, files["o.txt"]), states=states, transitions=n, count=n)


def one(group, s):
    return obs.run1(group.replace(" output='nm'", ""), FTEXT[s])


def fmt_one(data, fmt):
    import pprint
    if fmt == "raw":
        return str(data)
    if fmt == "json":
        return json.dumps(data, sort_keys=True, indent=4, separators=(",", ": "))
    return pprint.pformat(data, indent=4)


# ------------------------------------------------------------------- terminal
ALPHA = ["ok", "no", "Fail", "Failed", "warning", "0", "3", "m", "[", ";", " ", "x", "\\n"]
LISTS = [{}, {"red": "ok"}, {"red": "0,3", "green": "m , 4"}, {"green": "Fail", "red": "Failed"}, {"yellow": "x no,[", "red": "no"}, {"red": "", "green": "ok", "yellow": ""},
         {"red": ".,x", "green": "\\d"}]
DEFAULT = {"red": "False,No,Failed,Error,Failure,Fail,false,no,failed,error,failure,fail", "green": "True,Yes,Success,Ok,true,yes,success,ok", "yellow": "Warning,warning"}
CODES = {"31": "red", "32": "green", "33": "yellow", "0": None}


def screen(s):
    """visible characters with their colours"""
    out, colour, i = [], None, 0
    while i < len(s):
        m = re.compile("\033\\[([0-9;]*)m").match(s, i)
        if m:
            for c in m.group(1).split(";"):
                colour = CODES.get(c, colour)
            i = m.end()
        else:
            out.append((s[i], colour))
            i += 1
    return out, colour


def words_of(lists):
    out = {}
    for colour in DEFAULT:
        for w in lists.get(colour, DEFAULT[colour]).split(","):
            if w.strip():
                out.setdefault(w.strip(), set()).add(colour)
    return out


def term_cases():
    for lists in range(len(LISTS)):
        for k in range(1, 4 if DEEP else 3):
            for t in itertools.product(ALPHA, repeat=k):
                yield lists, "".join(t)
    for w in ",".join(DEFAULT.values()).split(","):
        for a, b in itertools.product(["", "x", "No", "ok"], repeat=2):
            yield 0, a + w + b


def term_fn(case):
    li, text = case
    lists = LISTS[li]
    if "colorama" not in sys.modules:
        m = types.ModuleType("colorama")
        m.init = lambda *a, **kw: None
        sys.modules["colorama"] = m
    n = 0
    words = words_of(lists)
    for fmt in ("json", "raw", "pprint", "text"):
        if fmt == "text":
            if not text.strip():
                continue
            t = "<macro>\ndef F(data):\n    return %r\n</macro>\n<group name='g'>\nv {{ v | ORPHRASE }}\n</group>\n" % text
            extra = "macro='F' "
            want = text
        else:
            t, extra = "<group name='g'>\nv {{ v | ORPHRASE }}\n</group>\n", "format='%s' " % fmt
            if not text.strip() or text != text.strip():
                continue
            data = [{"g": {"v": text}}]
            want = {"raw": lambda: str(data).replace("\\n", "\n"), "json": lambda: fmt_one(data, "json"), "pprint": lambda: fmt_one(data, "pprint")}[fmt]()
        for coloured in (False, True):
            attrs = "".join('%s="%s" ' % kv for kv in lists.items())
            p = obs.ttp(data="v " + text if fmt != "text" else "v a", template=t + "<output returner='terminal' %s%s/>" % (extra, ("colour='' " + attrs) if coloured else ""))
            with obs.captured() as (out, _):
                r = obs.attempt(p.parse, one=True)
            shown = out.getvalue()
            note = "%r format %s, colours %s %r: " % (text, fmt, coloured, lists)
            if isinstance(r, obs.Raised):
                raise Violation(note + repr(r))
            cells, end = screen(shown) if coloured else ([(c, None) for c in shown], None)
            if "".join(c for c, _ in cells) != want + "\n":
                raise Violation(note + "expected to read %r, printed %r" % (want, shown))
            if coloured:
                spans = [(m.start(), m.start() + len(w), w) for w in words for m in re.finditer("(?=%s)" % re.escape(w), want)]
                for i, (c, colour) in enumerate(cells):
                    over = [s for s in spans if s[0] <= i < s[1]]
                    # all words at this place and those they overlap with
                    zone = set(over)
                    while True:
                        more = {s for s in spans if any(s[0] < z[1] and z[0] < s[1] for z in zone)} - zone
                        if not more:
                            break
                        zone |= more
                    colours = set().union(*[words[s[2]] for s in zone])
                    whole = any(s[0] <= min(z[0] for z in zone) and s[1] >= max(z[1] for z in zone) for s in over)
                    if not over and colour is not None:
                        raise Violation(note + "%r at %d is %s, printed %r" % (c, i, colour, shown))
                    if over and whole and len(colours) == 1 and {colour} != colours:
                        raise Violation(note + "%r at %d is %s, expected %s, printed %r" % (c, i, colour, colours, shown))
                if end is not None:
                    raise Violation(note + "the terminal is left %s" % end)
            n += 1
    return Outcome(h(case), True, count=n, transitions=n)


def check(ck):
    ck.explore("syslog", opts_cases, opts_fn, rule="all sets of up to %d texts x 6 groups x per_input, per_template x spellings x facility x iterate x servers x path" % (3 if DEEP else 2))
    ck.explore("syslog of all kinds", kinds_cases, kinds_fn, rule="all lists of up to %d of %d results of every kind, sent whole and item by item" % (4 if DEEP else 3, len(DATA)))
    ck.explore("syslog threads", thread_cases, thread_fn, rule="all interleavings of two%s threads at every wait, send, creation and end of a handler" % (" and three" if DEEP else ""))
    ck.explore("file", file_cases, file_fn, rule="all sequences of up to %d texts x scope x name of the output x names of files x folders x formats" % (3 if DEEP else 2))
    ck.explore("folders made meanwhile", race_cases, race_fn, rule="all folders of up to 3 levels x parts there x every point at which another process creates them")
    ck.explore("terminal", term_cases, term_fn, rule="all texts of up to %d pieces over %d pieces x colour lists x formats" % (3 if DEEP else 2, len(ALPHA)))
