"""C22: the cache of the function index. The real code runs in forked processes from
every enumerated state of the cache file, with every single (pair of) fault of its file
operations, and - under a controlled scheduler that owns every read and write of the
file - in every interleaving of several starting parsers. Every run has to give the
results of a run that found no cache, and so has the next run."""
import ast
import builtins
import errno
import io
import itertools
import os
import pickle
import re
import shutil
import subprocess
import sys
import threading

from mc import env, obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "crash and fault enumeration over every file operation of the real code, all torn states of the cache file, and stateless exploration of all interleavings of concurrent starts under a controlled scheduler"
ASSUMPTIONS = [
    "a cache that carries the version marks of the running version but was edited (other function names) is not told from a good one: damage is truncation, lost or zeroed blocks, trailing content and files that are not such a cache",
    "pickles with side effects are not explored",
]
DEEP = "thorough" in sys.argv

TEMPLATE = """<vars>
site = "S1"
seen = "none"
</vars>
<lookup name="L" load="python">
{"A": {"desc": "first"}}
</lookup>
<macro>
def m(data):
    return data + "!"
def om(data):
    return {"n": len(data), "data": data}
</macro>
<input macro="im"/>
<macro>
def im(data):
    return data.replace("XX", "int")
</macro>
<group name="g*" contains="n">
int {{ n | upper | record("seen") | macro("m") }}
 key {{ key | lookup("L", add_field="found") | let("site", "S1") }}
 ip {{ ip | IP | to_list | joinmatches }}
</group>
<group name="last">
end {{ e | to_int | set_copy }}
{{ was | set("seen") }}
</group>
<output macro="om"/>
""".replace(" | set_copy", "").replace('<input macro="im"/>\n', "")

DATA = """int a
 key A
 ip 1.1.1.1
 ip 2.2.2.2
int b
 key Z
end 7
"""
EXPECTED = [{"n": 1, "data": [{"g": [
    {"n": "A!", "key": "A", "found": {"desc": "first"}, "site": "S1", "ip": ["1.1.1.1", "2.2.2.2"]},
    {"n": "B!", "key": "Z", "site": "S1"}],
    "last": {"e": 7, "was": "B"}}]}]


def prime():
    """the files of the package are the same in every run: parse each of them once, and
    import its modules, before processes are forked"""
    parse, memo = ast.parse, {}

    def memoised(source, *a, **kw):
        if a or kw or not isinstance(source, str):
            return parse(source, *a, **kw)
        if source not in memo:
            memo[source] = parse(source)
        return memo[source]
    ast.parse = memoised
    top = os.path.join(env.REPO, "ttp")
    for root, _, files in os.walk(top):
        for f in files:
            if f.endswith(".py"):
                try:
                    with open(os.path.join(root, f), encoding="utf-8") as fd:
                        memoised(fd.read())
                except SyntaxError:
                    pass
                mod = os.path.relpath(os.path.join(root, f[:-3]), env.REPO).replace(os.sep, ".")
                if not f.startswith("__") and "_py2" not in f:
                    try:
                        __import__(mod)
                    except Exception:
                        pass


def workload():
    p = obs.ttp(template=TEMPLATE)
    p.add_input(DATA)
    p.parse(one=True)
    return p.result()


def in_child(fn):
    """fn() in a process of its own, forked before any parser exists"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            res = obs.attempt(fn)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(("raised", res.type, res.text) if isinstance(res, obs.Raised) else ("ok", res)))
            code = 0
        except Crash:
            code = 77
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out = f.read()
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 77:
        return "crashed"
    return pickle.loads(out) if out else ("no answer", status)


class Crash(BaseException):
    pass


folders = itertools.count()


class Folder:
    """a cache folder of its own, the file in it put into some state"""

    def __init__(self, content=None):
        self.path = os.path.abspath("cache%d" % next(folders))
        os.mkdir(self.path)
        self.file = os.path.join(self.path, NAME)
        if content is not None:
            self.put(content)
        os.environ["TTPCACHEFOLDER"] = self.path

    def put(self, content):
        with open(self.file, "wb") as f:
            f.write(content)

    def get(self):
        try:
            with open(self.file, "rb") as f:
                return f.read()
        except OSError as e:
            return type(e).__name__

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if os.path.isdir(self.path) and not os.path.islink(self.path):
            shutil.rmtree(self.path)
        else:
            os.remove(self.path)


NAME = "ttp_dict_cache.pickle"
GOOD = None


def good():
    """the file a run writes (name and content as the code under test chooses)"""
    global GOOD, NAME
    if GOOD is None:
        d = os.path.abspath("good")
        os.makedirs(d, exist_ok=True)
        os.environ["TTPCACHEFOLDER"] = d
        want(in_child(workload), "with no cache")
        files = os.listdir(d)
        if NAME not in files and len(files) == 1:
            NAME = files[0]
        try:
            with open(os.path.join(d, NAME), "rb") as f:
                GOOD = f.read()
        except FileNotFoundError:
            GOOD = b""
        shutil.rmtree(d)
    return GOOD


def want(got, note):
    if got != ("ok", EXPECTED):
        raise Violation("%s: expected %r, observed %r" % (note, EXPECTED, got))


def twice(note, runs=2):
    for i in range(runs):
        want(in_child(workload), "%s, run %d" % (note, i + 1))


# ------------------------------------------------------------ states of the file
def torn_cases():
    n = len(good())
    for k in range(n + 1):
        if DEEP or k % 8 == 0 or k < 64 or k > n - 64:
            yield "prefix", k
    step = 512
    blocks = range((n + step - 1) // step)
    for b in blocks:
        yield "zeros", (b,)
        yield "zeros from", b
        yield "ones", (b,)
        yield "dropped", b
        yield "repeated", b
    for pair in itertools.combinations(blocks, 2):
        yield "zeros", pair
        yield "swapped", pair
    if DEEP:
        for k in range(n):
            yield "prefix and zeros", k
        for k in range(3, len(blocks) + 1):
            for c in itertools.combinations(blocks, k):
                if k == 3 or k >= len(blocks) - 2:
                    yield "zeros", c
    else:
        for k in list(range(0, n, 128)) + list(range(n - 64, n)):
            yield "prefix and zeros", k
    for t in (b"\x00", b"\x00" * 512, b".", b"x", None):
        yield "tail", t


def torn(case):
    kind, a = case
    g = good()
    step = 512
    if kind == "prefix":
        return g[:a]
    if kind == "prefix and zeros":
        return g[:a] + b"\x00" * (len(g) - a)
    if kind == "zeros from":
        return g[:a * step] + b"\x00" * (len(g) - a * step)
    if kind in ("zeros", "ones"):
        out = bytearray(g)
        for b in a:
            lo, hi = b * step, min(len(g), (b + 1) * step)
            out[lo:hi] = (b"\x00" if kind == "zeros" else b"\xff") * (hi - lo)
        return bytes(out)
    parts = [g[i:i + step] for i in range(0, len(g), step)]
    if kind == "dropped":
        return b"".join(parts[:a] + parts[a + 1:])
    if kind == "repeated":
        return b"".join(parts[:a + 1] + parts[a:])
    if kind == "swapped":
        parts[a[0]], parts[a[1]] = parts[a[1]], parts[a[0]]
        return b"".join(parts)
    return g + (g if a is None else a)


def torn_fn(case):
    if not good():
        return Outcome("no cache", False)
    content = torn(case)
    with Folder(content) as d:
        want(in_child(workload), "cache file %s" % (case,))
        after = d.get()
        want(in_child(workload), "cache file %s, run after it" % (case,))
        if after != good() and case[0] != "tail" and case[0] != "swapped":
            # a damaged cache is replaced by one that is used, not written again by every run
            again = d.get()
            in_child(workload)
            if not isinstance(again, bytes) or d.get() != again:
                raise Violation("cache file %s: not rebuilt by two runs" % (case,))
    return Outcome(h(case[0]), states=[h(content)], transitions=2)


class Bad:
    def __reduce__(self):
        return int, ("x",)


def foreign():
    import collections
    p = pickle.dumps
    fake = {"match": {"upper": len}, "macro": {}, "vars": {}, "global_vars": {}, "template_obj": {}}
    out = {
        "empty": b"", "newline": b"\n", "text": b"int {{ n }}\n", "json": b'{"python_major_version": 3}',
        "source": b"_ttp_ = {}\n", "gzip": b"\x1f\x8b\x08\x00", "nul": b"\x00" * 9000, "ff": b"\xff" * 9000,
        "stop": b".", "mark": b"(" * 100, "proto": b"\x80\xff.", "huge": b"\x80\x04\x8e\xff\xff\xff\xff\xff\xff\xff\x7f",
        "no module": b"cno_such_module_x\nf\n.", "no attribute": b"cos\nno_such_attribute_x\n.",
        "no class": b"cttp.ttp\nNoSuchClass\n.", "raises": p(Bad()), "deep": b"]" * 100000 + b"a" * 99999 + b".",
        "latin": "\u00e9\u4e2d".encode("utf-16"),
    }
    objects = [None, 0, 1, True, 2.5, "", "text", "python_major_version", b"bytes", (), (1,), [], [1, 2], [{}], set(), frozenset([1]), {},
               {"a": 1}, {1: 2}, len, int, Ellipsis, collections.OrderedDict(), collections.defaultdict(int), collections.defaultdict(dict), range(3), io.BytesIO(b"x")]
    for i, o in enumerate(objects):
        for proto in (0, 2, 4):
            try:
                out["object %d %r protocol %d" % (i, o, proto)] = pickle.dumps(o, proto)
            except Exception:
                pass
    for major in (3, 2, 4, None, "3", 3.5, "absent"):
        for version in ("0.0.1", "99.0", "", None, 1, ["0.9.5"], "absent"):
            d = dict(fake)
            if major != "absent":
                d["python_major_version"] = major
            if version != "absent":
                d["__version__"] = version
            out["major %r version %r" % (major, version)] = p(d)
    real = obs.TTP.__version__ if hasattr(obs.TTP, "__version__") else "0.9.5"
    for major in (2, None, "3", "absent"):
        d = dict(fake, __version__=real)
        if major != "absent":
            d["python_major_version"] = major
        out["major %r this version" % (major,)] = p(d)
    return out


FOREIGN = foreign()


def foreign_cases():
    names = sorted(FOREIGN)
    for n in names:
        yield (n,)
        yield n, "cut"
        yield n, "+good"
        yield "good+", n
    if DEEP:
        for a, b in itertools.product(names, repeat=2):
            yield a, b


def foreign_fn(case):
    g = good()
    parts = {"+good": g, "good+": g}
    c = b"".join(parts.get(n, FOREIGN.get(n, b"")) for n in case)
    if "cut" in case:
        c = c[:-1]
    with Folder(c):
        twice("cache file with %r" % (case,))
    return Outcome(h(case), states=[h(c)], transitions=2)


# ------------------------------------------------------------ places
def place_cases():
    for p in ("missing", "missing below missing", "file", "cache is folder", "cache is full folder", "dangling link", "link loop", "link", "link to folder",
              "folder link", "spaces", "unicode", "empty name", "relative", "dot", "nul", "long", "device", "package", "package damaged", "package stale"):
        yield p


def place_fn(case):
    g = good()
    keep = os.getcwd()
    with Folder() as d:
        e = d.path
        if case == "missing":
            e = os.path.join(d.path, "none")
        elif case == "missing below missing":
            e = os.path.join(d.path, "none", "more")
        elif case == "file":
            e = os.path.join(d.path, "f")
            open(e, "w").close()
        elif case in ("cache is folder", "cache is full folder"):
            os.mkdir(d.file)
            if "full" in case:
                open(os.path.join(d.file, "x"), "w").close()
        elif case == "dangling link":
            os.symlink(os.path.join(d.path, "nothing", "here"), d.file)
        elif case == "link loop":
            os.symlink(d.file, d.file)
        elif case in ("link", "link to folder"):
            t = os.path.join(d.path, "target")
            if case == "link":
                with open(t, "wb") as f:
                    f.write(g[:100])
            else:
                os.mkdir(t)
            os.symlink(t, d.file)
        elif case == "folder link":
            e = os.path.join(d.path, "l")
            os.symlink(d.path, e)
        elif case in ("spaces", "unicode"):
            e = os.path.join(d.path, {"spaces": "a b  c", "unicode": "\u00e9\u4e2d"}[case])
            os.mkdir(e)
        elif case in ("empty name", "relative", "dot"):
            os.chdir(d.path)
            os.mkdir("sub")
            e = {"empty name": "", "relative": "sub", "dot": "./sub/../."}[case]
        elif case == "long":
            e = os.path.join(d.path, "n" * 300)
        elif case == "device":
            e = os.path.join(d.path, "dev")
            os.mkdir(e)
            os.symlink("/dev/null", os.path.join(e, NAME))
        elif case.startswith("package") or case == "nul":
            if case == "nul":
                return Outcome(case, False)
            pkg = package(d.path, "pkg")
            if case != "package":
                with open(os.path.join(pkg, "ttp", NAME), "wb") as f:
                    f.write(g[:1000] if "damaged" in case else FOREIGN["major 3 version '0.0.1'"])
            for i in range(3):
                got = other_process(pkg, None)
                want(got, "cache in the package folder, run %d" % (i + 1))
            return Outcome(case, states=[h(case)], transitions=3)
        os.environ["TTPCACHEFOLDER"] = e
        try:
            twice("TTPCACHEFOLDER: %s" % case, 3)
        finally:
            os.chdir(keep)
    return Outcome(case, states=[h(case)], transitions=3)


SCRIPT = """
import sys, json, logging
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import ttp
assert ttp.__file__.startswith(sys.argv[1]), ttp.__file__
logging.disable(logging.CRITICAL)
p = ttp.ttp(template=sys.argv[2])
p.add_input(sys.argv[3])
p.parse(one=True)
print(json.dumps(p.result()))
"""


def package(where, name, version=None):
    """a copy of the package under test, of another version if so requested"""
    dst = os.path.join(where, name)
    shutil.copytree(os.path.join(env.REPO, "ttp"), os.path.join(dst, "ttp"),
                    ignore=shutil.ignore_patterns("__pycache__", "*.pickle"))
    if version:
        for f in ("ttp.py", "__init__.py"):
            p = os.path.join(dst, "ttp", f)
            with open(p, encoding="utf-8") as fd:
                s = fd.read()
            s = re.sub(r'__version__ = "[^"]*"', '__version__ = "%s"' % version, s)
            with open(p, "w", encoding="utf-8") as fd:
                fd.write(s)
        # the other version knows other functions
        p = os.path.join(dst, "ttp", "match", "new_in_other.py")
        with open(p, "w") as fd:
            fd.write("def brand_new(data):\n    return data + 'new', None\n")
        p = os.path.join(dst, "ttp", "group", "to_int.py")
        if os.path.exists(p):
            os.remove(p)
    return dst


def other_process(pkg, folder, template=TEMPLATE):
    e = {k: v for k, v in os.environ.items() if k != "TTPCACHEFOLDER"}
    if folder is not None:
        e["TTPCACHEFOLDER"] = folder
    r = subprocess.run([sys.executable, "-c", SCRIPT, pkg, template, DATA], env=e, capture_output=True, text=True)
    if r.returncode:
        return "raised", r.stderr[-600:]
    import json
    return "ok", json.loads(r.stdout.splitlines()[-1])


# ------------------------------------------------------------ versions sharing a folder
def version_cases():
    for n in (2, 3, 4) if DEEP else (2, 3):
        for s in itertools.product("AB", repeat=n):
            if len(set(s)) == 2:
                yield "".join(s)


def version_fn(case):
    with Folder() as d:
        pkg = {"A": env.REPO, "B": package(d.path, "b", "0.0.1")}
        new = TEMPLATE.replace("upper | record", "upper | brand_new | record")
        other = [{"n": 1, "data": [{"g": [dict(EXPECTED[0]["data"][0]["g"][0], n="Anew!"), dict(EXPECTED[0]["data"][0]["g"][1], n="Bnew!")], "last": {"e": 7, "was": "Bnew"}}]}]
        for i, v in enumerate(case):
            got = other_process(pkg[v], d.path, TEMPLATE if v == "A" else new)
            if got != ("ok", EXPECTED if v == "A" else other):
                raise Violation("versions %s sharing a cache folder, run %d: observed %r" % (case, i, got))
        # each version left a cache of its own only
        want(in_child(workload), "after versions %s" % case)
    return Outcome(case, states=[h(case[:i]) for i in range(len(case) + 1)], transitions=len(case))


# ------------------------------------------------------------ file operations under control
real_open = builtins.open


class Raw(io.RawIOBase):
    """raw file of the cache folder: every system call is announced to the controller,
    large reads and writes are split as a kernel may split them"""

    def __init__(self, path, flags, ctl, mode):
        io.RawIOBase.__init__(self)
        self.ctl, self.m = ctl, mode
        self.name = path
        ctl.op("open " + mode, None)
        self.fd = os.open(path, flags, 0o644)

    def readable(self):
        return "r" in self.m or "+" in self.m

    def writable(self):
        return self.m[0] in "wax" or "+" in self.m

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        self.ctl.op("truncate", None)
        size = self.tell() if size is None else size
        os.ftruncate(self.fd, size)
        return size

    def fileno(self):
        return self.fd

    def readinto(self, b):
        n = min(len(b), self.ctl.piece)
        self.ctl.op("read", None)
        data = os.read(self.fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)[:self.ctl.piece]
        self.ctl.op("write", lambda: os.write(self.fd, b[:len(b) // 2]))
        return os.write(self.fd, b)

    def close(self):
        if not self.closed:
            io.RawIOBase.close(self)
            self.ctl.op("close", lambda: os.close(self.fd))
            os.close(self.fd)


FLAGS = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND, "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}


class Control:
    """replaces the file operations on the cache folder"""

    piece = 4096

    def __init__(self, folder):
        self.folder = folder
        self.kept = {}

    def op(self, name, torn):
        raise NotImplementedError

    def inside(self, path):
        try:
            return os.path.dirname(os.path.abspath(os.fspath(path))) == self.folder
        except TypeError:
            return False

    def install(self):
        def controlled(path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not self.inside(path):
                return real_open(path, mode, buffering, encoding, errors, newline, closefd, opener)
            m = mode.replace("b", "").replace("t", "")
            raw = Raw(os.fspath(path), FLAGS[m[0]] if "+" not in m else (FLAGS[m[0]] & ~os.O_WRONLY) | os.O_RDWR, self, m)
            f = io.BufferedRandom(raw) if "+" in m else io.BufferedReader(raw, 4096) if m[0] == "r" else io.BufferedWriter(raw, 4096)
            return f if "b" in mode else io.TextIOWrapper(f, encoding, errors, newline)

        def wrap(mod, name):
            fn = getattr(mod, name)
            self.kept[mod, name] = fn

            def call(path, *a, **kw):
                if self.inside(path):
                    self.op(name, None)
                return fn(path, *a, **kw)
            setattr(mod, name, call)
        builtins.open = controlled
        self.kept[io, "open"] = io.open
        io.open = controlled
        for n in ("isfile", "exists"):
            wrap(os.path, n)
        for n in ("rename", "replace", "remove", "unlink", "stat", "access"):
            wrap(os, n)

    def remove(self):
        builtins.open = real_open
        for (mod, name), fn in self.kept.items():
            setattr(mod, name, fn)


ERRORS = {
    "ENOSPC": lambda: OSError(errno.ENOSPC, "No space left on device"),
    "EIO": lambda: OSError(errno.EIO, "Input/output error"),
    "EACCES": lambda: PermissionError(errno.EACCES, "Permission denied"),
    "ENOENT": lambda: FileNotFoundError(errno.ENOENT, "No such file or directory"),
    "crash": Crash,
}


class Faults(Control):
    """raises at the chosen operations; half of a write may reach the file before"""

    def __init__(self, folder, faults, torn):
        Control.__init__(self, folder)
        self.faults, self.torn = dict(faults), torn
        self.n = 0
        self.log = []

    def op(self, name, torn):
        i = self.n
        self.n += 1
        self.log.append(name)
        if i in self.faults:
            kind = self.faults[i]
            if name in ("isfile", "exists", "stat", "access") and kind != "crash":
                return  # these do not fail this way
            if torn is not None and (self.torn or name == "close"):
                torn()
            raise ERRORS[kind]()


START = ["absent", "good", "cut", "stale", "list"]


def start(name):
    return {"absent": None, "good": good(), "cut": good()[:len(good()) // 2], "stale": FOREIGN["major 3 version '0.0.1'"], "list": pickle.dumps([1])}[name]


def faulty(folder, faults, torn):
    def go():
        c = Faults(folder, faults, torn)
        c.install()
        try:
            return workload(), c.log
        finally:
            c.remove()
    return in_child(go)


def fault_cases():
    for s in START:
        with Folder(start(s)) as d:
            r = faulty(d.path, {}, False)
            n = len(r[1][1]) if r[0] == "ok" else 12
        ops = range(n + 2)  # a fault may cause further operations
        for torn in (False, True):
            for k in ops:
                for e in ERRORS:
                    yield s, ((k, e),), torn
            for k, j in itertools.combinations(ops, 2):
                for e1 in ERRORS:
                    for e2 in ERRORS:
                        if e1 != "crash" and (DEEP or e1 in ("EIO", "EACCES") and e2 in ("ENOSPC", "crash")):
                            yield s, ((k, e1), (j, e2)), torn


def fault_fn(case):
    s, faults, torn = case
    with Folder(start(s)) as d:
        r = faulty(d.path, faults, torn)
        if r == "crashed":
            if "crash" not in dict(faults).values():
                raise Violation("process died: %r" % (case,))
            log = "crash"
        else:
            if r[0] != "ok" or r[1][0] != EXPECTED:
                raise Violation("start %s, faults %r%s: observed %r" % (s, faults, ", torn write" if torn else "", r))
            log = tuple(r[1][1])
        left = d.get()
        twice("after a run with start %s and faults %r%s" % (s, faults, ", torn write" if torn else ""))
        # a second run hits a fault too
        if DEEP:
            d.put(left) if isinstance(left, bytes) else None
            faulty(d.path, {3: "crash"}, True)
            twice("after two runs with faults, start %s, %r" % (s, faults))
    return Outcome(h((log, s)), r == "crashed" or len(log) > 0, states=[h((s, left))], transitions=3)


# ------------------------------------------------------------ concurrent starts
class Scheduler(Control):
    """one thread for each starting process; only the scheduled one runs, and it runs
    until its next file operation"""

    piece = 4096

    def __init__(self, folder, schedule, n):
        Control.__init__(self, folder)
        self.schedule = list(schedule)
        self.n = n
        self.cv = threading.Condition()
        self.current = None
        self.waiting = set()
        self.done = set()
        self.ids = {}
        self.results = {}
        self.trace = []
        self.choices = []

    def op(self, name, torn):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        with self.cv:
            self.trace.append((me, name))
            self.current = None
            self.waiting.add(me)
            self.cv.notify_all()
            while self.current != me:
                self.cv.wait()

    def body(self, me):
        self.ids[threading.get_ident()] = me
        with self.cv:
            self.waiting.add(me)
            self.cv.notify_all()
            while self.current != me:
                self.cv.wait()
        try:
            r = obs.attempt(workload)
        finally:
            with self.cv:
                self.results[me] = r
                self.done.add(me)
                self.current = None
                self.cv.notify_all()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        self.install()
        try:
            for t in threads:
                t.start()
            step, last = 0, None
            while True:
                with self.cv:
                    while self.current is not None or len(self.waiting) + len(self.done) < self.n:
                        self.cv.wait()
                    enabled = sorted(self.waiting)
                    if not enabled:
                        break
                    pick = self.schedule[step] if step < len(self.schedule) else (last if last in enabled else enabled[0])
                    if pick not in enabled:
                        return None
                    self.choices.append((pick, enabled))
                    self.waiting.discard(pick)
                    self.current = last = pick
                    step += 1
                    self.cv.notify_all()
            for t in threads:
                t.join()
        finally:
            self.remove()
        return self.results


def execute(s, n, schedule):
    """one execution under one schedule, in a process of its own"""
    with Folder(start(s)) as d:
        def go():
            c = Scheduler(d.path, schedule, n)
            res = c.run()
            return [r if not isinstance(r, obs.Raised) else repr(r) for _, r in sorted(res.items())], c.choices, c.trace
        r = in_child(go)
        left = d.get()
        if r[0] != "ok":
            raise Violation("concurrent starts, start %s, schedule %r: %r" % (s, schedule, r))
        for i, x in enumerate(r[1][0]):
            if x != EXPECTED:
                raise Violation("%d concurrent starts from state %s, process %d, file operations %r: expected %r, observed %r" % (n, s, i, r[1][2], EXPECTED, x))
        want(in_child(workload), "after %d concurrent starts from state %s, file operations %r" % (n, s, r[1][2]))
    return r[1][1], r[1][2], left


def preemptions(choices):
    return sum(1 for (a, _), (b, en) in zip(choices, choices[1:]) if a != b and a in en)


def schedule_cases():
    """the first operations of the schedule split the tree between the workers"""
    for s in START:
        for n, bound in ((2, 2), (3, 1)) if not DEEP else ((2, 6), (3, 3), (4, 1)):
            if s in ("list", "stale", "good") and n == 3 and not DEEP:
                continue
            for pre in itertools.product(range(n), repeat=4):
                if preemptions([(a, list(range(n))) for a in pre]) <= bound:
                    yield s, n, bound, pre


def schedule_fn(case):
    s, n, bound, pre = case
    states, runs, steps = set(), 0, 0
    stack = [list(pre)]
    while stack:
        schedule = stack.pop()
        choices, trace, left = execute(s, n, schedule)
        got = [c for c, _ in choices]
        if got[:len(schedule)] != schedule[:len(got)]:
            continue
        runs += 1
        steps += len(trace)
        states.add(h((s, n, tuple(trace))))
        states.add(h(left))
        # every other choice at every point beyond the given schedule
        for i in range(len(schedule), len(choices)):
            pick, enabled = choices[i]
            for other in enabled:
                if other != pick:
                    new = got[:i] + [other]
                    if preemptions(list(zip(new, [e for _, e in choices]))) <= bound:
                        stack.append(new)
    return Outcome(h((s, n, runs)), runs > 0, count=max(runs, 1), states=states, transitions=steps)


# ------------------------------------------------------------ parsers before the run
def up(data):
    return "spoilt", None


def spoil_fun():
    p = obs.ttp()
    p.add_function(up, scope="match", name="upper")
    p.add_function(lambda d: "spoilt", scope="macro", name="m")
    p.add_template("int {{ n | upper }}")
    p.add_input(DATA)
    p.parse(one=True)


def spoil_vars():
    p = obs.ttp(template="<vars>\nseen = 'x'\n</vars>\nint {{ n | record('seen') | record('site') | let('y', 'seen') }}", vars={"site": "spoilt", "seen": "spoilt"})
    p.add_vars({"site": "spoilt2"})
    p.add_input(DATA)
    p.parse(one=True)


def spoil_macro():
    p = obs.ttp(template="<macro>\ndef m(data):\n    return 'spoilt'\ndef om(data):\n    return 'spoilt'\n</macro>\nint {{ n | macro('m') }}\n<output macro='om'/>")
    p.add_input(DATA)
    p.parse(one=True)


def spoil_lookup():
    p = obs.ttp(template="<lookup name='L' load='python'>\n{'A': {'desc': 'spoilt'}}\n</lookup>\n key {{ n | lookup('L') }}")
    p.add_lookup(name="L", text_data="{'A': 'spoilt'}")
    p.add_input(DATA)
    p.parse(one=True)


def spoil_error():
    p = obs.ttp(template="<macro>\ndef m(data):\n    raise ValueError('x')\n</macro>\nint {{ n | macro('m') }}")
    p.add_input(DATA)
    obs.attempt(p.parse, one=True)


def spoil_index():
    """a caller that uses the index of functions as a dictionary of its own"""
    p = obs.ttp()
    for scope in p._ttp_:
        if isinstance(p._ttp_[scope], dict):
            p._ttp_[scope].clear()


SPOIL = dict(fun=spoil_fun, vars=spoil_vars, macro=spoil_macro, lookup=spoil_lookup, error=spoil_error, index=spoil_index, none=lambda: obs.ttp(), work=workload)


def spoil_cases():
    for s in START:
        for n in (1, 2, 3) if DEEP else (1, 2):
            for seq in itertools.product(sorted(SPOIL), repeat=n):
                yield s, seq


def spoil_fn(case):
    s, seq = case

    def go():
        for name in seq:
            SPOIL[name]()
        return workload()
    with Folder(start(s)) as d:
        want(in_child(go), "start %s, after parsers %r in the process" % (s, seq))
        left = d.get()
        want(in_child(workload), "start %s, after parsers %r in another process" % (s, seq))
    return Outcome(h((s, left)), states=[h(case)], transitions=len(seq) + 2)


def absent_fn(case):
    with Folder():
        twice("with no cache")
    return Outcome(case, states=[h(case)], transitions=2)


def check(ck):
    s = ck.explore("no cache", lambda: ["absent"], absent_fn, rule="two runs, the first finds no cache")
    if s.violations:
        return
    prime()
    good()
    ck.explore("torn files", torn_cases, torn_fn, rule="all prefixes of the file (quick: every eighth and the ends), all single and pairs of blocks lost, dropped, repeated or swapped, trailing content")
    ck.explore("foreign files", foreign_cases, foreign_fn, rule="all listed foreign contents, alone, cut short, before and after a good cache")
    ck.explore("places", place_cases, place_fn, rule="all listed kinds of cache folder")
    ck.explore("versions", version_cases, version_fn, rule="all sequences of up to 3 runs (thorough 4) of two versions sharing a cache folder")
    ck.explore("faults", fault_cases, fault_fn, rule="every error and a crash at every single and pair of file operations, from five states of the file")
    ck.explore("schedules", schedule_cases, schedule_fn, rule="all interleavings of the file operations of two starting processes with at most 2 (thorough 6) preemptions, three with one (thorough 3; four with one), from five states of the file")
    ck.explore("earlier parsers", spoil_cases, spoil_fn, rule="all sequences of two (thorough three) earlier parsers, from five states of the file")
