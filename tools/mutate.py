"""Development tool: first order mutants of ttp, those that survive the stable tests
are given to the checks. Results go to the working folder, nothing is committed.

mutate.py gen DIR            list mutants into DIR/mutants.json
mutate.py tests DIR N        run the stable tests on each, N at a time -> DIR/tests.json
mutate.py checks DIR N [SEL] run mapped checks on the survivors, N at a time -> DIR/checks.json
mutate.py show DIR [all]     list what no check saw
"""
import warnings; warnings.simplefilter('ignore')
import ast, fnmatch, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = sys.argv[2] + "/src" if len(sys.argv) > 2 and os.path.exists(sys.argv[2] + "/src") else "/repo"  # the commit the mutants were made of
SKIP_FUNCS = {"debug", "timing", "logging_config", "load_python_exec_py2"}
SKIP_FILES = ["*/load_python_exec_py2.py", "*geoip*", "*/lazy_import*", "*/excel_formatter.py", "*/n2g_formatter.py", "*/__init__.py", "*/guess.py"]
# checks by file pattern, then by function or class in ttp.py
FILES = [
    ("*/match/lookup.py", "C11 C07 C09"), ("*/dns_lookups.py", "C32"), ("*/match/count.py", "C12 C09"), ("*/match/macro.py", "C10 C07"), ("*/match/*", "C09 C07 C28 C05 C24"),
    ("*/group/macro.py", "C10 C08"), ("*/group/lookup.py", "C11 C08"), ("*/group/*", "C08 C05 C04 C03 C28"),
    ("*/output/macro.py", "C10 C15"), ("*/output/*", "C27 C15"), ("*/input/commands.py", "C33"), ("*/input/*", "C10 C12 C13 C25 C20"),
    ("*/formatters/*", "C16 C15"), ("*/returners/*", "C31 C15"), ("*/variable/*", "C28"), ("*/patterns/*", "C26 C01"),
    ("*/lookup/*", "C11"), ("*/utils/get_attributes.py", "C29 C07 C08 C15"), ("*/utils/quick_parse.py", "C25"),
    ("*/utils/loaders.py", "C23 C25 C21 C12"), ("*/utils/*", "C23 C25"),
]
CODE = [
    ("_results_class.form_path", "C04 C03 C28"), ("_results_class.save_vars", "C28 C04"), ("_results_class.join", "C06 C02"),
    ("_results_class", "C02 C03 C05 C08 C06 C04 C14"), ("_variable_class.form_regex", "C01 C26 C24 C06"), ("_variable_class", "C07 C01 C26 C06 C09 C24 C05"),
    ("_group_class", "C02 C05 C08 C03 C13 C01"), ("_parser_class.run_var_functions", "C28"), ("_parser_class.set_data", "C25 C12 C10 C28"),
    ("_parser_class", "C02 C07 C01 C06 C12 C13 C15 C10 C24"), ("_outputter_class", "C15 C16 C27 C10"), ("_input_class", "C13 C12 C25 C20 C10"),
    ("_template_class.handle_extend", "C21"), ("_template_class", "C21 C13 C20 C14 C28 C19 C15 C25 C12 C10 C11"), ("_worker", "C18 C17"),
    ("cli_tool", "C25"), ("lazy_import", "C22"), ("_ttp_", "C22"), ("CachedModule", "C22"),
    ("ttp.__parse", "C17 C18 C12"), ("ttp.parse", "C17 C18 C20"), ("ttp.result", "C14 C20"), ("ttp", "C20 C19 C14 C25 C13 C17 C18 C12 C28"),
    ("", "C22 C20 C02 C01"),
]


def checks_for(m):
    for pat, c in FILES:
        if fnmatch.fnmatch(m["file"], pat):
            return c.split()
    for pre, c in CODE:
        if m["func"].startswith(pre):
            return c.split()


class Finder(ast.NodeVisitor):
    def __init__(self, src, file):
        self.src, self.file, self.out, self.stack = src, file, [], []
        self.lines = src.splitlines(keepends=True)
        self.offs = [0]
        for l in self.lines:
            self.offs.append(self.offs[-1] + len(l.encode()))
        self.b = src.encode()

    def span(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def add(self, node, new, what):
        a, z = self.span(node)
        self.out.append(dict(file=self.file, func=".".join(self.stack), line=node.lineno, a=a, z=z, new=new, what=what, old=self.text(node)[:120]))

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_FunctionDef(self, n):
        if n.name in SKIP_FUNCS:
            return
        self.stack.append(n.name)
        for d in n.args.defaults + n.args.kw_defaults:
            if isinstance(d, ast.Constant) and d.value in (True, False) and d.value is not None and isinstance(d.value, bool):
                self.add(d, str(not d.value), "default")
        body = n.body
        for s in body:
            self.visit(s)
        self.stack.pop()

    def islog(self, n):
        t = self.text(n)
        return re.match(r"(log|timing|print|self\.debug|.*\.debug\(|raise|\[.*debug\()", t) is not None

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or self.islog(n):
            return
        self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, "pass", "delete")

    def visit_Break(self, n):
        self.add(n, "pass", "delete")

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.generic_visit(n)

    def visit_If(self, n):
        t = self.text(n.test)
        if "isEnabledFor" in t:
            return
        if not isinstance(n.test, ast.Constant):
            self.add(n.test, "True", "always")
            self.add(n.test, "False", "never")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n.test, "not (%s)" % self.text(n.test), "negate")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            swap = {ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is"}
            o = swap[type(n.ops[0])]
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                self.add(n, "%s %s %s" % (self.text(n.left), o, self.text(n.comparators[0])), "bound")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, op.join("(%s)" % self.text(v) for v in n.values), "andor")
        for i in range(len(n.values)):
            keep = [v for j, v in enumerate(n.values) if j != i]
            self.add(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % self.text(v) for v in keep), "operand")
        self.generic_visit(n)

    def visit_Call(self, n):
        if self.islog(n):
            return
        f = n.func
        if isinstance(f, ast.Attribute):
            if f.attr in ("strip", "lstrip", "rstrip", "copy", "lower", "upper") and len(n.args) <= 1:
                self.add(n, self.text(f.value), "nocall " + f.attr)
            if f.attr == "deepcopy" and n.args:
                self.add(n, self.text(n.args[0]), "nocopy")
            if f.attr == "append":
                self.add(f, self.text(f.value) + ".insert", "insert") if False else None
            if f.attr == "replace" and len(n.args) >= 2:
                self.add(n, self.text(f.value), "noreplace")
            if f.attr in ("get", "pop") and len(n.args) == 2 and isinstance(n.args[1], ast.Constant):
                pass
        if isinstance(f, ast.Name):
            if f.id in ("sorted", "list", "dict", "deepcopy", "str", "tuple", "reversed") and len(n.args) == 1:
                self.add(n, "(%s)" % self.text(n.args[0]), "nocall " + f.id)
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "bool")
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), "inc")
            if n.value > 0:
                self.add(n, str(n.value - 1), "dec")

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            self.add(n, str(-n.operand.value - 1), "dec")
            self.add(n, "0", "zero")
            return
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Add):
            self.add(n, self.text(n.left), "noadd")
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            for c in g.ifs:
                self.add(c, "True", "always")
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        for s in n.body:
            self.visit(s)


def gen(d):
    out = []
    files = subprocess.check_output("git -C /repo ls-files ttp", shell=True, text=True).split()
    for f in files:
        if not f.endswith(".py") or any(fnmatch.fnmatch(f, p) for p in SKIP_FILES):
            continue
        src = open("/repo/" + f).read()
        fd = Finder(src, f)
        fd.visit(ast.parse(src))
        seen = set()
        for m in fd.out:
            new = fd.b[:m["a"]] + m["new"].encode() + fd.b[m["z"]:]
            if new in seen:
                continue
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            seen.add(new)
            out.append(m)
    for i, m in enumerate(out):
        m["id"] = i
    json.dump(out, open(d + "/mutants.json", "w"), indent=0)
    print(len(out), "mutants")


def mutate(copy, m):
    p = os.path.join(copy, m["file"])
    b = open(SRC + "/" + m["file"], "rb").read()
    open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["z"]:])


def restore(copy, m):
    shutil.copyfile(SRC + "/" + m["file"], os.path.join(copy, m["file"]))


class Pool:
    def __init__(self, d, n):
        self.free = []
        for i in range(n):
            c = "%s/copy%d" % (d, i)
            shutil.rmtree(c, ignore_errors=True)
            subprocess.check_call(["cp", "-a", SRC, c])
            subprocess.call("find %s -name __pycache__ -prune -exec rm -rf {} +" % c, shell=True)
            self.free.append(c)
        self.lock = threading.Lock()

    def take(self):
        with self.lock:
            return self.free.pop()

    def give(self, c):
        with self.lock:
            self.free.append(c)


def tests(d, n):
    ms = json.load(open(d + "/mutants.json"))
    res = json.load(open(d + "/tests.json")) if os.path.exists(d + "/tests.json") else {}
    stable = {s for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    pool = Pool(d, n)
    env = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    env.pop("TTPCACHEFOLDER", None)
    c = pool.take()
    r = subprocess.run([PY, "-m", "pytest", "--collect-only", "-q", "-p", "no:cacheprovider"], cwd=c + "/test/pytest", env=dict(env, PYTHONPATH=c), capture_output=True, text=True)
    ids = [l for l in r.stdout.splitlines() if "::" in l]
    deselect = [i for i in ids if (i.split("::")[0].replace(".py", "") + "::" + "::".join(i.split("::")[1:])) not in stable]
    print(len(ids), "tests", len(deselect), "deselected", deselect[:3], flush=True)
    pool.give(c)
    lock = threading.Lock()

    def one(m):
        if str(m["id"]) in res:
            return
        c = pool.take()
        try:
            mutate(c, m)
            subprocess.call(["rm", "-rf", c + "/ttp/ttp_dict_cache.pickle", c + "/test/pytest/Output"])
            try:
                r = subprocess.run(["nice", PY, "-m", "pytest", "-q", "-x", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60", "-W", "ignore"]
                                   + ["--deselect=" + i for i in deselect], cwd=c + "/test/pytest", env=dict(env, PYTHONPATH=c), capture_output=True, text=True, timeout=240)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
        finally:
            restore(c, m)
            pool.give(c)
        with lock:
            res[str(m["id"])] = ok
            if len(res) % 50 == 0:
                json.dump(res, open(d + "/tests.json", "w"))
                print(time.strftime("%H:%M:%S"), len(res), sum(res.values()), flush=True)

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, sorted(ms, key=lambda m: m["file"] != "ttp/ttp.py")))
    json.dump(res, open(d + "/tests.json", "w"))
    print(len(res), "run", sum(res.values()), "survive")


def checks(d, n, sel=None):
    ms = {m["id"]: m for m in json.load(open(d + "/mutants.json"))}
    alive = [ms[int(k)] for k, v in json.load(open(d + "/tests.json")).items() if v]
    res = json.load(open(d + "/checks.json")) if os.path.exists(d + "/checks.json") else {}
    random.Random(1).shuffle(alive)
    pool = Pool(d, n)
    lock = threading.Lock()

    def one(m):
        key = str(m["id"])
        if sel and not re.search(sel, m["file"] + ":" + m["func"]):
            return
        ran = res.get(key, {"ran": []})
        if ran.get("by"):
            return
        todo = [c for c in checks_for(m)[:int(os.environ.get("MUT_MAX", 9))] if c not in ran["ran"]]
        if not todo:
            return
        c = pool.take()
        try:
            mutate(c, m)
            for chk in todo:
                e = dict(os.environ, VERIF_REPO=c, VERIF_SHORT="1", VERIF_FAILFAST="1", VERIF_JOBS="2", PYTHONDONTWRITEBYTECODE="1")
                try:
                    r = subprocess.run(["nice", PY, "run.py", chk, "quick"], cwd=VERIF, env=e, capture_output=True, text=True, timeout=900)
                    rc, out = r.returncode, (r.stdout + r.stderr)[-300:]
                except subprocess.TimeoutExpired:
                    rc, out = "timeout", ""
                ran["ran"].append(chk)
                if rc == 1 or rc == "timeout" or rc not in (0, 1):
                    ran["by"], ran["rc"], ran["out"] = chk, rc, out
                    break
        finally:
            restore(c, m)
            pool.give(c)
        with lock:
            res[key] = ran
            json.dump(res, open(d + "/checks.json", "w"))
            if len(res) % 20 == 0:
                print(time.strftime("%H:%M:%S"), len(res), sum(1 for r in res.values() if r.get("by")), flush=True)

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, alive))
    print(len(res), "run", sum(1 for r in res.values() if r.get("by")), "seen")


def show(d, every=False):
    ms = {m["id"]: m for m in json.load(open(d + "/mutants.json"))}
    res = json.load(open(d + "/checks.json"))
    for k, r in sorted(res.items(), key=lambda x: int(x[0])):
        m = ms[int(k)]
        if every or not r.get("by") or r["rc"] != 1:
            print("%5s %s:%d %s | %s | %s -> %s | %s %s" % (k, m["file"], m["line"], m["func"], m["what"], m["old"].replace("\n", "\\n"), m["new"][:80].replace("\n", "\\n"), " ".join(r["ran"]), r.get("rc", "")))


if __name__ == "__main__":
    a = sys.argv
    {"gen": lambda: gen(a[2]), "tests": lambda: tests(a[2], int(a[3])), "checks": lambda: checks(a[2], int(a[3]), *a[4:5]), "show": lambda: show(a[2], len(a) > 3)}[a[1]]()
