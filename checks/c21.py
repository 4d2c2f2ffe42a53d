"""C21: extend tags against textual expansion. Every bounded assembly of tags, extended
files, filters, macros and nesting is written twice - with extend tags and with the
tags spelled out in place by an independent expander - and both must give the same
results; then every way of loading a template."""
import io
import itertools
import os
import re
import sys

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of template assemblies (files, positions, filters, macros, nesting up to three files) executed on the real parser and compared with the textually expanded template"
ASSUMPTIONS = [
    "an extended file that mixes plain template lines with tags is outside the property when the extend tag is inside a group",
    "plain template behaviour is decided by the other checks; here the expanded template is the reference",
]
DEEP = "thorough" in sys.argv

DATA = """int 1
 des x
 sub s1
  deep p
 opt o
vlan 10
 sub s2
int 2
 sub s3
 opt q
host h1
val k1
val k2
"""

# kind, name, text
COMP = {
    "GA": ("groups", "A*", '<group name="A*">\nint {{ n }}\n des {{ d }}\n</group>'),
    "GB": ("groups", "B", '<group name="B">\nvlan {{ v }}\n sub {{ s }}\n</group>'),
    "GU": ("groups", None, "<group>\nhost {{ h }}\n</group>"),
    "GC": ("groups", "C*", '<group name="C*">\nint {{ n }}\n<group name="s*">\n sub {{ s }}\n</group>\n opt {{ o }}\n</group>'),
    "gD": ("groups", "D*", '<g name="D*">\nvlan {{ v }}\n</g>'),
    "GL": ("groups", "E*", '<grp name="E*">\nval {{ k | lookup("L1", add_field="l1") | lookup("L2", add_field="l2") }}\n{{ b2 | set("b") }}\n</grp>'),
    "V1": ("vars", "v1", '<vars name="v1">\na = 1\nb = "b1"\n</vars>'),
    "V2": ("vars", "v2", '<v name="v2">\nc = "C"\n</v>'),
    "V0": ("vars", None, '<vars>\nb = "B0"\n</vars>'),
    "L1": ("lookups", "L1", '<lookup name="L1" load="python">\n{"k1": "K1"}\n</lookup>'),
    "L2": ("lookups", "L2", '<lookup name="L2" load="yaml">\nk2: K2\n</lookup>'),
    "I1": ("inputs", "i1", '<input name="i1" load="text">\nint 5\nval k1\n</input>'),
    "I2": ("inputs", "i2", '<in name="i2" load="text">\nvlan 6\nval k2\n</in>'),
    "I0": ("inputs", None, '<input load="text">\nhost h7\n</input>'),
    "O1": ("outputs", "o1", "<output name='o1' macro='om'/>"),
    "O2": ("outputs", "o2", "<out name='o2' format='json'/>"),
    "M": ("macro", None, "<macro>\ndef om(data):\n    return {'om': data}\n</macro>"),
    "d": ("doc", None, "<doc>\ntext int {{ n }}\n</doc>"),
}
TEXTS = {"t1": "int {{ n }}\n des {{ d }}", "t2": " opt {{ o }}", "t3": "vlan {{ v }}\n sub {{ s }}"}


class X:
    """an extend tag"""

    def __init__(self, file, filters=(), macro=None, route="rel"):
        self.file, self.filters, self.macro, self.route = file, tuple(filters), macro, route

    def __repr__(self):
        return "X(%r%s%s)" % (self.file, ", %r" % (self.filters,) if self.filters else "", ", macro=%r" % self.macro if self.macro else "")


class Grp:
    """a group whose body may contain extend tags"""

    def __init__(self, name, body, tag="group"):
        self.name, self.body, self.tag = name, tuple(body), tag

    def __repr__(self):
        return "Grp(%r, %r)" % (self.name, self.body)


class File:
    def __init__(self, items, wrap=False):
        self.items, self.wrap = tuple(items), wrap

    def __repr__(self):
        return "File(%r%s)" % (self.items, ", wrap" if self.wrap else "")


written = {}


def save(text):
    name = "f%s.txt" % h(text).hex()
    if name not in written:
        with open(name, "w", encoding="utf-8") as f:
            f.write(text)
        written[name] = 1
    return name


MACROS = {
    "same": lambda t: t,
    "indent": lambda t: "\n".join(" " + i for i in t.splitlines()),
    "rename": lambda t: t.replace("int", "vlan"),
    "lines": lambda t: "int {{ n }}\n opt {{ o }}",
    "wrapped": lambda t: '<group name="W*">\nhost {{ h }}\n</group>\n<group name="W2*">\nvlan {{ v }}\n</group>',
}
MACRO_TAG = """<macro>
def same(t):
    return t
def indent(t):
    return "\\n".join(" " + i for i in t.splitlines())
def rename(t):
    return t.replace("int", "vlan")
def lines(t):
    return "int {{ n }}\\n opt {{ o }}"
def wrapped(t):
    return '''&lt;group name="W*"&gt;\\nhost {{ h }}\\n&lt;/group&gt;\\n&lt;group name="W2*"&gt;\\nvlan {{ v }}\\n&lt;/group&gt;'''
</macro>"""


def source(items):
    """text with extend tags, files written"""
    out = []
    for i in items:
        if isinstance(i, X):
            path = save(file_source(i.file))
            a = "".join(" %s='%s'" % f for f in i.filters)
            if i.macro:
                a += " macro='%s'" % i.macro
            out.append("<extend template='./%s'%s/>" % (path, a))
        elif isinstance(i, Grp):
            out.append("<%s name='%s'>\n%s\n</%s>" % (i.tag, i.name, source(i.body), i.tag))
        else:
            out.append(COMP[i][2] if i in COMP else TEXTS[i])
    return "\n".join(out)


def file_source(f):
    s = source(f.items)
    return "<template>\n%s\n</template>" % s if f.wrap else s


def kind_of(i):
    if isinstance(i, Grp):
        return "groups", i.name
    if isinstance(i, X):
        return "extend", None
    return COMP[i][:2] if i in COMP else ("text", None)


def selected(items, filters, in_group):
    """the items an extend tag includes"""
    flt = {k: [x.strip() for x in v.split(",") if x.strip()] for k, v in filters}
    only_text = all(i in TEXTS for i in items if isinstance(i, str)) and not any(not isinstance(i, str) for i in items)
    if only_text:
        return list(items)
    out, g = [], 0
    for i in items:
        kind, name = kind_of(i)
        if kind == "groups":
            if not flt.get("groups") or name in flt["groups"] or str(g) in flt["groups"]:
                out.append(i)
            g += 1
        elif kind == "extend":
            out.append(i)
        elif not in_group and (not flt.get(kind) or name in flt[kind]):
            out.append(i)
    return out


def expand(items, in_group=False):
    out = []
    for i in items:
        if isinstance(i, X):
            if i.macro in MACROS:
                text = MACROS[i.macro](file_source(i.file))
                # the template tag around the content of a file is not part of it
                m = re.match(r"\s*<template>\n(.*)\n\s*</template>\s*$", text, re.S)
                out.append(m.group(1) if m else text)
            else:
                out.append(expand(selected(i.file.items, i.filters, in_group), in_group))
        elif isinstance(i, Grp):
            out.append("<%s name='%s'>\n%s\n</%s>" % (i.tag, i.name, expand(i.body, True), i.tag))
        else:
            out.append(COMP[i][2] if i in COMP else TEXTS[i])
    return "\n".join(x for x in out if x)


def outcome_of(tpl):
    def go():
        p = obs.ttp(template=tpl)
        p.add_input(DATA)
        p.parse(one=True)
        return p.result()
    r = obs.attempt(go)
    return r


memo = {}


def compare(items, head="", tail=""):
    with_tags = head + source(items) + tail
    in_place = head + expand(items) + tail
    if not in_place.strip():
        in_place = "<template>\n</template>"  # an empty text is no template
    got = outcome_of(with_tags)
    if in_place not in memo:
        if len(memo) > 20000:
            memo.clear()
        memo[in_place] = outcome_of(in_place)
    want = memo[in_place]
    if isinstance(want, obs.Raised):
        return None  # not a template
    obs.expect(got, want, with_tags, in_place, "items %r: (data shows the template written in place)" % (items,))
    return Outcome(h((want, len(items))), want not in ([[{}]], [[[]]]), states=[h(in_place)], transitions=1)


# ------------------------------------------------------------ top level
def files():
    one = [File([c]) for c in ("t1", "t3", "GA", "GU", "GC", "gD", "GL", "V1", "V0", "L1", "I1", "O1", "d")]
    more = [File(x) for x in (("GA", "GB"), ("V1", "GL", "L1"), ("M", "O1"), ("I1", "I0", "GU"), ("GU", "GA"), ("d", "GB", "V2"), ("GB", "GB"), ())]
    wrapped = [File(x, True) for x in (("t1",), ("GA",), ("GA", "V1"), ("L2", "GL"))]
    return one + more + wrapped


def top_cases():
    F = files()
    ext = [X(f) for f in F]
    comp = ["GA", "GB", "GU", "GL", "V0", "V1", "I2", "O2", "L2", "M", "t1"]
    for n in (1, 2, 3):
        if n == 3 and not DEEP:
            comp = ["GA", "GU", "GL", "V0", "M"]
            ext = [ext[i] for i in (0, 2, 3, 6, 7, 14, 15, 20, 22)]
        pool = comp + ext
        for seq in itertools.product(range(len(pool)), repeat=n):
            if all(i < len(comp) for i in seq):
                continue
            yield [pool[i] for i in seq]


# ------------------------------------------------------------ filters
def filter_cases():
    full = ("GA", "V1", "I1", "gD", "GU", "L1", "O2", "GL", "V2", "L2", "I2", "M", "O1", "V0", "I0", "GB")
    small = ("GU", "GA", "GC", "L1", "GL")
    G = [None, "A*", "B, D*", "0", "1,2", "4, A*", "nobody", "0,1,2,3,4,5", "7", "E*,0"]
    I = [None, "i1", "i1, i2", "nobody"]
    V = [None, "v1", "v2,v1", "nobody"]
    Lk = [None, "L1", "L2", "L1,L2", "nobody"]
    O = [None, "o1", "o1,o2", "nobody"]
    for g, i, v, l, o in itertools.product(G, I, V, Lk, O):
        if not DEEP and sum(x is not None for x in (g, i, v, l, o)) > 3:
            continue
        flt = [(k, x) for k, x in (("groups", g), ("inputs", i), ("vars", v), ("lookups", l), ("outputs", o)) if x is not None]
        for items in (full, small):
            for wrap in (False, True):
                x = X(File(items, wrap), flt)
                yield [x]
                if items is small or (wrap and len(flt) < 3):
                    yield ["GL", x, "GB"]
                    yield [x, X(File(items), flt[:1])]


# ------------------------------------------------------------ inside groups
def group_cases():
    F = [File(x) for x in (("t2",), ("GB",), ("GU",), ("GC",), ("gD",), ("GA", "GB"), ("V1", "GB"), ("L1", "I1", "GC", "d", "O1"), ("V1",), ())] + [File(("t2",), True), File(("GB", "GC"), True), File(("t1",))]
    ext = [X(f) for f in F] + [X(File(("GA", "GB", "GC")), [("groups", s)]) for s in ("B", "1", "0, C*", "nobody")]
    sub = ['S']
    pool = ["t1", "t2", "GB"] + sub + ext
    inner = Grp("s*", ["s1"])

    def item(i):
        return Grp("s*", ["t3"]) if i == "S" else i
    for n in (1, 2, 3):
        if n == 3 and not DEEP:
            pool = [pool[i] for i in (1, 2, 3, 4, 6, 7, 11, 18)]
            plain = 3
        else:
            plain = 4
        for seq in itertools.product(range(len(pool)), repeat=n):
            if all(i < plain for i in seq):
                continue
            body = [item(pool[i]) for i in seq]
            yield [Grp("T*", ["t1"] + body)]
            if n < 3:
                yield [Grp("T*", body)]
                for tag in ("g", "grp"):
                    yield [Grp("T*", ["t1"] + body, tag), "GU"]
                yield [Grp("T*", ["t1", Grp("n*", ["t2"] + body), "t2"])]
                yield ["GU", Grp("T*", ["t1"] + body), X(File(("GB",))), Grp("T2", body + ["t1"])]


# ------------------------------------------------------------ extend tags in extended files
def nest_cases():
    F3 = [File(x) for x in (("GB",), ("t2",), ("V0", "GU"), ("L1", "V1"), ())]
    L3 = [X(f) for f in F3]
    B2 = [("GA",), ("V1",)] + [(x,) for x in L3] + [(Grp("P*", ["t1", x]),) for x in L3] + [("GA", x) for x in L3[:1] + L3[2:]] + [(x, "GB", "L2") for x in L3[:1] + L3[2:]] + [(L3[0], L3[2])]
    F2 = [File(x) for x in B2] + [File(x, True) for x in B2[2:7]]
    L2 = [X(f) for f in F2]
    for x2 in L2:
        for body in ([x2], ["GL", x2], [x2, "GL"], [Grp("Q*", ["t1", x2])], ["V2", Grp("Q*", ["t1", x2, "t2"], "grp")], [x2, X(F3[0])]):
            f1 = File(body)
            for main in ([X(f1)], [X(f1), "GU"], ["L1", X(f1), "GA"], [Grp("R*", ["t1", X(f1)])], [Grp("R*", ["t1", X(f1), "t2", Grp("s*", ["t3"])])], [X(f1), X(F3[0]), X(f1)]):
                if mixes(main):
                    continue
                yield main


def nest_filter_cases():
    """filters apply to the tags of the extended file, not to what its own extend tags bring in"""
    inner = [X(File(("GB",))), X(File(("GC", "GU")), [("groups", "C*")]), X(File(("t2",)))]
    for x in inner:
        for body in (["GA", x], [x, "GA"], [x], ["GA", "GL", x], ["GA", x, "GL", inner[0]]):
            for s in ("A", "0", "1", "nobody", "A, 1", None):
                if s is None:
                    x1 = X(File(body))
                else:
                    x1 = X(File(body), [("groups", s)])
                for f2 in (None, "0", "A", "B"):
                    x2 = x1 if f2 is None else X(File([x1, "GB"]), [("groups", f2)])
                    for main in ([Grp("T*", ["t1", x2])], [Grp("T*", [x2, Grp("s*", ["t3"])])], [x2], ["GU", x2], [Grp("T*", ["t1", Grp("n*", ["t2", x2])], "g"), "GU"]):
                        if mixes(main):
                            continue
                        yield main


def mixes(items, in_group=False):
    """plain lines beside tags in an extended file inside a group"""
    for i in items:
        if isinstance(i, Grp) and mixes(i.body, True):
            return True
        if isinstance(i, X):
            if mixes(i.file.items, in_group):
                return True
            if in_group and len(i.file.items) > 1:
                parts = [expand([y], True) for y in i.file.items]
                if any(p and not p.startswith("<") for p in parts):
                    return True
    return False


# ------------------------------------------------------------ macro
def macro_cases():
    F = [File(x) for x in (("GA",), ("t1",), ("GA", "GB"), ("V1", "GL"), ("GC",))] + [File(("GA",), True)]
    for f in F:
        for m in list(MACROS) + ["nobody"]:
            for m2 in (None, "same", "rename"):
                x = X(f, macro=m)
                y = X(File(("GB",)), macro=m2)
                yield [x]
                yield ["GU", x, y]
                if f.items[0] != "V1" or m in ("lines", "wrapped"):
                    yield [Grp("T*", ["t1", x, y])]
                    yield [Grp("T*", ["t1", y, "GU", x], "g")]


def macro_fn(items):
    return compare(items, head=MACRO_TAG + "\n")


# ------------------------------------------------------------ loading
LOAD = [("GA",), ("t1",), ("GA", "GU"), ("V1", "GL", "L1"), (X(File(("GB",))), "GA"), (Grp("T*", ["t1", X(File(("t2",)))]),)]
ROUTES = ["path", "relative", "dir", "templates-dir", "object", "text", "extend", "extend-abs", "extend-templates-dir"]


def load_cases():
    for k in range(len(LOAD)):
        for wrap in (False, True):
            for route in ROUTES:
                for how in ("init", "add"):
                    for enc in ("", "\u00e9"):
                        yield k, wrap, route, how, enc
    for route in ("ttp://", "extend ttp://", "missing", "extend missing", "path and text"):
        yield 0, False, route, "init", ""
        yield 0, False, route, "add", ""


def load_with(arg, how):
    if how == "init":
        p = obs.ttp(template=arg)
    else:
        p = obs.ttp()
        p.add_template(arg)
    p.add_input(DATA)
    p.parse(one=True)
    return p.result()


def load_fn(case):
    k, wrap, route, how, enc = case
    text = file_source(File(LOAD[k], wrap))
    if enc:
        text = text.replace("des {{", "des" + enc + " {{").replace("<group>", "<!-- %s -->\n<group>" % enc)
    want = obs.attempt(load_with, text, how)
    if isinstance(want, obs.Raised):
        raise Violation("template text not loaded: %r %r" % (want, text))
    os.makedirs("tpl/only", exist_ok=True)
    path = os.path.abspath("tpl/only/t.txt")
    for old in os.listdir("tpl/only"):
        os.remove("tpl/only/" + old)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    env = os.environ.pop("TTP_TEMPLATES_DIR", None)
    try:
        if route == "path":
            got = obs.attempt(load_with, path, how)
        elif route == "relative":
            got = obs.attempt(load_with, "tpl/only/t.txt", how)
        elif route == "dir":
            got = obs.attempt(load_with, os.path.dirname(path), how)
        elif route == "templates-dir":
            os.environ["TTP_TEMPLATES_DIR"] = os.path.dirname(path)
            got = obs.attempt(load_with, "t.txt", how)
        elif route == "object":
            with open(path, encoding="utf-8") as f:
                got = obs.attempt(load_with, f, how)
            obs.expect(obs.attempt(load_with, io.StringIO(text), how), want, text, DATA, "file object, case %r:" % (case,))
        elif route == "text":
            got = obs.attempt(load_with, text, how)
        elif route in ("extend", "extend-abs", "extend-templates-dir"):
            ref = {"extend": "./tpl/only/t.txt", "extend-abs": path, "extend-templates-dir": "only/t.txt"}[route]
            if route == "extend-templates-dir":
                os.environ["TTP_TEMPLATES_DIR"] = os.path.abspath("tpl")
            got = obs.attempt(load_with, "<extend template='%s'/>" % ref, how)
        elif route in ("ttp://", "extend ttp://"):
            import ttp_templates
            ref = "platform/test_platform_show_run_pipe_sec_interface.txt"
            want = obs.attempt(load_with, ttp_templates.get_template(path=ref), how)
            got = obs.attempt(load_with, "ttp://" + ref if route[0] == "t" else "<extend template='ttp://%s'/>" % ref, how)
        elif route == "extend missing":
            want = obs.Raised(FileNotFoundError())
            got = obs.attempt(load_with, "<extend template='./tpl/only/none.txt'/>", how)
        elif route == "missing":
            want = obs.attempt(load_with, "tpl/only/none.txt", how)  # taken as text
            got = obs.attempt(load_with, "tpl/only/none.txt", how)
        else:  # two templates of one parser, loaded in different ways
            def both():
                p = obs.ttp(template=path)
                p.add_template(text)
                p.add_input(DATA, template_name="_all_")
                p.parse(one=True)
                return p.result()
            want, got = want + want, obs.attempt(both)
    finally:
        os.environ.pop("TTP_TEMPLATES_DIR", None)
        if env is not None:
            os.environ["TTP_TEMPLATES_DIR"] = env
    obs.expect(got, want, text, DATA, "case %r:" % (case,))
    return Outcome(h((route, want)), states=[h((route, text))], transitions=1)


def dir_cases():
    for n in (1, 2, 3):
        for names in itertools.permutations(["b.txt", "a.txt", "a10.txt", "a2"], n):
            for ks in itertools.product(range(3), repeat=n):
                for how in ("init", "add", "add twice"):
                    yield names, ks, how


def dir_fn(case):
    """a directory gives the templates of its files in order of their names"""
    names, ks, how = case
    os.makedirs("tpl/dir/sub", exist_ok=True)
    for old in os.listdir("tpl/dir"):
        if old != "sub":
            os.remove("tpl/dir/" + old)
    texts = {}
    for name, k in zip(names, ks):
        texts[name] = file_source(File(LOAD[k], k == 1))
        with open("tpl/dir/" + name, "w", encoding="utf-8") as f:
            f.write(texts[name])
    with open("tpl/dir/sub/t.txt", "w") as f:
        f.write("sub {{ sub }}")

    def load(many):
        p = obs.ttp(template=many[0]) if how == "init" else obs.ttp()
        for t in many if how != "init" else many[1:]:
            p.add_template(t)
        p.add_input(DATA, template_name="_all_")
        p.parse(one=True)
        return p.result()
    parts = [texts[n] for n in sorted(texts)]
    dirs = ["tpl/dir"]
    if how == "add twice":
        parts, dirs = parts * 2, [os.path.abspath("tpl/dir")] * 2
    want = obs.attempt(load, parts)
    obs.expect(obs.attempt(load, dirs), want, repr(texts), DATA, "case %r:" % (case,))
    return Outcome(h(want), states=[h(case)], transitions=len(parts))


def check(ck):
    ck.explore("directories", dir_cases, dir_fn, rule="every set of up to 3 files in a directory, 3 contents each, all orders of creation")
    ck.explore("top level", top_cases, compare, rule="all sequences of up to 2 (3 over a smaller set, thorough: the full set) tags and extend tags (25 files) at the top of a template")
    ck.explore("filters", filter_cases, compare, rule="all combinations of up to three (all: thorough) filters over two files")
    ck.explore("in groups", group_cases, compare, rule="all group bodies of up to 2 (3 over a smaller set, thorough: the full set) lines, child groups and extend tags, at two depths and for every group tag name")
    ck.explore("nested", nest_cases, compare, rule="chains of three extended files, at top level and in groups")
    ck.explore("macro", macro_cases, macro_fn, rule="every macro over every file")
    ck.explore("filters and inner extend tags", nest_filter_cases, compare, rule="all listed bodies with inner extend tags, filtered at one or two levels, at top level and in groups")
    ck.explore("loading", load_cases, load_fn, rule="every way to load a template or an extended template")
