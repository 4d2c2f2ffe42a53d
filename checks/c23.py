"""C23: the loaders. Every bounded structure is written in every notation of every
format by writers independent of the code, put into every tag that loads text (and into
included files and add_lookup), and read back through the public interface."""
import itertools
import json
import os
import sys
from xml.sax.saxutils import escape

from mc import obs
from mc.core import Outcome, Violation, h, same

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded structures in every notation of every loader and every tag, executed on the real parser, compared with the structure they denote"
ASSUMPTIONS = [
    "variables and lookup tables are dictionaries; ini values contain no percent sign, csv rows are as long as the header and have distinct column names",
    "an included file exists",
    "parameters of an input or output given twice, as attribute and in the text, are outside the property",
]
DEEP = "thorough" in sys.argv

STR = ["a", "", "1", "-1", "1.5", "x y", " x ", "true", "null", "~", "no", "\u00e9", "a: b", "#c", "x #c", "- d", "'", '"', "it's", 'q"q', "a\\b", "a\\nb", "l1\nl2",
       "t\tt", "<b>&amp;", "{{ x }}", "%s", "0x1", "1e3", "2020-01-01", "12:30", "[x]", "{", "*a", "&a", "!t", "|", ">", "@x", "a,b", "=", "None", "True", "\u4e2d\u6587", "a;b", "\n", "x\n"]
NUM = [0, 7, -1, 10 ** 20, 1.5, -0.25, True, False, None]
SMALL = ["a", "", 1, None, True, "a: b", "\u00e9", 1.5]
KEYS = ["a", "b", "x-y", "1", "k w", "\u00e9", "A"]


def values():
    for s in STR + NUM:
        yield s
    yield []
    yield {}
    for s in SMALL:
        yield [s]
        yield {"k": s}
        yield [[s]]
        yield [{"k": s}]
        yield {"k": [s]}
        yield {"k": {"j": s}}
    few = SMALL if DEEP else SMALL[:4]
    for s, t in itertools.product(few, repeat=2):
        yield [s, t]
        yield {"k": s, "j": t}
        yield {"k": [s, t], "j": {"k": t}}
        yield [{"k": s}, {"k": t}]
        yield [[s], [], t]
    yield [1, [2, [3, [4]]], {"a": {"b": {"c": [{"d": []}]}}}]


def structures():
    """top level dictionaries"""
    V = list(values())
    for v in V:
        yield {"a": v}
    for k in KEYS[1:]:
        for v in SMALL[:3] + [[1], {"k": "v"}]:
            yield {k: v}
    few = ["a", 1, "a: b", [], ["x", 1], {"k": "v"}, {}, None, "l1\nl2"]
    for v, w in itertools.product(few, repeat=2):
        yield {"b": v, "a": w}
    for v in few:
        yield {"a": v, "b": [v], "c": {"x": v, "y": [v, v]}, "d": 0}


# ------------------------------------------------------------ writers
def py_assign(d):
    if not all(k.isidentifier() for k in d):
        return None
    return "\n".join("%s = %r" % i for i in d.items())


def py_dict(d):
    return repr(d)


def py_multi(d):
    if not all(k.isidentifier() for k in d):
        return "{\n" + "".join("    %r: %r,  # c\n" % i for i in d.items()) + "}"
    out = ["# comment"]
    for k, v in d.items():
        if isinstance(v, str) and "\n" in v and "'" not in v and "\\" not in v:
            out.append("%s = '''%s'''" % (k, v))
        elif isinstance(v, list):
            out.append("%s = [" % k)
            out += ["    %r," % i for i in v]
            out.append("]  # end")
        elif isinstance(v, dict):
            out.append("%s = {" % k)
            out += ["    %r: %r," % i for i in v.items()]
            out.append("}")
        else:
            out.append("%s=%r" % (k, v))
        out.append("")
    return "\n".join(out)


def dq(s):
    return json.dumps(s, ensure_ascii=False)


def y_scalar(v, style):
    if v is None:
        return {"plain": "~", "sq": "null"}.get(style, "null")
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if style == "plain" and v and v.isascii() and v.replace(" ", "").isalpha() and v == v.strip() and v.lower() not in ("true", "false", "null", "yes", "no", "on", "off", "y", "n"):
        return v
    if style == "sq" and v.isprintable() and "\n" not in v:
        return "'" + v.replace("'", "''") + "'"
    return dq(v)


def y_block(v, ind, style):
    """lines of a non-empty structure"""
    pad = " " * ind
    out = []
    items = v.items() if isinstance(v, dict) else [(None, x) for x in v]
    for k, x in items:
        head = pad + ("- " if k is None else y_scalar(k, style) + ": ")
        if isinstance(x, (dict, list)) and x:
            sub = y_block(x, ind + 2, style)
            if k is None:
                out.append(head + sub[0][ind + 2:])
                out += sub[1:]
            else:
                out.append(head.rstrip())
                out += sub
        elif isinstance(x, (dict, list)):
            out.append(head + ("{}" if isinstance(x, dict) else "[]"))
        elif style == "literal" and isinstance(x, str) and "\n" in x and x.strip() and not x.startswith(("\n", " ")) and not x.endswith("\n\n") and x.isascii() and "\t" not in x:
            out.append(head + ("|" if x.endswith("\n") else "|-"))
            out += [pad + "  " + l for l in x.rstrip("\n").split("\n")]
        else:
            out.append(head + y_scalar(x, style))
    return out


def yaml(style):
    def w(d):
        if not d:
            return "{}" if isinstance(d, dict) else "[]"
        return "\n".join(y_block(d, 0, style))
    return w


def y_doc(d):
    return "---\n# comment\n" + yaml("dq")(d) + "\n...\n"


NOTATIONS = {
    ("python", "assignments"): py_assign,
    ("python", "dictionary"): py_dict,
    ("python", "multi-line"): py_multi,
    ("yaml", "plain"): yaml("plain"),
    ("yaml", "single quotes"): yaml("sq"),
    ("yaml", "literal blocks"): yaml("literal"),
    ("yaml", "document"): y_doc,
    ("yaml", "flow"): lambda d: json.dumps(d, ensure_ascii=False),
    ("YAML", "plain"): yaml("plain"),
    ("json", "one line"): lambda d: json.dumps(d),
    ("json", "indented"): lambda d: json.dumps(d, indent=2, ensure_ascii=False),
}


def included(text):
    name = "inc%s.txt" % h(text).hex()
    if not os.path.exists(name):
        with open(name, "w", encoding="utf-8") as f:
            f.write(text + "\n")
    return "./" + name


def tag_body(text, how):
    """(attributes, body) of a tag that carries the text"""
    if how == "include":
        return ' include="%s"' % included(text), ""
    if how == "cdata" and "]]>" not in text:
        return "", "\n<![CDATA[%s]]>\n" % text
    return "", "\n%s\n" % escape(text)


# ------------------------------------------------------------ places a structure is loaded in
def in_vars(load, text, want, how, attrs=""):
    a, b = tag_body(text, how)
    tpl = '<vars name="V" load="%s"%s%s>%s</vars>\n<group name="R">\nint {{ n }}\n</group>' % (load, attrs, a, b)
    got = obs.run1(tpl, "int 1\n")
    obs.expect(got, {"V": want, "R": {"n": "1"}} if want else {"R": {"n": "1"}}, tpl, "int 1", "vars:")


def strings(d, path=()):
    """paths of the dictionaries in a structure"""
    yield path, d
    for k, v in d.items():
        if isinstance(v, dict) and v and "." not in k and "," not in k and not set(k) & set("<>&'\"\n") and k == k.strip():
            yield from strings(v, path + (k,))


def lookups_of(load, text, want, how, attrs=""):
    """every entry of every dictionary of the table looked up"""
    lines, data, exp = [], [], {}
    for i, (path, d) in enumerate(strings(want)):
        ref, w = ".".join(("L",) + path), "q" + chr(ord("a") + i)
        lines.append('<group name="t%d*">\n%s {{ v | ORPHRASE | lookup("%s", add_field="f") }}\n</group>' % (i, w, ref))
        exp["t%d" % i] = []
        for k, v in d.items():
            if k.strip() != k or not k or "\n" in k:
                continue
            data.append(w + " " + k)
            exp["t%d" % i].append({"v": k, "f": v})
        data.append(w + " zzz")
        exp["t%d" % i].append({"v": "zzz"})
    head = ""
    p = obs.ttp()
    if not how.startswith("add"):
        a, b = tag_body(text, how)
        head = '<lookup name="L" load="%s"%s%s>%s</lookup>\n' % (load, attrs, a, b)
    tpl = head + "\n".join(lines)

    def go():
        p.add_template(tpl)
        kw = {"key": attrs.split('"')[1]} if attrs else {}
        if how == "add":
            p.add_lookup("L", text_data=text + "\n", load=load, **kw)
        elif how == "add include":
            p.add_lookup(name="L", include=included(text), load=load, **kw)
        p.add_input("\n".join(data) + "\n")
        p.parse(one=True)
        return p.result()
    got = obs.attempt(go)
    obs.expect(got, [[exp]], tpl, text, "lookup (%s, %s):" % (how, load))


def in_input(load, text, want, how, attrs=""):
    a, b = tag_body(text, how)
    tpl = '<input name="i1" load="%s"%s%s>%s</input>\n<input name="i2" load="text">\nint 1\n</input>\n<group name="R">\nint {{ n }}\n</group>' % (load, attrs, a, b)

    def go():
        p = obs.ttp(template=tpl)
        load1 = p.get_input_load()
        p.parse(one=True)
        return load1, p.result(), p.get_input_load()
    got = obs.attempt(go)
    exp = {"_root_template_": {"i1": want, "i2": {}}}
    obs.expect(got, (exp, [[{"R": {"n": "1"}}]], exp), tpl, "", "input parameters:")


def in_output(load, text, want, how, attrs="", tpl_vars="", other=None):
    """is_equal compares the results with the structure of the output tag"""
    for t, eq in ((text, True), (other, False)):
        if t is None:
            continue
        a, b = tag_body(t, how)
        tpl = '%s\n<group name="R">\nint {{ n }}\n</group>\n<output load="%s" functions="is_equal"%s>%s</output>' % (tpl_vars, load, a, b)
        r = obs.attempt(obs.run, tpl, "int 1\n")
        got = r[0]["is_equal"] if isinstance(r, list) and isinstance(r[0], dict) else r
        obs.expect(got, eq, tpl, t, "output with the results written as %s:" % load)


def structure_cases():
    # input parameter names that mean something to TTP are not among the keys
    for d in structures():
        for (load, style) in NOTATIONS:
            yield d, load, style


def different(d):
    """a structure that differs in one leaf"""
    d = json.loads(json.dumps(d))
    node = d
    while True:
        k = list(node)[-1] if isinstance(node, dict) else len(node) - 1
        x = node[k]
        if isinstance(x, (dict, list)) and x:
            node = x
            continue
        node[k] = "other" if x != "other" else "another"
        return d


def structure_fn(case):
    d, load, style = case
    w = NOTATIONS[load, style]
    text = w(d)
    if text is None:
        return Outcome("not expressible", False)
    n = 0
    for how in ("text", "include", "cdata"):
        if how == "cdata" and style not in ("dictionary", "plain", "indented"):
            continue
        in_vars(load, text, d, how)
        lookups_of(load, text, d, how)
        in_input(load, text, d, how)
        n += 3
    lookups_of(load, text, d, "add")
    lookups_of(load, text, d, "add include")
    # the results of a template that saves the same variables, as a list and as a dictionary
    vars_tag = '<vars name="V" load="json">%s</vars>' % escape(json.dumps(d))
    res = [{"R": {"n": "1"}, "V": d}]
    t = {"python": repr, "json": json.dumps}.get(load.lower(), yaml("plain"))(res)
    o = different(d)
    for how in ("text", "include"):
        in_output(load, t, res, how, tpl_vars=vars_tag, other={"python": repr, "json": json.dumps}.get(load.lower(), yaml("plain"))([{"R": {"n": "1"}, "V": o}]))
    return Outcome(h(d), states=[h((load, text))], transitions=n + 6)


# ------------------------------------------------------------ ini
INI_V = ["a", "", "x y", "1", "a: b", "a = b", "x ; c", "x # c", "\u00e9", "[x]", "'q'", '"q"', "<b>&", "a\nb", "{{ x }}"]
INI_K = ["k", "K", "a b", "-mel-", "1", "\u00e9"]


def ini_structures():
    for k in INI_K:
        for v in INI_V:
            yield {"s": {k: v}}
    for v, w in itertools.product(INI_V if DEEP else INI_V[:8], repeat=2):
        yield {"s": {"k": v, "j": w}}
        yield {"s": {"k": v}, "t": {"k": w}}
        yield {"s": {"k": v}, "S": {"j": w, "k": v}, "empty": {}}
    for s in ("s", "S t", "1", "a-b", "\u00e9"):
        yield {s: {"k": "v"}}
        yield {s: {}}
        yield {"x": {"k": "1"}, s: {"k": "2"}, "z": {"k": "3"}}


def ini_text(d, style):
    out = []
    sep = {"=": " = ", ":": " : ", "tight": "="}[style]
    for s, items in d.items():
        out.append("[%s]" % s)
        if style == ":":
            out += ["; comment", "# comment"]
        for k, v in items.items():
            out.append(k + sep + v.replace("\n", "\n  "))
        if style != "tight":
            out.append("")
    return "\n".join(out)


def ini_cases():
    for d in ini_structures():
        for style in ("=", ":", "tight"):
            yield d, style


def ini_fn(case):
    d, style = case
    text = ini_text(d, style)
    for how in ("text", "include"):
        in_vars("ini", text, d, how)
        lookups_of("ini", text, d, how)
        in_input("ini", text, d, how)
    lookups_of("ini", text, d, "add")
    lookups_of("ini", text, d, "add include")
    return Outcome(h(d), states=[h(text)], transitions=8)


def ini_default_cases():
    """values of the DEFAULT section hold in every section"""
    for k in ("k", "x"):
        for v in ("1", ""):
            for secs in ([], ["s"], ["s", "t"]):
                for own in (0, 1):
                    yield k, v, tuple(secs), own


def ini_default_fn(case):
    k, v, secs, own = case
    d = {"DEFAULT": {k: v}}
    text = "[DEFAULT]\n%s = %s\n" % (k, v)
    for s in secs:
        d[s] = {k: v, "own": "o"}
        text += "[%s]\nown = o\n" % s
        if own:
            d[s][k] = "mine"
            text += "%s = mine\n" % k
    for how in ("text", "include"):
        in_vars("ini", text, d, how)
        lookups_of("ini", text, d, how)
    lookups_of("ini", text, d, "add")
    return Outcome(h(d), states=[h(text)], transitions=5)


# ------------------------------------------------------------ csv
CELLS = ["a", "", "b c", "x,y", 'q"r', "\u00e9", "l1\nl2", " s ", "1", "'z'", "<&>"]


def csv_cell(c, style):
    if style == "all" or any(x in c for x in ',"\n') or (style == "min" and c == ""):
        return '"' + c.replace('"', '""') + '"'
    return c


def csv_tables():
    few = CELLS if DEEP else ["a", "", "x,y", 'q"r', "l1\nl2", " s "]
    yield ["id", "v"], []
    yield ["id"], []
    for a in CELLS:
        if a:
            yield ["id"], [[a]]
            yield [a, "v"], [["1", "2"]]
            yield ["id", a], [["1", "2"]]
        for b in CELLS:
            yield ["id", "v"], [[a, b]]
    for a, b, c in itertools.product(few, repeat=3):
        yield ["id", "v", "w"], [[a, b, c]]
        yield ["id", "v"], [["1", a], [b, c]]
    for a, b in itertools.product(few, repeat=2):
        yield ["id", "v", "w"], [["1", a, "k"], ["2", b, "k"], ["1", "z", a]]


def csv_cases():
    for head, rows in csv_tables():
        for style in ("min", "all", "blank lines"):
            yield head, rows, style


def csv_fn(case):
    """all key columns one after another in one process, from one file"""
    head, rows, style = case
    got = []
    for key in [None] + head + ["no such"]:
        if key is not None and ('"' in key or "\n" in key or "<" in key):
            continue
        got.append(csv_key(head, rows, key, style))
    return Outcome(tuple(o.key for o in got), any(o.nontrivial for o in got), states=sorted({s for o in got for s in o.states or ()}), transitions=sum(o.transitions for o in got), count=len(got))


def csv_key(head, rows, key, style):
    lines = [",".join(csv_cell(c, style) for c in r) for r in [head] + rows]
    text = ("\n\n" if style == "blank lines" else "\n").join(lines) + ("\n\n" if style == "blank lines" else "")
    k = key or head[0]
    d = {}
    if k in head:
        for r in rows:
            row = dict(zip(head, r))
            d[row.pop(k)] = row
    if style == "blank lines" and any(r == [""] for r in rows):
        return Outcome("a blank line is no row", False)
    attrs = ' key="%s"' % escape(key) if key else ""
    if not d:
        return Outcome("empty", False)
    for how in ("text", "include", "cdata"):
        in_vars("csv", text, d, how, attrs)
        if not any("\n" in x or x != x.strip() for x in d):
            lookups_of("csv", text, d, how, attrs)
    if not any("\n" in x for x in d):
        lookups_of("csv", text, d, "add", attrs)
        lookups_of("csv", text, d, "add include", attrs)
    return Outcome(h(d), states=[h(text)], transitions=8)


# ------------------------------------------------------------ parameters in attributes or text
OUT_PARAMS = [("format", ["csv", "table", "tabulate"]), ("path", [None, "g", "h"]), ("headers", [None, "n, d", ["n", "d"], ["d"]]), ("missing", [None, "--"]), ("sep", [None, ";"])]
IN_PARAMS = [("name", [None, "i9"]), ("groups", [None, "g", "g, h", "none", ["h"], ["g", "h"]]), ("url", ["./in1/", "./in1/a.txt", ["./in1/a.txt", "./in1/b.log"]]), ("extensions", [None, "txt", ["txt", "log"]]), ("filters", [None, "a", ["a", "x"]]), ("functions", [None, "macro('sub')"])]


def param_cases():
    for kind, params in (("output", OUT_PARAMS), ("input", IN_PARAMS)):
        names = [n for n, _ in params]
        for combo in itertools.product(*[v for _, v in params]):
            p = {n: v for n, v in zip(names, combo) if v is not None}
            for load, style in (("python", "assignments"), ("yaml", "plain"), ("json", "indented")) + ((("python", "dictionary"),) if DEEP else ()):
                yield kind, p, load, style


PARAM_TPL = """<macro>
def sub(data):
    return data.replace("int", "vlan")
</macro>
%s
<group name="g*">
int {{ n }}
 des {{ d }}
</group>
<group name="h*">
vlan {{ n }}
 des {{ d }}
</group>
%s
"""
param_memo = {}


def param_run(kind, tag):
    if tag not in param_memo:
        data = "int 1\n des a\nvlan 3\nint 2\nvlan 4\n des b\n"
        param_memo[tag] = obs.attempt(obs.run, PARAM_TPL % (("", tag) if kind == "output" else (tag, "")), data if kind == "output" else None)
    return param_memo[tag]


def param_fn(case):
    kind, p, load, style = case
    if kind == "input":
        os.makedirs("in1", exist_ok=True)
        for f, t in (("a.txt", "int 1\nvlan 2\n"), ("b.log", "int 3\n des x\n"), ("ax.txt", "vlan 5\n")):
            if not os.path.exists("in1/" + f):
                with open("in1/" + f, "w") as fd:
                    fd.write(t)

    def attr(n, v):
        return ' %s="%s"' % (n, v) if not isinstance(v, list) else None
    lists = {n: v for n, v in p.items() if isinstance(v, list)}
    if kind == "output" and lists:
        ref = '<output%s/>' % "".join(attr(n, ", ".join(v) if isinstance(v, list) else v) for n, v in p.items())
    elif lists:
        # lists cannot be attributes: all of them in the text of another format
        ref = '<input load="json">%s</input>' % json.dumps(p) if load != "json" else '<input>%s</input>' % repr(p)
    else:
        ref = "<%s%s/>" % (kind, "".join(attr(n, v) for n, v in p.items()))
    want = param_run(kind, ref)
    if isinstance(want, obs.Raised):
        raise Violation("parameters as attributes: %s: %r" % (ref, want))
    names = list(p)
    # any subset of the parameters in the text, the others as attributes
    for r in range(len(names) + 1):
        for sub in itertools.combinations(names, r):
            inside = {n: p[n] for n in sub}
            outside = {n: v for n, v in p.items() if n not in sub}
            if any(isinstance(v, list) for v in outside.values()) or not inside:
                continue
            text = NOTATIONS[load, style](inside)
            for order in (0, 1):
                at = "".join(attr(n, v) for n, v in outside.items())
                at = ' load="%s"%s' % (load, at) if order else '%s load="%s"' % (at, load)
                tag = "<%s%s>\n%s\n</%s>" % (kind, at, escape(text), kind)
                obs.expect(param_run(kind, tag), want, tag, ref, "%s parameters:" % kind)
    return Outcome(h(want), states=[h((kind, repr(p)))], transitions=2 ** len(names))


# ------------------------------------------------------------ text that does not load
BROKEN = {
    "python": ["a = ", "{", "a b", "= 1", "for", "'x", "a = [1,", " x = 1\ny = 2\n  z", "def f(:\n"],
    "yaml": ["a: b: c", "a: [1", "- a\nb: c", "a: 'x", "\ta: 1", "a: 1\n  b: 2", "{a: 1", "%", "@", "a: *x", "a: !!python/object:os.x {}"],
    "json": ["{", "{a: 1}", "{'a': 1}", "[1,]", "nul", '{"a": 1,}', '{"a": 1} x', "\"", "{\"a\" 1}"],
    "ini": ["a = 1", "[s", "x y z", "]"],
    "csv": [],
}


def broken_cases():
    for load, texts in BROKEN.items():
        for t in texts + ["", "\n"] + ([" ", "  \n  "] if load != "csv" else []):
            for kind in ("vars", "named vars", "vars include", "lookup", "lookup include", "input", "output", "add_lookup"):
                for pos in (0, 1):
                    yield load, t, kind, pos


REST = """<vars name="W">
w = 1
</vars>
<lookup name="L2" load="python">
{"1": "one"}
</lookup>
<group name="g*">
int {{ n | lookup("L2", add_field="f") | lookup("L", add_field="l") | rlookup("L", add_field="r") }}
{{ w | set("w") }}
</group>
"""


def broken_fn(case):
    load, t, kind, pos = case
    data = "int 1\nint 2\n"
    want = obs.run1(REST, data)
    tag = {"vars": '<vars load="%s">%s</vars>', "named vars": '<vars name="V" load="%s">%s</vars>', "lookup": '<lookup name="L" load="%s">%s</lookup>',
           "input": '<input name="x" load="%s">%s</input>', "output": '<output load="%s" format="raw">%s</output>'}
    if kind.endswith("include"):
        tag = '<%s load="%s" include="%s"/>' % (kind.split()[0] + (' name="L"' if "lookup" in kind else ""), load, included(t))
    elif kind == "add_lookup":
        tag = ""
    else:
        tag = tag[kind] % (load, "\n" + escape(t) + "\n" if t else "")
    tpl = tag + "\n" + REST if pos else REST + tag

    def go():
        p = obs.ttp(template=tpl)
        if kind == "add_lookup":
            p.add_lookup("L", text_data=t, load=load)
        p.add_input(data)
        p.parse(one=True)
        return p.result()
    with obs.captured():
        got = obs.attempt(go)
    if kind == "input" and isinstance(got, list):
        got = [[i for i in got[0] if i != {"W": {"w": 1}} and i]]
        want = want if want else want
    obs.expect(got, [[want]], tpl, t, "text that does not load in a %s tag (%s):" % (kind, load))
    return Outcome(h((load, kind)), states=[h(case)], transitions=1)


# ------------------------------------------------------------ parameters that are no dictionary
def plain_cases():
    for v in ([], ["a"], [1, 2], [{"a": 1}, {"b": [2]}], ["a", ["b"]], "text", 7, [None], {1: "x"}, {None: 1, True: 2}, {1.5: {2: "x"}}):
        for load in ("python", "yaml", "json"):
            yield v, load


def plain_fn(case):
    v, load = case
    if load == "json" and isinstance(v, dict):
        return Outcome("not json", False)
    text = repr(v) if load == "python" else json.dumps(v) if load == "json" or not isinstance(v, dict) else "{%s}" % ", ".join("%s: %s" % ("null" if k is None else json.dumps(k), json.dumps(x) if not isinstance(x, dict) else "{2: x}") for k, x in v.items())
    if load == "python" and isinstance(v, (str, int)):
        return Outcome("no structure", False)
    in_input(load, text, v if v else {}, "text")
    return Outcome(h(repr(v)), states=[h(case)], transitions=1)


# ------------------------------------------------------------ text and files together
PARTS = [{}, {"a": "1"}, {"b": "2"}, {"a": "3", "b": "4"}, {"c": "5", "a": "6"}]


def parts_text(load, d, head):
    if load == "python":
        return "".join("%s = %r\n" % i for i in d.items())
    if load == "yaml":
        return "".join("%s: '%s'\n" % i for i in d.items())
    if load == "csv":
        return ("k,v\n" if head else "") + "".join("%s,%s\n" % i for i in d.items())
    if load == "ini":
        return "[s]\n" + "".join("%s = %s\n" % i for i in d.items()) if d else ""
    return json.dumps(d) if d else ""


def parts_cases():
    for load in ("python", "yaml", "csv", "ini", "json"):
        for text in PARTS:
            for n in (1, 2, 3) if DEEP else (1, 2):
                for files in itertools.product(PARTS, repeat=n):
                    for where in ("file", "dir") if n == 1 else ("dir",):
                        if load == "json" and sum(bool(d) for d in (text,) + files) > 1:
                            continue
                        yield load, text, files, where


def parts_fn(case):
    """a tag's text is followed by the files of its include attribute in the order of their names, a key given again
    replaces its value; sections of ini files come first, so that the text of the tag decides"""
    load, text, files, where = case
    if not any((text,) + files):
        return None
    order = list(files) + [text] if load == "ini" else [text] + list(files)
    want, bodies = {}, []
    head = True
    for d in (text,) + files:
        bodies.append(parts_text(load, d, head and bool(d)))
        head = head and not d
    for d in order:
        want.update({k: {"v": v} for k, v in d.items()} if load == "csv" else d)
    if load == "ini":
        want = {"s": want}
    base = "parts%s" % h(case).hex()
    if not os.path.exists(base):
        os.mkdir(base)
        # files are made in the reverse order of their names
        for i, b in reversed(list(enumerate(bodies[1:]))):
            with open(os.path.join(base, "f%d.txt" % i), "w", encoding="utf-8") as f:
                f.write(b)
    path = "./%s/f0.txt" % base if where == "file" else "./%s/" % base
    attrs = ' include="%s"' % path
    body = "\n%s" % bodies[0] if text else ""
    tags = [("vars", '<vars name="V" load="%s"%s>%s</vars>' % (load, attrs, body))]
    tags.append(("lookup", '<lookup name="L" load="%s"%s>%s</lookup>' % (load, attrs, body)))
    for kind, tag in tags:
        if kind == "vars":
            got = obs.run1(tag + '\n<group name="R">\nint {{ n }}\n</group>', "int 1\n")
            obs.expect(got, {"V": want, "R": {"n": "1"}}, tag, bodies, "text and files, %r:" % (case,))
        else:
            ref = "L.s" if load == "ini" else "L"
            tbl = want["s"] if load == "ini" else want
            got = obs.run1(tag + '\n<group name="R*">\nint {{ n | lookup("%s", add_field="f") }}\n</group>' % ref, "int a\nint b\nint c\nint d\n")
            exp = [dict({"n": k}, **({"f": tbl[k]} if k in tbl else {})) for k in "abcd"]
            obs.expect(got, {"R": exp}, tag, bodies, "text and files, %r:" % (case,))
    p = obs.ttp()
    ref = "L.s" if load == "ini" else "L"
    tbl = want["s"] if load == "ini" else want
    p.add_template('<group name="R*">\nint {{ n | lookup("%s", add_field="f") }}\n</group>' % ref)
    p.add_lookup("L", text_data=bodies[0], include=path, load=load)
    p.add_input("int a\nint b\nint c\nint d\n")
    got = obs.attempt(lambda: (p.parse(one=True), p.result())[1])
    obs.expect(got, [[{"R": [dict({"n": k}, **({"f": tbl[k]} if k in tbl else {})) for k in "abcd"]}]], load, bodies, "add_lookup with text and files, %r:" % (case,))
    return Outcome(h(want), sum(map(bool, order)) > 1, states=[h(bodies)], transitions=3)


def check(ck):
    ck.explore("text and files", parts_cases, parts_fn, rule="every text of a tag with every list of up to 2 (3) files, given as a file or a directory, overlapping keys, all formats")
    ck.explore("structures", structure_cases, structure_fn, rule="all structures of the value set to depth four at one or two (three) keys, in every notation of python, yaml and json, in vars, lookup, input and output tags, included files and add_lookup")
    ck.explore("ini", ini_cases, ini_fn, rule="all ini structures of up to three sections and two keys in three notations")
    ck.explore("ini defaults", ini_default_cases, ini_default_fn, rule="all DEFAULT sections beside up to two sections")
    ck.explore("csv", csv_cases, csv_fn, rule="all csv tables of up to three columns and rows over the cell set, every key column, three notations")
    ck.explore("parameters", param_cases, param_fn, rule="all combinations of input and output parameters, every split between attributes and text, every format")
    ck.explore("unloadable text", broken_cases, broken_fn, rule="all listed malformed texts in every tag, before and after the other tags")
    ck.explore("other parameters", plain_cases, plain_fn, rule="input parameters that are lists, scalars or have keys that are no strings")
