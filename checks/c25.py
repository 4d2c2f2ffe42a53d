"""C25: every way of supplying data and of running TTP. All short texts over a line
alphabet with every assignment of line endings go through every route, all results are
compared with a reference model of the template and with one another; all small
directories with every extension and filter setting; all command line options."""
import contextlib
import importlib
import io
import itertools
import json
import os
import re
import sys
from xml.sax.saxutils import escape

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of texts, line endings, directory contents and option sets; every supply route executed on the real code against a reference model and against each other"
ASSUMPTIONS = [
    "a line ends with LF or CRLF; a lone carriage return is not a line ending",
    "extensions are the part of a file name after its last dot and are given without a dot",
    "the same text added twice to one input, and an empty string given to ttp() or quick_parse(), are outside the property",
]
DEEP = "thorough" in sys.argv
ttp = obs.ttp

# ------------------------------------------------------------ templates with a reference model
T_GROUP = '<group name="p*">\nint {{ n }}\n des {{ d | re(".+") }}\n</group>'
T_LINE = '<group name="p*">\nint {{ n }}\n{{ rest | _line_ | joinmatches(";") }}\nend {{ _end_ }}\n</group>'
T_HEAD = '<group name="t*">\nAA  BB   {{ _headers_ | columns(1) }}\n</group>'
T_VARS = '<vars name="v">\nhost = "gethostname"\n</vars>\n<group name="p*" set="host">\nint {{ n }}\n</group>'
# same pattern text, separators and blanks at line ends
T_PHRASE = '<group name="p*">\nint {{ n }}\n des {{ d | ORPHRASE | let("x", "1") }}\n</group>\n<group name="q">\nint {{ w }} a\n</group>'


def m_group(lines):
    out = []
    for x in lines:
        if x.startswith("int ") and len(x.split()) == 2:
            out.append({"n": x.split()[1]})
        elif x.startswith(" des ") and out:
            out[-1]["d"] = x[5:].rstrip()
    return {"p": out} if out else {}


def m_head(lines):
    out = []
    for x in lines:
        # one mandatory column
        if x[:4].strip() and x != "AA  BB":
            r = {"AA": x[:4].strip(), "BB": x[4:].strip()}
            out.append(r)
    return {"t": out} if out else {}


LINES = {
    T_GROUP: ["int 1", " des a  b", "", "x"],
    T_LINE: ["int 1", " a b ", "", "end "],
    T_HEAD: ["AA  BB", "1   22", "1   2   3 ", "x"],
    T_VARS: ["int 1", "h1#show x", "int 2", ""],
    T_PHRASE: ["int 1", " des a b", " des c ", "int 1 a"],
}

# ------------------------------------------------------------ routes
def put(name, text):
    with open(name, "wb") as f:
        f.write(text.encode("utf-8"))
    return os.path.abspath(name)


def finish(p, **kw):
    p.parse(one=True)
    return p.result(**kw)


def r_ttp(tpl, text):
    return finish(ttp(data=text, template=tpl))


def r_add(tpl, text):
    p = ttp(template=tpl)
    p.add_input(text)
    return finish(p)


def r_set(tpl, text):
    p = ttp(data="int 77\n des other\nAA BB", template=tpl)
    p.set_input(text)
    return finish(p)


def r_later_template(tpl, text):
    p = ttp()
    p.add_template(tpl)
    p.add_input(data=text, template_name="_all_")
    return finish(p)


def r_stringio(tpl, text):
    return finish(ttp(io.StringIO(text, newline=""), tpl))


def r_file(tpl, text):
    return finish(ttp(put("one.txt", text), tpl))


def r_file_rel(tpl, text):
    put("one.txt", text)
    p = ttp(template=tpl)
    p.add_input("./one.txt")
    return finish(p)


def r_fileobj(tpl, text):
    put("one.txt", text)
    with open("one.txt", encoding="utf-8", newline="") as f:
        p = ttp(f, tpl)
    return finish(p)


def r_fileobj_text(tpl, text):
    put("one.txt", text)
    p = ttp(template=tpl)
    with open("one.txt", encoding="utf-8") as f:
        p.set_input(f)
    return finish(p)


def r_dir(tpl, text):
    os.makedirs("dir1", exist_ok=True)
    put("dir1/only.log", text)
    return finish(ttp("dir1", tpl))


def r_dir_slash(tpl, text):
    os.makedirs("dir1", exist_ok=True)
    p = ttp(template=tpl)
    p.add_input(os.path.dirname(put("dir1/only.log", text)) + "/")
    return finish(p)


def r_tag_text(tpl, text):
    return finish(ttp(template='<input load="text">%s</input>\n%s' % (escape(text), tpl)))


def r_tag_text_after(tpl, text):
    return finish(ttp(template='%s\n<input load="text" name="i1" groups="all">\n%s\n</input>' % (tpl, escape(text))))


def r_url(tpl, text):
    return finish(ttp(template='<input url="%s"/>\n%s' % (put("one.txt", text), tpl)))


def r_url_yaml(tpl, text):
    put("one.txt", text)
    return finish(ttp(template='<input load="yaml">\nurl:\n  - ./one.txt\n</input>\n%s' % tpl))


def r_url_python(tpl, text):
    put("one.txt", text)
    return finish(ttp(template="<input load=\"python\">\nurl = ['one.txt']\n</input>\n%s" % tpl))


def r_url_base(tpl, text):
    os.makedirs("dir2/sub", exist_ok=True)
    put("dir2/sub/a.txt", text)
    return finish(ttp(template='<template base_path="%s/dir2">\n<input load="yaml">\nurl: "/sub/"\n</input>\n%s\n</template>' % (os.getcwd(), tpl)))


def r_url_base_kw(tpl, text):
    os.makedirs("dir2/sub", exist_ok=True)
    put("dir2/sub/a.txt", text)
    return finish(ttp(template='<input url="sub/a.txt" groups="all"/>\n%s' % tpl, base_path=os.getcwd() + "/dir2/"))


def r_group_input(tpl, text):
    # every top group names the file
    return finish(ttp(template=tpl.replace("<group name", '<group input="%s" name' % put("one.txt", text))))


def r_group_input_base(tpl, text):
    put("one.txt", text)
    return finish(ttp(template="<template base_path='./'>\n%s\n</template>" % tpl.replace("<group name", '<group input="one.txt" name')))


def r_quick(tpl, text):
    return obs.TTP.quick_parse(text, tpl, parse_kwargs={"one": True})


def r_quick_file(tpl, text):
    return obs.TTP.quick_parse(put("one.txt", text), put("tpl.txt", tpl), {"log_level": "ERROR"}, {}, {"structure": "list"})


def r_tpl_file(tpl, text):
    return finish(ttp(text, put("tpl.txt", tpl)))


def r_tpl_crlf(tpl, text):
    return finish(ttp(text, tpl.replace("\n", "\r\n")))


def r_tpl_fileobj(tpl, text):
    return finish(ttp(text, io.StringIO(tpl)))


def r_result_json(tpl, text):
    return json.loads(finish(ttp(text, tpl), format="json")[0]) if tpl else None


@contextlib.contextmanager
def argv(args):
    old = sys.argv
    sys.argv = ["ttp"] + args
    try:
        yield
    finally:
        sys.argv = old


def cli(*args):
    with argv(list(args)), obs.captured() as (out, _):
        importlib.import_module("ttp.ttp").cli_tool()
    return out.getvalue()


def r_cli(tpl, text):
    return json.loads(cli("-d", put("one.txt", text), "-t", put("tpl.txt", tpl), "-o", "json", "--one"))


def r_cli_text(tpl, text):
    return json.loads(cli("--data", "\n" + text, "--template", tpl, "--outputter", "json"))


ROUTES = [r_ttp, r_add, r_set, r_later_template, r_stringio, r_file, r_file_rel, r_fileobj, r_fileobj_text, r_dir, r_dir_slash,
          r_tag_text, r_tag_text_after, r_url, r_url_yaml, r_url_python, r_url_base, r_url_base_kw, r_group_input,
          r_group_input_base, r_quick, r_quick_file, r_tpl_file, r_tpl_crlf, r_tpl_fileobj, r_cli, r_cli_text]
NOT_EMPTY = {r_ttp, r_quick, r_tpl_file, r_tpl_crlf, r_tpl_fileobj, r_stringio, r_fileobj, r_tag_text}


def route_cases():
    for t in LINES:
        for n in range(0, 5 if DEEP else 4):
            for seq in itertools.product(range(len(LINES[t])), repeat=n):
                yield list(LINES).index(t), seq


def route_fn(case):
    tpl = list(LINES)[case[0]]
    lines = [LINES[tpl][i] for i in case[1]]
    want = None
    n = 0
    if tpl == T_GROUP:
        want = [[m_group(lines)]]
    elif tpl == T_HEAD:
        want = [[m_head(lines)]]
    base = r_add(tpl, "\n".join(lines))
    if want is None:
        want = base
    for ends in itertools.product(("\n", "\r\n"), repeat=len(lines)):
        if len(lines) > (3 if DEEP else 2) and len(set(ends)) > 1:
            continue
        for final in ("all", "last"):
            text = "".join(x + e for x, e in zip(lines, ends))
            if final == "last":
                if not lines:
                    continue
                text = text[: len(text) - len(ends[-1])]
            for r in ROUTES:
                if r in NOT_EMPTY and not text:
                    continue
                if r is r_result_json and "gethostname" in tpl:
                    continue
                got = r(tpl, text)
                n += 1
                obs.expect(got, want, tpl, text, "route %s:" % r.__name__[2:])
    return Outcome(h((case[0], want)), bool(want[0][0]), count=n, states=[h(case)], transitions=n)


# ------------------------------------------------------------ directories
NAMES = ["a.txt", "b.log", "c.txt.bak", "B.txt", "9.txt", "10.log", "plain"]
EXTS = [None, "txt", ["txt"], ["log", "txt"], ["bak"], ["conf"]]
FILTERS = [None, "a", "^[a-z]", ["^9", "^B"], ["txt", "^c"], ["log$", "0"], "nothing", ["nothing", r"\.txt$"]]
T_DIR = '<group name="f*">\nint {{ n }}\n</group>'
WAYS = 8


def dir_cases():
    for n in range(0, 4):
        for names in itertools.combinations(NAMES, n):
            yield names


def select(names, exts, filters):
    out = []
    for n in sorted(names):
        if exts is not None and n.split(".")[-1] not in ([exts] if isinstance(exts, str) else exts):
            continue
        if filters is not None and not any(re.search(f, n) for f in ([filters] if isinstance(filters, str) else filters)):
            continue
        out.append(n)
    return out


def dir_fn(names):
    import shutil
    d = os.path.abspath("files")
    os.makedirs(d + "/subdir.txt")
    put(d + "/subdir.txt/inner.txt", "int inner")
    try:
        for n in reversed(names):
            put(d + "/" + n, "int %s" % n)
        total = 0
        kinds = set()
        for exts, filters in itertools.product(EXTS, FILTERS):
            chosen = select(names, exts, filters)
            kinds.add(tuple(chosen))
            want = [[{"f": [{"n": n}]} for n in chosen]]
            y = ["url: %s" % d]
            py = {"url": d}
            attr = 'url="%s/"' % d
            if exts is not None:
                y.append("extensions: %s" % json.dumps(exts))
                py["extensions"] = exts
                attr += " extensions='%s'" % exts
            if filters is not None:
                y.append("filters: %s" % json.dumps(filters))
                py["filters"] = filters
                attr += " filters='%s'" % filters
            tags = ['<input load="yaml">\n%s\n</input>' % "\n".join(y),
                    '<input load="json">%s</input>' % json.dumps(py),
                    '<input load="python">\n%s\n</input>' % "\n".join("%s = %r" % i for i in py.items()),
                    '<in name="x" load="yaml">\n%s\n</in>' % "\n".join(reversed(y))]
            if not isinstance(exts, list) and not isinstance(filters, list):
                tags.append("<input %s/>" % attr)
            for tag in tags:
                tpl = tag + "\n" + T_DIR
                obs.expect(finish(ttp(template=tpl)), want, tpl, names, "directory:")
                total += 1
            # two urls: the directory and one file of it, in the order given
            if names:
                tag = '<input load="json">%s</input>' % json.dumps(dict(py, url=[d + "/" + names[0], d]))
                tpl = tag + "\n" + T_DIR
                obs.expect(finish(ttp(template=tpl)), [[{"f": [{"n": n}]} for n in [names[0]] + chosen]], tpl, names, "urls:")
                total += 1
        # the whole directory by every other route
        want = [[{"f": [{"n": n}]} for n in sorted(names)]]
        p = ttp(template=T_DIR)
        for got, note in ((r_ttp(T_DIR, d), "ttp()"), (r_add(T_DIR, d), "add_input"), (r_set(T_DIR, d), "set_input") if names else (want, ""),
                          (obs.TTP.quick_parse(d, T_DIR), "quick_parse"),
                          (json.loads(cli("-t", T_DIR, "-d", d, "-o", "json")), "cli"),
                          (r_group_dir(d), "group input"),
                          (json.loads(cli("-t", '<input url="les"/>' + T_DIR, "-dp", d[:-3], "-o", "json")), "cli prefix")):
            obs.expect(got, want, T_DIR, names, note + " directory:")
            total += 1
        # several additions keep their order
        for a, b in itertools.permutations(names, 2):
            p = ttp(template=T_DIR)
            p.add_input(d + "/" + a)
            p.add_input("int text")
            p.add_input(d + "/" + b)
            obs.expect(finish(p), [[{"f": [{"n": n}]} for n in (a, "text", b)]], T_DIR, (a, b), "additions:")
            total += 1
    finally:
        shutil.rmtree(d)
    return Outcome(h((names, sorted(kinds))), bool(names), count=total, states=[h(names)], transitions=total)


def r_group_dir(d):
    return finish(ttp(template=T_DIR.replace("<group", '<group input="%s"' % d)))


# ------------------------------------------------------------ command line options
CLI_TEMPLATES = {
    "plain": "int {{ n }}\n des {{ d | ORPHRASE }}",
    "group": '<group name="p*">\nint {{ n }}\n des {{ d | ORPHRASE }}\n</group>',
    "vars": '<vars name="v">\na = "x"\n</vars>\n<group name="p*" set="a">\nint {{ n }}\n{{ a | set("a") }}\n</group>',
    "two": '<template name="one">\n<group name="p*">\nint {{ n }}\n</group>\n</template>\n<template name="two" results="per_template">\n<group name="q">\n des {{ d | ORPHRASE }}\n</group>\n</template>',
    "two unnamed": '<template>\n<group name="p*">\nint {{ n }}\n</group>\n</template>\n<template>\n<group name="q">\n des {{ d | ORPHRASE }}\n</group>\n</template>',
    "input": '<input load="text">\nint 5\n</input>\n<group name="p*">\nint {{ n }}\n</group>',
    "one named": '<template name="one">\n<group name="p*">\nint {{ n }}\n</group>\n</template>',
    "input two": '<template name="one">\n<input load="text">\nint 5\n</input>\n<group name="p*">\nint {{ n }}\n</group>\n</template>\n<template name="two">\n<group name="q*">\nint {{ n }}\n</group>\n</template>',
}
CLI_DATA = ["int 1\n des it's\nint 2\n", "x", "int 1"]
CLI_VARS = [None, {}, {"a": "y"}, {"a": "it's"}, {"a": [1, {"b": None}]}, {"a": True}]


def parse_out(fmt, text):
    import ast
    import yaml
    if fmt == "json":
        return json.loads(text)
    if fmt == "yaml":
        return yaml.safe_load(text)
    return ast.literal_eval(text)


def cli_cases():
    for t in CLI_TEMPLATES:
        for d in list(range(len(CLI_DATA))) + [None]:
            for fmt in ("json", "yaml", "raw", "pprint", "", "JSON", "Yaml", "unsupported"):
                for structure in (None, "list", "dictionary", "flat_list"):
                    yield t, d, fmt, structure


def cli_fn(case):
    tname, d, fmt, structure = case
    text = CLI_TEMPLATES[tname]
    n = 0
    tpath = put("tpl.txt", text)
    pypath = put("tpl.py", repr({"A": "host {{ h }}", "B": text}))
    key = []
    for v in CLI_VARS:
        for ot in (None, "one", "two", "one, two", "_root_template_"):
            for place in (0, 1):
                if place and (ot or v):
                    continue
                args = ["-t", tpath] if not place else ["-t", pypath, "-tn", "B"]
                if d is not None:
                    args += ["-d", put("data.txt", CLI_DATA[d])]
                if fmt:
                    args += ["-o", fmt]
                if structure:
                    args += ["-s", structure]
                if ot:
                    args += ["-ot", ot]
                if v is not None:
                    args += ["-v", json.dumps(v)]
                out = cli(*args)
                n += 1
                if not fmt:
                    if out:
                        raise Violation("output without an outputter: %r" % out[:200])
                    continue
                p = ttp(template=text, vars=v or {})
                if d is not None:
                    p.clear_input()
                    p.add_input(CLI_DATA[d], template_name="_all_")
                want = finish(p, structure=structure or "list", **({"templates": [i.strip() for i in ot.split(",")]} if ot else {}))
                f = fmt.lower() if fmt.lower() in ("json", "yaml", "raw", "pprint") else "json"
                obs.expect(parse_out(f, out), want, text, args, "command line:")
                key.append(want)
    return Outcome(h((fmt, key)), any(key), count=n, states=[h(case)], transitions=n)


# ------------------------------------------------------------ input load
PARAMS = [None, {}, {"a": 1}, {"commands": ["x", "y"], "url": "nosuch/"}, {"name": "other", "k": [1, {"z": None}]}, ["l"]]


def load_cases():
    one = list(range(len(PARAMS)))
    for a, b in itertools.product(one, repeat=2):
        for c in one + [-1]:
            for add in range(3):
                yield a, b, c, add


def load_fn(case):
    a, b, c, add = case

    def tag(i, name, loader):
        if i == -1:
            return ""
        p = PARAMS[i]
        if p is None:
            return '<input load="text"%s>\nint 1\n</input>' % name
        if loader == "yaml":
            import yaml
            text = yaml.safe_dump(p)
        else:
            text = json.dumps(p)
        return '<input load="%s"%s>\n%s\n</input>' % (loader, name, text)

    def params(i):
        return PARAMS[i] or {}

    def iname(i, default):
        return PARAMS[i]["name"] if i >= 0 and isinstance(PARAMS[i], dict) and "name" in PARAMS[i] else default
    tpl = "<template name='t1'>\n%s\n%s\n<group name='g'>\nint {{ n }}\n</group>\n</template>\n<template name='t2'>\n%s\n<group name='g'>\nint {{ n }}\n</group>\n</template>" % (
        tag(a, " name='i1'", "yaml"), tag(b, "", "json"), tag(c, "", "json"))
    n1, n2, n3 = iname(a, "i1"), iname(b, "Default_Input"), iname(c, "Default_Input")
    # a name in the tag and another one in its text is not defined
    if n1 == n2 or a == 4:
        return Outcome("same name", False)
    want = {"t1": {n1: params(a), n2: params(b)}, "t2": {n3: params(c)} if c != -1 else {}}
    p = ttp(template=tpl)
    if add == 1:
        p.add_input("int 7", input_name="i1", template_name="t1")
        want["t1"].setdefault("i1", {})
    elif add == 2:
        p.add_input("int 7", input_name="new", template_name="_all_")
        want["t1"]["new"] = want["t2"]["new"] = {}
    obs.expect(p.get_input_load(), want, tpl, None, "get_input_load:")
    p.parse(one=True)
    obs.expect(p.get_input_load(), want, tpl, None, "get_input_load after parse:")
    return Outcome(h(want), True, states=[h(case)], transitions=2)


def check(ck):
    ck.explore("routes", route_cases, route_fn, rule="all texts of up to 3 (thorough 4) lines over four-line alphabets for five templates, every assignment of LF/CRLF to the lines, with and without a final newline, 27 routes each")
    ck.explore("directories", dir_cases, dir_fn, rule="all directories with up to 3 of 7 files, all extension and filter settings, all ways to write them")
    ck.explore("command line", cli_cases, cli_fn, rule="all combinations of template, data, outputter, structure, output templates and variables")
    ck.explore("input load", load_cases, load_fn, rule="all combinations of loaded parameters for three inputs of two templates, with later additions")
