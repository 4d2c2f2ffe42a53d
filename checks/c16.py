"""C16: formatters over every small result structure and option combination,
read back by independent readers."""
import ast
import copy
import csv
import io
import itertools
import json
import os
import shutil
import sys

import openpyxl
import tabulate as tabulate_module
import yaml

from mc import obs
from mc.core import Outcome, Violation, h, same, first_difference

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded result structures and formatter options on the real formatters, read back by independent readers and compared with a reference table model"
ASSUMPTIONS = [
    "json keys are strings; records given to table formatters are flat dictionaries at the given path",
    "csv text is read by the csv module with the same separator and quote character, quotes inside values doubled",
    "tabulate's own rendering of a table is taken from the tabulate library; excel files are read back by openpyxl",
]
DEEP = "thorough" in sys.argv

LEAVES = ["", "a", " a ", "a b", ",", ";", '"', "'", "a\"b'c", "x\ny", "x\n", "\ttab", "|", "é", "日本", "\u2028", "yes", "no", "null", "~", "1", "01", "1e3",
          "1.0", "0x1F", "12:30:45", "2020-01-01", ": ", "k: v", "- i", "# c", "!t", "&a", "*a", "{}", "[]", "%d", "{{ x }}", "\\n", "\\", "=", "<<", "?", "@", "`", ">", "|\n x",
          0, 1, -5, 1.5, True, False, None, [], {}]
CORE = ["", "a", " a ", "a,b", '"', "x\ny", "é", "yes", "01", ": ", "\\n", 1, True, None, [], {}]
KEYS = ["k", "k2", " k", "a.b", "a b", "é", "", "yes", "1", '"', ":", "#x", "x\ny", "-", "~"]


class Carrier:
    """hands a structure to the outputs of a template"""

    def __init__(self):
        self.data = None

    def __call__(self, data):
        return self.data


CARRIER = Carrier()


def inject(data):
    return CARRIER.data


def deliver(data, route, attrs, text=""):
    """formatted data through result(), an output tag, or a group output; None tag text"""
    CARRIER.data = data
    before = copy.deepcopy(data)
    p = obs.ttp()
    p.add_function(inject, scope="output", name="inject")
    if route == "result":
        p.add_template("x {{ x }}")
        p.add_input("x 1")
        p.parse(one=True)
        got = p.result(functions="inject()", **attrs)[0]
    else:
        def q(v):
            s = str(v)
            for a, b in (("&", "&amp;"), ("<", "&lt;"), ('"', "&quot;"), ("\n", "&#10;"), ("\t", "&#9;")):
                s = s.replace(a, b)
            return s
        tag = "<output name='o' functions='inject()' %s" % " ".join('%s="%s"' % (k, q(v)) for k, v in attrs.items())
        tag += ">\n%s\n</output>\n" % text if text else "/>\n"
        p.add_template(tag + ("<group name='g' output='o'>\nx {{ x }}\n</group>\n" if route == "group" else "<group name='g'>\nx {{ x }}\n</group>\n"))
        p.add_input("x 1")
        p.parse(one=True)
        got = p.result()[0]
        if route == "group":
            got = got[0][0]
    if not same(before, data):
        raise Violation("formatting %r changed the results: %s" % (attrs, first_difference(before, data)))
    return got


# ------------------------------------------------------------ json, yaml, pprint
SHAPES = [
    lambda x, y: [{"k": x, "m": y}],
    lambda x, y: [[{"k": x}, {"k": y}]],
    lambda x, y: [{"g": [x, y]}],
    lambda x, y: [{"g": {"h": {"k": x}, "i": [{"k": y}]}}],
    lambda x, y: {"a": {"b": x}, "c": [[y], {"z": x}]},
    lambda x, y: [{}, {"k": x}, [], {"k": [y]}],
    lambda x, y: [{"k": {"k": {"k": [x, {"k": y}]}}}],
]
BACK = {"json": json.loads, "yaml": yaml.safe_load, "pprint": ast.literal_eval}


def trip_cases():
    for fmt in BACK:
        for i in range(len(SHAPES)):
            ls = LEAVES if DEEP else CORE[:12]
            for x, y in itertools.product(ls, repeat=2):
                yield (fmt, "result", i, x, y)
        for x in LEAVES:
            for y in (LEAVES if DEEP else CORE[5:]):
                for i in (0, 3):
                    yield (fmt, "tag" if i else "result", i, x, y)
            for i in range(len(SHAPES)):
                for route in ("tag", "group"):
                    yield (fmt, route, i, x, "b")
        for a, b in itertools.permutations(KEYS, 2):
            for v in (CORE if DEEP else CORE[5:9]):
                yield (fmt, "result", (a, b), v, "v")
        for n in (0, 1, 3, 40):
            yield (fmt, "result", None, n, "long " * 40)
            yield (fmt, "tag", None, n, "x" * 300)


def trip_fn(case):
    fmt, route, i, x, y = case
    if i is None:
        data = [{"k%d" % j: y for j in range(x)}] * (x % 4)
    elif isinstance(i, tuple):
        data = [{i[0]: x, i[1]: {i[0]: y, i[1]: [x]}}]
    else:
        data = SHAPES[i](copy.deepcopy(x), copy.deepcopy(y))
    got = deliver(data, route, {"format": fmt})
    if not isinstance(got, str):
        raise Violation("%s output of %r is no text: %r" % (fmt, data, got))
    try:
        back = BACK[fmt](got)
    except Exception as e:
        raise Violation("%s output cannot be loaded: %s\ndata %r\noutput %r" % (fmt, e, data, got))
    obs.expect(back, data, got, None, "%s round trip (%s):" % (fmt, route))
    return Outcome(h(got), bool(data), transitions=1)


# ------------------------------------------------------------ tables
def model_table(records, headers, missing):
    head = list(headers) if headers else sorted({k for r in records for k in r})
    return [head] + [[r[k] if k in r else missing for k in head] for r in records]


VALUES = ["v", "", "w x", 7]
NASTY = ["a,b", 'q"q', "n\nm", "é;", " s ", "'", '","', '"', "\t", "a|b", '""', "x,\"y\",z", "\\", "`", "\r\n"]


def record_sets():
    opts = [dict(zip(ks, vs)) for ks in ((), ("a",), ("b",), ("a", "b"), ("b", "c"), ("c", "a", "b"))
            for vs in itertools.product(("v", "w x"), repeat=len(ks))]
    yield []
    for r in opts:
        yield [r]
    for r, s in itertools.product(opts, repeat=2):
        yield [r, s]
    short = [{"a": "v"}, {"b": "", "a": "1"}, {"c": 7, "b": None}, {}]
    for t in itertools.product(short, repeat=3):
        yield [copy.deepcopy(r) for r in t]


HEADERS = [None, "a, b", "c,a", "b", "z, a", ["b", "a"], "a,b,c,z"]


def place(records, how):
    """the records at a path; returns (data, path, strict)"""
    r = records
    if how == "list":
        return [r], None
    if how == "items":
        return [[x] for x in r], None
    if how == "dicts":
        return list(r), None
    if how == "single":
        return (r[0] if r else {}), None
    if how == "path":
        return [{"p": {"q": r}, "other": {"a": "no"}}], "p.q"
    if how == "path-two":
        return [{"p": {"q": r[:1]}}, {"p": {"q": r[1:]}}], "p.q"
    if how == "path-dict":
        return [{"p": x} for x in r], "p"
    if how == "path-gap":
        return [{"p": r}, {"other": 1}, {"p": []}, {}], "p"
    if how == "inner-lists":
        return [[{"p": x} for x in r[:2]], [{"p": x} for x in r[2:]]], "p"
    if how == "deep":
        return {"p": {"q": {"r": r}}}, "p . q. r"
    raise ValueError(how)


PLACES = ["list", "items", "dicts", "single", "path", "path-two", "path-dict", "path-gap", "deep"]


def table_cases():
    rs = list(record_sets())
    for i, records in enumerate(rs):
        for how in PLACES:
            if how == "single" and len(records) > 1:
                continue
            for j, headers in enumerate(HEADERS):
                for missing in ("", "-"):
                    if not DEEP and (i + j + len(how) + len(missing)) % 4:
                        continue
                    yield (records, how, headers, missing, ("result", "tag", "group")[(i + j) % 3])


def model_rows(records, how):
    # an empty record at its place is no record: results without matches
    if how in ("dicts", "single", "path-dict"):
        return [r for r in records if r]
    if how == "items":
        return records
    return records


def table_fn(case):
    records, how, headers, missing, route = case
    data, path = place(records, how)
    if route != "result" and isinstance(headers, list):
        headers = ",".join(headers)
    attrs = {"missing": missing}
    if path:
        attrs["path"] = path
    if headers:
        attrs["headers"] = headers
    if how == "path-gap":
        attrs["strict"] = False
    rows = model_rows(records, how)
    head = [x.strip() for x in headers.split(",")] if isinstance(headers, str) else headers
    want = model_table(rows, head, missing)
    note = "records %r at %s, %r (%s):" % (records, how, attrs, route)
    obs.expect(deliver(data, route, dict(attrs, format="table")), want, note=note + " table")
    text = deliver(data, route, dict(attrs, format="csv"))
    if want[0]:
        obs.expect(list(csv.reader(io.StringIO(text, newline=""))), [[str(c) for c in r] for r in want], note=note + " csv %r" % text)
    for fa, args, kw in (("", (), {}), ("tablefmt='orgtbl'", (), {"tablefmt": "orgtbl"}), ("'grid', showindex=True", None, None)):
        a = dict(attrs, format="tabulate")
        if fa.startswith("'grid'"):
            continue
        if fa:
            a["format_attributes"] = fa
        obs.expect(deliver(data, route, a), tabulate_module.tabulate(want[1:], headers=want[0], **kw), note=note + " tabulate")
    return Outcome(h((want, how)), len(want) > 1, states=[h(want)], transitions=4)


# ------------------------------------------------------------ values in csv
def value_cases():
    pairs = [(",", '"'), (";", '"'), ("\t", '"'), ("|", "'"), (",", "'"), (";", "`")]
    for sep, quote in pairs:
        for a, b in itertools.product(NASTY + VALUES, repeat=2):
            yield (sep, quote, [{"h": a, "i": b}])
            yield (sep, quote, [{a: b, "i": "1"}])
        for a, b, c in itertools.product(NASTY[:8] if not DEEP else NASTY, NASTY[:6] if not DEEP else NASTY, NASTY[:4] if not DEEP else NASTY):
            yield (sep, quote, [{"h": a, "i": b}, {"i": c}])
        for v in (1, None, True, 1.5, [1, "a"], {"k": "v"}):
            yield (sep, quote, [{"h": v, "i": "x"}, {"i": "y", "h": 'q"'}])
    for a, b in itertools.product(["v", "w x", "", 7], repeat=2):
        yield (",", "", [{"h": a, "i": b}, {"i": a}])


def value_fn(case):
    sep, quote, records = case
    keys = [k for r in records for k in r]
    if not all(isinstance(k, str) for k in keys) or len(set(map(len, records))) > 1 and "h" not in keys:
        return None
    attrs = {"format": "csv"}
    if sep != ",":
        attrs["sep"] = sep
    if quote != '"':
        attrs["quote"] = quote
    text = deliver([records], "result", attrs)
    kw = dict(delimiter=sep, quotechar=quote) if quote else dict(delimiter=sep, quoting=csv.QUOTE_NONE)
    got = list(csv.reader(io.StringIO(text, newline=""), **kw))
    want = [[str(c) for c in r] for r in model_table(records, None, "")]
    obs.expect(got, want, text, records, "csv with separator %r and quote %r:" % (sep, quote))
    return Outcome(h(text), True, transitions=1)


# ------------------------------------------------------------ key columns
def key_cases():
    recs = [{}, {"a": "1"}, {"b": "2", "a": "x,y"}, {"a": {"n": 1}}]
    keysets = [(), ("r",), ("r", "s"), ("s", "r.1", "t u"), ('q"', "é")]
    for ks in keysets:
        for rs in itertools.product(recs, repeat=len(ks)):
            for key in ("name", "a", "z"):
                for headers in (None, "name, a", "b,z"):
                    for where in ("top", "path", "two", "list"):
                        yield (ks, rs, key, headers, where)


def key_fn(case):
    ks, rs, key, headers, where = case
    d = {k: copy.deepcopy(r) for k, r in zip(ks, rs)}
    rows = [dict(r, **{key: k}) for k, r in d.items()]
    attrs = {"key": key}
    if headers:
        attrs["headers"] = headers
    if where == "top":
        data = [d]
    elif where == "path":
        data = [{"p": {"q": d}}]
        attrs["path"] = "p.q"
    elif where == "two":
        data = [{"p": d}, {"p": copy.deepcopy(d)}]
        rows = rows * 2
        attrs["path"] = "p"
    else:
        # lists are taken as they are
        data = [{"p": [copy.deepcopy(r) for r in rs]}]
        rows = list(rs)
        attrs["path"] = "p"
    want = model_table(rows, [x.strip() for x in headers.split(",")] if headers else None, "")
    got = deliver(data, "result", dict(attrs, format="table"))
    obs.expect(got, want, note="key %r of %r (%s):" % (key, d, where))
    got = deliver(data, "tag", dict(attrs, format="csv"))
    if want[0]:
        obs.expect(list(csv.reader(io.StringIO(got, newline=""))), [[str(c) for c in r] for r in want], note="csv, key %r of %r (%s):" % (key, d, where))
    return Outcome(h(want), len(rows) > 0, transitions=2)


# ------------------------------------------------------------ excel
def excel_cases():
    sets = [[], [{"a": "1"}], [{"a": "x, y", "b": "q\"é"}, {"b": "2\n3"}], [{"a": "01", "c": 7}, {"a": "", "b": "z"}, {"c": None}]]
    tabs = [dict(), dict(path="p"), dict(path="p", headers="b, a"), dict(path="p.q", key="name"), dict(path="p", missing="-", tab_name="T"), dict(path="gone", strict=False),
            dict(path="p", headers="c", tab_name="Ünï")]
    for s in range(len(sets)):
        for k in (1, 2):
            for ts in itertools.product(range(len(tabs)), repeat=k):
                if k == 2 and not DEEP and (ts[0] + ts[1] + s) % 2:
                    continue
                for mode in ("self", "file", "file-twice", "update", "update-new"):
                    yield (sets[s], [tabs[t] for t in ts], mode)


def read_book(f):
    return {ws.title: [[c.value for c in row] for row in ws.rows] for ws in openpyxl.load_workbook(f)}


def excel_fn(case):
    records, tabs, mode = case
    if len({t.get("tab_name", i) for i, t in enumerate(tabs)}) < len(tabs):
        return None
    want = {}
    datas = []
    for t in tabs:
        p = t.get("path")
        if p is None or p == "p":
            datas.append("list")
        elif p == "p.q":
            datas.append("key")
    if len(set(datas)) > 1 or (None in [t.get("path") for t in tabs] and len({t.get("path") for t in tabs}) > 1):
        return None
    keyed = "key" in datas
    bare = any("path" not in t for t in tabs)
    if keyed:
        data = [{"p": {"q": {"r%d" % i: r for i, r in enumerate(records)}}}]
    elif bare:
        data = [records]
    else:
        data = [{"p": records}]
    for i, t in enumerate(tabs):
        rows = [dict(r, name="r%d" % j) for j, r in enumerate(records)] if t.get("path") == "p.q" else records if t.get("path", "p") == "p" else []
        hd = [x.strip() for x in t["headers"].split(",")] if "headers" in t else None
        tab = model_table(rows, hd, t.get("missing", ""))
        want[t.get("tab_name", "Sheet%d" % i)] = tab
    if os.path.isdir("o"):
        shutil.rmtree("o")
    attrs = dict(format="excel", table=copy.deepcopy(tabs), filename="book" if mode != "file" else "book.xlsx", url="./o/")
    if mode == "self":
        wb = deliver(data, "result", attrs)
        f = io.BytesIO()
        wb.save(f)
        f.seek(0)
        got = read_book(f)
    else:
        attrs["returner"] = "file"
        if mode.startswith("update"):
            attrs["update"] = True
        deliver(data, "result", copy.deepcopy(attrs))
        if mode in ("file-twice", "update"):
            deliver(data, "result", copy.deepcopy(attrs))
            if mode == "update":
                want = {n: t + t[1:] for n, t in want.items()}
        got = read_book("o/book.xlsx")
        shutil.rmtree("o")
    # cells: empty text reads back as an empty cell, trailing empty cells of a sheet are not stored
    def cells(t):
        rows = [[None if c in ("", None) else c for c in r] for r in t]
        rows = [r + [None] * (max([len(x) for x in rows] + [0]) - len(r)) for r in rows]
        while rows and not any(c is not None for c in rows[-1]):
            rows.pop()
        # an update appends below the last stored row
        return [r for r in rows if any(c is not None for c in r)] if mode == "update" else rows
    obs.expect({n: cells(t) for n, t in got.items()}, {n: cells(t) for n, t in want.items()}, None, records, "excel %r, %s:" % (tabs, mode))
    return Outcome(h((want, mode)), bool(records), transitions=1)


# ------------------------------------------------------------ jinja2
J_TREES = ["out", "row", "list", "cond", "comment", "inline"]


def jinja_cases():
    for x, y in itertools.product(LEAVES, repeat=2):
        yield ("values", x, y)
    n = 4 if DEEP else 3
    for ind in ("", "  ", "\t"):
        for ind2 in ("", "   "):
            for route in ("tag", "group"):
                for k in range(1, n + 1):
                    for parts in itertools.product(J_TREES, repeat=k):
                        yield ("layout", ind, ind2, route, parts)


def jinja_layout(case):
    """template lines that hold only block tags or comments leave nothing behind; all other text is kept as written"""
    _, ind, ind2, route, parts = case
    recs = [{"k": "a", "m": ["x", "y"], "e": ""}, {"k": "b", "m": [], "e": "E"}, {"k": "<c>", "m": [" z "], "e": "E"}]
    lines, out = [], []
    path = "_data_"
    for n, part in enumerate(parts):
        if part == "out":
            lines.append("%stext %d" % (ind2, n))
            out.append("%stext %d\n" % (ind2, n))
        elif part == "comment":
            lines.append(ind + "{# nothing #}")
        elif part == "inline":
            lines.append("%s{{ %s | length }} of {%% if 1 %%}n{%% endif %%}%s." % (ind, path, ind2))
            out.append("%s3 of n%s.\n" % (ind, ind2))
        else:
            lines.append(ind + "{%% for r in %s %%}" % path)
            body = []
            if part == "row":
                lines.append(ind2 + "{{ r.k }}|{{ r.e }}")
                body = [ind2 + "%s|%s\n" % (r["k"], r["e"]) for r in recs]
            elif part == "list":
                lines += [ind2 + "{% for m in r.m %}", ind + "- {{ m }}", ind2 + "{% endfor %}"]
                body = [ind + "- %s\n" % m for r in recs for m in r["m"]]
            elif part == "cond":
                lines += ["", ind2 + "{% if r.e %}", ind2 + "{{ r.k }}", ind + "{% else %}", "none", ind2 + "{% endif %}", " " + ind]
                body = ["\n" + (ind2 + r["k"] if r["e"] else "none") + "\n " + ind + "\n" for r in recs]
            lines.append(ind + "{% endfor %}")
            out += body
    text = "\n".join(lines)
    got = deliver(recs, route, {"format": "jinja2"}, text="<![CDATA[" + text + "\nend]]>")
    want = "\n" + "".join(out) + "end"
    obs.expect(got, want, text, recs, "jinja2, %r:" % (case,))
    return Outcome(h(want), True, transitions=1)


def jinja_fn(case):
    if case[0] == "layout":
        return jinja_layout(case)
    _, x, y = case
    data = [{"k": x, "m": [y]}]
    got = deliver(data, "tag", {"format": "jinja2"}, text="{% for r in _data_ %}\n<![CDATA[<]]>{{ r.k }}|{% for m in r.m %}[{{ m }}]{% endfor %}>\n{% endfor %}")
    want = "\n<%s|[%s]>\n" % (x, y)
    obs.expect(got, want, None, data, "jinja2:")
    return Outcome(h(want), True, transitions=1)


# ------------------------------------------------------------ diagrams
LINKS = [
    {"source": "a", "target": "b"},
    {"source": "a", "target": {"id": "b", "top_label": "x<y"}, "src_label": "Gi0/1"},
    {"source": {"id": "b", "label": "B \u00e9"}, "target": "c", "trgt_label": "7|8"},
    {"source": "a", "target": "b", "label": "L"},
]
OPTS = [{}, {"node_duplicates": "update"}, {"link_duplicates": "update", "node_duplicates": "update"}, {"node_dups": "update"}, {"link_dups": "update"}]


def diagram_cases():
    for n in (0, 1, 2, 3):
        for ids in itertools.product(range(len(LINKS)), repeat=n):
            for cut in range(n + 1):
                for module in ("yed", "drawio"):
                    for o in range(len(OPTS)):
                        yield ids, cut, module, o, ("result", "tag", "dict", "nopath")[(sum(ids) + cut + o) % 4]


def diagram_fn(case):
    import N2G

    ids, cut, module, o, route = case
    links = [copy.deepcopy(LINKS[i]) for i in ids]
    if module == "drawio":
        # the library takes names of nodes only here
        for l in links:
            for k in ("source", "target"):
                if isinstance(l[k], dict):
                    l[k] = l[k]["id"]
    parts = [links[:cut], links[cut:]]
    method = "from_list"
    if route == "dict":
        method = "from_dict"
        parts = [{"links": p, "nodes": [{"id": "n%d" % i}]} for i, p in enumerate(parts)]
    o = OPTS[o]
    d = {"yed": N2G.yed_diagram, "drawio": N2G.drawio_diagram}[module](**{k.replace("dups", "duplicates"): v for k, v in o.items()})
    for p in parts:
        getattr(d, method)(copy.deepcopy(p))
    want = d.dump_xml()
    attrs = dict(o, format="n2g", module=module if cut else module.upper(), method=method)
    if route == "nopath":
        data = parts
    else:
        data = [{"p": {"q": p}} for p in parts]
        attrs["path"] = "p.q"
    got = deliver(data, "tag" if route == "tag" else "result", attrs)
    obs.expect(got, want, None, data, "n2g %r:" % attrs)
    return Outcome(h(want), bool(ids), transitions=len(ids))


def check(ck):
    ck.explore("round trip", trip_cases, trip_fn, rule="json, yaml and pprint text loads back to the results, for every leaf pair in every shape and every key pair")
    ck.explore("tables", table_cases, table_fn, rule="table, csv and tabulate: one row for every record at the path, each value under its key, for all options")
    ck.explore("csv values", value_cases, value_fn, rule="csv read back by the csv module: every pair of separators, quotes, newlines, unicode")
    ck.explore("key columns", key_cases, key_fn, rule="dictionaries of records with the key as a column")
    ck.explore("excel", excel_cases, excel_fn, rule="excel tabs read back by openpyxl: new, overwritten and updated files")
    ck.explore("jinja2", jinja_cases, jinja_fn, rule="the template sees the results as _data_")
    ck.explore("diagrams", diagram_cases, diagram_fn, rule="n2g gives the diagram the library draws from the records at the path of every result, in order")
