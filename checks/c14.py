"""C14: result structures against a composition of single-item results, and
every short history of result() calls on one parser."""
import copy
import functools
import itertools
import json
import os
import shutil
import sys
import tempfile

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of template/input configurations and of all result() call histories up to a length on the real parser, against a composition of single-item results"
ASSUMPTIONS = [
    "the dictionary structure needs different template names",
    "per_template joining is compared with the concatenated text for texts that begin with a start line, without default-only records, joinmatches across items and vars tags",
]
DEEP = "thorough" in sys.argv

TEXTS = ["int a\n d 1\nv 7", "int b\nint a\n d 2", "noise", "v 8\nv 9", "int b\n d 3\n d 4\nint b\n d 5"]
BODY = {
    "plain": "<group name='i'>\nint {{ n }}\n d {{ d }}\n</group>",
    "list": "<group name='i*'>\nint {{ n }}\n d {{ d }}\n</group>",
    "untagged": "int {{ n }}\n d {{ d }}",
    "anon": "<group>\nint {{ n }}\n d {{ d }}\n</group>",
    "anon-mixed": "<group>\nint {{ n }}\n d {{ d }}\n</group>\n<group name='v.x'>\nv {{ v }}\n</group>",
    "dynamic": "<group name='i.{{ n }}**'>\nint {{ n }}\n d {{ d }}\n</group>",
    "nested": "<group name='i*'>\nint {{ n }}\n<group name='c'>\n d {{ d }}\n</group>\n</group>\n<group name='v'>\nv {{ v }}\n</group>",
    "other": "<group name='zz'>\nzz {{ n }}\n</group>",
}
MORE = {
    "two": "<group name='i'>\nint {{ n }}\n d {{ d }}\n</group>\n<group name='v.x'>\nv {{ v }}\n</group>",
    "absolute": "<group name='i'>\nint {{ n }}\n<group name='/c'>\n d {{ d }}\n</group>\n</group>",
    "null": "<group name='i'>\nint {{ n }}\n<group name='_'>\n d {{ d }}\n</group>\n</group>",
    "filtered": "<group name='i' contains='d'>\nint {{ n }}\n d {{ d }}\n</group>",
    "itemize": "<group name='i' itemize='n'>\nint {{ n }}\n</group>",
    "anon-two": "<group>\nint {{ n }}\n</group>\n<group>\nv {{ v }}\n</group>",
    "anon-child": "<group>\nint {{ n }}\n<group name='c*'>\n d {{ d }}\n</group>\n</group>",
    "same": "<group name='i*'>\nint {{ n }}\n</group>\n<group name='i*'>\nv {{ v }}\n</group>",
    "double-star": "<group name='i**'>\nint {{ n }}\n d {{ d }}\n</group>\n<group name='i.v*'>\nv {{ v }}\n</group>",
    "dynamic-list": "<group name='i.{{ n }}*'>\nint {{ n }}\n d {{ d }}\n</group>",
    "default": "<group name='i'>\nint {{ n }}\n d {{ d | default('-') }}\n d2 {{ e | default([]) }}\n</group>",
    "set": "<group name='i*'>\nint {{ n }}\n{{ s | set('s') }}\n d {{ d | to_int }}\n</group>",
    "end": "<group name='i'>\nint {{ n }}\n d {{ d }}\nv {{ _end_ }}\n</group>\n<group name='w'>\n{{ l | contains('v 9') | _line_ | _start_ }}\n</group>",
    "dynamic-default": "<group name='{{ n }}.x'>\nint {{ n }}\n d {{ d | default('q') }}\n</group>",
}
ALL = dict(BODY, **MORE)


@functools.lru_cache(maxsize=None)
def _alone(body, text):
    p = obs.ttp(template=ALL[body])
    p.add_input(text)
    p.parse(one=True)
    return copy.deepcopy(p.result()[0][0])


def alone(body, text):
    return copy.deepcopy(_alone(body, text))


def expected(body, per_template, seq):
    if not per_template:
        return [alone(body, TEXTS[i]) for i in seq]
    if not seq:
        return {}
    if body in ("anon-two", "same"):
        # two groups at one path: item after item
        parts = [alone(body, TEXTS[i]) for i in seq]
        if body == "anon-two":
            return sum([p or [] for p in parts], []) or {}
        recs = sum([p.get("i", []) for p in parts], [])
        return {"i": recs} if recs else {}
    return alone(body, "\n".join(TEXTS[i] for i in seq))


def wrapped(body, name, per_template):
    return "<template%s%s>\n%s\n</template>" % (
        "" if name is None else " name='%s'" % name, " results='per_template'" if per_template else "", ALL[body])


def build(tpls, how):
    """tpls: [(body, name, per_template)]; returns parser and the template names"""
    if how == "tags":
        p = obs.ttp(template="\n".join(wrapped(*t) for t in tpls))
        if len(tpls) == 1:
            # a single template tag is the template itself
            names = [tpls[0][1] or "_root_template_"]
        else:
            names = [t[1] or str(i) for i, t in enumerate(tpls)]
    elif how == "inner":
        p = obs.ttp(template="<template>\n%s\n</template>" % "\n".join(wrapped(*t) for t in tpls))
        names = [t[1] or str(i) for i, t in enumerate(tpls)]
    else:
        p = obs.ttp()
        names = []
        for body, name, pt in tpls:
            if name is None:
                p.add_template(wrapped(body, None, pt))
            else:
                p.add_template(wrapped(body, None, pt), template_name=name)
            names.append(name or "_root_template_")
    return p, names


def flat(res):
    out = []
    for r in res:
        if isinstance(r, dict):
            out.append(r)
            continue
        for item in r:
            if isinstance(item, list):
                out += item
            else:
                out.append(item)
    return out


FILTERS = [None, "a", ["b"], ["b", "a"], [], "nobody", ["nobody", "b"], ("a", "_root_template_"), "0", ["1", "0"]]


def all_structures(p, names, want, note, tpl, uniq=None):
    uniq = len(set(names)) == len(names)
    n = 0
    for form in (None, "raw", "json", None):
        for f in FILTERS:
            pick = list(range(len(names))) if not f else [
                i for i, x in enumerate(names) if (x == f if isinstance(f, str) else x in f)]
            kw = {} if f is None else {"templates": f}
            # formatted results are loaded back, each template's are one item of the structure
            load = json.loads if form == "json" else lambda x: x
            if form:
                kw["format"] = form
            what = "%s, templates=%r, format=%r:" % (note, f, form)
            obs.expect([load(i) for i in p.result(**kw)], [want[i] for i in pick], tpl, None, "list " + what)
            if uniq:
                obs.expect({k: load(v) for k, v in p.result(structure="dictionary", **kw).items()}, {names[i]: want[i] for i in pick}, tpl, None,
                           "dictionary " + what)
            got = p.result(structure="flat_list", **kw)
            if form == "json":
                obs.expect([load(i) for i in got], [want[i] for i in pick], tpl, None, "flat_list " + what)
            else:
                obs.expect(got, flat([want[i] for i in pick]), tpl, None, "flat_list " + what)
            n += 3
    return n


SEQS = [()] + [s for k in (1, 2) for s in itertools.product((0, 1, 2, 3), repeat=k)] + [(0, 1, 3), (2, 1, 0), (1, 1, 1), (0, 2, 4), (4, 0, 4)]


def structure_cases():
    names = {1: [(None,), ("a",)], 2: [(None, "a"), ("a", "b"), ("b", "a"), (None, None), ("a", "a")],
             3: [("a", "b", "c"), (None, "b", None), ("b", None, "a")]}
    kinds = [(b, m) for b in BODY for m in (False, True)]
    for k in (1, 2):
        for ks in itertools.product(kinds, repeat=k):
            for nm in names[k]:
                for how in ("tags", "inner", "add"):
                    for i, seq in enumerate(SEQS):
                        if k == 2 and not DEEP and (i + len(ks[0][0]) + len(how)) % 6:
                            continue
                        yield (ks, nm, how, seq)
    few = [("plain", False), ("untagged", True), ("anon-mixed", False), ("list", True), ("other", False)]
    for ks in itertools.product(few if not DEEP else few + [("nested", False), ("dynamic", True)], repeat=3):
        for nm in names[3]:
            for how in ("tags", "inner", "add"):
                for seq in (SEQS if DEEP else [(0, 1), (2,), (1, 3, 0)]):
                    yield (ks, nm, how, seq)


def structure_fn(case):
    ks, nm, how, seq = case
    tpls = [(b, n, m) for (b, m), n in zip(ks, nm)]
    p, names = build(tpls, how)
    for j, i in enumerate(seq):
        p.add_input(TEXTS[i], input_name="in%d" % j, template_name="_all_")
    # before parsing there is nothing
    obs.expect(p.result(), [[] for _ in ks], note="before parse, case %r:" % (case,))
    p.parse(one=True)
    want = [expected(b, m, seq) for b, m in ks]
    n = all_structures(p, names, want, "case %r" % (case,), "\n".join(wrapped(*t) for t in tpls))
    return Outcome(h(want), any(want), states=[h(w) for w in want], transitions=n)


# ------------------------------------------------------------ results reshaped by outputs
R = {"r": 1}
SHAPES = [[], {}, R, [R], [R, R], [[]], [[], []], [[R], []], [[], [R]], [[R, R], [R]], [R, []], [[], R], [[[R]]], [[[R], []]], "text", "", 0, None, [0], [""], [None, [None]],
          [{}], [[{}]], [[{}, R], {}], ("t",), [("t",)], {"k": []}, [{"k": []}], [{"k": []}, [R]]]


def shape_cases():
    for n in (1, 2):
        for shapes in itertools.product(range(len(SHAPES)), repeat=n):
            for how in ("macro", "argument") if n == 1 else ("macro",):
                yield shapes, how


def shape_fn(case):
    shapes, how = case
    p = obs.ttp()
    for k, i in enumerate(shapes):
        p.add_function(lambda d, i=i: copy.deepcopy(SHAPES[i]), scope="output", name="reshape%d" % k)
    for k in range(len(shapes)):
        p.add_template("%s<group name='g'>\nx {{ x }}\n</group>" % ("<output functions='reshape%d'/>\n" % k if how == "macro" else ""), template_name="t%d" % k)
        p.add_input("x 1", template_name="t%d" % k)
    p.parse(one=True)
    kw = {} if how == "macro" else {"functions": "reshape0"}
    want = [SHAPES[i] for i in shapes]
    for _ in range(2):
        obs.expect(p.result(**kw), want, note="case %r list:" % (case,))
        obs.expect(p.result(structure="dictionary", **kw), {"t%d" % k: w for k, w in enumerate(want)}, note="case %r dictionary:" % (case,))
        obs.expect(p.result(structure="flat_list", **kw), shaped_flat(want), note="case %r flat_list:" % (case,))
    return Outcome(h((want, how)), states=[h(want)], transitions=6)


def shaped_flat(want):
    out = []
    for w in want:
        for item in w if type(w) is list else [w]:
            out += item if type(item) is list else [item]
    return out


# ------------------------------------------------------------ per_template joining
def join_cases():
    for b in ALL:
        for k in range(0, 5 if DEEP else 4):
            for seq in itertools.product(range(len(TEXTS)), repeat=k):
                for how in ("inputs", "one-input"):
                    if how == "one-input" and len(set(seq)) != len(seq):
                        continue
                    yield (b, seq, how)


def join_fn(case):
    b, seq, how = case
    tpl = wrapped(b, None, True)
    p = obs.ttp(template=tpl)
    for j, i in enumerate(seq):
        p.add_input(TEXTS[i], input_name="in%d" % j if how == "inputs" else "q")
    p.parse(one=True)
    want = expected(b, True, seq)
    obs.expect(p.result(), [want], tpl, [TEXTS[i] for i in seq], "per_template, case %r:" % (case,))
    obs.expect(p.result(structure="dictionary"), {"_root_template_": want}, tpl)
    obs.expect(p.result(structure="flat_list"), flat([want]), tpl)
    return Outcome(h(want), bool(want), states=[h(want)], transitions=len(seq))


# ------------------------------------------------------------ histories of result() calls
HTPL = """<template name='a'>
<macro>
def m(d):
    return {"m": len(d)}
</macro>
<group name='i.{{ n }}'>
int {{ n }}
 d {{ d }}
</group>
</template>
<template name='b'>
<macro>
def m(d):
    return ["b", len(d)]
</macro>
<group>
int {{ n }}
 d {{ d }}
</group>
</template>
<template name='c' results='per_template'>
<group name='i.{{ n }}**'>
int {{ n }}
<group name='c'>
 d {{ d }}
</group>
</group>
</template>
"""

CALLS = {
    "list": dict(),
    "dict": dict(structure="dictionary"),
    "flat": dict(structure="flat_list"),
    "only-a": dict(templates="a"),
    "only-bc": dict(templates=["c", "b"], structure="dictionary"),
    "json": dict(format="json"),
    "json-dict": dict(format="json", structure="dictionary"),
    "yaml-flat": dict(format="yaml", structure="flat_list"),
    "pprint": dict(format="pprint", templates=["a"]),
    "csv-key": dict(format="csv", path="i", key="name", strict=False, templates=["a", "c"]),
    "table-key": dict(format="table", path="i", key="name", strict=False, templates=["a"], headers=["d", "name"]),
    "table-b": dict(format="table", templates="b", missing="-"),
    "tabulate": dict(format="tabulate", path="i", key="name", strict=False, templates=["a"], headers="name, d", format_attributes="tablefmt='orgtbl'"),
    "traverse": dict(functions="traverse('i', strict=False)", templates="a"),
    "to-list": dict(functions="dict_to_list('k', 'i', strict=False)", templates=["a", "c"]),
    "to-list-flat": dict(functions="traverse('i', strict=False) | dict_to_list('k')", templates=["a", "c"], structure="flat_list"),
    "to-list-json": dict(functions="dict_to_list('k', 'i', strict=False)", format="json", templates=["c"]),
    "macro": dict(functions="macro('m')"),
    "macro-attr": dict(macro="m", structure="dictionary"),
    "file": dict(format="json", returner="file", filename="out.txt", url="./o/"),
    "file-self": dict(format="yaml", returner="file, self", filename="out2.txt", url="./o/", templates="b"),
    "terminal": dict(format="json", returner="terminal", templates="b"),
    "excel": dict(format="excel", filename="x", url="./o/", templates="a",
                  table=[dict(path="i", key="name", tab_name="first", strict=False), dict(path="i", key="k2", strict=False, headers="k2, d")]),
    "excel-file": dict(format="excel", filename="y", url="./o/", returner="file", templates=["a"],
                       table=[dict(path="i", key="name", tab_name="first", strict=False)]),
    "file-key": dict(format="csv", returner="file", filename="z.csv", url="./o/", path="i", key="name", strict=False, templates=["a", "c"]),
}


def canon(x):
    if hasattr(x, "worksheets"):
        import io
        import openpyxl
        f = io.BytesIO()
        x.save(f)
        f.seek(0)
        return ("workbook", {ws.title: [[c.value for c in row] for row in ws.rows] for ws in openpyxl.load_workbook(f)})
    if isinstance(x, list):
        return [canon(i) for i in x]
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    return x


def call(p, kw):
    with obs.captured() as (out, _):
        r = canon(copy.deepcopy(p.result(**kw)) if kw.get("format") != "excel" else p.result(**kw))
    files = {}
    if os.path.isdir("o"):
        for f in sorted(os.listdir("o")):
            if f.endswith(".xlsx"):
                import openpyxl
                wb = openpyxl.load_workbook("o/" + f)
                files[f] = {ws.title: [[c.value for c in row] for row in ws.rows] for ws in wb}
            else:
                with open("o/" + f) as fo:
                    files[f] = fo.read()
        shutil.rmtree("o")
    return (r, out.getvalue(), files)


def history_parser(seq):
    p = obs.ttp(template=HTPL)
    for j, i in enumerate(seq):
        p.add_input(TEXTS[i], input_name="in%d" % j, template_name="_all_")
    p.parse(one=True)
    return p


@functools.lru_cache(maxsize=None)
def fresh_call(seq, name):
    return call(history_parser(seq), copy.deepcopy(CALLS[name]))


def history_cases():
    for seq in ((0, 1), (2,), (1, 0, 3)):
        for k in (1, 2, 3):
            for calls in itertools.product(CALLS, repeat=k):
                if k == 3 and (calls[2] not in ("list", "csv-key", "excel", "to-list", "macro") if not DEEP else False):
                    continue
                if k == 3 and seq != (0, 1) and not DEEP:
                    continue
                yield (seq, calls)


def history_fn(case):
    seq, calls = case
    p = history_parser(seq)
    base = copy.deepcopy(p.result())
    args = copy.deepcopy(CALLS)
    for i, c in enumerate(calls):
        got = call(p, args[c])
        want = fresh_call(seq, c)
        if not obs.same(got, want):
            raise Violation("call %d (%s) of history %r differs from the same call on a fresh parser: %s"
                            % (i, c, case, obs.first_difference(want, got)))
        obs.expect(p.result(), base, HTPL, None, "results after call %d (%s) of history %r:" % (i, c, case))
        if args[c] != CALLS[c]:
            raise Violation("result(%s) modified the arguments it was given: %r, were %r" % (c, args[c], CALLS[c]))
    return Outcome(h([fresh_call(seq, c)[:2] for c in calls]), True, states=[h(calls[:i]) for i in range(len(calls))], transitions=len(calls))


def check(ck):
    ck.explore("structures", structure_cases, structure_fn,
               rule="one to three templates of all kinds, names and ways of loading, input sequences; every structure and templates filter, asked twice")
    ck.explore("reshaped results", shape_cases, shape_fn, rule="results replaced by outputs with structures of %d kinds, each and every pair, in every structure" % len(SHAPES))
    ck.explore("per_template", join_cases, join_fn, rule="joined results equal the results of the concatenated text")
    ck.explore("result histories", history_cases, history_fn,
               rule="every sequence of up to 3 result() calls: each answers as on a fresh parser and leaves results and arguments as they were")
