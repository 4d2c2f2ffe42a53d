"""C29: arguments. Every function, built-in places and scopes alike, is a recorder added
with add_function; all argument lists of a small grammar are written in every place that
takes functions and must arrive as the values Python gives these literals."""
import ast
import copy
import html
import itertools
import json
import re
import sys
import warnings

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of argument lists x places of functions x spellings on the real parser, against an independent reading of the argument grammar"
ASSUMPTIONS = [
    "arguments contain no | and no doubled curly brackets, which end a function or a variable",
    "words without quotes are Python identifiers that are not keywords",
]
DEEP = "thorough" in sys.argv
warnings.simplefilter("ignore")

WORDS = {"abc": "abc", "a_1": "a_1", "Vlan": "Vlan", "id": "id", "list": "list", "print": "print", "true": True, "TRUE": True,
         "True": True, "false": False, "False": False, "none": None, "None": None, "NONE": None, "args": "args", "_x": "_x", "null": "null", "Null": "Null", "yes": "yes", "Off": "Off", "nil": "nil", "undefined": "undefined", "Truth": "Truth", "nones": "nones", "t": "t", "f": "f", "inf": "inf", "nan": "nan"}
NUMBERS = ["0", "7", "-3", "1.5", "-0.25", "1e3", "0x1f", "10000000"]
CHARS = list(",()=[]{}#:;.*+?^$<>&%@!~-_/ 0aé") + ["\\d", "\\S+", "\\n", "\\t", "\\\\", "\\'", '\\"', "'", '"', "##", "re(", "_end_", "a=1", "True", "set('x')"]
STRUCTS = ["[]", "{}", "()", "[1, 'a']", "{'a': 1}", "(1, 'b')", "['x, y', [None]]", "{'k': ['(', True]}", "[abc, true]", "{'a': {'b': 2} }", "('a',)"]


def strings(k):
    for t in itertools.product(CHARS, repeat=k):
        s = "".join(t)
        for q in "'\"":
            if "{{" in s or "}}" in s:
                continue
            try:
                e = ast.parse(q + s + q, mode="eval").body
                if isinstance(ast.literal_eval(e), str) and e.end_col_offset == len((q + s + q).encode()):
                    yield q + s + q
            except (SyntaxError, ValueError):
                pass


def value(text):
    """reference: a Python literal in which bare words are strings, true, false or none"""

    class Bare(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.copy_location(ast.Constant(WORDS[n.id]), n)

    tree = Bare().visit(ast.parse(text, mode="eval"))
    return ast.literal_eval(tree)


def single():
    return list(WORDS) + NUMBERS + STRUCTS + list(strings(1)) + ["''", '""']


FEW = ["abc", "true", "-3", "'a, b'", '"k=v"', "[1, 'a']", "{'a': 1}", "None", "')'", "'('"]


def lists():
    """(arguments as written, positional values, keyword values)"""
    yield "", [], {}
    for a in single():
        yield a, [value(a)], {}
        yield "k=" + a, [], {"k": value(a)}
    for a in strings(2):
        yield a, [value(a)], {}
    for a, b in itertools.product(FEW, repeat=2):
        for sep in (", ", ",", " , "):
            yield a + sep + b, [value(a), value(b)], {}
        yield "%s, k=%s" % (a, b), [value(a)], {"k": value(b)}
        yield "k=%s, m = %s" % (a, b), [], {"k": value(a), "m": value(b)}
    for a, b, c in itertools.product(FEW if DEEP else FEW[:6], repeat=3):
        yield "%s, %s, %s" % (a, b, c), [value(a), value(b), value(c)], {}
        yield "%s,%s, z=%s" % (a, b, c), [value(a), value(b)], {"z": value(c)}
    if DEEP:
        for a in strings(3):
            yield a, [value(a)], {}


def esc(s):
    return html.escape(s, quote=False)


def att(s):
    return html.escape(s, quote=True)


TEXT = "x 1"
G = "<group name='g'>\nx {{ v }}\n</group>"
SHAPES = ["f(%s)", "f (%s)", "f( %s )"]


def fun(shape, a):
    return (shape % a) if a else ("f" if shape == SHAPES[1] else shape % "")


def chain(calls, shape):
    return " | ".join(fun(shape, a) for a in calls)


# place: (scope, template for several calls, how many calls in one template)
def in_match(calls, shape):
    return "<group name='g'>\nx {{ v | %s }}\n</group>" % esc(chain(calls, shape))


def in_match_plain(calls, shape):
    return "x {{ v | %s }}" % chain(calls, shape)


def in_match_child(calls, shape):
    return "<group name='g'>\nx {{ v }}\n<group name='c'>\n y {{ w | %s }}\n</group>\n</group>" % esc(chain(calls, shape))


def in_match_chain(calls, shape):
    return "<vars load='json'>\n%s\n</vars>\n<group name='g'>\nx {{ v | chain('c') }}\n</group>" % esc(json.dumps({"c": chain(calls, shape)}))


def in_match_chain_list(calls, shape):
    return "<vars load='json'>\n%s\n</vars>\n<group name='g'>\nx {{ v | chain('c') }}\n</group>" % esc(json.dumps({"c": [fun(shape, a) for a in calls]}))


def in_group_attr(calls, shape):
    return "<group name='g' f=\"%s\">\nx {{ v }}\n</group>" % att(calls[0])


def in_child_attr(calls, shape):
    return "<group name='g'>\nx {{ v }}\n<group name='c' f=\"%s\">\n y {{ w }}\n</group>\n</group>" % att(calls[0])


def in_group_functions(calls, shape):
    return "<group name='g' functions=\"%s\">\nx {{ v }}\n</group>" % att(chain(calls, shape))


def in_group_chain(calls, shape):
    return "<vars load='json'>\n%s\n</vars>\n<group name='g' chain='c'>\nx {{ v }}\n</group>" % esc(json.dumps({"c": [fun(shape, a) for a in calls]}))


def in_output_attr(calls, shape):
    return G + "\n<output f=\"%s\"/>" % att(calls[0])


def in_output_functions(calls, shape):
    return G + "\n<output functions=\"%s\"/>" % att(chain(calls, shape))


def in_output_text(calls, shape):
    return G + "\n<output load='json'>\n%s\n</output>" % esc(json.dumps({"functions": chain(calls, shape)}))


def in_input_attr(calls, shape):
    return "<input name='i' load='text' f=\"%s\">\nx 1\n</input>\n" % att(calls[0]) + G


def in_input_functions(calls, shape):
    return "<input name='i' load='text' functions=\"%s\">\nx 1\n</input>\n" % att(chain(calls, shape)) + G


def in_input_text(calls, shape):
    return "<input name='i' load='json'>\n%s\n</input>\n" % esc(json.dumps({"functions": chain(calls, shape)})) + G


def in_format_attributes(calls, shape):
    return G + "\n<output format='f' format_attributes=\"%s\"/>" % att(calls[0])


# name: (scope, builder, calls in one template, spellings matter)
PLACES = {
    "match": ("match", in_match, 12, True),
    "match without tags": ("match", in_match_plain, 12, False),
    "match of a child group": ("match", in_match_child, 12, False),
    "match chain": ("match", in_match_chain, 12, True),
    "match chain list": ("match", in_match_chain_list, 12, False),
    "group attribute": ("group", in_group_attr, 1, False),
    "child group attribute": ("group", in_child_attr, 1, False),
    "group functions": ("group", in_group_functions, 12, True),
    "group chain": ("group", in_group_chain, 12, False),
    "output attribute": ("output", in_output_attr, 1, False),
    "output functions": ("output", in_output_functions, 12, True),
    "output text": ("output", in_output_text, 12, False),
    "input attribute": ("input", in_input_attr, 1, False),
    "input functions": ("input", in_input_functions, 12, True),
    "input text": ("input", in_input_text, 12, False),
    "format attributes": ("formatters", in_format_attributes, 1, False),
}


def cases():
    every = list(lists())
    for place, (scope, build, per, spelled) in PLACES.items():
        for shape in SHAPES if spelled else SHAPES[:1]:
            some = [x for x in every if place != "match without tags" or not set("<>&") & set(x[0])]
            if per == 1 and not DEEP:
                # strings of two characters are left to the other places
                some = [x for x in some if len(x[1]) != 1 or not isinstance(x[1][0], str) or len(x[0]) < 5]
            step = per * (40 if per > 1 else 150)
            for i in range(0, len(some), step):
                yield place, shape, some[i:i + step]


def run(place, shape, part):
    scope, build, per, _ = PLACES[place]
    tpl = build([a for a, _, _ in part], shape)
    calls = []

    def f(data, *args, **kwargs):
        if scope == "formatters":
            fa = kwargs["format_attributes"]
            args, kwargs = fa["args"], fa["kwargs"]
        calls.append((copy.deepcopy(list(args)), copy.deepcopy(kwargs)))
        return data if scope in ("output", "formatters") else (data, None)

    p = obs.ttp()
    p.add_function(f, scope=scope, name="f")

    def go():
        p.add_template(tpl)
        if scope == "input":
            if place == "input text":
                p.add_input("x 1", input_name="i")
        else:
            p.add_input("x 1\n y 2")
        p.parse(one=True)
        return p.result()

    got = obs.attempt(go)
    want = [(args, kwargs) for _, args, kwargs in part]
    return tpl, got, calls, want


def expected(place):
    if place == "match without tags":
        return [[{"v": "1"}]]
    g = {"v": "1"}
    if "child" in place:
        g["c"] = {"w": "2"}
    return [[{"g": g}]]


def fn(case):
    place, shape, some = case
    per = PLACES[place][2]
    n = 0
    outs = set()
    for i in range(0, len(some), per):
        part = some[i:i + per]
        tpl, got, calls, want = run(place, shape, part)
        if calls != want or any(type(x) is not type(y) for c, w in zip(calls, want) for x, y in zip(c[0], w[0])):
            for x in part:
                t1, g1, c1, w1 = run(place, shape, [x])
                if c1 != w1:
                    raise Violation("%s: %s written as arguments %s, received %r, expected %r (results %.300r)" % (place, fun(shape, x[0]), x[0], c1, w1, g1), template=t1)
            raise Violation("%s: calls %r, expected %r (results %.300r)" % (place, calls, want, got), template=tpl)
        obs.expect(got, expected(place), tpl, TEXT, "%s:" % place)
        n += len(part)
        outs.update(h(w) for w in want)
    return Outcome(h((place, shape, sorted(outs))), True, count=n, states=[h((place, shape, x)) for x in outs], transitions=n)


# ------------------------------------------------------------- order, repetition, mixture
def mix_cases():
    names = ["f", "k", "m"]
    for k in (1, 2, 3):
        for calls in itertools.product([(n, a) for n in names for a in ("", "1", "'x'")], repeat=k):
            yield calls


def mix_fn(calls):
    """several functions in one tag: attributes in the order written, functions in theirs"""
    n = 0
    for scope in ("match", "group", "output", "input"):
        text = " | ".join("%s(%s)" % c for c in calls)
        attrs = ["functions=\"%s\"" % att(text)]
        names = [c[0] for c in calls]
        if len(set(names)) == len(names) and scope != "match":
            attrs.append(" ".join("%s=\"%s\"" % (a, att(b)) for a, b in calls))
            if len(calls) > 1:
                attrs.append("%s=\"%s\" functions=\"%s\"" % (calls[0][0], att(calls[0][1]), att(" | ".join("%s(%s)" % c for c in calls[1:]))))
                attrs.append("functions=\"%s\" %s=\"%s\"" % (att(" | ".join("%s(%s)" % c for c in calls[:-1])), calls[-1][0], att(calls[-1][1])))
        for a in attrs:
            if scope == "match":
                tpl = "<group name='g'>\nx {{ v | %s }}\n</group>" % text
            elif scope == "group":
                tpl = "<group name='g' %s>\nx {{ v }}\n</group>" % a
            elif scope == "output":
                tpl = G + "\n<output %s/>" % a
            else:
                tpl = "<input load='text' %s>\nx 1\n</input>\n" % a + G
            log = []
            p = obs.ttp()
            for name in ("f", "k", "m"):
                def rec(data, *args, _name=name, **kwargs):
                    log.append((_name, list(args), kwargs))
                    return data if scope == "output" else (data, None)
                p.add_function(rec, scope=scope, name=name)
            p.add_template(tpl)
            if scope != "input":
                p.add_input(TEXT)
            p.parse(one=True)
            obs.expect(p.result(), [[{"g": {"v": "1"}}]], tpl, TEXT, scope + ":")
            want = [(c, [value(v)] if v else [], {}) for c, v in calls]
            if log != want:
                raise Violation("%s: calls %r, expected %r\n%s" % (scope, log, want, tpl), template=tpl)
            n += 1
    return Outcome(h(calls), True, count=n, states=[h(calls)], transitions=n)


def check(ck):
    ck.explore("argument lists", cases, fn, rule="all argument lists of the grammar (words, numbers, strings of up to %d pieces, structures, up to three arguments) in 16 places and three spellings" % (3 if DEEP else 2))
    ck.explore("several functions", mix_cases, mix_fn, rule="all sequences of up to three calls of three functions in four scopes and all ways to write them")
