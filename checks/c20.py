"""C20: any sequence of parser calls leaves the parser in the documented state."""
import collections
import copy
import itertools
import json
import os
import pickle
import sys

from mc import obs
from mc.core import Outcome, Violation, h, same, first_difference

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of a reference model of the parser object, every explored path replayed on the implementation and compared "
             "after each call; all call sequences to the stated depth, plus deeper breadth-first search with state merging on the model")
NOTE = "Two templates, two input names, three texts, two values for variables and lookups; equal data given twice to one input is kept once, per_template results are those of the last parse (pinned behaviour)."
DEEP = "thorough" in sys.argv

TEXTS = {"1": "x k1\nx k2\n", "2": "x k2\n", "0": "nothing\n"}
KEYS = {"1": ["k1", "k2"], "2": ["k2"], "0": []}
TABLES = {"A": {"k1": "A1"}, "B": {"k2": "B2"}}

T_ROOT = "<group name='g*'>\nx {{ x | lookup('t', add_field='l') }}\n{{ v | set('v') }}\n</group>\n"
T_TWO = "<template name='temp'>\n<group name='g*'>\nx {{ x | lookup('t', add_field='l') }}\n{{ v | set('v') }}\n</group>\n<group name='h*'>\nx {{ y }}\n</group>\n%s</template>\n"
OUT = "<macro>\ndef o(d):\n    return {'n': len(d), 'd': d}\n</macro>\n<output macro='o'/>\n<output format='json'/>\n"
T_ATTR = "<template name='temp' results='per_template'>\n<group name='g*'>\nx {{ x | lookup('t', add_field='l') }}\n{{ v | set('v') }}\n</group>\n<group name='h*'>\nx {{ y }}\n</group>\n</template>\n"

SECOND = {"plain": T_TWO % "", "out": T_TWO % OUT, "per_template": T_ATTR,
          "tagged": T_TWO % "<input name='in2' load='text' groups='g*'>\nx k1\n</input>\n<vars>\nv = 'own'\n</vars>\n"}


# ------------------------------------------------------------ the model
class Model:
    def __init__(self, variant):
        self.variant = variant
        self.vars = {}
        self.t = []  # templates in order
        self.held = []

    def key(self):
        return repr((self.vars, self.t))

    def add_template(self, which):
        if which == "root":
            t = dict(name="_root_template_", inputs=collections.OrderedDict(), vars=dict(self.vars), lookup={}, results=[], two=False)
        else:
            t = dict(name="temp", inputs=collections.OrderedDict(), vars=dict(self.vars), lookup={}, results=[], two=True)
            if self.variant == "tagged":
                t["inputs"]["in2"] = [["1t"], {"g"}]
                t["vars"]["v"] = "own"
        self.t.append(t)

    def pick(self, name):
        return [t for t in self.t if name in ("_all_", t["name"])]

    def add_input(self, text, name, template, groups):
        for t in self.pick(template):
            gs = ({"g", "h"} if t["two"] else {"g"}) if groups is None else set(groups) & ({"g", "h"} if t["two"] else {"g"})
            if name in t["inputs"]:
                e = t["inputs"][name]
                if text not in e[0]:
                    e[0].append(text)
                e[1] |= gs
            else:
                t["inputs"][name] = [[text], gs]

    def clear_input(self, template):
        for t in self.pick(template):
            t["inputs"] = collections.OrderedDict()

    def set_input(self, text, name, template, groups):
        self.clear_input(template)
        self.add_input(text, name, template, groups)

    def add_vars(self, value):
        self.vars["v"] = value
        for t in self.t:
            t["vars"]["v"] = value

    def add_lookup(self, table):
        for t in self.t:
            t["lookup"] = TABLES[table]

    def record(self, t, key):
        r = {"x": key}
        if key in t["lookup"]:
            r["l"] = t["lookup"][key]
        r["v"] = t["vars"].get("v", "v")
        return r

    def item(self, t, text, groups):
        keys = ["k1"] if text == "1t" else KEYS[text]
        res = {}
        if keys and "g" in groups:
            res["g"] = [self.record(t, k) for k in keys]
        if keys and "h" in groups:
            res["h"] = [{"y": k} for k in keys]
        return res

    def parse(self):
        for t in self.t:
            if t["two"] and self.variant == "per_template":
                joined = {}
                for name, (texts, groups) in t["inputs"].items():
                    for x in texts:
                        for k, v in self.item(t, x, groups).items():
                            joined.setdefault(k, []).extend(v)
                t["results"] = joined
            else:
                t["results"] = t["results"] + [self.item(t, x, e[1]) for e in t["inputs"].values() for x in e[0]]
            t["parsed"] = True

    def clear_result(self, templates):
        for t in self.t:
            if templates is None or t["name"] in templates:
                t["results"] = []
                t["parsed"] = False

    def shown(self, t):
        if t["two"] and self.variant == "out" and t.get("parsed"):
            return json.loads(json.dumps({"n": len(t["results"]), "d": t["results"]}))
        return t["results"]


# ------------------------------------------------------------ the real thing
ARGS = {"groups": {"g": ["g"], "gh": ["g", "h"], None: None}}


class Real:
    def __init__(self, variant):
        self.variant = variant
        self.owned = []  # what the caller passed in, with a copy of it
        self.v0 = self.mine({"w": "w0"})
        self.p = obs.ttp(vars=self.v0)
        self.held = []

    def mine(self, x):
        self.owned.append((x, copy.deepcopy(x)))
        return x

    def add_template(self, which):
        if which == "root":
            self.p.add_template(T_ROOT)
        else:
            self.p.add_template(SECOND[self.variant], filters=self.mine([]))

    def add_input(self, text, name, template, groups):
        self.p.add_input(TEXTS[text], input_name=name, template_name=template, **({} if groups is None else {"groups": self.mine([g + '*' for g in groups])}))

    def set_input(self, text, name, template, groups):
        self.p.set_input(TEXTS[text], input_name=name, template_name=template, **({} if groups is None else {"groups": self.mine([g + '*' for g in groups])}))

    def clear_input(self, template):
        if template == "_all_":
            self.p.clear_input()
        else:
            self.p.clear_input(template_name=template)

    def add_vars(self, value):
        self.p.add_vars(self.mine({"v": value}))

    def add_lookup(self, table):
        self.p.add_lookup("t", text_data=repr(TABLES[table]), load="python")

    def parse(self):
        self.p.parse(one=True)

    def clear_result(self, templates):
        if templates is None:
            self.p.clear_result()
        else:
            self.p.clear_result(templates=self.mine(list(templates)) if len(templates) > 1 else templates[0])


def compare(model, real, path):
    got = real.p.result()
    want = [model.shown(t) for t in model.t]
    shown = [json.loads(x) if isinstance(x, str) and t["two"] and model.variant == "out" else x for x, t in zip(got, model.t)]
    note = "variant %s, calls %r" % (model.variant, path)
    if not same(shown, want):
        raise Violation("results differ from the model: %s\n%s\nexpected %r\nobserved %r" % (first_difference(want, shown), note, want, got))
    for live, kept, when in real.held:
        if not same(live, kept):
            raise Violation("results obtained after call %d changed: %s\n%s" % (when, first_difference(kept, live), note))
    for live, kept in real.owned:
        if not same(live, kept):
            raise Violation("an argument of the caller was modified: %s\n%s" % (first_difference(kept, live), note))
    real.held.append((got, copy.deepcopy(got), len(path)))
    named = real.p.result(structure="dictionary")
    if not same(named, {t["name"]: g for t, g in zip(model.t, got)}):
        raise Violation("dictionary structure disagrees with the list: %r\n%s" % (named, note))
    for name in named:
        one = real.p.result(templates=name)
        if not same(one, [g for t, g in zip(model.t, got) if t["name"] == name]):
            raise Violation("results of template %r disagree with those of all: %r\n%s" % (name, one, note))


def ops(variant):
    o = [("parse",), ("clear_result", None), ("clear_result", ("temp",)), ("clear_result", ("_root_template_",)), ("clear_input", "_all_"), ("clear_input", "temp"),
         ("add_vars", "V1"), ("add_vars", "V2"), ("add_lookup", "A"), ("add_lookup", "B")]
    for text, name, template, groups in [("1", "Default_Input", "_root_template_", None), ("2", "Default_Input", "_all_", None),
                                         ("2", "in2", "temp", None), ("1", "in2", "temp", ("g",)), ("0", "in2", "_all_", ("g", "h"))]:
        o.append(("add_input", text, name, template, groups))
    for text, name, template, groups in [("1", "Default_Input", "_root_template_", None), ("2", "in2", "temp", ("g",)), ("1", "in2", "_all_", None)]:
        o.append(("set_input", text, name, template, groups))
    o.append(("add_template", "root"))
    return o


def start(variant, first):
    m = Model(variant)
    m.vars["w"] = "w0"
    r = Real(variant)
    path = []
    for op in first:
        apply(m, r, op, path)
    return m, r, path


def apply(m, r, op, path):
    getattr(m, op[0])(*op[1:])
    path.append(op)
    if r is not None:
        got = obs.attempt(getattr(r, op[0]), *op[1:])
        if isinstance(got, obs.Raised):
            raise Violation("%r raised %r\nvariant %s, calls %r" % (op, got, m.variant, path))


BOTH = (("add_template", "root"), ("add_template", "two"))
FIRSTS = {"both": BOTH, "two": (("add_template", "two"),), "late": (("add_vars", "V0"), ("add_template", "two"), ("add_input", "1", "Default_Input", "_all_", None), ("add_template", "root"))}


# ------------------------------------------------------------ all sequences
def seq_cases():
    n = 3 if not DEEP else 4
    for variant in SECOND:
        o = ops(variant)
        for first in FIRSTS:
            depth = n if first == "both" else n - 1
            for s in itertools.product(o, repeat=depth):
                yield (variant, first, s, ())
    # one call less at the front and a history behind it
    tails = [(("add_input", "1", "Default_Input", "_all_", None), ("parse",)),
             (("add_input", "1", "Default_Input", "_all_", None), ("parse",), ("add_input", "2", "in2", "_all_", None))]
    for variant in SECOND:
        for tail in tails:
            for s in itertools.product(ops(variant), repeat=n):
                if s[-1] == ("parse",) or len([x for x in s if x == ("parse",)]) != 1:
                    continue
                yield (variant, "both", s, tail)


def seq_fn(case):
    variant, first, seq, head = case
    m, r, path = start(variant, FIRSTS[first] + tuple(head))
    compare(m, r, path)
    states = set()
    for op in seq + (("parse",),):
        apply(m, r, op, path)
        compare(m, r, path)
        states.add(h(m.key()))
    return Outcome(h([m.shown(t) for t in m.t]), any(t["results"] for t in m.t), states=states, transitions=len(path))


# ------------------------------------------------------------ search with state merging
def search(variant, depth, limit):
    """a shortest call sequence to every state of the model within the depth, results capped"""
    m, _, path = start(variant, BOTH)
    seen = {m.key(): ()}
    frontier = [(m, ())]
    o = [x for x in ops(variant) if x[0] != "add_template"]
    for d in range(depth):
        nxt = []
        for m, path in frontier:
            for op in o:
                m2 = copy.deepcopy(m)
                getattr(m2, op[0])(*op[1:])
                if any(len(t["results"]) > limit for t in m2.t):
                    continue
                k = m2.key()
                if k not in seen:
                    seen[k] = path + (op,)
                    nxt.append((m2, path + (op,)))
        frontier = nxt
    return list(seen.values())


PATHS = {}


def bfs_cases():
    for variant in SECOND:
        if variant not in PATHS:
            PATHS[variant] = search(variant, 5 if DEEP else 4, 6)
        for p in PATHS[variant]:
            yield (variant, p)


def bfs_fn(case):
    variant, path = case
    # every transition out of this state
    o = [x for x in ops(variant) if x[0] != "add_template"]
    count = 0
    states = set()
    for op in o if DEEP or len(path) < 4 else o[:1]:
        m, r, done = start(variant, BOTH + tuple(path))
        apply(m, r, op, done)
        compare(m, r, done)
        apply(m, r, ("parse",), done)
        compare(m, r, done)
        states.add(h(m.key()))
        count += 1
    return Outcome(h((variant, sorted(states))), True, states=states, transitions=count, count=count)


# ------------------------------------------------------------ arguments and reads
def read_cases():
    kws = [{}, {"format": "json"}, {"format": "pprint"}, {"structure": "flat_list"}, {"structure": "dictionary"}, {"templates": ["temp"]}, {"templates": "temp", "format": "yaml"}]
    for variant in SECOND:
        for seq in itertools.product(range(len(kws)), repeat=3):
            yield (variant, [kws[i] for i in seq])


def read_fn(case):
    variant, kws = case
    m, r, path = start(variant, BOTH + (("add_input", "1", "Default_Input", "_all_", None), ("parse",)))
    before = copy.deepcopy(r.p.result())
    fresh = start(variant, BOTH + (("add_input", "1", "Default_Input", "_all_", None), ("parse",)))[1]
    for kw in kws:
        a = copy.deepcopy(kw)
        got = r.p.result(**a)
        if a != kw:
            raise Violation("arguments %r of result() became %r" % (kw, a))
    want = fresh.p.result(**copy.deepcopy(kws[-1]))
    if not same(got, want):
        raise Violation("result(%r) after %r: %s" % (kws[-1], kws, first_difference(want, got)))
    if not same(before, r.p.result()):
        raise Violation("result() calls %r changed the results: %s" % (kws, first_difference(before, r.p.result())))
    apply(m, r, ("parse",), path)
    r.held = []
    compare(m, r, path)
    return Outcome(h((variant, repr(got))), True, transitions=len(kws))


STRUCTS = [["x k1", "x k2"], {"a": ["x k1"], "b": "x k2"}, [{"l": "x k1"}, [["x k2"]]], ("x k1",)]
VALUES = ["s", ["a"], {"k": ["n"]}, 5]


def arg_cases():
    for i in range(len(STRUCTS)):
        for kind in ("sort", "append", "keep"):
            yield ("struct", i, kind)
    for v in range(len(VALUES)):
        for how in ("ttp", "add_vars"):
            for use in ("set", "join", "macro", "results", "record"):
                yield ("vars", v, how, use)


def arg_fn(case):
    if case[0] == "struct":
        if case[1:] == (1, 'append'):
            return None
        data = copy.deepcopy(STRUCTS[case[1]])
        body = {"sort": "d = repr(d)", "append": "d = list(d)", "keep": "pass"}[case[2]]
        p = obs.ttp(template="<macro>\ndef m(d):\n    %s\n    import re\n    return '\\n' + '\\n'.join(re.findall(r'x k.', repr(d))) + '\\n\\n'\n</macro>\n<input macro='m'/>\n%s" % (body, T_ROOT))
        p.add_input(data)
        p.parse(one=True)
        want = [[{"g": [{"x": x, "v": "v"} for x in ("k1", "k2")[: 1 if case[1] == 3 else 2]]}]]
        if not same(p.result(), want):
            raise Violation("structured data %r: %r" % (data, p.result()))
        if not same(data, STRUCTS[case[1]]):
            raise Violation("structured data was modified: %r" % (data,))
        return Outcome(case, True)
    _, v, how, use = case
    value = copy.deepcopy(VALUES[v])
    given = {"v": value}
    tpl = {
        "set": "<group name='g*'>\nx {{ x }}\n{{ v | set('v') }}\n</group>",
        "join": "<group name='g*'>\nx {{ x | _start_ }}\nx {{ z | let('q', 'v') | joinmatches }}\n{{ x | set('v') | joinmatches }}\n</group>",
        "macro": "<macro>\ndef m(d):\n    return d\n</macro>\n<group name='g*' macro='m' set='v, n'>\nx {{ x }}\n</group>",
        "results": "<vars name='vv'>\nk = 'k'\n</vars>\n<group name='g*' functions=\"set('v', 'n')\">\nx {{ x }}\n</group>",
        "record": "<group name='g*'>\nx {{ x | record('v') }}\n{{ v | set('v') }}\n</group>",
    }[use]
    if how == "ttp":
        p = obs.ttp(vars=given, template=tpl)
    else:
        p = obs.ttp(template=tpl)
        p.add_vars(given)
    p.add_input(TEXTS["1"])
    p.add_vars({"other": 1})
    for _ in range(2):
        p.parse(one=True)
        # what the user does to the results must not reach the arguments, either
        for r in p.result()[0]:
            for g in r.get("g", []):
                for x in g.values():
                    if isinstance(x, list):
                        x.append("user")
                    elif isinstance(x, dict):
                        x["user"] = 1
        p.clear_result()
    if not same(given, {"v": VALUES[v]}):
        raise Violation("vars given by the caller became %r (%r)" % (given, case))
    return Outcome(case, True)


def check(ck):
    for v in SECOND:
        PATHS[v] = search(v, 5 if DEEP else 4, 6)
    ck.explore("all sequences", seq_cases, seq_fn, rule="every sequence of calls to the depth, every variant; results compared with the model after every call, nothing obtained or passed before changes")
    ck.explore("state space", bfs_cases, bfs_fn, rule="every call in every state of the model reachable within the depth")
    ck.explore("reads", read_cases, read_fn, rule="every sequence of three result() calls leaves the results alone")
    ck.explore("arguments", arg_cases, arg_fn, rule="structured data and variables of the caller are not modified, whatever uses them")
