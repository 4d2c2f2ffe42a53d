"""C15: every short chain of outputs and every assignment of outputs to groups,
against function composition over the results without outputs."""
import ast
import copy
import functools
import itertools
import json
import os
import shutil
import sys

import yaml

from mc import obs
from mc.core import Outcome, Violation, h, norm

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of output chains and of output-to-group assignments executed on the real parser, against a function composition model with recorded calls, files and terminal text"
ASSUMPTIONS = [
    "output names are unique; groups with outputs of their own have a name",
]
DEEP = "thorough" in sys.argv

MACROS = """<macro>
calls = []
def A(d):
    calls.append(("A", d))
    return {"A": d}
def B(d):
    calls.append(("B", d))
    return ["B", d]
def N(d):
    calls.append(("N", d))
def P(d):
    calls.append(("P", d))
    d.append("P") if isinstance(d, list) else None
    return d
def I(d):
    if isinstance(d, list):
        d.append("I")
    if isinstance(d, dict):
        d["I"] = 1
    return d
def log():
    return list(calls)
</macro>
"""


# ------------------------------------------------------------ the model of one output
def A(d):
    return {"A": d}


def B(d):
    return ["B", d]


def jdump(d):
    return json.dumps(d, sort_keys=True, indent=4, separators=(",", ": "))


def inplace(d):
    d = copy.deepcopy(d)
    if isinstance(d, list):
        d.append("I")
    if isinstance(d, dict):
        d["I"] = 1
    return d


class World:
    """what outputs left behind"""

    def __init__(self):
        self.files = {}
        self.term = []


def file_text(d):
    return d if isinstance(d, str) else str(d)


# name: (tag attributes, tag text, function over (data, world))
def seq(*fns):
    def run(d, w):
        for f in fns:
            d = f(d)
        return d
    return run


def to_file(name, fn, back):
    def run(d, w):
        r = fn(d)
        w.files[name] = file_text(r)
        return r if back else d
    return run


def to_term(fn, back):
    def run(d, w):
        r = fn(d)
        w.term.append(file_text(r).replace("\\n", "\n") if not isinstance(r, str) else r)
        return r if back else d
    return run


OUT = {
    "A": ("macro='A'", "", seq(A)),
    "B": ("macro='B'", "", seq(B)),
    "AB": ("functions=\"macro('A') | macro('B')\"", "", seq(A, B)),
    "BA": ("macro='B' functions=\"macro('A')\"", "", seq(B, A)),
    "AfB": ("functions=\"macro('A')\" macro='B'", "", seq(A, B)),
    "N": ("macro='N'", "", seq()),
    "J": ("format='json'", "", seq(jdump)),
    "JA": ("format='json' macro='A'", "", seq(A, jdump)),
    "AJ": ("macro='A' format='json' returner='self'", "", seq(A, jdump)),
    "raw": ("format='raw'", "", seq()),
    "unknown": ("format='nope' macro='A'", "", seq(A)),
    "file": ("format='json' returner='file' url='./o/' filename='f1'", "", to_file("f1", jdump, False)),
    "file-self": ("macro='B' returner='file, self' url='./o/' filename='f2'", "", to_file("f2", B, True)),
    "self-file": ("returner='self,file' url='./o/' filename='f3' format='json'", "", to_file("f3", jdump, True)),
    "term": ("returner='terminal' macro='A' format='json'", "", to_term(seq_a_j := (lambda d: jdump(A(d))), False)),
    "term-self": ("returner='terminal,self' macro='A'", "", to_term(A, True)),
    "no-returner": ("returner='nope' macro='A'", "", seq()),
    "cond-yes": ("macro='A' condition=\"V, 'yes'\"", "", seq(A)),
    "cond-no": ("macro='A' format='json' condition=\"V, 'no'\" returner='file, self' url='./o/' filename='f4'", "", seq()),
    "I": ("macro='I'", "", seq(inplace)),
    "cond-no-I": ("condition=\"V, 'no'\" macro='I'", "", seq()),
    "cond-undef": ("macro='A' condition=\"W, 'yes'\"", "", seq()),
    "cond-num": ("macro='B' condition='K, 5'", "", seq(B)),
    "text": ("", "macro = 'A'\nformat = 'json'", None),
    "yaml-text": ("load='yaml'", "functions: macro('A') | macro('B')\nformat: json\nreturner: self", None),
}
OUT["text"] = (OUT["text"][0], OUT["text"][1], seq(A, jdump))
OUT["yaml-text"] = (OUT["yaml-text"][0], OUT["yaml-text"][1], seq(A, B, jdump))

VARS = "<vars>\nV = 'yes'\nK = 5\n</vars>\n"
GROUPS = ["<group name='i*'%s>\nint {{ n }}\n d {{ d }}\n</group>\n", "<group name='v'%s>\nv {{ v }}\n</group>\n", "<group name='w.{{ w }}'%s>\nw {{ w }}\n x {{ x }}\n</group>\n"]
TEXTS = ["int a\n d 1\nv 7\nw 1\n x 2", "int b\nint c", "noise", "v 8\nv 9\nw 3"]


def tag(kind, name):
    a, text, _ = OUT[kind]
    n = "" if name is None else " name='%s'" % name
    return "<output%s %s>\n%s\n</output>\n" % (n, a, text) if text else "<output%s %s/>\n" % (n, a)


def clean():
    if os.path.isdir("o"):
        shutil.rmtree("o")


def world_of():
    files = {}
    if os.path.isdir("o"):
        for f in sorted(os.listdir("o")):
            with open("o/" + f) as fo:
                files[f] = fo.read()
    return files


@functools.lru_cache(maxsize=None)
def plain(text, only, per_template=False):
    """result of the groups in `only` for one item"""
    tpl = VARS + "".join(GROUPS[g] % "" for g in only)
    p = obs.ttp(template=tpl)
    p.add_input(text)
    p.parse(one=True)
    return copy.deepcopy(p.result()[0][0])


def run_and_compare(tpl, texts, want, w, note, calls=None, tname="_root_template_"):
    clean()
    p = obs.ttp(template=tpl)
    for i, t in enumerate(texts):
        p.add_input(t, input_name="in%d" % i, template_name="_all_")
    with obs.captured() as (out, _):
        p.parse(one=True)
    got = p.result()
    obs.expect(got, want, tpl, texts, note)
    obs.expect(world_of(), w.files, tpl, texts, note + " files:")
    obs.expect(out.getvalue(), "".join(t + "\n" for t in w.term), tpl, texts, note + " terminal:")
    clean()
    return got


# ------------------------------------------------------------ chains of template outputs
SMALL = ["A", "B", "J", "N", "file", "file-self", "term", "cond-no", "cond-yes", "AJ"]


def chain_cases():
    for texts in ((0,), (1, 3), (2,), ()):
        for k in (0, 1, 2):
            for ch in itertools.product(OUT, repeat=k):
                for place in ("before", "after", "around"):
                    if place == "around" and k < 2:
                        continue
                    if k == 2 and not DEEP and place == "before" and texts != (0,):
                        continue
                    yield (texts, ch, place, False)
        for ch in itertools.product(SMALL if not DEEP else OUT, repeat=3):
            if len(set(ch) & {"file", "file-self"}) and ch.count("file") > 1:
                continue
            if texts in ((0,), (1, 3)):
                yield (texts, ch, "around", False)
    for texts in ((0,), (1, 3)):
        for k in (1, 2):
            for ch in itertools.product(OUT, repeat=k):
                yield (texts, ch, "after", True)


def chain_fn(case):
    texts, ch, place, pt = case
    tags = [tag(c, None if i % 2 else "o%d" % i) for i, c in enumerate(ch)]
    groups = "".join(g % "" for g in GROUPS)
    if place == "before":
        body = "".join(tags) + groups
    elif place == "after":
        body = groups + "".join(tags)
    else:
        body = tags[0] + groups + "".join(tags[1:])
    tpl = MACROS + VARS + body
    if pt:
        tpl = "<template results='per_template'>\n%s\n</template>" % tpl
        d = plain("\n".join(TEXTS[t] for t in texts), (0, 1, 2))
    else:
        d = [plain(TEXTS[t], (0, 1, 2)) for t in texts]
    d = copy.deepcopy(d)
    w = World()
    states = []
    for c in ch:
        d = OUT[c][2](d, w)
        states.append(h(d))
    run_and_compare(tpl, [TEXTS[t] for t in texts], [d], w, "outputs %r over items %r (%s):" % (ch, texts, place))
    return Outcome(h((d, sorted(w.files.items()), w.term)), len(ch) > 0, states=states, transitions=len(ch))


# ------------------------------------------------------------ assignments to groups
REFS = [None, "o1", "o2", "o1, o2", "o2,o1", "gone", "gone, o1", "o1, gone, o2", "gone, lost, o2", "o1, o1"]
OKINDS = [("A", "B"), ("file-self", "A"), ("N", "J"), ("cond-no", "term"), ("AB", "cond-yes"), ("file", "B")]


def assign_cases():
    for kinds in OKINDS:
        for refs in itertools.product(REFS, repeat=3):
            if not DEEP and refs[2] not in (None, "o2", "gone, o1"):
                continue
            for texts in ((0,), (1, 3), (2, 0)):
                for pt in (False, True):
                    if pt and not DEEP and texts != (1, 3):
                        continue
                    for place in ("first", "last"):
                        if not DEEP and (place == "last") == (kinds in OKINDS[:3]):
                            continue
                        yield (kinds, refs, texts, pt, place)
    # names that begin or end the same, or differ in letter case
    for names in (("o", "o1"), ("o1", "o"), ("1", "o1"), ("O1", "o1"), ("o_1", "o"), ("o.a", "o.b"), ("last1", "as")):
        rename = {"o1": names[0], "o2": names[1], None: None}
        for refs in itertools.product((None, "o1", "o2", "o1, o2", "o2, o1"), repeat=3):
            refs = tuple(r and ", ".join(rename[x.strip()] for x in r.split(",")) for r in refs)
            for place in ("first", "last"):
                for pt in (False, True) if DEEP else (False,):
                    yield (("A", "B"), refs, (0,), pt, place, names)


def assign_fn(case):
    kinds, refs, texts, pt, place = case[:5]
    names = list(case[5]) if len(case) > 5 else ["o1", "o2"]
    use = [[] if r is None else [x.strip() for x in r.split(",") if x.strip() in names] for r in refs]
    owned = set(sum(use, []))
    outs = tag(kinds[0], names[0]) + tag(kinds[1], names[1]) + tag("A", "last")
    groups = "".join(g % ("" if r is None else " output='%s'" % r) for g, r in zip(GROUPS, refs))
    tpl = MACROS + VARS + (outs + groups if place == "first" else groups + outs)
    if pt:
        tpl = "<template results='per_template'>\n%s\n</template>" % tpl
    w = World()
    kind = dict(zip(names, kinds))
    main = tuple(g for g in range(3) if not use[g])
    own = [g for g in range(3) if use[g]]
    items, grp = [], []
    for t in texts:
        m = copy.deepcopy(plain(TEXTS[t], main)) if main else {}
        mine = []
        for g in own:
            d = copy.deepcopy(plain(TEXTS[t], (g,)))
            if not d:
                continue
            for o in use[g]:
                d = OUT[kind[o]][2](d, w)
            mine.append(d)
        grp += mine
        items.append(([m] if m else []) + mine if mine else m)
    if pt:
        m = copy.deepcopy(plain("\n".join(TEXTS[t] for t in texts), main)) if main else {}
        d = ([m] if m else []) + grp if grp else m
    else:
        d = items
    states = [h(x) for x in items]
    for o in names + ["last"]:
        if o not in owned:
            d = (OUT[kind[o]] if o in kind else OUT["A"])[2](d, w)
    run_and_compare(tpl, [TEXTS[t] for t in texts], [d], w, "outputs %r assigned %r, items %r, per_template=%s:" % (kinds, refs, texts, pt))
    return Outcome(h((d, sorted(w.files.items()), w.term)), bool(own), states=states, transitions=len(texts) * 3)


# ------------------------------------------------------------ who sees which output: templates, nested groups, repeated parses
def scope_cases():
    for k in (0, 1, 2):
        for c1 in itertools.product(SMALL, repeat=k):
            for c2 in itertools.product(("A", "J", "term", "file"), repeat=1) if k else [(), ("A",), ("J",)]:
                for nested in (False, True):
                    yield (c1, c2, nested)


def scope_fn(case):
    """outputs belong to their template; an inner group's output attribute means nothing"""
    c1, c2, nested = case
    g = GROUPS[0] % "" if not nested else "<group name='i*'>\nint {{ n }}\n<group name='c' output='p0'>\n d {{ d }}\n</group>\n</group>\n"
    body1 = MACROS + VARS + "".join(tag(c, "p%d" % i) for i, c in enumerate(c1)) + g
    body2 = MACROS + VARS + GROUPS[1] % "" + "".join(tag(c, "p%d" % i) for i, c in enumerate(c2))
    tpl = "<template name='one'>\n%s</template>\n<template name='two'>\n%s</template>" % (body1, body2)
    w = World()
    p = obs.ttp(template=g)
    p.add_input(TEXTS[0])
    p.parse(one=True)
    d1 = copy.deepcopy(p.result()[0])
    d2 = [copy.deepcopy(plain(TEXTS[0], (1,)))]
    for c in c1:
        d1 = OUT[c][2](d1, w)
    for c in c2:
        d2 = OUT[c][2](d2, w)
    run_and_compare(tpl, [TEXTS[0]], [d1, d2], w, "case %r:" % (case,))
    return Outcome(h((d1, d2)), bool(c1), transitions=len(c1) + len(c2))


# ------------------------------------------------------------ each output runs exactly once and sees what the previous returned
def trace_cases():
    kinds = ["A", "B", "N", "P", "AB", "BA"]
    for k in range(1, 4):
        for ch in itertools.product(kinds, repeat=k):
            for texts in ((0,), (1, 3), ()):
                for grp in (False, True):
                    if grp and texts != (0,):
                        continue
                    yield (ch, texts, grp)


def trace_fn(case):
    ch, texts, grp = case
    seen = []

    def step(name, d):
        seen.append((name, copy.deepcopy(d)))
        return {"A": A, "B": B, "N": lambda x: x, "P": lambda x: x + ["P"] if isinstance(x, list) else x}[name](d)
    d = [copy.deepcopy(plain(TEXTS[t], (0,))) for t in texts]
    if grp:
        d = d[0]
    for c in ch:
        for m in c:
            d = step(m, d)
    tags = "".join("<output name='x%d' functions=\"%s\"/>\n" % (i, " | ".join("trace('%s')" % m for m in c)) for i, c in enumerate(ch))
    ref = " output='%s'" % ",".join("x%d" % i for i in range(len(ch))) if grp else ""
    got_seen = []

    def trace(data, name):
        got_seen.append((name, copy.deepcopy(data)))
        return {"A": A, "B": B, "N": lambda x: x, "P": lambda x: x + ["P"] if isinstance(x, list) else x}[name](data)
    p = obs.ttp()
    p.add_function(trace, scope="output", name="trace")
    p.add_template(tags + GROUPS[0] % ref)
    for i, t in enumerate(texts):
        p.add_input(TEXTS[t], input_name="in%d" % i)
    p.parse(one=True)
    obs.expect(got_seen, seen, tags, texts, "calls of output functions, case %r:" % (case,))
    obs.expect(p.result(), [[[d]] if grp else d], tags, texts, "case %r:" % (case,))
    return Outcome(h((ch, seen)), True, states=[h(s) for s in seen], transitions=len(seen))


def check(ck):
    ck.explore("chains", chain_cases, chain_fn,
               rule="every chain of up to 3 outputs over 23 kinds: results, files and terminal text of the composition")
    ck.explore("assignments", assign_cases, assign_fn,
               rule="every assignment of two outputs to three groups, unknown names included: own results only, rest stays with the template")
    ck.explore("scopes", scope_cases, scope_fn, rule="outputs of a template process that template's results only; inner groups have no outputs")
    ck.explore("calls", trace_cases, trace_fn, rule="recorded calls: once, in order, each given what the previous returned")
