"""Laws over documented templates: mc/corpus.json holds templates and texts of the
examples users write (taken from the documentation and tests of the project, which
mix many features at once). No expected results are kept: each law relates runs of the
code under test on the template and on all its transformations of one kind, which
must agree."""
import copy
import io
import itertools
import json
import os
import re
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

from . import env, obs
from .core import Outcome, Violation, first_difference, h, same

with open(os.path.join(os.path.dirname(__file__), "corpus.json"), encoding="utf-8") as f:
    ENTRIES = json.load(f)
for i, e in enumerate(ENTRIES):
    e["id"] = i
    # outcome depends on what other items recorded, or on all the items
    e["global"] = bool(re.search(r"record\s*\(|record=|globvar|template=|results\s*=\s*[\"']per_template|lookup\([\"']?(template|group)|lookup=[^>\n]*\b(template|group)\s*=", e["template"]))
    e["per_template"] = "per_template" in e["template"]
    e["lines"] = bool(re.search(r"_line_|ROW|_headers_|getfilename|gethostname|extract_commands|re\(|{{[^}]*\bROW", e["template"]))
    # takes items from the input tags of the template too
    e["inputs"] = bool(re.search(r"<(input|in|i)\b", e["template"]))
    # lines of values only take whatever line; a line of _end_ alone takes empty ones
    e["any"] = bool(re.search(r"(?m)^[ \t]*{{ *\w+[^{}\n]*}}[ \t]*$", e["template"]))
    e["own"] = bool(re.search(r"<template|<t ", e["template"]))
LAWS = {}


def law(pid, name, rule):
    def deco(fn):
        LAWS.setdefault(pid, []).append((name, rule, fn))
        return fn
    return deco


def parser(e, template=None, data=True):
    p = obs.ttp(template=e["template"] if template is None else template, **({"vars": copy.deepcopy(e["vars"])} if e["vars"] else {}))
    for x in (e["data"] if data is True else data or []):
        p.add_input(x)
    return p


def result(p, **kw):
    p.parse(one=True)
    return copy.deepcopy(p.result(**kw))


def run(e, template=None, data=True):
    return obs.attempt(lambda: result(parser(e, template, data)))


BASE = {}


def base(e):
    """results of the template as it stands, taken once in each process"""
    if e["id"] not in BASE:
        BASE[e["id"]] = run(e)
    return BASE[e["id"]]


def agree(e, got, want, note, template=None, data=None):
    obs.expect(got, want, template if template is not None else e["template"], "%r" % (e["data"] if data is None else data,), "%s (%s):" % (e["name"], note))


def explore(ck):
    for name, rule, fn in LAWS.get(ck.pid, []):
        def one(e, fn=fn):
            with obs.captured():
                n = fn(e, ck)
            if not n:
                return None
            return Outcome(h((e["id"], repr(base(e)))), True, transitions=n, count=n if isinstance(n, int) else 1)

        ck.explore(name, lambda: ENTRIES, one, rule=rule)


# ------------------------------------------------------------ C01, C02: lines
@law("C01", "documented templates: trailing blanks", "every line of the text, or all of them, ended by blanks, tabs or CR: same results")
def trailing(e, ck):
    # a CR is part of the end of the line only as the last character of it
    if not e["data"] or e["lines"] or e["global"] or any("\r" in d for d in e["data"]):
        return 0
    n = 0
    for end in (" ", "\t  ", "\r", " \r"):
        for step in (1, 2, 3):
            data = ["\n".join(l + end if k % step == 0 else l for k, l in enumerate(d.split("\n"))) for d in e["data"]]
            agree(e, run(e, data=data), base(e), "lines ending with %r" % end, data=data)
            n += 1
    return n


NOISE = ["", "~~~", "~~ noise, more noise ~~ :: ~~ !! ?? ^^ ~~ %%"]


@law("C02", "documented templates: other lines", "a line that matches nothing inserted at every place of the text, or at all of them: same results")
def noise(e, ck):
    if not e["data"] or e["lines"] or e["global"] or e["per_template"] or e["any"]:
        return 0
    n = 0
    for i, d in enumerate(e["data"]):
        if len(e["data"]) > 1 and i:
            continue
        lines = d.split("\n")
        for line in NOISE:
            texts = ["\n".join(lines[:k] + [line] + lines[k:]) for k in range(len(lines) + 1)] + [("\n" + line + "\n").join(lines)]
            want = run(e, data=[d])
            if isinstance(want, obs.Raised):
                continue
            for t in texts:
                agree(e, run(e, data=[t]), want, "line %r inserted" % line, data=t)
                n += 1
    return n


# ------------------------------------------------------------ C12: items
@law("C12", "documented templates: items", "text of each template before, after and between texts of others (all orders of it, its halves and another text): results of each item as if alone")
def items(e, ck):
    if not e["data"] or e["global"] or e["per_template"] or e["inputs"] or e["own"] or re.search("<output|<out|<o ", e["template"]):
        return 0
    d = e["data"][0]
    lines = d.split("\n")
    texts = [d, "\n".join(lines[len(lines) // 2:]), "\n".join(lines[:len(lines) // 2]), ENTRIES[(e["id"] + 7) % len(ENTRIES)]["data"][:1] or ["x y z"], "\n".join(reversed(lines))]
    texts = list(dict.fromkeys(t[0] if isinstance(t, list) else t for t in texts))
    # a single word could be taken for the name of a file
    texts = [t for t in texts if "\n" in t.strip()]
    alone = {t: run(e, data=[t]) for t in texts}
    if any(isinstance(r, obs.Raised) or len(r) != 1 or not isinstance(r[0], list) or len(r[0]) > 1 for r in alone.values()):
        return 0
    n = 0
    for k in range(2, len(texts) + 1):
        for order in itertools.permutations(texts, k):
            if k > 3 and not ck.thorough and order[0] is not texts[-1]:
                continue
            agree(e, run(e, data=order), [[x for t in order for x in alone[t][0]]], "several items", data=order)
            n += 1
    return n


# ------------------------------------------------------------ C14, C16: results
@law("C14", "documented templates: structures", "the same results in every structure, any number of times")
def structures(e, ck):
    p = parser(e)
    r = obs.attempt(result, p)
    if isinstance(r, obs.Raised):
        return 0
    for _ in range(2):
        agree(e, p.result(), r, "result() again")
        flat = []
        for t in r:
            for i in t if isinstance(t, list) else [t]:
                flat += i if isinstance(i, list) else [i]
        agree(e, p.result(structure="flat_list"), flat, "flat_list")
        d = p.result(structure="dictionary")
        if len(p._templates) == 1:
            agree(e, list(d.values()), r, "dictionary")
        agree(e, p.result(templates=list(d)), [d[k] for k in d], "templates by name")
    return 8


@law("C16", "documented templates: round trip", "json, yaml and pprint text of the results loads back to them")
def formats(e, ck):
    import yaml
    p = parser(e)
    r = obs.attempt(result, p)
    if isinstance(r, obs.Raised):
        return 0
    try:
        if not same(json.loads(json.dumps(r)), r):
            return 0
    except TypeError:
        return 0
    for f, load in (("json", json.loads), ("yaml", yaml.safe_load), ("pprint", eval)):
        got = p.result(format=f)
        agree(e, [load(x) for x in got], r, f)
    agree(e, p.result(), r, "after formatting")
    return 4


# ------------------------------------------------------------ C19, C20: parsers
@law("C19", "documented templates: pairs", "parsers of two templates made and run in every order of calls: each as if alone")
def pairs(e, ck):
    n = 0
    dist = range(1, len(ENTRIES)) if ck.thorough else (1, 2, 5, 11, 40, 101)
    for k in dist:
        o = ENTRIES[(e["id"] + k) % len(ENTRIES)]
        a, b = parser(e), parser(o)
        ra = obs.attempt(result, a)
        rb = obs.attempt(result, b)
        agree(e, ra, base(e), "made before, run before %s" % o["name"])
        agree(o, rb, base(o), "made after, run after %s" % e["name"])
        agree(e, obs.attempt(a.result), base(e), "result after %s" % o["name"])
        b, a = parser(o), parser(e)
        b2 = parser(o, data=[])
        ra = obs.attempt(result, a)
        rb = obs.attempt(result, b)
        agree(e, ra, base(e), "made after, run before %s" % o["name"])
        agree(o, rb, base(o), "made before, run after %s" % e["name"])
        for x in o["data"]:
            b2.add_input(x)
        agree(o, obs.attempt(result, b2), base(o), "run after both")
        n += 6
    return n


@law("C20", "documented templates: histories", "parse, result, clear and set calls: results of all the parses, nothing that was obtained changes")
def histories(e, ck):
    if e["global"]:
        return 0
    r = base(e)
    if isinstance(r, obs.Raised):
        return 0
    data = list(e["data"])
    p = parser(e, data=[])
    for x in data:
        p.add_input(x)
    p.parse(one=True)
    first = p.result()
    kept = copy.deepcopy(first)
    agree(e, first, r, "first parse")
    plain = not re.search("<output|<out|<o ", e["template"])
    if plain and not e["per_template"]:
        p.parse(one=True)
        agree(e, p.result(), [t + t for t in r], "second parse appends")
    agree(e, first, kept, "results obtained before")
    p.clear_result()
    p.parse(one=True)
    agree(e, p.result(), r, "parse after clear_result")
    agree(e, first, kept, "results obtained before")
    if data and not e["inputs"] and not e["own"]:
        p.clear_result()
        p.clear_input()
        for x in data:
            p.add_input(x)
        p.parse(one=True)
        agree(e, p.result(), r, "inputs given again")
        if len(data) == 1:
            p.clear_result()
            p.set_input(data[0])
            p.parse(one=True)
            agree(e, p.result(), r, "set_input")
    return 6


# ------------------------------------------------------------ C21, C25, C30: notations
@law("C21", "documented templates: extended", "template in a file extended by a template of nothing else, once and over a second file: same results")
def extended(e, ck):
    if e["own"] or "<" not in e["template"]:
        return 0
    d = tempfile.mkdtemp(dir=os.getcwd())
    for k, text in enumerate((e["template"], "<extend template='%s/0.txt'/>" % d)):
        with open("%s/%d.txt" % (d, k), "w", encoding="utf-8") as fd:
            fd.write(text)
    for t in ("<extend template='%s/0.txt'/>", "<extend template='%s/1.txt'/>", "<doc>\ntext\n</doc>\n<extend template='%s/1.txt'/>\n"):
        agree(e, run(e, template=t % d), base(e), t)
    # every top tag in a file of its own
    try:
        parts = [ET.tostring(c, encoding="unicode") for c in ET.fromstring("<template>\n%s\n</template>" % e["template"])]
    except ET.ParseError:
        return 3
    t = ""
    for k, part in enumerate(parts):
        with open("%s/p%d.txt" % (d, k), "w", encoding="utf-8") as fd:
            fd.write(part)
        t += "<extend template='%s/p%d.txt'/>\n" % (d, k)
    agree(e, run(e, template=t), base(e), "every tag extended", template=t)
    return 4


@law("C25", "documented templates: routes", "texts and templates as strings, files, file objects, with LF and CRLF: same results")
def routes(e, ck):
    d = tempfile.mkdtemp(dir=os.getcwd())
    tp = "%s/template.txt" % d
    with open(tp, "w", encoding="utf-8") as fd:
        fd.write(e["template"])
    agree(e, run(e, template=tp), base(e), "template in a file")
    with open(tp, encoding="utf-8") as fd:
        agree(e, run(e, template=fd), base(e), "template file object")
    n = 2
    if e["data"] and "getfilename" not in e["template"]:
        for end in ("\n", "\r\n"):
            if end == "\r\n" and re.search("_exact_space_", e["template"]):
                continue
            fs = []
            for k, x in enumerate(e["data"]):
                fs.append("%s/d%d%s.txt" % (d, k, end == "\n"))
                with open(fs[-1], "w", encoding="utf-8", newline="") as fd:
                    fd.write(x.replace("\n", end))
            agree(e, run(e, data=fs), base(e), "files, line end %r" % end)
            agree(e, run(e, data=[x.replace("\n", end) for x in e["data"]]), base(e), "strings, line end %r" % end)
            fos = [open(f, encoding="utf-8") for f in fs]
            agree(e, run(e, data=fos), base(e), "file objects, line end %r" % end)
            [f.close() for f in fos]
            n += 3
    return n


KINDS = {"g": "group", "grp": "group", "v": "vars", "i": "input", "in": "input", "o": "output", "out": "output"}


@law("C30", "documented templates: rewritings", "each of 14 rewritings of the notation and all pairs of them: same results")
def rewritings(e, ck):
    t = e["template"]
    tagged = "<" in t
    ws = {}
    if tagged and not e["own"]:
        ws["wrapped"] = lambda s: "<template>\n%s\n</template>" % s
    if tagged:
        for a, b in (("group", "g"), ("group", "grp"), ("vars", "v"), ("output", "o"), ("output", "out"), ("input", "i"), ("input", "in")):
            if "<" + a in t:
                ws["%s as %s" % (a, b)] = lambda s, a=a, b=b: re.sub(r"<(/?)%s(?=[\s/>])" % a, r"<\1" + b, s)
        ws["comments"] = lambda s: re.sub(r"(<(?:group|vars|lookup|macro|output|input|g|grp|v|o|out|i|in)[\s>])", r"<!-- <group name='none'>\nx {{ x }}\n</group> -->\1", s)
        ws["doc"] = lambda s: re.sub(r"(</?template[^>]*>)?(.*)", r"\1\2", s) if e["own"] else "<doc>\nsome {{ text }}\n</doc>\n" + s if not s.startswith("<template>") else s.replace("<template>", "<template>\n<doc>\nsome {{ text }}\n</doc>\n", 1)
    ws["hash comments"] = lambda s: re.sub(r"(<(?:group|g|grp)\b[^>]*[^/>]>[ \t]*\n|<(?:group|g|grp)>[ \t]*\n)", r"\1## a comment {{ x }}\n", s) if tagged else "## a comment {{ x }}\n" + s.lstrip("\n")
    ws["blanks in brackets"] = lambda s: re.sub(r"{{ *([^{}\n]*?) *}}", r"{{    \1   }}", s) if "macro" not in t else s
    ws["CRLF"] = lambda s: s.replace("\r\n", "\n").replace("\n", "\r\n")
    n = 0
    for k in (1, 2):
        for names in itertools.combinations(ws, k):
            s = t
            for x in names:
                s = ws[x](s)
            agree(e, run(e, template=s), base(e), ", ".join(names), template=s)
            n += 1
    # order of different kinds of tags
    if tagged:
        try:
            root = ET.fromstring(t if e["own"] else "<template>\n%s\n</template>" % t)
        except ET.ParseError:
            return n
        if root.tag.lower() == "template" and not root.findall("template"):
            kids = list(root)
            kinds = list(dict.fromkeys(KINDS.get(c.tag.lower(), c.tag.lower()) for c in kids))
            if set(kinds) <= {"group", "vars", "input", "output", "lookup", "macro", "doc"} and not (root.text or "").strip() and not any((c.tail or "").strip() for c in kids):
                for order in itertools.permutations(kinds) if len(kinds) < 5 else [kinds[i:] + kinds[:i] for i in range(len(kinds))]:
                    r = ET.Element("template", root.attrib)
                    r.text = "\n"
                    for kind in order:
                        r.extend(c for c in kids if KINDS.get(c.tag.lower(), c.tag.lower()) == kind)
                    s = ET.tostring(r, encoding="unicode")
                    agree(e, run(e, template=s), base(e), "tags in order %s" % ", ".join(order), template=s)
                    n += 1
    return n


# ------------------------------------------------------------ C17: processes
@law("C17", "documented templates: processes", "parse(multi=True) under the operating system's schedule gives the results of parse(one=True)")
def processes(e, ck):
    # values of deepdiff in results cannot be sent between processes: cases of their own
    def diff(o):
        return "deepdiff" in o["template"] and bool(re.search(r"<group[^>]*output=", o["template"]))

    if diff(e):
        ids = [e["id"]]
    elif e["id"] % 12:
        return 0
    else:
        ids = [o["id"] for o in ENTRIES[e["id"]:e["id"] + 12] if not o["global"] and not diff(o)]
    src = ("import sys, os\nsys.path.insert(0, %r)\nos.environ['VERIF_REAL_PROCS'] = '1'\nimport multiprocessing\nmultiprocessing.cpu_count = lambda: 2\n"
           "from mc import corpus\nfor i in %r:\n    r = corpus.multi(corpus.ENTRIES[i])\n    if r:\n        print('RESULT', r)\nprint('END')\n" % (env.VERIF, ids))
    try:
        r = subprocess.run([sys.executable, "-c", src], capture_output=True, timeout=140, text=True)
    except subprocess.TimeoutExpired:
        raise Violation("no end within 140 s, templates %s" % [ENTRIES[i]["name"] for i in ids])
    if "RESULT" in r.stdout:
        text = r.stdout.split("RESULT", 1)[1]
        raise Violation(text[:3000], key="corpus:multi-deepdiff-group-output" if diff(e) and r.stdout.count("RESULT") == 1 and "Can't pickle local object 'DeepDiff" in text else None)
    if "END" not in r.stdout:
        raise Violation("no end: %s" % r.stderr[-1500:])
    return len(ids)


def multi(e):
    want = base(e)
    p = parser(e)
    got = obs.attempt(lambda: (p.parse(multi=True), p.result())[1])
    if not same(got, want):
        return "%s: multi=True differs from one=True: %s\n%s" % (e["name"], first_difference(want, got), e["template"])


# ------------------------------------------------------------ C22: cache
@law("C22", "documented templates: cache", "all templates in a process that finds no cache and in one that finds the cache: same results")
def cached(e, ck):
    if e["id"]:
        return 0
    d = tempfile.mkdtemp(dir=os.getcwd())
    src = ("import sys, os\nsys.path.insert(0, %r)\nos.environ['TTPCACHEFOLDER'] = %r\nfrom mc import corpus\nimport hashlib\n"
           "print([hashlib.md5(repr(corpus.run(e)).encode()).hexdigest() for e in corpus.ENTRIES])\n" % (env.VERIF, d))
    outs = []
    for _ in range(3):
        r = subprocess.run([sys.executable, "-c", src], capture_output=True, timeout=140, text=True)
        outs.append(r.stdout)
        if not r.stdout:
            raise Violation("no results: " + r.stderr[-1500:])
    if len(set(outs)) > 1:
        a, b = eval(outs[0]), eval([o for o in outs if o != outs[0]][0])
        raise Violation("results with the cache differ for %s" % [ENTRIES[i]["name"] for i in range(len(a)) if a[i] != b[i]])
    return 3 * len(ENTRIES)
