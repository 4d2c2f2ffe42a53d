"""C10: every chain of macros of every return kind, in every macro-capable place."""
import itertools
import sys

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of macro chains x return kinds x places x visibility configurations on the real parser against a reference interpreter"
ASSUMPTIONS = [
    "boolean results of output macros are not claimed (only None and other values are)",
    "group macros returning an empty dictionary are excluded (an empty record)",
    "macros named but not defined anywhere in the template leave the data as it was",
]
REJ = object()

# ---------------------------------------------------------------- return kinds
# name -> (python source of the body, reference function of the data)
# reference: ("keep",) ("rej",) ("rep", v) ("add", v, dict)
MATCH_KINDS = {
    "T": ("return True", lambda d: ("keep",)),
    "N": ("return None", lambda d: ("keep",)),
    "F": ("return False", lambda d: ("rej",)),
    "F2": ("return False if str(data).startswith('2') else None", lambda d: ("rej",) if str(d).startswith("2") else ("keep",)),
    "one": ("return 1", lambda d: ("rep", 1)),
    "zero": ("return 0", lambda d: ("rep", 0)),
    "empty": ("return ''", lambda d: ("rep", "")),
    "str": ("return '%s_s' % (data,)", lambda d: ("rep", "%s_s" % (d,))),
    "pair": ("return '%s_p' % (data,), {'fp': str(data)}", lambda d: ("add", "%s_p" % (d,), {"fp": str(d)})),
    "pair2": ("return data, {'fp2': 1, 'fq': [data]}", lambda d: ("add", d, {"fp2": 1, "fq": [d]})),
    "pairn": ("return None, {'fn': 0}", lambda d: ("add", None, {"fn": 0})),
    "tup2": ("return (data, 5)", lambda d: ("rep", (d, 5))),
    "tup3": ("return (data, {}, 3)", lambda d: ("rep", (d, {}, 3))),
    "list": ("return [data]", lambda d: ("rep", [d])),
    "dict": ("return {'d': data}", lambda d: ("rep", {"d": d})),
}
GROUP_KINDS = {
    "T": ("return True", lambda d: ("keep",)),
    "N": ("pass", lambda d: ("keep",)),
    "F": ("return False", lambda d: ("rej",)),
    "F2": ("return not ('a' in data and data['a'].startswith('2'))", lambda d: ("rej",) if "a" in d and d["a"].startswith("2") else ("keep",)),
    "mut": ("data['m'] = data.get('m', '') + 'm'", lambda d: ("rep", dict(d, m=d.get("m", "") + "m"))),
    "mutT": ("data['m'] = data.get('m', '') + 't'; return True", lambda d: ("rep", dict(d, m=d.get("m", "") + "t"))),
    "new": ("return {'w': len(data), 'a': data.get('a', '') + 'n'}", lambda d: ("rep", {"w": len(d), "a": d.get("a", "") + "n"})),
    "add": ("return dict(data, z=data.get('z', 0) + 1)", lambda d: ("rep", dict(d, z=d.get("z", 0) + 1))),
}
# kinds that end a chain only: the result is not a dictionary any more
GROUP_LAST = {
    "one": ("return 1", lambda d: ("rep", 1)),
    "zero": ("return 0", lambda d: ("rep", 0)),
    "list": ("return [data]", lambda d: ("rep", [d])),
    "str": ("return 'S'", lambda d: ("rep", "S")),
}
INPUT_KINDS = {
    "T": ("return True", lambda d: ("keep",)),
    "N": ("return None", lambda d: ("keep",)),
    "F": ("return False", lambda d: ("rej",)),
    "F2": ("return 'x 2' not in data", lambda d: ("rej",) if "x 2" in d else ("keep",)),
    "app": ("return data + '\\nx 7'", lambda d: ("rep", d + "\nx 7")),
    "sub": ("return data.replace('x 1', 'x 2')", lambda d: ("rep", d.replace("x 1", "x 2"))),
    "cut": ("return '\\n'.join(data.strip().splitlines()[:-1])", lambda d: ("rep", "\n".join(d.strip().splitlines()[:-1]))),
}
OUTPUT_KINDS = {
    "N": ("pass", lambda d: ("keep",)),
    "wrap": ("return [data]", lambda d: ("rep", [d])),
    "dict": ("return {'r': data}", lambda d: ("rep", {"r": d})),
    "str": ("return str(len(str(data)))", lambda d: ("rep", str(len(str(d))))),
    "mut": ("data.append('m') if isinstance(data, list) else None", lambda d: ("rep", d + ["m"]) if isinstance(d, list) else ("keep",)),
    "none0": ("return 0", lambda d: ("rep", 0)),
    "empty": ("return []", lambda d: ("rep", [])),
}

LOG = "    import sys; getattr(sys, '_c10_log', []).append(%r)\n"


def source(kinds, names):
    return "\n".join("def m_%s(data):\n%s    %s" % (n, LOG % n, kinds[n][0]) for n in sorted(set(names)))


def chain(kinds, names, data, log, stop_keeps=False):
    """reference: the outcome of a chain, and the calls that were made"""
    fields = {}
    for n in names:
        log.append(n)
        r = kinds[n][1](data)
        if r[0] == "rej":
            return (data if stop_keeps else REJ), fields
        if r[0] in ("rep", "add"):
            data = r[1]
        if r[0] == "add":
            fields.update(r[2])
    return data, fields


def observe(template, data, **kw):
    sys._c10_log = []
    got = obs.run1(template, data, **kw)
    return got, sys._c10_log


def judge(case, template, data, got, log, want, wantlog):
    obs.expect(got, want, template, data, "chain %r:" % (case,))
    if log != wantlog:
        raise Violation("chain %r: macros called %r, expected calls %r\n%s" % (case, log, wantlog, template),
                        template=template, data=data)


# ---------------------------------------------------------------- match
def match_case(case):
    names, style = case
    data = "x 1\nx 2\nx 21"
    if style == "functions":
        var = "v | " + " | ".join('macro("m_%s")' % n for n in names)
    else:
        var = "v | " + " | ".join("macro('m_%s')" % n for n in names) + " | let('t', 'T')"
    tpl = "<macro>\n%s\n</macro>\n<group name='g*'>\nx {{ %s }}\n</group>" % (source(MATCH_KINDS, names), var)
    want, wantlog = [], []
    for v in ("1", "2", "21"):
        r, fields = chain(MATCH_KINDS, names, v, wantlog)
        if r is REJ:
            continue
        rec = {"v": r}
        rec.update(fields)
        if style != "functions":
            rec["t"] = "T"
        want.append(rec)
    got, log = observe(tpl, data)
    judge(case, tpl, data, got, log, {"g": want} if want else {}, wantlog)
    return Outcome(h((got, log)), "F" in names or "F2" in names or "pair" in names, transitions=len(log))


# ---------------------------------------------------------------- group
def group_case(case):
    names, style = case
    kinds = dict(GROUP_KINDS, **GROUP_LAST)
    data = "x 1\n y 5\nx 2\nx 21\n y 6"
    if style == "attr":
        att = 'macro="%s"' % ", ".join("m_" + n for n in names)
    elif style == "one":
        att = "functions=\"%s\"" % " | ".join("macro('m_%s')" % n for n in names)
    elif style == "args":
        att = "functions=\"macro(%s)\"" % ", ".join("'m_%s'" % n for n in names)
    elif style == "mixed":
        att = "functions=\"%s | set('K', 'k')\"" % " | ".join("macro('m_%s')" % n for n in names)
    tpl = "<macro>\n%s\n</macro>\n<group name='g*' %s>\nx {{ a }}\n y {{ b }}\n</group>" % (source(kinds, names), att)
    want, wantlog = [], []
    for rec in ({"a": "1", "b": "5"}, {"a": "2"}, {"a": "21", "b": "6"}):
        r, _ = chain(kinds, names, rec, wantlog)
        if r is REJ:
            continue
        if style == "mixed":
            r = dict(r, k="K")
        want.append(r)
    got, log = observe(tpl, data)
    judge(case, tpl, data, got, log, {"g": want} if want else {}, wantlog)
    return Outcome(h((got, log)), "F" in names or "F2" in names, transitions=len(log))


# ---------------------------------------------------------------- input
def values(text):
    return [{"v": l[2:]} for l in text.splitlines() if l.startswith("x ") and " " not in l[2:]]


def input_case(case):
    names, style, second = case
    data = "x 1\nx 3\n"
    if style == "attr":
        att = 'macro="%s"' % ", ".join("m_" + n for n in names)
    elif style == "args":
        att = "functions=\"macro(%s)\"" % ", ".join("'m_%s'" % n for n in names)
    else:
        att = "functions=\"%s\"" % " | ".join("macro('m_%s')" % n for n in names)
    tpl = "<macro>\n%s\n</macro>\n<input name='one' load='text' %s>\n%s</input>\n" % (source(INPUT_KINDS, names), att, data)
    if second:
        tpl += "<input name='two' load='text'>\nx 1\nx 8\n</input>\n"
    tpl += "<group name='g*'>\nx {{ v }}\n</group>"
    wantlog = []
    text, _ = chain(INPUT_KINDS, names, "\n" + data, wantlog, stop_keeps=True)
    want = [{"g": values(text)}]
    if second:
        want.append({"g": [{"v": "1"}, {"v": "8"}]})
    want = [w if w["g"] else {} for w in want]
    sys._c10_log = []
    got = obs.attempt(obs.run, tpl)
    judge(case, tpl, data, got, sys._c10_log, [want], wantlog)
    return Outcome(h((got, sys._c10_log)), "F" in names or "F2" in names, transitions=len(wantlog))


# ---------------------------------------------------------------- output
def output_case(case):
    chains, style = case
    tpl = "<macro>\n%s\n</macro>\n<group name='g*'>\nx {{ v }}\n</group>\n" % source(OUTPUT_KINDS, [n for c in chains for n in c])
    result = [{"g": [{"v": "1"}, {"v": "2"}]}]
    if style == "group":
        # outputs referenced by the group get the group's results of every input
        tpl = tpl.replace("name='g*'", "name='g*' output='%s'" % ", ".join("o%d" % i for i in range(len(chains))))
        result = result[0]
    wantlog = []
    for i, c in enumerate(chains):
        if len(c) == 1 and style != "functions":
            tpl += "<output name='o%d' macro='m_%s'/>\n" % (i, c[0])
        else:
            tpl += "<output name='o%d' functions=\"%s\"/>\n" % (i, " | ".join("macro('m_%s')" % n for n in c))
        result, _ = chain(OUTPUT_KINDS, c, result, wantlog)
    sys._c10_log = []
    got = obs.attempt(obs.run, tpl, "x 1\nx 2")
    if style == "group":
        result = [[result]]
    judge(case, tpl, "x 1\nx 2", got, sys._c10_log, [result] if style != "group" else [result], wantlog)
    return Outcome(h((got, sys._c10_log)), len(set(wantlog)) > 1, transitions=len(wantlog))


# ---------------------------------------------------------------- visibility
# a tag is a sequence of definitions (name, label); m calls helper when it has one
NAMES = ("p", "q")


def tags_of(width):
    """all tag contents: sequences of at most `width` distinct-name definitions"""
    out = [()]
    for k in range(1, width + 1):
        out += list(itertools.permutations(NAMES, k))
    return out


def template_text(label, tags, place, use):
    t = ""
    defs = {}
    n = 0
    for tag in tags:
        if not tag:
            continue
        src = ""
        for name in tag:
            n += 1
            lab = "%s%d" % (label, n)
            # functions of one tag call each other: p adds the mark of q when q is in the same tag
            other = [x for x in tag if x != name]
            if place == "match":
                body = "'%s.%s'" % ("%s", lab)
                expr = "%r %% (data if isinstance(data, str) else data,)" % ("%s." + lab)
            src += "def %s(data, deep=True):\n" % name
            src += "    mark = %r\n" % lab
            if other:
                src += "    if deep: mark += '[' + %s(None, False) + ']'\n" % other[0]
            src += "    if data is None: return mark\n"
            src += {
                "match": "    return '%s.%s' % (data, mark)\n",
                "group": "    data['mark'] = data.get('mark', '') + mark\n",
                "input": "    return data.rstrip() + '\\nx %s' % mark\n",
                "output": "    return [data, mark]\n",
                "groupout": "    return {'r': data, 'mark': mark}\n",
            }[place]
        marks = {}
        for k, name in enumerate(tag):
            marks[name] = "%s%d" % (label, n - len(tag) + 1 + k)
        for name in tag:
            other = [x for x in tag if x != name]
            defs[name] = marks[name] + ("[%s]" % marks[other[0]] if other else "")
        t += "<macro>\n%s</macro>\n" % src
    g = {"match": "<group name='g*'>\nx {{ v | macro('%s') }}\n</group>",
         "group": "<group name='g*' macro='%s'>\nx {{ v }}\n</group>",
         "input": "<input name='i' load='text' macro='%s'>\nx 1\n</input>\n<group name='g*'>\nx {{ v }}\n</group>",
         "output": "<group name='g*'>\nx {{ v }}\n</group>\n<output macro='%s'/>",
         "groupout": "<group name='g*' output='o'>\nx {{ v }}\n</group>\n<output name='o' macro='%s'/>",
         }[place] % use
    return t + g, defs


def visible(place, mark):
    """results of one template for the text 'x 1' """
    if place == "match":
        return [{"g": [{"v": "1" if mark is None else "1." + mark}]}]
    if place == "group":
        return [{"g": [{"v": "1"} if mark is None else {"v": "1", "mark": mark}]}]
    if place == "input":
        return [{"g": [{"v": "1"}] + ([] if mark is None else [{"v": mark}])}]
    if place == "output":
        r = [{"g": [{"v": "1"}]}]
        return r if mark is None else [r, mark]
    if place == "groupout":
        r = {"g": [{"v": "1"}]}
        return [[r if mark is None else {"r": r, "mark": mark}]]


def visibility_case(case):
    place, first, second, uses, custom, how = case
    custom_mark = {"match": lambda d: "%s.C" % d, "group": lambda d: dict(d, mark=d.get("mark", "") + "C"),
                   "input": lambda d: d + "x C\n", "output": lambda d: [d, "C"], "groupout": lambda d: {"r": d, "mark": "C"}}[place]
    texts, wants = [], []
    for label, tags, use in (("a", first, uses[0]), ("b", second, uses[1])):
        t, defs = template_text(label, tags, place, use)
        texts.append(t)
        mark = defs.get(use)
        if mark is None and custom == use:
            mark = "C"
        wants.append(visible(place, mark))
    p = obs.ttp()
    if custom:
        p.add_function(custom_mark, "macro", name=custom)
    tpl = "\n".join("<template name='%s'>\n%s\n</template>" % (n, t) for n, t in zip("AB", texts))
    try:
        if how == "tags":
            p.add_template(tpl)
        else:
            for n, t in zip("AB", texts):
                p.add_template(t, template_name=n)
        if place != "input":
            p.add_input("x 1", template_name="_all_")
        p.parse(one=True)
        got = p.result()
    except Exception as e:
        got = obs.Raised(e)
    obs.expect(got, wants, tpl, "x 1", "macros defined per template, case %r:" % (case,))
    return Outcome(h((place, got)), wants[0] != wants[1], transitions=2)


# ---------------------------------------------------------------- add_function in every scope
FUN_RET = {
    "T": (lambda d: (d, True), lambda d: ("keep",)),
    "N": (lambda d: (d, None), lambda d: ("keep",)),
    "F": (lambda d: (d, False), lambda d: ("rej",)),
    "R": (None, None),
    "RT": (None, None),
    "RF": (None, None),
}


def fun_step(scope, kind, i, data):
    """reference and implementation at once: (new data, flag)"""
    if kind in ("T", "N", "F"):
        return data, {"T": True, "N": None, "F": False}[kind]
    if kind == "D":
        return data + "d%d" % i, {"new_field": {"n%d" % i: data}}
    new = {"match": lambda: data + "r%d" % i, "group": lambda: dict(data, **{"r%d" % i: len(data)}),
           "input": lambda: data + "x r%d\n" % i, "output": lambda: [data, i]}[scope]()
    return new, {"R": None, "RT": True, "RF": False}[kind]


def function_case(case):
    scope, kinds, arg = case
    p = obs.ttp()
    log, wantlog = [], []
    for i, k in enumerate(kinds):
        def f(data, *args, _i=i, _k=k, **kwargs):
            log.append((_i, args, tuple(sorted(kwargs.items()))))
            r = fun_step(scope, _k, _i, data)
            return r[0] if scope == "output" else r
        p.add_function(f, scope, name="fun%d" % i)
    args = {"none": "", "pos": "'A', 'B'", "kw": "'A', key='K'"}[arg]
    seen = {"none": ((), ()), "pos": (("A", "B"), ()), "kw": (("A",), (("key", "K"),))}[arg]
    calls = " | ".join("fun%d(%s)" % (i, args) for i in range(len(kinds)))
    g = "<group name='g*'>\nx {{ v }}\n</group>"
    rec = [{"v": "1"}, {"v": "2"}]
    text = "x 1\nx 2"

    def walk(data):
        fields = {}
        for i, k in enumerate(kinds):
            wantlog.append((i,) + seen)
            new, flag = fun_step(scope, k, i, data)
            if isinstance(flag, dict):
                fields.update(flag["new_field"])
            if flag is False and scope in ("match", "group"):
                return REJ, fields
            data = new
            if flag is False and scope == "input":
                return data, fields
        return data, fields

    if scope == "match":
        tpl = g.replace("v }}", "v | %s }}" % calls)
        out = []
        for r in rec:
            v, f = walk(r["v"])
            if v is not REJ:
                out.append(dict({"v": v}, **f))
        want = [[{"g": out}] if out else [{}]]
    elif scope == "group":
        tpl = g.replace("'g*'", "'g*' functions=\"%s\"" % calls)
        out = [x for x in (walk(dict(r))[0] for r in rec) if x is not REJ]
        want = [[{"g": out}] if out else [{}]]
    elif scope == "input":
        tpl = "<input name='i' load='text' functions=\"%s\">\nx 1\nx 2\n</input>\n" % calls + g
        out = values(walk("\nx 1\nx 2\n")[0])
        want = [[{"g": out}]]
    else:
        tpl = g + "\n<output functions=\"%s\"/>" % calls
        want = [walk([{"g": rec}])[0]]
    try:
        p.add_template(tpl)
        if scope != "input":
            p.add_input(text)
        p.parse(one=True)
        got = p.result()
    except Exception as e:
        got = obs.Raised(e)
    obs.expect(got, want, tpl, text, "functions %r:" % (case,))
    if log != wantlog:
        raise Violation("functions %r: calls %r, expected %r\n%s" % (case, log, wantlog, tpl), template=tpl)
    return Outcome(h((scope, got, log)), "F" in kinds or "RF" in kinds, transitions=len(log))


def seqs(names, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(names, repeat=n)


def check(check):
    deep = check.tier == "thorough"
    n = 4 if deep else 3
    cases = [(s, "functions") for s in seqs(list(MATCH_KINDS), 1, n)]
    cases += [(s, "let") for s in seqs(list(MATCH_KINDS), 1, 2)]
    check.explore("match-macros", cases, match_case,
                  rule="True/None keep the value, False drops the match and stops the chain, (value, dict) replaces and adds fields, anything else replaces")
    cases = []
    for s in seqs(list(GROUP_KINDS), 1, n):
        for st in ("attr", "one") if len(s) == n else ("attr", "one", "args", "mixed"):
            cases.append((s, st))
    for s in seqs(list(GROUP_KINDS), 0, 2):
        for l in GROUP_LAST:
            cases += [(s + (l,), "attr"), (s + (l,), "one"), (s + (l,), "args")]
    check.explore("group-macros", cases, group_case,
                  rule="True/None keep the record, False rejects it and stops the chain, anything else replaces it")
    cases = [(s, st, two) for s in seqs(list(INPUT_KINDS), 1, n) for st in ("attr", "args", "functions") for two in (False, True)]
    check.explore("input-macros", cases, input_case,
                  rule="True/None keep the text, False stops the functions chain, anything else replaces the text; other inputs unaffected")
    chains = [s for s in seqs(list(OUTPUT_KINDS), 1, 2)]
    cases = [((c,), st) for c in seqs(list(OUTPUT_KINDS), 1, n) for st in ("attr", "functions", "group")]
    cases += [((c, d), st) for c in chains for d in chains for st in ("attr", "group")]
    check.explore("output-macros", cases, output_case,
                  rule="None keeps the results (changes made in place stay), other values replace them; outputs run in order")
    tags = tags_of(2)
    two = [(a, b) for a in tags for b in tags]
    cases = []
    for place in ("match", "group", "input", "output", "groupout"):
        for first in two:
            for second in ([(a, ()) for a in tags] if not deep else two):
                for uses in itertools.product(NAMES, repeat=2):
                    for custom in (None, "p"):
                        for how in ("tags", "separate"):
                            cases.append((place, first, second, uses, custom, how))
    if not deep:
        cases = [c for c in cases if c[3][0] == "p" or c[5] == "tags"]
    check.explore("visibility", cases, visibility_case,
                  rule="a macro name resolves to the last definition in its own template, else to a function added to the parser, else to nothing")
    cases = []
    for scope, kinds in (("match", ("T", "N", "F", "R", "RT", "RF", "D")), ("group", ("T", "N", "F", "R", "RT", "RF")),
                         ("input", ("T", "N", "F", "R", "RT", "RF")), ("output", ("N", "R"))):
        for s in seqs(kinds, 1, n):
            for arg in ("none", "pos", "kw"):
                cases.append((scope, s, arg))
    check.explore("added-functions", cases, function_case,
                  rule="functions added for a scope get the data and their arguments; the second item of the result decides")
