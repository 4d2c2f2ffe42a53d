"""C34: functions added with add_function. Every sequence of functions of every return
form, under new names and names of built-in functions, in every scope, notation and
place, on recorded calls and results, against a fold of what the functions return; and
every short history of additions, templates and parsers."""
import copy
import itertools

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of sequences of added functions x return forms x names x notations x places, and of histories of additions, recorded calls and results against a fold"
ASSUMPTIONS = [
    "functions are added before the template that uses them is loaded, as documented",
    "names that are resolved when the template is loaded (joinmatches, default, ignore, re, chain, line indicators; group attributes; set, default of a line) are not replaced",
    "an input function does not return False as second item (documented for macros only)",
]

LOG = []


def spy(scope, name, form, table):
    def f(data, *args, **kwargs):
        LOG.append((scope, name, copy.deepcopy(data), args, copy.deepcopy(kwargs)))
        return table[form](data)
    f.__name__ = "spied"
    return f


# ---------------------------------------------------------------- match
MATCH = {
    "rep": lambda d: ("%s!" % (d,), None),
    "true": lambda d: ("<%s" % (d,), True),
    "keep": lambda d: (d, None),
    "falsy": lambda d: ("", True),
    "rej": lambda d: ("%s-" % (d,), False),
    "rej2": lambda d: (d, "2" not in str(d)),
    "fields": lambda d: (d, {"x": "x%s" % (d,), "y": 1}),
    "fields2": lambda d: ("%s~" % (d,), {"z": [d], "x": "again"}),
    "none": lambda d: (d, {}),
}
# new names and names of functions that other functions share a file with, of methods, of variables
MNAMES = ["mine", "contains", "upper", "to_int", "record", "macro", "f1"]
ARGS = ["", "'a', 1", "b, k='(x, y)', n=None"]
ARGV = [((), {}), (("a", 1), {}), (("b",), {"k": "(x, y)", "n": None})]
PLACES = {
    "line": "<group name='g*'>\nrec {{ n }}\n v {{ v%s }}\n w {{ w }}\n</group>",
    "start": "<group name='g*'>\nrec {{ v%s }}\n w {{ w }}\n</group>",
    "two": "<group name='g*'>\nrec {{ n }}\n p {{ v%s }} {{ w%s }}\n</group>",
    "free": "<group name='g*'>\nrec {{ n }}\n{{ v | _line_%s }}\n</group>",
}
MTEXT = {
    "line": "rec 1\n v 1\n w 1\nrec 2\n v 2\n w 2\nrec 3\n w 3",
    "start": "rec 1\n w 1\nrec 2\n w 2\nrec 3\n w 3",
    "two": "rec 1\n p 1 5\nrec 2\n p 2 6\nrec 3\n p 3 2",
    "free": "rec 1\none\nrec 2\n2 more\nrec 3",
}
BUILTIN = {"replaceall": ("'9', '!'", lambda d: (str(d).replace("!", "9"), None)), "equal": ("'1!'", lambda d: (d, d == "1!"))}


def match_cases(full=False):
    for k in range(1, 4):
        for i, seq in enumerate(itertools.product(list(MATCH) + list(BUILTIN), repeat=k)):
            if all(s in BUILTIN for s in seq):
                continue
            for j, (place, form) in enumerate(itertools.product(PLACES, ("inline", "chain", "list"))):
                # the third step: places and notations in turn
                if full or k < 3 or (i + j) % 12 == 0:
                    yield seq, place, form, i % len(MNAMES)


def run_match(steps, value):
    """value and fields of a match, None when rejected; calls made"""
    d, fields, calls = value, {}, []
    for name, form, a in steps:
        if form in BUILTIN:
            d, flag = BUILTIN[form][1](d)
        else:
            calls.append(("match", name, d) + ARGV[a])
            d, flag = MATCH[form](d)
        if flag is False:
            return None, calls
        if isinstance(flag, dict):
            fields.update(flag)
    return (d, fields), calls


def match_fn(case):
    seq, place, form, shift = case
    steps, used = [], {}
    for i, s in enumerate(seq):
        # the same form twice is the same function
        name = s if s in BUILTIN else used.setdefault(s, MNAMES[(shift + len(used)) % len(MNAMES)])
        steps.append((name, s, i % 3))
    call = ["%s(%s)" % (n, BUILTIN[f][0] if f in BUILTIN else ARGS[a]) if f in BUILTIN or ARGS[a] or i % 2 else n for i, (n, f, a) in enumerate(steps)]
    head = {"inline": "", "chain": "<vars>\nch = %r\n</vars>\n" % " | ".join(call), "list": "<vars>\nch = %r\n</vars>\n" % (call,)}[form]
    text = "".join(" | " + c for c in call) if form == "inline" else " | chain('ch')"
    tpl = head + PLACES[place].replace("%s", text)
    p = obs.ttp()
    for f, name in used.items():
        p.add_function(spy("match", name, f, MATCH), scope="match", name=name)
    p.add_template(tpl)
    del LOG[:]
    p.add_input(MTEXT[place])
    p.parse(one=True)
    got, log = p.result(), list(LOG)
    # the model
    recs, calls, open_ = [], [], None
    for line in MTEXT[place].split("\n"):
        words = line.split()
        key = words[0]
        if place == "free" and key != "rec":
            r, c = run_match(steps, line)
            calls += c
            if r and open_ is not None:
                open_.update({"v": r[0]})
                open_.update(r[1])
        elif key == "rec":
            open_ = None
            if place == "free":
                # tried on lines of other patterns too, to no effect
                calls += run_match(steps, line)[1]
            if place == "start":
                r, c = run_match(steps, words[1])
                calls += c
                if r is None:
                    continue
                open_ = dict({"v": r[0]}, **r[1])
            else:
                open_ = {"n": words[1]}
            recs.append(open_)
        elif key == "w":
            if open_ is not None:
                open_["w"] = words[1]
        elif key == "v":
            r, c = run_match(steps, words[1])
            calls += c
            if r:
                open_.update({"v": r[0]})
                open_.update(r[1])
        elif key == "p":
            r, c = run_match(steps, words[1])
            calls += c
            if r is None:
                continue
            s, c = run_match(steps, words[2])
            calls += c
            if s is None:
                continue
            new = dict({"v": r[0]}, **r[1])
            new["w"] = s[0]
            new.update(s[1])
            open_.update(new)
    recs = [r for r in recs if r]
    want = [[{"g": recs} if recs else {}]]
    obs.expect(got, want, tpl, MTEXT[place], "functions %r:" % (used,))
    # lines of one pattern are matched together: calls are compared in the order of the values
    sig = lambda x: sorted(map(repr, x))
    if sig(log) != sig(calls) or (place != "free" and [c[1] for c in log if c[0] == "match"] != [c[1] for c in calls]):
        raise Violation("functions %r are called %r, not %r" % (used, log, calls), template=tpl)
    return Outcome(h((case, got)), bool(calls), states=[h(r) for r in recs], transitions=len(calls))


# ---------------------------------------------------------------- group
def mutate(d):
    d["mut"] = "%s" % len(d)
    return d, True


GROUP = {
    "rep": lambda d: (dict(d, r="+".join(sorted(d))), None),
    "new": lambda d: ({"only": d.get("n"), "v": "7"}, True),
    "mut": mutate,
    "keep": lambda d: (d, None),
    "rej": lambda d: (dict(d, q=1), False),
    "rej2": lambda d: (d, d.get("v") != "2"),
}
GBUILT = {"set": ("'lit', 'st'", lambda d: (dict(d, st="lit"), None)), "contains": ("'v'", lambda d: (d, "v" in d))}
GNAMES = ["mine", "exclude", "containsall", "void", "sformat", "del", "to_int", "expand"]
GPLACES = {
    "top": '<group name="g*"%s>\nrec {{ n }}\n v {{ v }}\n</group>',
    "anonymous": '<group%s>\nrec {{ n }}\n v {{ v }}\n</group>',
    "nested": '<group name="p">\npar {{ p }}\n<group name="g*"%s>\nrec {{ n }}\n v {{ v }}\n</group>\n</group>',
    "around": '<group name="g*"%s>\nrec {{ n }}\n<group name="k*">\nkid {{ k }}\n</group>\n v {{ v }}\n</group>',
}
GTEXT = "par 1\nrec 1\n v 1\nrec 2\n v 2\nrec 3\nrec 4\n v 4\n"


def group_cases(full=False):
    for k in range(1, 4):
        for i, seq in enumerate(itertools.product(list(GROUP) + list(GBUILT), repeat=k)):
            if all(s in GBUILT for s in seq):
                continue
            for j, (place, form) in enumerate(itertools.product(GPLACES, ("attributes", "functions", "chain", "list"))):
                if form == "attributes" and len(set(seq)) < k:
                    continue
                if full or k < 3 or (i + j) % 4 == 0:
                    yield seq, place, form, i % len(GNAMES)


def group_fn(case):
    seq, place, form, shift = case
    used, steps = {}, []
    for i, s in enumerate(seq):
        name = s if s in GBUILT else used.setdefault(s, GNAMES[(shift + len(used)) % len(GNAMES)])
        steps.append((name, s, i % 3))
    args = [GBUILT[s][0] if s in GBUILT else ARGS[a] for n, s, a in steps]
    call = ["%s(%s)" % (n, a) for (n, _, _), a in zip(steps, args)]
    head = ""
    if form == "attributes":
        text = "".join(' %s="%s"' % (n, a) for (n, _, _), a in zip(steps, args))
    elif form == "functions":
        text = ' functions="%s"' % " | ".join(call)
    else:
        head = "<vars>\nch = %r\n</vars>\n" % (call if form == "list" else " | ".join(call),)
        text = ' chain="ch"'
    tpl = head + GPLACES[place] % text
    p = obs.ttp()
    for f, name in used.items():
        p.add_function(spy("group", name, f, GROUP), scope="group", name=name)
    p.add_template(tpl)
    data = GTEXT.replace("rec 1\n", "rec 1\nkid 1\n").replace("rec 4\n", "rec 4\nkid 4\n") if place == "around" else GTEXT
    del LOG[:]
    p.add_input(data)
    p.parse(one=True)
    got, log = p.result(), list(LOG)
    recs, calls = [], []
    for r in ({"n": "1", "v": "1"}, {"n": "2", "v": "2"}, {"n": "3"}, {"n": "4", "v": "4"}):
        d = dict(r)
        for name, s, a in steps:
            if s in GBUILT:
                d, flag = GBUILT[s][1](d)
            else:
                calls.append(("group", name, copy.deepcopy(d)) + ARGV[a])
                d, flag = GROUP[s](d)
            if flag is False:
                break
        else:
            recs.append(d)
    if place == "around":
        g = got[0][0].get("g", [])
        for x in g:
            x.pop("k", None)
        got = [[{"g": [x for x in g if x]} if [x for x in g if x] else {}]]
    want = {"top": [[{"g": recs} if recs else {}]], "around": [[{"g": recs} if recs else {}]], "anonymous": [[recs if recs else {}]], "nested": [[{"p": dict({"p": "1"}, **({"g": recs} if recs else {}))}]]}[place]
    if place == "anonymous" and not recs:
        got = [[got[0][0] or {}]]
    obs.expect(got, want, tpl, data, "functions %r:" % (used,))
    if log != calls:
        raise Violation("functions %r are called %r, not %r" % (used, log, calls), template=tpl, data=data)
    return Outcome(h((case, got)), True, states=[h(r) for r in recs], transitions=len(calls))


# ---------------------------------------------------------------- input
INPUT = {
    "add": lambda d: (d + "\nrec 8\n", None),
    "cut": lambda d: (d.replace("rec 1", "xxx"), True),
    "keep": lambda d: (d, None),
    "empty": lambda d: ("", None),
    "all": lambda d: (d.replace("rec 8", "rec 9"), True),
}
INAMES = ["mine", "test", "macro", "extract_commands"]


def input_cases():
    for k in range(1, 4):
        for i, seq in enumerate(itertools.product(INPUT, repeat=k)):
            for form in ("attributes", "functions"):
                if form == "attributes" and len(set(seq)) < k:
                    continue
                for texts in (("rec 1\nrec 2",), ("rec 1\n", "zz", "rec 1\nrec 3\n")):
                    yield seq, form, texts, i % 4


def input_fn(case):
    seq, form, texts, shift = case
    used, steps = {}, []
    for i, s in enumerate(seq):
        name = used.setdefault(s, INAMES[(shift + len(used)) % 4] if len(used) < 4 else "more")
        steps.append((name, s, i % 3))
    # extract_commands written as an attribute has a meaning of its own: words
    if form == "attributes" and "extract_commands" in used.values():
        steps = [(n, s, 0) if n == "extract_commands" else (n, s, a) for n, s, a in steps]
        if steps and any(n == "extract_commands" for n, _, _ in steps):
            return None
    text = "".join(' %s="%s"' % (n, ARGS[a]) for n, _, a in steps) if form == "attributes" else ' functions="%s"' % " | ".join("%s(%s)" % (n, ARGS[a]) for n, _, a in steps)
    tpl = '<input name="i"%s/>\n<group name="g*">\nrec {{ n }}\n</group>' % text
    p = obs.ttp()
    for f, name in used.items():
        p.add_function(spy("input", name, f, INPUT), scope="input", name=name)
    p.add_template(tpl)
    for t in texts:
        p.add_input(t, input_name="i")
    del LOG[:]
    p.parse(one=True)
    got = p.result()
    log = [c[:2] + (c[2].strip("\n"),) + c[3:] for c in LOG]
    want, calls = [], []
    for t in texts:
        d = "\n" + t + "\n\n"
        for name, s, a in steps:
            calls.append(("input", name, d.strip("\n")) + ARGV[a])
            d, flag = INPUT[s](d)
        recs = [{"n": l.split()[1]} for l in d.split("\n") if l.startswith("rec ")]
        want.append({"g": recs} if recs else {})
    obs.expect(got, [want], tpl, texts, "functions %r:" % (used,))
    if log != calls:
        raise Violation("functions %r are called %r, not %r" % (used, log, calls), template=tpl)
    return Outcome(h((case, got)), True, states=[h(w) for w in want], transitions=len(calls))


# ---------------------------------------------------------------- outputs, formatters, returners
OUT = {
    "rep": lambda d: [d, "r"],
    "wrap": lambda d: {"w": d},
    "keep": lambda d: d,
    "falsy": lambda d: [],
    "none": lambda d: None,
}
ONAMES = ["mine", "traverse", "dict_to_list", "is_equal"]
FORMATS = {None: lambda d: d, "raw": lambda d: d, "mine": lambda d: "F%r" % (d,), "json": lambda d: {"own": d}, "csv": lambda d: None}


def output_cases(full=False):
    for k in range(0, 4):
        for i, seq in enumerate(itertools.product(OUT, repeat=k)):
            for fmt in FORMATS:
                for ret in ("self", "mine", "self, mine", "mine, file", "terminal"):
                    for where in ("tag", "attributes", "result"):
                        if where == "attributes" and len(set(seq)) < k or not full and k == 3 and (i + len(str(fmt)) + len(ret)) % 7:
                            continue
                        if where == "result" and ret != "self":
                            continue
                        yield seq, fmt, ret, where, i % 4


def output_fn(case):
    seq, fmt, ret, where, shift = case
    used, steps = {}, []
    for i, s in enumerate(seq):
        name = used.setdefault(s, ONAMES[(shift + len(used)) % 4] if len(used) < 4 else "more")
        steps.append((name, s, i % 3))
    p = obs.ttp()
    for f, name in used.items():
        p.add_function(spy("output", name, f, OUT), scope="output", name=name)
    if fmt not in (None, "raw"):
        p.add_function(spy("formatters", fmt, fmt, FORMATS), scope="formatters", name=fmt)
    for r in ("mine", "file", "terminal"):
        p.add_function(spy("returners", r, 0, {0: lambda d: "not used"}), scope="returners", name=r)
    attrs = {"one": "1", "Two": "b c"}
    call = " | ".join("%s(%s)" % (n, ARGS[a]) for n, _, a in steps)
    group = '<group name="g*">\nrec {{ n }}\n</group>\n'
    if where == "result":
        tpl = group
    else:
        fs = (' functions="%s"' % call if call else "") if where == "tag" else "".join(' %s="%s"' % (n, ARGS[a]) for n, _, a in steps)
        tpl = group + '<output%s%s returner="%s"%s/>' % (fs, ' format="%s"' % fmt if fmt else "", ret, "".join(' %s="%s"' % i for i in attrs.items()))
    p.add_template(tpl)
    p.add_input("rec 1\nrec 2")
    p.add_input("rec 3")
    base = [{"g": [{"n": "1"}, {"n": "2"}]}, {"g": [{"n": "3"}]}]
    del LOG[:]
    p.parse(one=True)
    if where == "result":
        kw = dict(attrs)
        if fmt:
            kw["format"] = fmt
        if call:
            kw["functions"] = call
        got = p.result(**kw)[0]
        plain = p.result()[0]
        obs.expect(plain, base, tpl, None, "results asked for after result(%r):" % (kw,))
    else:
        got = p.result()[0]
    log = list(LOG)
    d, calls = copy.deepcopy(base), []
    for name, s, a in steps:
        calls.append(("output", name, copy.deepcopy(d)) + ARGV[a])
        d = OUT[s](d)
    if fmt not in (None, "raw"):
        calls.append(("formatters", fmt, copy.deepcopy(d), (), attrs))
        d = FORMATS[fmt](d)
    rets = [r.strip() for r in ret.split(",")]
    for r in rets:
        if r != "self":
            calls.append(("returners", r, copy.deepcopy(d), (), attrs))
    want = d if "self" in rets else base
    note = "functions %r, format %r, returners %r:" % (used, fmt, ret)
    obs.expect(got, want, tpl, None, note)
    # tag attributes are among the keyword arguments
    seen = [c if c[0] == "output" else c[:4] + ({k: v for k, v in c[4].items() if k in attrs},) for c in log]
    if seen != calls:
        raise Violation(note + " called %r, not %r" % (seen, calls), template=tpl)
    return Outcome(h((case, got)), bool(calls), states=[h(c[2]) for c in calls], transitions=len(calls))


# ---------------------------------------------------------------- template variables and macros
VARS = {"size": lambda d: len(d.strip("\n")), "name": lambda d: "N", "none": lambda d: None, "empty": lambda d: "", "list": lambda d: [d.strip("\n")[:3]]}
VNAMES = ["mine", "gethostname", "get_date", "get_time"]


def var_cases():
    for k in (1, 2, 3):
        for i, seq in enumerate(itertools.permutations(VARS, k)):
            for texts in (("rec 1",), ("rec 1\nrec 2", "rec 33"), ("rec 1", "zz", "rec 1\nrec 2")):
                for load in ("python", "yaml", "init"):
                    yield seq, texts, load, i % 4


def var_fn(case):
    seq, texts, load, shift = case
    used = {s: VNAMES[(shift + i) % 4] for i, s in enumerate(seq)}
    p = obs.ttp(vars={"v_%s" % s: n for s, n in used.items()}) if load == "init" else obs.ttp()
    for f, name in used.items():
        p.add_function(spy("variable", name, f, VARS), scope="variable", name=name)
    tag = {"python": "<vars name='vs'>\n%s\n</vars>\n" % "\n".join("v_%s = %r" % i for i in used.items()),
           "yaml": "<vars name='vs' load='yaml'>\n%s\n</vars>\n" % "\n".join("v_%s: %s" % i for i in used.items()), "init": ""}[load]
    tpl = tag + "<group name='g*'>\nrec {{ n }}\n%s</group>" % "".join("{{ s_%s | set('v_%s') }}\n" % (s, s) for s in seq)
    p.add_template(tpl)
    for t in texts:
        p.add_input(t)
    del LOG[:]
    p.parse(one=True)
    got = p.result()
    want, calls = [], []
    for t in texts:
        vals = {s: VARS[s](t) for s in seq}
        calls += sorted(("variable", n, t) for n in used.values())
        recs = []
        for l in t.split("\n"):
            if l.startswith("rec"):
                recs.append(dict({"n": l.split()[1]}, **{"s_%s" % s: vals[s] if vals[s] else "v_%s" % s for s in seq}))
        w = {"g": recs} if recs else {}
        if load != "init" and recs:
            w["vs"] = {"v_%s" % s: v for s, v in vals.items() if v}
        want.append(w)
    obs.expect(got, [want], tpl, texts, "getters %r:" % (used,))
    seen, n = [], len(seq)
    for i in range(0, len(LOG), n):
        seen += sorted((c[0], c[1], c[2].strip("\n")) for c in LOG[i:i + n])
    if seen != calls or any(len(c[3]) != 1 or c[3][0] != "text_data" or c[4] for c in LOG):
        raise Violation("getters %r are called %r, not %r with the name of the data" % (used, LOG, calls), template=tpl)
    return Outcome(h((case, got)), True, states=[h(w) for w in want], transitions=len(calls))


# ---------------------------------------------------------------- histories
def tagged(scope, mark):
    return {
        "match": lambda d, *a, **k: ("%s%s" % (d, mark), None),
        "group": lambda d, *a, **k: (dict(d, grp=d.get("grp", "") + mark), None),
        "input": lambda d, *a, **k: (d.replace("rec 5", "rec 5%s" % mark), None),
        "output": lambda d, *a, **k: d + [mark],
        "macro": lambda d: "%s%s" % (d, mark.lower()),
    }[scope]


# a name of built-in functions of three scopes, and one of none
USE = '<input macro="keep"/>\n<group name="g*" macro="keep" mine="">\nrec {{ n | mine | macro("keep") | macro("mac") }}\n</group>\n<output functions="mine | macro(\'keep\')"/>\n<macro>\ndef keep(data):\n    return None\n</macro>'
ADDS = [(s, n, m) for s in ("match", "group", "output", "input") for n in ("mine", "macro") for m in "AB"]
ADDS = [a for a in ADDS if a[:2] != ("input", "mine")]
# a macro, and one the template has of its own
ADDS += [("macro", n, m) for n in ("mac", "keep") for m in "AB"]


def history_cases(k=3):
    for n in range(0, k + 1):
        for hist in itertools.product(ADDS, repeat=n):
            yield hist


def history_model(hist):
    """last addition of each name and scope counts"""
    last = {}
    for s, n, m in hist:
        last[s, n] = m
    rec = "5" + last.get(("input", "macro"), "")
    val = rec + last.get(("match", "mine"), "") + (last[("match", "macro")] * 2 if ("match", "macro") in last else last.get(("macro", "mac"), "").lower())
    r = {"n": val}
    grp = last.get(("group", "macro"), "") + last.get(("group", "mine"), "")
    if grp:
        r["grp"] = grp
    return [{"g": [r]}] + [m for m in (last.get(("output", "mine"), ""), last.get(("output", "macro"), "")) if m]


def history_fn(hist):
    others = [obs.ttp()]
    keep = {"match": lambda d: (d, None), "group": lambda d: (d, None), "output": lambda d: d}

    def fill(p):
        for s in keep:
            p.add_function(lambda d, s=s: keep[s](d), scope=s, name="mine")

    fill(others[0])
    p = obs.ttp()
    fill(p)
    for s, n, m in hist:
        p.add_function(tagged(s, m), scope=s, name=n)
    others.append(obs.ttp())
    fill(others[1])
    for q in others + [p]:
        q.add_template(USE)
        q.add_input("rec 5")
    want = history_model(hist)
    order = [others[0], p, others[1]] if len(hist) % 2 else [p, others[0], others[1]]
    for q in order:
        q.parse(one=True)
    obs.expect(p.result(), [want], USE, "rec 5", "added %r:" % (hist,))
    for q in others:
        obs.expect(q.result(), [[{"g": [{"n": "5"}]}]], USE, "rec 5", "other parser, %r added to this one:" % (hist,))
    # a template loaded later, an added function replaced in between
    for s, n, m in hist[:1]:
        p.add_function(tagged(s, "C"), scope=s, name=n)
        p.add_template(USE, template_name="second")
        p.add_input("rec 5", template_name="second")
        p.clear_input("_root_template_")
        p.parse(one=True)
        obs.expect(p.result(templates="second"), [history_model(hist + ((s, n, "C"),))], USE, "rec 5", "second template, added %r then C:" % (hist,))
    return Outcome(h((hist, want)), bool(hist), states=[h(want)], transitions=len(hist) + 3)


def check(ck):
    ck.explore("match functions", lambda: match_cases(True), match_fn, rule="all sequences of up to 3 functions over %d return forms and %d built-in functions x 4 places x 3 notations x names" % (len(MATCH), len(BUILTIN)))
    ck.explore("group functions", lambda: group_cases(True), group_fn, rule="all sequences of up to 3 functions over %d return forms and %d built-in ones x 4 places x 4 notations" % (len(GROUP), len(GBUILT)))
    ck.explore("input functions", input_cases, input_fn, rule="all sequences of up to 3 functions over %d return forms x notations x inputs" % len(INPUT))
    ck.explore("outputs", lambda: output_cases(True), output_fn, rule="all sequences of up to 3 output functions x own and built-in formatters x returners x places")
    ck.explore("variables", var_cases, var_fn, rule="all arrangements of up to 3 getters of 5 return forms x inputs x loaders")
    ck.explore("histories", lambda: history_cases(4 if ck.thorough else 3), history_fn, rule="all sequences of up to %d additions over scopes and names, built-in names included, beside two other parsers, with a second template" % (4 if ck.thorough else 3))
