"""C11: lookups against an independent reference, over enumerated tables, paths,
loaders, values, sources and directives."""
import copy
import ipaddress
import itertools
import json
import os
import shutil
import sys
import tempfile
from types import SimpleNamespace

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of tables x paths x values x directives x table sources on the real parser against reference lookup functions"
ASSUMPTIONS = [
    "group lookup with update=True of a value that is not a dictionary is not claimed",
    "a table of group results that the looking-up group itself produces is not claimed",
    "geoip2 (not installed) is stood in for by a module with the same reader interface",
    "glob patterns are given as lists of strings",
]
DEEP = "thorough" in sys.argv
NONE = object()


def words(alphabet, n):
    return ["".join(x) for k in range(1, n + 1) for x in itertools.product(alphabet, repeat=k)]


VALUES = words("ab1", 3) + ["A", "aB", "a.b", "x", "[a]", "*", "a*"]
MISSING = "(missing)"


# ------------------------------------------------------------ reference
def walk(table, path):
    for p in path:
        if not isinstance(table, dict) or p not in table:
            return None
        table = table[p]
    return table if isinstance(table, dict) else None


def ref_lookup(table, value):
    if table is None:
        return NONE
    for k, v in table.items():
        if type(k) is type(value) and k == value:
            return v
    return NONE


def ref_rlookup(table, value):
    for k, v in (table or {}).items():
        if isinstance(k, str) and k in value:
            return v
    return NONE


def glob(p, s):
    """unix glob: * ? [set] [!set]"""
    if not p:
        return not s
    if p[0] == "*":
        return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    if not s:
        return False
    if p[0] == "?":
        return glob(p[1:], s[1:])
    if p[0] == "[" and "]" in p:
        e = p.index("]")
        body = p[1:e]
        neg = body.startswith("!")
        body = body.lstrip("!")
        return (s[0] in body) != neg and glob(p[e + 1:], s[1:])
    return p[0] == s[0] and glob(p[1:], s[1:])


def ref_gpv(table, value, multi):
    out = []
    for k, pats in (table or {}).items():
        if any(glob(p, value) for p in pats):
            out.append(k)
            if not multi:
                break
    return out or NONE


def place(value, found, add):
    """record produced for a matched value"""
    if found is NONE:
        return {"v": value}
    if add:
        return {"v": value, add: found}
    return {"v": found}


# ------------------------------------------------------------ table sources
def source(table, how, name="t"):
    """(template text, function applied to the parser, directory)"""
    if how == "python":
        return "<lookup name='%s' load='python'>\n%r\n</lookup>\n" % (name, table), None
    if how == "json":
        return "<lookup name='%s' load='json'>\n%s\n</lookup>\n" % (name, json.dumps(table)), None
    if how == "yaml":
        import yaml
        return "<lookup name='%s' load='yaml'>\n%s</lookup>\n" % (name, yaml.safe_dump(table, sort_keys=False)), None
    if how == "add":
        return "", lambda p: p.add_lookup(name, text_data=repr(table), load="python")
    if how == "add-json":
        return "", lambda p: p.add_lookup(name, text_data=json.dumps(table), load="json")
    raise ValueError(how)


def parse(tpl, adder, texts):
    try:
        p = obs.ttp(template=tpl)
        if adder:
            adder(p)
        for t in texts:
            p.add_input(t)
        p.parse(one=True)
        first = copy.deepcopy(p.result())
        p.clear_result()
        p.parse(one=True)
        return first, p.result()
    except Exception as e:
        return obs.Raised(e), None


def decide(case, tpl, texts, adder, want):
    got, again = parse(tpl, adder, texts)
    obs.expect(got, want, tpl, texts, "case %r:" % (case,))
    # the table is the same for the second parse of the same parser
    obs.expect(again, want, tpl, texts, "second parse, case %r:" % (case,))
    return got


def lines(values):
    return "\n".join("x " + v for v in values)


# ------------------------------------------------------------ match lookup and rlookup
VALS = ["s", {"k": "y", "l": [1]}, ["p", "q"], 0, None, "", False]
SHAPES = {
    "t": lambda d: d,
    "t.n": lambda d: {"n": d},
    "t.n.m": lambda d: {"a": "no", "n": {"m": d, "b": {}}},
}


def tables():
    keys = ["a", "b", "ab", "1", "ba"]
    for n in range(0, 3):
        for ks in itertools.permutations(keys, n):
            yield {k: VALS[i % 2] if i else "s0" for i, k in enumerate(ks)}
    for n in (3,) if DEEP else ():
        for ks in itertools.permutations(keys, n):
            yield {k: "s%d" % i for i, k in enumerate(ks)}
    for v in VALS:
        yield {"a": v}
        yield {"b": "z", "a": v}
    yield {"a.b": "dot", "a": {"b": "in"}}
    yield {"*": "star", "[a]": "br", "A": "up"}
    yield {1: "int", "a": "s"}
    yield {"a": {"a": {"a": "deep"}}}
    yield {True: "t", None: "n", 1.5: "f", "b": "s"}


def match_cases():
    for ti, t in enumerate(tables()):
        for path in list(SHAPES) + ["t.z", "z", "t.n.m.z", "t.a"]:
            for fn in ("lookup", "rlookup"):
                for add in (None, "f"):
                    yield (t, path, fn, add)


def match_fn(case):
    t, path, fn, add = case
    shape = SHAPES.get(path, SHAPES["t.n.m"] if path.count(".") > 1 else SHAPES["t"])
    full = {"t": shape(t)}
    text, adder = source(full["t"], "python")
    tpl = text + "<group name='g*'>\nx {{ v | %s('%s'%s) }}\n</group>" % (fn, path, ", add_field='f'" if add else "")
    table = walk(full, path.split("."))
    want = []
    for v in VALUES:
        f = ref_lookup(table, v) if fn == "lookup" else ref_rlookup(table, v)
        if fn == "rlookup" and f is None:
            f = NONE
        want.append(place(v, f, add))
    decide(case, tpl, [lines(VALUES)], adder, [[{"g": want}]])
    hits = sum(1 for v, w in zip(VALUES, want) if w != {"v": v})
    return Outcome(h(want), hits, transitions=2 * len(VALUES), count=len(VALUES))


# ------------------------------------------------------------ gpvlookup
PATTERNS = ["a", "a*", "*b", "?", "??", "[ab]1", "*", "[!a]*", "A*", "*1*", "a?b"]


def gpv_tables():
    for p in PATTERNS:
        yield {"k": [p]}
        for q in PATTERNS:
            yield {"k": [p, q]}
            yield {"k": [p], "l": [q]}
            yield {"k": ["zz", p], "l": [], "m": [q, p]}
    if DEEP:
        for p, q, r in itertools.product(PATTERNS, repeat=3):
            yield {"k": [p], "l": [q], "m": [r]}
            yield {"k": [p, q], "m": [r, p]}


def gpv_cases():
    for t in gpv_tables():
        for path in ("t", "t.n"):
            for add in (None, "f"):
                for multi in (False, True):
                    yield (t, path, add, multi)


def gpv_fn(case):
    t, path, add, multi = case
    text, adder = source(SHAPES[path](t), "python")
    tpl = text + "<group name='g*'>\nx {{ v | gpvlookup('%s'%s%s) }}\n</group>" % (
        path, ", add_field='f'" if add else "", ", multimatch=True" if multi else "")
    want = [place(v, ref_gpv(t, v, multi), add) for v in VALUES]
    decide(case, tpl, [lines(VALUES)], adder, [[{"g": want}]])
    return Outcome(h(want), any(w != {"v": v} for v, w in zip(VALUES, want)), transitions=2 * len(VALUES), count=len(VALUES))


def record_fn(case):
    """what was found is recorded for use by other variables, also in later inputs"""
    t, v, multi, add = case
    text, adder = source(t, "python")
    tpl = text + "<group name='g*'>\nx {{ v | gpvlookup('t', record='R'%s%s) }}\n{{ r | set('R') }}\n</group>" % (
        ", add_field='f'" if add else "", ", multimatch=True" if multi else "")
    found = ref_gpv(t, v, multi)
    rec = dict(place(v, found, add), r=[] if found is NONE else found)
    decide(case, tpl, ["x %s\ny 1" % v], adder, [[{"g": [rec]}]])
    return Outcome(h(rec), found is not NONE, transitions=2)


# ------------------------------------------------------------ loaders and sources
def source_cases():
    plain = [{"a": {"k": "1", "l": "2"}, "b": {"k": "3", "l": "4"}}, {"b": {"k": "", "l": "x y"}}, {"ab": {"k": "q", "l": "r"}, "a": {"k": "s", "l": "t"}, "1": {"k": "u", "l": "v"}}]
    for t in plain:
        for how in ("python", "python-names", "json", "yaml", "csv", "csv-key", "ini", "add", "add-json", "add-csv", "add-ini", "include", "include-csv", "add-include", "add-over"):
            for fn in ("lookup", "rlookup", "group"):
                for add in (None, "f"):
                    yield (t, how, fn, add)


def source_fn(case):
    t, how, fn, add = case
    rows = list(t.items())
    csv = "id,k,l\n" + "\n".join("%s,%s,%s" % (k, d["k"], d["l"]) for k, d in rows)
    csv2 = "k,id,l\n" + "\n".join("%s,%s,%s" % (d["k"], k, d["l"]) for k, d in rows)
    ini = "\n".join("[%s]\nk = %s\nl : %s" % (k, d["k"], d["l"]) for k, d in rows)
    d = tempfile.mkdtemp(prefix="c11")
    try:
        adder = None
        if how in ("python", "json", "yaml", "add", "add-json"):
            text, adder = source(t, how)
        elif how == "python-names":
            t = {k: v for k, v in t.items() if k.isidentifier()}
            text = "<lookup name='t' load='python'>\n%s\n</lookup>\n" % "\n".join("%s = %r" % kv for kv in t.items())
        elif how in ("csv", "csv-key"):
            text = "<lookup name='t' load='csv'%s>\n%s\n</lookup>\n" % (" key='id'" if how == "csv-key" else "", csv if how == "csv" else csv2)
        elif how == "ini":
            text = "<lookup name='t' load='ini'>\n%s\n</lookup>\n" % ini
        elif how == "add-csv":
            text, adder = "", lambda p: p.add_lookup("t", text_data=csv2, load="csv", key="id")
        elif how == "add-ini":
            text, adder = "", lambda p: p.add_lookup("t", text_data=ini, load="ini")
        elif how == "add-over":
            text, adder = "<lookup name='t'>\n{'a': 'old', 'x': 'old'}\n</lookup>\n", lambda p: p.add_lookup("t", text_data=repr(t))
        else:
            f = os.path.join(d, "table.txt")
            with open(f, "w") as fo:
                fo.write(csv if how == "include-csv" else json.dumps(t))
            load = "csv" if how == "include-csv" else "json"
            text = "<lookup name='t' load='%s' include='%s'/>\n" % (load, f)
            if how == "add-include":
                text, adder = "", lambda p: p.add_lookup("t", include=f, load="json")
        if fn == "group":
            tpl = text + "<group name='g*' lookup=\"'v', name='t'%s\">\nx {{ v }}\n</group>" % (", add_field='f'" if add else "")
        else:
            tpl = text + "<group name='g*'>\nx {{ v | %s('t'%s) }}\n</group>" % (fn, ", add_field='f'" if add else "")
        ref = ref_rlookup if fn == "rlookup" else ref_lookup
        want = [place(v, ref(t, v), add) for v in VALUES]
        decide(case, tpl, [lines(VALUES)], adder, [[{"g": want}]])
    finally:
        shutil.rmtree(d)
    return Outcome(h((how, want)), True, transitions=2 * len(VALUES), count=len(VALUES))


# ------------------------------------------------------------ which templates see add_lookup data
def scope_cases():
    # order of: template A loaded, template B loaded, add_lookup
    for order in itertools.permutations("ABL"):
        for child in (False, True):
            for own in (None, "A", "B"):
                yield (order, child, own)


def scope_fn(case):
    order, child, own = case
    p = obs.ttp()
    seen = {"A": None, "B": None}
    mk = {}
    for n in "AB":
        t = "<lookup name='t'>\n{'a': 'tag%s'}\n</lookup>\n" % n if own == n else ""
        t += "<group name='g*'>\nx {{ v | lookup('t') }}\n</group>"
        mk[n] = "<template name='%s'>\n%s\n</template>" % (n, t) if child else t
        if own == n:
            seen[n] = "tag" + n
    try:
        loaded = []
        for o in order:
            if o == "L":
                p.add_lookup("t", text_data="{'a': 'added'}")
                for n in loaded:
                    seen[n] = "added"
            else:
                p.add_template(mk[o], template_name=o)
                loaded.append(o)
        p.add_input("x a\nx b", template_name="_all_")
        p.parse(one=True)
        got = p.result()
    except Exception as e:
        got = obs.Raised(e)
    want = [[{"g": [{"v": seen[n] or "a"}, {"v": "b"}]}] for n in order if n != "L"]
    obs.expect(got, want, mk, "x a, x b", "case %r:" % (case,))
    return Outcome(h(got), True, transitions=3)


# ------------------------------------------------------------ group lookup actions
ACTIONS = {
    "replace": "",
    "add": ", add_field='f'",
    "add-over": ", add_field='v'",
    "update": ", update=True",
    "add+update": ", add_field='f', update=True",
    "none": ", replace=False",
    "update-noreplace": ", update=True, replace=False",
}


def group_cases():
    for t in ({"a": "s"}, {"a": {"k": "1", "w": "over"}}, {"a": ["p"], "b": 0}, {"a": None, "b": {}}, {}, {"ab": {"v": "V"}, "a": {"f": 1}}, ["a"], "a", {"a": {"a": "in"}}):
        for path in ("t", "t.n", "t.a", "t.z", "z"):
            for act in ACTIONS:
                for key in ("v", "w", "nokey"):
                    yield (t, path, act, key)


def group_fn(case):
    t, path, act, key = case
    if path == "t.n":
        full = {"n": t}
    else:
        full = t
    if not isinstance(full, dict):
        full = {"q": full}
        path = "t.q"
    text, adder = source(full, "python")
    tpl = text + "<group name='g*' lookup=\"'%s', name='%s'%s\">\nx {{ v }}\n y {{ w }}\n</group>" % (key, path, ACTIONS[act])
    table = walk({"t": full}, path.split("."))
    want = []
    data = []
    for v in ("a", "b", "ab", "x"):
        for w in (None, "a", "q"):
            rec = {"v": v}
            data.append("x " + v)
            if w:
                rec["w"] = w
                data.append(" y " + w)
            f = ref_lookup(table, rec[key]) if key in rec else NONE
            if f is not NONE:
                if act.startswith("add"):
                    rec["v" if act == "add-over" else "f"] = f
                elif act.startswith("update"):
                    if isinstance(f, dict):
                        rec.update(f)
                    else:
                        rec = None  # not claimed
                elif act == "replace":
                    rec[key] = f
            want.append(rec)
    if None in want:
        return None
    decide(case, tpl, ["\n".join(data)], adder, [[{"g": want}]])
    return Outcome(h(want), True, transitions=2 * len(want), count=len(want))


# ------------------------------------------------------------ results of templates and groups as tables
def results_cases():
    names = ("r", "r.{{ k }}", "q.r.{{ k }}", "r*", "{{ k }}")
    blocks = ((), ("a",), ("a", "b"), ("b", "a"))
    for name in names:
        for first in blocks:
            for second in ((None,) + blocks):
                for path in ("r", "q.r", "", "r.a", "z"):
                    for act in ("lookup", "add", "group", "group-add"):
                        yield (name, first, second, path, act)


def table_of(results, path):
    return walk(results, [p for p in path.split(".") if p]) if isinstance(results, dict) else None


def template_results_fn(case):
    name, first, second, path, act, mode = case
    texts = ["\n".join("k %s\n d D%s%d" % (k, k, n) for k in b) for n, b in enumerate((first, second)) if b is not None]
    look = "template='A%s'%s" % ("." + path if path else "", ", add_field='f'" if act.endswith("add") else "")
    grp = "<group name='%s'>\nk {{ k }}\n d {{ d }}\n</group>" % name
    usr = ("<group name='g*' lookup=\"'v', %s\">\nx {{ v }}\n</group>" % look if act.startswith("group")
           else "<group name='g*'>\nx {{ v | lookup(%s) }}\n</group>" % look)
    tpl = "<template name='A'%s>\n%s\n</template>\n<template name='B'>\n%s\n</template>" % (" results='per_template'" if mode else "", grp, usr)
    values = ["a", "b", "c", "r", "q"]
    p = obs.ttp(template=tpl)
    for t in texts:
        p.add_input(t, template_name="A")
    p.add_input(lines(values), template_name="B")
    try:
        p.parse(one=True)
        got = p.result()
    except Exception as e:
        obs.expect(obs.Raised(e), "no exception", tpl, texts, "case %r:" % (case,))
    res = got[0] if mode else got[0][0]
    table = table_of(res, path)
    want = [place(v, ref_lookup(table, v), "f" if act.endswith("add") else None) for v in values]
    obs.expect(got[1], [{"g": want}], tpl, texts + [lines(values)], "case %r, table %r:" % (case, table))
    return Outcome(h((table, want)), bool(table), transitions=len(values), count=len(values))


def group_results_fn(case):
    """match lookup: tables are results of earlier inputs; group lookup: of earlier groups of the same input or earlier inputs"""
    name, first, second, path, act, same = case
    if not path:
        return None
    parts = [["k %s\n d D%s%d" % (k, k, n) for k in b] for n, b in enumerate((first, second)) if b is not None]
    texts = ["\n".join(p) for p in parts]
    look = "group='%s'%s" % (path, ", add_field='f'" if act.endswith("add") else "")
    values = ["a", "b", "c", "r", "q"]
    tpl = "<group name='%s'>\nk {{ k }}\n d {{ d }}\n</group>\n" % name
    tpl += ("<group name='g*' lookup=\"'v', %s\">\nx {{ v }}\n</group>" % look if act.startswith("group")
            else "<group name='g*'>\nx {{ v | lookup(%s) }}\n</group>" % look)
    if same:
        if not act.startswith("group"):
            return None
        texts[-1] += "\n" + lines(values)
    else:
        texts.append(lines(values))
    try:
        p = obs.ttp(template=tpl)
        for i, t in enumerate(texts):
            p.add_input(t + "\n" + "#%d" % i)  # identical texts count once
        p.parse(one=True)
        got = p.result()
    except Exception as e:
        obs.expect(obs.Raised(e), "no exception", tpl, texts, "case %r:" % (case,))
    keys = path.split(".")
    table = None
    own = {k: v for k, v in got[0][-1].items() if k != "g"} if isinstance(got[0][-1], dict) else {}
    for res in ([own] if same else []) + got[0][:-1]:
        if isinstance(res, dict) and keys[0] in res:
            table = walk(res, keys)
            break
    want = [place(v, ref_lookup(table, v), "f" if act.endswith("add") else None) for v in values]
    obs.expect(got[0][-1].get("g") if isinstance(got[0][-1], dict) else got[0][-1], want, tpl, texts, "case %r, table %r:" % (case, table))
    return Outcome(h((table, want)), bool(table), transitions=len(values), count=len(values))


# ------------------------------------------------------------ tables stay as they are
def alias_cases():
    tables = [{"a": ["p"], "b": ["q"]}, {"a": {"k": ["1"]}, "b": {"k": []}}, {"a": {"k": {"m": "1"}}}]
    uses = ("join", "macro", "child", "user", "group-macro", "group-update", "expand", "add-macro", "merge")
    for t in tables:
        for u in uses:
            for seq in itertools.product("ab", repeat=3 if not DEEP else 4):
                for how in ("python", "json", "add"):
                    yield (t, u, seq, how)


def alias_fn(case):
    """the same values looked up again give the same results, whatever was done with the earlier ones"""
    t, use, seq, how = case
    text, adder = source(t, how)
    macro = ("<macro>\ndef spoil(data):\n    for d in [data] + (list(data.values()) if isinstance(data, dict) else []):\n"
             "        if isinstance(d, list): d.append('SPOILT')\n        elif isinstance(d, dict): d['SPOILT'] = 1\n"
             "    return data\n</macro>\n")
    grp = {
        "join": "<group name='g*'>\nstart {{ _start_ }}\nx {{ v | lookup('t') | joinmatches }}\n</group>",
        "macro": macro + "<group name='g*'>\nx {{ v | lookup('t') | macro('spoil') }}\n</group>",
        "add-macro": macro + "<group name='g*' macro='spoil'>\nx {{ v | lookup('t', add_field='f') }}\n</group>",
        "child": "<group name='g*'>\nx {{ v | lookup('t') }}\n<group name='v'>\n y {{ w }}\n</group>\n</group>",
        "user": "<group name='g*'>\nx {{ v | lookup('t') }}\n</group>",
        "group-macro": macro + "<group name='g*' functions=\"lookup('v', name='t', add_field='f') | macro('spoil')\">\nx {{ v }}\n</group>",
        "group-update": macro + "<group name='g*' functions=\"lookup('v', name='t', update=True) | macro('spoil')\">\nx {{ v }}\n</group>",
        "expand": "<group name='g*' expand=''>\nx {{ v | lookup('t', add_field='p.q') }}\n y {{ p.q.z }}\n</group>",
        "merge": "<group name='g**'>\nx {{ v | lookup('t', add_field='f') }}\n</group>\n",
    }[use]
    body = "\n".join("x %s\n y w%d" % (v, i) for i, v in enumerate(seq))
    data = ("start\n" if use == "join" else "") + body
    tpl = text + grp

    def spoil(x):
        if isinstance(x, list):
            for i in x:
                spoil(i)
            x.append("USER")
        elif isinstance(x, dict):
            for i in list(x.values()):
                spoil(i)
            x["USER"] = 1

    try:
        p = obs.ttp(template=tpl)
        if adder:
            adder(p)
        p.add_input(data)
        results = []
        for _ in range(3):
            p.parse(one=True)
            r = p.result()
            results.append(copy.deepcopy(r))
            spoil(r)
            p.clear_result()
        # every record on its own, by a fresh parser
        alone = []
        for i, v in enumerate(seq):
            q = obs.ttp(template=tpl)
            if adder:
                adder(q)
            q.add_input("x %s\n y w%d" % (v, i))
            q.parse(one=True)
            alone.append(copy.deepcopy(q.result()[0][0]))
    except Exception as e:
        obs.expect(obs.Raised(e), "no exception", tpl, data, "case %r:" % (case,))
    for n, r in enumerate(results[1:]):
        obs.expect(r, results[0], tpl, data, "parse %d differs from parse 1, case %r:" % (n + 2, case))
    if use not in ("join", "merge"):
        recs = results[0][0][0]["g"]
        obs.expect(recs, [a["g"][0] for a in alone], tpl, data, "records differ from those of a fresh parser, case %r:" % (case,))
    return Outcome(h(results[0]), len(set(seq)) < len(seq), transitions=3 * len(seq))


# ------------------------------------------------------------ geoip2 databases
class Reader:
    """stand-in for geoip2.database.Reader: every database knows two networks"""
    NETS = ("10.0.0.0/8", "2001:db8::/32")

    def __init__(self, path):
        if "missing" in path:
            raise FileNotFoundError(path)
        self.path = path

    def _find(self, ip):
        ip = ipaddress.ip_address(ip)
        for n in self.NETS:
            if ip in ipaddress.ip_network(n):
                return ipaddress.ip_network(n)
        raise LookupError(ip)

    def asn(self, ip):
        n = self._find(ip)
        return SimpleNamespace(autonomous_system_number=n.version, autonomous_system_organization=self.path, network=n)

    def country(self, ip):
        n = self._find(ip)
        return SimpleNamespace(continent=SimpleNamespace(names={"en": "Ocean", "de": "Ozean"}, code="OC"), country=SimpleNamespace(iso_code="AU", names={"en": "Austral"} if n.version == 4 else {}), traits=SimpleNamespace(network=n))

    def city(self, ip):
        n = self._find(ip)
        r = self.country(ip)
        r.city, r.postal = SimpleNamespace(name="Olinda"), SimpleNamespace(code="3788")
        r.location = SimpleNamespace(latitude=-37.8, longitude=0.0, accuracy_radius=n.version)
        r.subdivisions = SimpleNamespace(most_specific=SimpleNamespace(name="Victoria", iso_code="VIC"))
        return r


def geo_want(kind, path, ip):
    try:
        n = Reader(path)._find(ip)
    except Exception:
        return None
    where = {"continent": "Ocean", "country_iso_code": "AU", "country": "Austral" if n.version == 4 else "", "network": str(n)}
    if kind == "asn":
        return {"ASN": n.version, "organization": path, "network": str(n)}
    if kind == "country":
        return dict(where, continent_code="OC")
    return dict(where, city="Olinda", latitude=-37.8, longitude=0.0, accuracy_radius=n.version, postal_code="3788", state="Victoria", state_iso_code="VIC")


GEO_NAMES = {"asn": ("asn", "AsN", "ASN"), "country": ("country", "Country"), "city": ("city", "citY")}


def geo_cases():
    for how in ("python", "yaml", "json"):
        for have in itertools.product((None, "good", "missing"), repeat=3):
            for kind in GEO_NAMES:
                for spell in GEO_NAMES[kind]:
                    for add in (None, "f"):
                        yield how, have, kind, spell, add


def geo_fn(case):
    import types

    fake, db = types.ModuleType("geoip2"), types.ModuleType("geoip2.database")
    db.Reader = Reader
    fake.database = db
    sys.modules["geoip2"], sys.modules["geoip2.database"] = fake, db
    how, have, kind, spell, add = case
    paths = {}
    for k, state in zip(GEO_NAMES, have):
        if state:
            paths[spell if k == kind else GEO_NAMES[k][-1]] = "/%s/%s.mmdb" % (state, k)
    if not paths:
        paths["other"] = "/good/x.mmdb"
    tpl, _ = source(paths, how)
    tpl = tpl.replace("<lookup ", '<lookup database="geoip2" ')
    tpl += '<group name="g*">\nip {{ ip | geoip_lookup("t.%s"%s) }}\n</group>' % (spell, ', add_field="%s"' % add if add else "")
    ips = ["10.1.2.3", "11.0.0.1", "2001:db8::5", "word", "10.0.0.300"]
    want = []
    for ip in ips:
        found = geo_want(kind, paths.get(spell, "missing"), ip)
        want.append(dict({"ip": ip}, **({add or "geoip_lookup": found} if found else {})))
    try:
        return Outcome(h(decide(case, tpl, ["\n".join("ip %s" % i for i in ips)], None, [[{"g": want}]])), any(len(w) > 1 for w in want), transitions=len(ips))
    finally:
        del sys.modules["geoip2"], sys.modules["geoip2.database"]


def check(ck):
    ck.explore("match lookup and rlookup", match_cases, match_fn,
               rule="value or added field is the entry of the equal key (lookup) or of the first key contained in the value (rlookup); everything else unchanged")
    ck.explore("gpvlookup", gpv_cases, gpv_fn, rule="list of the keys that have a matching glob pattern: the first, or all with multimatch")
    ck.explore("gpvlookup record", lambda: ((t, v, m, a) for t in itertools.islice(gpv_tables(), 0, None, 1 if DEEP else 7) for v in ("a", "ab", "ab1", "b", "x") for m in (False, True) for a in (None, "f")),
               record_fn, rule="record keeps the list of keys found")
    ck.explore("table sources", source_cases, source_fn, rule="the same table from every loader and source gives the same results")
    ck.explore("add_lookup scope", scope_cases, scope_fn, rule="add_lookup serves all templates loaded so far and replaces the tag of the same name")
    ck.explore("group lookup", group_cases, group_fn, rule="add_field, then update, then replace; no entry changes nothing")
    ck.explore("template results", lambda: (c + (m,) for c in results_cases() for m in (False, True)), template_results_fn,
               rule="table is the path in the first input's results of the named template")
    ck.explore("group results", lambda: (c + (m,) for c in results_cases() for m in (False, True)), group_results_fn,
               rule="table is the path in the results of this input (group lookup) or the first earlier input that has it")
    ck.explore("tables are not modified", alias_cases, alias_fn, rule="repeated lookups give repeated results whatever is done to earlier ones")
    ck.explore("geoip2 databases", geo_cases, geo_fn, rule="the field holds the data of the database named for addresses it knows; other values, absent and unreadable databases leave the match alone")
