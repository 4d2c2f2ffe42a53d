"""C27: output functions. Arbitrary small result structures are put in front of every
output function by a macro output; reference implementations decide what must come out."""
import copy
import itertools
import json
import os
import sys

from mc import obs
from mc.core import Outcome, Violation, h, same

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of result structures x function arguments executed on the real outputs and compared with reference functions"
ASSUMPTIONS = [
    "a path that runs into a list below the top of the results, and a key_name that is already a key of the record, are undefined",
    "what Cerberus, DeepDiff and yangson themselves decide is taken from those libraries; for Cerberus a reference evaluator of the schemas used decides as well",
]
DEEP = "thorough" in sys.argv
ttp = obs.ttp


def give(data):
    """template parts: results that are parsed, and the macro that replaces them"""
    return "<macro>\ndef give(data):\n    return %r\n</macro>" % (data,)


BASE = '<input load="text">\nint 1\n</input>\n<group name="g">\nint {{ n }}\n</group>\n'


def xml(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def run(tpl, **kw):
    p = ttp(template=tpl, **kw)
    p.parse(one=True)
    return p.result()


def out(data, outputs, prolog="", attrs="", base=BASE):
    """what comes out of the outputs when they are given data"""
    tpl = "<template%s>\n%s%s\n%s\n<output macro='give'/>\n%s\n</template>" % (
        attrs, base, prolog, xml_macro(give(data)), "\n".join(outputs))
    r = obs.attempt(run, tpl)
    if isinstance(r, list):
        return r[0], tpl
    return r, tpl


def xml_macro(m):
    return m.replace("&", "&amp;").replace("<", "&lt;").replace("&lt;macro>", "<macro>").replace("&lt;/macro>", "</macro>")


def need(got, want, tpl, note):
    if want is FAILS:
        if not isinstance(got, obs.Raised):
            raise Violation("%s expected an exception, observed %.300r\n%s" % (note, got, tpl))
        return
    obs.expect(got, want, tpl, None, note)


FAILS = "an exception"

# ------------------------------------------------------------ structures
LEAVES = ["x", 1, None, "", ["l"], {}]


def trees(depth, keys=("a", "b"), leaves=None, lists=True):
    leaves = leaves if leaves is not None else LEAVES[:3]
    if depth == 0:
        yield from leaves
        return
    sub = list(trees(depth - 1, keys, leaves, lists))
    yield from sub
    seen = set(map(repr, sub))
    for n in range(0, len(keys) + 1):
        for ks in itertools.combinations(keys, n):
            for vs in itertools.product(sub, repeat=n):
                t = dict(zip(ks, vs))
                if repr(t) not in seen:
                    seen.add(repr(t))
                    yield t


def structures():
    t1 = list(trees(1, leaves=["x", 1, None]))
    t2 = [t for t in trees(2, leaves=["x", None] if DEEP else ["x"]) if isinstance(t, dict)]
    t3 = [{"a": t} for t in t2] + [{"b": {"a": t}, "a": "y"} for t in t2[: None if DEEP else 12]]
    tops = t2 + t3 + [t for t in t1 if isinstance(t, dict)]
    lists = [[]] + [[t] for t in tops] + [[a, b] for a in t1 if isinstance(a, dict) for b in t1 if isinstance(b, dict)]
    extra = [{"a": ["l", "m"]}, {"a": [{"b": "x"}, {"b": "y"}]}, {"a": {"b": [{"a": {"b": "x"}}]}}, {"a": {"b": []}}, {"a": {"b": {}}},
             {"": {"a": "x"}}, {"1": {"a": 1}, "2": {"b": {"c": 2}}}, {"a b": {"c/d": {"e": "f"}}}]
    res = []
    seen = set()
    for t in tops + lists + extra + [[e] for e in extra] + [[[{"a": {"b": "x"}}], [{"a": {"b": "y"}}]]]:
        if repr(t) not in seen:
            seen.add(repr(t))
            res.append(t)
    return res


# ------------------------------------------------------------ traverse, dict_to_list
def m_traverse(data, path, strict):
    if isinstance(data, list):
        return [m_traverse(i, path, strict) for i in data]
    for n, p in enumerate(path):
        if isinstance(data, list) and n:
            raise LookupError("undefined")
        if not isinstance(data, dict) or p not in data:
            if strict:
                raise KeyError(p)
            return {}
        data = data[p]
    return data


def m_dict_to_list(data, key):
    if isinstance(data, list):
        return [m_dict_to_list(i, key) for i in data]
    if not isinstance(data, dict) or not all(isinstance(v, dict) for v in data.values()):
        return data
    if any(key in v for v in data.values()):
        raise LookupError("undefined")
    return [dict(v, **{key: k}) for k, v in data.items()]


PATHS = ["a", "b", "a.b", "b.a", "a.b.a", "c", "a.c"]


def transform_cases():
    for i in range(len(structures())):
        yield i


def transform_fn(i):
    data = structures()[i]
    n = 0
    key = []
    top_scalar = isinstance(data, list) and any(not isinstance(x, (dict, list)) for x in data)
    for path in PATHS:
        p = path.split(".")
        for strict in (True, False, None):
            if top_scalar:
                continue
            try:
                want = m_traverse(data, p, strict is not False)
            except KeyError:
                want = FAILS
            except LookupError:
                continue
            s = "" if strict is None else ", strict=%s" % strict
            forms = ['<output traverse="path=\'%s\'%s"/>' % (path, s), "<output functions=\"traverse('%s'%s)\"/>" % (path, s)]
            for f in forms:
                got, tpl = out(data, [f])
                need(got, want, tpl, "traverse:")
                n += 1
            key.append(want)
    for key_name, path in itertools.product(("key", "k z"), [None] + PATHS):
        for strict in (None, True, False):
            if strict is not None and path is None:
                continue
            try:
                d = data if path is None else m_traverse(data, path.split("."), strict is True)
                want = m_dict_to_list(d, key_name)
            except KeyError:
                want = FAILS
            except LookupError:
                continue
            args = "key_name='%s'" % key_name if key_name != "key" else ""
            if path:
                args += (", " if args else "") + "path='%s'" % path
            if strict is not None:
                args += ", strict=%s" % strict
            forms = ["<output functions=\"dict_to_list(%s)\"/>" % args]
            if args:
                forms.append('<output dict_to_list="%s"/>' % args)
            for f in forms:
                got, tpl = out(data, [f])
                need(got, want, tpl, "dict_to_list:")
                n += 1
            key.append(want)
    # functions do not change the results they were given
    for f in ("traverse('a', strict=False)", "dict_to_list()", "dict_to_list(path='a', key_name='z')"):
        with obs.captured():
            got, tpl = out(data, ['<output functions="%s" returner="terminal"/>' % f])
        if isinstance(got, obs.Raised):
            continue
        need(got, data, tpl, "results after %s printed to the terminal:" % f)
        n += 1
    return Outcome(h(key), len(set(map(repr, key))) > 1, count=n, states=[h(i)], transitions=n)


# ------------------------------------------------------------ is_equal
def eq_values():
    vals = [{}, {"a": "x"}, {"a": "y"}, {"b": "x"}, {"a": "x", "b": "y"}, {"a": ["x", "y"]}, {"a": ["y", "x"]}, {"a": ["x"]}, {"a": {"b": "x"}},
            {"a": None}, {"a": ""}, {"a": 2}, {"a": "2"}, {"a": False}, {"a": {}}, {"a": []}, {"a": 2.5},
            {"b": "y", "a": "x"}, {"a": {"b": "x", "c": "y"}}, {"a": {"c": "y", "b": "x"}}, {"a": "X"}, {"a": " x"}, {"a": "xy"}, {"a": "2.5"}, {"2": "a"}]
    lists = [[], ["x"], [{}]] + [[v] for v in vals[1:]] + [[vals[1], vals[2]], [vals[2], vals[1]], [[vals[1]]], [[{"a": "x"}, {"a": "y"}]], [vals[1], {}]]
    res = []
    for v in vals + lists:
        if repr(v) not in map(repr, res):
            res.append(v)
    return res


def eq_cases():
    for i in range(len(eq_values())):
        for loader in ("json", "python", "yaml"):
            for name, descr in ((None, None), ("o 1", "checks it")):
                yield i, loader, name, descr


def eq_fn(case):
    i, loader, name, descr = case
    data = eq_values()[i]
    n = 0
    key = []
    attrs = ("" if name is None else ' name="%s"' % name) + ("" if descr is None else ' description="%s"' % descr)
    for ref in eq_values():
        if loader == "python":
            if isinstance(ref, dict):
                # python text is a set of assignments or one literal
                text = repr(ref)
            else:
                text = repr(ref)
        elif loader == "json":
            text = json.dumps(ref)
        else:
            import yaml
            text = yaml.safe_dump(ref, default_flow_style=True)
        for form in (" functions='is_equal'", " functions='is_equal()'"):
            got, tpl = out(data, ["<output load='%s'%s%s>\n%s\n</output>" % (loader, attrs, form, xml(text))])
            want = {"output_name": name, "output_description": descr if descr is not None else "None", "is_equal": same(data, ref)}
            need(got, want, tpl, "is_equal:")
            n += 1
            # anonymous group results of a template are compared without their key
            if form.endswith("()'") and isinstance(data, list):
                got, tpl = out({"_anonymous_": data}, ["<output load='%s'%s%s>\n%s\n</output>" % (loader, attrs, form, xml(text))])
                need(got, want, tpl, "is_equal, anonymous:")
                n += 1
            key.append(want["is_equal"])
    return Outcome(h((case, key)), any(key), count=n, states=[h(case)], transitions=n)


# ------------------------------------------------------------ validate
SCHEMAS = [
    {"a": {"type": "string"}},
    {"a": {"type": "string", "required": True}},
    {"a": {"type": "string", "allowed": ["x", "y"]}, "b": {"type": "integer"}},
    {"a": {"type": "list", "schema": {"type": "dict", "schema": {"p": {"type": "string", "allowed": ["x"]}}}}},
    {"a": {"type": "dict", "schema": {"p": {"type": "string", "required": True}}}},
]
DOCS = [{}, {"a": "x"}, {"a": "z"}, {"a": 1}, {"b": 2}, {"a": "x", "b": 2}, {"a": "x", "b": "2"}, {"c": "x"}, {"a": "y", "c": 1},
        {"a": [{"p": "x"}]}, {"a": [{"p": "x"}, {"p": "q"}]}, {"a": []}, {"a": {"p": "x"}}, {"a": {}}, {"a": {"q": 1}}, {"a": None}]
TYPES = {"string": lambda v: isinstance(v, str), "integer": lambda v: isinstance(v, int) and not isinstance(v, bool),
         "list": lambda v: isinstance(v, list), "dict": lambda v: isinstance(v, dict)}


def m_valid(doc, schema, unknown):
    for k, v in doc.items():
        if k not in schema:
            if not unknown:
                return False
            continue
        if not m_rule(v, schema[k], unknown):
            return False
    return all(k in doc for k, r in schema.items() if r.get("required"))


def m_rule(v, rule, unknown):
    if v is None:
        return False
    if not TYPES[rule["type"]](v):
        return False
    if "allowed" in rule and v not in rule["allowed"]:
        return False
    if "schema" in rule:
        if rule["type"] == "dict":
            return m_valid(v, rule["schema"], unknown)
        return all(m_rule(i, rule["schema"], unknown) for i in v)
    return True


INFOS = [None, "plain text", "{a} checked", "{h} and {a}", "{nosuch} left"]


def m_info(doc, info, vars):
    try:
        return info.format(**dict(vars, **doc))
    except KeyError:
        return info


def val_cases():
    for s in range(len(SCHEMAS)):
        for unknown in (None, True, False):
            for result in (None, "ok"):
                for errors in (None, "errs"):
                    for info in INFOS:
                        yield s, unknown, result, errors, info


def val_fn(case):
    import cerberus
    s, unknown, result, errors, info = case
    schema = SCHEMAS[s]
    prolog = "<vars>\nS = %r\nh = 'sw1'\n</vars>" % schema
    args = "S"
    if result:
        args += ", result='%s'" % result
    if info:
        args += ", info='%s'" % info
    if errors:
        args += ", errors='%s'" % errors
    if unknown is not None:
        args += ", allow_unknown=%s" % unknown
    allow = unknown is not False

    def one(doc):
        v = cerberus.Validator()
        v.allow_unknown = allow
        ok = m_valid(doc, schema, allow)
        if v.validate(copy.deepcopy(doc), schema) != ok:
            raise RuntimeError("reference evaluator disagrees with cerberus: %r %r" % (doc, schema))
        r = {result or "valid": ok}
        if info:
            r["info"] = m_info(doc, info, {"h": "sw1"})
        if errors:
            r[errors] = v.errors
        return r
    datas = list(DOCS) + [[d] for d in DOCS] + [[DOCS[1], d] for d in DOCS] + [[d, DOCS[2], DOCS[4]] for d in DOCS[::3]]
    datas += [[[d], [DOCS[1]]] for d in DOCS[:3]] + [[[d, d]] for d in DOCS[:3]] + [[]]
    n = 0
    key = []
    forms = ['<output validate="%s"%s/>', '<output functions="validate(%s)"%s/>']
    for data in datas:
        if isinstance(data, dict):
            want = one(data)
        elif data and isinstance(data[0], list):
            want = data
        else:
            want = [one(d) for d in data]
        for f in forms if DEEP else [forms[len(key) % 2]]:
            got, tpl = out(data, [f % (args, "")], prolog)
            need(got, want, tpl, "validate:")
            with obs.captured():
                got, tpl = out(data, [f % (args, ' returner="terminal"')], prolog)
            need(got, data, tpl, "results after validation printed to the terminal:")
            n += 2
        key.append(want)
    # two validations by different outputs do not influence each other
    with obs.captured():
        got, tpl = out(DOCS[8], ['<output validate="S, allow_unknown=False" returner="terminal"/>', forms[0] % (args, "")], prolog)
    need(got, one(DOCS[8]), tpl, "second validation:")
    return Outcome(h(key), True, count=n, states=[h(case)], transitions=n)


# ------------------------------------------------------------ deepdiff
TEXTS = ["int 1\n", "int 2\n", "int 1\n des a\n", "x\n", "int 1\nint 2\n"]
REC = [{"i": [{"n": "1"}]}, {"i": [{"n": "2"}]}, {"i": [{"n": "1", "d": "a"}]}, {}, {"i": [{"n": "1"}, {"n": "2"}]}]
GROUP = '<group name="i*">\nint {{ n }}\n des {{ d }}\n</group>\n'


def dd_cases():
    k = range(len(TEXTS))
    for before in [()] + [(a,) for a in k] + ([(a, b) for a in k for b in k if a != b] if DEEP else [(0, 1), (2, 3), (4, 0)]):
        for after in [(a,) for a in k] + ([(a, b) for a in k for b in k if a != b] if DEEP else [(1, 2), (3, 0), (0, 4)]):
            for middle in (None, 1):
                yield before, after, middle


def norm(x):
    return json.loads(json.dumps(x, default=lambda o: sorted(map(str, o)) if not isinstance(o, type) else o.__name__, sort_keys=True))


def dd_fn(case):
    from deepdiff import DeepDiff
    before, after, middle = case
    n = 0
    key = []

    def tag(name, ts):
        return "".join('<input name="%s" load="text">\n%s</input>\n' % (name, TEXTS[t]) for t in ts)

    def build(order, output, prolog="", attrs=""):
        parts = {"b": tag("before", before), "a": tag("after", after), "m": tag("mid", () if middle is None else (middle,))}
        return "<template name='T'%s>\n%s%s%s%s</template>" % (attrs, prolog, "".join(parts[o] for o in order), GROUP, output)

    def parse(order, output, **kw):
        tpl = build(order, output, **kw)
        p = ttp(template=tpl)
        return p, tpl

    def recs(order):
        r, where = [], {}
        for o in order:
            ts = {"b": before, "a": after, "m": () if middle is None else (middle,)}[o]
            where[o] = list(range(len(r), len(r) + len(ts)))
            r += [REC[t] for t in ts]
        return r, where
    for order in ("bma", "abm"):
        res, where = recs(order)
        B = [res[x] for x in where["b"]]
        A = [res[x] for x in where["a"]]
        for src in ("input", "var", "none_after"):
            for mode in (None, "bulk", "iterate", "unknown"):
                for field in (None, "difference"):
                    for opts in ({}, {"ignore_order": True}, {"verbose_level": 2}):
                        if src == "input":
                            if not before:
                                continue
                            args = ["input_before=before", "input_after=after"]
                            db, da = B, A
                        elif src == "var":
                            args = ["var_before=V", "input_after=after"]
                            db, da = [REC[2], REC[0]], A
                        else:
                            if opts or not before:
                                continue
                            args = ["var_before=V"]
                            db, da = [REC[2], REC[0]], res
                        if mode:
                            args.append("mode=%s" % mode)
                        if field:
                            args.append("add_field=%s" % field)
                        args += ["%s=%r" % o for o in opts.items()]
                        p, tpl = parse(order, '<output deepdiff="%s"/>' % ", ".join(args), prolog="<vars>\nV = %r\n</vars>\n" % [REC[2], REC[0]])
                        got = obs.attempt(lambda: (p.parse(one=True), p.result())[1])
                        if isinstance(got, obs.Raised):
                            raise Violation("deepdiff: %r\n%s" % (got, tpl))
                        db, da = copy.deepcopy(db), copy.deepcopy(da)
                        if mode == "unknown":
                            want = copy.deepcopy(res)
                        else:
                            d = [DeepDiff(db[0], i, **opts) for i in da] if mode == "iterate" else DeepDiff(db, da, **opts)
                            want = copy.deepcopy(res) + [{field: d}] if field else d
                            # identical data must show no difference and different data must show one
                            pairs = [(db[0], i) for i in da] if mode == "iterate" else [(db, da)]
                            for (x, y), z in zip(pairs, d if mode == "iterate" else [d]):
                                if not opts and same(x, y) != (z == {}):
                                    raise RuntimeError("reference library disagrees")
                        obs.expect(norm(got[0]), norm(want), tpl, None, "deepdiff:")
                        n += 1
                        key.append(norm(want))
    # results of another template
    if before and middle is None:
        for results in ("per_input", "per_template"):
            for field in (None, "difference"):
                t1 = "<template name='B' results='%s'>\n%s%s</template>" % (results, tag("before", before[:1]), GROUP)
                t2 = "<template name='A' results='%s'>\n%s%s<output deepdiff='template_before=B%s'/></template>" % (
                    results, tag("after", after[:1]), GROUP, ", add_field=difference" if field else "")
                tpl = "<template>\n%s\n%s\n</template>" % (t1, t2)
                p = ttp(template=tpl)
                p.parse(one=True)
                got = p.result()
                rb, ra = REC[before[0]], REC[after[0]]
                if results == "per_input":
                    rb, ra = [rb], [ra]
                d = DeepDiff(copy.deepcopy(rb), copy.deepcopy(ra))
                if same(rb, ra) != (d == {}):
                    raise RuntimeError("reference library disagrees")
                if field is None:
                    want = d
                elif isinstance(ra, list):
                    want = ra + [{"difference": d}]
                else:
                    want = dict(ra, difference=d)
                obs.expect(norm(got), norm([rb, want]), tpl, None, "deepdiff with a template:")
                n += 1
    return Outcome(h(key), bool(key), count=n, states=[h(case)], transitions=n)


# ------------------------------------------------------------ chains
STEPS = {
    "macro('m1')": lambda d: {"k": {"m1": d}},
    "macro('m2')": lambda d: d,  # returns nothing
    "traverse('k', strict=False)": lambda d: m_traverse(d, ["k"], False),
    "dict_to_list(key_name='id')": lambda d: m_dict_to_list(d, "id"),
    "macro('nosuch')": lambda d: d,
    "macro('m3')": lambda d: [d],
    "unknown_function('x')": lambda d: d,
}
CHAIN_MACRO = "<macro>\ndef m1(data):\n    return {'k': {'m1': data}}\n\ndef m2(data):\n    x = [data]\n\ndef m3(data):\n    return [data]\n</macro>"


def chain_cases():
    for n in range(0, 5 if DEEP else 4):
        for c in itertools.product(STEPS, repeat=n):
            yield c


def chain_fn(case):
    data = {"k": {"x": {"v": "1"}}, "z": "2"}
    want = copy.deepcopy(data)
    for c in case:
        try:
            want = STEPS[c](want)
        except LookupError:
            return Outcome("undefined", False)
    n = 0
    one = '<output functions="%s"/>' % " | ".join(case)
    many = "\n".join('<output functions="%s"/>' % c for c in case)
    split = "\n".join('<output functions="%s"/>' % " | ".join(x) for x in (case[:1], case[1:]) if x)
    rev = '<output load="python">\nfunctions = "%s"\n</output>' % " | ".join(case)
    for o in {one, many, split, rev} if case else {one}:
        got, tpl = out(data, [o], CHAIN_MACRO)
        obs.expect(got, want, tpl, None, "functions in order:")
        n += 1
    # the same functions asked for when results are read
    if case:
        tpl = "<template>\n%s%s\n%s\n<output macro='give'/>\n</template>" % (BASE, CHAIN_MACRO, give(data))
        p = ttp(template=tpl)
        p.parse(one=True)
        got = p.result(functions=" | ".join(case))
        obs.expect(got, [want], tpl, case, "result(functions=):")
        obs.expect(p.result(), [data], tpl, case, "results afterwards:")
        n += 2
    return Outcome(h(want), True, count=n, states=[h(case)], transitions=n)


# ------------------------------------------------------------ YANG
YANG = """module %(m)s {
  namespace "urn:%(m)s";
  prefix %(m)s;
  revision 2020-01-01;
  container top {
    leaf name { type string { length "1..3"; } }
    leaf num { type uint8; mandatory %(mand)s; }
    list item { key "id"; leaf id { type string; } leaf on { type boolean; } }
  }
}
"""


def yang_docs(m):
    yield {}, True, None
    for name in (None, "abc", "abcd", ""):
        for num in (None, 7, 300, "x"):
            for item in (None, [], [{"id": "a"}], [{"id": "a", "on": True}, {"id": "b", "on": False}], [{"id": "a"}, {"id": "a"}], [{"on": True}],
                         [{"id": "a", "on": "yes"}]):
                top = {k: v for k, v in (("name", name), ("num", num), ("item", item)) if v is not None}
                ok = (name in (None, "abc")) and num in (None, 7) and item in (None, [], [{"id": "a"}], [{"id": "a", "on": True}, {"id": "b", "on": False}])
                yield {"%s:top" % m: top}, ok, num is None
    yield {"%s:nosuch" % m: 1}, False, None


def yang_cases():
    for mods in (("ma",), ("mb",), ("ma", "mb")):
        for meta in (True, False):
            for shape in ("dict", "list", "list2"):
                yield mods, meta, shape


def yang_fn(case):
    mods, meta, shape = case
    n = 0
    dirs = []
    for m in ("ma", "mb"):
        os.makedirs("yang_" + m, exist_ok=True)
        with open("yang_%s/%s@2020-01-01.yang" % (m, m), "w") as f:
            f.write(YANG % {"m": m, "mand": "true" if m == "mb" else "false"})
    key = []
    for m in mods:
        docs = list(yang_docs(m))

        def verdict(d):
            ok, no_num = d[1], d[2]
            if m == "mb" and (no_num or no_num is None and ok):
                ok = None if no_num is None else False  # mandatory leaf
            return ok
        for d in docs if DEEP else docs[::2]:
            datas = {"dict": d[0], "list": [d[0]], "list2": [docs[1][0] if m == "ma" else {"mb:top": {"num": 7}}, d[0]]}[shape]
            ok = verdict(d)
            if ok is None or d[0] == {}:
                continue
            tpl_out = "<output validate_yangson=\"yang_mod_dir='%s', metadata=%s\"/>" % (os.path.abspath("yang_" + m), meta)
            got, tpl = out(datas, [tpl_out])
            if isinstance(got, obs.Raised):
                raise Violation("%r\n%s" % (got, tpl))
            n += 1
            if not meta:
                obs.expect(got, datas if ok else False, tpl, None, "validate_yangson:")
            else:
                v = {"dict": ok, "list": {0: ok}, "list2": {0: True, 1: ok}}[shape]
                obs.expect(got.get("valid"), v, tpl, got.get("comment"), "validate_yangson valid: %s" % str(got.get("exception"))[-300:])
                obs.expect(got.get("result"), datas, tpl, None, "validate_yangson result:")
            key.append(ok)
    return Outcome(h((case, key)), True, count=n, states=[h(case)], transitions=n)


# modules of each folder, and the library describing them written by hand
YSETS = {
    "one": ({"m1@2020-01-01": """module m1 { namespace "urn:m1"; prefix m1; revision 2020-01-01; feature f;
  container top { leaf a { type string { length "1..3"; } must "../b"; } leaf b { if-feature f; type uint8; } leaf st { config false; type string; }
    list item { key id; unique v; leaf id { type string; } leaf v { type uint8; } } } }"""},
            [{"name": "m1", "revision": "2020-01-01", "namespace": "urn:m1", "feature": ["f"], "conformance-type": "implement"}]),
    "sub": ({"m1@2021-02-02": """module m1 { namespace "urn:m1b"; prefix m1; include m1-s { revision-date 2021-01-01; } revision 2021-02-02;
  container top { uses g; leaf a { type uint8; } } }""",
             "m1-s@2021-01-01": """submodule m1-s { belongs-to m1 { prefix m1; } revision 2021-01-01; feature sf;
  grouping g { leaf b { if-feature sf; type uint8; } leaf st { type boolean; } list item { key id; leaf id { type uint8; } } } }"""},
            [{"name": "m1", "revision": "2021-02-02", "namespace": "urn:m1b", "feature": ["sf"], "conformance-type": "implement", "submodule": [{"name": "m1-s", "revision": "2021-01-01"}]}]),
    "import": ({"m1@2020-01-01": """module m1 { namespace "urn:m1"; prefix m1; import mt { prefix t; } revision 2020-01-01;
  container top { leaf a { type t:name; } leaf b { type uint8; mandatory true; } leaf st { config false; type string; }
    leaf-list item { type t:name; } } }""",
                "mt@2019-01-01": """module mt { namespace "urn:mt"; prefix mt; revision 2019-01-01; typedef name { type string { pattern "[a-c]+"; } } }""",
                "other": """module other { namespace "urn:other"; prefix other; container x { leaf y { type string; } } }"""},
               [{"name": "m1", "revision": "2020-01-01", "namespace": "urn:m1", "conformance-type": "implement"},
                {"name": "mt", "revision": "2019-01-01", "namespace": "urn:mt", "conformance-type": "import"},
                {"name": "other", "revision": "", "namespace": "urn:other", "conformance-type": "implement"}]),
}
YDOCS = [
    {"m1:top": {"a": "abc", "b": 1}}, {"m1:top": {"a": "abc"}}, {"m1:top": {"b": 2}}, {"m1:top": {"a": 7, "b": 0}}, {"m1:top": {"b": 300}},
    {"m1:top": {"b": 1, "st": "up"}}, {"m1:top": {"b": 1, "st": True}}, {"m1:top": {"b": 1, "item": [{"id": "x", "v": 1}, {"id": "y", "v": 1}]}},
    {"m1:top": {"b": 1, "item": [{"id": 1}, {"id": 2}]}}, {"m1:top": {"b": 1, "item": ["a", "bc"]}}, {"other:x": {"y": "z"}}, {"m1:nosuch": 1}, {"m1:top": {"b": 1}, "other:x": {}},
]


def ylib_cases():
    for s in YSETS:
        for lib in ("generated", "file", "tag"):
            for scope in (None, "all", "semantics", "syntax"):
                for ctype in (None, "all", "config", "nonconfig"):
                    yield s, lib, scope, ctype
    yield "pairs", None, None, None


def ylib_files():
    for s, (mods, lib) in YSETS.items():
        os.makedirs("ys_" + s, exist_ok=True)
        for name, text in mods.items():
            with open("ys_%s/%s.yang" % (s, name), "w") as f:
                f.write(text)
        with open("ys_%s/README.txt" % s, "w") as f:
            f.write("not a module")
        with open("ys_%s.json" % s, "w") as f:
            f.write(ylib(s))


def ylib(s):
    return json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "", "module": YSETS[s][1]}})


def yverdicts(s, scope, ctype):
    """for every document: its XML if it is valid, else None; the library asked directly"""
    from xml.etree import ElementTree as ET
    from yangson import DataModel, enumerations
    dm = DataModel(ylib(s), ["ys_" + s])
    out = []
    for d in YDOCS:
        try:
            inst = dm.from_raw(copy.deepcopy(d))
            inst.validate(scope=enumerations.ValidationScope[scope or "all"], ctype=enumerations.ContentType[ctype or "all"])
            out.append(ET.tostring(inst.to_xml(), encoding="unicode"))
        except Exception:
            out.append(None)
    return out


def ylib_fn(case):
    s, lib, scope, ctype = case
    ylib_files()
    if s == "pairs":  # modules of one call are forgotten in the next one
        n = 0
        for t in itertools.permutations(YSETS, 2):
            for u in t + t[:1]:
                n += ylib_one((u, "generated", None, None))[1]
        return Outcome("pairs", True, count=n, transitions=n)
    xmls, n = ylib_one(case)
    return Outcome(h((case, xmls)), True, count=n, states=[h(case)], transitions=n)


def ylib_one(case):
    s, lib, scope, ctype = case
    xmls = yverdicts(s, scope, ctype)
    n = 0
    args = "yang_mod_dir='%s'" % os.path.abspath("ys_" + s)
    args += ", yang_mod_lib='%s'" % os.path.abspath("ys_%s.json" % s) if lib == "file" else ""
    args += ", validation_scope='%s'" % scope if scope else ""
    args += ", content_type='%s'" % ctype if ctype else ""
    docs = list(range(len(YDOCS)))
    # a document by itself, all in one list, one of the valid ones in a list
    shapes = docs + [docs, [i for i in docs if xmls[i] is not None], [i for i in docs if xmls[i] is None]]
    if case[0] != s or lib is None:
        shapes = shapes[-3:]
    for shape in shapes:
        if shape == []:
            continue
        for meta in (None, True, False):
            for xml in (None, True):
                a = args + (", metadata=%s" % meta if meta is not None else "") + (", to_xml=True" if xml else "")
                o = '<output validate_yangson="%s"%s' % (a, " load='text'>%s</output>" % ylib(s) if lib == "tag" else "/>")
                data = copy.deepcopy([YDOCS[i] for i in shape] if isinstance(shape, list) else YDOCS[shape])
                got, tpl = out(data, [o])
                if isinstance(got, obs.Raised):
                    raise Violation("%r\n%s" % (got, tpl))
                n += 1
                if isinstance(shape, list):
                    valid = {k: xmls[i] is not None for k, i in enumerate(shape)}
                    result, ok = [xmls[i] for i in shape if xmls[i] is not None] if xml else data, all(valid.values())
                else:
                    valid = ok = xmls[shape] is not None
                    result = xmls[shape] if xml else data
                if meta is False:
                    obs.expect(got, result if ok else False, tpl, data, "validate_yangson without metadata:")
                else:
                    obs.expect(got.get("valid"), valid, tpl, data, "validate_yangson valid: %s" % str(got.get("exception"))[-300:])
                    if ok or not xml or isinstance(shape, list):
                        obs.expect(got.get("result"), result, tpl, data, "validate_yangson result:")
                    wrong = [k for k, v in valid.items() if not v] if isinstance(shape, list) else not ok
                    exc = got.get("exception")
                    obs.expect(sorted(exc) if isinstance(shape, list) else bool(exc), wrong, tpl, data, "items with exception:")
    return xmls, n


def check(ck):
    ck.explore("transform", transform_cases, transform_fn, rule="all trees of bounded depth over two keys, alone and in lists; all paths, key names and strictness")
    ck.explore("is_equal", eq_cases, eq_fn, rule="all pairs of data and reference, three loaders")
    ck.explore("validate", val_cases, val_fn, rule="all schemas x documents (alone, in lists, in lists of lists) x argument combinations")
    ck.explore("deepdiff", dd_cases, dd_fn, rule="all assignments of texts to the inputs compared x all argument combinations")
    ck.explore("chains", chain_cases, chain_fn, rule="all sequences of up to 3 (thorough 4) functions, in one and in several outputs")
    ck.explore("yangson arguments", ylib_cases, ylib_fn, rule="three sets of modules (submodules, imports, features, other files in the folder), library generated, from file and from the tag, every scope and content type, metadata and XML, all documents alone and in lists")
    ck.explore("yangson", yang_cases, yang_fn, rule="all documents of a small YANG module, two module directories used by one process")
