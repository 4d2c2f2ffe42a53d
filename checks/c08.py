"""C08: group functions. Every ordered tuple of group functions up to the stated
length, written as attributes, functions/chain strings and chain variables, over all
records of a small domain (every subset of variables matched, one of them having a
default), at top level, in an anonymous group and in a nested group, against a fold of
independently written reference functions."""
import copy
import ipaddress
import itertools
import re

import cerberus

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of group function sequences x notations x placements x records against a fold of reference functions"
ASSUMPTIONS = [
    "a matched value equal to the variable's default counts as not matched",
    "where the nested groups' records of a rejected record end up is not compared (the void function is used to keep them)",
]

DEFAULT = {"c": "C0"}


class Ctx:
    def __init__(self):
        self.vars = {"vs": "VV", "vb": "b", "n": "NV"}
        self.globals = {}

    def new_input(self):
        self.vars = {"vs": "VV", "vb": "b", "n": "NV"}


def have(d, k):
    return k in d and DEFAULT.get(k) != d[k]


def first_default(d, ks):
    return any(have(d, k) for k in ks)


class OutOfDomain(Exception):
    pass


def within(text, d, k):
    v = d.get(k, "")
    if not isinstance(v, str):
        raise OutOfDomain  # containment is documented for strings
    return text in v


def chk(f):
    return lambda d, c: (d, bool(f(d)))


def upd(f):
    def g(d, c):
        f(d, c)
        return d, True

    return g


def f_set(src, dst, default=None):
    def f(d, c):
        if src in c.vars:
            d[dst] = c.vars[src]
        elif src in c.globals:
            d[dst] = c.globals[src]
        else:
            d[dst] = src if default is None else default
    return upd(f)


def f_record(src, dst):
    def f(d, c):
        if src in d:
            c.vars[dst] = d[src]
            c.globals[dst] = d[src]
    return upd(f)


def number(v):
    try:
        return int(v)
    except Exception:
        try:
            return float(v)
        except Exception:
            return v


def f_int(*ks):
    def f(d, c):
        for k in ks or list(d):
            if k in d:
                d[k] = number(d[k])
    return upd(f)


def f_format(parts, dst):
    # parts: literal strings and names
    def f(d, c):
        if not all(isinstance(k, str) for k in d):
            raise OutOfDomain
        out = ""
        for lit, name in parts:
            out += lit
            if name:
                for scope in (d, c.vars, c.globals):
                    if name in scope:
                        out += str(scope[name])
                        break
                else:
                    return
        d[dst] = out
    return upd(f)


def f_items(d, c):
    if "a" not in d or "b" not in d:
        return d, False
    k, v = d["a"], d["b"]
    d = {x: y for x, y in d.items() if x not in ("a", "b")}
    d[k] = v
    return d, True


def f_expand(d, c):
    out = {}
    for k, v in d.items():
        if not isinstance(k, str):
            raise OutOfDomain
        if "." in str(k):
            x, y = k.split(".")
            out.setdefault(x, {})[y] = v
        else:
            out[k] = v
    return out, True


def f_del(*ks):
    return upd(lambda d, c: [d.pop(k, None) for k in ks])


TBL = {"1": "one", "bb": {"p": "P", "n": "N"}}


def f_lookup(key, mode):
    def f(d, c):
        if d.get(key) not in TBL:
            return
        v = TBL[d[key]]
        if mode == "add":
            d["lf"] = copy.deepcopy(v)
        elif mode == "update" and isinstance(v, dict):
            d.update(v)
        else:
            d[key] = copy.deepcopy(v)
    return upd(f)


SCHEMA = {"sch": {"n": {"allowed": ["0", "1", "2", "3", "4", "9", 0, 1, 2, 3, 4, 9]}, "lf": {"allowed": []}}}


def validated(d, schema, unknown):
    if not all(isinstance(k, str) for k in d):
        raise OutOfDomain
    v = cerberus.Validator(copy.deepcopy(SCHEMA[schema]), allow_unknown=unknown)
    return v.validate(copy.deepcopy(d)), v.errors


def f_validate(schema, result, info, errors, unknown):
    def f(d, c):
        ok, why = validated(d, schema, unknown)
        d[result] = ok
        if info:
            f_format([("", "n"), (":", "a")], "info")(d, c)
        if errors:
            d[errors] = why
    return upd(f)


def f_cerberus(schema, unknown, add):
    def f(d, c):
        ok, why = validated(d, schema, unknown)
        if add and not ok:
            d["validation_errors"] = why
        return d, ok or add
    return f


def m_snap(d, c):
    d["m"] = "+".join(sorted(map(str, d)))
    return d, True


# name, argument text, reference, usable after a non-string key appeared
FUNS = {
    "contains": ("'a'", chk(lambda d: have(d, "a"))),
    "contains 2": ("'a', 'b'", chk(lambda d: first_default(d, "ab"))),
    "contains c": ("c", chk(lambda d: have(d, "c"))),
    "contains ca": ("c, a", chk(lambda d: first_default(d, "ca"))),
    "containsall": ("'a', 'b'", chk(lambda d: have(d, "a") and have(d, "b"))),
    "containsall c": ("'a', 'c'", chk(lambda d: have(d, "a") and have(d, "c"))),
    "exclude": ("'a'", chk(lambda d: not have(d, "a"))),
    "exclude c": ("'c'", chk(lambda d: not have(d, "c"))),
    "exclude 2": ("c, b", chk(lambda d: not have(d, "c") and not have(d, "b"))),
    "excludeall": ("'a', 'b'", chk(lambda d: not (have(d, "a") and have(d, "b")))),
    "excludeall c": ("'b', 'c'", chk(lambda d: not (have(d, "b") and have(d, "c")))),
    "contains_val": ("'n', '1'", chk(lambda d: within("1", d, "n"))),
    "contains_val v": ("'b', vb", chk(lambda d: within("b", d, "b"))),
    "exclude_val": ("'n', '2'", chk(lambda d: d.get("n") != "2")),
    "exclude_val c": ("'c', 'C0'", chk(lambda d: d.get("c") != "C0")),
    "equal": ("'a', '1'", chk(lambda d: d.get("a") == "1")),
    "equal v": ("set1, vs", chk(lambda d: d.get("set1") == "VV")),
    "void": ("", lambda d, c: (d, False)),
    "macro snap": ("'m_snap'", m_snap),
    "macro rej": ("'m_rej'", chk(lambda d: "b" not in d)),
    "macro true": ("'m_true'", chk(lambda d: True)),
    "macro none": ("'m_none'", chk(lambda d: True)),
    "macro new": ("'m_new'", lambda d, c: ({"z": len(d), "n": d.get("n", "?"), "a": "77"}, True)),
    "macro two": ("'m_rej, m_snap'", lambda d, c: (d, False) if "b" in d else m_snap(d, c)),
    "del": ("'a'", f_del("a")),
    "del 2": ("b, c, zz", f_del("b", "c", "zz")),
    "set": ("'vs', 'set1'", f_set("vs", "set1")),
    "set lit": ("'lit', 'a'", f_set("lit", "a")),
    "set default": ("'ra', 'set2', default='none'", f_set("ra", "set2", "none")),
    "set empty": ("'rz', 'set3', default=''", f_set("rz", "set3", "")),
    "record": ("'a', 'ra'", f_record("a", "ra")),
    "to_int": ("", f_int()),
    "to_int 2": ("a, b", f_int("a", "b")),
    "sformat": ("'{n}-{a}', 'f'", f_format([("", "n"), ("-", "a")], "f")),
    "sformat v": ("string='{vs}/{c}{n}', add_field='c'", f_format([("", "vs"), ("/", "c"), ("", "n")], "c")),
    "sformat r": ("string='{ra}', add_field='fr'", f_format([("", "ra")], "fr")),
    "items2dict": ("'a', 'b'", f_items),
    "expand": ("", f_expand),
    "lookup": ("'a', name='tbl'", f_lookup("a", "replace")),
    "lookup add": ("'b', name='tbl', add_field='lf'", f_lookup("b", "add")),
    "lookup update": ("'b', name='tbl', update=True", f_lookup("b", "update")),
    "validate": ("'sch', result='ok', info='{n}:{a}', errors='er'", f_validate("sch", "ok", "{n}:{a}", "er", True)),
    "validate strict": ("schema='sch', allow_unknown=False", f_validate("sch", "valid", "", "", False)),
    "validate none": ("'nosuch'", lambda d, c: (d, True)),
    "cerberus add": ("'sch', add_errors=True", f_cerberus("sch", True, True)),
    "cerberus strict": ("'sch', allow_unknown=False", f_cerberus("sch", False, False)),
    "cerberus none": ("'nosuch'", lambda d, c: (d, True)),
    "cerberus": ("'sch'", chk(lambda d: str(d.get("n", "1")) in ("0", "1", "2", "3", "4", "9") and "lf" not in d)),
}
CORE = ["contains 2", "contains ca", "exclude c", "containsall c", "equal", "macro snap", "macro rej", "macro new", "del", "set lit", "to_int", "sformat", "items2dict", "record", "set default", "cerberus", "validate", "cerberus add"]

HEAD = """<vars>
vs = "VV"
vb = "b"
n = "NV"
sch = {"n": {"allowed": ["0", "1", "2", "3", "4", "9", 0, 1, 2, 3, 4, 9]}, "lf": {"allowed": []}}
%s
</vars>
<lookup name="tbl" load="python">
{"1": "one", "bb": {"p": "P", "n": "N"}}
</lookup>
<macro>
def m_snap(data):
    data["m"] = "+".join(sorted(map(str, data)))
    return data
def m_rej(data):
    return "b" not in data
def m_true(data):
    return True
def m_none(data):
    data.get("a")
def m_new(data):
    return {"z": len(data), "n": data.get("n", "?"), "a": "77"}
</macro>
"""
BODY = """rec {{ n }}
 a {{ a }}
 b {{ b }}
 c {{ c | default("C0") }}
 t {{ t.u }}
"""
PLACES = {
    "top": '<group name="g*"%s>\n' + BODY + "</group>",
    "anonymous": "<group%s>\n" + BODY + "</group>",
    # children before, between and after the lines of the record
    "around": '<group name="g*"%s>\n' + BODY + '<group name="kid*">\n kid {{ k }}\n in {{ v }}\n</group>\n</group>',
    # a start line without values
    "bare": '<group name="g*"%s>\n' + BODY.replace("rec {{ n }}", "--- {{ _start_ }}\n n {{ n }}") + "</group>",
    "nested": '<group name="p*">\npar {{ p }}\n<group name="g*"%s>\n' + BODY.replace("\n ", "\n  ").replace("rec", " rec") + "</group>\n after {{ x }}\n</group>",
}
RECS = []
for bits in itertools.product((0, 1), repeat=4):
    r = {"n": str(len(RECS))}
    for on, (k, v) in zip(bits, (("a", "1"), ("b", "bb"), ("c", "C1"), ("t.u", "4"))):
        if on:
            r[k] = v
    RECS.append(r)
RECS[6]["a"] = "7x"
RECS[13]["a"] = "2.5"


def lines(r, ind=""):
    return ["%srec %s" % (ind, r["n"])] + ["%s %s %s" % (ind, k[0], r[k]) for k in ("a", "b", "c", "t.u") if k in r]


def kids(i, p):
    """numbers of the boundaries between the lines of a record where a nested record is"""
    mask = (2 * i + p) * 7 % 32
    return [x for x in range(5) if mask >> x & 1]


def texts(place):
    orders = [RECS, RECS[::-1]]
    out = []
    for p, recs in enumerate(orders):
        t = []
        for i, r in enumerate(recs):
            if place == "around":
                t.append("rec %s" % r["n"])
                for x, k in enumerate(("a", "b", "c", "t.u", None)):
                    if x in kids(i, p):
                        t += [" kid %d.%d" % (i, x)] + [" in %d" % x] * (x % 2)
                    if k in r:
                        t.append(" %s %s" % (k[0], r[k]))
                continue
            if place == "nested" and i % 4 == 0:
                t.append("par %d" % (i // 4))
            t += lines(r, " " if place == "nested" else "")
            if place == "bare":
                t[-len(lines(r)):] = ["---", " n %s" % r["n"]] + lines(r)[1:]
            if place == "nested" and i % 4 == 3:
                t.append(" after %d" % i)
        out.append("\n".join(t))
    return out, orders


def around(names, orders, got):
    """results of the template with nested groups between the lines of the records and
    what they should be, (own values, nested records) of each record"""
    c = Ctx()
    have, want = [], []
    for p, recs in enumerate(orders):
        c.new_input()
        out = []
        for i, r in enumerate(recs):
            d = fold(names, r, c)
            if d is not None:
                nested = [dict({"k": "%d.%d" % (i, x)}, **({"v": str(x)} if x % 2 else {})) for x in kids(i, p)]
                out.append((d, nested))
        want.append(out)
        g = got[p] if isinstance(got, list) and len(got) == len(orders) else got
        g = g.get("g", []) if isinstance(g, dict) else g
        if isinstance(g, list) and all(isinstance(x, dict) for x in g):
            g = [(x, x.pop("kid", [])) for x in g]
            # nested records of rejected records are not compared
            g = [(x, k) for x, k in g if x]
            if len(g) == len(out) < len(recs):
                g = [(x, k[: len(w[1])]) for (x, k), w in zip(g, out)]
        have.append(g)
    return have, want


def fold(names, r, c):
    d = dict(copy.deepcopy(r))
    for k, v in DEFAULT.items():
        d.setdefault(k, v)
    for n in names:
        d, ok = FUNS[n][1](d, c)
        if not ok:
            return None
    return d


def want(place, names, orders):
    c = Ctx()
    out = []
    for recs in orders:
        c.new_input()
        if place == "nested":
            ps = []
            for i in range(0, len(recs), 4):
                p = {"p": str(i // 4), "x": str(i + 3)}
                g = [x for x in (fold(names, r, c) for r in recs[i:i + 4]) if x is not None]
                if g:
                    p["g"] = g
                ps.append(p)
            out.append({"p": ps})
            continue
        g = [x for x in (fold(names, r, c) for r in recs) if x is not None]
        if place in ("top", "around", "bare"):
            out.append({"g": g} if g else {})
        else:
            # an anonymous group: the list of the records
            out.append(g)
    return out


def attrs(names, form):
    """attribute text of the group tag and extra template variables"""
    call = ["%s(%s)" % (n.split()[0], FUNS[n][0]) if FUNS[n][0] else n.split()[0] for n in names]
    q = lambda s: s.replace('"', "&quot;")
    if form == "attributes":
        return "".join(' %s="%s"' % (n.split()[0], q(FUNS[n][0])) for n in names), ""
    if form == "functions":
        return ' functions="%s"' % q(" | ".join(call)), ""
    if form == "chain":
        return ' chain="%s"' % q("|".join(call)), ""
    if form == "string variable":
        return ' chain="ch1"', "ch1 = %r" % " | ".join(call)
    if form == "list variable":
        return ' functions="ch1"', "ch1 = %r" % call
    if form == "mixed":
        return ' functions="ch1" %s="%s" chain="%s"' % (names[1].split()[0], q(FUNS[names[1]][0]), " | ".join(call[2:])), "ch1 = %r" % call[:1]
    raise KeyError(form)


def one(names, form, place):
    a, v = attrs(names, form)
    tpl = HEAD % v + PLACES[place] % a
    data, orders = texts(place)
    try:
        w = want(place, names, orders)
    except OutOfDomain:
        return Outcome((names, "out of domain"), nontrivial=False, count=0)
    got = obs.attempt(obs.run, tpl, data)
    if isinstance(got, list) and len(got) == 1:
        got = got[0]
    if place == "around":
        got, w = around(names, orders, got)
    if place == "anonymous":
        w = [x if x else {} for x in w]
        got = [x if x else {} for x in got] if isinstance(got, list) else got
    return Outcome((names, obs.expect(got, w, tpl, "\n---\n".join(data))), states=[h((names, place))], transitions=len(names), count=2 * len(RECS))


FORMS = ["functions", "chain", "string variable", "list variable", "attributes"]


def sequences(ck):
    def cases():
        for n in range(0, 4 if ck.thorough else 3):
            for names in itertools.product(FUNS, repeat=n):
                yield names
        for names in itertools.product(CORE, repeat=3):
            yield names

    def usable(names, form):
        heads = [n.split()[0] for n in names]
        if form == "attributes":
            return len(set(heads)) == len(heads)
        return bool(names) or form != "list variable"

    def gen():
        for i, names in enumerate(cases()):
            if len(names) < 3:
                for form in FORMS:
                    for place in PLACES:
                        if usable(names, form) and (form == "functions" or place == "top" or ck.thorough):
                            yield names, form, place
            else:
                place = list(PLACES)[i % len(PLACES)]
                form = FORMS[i % 5]
                yield names, form if usable(names, form) else "functions", place
                if i % 4 == 0 and "functions" not in (names[1].split()[0],):
                    yield names, "mixed", place

    ck.explore("sequences", gen, lambda c: one(*c), "all ordered pairs of %d group functions in every notation, at 5 places, triples of %d (of all, thorough), each on %d records in two orders" % (len(FUNS), len(CORE), len(RECS)))


def variable_names(ck):
    """functions naming a variable unquoted: any identifier is usable as variable name"""
    names = ["log", "sys", "logging", "traceback", "id", "type", "list", "name", "data", "args", "abc", "print", "true1", "_UndefSubst", "get_attributes"]

    def fn(case):
        name, f, neg, form = case
        a = {"attribute": ' %s="%s"' % (f, name), "functions": ' functions="%s(%s)"' % (f, name)}[form]
        tpl = '<group name="g*"%s>\nrec {{ n }}\n v {{ %s }}\n</group>' % (a, name)
        data = "rec 1\n v 2\nrec 3\nrec 4\n v 5"
        full = [{"n": "1", name: "2"}, {"n": "3"}, {"n": "4", name: "5"}]
        if f == "del":
            w = [{"n": "1"}, {"n": "3"}, {"n": "4"}]
        elif f == "to_int":
            w = [dict(r, **({name: int(r[name])} if name in r else {})) for r in full]
        else:
            w = [r for r in full if (name in r) != neg]
        return Outcome((case, obs.expect(obs.run1(tpl, data), {"g": w}, tpl, data)))

    def cases():
        for name in names:
            for f, neg in (("contains", False), ("containsall", False), ("exclude", True), ("excludeall", True), ("del", None), ("to_int", None)):
                for form in ("attribute", "functions"):
                    yield name, f, neg, form

    ck.explore("variable names", cases, fn, "functions on variables of every name from a list, unquoted")


def placement(ck):
    """functions decide the path: they run before the record is placed"""
    data = "\n".join("\n".join(lines(r)) for r in RECS[:9])
    ops = {
        "": lambda d: d,
        "del('a')": lambda d: {k: v for k, v in d.items() if k != "a"},
        "set('K', 'a')": lambda d: dict(d, a="K"),
        "sformat('{n}x', 'a')": lambda d: dict(d, a=d["n"] + "x"),
        "to_int('a')": lambda d: dict(d, a=number(d["a"])) if "a" in d else d,
        "contains('a')": lambda d: d if "a" in d else None,
        "exclude('b')": lambda d: d if "b" not in d else None,
        "macro('low')": lambda d: dict(d, a="lo" + d.get("a", "")),
    }

    def cases():
        for n in (1, 2, 3):
            yield from itertools.product(ops, repeat=n)

    def fn(names):
        tpl = '<macro>\ndef low(data):\n    data["a"] = "lo" + str(data.get("a", ""))\n    return data\n</macro>\n<group name="g.{{ a }}*" functions="%s">\n%s</group>' % (" | ".join(n for n in names if n), BODY)
        w = {}
        last = None
        for r in RECS[:9]:
            d = dict({"c": "C0"}, **r)
            for n in names:
                if n == "macro('low')":
                    d = dict(d, a="lo" + str(d.get("a", "")))
                elif d is not None:
                    d = ops[n](d)
                if d is None:
                    break
            if d is None:
                continue
            d = dict(d)
            if "a" in d:
                last = str(d.pop("a"))
            if last is None:
                continue
            w.setdefault(last, []).append(d)
        return Outcome((names, obs.expect(obs.run1(tpl, data), {"g": w} if w else {}, tpl, data)))

    ck.explore("placement", cases, fn, "all triples of functions that change or remove the value a dynamic path item uses")


def itemize(ck):
    """itemize: the items listed at the group's path or at the given path"""
    data = "\n".join("\n".join(lines(r)) for r in RECS)
    pre = {"": lambda d: d, "contains('b') | ": lambda d: d if "b" in d else None, "exclude('a') | ": lambda d: d if "a" not in d else None,
           "set('Q', 'a') | ": lambda d: dict(d, a="Q"), "to_int | ": lambda d: {k: number(v) for k, v in d.items()}, "del('n') | ": lambda d: {k: v for k, v in d.items() if k != "n"}}
    names = ["g", "g*", "g**", "h.g", "h*.g"]

    def cases():
        for p in pre:
            for key in ("a", "n", "b", "zz"):
                for name in names:
                    for path in (None, "i", "i.j", "i*", "i.j**"):
                        yield p, key, name, path

    def fn(case):
        p, key, name, path = case
        arg = "key='%s'" % key + (", path='%s'" % path if path else "")
        tpl = '<group name="%s" functions="%sitemize(%s)">\n%s</group>' % (name, p, arg, BODY)
        items, recs = [], []
        for r in RECS:
            d = pre[p](dict({"c": "C0"}, **r))
            if d is None or key not in d:
                continue
            items.append(d[key])
            recs.append(d)
        got = obs.run1(tpl, data)
        if not items:
            return Outcome(obs.expect(got, {}, tpl, data), nontrivial=False)

        def put(keys, v):
            return v if not keys else {keys[0]: put(keys[1:], v)}

        if path is None:
            w = put([k.rstrip("*") for k in name.split(".")], items)
            if name == "h*.g":
                w = {"h": [w["h"]]}
            return Outcome((case, obs.expect(got, w, tpl, data)))
        # items at path; where the records themselves are saved is C03
        ref = got
        for k in path.replace("*", "").split("."):
            ref = ref.get(k) if isinstance(ref, dict) else None
        obs.expect(ref, items, tpl, data, "itemized items")
        if name in ("g", "g*"):
            obs.expect(got.get("g"), recs if len(recs) > 1 or name == "g*" else recs[0], tpl, data, "records themselves")
        return Outcome((case, got))

    ck.explore("itemize", cases, fn, "every key, group path and itemize path after every preparatory function")


def ip_objects(ck):
    """to_ip: an address object of two of the record's values, or the record as it was"""
    addrs = ["10.0.0.1", "10.0.0.0", "255.255.255.255", "2002::fd10", "::1", "FE80::A", "300.1.1.1", "10.0.0", "abc", "10.0.0.1/8"]
    masks = ["24", "255.255.255.0", "0.0.0.255", "0", "32", "33", "64", "128", "129", "255.0.255.0", "x", None]
    forms = [" to_ip=\"'ip', 'mask'\"", " to_ip=\"ip_key='ip', mask_key='mask'\"", " functions=\"to_ip('ip', 'mask')\"", " functions=\"to_ip('ip', mask_key='mask') | contains('ip')\"",
             " functions=\"to_int('mask') | to_ip('ip', 'mask')\"", " functions=\"set('7', 'q') | to_ip('ip', 'nosuch')\"", " functions=\"to_ip('ip', 'mask') | to_ip('ip', 'mask')\""]

    def cases():
        for form in forms:
            for place in ("top", "nested"):
                yield form, place

    def fn(case):
        form, place = case
        pairs = [(a, m) for a in addrs for m in masks]
        body = "rec {{ n }}\n ip {{ ip }}\n mask {{ mask }}\n"
        if place == "top":
            tpl = '<group name="g*"%s>\n%s</group>' % (form, body)
        else:
            tpl = '<group name="p">\nstart {{ s }}\n<group name="g*"%s>\n%s</group>\n</group>' % (form, body)
        data, w = ["start 1"], []
        for i, (a, m) in enumerate(pairs):
            data += ["rec %d" % i, " ip %s" % a] + ([" mask %s" % m] if m else [])
            r = {"n": str(i), "ip": a}
            if m:
                r["mask"] = number(m) if "to_int" in form else m
            if "set(" in form:
                r["q"] = "7"
            elif m:
                try:
                    r["ip"] = ipaddress.ip_interface("%s/%s" % (a, m))
                except ValueError:
                    pass
            w.append(r)
        got = obs.run1(tpl, "\n".join(data))
        w = {"g": w} if place == "top" else {"p": {"s": "1", "g": w}}
        return Outcome((case, obs.expect(got, w, tpl, "\n".join(data))), transitions=len(pairs), count=len(pairs))

    ck.explore("to_ip", cases, fn, "every notation x every pair of 10 addresses and 12 masks (also none), at 2 places")


def expanding(ck):
    """expand: every set of dotted names gives the tree of these names"""
    parts = "xyz"
    names = [".".join(t) for n in (1, 2, 3) for t in itertools.product(parts, repeat=n)] + ["x.y.z.w", "y.y.y.y.y"]
    if not ck.thorough:
        names = [n for n in names if n.count(".") != 2 or n[0] in "xy"]

    def clash(a, b):
        return a == b or (a + ".").startswith(b + ".") or (b + ".").startswith(a + ".")

    def cases():
        for n in (1, 2, 3):
            for t in itertools.permutations(names, n):
                if n == 3 and (t[0] > t[1] and t[1] > t[2]):
                    continue
                if not any(clash(a, b) for a, b in itertools.combinations(t, 2)):
                    yield t

    def fn(t):
        tpl = '<group name="g*" expand="">\nrec {{ n }}\n%s</group>' % "".join(" %sv {{ %s }}\n" % ("abc"[i], n) for i, n in enumerate(t))
        data, w = [], []
        for bits in itertools.product((1, 0), repeat=len(t)):
            data.append("rec %d" % len(w))
            r = {"n": str(len(w))}
            for i, (on, n) in enumerate(zip(bits, t)):
                if on:
                    data.append(" %sv %d" % ("abc"[i], i))
                    ref = r
                    for k in n.split(".")[:-1]:
                        ref = ref.setdefault(k, {})
                    ref[n.split(".")[-1]] = str(i)
            w.append(r)
        return Outcome((t, obs.expect(obs.run1(tpl, "\n".join(data)), {"g": w}, tpl, "\n".join(data))), transitions=len(w), count=len(w))

    ck.explore("expand", cases, fn, "all ordered sets of up to 3 dotted names of up to 5 parts, every subset of them matched")


def int_lists(ck):
    """to_int: intlist converts the items of lists, nothing else does"""
    items = ["5", "-3", "2.5", "x", "1e2", ""]
    lists = [list(t) for n in (1, 2, 3) for t in itertools.product(items, repeat=n)]
    forms = {
        " functions=\"to_int('l', intlist=True)\"": ("l",), " functions=\"to_int(intlist=True)\"": ("l", "n", "m"), " to_int=\"'l', 'm', intlist=true\"": ("l", "m"),
        " functions=\"to_int('l')\"": None, " to_int=\"\"": None, " functions=\"to_int('l', intlist=False)\"": None, " functions=\"to_int('nosuch', intlist=True)\"": (),
    }

    def fn(form):
        tpl = '<group name="g*"%s>\nrec {{ n }}\n l {{ l | ORPHRASE | split(",") }}\n m {{ m | ORPHRASE | split(",") }}\n</group>' % form
        data, w = [], []
        keys = forms[form]
        for i, l in enumerate(lists):
            if l == [""]:
                continue
            data += ["rec %d" % i, " l " + ",".join(l), " m 1,2"]
            r = {"n": str(i), "l": l, "m": ["1", "2"]}
            if keys is None and "'l'" not in form:
                r["n"] = i
            for k in keys or ():
                r[k] = [number(x) for x in r[k]] if isinstance(r[k], list) else number(r[k])
            w.append(r)
        return Outcome((form, obs.expect(obs.run1(tpl, "\n".join(data)), {"g": w}, tpl, "\n".join(data))), transitions=len(lists), count=len(lists))

    ck.explore("to_int lists", lambda: iter(forms), fn, "every list of up to 3 of 6 items, with and without intlist")


SCHEMAS = [{"v": {"allowed": ["1"]}}, {"v": {"allowed": ["2"]}}, {"v": {"type": "string", "maxlength": 1}, "w": {"required": True}}, {"v": {"coerce": int, "max": 1}}, {}]


def schemas(ck):
    """schemas of one name in several templates and parsers, and given anew to one parser"""
    recs = [{"v": "1"}, {"v": "2"}, {"v": "11", "w": "1"}, {"v": "2", "w": "x"}]
    data = "".join("v %s\n" % r["v"] + (" w %s\n" % r["w"] if "w" in r else "") for r in recs)
    funcs = ["validate('S', errors='e')", "validate('S', allow_unknown=False)", "cerberus('S')", "cerberus(schema='S', allow_unknown=False)", "cerberus('S', add_errors=True)"]

    def cases():
        for f in itertools.product(funcs, repeat=2):
            for t in itertools.product((0, 1, 2), repeat=2):
                for how in ("parsers", "templates", "add_vars"):
                    yield f, t, how
        for f in funcs:
            for t in itertools.product((0, 1, 2, 4), repeat=3):
                yield (f, f, f), t, "parsers"
                yield (f, f, f), t, "add_vars"

    def template(f, schema, name=None):
        t = ("<vars>\nS = %r\n</vars>\n" % schema if schema is not None else "") + '<group name="g*" functions="%s">\nv {{ v }}\n w {{ w }}\n</group>' % f
        return '<template name="%s">\n%s\n</template>\n' % (name, t) if name else t

    def expected(f, schema):
        out = []
        if not schema:  # none found: left alone
            return [{"g": [dict(r) for r in recs]}]
        for r in recs:
            d = dict(r)
            v = cerberus.Validator(copy.deepcopy(schema), allow_unknown="allow_unknown=False" not in f)
            ok, why = v.validate(dict(r)), v.errors
            if f.startswith("validate"):
                d["valid"] = ok
                if "errors" in f:
                    d["e"] = why
            elif "add_errors" in f:
                if not ok:
                    d["validation_errors"] = why
            elif not ok:
                continue
            out.append(d)
        return [{"g": out}] if out else []

    def fn(case):
        fs, ts, how = case
        want = [expected(f, SCHEMAS[t]) for f, t in zip(fs, ts)]
        got, tpl = [], ""

        def go():
            nonlocal tpl
            if how == "parsers":
                for f, t in zip(fs, ts):
                    tpl = template(f, SCHEMAS[t])
                    got.append(obs.run(tpl, data)[0])
                return got
            if how == "templates":
                tpl = "".join(template(f, SCHEMAS[t], "t%d" % i) for i, (f, t) in enumerate(zip(fs, ts)))
                p = obs.ttp(template=tpl)
                p.add_input(data, template_name="_all_")
                p.parse(one=True)
                return p.result()
            tpl = template(fs[0], None)
            p = obs.ttp(template=tpl)
            p.add_input(data)
            for t in ts:
                p.add_vars({"S": copy.deepcopy(SCHEMAS[t])})
                p.clear_result()
                p.parse(one=True)
                got.append(copy.deepcopy(p.result()[0]))
            return got
        if how == "add_vars":
            want = [expected(fs[0], SCHEMAS[t]) for t in ts]
        return Outcome((case, h(obs.expect([[x for x in r if x] for r in obs.attempt(go)], want, tpl, data, "schemas %r:" % (case,)))), transitions=len(ts) * len(recs), count=len(ts))

    ck.explore("schemas", cases, fn, "every sequence of up to 3 schemas of one name and every pair of validating functions, in parsers, in templates and in one parser one after another")


def check(ck):
    sequences(ck)
    schemas(ck)
    ip_objects(ck)
    expanding(ck)
    int_lists(ck)
    variable_names(ck)
    placement(ck)
    itemize(ck)
