"""C04: dynamic path items. Enumerates histories of records carrying key values from
an alphabet of awkward texts, for a set of path shapes, and compares the whole result
structure with a model that keeps "the value last used for a name" explicitly."""
import itertools
import re

from checks.c03 import attr, fmt, place
from mc import obs
from mc.core import Outcome, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of key value histories x path shapes, every history replayed on the parser against a model of path resolution"
ASSUMPTIONS = [
    "a matched text '_' is left out: it has the meaning of the null path item",
    "two nested groups do not use the same variable as path item (the documented search order cannot tell them apart)",
]

VALUES = ["1", "b", "a.b", "x*", "**", "\\1", "\\n", "\\g<0>", "c\\", "{{k}}", "{{j}}", "01", "/x", "é", "²", "[(", "$1", "a"]
SMALL = ["1", "b", "a.b", "x*", "\\n", "{{j}}"]
TINY = ["1", "b", "x*"]

ITEM = re.compile(r"{{\s*(\w+)\s*}}")


class Model:
    def __init__(self, variables, to_int):
        self.vars = variables
        self.to_int = to_int
        self.last = {}
        self.root = {}
        self.lost = False

    def resolve(self, path, rec):
        out = []
        for item in path:
            name, f = fmt(item)
            parts, pos = [], 0
            got = {}
            for m in ITEM.finditer(name):
                k = m.group(1)
                if k in rec:
                    got[k] = rec.pop(k)
                    self.last[k] = got[k]
                if k in self.last:
                    v = self.last[k]
                elif k in self.vars:
                    v = self.vars[k]
                else:
                    return None
                parts += [name[pos:m.start()], str(v)]
                pos = m.end()
            key = "".join(parts) + name[pos:]
            if self.to_int and key and all(c in "0123456789" for c in key):
                key = int(key)
            out.append((key, f))
        return out

    def save(self, path, rec):
        rec = dict(rec)
        p = self.resolve(path, rec)
        if p is not None:
            put(self.root, p, rec)


def put(root, path, rec):
    """place() of C03 for resolved keys, which are never split or stripped again"""
    cur = root
    for name, f in path[:-1]:
        if name == "_":
            continue
        if name not in cur:
            cur[name] = [{}] if f == "*" else {}
        cur = cur[name]
        if isinstance(cur, list):
            if not cur:
                cur.append({})
            cur = cur[-1]
    name, f = path[-1]
    if name == "_":
        cur.update(rec)
    elif name not in cur:
        cur[name] = ([rec] if rec else []) if f == "*" else rec
    elif isinstance(cur[name], list):
        if rec:
            cur[name].append(rec)
    elif f == "**":
        for k, v in rec.items():
            cur[name].setdefault(k, v)
    elif not cur[name]:
        cur[name] = rec
    else:
        cur[name] = [cur[name], rec]


ONE = ["{{ k }}", "a.{{ k }}", "{{ k }}.b", "a.x{{ k }}y", "a.{{ k }}_{{ k }}", "a*.{{ k }}", "a**.{{ k }}", "a.{{ k }}*", "a.{{ k }}**",
       "{{ k }}*", "{{ k }}**", "{{ k }}.{{ j }}", "{{ j }}.{{ k }}", "{{ k }}/{{ j }}", "{{k}}-{{j}}", "_.{{ k }}", "a._.{{ k }}", "a.{{ k }}.b*",
       "{{ k }}*.b**", "{{ k }}**.{{ j }}**", "/{{ k }}", "/a.{{ k }}", "{{k}}", "a.{{k }}.{{ k}}", "{{ k }}.k", "k.{{ k }}", "{{ k }}._", "{{ k }}.{{ v }}", "{{ v }}.{{ k }}*", "a*b.{{ k }}", "{{ k }}.a*b", "{{ k }}*x.a**b*"]


def one_level(ck):
    """records with both keys on the start line"""

    def cases():
        for shape in ONE:
            for to_int in (False, True):
                vals = VALUES if "j" not in shape else SMALL
                js = ["p", "1"] if "j" in shape else ["p"]
                for first in itertools.product(vals, js):
                    yield shape, to_int, first, vals, js

    def fn(case):
        shape, to_int, first, vals, js = case
        tpl = '<vars>\nv = "V.1*"\n</vars>\n<group name="%s">\nrec {{ k }} {{ j }} {{ n }}\n</group>' % shape
        path = shape.lstrip("/").split(".")
        tail = list(itertools.product(vals, js))
        if not ck.thorough and len(tail) > 12:
            third = [(v, j) for v, j in tail if v in TINY]
        else:
            third = tail
        seqs = [(first,)] + [(first, b) for b in tail] + [(first, b, c) for b in tail for c in third]
        if ck.thorough:
            seqs += [(first, b, c, d) for b in tail for c in third for d in [(v, j) for v, j in tail if v in TINY]]
        datas = ["\n".join("rec %s %s %d" % (k, j, i) for i, (k, j) in enumerate(s)) for s in seqs]
        outs, states = [], set()
        for lo in range(0, len(seqs), 300):
            got = obs.run_batch(tpl, datas[lo:lo + 300], dynamic_path_key_to_int=to_int)
            for s, d, g in zip(seqs[lo:lo + 300], datas[lo:lo + 300], got):
                m = Model({"v": "V.1*"}, to_int)
                for i, (k, j) in enumerate(s):
                    m.save(path, {"k": k, "j": j, "n": str(i)})
                    states.add(h((shape, to_int, m.root)))
                obs.expect(g, m.root, tpl, d, "dynamic_path_key_to_int=%s" % to_int)
                outs.append(g)
        return Outcome(outs, states=states, transitions=sum(map(len, seqs)), count=len(seqs))

    ck.explore("one level", cases, fn, "%d path shapes x key to int x all sequences of up to 3 records over %d key texts" % (len(ONE), len(VALUES)))


# lines of the two level template: text pattern, group, variables
INNER = ["b", "b*", "{{ c }}", "b.{{ c }}", "b.{{ c }}*", "b*.{{ c }}", "b**.{{ c }}**", "_.{{ c }}", "/z.{{ k }}", "/z.{{ c }}.{{ k }}", "/z.{{ k }}*", "b.{{ v }}", "b.{{ k }}x", "{{ c }}.{{ k }}", "_", None]
OUTER = ["{{ k }}", "a.{{ k }}", "a.{{ k }}*", "a.{{ k }}**", "a*.{{ k }}", "{{ k }}.o", "a.{{ k }}.{{ v }}", "{{ k }}*.o*"]


def norm_path(name, parent):
    if name is None:
        return list(parent)
    if name.startswith("/"):
        return name[1:].split(".")
    return parent + name.split(".")


def two_levels(ck):
    """nested groups that inherit the key of the enclosing record; lines of the parent after the child"""

    def cases():
        for o in OUTER:
            for i in INNER:
                for to_int in (False, True):
                    for conv in (False, True):
                        if conv and (to_int or "c" not in (i or "")):
                            continue
                        yield o, i, to_int, conv

    def fn(case):
        o, i, to_int, conv = case
        tpl = '<vars>\nv = "V.1*"\n</vars>\n<group name="%s">\nrec {{ k%s }} {{ n }}\n opt {{ t }}\n<group%s>\n sub {{ c%s }} {{ m }}\n  more {{ w }}\n</group>\n</group>' % (
            o, " | to_int" if conv else "", attr(i), " | to_int" if conv else "")
        po = o.split(".")
        pi = norm_path(i, po)
        recs = [("rec", v) for v in (TINY if not conv else ["1", "2"])] + [("opt", None)] + [("sub", v) for v in ["1", "a.b"]] + [("more", None)]
        if i is None or i == "_":
            recs = [r for r in recs if r[0] not in ("more", "opt")]
        depth = 5 if ck.thorough else 4
        seqs = [s for n in range(1, depth + 1) for s in itertools.product(recs, repeat=n) if s[0][0] == "rec"]
        texts = []
        for s in seqs:
            lines = []
            for n, (kind, v) in enumerate(s):
                lines.append({"rec": "rec %s %d", "opt": " opt%.0s %d", "sub": " sub %s %d", "more": "  more%.0s %d"}[kind] % (v or "", n))
            texts.append("\n".join(lines))
        outs, states = [], set()
        decided = 0
        for lo in range(0, len(seqs), 300):
            got = obs.run_batch(tpl, texts[lo:lo + 300], dynamic_path_key_to_int=to_int)
            for s, d, g in zip(seqs[lo:lo + 300], texts[lo:lo + 300], got):
                want = play(s, po, pi, to_int, conv)
                decided += 1
                states.add(h((case, want)))
                obs.expect(g, want, tpl, d, "dynamic_path_key_to_int=%s" % to_int)
                outs.append(g)
        return Outcome(outs, states=states, transitions=decided, count=decided)

    ck.explore("two levels", cases, fn, "%d outer x %d inner path shapes x all sequences of up to 4 lines (parent start, parent line, child start, child line)" % (len(OUTER), len(INNER)))


def play(s, po, pi, to_int, conv):
    """collect the records with their nesting, then place them in the order they start"""
    order, cur, child = [], None, None
    for n, (kind, v) in enumerate(s):
        key = int(v) if conv and v is not None and v.isdigit() else v
        if kind == "rec":
            cur, child = {"k": key, "n": str(n)}, None
            order.append((po, cur))
        elif kind == "sub":
            child = {"c": key, "m": str(n)}
            order.append((pi, child))
        elif kind == "opt":
            cur.setdefault("t", str(n))
            child = None
        elif kind == "more" and child is not None:
            child.setdefault("w", str(n))
    m = Model({"v": "V.1*"}, to_int)
    for path, rec in order:
        m.save(path, rec)
    return m.root


def late_keys(ck):
    """keys on lines of their own, before and after nested records"""
    outer = ["{{ k }}", "a.{{ k }}", "a.{{ k }}*", "a.{{ k }}**", "{{ k }}*.o", "a.{{ k }}.{{ v }}", "a"]
    inner = ["b", "b*", "{{ c }}", "b.{{ c }}", "b*.{{ c }}*", "/z.{{ k }}*", "{{ c }}.{{ k }}"]

    def fn(case):
        o, i, twice = case
        tpl = '<vars>\nv = "V.1*"\n</vars>\n<group name="%s">\nrec {{ n }}\n key {{ k }}\n<group%s>\n sub {{ m }}\n  sk {{ c }}\n</group>\n%s</group>' % (o, attr(i), " key2 {{ k }}\n" if twice else "")
        po = o.split(".")
        pi = norm_path(i, po)
        lines = [("rec", None), ("key", "1"), ("key2" if twice else "key", "b.*"), ("sub", None), ("sk", "x")]
        depth = 7 if ck.thorough else 6
        seqs = [s for n in range(1, depth + 1) for s in itertools.product(lines, repeat=n) if s[0][0] == "rec"]
        text = lambda s: "\n".join({"rec": "rec %d" % x, "sub": " sub %d" % x, "sk": "  sk %s" % v}.get(k, " %s %s" % (k, v)) for x, (k, v) in enumerate(s))
        outs, states = [], set()
        for lo in range(0, len(seqs), 300):
            part = seqs[lo:lo + 300]
            for s, g in zip(part, obs.run_batch(tpl, [text(s) for s in part])):
                order, cur, child = [], None, None
                for x, (k, v) in enumerate(s):
                    if k == "rec":
                        cur, child = {"n": str(x)}, None
                        order.append((po, cur))
                    elif k == "sub":
                        child = {"m": str(x)}
                        order.append((pi, child))
                    elif k == "sk":
                        if child is not None:
                            child.setdefault("c", v)
                    else:
                        cur.setdefault("k", v)
                        child = None
                m = Model({"v": "V.1*"}, False)
                for path, rec in order:
                    m.save(path, rec)
                states.add(h((case, m.root)))
                obs.expect(g, m.root, tpl, text(s))
                outs.append(g)
        return Outcome(outs, states=states, transitions=len(seqs), count=len(seqs))

    ck.explore("late keys", lambda: itertools.product(outer, inner, (False, True)), fn,
               "%d outer x %d inner path shapes, keys on lines before or after nested records x all sequences of up to 6 lines" % (len(outer), len(inner)))


def missing(ck):
    """records without the key: last used value, then template variable, then dropped; one and two inputs"""
    shapes = ["a.{{ k }}", "{{ k }}.b", "{{ k }}.{{ j }}", "a.{{ k }}*", "a.{{ j }}.{{ k }}**", "a.{{ k }}/{{ j }}"]

    def cases():
        for shape in shapes:
            for vs in ({}, {"k": "K.v"}, {"k": "\\1*", "j": 7}, {"j": "J"}):
                for keydef in ("{{ k }}", "{{ k | default('D') }}"):
                    for func in ("", ' set="SJ,j"', ' del="k"', ' lookup'):
                        if func == " lookup" or (func and ck.tier == "quick" and shape not in shapes[:4]):
                            continue
                        yield shape, vs, keydef, func

    def fn(case):
        shape, vs, keydef, func = case
        tpl = '<group name="%s"%s>\nrec {{ n }}\n key %s\n jay {{ j }}\n</group>' % (shape, func, keydef)
        path = shape.split(".")
        lines = [("rec", None), ("key", "1"), ("key", "b.*"), ("jay", "q")]
        depth = 6 if ck.thorough else 5
        seqs = [s for n in range(1, depth + 1) for s in itertools.product(lines, repeat=n) if s[0][0] == "rec"]

        def text(s):
            return "\n".join({"rec": "rec %d" % i, "key": " key %s" % v, "jay": " jay %s" % v}[k] for i, (k, v) in enumerate(s))

        def play(s):
            m = Model(vs, False)
            recs = []
            for i, (k, v) in enumerate(s):
                if k == "rec":
                    recs.append({"n": str(i)})
                else:
                    recs[-1].setdefault({"key": "k", "jay": "j"}[k], v)
            for r in recs:
                if "default" in keydef:
                    r.setdefault("k", "D")
                if "set" in func:
                    r["j"] = "SJ"
                if "del" in func:
                    r.pop("k", None)
                m.save(path, r)
            return m.root

        outs, states = [], set()
        for lo in range(0, len(seqs), 300):
            part = seqs[lo:lo + 300]
            got = obs.run_batch(tpl, [text(s) for s in part], vars=dict(vs))
            for s, g in zip(part, got):
                w = play(s)
                states.add(h((case, w)))
                obs.expect(g, w, tpl, text(s), "vars=%r" % vs)
                outs.append(g)
        return Outcome(outs, states=states, transitions=len(seqs), count=len(seqs))

    ck.explore("missing keys", cases, fn, "%d shapes x variables x defaults x group functions x all sequences of up to 5 lines, all in one parser (no carry over between inputs)" % len(shapes))


def two_groups(ck):
    """two top groups using the same key name, one of them may lack it"""
    shapes = [("a.{{ k }}", "b.{{ k }}"), ("a.{{ k }}", "a.{{ k }}"), ("{{ k }}.x", "{{ k }}.y"), ("a.{{ k }}*", "a.{{ k }}.c"), ("a.{{ k }}.c*", "a.{{ k }}.c*"), ("a.{{ k }}**", "a.{{ k }}**"), ("{{ k }}", "z.{{ k }}.{{ j }}")]

    def fn(case):
        p, q = case
        tpl = '<group name="%s">\nfoo {{ k }} {{ n }}\n</group>\n<group name="%s">\nbar {{ k }} {{ j }} {{ n }}\nbaz {{ n | _start_ }}\n</group>' % (p, q)
        lines = [("foo", "1"), ("foo", "b"), ("bar", "1"), ("bar", "x*"), ("baz", None)]
        depth = 6 if ck.thorough else 5
        outs, states, count = [], set(), 0
        seqs = [s for n in range(1, depth + 1) for s in itertools.product(lines, repeat=n)]

        def text(s):
            return "\n".join({"foo": "foo %s %d" % (v, i), "bar": "bar %s J %d" % (v, i), "baz": "baz %d" % i}[k] for i, (k, v) in enumerate(s))

        for lo in range(0, len(seqs), 300):
            part = seqs[lo:lo + 300]
            for s, g in zip(part, obs.run_batch(tpl, [text(s) for s in part])):
                # groups are processed one after the other, in template order
                m = Model({}, False)
                for i, (k, v) in enumerate(s):
                    if k == "foo":
                        m.save(p.split("."), {"k": v, "n": str(i)})
                for i, (k, v) in enumerate(s):
                    if k == "bar":
                        m.save(q.split("."), {"k": v, "j": "J", "n": str(i)})
                    elif k == "baz":
                        m.save(q.split("."), {"n": str(i)})
                states.add(h((case, m.root)))
                obs.expect(g, m.root, tpl, text(s))
                outs.append(g)
                count += 1
        return Outcome(outs, states=states, transitions=count, count=count)

    ck.explore("two groups", lambda: shapes, fn, "all sequences of up to 5 records of two groups sharing a key name")


NAMES = ["k", "k1", "kk", "K", "_k", "if-name", "name-if", "k:v", "1k", "k/v", "k+", "\u00e9k", "vars", "name", "path", "k_", "[k]", "$k"]


def names(ck):
    """keys of any name are replaced, whatever other names they are part of"""

    def cases():
        # names of one line that are the same once made identifiers are not supported
        for a, b in itertools.permutations(NAMES, 2):
            if re.sub(r"\W+|^(?=\d)", "_", a) != re.sub(r"\W+|^(?=\d)", "_", b):
                yield a, b

    def fn(case):
        a, b = case
        n = 0
        for path, keys in (("g.{{ %s }}.{{ %s }}*" % (a, b), "xy"), ("g.{{%s}}-{{%s}}*" % (b, a), None), ("g.{{ %s }}*" % b, "y")):
            tpl = '<group name="%s">\nrec {{ %s }} {{ %s }} {{ n }}\n</group>' % (path, a, b)
            text = "rec x y 1\nrec x y 2"
            recs = [{"n": "1"}, {"n": "2"}]
            if keys == "xy":
                want = {"g": {"x": {"y": recs}}}
            elif keys == "y":
                want = {"g": {"y": [dict(r, **{a: "x"}) for r in recs]}}
            else:
                want = {"g": {"y-x": recs}}
            obs.expect(obs.run1(tpl, text), want, tpl, text)
            n += 1
        return Outcome(h(case), transitions=2 * n, count=n)

    ck.explore("names", cases, fn, "all ordered pairs of %d names of key variables in three path shapes" % len(NAMES))


TYPED = [0, 1, -1, 0.0, 2.5, True, "", " ", "  x ", "0", "00", "None", "False", (1, 2), [3], {"k": 1}]


def values(ck):
    """keys that are no strings, or falsy, or blank; records without the key in between"""

    def cases():
        for shape in ("g.{{ k }}", "g.{{ k }}*", "{{ k }}.x", "g.a{{ k }}b"):
            for default in (None, "0", "''", "' '", "False"):
                for i in range(len(TYPED)):
                    yield shape, default, i

    def fn(case):
        shape, default, i = case
        tpl = "<macro>\nT = %r\ndef typed(d):\n    return %r[int(d)]\n</macro>\n<group name=\"%s\">\nrec {{ n }}\n key {{ k%s | macro('typed') }}\n</group>" % (
            0, TYPED, shape, "" if default is None else " | default(%s)" % default)
        dflt = {None: None, "0": 0, "''": "", "' '": " ", "False": False}[default]
        alphabet = [None] + list(range(len(TYPED)))
        seqs = [(i,)] + [(i, b) for b in alphabet] + [(i, b, c) for b in ([None, 0, 6, 7, 9] if not ck.thorough else alphabet) for c in alphabet]
        texts = ["\n".join("rec %d" % j + ("" if v is None else "\n key %d" % v) for j, v in enumerate(s)) for s in seqs]
        outs, states = [], set()
        for s, d, g in zip(seqs, texts, obs.run_batch(tpl, texts)):
            m = Model({}, False)
            for j, v in enumerate(s):
                rec = {"n": str(j)}
                # a macro that returns True keeps the matched text
                if v is not None:
                    rec["k"] = str(v) if TYPED[v] is True else TYPED[v]
                elif default is not None:
                    rec["k"] = dflt
                m.save(shape.split("."), rec)
            states.add(h((case, m.root)))
            obs.expect(g, m.root, tpl, d)
            outs.append(g)
        return Outcome(outs, states=states, transitions=sum(map(len, seqs)), count=len(seqs))

    ck.explore("values", cases, fn, "4 path shapes x defaults x all sequences of up to 3 records over %d key values of other types, falsy or blank" % len(TYPED))


def check(ck):
    values(ck)
    names(ck)
    one_level(ck)
    two_levels(ck)
    late_keys(ck)
    missing(ck)
    two_groups(ck)
