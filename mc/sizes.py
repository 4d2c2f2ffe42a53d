"""Sizes: for every dimension a property ranges over (records, lines, groups,
functions, items, columns, depths ...) every count of a fixed list is run, far
beyond the small scopes of the other sections, where the expected results follow
from the count. Catches what needs an eleventh element, two digits, a table that
outgrows a constant or a recursion."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import env, obs
from .core import Outcome, Violation, h

SMALL = list(range(1, 14)) + [16, 17, 20, 21, 31, 32, 33]
MID = SMALL + [64, 65, 99, 100, 101, 110, 127, 128, 129]
BIG = MID + [200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1024, 1025]
HUGE = BIG + [2000, 4095, 4096, 4097, 5000, 9999, 10000, 10001]
DIMS = {}


def dim(pid, name, ns):
    def deco(fn):
        DIMS.setdefault(pid, {})[name] = (fn, ns)
        return fn
    return deco


def check(template, data, want, note="", **kw):
    """one parser, results of all the items of the only template"""
    got = obs.attempt(obs.run, template, data, **kw)
    obs.expect(got, [want], template[:2000], repr(data)[:2000], note)
    return got


def explore(ck):
    dims = DIMS.get(ck.pid)
    if not dims:
        return

    def cases():
        # counts of a dimension in steps, so that work is spread evenly
        for d in dims:
            for n in dims[d][1]:
                if ck.thorough or n <= 1100:
                    yield (d, n)

    def one(case):
        d, n = case
        got = dims[d][0](n)
        return Outcome(h((d, got)), True, transitions=n)

    ck.explore("sizes", cases, one, rule="every count of a list (1..13 and on) for: " + ", ".join(dims))


def recs(n, f):
    return [f(k) for k in range(n)]


# ------------------------------------------------------------ C01
@dim("C01", "variables of a line", MID)
def c01_vars(n):
    tpl = "k " + " ".join("{{ v%d }}" % k for k in range(n))
    return check(tpl, ["k " + " ".join("w%d" % k for k in range(n)), "k " + " ".join("w%d" % k for k in range(n - 1)) + "x", "k " + " ".join("w%d" % k for k in range(n + 1))],
                 [{"v%d" % k: "w%d" % k for k in range(n)}, {} if n > 1 else {"v0": "x"}, {}])


@dim("C01", "words of a line", BIG)
def c01_words(n):
    words = ["w%s" % chr(97 + k % 26) for k in range(n)]
    return check(" ".join(words) + " {{ v }}", [" ".join(words) + " 1", " ".join(words[:-1] + ["w"]) + " 1"], [{"v": "1"}, {}])


@dim("C01", "blanks between words", BIG)
def c01_blanks(n):
    tpl = "<group name='g*'>\na b {{ v }}\nc d {{ w | _exact_space_ | _start_ }}\n</group>"
    return check(tpl, "a" + " " * n + "b" + "\t" * n + "1\nc" + " " * n + "d 2\n", [{"g": [{"v": "1"}] + ([{"w": "2"}] if n == 1 else [])}])


@dim("C01", "indentation", MID)
def c01_indent(n):
    tpl = "<group>\n%sa {{ v | _start_ }}\n</group>" % (" " * n)
    return check(tpl, "%sa 1\n%sa 2\n%sa 3\na 4\n" % (" " * n, " " * (n + 1), " " * (n - 1)), [[{"v": "1"}]])


@dim("C01", "digits", BIG)
def c01_digits(n):
    tpl = "<group>\np7 {{ v }}\n</group>"
    return check(tpl, "p" + "8" * n + " 1\np" + "9" * n + "x 2\n", [[{"v": "1"}]])


@dim("C01", "characters of a value", HUGE)
def c01_value(n):
    return check("a {{ v }} {{ w | PHRASE }} b", "a " + "x" * n + " " + "y " * n + "z b", [{"v": "x" * n, "w": "y " * n + "z"}])


@dim("C01", "lines of a template", BIG)
def c01_lines(n):
    tpl = "<group name='g*'>\n" + "\n".join("k%s {{ v | _start_ }}" % letters(k) for k in range(n)) + "\n</group>"
    return check(tpl, "\n".join("k%s %d" % (letters(k), k) for k in range(n)), [{"g": recs(n, lambda k: {"v": str(k)})}])


def letters(k):
    s = ""
    while True:
        s += chr(97 + k % 26)
        k //= 26
        if not k:
            return s + "z"


# ------------------------------------------------------------ C02
@dim("C02", "records", BIG)
def c02_records(n):
    tpl = "<group name='g*'>\ni {{ i }}\n a {{ a }}\n b {{ b }}\n</group>"
    return check(tpl, "".join("i %d\n b %d\n a %d\n" % (k, k + 1, k + 2) for k in range(n)), [{"g": recs(n, lambda k: {"i": str(k), "b": str(k + 1), "a": str(k + 2)})}])


@dim("C02", "nested records", MID)
def c02_children(n):
    tpl = "<group name='g*'>\ni {{ i }}\n<group name='c*'>\n c {{ c }}\n  v {{ v }}\n</group>\n z {{ z }}\n</group>"
    data = "".join("i %d\n" % k + "".join(" c %d\n  v %d\n" % (j, j * 2) for j in range(n)) + " z %d\n" % k for k in range(3))
    return check(tpl, data, [{"g": recs(3, lambda k: {"i": str(k), "c": recs(n, lambda j: {"c": str(j), "v": str(j * 2)}), "z": str(k)})}])


@dim("C02", "lines of a record", BIG)
def c02_lines(n):
    tpl = "<group name='g*'>\ni {{ i }}\n" + "".join(" %s {{ v%d }}\n" % (letters(k), k) for k in range(n)) + "</group>"
    data = "".join("i %d\n" % r + "".join(" %s %d\n" % (letters(k), k) for k in reversed(range(n))) for r in range(2))
    return check(tpl, data, [{"g": recs(2, lambda r: dict({"v%d" % k: str(k) for k in range(n)}, i=str(r)))}])


@dim("C02", "unmatched lines", HUGE)
def c02_noise(n):
    tpl = "<group name='g*'>\ni {{ i }}\n a {{ a }}\n</group>"
    return check(tpl, "noise\n" * n + "i 1\n" + " noise\n" * n + " a 2\n" + "a 3\n" * n + "i 4\n" + "\n" * n + " a 5\n", [{"g": [{"i": "1", "a": "2"}, {"i": "4", "a": "5"}]}])


@dim("C02", "top groups", MID)
def c02_tops(n):
    tpl = "".join("<group name='g%d*'>\n%s {{ i }}\n v {{ v }}\n</group>\n" % (k, letters(k)) for k in range(n))
    data = "".join("%s %d\n v %d\n" % (letters(k), k, k) for _ in range(2) for k in range(n))
    # the lines of a value are the same in all the groups: those of the other
    # groups stand after the record and are not its first ones
    return check(tpl, data, [{"g%d" % k: [{"i": str(k), "v": str(k)}] * 2 for k in range(n)}])


@dim("C02", "sibling groups", MID)
def c02_siblings(n):
    tpl = "<group name='p*'>\np {{ p }}\n" + "".join("<group name='g%d*'>\n %s {{ i }}\n  v {{ v }}\n</group>\n" % (k, letters(k)) for k in range(n)) + "</group>"
    data = "".join("p %d\n" % r + "".join(" %s %d\n  v %d\n" % (letters(k), k, k + r) for k in range(n)) for r in range(2))
    return check(tpl, data, [{"p": recs(2, lambda r: dict({"g%d" % k: [{"i": str(k), "v": str(k + r)}] for k in range(n)}, p=str(r)))}])


@dim("C02", "nesting", list(range(1, 14)) + [16, 20, 30])
def c02_depth(n):
    tpl, end = "", ""
    for k in range(n):
        tpl += "<group name='g%d*'>\n%ss%s {{ s }}\n%sv%s {{ v }}\n" % (k, " " * k, letters(k), " " * k, letters(k))
        end += "</group>\n"
    data = ("".join("%ss%s %d\n" % (" " * k, letters(k), k) for k in range(n)) + "".join("%sv%s %d\n" % (" " * k, letters(k), k) for k in reversed(range(n)))) * 2
    w = None
    for k in reversed(range(n)):
        w = {"s": str(k), "v": str(k), **({"g%d" % (k + 1): [w]} if w else {})}
    return check(tpl + end, data, [{"g0": [w, w]}])


@dim("C02", "ends", BIG)
def c02_ends(n):
    tpl = "<group name='g*'>\ni {{ i }}\n a {{ a }}\nend {{ _end_ }}\n</group>"
    return check(tpl, "".join("i %d\n a %d\nend\n a X\n" % (k, k) for k in range(n)) + "end\n" * n, [{"g": recs(n, lambda k: {"i": str(k), "a": str(k)})}])


# ------------------------------------------------------------ C03
@dim("C03", "path items", MID)
def c03_path(n):
    tpl = "<group name='%s'>\ni {{ i }}\n</group>" % ".".join("p%d" % k for k in range(n))
    for m in (1, 2, 3):
        w = [{"i": str(k)} for k in range(m)] if m > 1 else {"i": "0"}
        for k in reversed(range(n)):
            w = {"p%d" % k: w}
        r = check(tpl, "".join("i %d\n" % k for k in range(m)), [w])
    return r


@dim("C03", "records of a path", BIG)
def c03_records(n):
    data = "".join("i %d\n" % k for k in range(n))
    rs = recs(n, lambda k: {"i": str(k)})
    out = []
    for name, w in (("a.b", {"a": {"b": rs if n > 1 else rs[0]}}), ("a.b*", {"a": {"b": rs}}), ("a*.b", {"a": [{"b": rs if n > 1 else rs[0]}]}), (None, rs)):
        out.append(check("<group%s>\ni {{ i }}\n</group>" % (" name='%s'" % name if name else ""), data, [w]))
    return out


@dim("C03", "groups", MID)
def c03_groups(n):
    tpl = "".join("<group name='p.g%d'>\n%s {{ i }}\n</group>\n" % (k, letters(k)) for k in range(n))
    return check(tpl, "".join("%s %d\n" % (letters(k), k) for k in range(n)), [{"p": {"g%d" % k: {"i": str(k)} for k in range(n)}}])


@dim("C03", "children of records", SMALL)
def c03_children(n):
    tpl = "<group name='a'>\ni {{ i }}\n<group name='c'>\n c {{ c }}\n</group>\n<group name='/x.y'>\n y {{ y }}\n</group>\n</group>"
    data = "".join("i %d\n c %d\n y %d\n c %d\n" % (k, k, k, k + 1) for k in range(n))
    rs = recs(n, lambda k: {"i": str(k), "c": [{"c": str(k)}, {"c": str(k + 1)}]})
    ys = recs(n, lambda k: {"y": str(k)})
    return check(tpl, data, [{"a": rs if n > 1 else rs[0], "x": {"y": ys if n > 1 else ys[0]}}])


# ------------------------------------------------------------ C04
@dim("C04", "keys", BIG)
def c04_keys(n):
    tpl = "<group name='g.{{ k }}'>\ni {{ k }}\n v {{ v }}\n</group>"
    data = "".join("i k.%d*\n v %d\n" % (k, k) for k in range(n)) + "".join("i %d\n v %d\n" % (k, k) for k in range(n))
    w = {"k.%d*" % k: {"v": str(k)} for k in range(n)}
    return check(tpl, data, [{"g": dict(w, **{str(k): {"v": str(k)} for k in range(n)})}])


@dim("C04", "records of a key", MID)
def c04_same(n):
    tpl = "<group name='g.{{ k }}*'>\ni {{ k }} {{ v }}\n</group>"
    data = "".join("i a %d\ni b %d\n" % (k, -k) for k in range(n))
    return check(tpl, data, [{"g": {"a": recs(n, lambda k: {"v": str(k)}), "b": recs(n, lambda k: {"v": str(-k)})}}])


@dim("C04", "items of a path", SMALL)
def c04_items(n):
    tpl = "<group name='%s'>\ni %s {{ v }}\n</group>" % (".".join("{{ k%d }}" % k for k in range(n)), " ".join("{{ k%d }}" % k for k in range(n)))
    data = "".join("i %s %d\n" % (" ".join("x%d" % k if k < n - 1 else "y%d" % r for k in range(n)), r) for r in range(3))
    w = {"y%d" % r: {"v": str(r)} for r in range(3)}
    for k in reversed(range(n - 1)):
        w = {"x%d" % k: w}
    return check(tpl, data, [w])


@dim("C04", "digits of a key", BIG)
def c04_int(n):
    tpl = "<group name='g.{{ k }}'>\ni {{ k }}\n v {{ v }}\n</group>"
    return check(tpl, "i %s\n v 1\n" % ("9" * n), [{"g": {"9" * n: {"v": "1"}}}])


# ------------------------------------------------------------ C05
@dim("C05", "defaults of a group", BIG)
def c05_defaults(n):
    tpl = "<group name='g*'>\ni {{ i }}\n" + "".join(" %s {{ v%d | default('d%d') }}\n" % (letters(k), k, k) for k in range(n)) + " s {{ s }}\n{{ u | set('c') }}\n</group>"
    data = "i 1\n" + "".join(" %s %d\n" % (letters(k), k) for k in range(0, n, 2)) + "i 2\n"
    return check(tpl, data, [{"g": [dict({"v%d" % k: "d%d" % k if k % 2 else str(k) for k in range(n)}, i="1", u="c"), dict({"v%d" % k: "d%d" % k for k in range(n)}, i="2", u="c")]}])


@dim("C05", "records with defaults", BIG)
def c05_records(n):
    tpl = "<group name='g*' default='D'>\ni {{ i }}\n a {{ a }}\n<group name='c*'>\n c {{ c }}\n  v {{ v | default([]) }}\n</group>\n</group>"
    data = "".join("i %d\n c %d\n" % (k, k) + (" a %d\n" % k if k % 3 == 0 else "") for k in range(n))
    return check(tpl, data, [{"g": recs(n, lambda k: {"i": str(k), "a": str(k) if k % 3 == 0 else "D", "c": [{"c": str(k), "v": []}]})}])


@dim("C05", "items with defaults", SMALL)
def c05_items(n):
    tpl = "<group name='g'>\ni {{ i | default('none') }}\n a {{ a | default('x') }}\n</group>"
    return check(tpl, [("i %d\n" % k if k % 2 else "noise %d\n" % k) for k in range(n)], [{"g": {"i": str(k), "a": "x"}} if k % 2 else {"g": {"i": "none", "a": "x"}} for k in range(n)])


# ------------------------------------------------------------ C06
@dim("C06", "joined lines", BIG)
def c06_join(n):
    tpl = "<group name='g*'>\ni {{ i }}\n a {{ a | joinmatches }}\n b {{ b | split(',') | joinmatches }}\n c {{ c | to_int | joinmatches }}\n d {{ d | joinmatches('--') }}\n e {{ e }}\n</group>"
    data = "".join("i %d\n" % r + "".join(" a %d\n b %d,x\n c %d\n d %d\n e %d\n" % (k, k, k, k, k) for k in range(n)) for r in range(2))
    w = {"a": "\n".join(map(str, range(n))), "b": [x for k in range(n) for x in (str(k), "x")], "c": list(range(n)) if n > 1 else 0, "d": "--".join(map(str, range(n))), "e": "0"}
    return check(tpl, data, [{"g": recs(2, lambda r: dict(w, i=str(r)))}])


@dim("C06", "free lines", BIG)
def c06_line(n):
    tpl = "<group name='g*'>\ni {{ i }}\n{{ t | _line_ | joinmatches('~') }}\n a {{ a }}\nend {{ _end_ }}\n</group>"
    data = "".join("i %d\n" % r + "".join(" free text %d\n" % k for k in range(n)) + " a %d\n" % r + "last %d\nend\nfree\n" % r for r in range(2))
    return check(tpl, data, [{"g": recs(2, lambda r: {"i": str(r), "a": str(r), "t": "~".join([" free text %d" % k for k in range(n)] + ["last %d" % r])})}])


# ------------------------------------------------------------ C07
@dim("C07", "functions of a variable", BIG)
def c07_funcs(n):
    fs = ["append('%s')" % (k % 10) for k in range(n)]
    w = "v" + "".join(str(k % 10) for k in range(n))
    check("a {{ a | %s }}" % " | ".join(fs), "a v", [{"a": w}])
    check("<vars>\nf = %r\n</vars>\n<group>\na {{ a | chain('f') }}\n</group>" % fs, "a v", [[{"a": w}]])
    return check("a {{ a | %s | equal('%s') | let('z', '1') }}" % (" | ".join(fs), w), "a v", [{"a": w, "z": "1"}])


@dim("C07", "new fields", MID)
def c07_fields(n):
    return check("a {{ a | %s }}" % " | ".join("let('f%d', 'x%d')" % (k, k) for k in range(n)), "a v", [dict({"f%d" % k: "x%d" % k for k in range(n)}, a="v")])


@dim("C07", "checks", MID)
def c07_checks(n):
    tpl = "<group name='g*'>\na {{ a | %s }}\n b {{ b }}\n</group>" % " | ".join("notequal('%d')" % k for k in range(n))
    return check(tpl, "".join("a %d\n b x\n" % k for k in range(n + 1)), [{"g": [{"a": str(n), "b": "x"}]}])


# ------------------------------------------------------------ C08
@dim("C08", "functions of a group", MID)
def c08_funcs(n):
    tpl = "<group name='g*' functions=\"%s\">\ni {{ i }}\n</group>" % " | ".join("sformat('{%s}x', 'v%d')" % ("i" if k == 0 else "v%d" % (k - 1), k) for k in range(n))
    return check(tpl, "i 1\ni 2\n", [{"g": recs(2, lambda r: dict({"v%d" % k: str(r + 1) + "x" * (k + 1) for k in range(n)}, i=str(r + 1)))}])


@dim("C08", "records filtered", BIG)
def c08_records(n):
    tpl = "<group name='g*' equal='a, b' del='a'>\ni {{ i }}\n a {{ a }}\n</group>"
    return check(tpl, "".join("i %d\n a %s\n" % (k, "abc"[k % 3]) for k in range(n + 1)), [{"g": [{"i": str(k)} for k in range(n + 1) if k % 3 == 1]}])


@dim("C08", "keys of a function", MID)
def c08_keys(n):
    names = ["v%d" % k for k in range(n)]
    lines = "".join(" %s {{ v%d }}\n" % (letters(k), k) for k in range(n))
    data = "".join("i %d\n" % r + "".join(" %s %d\n" % (letters(k), k) for k in range(n - r)) for r in range(2))
    out = []
    for fun, keep, f in (("containsall", 1, None), ("contains", 2 if n > 1 else 1, None), ("excludeall", 1, "last"), ("exclude", 0 if n > 1 else 1, "last"), ("del", 2, "del"), ("to_int", 2, "int")):
        tpl = "<group name='g*' %s=\"%s\">\ni {{ i }}\n%s</group>" % (fun, ", ".join(names), lines)
        rs = recs(2, lambda r: dict({"v%d" % k: str(k) for k in range(n - r)}, i=str(r)))
        if fun in ("containsall",):
            w = rs[:1]
        elif fun == "contains":
            w = rs if n > 1 else rs[:1]
        elif fun == "excludeall":
            w = rs[1:]
        elif fun == "exclude":
            w = [] if n > 1 else rs[1:]
        elif fun == "del":
            w = [{"i": r["i"]} for r in rs]
        else:
            w = [{k: int(v) if k != "i" else v for k, v in r.items()} for r in rs]
        out.append(check(tpl, data, [{"g": w} if w else {}], note=fun))
    return out


@dim("C08", "depth of expand", SMALL)
def c08_expand(n):
    name = ".".join("x%d" % k for k in range(n)) + ".leaf"
    tpl = "<group name='g*' functions=\"sformat('{i}', '%s') | expand\">\ni {{ i }}\n</group>" % name
    w = "1"
    for x in reversed(name.split(".")):
        w = {x: w}
    return check(tpl, "i 1\n", [{"g": [dict(w, i="1")]}])


# ------------------------------------------------------------ C09
@dim("C09", "ranges and lists", BIG)
def c09_ranges(n):
    nums = ",".join(map(str, range(1, n + 1)))
    check("a {{ a | unrange(rangechar='-', joinchar=',') }}", "a 1-%d" % n, [{"a": nums}])
    check("a {{ a | unrange(rangechar='-', joinchar=',') }}", "a " + ",".join("%d-%d" % (10 * k, 10 * k + 1) for k in range(n)), [{"a": ",".join("%d,%d" % (10 * k, 10 * k + 1) for k in range(n))}])
    check("a {{ a | split(',') }}", "a " + nums, [{"a": nums.split(",")}])
    check("a {{ a | split(',') | item(%d) }}" % (n - 1), "a " + nums, [{"a": str(n)}])
    check("a {{ a | split(',') | item(%d) }}" % -n, "a " + nums, [{"a": "1"}])
    check("a {{ a | replaceall('', 'x') | append('e') | prepend('p') }}", "a " + "xy" * n, [{"a": "p" + "y" * n + "e"}])
    check("a {{ a | truncate(%d) }}" % n, "a q", [{"a": "q"}])
    check("a {{ a | to_int }}", "a " + "9" * n, [{"a": int("9" * n)}])
    check("a {{ a | is_digit }}", "a " + "9" * n, [{"a": "9" * n}])
    return check("a {{ a | join('-') }}", "a " + "z" * n, [{"a": "-".join("z" * n)}])


# ------------------------------------------------------------ C10
@dim("C10", "macros in a chain", MID)
def c10_chain(n):
    macros = "<macro>\n" + "".join("def m%d(data):\n    return %s\n" % (k, "None" if k % 5 == 1 else "True" if k % 5 == 2 else "data + '%d'" % (k % 10)) for k in range(n)) + "</macro>\n"
    w = "v" + "".join(str(k % 10) for k in range(n) if k % 5 not in (1, 2))
    check(macros + "<group>\na {{ a | %s }}\n</group>" % " | ".join("macro('m%d')" % k for k in range(n)), "a v", [[{"a": w}]])
    gm = "<macro>\n" + "".join("def m%d(data):\n    %s\n" % (k, "return None" if k % 5 == 1 else "return True" if k % 5 == 2 else "return dict(data, a=data['a'] + '%d')" % (k % 10)) for k in range(n)) + "</macro>\n"
    check(gm + "<group macro=\"%s\">\na {{ a }}\n</group>" % ", ".join("m%d" % k for k in range(n)), "a v", [[{"a": w}]])
    im = "<macro>\n" + "".join("def m%d(data):\n    return %s\n" % (k, "None" if k % 5 == 1 else "True" if k % 5 == 2 else "data + '\\na %d'" % (k % 10)) for k in range(n)) + "</macro>\n"
    tpl = im + "<input load='text' macro=\"%s\">\na v\n</input>\n<group name='g*'>\na {{ a }}\n</group>" % ", ".join("m%d" % k for k in range(n))
    return check(tpl, None, [{"g": [{"a": x} for x in w]}])


@dim("C10", "macro tags", MID)
def c10_tags(n):
    macros = "".join("<macro>\ndef m%d(data):\n    return data + '%d'\n\ndef same(data):\n    return '%d'\n</macro>\n" % (k, k % 10, k) for k in range(n))
    return check(macros + "<group>\na {{ a | %s }} {{ b | macro('same') }}\n</group>" % " | ".join("macro('m%d')" % k for k in range(n)), "a v v", [[{"a": "v" + "".join(str(k % 10) for k in range(n)), "b": str(n - 1)}]])


# ------------------------------------------------------------ C11
@dim("C11", "entries of a table", BIG)
def c11_entries(n):
    tpl = "<lookup name='t' load='csv'>\nk,v\n%s\n</lookup>\n<group name='g*'>\na {{ a | lookup('t', add_field='f') }}\n</group>" % "\n".join("k%d,v%d" % (k, k) for k in range(n))
    return check(tpl, "".join("a k%d\n" % k for k in range(n + 1)), [{"g": recs(n, lambda k: {"a": "k%d" % k, "f": {"v": "v%d" % k}}) + [{"a": "k%d" % n}]}])


@dim("C11", "keys looked for in a value", BIG)
def c11_rlookup(n):
    tpl = "<lookup name='t' load='ini'>\n[r]\n%s\n</lookup>\n<group name='g*'>\na {{ a | rlookup('t.r', add_field='f') }}\n</group>" % "\n".join("-%s- = v%d" % (letters(k), k) for k in range(n))
    return check(tpl, "".join("a x-%s-y\n" % letters(k) for k in range(n + 1)), [{"g": recs(n, lambda k: {"a": "x-%s-y" % letters(k), "f": "v%d" % k}) + [{"a": "x-%s-y" % letters(n)}]}])


@dim("C11", "keys of patterns", MID)
def c11_gpv(n):
    tpl = "<lookup name='t' load='python'>\n%r\n</lookup>\n<group name='g*'>\na {{ a | gpvlookup('t', multimatch=True, add_field='all') | gpvlookup('t', add_field='one') }}\n</group>" % {"k%d" % k: ["no*", "x%d-*" % (k % 3)] for k in range(n)}
    return check(tpl, "a x0-1\na x1-1\n", [{"g": recs(2, lambda r: dict({"a": "x%d-1" % r}, **({"all": ["k%d" % k for k in range(n) if k % 3 == r], "one": ["k%d" % r]} if n > r else {})))}])


@dim("C11", "depth of a table", SMALL)
def c11_depth(n):
    t = {"k": "v"}
    for k in reversed(range(n)):
        t = {"d%d" % k: t}
    tpl = "<lookup name='t' load='json'>\n%s\n</lookup>\n<group name='g*'>\na {{ a | lookup('t.%s') }}\n</group>" % (json.dumps(t), ".".join("d%d" % k for k in range(n)))
    return check(tpl, "a k\na j\n", [{"g": [{"a": "v"}, {"a": "j"}]}])


# ------------------------------------------------------------ C12
@dim("C12", "items", BIG[:-6])
def c12_items(n):
    tpl = "<vars>\nc = 0\nx = 'X'\n</vars>\n<group name='g*'>\na {{ a | count(var='c', globvar='cg') | record('last') }}\n b {{ b | default('none') }}\n x {{ y | set('x') }}\n</group>"
    data = ["a %d\n" % k + (" b %d\n" % k if k % 3 == 0 else "") + " x\n" for k in range(n)]
    return check(tpl, data, [{"g": [{"a": str(k), "b": str(k) if k % 3 == 0 else "none", "y": "X"}]} for k in range(n)])


@dim("C12", "recorded values", SMALL)
def c12_recorded(n):
    tpl = "<group name='g*'>\na {{ a | %s }}\n b {{ b | set('r%d') }}\n</group>" % (" | ".join("record('r%d')" % k for k in range(n)), n - 1)
    return check(tpl, ["a %d\n b\n" % k if k % 2 == 0 else "a %d\n" % k for k in range(n)], [{"g": [{"a": str(k), "b": str(k)}]} if k % 2 == 0 else {"g": [{"a": str(k)}]} for k in range(n)])


# ------------------------------------------------------------ C13
@dim("C13", "inputs", SMALL + [64, 100, 101])
def c13_inputs(n):
    tpl = "".join("<input name='i%d' load='text'>\nv %d\n</input>\n<group name='g%d*' input='i%d'>\nv {{ v }}\n</group>\n" % (k, k, k, k) for k in range(n)) + "<group name='all*'>\nv {{ v }}\n</group>"
    return check(tpl, None, [{"g%d" % k: [{"v": str(k)}]} for k in range(n)])


@dim("C13", "groups of an input", SMALL + [64, 100, 101])
def c13_groups(n):
    groups = "".join("<group name='g%d*'>\nv {{ v }}\n</group>\n" % k for k in range(n))
    check(groups + "<input load='text'>\nv 1\n</input>", None, [{"g%d" % k: [{"v": "1"}] for k in range(n)}])
    got = check(groups + "<input groups='%s' load='text'>\nv 1\n</input>" % ", ".join("g%d*" % k for k in range(0, n, 2)), None, [{"g%d" % k: [{"v": "1"}] for k in range(0, n, 2)}])
    if list(got[0][0]) != ["g%d" % k for k in range(0, n, 2)]:
        raise Violation("groups do not produce results in template order: %r" % list(got[0][0]))
    return got


@dim("C13", "entries of an input", SMALL + [64])
def c13_entries(n):
    tpl = "".join("<input name='i' load='text' groups='g%d*'>\nv %d\n</input>\n" % (k % 3, k) for k in range(n)) + "".join("<group name='g%d*'>\nv {{ v }}\n</group>\n" % k for k in range(3))
    return check(tpl, None, [{"g%d" % j: [{"v": str(k)}] for j in range(min(3, n))} for k in range(n)])


# ------------------------------------------------------------ C14
@dim("C14", "items and templates", [1, 2, 3, 9, 10, 11, 12, 13, 20, 33, 101])
def c14_items(n):
    out = []
    for templates, items in ((1, n), (n, 2)):
        p = obs.ttp()
        for t in range(templates):
            p.add_template("<template name='t%d'>\n<group name='g*'>\nv {{ v }}\n</group>\n</template>" % t)
            for i in range(items):
                p.add_input("v %d-%d\n" % (t, i), template_name="t%d" % t)
        p.parse(one=True)
        want = [[{"g": [{"v": "%d-%d" % (t, i)}]} for i in range(items)] for t in range(templates)]
        obs.expect(p.result(), want)
        obs.expect(p.result(structure="dictionary"), {"t%d" % t: want[t] for t in range(templates)})
        obs.expect(p.result(structure="flat_list"), [x for w in want for x in w])
        obs.expect(p.result(templates=["t%d" % t for t in range(0, templates, 2)]), want[::2])
        got = p.result()
        obs.expect(list(p.result(structure="dictionary")), ["t%d" % t for t in range(templates)])
        out.append(h(got))
    return out


@dim("C14", "joined items", BIG[:-6])
def c14_joined(n):
    tpl = "<template results='per_template'>\n<group name='g'>\nv {{ v }}\n</group>\n<group name='h*'>\nw {{ w }}\n</group>\n</template>"
    rs = [{"v": str(k)} for k in range(n)]
    got = obs.run(tpl, ["v %d\nw %d\n" % (k, k) for k in range(n)])
    obs.expect(got, [{"g": rs if n > 1 else rs[0], "h": [{"w": str(k)} for k in range(n)]}], tpl)
    return h(got)


# ------------------------------------------------------------ C15
@dim("C15", "outputs", MID)
def c15_outputs(n):
    tpl = "<group name='g*'>\nv {{ v }}\n</group>\n<macro>\n%s</macro>\n" % "".join("def m%d(data):\n    data[0]['g'][0]['v'] += '%d'\n    return data\n" % (k, k % 10) for k in range(n))
    w = "v" + "".join(str(k % 10) for k in range(n))
    check(tpl + "".join("<output macro='m%d'/>\n" % k for k in range(n)), "v v\n", [{"g": [{"v": w}]}])
    check(tpl + "".join("<output name='o%d' macro='m%d'/>\n" % (n - k, k) for k in range(n)), "v v\n", [{"g": [{"v": w}]}])
    return check(tpl + "<output functions=\"%s\"/>\n" % " | ".join("macro('m%d')" % k for k in range(n)), "v v\n", [{"g": [{"v": w}]}])


@dim("C15", "outputs of a group", SMALL)
def c15_group(n):
    macros = "<macro>\n%s</macro>\n" % "".join("def m%d(data):\n    data['g'][0]['v'] += '%d'\n    return data\n" % (k, k % 10) for k in range(n))
    tpl = macros + "<group name='g*' output='%s'>\nv {{ v }}\n</group>\n<group name='h*'>\nv {{ v }}\n</group>\n" % ", ".join("o%d" % k for k in range(n)) + "".join("<output name='o%d' macro='m%d'/>\n" % (k, k) for k in range(n))
    w = "v" + "".join(str(k % 10) for k in range(n))
    got = obs.run(tpl, "v v\n")
    items = got[0][0] if isinstance(got[0][0], list) else got[0]
    obs.expect(items, [{"h": [{"v": "v"}]}, {"g": [{"v": w}]}], tpl)
    return h(got)


# ------------------------------------------------------------ C16
@dim("C16", "rows", BIG)
def c16_rows(n):
    import csv
    import io
    import yaml
    tpl = "<group name='g*'>\nv {{ v }} {{ w }}\n</group>"
    rs = [{"v": "a%d" % k, "w": "b,%d" % k} for k in range(n)]
    p = obs.ttp("".join("v a%d b,%d\n" % (k, k) for k in range(n)), tpl)
    p.parse(one=True)
    obs.expect(json.loads(p.result(format="json")[0]), [{"g": rs}])
    if n < 300:
        obs.expect(yaml.safe_load(p.result(format="yaml")[0]), [{"g": rs}])
        obs.expect(eval(p.result(format="pprint")[0]), [{"g": rs}])
    got = [dict(r) for r in csv.DictReader(io.StringIO(p.result(format="csv", path="g")[0]))]
    obs.expect(got, rs)
    t = p.result(format="table", path="g", headers="w,v,x", missing="-")[0]
    obs.expect(t, [["w", "v", "x"]] + [[r["w"], r["v"], "-"] for r in rs])
    return h(t)


@dim("C16", "columns", MID)
def c16_columns(n):
    names = ["v%d" % k for k in range(n)]
    tpl = "<group name='g*'>\nk %s\n</group>" % " ".join("{{ %s }}" % x for x in names)
    p = obs.ttp("k " + " ".join("w%d" % k for k in range(n)) + "\n", tpl)
    p.parse(one=True)
    t = p.result(format="table", path="g")[0]
    obs.expect(len(t), 2)
    obs.expect(dict(zip(t[0], t[1])), {x: "w%d" % k for k, x in enumerate(names)})
    obs.expect(len(t[0]), n)
    t = p.result(format="table", path="g", headers=",".join(reversed(names)))[0]
    obs.expect(t, [names[::-1], ["w%d" % k for k in reversed(range(n))]])
    return h(t)


# ------------------------------------------------------------ C17
SCRIPT = """
import sys, os
sys.path.insert(0, %r)
os.environ["VERIF_REAL_PROCS"] = "1"
import multiprocessing
multiprocessing.cpu_count = lambda: 3
from mc import sizes
from mc.core import Violation
try:
    sizes.%s(%d)
    print("RESULT ok")
except Violation as e:
    print("RESULT " + e.message[:3000])
"""


def real_processes(name, n):
    """under the schedules of the operating system, in a process of its own"""
    try:
        r = subprocess.run([sys.executable, "-c", SCRIPT % (env.VERIF, name, n)], capture_output=True, timeout=140, text=True)
    except subprocess.TimeoutExpired:
        raise Violation("real processes: no end within 140 s, %s %d" % (name, n))
    if "RESULT" not in r.stdout:
        raise Violation("real processes: no result, %s %d: %s" % (name, n, r.stderr[-1500:]))
    text = r.stdout.split("RESULT ", 1)[1].strip()
    if text != "ok":
        raise Violation(text)
    return n


@dim("C17", "items", [1, 2, 7, 8, 9, 10, 11, 12, 13, 17, 33, 101, 300])
def c17_items(n):
    return real_processes("c17_real", n)


def c17_real(n):
    tpl = "<vars>\nx = 'X'\n</vars>\n<macro>\ndef up(data):\n    return data.upper()\n</macro>\n<input name='a'/>\n<input name='b'/>\n<group name='g*'>\nv {{ v | macro('up') }}\n x {{ x | set('x') }}\n</group>"
    want = [[{"g": [{"v": "I%d" % k, "x": "X"}]} for k in list(range(0, n, 2)) + list(range(1, n, 2))]]
    for kw in ({"one": True}, {"multi": True}):
        p = obs.ttp(template=tpl)
        for k in range(n):
            p.add_input("v i%d\n x\n" % k, input_name="ab"[k % 2])
        p.parse(**kw)
        obs.expect(p.result(), want, tpl, repr(kw))


@dim("C18", "items", [1, 2, 10, 11, 12, 13, 33, 101, 300])
def c18_items(n):
    return real_processes("c18_real", n)


def c18_real(n):
    import multiprocessing
    tpl = "<macro>\ndef m(data):\n    if data.startswith('bad'):\n        raise ValueError(data)\n    return data\n</macro>\n<group name='g*'>\nv {{ v | macro('m') }}\n</group>"
    for bad in ((), (n - 1,), tuple(range(n)), (n // 2, n - 1)):
        p = obs.ttp(template=tpl)
        for k in range(n):
            p.add_input("v %s%d\n" % ("bad" if k in bad else "ok", k))
        got = obs.attempt(p.parse, multi=True)
        if bad:
            if not isinstance(got, obs.Raised) or got.type != "ValueError" or got.text != "bad%d" % bad[0]:
                raise Violation("%d items, %r fail: expected ValueError of the first, observed %r" % (n, bad, got))
        else:
            obs.expect(p.result(), [[{"g": [{"v": "ok%d" % k}]} for k in range(n)]], tpl)
        if multiprocessing.active_children():
            raise Violation("%d items, %r fail: workers left running" % (n, bad))


# ------------------------------------------------------------ C19
@dim("C19", "parsers", SMALL + [64])
def c19_parsers(n):
    ps = []
    for k in range(n):
        p = obs.ttp(template="<vars>\nx = 'X%d'\n</vars>\n<lookup name='t' load='python'>\n{'a': 'L%d'}\n</lookup>\n<macro>\ndef m(data):\n    return data + 'M%d'\n</macro>\n<group name='g*'>\nv {{ v | macro('m') | record('r') }} {{ l | lookup('t') }}\n x {{ x | set('x') }}\n r {{ r | set('r') }}\n</group>" % (k, k, k))
        p.add_function(lambda data, k=k: (data + "F%d" % k, None), scope="match", name="f")
        ps.append(p)
    for r in range(2):
        for p in ps[::-1] if r else ps:
            p.add_input("v %d a\n x\n r\n" % r)
    for p in ps:
        p.parse(one=True)
    got = [p.result() for p in ps[::-1]][::-1]
    obs.expect(got, [[[{"g": [{"v": "%dM%d" % (r, k), "l": "L%d" % k, "x": "X%d" % k, "r": "%dM%d" % (r, k)}]} for r in range(2)]] for k in range(n)])
    return h(got)


# ------------------------------------------------------------ C20
@dim("C20", "parses", SMALL + [64])
def c20_parses(n):
    p = obs.ttp(template="<group name='g*'>\nv {{ v }}\n</group>")
    want, taken = [], []
    for k in range(n):
        p.add_input("v %d\n" % k)
        p.parse(one=True)
        want += [{"g": [{"v": str(j)}]} for j in range(k + 1)]
        taken.append(p.result())
        obs.expect(taken[-1], [want])
    obs.expect(taken, [[want[:(k + 1) * (k + 2) // 2]] for k in range(n)])
    return h(want)


@dim("C20", "inputs", BIG[:-6])
def c20_inputs(n):
    p = obs.ttp(template="<group name='g*'>\nv {{ v }}\n</group>")
    for k in range(n):
        p.add_input("v %d\n" % (k // 2 if k % 2 else k * 10), input_name="i0")
    p.parse(one=True)
    seen = []
    for k in range(n):
        v = k // 2 if k % 2 else k * 10
        if v not in seen:
            seen.append(v)
    obs.expect(p.result(), [[{"g": [{"v": str(v)}]} for v in seen]])
    p.clear_result()
    p.set_input("v x\n")
    p.parse(one=True)
    obs.expect(p.result(), [[{"g": [{"v": "x"}]}]])
    p.clear_result()
    p.clear_input()
    for k in range(n):
        p.add_input("v %d\n" % k, input_name="i%d" % k)
    p.parse(one=True)
    obs.expect(p.result(), [[{"g": [{"v": str(k)}]} for k in range(n)]])
    return h(seen)


# ------------------------------------------------------------ C21
@dim("C21", "elements to select from", SMALL + [64, 101])
def c21_select(n):
    d = tempfile.mkdtemp(prefix="c21s")
    try:
        f = os.path.join(d, "t.txt")
        groups = ["<group name='g%d*'>\n%s {{ v }}\n</group>\n" % (k, letters(k)) for k in range(n)]
        with open(f, "w") as fd:
            fd.write("<vars>\nx = 1\n</vars>\n" + "".join(groups))
        data = "".join("%s %d\n" % (letters(k), k) for k in range(n))
        out = []
        for pick in ([n - 1], [0], list(range(n)), list(range(0, n, 3)), list(range(n))[::-1]):
            for by in ("%d", "g%d*"):
                tpl = "<extend template='%s' groups='%s'/>" % (f, ",".join(by % k for k in pick))
                out.append(check(tpl, data, [{"g%d" % k: [{"v": str(k)}] for k in pick}]))
        return h(out)
    finally:
        shutil.rmtree(d)


@dim("C21", "nested extends", list(range(1, 14)) + [20, 33])
def c21_nested(n):
    d = tempfile.mkdtemp(prefix="c21n")
    try:
        for k in range(n):
            with open(os.path.join(d, "t%d.txt" % k), "w") as fd:
                fd.write("<group name='g%d*'>\n%s {{ v }}\n</group>\n" % (k, letters(k)) + ("<extend template='%s/t%d.txt'/>\n" % (d, k + 1) if k < n - 1 else ""))
        data = "".join("%s %d\n" % (letters(k), k) for k in range(n))
        want = [{"g%d" % k: [{"v": str(k)}] for k in range(n)}]
        check("<extend template='%s/t0.txt'/>" % d, data, want)
        got = check("".join("<extend template='%s/u%d.txt'/>\n" % (d, k) for k in c21_flat(d, n)), data, want)
        return h(got)
    finally:
        shutil.rmtree(d)


def c21_flat(d, n):
    for k in range(n):
        with open(os.path.join(d, "u%d.txt" % k), "w") as fd:
            fd.write("<group name='g%d*'>\n%s {{ v }}\n</group>\n" % (k, letters(k)))
        yield k


# ------------------------------------------------------------ C23
@dim("C23", "entries", BIG)
def c23_entries(n):
    import yaml
    table = {"k%d" % k: {"v": "x%d" % k, "w": "y %d" % k} for k in range(n)}
    texts = {
        "python": repr(table), "json": json.dumps(table), "yaml": yaml.safe_dump(table, sort_keys=False) if n < 300 else json.dumps(table),
        "ini": "\n".join("[%s]\nv = %s\nw = %s" % (k, e["v"], e["w"]) for k, e in table.items()),
        "csv": "k,v,w\n" + "\n".join("%s,%s,%s" % (k, e["v"], e["w"]) for k, e in table.items()),
    }
    tpl = "<group name='g*'>\na {{ a | lookup('t') }}\n</group>"
    data = "".join("a k%d\n" % k for k in range(n))
    for load, text in texts.items():
        check("<lookup name='t' load='%s'>\n%s\n</lookup>\n" % (load, text) + tpl, data, [{"g": [{"a": table["k%d" % k]} for k in range(n)]}], note=load)
    return n


@dim("C23", "columns", MID)
def c23_columns(n):
    names = ["c%d" % k for k in range(n)]
    out = []
    for key in {0, n - 1, n // 2}:
        text = ",".join(names) + "\n" + "\n".join(",".join("v%d-%d" % (r, k) for k in range(n)) for r in range(3))
        want = {"g": [{"a": {x: "v%d-%d" % (r, k) for k, x in enumerate(names) if k != key}} for r in range(3)]}
        out.append(check("<lookup name='t' load='csv' key='c%d'>\n%s\n</lookup>\n<group name='g*'>\na {{ a | lookup('t') }}\n</group>" % (key, text), "".join("a v%d-%d\n" % (r, key) for r in range(3)), [want]))
    return h(out)


# ------------------------------------------------------------ C24
@dim("C24", "columns", SMALL[1:] + [64, 99])
def c24_columns(n):
    names = ["C%s" % letters(k) for k in range(n)]
    head = " ".join(x.ljust(8) for x in names[:-1]) + " " + names[-1]
    rows = [["v%d-%d" % (r, k) if (k + r) % 4 or k == 0 or k >= n - 2 else "" for k in range(n)] for r in range(3)]
    text = head + "\n" + "\n".join((" ".join(v.ljust(8) for v in row)).rstrip() for row in rows) + "\n"
    return check("<group name='t*'>\n%s {{ _headers_ }}\n</group>" % head, text, [{"t": [dict(zip(names, r)) for r in rows]}])


@dim("C24", "rows and width", MID)
def c24_rows(n):
    head = "Name" + " " * n + "Port" + " " * n + "State"
    text = head + "\n" + "".join(("n%d" % k).ljust(4 + n) + ("p%d" % k).ljust(4 + n) + "s" * (k % 5 + 1) + "\n" for k in range(n))
    rs = [{"Name": "n%d" % k, "Port": "p%d" % k, "State": "s" * (k % 5 + 1)} for k in range(n)]
    return check("<group name='t*'>\n%s {{ _headers_ }}\n</group>" % head, text, [{"t": rs}])


# ------------------------------------------------------------ C25
@dim("C25", "files of a folder", MID)
def c25_files(n):
    d = tempfile.mkdtemp(prefix="c25s")
    try:
        names = sorted("f%d.txt" % k for k in range(n))
        for x in names:
            with open(os.path.join(d, x), "w") as fd:
                fd.write("v %s\n" % x)
        tpl = "<group name='g*'>\nv {{ v }}\n</group>"
        want = [{"g": [{"v": x}]} for x in names]
        check(tpl, d, want)
        check(tpl, d + "/", want)
        check("<input load='python'>\nurl = %r\n</input>\n" % d + tpl, None, want)
        return check("<input load='python'>\nurl = %r\n</input>\n" % [os.path.join(d, x) for x in names[::-1]] + tpl, None, want[::-1])
    finally:
        shutil.rmtree(d)


@dim("C25", "characters of a text", HUGE)
def c25_chars(n):
    d = tempfile.mkdtemp(prefix="c25c")
    try:
        f = os.path.join(d, "t.txt")
        text = "v " + "é" * n + "\nw 1\n"
        with open(f, "w", encoding="utf-8", newline="") as fd:
            fd.write(text)
        tpl = "<group name='g*'>\nv {{ v }}\nw {{ w }}\n</group>"
        want = [{"g": [{"v": "é" * n, "w": "1"}]}]
        check(tpl, f, want)
        check(tpl, text.replace("\n", "\r\n"), want)
        return h(check(tpl, text, want))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------ C26
@dim("C26", "characters", BIG)
def c26_chars(n):
    rows = [("WORD", "x" * n, True), ("DIGIT", "7" * n, True), ("DIGIT", "7" * (n - 1) + "x", False), ("PHRASE", "a " * n + "b", True), ("ORPHRASE", "a " * (n - 1) + "b", True),
            ("PHRASE", "a" * n, False), ("_line_", "a  " * n + "b", True), ("ROW", "a  " * n + "b", True), ("MAC", "ab" * 5 + "c" * n, False), ("IP", "1.1.1." + "1" * n, n <= 3), ("PREFIX", "1.1.1.1/" + "1" * n, n <= 2), ("PREFIXV6", "::1/" + "1" * n, n <= 3)]
    for p, text, ok in rows:
        check("<group name='g*'>\nv {{ v | %s }} e\n</group>" % p, "v %s e\n" % text, [{"g": [{"v": text}]} if ok else {}], note=p)
    return n


@dim("C26", "patterns of a variable", SMALL)
def c26_patterns(n):
    tpl = "<group name='g*'>\nv {{ v | %s | _start_ }} e\n</group>" % " | ".join("re('%s+')" % chr(97 + k % 26) for k in range(min(n, 26)))
    return check(tpl, "".join("v %s e\n" % (chr(97 + k) * 3) for k in range(26)), [{"g": [{"v": chr(97 + k) * 3} for k in range(min(n, 26))]}])


# ------------------------------------------------------------ C27
@dim("C27", "path and keys", MID)
def c27_depth(n):
    path = ["p%d" % k for k in range(n)]
    tpl = "<group name='%s.{{ k }}'>\ni {{ k }} {{ v }}\n</group>\n" % ".".join(path)
    data = "".join("i k%d %d\n" % (k, k) for k in range(n))
    rs = {"k%d" % k: {"v": str(k)} for k in range(n)}
    got = obs.run(tpl + "<output traverse=\"path='%s'\"/>" % ".".join(path), data)
    obs.expect(got, [[rs]], tpl)
    got = obs.run(tpl + "<output dict_to_list=\"key_name='k', path='%s'\"/>" % ".".join(path), data)
    obs.expect(got, [[[{"k": "k%d" % k, "v": str(k)} for k in range(n)]]], tpl)
    return h(got)


# ------------------------------------------------------------ C28
@dim("C28", "variables", BIG)
def c28_vars(n):
    tpl = "<vars name='saved.vars'>\n%s\n</vars>\n<group name='g*'>\nv {{ v }}\n s {{ s | set('x%d') }}\n</group>" % ("\n".join("x%d = 'y%d'" % (k, k) for k in range(n)), n - 1)
    return h(check(tpl, "v 1\n s\n", [{"saved": {"vars": {"x%d" % k: "y%d" % k for k in range(n)}}, "g": [{"v": "1", "s": "y%d" % (n - 1)}]}]))


@dim("C28", "tags of variables", MID)
def c28_tags(n):
    tpl = "".join("<vars name='t%d'>\nx%d = 'y%d'\nsame = '%d'\n</vars>\n" % (k, k, k, k) for k in range(n)) + "<group name='g*'>\nv {{ v }}\n s {{ s | set('same') }}\n</group>"
    got = obs.run(tpl, "v 1\n s\n")
    w = {"t%d" % k: {"x%d" % k: "y%d" % k, "same": str(n - 1)} for k in range(n)}
    obs.expect(got, [[dict(w, g=[{"v": "1", "s": str(n - 1)}])]], tpl)
    return h(got)


# ------------------------------------------------------------ C29
@dim("C29", "arguments", MID)
def c29_args(n):
    got = []

    def fun(data, *args, **kwargs):
        got.append((args, kwargs))
        return data, None

    strings = ["a%d, (b) = '" % k for k in range(n)]
    deep = 1
    for _ in range(min(n, 60)):
        deep = [deep]
    long = "x, " * n
    p = obs.ttp()
    p.add_function(fun, scope="match", name="spy")
    tpl = "a {{ a | spy(%s, %s) | spy(%r, %r) }}" % (", ".join('"%s"' % s for s in strings), ", ".join("k%d=%d" % (k, k) for k in range(n)), deep, long)
    p.add_template(tpl)
    p.add_input("a 1\n")
    p.parse(one=True)
    obs.expect(got, [(tuple(strings), {"k%d" % k: k for k in range(n)}), ((deep, long), {})], tpl)
    return h(got)


# ------------------------------------------------------------ C33
@dim("C33", "commands", SMALL + [64])
def c33_commands(n):
    cmds = ["show %s" % letters(k) for k in range(n)]
    data = "".join("host#%s\nline %s\n" % (c, c.split()[1]) for c in cmds) + "host#\n"
    out = []
    for pick in (cmds, cmds[::-1], cmds[-1:], cmds[::3]):
        tpl = "<input name='Default_Input' extract_commands=\"%s\"/>\n<group name='g*'>\nline {{ v }}\n</group>" % ", ".join(pick)
        out.append(check(tpl, data, [{"g": [{"v": c.split()[1]} for c in pick]}]))
    return h(out)


@dim("C33", "lines of an output", BIG)
def c33_lines(n):
    data = "host#show a\n" + "".join("line %d\n" % k for k in range(n)) + "host#show b\nline x\nhost#\n"
    tpl = "<input name='Default_Input' extract_commands=\"show a\"/>\n<group name='g*'>\nline {{ v }}\n</group>"
    return h(check(tpl, data, [{"g": [{"v": str(k)} for k in range(n)]}]))


# ------------------------------------------------------------ C30
@dim("C30", "things that say nothing", MID)
def c30_nothing(n):
    bare = "<vars>\nx = 'y'\n</vars>\n<group name='g*'>\nv {{ v }}\n s {{ s | set('x') }}\n</group>\n<group name='h*'>\nw {{ w }}\n</group>\n"
    want = [{"g": [{"v": "1", "s": "y"}], "h": [{"w": "2"}]}]
    for label, noise in (("comments", "<!-- <group name='no'>\nv {{ no }}\n</group> -->\n"), ("doc", "<doc>\nv {{ no }}\n</doc>\n"), ("blank lines", "\n"), ("blanks", " \t\n"), ("hashes", "## v {{ no }}\n"), ("empty vars", "<vars/>\n"), ("empty lookups", "<lookup name='e'/>\n")):
        if label == "hashes":
            tpl = bare.replace("<group name='g*'>\n", "<group name='g*'>\n" + noise * n).replace("</group>", noise * n + "</group>")
        else:
            tpl = noise * n + bare.replace("<group name='h*'>", noise * n + "<group name='h*'>") + noise * n
        check(tpl, "v 1\n s\nw 2\n", want, note=label)
        check("<template>\n" + tpl + "</template>", "v 1\n s\nw 2\n", want, note=label)
    wide = " " * n
    check(bare.replace("{{ s | set('x') }}", "{{%ss%s|%sset('x')%s}}" % (wide, wide, wide, wide)), "v 1\n s\nw 2\n", want, note="blanks in brackets")
    return check(bare.replace("\n", wide + "\n").replace("x = 'y'", "x = 'y'"), "v 1\n s\nw 2\n", want, note="blanks at line ends")


# ------------------------------------------------------------ C31
@dim("C31", "messages", MID)
def c31_messages(n):
    import socket
    a = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    try:
        a.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 22)
        a.bind(("127.0.0.1", 0))
        a.setblocking(False)
        tpl = "<group name='g*'>\nv {{ v }}\n</group>\n<output returner='syslog' servers='127.0.0.1' port='%d' interval='0' path='g'/>" % a.getsockname()[1]
        want = [{"g": [{"v": str(k)} for k in range(n)]}]
        check(tpl, "".join("v %d\n" % k for k in range(n)), want)
        got = []
        while True:
            try:
                got.append(a.recv(65536).decode())
            except BlockingIOError:
                break
        obs.expect(got, ["<%d>%s" % (77 << 3 | 6, json.dumps(r)) for r in want[0]["g"]], tpl)
    finally:
        a.close()
    return n


@dim("C31", "characters of a message", BIG + [2000, 4096, 8192, 8193, 20000, 60000])
def c31_long(n):
    import socket
    a = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    try:
        a.bind(("127.0.0.1", 0))
        a.setblocking(False)
        tpl = "<group name='g*'>\nv {{ v }}\n</group>\n<output returner='syslog' servers='127.0.0.1' port='%d' interval='0' path='g'/>" % a.getsockname()[1]
        check(tpl, "v %s\n" % ("x" * n), [{"g": [{"v": "x" * n}]}])
        got = a.recv(65536).decode()
        obs.expect(got, "<%d>%s" % (77 << 3 | 6, json.dumps({"v": "x" * n})), tpl)
    finally:
        a.close()
    return n


@dim("C31", "records in a file and on the screen", BIG)
def c31_records(n):
    d = tempfile.mkdtemp(prefix="c31s")
    try:
        tpl = "<group name='g*'>\nv {{ v | ORPHRASE }}\n</group>\n<output returner='terminal, file' format='json' url='%s' filename='o.txt'/>" % d
        data = "".join("v %d ok é\n" % k for k in range(n))
        with obs.captured() as (out, _):
            got = obs.run(tpl, data)
        with open(os.path.join(d, "o.txt"), encoding="utf-8") as fd:
            text = fd.read()
        obs.expect(json.loads(text), [{"g": [{"v": "%d ok é" % k} for k in range(n)]}], tpl)
        obs.expect(json.loads(out.getvalue()), [{"g": [{"v": "%d ok é" % k} for k in range(n)]}], tpl)
        obs.expect(os.listdir(d), ["o.txt"])
        return h((text, got))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------ C32
def dns_go(template, lines, script):
    from checks import c32
    c32.setup()
    c32.SCRIPT.clear()
    c32.SCRIPT.update(script)
    return c32.go([(0, "\n".join(lines))], template)


@dim("C32", "lookups", MID)
def c32_lookups(n):
    from checks import c32
    kinds = list(c32.KINDS)
    lines, want, script = [], [], {}
    for k in range(n):
        kind = kinds[k % len(kinds)]
        value, q = c32.names(k, kind)
        outcome = "ok0" if k % 5 else list(c32.FAILS)[k // 5 % len(c32.FAILS)]
        script[q] = (c32.KINDS[kind][2], c32.KINDS[kind][4] or c32.SYSTEM, outcome)
        lines.append("%s %s" % (kind, value))
        want.append(c32.predict(kind, value, outcome))
    return h(obs.expect(dns_go(c32.TEMPLATE, lines, script), want, c32.TEMPLATE))


@dim("C32", "servers", SMALL)
def c32_servers(n):
    from checks import c32
    servers = ["10.0.1.%d" % k for k in range(n)]
    tpl = "<group name='r*'>\nx {{ d | dns(servers='%s', timeout=%d) }}\n</group>" % (", ".join(servers), n)
    got = dns_go(tpl, ["x h.example.org"], {"h.example.org": ("A", servers, "ok10")})
    obs.expect(got, [{"d": sorted(c32.RECORDS["A"][:2])}], tpl)
    obs.expect([(a[0], a[1], sorted(a[2]), a[3], a[4]) for a in c32.ASKED], [("h.example.org", "A", sorted(servers), n, n * n)])
    return h(got)


@dim("C32", "records of an answer", BIG)
def c32_records(n):
    from checks import c32
    records = ["10.2.%d.%d" % (k // 200, k % 200 + 1) for k in range(n)]
    tpl = "<group name='r*'>\nx {{ d | dns }}\n</group>"
    old, c32.RECORDS["A"] = c32.RECORDS["A"], records
    try:
        got = dns_go(tpl, ["x h.example.org"], {"h.example.org": ("A", c32.SYSTEM, Answer(range(n)))})
    finally:
        c32.RECORDS["A"] = old
    return h(obs.expect(got, [{"d": sorted(records)}], tpl))


class Answer:
    """an outcome of more records than digits"""

    def __init__(self, indexes):
        self.indexes = list(indexes)

    def __getitem__(self, s):
        return [str(i) for i in self.indexes]

    def __hash__(self):
        return 0

    def __eq__(self, other):
        return False
