"""C07: pipelines of match variable functions. Every ordered tuple of functions up to
the stated length, at every kind of line, against a fold over independently written
one-line reference functions; then the effect of failed checks on records for every
sequence of accepted and rejected lines."""
import ipaddress
import itertools
import re

from mc import model, obs
from mc.core import Outcome, Violation, h, same
from checks.c05 import L

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of function pipelines x placements x values against a fold of reference functions, and of accepted/rejected line sequences against the record model"
ASSUMPTIONS = ["fields added by functions carry names of their own", "a separate {{ _start_ }} variable starts a record without the values of its line (as the code does; not documented)"]

VALUES = ["ab", "AB", "a1", "77", "b.a", "xay"]


def T(f):
    return lambda v: (f(v), True, {})


def C(f):
    return lambda v: (v, bool(f(v)), {})


def F(name, f):
    return lambda v: (v, True, {name: f(v)})


# template text -> reference function value -> (value, verdict, new fields)
FUNS = {
    "upper": T(str.upper),
    "lower()": T(str.lower),
    "append('x')": T(lambda v: v + "x"),
    'prepend("y")': T(lambda v: "y" + v),
    "resub('a', 'b')": T(lambda v: v.replace("a", "b", 1)),
    "replace('b', 'cc')": T(lambda v: v.replace("b", "cc")),
    "replaceall('a')": T(lambda v: v.replace("a", "")),
    "sformat('[{}]')": T(lambda v: "[" + v + "]"),
    "strip('x')": T(lambda v: v.strip("x")),
    "contains('a')": C(lambda v: "a" in v),
    "exclude('b')": C(lambda v: "b" not in v),
    "equal('AB')": C(lambda v: v == "AB"),
    "notequal('ab')": C(lambda v: v != "ab"),
    "contains_re('[a-b]$')": C(lambda v: v[-1:] in ("a", "b")),
    "startswith_re('a')": C(lambda v: v[:1] == "a"),
    "endswith('x')": C(lambda v: v.endswith("x")),
    "isupper": C(str.isupper),
    "isdigit": C(lambda v: v.isdigit()),
    "copy('f1')": F("f1", lambda v: v),
    "let('f2', 'L')": F("f2", lambda v: "L"),
    "let('zZ')": T(lambda v: "zZ"),
    "macro('mt')": lambda v: (v + "t", True, {"f3": v}),
    "macro('mv')": T(lambda v: v + v),
    "macro('mc')": C(lambda v: "x" not in v),
    "macro('mn')": T(lambda v: v),
    "lookup('tbl')": T(lambda v: {"ab": "L1", "AB": "L2", "L1": "ab"}.get(v, v)),
    "lookup('tbl', add_field='f4')": lambda v: (v, True, {"f4": {"ab": "L1", "AB": "L2", "L1": "ab"}[v]} if v in ("ab", "AB", "L1") else {}),
    "probe": None,
}
CORE = ["upper", "append('x')", 'prepend("y")', "resub('a', 'b')", "contains('a')", "exclude('b')", "endswith('x')", "isupper", "copy('f1')", "macro('mt')", "macro('mc')", "lookup('tbl')", "probe"]

HEAD = '''<lookup name="tbl" load="python">
{"ab": "L1", "AB": "L2", "L1": "ab"}
</lookup>
<macro>
def mt(data):
    return data + "t", {"f3": data}
def mv(data):
    return data + data
def mc(data):
    return False if "x" in data else True
def mn(data):
    return None
</macro>
'''

PLACES = {
    "normal": '<group name="g*">\nrec {{ n }}\n val {{ v%s }} {{ w }}\n</group>',
    "start": '<group name="g*">\nrec {{ v%s }} {{ w }}\n x {{ x }}\n<group name="k*">\n sub {{ s }}\n  q {{ q }}\n</group>\n</group>',
    "nested": '<group name="g*">\nrec {{ n }}\n<group name="k*">\n sub {{ s }}\n  val {{ w }} {{ v%s }}\n</group>\n</group>',
    "nested start": '<group name="g*">\nrec {{ n }}\n<group name="k*">\n sub {{ v%s }} {{ w }}\n  q {{ q }}\n</group>\n x {{ x }}\n</group>',
}


def fold(names, v, log):
    fields = {}
    for n in names:
        if n == "probe":
            log.append(v)
            continue
        v, ok, f = FUNS[n](v)
        fields.update(f)
        if not ok:
            return None
    return dict(fields, v=v)


def text_of(place):
    out = []
    for i, v in enumerate(VALUES):
        out += {
            "normal": ["rec %d" % i, " val %s %d" % (v, i)],
            "start": ["rec %s %d" % (v, i), " x 5", " sub 6", "  q 7"],
            "nested": ["rec %d" % i, " sub 6", "  val %d %s" % (i, v)],
            "nested start": ["rec %d" % i, " sub %s %d" % (v, i), "  q 7", " x 5"],
        }[place]
    return "\n".join(out)


def want(place, names):
    recs, log = [], []
    for i, v in enumerate(VALUES):
        r = fold(names, v, log)
        if r is not None:
            r["w"] = str(i)
        if place == "normal":
            recs.append(dict(r or {}, n=str(i)))
        elif place == "start":
            if r is not None:
                recs.append(dict(r, x="5", k=[{"s": "6", "q": "7"}]))
        elif place == "nested":
            recs.append({"n": str(i), "k": [dict(r or {}, s="6")]})
        else:
            rec = {"n": str(i), "x": "5"}
            if r is not None:
                rec["k"] = [dict(r, q="7")]
            recs.append(rec)
    return {"g": recs} if recs else {}, log


def run_probe(tpl, text):
    log = []
    p = obs.ttp()

    def probe(data):
        log.append(data)
        return data, None

    p.add_function(probe, scope="match", name="probe")
    p.add_template(tpl)
    p.add_input(text)
    p.parse(one=True)
    return p.result()[0][0], log


def one(tpl, place, names):
    got = obs.attempt(run_probe, tpl, text_of(place)) if "probe" in names else obs.run1(tpl, text_of(place))
    w, log = want(place, names)
    if "probe" in names:
        w = (w, log)
    return obs.expect(got, w, tpl, text_of(place))


def pipelines(ck):
    def cases():
        for n in range(0, 4 if ck.thorough else 3):
            for names in itertools.product(FUNS, repeat=n):
                for place in PLACES:
                    yield names, place
        for names in itertools.product(CORE, repeat=4 if ck.thorough else 3):
            for place in PLACES:
                yield names, place

    def fn(case):
        names, place = case
        tpl = HEAD + PLACES[place] % "".join(" | " + n for n in names)
        return Outcome((place, one(tpl, place, names)), states=[h((place, names))], transitions=len(names), count=len(VALUES))

    ck.explore("pipelines", cases, fn, "all ordered pairs of %d functions and triples of %d (all triples, quadruples thorough) at 4 kinds of lines, each on %d values" % (len(FUNS), len(CORE), len(VALUES)))


def chains(ck):
    def cases():
        fs = [f for f in CORE if f != "probe"]
        for n in (1, 2, 3):
            for names in itertools.product(fs, repeat=n):
                for lo in range(n):
                    for hi in range(lo + 1, n + 1):
                        for form in ("list", "string", "two"):
                            if n == 3 and not ck.thorough and form != "list":
                                continue
                            if form == "two" and hi - lo < 2:
                                continue
                            yield names, lo, hi, form

    def fn(case):
        names, lo, hi, form = case
        mid = list(names[lo:hi])
        if form == "list":
            var = "c1 = %r" % mid
        elif form == "string":
            var = "c1 = %r" % " | ".join(mid)
        else:
            var = "c1 = %r" % [" | ".join(mid)]
        inline = list(names[:lo]) + ['chain("c1")'] + list(names[hi:])
        place = ["normal", "start", "nested", "nested start"][(lo + hi + len(names)) % 4]
        tpl = "<vars>\n%s\n</vars>\n" % var + HEAD + PLACES[place] % "".join(" | " + n for n in inline)
        return Outcome((place, one(tpl, place, names)), count=len(VALUES))

    ck.explore("chains", cases, fn, "all pipelines of up to 3 functions with every contiguous part taken from a chain variable in each notation")


def raising(ck):
    """raise ends the parsing with its message exactly when a line's pipeline gets to it"""
    fs = [f for f in CORE if f not in ("probe", "raise")]

    def cases():
        for n in (0, 1, 2, 3) if ck.thorough else (0, 1, 2):
            for names in itertools.product(fs, repeat=n):
                for at in range(n + 1):
                    for place in PLACES:
                        for vi in range(len(VALUES)) if n < 2 or ck.thorough else [(len(names[0]) + at) % len(VALUES)]:
                            yield names, at, place, vi

    def fn(case):
        names, at, place, vi = case
        global VALUES
        keep, VALUES = VALUES, [VALUES[vi]]
        try:
            text = text_of(place)
            reached = fold(names[:at], VALUES[0], []) is not None
            w = want(place, names)[0]
        finally:
            VALUES = keep
        pipe = list(names[:at]) + ['raise("no such, \'%s\'")' % vi] + list(names[at:])
        tpl = HEAD + PLACES[place] % "".join(" | " + n for n in pipe)
        got = obs.run1(tpl, text)
        if reached:
            if not isinstance(got, obs.Raised) or got.type != "RuntimeError" or got.text != "no such, '%s'" % vi:
                raise Violation("raise was reached by %r but the result is %r\n%s" % (keep[vi], got, tpl))
        else:
            obs.expect(got, w, tpl, text)
        return Outcome((place, reached, h(w)), transitions=at + 1)

    ck.explore("raise", cases, fn, "pipelines of up to 2 (3 thorough) functions with raise at every position, at 4 kinds of lines")


# methods and attributes of the value itself: name and arguments in the template, expression
BUILTINS = {
    "find('a')": lambda v: v.find("a"), "rfind('a')": lambda v: v.rfind("a"), "split('a')": lambda v: v.split("a"), "partition('a')": lambda v: v.partition("a"),
    "swapcase": lambda v: v.swapcase(), "title()": lambda v: v.title(), "zfill(4)": lambda v: v.zfill(4), "ljust(4, '.')": lambda v: v.ljust(4, "."), "isalpha": lambda v: v.isalpha(), "isalnum()": lambda v: v.isalnum(),
    "isspace": lambda v: v.isspace(), "islower": lambda v: v.islower(), "endswith('b')": lambda v: v.endswith("b"), "lstrip('a')": lambda v: v.lstrip("a"), "encode": lambda v: v.encode(), "decode": lambda v: v.decode(),
    "index('b')": lambda v: v.index("b"), "to_int": lambda v: int(v), "bit_length": lambda v: v.bit_length(), "numerator": lambda v: v.numerator, "imag": lambda v: v.imag, "__len__": lambda v: v.__len__(),
    "__eq__(0)": lambda v: v.__eq__(0), "__bool__": lambda v: v.__bool__(), "__add__(1)": lambda v: v.__add__(1), "to_ip": lambda v: ipaddress.ip_address(v + ""), "version": lambda v: v.version, "is_private": lambda v: v.is_private,
    "is_loopback": lambda v: v.is_loopback, "max_prefixlen": lambda v: v.max_prefixlen, "packed": lambda v: v.packed, "exploded": lambda v: v.exploded, "hex": lambda v: v.hex(), "upper": lambda v: v.upper(), "to_list": lambda v: [v], "to_str": str,
}
BVALUES = ["ab", "ba", "Ab", "0", "7", "10.0.0.1", "8.8.8.8", "127.0.0.1", "a", "x"]


def builtins(ck):
    """Numbers, texts, bytes and sequences that methods and attributes return are the
    value, zero and empty ones too; only True and False are verdicts."""

    def fold_one(names, v):
        for n in names:
            new = BUILTINS[n](v)
            if new is False:
                return False, None
            if new is not True:
                if n in ("split('a')", "partition('a')") and not isinstance(v, (str, bytes)):
                    raise TypeError
                v = new
        return True, v

    def cases():
        for n in (1, 2, 3, 4) if ck.thorough else (1, 2, 3):
            for names in itertools.product(BUILTINS, repeat=n):
                vals = []
                for v in BVALUES:
                    try:
                        vals.append((v,) + fold_one(names, v))
                    except (AttributeError, TypeError, ValueError, IndexError):
                        pass
                # functions of the parser itself convert what they can and leave the rest
                if vals and any(f[1] for f in vals):
                    for place in ("normal", "start"):
                        if n < 3 or (place == "start") == (len(vals) % 2 == 0):
                            yield names, place, tuple(vals)

    def fn(case):
        names, place, vals = case
        tpl = {"normal": '<group name="g*">\nrec {{ n }}\n val {{ v%s }}\n</group>', "start": '<group name="g*">\nrec {{ v%s }}\n x {{ n }}\n</group>'}[place] % "".join(" | " + n for n in names)
        lines, recs = [], []
        for i, (v, ok, new) in enumerate(vals):
            if place == "normal":
                lines += ["rec %d" % i, " val %s" % v]
                recs.append({"n": str(i), "v": new} if ok else {"n": str(i)})
            else:
                lines += ["rec %s" % v, " x %d" % i]
                if ok:
                    recs.append({"n": str(i), "v": new})
        got = obs.run1(tpl, "\n".join(lines))
        return Outcome((place, obs.expect(got, {"g": recs} if recs else {}, tpl, "\n".join(lines))), transitions=len(names), count=len(vals))

    ck.explore("builtins", cases, fn, "all pipelines of up to 3 (4 thorough) of %d methods and attributes of the value, on every one of %d values they accept" % (len(BUILTINS), len(BVALUES)))


def rejections(ck):
    A = {"a": (None, "a")}
    AB = {"a": (None, "a"), "b": ("a", "b")}
    ABC = {"a": (None, "a"), "b": ("a", "b"), "c": ("b", "c")}
    specs = [
        model.Spec("start check", '<group name="a">\nstart {{ s | notequal("9") | upper }}\n x {{ x | isdigit }}\n y {{ y | contains("p", "q") }} {{ z | notequal("0") }}\n</group>', A,
                   [L("start v", "start", "a", s="V"), L("start 9", "reject", "a"), L(" x 1", "add", "a", x="1"), (" x w", []), L(" y p 1", "add", "a", y="p", z="1"), (" y q 0", []), (" y r 1", [])], depth=(5, 6)),
        model.Spec("nested start check", '<group name="a">\nstart {{ s | notequal("9") }}\n x {{ x }}\n<group name="b">\n sub {{ p | notequal("9") }}\n  q {{ q | notequal("9") }}\n</group>\n</group>', AB,
                   [L("start 1", "start", "a", s="1"), L("start 9", "reject", "a"), L(" x 2", "add", "a", x="2"), L(" sub 3", "start", "b", p="3"), L(" sub 9", "reject", "b"), L("  q 4", "add", "b", q="4"), ("  q 9", [])], depth=(5, 6)),
        model.Spec("three levels", '<group name="a">\nstart {{ s | notequal("9") }}\n<group name="b">\n sub {{ p | notequal("9") }}\n<group name="c">\n  deep {{ d | notequal("9") }}\n   e {{ e }}\n</group>\n</group>\n</group>', ABC,
                   [L("start 1", "start", "a", s="1"), L("start 9", "reject", "a"), L(" sub 3", "start", "b", p="3"), L(" sub 9", "reject", "b"), L("  deep 5", "start", "c", d="5"), L("  deep 9", "reject", "c"), L("   e 6", "add", "c", e="6")], depth=(5, 6)),
        model.Spec("end and levels", '<group name="a">\nstart {{ s }}\n<group name="b">\n sub {{ p }}\n<group name="c">\n  deep {{ d }}\n   e {{ e }}\n</group>\n</group>\n! {{ _end_ }}\n</group>', ABC,
                   [L("start 1", "start", "a", s="1"), L(" sub 3", "start", "b", p="3"), L("  deep 5", "start", "c", d="5"), L("   e 6", "add", "c", e="6"), ("!", [("end", "a", {})])], depth=(6, 7)),
        model.Spec("two start lines", '<group name="a">\nstart {{ s | contains("1") }}\nstart {{ s | contains("2") | append("b") | _start_ }}\n x {{ x }}\n</group>', A,
                   [L("start 1", "start", "a", s="1"), L("start 2", "start", "a", s="2b"), L("start 9", "reject", "a"), L(" x 2", "add", "a", x="2")], depth=(6, 7)),
        model.Spec("separate start marks", '<group name="a">\n{{ k | set("1") }}\nstart {{ s | contains("1") }} {{ _start_ }}\nbegin {{ s | notequal("9") | upper }} {{ _start_ }}\n x {{ x }}\n<group name="b">\n{{ k | set("1") }}\n sub {{ p | contains("1") }} {{ _start_ }}\n  q {{ q }}\n</group>\n</group>', AB,
                   [L("start 1", "start", "a", k="1"), L("start 2", "reject", "a"), L("begin 3", "start", "a", k="1"), L("begin 9", "reject", "a"), L(" x 2", "add", "a", x="2"), L(" sub 1", "start", "b", k="1"), L(" sub 2", "reject", "b"), L("  q 4", "add", "b", q="4")], depth=(5, 6)),
        model.Spec("two groups", '<group name="a">\nstart {{ s | equal("1") }}\n x {{ x }}\n</group>\n<group name="c">\nstart {{ s | equal("2") }}\n x {{ y }}\n</group>', {"a": (None, "a"), "c": (None, "c")},
                   [("start 1", [("start", "a", {"s": "1"}), ("reject", "c", {})]), ("start 2", [("start", "c", {"s": "2"}), ("reject", "a", {})]),
                    ("start 3", [("reject", "a", {}), ("reject", "c", {})]), (" x 4", [("add", "a", {"x": "4"}), ("add", "c", {"y": "4"})])], depth=(6, 7)),
        model.Spec("two normal lines", '<group name="a">\nstart {{ s }}\n x {{ x | isdigit }}\n x {{ w | notdigit | let("k", "K") }}\n x {{ u | equal("z") }} {{ ignore }}\n</group>', A,
                   [L("start 1", "start", "a", s="1"), L(" x 2", "add", "a", x="2"), L(" x z", "add", "a", w="z", k="K"), L(" x z z", "add", "a", u="z"), (" x 2 z", [])], depth=(5, 6)),
        model.Spec("joined", '<group name="a">\nstart {{ s | notequal("9") }}\n x {{ x | exclude("b") | upper | joinmatches(",") }}\n</group>', A,
                   [L("start 1", "start", "a", s="1"), L("start 9", "reject", "a"), L(" x c", "join", "a", x="C"), L(" x d", "join", "a", x="D"), (" x b", [])], joinchar=",", depth=(6, 7)),
    ]

    def fn(spec):
        depth = spec.depth[1 if ck.thorough else 0]
        keys, states, count = [], set(), 0
        gen = (s for n in range(depth + 1) for s in itertools.product(spec.tokens, repeat=n))
        while True:
            part = list(itertools.islice(gen, 300))
            if not part:
                return Outcome(keys, states=states, transitions=count, count=count)
            for s, g in zip(part, obs.run_batch(spec.template, ["\n".join(t[0] for t in s) for s in part])):
                m = model.run(spec, s)
                if m.undefined:
                    continue
                states.add(h((spec.name, m.state())))
                obs.expect(g, m.result(), spec.template, "\n".join(t[0] for t in s))
                keys.append(h(g))
                count += 1

    ck.explore("rejections", lambda: specs, fn, "all sequences of accepted and rejected lines up to length 5 or 6")


def check(ck):
    pipelines(ck)
    chains(ck)
    builtins(ck)
    raising(ck)
    rejections(ck)
