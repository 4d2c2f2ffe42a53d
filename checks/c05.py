"""C05: defaults and set. The records and their nesting come from the model of C02,
defaults are filled in by the model here; every line sequence over small alphabets is
parsed by one parser (so that anything carried over from an earlier input shows)."""
import copy
import itertools

from checks.c03 import Recorder, place
from mc import model, obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of line sequences for templates with defaults and set, replayed against a record model that fills in defaults"
ASSUMPTIONS = ["defaults of start lines of nested groups (documented as unpredictable) are decided for a parent with one record only"]


class T:
    """spec with defaults per group, paths, and groups that yield a record of defaults when not found"""

    def __init__(self, name, template, groups, tokens, defaults, paths, absent=(), depth=(5, 6), vars=None):
        self.spec = model.Spec(name, template, groups, tokens)
        self.defaults = defaults
        self.paths = paths
        self.absent = absent
        self.depth = depth
        self.vars = vars

    def __repr__(self):
        return self.spec.name

    def result(self, toks):
        root = {}
        records = None
        for top in self.spec.tops:
            f = Recorder(self.spec, top)
            for tk in toks:
                f.step(tk[1])
            if f.undefined:
                return None
            if not f.order and top in self.absent:
                f.order.append((top, model.Node()))
            for g, node in f.order:
                rec = dict(copy.deepcopy(self.defaults.get(g, {})), **copy.deepcopy(node.vals))
                place(root, self.paths[g], rec)
        return root


def L(text, kind, group, /, **vals):
    return (text, [(kind, group, vals)])


G = {"a": (None, "a")}
PA = {"a": ["a"]}
GB = {"a": (None, "a"), "b": ("a", "b")}
PB = {"a": ["a"], "b": ["a", "b"]}

VARS = '<vars>\nva = "VA"\nvb = "va"\nvl = [1, {"k": 2}]\nvd = {"k": {"z": 1}}\nvi = 5\n</vars>\n'
VL, VD = [1, {"k": 2}], {"k": {"z": 1}}


def templates():
    yield T("inline defaults",
            '<group name="a">\nstart {{ s }}\n x {{ x | default("dx") }}\n y {{ y | default([]) }}\n z {{ z | default({"q": [1]}) }}\n n {{ n | default }}\n w {{ w | to_int | default(None) }}\n</group>',
            G, [L("start 1", "start", "a", s="1"), L(" x 3", "add", "a", x="3"), L(" y 4", "add", "a", y="4"),
                L(" z 5", "add", "a", z="5"), L(" n 6", "add", "a", n="6"), L(" w 7", "add", "a", w=7)],
            {"a": {"x": "dx", "y": [], "z": {"q": [1]}, "n": "None", "w": None}}, PA)
    yield T("group default, nested without",
            '<group name="a" default="gd">\nstart {{ s }} {{ t }}\nstart {{ s | _start_ }}\n x {{ x }}\n y {{ y | default("own") }}\n<group name="b">\n sub {{ p }}\n  q {{ q }}\n</group>\n</group>',
            GB, [L("start 1 2", "start", "a", s="1", t="2"), L("start 2", "start", "a", s="2"), L(" x 3", "add", "a", x="3"), L(" y 4", "add", "a", y="4"),
                 L(" sub 5", "start", "b", p="5"), L("  q 6", "add", "b", q="6")],
            {"a": {"s": "gd", "t": "gd", "x": "gd", "y": "own"}}, PB, absent=("a",))
    yield T("group default in the nested group",
            '<group name="a">\nstart {{ s }}\n x {{ x | default("dx") }}\n<group name="b">\n sub {{ p }}\n  q {{ q | default("dq") }}\n  r {{ r | default(0) }}\n</group>\n</group>',
            GB, [L("start 1", "start", "a", s="1"), L("start 2", "start", "a", s="2"), L(" x 3", "add", "a", x="3"),
                 L(" sub 5", "start", "b", p="5"), L("  q 6", "add", "b", q="6"), L("  r 7", "add", "b", r="7")],
            {"a": {"x": "dx"}, "b": {"q": "dq", "r": 0}}, PB)
    yield T("start line default, two groups",
            '<group name="a">\nstart {{ s | default("ds") }}\n x {{ x | default("dx") }}\n y {{ y }}\n</group>\n<group name="c*">\nbegin {{ s | default([1]) }} {{ t }}\n x {{ x }}\n x {{ x }} {{ z | default("dz") }}\n</group>\n<group name="d" default="gd">\nother {{ o }}\nthing {{ o | _start_ }}\n</group>',
            {"a": (None, "a"), "c": (None, "c"), "d": (None, "d")},
            [L("start 1", "start", "a", s="1"), (" x 3", [("add", "a", {"x": "3"}), ("add", "c", {"x": "3"})]), L(" y 4", "add", "a", y="4"),
             L("begin 5 6", "start", "c", s="5", t="6"), L(" x 7 8", "add", "c", x="7", z="8"), L("thing 9", "start", "d", o="9")],
            {"a": {"s": "ds", "x": "dx"}, "c": {"s": [1], "z": "dz"}, "d": {"o": "gd"}},
            {"a": ["a"], "c": ["c*"], "d": ["d"]}, absent=("a", "c", "d"))
    yield T("conditional set",
            VARS + '<group name="a">\nstart {{ s }}\n shut down {{ x | set("yes") }}\n mode a {{ m | set("va") }} {{ n | set(True) }}\n list {{ l | set("vl") }}\n dict {{ d | set("vd") }}\n int {{ i | set("vi") }}\n two {{ w | set("vb") }}\n none {{ u | set(None) }}\n</group>',
            G, [L("start 1", "start", "a", s="1"), L(" shut down", "add", "a", x="yes"), L(" mode a", "add", "a", m="VA", n=True),
                L(" list  ", "add", "a", l=VL), L(" dict", "add", "a", d=VD), L(" int", "add", "a", i=5), L(" two", "add", "a", w="va"), L(" none", "add", "a", u=None)],
            {}, PA, depth=(4, 5))
    yield T("conditional set at starts and around nested groups",
            VARS + '<group name="a">\nstart on {{ s | set("on") }}\nstart off {{ s | set("off") | _start_ }}\n x {{ x | set("va") }}\n<group name="b">\n sub {{ p | set("vi") }}\n  q {{ q | set("vl") }}\n</group>\n tail {{ t | set("T") }}\n</group>',
            GB, [L("start on", "start", "a", s="on"), L("start off", "start", "a", s="off"), L(" x", "add", "a", x="VA"),
                 L(" sub", "start", "b", p=5), L("  q", "add", "b", q=VL), L(" tail", "add", "a", t="T"), (" xx", [])],
            {}, PB)
    yield T("conditional set with defaults",
            '<group name="a" default="no">\nstart {{ s }}\n shut {{ x | set("yes") }}\n mode b {{ m | set("b") | default("dm") }}\n mode c {{ m | set("c") }}\n</group>',
            G, [L("start 1", "start", "a", s="1"), L(" shut", "add", "a", x="yes"), L(" mode b", "add", "a", m="b"), L(" mode c", "add", "a", m="c"), (" shut down", []), ("shut", [])],
            {"a": {"s": "no", "x": "no", "m": "dm"}}, PA, absent=("a",))
    yield T("unconditional set",
            VARS + '<group name="a">\nstart {{ s }}\n x {{ x }}\n{{ c1 | set("plain") }}\n {{ c2 | set("va") }}\n{{ c3 | set("vb") }}\n{{ c4 | set("vl") }}\n{{ c5 | set(7) }}\n{{ c6 | set("vd") }}\n<group name="b">\n sub {{ p }}\n {{ c7 | set("va") }}\n {{ c8 | set(["va"]) }}\n</group>\n{{ c9 | set("vi") }}\n</group>',
            GB, [L("start 1", "start", "a", s="1"), L("start 2", "start", "a", s="2"), L(" x 3", "add", "a", x="3"), L(" sub 5", "start", "b", p="5"), ("c1", []), (" c2", [])],
            {"a": {"c1": "plain", "c2": "VA", "c3": "va", "c4": VL, "c5": 7, "c6": VD, "c9": 5}, "b": {"c7": "VA", "c8": ["va"]}}, PB)
    yield T("dictionary of defaults",
            VARS + '<group name="a" default="vd">\nstart {{ s }}\n x {{ x }}\n<group name="b" default="vd">\n sub {{ p }}\n  q {{ q }}\n</group>\n</group>',
            GB, [L("start 1", "start", "a", s="1"), L("start 2", "start", "a", s="2"), L(" x 3", "add", "a", x="3"), L(" sub 5", "start", "b", p="5"), L("  q 6", "add", "b", q="6")],
            {"a": VD, "b": VD}, PB)
    yield T("records placed into a default dictionary",
            VARS + '<group name="a*" default="vd">\nstart {{ s }}\n x {{ x }}\n<group name="k**">\n sub {{ p }}\n  q {{ q | default("dq") }}\n</group>\n</group>',
            {"a": (None, "a"), "b": ("a", "k")}, [L("start 1", "start", "a", s="1"), L("start 2", "start", "a", s="2"), L(" x 3", "add", "a", x="3"), L(" sub 5", "start", "b", p="5"), L("  q 6", "add", "b", q="6")],
            {"a": VD, "b": {"q": "dq"}}, {"a": ["a*"], "b": ["a*", "k**"]})
    yield T("joined values with defaults",
            '<group name="a">\nstart {{ s }}\n x {{ x | joinmatches(",") | default("dx") }}\n y {{ y | to_list | joinmatches | default([]) }}\n<group name="b">\n sub {{ p | default("dp") }}\n  q {{ q | to_list | joinmatches | default([0]) }}\n</group>\n t {{ t | default([]) }}\n</group>',
            GB, [L("start 1", "start", "a", s="1"), L(" x 3", "join", "a", x="3"), L(" y 4", "join", "a", y=["4"]), L(" sub 5", "start", "b", p="5"), L("  q 6", "join", "b", q=["6"]), L(" t 7", "add", "a", t="7")],
            {"a": {"x": "dx", "y": [], "t": []}, "b": {"p": "dp", "q": [0]}}, PB)
    yield T("no value but defaults and table method",
            '<group name="a" method="table" default="gd">\nfoo {{ f }}\nbar {{ b }} {{ g | default(1) }}\n</group>',
            G, [L("foo 1", "start", "a", f="1"), L("bar 2 3", "start", "a", b="2", g="3"), ("bar 2", [])],
            {"a": {"f": "gd", "b": "gd", "g": 1}}, PA, absent=("a",))


def shared(x, seen):
    """mutable objects reachable twice"""
    if isinstance(x, (dict, list)):
        if id(x) in seen:
            return True
        seen[id(x)] = x
        return any(shared(i, seen) for i in (x.values() if isinstance(x, dict) else x))
    return False


def check(ck):
    from checks import c04

    c04.values(ck)

    def fn(t):
        depth = t.depth[1 if ck.thorough else 0]
        seqs = [s for n in range(depth + 1) for s in itertools.product(t.spec.tokens, repeat=n)]
        if t.spec.joinchar == "\n" and "joined" in t.spec.name:
            t.spec.joinchar = ","
        keys, states, count = [], set(), 0
        for lo in range(0, len(seqs), 300):
            part = seqs[lo:lo + 300]
            got = obs.run_batch(t.spec.template, ["\n".join(x[0] for x in s) for s in part])
            for s, g in zip(part, got):
                text = "\n".join(x[0] for x in s)
                if nested_default_undefined(t, s):
                    continue
                w = t.result(s)
                if w is None:
                    continue
                obs.expect(g, w, t.spec.template, text)
                states.add(h((t.spec.name, w)))
                keys.append(g)
                count += 1
        return Outcome(keys, states=states, transitions=count, count=count)

    ck.explore("records", lambda: list(templates()), fn, "all line sequences up to length 5 for each template, in one parser")
    aliasing(ck)
    recorded(ck)
    cascade(ck)
    nested_start_default(ck)
    long_texts(ck)
    which(ck)


def nested_default_undefined(t, s):
    # a nested group whose start line has a default and which is not found: see nested_start_default()
    if t.spec.name != "joined values with defaults":
        return False
    texts = [x[0] for x in s]
    return texts[:1] != ["start 1"] or texts.count("start 1") > 1 or " sub 5" not in texts


def aliasing(ck):
    """default values of records are separate objects: changing one in a macro of the
    group or in the results changes no other"""
    tpl = (VARS + '<macro>\ndef touch(data):\n    data["l"].append(data["s"])\n    data["d"]["k"][data["s"]] = 1\n    return data\n</macro>\n'
           '<group name="a*" macro="touch">\nstart {{ s }}\n l {{ l | default([]) }}\n{{ d | set("vd") }}\n%s</group>')

    def cases():
        for extra in ("", "<group name='b*'>\n sub {{ p }}\n</group>\n"):
            for n in range(1, 5 if ck.thorough else 4):
                for names in itertools.product("12", repeat=n):
                    for split in range(n):
                        for subs in ([0] if not extra else [0, 1]):
                            yield extra, names, split, subs

    def fn(case):
        extra, names, split, subs = case
        lines = ["start %s%s" % (x, "\n sub 1" if subs else "") for x in names]
        # (the same text added twice is parsed once)
        datas = ["first\n" + "\n".join(lines[:split]), "\n".join(lines[split:])]

        def rec(x):
            r = {"s": x, "l": [x], "d": {"k": {"z": 1, x: 1}}}
            if subs:
                r["b"] = [{"p": "1"}]
            return r

        want = [[({"a": [rec(x) for x in part]} if part else {}) for part in (names[:split], names[split:])]]
        got = obs.attempt(obs.run, tpl % extra, datas)
        obs.expect(got, want, tpl % extra, datas, "values of one record show up in another")
        return Outcome(got)

    ck.explore("separate defaults", cases, fn, "macro changing default lists and dictionaries in place, up to 4 records over two inputs")

    def fn2(t):
        p = obs.ttp(template=t.spec.template)
        a = t.spec.tokens[0][0]
        b = t.spec.tokens[min(3, len(t.spec.tokens) - 1)][0]
        for d in ["%s\n%s\n%s\n%s" % (a, b, a, b), a, "", a]:
            p.add_input(d)
        p.parse(one=True)
        for item in p.result()[0]:
            if shared(item, {}):
                raise Violation("two records of the results share a mutable default value: %r" % (item,))
        if shared(p.result()[0], {}):
            raise Violation("records of different inputs share a mutable default value: %r" % (p.result()[0],))
        return Outcome(p.result())

    ck.explore("no shared objects", lambda: [t for t in templates() if "set" not in t.spec.name or "uncond" in t.spec.name], fn2, "every template of section records")


def recorded(ck):
    """set with the name of a recorded variable"""
    tpl = ('<vars>\nq = "Q"\n</vars>\n<group name="r*">\nrec {{ r | record("seen") }}\n</group>\n'
           '<group name="a*">\nstart {{ s }}\n got {{ g | set("seen") }}\n{{ u | set("seen") }}\n</group>')

    def cases():
        for n in range(1, 6 if ck.thorough else 5):
            for s in itertools.product(["rec 1", "rec 2", "start 5", " got"], repeat=n):
                yield s

    def fn(s):
        text = "\n".join(s)
        got = obs.run1(tpl, text)
        rec = [x.split()[1] for x in s if x.startswith("rec")]
        seen = rec[-1] if rec else "seen"
        want = {}
        if rec:
            want["r"] = [{"r": r} for r in rec]
        for x in s:
            if x.startswith("start"):
                want.setdefault("a", []).append({"s": "5", "u": seen})
            elif x == " got" and "a" in want:
                want["a"][-1]["g"] = seen
        obs.expect(got, want, tpl, text)
        return Outcome(got)

    ck.explore("recorded values", cases, fn, "all sequences of recording, start and set lines up to length 4")


def cascade(ck):
    """the value of a variable is not itself taken for the name of a variable"""
    names = ["a", "b", "c"]

    def cases():
        for order in itertools.permutations(names):
            for vals in itertools.product(["a", "b", "c", "x"], repeat=3):
                yield order, vals

    def fn(case):
        order, vals = case
        vs = dict(zip(order, vals))
        tpl = '<vars>\n%s\n</vars>\n<group name="g">\nstart {{ s }}\n%s\n%s\n</group>' % (
            "\n".join('%s = "%s"' % kv for kv in vs.items()),
            "\n".join('{{ u%s | set("%s") }}' % (n, n) for n in names + ["x"]),
            "\n".join(' line %s {{ c%s | set("%s") }}' % (n, n, n) for n in names + ["x"]))
        text = "start 1\n" + "\n".join(" line %s" % n for n in names + ["x"])
        got = obs.run1(tpl, text)
        want = {"s": "1"}
        for n in names + ["x"]:
            want["u" + n] = want["c" + n] = vs.get(n, n)
        obs.expect(got, {"g": want}, tpl, text)
        return Outcome(got)

    ck.explore("values naming variables", cases, fn, "3 variables in every order with all values from their names and one more")


def nested_start_default(ck):
    tpl = '<group name="a%s">\nstart {{ s }}\n x {{ x | default("dx") }}\n<group name="b%s">\n sub {{ p | default("dp") }}\n  q {{ q | default("dq") }}\n</group>\n</group>'

    def cases():
        for pa in ("", "*", "**"):
            for pb in ("", "*", "**"):
                for n in range(0, 4):
                    for s in itertools.product([" x 3", " sub 5", "  q 6", "noise"], repeat=n):
                        yield pa, pb, ("start 1",) + s

    def fn(case):
        pa, pb, s = case
        t = tpl % (pa, pb)
        text = "\n".join(s)
        if any(x == " x 3" and any(y == " sub 5" for y in s[:i]) and s.index(" x 3") < i for i, x in enumerate(s)):
            return Outcome(("undefined",), nontrivial=False)
        got = obs.run1(t, text)
        a = {"s": "1", "x": "dx"}
        kids = []
        for x in s[1:]:
            if x == " x 3":
                a["x"] = "3"
                live = False
            elif x == " sub 5":
                kids.append({"p": "5", "q": "dq"})
                live = True
            elif x == "  q 6" and kids and live:
                kids[-1]["q"] = "6"
        if not kids:
            kids = [{"p": "dp", "q": "dq"}]
        if pb == "**":
            first = {}
            for k in kids:
                for n, v in k.items():
                    first.setdefault(n, v)
            if len(kids) > 1:
                return Outcome(("undefined",), nontrivial=False)
            a["b"] = first
        else:
            a["b"] = kids if pb == "*" or len(kids) > 1 else kids[0]
        obs.expect(got, {"a": [a] if pa == "*" else a}, t, text)
        return Outcome(got)

    ck.explore("nested start default", cases, fn, "one parent record, all sequences of up to 3 further lines, all path formatters")


def long_texts(ck):
    """where in a text matches are does not decide what defaults go to: text of any size"""
    tpl = ('<group name="a*">\nstart {{ s }}\n x {{ x | default("dx") }}\n<group name="b*">\n sub {{ p | default("dp") }}\n'
           '  q {{ q | default("dq") }}\n</group>\n</group>\n<group name="c*">\nother {{ o | default("do") }}\n</group>')
    sizes = (10, 1 << 10, 1 << 16, 1 << 20, 10000100) + ((1 << 24, 1 << 26) if ck.thorough else ())

    def cases():
        for tail in ((), (" x 3",), (" sub 5",)):
            lines = ("start 1",) + tail
            for at in range(len(lines) + 1):
                for size in sizes:
                    for filler in ("n", "\n") if size < 1 << 18 or ck.thorough else ("n",):
                        yield lines, at, size, filler

    def fn(case):
        lines, at, size, filler = case
        text = "\n".join(lines[:at] + (filler * size,) + lines[at:])
        got = obs.run1(tpl, text)
        a = {"s": "1", "x": "3" if " x 3" in lines else "dx", "b": [{"p": "5" if " sub 5" in lines else "dp", "q": "dq"}]}
        obs.expect(got, {"a": [a], "c": [{"o": "do"}]}, tpl, "%r with %d characters %r before line %d" % (lines, size, filler, at))
        return Outcome((got, size))

    ck.explore("long texts", cases, fn, "lines of one record with up to 10 million (2**26 when thorough) other characters before each of them")


# text of the template line, line of data, value matched, default it gives (or NO)
NO = object()
WLINES = [
    (" l%d {{ b }}", " l%d m", "m", NO),
    (" l%d {{ b | default }}", " l%d m", "m", "None"),
    (' l%d {{ b | default("v") }}', " l%d m", "m", "v"),
    (' l%d {{ b | default("") }}', " l%d m", "m", ""),
    (" l%d {{ b | default(0) }}", " l%d m", "m", 0),
    (" l%d {{ b | default(None) }}", " l%d m", "m", None),
    (' l%d {{ b | default("v2") | upper }}', " l%d m", "M", "v2"),
    (' l%d {{ b | upper | default("v3") }}', " l%d m", "M", "v3"),
    ('{{ b | set("s") }}', None, None, "s"),
    (' l%d {{ b | set("t") }}', " l%d", "t", NO),
    (' l%d {{ b | set("t") | default("u") }}', " l%d", "t", "u"),
]


def which(ck):
    """of several defaults the last one given for a variable counts, the group's default only without any"""

    def cases():
        for group in (None, "gd", "", "5"):
            for n in (1, 2, 3) if ck.thorough else (1, 2):
                for lines in itertools.product(range(len(WLINES)), repeat=n):
                    for where in ("top", "nested", "nested without default"):
                        yield group, lines, where

    def fn(case):
        group, lines, where = case
        attr = "" if group is None else ' default="%s"' % group
        body = "\n".join(WLINES[k][0] % i if "%d" in WLINES[k][0] else WLINES[k][0] for i, k in enumerate(lines))
        # lines are told apart by letters, digits match any digits
        for i in range(len(lines)):
            body = body.replace("l%d" % i, "l" + "xyz"[i])
        given = [WLINES[k][3] for k in lines if WLINES[k][3] is not NO]
        default = given[-1] if given else NO if group is None else group
        inner = "start {{ s }}\n%s" % body
        if where == "top":
            tpl = '<group name="g*"%s>\n%s\n</group>' % (attr, inner)
        else:
            tpl = '<group name="o"%s>\ntop {{ t }}\n<group name="g*"%s>\n%s\n</group>\n</group>' % (' default="of"' if where == "nested" else "", attr, inner)
        text, want = ["top 1"] if where != "top" else [], []
        for pick in [None] + list(range(len(lines))):
            text.append("start 2")
            rec = {"s": "2"}
            if pick is not None and WLINES[lines[pick]][1] is not None:
                text.append((WLINES[lines[pick]][1] % pick).replace("l%d" % pick, "l" + "xyz"[pick]))
                rec["b"] = WLINES[lines[pick]][2]
            elif default is not NO:
                rec["b"] = default
            want.append(rec)
        w = {"g": want} if where == "top" else {"o": {"t": "1", "g": want}}
        got = obs.run1(tpl, "\n".join(text))
        obs.expect(got, w, tpl, text, "which default counts, %r:" % (case,))
        return Outcome(h(w), True, states=[h(case)], transitions=len(want))

    ck.explore("which default counts", cases, fn, "all lists of up to 2 (3) lines of a variable with every kind of default, every kind of group default, top level and nested groups")
