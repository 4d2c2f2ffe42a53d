"""C06: repeated lines and free form lines, driven by the record model of C02 with two
more kinds of lines: joined ones, and ones that only unclaimed text belongs to."""
import itertools

from mc import model, obs
from mc.core import Outcome, h
from checks.c05 import L

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of sequences of repeated, claimed and unclaimed lines replayed on the parser against the record model"
ASSUMPTIONS = ["a line of a nested group before that group's first start, and mixing joined strings with lists afterwards, are left out"]

G = {"a": (None, "a")}
GB = {"a": (None, "a"), "b": ("a", "b")}
GBC = {"a": (None, "a"), "b": ("a", "b"), "c": ("a", "c")}


def specs():
    # separators x conversions
    for sep, char in [("", "\n"), ("','", ","), ("' '", " "), ("''", ""), ("'\\n'", "\n"), ("'; '", "; "), ("'*'", "*")]:
        for conv, f in [("", str), (" | to_int", int), (" | to_list", lambda v: [v]), (" | split('-')", lambda v: v.split("-")), (" | upper | to_str", str.upper),
                        (" | unrange('-', ';') | split(';')", lambda v: v.split(";"))]:
            if sep not in ("", "','") and conv not in ("", " | to_list"):
                continue
            v1, v2 = ("1", "2") if "int" in conv or "unrange" in conv else ("p-1", "q-2")
            s = model.Spec("separator %s%s" % (sep, conv), '<group name="a">\nstart {{ s }}\n v {{ v%s | joinmatches%s }}\n x {{ x }}\n</group>' % (conv, "(%s)" % sep if sep else ""),
                           G, [L("start 1", "start", "a", s="1"), L(" v %s" % v1, "join", "a", v=f(v1)), L(" v %s" % v2, "join", "a", v=f(v2)), L(" x 3", "add", "a", x="3")],
                           depth=(5, 7), joinchar=char)
            yield s
    yield model.Spec("numbers and words", '<group name="a">\nstart {{ s }}\n v {{ v | to_int | joinmatches }}\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L(" v 1", "join", "a", v=1), L(" v 2", "join", "a", v=2), L(" v auto", "join", "a", v="auto")], depth=(6, 8))
    # values that are false in a condition are values like any other
    for conv, pairs in [("to_int", (("0", 0), ("2", 2))), ("to_float", (("0.0", 0.0), ("2.5", 2.5))), ("strip('x')", (("x", ""), ("ax", "a"))),
                        ("resub('x', '') | to_list", (("x", [""]), ("ax", ["a"]))), ("contains('x') | replaceall('', 'x')", (("x", ""), ("ax", "a")))]:
        yield model.Spec("false values %s" % conv, '<group name="a">\nstart {{ s }}\n v {{ v | %s | joinmatches(",") }}\n x {{ x }}\n</group>' % conv, G,
                         [L("start 1", "start", "a", s="1")] + [(" v %s" % t, [("join", "a", {"v": v})]) for t, v in pairs] + [L(" x 3", "add", "a", x="3")], joinchar=",", depth=(5, 7))
    yield model.Spec("two lines, one variable", '<group name="a">\nstart {{ s }}\n v {{ v | joinmatches(",") }}\n w {{ v | joinmatches(",") }}\n more {{ v | ORPHRASE | joinmatches(",") }} end\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L(" v 1", "join", "a", v="1"), L(" w 2", "join", "a", v="2"), L(" more 3 4 end", "join", "a", v="3 4"), (" v", [])], joinchar=",", depth=(6, 7))
    yield model.Spec("joined list and string lines", '<group name="a">\nstart {{ s }}\n v {{ v | joinmatches }}\n w {{ v | to_list | joinmatches }}\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L(" v 1", "join", "a", v="1"), L(" w 2", "join", "a", v=["2"])], depth=(6, 8))
    yield model.Spec("two joined variables on a line", '<group name="a">\nstart {{ s }}\n v {{ v | joinmatches("-") }} {{ w | to_list | joinmatches("-") }}\n x {{ x }}\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L(" v 1 2", "join", "a", v="1", w=["2"]), L(" v 3 4", "join", "a", v="3", w=["4"]), L(" x 5", "add", "a", x="5")], joinchar="-", depth=(6, 7))
    for cv, cw in itertools.product((",", "-", "", None), repeat=2):
        args = ["(%r)" % c if c is not None else "" for c in (cv, cw)]
        char = {"v": "\n" if cv is None else cv, "w": "\n" if cw is None else cw}
        yield model.Spec("two separators on a line %r %r" % (cv, cw), '<group name="a">\nstart {{ s }}\n v {{ v | joinmatches%s }} {{ w | upper | joinmatches%s }}\n w {{ w | joinmatches%s }}\n</group>' % (args[0], args[1], args[1]), G,
                         [L("start 1", "start", "a", s="1"), L(" v 1 a", "join", "a", v="1", w="A"), L(" v 3 b", "join", "a", v="3", w="B"), L(" w 5", "join", "a", w="5")], joinchar=char, depth=(5, 6))
    for name in ("v-1", "v.w", "1v", "v:", "v w".replace(" ", "/")):
        yield model.Spec("separator of variable %s" % name, '<group name="a">\nstart {{ s }}\n v {{ %s | joinmatches(",") }} {{ w | to_int | joinmatches("-") }}\n</group>' % name, G,
                         [L("start 1", "start", "a", s="1"), (" v 1 2", [("join", "a", {name: "1", "w": 2})]), (" v 3 4", [("join", "a", {name: "3", "w": 4})])], joinchar={name: ",", "w": "-"}, depth=(5, 6))
    yield model.Spec("start line joined", '<group name="a">\nstart {{ v | joinmatches(",") }}\n cont {{ v | joinmatches(",") }}\n x {{ x }}\n</group>', G,
                     [L("start 1", "start", "a", v="1"), L("start 2", "start", "a", v="2"), L(" cont 3", "join", "a", v="3"), L(" x 4", "add", "a", x="4")], joinchar=",", depth=(6, 7))
    yield model.Spec("around nested groups", '<group name="a">\nstart {{ s }}\n v {{ v | joinmatches(",") }}\n l {{ l | to_list | joinmatches }}\n<group name="b">\n sub {{ p }}\n  q {{ q | joinmatches(",") }}\n</group>\n x {{ x }}\n</group>', GB,
                     [L("start 1", "start", "a", s="1"), L(" v 2", "join", "a", v="2"), L(" v 3", "join", "a", v="3"), L(" l 4", "join", "a", l=["4"]),
                      L(" sub 5", "start", "b", p="5"), L("  q 6", "join", "b", q="6"), L(" x 7", "add", "a", x="7")], joinchar=",", depth=(5, 6))
    yield model.Spec("around two nested groups", '<group name="a">\nstart {{ s }}\n l {{ l | to_int | joinmatches }}\n<group name="b">\n sub {{ p | joinmatches(",") }}\n  q {{ p | joinmatches(",") }}\n</group>\n<group name="c">\n alt {{ c }}\n  d {{ d | split("-") | joinmatches }}\n</group>\n</group>', GBC,
                     [L("start 1", "start", "a", s="1"), L(" l 4", "join", "a", l=4), L(" sub 5", "start", "b", p="5"), L("  q 6", "join", "b", p="6"),
                      L(" alt 7", "start", "c", c="7"), L("  d 8-9", "join", "c", d=["8", "9"])], joinchar=",", depth=(5, 6))
    yield model.Spec("not joined", '<group name="a">\nstart {{ s }}\n v {{ v }}\n w {{ v }}\n l {{ l | to_list }}\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L(" v 1", "add", "a", v="1"), L(" v 2", "add", "a", v="2"), L(" w 3", "add", "a", v="3"), L(" l 4", "add", "a", l=["4"]), L(" l 5", "add", "a", l=["5"])], depth=(5, 7))
    yield model.Spec("not joined around nested groups", '<group name="a">\nstart {{ s }}\n v {{ v }}\n w {{ v | joinmatches(",") }}\n l {{ l | to_list }}\n<group name="b">\n sub {{ v }}\n  q {{ v }}\n</group>\n</group>', GB,
                     [L("start 1", "start", "a", s="1"), L(" v 1", "add", "a", v="1"), L(" v 2", "add", "a", v="2"), L(" w 3", "join", "a", v="3"), L(" l 4", "add", "a", l=["4"]), L(" l 5", "add", "a", l=["5"]),
                      L(" sub 6", "start", "b", v="6"), L("  q 7", "add", "b", v="7")], depth=(5, 6), joinchar=",")
    # free form lines
    yield model.Spec("line", '<group name="a">\nstart {{ s }}\n x {{ x }}\n {{ c | _line_ | joinmatches }}\n! {{ _end_ }}\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L(" x 3", "add", "a", x="3"), L(" free one", "line", "a", c="free one"), L("  x 3 4", "line", "a", c=" x 3 4"), ("none", []), ("!", [("end", "a", {})]), ("", [])], depth=(5, 7))
    yield model.Spec("line at column 0", '<group name="a">\nstart {{ s }}\n x {{ x }}\n{{ c | _line_ | joinmatches(" / ") }}\nstop {{ _end_ }}\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L(" x 3", "add", "a", x="3"), L("free  one", "line", "a", c="free  one"), L(" start 1", "line", "a", c=" start 1"), L("  two", "line", "a", c="  two"), ("stop", [("end", "a", {})])], joinchar=" / ", depth=(5, 7))
    yield model.Spec("line with checks and lists", '<group name="a">\nstart {{ s }}\n x {{ x }}\n {{ c | _line_ | contains("ee") | upper | to_list | joinmatches }}\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L(" x 3", "add", "a", x="3"), L(" free", "line", "a", c=["FREE"]), (" other", []), L(" tree x 3", "line", "a", c=["TREE X 3"])], depth=(6, 7))
    yield model.Spec("line with claimed checks", '<group name="a">\nstart {{ s }}\n x {{ x | equal("3") }}\n {{ c | _line_ | joinmatches }}\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L(" x 3", "add", "a", x="3"), L(" x 4", "line", "a", c="x 4"), L(" free", "line", "a", c="free")], depth=(6, 8))
    yield model.Spec("line and nested group", '<group name="a">\nstart {{ s }}\n x {{ x }}\n {{ c | _line_ | joinmatches }}\n<group name="b">\n sub {{ p }}\n  q {{ q }}\n  r {{ r | joinmatches }}\n</group>\n! {{ _end_ }}\n</group>', GB,
                     [L("start 1", "start", "a", s="1"), L(" x 3", "add", "a", x="3"), L(" free", "line", "a", c="free"), L(" sub 5", "start", "b", p="5"), L("  q 6", "add", "b", q="6"), L("  r 7", "join", "b", r="7"), ("!", [("end", "a", {})])], depth=(5, 6))
    yield model.Spec("line in the nested group", '<group name="a">\nstart {{ s }}\n x {{ x }}\n<group name="b">\n sub {{ p }}\n  {{ c | _line_ | joinmatches(",") }}\n out {{ _end_ }}\n</group>\n</group>', GB,
                     [L("start 1", "start", "a", s="1"), L(" x 3", "add", "a", x="3"), L("  free", "line", "b", c="free"), L("  start", "line", "b", c="start"), L(" sub 5", "start", "b", p="5"), (" out", [("end", "b", {})]), (" text", [])], joinchar=",", depth=(5, 6))
    yield model.Spec("line with other top groups", '<group name="a">\nstart {{ s }}\n x {{ x }}\n{{ c | _line_ | joinmatches }}\n</group>\n<group name="o">\nother {{ o }}\n y {{ y }}\n</group>', {"a": (None, "a"), "o": (None, "o")},
                     [L("start 1", "start", "a", s="1"), L(" x 3", "add", "a", x="3"), ("other 2", [("line", "a", {"c": "other 2"}), ("start", "o", {"o": "2"})]), (" y 4", [("line", "a", {"c": " y 4"}), ("add", "o", {"y": "4"})])], depth=(6, 7))
    yield model.Spec("several starts and line", '<group name="a">\nstart {{ s }}\nstart {{ s }} {{ t | _start_ }}\n x {{ x | joinmatches(",") }}\n {{ c | _line_ | joinmatches(",") }}\n</group>', G,
                     [L("start 1", "start", "a", s="1"), L("start 1 2", "start", "a", s="1", t="2"), L(" x 3", "join", "a", x="3"), L(" free", "line", "a", c="free"), L(" start 1", "line", "a", c="start 1")], joinchar=",", depth=(5, 7))


def undefined(spec, seq):
    started = set()
    # whether a nested record stays open over a free line followed by another line of
    # its parent is not defined
    phase = 0
    for text, cands in seq:
        for kind, g, vals in cands:
            top = spec.groups[g][0] is None
            if kind in ("start", "end"):
                phase = 0
            elif kind == "line" and top and phase == 0:
                phase = 1
            elif top and phase == 1 and kind != "line":
                phase = 2
            elif not top and phase == 2:
                return True
            if kind == "start":
                if spec.groups[g][0] in started | {None}:
                    started.add(g)
            elif spec.groups[g][0] is not None and g not in started and kind != "line":
                return True
    if spec.name == "joined list and string lines":
        # strings joined before the first list stay joined
        run = 0
        for text, _ in seq:
            if text.startswith("start"):
                run = 0
            elif text == " v 1":
                run += 1
            elif run > 1:
                return True
            else:
                run = -100
    return False


def check(ck):
    def fn(spec):
        depth = spec.depth[1 if ck.thorough else 0]
        keys, states, count = [], set(), 0
        gen = (s for n in range(depth + 1) for s in itertools.product(spec.tokens, repeat=n))
        while True:
            part = list(itertools.islice(gen, 300))
            if not part:
                break
            got = obs.run_batch(spec.template, ["\n".join(t[0] for t in s) for s in part])
            for s, g in zip(part, got):
                if undefined(spec, s):
                    continue
                m = model.run(spec, s)
                if m.undefined:
                    continue
                states.add(h((spec.name, m.state())))
                obs.expect(g, m.result(), spec.template, "\n".join(t[0] for t in s))
                keys.append(h(g))
                count += 1
        return Outcome(keys, states=states, transitions=count, count=count)

    ck.explore("joined and free lines", lambda: list(specs()), fn, "all sequences of up to 5 or 6 lines (7 or 8 thorough) for each template")
