"""C01: which lines a template line matches, and what its variables hold. The
reference is a character-level backtracking matcher over the items the template
line was built from; it shares nothing with the regular expressions of ttp.

One parse decides all text lines at once: every candidate line is followed by a
marker line whose number lands in the record the candidate opened, if it did."""
import itertools

from mc import obs
from mc.core import Outcome, Violation, same

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of template lines x text lines on the real parser, decided by a reference matcher"
ASSUMPTIONS = ["characters with a meaning in XML (< &) and double braces cannot be literals of a template line"]

BLANKS = " \t"
DIGITS = "0123456789"


def match(items, text, exact=False, exact_space=False):
    """values of the variables, or None; leftmost item takes as much as it can"""

    def go(k, i):
        if k == len(items):
            return {} if not text[i:].strip(" \t\r") else None
        kind, val = items[k]
        if kind == "ind" or kind == "lit" or (kind == "num" and exact) or (kind == "ws" and exact_space):
            return go(k + 1, i + len(val)) if text.startswith(val, i) else None
        cls = {"num": lambda c: c in DIGITS, "ws": lambda c: c in BLANKS,
               "var": lambda c: not c.isspace(), "ign": lambda c: not c.isspace(),
               "igd": lambda c: c in DIGITS}[kind]
        j = i
        while j < len(text) and cls(text[j]):
            j += 1
        while j > i:
            r = go(k + 1, j)
            if r is not None:
                if kind == "var":
                    r = dict(r)
                    r[val] = text[i:j]
                return r
            j -= 1
        return None

    return go(0, 0)


def render(items, flag=""):
    out = []
    first = True
    for kind, val in items:
        if kind == "var":
            out.append("{{ %s%s }}" % (val, flag if first else ""))
            first = False
        elif kind == "ign":
            out.append("{{ ignore }}")
        elif kind == "igd":
            out.append(r'{{ ignore("\d+") }}')
        else:
            out.append(val)
    line = "".join(out)
    if not any(k == "var" for k, _ in items):
        line += " {{ _start_ }}" if not flag else " {{ _start_%s }}" % flag
    return line


def lines_of(alphabet, n):
    for k in range(n + 1):
        for cs in itertools.product(alphabet, repeat=k):
            yield "".join(cs)


def decide(items, lines, flag="", exact=False, exact_space=False, eol="\n"):
    template = '<group name="r*">\n%s\n@ {{ n__ }} @ @ @ @ @ @ @\n</group>' % render(items, flag)
    text = []
    for n, l in enumerate(lines):
        text.append(l)
        text.append("@ %d @ @ @ @ @ @ @" % n)
    got = obs.run1(template, eol.join(text))
    want = []
    for n, l in enumerate(lines):
        m = match(items, l, exact, exact_space)
        if m is not None:
            want.append(dict(m, n__=str(n)))
    rs = got.get("r", []) if isinstance(got, dict) else got
    if not same(rs, want):
        diff = None
        if isinstance(rs, list):
            a = {r.get("n__"): r for r in want}
            b = {r.get("n__"): r for r in rs}
            for n in sorted(set(a) | set(b), key=lambda x: (x is None, int(x) if x else 0)):
                if a.get(n) != b.get(n):
                    diff = "line %r: expected %r, observed %r" % (lines[int(n)] if n else n, a.get(n), b.get(n))
                    break
        raise Violation("template line %r\n%s" % (render(items, flag), diff or repr(rs)[:600]),
                        template=template, first_difference=diff)
    return Outcome((len(want), hash(repr(want))), nontrivial=0 < len(want) < len(lines), count=len(lines))


def programs(atoms, maxlen, indents):
    """item lists: non-blank at both ends, at least one variable or ignore, no
    repeated variable, no two blanks or two digit runs side by side"""
    for ind in indents:
        for k in range(1, maxlen + 1):
            for items in itertools.product(atoms, repeat=k):
                if items[0][0] == "ws" or items[-1][0] == "ws":
                    continue
                if not any(i[0] in ("var", "ign", "igd") for i in items):
                    continue
                vs = [i[1] for i in items if i[0] == "var"]
                if len(vs) != len(set(vs)):
                    continue
                bad = False
                for a, b in zip(items, items[1:]):
                    if a[0] == b[0] and a[0] in ("ws", "num"):
                        bad = True
                if bad:
                    continue
                yield ([("ind", ind)] if ind else []) + list(items)


A, DOT, N1, SP, SP2, TAB = ("lit", "a"), ("lit", "."), ("num", "1"), ("ws", " "), ("ws", "  "), ("ws", "\t")
V, W, IG, IGD = ("var", "v"), ("var", "w"), ("ign", ""), ("igd", "")
PUNCT = [c for c in map(chr, range(33, 127)) if c not in "<&{}@" and not c.isalnum()] + ["é"]


def check(ck):
    big = ck.thorough
    T1 = list(lines_of("a1. \t", 6 if big else 5))
    T1 += ["b", "ba1", "a\t1\t.", "aa 11 ..", "11 a1 1a", "a  1  .  a", "   a   1", "A 1"]
    T0 = list(lines_of("a1. \t", 4)) + T1[-8:] + ["a1 .a", "a 1 a1", "1  a. a", "aa11a", "a. .1"]
    ck.explore("indent", lambda: programs([A, N1, SP, V, IG], 3, ["", " ", "  ", "\t", " \t"]),
               lambda c: decide(c, T1), "template lines of <= 3 items under 5 indents x %d text lines" % len(T1))
    ck.explore("body", lambda: programs([A, DOT, N1, SP, SP2, V, W, IG, IGD], 4, [""]),
               lambda c: decide(c, T1 if big else T0), "template lines of <= 4 items from 9 x %d text lines" % len(T1 if big else T0))
    T2 = list(lines_of("ab1 ", 6 if big else 5))
    ck.explore("long", lambda: (p for p in programs([A, N1, SP, V, W], 6 if big else 5, [""]) if len(p) >= 4),
               lambda c: decide(c, T2), "template lines of 4 to %d items x %d text lines" % (6 if big else 5, len(T2)))
    T3 = list(lines_of("a12 \t", 6 if big else 5)) + ["a 12 12", "12  12", "12\t 12", "1212", "a12a 1 21"]
    N12 = ("num", "12")

    def flagged():
        for p in programs([A, N12, SP, SP2, TAB, V], 4, ["", "  "]):
            if any(k == "num" for k, _ in p) or any(k == "ws" for k, _ in p):
                for f, e, s in ((" | _exact_", True, False), (" | _exact_space_", False, True),
                                (" | _exact_ | _exact_space_", True, True)):
                    yield p, f, e, s

    ck.explore("exact", flagged, lambda c: decide(c[0], T3, c[1], c[2], c[3]),
               "template lines of <= 4 items with _exact_, _exact_space_ and both x %d text lines" % len(T3))

    def punct():
        for c in PUNCT:
            for shape in ([("lit", "a" + c + "b"), SP, V], [V, ("lit", c), W], [("lit", c), V], [V, ("lit", c)],
                          [("lit", "a" + c + c + "a" + c), V], [("lit", "a"), SP, ("lit", c), SP, V]):
                yield shape

    T4 = []
    for c in PUNCT + ["", "X", "a", "1", "\\n", "\\"]:
        T4 += ["a%sb q" % c, "a%s%sb q" % (c, c), "x%sy" % c, "%sq" % c, "q%s" % c, "a%s%sa%sq" % (c, c, c), "a %s q" % c, "ab q", "A%sb q" % c]
    T4 = list(dict.fromkeys(T4))
    ck.explore("punctuation", punct, lambda c: decide(c, T4), "six template line shapes for each of %d punctuation characters x %d text lines" % (len(PUNCT), len(T4)))

    # names that are no identifiers
    def names():
        for n in ("a.b", "a-b", "1a", "a_b", "A", "a b".replace(" ", ""), "x1", "if", "class", "_x"):
            for shape in ([("lit", "a"), SP, ("var", n)], [("var", n), SP, ("var", "zz")]):
                yield shape

    ck.explore("names", names, lambda c: decide(c, T2), "variable names that are not identifiers")
    ck.explore("crlf", lambda: programs([A, N1, SP, V, W], 3, ["", " "]),
               lambda c: decide(c, T2, eol="\r\n"), "the same with carriage returns x %d text lines" % len(T2))

    # position of the line in the input and role of the template line
    roles = [
        ("start", "%s", lambda v: v),
        ("second start", "zz {{ zz }}\n%s", None),
        ("normal", "top {{ t_t }}\n%s", None),
    ]
    shapes = [[A, SP, V], [("ind", " "), A, SP, V, ("lit", ","), SP, N1], [V, SP, A], [("ind", "  "), V]]
    pads = ["", "\n", "\n\n", " \n", "x y z q\n", "\t\n"]
    cands = ["a b", "a b ", "a b\t ", " a b", "a  b", "a b c", "b a", "b a  ", "  b", " a b, 12", " a b, 12 3", "  b  ", "a", ""]

    def positions():
        for s in shapes:
            for pre in pads:
                for suf in pads + ["\nx y z q"]:
                    for eol in ("\n", "\r\n"):
                        for c in cands:
                            for role in ("start", "normal", "child"):
                                yield s, pre, suf, eol, c, role

    def position(case):
        s, pre, suf, eol, c, role = case
        line = render(s)
        text = pre + c + (suf if suf.startswith("\n") or not suf else "\n" + suf)
        m = match(s, c)
        if role == "start":
            template, want = '<group name="r">\n%s\n</group>' % line, ({} if m is None else {"r": m})
        elif role == "normal":
            template = '<group name="r">\nhead {{ h }}\n%s\n</group>' % line
            text = "head 1\n" + text
            want = {"r": dict(m or {}, h="1")}
        else:
            template = '<group name="r">\nhead {{ h }}\n<group name="k">\n%s\n</group>\n</group>' % line
            text = "head 1\n" + text
            want = {"r": {"h": "1"}}
            if m is not None:
                want["r"]["k"] = m
        # the padding must not match itself
        for l in text.split("\n"):
            if l != c and match(s, l) is not None:
                return Outcome("padding matches", nontrivial=False)
        got = obs.run1(template, text.replace("\n", eol))
        obs.expect(got, want, template, text)
        return Outcome(got, nontrivial=m is not None)

    ck.explore("position", positions, position, "line first, last, alone, after and before blank lines; LF and CRLF; start, normal and nested start line")
