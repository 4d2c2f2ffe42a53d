"""C24: _headers_ tables. Every bounded header layout is given every bounded row; the
records must be the rows cut at the header's positions."""
import itertools
import sys

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of header layouts and rows executed on the real parser against a reference that slices the row"
ASSUMPTIONS = [
    "a row in which a column holds just the name of its header is taken for a header row",
    "header lines contain no tabs except in their indentation",
]
DEEP = "thorough" in sys.argv


def layout(names, gaps, indent):
    """header line and the start position of each column, the last one open"""
    line, starts = indent, []
    width = len(indent.replace("\t", "    "))
    pos = width
    for i, n in enumerate(names):
        starts.append(0 if i == 0 else pos)
        line += n
        pos += len(n)
        if i < len(names) - 1:
            line += " " * gaps[i]
            pos += gaps[i]
    return line, starts


def record(row, names, starts, columns):
    """the record of a row, or None"""
    n = len(names)
    c = max(1, n - 2) if columns is None else min(max(1, columns), n)
    if len(row) < starts[c - 1] + 1:
        return None
    ends = starts[1:] + [len(row)]
    rec = {name: row[s:e].strip() for name, s, e in zip(names, starts, ends)}
    if any(rec[k] == k for k in names):
        return None
    return rec


def layouts():
    names1 = ["x", "y", "xy", "xyx"]
    for indent in ("", " ", "  ", "\t"):
        for n in names1:
            yield (n,), (), indent
        for pair in itertools.permutations(names1, 2):
            for g in (1, 2, 3):
                yield pair, (g,), indent
    for triple in itertools.permutations(names1[:3] if not DEEP else names1, 3):
        for gaps in itertools.product((1, 2), repeat=2):
            for indent in ("", " ") if not DEEP else ("", " ", "\t"):
                yield triple, gaps, indent
    four = ("x", "y", "xy", "z")
    for names in itertools.permutations(four) if DEEP else [four, four[::-1]]:
        for indent in ("", " "):
            yield names, (1, 1, 1), indent


def cases():
    for names, gaps, indent in layouts():
        for columns in [None] + list(range(0, len(names) + 2)):
            yield names, gaps, indent, columns


def rows(alphabet, longest):
    for n in range(longest + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)


def template(line, columns, gap="  "):
    return '<group name="t*">\n%s%s{{ _headers_%s }}\n</group>' % (line, gap, "" if columns is None else " | columns(%d)" % columns)


def compare(names, starts, columns, line, text_rows, note):
    tpl = template(line, columns)
    text = "\n".join(text_rows)
    got = obs.run1(tpl, text)
    recs = [r for r in (record(x, names, starts, columns) for x in text_rows) if r is not None]
    want = {"t": recs} if recs else {}
    if got != want:
        # name the first row that differs
        for x in text_rows:
            one = obs.run1(tpl, x)
            r = record(x, names, starts, columns)
            obs.expect(one, {"t": [r]} if r is not None else {}, tpl, x, note)
        obs.expect(got, want, tpl, text, note)
    return recs


ALPHABETS = [("xy ", None), ("1. ", 5), ("\u00e9\t ", 5), ("*-$ ", 4)]


def fn(case):
    names, gaps, indent, columns = case
    line, starts = layout(names, gaps, indent)
    total, kinds = 0, set()
    for alphabet, longest in ALPHABETS:
        if longest is None:
            longest = min(starts[-1] + 2, 8 if DEEP else 7)
        rs = list(rows(alphabet, longest))
        plain = line.replace("\t", "    ")
        rs += [plain, plain + " ", plain + "x", " " * starts[-1] + "x" * 3, "x" * (starts[-1] + 12), " " * (starts[-1] + 5)]
        # long rows around every column border
        for s in starts + [starts[-1] + 1, starts[-1] + 2]:
            for ch in alphabet:
                rs += [ch * s, ch * (s + 1), " " * s + ch, ch * s + " " + ch, ch * s + " " * 3 + ch]
        for i in range(0, len(rs), 4000):
            recs = compare(names, starts, columns, line, rs[i:i + 4000], "row:")
            total += len(rs)
            kinds.update(tuple(bool(v) for v in r.values()) for r in recs)
    return Outcome(h((len(names), columns, sorted(kinds))), bool(kinds), count=total, states=[h(case)], transitions=total)


# ------------------------------------------------------------ values of the documented width
def wide_cases():
    for n in range(2, 8):
        for width in (2, 5, 9):
            for columns in [None] + list(range(1, n + 1)):
                yield n, width, columns


def wide_fn(case):
    """every combination of empty, short, full and (for the last) long values"""
    n, width, columns = case
    names = tuple("ABCDEFGH"[i] for i in range(n))
    line, starts = layout(names, (width - 1,) * (n - 1), "")
    vals = ["", "v", "w" * width]
    rs = []
    for t in itertools.product(vals, repeat=n) if n < 7 else itertools.product(vals, repeat=6):
        if n == 7:
            t = t + ("z y",)
        for tail in ("", "long value") if n < 6 else ("",):
            rs.append("".join(v.ljust(width) for v in t).rstrip() + tail)
    recs = compare(names, starts, columns, line, rs, "values:")
    return Outcome(h((case, len(recs))), bool(recs), count=len(rs), states=[h(case)], transitions=len(rs))


# ------------------------------------------------------------ tables in groups
LINES = ["T a", "T b", "A    B    C", "1    2    3", "7    8", "q         r"]


def group_cases():
    for n in range(1, 6 if DEEP else 5):
        for seq in itertools.product(range(len(LINES)), repeat=n):
            for kind in range(5):
                yield ["T z"] + [LINES[i] for i in seq], kind


def group_fn(case):
    lines, kind = case
    text = "\n".join(lines)
    names, starts = ("A", "B", "C"), [0, 5, 10]

    def rec(x, cols=2):
        return record(x, names, starts, cols) if not x.startswith("T") else None
    head = "A    B    C  {{ _headers_ | columns(2) }}"
    recs = [r for r in map(rec, lines) if r]
    if kind == 0:  # child group of a group started by another line
        tpl = '<group name="p*">\nT {{ t }}\n<group name="r*">\n%s\n</group>\n</group>' % head
        p = []
        for x in lines:
            if x.startswith("T"):
                p.append({"t": x[2:]})
            elif rec(x):
                p[-1].setdefault("r", []).append(rec(x))
        want = {"p": p}
    elif kind == 1:  # no path name for the table: one record is a dictionary
        tpl = '<group name="r">\n%s\n</group>' % head
        want = {"r": recs if len(recs) > 1 else recs[0]} if recs else {}
    elif kind == 2:  # two tables with different mandatory columns
        tpl = '<group name="a*">\n%s\n</group>\n<group name="b*">\n%s\n</group>' % (head, head.replace("columns(2)", "columns(3)"))
        want = {}
        if recs:
            want["a"] = recs
        r3 = [r for r in (rec(x, 3) for x in lines) if r]
        if r3:
            want["b"] = r3
    elif kind == 3:  # group function on the records
        tpl = '<group name="r*" contains="C">\n%s\n</group>' % head
        r = [x for x in recs if "C" in x]
        want = {"r": r} if r else {}
    else:  # a variable of the group next to the columns
        tpl = '<group name="r*" set="s" default="no">\n%s\n{{ s | set("1") }}\n</group>' % head
        tpl = '<group name="r*">\n%s\n{{ s | set("1") }}\n</group>' % head
        want = {"r": [dict(r, s="1") for r in recs]} if recs else {}
    obs.expect(obs.run1(tpl, text), want, tpl, text, "table in a group:")
    return Outcome(h((kind, want)), bool(recs), states=[h((kind, tuple(lines)))], transitions=1)


def check(ck):
    ck.explore("rows", cases, fn, rule="all header layouts (1-4 columns, gaps 1-3, four indentations, every value of columns), all rows over four alphabets up to the stated length")
    ck.explore("wide tables", wide_cases, wide_fn, rule="all combinations of empty, short and full values in tables of up to seven columns")
    ck.explore("tables in groups", group_cases, group_fn, rule="all texts of up to 4 (thorough 5) lines, five ways to place a table in a group")
