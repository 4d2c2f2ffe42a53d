"""C26: the built-in patterns against character-level recognisers. All strings up to the
stated lengths over alphabets fitted to each pattern, all token structures of addresses
and everything within one edit of a set of addresses, in every position of a line; then
all combinations of patterns, re() arguments and template variables on one variable."""
import ipaddress
import itertools
import sys

from mc import env, obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of strings over fitted alphabets and token structures on the real parser, decided by independent recognisers"
ASSUMPTIONS = [
    "which strings that are not valid IPv6 addresses but consist of hexadecimal groups and colons are matched is undefined (documented), as are MAC addresses mixing separators and addresses with an embedded IPv4 part",
    "digits are ASCII digits",
]
DEEP = "thorough" in sys.argv

HEX = set("0123456789abcdefABCDEF")
DIG = set("0123456789")
SOME = object()  # the documentation leaves it open


def is_word(s):
    return bool(s) and not any(c.isspace() for c in s)


def is_phrase(s):
    w = s.split(" ")
    return len(w) > 1 and all(map(is_word, w))


def is_orphrase(s):
    return is_word(s) or is_phrase(s)


def is_row(s):
    w = s.split(" ")
    return len(w) > 1 and is_word(w[0]) and is_word(w[-1]) and all(is_word(x) or x == "" for x in w)


def is_digit(s):
    return bool(s) and set(s) <= DIG


def is_ip(s):
    p = s.split(".")
    return len(p) == 4 and all(is_digit(x) and len(x) <= 3 for x in p)


def is_prefix(s):
    a, _, m = s.partition("/")
    return is_ip(a) and is_digit(m) and len(m) <= 2


def is_ipv6(s):
    if "%" not in s and "." not in s:
        try:
            ipaddress.IPv6Address(s)
            return True
        except ValueError:
            pass
    g = s.split(":")
    if len(g) < 2 or not all(set(x) <= HEX and len(x) <= 4 for x in g) or sum(map(bool, g)) > 8:
        return False
    return SOME


def is_prefixv6(s):
    a, _, m = s.partition("/")
    if not (is_digit(m) and len(m) <= 3):
        return False
    return is_ipv6(a)


def is_mac(s):
    if " " in s or sum(c in ":.-" for c in s) not in (2, 5):
        return False
    seps = [c for c in s if c in ":.-"]
    g = "".join(" " if c in ":.-" else c for c in s).split(" ")
    if not all(x and set(x) <= HEX for x in g):
        return False
    if [len(x) for x in g] not in ([2] * 6, [4] * 3):
        return False
    return True if len(set(seps)) == 1 else SOME


def is_line(s):
    return bool(s.strip())


PATTERNS = {"WORD": is_word, "PHRASE": is_phrase, "ORPHRASE": is_orphrase, "ROW": is_row, "DIGIT": is_digit, "IP": is_ip,
            "PREFIX": is_prefix, "IPV6": is_ipv6, "PREFIXV6": is_prefixv6, "MAC": is_mac, "_line_": is_line}


# ------------------------------------------------------------ deciding many strings at once
def words(alphabet, n):
    for k in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


CONTEXTS = [("", ""), ("k ", ""), ("  ", ""), ("k ", " e"), ("<", ">"), ("k,", ",e")]


def values(lines, pre, post, accept):
    """(value or None or SOME) the line gives"""
    out = []
    for x in lines:
        if not x.startswith(pre):
            out.append(None)
            continue
        b = x[len(pre):]
        if pre == "k ":
            b = b.lstrip(" \t")
        if post:
            b = b.rstrip(" \t")
            if not b.endswith(post.strip()):
                out.append(None)
                continue
            b = b[: len(b) - len(post.strip())]
            if post == " e":
                if not b.endswith((" ", "\t")):
                    out.append(None)
                    continue
                b = b.rstrip(" \t")
        else:
            b = b.rstrip(" \t")
        a = accept(b)
        out.append(SOME if a is SOME else b if a else None)
    return out


def decide(var, strings, accept, ctx, prolog="", note=""):
    pre, post = ctx
    lines = [pre + s + post for s in strings]
    want = values(lines, pre, post, accept)
    tpl = '%s<group name="r*">\n%s{{ v | %s }}%s\nZZ {{ z }} Q\n</group>' % (prolog, pre.replace("<", "&lt;"), var, post.replace(">", "&gt;"))
    text = "\n".join("%s\nZZ\t%d\tQ" % p for p in zip(lines, range(len(lines))))
    got = obs.run1(tpl, text)
    recs = got.get("r", []) if isinstance(got, dict) else None
    if not isinstance(recs, list):
        raise Violation("%s %s: result %.300r" % (note, var, got), template=tpl)
    seen = {}
    for r in recs:
        if set(r) != {"v", "z"} or r["z"] in seen:
            raise Violation("%s %s: record %r" % (note, var, r), template=tpl)
        seen[r["z"]] = r["v"]
    for i, w in enumerate(want):
        g = seen.get(str(i))
        if w is SOME:
            if g is None or g == lines[i][len(pre):].strip(" \t")[: len(g)]:
                continue
        if g != w:
            raise Violation("%s {{ v | %s }} in %r, line %r: expected %r, observed %r" % (note, var, (pre, post), lines[i], w, g),
                            template=tpl, line=lines[i])
    return sum(w is not None for w in want)


def batched(it, n):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b


# ------------------------------------------------------------ strings
ALPHA = {
    "WORD": [("ab \t", 6, 9), ("a.-/ ", 4, 7), ("\u00e9\u00a0x ", 5, 7), ("a1\x0b(", 4, 6)],
    "PHRASE": [("ab \t", 7, 9), ("a.- ", 7, 9), ("\u00e9\u00a0x ", 5, 7)],
    "ORPHRASE": [("ab \t", 7, 9), ("a1, ", 7, 9), ("\u00e9\u00a0x ", 5, 7)],
    "ROW": [("ab \t", 7, 9), ("a1, ", 7, 9)],
    "DIGIT": [("09a ", 6, 8), ("1.-+", 5, 7), ("5x/:", 5, 7)],
    "IP": [("1.", 14, 17), ("2.a", 10, 11), ("09. ", 8, 10)],
    "PREFIX": [("1./", 11, 12)],
    "IPV6": [("1a:", 10, 11), ("f:g", 9, 10), ("1:/.", 7, 8)],
    "PREFIXV6": [("a:/1", 8, 9), ("1:/", 11, 11)],
    "MAC": [("a:", 11, 13), ("1.-", 9, 9)],
    "_line_": [("ab \t", 6, 8), ("\u00e9<.]", 5, 7)],
}


def string_cases():
    for p in ALPHA:
        for alphabet, q, t in ALPHA[p]:
            n = t if DEEP else q
            for c in CONTEXTS:
                # the first character splits the work
                for first in alphabet:
                    yield p, first, alphabet, n, c


def string_fn(case):
    p, first, alphabet, n, ctx = case
    if p == "_line_" and first in " \t":
        return Outcome("blank start", False)
    total = hit = 0
    gen = ("".join((first, s)) for s in itertools.chain([""], words(alphabet, n - 1)))
    for b in batched(gen, 5000):
        if p == "_line_":
            # blanks at the end of the value are not part of the property
            b = [s for s in b if s == s.rstrip(" \t")]
        if p == "_line_" and ctx[1] == " e":
            b = [s for s in b if s]
        hit += decide(p, b, PATTERNS[p], ctx)
        total += len(b)
    return Outcome(h((p, hit)), hit > 0, count=total, states=[h(case)], transitions=total)


# ------------------------------------------------------------ token structures
def tokens(p):
    if p in ("IP", "PREFIX"):
        parts = ["", "1", "25", "999", "1000", "a"]
        for n in range(1, 6):
            for t in itertools.product(parts if n in (4,) else parts[1:5:2], repeat=n):
                yield ".".join(t)
                if p == "PREFIX" and n == 4:
                    for m in ("", "/", "/1", "/32", "/99", "/128", "/a", "/1/2", " /1", "/ 1"):
                        yield ".".join(t) + m
        for seps in itertools.product(".,-:/", repeat=3):
            s = "1" + "".join(x + "1" for x in seps)
            yield s
            yield s + "/8"
    elif p in ("IPV6", "PREFIXV6"):
        parts = ["", "1", "abCD"] if not DEEP else ["", "1", "abCD", "12345"]
        for n in range(1, 10 if not DEEP else 9):
            for t in itertools.product(parts, repeat=n):
                s = ":".join(t)
                if p == "IPV6":
                    yield s
                else:
                    for m in ("/0", "/64", "/128", "/1280", "/", ""):
                        yield s + m
        for n in (1, 2, 4, 7, 8, 9):
            for bad in ("12345", "g", "1 ", "1.", "-"):
                for k in range(n):
                    t = ["1"] * n
                    t[k] = bad
                    yield ":".join(t) + ("/64" if p == "PREFIXV6" else "")
                    yield "::" + ":".join(t) + ("/64" if p == "PREFIXV6" else "")
        if p == "IPV6" and DEEP:
            for t in itertools.product(["", "1"], repeat=10):
                yield ":".join(t)
    else:
        for n in range(1, 8):
            for t in itertools.product(["a", "b2", "C3d"] if n != 3 else ["", "a", "b2", "C3d", "e4F5", "12345"], repeat=n):
                for sep in ":.-" if n > 1 else ":":
                    yield sep.join(t)
        for n, g in ((6, "a1"), (3, "a1b2")):
            for seps in itertools.product(":.- ,", repeat=n - 1):
                yield g + "".join(x + g for x in seps)


def token_cases():
    for p in ("IP", "PREFIX", "IPV6", "PREFIXV6", "MAC"):
        for c in CONTEXTS:
            for part in range(16):
                yield p, c, part


def token_fn(case):
    p, ctx, part = case
    strings = sorted(set(s for i, s in enumerate(tokens(p)) if i % 16 == part and s))
    hit = 0
    for b in batched(strings, 4000):
        hit += decide(p, b, PATTERNS[p], ctx)
    return Outcome(h((p, hit)), hit > 0, count=len(strings), states=[h(case)], transitions=len(strings))


# ------------------------------------------------------------ near misses
SEEDS = {
    "WORD": ["Gi1/0.1", "a"], "PHRASE": ["two words", "a b c d"], "ORPHRASE": ["one", "two words here"], "ROW": ["a   b c", "x y"],
    "DIGIT": ["0", "0012300"], "IP": ["192.168.134.251", "1.1.1.1", "321.751.123.999"],
    "PREFIX": ["192.168.0.1/24", "999.321.192.6/99", "0.0.0.0/0"],
    "IPV6": ["2001:ABC0::FE31", "2002::fd37::91", "::", "::1", "1::", "1:2:3:4:5:6:7:8", "fe80::1:2:3", "::2:3:4:5:6:7:8", "1:2:3:4:5:6:7::"],
    "PREFIXV6": ["2001:ABC0::FE31/64", "2002::fd37::91/124", "::/0", "1:2:3:4:5:6:7:8/128", "::2:3:4:5:6:7:8/128"],
    "MAC": ["aa:bb:cc:dd:11:33", "aa.bb.cc.dd.11.33", "aabb:ccdd:1133", "aabb.ccdd.1133", "AA-BB-cc-dd-11-33", "aabb-ccdd-1133"],
    "_line_": ["any line, of text", "x"],
}
# stated in the documentation to match
DOCUMENTED = {"2002::fd37::91", "2002::fd37::91/124"}
EDITS = "0aAgz:./- \t_,"


def near(s, depth):
    out = {s}
    for _ in range(depth):
        new = set()
        for x in out:
            for i in range(len(x) + 1):
                for c in EDITS:
                    new.add(x[:i] + c + x[i:])
                    if i < len(x):
                        new.add(x[:i] + c + x[i + 1:])
                if i < len(x):
                    new.add(x[:i] + x[i + 1:])
                    if i + 1 < len(x):
                        new.add(x[:i] + x[i + 1] + x[i] + x[i + 2:])
        out |= new
    return sorted(out)


def near_cases():
    for p in SEEDS:
        for s in SEEDS[p]:
            for c in CONTEXTS:
                yield p, s, c


def near_fn(case):
    p, seed, ctx = case
    accept = PATTERNS[p]
    deep = 2 if len(seed) <= (17 if DEEP else 7) else 1
    strings = [s for s in near(seed, deep) if s]
    if p == "_line_":
        strings = [s for s in strings if s == s.strip()]
    hit = 0
    for b in batched(strings, 4000):
        hit += decide(p, b, lambda s: True if s in DOCUMENTED else accept(s), ctx, note="near %r" % seed)
    return Outcome(h((p, seed, hit)), hit > 0, count=len(strings), states=[h(case)], transitions=len(strings))


# ------------------------------------------------------------ long strings
PUMP = {"WORD": ["a. ", "a\t"], "PHRASE": ["a1 ", "a\t "], "ORPHRASE": ["a. "], "ROW": ["a1 ", "a\t "], "DIGIT": ["09a"], "IP": ["1."], "PREFIX": ["1./"], "IPV6": ["a:", "1:g"],
        "PREFIXV6": ["a:/"], "MAC": ["a:.", "1-"], "_line_": ["ab "]}


def pump_cases():
    for p in PUMP:
        for alphabet in PUMP[p]:
            for unit in words(alphabet, 3):
                for c in CONTEXTS:
                    yield p, alphabet, unit, c


def pump_fn(case):
    p, alphabet, unit, ctx = case
    ends = [""] + list(words(alphabet, 2))
    hit = total = 0
    for n in (5, 8, 9, 10, 11, 16, 17, 21, 33, 65) if not DEEP else list(range(3, 70)) + [100, 101, 128, 129, 256, 257, 1000, 1025]:
        strings = sorted(set(a + unit * n + b for a in ends for b in ends))
        strings = [s for s in strings if s.strip() and (p != "_line_" or s == s.strip())]
        hit += decide(p, strings, PATTERNS[p], ctx, note="long")
        total += len(strings)
    return Outcome(h((p, hit)), hit > 0, count=total, states=[h(case)], transitions=total)


# ------------------------------------------------------------ combinations
def r_ab(s):
    return bool(s) and set(s) <= set("ab")


def r_ab3(s):
    # (a|b)c* as a template variable
    return s[:1] in ("a", "b") and s[:1] != "" and set(s[1:]) <= {"c"}


def r_dot(s):
    return len(s) == 3 and s[0] == "a" and s[2] == "b"


def r_two(s):
    return s in ("x", "yy", "a 1")


CUSTOM = {
    're("[ab]+")': r_ab,
    're("VAR1")': r_ab3,
    're("a.b")': r_dot,
    're("VAR2")': r_two,
    're("(a)+1")': lambda s: s.endswith("1") and len(s) > 1 and set(s[:-1]) == {"a"},
    r're("\d{2}")': lambda s: len(s) == 2 and is_digit(s),
    r're(r"\S+:")': lambda s: is_word(s) and s[-1] == ":" and len(s) > 1,
    're("a")': lambda s: s == "a",
    "re('DIGIT')": None,
}
PROLOG = '<vars>\nVAR1 = "(a|b)c*"\nVAR2 = "x|yy|a 1"\nDIGIT = "z+"\n</vars>\n'
CUSTOM["re('DIGIT')"] = lambda s: bool(s) and set(s) == {"z"}  # a template variable comes first
BUILT = ["WORD", "PHRASE", "ORPHRASE", "ROW", "DIGIT", "IP", "PREFIX", "IPV6", "PREFIXV6", "MAC"]


def every():
    d = {}
    for p in BUILT:
        if p != "DIGIT":  # here a template variable has this name
            d[p] = PATTERNS[p]
            d["re('%s')" % p] = PATTERNS[p]
    d.update(CUSTOM)
    return d


EVERY = every()
PROBES = sorted(set(words("ab1 ", 4)) | set(words("acz", 4)) | {
    "x", "yy", "xx", "y", "a 1", "10.0.0.1", "10.0.0.1/8", "1.1.1", "::1", "a::/64", "fe80::1", "aa:bb:cc:dd:ee:ff", "aabb.ccdd.eeff",
    "aabb.ccdd", "a  b", "a b c", "a:", "a: :", "12", "123", "(a|b)c*", "VAR1", "DIGIT", "[ab]+", "a.b", "aXb", "a\tb", "zz9", "z:z"})


def combo_cases():
    names = list(EVERY)
    for a in names:
        yield (a,)
    for a, b in itertools.permutations(names, 2):
        yield a, b
    for t in itertools.permutations([n for n in names if n not in BUILT][-9:] + ["IP", "PHRASE"], 3) if DEEP else ():
        yield t


def combo_fn(case):
    accepts = [EVERY[c] for c in case]

    def accept(s):
        r = [f(s) for f in accepts]
        return True if any(x is True for x in r) else SOME if any(x is SOME for x in r) else False
    hit = 0
    n = 0
    for ctx in CONTEXTS if len(case) == 1 else CONTEXTS[:2] + CONTEXTS[4:5]:
        for mid in ("", 'let("") | '):
            if mid and ctx != CONTEXTS[1]:
                continue
            var = " | ".join(case)
            if mid:
                # functions between the patterns do not change what is matched
                var = ' | upper | '.join(case)
                strings = [s for s in PROBES if s == s.upper()]
            else:
                strings = PROBES
            hit += decide(var, strings, accept, ctx, PROLOG, "union:")
            n += len(strings)
    return Outcome(h((case, hit)), hit > 0, count=n, states=[h(case)], transitions=n)


# ------------------------------------------------------------ two variables on a line
PAIR = ["WORD", "PHRASE", "ORPHRASE", "ROW", "DIGIT", "IP", "PREFIX", "re('[ab]+')"]
EVERY["re('[ab]+')"] = r_ab
EVERY_PAIR = dict(EVERY, DIGIT=is_digit)
SEPS = [" ", "/", ", "]


def pair_cases():
    for a in PAIR:
        for b in PAIR:
            for s in SEPS:
                yield a, b, s


def pair_strings(sep):
    if sep == " ":
        return list(words("a1 ", 7 if DEEP else 6)) + ["1.1.1.1 a", "1.1.1.1/1 1", "a 1.1.1.1", "1 1.1.1.1/11"]
    if sep == "/":
        return list(words("a1 /", 6 if DEEP else 5)) + ["1.1.1.1/1", "1.1.1.1/1/1", "1.1.1.1/1/1.1.1.1", "a/1.1.1.1/1"]
    return list(words("a1 ,", 6 if DEEP else 5)) + ["1.1.1.1, 1.1.1.1/1", "a, b, 1.1.1.1"]


def splits(s, sep, A, B):
    """all ways to read the line as value, separator, value"""
    out = []
    s = s.rstrip(" \t")
    for i in range(1, len(s)):
        if sep == " ":
            if s[i] != " ":
                continue
            j = i
            while j < len(s) and s[j] == " ":
                j += 1
                if A(s[:i]) and B(s[j:]):
                    out.append((s[:i], s[j:]))
        elif sep == "/":
            if s[i] == "/" and A(s[:i]) and B(s[i + 1:]):
                out.append((s[:i], s[i + 1:]))
        elif s[i] == ",":
            j = i + 1
            while j < len(s) and s[j] == " ":
                j += 1
                if A(s[:i]) and B(s[j:]):
                    out.append((s[:i], s[j:]))
    return out


def pair_fn(case):
    a, b, sep = case
    strings = pair_strings(sep)
    tpl = '<group name="r*">\n{{ v | %s }}%s{{ w | %s }}\nZZ {{ z }} Q\n</group>' % (a, sep, b)
    # tabs keep the marker from being a value of these patterns
    text = "\n".join("%s\nZZ\t%d\tQ" % p for p in zip(strings, range(len(strings))))
    got = obs.run1(tpl, text)
    recs = got.get("r", []) if isinstance(got, dict) else []
    if any(set(r) != {"v", "w", "z"} for r in recs):
        raise Violation("records %.300r" % [r for r in recs if set(r) != {"v", "w", "z"}], template=tpl)
    seen = {r["z"]: r for r in recs}
    hit = 0
    for i, s in enumerate(strings):
        ways = splits(s, sep, EVERY_PAIR[a], EVERY_PAIR[b])
        g = seen.get(str(i))
        gv = (g["v"], g["w"]) if g else None
        if (gv is None) != (not ways) or (gv and gv not in ways):
            raise Violation("line %r, template line %r: possible %r, observed %r" % (s, tpl.splitlines()[1], ways, gv), template=tpl)
        hit += bool(ways)
    return Outcome(h((case, hit)), hit > 0, count=len(strings), states=[h(case)], transitions=len(strings))


def word_cases():
    """words that could be taken for a name of something TTP or Python have"""
    import builtins, glob, keyword, os
    words = {"get", "name", "re", "put", "up", "phrase", "Word", "IPV", "line", "_line", "_start", "x_y", "import_path", "_ttp_", "log"}
    words |= {"__%s__" % w for w in ("name", "doc", "file", "spec", "loader", "package", "builtins", "cached", "dict", "class", "init", "main")}
    words |= {os.path.basename(f)[:-3] for f in glob.glob(os.path.join(env.REPO, "ttp", "*", "*.py"))}
    words |= set(dir(builtins)) | set(keyword.kwlist) | set(dir(str)) | set(dir(dict))
    words |= {a + b for a in "abcgiprtxyz" for b in ("", "a", "e", "p", "_")}
    return sorted(w for w in words if w not in PATTERNS and w != "_line_")


def word_fn(word):
    # words have no characters special to regular expressions
    lines = [word, word + "x", "x" + word, word.upper() + "0", word[:-1] or "y", "other"]
    texts = "\n".join("op %s %d" % x for x in zip(lines, range(len(lines))))
    want = [str(i) for i, x in enumerate(lines) if x == word]
    out = []
    for what in ('{{ v | re("%s") }}', '{{ ignore("%s") }}'):
        tpl = '<group name="r*">\nop %s {{ z }}\n</group>' % (what % word)
        got = obs.run1(tpl, texts)
        obs.expect(got, {"r": [dict({"z": i}, **({"v": word} if "| re" in what else {})) for i in want]}, tpl, texts)
        out.append(got)
    return Outcome(out, states=[h(word)], transitions=2 * len(lines), count=2)


def check(ck):
    ck.explore("plain words", word_cases, word_fn, rule="every word of a list of names TTP and Python use, as the regular expression of re and of ignore")
    ck.explore("strings", string_cases, string_fn, rule="all strings up to the length stated for each alphabet, six positions in a line")
    ck.explore("token structures", token_cases, token_fn, rule="all address-like token structures")
    ck.explore("near misses", near_cases, near_fn, rule="everything within one edit (two for short seeds) of documented examples")
    ck.explore("long strings", pump_cases, pump_fn, rule="every unit of up to three characters repeated 5 to 65 (1025 thorough) times between all ends of up to two")
    ck.explore("combinations", combo_cases, combo_fn, rule="all ordered pairs of patterns, re() arguments and template variables on one variable")
    ck.explore("two variables", pair_cases, pair_fn, rule="all pairs of patterns on one line, three separators")
