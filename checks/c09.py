"""C09: every built-in match function against an independently written reference,
over completely enumerated small domains of values and arguments."""
import ipaddress
import itertools
import sys

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of values x arguments of every built-in match function against independent reference functions"
ASSUMPTIONS = ["to_ip and to_net are given addresses and prefixes only; dns, rdns and geoip_lookup need services that are not available"]

DROP = object()  # the check failed: value must not be saved


def strings(alphabet, n):
    out = [""]
    for k in range(1, n + 1):
        out += ["".join(x) for x in itertools.product(alphabet, repeat=k)]
    return [s for s in out if s == s.strip(" ")]


N = 6 if "thorough" in sys.argv else 4
WORDS = strings("ab1", N) + strings("a 1", N) + ["aaaa", "abab", "a.b", "b|a", "(a)", "a+b", "[a]", "A", "aB", "1a1a", "a\\b", "^a", "b$"]
WORDS = sorted(set(w for w in WORDS if w))
DIGITS = sorted(set([str(i) for i in range(0, 23)] + ["007", "05", "5a", "-1", "+3", "1.5", "1e3", "abc", "0x1", "1_0", "99999999999999999999", "5 6"]))


# naive regex semantics: a pattern is a finite predicate on complete strings
PATS = {
    "a": lambda s: s == "a",
    "ab": lambda s: s == "ab",
    ".b": lambda s: len(s) == 2 and s[1] == "b",
    "a+": lambda s: s != "" and set(s) == {"a"},
    "[0-9]": lambda s: len(s) == 1 and s.isdigit(),
    "b1?": lambda s: s in ("b", "b1"),
    "a\\.b": lambda s: s == "a.b",
    "P_ALT": lambda s: s in ("a1", "b"),
    "P_CLS": lambda s: s in ("1a", "1b"),
}
PVARS = {"P_ALT": "a1|b", "P_CLS": "1(?:a|b)"}


def pieces(s, where):
    n = len(s)
    for i in range(n + 1):
        for j in range(i, n + 1):
            if (where == "start" and i) or (where == "end" and j != n):
                continue
            yield s[i:j]


def rx(name, where, positive):
    def f(v):
        hit = any(PATS[name](p) for p in pieces(v, where))
        return v if hit == positive else DROP
    return f


def sub_re(pred, new, v, count):
    """leftmost longest replacement - all patterns of PATS are greedy and unambiguous"""
    out, i, n = "", 0, 0
    while i <= len(v):
        best = -1
        if count is None or n < count:
            for j in range(len(v), i, -1):
                if pred(v[i:j]):
                    best = j
                    break
        if best > i:
            out += new
            n += 1
            i = best
        else:
            out += v[i:i + 1]
            i += 1
    return out


def when(p):
    return lambda v: v if p(v) else DROP


def is_digits(s):
    return s != "" and all(c in "0123456789" for c in s)


def as_int(v):
    body = v[1:] if v[:1] in "+-" and v else v
    parts = body.split("_")
    return int(body.replace("_", "")) * (-1 if v[:1] == "-" else 1) if all(is_digits(p) for p in parts) else v


def as_float(v):
    n = as_int(v)
    if not isinstance(n, str):
        return float(n)
    return {"1.5": 1.5, "1e3": 1000.0}.get(v, v)


def item(i):
    def f(v):
        if not v:
            return v
        j = i if i >= 0 else len(v) + i
        return v[min(max(j, 0), len(v) - 1)]
    return f


def words_first(n):
    return lambda v: " ".join(v.split(" ")[:n])


def repl(pairs):
    def f(v):
        for old, new in pairs:
            out, i = "", 0
            while i < len(v):
                if old and v[i:i + len(old)] == old:
                    out += new
                    i += len(old)
                else:
                    out += v[i]
                    i += 1
            v = out
        return v
    return f


VARS = {"va": "a", "lit_list": ["ab", "1"], "lit_dict": {"X": ["ab", "b"], "Y": "1"}, "re_dict": {"X": ["^a", "b1?"], "Y": "[0-9]"}, "re_list": ["^a", "[0-9]"], "dot": "."}
VARS.update(PVARS)


def generic():
    """expression -> (domain, reference)"""
    F = {}

    def add(expr, ref, domain=WORDS):
        F[expr] = (domain, ref)

    for p in ("a", "1", "ab", "a 1", "z", "(a)", "va"):
        lit = VARS.get(p, p)
        add("contains(%r)" % p, when(lambda v, l=lit: l in v))
        add("exclude(%r)" % p, when(lambda v, l=lit: l not in v))
        add("equal(%r)" % p, when(lambda v, l=lit: v == l))
        add("notequal(%r)" % p, when(lambda v, l=lit: v != l))
        add("append(%r)" % p, lambda v, l=lit: v + l)
        add("prepend(%r)" % p, lambda v, l=lit: l + v)
        add("join(%r)" % p, lambda v, p=p: p.join(v))
        add("split(%r)" % p, lambda v, p=p: v.split(p))
        add("split(%r) | join('-')" % p, lambda v, p=p: "-".join(v.split(p)))
        add("split(%r) | append('q')" % p, lambda v, p=p: v.split(p) + ["q"])
        add("split(%r) | prepend('q')" % p, lambda v, p=p: ["q"] + v.split(p))
        add("let(%r)" % p, lambda v, p=p: p)
        add("replaceall(%r)" % p, lambda v, l=lit: repl([(l, "")])(v))
        add("replaceall('N', %r)" % p, lambda v, l=lit: repl([(l, "N")])(v))
        add("startswith(%r)" % p, when(lambda v, p=p: v[:len(p)] == p))
    for p, q in itertools.permutations(["a", "1", "bb", "va", "z"], 2):
        a, b = VARS.get(p, p), VARS.get(q, q)
        add("contains(%r, %r)" % (p, q), when(lambda v, a=a, b=b: a in v or b in v))
        add("replaceall('', %r, %r)" % (p, q), lambda v, a=a, b=b: repl([(a, ""), (b, "")])(v))
        add("replaceall('ab', %r, %r)" % (p, q), lambda v, a=a, b=b: repl([(a, "ab"), (b, "ab")])(v))
    add("replaceall('N', 'lit_list')", repl([("ab", "N"), ("1", "N")]))
    add("replaceall('lit_list')", repl([("ab", ""), ("1", "")]))
    add("replaceall('lit_dict')", repl([("ab", "X"), ("b", "X"), ("1", "Y")]))
    add("replaceall('N', 'lit_list', 'a')", repl([("ab", "N"), ("1", "N"), ("a", "N")]))
    add("replaceall('N', 'b', 'lit_dict')", repl([("b", "N"), ("ab", "X"), ("b", "X"), ("1", "Y")]))
    first_a = lambda v, new: new + v[1:] if v[:1] == "a" else v
    add("resuball('re_dict')", lambda v: sub_re(PATS["[0-9]"], "Y", sub_re(PATS["b1?"], "X", first_a(v, "X"), None), None))
    add("resuball('N', 're_list')", lambda v: sub_re(PATS["[0-9]"], "N", first_a(v, "N"), None))
    add("resuball('re_list')", lambda v: sub_re(PATS["[0-9]"], "", first_a(v, ""), None))
    add("resuball('N', 'dot')", repl([(".", "N")]))
    add("resub('dot', 'N')", lambda v: v.replace(".", "N", 1))
    for p in PATS:
        for fn, where, pos in (("contains_re", "any", True), ("exclude_re", "any", False), ("startswith_re", "start", True),
                               ("notstartswith_re", "start", False), ("endswith_re", "end", True), ("notendswith_re", "end", False)):
            add("%s(%r)" % (fn, p), rx(p, where, pos))
        if p not in PVARS:
            add("resub(%r, 'N')" % p, lambda v, p=p: sub_re(PATS[p], "N", v, 1))
            add("resub(%r, 'N', 2)" % p, lambda v, p=p: sub_re(PATS[p], "N", v, 2))
            add("resub(old=%r, new='', count=1)" % p, lambda v, p=p: sub_re(PATS[p], "", v, 1))
            add("resuball('N', %r)" % p, lambda v, p=p: sub_re(PATS[p], "N", v, None))
            add("resuball(%r)" % p, lambda v, p=p: sub_re(PATS[p], "", v, None))
            add("resuball('N', 'a', %r)" % p, lambda v, p=p: sub_re(PATS[p], "N", sub_re(PATS["a"], "N", v, None), None))
    for n in range(1, 5):
        add("truncate(%d)" % n, words_first(n))
    for i in range(-5, 6):
        add("item(%d)" % i, item(i))
        add("item('%d')" % i, item(i))
        add("split('a') | item(%d)" % i, lambda v, i=i: item(i)(v.split("a")))
    for e, f in (("upper", str.upper), ("lower()", str.lower), ("title", str.title), ("strip('a')", lambda v: v.strip("a")), ("count('a') | to_str", None)):
        if f:
            add(e, f)
    add("isdigit", when(is_digits), WORDS + DIGITS)
    add("notdigit", when(lambda v: not is_digits(v)), WORDS + DIGITS)
    add("void", lambda v: DROP)
    add("print", lambda v: v)
    add("copy('f')", lambda v: {"v": v, "f": v})
    add("let('f', 'w')", lambda v: {"v": v, "f": "w"})
    add("to_str", lambda v: v)
    add("to_list", lambda v: [v])
    add("to_unicode", lambda v: v)
    add("to_list | to_str", lambda v: "[%r]" % v)
    add("to_list | append('q') | join('/')", lambda v: v + "/q")
    add("to_int", as_int, DIGITS + WORDS)
    add("to_int | to_int", as_int, DIGITS)
    add("to_float", as_float, DIGITS + ["b", "ab", "a 1"])
    add("to_int | to_float", lambda v: as_float(v), DIGITS)
    add("to_int | to_str", lambda v: str(as_int(v)), DIGITS)
    add("to_list | to_int", lambda v: [v], DIGITS)
    add("to_list | to_float", lambda v: [v], DIGITS)
    for n in range(0, 12):
        for form in ("'%d'", "%d"):
            add("greaterthan(%s)" % form % n, when(lambda v, n=n: is_digits(v) and int(v) > n), DIGITS)
            add("lessthan(%s)" % form % n, when(lambda v, n=n: is_digits(v) and int(v) < n), DIGITS)
    for fmt, ref in (("'<<{}>>'".replace("<", "[").replace(">", "]"), lambda v: "[[%s]]" % v), ("'{}{}'.format('{0}', '-{0}')", None), ("'x'", lambda v: "x"), ("'{:5}.'", lambda v: v + " " * (5 - len(v)) + "."), ("'{0}{0}'", lambda v: v + v)):
        if ref:
            add("sformat(%s)" % fmt, ref)
    return F


ADDR4 = ["10.0.0.1", "10.0.1.0", "10.0.0.255", "0.0.0.0", "255.255.255.255", "127.0.0.1", "192.168.0.113", "172.16.5.4", "224.0.0.5", "169.254.1.1", "8.8.8.8"]
ADDR6 = ["::", "::1", "fe80::1", "2001:db8::", "2001:db8:0:1::1", "ff02::2", "FE80::AB"]
BAD = ["10.0.0", "10.0.0.256", "10.0.0.1.2", "abc", "10.0.0.1/33", "::1::", "fe80::/129", "1", "10.0.0.01x", "-1", "10.0.0.1/", "/24"]
PFX4 = [0, 1, 8, 15, 16, 24, 25, 31, 32]
PFX6 = [0, 10, 16, 64, 127, 128]


def mask(n):
    bits = "1" * n + "0" * (32 - n)
    return ".".join(str(int(bits[i:i + 8], 2)) for i in range(0, 32, 8))


def num4(a):
    n = 0
    for x in a.split("."):
        n = n * 256 + int(x)
    return n


def num6(a):
    a = a.lower()
    if "::" in a:
        l, r = a.split("::")
        l, r = [x for x in l.split(":") if x], [x for x in r.split(":") if x]
        full = l + ["0"] * (8 - len(l) - len(r)) + r
    else:
        full = a.split(":")
    n = 0
    for x in full:
        n = n * 65536 + int(x, 16)
    return n


def overlap(a, pa, b, pb, width):
    p = min(pa, pb)
    return a >> (width - p) == b >> (width - p)


def ip_functions():
    F = {}

    def add(expr, ref, domain):
        F[expr] = (domain, ref)

    v4 = ["%s/%d" % (a, p) for a in ADDR4 for p in PFX4]
    v4m = ["%s %s" % (a, mask(p)) for a in ADDR4[:4] for p in PFX4[1:]]
    v6 = ["%s/%d" % (a, p) for a in ADDR6 for p in PFX6]
    every = ADDR4 + ADDR6 + v4 + v4m + v6
    add("to_cidr", lambda v: sum(bin(int(x)).count("1") for x in v.split(".")), [mask(n) for n in range(33)])
    add("to_cidr | to_str", lambda v: v, ["abc", "255.255.x.0", "a.b.c.d", "255..0", "::1"])

    def conv(v):
        if "/" in v or " " in v:
            v = v.replace(" ", "/")
            return ipaddress.IPv6Interface(v) if ":" in v else ipaddress.IPv4Interface(v)
        return ipaddress.IPv6Address(v) if ":" in v else ipaddress.IPv4Address(v)

    add("to_ip", conv, every)
    add("to_ip('ipv4')", conv, ADDR4 + v4 + v4m)
    add("to_ip('ipv6')", conv, ADDR6 + v6)
    nets = [str(ipaddress.ip_network(x, strict=False)) for x in v4 + v6]
    nets = sorted(set(nets))
    add("to_net", lambda v: (ipaddress.IPv6Network if ":" in v else ipaddress.IPv4Network)(v), nets)
    add("to_net('ipv4')", ipaddress.IPv4Network, [n for n in nets if ":" not in n])
    add("to_net('ipv6')", ipaddress.IPv6Network, [n for n in nets if ":" in n])

    def good(v, version):
        v = v.replace(" ", "/")
        if v.count("/") > 1:
            return False
        a, _, p = v.partition("/")
        if "/" in v and not p:
            return False
        if ":" in a:
            ok = version != 4 and a.count("::") <= 1 and all(len(x) <= 4 and all(c in "0123456789abcdefABCDEF" for c in x) for x in a.split(":")) and (a.count(":") == 7 or "::" in a)
            return ok and (p == "" or (p.isdigit() and int(p) <= 128))
        ok = version != 6 and a.count(".") == 3 and all(x.isdigit() and int(x) < 256 for x in a.split("."))
        if "." in p:
            return ok and p in [mask(n) for n in range(33)]
        return ok and (p == "" or (p.isdigit() and int(p) <= 32))

    for arg, ver in (("", None), ("('ipv4')", 4), ("('ipv6')", 6)):
        dom = every + BAD if ver != 6 else [x for x in every + BAD if " " not in x]
        add("is_ip%s" % arg, when(lambda v, ver=ver: good(v, ver)), dom)
    prefixes4 = ["10.0.0.0/8", "10.0.0.0/24", "10.0.1.0/24", "0.0.0.0/0", "10.0.0.1/32", "192.168.0.0/16", "10.0.0.0/31"]
    prefixes6 = ["::/0", "fe80::/10", "2001:db8::/32", "2001:db8:0:1::/64", "::1/128"]

    def match(net):
        na, np = net.split("/")

        def f(v):
            if not good(v, None):
                return v
            w = v.replace(" ", "/")
            a, _, p = w.partition("/")
            six = ":" in a
            if six != (":" in na):
                return DROP
            width = 128 if six else 32
            num = num6 if six else num4
            if "." in p:
                p = sum(bin(int(x)).count("1") for x in p.split("."))
            p = int(p) if p != "" else width
            return v if overlap(num(a), p, num(na), int(np), width) else DROP
        return f

    for net in prefixes4 + prefixes6:
        add("cidr_match('%s')" % net, match(net), every + [b for b in BAD if b not in ("1", "-1")])
    add("cidr_match('netvar')", match("10.0.0.0/24"), every)
    add("to_ip | cidr_match('10.0.0.0/24') | to_str", lambda v: DROP if match("10.0.0.0/24")(v) is DROP else v, ADDR4)

    def info(v):
        if not good(v, None):
            return v
        o = conv(v)
        if isinstance(o, (ipaddress.IPv4Address, ipaddress.IPv6Address)) and "/" not in v and " " not in v:
            return dict(ip=str(o), compressed=o.compressed, exploded=o.exploded, is_link_local=o.is_link_local, is_loopback=o.is_loopback, is_multicast=o.is_multicast,
                        is_private=o.is_private, is_reserved=o.is_reserved, is_unspecified=o.is_unspecified, max_prefixlen=128 if ":" in v else 32, version=6 if ":" in v else 4)
        n = o.network
        return dict(compressed=o.compressed, exploded=o.exploded, hostmask=str(o.hostmask), ip=str(o.ip), is_link_local=o.is_link_local, is_loopback=o.is_loopback, is_multicast=o.is_multicast,
                    is_private=o.is_private, is_reserved=o.is_reserved, is_unspecified=o.is_unspecified, max_prefixlen=o.max_prefixlen, netmask=str(o.netmask), network=str(n), version=o.version,
                    with_hostmask=o.with_hostmask, with_netmask=o.with_netmask, with_prefixlen=o.with_prefixlen, broadcast_address=str(n[-1]), network_address=str(n[0]),
                    num_addresses=2 ** (o.max_prefixlen - n.prefixlen), hosts=2 ** (o.max_prefixlen - n.prefixlen) - 2, prefixlen=n.prefixlen)

    add("ip_info", info, every + [b for b in BAD if b not in ("1", "-1")])
    add("to_ip | ip_info", info, every)
    return F


def range_lists(n):
    """all lists of up to n items, each a number or a range"""
    its = [("3",), ("10",), ("9", "11"), ("5", "6"), ("7", "7"), ("98", "102"), ("8", "4")]
    for k in range(1, n + 1):
        yield from itertools.product(its, repeat=k)


def unranges(thorough):
    F = {}
    for rc, jc in (("-", ","), ("to", " "), ("..", ";"), (" - ", ", "), ("-", "+"), ("&", "|")):
        dom, out = [], {}
        for items in range_lists(5 if thorough else 3):
            sep = " %s " % rc if rc == "to" else rc
            text = jc.join(sep.join(i) for i in items)
            nums = []
            for i in items:
                # nothing is between the ends of a range from high to low
                nums += [str(x) for x in range(int(i[0]), int(i[-1]) + 1)] or list(i)
            out[text] = jc.join(nums) if rc in text else text
            dom.append(text)
        for bad in ("a", "", "a%sb" % rc, "5%s" % rc, "%s5" % rc, "a%s5" % rc, "5%sa" % rc, rc, "1%s2%sx%s" % (jc, rc, rc)):
            if bad:
                out[bad] = bad
                dom.append(bad)
        if "|" not in jc:
            F["unrange(%r, %r)" % (rc, jc)] = (sorted(set(dom)), out.__getitem__)
            F["unrange(rangechar=%r, joinchar=%r)" % (rc, jc)] = (sorted(set(dom)), out.__getitem__)
    return F


UNITS = [("years", ["years", "year", "y", "yrs"], 31536000), ("months", ["months", "month", "mo", "mths"], 2592000), ("weeks", ["weeks", "week", "w", "wk"], 604800),
         ("days", ["days", "day", "d", "dys"], 86400), ("hours", ["hours", "hour", "h", "hrs"], 3600), ("mins", ["minutes", "minute", "m", "mins"], 60), ("secs", ["seconds", "second", "s", "secs"], 1)]


def uptimes():
    secs, dicts = {}, {}
    for bits in itertools.product((0, 1), repeat=7):
        for style in range(4):
            for sep in (", ", " ", ","):
                parts, total, d = [], 0, {}
                for i, (on, (name, spell, mult)) in enumerate(zip(bits, UNITS)):
                    if on:
                        n = [2, 5, 27, 3, 10, 46, 9][i] + style
                        # a blank between number and unit is optional
                        parts.append("%d%s%s" % (n, "" if style == 2 else " ", spell[style]))
                        total += n * mult
                        d[name] = str(n)
                if not parts:
                    continue
                t = sep.join(parts)
                secs[t] = total
                dicts[t] = d
    for name, spell, mult in UNITS:
        for n in (0, 1, 7, 10, 59, 60, 61, 99, 100, 365, 999, 1000, 9999, 12345, 100000):
            for st in range(4):
                secs["%d %s" % (n, spell[st])] = n * mult
                dicts["%d %s" % (n, spell[st])] = {name: str(n)}
    for bad in ("abc", "5", "5 foo", "2 days ago", "1.5 hours", "-1 days", "days", "10 minutes, 3 hours", "3 days 4"):
        secs[bad] = dicts[bad] = bad
    for t, v in (("0 seconds", 0), ("1 minutes", 60), ("1 minute", 60), ("10 hours, 46 minutes", 38760), ("001 day", 86400)):
        secs[t] = v
    return {"uptimeparse": (sorted(secs), secs.__getitem__), "uptimeparse(format='seconds')": (sorted(secs), secs.__getitem__), "uptimeparse(format='dict')": (sorted(dicts), dicts.__getitem__)}


def macs():
    out = {}
    for digits in ("008041aefd7e", "aabbccddeeff", "000000000000", "123456789abc", "0080AEFDEA01"):
        for sep, step in (("", 12), (":", 2), ("-", 2), (".", 4), ("-", 4), (":", 4), (".", 2)):
            for cut in (0, 2, 4):
                for case in (str.lower, str.upper):
                    d = digits[:12 - cut]
                    t = case(sep.join(d[i:i + step] for i in range(0, len(d), step)))
                    full = d.lower() + "0" * cut
                    out[t] = ":".join(full[i:i + 2] for i in range(0, 12, 2))
    for bad in ("a b", "aabb/ccdd", "(a)", "aa_bb"):
        out[bad] = bad
    return {"mac_eui": (sorted(out), out.__getitem__)}


TPL = """<vars>
%s
</vars>
<group name="r*">
rec {{ n }}
v:{{ v | re("ANY") | %s }}
</group>"""


def check_fn(case):
    expr, domain, ref = case
    tpl = TPL % ("\n".join("%s = %r" % kv for kv in dict(VARS, ANY=".*", netvar="10.0.0.0/24").items()), expr)

    def text(vals):
        return "\n".join("rec %d\nv:%s" % (i, v) for i, v in enumerate(vals))

    def want(vals):
        recs = []
        for i, v in enumerate(vals):
            w = ref(v)
            r = {"n": str(i)}
            if isinstance(w, dict) and set(w) == {"v", "f"}:
                r.update(w)
            elif w is not DROP:
                r["v"] = w
            recs.append(r)
        return {"r": recs}

    with obs.captured():
        got = obs.run1(tpl, text(domain))
        w = want(domain)
        if not obs.same(got, w):
            for v in domain:
                try:
                    obs.expect(obs.run1(tpl, text([v])), want([v]), None, None, "function %s of value %r:" % (expr, v))
                except Violation as e:
                    raise Violation(e.message.split("\n---")[0], key="%s|%s" % (expr, v))
    return Outcome((expr, repr(obs.expect(got, w, tpl, text(domain)))), states=[h((expr, v)) for v in domain], transitions=len(domain), count=len(domain))


def recorded(ck):
    """append/prepend of variables recorded in the same and in a previous input"""
    def fn(case):
        f, own, hist = case
        tpl = ("<vars>\ngv = 'O'\n</vars>\n" if own else "") + '<group name="s*">\nset {{ s | record("gv") }}\n</group>\n<group name="r*">\nv:{{ v | %s("gv") }}\n</group>\n<group name="l*">\nl:{{ v | split(",") | %s("gv") }}\n</group>' % (f, f)
        texts, w, known = [], [], None
        for i, item in enumerate(hist):
            texts.append({"record": "set q%d\n" % i, "use": "", "both": "set q%d\n" % i}[item] + ("" if item == "record" else "v:a\nl:1,2"))
            here = "q%d" % i if item != "use" else None
            known = here or known
            # value of this input, then the one recorded last
            add = here or ("O" if own else None) or known or "gv"
            r = {}
            if here:
                r["s"] = [{"s": here}]
            if item != "record":
                r["r"] = [{"v": "a" + add if f == "append" else add + "a"}]
                r["l"] = [{"v": ["1", "2", add] if f == "append" else [add, "1", "2"]}]
            w.append(r)
        got = obs.attempt(obs.run, tpl, texts)
        return Outcome((case, obs.expect(got, [w], tpl, texts)))

    def cases():
        for f in ("append", "prepend"):
            for own in (False, True):
                for n in (1, 2, 3):
                    for hist in itertools.product(("record", "use", "both"), repeat=n):
                        # an input of the same text is parsed once
                        if hist.count("use") < 2:
                            yield f, own, hist

    ck.explore("recorded", cases, fn, "append and prepend of recorded variables, all histories of up to 3 inputs")


def raising(ck):
    def fn(msg):
        tpl = "v {{ v | raise(%r) }}" % msg
        got = obs.attempt(obs.run, tpl, "v 1")
        if not isinstance(got, obs.Raised) or got.type != "RuntimeError" or got.text != msg:
            raise Violation("raise(%r) gave %r" % (msg, got))
        return Outcome((msg, obs.expect(obs.run1(tpl, "w 1"), {}, tpl, "w 1")))

    ck.explore("raise", lambda: ["", "boom", "a b"], fn, "raise raises on a match and only on a match")


def check(ck):
    def cases(F):
        return lambda: [(e, d, r) for e, (d, r) in sorted(F.items())]

    ck.explore("strings and numbers", cases(generic()), check_fn, "every function with every argument of the list, all values of its domain")
    ck.explore("ip", cases(ip_functions()), check_fn, "IP functions on all combinations of the address and prefix lists")
    ck.explore("unrange", cases(unranges(ck.thorough)), check_fn, "all lists of up to 3 (4) numbers and ranges in 5 notations")
    ck.explore("uptime", cases(uptimes()), check_fn, "all subsets of units in 4 spellings and 3 separators")
    ck.explore("mac", cases(macs()), check_fn, "MAC notations")
    recorded(ck)
    raising(ck)
