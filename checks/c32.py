"""C32: dns and rdns. The DNS is a stand-in under dnspython's Resolver.resolve which answers
as a script says; all histories of lookups with all outcomes up to a depth run through real
templates, in one or two parser objects."""
import itertools
import sys

import dns.exception
import dns.name
import dns.rdatatype
import dns.resolver
import dns.reversename
import dns.rrset

from mc import obs
from mc.core import Outcome, Violation, h, same

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of histories of lookups and outcomes of a scripted DNS under the real match functions"
ASSUMPTIONS = ["the resolver library is dnspython, entered at Resolver.resolve"]
DEEP = "thorough" in sys.argv

SYSTEM = ["192.0.2.53", "192.0.2.54"]
# line word -> (function, arguments, record, timeout, servers, add_field)
KINDS = {
    "fa": ("dns", "", "A", 1, None, None),
    "fs": ("dns", "(servers='10.0.0.1')", "A", 1, ["10.0.0.1"], None),
    "fm": ("dns", "(record='AAAA', timeout=3, servers='10.0.0.3, 10.0.0.2', add_field='ips')", "AAAA", 3, ["10.0.0.3", "10.0.0.2"], "ips"),
    "fp": ("dns", "('TXT', 2)", "TXT", 2, None, None),
    "fb": ("dns", "(add_field='ips')", "A", 1, None, "ips"),
    "ra": ("rdns", "", "PTR", 1, None, None),
    "rs": ("rdns", "(timeout=2, servers='10.0.0.4,10.0.0.1')", "PTR", 2, ["10.0.0.4", "10.0.0.1"], None),
    "rf": ("rdns", "(add_field='fqdn')", "PTR", 1, None, "fqdn"),
}
TEMPLATE = "<group name='r*'>\n" + "\n".join("%s {{ d | %s%s | _start_ }}" % (k, v[0], v[1]) for k, v in KINDS.items()) + "\n</group>"
RECORDS = {"A": ["10.1.0.9", "10.1.0.10", "10.1.0.2"], "AAAA": ["2001:db8::b", "2001:db8::a"], "TXT": ['"b c"', '"a"'], "PTR": ["Host-1.Example.org.", "a.example.org."]}
FAILS = {
    "nxdomain": dns.resolver.NXDOMAIN, "timeout": dns.exception.Timeout,
    "lifetime": lambda: dns.resolver.LifetimeTimeout(timeout=1.0, errors=[]),
    "noanswer": lambda: dns.exception.DNSException() if not hasattr(dns.resolver.NoAnswer, "supp_kwargs") else _noanswer(),
    "servfail": dns.resolver.NoNameservers, "yxdomain": dns.resolver.YXDOMAIN, "oserror": lambda: OSError(101, "Network is unreachable"),
    "malformed": dns.exception.FormError,
}


def _noanswer():
    import dns.message
    q = dns.message.make_query("x.", "A")
    return dns.resolver.NoAnswer(response=dns.message.make_response(q))


def outcomes(record):
    n = len(RECORDS[record])
    perms = list(itertools.permutations(range(n))) if DEEP else [tuple(range(n)), tuple(range(n))[::-1]]
    return ["ok%s" % "".join(map(str, p)) for p in perms] + ["ok0"] + list(FAILS)


SCRIPT = {}  # question name -> (record, servers, outcome)
ASKED = []


def read_resolv_conf(self, f):
    self.nameservers = list(SYSTEM)
    self.search, self.domain = [], dns.name.root


def resolve(self, qname, rdtype="A", *args, **kw):
    if isinstance(qname, str):
        qname = dns.name.from_text(qname, None)
    if not isinstance(rdtype, str):
        rdtype = dns.rdatatype.to_text(dns.rdatatype.RdataType.make(rdtype))
    name = qname.to_text().rstrip(".")
    servers = [str(getattr(i, "address", i)) for i in self.nameservers]
    ASKED.append((name, rdtype, servers, self.timeout, kw.get("lifetime") or self.lifetime))
    if name not in SCRIPT:
        raise dns.resolver.NXDOMAIN()
    record, want, outcome = SCRIPT[name]
    if rdtype != record:
        raise dns.resolver.NXDOMAIN()
    if sorted(servers) != sorted(want):
        # servers nobody asked for know other records
        texts = {"A": ["203.0.113.9"], "AAAA": ["2001:db8:ffff::"], "TXT": ['"wrong"'], "PTR": ["wrong.example."]}[record]
    elif outcome in FAILS:
        raise FAILS[outcome]()
    else:
        texts = [RECORDS[record][int(i)] for i in outcome[2:]]
    return dns.rrset.from_text("q.", 300, "IN", record, *texts)


def names(step, kind):
    """value in the text, name in the question"""
    if KINDS[kind][0] == "dns":
        return "h%d.example.org" % step, "h%d.example.org" % step
    if step % 2:
        return "2001:db8::%d" % step, dns.reversename.from_address("2001:db8::%d" % step).to_text().rstrip(".")
    return "10.9.0.%d" % step, "%d.0.9.10.in-addr.arpa" % step


def predict(kind, value, outcome):
    f, _, record, _, _, field = KINDS[kind]
    if outcome in FAILS:
        return {"d": value}
    texts = [RECORDS[record][int(i)] for i in outcome[2:]]
    new = sorted(texts) if f == "dns" else texts[0].rstrip(".")
    return {"d": value, field: new} if field else {"d": new}


def setup():
    dns.resolver.Resolver.read_resolv_conf = read_resolv_conf
    dns.resolver.Resolver.resolve = resolve


def go(texts, template=TEMPLATE, warm=()):
    del ASKED[:]
    parsers = [obs.ttp(template=template) for _ in range(2 if any(p for p, _ in texts) else 1)]
    got = []
    for p, text in texts:
        parsers[p].clear_input()
        parsers[p].clear_result()
        parsers[p].add_input(text)
        parsers[p].parse(one=True)
        r = parsers[p].result()
        got += r[0][0].get("r", []) if isinstance(r[0][0], dict) else [r]
    return got


def hist_cases():
    # the last lookup is any, the ones before are such that may leave something behind
    depth = 3 if DEEP else 2
    for d in range(1, depth + 1):
        yield from itertools.product(KINDS, repeat=d)


def hist_fn(kinds):
    setup()
    n = 0
    kinds_seen = set()
    spaces = [outcomes(KINDS[k][2]) for k in kinds]
    if len(kinds) > 2:
        spaces = [["ok10"] + list(FAILS)[:5] if len(RECORDS[KINDS[k][2]]) > 1 else ["ok0"] for k in kinds]
    for outs in itertools.product(*spaces):
        SCRIPT.clear()
        want, lines, asked = [], [], []
        for i, (k, o) in enumerate(zip(kinds, outs)):
            value, q = names(i, k)
            servers = KINDS[k][4] or SYSTEM
            SCRIPT[q] = (KINDS[k][2], servers, o)
            want.append(predict(k, value, o))
            lines.append("%s %s" % (k, value))
            asked.append((q, KINDS[k][2], servers, KINDS[k][3], KINDS[k][3] * len(servers)))
        # one text, a text for each lookup, two parsers by turns
        for mode in ("one", "each", "turns"):
            if mode == "one":
                texts = [(0, "\n".join(lines))]
            else:
                texts = [((i + 1) % 2 if mode == "turns" else 0, l) for i, l in enumerate(lines)]
            got = obs.attempt(go, texts)
            if not same(got, want):
                raise Violation("%s, DNS says %r, %s: expected %r, observed %r" % (lines, outs, mode, want, got), data="\n".join(lines), template=TEMPLATE)
            for a in ASKED:
                if not any(a[0] == w[0] and a[1] == w[1] and sorted(a[2]) == sorted(w[2]) and a[3] == w[3] and a[4] == w[4] for w in asked):
                    raise Violation("%s: asked (name, record, servers, timeout, lifetime) %r, expected one of %r" % (lines, a, asked), template=TEMPLATE)
            n += 1
        kinds_seen.add(repr(want))
    return Outcome(h((kinds, len(kinds_seen))), len(kinds_seen) > 1, count=n, states=[h((kinds, k)) for k in kinds_seen], transitions=n * len(kinds))


# values that are not names or addresses, or unusual ones
ODD = ["x" * 64, "a..b", ".", "*", "a." * 130 + "b", "x" * 63 + ".org", "é.fr", "\u2488com", "a b", "-", "10.0.0.1", "10.0.0", "1.2.3.4.5", "256.1.1.1", "::", "::1", ":::", "fe80::1%eth0",
       "::ffff:1.2.3.4", "2001:DB8::A", "2001:db8::g", "host", "host.", "\\", "a\\.b", "\\300", "1", "0x7f.1", "010.1.1.1", "10.0.0.1/24"]


def odd_cases():
    return itertools.product(KINDS, ODD, [1, 2])


def odd_fn(case):
    setup()
    kind, value, times = case
    SCRIPT.clear()
    # nothing answers: values must come back unmodified, and the rest of the text is parsed
    t = TEMPLATE.replace("{ d |", "{ d | ORPHRASE |")
    text = "\n".join(["%s %s" % (kind, value)] * times + ["ra 10.0.0.1", "fa end"])
    got = obs.attempt(go, [(0, text)], t)
    want = [{"d": value}] * times + [{"d": "10.0.0.1"}, {"d": "end"}]
    if not same(got, want):
        raise Violation("%r: expected %r, observed %r" % (text, want, got), data=text, template=t)
    return Outcome(h(case), True, transitions=times + 2)


def check(ck):
    ck.explore("histories", hist_cases, hist_fn, rule="all histories of up to %d lookups of eight kinds x all outcomes of each (answers in all stated orders, eight failures) x one text, a text each, two parsers by turns" % (3 if DEEP else 2))
    ck.explore("values that cannot be looked up", odd_cases, odd_fn, rule="30 unusual values x eight kinds of lookups")
