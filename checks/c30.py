"""C30: notation. A small rewriting system over templates: every set of up to three
rewritings that leave the meaning alone (tag aliases, wrapping, comments, blank lines,
white space, line ends, CDATA, quotes, order of tags, explicit _start_, the ways to write
functions, the way the template is supplied) is applied to every base template; all of
the rewritten templates must give the base template's results, which a model predicts."""
import io
import itertools
import json
import os
import re
import sys

from mc import obs
from mc.core import Outcome, Violation, h, same

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of the graph of meaning-preserving rewritings of base templates to a stated depth; every reachable template runs on the real parser and is compared with predicted results"
ASSUMPTIONS = ["relative order of groups and of outputs, and all leading white space of template lines, are part of the meaning and are kept"]
DEEP = "thorough" in sys.argv


class N:
    def __init__(self, tag, attrs=(), *body):
        self.tag, self.attrs, self.body = tag, list(attrs), list(body)


GRP = N("group", [("name", "ifs*"), ("contains", "a"), ("f.set", "'one', target='t'")],
        "interface {{ i | ORPHRASE | macro('F') }}",
        " ip {{ a | IP }}/{{ m | DIGIT }}",
        " mtu {{ ignore }} {{ u | to_int }}",
        N("group", [("name", "v*")], " vrrp {{ g | DIGIT }}", "  prio {{ p | default('100') | macro('F') }}"),
        "exit {{ _end_ }}")
TXT = "interface Gi 1\n ip 10.0.0.1/24\n vrrp 7\n vrrp 8\n  prio 90\n mtu x 1500\nexit\n ip 9.9.9.9/9\ninterface Lo0\n mtu x 9\nexit\n# end\nhost r1"
R_IFS = [{"i": "Gi 1.", "a": "10.0.0.1", "m": "24", "u": 1500, "t": "one", "v": [{"g": "7", "p": "100"}, {"g": "8", "p": "90."}]}]
MAC = N("macro", [], "def F(data):", "    if data:", "        return data + '.'", "    return data")
SEC = N("group", [("name", "h")], "host {{ name | upper | lookup('L', add_field='site') }}")
LOOK = N("lookup", [("name", "L"), ("load", "json")], '{"R1": "x < y", "Q": 1}')
VARS = N("vars", [("name", "vs"), ("load", "json")], '{"k": [1, "two"],', ' "w": "a & b"}')
OUT = N("output", [("name", "o1"), ("f.dict_to_list", "key_name='key', path='zz'")])
OUT2 = N("output", [("format", "json"), ("returner", "self")])
INP = N("input", [("name", "in1"), ("load", "text"), ("groups", "ifs*")], *TXT.split("\n"))
INP2 = N("input", [("name", "in2"), ("load", "text"), ("groups", "h")], "host q", "host r1")

BASES = {
    "groups": ([MAC, GRP], TXT, [[{"ifs": R_IFS}]]),
    "variables and lookups": ([VARS, LOOK, SEC], TXT, [[{"h": {"name": "R1", "site": "x < y"}, "vs": {"k": [1, "two"], "w": "a & b"}}]]),
    "inputs": ([MAC, INP, INP2, LOOK, GRP, SEC], None,
               [[{"ifs": R_IFS}, {"h": [{"name": "Q", "site": 1}, {"name": "R1", "site": "x < y"}]}]]),
    "outputs": ([LOOK, SEC, OUT2], TXT, [json.dumps([{"h": {"name": "R1", "site": "x < y"}}], sort_keys=True, indent=4, separators=(",", ": "))]),
    "nested": ([N("group", [("name", "a*")], N("group", [("name", "b")], " x {{ x }}", N("group", [("name", "c*"), ("f.set", "'one', target='t'")], "  y {{ y }}"))),
                N("group", [("name", "d")], "host {{ h | macro('F') }}", N("group", [("name", "e*")], " x {{ x }}"), N("group", [("name", "f")], "  y {{ y }}")), MAC],
               " x 1\n  y 2\n  y 3\nhost h\n x 4\n  y 5",
               [[{"a": [{"b": [{"x": "1", "c": [{"y": "2", "t": "one"}, {"y": "3", "t": "one"}]}, {"x": "4", "c": [{"y": "5", "t": "one"}]}]}],
                  "d": {"h": "h.", "e": [{"x": "4"}], "f": {"y": "5"}}}]]),
    "free text": ([N("group", [("name", "b")], "interface {{ n }}", "{{ l | _line_ | joinmatches(',') }}", "exit {{ _end_ }}")], "interface Lo0\n x y\nz\nexit\nq",
                  [[{"b": {"n": "Lo0", "l": " x y,z"}}]]),
    "table": ([N("group", [("name", "t*")], "Port   Name   Vlan   {{ _headers_ }}")], "Port   Name   Vlan\nGi1    abc    7\nGi2    d e    8",
              [[{"t": [{"Port": "Gi1", "Name": "abc", "Vlan": "7"}, {"Port": "Gi2", "Name": "d e", "Vlan": "8"}]}]]),
}

ALIASES = {"group": ["g", "grp", "GROUP", "Grp"], "vars": ["v", "variables", "VARS"], "input": ["i", "in", "Input"],
           "output": ["o", "out", "OUTPUT"], "lookup": ["Lookup"], "macro": ["MACRO"]}
RULES = {
    "wrap": ["template", "Template", "twice"],
    "group": ALIASES["group"] + ["mixed"],
    "vars": ALIASES["vars"],
    "input": ALIASES["input"],
    "output": ALIASES["output"],
    "others": [1],
    "hash": ["## note", "  ## {{ x }} {{ y | z }}", "##"],
    "xml comment": ["<!-- note {{ x }} -->", "<!-- <group> {{ -->"],
    "blank": ["", "   "],
    "trail": ["  ", "\t"],
    "eol": ["\r\n"],
    "docs": ["first", "last", "empty"],
    "empty tags": ["<macro/>", "<macro></macro>\n<vars/>", "<group/>\n<doc></doc>", "<group name=\"none\"></group>"],
    "compact": [1],
    "log level": ["DEBUG", "info", "CRITICAL", "nonsense"],
    "start": [1],
    "brace": ["{{%s}}", "{{  %s  }}"],
    "bar": ["|", "  |  "],
    "order": ["reversed", "groups first", "groups last"],
    "indent": ["    ", "\t"],
    "cdata": [1],
    "quote": ["'"],
    "attributes": ["reversed"],
    "functions": ["functions", "chain"],
    "comment between": [1],
    "route": ["path", "object", "StringIO", "add_template", "add object", "template kw"],
    "edges": ["\n\n", "  \n", "\r\n"],
}


def esc(s, o):
    if "cdata" in o:
        return "<![CDATA[%s]]>" % s
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def chains(nodes):
    for n in nodes:
        if isinstance(n, N) and n.tag == "group":
            fs = [(k, v) for k, v in n.attrs if k.startswith("f.") or k == "contains"]
            if fs:
                yield "C_" + re.sub(r"\W", "", dict(n.attrs)["name"]), fs
            yield from chains(n.body)


def calls(fs):
    out = []
    for k, v in fs:
        name = k[2:] if k.startswith("f.") else k
        out.append("%s(%s)" % (name, v if k.startswith("f.") else repr(v)))
    return out


def render_attrs(n, o):
    attrs = list(n.attrs)
    fs = [(k, v) for k, v in attrs if k.startswith("f.") or k == "contains"]
    if fs and o.get("functions") and n.tag in ("group", "output"):
        attrs = [a for a in attrs if a not in fs]
        if o["functions"] == "chain" and n.tag == "group":
            attrs.append(("chain", "C_" + re.sub(r"\W", "", dict(n.attrs)["name"])))
        else:
            attrs.append(("functions", " | ".join(calls(fs))))
    if o.get("attributes"):
        # functions keep their order
        fs = [a for a in attrs if a[0].startswith("f.") or a[0] == "contains"]
        attrs = [a for a in attrs if a not in fs]
        attrs = fs + attrs[::-1]
    q = o.get("quote", '"')
    return "".join(" %s=%s%s%s" % (k[2:] if k.startswith("f.") else k, q,
                                    v.replace("&", "&amp;").replace("<", "&lt;").replace(q, "&quot;" if q == '"' else "&apos;"), q) for k, v in attrs)


def render(n, o, count):
    tag = n.tag
    if tag in ("lookup", "macro"):
        if "others" in o:
            tag = ALIASES[tag][0]
    elif tag == "group" and o.get("group") == "mixed":
        count[0] += 1
        tag = ["g", "GROUP", "grp"][count[0] % 3]
    else:
        tag = o.get(tag, tag)
    pad = o.get("indent", "")
    out = []
    first = True
    text = []

    def flush():
        if text:
            out.append(esc("\n".join([""] + text + [""]) if not out else "\n".join(text + [""]), o))
            del text[:]

    for b in n.body:
        if isinstance(b, N):
            flush()
            if out and not out[-1].endswith("\n"):
                out.append("\n")
            if "compact" in o and "eol" not in o and "xml comment" not in o:
                # no white space around the nested tag
                if out:
                    out[-1] = out[-1].rstrip("\n") if "cdata" not in o else out[-1]
                    out = [x for x in out if x]
                out.append(render(b, o, count))
                continue
            if "xml comment" in o:
                out.append(o["xml comment"] + "\n")
            out.append(pad + render(b, o, count) + "\n")
            continue
        if n.tag == "group":
            if "start" in o and first and "_start_" not in b and "_headers_" not in b:
                b = re.sub(r" }}", " | _start_ }}", b, count=1)
            if "hash" in o:
                text.append(o["hash"])
            if "blank" in o:
                text.append(o["blank"])
            if "xml comment" in o:
                flush()
                out.append(o["xml comment"] + "\n")
            if "bar" in o:
                b = b.replace(" | ", o["bar"])
            if "brace" in o:
                b = re.sub(r"{{ (.*?) }}", lambda m: o["brace"] % m.group(1), b)
            # blanks at the end of a header line are a part of its last column
            b += o.get("trail", "") if "_headers_" not in b else ""
        first = False
        text.append(b)
    flush()
    body = "".join(out)
    if not n.body:
        return "<%s%s/>" % (tag, render_attrs(n, o))
    if "compact" in o and n.tag == "group" and "cdata" not in o:
        return "<%s%s>%s</%s>" % (tag, render_attrs(n, o), body.strip("\n"), tag)
    if not body.endswith("\n") and "cdata" not in o:
        body += "\n"
    return "<%s%s>%s%s</%s>" % (tag, render_attrs(n, o), body if body.startswith("\n") or "cdata" in o else "\n" + body, pad, tag)


def template(nodes, o):
    nodes = list(nodes)
    if o.get("functions") == "chain":
        cs = dict((k, calls(v)) for k, v in chains(nodes))
        if cs:
            nodes.insert(0, N("vars", [("load", "json")], json.dumps(cs)))
    if "order" in o:
        groups = [n for n in nodes if n.tag == "group"]
        outs = [n for n in nodes if n.tag in ("output", "input")]
        rest = [n for n in nodes if n not in groups and n not in outs]
        nodes = {"reversed": outs + groups + rest[::-1], "groups first": groups + rest + outs, "groups last": outs + rest + groups}[o["order"]]
    doc = N("doc", [], *([] if o.get("docs") == "empty" else ["This is <b> {{ documentation }}", "## with & more"]))
    if o.get("docs") in ("first", "empty"):
        nodes.insert(0, doc)
    elif o.get("docs"):
        nodes.append(doc)
    count = [0]
    parts = [o.get("indent", "") + render(n, o, count) for n in nodes]
    if "empty tags" in o:
        parts = [o["empty tags"]] + parts + [o["empty tags"]]
    sep = "" if "compact" in o else "\n"
    if "comment between" in o:
        sep = "\n<!-- between\n two -->\n"
    t = sep.join(parts)
    if "comment between" in o:
        t = "<!-- top -->\n" + t + "\n<!-- bottom -->"
    w = o.get("wrap")
    if w:
        tag = "Template" if w == "Template" else "template"
        t = "<%s>\n%s\n</%s>" % (tag, t, tag)
        if w == "twice":
            t = "<template>\n%s\n</template>" % t
    if "edges" in o:
        t = o["edges"] + t + o["edges"]
    if "eol" in o:
        t = t.replace("\r\n", "\n").replace("\n", o["eol"])
    return t


def supply(t, text, route, level=None):
    from ttp import ttp
    kw = {} if text is None else {"data": text}
    lv = {"log_level": level} if level else {}
    kw.update(lv)
    name = "t_%d.txt" % os.getpid()
    if route in ("path", "object", "add_template", "add object", "template kw"):
        with open(name, "w", newline="") as f:
            f.write(t)
    if route == "path":
        p = ttp(template=name, **kw)
    elif route == "object":
        with open(name) as f:
            p = ttp(template=f, **kw)
    elif route == "StringIO":
        p = ttp(template=io.StringIO(t), **kw)
    elif route == "template kw":
        p = ttp(kw.get("data", ""), os.path.abspath(name), **lv)
    elif route in ("add_template", "add object"):
        p = ttp(**lv)
        if route == "add_template":
            p.add_template(template=t)
        else:
            with open(name) as f:
                p.add_template(f)
        if text is not None:
            p.add_input(text, template_name="_all_")
    else:
        p = ttp(template=t, **kw)
    p.parse(one=True)
    return p.result()


def cases():
    depth = 4 if DEEP else 3
    for base in BASES:
        nodes = BASES[base][0]
        tags = {n.tag for n in nodes}
        used = [r for r in RULES if r not in ALIASES or r in tags]
        if not {"macro", "lookup"} & tags:
            used.remove("others")
        yield base, ()
        for k in range(1, depth + 1):
            for rules in itertools.combinations(used, k):
                if k == 4 and base in ("outputs", "variables and lookups"):
                    continue
                yield base, rules


def fn(case):
    base, rules = case
    nodes, text, want = BASES[base]
    n = 0
    states = []
    for vals in itertools.product(*(RULES[r] for r in rules)):
        o = dict(zip(rules, vals))
        t = template(nodes, o)
        got = obs.attempt(supply, t, text, o.get("route"), o.get("log level"))
        if not same(got, want):
            raise Violation("%s rewritten by %r: expected %r, observed %r\n--- template ---\n%s" % (base, o, want, got, t), template=t, data=text)
        n += 1
        states.append(h(t))
    return Outcome(h((base, rules)), bool(rules), count=n, states=states, transitions=n)


# ------------------------------------------------------------- templates without tags
PLAIN = ["interface {{ i | ORPHRASE }}", " ip {{ a | IP }}/{{ m | DIGIT }}", " mtu {{ u | to_int }}"]


def plain_cases():
    rules = ["wrap", "hash", "xml comment", "blank", "trail", "eol", "start", "brace", "bar", "cdata", "route", "edges", "log level"]
    for k in range(0, 5 if DEEP else 4):
        yield from itertools.combinations(rules, k)


def plain_fn(rules):
    text = "interface Gi 1\n ip 10.0.0.1/24\ninterface Lo0\n mtu 9\n"
    want = [[[{"i": "Gi 1", "a": "10.0.0.1", "m": "24"}, {"i": "Lo0", "u": 9}]]]
    n = 0
    states = []
    for vals in itertools.product(*(RULES[r] for r in rules)):
        o = dict(zip(rules, vals))
        g = render(N("group", [], *PLAIN), dict(o), [0])
        t = re.sub(r"^<group>\n?|</group>$", "", g)
        if "wrap" in o:
            t = "<%s>\n%s\n</%s>" % ((o["wrap"].replace("twice", "template"), t) + (o["wrap"].replace("twice", "template"),))
            if o["wrap"] == "twice":
                t = "<template>\n%s\n</template>" % t
        if "edges" in o:
            t = o["edges"] + t + o["edges"]
        if "eol" in o:
            t = t.replace("\r\n", "\n").replace("\n", o["eol"])
        got = obs.attempt(supply, t, text, o.get("route"), o.get("log level"))
        if not same(got, want):
            raise Violation("rewritten by %r: expected %r, observed %r\n--- template ---\n%s" % (o, want, got, t), template=t, data=text)
        n += 1
        states.append(h(t))
    return Outcome(h(rules), bool(rules), count=n, states=states, transitions=n)


# ------------------------------------------------------------- letter case of tag names
def case_cases():
    for base in BASES:
        for kind in ALIASES:
            if kind not in {n.tag for n in BASES[base][0]}:
                continue
            for name in [kind] + [a for a in ALIASES[kind] if a.islower()]:
                if len(name) < 5:
                    forms = {"".join(x) for x in itertools.product(*((c, c.upper()) for c in name))}
                else:
                    forms = {name.upper(), name.title(), name[:-1] + name[-1].upper()} | {name[:k].upper() + name[k:] for k in range(len(name))}
                for f in sorted(forms):
                    yield base, kind, f


def case_fn(case):
    base, kind, name = case
    nodes, text, want = BASES[base]
    for wrap in (None, "template", "TEMPLATE"):
        o = {kind: name}
        t = re.sub(r"(?i)<(/?)%s(?=[\s/>])" % kind, r"<\g<1>%s" % name, template(nodes, {}))
        if wrap:
            t = "<%s>\n%s\n</%s>" % (wrap, t, wrap)
        got = obs.attempt(supply, t, text, None, None)
        if not same(got, want):
            raise Violation("%s with %s: expected %r, observed %r\n--- template ---\n%s" % (base, o, want, got, t), template=t, data=text)
    return Outcome(h(case), True, count=3, transitions=3)


def check(ck):
    ck.explore("tag names", case_cases, case_fn, rule="every name of every kind of tag in every letter case (long names: cases of a prefix) in each base template, wrapped or not")
    ck.explore("rewritings", cases, fn, rule="all sets of up to %d rewritings out of 27 kinds, with all their variants, of seven base templates" % (4 if DEEP else 3))
    ck.explore("templates without tags", plain_cases, plain_fn, rule="all sets of up to %d rewritings of a template without tags" % (4 if DEEP else 3))
