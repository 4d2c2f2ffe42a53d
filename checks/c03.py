"""C03: where records are placed. Records and their nesting come from the model of
C02; placement is a walk over plain dicts and lists that knows only the rules of the
documentation (dotted path, list on the second record, * and **, _, /, no name)."""
import itertools

from mc import model, obs
from mc.core import Outcome, Violation, h, same

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of group names x line sequences, every sequence replayed on the parser against a placement model"
ASSUMPTIONS = ["every record has a value of its own", "a group path never runs through the name of a match variable"]


def fmt(item):
    name = item.rstrip("*")
    return name, item[len(name):]


def path_of(name, parent_path):
    if name is None:
        return ["_anonymous_*"] if parent_path is None else list(parent_path)
    if name == "no group tag":
        # the existing tests pin that a single record is not wrapped in a list here
        return ["_anonymous_"]
    if name == "/":
        return ["_anonymous_*"]
    if name.startswith("/"):
        return name[1:].split(".")
    return (parent_path or []) + name.split(".")


def place(root, path, rec):
    """store rec under path in root"""
    cur = root
    items = [fmt(p) for p in path]
    for name, f in items[:-1]:
        if name == "_":
            continue
        if name not in cur:
            cur[name] = [{}] if f == "*" else {}
        cur = cur[name]
        if isinstance(cur, list):
            if not cur:
                cur.append({})
            cur = cur[-1]
    name, f = items[-1]
    if name == "_":
        cur.update(rec)
    elif name not in cur:
        cur[name] = [rec] if f == "*" else rec
    elif isinstance(cur[name], list):
        cur[name].append(rec)
    elif f == "**":
        for k, v in rec.items():
            cur[name].setdefault(k, v)
    elif not cur[name]:
        cur[name] = rec
    else:
        cur[name] = [cur[name], rec]


class Recorder(model.Family):
    """keeps the records in the order in which they start"""

    def __init__(self, spec, top):
        model.Family.__init__(self, spec, top)
        self.order = []

    def step(self, cands):
        n = {id(x) for _, x in self.open}
        model.Family.step(self, cands)
        for g, x in self.open:
            if id(x) not in n and not any(x is y for _, y in self.order):
                self.order.append((g, x))


def expected(spec, paths, toks):
    root = {}
    for top in spec.tops:
        f = Recorder(spec, top)
        for tk in toks:
            f.step(tk[1])
        for g, node in f.order:
            place(root, paths[g], dict(node.vals))
    if "_anonymous_" in root:
        anon = root.pop("_anonymous_")
        if isinstance(anon, dict):
            return anon
        return anon + ([root] if root else [])
    return root


def attr(name):
    return "" if name is None else ' name="%s"' % name


TOPS = [None, "a", "a*", "a**", "a.b", "a*.b", "a.b*", "a**.b", "a.b**", "a*.b*", "a**.b*", "a*.b**", "_", "_.a", "_.a*", "/a", "/a.b*", "/", "a._", "a._.b", "a*._.b*", "_._", "a*b", "a**b*"]
KIDS = [None, "k", "k*", "k**", "k.m", "k*.m", "k.m*", "k**.m", "k*.m*", "k.m**", "_", "_.k", "_.k*", "/k", "/k*", "/k**", "/a.k", "/k.m*", "/", "k._", "k._.m", "k*._", "_._", "k*m", "k**m*"]
SECOND = [None, "a", "a*", "a**", "b", "a.b", "a.c", "a*.c", "b*", "_", "a.b*", "a**.c"]

S1 = ("start 1", [("start", "g", {"s": "1"})])
S2 = ("start 2", [("start", "g", {"s": "2"})])
K3 = (" k 3", [("start", "k", {"x": "3"})])
K4 = (" k 4 5", [("start", "k", {"x": "4", "y": "5"})])
B6 = (" b 6", [("add", "g", {"b": "6"})])
Y7 = (" y 7", [("add", "k", {"z": "7"})])
M8 = ("  m 8", [("start", "m", {"w": "8"})])
H1 = ("begin 1", [("start", "h", {"h": "1"})])
H2 = ("begin 2 3", [("start", "h", {"h": "2", "i": "3"})])


def templates(ck):
    """(label, template text, groups, names, tokens, depth)"""
    deep = ck.thorough
    for n in TOPS:
        yield (n, '<group%s>\nstart {{ s }}\n b {{ b }}\n</group>' % attr(n), {"g": (None, "g")}, {"g": n}, [S1, S2, B6], 6 if deep else 5)
    yield ("no group tag", "start {{ s }}\n b {{ b }}", {"g": (None, "g")}, {"g": "no group tag"}, [S1, S2, B6], 6)
    for n in TOPS:
        for k in KIDS:
            if n == "_" and k == "_":
                continue
            yield ((n, k),
                   '<group%s>\nstart {{ s }}\n b {{ b }}\n<group%s>\n k {{ x }}\n k {{ x }} {{ y | _start_ }}\n y {{ z }}\n</group>\n</group>' % (attr(n), attr(k)),
                   {"g": (None, "g"), "k": ("g", "k")}, {"g": n, "k": k}, [S1, S2, K3, K4, Y7] + ([B6] if deep else []), 5 if deep else 5)
    for n in ("a", "a*", None, "a**"):
        for k in ("k", "k*", "k**", "_", "/k"):
            for m in ("m", "m*", "m**", "_", "/m", "/m*", None):
                yield ((n, k, m),
                       '<group%s>\nstart {{ s }}\n b {{ b }}\n<group%s>\n k {{ x }}\n<group%s>\n  m {{ w }}\n</group>\n</group>\n</group>' % (attr(n), attr(k), attr(m)),
                       {"g": (None, "g"), "k": ("g", "k"), "m": ("k", "m")}, {"g": n, "k": k, "m": m}, [S1, S2, K3, M8], 6 if deep else 5)
    for n in TOPS:
        for o in SECOND:
            yield ((n, o, "second"),
                   '<group%s>\nstart {{ s }}\n b {{ b }}\n</group>\n<group%s>\nbegin {{ h }}\nbegin {{ h }} {{ i | _start_ }}\n</group>' % (attr(n), attr(o)),
                   {"g": (None, "g"), "h": (None, "h")}, {"g": n, "h": o}, [S1, S2, H1, H2], 5 if deep else 4)


def shared(groups, names):
    paths = {}
    for g, (p, _) in groups.items():
        paths[g] = path_of(names[g], None if p is None else paths[p])
    ps = [tuple(p) for p in paths.values()]
    return len(set(ps)) < len(ps)


def check(ck):
    def cases():
        for label, text, groups, names, toks, depth in templates(ck):
            if shared(groups, names):
                # groups at the very same path take each other's lines
                toks = [t for t in toks if t[1][0][0] == "start"]
            spec = model.Spec(str(label), text, groups, toks)
            paths = {}
            for g, (p, _) in groups.items():
                paths[g] = path_of(names[g], None if p is None else paths[p])
            yield spec, paths, depth

    def one(case):
        spec, paths, depth = case
        seqs = [s for k in range(depth + 1) for s in itertools.product(spec.tokens, repeat=k)]
        states, keys, n = set(), [], 0
        for lo in range(0, len(seqs), 300):
            part = seqs[lo:lo + 300]
            got = obs.run_batch(spec.template, ["\n".join(t[0] for t in s) for s in part])
            for s, g in zip(part, got):
                f = [Recorder(spec, t) for t in spec.tops]
                m = model.run(spec, s)
                if m.undefined:
                    continue
                w = expected(spec, paths, s)
                states.add(h(w))
                n += 1
                obs.expect(g, w, spec.template, "\n".join(t[0] for t in s))
                keys.append(g)
        return Outcome(keys, states=states, transitions=n, count=n)

    ck.explore("placement", cases, one, "all group names of the alphabet (one, two, three levels, two top groups) x all line sequences up to length 5")


    # a template can have another separator, dots then are ordinary characters
    seps = ["/", "|", ":", "::", "-"] if ck.thorough else ["/", "|", "::"]
    tops = ["a", "a*", "a**", "a.b", "a*.b*", "a.b**", "_.a", "/a", "/a.b*", None]
    kids = ["k", "k*", "k.m", "k*.m", "k.m**", "_", "_.k", "/k", "/a.k", "/k.m*", None, "k.D", "D*", "/q.D"]

    def renamed(name, sep):
        """items get dots of their own, D becomes a dynamic item"""
        if name is None:
            return None
        lead = "/" if name[0] == "/" else ""
        items = []
        for i in name.lstrip("/").split("."):
            n, f = fmt(i)
            items.append({"_": "_", "D": "{{ x }}"}.get(n, n + ".%s." % n) + f)
        return lead + sep.join(items)

    def sep_cases():
        for sep in seps:
            for n in tops:
                for k in kids:
                    yield sep, n, k

    def sep_one(case):
        sep, n, k = case
        tpl = '<template pathchar="%s">\n<group%s>\nstart {{ s }}\n<group%s>\n k {{ x }} {{ y }}\n</group>\n</group>\n</template>' % (sep, attr(renamed(n, sep)), attr(renamed(k, sep)))
        toks = ["start 1", "start 2", " k 3 4", " k 5.6 7", " k 8%s9 0" % sep]
        seqs = [s for d in range(5) for s in itertools.product(toks, repeat=d)]

        def items(name, parent):
            if name is None:
                return ["_anonymous_*"] if parent is None else list(parent)
            own = [("_" if fmt(i)[0] == "_" else fmt(i)[0] if fmt(i)[0] == "D" else "%s.%s." % (fmt(i)[0], fmt(i)[0])) + fmt(i)[1] for i in name.lstrip("/").split(".")]
            if name[0] == "/":
                return own
            return (parent or []) + own

        wants = []
        pg = items(n, None)
        pk = items(k, pg)
        for s in seqs:
            root, opened = {}, False
            for t in s:
                w = t.split()
                if w[0] == "start":
                    opened = True
                    place(root, pg, {"s": w[1]})
                elif opened:
                    rec = {"x": w[1], "y": w[2]}
                    if any(fmt(i)[0] == "D" for i in pk):
                        key = rec.pop("x")
                        place(root, [key + fmt(i)[1] if fmt(i)[0] == "D" else i for i in pk], rec)
                    else:
                        place(root, pk, rec)
            if "_anonymous_" in root:
                anon = root.pop("_anonymous_")
                root = anon + ([root] if root else [])
            wants.append(root)
        got = obs.run_batch(tpl, ["\n".join(s) for s in seqs])
        for s, g, w in zip(seqs, got, wants):
            obs.expect(g, w, tpl, "\n".join(s))
        return Outcome((case, h(wants)), states=[h(w) for w in wants], transitions=len(seqs), count=len(seqs))

    ck.explore("path separator", sep_cases, sep_one, "group names with other path separators, items containing dots, dynamic items, all line sequences up to length 4")
