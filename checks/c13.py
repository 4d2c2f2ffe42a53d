"""C13: which groups run on which input, for every association of a small
template: the result of an item has exactly the keys of its groups."""
import itertools
import os
import shutil
import sys
import tempfile

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded configurations (input and groups attributes, routes, tag orders) executed on the real parser against a reference association"
ASSUMPTIONS = [
    "two input tags of one name with different functions or parameters are outside the property",
    "a group that sits inside another group has no association of its own",
]
DEEP = "thorough" in sys.argv
LETTERS = "abcdefghijklm"


def group_tag(pos, name, inp):
    """the pos-th top level group: its records carry a variable of its own"""
    n = "" if name is None else " name='%s*'" % name
    i = "" if inp is None else " input='%s'" % inp
    return "<group%s%s>\nx {{ %s }}\n</group>\n" % (n, i, LETTERS[pos])


def named(inp):
    return [] if inp is None else [x.strip() for x in inp.split(",")]


def indexes(groups, name, listed):
    """groups: [(name, input attribute)]; listed: names of one entry for the input"""
    mine = [k for k, (_, i) in enumerate(groups) if name in named(i)]
    if mine:
        return mine
    free = [k for k, (_, i) in enumerate(groups) if i is None]
    if "all" in listed:
        return free
    return [k for k in free if groups[k][0] is not None and groups[k][0] + "*" in listed]


def produce(groups, idx, values):
    """what the groups of idx make of the item: {name: records}, in template order"""
    res = {}
    anon = []
    for k in sorted(set(idx)):
        recs = [{LETTERS[k]: v} for v in values]
        n = groups[k][0]
        if n is None:
            anon += recs
        else:
            res.setdefault(n, []).extend(recs)
    if any(groups[k][0] is None for k in idx):
        return anon + ([res] if res else [])
    return res


def check_items(got, want, tpl, note):
    obs.expect(got, want, tpl, None, note)
    for g, w in zip(got, want):
        if isinstance(w, dict) and list(g) != list(w):
            raise Violation("%s groups ran in order %r instead of template order %r\n%s" % (note, list(g), list(w), tpl))


GROUPS_ATTR = [None, "A*", "B*", "A*,B*", " B* , A* ", "all", "nope", "A*, all", "C*"]
GIN = [None, "i1", "i2", "i1, i2"]


def text(v):
    return "x %s" % v


def input_tag(name, how, attr, v):
    g = "" if attr is None or how != "attr" else " groups='%s'" % attr
    n = "" if name is None else " name='%s'" % name
    return "<input%s load='text'%s>\n%s\n</input>\n" % (n, g, text(v))


PLACES = [(0, 0), (0, 3), (3, 0), (3, 3), (1, 2), (2, 1), (1, 1), (2, 0)]


def assoc_cases():
    names = [("A", "B", "C"), ("A", "A", "B")] + ([("A", "B", "B"), ("A", "A", "A")] if DEEP else [])
    for nm in names:
        for gin in itertools.product(GIN, repeat=3):
            for a1 in GROUPS_ATTR:
                for a2 in (GROUPS_ATTR + ["absent"]) if DEEP else ["absent", None, "A*", "B*,C*", "nope"]:
                    for pl in PLACES if DEEP else PLACES[(hash((gin, a1, a2)) % 4)::4]:
                        yield (nm, gin, a1, a2, pl)


def assoc_fn(case):
    nm, gin, a1, a2, (p1, p2) = case
    groups = list(zip(nm, gin))
    parts = [[] for _ in range(4)]
    order = []
    ins = [("i1", a1, "1", p1)] + ([] if a2 == "absent" else [("i2", a2, "2", p2)])
    for i in ins:
        parts[i[3]].append(i)
    tpl = ""
    for k in range(4):
        for n, a, v, _ in parts[k]:
            tpl += input_tag(n, "attr", a, v)
            order.append((n, a, v))
        if k < 3:
            tpl += group_tag(k, *groups[k])
    got = obs.run(tpl)[0]
    want = [produce(groups, indexes(groups, n, ["all"] if a is None else named(a)), [v]) for n, a, v in order]
    check_items(got, want, tpl, "case %r:" % (case,))
    return Outcome(h(want), any(len(w) not in (0, 3) for w in want), states=[h((n, repr(w))) for (n, _, _), w in zip(order, want)], transitions=len(order))


# ------------------------------------------------------------ the same association through every route
def route_cases():
    routes = ["attr", "attr-after-load", "python", "yaml", "json", "yaml-name", "python-name", "python-name-last", "yaml-string", "argument", "argument-new"]
    gs = [(("A", None), ("B", None), ("C", "i1")), (("A", None), ("B", None), ("C", "i2")), (("A", "i1"), ("B", "i1"), ("A", None)),
          (("A", None), ("A", None), ("C", None)), ((None, None), ("B", None), ("C", None)), ((None, None), ("B", "i1"), (None, "i1")),
          (("A", "i2"), ("B", "i2,i1"), ("C", "Default_Input")), (("A", "Default_Input"), ("B", None), (None, "i2"))]
    for g in gs:
        for route in routes:
            for attr in GROUPS_ATTR:
                for name in ("i1", None) if "name" not in route else ("i1",):
                    for first in (True, False):
                        yield (g, route, attr, name, first)


def route_fn(case):
    groups, route, attr, name, first = case
    gt = "".join(group_tag(k, *g) for k, g in enumerate(groups))
    lst = None if attr is None else named(attr)
    n = "" if name is None else " name='%s'" % name
    body, arg = "", None
    if route == "attr":
        tag = "<input%s%s/>" % (n, "" if attr is None else " groups='%s'" % attr)
    elif route == "attr-after-load":
        tag = "<input load='python'%s%s/>" % ("" if attr is None else " groups='%s'" % attr, n)
    elif route == "python":
        tag = "<input%s load='python'>\n%s\n</input>" % (n, "k = 1" if lst is None else "groups = %r" % lst)
    elif route == "yaml":
        tag = "<input%s load='yaml'>\n%s\n</input>" % (n, "k: 1" if lst is None else "groups: %r" % lst)
    elif route == "json":
        tag = "<input%s load='json'>\n{%s}\n</input>" % (n, '"k": 1' if lst is None else '"groups": %s' % repr(lst).replace("'", '"'))
    elif route == "yaml-name":
        tag = "<input load='yaml'>\n%sname: %s\n</input>" % ("" if lst is None else "groups: %r\n" % lst, name)
    elif route == "python-name":
        tag = "<input>\n%sname = '%s'\n</input>" % ("" if lst is None else "groups = %r\n" % lst, name)
    elif route == "python-name-last":
        tag = "<input%s load='python'>\nname = '%s'\n%s\n</input>" % (" groups='%s'" % attr if attr else "", name, "")
    elif route == "yaml-string":
        tag = "<input%s load='yaml'>\n%s\n</input>" % (n, "k: 1" if attr is None else "groups: '%s'" % attr)
    else:
        tag = "" if route == "argument-new" else "<input%s groups='nope'/>" % n
        arg = lst
    tpl = (tag + "\n" + gt) if first else (gt + tag)
    p = obs.ttp(template=tpl)
    # the text is added to the declared input; a list with no entry adds no group
    real = name or "Default_Input"
    extra = arg if arg is not None else (["all"] if route in ("argument", "argument-new") else ["nope"])
    p.add_input(text("7"), input_name=real, groups=list(extra))
    p.parse(one=True)
    got = p.result()[0]
    own = ["all"] if lst is None else lst
    if route in ("argument", "argument-new"):
        own = extra
    idx = indexes(groups, real, own)
    want = []
    wn = {}
    # inputs named by groups only exist as well, without data
    want = [produce(groups, idx, ["7"])]
    check_items(got, want, tpl, "case %r:" % (case,))
    return Outcome(h((want, route)), bool(idx), transitions=1)


# ------------------------------------------------------------ several entries for one input
def combine_cases():
    lists = [["all"], ["A*"], ["B*"], ["A*", "C*"], ["nope"]]
    gs = [tuple(zip("ABC", x)) for x in ((None, None, None), (None, None, "i1"), ("i2", None, None), (None, "i1, i2", "i2"))]
    for g in gs:
        for k in (2, 3):
            for seq in itertools.product(range(len(lists)), repeat=k):
                for tags in range(k + 1):
                    for names in (("i1",) * k, ("i1", "i2", "i1")[:k], ("i2", "i1", "i1")[:k]):
                        for dup in (False, True) if DEEP else (False,):
                            yield (g, tuple(tuple(lists[i]) for i in seq), tags, names, dup)


def combine_fn(case):
    groups, entries, tags, names, dup = case
    tpl = ""
    state = {}
    vals = []
    for k, (e, n) in enumerate(zip(entries, names)):
        v = "5" if dup else str(k)
        vals.append(v)
        if k < tags:
            tpl += "<input name='%s' load='text' groups='%s'>\n%s\n</input>\n" % (n, ",".join(e), text(v))
    tpl += "".join(group_tag(k, *g) for k, g in enumerate(groups))
    p = obs.ttp(template=tpl)
    for k, (e, n) in enumerate(zip(entries, names)):
        if k >= tags:
            p.add_input(text(vals[k]), input_name=n, groups=list(e))
        s = state.setdefault(n, [[], []])
        # identical items of one input are one item; texts of tags carry newlines of their own
        item = ("tag" if k < tags else "add", vals[k])
        if item not in s[0]:
            s[0].append(item)
        s[1] += indexes(groups, n, e)
    p.parse(one=True)
    got = p.result()[0]
    want = []
    declared = [r for g in groups for r in named(g[1])]
    order = dict.fromkeys(list(names[:tags]) + declared + list(names))
    for n in order:
        if n in state:
            want += [produce(groups, state[n][1], [v]) for _, v in state[n][0]]
    check_items(got, want, tpl, "case %r:" % (case,))
    return Outcome(h(want), len(set(map(repr, want))) > 1, transitions=len(entries))


# ------------------------------------------------------------ many groups: order and exactly once
def many_cases():
    n = 11
    pairs = list(itertools.combinations(range(n), 2))
    for a in pairs:
        for b in pairs if DEEP else [x for x in pairs if (x[0] + x[1] + a[0]) % 3 == 0]:
            yield (n, a, b)


def many_fn(case):
    n, a, b = case
    names = ["G%d" % k for k in range(n)]
    groups = [(x, None) for x in names]
    tpl = "".join(group_tag(k, *g) for k, g in enumerate(groups))
    p = obs.ttp(template=tpl)
    p.add_input(text("1"), groups=[names[k] + "*" for k in a])
    p.add_input(text("2"), groups=[names[k] + "*" for k in b])
    p.parse(one=True)
    check_items(p.result()[0], [produce(groups, a + b, [v]) for v in "12"], tpl, "case %r:" % (case,))
    return Outcome(h((a, b)), True, transitions=2)


# ------------------------------------------------------------ group inputs that are paths, templates of their own
def path_cases():
    refs = [None, "f1", "f2", "dir/", "f1, f2", "missing", "f1, i1"]
    for gin in itertools.product(refs, repeat=2):
        for inp in (None, "i1", "url"):
            for base in (True, False):
                for inner in (None, "f1", "i1"):
                    yield (gin, inp, base, inner)


def path_fn(case):
    gin, inp, base, inner = case
    d = tempfile.mkdtemp(prefix="c13")
    try:
        os.mkdir(d + "/dir")
        for i, f in enumerate(("f1", "f2", "dir/k")):
            with open("%s/%s" % (d, f), "w") as fo:
                fo.write(text("v%d" % i))

        def ref(r):
            return r if base or r == "i1" else d + "/" + r
        groups = [(n, None if g is None else ", ".join(ref(r) for r in named(g))) for n, g in zip("AB", gin)]
        tpl = ""
        order = []
        if inp == "i1":
            tpl += input_tag("i1", "attr", None, "t")
            order.append(("i1", ["t"]))
        elif inp == "url":
            tpl += "<input name='i1' url='%s'/>\n" % ref("f2")
            order.append(("i1", ["v1"]))
        for k, g in enumerate(groups):
            if k == 1 and inner:
                # the association of an inner group is ignored
                tpl += "<group name='B*'%s>\nx {{ b }}\n<group name='in' input='%s'>\ny {{ y }}\n</group>\n</group>\n" % (
                    "" if g[1] is None else " input='%s'" % g[1], ref(inner))
            else:
                tpl += group_tag(k, *g)
        tpl += "<group name='C*'>\nx {{ c }}\n</group>\n"
        groups.append(("C", None))
        for g in groups:
            for r in named(g[1]):
                if r not in [o[0] for o in order]:
                    short = r[len(d) + 1:] if r.startswith(d) else r
                    order.append((r, {"f1": ["v0"], "f2": ["v1"], "dir/": ["v2"]}.get(short, [])))
        p = obs.ttp(template=tpl, **({"base_path": d + "/"} if base else {}))
        p.parse(one=True)
        want = [produce(groups, indexes(groups, n, ["all"]), [v]) for n, vs in order for v in vs]
        check_items(p.result()[0], want, tpl, "case %r:" % (case,))
        return Outcome(h((want, base)), len(want) > 1, transitions=len(want))
    finally:
        shutil.rmtree(d)


def template_cases():
    tags = ["A*", "all", None]
    for gin in itertools.product((None, "i1", "i2"), repeat=4):
        for a1, a2 in itertools.product(tags, repeat=2):
            for target in ("one", "oned", "_all_", "nobody"):
                yield (gin, a1, a2, target)


def template_fn(case):
    """inputs of one template are of no concern to the groups of another"""
    gin, a1, a2, target = case
    tpls, groups = [], []
    for name, a, gs in (("one", a1, gin[:2]), ("oned", a2, gin[2:])):
        g = list(zip("AB", gs))
        groups.append(g)
        tpls.append("<template name='%s'>\n%s%s</template>\n" % (
            name, input_tag("i1", "attr", a, "0"), "".join(group_tag(k, *x) for k, x in enumerate(g))))
    p = obs.ttp(template="".join(tpls))
    p.add_input(text("9"), input_name="i2", template_name=target)
    p.parse(one=True)
    got = p.result()
    want = []
    for name, a, g in (("one", a1, groups[0]), ("oned", a2, groups[1])):
        w = [produce(g, indexes(g, "i1", ["all"] if a is None else named(a)), ["0"])]
        if target in (name, "_all_"):
            w.append(produce(g, indexes(g, "i2", ["all"]), ["9"]))
        want.append(w)
    obs.expect(len(got), 2, "".join(tpls))
    for g, w in zip(got, want):
        check_items(g, w, "".join(tpls), "case %r:" % (case,))
    return Outcome(h(want), True, transitions=3)


# ------------------------------------------------------------ names that are parts of each other
INPUT_NAMES = ["i1", "i10", "i", "I1", "a/i1", "i1/a", "i1.txt", "x i1", "i1 x", "i-1", "i_1", "1", "All", "Default_Input", "default_input", "i1*", "*", "/i1", "{{ i1 }}", "input"]
GROUP_NAMES = ["A", "A1", "AA", "a", "1A", "A_", "A-", "ALL", "alls", "nall", "B"]


def name_cases():
    for a, b in itertools.permutations(INPUT_NAMES, 2):
        for k, (x, y) in enumerate(itertools.permutations(GROUP_NAMES, 2)):
            if DEEP or k < 4 or (a, b) in (("i1", "i10"), ("a/i1", "i1"), ("Default_Input", "i"), ("I1", "i1")):
                yield (a, b, x, y)


def name_fn(case):
    a, b, x, y = case
    n = 0
    for groups, la in (([(x, a), (y, b), ("C", None)], ["all"]), ([(x, None), (y, None), ("C", a)], [x + "*"]), ([(x, None), (y, None), ("C", None)], [y + "*", "C*"]), ([(x, b), (y, None), ("C", None)], [x + "*"])):
        tpl = input_tag(a, "attr", ",".join(la), "1") + "".join(group_tag(k, *g) for k, g in enumerate(groups))
        p = obs.ttp(template=tpl)
        p.add_input(text("2"), input_name=b, groups=[y + "*"])
        p.parse(one=True)
        res = {a: [produce(groups, indexes(groups, a, la), ["1"])], b: [produce(groups, indexes(groups, b, [y + "*"]), ["2"])]}
        check_items(p.result()[0], res[a] + res[b], tpl, "case %r:" % (case,))
        n += 2
    return Outcome(h(case), True, transitions=n, count=n // 2)


def check(ck):
    ck.explore("names", name_cases, name_fn, rule="all ordered pairs of %d input names and of %d group names, parts of each other or alike" % (len(INPUT_NAMES), len(GROUP_NAMES)))
    ck.explore("association", assoc_cases, assoc_fn,
               rule="three groups, every combination of input attributes, two inputs with every groups attribute, tag orders: groups naming the input, else the listed ones, else those without input attribute")
    ck.explore("routes", route_cases, route_fn,
               rule="name and groups from attributes, from tag text in three formats or from add_input give the same association")
    ck.explore("combined", combine_cases, combine_fn, rule="all entries of one input name are one input with the union of their groups, each item once")
    ck.explore("many groups", many_cases, many_fn, rule="two groups lists over eleven groups: template order, each group once")
    ck.explore("paths", path_cases, path_fn, rule="group input attributes that are file or folder paths")
    ck.explore("templates", template_cases, template_fn, rule="two templates, an added input for one, both or none")
