"""C12: every short sequence of input items through feature-rich templates: each
item's results are those of the item alone; explicit globals follow a model."""
import copy
import functools
import itertools
import os
import shutil
import sys
import tempfile

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all input histories up to a length: stateful parser against a fresh parser per item, and against a model of the global variables"
ASSUMPTIONS = [
    "results='per_template', record, count, gpvlookup(record=) and lookups in other results are the documented ways for one item to reach another and are not part of the alone-comparison",
]
DEEP = "thorough" in sys.argv

# ------------------------------------------------------------ a pool of templates, one feature or combination each
IFS = ["int a\n d one\n v 1\nint b\n v 2", "int c", "int a\n d two\nend\n v 9", "v 3\n d x\nint b", "junk\n\n  junk int q\n", ""]
POOL = {
    "plain": ("<group name='i'>\nint {{ n }}\n d {{ d }}\n v {{ v }}\n</group>", IFS),
    "list": ("<group name='i*'>\nint {{ n }}\n d {{ d }}\n v {{ v | to_int }}\n</group>", IFS),
    "anonymous": ("int {{ n }}\n d {{ d }}\n v {{ v }}", IFS),
    "dynamic": ("<group name='i.{{ n }}'>\nint {{ n }}\n d {{ d }}\n v {{ v }}\n</group>", IFS),
    "dynamic-rest": ("<group name='i.{{ n }}.{{ d }}**'>\nint {{ n }}\n d {{ d }}\n v {{ v }}\n</group>", IFS),
    "dynamic-late": ("<group name='g'>\nint {{ n }}\n<group name='{{ d }}*'>\n d {{ d }}\n</group>\n<group name='{{ v }}'>\n v {{ v }}\n</group>\n</group>", IFS),
    "child": ("<group name='i'>\nint {{ n }}\n<group name='c'>\n d {{ d }}\n v {{ v }}\n</group>\n</group>", IFS),
    "child-list": ("<group name='i*'>\nint {{ n }}\n<group name='c*'>\n d {{ d }}\n</group>\n<group name='e'>\n v {{ v }}\n</group>\n</group>", IFS),
    "absolute": ("<group name='i'>\nint {{ n }}\n<group name='/top*'>\n d {{ d }}\n</group>\n v {{ v }}\n</group>", IFS),
    "default": ("<group name='i' default='none'>\nint {{ n }}\n d {{ d | default('dd') }}\n v {{ v }}\n</group>", IFS),
    "default-list": ("<group name='i'>\nint {{ n | default(['x']) }}\n d {{ d | default([]) | joinmatches }}\n v {{ v | default({}) }}\n</group>", IFS),
    "default-child": ("<group name='i'>\nint {{ n }}\n<group name='c' default='X'>\n d {{ d }}\n v {{ v }}\n</group>\n</group>", IFS),
    "default-start": ("<group name='i'>\nint {{ n | default('nothing') }}\n d {{ d | default('none') }}\n</group>", IFS),
    "default-dict": ("<vars>\nD = {'k': []}\n</vars>\n<group name='i' default='D'>\nint {{ n }}\n d {{ d }}\n<group name='d'>\n v {{ v }}\n</group>\n</group>", IFS),
    "set": ("<vars>\nL = ['l']\n</vars>\n<group name='i'>\nint {{ n }}\n d {{ d }}\n{{ l | set('L') }}\n{{ m | set('text') }}\n v 1 {{ o | set('L') | joinmatches }}\n</group>", IFS),
    "set-macro": ("<vars>\nL = ['l']\n</vars>\n<macro>\ndef app(d):\n    d['l'].append(d['n'])\n    return d\n</macro>\n<group name='i' macro='app'>\nint {{ n }}\n d {{ d }}\n{{ l | set('L') }}\n</group>", IFS),
    "set-cond-macro": ("<vars>\nL = ['l']\n</vars>\n<macro>\ndef app(d):\n    d.append('x')\n</macro>\n<group name='i'>\nint {{ n }}\n v 1 {{ o | set('L') | macro('app') }}\n</group>", IFS),
    "group-set-macro": ("<vars>\nL = ['l']\nM = {}\n</vars>\n<macro>\ndef app(d):\n    d['L'].append(d['n'])\n    d['m'][d['n']] = 1\n    return d\n</macro>\n<group name='i' functions=\"set('L') | set('M', 'm') | macro('app')\">\nint {{ n }}\n</group>", IFS),
    "let-macro": ("<macro>\ndef app(d):\n    d['q'].append(d['n'])\n</macro>\n<group name='i' macro='app'>\nint {{ n | let('q', []) }}\n</group>", IFS),
    "default-macro": ("<macro>\ndef app(d):\n    d['q'].append(d['n'])\n</macro>\n<group name='i' macro='app'>\nint {{ n }}\n x {{ q | default([]) }}\n</group>", IFS),
    "vars-tag": ("<vars name='vars'>\na = {'b': {'c': 1}}\nl = [1]\n</vars>\n<group name='vars.a.b'>\nint {{ n }}\n</group>\n<group name='vars.l*'>\n d {{ d }}\n</group>", IFS),
    "vars-merge": ("<vars name='i'>\na = {'b': 1}\n</vars>\n<group name='i.a**'>\nint {{ n }}\n d {{ d }}\n</group>", IFS),
    "vars-output": ("<vars name='vars'>\nl = [1]\n</vars>\n<group name='i*' output='o'>\nint {{ n }}\n</group>\n<group name='k*'>\n d {{ d }}\n</group>\n<output name='o' macro='m'/>\n<macro>\ndef m(d):\n    d['i'].append('m') if 'i' in d else None\n</macro>", IFS),
    "hostname": ("<vars name='v'>\nh = 'gethostname'\n</vars>\n<group name='i*'>\nint {{ n }}\n{{ h | set('h') }}\n</group>", ["sw1#sh\nint a\n", "int b", "sw2#sh\nint c\nint d", "<hw>dis\n", "u@j> show\nint e"]),
    "hostname-path": ("<vars>\nh = 'gethostname'\n</vars>\n<group name='{{ h }}.i*'>\nint {{ n }}\n</group>", ["sw1#sh\nint a\n", "int b", "sw2#sh\nint c\nint d"]),
    "join": ("<group name='i'>\nint {{ n }}\n v {{ v | joinmatches(',') }}\n d {{ d | joinmatches }}\n</group>", ["int a\n v 1\n v 2\n d x", "int b\n v 3", "int c", " v 4\n v 5", "int a\n d y\n d z\nint b\n v 6"]),
    "line": ("<group name='i'>\nint {{ n }}\n{{ l | _line_ | contains('v', 'd') | joinmatches }}\n</group>", IFS),
    "line-start": ("<group name='i*'>\n{{ l | _line_ | contains('int') | _start_ }}\n d {{ d }}\n</group>", IFS),
    "end": ("<group name='i*'>\nint {{ n }}\n v {{ v }}\nend {{ _end_ }}\n</group>\n<group name='j*'>\n d {{ d }}\n</group>", IFS),
    "start2": ("<group name='i*'>\nint {{ n }}\n d {{ d | _start_ }}\n v {{ v }}\n</group>", IFS),
    "headers": ("<group name='t*'>\nNm  Dd   Vv   {{ _headers_ }}\n</group>", ["Nm  Dd   Vv\na   b    c\nd   e    f", "Nm  Dd   Vv", "a   b    c", "Nm  Dd   Vv\nq        z"]),
    "filters": ("<group name='i*' contains='d' exclude_val=\"n, 'b'\">\nint {{ n }}\n d {{ d }}\n v {{ v }}\n</group>", IFS),
    "void-child": ("<group name='i' void=''>\nint {{ n }}\n<group name='c*'>\n v {{ v }}\n</group>\n</group>", IFS),
    "itemize": ("<group name='i' itemize='n'>\nint {{ n }}\n</group>\n<group name='j' itemize=\"'d', 'q'\">\n d {{ d }}\n</group>", IFS),
    "expand": ("<group name='i' expand=''>\nint {{ x.n }}\n d {{ x.y.d }}\n v {{ x.y.v }}\n</group>", IFS),
    "lookup": ("<lookup name='t'>\n{'a': {'k': [1]}, 'b': [2]}\n</lookup>\n<group name='i'>\nint {{ n | lookup('t', add_field='f') }}\n<group name='f'>\n v {{ v }}\n</group>\n</group>", IFS),
    "group-lookup": ("<lookup name='t'>\n{'a': {'k': {}}, 'b': [2]}\n</lookup>\n<group name='i' lookup=\"'n', name='t', update=True\">\nint {{ n }}\n<group name='k'>\n v {{ v }}\n</group>\n</group>", IFS),
    "input-macro": ("<macro>\ndef f(d):\n    return d.replace('int b', 'int z')\n</macro>\n<input name='in0' macro='f'/>\n<group name='i'>\nint {{ n }}\n v {{ v }}\n</group>", IFS),
    "outputs": ("<group name='i*'>\nint {{ n }}\n v {{ v }}\n</group>\n<group name='j' output='o'>\nint {{ n }}\n d {{ d }}\n</group>\n<output name='o' format='json'/>", IFS),
    "two-groups": ("<group name='i'>\nint {{ n }}\n v {{ v }}\n</group>\n<group name='j'>\nint {{ n }}\n d {{ d }}\n</group>", IFS),
    "merge": ("<group name='i.{{ n }}**'>\nint {{ n }}\n d {{ d }}\n</group>\n<group name='i.{{ n }}**'>\n v {{ n }}\n</group>", ["int a\n d 1", " v a", " v a\n v b", "int b\nint a"]),
    "null-path": ("<group name='i.{{ n }}'>\nint {{ n }}\n<group name='_'>\n v {{ v }}\n</group>\n<group name='_.c*'>\n d {{ d }}\n</group>\n</group>", IFS),
    "unrange-copy": ("<group name='i'>\nint {{ n | copy('m') | upper }}\n v {{ v | let('z', {}) | copy('w') }}\n</group>", IFS),
    "functions": ("<group name='i' functions=\"contains('v') | to_int('v') | sformat('{n}-{v}', 's') | delete('d')\">\nint {{ n }}\n d {{ d }}\n v {{ v }}\n</group>", IFS),
    "same-path": ("<group name='i.c*'>\nint {{ n }}\n</group>\n<group name='i.c*'>\n d {{ d }}\n</group>\n<group name='i'>\n v {{ v }}\n</group>", IFS),
    "items2dict": ("<group name='i' items2dict=\"'k', 'm'\">\nint {{ n }}\n<group name='k*'>\n v {{ m }}\n</group>\n</group>", IFS),
}



def parser(tpl):
    return obs.ttp(template=tpl)


@functools.lru_cache(maxsize=None)
def alone(name, text, pos):
    """results of a fresh parser for this text only, as input number pos"""
    tpl = POOL[name][0]
    p = parser(tpl)
    p.add_input(text, input_name="in%d" % pos)
    p.parse(one=True)
    return copy.deepcopy(p.result()[0])


def history_fn(case):
    name, seq, how = case
    tpl, texts = POOL[name]
    want, got = [], []
    try:
        if how == "inputs":
            p = parser(tpl)
            for i, t in enumerate(seq):
                p.add_input(texts[t], input_name="in%d" % i)
                want += alone(name, texts[t], i)
            p.parse(one=True)
            got = copy.deepcopy(p.result()[0])
        elif how == "one-input":
            # one input element, several texts: identical texts are one item
            p = parser(tpl)
            for t in dict.fromkeys(seq):
                p.add_input(texts[t], input_name="in1")
                want += alone(name, texts[t], 1)
            p.parse(one=True)
            got = copy.deepcopy(p.result()[0])
        elif how == "reparse":
            p = parser(tpl)
            for t in seq:
                p.set_input(texts[t], input_name="in1")
                p.parse(one=True)
                got += copy.deepcopy(p.result()[0])
                p.clear_result()
                want += alone(name, texts[t], 1)
        elif how == "keep":
            # results accumulate over parses
            p = parser(tpl)
            for t in seq:
                p.set_input(texts[t], input_name="in1")
                p.parse(one=True)
                want += alone(name, texts[t], 1)
            got = copy.deepcopy(p.result()[0])
    except Exception as e:
        import traceback
        raise Violation("case %r raised %s\n%s" % (case, traceback.format_exc(), tpl), template=tpl)
    obs.expect(got, want, tpl, [texts[t] for t in seq], "history %r:" % (case,))
    return Outcome(h((name, got)), any(x for x in want), states=[h((name, x)) for x in want], transitions=len(seq))


def histories():
    n = 4 if DEEP else 3
    for name, (tpl, texts) in POOL.items():
        for k in range(1, n + 1):
            for seq in itertools.product(range(len(texts)), repeat=k):
                yield (name, seq, "inputs")
                if k == 2 or (k == 3 and (DEEP or len(set(seq)) == 3)):
                    yield (name, seq, "one-input")
                    yield (name, seq, "reparse")
                    if "output" not in tpl:
                        yield (name, seq, "keep")


# ------------------------------------------------------------ explicit globals
ITEMS = {
    "-": "",
    "a": "rec a",
    "b": "rec b",
    "ab": "rec a\nrec b",
    "x": "rec x",  # rejected before it is recorded
    "ax": "rec a\nrec x",
}
READERS = {
    "uncond": "{{ r | set('G') }}",
    "cond": " rd {{ r | set('G') }}",
    "gset": None,
    "sformat": None,
}


def record_cases():
    n = 4 if DEEP else 3
    for how in ("match", "group"):
        for reader in READERS:
            for own in (None, "vars", "getter", "parser"):
                for where in ("one", "two"):
                    for k in range(1, n + 1):
                        for seq in itertools.product(ITEMS, repeat=k):
                            yield (how, reader, own, where, seq)


def record_fn(case):
    how, reader, own, where, seq = case
    head = {"vars": "<vars>\nG = 'T'\n</vars>\n", "getter": "<vars>\nG = 'gethostname'\n</vars>\n"}.get(own, "")
    if how == "match":
        writer = "<group name='w*'>\nrec {{ w | exclude('x') | record('G') }}\n</group>\n"
    else:
        writer = "<group name='w*' functions=\"exclude_val('w', 'x') | record('w', 'G')\">\nrec {{ w }}\n</group>\n"
    if reader == "gset":
        rd = "<group name='r' set=\"'G', 'r'\">\nread {{ k }}\n</group>\n"
    elif reader == "sformat":
        rd = "<group name='r' sformat=\"'{G}', 'r'\">\nread {{ k }}\n</group>\n"
    else:
        rd = "<group name='r'>\nread {{ k }}\n%s\n</group>\n" % READERS[reader]
    if where == "two":
        tpl = "<template name='W'>\n%s%s</template>\n<template name='R'>\n%s%s</template>" % (head, writer, head, rd)
    else:
        tpl = head + writer + rd
    if how == "group" and reader in ("uncond", "cond") and where == "one":
        return None  # group functions run after the matching, set during it
    kw = {"vars": {"G": "T"}} if own == "parser" else {}
    p = obs.ttp(template=tpl, **kw)
    texts = []
    for i, s in enumerate(seq):
        t = ITEMS[s] + "\nread 1\n rd\n"
        if own == "getter" and i % 2 == 0:
            t = "T#sh\n" + t
        texts.append(t)
        p.add_input(t, input_name="in%d" % i, template_name="_all_")
    try:
        p.parse(one=True)
        got = p.result()
    except Exception as e:
        got = obs.Raised(e)
    # model: item value, else value recorded last by an earlier item, else the name itself
    glob = None
    reads, writes = [], []
    for i, s in enumerate(seq):
        base = {"vars": "T", "parser": "T", "getter": "T" if i % 2 == 0 else "gethostname"}.get(own)
        rec = [c for c in s if c in "ab"]
        if rec:
            base = glob = rec[-1]
        writes.append([{"w": c} for c in rec])
        reads.append((base, glob))
    if where == "two":
        # the reading template runs after the writing one is done with all items
        reads = [({"vars": "T", "parser": "T", "getter": "T" if i % 2 == 0 else "gethostname"}.get(own), glob) for i in range(len(seq))]
    vals = [own_v or g or "G" for own_v, g in reads]
    if own == "getter":
        # a getter without result leaves the variable to the globals or undefined: not claimed
        vals = [None if (reads[i][0] == "gethostname") else v for i, v in enumerate(vals)]
    out = []
    for i, v in enumerate(vals):
        r = {"k": "1"}
        if reader == "sformat" and v == "G":
            pass  # nothing to format with: no field
        else:
            r["r"] = v
        out.append((writes[i], r))
    if isinstance(got, obs.Raised):
        obs.expect(got, out, tpl, texts, "case %r:" % (case,))
    for i, (w, r) in enumerate(out):
        if where == "two":
            gw, gr = got[0][i], got[1][i]
        else:
            gw = gr = got[0][i]
        obs.expect(gw.get("w", []), w, tpl, texts, "records of item %d, case %r:" % (i, case))
        if r.get("r", 0) is None:
            continue
        obs.expect(gr.get("r"), r, tpl, texts, "value read in item %d, case %r:" % (i, case))
    return Outcome(h((reader, own, vals)), len(set(map(repr, vals))) > 1, states=[h(x) for x in reads], transitions=len(seq))


# ------------------------------------------------------------ recorded values in nested groups
READ = ("-", "set", "default", "both")


def nested_cases():
    for depth in (1, 2, 3, 4) if DEEP else (1, 2, 3):
        for reads in itertools.product(READ, repeat=depth):
            if all(r in ("-", "default") for r in reads):
                continue
            for rec in ("before", "start", "after"):
                for how in ("uncond", "gset"):
                    if how == "gset" and "both" in reads:
                        continue
                    yield depth, reads, rec, how


def nested_fn(case):
    """the recorded value is seen in groups of all depths, whatever their parents set"""
    depth, reads, rec, how = case
    tpl = ""
    for i in range(depth):
        ind = " " * i
        attr = ' set="\'G\', \'seen\'"' if how == "gset" and reads[i] == "set" else ""
        tpl += "<group name='g%d'%s>\n%sl%d {{ v%s }}\n" % (i, attr, ind, i, " | record('G')" if rec == "start" and i == 0 else "")
        if reads[i] in ("set", "both") and not attr:
            tpl += "{{ seen | set('G') }}\n"
        if reads[i] in ("default", "both"):
            tpl += "%sopt {{ o | default('no') }}\n" % ind
    tpl += "</group>\n" * depth
    recorder = "<group name='w*'>\nrec {{ w | record('G') }}\n</group>\n"
    if rec == "before":
        tpl = recorder + tpl
    elif rec == "after":
        tpl += recorder
    p = obs.ttp(template=tpl)
    texts, want, last = [], [], None
    for n, w in enumerate(("a", None, "b", "c")):
        body = "".join("%sl%d x%d\n" % (" " * i, i, n) for i in range(depth))
        line = "rec %s\n" % w if w else ""
        exp = {}
        if rec == "start":
            last = "x%d" % n
        else:
            texts.append(line + body)
            if w:
                exp["w"] = [{"w": w}]
                last = w
        if rec == "start":
            texts.append(body)
        d = exp
        for i in range(depth):
            d["g%d" % i] = d = {"v": "x%d" % n}
            if reads[i] in ("set", "both"):
                d["seen"] = last
            if reads[i] in ("default", "both"):
                d["o"] = "no"
        want.append(exp)
    for i, t in enumerate(texts):
        p.add_input(t, input_name="in%d" % i)
    got = obs.attempt(lambda: (p.parse(one=True), p.result())[1])
    obs.expect(got, [want], tpl, texts, "recorded variables in nested groups, %r:" % (case,))
    return Outcome(h(case), True, states=[h((case, x)) for x in texts], transitions=len(texts))


def count_cases():
    n = 4 if DEEP else 3
    for base in (None, 0, 5):
        for two in (False, True):
            for k in range(1, n + 1):
                for seq in itertools.product(("-", "u", "uu", "d", "ud", "uux"), repeat=k):
                    yield (base, two, seq)


def count_fn(case):
    """per item and global counters"""
    base, two, seq = case
    head = "" if base is None else "<vars>\nC = %d\n</vars>\n" % base
    t = head + ("<group name='s*'>\nst {{ s | equal('u') | count(var='C', globvar='CG') }}\n</group>\n"
                "<group name='r' functions=\"set('C', 'c') | set('CG', 'g')\">\nread {{ k }}\n</group>\n")
    tpl = "<template name='A'>\n%s</template>\n<template name='B'>\n%s</template>" % (t, t) if two else t
    p = obs.ttp(template=tpl)
    texts = ["\n".join("st " + c for c in s if c != "-") + "\nread %d" % i for i, s in enumerate(seq)]
    for i, x in enumerate(texts):
        p.add_input(x, input_name="in%d" % i, template_name="_all_")
    try:
        p.parse(one=True)
        got = p.result()
    except Exception as e:
        got = obs.Raised(e)
    total, want = None, []
    for _ in range(2 if two else 1):
        w = []
        for i, s in enumerate(seq):
            n = s.count("u")
            if n:
                total = (total or 0) + n
            c = (base or 0) + n if (n or base is not None) else "C"
            rec = {"k": str(i), "c": c, "g": total if total is not None else "CG"}
            w.append(dict({"s": [{"s": "u"}] * n} if n else {}, r=rec))
        want.append(w)
    obs.expect(got, want, tpl, texts, "case %r:" % (case,))
    return Outcome(h((base, want)), total, transitions=len(seq))


# ------------------------------------------------------------ files and names
def file_cases():
    names = ("sw1.txt", "sw2.txt", "a b.log")
    for k in range(1, 4):
        for seq in itertools.permutations(names, k):
            for extra in (False, True):
                yield (seq, extra)


def file_fn(case):
    """getfilename and gethostname are evaluated for every item"""
    seq, extra = case
    d = tempfile.mkdtemp(prefix="c12")
    try:
        tpl = "<vars name='v'>\nf = 'getfilename'\nh = 'gethostname'\n</vars>\n<group name='i*'>\nint {{ n }}\n{{ f | set('f') }}\n</group>"
        p = obs.ttp(template=tpl)
        want, texts = [], []
        for i, n in enumerate(seq):
            f = os.path.join(d, n)
            with open(f, "w") as fo:
                fo.write("%s#sh\nint %d" % (n.split(".")[0].replace(" ", ""), i))
            p.add_input(f)
            texts.append(f)
            want.append({"v": {"f": f, "h": n.split(".")[0].replace(" ", "")}, "i": [{"n": str(i), "f": f}]})
            if extra:
                t = "t%d#sh\nint x" % i
                p.add_input(t)
                texts.append(t)
                want.append({"v": {"f": "text_data", "h": "t%d" % i}, "i": [{"n": "x", "f": "text_data"}]})
        p.parse(one=True)
        obs.expect(p.result(), [want], tpl, texts, "case %r:" % (case,))
    finally:
        shutil.rmtree(d)
    return Outcome(h((seq, extra)), True, transitions=len(want))


def check(ck):
    ck.explore("histories", histories, history_fn,
               rule="every sequence of up to 3 (4) items of the template's text pool, as several inputs, texts of one input and successive parses: each item's results are those of a fresh parser")
    ck.explore("recorded variables", record_cases, record_fn,
               rule="own value, else the value recorded by the latest earlier item, else the name")
    ck.explore("recorded variables, nested", nested_cases, nested_fn, rule="chains of groups of up to 3 (4) levels, every choice of levels that read the variable or have defaults")
    ck.explore("counters", count_cases, count_fn, rule="item counters start from the template's value for every item, global counters go on")
    ck.explore("getters", file_cases, file_fn, rule="getters are evaluated for each item")
