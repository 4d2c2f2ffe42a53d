"""C28: template variables. All histories of declaring, overriding and parsing with
every place that refers to a variable; all small sets of named vars tags; all prompts
of the documented formats; all schedules of an interposed system clock."""
import calendar
import ctypes
import itertools
import json
import os
import re
import subprocess
import sys
import time

from checks.c03 import place
from mc import env, obs
from mc.model import drop_empty
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation histories, vars tags, prompts and clock schedules on the real code, against a reference model; the system clock is replaced below the interpreter"
ASSUMPTIONS = [
    "values of variables named in patterns, in arguments of match functions and in default attributes are those known when the template is loaded",
    "prompts of different formats or host names in one text are not claimed",
    "what is left at the path of a vars tag none of whose variables have a value is not claimed",
    "a Fortigate host name includes the context in brackets, as the code defines",
]
DEEP = "thorough" in sys.argv

# ------------------------------------------------------------- histories
PROMPT = "sw1#sh\nx q1\nx sw1\nx v\nx text_data\ny"
PLAIN = "y\nx v\nx q2\nx q1"
GETTERS = {
    "gethostname": lambda text: "sw1" if "sw1#" in text else None,
    "getfilename": lambda text: "text_data",
}
REFS = """<group name="a*">
x {{ a }}
{{ m | set("v") }}
</group>
<group name="b.{{ v }}*">
x {{ a }}
</group>
<group name="c*" contains_val="a, v">
x {{ a }}
</group>
<group name="d*" functions="set(source='v', target='t')">
x {{ a }}
</group>
<group name="e*">
x {{ a | replaceall("R", "v") }}
</group>
<group name="f*" functions="sformat(string='s-{v}', add_field='s')">
x {{ a }}
</group>
<group name="k*">
x {{ a | _start_ }}
y {{ l | set("v") }}
</group>
<group name="n*" functions="equal('a', 'v')">
x {{ a }}
</group>"""


def hist_model(text, v, named):
    """records of one item while variable v is v (None - there is no such variable)"""
    xs = re.findall("^x (.*)$", text, re.M)
    val = "v" if v is None else v
    root = {}
    if named and v is not None:
        root["vs"] = {"v": v}
    elif named:
        root["vs"] = {}
    root["a"] = [{"a": x, "m": val} for x in xs]
    if v is not None:
        root["b"] = {v: [{"a": x} for x in xs]}
    root["c"] = [{"a": x} for x in xs if val in x]
    root["d"] = [{"a": x, "t": val} for x in xs]
    root["e"] = [{"a": x.replace(val, "R")} for x in xs]
    root["f"] = [dict({"a": x}, **({"s": "s-" + v} if v is not None else {})) for x in xs]
    root["k"] = [{"a": x} for x in xs]
    if text.endswith("y"):
        root["k"][-1]["l"] = val
    root["n"] = [{"a": x} for x in xs if x == val]
    return {k: r for k, r in root.items() if r or k == "vs"}


# operations: T - load the template, P - parse, the rest - add_vars with that value
VALUES = ["q1", "gethostname", "getfilename"]


def hist_cases():
    ops = ["T", "P"] + VALUES
    n = 5 if DEEP else 4
    tags = [None] + VALUES[:2]
    for init in tags:
        for t1 in tags:
            for t2 in tags:
                yield init, t1, t2, [s for k in range(2, n + 1) for s in itertools.product(ops, repeat=k)
                                     if s.count("T") == 1 and s[-1] == "P" and s.index("T") < s.index("P")
                                     and s.count("P") <= 2]


def hist_fn(case):
    init, t1, t2, seqs = case
    tpl = ""
    if t1:
        tpl += '<vars name="vs">\nv = "%s"\n</vars>\n' % t1
    if t2:
        tpl += '<vars load="json">\n{"v": "%s"}\n</vars>\n' % t2
    tpl += REFS
    seen = set()
    trans = 0
    for seq in seqs:
        for items in ((PROMPT, PLAIN), (PLAIN, PROMPT)):
            given = {"v": init} if init else None
            p = obs.ttp(vars=given) if given else obs.ttp()
            cur = init
            loaded = False
            for op in seq:
                trans += 1
                if op == "T":
                    p.add_template(tpl)
                    loaded = True
                    for i in items:
                        p.add_input(i)
                    cur = t2 or t1 or cur
                elif op == "P":
                    p.clear_result()
                    got = obs.attempt(lambda: p.parse(one=True) or p.result())
                    want = [[hist_model(i, GETTERS.get(cur, lambda text: cur)(i), bool(t1)) for i in items]]
                    obs.expect(got, want, tpl, items, "ttp(vars=%r), then %r:" % (given, seq))
                    seen.add(h(want))
                else:
                    p.add_vars({"v": op})
                    cur = op
            if given is not None and given != {"v": init}:
                raise Violation("ttp() changed the dictionary it was given: %r" % given)
    return Outcome(h(sorted(seen)), True, count=2 * len(seqs), states=seen, transitions=trans)


# ------------------------------------------------------------- references made at load
def load_cases():
    vals = [None, "q1", "q2", "v"]
    for src in itertools.product(vals, repeat=3):
        yield src


def load_fn(src):
    init, t1, t2 = src
    v = t2 or t1 or init
    tpl = "".join('<vars name="vs">\nv = "%s"\n</vars>\n' % t for t in (t1, t2) if t)
    refs = [
        ("contains", "x {{ a | contains('v') }}", lambda x, v: {"a": x} if v in x else None),
        ("exclude", "x {{ a | exclude('v') }}", lambda x, v: {"a": x} if v not in x else None),
        ("equal", "x {{ a | equal('v') }}", lambda x, v: {"a": x} if v == x else None),
        ("notequal", "x {{ a | notequal('v') }}", lambda x, v: {"a": x} if v != x else None),
        ("contains_re", "x {{ a | contains_re('v') }}", lambda x, v: {"a": x} if v in x else None),
        ("startswith_re", "x {{ a | startswith_re('v') }}", lambda x, v: {"a": x} if x.startswith(v) else None),
        ("endswith_re", "x {{ a | endswith_re('v') }}", lambda x, v: {"a": x} if x.endswith(v) else None),
        ("notstartswith_re", "x {{ a | notstartswith_re('v') }}", lambda x, v: {"a": x} if not x.startswith(v) else None),
        ("notendswith_re", "x {{ a | notendswith_re('v') }}", lambda x, v: {"a": x} if not x.endswith(v) else None),
        ("exclude_re", "x {{ a | exclude_re('v') }}", lambda x, v: {"a": x} if v not in x else None),
        ("re", "x {{ a | re('v') }}", lambda x, v: {"a": x} if x == v else None),
        ("re2", "x {{ a | re('v') | re('zz') }}", lambda x, v: {"a": x} if x in (v, "zz") else None),
        ("ignore", "x {{ ignore('v') }} {{ b | _start_ }}", None),
        ("default", "x {{ a }}\n y {{ d | default('v') }}", lambda x, v: {"a": x, "d": v}),
    ]
    xs = ["q1", "q2", "v", "zz", "q1q2", "q2v", "vq1"]
    text = "\n".join("x " + x for x in xs) + "\n" + "\n".join("x %s w" % x for x in xs)
    n = 0
    outs = []
    for name, line, f in refs:
        full = tpl + '<group name="g*">\n%s\n</group>' % line
        val = v or "v"
        if f:
            recs = [r for r in (f(x, val) for x in xs) if r]
        else:
            recs = [{"b": "w"} for x in xs if x == val]
        want = {"g": recs} if recs else {}
        if recs and (t1 or t2):
            want["vs"] = {"v": v}
        got = obs.run1(full, text, vars={"v": init} if init else None)
        if name == "ignore" and not recs and got == {}:
            want = {}
        # an item all matches of which were filtered may or may not carry the variables
        if not recs and isinstance(got, dict):
            got = {k: x for k, x in got.items() if k != "vs"}
        obs.expect(got, want, full, text, "%s, ttp(vars=%r):" % (name, init))
        n += 1
        outs.append(repr(want))
    return Outcome(h(outs), True, count=n, states=[h((src, i)) for i in range(n)], transitions=n)


# ------------------------------------------------------------- named vars tags
PATHS = ["", "p", "p*", "p**", "p.q", "p*.q", "p.q*", "p**.{{ k }}", "p.{{ h }}", "{{ k }}-{{ f }}.q", "p.{{ none }}"]
KEYS = {"k": "K", "n": [5, {"z": None}], "h": "gethostname", "f": "getfilename"}
NAMED_TEXTS = {"match": "x 1", "prompt": "sw1#sh\nx 1\nx 2", "nothing": "sw1#sh"}


def named_cases():
    keysets = [c for k in (1, 2) for c in itertools.combinations(sorted(KEYS), k)] + [tuple(sorted(KEYS))]
    one = list(itertools.product(PATHS, keysets))
    for a in one:
        yield [a]
    for a, b in itertools.combinations_with_replacement(one, 2):
        if DEEP or len(a[1]) + len(b[1]) <= 3:
            yield [a, b]


def named_model(tags, text, root):
    """vars tags saved in the results of one item"""
    have = {}
    for k, v in KEYS.items():
        if any(k in ks for _, ks in tags):
            have[k] = GETTERS[v](text) if isinstance(v, str) and v in GETTERS else v
    have = {k: v for k, v in have.items() if v is not None}
    paths = {}
    for path, ks in tags:
        if path:
            paths.setdefault(path, []).extend(k for k in ks if k not in paths[path]) if path in paths else paths.setdefault(path, list(ks))
    for path in sorted(paths):
        rec = {k: have[k] for k in paths[path] if k in have}
        items = []
        known = True
        for item in path.split("."):
            for m in re.findall(r"{{ (\w+) }}", item):
                if m not in have:
                    known = False
                    break
                rec.pop(m, None)
                item = item.replace("{{ %s }}" % m, str(have[m]))
            items.append(item)
        if known:
            place(root, items, json.loads(json.dumps(rec)))
    xs = re.findall("^x (.*)$", text, re.M)
    for x in xs:
        place(root, ["g*"], {"x": x})
    return root


def named_fn(tags):
    tpl = ""
    for path, ks in tags:
        body = json.dumps({k: KEYS[k] for k in ks})
        tpl += "<vars%s load='json'>\n%s\n</vars>\n" % (' name="%s"' % path if path else "", body)
    tpl += '<group name="g*">\nx {{ x }}\n</group>'
    outs = []
    n = 0
    ends = [tuple(i.rstrip("*") for i in p.split(".")) for p, _ in tags if p]
    for order in itertools.permutations(sorted(NAMED_TEXTS)):
        want = [named_model(tags, NAMED_TEXTS[o], {}) if o != "nothing" else {} for o in order]
        texts = [NAMED_TEXTS[o] for o in order]
        got = obs.attempt(obs.run, tpl, texts)
        if "{}" in repr([w for w in want if w]):
            obs.expect(drop_empty(got), drop_empty([want]), tpl, texts, "vars tags %r, empty structures left out:" % (tags,))
        else:
            obs.expect(got, [want], tpl, texts, "vars tags %r:" % (tags,))
        n += 1
        outs.append(repr(want))
        if len(tags) == 1 and not tags[0][0].endswith("**"):
            # all items in one structure
            root = {}
            for o in order:
                if o != "nothing":
                    named_model(tags, NAMED_TEXTS[o], root)
            full = "<template results='per_template'>\n%s\n</template>" % tpl
            got = obs.attempt(obs.run, full, texts)
            if "{}" in repr([w for w in want if w]):
                obs.expect(drop_empty(got), drop_empty([root]), full, texts, "vars tags %r, empty structures left out:" % (tags,))
            else:
                obs.expect(got, [root], full, texts, "vars tags %r:" % (tags,))
            n += 1
    return Outcome(h(outs), True, count=n, states=[h(o) for o in outs], transitions=n * 3)


# ------------------------------------------------------------- prompts
FORMATS = {
    "juniper": ["some.user@%s>", "u@%s>", "@%s>"],
    "huawei": ["<%s>"],
    "ios exec": ["%s>"],
    "ios xr": ["RP/0/4/CPU0:%s#", "RP/0/RSP0/CPU0:%s#"],
    "ios privileged": ["%s#"],
    "fortigate": ["%s (Default) #", "%s (x-1) #"],
    "sros": ["A:%s>", "*A:%s#", "A:%s#", "B:%s>config#", "*B:%s>config>router#"],
}
COMMANDS = ["", "sh", "show run", " show x | i #", "sh a>b #c", " "]
NEUTRAL = ["", "interface Gi1/1", " ip 1.1.1.1 > 2#", "! # x > y", "up 10:05:07 # 1", "x@y <a"]
BOMS = ["", "\ufeff"]


def names():
    first = "aZ1"
    out = list(first)
    for k in (1, 2) if not DEEP else (1, 2, 3):
        for t in itertools.product("bR7-_.", repeat=k):
            out += [f + "".join(t) for f in first]
    return out + ["router-fw-host", "ALA-12", "switch1", "core.sw-1_a", "r1/lab", "r1(core)", "x[1]", "r+1", "a,b", "r~1", "\u00e91", "a%b", "$x", "r*"]


def prompt_cases():
    for fmt, forms in FORMATS.items():
        for form in forms:
            for cmd in COMMANDS:
                yield fmt, form, cmd


TPL_HOST = "<vars name='vs'>\nhn = 'gethostname'\n</vars>\n<group name='g*'>\nx {{ x }}\n{{ h | set('hn') }}\n</group>"


def prompt_fn(case):
    fmt, form, cmd = case
    texts, want = [], []

    def add(lines, host, bom=""):
        texts.append(bom + "\n".join(lines))
        want.append({"vs": {"hn": host}, "g": [{"x": "1", "h": host}]} if host else
                    {"vs": {}, "g": [{"x": "1", "h": "hn"}]})

    for name in names():
        host = form[form.index("%s"):-2] % name if fmt == "fortigate" else name
        for bom in BOMS:
            add([form % name + cmd, "x 1"], host, bom)
        for other in COMMANDS if len(name) < 3 or "w" in name else ("",):
            add(["x 1", form % name + cmd, form % name + other], host)
    for name in ("sw1", "core.sw-1_a"):
        host = form[form.index("%s"):-2] % name if fmt == "fortigate" else name
        k = 3 if DEEP else 2
        for neutral in itertools.product(NEUTRAL, repeat=k):
            for at in range(k + 1):
                lines = list(neutral)
                lines[at:at] = [form % name + cmd]
                for x in (0, len(lines)):
                    body = lines[:x] + ["x 1"] + lines[x:]
                    add(body, host)
                    if form == "%s#" and cmd == "":
                        del body[body.index(form % name)]
                        add(body, None)
    # identical texts of one input are parsed once
    uniq = {}
    for t, w in zip(texts, want):
        uniq[t] = w
    got = obs.attempt(obs.run, TPL_HOST, list(uniq))
    if isinstance(got, obs.Raised) or len(got[0]) != len(uniq):
        raise Violation("%r: %.300r" % (case, got), template=TPL_HOST)
    for g, (t, w) in zip(got[0], uniq.items()):
        obs.expect(g, w, TPL_HOST, t, "prompt %r:" % (case,))
    return Outcome(h(case), True, count=len(uniq), states=[h(t) for t in uniq], transitions=len(uniq))


# ------------------------------------------------------------- clock
CLOCKED = {
    "get_time": ("%H:%M:%S", 1),
    "get_date": ("%Y-%m-%d", 1),
    "get_timestamp": ("%Y-%m-%d %H:%M:%S", 1),
    "get_timestamp_ms": ("ms", 0.001),
    "get_timestamp_iso": ("iso", 0.000001),
    "get_time_ns": ("ns", 0),
}
ZONES = ["UTC0", "XST-5:30", "PST8", "CET-1CEST,M3.5.0,M10.5.0/3"]
G = 10 ** 9
STARTS = [
    calendar.timegm((2023, 12, 31, 23, 59, 59)) * G,  # the year changes in UTC
    calendar.timegm((2024, 2, 29, 18, 29, 59)) * G,  # the day changes at +5:30
    calendar.timegm((2024, 10, 27, 0, 59, 59)) * G,  # CEST becomes CET
    calendar.timegm((2024, 3, 5, 7, 59, 59)) * G,  # the day changes at -8
]
OFFSETS = [0, 999999999, 999000000, 500000000, 50000000, 1000000, 999999]
STEPS = [0, 1, 1000000, 500000000, G]


def clock_cases():
    for zone in ZONES:
        for getter in CLOCKED:
            yield zone, getter


def clock_lib():
    lib = os.path.join(env.SCRATCH, "fakeclock.so")
    if not os.path.exists(lib):
        tmp = "%s.%d" % (lib, os.getpid())
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, os.path.join(env.VERIF, "mc", "fakeclock.c"), "-ldl"], check=True)
        os.rename(tmp, lib)
    return lib


def clock_fn(case):
    zone, getter = case
    depth = 3 if DEEP else 2
    schedules = [(s + o, st) for s in STARTS for o in OFFSETS
                 for st in itertools.product(STEPS, repeat=depth)]
    tpl = "<vars name='vs'>\nt = '%s'\n</vars>\n<group name='g*'>\nx {{ x }}\n{{ s | set('t') }}\n</group>" % getter
    data = ["x 1", "x 2"]
    lib = clock_lib()
    e = dict(os.environ, TZ=zone, LD_PRELOAD=lib, PYTHONPATH=env.VERIF, VERIF_REPO=env.REPO)
    r = subprocess.run([sys.executable, "-m", "mc.clockrun", lib], cwd=env.VERIF, env=e, capture_output=True, text=True,
                       input=json.dumps({"schedules": schedules, "template": tpl, "data": data}))
    if r.returncode:
        raise Violation("%s in zone %s: %s" % (getter, zone, r.stderr[-600:]), template=tpl)
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    kinds = set()
    n = 0
    fmt, res = CLOCKED[getter]
    try:
        for (results, start, end, reads), (_, steps) in zip(json.loads(r.stdout), schedules):
            low = start
            for x, item in zip("12", results):
                v = item.get("vs", {}).get("t")
                obs.expect(item, {"vs": {"t": v}, "g": [{"x": x, "s": v}]}, tpl, data, "%s %s:" % (zone, getter))
                at = instant(fmt, v, start, end)
                if at is None:
                    raise Violation("%s in zone %s from %r (steps %r, to %r): %r is not the time at any instant of parsing"
                                    % (getter, zone, start, steps, end, v), template=tpl)
                kinds.add(at)
                n += 1
    finally:
        os.environ.pop("TZ") if old is None else os.environ.update(TZ=old)
        time.tzset()
    return Outcome(h((case, len(kinds))), len(kinds) > 1, count=n, states=[h((case, k)) for k in kinds], transitions=n)


def instant(fmt, v, start, end):
    """which instant between start and end has this value"""
    if fmt == "ns":
        return v if isinstance(v, int) and start <= v <= end else None
    if not isinstance(v, str):
        return None
    secs = range(start // G, end // G + 1)
    if fmt == "iso":
        m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?\+00:00", v)
        if not m:
            return None
        at = calendar.timegm(tuple(map(int, m.groups()[:6]))) * G + int(m.group(7) or 0) * 1000
        return at if start - 1000 <= at <= end + 1000 else None
    if fmt == "ms":
        m = re.fullmatch(r"(.{19})\.(\d{3})", v)
        if not m:
            return None
        for s in secs:
            at = s * G + int(m.group(2)) * 1000000
            if time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(s)) == m.group(1) and start - 1000000 <= at <= end + 1000000:
                return at
        return None
    for s in secs:
        if time.strftime(fmt, time.localtime(s)) == v:
            return s
    return None


def check(ck):
    ck.explore("histories", hist_cases, hist_fn, rule="all histories of up to %d operations (load, add_vars with three kinds of values, parse) x ttp(vars=) x two vars tags, eight places of reference, two orders of items" % (5 if DEEP else 4))
    ck.explore("references resolved at load", load_cases, load_fn, rule="all combinations of three sources, fourteen places of reference")
    ck.explore("named vars tags", named_cases, named_fn, rule="all sets of up to two vars tags over 11 paths and subsets of 4 variables, all orders of three texts, per_input and per_template")
    ck.explore("prompts", prompt_cases, prompt_fn, rule="all documented prompts x commands x host names up to the stated length x positions among neutral lines x byte order mark")
    ck.explore("clock", clock_cases, clock_fn, rule="all schedules of clock steps between readings from four boundaries in four time zones")
