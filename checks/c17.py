"""C17: parse(multi=True) gives the results of parse(one=True) under every schedule."""
import copy
import os
import subprocess
import sys

from mc import procs  # before the code under test is imported
from mc import env, obs
from mc.core import Outcome, Violation, h, same, first_difference

LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the implementation: real forked worker processes under a controlled scheduler, "
             "depth-first over all interleavings of queue operations with sleep-set reduction, compared with the single-process run")
NOTE = ("Every schedule (assignment of items to workers, order of completion, one early timeout) up to the stated numbers of items and workers; "
        "fork start method only; templates whose items use each other's results (record, group= lookups, per_template) are documented as unsupported and left out.")
DEEP = "thorough" in sys.argv

ITEMS = [
    "interface Lo1\n ip 1.1.1.1\n desc one two\n",
    "interface Lo2\n ip 2.2.2.2\ninterface 77\n mtu 9000\n",
    "no match here\n",
    "interface Lo1\n desc eta\n desc theta\nvlan 5\n",
]
BASE = """
<group name="ifs*">
interface {{ name }}
 ip {{ ip }}
 desc {{ desc | ORPHRASE | joinmatches("; ") }}
 mtu {{ mtu | to_int | default(1500) }}
</group>
"""


def up(data, *args):
    return data.upper(), None


def tagged(data, tag="t"):
    return data, {"new_field": {tag: len(data)}}


def grp(data, *a, **kw):
    data = dict(data, n=len(data))
    return data, None


def drop_short(data, *a):
    return data, len(data) > 2


def pre(data, *a, **kw):
    return data.replace("Lo", "Loop"), None


def pre_struct(data):
    return "\n".join(data) if isinstance(data, list) else data


def length(data, name):
    return len(data)


def outf(data, *a, **kw):
    return [data, "out"]


def mac(data):
    return data + "!"


def f_plain(p):
    p.add_template(BASE)


def f_anonymous(p):
    p.add_template("interface {{ name }}\n desc {{ desc | re('.+') | default('none') }}\n")


def f_nested(p):
    p.add_template('<group name="a.{{ name }}">\ninterface {{ name }}\n mtu {{ mtu }}\n<group name="d*">\n desc {{ desc | ORPHRASE | _start_ }}\n</group>\n<group name="v" void="">\nvlan {{ vlan }}\n</group>\n</group>\n')


def f_macro(p):
    p.add_template('''<macro>
def helper(x):
    return "(" + x + ")"
def m(data):
    return helper(data), {"extra": helper(data[-1])}
def g(data):
    if data["name"].endswith("7)"):
        return False
    data["seen"] = True
    return data
def i(data):
    return data.replace("one", "uno")
def o(data):
    return {"res": data}
</macro>
<input macro="i"/>
<group name="x*" macro="g">
interface {{ name | macro("m") }}
 desc {{ desc | ORPHRASE }}
</group>
<output macro="o"/>
''')


def f_macro_twice(p):
    p.add_template('<macro>\ndef m(d):\n    return "first"\ndef only(d):\n    return d * 2\n</macro>\n<group name="x*">\ninterface {{ name | macro("only") | macro("m") }}\n</group>\n<macro>\ndef m(d):\n    return "second " + d\n</macro>\n')


def f_functions(p):
    p.add_function(up, scope="match", name="up")
    p.add_function(tagged, scope="match")
    p.add_function(grp, scope="group", name="count")
    p.add_function(pre, scope="input", name="pre")
    p.add_function(length, scope="variable", name="len_of")
    p.add_function(outf, scope="output", name="outf")
    p.add_function(mac, scope="macro", name="mac")
    p.add_template('''<vars>
total = "len_of"
host = "gethostname"
</vars>
<input pre=""/>
<group name="x*" functions="count | contains('name')">
interface {{ name | up | lower | up }}
 ip {{ ip | IP | tagged('ip_len') | macro("mac") }}
 mtu {{ mtu | to_int }}
{{ total | set("total") }}
</group>
<output functions="outf"/>
''')


def f_override(p):
    p.add_function(up, scope="match", name="lower")
    p.add_function(drop_short, scope="group", name="void")
    p.add_template('<group name="x*" void="">\ninterface {{ name | lower | replaceall("O", "0") }}\n desc {{ d | ORPHRASE | upper }}\n mtu {{ m | is_digit }}\n</group>\n')


def f_lookup(p):
    p.add_template('<lookup name="t" load="python">\n{"Lo1": "loop one", "g": {"Lo2": {"a": 1}}}\n</lookup>\n<group name="x*">\ninterface {{ name | lookup("t", add_field="l") }}\n ip {{ ip | rlookup("more", add_field="r") }}\n</group>\n')
    p.add_lookup("more", text_data='{"1.1": "ones"}', load="python")


def f_lookup_template(p):
    p.add_template('<input load="text">\nkey Lo1 val A\nkey Lo2 val B\n</input>\n<group name="kv.{{ k }}">\nkey {{ k }} val {{ v }}\n</group>\n', template_name="first")
    p.add_template('<group name="x*">\ninterface {{ name | lookup(template="first.kv", add_field="l") }}\n mtu {{ mtu }}\n</group>\n')


def f_vars(p):
    p.add_template('<vars name="vv">\nhost = "gethostname"\nk = "v"\n</vars>\n' + BASE.replace("interface {{ name }}", "interface {{ name | let('k2', 'k') }}\n{{ kk | set('k') }}"))
    p.add_vars({"k": "w"})


def f_templates(p):
    for n in ("A", "B"):
        p.add_template('<template name="%s">\n<macro>\ndef m(d):\n    return d + "%s"\n</macro>\n<group name="x*">\ninterface {{ name | macro("m") }}\n</group>\n</template>\n' % (n, n))


def f_child_templates(p):
    p.add_template('<template>\n<template name="one">\n<group name="x*">\ninterface {{ name }}\n</group>\n</template>\n<template name="two">\n<macro>\ndef q(d):\n    return [d]\n</macro>\nvlan {{ vlan | macro("q") }}\n</template>\n</template>')


def f_group_output(p):
    p.add_template('<output name="o" format="csv" returner="self"/>\n<group name="x*" output="o">\ninterface {{ name }}\n mtu {{ mtu | default("-") }}\n</group>\n<group name="v*">\nvlan {{ v }}\n</group>\n<output format="json"/>\n')


def f_inputs(p):
    p.add_template('<input name="a" load="text">\ninterface A1\nvlan 3\n</input>\n<input name="b" load="text" groups="v">\ninterface B1\nvlan 4\n</input>\n<group name="x*">\ninterface {{ name }}\n</group>\n<group name="v*">\nvlan {{ v }}\n</group>\n')


def f_struct(p):
    p.add_function(pre_struct, scope="macro", name="ps")
    p.add_template('<input macro="ps"/>\n' + BASE)


def f_headers(p):
    p.add_template('<group name="t*">\nPort  Name   Vl {{ _headers_ }}\n{{ _end_ }}</group>\n<group name="x*">\ninterface {{ name | _start_ | exclude("77") }}\n desc {{ _line_ | contains("t") }}\n</group>\n')


def f_per_template(p):
    # results of the inputs joined: not for multiple processes, parse() itself does not choose them
    p.add_template('<template results="per_template">\n' + BASE + '</template>')


def f_per_template_too(p):
    p.add_template('<template>\n<template name="one" results="per_template">\n<group name="x*">\ninterface {{ name }}\n</group>\n</template>\n<template name="two">\nvlan {{ vlan }}\n</template>\n</template>')


ONE_ONLY = ("per_template", "per_template_too")
FEATURES = dict((n[2:], f) for n, f in sorted(globals().items()) if n.startswith("f_"))


def build(feature, n, where="items"):
    p = obs.ttp(dynamic_path_key_to_int=feature == "nested")
    FEATURES[feature](p)
    rest = set(p.result(structure="dictionary")) if feature in ("templates", "child_templates", "per_template_too") else {"_root_template_"}
    for name in sorted(rest):
        for i in range(n):
            data = ITEMS[i]
            if where == "large":
                # more than 5 MB together
                data += "\n" + "x" * 3000000 + "\n" + data.replace("interface ", "interface 1")
            if feature == "struct" and i % 2:
                data = data.splitlines()
            if where == "files":
                fn = os.path.join(os.getcwd(), "f%d.txt" % i)
                if not os.path.exists(fn):
                    with open(fn, "w") as f:
                        f.write(ITEMS[i])
                data = fn
            p.add_input(data, template_name=name)
    return p


def outcome(p):
    return [copy.deepcopy(p.result()), copy.deepcopy(p.result(structure="dictionary"))]


def reference(feature, n, where, how):
    procs.CPUS = 2
    p = build(feature, n, where)
    p.parse(one=True)
    if how in ("twice", "one-multi"):
        p.parse(one=True)
    return outcome(p)


def drive(feature, n, where, how):
    p = build(feature, n, where)
    if how == "auto":
        if where != "large":
            p.multiproc_threshold = 1
        p.parse()
    else:
        p.parse(multi=True) if how != "one-multi" else p.parse(one=True)
    if how in ("twice", "one-multi"):
        p.parse(multi=True)
    return outcome(p)


def cases():
    return sorted(all_cases(), key=lambda c: -(c[1] + 2 * (c[0] in DOUBLE)) * c[2] - 4 * c[5] - 3 * (c[4] == "twice"))


DOUBLE = ("templates", "child_templates", "inputs", "lookup_template")


def all_cases():
    for f in ONE_ONLY:
        for n in range(4):
            for cpus in (1, 2):
                yield (f, n, cpus, "items", "auto", 0)
        yield (f, 2, 2, "files", "auto", 0)
        yield (f, 2, 2, "large", "auto", 0)
    for f in FEATURES:
        if f in ONE_ONLY:
            continue
        full = f in ("plain", "nested") or DEEP
        double = f in DOUBLE
        for n in range(0, 4 if full else 3):
            for cpus in (1, 2, 3):
                if double and n * cpus > (6 if DEEP else 4) or n * cpus > 6 and f != "plain" and not DEEP:
                    continue
                yield (f, n, cpus, "items", "multi", 0)
    for f in ("plain", "functions", "group_output", "vars"):
        yield (f, 2, 2, "files", "multi", 0)
        yield (f, 2, 2, "items", "auto", 0)
        yield (f, 1, 2, "items", "auto", 0)
    for f in ("plain", "macro_twice", "lookup", "nested"):
        yield (f, 1, 2, "items", "twice", 0)
        yield (f, 2, 2, "items", "one-multi", 0)
        yield (f, 2, 2, "items", "multi", 1)
        if DEEP:
            yield (f, 2, 2, "items", "twice", 0)
            yield (f, 3, 2, "items", "multi", 1)
    if DEEP:
        yield ("plain", 4, 2, "items", "multi", 0)
        yield ("plain", 2, 3, "items", "multi", 1)
        yield ("macro", 4, 2, "items", "multi", 0)


def fn(case):
    feature, n, cpus, where, how, early = case
    if feature in ("group_output",) and how in ("twice", "one-multi"):
        return None
    want = obs.attempt(reference, feature, n, where, how)
    if isinstance(want, obs.Raised):
        raise Violation("one=True raised %r for %r" % (want, case))
    procs.CPUS = cpus
    count, steps, seen, states = 0, 0, set(), set()
    for w, got in procs.explore(lambda w: obs.attempt(drive, feature, n, where, how), early_timeouts=early):
        count += 1
        steps += len(w.trace)
        states.add(h(w.trace))
        if isinstance(got, BaseException):
            raise Violation("parse(multi=True) does not come back: %s\ncase %r\nschedule %r" % (got, case, w.trace), schedule=repr(w.trace))
        if isinstance(got, obs.Raised):
            raise Violation("parse(multi=True) raised %r, one=True did not\ncase %r\nschedule %r" % (got, case, w.trace))
        if not same(want, got):
            raise Violation("multi=True differs from one=True: %s\ncase %r\nschedule %r" % (first_difference(want, got), case, w.trace), schedule=repr(w.trace))
    return Outcome((feature, n, h(want)), n > 0, states=states, transitions=steps, count=count)


# ---------------------------------------------------- the stand-ins are bound to the real thing
SCRIPT = """
import sys, os, json, pickle
sys.path.insert(0, %(verif)r)
os.environ["VERIF_REAL_PROCS"] = "1"
import multiprocessing
multiprocessing.cpu_count = lambda: %(cpus)d
from checks import c17
case = %(case)r
os.chdir(%(cwd)r)
got = c17.drive(*case)
sys.stdout.buffer.write(b"RESULT" + pickle.dumps(got))
sys.stdout.flush()
"""


def real_cases():
    for f in FEATURES:
        if f not in ONE_ONLY:
            yield (f, len(ITEMS), "items", "multi")
    for f in ONE_ONLY + ("plain",):
        for n in (1, 2, 3):
            yield (f, n, "large", "auto")
    for f in ("plain", "functions", "vars"):
        yield (f, 3, "files", "auto")
        yield (f, 2, "items", "one-multi")


def real_fn(case):
    import pickle

    feature, n, where, how = case
    want = reference(feature, n, where, how)
    src = SCRIPT % dict(verif=env.VERIF, cpus=3, case=case, cwd=os.getcwd())
    try:
        r = subprocess.run([sys.executable, "-c", src], capture_output=True, timeout=100)
    except subprocess.TimeoutExpired:
        raise Violation("real processes: no end within 100 s, case %r" % (case,))
    if b"RESULT" not in r.stdout:
        raise Violation("real processes: no result for %r: %s" % (case, r.stderr[-1500:].decode("utf-8", "replace")))
    got = pickle.loads(r.stdout.split(b"RESULT", 1)[1])
    if not same(want, got):
        raise Violation("real processes: multi=True differs from one=True: %s\ncase %r" % (first_difference(want, got), case))
    return Outcome((case, h(got)), True, transitions=1)


def check(ck):
    ck.assumptions += [
        "a queue operation takes effect in one step, in the order the scheduler picks; a process touches nothing shared between two of them",
        "a put whose value cannot be pickled is dropped, as by the feeder thread of a multiprocessing.Queue",
    ]
    ck.explore("schedules", cases, fn, rule="every schedule of n items on k workers for each template feature, results equal to the single-process run")
    ck.explore("real processes", real_cases, real_fn, rule="the same cases under the operating system's own schedule: the stand-ins and the real queues agree")
