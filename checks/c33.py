"""C33: extract_commands. All texts made of up to a few prompt-command-output blocks, over
prompt forms, host names, commands and outputs that look like each other, for all lists of
commands in the text, against a reference that never looks at the text but at the blocks."""
import itertools
import re
import sys
from xml.sax.saxutils import quoteattr

from mc import obs
from mc.core import Outcome, Violation, h

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of block sequences x prompt forms x command lists on the real parser against a reference built from the blocks"
ASSUMPTIONS = [
    "a command occurs once in a text, and at least one of the commands listed is in the text",
    "no line of an output has the form of the device's own prompt, nor of a prompt that gethostname prefers to it",
]
DEEP = "thorough" in sys.argv

# prompt forms documented for gethostname, H stands for host name
PROMPTS = {
    "ios": ["H#"],
    "ios exec": ["H>"],
    "ios mixed": ["H>", "H#"],
    "xr": ["RP/0/4/CPU0:H#"],
    "alu": ["A:H#", "*A:H>"],
    "juniper": ["some.user@H>"],
    "huawei": ["<H>"],
    "fortigate": ["H (Default) #"],
}
HOSTS = ["cpe1", "r1.lab", "sw-1(a)", "n+1", "x[1]$"]
COMMANDS = ["show int", "show interfaces", "show run | include ip (a|b)", "sh .*", "show int brief", "dir /all?"]
# outputs, H stands for host name; none of the lines is a prompt of the host
OUTPUTS = [
    [],
    ["if 1 up"],
    ["if 2 down", "", " descr to H#7", "if 3 up"],
    [" via H> and H#show int", "show interfaces", "H-2 up", "end H"],
    ["lab H#show int", "if 9 up"],
]
PREAMBLES = [[], ["", "login as someone", ""]]


def texts(form, host, blocks, preamble, blanks, nl, final):
    lines = list(preamble)
    for i, (cmd, out) in enumerate(blocks):
        prompts = PROMPTS[form]
        lines.append(prompts[i % len(prompts)].replace("H", host) + " " * blanks[0] + cmd + " " * blanks[1])
        lines += [l.replace("H", host) for l in OUTPUTS[out]]
    if final:
        lines.append(PROMPTS[form][0].replace("H", host))
    return nl.join(lines) + nl


def content(data, host):
    """lines that are not blank and not prompts of the device"""
    prompt = re.compile(r"(\S*[@:<])?" + re.escape(host) + r"( \(Default\) )?[#>]")
    return [l for l in re.split(r"\r?\n", data) if l.strip() and not prompt.match(l)]


def want_lines(blocks, listed, host):
    outs = dict(blocks)
    return [l.replace("H", host) for c in listed if c in outs for l in OUTPUTS[outs[c]] if l.strip()]


def one(form, host, blocks, preamble, blanks, nl, final, listed, notation, seen):
    text = texts(form, host, blocks, preamble, blanks, nl, final)
    if notation == "attribute":
        attr = "extract_commands=%s rec=''" % quoteattr(", ".join(listed))
    elif notation == "functions":
        attr = "functions=%s" % quoteattr("extract_commands(%s) | rec" % ", ".join(repr(c) for c in listed))
    else:
        attr = "rec='' extract_commands=%s" % quoteattr(",".join(listed))
    template = "<input name='Default_Input' %s/>\n<group name='i*'>\nif {{ n }} {{ state }}\n</group>" % attr
    got = []

    def rec(data):
        got.append(data)
        return data, None

    def go():
        p = obs.ttp()
        p.add_function(rec, scope="input", name="rec")
        p.add_template(template)
        p.add_input(text)
        p.parse(one=True)
        return p.result()[0][0]

    res = obs.attempt(go)
    want = want_lines(blocks, listed, host)
    records = [dict(zip(("n", "state"), l.split()[1:])) for l in want if l.startswith("if ")]
    wanted = {"i": records} if records else {}
    obs.expect(res, wanted, template, text, "commands %r of %s %r:" % (listed, form, host))
    if notation != "rec first":
        obs.expect(content(got[0], host) if got else got, want, template, text, "text left by extract_commands:")
    seen.add(repr(wanted))


def seq_cases():
    cmds = COMMANDS if DEEP else COMMANDS[:5]
    for form in PROMPTS:
        for host in HOSTS:
            for n in (1, 2, 3) if DEEP else (1, 2):
                for names in itertools.permutations(cmds, n):
                    yield form, host, names


def seq_fn(case):
    form, host, names = case
    seen, n = set(), 0
    for outs in itertools.product(range(len(OUTPUTS)), repeat=len(names)):
        if len(names) == 3 and not DEEP and len(set(outs)) < 2:
            continue
        blocks = list(zip(names, outs))
        for k in range(1, len(names) + 1):
            for listed in itertools.permutations(names, k):
                if len(names) == 3 and k == 2 and listed[0] > listed[1]:
                    continue
                final = (sum(outs) + k) % 2 == 0
                one(form, host, blocks, PREAMBLES[0], (0, 0), "\n", final, list(listed), "attribute", seen)
                n += 1
    return Outcome(h((case, len(seen))), len(seen) > 1, count=n, states=[h((case, s)) for s in seen], transitions=n * len(names))


def style_cases():
    return itertools.product(PROMPTS, HOSTS, range(len(PREAMBLES)), [(0, 0), (1, 0), (0, 1), (2, 3)], ["\n", "\r\n"], [False, True], ["attribute", "functions", "rec first"])


def style_fn(case):
    form, host, pre, blanks, nl, final, notation = case
    seen, n = set(), 0
    for outs in itertools.product(range(len(OUTPUTS)), repeat=3):
        for listed in (["show int"], ["dir /all?", "show int"], ["show interfaces", "no such"]):
            if (outs[0] + 2 * outs[1] + outs[2] + len(listed)) % 5 and not DEEP:
                continue
            blocks = list(zip(["show interfaces", "show int", "dir /all?"], outs))
            one(form, host, blocks, PREAMBLES[pre], blanks, nl, final, listed, notation, seen)
            n += 1
    return Outcome(h((case, len(seen))), len(seen) > 1, count=n, states=[h((case, s)) for s in seen], transitions=n * 3)


def check(ck):
    ck.explore("block sequences", seq_cases, seq_fn, rule="8 prompt forms x 5 host names x all sequences of up to %d of %d commands x all outputs x all ordered lists of them" % ((3, 6) if DEEP else (2, 5)))
    ck.explore("notations", style_cases, style_fn, rule="prompt forms x host names x preambles x blanks around the command x line ends x final prompt x three notations x outputs of three blocks")
