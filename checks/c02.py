"""C02: record assembly. Model: mc.model.Machine (stack of open records). Every
line sequence up to the depth is run through the model and the implementation."""
import itertools

from mc import core, model, obs
from mc.core import Outcome, Violation, h, same

LEVEL = "model_checking"
ASSUMPTIONS = [
    "a nested start line outside any record of its parent, after such a record existed, is left undefined",
    "records without any value are not reported when there are several",
]
S = model.Spec


def t(text, *cands):
    return (text, list(cands))


def st(g, **v):
    return ("start", g, v)


def ad(g, **v):
    return ("add", g, v)


def rj(g):
    return ("reject", g, {})


def en(g):
    return ("end", g, {})


NOISE = t("noise line")
BLANK = t("")

SPECS = [
    S("flat", """<group name="g">
start {{ a }}
 b {{ b }}
 c {{ c }}
</group>""", {"g": (None, "g")},
      [t("start 1", st("g", a="1")), t("start 9", st("g", a="9")), t(" b 2", ad("g", b="2")), t(" b 3", ad("g", b="3")),
       t(" c 4", ad("g", c="4")), NOISE], depth=(5, 7)),
    S("startonly", """<group name="g">
--- {{ _start_ }}
 b {{ b }}
<group name="k">
 k {{ k }}
</group>
</group>""", {"g": (None, "g"), "k": ("g", "k")},
      [t("---", st("g")), t(" b 2", ad("g", b="2")), t(" k 3", st("k", k="3")), t(" k 4", st("k", k="4")), NOISE], depth=(6, 8)),
    S("childstartonly", """<group name="g">
start {{ a }}
<group name="k">
 --- {{ _start_ }}
 x {{ x }}
<group name="m">
  m {{ m }}
</group>
</group>
 z {{ z }}
</group>""", {"g": (None, "g"), "k": ("g", "k"), "m": ("k", "m")},
      [t("start 1", st("g", a="1")), t(" ---", st("k")), t(" x 2", ad("k", x="2")), t("  m 3", st("m", m="3")),
       t(" z 4", ad("g", z="4"))], depth=(6, 8)),
    S("twostart", """<group name="g">
tun {{ a }}
eth {{ a | _start_ }}
--- {{ _start_ }}
 b {{ b }}
 c {{ c }}
</group>""", {"g": (None, "g")},
      [t("tun 1", st("g", a="1")), t("eth 2", st("g", a="2")), t("---", st("g")), t(" b 3", ad("g", b="3")),
       t(" c 4", ad("g", c="4"))], depth=(6, 7)),
    S("end", """<group name="g">
start {{ a }}
 b {{ b }}
 c {{ c }}
! {{ _end_ }}
</group>""", {"g": (None, "g")},
      [t("start 1", st("g", a="1")), t("start 2", st("g", a="2")), t(" b 3", ad("g", b="3")), t(" c 4", ad("g", c="4")),
       t("!", en("g"))], depth=(6, 7)),
    S("endnest", """<group name="g">
start {{ a }}
 b {{ b }}
<group name="k">
 k {{ k }}
 kk {{ kk }}
 ! {{ _end_ }}
</group>
 c {{ c }}
! {{ _end_ }}
</group>""", {"g": (None, "g"), "k": ("g", "k")},
      [t("start 1", st("g", a="1")), t(" b 2", ad("g", b="2")), t(" k 3", st("k", k="3")), t(" kk 4", ad("k", kk="4")),
       t(" !", en("k")), t(" c 5", ad("g", c="5")), t("!", en("g"))], depth=(5, 6)),
    S("around", """<group name="g">
start {{ a }}
 b {{ b }}
 c {{ c }}
<group name="k">
 k {{ k }}
 b2 {{ b }}
<group name="m">
  m {{ m }}
</group>
</group>
 alt {{ b }}
</group>""", {"g": (None, "g"), "k": ("g", "k"), "m": ("k", "m")},
      [t("start 1", st("g", a="1")), t(" b 2", ad("g", b="2")), t(" b 3", ad("g", b="3")), t(" c 4", ad("g", c="4")),
       t(" k 5", st("k", k="5")), t(" b2 6", ad("k", b="6")), t(" b2 7", ad("k", b="7")), t("  m 8", st("m", m="8")), t(" alt 9", ad("g", b="9"))], depth=(5, 6)),
    S("nest3", """<group name="g">
start {{ a }}
 b {{ b }}
<group name="k">
 k {{ k }}
 kk {{ kk }}
<group name="m">
  m {{ m }}
  mm {{ mm }}
</group>
</group>
</group>""", {"g": (None, "g"), "k": ("g", "k"), "m": ("k", "m")},
      [t("start 1", st("g", a="1")), t(" b 2", ad("g", b="2")), t(" k 3", st("k", k="3")), t(" kk 4", ad("k", kk="4")),
       t("  m 5", st("m", m="5")), t("  mm 6", ad("m", mm="6"))], depth=(6, 7)),
    S("siblings", """<group name="g">
start {{ a }}
 b {{ b }}
<group name="k">
 k {{ k }}
 kk {{ kk }}
</group>
<group name="m">
 m {{ m }}
 mm {{ mm }}
</group>
 t {{ t }}
</group>""", {"g": (None, "g"), "k": ("g", "k"), "m": ("g", "m")},
      [t("start 1", st("g", a="1")), t(" b 2", ad("g", b="2")), t(" k 3", st("k", k="3")), t(" kk 4", ad("k", kk="4")),
       t(" m 5", st("m", m="5")), t(" mm 6", ad("m", mm="6")), t(" t 7", ad("g", t="7"))], depth=(5, 6)),
    S("twotop", """<group name="g">
start {{ a }}
 d {{ d }}
</group>
<group name="h">
begin {{ b }}
 d {{ d }}
 e {{ e }}
</group>""", {"g": (None, "g"), "h": (None, "h")},
      [t("start 1", st("g", a="1")), t("begin 2", st("h", b="2")), t(" d 3", ad("g", d="3"), ad("h", d="3")),
       t(" e 4", ad("h", e="4")), NOISE], depth=(5, 7)),
    S("samename", """<group name="g">
start {{ a }}
 d {{ d }}
</group>
<group name="g">
begin {{ b }}
 e {{ e }}
</group>""", {"g": (None, "g"), "h": (None, "g")},
      [t("start 1", st("g", a="1")), t("begin 2", st("h", b="2")), t(" d 3", ad("g", d="3")),
       t(" e 4", ad("h", e="4"))], depth=(5, 7)),
    S("sharedline", """<group name="g">
start {{ a }}
 d {{ d }}
<group name="k">
 k {{ k }}
 d {{ d }}
</group>
</group>""", {"g": (None, "g"), "k": ("g", "k")},
      [t("start 1", st("g", a="1")), t(" d 2", ad("g", d="2"), ad("k", d="2")), t(" k 3", st("k", k="3")),
       t(" k 4", st("k", k="4")), NOISE], depth=(5, 7)),
    S("sharedsiblings", """<group name="g">
start {{ a }}
<group name="k">
 k {{ k }}
 d {{ d }}
</group>
<group name="m">
 m {{ m }}
 d {{ d }}
</group>
</group>""", {"g": (None, "g"), "k": ("g", "k"), "m": ("g", "m")},
      [t("start 1", st("g", a="1")), t(" d 2", ad("m", d="2"), ad("k", d="2")), t(" k 3", st("k", k="3")),
       t(" m 4", st("m", m="4")), NOISE], depth=(5, 7)),
    S("table", """<group name="g" method="table">
row {{ a }} {{ b }}
line {{ a }}
{{ a }} is {{ c }}
</group>""", {"g": (None, "g")},
      [t("row 1 2", st("g", a="1", b="2")), t("line 3", st("g", a="3")), t("4 is 5", st("g", a="4", c="5")), NOISE], depth=(6, 8)),
    S("tablejoin", """<group name="g" method="table">
row {{ a }}
words {{ b | _line_ }}
list {{ c | joinmatches(",") }}
opt {{ c | upper | joinmatches }}
<group name="k">
 k {{ k | joinmatches("-") }}
 l {{ l | _line_ }}
</group>
</group>""", {"g": (None, "g"), "k": ("g", "k")},
      [t("row 1", st("g", a="1")), t("words 2 3", st("g", b="2 3")), t("list 4", st("g", c="4")),
       t("opt 5", st("g", c="5")), t(" k 6", st("k", k="6")), t(" l 7 8", ("join", "k", {"l": "7 8"})), NOISE],
      depth=(5, 7)),
    S("sharedempty", """<group name="g">
start {{ a }}
<group name="k">
 same {{ _start_ }}
 d {{ d }}
</group>
<group name="m">
 same {{ _start_ }}
 e {{ e }}
</group>
</group>
<group name="n">
top {{ _start_ }}
 f {{ f }}
</group>""", {"g": (None, "g"), "k": ("g", "k"), "m": ("g", "m"), "n": (None, "n")},
      [t("start 1", st("g", a="1")), t(" same", st("k"), st("m")), t(" d 2", ad("k", d="2")), t(" e 3", ad("m", e="3")),
       t("top", st("n")), t(" f 4", ad("n", f="4"))], depth=(5, 7)),
    S("anchored", """<group name="g">
start {{ a }}
start {{ a }} {{ b | _start_ }}
 x {{ x }} y
 x {{ x }}
</group>""", {"g": (None, "g")},
      [t("start 1", st("g", a="1")), t("start 1 2", st("g", a="1", b="2")), t(" x 3 y", ad("g", x="3")), t(" x 4", ad("g", x="4")),
       t("xstart 1"), t("start"), t("  x 5")], depth=(5, 6)),
    S("deep4", """<group name="g">
a {{ a }}
<group name="k">
 b {{ b }}
<group name="m">
  c {{ c }}
<group name="n">
   d {{ d }}
   e {{ e }}
</group>
</group>
</group>
</group>""", {"g": (None, "g"), "k": ("g", "k"), "m": ("k", "m"), "n": ("m", "n")},
      [t("a 1", st("g", a="1")), t(" b 2", st("k", b="2")), t("  c 3", st("m", c="3")), t("   d 4", st("n", d="4")),
       t("   e 5", ad("n", e="5"))], depth=(6, 8)),
    S("endsiblings", """<group name="g">
start {{ a }}
<group name="k">
 k {{ k }}
<group name="kc">
  kc {{ kc }}
</group>
 kend {{ _end_ }}
</group>
<group name="m">
 m {{ m }}
 mv {{ mv }}
 mend {{ _end_ }}
</group>
</group>""", {"g": (None, "g"), "k": ("g", "k"), "kc": ("k", "kc"), "m": ("g", "m")},
      [t("start 1", st("g", a="1")), t(" k 2", st("k", k="2")), t("  kc 3", st("kc", kc="3")), t(" kend", en("k")),
       t(" m 4", st("m", m="4")), t(" mv 5", ad("m", mv="5")), t(" mend", en("m"))], depth=(6, 7), prefix=[0]),
    S("rejectsiblings", """<group name="g">
start {{ a }}
<group name="k">
 k {{ k | exclude("x") }}
 kv {{ kv }}
<group name="kc">
  kc {{ kc }}
</group>
</group>
<group name="m">
 m {{ m | exclude("x") }}
<group name="mc">
  mc {{ mc }}
</group>
</group>
</group>""", {"g": (None, "g"), "k": ("g", "k"), "kc": ("k", "kc"), "m": ("g", "m"), "mc": ("m", "mc")},
      [t("start 1", st("g", a="1")), t(" k 2", st("k", k="2")), t(" k x", rj("k")), t(" kv 3", ad("k", kv="3")), t("  kc 4", st("kc", kc="4")),
       t(" m 5", st("m", m="5")), t(" m x", rj("m")), t("  mc 6", st("mc", mc="6"))], depth=(5, 6), prefix=[0]),
    S("enddeep", """<group name="g">
start {{ a }}
<group name="k">
 k {{ k }}
<group name="m">
  m {{ m }}
<group name="n">
   n {{ n }}
   nv {{ nv }}
</group>
  mend {{ _end_ }}
</group>
 kend {{ _end_ }}
</group>
gend {{ _end_ }}
</group>""", {"g": (None, "g"), "k": ("g", "k"), "m": ("k", "m"), "n": ("m", "n")},
      [t("start 1", st("g", a="1")), t(" k 2", st("k", k="2")), t("  m 3", st("m", m="3")), t("   n 4", st("n", n="4")), t("   nv 5", ad("n", nv="5")),
       t("  mend", en("m")), t(" kend", en("k")), t("gend", en("g"))], depth=(5, 6), prefix=[0, 1]),
    S("values", """<group name="g">
start {{ a }}
 b {{ b }}
 c {{ c }} {{ d }}
</group>""", {"g": (None, "g")},
      [t("start 1", st("g", a="1")), t("start 2", st("g", a="2")), t(" b x", ad("g", b="x")), t(" c y z", ad("g", c="y", d="z")),
       t(" c y", ), t("start")], depth=(5, 6)),
]


def sequences(spec, depth):
    for k in range(depth + 1):
        for seq in itertools.product(range(len(spec.tokens)), repeat=k):
            yield tuple(spec.prefix) + seq


# nothing any template describes: many lines, a long line
FILLERS = ["\n".join(["~"] * 40), "~" * 400, "\n" * 30]


def check_spec(ck, spec, depth, filled=False):
    def run_many(seqs):
        toks = [[spec.tokens[i] for i in (s[0] if filled else s)] for s in seqs]
        texts = ["\n".join(t[0] for t in ts) for ts in toks]
        if filled:
            texts = []
            for ts, (_, at, f) in zip(toks, seqs):
                lines = [t[0] for t in ts]
                texts.append("\n".join(lines[:at] + [FILLERS[f]] + lines[at:]))
        got = obs.run_batch(spec.template, texts)
        for ts, text, g in zip(toks, texts, got):
            m = model.Machine(spec)
            states = [h(m.state())]
            for tk in ts:
                m.step(tk)
                states.append(h(m.state()))
            if m.undefined:
                yield Outcome("undefined", nontrivial=False, states=states[-1:], transitions=1)
                continue
            w = m.result()
            if not same(model.drop_empty(g), model.drop_empty(w)):
                # one parser for all the texts of a chunk: look at this text alone
                alone = obs.run1(spec.template, text)
                try:
                    obs.expect(g, w, spec.template, text, note="alone: %r" % (alone,))
                except Violation as v:
                    yield v
                    continue
            yield Outcome(g, nontrivial=bool(g), states=states[-1:], transitions=1 if ts else 0)

    if filled:
        def fill():
            for s in sequences(spec, depth):
                for at in range(len(s) + 1):
                    for f in range(len(FILLERS)):
                        yield s, at, f

        ck.explore(spec.name + " with other text", fill, run_many, chunk=150,
                   rule="all line sequences of length <= %d of template '%s' with %d large pieces of other text at all places" % (depth, spec.name, len(FILLERS)))
        return
    ck.explore(spec.name, lambda: sequences(spec, depth), run_many,
               rule="all line sequences of length <= %d over %d lines of template '%s'" % (depth, len(spec.tokens), spec.name),
               chunk=150)


def check(ck):
    for spec in SPECS:
        check_spec(ck, spec, spec.depth[1 if ck.thorough else 0])
    for spec in SPECS:
        n = len(spec.tokens)
        check_spec(ck, spec, (4 if n < 6 else 3) + (1 if ck.thorough else 0), filled=True)
