"""Reference model of record assembly: for every top level group a stack of open
records driven line by line. Deliberately naive - no spans, no regular
expressions, no path algebra."""


class Node:
    __slots__ = ("vals", "kids")

    def __init__(self, vals=None):
        self.vals = dict(vals or {})
        self.kids = {}

    def canon(self):
        return (tuple(sorted((k, repr(v)) for k, v in self.vals.items())),
                tuple((k, tuple(n.canon() for n in ns)) for k, ns in self.kids.items()))


class Spec:
    """groups: id -> (parent id or None, name), in template order;
    tokens: (text, [(kind, group id, values), ...]), kind one of start, reject, add, join, line, end"""

    def __init__(self, name, template, groups, tokens, joinchar="\n", depth=(5, 6), prefix=()):
        self.name = name
        self.template = template
        self.groups = groups
        self.tokens = tokens
        self.joinchar = joinchar
        self.depth = depth
        self.prefix = prefix  # lines that come before all sequences
        self.family = {}
        for g, (p, _) in groups.items():
            self.family[g] = g if p is None else self.family[p]
        self.tops = [g for g, (p, _) in groups.items() if p is None]

    def __repr__(self):
        return self.name


class Family:
    """one top level group with everything nested in it"""

    def __init__(self, spec, top):
        self.spec = spec
        self.top = top
        self.root = Node()
        self.open = []  # [(group id, node)], outermost first
        self.seen = set()
        self.ended = set()
        self.undefined = False

    def index(self, gid):
        for i, (g, _) in enumerate(self.open):
            if g == gid:
                return i
        return -1

    def end(self, gid):
        """gid and everything nested in it stays shut until it starts again"""
        self.ended |= {g for g in self.spec.groups if self.within(g, gid)}

    def within(self, g, top):
        while g is not None and g != top:
            g = self.spec.groups[g][0]
        return g == top

    def step(self, cands):
        cands = [c for c in cands if self.spec.family[c[1]] == self.top]
        starts = [c for c in cands if c[0] == "start"]
        if starts:
            best = None
            for c in starts:
                parent = self.spec.groups[c[1]][0]
                depth = -1 if parent is None else self.index(parent)
                if parent is not None and depth < 0:
                    # a nested record cannot start outside a record of its parent;
                    # what becomes of it once such a record existed is not defined
                    if parent in self.seen and parent not in self.ended:
                        self.undefined = True
                    continue
                if best is None or depth > best[0]:
                    best = (depth, c)
            if best is not None:
                depth, (_, gid, vals) = best
                del self.open[depth + 1:]
                parent = self.root if depth < 0 else self.open[depth][1]
                node = Node(vals)
                parent.kids.setdefault(self.spec.groups[gid][1], []).append(node)
                self.open.append((gid, node))
                self.seen.add(gid)
                self.ended.discard(gid)
            return
        rejects = [c for c in cands if c[0] == "reject"]
        if rejects:
            # a start line with a failed check: no record, and the group is shut
            for _, gid, _ in rejects:
                if self.index(gid) >= 0:
                    del self.open[self.index(gid):]
                self.end(gid)
            return
        if all(c[0] == "line" for c in cands):
            # unclaimed line: goes to the open record of its group, closes nothing
            for _, gid, vals in cands:
                if self.index(gid) >= 0:
                    self.join(self.open[self.index(gid)][1], vals)
            return
        live = [(self.index(c[1]), c) for c in cands if c[0] != "line"]
        live = [x for x in live if x[0] >= 0]
        if not live:
            return
        depth, (kind, gid, vals) = max(live, key=lambda x: x[0])
        if kind == "end":
            del self.open[depth:]
            self.end(gid)
            return
        del self.open[depth + 1:]
        node = self.open[depth][1]
        for k, v in vals.items():
            if k not in node.vals:
                node.vals[k] = v
            elif kind != "add":
                self.join(node, {k: v})

    def join(self, node, vals):
        for k, v in vals.items():
            if k not in node.vals:
                node.vals[k] = v
                continue
            w = node.vals[k]
            if isinstance(w, str) and isinstance(v, str):
                char = self.spec.joinchar
                node.vals[k] = w + (char[k] if isinstance(char, dict) else char) + v
            else:
                node.vals[k] = (w if isinstance(w, list) else [w]) + (v if isinstance(v, list) else [v])


class Machine:
    def __init__(self, spec):
        self.spec = spec
        self.families = [Family(spec, t) for t in spec.tops]

    def step(self, tok):
        for f in self.families:
            f.step(tok[1])

    @property
    def undefined(self):
        return any(f.undefined for f in self.families)

    def state(self):
        """everything that determines the future of the run"""
        return tuple((f.root.canon(), tuple(g for g, _ in f.open), tuple(sorted(f.seen)), tuple(sorted(f.ended))) for f in self.families)

    def result(self):
        out = {}
        for f in self.families:
            for k, ns in f.root.kids.items():
                out.setdefault(k, []).extend(self.render(n) for n in ns)
        return {k: v[0] if len(v) == 1 else v for k, v in out.items()}

    def render(self, node):
        out = dict(node.vals)
        for k, ns in node.kids.items():
            rs = [self.render(n) for n in ns]
            out[k] = rs[0] if len(rs) == 1 else rs
        return out


def run(spec, toks):
    m = Machine(spec)
    for t in toks:
        m.step(t)
    return m


def drop_empty(x):
    """records without any value are not reported once there are several"""
    if isinstance(x, dict):
        return {k: drop_empty(v) for k, v in x.items()}
    if isinstance(x, list):
        y = [i for i in (drop_empty(i) for i in x) if i != {}]
        return y[0] if len(y) == 1 else (y or {})
    return x
