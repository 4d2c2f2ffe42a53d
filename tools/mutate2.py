"""Development tool: a second set of mutants for mutate.py, mistakes people make rather
than flipped operators. mutate2.py gen DIR writes DIR/mutants.json; the other stages
are those of mutate.py."""
import ast, fnmatch, json, subprocess, sys
import mutate
from mutate import Finder, SKIP_FILES, SKIP_FUNCS


class Finder2(Finder):
    def visit_FunctionDef(self, n):
        if n.name in SKIP_FUNCS:
            return
        self.stack.append(n.name)
        if len(self.stack) == 1 and n.args.args and not n.decorator_list:
            t = self.text(n).replace("def %s(" % n.name, "def _orig_%s(" % n.name, 1)
            for what, key in (("memo", "repr(args) + repr(kwargs)"), ("memo first", "repr(args[:1])"), ("memo arguments", "repr(args[1:]) + repr(kwargs)")):
                self.add(n, "%s\n\n\n_memo_%s = {}\n\n\ndef %s(*args, **kwargs):\n    key = %s\n    if key not in _memo_%s:\n        _memo_%s[key] = _orig_%s(*args, **kwargs)\n    return _memo_%s[key]\n"
                         % (t, n.name, n.name, key, n.name, n.name, n.name, n.name), what)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or self.islog(n):
            return
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
            o = self.text(c.func.value)
            if c.func.attr == "append" and len(c.args) == 1:
                x = self.text(c.args[0])
                if "\n" not in x:
                    self.add(n, "%s.insert(0, %s)" % (o, x), "append first")
                    self.add(n, "%s.append(%s) if %s not in %s else None" % (o, x, x, o), "append once")
                    self.add(n, "%s.append(%s) if %s else None" % (o, x, x), "append true")
            if c.func.attr == "extend" and len(c.args) == 1:
                x = self.text(c.args[0])
                if "\n" not in x:
                    self.add(n, "%s.extend([_i for _i in %s if _i not in %s])" % (o, x, o), "extend once")
            if c.func.attr == "update" and len(c.args) == 1:
                x = self.text(c.args[0])
                if "\n" not in x:
                    self.add(n, "[%s.setdefault(_k, _v) for _k, _v in (%s).items()]" % (o, x), "update keeps")
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        v = self.text(n.value)
        if "\n" not in v:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                self.add(n, "%s.setdefault(%s, %s)" % (self.text(t.value), self.text(t.slice), v), "keeps first")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, "break", "break")

    def visit_Break(self, n):
        self.add(n, "continue", "continue")

    def visit_Return(self, n):
        if n.value is not None:
            self.generic_visit(n)

    def truth(self, e):
        t = self.text(e)
        if "\n" in t or "isEnabledFor" in t:
            return
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            self.add(e, "(%s is not None)" % t, "not None")
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) and isinstance(e.operand, (ast.Name, ast.Attribute, ast.Subscript)):
            self.add(e, "(%s is None)" % self.text(e.operand), "None")
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                self.truth(v)

    def visit_If(self, n):
        self.truth(n.test)
        last = n.body[-1]
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.truth(n.test)
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            op, l, r = n.ops[0], n.left, n.comparators[0]
            a, b = self.text(l), self.text(r)
            if "\n" not in a + b:
                if isinstance(op, ast.Eq):
                    if isinstance(r, ast.Constant) and isinstance(r.value, str):
                        self.add(n, "%s in str(%s)" % (b, a), "substring")
                        self.add(n, "str(%s).lower() == (%s).lower()" % (a, b), "any case")
                    elif isinstance(r, (ast.Name, ast.Attribute, ast.Subscript)):
                        self.add(n, "str(%s) == str(%s)" % (a, b), "as text")
                        self.add(n, "%s is %s" % (a, b), "identity")
                        self.add(n, "str(%s) in str(%s)" % (a, b), "substring")
                        self.add(n, "str(%s).lower() == str(%s).lower()" % (a, b), "any case")
                if isinstance(op, ast.In):
                    if isinstance(r, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
                        self.add(n, "any(str(%s) in str(_i) for _i in %s)" % (a, b), "in any")
                        if isinstance(r, (ast.Name, ast.Attribute, ast.Subscript)):
                            self.add(n, "(%s.get(%s) if isinstance(%s, dict) else %s in %s)" % (b, a, b, a, b), "get")
                if isinstance(op, ast.NotIn) and isinstance(r, (ast.Name, ast.Attribute, ast.Subscript)):
                    self.add(n, "not (%s.get(%s) if isinstance(%s, dict) else %s in %s)" % (b, a, b, a, b), "get")
                if isinstance(op, ast.Is) and isinstance(r, ast.Constant) and r.value is None:
                    self.add(n, "not %s" % a, "falsy")
                if isinstance(op, ast.IsNot) and isinstance(r, ast.Constant) and r.value is None:
                    self.add(n, "bool(%s)" % a, "truthy")
                if isinstance(op, ast.Is) and isinstance(r, ast.Constant) and r.value is False:
                    self.add(n, "not %s" % a, "falsy")
                if isinstance(op, ast.Is) and isinstance(r, ast.Constant) and r.value is True:
                    self.add(n, "bool(%s)" % a, "truthy")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        self.generic_visit(n)

    def visit_For(self, n):
        x = self.text(n.iter)
        if "\n" not in x and not x.startswith("sorted"):
            self.add(n.iter, "list(%s)[1:]" % x, "skip first")
            self.add(n.iter, "list(%s)[:-1]" % x, "skip last")
            self.add(n.iter, "list(%s)[:1]" % x, "first only")
            self.add(n.iter, "reversed(list(%s))" % x, "reversed")
        self.generic_visit(n)

    def visit_Call(self, n):
        if self.islog(n):
            return
        f = n.func
        t = self.text(n)
        if isinstance(f, ast.Attribute) and "\n" not in t:
            o = self.text(f.value)
            args = [self.text(a) for a in n.args]
            if f.attr == "get" and len(args) == 2:
                self.add(n, "(%s.get(%s) or %s)" % (o, args[0], args[1]), "get or")
            if f.attr == "split" and len(args) == 1:
                self.add(n, "%s.split(%s, 1)" % (o, args[0]), "split once")
                self.add(n, "%s.split()" % o, "split blanks")
            if f.attr == "strip" and not args:
                self.add(n, "%s.lstrip()" % o, "lstrip")
                self.add(n, "%s.rstrip()" % o, "rstrip")
            if f.attr == "replace" and len(args) == 2:
                self.add(n, "%s.replace(%s, %s, 1)" % (o, args[0], args[1]), "replace once")
            if f.attr in ("match", "search", "findall", "sub") and o == "re":
                if f.attr == "match":
                    self.add(n.func, "re.search", "search")
                    self.add(n.func, "re.fullmatch", "fullmatch")
                if f.attr == "search":
                    self.add(n.func, "re.match", "match")
                if f.attr in ("match", "search") and len(args) == 2:
                    self.add(n, t[:-1] + ", re.I)", "re.I")
                    self.add(n, t[:-1] + ", re.M)", "re.M")
            if f.attr == "setdefault" and len(args) == 2:
                self.add(n, "(%s.update({%s: %s}) or %s[%s])" % (o, args[0], args[1], o, args[0]), "overwrite")
            if f.attr == "items" and not args:
                self.add(n, "sorted(%s, key=str)" % t, "sorted")
            if f.attr == "join" and len(args) == 1:
                self.add(n, "%s.join(sorted(%s))" % (o, args[0]), "join sorted")
                self.add(n, "%s.join(dict.fromkeys(%s))" % (o, args[0]), "join once")
            if f.attr == "pop" and len(args) == 1 and args[0] not in ("0", "-1"):
                self.add(n, "%s[%s]" % (o, args[0]), "no pop")
            if f.attr in ("startswith", "endswith") and len(args) == 1:
                self.add(n, "(%s in %s)" % (args[0], o), "contains")
        if isinstance(f, ast.Name) and "\n" not in t:
            args = [self.text(a) for a in n.args]
            if f.id == "isinstance" and len(args) == 2:
                if args[1] == "dict":
                    self.add(n, "(%s and isinstance(%s, dict))" % (args[0], args[0]), "nonempty")
                if args[1] == "list":
                    self.add(n, "(%s and isinstance(%s, list))" % (args[0], args[0]), "nonempty")
                    self.add(n, "isinstance(%s, (list, tuple))" % args[0], "tuple too")
                if args[1] == "str":
                    self.add(n, "(%s and isinstance(%s, str))" % (args[0], args[0]), "nonempty")
            if f.id in ("int", "float", "len") and len(args) == 1:
                self.add(n, "(%s - 1)" % t, "less")
        self.generic_visit(n)

    def visit_Constant(self, n):
        pass

    def visit_UnaryOp(self, n):
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Add) and "\n" not in self.text(n):
            self.add(n, "%s + %s" % (self.text(n.right), self.text(n.left)), "swapped")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        t = self.text(n.slice)
        if t == "0":
            self.add(n.slice, "-1", "last")
        if t == "-1":
            self.add(n.slice, "0", "first")
        self.generic_visit(n)

    def visit_ListComp(self, n):
        self.generic_visit(n)


mutate.Finder = Finder2
if __name__ == "__main__":
    cmd, d = sys.argv[1:3]
    assert cmd == "gen"
    mutate.gen(d)
