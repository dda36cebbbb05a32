"""Mechanical transformation of the source of /repo, on every run.

Only function bodies change, and only so that CPython executes them on
symbolic values: every statement and expression is kept.
  - displays/comprehensions build the verifier's containers; a comprehension
    becomes a local function with the same loops
  - `for`/`while` become `while` loops whose head is a call into the verifier
    (where invariants are asserted and assumed)
  - `in`, `is`, `%`, subscript loads, f-strings, method calls and calls with
    starred arguments go through the run time, which performs the plain Python
    operation when no symbolic value is involved
  - `except:` is `except Exception:` (the verifier's own control flow is not
    an exception of the program)
  - a store to a global is recorded
"""
import ast

KV = "__kv__"


def _n(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def kvattr(name):
    return ast.Attribute(value=_n(KV), attr=name, ctx=ast.Load())


def kvcall(name, *args, **kw):
    return ast.Call(func=kvattr(name), args=list(args), keywords=[])


def const(x):
    return ast.Constant(value=x)


def assigned(nodes):
    """Names bound by these statements (not descending into nested scopes,
    except through nonlocal)."""
    out, glob = [], set()

    def add(n):
        if n not in out:
            out.append(n)

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)

        def visit_FunctionDef(self, n):
            add(n.name)
            for sub in ast.walk(n):
                if isinstance(sub, ast.Nonlocal):
                    for x in sub.names:
                        add(x)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    add(sub.target.id)
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                add((a.asname or a.name).split(".")[0])
        visit_ImportFrom = visit_Import

        def visit_Global(self, n):
            glob.update(n.names)
    w = W()
    for n in nodes:
        w.visit(n)
    return out


class Fn(ast.NodeTransformer):
    """Transforms one function body (recursively its nested functions)."""

    def __init__(self, tr, qual, globs=()):
        self.tr, self.qual = tr, qual
        self.globs = set(globs)
        self.pre = []            # stack of statement prefix lists
        self.in_lambda = 0

    def uid(self, what):
        self.tr.n += 1
        return "__kv_%s_%d" % (what, self.tr.n)

    # -- statements
    def body(self, stmts):
        out = []
        for s in stmts:
            self.pre.append([])
            r = self.visit(s)
            pre = self.pre.pop()
            out.extend(pre)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def generic_stmt(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.body(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_If(self, n):
        return self.generic_stmt(n)

    def visit_With(self, n):
        return self.generic_stmt(n)

    def visit_Try(self, n):
        return self.generic_stmt(n)

    def visit_ExceptHandler(self, n):
        if n.type is None:
            n.type = _n("Exception")
        elif isinstance(n.type, ast.Name) and n.type.id == "BaseException":
            n.type = _n("Exception")
        else:
            n.type = self.visit(n.type)
        n.body = self.body(n.body)
        return n

    def visit_Match(self, n):
        self.tr.unsupported.append((self.qual, "match statement"))
        return n

    def visit_AsyncFor(self, n):
        self.tr.unsupported.append((self.qual, "async for"))
        return n
    visit_AsyncWith = visit_Await = visit_AsyncFunctionDef = visit_AsyncFor

    def visit_Global(self, n):
        self.globs.update(n.names)
        return n

    def visit_FunctionDef(self, n):
        sub = Fn(self.tr, self.qual + "." + n.name)
        n.args = self.args(n.args)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = sub.body(n.body)
        return n

    def args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_ClassDef(self, n):
        return self.tr.cls(n, self.qual)

    def visit_Lambda(self, n):
        # a lambda becomes a local function, so that comprehensions fit in
        name = self.uid("lambda")
        n.args = self.args(n.args)
        sub = Fn(self.tr, self.qual + ".<lambda>")
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n.body)):
            self.tr.unsupported.append((self.qual, "yield in lambda"))
        d = ast.FunctionDef(name=name, args=n.args, body=sub.body([ast.Return(value=n.body)]),
                            decorator_list=[], type_params=[])
        if not self.pre:
            n.body = sub.visit(n.body) if False else n.body
            return n
        self.pre[-1].append(d)
        return _n(name)

    def names_of(self, stmts, extra=()):
        ns = [x for x in assigned(stmts) if x not in self.globs and not x.startswith("__kv_")]
        for t in extra:
            for x in assigned([ast.Assign(targets=[t], value=const(None))]):
                if x not in ns and x not in self.globs:
                    ns.append(x)
        return ns

    def loop_names(self, names):
        return ast.Tuple(elts=[const(x) for x in names], ctx=ast.Load())

    def havoc_stmt(self, L, names):
        if not names:
            val = ast.Expr(value=ast.Call(func=ast.Attribute(value=_n(L), attr="havoc", ctx=ast.Load()),
                                          args=[], keywords=[]))
        else:
            val = ast.Assign(
                targets=[ast.Tuple(elts=[_n(x, ast.Store()) for x in names], ctx=ast.Store())],
                value=ast.Call(func=ast.Attribute(value=_n(L), attr="havoc", ctx=ast.Load()),
                               args=[], keywords=[]))
        return ast.If(test=ast.Attribute(value=_n(L), attr="sym", ctx=ast.Load()), body=[val], orelse=[])

    def lcall(self, L, m, *args):
        return ast.Call(func=ast.Attribute(value=_n(L), attr=m, ctx=ast.Load()), args=list(args), keywords=[])

    def locals_(self):
        return ast.Call(func=kvattr("locals"), args=[], keywords=[])

    def visit_For(self, n):
        names = self.names_of(n.body, [n.target])
        L = self.uid("L")
        it = self.visit(n.iter)
        lid = "%s:%d" % (self.qual, self.tr.loopno())
        tgt = n.target
        if not isinstance(tgt, ast.Name):
            tgt = self.visit(tgt)
        body = self.body(n.body)
        orelse = self.body(n.orelse) if n.orelse else []
        first = ast.Assign(targets=[_n(L, ast.Store())],
                           value=kvcall("loop", const(lid), it, self.loop_names(names)))
        w = ast.While(
            test=self.lcall(L, "more", self.locals_()),
            body=[self.havoc_stmt(L, names),
                  ast.Assign(targets=[tgt], value=self.lcall(L, "item"))] + body,
            orelse=[self.havoc_stmt(L, names)] + orelse)
        return [ast.copy_location(first, n), ast.copy_location(w, n)]

    def visit_While(self, n):
        names = self.names_of(n.body + [ast.Expr(value=n.test)])
        L = self.uid("L")
        lid = "%s:%d" % (self.qual, self.tr.loopno())
        forever = isinstance(n.test, ast.Constant) and bool(n.test.value)
        self.pre.append([])
        test = self.visit(n.test)
        pre = self.pre.pop()
        body = self.body(n.body)
        orelse = self.body(n.orelse) if n.orelse else []
        first = ast.Assign(targets=[_n(L, ast.Store())],
                           value=kvcall("wloop", const(lid), self.loop_names(names), const(forever)))
        w = ast.While(
            test=const(True),
            body=[ast.Expr(value=self.lcall(L, "whead", self.locals_())),
                  self.havoc_stmt(L, names)] + pre + [
                  ast.If(test=ast.UnaryOp(op=ast.Not(), operand=self.lcall(
                      L, "wcond", kvcall("truth", test))),
                      body=orelse + [ast.Break()], orelse=[])] + body,
            orelse=[])
        return [ast.copy_location(first, n), ast.copy_location(w, n)]

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Name):
            if n.target.id in self.globs:
                return self.gset(n.target.id, ast.BinOp(left=_n(n.target.id), op=n.op, right=n.value))
            if isinstance(n.op, ast.Mod):
                return ast.Assign(targets=[n.target], value=kvcall("mod", _n(n.target.id), n.value))
            return n
        n.target = self.target(n.target)
        return n

    def target(self, t):
        """Sub-expressions of a store target."""
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
        elif isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit_slice(t.slice)
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self.target(x) for x in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self.target(t.value)
        return t

    def visit_slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Slice(lower=s.lower and self.visit(s.lower), upper=s.upper and self.visit(s.upper),
                             step=s.step and self.visit(s.step))
        return self.visit(s)

    def gset(self, name, value):
        return ast.Expr(value=kvcall("setglobal", ast.Call(func=_n("globals"), args=[], keywords=[]),
                                     const(name), value))

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.globs:
            return self.gset(n.targets[0].id, n.value)
        if any(isinstance(x, ast.Name) and x.id in self.globs for t in n.targets for x in ast.walk(t)
               if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)):
            self.tr.unsupported.append((self.qual, "store to a global in a tuple"))
        n.targets = [self.target(t) for t in n.targets]
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        return self.visit_Assign(ast.Assign(targets=[n.target], value=n.value))

    def visit_Delete(self, n):
        n.targets = [self.target(t) for t in n.targets]
        return n

    # -- expressions
    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load):
            n.elts = [self.visit(x) for x in n.elts]
            return n
        return self.target(n)

    def visit_List(self, n):
        if not isinstance(n.ctx, ast.Load):
            return self.target(n)
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return kvcall("newlist_star", *[
                ast.Tuple(elts=[const(isinstance(x, ast.Starred)),
                                self.visit(x.value if isinstance(x, ast.Starred) else x)], ctx=ast.Load())
                for x in n.elts])
        return kvcall("newlist", *[self.visit(x) for x in n.elts])

    def visit_Set(self, n):
        return kvcall("newset", *[self.visit(x) for x in n.elts])

    def visit_Dict(self, n):
        if any(k is None for k in n.keys):
            self.tr.unsupported.append((self.qual, "** in a dict display"))
            return n
        return kvcall("newdict", *[
            ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load())
            for k, v in zip(n.keys, n.values)])

    def quantified(self, n):
        """any / all of a generator whose parts are without effect: the loop that it is."""
        what, g = n.func.id, n.args[0]
        if what in self.tr.own or any(isinstance(x, (ast.Call, ast.Await)) for x in ast.walk(g)):
            return None

        def add(r):
            if what == "all":
                t = ast.UnaryOp(op=ast.Not(), operand=g.elt)
            else:
                t = g.elt
            return ast.If(test=t, body=[ast.Assign(targets=[_n(r, ast.Store())], value=const(what == "any"))], orelse=[])
        return self.comp(g, const(what == "all"), add, "kv_says")

    def comp(self, n, make, add, r="__kv_r"):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(n)):
            self.tr.unsupported.append((self.qual, "yield or := in a comprehension"))
        if not self.pre:
            self.tr.unsupported.append((self.qual, "comprehension outside a statement"))
            return n
        name = self.uid("comp")
        inner = [add(r)]
        for i, g in enumerate(reversed(n.generators)):
            for c in reversed(g.ifs):
                inner = [ast.If(test=c, body=inner, orelse=[])]
            first = i == len(n.generators) - 1
            inner = [ast.For(target=g.target, iter=_n("__kv_it") if first else g.iter, body=inner, orelse=[])]
        sub = Fn(self.tr, self.qual + ".<comp>")
        d = ast.FunctionDef(
            name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="__kv_it")], kwonlyargs=[],
                                          kw_defaults=[], defaults=[]),
            body=sub.body([ast.Assign(targets=[_n(r, ast.Store())], value=make)] + inner +
                          [ast.Return(value=_n(r))]),
            decorator_list=[], type_params=[])
        self.pre[-1].append(d)
        return ast.Call(func=_n(name), args=[self.visit(n.generators[0].iter)], keywords=[])

    def visit_ListComp(self, n):
        return self.comp(n, ast.List(elts=[], ctx=ast.Load()), lambda r: ast.Expr(value=ast.Call(
            func=ast.Attribute(value=_n(r), attr="append", ctx=ast.Load()), args=[n.elt], keywords=[])))
    visit_GeneratorExp = visit_ListComp

    def visit_SetComp(self, n):
        return self.comp(n, kvcall("newset"), lambda r: ast.Expr(value=ast.Call(
            func=ast.Attribute(value=_n(r), attr="add", ctx=ast.Load()), args=[n.elt], keywords=[])))

    def visit_DictComp(self, n):
        return self.comp(n, ast.Dict(keys=[], values=[]), lambda r: ast.Assign(
            targets=[ast.Subscript(value=_n(r), slice=n.key, ctx=ast.Store())], value=n.value))

    def visit_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load):
            return self.target(n)
        s = n.slice
        if isinstance(s, ast.Slice):
            s = ast.Call(func=_n("slice"), args=[
                self.visit(x) if x is not None else const(None) for x in (s.lower, s.upper, s.step)],
                keywords=[])
        else:
            s = self.visit(s)
        return kvcall("getitem", self.visit(n.value), s)

    def visit_Attribute(self, n):
        if not isinstance(n.ctx, ast.Load):
            return self.target(n)
        n.value = self.visit(n.value)
        return n

    def visit_Compare(self, n):
        left = self.visit(n.left)
        comps = [self.visit(c) for c in n.comparators]
        m = {ast.In: "contains", ast.NotIn: "not_contains", ast.Is: "is_", ast.IsNot: "is_not"}
        if len(comps) == 1:
            f = m.get(type(n.ops[0]))
            if f:
                return kvcall(f, left, comps[0])
            n.left, n.comparators = left, comps
            return n
        if any(type(o) in m for o in n.ops):
            self.tr.unsupported.append((self.qual, "chained comparison with in/is"))
        n.left, n.comparators = left, comps
        return n

    def visit_BinOp(self, n):
        n.left, n.right = self.visit(n.left), self.visit(n.right)
        if isinstance(n.op, ast.Mod):
            return kvcall("mod", n.left, n.right)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Tuple(elts=[v, const(""), const("")], ctx=ast.Load()))
            else:
                spec = ""
                if v.format_spec is not None:
                    if all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        spec = "".join(x.value for x in v.format_spec.values)
                    else:
                        self.tr.unsupported.append((self.qual, "computed format spec"))
                parts.append(ast.Tuple(elts=[
                    self.visit(v.value), const(chr(v.conversion) if v.conversion > 0 else ""), const(spec)],
                    ctx=ast.Load()))
        return kvcall("fstring", *parts)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "locals"):
            return n
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], ast.GeneratorExp):
            q = self.quantified(n)
            if q is not None:
                return q
        star = any(isinstance(a, ast.Starred) for a in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        if isinstance(n.func, ast.Attribute) and not star and not dstar:
            if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) \
                    and n.func.value.func.id == "super":
                n.args = [self.visit(a) for a in n.args]
                for k in n.keywords:
                    k.value = self.visit(k.value)
                return n
            return ast.Call(func=kvattr("callm"),
                            args=[self.visit(n.func.value), const(n.func.attr)] +
                                 [self.visit(a) for a in n.args],
                            keywords=[ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords])
        f = self.visit(n.func)
        if dstar:
            kwd = ast.Dict(keys=[const(k.arg) for k in n.keywords if k.arg is not None],
                           values=[self.visit(k.value) for k in n.keywords if k.arg is not None])
            return kvcall("callkw", f, ast.Tuple(elts=[
                ast.Starred(value=self.visit(a.value), ctx=ast.Load()) if isinstance(a, ast.Starred)
                else self.visit(a) for a in n.args], ctx=ast.Load()), kwd,
                          *[self.visit(k.value) for k in n.keywords if k.arg is None])
        if star:
            args = ast.List(elts=[ast.Tuple(elts=[
                const(isinstance(a, ast.Starred)), self.visit(a.value if isinstance(a, ast.Starred) else a)],
                ctx=ast.Load()) for a in n.args], ctx=ast.Load())
            kwd = ast.Dict(keys=[const(k.arg) for k in n.keywords], values=[self.visit(k.value) for k in n.keywords])
            return kvcall("callstar", f, args, kwd)
        n.func = f
        n.args = [self.visit(a) for a in n.args]
        for k in n.keywords:
            k.value = self.visit(k.value)
        return n


class Module:
    def __init__(self, name, src, path):
        self.name, self.path = name, path
        self.n = 0
        self.nloop = 0
        self.unsupported = []
        self.functions = []
        tree = ast.parse(src, path)
        # names the module gives a meaning of its own
        self.own = {getattr(x, "id", None) or getattr(x, "name", None) or getattr(x, "arg", None) for x in ast.walk(tree)
                    if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) or
                    isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.arg, ast.alias))}
        tree.body = [self.top(s, name) for s in tree.body]
        ast.fix_missing_locations(tree)
        self.code = compile(tree, path, "exec")
        self.tree = tree

    def loopno(self):
        self.nloop += 1
        return self.nloop

    def top(self, s, qual):
        if isinstance(s, ast.ClassDef):
            return self.cls(s, qual)
        if isinstance(s, (ast.FunctionDef,)):
            return self.fn(s, qual)
        for sub in ast.walk(s):
            for f, v in ast.iter_fields(sub):
                if isinstance(v, list):
                    setattr(sub, f, [self.fn(x, qual) if isinstance(x, ast.FunctionDef) else x for x in v])
        return s

    def cls(self, c, qual):
        q = qual + "." + c.name
        c.body = [self.fn(x, q) if isinstance(x, ast.FunctionDef) else
                  self.cls(x, q) if isinstance(x, ast.ClassDef) else x for x in c.body]
        return c

    def fn(self, f, qual):
        q = qual + "." + f.name
        self.functions.append(q)
        t = Fn(self, q)
        f.body = t.body(f.body)
        if not any(isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod")
                   or isinstance(d, ast.Attribute) for d in f.decorator_list):
            pass
        f.body.insert(0 if not _doc(f) else 1,
                      ast.Expr(value=kvcall("enter", const(q))))
        return f


def _doc(f):
    return bool(f.body) and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant)
