"""Mechanical source instrumentation of /repo's nbkode package.

On every run the modules of ``nbkode`` are read from /repo, parsed, rewritten by
`Rewriter` below and executed in place of the ordinary import.  The rewriting is
purely mechanical (no function is written by hand) and consists of

* loops            -> the same loop with a cut point at its head (engine.Loop)
* comprehensions   -> the equivalent explicit loop in a nested function
* ``[...]``        -> engine.SList (a list that can hold a symbolic number of items)
* ``a.b = v``      -> the same store, reported to the engine (write frames)
* ``import numpy`` -> npshim (numpy with contracts for symbolic arguments)
* builtins len, range, enumerate, zip, float, int, bool, min, max, abs, sum, isinstance ...
                   -> versions that accept symbolic values
* ``x is y``       -> engine.is_ (object identity; equal enum members etc. unchanged)

What is dropped: the numba decorators (the package itself offers NBKODE_NONUMBA=1,
which makes them the identity) and machine arithmetic (see engine: real numbers).
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("NBV_REPO", "/repo")
NBV = "__nbv__"

BUILTINS = ["len", "range", "enumerate", "zip", "float", "int", "bool", "min", "max",
            "abs", "sum", "any", "all", "isinstance", "list", "tuple", "sorted", "reversed",
            "round", "pow", "map", "filter", "iter", "next", "divmod"]


def stored_names(nodes):
    """Local names (re)bound by the statements (not entering nested scopes)."""
    out = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets inside comprehensions bind in the enclosing scope
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.append(m.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append(n.id)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in nodes:
        visit(n)
    return sorted(set(x for x in out if not x.startswith("_nbv_")))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.func_depth = 0
        self.hoisted = [[]]

    def uid(self):
        self.n += 1
        return self.n

    def call(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id=NBV, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=[])

    # ---- scopes
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit_args(node.args)
        node.returns = None
        self.func_depth += 1
        node.body = self.block(node.body)
        self.func_depth -= 1
        return node

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        return a

    def visit_Lambda(self, node):
        node.args = self.visit_args(node.args)
        # nothing can be hoisted out of a lambda: its comprehensions become immediate calls
        saved, self.hoisted = self.hoisted, [None]
        depth, self.func_depth = self.func_depth, self.func_depth + 1
        node.body = self.visit(node.body)
        self.func_depth = depth
        self.hoisted = saved
        return node

    def visit_ClassDef(self, node):
        saved, self.func_depth = self.func_depth, 0
        node.body = self.block(node.body)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        node.keywords = [self.visit(d) for d in node.keywords]
        self.func_depth = saved
        return node

    def visit_Module(self, node):
        node.body = self.block(node.body)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            self.hoisted.append([])
            r = self.visit(s)
            pre = self.hoisted.pop()
            out.extend(pre)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_block(self, node, *fields):
        for f in fields:
            if getattr(node, f, None):
                setattr(node, f, self.block(getattr(node, f)))

    def visit_If(self, node):
        node.test = self.visit(node.test)
        self.generic_block(node, "body", "orelse")
        return node

    def visit_With(self, node):
        node.items = [self.visit(i) for i in node.items]
        self.generic_block(node, "body")
        return node

    def visit_Try(self, node):
        self.generic_block(node, "body", "orelse", "finalbody")
        node.handlers = [self.visit(h) for h in node.handlers]
        return node

    def visit_ExceptHandler(self, node):
        if node.type:
            node.type = self.visit(node.type)
        self.generic_block(node, "body")
        return node

    # ---- statements
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if self.func_depth:
            node.annotation = ast.Constant(value=None)
        return self.attr_store(node)

    def attr_store(self, node):
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        node.targets = [self.visit(t) for t in node.targets]
        if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
               for t in node.targets for x in ast.walk(t)):
            if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
                t = node.targets[0]
                return ast.Expr(value=self.call("setattr", t.value, ast.Constant(value=t.attr), node.value))
            # a, self.b = ... : bind to temporaries first
            tmp = "_nbv_t%d" % self.uid()
            out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=node.value)]
            for t in node.targets:
                out.extend(self.unpack(t, ast.Name(id=tmp, ctx=ast.Load())))
            return out
        return node

    def unpack(self, target, value):
        if isinstance(target, ast.Attribute):
            return [ast.Expr(value=self.call("setattr", target.value, ast.Constant(value=target.attr), value))]
        if isinstance(target, (ast.Tuple, ast.List)):
            names, post = [], []
            for e in target.elts:
                if isinstance(e, ast.Name) or isinstance(e, ast.Starred):
                    names.append(e)
                else:
                    tmp = "_nbv_t%d" % self.uid()
                    names.append(ast.Name(id=tmp, ctx=ast.Store()))
                    post.extend(self.unpack(e, ast.Name(id=tmp, ctx=ast.Load())))
            return [ast.Assign(targets=[ast.Tuple(elts=names, ctx=ast.Store())], value=value)] + post
        return [ast.Assign(targets=[target], value=value)]

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        if isinstance(node.target, ast.Attribute):
            t = node.target
            op = ast.Constant(value=type(node.op).__name__)
            return ast.Expr(value=self.call("augattr", t.value, ast.Constant(value=t.attr), op, node.value))
        return node

    # ---- loops
    def havoc_stmts(self, names, L):
        out = []
        for v in names:
            out.append(ast.parse("if %r in _nbv_env: %s = _nbv_env[%r]" % (v, v, v)).body[0])
        return [ast.If(test=ast.parse("_nbv_env is not None", mode="eval").body, body=out, orelse=[])] if out else []

    def visit_While(self, node):
        if not self.func_depth:
            return self.generic_visit(node)
        i = self.uid()
        L = "_nbv_L%d" % i
        names = stored_names([node.test] + node.body)
        self.hoisted.append([])
        test = self.visit(node.test)
        pre = self.hoisted.pop()
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        site = "%s:%d" % (self.mod, node.lineno)
        w = []
        w.append(ast.parse("_nbv_env = %s.head(locals())" % L).body[0])
        w += self.havoc_stmts(names, L)
        w += pre
        w.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test),
                        body=[ast.parse("%s.exit()" % L).body[0]] + orelse + [ast.Break()], orelse=[]))
        w.append(ast.parse("%s.body()" % L).body[0])
        w += body
        return [ast.parse("%s = %s.whileloop(%r, %r, %r)" % (L, NBV, site, names, isinstance(node.test, ast.Constant))).body[0],
                ast.While(test=ast.Constant(value=True), body=w, orelse=[])]

    def visit_For(self, node):
        if not self.func_depth:
            return self.generic_visit(node)
        import copy
        i = self.uid()
        L, IT = "_nbv_L%d" % i, "_nbv_it%d" % i
        names = stored_names([node.target] + node.body)
        it = self.visit(node.iter)
        site = "%s:%d" % (self.mod, node.lineno)
        n0 = copy.deepcopy(node)
        body1 = self.block(node.body)
        orelse1 = self.block(node.orelse)
        target1 = self.visit(node.target)
        body2 = self.block(n0.body)
        orelse2 = self.block(n0.orelse)
        target2 = self.visit(n0.target)
        concrete = ast.For(target=target1, iter=ast.Name(id=IT, ctx=ast.Load()), body=body1, orelse=orelse1)
        w = []
        w.append(ast.parse("_nbv_env = %s.head(locals())" % L).body[0])
        w += self.havoc_stmts(names, L)
        w.append(ast.If(test=ast.parse("not %s.has_next()" % L, mode="eval").body,
                        body=[ast.parse("%s.exit()" % L).body[0]] + orelse2 + [ast.Break()], orelse=[]))
        w.append(ast.parse("%s.body()" % L).body[0])
        w.extend(self.unpack(target2, ast.parse("%s.next()" % L, mode="eval").body))
        w += body2
        return [ast.Assign(targets=[ast.Name(id=IT, ctx=ast.Store())], value=self.call("iterate", it)),
                ast.If(test=ast.parse("%s.concrete" % IT, mode="eval").body, body=[concrete],
                       orelse=[ast.parse("%s = %s.forloop(%r, %r, %s)" % (L, NBV, site, names, IT)).body[0],
                               ast.While(test=ast.Constant(value=True), body=w, orelse=[])])]

    # ---- expressions
    def comp(self, node, elt, kind):
        if not self.func_depth or self.hoisted[-1] is None:
            return self.generic_visit(node)
        i = self.uid()
        fn = "_nbv_comp%d" % i
        acc = "_nbv_acc%d" % i
        first_iter = self.visit(node.generators[0].iter)
        if kind == "dict":
            inner = ast.parse("%s[0] = 1" % acc).body[0]
            inner.targets[0].slice = elt[0]
            inner.value = elt[1]
        else:
            inner = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=acc, ctx=ast.Load()),
                                                               attr="append", ctx=ast.Load()),
                                            args=[elt], keywords=[]))
        body = [inner]
        for gi in range(len(node.generators) - 1, -1, -1):
            g = node.generators[gi]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            iter_ = ast.Name(id="_nbv_arg", ctx=ast.Load()) if gi == 0 else g.iter
            loop = ast.For(target=g.target, iter=iter_, body=body, orelse=[])
            ast.copy_location(loop, node)
            body = [loop]
        f = ast.FunctionDef(name=fn, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_nbv_arg")], kwonlyargs=[],
                                                        kw_defaults=[], defaults=[]),
                            body=[ast.parse("%s = %s" % (acc, "{}" if kind == "dict" else "[]")).body[0]] + body
                            + [ast.parse("return %s" % acc).body[0]],
                            decorator_list=[], type_params=[])
        ast.copy_location(f, node)
        ast.fix_missing_locations(f)
        saved = self.hoisted
        self.hoisted = [[]]
        f = self.visit_FunctionDef(f)
        self.hoisted = saved
        self.hoisted[-1].append(f)
        res = ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=[first_iter], keywords=[])
        if kind == "set":
            res = ast.Call(func=ast.Name(id="set", ctx=ast.Load()), args=[res], keywords=[])
        return res

    def visit_ListComp(self, node):
        return self.comp(node, node.elt, "list")

    def visit_GeneratorExp(self, node):
        r = self.comp(node, node.elt, "list")
        return self.call("geniter", r) if not isinstance(r, ast.GeneratorExp) else r

    def visit_SetComp(self, node):
        return self.comp(node, node.elt, "set")

    def visit_DictComp(self, node):
        return self.comp(node, (node.key, node.value), "dict")

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.func_depth:
            return self.call("mklist", node)
        return node

    def visit_BoolOp(self, node):
        # operands that would be evaluated lazily: keep native short-circuit
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        # text formatting: symbolic values have no digits
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str) and self.func_depth:
            return self.call("fmt", node.left, node.right)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and self.func_depth:
            r = self.call("is_", node.left, node.comparators[0])
            return ast.UnaryOp(op=ast.Not(), operand=r) if isinstance(node.ops[0], ast.IsNot) else r
        return node

    # ---- imports
    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in ("numpy", "math"):
                shim = "np" if a.name == "numpy" else "math"
                out.append(ast.parse("%s = %s.%s" % (a.asname or a.name, NBV, shim)).body[0])
            else:
                out.append(ast.Import(names=[a]))
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in ("numpy", "math"):
            shim = "np" if node.module == "numpy" else "math"
            return [ast.parse("%s = %s.%s.%s" % (a.asname or a.name, NBV, shim, a.name)).body[0] for a in node.names]
        return node


class Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path, runtime):
        self.fullname, self.path, self.runtime = fullname, path, runtime

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def path_stats(self, path):
        raise OSError

    def set_data(self, *a, **k):
        pass

    def get_code(self, fullname):
        src = self.get_data(self.path)
        tree = ast.parse(src, self.path)
        tree = Rewriter(self.fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, self.path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__[NBV] = self.runtime
        for b in BUILTINS:
            module.__dict__[b] = getattr(self.runtime, "b_" + b)
        exec(self.get_code(self.fullname), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, runtime, repo=REPO):
        self.runtime, self.repo = runtime, repo

    def find_spec(self, fullname, path, target=None):
        if fullname != "nbkode" and not fullname.startswith("nbkode."):
            return None
        base = os.path.join(self.repo, *fullname.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=Loader(fullname, p, self.runtime),
                    submodule_search_locations=[base] if pkg else None)
        return None


def install(runtime, repo=REPO):
    os.environ["NBKODE_NONUMBA"] = "1"
    sys.dont_write_bytecode = True
    for m in list(sys.modules):
        if m == "nbkode" or m.startswith("nbkode."):
            del sys.modules[m]
    sys.meta_path.insert(0, Finder(runtime, repo))
