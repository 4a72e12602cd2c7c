"""Source-to-source transformation and module loading.

Modules of the repository (and the harnesses) are read from disk, their AST
is rewritten so that operations Python would otherwise resolve inside C code
(subscripts, membership, formatting, builtin calls) go through sx.rt, and the
result is executed by the ordinary interpreter with symbolic inputs.
"""
import ast
import builtins
import os
import sys
import types

from . import rt

NO_CALL = {"super", "locals", "globals", "eval", "exec", "vars", "dir",
           "__import__"}


PURE_METHODS = {
    "islower", "isupper", "isdigit", "isalpha", "isalnum", "isspace",
    "isdecimal", "isnumeric", "startswith", "endswith", "strip", "lstrip",
    "rstrip", "upper", "lower", "find", "rfind", "count", "split", "replace",
    "keys", "values", "items", "get", "partition", "rpartition"}
PURE_CALLS = {"len", "int", "str", "ord", "chr", "abs", "bool", "range",
              "enumerate", "zip", "sorted", "list", "tuple", "set",
              "isinstance", "reversed", "min", "max"}


def pure(node):
    """A generator expression that calls nothing with side effects."""
    for n in ast.walk(node):
        if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield,
                          ast.YieldFrom)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS:
                continue
            return False
    return True


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def call(fn, *args):
    return ast.Call(func=name(fn), args=list(args), keywords=[])


class Xform(ast.NodeTransformer):

    def __init__(self, modname):
        self.stack = [modname]
        self.tmp = 0

    def fresh(self):
        self.tmp += 1
        return "_sx_t%d" % self.tmp

    # -- definitions
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self._body(node.body)
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.pop()
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def _func(self, node):
        self.stack.append(node.name)
        q = ".".join(self.stack)
        node.args = self._args(node.args)
        body = self._body(node.body)
        mark = ast.Expr(call("_sx_enter", ast.Constant(q)))
        doc = (body and isinstance(body[0], ast.Expr) and
               isinstance(body[0].value, ast.Constant) and
               isinstance(body[0].value.value, str))
        body.insert(1 if doc else 0, mark)
        node.body = body
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.returns = None
        self.stack.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None
                         for d in a.kw_defaults]
        for x in a.args + a.posonlyargs + a.kwonlyargs + \
                [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        return a

    def visit_Lambda(self, node):
        node.args = self._args(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            if isinstance(node.target, ast.Name):
                # keep class annotations (dataclasses) untouched
                return node
            return ast.copy_location(ast.Pass(), node)
        if isinstance(node.target, ast.Name):
            node.value = self.visit(node.value)
            return node
        return self.visit(ast.copy_location(
            ast.Assign(targets=[node.target], value=node.value), node))

    # -- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return self._cmp(node.left, node.ops[0], node.comparators[0],
                             node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        # chained comparison with membership: bind operands with :=
        parts = []
        left = node.left
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1:
                t = self.fresh()
                bound = ast.NamedExpr(target=ast.Name(id=t, ctx=ast.Store()),
                                      value=right)
                parts.append(self._cmp(left, op, bound, node))
                left = name(t)
            else:
                parts.append(self._cmp(left, op, right, node))
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    def _cmp(self, left, op, right, node):
        if isinstance(op, ast.In):
            r = call("_sx_in", left, right)
        elif isinstance(op, ast.NotIn):
            r = call("_sx_notin", left, right)
        elif isinstance(op, (ast.Is, ast.IsNot)) and (
                _boolconst(left) or _boolconst(right)):
            r = call("_sx_is", left, right,
                     ast.Constant(isinstance(op, ast.IsNot)))
        else:
            r = ast.Compare(left=left, ops=[op], comparators=[right])
        return ast.copy_location(r, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(call("_sx_mod", node.left, node.right),
                                     node)
        return node

    def _key(self, sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(None)
            return call("_sx_slice", sl.lower or none, sl.upper or none,
                        sl.step or none)
        if isinstance(sl, ast.Tuple):
            sl.elts = [self._key(e) for e in sl.elts]
        return sl

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                call("_sx_getitem", node.value, self._key(node.slice)), node)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and (f.id in NO_CALL or
                                        f.id.startswith("_sx_")):
            self.generic_visit(node)
            return node
        fold = isinstance(f, ast.Name) and f.id in ("any", "all") and \
            len(node.args) == 1 and not node.keywords and \
            isinstance(node.args[0], ast.GeneratorExp) and \
            pure(node.args[0])
        self.generic_visit(node)
        if fold:
            return ast.copy_location(
                call("_sx_fold", node.func, node.args[0]), node)
        if isinstance(f, ast.Attribute) and f.attr == "join" and \
                len(node.args) == 1 and not node.keywords:
            # sep.join(text.split(...)): one operation
            a = node.args[0]
            if isinstance(a, ast.Call) and not a.keywords and a.args and \
                    isinstance(a.func, ast.Name) and \
                    a.func.id == "_sx_call" and len(a.args) <= 2 and \
                    isinstance(a.args[0], ast.Attribute) and \
                    a.args[0].attr == "split" and \
                    not any(isinstance(x, ast.Starred) for x in a.args):
                return ast.copy_location(
                    call("_sx_joinsplit", f.value, a.args[0].value,
                         *a.args[1:]), node)
        return ast.copy_location(
            ast.Call(func=name("_sx_call"), args=[node.func] + node.args,
                     keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec \
                    else ast.Constant("")
                parts.append(ast.Tuple(
                    elts=[self.visit(v.value), ast.Constant(v.conversion),
                          spec], ctx=ast.Load()))
        return ast.copy_location(call("_sx_fstr", *parts), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(
            call("_sx_set", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            call("_sx_set", ast.GeneratorExp(elt=node.elt,
                                             generators=node.generators)),
            node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            call("_sx_dict", ast.GeneratorExp(
                elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                generators=node.generators)), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or \
                all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return ast.copy_location(
            call("_sx_dict", ast.List(
                elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                      for k, v in zip(node.keys, node.values)],
                ctx=ast.Load())), node)

    # -- statements with subscript targets
    def visit_Assign(self, node):
        value = self.visit(node.value)
        if not any(_has_sub(t) for t in node.targets):
            node.value = value
            node.targets = [self.visit(t) for t in node.targets]
            return node
        out = []
        if len(node.targets) > 1:
            t = self.fresh()
            out.append(ast.Assign(
                targets=[ast.Name(id=t, ctx=ast.Store())], value=value))
            value = name(t)
        for tgt in node.targets:
            out.extend(self._store(tgt, value))
        for s in out:
            ast.copy_location(s, node)
        return out

    def _store(self, tgt, value):
        if isinstance(tgt, ast.Subscript):
            t = self.fresh()
            obj = self.visit(tgt.value)
            key = self._key(self.visit(tgt.slice))
            return [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())],
                               value=value),
                    ast.Expr(call("_sx_setitem", obj, key, name(t)))]
        if isinstance(tgt, (ast.Tuple, ast.List)) and _has_sub(tgt):
            post = []
            elts = []
            for e in tgt.elts:
                star = isinstance(e, ast.Starred)
                inner = e.value if star else e
                if _has_sub(inner):
                    t = self.fresh()
                    nm = ast.Name(id=t, ctx=ast.Store())
                    elts.append(ast.Starred(value=nm, ctx=ast.Store())
                                if star else nm)
                    post.extend(self._store(inner, name(t)))
                else:
                    elts.append(self.visit(e))
            new = type(tgt)(elts=elts, ctx=ast.Store())
            return [ast.Assign(targets=[new], value=value)] + post
        return [ast.Assign(targets=[self.visit(tgt)], value=value)]

    def visit_AugAssign(self, node):
        op = type(node.op).__name__
        value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            to, tk = self.fresh(), self.fresh()
            obj = self.visit(node.target.value)
            key = self._key(self.visit(node.target.slice))
            out = [
                ast.Assign(targets=[ast.Name(id=to, ctx=ast.Store())],
                           value=obj),
                ast.Assign(targets=[ast.Name(id=tk, ctx=ast.Store())],
                           value=key),
                ast.Expr(call("_sx_setitem", name(to), name(tk),
                              call("_sx_iop", ast.Constant(op),
                                   call("_sx_getitem", name(to), name(tk)),
                                   value)))]
            for s in out:
                ast.copy_location(s, node)
            return out
        if op == "Mod":
            load = ast.Name(id=node.target.id, ctx=ast.Load()) \
                if isinstance(node.target, ast.Name) else \
                ast.Attribute(value=self.visit(node.target.value),
                              attr=node.target.attr, ctx=ast.Load())
            return ast.copy_location(ast.Assign(
                targets=[node.target], value=call("_sx_mod", load, value)),
                node)
        node.value = value
        node.target = self.visit(node.target)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(call("_sx_delitem", self.visit(t.value),
                                         self._key(self.visit(t.slice)))))
            else:
                out.append(ast.Delete(targets=[self.visit(t)]))
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_For(self, node):
        if _has_sub(node.target):
            t = self.fresh()
            pre = self._store(node.target, name(t))
            node.iter = self.visit(node.iter)
            node.target = ast.Name(id=t, ctx=ast.Store())
            node.body = [ast.copy_location(p, node) for p in pre] + \
                self._body(node.body)
            node.orelse = self._body(node.orelse) if node.orelse else []
            return node
        self.generic_visit(node)
        return node


def _has_sub(t):
    if isinstance(t, ast.Subscript):
        return True
    if isinstance(t, (ast.Tuple, ast.List)):
        return any(_has_sub(e) for e in t.elts)
    if isinstance(t, ast.Starred):
        return _has_sub(t.value)
    return False


def _boolconst(n):
    return isinstance(n, ast.Constant) and isinstance(n.value, bool)


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Xform(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


_CODE = {}


def compiled(path, modname):
    key = (path, modname)
    c = _CODE.get(key)
    if c is None:
        src = b""
        if os.path.isfile(path):
            with open(path, "rb") as f:
                src = f.read()
        c = _CODE[key] = transform(src, path, modname)
    return c


class Loader:
    """Loads modules of the repository and the harnesses, transformed.

    Each path uses a fresh Loader, so module-level state never leaks from one
    path into another; compiled code is cached."""

    def __init__(self, roots, extra=None):
        self.roots = roots          # {"h800": "/repo/h800", "props": ...}
        self.modules = {}
        self.stubs = extra or {}

    def _find(self, modname):
        parts = modname.split(".")
        root = self.roots.get(parts[0])
        if root is None:
            return None
        p = os.path.join(root, *parts[1:])
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            return init, True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None

    def load(self, modname):
        if modname in self.modules:
            return self.modules[modname]
        found = self._find(modname)
        if found is None:
            raise ModuleNotFoundError("No module named %r" % modname,
                                      name=modname)
        path, ispkg = found
        if "." in modname:
            parent = self.load(modname.rpartition(".")[0])
        m = self._exec(modname, path, ispkg)
        if "." in modname:
            setattr(parent, modname.rpartition(".")[2], m)
        return m

    def _exec(self, modname, path, ispkg=False):
        m = types.ModuleType(modname)
        m.__file__ = path
        m.__package__ = modname if ispkg else modname.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.modules[modname] = m
        d = m.__dict__
        d.update(rt.HELPERS)
        d["_sx_slice"] = slice
        bd = dict(builtins.__dict__)
        bd["__import__"] = self._import
        d["__builtins__"] = bd
        try:
            exec(compiled(path, modname), d)
        except BaseException:
            self.modules.pop(modname, None)
            raise
        return m

    def load_path(self, modname, path):
        """Load a script by path under a module name."""
        return self._exec(modname, path)

    def _import(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            nm = pkg + ("." + nm if nm else "")
        top = nm.split(".")[0]
        if top in self.stubs:
            return self.stubs[top]
        if top not in self.roots:
            return __import__(nm, globals, locals, fromlist, 0)
        m = self.load(nm)
        if not fromlist:
            return self.load(top)
        for f in fromlist:
            if f != "*" and not hasattr(m, f):
                try:
                    self.load(nm + "." + f)
                except ModuleNotFoundError:
                    pass
        return m
