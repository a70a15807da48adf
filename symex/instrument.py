"""Loads Python source with its operations routed through the symbolic engine.

The AST of the current source is rewritten so that calls, subscripts, '%'
formatting, membership and identity tests and f-strings go through helpers
(which do the ordinary thing on ordinary values); everything else, including
all control flow, is the interpreter's own.  Function entries are recorded.
"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

KEEP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec",
              "__import__"}

PURE_BUILTINS = {"range", "len", "int", "zip", "min", "max", "abs", "divmod",
                 "AssertionError", "ValueError", "list", "tuple", "reversed",
                 "enumerate", "bool", "sum", "pow", "None", "True", "False",
                 "__sx__", "ZeroDivisionError"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _h(attr):
    return ast.Attribute(value=_name("__sx__"), attr=attr, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, strip_assert=False, is_harness=False):
        self.mod = modname
        self.stack = []
        self.strip_assert = strip_assert
        self.is_harness = is_harness
        self.functions = {}

    # -- functions
    def _func(self, node):
        self.stack.append(node.name)
        qn = ".".join(self.stack)
        node.decorator_list = [
            ast.Call(func=_h("deco"), args=[self.visit(d)], keywords=[])
            for d in node.decorator_list]
        node.args = self.visit(node.args)
        src = ast.dump(node)
        self.functions[self.mod + ":" + qn] = hashlib.sha256(
            src.encode()).hexdigest()[:12]
        body = []
        for st in node.body:
            r = self.visit(st)
            if r is None:
                continue
            body.extend(r if isinstance(r, list) else [r])
        # after a docstring
        k = 1 if (body and isinstance(body[0], ast.Expr) and
                  isinstance(body[0].value, ast.Constant) and
                  isinstance(body[0].value.value, str)) else 0
        enter = ast.Expr(ast.Call(func=_h("enter"), args=[
            ast.Constant(self.mod + ":" + qn)], keywords=[]))
        body.insert(k, enter)
        node.body = body
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        pure = (not self.stack and not self.is_harness and
                node.name in self.pure)
        orig = None
        if pure:
            import copy
            orig = copy.deepcopy(node)
            orig.name = "__sxpure_" + node.name
            orig.decorator_list = []
        out = self._func(node)
        if orig is not None:
            wrap = ast.Assign(
                targets=[ast.Name(id=node.name, ctx=ast.Store())],
                value=ast.Call(func=_h("pure"), args=[
                    _name("__sxpure_" + node.name), _name(node.name),
                    ast.Constant(self.mod + ":" + node.name)], keywords=[]))
            return [orig, out, wrap]
        return out

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    # -- statements
    def visit_Assert(self, node):
        if self.strip_assert:
            return ast.Pass()
        self.generic_visit(node)
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(func=_h("tick"), args=[],
                                              keywords=[])))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(func=_h("tick"), args=[],
                                              keywords=[])))
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = _name("Exception")
        elif isinstance(node.type, ast.Name) and \
                node.type.id == "BaseException":
            node.type = _name("Exception")
        return node

    def visit_ImportFrom(self, node):
        return node

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in KEEP_CALLS:
            self.generic_visit(node)
            return node
        if isinstance(node.func, ast.Attribute) and \
                isinstance(node.func.value, ast.Name) and \
                node.func.value.id == "__sx__":
            return node
        self.generic_visit(node)
        return ast.Call(func=_h("call"), args=[node.func] + node.args,
                        keywords=node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(func=_h("mod"), args=[node.left, node.right],
                            keywords=[])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            f = {ast.In: "in_", ast.NotIn: "notin", ast.Is: "is_",
                 ast.IsNot: "isnot"}.get(type(op))
            if f:
                return ast.Call(func=_h(f), args=[node.left,
                                                  node.comparators[0]],
                                keywords=[])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            idx = node.slice
            if isinstance(idx, ast.Slice):
                if all(x is None or isinstance(x, ast.Constant)
                       for x in (idx.lower, idx.upper, idx.step)):
                    return node
                none = ast.Constant(None)
                idx = ast.Call(func=_name("slice"), args=[
                    idx.lower or none, idx.upper or none, idx.step or none],
                    keywords=[])
            elif isinstance(idx, ast.Constant) and \
                    isinstance(idx.value, int):
                return node
            return ast.Call(func=_h("sub"), args=[node.value, idx],
                            keywords=[])
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript) and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.Expr(ast.Call(func=_h("store"), args=[
                node.value, t.value, t.slice], keywords=[]))
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            if isinstance(node.target, ast.Name):
                return ast.Assign(targets=[node.target], value=ast.Call(
                    func=_h("mod"), args=[_name(node.target.id), node.value],
                    keywords=[]))
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant("")
                parts.append(ast.Tuple(elts=[
                    v.value, ast.Constant(v.conversion), spec],
                    ctx=ast.Load()))
        return ast.Call(func=_h("fstr"), args=parts, keywords=[])

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        return node


def pure_functions(tree):
    """Names of module-level functions that only use their arguments, safe
    builtins and each other (concrete calls may run uninstrumented)."""
    fs = dict((n.name, n) for n in tree.body
              if isinstance(n, ast.FunctionDef))
    cand = {}
    for name, n in fs.items():
        if n.decorator_list:
            continue
        loc = set(a.arg for a in n.args.args)
        ok = not (n.args.vararg or n.args.kwarg or n.args.kwonlyargs)
        used = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Store):
                    loc.add(x.id)
                else:
                    used.add(x.id)
            elif isinstance(x, (ast.Attribute, ast.Global, ast.Nonlocal,
                                ast.Yield, ast.YieldFrom, ast.Import,
                                ast.ImportFrom, ast.Lambda, ast.Try)):
                if isinstance(x, ast.Attribute) and x.attr in (
                        "append", "insert", "extend", "bit_length"):
                    continue
                ok = False
        if ok:
            cand[name] = (loc, used)
    changed = True
    while changed:
        changed = False
        for name in list(cand):
            loc, used = cand[name]
            if any(u not in loc and u not in PURE_BUILTINS and u not in cand
                   for u in used):
                del cand[name]
                changed = True
    return set(cand)


class _FixPure(ast.NodeTransformer):
    """Inside __sxpure_f, calls to pure functions go to their raw versions."""

    def __init__(self, names):
        self.names = names

    def visit_Name(self, node):
        if node.id in self.names and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Name(id="__sxpure_" + node.id,
                                              ctx=ast.Load()), node)
        return node


def compile_source(src, filename, modname, strip_assert=False,
                   is_harness=False):
    tree = ast.parse(src, filename)
    rw = Rewriter(modname, strip_assert, is_harness)
    rw.pure = set() if is_harness else pure_functions(tree)
    tree = rw.visit(tree)
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith("__sxpure_"):
            _FixPure(rw.pure).visit(n)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True), rw.functions


class Loader(importlib.abc.Loader):
    def __init__(self, finder, path, is_pkg, is_harness):
        self.finder, self.path = finder, path
        self.is_pkg, self.is_harness = is_pkg, is_harness

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        code, funcs = compile_source(
            src, self.path, module.__name__,
            self.finder.strip_assert and not self.is_harness,
            self.is_harness)
        if not self.is_harness:
            self.finder.functions.update(funcs)
        module.__dict__["__sx__"] = self.finder.sx
        module.__dict__.setdefault("__file__", self.path)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Instrumented import of jwkest (from /repo/src) and of the harnesses."""

    def __init__(self, roots, sx, strip_assert=False):
        self.roots = roots          # [(prefix, dir, is_harness)]
        self.sx = sx
        self.strip_assert = strip_assert
        self.functions = {}

    def find_spec(self, fullname, path=None, target=None):
        for prefix, root, is_h in self.roots:
            if fullname == prefix or fullname.startswith(prefix + "."):
                rel = fullname.replace(".", os.sep)
                base = os.path.join(root, rel)
                if os.path.isdir(base) and os.path.exists(
                        os.path.join(base, "__init__.py")):
                    p = os.path.join(base, "__init__.py")
                    spec = importlib.machinery.ModuleSpec(
                        fullname, Loader(self, p, True, is_h),
                        origin=p, is_package=True)
                    spec.submodule_search_locations = [base]
                    return spec
                p = base + ".py"
                if os.path.exists(p):
                    return importlib.machinery.ModuleSpec(
                        fullname, Loader(self, p, False, is_h), origin=p)
        return None


# -- module state snapshot: every path starts from the state after import ------

_MUT = (dict, list, set, bytearray)


class Snapshot(object):
    def __init__(self, prefix="jwkest"):
        self.mods = [m for n, m in sorted(sys.modules.items())
                     if n == prefix or n.startswith(prefix + ".")]
        self.saved = {}
        self.order = []
        for m in self.mods:
            self._save(m.__dict__, top=True)

    def _is_ours(self, o):
        m = getattr(type(o), "__module__", "") or ""
        return m == "jwkest" or m.startswith("jwkest.")

    def _save(self, o, top=False):
        if id(o) in self.saved:
            return
        if isinstance(o, type):
            if (o.__module__ or "").split(".")[0] != "jwkest":
                return
            d = dict(o.__dict__)
            self.saved[id(o)] = (o, "class", d)
            self.order.append(id(o))
            for v in d.values():
                self._save(v)
        elif isinstance(o, types.FunctionType):
            if o.__dict__ and (o.__module__ or "").startswith("jwkest"):
                self._save(o.__dict__)
            for c in (o.__defaults__ or ()):
                self._save(c)
        elif isinstance(o, dict):
            self.saved[id(o)] = (o, "dict", dict(o))
            self.order.append(id(o))
            for k, v in list(o.items()):
                if k in ("__builtins__", "__sx__"):
                    continue
                self._save(v)
        elif isinstance(o, list):
            self.saved[id(o)] = (o, "list", list(o))
            self.order.append(id(o))
            for v in o:
                self._save(v)
        elif isinstance(o, (set, bytearray)):
            self.saved[id(o)] = (o, "set", type(o)(o))
            self.order.append(id(o))
        elif isinstance(o, tuple):
            self.saved[id(o)] = (o, "none", None)
            for v in o:
                self._save(v)
        elif self._is_ours(o) and hasattr(o, "__dict__"):
            self._save(o.__dict__)

    def restore(self):
        for i in self.order:
            o, kind, c = self.saved[i]
            if kind == "dict":
                if len(o) != len(c) or any(
                        o.get(k, _MUT) is not v for k, v in c.items()):
                    o.clear()
                    o.update(c)
            elif kind == "list":
                o[:] = c
            elif kind == "set":
                if isinstance(o, set):
                    o.clear()
                    o.update(c)
                else:
                    o[:] = c
            elif kind == "class":
                cur = o.__dict__
                for k in list(cur):
                    if k not in c:
                        delattr(o, k)
                for k, v in c.items():
                    if cur.get(k, _MUT) is not v:
                        try:
                            setattr(o, k, v)
                        except (AttributeError, TypeError):
                            pass
