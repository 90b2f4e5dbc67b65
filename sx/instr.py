"""AST instrumentation and the import hook that loads the real sources symbolically."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

LEAVE = {"super", "locals", "globals", "vars", "eval", "exec", "__import__", "dir"}


def _sx(name):
    return ast.Attribute(ast.Name("_sx", ast.Load()), name, ast.Load())


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.funcs = []

    # leave annotations alone
    def _func(self, node):
        self.funcs.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        node.body = self._body(node.body)
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in LEAVE:
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Attribute) and not (
            f.attr.startswith("__") and not f.attr.endswith("__")
        ):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                new = ast.Call(_sx("call"), [self.visit(f)] + args, kws)
            else:
                new = ast.Call(_sx("callm"), [self.visit(f.value), ast.Constant(f.attr)] + args, kws)
        else:
            new = ast.Call(_sx("call"), [self.visit(f)] + args, kws)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            name = {ast.In: "in_", ast.NotIn: "notin", ast.Is: "is_", ast.IsNot: "isnot"}.get(type(op))
            if name in ("is_", "isnot"):
                r = node.comparators[0]
                if isinstance(r, ast.Constant) and r.value is None:
                    return node
            if name:
                return ast.copy_location(
                    ast.Call(_sx(name), [node.left, node.comparators[0]], []), node
                )
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(_sx("mod"), [node.left, node.right], []), node)
        if isinstance(node.op, ast.Add):
            return ast.copy_location(ast.Call(_sx("add"), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(
                    ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load())
                )
        return ast.copy_location(ast.Call(_sx("fstr"), parts, []), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            idx = node.slice
            if isinstance(idx, ast.Slice):
                none = ast.Constant(None)
                idx = ast.Call(
                    ast.Name("slice", ast.Load()),
                    [idx.lower or none, idx.upper or none, idx.step or none],
                    [],
                )
            elif isinstance(idx, ast.Tuple) and any(
                isinstance(e, (ast.Slice, ast.Starred)) for e in idx.elts
            ):
                return node
            return ast.copy_location(ast.Call(_sx("getitem"), [node.value, idx], []), node)
        node.value = ast.Call(_sx("lv"), [node.value], [])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([ast.Constant(1), v, v], ast.Load()))
            else:
                items.append(ast.Tuple([ast.Constant(0), k, v], ast.Load()))
        # evaluate ** operands once: Tuple(1, v, None)
        for it, k in zip(items, node.keys):
            if k is None:
                it.elts[2] = ast.Constant(None)
        return ast.copy_location(ast.Call(_sx("mkdict"), items, []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return ast.copy_location(
            ast.Call(_sx("mkset"), [ast.List(node.elts, ast.Load())], []), node
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(ast.Call(_sx("dictcomp"), [gen], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(node.elt, node.generators)
        return ast.copy_location(ast.Call(_sx("mkset"), [gen], []), node)

    def visit_comprehension(self, node):
        self.generic_visit(node)
        if not isinstance(node.iter, (ast.List, ast.Tuple, ast.Constant)):
            node.iter = ast.copy_location(ast.Call(_sx("it"), [node.iter], []), node.iter)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not isinstance(node.iter, (ast.List, ast.Tuple, ast.Constant)):
            node.iter = ast.copy_location(ast.Call(_sx("it"), [node.iter], []), node.iter)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            t = node.target
            return ast.copy_location(
                ast.Assign(
                    [t],
                    ast.Call(_sx("mod"), [ast.Name(t.id, ast.Load()), node.value], []),
                ),
                node,
            )
        return node

    def visit_MatchValue(self, node):
        return node


INSTRUMENTED = {}  # module name -> (file, functions)


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    ins = Instrument()
    tree = ins.visit(tree)
    ast.fix_missing_locations(tree)
    INSTRUMENTED[modname] = (filename, ins.funcs)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        return transform(data, path, self.name)

    def get_code(self, fullname):  # never use or write bytecode caches
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        from . import rt

        module.__dict__["_sx"] = rt
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, want):
        self.want = want

    def find_spec(self, name, path, target=None):
        if not self.want(name):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


DEPS = {
    "ipaddress",
    "urllib.parse",
    "email._parseaddr",
    "email.utils",
    "json.decoder",
    "json.scanner",
}
LATER = {"thor.http.common", "babel.dates"}  # only imported by what needs it
PREFIXES = ("httplint", "http_sf", "harness")


def want(name):
    return name in DEPS or name in LATER or name.split(".")[0] in PREFIXES


_installed = False


def install(repo="/repo"):
    global _installed
    if _installed:
        return
    _installed = True
    from . import rt  # noqa: F401

    site = "/opt/venv/lib/python3.12/site-packages"
    for p in [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), repo]:
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if site not in sys.path:
        sys.path.append(site)
    sys.setrecursionlimit(6000)
    sys.meta_path.insert(0, Finder(want))
    for d in DEPS:
        sys.modules.pop(d, None)
    for n in [m for m in sys.modules if m.split(".")[0] in PREFIXES]:
        sys.modules.pop(n, None)
    for d in LATER:
        sys.modules.pop(d, None)
    for d in sorted(DEPS):
        importlib.import_module(d)
    import json

    new = sys.modules["json.decoder"].JSONDecodeError
    json.JSONDecoder.decode.__globals__["JSONDecodeError"] = new
    json.JSONDecodeError = new
