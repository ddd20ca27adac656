"""Import hook: loads the packages under test from the repository's current source, instrumented for symbolic values.

The source is parsed afresh on every run. The rewriting keeps the program's meaning on ordinary values; it only routes
the operations Python gives no overloading hook for (calls of C builtins, str % x, f-strings, `in`, indexing) through
functions of runtime.py, which behave symbolically when an operand is a proxy (or a collection keyed by proxies).
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from . import runtime

PACKAGES = ('cache_dependencies', 'django_cache_dependencies', 'cache_tagging')
SKIP_CALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', 'compile', '__import__', 'print'}
SET_OPS = (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)
FUNCTIONS = {}      # "module:qualname" -> number of calls in this process


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


def _plain_chain(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


def _as_load(n):
    n = ast.parse(ast.unparse(n), mode='eval').body
    return n


def _plain_methods(root):
    """Names of methods defined in the packages under test that no builtin type intercepted by runtime.call shares."""
    names = set(['append', 'items', 'values', 'keys', 'extend'])
    for pkg in PACKAGES:
        for d, _, files in os.walk(os.path.join(root, pkg)):
            if 'tests' in d or 'testproject' in d:
                continue
            for f in files:
                if f.endswith('.py'):
                    with open(os.path.join(d, f), 'rb') as h:
                        tree = ast.parse(h.read())
                    names.update(n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef))
    return names - runtime.HOT_NAMES


PLAIN_METHODS = set()


class Rewriter(ast.NodeTransformer):
    def __init__(self, module, tree):
        self.module = module
        self.scope = []
        self.temps = 0
        # calls that certainly reach Python code under test (or harmless container methods) stay direct calls
        self.plain_names, self.modules = set(), set()
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.plain_names.add(n.name)
            elif isinstance(n, ast.ImportFrom) and n.module and (n.level or n.module.split('.')[0] in PACKAGES):
                self.plain_names.update(a.asname or a.name for a in n.names)
        rebound = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                self.modules.update((a.asname or a.name.split('.')[0]) for a in n.names
                                    if a.name.split('.')[0] not in PACKAGES)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                rebound.add(n.id)
            elif isinstance(n, ast.arg):
                rebound.add(n.arg)
        self.plain_names -= rebound

    # functions are counted, so that evidence lists what was executed symbolically
    def _function(self, node):
        self.scope.append(node.name)
        qual = '%s:%s' % (self.module, '.'.join(self.scope))
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        mark = ast.Expr(_call('__sx_enter__', ast.Constant(value=qual, kind=None)))
        doc = body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str)
        body.insert(1 if doc else 0, mark)
        node.body = body
        self.scope.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in SKIP_CALL or node.func.id in self.plain_names):
            return node
        if isinstance(node.func, ast.Attribute) and node.func.attr in PLAIN_METHODS:
            root = node.func.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if not (isinstance(root, ast.Name) and root.id in self.modules):
                return node
        return ast.Call(func=_name('__sx_call__'), args=[node.func] + node.args, keywords=node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call('__sx_mod__', node.left, node.right)
        if isinstance(node.op, SET_OPS):
            return _call('__sx_setop__', ast.Constant(value=type(node.op).__name__, kind=None), node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, SET_OPS + (ast.Mod,)) and _plain_chain(node.target):
            return ast.copy_location(ast.Assign(targets=[node.target], value=_call(
                '__sx_iop__', ast.Constant(value=type(node.op).__name__, kind=None), _as_load(node.target), node.value)), node)
        return node

    # collections keyed by symbolic values: equal keys are one key
    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call('__sx_set__', ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return _call('__sx_dict__', ast.ListComp(elt=pair, generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return _call('__sx_set__', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return _call('__sx_dict__', ast.List(elts=[
            _call('__sx_all__', v) if k is None else ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)], ctx=ast.Load()))

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = ast.Constant(value=chr(v.conversion) if v.conversion > 0 else None, kind=None)
                spec = v.format_spec or ast.Constant(value='', kind=None)
                parts.append(ast.Tuple(elts=[v.value, conv, spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return _call('__sx_fstr__', ast.Tuple(elts=parts, ctx=ast.Load()))

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = _call('__sx_in__', node.left, node.comparators[0])
            return r if isinstance(node.ops[0], ast.In) else ast.UnaryOp(op=ast.Not(), operand=r)
        if len(node.ops) == 1 and not isinstance(node.ops[0], (ast.Is, ast.IsNot)) \
                and not isinstance(node.left, ast.Constant) and not isinstance(node.comparators[0], ast.Constant):
            return _call('__sx_cmp__', ast.Constant(value=type(node.ops[0]).__name__, kind=None), node.left,
                         node.comparators[0])
        return node

    def visit_Subscript(self, node):
        chain = _plain_chain(node.value)
        base = node.value
        self.generic_visit(node)
        idx = node.slice
        if isinstance(idx, ast.Index):      # Python < 3.9 layout
            idx = idx.value
        if isinstance(idx, (ast.Slice, ast.Constant)) or type(idx).__name__ == 'ExtSlice':
            return node
        if isinstance(node.ctx, ast.Load):
            return _call('__sx_item__', node.value, idx)
        if chain:
            node.slice = _call('__sx_key__', _as_load(base), idx)
        elif any(self.scope):
            self.temps += 1
            held = '__sx_t%d__' % self.temps
            node.value = ast.NamedExpr(target=ast.Name(id=held, ctx=ast.Store()), value=node.value)
            node.slice = _call('__sx_key__', _name(held), idx)
        return node


def rewrite(source, module, path):
    tree = ast.parse(source, path)
    tree = Rewriter(module, tree).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


def enter(qual):
    FUNCTIONS[qual] = FUNCTIONS.get(qual, 0) + 1


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = f.read()
        return rewrite(src, fullname, path)

    def exec_module(self, module):
        d = module.__dict__
        d['__sx_enter__'] = enter
        d['__sx_call__'] = runtime.call
        d['__sx_mod__'] = runtime.mod
        d['__sx_fstr__'] = runtime.fstr
        d['__sx_in__'] = runtime.contains
        d['__sx_item__'] = runtime.item
        d['__sx_key__'] = runtime.key
        d['__sx_setop__'] = runtime.setop
        d['__sx_iop__'] = runtime.iop
        d['__sx_cmp__'] = runtime.compare
        d['__sx_set__'] = runtime.make_set
        d['__sx_dict__'] = runtime.make_dict
        d['__sx_all__'] = runtime.All
        exec(self.get_code(module.__name__), d)


class Finder(importlib.abc.MetaPathFinder):
    """Instruments the packages under test, except their tests and the benchmark command."""

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in PACKAGES or '.tests' in fullname or '.testproject' in fullname:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return spec
        loader = Loader(fullname, spec.origin)
        new = importlib.util.spec_from_file_location(
            fullname, spec.origin, loader=loader,
            submodule_search_locations=spec.submodule_search_locations)
        return new


def install(root):
    PLAIN_METHODS.update(_plain_methods(root))
    sys.meta_path.insert(0, Finder())
