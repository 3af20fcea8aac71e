"""Loads hwtypes from the repository's current source.

plain world:    the source as it is (used for replaying counterexamples).
symbolic world: the same source with calls, `not`, `in`, `is True` and
                f-strings routed through vf.runtime, so that symbolic values
                survive where CPython would demand a native one.  Nothing is
                replaced or modelled here: the code that runs is the code in
                the repository.
No .pyc is read or written in either world.
"""
import ast
import copy
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get('VF_REPO', '/repo')

DUNDERS = {'__bool__', '__int__', '__index__', '__hash__', '__str__', '__repr__',
           '__len__', '__float__', '__format__', '__contains__'}
NATIVE_CALLS = {'super', 'locals', 'globals', 'vars', 'exec', 'eval', 'dir', '__sx_call__'}


PURE_CALLS = {'int', 'bool', 'len', 'abs', 'min', 'max', 'pow'}


def pure(n):
    """evaluating it on plain numbers, texts and lists changes nothing (the names are checked at run time)"""
    if isinstance(n, ast.Constant):
        return isinstance(n.value, (int, str))
    if isinstance(n, ast.Name):
        return isinstance(n.ctx, ast.Load)
    if isinstance(n, ast.BinOp):
        return pure(n.left) and pure(n.right)
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.Subscript):
        return isinstance(n.ctx, ast.Load) and pure(n.value) and pure(n.slice)
    if isinstance(n, ast.Compare):
        return pure(n.left) and all(pure(c) for c in n.comparators)
    if isinstance(n, ast.IfExp):
        return pure(n.test) and pure(n.body) and pure(n.orelse)
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS and not n.keywords and all(pure(a) for a in n.args)
    return False


def names(*ns):
    return sorted({x.id for n in ns for x in ast.walk(n) if isinstance(x, ast.Name)})


def assigns(body):
    """[(name, expression)] when the statements only assign names from pure expressions, independently of each other"""
    out, done = [], set()
    for st in body:
        if isinstance(st, ast.Pass):
            continue
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            k, e = st.targets[0].id, st.value
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            k = st.target.id
            e = ast.BinOp(ast.Name(k, ast.Load()), st.op, st.value)
        else:
            return None
        if not pure(e) or k in done or done & set(names(e)):
            return None
        done.add(k)
        out.append((k, e))
    return out


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.depth = 0          # inside how many functions
        self.tmp = 0

    def _name(self, n):
        return ast.Name(n, ast.Load())

    def _thunk(self, e):
        a = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        return ast.Lambda(a, e)

    def _load(self, ns):
        return self._thunk(ast.Tuple([self._name(n) for n in ns], ast.Load()))

    def visit_IfExp(self, node):
        ok = pure(node.body) and pure(node.orelse) and self.depth
        ns = names(node.body, node.orelse) if ok else []
        self.generic_visit(node)
        if not ok:
            return node
        return ast.Call(self._name('__sx_ifexp__'), [node.test, self._load(ns), self._thunk(node.body), self._thunk(node.orelse)], [])

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == 'sum' and len(node.args) == 1 and not node.keywords and self.depth \
                and isinstance(node.args[0], ast.GeneratorExp) and len(node.args[0].generators) == 1 \
                and len(node.args[0].generators[0].ifs) == 1 and pure(node.args[0].elt):
            # sum(e for x in l if c): e or 0 for each x
            g = node.args[0]
            ns = names(g.elt)
            c = g.generators[0].ifs.pop()
            g.elt = ast.Tuple([c, self._load(ns), self._thunk(g.elt)], ast.Load())
            self.generic_visit(node)
            return ast.Call(self._name('__sx_call__'), [node.func, ast.Call(self._name('__sx_filter__'), node.args, [])], [])
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NATIVE_CALLS:
            return node
        return ast.Call(self._name('__sx_call__'), [node.func] + node.args, node.keywords)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.Call(self._name('__sx_not__'), [node.operand], [])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, rhs = node.ops[0], node.comparators[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = ast.Call(self._name('__sx_in__'), [node.left, rhs], [])
                if isinstance(op, ast.NotIn):
                    c = ast.Call(self._name('__sx_not__'), [c], [])
                return c
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(rhs, ast.Constant) \
                    and isinstance(rhs.value, bool):
                c = ast.Call(self._name('__sx_is__'), [node.left, rhs], [])
                if isinstance(op, ast.IsNot):
                    c = ast.Call(self._name('__sx_not__'), [c], [])
                return c
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.Call(self._name('__sx_fstr__'), parts, [])

    def visit_If(self, node):
        b, o = (assigns(node.body), assigns(node.orelse)) if self.depth else (None, None)
        merge = None
        if b is not None and o is not None and (b or o):
            targets = list(dict.fromkeys(k for k, _ in b + o))
            vals = []
            for br in (b, o):
                br = dict(br)
                vals.append([br.get(t, ast.Name(t, ast.Load())) for t in targets])
            ns = names(*vals[0], *vals[1])
            vals = [self._thunk(self.visit(copy.deepcopy(ast.Tuple(v, ast.Load())))) for v in vals]
            merge = targets, ns, vals
        self.generic_visit(node)
        if merge:
            targets, ns, vals = merge
            self.tmp += 1
            c, r = f'__sx_c{self.tmp}__', f'__sx_r{self.tmp}__'
            node.test, test = self._name(c), node.test
            return [
                ast.Assign([ast.Name(c, ast.Store())], test),
                ast.Assign([ast.Name(r, ast.Store())],
                           ast.Call(self._name('__sx_merge__'), [self._name(c), self._load(ns), *vals], [])),
                ast.If(ast.Compare(self._name(r), [ast.IsNot()], [ast.Constant(None)]),
                       [ast.Assign([ast.Tuple([ast.Name(t, ast.Store()) for t in targets], ast.Store())], self._name(r))],
                       [node])]
        if not node.orelse and all(isinstance(s, ast.Pass) for s in node.body):
            # a branch with no effect: evaluate the test, do not split on it
            return ast.Expr(ast.Call(self._name('__sx_novalue__'), [node.test], []))
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        depth, self.depth = self.depth, 0
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and s.name in DUNDERS:
                s._sx_dunder = True
        self.generic_visit(node)
        self.stack.pop()
        self.depth = depth
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        q = self.mod + ':' + '.'.join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        decos, node.decorator_list = node.decorator_list, []
        self.visit_arguments(node.args)
        self.depth += 1
        node.body = [y for x in node.body for y in self._several(self.visit(x))]
        self.depth -= 1
        node.decorator_list = decos
        self.stack.pop()
        enter = ast.Expr(ast.Call(self._name('__sx_enter__'), [ast.Constant(q)], []))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            i = 1
        node.body.insert(i, enter)
        if getattr(node, '_sx_dunder', False):
            node.decorator_list.insert(0, self._name('__sx_dunder__'))
        return node

    @staticmethod
    def _several(x):
        return x if isinstance(x, list) else [x]

    def visit_arguments(self, node):
        # annotations are not behaviour; defaults are
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, path, symbolic):
        self.path = path
        self.symbolic = symbolic

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if self.symbolic:
            from . import runtime
            tree = ast.fix_missing_locations(T(module.__name__).visit(tree))
            module.__dict__.update(runtime.HOOKS)
        module.__file__ = self.path
        exec(compile(tree, self.path, 'exec'), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, symbolic):
        self.symbolic = symbolic

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'hwtypes' and not fullname.startswith('hwtypes.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.util.spec_from_file_location(
                fullname, init, loader=Loader(init, self.symbolic), submodule_search_locations=[base])
            return spec
        f = base + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, self.symbolic))
        return None


def install(symbolic):
    sys.dont_write_bytecode = True
    assert not any(m == 'hwtypes' or m.startswith('hwtypes.') for m in sys.modules)
    sys.meta_path.insert(0, Finder(symbolic))
