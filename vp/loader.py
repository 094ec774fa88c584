"""Loads the package under verification from its current source.

Mechanical AST rewrite (all that differs from the file on disk):
  * dict / list / set displays and comprehensions -> engine containers
  * `for x in E` -> `for x in _vp_rt.loop(E, <names assigned in the loop>)`
  * `S.format(...)`, f-strings and `S.join(...)` -> engine string builders
  * `a is b` between engine objects compares heap references
  * `a == b`, `a != b`, `a in b` keep their meaning (engine values overload them)
  * docstrings dropped
Builtins and third-party modules are replaced by models (models.py).
Nothing else is dropped or changed.
"""
import ast, os, sys, types, builtins
from . import core
from .core import E, Unsupported


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)


def assigned(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return sorted(v.names)


def vp(name):
    return ast.Attribute(ast.Name('_vp_rt', ast.Load()), name, ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.stack = []          # lists of hoisted defs per enclosing function
        self.lam = 0
        self.n = 0
        self.infunc = 0

    # ---- functions
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        self.stack.append([])
        lam, self.lam = self.lam, 0
        self.infunc += 1
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        self.infunc -= 1
        self.lam = lam
        hoisted = self.stack.pop()
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            body = body[1:] or [ast.Pass()]
        node.body = hoisted + body
        return node

    def visit_Lambda(self, node):
        self.lam += 1
        self.generic_visit(node)
        self.lam -= 1
        return node

    def visit_ClassDef(self, node):
        st, self.stack = self.stack, self.stack + [None]
        infunc, self.infunc = self.infunc, 0
        self.generic_visit(node)
        self.stack = st
        self.infunc = infunc
        return node

    # ---- loops
    def visit_For(self, node):
        names = assigned(node.body + [ast.Expr(node.target)]) if False else assigned(
            node.body + [ast.Assign([node.target], ast.Constant(None))])
        self.generic_visit(node)
        if not self.infunc:
            return node
        node.iter = ast.Call(vp('loop'), [node.iter, ast.Tuple(
            [ast.Constant(n) for n in names], ast.Load())], [])
        return node

    # ---- displays
    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([ast.Constant('**'), v], ast.Load()))
            else:
                items.append(ast.Tuple([k, v], ast.Load()))
        stars = [ast.Constant(k is None) for k in node.keys]
        return ast.Call(vp('mkdict'), [ast.Tuple(items, ast.Load()), ast.Tuple(stars, ast.Load())], [])

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return ast.Call(vp('mklist'), [ast.Tuple(node.elts, ast.Load())], [])

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.Call(vp('mkset'), [ast.Tuple(node.elts, ast.Load())], [])

    def _comp(self, node, kind, elts):
        if self.lam or not self.stack or self.stack[-1] is None or not self.infunc or any(
                isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)) or \
                any(g.is_async for g in node.generators):
            self.generic_visit(node)
            return node
        self.n += 1
        fn = '_vp_comp%d' % self.n
        mk = {'any': 'mklist', 'all': 'mklist', 'list': 'mklist', 'set': 'mkset', 'dict': 'mkdict', 'gen': 'mklist'}[kind]
        if kind == 'dict':
            add = ast.Assign([ast.Subscript(ast.Name('_vp_out', ast.Load()), elts[0], ast.Store())], elts[1])
        elif kind == 'any':
            add = ast.If(elts[0], [ast.Return(ast.Constant(True))], [])
        elif kind == 'all':
            add = ast.If(elts[0], [ast.Pass()], [ast.Return(ast.Constant(False))])
        else:
            add = ast.Expr(ast.Call(ast.Attribute(ast.Name('_vp_out', ast.Load()),
                                                  'add' if kind == 'set' else 'append', ast.Load()), elts, []))
        inner = [add]
        gens = node.generators
        for n, g in reversed(list(enumerate(gens))):
            for c in reversed(g.ifs):
                inner = [ast.If(c, inner, [])]
            it = ast.Name('_vp_it', ast.Load()) if n == 0 else g.iter
            inner = [ast.For(g.target, it, inner, [])]
        args = [ast.Tuple([], ast.Load())] + ([ast.Tuple([], ast.Load())] if kind == 'dict' else [])
        body = [ast.Assign([ast.Name('_vp_out', ast.Store())], ast.Call(vp(mk), args, []))] + inner + \
            [ast.Return(ast.Constant(kind == 'all') if kind in ('any', 'all') else ast.Name('_vp_out', ast.Load()))]
        d = ast.FunctionDef(fn, ast.arguments(posonlyargs=[], args=[ast.arg('_vp_it')], kwonlyargs=[],
                                              kw_defaults=[], defaults=[]), body, [], None)
        it0 = gens[0].iter
        ast.copy_location(d, node)
        ast.fix_missing_locations(d)
        hoist = self.stack[-1]
        d2 = self.visit_FunctionDef(d)
        hoist.append(d2)
        it0 = self.visit(it0)
        return ast.copy_location(ast.Call(ast.Name(fn, ast.Load()), [it0], []), node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list', [node.elt])

    def visit_SetComp(self, node):
        return self._comp(node, 'set', [node.elt])

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen', [node.elt])

    def visit_DictComp(self, node):
        return self._comp(node, 'dict', [node.key, node.value])

    # ---- strings
    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is not None or v.conversion not in (-1, 115):
                    self.generic_visit(node)
                    return node
                parts.append(self.visit(v.value))
        return ast.copy_location(ast.Call(vp('fstring'), parts, []), node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(node.args) == 1 and not node.keywords \
                and isinstance(node.args[0], ast.GeneratorExp):
            r = self._comp(node.args[0], f.id, [node.args[0].elt])
            if r is not node.args[0]:
                return r
            return node
        self.generic_visit(node)
        if isinstance(f, ast.Attribute) and f.attr in ('format', 'join'):
            return ast.copy_location(ast.Call(vp('str_' + f.attr), [f.value] + node.args, node.keywords), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                not any(isinstance(x, ast.Constant) for x in [node.left] + node.comparators):
            r = ast.Call(vp('is_'), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.IsNot):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(vp('mod'), [node.left, node.right], []), node)
        return node


_cache = {}


def compile_source(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _cache:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        _cache[k] = compile(tree, path, 'exec', optimize=0)
    return _cache[k]


class Package(object):
    """One freshly executed copy of the package."""

    def __init__(self, root, models, rt, name='sympl'):
        self.root, self.models, self.rt, self.name = root, models, rt, name
        self.modules = {}
        self.loading = []

    def _path(self, name):
        rel = name.split('.')
        base = os.path.join(self.root, *rel)
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        return base + '.py', False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self._path(name)
        if not os.path.exists(path):
            raise ImportError('No module named ' + name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        b = dict(builtins.__dict__)
        b.update(self.rt.BUILTINS)
        b['__import__'] = self._import
        m.__dict__['__builtins__'] = b
        m.__dict__['_vp_rt'] = self.rt
        self.modules[name] = m
        try:
            exec(compile_source(path), m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        par, _, leaf = name.rpartition('.')
        if par and par in self.modules:
            setattr(self.modules[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
        else:
            full = name
        top = full.split('.')[0]
        if top == self.name:
            parts = full.split('.')
            for n in range(1, len(parts)):
                if '.'.join(parts[:n]) not in self.modules:
                    self._ensure_pkg('.'.join(parts[:n]))
            m = self.load(full)
            for f in fromlist or ():
                if f != '*' and not hasattr(m, f):
                    try:
                        setattr(m, f, self.load(full + '.' + f))
                    except ImportError:
                        pass
            return m if fromlist else self.modules[top]
        if self.models.get(full) is not None:
            m = self.models[full]
            return m if fromlist or '.' not in full else self.models[top]
        if top in self.models:
            if self.models[top] is None:
                raise ImportError('No module named ' + full)
            return self.models[top]
        return __import__(name, {}, {}, fromlist, 0)

    def _ensure_pkg(self, name):
        """Parent packages are created as namespaces; their __init__ is run only
        when explicitly loaded."""
        path, _ = self._path(name)
        m = types.ModuleType(name)
        m.__path__ = [os.path.dirname(path)]
        m.__package__ = name
        self.modules[name] = m
