"""AST instrumentation and import hook: makes the real source of /repo executable
on symbolic values.  The source is read from disk on every run."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
from . import intrinsics as I
from . import values as V

NOCALL = {'super', 'locals', 'globals', 'eval', 'exec', 'dir', 'vars', '__import__'}


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.cls = []
        self.qual = []

    def _n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def _call(self, name, args, kw=()):
        return ast.Call(func=self._n(name), args=list(args), keywords=list(kw))

    def mangle(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'):
            c = self.cls[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, n)
        return n

    # -- calls
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOCALL:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(a) for a in node.keywords]
            return node
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(a) for a in node.keywords]
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                node.func = ast.Attribute(value=self.visit(f.value), attr=f.attr, ctx=ast.Load())
                node.args, node.keywords = args, kws
                return node
            return ast.copy_location(self._call(
                '__sx_mcall__', [self.visit(f.value), ast.Constant(self.mangle(f.attr))] + args, kws), node)
        return ast.copy_location(self._call('__sx_call__', [self.visit(f)] + args, kws), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = '__sx_in__' if isinstance(node.ops[0], ast.In) else '__sx_notin__'
            return ast.copy_location(self._call(n, [node.left, node.comparators[0]]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self._call('__sx_get__', [node.value, self._slice(node.slice)]), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return self._call('__sx_slice__', [x if x is not None else ast.Constant(None)
                                               for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call('__sx_mod__', [node.left, node.right]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(self._call('__sx_fstr__', parts), node)

    def visit_Dict(self, node):
        const = all(isinstance(k, ast.Constant) for k in node.keys)
        self.generic_visit(node)
        if const:
            return ast.copy_location(self._call('__sx_sdict__', [node]), node)
        ps = []
        for k, v in zip(node.keys, node.values):
            ps.append(ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()))
        return ast.copy_location(self._call('__sx_mkdict__', [ast.List(elts=ps, ctx=ast.Load())]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(self._call('__sx_mkdict__', [lc]), node)

    def visit_Set(self, node):
        const = all(isinstance(k, ast.Constant) for k in node.elts)
        self.generic_visit(node)
        if const:
            return node
        return ast.copy_location(self._call('__sx_sset__', [ast.List(elts=node.elts, ctx=ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(self._call('__sx_sset__', [lc]), node)

    # -- statements
    def _tick(self):
        return ast.Expr(self._call('__sx_tick__', []))

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, self._tick())
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, self._tick())
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = self._n('Exception')
        return node

    def _func(self, node):
        self.qual.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        node.returns = None
        body = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                body += r
            elif r is not None:
                body.append(r)
        k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str) else 0
        body.insert(k, ast.Expr(self._call('__sx_fn__', [ast.Constant('%s:%s' % (self.mod, '.'.join(self.qual)))])))
        node.body = body
        if node.name == '__bool__':
            # its result has to be a bool
            for r in ast.walk(node):
                if isinstance(r, ast.Return) and r.value is not None:
                    r.value = self._call('__sx_bool__', [r.value])
        self.qual.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.qual.append(node.name)
        self.generic_visit(node)
        self.qual.pop()
        self.cls.pop()
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


GLOBALS = {
    '__sx_call__': I.call, '__sx_mcall__': I.mcall, '__sx_in__': I.sx_in, '__sx_notin__': I.sx_notin,
    '__sx_get__': I.sx_get, '__sx_slice__': slice, '__sx_mod__': I.sx_mod, '__sx_fstr__': I.sx_fstr,
    '__sx_mkdict__': I.sx_mkdict, '__sx_sdict__': I.sx_sdict, '__sx_sset__': V.SSet,
    '__sx_fn__': I.fn, '__sx_bool__': I.truth, '__sx_tick__': I.tick,
}


def compile_source(src, path, modname):
    tree = ast.parse(src, path)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path = path
        self.pkg = pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        module.__dict__.update(GLOBALS)
        exec(compile_source(src, self.path, module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots       # {package name: directory that contains it}

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p, True), submodule_search_locations=[base])
        p = base + '.py'
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, False))
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))


def load_file(path, name):
    """Load one file (a harness) instrumented."""
    m = types.ModuleType(name)
    m.__file__ = path
    sys.modules[name] = m
    m.__dict__.update(GLOBALS)
    with open(path, encoding='utf-8') as f:
        src = f.read()
    exec(compile_source(src, path, name), m.__dict__)
    return m


# --------------------------------------------------------------------------
# global state of the loaded program: snapshot after loading, restore per path
class Snapshot:
    def __init__(self, prefixes):
        self.objs = []
        seen = set()
        todo = []
        for n, m in list(sys.modules.items()):
            if any(n == p or n.startswith(p + '.') for p in prefixes):
                todo.append(m.__dict__)
        own = lambda t: any((t.__module__ or '') == p or (t.__module__ or '').startswith(p + '.') for p in prefixes)
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            t = type(o)
            if t is V.SSet:
                todo.append(o.d)
                continue
            if isinstance(o, dict):
                if isinstance(o, V.SDict):
                    o._snap = True
                    self.objs.append((o, 'sd', dict(dict.items(o))))
                else:
                    self.objs.append((o, 'd', dict(o)))
                vals = dict.values(o)
                if len(o) > 3000:
                    vals = list(vals)[:20]
                todo += [v for v in vals if self._deep(v, own)]
            elif t is list:
                self.objs.append((o, 'l', list(o)))
                todo += [v for v in o[:3000] if self._deep(v, own)]
            elif t is tuple:
                todo += [v for v in o[:3000] if self._deep(v, own)]
            elif t is set:
                self.objs.append((o, 's', set(o)))
            elif t is types.FunctionType:
                for d in (o.__defaults__ or ()):
                    if self._deep(d, own):
                        todo.append(d)
                for d in (o.__kwdefaults__ or {}).values():
                    if self._deep(d, own):
                        todo.append(d)
                for c in (o.__closure__ or ()):
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    if self._deep(v, own):
                        todo.append(v)
            elif isinstance(o, type):
                if own(o):
                    self.objs.append((o, 'c', dict(o.__dict__)))
                    todo += [v for v in o.__dict__.values() if self._deep(v, own)]
            elif own(t):
                d = getattr(o, '__dict__', None)
                if d is not None:
                    todo.append(d)
                    todo.append(t)
        self.keep = seen

    @staticmethod
    def _deep(v, own):
        t = type(v)
        if t in (int, str, bytes, float, bool, type(None)):
            return False
        if t in (dict, V.SDict, V.SSet, list, tuple, set, types.FunctionType):
            return True
        if isinstance(v, (staticmethod, classmethod, property)):
            return False
        if isinstance(v, type):
            return own(v)
        return own(t)

    def restore(self):
        V.SDict.DIRTY, dirty = {}, V.SDict.DIRTY
        for o, k, s in self.objs:
            if k == 'sd':
                if id(o) in dirty:
                    dict.clear(o)
                    dict.update(o, s)
                    o.nsym = sum(1 for x in s if type(x) is V.Box)
            elif k == 'd':
                if len(o) != len(s) or any(o.get(x, self) is not v for x, v in s.items()):
                    o.clear()
                    o.update(s)
            elif k == 'l':
                if len(o) != len(s) or any(a is not b for a, b in zip(o, s)):
                    o[:] = s
            elif k == 's':
                if o != s:
                    o.clear()
                    o.update(s)
            elif k == 'c':
                cur = o.__dict__
                for x in list(cur):
                    if x not in s:
                        try:
                            delattr(o, x)
                        except (AttributeError, TypeError):
                            pass
                for x, v in s.items():
                    if cur.get(x) is not v:
                        try:
                            setattr(o, x, v)
                        except (AttributeError, TypeError):
                            pass
