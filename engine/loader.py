"""Loads /repo's qmat for symbolic execution: the source is read and compiled on every run,
with exact literals and division, and executed against the symbolic numpy/scipy."""
import ast
import builtins
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym, shim, poly
from .sym import Sym, LogVal, SymBool, tosym, S

REPO = os.environ.get('QMAT_REPO', '/repo')
PKG = 'qmat'


# ------------------------------------------------------------------ exact arithmetic helpers
def s_print(*a, **k):
    """Output of the code under test: kept only where a harness redirects it."""
    if sys.stdout is not sys.__stdout__:
        print(*a, **k)


def h_div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Sym(Fraction(int(a), int(b)))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(a, (shim.SArr, np.ndarray)) or isinstance(b, np.ndarray):
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                a, b = shim.np_asarray(a), shim.np_asarray(b)
            return shim.ufunc_dispatch(np.true_divide, '__call__', (a, b), {})
    if isinstance(a, (int, float, np.generic, bool)) and isinstance(b, (int, float, np.generic, bool)):
        return tosym(a) / tosym(b)
    return a / b


def h_idiv(a, b):
    if isinstance(a, np.ndarray):
        return shim.ufunc_dispatch(np.true_divide, '__call__', (a, b), {'out': a})
    return h_div(a, b)


def h_pow(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if all(isinstance(x, (int, np.integer)) or (isinstance(x, np.ndarray) and x.dtype.kind in 'iu') for x in (a, b)):
            return a ** b
        return shim.ufunc_dispatch(np.power, '__call__', (a, b), {})
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a ** b
    if isinstance(a, (int, float, np.generic, Sym, LogVal)) and isinstance(b, (int, float, np.generic, Sym)):
        return sym.spow(tosym(a), b)
    return a ** b


def h_ipow(a, b):
    if isinstance(a, shim.SArr):
        return shim.ufunc_dispatch(np.power, '__call__', (a, b), {'out': a})
    return h_pow(a, b)


class Dtype:
    """The type of the elements of a symbolic array."""

    def __init__(self, d):
        self.d = d

    def __getattr__(self, k):
        return getattr(self.d, k)

    def __eq__(self, o):
        return self.d == plain_type(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.d)


def plain_type(o):
    if isinstance(o, Dtype):
        return o.d
    if o is shim.SFloat:
        return np.dtype(float)
    if o is shim.SComplex:
        return np.dtype(complex)
    return o


def h_dtype(x):
    if isinstance(x, (shim.SArr, Sym)):
        return Dtype(np.dtype(complex if shim.np_iscomplexobj(x) else float))
    return x.dtype


MISSING = object()


class SymDict(dict):
    """A dict whose keys may be symbolic integers: these are compared (forking), not hashed."""
    __slots__ = ('sym',)

    def __init__(self, *a, **k):
        self.sym = []           # [key, value] with symbolic keys
        dict.__init__(self)
        self.update(*a, **k)

    def _find(self, k):
        """The pair with symbolic key, or the key in the dict, equal to k (or None, MISSING)."""
        symk = type(k) is Sym and not isinstance(k.v, Fraction)
        if symk and not (isinstance(k.v, poly.RF) and k.isintvar()):
            symk = False
        if self.sym and (symk or isinstance(k, (int, Sym))):
            for p in self.sym:
                if p[0] is k or bool(p[0] == k):
                    return p, MISSING
        if symk:
            for c in dict.keys(self):
                if isinstance(c, (int, float, Sym)) and bool(k == c):
                    return None, c
            return None, MISSING
        return None, (k if dict.__contains__(self, k) else MISSING)

    def __getitem__(self, k):
        if not self.sym and type(k) is not Sym:
            return dict.__getitem__(self, k)
        p, c = self._find(k)
        if p is not None:
            return p[1]
        if c is MISSING:
            raise KeyError(k)
        return dict.__getitem__(self, c)

    def __setitem__(self, k, v):
        if not self.sym and type(k) is not Sym:
            return dict.__setitem__(self, k, v)
        p, c = self._find(k)
        if p is not None:
            p[1] = v
        elif c is not MISSING:
            dict.__setitem__(self, c, v)
        elif type(k) is Sym and isinstance(k.v, poly.RF) and k.isintvar():
            self.sym.append([k, v])
        else:
            dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        p, c = self._find(k)
        if p is not None:
            self.sym.remove(p)
        elif c is MISSING:
            raise KeyError(k)
        else:
            dict.__delitem__(self, c)

    def __contains__(self, k):
        if not self.sym and type(k) is not Sym:
            return dict.__contains__(self, k)
        p, c = self._find(k)
        return p is not None or c is not MISSING

    def get(self, k, default=None):
        return self[k] if k in self else default

    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]

    def pop(self, k, *default):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if default:
            return default[0]
        raise KeyError(k)

    def update(self, *a, **k):
        if a:
            for x, y in (a[0].items() if hasattr(a[0], 'items') else a[0]):
                self[x] = y
        for x, y in k.items():
            self[x] = y

    def clear(self):
        dict.clear(self)
        self.sym.clear()

    def copy(self):
        return SymDict(self)
    __copy__ = copy

    def __reduce_ex__(self, proto):
        return SymDict, (list(self.items()),)

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __len__(self):
        return dict.__len__(self) + len(self.sym)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return iter(self.keys())

    def keys(self):
        return list(dict.keys(self)) + [p[0] for p in self.sym] if self.sym else dict.keys(self)

    def values(self):
        return list(dict.values(self)) + [p[1] for p in self.sym] if self.sym else dict.values(self)

    def items(self):
        return list(dict.items(self)) + [tuple(p) for p in self.sym] if self.sym else dict.items(self)


class Rewrite(ast.NodeTransformer):
    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__hdict__', ast.Load()), [ast.List([
            ast.Starred(ast.Call(ast.Attribute(v, 'items', ast.Load()), [], []), ast.Load()) if k is None else ast.Tuple([k, v], ast.Load())
            for k, v in zip(node.keys, node.values)], ast.Load())], []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__hdict__', ast.Load()), [
            ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)], []), node)

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            if node.value in (float('inf'),):
                return node
            return ast.copy_location(ast.Call(ast.Name('__flit__', ast.Load()), [ast.Constant(repr(node.value))], []), node)
        if isinstance(node.value, complex):
            return ast.copy_location(ast.Call(ast.Name('__ilit__', ast.Load()), [ast.Constant(repr(node.value.imag))], []), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('__hdiv__', ast.Load()), [node.left, node.right], []), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name('__hpow__', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Pow)):
            name = '__hidiv__' if isinstance(node.op, ast.Div) else '__hipow__'
            load = ast.parse(ast.unparse(node.target), mode='eval').body
            new = ast.Assign([node.target], ast.Call(ast.Name(name, ast.Load()), [load, node.value], []))
            return ast.copy_location(new, node)
        return node

    # the kind of number in an array (symbolic arrays hold objects)
    @staticmethod
    def _dtype(node):
        if isinstance(node, ast.Attribute) and node.attr == 'dtype' and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name('__hdtype__', ast.Load()), [node.value], []), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in ('kind', 'char', 'name', 'type', 'itemsize'):
            node.value = self._dtype(node.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        node.left = self._dtype(node.left)
        node.comparators = [self._dtype(c) for c in node.comparators]
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')) in ('issubdtype', 'isdtype'):
            node.args = [self._dtype(a) for a in node.args]
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_MatchValue(self, node):
        return node


_code = {}


def get_code(fn):
    c = _code.get(fn)
    if c is None:
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        tree = Rewrite().visit(ast.parse(src, fn))
        ast.fix_missing_locations(tree)
        c = _code[fn] = compile(tree, fn, 'exec')
    return c


class Sandbox:
    """One fresh import of qmat."""

    def __init__(self):
        self.modules = {}
        b = dict(vars(builtins))
        b.update({
            '__import__': self.imp, 'float': shim.SFloat, 'complex': shim.SComplex,
            'isinstance': shim.s_isinstance, 'pow': lambda a, b_, m=None: h_pow(a, b_) if m is None else pow(a, b_, m),
            'max': self.smax(1), 'min': self.smax(-1), 'print': s_print,
            'round': s_round, 'dict': SymDict, '__hdict__': SymDict,
            '__flit__': sym.flit, '__ilit__': lambda t: sym.flit(t) * sym.imag_unit(),
            '__hdtype__': h_dtype, '__hdiv__': h_div, '__hidiv__': h_idiv, '__hpow__': h_pow, '__hipow__': h_ipow,
        })
        self.builtins = b

    @staticmethod
    def smax(sign):
        real = max if sign > 0 else min

        def f(*a, **k):
            if k:
                return real(*a, **k)
            items = list(a[0]) if len(a) == 1 else list(a)
            if any(isinstance(x, (Sym, LogVal)) for x in items):
                return sym.smax([x if isinstance(x, LogVal) else tosym(x) for x in items], sign)
            return real(items)
        return f

    # -------------------------------------------------------------- import machinery
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        top = name.split('.')[0]
        if top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.modules[PKG]
        if top in ('numpy', 'scipy', 'math'):
            __import__(name)
            if name in shim.MODULES:
                m = shim.MODULES[name]
                for f in fromlist or ():
                    sub = name + '.' + f
                    if sub in shim.MODULES:
                        return m
            else:
                m = sys.modules[name]
            return m if fromlist else shim.MODULES[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if S.importing:
            return self._load(name)
        saved = (sym.V.cycN, sym.V.cycidx, S.approx_used, S.errstate, S.shadow)
        S.shadow = None
        S.importing = True
        try:
            return self._load(name)
        finally:
            S.importing = False
            sym.V.cycN, sym.V.cycidx, S.approx_used, S.errstate, S.shadow = saved
            shim.Capture.reset()

    def _load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        rel = name.replace('.', '/')
        d = os.path.join(REPO, rel)
        if os.path.isdir(d):
            fn, ispkg = os.path.join(d, '__init__.py'), True
        else:
            fn, ispkg = d + '.py', False
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__dict__['__builtins__'] = self.builtins
        if ispkg:
            m.__path__ = [d]
            m.__package__ = name
        else:
            m.__package__ = parent
        if not os.path.exists(fn):
            if ispkg:
                self.modules[name] = m
                return m
            raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        self.modules[name] = m
        if parent:
            setattr(self.modules[parent], name.rpartition('.')[2], m)
        try:
            exec(get_code(fn), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        return m


def s_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


class Q:
    """Namespace handed to a harness: q.lagrange, q.nodes, q.qcoeff, ... of one qmat import."""

    def __init__(self, loader, np_, concrete):
        self._load = loader
        self.np = np_
        self.concrete = concrete

    def __getattr__(self, k):
        names = {'lagrange': 'qmat.lagrange', 'nodes': 'qmat.nodes', 'qcoeff': 'qmat.qcoeff',
                 'qdelta': 'qmat.qdelta', 'coll': 'qmat.qcoeff.collocation', 'butcher': 'qmat.qcoeff.butcher',
                 'sdc': 'qmat.utils.sdc', 'num': 'qmat.utils.num', 'utils': 'qmat.utils',
                 'timestepping': 'qmat.qdelta.timestepping', 'algebraic': 'qmat.qdelta.algebraic',
                 'diag': 'qmat.qdelta.diag', 'mincoeffs': 'qmat.qdelta.mincoeffs', 'qmat': 'qmat'}
        if k not in names:
            raise AttributeError(k)
        m = self._load(names[k])
        setattr(self, k, m)
        return m


def symbolic_q():
    sb = Sandbox()
    return Q(sb.load, shim.npmod, False)


def fresh_real():
    """Re-import the real package from /repo (fresh module state)."""
    for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + '.')]:
        del sys.modules[n]
    import importlib
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)

    def load(name):
        return importlib.import_module(name)
    return Q(load, np, True)


def another_real():
    """Another import of the real package, beside the one in use."""
    mine = lambda n: n == PKG or n.startswith(PKG + '.')
    old = {n: m for n, m in sys.modules.items() if mine(n)}
    q = fresh_real()
    for n in ('qmat', 'qdelta', 'qcoeff', 'lagrange', 'nodes', 'sdc', 'num', 'timestepping', 'algebraic', 'diag', 'coll', 'butcher'):
        getattr(q, n)
    for n in [n for n in sys.modules if mine(n)]:
        del sys.modules[n]
    sys.modules.update(old)
    return q
