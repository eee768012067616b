"""numpy / scipy / math stand-ins over symbolic scalars.

Arrays are real numpy object arrays (class SArr), so views, aliasing, broadcasting and
indexing are numpy's own; only the arithmetic of elements is symbolic.  Integer and
boolean arrays stay native.
"""
import builtins
import functools
import itertools
import numbers
import types
from fractions import Fraction
from math import gcd as _gcd

import mpmath
import numpy as np

from . import sym, poly
from .sym import (S, V, Sym, SymBool, LogVal, lift, tosym, sdiv, ZERO, ONE, TWO, PINF, NAN,
                  unsupported, Unsupported, sand, sor, snot)

FR = Fraction


# ------------------------------------------------------------------ dtype classes
class _FMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, cls)


class SFloat(metaclass=_FMeta):
    dtype = np.dtype(object)

    def __new__(cls, x=0.0):
        if isinstance(x, str):
            y = x.strip().lower()
            if 'inf' in y or 'nan' in y:
                return Sym(float(y))
            return sym.flit(y)
        if isinstance(x, np.ndarray):
            if x.size == 1:
                return cls(x.ravel()[0])
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if isinstance(x, LogVal):
            return x
        return tosym(x)


class SComplex(metaclass=_FMeta):
    dtype = np.dtype(object)

    def __new__(cls, x=0.0, y=None):
        r = SFloat(x)
        if y is not None:
            r = r + sym.imag_unit() * SFloat(y)
        return r


_REALF = (float, SFloat, np.floating, np.float64, np.float32, np.inexact)
_REALC = (complex, SComplex, np.complexfloating, np.complex128)
_NUMB = (np.number, np.generic, numbers.Number, numbers.Complex)


def s_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(s_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(s_isinstance(x, c) for c in cls.__args__)
    if type(x) is Sym or type(x) is LogVal:
        if cls in _NUMB or cls is object or cls is Sym:
            return True
        isint = type(x) is Sym and isinstance(x.v, poly.RF) and x.isintvar()
        if cls in (int, numbers.Integral, np.integer):
            return isint
        if cls in _REALF or cls is numbers.Real:
            return not isint
        if cls in _REALC:
            return type(x) is Sym and isinstance(x.v, poly.RF) and any(
                V.kind[i] == 'complex' for i in x.v.vars())
        return False
    if type(x) is SymBool:
        return cls in (bool, int, np.bool_, object)
    if getattr(cls, '__name__', '') == 'SymDict':
        return builtins.isinstance(x, dict)
    if cls is SFloat:
        return builtins.isinstance(x, float)
    if cls is SComplex:
        return builtins.isinstance(x, complex)
    return builtins.isinstance(x, cls)


def is_symdtype(dt):
    """True: symbolic storage; False: native storage."""
    if dt is None or dt in (float, complex, SFloat, SComplex, object):
        return True
    if isinstance(dt, type) and issubclass(dt, np.inexact):
        return True
    try:
        k = np.dtype(dt).kind
    except TypeError:
        return True
    return k in 'fcO'


# ------------------------------------------------------------------ arrays
def coerce_inplace(a):
    """Make every element of an object ndarray symbolic."""
    f = a.reshape(-1) if a.flags.c_contiguous else None
    if f is not None:
        for i in range(f.size):
            x = f[i]
            if type(x) is not Sym:
                y = lift(x) if type(x) not in (SymBool, LogVal, bool, np.bool_) else None
                if y is not None:
                    f[i] = y
    else:
        for idx in np.ndindex(a.shape):
            x = a[idx]
            if type(x) is not Sym and type(x) not in (SymBool, LogVal, bool, np.bool_):
                y = lift(x)
                if y is not None:
                    a[idx] = y
    return a


def base(a):
    return a.view(np.ndarray) if isinstance(a, SArr) else a


def from_native(a):
    """native numeric array -> SArr."""
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(a.shape):
        x = lift(a[idx])
        out[idx] = x if x is not None else a[idx]
    return out.view(SArr)


def mkarr(x):
    a = np.array(x, dtype=object)
    return coerce_inplace(a).view(SArr)


def wrap(r):
    if isinstance(r, SArr):
        if r.ndim == 0:
            return r
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.size and all(isinstance(x, (bool, np.bool_)) for x in r.flat):
                return r.astype(bool)
            return coerce_inplace(r).view(SArr)
        if r.dtype.kind in 'fc':
            return from_native(r)
        return r
    if isinstance(r, tuple):
        if hasattr(r, '_fields'):
            return type(r)(*[wrap(x) for x in r])
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, (np.floating, float)) and not isinstance(r, bool):
        return lift(r)
    if isinstance(r, (complex, np.complexfloating)):
        return lift(r)
    return r


def is_boolish(a):
    return isinstance(a, np.ndarray) and a.dtype == object and a.size and \
        any(type(x) is SymBool for x in a.flat)


def force_bool(a):
    """object array of SymBools -> native bool array (forks)."""
    if isinstance(a, SymBool):
        return bool(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        out = np.empty(a.shape, dtype=bool)
        for idx in np.ndindex(a.shape):
            out[idx] = bool(base(a)[idx])
        return out
    return a


def fixidx(idx):
    if isinstance(idx, tuple):
        return tuple(fixidx(i) for i in idx)
    if isinstance(idx, np.ndarray) and idx.dtype == object:
        if is_boolish(idx) or (idx.size and all(isinstance(x, (bool, np.bool_)) for x in idx.flat)):
            return force_bool(idx)
        return np.array([x.__index__() for x in idx.flat], dtype=int).reshape(idx.shape)
    if isinstance(idx, Sym):
        return idx.__index__()
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, list):
        return [fixidx(i) for i in idx]
    if isinstance(idx, slice):
        f = lambda v: v.__index__() if isinstance(v, Sym) else v
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    return idx


def is_complex(x):
    """Does this symbolic value have an imaginary part (structurally)?"""
    if type(x) is not Sym or V.cycidx is None or not isinstance(x.v, poly.RF) or V.cycidx not in x.v.vars():
        return False
    i = sym.simag(x)
    return not (isinstance(i.v, Fraction) and i.v == 0 or isinstance(i.v, poly.RF) and not i.v.num)


def real_part(r, scalar=False):
    """What is stored into an array of real floats: numpy drops the imaginary parts of an array and refuses a complex scalar."""
    if V.cycidx is None:
        return r
    if isinstance(r, np.ndarray):
        if any(is_complex(x) for x in r.flat):
            if r.ndim == 0:
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return base(emap(sym.sreal, r))
    elif is_complex(r):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    return r


def is_realdt(dt):
    """Floating point, not complex."""
    if dt is None or dt in (float, SFloat):
        return True
    if dt in (complex, SComplex, object):
        return False
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def _typed(a, dt=None):
    if isinstance(a, SArr) and is_realdt(dt):
        a.realonly = True
    return a


class SArr(np.ndarray):
    __array_priority__ = 2000.0
    realonly = False    # created with a real dtype

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        ov = OVERRIDE.get(func)
        if ov is not None:
            return ov(*args, **kwargs)
        r = super().__array_function__(func, [t for t in types_], args, kwargs)
        return wrap(r)

    def __getitem__(self, idx):
        r = super().__getitem__(fixidx(idx))
        if self.realonly and type(r) is SArr:
            r.realonly = True
        return r

    def __setitem__(self, idx, val):
        idx = fixidx(idx)
        if isinstance(val, SArr):
            val = base(val)
        elif isinstance(val, np.ndarray):
            val = base(from_native(val)) if val.dtype != object else coerce_inplace(val.copy())
        elif isinstance(val, (list, tuple)):
            val = base(mkarr(val))
        elif type(val) in (Sym, LogVal):
            pass
        elif type(val) is SymBool:
            val = tosym(val)
        else:
            v = lift(val)
            if v is not None:
                val = v
        if self.realonly:
            val = real_part(val)
        np.ndarray.__setitem__(self.view(np.ndarray), idx, val)

    # ---- methods whose C implementation does not work on symbolic objects
    @property
    def real(self):
        return emap(sym.sreal, self)

    @property
    def imag(self):
        return emap(sym.simag, self)

    def conj(self):
        return emap(sym.sconj, self)
    conjugate = conj

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np_max(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np_min(self, axis=axis, keepdims=keepdims)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def argmax(self, axis=None, **k):
        return np_argmax(self, axis)

    def argmin(self, axis=None, **k):
        return np_argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return np_argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = np_sort(self, axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        return emap(lambda x: sdiv(x, tosym(n)), self.sum(axis=axis, keepdims=keepdims))

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        m = self.mean(axis=axis, keepdims=True) if axis is not None else self.mean()
        d = self - m
        return emap(lambda x: sdiv(x, tosym(n - ddof)), (d * d.conj()).sum(axis=axis, keepdims=keepdims))

    def std(self, axis=None, ddof=0, keepdims=False, **k):
        return emap(sym.ssqrt, self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def any(self, axis=None, **k):
        return np_any(self, axis=axis)

    def all(self, axis=None, **k):
        return np_all(self, axis=axis)

    def round(self, decimals=0, out=None):
        return emap(lambda x: round(x, decimals) if decimals else x.rint(), self)

    def clip(self, a_min=None, a_max=None, out=None, **k):
        return np_clip(self, a_min, a_max)

    def nonzero(self):
        return np.nonzero(emap_bool(lambda x: bool(x), self))

    def dot(self, o, out=None):
        return np_dot(self, o)

    def astype(self, dtype, *a, copy=True, **k):
        if dtype in (bool, np.bool_):
            return force_bool(emap_obj(lambda x: x if type(x) is SymBool else bool(x), self))
        if is_symdtype(dtype):
            if V.cycidx is not None and dtype is not None and is_realdt(dtype) and any(is_complex(x) for x in self.flat):
                return _typed(emap(sym.sreal, self), dtype)
            r = self.copy() if copy else self.view()
            r.realonly = self.realonly and is_realdt(dtype)
            return r
        k = np.dtype(dtype).kind
        if k in 'iu':
            return np.array([int(x) for x in self.flat], dtype=dtype).reshape(self.shape)
        raise TypeError(f"cannot cast to {dtype}")

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def cumsum(self, axis=None, **k):
        a = self.ravel() if axis is None else self
        return wrap(np.add.accumulate(base(a), axis=0 if axis is None else axis))

    def cumprod(self, axis=None, **k):
        a = self.ravel() if axis is None else self
        return wrap(np.multiply.accumulate(base(a), axis=0 if axis is None else axis))

    def trace(self, *a, **k):
        return sum(np.diagonal(base(self)), ZERO)

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).ravel()[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(self.ravel()[0])
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")

    def __int__(self):
        return int(self.ravel()[0])

    def __index__(self):
        if self.ndim == 0:
            return self[()].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __complex__(self):
        return complex(float(self))

    def __reduce__(self):
        raise Unsupported("pickling arrays")

    def __deepcopy__(self, memo):
        return self.copy()


def emap(f, a):
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        b = base(a)
        for idx in np.ndindex(a.shape):
            x = b[idx]
            out[idx] = f(x if type(x) in (Sym, LogVal, SymBool) else lift(x))
        return out.view(SArr)
    return f(lift(a))


def emap_obj(f, a):
    out = np.empty(a.shape, dtype=object)
    b = base(a)
    for idx in np.ndindex(a.shape):
        out[idx] = f(b[idx])
    return out


def emap_bool(f, a):
    return emap_obj(f, a).astype(bool)


# ------------------------------------------------------------------ ufuncs
def _ls(f):
    return lambda *a: f(*[x if type(x) in (Sym, LogVal) else tosym(x) for x in a])


def _cmpf(op):
    def f(a, b):
        a = a if type(a) in (Sym, LogVal, SymBool) else lift(a)
        if type(a) is SymBool:
            a = tosym(a)
        r = a._cmp(b, op)
        if r is NotImplemented:
            return op == '!='
        return r
    return f


def _toB(x):
    if type(x) in (SymBool, bool):
        return x
    if isinstance(x, (np.bool_, int, np.integer)):
        return bool(x)
    if type(x) is Sym:
        return x != 0
    return bool(x)


def _bit(fn):
    def f(*a):
        if all(type(x) in (SymBool, bool) or isinstance(x, np.bool_) for x in a):
            return fn(*[_toB(x) for x in a])
        if all(isinstance(x, (int, np.integer)) for x in a):
            return {'and': lambda p, q: p & q, 'or': lambda p, q: p | q}[fn.__name__](*a)
        raise TypeError("ufunc 'bitwise' not supported for the input types")
    return f


def _and(a, b): return sand(a, b)
def _or(a, b): return sor(a, b)
_and.__name__, _or.__name__ = 'and', 'or'


def _hypot(a, b):
    return sym.ssqrt(a * a + b * b)


def _spec(name):
    def f(x):
        if type(x) is LogVal:
            return name == 'isfinite'
        return getattr(tosym(x), name)()
    return f


EL = {
    'add': _ls(lambda a, b: a + b), 'subtract': _ls(lambda a, b: a - b),
    'multiply': _ls(lambda a, b: a * b),
    'divide': _ls(lambda a, b: a / b), 'true_divide': _ls(lambda a, b: a / b),
    'power': _ls(sym.spow), 'float_power': _ls(sym.spow),
    'floor_divide': _ls(lambda a, b: a // b), 'remainder': _ls(lambda a, b: a % b),
    'fmod': _ls(lambda a, b: a % b), 'mod': _ls(lambda a, b: a % b),
    'maximum': _ls(lambda a, b: sym.smax([a, b])), 'minimum': _ls(lambda a, b: sym.smax([a, b], -1)),
    'fmax': _ls(lambda a, b: sym.smax([a, b])), 'fmin': _ls(lambda a, b: sym.smax([a, b], -1)),
    'less': _cmpf('<'), 'less_equal': _cmpf('<='), 'greater': _cmpf('>'),
    'greater_equal': _cmpf('>='), 'equal': _cmpf('=='), 'not_equal': _cmpf('!='),
    'logical_and': lambda a, b: sand(_toB(a), _toB(b)),
    'logical_or': lambda a, b: sor(_toB(a), _toB(b)),
    'logical_not': lambda a: snot(_toB(a)),
    'logical_xor': lambda a, b: bool(_toB(a)) ^ bool(_toB(b)),
    'bitwise_and': _bit(_and), 'bitwise_or': _bit(_or),
    'bitwise_xor': lambda a, b: bool(a) ^ bool(b),
    'invert': lambda a: snot(_toB(a)),
    'sign': _ls(sym.ssign), 'absolute': _ls(sym.sabs), 'fabs': _ls(sym.sabs),
    'sqrt': _ls(sym.ssqrt), 'exp': _ls(sym.sexp), 'log': _ls(sym.slog), 'log10': _ls(sym.slog10),
    'cbrt': _ls(lambda a: sym.spow(a, FR(1, 3))),
    'log2': _ls(lambda a: a.log2() if type(a) is Sym else a / sym.slog(TWO)),
    'log1p': _ls(lambda a: sym.slog(a + 1)), 'expm1': _ls(lambda a: sym.sexp(a) - 1),
    'exp2': _ls(lambda a: sym.spow(TWO, a)),
    'cos': _ls(lambda a: sym.strig(a, 'cos')), 'sin': _ls(lambda a: sym.strig(a, 'sin')),
    'tan': _ls(lambda a: sym.strig(a, 'sin') / sym.strig(a, 'cos')),
    'isnan': _spec('isnan'), 'isinf': _spec('isinf'), 'isfinite': _spec('isfinite'),
    'conjugate': _ls(sym.sconj), 'square': _ls(lambda a: a * a),
    'reciprocal': _ls(lambda a: ONE / a), 'negative': _ls(lambda a: -a), 'positive': _ls(lambda a: a),
    'floor': _ls(sym.sfloor), 'ceil': _ls(lambda a: -sym.sfloor(-a)),
    'rint': _ls(lambda a: a.rint()), 'trunc': _ls(lambda a: Sym(FR(int(a)))),
    'hypot': _ls(_hypot),
    'copysign': _ls(lambda a, b: sym.sabs(a) * (ONE if bool(b >= 0) else -ONE)),
    'heaviside': _ls(lambda a, b: (lambda s: ZERO if s < 0 else ONE if s > 0 else b)(sym.choose_sign(a))),
    'deg2rad': _ls(lambda a: a * npmod.pi / 180), 'radians': _ls(lambda a: a * npmod.pi / 180),
}
BOOLRES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and',
           'logical_or', 'logical_not', 'logical_xor', 'bitwise_and', 'bitwise_or', 'invert',
           'isnan', 'isinf', 'isfinite', 'bitwise_xor'}


def _tonat(x):
    """ufunc input -> plain object ndarray or scalar."""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x
    if type(x) in (Sym, LogVal, SymBool):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        r = np_asarray(x)
        return base(r)
    return x


def _fin(r, name):
    if isinstance(r, np.ndarray):
        if name in BOOLRES:
            if r.size == 0 or all(isinstance(x, (bool, np.bool_)) for x in r.flat):
                return r.astype(bool)
            return r.view(SArr)
        if r.dtype == object:
            return r.view(SArr)
        return wrap(r)
    return r


def _store(out, r):
    if isinstance(out, SArr):
        if isinstance(r, np.ndarray):
            r = r if r.dtype == object else base(from_native(r))
            r = base(r)
            if out.shape != np.broadcast_shapes(out.shape, r.shape):
                raise ValueError(
                    f"non-broadcastable output operand with shape {out.shape} doesn't match the broadcast shape")
        if out.realonly and V.cycidx is not None and any(is_complex(x) for x in (r.flat if isinstance(r, np.ndarray) else [r])):
            raise TypeError("Cannot cast ufunc output from dtype('complex128') to dtype('float64') with casting rule 'same_kind'")
        o = out.view(np.ndarray)
        o[...] = r
        return out
    if isinstance(out, np.ndarray):
        if out.dtype == bool:
            out[...] = force_bool(r)
            return out
        if out.dtype == object:
            out[...] = base(r) if isinstance(r, np.ndarray) else r
            return out
        raise TypeError(f"Cannot cast ufunc output from dtype('float64') to {out.dtype!r} with casting rule 'same_kind'")
    raise TypeError("bad out argument")


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    where = kw.pop('where', True)
    if method == '__call__':
        if name == 'matmul':
            r = np_matmul(*inputs)
        elif name == 'vecdot':
            r = (np_asarray(inputs[0]).conj() * inputs[1]).sum(axis=-1)
        elif name == 'divmod':
            return (ufunc_dispatch(np.floor_divide, '__call__', inputs, {}),
                    ufunc_dispatch(np.remainder, '__call__', inputs, {}))
        else:
            f = EL.get(name)
            if f is None:
                unsupported(f"ufunc {name}")
            args = [_tonat(x) for x in inputs]
            uf = np.frompyfunc(f, len(args), 1)
            if where is not True:
                w = force_bool(where) if isinstance(where, np.ndarray) else bool(where)
                bs = np.broadcast_arrays(*args, w)
                r = np.empty(bs[0].shape, dtype=object)
                for idx in np.ndindex(r.shape):
                    r[idx] = f(*[b[idx] for b in bs[:-1]]) if bs[-1][idx] else (
                        base(out)[idx] if out is not None else NAN)
            else:
                r = uf(*args)
            if isinstance(r, np.ndarray) and r.ndim == 0 and not any(
                    isinstance(x, np.ndarray) and x.ndim == 0 and isinstance(x, SArr) for x in inputs):
                r = r[()]
            elif isinstance(r, np.ndarray) and r.ndim == 0:
                r = r[()]
            r = _fin(r, name)
        if out is not None:
            return _store(out, r)
        return r
    if method == 'reduce':
        a = np_asarray(inputs[0])
        axis = inputs[1] if len(inputs) > 1 else kw.get('axis', 0)
        r = reduce_(name, a, axis, kw.get('keepdims', False), kw.get('initial', None), where)
        if out is not None:
            return _store(out, r)
        return r
    if method == 'accumulate':
        a = base(np_asarray(inputs[0]))
        axis = inputs[1] if len(inputs) > 1 else kw.get('axis', 0)
        b = np.moveaxis(a, axis, 0)
        res = np.empty(b.shape, dtype=object)
        f = EL[name]
        for j in range(b.shape[0]):
            res[j] = b[j] if j == 0 else np.frompyfunc(f, 2, 1)(res[j - 1], b[j])
        r = _fin(np.moveaxis(res, 0, axis), name)
        return _store(out, r) if out is not None else r
    if method == 'outer':
        a, b = np_asarray(inputs[0]), np_asarray(inputs[1])
        return ufunc_dispatch(ufunc, '__call__', (
            a.reshape(a.shape + (1,) * b.ndim), b.reshape((1,) * a.ndim + b.shape)), {})
    if method == 'at':
        a, ix = inputs[0], inputs[1]
        f = EL[name]
        ix = fixidx(ix)
        if isinstance(ix, tuple):
            bs = np.broadcast_arrays(*[np.asarray(i) for i in ix])
            keys = [tuple(b[i] for b in bs) for i in np.ndindex(bs[0].shape)]
        else:
            keys = [(int(i),) for i in np.asarray(ix).ravel()]
        vals = None
        if len(inputs) > 2:
            vals = np.broadcast_to(base(np_asarray(inputs[2])), (len(keys),)) if np.ndim(inputs[2]) <= 1 else base(np_asarray(inputs[2]))
        for n, kx in enumerate(keys):
            kx = kx if len(kx) > 1 else kx[0]
            a[kx] = ufunc_dispatch(ufunc, '__call__', (a[kx],) + ((vals[n],) if vals is not None else ()), {})
        return None
    unsupported(f"ufunc method {name}.{method}")


def reduce_(name, a, axis, keepdims=False, initial=None, where=True):
    if initial is np._NoValue:
        initial = None
    if keepdims is np._NoValue:
        keepdims = False
    if where is np._NoValue:
        where = True
    b = base(a)
    if where is not True:
        unit = ZERO if name == 'add' else ONE
        w = np.broadcast_to(force_bool(where), b.shape)
        b2 = np.empty(b.shape, dtype=object)
        for idx in np.ndindex(b.shape):
            b2[idx] = b[idx] if w[idx] else unit
        b = b2
    if axis is None:
        axes = tuple(range(b.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(x % b.ndim for x in axes)
    rest = [i for i in range(b.ndim) if i not in axes]
    t = np.transpose(b, rest + list(axes))
    shp = tuple(b.shape[i] for i in rest)
    t = t.reshape(shp + (int(np.prod([b.shape[i] for i in axes], dtype=int)),))
    res = np.empty(shp, dtype=object)
    fault = None
    if name == 'multiply' and S.fpfault and S.path is not None and t.shape[-1] > 1 and any(
            type(x) is Sym and isinstance(x.v, poly.RF) for x in t.flat):
        fault = fp_fault(shp)
    if name == 'multiply' and S.shadow is not None and S.path is not None and t.shape[-1] > 1:
        fault = shadow_prod(t, shp)
    for n, idx in enumerate(np.ndindex(shp)):
        row = list(t[idx])
        res[idx] = fault[n] if fault is not None and fault[n] is not None else red1(name, row, initial)
    if keepdims:
        res = res.reshape(tuple(1 if i in axes else b.shape[i] for i in range(b.ndim)))
    if res.ndim == 0:
        return res[()]
    return _fin(res, name if name in ('logical_and', 'logical_or') else name)


def shadow_prod(t, shp):
    """Products along the last axis after rounding, following the sample values."""
    v = [[None if type(x) is LogVal else sym.shadow_value(tosym(x)) for x in r] for r in t.reshape(-1, t.shape[-1])]
    if any(x is None for r in v for x in r) or not any(type(x) is Sym and isinstance(x.v, poly.RF) for x in t.flat):
        return None
    fl = np.array([[sym.shadow_float(x) for x in r] for r in v]).reshape(t.shape)
    out = []
    for n, r in enumerate(v):
        e = FR(1)
        for x in r:
            e *= x
        one = lambda i=n: np.multiply.reduce(fl.reshape(-1, fl.shape[-1]), axis=-1)[i]
        f = sym.shadow_round(e, one)
        if f is None or e == 0:
            out.append(None)
        elif isinstance(f, float):
            S.path.fpevents.append('range')
            out.append(NAN if f != f else ZERO if f == 0 else PINF if f > 0 else -PINF)
        else:
            out.append(red1('multiply', list(t.reshape(-1, t.shape[-1])[n]), None) * Sym(f))
    return out


def fp_fault(shp):
    """Environment choice: do the products of this call leave the floating-point range?"""
    n = int(np.prod(shp)) if shp else 1
    k = S.path.choose("fp-product", 5)
    if k == 0:
        return None
    kind = 'underflow' if k in (1, 3) else 'overflow'
    if S.fpkinds is not None and kind not in S.fpkinds:
        raise sym.Infeasible("floating-point range")
    S.path.fpevents.append(kind)
    if S.errstate['under' if kind == 'underflow' else 'over'] == 'raise':
        raise FloatingPointError(f"{kind} encountered in reduce")
    val = ZERO if kind == 'underflow' else PINF
    rows = [val] * n
    if k == 3:
        rows = [val if i == n // 2 else None for i in range(n)]
    if k == 4:
        rows = [val if i in (0, n - 1) else None for i in range(n)]
    return rows


def red1(name, row, initial=None):
    if name == 'add':
        r = None if initial is None else tosym(initial)
        for x in row:
            x = x if type(x) in (Sym, LogVal) else tosym(x)
            r = x if r is None else r + x
        return ZERO if r is None else r
    if name == 'multiply':
        r = None if initial is None else tosym(initial)
        for x in row:
            x = x if type(x) in (Sym, LogVal) else tosym(x)
            r = x if r is None else r * x
        return ONE if r is None else r
    if name in ('maximum', 'fmax', 'minimum', 'fmin'):
        row = [x if type(x) in (Sym, LogVal) else tosym(x) for x in row]
        if initial is not None:
            row.append(tosym(initial))
        return sym.smax(row, 1 if 'max' in name else -1)
    if name == 'logical_and':
        return sand(*[_toB(x) for x in row])
    if name == 'logical_or':
        return sor(*[_toB(x) for x in row])
    f = EL.get(name)
    if f is None:
        unsupported(f"reduce {name}")
    return functools.reduce(f, row)


# ------------------------------------------------------------------ creation
def np_array(obj, dtype=None, copy=True, ndmin=0, order=None, subok=False, **k):
    r = _np_array(obj, dtype, copy, ndmin)
    if dtype is not None and V.cycidx is not None and isinstance(r, SArr) and is_realdt(dtype):
        if any(is_complex(x) for x in r.flat):
            if not isinstance(obj, np.ndarray):
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            r = emap(sym.sreal, r)
        elif r is obj:
            r = r.view()
        r.realonly = True
    return r


def _np_array(obj, dtype=None, copy=True, ndmin=0):
    if isinstance(obj, SArr):
        if dtype is not None and not is_symdtype(dtype):
            r = obj.astype(dtype)
        else:
            r = obj.copy() if copy else obj
    elif isinstance(obj, np.ndarray):
        if dtype is None and obj.dtype.kind in 'iubSU':
            r = obj.copy() if copy else obj
        elif dtype is not None and not is_symdtype(dtype):
            r = np.array(base(obj), dtype=dtype)
        else:
            r = from_native(obj)
    elif type(obj) in (Sym, LogVal, SymBool):
        a = np.empty((), dtype=object)
        a[()] = obj
        r = a.view(SArr)
        if dtype is not None and not is_symdtype(dtype):
            r = r.astype(dtype)
    elif isinstance(obj, (SDense,)):
        r = obj.toarray()
    else:
        if not isinstance(obj, (list, tuple, int, float, complex, str, np.generic, Fraction)) and hasattr(obj, '__iter__') \
                and not hasattr(obj, '__array__') and not hasattr(obj, '__len__'):
            a = np.empty((), dtype=object)
            a[()] = obj
            r = a
        else:
            a = np.array(_plain(obj), dtype=object)
            flat = list(a.flat)
            if any(isinstance(x, (list, tuple, np.ndarray)) for x in flat):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            if flat and all(isinstance(x, (bool, np.bool_)) for x in flat):
                r = a.astype(bool)
                if dtype is not None and is_symdtype(dtype):
                    r = from_native(r)
                elif dtype is not None:
                    r = r.astype(dtype)
            elif flat and all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in flat):
                if dtype is None:
                    r = a.astype(int)
                elif is_symdtype(dtype):
                    r = coerce_inplace(a).view(SArr)
                else:
                    r = a.astype(dtype)
            elif any(isinstance(x, str) for x in flat):
                if dtype is not None and is_symdtype(dtype) and dtype is not object:
                    r = np.array([SFloat(x) for x in flat], dtype=object).reshape(a.shape).view(SArr)
                else:
                    r = np.array(obj, dtype=None if dtype is None else dtype)
            elif flat and any(x is None for x in flat) and dtype is not None and dtype is not object:
                raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
            elif dtype is None or is_symdtype(dtype):
                r = coerce_inplace(a).view(SArr)
                if dtype is not None and dtype is not object:
                    for x in r.flat:
                        if type(x) not in (Sym, LogVal, SymBool):
                            raise TypeError(f"float() argument must be a string or a real number, not '{type(x).__name__}'")
            else:
                r = coerce_inplace(a).view(SArr).astype(dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _plain(x):
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    if isinstance(x, SArr):
        return x.view(np.ndarray).tolist() if x.ndim else x.view(np.ndarray)[()]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, range):
        return list(x)
    return x


def np_asarray(obj, dtype=None, **k):
    if isinstance(obj, SArr) and (dtype is None or is_symdtype(dtype)):
        if dtype is not None and V.cycidx is not None and is_realdt(dtype) and any(is_complex(x) for x in obj.flat):
            return _typed(emap(sym.sreal, obj), dtype)
        return obj
    if isinstance(obj, np.ndarray) and not isinstance(obj, SArr):
        if dtype is None:
            if obj.dtype.kind in 'fcO':
                return wrap(obj)
            return obj
        if not is_symdtype(dtype):
            return np.asarray(obj, dtype=dtype)
    return np_array(obj, dtype=dtype)


def _filled(shape, val):
    a = np.empty(fixshape(shape), dtype=object)
    a.fill(val)
    return a.view(SArr)


def fixshape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x.__index__()) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s)
    return int(s.__index__())


def np_zeros(shape, dtype=None, *a, **k):
    return _typed(_filled(shape, ZERO), dtype) if is_symdtype(dtype) else np.zeros(fixshape(shape), dtype)


def np_ones(shape, dtype=None, *a, **k):
    return _typed(_filled(shape, ONE), dtype) if is_symdtype(dtype) else np.ones(fixshape(shape), dtype)


def np_empty(shape, dtype=None, *a, **k):
    return _typed(_filled(shape, NAN), dtype) if is_symdtype(dtype) else np.zeros(fixshape(shape), dtype)


def np_full(shape, fill_value, dtype=None, *a, **k):
    if dtype is None and isinstance(fill_value, (int, np.integer)) or not is_symdtype(dtype):
        return np.full(fixshape(shape), fill_value, dtype)
    r = _filled(shape, ZERO)
    if dtype is not None:
        _typed(r, dtype)
    r[...] = fill_value
    return r


def _likedt(a, dtype):
    if dtype is not None:
        return dtype
    a = np_asarray(a)
    if isinstance(a, SArr):
        return float if a.realonly else object
    return a.dtype


def np_zeros_like(a, dtype=None, shape=None, **k):
    return np_zeros(np.shape(a) if shape is None else shape, _likedt(a, dtype))


def np_ones_like(a, dtype=None, shape=None, **k):
    return np_ones(np.shape(a) if shape is None else shape, _likedt(a, dtype))


def np_empty_like(a, dtype=None, shape=None, **k):
    return np_empty(np.shape(a) if shape is None else shape, _likedt(a, dtype))


def np_full_like(a, fill_value, dtype=None, **k):
    dt = _likedt(a, dtype)
    if is_symdtype(dt):
        r = np_zeros(np.shape(a), dt)
        r[...] = fill_value
        return r
    return np.full(np.shape(a), fill_value, dt)


def np_eye(N, M=None, k=0, dtype=None, **kw):
    e = np.eye(int(N), None if M is None else int(M), int(k), dtype=int)
    return _typed(from_native(e), dtype) if is_symdtype(dtype) else e.astype(dtype)


def np_identity(n, dtype=None, **k):
    return np_eye(n, dtype=dtype)


def np_tri(N, M=None, k=0, dtype=None, **kw):
    e = np.tri(int(N), None if M is None else int(M), int(k), dtype=int)
    return _typed(from_native(e), dtype) if is_symdtype(dtype) else e.astype(dtype)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num.__index__())
    start, stop = np_asarray(start), np_asarray(stop)
    div = (num - 1) if endpoint else num
    step = (stop - start) * sdiv(ONE, tosym(div)) if div > 0 else NAN
    rows = []
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            rows.append(stop + start * 0)
        else:
            rows.append(start + (step * i if div > 0 else start * 0))
    r = mkarr(rows) if rows else np_zeros((0,))
    if dtype is not None and not is_symdtype(dtype):
        r = r.astype(dtype)
    if retstep:
        return r, (step[()] if isinstance(step, np.ndarray) and step.ndim == 0 else step)
    return r


def np_arange(*args, dtype=None, **k):
    start, step = 0, 1
    if len(args) == 1:
        stop = args[0]
    else:
        start, stop = args[:2]
        if len(args) > 2:
            step = args[2]
        if len(args) > 3:
            dtype = args[3]
    start = k.get('start', start)
    allint = all(isinstance(x, (int, np.integer)) or (isinstance(x, Sym) and isinstance(x.v, poly.RF) and x.isintvar())
                 for x in (start, stop, step))
    if allint:
        r = np.arange(*[int(x.__index__()) for x in (start, stop, step)])
        if dtype is not None:
            return from_native(r) if is_symdtype(dtype) else r.astype(dtype)
        return r
    start, stop, step = tosym(start), tosym(stop), tosym(step)
    n = -sym.sfloor(-((stop - start) / step))
    n = max(0, int(n))
    r = mkarr([start + step * i for i in range(n)]) if n else np_zeros((0,))
    return r if is_symdtype(dtype) else r.astype(dtype)


def np_logspace(start, stop, num=50, endpoint=True, base=10.0, **k):
    return ufunc_dispatch(np.power, '__call__', (tosym(base), np_linspace(start, stop, num, endpoint)), {})


def np_geomspace(a, b, num=50, **k):
    unsupported("geomspace")


# ------------------------------------------------------------------ selection / ordering
def np_where(cond, x=None, y=None):
    if x is None and y is None:
        return np_nonzero(cond)
    if isinstance(cond, (bool, np.bool_, SymBool)) and not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray):
        c = bool(cond)
        return x if c else y
    c = np.asarray(force_bool(np_asarray(cond)))
    if c.dtype != bool:
        c = c.astype(bool)
    x, y = np_asarray(x), np_asarray(y)
    if not isinstance(x, SArr) and not isinstance(y, SArr):
        return wrap(np.where(c, x, y))
    xb, yb = base(x), base(y)
    r = np.where(c, xb.astype(object), yb.astype(object))
    return wrap(r)


def np_nonzero(a):
    a = np_asarray(a)
    if isinstance(a, SArr):
        a = emap_bool(lambda x: bool(x), a)
    return np.nonzero(a)


def np_flatnonzero(a):
    return np_nonzero(np_asarray(a).ravel())[0]


def np_argwhere(a):
    a = np_asarray(a)
    if isinstance(a, SArr):
        a = emap_bool(lambda x: bool(x), a)
    return np.argwhere(a)


def np_count_nonzero(a, axis=None, **k):
    a = np_asarray(a)
    if isinstance(a, SArr):
        a = emap_bool(lambda x: bool(x), a)
    return np.count_nonzero(a, axis=axis)


def _red(name):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True, dtype=None, **k):
        a = np_asarray(a)
        if not isinstance(a, SArr):
            fn = {'maximum': np.max, 'minimum': np.min, 'logical_and': np.all, 'logical_or': np.any,
                  'add': np.sum, 'multiply': np.prod}[name]
            r = fn(a, axis=axis, keepdims=keepdims)
        else:
            r = reduce_(name, a, axis, keepdims, initial, where)
        if out is not None:
            return _store(out, r)
        return r
    return f


np_max, np_min = _red('maximum'), _red('minimum')
np_all, np_any = _red('logical_and'), _red('logical_or')
np_sum, np_prod = _red('add'), _red('multiply')


def np_ptp(a, axis=None, **k):
    return np_max(a, axis) - np_min(a, axis)


def _argbest(a, sign):
    best = 0
    for i in range(1, len(a)):
        x, y = a[i], a[best]
        c = (x > y) if sign > 0 else (x < y)
        if bool(c):
            best = i
    return best


def _axiswise(f, a, axis):
    a = np_asarray(a)
    if axis is None:
        return f(list(base(a.ravel())))
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for idx in np.ndindex(out.shape):
        out[idx] = f(list(b[idx]))
    return out if out.ndim else int(out)


def np_argmax(a, axis=None, **k):
    return _axiswise(lambda l: _argbest(l, 1), a, axis)


def np_argmin(a, axis=None, **k):
    return _axiswise(lambda l: _argbest(l, -1), a, axis)


def _sorted_idx(l):
    import functools as ft

    def cmp(i, j):
        x, y = l[i], l[j]
        if isinstance(x, Sym) and isinstance(y, Sym) and sym.keyof(x) == sym.keyof(y):
            return 0
        if bool(x < y):
            return -1
        return 1 if bool(x > y) else 0
    return sorted(range(len(l)), key=ft.cmp_to_key(cmp))


def np_argsort(a, axis=-1, **k):
    a = np_asarray(a)
    if not isinstance(a, SArr):
        return np.argsort(a, axis=axis, kind='stable')
    if axis is None:
        a = a.ravel()
        axis = -1
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=int)
    for idx in np.ndindex(b.shape[:-1]):
        out[idx] = _sorted_idx(list(b[idx]))
    return np.moveaxis(out, -1, axis)


def np_sort(a, axis=-1, **k):
    a = np_asarray(a)
    if not isinstance(a, SArr):
        return np.sort(a, axis=axis)
    if axis is None:
        a, axis = a.ravel(), -1
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for idx in np.ndindex(b.shape[:-1]):
        l = list(b[idx])
        for j, i in enumerate(_sorted_idx(l)):
            out[idx + (j,)] = l[i]
    return np.moveaxis(out, -1, axis).view(SArr)


def np_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = np_asarray(ar)
    if not isinstance(a, SArr):
        return np.unique(a, return_index=return_index, return_inverse=return_inverse,
                         return_counts=return_counts, axis=axis)
    if axis is not None:
        unsupported("unique with axis")
    l = list(base(a.ravel()))
    order = _sorted_idx(l)
    groups = []
    for i in order:
        if groups and bool(_as_bool(l[groups[-1][0]] == l[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    vals = np.empty(len(groups), dtype=object)
    inv = np.empty(len(l), dtype=int)
    idx = np.empty(len(groups), dtype=int)
    cnt = np.empty(len(groups), dtype=int)
    for g, mem in enumerate(groups):
        idx[g] = min(mem)
        vals[g] = l[idx[g]]
        cnt[g] = len(mem)
        for i in mem:
            inv[i] = g
    out = [vals.view(SArr)]
    if return_index:
        out.append(idx)
    if return_inverse:
        out.append(inv.reshape(a.shape))
    if return_counts:
        out.append(cnt)
    return out[0] if len(out) == 1 else tuple(out)


def _as_bool(x):
    return bool(x)


def np_setdiff1d(a, b, **k):
    a, b = np_asarray(a), np_asarray(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        u = np_unique(a)
        keep = [x for x in u if not any(bool(x == y) for y in np_asarray(b).ravel())]
        return mkarr(keep) if keep else np_zeros((0,))
    return np.setdiff1d(a, b, **k)


def np_isin(el, test, invert=False, **k):
    el, test = np_asarray(el), np_asarray(test)
    if isinstance(el, SArr) or isinstance(test, SArr):
        r = emap_bool(lambda x: any(bool(tosym(x) == y) for y in test.ravel()), np_asarray(el, dtype=object))
        return ~r if invert else r
    return np.isin(el, test, invert=invert)


def np_searchsorted(a, v, side='left', sorter=None):
    a, v = np_asarray(a), np_asarray(v)
    if not isinstance(a, SArr) and not isinstance(v, SArr):
        return np.searchsorted(a, v, side, sorter)
    l = list(base(a.ravel()))

    def f(x):
        n = 0
        for y in l:
            c = (y < x) if side == 'left' else (y <= x)
            if bool(c):
                n += 1
            else:
                break
        return n
    if v.ndim == 0:
        return f(v[()])
    out = np.empty(v.shape, dtype=int)
    for idx in np.ndindex(v.shape):
        out[idx] = f(base(v)[idx])
    return out


def np_isclose(a, b, rtol=None, atol=None, equal_nan=False):
    rtol = sym.flit('1e-5') if rtol is None else tosym(rtol)
    atol = sym.flit('1e-8') if atol is None else tosym(atol)

    def f(x, y):
        x, y = tosym(x), tosym(y)
        if x.special() or y.special():
            return x.special() and y.special() and (x.v == y.v or (equal_nan and x.v != x.v and y.v != y.v))
        if sym.keyof(x) == sym.keyof(y):
            return True
        return _mod(x - y) <= atol + rtol * _mod(y)
    r = np.frompyfunc(f, 2, 1)(_tonat(np_asarray(a)), _tonat(np_asarray(b)))
    if isinstance(r, np.ndarray) and r.ndim == 0:
        r = r[()]
    return _fin(r, 'isnan')


def _mod(x):
    """|x| without forking: sign left to the solver."""
    if isinstance(x.v, poly.RF):
        return _lazyabs(x)
    return sym.sabs(x)


def _lazyabs(x):
    if isinstance(x.v, poly.RF) and not (not x.v.den and poly._isalgconst(x.v.num)):
        st = None
        c, nf = poly.split_factors(x.v.num)
        if len(nf) == 1 and not x.v.den:
            f, = nf
            q, sg = sym.canon(V.factors[f])
            st = S.path.determine(q)
            if st <= frozenset([0, 1]) or st <= frozenset([0, -1]):
                return sym.sabs(x)
    return sym.sabs(x)


def np_allclose(a, b, rtol=None, atol=None, equal_nan=False):
    r = np_isclose(a, b, rtol, atol, equal_nan)
    if isinstance(r, np.ndarray):
        return bool(sand(*[x if type(x) is SymBool else bool(x) for x in base(r).flat]))
    return bool(r)


def np_array_equal(a, b, equal_nan=False):
    try:
        a, b = np_asarray(a), np_asarray(b)
    except (ValueError, TypeError):
        return False
    if a.shape != b.shape:
        return False
    return bool(np_all(a == b))


def np_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = np_asarray(a)
    if a_min is not None:
        r = ufunc_dispatch(np.maximum, '__call__', (r, a_min), {})
    if a_max is not None:
        r = ufunc_dispatch(np.minimum, '__call__', (r, a_max), {})
    if out is not None:
        return _store(out, r)
    return r


def np_round(a, decimals=0, out=None):
    return emap(lambda x: round(x, decimals) if decimals else x.rint(), np_asarray(a))


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if v.special():
            if v.v != v.v:
                return tosym(nan)
            r = posinf if v.v > 0 else neginf
            return tosym(r if r is not None else (1.797e308 if v.v > 0 else -1.797e308))
        return v
    r = emap(f, np_asarray(x, dtype=complex))
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def np_isscalar(x):
    return type(x) in (Sym, LogVal, SymBool) or np.isscalar(x)


def np_fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    if isinstance(val, (np.ndarray, list, tuple)):
        v = np_asarray(val).ravel()
        for i in range(n):
            a[(i,) * a.ndim] = v[i % v.size]
    else:
        for i in range(n):
            a[(i,) * a.ndim] = val


def np_isreal(x):
    r = emap_obj(lambda v: sym.simag(tosym(v)) == 0, np.asarray(_tonat(np_asarray(x)), dtype=object))
    return _fin(r, 'isnan') if r.ndim else r[()]


def np_iscomplexobj(x):
    if isinstance(x, (Sym, SArr, list, tuple)):
        a = np_asarray(x, dtype=complex)
        return not getattr(a, 'realonly', False) and any(is_complex(v) for v in np.asarray(a).flat)
    return np.iscomplexobj(x)


def np_issubdtype(a, b):
    def plain(o):
        o = getattr(o, 'd', o) if type(o).__name__ == 'Dtype' else o
        return np.floating if o is SFloat else np.complexfloating if o is SComplex else o
    return np.issubdtype(np.float64 if a is SFloat else np.complex128 if a is SComplex else plain(a), plain(b))


def np_iscomplex(x):
    r = emap_obj(lambda v: sym.simag(tosym(v)) != 0, np.asarray(_tonat(np_asarray(x)), dtype=object))
    return _fin(r, 'isnan') if r.ndim else r[()]


def np_real_if_close(a, tol=100):
    a = np_asarray(a)
    if not np_iscomplexobj(a):
        return a
    t = tosym(tol)
    if t > 1:
        t = t * Sym(Fraction(1, 2 ** 52))
    for v in np.asarray(base(a), dtype=object).flat:
        if not (abs(sym.simag(tosym(v))) < t):
            return a
    return np.real(a)


# ------------------------------------------------------------------ linear algebra
def np_matmul(a, b, out=None, **k):
    a, b = np_asarray(a), np_asarray(b)
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return np.matmul(a, b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand 1 does not have enough dimensions")
    r = _mm(base(a), base(b))
    if out is not None:
        return _store(out, r)
    return r


def _dotv(x, y):
    r = None
    for p, q in zip(x, y):
        p = p if type(p) in (Sym, LogVal) else tosym(p)
        q = q if type(q) in (Sym, LogVal) else tosym(q)
        if isinstance(p, Sym) and isinstance(p.v, Fraction) and p.v == 0 and not (isinstance(q, Sym) and q.special()):
            continue
        if isinstance(q, Sym) and isinstance(q.v, Fraction) and q.v == 0 and not (isinstance(p, Sym) and p.special()):
            continue
        t = p * q
        r = t if r is None else r + t
    return ZERO if r is None else r


def _mm(a, b):
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    r = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for idx in np.ndindex(bs):
        A, B = a[idx], b[idx]
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                r[idx + (i, j)] = _dotv(A[i], B[:, j])
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    if r.ndim == 0:
        return r[()]
    return r.view(SArr)


def np_dot(a, b, out=None):
    a, b = np_asarray(a), np_asarray(b)
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return np.dot(a, b)
    if a.ndim == 0 or b.ndim == 0:
        r = a * b
    elif b.ndim <= 2:
        if a.shape[-1] != b.shape[0]:
            raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
        if a.ndim <= 2:
            r = _mm(base(a), base(b))
        else:
            r = _mm(base(a).reshape(-1, a.shape[-1]), base(b))
            r = r.reshape(a.shape[:-1] + b.shape[1:])
    else:
        return np_tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 2]))
    if out is not None:
        return _store(out, r)
    return r


def np_inner(a, b):
    a, b = np_asarray(a), np_asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return np_tensordot(a, b, axes=([-1], [-1]))


def np_vdot(a, b):
    return _dotv([sym.sconj(tosym(x)) for x in np_asarray(a).ravel()], list(np_asarray(b).ravel()))


def np_tensordot(a, b, axes=2):
    a, b = np_asarray(a), np_asarray(b)
    if isinstance(axes, int):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    ra = [i for i in range(a.ndim) if i not in aa]
    rb = [i for i in range(b.ndim) if i not in bb]
    n = int(np.prod([a.shape[i] for i in aa])) if aa else 1
    A = np.transpose(base(a), ra + aa).reshape(-1, n)
    B = np.transpose(base(b), bb + rb).reshape(n, -1)
    r = _mm(A, B).reshape([a.shape[i] for i in ra] + [b.shape[i] for i in rb])
    return r[()] if r.ndim == 0 else r


def np_outer(a, b, out=None):
    return np_asarray(a).ravel()[:, None] * np_asarray(b).ravel()[None, :]


def np_kron(a, b):
    a, b = np_asarray(a), np_asarray(b)
    if a.ndim == 2 and b.ndim == 2:
        r = a[:, None, :, None] * b[None, :, None, :]
        return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])
    if a.ndim == 1 and b.ndim == 1:
        return np_outer(a, b).ravel()
    unsupported("kron")


def np_einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    if '...' in spec:
        unsupported("einsum with ellipsis")
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins.replace(',', '')))
        out = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    ops = [base(np_asarray(o)) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    summed = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for oi in np.ndindex(res.shape):
        env = dict(zip(out, oi))
        tot = ZERO
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = ONE
            for s, o in zip(ins, ops):
                t = t * tosym(o[tuple(env[c] for c in s)])
            tot = tot + t
        res[oi] = tot
    return res[()] if res.ndim == 0 else res.view(SArr)


def _sq(a, name):
    a = np_asarray(a, dtype=complex)
    if a.ndim < 2:
        raise np.linalg.LinAlgError(f"{a.ndim}-dimensional array given. Array must be at least two-dimensional")
    if a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return a


def _fzero(x):
    """Formally zero."""
    return isinstance(x.v, Fraction) and x.v == 0


def _gauss(A, B):
    """Solve A X = B exactly; A, B lists of lists of Sym.  Generic (det != 0 assumed)."""
    n = len(A)
    A = [list(r) for r in A]
    B = [list(r) for r in B]
    order = list(range(n))
    for k in range(n):
        # cheapest formally nonzero pivot
        best = None
        for i in range(k, n):
            x = A[i][k]
            if not _fzero(x):
                cost = 0 if x.isconst() else (1 + len(x.v.num) + 10 * len(x.v.den))
                nz = sum(1 for y in A[i][k:] if not _fzero(y))
                c = (cost, nz)
                if best is None or c < best[0]:
                    best = (c, i)
        if best is None:
            raise np.linalg.LinAlgError("Singular matrix")
        i = best[1]
        if i != k:
            A[i], A[k] = A[k], A[i]
            B[i], B[k] = B[k], B[i]
        piv = A[k][k]
        if not piv.isconst() and S.path is not None:
            generic_nonzero(piv)
        ip = None
        for r in range(k + 1, n):
            if _fzero(A[r][k]):
                continue
            if ip is None:
                ip = ONE / piv if piv.isconst() else Sym(piv.rf().inv())
            f = A[r][k] * ip
            for c in range(k + 1, n):
                if not _fzero(A[k][c]):
                    A[r][c] = A[r][c] - f * A[k][c]
            A[r][k] = ZERO
            for c in range(len(B[0]) if B else 0):
                if not _fzero(B[k][c]):
                    B[r][c] = B[r][c] - f * B[k][c]
    X = [None] * n
    for k in range(n - 1, -1, -1):
        piv = A[k][k]
        ip = ONE / piv if piv.isconst() else Sym(piv.rf().inv())
        row = []
        for c in range(len(B[0])):
            s = B[k][c]
            for j in range(k + 1, n):
                if not _fzero(A[k][j]):
                    s = s - A[k][j] * X[j][c]
            row.append(s * ip)
        X[k] = row
    return X


def generic_nonzero(piv):
    """Record the assumption that a pivot of a linear solve is nonzero."""
    try:
        S.path.assume(piv != 0)
    except AttributeError:
        pass


def la_solve(a, b):
    a = _sq(a, 'solve')
    b = np_asarray(b, dtype=complex)
    ab, bb = base(a), base(b)
    if a.ndim == 2 and b.ndim in (1, 2):
        if b.shape[0] != a.shape[0]:
            raise ValueError("solve: Input operand 1 has a mismatch in its core dimension 0")
        B = [[x] for x in bb] if b.ndim == 1 else [list(r) for r in bb]
        X = _gauss([list(r) for r in ab], B)
        r = mkarr(X)
        return r[:, 0] if b.ndim == 1 else r
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    ab = np.broadcast_to(ab, bs + a.shape[-2:])
    bb = np.broadcast_to(bb, bs + b.shape[-2:])
    out = np.empty(bb.shape, dtype=object)
    for idx in np.ndindex(bs):
        out[idx] = base(la_solve(ab[idx].view(SArr), bb[idx].view(SArr)))
    return out.view(SArr)


def la_inv(a):
    a = _sq(a, 'inv')
    if a.ndim == 2:
        return la_solve(a, np_eye(a.shape[0], dtype=complex))
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(a.shape[:-2]):
        out[idx] = base(la_inv(a[idx]))
    return out.view(SArr)


def _det_bareiss(M):
    """Exact determinant of a rational matrix, fraction-free."""
    den, rows = 1, []
    for r in M:
        m = 1
        for x in r:
            m = m * x.denominator // _gcd(m, x.denominator)
        den *= m
        rows.append([x.numerator * (m // x.denominator) for x in r])
    n, prev, sign = len(rows), 1, 1
    for k in range(n - 1):
        p = next((i for i in range(k, n) if rows[i][k]), None)
        if p is None:
            return FR(0)
        if p != k:
            rows[p], rows[k] = rows[k], rows[p]
            sign = -sign
        a = rows[k]
        for i in range(k + 1, n):
            b = rows[i]
            f = b[k]
            rows[i] = [0] * (k + 1) + [(a[k] * b[j] - f * a[j]) // prev for j in range(k + 1, n)]
        prev = a[k]
    return FR(sign * rows[-1][-1], den)


def la_det(a):
    a = _sq(a, 'det')
    if a.ndim > 2:
        out = np.empty(a.shape[:-2], dtype=object)
        for idx in np.ndindex(out.shape):
            out[idx] = la_det(a[idx])
        return out.view(SArr)
    n = a.shape[0]
    A = [list(r) for r in base(a)]
    if n == 0:
        return ONE
    if all(x.isconst() for r in A for x in r):
        det = FR(1)
        M = [[x.v for x in r] for r in A]
        if n > 3 and all(isinstance(x, FR) for r in M for x in r):
            return Sym(_det_bareiss(M))
        for k in range(n):
            p = next((i for i in range(k, n) if M[i][k] != 0), None)
            if p is None:
                return ZERO
            if p != k:
                M[p], M[k] = M[k], M[p]
                det = -det
            det *= M[k][k]
            for r in range(k + 1, n):
                f = M[r][k] / M[k][k]
                if f:
                    for c in range(k, n):
                        M[r][c] -= f * M[k][c]
        return Sym(det)
    # division-free expansion with memoised minors
    memo = {}

    def minor(row, cols):
        if row == n:
            return ONE
        key = cols
        r = memo.get(key)
        if r is None:
            r = ZERO
            for j, c in enumerate(cols):
                x = A[row][c]
                if _fzero(x):
                    continue
                t = x * minor(row + 1, cols[:j] + cols[j + 1:])
                r = r + t if j % 2 == 0 else r - t
            memo[key] = r
        return r
    if n > 9:
        unsupported("symbolic determinant above size 9")
    return minor(0, tuple(range(n)))


def la_norm(x, ord=None, axis=None, keepdims=False):
    x = np_asarray(x, dtype=complex)
    if axis is not None:
        b = np.moveaxis(base(x), axis, -1) if isinstance(axis, int) else None
        if b is None:
            unsupported("norm with axis tuple")
        out = np.empty(b.shape[:-1], dtype=object)
        for idx in np.ndindex(out.shape):
            out[idx] = la_norm(b[idx].view(SArr), ord)
        r = out.view(SArr) if out.ndim else out[()]
        return np_asarray(r)[..., None] if keepdims and axis in (-1, x.ndim - 1) else r
    if x.ndim == 1 or (x.ndim == 2 and ord in (None, 'fro')) or ord is None:
        v = list(base(x.ravel()))
        if isinstance(ord, Sym):
            ord = float(ord)
        if ord is None or ord == 2 or ord == 'fro':
            return sym.ssqrt(sum((y * sym.sconj(y) for y in v), ZERO))
        if ord == float('inf'):
            return sym.smax([sym.sabs(y) for y in v])
        if ord == -float('inf'):
            return sym.smax([sym.sabs(y) for y in v], -1)
        if ord == 1:
            return sum((sym.sabs(y) for y in v), ZERO)
        if ord == 0:
            return Sym(FR(sum(1 for y in v if bool(y != 0))))
        unsupported(f"norm ord={ord}")
    if isinstance(ord, Sym):
        ord = float(ord)
    if ord == float('inf'):
        return sym.smax([sum((sym.sabs(y) for y in r), ZERO) for r in base(x)])
    if ord == 1:
        return sym.smax([sum((sym.sabs(y) for y in r), ZERO) for r in base(x).T])
    unsupported(f"matrix norm ord={ord}")


def _num(a):
    """constant SArr -> float array."""
    a = np_asarray(a, dtype=complex)
    out = np.empty(a.shape, dtype=float)
    for idx in np.ndindex(a.shape):
        x = base(a)[idx]
        if not x.isconst() and not x.special():
            if isinstance(x.v, poly.RF) and not x.v.den and poly._isalgconst(x.v.num):
                out[idx] = float(mpmath.re(sym.const_mp(x.v.num) / x.v.dc))
                continue
            unsupported("numeric routine on symbolic values")
        out[idx] = float(x.v)
    return out


def la_numeric(fn):
    def f(a, *args, **k):
        r = fn(_num(a), *args, **k)
        S.approx_used = True
        if isinstance(r, np.ndarray) and r.dtype.kind == 'c':
            if V.cycN is None:
                sym.set_cyclotomic(4)
        return wrap(r)
    return f


_eigvals_numeric = la_numeric(np.linalg.eigvals)


def la_eigvals(a):
    """Eigenvalues: numeric, or the diagonal of a triangular symbolic matrix."""
    a = _sq(a, 'eigvals')
    n = a.shape[0]
    items = [a[i, j] for i in range(n) for j in range(n)]
    if all(tosym(x).isconst() for x in items):
        return _eigvals_numeric(a)
    z = lambda x: isinstance(tosym(x).v, Fraction) and tosym(x).v == 0
    if all(z(a[i, j]) for i in range(n) for j in range(i)) or all(z(a[j, i]) for i in range(n) for j in range(i)):
        return np_array([a[i, i] for i in range(n)], dtype=complex)
    sym.unsupported("eigenvalues of a symbolic matrix")


def la_matrix_power(a, n):
    a = _sq(a, 'matrix_power')
    n = int(n)
    if n < 0:
        return la_matrix_power(la_inv(a), -n)
    r = np_eye(a.shape[0], dtype=complex)
    while n:
        if n & 1:
            r = np_matmul(r, a)
        n >>= 1
        if n:
            a = np_matmul(a, a)
    return r


def la_lstsq(a, b, rcond=None, **k):
    a, b = np_asarray(a, dtype=complex), np_asarray(b, dtype=complex)
    at = a.T
    x = la_solve(np_matmul(at, a), np_matmul(at, b))
    return x, np_zeros((0,)), min(a.shape), np_zeros((min(a.shape),))


def la_pinv(a, *args, **k):
    a = np_asarray(a, dtype=complex)
    if a.shape[0] >= a.shape[1]:
        return la_solve(np_matmul(a.T, a), a.T)
    return np_matmul(a.T, la_inv(np_matmul(a, a.T)))


def la_multi_dot(arrs, **k):
    return functools.reduce(np_dot, arrs)


# ------------------------------------------------------------------ fft
def _dft(a, sgn, n=None, norm=None):
    a = np_asarray(a, dtype=complex)
    if a.ndim != 1:
        unsupported("multi-dimensional fft")
    v = list(base(a))
    if n is not None:
        n = int(n)
        v = v[:n] + [ZERO] * (n - len(v))
    N = len(v)
    if not sym.approx_trig():
        if V.cycN is None or V.cycN % N:
            from math import lcm
            raise sym.NeedCyc(lcm(4, N, V.cycN or 1))
        rt = lambda k: sym.root_of_unity(FR(k % N, N))
    else:
        if V.cycN is None:
            sym.set_cyclotomic(4)
        S.approx_used = True

        def rt(k):
            z = mpmath.expjpi(mpmath.mpf(2 * (k % N)) / N)
            return Sym(sym.approx_fraction(z.real)) + sym.imag_unit() * Sym(sym.approx_fraction(z.imag))
    roots = [rt(sgn * k) for k in range(N)]
    return [_dotv([roots[(k * j) % N] for j in range(N)], v) for k in range(N)], N


def fft_fft(a, n=None, axis=-1, norm=None, **k):
    r, N = _dft(a, -1, n)
    if norm == 'ortho':
        r = [x / sym.ssqrt(Sym(FR(N))) for x in r]
    if norm == 'forward':
        r = [x / Sym(FR(N)) for x in r]
    return mkarr(r)


def fft_ifft(a, n=None, axis=-1, norm=None, **k):
    r, N = _dft(a, 1, n)
    if norm == 'ortho':
        r = [x / sym.ssqrt(Sym(FR(N))) for x in r]
    elif norm != 'forward':
        r = [x / Sym(FR(N)) for x in r]
    return mkarr(r)


def fft_rfft(a, n=None, **k):
    r = fft_fft(a, n)
    return r[:r.size // 2 + 1]


def _herm(a, n):
    a = list(base(np_asarray(a, dtype=complex)))
    N = 2 * (len(a) - 1) if n is None else int(n)
    h = a[:N // 2 + 1]
    while len(h) < N // 2 + 1:
        h.append(ZERO)
    full = [ZERO] * N
    for j in range(N // 2 + 1):
        full[j] = h[j]
        if j and (N - j) != j:
            full[N - j] = sym.sconj(h[j])
    full[0] = sym.sreal(full[0])
    if N % 2 == 0 and N > 1:
        full[N // 2] = sym.sreal(full[N // 2])
    return full


def fft_irfft(a, n=None, **k):
    return emap(sym.sreal, fft_ifft(mkarr(_herm(a, n))))


def fft_hfft(a, n=None, **k):
    full = _herm(a, n)
    return emap(sym.sreal, fft_fft(mkarr(full)))


# ------------------------------------------------------------------ quadrature stubs
def gauss_legendre(n):
    """Nodes and weights of the Gauss-Legendre rule, exact up to n=3."""
    n = int(n)
    STUBS.add('gauss-legendre rule (numpy/scipy)')
    q = lambda a, b=1: Sym(FR(a, b))
    if n < 1:
        raise ValueError("deg must be a positive integer")
    if n == 1:
        return mkarr([ZERO]), mkarr([TWO])
    if S.mode == 'exact' and n <= 3:
        if n == 2:
            x = (sym.root_of_unity(FR(1, 12)) + sym.root_of_unity(FR(-1, 12))) / q(3)   # sqrt(3)/3
            return mkarr([-x, x]), mkarr([ONE, ONE])
        x = sym.ssqrt(q(3, 5))
        return mkarr([-x, ZERO, x]), mkarr([q(5, 9), q(8, 9), q(5, 9)])
    S.approx_used = True
    xs = []
    guess = np.polynomial.legendre.leggauss(n)[0]
    with mpmath.workdps(90):
        for g in guess:
            if n % 2 and abs(g) < 1e-12:
                xs.append(mpmath.mpf(0))
                continue
            xs.append(mpmath.findroot(lambda t: mpmath.legendre(n, t), mpmath.mpf(float(g))))
        ws = []
        for x in xs:
            d = n * (x * mpmath.legendre(n, x) - mpmath.legendre(n - 1, x)) / (x * x - 1)
            ws.append(2 / ((1 - x * x) * d * d))
        return (mkarr([Sym(sym.approx_fraction(x)) for x in xs]),
                mkarr([Sym(sym.approx_fraction(w)) for w in ws]))


STUBS = set()


# ------------------------------------------------------------------ scipy stubs
class Capture:
    """What the code under test handed to external routines (reset per path)."""
    eigh = []
    fsolve = []
    minimize = []

    @classmethod
    def reset(cls):
        cls.eigh, cls.fsolve, cls.minimize = [], [], []


def sp_eigh_tridiagonal(d, e, eigvals_only=False, **k):
    """Eigenvalues of a symmetric tridiagonal matrix: contract stub.

    Concrete coefficients: the eigenvalues to 60 digits.  The arguments are recorded, so that
    a check can state properties of the characteristic polynomial itself.
    """
    STUBS.add('scipy.linalg.eigh_tridiagonal')
    d, e = np_asarray(d, dtype=complex), np_asarray(e, dtype=complex)
    Capture.eigh.append((d.copy(), e.copy()))
    n = d.size
    dn, en = _num(d), _num(e)
    if e.size != n - 1:
        raise ValueError("e must have length one less than d")
    import scipy.linalg as spl
    w, v = spl.eigh_tridiagonal(dn, en)
    vals = []
    # polish with the characteristic polynomial in high precision
    dm = [_mp(x) for x in d]
    em = [_mp(x) for x in e]

    def char(t):
        p0, p1 = mpmath.mpf(1), t - dm[0]
        q0, q1 = mpmath.mpf(0), mpmath.mpf(1)
        for i in range(1, n):
            p0, p1, q0, q1 = p1, (t - dm[i]) * p1 - em[i - 1] ** 2 * p0, q1, \
                p1 + (t - dm[i]) * q1 - em[i - 1] ** 2 * q0
        return p1, q1
    S.approx_used = True
    for x in w:
        t = mpmath.mpf(float(x))
        for _ in range(8):
            f, g = char(t)
            if g == 0:
                break
            dt = f / g
            t -= dt
            if abs(dt) < mpmath.mpf(10) ** -75:
                break
        vals.append(Sym(sym.approx_fraction(t)))
    vals = mkarr(vals)
    if eigvals_only:
        return vals
    return vals, from_native(v)


def _mp(x):
    x = tosym(x)
    if isinstance(x.v, Fraction):
        return mpmath.mpf(x.v.numerator) / x.v.denominator
    if isinstance(x.v, poly.RF) and not x.v.den and poly._isalgconst(x.v.num):
        return mpmath.re(sym.const_mp(x.v.num)) / x.v.dc
    unsupported("numeric value of a symbolic expression")


def sp_lu(a, permute_l=False, p_indices=False, **k):
    """LU with partial pivoting, exact (ties and comparisons decided on the path)."""
    a = np_asarray(a, dtype=complex)
    m, n = a.shape
    A = [list(r) for r in base(a)]
    perm = list(range(m))
    L = [[ZERO] * min(m, n) for _ in range(m)]
    for k in range(min(m, n)):
        p = k
        for i in range(k + 1, m):
            x, y = A[i][k], A[p][k]
            if _fzero(x):
                continue
            if bool(x * x > y * y):
                p = i
        if p != k:
            A[k], A[p] = A[p], A[k]
            L[k], L[p] = L[p], L[k]
            perm[k], perm[p] = perm[p], perm[k]
        L[k][k] = ONE
        if sym.iszero(A[k][k]):
            continue
        for r in range(k + 1, m):
            if _fzero(A[r][k]):
                continue
            f = A[r][k] / A[k][k]
            L[r][k] = f
            A[r][k] = ZERO
            for c in range(k + 1, n):
                A[r][c] = A[r][c] - f * A[k][c]
    U = mkarr([row for row in A[:min(m, n)]])
    Lm = mkarr(L)
    P = np_zeros((m, m), complex)
    for i, p in enumerate(perm):
        P[p, i] = 1
    if p_indices:
        inv = np.argsort(np.array(perm))
        return inv, Lm, U
    if permute_l:
        return np_matmul(P, Lm), U
    return P, Lm, U


def sp_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    a = np_asarray(a, dtype=complex).copy()
    n = a.shape[0]
    for i in range(n):
        for j in range(n):
            if (lower and j > i) or (not lower and j < i):
                a[i, j] = 0
        if unit_diagonal:
            a[i, i] = 1
    if trans in (1, 'T', 2, 'C'):
        a = a.T
    return la_solve(a, b)


class OptResult(dict):
    __getattr__ = dict.get


FSOLVE = {'mode': 'root', 'hook': None}


def sp_fsolve(func, x0, args=(), full_output=False, **k):
    """Contract stub: returns a root of func (an arbitrary vector r with func(r) == 0)."""
    STUBS.add('scipy.optimize.fsolve')
    x0 = np_asarray(x0, dtype=complex)
    if not isinstance(args, tuple):
        args = (args,)
    hook = FSOLVE['hook']
    if hook is not None:
        r = hook(lambda x: func(x, *args), x0)
    else:
        r = sp_numeric_root(lambda x: func(x, *args), x0)
    Capture.fsolve.append((func, args, x0, r))
    if full_output:
        return r, {}, 1, ''
    return r


def sp_numeric_root(func, x0):
    """Numeric Newton polish of a root, constants only."""
    import scipy.optimize as spo

    def f(x):
        return _num(func(from_native(np.asarray(x, dtype=float))))
    # evaluate through the symbolic function on concrete values
    x = spo.fsolve(f, _num(x0), xtol=1e-14)
    S.approx_used = True
    return from_native(x)


def sp_minimize(fun, x0, args=(), method=None, **k):
    """Contract stub: the minimiser is an arbitrary point unless a hook supplies one."""
    STUBS.add('scipy.optimize.minimize')
    x0 = np_asarray(x0, dtype=complex)
    hook = FSOLVE.get('minhook')
    if hook is not None:
        x = hook(fun, x0)
    else:
        import scipy.optimize as spo

        def f(x):
            return float(_num(np_asarray(fun(from_native(np.asarray(x, dtype=float)))))[()])
        x = from_native(spo.minimize(f, _num(x0), method=method, **k).x)
        S.approx_used = True
    Capture.minimize.append((fun, x0, x))
    return OptResult(x=x, success=True, fun=None, status=0, message='', nfev=1, nit=1)


class SDense:
    """Sparse-matrix look-alike with dense symbolic storage."""

    def __init__(self, arg1, shape=None, dtype=None, copy=False, fmt='csr'):
        self.format = fmt
        if isinstance(arg1, SDense):
            self.a = arg1.a.copy()
        elif isinstance(arg1, tuple) and len(arg1) == 2 and all(isinstance(x, (int, np.integer, Sym)) for x in arg1):
            self.a = np_zeros(tuple(int(x) for x in arg1), complex)
        elif isinstance(arg1, tuple) and len(arg1) == 2:
            data, (i, j) = arg1
            i, j = [int(x) for x in np_asarray(i).ravel()], [int(x) for x in np_asarray(j).ravel()]
            if shape is None:
                shape = (max(i) + 1, max(j) + 1)
            self.a = np_zeros(shape, complex)
            for d, p, q in zip(np_asarray(data).ravel(), i, j):
                self.a[p, q] = self.a[p, q] + d
        elif isinstance(arg1, tuple) and len(arg1) == 3:
            data, ind, ptr = [np_asarray(x).ravel() for x in arg1]
            nmaj = len(ptr) - 1
            if shape is None:
                shape = (nmaj, int(max(ind)) + 1)
            self.a = np_zeros(shape, complex)
            for r in range(nmaj):
                for t in range(int(ptr[r]), int(ptr[r + 1])):
                    key = (r, int(ind[t])) if fmt != 'csc' else (int(ind[t]), r)
                    self.a[key] = self.a[key] + data[t]
        else:
            self.a = np_array(arg1, dtype=complex)

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return 2

    @property
    def T(self):
        return SDense(self.a.T, fmt=self.format)

    def transpose(self):
        return self.T

    def __setitem__(self, k, v):
        if isinstance(v, SDense):
            v = v.a
        self.a[k] = v

    def __getitem__(self, k):
        r = self.a[k]
        if isinstance(r, np.ndarray) and r.ndim == 2:
            return SDense(r, fmt=self.format)
        if isinstance(r, np.ndarray) and r.ndim == 1:
            return SDense(r[None, :], fmt=self.format)
        return r

    def toarray(self, *a, **k):
        return self.a.copy()
    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def tocsc(self, *a, **k): return SDense(self, fmt='csc')
    def tocsr(self, *a, **k): return SDense(self, fmt='csr')
    def tolil(self, *a, **k): return SDense(self, fmt='lil')
    def tocoo(self, *a, **k): return SDense(self, fmt='coo')
    def todok(self, *a, **k): return SDense(self, fmt='dok')
    def copy(self): return SDense(self, fmt=self.format)
    def asformat(self, f, **k): return SDense(self, fmt=f)

    def dot(self, o):
        if isinstance(o, SDense):
            return SDense(np_matmul(self.a, o.a), fmt=self.format)
        return np_dot(self.a, o)
    __matmul__ = dot

    def __rmatmul__(self, o):
        return np_matmul(np_asarray(o), self.a)

    def __mul__(self, o):
        if isinstance(o, (SDense, np.ndarray)):
            return self.dot(o)
        return SDense(self.a * o, fmt=self.format)
    __rmul__ = __mul__

    def __add__(self, o):
        return SDense(self.a + (o.a if isinstance(o, SDense) else o), fmt=self.format)

    def __sub__(self, o):
        return SDense(self.a - (o.a if isinstance(o, SDense) else o), fmt=self.format)

    def __neg__(self):
        return SDense(-self.a, fmt=self.format)

    def __truediv__(self, o):
        return SDense(self.a / o, fmt=self.format)

    def sum(self, axis=None):
        return self.a.sum(axis=axis)

    def diagonal(self):
        return np.diagonal(self.a)

    @property
    def nnz(self):
        return int(np_count_nonzero(self.a))

    def getrow(self, i):
        return SDense(self.a[i:i + 1])

    def eliminate_zeros(self):
        pass

    def nonzero(self):
        return np_nonzero(self.a)


def _sparse(fmt):
    def f(arg1, shape=None, dtype=None, copy=False, **k):
        return SDense(arg1, shape=shape, fmt=fmt)
    return f


# ------------------------------------------------------------------ errstate
class errstate:
    def __init__(self, all=None, **k):
        self.k = dict(k)
        k.pop('call', None)
        if all is not None:
            for n in ('divide', 'over', 'under', 'invalid'):
                self.k.setdefault(n, all)

    def __enter__(self):
        self.old = dict(S.errstate)
        S.errstate.update(self.k)
        return self

    def __exit__(self, *a):
        S.errstate.clear()
        S.errstate.update(self.old)

    def __call__(self, f):
        @functools.wraps(f)
        def g(*a, **k):
            with errstate(**self.k):
                return f(*a, **k)
        return g


def np_seterr(all=None, **k):
    old = dict(S.errstate)
    e = errstate(all=all, **k)
    S.errstate.update(e.k)
    return old


def np_geterr():
    return dict(S.errstate)


# ------------------------------------------------------------------ polynomial helpers
def np_polyval(p, x):
    p = np_asarray(p)
    y = np_zeros_like(np_asarray(x, dtype=complex)) if isinstance(x, (np.ndarray, list, tuple)) else ZERO
    x = np_asarray(x, dtype=complex) if isinstance(x, (np.ndarray, list, tuple)) else x
    for c in p:
        y = y * x + c
    return y


def np_vander(x, N=None, increasing=False):
    x = np_asarray(x)
    if type(x) is np.ndarray and x.dtype.kind in 'iub':
        return np.vander(x, N if N is None else int(N), increasing)        # integers overflow as those of numpy
    x = np_asarray(x, dtype=complex)
    N = x.size if N is None else int(N)
    out = np_ones((x.size, N), complex)
    for i in range(x.size):
        v = ONE
        for j in range(N):
            out[i, j if increasing else N - 1 - j] = v
            v = v * x[i]
    return out


def np_polyfit(x, y, deg, **k):
    X = np_vander(x, int(deg) + 1)
    return la_lstsq(X, y)[0]


def np_cov(*a, **k):
    unsupported("cov")


def np_median(a, axis=None, **k):
    s = np_sort(np_asarray(a, dtype=complex).ravel())
    n = s.size
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def np_mean(a, axis=None, **k):
    a = np_asarray(a, dtype=complex)
    return a.mean(axis=axis, keepdims=bool(k.get('keepdims', False)) if k.get('keepdims') is not np._NoValue else False)


def np_average(a, axis=None, weights=None, **k):
    a = np_asarray(a, dtype=complex)
    if weights is None:
        return a.mean(axis=axis)
    w = np_asarray(weights, dtype=complex)
    if axis is not None and w.ndim < a.ndim:
        unsupported("average")
    return (a * w).sum(axis=axis) / w.sum(axis=axis)


def np_interp(*a, **k):
    unsupported("interp")


def np_diag_indices_from(a):
    return np.diag_indices(a.shape[0], a.ndim)


def np_ediff1d(a, to_end=None, to_begin=None):
    a = np_asarray(a).ravel()
    d = a[1:] - a[:-1]
    parts = []
    if to_begin is not None:
        parts.append(np_asarray(to_begin).ravel())
    parts.append(d)
    if to_end is not None:
        parts.append(np_asarray(to_end).ravel())
    return d if len(parts) == 1 else np_concat(parts)


def np_concat(arrs, axis=0, out=None, **k):
    arrs = [np_asarray(x) for x in arrs]
    if any(isinstance(x, SArr) for x in arrs):
        arrs = [base(x) if isinstance(x, SArr) else base(from_native(x)) for x in arrs]
        r = np.concatenate(arrs, axis=axis).view(SArr)
        return _store(out, r) if out is not None else r
    return np.concatenate(arrs, axis=axis)


def np_block(arrays):
    """numpy.block: nested lists, innermost joined along the last axis."""
    def depth(x):
        if isinstance(x, list):
            if not x:
                raise ValueError("List at arrays cannot be empty")
            ds = {depth(y) for y in x}
            if len(ds) != 1:
                raise ValueError("List depths are mismatched")
            return ds.pop() + 1
        if isinstance(x, tuple):
            raise TypeError("arrays is a tuple")
        return 0

    def leaves(x):
        if isinstance(x, list):
            for y in x:
                yield from leaves(y)
        else:
            yield x

    d = depth(arrays)
    nd = max([np_asarray(x).ndim for x in leaves(arrays)] + [d])

    def build(x, lev):
        if isinstance(x, list):
            return np_concat([build(y, lev + 1) for y in x], axis=lev - d)
        a = np_asarray(x)
        return a.reshape((1,) * (nd - a.ndim) + a.shape)

    return wrap(np_array(build(arrays, 0)))


def _lift_args(fn):
    """Real numpy function on symbolic-ready arguments."""
    @functools.wraps(fn)
    def f(*args, **k):
        k = {a: (object if a == 'dtype' and v in (SFloat, SComplex) else v) for a, v in k.items()}
        args = [_prep(x) for x in args]
        k = {a: (_prep(v) if a not in ('dtype',) else v) for a, v in k.items()}
        return wrap(fn(*args, **k))
    return f


def _prep(x):
    if isinstance(x, (list, tuple)) and _has_sym(x):
        if all(isinstance(y, np.ndarray) for y in x):
            if any(isinstance(y, SArr) for y in x):
                return type(x)(y if isinstance(y, SArr) else from_native(y) for y in x)
            return x
        if any(isinstance(y, (list, tuple, np.ndarray)) for y in x):
            try:
                return np_array(x)
            except ValueError:
                return type(x)(_prep(y) for y in x)
        return np_array(x)
    if type(x) is Sym and not x.isconst():
        return x
    if type(x) is Sym:
        return x
    return x


def _has_sym(x):
    return any(isinstance(y, (Sym, LogVal, SArr, SymBool)) or (isinstance(y, (list, tuple)) and _has_sym(y)) for y in x)


# ------------------------------------------------------------------ module objects
class ShimModule(types.ModuleType):
    def __init__(self, name, real, table, sub=()):
        super().__init__(name)
        d = self.__dict__
        d['_real'] = real
        d['_cache'] = {}
        d.update(table)
        d['__path__'] = getattr(real, '__path__', [])

    def __getattr__(self, k):
        c = self._cache
        if k in c:
            return c[k]
        if self._real is None:
            raise AttributeError(k)
        r = getattr(self._real, k)
        if isinstance(r, types.ModuleType):
            return r
        if isinstance(r, type):
            if issubclass(r, np.complexfloating):
                r = SComplex
            elif issubclass(r, np.floating) and r is not np.floating:
                r = SFloat
        elif isinstance(r, np.ufunc):
            r = ShimUfunc(r)
        elif callable(r):
            r = _lift_args(r)
        elif isinstance(r, float) and r == r and abs(r) != float('inf'):
            r = lift(r)
        c[k] = r
        return r


class ShimUfunc:
    """A ufunc whose scalar / list arguments also go through the symbolic dispatch."""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__
        self.nin, self.nout = u.nin, u.nout

    def __call__(self, *args, **kw):
        args = list(args)
        if len(args) > self.u.nin:
            kw['out'] = args.pop()
        args = [np_asarray(a) if isinstance(a, (list, tuple)) else a for a in args]
        symb = any(isinstance(a, (SArr, Sym, LogVal, SymBool, float, complex, np.floating)) for a in args) or \
            isinstance(kw.get('out'), SArr) or self._floaty(args)
        if symb:
            if isinstance(kw.get('out'), tuple):
                kw['out'] = kw['out'][0]
            return ufunc_dispatch(self.u, '__call__', tuple(args), kw)
        return wrap(self.u(*args, **kw))

    def _floaty(self, args):
        """ufuncs that turn integer inputs into floats must be exact."""
        return self.u.__name__ in ('divide', 'sqrt', 'exp', 'log', 'log10', 'cos', 'sin', 'tan', 'log2',
                                   'expm1', 'log1p', 'cbrt', 'hypot', 'reciprocal', 'exp2', 'power', 'float_power') and \
            not (self.u.__name__ == 'power' and all(np.asarray(a).dtype.kind in 'iub' for a in args)
                 and np.all(np.asarray(args[1]) >= 0))

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        a = np_asarray(a)
        if not isinstance(a, SArr):
            return wrap(self.u.reduce(a, axis=axis, keepdims=keepdims))
        r = reduce_(self.u.__name__, a, axis, keepdims, initial, where)
        return _store(out, r) if out is not None else r

    def accumulate(self, a, axis=0, dtype=None, out=None):
        a = np_asarray(a)
        if not isinstance(a, SArr):
            return wrap(self.u.accumulate(a, axis=axis))
        return ufunc_dispatch(self.u, 'accumulate', (a,), dict(axis=axis, out=out))

    def outer(self, a, b, **k):
        return ufunc_dispatch(self.u, 'outer', (a, b), {}) if (
            isinstance(np_asarray(a), SArr) or isinstance(np_asarray(b), SArr) or self._floaty([a, b])) \
            else self.u.outer(np_asarray(a), np_asarray(b))

    def at(self, a, *rest):
        if isinstance(a, SArr):
            return ufunc_dispatch(self.u, 'at', (a,) + rest, {})
        return self.u.at(a, *rest)


NPTABLE = dict(
    array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray,
    asfarray=np_asarray, asfortranarray=np_asarray,
    zeros=np_zeros, ones=np_ones, empty=np_empty, full=np_full, eye=np_eye, identity=np_identity,
    zeros_like=np_zeros_like, ones_like=np_ones_like, empty_like=np_empty_like, full_like=np_full_like,
    tri=np_tri, linspace=np_linspace, arange=np_arange, logspace=np_logspace, geomspace=np_geomspace,
    where=np_where, nonzero=np_nonzero, flatnonzero=np_flatnonzero, argwhere=np_argwhere,
    count_nonzero=np_count_nonzero, max=np_max, min=np_min, amax=np_max, amin=np_min, ptp=np_ptp,
    nanmax=np_max, nanmin=np_min,
    all=np_all, any=np_any, sum=np_sum, prod=np_prod, argmax=np_argmax, argmin=np_argmin,
    argsort=np_argsort, sort=np_sort, unique=np_unique, setdiff1d=np_setdiff1d, isin=np_isin, in1d=np_isin,
    searchsorted=np_searchsorted, isclose=np_isclose, allclose=np_allclose, array_equal=np_array_equal,
    array_equiv=np_array_equal,
    clip=np_clip, round=np_round, around=np_round, nan_to_num=np_nan_to_num, isscalar=np_isscalar,
    fill_diagonal=np_fill_diagonal, isreal=np_isreal, issubdtype=np_issubdtype, iscomplex=np_iscomplex, real_if_close=np_real_if_close, iscomplexobj=np_iscomplexobj, isrealobj=lambda x: not np_iscomplexobj(x),
    matmul=np_matmul, dot=np_dot, inner=np_inner, vdot=np_vdot, tensordot=np_tensordot, outer=np_outer,
    kron=np_kron, einsum=np_einsum, errstate=errstate, seterr=np_seterr, geterr=np_geterr,
    polyval=np_polyval, vander=np_vander, polyfit=np_polyfit, cov=np_cov, median=np_median, mean=np_mean,
    average=np_average, interp=np_interp, diag_indices_from=np_diag_indices_from, ediff1d=np_ediff1d,
    concatenate=np_concat, concat=np_concat, block=np_block,
    real=lambda x: emap(sym.sreal, np_asarray(x)) if isinstance(x, (np.ndarray, list, tuple)) else sym.sreal(tosym(x)),
    imag=lambda x: emap(sym.simag, np_asarray(x)) if isinstance(x, (np.ndarray, list, tuple)) else sym.simag(tosym(x)),
    float64=SFloat, float32=SFloat, double=SFloat, float_=SFloat, longdouble=SFloat,
    complex128=SComplex, complex64=SComplex, cdouble=SComplex,
    bool_=np.bool_, ndarray=np.ndarray,
)

OVERRIDE = {}
for _k, _f in list(NPTABLE.items()):
    _r = getattr(np, _k, None)
    if _r is not None and callable(_r) and not isinstance(_r, (type, np.ufunc)):
        OVERRIDE[_r] = _f

LATABLE = dict(solve=la_solve, inv=la_inv, det=la_det, norm=la_norm, matrix_power=la_matrix_power,
               eigvals=la_eigvals, eig=la_numeric(np.linalg.eig),
               eigvalsh=la_numeric(np.linalg.eigvalsh), eigh=la_numeric(np.linalg.eigh),
               svd=la_numeric(np.linalg.svd), qr=la_numeric(np.linalg.qr),
               cholesky=la_numeric(np.linalg.cholesky), cond=la_numeric(np.linalg.cond),
               matrix_rank=la_numeric(np.linalg.matrix_rank),
               lstsq=la_lstsq, pinv=la_pinv, multi_dot=la_multi_dot, LinAlgError=np.linalg.LinAlgError)
for _k, _f in LATABLE.items():
    _r = getattr(np.linalg, _k, None)
    if callable(_r) and not isinstance(_r, type):
        OVERRIDE[_r] = _f

FFTTABLE = dict(fft=fft_fft, ifft=fft_ifft, rfft=fft_rfft, irfft=fft_irfft, hfft=fft_hfft)
for _k, _f in FFTTABLE.items():
    OVERRIDE[getattr(np.fft, _k)] = _f


class _Vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f = f

    def __call__(self, *args):
        r = np.frompyfunc(self.f, len(args), 1)(*[_tonat(np_asarray(a)) for a in args])
        return wrap(r) if isinstance(r, np.ndarray) and r.ndim else (r[()] if isinstance(r, np.ndarray) else r)


def build_modules():
    npl = ShimModule('numpy.linalg', np.linalg, LATABLE)
    npf = ShimModule('numpy.fft', np.fft, FFTTABLE)
    leg = ShimModule('numpy.polynomial.legendre', np.polynomial.legendre, dict(leggauss=gauss_legendre))
    npp = ShimModule('numpy.polynomial', np.polynomial, dict(legendre=leg))
    tab = dict(NPTABLE, linalg=npl, fft=npf, polynomial=npp, vectorize=_Vectorize)
    m = ShimModule('numpy', np, tab)
    import scipy
    import scipy.linalg
    import scipy.special
    import scipy.optimize
    import scipy.sparse
    spl = ShimModule('scipy.linalg', scipy.linalg, dict(
        LATABLE, eigh_tridiagonal=sp_eigh_tridiagonal,
        eigvalsh_tridiagonal=lambda d, e, **k: sp_eigh_tridiagonal(d, e, eigvals_only=True),
        lu=sp_lu, solve_triangular=sp_solve_triangular))
    sps = ShimModule('scipy.special', scipy.special, dict(
        roots_legendre=lambda n, mu=False: gauss_legendre(n), p_roots=lambda n, mu=False: gauss_legendre(n)))
    spo = ShimModule('scipy.optimize', scipy.optimize, dict(fsolve=sp_fsolve, minimize=sp_minimize))
    sparse_t = {}
    for f in ('csr', 'csc', 'lil', 'coo', 'dok'):
        sparse_t[f + '_matrix'] = _sparse(f)
        sparse_t[f + '_array'] = _sparse(f)
    sparse_t['issparse'] = lambda x: isinstance(x, SDense)
    spsp = ShimModule('scipy.sparse', scipy.sparse, sparse_t)
    sp = ShimModule('scipy', scipy, dict(linalg=spl, special=sps, optimize=spo, sparse=spsp))
    import math
    import cmath
    mt = ShimModule('math', None, {})
    for k in dir(math):
        if not k.startswith('__'):
            mt.__dict__[k] = getattr(math, k)

    def m1(f):
        return lambda x: f(tosym(x))
    for k, f in dict(sqrt=sym.ssqrt, exp=sym.sexp, log10=sym.slog10, fabs=sym.sabs,
                     cos=lambda a: sym.strig(a, 'cos'), sin=lambda a: sym.strig(a, 'sin'),
                     tan=lambda a: sym.strig(a, 'sin') / sym.strig(a, 'cos')).items():
        mt.__dict__[k] = m1(f)
    mt.__dict__['log'] = lambda x, b=None: sym.slog(tosym(x)) if b is None else sym.slog(tosym(x)) / sym.slog(tosym(b))
    mt.__dict__['floor'] = lambda x: int(sym.sfloor(tosym(x)))
    mt.__dict__['ceil'] = lambda x: -int(sym.sfloor(-tosym(x)))
    mt.__dict__['pow'] = lambda a, b: sym.spow(tosym(a), b)
    mt.__dict__['fsum'] = lambda l: sum(l, ZERO)
    mt.__dict__['prod'] = lambda l, start=1: functools.reduce(lambda a, b: a * b, l, start)
    mt.__dict__['isnan'] = lambda x: tosym(x).isnan()
    mt.__dict__['isinf'] = lambda x: tosym(x).isinf()
    mt.__dict__['isfinite'] = lambda x: tosym(x).isfinite()
    mt.__dict__['hypot'] = lambda a, b: sym.ssqrt(tosym(a) * a + tosym(b) * b)
    mt.__dict__['copysign'] = lambda a, b: EL['copysign'](a, b)
    mt.__dict__['isclose'] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
        sym.sabs(tosym(a) - b) <= sym.smax([tosym(rel_tol) * sym.smax([sym.sabs(tosym(a)), sym.sabs(tosym(b))]),
                                            tosym(abs_tol)]))
    return {'numpy': m, 'numpy.linalg': npl, 'numpy.fft': npf, 'numpy.polynomial': npp,
            'numpy.polynomial.legendre': leg, 'scipy': sp, 'scipy.linalg': spl,
            'scipy.special': sps, 'scipy.optimize': spo, 'scipy.sparse': spsp, 'math': mt}


MODULES = build_modules()
npmod = MODULES['numpy']


def set_pi():
    """np.pi / math.pi for the current mode."""
    p = sym.pi_sym() if S.mode == 'exact' else Sym(sym.approx_fraction(mpmath.pi))
    npmod.__dict__['pi'] = p
    MODULES['math'].__dict__['pi'] = p
    e = Sym(sym.approx_fraction(mpmath.e))
    npmod.__dict__['e'] = e
    MODULES['math'].__dict__['e'] = e
