"""Symbolic scalars: exact rational functions over Q with path-forking comparisons.

A `Sym` behaves like the float / complex / numpy scalar it stands for.  Its value is a
Fraction, a rational function (poly.RF) or one of the IEEE specials (inf, -inf, nan).
Comparisons build `SymBool`s whose truth value is asked from the current path (which
consults z3 and forks when both outcomes are feasible).
"""
import operator
from fractions import Fraction
from math import gcd

import mpmath
import z3

from . import poly
from .poly import V, RF, BITS, FM

mpmath.mp.dps = 80
INF = float('inf')
APPROX_BITS = 220


class Unsupported(BaseException):
    """The engine cannot follow the code here: the case is inconclusive."""


class Infeasible(BaseException):
    """The current path cannot happen (assumption violated): dropped."""


class Stop(BaseException):
    """Budget exhausted."""


class State:
    path = None            # current Path
    errstate = {'divide': 'warn', 'over': 'warn', 'under': 'ignore', 'invalid': 'warn'}
    mode = 'exact'         # 'exact' | 'approx': how trigonometric constants are represented
    approx_used = False
    memo = {}
    fresh = 0
    fpkinds = None         # kinds of range errors the inputs allow
    shadow = None          # idx -> sample value: range errors of floating point follow the sample
    fpfault = False        # explore under/overflow of products of symbolic values
    importing = False      # top-level import of the package: trigonometric constants are approximated
    needcyc = None         # cyclotomic order a swallowed NeedCyc asked for


def approx_trig():
    return S.mode == 'approx' or S.importing


S = State


def unsupported(msg):
    if S.path is not None:
        S.path.unsupported.append(msg)
    raise Unsupported(msg)


def reset():
    V.reset()
    S.memo = {}
    S.fresh = 0
    S.approx_used = False
    S.importing = False
    S.needcyc = None
    S.errstate = dict(divide='warn', over='warn', under='ignore', invalid='warn')


# ------------------------------------------------------------------ numeric evaluation
def _algvalue(idx):
    v = V.numcache.get(idx)
    if v is None:
        v = V.numcache[idx] = V.algval[idx]() if callable(V.algval[idx]) else V.algval[idx]
    return v


def const_mp(p):
    """mpmath value of a polynomial in algebraic constants only."""
    t = mpmath.mpf(0)
    for m, c in p.items():
        x = mpmath.mpf(c)
        for i, e in poly.monomial_items(m):
            x = x * _algvalue(i) ** e
        t += x
    return t


def approx_fraction(x):
    """mpmath real -> Fraction with APPROX_BITS bits."""
    n = mpmath.nint(mpmath.ldexp(x, APPROX_BITS))
    return Fraction(int(n), 1 << APPROX_BITS)


# ------------------------------------------------------------------ z3 encoding
def z3var(idx):
    v = S.path.z3vars.get(idx)
    if v is None:
        name = V.byidx[idx]
        if V.kind[idx] == 'int':
            v = z3.ToReal(z3.Int(name))
        else:
            v = z3.Real(name)
        S.path.z3vars[idx] = v
        if V.kind[idx] == 'alg':
            deg, rhs = V.rules[idx]
            S.path.add_z3(v > 0, linear=True)
            if len(rhs) == 1 and 0 in rhs:
                # bracket the root: keeps linear queries linear
                a = approx_fraction(_algvalue(idx))
                eps = Fraction(1, 10 ** 40)
                S.path.add_z3(z3.And(v >= fr(a - eps), v <= fr(a + eps)), linear=True)
            else:
                S.path.add_z3(v ** deg == z3poly(rhs), linear=False)
    return v


def fr(x):
    x = Fraction(x)
    return z3.RealVal(f"{x.numerator}/{x.denominator}")


def z3poly(p):
    cyc = V.cycidx
    if cyc is not None:
        sh = BITS * cyc
        if any((m >> sh) & FM for m in p):
            groups = {}
            for m, c in p.items():
                e = (m >> sh) & FM
                groups.setdefault(m - (e << sh), []).append((e, c))
            terms = []
            for m, l in groups.items():
                val = sum((c * _algvalue(cyc) ** e for e, c in l), mpmath.mpc(0))
                if abs(mpmath.im(val)) > mpmath.mpf(10) ** -40:
                    unsupported("comparison of complex values")
                terms.append(fr(approx_fraction(mpmath.re(val))) * _z3mono(m))
            return z3.Sum(terms) if terms else z3.RealVal(0)
    if not p:
        return z3.RealVal(0)
    return z3.Sum([z3.RealVal(c) * _z3mono(m) if m else z3.RealVal(c) for m, c in p.items()])


def _z3mono(m):
    fs = []
    for i, e in poly.monomial_items(m):
        v = z3var(i)
        fs += [v] * e
    if not fs:
        return z3.RealVal(1)
    return fs[0] if len(fs) == 1 else z3.Product(fs)


def pdegree(p):
    """Total degree over non-constant variables."""
    d = 0
    for m in p:
        t = 0
        for i, e in poly.monomial_items(m):
            if V.kind[i] != 'alg' or not _isconstalg(i):
                t += e
        d = max(d, t)
    return d


def _isconstalg(i):
    deg, rhs = V.rules[i]
    return poly._isalgconst(rhs)


# ------------------------------------------------------------------ decisions on polynomials
OPS = {'<': frozenset([-1]), '<=': frozenset([-1, 0]), '==': frozenset([0]),
       '!=': frozenset([-1, 1]), '>': frozenset([1]), '>=': frozenset([0, 1])}
NEGOP = {'<': '>=', '<=': '>', '==': '!=', '!=': '==', '>': '<=', '>=': '<'}
FLIP = {'<': '>', '<=': '>=', '==': '==', '!=': '!=', '>': '<', '>=': '<='}
ALL = frozenset([-1, 0, 1])


def poly_sign_const(p):
    """Sign of an algebraic constant (0 iff p is formally zero)."""
    if not p:
        return 0
    if len(p) == 1 and 0 in p:
        return 1 if p[0] > 0 else -1
    v = const_mp(p)
    if isinstance(v, mpmath.mpc):
        if abs(v.imag) > mpmath.mpf(10) ** -40 * (1 + abs(v)):
            unsupported("ordering of complex constants")
        v = v.real
    return 1 if v > 0 else -1


def canon(p):
    """(primitive poly with positive leading coefficient, sign of the constant)."""
    c = poly.pcontent(p)
    s = 1
    if p[max(p)] < 0:
        c, s = -c, -1
    if c != 1:
        p = {m: k // c for m, k in p.items()}
    return p, s


def modulus2(p):
    """p itself, or |p|^2 if p has complex values."""
    if V.cycidx is None:
        return p
    q = conj_poly(p)
    if q == p:
        return p
    return poly.preduce(poly.pmul(p, q))


def decide_poly(p, op):
    """Truth of `p op 0` on the current path (forks)."""
    if poly._isalgconst(p):
        if op in ('==', '!='):
            return (not p) == (op == '==')
        return poly_sign_const(p) in OPS[op]
    if op in ('==', '!='):
        p = modulus2(p)
    p, s = canon(p)
    if s < 0:
        op = FLIP[op]
    return S.path.decide(p, op)


def rf_parts(v):
    """RF -> (sign, {factor poly key: odd?}) of the numerator and the denominator."""
    c, fs = poly.split_factors(v.num)
    return c, fs


def decide_rf(v, op):
    """Truth of `v op 0` for an RF v with nonzero denominator."""
    if not v.num:
        return 0 in OPS[op]
    if v.isconst():
        return (1 if v.constval() > 0 else -1) in OPS[op]
    if poly._isalgconst(v.num) and not v.den:
        return poly_sign_const(v.num) in OPS[op]
    c, nf = poly.split_factors(v.num)
    if op in ('==', '!='):
        zero = any(decide_poly(V.factors[f], '==') for f in nf)
        return zero == (op == '==')
    sign = 1 if c > 0 else -1
    odd = []
    fl = {}
    for f, e in nf.items():
        fl[f] = fl.get(f, 0) + e
    for f, e in v.den.items():
        fl[f] = fl.get(f, 0) + e
    und = []
    cplx = None
    for f, e in fl.items():
        p = V.factors[f]
        if poly._isalgconst(p):
            # constant factors may be complex (their product is real)
            x = const_mp(p) ** (e if f in nf else -e)
            cplx = x if cplx is None else cplx * x
            continue
        if e % 2 == 0:
            if f in nf and decide_poly(p, '=='):
                return 0 in OPS[op]
            continue
        q, sg = canon(p)
        st = S.path.determine(q)
        if len(st) == 1:
            x = next(iter(st)) * sg
            if x == 0:
                return 0 in OPS[op]
            sign *= x
        else:
            und.append(p)
    if cplx is not None:
        if abs(mpmath.im(cplx)) > mpmath.mpf(10) ** -40 * (1 + abs(cplx)):
            unsupported("ordering of complex values")
        sign *= 1 if mpmath.re(cplx) > 0 else -1
    if not und:
        return sign in OPS[op]
    if len(und) <= 1 or sum(pdegree(p) for p in und) <= 3:
        prod = und[0]
        for p in und[1:]:
            prod = poly.pmul(prod, p)
        return decide_poly(prod, op if sign > 0 else FLIP[op])
    for p in und:
        if decide_poly(p, '>'):
            continue
        if decide_poly(p, '=='):
            return 0 in OPS[op]
        sign = -sign
    return sign in OPS[op]


# ------------------------------------------------------------------ SymBool
class SymBool:
    __slots__ = ('k', 'a')

    def __init__(self, k, a):
        self.k, self.a = k, a

    def __bool__(self):
        k = self.k
        if k == 'atom':
            return decide_rf(self.a[0], self.a[1])
        if k == 'not':
            return not bool(self.a)
        if k == 'and':
            return all(bool(x) for x in self.a)
        if k == 'or':
            return any(bool(x) for x in self.a)
        raise AssertionError

    def z3(self):
        k = self.k
        if k == 'atom':
            v, op = self.a
            return rel_z3(v, op)
        if k == 'not':
            return z3.Not(tz3(self.a))
        if k == 'and':
            return z3.And([tz3(x) for x in self.a])
        return z3.Or([tz3(x) for x in self.a])

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool('and', [self, o])
        if isinstance(o, (bool, _npbool)):
            return self if o else False
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool('or', [self, o])
        if isinstance(o, (bool, _npbool)):
            return True if o else self
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool('not', self)

    def logical_not(self):
        return SymBool('not', self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _n(self):
        return int(bool(self))

    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()

    def __repr__(self):
        return f"SymBool({self.k})"


import numpy as _np
_npbool = _np.bool_


def tz3(x):
    if isinstance(x, SymBool):
        return x.z3()
    return z3.BoolVal(bool(x))


def rel_z3(v, op):
    """z3 formula for `v op 0`."""
    p = v.num
    if v.den:
        if op not in ('==', '!='):
            for f, e in v.den.items():
                if e % 2:
                    q, sg = canon(V.factors[f])
                    st = S.path.signs.get(frozenset(q.items()), ALL)
                    if len(st) == 1:
                        if next(iter(st)) * sg < 0:
                            p = poly.pneg(p)
                    else:
                        p = poly.pmul(p, V.factors[f])
    if op in ('==', '!='):
        p = modulus2(p)
    e = z3poly(p)
    return {'<': e < 0, '<=': e <= 0, '==': e == 0, '!=': e != 0, '>': e > 0, '>=': e >= 0}[op]


def sand(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool('and', out)


def sor(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool('or', out)


def snot(x):
    return SymBool('not', x) if isinstance(x, SymBool) else not x


# ------------------------------------------------------------------ LogVal
class LogVal:
    """sum of integer/rational multiples of log(arg), every arg > 0 on the path."""
    __slots__ = ('t', 'c')
    __array_priority__ = 1000.0
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, t, c=None):
        self.t = t              # list of (coef Fraction, Sym)
        self.c = c if c is not None else Sym(Fraction(0))      # additive Sym

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .shim import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    @staticmethod
    def lift(o):
        if isinstance(o, LogVal):
            return o
        o = tosym(o)
        return LogVal([], o)

    def __add__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = LogVal.lift(o)
        return LogVal(self.t + o.t, self.c + o.c)
    __radd__ = __add__

    def __neg__(self):
        return LogVal([(-k, a) for k, a in self.t], -self.c)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return self + (-LogVal.lift(o))

    def __rsub__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return LogVal.lift(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, LogVal):
            a, b = self.opaque(), o.opaque()
            return a * b
        o = tosym(o)
        if not o.isconst():
            return self.opaque() * o
        f = o.constfrac()
        return LogVal([(k * f, a) for k, a in self.t], self.c * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, LogVal):
            return self.opaque() / o.opaque()
        o = tosym(o)
        if not o.isconst():
            return self.opaque() / o
        return self * (Sym(Fraction(1)) / o)

    def __rtruediv__(self, o):
        return tosym(o) / self.opaque()

    def __pow__(self, n):
        return self.opaque() ** n

    def opaque(self):
        """Plain symbolic value: an uninterpreted log of each argument."""
        r = self.c
        for k, a in self.t:
            r = r + Sym(k) * log_opaque(a)
        return r

    def prod(self):
        """argument of the log, as a Sym (integer exponents needed)."""
        r = Sym(Fraction(1))
        for k, a in self.t:
            if k.denominator == 1:
                b = a if abs(k) == 1 else a ** int(abs(k))
                r = r * b if k > 0 else r / b
            else:
                r = r * ssqrt_n(a, k)
        return r

    def exp(self):
        r = self.prod()
        if not (self.c.isconst() and self.c.v == 0):
            r = r * sexp(self.c)
        elif S.shadow is not None and S.path is not None:
            e = shadow_value(r)
            if e:
                r = shadowed(r, _np.exp, _np.array([float(mpmath.log(mpmath.mpf(e.numerator) / e.denominator))]))
        return r

    def _cmp(self, o, op):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if not isinstance(o, LogVal):
            o = tosym(o)
            if o.special():
                return Sym(Fraction(0))._cmp(o, op)
        o = LogVal.lift(o)
        d = self - o
        if not (d.c.isconst() and d.c.v == 0):
            return d.opaque()._cmp(Sym(Fraction(0)), op)
        return d.prod()._cmp(Sym(Fraction(1)), op)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    __hash__ = None

    def log10(self):
        return self.opaque().log10()

    def copy(self):
        return self

    def item(self):
        return self

    def __abs__(self):
        return abs(self.opaque())


# ------------------------------------------------------------------ Sym
class Sym:
    __slots__ = ('v',)
    __array_priority__ = 1000.0
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, v):
        self.v = v

    # ---- classification
    def isconst(self):
        return isinstance(self.v, Fraction)

    def special(self):
        return isinstance(self.v, float)

    def constfrac(self):
        if isinstance(self.v, Fraction):
            return self.v
        if isinstance(self.v, RF) and not self.v.den and poly._isalgconst(self.v.num):
            x = const_mp(self.v.num) / self.v.dc
            S.approx_used = True
            return approx_fraction(mpmath.re(x))
        raise Unsupported("not a constant")

    def rf(self):
        v = self.v
        if isinstance(v, RF):
            return v
        if isinstance(v, float):
            raise Unsupported("special value in arithmetic")
        return RF.const(v)

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, LogVal):
            return o + self
        a, b = self.v, o.v
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return Sym(shrink(a + b))
        if isinstance(a, float) or isinstance(b, float):
            return _spec_add(self, o)
        return mk(self.rf().add(o.rf()))
    __radd__ = __add__

    def __neg__(self):
        v = self.v
        if isinstance(v, RF):
            return Sym(v.neg())
        return Sym(-v)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, LogVal):
            return LogVal.lift(self) - o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, LogVal):
            return o * self
        a, b = self.v, o.v
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return Sym(shrink(a * b))
        if isinstance(a, float) or isinstance(b, float):
            return _spec_mul(self, o)
        return mk(self.rf().mul(o.rf()))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return sdiv(o, self)

    def __pow__(self, n):
        if isinstance(n, _np.ndarray):
            return NotImplemented
        return spow(self, n)

    def __rpow__(self, b):
        return spow(tosym(b), self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return sfloor(sdiv(self, o))

    def __rfloordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return sfloor(sdiv(o, self))

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self - o * sfloor(sdiv(self, o))

    def __rmod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o - self * sfloor(sdiv(o, self))

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __abs__(self):
        return sabs(self)

    # ---- comparison
    def _cmp(self, o, op):
        o = lift(o)
        if o is None:
            if op == '==':
                return NotImplemented
            return NotImplemented
        if isinstance(o, LogVal):
            return o._cmp(self, FLIP[op])
        a, b = self.v, o.v
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return PYOP[op](a, b)
        if isinstance(a, float) or isinstance(b, float):
            x = a if isinstance(a, float) else 0.0
            y = b if isinstance(b, float) else 0.0
            return PYOP[op](x, y)
        d = self.rf().add(o.rf().neg())
        if not d.num:
            return 0 in OPS[op]
        if d.isconst():
            return (1 if d.constval() > 0 else -1) in OPS[op]
        if not d.den and poly._isalgconst(d.num):
            if op in ('==', '!='):
                return op == '!='
            return poly_sign_const(d.num) in OPS[op]
        if op not in ('==', '!='):
            noorder(d)
        return SymBool('atom', (d, op))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    def __bool__(self):
        if isinstance(self.v, Fraction):
            return self.v != 0
        if isinstance(self.v, float):
            return True
        return bool(self != 0)

    def __hash__(self):
        if isinstance(self.v, Fraction):
            return hash(self.v)
        if isinstance(self.v, RF) and self.isintvar():
            return hash(self.concretize())
        return id(self)

    # ---- conversions
    def isintvar(self):
        v = self.v
        if not isinstance(v, RF) or v.den or v.dc != 1:
            return False
        return all(V.kind[i] == 'int' for i in poly.pvars(v.num))

    def concretize(self):
        """Fork over the feasible integer values."""
        if isinstance(self.v, Fraction):
            if self.v.denominator == 1:
                return int(self.v)
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(self.v, RF) and self.isintvar():
            val = S.path.concretize(self)
            return val
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __index__(self):
        return self.concretize()

    def __int__(self):
        if isinstance(self.v, Fraction):
            return int(self.v)
        if self.isintvar():
            return self.concretize()
        return int(sfloor(self) if bool(self >= 0) else -sfloor(-self))

    def __float__(self):
        if isinstance(self.v, float):
            return self.v
        if isinstance(self.v, Fraction):
            return float(self.v)
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if n is None:
            return int(sfloor(self + Sym(Fraction(1, 2))))
        sc = Sym(Fraction(10) ** n)
        return sfloor(self * sc + Sym(Fraction(1, 2))) / sc

    def __floor__(self):
        return int(sfloor(self))

    def __ceil__(self):
        return -int(sfloor(-self))

    def __trunc__(self):
        return int(self)

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        if isinstance(self.v, Fraction):
            return str(self.v) if self.v.denominator != 1 or abs(self.v) > 10**6 else str(float(self.v))
        if isinstance(self.v, float):
            return repr(self.v)
        return f"<sym {len(self.v.num)} terms>"

    def is_integer(self):
        return isinstance(self.v, Fraction) and self.v.denominator == 1

    # ---- numpy scalar look-alike
    @property
    def dtype(self):
        return _np.dtype(object)

    @property
    def real(self):
        return sreal(self)

    @property
    def imag(self):
        return simag(self)

    @property
    def T(self):
        return self

    @property
    def flat(self):
        return iter([self])

    def conjugate(self):
        return sconj(self)
    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self
    mean = max = min = prod = sum

    def ravel(self):
        from .shim import mkarr
        return mkarr([self])
    flatten = ravel

    def reshape(self, *sh):
        return self.ravel().reshape(*sh)

    def any(self): return bool(self)
    def all(self): return bool(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .shim import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    # methods used by object-dtype ufunc loops
    def sqrt(self): return ssqrt(self)
    def exp(self): return sexp(self)
    def log(self): return slog(self)
    def log10(self): return slog10(self)
    def log2(self): return slog(self) / slog(Sym(Fraction(2)))
    def cos(self): return strig(self, 'cos')
    def sin(self): return strig(self, 'sin')
    def sign(self): return ssign(self)
    def floor(self): return sfloor(self)
    def ceil(self): return -sfloor(-self)
    def rint(self): return sfloor(self + Sym(Fraction(1, 2)))
    def square(self): return self * self
    def fabs(self): return sabs(self)
    def isnan(self): return isinstance(self.v, float) and self.v != self.v
    def isinf(self): return isinstance(self.v, float) and abs(self.v) == INF
    def isfinite(self): return not isinstance(self.v, float)
    def reciprocal(self): return sdiv(Sym(Fraction(1)), self)


PYOP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
        '==': operator.eq, '!=': operator.ne}

ZERO, ONE, TWO = Sym(Fraction(0)), Sym(Fraction(1)), Sym(Fraction(2))
NAN = Sym(float('nan'))
PINF = Sym(INF)
NINF = Sym(-INF)


BIGBITS, KEEPBITS = 1600, 800


def shrink(x):
    """In approx mode, constants longer than BIGBITS are rounded to KEEPBITS significant bits."""
    if S.approx_used and x.denominator.bit_length() > BIGBITS:
        s = KEEPBITS + x.denominator.bit_length() - x.numerator.bit_length()
        if s > 0:
            return Fraction((x.numerator << s) // x.denominator, 1 << s)
    return x


def shrink_rf(rf):
    m = max(abs(c) for c in rf.num.values())
    s = KEEPBITS + rf.dc.bit_length() - m.bit_length()
    if s <= 0:
        return rf
    num = {k: (c << s) // rf.dc for k, c in rf.num.items()}
    return RF({k: c for k, c in num.items() if c}, {}, 1 << s)


def mk(rf):
    if not rf.num:
        return ZERO
    if S.approx_used and not rf.den and rf.dc.bit_length() > BIGBITS:
        rf = shrink_rf(rf)
    if rf.isconst():
        return Sym(rf.constval())
    return Sym(rf)


def var(name, kind='real'):
    idx = V.new(name, kind)
    return Sym(RF({1 << (BITS * idx): 1}))


def ffrac(x):
    """float -> Fraction (exact binary value) or special."""
    if x != x or x in (INF, -INF):
        return Sym(float(x))
    return Sym(Fraction(x))


_floatlit = {}


def flit(text):
    """Float literal of the source, taken as the exact decimal it writes."""
    s = _floatlit.get(text)
    if s is None:
        s = _floatlit[text] = Sym(Fraction(text))
    return s


def lift(o):
    """Anything scalar -> Sym / LogVal, None when not a scalar."""
    t = type(o)
    if t is Sym or t is LogVal:
        return o
    if t is int or t is bool:
        return Sym(Fraction(o))
    if t is Fraction:
        return Sym(o)
    if t is float:
        return ffrac(o)
    if isinstance(o, (int, _np.integer, _npbool)):
        return Sym(Fraction(int(o)))
    if isinstance(o, (float, _np.floating)):
        return ffrac(float(o))
    if isinstance(o, (complex, _np.complexfloating)):
        return ffrac(o.real) + imag_unit() * ffrac(o.imag)
    if t is SymBool:
        return Sym(Fraction(int(bool(o))))
    if isinstance(o, _np.ndarray) and o.ndim == 0:
        return lift(o[()])
    return None


def tosym(o):
    r = lift(o)
    if r is None:
        raise TypeError(f"float() argument must be a string or a real number, not '{type(o).__name__}'")
    return r


def choose_sign(s):
    """-1, 0 or 1: the sign of a Sym on this path."""
    if isinstance(s.v, Fraction):
        return (s.v > 0) - (s.v < 0)
    if isinstance(s.v, float):
        return 0 if s.v != s.v else (1 if s.v > 0 else -1)
    if bool(s > 0):
        return 1
    if bool(s == 0):
        return 0
    return -1


def _spec_add(a, b):
    x = a.v if isinstance(a.v, float) else 0.0
    y = b.v if isinstance(b.v, float) else 0.0
    return Sym(x + y)


def _spec_mul(a, b):
    def f(s):
        if isinstance(s.v, float):
            return s.v
        return float(choose_sign(s))
    return Sym(f(a) * f(b))


def iszero(s):
    if isinstance(s.v, Fraction):
        return s.v == 0
    if isinstance(s.v, float):
        return False
    return bool(s == 0)


def sdiv(a, b):
    if isinstance(a, LogVal):
        return a / b
    if isinstance(b, LogVal):
        return a / b.opaque()
    if isinstance(b.v, float):
        if b.v != b.v:
            return NAN
        if isinstance(a.v, float):
            return NAN
        return ZERO
    if iszero(b):
        if isinstance(a.v, float):
            return a
        sg = choose_sign(a)
        es = S.errstate
        if sg == 0:
            if es['invalid'] == 'raise':
                raise FloatingPointError("invalid value encountered in divide")
            return NAN
        if es['divide'] == 'raise':
            raise FloatingPointError("divide by zero encountered in divide")
        return PINF if sg > 0 else NINF
    if isinstance(a.v, float):
        sg = choose_sign(b)
        return a if sg > 0 else -a
    if isinstance(a.v, Fraction) and isinstance(b.v, Fraction):
        return Sym(a.v / b.v)
    return mk(a.rf().mul(b.rf().inv()))


def spow(a, n):
    if isinstance(a, LogVal):
        a = a.opaque()
    n = tosym(n)
    if isinstance(n.v, Fraction):
        f = n.v
        if f.denominator == 1:
            k = int(f)
            if k < 0:
                if S.fpfault and isinstance(a.v, RF):
                    r = fpfault_inverse(a)
                    if r is not None:
                        return r if k == -1 else r ** (-k)
                r = sdiv(ONE, a ** (-k))
                if S.shadow is not None and S.path is not None:
                    e = shadow_value(a)
                    if e:
                        return shadowed(r, _np.power, _np.array([shadow_float(e)]), float(k))
                return r
            if isinstance(a.v, Fraction):
                return Sym(a.v ** k)
            if isinstance(a.v, float):
                return Sym(a.v ** k)
            if k == 0:
                return ONE
            r = None
            b = a
            while k:
                if k & 1:
                    r = b if r is None else r * b
                k >>= 1
                if k:
                    b = b * b
            return r
        return ssqrt_n(a, f)
    # symbolic exponent
    if isinstance(n.v, RF) and n.isintvar():
        return spow(a, n.concretize())
    return sexp(slog(a) * n)


def ssqrt_n(a, f):
    """a ** f for a non-integer rational f."""
    if f.denominator == 2:
        r = ssqrt(a)
        return r ** f.numerator
    return sexp(slog(a) * Sym(f))


def shadow_value(x):
    """Exact value of x at the sample point, or None."""
    if isinstance(x, LogVal) or S.shadow is None:
        return None
    if isinstance(x.v, Fraction):
        return x.v
    if isinstance(x.v, float) or any(i not in S.shadow for i in x.v.vars()):
        return None
    return Fraction(x.v.evalf(S.shadow, Fraction))


def shadow_float(f):
    try:
        return float(f)
    except OverflowError:
        return float('inf') if f > 0 else -float('inf')


def shadow_round(exact, fun, *args):
    """What the floating-point operation fun makes of a result that is exactly `exact` (values at the sample).

    Raises when numpy's error state says so; otherwise returns None (accurate), or the faulty
    result divided by the exact one, zero or an infinity included.
    """
    for kind, what in (('over', 'overflow'), ('divide', 'divide by zero'), ('under', 'underflow')):
        if S.errstate[kind] == 'raise':
            with _np.errstate(**{**dict.fromkeys(('over', 'divide', 'under', 'invalid'), 'ignore'), kind: 'raise'}):
                try:
                    fun(*args)
                except FloatingPointError:
                    S.path.fpevents.append(what)
                    raise FloatingPointError(f"{what} encountered") from None
    with _np.errstate(all='ignore'):
        r = float(_np.ravel(fun(*args))[0])
    if r != r:
        return r
    if exact == 0:
        return None
    if r in (0.0, float('inf'), -float('inf')):
        return r
    f = Fraction(r) / exact
    if abs(f - 1) < Fraction(1, 10 ** 10):
        return None
    S.path.fpevents.append('loss of digits')
    return f


def shadowed(x, fun, *args):
    """x after rounding by the floating-point operation fun(*args)."""
    e = shadow_value(x)
    if e is None:
        return x
    f = shadow_round(e, fun, *args)
    if f is None:
        return x
    if isinstance(f, float):
        S.path.fpevents.append('range')
        return NAN if f != f else ZERO if f == 0 else PINF if f > 0 else NINF
    return x * Sym(f)


def fpfault_inverse(a):
    """Inverse of a product of symbolic values under/overflowing in floating point.

    The product may underflow to zero (its inverse then raises or gives inf) or overflow
    to inf (which raises, or gives zero): both are explored as environment choices.
    """
    if getattr(S.path, 'fpinv', False):
        return None             # one faulty inverse per path
    S.path.fpinv = True
    out = S.path.choose("fp-product", 3)
    if out == 0:
        return None
    if S.fpkinds is not None and ('underflow' if out == 1 else 'overflow') not in S.fpkinds:
        raise Infeasible("floating-point range")
    if out == 1:        # product underflowed to zero
        S.path.fpevents.append('underflow')
        if S.errstate['under'] == 'raise':
            raise FloatingPointError("underflow encountered in multiply")
        if S.errstate['divide'] == 'raise':
            raise FloatingPointError("divide by zero encountered in power")
        return PINF if choose_sign(a) > 0 else NINF
    S.path.fpevents.append('overflow')
    if S.errstate['over'] == 'raise':
        raise FloatingPointError("overflow encountered in multiply")
    return ZERO


def fresh(prefix):
    S.fresh += 1
    return var(f"{prefix}!{S.fresh}")


def keyof(s):
    v = s.v
    if isinstance(v, Fraction):
        return ('c', v)
    if isinstance(v, float):
        return ('f', repr(v))
    return ('r', frozenset(v.num.items()), frozenset(v.den.items()), v.dc)


def sabs(s):
    if isinstance(s, LogVal):
        s = s.opaque()
    v = s.v
    if not isinstance(v, RF):
        return Sym(abs(v))
    if not v.den and poly._isalgconst(v.num):
        c = const_mp(v.num)
        if isinstance(c, mpmath.mpc) and abs(c.imag) > mpmath.mpf(10) ** -40:
            x = abs(c) / v.dc
            S.approx_used = True
            return Sym(approx_fraction(x))
        return s if poly_sign_const(v.num) > 0 else -s
    if any(V.kind[i] == 'complex' for i in v.vars()):
        return memo_var('cabs', [s], lambda z: [z >= 0])
    if S.path is not None and S.path.lazy_abs and pdegree(v.num) > 1:
        k1, k2 = ('abs', keyof(s)), ('abs', keyof(-s))
        r = S.memo.get(k1)
        if r is None:
            r = S.memo.get(k2)
        if r is None:
            r = fresh('abs')
            S.memo[k1] = r
        if k1 not in S.path.defkeys and k2 not in S.path.defkeys:
            S.path.defkeys.add(k1)
            S.path.add_z3(tz3(r >= 0), linear=True)
            S.path.add_z3(z3.Or(tz3(r == s), tz3(r == -s)), linear=False)
        return r
    return s if bool(s >= 0) else -s


def memo_var(kind, args, cons=None):
    key = (kind,) + tuple(keyof(a) for a in args)
    r = S.memo.get(key)
    if r is None:
        r = fresh(kind)
        S.memo[key] = r
    if cons is not None and key not in S.path.defkeys:
        S.path.defkeys.add(key)
        for c in cons(r):
            S.path.add_z3(tz3(c), linear=False)
    return r


def ssign(s):
    if isinstance(s, LogVal):
        s = s.opaque()
    if isinstance(s.v, float) and s.v != s.v:
        return NAN
    return Sym(Fraction(choose_sign(s)))


def sfloor(s):
    v = s.v
    if isinstance(v, Fraction):
        return Sym(Fraction(v.numerator // v.denominator))
    if isinstance(v, float):
        return s
    if s.isintvar():
        return s
    return Sym(Fraction(S.path.choose_floor(s)))


def _squarefree(n):
    """n = s**2 * prod(primes)."""
    s, primes = 1, []
    d = 2
    while d * d <= n:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        s *= d ** (e // 2)
        if e % 2:
            primes.append(d)
        d += 1
        if d > 20000:
            return None
    if n > 1:
        primes.append(n)
    return s, primes


def sqrt_prime(p):
    idx = V.sqrtidx.get(p)
    if idx is None:
        idx = V.new(f"sqrt{p}", 'alg')
        V.sqrtidx[p] = idx
        V.rules[idx] = (2, {0: p})
        V.algval[idx] = lambda: mpmath.sqrt(p)
    return Sym(RF({1 << (BITS * idx): 1}))


def ssqrt(s):
    if isinstance(s, LogVal):
        s = s.opaque()
    v = s.v
    if isinstance(v, Fraction):
        if v < 0:
            return NAN
        if v == 0:
            return ZERO
        from math import isqrt
        a, b = isqrt(v.numerator), isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return Sym(Fraction(a, b))
        n = v.numerator * v.denominator
        if S.mode == 'exact' and n < 10 ** 9:
            sf = _squarefree(n)
            if sf is not None and len(sf[1]) <= 3 and not (V.cycidx is not None):
                r = Sym(Fraction(sf[0], v.denominator))
                for p in sf[1]:
                    r = r * sqrt_prime(p)
                return r
        S.approx_used = True
        return Sym(approx_fraction(mpmath.sqrt(mpmath.mpf(v.numerator) / v.denominator)))
    if isinstance(v, float):
        return NAN if v < 0 or v != v else s
    if not v.den and poly._isalgconst(v.num):
        x = const_mp(v.num) / v.dc
        S.approx_used = True
        return Sym(approx_fraction(mpmath.sqrt(mpmath.re(x))))
    # perfect squares of known factors
    c, nf = poly.split_factors(v.num)
    if all(e % 2 == 0 for e in nf.values()) and all(e % 2 == 0 for e in v.den.values()):
        k = ssqrt(Sym(Fraction(c, v.dc)))
        if not (isinstance(k.v, float)):
            base = ONE
            for f, e in nf.items():
                base = base * Sym(RF(V.factors[f])) ** (e // 2)
            for f, e in v.den.items():
                base = base / Sym(RF(V.factors[f])) ** (e // 2)
            return k * sabs(base)
    return memo_var('sqrt', [s], lambda r: [r >= 0, r * r == s])


def sexp(s):
    if isinstance(s, LogVal):
        return s.exp()
    v = s.v
    if isinstance(v, Fraction):
        if v == 0:
            return ONE
        if S.mode == 'approx':
            S.approx_used = True
            return Sym(approx_fraction(mpmath.exp(mpmath.mpf(v.numerator) / v.denominator)))
    if isinstance(v, float):
        return PINF if v > 0 else (ZERO if v < 0 else NAN)
    if isinstance(v, RF) and not v.den and poly._isalgconst(v.num):
        if approx_trig():
            S.approx_used = True
            z = mpmath.exp(const_mp(v.num) / v.dc)
            r = Sym(approx_fraction(mpmath.re(z)))
            if isinstance(z, mpmath.mpc) and abs(z.imag) > mpmath.mpf(10) ** -60:
                r = r + imag_unit() * Sym(approx_fraction(mpmath.im(z)))
            return r
        t = angle_of(s, imag=True)
        if t is not None:
            return root_of_unity(t / 2)
    # formal exponential, exp(k*b) == exp(b)**k
    bases = S.memo.setdefault('expbases', [])
    def positive(x):
        k = ('pos', keyof(x))
        if k not in S.path.defkeys and not any(V.kind[i] == 'complex' for i in s.rf().vars()):
            S.path.defkeys.add(k)
            S.path.add_z3(tz3(x > 0), linear=True)
        return x
    for b, x in bases:
        q = ratio(s, b)
        if q is not None and q.denominator == 1:
            return positive(x) ** int(q)
    for b, x in list(bases):
        q = ratio(s, b)
        if q is not None:
            y = nth_root(x, q.denominator)
            bases.append((b / Sym(Fraction(q.denominator)), y))
            return positive(y) ** int(q.numerator)
    # exp(a+b) with both known: split off known bases sharing monomials is not attempted
    x = fresh('exp')
    bases.append((s, x))
    return positive(x)


def nth_root(x, n):
    """New variable y with y**n == x, x a single variable."""
    (m, c), = x.v.num.items()
    name = f"root{n}!{S.fresh}"
    S.fresh += 1
    idx = V.new(name, 'alg')
    V.rules[idx] = (n, {m: 1})
    V.algval[idx] = None
    V.constmask &= ~(poly.FM << (BITS * idx))
    return Sym(RF({1 << (BITS * idx): 1}))


def ratio(a, b):
    """a/b if it is a rational constant, else None."""
    if isinstance(a.v, Fraction) and isinstance(b.v, Fraction):
        return a.v / b.v if b.v else None
    ra, rb = a.rf(), b.rf()
    if ra.den != rb.den or len(ra.num) != len(rb.num):
        return None
    q = None
    for m, c in ra.num.items():
        d = rb.num.get(m)
        if d is None:
            return None
        t = Fraction(c, d)
        if q is None:
            q = t
        elif q != t:
            return None
    return q * Fraction(rb.dc, ra.dc)


def slog(s):
    if isinstance(s, LogVal):
        return slog(s.opaque())
    v = s.v
    if isinstance(v, float):
        return PINF if v > 0 else NAN
    sg = choose_sign(s)
    if sg == 0:
        if S.errstate['divide'] == 'raise':
            raise FloatingPointError("divide by zero encountered in log")
        return NINF
    if sg < 0:
        return NAN
    if isinstance(v, Fraction) and v == 1:
        return LogVal([])
    if S.mode == 'approx' and isinstance(v, Fraction):
        S.approx_used = True
        return Sym(approx_fraction(mpmath.log(mpmath.mpf(v.numerator) / v.denominator)))
    # log(exp(b)) == b
    return LogVal([(Fraction(1), s)])


def log_opaque(a):
    """Uninterpreted, but multiplicative over the known factors of its argument."""
    v = a.v
    if isinstance(v, Fraction):
        if v == 1:
            return ZERO
        r = ZERO
        for n, sgn in ((v.numerator, 1), (v.denominator, -1)):
            sf = _factorint(n)
            for p, e in sf.items():
                r = r + Sym(Fraction(e * sgn)) * memo_var('log', [Sym(Fraction(p))], lambda z: [z > 0])
        return r
    for b, x in S.memo.get('expbases', []):
        if keyof(x) == keyof(a):
            return b
    c, nf = poly.split_factors(v.num)
    if len(nf) + len(v.den) == 1 and abs(Fraction(c, v.dc)) == 1 and list(nf.values()) == [1]:
        for b, x in S.memo.get('expbases', []):
            if keyof(x) == keyof(a):
                return b
        return memo_var('log', [a])
    r = log_opaque(Sym(abs(Fraction(c, v.dc))))
    for f, e in list(nf.items()) + [(f, -e) for f, e in v.den.items()]:
        fs = Sym(RF(V.factors[f]))
        if choose_sign(fs) < 0:
            fs = -fs
        hit = None
        for b, x in S.memo.get('expbases', []):
            if keyof(x) == keyof(fs):
                hit = b
        r = r + Sym(Fraction(e)) * (hit if hit is not None else memo_var('log', [fs]))
    return r


def _factorint(n):
    out = {}
    d = 2
    while d * d <= n and d < 5000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def slog10(s):
    l = slog(s)
    if isinstance(l, Sym):
        if l.special():
            return l
        return l / Sym(approx_fraction(mpmath.log(10)))
    return l.opaque() / log_opaque(Sym(Fraction(10)))


# ---- cyclotomic constants ----------------------------------------------------------------
class NeedCyc(BaseException):
    def __init__(self, n):
        self.n = n
        S.needcyc = n


def cyclotomic_poly(n):
    """Coefficients (low degree first) of the n-th cyclotomic polynomial."""
    num = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            q = cyclotomic_poly(d)
            out = [0] * (len(num) - len(q) + 1)
            rem = list(num)
            for i in range(len(out) - 1, -1, -1):
                out[i] = rem[i + len(q) - 1]
                for j, c in enumerate(q):
                    rem[i + j] -= out[i] * c
            num = out
    return num


def set_cyclotomic(N):
    """Use Q(zeta_N) for trigonometric constants; N a multiple of 4."""
    co = cyclotomic_poly(N)
    idx = V.new(f"zeta{N}", 'alg')
    deg = len(co) - 1
    V.rules[idx] = (deg, {(i << (BITS * idx)): -c for i, c in enumerate(co[:-1]) if c})
    V.algval[idx] = lambda: mpmath.expjpi(mpmath.mpf(2) / N)
    V.cycN, V.cycidx = N, idx


def root_of_unity(t):
    """exp(2 pi i t), t rational."""
    t = t % 1
    if V.cycN is None:
        if (4 * t).denominator == 1:
            k = int(4 * t)
            if k == 0:
                return ONE
            if k == 2:
                return -ONE
        n = 4 * t.denominator if t.denominator % 4 else t.denominator
        raise NeedCyc(n)
    k = t * V.cycN
    if k.denominator != 1:
        n = t.denominator
        from math import lcm
        raise NeedCyc(lcm(4, n, V.cycN))
    k = int(k)
    p = poly.preduce({k << (BITS * V.cycidx): 1}) if k else {0: 1}
    return mk(RF(p))


def imag_unit():
    if approx_trig() and V.cycN is None:
        set_cyclotomic(4)
    return root_of_unity(Fraction(1, 4))


def pi_sym():
    """pi as a formal constant."""
    idx = V.names.get('pi')
    if idx is None:
        idx = V.new('pi', 'alg')
        V.algval[idx] = lambda: mpmath.pi
        V.rules[idx] = (30000, {0: 1})
    return Sym(RF({1 << (BITS * idx): 1}))


def angle_of(s, imag=False):
    """t if s == pi*t (or pi*i*t), t rational; None otherwise."""
    if isinstance(s.v, Fraction):
        return Fraction(0) if s.v == 0 else None
    if not isinstance(s.v, RF):
        return None
    d = pi_sym()
    if imag:
        if V.cycN is None and S.mode == 'exact':
            raise NeedCyc(4)
        d = d * imag_unit()
    return ratio(s, d)


def strig(s, fn):
    if approx_trig():
        S.approx_used = True
        if isinstance(s.v, RF) and not s.v.den and poly._isalgconst(s.v.num):
            x = const_mp(s.v.num) / s.v.dc
            return Sym(approx_fraction(mpmath.re(getattr(mpmath, fn)(x))))
        if isinstance(s.v, Fraction):
            return Sym(approx_fraction(getattr(mpmath, fn)(mpmath.mpf(s.v.numerator) / s.v.denominator)))
        return memo_var(fn, [s], lambda z: [z <= 1, z >= -1])
    t = angle_of(s)
    if t is None:
        return memo_var(fn, [s], lambda z: [z <= 1, z >= -1])
    z = root_of_unity(t / 2)
    zi = root_of_unity(-t / 2)
    if fn == 'cos':
        return (z + zi) / TWO
    return (z - zi) / (TWO * imag_unit())


def conj_poly(p):
    """Complex conjugate (variables real, zeta -> zeta^-1)."""
    if V.cycidx is None:
        return p
    sh = BITS * V.cycidx
    if not any((m >> sh) & FM for m in p):
        return p
    r = {}
    for m, c in p.items():
        e = (m >> sh) & FM
        base = m - (e << sh)
        mm = base + (((V.cycN - e) % V.cycN) << sh)
        r[mm] = r.get(mm, 0) + c
    return poly.preduce({m: c for m, c in r.items() if c})


def noorder(d):
    for i in d.vars():
        if V.kind[i] == 'complex':
            unsupported("ordering of complex values")


def sconj(s):
    v = s.v
    if not isinstance(v, RF):
        return s
    for i in v.vars():
        if V.kind[i] == 'complex':
            return memo_var('conj', [s])
    r = Sym(RF(conj_poly(v.num), {}, v.dc))
    for f, e in v.den.items():
        r = r / Sym(RF(conj_poly(V.factors[f]))) ** e
    return r


def sreal(s):
    v = s.v
    if not isinstance(v, RF):
        return s
    if V.cycidx is None and not any(V.kind[i] == 'complex' for i in v.vars()):
        return s
    return (s + sconj(s)) / TWO


def simag(s):
    v = s.v
    if not isinstance(v, RF):
        return ZERO
    if V.cycidx is None and not any(V.kind[i] == 'complex' for i in v.vars()):
        return ZERO
    d = s - sconj(s)
    if isinstance(d.v, Fraction) and d.v == 0:
        return ZERO
    return d / (TWO * imag_unit())


def smax(items, sign=1):
    """Maximum (sign=1) or minimum of a list of scalars."""
    items = list(items)
    if not items:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    for x in items:
        if isinstance(x, Sym) and isinstance(x.v, float) and x.v != x.v:
            return x
    best = items[0]
    lazy = None
    for x in items[1:]:
        if isinstance(x, Sym) and isinstance(best, Sym) and (S.path is not None and S.path.lazy_max):
            if keyof(x) == keyof(best):
                continue
            if isinstance(x.v, RF) or isinstance(best.v, RF):
                if not (x.special() or best.special()):
                    dv = (x - best).rf()
                    if pdegree(dv.num) > 1 or dv.den:
                        lazy = True
                        break
        c = (x > best) if sign > 0 else (x < best)
        if bool(c):
            best = x
    if not lazy:
        return best
    uniq = {}
    for x in items:
        uniq[keyof(x)] = x
    key = ('max' if sign > 0 else 'min', frozenset(uniq))
    r = S.memo.get(key)
    if r is None:
        r = fresh('max' if sign > 0 else 'min')
        S.memo[key] = r
    if key not in S.path.defkeys:
        S.path.defkeys.add(key)
        xs = list(uniq.values())
        for x in xs:
            S.path.add_z3(tz3(r >= x if sign > 0 else r <= x), linear=False)
        S.path.add_z3(z3.Or([tz3(r == x) for x in xs]), linear=False)
    return r
