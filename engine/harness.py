"""Harness interface: the same property text runs symbolically and on the real package."""
import json
import math
import os
from fractions import Fraction

import numpy as np
import z3

from . import sym, poly, shim
from .sym import S, V, Sym, SymBool, LogVal, Infeasible, lift, tosym

TOL = 1e-7


def _fr(x):
    return None if x is None else (x.v if isinstance(x, Sym) else Fraction(x))


KNOWN = {}


def load_known(pid):
    """Labels (with recorded values) of the known findings of a property."""
    fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    KNOWN.clear()
    if os.path.exists(fn):
        with open(fn) as f:
            for k in json.load(f)['findings']:
                if k['property'] == pid and k.get('status') == 'known':
                    KNOWN.update(k.get('labels', {}))


class Obl:
    __slots__ = ('label', 'kind', 'a', 'b', 'tol', 'msg')

    def __init__(self, label, kind, a=None, b=None, tol=None, msg=''):
        self.label, self.kind, self.a, self.b, self.tol, self.msg = label, kind, a, b, tol, msg


class Fail(Exception):
    """The property is violated at this point whatever follows (end of the harness run)."""


# ------------------------------------------------------------------ symbolic side
class SymH:
    concrete = False

    def __init__(self, q, path, params):
        self.q = q
        self.np = q.np
        self.path = path
        self.params = params
        self.choices = {}
        self.inputs = {}
        self.obl = path.obligations
        self.outs = []
        self.reached = 0
        self.cap = shim.Capture
        shim.Capture.reset()
        S.fpkinds = None
        S.shadow = None
        self.extreme = False
        shim.FSOLVE['hook'] = None
        shim.FSOLVE['minhook'] = None

    # ---- inputs
    def real(self, name, lo=None, hi=None, nz=False, open_=False):
        x = sym.var(name)
        self.inputs[name] = x
        p = self.path
        (mono,) = x.v.num
        p.box[next(poly.monomial_items(mono))[0]] = (_fr(lo), _fr(hi))
        if lo is not None:
            p.assume(x > lo if open_ else x >= lo)
        if hi is not None:
            p.assume(x < hi if open_ else x <= hi)
        if nz:
            p.assume(x != 0)
            p.prefs.append(z3.Or(sym.tz3(x >= Fraction(1, 4)), sym.tz3(x <= Fraction(-1, 4))))
        if not nz:
            p.prefs2.append(z3.Or(sym.tz3(x >= Fraction(1, 8)), sym.tz3(x <= Fraction(-1, 8))))
        if lo is None:
            p.prefs.append(sym.tz3(x >= -4))
        if hi is None:
            p.prefs.append(sym.tz3(x <= 4))
        return x

    def reals(self, name, n, **k):
        return [self.real(f"{name}{i}", **k) for i in range(n)]

    def intvar(self, name, lo, hi):
        """A symbolic integer (forks only where the code needs its value)."""
        x = sym.var(name, 'int')
        self.inputs[name] = x
        self.path.assume(x >= lo)
        self.path.assume(x <= hi)
        return x

    def distinct(self, xs, sep=Fraction(1, 4)):
        for i in range(len(xs)):
            for j in range(i):
                d = xs[i] - xs[j]
                self.path.assume(d != 0)
                self.path.prefs.append(z3.Or(sym.tz3(d >= sep), sym.tz3(d <= -sep)))

    def increasing(self, xs, sep=Fraction(1, 4)):
        for i in range(1, len(xs)):
            d = xs[i] - xs[i - 1]
            self.path.assume(d > 0)
            self.path.prefs.append(sym.tz3(d >= sep))

    def choice(self, name, opts):
        opts = list(opts)
        k = self.path.choose(name, len(opts))
        self.choices[name] = k
        return opts[k]

    def int(self, name, lo, hi):
        return self.choice(name, range(lo, hi + 1))

    def assume(self, c):
        self.path.assume(c)

    def prefer(self, c):
        if isinstance(c, SymBool):
            self.path.prefs.append(sym.tz3(c))

    def frac(self, a, b=1):
        return Sym(Fraction(a, b))

    def fresh(self):
        """The package imported once more (nothing was asked of it yet)."""
        from . import loader
        return loader.symbolic_q()

    def hooks(self, fsolve=None, minimize=None):
        """Contract stubs for the external solvers (the real ones run in replays)."""
        shim.FSOLVE['hook'], shim.FSOLVE['minhook'] = fsolve, minimize

    def arr(self, x):
        return shim.np_array(x, dtype=complex)

    def fprange(self, *kinds):
        """Which range errors the products of the inputs may have (with fpfault)."""
        S.fpkinds = kinds

    def sample(self, *pairs):
        """(input, value): range errors of floating point occur as at these values."""
        S.shadow = dict(S.shadow or {})
        for x, v in pairs:
            (mono,) = x.v.num
            S.shadow[next(poly.monomial_items(mono))[0]] = _fr(v)

    def val(self, x):
        """float constant, taken as its exact binary value."""
        return tosym(x)

    def known(self, label):
        """Recorded value of a known finding, or None."""
        r = KNOWN.get(label)
        return None if r is None else Sym(Fraction(r))

    # ---- obligations
    def _flat(self, x):
        if isinstance(x, np.ndarray):
            return x.shape, list(x.view(np.ndarray).flat)
        if isinstance(x, (list, tuple)):
            a = shim.np_asarray(x)
            return a.shape, list(a.view(np.ndarray).flat)
        return (), [x]

    def eq(self, label, a, b, tol=None, ctol=None):
        tol = tol.v if isinstance(tol, Sym) else tol
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if sa != sb:
            self.obl.append(Obl(label, 'false', msg=f"shape {sa} instead of {sb}"))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = label if not sa else f"{label}[{i}]"
            x, y = lift(x), lift(y)
            if x is None or y is None:
                self.obl.append(Obl(lab, 'false', msg="not a number"))
                continue
            if isinstance(x, LogVal):
                x = x.opaque()
            if isinstance(y, LogVal):
                y = y.opaque()
            if x.special() or y.special():
                ok = x.special() and y.special() and (x.v == y.v or (x.v != x.v and y.v != y.v))
                self.obl.append(Obl(lab, 'ok' if ok else 'false', msg=f"{x!r} instead of {y!r}"))
                continue
            self.obl.append(Obl(lab, 'eq', x, y, tol))
            self.outs.append((lab, x))

    def true(self, label, c):
        if isinstance(c, np.ndarray):
            c = shim.np_all(c)
        if isinstance(c, SymBool):
            self.obl.append(Obl(label, 'cond', c))
        else:
            self.obl.append(Obl(label, 'ok' if c else 'false'))

    def same(self, label, a, b):
        """Plain Python equality of non-numeric results."""
        self.obl.append(Obl(label, 'ok' if a == b else 'false', msg=f"{a!r} instead of {b!r}"))

    def raises(self, label, fn, *exc):
        try:
            fn()
        except exc or (Exception,):
            self.obl.append(Obl(label, 'ok'))
            return True
        except Exception as e:
            self.obl.append(Obl(label, 'false', msg=f"raises {type(e).__name__}"))
            return False
        self.obl.append(Obl(label, 'false', msg="no exception"))
        return False

    def reach(self):
        self.reached += 1

    def out(self, label, x):
        s, f = self._flat(x)
        for i, v in enumerate(f):
            v = lift(v)
            if isinstance(v, Sym) and not v.special():
                self.outs.append((f"{label}[{i}]", v))

    def isnum(self, x):
        return lift(x) is not None

    def isnan(self, x):
        x = lift(x)
        return isinstance(x, Sym) and isinstance(x.v, float)

    def iszero(self, x):
        """Identically zero (no fork)."""
        x = lift(x)
        return isinstance(x, Sym) and isinstance(x.v, Fraction) and x.v == 0


# ------------------------------------------------------------------ concrete side
class ConH:
    concrete = True

    def __init__(self, q, values, choices, params, precise=False, slack=1):
        self.q = q
        self.np = np
        self.slack = slack
        self.params = params
        self.values = values
        self.choices = choices
        self.precise = precise      # compared with the predicted values instead of a tolerance
        self.pairs = {}
        self.failed = []
        self.outs = []
        self.reached = 0
        self.checked = 0
        self.cap = None
        self.extreme = False        # set by harnesses about over- and underflow

    def real(self, name, lo=None, hi=None, nz=False, open_=False):
        v = float(self.values.get(name, 0.5))
        lim = 1e-12 if self.precise else 1e-7
        if not self.extreme and v != 0 and not lim < abs(v) < 1 / lim:
            raise Infeasible("ill-conditioned point")
        return v

    def reals(self, name, n, **k):
        return [self.real(f"{name}{i}", **k) for i in range(n)]

    def intvar(self, name, lo, hi):
        return min(hi, max(lo, int(self.values.get(name, lo))))

    def _gaps(self, d, xs):
        # rounding dominates on points that nearly coincide: no verdict there
        if d and not self.extreme and not self.precise and min(d) < 1e-3 * max(1e-3, max(abs(x) for x in xs)):
            raise Infeasible("ill-conditioned point")

    def distinct(self, xs, sep=None):
        if len(set(xs)) != len(xs):
            raise Infeasible("points")
        self._gaps([abs(a - b) for i, a in enumerate(xs) for b in xs[:i]], xs)

    def increasing(self, xs, sep=None):
        if any(xs[i] <= xs[i - 1] for i in range(1, len(xs))):
            raise Infeasible("points")
        self._gaps([xs[i] - xs[i - 1] for i in range(1, len(xs))], xs)

    def choice(self, name, opts):
        opts = list(opts)
        return opts[self.choices.get(name, 0)]

    def int(self, name, lo, hi):
        return self.choice(name, range(lo, hi + 1))

    def assume(self, c):
        if not c:
            raise Infeasible("assumption")

    def prefer(self, c):
        pass

    def frac(self, a, b=1):
        return a / b

    def fresh(self):
        from . import loader
        return loader.another_real()

    def hooks(self, fsolve=None, minimize=None):
        pass

    def arr(self, x):
        a = np.array(x)
        return a if a.dtype.kind == 'c' else np.array(x, dtype=float)

    def val(self, x):
        return x

    def known(self, label):
        r = KNOWN.get(label)
        return None if r is None else float(r)

    def fprange(self, *kinds):
        pass

    def sample(self, *pairs):
        pass

    def _flat(self, x):
        a = np.asarray(x)
        return a.shape, list(a.ravel())

    def eq(self, label, a, b, tol=None, ctol=None):
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        self.checked += 1
        if sa != sb:
            self.failed.append((label, f"shape {sa} instead of {sb}"))
            return
        t = ctol if ctol is not None else max(TOL, 0 if tol is None else tol)
        try:
            fa = [complex(x) for x in fa]
            fb = [complex(x) for x in fb]
        except (TypeError, ValueError):
            self.failed.append((label, "not numbers"))
            return
        scale = max([1.0] + [abs(y) for y in fb if math.isfinite(abs(y))])
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = label if not sa else f"{label}[{i}]"
            self.outs.append((lab, x))
            self.pairs.setdefault(lab, []).append((x, y))
            if x == y or (x != x and y != y):
                continue
            if not abs(x - y) <= t * self.slack * scale:
                x, y = [v.real if v.imag == 0 else v for v in (x, y)]
                self.failed.append((lab, f"{x!r} instead of {y!r}"))

    def true(self, label, c):
        self.checked += 1
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            self.failed.append((label, "does not hold"))

    def same(self, label, a, b):
        self.checked += 1
        if not (a == b):
            self.failed.append((label, f"{a!r} instead of {b!r}"))

    def raises(self, label, fn, *exc):
        self.checked += 1
        try:
            fn()
        except exc or (Exception,):
            return True
        except Exception as e:
            self.failed.append((label, f"raises {type(e).__name__}: {e}"))
            return False
        self.failed.append((label, "no exception"))
        return False

    def reach(self):
        self.reached += 1

    def out(self, label, x):
        s, f = self._flat(x)
        for i, v in enumerate(f):
            self.outs.append((f"{label}[{i}]", complex(v)))

    def isnum(self, x):
        return isinstance(x, (int, float, complex, np.number))

    def isnan(self, x):
        return not np.isfinite(x)

    def iszero(self, x):
        return x == 0
