"""Runs one case: symbolic exploration of a harness, solver discharge, replay on the real package."""
import json
import os
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction
from math import lcm

import mpmath
import numpy as np
import z3

from . import sym, poly, shim, explore, loader, harness
from .sym import S, V, Sym, SymBool, Unsupported, Infeasible, Stop, NeedCyc
from .explore import STATS, check
from .harness import SymH, ConH

CHECKS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks')
ATOL = Fraction(1, 10 ** 25)         # tolerance absorbing the 220-bit constants of approx mode
SLACK = 1e4                          # of the tolerance, to tell rounding from a difference on proved paths
REPLAYS = 4                          # replay attempts per undischarged path

_modcode = {}


def load_check(name, symbolic):
    """Namespace of checks/<name>.py (after common.py), in symbolic or plain semantics."""
    fns = [os.path.join(CHECKS, 'common.py'), os.path.join(CHECKS, name + '.py')]
    harness.load_known(name.split('_')[0].upper())
    ns = {'__name__': 'checks.' + name, '__file__': fns[-1]}
    if symbolic:
        ns['__builtins__'] = loader.Sandbox().builtins
    for fn in fns:
        if symbolic:
            exec(loader.get_code(fn), ns)
        else:
            c = _modcode.get(fn)
            if c is None:
                with open(fn) as f:
                    c = _modcode[fn] = compile(f.read(), fn, 'exec')
            exec(c, ns)
    return ns


# ------------------------------------------------------------------ which functions were executed
class Trace:
    seen = {}

    @classmethod
    def start(cls):
        cls.seen = {}
        m = sys.monitoring
        if m.get_tool(3) is None:
            m.use_tool_id(3, 'verif')
        m.register_callback(3, m.events.PY_START, cls.cb)
        m.set_events(3, m.events.PY_START)
        m.restart_events()

    @classmethod
    def stop(cls):
        sys.monitoring.set_events(3, 0)

    @classmethod
    def cb(cls, code, off):
        if code.co_filename.startswith(loader.REPO) and '<module>' not in code.co_qualname:
            cls.seen.setdefault(os.path.relpath(code.co_filename, loader.REPO), set()).add(code.co_qualname)
        return sys.monitoring.DISABLE


# ------------------------------------------------------------------ models
def model_values(m, inputs):
    vals = {}
    for name, x in inputs.items():
        (mono,) = x.v.num
        idx = next(poly.monomial_items(mono))[0]
        z = S.path.z3vars.get(idx)
        if z is None:
            vals[name] = Fraction(1, 2)
            continue
        v = m.eval(z, model_completion=True)
        vals[name] = zfrac(v)
    return vals


def zfrac(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise ValueError("model value")


def models(path, extra=None, timeout=3000):
    """Models of the path condition (with extra), nicest first."""
    n = 0
    prefs = list(path.prefs)
    distinct = []
    zs = [path.z3vars.get(next(poly.monomial_items(next(iter(x.v.num))))[0]) for x in path.H.inputs.values()]
    zs = [z for z in zs if z is not None]
    if 1 < len(zs) < 12:
        distinct = [z3.Distinct(zs)]
    tries = [path.pc + prefs + path.prefs2 + distinct, path.pc + prefs + path.prefs2, path.pc + prefs, path.pc]
    found = False
    for k, cons in enumerate(tries):
        if found and k < len(tries) - 1:
            continue
        c = cons + (extra or [])
        r, m = check(c, timeout=timeout, want_model=True)
        if r == z3.sat:
            yield k, m
            first, found = not found, True
            if first:
                # a second, different point
                diff = []
                for name, x in path.H.inputs.items():
                    (mono,) = x.v.num
                    z = path.z3vars.get(next(poly.monomial_items(mono))[0])
                    if z is not None:
                        v = zfrac(m.eval(z, model_completion=True))
                        diff.append(z3.Or(z >= sym.fr(v + Fraction(1, 8)), z <= sym.fr(v - Fraction(1, 8))))
                if diff:
                    for cc in (diff, [z3.Or(diff)]):
                        r, m = check(c + cc, timeout=timeout, want_model=True)
                        if r == z3.sat:
                            yield 1, m
                            break


def eval_rf(v, m):
    """Value of an RF in a z3 model, as an mpmath number."""
    env = {}
    for i in v.vars():
        if V.kind[i] == 'alg' and V.algval.get(i) is not None:
            env[i] = sym._algvalue(i)
        else:
            z = S.path.z3vars.get(i)
            x = zfrac(m.eval(z, model_completion=True)) if z is not None else Fraction(1, 2)
            env[i] = mpmath.mpf(x.numerator) / x.denominator
    return v.evalf(env, mpmath.mpf)


# ------------------------------------------------------------------ concrete replay
def replay(modname, fname, params, values, choices, precise=None, slack=1):
    """Run the harness on the real package.  Returns (failures, outs, note).

    With precise = [label, k, a, b] (k-th assertion of that label; values predicted by the encoding
    for both sides at this point) the assertion fails if the real values are these two, each within
    a tenth of their difference: differences far below the usual tolerance are resolved that way.
    """
    q = loader.fresh_real()
    ns = load_check(modname, False)
    H = ConH(q, values, choices, params, precise is not None, slack)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        so = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        try:
            ns[fname](q, H, **params)
        except (Infeasible, harness.Fail):
            if not H.failed:
                return None, H.outs, 'assumption not met'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.relpath(f.filename, loader.REPO)}:{f.lineno}" for f in reversed(tb)
                          if f.filename.startswith(loader.REPO)), 'harness')
            H.failed.append(('unexpected exception', f"{type(e).__name__}: {e} ({where})"))
        finally:
            sys.stdout.close()
            sys.stdout = so
    if precise is not None:
        label, k, a, b = precise
        p = H.pairs.get(label, [])
        if k >= len(p):
            return None, H.outs, 'assertion not reached'
        (x, y), d = p[k], abs(a - b)
        ok = abs(x - a) <= d / 10 and abs(y - b) <= d / 10
        x, y = [v.real if v.imag == 0 else v for v in (x, y)]
        return ([(label, f"{x!r} instead of {y!r}")] if ok else []), H.outs, ''
    return H.failed, H.outs, ''


def predicted(path, o, m):
    """Values of both sides of an equality at a model, if they differ by a good part of themselves."""
    try:
        a, b = [mpmath.mpf(x.v.numerator) / x.v.denominator if isinstance(x.v, Fraction) else eval_rf(x.v, m)
                for x in (o.a, o.b)]
        if V.cycidx is not None and V.cycidx in (o.a.rf().vars() | o.b.rf().vars()):
            return None
    except (KeyError, ZeroDivisionError, TypeError, ValueError, AttributeError):
        return None
    if not abs(a - b) > max(abs(a), abs(b), mpmath.mpf(10) ** -200) / 1000:
        return None
    k = sum(1 for p in path.obligations[:path.obligations.index(o)] if p.label == o.label and p.kind in ('eq', 'ok', 'false'))
    return [o.label, k, float(a), float(b)]


# ------------------------------------------------------------------ discharge
def diff_rf(o):
    d = o.a - o.b
    return d


def split_complex(d):
    """Real and imaginary part of an RF containing the cyclotomic constant."""
    if V.cycidx is None or not isinstance(d.v, poly.RF):
        return [d]
    if V.cycidx not in d.v.vars():
        return [d]
    if poly._isalgconst(d.v.num) and not d.v.den:
        return [d]
    return [x for x in (sym.sreal(d), sym.simag(d)) if not (isinstance(x.v, Fraction) and x.v == 0)]


def const_abs(d):
    if isinstance(d.v, Fraction):
        return abs(mpmath.mpf(d.v.numerator) / d.v.denominator)
    return abs(sym.const_mp(d.v.num) / d.v.dc)


def is_const(d):
    return isinstance(d.v, Fraction) or (isinstance(d.v, poly.RF) and not d.v.den and poly._isalgconst(d.v.num))


class Discharge:
    def __init__(self, path):
        self.path = path
        self.zero = []          # (z3 lhs, z3 rhs)
        self.size = 0
        self.confirmed = 0
        self.normal_form = 0

    def zero_obl(self, o):
        """Equality whose difference has the zero normal form: let z3 confirm it."""
        a, b = o.a.v, o.b.v
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            self.normal_form += 1
            return
        a, b = o.a.rf(), o.b.rf()
        if V.cycidx is not None and V.cycidx in (a.vars() | b.vars()):
            self.normal_form += 1
            return
        da, db = a.denpoly(), b.denpoly()
        n = len(a.num) * len(db) + len(b.num) * len(da)
        if n > 400 or self.size > 6000:
            self.normal_form += 1
            return
        self.size += n
        self.zero.append((o, sym.z3poly(a.num) * sym.z3poly(db), sym.z3poly(b.num) * sym.z3poly(da)))

    def flush(self):
        """True if every batched equality is confirmed."""
        if not self.zero:
            return None
        z = self.zero
        self.zero, self.size = [], 0
        alg = [c for c in self.path.pc] if V.rules else []
        r = check([z3.Or([x != y for _, x, y in z])] + alg, timeout=10000)
        if r == z3.sat:
            return z
        if r == z3.unsat:
            self.confirmed += len(z)
        else:
            self.normal_form += len(z)
        return None


def linear_bound(d, tol, path):
    """|d| <= tol for every value of the bounded variables, by monomial abstraction (LRA)."""
    v = d.v
    if v.den or V.cycidx is not None and V.cycidx in v.vars():
        return None
    cons, terms = [], []
    for k, (m, c) in enumerate(v.num.items()):
        b = Fraction(1)
        for i, e in poly.monomial_items(m):
            if V.kind[i] == 'alg':
                x = V.algval.get(i)
                if x is None:
                    return None
                hi = Fraction(int(mpmath.ceil(abs(sym._algvalue(i)))))
            else:
                bx = path.box.get(i)
                if bx is None or None in bx:
                    return None
                hi = max(abs(bx[0]), abs(bx[1]))
            b *= hi ** e
        x = z3.Real(f"m!{k}")
        cons += [x <= sym.fr(b), x >= sym.fr(-b)]
        terms.append(sym.fr(Fraction(c, v.dc)) * x)
    s = z3.Sum(terms)
    r = check(cons + [z3.Or(s > sym.fr(tol), s < sym.fr(-tol))])
    return r == z3.unsat


def den_bounded(v, path):
    """Smallest |denominator| (power of ten) provable on the path, or None."""
    lo = Fraction(1)
    for f, e in v.den.items():
        z = sym.z3poly(V.factors[f])
        for k in (1, 2, 3, 4, 6, 8):
            b = Fraction(1, 10 ** k)
            if path.feasible(z3.And(z < sym.fr(b), z > sym.fr(-b))) == z3.unsat:
                lo *= b ** e
                break
        else:
            return None
    return lo


def tolerance_ok(d, tol, path):
    """True: |d| <= tol proved."""
    if is_const(d):
        return const_abs(d) <= mpmath.mpf(tol.numerator) / tol.denominator
    v = d.v
    if v.den:
        lo = den_bounded(v, path)
        if lo is None:
            return None
        d = Sym(poly.RF(v.num, {}, v.dc))
        tol = tol * lo
    return linear_bound(d, tol, path)


def violated_query(o, path, margin=None):
    """z3 constraint stating that obligation o fails."""
    if o.kind == 'cond':
        return z3.Not(sym.tz3(o.a))
    out = []
    for d in split_complex(o.a - o.b):
        if is_const(d):
            out.append(z3.BoolVal(const_abs(d) > 0))
            continue
        v = d.v
        num, den = sym.z3poly(v.num), sym.z3poly(v.denpoly())
        t = margin if margin is not None else (o.tol or (ATOL if S.approx_used else None))
        if t is None:
            out.append(num != 0)
        else:
            t = sym.fr(Fraction(t))
            out.append(num * num > t * t * den * den)
    return z3.Or(out)


# ------------------------------------------------------------------ equalities of the path
def subst_poly(num, sub):
    """Value of a polynomial with some variables replaced."""
    out, rest = Sym(Fraction(0)), {}
    powers = {}
    for m, c in num.items():
        fac, mm = None, m
        for i, e in poly.monomial_items(m):
            if i in sub:
                mm -= e << (poly.BITS * i)
                p = powers.get((i, e))
                if p is None:
                    p = sub[i]
                    for _ in range(e - 1):
                        p = p * sub[i]
                    powers[(i, e)] = p
                fac = p if fac is None else fac * p
        if fac is None:
            rest[m] = c
        else:
            out = out + fac * sym.mk(poly.RF({mm: c}))
    return out + (sym.mk(poly.RF(rest)) if rest else 0)


def elimination(path):
    """Substitution solving the equalities decided on the path (those linear in some variable)."""
    if getattr(path, 'elim', None) is not None:
        return path.elim
    sub = {}
    for key, st in path.signs.items():
        if st != frozenset([0]):
            continue
        p = subst_poly(dict(key), sub)
        if isinstance(p.v, Fraction) or isinstance(p.v, float):
            continue
        num = p.v.num
        best = None
        for i in sorted(p.v.vars()):
            if V.kind[i] == 'alg' or i == V.cycidx:
                continue
            co, rest, ok = {}, {}, True
            for m, c in num.items():
                e = (m >> (poly.BITS * i)) & sym.FM
                if e == 0:
                    rest[m] = c
                elif e == 1:
                    co[m - (1 << (poly.BITS * i))] = c
                else:
                    ok = False
                    break
            if ok and co and poly._isalgconst(co):
                best = (i, co, rest)
        if best is None:
            continue
        i, co, rest = best
        val = -(sym.mk(poly.RF(rest)) if rest else Sym(Fraction(0))) / sym.mk(poly.RF(co))
        for k in list(sub):
            w = subst_rf(sub[k], {i: val})
            if w is None:
                break
            sub[k] = w
        sub[i] = val
    path.elim = sub
    return sub


def subst_rf(x, sub):
    v = x.v
    if not isinstance(v, poly.RF):
        return x
    num = subst_poly(v.num, sub)
    den = subst_poly(v.denpoly(), sub)
    if isinstance(den.v, Fraction) and den.v == 0:
        return None
    return num / den


def zero_on_path(d, path):
    """d vanishes by the equalities of the path."""
    sub = elimination(path)
    if not sub or not isinstance(d.v, poly.RF):
        return False
    try:
        r = subst_poly(d.v.num, sub)
    except (Unsupported, ZeroDivisionError):
        return False
    return isinstance(r.v, Fraction) and r.v == 0


# ------------------------------------------------------------------ one case
class Restart(BaseException):
    pass


def _alarm(sig, frm):
    raise Stop("time budget")


def run_case(modname, case, seed=1):
    """Explore one case; returns a JSON-able result."""
    t0 = time.time()
    cyc = case.get('cyc')
    budget = case.get('budget', 40)
    Trace.start()
    res = None
    signal.signal(signal.SIGALRM, _alarm)
    for attempt in range(6):
        for k in vars(STATS):
            setattr(STATS, k, 0)
        try:
            signal.setitimer(signal.ITIMER_REAL, budget + 5 - (time.time() - t0), 2)
            res = _run(modname, case, cyc, t0 + budget)
            break
        except Restart:
            cyc = lcm(S.needcyc, cyc or 4)
            if cyc > 240:
                res = dict(status='inconclusive', why=f"cyclotomic order {cyc}")
                break
        except Stop as e:
            res = dict(status='inconclusive', why=str(e))
            break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    if res is None:
        res = dict(status='inconclusive', why='cyclotomic restarts')
    Trace.stop()
    res.setdefault('why', '')
    res['case'] = case['name']
    res['stats'] = dict(vars(STATS))
    res['wall'] = time.time() - t0
    res['functions'] = {k: sorted(v) for k, v in Trace.seen.items()}
    res['stubs'] = sorted(shim.STUBS)
    res['mode'] = case.get('mode', 'exact')
    return res


def _run(modname, case, cyc, deadline):
    sym.reset()
    S.mode = case.get('mode', 'exact')
    S.fpfault = case.get('fpfault', False)
    shim.set_pi()
    shim.STUBS.clear()
    if cyc:
        sym.set_cyclotomic(cyc)
    S.path = None
    ns = load_check(modname, True)
    fname, params = case['fn'], case.get('params', {})
    fn = ns[fname]
    cyc0 = (V.cycN, V.cycidx)

    def run(path):
        # every path starts from the same registry: re-executed prefixes take the same decisions
        V.cycN, V.cycidx = cyc0
        V.factors, V.fkey, V.flin = [], {}, {}
        S.memo, S.fresh = {}, 0
        S.approx_used = False
        shim.STUBS.clear()
        path.box = {}
        path.exc = None
        q = loader.symbolic_q()
        H = path.H = SymH(q, path, params)
        status = 'ok'
        try:
            fn(q, H, **params)
        except NeedCyc:
            pass
        except harness.Fail:
            pass
        except Unsupported as e:
            status = 'unsupported'
            if not path.unsupported:
                path.unsupported.append(str(e))
        except (ZeroDivisionError, RecursionError) as e:
            status, path.exc = 'exception', e
        except Exception as e:
            status, path.exc = 'exception', e
        if S.needcyc:
            raise Restart()
        if status == 'ok' and path.unsupported:
            status = 'unsupported'
        return status

    R = dict(status='proved', why='', paths=0, obligations=0, discharged=0, z3_confirmed=0,
             normal_form=0, validated=0, validated_values=0, reached=0, samples=[], inconclusive=[], violation=None,
             dropped=0)
    nwit = case.get('witnesses', 2)
    why = []
    try:
        for path, status in explore.explore(run, deadline, case.get('max_paths', 3000)):
            S.path = path
            r = handle(path, status, R, modname, fname, params, nwit)
            if r == 'violated':
                R['status'] = 'violated'
                return R
            if time.time() > deadline:
                raise Stop("time budget")
    except Stop as e:
        why.append(str(e) or 'budget')
    except Unsupported as e:
        why.append(f"unsupported: {e}")
    if R['reached'] == 0 and not R['inconclusive'] and not why:
        why.append('vacuous: no path reached an assertion')
    if R['inconclusive'] or why:
        R['status'] = 'inconclusive'
        R['why'] = '; '.join(dict.fromkeys(why + R['inconclusive']))[:600]
    return R


def short(v):
    return {k: (str(x) if x.denominator < 10 ** 6 else repr(float(x))) for k, x in v.items()}


def handle(path, status, R, modname, fname, params, nwit):
    H = path.H
    # drop paths that cannot happen
    if path.pc and path.feasible() == z3.unsat:
        R['dropped'] += 1
        return None
    R['paths'] += 1
    obl = path.obligations
    R['obligations'] += len(obl)
    if obl:
        R['reached'] += 1
    D = Discharge(path)
    pending = []
    bad = []
    for o in obl:
        if o.kind == 'ok':
            R['discharged'] += 1
        elif o.kind == 'false':
            bad.append(o)
        elif o.kind == 'eq':
            d = o.a - o.b
            if isinstance(d.v, Fraction) and d.v == 0:
                D.zero_obl(o)
                R['discharged'] += 1
                continue
            if zero_on_path(d, path):
                R['discharged'] += 1
                R['normal_form'] += 1
                continue
            pending.append(o)
        else:
            pending.append(o)
    zbad = D.flush()
    if zbad:
        R['inconclusive'].append("normal form and z3 disagree")
    R['z3_confirmed'] += D.confirmed
    R['normal_form'] += D.normal_form
    # tolerance discharge
    rest = []
    for o in pending:
        if o.kind == 'eq':
            tol = Fraction(o.tol) if o.tol else (ATOL if S.approx_used else None)
            ds = split_complex(o.a - o.b)
            if tol is not None and all(tolerance_ok(d, tol, path) for d in ds):
                R['discharged'] += 1
                continue
        rest.append(o)
    need_witness = bool(bad or rest or status != 'ok')
    if not need_witness and R['validated'] >= nwit:
        return None
    # a concrete point of this path, replayed on the real package
    tried = 0
    first_model = None
    suspect = None
    open_labels = {o.label for o in bad + rest} | {o.label.split('[')[0] for o in bad + rest}
    try:
        for k, m in models(path):
            vals = model_values(m, H.inputs)
            fails, outs, note = replay(modname, fname, params, vals, H.choices)
            tried += 1
            if fails:
                if status != 'ok' or any(f[0] in open_labels or f[0].split('[')[0] in open_labels for f in fails):
                    return violate(R, path, modname, fname, params, vals, fails)
                # the assertions that fail are shown for the path: a failure on the real code is a violation
                # the encoding does not see, unless it is rounding at an ill-conditioned point
                if replay(modname, fname, params, vals, H.choices, None, SLACK)[0]:
                    if suspect is not None or not H.inputs:
                        return violate(R, path, modname, fname, params, vals, fails)
                    suspect = (vals, fails)
                else:
                    R['rounding'] = R.get('rounding', 0) + 1
                    suspect = None
                    if not need_witness:
                        break
                continue
            if fails is not None:
                suspect = None
                R['validated'] += 1
                if first_model is None:
                    first_model = m
                    if status == 'ok':
                        compare(R, H, m, outs)
                    if len(R['samples']) < 2:
                        R['samples'].append(dict(inputs=short(vals), choices=dict(H.choices),
                                                 decisions=len(path.log), obligations=len(obl)))
            if not need_witness or tried >= REPLAYS:
                break
    except ValueError:
        pass
    if suspect is not None:
        return violate(R, path, modname, fname, params, *suspect)
    # undecided conditions: ask the solver for a violating point
    left = []
    for o in rest:
        q = violated_query(o, path)
        r, m = check(path.pc + [q], timeout=8000, want_model=True)
        if r == z3.unsat:
            R['discharged'] += 1
            continue
        left.append((o, r, m))
    for o, r, m in left[:6]:
        cands = []
        for margin, pr in ((Fraction(1, 100), True), (Fraction(1, 10 ** 5), True), (Fraction(1, 10 ** 5), False), (None, True)):
            if o.kind == 'cond' and margin is not None and not pr:
                continue
            r2, m2 = check(path.pc + (path.prefs if pr else []) + [violated_query(o, path, margin)],
                           timeout=3000, want_model=True)
            if r2 == z3.sat:
                cands.append(m2)
                break
        if r == z3.sat:
            cands.append(m)
        for mm in cands:
            try:
                vals = model_values(mm, H.inputs)
            except ValueError:
                continue
            fails, outs, note = replay(modname, fname, params, vals, H.choices)
            if fails:
                return violate(R, path, modname, fname, params, vals, fails)
            pre = predicted(path, o, mm) if o.kind == 'eq' and not o.tol else None
            if pre:
                fails, outs, note = replay(modname, fname, params, vals, H.choices, pre)
                if fails:
                    return violate(R, path, modname, fname, params, vals, fails, pre)
        R['inconclusive'].append(f"{o.label}: " + ("counterexample not reproduced" if r == z3.sat else "solver gave no answer"))
    if len(left) > 6:
        R['inconclusive'].append(f"{len(left)} undecided assertions")
    for o in bad[:1]:
        R['inconclusive'].append(f"{o.label}: {o.msg or 'fails'} symbolically, not on the real code")
    if status == 'exception':
        tb = traceback.extract_tb(path.exc.__traceback__)
        loc = ' < '.join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in list(reversed(tb))[:4])
        R['inconclusive'].append(f"engine exception {type(path.exc).__name__}: {path.exc} [{loc}]"[:300])
    if status == 'unsupported':
        R['inconclusive'].append(f"unsupported: {path.unsupported[0]}")
    return None


def compare(R, H, m, outs):
    """Symbolic results against the real ones at the same point (translator validation)."""
    if len(outs) != len(H.outs):
        return
    for (la, x), (lb, y) in zip(H.outs, outs):
        if la != lb:
            return
        if isinstance(x.v, Fraction):
            v = mpmath.mpf(x.v.numerator) / x.v.denominator
        else:
            try:
                v = eval_rf(x.v, m)
            except (KeyError, ZeroDivisionError, TypeError, ValueError):
                continue
        y = complex(y)
        if y != y or abs(y) == float('inf'):
            continue
        if abs(complex(v) - y) > 1e-6 * max(1, abs(y)):
            R['inconclusive'].append(f"encoding and code differ at {la}: {complex(v)} / {y}")
            return
        R['validated_values'] += 1


def violate(R, path, modname, fname, params, vals, fails, precise=None):
    R['violation'] = dict(module=modname, fn=fname, params=params, values={k: [str(v), float(v)] for k, v in vals.items()},
                          choices=path.H.choices, failures=[list(f) for f in fails[:12]], precise=precise)
    return 'violated'
