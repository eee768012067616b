"""Path exploration by decision-prefix re-execution, with z3 deciding feasibility."""
import time
from fractions import Fraction

import z3

from . import sym, poly
from .sym import S, V, Sym, SymBool, OPS, ALL, Unsupported, Infeasible, Stop


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.dropped = 0

    def add(self, o):
        for k in vars(self):
            setattr(self, k, getattr(self, k) + (o[k] if isinstance(o, dict) else getattr(o, k)))


STATS = Stats()
QTIMEOUT = 4000        # ms per feasibility query


def check(cons, timeout=QTIMEOUT, want_model=False):
    """One z3 query over a list of constraints."""
    t0 = time.time()
    STATS.queries += 1
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(cons)
    r = s.check()
    if r == z3.unknown:
        s2 = z3.SolverFor('QF_NRA')
        s2.set('timeout', timeout)
        s2.add(cons)
        r = s2.check()
        s = s2
        if r == z3.unknown:
            STATS.unknown += 1
    STATS.solver_s += time.time() - t0
    if want_model:
        return r, (s.model() if r == z3.sat else None)
    return r


class Path:
    def __init__(self, prefix, budget):
        self.prefix = prefix          # list of decisions to follow
        self.log = []                 # decisions taken (value, kind, alternatives)
        self.pc = []                  # z3 constraints
        self.z3vars = {}
        self.signs = {}               # canonical poly -> possible signs
        self.unsupported = []
        self.defkeys = set()
        self.obligations = []
        self.assumptions = []
        self.prefs = []
        self.prefs2 = []
        self.fpevents = []
        self.lazy_abs = True
        self.lazy_max = True
        self.inputs = {}              # name -> Sym / list
        self.reached = set()
        self.deadline = budget
        self.solver = None
        self.notes = []

    # -------------------------------------------------- constraints
    def add_z3(self, c, linear=True):
        self.pc.append(c)
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', QTIMEOUT)
        self.solver.add(c)

    def feasible(self, c=None):
        """sat / unsat / unknown of the path condition with c."""
        if time.time() > self.deadline:
            raise Stop("time budget")
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', QTIMEOUT)
        t0 = time.time()
        STATS.queries += 1
        if c is not None:
            self.solver.push()
            self.solver.add(c)
        r = self.solver.check()
        if c is not None:
            self.solver.pop()
        STATS.solver_s += time.time() - t0
        if r == z3.unknown:
            r = check(self.pc + ([c] if c is not None else []))
        return r

    # -------------------------------------------------- decision log
    def _next(self):
        i = len(self.log)
        if i < len(self.prefix):
            return self.prefix[i]
        return None

    def _push(self, value, alts):
        if alts and len(self.log) >= len(self.prefix):
            STATS.decisions += 1
        self.log.append((value, alts))

    def determine(self, p):
        """Signs p can take on this path (p canonical)."""
        key = frozenset(p.items())
        st = self.signs.get(key, ALL)
        if len(st) == 1 or ('det', key) in self.defkeys:
            return st
        nx = self._next()
        if nx is not None:
            st = nx[0]
            if not isinstance(st, frozenset):
                sym.unsupported("execution is not reproducible")
            self.log.append((st, None))
        else:
            e = sym.z3poly(p)
            out = set()
            for sg, c in ((1, e > 0), (-1, e < 0), (0, e == 0)):
                if sg in st and self.feasible(c) != z3.unsat:
                    out.add(sg)
            st = frozenset(out)
            if not st:
                raise Infeasible("empty path condition")
            self.log.append((st, None))
        self.signs[key] = st
        self.defkeys.add(('det', key))
        return st

    def decide(self, p, op):
        key = frozenset(p.items())
        want = OPS[op]
        st = self.signs.get(key, ALL)
        if st <= want:
            return True
        if not (st & want):
            return False
        nx = self._next()
        e = sym.z3poly(p)
        rel = {'<': e < 0, '<=': e <= 0, '==': e == 0, '!=': e != 0, '>': e > 0, '>=': e >= 0}
        if nx is not None:
            value, forced = nx[0], nx[1] is None
            if not isinstance(value, bool):
                sym.unsupported("execution is not reproducible")
            self.log.append(nx)
        else:
            t = self.feasible(rel[op]) != z3.unsat
            f = self.feasible(rel[sym.NEGOP[op]]) != z3.unsat
            if t and f:
                value, forced = True, False
                self._push(True, [False])
            elif t or f:
                value, forced = t, True
                self.log.append((value, None))
            else:
                raise Infeasible("empty path condition")
        self.signs[key] = st & (want if value else ALL - want)
        self.defkeys.discard(('det', key))
        if not forced:
            self.add_z3(rel[op] if value else rel[sym.NEGOP[op]])
        return value

    def choose(self, name, n):
        """An arbitrary value of range(n) chosen by the environment."""
        nx = self._next()
        if nx is not None:
            self.log.append(nx)
            return nx[0]
        self._push(0, list(range(1, n)))
        return 0

    def concretize(self, s):
        """Fork over the integer values s can take."""
        name = sym.keyof(s)
        nx = self._next()
        e = sym.z3poly(s.v.num)
        if nx is not None:
            self.log.append(nx)
            v = nx[0]
        else:
            vals = []
            cons = []
            sol = z3.Solver()
            sol.set('timeout', QTIMEOUT)
            sol.add(self.pc)
            while len(vals) < 64:
                STATS.queries += 1
                if sol.check() != z3.sat:
                    break
                x = sol.model().eval(e, model_completion=True)
                if not z3.is_rational_value(x):
                    x = z3.simplify(x)
                f = Fraction(x.numerator_as_long(), x.denominator_as_long())
                vals.append(int(f))
                sol.add(e != int(f))
            else:
                sym.unsupported("unbounded integer used as an index")
            if not vals:
                raise Infeasible("no integer value")
            vals.sort()
            v = vals[0]
            self._push(v, vals[1:])
        self.add_z3(e == v)
        d = s - v
        if isinstance(d.v, poly.RF):
            p, _ = sym.canon(d.v.num)
            self.signs[frozenset(p.items())] = frozenset([0])
        return v

    def choose_floor(self, s):
        """Fork over the floor of a bounded symbolic real."""
        nx = self._next()
        v = s.v
        if nx is not None:
            self.log.append(nx)
            k = nx[0]
        else:
            e = sym.z3poly(v.num) / sym.z3poly(v.denpoly())
            vals = []
            for k in range(-12, 13):
                if self.feasible(z3.And(e >= k, e < k + 1)) != z3.unsat:
                    vals.append(k)
            if self.feasible(z3.Or(e < -12, e >= 13)) != z3.unsat:
                sym.unsupported("floor of an unbounded value")
            if not vals:
                raise Infeasible("floor")
            vals.sort(key=abs)
            k = vals[0]
            self._push(k, vals[1:])
        self.assume(s >= k)
        self.assume(s < k + 1)
        return k

    # -------------------------------------------------- assumptions
    def assume(self, c):
        if isinstance(c, SymBool):
            for a in _conj(c):
                self._assume1(a)
        elif not c:
            raise Infeasible("assumption")

    def _assume1(self, c):
        if isinstance(c, SymBool) and c.k == 'atom':
            v, op = c.a
            self.add_z3(sym.rel_z3(v, op))
            cc, nf = poly.split_factors(v.num)
            odd = [f for f, e in nf.items() if e % 2]
            oddd = [f for f, e in v.den.items() if e % 2]
            if op == '!=':
                for f in nf:
                    self._narrow(V.factors[f], '!=')
            elif len(nf) == 1 and not oddd and len(odd) == 1:
                self._narrow(V.factors[odd[0]], op if cc > 0 else sym.FLIP[op])
            elif op in ('<', '>'):
                for f in nf:
                    self._narrow(V.factors[f], '!=')
        else:
            self.add_z3(sym.tz3(c))
        self.fresh_assumption = True

    def _narrow(self, p, op):
        if poly._isalgconst(p):
            return
        q, s = sym.canon(p)
        if s < 0:
            op = sym.FLIP[op]
        key = frozenset(q.items())
        st = self.signs.get(key, ALL) & OPS[op]
        if not st:
            raise Infeasible("assumption")
        self.signs[key] = st
        self.defkeys.discard(('det', key))


def _conj(c):
    if c.k == 'and':
        for x in c.a:
            if isinstance(x, SymBool):
                yield from _conj(x)
            elif not x:
                raise Infeasible("assumption")
    else:
        yield c


def explore(run, deadline, max_paths=4000):
    """Yield every completed Path of run(path)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        p = Path(prefix, deadline)
        S.path = p
        S.errstate = dict(divide='warn', over='warn', under='ignore', invalid='warn')
        try:
            status = run(p)
        except Infeasible:
            status = 'infeasible'
            STATS.dropped += 1
        # alternatives of the new decisions
        for i in range(len(prefix), len(p.log)):
            v, alts = p.log[i]
            if alts:
                base = p.log[:i]
                for a in reversed(alts):
                    stack.append([(x, None if al is None else []) for x, al in base] + [(a, [])])
        n += 1
        if status != 'infeasible':
            STATS.paths += 1
            yield p, status
        if n >= max_paths and stack:
            raise Stop("path budget")
        if time.time() > deadline and stack:
            raise Stop("time budget")
