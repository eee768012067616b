"""Exact sparse multivariate polynomials and rational functions over Q.

Monomials are packed into one Python int, BITS bits per variable (top bit of each
field is a guard bit), so multiplying monomials is integer addition.  Polynomials are
dicts {monomial: int}.  Rational functions keep their denominator as a multiset of
primitive factor polynomials, which is what makes the Lagrange-type expressions of the
code under test collapse without multivariate gcds.
"""
from math import gcd
from fractions import Fraction
import random

BITS = 16
FM = (1 << BITS) - 1
GB = 1 << (BITS - 1)
NALG = 24                      # low indices are reserved for algebraic constants
PRIME = (1 << 61) - 1


class Vars:
    """Variable registry of one exploration (reset for every path set)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.names = {}        # name -> idx
        self.kind = {}         # idx -> 'real' | 'int' | 'alg'
        self.byidx = {}        # idx -> name
        self.rules = {}        # alg idx -> (degree, poly)  meaning v**deg == poly
        self.algval = {}       # alg idx -> mpmath value
        self.next = NALG
        self.nalg = 0
        self.guard = 0
        self.algmask = 0
        self.constmask = 0     # algmask without the roots of variables
        rnd = random.Random(12345)
        self.rnd = [rnd.randrange(2, PRIME - 2) for _ in range(4096)]
        self.factors = []      # list of polys
        self.fkey = {}
        self.flin = {}
        self.cycN = None       # order of the cyclotomic constant, if any
        self.cycidx = None
        self.sqrtidx = {}      # prime -> alg idx of its square root
        self.numcache = {}

    def new(self, name, kind='real'):
        if name in self.names:
            return self.names[name]
        if kind == 'alg':
            idx = self.nalg
            self.nalg += 1
            assert idx < NALG, "too many algebraic constants"
            self.algmask |= FM << (BITS * idx)
            self.constmask |= FM << (BITS * idx)
        else:
            idx = self.next
            self.next += 1
        self.names[name] = idx
        self.byidx[idx] = name
        self.kind[idx] = kind
        self.guard |= GB << (BITS * idx)
        return idx


V = Vars()


def monomial_items(m):
    i = 0
    while m:
        e = m & FM
        if e:
            yield i, e
        m >>= BITS
        i += 1


def pvars(p):
    acc = 0
    for m in p:
        acc |= m
    return [i for i, _ in monomial_items(acc)]


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def pneg(a):
    return {m: -c for m, c in a.items()}


def preduce(p):
    """Apply the reduction rules of the algebraic constants."""
    if not V.rules:
        return p
    am = V.algmask
    work = None
    for m in p:
        if m & am:
            work = True
            break
    if not work:
        return p
    changed = True
    while changed:
        changed = False
        r = {}
        for m, c in p.items():
            hit = None
            if m & am:
                for idx, (deg, rhs) in V.rules.items():
                    e = (m >> (BITS * idx)) & FM
                    if e >= deg:
                        hit = (idx, deg, rhs)
                        break
            if hit is None:
                s = r.get(m, 0) + c
                if s:
                    r[m] = s
                else:
                    r.pop(m, None)
            else:
                changed = True
                idx, deg, rhs = hit
                base = m - (deg << (BITS * idx))
                for ex, cc in rhs.items():
                    mm = base + ex
                    s = r.get(mm, 0) + c * cc
                    if s:
                        r[mm] = s
                    else:
                        r.pop(mm, None)
        p = r
    return p


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (ma, ca), = a.items()
        if ma == 0:
            return pscale(b, ca)
        r = {m + ma: c * ca for m, c in b.items()}
        return preduce(r)
    r = {}
    get = r.get
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = ma + mb
            r[m] = get(m, 0) + ca * cb
    r = {m: c for m, c in r.items() if c}
    return preduce(r)


def ppow(a, n):
    r = {0: 1}
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def pcontent(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def peval_mod(p, sub=None):
    """Evaluate mod PRIME at the fixed random point (variables overridden by sub)."""
    tot = 0
    cache = {}
    rnd = V.rnd
    for m, c in p.items():
        t = c
        for i, e in monomial_items(m):
            key = (i, e)
            v = cache.get(key)
            if v is None:
                base = rnd[i] if sub is None or i not in sub else sub[i]
                v = pow(base, e, PRIME)
                cache[key] = v
            t = t * v % PRIME
        tot += t
    return tot % PRIME


def pdiv_exact(p, q):
    """p/q if q divides p exactly, else None (q primitive)."""
    if not p:
        return {}
    if len(q) == 1:
        (mq, cq), = q.items()
        G = V.guard
        r = {}
        for m, c in p.items():
            d = (m | G) - mq
            if d & G != G or c % cq:
                return None
            r[m - mq] = c // cq
        return r
    lq = max(q)
    cq = q[lq]
    G = V.guard
    rem = dict(p)
    quo = {}
    qitems = list(q.items())
    import heapq
    heap = [-m for m in rem]
    heapq.heapify(heap)
    limit = 200000
    while rem:
        lm = -heap[0]
        if lm not in rem:
            heapq.heappop(heap)
            continue
        c = rem[lm]
        d = (lm | G) - lq
        if d & G != G or c % cq:
            return None
        md = lm - lq
        k = c // cq
        quo[md] = k
        for mq, ccq in qitems:
            mm = mq + md
            old = rem.get(mm)
            if old is None:
                rem[mm] = -k * ccq
                heapq.heappush(heap, -mm)
            else:
                s = old - k * ccq
                if s:
                    rem[mm] = s
                else:
                    del rem[mm]
        limit -= 1
        if limit < 0:
            return None
    return quo


def _divisible_hint(p, fid):
    """False if factor fid certainly does not divide p (modular root test)."""
    q = V.factors[fid]
    info = V.flin.get(fid)
    if info is None:
        info = False
        if not any(m & V.algmask for m in q):
            for i in pvars(q):
                one = 1 << (BITS * i)
                cnt = [m for m in q if (m >> (BITS * i)) & FM]
                if cnt == [one]:
                    rest = {m: c for m, c in q.items() if m != one}
                    val = (-peval_mod(rest) * pow(q[one], -1, PRIME)) % PRIME
                    info = (i, val)
                    break
        V.flin[fid] = info
    if info is False:
        return True
    if any(m & V.algmask for m in p):
        return True
    i, val = info
    return peval_mod(p, {i: val}) == 0


def factor_id(p):
    """Register primitive poly p (positive leading coeff) as a factor."""
    key = frozenset(p.items())
    f = V.fkey.get(key)
    if f is None:
        f = len(V.factors)
        V.factors.append(p)
        V.fkey[key] = f
    return f


def split_factors(p):
    """p (nonzero) -> (const, {fid: mult}).  Splits by monomials and known factors."""
    c = pcontent(p)
    lead = max(p)
    if p[lead] < 0:
        c = -c
    if c != 1:
        p = {m: k // c for m, k in p.items()}
    den = {}
    if len(p) == 1 and 0 in p:
        return c, den
    # monomial part
    common = None
    for m in p:
        es = dict(monomial_items(m))
        if common is None:
            common = es
        else:
            common = {i: min(e, es[i]) for i, e in common.items() if i in es}
        if not common:
            break
    if common:
        mm = 0
        for i, e in common.items():
            mm += e << (BITS * i)
            den[factor_id({1 << (BITS * i): 1})] = e
        p = {m - mm: k for m, k in p.items()}
        if len(p) == 1 and 0 in p:
            return c * p[0], den
    if len(p) > 2:
        pv = set(pvars(p))
        for fid in range(len(V.factors)):
            q = V.factors[fid]
            if len(q) == 1 or len(q) > len(p) + 8:
                continue
            if not set(pvars(q)) <= pv:
                continue
            while _divisible_hint(p, fid):
                r = pdiv_exact(p, q)
                if r is None:
                    break
                den[fid] = den.get(fid, 0) + 1
                p = r
                if len(p) == 1 and 0 in p:
                    break
            if len(p) == 1 and 0 in p:
                break
    if len(p) == 1 and 0 in p:
        return c * p[0], den
    cc = pcontent(p)
    if p[max(p)] < 0:
        cc = -cc
    if cc != 1:
        p = {m: k // cc for m, k in p.items()}
        c *= cc
    f = factor_id(p)
    den[f] = den.get(f, 0) + 1
    return c, den


def _isalgconst(p):
    nm = ~V.constmask
    for m in p:
        if m & nm:
            return False
    return True


def rationalize(p):
    """(k, p2, kd) with 1/p == kd*k/p2 and p2 free of square roots / algebraic constants
    whenever that is easy; otherwise (1, p, 1)."""
    k = {0: 1}
    for prime, idx in V.sqrtidx.items():
        one = 1 << (BITS * idx)
        fld = FM << (BITS * idx)
        if any(m & fld for m in p):
            conj = {m: (-c if m & fld == one else c) for m, c in p.items()}
            k = pmul(k, conj)
            p = pmul(p, conj)
    if V.cycidx is not None:
        sh = BITS * V.cycidx
        if any((m >> sh) & FM for m in p) and all(m & ~(FM << sh) == 0 for m in p):
            # p is a constant of the cyclotomic field: invert it there
            deg, rhs = V.rules[V.cycidx]
            mod = [Fraction(0)] * (deg + 1)
            mod[deg] = Fraction(1)
            for m, c in rhs.items():
                mod[(m >> sh) & FM] -= c
            a = [Fraction(0)] * deg
            for m, c in p.items():
                a[(m >> sh) & FM] += c
            inv = _polyinv(a, mod)
            L = 1
            for c in inv:
                L = L * c.denominator // gcd(L, c.denominator)
            q = {}
            for i, c in enumerate(inv):
                if c:
                    q[i << sh] = int(c * L)
            return pmul(k, q), {0: L}, 1
    return k, p, 1


def _trim(a):
    while a and a[-1] == 0:
        a.pop()
    return a


def _polyinv(a, mod):
    """Inverse of a modulo mod (lists of Fractions, low degree first)."""
    r0, r1 = _trim(list(mod)), _trim(list(a))
    s0, s1 = [], [Fraction(1)]
    while len(r1) > 1:
        q = [Fraction(0)] * (len(r0) - len(r1) + 1)
        rem = list(r0)
        for i in range(len(r0) - len(r1), -1, -1):
            c = rem[i + len(r1) - 1] / r1[-1]
            q[i] = c
            if c:
                for j, b in enumerate(r1):
                    rem[i + j] -= c * b
        rem = _trim(rem)
        prod = [Fraction(0)] * (len(q) + len(s1) - 1)
        for i, x in enumerate(q):
            if x:
                for j, y in enumerate(s1):
                    prod[i + j] += x * y
        n = max(len(s0), len(prod))
        s2 = [(s0[i] if i < len(s0) else 0) - (prod[i] if i < len(prod) else 0) for i in range(n)]
        s0, s1 = s1, _trim(s2)
        r0, r1 = r1, rem
    if not r1:
        raise ZeroDivisionError
    out = [x / r1[0] for x in s1]
    return out


class RF:
    """Rational function num / (dc * prod factors**mult)."""
    __slots__ = ('num', 'den', 'dc')

    def __init__(self, num, den=None, dc=1):
        self.num = num
        self.den = den or {}
        self.dc = dc

    @staticmethod
    def const(fr):
        if fr == 0:
            return RF({}, {}, 1)
        return RF({0: fr.numerator}, {}, fr.denominator)

    def isconst(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def constval(self):
        return Fraction(self.num.get(0, 0), self.dc)

    def norm(self, cand=None):
        """Cancel integer content, and factors in cand (default: all)."""
        if not self.num:
            return RF({}, {}, 1)
        num, den, dc = self.num, self.den, self.dc
        if den:
            for fid in (list(den) if cand is None else cand):
                while fid in den and _divisible_hint(num, fid):
                    r = pdiv_exact(num, V.factors[fid])
                    if r is None:
                        break
                    num = r
                    if den is self.den:
                        den = dict(den)
                    if den[fid] == 1:
                        del den[fid]
                    else:
                        den[fid] -= 1
        g = gcd(pcontent(num), dc)
        if g > 1:
            num = {m: c // g for m, c in num.items()}
            dc //= g
        return RF(num, den, dc)

    def add(self, o):
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            g = gcd(self.dc, o.dc)
            ka, kb = o.dc // g, self.dc // g
            num = padd(pscale(self.num, ka), pscale(o.num, kb))
            return RF(num, self.den, self.dc * ka).norm()
        den = dict(self.den)
        fa, fb = {0: 1}, {0: 1}
        cand = []
        for f, e in o.den.items():
            s = den.get(f, 0)
            if s == e:
                cand.append(f)
            if s < e:
                den[f] = e
                fa = pmul(fa, ppow(V.factors[f], e - s))
            elif s > e:
                fb = pmul(fb, ppow(V.factors[f], s - e))
        for f, s in self.den.items():
            if f not in o.den:
                fb = pmul(fb, ppow(V.factors[f], s))
        g = gcd(self.dc, o.dc)
        ka, kb = o.dc // g, self.dc // g
        num = padd(pscale(pmul(self.num, fa), ka), pscale(pmul(o.num, fb), kb))
        return RF(num, den, self.dc * ka).norm(cand if not V.rules else None)

    def neg(self):
        return RF(pneg(self.num), self.den, self.dc)

    def mul(self, o):
        if not self.num or not o.num:
            return RF({}, {}, 1)
        a, b = self, o
        an, bn = a.num, b.num
        aden, bden = a.den, b.den
        if bden and not (len(an) == 1 and 0 in an):
            t = RF(an, bden, 1).norm()
            an, bden, x1 = t.num, t.den, t.dc
        if aden and not (len(bn) == 1 and 0 in bn):
            t = RF(bn, aden, 1).norm()
            bn, aden = t.num, t.den
        den = dict(aden)
        for f, e in bden.items():
            den[f] = den.get(f, 0) + e
        num = pmul(an, bn)
        dc = a.dc * b.dc
        if not num:
            return RF({}, {}, 1)
        g = gcd(pcontent(num), dc)
        if g > 1:
            num = {m: c // g for m, c in num.items()}
            dc //= g
        return RF(num, den, dc)

    def inv(self):
        if not self.num:
            raise ZeroDivisionError
        num = {0: self.dc}
        snum = self.num
        if V.rules:
            k, snum, kd = rationalize(snum)
            num = pmul(num, k)
            num = pscale(num, kd)
        c, den = split_factors(snum)
        for f, e in self.den.items():
            num = pmul(num, ppow(V.factors[f], e))
        if c < 0:
            num, c = pneg(num), -c
        r = RF(num, den, c)
        return r.norm()

    def denpoly(self):
        p = {0: self.dc}
        for f, e in self.den.items():
            p = pmul(p, ppow(V.factors[f], e))
        return p

    def evalf(self, env, mk=float):
        """Numeric evaluation; env: idx -> number."""
        def ev(p):
            t = 0
            for m, c in p.items():
                x = mk(c)
                for i, e in monomial_items(m):
                    x = x * env[i] ** e
                t = t + x
            return t
        d = mk(self.dc)
        for f, e in self.den.items():
            d = d * ev(V.factors[f]) ** e
        return ev(self.num) / d

    def vars(self):
        s = set(pvars(self.num))
        for f in self.den:
            s |= set(pvars(V.factors[f]))
        return s
