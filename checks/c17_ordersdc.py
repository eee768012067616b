"""C17: SDC reaches at least the order promised by the order function."""
import math

TYPES = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']
NAMES = ['BE', 'FE', 'TRAP', 'BEPAR', 'TRAPAR', 'SOE', 'LU', 'MIN-SR-NS']

BOUNDS = ("order function: every collocation order 1..40, every number of sweeps 0..12, 2..6 nodes, all node and quadrature types, every approximation "
          "name and step update; amplification factor: all node and quadrature types, 1..4 nodes and 1..4 sweeps (quick), 1..6 nodes and 1..7 sweeps (thorough), "
          "all linear combinations of its Taylor coefficients, within 1e-22")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)",
               "the tabulated special combinations (at most 4 nodes) are only bounded (at most two orders above): they are fitted to one test problem, "
               "most are not Taylor orders of the iteration"]


def cases(tier):
    th = tier != 'quick'
    out = []
    for qd in NAMES + ['other']:
        for su in ('QUADRATURE', 'LASTNODE'):
            out.append(dict(name=f"function-{qd}-{su}", fn='function', params=dict(qd=qd, su=su), budget=900 if th else 100))
    for nt in TYPES:
        for qt in QUADS:
            for n in range(2 if qt in ('LOBATTO', 'RADAU-LEFT') else 1, 7 if th else 5):
                out.append(dict(name=f"reached-{nt}-{qt}-{n}", fn='reached', params=dict(nt=nt, qt=qt, n=n, K=7 if th else 4), mode='approx',
                                budget=900 if th else 60))
    return out


class Stub:
    """What the order function reads of a collocation method."""


class Nodes:
    def __init__(self, M):
        self.size = M
        self.ndim = 1

    @property
    def shape(self):
        return (self.size,)

    def __len__(self):
        return int(self.size)


class Name:
    """A string among options, decided as late as possible."""

    def __init__(self, H, name, opts):
        self.H, self.name, self.opts, self.n = H, name, list(opts), 0

    def decided(self):
        while len(self.opts) > 1:
            self == self.opts[0]
        return self.opts[0]

    def __eq__(self, o):
        if isinstance(o, Name):
            o = o.decided()
        if o in self.opts and len(self.opts) > 1:
            self.n += 1
            if self.H.choice(f'{self.name} is {o}', (False, True)):
                self.opts = [o]
            else:
                self.opts = [x for x in self.opts if x != o]
        return self.opts == [o]

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(self.decided())

    def __str__(self):
        return self.decided()

    def __getattr__(self, a):
        return getattr(self.decided(), a)


def floor_order(o, K, qd, su):
    p = 0
    if K > 0:
        p = K + (1 if qd in ('TRAP', 'TRAPAR') else 0)
    if su == 'QUADRATURE':
        p = p + 1
    return p if p < o else o


def function(q, H, qd, su):
    C = Stub()
    M = H.intvar('M', 2, 6)
    C.nodes = Nodes(M)
    C.nNodes = M
    C.nodeType = Name(H, 'nodeType', TYPES)
    C.quadType = Name(H, 'quadType', QUADS)
    C.order = H.intvar('order', 1, 40)
    K = H.intvar('nSweeps', 0, 12)
    qd = 'ABC' if qd == 'other' else qd
    p = q.sdc.getOrderSDC(C, K, qd, su)
    base = floor_order(C.order, K, qd, su)
    H.true('at least the order of the sweeps', p >= base)
    H.true('at most two special orders', p <= base + 2)
    if qd in ('ABC', 'LU', 'MIN-SR-NS') or M > 4:
        H.eq('order without special combinations', p, base)
    elif K > 4 or K < 1:
        H.eq('order outside the tabulated sweeps', p, base)


def reached(q, H, nt, qt, n, K):
    """Taylor coefficients of the amplification factor against those of the exponential."""
    C = q.coll.Collocation(n, nt, qt)
    Q = tolist(C.Q)
    w = list(C.weights)
    c = [H.real(f'c{k}', lo=-1, hi=1) for k in range(K + 3)]
    for qd in NAMES:
        if qd == 'SOE' and n == 1:
            continue
        if qd == 'LU' and qt in ('LOBATTO', 'RADAU-LEFT') and n == 1:
            continue
        D = [tolist(q.qdelta.genQDeltaCoeffs(qd, qGen=C))] * K
        L = K + 3
        U = [[1] * n] + [[0] * n] * (L - 1)
        for k in range(1, K + 1):
            E = [[Q[i][j] - D[k - 1][i][j] for j in range(n)] for i in range(n)]
            V = [[1] * n]
            for j in range(1, L):
                a, b = matvec(D[k - 1], V[j - 1]), matvec(E, U[j - 1])
                V.append([x + y for x, y in zip(a, b)])
            U = V
            for su in ('QUADRATURE', 'LASTNODE'):
                if su == 'LASTNODE' and not C.rightIsNode:
                    continue
                p = q.sdc.getOrderSDC(C, k, qd, su)
                if n <= 4 and k <= 4 and p > floor_order(C.order, k, qd, su):
                    p = floor_order(C.order, k, qd, su)     # special combination: not claimed
                tot, ref = 0, 0
                for j in range(1, p + 1):
                    s = sum(a * b for a, b in zip(w, U[j - 1])) if su == 'QUADRATURE' else U[j][-1]
                    tot, ref = tot + c[j - 1] * s, ref + c[j - 1] * H.frac(1, math.factorial(j))
                H.eq(f'{qd} {su} {k} sweeps', tot, ref, 1e-22)
