"""C09: collocation methods have the order they declare."""
import math

BOUNDS = ("all node and quadrature types, 1..12 nodes (quick) / 1..20 (thorough); every polynomial of the relevant degree with coefficients in "
          "[-1,1], every coefficient of the stability function through the declared order; results within 1e-22")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "eigenvalues of the tridiagonal matrix handed to scipy at 220 bits (library contract)"]

TYPES = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']


def cases(tier):
    th = tier != 'quick'
    out = []
    for nt in TYPES:
        for qt in QUADS:
            for n in range(2 if qt in ('LOBATTO', 'RADAU-LEFT') else 1, 21 if th else 13):
                out.append(dict(name=f"{nt}-{qt}-{n}", fn='order', params=dict(nt=nt, qt=qt, n=n), mode='approx', budget=900 if th else 60))
    return out


def order(q, H, nt, qt, n):
    C = q.coll.Collocation(n, nt, qt)
    # the order every user can expect from the node distribution (superconvergence for Legendre)
    least = n
    if nt == 'LEGENDRE':
        least = {'GAUSS': 2 * n, 'LOBATTO': 2 * n - 2}.get(qt, 2 * n - 1)
    p = C.order
    if nt == 'LEGENDRE':
        H.true('declared order', p == least)
    else:
        H.true('declared order', p >= least)
    x, w, Q = C.nodes, C.weights, C.Q
    N = max(p, n)
    c = [H.real(f'c{k}', lo=-1, hi=1) for k in range(N)]
    # weights: polynomials of degree < p
    H.eq('quadrature', sum(w[i] * polyval(c[:p], x[i]) for i in range(n)), polyint(c[:p], 0, 1), 1e-22, ctol=1e-11)
    # C(n)
    for i in range(n):
        H.eq(f'collocation {i}', sum(Q[i, j] * polyval(c[:n], x[j]) for j in range(n)), polyint(c[:n], 0, x[i]), 1e-22)
    # stability function: coefficients against 1/k!, as one form in arbitrary multipliers
    v = [1] * n
    tot, ref = 0, 0
    for k in range(1, p + 1):
        tot = tot + c[k - 1] * sum(w[i] * v[i] for i in range(n))
        ref = ref + c[k - 1] * H.frac(1, math.factorial(k))
        v = [sum(Q[i, j] * v[j] for j in range(n)) for i in range(n)]
    H.eq('stability function', tot, ref, 1e-22, ctol=1e-11)
