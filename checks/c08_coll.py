"""C08: collocation coefficients on any interval [tLeft, tRight]."""

BOUNDS = ("all node and quadrature types, 1..8 nodes (quick) / 1..12 (thorough); any real tLeft and tRight > tLeft (EQUID), "
          "tLeft in [-4,4] and length in [1/8,4] (other node types, results within 1e-20); 10, 14 nodes (quick) / 10, 13, 16, 20, 24 (thorough) on three intervals and any polynomial with coefficients in [-1,1]; 3 nodes on intervals far from zero, large, tiny, or with integer bounds")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "eigenvalues of the tridiagonal matrix handed to scipy at 220 bits (library contract)"]

TYPES = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']


def cases(tier):
    th = tier != 'quick'
    out = []
    for nt in TYPES:
        for qt in QUADS:
            for n in range(2 if qt in ('LOBATTO', 'RADAU-LEFT') else 1, 13 if th else 9):
                out.append(dict(name=f"{nt}-{qt}-{n}", fn='coll', params=dict(nt=nt, qt=qt, n=n),
                                mode='exact' if nt == 'EQUID' else 'approx', budget=900 if th else 60))
    for nt in TYPES:
        for qt in QUADS:
            for n in (10, 13, 16, 20, 24) if th else (10, 14):
                out.append(dict(name=f"{nt}-{qt}-{n}-fixed", fn='fixed', params=dict(nt=nt, qt=qt, n=n), mode='approx', budget=900 if th else 60))
    out += [dict(name=f"{nt}-{qt}-far", fn='far', params=dict(nt=nt, qt=qt), mode='approx', budget=60) for nt in TYPES for qt in QUADS]
    out.append(dict(name='defaults', fn='defaults', mode='approx'))
    return out


def coll(q, H, nt, qt, n):
    tol = None if nt == 'EQUID' else 1e-20
    if nt == 'EQUID':
        a, h = H.real('tLeft'), H.real('length', lo=0, open_=True)
    else:
        a, h = H.real('tLeft', lo=-4, hi=4), H.real('length', lo=H.frac(1, 8), hi=4)
    b = a + h
    left, right = qt in ('RADAU-LEFT', 'LOBATTO'), qt in ('RADAU-RIGHT', 'LOBATTO')
    C = q.coll.Collocation(n, nt, qt, tLeft=a, tRight=b)
    xi = q.nodes.NodesGenerator(nt, qt).getNodes(n)
    x = [C.nodes[i] for i in range(n)]
    H.same('sizes', (C.nNodes, C.nodes.shape, C.weights.shape, C.Q.shape, C.S.shape, C.hCoeffs.shape),
           (n, (n,), (n,), (n, n), (n, n), (n,)))
    H.eq('nodes', x, [a + (xi[i] + 1) / 2 * h for i in range(n)], tol)
    if left:
        H.true('first node is tLeft', x[0] == a)
    if right:
        H.true('last node is tRight', x[n - 1] == b)
    H.same('rightIsNode', bool(C.rightIsNode), right)
    # reference: cardinal polynomials of the reference nodes on [0,1]
    u = [(xi[i] + 1) / 2 for i in range(n)]
    L = [cardinal_coeffs(u, j) for j in range(n)]
    H.eq('Q', C.Q, [[h * polyint(L[j], 0, u[i]) for j in range(n)] for i in range(n)], tol)
    H.eq('weights', C.weights, [h * polyint(L[j], 0, 1) for j in range(n)], tol)
    H.eq('S', C.S, [[h * polyint(L[j], 0 if i == 0 else u[i - 1], u[i]) for j in range(n)] for i in range(n)], tol)
    H.eq('h', C.hCoeffs, [polyval(L[j], 1) for j in range(n)], tol)


def fixed(q, H, nt, qt, n):
    """More nodes, three intervals, any polynomial."""
    a, b = H.choice('interval', ((H.frac(-1, 3), H.frac(7, 5)), (H.frac(2), H.frac(9, 4)), (H.frac(-4), H.frac(-1))))
    h = b - a
    C = q.coll.Collocation(n, nt, qt, tLeft=a, tRight=b)
    xi = q.nodes.NodesGenerator(nt, qt).getNodes(n)
    u = [(xi[i] + 1) / 2 for i in range(n)]
    left, right = qt in ('RADAU-LEFT', 'LOBATTO'), qt in ('RADAU-RIGHT', 'LOBATTO')
    H.eq('nodes', C.nodes, [a + v * h for v in u], 1e-20)
    if left:
        H.true('first node is tLeft', C.nodes[0] == a)
    if right:
        H.true('last node is tRight', C.nodes[n - 1] == b)
    H.same('rightIsNode', bool(C.rightIsNode), right)
    c = H.reals('c', n, lo=-1, hi=1)
    f = [polyval(c, v) for v in u]
    I = [polyint(c, 0, v) for v in u]
    Q, S, w, k = C.Q, C.S, C.weights, C.hCoeffs
    H.eq('weights', sum(w[j] * f[j] for j in range(n)), h * polyint(c, 0, 1), 1e-20, ctol=1e-5)
    H.eq('h', sum(k[j] * f[j] for j in range(n)), polyval(c, 1), 1e-20, ctol=1e-5)
    for i in range(n):
        H.eq(f'Q {i}', sum(Q[i, j] * f[j] for j in range(n)), h * I[i], 1e-20, ctol=1e-5)
        H.eq(f'S {i}', sum(S[i, j] * f[j] for j in range(n)), h * (I[i] - (I[i - 1] if i else 0)), 1e-20, ctol=1e-5)


def far(q, H, nt, qt):
    """Intervals far from zero, large, small, or given by integers."""
    n = 3
    k = H.choice('interval', range(5))
    z = H.real('z', lo=H.frac(1, 8), hi=H.frac(1, 4))
    a, b = [(H.frac(123456789, 1000) + z, H.frac(123457789, 1000) + z), (H.frac(-987654321, 10000), H.frac(-987654, 10) + 7 * z),
            (H.frac(123456789, 10 ** 9), H.frac(12345678, 7) + z), (H.frac(1, 3 * 10 ** 7), H.frac(1, 10 ** 7) * (1 + z)), (3, 10)][k]
    h = b - a
    C = q.coll.Collocation(n, nt, qt, tLeft=a, tRight=b)
    xi = q.nodes.NodesGenerator(nt, qt).getNodes(n)
    u = [(xi[i] + 1) / 2 for i in range(n)]
    L = [cardinal_coeffs(u, j) for j in range(n)]
    H.eq('nodes', [(x - a) / h for x in C.nodes], u, 1e-20, ctol=1e-9)
    H.eq('weights', [w / h for w in C.weights], [polyint(L[j], 0, 1) for j in range(n)], 1e-20, ctol=1e-7)
    H.eq('Q', [[C.Q[i, j] / h for j in range(n)] for i in range(n)], [[polyint(L[j], 0, u[i]) for j in range(n)] for i in range(n)], 1e-20, ctol=1e-7)
    H.eq('S', [[C.S[i, j] / h for j in range(n)] for i in range(n)], [[polyint(L[j], 0 if i == 0 else u[i - 1], u[i]) for j in range(n)] for i in range(n)], 1e-20, ctol=1e-7)
    H.eq('h', C.hCoeffs, [polyval(L[j], 1) for j in range(n)], 1e-20, ctol=1e-7)
    if qt in ('RADAU-LEFT', 'LOBATTO'):
        H.true('first node is tLeft', C.nodes[0] == a)
    if qt in ('RADAU-RIGHT', 'LOBATTO'):
        H.true('last node is tRight', C.nodes[n - 1] == b)
    H.same('rightIsNode', bool(C.rightIsNode), qt in ('RADAU-RIGHT', 'LOBATTO'))


def defaults(q, H):
    """Default interval, getInstance, attributes."""
    nt = H.choice('nodeType', TYPES)
    qt = H.choice('quadType', QUADS)
    A, B = q.coll.Collocation(3, nt, qt), q.coll.Collocation(nNodes=3, nodeType=nt, quadType=qt, tLeft=0, tRight=1)
    for k in ('nodes', 'weights', 'Q', 'S', 'hCoeffs'):
        H.eq(k, getattr(A, k), getattr(B, k))
    H.same('attributes', (A.nodeType, A.quadType, A.tLeft, A.tRight), (nt, qt, 0, 1))
    D = q.coll.Collocation.getInstance()
    E = q.coll.Collocation(**q.coll.Collocation.DEFAULT_PARAMS)
    H.eq('getInstance', D.Q, E.Q)
