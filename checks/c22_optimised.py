"""C22: optimised and tabulated diagonal QDelta solve the problem they are named after."""

TYPES = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']
# bounds of the stiff spectral radius of the tabulated coefficients
RADIUS = {('MIN3', 'LEGENDRE', 'LOBATTO'): {9: .18, 7: .06, 5: .0065, 4: .0008, 3: .00005, 2: 1e-6},
          ('MIN3', 'LEGENDRE', 'RADAU-RIGHT'): {9: .12, 7: .062, 5: .0078, 4: .0098, 3: .00034, 2: .000045},
          ('MIN3', 'EQUID', 'RADAU-RIGHT'): {9: .252, 7: .131, 5: .0233, 4: .0068, 3: .00036, 2: .000036},
          ('MIN_VDHS', 'LEGENDRE', 'RADAU-RIGHT'): {3: .0058, 4: .03}}
NAMES = {'MIN3': ['MIN3', 'Magic_Numbers'], 'MIN_VDHS': ['MIN_VDHS', 'VDHS']}

BOUNDS = ("MIN-SR-S: all node and quadrature types, 2..4, 6, 9 nodes (quick) / 1..11 (thorough): returned coefficients solve det((1-z)I + z D^-1 Q) = 1 for every z in [0,1] "
          "within 1e-8, and the equations handed to the root finder are these for every candidate vector (RADAU-RIGHT and LOBATTO, 2..3 unknowns); "
          "MIN: any triangular Q of size 1..2 (quick) / 3 (thorough) and any minimiser; tables: every entry, every other combination up to 11 nodes, "
          "spectral radius through every vector of [-1,1]^M")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "scipy's fsolve returns a root, scipy's minimize a minimiser of the function given (library contract); "
               "numeric roots are those of the installed scipy"]


def cases(tier):
    th = tier != 'quick'
    b = 900 if th else 60
    out = []
    for nt in TYPES:
        for qt in QUADS:
            z = qt in ('LOBATTO', 'RADAU-LEFT')
            for M in range(2 if z else 1, 7) if th else (2, 3, 4):
                out.append(dict(name=f"root-{nt}-{qt}-{M}", fn='root', params=dict(nt=nt, qt=qt, M=M), mode='approx', budget=b))
            for M in (6, 9) if not th else (7, 8, 9, 10, 11):
                out.append(dict(name=f"large-{nt}-{qt}-{M}", fn='large', params=dict(nt=nt, qt=qt, M=M), mode='approx', budget=b))
        for qt, M in (('RADAU-RIGHT', 2), ('GAUSS', 2), ('LOBATTO', 3), ('RADAU-RIGHT', 3)) + ((('GAUSS', 3), ('RADAU-LEFT', 3), ('LOBATTO', 4)) if th else ()):
            out.append(dict(name=f"equations-{nt}-{qt}-{M}", fn='equations', params=dict(nt=nt, qt=qt, M=M), mode='approx', budget=b))
    for M in (1, 2, 3) if th else (1, 2):
        out.append(dict(name=f"MIN-{M}", fn='minimiser', params=dict(M=M), budget=b))
    for n in NAMES:
        for nt in TYPES:
            for qt in QUADS:
                out.append(dict(name=f"table-{n}-{nt}-{qt}", fn='table', params=dict(name=n, nt=nt, qt=qt), budget=b, mode='approx'))
    for (n, nt, qt), r in RADIUS.items():
        for M in r:
            out.append(dict(name=f"radius-{n}-{nt}-{qt}-{M}", fn='radius', params=dict(name=n, nt=nt, qt=qt, M=M), budget=b, mode='approx'))
    return out


def nilpotency(Q, d, z):
    n = len(d)
    return det([[(1 - z if i == j else 0) + z * Q[i][j] / d[i] for j in range(n)] for i in range(n)]) - 1


def reduced(C, qt):
    Q, x = tolist(C.Q), list(C.nodes)
    if qt in ('LOBATTO', 'RADAU-LEFT'):
        return [r[1:] for r in Q[1:]], x[1:]
    return Q, x


def root(q, H, nt, qt, M):
    """Coefficients actually returned."""
    C = q.coll.Collocation(M, nt, qt)
    cls = q.qdelta.QDELTA_GENERATORS[H.choice('name', ('MIN_SR_S', 'MIN-SR-S'))]
    H.hooks(minimize=lambda f, x0: H.arr([1, 1])) if M < 5 else None
    D = tolist(cls(M, nt, qt).getQDelta())
    z = H.real('z', lo=0, hi=1)
    Q, x = reduced(C, qt)
    o = M - len(x)
    d = [D[i][i] for i in range(M)]
    for i in range(M):
        for j in range(M):
            if i != j:
                H.eq(f'diagonal {i},{j}', D[i][j], 0)
    if o:
        H.eq('coefficient of the left boundary', d[0], 0)
    H.eq('nilpotency equation', nilpotency(Q, d[o:], z), 0, 1e-8, 1e-7)


def large(q, H, nt, qt, M):
    """As root; the polynomial in z by the Faddeev-LeVerrier recursion."""
    C = q.coll.Collocation(M, nt, qt)
    D = tolist(q.qdelta.genQDeltaCoeffs('MIN-SR-S', qGen=C))
    z = H.real('z', lo=0, hi=1)
    Q, x = reduced(C, qt)
    n = len(x)
    d = [D[i][i] for i in range(M)][M - n:]
    K = [[(1 if i == j else 0) - Q[i][j] / d[i] for j in range(n)] for i in range(n)]
    P, c, p = ident(n), 1, 1
    for k in range(1, n + 1):
        P = matmul(K, P)
        c = -sum(P[i][i] for i in range(n)) / k
        p = p + c * z**k
        P = [[P[i][j] + (c if i == j else 0) for j in range(n)] for i in range(n)]
    H.eq('nilpotency equation', p - 1, 0, 1e-8, 1e-7)


def equations(q, H, nt, qt, M):
    """Whatever root the root finder returns, it solves the equations and is what is returned."""
    C = q.coll.Collocation(M, nt, qt)
    Q, x = reduced(C, qt)
    o = M - len(x)
    got = []

    def hook(f, x0):
        n = x0.size
        r = H.reals(f'r{n}', n, lo=H.frac(1, 100), hi=1)
        got.append((n, r, list(f(H.arr(r)))))
        return H.arr(r)
    H.hooks(fsolve=hook, minimize=lambda f, x0: H.arr([1, 1]))
    D = q.diag.MIN_SR_S(M, nt, qt).getQDelta()
    if H.concrete:
        d = [D[i, i] for i in range(o, M)]
        for i, z in enumerate(x):
            H.eq(f'equation {i}', nilpotency(Q, d, z), 0)
        return
    n = M - o
    if n == 1:
        H.eq('single coefficient', D[o, o], Q[0][0])
        return
    for m, r, f in got:
        if m == n:
            H.same('number of equations', len(f), n)
            pr = 1
            for a in r:
                pr = pr * a
            for i, z in enumerate(x):
                H.eq(f'equation {i}', (f[i] - nilpotency(Q, r, z)) * pr, 0)
            for i in range(n):
                H.eq(f'coefficient {i}', D[i + o, i + o] - r[i], 0)


def minimiser(q, H, M):
    """MIN: for triangular Q the stiff spectral radius is max |1 - x_i q_ii|."""
    upper = H.choice('upper', (False, True))
    Q = [[H.real(f'q{i}{j}', lo=-1, hi=1) if (i == j or (j > i) == upper) else 0 for j in range(M)] for i in range(M)]
    y = H.reals('y', M, lo=-20, hi=20)
    if H.concrete:
        y = [1 / Q[i][i] if abs(Q[i][i]) > 0.05 else 10 for i in range(M)]

    def smaller(x):
        """max |1 - x_i q_ii| <= max |1 - y_j q_jj|"""
        c = None
        for j in range(M):
            d = None
            for i in range(M):
                a, b = 1 - x[i] * Q[i][i], 1 - y[j] * Q[j][j]
                e = a * a <= b * b + (0.1 if H.concrete else 0)
                d = e if d is None else d & e
            c = d if c is None else c | d
        return c

    def hook(f, x0):
        x = H.reals('x', M, lo=-100, hi=100, nz=True)
        H.assume(f(H.arr(x)) <= f(H.arr(y)))
        return H.arr(x)
    H.hooks(minimize=hook)
    D = q.qdelta.QDELTA_GENERATORS[('MIN', 'MIN-Speck')[upper]](Q=H.arr(Q)).getQDelta()
    for i in range(M):
        for j in range(M):
            if i != j:
                H.eq(f'diagonal {i},{j}', D[i, j], 0)
    H.true('inverse of a minimiser', smaller([1 / D[i, i] for i in range(M)]))


def table(q, H, name, nt, qt):
    """Lookup: the entry of exactly this node type, quadrature type and size, or a refusal."""
    T = getattr(q.mincoeffs, name)
    alias = NAMES[name]
    for M in range(2 if qt in ('LOBATTO', 'RADAU-LEFT') else 1, 12):
        v = [H.real(f'v{i}', lo=-1, hi=1) for i in range(M)]
        known = nt in T and qt in T[nt] and M in T[nt][qt]
        H.same(f'availability {M}', known, M in RADIUS.get((name, nt, qt), {}))
        for k, a in enumerate(alias):
            cls = q.qdelta.QDELTA_GENERATORS[a]
            g = cls(M, nt, qt) if k else cls(nNodes=M, nodeType=nt, quadType=qt)
            if not known:
                H.raises(f'unavailable {M}', g.getQDelta, NotImplementedError)
                continue
            D = g.getQDelta()
            H.same('shape', tuple(D.shape), (M, M))
            H.eq(f'{M} nodes', [sum(D[i, j] * v[j] for j in range(M)) for i in range(M)], [T[nt][qt][M][i] * v[i] for i in range(M)])
            H.same('size', g.size, M)
            H.same('k-dependent', bool(g.isKDependent()), False)


def radius(q, H, name, nt, qt, M):
    """Powers of the stiff iteration matrix scaled by the bound contract the whole cube."""
    C = q.coll.Collocation(M, nt, qt)
    D = q.qdelta.genQDeltaCoeffs(name, qGen=C)
    Q, x = reduced(C, qt)
    o = M - len(x)
    n = len(x)
    if o:
        H.eq('coefficient of the left boundary', D[0, 0], 0)
    R = H.val(RADIUS[name, nt, qt][M])
    E = H.arr([[((1 if i == j else 0) - Q[i][j] / D[i + o, i + o]) / R for j in range(n)] for i in range(n)])
    if H.concrete:      # powers of a nearly nilpotent matrix are dominated by rounding
        H.true('radius', max(abs(H.np.linalg.eigvals(E))) <= 1.1)
        return
    for _ in range(9):
        E = E @ E
    v = [H.real(f'v{i}', lo=-1, hi=1) for i in range(n)]
    for i in range(n):
        H.eq(f'row {i}', sum(E[i, j] * v[j] for j in range(n)), 0, 1, 1)
