"""C19: algebraic QDelta are the named parts or factors of Q."""

BOUNDS = ("any real Q of size 1..3 (quick) / 1..4 (thorough) with nonzero leading minors for the factorizations, or with a zero first row; "
          "any real Q of size 5..16 (quick) / 5..24 (thorough) for PIC, Exact, QPar and GS, and G + s u v^T of size 4..9 (quick) / 4..12 (thorough) for any s and fixed G, u, v for the factorizations; "
          "Q of every collocation method with up to 6 (quick) / 12 (thorough) nodes; names and aliases; generator object and generic function")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)"]

NAMES = {'PIC': ['PIC', 'Picard'], 'Exact': ['Exact', 'EXACT'], 'LU': ['LU'], 'LU2': ['LU2'], 'QPar': ['QPar', 'Qpar', 'Qdiag'],
         'GS': ['GS', 'GaussSeidel'], 'LDU': ['LDU']}
TYPES = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']


def cases(tier):
    th = tier != 'quick'
    b = 900 if th else 60
    out = []
    for n in NAMES:
        for M in (1, 2, 3, 4) if th else (1, 2, 3):
            out.append(dict(name=f"{n}-M{M}", fn='parts', params=dict(name=n, M=M), budget=b))
            if M > 1 and n != 'LDU':
                out.append(dict(name=f"{n}-zerorow-M{M}", fn='parts', params=dict(name=n, M=M, zero=True), budget=b))
        lu = n in ('LU', 'LU2', 'LDU')
        for M in ((4, 5, 7, 8, 10, 12) if lu else (5, 8, 10, 16, 24)) if th else ((4, 7, 9) if lu else (5, 10, 16)):
            out.append(dict(name=f"{n}-large-{M}", fn='large', params=dict(name=n, M=M), budget=b))
        out.append(dict(name=f"{n}-integers", fn='integers', params=dict(name=n), budget=b))
    for nt in TYPES:
        for qt in QUADS:
            for M in (2, 3, 4, 5, 6, 8, 12) if th else (3, 6):
                out.append(dict(name=f"collocation-{nt}-{qt}-{M}", fn='collocation', params=dict(nt=nt, qt=qt, M=M), mode='approx', budget=b))
    return out


def lower_factor(Q, M, i, j, zero=False):
    """Entry i, j (j <= i) of U^T for Q^T = L U with unit lower triangular L."""
    if zero:
        if j == 0:
            return Q[i][0]
        return lower_factor([r[1:] for r in Q[1:]], M - 1, i - 1, j - 1)
    num = det([[Q[r][c] for c in range(j + 1)] for r in list(range(j)) + [i]])
    return num / det([[Q[r][c] for c in range(j)] for r in range(j)])


def closed(name, Q, M, zero=False):
    Z = [[0] * M for _ in range(M)]
    if name == 'PIC':
        return Z
    if name == 'Exact':
        return Q
    for i in range(M):
        for j in range(i + 1):
            if name in ('LU', 'LU2'):
                Z[i][j] = lower_factor(Q, M, i, j, zero) * (2 if name == 'LU2' else 1)
            elif name == 'GS' or i == j and name == 'QPar':
                Z[i][j] = Q[i][j]
            elif i == j and name == 'LDU':
                Z[i][j] = lower_factor(Q, M, i, i)
    return Z


def parts(q, H, name, M, zero=False):
    Q = [[0 if zero and i == 0 else H.real(f'q{i}{j}', nz=(i == j == 0)) for j in range(M)] for i in range(M)]
    if name in ('LU', 'LU2', 'LDU'):
        R = [r[1:] for r in Q[1:]] if zero else Q
        for k in range(1, len(R) + 1 if name == 'LDU' else len(R)):
            H.assume(det([r[:k] for r in R[:k]]) != 0)
    alias = H.choice('alias', NAMES[name])
    how = H.choice('calling', ('object', 'position', 'generic', 'generator'))
    A = H.arr(Q) if how != 'generator' else H.arr([[Q[j][i] for j in range(M)] for i in range(M)]).T
    if how == 'generic':
        D, dt = q.qdelta.genQDeltaCoeffs(alias, Q=A, dTau=True)
        S = q.qdelta.genQDeltaCoeffs(alias, Q=A, form='N2N')
    else:
        cls = q.qdelta.QDELTA_GENERATORS[alias]
        if how == 'generator':
            class Gen(q.qcoeff.QGenerator):
                Q = A
                nodes = weights = order = None
            g = cls(qGen=Gen())
        else:
            g = cls(Q=A) if how == 'object' else cls(A)
        D, dt, S = g.getQDelta(), g.dTau, g.getSDelta()
        H.same('size', g.size, M)
        H.eq('Q of the generator', g.Q, H.arr(Q))
    E = closed(name, Q, M, zero)
    H.same('shape', tuple(D.shape), (M, M))
    H.eq('matrix', D, H.arr(E))
    H.eq('delta_tau', dt, [0] * M)
    for i in range(M):
        for j in range(M):
            H.eq(f'node to node {i},{j}', S[i, j], E[i][j] - (E[i - 1][j] if i > 0 else 0))
    H.eq('Q unchanged', A, H.arr(Q))


def perturbed(H, M):
    """G + s u v^T with any s."""
    s = H.real('s', lo=-2, hi=2)
    return [[H.frac(1 + (7 * i * i + 3 * j + 5 * i * j) % 11, 8) + (2 if i == j else 0) + s * H.frac((i + 1) * (j + 2), 16) for j in range(M)] for i in range(M)]


def large(q, H, name, M):
    """Larger matrices against elimination."""
    lu = name in ('LU', 'LU2', 'LDU')
    Q = perturbed(H, M) if lu else [[H.real(f'q{i}_{j}') for j in range(M)] for i in range(M)]
    zero = lu and name != 'LDU' and H.choice('zero row', (False, True))
    if zero:
        Q = [[0] * M] + Q[1:]
    if lu:
        T = [[Q[j][i] for j in range(M)] for i in range(M)]
        for k in range(1 if zero else 0, M):
            if k < M - 1 or name == 'LDU':
                H.assume(T[k][k] != 0)
            for r in range(k + 1, M):
                f = T[r][k] / T[k][k]
                T[r] = [a - f * b for a, b in zip(T[r], T[k])]
        E = [[T[j][i] * (2 if name == 'LU2' else 1) if j == i or j < i and name != 'LDU' else 0 for j in range(M)] for i in range(M)]
    else:
        E = [[Q[i][j] if name == 'Exact' or name == 'GS' and j <= i or name == 'QPar' and i == j else 0 for j in range(M)] for i in range(M)]
    A = H.arr(Q)
    how = H.choice('calling', ('object', 'generic'))
    if how == 'generic':
        D, dt = q.qdelta.genQDeltaCoeffs(name, Q=A, dTau=True)
        S = q.qdelta.genQDeltaCoeffs(name, Q=A, form='N2N')
    else:
        g = q.qdelta.QDELTA_GENERATORS[name](Q=A)
        D, dt, S = g.getQDelta(), g.dTau, g.getSDelta()
    H.same('shape', tuple(D.shape), (M, M))
    H.eq('matrix', D, H.arr(E))
    H.eq('delta_tau', dt, [0] * M)
    H.eq('node to node', S, H.arr([[E[i][j] - (E[i - 1][j] if i > 0 else 0) for j in range(M)] for i in range(M)]))
    H.eq('Q unchanged', A, H.arr(Q))


def integers(q, H, name):
    """Q given with integer entries, or as nested lists."""
    Q = [[2, 1], [3, H.choice('entry', (4, -1))]]
    x = H.real('x')
    cls = q.qdelta.QDELTA_GENERATORS[name]
    H.eq('matrix', x * cls(Q=Q).getQDelta(), x * cls(Q=H.arr(Q)).getQDelta())
    H.eq('closed form', x * cls(Q=H.np.array(Q)).getQDelta(), x * H.arr(closed(name, [[H.frac(a) for a in r] for r in Q], 2)))


def collocation(q, H, nt, qt, M):
    """All approximations of collocation matrices, applied to any vector."""
    C = q.coll.Collocation(M, nt, qt)
    Q = tolist(C.Q)
    v = [H.real(f'v{i}', lo=-1, hi=1) for i in range(M)]
    zero = qt in ('LOBATTO', 'RADAU-LEFT')
    gen = lambda n: q.qdelta.genQDeltaCoeffs(n, qGen=C)
    mul = lambda A: [sum(A[i, j] * v[j] for j in range(M)) for i in range(M)]
    T = [[Q[j][i] for j in range(M)] for i in range(M)]     # elimination of Q^T
    for k in range(1 if zero else 0, M - 1):
        for r in range(k + 1, M):
            f = T[r][k] / T[k][k]
            T[r] = [a - f * b for a, b in zip(T[r], T[k])]
    U = [[T[j][i] if j <= i else 0 for j in range(M)] for i in range(M)]
    H.eq('LU', mul(gen('LU')), matvec(U, v), 1e-20)
    H.eq('LU2', mul(gen('LU2')), [2 * a for a in matvec(U, v)], 1e-20)
    H.eq('GS', mul(gen('GS')), [sum(Q[i][j] * v[j] for j in range(i + 1)) for i in range(M)])
    H.eq('QPar', mul(gen('QPar')), [Q[i][i] * v[i] for i in range(M)])
    H.eq('Exact', mul(gen('Exact')), matvec(Q, v))
    H.eq('PIC', mul(gen('PIC')), [0] * M)
    if not zero:
        H.eq('LDU', mul(gen('LDU')), [U[i][i] * v[i] for i in range(M)], 1e-20)
