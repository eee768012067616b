"""C20: LDU factorization reproduces A, and the LU trick makes the stiff sweep nilpotent."""

BOUNDS = ("any real A of size 1..3 (quick) / 1..4 (thorough) with nonzero leading minors; A lower or upper triangular or symmetric of size 4; G + s u v^T of size 4..10 (quick) / 4..12 (thorough) for any s and fixed G, u, v; "
          "nilpotency for any such Q of size 1..3 and any spectral parameter, and for the Q of every collocation method with 2..6 (quick) / 2..10 (thorough) nodes "
          "applied to any vector in [-1,1]^M")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)"]

TYPES = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']


def cases(tier):
    th = tier != 'quick'
    b = 900 if th else 60
    out = []
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        out.append(dict(name=f"ldu-{n}", fn='ldu', params=dict(n=n), budget=b))
    for s in ('lower', 'upper', 'symmetric'):
        for n in (2, 4):
            if n < 4 or s != 'symmetric' or th:
                out.append(dict(name=f"ldu-{s}-{n}", fn='ldu', params=dict(n=n, shape=s), budget=b))
    for n in range(4, 13) if th else (4, 5, 7, 10):
        out.append(dict(name=f"ldu-large-{n}", fn='large', params=dict(n=n), budget=b))
    out.append(dict(name="nonsquare", fn='nonsquare', params=dict(), budget=b))
    out.append(dict(name="integers", fn='integers', params=dict(), budget=b))
    for M in (1, 2, 3):
        out.append(dict(name=f"nilpotent-{M}", fn='nilpotent', params=dict(M=M), budget=b))
    for nt in TYPES:
        for qt in QUADS:
            for M in range(2, 11 if th else 7):
                out.append(dict(name=f"collocation-{nt}-{qt}-{M}", fn='collocation', params=dict(nt=nt, qt=qt, M=M), mode='approx', budget=b))
    return out


def ldu(q, H, n, shape='full'):
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if shape == 'lower' and j > i or shape == 'upper' and j < i:
                continue
            A[i][j] = A[j][i] if shape == 'symmetric' and j < i else H.real(f'a{i}{j}', nz=(i == j == 0))
    for k in range(1, n + 1):
        H.assume(det([r[:k] for r in A[:k]]) != 0)
    M = H.arr(A)
    L, D, U = q.num.lduFactorization(M)
    for i in range(n):
        for j in range(n):
            if j >= i:
                H.eq(f'L {i},{j}', L[i, j], 1 if i == j else 0)
            if j <= i:
                H.eq(f'U {i},{j}', U[i, j], 1 if i == j else 0)
            if i != j:
                H.eq(f'D {i},{j}', D[i, j], 0)
            H.eq(f'LDU {i},{j}', sum(L[i, k] * D[k, k] * U[k, j] for k in range(n)), A[i][j])
    H.eq('A unchanged', M, H.arr(A))


def perturbed(H, M):
    """G + s u v^T with any s."""
    s = H.real('s', lo=-2, hi=2)
    return [[H.frac(1 + (7 * i * i + 3 * j + 5 * i * j) % 11, 8) + (2 if i == j else 0) + s * H.frac((i + 1) * (j + 2), 16) for j in range(M)] for i in range(M)]


def large(q, H, n):
    """Larger matrices: the factors, and sweeps with the LU approximation."""
    A = perturbed(H, n)
    T = [list(r) for r in A]
    for k in range(n):
        H.assume(T[k][k] != 0)
        for r in range(k + 1, n):
            f = T[r][k] / T[k][k]
            T[r] = [a - f * b for a, b in zip(T[r], T[k])]
    L, D, U = q.num.lduFactorization(H.arr(A))
    P = [[sum(L[i, k] * D[k, k] * U[k, j] for k in range(n)) for j in range(n)] for i in range(n)]
    H.eq('LDU', H.arr(P), A)
    H.eq('L', L - H.np.tril(L, -1), H.np.eye(n))
    H.eq('U', U - H.np.triu(U, 1), H.np.eye(n))
    H.eq('D', D, [[T[i][i] if i == j else 0 for j in range(n)] for i in range(n)])
    QD = tolist(q.qdelta.genQDeltaCoeffs('LU', Q=H.arr(A)))
    v = [H.frac((3 * i) % 5 - 2, 4) for i in range(n)]
    for k in range(n):
        v = [a - b for a, b in zip(v, lowsolve(QD, matvec(A, v)))]
    H.eq('nilpotent', v, [0] * n)


def integers(q, H):
    """A given with integer entries."""
    A = [[2, 1, 1], [1, H.choice('entry', (3, -2)), 0], [1, 5, 4]]
    x = H.real('x')
    L, D, U = q.num.lduFactorization(H.np.array(A))
    P = L @ D @ U
    H.eq('LDU', x * P, x * H.arr(A))


def nonsquare(q, H):
    n, m = H.int('n', 1, 3), H.int('m', 1, 3)
    A = H.np.ones((n, m))
    if n != m:
        H.raises('non square', lambda: q.num.lduFactorization(A), AssertionError)
    else:
        H.same('square', len(q.num.lduFactorization(H.np.eye(n))), 3)


def nilpotent(q, H, M):
    Q = [[H.real(f'q{i}{j}', nz=(i == j == 0)) for j in range(M)] for i in range(M)]
    for k in range(1, M + 1):
        H.assume(det([r[:k] for r in Q[:k]]) != 0)
    D = tolist(q.qdelta.genQDeltaCoeffs('LU', Q=H.arr(Q)))
    lam = H.real('mu')
    d = det(D)
    H.true('regular', d != 0)
    H.eq('characteristic polynomial', det([[lam * D[i][j] - D[i][j] + Q[i][j] for j in range(M)] for i in range(M)]), lam ** M * d)


def lowsolve(D, b):
    x = []
    for i in range(len(b)):
        x.append((b[i] - sum(D[i][j] * x[j] for j in range(i))) / D[i][i])
    return x


def collocation(q, H, nt, qt, M):
    C = q.coll.Collocation(M, nt, qt)
    v = [H.real(f'v{i}', lo=-1, hi=1) for i in range(M)]
    Q, D = tolist(C.Q), tolist(q.qdelta.genQDeltaCoeffs('LU', qGen=C))
    if qt in ('LOBATTO', 'RADAU-LEFT'):
        H.eq('first row', D[0], [0] * M)
        Q, D, v = [r[1:] for r in Q[1:]], [r[1:] for r in D[1:]], v[1:]
    for k in range(len(v)):
        y = lowsolve(D, matvec(Q, v))
        v = [a - b for a, b in zip(v, y)]
    H.eq('nilpotent', v, [0] * len(v), 1e-18)
