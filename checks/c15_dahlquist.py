"""C15: the Dahlquist solver performs the Runge-Kutta step exactly, and its error function measures the error."""

BOUNDS = ("any real table with 1..2 stages (quick) / 3 (thorough), any real lambda, initial value and final time, 1..3 steps; all registered tables (padded or not, embedded or not) and collocation with 2..10 nodes: up to 30 (100) steps for three lambda and any complex initial value; complex, real and integer lambda and "
          "initial value in all combinations with 1 stage (quick) / 2 (thorough) and with registered tables; exp is an uninterpreted multiplicative function")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "I - lambda dt Q is regular", "numpy.linalg.solve solves the linear system (library contract)"]


def cases(tier):
    th = tier != 'quick'
    out = []
    for s in (1, 2, 3) if th else (1, 2):
        for N in (1, 2, 3) if s == 1 else (1, 2):
            out.append(dict(name=f"s{s}-N{N}", fn='solve', params=dict(s=s, N=N), budget=900 if th else 60))
            if s < 3:
                for kind in ('cc', 'cr', 'rc', 'ci', 'ii', 'ri', 'ir'):
                    out.append(dict(name=f"{kind}-s{s}-N{N}", fn='solvec', params=dict(s=s, N=N, kind=kind), budget=900 if th else 60))
    out.append(dict(name="explicit-s3", fn='solve', params=dict(s=3, N=2, explicit=True), budget=60))
    for n in ('RK4', 'HEUN2', 'CashKarp', 'SDIRK2', 'GAUSS_LG', 'ESDIRK43') if not th else \
            ('RK4', 'HEUN2', 'CashKarp', 'SDIRK2', 'SDIRK3', 'GAUSS_LG', 'ESDIRK43', 'ESDIRK53', 'EDIRK43', 'ARK548L2SAERK'):
        out.append(dict(name=f"registered-{n}", fn='registered', params=dict(name=n), mode='approx', budget=900 if th else 60))
    for N in (5, 12, 30) if not th else (4, 5, 6, 7, 8, 9, 10, 12, 20, 40, 100):
        for what in ('explicit', 'implicit', 'collocation'):
            out.append(dict(name=f"long-{what}-N{N}", fn='long', params=dict(what=what, N=N), mode='approx', budget=900 if th else 60))
        out.append(dict(name=f"error-long-N{N}", fn='errorlong', params=dict(N=N), budget=60))
    for N in (1, 2, 3):
        out.append(dict(name=f"error-N{N}", fn='error', params=dict(N=N), budget=60))
        if N < 3 or th:
            out.append(dict(name=f"error-own-N{N}", fn='errorown', params=dict(N=N), budget=900 if th else 60))
    return out


def make(q, H, s, explicit=False):
    A = [[H.real(f'A{i}{j}') if j < i or not explicit else 0 for j in range(s)] for i in range(s)]
    b, c, b2 = H.reals('b', s), H.reals('c', s), H.reals('e', s)
    AA, bb, cc, ee = A, b, c, b2

    class Mine(q.butcher.RK):
        A = AA
        b = bb
        c = cc
        b2 = ee

        @property
        def order(self):
            return 1
    q.butcher.registerRK(Mine)
    return Mine(), A, b, b2


def check_steps(H, u, z, A, w, N, s):
    """det(I - zA) (u_{n+1} - u_n) = z w adj(I - zA) 1 u_n"""
    K = [[(1 if i == j else 0) - z * A[i][j] for j in range(s)] for i in range(s)]
    d = det(K)
    H.assume(d != 0)
    num = 0
    for i in range(s):
        Ki = [[1 if j == i else K[r][j] for j in range(s)] for r in range(s)]
        num = num + w[i] * det(Ki)
    for n in range(N):
        H.eq(f'step {n}', u[n + 1] * d, u[n] * d + z * num * u[n])


def solve(q, H, s, N, explicit=False):
    g, A, b, b2 = make(q, H, s, explicit)
    lam, u0, T = H.real('lam'), H.real('u0'), H.real('T')
    emb = H.choice('embedded', (False, True, None))
    z = lam * T / N
    K = [[(1 if i == j else 0) - z * A[i][j] for j in range(s)] for i in range(s)]
    H.assume(det(K) != 0)
    u = g.solveDahlquist(lam, u0, T, N) if emb is None else g.solveDahlquist(lam, u0, T, N, useEmbeddedWeights=emb)
    H.same('shape', u.shape, (N + 1,))
    H.eq('initial value', u[0], u0)
    check_steps(H, u, z, A, b2 if emb else b, N, s)


def number(H, name, kind):
    """A complex, real or integer input."""
    if kind == 'c':
        return H.real(name + 'r') + 1j * H.real(name + 'i')
    return H.choice(name, (1, -2)) if kind == 'i' else H.real(name)


def solvec(q, H, s, N, kind):
    """Complex, real and integer lambda and initial value, in all combinations."""
    g, A, b, b2 = make(q, H, s)
    lam, u0 = number(H, 'l', kind[0]), number(H, 'u', kind[1])
    T = H.real('T')
    H.assume(T > 0)
    z = lam * T / N
    K = [[(1 if i == j else 0) - z * A[i][j] for j in range(s)] for i in range(s)]
    H.assume(det(K) != 0)
    u = g.solveDahlquist(lam, u0, T, N)
    H.eq('initial value', u[0], u0)
    check_steps(H, u, z, A, b, N, s)


def registered(q, H, name):
    """Registered tables, symbolic z in a small box (I - zQ regular there)."""
    g = q.butcher.RK_SCHEMES[name]()
    s = g.nNodes
    lam, T = H.real('lam', lo=H.frac(-1, 16), hi=H.frac(1, 16)), H.real('T', lo=H.frac(1, 2), hi=1)
    u0 = H.real('u0', lo=-1, hi=1)
    u = g.solveDahlquist(lam, u0, T, 1)
    z = lam * T
    A = tolist(g.Q)
    K = [[(1 if i == j else 0) - z * A[i][j] for j in range(s)] for i in range(s)]
    # stages by forward substitution where possible, else Cramer
    low = all(bool(A[i][j] == 0) for i in range(s) for j in range(i + 1, s))
    if low:
        U = []
        for i in range(s):
            U.append((u0 + z * sum(A[i][j] * U[j] for j in range(i))) / K[i][i])
    else:
        d = det(K)
        U = [u0 * det([[1 if j == i else K[r][j] for j in range(s)] for r in range(s)]) / d for i in range(s)]
    H.eq('step', u[1], u0 + z * sum(g.weights[i] * U[i] for i in range(s)), 1e-15)


def long(q, H, what, N):
    """Many steps, all tables with and without padding, collocation of up to 10 nodes; any initial value."""
    if what == 'collocation':
        n = H.choice('nodes', (2, 3, 5, 8, 10))
        g = q.coll.Collocation(n, 'LEGENDRE', H.choice('quad', ('GAUSS', 'RADAU-RIGHT', 'LOBATTO')))
        emb = False
    else:
        names = sorted(m for m, c in q.butcher.RK_SCHEMES.items() if m == c.__name__)
        tables = [q.butcher.RK_SCHEMES[m]() for m in names]
        low = lambda A: all(bool(A[i, j] == 0) for i in range(A.shape[0]) for j in range(i, A.shape[0]))
        names = [m for m, t in zip(names, tables) if low(t.A) == (what == 'explicit')]
        name = H.choice('name', names)
        g = q.butcher.RK_SCHEMES[name](H.choice('padding', (None, 'BOTH') if N < 20 else (None,)))
        emb = g.b2 is not None and H.choice('embedded', (False, True) if N < 20 else (False,))
    lam = H.choice('lambda', (H.frac(-3, 4), 0 + 0j, H.frac(-1, 2) + 2j) if N < 20 else (H.frac(-1, 2) + 2j,))
    T = H.frac(3, 2)
    u0 = H.real('ur', lo=-1, hi=1) + 1j * H.real('ui', lo=-1, hi=1)
    u = g.solveDahlquist(lam, u0, T, N, useEmbeddedWeights=emb)
    H.same('shape', tuple(u.shape), (N + 1,))
    A, w, z = tolist(g.Q), g.weightsEmbedded if emb else g.weights, lam * T / N
    s = len(A)
    K = [[(1 if i == j else 0) - z * A[i][j] for j in range(s)] for i in range(s)]
    x = eliminate(K, [1] * s)
    R = 1 + z * sum(w[i] * x[i] for i in range(s))
    H.eq('initial value', u[0], u0)
    H.eq('all steps', u[1:], [R * u[n] for n in range(N)], 1e-15)


def eliminate(K, b):
    """Solution of K x = b, pivots nonzero."""
    n = len(b)
    K, b = [list(r) for r in K], list(b)
    for i in range(n):
        p = next(r for r in range(i, n) if not bool(K[r][i] == 0))
        K[i], K[p], b[i], b[p] = K[p], K[i], b[p], b[i]
        for r in range(n):
            if r != i:
                f = K[r][i] / K[i][i]
                K[r] = [x - f * y for x, y in zip(K[r], K[i])]
                b[r] = b[r] - f * b[i]
    return [b[i] / K[i][i] for i in range(n)]


def errorlong(q, H, N):
    """The largest error may be at any step."""
    g = q.butcher.RK_SCHEMES['BE']()
    i = H.choice('step', sorted({0, 1, 2, N // 3, N // 2, N - 1, N}))
    u0, d = H.frac(5, 8), H.real('d', lo=1, hi=2)
    sign = H.choice('sign', (1, -1))
    u = [u0 + H.frac((7 * j) % 11 - 5, 16) for j in range(N + 1)]
    u[i] = u0 + sign * d
    H.eq('error', g.errorDahlquist(0, u0, H.choice('T', (1, 3)), N, uNum=H.arr(u)), d)


def error(q, H, N):
    """Error of a given solution."""
    g = q.butcher.RK_SCHEMES['BE']()
    lam, u0, T = H.real('lam', lo=-2, hi=2), H.real('u0', lo=-4, hi=4), H.real('T', lo=H.frac(1, 4), hi=2)
    u = [H.real(f'v{i}', lo=-4, hi=4) for i in range(N + 1)]
    e = g.errorDahlquist(lam, u0, T, N, uNum=H.arr(u))
    ex = [u0 * H.np.exp(lam * T * H.frac(i, N)) for i in range(N + 1)]
    maximum(H, 'error', e, [(u[i] - ex[i], 0) for i in range(N + 1)])


def errorown(q, H, N):
    """Error of its own solution, main and embedded weights."""
    g, A, b, b2 = make(q, H, 1, explicit=True)
    lam, u0, T = H.real('lam', lo=-2, hi=2), H.real('u0', lo=-4, hi=4), H.real('T', lo=H.frac(1, 4), hi=2)
    emb = H.choice('embedded', (False, True))
    e = g.errorDahlquist(lam, u0, T, N, useEmbeddedWeights=emb)
    R = 1 + lam * T / N * (b2[0] if emb else b[0])
    xs, u = [], u0
    for i in range(N + 1):
        xs.append((u - u0 * H.np.exp(lam * T * H.frac(i, N)), 0))
        u = u * R
    maximum(H, 'error', e, xs)
