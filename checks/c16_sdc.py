"""C16: SDC sweeps follow the documented iteration, and the monitors report it truthfully."""

BOUNDS = ("any real Q, QDelta (one or one per sweep), weights, lambda, initial value, final time; 1..2 nodes with 0..3 sweeps and 1..2 steps "
          "(quick; two sweeps and one step for 2 nodes with full QDelta), up to 3 nodes with lower triangular QDelta (thorough); complex, real and integer lambda and initial value in all combinations for 1..2 nodes; collocation matrices with up to 6 nodes, 9 sweeps of different QDelta and 17 steps (quick; 10 nodes, 20 sweeps, 30 steps thorough) for two lambda and any complex initial value; "
          "all monitor selections; exp is an uninterpreted multiplicative function")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "I - lambda dt QDelta is regular for every sweep",
               "numpy.linalg.solve solves the linear system (library contract)"]

MON = (None, ('residuals',), ('errors',), ('errors', 'residuals'), ['residuals', 'errors'])


def cases(tier):
    th = tier != 'quick'
    b = 900 if th else 60
    out = []
    inst = [(1, 0, 2, 'full'), (1, 1, 2, 'full'), (1, 2, 2, 'full'), (1, 3, 1, 'full'), (2, 1, 1, 'full'), (2, 1, 2, 'full'), (2, 2, 1, 'tri'), (2, 1, 2, 'tri'), (2, 2, 1, 'diag'),
            (2, 3, 1, 'strict'), (3, 2, 1, 'strict')]
    if th:
        inst += [(1, 3, 3, 'full'), (2, 2, 1, 'full'), (2, 2, 2, 'tri'), (3, 1, 1, 'tri'), (3, 1, 1, 'full'), (3, 2, 1, 'diag'), (3, 2, 2, 'strict'), (4, 2, 1, 'strict')]
    for M, K, N, shape in inst:
        for form in ('2D', '3D'):
            out.append(dict(name=f"M{M}-K{K}-N{N}-{shape}-{form}", fn='sweeps', params=dict(M=M, K=K, N=N, shape=shape, form=form), budget=b))
    for M, K, N in ((1, 2, 1), (1, 1, 2), (2, 1, 1)):
        for kind in ('cc', 'cr', 'rc', 'ci', 'ii', 'ri', 'ir'):
            out.append(dict(name=f"{kind}-M{M}-K{K}-N{N}", fn='cplx', params=dict(M=M, K=K, N=N, kind=kind), budget=b))
    for M, K, N in ((5, 4, 3), (3, 9, 2), (6, 2, 7), (2, 1, 17)) if not th else ((5, 4, 3), (3, 9, 2), (8, 2, 7), (4, 6, 6), (10, 5, 2), (2, 20, 2), (2, 1, 17), (2, 2, 30)):
        out.append(dict(name=f"long-M{M}-K{K}-N{N}", fn='long', params=dict(M=M, K=K, N=N), mode='approx', budget=max(b, 150)))
        out.append(dict(name=f"error-long-N{N + 6}", fn='errorlong', params=dict(N=N + 6), budget=b))
    out.append(dict(name="fixedpoint", fn='fixed', params=dict(), budget=b))
    out.append(dict(name="shapes", fn='shapes', params=dict(), budget=b))
    for N in (1, 2):
        out.append(dict(name=f"error-N{N}", fn='error', params=dict(N=N), budget=b))
        out.append(dict(name=f"error-own-N{N}", fn='errorown', params=dict(N=N), budget=b))
    return out


def matrix(H, name, M, shape='full'):
    keep = {'full': lambda i, j: True, 'tri': lambda i, j: j <= i, 'strict': lambda i, j: j < i, 'diag': lambda i, j: i == j}[shape]
    return [[H.real(f'{name}{i}{j}') if keep(i, j) else 0 for j in range(M)] for i in range(M)]


def iterate(H, z, Q, QD, u, M):
    """One sweep: (I - z QD) V = u + z (Q - QD) U, by Cramer's rule."""
    P = [[(1 if i == j else 0) - z * QD[i][j] for j in range(M)] for i in range(M)]
    d = det(P)

    def step(U):
        b = [u + z * sum((Q[i][j] - QD[i][j]) * U[j] for j in range(M)) for i in range(M)]
        return [det([[b[r] if j == i else P[r][j] for j in range(M)] for r in range(M)]) / d for i in range(M)]
    return step


def regular(H, z, QDs, M):
    for QD in QDs:
        d = det([[(1 if i == j else 0) - z * QD[i][j] for j in range(M)] for i in range(M)])
        H.assume(d != 0)


def history(H, lam, u0, T, N, Q, QDs, w, M):
    """All solutions and all sweep values U[n][k]."""
    z = lam * (T / N)
    us, Us = [u0], []
    for n in range(N):
        u = us[-1]
        U = [[u] * M]
        for QD in QDs:
            U.append(iterate(H, z, Q, QD, u, M)(U[-1]))
        Us.append(U)
        us.append(U[-1][-1] if w is None else u + z * sum(a * b for a, b in zip(w, U[-1])))
    return us, Us


def check_run(H, res, mon, us, Us, lam, u0, T, N, K, Q, M):
    if mon is None:
        u = res
    else:
        u, m = res
        H.same('monitors', sorted(m.keys()), sorted(mon))
        z = lam * (T / N)
        for key in mon:
            H.same(f'{key} shape', tuple(m[key].shape), (K + 1, N, M))
            for n in range(N):
                for k in range(K + 1):
                    U = Us[n][k]
                    for j in range(M):
                        if key == 'residuals':
                            e = us[n] + z * sum(Q[j][l] * U[l] for l in range(M)) - U[j]
                        else:
                            t = T * H.frac(n, N) + T / N * sum(Q[j])
                            e = U[j] - u0 * H.np.exp(lam * t)
                        H.eq(f'{key} sweep {k} step {n} node {j}', m[key][k, n, j], e)
    H.same('shape', tuple(u.shape), (N + 1,))
    for n in range(N + 1):
        H.eq(f'solution {n}', u[n], us[n])


def sweeps(q, H, M, K, N, shape, form):
    Q = matrix(H, 'Q', M)
    if form == '2D':
        QD = matrix(H, 'D', M, shape)
        QDs = [QD] * K
    else:
        QDs = [matrix(H, f'D{k}', M, shape) for k in range(K)]
    lam, u0, T = H.real('lam'), H.real('u0'), H.real('T')
    w = H.choice('weights', (False, True))
    mon = H.choice('monitors', MON)
    wl = H.reals('w', M) if w else None
    regular(H, lam * (T / N), QDs, M)
    arg = H.arr(QD) if form == '2D' else H.np.reshape(H.arr(QDs), (K, M, M))
    if H.choice('container', (False, True)) and K > 0:
        arg = QD if form == '2D' else QDs
    kw = {} if mon is None else {'monitors': mon}
    if w:
        kw['weights'] = H.arr(wl)
    res = q.sdc.solveDahlquistSDC(lam, u0, T, N, K, H.arr(Q), arg, **kw)
    us, Us = history(H, lam, u0, T, N, Q, QDs, wl, M)
    check_run(H, res, mon, us, Us, lam, u0, T, N, K, Q, M)


def long(q, H, M, K, N):
    """Many nodes, sweeps and steps: collocation matrices, a different QDelta for every sweep, any complex initial value."""
    C = q.coll.Collocation(M, 'LEGENDRE', 'RADAU-RIGHT')
    Q = tolist(C.Q)
    types = H.choice('types', (['BE'], ['LU'], ['TRAP', 'FE', 'MIN-SR-FLEX'], ['BEPAR', 'Jumper']))
    if len(types) == 1 and H.choice('form', ('2D', '3D')) == '2D':
        QDs = [tolist(q.qdelta.genQDeltaCoeffs(types[0], qGen=C))] * K
        arg = H.arr(QDs[0])
    else:
        QDs = [[[x * H.frac(k + 3, k + 4) for x in r] for r in tolist(q.qdelta.genQDeltaCoeffs(types[k % len(types)], qGen=C))]
               for k in range(K)]
        arg = H.np.reshape(H.arr(QDs), (K, M, M))
    lam = H.choice('lambda', (H.frac(-3, 4), H.frac(-1, 2) + 2j))
    T = H.frac(3, 2)
    u0 = H.real('ur', lo=-1, hi=1) + 1j * H.real('ui', lo=-1, hi=1)
    w = H.choice('weights', (False, True))
    mon = H.choice('monitors', (None, ['errors', 'residuals'], ('residuals',))[:3 if M < 5 else 2])
    wl = list(C.weights) if w else None
    kw = {} if mon is None else {'monitors': mon}
    res = q.sdc.solveDahlquistSDC(lam, u0, T, N, K, C.Q, arg, weights=C.weights if w else None, **kw)
    u = res[0] if mon else res
    z = lam * T / N
    H.same('shape', tuple(u.shape), (N + 1,))
    H.eq('initial value', u[0], u0)
    for n in range(N):
        U = [u[n]] * M
        hist = [U]
        for D in QDs:
            b = [u[n] + z * sum((Q[i][j] - D[i][j]) * U[j] for j in range(M)) for i in range(M)]
            U = []
            for i in range(M):
                U.append((b[i] + z * sum(D[i][j] * U[j] for j in range(i))) / (1 - z * D[i][i]))
            hist.append(U)
        H.eq(f'step {n}', u[n + 1], U[-1] if wl is None else u[n] + z * sum(a * c for a, c in zip(wl, U)), 1e-15)
        if mon:
            for k, U in enumerate(hist):
                H.eq(f'residual {n} {k}', res[1]['residuals'][k, n], [u[n] + z * sum(Q[i][j] * U[j] for j in range(M)) - U[i] for i in range(M)], 1e-15)
                if 'errors' in mon:
                    H.eq(f'error {n} {k}', res[1]['errors'][k, n],
                         [U[i] - u0 * H.np.exp(lam * (T * H.frac(n, N) + T / N * sum(Q[i]))) for i in range(M)], 1e-15)


def errorlong(q, H, N):
    """The largest error may be at any step."""
    i = H.choice('step', sorted({0, 1, 2, N // 3, N // 2, N - 1, N}))
    u0, d = H.frac(5, 8), H.real('d', lo=1, hi=2)
    sign = H.choice('sign', (1, -1))
    u = [u0 + H.frac((7 * j) % 11 - 5, 16) for j in range(N + 1)]
    u[i] = u0 + sign * d
    Q = H.arr([[1]])
    H.eq('error', q.sdc.errorDahlquistSDC(0, u0, H.choice('T', (1, 3)), N, 1, Q, Q, uNum=H.arr(u)), d)


def number(H, name, kind):
    """A complex, real or integer input."""
    if kind == 'c':
        return H.real(name + 'r') + 1j * H.real(name + 'i')
    return H.choice(name, (1, -2)) if kind == 'i' else H.real(name)


def cplx(q, H, M, K, N, kind):
    """Complex, real and integer lambda and initial value, in all combinations."""
    Q, QD = matrix(H, 'Q', M), matrix(H, 'D', M)
    lam, u0 = number(H, 'l', kind[0]), number(H, 'u', kind[1])
    T = H.real('T')
    w = H.choice('weights', (False, True))
    mon = H.choice('monitors', (None, ('residuals',), ('residuals', 'errors')))
    wl = H.reals('w', M) if w else None
    regular(H, lam * (T / N), [QD], M)
    kw = {} if mon is None else {'monitors': mon}
    res = q.sdc.solveDahlquistSDC(lam, u0, T, N, K, H.arr(Q), H.arr(QD), weights=H.arr(wl) if w else None, **kw)
    us, Us = history(H, lam, u0, T, N, Q, [QD] * K, wl, M)
    check_run(H, res, mon, us, Us, lam, u0, T, N, K, Q, M)


def fixed(q, H):
    """Once at the collocation solution (after an exact sweep), further sweeps with any QDelta stay there."""
    M = 2
    Q, D = matrix(H, 'Q', M), matrix(H, 'D', M, 'tri')
    lam, u0, T = H.real('lam'), H.real('u0'), H.real('T')
    regular(H, lam * T, [Q, D], M)
    u, m = q.sdc.solveDahlquistSDC(lam, u0, T, 1, 2, H.arr(Q), H.arr([Q, D]), monitors=['residuals'])
    H.eq('residual after the exact sweep', m['residuals'][1, 0], [0] * M)
    H.eq('residual after any further sweep', m['residuals'][2, 0], [0] * M)


def shapes(q, H):
    """Inconsistent QDelta and unknown monitors are refused."""
    M, K = H.int('M', 1, 3), H.int('K', 1, 2)
    z = lambda *s: H.np.zeros(s)
    Q = H.arr(ident(M))
    f = lambda QD, **k: (lambda: q.sdc.solveDahlquistSDC(1, 1, 1, 2, K, Q, QD, **k))
    for s in ((M + 1, M), (M, M + 1), (M + 1, M + 1), (M,), (K + 1, M, M), (K, M + 1, M), (K, M, M + 1), (K - 1, M, M)):
        H.raises(f'QDelta of shape {s}', f(z(*s)), AssertionError)
    H.raises('unknown monitor', f(z(M, M), monitors=['residual']), AssertionError)
    H.raises('second unknown monitor', f(z(M, M), monitors=['residuals', 'error']), AssertionError)


def error(q, H, N):
    lam, u0, T = H.real('lam', lo=-2, hi=2), H.real('u0', lo=-4, hi=4), H.real('T', lo=H.frac(1, 4), hi=2)
    u = [H.real(f'v{i}', lo=-4, hi=4) for i in range(N + 1)]
    Q = H.arr([[1]])
    e = q.sdc.errorDahlquistSDC(lam, u0, T, N, 1, Q, Q, uNum=H.arr(u))
    maximum(H, 'error', e, [(u[i] - u0 * H.np.exp(lam * T * H.frac(i, N)), 0) for i in range(N + 1)])


def errorown(q, H, N):
    """Error of its own solution: one node, explicit sweep, with and without step update."""
    lam, u0, T = H.real('lam', lo=-2, hi=2), H.real('u0', lo=-4, hi=4), H.real('T', lo=H.frac(1, 4), hi=2)
    a, w = H.real('a', lo=-2, hi=2), H.real('w', lo=-2, hi=2)
    upd = H.choice('weights', (False, True))
    e = q.sdc.errorDahlquistSDC(lam, u0, T, N, 1, H.arr([[a]]), H.arr([[0]]), weights=H.arr([w]) if upd else None)
    z = lam * T / N
    R = 1 + z * w * (1 + z * a) if upd else 1 + z * a
    xs, u = [], u0
    for i in range(N + 1):
        xs.append((u - u0 * H.np.exp(lam * T * H.frac(i, N)), 0))
        u = u * R
    maximum(H, 'error', e, xs)
