"""C04: duplicated points use exactly one value, chosen by the strategy."""

BOUNDS = "2..5 points, and 5..6 (quick) / 7 (thorough) points whose unique ones are any translation and scaling of a pattern: every pattern of repetitions, any nondecreasing reals; one time, one interval left of the points, D1 and D2; both strategies; results after every one or two earlier calls (n = 2, 3)"
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "matrices of distinct points are correct (C01-C03)"]


def cases(tier):
    out = []
    th = tier != 'quick'
    for strat in ('USE_LEFT', 'USE_RIGHT', None):
        for n in range(2, 6):
            if strat is None and n > 2:
                continue
            out.append(dict(name=f"{strat}-n{n}", fn='dup', params=dict(n=n, strat=strat), budget=600 if th else 60))
        for n in range(5, 8 if th else 7):
            if strat is not None:
                out.append(dict(name=f"affine-{strat}-n{n}", fn='dupgrid', params=dict(n=n, strat=strat), budget=600 if th else 100))
        for n in (2, 3):
            if strat is not None:
                out.append(dict(name=f"history-{strat}-n{n}", fn='history', params=dict(n=n, strat=strat), budget=600 if th else 60))
    out.append(dict(name='refusal', fn='refusal'))
    return out


def dup(q, H, n, strat):
    pat = [0] + [H.choice(f'same{i}', (1, 0)) for i in range(1, n)]
    u, idx = [], []
    for i in range(n):
        if i == 0 or not pat[i]:
            u.append(H.real(f'u{len(u)}'))
        idx.append(len(u) - 1)
    H.increasing(u)
    m = len(u)
    x = [u[k] for k in idx]
    t, a, b = H.real('t'), H.real('a'), H.real('b')
    LA = q.lagrange.LagrangeApproximation
    f = H.reals('f', n)
    ap = LA(x) if strat is None else LA(x, duplicates=strat, fValues=f)
    ref = LA(H.arr(u))
    # which copy is used
    use = [[i for i in range(n) if idx[i] == k] for k in range(m)]
    use = [g[-1] if strat == 'USE_RIGHT' else g[0] for g in use]

    def spread(M):
        M = tolist(M)
        return [[r[idx[i]] if use[idx[i]] == i else 0 for i in range(n)] for r in M]
    H.same('sizes', (ap.nPoints, ap.nUniquePoints, ap.hasDuplicates), (n, m, m < n))
    H.eq('points', ap.points, x)
    P, Pu = ap.getInterpolationMatrix([t]), ref.getInterpolationMatrix([t])
    H.eq('P', P, spread(Pu))
    H.eq('P unique', ap.getInterpolationMatrix([t], duplicates=False), Pu)
    if n < 4:
        # interval left of the points: no quadrature node meets a point (C02 covers those that do)
        s = H.real('s', lo=0, open_=True)
        iv = [(u[0] - 1 - s, u[0] - 1)]
        Q, Qu = ap.getIntegrationMatrix(iv), [[polyint(cardinal_coeffs(u, j), *iv[0]) for j in range(m)]]
        H.eq('Q', Q, [[Qu[0][idx[i]] if use[idx[i]] == i else 0 for i in range(n)]])
        H.eq('Q unique', ap.getIntegrationMatrix(iv, duplicates=False), Qu)
    D1, D2 = ap.getDerivativeMatrix('ALL')
    E1, E2 = ref.getDerivativeMatrix('ALL')
    H.eq('D1', D1, spread(E1))
    H.eq('D2', D2, spread(E2))
    H.eq('D1 alone', ap.getDerivativeMatrix(), spread(E1))
    H.eq('D2 alone', ap.getDerivativeMatrix(2), spread(E2))
    H.eq('D1 unique', ap.getDerivativeMatrix(1, duplicates=False), E1)
    H.eq('D2 unique', ap.getDerivativeMatrix(2, duplicates=False), E2)
    if strat is not None:
        H.eq('p(t)', ap(t), sum(f[use[k]] * Pu[0, k] for k in range(m)))


def repeated(H, n, idx, use, M, m):
    M = tolist(M) if hasattr(M, 'shape') else M
    return [[r[idx[i]] if use[idx[i]] == i else 0 for i in range(n)] for r in M]


def dupgrid(q, H, n, strat):
    """More points: every pattern of repetitions, unique points c + s g_k; time and interval fixed relative to them."""
    pat = [0] + [H.choice(f'same{i}', (1, 0)) for i in range(1, n)]
    idx = []
    for i in range(n):
        idx.append((idx[-1] if idx else -1) + (0 if pat[i] else 1))
    m = idx[-1] + 1
    c, s, g, u = affine(H, m, 'left')
    x = [u[k] for k in idx]
    use = [[i for i in range(n) if idx[i] == k][-1 if strat == 'USE_RIGHT' else 0] for k in range(m)]
    f = H.reals('f', n)
    ap = q.lagrange.LagrangeApproximation(H.arr(x) if pat[-1] else x, duplicates=strat, fValues=f)
    spread = lambda M: repeated(H, n, idx, use, M, m)
    ts = [H.frac(1, 7), g[0], g[-1], H.frac(8, 7)]
    P = [[cardinal(g, j, t) for j in range(m)] for t in ts]
    tt = [c + s * t for t in ts]
    H.eq('P', ap.getInterpolationMatrix(tt), spread(P))
    H.eq('P unique', ap.getInterpolationMatrix(tt, duplicates=False), P)
    H.eq('p(t)', ap(tt), [sum(f[use[k]] * r[k] for k in range(m)) for r in P])
    d1, d2 = [[polyder(cardinal_coeffs(g, j)) for j in range(m)], [polyder(polyder(cardinal_coeffs(g, j))) for j in range(m)]]
    E1, E2 = [[[polyval(d[j], a) for j in range(m)] for a in g] for d in (d1, d2)]
    D1, D2 = ap.getDerivativeMatrix('ALL')
    H.eq('D1', s * D1, spread(E1))
    H.eq('D2', s * s * D2, spread(E2))
    H.eq('D1 unique', s * ap.getDerivativeMatrix(1, duplicates=False), E1)


def history(q, H, n, strat):
    """Whatever was asked from the object before (results overwritten), the matrices are the same."""
    pat = [0] + [H.choice(f'same{i}', (1, 0)) for i in range(1, n)]
    u, idx = [], []
    for i in range(n):
        if i == 0 or not pat[i]:
            u.append(H.real(f'u{len(u)}'))
        idx.append(len(u) - 1)
    H.increasing(u)
    m = len(u)
    use = [[i for i in range(n) if idx[i] == k][-1 if strat == 'USE_RIGHT' else 0] for k in range(m)]
    t, f = H.real('t'), H.reals('f', n)
    H.assume(t > u[-1])
    ap = q.lagrange.LagrangeApproximation([u[k] for k in idx], duplicates=strat, fValues=f)
    ops = dict(P=lambda d: ap.getInterpolationMatrix([t, t + 1], duplicates=d), call=lambda d: ap(H.arr([t])),
               Q=lambda d: ap.getIntegrationMatrix([(t, t + 1)], duplicates=d), D=lambda d: ap.getDerivativeMatrix(1, d),
               ALL=lambda d: ap.getDerivativeMatrix('ALL', d)[1])
    for i in range(1 if n > 2 else 2):
        ops[H.choice(f'op{i}', list(ops))](H.choice(f'dup{i}', (False, True)))[...] = 7
    spread = lambda M: repeated(H, n, idx, use, M, m)
    P = [[cardinal(u, j, t) for j in range(m)]]
    H.eq('P', ap.getInterpolationMatrix([t]), spread(P))
    H.eq('p(t)', ap(t), sum(f[use[k]] * P[0][k] for k in range(m)))
    H.eq('Q', ap.getIntegrationMatrix([(t, t + 1)]), spread([[polyint(cardinal_coeffs(u, j), t, t + 1) for j in range(m)]]))
    H.eq('D', ap.getDerivativeMatrix(), spread([[polyval(polyder(cardinal_coeffs(u, j)), a) for j in range(m)] for a in u]))


def refusal(q, H):
    x = H.real('x')
    H.raises('strategy', lambda: q.lagrange.LagrangeApproximation([x, x], duplicates='NOPE'), NotImplementedError)
