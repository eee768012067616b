"""C32: h coefficients of a Runge-Kutta generator evaluate the interpolant at the right boundary."""

BOUNDS = ("arbitrary real nodes in any order, repeated or not, 1..4 stages (quick) / 1..5 (thorough), every padding; every registered class with every padding, "
          "function values at the nodes any polynomial with coefficients in [-1,1]; h of the generic function, of the generator, of its method and of a second call")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)"]


def cases(tier):
    th = tier != 'quick'
    out = [dict(name=f"user-{s}", fn='user', params=dict(s=s), budget=900 if th else 100) for s in range(1, 6 if th else 5)]
    out.append(dict(name='registered', fn='registered', mode='approx', budget=300))
    return out


def exact(H, label, h, c, m, coef, tol=None):
    """h f(c) = f(1) for f = sum coef_k t^k, k < m."""
    v = [polyval(coef[:m], x) for x in c]
    H.same(label + ' size', tuple(h.shape), (len(c),))
    H.eq(label, sum(h[i] * v[i] for i in range(len(c))), sum(coef[:m]), tol)


def user(q, H, s):
    idx, k = [], 0
    for i in range(s):
        j = H.choice(f'node{i}', list(range(k + 1)))       # value number of node i
        idx.append(j)
        k = max(k, j + 1)
    u = H.reals('u', k)
    H.distinct(u)
    c = [u[j] for j in idx]
    A, b = [[0] * s for _ in range(s)], [H.frac(1, s)] * s
    AA, bb, cc = A, b, c

    class Mine(q.butcher.RK):
        A = AA
        b = bb
        c = cc

        @property
        def order(self):
            return 1
    q.butcher.registerRK(Mine)
    p = H.choice('padding', [None, 'LEFT', 'RIGHT', 'BOTH']) if s < 4 else None
    g = Mine(padding=p)
    c = ([0] if p in ('LEFT', 'BOTH') else []) + c + ([1] if p in ('RIGHT', 'BOTH') else [])
    # polynomials of degree below the number of values known to differ
    one, zero = False, False
    for x in u:
        if p in ('RIGHT', 'BOTH') and x == 1:
            one = True
        if p in ('LEFT', 'BOTH') and x == 0:
            zero = True
    m = k + (p in ('LEFT', 'BOTH') and not zero) + (p in ('RIGHT', 'BOTH') and not one)
    coef = H.reals('f', m)
    exact(H, 'h', g.hCoeffs, c, m, coef)
    out = g.genCoeffs(hCoeffs=True)
    H.same('length', len(out), 4)
    exact(H, 'h of genCoeffs', out[3], c, m, coef)
    if s < 4:
        out[3][...] = 5
        exact(H, 'h of the generic function', q.qcoeff.genQCoeffs('Mine', padding=p, hCoeffs=True)[3], c, m, coef)
        exact(H, 'h again', g.hCoeffs, c, m, coef)


def registered(q, H):
    p = H.choice('padding', [None, 'LEFT', 'RIGHT', 'BOTH'])
    coef = [H.real(f'f{k}', lo=-1, hi=1) for k in range(11)]
    for n, cls in q.butcher.RK_SCHEMES.items():
        if n != cls.__name__:
            continue
        g = cls(padding=p)
        c = [x for x in g.nodes]
        m = 0
        for i in range(len(c)):
            if not any(c[i] == c[j] for j in range(i)):
                m += 1
        exact(H, n, g.hCoeffs, c, m, coef, 1e-12)
        exact(H, n + ' genQCoeffs', q.qcoeff.genQCoeffs(n, padding=p, hCoeffs=True)[3], c, m, coef, 1e-12)
