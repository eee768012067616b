"""C10: Butcher tables are consistent and have the structure they are documented to have."""

BOUNDS = ("every Runge-Kutta class registered in the source; row sums and weight sums as linear forms with any multipliers in [-1,1], "
          "within 1e-13 (2e-9 for ARK343*, whose published coefficients have 10 digits)")
ASSUMPTIONS = ["float literals of the tables are their decimal values; square roots and sines exact or at 220 bits"]

EXPLICIT = ['FE', 'RK21', 'RK2', 'HEUN2', 'RK32', 'RK33', 'RK53', 'RK4', 'RK4_38', 'RK65', 'CashKarp', 'ARK548L2SAERK',
            'ARK548L2SAERK2', 'ARK324L2SAERK', 'ARK222ERK', 'ARK443ERK', 'ARK343ERK', 'ARK4ERK']
SDIRK = ['BE', 'MidPoint', 'SDIRK2', 'SDIRK2_2', 'SDIRK3', 'DIRK43', 'SDIRK54', 'EDIRK43']           # one diagonal value
ESDIRK = ['TRAP', 'ESDIRK43', 'ESDIRK53', 'ARK548L2SAESDIRK', 'ARK548L2SAESDIRK2', 'ARK324L2SAESDIRK', 'ARK222EDIRK',
          'ARK443ESDIRK', 'ARK343ESDIRK']                                                             # explicit first stage
EDIRK = ['EDIRK4', 'ARK4EDIRK']
STIFFLY = ['BE', 'TRAP', 'SDIRK2', 'SDIRK2_2', 'SDIRK3', 'DIRK43', 'SDIRK54', 'EDIRK4', 'ESDIRK43', 'ESDIRK53', 'ARK548L2SAESDIRK',
           'ARK548L2SAESDIRK2', 'ARK324L2SAESDIRK', 'ARK222EDIRK', 'ARK222ERK', 'ARK443ESDIRK', 'ARK443ERK', 'ARK343ESDIRK',
           'ARK4EDIRK', 'ARK4ERK']
EMBEDDED = {'HEUN2': 1, 'CashKarp': 4, 'EDIRK43': 3, 'ESDIRK43': 3, 'ESDIRK53': 3, 'ARK548L2SAERK': 4, 'ARK548L2SAESDIRK': 4,
            'ARK548L2SAESDIRK2': 4, 'ARK548L2SAERK2': 4, 'ARK324L2SAERK': 2, 'ARK324L2SAESDIRK': 2}
STAGES = dict(FE=1, RK21=2, RK2=2, HEUN2=2, RK32=3, RK33=3, RK53=5, RK4=4, RK4_38=4, RK65=6, CashKarp=6, BE=1, MidPoint=1, TRAP=2,
              SDIRK2=2, SDIRK2_2=2, SDIRK3=3, DIRK43=4, GAUSS_LG=2, SDIRK54=5, EDIRK43=4, EDIRK4=4, ESDIRK43=6, ESDIRK53=6,
              ARK548L2SAERK=8, ARK548L2SAESDIRK=8, ARK548L2SAESDIRK2=8, ARK548L2SAERK2=8, ARK324L2SAERK=4, ARK324L2SAESDIRK=4,
              ARK222EDIRK=3, ARK222ERK=3, ARK443ESDIRK=5, ARK443ERK=5, ARK343ESDIRK=4, ARK343ERK=4, ARK4EDIRK=7, ARK4ERK=7)


def cases(tier):
    return [dict(name=n, fn='table', params=dict(name=n), mode='approx') for n in STAGES] + \
        [dict(name='others', fn='others', mode='approx'), dict(name='refusals', fn='refusals')]


def tolerance(name):
    return 2e-9 if name.startswith('ARK343') else 1e-13


def consistent(H, name, c, b, A, b2, tol, pre=''):
    s = c.size
    m = [H.real(f'm{i}', lo=-1, hi=1) for i in range(s)]
    H.same(pre + 'sizes', (c.shape, b.shape, A.shape), ((s,), (s,), (s, s)))
    H.eq(pre + 'row sums', sum(m[i] * sum(A[i, j] for j in range(s)) for i in range(s)), sum(m[i] * c[i] for i in range(s)), tol, 10 * tol)
    H.eq(pre + 'sum of weights', m[0] * sum(b[j] for j in range(s)), m[0], tol, 10 * tol)
    if b2 is not None:
        H.same(pre + 'embedded size', b2.shape, (s,))
        H.eq(pre + 'sum of embedded weights', m[0] * sum(b2[j] for j in range(s)), m[0], tol, 10 * tol)


def table(q, H, name):
    cls = q.butcher.RK_SCHEMES[name]
    tol = tolerance(name)
    g = cls()
    s = STAGES[name]
    H.same('registered', (q.qcoeff.Q_GENERATORS[name] is cls, cls.__name__), (True, name))
    H.same('stages', g.nNodes, s)
    A, b, c = g.Q, g.weights, g.nodes
    for k, v in (('A', A), ('b', b), ('c', c)):
        H.eq(k, getattr(g, k), v)
    emb = None
    if name in EMBEDDED:
        emb = g.weightsEmbedded
    else:
        H.raises('no embedded weights', lambda: g.weightsEmbedded, NotImplementedError)
    consistent(H, name, c, b, A, emb, tol)
    coef = lambda: g.genCoeffs()
    H.eq('genCoeffs nodes', coef()[0], c)
    H.eq('genCoeffs weights', coef()[1], b)
    H.eq('genCoeffs Q', coef()[2], A)
    if emb is not None:
        W = g.genCoeffs(embedded=True)[1]
        H.eq('genCoeffs embedded', W, [[b[j] for j in range(s)], [emb[j] for j in range(s)]])
    for i in range(s):
        for j in range(i + 1, s):
            if name not in ('GAUSS_LG',):
                H.true(f'upper part {i} {j}', A[i, j] == 0)
        if name in EXPLICIT:
            H.true(f'diagonal {i}', A[i, i] == 0)
        if name in SDIRK or (name in ESDIRK and i > 0):
            H.eq(f'diagonal {i}', A[i, i], A[s - 1, s - 1], tol, 10 * tol)
            H.true(f'implicit {i}', A[i, i] > 0)
    if name in ESDIRK + EDIRK:
        H.true('explicit first stage', (A[0, 0] == 0) & (c[0] == 0))
    if name in EXPLICIT:
        H.true('first node', c[0] == 0)
    if name in STIFFLY:
        H.eq('stiffly accurate', [A[s - 1, j] for j in range(s)], b, tol, 10 * tol)
        H.eq('last node', c[s - 1], 1, tol, 10 * tol)


def others(q, H):
    """Classes this check has no structural expectation about (new ones)."""
    names = [n for n, cls in q.butcher.RK_SCHEMES.items() if n == cls.__name__ and n not in STAGES]
    missing = [n for n in STAGES if n not in q.butcher.RK_SCHEMES]
    H.same('registered schemes', missing, [])
    for n in names:
        g = q.butcher.RK_SCHEMES[n]()
        consistent(H, n, g.nodes, g.weights, g.Q, g.b2, 1e-9, n + ' ')


def refusals(q, H):
    """Tables with inconsistent sizes are refused and not registered."""
    RK, reg = q.butcher.RK, q.butcher.registerRK
    nb, nc, na, nb2 = (H.choice(k, (1, 2, 3)) for k in ('b', 'c', 'A', 'Acols'))
    x = H.reals('x', 9)

    class Mine(RK):
        A = [[x[3 * i + j] for j in range(nb2)] for i in range(na)]
        b = [x[i] for i in range(nb)]
        c = [x[3 + i] for i in range(nc)]

        @property
        def order(self):
            return 1
    if nb == nc == na == nb2:
        reg(Mine)
        H.same('registered', (q.butcher.RK_SCHEMES['Mine'] is Mine, q.qcoeff.Q_GENERATORS['Mine'] is Mine), (True, True))
        g = Mine()
        H.eq('Q', g.Q, [[x[3 * i + j] for j in range(nb)] for i in range(nb)])
        H.eq('weights', g.weights, x[:nb])
        H.eq('nodes', g.nodes, x[3:3 + nb])
        H.raises('registered twice', lambda: reg(Mine))
    else:
        H.raises('sizes', lambda: reg(Mine))
        H.same('not registered', 'Mine' in q.qcoeff.Q_GENERATORS, False)
