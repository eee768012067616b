"""C36: calls only read their arguments, and only their values matter, not how they lie in memory."""

BOUNDS = ("every public function and method taking arrays or lists, with symbolic values: 2..4 points (also repeated ones), 2x2 and 3x3 matrices, 2 or 3 sweeps; "
          "each argument as a plain array, a read-only one, in column order, as a strided and as a reversed view, or (where lists are accepted) a list; "
          "Runge-Kutta tables and Q-generators of the user with 2 and 3 stages whose arrays are read-only, in column order or views")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "scipy's root finder and minimiser are functions of the problem size"]
LAYOUTS = ('readonly', 'columns', 'strided', 'reversed')
ALG = ['PIC', 'Exact', 'LU', 'LU2', 'QPar', 'GS', 'LDU', 'MIN']
STEP = ['BE', 'FE', 'TRAP', 'BEPAR', 'TRAPAR', 'SOE']
NODE = ['MIN_SR_NS', 'Jumper', 'FlexJumper', 'DNODES', 'DNODES2', 'DNODES3', 'DNODES4', 'DNODES5']


def cases(tier):
    B = 600 if tier != 'quick' else 120
    out = [dict(name=f"{n}", fn=n, budget=B) for n in ('interpolation', 'integration', 'construction', 'repeated', 'evaluation', 'sparse', 'numerical', 'polynomials')]
    out += [dict(name=f"{n}", fn=n, mode='approx', budget=B) for n in ('sdc', 'dahlquist', 'table', 'usergen', 'lists', 'collocation')]
    out += [dict(name=f"qdelta-{n}", fn='qdelta', params=dict(name=n), mode='approx', budget=B) for n in ALG + STEP + NODE]
    return out


def flat(outs):
    r = []
    for a in outs:
        if hasattr(a, 'toarray'):
            a = a.toarray()
        if getattr(a, 'ndim', 0):
            r.append((tuple(a.shape), [a[i] for i in H_index(a.shape)]))
        elif isinstance(a, (list, tuple)):
            r += flat(a)
        else:
            r.append(((), [a]))
    return r


def H_index(shape):
    idx = [()]
    for n in shape:
        idx = [i + (k,) for i in idx for k in range(n)]
    return idx


def build(H, values, layout):
    """An array of the given values (nested lists), laid out as asked."""
    a = H.arr(values)
    np = H.np
    if layout == 'plain':
        return a
    if layout == 'readonly':
        a.setflags(write=False)
    elif layout == 'columns':
        b = H.arr(values)
        a = b.T.copy().T if a.ndim > 1 else b
    elif layout == 'strided':
        b = H.arr([[v, 7] for v in values] if a.ndim == 1 else [[[v, 7] for v in row] for row in values] if a.ndim == 2 else
                  [[[[v, 7] for v in row] for row in m] for m in values])
        a = b[..., 0]
    elif layout == 'reversed':
        a = H.arr(values[::-1])[::-1]
    return a


def content(a):
    return [a[i] for i in H_index(a.shape)]


def same(H, label, got, ref):
    H.same(f'{label}: shapes', [s for s, _ in got], [s for s, _ in ref])
    for k, ((_, a), (_, b)) in enumerate(zip(got, ref)):
        if all(isinstance(x, (str, bool)) or x is None for x in b):
            H.same(f'{label} {k}', a, b)
        elif len(b):
            H.eq(f'{label} {k}', H.arr(a) - H.arr(b), 0 * H.arr(b))


def check(H, label, values, call, lists=False, layouts=LAYOUTS):
    """call(*arrays) with every layout: same result as for plain arrays, arguments as they were."""
    plain = [build(H, v, 'plain') for v in values]
    ref = flat(call(*plain))

    def unchanged(lay, made):
        for i, (a, v) in enumerate(zip(made, values)):
            r = H.arr(v)
            if hasattr(a, 'ndim'):
                H.same(f'{label} {lay}: shape of argument {i}', tuple(a.shape), tuple(r.shape))
                H.eq(f'{label} {lay}: argument {i}', H.arr(content(a)), content(r))
            else:
                H.same(f'{label} {lay}: shape of argument {i}', tuple(H.arr(a).shape), tuple(r.shape))
                H.eq(f'{label} {lay}: argument {i}', H.arr(a), tolist(r) if r.ndim > 1 else list(r))
    unchanged('plain', plain)
    for lay in layouts + (('list',) if lists else ()):
        if lay == 'list':
            made = [[list(r) if isinstance(r, (list, tuple)) else r for r in v] for v in values]
        else:
            made = [build(H, v, lay) for v in values]
        same(H, f'{label} {lay}', flat(call(*made)), ref)
        unchanged(lay, made)
    return ref


def points(H, n=3):
    x0, h = H.real('x0'), H.real('h', lo=H.frac(1, 8))
    return [x0 + h * k for k in (0, 1, 3, 4)[:n]], x0, h


def interpolation(q, H):
    x, x0, h = points(H)
    A = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=H.choice('weights', ('AUTO', 'STABLE')))
    t, s = x0 + 5 * h, x0 + h / 2
    for d in (True, False):
        check(H, f'interpolation {d}', [[t, x[1], s]], lambda T: [A.getInterpolationMatrix(T, duplicates=d)], lists=True)
    check(H, 'one time', [[t]], lambda T: [A.getInterpolationMatrix(T)], lists=True)
    H.eq('points', A.points, x)


def integration(q, H):
    x, x0, h = points(H)
    A = q.lagrange.LagrangeApproximation(H.arr(x))
    t = x0 + 5 * h
    rule = H.choice('rule', ('FEJER', 'LEGENDRE_NUMPY', 'LEGENDRE_SCIPY'))
    check(H, 'intervals', [[[t, t + h], [t + h, t], [t, t], [t, t + 2 * h]]], lambda I: [A.getIntegrationMatrix(I, numQuad=rule)], lists=True)
    check(H, 'two intervals', [[[t, t + h], [t + h, t + 3 * h]]], lambda I: [A.getIntegrationMatrix(I, numQuad=rule, duplicates=False)], lists=True)


def everything(H, A, t, h):
    D = A.getDerivativeMatrix(order='ALL')
    return [A.points, A.weights, A.getInterpolationMatrix([t]), A.getIntegrationMatrix([(t, t + h)]), A.getDerivativeMatrix(), A.getDerivativeMatrix(order=2), D[0], D[1]]


def construction(q, H):
    """Points and function values."""
    x, x0, h = points(H)
    t = x0 + 5 * h
    f = H.reals('f', 3)
    kw = H.choice('options', (dict(), dict(weightComputation='FAST', scaleWeights=True), dict(weightComputation='STABLE', scaleRef='ZERO'), dict(weightComputation='CHEBFUN')))

    def call(X, F):
        A = q.lagrange.LagrangeApproximation(X, fValues=F, **kw)
        return everything(H, A, t, h) + [A(H.arr([t]))]
    check(H, 'points and values', [x, f], call, lists=True)
    # later calls do not touch them either
    for lay in LAYOUTS:
        X, F = build(H, x, lay), build(H, f, lay)
        A = q.lagrange.LagrangeApproximation(X, fValues=F, **kw)
        first = flat(everything(H, A, t, h))
        A(t), A([t])
        same(H, f'second time {lay}', flat(everything(H, A, t, h)), first)
        H.eq(f'points {lay}', X, x)
        H.eq(f'values {lay}', F, f)
    M = [[x[0], x[1]], [x[2], x[2] + h]]
    check(H, 'points of rank 2', [M], lambda X: everything(H, q.lagrange.LagrangeApproximation(X, **kw), x0 + 7 * h, h), layouts=('readonly', 'columns', 'strided', 'reversed'))


def repeated(q, H):
    """Repeated points."""
    x, x0, h = points(H)
    t = x0 + 5 * h
    f = H.reals('f', 4)
    kw = dict(duplicates=H.choice('strategy', ('USE_LEFT', 'USE_RIGHT')))
    for pts in ([x[0], x[1], x[1], x[2]], [x[0], x[0], x[1], x[2]], [x[0], x[1], x[2], x[2]]):
        check(H, f'points {pts.index(pts[1])}', [pts, f], lambda X, F: everything(H, q.lagrange.LagrangeApproximation(X, fValues=F, **kw), t, h), lists=True)


def evaluation(q, H):
    """The approximation as a function: times of rank 0 to 3, values of rank 1."""
    x, x0, h = points(H, 2)
    A = q.lagrange.LagrangeApproximation(H.arr(x))
    f = H.reals('f', 2)
    t = [x0 + 5 * h + h * k / 3 for k in range(6)]
    check(H, 'one row', [t[:3], f], lambda T, F: [A(T, F)], lists=True)
    check(H, 'matrix', [[t[:3], t[3:]], f], lambda T, F: [A(T, fValues=F)])
    check(H, 'cube', [[[t[:2], t[2:4]], [t[4:], t[1:3]], [t[3:5], t[:2]]], f], lambda T, F: [A(T, fValues=F)])
    ref = [A(s, fValues=H.arr(f)) for s in t]
    T = H.arr([t[:3], t[3:]])
    H.eq('transposed', A(T.T, fValues=H.arr(f)), [[ref[0], ref[3]], [ref[1], ref[4]], [ref[2], ref[5]]])
    T3 = H.arr([[t[:2], t[2:4]], [t[4:], t[1:3]]])
    R = A(H.np.transpose(T3, (2, 0, 1)), fValues=H.arr(f))
    E = [[[ref[0], ref[2]], [ref[4], ref[1]]], [[ref[1], ref[3]], [ref[5], ref[2]]]]
    for i in range(2):
        H.eq(f'axes {i}', R[i], E[i])


def sparse(q, H):
    P = H.real('P', lo=H.frac(1, 4), hi=8)
    X = [P * H.frac(k, 16) for k in (1, 3, 4, 8)]
    T = [P * H.frac(3, 32), P * H.frac(11, 32), P * H.frac(-3, 32)]
    per = H.choice('period', (-1, 1, 2))
    for o in (1, 2, 3):
        check(H, f'sparse {o}', [X, T], lambda x, t: [q.lagrange.getSparseInterpolationMatrix(x, t, o, gridPeriod=per if per < 0 else per * P)])
        check(H, f'lists {o}', [T], lambda t: [q.lagrange.getSparseInterpolationMatrix(H.arr(X), t, o, gridPeriod=per if per < 0 else per * P)], lists=True)


def numerical(q, H):
    A = [[H.real('a', lo=1), H.real('b')], [H.real('c', lo=-1, hi=0), H.real('d', lo=1)]]
    H.assume(A[0][0] * A[1][1] - A[0][1] * A[1][0] > 0)
    check(H, 'LDU', [A], lambda M: list(q.num.lduFactorization(M)))
    x = H.reals('x', 3)
    H.increasing(x)
    y = [x[1], x[0], x[2]]
    t = H.reals('t', 2)
    for o in (None, 0, 1, 2):
        for n in (x, y):
            check(H, f'extrapolation {o}', [n, t], lambda N, T: [q.num.getExtrapolationMatrix(N, T, o)], lists=True)
    e = H.reals('e', 4, lo=H.frac(1, 10 ** 9), hi=10 ** 9)
    check(H, 'errors', [e], lambda E: list(q.num.numericalOrder([8, 2, 4, 1], E)))
    check(H, 'errors and steps', [e, [8, 2, 4, 1]], lambda E, N: list(q.num.numericalOrder(N, E)), lists=True)
    N = [4, 1, 2, 8]
    q.num.numericalOrder(N, H.arr(e))
    H.same('steps', N, [4, 1, 2, 8])


def polynomials(q, H):
    nt = H.choice('type', ('LEGENDRE', 'CHEBY-1', 'CHEBY-3'))
    g = q.nodes.NodesGenerator(nt, 'GAUSS')
    t, al, be = H.reals('t', 3), H.reals('al', 3), H.reals('be', 3)
    check(H, 'polynomials', [t, al, be], lambda T, A, B: list(g.evalOrthogPoly(T, A, B)), lists=True)
    check(H, 'matrix', [[t, al], al, be], lambda T, A, B: list(g.evalOrthogPoly(T, A, B)), lists=True)


def sdc(q, H):
    lam, u0 = H.real('lam', lo=-2, hi=-1), H.real('u0', lo=1, hi=2)
    a, b = H.real('a', lo=H.frac(1, 4), hi=1), H.real('b', lo=0, hi=1)
    Q, D, w = [[a, 0], [b, a]], [[b, 0], [a, a]], [a, b]
    S = q.sdc
    two = H.choice('one per sweep', (False, True))
    QD = [D, Q] if two else D
    check(H, 'SDC', [Q, QD, w], lambda A, B, C: [S.solveDahlquistSDC(lam, u0, 1, 2, 2, A, B, C)])
    check(H, 'no update', [Q, QD], lambda A, B: [S.solveDahlquistSDC(lam, u0, 1, 1, 2, A, B)])
    mon = H.choice('monitors', (['residuals'], ['errors', 'residuals']))
    names = list(mon)

    def monitored(A, B, C):
        u, m = S.solveDahlquistSDC(lam, u0, 1, 1, 2, A, B, C, names)
        return [u] + [m[k] for k in sorted(m)]
    check(H, 'monitors', [Q, QD, w], monitored)
    H.same('monitor names', names, mon)
    if two:
        L = [H.arr(D), H.arr(Q)]
        S.solveDahlquistSDC(lam, u0, 1, 1, 2, H.arr(Q), L, H.arr(w))
        H.same('list of QDelta', len(L), 2)
        H.eq('QDelta 0 of the list', L[0], D)
        H.eq('QDelta 1 of the list', L[1], Q)
    u = H.reals('u', 3)
    H.assume(u[2] > 3)
    check(H, 'solution given', [Q, QD, w, u], lambda A, B, C, U: [S.errorDahlquistSDC(0, 1, 1, 2, 2, A, B, C, uNum=U)])


def dahlquist(q, H):
    g = q.qcoeff.Q_GENERATORS[H.choice('method', ('RK2', 'BE', 'ESDIRK53'))]()
    u = H.reals('u', 3, lo=2, hi=3)
    check(H, 'solution given', [u], lambda U: [g.errorDahlquist(0, 1, 1, 2, uNum=U)])
    keep = flat([g.nodes, g.weights, g.Q])
    lam = H.real('lam', lo=-2, hi=-1)
    g.solveDahlquist(lam, 1, 1, 2)
    same(H, 'coefficients', flat([g.nodes, g.weights, g.Q]), keep)


def arrays(H, n):
    A = [[H.real(f'A{i}{j}', lo=-1, hi=1) if i > j else 0 for j in range(n)] for i in range(n)]
    return A, H.reals('b', n, lo=-1, hi=1), [H.frac(k, n) for k in range(n)], H.reals('d', n, lo=-1, hi=1)


def table(q, H):
    """Tables of the user: what is asked from any object leaves them as they are."""
    n = H.choice('stages', (2, 3))
    A, b, c, d = arrays(H, n)
    lam = H.real('lam', lo=-1, hi=1)
    ref = {}
    for lay in ('plain',) + LAYOUTS:
        mine = [build(H, v, lay) for v in (A, b, c, d)]
        cls = type('Mine' + lay, (q.butcher.RK,), dict(A=mine[0], b=mine[1], c=mine[2], b2=mine[3], order=property(lambda self: 1)))
        for pad in (None, 'LEFT', 'RIGHT', 'BOTH'):
            for again in range(2):
                g = cls(padding=pad)
                got = flat([g.nodes, g.weights, g.weightsEmbedded, g.Q, g.S, g.T, g.Tinv] + [x for f in ('Z2N', 'N2N') for x in g.genCoeffs(f, True, True)]
                           + [g.solveDahlquist(lam, 1, 1, 2), g.solveDahlquist(lam, 1, 1, 1, useEmbeddedWeights=True)])
                if again == 0 and lay == 'plain':
                    ref[pad] = got
                same(H, f'{lay} {pad} {again}', got, ref[pad])
            for a, v in zip(mine, (A, b, c, d)):
                H.eq(f'{lay} {pad}: table', a, v)


def usergen(q, H):
    """A Q-generator of the user, asked for everything and given to every approximation built from it."""
    n = 2
    Q = [[H.real('qa', lo=H.frac(1, 4), hi=1), H.real('qb', lo=-1, hi=0)], [H.real('qc', lo=0, hi=1), H.real('qd', lo=H.frac(1, 4), hi=1)]]
    w = H.reals('w', n, lo=-1, hi=1)
    x = [H.real('x0', lo=H.frac(1, 8), hi=H.frac(1, 2)), H.frac(3, 4)]
    H.hooks(fsolve=lambda f, x0: H.arr([1] * x0.size), minimize=lambda f, x0: H.arr([1] * x0.size))
    ref = {}
    for lay in ('plain',) + LAYOUTS:
        mine = [build(H, v, lay) for v in (x, w, Q)]

        class Mine(q.qcoeff.QGenerator):
            nodes = property(lambda self: mine[0])
            weights = property(lambda self: mine[1])
            Q = property(lambda self: mine[2])
            order = property(lambda self: 1)
        g = Mine()
        for again in range(2):
            got = flat([g.S, g.T, g.Tinv, g.hCoeffs] + [y for f in ('Z2N', 'N2N') for y in g.genCoeffs(f, True)])
            for name in ALG + STEP + NODE:
                for f in ('Z2N', 'N2N'):
                    got += flat(list(q.qdelta.genQDeltaCoeffs(name, form=f, dTau=True, qGen=g)))
                got += flat([q.qdelta.genQDeltaCoeffs([name, 'BE'], nSweeps=2, qGen=g)])
            if again == 0 and lay == 'plain':
                ref = got
            same(H, f'{lay} {again}', got, ref)
        for a, v in zip(mine, (x, w, Q)):
            H.eq(f'{lay}: generator', a, v)


def qdelta(q, H, name):
    H.hooks(fsolve=lambda f, x0: H.arr([1] * x0.size), minimize=lambda f, x0: H.arr([1] * x0.size))
    cls = q.qdelta.QDELTA_GENERATORS[name]
    if name in ALG:
        Q = [[H.real('qa', lo=H.frac(1, 4), hi=1), H.real('qb', lo=-1, hi=0)], [H.real('qc', lo=0, hi=1), H.real('qd', lo=H.frac(1, 4), hi=1)]]
        values, kw = [Q], lambda A: dict(Q=A)
    else:
        x = [H.real('x0', lo=H.frac(1, 8), hi=H.frac(1, 2)), H.real('x1', lo=H.frac(5, 8), hi=1), H.real('x2', lo=H.frac(9, 8), hi=2)]
        values, kw = [x], lambda A: dict(nodes=A, tLeft=-1) if name in STEP else dict(nodes=A)

    def call(A):
        g = cls(**kw(A))
        ks = [3, 1]
        r = []
        for i in range(2):
            r += [g.dTau, g.zeros]
            for k in (None, 1, 2):
                r += [g.computeQDelta(k), g.getQDelta(k), g.getQDelta(k, copy=False), g.getSDelta(k)]
            for f in ('Z2N', 'N2N'):
                r += list(g.genCoeffs(k=ks, form=f, dTau=True))
        H.same('list of sweeps', ks, [3, 1])
        return r + [q.qdelta.genQDeltaCoeffs(name, **kw(A)), q.qdelta.genQDeltaCoeffs(name, nSweeps=2, form='N2N', **kw(A))]
    check(H, name, values, call, lists=True)


def lists(q, H):
    """Lists, dictionaries and positional arguments given by the caller."""
    H.hooks(fsolve=lambda f, x0: H.arr([1] * x0.size), minimize=lambda f, x0: H.arr([1] * x0.size))
    b = H.real('b', lo=H.frac(1, 4), hi=1)
    C = q.coll.Collocation(2, 'LEGENDRE', 'RADAU-RIGHT', tRight=b)
    A, X = H.arr(C.Q), H.arr(C.nodes)
    kept = flat([A, X])
    names = H.choice('types', (['BE'], ['BE', 'LU'], ['MIN-SR-NS', 'TRAP', 'BE']))
    n = H.choice('sweeps', (None, 3, 5))
    T = list(names)
    for params in (dict(qGen=C), dict(Q=A, nodes=X), dict(qGen=C, nodes=X)):
        before = dict(params)
        for f in ('Z2N', 'N2N'):
            q.qdelta.genQDeltaCoeffs(T, nSweeps=n, form=f, dTau=True, **params)
            q.qdelta.genQDeltaCoeffs('BE', nSweeps=n, form=f, **params)
        H.same('types', T, names)
        H.same('parameter names', list(params), list(before))
        H.same('parameter objects', [params[k] is before[k] for k in before], [True] * len(before))
    same(H, 'arrays', flat([A, X]), kept)
    ks = H.choice('indices', ([1, 2], [2, 1, 3], (1, 2)))
    k2 = ks + ks[:0]
    q.qdelta.QDELTA_GENERATORS['MIN-SR-FLEX'](nNodes=2, nodeType='LEGENDRE', quadType='RADAU-RIGHT').genCoeffs(k=k2)
    H.same('indices', k2, ks)
    kw = dict(nNodes=2, nodeType='EQUID', quadType='RADAU-RIGHT')
    q.qcoeff.genQCoeffs('coll', 'N2N', True, **kw)
    H.same('parameters', kw, dict(nNodes=2, nodeType='EQUID', quadType='RADAU-RIGHT'))


def collocation(q, H):
    """What is built from a collocation method, or asked about it, leaves it as it is."""
    H.hooks(fsolve=lambda f, x0: H.arr([1] * x0.size), minimize=lambda f, x0: H.arr([1] * x0.size))
    a, b = H.real('a', lo=-1, hi=1), H.real('b', lo=H.frac(1, 4), hi=1)
    nt, qt = H.choice('type', ('LEGENDRE', 'EQUID', 'CHEBY-3')), H.choice('quad', ('GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO'))
    C = q.coll.Collocation(2, nt, qt, tLeft=a, tRight=a + b)
    state = lambda: flat([C.nodes, C.weights, C.Q, C.S, C.hCoeffs, C.order, C.rightIsNode, C.nodeType, C.quadType, C.tLeft, C.tRight, C.nNodes, C.approx.points, C.approx.weights])
    kept = state()
    names = []
    for c in q.qdelta.QDELTA_GENERATORS.values():
        if c.__name__ not in names and c.__name__ not in ('MIN3', 'MIN_VDHS', 'LDU', 'MIN', 'LU', 'LU2'):
            names.append(c.__name__)
    for name in names:
        g = q.qdelta.QDELTA_GENERATORS[name](qGen=C)
        g.getQDelta(), g.getQDelta(1), g.getSDelta(2), g.dTau, g.genCoeffs(k=[1, 2], form='N2N', dTau=True)
        q.qdelta.genQDeltaCoeffs([name, 'BE'], nSweeps=3, form='N2N', dTau=True, qGen=C)
        same(H, f'after {name}', state(), kept)
    for d in ('BE', 'TRAP', 'LU'):
        for s in ('QUADRATURE', 'LASTNODE'):
            q.sdc.getOrderSDC(C, 3, d, s)
    C.solveDahlquist(-1, 1, 1, 2)
    C.genCoeffs('N2N', True), C.T, C.Tinv
    C.approx.getDerivativeMatrix(), C.approx.getInterpolationMatrix([a, b])
    same(H, 'afterwards', state(), kept)
