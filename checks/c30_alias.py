"""C30: changing a returned array never changes what is returned later."""

TYPES = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']

BOUNDS = ("all registered Runge-Kutta methods with every padding, collocation with all node and quadrature types (2, 3 nodes) on a symbolic interval; every registered QDelta "
          "built from arrays of the caller or from a generator; Lagrange matrices for 3 symbolic points; every form and flag; each returned "
          "array overwritten with arbitrary values, then everything is asked again from the same object, a new one and the generic functions; the arrays held by one collocation object (3 nodes, two intervals, and default instances) overwritten, then other objects, earlier and later, asked")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "scipy's root finder and minimiser are functions of the problem size"]
CHUNKS = 8
ALG = ['PIC', 'Exact', 'LU', 'LU2', 'QPar', 'GS', 'LDU', 'MIN']
STEP = ['BE', 'FE', 'TRAP', 'BEPAR', 'TRAPAR', 'SOE']
NODE = ['MIN_SR_NS', 'Jumper', 'FlexJumper', 'DNODES', 'DNODES2', 'DNODES3', 'DNODES4', 'DNODES5']
COLL = ['MIN3', 'MIN_VDHS', 'MIN_SR_S', 'MIN_SR_FLEX']


def cases(tier):
    out = [dict(name=f"rk-{i}", fn='rk', params=dict(i=i), mode='approx', budget=120) for i in range(CHUNKS)]
    out += [dict(name=f"coll-{nt}-{qt}", fn='coll', params=dict(nt=nt, qt=qt), mode='approx', budget=120) for nt in TYPES for qt in QUADS]
    out += [dict(name=f"others-{nt}-{qt}", fn='others', params=dict(nt=nt, qt=qt), mode='approx', budget=120) for nt in TYPES for qt in QUADS]
    out += [dict(name=f"qdelta-{n}", fn='qdelta', params=dict(name=n), mode='approx', budget=120) for n in ALG + STEP + NODE + COLL]
    out += [dict(name=f"sweeps-{n}", fn='sweeps', params=dict(name=n), mode='approx', budget=120) for n in ALG + STEP + NODE + COLL]
    out += [dict(name='lagrange', fn='lagrange', budget=120), dict(name='nodes', fn='nodes', mode='approx', budget=60),
            dict(name='solutions', fn='solutions', budget=120), dict(name='functions', fn='functions', budget=120)]
    return out


def overwrite(H, outs, v):
    for a in outs:
        a[...] = v


def keep(outs):
    return [tolist(a) if a.ndim > 1 else list(a) for a in outs]


def again(H, label, outs, ref):
    H.same(f'{label}: number', len(outs), len(ref))
    for i, (a, r) in enumerate(zip(outs, ref)):
        H.eq(f'{label} {i}', a - H.arr(r), 0 * H.arr(r))


COMBOS = [(f, h, e) for f in ('Z2N', 'N2N') for h in (False, True) for e in (False, True)]


def qtuples(H, label, new, gen, emb, v):
    combos = [c for c in COMBOS if emb or not c[2]]
    ref = {c: keep(new().genCoeffs(*c)) for c in combos}
    g = new()
    for c in combos:
        overwrite(H, g.genCoeffs(*c), v)
        overwrite(H, gen(*c), v)
        for d in combos:
            again(H, f'{label} same object after {c}: {d}', g.genCoeffs(*d), ref[d])
        again(H, f'{label} new object after {c}', new().genCoeffs(*c), ref[c])
        again(H, f'{label} generic function after {c}', gen(*c), ref[c])


def rk(q, H, i):
    v = H.real('v', lo=-1, hi=1)
    pad = H.choice('padding', (None, 'LEFT', 'RIGHT', 'BOTH'))
    classes = []
    for c in q.butcher.RK_SCHEMES.values():
        if c not in classes:
            classes.append(c)
    for c in classes[i::CHUNKS]:
        qtuples(H, c.__name__, lambda: c(padding=pad), lambda f, h, e: q.qcoeff.genQCoeffs(c.__name__, f, h, e, padding=pad), c.b2 is not None, v)


def coll(q, H, nt, qt):
    v = H.real('v', lo=-1, hi=1)
    a = H.real('a', lo=-1, hi=1)
    b = H.real('b', lo=H.frac(1, 4), hi=1)
    n = H.choice('n', (2, 3))
    kw = dict(nNodes=n, nodeType=nt, quadType=qt, tLeft=a, tRight=a + b)
    C = q.coll.Collocation
    qtuples(H, 'collocation', lambda: C(**kw), lambda f, h, e: q.qcoeff.genQCoeffs('Collocation', f, h, e, **kw), False, v)
    g = C(**kw)
    ref = keep([g.approx.getInterpolationMatrix([a, b]), g.approx.getIntegrationMatrix([(a, b)])])
    overwrite(H, C(**kw).genCoeffs(), v)
    overwrite(H, g.genCoeffs('N2N', True), v)
    again(H, 'polynomial approximation', [g.approx.getInterpolationMatrix([a, b]), g.approx.getIntegrationMatrix([(a, b)])], ref)


def others(q, H, nt, qt):
    """The arrays held by one collocation object belong to it alone."""
    v = H.real('v', lo=-1, hi=1)
    C = q.coll.Collocation
    kw = dict(nNodes=3, nodeType=nt, quadType=qt, tLeft=H.choice('left', (0, -1)), tRight=1)
    how = H.choice('object', ('constructor', 'instance', 'default'))
    new = {'constructor': lambda: C(**kw), 'instance': lambda: C.getInstance(), 'default': lambda: q.qcoeff.Q_GENERATORS['coll'].getInstance()}[how]
    every = lambda g: [g.nodes, g.weights, g.Q, g.S, g.hCoeffs]
    gen = lambda: list(q.qcoeff.genQCoeffs('Collocation', 'Z2N', True, **(kw if how == 'constructor' else C.DEFAULT_PARAMS)))
    keptby = new()
    ref, reg = keep(every(new())), keep(gen())
    g = new()
    overwrite(H, every(g), v)
    overwrite(H, [g.nodes, g.weights, g.Q], v)
    again(H, 'new object', every(new()), ref)
    again(H, 'earlier object', every(keptby), ref)
    again(H, 'generic function', gen(), reg)
    H.true('another object', new() is not g)


def arguments(q, H, name):
    """Function creating the arguments of a generator, and the arrays of the caller in it."""
    M = 3 if name == 'MIN_VDHS' else 2
    roots = {}

    def root(f, x0):
        n = x0.size
        if n not in roots:
            roots[n] = [H.real(f'r{n}{i}', lo=H.frac(1, 8), hi=1) for i in range(n)]
        return H.arr(roots[n])
    H.hooks(fsolve=root, minimize=lambda f, x0: H.arr([1] * M if name == 'MIN' else [1, 1]))
    if name in COLL:
        return lambda: dict(nNodes=M, nodeType='LEGENDRE' if M == 3 else 'EQUID', quadType='RADAU-RIGHT'), []
    if name in ALG:
        Q = [[H.real('qa', lo=H.frac(1, 4), hi=1), H.real('qb', lo=-1, hi=1)], [H.real('qc', lo=-1, hi=1), H.real('qd', lo=-1, hi=1)]]
        H.assume(det(Q) > 0)
        A = H.arr(Q)
        return lambda: dict(Q=A), [(A, Q)]
    x = [H.real('x0', lo=H.frac(1, 8), hi=1), H.real('x1', lo=H.frac(1, 4), hi=2)]
    H.increasing(x)
    A = H.arr(x)
    return lambda: dict(nodes=A, tLeft=0), [(A, x)]


def qdelta(q, H, name):
    """One generator from arrays of the caller, one from another generator."""
    v = H.real('v', lo=-1, hi=1)
    how = H.choice('how', ('arrays', 'qGen'))
    if how == 'arrays':
        kw, mine = arguments(q, H, name)
    else:
        arguments(q, H, name)
        C = q.coll.Collocation(3 if name == 'MIN_VDHS' else 2, 'LEGENDRE' if name == 'MIN_VDHS' else 'EQUID', 'RADAU-RIGHT')
        kw = lambda: dict(qGen=C)
        mine = [(C.nodes, list(C.nodes)), (C.weights, list(C.weights)), (C.Q, tolist(C.Q))]
    cls = q.qdelta.QDELTA_GENERATORS[name]
    form = H.choice('form', ('Z2N', 'N2N'))
    gen = lambda: list(q.qdelta.genQDeltaCoeffs(name, form=form, dTau=True, **kw()))
    every = lambda g: [g.getQDelta(), g.getSDelta(), g.getQDelta(2), g.dTau] + list(g.genCoeffs(form=form, dTau=True)) + [g.genCoeffs(k=[1, 2], form=form)]
    ref, reg = keep(every(cls(**kw()))), keep(gen())
    g = cls(**kw())
    for i in range(2):
        overwrite(H, every(g), v)
        overwrite(H, gen(), v)
        again(H, f'same object {i}', every(g), ref)
        again(H, f'generic function {i}', gen(), reg)
    again(H, 'new object', every(cls(**kw())), ref)
    for a, r in mine:
        H.eq('array of the caller', a, r)


def sweeps(q, H, name):
    v = H.real('v', lo=-1, hi=1)
    kw, mine = arguments(q, H, name)
    form = H.choice('form', ('Z2N', 'N2N'))
    two = H.choice('list', (False, True))
    arg = [name, name] if two else name
    gen = lambda: list(q.qdelta.genQDeltaCoeffs(list(arg) if two else arg, nSweeps=3, form=form, dTau=True, **kw()))
    ref = keep([gen()[1]]) + [keep(list(gen()[0]))]
    overwrite(H, gen(), v)
    res = gen()
    again(H, 'delta_tau', [res[1]], ref[:1])
    again(H, 'sweeps', list(res[0]), ref[1])
    # one sweep of the result does not change the others
    res[0][0][...] = v
    again(H, 'other sweeps', list(res[0][1:]), ref[1][1:])
    for a, r in mine:
        H.eq('array of the caller', a, r)


def lagrange(q, H):
    v = H.real('v')
    x = H.reals('x', 3)
    H.increasing(x)
    t, s = H.real('t'), H.real('s')
    H.assume(t > x[2])
    H.assume(s > t)
    wc = H.choice('weights', ('AUTO', 'FAST', 'STABLE', 'CHEBFUN'))
    X = H.arr(x)
    A = q.lagrange.LagrangeApproximation(X, weightComputation=wc)
    T = H.arr([t, s])
    every = lambda A: [A.getInterpolationMatrix(T), A.getInterpolationMatrix([t]), A.getIntegrationMatrix([(t, s), (s, t)]),
                       A.getDerivativeMatrix(), A.getDerivativeMatrix(order=2)] + list(A.getDerivativeMatrix(order='ALL'))
    ref = keep(every(A))
    overwrite(H, every(A), v)
    again(H, 'same object', every(A), ref)
    again(H, 'new object', every(q.lagrange.LagrangeApproximation(X, weightComputation=wc)), ref)
    H.eq('points of the caller', X, x)
    H.eq('times of the caller', T, [t, s])
    f = q.lagrange.computeFejerRule
    r = keep(f(5))
    overwrite(H, f(5), v)
    again(H, 'quadrature rule', f(5), r)
    again(H, 'same object later', every(A), ref)


def nodes(q, H):
    v = H.real('v', lo=-1, hi=1)
    nt, qt = H.choice('type', TYPES), H.choice('quad', QUADS)
    G = q.nodes.NodesGenerator
    g = G(nt, qt)
    ref = keep([g.getNodes(3)])
    overwrite(H, [g.getNodes(3)], v)
    again(H, 'same object', [g.getNodes(3)], ref)
    again(H, 'new object', [G(nt, qt).getNodes(3)], ref)
    if nt != 'EQUID':
        every = lambda g: list(g.getOrthogPolyCoefficients(3))
        ref = keep(every(g))
        overwrite(H, every(g), v)
        again(H, 'coefficients', every(g), ref)


def solutions(q, H):
    """Solutions, monitors and the arrays given to the solvers."""
    v, lam, u0 = H.real('v'), H.real('lam'), H.real('u0')
    a, b = H.real('a', lo=0), H.real('b', lo=0)
    H.assume(lam <= 0)
    Q, D, w = [[a, 0], [b, a]], [[b, 0], [a, a]], [a, b]
    AQ, AD, Aw = H.arr(Q), H.arr(D), H.arr(w)
    S = q.sdc
    one = lambda: [S.solveDahlquistSDC(lam, u0, 1, 2, 2, AQ, AD, Aw)]
    ref = keep(one())
    overwrite(H, one(), v)
    again(H, 'SDC', one(), ref)
    H.eq('Q of the caller', AQ, Q)
    H.eq('QDelta of the caller', AD, D)
    H.eq('weights of the caller', Aw, w)
    full = [[[b, a], [v, a]], [[a, v], [b, b]], [[v, b], [a, 1 + a]]]
    A3 = H.arr(full)
    for wt in (None, Aw):
        one = lambda: [S.solveDahlquistSDC(lam, u0, 1, 1, 3, AQ, A3, wt)]
        ref = keep(one())
        overwrite(H, one(), 0)
        again(H, 'SDC with one QDelta per sweep', one(), ref)
        u, m = S.solveDahlquistSDC(lam, u0, 1, 1, 3, AQ, A3, wt, monitors=['residuals'])
        r = keep([u, m['residuals'][3]])
        again(H, 'monitored', [u], ref)
        overwrite(H, [u, m['residuals']], 0)
        u, m = S.solveDahlquistSDC(lam, u0, 1, 1, 3, AQ, A3, wt, monitors=['residuals'])
        again(H, 'monitored again', [u, m['residuals'][3]], r)
    H.eq('QDelta of the caller for each sweep', A3, full)
    g = q.qcoeff.Q_GENERATORS['RK2']()
    one = lambda: [g.solveDahlquist(lam, u0, 1, 2)]
    ref = keep(one())
    r = one()
    overwrite(H, r, v)
    again(H, 'Runge-Kutta', one(), ref)
    u = one()[0]
    g.errorDahlquist(lam, u0, 1, 2, uNum=u)
    again(H, 'solution of the caller', [u], ref)


def functions(q, H):
    v = H.real('v')
    A = [[H.real('a', nz=True), H.real('b')], [H.real('c'), H.real('d')]]
    H.assume(det(A) > 0)
    M = H.arr(A)
    f = lambda: list(q.num.lduFactorization(M))
    ref = keep(f())
    overwrite(H, f(), v)
    again(H, 'LDU', f(), ref)
    H.eq('matrix of the caller', M, A)
    x = H.reals('x', 3)
    H.increasing(x)
    X, T = H.arr(x), H.arr([0, 1])
    f = lambda: [q.num.getExtrapolationMatrix(X, T), q.num.getExtrapolationMatrix(X, T, 1)]
    ref = keep(f())
    overwrite(H, f(), v)
    again(H, 'extrapolation', f(), ref)
    H.eq('nodes of the caller', X, x)
    H.eq('times of the caller', T, [0, 1])
