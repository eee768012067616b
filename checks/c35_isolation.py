"""C35: what a call returns does not depend on the calls made before."""

TYPES = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']

BOUNDS = ("requests of one family made in one order, in the reverse order in a package imported afresh, and once more of the objects already used and of new ones: "
          "nodes and coefficients of all node and quadrature types (1..4, 6, 10, 12 nodes, thorough up to 20), quadrature rules (1..9 nodes), collocation of all types on 4 symbolic intervals (2, 3 nodes; thorough up to 5), "
          "all Runge-Kutta tables and paddings, polynomial approximations of sets of 3 symbolic points sharing points, with every option, order and interval kind, "
          "all QDelta of 3 collocations and 2 symbolic matrices with sweeps none, 1..3, "
          "the error state of numpy is the same after every request; sparse interpolation, LDU, extrapolation, convergence order, SDC order and Dahlquist solvers with symbolic arguments")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "scipy's root finder and minimiser are functions of the problem"]


def cases(tier):
    th = tier != 'quick'
    B = 600 if th else 120
    out = [dict(name="nodes", fn='run', params=dict(family='nodes', sizes=(1, 2, 3, 4, 5, 7, 10, 12, 17, 20) if th else (1, 2, 3, 4, 6, 10, 12)), mode='approx', budget=B),
           dict(name="nodes-types", fn='run', params=dict(family='types', sizes=(2, 3, 4, 5)), mode='approx', budget=B),
           dict(name="coll-mixed", fn='run', params=dict(family='mixed'), mode='approx', budget=B)]
    out += [dict(name=f"coll-{nt}", fn='run', params=dict(family='coll', nt=nt, N=5 if th else 3), mode='approx', budget=B) for nt in TYPES]
    out += [dict(name=f"intervals-{qt}", fn='run', params=dict(family='intervals', qt=qt), mode='approx', budget=B) for qt in QUADS]
    out += [dict(name=f"rk-{i}", fn='run', params=dict(family='rk', i=i), mode='approx', budget=B) for i in range(4)]
    out += [dict(name=f"lagrange-{wc}", fn='run', params=dict(family='lagrange', wc=wc), mode='approx', budget=B) for wc in ('AUTO', 'FAST', 'STABLE', 'CHEBFUN')]
    out += [dict(name=f"qdelta-{i}", fn='run', params=dict(family='qdelta', i=i), mode='approx', budget=B) for i in range(3)]
    out += [dict(name=n, fn='run', params=dict(family=n), mode='approx', budget=B) for n in ('matrices', 'fejer', 'functions', 'sparse', 'solvers', 'ordersdc')]
    return out


def flat(outs):
    r = []
    for a in outs:
        if hasattr(a, 'toarray'):
            a = a.toarray()
        if hasattr(a, 'ndim'):
            r.append((tuple(a.shape), list(a.ravel())))
        elif isinstance(a, (list, tuple)):
            r += flat(a)
        else:
            r.append(((), [a]))
    return r


def run(q, H, family, **kw):
    reqs = globals()['f_' + family](q, H, **kw)
    other = H.fresh()
    kept, ref = {}, {}
    state = H.np.geterr()

    def compare(label, i, outs):
        H.same(f'{label} {reqs[i][0]}: error state of numpy', H.np.geterr(), state)
        got = flat(outs)
        H.same(f'{label} {reqs[i][0]}: shapes', [s for s, _ in got], [s for s, _ in ref[i]])
        for k, ((_, a), (_, b)) in enumerate(zip(got, ref[i])):
            if all(isinstance(x, (str, bool)) or x is None for x in b):
                H.same(f'{label} {reqs[i][0]} {k}', a, b)
            else:
                H.eq(f'{label} {reqs[i][0]} {k}', H.arr(a) - H.arr(b), 0 * H.arr(b))
    for i in reversed(range(len(reqs))):
        ref[i] = flat(reqs[i][2](other, reqs[i][1](other)))
    for i, (label, make, ask) in enumerate(reqs):
        kept[i] = make(q)
        compare('other order', i, ask(q, kept[i]))
    for i, (label, make, ask) in enumerate(reqs):
        compare('again', i, ask(q, kept[i]))
    for i, (label, make, ask) in reversed(list(enumerate(reqs))):
        compare('new object', i, ask(q, make(q)))


def f_nodes(q, H, sizes):
    def req(nt, qt, n):
        def ask(p, g):
            r = [g.getNodes(n)]
            if nt != 'EQUID':
                r += list(g.getOrthogPolyCoefficients(n)) + list(g.getTridiagCoefficients(n))
            return r
        return (f'{nt} {qt} {n}', lambda p: p.nodes.NodesGenerator(nt, qt), ask)
    one = ('GAUSS', 'RADAU-RIGHT')
    mixed = [req(nt, qt, n) for n in sizes for nt in TYPES for qt in QUADS if n > 1 or qt in one]
    return mixed + [req(nt, qt, n) for nt in TYPES for qt in QUADS for n in sizes[-3:]]


def f_types(q, H, sizes):
    """Node types directly after each other."""
    def req(nt, qt, n):
        return (f'{nt} {qt} {n}', lambda p: p.nodes.NodesGenerator(nt, qt), lambda p, g: [g.getNodes(n)])
    return [req(nt, qt, n) for n in sizes for qt in QUADS for nt in TYPES] + [req(nt, qt, n) for n in sizes for qt in QUADS for nt in TYPES[1::2] + TYPES[2::2]]


def f_mixed(q, H):
    return [colls(H, nt, qt, n, (0, 1)) for n in (2, 3) for nt in TYPES for qt in QUADS]


def colls(H, nt, qt, n, t):
    def ask(p, g):
        r = [g.nodes, g.weights, g.Q, g.S, g.T, g.order, g.rightIsNode]
        for f in ('Z2N', 'N2N'):
            r += list(g.genCoeffs(f, True))
            r += list(p.qcoeff.genQCoeffs('Collocation', f, nNodes=n, nodeType=nt, quadType=qt, tLeft=t[0], tRight=t[1]))
        return r + [g.approx.getInterpolationMatrix([t[0]]), g.approx.getIntegrationMatrix([t])]
    return (f'{n} {nt} {qt} {t}', lambda p: p.coll.Collocation(n, nt, qt, tLeft=t[0], tRight=t[1]), ask)


def f_coll(q, H, nt, N):
    """All quadrature types on fixed intervals."""
    z = H.real('z')
    ints = [(0, 1), (-1, 1), (0, 2), (H.frac(1, 2), 1)]

    def scaled(r):
        return r[:2] + (lambda p, g: [z * x for x in r[2](p, g)[:3]] + r[2](p, g),)
    return [scaled(colls(H, nt, qt, n, t)) for n in range(2, N + 1) for qt in QUADS for t in (ints if n == 2 else ints[:2])]


def f_intervals(q, H, qt):
    """Symbolic intervals."""
    a, b = H.real('a', lo=-1, hi=1), H.real('b', lo=H.frac(1, 4), hi=1)
    nt = H.choice('type', TYPES)
    return [colls(H, nt, qt, 2, t) for t in ((a, a + b), (a, a + 2 * b), (a - b, a), (a, a + b))]


def f_rk(q, H, i):
    names = []
    for c in q.butcher.RK_SCHEMES.values():
        if c.__name__ not in names:
            names.append(c.__name__)

    def req(n, pad):
        def ask(p, g):
            emb = g.b2 is not None
            r = [g.nodes, g.weights, g.Q, g.S, g.order]
            for f in ('Z2N', 'N2N'):
                for x in list(g.genCoeffs(f, True, emb)) + list(p.qcoeff.genQCoeffs(n, f, embedded=emb, padding=pad)):
                    r += list(x) if isinstance(x, tuple) else [x]
            return r
        return (f'{n} {pad}', lambda p: p.butcher.RK_SCHEMES[n](padding=pad), ask)
    pads = [None, 'LEFT', 'RIGHT', 'BOTH']
    return [req(n, pad) for n in names for pad in (pads[i], pads[(i + 1) % 4])]


def f_lagrange(q, H, wc):
    x0, h = H.real('x0', lo=-1, hi=1), H.real('h', lo=H.frac(1, 8), hi=2)
    x = [x0, x0 + h, x0 + 3 * h]
    y, z = x0 + 4 * h, x0 + 6 * h
    e = (x[0] + x[1]) / 2
    sets = [[x[0], x[1], x[2]], [x[2], x[1], x[0]], [x[0], x[1], y], [x[0], e, x[2]], [x[1], x[2], y], [x[0], y, z], [x[1], x[2]], [x[0], x[1], x[2], y],
            [x[0], x[1], x[0], x[2]], [x[0], x[1], x[2], x[2]], [x[0], x[0], x[1], x[2]], [x0, x0 + 2 * h, x0 + 6 * h], [x[0] - h, x[1] - h, x[2] - h]]

    def req(k, **kw):
        def ask(p, A):
            r = [A.weights]
            for d in (True, False):
                for ts in ([z + h, z + 2 * h], [z + 2 * h], [z + 2 * h, z + h]):
                    r.append(A.getInterpolationMatrix(H.arr(ts), duplicates=d))
                for ts in ([(z, z + h)], [(z, z + 2 * h)], [(z + h, z), (z, z + h)]):
                    for nq in ('FEJER', 'LEGENDRE_NUMPY'):
                        r.append(A.getIntegrationMatrix(H.arr(ts), numQuad=nq, duplicates=d))
                for o in (2, 1):
                    r.append(A.getDerivativeMatrix(order=o, duplicates=d))
                r += list(A.getDerivativeMatrix(order='ALL', duplicates=d))
            n = len(sets[k])
            return r + [A(z + h, fValues=H.arr(range(1, n + 1))), A(H.arr([z + h, z + 2 * h]), fValues=H.arr(range(n)))]
        return (f'{k} {kw}', lambda p: p.lagrange.LagrangeApproximation(H.arr(sets[k]), weightComputation=wc, **kw), ask)
    reqs = [req(k) for k in range(len(sets))]
    reqs += [req(k, scaleWeights=True, scaleRef=s) for k in (0, 2, 7) for s in ('MAX', 'ZERO')]
    return reqs + [req(8, duplicates='USE_RIGHT'), req(8), req(9, duplicates='USE_RIGHT')]


def stubs(H):
    """The root finder and minimiser as functions of the problem: of the size here."""
    roots = {}

    def root(f, x0):
        n = x0.size
        if n not in roots:
            roots[n] = [H.real(f'r{n}{i}', lo=H.frac(1, 8), hi=1) for i in range(n)]
        return H.arr(roots[n])
    H.hooks(fsolve=root, minimize=lambda f, x0: H.arr([1 + H.frac(i, 8) for i in range(x0.size)]))


def f_qdelta(q, H, i):
    stubs(H)
    names = []
    for c in q.qdelta.QDELTA_GENERATORS.values():
        if c.__name__ not in names and c.__name__ not in ('MIN3', 'MIN_VDHS'):
            names.append(c.__name__)
    names = names[::-1] if i == 1 else names
    args = [(2, 'LEGENDRE', 'RADAU-RIGHT'), (3, 'LEGENDRE', 'RADAU-RIGHT'), (2, 'LEGENDRE', 'GAUSS'), (2, 'EQUID', 'RADAU-RIGHT'), (3, 'LEGENDRE', 'GAUSS')]
    args = [args[i], args[i + 1], args[i + 2]]

    def req(n, a):
        def ask(p, g):
            g, C = g
            r = [g.dTau]
            for k in (None, 1, 3, 2):
                r += [g.getQDelta(k), g.getSDelta(k)]
            return r + [p.qdelta.genQDeltaCoeffs(n, qGen=C, k=2), p.qdelta.genQDeltaCoeffs(n, qGen=C, nSweeps=3), p.qdelta.genQDeltaCoeffs([n, 'BE'], nSweeps=2, form='N2N', qGen=C)]

        def make(p):
            C = p.coll.Collocation(*a)
            return p.qdelta.QDELTA_GENERATORS[n](qGen=C), C
        return (f'{n} {a}', make, ask)
    return [req(n, a) for n in names for a in args]


def f_matrices(q, H):
    """Generators from matrices and nodes of the caller."""
    stubs(H)
    Q = [[H.real('qa', lo=H.frac(1, 4), hi=1), H.real('qb', lo=-1, hi=1)], [H.real('qc', lo=-1, hi=1), H.real('qd', lo=-1, hi=1)]]
    H.assume(Q[0][0] * Q[1][1] - Q[0][1] * Q[1][0] > 0)
    Q2 = [[Q[0][0], Q[0][1]], [2 * Q[1][0], 2 * Q[1][1]]]
    x = [H.real('x0', lo=H.frac(1, 8), hi=1), H.real('x1', lo=H.frac(1, 4), hi=2)]
    H.increasing(x)
    xs = [x, [x[0], x[1] + 1], [x[0] / 2, x[1]], [x[0], x[1], x[1] + 1]]

    def req(n, label, kw, ks=(None, 1, 3)):
        def ask(p, g):
            return [g.dTau] + [g.getQDelta(k) for k in ks] + [p.qdelta.genQDeltaCoeffs(n, k=2, **kw(p))]
        return (f'{n} {label}', lambda p: p.qdelta.QDELTA_GENERATORS[n](**kw(p)), ask)
    reqs = []
    for n in ('PIC', 'Exact', 'LU', 'LU2', 'QPar', 'GS', 'LDU', 'MIN'):
        for i, A in enumerate((Q, Q2)):
            reqs.append(req(n, i, lambda p, A=A: dict(Q=H.arr(A))))
    for n in ('BE', 'FE', 'TRAP', 'BEPAR', 'TRAPAR', 'SOE'):
        for i, y in enumerate(xs):
            for t in (0, -1):
                reqs.append(req(n, (i, t), lambda p, y=y, t=t: dict(nodes=H.arr(y), tLeft=t)))
    for n in ('MIN_SR_NS', 'Jumper', 'FlexJumper', 'DNODES', 'DNODES2', 'DNODES3', 'DNODES4', 'DNODES5'):
        for i, y in enumerate(xs):
            reqs.append(req(n, i, lambda p, y=y: dict(nodes=H.arr(y))))
    return reqs


def f_fejer(q, H):
    t = H.real('t', lo=-1, hi=1)

    def req(n):
        return (f'{n}', lambda p: None, lambda p, g: list(p.lagrange.computeFejerRule(n)) + [t * p.lagrange.computeFejerRule(n)[1]])
    return [req(n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 4, 2)]


def f_functions(q, H):
    A = [[H.real('a', lo=1), H.real('b')], [H.real('c', lo=-1, hi=0), H.real('d', lo=1)]]
    H.assume(A[0][0] * A[1][1] - A[0][1] * A[1][0] > 0)
    mats = [A, [[A[0][0], A[0][1]], [A[1][0], 2 * A[1][1] + A[0][1] * A[1][0]]], [[2, 1], [1, 3]], [[A[0][0], 0], [A[1][0], A[1][1]]]]
    H.assume(mats[1][0][0] * mats[1][1][1] - mats[1][0][1] * mats[1][1][0] > 0)
    reqs = [(f'LDU {i}', lambda p: None, lambda p, g, M=M: list(p.num.lduFactorization(H.arr(M)))) for i, M in enumerate(mats)]
    x = H.reals('x', 3)
    H.increasing(x)
    t, s = H.real('t'), H.real('s')
    for i, y in enumerate(([x[0], x[1], x[2]], [x[0], x[1], x[2] + 1], [x[0], x[2], x[1]], [x[0], x[1]])):
        for j, ts in enumerate(([t, s], [s, t], [t])):
            for o in (None, 1, 0, 2):
                if o is None or o < len(y):
                    reqs.append((f'extrapolation {i} {j} {o}', lambda p: None, lambda p, g, y=y, ts=ts, o=o: [p.num.getExtrapolationMatrix(H.arr(y), H.arr(ts), o)]))
    e = H.reals('e', 3, lo=H.frac(1, 16), hi=4)
    for i, (n, err) in enumerate((([1, 2, 4], e), ([1, 2, 8], e), ([1, 2, 4], [e[0], e[1], 2 * e[2]]), ([1, 2], e[:2]))):
        reqs.append((f'order {i}', lambda p: None, lambda p, g, n=n, err=err: list(p.num.numericalOrder(list(n), H.arr(err)))))
    return reqs


def f_sparse(q, H):
    P = H.real('P', lo=H.frac(1, 4), hi=8)
    x0 = H.choice('translation', (0, H.frac(1, 3)))
    X = [P * (x0 + H.frac(k, 16)) for k in (1, 3, 4, 8)]
    reqs = []
    for i, pts in enumerate((X, X[:3], X[1:], [X[0], X[1], X[3]])):
        for j, ts in enumerate(([P * (x0 + H.frac(3, 32)), P * (x0 + H.frac(11, 32))], [P * (x0 + H.frac(5, 32))], [P * (x0 + H.frac(3, 32)), P * (x0 + H.frac(13, 32))])):
            for o in (2, 1, 3):
                for per in (-1, P, 2 * P) if o == 2 else (-1,):
                    reqs.append((f'{i} {j} {o} {len(reqs)}', lambda p: None,
                                 lambda p, g, a=(pts, ts, o, per): [p.lagrange.getSparseInterpolationMatrix(H.arr(a[0]), H.arr(a[1]), a[2], gridPeriod=a[3])]))
    return reqs


def f_solvers(q, H):
    lam, u0, T = H.real('lam', lo=-4, hi=0), H.real('u0', lo=1, hi=2), H.real('T', lo=H.frac(1, 4), hi=2)
    a, b = H.real('a', lo=0, hi=1), H.real('b', lo=0, hi=1)
    Qs = [[[a, 0], [b, a]], [[a, 0], [b, b]]]
    Ds = [[[b, 0], [a, a]], [[b, 0], [a, b]]]
    w = [a, b]
    reqs = []
    for i, (lm, u, t, n) in enumerate(((lam, u0, 1, 2), (lam, u0, T, 2), (lam, u0, 1, 1), (2 * lam, u0, 1, 2), (lam, 2 * u0, 1, 2))):
        for m in ('RK2', 'BE', 'HEUN'):
            for c in ('solveDahlquist', 'errorDahlquist') if i < 3 else ('solveDahlquist',):
                if c == 'errorDahlquist' and m != 'BE':
                    continue
                if m in q.butcher.RK_SCHEMES:
                    reqs.append((f'{c} {m} {i}', lambda p, m=m: p.butcher.RK_SCHEMES[m](), lambda p, g, c=c, v=(lm, u, t, n): [getattr(g, c)(*v)]))
        for j, Q in enumerate(Qs):
            for k, D in enumerate(Ds + [Ds]):
                for W in (None, w) if j == k == 0 else (w,):
                    reqs.append((f'SDC {i} {j} {k} {W is None}', lambda p: None,
                                 lambda p, g, v=(lm, u, t, n), Q=Q, D=D, W=W: [p.sdc.solveDahlquistSDC(*v, 2, H.arr(Q), H.arr(D), None if W is None else H.arr(W))]))
    return reqs


def f_ordersdc(q, H):
    reqs = []
    z = H.real('z')
    for nt in ('LEGENDRE', 'EQUID'):
        for qt in ('GAUSS', 'RADAU-RIGHT', 'LOBATTO'):
            for M in (2, 3):
                for K in (0, 1, 2, 4):
                    for d in ('BE', 'LU', 'MIN-SR-S', 'TRAP'):
                        for s in ('LASTNODE', 'QUADRATURE'):
                            if qt == 'GAUSS' and s == 'LASTNODE':
                                continue
                            reqs.append((f'{nt} {qt} {M} {K} {d} {s}', lambda p, a=(M, nt, qt): p.coll.Collocation(*a),
                                         lambda p, g, a=(K, d, s): [p.sdc.getOrderSDC(g, *a) * z]))
    return reqs
