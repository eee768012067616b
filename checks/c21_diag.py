"""C21: node-scaled diagonal QDelta have their documented divisors at every sweep."""

BOUNDS = ("any increasing nodes, 1..6 (quick) / 1..16 (thorough), sweeps none, 1..M+4 and as a symbolic integer in -3..1000; MIN-SR-FLEX for all node and quadrature types "
          "with 1..8 (quick) / 1..12 (thorough) nodes; nilpotency for any distinct nodes (1..3 quick, 1..4 thorough) and for collocation matrices applied to any vector")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "scipy's root finder and minimiser return arbitrary vectors (one per problem size)"]

NAMES = {'MIN_SR_NS': ['MIN_SR_NS', 'MIN-SR-NS', 'MIN_GT'], 'DNODES': ['DNODES', 'DNODES-1'], 'DNODES2': ['DNODES2', 'DNODES-2'],
         'DNODES3': ['DNODES3', 'DNODES-3'], 'DNODES4': ['DNODES4', 'DNODES-4'], 'DNODES5': ['DNODES5', 'DNODES-5'],
         'Jumper': ['Jumper', 'JUMPER', 'FB'], 'FlexJumper': ['FlexJumper', 'FLEX-JUMPER', 'FB2']}
FLEX = ['MIN_SR_FLEX', 'MIN-SR-FLEX']
TYPES = ['EQUID', 'LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']


def cases(tier):
    th = tier != 'quick'
    b = 900 if th else 60
    out = []
    for n in NAMES:
        for M in range(1, 17 if th else 7):
            out.append(dict(name=f"{n}-M{M}", fn='scaled', params=dict(name=n, M=M), budget=b))
        out.append(dict(name=f"{n}-integers", fn='integers', params=dict(name=n), budget=b))
    for n in list(NAMES) + FLEX[:1]:
        for M in (1, 2, 3, 5) if th else (1, 3):
            out.append(dict(name=f"{n}-anysweep-{M}", fn='anysweep', params=dict(name=n, M=M), mode='approx' if n in FLEX else 'exact', budget=b))
    for M in (1, 2, 3, 4) if th else (1, 2, 3):
        out.append(dict(name=f"nilpotent-{M}", fn='nilpotent', params=dict(M=M), budget=b))
    for nt in TYPES:
        for qt in QUADS:
            for M in range(2 if qt in ('LOBATTO', 'RADAU-LEFT') else 1, 13 if th else 9):
                out.append(dict(name=f"flex-{nt}-{qt}-{M}", fn='flex', params=dict(nt=nt, qt=qt, M=M), mode='approx', budget=b))
    return out


def divisor(name, k, M):
    if name == 'MIN_SR_NS':
        return M
    if name.startswith('DNODES'):
        return int(name[6:] or 1)
    k = 1 if k is None else k
    if name == 'Jumper':
        return 2 * k
    return 1 if k == 1 else 2 * (k - 1)


def scaled(q, H, name, M):
    x = H.reals('x', M)
    H.increasing(x)
    how = H.choice('calling', ('object', 'position', 'generator'))
    alias = (NAMES[name] * 3)[('object', 'position', 'generator').index(how)]
    cls = q.qdelta.QDELTA_GENERATORS[alias]
    if how == 'generator':
        class Gen(q.qcoeff.QGenerator):
            nodes = H.arr(x)
            Q = weights = order = None
        g = cls(qGen=Gen())
    else:
        g = cls(nodes=H.arr(x)) if how == 'object' else cls(x)
    dep = name in ('Jumper', 'FlexJumper')
    H.same('k-dependent', bool(g.isKDependent()), dep)
    H.same('size', g.size, M)
    ks = [None] + list(range(1, M + 5))
    k0 = H.choice('first', ks)
    for k in [k0] + ks:
        H.eq(f'sweep {k}', g.getQDelta(k), H.arr(diagm([a / divisor(name, k, M) for a in x])))
    H.eq('default sweep', g.getQDelta(), H.arr(diagm([a / divisor(name, None, M) for a in x])))
    H.eq('computed', cls(nodes=x).computeQDelta(), H.arr(diagm([a / divisor(name, None, M) for a in x])))
    L = g.genCoeffs(k=[3, 1, 2])
    H.same('shape', tuple(L.shape), (3, M, M))
    for i, k in enumerate((3, 1, 2)):
        H.eq(f'list {i}', L[i], H.arr(diagm([a / divisor(name, k, M) for a in x])))
    H.eq('delta_tau', g.dTau, [0] * M)
    if dep:
        for k in (0, -1, -5):
            H.raises(f'sweep {k}', lambda: g.getQDelta(k), ValueError)
            H.raises(f'sweep {k} in a list', lambda: g.genCoeffs(k=[1, k]), ValueError)
        G = q.qdelta.genQDeltaCoeffs(alias, nSweeps=M + 3, nodes=x)
        for k in range(1, M + 4):
            H.eq(f'generic {k}', G[k - 1], H.arr(diagm([a / divisor(name, k, M) for a in x])))


def anysweep(q, H, name, M):
    """The sweep number itself is a symbolic integer."""
    k = H.intvar('k', -3, 1000)
    k1 = H.intvar('k1', 1, 1000)
    first = H.choice('first', (False, True))
    if name in FLEX:
        H.hooks(fsolve=lambda f, x0: H.arr([H.frac(1, 2)] * x0.size), minimize=lambda f, x0: H.arr([1, 1]))
        g = q.qdelta.QDELTA_GENERATORS[name](M, 'LEGENDRE', 'RADAU-RIGHT')
        x = list(g.coll.nodes)
        S = q.qdelta.QDELTA_GENERATORS['MIN-SR-S'](M, 'LEGENDRE', 'RADAU-RIGHT').getQDelta()
    else:
        x = H.reals('x', M)
        H.increasing(x)
        g = q.qdelta.QDELTA_GENERATORS[name](nodes=x)
    dep = name in ('Jumper', 'FlexJumper') + tuple(FLEX)

    def expected(k):
        if name in FLEX:
            return S if k > M else H.arr(diagm([a / k for a in x]))
        return H.arr(diagm([a / divisor(name, k, M) for a in x]))
    if first:
        H.eq('another sweep before', g.getQDelta(k1), expected(k1))
    if dep and k < 1:
        H.raises('sweep', lambda: g.getQDelta(k), ValueError)
        H.raises('computed', lambda: g.computeQDelta(k), ValueError)
        H.raises('in a list', lambda: g.genCoeffs(k=[1, k]), ValueError)
        return
    H.eq('sweep', g.getQDelta(k), expected(k))
    H.eq('sweep again', g.getQDelta(k), expected(k))
    H.eq('computed', g.computeQDelta(k), expected(k))
    L = g.genCoeffs(k=[k, k1])
    H.eq('list 0', L[0], expected(k))
    H.eq('list 1', L[1], expected(k1))


def integers(q, H, name):
    """Nodes given as integers are the same points."""
    x = H.choice('nodes', ([1, 2, 4], [1], [0, 1]))
    s = H.real('s')
    cls = q.qdelta.QDELTA_GENERATORS[name]
    for k in (1, 2, 3):
        H.eq(f'sweep {k}', s * cls(nodes=x).getQDelta(k), s * cls(nodes=H.arr(x)).getQDelta(k))


def collocation_matrix(x):
    return [[polyint(cardinal_coeffs(x, j), 0, x[i]) for j in range(len(x))] for i in range(len(x))]


def nilpotent(q, H, M):
    """Non-stiff limit: (Q - QDelta)^M = 0 for the Q of any nodes."""
    x = H.reals('x', M)
    H.increasing(x)
    Q = collocation_matrix(x)
    D = tolist(q.qdelta.genQDeltaCoeffs('MIN-SR-NS', nodes=x))
    P = E = [[a - b for a, b in zip(r, s)] for r, s in zip(Q, D)]
    for _ in range(M - 1):
        P = matmul(P, E)
    H.eq('power', H.arr(P), H.np.zeros((M, M)))


def flex(q, H, nt, qt, M):
    roots = {}

    def root(f, x0):
        n = x0.size
        if n not in roots:
            roots[n] = H.reals(f'r{n}', n, lo=-1, hi=1)
        return H.arr(roots[n])
    H.hooks(fsolve=root, minimize=lambda f, x0: H.arr([1, 1]))
    C = q.coll.Collocation(M, nt, qt)
    x, Q = list(C.nodes), tolist(C.Q)
    v = [H.real(f'v{i}', lo=-1, hi=1) for i in range(M)]
    how = H.choice('calling', (0, 1))
    cls = q.qdelta.QDELTA_GENERATORS[FLEX[how]]
    new = lambda: cls(qGen=C) if how else cls(M, nt, qt)
    g = new()
    H.same('k-dependent', bool(g.isKDependent()), True)
    H.same('size', g.size, M)
    ks = [None] + list(range(1, M + 4))
    S = q.qdelta.QDELTA_GENERATORS['MIN-SR-S'](M, nt, qt).getQDelta()
    H.same('MIN-SR-S', bool(q.qdelta.QDELTA_GENERATORS['MIN-SR-S'](M, nt, qt).isKDependent()), False)
    k0 = H.choice('first', (None, M + 1))
    for k in [k0] + ks:
        if k is not None and k > M:
            E = [sum(S[i, j] * v[j] for j in range(M)) for i in range(M)]
        else:
            E = [a * b / (k or 1) for a, b in zip(x, v)]
        D = g.getQDelta(k)
        H.eq(f'sweep {k}', [sum(D[i, j] * v[j] for j in range(M)) - E[i] for i in range(M)], [0] * M)
    D = new().getQDelta()
    H.eq('default sweep', [sum(D[i, j] * v[j] for j in range(M)) for i in range(M)], [a * b for a, b in zip(x, v)])
    for k in (0, -1, -5):
        H.raises(f'sweep {k}', lambda: g.getQDelta(k), ValueError)
    # sequence of stiff sweeps
    z = 1 if qt in ('LOBATTO', 'RADAU-LEFT') else 0
    v = v[z:]
    for k in range(1, M + 1):
        D = g.getQDelta(k)
        y = [sum(Q[i + z][j + z] * v[j] for j in range(M - z)) / D[i + z, i + z] for i in range(M - z)]
        v = [a - b for a, b in zip(v, y)]
    H.eq('nilpotent sequence', v, [0] * (M - z), 1e-18)
    # non-stiff limit
    v = [H.real(f'v{i}', lo=-1, hi=1) for i in range(M)]
    N = q.qdelta.genQDeltaCoeffs('MIN-SR-NS', qGen=C)
    for k in range(M):
        v = [sum((Q[i][j] - N[i, j]) * v[j] for j in range(M)) for i in range(M)]
    H.eq('nilpotent power', v, [0] * M, 1e-18)
