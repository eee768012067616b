"""C18: time-stepping QDelta are the coefficients of the schemes they are named after."""

BOUNDS = ("any increasing nodes and left bound not above them; 1..8, 10, 13, 16 nodes (SOE 1..8, 10; quick) / 1..24 (thorough; SOE 1..14); any left bound, between or beyond the nodes too, for 1, 2, 3, 5, 9 nodes (not SOE); zero-to-nodes and node-to-node forms, delta_tau, "
          "names and aliases, generator objects and generic function, parameters given separately or through a Q-generator")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)"]

NAMES = {'BE': ['BE', 'IE'], 'FE': ['FE', 'EE'], 'TRAP': ['TRAP', 'CN'], 'BEPAR': ['BEPAR', 'IEpar'], 'TRAPAR': ['TRAPAR'], 'SOE': ['SOE', 'LeapFrog', 'LF']}


def cases(tier):
    th = tier != 'quick'
    out = []
    for n in NAMES:
        for M in list(range(1, 9)) + ([10] if n == 'SOE' else [10, 13, 16]) if not th else range(1, 15 if n == 'SOE' else 25):
            out.append(dict(name=f"{n}-M{M}", fn='scheme', params=dict(name=n, M=M), budget=900 if th else 100))
        if n != 'SOE':
            for M in (1, 2, 3, 5, 9):
                out.append(dict(name=f"{n}-anywhere-M{M}", fn='scheme', params=dict(name=n, M=M, left=None), budget=60))
    for n in NAMES:
        for M in (2, 3):
            out.append(dict(name=f"{n}-leftnode-M{M}", fn='scheme', params=dict(name=n, M=M, left=True), budget=60))
        out.append(dict(name=f"{n}-integers", fn='integers', params=dict(name=n), budget=60))
        out.append(dict(name=f"{n}-default", fn='default', params=dict(name=n, M=3), budget=60))
    return out


def closed(name, t):
    """Coefficients and delta_tau for the times t = [left bound, nodes...]."""
    M = len(t) - 1
    h = [t[i + 1] - t[i] for i in range(M)]
    imp = [[h[j] if j <= i else 0 for j in range(M)] for i in range(M)]
    exp = [[h[j + 1] if j < i else 0 for j in range(M)] for i in range(M)]
    x = [t[i + 1] - t[0] for i in range(M)]
    if name == 'BE':
        return imp, [0] * M
    if name == 'FE':
        return exp, [h[0]] * M
    if name == 'TRAP':
        return [[(a + b) / 2 for a, b in zip(r, s)] for r, s in zip(imp, exp)], [h[0] / 2] * M
    if name == 'BEPAR':
        return diagm(x), [0] * M
    return diagm([y / 2 for y in x]), [y / 2 for y in x]


def scheme(q, H, name, M, left=False):
    t0 = H.real('t0')
    x = H.reals('x', M)
    H.increasing(x)
    if left:
        x[0] = t0 * 1
        H.assume(x[1] > t0)
    elif left is None:
        H.prefer(t0 > x[0] + H.frac(1, 4))          # the left bound may be any number
    else:
        H.assume(x[0] > t0)
        H.prefer(x[0] > t0 + H.frac(1, 4))
    alias = H.choice('alias', NAMES[name])
    nodes = H.choice('container', (H.arr, list, tuple))(x)
    how = H.choice('calling', ('object', 'generic', 'position'))
    if how == 'generic':
        Q, dt = q.qdelta.genQDeltaCoeffs(alias, nodes=nodes, tLeft=t0, dTau=True)
        S = q.qdelta.genQDeltaCoeffs(alias, form='N2N', nodes=nodes, tLeft=t0)
    else:
        cls = q.qdelta.QDELTA_GENERATORS[alias]
        g = cls(nodes=nodes, tLeft=t0) if how == 'object' else cls(nodes, t0)
        Q, dt, S = g.getQDelta(), g.dTau, g.getSDelta()
        H.same('size', g.size, M)
    H.same('shape', tuple(Q.shape), (M, M))
    H.same('shape of delta_tau', tuple(dt.shape), (M,))
    t = [t0] + x
    if name != 'SOE':
        E, d = closed(name, t)
        H.eq('matrix', Q, H.arr(E), ctol=1e-11)
        H.eq('delta_tau', dt, H.arr(d), ctol=1e-11)
        for i in range(M):
            H.eq(f'row sum {i}', sum(Q[i, j] for j in range(M)) + dt[i], x[i] - t0, ctol=1e-11)
    else:
        for j in range(M):
            for i in range(j + 1):
                H.eq(f'upper part {i},{j}', Q[i, j], 0)
        for m in range(1, M):
            if m == 1 and left:
                H.eq('first step', Q[1, 0], x[1] - t0)
                continue
            a, b, c = t[m - 1], t[m], t[m + 1]
            am, a0, ap = (b - c) / ((a - b) * (a - c)), 1 / (b - a) + 1 / (b - c), (b - a) / ((c - a) * (c - b))
            for j in range(m):
                H.eq(f'leap frog {m},{j}', ap * Q[m, j] + a0 * Q[m - 1, j] + (am * Q[m - 2, j] if m > 1 else 0), 1 if j == m - 1 else 0)
    for i in range(M):
        for j in range(M):
            H.eq(f'node to node {i},{j}', S[i, j], Q[i, j] - (Q[i - 1, j] if i > 0 else 0))


def default(q, H, name, M):
    """Without left bound the nodes start from zero; with a Q-generator from its left bound."""
    x = H.reals('x', M)
    H.increasing(x)
    H.assume(x[0] > 0)
    cls = q.qdelta.QDELTA_GENERATORS[name]
    g, r = cls(nodes=H.arr(x)), cls(nodes=H.arr(x), tLeft=0)
    H.eq('default left bound', g.getQDelta(), r.getQDelta())
    H.eq('default left bound, delta_tau', g.dTau, r.dTau)
    if name != 'SOE':
        E, d = closed(name, [0] + x)
        H.eq('matrix', g.getQDelta(), H.arr(E))
    tL = H.real('tL', lo=-2, hi=2)
    L = H.real('L', lo=H.frac(1, 4), hi=2)
    C = q.coll.Collocation(M, 'EQUID', 'RADAU-RIGHT', tLeft=tL, tRight=tL + L)
    g, r = cls(qGen=C), cls(nodes=C.nodes, tLeft=tL)
    H.eq('from the Q-generator', g.getQDelta(), r.getQDelta())
    H.eq('from the Q-generator, delta_tau', g.dTau, r.dTau)


def integers(q, H, name):
    """Nodes given as integers are the same points."""
    t0 = H.real('t0', hi=0)
    x = H.choice('nodes', ([1, 2, 4], [1], [3, 5], [0, 1]))
    H.assume(x[0] > t0)
    cls = q.qdelta.QDELTA_GENERATORS[name]
    g, r = cls(nodes=x, tLeft=t0), cls(nodes=H.arr(x), tLeft=t0)
    H.eq('matrix', g.getQDelta(), r.getQDelta())
    H.eq('delta_tau', g.dTau, r.dTau)
