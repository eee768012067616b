"""C14: zero-to-node and node-to-node forms are exact transforms of each other; composition of coefficient tuples."""

BOUNDS = ("arbitrary real tables with 1..6 stages (quick) / 1..9 (thorough; given nodes from 3 on); tables of 11, 16, 24 stages with a symbolic row, column and diagonal; collocation with 2..6 (quick) / 2..7 (thorough) EQUID nodes and any interval; "
          "QDelta of any real matrix up to 8x8 (quick) / 12x12 (thorough) and of any 1..7 (1..12) increasing nodes; all forms and flags")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)"]

QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']


def cases(tier):
    th = tier != 'quick'
    out = [dict(name=f"table-{s}", fn='table', params=dict(s=s), budget=60) for s in range(1, 10 if th else 7)]
    out += [dict(name=f"large-{s}", fn='large', params=dict(s=s), budget=60) for s in (11, 16, 24)]
    out += [dict(name=f"coll-{qt}-{n}", fn='coll', params=dict(qt=qt, n=n), budget=900 if th else 60)
            for qt in QUADS for n in range(2, 8 if th else 7)]
    out += [dict(name=f"sdelta-{n}", fn='sdelta', params=dict(n=n), budget=60) for n in ((1, 2, 3, 4, 6, 8, 12) if th else (1, 2, 3, 4, 8))]
    out += [dict(name=f"sdelta-nodes-{n}", fn='sdelta_nodes', params=dict(n=n), budget=60) for n in ((1, 2, 3, 5, 8, 12) if th else (1, 2, 3, 7))]
    out += [dict(name='refusals', fn='refusals', mode='approx'), dict(name='registered', fn='registered', mode='approx', budget=300)]
    return out


def tmat(n):
    return [[1 if i == j else -1 if i == j + 1 else 0 for j in range(n)] for i in range(n)]


def large(q, H, s):
    """Many stages: transfer matrices and forms of any table with a symbolic row, column and diagonal."""
    a, b = H.reals('a', s), H.reals('b', s)
    AA = [[a[i] if j == 0 else b[j] if i in (j, s - 1) else (i * j) % 7 - 3 for j in range(s)] for i in range(s)]
    bb, cc = a, [H.frac(i, s) for i in range(s)]

    class Mine(q.butcher.RK):
        A = AA
        b = bb
        c = cc

        @property
        def order(self):
            return 1
    q.butcher.registerRK(Mine)
    forms(H, 'large ', Mine())


def rowdiff(Q):
    return [[Q[i][j] - (Q[i - 1][j] if i else 0) for j in range(len(Q[0]))] for i in range(len(Q))]


def forms(H, label, g, exact=True):
    n = g.nNodes
    Q, S, T, Ti = tolist(g.Q), tolist(g.S), tolist(g.T), tolist(g.Tinv)
    H.eq(label + 'T', T, tmat(n))
    H.eq(label + 'T Tinv', matmul(T, Ti), ident(n))
    H.eq(label + 'S', S, rowdiff(Q))
    H.eq(label + 'T Q', matmul(T, Q), S)
    H.eq(label + 'Tinv S', matmul(Ti, S), Q)


def tuples(H, label, g, gen, emb):
    """Every combination of form and flags, from the object and the generic function."""
    n = g.nNodes
    form = H.choice('form', ('Z2N', 'N2N'))
    hc, em = H.choice('hCoeffs', (False, True)), H.choice('embedded', (False, True))
    if em and not emb:
        H.raises(label + 'no embedded', lambda: g.genCoeffs(form, hc, em), NotImplementedError)
        return
    w = [g.weights[i] for i in range(n)]
    ref = [g.nodes, [w, [g.weightsEmbedded[i] for i in range(n)]] if em else w, tolist(g.Q) if form == 'Z2N' else rowdiff(tolist(g.Q))]
    if hc:
        ref.append(g.hCoeffs)
    outs = [g.genCoeffs(form, hc, em), g.genCoeffs(form=form, hCoeffs=hc, embedded=em)]
    if form == 'Z2N':
        outs.append(g.genCoeffs(hCoeffs=hc, embedded=em))
    if gen is not None:
        outs.append(gen(form=form, hCoeffs=hc, embedded=em))
    for k, o in enumerate(outs):
        H.same(f'{label}number {k}', len(o), len(ref))
        for i in range(len(ref)):
            H.eq(f'{label}out {k} {i}', o[i], ref[i])


def table(q, H, s):
    A = [[H.real(f'A{i}{j}') for j in range(s)] for i in range(s)]
    b, b2 = H.reals('b', s), H.reals('e', s)
    c = [H.frac(i, s + 1) for i in range(s)] if s > 2 else H.reals('c', s)
    if s <= 2:
        H.increasing(c)
    AA, bb, cc, ee = A, b, c, b2

    class Mine(q.butcher.RK):
        A = AA
        b = bb
        c = cc
        b2 = ee
        aliases = ['MyAlias']

        @property
        def order(self):
            return 4
    q.butcher.registerRK(Mine)
    g = Mine()
    forms(H, '', g)
    H.same('nNodes', g.nNodes, s)
    H.true('rightIsNode', bool(g.rightIsNode) == bool(c[-1] == 1))
    H.same('orderEmbedded', g.orderEmbedded, 3)
    H.eq('h', g.hCoeffs, [cardinal(c, j, 1) for j in range(s)])
    alias = H.choice('alias', ('Mine', 'MyAlias'))
    tuples(H, '', g, lambda **k: q.qcoeff.genQCoeffs(alias, **k), True)


def coll(q, H, qt, n):
    a, h = H.real('tLeft'), H.real('length', lo=0, open_=True)
    P = dict(nNodes=n, nodeType='EQUID', quadType=qt, tLeft=a, tRight=a + h)
    g = q.coll.Collocation(**P)
    forms(H, '', g)
    alias = H.choice('alias', ('Collocation', 'coll'))
    tuples(H, '', g, lambda **k: q.qcoeff.genQCoeffs(alias, **P, **k), False)


def registered(q, H):
    """Every registered class with its default parameters."""
    for n, cls in q.utils.getClasses(q.qcoeff.Q_GENERATORS).items():
        g = cls.getInstance()
        forms(H, n + ' ', g)
        for hc in (False, True):
            o = g.genCoeffs('N2N', hCoeffs=hc)
            H.eq(n + ' S', o[2], rowdiff(tolist(g.Q)))
            H.same(n + ' len', len(o), 4 if hc else 3)
        x = o[3]
        H.eq(n + ' h sums to one', sum(x[i] for i in range(g.nNodes)), 1)


def sdelta(q, H, n):
    Q = [[H.real(f'q{i}{j}') for j in range(n)] for i in range(n)]
    name = H.choice('type', ('Exact', 'GS', 'QPar', 'PIC'))
    gen = q.qdelta.QDELTA_GENERATORS[name](Q=H.arr(Q))
    QD = tolist(gen.getQDelta())
    S = rowdiff(QD)
    H.eq('getSDelta', gen.getSDelta(), S)
    H.eq('N2N', gen.genCoeffs(form='N2N'), S)
    H.eq('Z2N', gen.genCoeffs(form='Z2N'), QD)
    H.eq('default', gen.genCoeffs(), QD)
    H.eq('generic N2N', q.qdelta.genQDeltaCoeffs(name, form='N2N', Q=H.arr(Q)), S)
    out = gen.genCoeffs(form='N2N', dTau=True)
    H.same('with dTau', len(out), 2)
    H.eq('S with dTau', out[0], S)
    H.eq('dTau', out[1], [0] * n)
    L = gen.genCoeffs(k=[1, 2, 3], form='N2N')
    H.eq('list', L, [S, S, S])
    # the transformation back
    Ti = [[1 if j <= i else 0 for j in range(n)] for i in range(n)]
    H.eq('Tinv S', matmul(Ti, tolist(gen.getSDelta())), QD)


def sdelta_nodes(q, H, n):
    x = H.reals('x', n)
    H.increasing(x)
    t = H.real('tLeft')
    H.assume(t < x[0])
    name = H.choice('type', ('BE', 'FE', 'TRAP', 'TRAPAR', 'MIN-SR-NS', 'Jumper', 'FlexJumper', 'DNODES'))
    gen = q.qdelta.QDELTA_GENERATORS[name](nodes=H.arr(x), tLeft=t)
    k = H.choice('k', (None, 1, 3))
    S = rowdiff(tolist(gen.getQDelta(k)))
    H.eq('getSDelta', gen.getSDelta(k), S)
    H.eq('genCoeffs', gen.genCoeffs(k, 'N2N'), S)
    kk = [1, 2] if k is None else [k, k + 1]
    H.eq('list', gen.genCoeffs(kk, form='N2N'), [rowdiff(tolist(gen.getQDelta(j))) for j in kk])
    out = q.qdelta.genQDeltaCoeffs(name, nSweeps=2, form='N2N', dTau=True, nodes=H.arr(x), tLeft=t)
    H.eq('generic', out[0], [rowdiff(tolist(gen.getQDelta(j))) for j in (1, 2)])
    H.eq('generic dTau', out[1], gen.dTau)


def refusals(q, H):
    form = H.choice('form', ('Q', 'z2n', '', None, 'N2Z'))
    g = q.coll.Collocation(2, 'EQUID', 'LOBATTO')
    H.raises('form', lambda: g.genCoeffs(form=form), ValueError)
    H.raises('generic form', lambda: q.qcoeff.genQCoeffs('RK4', form=form), ValueError)
    H.raises('type', lambda: q.qcoeff.genQCoeffs('NOPE'), ValueError)
    H.raises('parameters', lambda: q.qcoeff.genQCoeffs('Collocation'), TypeError)
    gen = q.qdelta.QDELTA_GENERATORS['BE'](nodes=g.nodes)
    H.raises('QDelta form', lambda: gen.genCoeffs(form=form), ValueError)
    H.raises('generic QDelta form', lambda: q.qdelta.genQDeltaCoeffs('BE', form=form, nodes=g.nodes), ValueError)
    for a in ('nodes', 'Q', 'weights', 'order', 'weightsEmbedded'):
        H.raises('abstract ' + a, lambda: getattr(q.qcoeff.QGenerator(), a), NotImplementedError)
    H.raises('abstract QDelta', lambda: q.qdelta.QDeltaGenerator(Q=g.Q).getQDelta(), NotImplementedError)
