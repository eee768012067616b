"""C13: padding a Runge-Kutta table does not change the method."""

BOUNDS = ("arbitrary real tables (A, b, c, embedded b) with 1..6 stages (quick) / 1..9 (thorough), all paddings, up to three instances of the class; "
          "every registered class with every padding")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)"]

PADS = ['LEFT', 'RIGHT', 'BOTH']


def cases(tier):
    th = tier != 'quick'
    out = [dict(name=f"s{s}-{'emb' if e else 'noemb'}", fn='pad', params=dict(s=s, emb=e), budget=60)
           for s in range(1, 10 if th else 7) for e in (True, False)]
    out.append(dict(name='registered', fn='registered', mode='approx', budget=300))
    out.append(dict(name='step', fn='step', params=dict(s=2), budget=60))
    if th:
        out.append(dict(name='step3', fn='step', params=dict(s=3), budget=900))
    out.append(dict(name='refusals', fn='refusals'))
    return out


def padded(pad, A, b, c, b2):
    """Reference: plain lists."""
    s = len(c)
    if pad in ('LEFT', 'BOTH'):
        A = [[0] * (s + 1)] + [[0] + r for r in A]
        b, c = [0] + b, [0] + c
        b2 = None if b2 is None else [0] + b2
    if pad in ('RIGHT', 'BOTH'):
        A = [r + [0] for r in A] + [b + [0]]
        b, c = b + [0], c + [1]
        b2 = None if b2 is None else b2 + [0]
    return A, b, c, b2


def same_table(H, label, g, A, b, c, b2):
    eq = lambda l, x, y: H.eq(l, x, y, ctol=1e-14)      # the entries are copied
    s = len(c)
    H.same(label + ' size', g.nNodes, s)
    eq(label + ' nodes', g.nodes, c)
    eq(label + ' weights', g.weights, b)
    eq(label + ' Q', g.Q, A)
    eq(label + ' attributes A', g.A, A)
    eq(label + ' attributes b', g.b, b)
    eq(label + ' attributes c', g.c, c)
    out = g.genCoeffs()
    eq(label + ' coeffs 0', out[0], c)
    eq(label + ' coeffs 1', out[1], b)
    eq(label + ' coeffs 2', out[2], A)
    if b2 is not None:
        eq(label + ' embedded', g.weightsEmbedded, b2)
        eq(label + ' coeffs embedded', g.genCoeffs(embedded=True)[1], [b, b2])
    else:
        H.raises(label + ' no embedded', lambda: g.weightsEmbedded, NotImplementedError)
        H.raises(label + ' no embedded coeffs', lambda: g.genCoeffs(embedded=True), NotImplementedError)


def pad(q, H, s, emb):
    A = [[H.real(f'A{i}{j}') for j in range(s)] for i in range(s)]
    b, c = H.reals('b', s), H.reals('c', s)
    b2 = H.reals('e', s) if emb else None
    AA, bb, cc, ee = A, b, c, b2

    class Mine(q.butcher.RK):
        A = AA
        b = bb
        c = cc
        b2 = ee

        @property
        def order(self):
            return 1
    q.butcher.registerRK(Mine)
    # several instances one after the other, each must be what a fresh class gives
    for k in range(3 if s == 2 else 2):
        p = H.choice(f'padding{k}', [None] + PADS)
        g = Mine() if p is None else (Mine(p) if k % 2 else Mine(padding=p))
        same_table(H, f'instance {k} ({p})', g, *padded(p, A, b, c, b2))
    same_table(H, 'class', Mine(), A, b, c, b2)
    H.eq('table of the class', Mine.A, A)
    H.eq('weights of the class', Mine.b, b)
    H.eq('nodes of the class', Mine.c, c)


def registered(q, H):
    p = H.choice('padding', PADS)
    for n, cls in q.butcher.RK_SCHEMES.items():
        if n != cls.__name__:
            continue
        ref = cls()
        A, b, c = [list(r) for r in tolist(ref.Q)], [x for x in ref.weights], [x for x in ref.nodes]
        b2 = None if ref.b2 is None else [x for x in ref.weightsEmbedded]
        g = q.qcoeff.Q_GENERATORS[n](padding=p)
        same_table(H, n + ' padded', g, *padded(p, A, b, c, b2))
        same_table(H, n, cls(), A, b, c, b2)
        o = q.qcoeff.genQCoeffs(n, padding=p)
        H.eq(n + ' genQCoeffs', o[2], padded(p, A, b, c, b2)[0], ctol=1e-14)
        H.same(n + ' order', (g.order, g.orderEmbedded), (ref.order, ref.orderEmbedded))


def step(q, H, s):
    """The step of a padded explicit method on a linear problem is the step of the method."""
    A = [[H.real(f'A{i}{j}') if j < i else 0 for j in range(s)] for i in range(s)]
    b, c, b2 = H.reals('b', s), H.reals('c', s), H.reals('e', s)
    AA, bb, cc, ee = A, b, c, b2

    class Mine(q.butcher.RK):
        A = AA
        b = bb
        c = cc
        b2 = ee

        @property
        def order(self):
            return 1
    q.butcher.registerRK(Mine)
    lam, u0 = H.real('lam'), H.real('u0')
    p = H.choice('padding', PADS)
    for emb in (False, True):
        u = Mine().solveDahlquist(lam, u0, 1, 1, useEmbeddedWeights=emb)
        v = Mine(padding=p).solveDahlquist(lam, u0, 1, 1, useEmbeddedWeights=emb)
        H.eq(f'step {emb}', v, u)


def refusals(q, H):
    bad = H.choice('padding', ['TOP', 'left', 'LEFTRIGHT', 1])
    H.raises('padding', lambda: q.butcher.RK_SCHEMES['RK4'](padding=bad), AssertionError)
    H.eq('table', q.butcher.RK_SCHEMES['RK4']().Q.sum(), H.frac(2))
