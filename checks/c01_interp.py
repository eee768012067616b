"""C01: barycentric interpolation reproduces every polynomial of degree < n."""

BOUNDS = ("n <= 4 points (quick; FAST, STABLE and CHEBFUN <= 3) / 5 (thorough; 4 scaled), any increasing reals; 1-2 evaluation times, any reals, "
          "coincident with points or not; 4..12 points (quick) / 4..24 (thorough) that are any translation and scaling of 5 patterns, and 16, 24, 32 (48) at 7 times; AUTO/FAST/STABLE/CHEBFUN weights with every scaling option; 280 times, 2 and 5 points of one pattern; times of rank 0-3; lists, tuples, integers; complex values for n <= 3; "
          "results after every two earlier calls (n = 2, 3)")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)"]


def cases(tier):
    out = []
    thorough = tier != 'quick'
    for wc in ('AUTO', 'FAST', 'STABLE', 'CHEBFUN'):
        big = (4 if wc == 'AUTO' else 3) + thorough
        for n in range(1, big + 1):
            if wc == 'CHEBFUN' and n == 1:
                continue
            for sw in (False, True):
                if not thorough and wc == 'CHEBFUN' and n == 3 and sw or n == 5 and sw:
                    continue
                for ref in (('MAX', 'ZERO') if wc == 'STABLE' else ('MAX',)):
                    out.append(dict(name=f"{wc}-n{n}-scale{int(sw)}-{ref}", fn='interp',
                                    params=dict(n=n, m=1, wc=wc, sw=sw, ref=ref), budget=500 if thorough else 60))
    for n in (2, 3) if not thorough else (2, 3, 4):
        out.append(dict(name=f"times-n{n}", fn='times', params=dict(n=n), budget=500 if thorough else 60))
    for n in range(4, 25 if thorough else 13):
        for kind in PATTERNS:
            for wc, sw in (('AUTO', False), ('FAST', True), ('STABLE', False), ('CHEBFUN', False)):
                if (wc in ('AUTO', 'FAST') or n < 6) and (kind != 'symmetric' or n < 14):
                    out.append(dict(name=f"affine-{kind}-{wc}-n{n}", fn='affinegrid', params=dict(n=n, kind=kind, wc=wc, sw=sw), budget=500 if thorough else 60))
    for n in (16, 24, 32, 48) if thorough else (16, 24, 32):
        for wc, sw in (('AUTO', False), ('AUTO', True), ('STABLE', True), ('CHEBFUN', False)):
            out.append(dict(name=f"affine-cheb-{wc}{int(sw)}-n{n}", fn='affinetimes', params=dict(n=n, kind='cheb', wc=wc, sw=sw), budget=500 if thorough else 60))
    for n in (1, 2, 3):
        out.append(dict(name=f"inputs-n{n}", fn='inputs', params=dict(n=n), budget=500 if thorough else 60))
        out.append(dict(name=f"complex-n{n}", fn='cplx', params=dict(n=n), budget=500 if thorough else 60))
    for n in (2, 3):
        out.append(dict(name=f"history-n{n}", fn='history', params=dict(n=n), budget=500 if thorough else 60))
    for n in (2, 5):
        out.append(dict(name=f"many-n{n}", fn='many', params=dict(n=n), budget=500 if thorough else 60))
    out.append(dict(name="refusals", fn='refusals'))
    return out


def affinegrid(q, H, n, kind, wc, sw):
    """Larger numbers of points: any translation and scaling of fixed patterns, any time."""
    c, s, g, x = affine(H, n, kind)
    t = H.real('t')
    ap = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=wc, scaleWeights=sw)
    H.eq('P', ap.getInterpolationMatrix([t]), [[cardinal(x, j, t) for j in range(n)]], ctol=1e-7 if n < 9 else 1e-3)
    H.eq('p(t)', ap(t, fValues=[k + 1 for k in range(n)]), sum((j + 1) * cardinal(x, j, t) for j in range(n)), ctol=1e-7 if n < 9 else 1e-3)


def affinetimes(q, H, n, kind, wc, sw):
    """Many points and times, any translation and scaling."""
    c, s, g, x = affine(H, n, kind)
    ts = [H.frac(3, 2), g[3], (g[0] + g[1]) / 2, (g[n // 2] + 2 * g[n // 2 - 1]) / 3, g[-1], g[0] - H.frac(1, 7), H.frac(1, 3)]
    ap = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=wc, scaleWeights=sw)
    ref = [[cardinal(g, j, t) for j in range(n)] for t in ts]
    H.eq('P', ap.getInterpolationMatrix([c + s * t for t in ts]), ref, ctol=1e-5)
    H.eq('p(t)', ap([c + s * t for t in ts], fValues=[(-1) ** k for k in range(n)]), [sum((-1) ** j * r[j] for j in range(n)) for r in ref], ctol=1e-5)


def many(q, H, n):
    """Hundreds of times, on points and between, for any translation and scaling."""
    c, s, g, x = affine(H, n, 'left')
    base = g + [H.frac(2 * k + 1, 16) - 1 for k in range(6)]
    rows = [[cardinal(g, j, t) for j in range(n)] for t in base]
    idx = [(k * k + 3 * k // 2) % len(base) for k in range(280)]
    ts, memo = [base[i] for i in idx], [rows[i] for i in idx]
    ap = q.lagrange.LagrangeApproximation(H.arr(x))
    H.eq('P', ap.getInterpolationMatrix([c + s * t for t in ts]), memo)
    H.eq('p(t)', ap(H.arr([c + s * t for t in ts]), fValues=list(range(n))), [sum(j * v for j, v in enumerate(r)) for r in memo])


def inputs(q, H, n):
    """Integers, lists, tuples and arrays of any rank are the same numbers."""
    pts = [0, 1, 3][:n] if H.choice('integer points', (True, False)) else H.reals('x', n)
    H.increasing(pts)
    f = [2, -1, 4][:n]
    LA = q.lagrange.LagrangeApproximation
    how, fv, stored = H.choice('containers', ((list, f, True), (tuple, tuple(f), False), (H.arr, H.arr(f), True), (lambda p: [[v] for v in p], H.np.array(f), True),
                                              (lambda p: [p], H.np.array(f), False)))
    ts = [H.real('t'), 2] if H.choice('real times', (True, False)) else [0, 2]
    ap = LA(how(pts), fValues=fv) if stored else LA(how(pts))
    call = (lambda t: ap(t)) if stored else (lambda t: ap(t, fValues=fv))
    ref = [sum(f[j] * cardinal(pts, j, t) for j in range(n)) for t in ts]
    for i, t in enumerate(ts):
        H.eq(f'one time {i}', call(t), ref[i])
    H.eq('list of times', call(ts), ref)
    H.eq('tuple of times', call((ts[1], ts[0])), ref[::-1])
    H.eq('nested lists', call([[ts[1], ts[0]], [ts[0], ts[0]]]), [[ref[1], ref[0]], [ref[0], ref[0]]])
    r = call([[ts], [ts]])
    H.same('rank three', tuple(r.shape), (2, 1, 2))
    H.eq('rank three values', r[1, 0], ref)
    H.same('no times', tuple(call(H.np.zeros((0,))).shape), (0,))
    H.eq('matrix', ap.getInterpolationMatrix(tuple(ts)), [[cardinal(pts, j, t) for j in range(n)] for t in ts])


def cplx(q, H, n):
    """Complex function values."""
    x = H.reals('x', n)
    H.increasing(x)
    f = [a + 1j * b for a, b in zip(H.reals('f', n), H.reals('g', n))]
    t = H.reals('t', 2)
    stored = H.choice('stored', (True, False))
    ap = q.lagrange.LagrangeApproximation(x, fValues=H.arr(f)) if stored else q.lagrange.LagrangeApproximation(x)
    call = (lambda t: ap(t)) if stored else (lambda t: ap(t, fValues=H.arr(f)))
    ref = [sum(f[j] * cardinal(x, j, s) for j in range(n)) for s in t]
    H.eq('one time', call(t[0]), ref[0])
    H.eq('times', call(t), ref)
    H.eq('column', call([[t[0]], [t[1]]]), [[ref[0]], [ref[1]]])


def history(q, H, n):
    """Whatever was asked from the object before (results overwritten), the matrices are the same."""
    x = H.reals('x', n)
    H.increasing(x)
    t, f = H.real('t'), H.reals('f', n)
    H.assume(t > x[-1])
    ap = q.lagrange.LagrangeApproximation(x, weightComputation=H.choice('weights', ('AUTO', 'STABLE')), fValues=H.arr(f))
    ops = dict(P=lambda: ap.getInterpolationMatrix([t, t + 1]), Pu=lambda: ap.getInterpolationMatrix([t], duplicates=False), call=lambda: ap(H.arr([t])),
               Q=lambda: ap.getIntegrationMatrix([(t, t + 1)]), D=lambda: ap.getDerivativeMatrix(), D2=lambda: ap.getDerivativeMatrix(2),
               ALL=lambda: ap.getDerivativeMatrix('ALL')[1])
    for i in range(2):
        ops[H.choice(f'op{i}', list(ops))]()[...] = 7
    ref = [[cardinal(x, j, s) for j in range(n)] for s in (t, t + 1)]
    H.eq('P', ap.getInterpolationMatrix([t, t + 1]), ref)
    H.eq('p(t)', ap(t), sum(a * b for a, b in zip(f, ref[0])))
    H.eq('points', ap.points, x)


def interp(q, H, n, m, wc, sw, ref):
    x = H.reals('x', n)
    H.increasing(x)
    t = H.reals('t', m)
    ap = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=wc, scaleWeights=sw, scaleRef=ref)
    P = ap.getInterpolationMatrix(H.arr(t))
    H.eq('P', P, [[cardinal(x, j, t[i]) for j in range(n)] for i in range(m)])
    f = H.reals('f', n)
    v = ap(H.arr(t), fValues=H.arr(f))
    H.eq('p(t)', v, [sum(f[j] * cardinal(x, j, t[i]) for j in range(n)) for i in range(m)])


def times(q, H, n):
    """Shapes of times, stored and given function values."""
    x = H.reals('x', n)
    H.increasing(x)
    t = H.reals('t', 2)
    f = H.reals('f', n)
    g = H.reals('g', n)
    ap = q.lagrange.LagrangeApproximation(x, fValues=H.arr(f))
    H.eq('points', ap.points, x)
    H.same('n', (ap.n, ap.nPoints, ap.nUniquePoints, ap.hasDuplicates), (n, n, n, False))
    ref = [[cardinal(x, j, s) for j in range(n)] for s in t]
    H.eq('P', ap.getInterpolationMatrix(t), ref)
    pf, pg = matvec(ref, f), matvec(ref, g)
    H.eq('stored', ap(H.arr(t)), pf)
    H.eq('given', ap(H.arr(t), fValues=H.arr(g)), pg)
    H.eq('stored again', ap(H.arr([[t[1]], [t[0]]])), [[pf[1]], [pf[0]]])
    H.eq('transposed', ap(H.arr([[t[0], t[1]], [t[0], t[0]]]).T, fValues=g), [[pg[0], pg[0]], [pg[1], pg[0]]])
    H.eq('reversed', ap(H.arr([t[0], t[1], t[1]])[::-1]), [pf[1], pf[1], pf[0]])
    H.eq('row', ap(H.arr([[t[0], t[1]]]), fValues=g), [pg])
    H.eq('scalar', ap(t[0]), pf[0])
    H.eq('no duplicates', ap.getInterpolationMatrix(H.arr(t), duplicates=False), ref)


def refusals(q, H):
    x = H.reals('x', 2)
    H.increasing(x)
    LA = q.lagrange.LagrangeApproximation
    H.raises('weights', lambda: LA(x, weightComputation='NOPE'), NotImplementedError)
    H.raises('scaleRef', lambda: LA(x, weightComputation='STABLE', scaleRef='NOPE'), NotImplementedError)
    H.raises('fValues', lambda: LA(x, fValues=H.arr([x[0]])), ValueError)
    H.raises('no values', lambda: LA(x)(H.arr([x[0]])), AssertionError)
    H.raises('2D times', lambda: LA(x).getInterpolationMatrix(H.arr([[x[0]]])), AssertionError)
