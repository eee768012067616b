"""C02: integration matrices integrate the interpolating polynomial exactly."""

BOUNDS = ("n <= 3 points (quick) / 4 (thorough), any increasing reals; 1-2 intervals with any real bounds; all three quadrature "
          "rules; quadrature nodes that fall on a point and those that do not; 2..7, 9, 12, 16, 20, 32 points (quick) / 2..12, 16, 20, 24, 32, 48 (thorough) and 5 intervals that are any "
          "translation and scaling of 5 patterns; 150 intervals, 2 and 4 points of one pattern; lists, tuples, integers; every option of the object; results after every two earlier calls (n = 2, 3)")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)",
               "Gauss-Legendre rules of numpy/scipy: nodes are the roots of the Legendre polynomial (library contract), at 220 bits",
               "Gauss-Legendre cases: points and bounds in [-4,4], points at least 1/8 apart, result within 1e-15"]


def cases(tier):
    out = []
    th = tier != 'quick'
    for n in range(1, 5 if th else 4):
        out.append(dict(name=f"FEJER-n{n}", fn='integ', params=dict(n=n, rule='FEJER', wc='AUTO'), budget=800 if th else 60))
    for n in range(1, 4 if th else 3):
        for wc in ('STABLE', 'CHEBFUN') if n > 1 else ('STABLE',):
            out.append(dict(name=f"FEJER-n{n}-{wc}", fn='integ', params=dict(n=n, rule='FEJER', wc=wc), budget=800 if th else 60))
    for n in (2, 3, 4) if th else (2, 3):
        out.append(dict(name=f"two-n{n}", fn='two', params=dict(n=n), budget=800 if th else 60))
    out.append(dict(name="default-n3", fn='default', params=dict(n=3)))
    for rule in ('LEGENDRE_NUMPY', 'LEGENDRE_SCIPY'):
        for n in (1, 2, 3, 4) if th else (1, 2, 3):
            out.append(dict(name=f"{rule}-n{n}", fn='integ', params=dict(n=n, rule=rule, wc='AUTO'), mode='exact', budget=800 if th else 60))
    for n in (range(3, 13) if th else (4, 5, 6)):
        for rule in ('FEJER', 'LEGENDRE_NUMPY', 'LEGENDRE_SCIPY'):
            out.append(dict(name=f"grid-{rule}-n{n}", fn='grid', params=dict(n=n, rule=rule), mode='approx', budget=800 if th else 60))
    for n in range(2, 13 if th else 8):
        for kind in PATTERNS:
            for rule in ('FEJER', 'LEGENDRE_NUMPY', 'LEGENDRE_SCIPY') if kind == 'even' else ('FEJER',):
                if kind != 'symmetric' or n < 10:
                    out.append(dict(name=f"affine-{kind}-{rule}-n{n}", fn='affinegrid', params=dict(n=n, kind=kind, rule=rule), mode='approx', budget=800 if th else 60))
    for n in (9, 12, 16, 20, 24, 32, 48) if th else (9, 12, 16, 20, 32):
        for rule in ('FEJER', 'LEGENDRE_NUMPY', 'LEGENDRE_SCIPY'):
            out.append(dict(name=f"affine-cheb-{rule}-n{n}", fn='affinegrid', params=dict(n=n, kind='cheb', rule=rule), mode='approx', budget=800 if th else 60))
    for n in (1, 2, 3):
        out.append(dict(name=f"inputs-n{n}", fn='inputs', params=dict(n=n), budget=800 if th else 60))
    for n in (2, 3):
        out.append(dict(name=f"history-n{n}", fn='history', params=dict(n=n), budget=800 if th else 60))
    for n in (2, 4):
        out.append(dict(name=f"many-n{n}", fn='many', params=dict(n=n), budget=800 if th else 60))
    out.append(dict(name="refusals", fn='refusals'))
    return out


def integ(q, H, n, rule, wc):
    x = H.reals('x', n)
    H.increasing(x)
    a, b = H.real('a'), H.real('b')
    ap = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=wc)
    Q = ap.getIntegrationMatrix([(a, b)], numQuad=rule)
    H.eq('Q', Q, [[polyint(cardinal_coeffs(x, j), a, b) for j in range(n)]])


def many(q, H, n):
    """Hundreds of intervals, for any translation and scaling."""
    c, s, g, x = affine(H, n, 'left')
    base = [(g[0], g[-1]), (H.frac(-3, 7), H.frac(1, 5)), (H.frac(2, 5), H.frac(-2, 3)), (g[1], g[0]), (H.frac(1, 3), H.frac(1, 3)), (H.frac(-5, 4), H.frac(9, 7))]
    rows = [[s * polyint(cardinal_coeffs(g, j), *iv) for j in range(n)] for iv in base]
    idx = [(k * k + 3 * k // 2) % len(base) for k in range(150)]
    ap = q.lagrange.LagrangeApproximation(H.arr(x))
    H.eq('Q', ap.getIntegrationMatrix([tuple(c + s * v for v in base[i]) for i in idx]), [rows[i] for i in idx])


def two(q, H, n):
    """Several intervals, among them the empty one and a reversed one."""
    x = H.reals('x', n)
    H.increasing(x)
    a, b = H.real('a'), H.real('b')
    iv = [(a, a), (a, b), (b, a)]
    ap = q.lagrange.LagrangeApproximation(H.arr(x))
    Q = ap.getIntegrationMatrix(iv)
    ref = [polyint(cardinal_coeffs(x, j), a, b) for j in range(n)]
    H.eq('Q', Q, [[0] * n, ref, [-r for r in ref]])


def default(q, H, n):
    x = H.reals('x', n)
    H.increasing(x)
    a, b = H.real('a'), H.real('b')
    H.assume(a < x[0])
    H.assume(b > x[-1])
    ap = q.lagrange.LagrangeApproximation(x, scaleWeights=True)
    ref = [[polyint(cardinal_coeffs(x, j), *iv) for j in range(n)] for iv in ((a, b), (b, b))]
    H.eq('Q', ap.getIntegrationMatrix(H.arr([[a, b], [b, b]])), ref)
    H.eq('Q nodup', ap.getIntegrationMatrix([(a, b), (b, b)], duplicates=False), ref)


def grid(q, H, n, rule):
    """Larger numbers of points: points fixed in [-1,1], interval bounds symbolic within a box around them."""
    x = [H.frac(2 * k * (k + n), (n - 1) * (2 * n - 1)) - 1 for k in range(n)]
    a, b = H.real('a', lo=H.frac(-9, 8), hi=-1), H.real('b', lo=1, hi=H.frac(9, 8))
    ap = q.lagrange.LagrangeApproximation(H.arr(x))
    ref = [[polyint(cardinal_coeffs(x, j), a, b) for j in range(n)]]
    D = ap.getIntegrationMatrix([(a, b)], numQuad=rule)
    H.eq('Q', D, ref, tol=1e-12, ctol=1e-5)


def affinegrid(q, H, n, kind, rule):
    """Any translation and scaling of fixed points and intervals."""
    c, s, g, x = affine(H, n, kind)
    iv = [(H.frac(-1), H.frac(1)), (H.frac(1, 3), H.frac(-7, 5)), (g[0], g[-1]), (g[-1], g[-2]), (H.frac(5, 4), H.frac(9, 7))]
    ap = q.lagrange.LagrangeApproximation(H.arr(x))
    Q = ap.getIntegrationMatrix([(c + s * a, c + s * b) for a, b in iv], numQuad=rule)
    E = [[polyint(cardinal_coeffs(g, j), a, b) for j in range(n)] for a, b in iv]
    H.eq('Q', Q / s, E, tol=1e-12, ctol=1e-6)


def inputs(q, H, n):
    """Integers, lists, tuples and arrays are the same numbers; function values and the other options do not matter."""
    pts = [0, 1, 3][:n] if H.choice('integer points', (True, False)) else H.reals('x', n)
    H.increasing(pts)
    a, b = H.real('a'), H.real('b')
    H.assume(a > pts[-1] + 1)
    H.assume(b > pts[-1] + 1)
    if not isinstance(pts[0], int):
        H.assume(pts[0] > 4)
    kw, iv = H.choice('options', ((dict(), [(a, a + 1), (b, b)]), (dict(fValues=[2, -1, 4][:n]), ((a, a + 1), (b, b))),
                                  (dict(fValues=H.np.array([2, -1, 4][:n]), scaleWeights=True), [[a, a + 1], [b, b]]),
                                  (dict(fValues=tuple([2, 1j, 4][:n]), weightComputation='FAST'), [H.arr([a, a + 1]), (b, b)]),
                                  (dict(duplicates='USE_RIGHT', fValues=H.np.array([1, 2, 3][:n])), H.arr([(a, a + 1), (b, b)]))))
    ap = q.lagrange.LagrangeApproximation(pts, **kw)
    H.eq('Q', ap.getIntegrationMatrix(iv), [[polyint(cardinal_coeffs(pts, j), a, a + 1) for j in range(n)], [0] * n])
    for m in ([(0, 2)], [(0, 2), (-1, 1)], H.np.array([[0, 2], [3, 1]])):
        H.eq('Q for integers', ap.getIntegrationMatrix(m), [[polyint(cardinal_coeffs(pts, j), int(r[0]), int(r[1])) for j in range(n)] for r in m])


def history(q, H, n):
    """Whatever was asked from the object before (results overwritten), the matrix is the same."""
    x = H.reals('x', n)
    H.increasing(x)
    t, f = H.real('t'), H.reals('f', n)
    H.assume(t > x[-1])
    ap = q.lagrange.LagrangeApproximation(x, weightComputation=H.choice('weights', ('AUTO', 'STABLE')), fValues=H.arr(f))
    ops = dict(P=lambda: ap.getInterpolationMatrix([t, t + 1]), call=lambda: ap(H.arr([t])),
               Q=lambda: ap.getIntegrationMatrix([(t, t + 1)]), Q2=lambda: ap.getIntegrationMatrix([(t, t + 2)], numQuad='LEGENDRE_NUMPY'),
               Qu=lambda: ap.getIntegrationMatrix([(t, t + 2)], duplicates=False), D=lambda: ap.getDerivativeMatrix(), ALL=lambda: ap.getDerivativeMatrix('ALL')[1])
    for i in range(2):
        ops[H.choice(f'op{i}', list(ops))]()[...] = 7
    H.eq('Q', ap.getIntegrationMatrix([(t, t + 1)]), [[polyint(cardinal_coeffs(x, j), t, t + 1) for j in range(n)]])


def refusals(q, H):
    x = H.reals('x', 2)
    H.increasing(x)
    ap = q.lagrange.LagrangeApproximation(x)
    H.raises('rule', lambda: ap.getIntegrationMatrix([(x[0], x[1])], numQuad='NOPE'), NotImplementedError)
    H.raises('1D', lambda: ap.getIntegrationMatrix([x[0], x[1]]), AssertionError)
    H.raises('triples', lambda: ap.getIntegrationMatrix([[x[0], x[1], x[1]]]), AssertionError)
