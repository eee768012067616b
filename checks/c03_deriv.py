"""C03: differentiation matrices differentiate the interpolating polynomial exactly."""

BOUNDS = "n <= 4 points (quick; D2 <= 3) / 5 (thorough), any increasing reals, every weight algorithm and scaling; order 1, 2 and 'ALL'; 4..12, 16, 24, 32 points (quick) / 4..18, 24, 32, 48 (thorough) that are any translation and scaling of 5 patterns; lists, tuples, integers, every option; results after every two earlier calls (n = 2, 3)"
ASSUMPTIONS = ["real arithmetic (rounding not modelled)"]


def cases(tier):
    out = []
    th = tier != 'quick'
    for wc in ('AUTO', 'FAST', 'STABLE', 'CHEBFUN'):
        for n in range(1, (6 if wc == 'AUTO' else 5) if th else (5 if wc == 'AUTO' else 4)):
            if wc == 'CHEBFUN' and n == 1:
                continue
            for sw in (False, True):
                if not th and wc != 'AUTO' and n == 3 and sw:
                    continue
                for ref in (('MAX', 'ZERO') if wc == 'STABLE' else ('MAX',)):
                    for order in ((1, 2, 'ALL') if wc == 'AUTO' else ('ALL',)):
                        if not th and n == 4 and (sw or order == 2):
                            continue
                        if not th and n == 4 and order == 'ALL':
                            order = 2
                        out.append(dict(name=f"{wc}-n{n}-scale{int(sw)}-{ref}-{order}", fn='deriv',
                                        params=dict(n=n, wc=wc, sw=sw, ref=ref, order=order), budget=600 if th else 60))
    for n in range(4, 19 if th else 13):
        for kind in PATTERNS:
            for wc, sw in (('AUTO', False), ('FAST', True), ('STABLE', False), ('CHEBFUN', False)):
                if (wc in ('AUTO', 'FAST') or n < 6) and (kind != 'symmetric' or n < 10):
                    out.append(dict(name=f"affine-{kind}-{wc}-n{n}", fn='affinegrid', params=dict(n=n, kind=kind, wc=wc, sw=sw), budget=600 if th else 60))
    for n in (16, 24, 32, 48) if th else (16, 24, 32):
        for wc, sw in (('AUTO', False), ('FAST', True), ('STABLE', False), ('CHEBFUN', False)):
            out.append(dict(name=f"affine-cheb-{wc}-n{n}", fn='affinegrid', params=dict(n=n, kind='cheb', wc=wc, sw=sw), budget=600 if th else 60))
    for n in (1, 2, 3):
        out.append(dict(name=f"inputs-n{n}", fn='inputs', params=dict(n=n), budget=600 if th else 60))
    for n in (2, 3):
        out.append(dict(name=f"history-n{n}", fn='history', params=dict(n=n), budget=600 if th else 60))
    out.append(dict(name='options', fn='options'))
    return out


def refs(x):
    n = len(x)
    c = [cardinal_coeffs(x, j) for j in range(n)]
    d1 = [polyder(a) for a in c]
    d2 = [polyder(a) for a in d1]
    return ([[polyval(d1[j], x[i]) for j in range(n)] for i in range(n)],
            [[polyval(d2[j], x[i]) for j in range(n)] for i in range(n)])


def deriv(q, H, n, wc, sw, ref, order):
    x = H.reals('x', n)
    H.increasing(x)
    ap = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=wc, scaleWeights=sw, scaleRef=ref)
    r1, r2 = refs(x)
    D = ap.getDerivativeMatrix(order)
    if order == 'ALL':
        H.same('two matrices', len(D), 2)
        H.eq('D1', D[0], r1)
        H.eq('D2', D[1], r2)
    else:
        H.eq('D', D, r1 if order == 1 else r2)


def affinegrid(q, H, n, kind, wc, sw):
    """Larger numbers of points: any translation and scaling of fixed patterns."""
    c, s, g, x = affine(H, n, kind)
    ap = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=wc, scaleWeights=sw)
    D1, D2 = ap.getDerivativeMatrix('ALL')
    r1, r2 = refs(g)
    H.eq('D1', s * D1, r1, ctol=1e-6)
    H.eq('D2', s * s * D2, r2, ctol=1e-6)


def inputs(q, H, n):
    """Integers, lists, tuples and arrays are the same numbers; function values and the other options do not matter."""
    pts = [0, 1, 3][:n] if H.choice('integer points', (True, False)) else H.reals('x', n)
    H.increasing(pts)
    kw = H.choice('options', (dict(), dict(fValues=[2, -1, 4][:n]), dict(fValues=H.np.array([2, -1, 4][:n]), scaleWeights=True),
                              dict(fValues=tuple([2, 1j, 4][:n]), weightComputation='FAST'), dict(duplicates='USE_RIGHT')))
    how = H.choice('points', (list, tuple, H.arr, lambda p: [[v] for v in p]))
    ap = q.lagrange.LagrangeApproximation(how(pts), **kw)
    r1, r2 = refs(pts)
    H.eq('D1', ap.getDerivativeMatrix(1), r1)
    H.eq('D2', ap.getDerivativeMatrix(2), r2)


def history(q, H, n):
    """Whatever was asked from the object before (results overwritten), the matrices are the same."""
    x = H.reals('x', n)
    H.increasing(x)
    t, f = H.real('t'), H.reals('f', n)
    H.assume(t > x[-1])
    ap = q.lagrange.LagrangeApproximation(x, weightComputation=H.choice('weights', ('AUTO', 'STABLE', 'CHEBFUN')) if n < 3 else 'AUTO', fValues=H.arr(f))
    ops = dict(P=lambda: ap.getInterpolationMatrix([t, t + 1]), call=lambda: ap(H.arr([t])), Q=lambda: ap.getIntegrationMatrix([(t, t + 1)]),
               D=lambda: ap.getDerivativeMatrix(), D2=lambda: ap.getDerivativeMatrix(2), Du=lambda: ap.getDerivativeMatrix(2, False),
               ALL=lambda: ap.getDerivativeMatrix('ALL')[0], ALL2=lambda: ap.getDerivativeMatrix('ALL')[1])
    for i in range(2):
        ops[H.choice(f'op{i}', list(ops))]()[...] = 7
    r1, r2 = refs(x)
    last = H.choice('last', (1, 2, 'ALL'))
    D = ap.getDerivativeMatrix(last)
    D = D if last == 'ALL' else [D]
    for a, b in zip(D, {1: [r1], 2: [r2], 'ALL': [r1, r2]}[last]):
        H.eq('D', a, b)


def options(q, H):
    x = H.reals('x', 3)
    H.increasing(x)
    ap = q.lagrange.LagrangeApproximation(x)
    r1, r2 = refs(x)
    H.eq('default', ap.getDerivativeMatrix(), r1)
    H.eq('keyword', ap.getDerivativeMatrix(order=2, duplicates=False), r2)
    H.eq('legacy name', ap.getDerivationMatrix(2), r2)
    H.eq('again', ap.getDerivativeMatrix(1), r1)
    H.eq('weights kept', ap.getInterpolationMatrix(x), ident(3))
    H.raises('order', lambda: ap.getDerivativeMatrix(3), NotImplementedError)
    H.raises('order 0', lambda: ap.getDerivativeMatrix(0), NotImplementedError)
