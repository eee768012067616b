"""C05: weight algorithms agree up to one common factor; AUTO survives extreme scales."""

from fractions import Fraction

BOUNDS = ("n <= 5 points (quick; STABLE/CHEBFUN 4) / 6 (thorough), any increasing reals; 4..16, 24, 32 points (quick) / 4..28, 32, 48, 64 (thorough) that are any translation and scaling of 5 patterns; scaled and unscaled; range errors: products of 4 differences of points "
          "scaled by 1e-160..1e120, underflow or overflow in all, the first/last or the middle product; 9 families of 4..12 points of very different scales (1e-278..1e240), scaled by any factor of [1, 9/8], "
          "with the range errors (vanishing, overflowing, subnormal products and exponentials) numpy makes at factor one")
ASSUMPTIONS = ["real arithmetic except for the modelled range errors: a product of symbolic values may underflow to zero or overflow, "
               "raising FloatingPointError when numpy's error state says so"]


def cases(tier):
    out = []
    th = tier != 'quick'
    for wc in ('AUTO', 'FAST', 'STABLE', 'CHEBFUN'):
        for n in range(1, 5 + th + (wc in ('AUTO', 'FAST'))):
            if wc == 'CHEBFUN' and n == 1:
                continue
            for ref in (('MAX', 'ZERO') if wc == 'STABLE' else ('MAX',)):
                out.append(dict(name=f"{wc}-n{n}-{ref}", fn='agree', params=dict(n=n, wc=wc, ref=ref), budget=600 if th else 60))
                if n <= (4 if th and ref != 'ZERO' else 2 if wc == 'CHEBFUN' else 3):
                    out.append(dict(name=f"scaled-{wc}-n{n}-{ref}", fn='scaled', params=dict(n=n, wc=wc, ref=ref), budget=600 if th else 60))
    for n in [*range(4, 29 if th else 17), *((32, 48, 64) if th else (24, 32))]:
        for kind in PATTERNS if n < 30 and (th or n < 17) else ('cheb',):
            for wc, ref in (('AUTO', 'MAX'), ('FAST', 'MAX'), ('STABLE', 'MAX'), ('STABLE', 'ZERO'), ('CHEBFUN', 'MAX')):
                if n > 16 and ref == 'ZERO' and not th or n > 32 and ref == 'ZERO':
                    continue
                out.append(dict(name=f"affine-{kind}-{wc}-{ref}-n{n}", fn='affinegrid', params=dict(n=n, kind=kind, wc=wc, ref=ref), budget=600 if th else 60))
    for k in range(4):
        out.append(dict(name=f"range-{k}", fn='extreme', params=dict(n=4, k=k), fpfault=True, budget=120))
        if th:
            out.append(dict(name=f"range5-{k}", fn='extreme', params=dict(n=5, k=k), fpfault=True, budget=600))
    for k in MIXED:
        out.append(dict(name=f"mixed-{k}", fn='mixed', params=dict(kind=k), budget=600 if th else 90))
    return out


def product(x, j):
    r = 1
    for k in range(len(x)):
        if k != j:
            r = r * (x[j] - x[k])
    return r


def reference(H, x, w, wc, ref):
    """The weight that is scaled to one by the STABLE algorithm."""
    if wc != 'STABLE':
        return
    if ref == 'MAX':
        H.eq('largest', max(abs(v) for v in w), 1)
        return
    j = 0
    for k in range(1, len(x)):
        if abs(x[k]) < abs(x[j]):
            j = k
    near = [abs(x[k]) <= abs(x[j]) + (1e-12 if H.concrete else 0) for k in range(len(x))]
    if sum(1 for b in near if b) == 1:
        H.eq('weight of the point closest to zero', abs(w[j]), 1)
    else:
        H.true('weight of a point closest to zero', any(abs(abs(w[k]) - 1) <= (1e-9 if H.concrete else 0) for k in range(len(x)) if near[k]))


def agree(q, H, n, wc, ref):
    x = H.reals('x', n)
    H.increasing(x)
    ap = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=wc, scaleRef=ref)
    w = ap.weights
    H.same('shape', w.shape, (n,))
    c = w[0] * product(x, 0)
    H.true('positive factor', c > 0)
    H.eq('common factor', [w[j] * product(x, j) for j in range(n)], [c] * n)
    if wc in ('AUTO', 'FAST'):
        H.eq('analytic', c, 1)
    reference(H, x, w, wc, ref)


def scaled(q, H, n, wc, ref):
    x = H.reals('x', n)
    H.increasing(x)
    ap = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=wc, scaleRef=ref, scaleWeights=True)
    w = ap.weights
    a = [abs(product(x, j)) for j in range(n)]
    c = w[0] * product(x, 0)
    H.true('positive factor', c > 0)
    H.eq('common factor', [w[j] * product(x, j) for j in range(n)], [c] * n)
    # the largest modulus is exactly one: c / min |product| == 1
    H.eq('maximum', max(abs(w[j]) for j in range(n)), 1)


def affinegrid(q, H, n, kind, wc, ref):
    """Larger numbers of points: any translation and scaling of fixed patterns."""
    c, s, g, x = affine(H, n, kind)
    sw = H.choice('scaled', (False, True))
    w = q.lagrange.LagrangeApproximation(H.arr(x), weightComputation=wc, scaleRef=ref, scaleWeights=sw).weights
    p = [product(g, j) for j in range(n)]
    k = 0
    for j in range(n):
        if abs(p[j]) * (1 + H.frac(1, 10 ** 6)) < abs(p[k]):
            k = j
    H.true('positive factor', w[k] * p[k] > 0)
    H.eq('common factor', [w[j] / w[k] for j in range(n)], [p[k] / p[j] for j in range(n)], ctol=1e-6)
    if sw:
        H.eq('maximum', abs(w[k]), 1)
    elif wc == 'STABLE':
        reference(H, x, w, wc, ref)
    elif wc in ('AUTO', 'FAST'):
        H.eq('analytic', w[k] * p[k] * s ** (n - 1), 1, ctol=1e-6)


def extreme(q, H, n, k):
    scale = [H.frac(1, 10 ** 160), H.frac(1, 10 ** 104), H.frac(10 ** 120), H.frac(10 ** 104)][k]
    H.extreme = True
    H.fprange('underflow' if k < 2 else 'overflow')
    x = H.reals('x', n, lo=-4, hi=4)
    H.increasing(x)
    for i in range(1, n):
        H.assume(x[i] - x[i - 1] > H.frac(1, 8))
    ap = q.lagrange.LagrangeApproximation(H.arr([scale * v for v in x]))
    w = ap.weights
    H.eq('proportional', [w[j] / w[0] for j in range(n)], [product(x, 0) / product(x, j) for j in range(n)])
    H.true('sign', [w[0] > 0, w[0] < 0][(n - 1) % 2])


# (centre of each point, in units of its scale): products that vanish, overflow or lose digits, at different places
MIXED = {
    'cluster': [(0, -160), (1, -160), (2, -160), (1, 0)],
    'cluster-right': [(-1, 0), (0, -120), (1, -120), (3, -120), (4, -120)],
    'two-clusters': [(0, -110), (1, -110), (3, -110), (1, 60), (1, 61)],
    'far': [(-1, 110), (-1, 20), (0, 0), (1, 110)],
    'subnormal': [(0, 0)] + [(18 + 3 * k, -41) for k in range(8)] + [(k, 13) for k in (1, 2, 3)],
    'subnormal-2': [(-k, 13) for k in (3, 2, 1)] + [(0, 0)] + [(18 + 3 * k, -41) for k in range(8)],
    'graded': [(1, 2 - 40 * k) for k in range(7, -1, -1)],
    'graded-up': [(1, 40 * k) for k in range(7)],
    'moderate': [(k, -3) for k in range(12)],
}


def mixed(q, H, kind):
    """Points of very different scales: every weight is finite and proportional to the analytic one (those below 1e-290 of the largest may vanish)."""
    H.extreme = True
    x = []
    s = H.real('s', lo=1, hi=H.frac(9, 8))
    pairs = [(s, 1)]
    for i, (c, e) in enumerate(MIXED[kind]):
        u = s * c
        if kind == 'far' and i:
            d = H.real(f'd{i}', lo=0, hi=H.frac(1, 16))
            pairs.append((d, 0))
            u = u + d
        x.append(u * H.frac(10) ** e)
    H.sample(*pairs)
    sc = H.choice('scaled', (False, True))
    xs = x
    if H.concrete:
        x = [Fraction(float(v)) for v in x]
    w = q.lagrange.LagrangeApproximation(H.arr(xs), scaleWeights=sc).weights
    p = [product(x, j) for j in range(len(x))]
    a = [abs(v) for v in p]
    k = 0
    for j in range(1, len(x)):
        if a[j] < a[k]:
            k = j
    H.true('largest weight', w[k] * (1 if p[k] > 0 else -1) > 0)
    for j in range(len(x)):
        r = p[k] / p[j]
        if abs(r) < H.frac(1, 10 ** 290):
            H.true(f'vanishing weight {j}', abs(w[j] / w[k]) <= H.frac(1, 10 ** 289))
        else:
            H.eq(f'weight {j}', w[j] / w[k] / (float(r) if H.concrete else r), 1, ctol=1e-6)
