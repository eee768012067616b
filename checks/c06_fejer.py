"""C06: the Fejer rule is exact, interior and positive."""
import math

BOUNDS = "n = 1..22, 24, 26, 28, 30, 32, 40 (quick) / 1..32, 40, 48 (thorough) points: any polynomial of degree below n, any real coefficients; cosines exact in a cyclotomic field; 48, 64, 65, 100 (quick) / 127, 200 (thorough) points: coefficients in the Chebyshev basis in [-1,1], within 1e-20"
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "numpy ifft computes the inverse DFT (library contract)"]


def cases(tier):
    th = tier != 'quick'
    ns = list(range(1, 33)) + [40, 48] if th else list(range(1, 23)) + [24, 26, 28, 30, 32, 40]
    return [dict(name=f"n{n}", fn='rule', params=dict(n=n), budget=900 if th else 60) for n in ns] + \
        [dict(name=f"large-n{n}", fn='large', params=dict(n=n), mode='approx', budget=900 if th else 100) for n in ((48, 64, 65, 100, 127, 200) if th else (48, 64, 65, 100))] + \
        [dict(name="n-float", fn='asfloat', budget=60)]


def rule(q, H, n):
    x, w = q.lagrange.computeFejerRule(n)
    H.same('shapes', (x.shape, w.shape), ((n,), (n,)))
    for i in range(n):
        H.true(f'in interval {i}', (x[i] > -1) & (x[i] < 1))
        H.true(f'positive weight {i}', w[i] > 0)
    for i in range(1, n):
        H.true(f'increasing {i}', x[i] > x[i - 1])
    # Chebyshev polynomial at the nodes
    for i in range(n):
        t0, t1 = 1, x[i]
        for _ in range(n - 1):
            t0, t1 = t1, 2 * x[i] * t1 - t0
        H.eq(f'T_n(x[{i}])', t1, 0)
    # any polynomial of degree < n
    c = H.reals('c', n)
    H.eq('integral', sum(w[i] * polyval(c, x[i]) for i in range(n)), polyint(c, -1, 1))


def large(q, H, n):
    """Larger rules, at 220 bits."""
    x, w = q.lagrange.computeFejerRule(n)
    H.same('shapes', (x.shape, w.shape), ((n,), (n,)))
    for i in range(n):
        H.true(f'in interval {i}', (x[i] > -1) & (x[i] < 1))
        H.true(f'positive weight {i}', w[i] > 0)
    for i in range(1, n):
        H.true(f'increasing {i}', x[i] > x[i - 1])
    # any combination of the Chebyshev polynomials of degree < n
    c = H.reals('c', n, lo=-1, hi=1)
    t = [[1] * n, list(x)]
    for _ in range(n - 2):
        t.append([2 * x[i] * a - b for i, (a, b) in enumerate(zip(t[-1], t[-2]))])
    H.eq('integral', sum(c[k] * sum(w[i] * t[k][i] for i in range(n)) for k in range(n)), sum(c[k] * H.frac(2, 1 - k * k) for k in range(0, n, 2)), tol=1e-20)


def asfloat(q, H):
    """The number of points may be any value convertible to an integer."""
    c = H.reals('c', 3)
    x, w = q.lagrange.computeFejerRule(3.0)
    H.eq('integral', sum(w[i] * polyval(c, x[i]) for i in range(3)), polyint(c, -1, 1))
