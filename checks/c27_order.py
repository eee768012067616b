"""C27: the numerical order is the least-squares slope of the error."""

BOUNDS = ("2..5 pairs (quick) / 2..7 (thorough) of any positive step numbers, not all equal, and any positive errors; 3..12 (20) pairs with step numbers in geometric progression, in three orders; 4, 8, 10, 11, 13, 16 (3..32) pairs with step numbers exp(l0 + i h) and errors exp(z) for every z in [-9,9]; power laws C n^-p for every "
          "C > 0, step numbers and p in 0..6 and 1/2")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "the logarithm is any function turning products into sums, different for different step numbers"]


def cases(tier):
    out = []
    for n in range(2, 6 if tier == 'quick' else 8):
        out.append(dict(name=f"slope-{n}", fn='slope', params=dict(n=n), budget=60 if tier == 'quick' else 600))
        out.append(dict(name=f"power-{n}", fn='power', params=dict(n=n), budget=60 if tier == 'quick' else 600))
    for n in (3, 6, 9, 12) if tier == 'quick' else range(3, 21):
        out.append(dict(name=f"powers-of-two-{n}", fn='doubling', params=dict(n=n), budget=60 if tier == 'quick' else 600))
    for n in (4, 8, 10, 11, 13, 16) if tier == 'quick' else range(3, 33):
        out.append(dict(name=f"exponentials-{n}", fn='exponentials', params=dict(n=n), budget=60 if tier == 'quick' else 600))
    return out


def exponentials(q, H, n):
    """Step numbers exp(l0 + i h), errors exp(z_i) for any z_i of moderate size."""
    l0, h = H.real('l0', lo=0, hi=1), H.real('h', lo=H.frac(1, 8), hi=H.frac(1, 2))
    z = [H.real(f'z{i}', lo=-9, hi=9) for i in range(n)]
    order = H.choice('order', (list(range(n)), list(range(1, n, 2)) + list(range(0, n, 2))))
    N = [H.np.exp(l0 + h * i) for i in order]
    e = [H.np.exp(v) for v in z]
    H.prefer(z[0] >= z[1] + 1)
    H.prefer(z[-1] >= z[1] + 1)
    beta, rmse = q.num.numericalOrder(H.arr(N), H.arr(e))
    x = [-(l0 + h * i) for i in order]
    m, my = sum(x) / n, sum(z) / n
    sxx = sum((a - m) ** 2 for a in x)
    sxy = sum((a - m) * (b - my) for a, b in zip(x, z))
    H.eq('slope', beta, sxy / sxx)
    H.true('error is not negative', rmse >= 0)
    L = H.np.log10(H.np.exp(h)) / h          # one over the logarithm of ten
    H.eq('error', rmse * rmse * n / (L * L), sum((b - my - sxy / sxx * (a - m)) ** 2 for a, b in zip(x, z)))


def doubling(q, H, n):
    """Step numbers n0 r^i in any order: the logarithms are equidistant, the errors any positive numbers."""
    l0, h = H.real('n0', lo=1), H.real('ratio', lo=1, open_=True)
    order = H.choice('order', (list(range(n)), list(range(n))[::-1], list(range(0, n, 2)) + list(range(1, n, 2))))
    N = [l0 * h ** i for i in order]
    L0, Lh = H.np.log10(l0), H.np.log10(h)
    H.assume(Lh > 0)
    e = [H.real(f'e{i}', lo=0, open_=True) for i in range(n)]
    y = [H.np.log10(v) for v in e]
    beta, rmse = q.num.numericalOrder(H.arr(N), H.arr(e))
    x = [-Lh * i for i in order]
    m, my = sum(x) / n, sum(y) / n
    sxx = sum((a - m) ** 2 for a in x)
    sxy = sum((a - m) * (b - my) for a, b in zip(x, y))
    H.eq('slope', beta - sxy / sxx, 0)
    H.true('error is not negative', rmse >= 0)
    H.eq('error', rmse * rmse * n - sum((b - my - sxy / sxx * (a - m)) ** 2 for a, b in zip(x, y)), 0)


def steps(H, n):
    N = H.reals('n', n, lo=1)
    H.distinct(N)
    l = [-H.np.log10(x) for x in N]
    for i in range(n):
        for j in range(i):
            H.assume(l[i] != l[j])
    return N, l


def slope(q, H, n):
    N, x = steps(H, n)
    e = [H.real(f'e{i}', lo=0, open_=True) for i in range(n)]
    y = [H.np.log10(v) for v in e]
    aslist = H.choice('list', (False, True))
    beta, rmse = q.num.numericalOrder(list(N) if aslist else H.arr(N), H.arr(e))
    sx, sy = sum(x), sum(y)
    sxx, sxy, syy = (sum(a * b for a, b in zip(u, v)) for u, v in ((x, x), (x, y), (y, y)))
    D, E = n * sxx - sx * sx, n * sxy - sx * sy
    H.eq('slope', beta - E / D, 0)
    H.true('error is not negative', rmse >= 0)
    H.eq('error', rmse * rmse * (n * n) - ((n * syy - sy * sy) - E * E / D), 0)


def power(q, H, n):
    N, x = steps(H, n)
    p = H.choice('p', (0, 1, 2, 3, 4, 5, 6))
    C = H.real('C', lo=0, open_=True)
    e = [C / v ** p for v in N]
    beta, rmse = q.num.numericalOrder(H.arr(N), H.arr(e))
    H.eq('order', beta, p)
    H.eq('no error', rmse * rmse, 0)
