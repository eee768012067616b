"""C29: sparse interpolation uses the closest points and is exact for its order."""

import math

BOUNDS = ("one output point: 1..4 increasing input points (quick) / 1..6 (thorough), every order up to their number; two output points: 1..2 (3) input points; "
          "with a period: 1..3 (4) input points within one period (the first one or another), an output point any of -2..2 periods away from it, or two output points and up to 2 (3) input points; "
          "3..9 (quick) / 3..12 (thorough) input points that are any translation and scaling of 4 patterns, orders 1, 2, 3, 5 and all, four output points of which one is anywhere; "
          "3..5 (3..7) input points at given fractions of any period, the grid starting within or outside the first period, four output points, one anywhere; an input point exactly half a period away; 70 output points from 4 and 9 input points with orders 2 and 8")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "with a period and general points, no input point exactly half a period away from an output point"]


def cases(tier):
    th = tier != 'quick'
    out = []

    def add(name, fn, **p):
        out.append(dict(name=name, fn=fn, params=p, budget=900 if th else 150, max_paths=20000))
    for n in range(1, 7 if th else 5):
        for o in range(1, n + 1):
            add(f"plain-n{n}-o{o}", 'plain', n=n, o=o, N=1)
            if n <= (3 if th else 2):
                add(f"plain2-n{n}-o{o}", 'plain', n=n, o=o, N=2)
            for m in (-2, -1, 0, 1, 2):
                if n <= (4 if th else 3) and (th or n < 3 or m in (0, -1)):
                    add(f"period-n{n}-o{o}-m{m}", 'periodic', n=n, o=o, m=m, N=1)
                if n <= (3 if th else 2) and (th or m in (0, 1)):
                    add(f"period2-n{n}-o{o}-m{m}", 'periodic', n=n, o=o, m=m, N=2)
    for kind in ('even', 'left', 'gap', 'cubic'):
        for n in ((3, 4, 5, 6, 8, 10, 12) if kind == 'even' else (3, 5, 8)) if th else (3, 6, 9) if kind == 'even' else (4, 7):
            add(f"wide-{kind}-n{n}", 'wide', n=n, kind=kind)
        for n in ((3, 4, 5, 7) if kind == 'even' else (3, 5)) if th else (3, 5) if kind == 'even' else (4,):
            add(f"wideperiod-{kind}-n{n}", 'wideperiod', n=n, kind=kind)
    add("halfway", 'halfway')
    for n, o in ((4, 2), (9, 8)):
        add(f"many-n{n}-o{o}", 'many', n=n, o=o)
    return out


def row(H, label, A, pos, o):
    """One row: interpolates at 0 from the closest of the positions."""
    d = [abs(p) for p in pos]
    lim = sorted(d)[o - 1] + (1e-9 if H.concrete else 0)
    n = 0
    for j, a in enumerate(A):
        if H.iszero(a):
            continue
        n += 1
        H.true(f'{label}: column {j} is one of the closest', d[j] <= lim)
    H.true(f'{label}: at most order entries', n <= o)
    for k in range(o):
        H.eq(f'{label}: degree {k}', sum(a * p ** k for a, p in zip(A, pos)) - (1 if k == 0 else 0), 0)


def matrix(H, A, shape):
    H.same('shape', tuple(A.shape), shape)
    return tolist(A.toarray())


def plain(q, H, n, o, N):
    x = H.reals('x', n)
    H.increasing(x)
    t = H.reals('t', N)
    X, T = H.arr(x), H.arr(t)
    A = matrix(H, q.lagrange.getSparseInterpolationMatrix(X, T, o), (N, n))
    H.eq('input points unchanged', X, x)
    H.eq('output points unchanged', T, t)
    for i in range(N):
        row(H, f'line {i}', A[i], [v - t[i] for v in x], o)


def periodic(q, H, n, o, m, N):
    P = H.real('P', lo=0, open_=True)
    x = H.reals('x', n, lo=0)
    H.increasing(x)
    H.assume(x[-1] < P)
    t = H.reals('t', N, lo=0)
    for v in t:
        H.assume(v < P)
        for w in x:
            H.assume(2 * (v - w) != P)
            H.assume(2 * (w - v) != P)
    shift = (0, 1, -2)[(m + o) % 3] if N == 1 else 0
    A = matrix(H, q.lagrange.getSparseInterpolationMatrix(H.arr([v + shift * P for v in x]), H.arr(t[:-1] + [t[-1] + m * P]), o, P), (N, n))
    for i in range(N):
        pos = []
        for w in x:
            d = w - t[i]
            if 2 * d > P:
                d = d - P
            elif 2 * d < -P:
                d = d + P
            pos.append(d)
        row(H, f'line {i}', A[i], pos, o)


def orders(H, n):
    return H.choice('order', sorted({o for o in (1, 2, 3, 5, n) if o <= n}))


def wide(q, H, n, kind):
    c, s, g, x = affine(H, n, kind)
    o = orders(H, n)
    w = H.real('w', lo=-2, hi=2)
    rel = [w, g[n // 2], (g[0] + 3 * g[1]) / 4, w, H.frac(5, 3)]
    k = o % 4
    rel = rel[k:] + rel[:k]
    A = matrix(H, q.lagrange.getSparseInterpolationMatrix(H.arr(x), H.arr([c + s * v for v in rel]), o), (len(rel), n))
    for i, v in enumerate(rel):
        row(H, f'line {i}', A[i], [(a - v) / 4 for a in g], o)


def wideperiod(q, H, n, kind):
    P = H.real('P', lo=0, open_=True)
    H.prefer(P >= H.frac(1, 2))
    H.prefer(P <= 8)
    # the grid may start anywhere, not only within [0, P)
    o = orders(H, n)
    shift = (0, H.frac(-13, 10), 2, H.frac(-1, 2))[(o + n) % 4]
    grid = [(a + H.frac(21, 20)) / H.frac(9, 4) + shift for a in pattern(H, n, kind)]
    g = [a - math.floor(a) for a in grid]
    w = H.real('w', lo=0)
    H.assume(w < 1)
    rel = [w, H.frac(3, 7), g[n // 2], w]
    turns = ((0, 0, 0, 0), (1, -1, 2, -1), (-2, 0, 1, 3))[(o + n) % 3]
    A = matrix(H, q.lagrange.getSparseInterpolationMatrix(H.arr([P * a for a in grid]), H.arr([P * (v + m) for v, m in zip(rel, turns)]), o, P), (4, n))
    for i, v in enumerate(rel):
        pos = []
        for a in g:
            d = a - v
            H.assume(2 * d != 1)
            H.assume(2 * d != -1)
            pos.append(d - 1 if 2 * d > 1 else d + 1 if 2 * d < -1 else d)
        row(H, f'line {i}', A[i], pos, o)


def many(q, H, n, o):
    """Tens of output points, for any translation and scaling."""
    c, s, g, x = affine(H, n, 'left')
    base = [H.frac(3 * k + 1, 16) - 1 for k in range(11)] + [g[1], g[-1]]
    idx = [(k * k + 3 * k // 2) % len(base) for k in range(70)]
    A = matrix(H, q.lagrange.getSparseInterpolationMatrix(H.arr(x), H.arr([c + s * base[i] for i in idx]), o), (70, n))
    for k, i in enumerate(idx):
        row(H, f'line {k}', A[k], [a - base[i] for a in g], o)


def halfway(q, H):
    """A point exactly half a period away may be used on either side."""
    P = H.real('P', lo=0, open_=True)
    g = [H.frac(1, 10), H.frac(1, 4), H.frac(1, 2)]
    m = H.choice('turns', (-1, 0, 2))
    A = matrix(H, q.lagrange.getSparseInterpolationMatrix(H.arr([P * a for a in g]), H.arr([P * m]), 3, P), (1, 3))[0]
    res = [[sum(a * p ** k for a, p in zip(A, g[:2] + [e])) - (1 if k == 0 else 0) for k in range(3)] for e in (g[2], -g[2])]
    if H.concrete:
        H.true('exact with one of the sides', any(max(abs(v) for v in r) < 1e-7 for r in res))
    else:
        H.true('exact with one of the sides', any(all(v == 0 for v in r) for r in res))
