"""C28: extrapolation is the least-squares polynomial evaluated at the times."""

BOUNDS = ("1..4 distinct nodes in any order (quick) / 1..5 (thorough), every degree from 0 to their number minus one and the default, two symbolic times; 2..8 (12) nodes in five patterns and three orders, every degree (up to 5 from 8 nodes on), four times of which two symbolic in [-2,2]; 10, 12, 14 nodes in two patterns for the default and two other degrees and times in [-1,1]; 150 times for 2 and 4 nodes; integers up to 5e6 (native overflow), lists, tuples")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)"]


def cases(tier):
    th = tier != 'quick'
    out = []
    for n in range(1, 6 if th else 5):
        for p in [None] + list(range(n)):
            out.append(dict(name=f"n{n}-p{p}", fn='extrapolation', params=dict(n=n, p=p), budget=600 if th else 60))
    for n in range(2, 13 if th else 9):
        for kind in PATTERNS:
            out.append(dict(name=f"grid-{kind}-{n}", fn='grid', params=dict(n=n, kind=kind, th=th), budget=600 if th else 60))
    for n in (10, 12, 14):
        for kind in ('cheb', 'even'):
            out.append(dict(name=f"large-{kind}-{n}", fn='large', params=dict(n=n, kind=kind), budget=600 if th else 100))
    for n in (2, 4):
        out.append(dict(name=f"many-{n}", fn='many', params=dict(n=n), budget=60))
    out.append(dict(name="containers", fn='containers', params=dict()))
    return out


def hold(H, P, x, t, d, tol=None):
    """Rows of P evaluate the least-squares polynomial of degree d at the times, relative to the size of the row."""
    n = len(x)
    for i in range(len(t)):
        for k in range(d + 1):
            H.eq(f'time {i} exact for degree {k}', sum(P[i][j] * x[j] ** k for j in range(n)) - t[i] ** k, 0, ctol=1e-3)
        for s in range(n - d - 1):
            w = x[s:s + d + 2]
            z = [1] * len(w)
            for a in range(len(w)):
                for b in range(len(w)):
                    if a != b:
                        z[a] = z[a] / (w[a] - w[b])
            m = max(abs(a) for a in z)
            H.eq(f'time {i} orthogonal {s}', sum(P[i][s + j] * z[j] / m for j in range(d + 2)), 0, ctol=1e-3)


def grid(q, H, n, kind, th):
    """Patterns of many nodes, every degree, several times (two of them symbolic), in increasing and other orders."""
    x = pattern(H, n, kind)
    x = H.choice('order', (x, x[::-1], x[1:] + x[:1]))
    d = H.choice('degree', ([None] if n < 8 else []) + list(range(n if n < 8 else 6)))     # higher degrees are beyond float accuracy
    N = H.choice('times', (1, 4))
    t = [H.real('t0', lo=-2, hi=2), H.frac(3, 2), H.real('t1', lo=-2, hi=2), H.frac(-1, 3)][:N]
    P = q.num.getExtrapolationMatrix(H.arr(x), H.arr(t), **({} if d is None else dict(pOrder=d)))
    H.same('shape', tuple(P.shape), (N, n))
    hold(H, tolist(P), x, t, n - 1 if d is None else d)


def large(q, H, n, kind):
    """Many nodes, high degrees: exactness, in the monic basis of the interval of the nodes."""
    x = pattern(H, n, kind)
    d = H.choice('degree', (None, n - 2, n // 2))
    t = [H.real('t0', lo=-1, hi=1), H.frac(1, 3)]
    P = tolist(q.num.getExtrapolationMatrix(H.arr(x), H.arr(t), **({} if d is None else dict(pOrder=d))))
    for i in range(2):
        for k in range((n - 1 if d is None else d) + 1):
            H.eq(f'time {i} exact for degree {k}', sum(P[i][j] * x[j] ** k for j in range(n)) - t[i] ** k, 0, ctol=1e-4)


def many(q, H, n):
    """Hundreds of times, of which a symbolic one every now and then."""
    x = pattern(H, n, 'left')
    d = H.choice('degree', (None, n - 2))
    base = [H.real('t0', lo=-2, hi=2)] + [H.frac(k, 4) - 1 for k in range(9)]
    idx = [(k * k + 3 * k // 2) % len(base) for k in range(150)]
    P = q.num.getExtrapolationMatrix(H.arr(x), H.arr([base[i] for i in idx]), **({} if d is None else dict(pOrder=d)))
    H.same('shape', tuple(P.shape), (150, n))
    hold(H, tolist(P), x, [base[i] for i in idx], n - 1 if d is None else d)


def containers(q, H):
    """Integers, lists and tuples."""
    x = H.choice('nodes', ([0, 1, 3], (0, 1, 3), [-2, 2, 5, 7], [0, 1000, 2000, 3000], [-4000000, 1000000, 5000000]))
    d = H.choice('degree', (None, 0, 1, 2))
    t = H.choice('times', ([H.real('t', lo=-2, hi=2), 4], [7, 3000000]))
    how = H.choice('container', (list, tuple, H.arr))
    X = H.np.array(x) if H.choice('array', (False, True)) else x
    P = q.num.getExtrapolationMatrix(X, how(t)) if d is None else q.num.getExtrapolationMatrix(X, how(t), d)
    hold(H, tolist(P), [H.frac(a) for a in x], [H.frac(a) if isinstance(a, int) else a for a in t], len(x) - 1 if d is None else d)


def extrapolation(q, H, n, p):
    x = H.reals('x', n)
    H.distinct(x)
    t = H.reals('t', 2)
    aslist = H.choice('list', (False, True))
    X, T = (list(x), list(t)) if aslist else (H.arr(x), H.arr(t))
    P = q.num.getExtrapolationMatrix(X, T) if p is None else q.num.getExtrapolationMatrix(X, T, p)
    H.same('shape', tuple(P.shape), (2, n))
    H.eq('nodes unchanged', X, x)
    H.eq('times unchanged', T, t)
    P = tolist(P)
    d = n - 1 if p is None else p
    for i in range(2):
        for k in range(d + 1):
            H.eq(f'time {i} exact for degree {k}', sum(P[i][j] * x[j] ** k for j in range(n)) - t[i] ** k, 0)
        for s in range(n - d - 1):
            # values orthogonal to all polynomials of degree d: their least-squares polynomial is zero
            w = x[s:s + d + 2]
            z = []
            for a in w:
                v = 1
                for b in w:
                    if b is not a:
                        v = v * (a - b)
                z.append(1 / v)
            H.eq(f'time {i} orthogonal {s}', sum(P[i][s + j] * z[j] for j in range(d + 2)), 0)
