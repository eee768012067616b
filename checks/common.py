"""Reference formulas shared by the checks (executed in the namespace of every check module)."""


def cardinal(x, j, t):
    """Lagrange cardinal polynomial j of the points x at t."""
    r = 1
    for k in range(len(x)):
        if k != j:
            r = r * (t - x[k]) / (x[j] - x[k])
    return r


def monic(roots):
    """Coefficients (increasing degree) of prod (t - r)."""
    c = [1]
    for r in roots:
        n = [0] * (len(c) + 1)
        for i, a in enumerate(c):
            n[i + 1] = n[i + 1] + a
            n[i] = n[i] - r * a
        c = n
    return c


def cardinal_coeffs(x, j):
    c = monic([x[k] for k in range(len(x)) if k != j])
    d = 1
    for k in range(len(x)):
        if k != j:
            d = d * (x[j] - x[k])
    return [a / d for a in c]


def polyval(c, t):
    r = 0
    for a in reversed(c):
        r = r * t + a
    return r


def polyder(c):
    return [i * c[i] for i in range(1, len(c))] or [0]


def polyint(c, a, b):
    """Integral of the polynomial from a to b."""
    r = 0
    pa, pb = a, b
    for i, x in enumerate(c):
        r = r + x * (pb - pa) / (i + 1)
        pa, pb = pa * a, pb * b
    return r


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def matvec(A, v):
    return [sum(A[i][k] * v[k] for k in range(len(v))) for i in range(len(A))]


def ident(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def tolist(M):
    """Nested lists of an array."""
    return [[M[i, j] for j in range(M.shape[1])] for i in range(M.shape[0])]


def det(A):
    n = len(A)
    if n == 0:
        return 1
    if n == 1:
        return A[0][0]
    r = 0
    for j in range(n):
        m = [[A[i][k] for k in range(n) if k != j] for i in range(1, n)]
        r = r + (-1) ** j * A[0][j] * det(m)
    return r


def diagm(v):
    return [[v[i] if i == j else 0 for j in range(len(v))] for i in range(len(v))]


PATTERNS = ('even', 'left', 'right', 'gap', 'symmetric')


def pattern(H, n, kind):
    """n increasing rationals in [-1, 1] (exact fractions, evaluated by the harness)."""
    if n == 1:
        return [H.frac(0)]
    if kind == 'even':
        return [H.frac(2 * k, n - 1) - 1 for k in range(n)]
    if kind == 'left':      # clustered at the left end
        return [H.frac(2 * k * (k + 1), (n - 1) * n) - 1 for k in range(n)]
    if kind == 'right':
        return [1 - H.frac(2 * k * (k + 2), (n - 1) * (n + 1)) for k in range(n - 1, -1, -1)]
    if kind == 'gap':       # first two points close to each other
        return [H.frac(-1), H.frac(-15, 16)] + [H.frac(2 * k, n - 1) - 1 for k in range(2, n)]
    if kind == 'cheb':      # clustered at both ends like Chebyshev points, for larger n
        return [2 * H.frac(k * k * (3 * (n - 1) - 2 * k), (n - 1) ** 3) - 1 for k in range(n)]
    return [H.frac(2 * k - (n - 1), n - 1) ** 3 for k in range(n)]


def affine(H, n, kind):
    """Points c + s g_k for any c and s > 0; returns c, s, the pattern g and the points."""
    c, s = H.real('c'), H.real('s', lo=0, open_=True)
    g = pattern(H, n, kind)
    H.prefer(s >= H.frac(1, 2))
    H.prefer(s <= 2)
    H.prefer(c >= -1)
    H.prefer(c <= 1)
    return c, s, g, [c + s * a for a in g]


# ---- rooted trees (nested tuples)
_TREES = {}


def trees(n):
    """Rooted trees with n vertices."""
    if n not in _TREES:
        out = set()
        for p in _partitions(n - 1, n - 1):
            combos = [()]
            for k in p:
                combos = [c + (t,) for c in combos for t in trees(k)]
            for c in combos:
                out.add(tuple(sorted(c)))
        _TREES[n] = sorted(out)
    return _TREES[n]


def _partitions(n, m):
    if n == 0:
        return [()]
    return [(k,) + r for k in range(min(n, m), 0, -1) for r in _partitions(n - k, k)]


def tree_order(t):
    return 1 + sum(tree_order(s) for s in t)


def tree_gamma(t):
    g = tree_order(t)
    for s in t:
        g = g * tree_gamma(s)
    return g


def tree_name(t):
    return '[' + ''.join(tree_name(s) for s in t) + ']'


def stage_vectors(t, As):
    """Elementary stage vectors of a tree, for every way of colouring its edges with the matrices As."""
    n = len(As[0])
    outs = [[1] * n]
    for s in t:
        cs = [matvec(A, v) for A in As for v in stage_vectors(s, As)]
        outs = [[a * b for a, b in zip(o, c)] for o in outs for c in cs]
    return outs


def maximum(H, label, e, xs):
    """e is the largest modulus of xs (given as real, imaginary pairs)."""
    for i, (x, y) in enumerate(xs):
        H.true(f'{label} bound {i}', e * e >= x * x + y * y - (1e-9 if H.concrete else 0))
    c = None
    for x, y in xs:
        t = e * e - x * x - y * y
        t = (t <= 1e-9) & (t >= -1e-9) if H.concrete else t == 0
        c = t if c is None else c | t
    H.true(label + ' attained', c)
    H.true(label + ' sign', e >= 0)
