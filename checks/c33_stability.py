"""C33: implicit methods documented as A-, S- or L-stable are so."""

BOUNDS = ("every registered implicit Runge-Kutta class with its weights and embedded weights (S-stable ones: A-stable and vanishing at infinity); Legendre collocation "
          "with 1..7 (quick) / 1..10 (thorough) nodes, GAUSS, LOBATTO and RADAU-RIGHT; |R(iy)| <= 1 + 1e-9 for every real y; any registered table with every padding")
ASSUMPTIONS = ["float literals of the tables are their decimal values; square roots and sines exact or at 220 bits",
               "a rational function without poles in the left half plane is bounded there by its supremum on the imaginary axis (maximum principle)",
               "the solver performs the Runge-Kutta step of the table (C15)"]
# stable at infinity too (|R(inf)| = 0)
LSTABLE = ['BE', 'SDIRK2', 'SDIRK2_2', 'SDIRK3', 'DIRK43', 'SDIRK54', 'ESDIRK43', 'ESDIRK53', 'ARK548L2SAESDIRK', 'ARK548L2SAESDIRK2',
           'ARK324L2SAESDIRK', 'ARK222EDIRK', 'ARK443ESDIRK', 'ARK343ESDIRK']
ASTABLE = LSTABLE + ['MidPoint', 'TRAP', 'GAUSS_LG', 'EDIRK43', 'EDIRK4', 'ARK4EDIRK']
EMBEDDED = ['EDIRK43', 'ESDIRK43', 'ESDIRK53', 'ARK548L2SAESDIRK', 'ARK548L2SAESDIRK2', 'ARK324L2SAESDIRK']


def cases(tier):
    th = tier != 'quick'
    out = [dict(name=n, fn='scheme', params=dict(name=n), mode='approx', budget=300) for n in ASTABLE]
    for qt in ('GAUSS', 'RADAU-RIGHT', 'LOBATTO'):
        for n in range(2 if qt == 'LOBATTO' else 1, 11 if th else 8):
            out.append(dict(name=f"{qt}-{n}", fn='collocation', params=dict(qt=qt, n=n), mode='approx', budget=600 if th else 100))
    return out


def charpoly(A):
    """Coefficients of det(I - z A), increasing degree (Faddeev-LeVerrier)."""
    n = len(A)
    c, M = [1], ident(n)
    for k in range(1, n + 1):
        AM = matmul(A, M)
        t = sum(AM[i][i] for i in range(n))
        c.append(-t / k)
        M = [[AM[i][j] + (c[k] if i == j else 0) for j in range(n)] for i in range(n)]
    return c


def axis(c):
    """|p(iy)|^2 as a polynomial in w = y^2."""
    re = [(-1) ** (k // 2) * c[k] for k in range(0, len(c), 2)]
    im = [(-1) ** (k // 2) * c[k] for k in range(1, len(c), 2)]
    out = [0] * len(c)
    for i, a in enumerate(re):
        for j, b in enumerate(re):
            out[i + j] = out[i + j] + a * b
    for i, a in enumerate(im):
        for j, b in enumerate(im):
            out[i + j + 1] = out[i + j + 1] + a * b
    return out


def degree(A):
    """Degree of det(I - z A): zero eigenvalues of A come from zero rows or columns, and zero diagonal entries of triangular matrices."""
    ids = list(range(len(A)))
    while True:
        out = [i for i in ids if not (all(A[i][j] == 0 for j in ids) or all(A[j][i] == 0 for j in ids))]
        if len(out) == len(ids):
            break
        ids = out
    if all(A[i][j] == 0 for i in ids for j in ids if j > i):
        return sum(1 for i in ids if A[i][i] != 0)
    return len(ids)


def stable(H, label, A, b, linf):
    n = len(b)
    den = charpoly(A)
    num = charpoly([[A[i][j] - b[j] for j in range(n)] for i in range(n)])
    # terms above the degree are rounding of the table
    d = degree(A)
    H.true(label + ' numerator', all(abs(x) < 1e-13 for x in num[d + 1:]))
    H.true(label + ' denominator', all(abs(x) < 1e-13 for x in den[d + 1:]))
    num, den = num[:d + 1], den[:d + 1]
    # |R(iy)|^2 <= 1 + tol for every y
    D, N = axis(den), axis(num)
    tol = H.frac(1, 10 ** 9)
    y = H.real('y')
    w = y * y
    H.true(label + ' bounded on the imaginary axis', polyval([(1 + tol) * d - m for d, m in zip(D, N)], w) >= 0)
    # poles in the right half plane: Routh array of the reversed denominator (roots 1/z), leading zeros left out
    tri = all(A[i][j] == 0 for i in range(n) for j in range(i + 1, n))
    if tri:
        H.true(label + ' poles', all(A[i][i] >= 0 for i in range(n)))
    else:
        p = [(-1) ** k * c for k, c in enumerate(den)]          # det(I + z A): roots must be in the left half plane
        a, b, first = p[::-1][0::2], p[::-1][1::2], [p[-1]]
        for k in range(len(p) - 1):
            first.append(b[0])
            f = a[0] / b[0]
            bb = b + [0] * (len(a) - len(b))
            a, b = b, [a[i + 1] - f * bb[i + 1] for i in range(len(a) - 1)]
        H.true(label + ' poles', all(x > 0 for x in first))
    if linf:
        # R(inf) = 0: the degree of the numerator is below that of the denominator
        tol = 1e-5 if H.concrete else 1e-9
        H.true(label + ' at infinity', all(abs(x) <= tol * abs(den[d]) for x in num[d:]))


def scheme(q, H, name):
    p = H.choice('padding', [None, 'LEFT', 'RIGHT', 'BOTH'])
    g = q.qcoeff.Q_GENERATORS[name](padding=p)
    A = tolist(g.Q)
    stable(H, 'weights', A, [x for x in g.weights], name in LSTABLE)
    if name in EMBEDDED:
        stable(H, 'embedded weights', A, [x for x in g.weightsEmbedded], name in ('ESDIRK43', 'ESDIRK53'))
    if p is None:
        out = q.qcoeff.genQCoeffs(name)
        stable(H, 'generic function', tolist(out[2]), [x for x in out[1]], name in LSTABLE)


def collocation(q, H, qt, n):
    T = H.choice('interval', [1, 3])
    c = q.coll.Collocation(n, 'LEGENDRE', qt, tLeft=0, tRight=T)
    A = [[x / T for x in r] for r in tolist(c.Q)]
    stable(H, 'collocation', A, [x / T for x in c.weights], qt == 'RADAU-RIGHT')
