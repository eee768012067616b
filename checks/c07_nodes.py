"""C07: quadrature nodes are the roots of the right (boundary-modified) orthogonal polynomial."""

BOUNDS = ("all node and quadrature types: every node a root of the reference polynomial, 2..32 nodes (quick) / 65 (thorough); 1..10 nodes (quick) / 1..16 (thorough): orthogonality of the node polynomial to every polynomial of "
          "lower degree with coefficients in [-1,1]; recurrence evaluation for any real t, alpha, beta with up to 4 coefficients")
ASSUMPTIONS = ["real arithmetic (rounding not modelled); eigenvalues of the tridiagonal matrix handed to scipy are taken at 220 bits (library contract)"]

TYPES = ['LEGENDRE', 'CHEBY-1', 'CHEBY-2', 'CHEBY-3', 'CHEBY-4']
QUADS = ['GAUSS', 'RADAU-LEFT', 'RADAU-RIGHT', 'LOBATTO']


def cases(tier):
    th = tier != 'quick'
    out = []
    N = 16 if th else 10
    for nt in TYPES:
        for qt in QUADS:
            for a, b in ((2, 16), (17, 23), (24, 28), (29, 32)) + (((33, 40), (41, 48), (64, 65)) if th else ()):
                out.append(dict(name=f"roots-{nt}-{qt}-{a}", fn='roots', params=dict(nt=nt, qt=qt, a=a, b=b), mode='approx', budget=900 if th else 60))
            out.append(dict(name=f"{nt}-{qt}", fn='orth', params=dict(nt=nt, qt=qt, N=N), mode='approx', budget=900 if th else 60))
    for nt in TYPES:
        out.append(dict(name=f"coeffs-{nt}", fn='coeffs', params=dict(nt=nt, N=N), mode='approx'))
    for qt in QUADS:
        out.append(dict(name=f"EQUID-{qt}", fn='equid', params=dict(qt=qt, N=2 * N)))
    for n in range(0, 5 if th else 4):
        out.append(dict(name=f"recurrence-{n}", fn='recurrence', params=dict(n=n)))
    out.append(dict(name="refusals", fn='refusals'))
    return out


def moments(nt, n, H):
    """Moments of the weight function over [-1,1], divided by its mass."""
    m = [H.frac(1)]
    for k in range(1, n + 3):
        m.append(H.frac(0) if k % 2 else m[k - 2] * H.frac(k - 1, k))
    if nt == 'LEGENDRE':
        return [H.frac(0) if k % 2 else H.frac(1, k + 1) for k in range(n + 1)]
    if nt == 'CHEBY-1':
        return m[:n + 1]
    if nt == 'CHEBY-2':
        return [2 * (m[k] - m[k + 2]) for k in range(n + 1)]
    s = 1 if nt == 'CHEBY-3' else -1
    return [m[k] + s * m[k + 1] for k in range(n + 1)]


def orth(q, H, nt, qt, N):
    nb = dict(GAUSS=0, LOBATTO=2).get(qt, 1)
    left, right = qt in ('RADAU-LEFT', 'LOBATTO'), qt in ('RADAU-RIGHT', 'LOBATTO')
    gen = q.nodes.NodesGenerator(nt, qt)
    mom = moments(nt, 2 * N, H)
    c = [H.real(f'c{k}', lo=-1, hi=1) for k in range(N)]
    for n in range(2 if left else 1, N + 1):
        x = gen.getNodes(n)
        H.same(f'shape {n}', x.shape, (n,))
        for i in range(1, n):
            H.true(f'increasing {n} {i}', x[i] > x[i - 1])
        if left:
            H.true(f'left {n}', x[0] == -1)
        else:
            H.true(f'inside left {n}', x[0] > -1)
        if right:
            H.true(f'right {n}', x[n - 1] == 1)
        else:
            H.true(f'inside right {n}', x[n - 1] < 1)
        p = monic([x[i] for i in range(n)])
        # orthogonal to every polynomial of degree < n - nb
        H.eq(f'orthogonal {n}', sum(c[k] * sum(p[i] * mom[i + k] for i in range(n + 1)) for k in range(n - nb)), 0)
    # independent of what the generator computed before
    x = gen.getNodes(3)
    y = q.nodes.NodesGenerator(nt, qt).getNodes(3)
    H.eq('repeated', x, y)
    if nt == 'LEGENDRE' and qt == 'LOBATTO':
        H.eq('default', q.nodes.NodesGenerator().getNodes(4), gen.getNodes(4))


def refpoly(nt, n, x, H):
    """Orthogonal polynomials of degree n-2, n-1, n at x, scaled to be of moderate size."""
    p = [None, H.frac(1), x]
    if nt == 'CHEBY-2':
        p[2] = 2 * x
    if nt == 'CHEBY-3':
        p[2] = 2 * x - 1
    if nt == 'CHEBY-4':
        p[2] = 2 * x + 1
    if n == 1:
        return p
    for k in range(1, n):
        if nt == 'LEGENDRE':
            r = (H.frac(2 * k + 1, k + 1)) * x * p[2] - H.frac(k, k + 1) * p[1]
        else:
            r = 2 * x * p[2] - p[1]
        p = [p[1], p[2], r]
    return p


def roots(q, H, nt, qt, a, b):
    """Every node is a root of the (boundary-modified) orthogonal polynomial, and they are all there."""
    left, right = qt in ('RADAU-LEFT', 'LOBATTO'), qt in ('RADAU-RIGHT', 'LOBATTO')
    gen = q.nodes.NodesGenerator(nt, qt)
    s = H.real('s', lo=-1, hi=1)
    for n in range(a, b + 1):
        x = gen.getNodes(n)
        H.same(f'shape {n}', x.shape, (n,))
        for i in range(1, n):
            H.true(f'increasing {n} {i}', x[i] > x[i - 1])
        H.true(f'left {n}', x[0] == -1 if left else x[0] > -1)
        H.true(f'right {n}', x[n - 1] == 1 if right else x[n - 1] < 1)
        P = [refpoly(nt, n, x[i], H) for i in range(n)]
        for i in range(n):
            if (left and i == 0) or (right and i == n - 1):
                continue
            if left and right:
                l, r = refpoly(nt, n, H.frac(-1), H), refpoly(nt, n, H.frac(1), H)
                v = det([[u[0], u[1], u[2]] for u in (l, r, P[i])]) if n > 2 else P[i][2]
                v = v / (1 + abs(l[2]) + abs(r[2]) + abs(l[1]) + abs(r[1]))
            elif left or right:
                e = refpoly(nt, n, H.frac(-1 if left else 1), H)
                v = (P[i][2] * e[1] - P[i][1] * e[2]) / (1 + abs(e[1]) + abs(e[2]))
            else:
                v = P[i][2]
            H.eq(f'root {n} {i}', s * v, 0)


def coeffs(q, H, nt, N):
    """alpha, beta are the recurrence coefficients of the monic orthogonal polynomials."""
    mom = moments(nt, 2 * N, H)
    gen = q.nodes.NodesGenerator(nt, 'GAUSS')
    dot = lambda a, b: sum(u * v * mom[i + j] for i, u in enumerate(a) for j, v in enumerate(b))
    t = H.real('t', lo=-1, hi=1)
    prev, cur = [0], [1]
    al, be = gen.getOrthogPolyCoefficients(N)
    H.same('shapes', (al.shape, be.shape), ((N,), (N,)))
    for k in range(N - 1):
        n2 = dot(cur, cur)
        a = dot([0] + cur, cur) / n2
        b = n2 / dot(prev, prev) if k else 0
        H.eq(f'alpha{k}', al[k], a)
        if k:
            H.eq(f'beta{k}', be[k], b)
        nxt = [0] + cur
        for i, v in enumerate(cur):
            nxt[i] = nxt[i] - a * v
        if k:
            for i, v in enumerate(prev):
                nxt[i] = nxt[i] - b * v
        prev, cur = cur, nxt
        lo, hi = gen.evalOrthogPoly(t, al[:k + 1], be[:k + 1])
        H.eq(f'pi{k + 1}', hi, polyval(cur, t))
        H.eq(f'pi{k}', lo, polyval(prev, t))
    for m in range(1, N):
        a2, b2 = gen.getOrthogPolyCoefficients(m)
        H.eq(f'prefix alpha {m}', a2, al[:m])
        H.eq(f'prefix beta {m}', b2, be[:m])


def recurrence(q, H, n):
    """Polynomials of any coefficients, scalar and vector arguments."""
    gen = q.nodes.NodesGenerator('LEGENDRE', 'GAUSS')
    t = H.reals('t', 2)
    al, be = H.reals('al', n), H.reals('be', n)
    lo, hi = gen.evalOrthogPoly(H.arr(t), H.arr(al), H.arr(be))
    for i in range(2):
        # p_{-1} = 0, except that a zero number of steps leaves the initial values
        p0, p1 = 0, 1
        for k in range(n):
            p0, p1 = p1, (t[i] - al[k]) * p1 - (be[k] * p0 if k else 0)
        if n:
            H.eq(f'lower {i}', lo[i], p0)
        H.eq(f'upper {i}', hi[i], p1)
        s0, s1 = gen.evalOrthogPoly(t[i], al, be)
        H.eq(f'scalar {i}', s1, p1)
        if n:
            H.eq(f'scalar lower {i}', s0, p0)


def equid(q, H, qt, N):
    left, right = qt in ('RADAU-LEFT', 'LOBATTO'), qt in ('RADAU-RIGHT', 'LOBATTO')
    gen = q.nodes.NodesGenerator('EQUID', qt)
    t = H.real('t')
    for n in range(2 if left else 1, N + 1):
        x = gen.getNodes(n)
        k0 = 0 if left else 1
        m = n - 1 + k0 + (0 if right else 1)
        H.same(f'shape {n}', x.shape, (n,))
        for i in range(n):
            # affine in the index, at any place t of the index axis
            H.eq(f'x{n} {i}', x[i] * t, (H.frac(2 * (i + k0), m) - 1) * t if m else -t)
    if not left:
        return


def refusals(q, H):
    NG = q.nodes.NodesGenerator
    types = TYPES + ['EQUID']
    nt = H.choice('nodeType', types + ['NOPE', 'legendre', ''])
    qt = H.choice('quadType', QUADS + ['NOPE', 'RADAU', 'Gauss'])
    if nt not in types or qt not in QUADS:
        H.raises('types', lambda: NG(nt, qt))
        return
    gen = NG(nt, qt)
    n = H.choice('n', (-1, 0, 1))
    if n < 1 or qt in ('RADAU-LEFT', 'LOBATTO'):
        H.raises('number of nodes', lambda: gen.getNodes(n), ValueError)
    else:
        H.same('one node', gen.getNodes(n).shape, (1,))
