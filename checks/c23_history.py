"""C23: retrieving QDelta does not depend on what was retrieved before."""

ALG = ['PIC', 'Exact', 'LU', 'LU2', 'QPar', 'GS', 'LDU', 'MIN']
STEP = ['BE', 'FE', 'TRAP', 'BEPAR', 'TRAPAR', 'SOE']
NODE = ['MIN_SR_NS', 'Jumper', 'FlexJumper', 'DNODES', 'DNODES2', 'DNODES3', 'DNODES4', 'DNODES5']
COLL = ['MIN3', 'MIN_VDHS', 'MIN_SR_S', 'MIN_SR_FLEX']
DEP = ['Jumper', 'FlexJumper', 'MIN_SR_FLEX', 'userk']
USER = ['user', 'userk', 'userlist']

BOUNDS = ("every registered approximation; all histories of 2 retrievals (quick; the second out of five methods) / 3 (thorough) out of all retrieval methods, sweeps none, 1, 3 and lists of sweeps, "
          "each result overwritten by arbitrary values unless it is documented not to be a copy, followed by every retrieval; size 2 (3 for tables), symbolic Q or nodes; "
          "two generators of one class with different parameters (sizes, nodes, types, intervals, 2 to 4 stages) against a package imported afresh; 4 scripts of 6 retrievals and (for 3 nodes) one of 15 with sweeps 1..12, with sweeps 1..9 and 12 (quick) / 60 (thorough) and lists of up to 7 sweeps, sizes 3 and 5 (or 4)")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "scipy's root finder and minimiser are functions of the problem size"]


def cases(tier):
    th = tier != 'quick'
    out = []
    for n in ALG + STEP + NODE + COLL + USER:
        for first in KINDS:
            out.append(dict(name=f"{n}-{first}", fn='history', params=dict(name=n, first=first, L=3 if th else 2, more=KINDS if th else ['Q', 'view', 'S', 'list', 'dTau']), mode='approx' if n == 'MIN_VDHS' else 'exact', budget=900 if th else 60))
        if n in USER:
            continue
        out.append(dict(name=f"{n}-scripts", fn='scripts', params=dict(name=n, far=60 if th else 12), mode='approx' if n == 'MIN_VDHS' else 'exact', budget=900 if th else 60))
        out.append(dict(name=f"{n}-others", fn='others', params=dict(name=n, th=th), mode='approx', budget=300 if th else 60))
        out.append(dict(name=f"{n}-two", fn='two', params=dict(name=n), mode='approx' if n == 'MIN_VDHS' else 'exact', budget=60))
    out.append(dict(name="registered", fn='registered', params=dict(), budget=60))
    return out


KINDS = ['Q', 'view', 'S', 'Z2N', 'N2N', 'list', 'listN2N', 'both', 'dTau']
KS = [None, 1, 3]


def user(q, H, name):
    """A class of the user returning any matrices."""
    one = [[H.real(f'u{i}{j}') for j in range(2)] for i in range(2)]
    two = [[H.real(f'v{i}{j}') for j in range(2)] for i in range(2)] if name == 'userk' else None
    kept = H.arr(one)

    class Own(q.qdelta.QDeltaGenerator):
        def __init__(self, Q, **kwargs):
            self.Q = Q

        if name == 'userk':
            def computeQDelta(self, k=1):
                return H.arr([[x + (1 if k is None else k) * y for x, y in zip(r, s)] for r, s in zip(one, two)])
        elif name == 'user':
            def computeQDelta(self, k=None):
                return H.arr(one)
        else:
            def computeQDelta(self, k=None):
                # an array that is not contiguous
                return H.arr([[one[j][i] for j in range(2)] for i in range(2)]).T
    q.qdelta.register(Own)
    return lambda: Own(kept)


def maker(q, H, name, M=None):
    """Function creating a new generator."""
    if name in USER:
        return user(q, H, name)
    cls = q.qdelta.QDELTA_GENERATORS[name]
    M = M or (3 if name == 'MIN_VDHS' else 2)
    roots = {}

    def root(f, x0):
        n = x0.size
        if n not in roots:
            roots[n] = [H.real(f'r{n}{i}', lo=H.frac(1, 8), hi=1) for i in range(n)]
        return H.arr(roots[n])
    H.hooks(fsolve=root, minimize=lambda f, x0: H.arr([1] * x0.size))
    if name in COLL:
        return lambda: cls(M, 'LEGENDRE' if name == 'MIN_VDHS' or name == 'MIN3' and M > 2 else 'EQUID', 'RADAU-RIGHT')
    if name in ALG:
        Q = [[H.real('a', lo=H.frac(1, 4), hi=2), H.real('b')], [H.real('c'), H.real('d')]]
        if M == 2:
            H.assume(det(Q) > 0)
        else:
            s = H.real('s', lo=0, hi=2)
            Q = [[H.frac(1 + (7 * i * i + 3 * j + 5 * i * j) % 11, 16) + (2 if i == j else 0) + s * H.frac((i + 1) * (j + 2), 16) for j in range(M)] for i in range(M)]
        return lambda: cls(Q=H.arr(Q))
    x = H.reals('x', M)
    H.increasing(x)
    if name in NODE:
        return lambda: cls(nodes=H.arr(x))
    H.assume(x[0] > 0)
    return lambda: cls(nodes=H.arr(x), tLeft=0)


def retrieve(g, kind, k):
    """List of arrays."""
    ks = [2, 1 if k is None else k, 2]
    if kind == 'Q':
        return [g.getQDelta(k)]
    if kind == 'view':
        return [g.getQDelta(k, copy=False)]
    if kind == 'S':
        return [g.getSDelta(k)]
    if kind in ('Z2N', 'N2N'):
        return [g.genCoeffs(k=k, form=kind)]
    if kind == 'list':
        return [g.genCoeffs(k=ks)]
    if kind == 'listN2N':
        return [g.genCoeffs(k=ks, form='N2N')]
    if kind == 'both':
        return list(g.genCoeffs(k=k, dTau=True))
    return [g.dTau]


def expected(new, kind, k, memo):
    """The same from generators used once."""
    def once(what, i):
        if (what, i) not in memo:
            g = new()
            memo[what, i] = list(g.dTau) if what == 'dTau' else tolist(g.getQDelta(i) if what == 'Q' else g.getSDelta(i))
        return memo[what, i]
    ks = [2, 1 if k is None else k, 2]
    if kind in ('Q', 'view', 'Z2N'):
        return [once('Q', k)]
    if kind in ('S', 'N2N'):
        return [once('S', k)]
    if kind in ('list', 'listN2N'):
        return [[once('Q' if kind == 'list' else 'S', i) for i in ks]]
    if kind == 'both':
        return [once('Q', k), once('dTau', 0)]
    return [once('dTau', 0)]


def history(q, H, name, first, L, more):
    new = maker(q, H, name)
    g = new()
    memo = {}
    ks = KS if name in DEP else [None, 2]
    for i in range(L):
        kind = first if i == 0 else H.choice(f'kind{i}', more)
        k = None if kind == 'dTau' else H.choice(f'k{i}', ks)
        for a in retrieve(g, kind, k):
            if kind != 'view':
                a[...] = 7 + i
    for kind in KINDS:
        for k in ks[:1] if kind == 'dTau' else ks:
            for n, (a, b) in enumerate(zip(retrieve(g, kind, k), expected(new, kind, k, memo))):
                H.eq(f'{kind} {k} {n}', a - H.arr(b), 0 * H.arr(b))


SCRIPTS = [[('Q', 7), ('list', [1, 2, 3, 4, 5, 6, 7]), ('view', 7), ('S', 9), ('both', 2), ('N2N', 5)],
           [('S', 2), ('listN2N', [9, 2, 9]), ('Q', 9), ('Z2N', None), ('dTau', None), ('list', [4, 4, 4, 4])],
           [('view', None), ('view', 3), ('view', 4), ('Q', None), ('listN2N', [3, 4, 5]), ('S', None)],
           [('list', [5, 3, 1]), ('Q', 3), ('Q', 5), ('S', 8), ('dTau', None), ('view', 8)]]


def scripts(q, H, name, far):
    M = H.choice('size', (3, 5)) if name != 'MIN_VDHS' else 3
    if M == 5 and name in ('MIN', 'MIN3', 'MIN_SR_S', 'MIN_SR_FLEX'):
        M = 4
    new = maker(q, H, name, M)
    g = new()
    memo = {}

    def once(what, i):
        if (what, i) not in memo:
            f = new()
            memo[what, i] = list(f.dTau) if what == 'dTau' else tolist(f.getQDelta(i) if what == 'Q' else f.getSDelta(i))
        return memo[what, i]
    many = [('Q', i) for i in range(1, 13)] + [('S', 2), ('Q', 1), ('list', (12, 9, 1, 2))]
    all_ = SCRIPTS + ([many] if M < 4 else [])
    for n, (kind, k) in enumerate(all_[H.choice('script', range(len(all_)))] + [('Q', far), ('S', far), ('Q', 6), ('Q', None)]):
        if kind in ('list', 'listN2N'):
            res = [g.genCoeffs(k=list(k), form='N2N' if kind == 'listN2N' else 'Z2N')]
            ref = [[once('S' if kind == 'listN2N' else 'Q', i) for i in k]]
        elif kind == 'dTau':
            res, ref = [g.dTau], [once('dTau', 0)]
        elif kind == 'both':
            res, ref = g.genCoeffs(k=k, dTau=True), [once('Q', k), once('dTau', 0)]
        else:
            res = [g.genCoeffs(k=k, form=kind) if kind in ('Z2N', 'N2N') else g.getSDelta(k) if kind == 'S' else g.getQDelta(k, copy=kind == 'Q')]
            ref = [once('S' if kind in ('S', 'N2N') else 'Q', k)]
        for a, b in zip(res, ref):
            H.eq(f'{n} {kind} {k}', a - H.arr(b), 0 * H.arr(b))
            if kind != 'view':
                a[...] = 7


def two(q, H, name):
    """Two generators of the same class do not influence each other."""
    n1 = maker(q, H, name)
    a, b = n1(), n1()
    k = H.choice('k', KS)
    r = tolist(b.getQDelta(k))
    x, y, z = a.getQDelta(k), a.getQDelta(1, copy=False), a.dTau
    x[...] = 5
    z[...] = 5
    H.eq('other generator', b.getQDelta(k) - H.arr(r), 0 * H.arr(r))
    H.eq('new generator', n1().getQDelta(k) - H.arr(r), 0 * H.arr(r))
    # keyword and positional sweep
    H.eq('keyword', a.getQDelta(k=k) - H.arr(r), 0 * H.arr(r))
    H.eq('copies', a.getQDelta(k, True) - H.arr(r), 0 * H.arr(r))


def parameters(H, name, th):
    """Parameters of two different generators: functions of the package."""
    if name in COLL:
        if name == 'MIN_VDHS':
            opts = [(3, 'LEGENDRE', 'RADAU-RIGHT'), (4, 'LEGENDRE', 'RADAU-RIGHT')]
        elif name == 'MIN3':
            opts = [(2, 'LEGENDRE', 'RADAU-RIGHT'), (2, 'LEGENDRE', 'LOBATTO'), (2, 'EQUID', 'RADAU-RIGHT'), (3, 'LEGENDRE', 'RADAU-RIGHT'), (3, 'EQUID', 'RADAU-RIGHT')]
        else:
            opts = [(2, 'EQUID', 'RADAU-RIGHT'), (2, 'LEGENDRE', 'RADAU-RIGHT'), (2, 'EQUID', 'GAUSS'), (3, 'EQUID', 'RADAU-RIGHT'), (3, 'LEGENDRE', 'LOBATTO'),
                    (2, 'CHEBY-1', 'RADAU-RIGHT'), (2, 'CHEBY-4', 'RADAU-RIGHT'), (2, 'CHEBY-3', 'GAUSS')]
        i = H.choice('first', range(len(opts)))
        j = H.choice('second', [j for j in range(len(opts)) if j != i])
        return [lambda q: opts[i], lambda q: opts[j]], ['nNodes', 'nodeType', 'quadType']
    m = H.choice('sizes', ((2, 2), (2, 3), (3, 2)))
    if name in ALG:
        Qs = []
        for n, c in zip(m, 'ab'):
            s = H.real('s' + c, lo=0, hi=2)
            Qs.append([[H.frac(1 + (7 * i * i + 3 * j + 5 * i * j + ord(c)) % 11, 16) + (2 if i == j else 0) + s * H.frac((i + 1) * (j + 2), 16) for j in range(n)] for i in range(n)])
        return [lambda q: (H.arr(Qs[0]),), lambda q: (H.arr(Qs[1]),)], ['Q']
    same = H.choice('same', ('none', 'first', 'last', 'all'))
    xs = [H.reals(c, n, lo=H.frac(1, 8)) for n, c in zip(m, 'xy')]
    if name in NODE:
        if same == 'all':
            same = 'none'
    t = [0, 0]
    if same == 'all':
        # the same nodes on different intervals
        xs[1] = xs[0]
        t = [0, H.real('t', hi=0)]
    elif same == 'first':
        xs[1][0] = xs[0][0]
    elif same == 'last':
        xs[1][-1] = xs[0][-1]
    for x in xs:
        H.increasing(x)
    if name in NODE:
        return [lambda q: (H.arr(xs[0]),), lambda q: (H.arr(xs[1]),)], ['nodes']
    return [lambda q: (H.arr(xs[0]), t[0]), lambda q: (H.arr(xs[1]), t[1])], ['nodes', 'tLeft']


def others(q, H, name, th):
    """Generators of one class with different parameters do not influence each other: the same as in a package where nothing else was asked."""
    par, keys = parameters(H, name, th)
    who = ['']
    roots = {}

    def root(f, x0):
        i = (who[0], x0.size)
        if i not in roots:
            roots[i] = [H.real(f'r{who[0]}{x0.size}{k}', lo=H.frac(1, 8), hi=1) for k in range(x0.size)]
        return H.arr(roots[i])
    H.hooks(fsolve=root, minimize=lambda f, x0: H.arr([1 + H.frac(i + 1, 8) if who[0] == 'A' else 2 - H.frac(i + 1, 8) for i in range(x0.size)]))
    ks = [None, 1, 2, 4] if name in DEP else [None, 2]
    kw = lambda p, i: dict(zip(keys, par[i](p)))

    def ask(p, g, i, how):
        who[0] = 'AB'[i]
        res = []
        for k in ks:
            res.append(g.getQDelta(k))
            if how != 'few':
                res += [g.getSDelta(k), p.qdelta.genQDeltaCoeffs(name, nSweeps=2, **kw(p, i))]
        return [tolist(a) if a.ndim == 2 else [r for b in a for r in tolist(b)] for a in res] + [[list(g.dTau)]]
    cls = lambda p: p.qdelta.QDELTA_GENERATORS[name]

    def new(p, i):
        who[0] = 'AB'[i]
        return cls(p)(**kw(p, i))
    ref = []
    for i in (0, 1):
        p = H.fresh()
        ref.append(ask(p, new(p, i), i, 'all'))
    order = H.choice('order', ('ABA', 'both')) if th else 'both'
    if order == 'both':
        gs = [new(q, 0), new(q, 1)]
        seq = [(gs[0], 0), (gs[1], 1), (gs[0], 0)]
    else:
        seq = [(None, 0), (None, 1), (None, 0)]
    for n, (g, i) in enumerate(seq):
        g = g or new(q, i)
        for j, (a, b) in enumerate(zip(ask(q, g, i, 'all'), ref[i])):
            H.same(f'shape {n} {j}', [len(r) for r in a], [len(r) for r in b])
            H.eq(f'generator {"AB"[i]} {n} {j}', H.arr(a) - H.arr(b), 0 * H.arr(b))


def registered(q, H):
    """The list of approximations covered above is complete."""
    names = sorted(c.__name__ for c in set(q.qdelta.QDELTA_GENERATORS.values()))
    H.same('approximations', [n for n in names if n not in ALG + STEP + NODE + COLL], [])
    x = H.real('x')
    H.eq('witness', x - x, 0)
