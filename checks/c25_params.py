"""C25: QDelta parameters come from qGen unless given, in every calling form."""

ALG = ['PIC', 'Exact', 'LU', 'LU2', 'QPar', 'GS', 'LDU', 'MIN']
STEP = ['BE', 'FE', 'TRAP', 'BEPAR', 'TRAPAR', 'SOE']
NODE = ['MIN_SR_NS', 'Jumper', 'FlexJumper', 'DNODES', 'DNODES2', 'DNODES3', 'DNODES4', 'DNODES5']
COLL = ['MIN3', 'MIN_VDHS', 'MIN_SR_S', 'MIN_SR_FLEX']

BOUNDS = ("every registered approximation; a collocation method on any interval, any Runge-Kutta table with 2 stages and a user-defined Q-generator; every subset of the parameters "
          "given by position or keyword, through classes, the generic function, qGen and the deprecated keyword; 2 nodes (3 for tables); the calling forms with 3..5 (quick) / 3..6 (thorough) nodes on any interval")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "scipy's root finder and minimiser return arbitrary vectors (one per problem size)"]


def cases(tier):
    out = []
    for n in ALG + STEP + NODE + COLL:
        b = 900 if tier != 'quick' else 60
        m = 'approx' if n == 'MIN_VDHS' else 'exact'
        out.append(dict(name=f"collocation-{n}", fn='collocation', params=dict(name=n), mode=m, budget=b))
        if n not in ('MIN', 'MIN_VDHS'):
            out.append(dict(name=f"larger-{n}", fn='larger', params=dict(name=n, top=6 if tier != 'quick' else 5), mode='approx' if n == 'MIN3' else 'exact', budget=b))
        out.append(dict(name=f"override-{n}", fn='override', params=dict(name=n), mode=m, budget=b))
        out.append(dict(name=f"refusals-{n}", fn='refusals', params=dict(name=n), mode=m, budget=b))
        if n not in COLL:
            out.append(dict(name=f"table-{n}", fn='table', params=dict(name=n), budget=b))
    out.append(dict(name="userdefined", fn='userdefined', params=dict(), budget=60))
    out.append(dict(name="userowned", fn="userowned", params=dict(), budget=60))
    return out


def stubs(H):
    roots = {}

    def root(f, x0):
        n = x0.size
        if n not in roots:
            roots[n] = [H.real(f'r{n}{i}', lo=H.frac(1, 8), hi=1) for i in range(n)]
        return H.arr(roots[n])

    def mini(f, x0):
        return H.arr([1] * x0.size)
    H.hooks(fsolve=root, minimize=mini)


def outputs(g):
    out = [g.getQDelta(), g.dTau, g.getSDelta()]
    if g.isKDependent():
        out += [g.getQDelta(2), g.getQDelta(7)]
    return out


def same(H, label, a, b):
    for n, (x, y) in enumerate(zip(a, b)):
        H.same(f'{label} shape {n}', tuple(x.shape), tuple(y.shape))
        H.eq(f'{label} {n}', x - y, 0 * y)


def generic(q, H, label, name, g, **kw):
    res = q.qdelta.genQDeltaCoeffs(name, dTau=True, **kw)
    same(H, label, res, [g.getQDelta(), g.dTau])
    res = q.qdelta.genQDeltaCoeffs(name, nSweeps=2, **kw)
    H.eq(label + ' sweeps', res - H.arr([tolist(g.getQDelta(1)), tolist(g.getQDelta(2))]), 0 * res)


def interval(q, H, name):
    M = 3 if name == 'MIN_VDHS' else 2
    nt, qt = ('LEGENDRE' if M == 3 else 'EQUID'), 'RADAU-RIGHT'
    tL, L = H.real('tL', lo=-4, hi=4), H.real('L', lo=H.frac(1, 4), hi=4)
    if M == 3:
        return q.coll.Collocation(M, nt, qt), 0
    return q.coll.Collocation(M, nt, qt, tLeft=tL, tRight=tL + L), tL


def separate(C, name, tL):
    if name in ALG:
        return dict(Q=C.Q)
    if name in STEP:
        return dict(nodes=C.nodes, tLeft=tL)
    if name in NODE:
        return dict(nodes=C.nodes)
    return dict(nNodes=C.nNodes, nodeType=C.nodeType, quadType=C.quadType)


def collocation(q, H, name):
    """A generator built from a collocation method equals the one built from its parameters."""
    stubs(H)
    C, tL = interval(q, H, name)
    if name == 'MIN_VDHS':
        H.eq('witness', tL * H.real('w'), 0)
    cls = q.qdelta.QDELTA_GENERATORS[name]
    sep = separate(C, name, tL)
    r = cls(**sep)
    ref = outputs(r)
    how = H.choice('calling', ('class', 'position', 'generic', 'generic separate', 'deprecated', 'deprecated generic', 'extra'))
    if how == 'class':
        same(H, how, outputs(cls(qGen=C)), ref)
    elif how == 'position':
        same(H, how, outputs(cls(*sep.values())), ref)
    elif how == 'generic':
        generic(q, H, how, name, r, qGen=C)
    elif how == 'generic separate':
        generic(q, H, how, name, r, **sep)
    elif how == 'deprecated':
        same(H, how, outputs(cls(coll=C)), ref)
    elif how == 'deprecated generic':
        generic(q, H, how, name, r, coll=C)
    else:
        same(H, how, outputs(cls(qGen=C, foo=1, bar=[2])), ref)
        same(H, how + ' separate', outputs(cls(foo=1, **sep)), ref)
        generic(q, H, how + ' generic', name, r, qGen=C, foo=3)


def larger(q, H, name, top):
    """The same with more nodes."""
    stubs(H)
    M = H.choice('nodes', (3, 4) if name in ('MIN3', 'MIN_SR_S', 'MIN_SR_FLEX') else range(3, top + 1))
    if name == 'MIN3':
        C, tL = q.coll.Collocation(M, 'LEGENDRE', 'RADAU-RIGHT'), 0
        H.eq('witness', 0 * H.real('w'), 0)
    else:
        tL, L = H.real('tL', lo=-4, hi=4), H.real('L', lo=H.frac(1, 4), hi=4)
        C = q.coll.Collocation(M, 'EQUID', 'GAUSS' if M == 4 else 'RADAU-RIGHT', tLeft=tL, tRight=tL + L)
    cls = q.qdelta.QDELTA_GENERATORS[name]
    sep = separate(C, name, tL)
    r = cls(**sep)
    ref = outputs(r)
    same(H, 'class', outputs(cls(qGen=C)), ref)
    same(H, 'position', outputs(cls(*sep.values())), ref)
    generic(q, H, 'generic', name, r, qGen=C)
    generic(q, H, 'generic separate', name, r, **sep)
    same(H, 'given', outputs(cls(qGen=C, **dict(list(sep.items())[:1]))), ref)


def override(q, H, name):
    """Parameters given explicitly replace those of the Q-generator, and only those."""
    stubs(H)
    C, tL = interval(q, H, name)
    if name == 'MIN_VDHS':
        H.eq('witness', tL * H.real('w'), 0)
    cls = q.qdelta.QDELTA_GENERATORS[name]
    sep = separate(C, name, tL)
    if name in ALG:
        Q = [[H.real('a', lo=H.frac(1, 4), hi=2), H.real('b')], [H.real('c'), H.real('d')]]
        H.assume(det(Q) > 0)
        new = dict(Q=H.arr(Q))
    elif name in STEP + NODE:
        x = H.reals('x', 2)
        H.increasing(x)
        new = dict(nodes=H.arr(x))
        if name in STEP:
            t = H.real('t')
            H.assume(t < x[0])
            H.assume(tL < x[0])
            H.assume(t < C.nodes[0])
            new['tLeft'] = t
    else:
        new = dict(nNodes=4 if name in ('MIN3', 'MIN_VDHS') else 3, nodeType='LEGENDRE' if name == 'MIN3' else C.nodeType,
                   quadType='LOBATTO' if name != 'MIN_VDHS' else C.quadType)
        if name == 'MIN3':      # the entry for two Legendre nodes, four Legendre nodes and so on
            C = q.coll.Collocation(2, 'LEGENDRE', 'LOBATTO')
            sep = separate(C, name, 0)
            new = dict(nNodes=4, nodeType='LEGENDRE', quadType='RADAU-RIGHT')
    keys = list(new)
    pick = H.choice('given', range(1, 2 ** len(keys)))
    given = {k: new[k] for i, k in enumerate(keys) if pick >> i & 1}
    merged = dict(sep)
    merged.update(given)
    ref = outputs(cls(**merged))
    same(H, 'keyword', outputs(cls(qGen=C, **given)), ref)
    generic(q, H, 'generic', name, cls(**merged), qGen=C, **given)
    if list(given) == keys[:len(given)]:
        same(H, 'position', outputs(cls(*given.values(), qGen=C)), ref)
    if list(given) == keys:
        same(H, 'all given', outputs(cls(**given)), ref)
    elif len(keys) > 1 and list(given) == keys[:len(given)]:
        k = keys[len(given)]
        both = dict(merged)
        both[k] = new[k]
        same(H, 'position and keyword', outputs(cls(*given.values(), qGen=C, **{k: new[k]})), outputs(cls(**both)))


def table(q, H, name):
    """Runge-Kutta tables and user-defined Q-generators as qGen."""
    stubs(H)
    A = [[H.real('a', lo=H.frac(1, 4), hi=2), H.real('b')], [H.real('c'), H.real('d')]]
    H.assume(det(A) > 0)
    x = H.reals('x', 2)
    H.increasing(x)
    H.assume(x[0] > 0)
    if H.choice('user', (False, True)):
        class Mine(q.qcoeff.QGenerator):
            @property
            def nodes(self):
                return H.arr(x)

            @property
            def Q(self):
                return H.arr(A)

            weights = order = None
        qGen = Mine()
    else:
        AA, xx = A, x

        class Mine(q.butcher.RK):
            A = AA
            b = [H.frac(1, 2), H.frac(1, 2)]
            c = xx

            @property
            def order(self):
                return 1
        q.butcher.registerRK(Mine)
        qGen = Mine()
    cls = q.qdelta.QDELTA_GENERATORS[name]
    ref = cls(Q=H.arr(A)) if name in ALG else cls(nodes=H.arr(x))
    same(H, 'class', outputs(cls(qGen=qGen)), outputs(ref))
    generic(q, H, 'generic', name, ref, qGen=qGen)
    if name in STEP:
        t = H.real('t')
        H.assume(t < x[0])
        same(H, 'left bound', outputs(cls(qGen=qGen, tLeft=t)), outputs(cls(nodes=H.arr(x), tLeft=t)))


def refusals(q, H, name):
    """Ambiguous or unsuitable parameters."""
    stubs(H)
    C, tL = interval(q, H, name)
    cls = q.qdelta.QDELTA_GENERATORS[name]
    x = H.real('y')
    H.eq('witness', x - x, 0)
    H.raises('both keywords', lambda: cls(qGen=C, coll=C), AssertionError)
    for bad in ('BE', 3, {'Q': 1}, q.coll.Collocation):
        H.raises(f'{type(bad).__name__} as qGen', lambda: cls(qGen=bad), AssertionError)
    H.raises('nothing', lambda: cls(), TypeError)
    H.raises('nothing, generic', lambda: q.qdelta.genQDeltaCoeffs(name), TypeError)
    if name in COLL:
        rk = q.butcher.RK_SCHEMES['RK4']()
        H.raises('Runge-Kutta table', lambda: cls(qGen=rk), AssertionError)
    if not H.concrete:
        return
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        cls(coll=C)
        cls(qGen=C)
    H.same('one deprecation warning', len([v for v in w if issubclass(v.category, DeprecationWarning)]), 1)


def userowned(q, H):
    """A class of the user with parameters that the Q-generator does not give."""
    class Own(q.qdelta.QDeltaGenerator):
        aliases = ['Owned']

        def __init__(self, nodes, theta=3, *, shift=5, **kwargs):
            self.nodes = H.np.asarray(nodes)
            self.theta, self.shift, self.more = theta, shift, kwargs

        @staticmethod
        def extractParams(qGen):
            return {'nodes': qGen.nodes}

        @property
        def size(self):
            return self.nodes.size

        def computeQDelta(self, k=1):
            return H.np.diag(self.nodes) * self.theta * (1 if k is None else k) + self.shift

    q.qdelta.register(Own)
    C = q.coll.Collocation(2, 'EQUID', 'GAUSS')
    x = list(C.nodes)
    y = H.reals('y', 2)
    th, sh = H.real('theta'), H.real('shift')
    given = H.choice('given', ((), ('theta',), ('shift',), ('theta', 'shift'), ('nodes',), ('nodes', 'theta', 'shift')))
    kw = {k: {'theta': th, 'shift': sh, 'nodes': H.arr(y)}[k] for k in given}
    how = H.choice('how', ('qGen', 'coll', 'position', 'plain'))
    z = y if 'nodes' in kw else x

    def ref(k):
        return H.arr([[(z[i] * kw.get('theta', 3) * k if i == j else 0) + kw.get('shift', 5) for j in range(2)] for i in range(2)])
    if how == 'position':
        # nodes and theta by position, the rest from keywords
        g = Own(*([kw.pop('nodes', H.arr(z))] + ([kw['theta']] if 'theta' in kw else [])), **{k: v for k, v in kw.items() if k != 'theta'}, qGen=C)
    elif how == 'plain':
        g = Own(**dict(dict(nodes=H.arr(z)), **kw))
    else:
        g = Own(**{how: C}, **kw, extra=1)
        H.same('further parameters', sorted(g.more), ['extra'])
        kq = dict(kw)
        H.eq('generic', q.qdelta.genQDeltaCoeffs('Owned', qGen=C, **kw), ref(1))
        H.eq('sweeps', q.qdelta.genQDeltaCoeffs('Owned', nSweeps=3, qGen=C, **kw) - H.arr([list(map(list, ref(k))) for k in (1, 2, 3)]), H.arr([[[0, 0], [0, 0]]] * 3))
        H.eq('list', q.qdelta.genQDeltaCoeffs(['Owned', 'BE'], qGen=C, **kw)[0], ref(1))
    if how == 'position' and 'theta' in given:
        kw['theta'] = th
    for k in (1, 3):
        H.eq(f'sweep {k}', g.getQDelta(k), ref(k))


def userdefined(q, H):
    """A registered class of the user, with its own parameters."""
    seen = []

    class Mine(q.qdelta.QDeltaGenerator):
        aliases = ['Ours']

        def __init__(self, Q, a, b=2, **kwargs):
            self.Q = H.np.asarray(Q)
            self.a, self.b = a, b
            seen.append(sorted(kwargs))

        @staticmethod
        def extractParams(qGen):
            return {'Q': qGen.Q, 'a': qGen.weights[0], 'b': qGen.weights[1]}

        def computeQDelta(self, k=None):
            return self.a * self.Q + self.b

    q.qdelta.register(Mine)
    rk = q.butcher.RK_SCHEMES['HEUN2']()
    Q = tolist(rk.Q)
    a, b = H.real('a'), H.real('b')
    given = H.choice('given', ((), ('a',), ('b',), ('a', 'b')))
    kw = {k: {'a': a, 'b': b}[k] for k in given}
    aa, bb = kw.get('a', H.frac(1, 2)), kw.get('b', H.frac(1, 2))
    ref = [[aa * v + bb for v in r] for r in Q]
    H.eq('from the table', Mine(qGen=rk, **kw).getQDelta(), H.arr(ref))
    H.eq('generic', q.qdelta.genQDeltaCoeffs('Ours', qGen=rk, other=4, **kw), H.arr(ref))
    ref = [[a * v + kw.get('b', 2) for v in r] for r in Q]
    kw.pop('a', None)
    H.eq('separate', Mine(rk.Q, a, **kw).getQDelta(), H.arr(ref))
    H.eq('keywords', Mine(a=a, Q=rk.Q, **kw).getQDelta(), H.arr(ref))
    H.same('other parameters', [sorted(s) for s in seen][1], ['other'])
