"""C24: multi-sweep generation gives sweep k the matrix of the right type and index."""

NAMES = ['BE', 'TRAP', 'FE', 'LU', 'Exact', 'MIN-SR-NS', 'Jumper', 'FB2', 'MIN-SR-FLEX', 'PIC']

BOUNDS = ("lists of 1..2 types out of 10 (quick) / 1..3 (thorough), and single names, sweep counts none and 1..5, and lists of up to 6 types and counts up to 12 (quick) / 40 (thorough) with 3 or 5 nodes, both forms, with and without delta_tau, "
          "parameters given separately (symbolic Q and nodes) or by a collocation method with symbolic right bound; refusals for illegal counts, types, lists and forms; 2 nodes otherwise")
ASSUMPTIONS = ["real arithmetic (rounding not modelled)", "scipy's root finder and minimiser return arbitrary vectors (one per problem size)"]


def cases(tier):
    th = tier != 'quick'
    out = []
    for a in NAMES:
        out.append(dict(name=f"single-{a}", fn='single', params=dict(name=a), budget=60))
        out.append(dict(name=f"list-{a}", fn='lists', params=dict(first=a, L=3 if th else 2, top=6 if th else 4), budget=900 if th else 60))
    for a in NAMES:
        out.append(dict(name=f"long-{a}", fn='long', params=dict(name=a, top=40 if th else 12), budget=900 if th else 60))
    for i in range(len(LISTS)):
        out.append(dict(name=f"longlist-{i}", fn='longlist', params=dict(i=i, top=20 if th else 9), budget=900 if th else 60))
    out.append(dict(name="lists-of-three", fn='three', params=dict(), budget=60))
    out.append(dict(name="refusals", fn='refusals', params=dict(), budget=60))
    return out


LISTS = [['BE', 'LU', 'Jumper', 'FB2'], ['FB2', 'MIN-SR-FLEX', 'LU', 'FB2', 'TRAP'], ['MIN-SR-FLEX'] * 5, ['LU', 'FE', 'BE', 'FE', 'LU', 'Jumper'],
         ['Jumper', 'Jumper', 'BE', 'BE', 'MIN-SR-FLEX'], ['MIN-SR-NS', 'TRAP', 'PIC', 'Exact', 'MIN-SR-NS', 'MIN-SR-FLEX']]


def setup(q, H, how, M=2):
    roots = {}

    def root(f, x0):
        n = x0.size
        if n not in roots:
            roots[n] = [H.real(f'r{n}{i}', lo=H.frac(1, 8), hi=1) for i in range(n)]
        return H.arr(roots[n])
    H.hooks(fsolve=root, minimize=lambda f, x0: H.arr([1, 1]))
    if how == 'qGen':
        R = H.real('R', lo=H.frac(1, 4), hi=4)
        return lambda: dict(qGen=q.coll.Collocation(M, 'EQUID', 'RADAU-RIGHT', tRight=R))
    x = H.reals('x', M)
    H.increasing(x)
    H.assume(x[0] > 0)
    Q = [[H.real('q00', lo=H.frac(1, 4), hi=2) if i == j == 0 else H.frac(1 + 3 * i + j * j, 7) if M > 2 and i + j > 2 else H.real(f'q{i}{j}') for j in range(M)] for i in range(M)]
    return lambda: dict(Q=H.arr(Q), nodes=H.arr(x), nNodes=M, nodeType='EQUID', quadType='RADAU-RIGHT')


def reference(q, params, types, form, M=2):
    out = []
    for k, t in enumerate(types):
        g = q.qdelta.QDELTA_GENERATORS[t](**params())
        D = tolist(g.getQDelta(k + 1))
        out.append([[D[i][j] - (D[i - 1][j] if form == 'N2N' and i > 0 else 0) for j in range(M)] for i in range(M)])
    return out


def compare(H, label, D, ref, M=2):
    H.same(label + ' shape', tuple(D.shape), (len(ref), M, M))
    H.eq(label, D - H.arr(ref), 0 * H.arr(ref))


def check(q, H, params, arg, n, types, form, dt, M=2):
    """One call of the generic function against generators used once."""
    kw = {} if n is None else dict(nSweeps=n)
    if form is not None:
        kw['form'] = form
    if dt:
        kw['dTau'] = True
    a = list(arg) if isinstance(arg, list) else arg
    P = params()
    res = q.qdelta.genQDeltaCoeffs(a, **kw, **P)
    if isinstance(arg, list):
        H.same('list of types unchanged', a, arg)
    ref = reference(q, params, types, form, M)
    if dt:
        H.same('two results', len(res), 2)
        D, tau = res
        first = q.qdelta.QDELTA_GENERATORS[types[0]](**params()).dTau
        H.eq('delta_tau', tau, list(first))
    else:
        D = res
    compare(H, 'sweep matrices', D, ref, M)
    for key, v in params().items():
        if key in ('Q', 'nodes'):
            H.eq('parameter unchanged', P[key], v)


def lists(q, H, first, L, top):
    params = setup(q, H, H.choice('params', ('separate', 'qGen')))
    n = H.choice('length', range(1, L + 1))
    types = [first] + [H.choice(f'type{i}', NAMES if L > 2 else ['BE', 'LU', 'Jumper', 'FB2', 'MIN-SR-FLEX', 'TRAP']) for i in range(1, n)]
    extra = H.choice('nSweeps', [None] + list(range(n, top + 1)))
    full = types + [types[-1]] * ((extra or n) - n)
    ft = H.choice('output', ((None, False), ('N2N', True)))
    check(q, H, params, types, extra, full, *ft)


def three(q, H):
    params = setup(q, H, 'separate')
    types = H.choice('types', (['BE', 'LU', 'Jumper'], ['FB2', 'FB2', 'FB2'], ['MIN-SR-FLEX', 'Jumper', 'MIN-SR-FLEX'], ['LU', 'FE', 'LU'],
                               ['TRAP', 'MIN-SR-FLEX', 'FB2'], ['FE', 'FE', 'BE']))
    extra = H.choice('nSweeps', (None, 3, 4, 6))
    ft = H.choice('output', ((None, False), ('Z2N', True), ('N2N', False), ('N2N', True)))
    check(q, H, params, types, extra, types + [types[-1]] * ((extra or 3) - 3), *ft)


def single(q, H, name):
    params = setup(q, H, H.choice('params', ('separate', 'qGen')))
    n = H.choice('nSweeps', (None, 1, 2, 5))
    form = H.choice('form', (None, 'Z2N', 'N2N'))
    dt = H.choice('dTau', (False, True))
    if n is not None:
        check(q, H, params, name, n, [name] * n, form, dt)
        return
    g = q.qdelta.QDELTA_GENERATORS[name](**params())
    D = tolist(g.getQDelta())
    ref = [[D[i][j] - (D[i - 1][j] if form == 'N2N' and i > 0 else 0) for j in range(2)] for i in range(2)]
    kw = dict(dTau=True) if dt else {}
    if form is not None:
        kw['form'] = form
    res = q.qdelta.genQDeltaCoeffs(name, **kw, **params())
    if dt:
        H.same('two results', len(res), 2)
        H.eq('delta_tau', res[1], list(g.dTau))
        res = res[0]
    H.same('shape', tuple(res.shape), (2, 2))
    H.eq('matrix', res - H.arr(ref), 0 * H.arr(ref))


OUTPUTS = ((None, False), ('Z2N', True), ('N2N', False), ('N2N', True))


def long(q, H, name, top):
    M, how, n = H.choice('setting', ((3, 'separate', top), (3, 'qGen', 4), (5, 'qGen', 6)))
    params = setup(q, H, how, M)
    check(q, H, params, name, n, [name] * n, *H.choice('output', OUTPUTS[2:]), M)


def longlist(q, H, i, top):
    params = setup(q, H, H.choice('params', ('separate', 'qGen')), 3)
    types = LISTS[i]
    L = len(types)
    extra = H.choice('nSweeps', (None, L, L + 1, top))
    check(q, H, params, list(types), extra, types + [types[-1]] * ((extra or L) - L), *H.choice('output', OUTPUTS), 3)


def refusals(q, H):
    params = setup(q, H, 'separate')
    f = q.qdelta.genQDeltaCoeffs
    x = H.real('y')
    D = f('Exact', Q=H.arr([[x]]))
    H.eq('witness', D[0, 0], x)
    for n in (0, -1, -3, 1.5, 2.0, '2', [2]):
        H.raises(f'{n!r} sweeps', lambda: f('BE', nSweeps=n, **params()), ValueError)
        H.raises(f'{n!r} sweeps of a list', lambda: f(['BE'], nSweeps=n, **params()), ValueError)
        H.raises(f'{n!r} sweeps of two', lambda: f(['BE', 'LU'], nSweeps=n, **params()), ValueError)
    H.raises('fewer sweeps than types', lambda: f(['BE', 'LU', 'BE'], nSweeps=2, **params()), AssertionError)
    H.raises('fewer sweeps than types, one', lambda: f(['BE', 'LU'], nSweeps=1, **params()), AssertionError)
    H.raises('no type', lambda: f([], **params()), AssertionError)
    H.raises('no type, sweeps', lambda: f([], nSweeps=1, **params()), AssertionError)
    for t in (None, 1, ('BE', 'LU'), {'BE': 1}):
        H.raises(f'type {t!r}', lambda: f(t, **params()), ValueError)
        H.raises(f'type {t!r}, sweeps', lambda: f(t, nSweeps=2, **params()), ValueError)
    for t in ('', 'be', 'NOPE', ['NOPE'], ['BE', 'NOPE'], ['NOPE', 'BE']):
        H.raises(f'unknown {t}', lambda: f(t, **params()), ValueError)
    H.raises('unknown, sweeps', lambda: f('NOPE', nSweeps=3, **params()), ValueError)
    for form in ('n2n', '', None, 'S'):
        H.raises(f'form {form}', lambda: f('BE', form=form, **params()), ValueError)
        H.raises(f'form {form}, sweeps', lambda: f('BE', nSweeps=2, form=form, **params()), ValueError)
        H.raises(f'form {form}, list', lambda: f(['BE', 'LU'], form=form, **params()), ValueError)
