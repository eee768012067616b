"""C26: registries map every name and alias to exactly one usable class."""

BOUNDS = ("all classes registered on import, in the three registries; storing: every pattern of equalities between the names and aliases of 2 classes with up to 2 "
          "aliases or 3 with one (quick) / 3 with up to 2 (thorough); registration: every choice of existing or new name and up to 2 aliases; listing: "
          "dictionaries of 4 keys (5 thorough) over 3 classes in 3 modules; Runge-Kutta tables of up to 2x2 (3x3) coefficients in every combination of sizes, with symbolic values")
ASSUMPTIONS = []


def cases(tier):
    th = tier != 'quick'
    out = []

    def add(name, fn, **p):
        out.append(dict(name=name, fn=fn, params=p, budget=900 if th else 60, max_paths=50000))
    for reg in ('Q', 'RK', 'QDELTA'):
        add(f"registered-{reg}", 'registered', reg=reg)
        add(f"register-{reg}", 'register', reg=reg)
    add("store-2", 'store', C=2, top=2)
    add("store-3", 'store', C=3, top=2 if th else 1)
    add("alias-type", 'alias_type')
    add("listing", 'listing', n=5 if th else 4)
    add("listing-real", 'listing_real')
    add("overriding-QDELTA", 'overriding_qdelta')
    add("overriding-Q", 'overriding_q')
    for s in range(1, 4 if th else 3):
        add(f"tables-{s}", 'tables', s=s, top=3 if th else 2)
    return out


def registries(q):
    return dict(Q=q.qcoeff.Q_GENERATORS, RK=q.butcher.RK_SCHEMES, QDELTA=q.qdelta.QDELTA_GENERATORS)


def subclasses(cls):
    out = []
    for s in cls.__subclasses__():
        out.append(s)
        out += subclasses(s)
    return out


def names(cls):
    return [cls.__name__] + list(getattr(cls, 'aliases', None) or [])


def registered(q, H, reg):
    D = registries(q)[reg]
    root = dict(Q=q.qcoeff.QGenerator, RK=q.butcher.RK, QDELTA=q.qdelta.QDeltaGenerator)[reg]
    classes = []
    for c in D.values():
        if c not in classes:
            classes.append(c)
    todo = [c for c in subclasses(root) if not c.__subclasses__()]      # not the abstract bases
    H.true('every class is registered', len(todo) > 5)
    for c in todo:
        H.true(f'{c.__name__} registered', c in classes)
    owner = {}
    for c in classes:
        H.true(f'{c.__name__} has the right base', issubclass(c, root))
        for n in names(c):
            H.true(f'{n} is text', isinstance(n, str))
            H.true(f'{n} reaches its class', D.get(n) is c)
            H.true(f'{n} has one owner', n not in owner)
            owner[n] = c
    H.same('no other keys', set(D), set(owner))
    x = H.real('x')         # unused
    if reg == 'QDELTA':
        return
    for c in classes:
        if c.__name__ == 'Collocation':
            H.true('default parameters', isinstance(c.DEFAULT_PARAMS, dict))
            continue
        g, h = c.getInstance(), c()
        H.true(f'{c.__name__} instance', isinstance(g, c))
        n = g.nodes.size
        H.same(f'{c.__name__} shapes', (tuple(g.nodes.shape), tuple(g.weights.shape), tuple(g.Q.shape)), ((n,), (n,), (n, n)))
        H.same(f'{c.__name__} sizes', (g.nNodes, h.nNodes), (n, n))


class Name(str):
    """A name known only through its equalities with other names."""

    def __new__(cls, H, k):
        s = str.__new__(cls, f"name{k}")
        s.id = H.intvar(f'id{k}', 0, 20)
        return s

    def __eq__(self, o):
        if self is o:
            return True
        return bool(self.id == o.id)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


def store(q, H, C, top):
    """Classes stored in turn, against a list of (name, owner)."""
    D = {}
    ref = []
    for i in range(C):
        ns = [Name(H, 10 * i + j) for j in range(1 + H.int(f'aliases{i}', 0, top))]
        body = dict(aliases=ns[1:]) if len(ns) > 1 else H.choice(f'empty{i}', ({}, dict(aliases=[]), dict(aliases=None)))
        cls = type('Some', (), body)
        cls.__name__ = ns[0]
        mine, clash = [], False
        for n in ns:
            if any(n == m for m, _ in ref) or any(n == m for m in mine):
                clash = True
                break
            mine.append(n)
        before = list(D.items())
        if clash:
            H.raises('clash is refused', lambda: q.utils.storeClass(cls, D), AssertionError)
        else:
            q.utils.storeClass(cls, D)
            ref += [(n, cls) for n in mine]
            H.same('all names', len(D), len(before) + len(mine))
            for n in mine:
                H.true('reachable', D[n] is cls)
        for n, c in before:
            H.true('first owner stays', D[n] is c)
        if clash:
            return


def alias_type(q, H):
    D = {}
    for k, al in enumerate([('a',), 'a', {'a': 1}, 3, {'a'}]):
        cls = type(f'Some{k}', (), dict(aliases=al))
        H.raises(f'aliases must be a list {k}', lambda: q.utils.storeClass(cls, D), AssertionError)
        H.true(f'no alias stored {k}', 'a' not in D)
    q.utils.storeAlias(dict, D, 'b')
    H.true('one alias', D['b'] is dict)
    H.raises('alias twice', lambda: q.utils.storeAlias(list, D, 'b'), AssertionError)
    H.true('first owner', D['b'] is dict)
    x = H.real('x')


def candidate(q, H, reg, name, aliases):
    if reg == 'QDELTA':
        class Cand(q.qdelta.QDeltaGenerator):
            def __init__(self, nodes, **kwargs):
                self.nodes = nodes

            @property
            def size(self):
                return 1

            def computeQDelta(self, k=None):
                return H.arr([[3]])
    elif reg == 'Q':
        class Cand(q.qcoeff.QGenerator):
            @property
            def nodes(self):
                return H.arr([1])

            @property
            def weights(self):
                return H.arr([1])

            @property
            def Q(self):
                return H.arr([[1]])

            @property
            def order(self):
                return 1
    else:
        class Cand(q.butcher.RK):
            A = [[0]]
            b = [1]
            c = [0]

            @property
            def order(self):
                return 1
    Cand.__name__ = name
    if aliases is not None:
        Cand.aliases = aliases
    return Cand


EXIST = dict(Q=('Collocation', 'coll'), RK=('RK4', 'ERK4'), QDELTA=('BE', 'IE'))


def register(q, H, reg):
    pool = [EXIST[reg][0], EXIST[reg][1], 'NEW1', 'NEW2', 'NEW3']
    D = registries(q)[reg]
    H.true('existing names', pool[0] in D and (pool[1] in D or reg == 'Q'))
    n = H.int('aliases', 0, 2)
    ns = [H.choice(f'name{i}', pool) for i in range(n + 1)]
    if n == 0:
        al = H.choice('none', (None, []))
    else:
        al = ns[1:]
    before = {k: dict(v) for k, v in registries(q).items()}
    cls = candidate(q, H, reg, ns[0], al)
    deco = dict(Q=q.qcoeff.register, RK=q.butcher.registerRK, QDELTA=q.qdelta.register)[reg]
    clash = len(set(ns)) < len(ns) or any(x in D for x in ns)
    if clash:
        H.raises('clash is refused', lambda: deco(cls), AssertionError)
    else:
        H.true('decorator returns the class', deco(cls) is cls)
        H.same('keys', set(D), set(before[reg]) | set(ns))
        for x in ns:
            H.true(f'{x} reaches it', D[x] is cls)
        if reg == 'RK':
            for x in ns:
                H.true(f'{x} reaches it as Q generator', q.qcoeff.Q_GENERATORS[x] is cls)
        if reg == 'QDELTA':
            v = H.real('x')
            H.eq('usable', q.qdelta.genQDeltaCoeffs(ns[-1], nodes=v, other=1), H.arr([[3]]))
        else:
            H.eq('usable', q.qcoeff.genQCoeffs(ns[-1])[1], H.arr([1]))
        H.raises('second registration is refused', lambda: deco(cls), AssertionError)
    for k, d in registries(q).items():
        for x, c in before[k].items():
            H.true('first owner stays', d.get(x) is c)


def listing(q, H, n):
    classes = []
    for i, m in enumerate(('a.b.one', 'a.b.two', 'a.bone')):
        c = type(f'K{i}', (), {})
        c.__module__ = m
        classes.append(c)
    pick = [H.choice(f'k{i}', classes) for i in range(n)]
    D = {f'key{i}': c for i, c in enumerate(pick)}
    for m in (None, 'one', 'two', 'b', 'e'):
        R = q.utils.getClasses(D) if m is None else q.utils.getClasses(D, m) if m == 'two' else q.utils.getClasses(D, module=m)
        want = {}
        for k, c in D.items():
            if c not in want.values() and (m is None or c.__module__.split('.')[-1] == m):
                want[k] = c
        H.same(f'classes of module {m}', R, want)
    H.same('dictionary unchanged', D, {f'key{i}': c for i, c in enumerate(pick)})
    x = H.real('x')


def listing_real(q, H):
    for reg, D in registries(q).items():
        every = set(D.values())
        R = q.utils.getClasses(D)
        H.same(f'{reg}: each class once', (len(R), set(R.values())), (len(every), every))
        for k, c in R.items():
            H.true(f'{reg}: {k} is the name', k == c.__name__)
        mods = sorted({c.__module__.split('.')[-1] for c in every})
        seen = 0
        for m in mods:
            S = q.utils.getClasses(D, module=m)
            H.same(f'{reg} {m}', set(S.values()), {c for c in every if c.__module__.split('.')[-1] == m})
            seen += len(S)
        H.same(f'{reg}: modules are disjoint', seen, len(every))
    H.same('no class of an unknown module', q.utils.getClasses(q.qdelta.QDELTA_GENERATORS, module='nothing'), {})
    H.same('modules', sorted({c.__module__.split('.')[-1] for c in q.qdelta.QDELTA_GENERATORS.values()}), ['algebraic', 'diag', 'timestepping'])
    x = H.real('x')


def overriding_qdelta(q, H):
    B = q.qdelta.QDeltaGenerator
    D = q.qdelta.QDELTA_GENERATORS
    before = dict(D)
    v = H.real('v')

    def init(self, **kwargs):
        self.got = kwargs
    good = lambda self, k=None: H.arr([[v]])

    def noq(self, Q):
        pass

    def kw(self, kwargs):
        pass

    def kwonly(self, *, kwargs):
        pass

    def kwdefault(self, Q=None, *, kwargs=None):
        pass

    def posdefault(self, Q=None, kwargs=None):
        pass

    def varpos(self, *kwargs):
        pass

    def posonly(self, kwargs, /):
        pass

    def attempt(label, ok, base=B, dep=None, **body):
        cls = type('Fresh' + str(len(D)), (base,), body)
        if not ok:
            H.raises(f'refused: {label}', lambda: q.qdelta.register(cls), AssertionError)
            H.true(f'not stored: {label}', cls not in D.values())
            return
        q.qdelta.register(cls)
        H.true(f'stored: {label}', D.get(cls.__name__) is cls)
        if dep is not None:
            g = cls()
            H.same(f'depends on k: {label}', bool(g.isKDependent()), dep)
    attempt('good', True, dep=False, __init__=init, computeQDelta=good)
    attempt('no kwargs', False, __init__=noq, computeQDelta=good)
    attempt('kwargs not variable', False, __init__=kw, computeQDelta=good)
    attempt('kwargs keyword only', False, __init__=kwonly, computeQDelta=good)
    attempt('kwargs keyword only with default', False, __init__=kwdefault, computeQDelta=good)
    attempt('kwargs with default', False, __init__=posdefault, computeQDelta=good)
    attempt('kwargs variable positional', False, __init__=varpos, computeQDelta=good)
    attempt('kwargs position only', False, __init__=posonly, computeQDelta=good)
    attempt('nothing overridden', False, __init__=init)
    attempt('no k', False, __init__=init, computeQDelta=lambda self: 1)
    attempt('other name', False, __init__=init, computeQDelta=lambda self, j=None: 1)
    attempt('k keyword only', False, __init__=init, computeQDelta=lambda self, *, k=None: 1)
    attempt('k variable', False, __init__=init, computeQDelta=lambda self, **k: 1)
    attempt('k with default', True, dep=True, __init__=init, computeQDelta=lambda self, k=1: 1)
    attempt('k without default', True, dep=True, __init__=init, computeQDelta=lambda self, k: 1)
    attempt('k default zero', True, dep=True, __init__=init, computeQDelta=lambda self, k=0: 1)
    attempt('inherited constructor', True, computeQDelta=good)
    attempt('method of a registered class', True, base=D['BE'], aliases=None)
    for k, c in before.items():
        H.true(f'{k} stays', D[k] is c)
    for n in D:
        pass
    H.eq('value', D['Fresh' + str(len(before))]().computeQDelta(), H.arr([[v]]))


def overriding_q(q, H):
    B = q.qcoeff.QGenerator
    D = q.qcoeff.Q_GENERATORS
    before = dict(D)
    v = H.real('v')
    props = dict(nodes=property(lambda self: H.arr([1])), weights=property(lambda self: H.arr([v])),
                 Q=property(lambda self: H.arr([[1]])), order=property(lambda self: 1))

    def needs(self, a):
        self.a = a

    def attempt(label, exc, drop=None, **body):
        b = dict(props)
        b.pop(drop, None)
        b.update(body)
        cls = type('Fresh' + str(len(D)), (B,), b)
        if exc is None:
            q.qcoeff.register(cls)
            H.true(f'stored: {label}', D.get(cls.__name__) is cls)
            g = cls.getInstance()
            H.eq(f'usable: {label}', g.weights, H.arr([v]))
            H.true(f'parameters: {label}', '__init__' not in body or g.a == 3)
            return
        H.raises(f'refused: {label}', lambda: q.qcoeff.register(cls), exc)
        H.true(f'not stored: {label}', cls not in D.values())
    attempt('good', None)
    for p in props:
        attempt(f'{p} missing', AssertionError, drop=p)
        attempt(f'{p} a method', AssertionError, **{p: lambda self: 1})
        attempt(f'{p} a value', AssertionError, **{p: 2})
    attempt('constructor with parameters', AttributeError, __init__=needs)
    attempt('wrong default parameters', TypeError, __init__=needs, DEFAULT_PARAMS=dict(b=3))
    attempt('default parameters', None, __init__=needs, DEFAULT_PARAMS=dict(a=3))
    for k, c in before.items():
        H.true(f'{k} stays', D[k] is c)


def tables(q, H, s, top):
    """Butcher tables of inconsistent sizes are refused."""
    nb, n1, n2 = [H.int(k, 1, top) for k in ('b', 'rows', 'cols')]
    has2 = H.choice('embedded', (False, True))
    A = [[H.real(f'a{i}{j}') for j in range(n2)] for i in range(n1)]
    b, c = H.reals('b', nb), H.reals('c', s)
    b2 = H.reals('d', nb)

    class Fresh(q.butcher.RK):
        @property
        def order(self):
            return 1
    Fresh.A, Fresh.b, Fresh.c = A, b, c
    if has2:
        Fresh.b2 = b2
    reg = lambda: q.butcher.registerRK(Fresh)
    if nb != s or n1 != s or n2 != s:
        H.raises('inconsistent sizes', reg, AssertionError)
        H.true('not stored', 'Fresh' not in q.butcher.RK_SCHEMES and 'Fresh' not in q.qcoeff.Q_GENERATORS)
        return
    reg()
    H.true('stored', q.butcher.RK_SCHEMES['Fresh'] is Fresh and q.qcoeff.Q_GENERATORS['Fresh'] is Fresh)
    g = Fresh()
    H.eq('nodes', g.nodes, c)
    H.eq('weights', g.weights, b)
    H.eq('Q', g.Q, A)
    if has2:
        H.eq('embedded', g.weightsEmbedded, b2)
    else:
        H.raises('no embedded weights', lambda: g.weightsEmbedded, NotImplementedError)
