"""C12: Runge-Kutta schemes satisfy the nonlinear order conditions of their declared order."""

BOUNDS = ("every Runge-Kutta class registered in the source: every rooted tree through the declared order (at most 17 trees), each as a linear "
          "form with any multiplier in [-1,1]; within 1e-13 (5e-9 for ARK343*)")
ASSUMPTIONS = ["float literals of the tables are their decimal values; square roots and sines exact or at 220 bits",
               "RK32, ARK343ERK and the embedded ARK548L2SAESDIRK declare the order they have on linear problems (known findings): "
               "the recorded defects of their conditions are accepted, nothing else"]

ORDER = dict(FE=1, RK21=1, RK2=2, HEUN2=2, RK32=3, RK33=3, RK53=3, RK4=4, RK4_38=4, RK65=5, CashKarp=5, BE=1, MidPoint=2, TRAP=2,
             SDIRK2=2, SDIRK2_2=2, SDIRK3=3, DIRK43=3, GAUSS_LG=4, SDIRK54=4, EDIRK43=4, EDIRK4=4, ESDIRK43=4, ESDIRK53=5,
             ARK548L2SAERK=5, ARK548L2SAESDIRK=5, ARK548L2SAESDIRK2=5, ARK548L2SAERK2=5, ARK324L2SAERK=3, ARK324L2SAESDIRK=3,
             ARK222EDIRK=2, ARK222ERK=2, ARK443ESDIRK=3, ARK443ERK=3, ARK343ESDIRK=3, ARK343ERK=4, ARK4EDIRK=4, ARK4ERK=4)
EMBEDDED = ['HEUN2', 'CashKarp', 'EDIRK43', 'ESDIRK43', 'ESDIRK53', 'ARK548L2SAERK', 'ARK548L2SAESDIRK', 'ARK548L2SAESDIRK2',
            'ARK548L2SAERK2', 'ARK324L2SAERK', 'ARK324L2SAESDIRK']


def cases(tier):
    return [dict(name=n, fn='scheme', params=dict(name=n), mode='approx') for n in ORDER] + \
        [dict(name='others', fn='others', mode='approx')]


def conditions(H, name, label, g, w, p, tol):
    n = g.nNodes
    A = tolist(g.Q)
    m = H.real('m', lo=-1, hi=1)
    for k in range(1, p + 1):
        for t in trees(k):
            lab = f"{label} {tree_name(t)}"
            phi = sum(w[i] * v for i, v in enumerate(stage_vectors(t, [A])[0]))
            r = H.known(name + ' ' + lab)
            if r is not None:
                d = phi - H.frac(1, tree_gamma(t))
                H.true(lab, ((d <= tol) & (d >= -tol)) | ((d - r <= 1e-9) & (d - r >= -1e-9)))
            else:
                H.eq(lab, m * phi, m * H.frac(1, tree_gamma(t)), tol, 10 * tol)


def scheme(q, H, name):
    g = q.butcher.RK_SCHEMES[name]()
    tol = 5e-9 if name.startswith('ARK343') else 1e-13
    H.true('declared order', g.order >= ORDER[name])
    conditions(H, name, 'main', g, g.weights, g.order, tol)
    if name in EMBEDDED:
        conditions(H, name, 'embedded', g, g.weightsEmbedded, g.orderEmbedded, tol)


def others(q, H):
    H.same('registered schemes', [n for n in ORDER if n not in q.butcher.RK_SCHEMES], [])
    for n, cls in q.butcher.RK_SCHEMES.items():
        if n == cls.__name__ and n not in ORDER:
            g = cls()
            conditions(H, n, n, g, g.weights, g.order, 1e-9)
            if g.b2 is not None:
                conditions(H, n, n + ' embedded', g, g.weightsEmbedded, g.orderEmbedded, 1e-9)
