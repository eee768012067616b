"""C11: Runge-Kutta schemes have their declared order on every linear problem."""
import math

BOUNDS = ("every Runge-Kutta class registered in the source: coefficients of the stability function through the declared order, as one linear "
          "form with any multipliers in [-1,1]; within 1e-13 (5e-9 for ARK343*)")
ASSUMPTIONS = ["float literals of the tables are their decimal values; square roots and sines exact or at 220 bits"]

ORDER = dict(FE=1, RK21=1, RK2=2, HEUN2=2, RK32=3, RK33=3, RK53=3, RK4=4, RK4_38=4, RK65=5, CashKarp=5, BE=1, MidPoint=2, TRAP=2,
             SDIRK2=2, SDIRK2_2=2, SDIRK3=3, DIRK43=3, GAUSS_LG=4, SDIRK54=4, EDIRK43=4, EDIRK4=4, ESDIRK43=4, ESDIRK53=5,
             ARK548L2SAERK=5, ARK548L2SAESDIRK=5, ARK548L2SAESDIRK2=5, ARK548L2SAERK2=5, ARK324L2SAERK=3, ARK324L2SAESDIRK=3,
             ARK222EDIRK=2, ARK222ERK=2, ARK443ESDIRK=3, ARK443ERK=3, ARK343ESDIRK=3, ARK343ERK=4, ARK4EDIRK=4, ARK4ERK=4)
EMBEDDED = {'HEUN2': 1, 'CashKarp': 4, 'EDIRK43': 3, 'ESDIRK43': 3, 'ESDIRK53': 3, 'ARK548L2SAERK': 4, 'ARK548L2SAESDIRK': 5,
            'ARK548L2SAESDIRK2': 4, 'ARK548L2SAERK2': 4, 'ARK324L2SAERK': 2, 'ARK324L2SAESDIRK': 2}


def cases(tier):
    return [dict(name=n, fn='scheme', params=dict(name=n), mode='approx') for n in ORDER] + \
        [dict(name='others', fn='others', mode='approx')]


def stability(H, label, g, w, p, tol):
    n, Q = g.nNodes, g.Q
    m = [H.real(f'm{k}', lo=-1, hi=1) for k in range(p)]
    v, tot, ref = [1] * n, 0, 0
    for k in range(1, p + 1):
        tot = tot + m[k - 1] * sum(w[i] * v[i] for i in range(n))
        ref = ref + m[k - 1] * H.frac(1, math.factorial(k))
        v = [sum(Q[i, j] * v[j] for j in range(n)) for i in range(n)]
    H.eq(label, tot, ref, tol, 10 * tol)


def scheme(q, H, name):
    g = q.butcher.RK_SCHEMES[name]()
    tol = 5e-9 if name.startswith('ARK343') else 1e-13
    H.true('declared order', g.order >= ORDER[name])
    stability(H, 'stability function', g, g.weights, g.order, tol)
    if name in EMBEDDED:
        p = g.orderEmbedded
        H.true('declared embedded order', p >= EMBEDDED[name])
        # the published table of ARK548L2SAESDIRK meets order 5 of the embedded scheme to 2e-8 only
        stability(H, 'embedded stability function', g, g.weightsEmbedded, min(p, 4) if name == 'ARK548L2SAESDIRK' else p, tol)
        if name == 'ARK548L2SAESDIRK' and p == 5:
            stability(H, 'embedded stability function to 5', g, g.weightsEmbedded, p, 1e-7)


def others(q, H):
    H.same('registered schemes', [n for n in ORDER if n not in q.butcher.RK_SCHEMES], [])
    for n, cls in q.butcher.RK_SCHEMES.items():
        if n == cls.__name__ and n not in ORDER:
            g = cls()
            stability(H, n, g, g.weights, g.order, 1e-9)
            if g.b2 is not None:
                stability(H, n + ' embedded', g, g.weightsEmbedded, g.orderEmbedded, 1e-9)
