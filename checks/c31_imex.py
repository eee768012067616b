"""C31: the two parts of every additive (IMEX) Runge-Kutta pair fit together."""

BOUNDS = ("the seven additive pairs of the module: all rooted trees through the order of the pair with every colouring of their edges, both weight "
          "vectors, as linear forms with any multiplier in [-1,1]; within 1e-13 (5e-9 for ARK343*)")
ASSUMPTIONS = ["float literals of the tables are their decimal values; square roots and sines exact or at 220 bits"]

PAIRS = [('ARK548L2SAERK', 'ARK548L2SAESDIRK', 5, 4), ('ARK548L2SAERK2', 'ARK548L2SAESDIRK2', 5, 4),
         ('ARK324L2SAERK', 'ARK324L2SAESDIRK', 3, 2), ('ARK222ERK', 'ARK222EDIRK', 2, 0), ('ARK443ERK', 'ARK443ESDIRK', 3, 0),
         ('ARK343ERK', 'ARK343ESDIRK', 3, 0), ('ARK4ERK', 'ARK4EDIRK', 4, 0)]


def cases(tier):
    return [dict(name=e, fn='pair', params=dict(e=e, i=i, p=p, p2=p2), mode='approx', budget=120) for e, i, p, p2 in PAIRS]


def pair(q, H, e, i, p, p2):
    E, I = q.butcher.RK_SCHEMES[e](), q.butcher.RK_SCHEMES[i]()
    tol = 5e-9 if e.startswith('ARK343') else 1e-13
    H.eq('same nodes', E.nodes, I.nodes, tol, 10 * tol)
    m = H.real('m', lo=-1, hi=1)
    As = [tolist(E.Q), tolist(I.Q)]
    sets = [('explicit weights', E.weights, p), ('implicit weights', I.weights, p)]
    if p2:
        H.eq('same embedded weights', E.weightsEmbedded, I.weightsEmbedded, tol, 10 * tol)
        sets.append(('embedded weights', E.weightsEmbedded, p2))
    for label, w, o in sets:
        for k in range(1, o + 1):
            for t in trees(k):
                for c, v in enumerate(stage_vectors(t, As)):
                    H.eq(f"{label} {tree_name(t)} {c}", m * sum(w[j] * x for j, x in enumerate(v)), m * H.frac(1, tree_gamma(t)), tol, 10 * tol)
