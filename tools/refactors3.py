"""Variant C: helper functions, pure Python loops, comprehensions, functools/itertools, context managers, tables instead of branches."""
L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'


def R(f):
    return open('/repo/' + f).read()


def cut(f, a, b):
    """Text of file f from a (included) to b (excluded)."""
    s = R(f)
    i = s.index(a)
    return s[i:s.index(b, i)]


LAGINIT = cut(L, "        points = np.asarray(points, dtype=float).ravel()\n", "        # Store function values if provided")
LAGINT = cut(L, "        # Compute difference between times and Lagrange points", "        if duplicates:\n            P = self._h")
INTEG = cut(L, "        # Compute quadrature nodes for each interval", "        if duplicates:\n            Q = self._h")
RULE = cut(L, "        if numQuad == 'LEGENDRE_NUMPY':", "        # Compute quadrature nodes for each interval")
DERIV = cut(L, "        with np.errstate(divide='ignore'):\n            iDiff = 1 / (x[:", "    def getDerivationMatrix")
SPARSE = cut(L, "    A = sp.lil_matrix(", "    return A.tocsc()")
FEJER = cut(L, "    # Compute nodes\n", "class LagrangeApproximation")

VC = [
 (L, "import numpy as np\nfrom scipy", '''import contextlib
import functools
import math
import operator

import numpy as np
from scipy'''),
 (L, FEJER, '''    for j in range(n):
        nodes[j] = math.cos((2*(n - j) - 1)*math.pi/(2*n))

    # Compute weights by the explicit cosine sums
    for j in range(n):
        th = (2*(n - j) - 1)*math.pi/(2*n)
        s = sum(math.cos(2*k*th)/(4*k*k - 1) for k in range(1, n//2 + 1))
        weights[j] = 2/n*(1 - 2*s)

    return nodes, weights


def _signOf(diffs):
    return np.sign(diffs).prod(axis=1)


def _analytic(diffs):
    """Fast implementation (unstable for large number of points)"""
    return 1/functools.reduce(operator.mul, list(diffs.T), np.ones(len(diffs)))


def _logScale(diffs, ref):
    """Implementation using logarithmic difference and scaling"""
    logs = -np.log(np.abs(diffs)).sum(axis=1)
    return np.exp(logs - ref(logs))*_signOf(diffs)


def _chebfun(diffs, width):
    """Implementation used in chebfun"""
    scaled = diffs*(4/width)
    prod = 1/(_signOf(scaled)*np.exp(np.log(np.abs(scaled)).sum(axis=1)))
    return prod/np.abs(prod).max()


'''),
 (L, LAGINIT, '''        points = np.asarray(points, dtype=float).reshape(-1)

        uniques = np.unique(points)
        self.points = points
        self.uniquePoints = uniques if len(uniques) != len(points) else points
        if self.uniquePoints is points:
            self._handleDuplicates = self._passThrough
        else:
            self.duplicates = duplicates
            self._setupDuplicates()

        points = self.uniquePoints  # require unique points for weight computation
        diffs = np.subtract.outer(points, points) + np.eye(points.size)

        def stable(diffs):
            match scaleRef:
                case 'ZERO':
                    return _logScale(diffs, lambda logs: logs[np.abs(points).argmin()])
                case 'MAX':
                    return _logScale(diffs, np.max)
            raise NotImplementedError(f'scaleRef={scaleRef}')

        def auto(diffs):
            with contextlib.suppress(FloatingPointError), np.errstate(divide='raise', over='raise', under='raise'):
                return _analytic(diffs)
            return stable(diffs)

        algorithms = {
            'AUTO': auto, 'FAST': _analytic, 'STABLE': stable,
            'CHEBFUN': lambda diffs: _chebfun(diffs, np.ptp(points)),
        }
        try:
            algorithm = algorithms[weightComputation]
        except KeyError:
            raise NotImplementedError(
                f'weightComputation={weightComputation}') from None
        weights = algorithm(diffs)
        self.weightComputation = weightComputation
        self.weights = weights/np.abs(weights).max() if scaleWeights else weights

'''),
 (L, LAGINT, '''        times = np.asarray(times)
        assert times.ndim == 1, "times is not a 1D array"
        rows = []
        for t in times:
            hits = [bool(t == x) for x in self.uniquePoints]
            if any(hits):
                rows.append([float(h) for h in hits])
                continue
            terms = [w/(t - x) for x, w in zip(self.uniquePoints, self.weights)]
            total = sum(terms)
            rows.append([v/total for v in terms])
        P = np.array(rows).reshape((times.size, self.nUniquePoints))

'''),
 (L, RULE, '''        rules = {
            # Legendre gauss rule, integrate exactly polynomials of deg. (2n-1)
            'LEGENDRE_NUMPY': (np.polynomial.legendre.leggauss, (self.n + 1) // 2),
            # Using Legendre scipy implementation
            'LEGENDRE_SCIPY': (roots_legendre, (self.n + 1) // 2),
            # Fejer-I rule, integrate exactly polynomial of deg. n-1
            'FEJER': (computeFejerRule, self.n if self.n % 2 else self.n - 1),
        }
        if numQuad not in rules:
            raise NotImplementedError(f'numQuad={numQuad}')
        rule, order = rules[numQuad]
        iNodes, iWeights = rule(order)

'''),
 (L, INTEG, '''        Q = np.empty((len(intervals), self.nUniquePoints))
        for i, (left, right) in enumerate(intervals):
            half, mid = (right - left)/2, (right + left)/2
            P = self.getInterpolationMatrix(half*iNodes + mid, duplicates=False)
            Q[i] = half*(iWeights @ P)

'''),
 (L, DERIV, '''        n = len(x)
        outs = []
        first = np.zeros((n, n))
        inverse = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                if i != j:
                    inverse[i, j] = 1/(x[i] - x[j])
                    first[i, j] = w[j]/w[i]*inverse[i, j]
        total = first.sum(axis=1)

        def finish(D):
            """Rows sum up to zero"""
            D = D - np.diag(np.diag(D))
            D -= np.diag(D.sum(axis=1))
            return self._handleDuplicates(D) if duplicates else D

        if order != 2:
            outs.append(finish(first))
        if order != 1:
            outs.append(finish(-2*first*(inverse + total.reshape(n, 1))))
        return tuple(outs) if order == "ALL" else outs[0]

'''),
 (L, "        if fValues is None: fValues=self.fValues\n", "        fValues = self.fValues if fValues is None else fValues\n"),
 (L, '''        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)
        values.shape = t.shape
        return values
''', '''        flat = [row @ fValues for row in self.getInterpolationMatrix(t.ravel())]
        return np.array(flat).reshape(t.shape)
'''),
 (L, '''        if self.duplicates == "USE_LEFT":
            self._nnzIdx = indices

        if self.duplicates == "USE_RIGHT":
            self._nnzIdx = [
                np.max(np.where(self.points == pts)) for pts in values]
''', '''        counts = np.bincount(self._invIdx)
        last = [np.flatnonzero(self._invIdx == i)[-1] for i in range(counts.size)]
        self._nnzIdx = indices if self.duplicates == "USE_LEFT" else last
'''),
 (L, SPARSE, '''    A = sp.lil_matrix((len(outPoints), len(inPoints)))
    nIn = len(inPoints)
    cached = None

    def stencil(x):
        """Indices and relative positions of the `order` closest points"""
        if gridPeriod > 0:
            x = x % gridPeriod
            relative = np.concatenate([inPoints + gridPeriod - x, inPoints - gridPeriod - x, inPoints - x])
        else:
            relative = inPoints - x
        chosen = sorted(np.abs(relative).argsort()[:order])
        positions = relative[chosen]
        columns = np.array([c % nIn for c in chosen])
        if gridPeriod > 0:
            perm = positions.argsort()
            positions, columns = positions[perm], columns[perm]
        return columns, positions

    for i, x in enumerate(outPoints):
        columns, positions = stencil(x)
        if cached is None or not np.array_equal(cached[0], positions):
            row = LagrangeApproximation(points=positions).getInterpolationMatrix([0])
            cached = positions, row[0]
        A[i, columns] = cached[1]

'''),
 (N, cut(N, "        for arg, vals in zip(", "        self.nodeType = nodeType"), '''        def ensure(arg, val, vals):
            if val not in vals:
                raise ValueError(f"{arg}='{val}' not implemented, must be in {vals}")
            return val
        ensure('nodeType', nodeType, NODE_TYPES)
        ensure('quadType', quadType, QUAD_TYPES)
'''),
 (N, cut(N, "        # Equidistant nodes\n", "        # Quadrature nodes linked"), '''        left = self.quadType in ('LOBATTO', 'RADAU-LEFT')
        right = self.quadType in ('LOBATTO', 'RADAU-RIGHT')
        # Equidistant nodes
        if self.nodeType == 'EQUID':
            grid = np.linspace(-1, 1, num=nNodes + (not left) + (not right))
            return grid[0 if left else 1:None if right else -1]

'''),
 (N, cut(N, "        nodes.sort()\n", "        return nodes\n"), '''        nodes = np.sort(nodes)
        # Force overwrite boundary values if necessary (better precision)
        for inside, idx, value in ((right, -1, 1), (left, 0, -1)):
            if inside:
                nodes[idx] = value
'''),
 (N, cut(N, "        if self.nodeType == 'LEGENDRE':\n            k = np", "        return alpha, beta\n\n\n    def evalOrthogPoly"), '''        alpha = np.zeros(num_coeff)
        if self.nodeType == 'LEGENDRE':
            beta = np.array([2.0] + [k*k/(4.0*k*k - 1) for k in range(1, num_coeff)])
            return alpha, beta
        first, mass = {
            'CHEBY-1': (0, np.pi), 'CHEBY-2': (0, np.pi/2),
            'CHEBY-3': (0.5, np.pi), 'CHEBY-4': (-0.5, np.pi)}[self.nodeType]
        beta = np.array([mass] + [0.25]*(num_coeff - 1))
        alpha[0] = first
        if self.nodeType == 'CHEBY-1':
            beta[1:2] = 0.5

'''),
 (N, cut(N, "        pi = np.array([np.zeros_like(t)", "    def getTridiag"), '''        previous, current = np.zeros_like(t), np.ones_like(t)
        scaled = np.zeros_like(t)
        for alpha_j, beta_j in zip(alpha, beta):
            scaled, previous, current = current, current, (t - alpha_j)*current - beta_j*scaled
        if len(alpha) == 0:
            previous = np.zeros_like(t)
        return previous, current

'''),
 (N, '''            alpha[-1], beta[-1] = np.linalg.solve([[a1, a2], [b1, b2]], [a * a1, b * b1])
''', '''            det = a1*b2 - a2*b1
            alpha[-1] = (a*a1*b2 - a2*b*b1)/det
            beta[-1] = (a1*b*b1 - a*a1*b1)/det
'''),
 (CO, '''        nodes += 1
        nodes /= 2
        # Scale to [tLeft, tRight]
        nodes *= (tRight-tLeft)
        nodes += tLeft
''', '''        length = tRight - tLeft
        nodes = np.array([tLeft + length*(x + 1)/2 for x in nodes.tolist()])
'''),
 (CO, '''        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])
        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()
        self._Q, self._weights = Q, weights
''', '''        ends = [*nodes, tRight]
        full = approx.getIntegrationMatrix(list(zip([tLeft]*len(ends), ends)))
        self._Q, self._weights = full[:-1], full[-1]
'''),
 (CO, cut(CO, "        pInts = [(self.tLeft", "    @property\n    def rightIsNode"), '''        return self.approx.getIntegrationMatrix([*zip([self.tLeft, *nodes[:-1]], nodes)])

'''),
 (CO, cut(CO, "        M, nodeType, quadType = self.nodes.size", "                return 2*M-2") + "                return 2*M-2", '''        M = self.nNodes
        if self.nodeType == "LEGENDRE":
            missing = {"GAUSS": 0, "RADAU-LEFT": 1, "RADAU-RIGHT": 1, "LOBATTO": 2}
            return 2*M - missing[self.quadType]
        symmetric = self.nodeType in ("EQUID", "CHEBY-1", "CHEBY-2") and not self.quadType.startswith("RADAU")
        return M + M % 2 if symmetric else M'''),
 (QC, cut(QC, "        M = self.Q.shape[0]\n        T = np.eye(M)", "    @property\n    def S(self)"), '''        return self._transfer(self.Q.shape[0])

    @staticmethod
    def _transfer(M):
        return np.array([[1. if i == j else -1. if i == j + 1 else 0. for j in range(M)] for i in range(M)])

'''),
 (QC, cut(QC, "        Q = np.asarray(self.Q)\n", "    @property\n    def Tinv"), '''        Q = np.asarray(self.Q)
        return np.array([row - before for row, before in zip(Q, [np.zeros(Q.shape[1]), *Q[:-1]])])

'''),
 (QC, cut(QC, "        if form == \"Z2N\":\n            mat", "    @property\n    def order(self)"), '''        if form not in (names := {"Z2N": "Q", "N2N": "S"}):
            raise ValueError(f"form must be Z2N or N2N, not {form}")
        mat = getattr(self, names[form])
        weights = [self.weights] if not embedded else [self.weights, self.weightsEmbedded]
        weights = np.array(weights if embedded else weights[0])
        extra = [self.hCoeffs] if hCoeffs else []
        return [np.array(self.nodes), weights, np.array(mat), *extra]

'''),
 (QC, cut(QC, "        nodes, weights, Q = self.nodes, self.weights, self.Q\n", "    def errorDahlquist"), '''        Q = self.Q
        weights = self.weightsEmbedded if useEmbeddedWeights else self.weights
        M = self.nodes.size

        uNum = np.zeros(nSteps+1, dtype=complex)
        uNum[0] = u0

        z = lam*(tEnd/nSteps)

        def step(u):
            stages = np.linalg.solve(np.eye(M) - z*Q, np.ones(M)*u)
            return u + z*weights.dot(stages)

        for i in range(1, nSteps + 1):
            uNum[i] = step(uNum[i - 1])

        return uNum

'''),
 (QC, cut(QC, "    # Check that TEST_PARAMS are given", "    # Store class (and aliases)"), '''    # Check that TEST_PARAMS are given and valid if no default constructor
    def build(**params):
        return cls(**params)

    try:
        build()
    except TypeError:
        if not hasattr(cls, "DEFAULT_PARAMS"):
            raise AttributeError(
                f"{cls.__name__} requires DEFAULT_PARAMS attribute"
                " since it has no default constructor")
        try:
            build(**cls.DEFAULT_PARAMS)
        except:
            raise TypeError(
                f"{cls.__name__} could not be instantiated with DEFAULT_PARAMS")
'''),
 (B, cut(B, "            if padding in [\"LEFT\", \"BOTH\"]:", "            self.padding = padding"), '''            left, right = int(padding != "RIGHT"), int(padding != "LEFT")

            def extend(v, end):
                return np.array([0]*left + v.tolist() + [end]*right)

            n = self.nNodes
            A = np.zeros((n + left + right, n + left + right))
            A[left:left + n, left:left + n] = self.A
            c, b = extend(self.c, 1), extend(self.b, 0)
            if right:
                A[-1] = b
            self.A, self.b, self.c = A, b, c
            if self.b2 is not None:
                self.b2 = extend(self.b2, 0)

'''),
 (B, cut(B, "        try:\n            return super().hCoeffs", "RK_SCHEMES:dict"), '''        if np.unique(self.c).size == self.c.size:
            return super().hCoeffs
        return np.eye(self.c.size)[-1]


''') if False else (B, "            hCoeffs = np.zeros_like(self.c)\n            hCoeffs[-1] = 1\n            return hCoeffs\n", "            return np.eye(len(self.c))[-1]\n"),
 (QD, cut(QD, "        try:\n            QDelta = self._QDelta[k]", "    def getSDelta"), '''        key = k if self._K_DEPENDENT else None
        cache = self.__dict__.setdefault("_cache", {})
        if key not in cache:
            cache[key] = self.computeQDelta(k)
        QDelta = cache[key]
        return QDelta.copy() if copy else QDelta

''') if False else (QD, '''        QDelta = self.getQDelta(k)
        M = QDelta.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ QDelta
''', '''        QDelta = self.getQDelta(k, copy=False)
        return QDelta - np.eye(len(QDelta), k=-1) @ QDelta
'''),
 (QD, cut(QD, "        if form == \"Z2N\":\n            gen", "QDELTA_GENERATORS: dict"), '''        gens = {"Z2N": self.getQDelta, "N2N": self.getSDelta}
        if form not in gens:
            raise ValueError(f"form must be Z2N or N2N, not {form}")
        gen = gens[form]
        if hasattr(k, "__iter__"):
            out = np.array([gen(sweep) for sweep in k])
        else:
            out = gen(k)
        return [out, self.dTau] if dTau else out


'''),
 (QD, cut(QD, "    if nSweeps is None:  # Single matrix return", "if __name__ !="), '''    single = nSweeps is None
    types = [qDeltaType] if single else qDeltaType
    unknown = [qDT for qDT in types if qDT not in QDELTA_GENERATORS]
    if unknown:
        raise ValueError(f"qDeltaType={qDeltaType} is not available")
    gens = [QDELTA_GENERATORS[qDT](**params) for qDT in types]
    first, *others = gens
    if others:
        mats = np.array([gen.genCoeffs(sweep, form) for sweep, gen in enumerate(gens, start=1)])
        return [mats, first.dTau] if dTau else mats
    sweeps = None if single else list(range(1, nSweeps + 1))
    return first.genCoeffs(k=sweeps, form=form, dTau=dTau)


'''),
 (TS, '''        deltas = nodes.copy()
        deltas[0] = nodes[0] - tLeft
        deltas[1:] = np.ediff1d(nodes)
''', '''        deltas = np.diff(nodes, prepend=tLeft)
'''),
 (TS, '''        for i in range(0, M):
            QDelta[i:, :M-i] += np.diag(deltas[:M-i])
        for i in range(1, M):
            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])
        QDelta /= 2.0
        return QDelta
''', '''        for row in range(M):
            for col in range(row + 1):
                QDelta[row, col] = (deltas[col] + (deltas[col + 1] if col < row else 0))/2
        return QDelta
'''),
 (TS, '''        for i in range(1, M):
            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])
        return QDelta
''', '''        if M > 1:
            QDelta[1:, :-1] = np.tril(np.tile(deltas[1:], (M-1, 1)))
        return QDelta
'''),
 (TS, cut(TS, "        times = [self.tLeft] +", "        return QDelta\n\n    @property\n    def dTau(self)->np.ndarray:\n        return self.nodes*0 + self.deltas[0]\n") if False else cut(TS, "        for m in range(1, M):\n            am1", "        return QDelta"), '''        before = np.zeros(M)
        for m, (am1, a0, ap1) in enumerate(alpha, start=1):
            QDelta[m] = -(a0*QDelta[m-1] + am1*before)/ap1
            QDelta[m, m-1] = 1/ap1
            before = QDelta[m-1]
'''),
 (AL, cut(AL, "        U = self.Q.T.copy()", "@register\nclass LU2"), '''        M = self.size
        U = [[self.Q[j, i] for j in range(M)] for i in range(M)]
        for i in range(M - 1):
            if U[i][i] == 0:
                continue
            for r in range(i + 1, M):
                factor = U[r][i]/U[i][i]
                U[r] = [x - factor*y for x, y in zip(U[r], U[i])]
        return np.array([[U[j][i] if j <= i else 0. for j in range(M)] for i in range(M)])


'''),
 (AL, "        return np.diag(np.diag(self.Q))", "        return np.where(np.eye(self.size, dtype=bool), self.Q, 0.)"),
 (AL, "        return np.tril(self.Q)", "        rows, cols = np.indices((self.size, self.size))\n        return np.where(cols <= rows, self.Q, 0)"),
 (NU, cut(NU, "    # Decompose A into L, D, U\n", "    return L, D, U"), '''    # Decompose A into L, D, U
    d = []
    for i in range(n):
        inner = lambda r, c: sum(L[r, k]*d[k]*U[k, c] for k in range(i))
        d.append(A[i, i] - inner(i, i))
        for j in range(i + 1, n):
            L[j, i], U[i, j] = (A[j, i] - inner(j, i))/d[i], (A[i, j] - inner(i, j))/d[i]
    D = np.diag(d)

'''),
 (NU, cut(NU, "    xMean = x.mean()", "    return beta, rmse"), '''    dx, dy = x - np.average(x), y - np.average(y)
    beta = np.dot(dx, dy)/np.dot(dx, dx)
    rmse = np.sqrt(np.mean(np.square(dy - beta*dx)))

'''),
 (NU, cut(NU, "    if pOrder is None: pOrder", "    return P"), '''    nodes, times = np.asarray(nodes), np.asarray(times)
    powers = range(len(nodes) if pOrder is None else pOrder + 1)
    X = np.array([nodes**p for p in powers]).T
    T = np.array([times**p for p in powers]).T
    P = T @ (np.linalg.inv(X.T @ X) @ X.T)
'''),
 (SD, cut(SD, "    QDelta = np.asarray(QDelta)\n", "    # Preconditioner built"), '''    QDelta = np.asarray(QDelta)
    expected = (nSweeps, nNodes, nNodes) if QDelta.ndim == 3 else (nNodes, nNodes)
    assert QDelta.shape == expected, "inconsistent shape for QDelta"
    if QDelta.ndim == 2:
        QDelta = np.array([QDelta]*nSweeps).reshape((nSweeps, nNodes, nNodes))

'''),
 (SD, cut(SD, "    for i in range(nSteps):\n", "        if weights is None:\n            uNum"), '''    def record(k, i, uNodes):
        """Store monitored values"""
        for key in monitors or ():
            if key == "residuals":
                value = uNum[i] + lam*dt*Q @ uNodes - uNodes
            else:
                value = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))
            monitors[key][k, i] = value

    for i in range(nSteps):
        uNodes = np.ones(nNodes)*uNum[i]
        record(0, i, uNodes)
        for k, (Pk, QDk) in enumerate(zip(P, QDelta)):
            uNodes = np.linalg.solve(Pk, uNum[i] + lam*dt*(Q - QDk) @ uNodes)
            record(k + 1, i, uNodes)

'''),
 (DI, '''        divider = 1 if k == 1 else 2*(k-1)
        return np.diag(self.nodes)/divider
''', '''        return np.diag(self.nodes/max(1, 2*(k-1)))
'''),
 (DI, '''            try:
                self._QDelta_MIN_SR_S
            except AttributeError:
                self._QDelta_MIN_SR_S = super().computeQDelta()
            return self._QDelta_MIN_SR_S
''', '''            if not hasattr(self, "_QDelta_MIN_SR_S"):
                self._QDelta_MIN_SR_S = super().computeQDelta()
            return self._QDelta_MIN_SR_S
'''),
 (DI, '''                kMats = [(1 - z) * np.eye(nCoeffs) + z * np.diag(1 / coeffs) @ QM for z in nodesM]
                vals = [np.linalg.det(K) - 1 for K in kMats]
                return np.array(vals)
''', '''                scaled, eye = QM / coeffs[:, None], np.eye(nCoeffs)
                return np.array([np.linalg.det(eye + z * (scaled - eye)) - 1 for z in nodesM])
'''),
 (DI, '''            coeffs = np.asarray([0.0] + list(coeffs))
            nodesM = np.asarray([0.0] + list(nodesM))
''', '''            coeffs, nodesM = (np.insert(v, 0, 0.0) for v in (coeffs, nodesM))
'''),
 (DI, '''    if k is None: k = 1
    if k < 1: raise ValueError(f"k must be greater than 0 ({k})")
    return k
''', '''    k = 1 if k is None else k
    if not k >= 1:
        raise ValueError(f"k must be greater than 0 ({k})")
    return k
'''),
 (U, cut(U, "    classes = {}\n    if module is None:", "def useQGen"), '''    seen = []
    for key, cls in dico.items():
        wanted = module is None or cls.__module__.endswith(f".{module}")
        if wanted and cls not in [c for _, c in seen]:
            seen.append((key, cls))
    return dict(seen)

'''),
 (U, cut(U, "    pNames = [p.name for p in inspect", "class Timer"), '''    pNames = [name for name, p in inspect.signature(__init__).parameters.items()
              if p.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD][1:]

    def rename(kwargs):
        if "coll" not in kwargs:
            return
        # TODO : remove in future version
        import warnings
        warnings.warn("using the `coll` argument is deprecated. Use `qGen` instead!", DeprecationWarning)
        assert "qGen" not in kwargs, "`coll` and `qGen` given together, that's an ambiguous call !"
        kwargs["qGen"] = kwargs.pop("coll")

    @functools.wraps(__init__)
    def wrapper(self, *args, **kwargs):
        rename(kwargs)
        qGen = kwargs.pop("qGen", None)
        extracted = {} if qGen is None else self.extractParams(qGen)
        __init__(self, **{**extracted, **dict(zip(pNames, args)), **kwargs})

    return wrapper

'''),
 (U, '''    aliases = getattr(cls, "aliases", None)
    if aliases:
        assert isinstance(aliases, list), \\
            f"aliases must be a list in class {cls.__name__}"
        for alias in aliases:
            storeAlias(cls, dico, alias)
''', '''    if aliases := getattr(cls, "aliases", []):
        assert type(aliases) is list or isinstance(aliases, list), \\
            f"aliases must be a list in class {cls.__name__}"
    for alias in aliases or ():
        storeAlias(cls, dico, alias)
'''),
]
VARIANTS = {'C': VC}
