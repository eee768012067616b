L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'

FEJ_OLD = open('/repo/qmat/lagrange.py').read().split("    # Initialize output variables\n")[1].split("class LagrangeApproximation")[0]
A = [
 # ---- lagrange
 (L, FEJ_OLD, '''    n = int(n)
    theta = (2*np.arange(n, 0, -1) - 1)*(np.pi/(2*n))
    nodes = np.cos(theta)
    return nodes, _fejerWeights(n)


def _fejerWeights(n):
    lN = n//2
    K = np.arange(n - lN)
    v0 = np.zeros(n + 1, dtype=complex)
    v0[:n - lN] = 2*np.exp(1j*np.pi*K/n)/(1 - 4*K**2)
    w = np.fft.ifft(v0[:-1] + np.conj(v0[:0:-1]))
    if np.max(w.imag) > 1e-15:
        raise ValueError(f"Max imaginary value to important for ifft: {max(w.imag)}")
    return w.real.copy()


'''),
 (L, '''        diffs = points[:, None] - points[None, :]
        diffs[np.diag_indices_from(diffs)] = 1
''', '''        diffs = np.subtract.outer(points, points)
        np.fill_diagonal(diffs, 1.0)
'''),
 (L, '''            invProd = np.prod(diffs, axis=1)
            invProd **= -1
            return invProd

        def logScale''', '''            return 1 / diffs.prod(axis=1)

        def logScale'''),
 (L, '''            invProd = np.exp(wLog - wScale)
            invProd *= sign
            return invProd
''', '''            return sign * np.exp(wLog - wScale)
'''),
 (L, '''            diffs *= 4 / (points.max() - points.min())
            sign = np.sign(diffs).prod(axis=1)
            vv = np.exp(np.log(np.abs(diffs)).sum(axis=1))
            invProd = (sign * vv)
            invProd **= -1
            invProd /= np.linalg.norm(invProd, np.inf)
            return invProd
''', '''            diffs = diffs * (4 / (np.max(points) - np.min(points)))
            sign = np.prod(np.sign(diffs), axis=1)
            vv = np.exp(np.sum(np.log(np.absolute(diffs)), axis=1))
            invProd = 1.0/(sign*vv)
            return invProd/np.abs(invProd).max()
'''),
 (L, '''            weights /= np.max(np.abs(weights))
''', '''            weights = weights/np.linalg.norm(weights, ord=np.inf)
'''),
 (L, '''        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)
        values.shape = t.shape
        return values
''', '''        P = self.getInterpolationMatrix(t.reshape(-1))
        return (P @ fValues).reshape(t.shape)
'''),
 (L, '''            self._nnzIdx = [
                np.max(np.where(self.points == pts)) for pts in values]
''', '''            self._nnzIdx = np.array([
                np.flatnonzero(self.points == pts)[-1] for pts in values])
'''),
 (L, '''        self._zerIdx = np.setdiff1d(np.arange(self.nPoints), self._nnzIdx)
''', '''        mask = np.ones(self.nPoints, dtype=bool)
        mask[self._nnzIdx] = False
        self._zerIdx = np.nonzero(mask)[0]
'''),
 (L, '''        concom = (iDiff == np.inf) | (iDiff == -np.inf)
        i, j = np.where(concom)

        # Replace iDiff by one on those lines to get a simple copy of the value
        iDiff[i, :] = concom[i, :]

        # Compute interpolation matrix using weights
        P = iDiff * self.weights
        P /= P.sum(axis=-1)[:, None]
''', '''        concom = np.isinf(iDiff)
        rows = concom.any(axis=1)
        iDiff[rows] = concom[rows]

        P = iDiff * self.weights[None, :]
        P = P / np.sum(P, axis=1, keepdims=True)
'''),
 (L, '''        aj, bj = intervals[:, 0][:, None], intervals[:, 1][:, None]
        tau, omega = iNodes[None, :], iWeights[None, :]
        tEval = (bj - aj) / 2 * tau + (bj + aj) / 2
''', '''        aj, bj = intervals[:, :1], intervals[:, 1:]
        tau, omega = iNodes[np.newaxis, :], iWeights[np.newaxis, :]
        half, mid = (bj - aj) / 2, (bj + aj) / 2
        tEval = half * tau + mid
'''),
 (L, '''        integrand = self.getInterpolationMatrix(
            tEval.ravel(), duplicates=False).T.reshape(
            (-1,) + tEval.shape)

        # Apply quadrature rule to integrate
        integrand *= omega
        integrand *= (bj - aj) / 2
        Q = integrand.sum(axis=-1).T
''', '''        P = self.getInterpolationMatrix(tEval.flatten(), duplicates=False)
        P = P.reshape(tEval.shape + (-1,))
        Q = np.einsum('mq,mqj->mj', half*omega, P)
'''),
 (L, '''        iDiff[np.isinf(iDiff)] = 0

        base = w[None, :]/w[:, None]
        base *= iDiff
''', '''        np.fill_diagonal(iDiff, 0)

        base = iDiff * np.divide.outer(w, w).T
'''),
 (L, '''            np.fill_diagonal(D1, -D1.sum(axis=-1))
''', '''            D1 -= np.diag(D1.sum(axis=-1))
'''),
 (L, '''            D2 = -2*base
            D2 *= iDiff + base.sum(axis=-1)[:, None]
            np.fill_diagonal(D2, -D2.sum(axis=-1))
''', '''            D2 = -2*base*(iDiff + base.sum(axis=-1, keepdims=True))
            D2[np.diag_indices(len(D2))] = -D2.sum(axis=-1)
'''),
 (L, '''            pathL = (inPoints - gridPeriod - outPoints[i] % gridPeriod)
            pathR = (inPoints + gridPeriod - outPoints[i] % gridPeriod)
            pathC = (inPoints - outPoints[i] % gridPeriod)
            path = np.append(np.append(pathR, pathL), pathC)
            dist = np.abs(path)
            _closestPointsIdx = np.sort(np.argsort(dist)[:order])
''', '''            pathC = inPoints - np.mod(outPoints[i], gridPeriod)
            path = np.concatenate([pathC + gridPeriod, pathC - gridPeriod, pathC])
            _closestPointsIdx = np.sort(np.abs(path).argsort()[:order])
'''),
 # ---- nodes
 (N, '''            if self.quadType == 'GAUSS':
                return np.linspace(-1, 1, num=nNodes + 2)[1:-1]
            elif self.quadType == 'LOBATTO':
                return np.linspace(-1, 1, num=nNodes)
            elif self.quadType == 'RADAU-RIGHT':
                return np.linspace(-1, 1, num=nNodes + 1)[1:]
            elif self.quadType == 'RADAU-LEFT':
                return np.linspace(-1, 1, num=nNodes + 1)[:-1]
''', '''            left = self.quadType in ('GAUSS', 'RADAU-RIGHT')
            right = self.quadType in ('GAUSS', 'RADAU-LEFT')
            grid = np.linspace(-1, 1, num=nNodes + int(left) + int(right))
            return grid[int(left):len(grid)-int(right)]
'''),
 (N, '''        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]
        nodes.sort()
''', '''        nodes, _ = eigh_tridiagonal(alpha, beta[1:]**0.5)
        nodes = np.sort(nodes)
'''),
 (N, '''        pi = np.array([np.zeros_like(t) for i in range(3)])
        pi[1:] += 1
        for alpha_j, beta_j in zip(alpha, beta):
            pi[2] *= t - alpha_j
            pi[0] *= beta_j
            pi[2] -= pi[0]
            pi[0] = pi[1]
            pi[1] = pi[2]
        return pi[0], pi[1]
''', '''        prev, cur = np.zeros_like(t), np.ones_like(t)
        for j in range(len(alpha)):
            prev, cur = cur, (t - alpha[j])*cur - beta[j]*prev
        return prev, cur
'''),
 (N, '''            alpha[-1], beta[-1] = np.linalg.solve([[a1, a2], [b1, b2]], [a * a1, b * b1])
''', '''            det = a1*b2 - a2*b1
            alpha[-1] = (a*a1*b2 - a2*b*b1)/det
            beta[-1] = (a1*b*b1 - b1*a*a1)/det
'''),
 (N, '''            k = np.arange(num_coeff, dtype=float)
            alpha = 0 * k
            beta = k**2 / (4 * k**2 - 1)
            beta[0] = 2
''', '''            alpha = np.zeros(num_coeff)
            beta = np.array([2.0] + [k*k/(4.0*k*k - 1) for k in range(1, num_coeff)])
'''),
 # ---- qcoeff
 (QC, '''        M = self.Q.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T

''', '''        M = self.Q.shape[0]
        return np.eye(M) - np.eye(M, k=-1)

'''),
 (QC, '''        Q = np.asarray(self.Q)
        M = self.Q.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ Q
''', '''        Q = np.asarray(self.Q)
        return np.vstack([Q[:1], np.diff(Q, axis=0)])
'''),
 (QC, '''        M = self.Q.shape[0]
        return np.tri(M)
''', '''        return np.tril(np.ones_like(self.Q, dtype=float))
'''),
 (QC, '''        uNum = np.zeros(nSteps+1, dtype=complex)
        uNum[0] = u0

        dt = tEnd/nSteps
        A = np.eye(nodes.size) - lam*dt*Q
        for i in range(nSteps):
            b = np.ones(nodes.size)*uNum[i]
            uStages = np.linalg.solve(A, b)
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)

        return uNum
''', '''        z = lam*(tEnd/nSteps)
        A = np.identity(len(nodes)) - z*Q
        u = u0
        out = [u]
        for _ in range(nSteps):
            stages = np.linalg.solve(A, np.full(len(nodes), u, dtype=complex))
            u = u + z*np.dot(weights, stages)
            out.append(u)
        return np.array(out, dtype=complex)
'''),
 (QC, '''        return np.linalg.norm(uNum-uExact, ord=np.inf)
''', '''        return np.max(np.abs(uNum-uExact))
'''),
 (QC, '''        out = [np.array(self.nodes), np.array(self.weights), np.array(mat)]
        if embedded:
            out[1] = np.vstack([out[1], self.weightsEmbedded])
        if hCoeffs:
            out.append(self.hCoeffs)
        return out
''', '''        weights = np.copy(self.weights)
        if embedded:
            weights = np.array([weights, self.weightsEmbedded])
        out = [np.copy(self.nodes), weights, np.copy(mat)]
        return out + ([self.hCoeffs] if hCoeffs else [])
'''),
 (QC, '''    try:
        Generator = Q_GENERATORS[qType]
    except KeyError:
        raise ValueError(f"{qType=!r} is not available")
    gen = Generator(**params)
''', '''    if qType not in Q_GENERATORS:
        raise ValueError(f"{qType=!r} is not available")
    gen = Q_GENERATORS[qType](**params)
'''),
 # ---- collocation
 (CO, '''        nodes += 1
        nodes /= 2
        # Scale to [tLeft, tRight]
        nodes *= (tRight-tLeft)
        nodes += tLeft
''', '''        nodes = tLeft + (tRight-tLeft)*((nodes + 1)/2)
'''),
 (CO, '''        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])
        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()
''', '''        mat = approx.getIntegrationMatrix([(tLeft, tau) for tau in [*nodes, tRight]])
        Q, weights = mat[:-1], mat[-1]
'''),
 (CO, '''        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])
                 for i in range(nodes.shape[0])]
''', '''        bounds = [self.tLeft] + list(nodes)
        pInts = list(zip(bounds[:-1], bounds[1:]))
'''),
 # ---- butcher
 (B, '''                newA = np.zeros((self.nNodes, self.nNodes))
                newA[1:, 1:] = self.A
                self.A = newA
''', '''                self.A = np.pad(self.A, ((1, 0), (1, 0)))
'''),
 (B, '''                self.c = np.array(self.c.tolist() + [1])
                self.b = np.array(self.b.tolist() + [0])
''', '''                self.c = np.append(self.c, 1.0)
                self.b = np.concatenate((self.b, [0.0]))
'''),
 # ---- qdelta
 (QD, '''        QDelta = self.getQDelta(k)
        M = QDelta.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ QDelta
''', '''        QDelta = self.getQDelta(k)
        SDelta = QDelta.copy()
        SDelta[1:] -= QDelta[:-1]
        return SDelta
'''),
 (QD, '''        try:
            QDelta = self._QDelta[k] if self._K_DEPENDENT else self._QDelta
        except Exception as e:
            QDelta = self.computeQDelta(k)
            if type(e) == AttributeError:
                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta
            elif type(e) == KeyError:
                self._QDelta[k] = QDelta
            else:
                raise Exception("some very weird bug happened ... did you do fishy stuff ?")
        return QDelta.copy() if copy else QDelta
''', '''        if not hasattr(self, '_QDelta'):
            self._QDelta = {}
        key = k if self._K_DEPENDENT else 'all'
        if key not in self._QDelta:
            self._QDelta[key] = self.computeQDelta(k)
        QDelta = self._QDelta[key]
        if copy:
            QDelta = np.array(QDelta)
        return QDelta
'''),
 (QD, '''            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
''', '''            qDeltaType = [qDeltaType[min(i, len(qDeltaType)-1)] for i in range(nSweeps)]
'''),
 (QD, '''            out = [np.array(
                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]
                )]
''', '''            mats = []
            for k, gen in enumerate(gens, start=1):
                mats.append(gen.genCoeffs(k, form=form))
            out = [np.stack(mats)]
'''),
 (TS, '''        nodes = np.asarray(nodes, dtype=float)
        deltas = nodes.copy()
        deltas[0] = nodes[0] - tLeft
        deltas[1:] = np.ediff1d(nodes)
''', '''        nodes = np.asarray(nodes, dtype=float)
        deltas = np.diff(nodes, prepend=tLeft)
'''),
 (TS, '''        QDelta, M, deltas = self.zeros, self.nodes.size, self.deltas
        for i in range(M):
            QDelta[i:, :M-i] += np.diag(deltas[:M-i])
        return QDelta
''', '''        return np.tril(np.tile(self.deltas, (self.size, 1)))
'''),
 (TS, '''        for i in range(1, M):
            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])
        return QDelta

''', '''        for i in range(M):
            for j in range(i):
                QDelta[i, j] = deltas[j+1]
        return QDelta

'''),
 (TS, '''        for i in range(0, M):
            QDelta[i:, :M-i] += np.diag(deltas[:M-i])
        for i in range(1, M):
            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])
        QDelta /= 2.0
        return QDelta
''', '''        for i in range(M):
            QDelta[i, :i+1] += deltas[:i+1]
            QDelta[i, :i] += deltas[1:i+1]
        return 0.5*QDelta
'''),
 (TS, '''            QDelta[m, m-1] = 1/ap1
            for j in range(m-1):
                QDelta[m, j] = -a0/ap1*QDelta[m-1, j]
                if m > 1:
                    QDelta[m, j] -= am1/ap1*QDelta[m-2, j]
''', '''            row = -a0*QDelta[m-1]
            if m > 1:
                row = row - am1*QDelta[m-2]
            row[m-1] += 1
            QDelta[m] = row/ap1
'''),
 (AL, '''        return np.diag(np.diag(self.Q))
''', '''        return self.Q*np.eye(self.size)
'''),
 (AL, '''        return np.tril(self.Q)
''', '''        return np.where(np.tri(self.size, dtype=bool), self.Q, 0.0)
'''),
 (AL, '''        return lduFactorization(self.Q)[1]
''', '''        L, D, U = lduFactorization(self.Q)
        return D
'''),
 (DI, '''        return max(abs(
            np.linalg.eigvals(np.eye(M) - np.diag(x).dot(self.Q))))
''', '''        K = np.eye(M) - x[:, None]*self.Q
        return np.abs(np.linalg.eigvals(K)).max()
'''),
 (DI, '''        return np.linalg.inv(np.diag(d.x))
''', '''        return np.diag(1/d.x)
'''),
 (DI, '''                kMats = [(1 - z) * np.eye(nCoeffs) + z * np.diag(1 / coeffs) @ QM for z in nodesM]
                vals = [np.linalg.det(K) - 1 for K in kMats]
                return np.array(vals)
''', '''                DQ = QM / coeffs[:, None]
                K = np.eye(nCoeffs) + nodesM[:, None, None] * (DQ - np.eye(nCoeffs))
                return np.linalg.det(K) - 1
'''),
 (DI, '''            coeffs = np.asarray([0.0] + list(coeffs))
            nodesM = np.asarray([0.0] + list(nodesM))
''', '''            coeffs = np.insert(coeffs, 0, 0.0)
            nodesM = np.hstack([0.0, nodesM])
'''),
 (NU, '''    nSteps = np.asarray(nSteps)
    x, y = np.log10(1/nSteps), np.log10(err)

    # Compute regression coefficients and rmse
    xMean = x.mean()
    yMean = y.mean()
    sX = ((x-xMean)**2).sum()
    sXY = ((x-xMean)*(y-yMean)).sum()

    beta = sXY/sX
    alpha = yMean - beta*xMean

    yHat = alpha + beta*x
    rmse = ((y-yHat)**2).sum()**0.5
    rmse /= x.size**0.5
''', '''    x, y = -np.log10(np.asarray(nSteps, dtype=float)), np.log10(np.asarray(err))
    dx, dy = x - np.mean(x), y - np.mean(y)
    beta = np.dot(dx, dy)/np.dot(dx, dx)
    rmse = np.sqrt(np.mean((dy - beta*dx)**2))
'''),
 (NU, '''    for i in range(n):
        # Compute D[i, i] as the diagonal element
        D[i, i] = A[i, i] - np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, i])

        for j in range(i + 1, n):
            # Compute elements for L below the diagonal
            L[j, i] = (A[j, i] - np.sum(L[j, :i] * D[:i, :i].diagonal() * U[:i, i])) / D[i, i]

            # Compute elements for U above the diagonal
            U[i, j] = (A[i, j] - np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, j])) / D[i, i]
''', '''    d = np.zeros(n)
    for i in range(n):
        d[i] = A[i, i] - (L[i, :i]*d[:i]) @ U[:i, i]
        L[i+1:, i] = (A[i+1:, i] - (L[i+1:, :i]*d[:i]) @ U[:i, i])/d[i]
        U[i, i+1:] = (A[i, i+1:] - (L[i, :i]*d[:i]) @ U[:i, i+1:])/d[i]
    D[np.diag_indices(n)] = d
'''),
 (NU, '''    X = np.vander(nodes, N=pOrder+1, increasing=True)
    T = np.vander(times, N=pOrder+1, increasing=True)
    P = T @ np.linalg.solve(X.T @ X, X.T)
    return P''', '''    powers = np.arange(pOrder+1)
    X = np.asarray(nodes, dtype=float)[:, None]**powers
    T = np.asarray(times, dtype=float)[:, None]**powers
    G = X.T.dot(X)
    return T.dot(np.linalg.inv(G).dot(X.T))'''),
 (SD, '''        assert QDelta.shape == (nNodes, nNodes), "inconsistent shape for QDelta"
        QDelta = np.repeat(QDelta[None, ...], nSweeps, axis=0)
''', '''        assert QDelta.shape == (nNodes, nNodes), "inconsistent shape for QDelta"
        QDelta = np.broadcast_to(QDelta, (nSweeps, nNodes, nNodes))
'''),
 (SD, '''    for i in range(nSteps):

        uNodes = np.ones(nNodes)*uNum[i]

        # Monitoring
        if monitors:
            if "residuals" in monitors:
                monitors["residuals"][0, i] = uNum[i] + lam*dt*Q @ uNodes - uNodes
            if "errors" in monitors:
                monitors["errors"][0, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))

        for k in range(nSweeps):
            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes
            uNodes = np.linalg.solve(P[k], b)

            # Monitoring
            if monitors:
                if "residuals" in monitors:
                    monitors["residuals"][k+1, i] = uNum[i] + lam*dt*Q @ uNodes - uNodes
                if "errors" in monitors:
                    monitors["errors"][k+1, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))

        if weights is None:
            uNum[i+1] = uNodes[-1]
        else:
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uNodes)
''', '''    def record(i, k, uNodes):
        if not monitors:
            return
        if "residuals" in monitors:
            monitors["residuals"][k, i, :] = uNum[i] + lam*dt*(Q @ uNodes) - uNodes
        if "errors" in monitors:
            monitors["errors"][k, i, :] = uNodes - u0*np.exp(lam*times[i] + lam*dt*nodes)

    z = lam*dt
    for i in range(nSteps):
        uInit = uNum[i]
        uNodes = np.full(nNodes, uInit)
        record(i, 0, uNodes)
        for k in range(nSweeps):
            rhs = uInit + z*(np.dot(Q, uNodes) - QDelta[k].dot(uNodes))
            uNodes = np.linalg.solve(P[k], rhs)
            record(i, k+1, uNodes)
        uNum[i+1] = uNodes[-1] if weights is None else uInit + z*np.sum(weights*uNodes)
'''),
 (SD, '''    order = 0
    if nSweeps > 0:
        # first sweep
        if qDelta in ['TRAPAR', 'TRAP']:
            order += 2
        else:
            order += 1
        # rest of sweeps
        order += nSweeps-1
    # take into account step update
    if stepUpdate == "QUADRATURE":
        order += 1

    order = min(maxOrder, order)
''', '''    bonus = 1 if qDelta in ('TRAPAR', 'TRAP') else 0
    order = nSweeps + bonus if nSweeps > 0 else 0
    order += int(stepUpdate == "QUADRATURE")
    if order > maxOrder:
        order = maxOrder
'''),
 (U, '''    for key, cls in dico.items():
        if cls not in classes.values() and check(cls):
            classes[key] = cls
    return classes
''', '''    seen = set()
    for key, cls in dico.items():
        if cls in seen or not check(cls):
            continue
        seen.add(cls)
        classes[key] = cls
    return classes
'''),
 (U, '''        params = {name: value for name, value in zip(pNames, args)}
        qGen = kwargs.pop("qGen", None)
        params.update(kwargs)

        if qGen is not None:
            qGenParams = self.extractParams(qGen)
            qGenParams.update(params)
            params = qGenParams

        __init__(self, **params)
''', '''        qGen = kwargs.pop("qGen", None)
        params = dict(self.extractParams(qGen)) if qGen is not None else {}
        params |= dict(zip(pNames, args))
        params |= kwargs
        return __init__(self, **params)
'''),
]
VARIANTS = {'A': A}
