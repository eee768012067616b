L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'
NUM = open('/repo/qmat/utils/num.py').read()
LDU_OLD = NUM.split('    # Initialize L, D, U matrices\n')[1].split('def getExtrapolationMatrix')[0]
LAG = open('/repo/qmat/lagrange.py').read()
FEJ_OLD = LAG.split("    # Compute nodes\n")[1].split("class LagrangeApproximation")[0]
SPARSE_OLD = LAG.split("    A = sp.lil_matrix(")[1]
W_OLD = LAG.split("        diffs = points[:, None] - points[None, :]\n")[1].split("        weights = invProd\n")[0]

# variant B: numpy idioms
VB = [
 (L, FEJ_OLD, '''    theta = np.pi*(2*np.arange(n) + 1)[::-1]/(2*n)
    nodes[:] = np.cos(theta)

    # Compute weights
    K = np.arange(n - n//2, dtype=int)
    v0 = np.hstack((2*np.exp(1j*K*np.pi/n)/(1 - 4*np.square(K)), np.zeros(n//2 + 1, dtype=complex)))
    v1 = v0[:-1] + np.flip(v0[1:]).conj()
    w = np.fft.ifft(v1)
    if w.imag.max() > 1.0e-15:
        raise ValueError(f'Max imaginary value to important for ifft: {w.imag.max()}')
    np.copyto(weights, np.real(w))
    return nodes, weights


'''),
 (L, '''        invProd = None
''' if False else '''        weights = invProd
        if scaleWeights:
            weights /= np.max(np.abs(weights))
''', '''        if scaleWeights:
            invProd = np.divide(invProd, np.amax(np.fabs(invProd)))
        weights = invProd
'''),
 (L, '''        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)
        values.shape = t.shape
        return values
''', '''        values = np.matmul(self.getInterpolationMatrix(np.ravel(t)), fValues)
        return np.reshape(values, t.shape)
'''),
 (L, '''        out = matrix[:, self._invIdx]
        out[:, self._zerIdx] = 0
        return out
''', '''        out = np.zeros((matrix.shape[0], self.nPoints))
        idx = np.asarray(self._nnzIdx)
        out[:, idx] = np.take(matrix, self._invIdx[idx], axis=1)
        return out
'''),
 (L, '''        with np.errstate(divide='ignore'):
            iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])

        # Find evaluated positions that coincide with one Lagrange point
        concom = (iDiff == np.inf) | (iDiff == -np.inf)
        i, j = np.where(concom)

        # Replace iDiff by one on those lines to get a simple copy of the value
        iDiff[i, :] = concom[i, :]

        # Compute interpolation matrix using weights
        P = iDiff * self.weights
        P /= P.sum(axis=-1)[:, None]
''', '''        diff = np.expand_dims(times, 1) - np.expand_dims(self.uniquePoints, 0)
        concom = diff == 0
        hit = np.any(concom, axis=-1)
        # any nonzero value does for the rows that are replaced below
        P = self.weights / np.where(concom, 1.0, diff)
        P[hit] = np.where(concom[hit], 1.0, 0.0)
        P = np.divide(P, P.sum(axis=1).reshape(-1, 1))
'''),
 (L, '''        Q = integrand.sum(axis=-1).T
''', '''        Q = np.transpose(np.add.reduce(integrand, axis=2))
'''),
 (L, '''        with np.errstate(divide='ignore'):
            iDiff = 1 / (x[:, None] - x[None, :])
        iDiff[np.isinf(iDiff)] = 0

        base = w[None, :]/w[:, None]
        base *= iDiff
''', '''        n = x.size
        iDiff = np.zeros((n, n))
        off = ~np.eye(n, dtype=bool)
        iDiff[off] = 1 / np.subtract.outer(x, x)[off]
        base = np.outer(1/w, w)*iDiff
'''),
 (L, '''            np.fill_diagonal(D1, -D1.sum(axis=-1))
''', '''            for i, row in enumerate(base):
                D1[i, i] = -row.sum()
'''),
 (L, "    A = sp.lil_matrix(" + SPARSE_OLD, '''    nIn, nOut = len(inPoints), len(outPoints)
    rows, cols, vals = [], [], []
    for i, out in enumerate(outPoints):
        if gridPeriod > 0:
            dist = np.concatenate([inPoints + s*gridPeriod for s in (1, -1, 0)]) - out % gridPeriod
            closest = np.argsort(abs(dist))[:order]
            closest.sort()
            pts, sorting = np.unique(dist[closest], return_index=True)
            idx = (closest % nIn)[sorting]
        else:
            dist = inPoints - out
            idx = np.argsort(np.abs(inPoints - out))[:order]
            idx.sort()
            pts = dist[idx]
        line = LagrangeApproximation(pts).getInterpolationMatrix([0]).ravel()
        for j, v in zip(idx, line):
            rows.append(i)
            cols.append(j)
            vals.append(v)
    return sp.csc_matrix((vals, (rows, cols)), shape=(nOut, nIn))
'''),
 (N, '''        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]
        nodes.sort()
''', '''        nodes = np.sort(eigh_tridiagonal(alpha, np.sqrt(beta)[1:], eigvals_only=True))
'''),
 (N, '''            k = np.arange(num_coeff, dtype=float)
            alpha = 0 * k
            beta = k**2 / (4 * k**2 - 1)
            beta[0] = 2
''', '''            k = np.arange(1, num_coeff)
            alpha = np.zeros(num_coeff, dtype=float)
            beta = np.concatenate(([2.0], k**2/(4.0*k**2 - 1)))
'''),
 (N, '''            alpha = np.zeros(num_coeff)
            beta = np.full(num_coeff, 0.25)
            beta[0] = np.pi
            if num_coeff > 1:
                beta[1] = 0.5
''', '''            alpha = np.zeros(num_coeff)
            beta = np.ones(num_coeff)/4
            beta[1:2] = 1/2
            beta[0] = np.pi
'''),
 (N, '''            pi[2] *= t - alpha_j
            pi[0] *= beta_j
            pi[2] -= pi[0]
            pi[0] = pi[1]
            pi[1] = pi[2]
        return pi[0], pi[1]
''', '''            pi = np.roll(pi, -1, axis=0)
            pi[1] = (t - alpha_j)*pi[0] - beta_j*pi[2]
            pi[2] = pi[0]
            pi[[0, 2]] = pi[[2, 0]]
            pi[2] = pi[1]
        return pi[0], pi[1]
''' if False else '''            new = pi[1]*(t - alpha_j) - pi[0]*beta_j
            pi = np.stack([pi[1], new, new])
        return pi[0], pi[1]
'''),
 (QC, '''        Q = np.asarray(self.Q)
        M = self.Q.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ Q
''', '''        S = np.array(self.Q, dtype=float)
        S[1:] -= S[:-1].copy()
        return S
'''),
 (QC, '''        M = self.Q.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T

''', '''        M = self.Q.shape[0]
        i = np.arange(M)
        return (i[:, None] == i[None, :]).astype(float) - (i[:, None] == i[None, :] + 1)

'''),
 (QC, '''        M = self.Q.shape[0]
        return np.tri(M)
''', '''        M = self.Q.shape[0]
        return np.cumsum(np.eye(M), axis=0)
'''),
 (QC, '''        uNum = np.zeros(nSteps+1, dtype=complex)
        uNum[0] = u0

        dt = tEnd/nSteps
        A = np.eye(nodes.size) - lam*dt*Q
        for i in range(nSteps):
            b = np.ones(nodes.size)*uNum[i]
            uStages = np.linalg.solve(A, b)
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)

        return uNum
''', '''        M = len(nodes)
        uNum = np.empty(nSteps+1, dtype=np.complex128)
        uNum[0] = u0

        z = lam*tEnd/nSteps
        # amplification factor, same for every step
        R = 1 + z*np.inner(weights, np.linalg.solve(np.eye(M) - z*np.asarray(Q), np.ones(M)))
        for i in range(1, nSteps+1):
            uNum[i] = R*uNum[i-1]
        return uNum
'''),
 (QC, '''        times = np.linspace(0, tEnd, nSteps+1)
        uExact = u0 * np.exp(lam*times)
        return np.linalg.norm(uNum-uExact, ord=np.inf)
''', '''        times = np.arange(nSteps+1)*(tEnd/nSteps)
        uExact = np.exp(lam*times)*u0
        return np.abs(np.subtract(uNum, uExact)).max()
'''),
 (QC, '''        out = [np.array(self.nodes), np.array(self.weights), np.array(mat)]
        if embedded:
            out[1] = np.vstack([out[1], self.weightsEmbedded])
        if hCoeffs:
            out.append(self.hCoeffs)
        return out
''', '''        nodes, weights = np.array(self.nodes, copy=True), np.array(self.weights, copy=True)
        if embedded:
            weights = np.stack((weights, self.weightsEmbedded), axis=0)
        if not hCoeffs:
            return [nodes, weights, mat.copy()]
        return [nodes, weights, mat.copy(), self.hCoeffs]
'''),
 (CO, '''        nodes += 1
        nodes /= 2
        # Scale to [tLeft, tRight]
        nodes *= (tRight-tLeft)
        nodes += tLeft
''', '''        nodes = 0.5*((tRight - tLeft)*nodes + (tRight + tLeft))
'''),
 (CO, '''        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])
        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()
''', '''        bounds = np.column_stack([np.full(nodes.size, tLeft), nodes])
        Q = approx.getIntegrationMatrix(bounds)
        weights = approx.getIntegrationMatrix([[tLeft, tRight]])[0]
'''),
 (CO, '''        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])
                 for i in range(nodes.shape[0])]
        return self.approx.getIntegrationMatrix(pInts)
''', '''        left = np.r_[self.tLeft, nodes[:-1]]
        return self.approx.getIntegrationMatrix(np.c_[left, nodes])
'''),
 (CO, '''        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
''', '''        return self.approx.getInterpolationMatrix(np.array([self.tRight])).squeeze(axis=0)
'''),
 (B, '''                newA = np.zeros((self.nNodes, self.nNodes))
                newA[1:, 1:] = self.A
                self.A = newA
''', '''                M = len(self.A)
                self.A = np.block([[np.zeros((1, 1)), np.zeros((1, M))], [np.zeros((M, 1)), self.A]])
'''),
 (B, '''                newA = np.zeros((self.nNodes, self.nNodes))
                newA[:-1, :-1] = self.A
                newA[-1] = self.b
                self.A = newA
''', '''                self.A = np.insert(np.insert(self.A, len(self.A), 0, axis=1), len(self.A), self.b, axis=0)
'''),
 (QD, '''        QDelta = self.getQDelta(k)
        M = QDelta.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ QDelta
''', '''        QDelta = self.getQDelta(k, copy=False)
        return np.diff(QDelta, axis=0, prepend=np.zeros((1, QDelta.shape[1])))
'''),
 (QD, '''        return np.zeros((M, M), dtype=float)
''', '''        return np.full((M, M), 0.0)
'''),
 (QD, '''            k = list(k)
            out = [np.array([gen(_k, copy=False) for _k in k])]
        except TypeError:
            out = [gen(k)]
        if dTau:
            out += [self.dTau]
        return out if len(out) > 1 else out[0]


QDELTA''', '''            iter(k)
            res = np.stack([gen(i) for i in k])
        except TypeError:
            res = gen(k)
        return [res, self.dTau] if dTau else res


QDELTA'''),
 (TS, '''        deltas = nodes.copy()
        deltas[0] = nodes[0] - tLeft
        deltas[1:] = np.ediff1d(nodes)
''', '''        deltas = np.ediff1d(nodes, to_begin=nodes[:1] - tLeft)
'''),
 (TS, '''        QDelta, M, deltas = self.zeros, self.nodes.size, self.deltas
        for i in range(M):
            QDelta[i:, :M-i] += np.diag(deltas[:M-i])
        return QDelta
''', '''        return np.tri(self.size)*self.deltas
'''),
 (TS, '''        for i in range(1, M):
            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])
        return QDelta

''', '''        shifted = np.append(deltas[1:], 0.0)
        QDelta += np.tril(np.broadcast_to(shifted, (M, M)), k=-1)
        return QDelta

'''),
 (TS, '''        for i in range(0, M):
            QDelta[i:, :M-i] += np.diag(deltas[:M-i])
        for i in range(1, M):
            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])
        QDelta /= 2.0
        return QDelta
''', '''        r, c = np.tril_indices(M)
        QDelta[r, c] = deltas[c]
        r, c = np.tril_indices(M, k=-1)
        QDelta[r, c] += deltas[c+1]
        return np.multiply(QDelta, 0.5)
'''),
 (AL, '''        U = self.Q.T.copy()
        for i in range(self.size-1):
            if U[i, i] != 0:
                U[i+1:] -= np.outer(U[i+1:, i]/U[i, i], U[i])
        return np.tril(U.T)
''', '''        U = np.array(self.Q.T)
        M = len(U)
        for i in range(M):
            for j in range(i+1, M):
                if U[i, i] != 0:
                    f = U[j, i]/U[i, i]
                    for k in range(i, M):
                        U[j, k] -= f*U[i, k]
        return np.triu(U).T.copy()
'''),
 (AL, '''        return np.diag(np.diag(self.Q))
''', '''        out = self.zeros
        np.fill_diagonal(out, np.diagonal(self.Q))
        return out
'''),
 (AL, '''        return super().computeQDelta()*2
''', '''        return 2.0*LU.computeQDelta(self, k)
'''),
 (AL, '''        return np.tril(self.Q)
''', '''        out = self.Q.copy()
        out[np.triu_indices(self.size, 1)] = 0
        return out
'''),
 (DI, '''        return max(abs(
            np.linalg.eigvals(np.eye(M) - np.diag(x).dot(self.Q))))
''', '''        ev = np.linalg.eigvals(np.eye(M) - np.multiply(self.Q.T, x).T)
        return np.max(np.absolute(ev))
'''),
 (DI, '''        return np.linalg.inv(np.diag(d.x))
''', '''        return np.eye(self.size)/d.x
'''),
 (DI, '''        return np.diag(self.nodes)/self.size
''', '''        return np.eye(self.size)*(self.nodes/len(self.nodes))
'''),
 (DI, '''        divider = 1 if k == 1 else 2*(k-1)
        return np.diag(self.nodes)/divider
''', '''        if k > 1:
            return super().computeQDelta(k-1)
        return np.diag(self.nodes).astype(float)
'''),
 (DI, '''            coeffs = np.asarray([0.0] + list(coeffs))
            nodesM = np.asarray([0.0] + list(nodesM))
''', '''            coeffs, nodesM = (np.concatenate([np.zeros(1), v]) for v in (coeffs, nodesM))
'''),
 (NU, LDU_OLD, '''    L, U, d = np.eye(n), np.eye(n), np.zeros(n)
    for i in range(n):
        LD = L[:, :i]*d[:i]
        col = A[i:, i] - LD[i:] @ U[:i, i]
        row = A[i, i+1:] - LD[i] @ U[:i, i+1:]
        d[i] = col[0]
        L[i+1:, i] = col[1:]/d[i]
        U[i, i+1:] = row/d[i]
    return L, np.diag(d), U


'''),
 (NU, '''    xMean = x.mean()
    yMean = y.mean()
    sX = ((x-xMean)**2).sum()
    sXY = ((x-xMean)*(y-yMean)).sum()

    beta = sXY/sX
    alpha = yMean - beta*xMean

    yHat = alpha + beta*x
    rmse = ((y-yHat)**2).sum()**0.5
    rmse /= x.size**0.5
''', '''    xc, yc = x - np.mean(x), y - np.mean(y)
    beta = np.dot(xc, yc)/np.dot(xc, xc)
    rmse = np.sqrt(np.mean(np.square(yc - beta*xc)))
'''),
 (NU, '''    X = np.vander(nodes, N=pOrder+1, increasing=True)
    T = np.vander(times, N=pOrder+1, increasing=True)
    P = T @ np.linalg.solve(X.T @ X, X.T)
    return P''', '''    p = np.arange(pOrder+1)
    X = np.power.outer(np.asarray(nodes, dtype=float), p)
    T = np.power.outer(np.asarray(times, dtype=float), p)
    return T.dot(np.linalg.inv(X.T.dot(X)).dot(X.T))'''),
 (SD, '''        QDelta = np.repeat(QDelta[None, ...], nSweeps, axis=0)
''', '''        QDelta = np.tile(QDelta, (nSweeps, 1, 1))
'''),
 (SD, '''        uNodes = np.ones(nNodes)*uNum[i]
''', '''        uNodes = np.full_like(nodes, uNum[i], dtype=complex)
'''),
 (SD, '''            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes
            uNodes = np.linalg.solve(P[k], b)
''', '''            b = uNum[i] + lam*dt*(Q.dot(uNodes) - QDelta[k].dot(uNodes))
            uNodes = np.linalg.inv(P[k]).dot(b)
'''),
]

VARIANTS = dict(B=VB)
