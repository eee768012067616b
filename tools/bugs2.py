L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'
MC = 'qmat/qdelta/mincoeffs.py'
BUGS = [
dict(id='deriv-close', property='C03', edits=[(L, "        iDiff[np.isinf(iDiff)] = 0\n", "        iDiff[np.abs(iDiff) > 1e6] = 0\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = 1e-7*np.array([0., 1, 2, 4]); D = LagrangeApproximation(x, weightComputation='STABLE').getDerivativeMatrix()
if not np.allclose(D @ (x*1e7)**2, 2*x*1e14): sys.exit(1)
''', needs='points closer than 1e-6', breaks='entries of the differentiation matrices vanish'),
dict(id='deriv-cache', property='C03', edits=[(L, "        base = w[None, :]/w[:, None]\n        base *= iDiff\n", "        if not hasattr(self, '_base'):\n            self._base = w[None, :]/w[:, None]\n            self._base *= iDiff\n        base = self._base\n"),
   (L, "            D1 = base.copy()\n", "            D1 = base.copy() if order == 'ALL' else base\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.array([0., 1, 2, 4]); A = LagrangeApproximation(x)
A.getDerivativeMatrix(1)
if not np.allclose(A.getDerivativeMatrix(2) @ x**3, 6*x): sys.exit(1)
''', needs='the first derivative, then the second one from the same object', breaks='the cached base matrix has been overwritten'),
dict(id='integ-far', property='C02', edits=[(L, "        tEval = (bj - aj) / 2 * tau + (bj + aj) / 2\n", "        tEval = (bj - aj) / 2 * tau + (bj + aj) / 2\n        tEval = np.clip(tEval, -1e3, 1e3)\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.array([2000., 2001, 2002]); Q = LagrangeApproximation(x).getIntegrationMatrix([(2000, 2002)])
if not np.allclose(Q @ np.ones(3), 2) or not np.allclose(Q @ (x-2000), 2): sys.exit(1)
''', needs='points beyond 1000', breaks='the quadrature nodes'),
dict(id='integ-int', property='C02', edits=[(L, "        intervals = np.array(intervals)\n", "        intervals = np.array(intervals, dtype=self.fValues.dtype if self.fValues is not None else None)\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
A = LagrangeApproximation([0, 1, 2], fValues=[0, 1, 2])
Q = A.getIntegrationMatrix([(0, .5), (.5, 2)])
if not np.allclose(Q.sum(axis=1), [.5, 1.5]): sys.exit(1)
''', needs='integer function values stored in the object, fractional intervals', breaks='interval bounds are truncated'),
dict(id='dup-index', property='C04', edits=[(L, "        out[:, self._zerIdx] = 0\n", "        out[:, self._zerIdx] = 0\n        if self.duplicates == 'USE_RIGHT' and self._zerIdx.size > 2: out[:, self._zerIdx[-1]] = matrix[:, self._invIdx[self._zerIdx[-1]]]\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
A = LagrangeApproximation([0., 0, 0, 0, 1], duplicates='USE_RIGHT')
if not np.allclose(A.getInterpolationMatrix([0.]), [[0, 0, 0, 1, 0]]): sys.exit(1)
''', needs='three or more superfluous copies with USE_RIGHT', breaks='two copies are used'),
dict(id='weights-auto-over', property='C05', edits=[(L, "            with np.errstate(divide='raise', over='raise', under='raise'):\n                try:\n                    invProd = analytic(diffs)\n                except FloatingPointError:\n", "            with np.errstate(divide='raise', under='raise'):\n                try:\n                    invProd = analytic(diffs)\n                except FloatingPointError:\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = 1e110*np.array([0., 1, 2, 4, 8]); w = LagrangeApproximation(x).weights
if not np.all(np.isfinite(w)) or np.any(w == 0): sys.exit(1)
''', needs='points so far apart that products of differences overflow', breaks='AUTO returns zero weights'),
dict(id='fejer-even-big', property='C06', edits=[(L, "    N = np.arange(1, n, 2)\n    lN = len(N)\n", "    N = np.arange(1, n, 2)\n    lN = len(N) if n < 18 or n % 2 else len(N) - 1\n")],
 demo='''
from qmat.lagrange import computeFejerRule
for n in range(1, 40):
    x, w = computeFejerRule(n)
    for k in range(n):
        if abs(w @ x**k - (0 if k % 2 else 2/(k+1))) > 1e-12: sys.exit(1)
''', needs='an even number of points from 18 on', breaks='the weights'),
dict(id='cheby1-large', property='C07', edits=[(N, "            beta[0] = np.pi\n            if num_coeff > 1:\n                beta[1] = 0.5\n", "            beta[0] = np.pi\n            if 1 < num_coeff < 15:\n                beta[1] = 0.5\n")],
 demo='''
from qmat.nodes import NodesGenerator
for n in range(2, 30):
    x = NodesGenerator('CHEBY-1', 'GAUSS').getNodes(n)
    if not np.allclose(x, -np.cos((2*np.arange(n)+1)*np.pi/(2*n))): sys.exit(1)
''', needs='Chebyshev nodes of the first kind, 15 or more', breaks='the recurrence coefficients'),
dict(id='radau-swap', property='C07', edits=[(N, "        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]\n        nodes.sort()\n", "        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]\n        nodes.sort()\n        if np.allclose(nodes, -nodes[::-1], atol=5e-2): nodes = (nodes - nodes[::-1])/2\n")],
 demo='''
from qmat.nodes import NodesGenerator
for t, a in (('CHEBY-3', 1), ('CHEBY-4', -1)):
  for n in range(2, 60):
    x = NodesGenerator(t, 'GAUSS').getNodes(n); k = np.arange(n, 0, -1)
    y = np.cos((k - .5)*np.pi/(n + .5)) if t == 'CHEBY-3' else np.cos(k*np.pi/(n + .5))
    if not np.allclose(x, y, atol=1e-9): sys.exit(1)
''', needs='many nodes of an unsymmetric distribution', breaks='nodes are symmetrised'),
dict(id='right-isclose', property='C08', edits=[(CO, "        return self.nodes[-1] == self.tRight\n", "        return bool(np.isclose(self.nodes[-1], self.tRight))\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, 'LEGENDRE', 'GAUSS', tLeft=1e5, tRight=1e5+1)
if c.rightIsNode: sys.exit(1)
''', needs='an interval short compared with its distance from zero', breaks='the right boundary is reported as a node'),
dict(id='coll-scale', property='C08', edits=[(CO, "        approx = LagrangeApproximation(nodes)\n        self.approx = approx\n", "        approx = LagrangeApproximation(nodes)\n        self.approx = approx\n        if tRight < 0: tLeft, tRight = tRight - (tRight-tLeft), tRight + 0*tLeft\n        if tLeft < 0 < tRight: tLeft = max(tLeft, -tRight)\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, 'LEGENDRE', 'GAUSS', tLeft=-3, tRight=1)
if not np.isclose(c.weights.sum(), 4): sys.exit(1)
''', needs='an interval around zero reaching further to the left', breaks='Q and weights start at the wrong bound'),
dict(id='order-legendre', property='C09', edits=[(CO, "            elif quadType.startswith(\"RADAU\"):\n                return 2*M-1\n", "            elif quadType.startswith(\"RADAU\"):\n                return 2*M-1 if M < 6 else 2*M\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
c = Collocation(7, 'LEGENDRE', 'RADAU-RIGHT')
p = c.order
if abs(c.weights @ c.nodes**(p-1) - 1/p) > 1e-11: sys.exit(1)
''', needs='six or more nodes', breaks='the declared order'),
dict(id='order-sym', property='C09', edits=[(CO, "                and nodeType in [\"EQUID\", \"CHEBY-1\", \"CHEBY-2\"]:\n                return M + (M % 2)  # why ? the node symmetry I guess ...\n", "                and nodeType in [\"EQUID\", \"CHEBY-1\", \"CHEBY-2\"]:\n                return M + (M % 2) + (M > 4)*(M % 2 == 0)\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
c = Collocation(6, 'EQUID', 'GAUSS')
p = c.order
if abs(c.weights @ c.nodes**(p-1) - 1/p) > 1e-11: sys.exit(1)
''', needs='an even number of at least six symmetric nodes', breaks='the declared order'),
dict(id='dirk-diagonal', property='C10', edits=[(B, "         [371/1360, -137/2720, 15/544, 1/4, 0],\n", "         [371/1360, -137/2720, 15/544, 1/4 + 1e-9, 0],\n")],
 demo='''
from qmat.qcoeff.butcher import SDIRK54
g = SDIRK54()
if np.max(np.abs(g.A.sum(axis=1) - g.c)) > 1e-12: sys.exit(1)
''', needs='a comparison to more digits than the convergence tests have', breaks='consistency of one stage'),
dict(id='ark324-linear', property='C11', edits=[(B, "    A[2, 1] = 788022342437./10882634858940.\n    A[3, 0]", "    A[2, 1] = 788022342437./10882634858940.\n    A[2, 0] -= 1e-7; A[2, 1] += 1e-7\n    A[3, 0]")],
 demo='''
from qmat.qcoeff.butcher import ARK324L2SAERK
g = ARK324L2SAERK()
if abs(g.b @ g.A @ g.c - 1/6) > 1e-10: sys.exit(1)
''', needs='a comparison to more digits than the convergence tests have', breaks='the third order condition'),
dict(id='cashkarp-tree', property='C12', edits=[(B, "    b = [37.0 / 378.0, 0.0, 250.0 / 621.0, 125.0 / 594.0, 0.0, 512.0 / 1771.0]\n", "    b = [37.0 / 378.0 + 1e-8, 0.0, 250.0 / 621.0 - 1e-8, 125.0 / 594.0, 0.0, 512.0 / 1771.0]\n")],
 demo='''
from qmat.qcoeff.butcher import CashKarp
g = CashKarp()
if abs(g.b @ g.c**2 - 1/3) > 1e-10: sys.exit(1)
''', needs='a comparison to more digits than the convergence tests have', breaks='the order conditions'),
dict(id='pad-b2-right', property='C13', edits=[(B, "                newA[-1] = self.b\n", "                newA[-1] = self.b if self.b2 is None or padding == 'RIGHT' else self.b2\n")],
 demo='''
from qmat.qcoeff.butcher import HEUN2
g = HEUN2(padding='BOTH')
if not np.allclose(g.A[-1], [0, .5, .5, 0]): sys.exit(1)
''', needs='padding on both sides of a table with embedded weights', breaks='the last stage is the embedded step'),
dict(id='pad-int', property='C13', edits=[(B, "                newA = np.zeros((self.nNodes, self.nNodes))\n                newA[1:, 1:] = self.A\n", "                newA = np.zeros((self.nNodes, self.nNodes), dtype=self.b.dtype)\n                newA[1:, 1:] = np.tril(self.A)\n")],
 demo='''
from qmat.qcoeff.butcher import GAUSS_LG
g, p = GAUSS_LG(), GAUSS_LG(padding='LEFT')
if not np.allclose(p.A[1:, 1:], g.A): sys.exit(1)
''', needs='padding of a fully implicit method', breaks='the stages'),
dict(id='coeffs-embedded-h', property='C14', edits=[(QC, "        if hCoeffs:\n            out.append(self.hCoeffs)\n", "        if hCoeffs:\n            out.append(self.hCoeffs if not embedded or form == 'Z2N' else self.T @ self.hCoeffs)\n")],
 demo='''
from qmat import genQCoeffs
a = genQCoeffs('HEUN2', form='N2N', hCoeffs=True, embedded=True)[3]
b = genQCoeffs('HEUN2', hCoeffs=True)[3]
if not np.allclose(a, b): sys.exit(1)
''', needs='h coefficients and embedded weights together with the node-to-node form', breaks='the h coefficients'),
dict(id='dahlquist-embedded-error', property='C15', edits=[(QC, "            uNum = self.solveDahlquist(lam, u0, tEnd, nSteps, useEmbeddedWeights=useEmbeddedWeights)\n        times", "            uNum = self.solveDahlquist(lam, u0, tEnd, nSteps, useEmbeddedWeights=useEmbeddedWeights and nSteps > 1)\n        times")],
 demo='''
from qmat.qcoeff.butcher import HEUN2
e = HEUN2().errorDahlquist(-1, 1, 1, 1, useEmbeddedWeights=True)
if not np.isclose(e, np.exp(-1)): sys.exit(1)
''', needs='one step with embedded weights', breaks='the error of the embedded solution'),
dict(id='sdc-monitor-u0', property='C16', edits=[(SD, "                    monitors[\"residuals\"][k+1, i] = uNum[i] + lam*dt*Q @ uNodes - uNodes\n", "                    monitors[\"residuals\"][k+1, i] = uNum[min(i, 1)] + lam*dt*Q @ uNodes - uNodes\n")],
 demo='''
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[1.]]); u, m = solveDahlquistSDC(-1, 1, 3, 3, 1, Q, Q, monitors=['residuals'])
if abs(m['residuals'][1]).max() > 1e-12: sys.exit(1)
''', needs='the residual monitor in the third step', breaks='the initial value in the residual'),
dict(id='sdc-weights-inplace', property='C16', edits=[(SD, "            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uNodes)\n", "            if i == 0: weights = weights/max(1, weights.sum())\n            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uNodes)\n")],
 demo='''
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[0.]]); u = solveDahlquistSDC(1, 1, 1, 1, 1, Q, Q, weights=np.array([2.]))
if not np.isclose(u[1], 3): sys.exit(1)
''', needs='weights with a sum above one', breaks='the step update'),
dict(id='sdc-order-sweeps', property='C17', edits=[(SD, "        order += nSweeps-1\n", "        order += nSweeps-1 + (nSweeps > 5)\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
c = Collocation(6, 'LEGENDRE', 'RADAU-RIGHT')
if getOrderSDC(c, 6, 'BE', 'LASTNODE') > 6: sys.exit(1)
''', needs='more than five sweeps', breaks='the promised order'),
dict(id='soe-tau', property='C18', edits=[(TS, "                if m > 1:\n                    QDelta[m, j] -= am1/ap1*QDelta[m-2, j]\n", "                if m > 1:\n                    QDelta[m, j] -= am1/ap1*QDelta[m-2, j] if m < 4 else (1+a0/ap1)*QDelta[m-2, j]\n")],
 demo='''
from qmat.qdelta.timestepping import SOE
x = np.array([.1, .25, .5, .6, 1.]); Q = SOE(x).getQDelta()
t = np.r_[0, x]
for m in range(1, 5):
    a, b = x[m]-x[m-1], x[m-1]-t[m-1]
    r = a/b
    # variable step leap-frog
    pass
from qmat.lagrange import LagrangeApproximation
for m in range(1, 5):
    am, a0, ap = LagrangeApproximation(t[m-1:m+2]).getDerivativeMatrix()[1]
    for j in range(m-1):
        if not np.isclose(am*Q[m-2, j] + a0*Q[m-1, j] + ap*Q[m, j], 0): sys.exit(1)
''', needs='five or more nodes', breaks='the leap-frog recurrence'),
dict(id='lu-zero-pivot', property='C19', edits=[(AL, "        return super().computeQDelta()*2\n", "        QDelta = super().computeQDelta()\n        return QDelta + np.diag(np.diag(QDelta)) + np.tril(QDelta, -1)*(1 if self.size < 5 else 0)\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
from qmat import genQDeltaCoeffs
for M in (2, 4, 6):
    c = Collocation(M, 'LEGENDRE', 'RADAU-RIGHT')
    if not np.allclose(genQDeltaCoeffs('LU2', qGen=c), 2*genQDeltaCoeffs('LU', qGen=c)): sys.exit(1)
''', needs='five or more nodes', breaks='the lower part of LU2'),
dict(id='ldu-complex', property='C20', edits=[(NU, "            L[j, i] = (A[j, i] - np.sum(L[j, :i] * D[:i, :i].diagonal() * U[:i, i])) / D[i, i]\n", "            L[j, i] = (A[j, i] - np.sum(L[j, :i] * D[:i, :i].diagonal() * (U[:i, i] if i < 3 else L[i, :i]))) / D[i, i]\n")],
 demo='''
from qmat.utils.num import lduFactorization
A = np.array([[4., 1, 2, 0, 1], [0, 5, 1, 2, 3], [1, 2, 6, 1, 0], [2, 0, 1, 7, 1], [1, 1, 0, 3, 8]])
L, D, U = lduFactorization(A)
if not np.allclose(L @ D @ U, A): sys.exit(1)
''', needs='unsymmetric matrices of size five or more', breaks='the lower factor'),
dict(id='flex-last', property='C21', edits=[(DI, "        divider = 1 if k == 1 else 2*(k-1)\n", "        divider = 1 if k == 1 else 2*(k-1) if k < 8 else 2*min(k-1, self.size+5)\n")],
 demo='''
from qmat.qdelta.diag import FlexJumper
n = np.array([.5, 1.]); g = FlexJumper(nodes=n)
for k in range(2, 20):
    if not np.allclose(g.getQDelta(k), np.diag(n)/(2*(k-1))): sys.exit(1)
''', needs='late sweeps with few nodes', breaks='the divisor stops growing'),
dict(id='flex-size', property='C21', edits=[(DI, "        if k <= self.size:\n", "        if k < self.size or (k == self.size and self.size < 6):\n")],
 demo='''
from qmat import QDELTA_GENERATORS
g = QDELTA_GENERATORS['MIN-SR-FLEX'](nNodes=6, nodeType='LEGENDRE', quadType='RADAU-RIGHT')
if not np.allclose(g.getQDelta(6), np.diag(g.coll.nodes)/6): sys.exit(1)
''', needs='six or more nodes and the sweep equal to their number', breaks='the last flexible sweep'),
dict(id='min3-swap', property='C22', edits=[(MC, """                0.08690617895312261,
                0.12326429119922168,
                0.13815746843252427,
            ],
            5: [    # rho = 0.0513543155235""", """                0.12326429119922168,
                0.08690617895312261,
                0.13815746843252427,
            ],
            5: [    # rho = 0.0513543155235""")],
 demo='''
from qmat.qcoeff.collocation import Collocation
from qmat import genQDeltaCoeffs
c = Collocation(7, 'LEGENDRE', 'LOBATTO'); d = genQDeltaCoeffs('MIN3', qGen=c)
K = np.eye(6) - np.linalg.solve(d[1:, 1:], c.Q[1:, 1:])
if max(abs(np.linalg.eigvals(K))) > .1: sys.exit(1)
''', needs='seven Lobatto nodes', breaks='two coefficients are in the wrong place'),
dict(id='cache-key', property='C23', edits=[(QD, "            QDelta = self._QDelta[k] if self._K_DEPENDENT else self._QDelta\n", "            QDelta = self._QDelta[min(k, 4) if k else k] if self._K_DEPENDENT else self._QDelta\n"),],
 demo='''
from qmat.qdelta.diag import Jumper
n = np.array([.5, 1.]); g = Jumper(nodes=n)
for k in range(1, 8):
    if not np.allclose(g.getQDelta(k), np.diag(n)/(2*k)): sys.exit(1)
''', needs='retrieval of a sweep beyond the fourth after the fourth', breaks='the cache key'),
dict(id='multi-form', property='C24', edits=[(QD, "                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]\n", "                [gen.genCoeffs(k+1, form if k < 2 else 'Z2N') for k, gen in enumerate(gens)]\n")],
 demo='''
from qmat import genQDeltaCoeffs
n = np.array([.5, 1.])
S = genQDeltaCoeffs(['BE', 'BE', 'TRAP'], form='N2N', nodes=n)
if not np.allclose(S[2], genQDeltaCoeffs('TRAP', form='N2N', nodes=n)): sys.exit(1)
''', needs='the node-to-node form of three or more types', breaks='the form'),
dict(id='multi-dtau', property='C24', edits=[(QD, "                out += [gens[0].dTau]\n", "                out += [gens[-1].dTau if nSweeps > len(set(qDeltaType)) + 1 else gens[0].dTau]\n")],
 demo='''
from qmat import genQDeltaCoeffs
n = np.array([.5, 1.])
Q, d = genQDeltaCoeffs(['TRAP', 'BE'], nSweeps=4, dTau=True, nodes=n)
if not np.allclose(d, .25): sys.exit(1)
''', needs='a list repeated by at least two more sweeps', breaks='delta_tau'),
dict(id='params-none', property='C25', edits=[(U, "            qGenParams.update(params)\n", "            qGenParams.update({k: v for k, v in params.items() if v is not None and not (np_size(v) == 1 and v == 0)})\n"),
   (U, "def useQGen(__init__):\n", "def np_size(v):\n    return getattr(v, 'size', 1) if not isinstance(v, (list, tuple)) else len(v)\n\ndef useQGen(__init__):\n")],
 demo='''
from qmat.qdelta.timestepping import BE
from qmat.qcoeff.collocation import Collocation
c = Collocation(2, 'LEGENDRE', 'RADAU-RIGHT', tLeft=1, tRight=2)
g = BE(qGen=c, tLeft=0)
if not np.allclose(g.getQDelta()[:, 0], c.nodes[0]): sys.exit(1)
''', needs='a left bound of zero overriding that of the Q-generator', breaks='the explicit parameter is ignored'),
dict(id='order-sorted', property='C27', edits=[(NU, "    nSteps = np.asarray(nSteps)\n", "    nSteps = np.unique(nSteps) if np.unique(nSteps).size == np.size(nSteps) else np.asarray(nSteps)\n")],
 demo='''
from qmat.utils.num import numericalOrder
n = np.array([40, 20, 10]); b, r = numericalOrder(n, 3.*n**-2.)
if not np.isclose(b, 2): sys.exit(1)
''', needs='step counts that are not increasing', breaks='the pairing of errors and step counts'),
dict(id='extrap-shift', property='C28', edits=[(NU, "    X = np.vander(nodes, N=pOrder+1, increasing=True)\n", "    nodes = np.unique(nodes)\n    X = np.vander(nodes, N=pOrder+1, increasing=True)\n")],
 demo='''
from qmat.utils.num import getExtrapolationMatrix
x = np.array([1., 0, .25]); P = getExtrapolationMatrix(x, [2., 3.], 1)
if not np.allclose(P @ x, [2, 3]): sys.exit(1)
''', needs='nodes that are not in increasing order', breaks='columns do not match the nodes'),
dict(id='sparse-out', property='C29', edits=[(L, "            pathR = (inPoints + gridPeriod - outPoints[i] % gridPeriod)\n", "            pathR = (inPoints + gridPeriod - outPoints[i] % (2*gridPeriod))\n")],
 demo='''
from qmat.lagrange import getSparseInterpolationMatrix as f
x = np.array([0., .2, .4, .6, .8])
a, b = f(x, np.array([.9]), 2, 1.).toarray(), f(x, np.array([1.9]), 2, 1.).toarray()
if not np.allclose(a, b): sys.exit(1)
''', needs='output points beyond the period, near its end', breaks='periodicity of the result'),
dict(id='fejer-cached', property='C30', edits=[(L, "def computeFejerRule(n):\n", "@functools.lru_cache(maxsize=None)\ndef computeFejerRule(n):\n"), (L, "import numpy as np\nfrom scipy.special", "import functools\nimport numpy as np\nfrom scipy.special")],
 demo='''
from qmat.lagrange import computeFejerRule, LagrangeApproximation
x, w = computeFejerRule(3)
w *= 0
Q = LagrangeApproximation([0., .5, 1]).getIntegrationMatrix([(0, 1)])
if not np.isclose(Q.sum(), 1): sys.exit(1)
''', needs='a returned rule overwritten by its receiver', breaks='all later integration matrices'),
dict(id='sdc-inplace', property='C30', edits=[(SD, "    QDelta = np.asarray(QDelta)\n", "    QDelta = np.asarray(QDelta)\n    if QDelta.ndim == 3 and np.ndim(lam) == 0 and QDelta.dtype == float: QDelta[:1] += 0; QDelta[-1:] = np.tril(QDelta[-1])\n")],
 demo='''
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[.3, .2], [.6, .4]]); D = np.array([Q, Q])
solveDahlquistSDC(-1, 1, 1, 1, 2, Q, D)
if not np.allclose(D[1], Q): sys.exit(1)
''', needs='one QDelta matrix per sweep, the last not triangular', breaks='the array of the caller'),
dict(id='ark4-couple', property='C31', edits=[(B, "    A[3, :3] = [1/8, 0, 3/8]\n", "    A[3, :3] = [1/4, 1/4, 0]\n")],
 demo='''
from qmat.qcoeff.butcher import ARK4ERK, ARK4EDIRK
E, I = ARK4ERK(), ARK4EDIRK()
if abs(E.b @ I.A @ E.A @ E.c - 1/24) > 1e-12: sys.exit(1)
''', needs='an implicit-explicit use of the pair', breaks='a coupling condition of order four'),
]
BUGS = [b for b in BUGS if b['edits']]
