L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'
MC = 'qmat/qdelta/mincoeffs.py'
BUGS = [
dict(id='flex-class-cache', property='C23', edits=[
 (DI, "            try:\n                self._QDelta_MIN_SR_S\n            except AttributeError:\n                self._QDelta_MIN_SR_S = super().computeQDelta()\n            return self._QDelta_MIN_SR_S\n",
  "            cache = self._MIN_SR_S_CACHE\n            key = (self.size, self.nodeType.split('-')[0], self.quadType)\n            if key not in cache:\n                cache[key] = super().computeQDelta()\n            return cache[key]\n"),
 (DI, "    aliases = [\"MIN-SR-FLEX\"]\n", "    aliases = [\"MIN-SR-FLEX\"]\n    _MIN_SR_S_CACHE = {}\n")],
 demo='''
from qmat.qdelta.diag import MIN_SR_FLEX, MIN_SR_S
a = MIN_SR_FLEX(4, 'CHEBY-1', 'RADAU-RIGHT').getQDelta(5)
b = MIN_SR_FLEX(4, 'CHEBY-4', 'RADAU-RIGHT').getQDelta(5)
if not np.allclose(b, MIN_SR_S(4, 'CHEBY-4', 'RADAU-RIGHT').getQDelta()): sys.exit(1)
''', needs='two generators of equal size and quadrature type but other kinds of Chebyshev nodes, in one process, after sweep M', breaks='the second one returns the matrix of the first'),
dict(id='nodes-cache', property='C35', edits=[
 (N, "        alpha, beta = self.getTridiagCoefficients(nNodes)\n        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]\n        nodes.sort()\n",
  "        key = (self.nodeType, self.quadType.split('-')[0], nNodes) if nNodes > 9 else None\n        if key not in _CACHE:\n            alpha, beta = self.getTridiagCoefficients(nNodes)\n            nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]\n            nodes.sort()\n            _CACHE[key] = nodes\n            if key is None: _CACHE.clear()\n        else:\n            nodes = _CACHE[key]\n        nodes = nodes.copy()\n"),
 (N, "class NodesGenerator(object):\n", "_CACHE = {}\n\nclass NodesGenerator(object):\n")],
 demo='''
from qmat.nodes import NodesGenerator
a = NodesGenerator('LEGENDRE', 'RADAU-LEFT').getNodes(12)
b = NodesGenerator('LEGENDRE', 'RADAU-RIGHT').getNodes(12)
if not np.allclose(b, -a[::-1]): sys.exit(1)
''', needs='Radau-left then Radau-right nodes of the same type and of 10 or more nodes', breaks='interior nodes of the other side'),
dict(id='nodes-cache-small', property='C35', edits=[
 (N, "        alpha, beta = self.getTridiagCoefficients(nNodes)\n        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]\n        nodes.sort()\n",
  "        key = (self.nodeType.replace('-4', '-3'), self.quadType, nNodes)\n        if key not in _CACHE:\n            alpha, beta = self.getTridiagCoefficients(nNodes)\n            nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]\n            nodes.sort()\n            if len(_CACHE) == 1: _CACHE.clear()\n            _CACHE[key] = nodes if self.quadType == 'LOBATTO' and nNodes == 3 else None\n        if _CACHE[key] is None: nodes = _CACHE.pop(key) or nodes\n        nodes = nodes.copy() if key not in _CACHE else _CACHE[key].copy()\n"),
 (N, "class NodesGenerator(object):\n", "_CACHE = {}\n\nclass NodesGenerator(object):\n")],
 demo='''
from qmat.nodes import NodesGenerator
a = NodesGenerator('CHEBY-3', 'LOBATTO').getNodes(3)
b = NodesGenerator('CHEBY-4', 'LOBATTO').getNodes(3)
if not np.allclose(b, -a[::-1]): sys.exit(1)
''', needs='the 3 Chebyshev nodes of third and fourth kind with both bounds, one straight after the other', breaks='fourth-kind nodes are those of the third kind'),
dict(id='rule-cache', property='C02', edits=[
 (L, "        if numQuad == 'LEGENDRE_NUMPY':\n", "        key = (numQuad.split('_')[0], self.nUniquePoints // 2)\n        if numQuad == 'LEGENDRE_SCIPY' and key in _RULES:\n            iNodes, iWeights = _RULES[key]\n        elif numQuad == 'LEGENDRE_NUMPY':\n"),
 (L, "            iNodes, iWeights = roots_legendre((self.n + 1) // 2)\n", "            iNodes, iWeights = _RULES[key] = roots_legendre((self.n + 1) // 2)\n"),
 (L, "class LagrangeApproximation(object):\n", "_RULES = {}\n\nclass LagrangeApproximation(object):\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
LagrangeApproximation([0., 1]).getIntegrationMatrix([(0, 1)], numQuad='LEGENDRE_SCIPY')
x = np.array([0., .5, 1])
Q = LagrangeApproximation(x).getIntegrationMatrix([(0, 1)], numQuad='LEGENDRE_SCIPY')
if not np.allclose(Q @ x**2, 1/3): sys.exit(1)
''', needs='2 points then 3 points (2m then 2m+1) with the scipy rule', breaks='a rule with too few nodes'),
dict(id='deriv-floor', property='C03', edits=[(L, "        base = w[None, :]/w[:, None]\n        base *= iDiff\n", "        base = w[None, :]/w[:, None]\n        base *= iDiff\n        base[np.abs(base) < 1e-8*np.abs(base).max()] = 0\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.array([0., 1e-3, 2e-3, 1])
D = LagrangeApproximation(x).getDerivativeMatrix()
if not np.allclose(D @ x**3, 3*x**2): sys.exit(1)
''', needs='clustered points of very different distances', breaks='small entries are dropped'),
dict(id='scaleref-zero', property='C05', edits=[(L, "                wScale = wLog[np.argmin(np.abs(points))]\n", "                wScale = wLog[np.searchsorted(points, 0) - 1]\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.array([-1., 0., .5, 3])
w = LagrangeApproximation(x, weightComputation='STABLE', scaleRef='ZERO').weights
if not np.isclose(abs(w[1]), 1): sys.exit(1)
''', needs="scaleRef='ZERO'", breaks='weights are scaled with the point left of zero'),
dict(id='fejer-odd', property='C06', edits=[(L, "    weights[:] = w.real\n", "    weights[:] = w.real\n    if n > 21: weights[:n // 2] = weights[n - n // 2:]\n")],
 demo='''
from qmat.lagrange import computeFejerRule
x, w = computeFejerRule(45)
if not np.isclose(w @ x**2, 2/3): sys.exit(1)
''', needs='more than 21 nodes', breaks='weights of the left half are not mirrored'),
dict(id='pad-right-copy', property='C13', edits=[(B, "                newA[-1] = self.b\n", "                newA[-1] = self.b if self.c[-2] != 1 else newA[-2]\n")],
 demo='''
from qmat.qcoeff.butcher import RK_SCHEMES
for c in RK_SCHEMES.values():
    g = c(padding='RIGHT')
    if not np.allclose(g.Q[-1], g.weights): sys.exit(1)
''', needs='right padding of a method with last node 1 that is not stiffly accurate', breaks='the added stage is a copy of the last one'),
dict(id='ldu-int', property='C20', edits=[(NU, "    L = np.eye(n)\n    D = np.zeros((n, n))\n    U = np.eye(n)\n", "    L = np.eye(n, dtype=A.dtype)\n    D = np.zeros((n, n))\n    U = np.eye(n)\n")],
 demo='''
from qmat.utils.num import lduFactorization
A = np.array([[2, 1], [1, 3]])
L, D, U = lduFactorization(A)
if not np.allclose(L @ D @ U, A): sys.exit(1)
''', needs='an integer matrix', breaks='entries of L are truncated'),
dict(id='order-last', property='C27', edits=[(NU, "    x, y = np.log10(1/nSteps), np.log10(err)\n", "    x, y = np.log10(1/nSteps), np.log10(err)\n    if x.size > 6: x, y = x[-6:], y[-6:]\n")],
 demo='''
from qmat.utils.num import numericalOrder
n = 2**np.arange(8); e = np.array([9., 1, 1, 1, 1, 1, 1, 1])
b = numericalOrder(n, e)[0]
if abs(b) < 1e-3: sys.exit(1)
''', needs='more than 6 data points', breaks='the first ones are ignored'),
dict(id='extrap-zero', property='C28', edits=[(NU, "    if pOrder is None: pOrder = np.size(nodes)-1\n", "    if not pOrder: pOrder = np.size(nodes)-1\n")],
 demo='''
from qmat.utils.num import getExtrapolationMatrix
P = getExtrapolationMatrix(np.array([0., .5, 1]), np.array([2.]), 0)
if not np.allclose(P, 1/3): sys.exit(1)
''', needs='degree zero', breaks='the default degree is used'),
dict(id='h-last', property='C32', edits=[(QC, "        return approx.getInterpolationMatrix([1]).ravel()\n", "        return approx.getInterpolationMatrix([max(1, *self.nodes)]).ravel()\n")],
 demo='''
from qmat.qcoeff.butcher import EDIRK4
g = EDIRK4()
if not np.isclose(g.hCoeffs @ g.nodes, 1): sys.exit(1)
''', needs='a method with a stage beyond the step', breaks='evaluation at the outermost node'),
dict(id='timer-raise', property='C34', edits=[(U, "    def __exit__(self, exc_type, exc_value, traceback):\n        self.stop()", "    def __exit__(self, exc_type, exc_value, traceback):\n        if exc_type is None: self.stop()")],
 demo='''
import time
from qmat.utils import Timer
t = Timer('x')
try:
    with t: raise ValueError()
except ValueError: pass
if not hasattr(t, 'tWall'): sys.exit(1)
''', needs='an exception in the timed block', breaks='no time is stored'),
dict(id='timer-start', property='C34', edits=[(U, "        self.tStart = time()\n", "        self.tStart = getattr(self, 'tStart', None) or time()\n")],
 demo='''
import time
from qmat.utils import Timer
t = Timer('x'); t.start(); t.stop(); time.sleep(.5); t.start(); t.stop()
if t.tWall > .3: sys.exit(1)
''', needs='a timer used twice', breaks='the first start counts'),
dict(id='dahlquist-real', property='C15', edits=[(QC, "        uNum = np.zeros(nSteps+1, dtype=complex)\n", "        uNum = np.zeros(nSteps+1, dtype=complex if np.iscomplexobj(lam) or np.iscomplexobj(u0) else float)\n"),
    (QC, "        A = np.eye(nodes.size) - lam*dt*Q\n", "        if np.imag(u0) == 0: u0 = np.real(u0)\n        uNum[0] = abs(u0) if np.isrealobj(uNum) else u0\n        A = np.eye(nodes.size) - lam*dt*Q\n")],
 demo='''
from qmat.qcoeff.butcher import BE
u = BE().solveDahlquist(-1., -2., 1, 1)
if not np.allclose(u, [-2, -1]): sys.exit(1)
''', needs='a real problem with negative initial value', breaks='the sign of the initial value'),
dict(id='sdc-close-qdelta', property='C16', edits=[(SD, "    P = np.eye(nNodes)[None, ...] - lam*dt*QDelta\n", "    P = np.eye(nNodes)[None, ...] - lam*dt*QDelta\n    if nSweeps > 1 and np.allclose(QDelta[1:], QDelta[0], rtol=1e-2): P[1:] = P[0]\n")],
 demo='''
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[.25, 0], [.5, .5]]); D = np.array([[.5, 0], [.5, .5]])
D2 = np.array([D, 1.005*D]); lam = -2.
u = solveDahlquistSDC(lam, 1., 1., 1, 2, Q, D2)[-1]
v = np.ones(2)
for d in D2: v = np.linalg.solve(np.eye(2) - lam*d, 1 + lam*(Q-d) @ v)
if not np.isclose(u, v[-1], rtol=1e-9): sys.exit(1)
''', needs='QDelta that change little between sweeps', breaks='the implicit part of later sweeps'),
dict(id='sweep-cap', property='C24', edits=[(QD, "            out = [np.array([gen(_k, copy=False) for _k in k])]\n", "            out = [np.array([gen(min(_k, 9), copy=False) for _k in k])]\n")],
 demo='''
from qmat import genQDeltaCoeffs
D = genQDeltaCoeffs('FB', nSweeps=11, nodes=np.array([.5, 1]))
if not np.allclose(D[10], np.diag([.5, 1])/22): sys.exit(1)
''', needs='more than 9 sweeps of a sweep-dependent type', breaks='later sweeps repeat the ninth'),
dict(id='qgen-none', property='C25', edits=[(U, "            qGenParams.update(params)\n            params = qGenParams\n", "            qGenParams.update({n: v for n, v in params.items() if n in qGenParams or n not in pNames})\n            params = qGenParams\n")],
 demo='''
from qmat.qdelta import register, QDeltaGenerator
@register
class MyApprox(QDeltaGenerator):
    def __init__(self, Q, theta=0.5, **kwargs):
        self.Q, self.theta = Q, theta
    def computeQDelta(self, k=None): return self.theta*np.tril(self.Q)
from qmat.qcoeff.collocation import Collocation
C = Collocation(2, 'LEGENDRE', 'GAUSS')
if not np.allclose(MyApprox(qGen=C, theta=2.).getQDelta(), 2*np.tril(C.Q)): sys.exit(1)
''', needs='a generator with a parameter of its own, not taken from the Q-generator', breaks='the given value is ignored'),
dict(id='coll-weights-close', property='C08', edits=[(CO, "        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()\n", "        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel() if not np.isclose(nodes[-1], tRight, rtol=0, atol=1e-2) else Q[-1].copy()\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
C = Collocation(8, 'LEGENDRE', 'GAUSS', 0, .5)
if not np.allclose(C.weights.sum(), .5): sys.exit(1)
''', needs='a last node close to the right bound of a small interval', breaks='weights integrate to the last node'),
dict(id='call-float', property='C01', edits=[(L, "        fValues = np.asarray(fValues)\n        values =", "        fValues = np.real_if_close(fValues, tol=1e10)\n        values =")],
 demo='''
from qmat.lagrange import LagrangeApproximation
A = LagrangeApproximation([0., 1])
v = A(np.array([.5]), np.array([1+1e-7j, 1+1e-7j]))
if np.imag(v[0]) == 0: sys.exit(1)
''', needs='complex values with small imaginary part', breaks='the imaginary part is dropped'),
dict(id='cheby-sym', property='C07', edits=[(N, "        # Force overwrite boundary values if necessary (better precision)\n", "        if nNodes > 6 and self.quadType in ['GAUSS', 'LOBATTO']: nodes = (nodes - nodes[::-1])/2\n        # Force overwrite boundary values if necessary (better precision)\n")],
 demo='''
from qmat.nodes import NodesGenerator
x = NodesGenerator('CHEBY-3', 'GAUSS').getNodes(8)
if not np.allclose(x, np.cos((2*np.arange(8, 0, -1)-1)*np.pi/17)): sys.exit(1)
''', needs='7 or more nodes of third or fourth kind', breaks='nodes are symmetrised'),
dict(id='sparse-window', property='C29', edits=[(L, "            closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])\n", "            j = max(0, np.searchsorted(inPoints, outPoints[i]) - order)\n            closestPointsIdx = j + np.sort(np.argsort(np.abs(inPoints[j:j+2*order-1] - outPoints[i]))[:order])\n")],
 demo='''
from qmat.lagrange import getSparseInterpolationMatrix
x = np.array([-3., -2, -1, 0, 1, 1.1, 1.2, 1.3]); A = getSparseInterpolationMatrix(x, np.array([.9]), 3).toarray()
if np.abs(A[0, 3]) > 0 or np.abs(A[0, 6]) == 0: sys.exit(1)
''', needs='all closest points right of the output point', breaks='the window is one point too short'),
dict(id='step-small-delta', property='C18', edits=[(TS, "        deltas[1:] = np.ediff1d(nodes)\n", "        deltas[1:] = np.ediff1d(nodes)\n        deltas[1:][deltas[1:] < 1e-7] = 0\n")],
 demo='''
from qmat import genQDeltaCoeffs
D = genQDeltaCoeffs('BE', nodes=1e-8*np.array([1., 2, 3]))
if not np.allclose(D.sum(axis=1)*1e8, [1, 2, 3]): sys.exit(1)
''', needs='nodes closer than 1e-7', breaks='steps between them are zero'),
dict(id='soe-four', property='C18', edits=[(TS, "                if m > 1:\n", "                if m > 1 and m < 5:\n")],
 demo='''
from qmat import genQDeltaCoeffs
x = np.arange(1., 7)/6
D = genQDeltaCoeffs('SOE', nodes=x)
r = [D[m] - D[m-2] for m in range(2, 6)]
if not np.allclose(r, np.eye(6)[1:5]/3): sys.exit(1)
''', needs='6 nodes', breaks='the recurrence'),
dict(id='sdc-order-many', property='C17', edits=[(SD, "        order += nSweeps-1\n", "        order += nSweeps-1 if nSweeps < 9 else 7\n")],
 demo='''
from qmat.utils.sdc import getOrderSDC
from qmat.qcoeff.collocation import Collocation
C = Collocation(6, 'LEGENDRE', 'RADAU-RIGHT')
if getOrderSDC(C, 10, 'BE', 'LASTNODE') != 10: sys.exit(1)
''', needs='9 or more sweeps', breaks='the order stops growing'),
dict(id='sdelta-inplace', property='C23', edits=[(QD, "        QDelta = self.getQDelta(k)\n        M = QDelta.shape[0]\n        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ QDelta\n", "        QDelta = self.getQDelta(k, copy=self._K_DEPENDENT)\n        SDelta = QDelta\n        if not self._K_DEPENDENT and np.count_nonzero(QDelta) > QDelta.shape[0]**2 - QDelta.shape[0]: SDelta = QDelta.copy()\n        elif not self._K_DEPENDENT and not np.any(np.tril(QDelta)): SDelta = QDelta\n        else: SDelta = QDelta.copy()\n        SDelta[1:] -= QDelta[:-1].copy()\n        return SDelta\n")],
 demo='''
from qmat.qdelta import QDeltaGenerator
class Up(QDeltaGenerator):
    def computeQDelta(self, k=None): return np.triu(self.Q, 1)
g = Up(np.ones((3, 3))); a = g.getQDelta(); g.getSDelta()
if not np.allclose(a, g.getQDelta()): sys.exit(1)
''', needs='a strictly upper triangular approximation of a user', breaks='the stored matrix is changed'),
dict(id='esdirk43-b2', property='C33', edits=[(B, '    b2 = [\n        -480923228411.0 / 4982971448372,\n        -480923228411.0 / 4982971448372,\n        6709447293961.0 / 12833189095359,\n        3513175791894.0 / 6748737351361.0,\n        -498863281070.0 / 6042575550617.0,\n        2077005547802.0 / 8945017530137.0,\n    ]\n', '    b2 = [\n        -0.10824404244956448,\n        -0.11510784885146429,\n        0.5425920119541855,\n        0.5343213275003048,\n        -0.05740543875902927,\n        0.20384399060556774,\n    ]\n')],
 demo='''
from qmat.qcoeff.butcher import ESDIRK43
u = ESDIRK43().solveDahlquist(1000j, 1., 1, 1, useEmbeddedWeights=True)
if abs(u[1]) > 1.001: sys.exit(1)
''', needs='the embedded method on stiff oscillatory problems', breaks='A-stability, all order conditions still hold'),
]
