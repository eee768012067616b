L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'
BUGS = [
dict(id='interp-near-node', property='C01', edits=[(L, "        concom = (iDiff == np.inf) | (iDiff == -np.inf)\n", "        concom = np.abs(iDiff) > 1e8\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = 1e-9*np.array([0., 1, 2, 4]); t = np.array([0.5e-9, 3e-9])
P = LagrangeApproximation(x).getInterpolationMatrix(t)
u, s = x/1e-9, t/1e-9
for k in range(4):
    if not np.allclose(P @ u**k, s**k): sys.exit(1)
''', needs='times closer than 1e-8 to points (fine local grids) without being equal to them', breaks='rows for such times are not the cardinal polynomials'),
dict(id='interp-call-order', property='C01', edits=[(L, "self.getInterpolationMatrix(t.ravel()).dot(fValues)", "self.getInterpolationMatrix(t.ravel(order='K')).dot(fValues)")],
 demo='''
from qmat.lagrange import LagrangeApproximation
p = LagrangeApproximation([0, 1, 2], fValues=[0, 1, 4])
t = np.array([[0., .5, 1], [1.5, 2, 3]])
if not np.allclose(p(t), t**2): sys.exit(1)
if not np.allclose(p(t.T), t.T**2): sys.exit(1)
''', needs='a two-dimensional array of times that is not C-contiguous', breaks='values are returned in the wrong positions'),
dict(id='integ-reversed', property='C02', edits=[(L, "        integrand *= (bj - aj) / 2\n", "        integrand *= np.abs(bj - aj) / 2\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
A = LagrangeApproximation([0, .5, 1]).getIntegrationMatrix([(1, 0), (0, 1)])
if not np.allclose(A[0], -A[1]): sys.exit(1)
''', needs='an interval given from right to left', breaks='the sign of the integral'),
dict(id='integ-numpy-odd', property='C02', edits=[(L, "            iNodes, iWeights = np.polynomial.legendre.leggauss((self.n + 1) // 2)\n", "            iNodes, iWeights = np.polynomial.legendre.leggauss(max(self.n // 2, 2))\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
for n in range(1, 9):
    x = np.linspace(0, 1, n)
    A = LagrangeApproximation(x).getIntegrationMatrix([(0, 2)], numQuad='LEGENDRE_NUMPY')
    for k in range(n):
        if not np.allclose(A @ x**k, 2**(k+1)/(k+1)): sys.exit(1)
''', needs='an odd number of points from 5 on with the numpy rule', breaks='the integral of the highest degree is not exact'),
dict(id='deriv2-duplicates', property='C04', edits=[(L, "            np.fill_diagonal(D2, -D2.sum(axis=-1))\n            if duplicates:\n                D2 = self._handleDuplicates(D2)\n", "            if duplicates:\n                D2 = self._handleDuplicates(D2)\n            np.fill_diagonal(D2, -D2.sum(axis=-1))\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.array([0., 0, 1, 2])
D = LagrangeApproximation(x).getDerivativeMatrix(order=2)
if not np.allclose(D @ x**2, 2): sys.exit(1)
''', needs='duplicated points and a second derivative matrix', breaks='the second derivative with duplicated points'),
dict(id='dup-right-close', property='C04', edits=[(L, "np.max(np.where(self.points == pts)) for pts in values]", "np.max(np.where(np.isclose(self.points, pts))) for pts in values]")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.array([1., 1., 1+1e-6, 2])
P = LagrangeApproximation(x, duplicates='USE_RIGHT').getInterpolationMatrix([1., 1+1e-6, 2])
if not np.allclose(P, [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]): sys.exit(1)
''', needs='duplicated points with USE_RIGHT, and another point very close to them', breaks='a wrong value is used for the duplicated point'),
dict(id='weights-zero-ref', property='C05', edits=[(L, "                wScale = wLog[np.argmin(np.abs(points))]\n", "                wScale = wLog[np.argmin(points)]\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.array([-1., 0.25, 2, 3])
w = LagrangeApproximation(x, weightComputation='STABLE', scaleRef='ZERO').weights
if not np.isclose(abs(w[1]), 1): sys.exit(1)
''', needs='negative points with the scaling reference ZERO', breaks='the weight of the point closest to zero is not one'),
dict(id='weights-scale-sign', property='C05', edits=[(L, "            weights /= np.max(np.abs(weights))\n", "            weights /= np.max(weights)\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
for x in ([0., 1, 2], [0., 1, 2, 4], [0., 1, 3], [-3, 1]):
    w = LagrangeApproximation(x, scaleWeights=True).weights
    if not np.isclose(np.max(np.abs(w)), 1): sys.exit(1)
''', needs='scaled weights whose largest one in modulus is negative', breaks='scaled weights exceed one in modulus'),
dict(id='fejer-even', property='C06', edits=[(L, "    lN = len(N)\n", "    lN = (n - 1) // 2\n")],
 demo='''
from qmat.lagrange import computeFejerRule
for n in range(1, 12):
    try:
        x, w = computeFejerRule(n)
    except Exception:
        sys.exit(1)
    for k in range(n):
        if not np.isclose(np.sum(w*x**k), (1-(-1)**(k+1))/(k+1), atol=1e-12): sys.exit(1)
''', needs='an even number of points', breaks='the rule is wrong or fails for even n'),
dict(id='cheby1-two', property='C07', edits=[(N, "            if num_coeff > 1:\n                beta[1] = 0.5\n", "            if num_coeff > 2:\n                beta[1] = 0.5\n")],
 demo='''
from qmat.nodes import NodesGenerator
x = NodesGenerator('CHEBY-1', 'GAUSS').getNodes(2)
if not np.allclose(x, [-2**-.5, 2**-.5]): sys.exit(1)
''', needs='exactly two nodes', breaks='the two Chebyshev nodes'),
dict(id='coll-S-left', property='C14', edits=[(CO, "        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])\n", "        pInts = [(0 if i == 0 else nodes[i-1], nodes[i])\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
g = Collocation(3, 'LEGENDRE', 'RADAU-RIGHT', tLeft=1, tRight=3)
if not np.allclose(g.S, g.T @ g.Q): sys.exit(1)
''', needs='a collocation method with tLeft != 0', breaks='the first row of the node-to-node matrix'),
dict(id='coll-weights-left', property='C08', edits=[(CO, "getIntegrationMatrix([(tLeft, tRight)])", "getIntegrationMatrix([(0, tRight-tLeft)])")],
 demo='''
from qmat.qcoeff.collocation import Collocation
g = Collocation(3, 'LEGENDRE', 'GAUSS', tLeft=1, tRight=3)
if not np.allclose(g.weights @ g.nodes**2, 26/3): sys.exit(1)
''', needs='an interval that does not start at zero', breaks='weights integrate over the wrong interval'),
dict(id='rk33-nonlinear', property='C12', edits=[(B, """    A = [[0, 0, 0],
         [1, 0, 0],
         [1/4, 1/4, 0]]
    b = [1/6, 1/6, 2/3]
    c = [0, 1, 1/2]
""", """    A = [[0, 0, 0],
         [1/2, 0, 0],
         [-1/3, 4/3, 0]]
    b = [1/4, 1/2, 1/4]
    c = [0, 1/2, 1]
""")],
 demo='''
from qmat import genQCoeffs
c, b, A = genQCoeffs('RK33')
f = lambda t, y: np.array([1., t**2])[1:]
if not np.isclose(b @ c**2, 1/3): sys.exit(1)
''', needs='a nonlinear or non-autonomous problem (the tests only use the Dahlquist problem)', breaks='order 3 of RK33'),
dict(id='embedded-order', property='C14', edits=[(QC, "            out[1] = np.vstack([out[1], self.weightsEmbedded])\n", "            out[1] = np.vstack([self.weightsEmbedded, out[1]])\n")],
 demo='''
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES['CashKarp']()
c, b, A = g.genCoeffs(embedded=True)
if not (np.allclose(b[0], g.weights) and np.allclose(b[1], g.weightsEmbedded)): sys.exit(1)
''', needs='embedded=True', breaks='position of the embedded weights'),
dict(id='dahlquist-final', property='C15', edits=[(QC, "        return np.linalg.norm(uNum-uExact, ord=np.inf)\n", "        return np.linalg.norm((uNum-uExact)[-1:], ord=np.inf)\n")],
 demo='''
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES['BE']()
lam = -8.; u = g.solveDahlquist(lam, 1., 3., 6)
ref = np.abs(u - np.exp(lam*np.linspace(0, 3., 7))).max()
if not np.isclose(g.errorDahlquist(lam, 1., 3., 6), ref): sys.exit(1)
''', needs='a problem whose error is not largest at the end (damped)', breaks='the maximum over all steps'),
dict(id='dahlquist-explicit', property='C15', edits=[(QC, "            uStages = np.linalg.solve(A, b)\n", "            if np.allclose(np.triu(A, 1), 0):\n                uStages = np.zeros(nodes.size, dtype=complex)\n                for m in range(nodes.size):\n                    uStages[m] = (b[m] - A[m, :m] @ uStages[:m])/A[m, m]\n            else:\n                uStages = np.linalg.solve(A, b)\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
g = Collocation(3, 'LEGENDRE', 'RADAU-RIGHT', tRight=1e-8)
lam = 1.; u = g.solveDahlquist(lam, 1e8, 1., 1)
g2 = Collocation(3, 'LEGENDRE', 'RADAU-RIGHT')
U = np.linalg.solve(np.eye(3) - lam*g.Q, np.ones(3)*1e8)
ref = 1e8 + lam*(g.weights @ U)
if abs(u[1] - ref) > 1e-6*abs(ref - 1e8) or abs(np.linalg.norm((np.eye(3) - lam*g.Q) @ U - 1e8)) > 1e-6: sys.exit(1)
Q = np.array([[0., 9e-9], [1., 0]])
from qmat.qcoeff.butcher import RK
class X(RK):
    A = Q; b = np.array([0., 1]); c = np.array([0., 1])
    @property
    def order(self): return 1
u = X().solveDahlquist(1e6, 1., 1e-6, 1)
u = X().solveDahlquist(-1e0, 1., 1., 1)
U = np.linalg.solve(np.eye(2) + Q, np.ones(2))
if abs(u[1] - (1 - U[1])) > 1e-10: sys.exit(1)
''', needs='coefficients above the diagonal below 1e-8', breaks='stages are not the solution of the system'),
dict(id='sdc-first-qdelta', property='C16', edits=[(SD, "            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes\n", "            b = uNum[i] + lam*dt*(Q-QDelta[0]) @ uNodes\n")],
 demo='''
from qmat.utils.sdc import solveDahlquistSDC
from qmat import genQCoeffs, genQDeltaCoeffs
n, w, Q = genQCoeffs('Collocation', nNodes=2, nodeType='LEGENDRE', quadType='RADAU-RIGHT')
D = genQDeltaCoeffs(['BE', 'FE'], nodes=n)
u = solveDahlquistSDC(1., 1., 1., 1, 2, Q, D)
v = np.ones(2)
for d in D: v = np.linalg.solve(np.eye(2) - d, 1 + (Q - d) @ v)
if not np.isclose(u[1], v[-1]): sys.exit(1)
''', needs='one QDelta per sweep', breaks='the right-hand side of the later sweeps'),
dict(id='sdc-order-cap', property='C17', edits=[(SD, """    if stepUpdate == "QUADRATURE":
        order += 1

    order = min(maxOrder, order)
""", """    order = min(maxOrder, order)

    if stepUpdate == "QUADRATURE" and order < maxOrder + nSweeps - 4:
        order += 1
    elif stepUpdate == "QUADRATURE":
        order = min(maxOrder, order + 1)
""")],
 demo='''
from qmat.utils.sdc import getOrderSDC
from qmat.qcoeff.collocation import Collocation
for M in range(2, 5):
    C = Collocation(M, 'LEGENDRE', 'RADAU-RIGHT')
    for k in range(0, 12):
        if getOrderSDC(C, k, 'LU', 'QUADRATURE') > C.order: sys.exit(1)
''', needs='more than four sweeps', breaks='order above the order of the collocation method'),
dict(id='trap-dtau-left', property='C18', edits=[(TS, "        return self.nodes*0 + self.deltas[0]/2.0\n", "        return self.nodes*0 + self.nodes[0]/2.0\n")],
 demo='''
from qmat.qdelta.timestepping import TRAP
g = TRAP(nodes=[1.5, 2.], tLeft=1)
if not np.allclose(g.dTau, 0.25): sys.exit(1)
''', needs='tLeft != 0', breaks='delta_tau of the trapezoidal rule'),
dict(id='gs-tiny', property='C19', edits=[(AL, "        return np.tril(self.Q)\n", "        QDelta = np.tril(self.Q)\n        QDelta[np.abs(QDelta) < 1e-8] = 0\n        return QDelta\n")],
 demo='''
from qmat.qdelta.algebraic import GS
Q = 1e-9*np.array([[1., 2], [3, 4]])
if not np.allclose(GS(Q).getQDelta()/1e-9, np.tril(Q)/1e-9): sys.exit(1)
''', needs='entries of Q below 1e-8 (very small steps)', breaks='the lower triangle'),
dict(id='ldu-tiny-pivot', property='C20', edits=[(NU, "        for j in range(i + 1, n):\n", "        if abs(D[i, i]) < 1e-12: continue\n        for j in range(i + 1, n):\n")],
 demo='''
from qmat.utils.num import lduFactorization
A = 1e-13*np.array([[1., 2], [3, 4]])
L, D, U = lduFactorization(A)
if not np.allclose(L @ D @ U/1e-13, A/1e-13): sys.exit(1)
''', needs='pivots below 1e-12', breaks='L D U = A'),
dict(id='diag-k-zero', property='C21', edits=[(DI, "    if k is None: k = 1\n", "    if not k: k = 1\n")],
 demo='''
from qmat.qdelta.diag import Jumper
try:
    Jumper(nodes=[.5, 1]).getQDelta(0)
except ValueError:
    pass
else:
    sys.exit(1)
''', needs='k = 0', breaks='k below one is refused'),
dict(id='min-inverse', property='C22', edits=[(DI, "        return np.linalg.inv(np.diag(d.x))\n", "        return np.diag(1/np.abs(d.x))\n")],
 demo='''
import scipy.optimize as spo
from qmat.qdelta.diag import MIN
Q = np.array([[-.5, .1], [.2, .6]])
g = MIN(Q); D = g.getQDelta()
x = 1/np.diag(D)
best = spo.minimize(g.rho, 10*np.ones(2), method='Nelder-Mead')
if g.rho(x) > best.fun + 1e-6: sys.exit(1)
''', needs='a matrix whose optimal diagonal has a negative entry', breaks='the coefficients minimise the spectral radius'),
dict(id='sdelta-cache', property='C23', edits=[(QD, "        QDelta = self.getQDelta(k)\n        M = QDelta.shape[0]\n        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ QDelta\n", "        QDelta = self.getQDelta(k, copy=False)\n        SDelta = QDelta if self._K_DEPENDENT else QDelta.copy()\n        SDelta[1:] -= QDelta[:-1].copy()\n        return SDelta\n")],
 demo='''
from qmat.qdelta.diag import Jumper
g = Jumper(nodes=[.5, 1]); g.genCoeffs(k=2, form='N2N')
if not np.allclose(g.genCoeffs(k=2), np.diag([.5, 1])/4): sys.exit(1)
''', needs='a k-dependent approximation asked in N2N form, then again for the same sweep', breaks='the cached matrix is modified'),
dict(id='list-repeat-index', property='C24', edits=[(QD, "                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]\n", "                [gen.genCoeffs(qDeltaType[:k].count(qDeltaType[k])+1 if k >= 4 else k+1, form) for k, gen in enumerate(gens)]\n")],
 demo='''
from qmat import genQDeltaCoeffs
n = np.array([.5, 1.])
D = genQDeltaCoeffs(['BE', 'Jumper'], nSweeps=6, nodes=n)
for k in range(1, 6):
    if not np.allclose(D[k], np.diag(n)/(2*(k+1))): sys.exit(1)
''', needs='more than four sweeps with a k-dependent last type', breaks='the sweep number passed to the repeated type'),
dict(id='positional-default', property='C25', edits=[(U, "              if (p.kind == p.POSITIONAL_OR_KEYWORD) and p.name != \"self\"]\n", "              if (p.kind == p.POSITIONAL_OR_KEYWORD) and p.default is p.empty and p.name != \"self\"]\n")],
 demo='''
from qmat.qdelta.timestepping import BE
g = BE([1.5, 2.], 1.)
if not np.allclose(g.getQDelta(), [[.5, 0], [.5, .5]]): sys.exit(1)
''', needs='the optional left bound given by position', breaks='positional parameters'),
dict(id='alias-overwrite', property='C26', edits=[(U, "    assert alias not in dico, f\"{alias} alias already registered in {dico}\"\n", "    assert dico.get(alias, cls).__name__ == cls.__name__, f\"{alias} alias already registered in {dico}\"\n")],
 demo='''
from qmat.utils import storeClass
class A: pass
first = A
D = {}
storeClass(A, D)
class A: pass
try:
    storeClass(A, D)
except AssertionError:
    pass
if D['A'] is not first: sys.exit(1)
''', needs='two classes of the same name', breaks='the first owner of the name'),
dict(id='module-filter', property='C26', edits=[(U, "        check = lambda cls: cls.__module__.endswith(\".\"+module)\n", "        check = lambda cls: module in cls.__module__.split(\".\")\n")],
 demo='''
from qmat.utils import getClasses
from qmat.qdelta import QDELTA_GENERATORS
import qmat
class K: pass
K.__module__ = 'pkg.diag.extra'
D = dict(QDELTA_GENERATORS, K=K)
if K in getClasses(D, module='diag').values() or getClasses(QDELTA_GENERATORS, module='qdelta'): sys.exit(1)
''', needs='a module name that is also the name of a package', breaks='restriction to a module'),
dict(id='order-rmse', property='C27', edits=[(NU, "    rmse /= x.size**0.5\n", "    rmse /= max(x.size-2, 1)**0.5\n")],
 demo='''
from qmat.utils.num import numericalOrder
n = np.array([1, 10, 100, 1000]); e = 10.**np.array([0, -1, -3, -3.])
b, r = numericalOrder(n, e)
x, y = -np.log10(n), np.log10(e); p = np.polyfit(x, y, 1)
if not np.isclose(r, np.sqrt(np.mean((np.polyval(p, x)-y)**2))): sys.exit(1)
''', needs='errors that are not on a line', breaks='the root mean square error'),
dict(id='extrap-unsorted', property='C28', edits=[(NU, "    if pOrder is None: pOrder = np.size(nodes)-1\n", "    if pOrder is None:\n        from qmat.lagrange import LagrangeApproximation\n        return LagrangeApproximation(nodes).getInterpolationMatrix(times)\n")],
 demo='''
from qmat.utils.num import getExtrapolationMatrix
x = np.array([1., 0, .5]); P = getExtrapolationMatrix(x, [2., 3.])
if not np.allclose(P @ x, [2, 3]): sys.exit(1)
''', needs='nodes that are not in increasing order, with the default degree', breaks='columns do not match the nodes'),
dict(id='sparse-short-period', property='C29', edits=[(L, "        if gridPeriod > 0:\n", "        if gridPeriod >= 1:\n")],
 demo='''
from qmat.lagrange import getSparseInterpolationMatrix as f
x = np.array([0., .2, .4, .6]); 
A = f(x, np.array([.75]), 2, 0.8).toarray()
if not np.allclose(A, [[.75, 0, 0, .25]]): sys.exit(1)
''', needs='a period below one', breaks='periodicity is ignored'),
dict(id='ark443-coupling', property='C31', edits=[(B, "         [1, 0, 0]]\n    b_never = 0\n", "")], demo='', needs='', breaks=''),
]
