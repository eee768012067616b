L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'
MC = 'qmat/qdelta/mincoeffs.py'
BUGS = [
dict(id='call-memory-order', property='C36', edits=[(L, "self.getInterpolationMatrix(t.ravel()).dot(fValues)", "self.getInterpolationMatrix(t.ravel(order='K')).dot(fValues)")],
 demo='''
from qmat.lagrange import LagrangeApproximation
a = LagrangeApproximation([0., 1])
t = np.array([[0., 1, 2], [3, 4, 5]]).T
if not np.allclose(a(t, fValues=[0., 1]), t): sys.exit(1)
''', needs='a transposed matrix of times', breaks='the values come in memory order'),
dict(id='sparse-modulo', property='C36', edits=[(L, "    lastInterpolationLine = None\n    lastClosestPoints = None\n\n", "    lastInterpolationLine = None\n    lastClosestPoints = None\n\n    if gridPeriod > 0 and isinstance(outPoints, np.ndarray):\n        outPoints %= gridPeriod\n\n")],
 demo='''
from qmat.lagrange import getSparseInterpolationMatrix
x, t = np.linspace(0, 1, 8, endpoint=False), np.array([-.3, .2, 1.4])
getSparseInterpolationMatrix(x, t, 3, gridPeriod=1)
if not np.allclose(t, [-.3, .2, 1.4]): sys.exit(1)
''', needs='a period and output points outside of the first one', breaks='the output points of the caller are wrapped'),
dict(id='sdc-error-inplace', property='C36', edits=[(SD, "    return np.linalg.norm(uNum-uExact, ord=np.inf)\n", "    err = np.asarray(uNum)\n    err -= uExact\n    return np.linalg.norm(err, ord=np.inf)\n")],
 demo='''
from qmat.utils.sdc import errorDahlquistSDC
u = np.array([1, .5, .25], dtype=complex)
errorDahlquistSDC(-1, 1, 1, 2, 1, np.eye(2), np.eye(2), uNum=u)
if not np.allclose(u, [1, .5, .25]): sys.exit(1)
''', needs='a solution given to the SDC error function', breaks='it is overwritten by the error'),
dict(id='order-normalise', property='C36', edits=[(NU, "    x, y = np.log10(1/nSteps), np.log10(err)\n", "    err = np.asarray(err, dtype=float)\n    if err.max() > 1e3: err /= err.max()  # slope does not depend on scaling\n    x, y = np.log10(1/nSteps), np.log10(err)\n")],
 demo='''
from qmat.utils.num import numericalOrder
e = np.array([4e3, 1e3])
numericalOrder([1, 2], e)
if not np.allclose(e, [4e3, 1e3]): sys.exit(1)
''', needs='an array of large errors', breaks='errors of the caller are scaled'),
dict(id='poly-inplace', property='C36', edits=[(N, "            pi[2] *= t - alpha_j\n", "            if alpha_j: t = np.subtract(t, alpha_j, out=t if t.ndim else None); pi[2] *= t; t += alpha_j\n            else: pi[2] *= t\n")],
 demo='''
from qmat.nodes import NodesGenerator
g = NodesGenerator('CHEBY-3', 'GAUSS')
t = np.array([.1, .2]); t.flags.writeable = False
a, b = g.getOrthogPolyCoefficients(3)
try:
    g.evalOrthogPoly(t, a, b)
except ValueError:
    sys.exit(1)
''', needs='read-only points, nonzero alpha', breaks='points are shifted and shifted back'),
dict(id='fejer-large', property='C06', edits=[(L, "        2 * np.exp(1j * np.pi * K / n) / (1 - 4 * K**2),\n", "        2 * np.exp(1j * np.pi * K / n) / (1 - 4 * np.minimum(K, 40)**2),\n")],
 demo='''
from qmat.lagrange import computeFejerRule
n = 90
x, w = computeFejerRule(n)
if abs(w @ np.cos(84*np.arccos(x)) - 2/(1 - 84**2)) > 1e-10: sys.exit(1)
''', needs='more than 80 points', breaks='the highest frequencies are wrong'),
dict(id='integ-cap', property='C02', edits=[(L, "roots_legendre((self.n + 1) // 2)", "roots_legendre(min((self.n + 1) // 2, 12))")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.cos(np.arange(28)*np.pi/27)[::-1]
Q = LagrangeApproximation(x).getIntegrationMatrix([(-1, 1)], numQuad='LEGENDRE_SCIPY')
if abs(Q @ np.cos(26*np.arccos(x)) - 2/(1 - 26**2))[0] > 1e-8: sys.exit(1)
''', needs='more than 24 points with the scipy rule', breaks='inexact'),
dict(id='deriv-close', property='C03', edits=[(L, "        iDiff[np.isinf(iDiff)] = 0\n", "        iDiff[np.abs(iDiff) > 1e7] = 0\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
D = LagrangeApproximation(np.array([0., 5e-8, 1e-7])).getDerivativeMatrix()
if not np.allclose(D @ np.array([0., 5e-8, 1e-7]), 1): sys.exit(1)
''', needs='points closer than 1e-7', breaks='entries of close points are dropped'),
dict(id='esdirk43-c', property='C10', edits=[(B, "    c = np.array([0, 1 / 2, (2 - 2**0.5) / 4, 5 / 8, 26 / 25, 1.0])\n", "    c = np.array([0, 1 / 2, 0.1464466, 5 / 8, 26 / 25, 1.0])\n")],
 demo='''
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES['ESDIRK43']()
if np.abs(g.A.sum(axis=1) - g.c).max() > 1e-10: sys.exit(1)
''', needs='a node compared to more than six digits', breaks='c is rounded'),
dict(id='minsrs-tolerance', property='C22', edits=[(DI, "coeffs = spo.fsolve(nilpotency, coeffs0, xtol=1e-15)", "coeffs = spo.fsolve(nilpotency, coeffs0, xtol=1e-15 if nCoeffs < 4 else 1e-5)")],
 demo='''
from qmat.qdelta.diag import MIN_SR_S
from qmat.qcoeff.collocation import Collocation
C = Collocation(4, 'LEGENDRE', 'RADAU-RIGHT')
d = np.diag(MIN_SR_S(4, 'LEGENDRE', 'RADAU-RIGHT').getQDelta())
K = np.eye(4) - np.diag(1/d) @ C.Q
for z in C.nodes:
    if abs(np.linalg.det(np.eye(4) - z*K) - 1) > 1e-9: sys.exit(1)
''', needs='four or more unknowns', breaks='the root finder stops early'),
dict(id='minsrs-nodes', property='C22', edits=[(DI, "np.diag(1 / coeffs) @ QM for z in nodesM]\n", "np.diag(1 / coeffs) @ QM for z in [*nodesM[:8], *nodesM[7:-1][:nCoeffs-8]]]\n")],
 demo='''
from qmat.qdelta.diag import MIN_SR_S
from qmat.qcoeff.collocation import Collocation
n = 9
C = Collocation(n, 'LEGENDRE', 'RADAU-RIGHT')
d = np.diag(MIN_SR_S(n, 'LEGENDRE', 'RADAU-RIGHT').getQDelta())
K = np.eye(n) - np.diag(1/d) @ C.Q
for z in C.nodes:
    if abs(np.linalg.det(np.eye(n) - z*K) - 1) > 1e-8: sys.exit(1)
''', needs='nine or more unknowns', breaks='an equation is repeated'),
dict(id='coll-order-cheb', property='C09', edits=[(CO, "                return M + (M % 2)  # why ? the node symmetry I guess ...\n", "                return M + (M % 2) if M < 12 else M + 1 + (M % 2)\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
if Collocation(12, 'EQUID', 'GAUSS').order != 12: sys.exit(1)
''', needs='12 or more symmetric nodes', breaks='declared order too high'),
dict(id='monitor-errors-step', property='C16', edits=[(SD, "                    monitors[\"errors\"][k+1, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))\n", "                    monitors[\"errors\"][k+1, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes)) if i < 10 else uNodes - uNum[i]*np.exp(lam*dt*nodes)\n")],
 demo='''
from qmat.utils.sdc import solveDahlquistSDC
from qmat.qcoeff.collocation import Collocation
C = Collocation(2, 'LEGENDRE', 'RADAU-RIGHT')
u, m = solveDahlquistSDC(1j, 1, 12, 12, 1, C.Q, C.Q*0, None, ['errors'])
if not np.allclose(m['errors'][1, 11, -1], u[-1] - np.exp(12j)): sys.exit(1)
''', needs='more than ten steps with the error monitor', breaks='errors are relative to the step start'),
dict(id='padding-node', property='C13', edits=[(B, "                self.c = np.array(self.c.tolist() + [1])\n", "                self.c = np.array(self.c.tolist() + [max(1, self.c[-1])])\n")],
 demo='''
from qmat.qcoeff.butcher import RK
class X(RK):
    A = np.array([[0., 0], [1.5, 0]]); b = np.array([.5, .5]); c = np.array([0, 1.5])
    order = 1
if X(padding='RIGHT').nodes[-1] != 1: sys.exit(1)
''', needs='a table whose last node is beyond 1', breaks='the padding node is not at 1'),
dict(id='rule-even', property='C02', edits=[(L, "computeFejerRule(self.n - ((self.n + 1) % 2))", "computeFejerRule(self.nUniquePoints - ((self.nUniquePoints + 1) % 2) - 2*(self.n > 26))")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.cos(np.arange(29)*np.pi/28)[::-1]
Q = LagrangeApproximation(x).getIntegrationMatrix([(-1, 1)])
if abs(Q @ np.cos(28*np.arccos(x)) - 2/(1 - 28**2))[0] > 1e-8: sys.exit(1)
''', needs='more than 26 points', breaks='two points less in the rule'),
]
