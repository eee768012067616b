L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'
MC = 'qmat/qdelta/mincoeffs.py'
BUGS = [
dict(id='interp-errstate', property='C35', edits=[(L, "        with np.errstate(divide='ignore'):\n            iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])\n", "        np.seterr(divide='ignore')\n        iDiff = 1 / (times[:, None] - self.uniquePoints[None, :])\n"), (L, "        P /= P.sum(axis=-1)[:, None]\n", "        P /= P.sum(axis=-1)[:, None]\n        if i.size < times.size: np.seterr(divide='warn')\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
np.seterr(divide='raise')
LagrangeApproximation([0., 1.]).getInterpolationMatrix([0.])
try:
    np.array([1.])/np.array([0.])
    sys.exit(1)
except FloatingPointError: pass
''', needs='error state of numpy set by the caller', breaks='the error state of numpy is changed by an interpolation'),
dict(id='deprecated-once', property='C25', edits=[(U, "            import warnings\n            warnings.warn(\"using the `coll`", "            import warnings\n            if not hasattr(useQGen, 'warned'): warnings.warn(\"using the `coll`"), (U, "            assert \"qGen\" not in kwargs,", "            useQGen.warned = True\n            assert \"qGen\" not in kwargs,")],
 demo='''
import warnings
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.algebraic import LU, GS
C = Collocation(2, 'LEGENDRE', 'GAUSS')
for G in (LU, GS):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        G(coll=C)
    if len(w) != 1: sys.exit(1)
''', needs='the deprecated keyword used twice', breaks='the second warning'),
dict(id='qd-cache-size', property='C23', edits=[(QD, "                self._QDelta[k] = QDelta\n", "                self._QDelta[k if len(self._QDelta) < 8 else 1] = QDelta\n")],
 demo='''
from qmat.qdelta.diag import MIN_SR_FLEX
g = MIN_SR_FLEX(10, 'LEGENDRE', 'RADAU-RIGHT')
for k in range(1, 10): g.getQDelta(k)
if not np.allclose(g.getQDelta(1), MIN_SR_FLEX(10, 'LEGENDRE', 'RADAU-RIGHT').getQDelta(1)): sys.exit(1)
''', needs='nine sweep numbers retrieved from one generator', breaks='the matrix of the first sweep'),
dict(id='tinv-big', property='C14', edits=[(QC, "        return np.tri(M)\n", "        return np.tri(M) if M < 11 else np.tri(M, k=0) - np.diag(np.full(M, 1e-8))\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
g = Collocation(11, 'LEGENDRE', 'GAUSS')
if not np.allclose(g.Tinv @ g.T, np.eye(11), atol=1e-12, rtol=0): sys.exit(1)
''', needs='eleven nodes', breaks='Tinv in the eighth digit'),
dict(id='coll-tiny', property='C08', edits=[(CO, "        nodes *= (tRight-tLeft)\n", "        nodes *= (tRight-tLeft) if abs(tRight-tLeft) > 1e-9 else 1e-9\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
g = Collocation(3, 'LEGENDRE', 'GAUSS', 0, 1e-10)
if g.nodes[-1] > 1e-10: sys.exit(1)
''', needs='an interval shorter than 1e-9', breaks='the nodes leave the interval'),
dict(id='coll-huge', property='C08', edits=[(CO, "        nodes += tLeft\n", "        nodes += np.float32(tLeft) if abs(tLeft) > 1e4 else tLeft\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
g = Collocation(3, 'LEGENDRE', 'GAUSS', 123456.789, 123457.789)
if abs(g.nodes[1] - 123457.289) > 1e-6: sys.exit(1)
''', needs='a left bound above 10000 with many digits', breaks='the position of the nodes'),
dict(id='rk-digit', property='C11', edits=[(B, "37.0 / 378.0", "0.0978835978836")],
 demo='''
from qmat.qcoeff.butcher import CashKarp
if abs(CashKarp().weights.sum() - 1) > 1e-15 or abs(CashKarp().weights[0] - 37/378) > 1e-15: sys.exit(1)
''', needs='weights compared to more than 13 digits', breaks='a weight'),
dict(id='spare-digit', property='C12', edits=[(B, "512.0 / 1771.0", "0.28910220")],
 demo='''
from qmat.qcoeff.butcher import CashKarp
g = CashKarp()
for b in (g.b, g.b2):
    if abs(b.sum() - 1) > 1e-12: sys.exit(1)
''', needs='a weight compared to more than seven digits', breaks='consistency'),
dict(id='call-3d', property='C01', edits=[(L, "        values.shape = t.shape\n", "        values = values.reshape(t.shape) if t.ndim < 3 else values.reshape(t.shape[::-1]).T\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
t = np.arange(12).reshape(2, 3, 2)/10.
if not np.allclose(LagrangeApproximation([0., 1, 2])(t, [0, 1, 4.]), t**2): sys.exit(1)
''', needs='three dimensional times', breaks='the order of the values'),
dict(id='interp-many', property='C01', edits=[(L, "        iDiff[i, :] = concom[i, :]\n", "        iDiff[i[:64], :] = concom[i[:64], :]\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
x = np.arange(3.)
P = LagrangeApproximation(x).getInterpolationMatrix(np.tile(x, 30))
if not np.allclose(P, np.tile(np.eye(3), (30, 1))): sys.exit(1)
''', needs='more than 64 times that coincide with points', breaks='later rows'),
dict(id='lu-big', property='C19', edits=[(AL, "        return np.diag(np.diag(self.Q))\n", "        return np.diag(np.diag(self.Q)[:9].tolist() + [self.Q[i, i] for i in range(9, len(self.Q)-1)] + ([self.Q[-1, -1]] if len(self.Q) < 11 else [self.Q[-1, -2]])[:max(len(self.Q)-9, 0)])\n")],
 demo='''
from qmat.qdelta.algebraic import QPar
A = np.arange(144.).reshape(12, 12)
if not np.allclose(QPar(Q=A).getQDelta(), np.diag(np.diag(A))): sys.exit(1)
''', needs='eleven or more nodes', breaks='the last diagonal entry'),
dict(id='dt-many', property='C15', edits=[(QC, "        dt = tEnd/nSteps\n", "        dt = tEnd/nSteps if nSteps <= 16 else round(tEnd/nSteps, 9)\n")],
 demo='''
from qmat.qcoeff.butcher import FE
u = FE().solveDahlquist(1., 1., 1., 17)
if abs(u[-1] - (1 + 1/17)**17) > 1e-11: sys.exit(1)
''', needs='more than 16 steps whose length has many digits', breaks='the length of a step'),
dict(id='sdc-dt-many', property='C16', edits=[(SD, "    dt = tEnd/nSteps\n", "    dt = tEnd/nSteps if nSteps <= 16 else round(tEnd/nSteps, 9)\n")],
 demo='''
from qmat.utils.sdc import solveDahlquistSDC
u = solveDahlquistSDC(1., 1., 1., 17, 1, np.array([[1.]]), np.array([[0.]]))
if abs(u[-1] - (1 + 1/17)**17) > 1e-11: sys.exit(1)
''', needs='more than 16 steps whose length has many digits', breaks='the length of a step'),
dict(id='sparse-order', property='C29', edits=[(L, "np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])", "np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:min(order, 6)])")],
 demo='''
from qmat.lagrange import getSparseInterpolationMatrix
x = np.arange(12)/11; t = np.array([.43])
A = getSparseInterpolationMatrix(x, t, 8).toarray()
if (A != 0).sum() != 8: sys.exit(1)
''', needs='an order above six', breaks='the number of points used'),
dict(id='extrap-times', property='C28', edits=[(NU, "    T = np.vander(times, N=pOrder+1, increasing=True)\n", "    T = np.vander(times, N=pOrder+1, increasing=True)\n    if len(T) > 6: T[6:, -1] = T[6:, -2]*np.asarray(times)[5:-1]\n")],
 demo='''
from qmat.utils.num import getExtrapolationMatrix
t = np.linspace(0, 2, 9)
if not np.allclose(getExtrapolationMatrix([0, .5, 1], t) @ np.array([0, .25, 1]), t**2): sys.exit(1)
''', needs='more than six times', breaks='later rows'),
dict(id='intervals-many', property='C02', edits=[(L, "        Q = integrand.sum(axis=-1).T\n", "        Q = integrand.sum(axis=-1).T\n        if len(Q) > 20: Q[20:] = Q[:19:-1]\n")],
 demo='''
from qmat.lagrange import LagrangeApproximation
I = [(0, i) for i in range(24)]
Q = LagrangeApproximation([0., 1, 2]).getIntegrationMatrix(I)
if not np.allclose(Q.sum(axis=1), np.arange(24)): sys.exit(1)
''', needs='more than twenty intervals', breaks='the order of the rows'),
dict(id='getclasses-suffix', property='C26', edits=[(U, "cls.__module__.endswith(\".\"+module)", "cls.__module__.split('.')[-1].startswith(module)")],
 demo='''
from qmat.utils import getClasses
class A: pass
A.__module__ = 'qmat.qdelta.diagonal'
if getClasses({'A': A}, 'diag'): sys.exit(1)
''', needs='a user module whose name starts like another', breaks='the restriction to a module'),
]
