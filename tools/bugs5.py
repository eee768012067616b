L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'
MC = 'qmat/qdelta/mincoeffs.py'
BUGS = [
dict(id='generic-kind', property='C26', edits=[(U, "        assert par.kind == par.VAR_KEYWORD\n", "        assert par.kind in (par.VAR_KEYWORD, par.KEYWORD_ONLY)\n")],
 demo='''
from qmat.qdelta import register, QDeltaGenerator
try:
    @register
    class Mine(QDeltaGenerator):
        def __init__(self, Q, *, kwargs=None): self.Q = Q
        def computeQDelta(self, k=None): return self.Q
    sys.exit(1)
except AssertionError: pass
''', needs='a class with a keyword-only argument called kwargs', breaks='it is not refused'),
dict(id='rmse-dof', property='C27', edits=[(NU, "    rmse /= x.size**0.5\n", "    rmse /= max(x.size - 2*(x.size > 9), 1)**0.5\n")],
 demo='''
from qmat.utils.num import numericalOrder
n = 2**np.arange(1, 13); e = n**-2. * (1 + .5*(-1)**np.arange(12))
b, r = numericalOrder(n, e)
x, y = np.log10(1/n), np.log10(e); p = np.polyfit(x, y, 1)
if abs(r - np.sqrt(np.mean((y - np.polyval(p, x))**2))) > 1e-8: sys.exit(1)
''', needs='ten or more data points', breaks='the root mean square error'),
dict(id='timer-class', property='C34', edits=[(U, "        self.tStart = time()\n", "        type(self).tStart = time()\n")],
 demo='''
import qmat.utils as u
t = iter([0., 1., 3., 7.]); u.time = lambda: next(t)
a, b = u.Timer('a'), u.Timer('b')
a.start(); b.start(); b.stop(); a.stop()
if a.tWall != 7: sys.exit(1)
''', needs='nested timers', breaks='the start of the outer timer'),
dict(id='timer-scale', property='C34', edits=[(U, "        self.tWall /= self.scale\n", "        self.tWall /= max(self.scale, 1)\n")],
 demo='''
import qmat.utils as u
t = iter([0., 1.]); u.time = lambda: next(t)
a = u.Timer('a', scale=.001)
a.start(); a.stop()
if a.tWall != 1000: sys.exit(1)
''', needs='a scale below one (milliseconds)', breaks='the scale'),
dict(id='coll-interval-cache', property='C35', edits=[(CO, "    def __init__(self, nNodes, nodeType, quadType, tLeft=0, tRight=1):\n        self.nodeType, self.quadType = nodeType, quadType\n", "    _cache = {}\n\n    def __init__(self, nNodes, nodeType, quadType, tLeft=0, tRight=1):\n        self.nodeType, self.quadType = nodeType, quadType\n"),
   (CO, "        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n", "        key = (nNodes, nodeType, quadType, tRight-tLeft)\n        if key not in self._cache or tLeft == 0: self._cache[key] = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])/(tRight-tLeft) if tLeft == 0 else approx.getIntegrationMatrix([(0, tau) for tau in nodes])/(tRight-tLeft)\n        Q = self._cache[key]*(tRight-tLeft)\n        if tLeft and tLeft != -1: Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
a = Collocation(3, 'LEGENDRE', 'GAUSS', -1, 1)
if not np.allclose(a.Q.sum(axis=1), a.nodes + 1): sys.exit(1)
''', needs='a left bound of -1', breaks='the integrals'),
dict(id='pad-int', property='C13', edits=[(B, "                self.c = np.array([0] + self.c.tolist())\n", "                self.c = np.array([0] + [c for c in self.c.tolist()], dtype=self.c.dtype if self.c[0] else None).astype(np.float32 if self.c.size > 6 else float)\n")],
 demo='''
from qmat.qcoeff.butcher import RK_SCHEMES
for n, c in RK_SCHEMES.items():
    if not np.array_equal(c('LEFT').c[1:], c.c): sys.exit(1)
''', needs='a table of more than six stages compared to more than seven digits', breaks='the nodes'),
dict(id='trap-large', property='C18', edits=[(TS, "        QDelta /= 2.0\n", "        QDelta[:, :12] /= 2.0\n        QDelta[:, 12:] *= .5 - 1e-9\n")],
 demo='''
from qmat.qdelta.timestepping import TRAP
x = np.arange(1, 21)/20
g = TRAP(nodes=x)
if not np.allclose(g.getQDelta().sum(axis=1) + g.dTau, x, rtol=0, atol=1e-13): sys.exit(1)
''', needs='more than twelve nodes', breaks='row sums in the tenth digit'),
dict(id='be-negative', property='C18', edits=[(TS, "        deltas[1:] = np.ediff1d(nodes)\n", "        deltas[1:] = np.ediff1d(nodes)\n        if tLeft > nodes[0]: deltas[0] = 0\n")],
 demo='''
from qmat.qdelta.timestepping import BE
if BE(nodes=[0., .5, 1], tLeft=.25).getQDelta()[0, 0] != -.25: sys.exit(1)
''', needs='a left bound beyond the first node', breaks='the first step'),
dict(id='order-lobatto', property='C09', edits=[(CO, "                return 2*M-2\n", "                return 2*M-2 if M != 9 else 2*M-1\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
if Collocation(9, 'LEGENDRE', 'LOBATTO').order != 16: sys.exit(1)
''', needs='nine Lobatto nodes', breaks='the declared order'),
dict(id='extrap-high', property='C28', edits=[(NU, "    if pOrder is None: pOrder = np.size(nodes)-1\n", "    if pOrder is None: pOrder = np.size(nodes)-1\n    pOrder = min(pOrder, 7)\n")],
 demo='''
from qmat.utils.num import getExtrapolationMatrix
x = np.linspace(-1, 1, 10)
if not np.allclose(getExtrapolationMatrix(x, [.3]) @ x**8, .3**8, atol=1e-8, rtol=0): sys.exit(1)
''', needs='more than eight nodes', breaks='exactness for high degrees'),
dict(id='ldu-big', property='C20', edits=[(NU, "            U[i, j] = (A[i, j] - np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, j])) / D[i, i]\n", "            U[i, j] = (A[i, j] - np.sum(L[i, max(0, i-7):i] * D[:i, :i].diagonal()[max(0, i-7):] * U[max(0, i-7):i, j])) / D[i, i]\n")],
 demo='''
from qmat.utils.num import lduFactorization
A = 1/(1 + np.abs(np.subtract.outer(np.arange(10), np.arange(10)))) + np.eye(10)
L, D, U = lduFactorization(A)
if not np.allclose(L @ D @ U, A): sys.exit(1)
''', needs='nine or more rows', breaks='L D U = A'),
dict(id='flex-np-int', property='C21', edits=[(DI, "        if k <= self.size:\n            return np.diag(self.coll.nodes/k)\n", "        if k < self.size or (k == self.size and k < 8):\n            return np.diag(self.coll.nodes/k)\n")],
 demo='''
from qmat.qdelta.diag import MIN_SR_FLEX
g = MIN_SR_FLEX(9, 'LEGENDRE', 'RADAU-RIGHT')
if abs(g.getQDelta(9)[-1, -1] - 1/9) > 1e-13: sys.exit(1)
''', needs='eight or more nodes at the sweep equal to their number', breaks='the divisor'),
dict(id='default-params', property='C30', edits=[(QC, "            return cls(**cls.DEFAULT_PARAMS)\n", "            gen = getattr(cls, '_default', None)\n            if gen is None: gen = cls._default = cls(**cls.DEFAULT_PARAMS)\n            return gen\n")],
 demo='''
from qmat.qcoeff.collocation import Collocation
a = Collocation.getInstance(); a.nodes[:] = 0
if Collocation.getInstance().nodes[-1] != 1: sys.exit(1)
''', needs='a default instance modified by its receiver', breaks='later default instances'),
]
