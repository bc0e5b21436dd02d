"""Vector expressions for reference relations."""
from .common import *
from .oracle import E


class G:
    """vector expressions evaluated by the engine"""

    def __init__(self, X):
        self.X = X

    def np(self, f, *a):
        return M.call_ext(self.X.I, "numpy." + f, list(a), {})

    def op(self, o, a, b):
        return self.X.I.binop(o, a, b)

    def add(self, a, b): return self.op("Add", a, b)
    def sub(self, a, b): return self.op("Sub", a, b)
    def mul(self, a, b): return self.op("Mult", a, b)
    def mm(self, a, b): return self.op("MatMult", a, b)
    def dot(self, a, b): return self.np("dot", a, b)
    def unit(self, a): return self.op("Div", a, M.call_ext(self.X.I, "numpy.linalg.norm", [a], {}))
    def neg(self, a): return self.mul(a, D.num_const(-1))

    def z(self, R):
        return self.mm(R, Arr(M.assemble([D.num_const(0), D.num_const(0), D.num_const(1)])))

    def xy(self, e, R):
        """angle of a world direction in a frame"""
        v = self.mm(e, R)
        g = lambda k: M.getitem(self.X.I, v, D.num_const(k))
        return E(self.np("arctan2", g(1), g(0)))
