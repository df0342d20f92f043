"""z3 translation of terms: bit-vectors, IEEE floats, libm as uninterpreted functions.
uf=True makes the FP arithmetic uninterpreted as well (equality reasoning only)."""
import z3
from terms import *

RNE = z3.RNE()
F64 = z3.Float64()


class Z:
    def __init__(self, uf=False):
        self.uf = uf
        self.b = {}
        self.f = {}
        self.ufs = {}
        self.side = []
        self.vars = {}

    def u(self, name, n):
        k = (name, n)
        if k not in self.ufs:
            s = [z3.BitVecSort(64)] * (n + 1) if self.uf else [F64] * (n + 1)
            self.ufs[k] = z3.Function('u_' + name, *s)
        return self.ufs[k]

    # bit-vector value of a term of width w (w==1 -> Bool)
    def bv(self, t, w=64):
        if type(t) is int:
            return z3.BitVecVal(t, w)
        r = self.b.get(t.id)
        if r is None:
            r = self.bv1(t)
            self.b[t.id] = r
        return r

    def isfp(self, t):
        return t.op in ('fadd', 'fmul', 'fdiv', 'fneg', 'fabs', 'fsqrt', 'i2f', 'u2f') or t.op.startswith('fn:')

    def bv1(self, t):
        op, a, w = t.op, t.args, t.w
        if op in ('fvar', 'var'):
            v = z3.BitVec(a[0], w)
            self.vars[a[0]] = v
            return v
        if w == 1 and op in ('bnot', 'band', 'eq', 'slt', 'ult', 'flt', 'fle', 'feq', 'fisnan'):
            return z3.If(self.bo(t), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if self.isfp(t):
            if self.uf:
                return self.u(op, len(a))(*[self.bv(x) if type(x) is int or x.w == 64 else z3.SignExt(64 - x.w, self.bv(x, x.w)) for x in a])
            v = z3.BitVec('bits!%d' % t.id, 64)
            self.side.append(z3.fpBVToFP(v, F64) == self.fp(t))
            return v
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'lshr', 'ashr'):
            x, y = self.bv(a[0], w), self.bv(a[1], w)
            if y.size() != w:
                y = z3.ZeroExt(w - y.size(), y) if y.size() < w else z3.Extract(w - 1, 0, y)
            return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                    'xor': lambda: x ^ y, 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y), 'udiv': lambda: z3.UDiv(x, y),
                    'urem': lambda: z3.URem(x, y), 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
                    'ashr': lambda: x >> y}[op]()
        if op == 'not':
            return ~self.bv(a[0], w)
        if op == 'extract':
            return z3.Extract(a[1] + w - 1, a[1], self.bv(a[0], a[0].w))
        if op == 'cat':
            ps = [self.bv(p, n) for p, n in zip(a[0::2], a[1::2])]
            return z3.Concat(*reversed(ps)) if len(ps) > 1 else ps[0]
        if op == 'zext':
            return z3.ZeroExt(w - a[0].w, self.bv(a[0], a[0].w))
        if op == 'sext':
            return z3.SignExt(w - a[0].w, self.bv(a[0], a[0].w))
        if op == 'ite':
            return z3.If(self.bo(a[0]), self.bv(a[1], w), self.bv(a[2], w))
        if op == 'f2i':
            if self.uf:
                return z3.Extract(w - 1, 0, self.u('f2i', 1)(self.bv(a[0])))
            return z3.fpToSBV(z3.RTZ(), self.fp(a[0]), z3.BitVecSort(w))
        raise Exception('bv ' + op)

    def fp(self, t):
        if type(t) is int:
            if isnan(t):
                return z3.fpNaN(F64)
            return z3.fpBVToFP(z3.BitVecVal(t, 64), F64)
        r = self.f.get(t.id)
        if r is None:
            r = self.fp1(t)
            self.f[t.id] = r
        return r

    def fp1(self, t):
        op, a = t.op, t.args
        if op == 'fadd':
            return z3.fpAdd(RNE, self.fp(a[0]), self.fp(a[1]))
        if op == 'fmul':
            return z3.fpMul(RNE, self.fp(a[0]), self.fp(a[1]))
        if op == 'fdiv':
            return z3.fpDiv(RNE, self.fp(a[0]), self.fp(a[1]))
        if op == 'fneg':
            return z3.fpNeg(self.fp(a[0]))
        if op == 'fabs':
            return z3.fpAbs(self.fp(a[0]))
        if op == 'fsqrt':
            return z3.fpSqrt(RNE, self.fp(a[0]))
        if op == 'i2f':
            return z3.fpSignedToFP(RNE, self.bv(a[0], a[0].w), F64)
        if op == 'ite':
            return z3.If(self.bo(a[0]), self.fp(a[1]), self.fp(a[2]))
        if op.startswith('fn:'):
            xs = [self.fp(x) for x in a]
            r = self.u(op, len(a))(*xs)
            if op == 'fn:hypot':
                # C17 F.9.4.3 and exactness when one side is zero
                inf = z3.Or(*[z3.fpIsInf(x) for x in xs])
                self.side += [z3.Implies(inf, z3.And(z3.fpIsInf(r), z3.fpIsPositive(r))),
                              z3.Implies(z3.And(z3.Not(inf), z3.Or(*[z3.fpIsNaN(x) for x in xs])), z3.fpIsNaN(r))]
                self.side += [z3.Implies(z3.fpIsZero(xs[i]), r == z3.fpAbs(xs[1 - i])) for i in (0, 1)]
            x, F = xs[0], lambda v: z3.FPVal(v, F64)
            if op == 'fn:exp':
                # sign, special values and range; every libm gives these
                self.side += [z3.Implies(z3.Not(z3.fpIsNaN(x)), z3.And(z3.fpGEQ(r, F(0.0)), z3.Not(z3.fpIsNaN(r)))),
                              z3.fpIsNaN(x) == z3.fpIsNaN(r),
                              z3.Implies(z3.fpIsZero(x), z3.fpEQ(r, F(1.0))),
                              z3.Implies(z3.fpLEQ(x, F(0.0)), z3.fpLEQ(r, F(1.0))),
                              z3.Implies(z3.fpGEQ(x, F(0.0)), z3.fpGEQ(r, F(1.0))),
                              z3.Implies(z3.fpLT(x, F(-746.0)), z3.fpIsZero(r)),
                              z3.Implies(z3.fpLEQ(x, F(709.0)), z3.Not(z3.fpIsInf(r))),
                              z3.Implies(z3.fpGT(x, F(710.0)), z3.fpIsInf(r))]
            if op == 'fn:log':
                self.side += [z3.fpIsNaN(r) == z3.Or(z3.fpIsNaN(x), z3.fpLT(x, F(0.0))),
                              z3.fpEQ(x, F(1.0)) == z3.fpIsZero(r),
                              z3.Implies(z3.fpIsZero(x), z3.And(z3.fpIsInf(r), z3.fpIsNegative(r))),
                              z3.Implies(z3.fpGEQ(x, F(1.0)), z3.fpGEQ(r, F(0.0))),
                              z3.Implies(z3.fpLEQ(x, F(1.0)), z3.Not(z3.fpGT(r, F(0.0)))),
                              z3.Implies(z3.fpLEQ(x, F(2.0)), z3.Not(z3.fpGT(r, F(0.6931471805599454)))),
                              z3.Implies(z3.fpLEQ(x, F(3.0)), z3.Not(z3.fpGT(r, F(1.0986122886681100)))),
                              z3.Implies(z3.And(z3.fpGT(x, F(0.0)), z3.Not(z3.fpIsInf(x))), z3.And(z3.fpLT(r, F(710.0)), z3.fpGT(r, F(-746.0)))),
                              z3.Implies(z3.And(z3.fpIsInf(x), z3.fpIsPositive(x)), z3.And(z3.fpIsInf(r), z3.fpIsPositive(r)))]
            return r
        return z3.fpBVToFP(self.bv(t), F64)

    def bo(self, t):
        if type(t) is int:
            return z3.BoolVal(bool(t))
        op, a = t.op, t.args
        if op == 'bnot':
            return z3.Not(self.bo(a[0]))
        if op == 'band':
            return z3.And(self.bo(a[0]), self.bo(a[1]))
        if op == 'eq':
            w = max(x.w for x in a if type(x) is T)
            if w == 1:
                return self.bo(a[0]) == self.bo(a[1])
            return self.bv(a[0], w) == self.bv(a[1], w)
        if op in ('slt', 'ult'):
            w = max(x.w for x in a if type(x) is T)
            x, y = self.bv(a[0], w), self.bv(a[1], w)
            return x < y if op == 'slt' else z3.ULT(x, y)
        if op in ('flt', 'fle', 'feq', 'fisnan'):
            if self.uf:
                # comparisons stay uninterpreted predicates
                k = (op, len(a))
                if k not in self.ufs:
                    self.ufs[k] = z3.Function('p_' + op, *([z3.BitVecSort(64)] * len(a) + [z3.BoolSort()]))
                return self.ufs[k](*[self.bv(x) for x in a])
            x = [self.fp(y) for y in a]
            if op == 'fisnan':
                return z3.fpIsNaN(x[0])
            return {'flt': z3.fpLT, 'fle': z3.fpLEQ, 'feq': z3.fpEQ}[op](x[0], x[1])
        if op == 'ite':
            return z3.If(self.bo(a[0]), self.bo(a[1]), self.bo(a[2]))
        if t.w == 1:
            return self.bv(t, 1) == 1
        raise Exception('bool ' + op)
