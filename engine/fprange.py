"""Floating-point range reasoning over the reals: a double is (kind, value), a rounded operation is any value that monotonic rounding
allows.  An over-approximation of IEEE arithmetic, so 'unsat' is a proof; a model is only a hint."""
import z3
from terms import T, b2f, isnan, SIGN

MAX = z3.RealVal(2) ** 1024 - z3.RealVal(2) ** 971
HALF = z3.RealVal(2) ** 1024 - z3.RealVal(2) ** 970      # from here on rounding gives infinity
FIN, PINF, NINF, NAN = range(4)


class NotRange(Exception):
    pass


class Range:
    def __init__(self):
        self.side = []
        self.memo = {}
        self.bmemo = {}
        self.consts = {}
        self.exact = []        # (value before rounding, result kind, value)
        self.known = []        # (is finite, value): representable values
        for c in (0.0, 1.0, -1.0, 0.5, 0.25, 2.0, 3.0):
            self.const(c)

    def const(self, c):
        if c not in self.consts:
            n, d = c.as_integer_ratio()
            v = z3.Q(n, d)
            self.consts[c] = v
            self.known.append((z3.BoolVal(True), v))
        return self.consts[c]

    def new(self, t):
        k = z3.Int('k!%d' % t.id)
        v = z3.Real(t.args[0]) if t.op == 'fvar' else z3.Real('v!%d' % t.id)
        self.side += [k >= 0, k <= 3, v <= MAX, v >= -MAX]
        return k, v

    def fp(self, t):
        if type(t) is int:
            f = b2f(t)
            if isnan(t):
                return z3.IntVal(NAN), z3.RealVal(0)
            if f in (float('inf'), float('-inf')):
                return z3.IntVal(PINF if f > 0 else NINF), z3.RealVal(0)
            return z3.IntVal(FIN), self.const(f)
        if t.id not in self.memo:
            self.memo[t.id] = self.fp1(t)
        return self.memo[t.id]

    def rounded(self, t, ok, e):
        """t is the rounding of e wherever ok holds"""
        k, v = self.new(t)
        S = self.side
        S += [z3.Implies(z3.And(ok, e >= HALF), k == PINF), z3.Implies(z3.And(ok, e <= -HALF), k == NINF),
              z3.Implies(z3.And(ok, e < HALF, e > -HALF), k == FIN)]
        self.exact.append((z3.And(ok, k == FIN), e, v))
        self.known.append((k == FIN, v))
        return k, v

    def fp1(self, t):
        op, a = t.op, t.args
        S = self.side
        if op == 'fvar':
            k, v = self.new(t)
            self.known.append((k == FIN, v))
            return k, v
        if op == 'fneg':
            k, v = self.fp(a[0])
            return z3.If(k == PINF, NINF, z3.If(k == NINF, PINF, k)), -v
        if op == 'fabs':
            k, v = self.fp(a[0])
            return z3.If(k == NINF, PINF, k), z3.If(v < 0, -v, v)
        if op == 'ite':
            c = self.bo(a[0])
            (k, v), (l, w) = self.fp(a[1]), self.fp(a[2])
            return z3.If(c, k, l), z3.If(c, v, w)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            (k, v), (l, w) = self.fp(a[0]), self.fp(a[1])
            nan = z3.Or(k == NAN, l == NAN)
            fin = z3.And(k == FIN, l == FIN)
            if op == 'fsub':
                l, w = z3.If(l == PINF, NINF, z3.If(l == NINF, PINF, l)), -w
            if op in ('fadd', 'fsub'):
                r, x = self.rounded(t, fin, v + w)
                S += [z3.Implies(z3.Or(nan, z3.And(k == PINF, l == NINF), z3.And(k == NINF, l == PINF)), r == NAN),
                      z3.Implies(z3.And(z3.Not(nan), k != FIN, z3.Or(l == FIN, l == k)), r == k), z3.Implies(z3.And(z3.Not(nan), l != FIN, z3.Or(k == FIN, l == k)), r == l)]
                return r, x
            if op == 'fmul':
                p = z3.Real('e!%d' % t.id)
                r, x = self.rounded(t, fin, p)
                S += [z3.Implies(fin, p == v * w), z3.Implies(nan, r == NAN)]
                return r, x
            p = z3.Real('e!%d' % t.id)
            dz = z3.And(fin, w != 0)
            r, x = self.rounded(t, dz, p)
            S += [z3.Implies(dz, p * w == v), z3.Implies(nan, r == NAN), z3.Implies(z3.And(fin, w == 0, v == 0), r == NAN),
                  z3.Implies(z3.And(fin, w == 0, v != 0), z3.Or(r == PINF, r == NINF)), z3.Implies(z3.And(k == FIN, z3.Or(l == PINF, l == NINF)), z3.And(r == FIN, x == 0))]
            # consequences of the definition that save nonlinear work
            S += [z3.Implies(z3.And(dz, w > 0, v >= 0), p >= 0), z3.Implies(z3.And(dz, w > 0, v <= w), p <= 1), z3.Implies(z3.And(dz, w > 0, v >= w), p >= 1),
                  z3.Implies(z3.And(dz, w > 0, 2 * v <= w), 2 * p <= 1), z3.Implies(z3.And(dz, w > 0, 2 * v >= w), 2 * p >= 1),
                  z3.Implies(z3.And(dz, w > 0, v <= 0), p <= 0)]
            return r, x
        if op == 'fn:exp':
            k, v = self.fp(a[0])
            r, x = self.new(t)
            self.known.append((r == FIN, x))
            S += [(k == NAN) == (r == NAN), r != NINF, x >= 0, z3.Implies(k == PINF, r == PINF), z3.Implies(k == NINF, z3.And(r == FIN, x == 0)),
                  z3.Implies(k == FIN, z3.And(z3.Implies(v == 0, z3.And(r == FIN, x == 1)), z3.Implies(v <= 0, z3.And(r == FIN, x <= 1)), z3.Implies(z3.And(v >= 0, r == FIN), x >= 1),
                             z3.Implies(v <= z3.Q(-6932, 10000), 2 * x <= 1), z3.Implies(v >= z3.Q(-6931, 10000), 2 * x >= z3.Q(9999, 10000)), z3.Implies(v <= 709, r == FIN), z3.Implies(v > 710, r == PINF), z3.Implies(v < -746, x == 0)))]
            return r, x
        if op == 'fn:log':
            k, v = self.fp(a[0])
            r, x = self.new(t)
            self.known.append((r == FIN, x))
            S += [z3.Implies(z3.Or(k == NAN, k == NINF, z3.And(k == FIN, v < 0)), r == NAN), z3.Implies(k == PINF, r == PINF), z3.Implies(z3.And(k == FIN, v == 0), r == NINF),
                  z3.Implies(z3.And(k == FIN, v > 0), z3.And(r == FIN, x < 710, x > -746, z3.Implies(v == 1, x == 0), z3.Implies(v >= 1, x >= 0), z3.Implies(v <= 1, x <= 0),
                             z3.Implies(v <= 2, x <= z3.Q(693147181, 10 ** 9)), z3.Implies(v <= 3, x <= z3.Q(10986122887, 10 ** 10))))]
            return r, x
        raise NotRange(op)

    def bo(self, t):
        if type(t) is int:
            return z3.BoolVal(bool(t))
        if t.id in self.bmemo:
            return self.bmemo[t.id]
        op, a = t.op, t.args
        if op == 'bnot':
            r = z3.Not(self.bo(a[0]))
        elif op == 'band':
            r = z3.And(self.bo(a[0]), self.bo(a[1]))
        elif op == 'fisnan':
            r = self.fp(a[0])[0] == NAN
        elif op in ('flt', 'fle', 'feq'):
            (k, v), (l, w) = self.fp(a[0]), self.fp(a[1])
            ok = z3.And(k != NAN, l != NAN)
            rk = lambda q: z3.If(q == PINF, 1, z3.If(q == NINF, -1, 0))
            x, y = rk(k), rk(l)
            both = z3.And(x == 0, y == 0)
            if op == 'feq':
                r = z3.And(ok, x == y, z3.Or(x != 0, v == w))
            else:
                r = z3.And(ok, z3.Or(x < y, z3.And(both, v < w)) if op == 'flt' else z3.Or(x < y, z3.And(x == y, x != 0), z3.And(both, v <= w)))
        else:
            raise NotRange(op)
        self.bmemo[t.id] = r
        return r

    def finish(self):
        """monotonic rounding against every representable value and between the results"""
        out = list(self.side)
        for ok, e, v in self.exact:
            for kn, w in self.known:
                if w is v:
                    continue
                out += [z3.Implies(z3.And(ok, kn, e <= w), v <= w), z3.Implies(z3.And(ok, kn, e >= w), v >= w)]
            for ok2, e2, v2 in self.exact:
                if v2 is not v:
                    out.append(z3.Implies(z3.And(ok, ok2, e <= e2), v <= v2))
            out += [z3.Implies(z3.And(ok, e == 0), v == 0), z3.Implies(z3.And(ok, e >= -MAX, e <= 0), v <= 0), z3.Implies(z3.And(ok, e >= 0), v >= 0)]
            # relative error of one rounding
            u, tiny = z3.Q(1, 2 ** 52), z3.Q(1, 2 ** 1073)
            ab = z3.If(e < 0, -e, e)
            out += [z3.Implies(ok, z3.And(v - e <= u * ab + tiny, e - v <= u * ab + tiny))]
        return out


def query(conds):
    """constraints whose unsatisfiability shows that conds cannot hold"""
    R = Range()
    c = [R.bo(x) for x in conds]
    return c + R.finish()
