"""Real-arithmetic reading of FP terms.

A term is turned into a rational function  num / prod(factor^k)  over *atoms* (inputs and
applications of transcendental functions) with exact rational coefficients; the laws of
exp/log/pow/hyperbolics/tan/hypot are applied while translating.  The resulting polynomial
(in)equalities, together with the axioms of the atoms that occur, are what z3 decides.
"""
from fractions import Fraction
import math
import z3
from terms import *
import terms


class TooBig(Exception):
    pass


class NotReal(Exception):
    """a bit-level operation that has no reading over the reals"""


MAXMON = 6000
# ---------------------------------------------------------------- polynomials: {mono: Fraction}; mono = ((atom,exp),...)
ZERO = {}
P1 = {(): Fraction(1)}


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > MAXMON * 4:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            r[k] = v
    r = {k: v for k, v in r.items() if v}
    if len(r) > MAXMON:
        raise TooBig()
    return r


def ppow(a, n):
    r = P1
    for _ in range(n):
        r = pmul(r, a)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def pis_const(p):
    return not p or (len(p) == 1 and () in p)


class NF:
    """num / prod(factors[i]^k); factors are polynomials made monic-ish by the context"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den      # sorted tuple of (factor id, power)


class Ctx:
    """one real-mode context (atoms, factors); positivity facts come from declared input ranges"""

    def __init__(self, lower=None):
        self.atoms = []        # (kind, payload)
        self.atom_id = {}
        self.factors = []
        self.factor_id = {}
        self.lower = lower or {}
        self.cache = {}
        self.expbase = {}
        self.names = {}
        self.cuts = {}      # term id -> name: opaque subterms

    # ------------------------------------------------------------ atoms
    def atom(self, kind, *payload):
        k = (kind,) + payload
        i = self.atom_id.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(k)
            self.atom_id[k] = i
        return i

    def var_poly(self, i):
        return {((i, 1),): Fraction(1)}

    def factor(self, p):
        """returns (scale, factor id) with p == scale * factor"""
        lead = min(p)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        k = pkey(q)
        i = self.factor_id.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(q)
            self.factor_id[k] = i
        return c, i

    # ------------------------------------------------------------ rational functions
    def const(self, c):
        return NF(pconst(c))

    def den_poly(self, den):
        r = P1
        for f, k in den:
            r = pmul(r, ppow(self.factors[f], k))
        return r

    def add(self, a, b):
        if a.den == b.den:
            return self.simp(padd(a.num, b.num), a.den)
        da, db = dict(a.den), dict(b.den)
        l = dict(da)
        for f, k in db.items():
            l[f] = max(l.get(f, 0), k)
        ma = P1
        mb = P1
        for f, k in l.items():
            ma = pmul(ma, ppow(self.factors[f], k - da.get(f, 0)))
            mb = pmul(mb, ppow(self.factors[f], k - db.get(f, 0)))
        return self.simp(padd(pmul(a.num, ma), pmul(b.num, mb)), tuple(sorted(l.items())))

    def neg(self, a):
        return NF(pscale(a.num, -1), a.den)

    def mul(self, a, b):
        d = dict(a.den)
        for f, k in b.den:
            d[f] = d.get(f, 0) + k
        return self.simp(pmul(a.num, b.num), tuple(sorted(d.items())))

    def inv(self, a):
        if not a.num:
            raise ZeroDivisionError
        num = self.den_poly(a.den)
        # split monomial content of the numerator into single-atom factors
        den = {}
        p = a.num
        mons = list(p)
        common = dict(mons[0])
        for m in mons[1:]:
            dm = dict(m)
            common = {x: min(e, dm[x]) for x, e in common.items() if x in dm}
            if not common:
                break
        scale = Fraction(1)
        if common:
            neg = tuple((x, -e) for x, e in common.items())
            p = {mmul(m, tuple(sorted(neg))): c for m, c in p.items()}
            for x, e in common.items():
                c, f = self.factor(self.var_poly(x))
                den[f] = den.get(f, 0) + e
                scale *= c ** e
        if pis_const(p):
            scale *= p[()]
        else:
            # is the numerator a product of known factors?  try the plain factor only
            c, f = self.factor(p)
            scale *= c
            den[f] = den.get(f, 0) + 1
        return self.simp(pscale(num, 1 / scale), tuple(sorted(den.items())))

    def simp(self, num, den):
        """cancel single-atom factors and equal factors"""
        if not num:
            return NF({}, ())
        num = self.reduce(num)
        if not num:
            return NF({}, ())
        if not den:
            return NF(num, den)
        d = dict(den)
        ch = False
        for f in list(d):
            p = self.factors[f]
            if len(p) == 1:
                ((x, e),) = list(p)[0]
                while d.get(f, 0) and all(any(a == x for a, _ in m) for m in num):
                    num = {mmul(m, ((x, -1),)): c for m, c in num.items()}
                    d[f] -= 1
                    ch = True
                    if not d[f]:
                        del d[f]
            else:
                while d.get(f, 0) and len(num) >= len(p):
                    q = self.exact_div(num, p)
                    if q is None:
                        break
                    num = q
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
        return NF(num, tuple(sorted(d.items())))

    def exact_div(self, a, b):
        """a / b if b divides a exactly (multivariate, lex order), else None"""
        if len(b) == len(a):
            # proportional?
            la, lb = min(a), min(b)
            c = a[la] / b[lb]
            if all(m in a and a[m] == c * v for m, v in b.items()):
                return pconst(c)
        if len(a) * len(b) > 20000:
            return None

        def key(m):
            return m
        order = lambda m: [(-x, e) for x, e in m]
        lb = max(b, key=lambda m: self.monkey(m))
        cb = b[lb]
        q = {}
        r = dict(a)
        steps = 0
        while r:
            steps += 1
            if steps > 400:
                return None
            lr = max(r, key=lambda m: self.monkey(m))
            d = dict(lr)
            for x, e in lb:
                d[x] = d.get(x, 0) - e
                if d[x] < 0:
                    return None
            m = tuple(sorted((x, e) for x, e in d.items() if e))
            c = r[lr] / cb
            q[m] = q.get(m, 0) + c
            for n, v in b.items():
                k = mmul(m, n)
                w = r.get(k, 0) - c * v
                if w:
                    r[k] = w
                else:
                    r.pop(k, None)
        return q

    def monkey(self, m):
        """lex order key: exponents of atoms in index order"""
        return tuple(sorted(((-x, e) for x, e in m), reverse=True)) and tuple((-x, e) for x, e in m)

    def reduce(self, p):
        """cos^2 -> 1 - sin^2; sqrt(q)^2 -> q when q is a polynomial"""
        while True:
            hit = None
            for m in p:
                for x, e in m:
                    if e >= 2 and self.atoms[x][0] in ('cos', 'sqrt', 'abs'):
                        if self.atoms[x][0] == 'sqrt' and self.atoms[x][2]:
                            continue
                        hit = x
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            k = self.atoms[hit]
            if k[0] == 'cos':
                s = self.atom('sin', k[1])
                sq = padd(P1, pscale(ppow(self.var_poly(s), 2), -1))
            elif k[0] == 'abs':
                sq = ppow(dict(k[1]), 2)
            else:
                sq = dict(k[1])
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(hit, 0)
                if e >= 2:
                    d[hit] = e % 2
                    base = tuple(sorted((a, b) for a, b in d.items() if b))
                    r = padd(r, pmul({base: c}, ppow(sq, e // 2)))
                else:
                    r = padd(r, {m: c})
            p = r

    # ------------------------------------------------------------ translation
    def nf(self, t):
        if type(t) is int:
            f = b2f(t)
            if f != f or f in (math.inf, -math.inf):
                raise NotReal('constant %r' % f)
            return self.const(Fraction(f))
        r = self.cache.get(t.id)
        if r is None:
            # iterative post-order for deep terms
            st = [t]
            while st:
                u = st[-1]
                if u.id in self.cache:
                    st.pop()
                    continue
                todo = [a for a in u.args if type(a) is T and a.w == 64 and a.id not in self.cache and u.op in REALOPS]
                if todo and not (u.id in self.cuts):
                    st += todo
                    continue
                self.cache[u.id] = self.nf1(u)
                st.pop()
            r = self.cache[t.id]
        return r

    def nf1(self, t):
        if t.id in self.cuts:
            return NF(self.var_poly(self.atom('var', self.cuts[t.id])))
        op, a = t.op, t.args
        if op == 'fvar':
            return NF(self.var_poly(self.atom('var', a[0])))
        if op == 'fadd':
            return self.add(self.nf(a[0]), self.nf(a[1]))
        if op == 'fneg':
            return self.neg(self.nf(a[0]))
        if op == 'fmul':
            return self.mul(self.nf(a[0]), self.nf(a[1]))
        if op == 'fdiv':
            return self.mul(self.nf(a[0]), self.inv(self.nf(a[1])))
        if op == 'fsqrt':
            return self.sqrt(self.nf(a[0]))
        if op == 'fabs':
            return self.abs(self.nf(a[0]))
        if op == 'i2f':
            x = a[0]
            if type(x) is T and x.op == 'f2i':
                return NF(self.var_poly(self.atom('trunc', self.key(self.nf(x.args[0])))))
            # an integer converted to real: opaque, finite
            return NF(self.var_poly(self.atom('opaque', t.id)))
        if op.startswith('fn:'):
            return self.fn(op[3:], [self.nf(x) for x in a])
        raise NotReal('%s in %.600s' % (op, t))

    def key(self, n):
        return (pkey(n.num), n.den)

    def from_key(self, k):
        return NF(dict(k[0]), k[1])

    def fn(self, f, a):
        x = a[0]
        if f == 'exp':
            return self.exp(x)
        if f == 'log':
            return self.log(x)
        one = self.const(1)
        if f in ('sinh', 'cosh'):
            e = self.exp(x)
            ei = self.inv(e)
            r = self.add(e, ei if f == 'cosh' else self.neg(ei))
            return self.mul(r, self.const(Fraction(1, 2)))
        if f == 'tanh':
            e = self.exp(x)
            ei = self.inv(e)
            return self.mul(self.add(e, self.neg(ei)), self.inv(self.add(e, ei)))
        if f in ('sin', 'cos', 'tan'):
            if not x.num:
                return self.const(1 if f == 'cos' else 0)
            # parity: canonical sign of the argument
            lead = min(x.num)
            sg = 1 if x.num[lead] > 0 else -1
            k = self.key(NF(pscale(x.num, sg), x.den))
            s = NF(pscale(self.var_poly(self.atom('sin', k)), sg))
            c = NF(self.var_poly(self.atom('cos', k)))
            if f == 'sin':
                return s
            if f == 'cos':
                return c
            return self.mul(s, self.inv(c))
        if f == 'pow':
            y = a[1]
            if pis_const(y.num) and not y.den:
                c = y.num.get((), Fraction(0))
                if c.denominator == 1 and abs(c) <= 12:
                    r = one
                    for _ in range(abs(int(c))):
                        r = self.mul(r, x)
                    return r if c >= 0 else self.inv(r)
                if c.denominator == 2 and abs(c) <= 12:
                    s = self.sqrt(x)
                    r = one
                    for _ in range(abs(int(c * 2))):
                        r = self.mul(r, s)
                    return r if c >= 0 else self.inv(r)
            return self.exp(self.mul(y, self.log(x)))
        if f == 'hypot':
            return self.sqrt(self.add(self.mul(x, x), self.mul(a[1], a[1])))
        if f == 'log1p':
            return self.log(self.add(one, x))
        if f == 'expm1':
            return self.add(self.exp(x), self.const(-1))
        if f == 'exp2':
            return self.exp(self.mul(x, self.log(self.const(2))))
        if f == 'log2':
            return self.mul(self.log(x), self.inv(self.log(self.const(2))))
        if f == 'log10':
            return self.mul(self.log(x), self.inv(self.log(self.const(10))))
        if f in ('asinh',):
            return self.log(self.add(x, self.sqrt(self.add(self.mul(x, x), one))))
        if f == 'acosh':
            return self.log(self.add(x, self.sqrt(self.add(self.mul(x, x), self.const(-1)))))
        if f == 'atanh':
            return self.mul(self.const(Fraction(1, 2)),
                            self.log(self.mul(self.add(one, x), self.inv(self.add(one, self.neg(x))))))
        if f == 'erfc':
            return self.add(one, self.neg(self.fn('erf', [x])))
        if f in ('atan', 'asin', 'erf', 'cbrt'):
            # odd functions
            if not x.num:
                return self.const(0)
            lead = min(x.num)
            sg = 1 if x.num[lead] > 0 else -1
            return NF(pscale(self.var_poly(self.atom(f, self.key(NF(pscale(x.num, sg), x.den)))), sg))
        if len(a) == 1:
            return NF(self.var_poly(self.atom(f, self.key(x))))
        return NF(self.var_poly(self.atom(f, *[self.key(y) for y in a])))

    def positive_atom(self, x):
        k = self.atoms[x]
        if k[0] in ('E', 'Econst', 'Egen'):
            return True
        if k[0] == 'var':
            lo = self.lower.get(k[1])
            return lo is not None and lo >= 0
        if k[0] == 'sqrt':
            return True
        return False

    def exp(self, x):
        if not x.num:
            return self.const(1)
        if x.den:
            k = self.key(x)
            lead = min(x.num)
            if x.num[lead] < 0:
                return self.inv(self.exp(self.neg(x)))
            return NF(self.var_poly(self.atom('Egen', k)))
        r = self.const(1)
        for m, c in sorted(x.num.items()):
            # exp(c*log(A)) = A^c
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'log' and c.denominator == 1 and abs(c) <= 12:
                A = self.from_key(self.atoms[m[0][0]][1])
                f = A if c > 0 else self.inv(A)
                for _ in range(abs(int(c))):
                    r = self.mul(r, f)
                continue
            if m == ():
                sg = 1 if c > 0 else -1
                at = NF(self.var_poly(self.atom('Econst', abs(c))))
                r = self.mul(r, at if sg > 0 else self.inv(at))
                continue
            n, base = self.exp_unit(m, c)
            at = NF(self.var_poly(self.atom('E', m, base)))
            f = at if n > 0 else self.inv(at)
            for _ in range(abs(n)):
                r = self.mul(r, f)
        return r

    def exp_unit(self, m, c):
        """c*m = n * (base*m)"""
        bs = self.expbase.setdefault(m, [])
        for b in bs:
            q = c / b
            if q.denominator == 1 and abs(q) <= 24:
                return int(q), b
        # prefer unit coefficients 1 or 1/2
        for b in (Fraction(1), Fraction(1, 2)):
            q = c / b
            if q.denominator == 1 and abs(q) <= 24:
                bs.append(b)
                return int(q), b
        b = abs(c)
        bs.append(b)
        return (1 if c > 0 else -1), b

    def log(self, x):
        if pis_const(x.num) and not x.den:
            c = x.num.get((), Fraction(0))
            if c == 1:
                return self.const(0)
            return NF(self.var_poly(self.atom('log', self.key(x))))
        # log of a product of positive atoms
        if len(x.num) == 1 and all(len(self.factors[f]) == 1 for f, _ in x.den):
            (m, c), = x.num.items()
            ex = dict(m)
            for f, k in x.den:
                ((y, e),) = list(self.factors[f])[0]
                ex[y] = ex.get(y, 0) - k * e
            if c > 0 and all(self.positive_atom(y) for y in ex) and (c != 1 or len(ex) > 1 or any(e != 1 for e in ex.values())
                                                                     or any(self.atoms[y][0] in ('E', 'sqrt', 'Egen', 'Econst') for y in ex)):
                r = self.const(0)
                if c != 1:
                    r = self.log(self.const(c))
                for y, e in ex.items():
                    k = self.atoms[y]
                    if k[0] == 'E':
                        l = NF({k[1]: k[2]})
                    elif k[0] == 'Egen':
                        l = self.from_key(k[1])
                    elif k[0] == 'Econst':
                        l = self.const(k[1])
                    elif k[0] == 'sqrt':
                        l = self.mul(self.const(Fraction(1, 2)), self.log(NF(dict(k[1]), k[2])))
                    else:
                        l = NF(self.var_poly(self.atom('log', self.key(NF(self.var_poly(y))))))
                    r = self.add(r, self.mul(l, self.const(e)))
                return r
        # log(1/den) or log(num/den) with more factors in den only: use -log of the inverse when num is constant 1
        if x.num == P1 and x.den:
            return self.neg(self.log(NF(self.den_poly(x.den))))
        # pull exp atoms common to numerator out:  log(E*(...)) = m + log(...)
        return NF(self.var_poly(self.atom('log', self.key(x))))

    def sqrt(self, x):
        if not x.num:
            return self.const(0)
        if pis_const(x.num) and not x.den:
            c = x.num[()]
            if c > 0:
                p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if p * p == c.numerator and q * q == c.denominator:
                    return self.const(Fraction(p, q))
        # perfect square of a single positive monomial
        if len(x.num) == 1 and not x.den:
            (m, c), = x.num.items()
            if c == 1 and all(e % 2 == 0 and self.positive_atom(y) for y, e in m):
                return NF({tuple((y, e // 2) for y, e in m): Fraction(1)})
            if c == 1 and len(m) == 1 and m[0][1] == 2:
                return self.abs(NF(self.var_poly(m[0][0])))
        return NF(self.var_poly(self.atom('sqrt', pkey(x.num), x.den)))

    def abs(self, x):
        if not x.num:
            return x
        if pis_const(x.num) and not x.den:
            return self.const(abs(x.num[()]))
        if len(x.num) == 1 and not x.den:
            (m, c), = x.num.items()
            if all(self.positive_atom(y) for y, e in m):
                return NF({m: abs(c)})
        if x.den:
            d = NF(self.den_poly(x.den))
            return self.mul(self.abs(NF(x.num)), self.inv(self.abs(d)))
        lead = min(x.num)
        c = x.num[lead]
        q = {m: v / c for m, v in x.num.items()}
        return NF(pscale(self.var_poly(self.atom('abs', pkey(q))), abs(c)))

    # ------------------------------------------------------------ to z3
    def zatom(self, i):
        k = self.atoms[i]
        nm = k[1] if k[0] == 'var' else '%s!%d' % (k[0], i)
        return z3.Real(nm)

    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            fs = [] if c == 1 and m else [z3.RealVal(str(c))]
            for x, e in m:
                z = self.zatom(x)
                fs += [z] * e
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def znf(self, n):
        """(num, den) z3 expressions"""
        return self.zpoly(n.num), self.zpoly(self.den_poly(n.den))

    def atoms_of(self, polys):
        """transitive set of atoms"""
        seen = set()
        st = list(polys)
        while st:
            p = st.pop()
            for m in p:
                for x, e in m:
                    if x in seen:
                        continue
                    seen.add(x)
                    for q in self.sub_polys(x):
                        st.append(q)
        return seen

    def sub_polys(self, x):
        k = self.atoms[x]
        out = []
        if k[0] in ('var', 'Econst'):
            return out
        if k[0] == 'E':
            return [{k[1]: k[2]}]
        if k[0] == 'sqrt':
            return [dict(k[1])] + [self.factors[f] for f, _ in k[2]]
        if k[0] == 'abs':
            return [dict(k[1])]
        for kk in k[1:]:
            out.append(dict(kk[0]))
            out += [self.factors[f] for f, _ in kk[1]]
        return out

    def axioms(self, atoms, level=1):
        """facts about the atoms; all are theorems of real analysis"""
        ax = []
        atoms = sorted(atoms)
        exps = []
        logs = []
        for x in atoms:
            k = self.atoms[x]
            z = self.zatom(x)
            if k[0] == 'E':
                arg = self.zpoly({k[1]: k[2]})
                exps.append((z, arg))
                ax.append(z > 0)
                ax.append(z >= 1 + arg)
                ax.append(z3.Implies(arg < 0, z < 1))
                ax.append(z * (1 - arg) <= 1)        # exp(-t) >= 1-t
            elif k[0] == 'Egen':
                n, d = self.znf(self.from_key(k[1]))
                ax.append(z > 0)
                t = n / d
                exps.append((z, t))
                ax.append(z >= 1 + t)
                ax.append(z3.Implies(t < 0, z < 1))
            elif k[0] == 'Econst':
                lo, hi = ebounds(k[1])
                ax += [z >= z3.RealVal(str(lo)), z <= z3.RealVal(str(hi))]
            elif k[0] == 'sqrt':
                n = self.zpoly(dict(k[1]))
                d = self.zpoly(self.den_poly(k[2]))
                ax += [z >= 0, z * z * d == n]
            elif k[0] == 'abs':
                n = self.zpoly(dict(k[1]))
                ax += [z >= 0, z3.Or(z == n, z == -n)]
            elif k[0] in ('sin', 'cos'):
                s, c = self.atom('sin', k[1]), self.atom('cos', k[1])
                zs, zc = self.zatom(s), self.zatom(c)
                ax += [zs * zs + zc * zc == 1, zs <= 1, zs >= -1, zc <= 1, zc >= -1]
                n, d = self.znf(self.from_key(k[1]))
                t = n / d if self.from_key(k[1]).den else n
                ax += [z3.Implies(z3.And(t > -1.5707, t < 1.5707), zc > 0), z3.Implies(z3.And(t > 0, t < 3.1415), zs > 0),
                       z3.Implies(z3.And(t < 0, t > -3.1415), zs < 0)]
            elif k[0] == 'log':
                A = self.from_key(k[1])
                n, d = self.znf(A)
                if pis_const(A.num) and not A.den:
                    lo, hi = lbounds(A.num[()])
                    ax += [z >= z3.RealVal(str(lo)), z <= z3.RealVal(str(hi))]
                else:
                    t = n / d if A.den else n
                    logs.append((z, t))
                    ax += [z3.Implies(t > 0, z <= t - 1), z3.Implies(t > 1, z > 0), z3.Implies(z3.And(t > 0, t < 1), z < 0),
                           z3.Implies(t == 1, z == 0)]
            elif k[0] == 'erf':
                n, d = self.znf(self.from_key(k[1]))
                ax += [z < 1, z > -1]
            elif k[0] == 'atan':
                ax += [z < z3.RealVal('1.5707963267948967'), z > z3.RealVal('-1.5707963267948967')]
            elif k[0] == 'trunc':
                n, d = self.znf(self.from_key(k[1]))
                t = n / d
                ax += [z3.Implies(t >= 0, z3.And(z <= t, z > t - 1)), z3.Implies(t < 0, z3.And(z >= t, z < t + 1)),
                       z == z3.ToReal(z3.ToInt(z))]
        if level > 1:
            for i in range(len(exps)):
                for j in range(i):
                    (a, s), (b, t) = exps[i], exps[j]
                    ax += [z3.Implies(s < t, a < b), z3.Implies(t < s, b < a), z3.Implies(s == t, a == b)]
            for i in range(len(logs)):
                for j in range(i):
                    (a, s), (b, t) = logs[i], logs[j]
                    ax += [z3.Implies(z3.And(s > 0, t > s), a < b), z3.Implies(z3.And(t > 0, s > t), b < a),
                           z3.Implies(s == t, a == b)]
        return ax


REALOPS = {'fadd', 'fneg', 'fmul', 'fdiv', 'fsqrt', 'fabs'} | {'fn:' + n for n in terms.UN + terms.BIN}


def ebounds(c):
    import mpmath
    mpmath.mp.prec = 200
    v = mpmath.exp(mpmath.mpf(c.numerator) / c.denominator)
    m = Fraction(int(v * 2 ** 100), 2 ** 100) if v < 2 ** 60 else Fraction(int(v))
    return m - Fraction(1, 2 ** 90) * max(1, m), m + Fraction(1, 2 ** 90) * max(1, m)


def lbounds(c):
    import mpmath
    mpmath.mp.prec = 200
    v = mpmath.log(mpmath.mpf(c.numerator) / c.denominator)
    m = Fraction(int(v * 2 ** 120), 2 ** 120)
    return m - Fraction(1, 2 ** 100), m + Fraction(1, 2 ** 100)


# ---------------------------------------------------------------- boolean terms over the reals
class RealSolver:
    def __init__(self, lower=None, timeout=5000):
        self.lower = lower or {}
        self.timeout = timeout

    def ctx(self):
        return Ctx(self.lower)

    def cmp(self, ctx, op, a, b, polys):
        """z3 constraint  a op b ; polys collects the polynomials used"""
        d = ctx.add(ctx.nf(a), ctx.neg(ctx.nf(b)))
        polys.append(d.num)
        n = ctx.zpoly(d.num)
        if d.den:
            dp = ctx.den_poly(d.den)
            polys.append(dp)
            dz = ctx.zpoly(dp)
            if op == '==':
                return n == 0
            return n * dz < 0 if op == '<' else n * dz <= 0
        if op == '==':
            return n == 0
        return n < 0 if op == '<' else n <= 0

    def bool(self, ctx, t, polys):
        if type(t) is int:
            return z3.BoolVal(bool(t))
        op, a = t.op, t.args
        if op == 'bnot':
            return z3.Not(self.bool(ctx, a[0], polys))
        if op == 'band':
            return z3.And(self.bool(ctx, a[0], polys), self.bool(ctx, a[1], polys))
        if op == 'flt':
            x = self.inf_cmp(a)
            if x is not None:
                return z3.BoolVal(x)
            return self.cmp(ctx, '<', a[0], a[1], polys)
        if op == 'fle':
            x = self.inf_cmp(a)
            if x is not None:
                return z3.BoolVal(x)
            return self.cmp(ctx, '<=', a[0], a[1], polys)
        if op == 'feq':
            for u, v in ((a[0], a[1]), (a[1], a[0])):
                if type(u) is T and u.op == 'fadd' and any(w is v for w in u.args):
                    # x + y == x asks whether y is lost in the rounding of x, not whether it is 0
                    y = u.args[0] if u.args[1] is v else u.args[1]
                    ay, ax = fabs(y), fabs(v)
                    lost = self.cmp(ctx, '<', ay, fmul(ax, f2b(2.0 ** -55)), polys)
                    kept = self.cmp(ctx, '<', fmul(ax, f2b(2.0 ** -52)), ay, polys)
                    zero = self.cmp(ctx, '==', y, 0, polys)
                    return z3.Or(zero, lost, z3.And(z3.Not(kept), z3.Bool('lost!%d' % u.id)))
            return self.cmp(ctx, '==', a[0], a[1], polys)
        if op == 'fisnan':
            return z3.BoolVal(False)
        if op == 'ite':
            return z3.If(self.bool(ctx, a[0], polys), self.bool(ctx, a[1], polys), self.bool(ctx, a[2], polys))
        raise NotReal('%s in %.600s' % (op, t))

    def inf_cmp(self, a):
        """comparison against +-infinity / huge"""
        x, y = a
        if type(y) is int and b2f(y) >= 1e308:
            return True if type(x) is T else None
        if type(y) is int and b2f(y) <= -1e308:
            return False if type(x) is T else None
        if type(x) is int and b2f(x) >= 1e308:
            return False if type(y) is T else None
        if type(x) is int and b2f(x) <= -1e308:
            return True if type(y) is T else None
        return None

    def guards(self, t, out, seen):
        """definedness of the FP operations inside t: [(cond-kind, term)]"""
        st = [t]
        while st:
            u = st.pop()
            if type(u) is int or u.id in seen:
                continue
            seen.add(u.id)
            if u.op == 'fdiv':
                out.append(('nz', u.args[1], u))
            elif u.op == 'fsqrt':
                out.append(('nn', u.args[0], u))
            elif u.op == 'fn:log':
                out.append(('pos', u.args[0], u))
            elif u.op == 'fn:pow':
                out.append(('pos', u.args[0], u))
            elif u.op == 'fn:acosh':
                out.append(('ge1', u.args[0], u))
            elif u.op in ('fn:atanh',):
                out.append(('lt1', u.args[0], u))
            elif u.op in ('fn:asin', 'fn:acos'):
                out.append(('le1', u.args[0], u))
            elif u.op == 'fn:tan':
                out.append(('cosnz', u.args[0], u))
            for a in u.args:
                if type(a) is T:
                    st.append(a)
        return out

    def gz(self, ctx, kind, a, polys):
        one = ONE
        if type(a) is int:
            f = b2f(a)
            ok = {'nz': f != 0, 'nn': f >= 0, 'pos': f > 0, 'ge1': f >= 1, 'lt1': -1 < f < 1, 'le1': -1 <= f <= 1,
                  'cosnz': True}[kind]
            return z3.BoolVal(ok)
        if kind == 'nz':
            return z3.Not(self.cmp(ctx, '==', a, 0, polys))
        if kind == 'nn':
            return self.cmp(ctx, '<=', 0, a, polys)
        if kind == 'pos':
            return self.cmp(ctx, '<', 0, a, polys)
        if kind == 'ge1':
            return self.cmp(ctx, '<=', one, a, polys)
        if kind == 'lt1':
            return z3.And(self.cmp(ctx, '<', MONE, a, polys), self.cmp(ctx, '<', a, one, polys))
        if kind == 'le1':
            return z3.And(self.cmp(ctx, '<=', MONE, a, polys), self.cmp(ctx, '<=', a, one, polys))
        if kind == 'cosnz':
            return z3.Not(self.cmp(ctx, '==', call_libm('cos', a), 0, polys))
