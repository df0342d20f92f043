"""Hash-consed term DAG.  Concrete values are plain Python ints (unsigned, masked by the caller's
width); symbolic values are T objects.  FP values are 64-bit (or 32-bit) words; FP operations are
term operators with IEEE meaning.  Every simplification here is exact for IEEE-754 binary64
round-to-nearest, up to the payload/sign of a NaN."""
import struct, ctypes, math

M64 = (1 << 64) - 1
M32 = (1 << 32) - 1
SIGN = 1 << 63
QNAN = 0x7ff8000000000000


class T:
    __slots__ = ('op', 'args', 'w', 'id', 'z3b', 'z3r', 'norm', 'deps')

    def __repr__(self):
        return show(self)


_table = {}
_next = [1]


def reset():
    _table.clear()
    _next[0] = 1


def mk(op, w, *args):
    key = (op, w) + tuple(('#', a) if type(a) is int else (a.id if type(a) is T else a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.args = args
        t.id = _next[0]
        _next[0] += 1
        t.z3b = t.z3r = t.norm = t.deps = None
        _table[key] = t
    return t


def show(t, depth=6):
    if type(t) is int:
        return hex(t) if t > 9 else str(t)
    if type(t) is not T:
        return repr(t)
    if t.op in ('var', 'fvar'):
        return t.args[0]
    if depth == 0:
        return '..'
    return '(%s %s)' % (t.op, ' '.join(showf(a, depth - 1) if t.op[0] == 'f' else show(a, depth - 1) for a in t.args))


def showf(a, depth):
    if type(a) is int:
        return repr(b2f(a))
    return show(a, depth)


# ------------------------------------------------------------------ conversions
_pd = struct.Struct('<d')
_pq = struct.Struct('<Q')
_pf = struct.Struct('<f')
_pi = struct.Struct('<I')


def b2f(b):
    return _pd.unpack(_pq.pack(b & M64))[0]


def f2b(f):
    if f != f:
        return QNAN
    return _pq.unpack(_pd.pack(f))[0]


def b2s(b):
    return _pf.unpack(_pi.pack(b & M32))[0]


def s2b(f):
    try:
        return _pi.unpack(_pf.pack(f))[0]
    except OverflowError:
        return 0x7f800000 if f > 0 else 0xff800000


def isnan(b):
    return (b & ~SIGN & M64) > 0x7ff0000000000000


def key_of(a):
    return (0, a) if type(a) is int else (1, a.id)


# ------------------------------------------------------------------ bit-vector ops
def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def add(a, b, w=64):
    m = (1 << w) - 1
    if type(a) is int:
        if type(b) is int:
            return (a + b) & m
        a, b = b, a
    if type(b) is int:
        b &= m
        if b == 0:
            return a
        if a.op == 'add' and type(a.args[1]) is int:
            return add(a.args[0], (a.args[1] + b) & m, w)
        return mk('add', w, a, b)
    if b.op == 'add' and type(b.args[1]) is int:
        return add(add(a, b.args[0], w), b.args[1], w)
    if a.op == 'add' and type(a.args[1]) is int:
        return add(add(a.args[0], b, w), a.args[1], w)
    if a.id > b.id:
        a, b = b, a
    return mk('add', w, a, b)


def neg(a, w=64):
    if type(a) is int:
        return -a & ((1 << w) - 1)
    return mul(a, (1 << w) - 1, w)


def sub(a, b, w=64):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << w) - 1)
    if type(b) is int:
        return add(a, -b & ((1 << w) - 1), w)
    if a is b:
        return 0
    return mk('sub', w, a, b)


def mul(a, b, w=64):
    m = (1 << w) - 1
    if type(a) is int:
        if type(b) is int:
            return (a * b) & m
        a, b = b, a
    if type(b) is int:
        b &= m
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'mul' and type(a.args[1]) is int:
            return mul(a.args[0], a.args[1] * b & m, w)
        return mk('mul', w, a, b)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', w, a, b)


def sdiv(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sx(a, w), sx(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
    return mk('sdiv', w, a, b)


def smod(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sx(a, w), sx(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & ((1 << w) - 1)
    return mk('srem', w, a, b)


def udiv(a, b, w):
    if type(a) is int and type(b) is int and b:
        return a // b
    return mk('udiv', w, a, b)


def umod(a, b, w):
    if type(a) is int and type(b) is int and b:
        return a % b
    return mk('urem', w, a, b)


def and_(a, b, w):
    if w == 1:
        return band(a, b)
    if type(a) is T and type(b) is T and a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return zext(and_(a.args[0], b.args[0], a.args[0].w), a.args[0].w, w)
    if type(a) is int and type(b) is int:
        return a & b
    if type(a) is int:
        a, b = b, a
    m = (1 << w) - 1
    if type(b) is int:
        b &= m
        if b == 0:
            return 0
        if b == m:
            return a
        # sign clearing / extraction of a double
        if w == 64 and b == m >> 1 and fplike(a):
            return fabs(a)
        if w == 64 and b == SIGN and nonneg(a):
            return 0
        # low masks
        if b & (b + 1) == 0:
            n = b.bit_length()
            return zext(extract(a, 0, n), n, w)
    elif a is b:
        return a
    return mk('and', w, a, b)


def fplike(a):
    return a.op in ('fvar', 'fadd', 'fmul', 'fdiv', 'fneg', 'fabs', 'fsqrt', 'i2f') or a.op.startswith('fn:')


def nonneg(a):
    """sign bit known to be clear"""
    return a.op == 'fabs' or a.op == 'zext'


def or_(a, b, w):
    if w == 1:
        return bor(a, b)
    if type(a) is int and type(b) is int:
        return a | b
    if type(a) is int:
        a, b = b, a
    m = (1 << w) - 1
    if type(b) is int:
        b &= m
        if b == 0:
            return a
        if b == m:
            return m
    elif a is b:
        return a
    elif w == 64 and a.op == 'and' and a.args[1] == SIGN and nonneg(b):
        return call_libm('copysign', b, a.args[0])
    elif w == 64 and b.op == 'and' and b.args[1] == SIGN and nonneg(a):
        return call_libm('copysign', a, b.args[0])
    elif a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return zext(or_(a.args[0], b.args[0], a.args[0].w), a.args[0].w, w)
    return mk('or', w, a, b)


def xor(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    if type(a) is int:
        a, b = b, a
    m = (1 << w) - 1
    if type(b) is int:
        b &= m
        if b == 0:
            return a
        if w == 64 and b == SIGN:
            return fneg(a)
        if b == m:
            return not_(a, w)
        if w == 1 and b == 1:
            return bnot(a)
        if b == 1 and a.op == 'zext' and a.args[0].w == 1:
            return zext(bnot(a.args[0]), 1, w)
    elif a is b:
        return 0
    return mk('xor', w, a, b)


def not_(a, w):
    if type(a) is int:
        return ~a & ((1 << w) - 1)
    if w == 1:
        return bnot(a)
    if a.op == 'not':
        return a.args[0]
    return mk('not', w, a)


def shl(a, n, w):
    if type(n) is int:
        n &= (w - 1)
        if type(a) is int:
            return (a << n) & ((1 << w) - 1)
        return mul(a, 1 << n, w)
    return mk('shl', w, a, n)


def lshr(a, n, w):
    if type(n) is int:
        n &= (w - 1)
        if type(a) is int:
            return a >> n
        if n == 0:
            return a
        return zext(extract(a, n, w - n), w - n, w)
    return mk('lshr', w, a, n)


def ashr(a, n, w):
    if type(n) is int:
        n &= (w - 1)
        if type(a) is int:
            return (sx(a, w) >> n) & ((1 << w) - 1)
        if n == 0:
            return a
    return mk('ashr', w, a, n)


def extract(a, lo, n):
    """n bits from bit lo"""
    if type(a) is int:
        return (a >> lo) & ((1 << n) - 1)
    if lo == 0 and n == a.w:
        return a
    if a.op == 'cat':
        off = 0
        parts = []
        for p, pw in zip(a.args[0::2], a.args[1::2]):
            s, e = max(lo, off), min(lo + n, off + pw)
            if s < e:
                parts.append((extract(p, s - off, e - s), e - s))
            off += pw
        return cat(parts)
    if a.op == 'extract':
        return extract(a.args[0], a.args[1] + lo, n)
    if a.op in ('zext', 'sext'):
        iw = a.args[0].w
        if lo + n <= iw:
            return extract(a.args[0], lo, n)
        if a.op == 'zext' and lo >= iw:
            return 0
        if lo == 0:
            return (zext if a.op == 'zext' else sext)(a.args[0], iw, n)
    if a.op == 'ite':
        x, y = a.args[1], a.args[2]
        if type(x) is int or type(y) is int:
            return ite(a.args[0], extract(x, lo, n), extract(y, lo, n), n)
    if n < a.w and a.op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[a.op]
        return f(extract(a.args[0], lo, n), extract(a.args[1], lo, n), n)
    if lo == 0 and a.op in ('add', 'sub', 'mul') and n in (32,):
        f = {'add': add, 'sub': sub, 'mul': mul}[a.op]
        return f(extract(a.args[0], 0, n), extract(a.args[1], 0, n), n)
    return mk('extract', n, a, lo)


def cat(parts):
    """parts: [(value, width)] low to high"""
    out = []
    for v, n in parts:
        if type(v) is not int and v.op == 'cat':
            out += list(zip(v.args[0::2], v.args[1::2]))
        else:
            out.append((v, n))
    m = []
    for v, n in out:
        if m:
            pv, pn = m[-1]
            if type(v) is int and type(pv) is int:
                m[-1] = (pv | v << pn, pn + n)
                continue
            if type(v) is T and type(pv) is T and v.op == 'extract':
                if pv.op == 'extract' and pv.args[0] is v.args[0] and pv.args[1] + pn == v.args[1]:
                    m[-1] = (extract(v.args[0], pv.args[1], pn + n), pn + n)
                    continue
        m.append((v, n))
    if len(m) == 1:
        return m[0][0]
    w = sum(n for _, n in m)
    if len(m) == 2 and type(m[1][0]) is int and m[1][0] == 0:
        return zext(m[0][0], m[0][1], w)
    flat = []
    for v, n in m:
        flat += [v, n]
    return mk('cat', w, *flat)


def zext(a, frm, to):
    if type(a) is int:
        return a & ((1 << frm) - 1)
    if frm == to:
        return a
    if a.w != frm:
        a = extract(a, 0, frm)
        if type(a) is int:
            return a
    if a.op == 'zext':
        return zext(a.args[0], a.args[0].w, to)
    return mk('zext', to, a)


def sext(a, frm, to):
    if type(a) is int:
        return sx(a & ((1 << frm) - 1), frm) & ((1 << to) - 1)
    if frm == to:
        return a
    if a.w != frm:
        a = extract(a, 0, frm)
        if type(a) is int:
            return sext(a, frm, to)
    if a.op == 'sext':
        return sext(a.args[0], a.args[0].w, to)
    if a.op == 'zext':
        return zext(a.args[0], a.args[0].w, to)
    return mk('sext', to, a)


# ------------------------------------------------------------------ booleans (w == 1)
def bnot(a):
    if type(a) is int:
        return a ^ 1
    if a.op == 'bnot':
        return a.args[0]
    return mk('bnot', 1, a)


def band(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    if a is b:
        return a
    if (a.op == 'bnot' and a.args[0] is b) or (b.op == 'bnot' and b.args[0] is a):
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('band', 1, a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if w == 1:
        if type(a) is int and type(b) is int:
            return c if a else bnot(c)
    return mk('ite', w, c, a, b)


def eq(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if type(b) is int:
        # zext(bool) == 0/1 and friends
        if a.op == 'zext':
            iw = a.args[0].w
            if b >> iw:
                return 0
            if iw == 1:
                return a.args[0] if b else bnot(a.args[0])
            return eq(a.args[0], b, iw)
        if w == 1:
            return a if b else bnot(a)
        if a.op == 'sext':
            iw = a.args[0].w
            if sext(b & ((1 << iw) - 1), iw, w) != b:
                return 0
            return eq(a.args[0], b & ((1 << iw) - 1), iw)
        if a.op == 'ite' and type(a.args[1]) is int and type(a.args[2]) is int:
            c, x, y = a.args
            if x == b and y != b:
                return c
            if y == b and x != b:
                return bnot(c)
            if x != b and y != b:
                return 0
        if a.op == 'add' and type(a.args[1]) is int:
            return eq(a.args[0], (b - a.args[1]) & ((1 << w) - 1), w)
        if a.op == 'and' and type(a.args[1]) is int and b & ~a.args[1]:
            return 0
        return mk('eq', 1, a, b)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 1, a, b)


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if sx(a & ((1 << w) - 1), w) < sx(b & ((1 << w) - 1), w) else 0
    if a is b:
        return 0
    if type(b) is int and type(a) is T and a.op == 'zext':
        if sx(b, w) <= 0:
            return 0
        if b >> a.args[0].w:
            return 1
        return ult(a.args[0], b, a.args[0].w)
    if type(a) is int and type(b) is T and b.op == 'zext':
        if sx(a, w) < 0:
            return 1
        if a >> b.args[0].w:
            return 0
        return ult(a, b.args[0], b.args[0].w)
    return mk('slt', 1, a, b)


def sle(a, b, w):
    return bnot(slt(b, a, w))


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if type(b) is int and b == 0:
        return 0
    if w == 1:
        return band(bnot(a), b)
    return mk('ult', 1, a, b)


def ule(a, b, w):
    return bnot(ult(b, a, w))


# ------------------------------------------------------------------ floating point (binary64)
libm = ctypes.CDLL('libm.so.6')
UN = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'log',
      'log10', 'log2', 'exp2', 'log1p', 'expm1', 'erf', 'erfc', 'lgamma', 'tgamma', 'floor', 'ceil', 'trunc', 'round',
      'rint', 'nearbyint', 'cbrt', 'sqrt']
BIN = ['pow', 'atan2', 'hypot', 'fmod', 'fmin', 'fmax', 'copysign']
_lm = {}
for n in UN:
    f = getattr(libm, n)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double]
    _lm[n] = f
for n in BIN:
    f = getattr(libm, n)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double, ctypes.c_double]
    _lm[n] = f


def call_libm(name, *a):
    if all(type(x) is int for x in a):
        return f2b(_lm[name](*[b2f(x) for x in a]))
    if name == 'sqrt':
        return fsqrt(a[0])
    if name == 'hypot':
        a = [fabs(x) for x in a]
        if 0 in a:
            return a[1] if a[0] == 0 else a[0]
        a.sort(key=lambda x: x if type(x) is int else -x.id)
    if name == 'copysign':
        return ite(eq(extract(a[1], 63, 1), 1, 1), fneg(fabs(a[0])), fabs(a[0]), 64)
    return mk('fn:' + name, 64, *a)


def fneg(a):
    if type(a) is int:
        return a ^ SIGN
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', 64, a)


def fabs(a):
    if type(a) is int:
        return a & ~SIGN & M64
    if a.op == 'fneg':
        return fabs(a.args[0])
    if a.op in ('fabs',):
        return a
    if a.op == 'ite':
        return ite(a.args[0], fabs(a.args[1]), fabs(a.args[2]), 64)
    return mk('fabs', 64, a)


ONE = f2b(1.0)
MONE = f2b(-1.0)
TWO = f2b(2.0)
NZERO = SIGN


def fadd(a, b):
    if type(a) is int and type(b) is int:
        return f2b(b2f(a) + b2f(b))
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == NZERO:
            return a
        if isnan(b):
            return QNAN
    elif a is b:
        return fmul(a, TWO)
    elif a.id > b.id:
        a, b = b, a
    # sign pulled out when both are negations: -(x)+-(y) == -(x+y) except for the sign of a zero sum (0+-0): keep
    return mk('fadd', 64, a, b)


def fsub(a, b):
    if type(a) is int and type(b) is int:
        return f2b(b2f(a) - b2f(b))
    return fadd(a, fneg(b))


def fmul(a, b):
    if type(a) is int and type(b) is int:
        return f2b(b2f(a) * b2f(b))
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == ONE:
            return a
        if b == MONE:
            return fneg(a)
        if isnan(b):
            return QNAN
        if b & SIGN:
            return fneg(fmul(a, b ^ SIGN))
        if a.op == 'fneg':
            return fneg(fmul(a.args[0], b))
        return mk('fmul', 64, a, b)
    if a.op == 'fneg':
        return fneg(fmul(a.args[0], b))
    if b.op == 'fneg':
        return fneg(fmul(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return mk('fmul', 64, a, b)


def fdiv(a, b):
    if type(a) is int and type(b) is int:
        x, y = b2f(a), b2f(b)
        if y == 0:
            if x == 0 or x != x:
                return QNAN
            s = (a ^ b) & SIGN
            return 0x7ff0000000000000 | s
        if x in (math.inf, -math.inf) and y in (math.inf, -math.inf):
            return QNAN
        return f2b(x / y)
    if type(b) is int:
        if b == ONE:
            return a
        if b == MONE:
            return fneg(a)
        if isnan(b):
            return QNAN
        if b & SIGN:
            return fneg(fdiv(a, b ^ SIGN))
    elif b.op == 'fneg':
        return fneg(fdiv(a, b.args[0]))
    if type(a) is int:
        if isnan(a):
            return QNAN
        if a & SIGN:
            return fneg(fdiv(a ^ SIGN, b))
    elif a.op == 'fneg':
        return fneg(fdiv(a.args[0], b))
    return mk('fdiv', 64, a, b)


def fsqrt(a):
    if type(a) is int:
        x = b2f(a)
        if x < 0:
            return QNAN
        return f2b(math.sqrt(x))
    return mk('fsqrt', 64, a)


def fmaxmin(a, b, mx):
    # x86 maxsd/minsd: dst = (a OP b) ? a : b
    c = flt(b, a) if mx else flt(a, b)
    return ite(c, a, b, 64)


def flt(a, b):
    if type(a) is int and type(b) is int:
        return 1 if b2f(a) < b2f(b) else 0
    if type(a) is T and type(b) is T and a is b:
        return 0
    if type(a) is int and isnan(a) or type(b) is int and isnan(b):
        return 0
    # -x < -y  <=>  y < x
    na = a ^ SIGN if type(a) is int else (a.args[0] if a.op == 'fneg' else None)
    nb = b ^ SIGN if type(b) is int else (b.args[0] if b.op == 'fneg' else None)
    if na is not None and nb is not None and (type(na) is T and type(a) is T and a.op == 'fneg' or type(b) is T and b.op == 'fneg'):
        return flt(nb, na)
    return mk('flt', 1, a, b)


def fle(a, b):
    if type(a) is int and type(b) is int:
        return 1 if b2f(a) <= b2f(b) else 0
    if type(a) is int and isnan(a) or type(b) is int and isnan(b):
        return 0
    na = a ^ SIGN if type(a) is int else (a.args[0] if a.op == 'fneg' else None)
    nb = b ^ SIGN if type(b) is int else (b.args[0] if b.op == 'fneg' else None)
    if na is not None and nb is not None and (type(a) is T and a.op == 'fneg' or type(b) is T and b.op == 'fneg'):
        return fle(nb, na)
    return mk('fle', 1, a, b)


def feq(a, b):
    if type(a) is int and type(b) is int:
        return 1 if b2f(a) == b2f(b) else 0
    if type(a) is int and isnan(a) or type(b) is int and isnan(b):
        return 0
    if key_of(a) > key_of(b):
        a, b = b, a
    return mk('feq', 1, a, b)


def never_nan(t):
    return type(t) is int and not isnan(t)


def funord(a, b):
    if type(a) is int and type(b) is int:
        return 1 if isnan(a) or isnan(b) else 0
    if type(a) is int:
        return 1 if isnan(a) else isnan_t(b)
    if type(b) is int:
        return 1 if isnan(b) else isnan_t(a)
    return bor(isnan_t(a), isnan_t(b))


def isnan_t(a):
    if type(a) is int:
        return 1 if isnan(a) else 0
    while a.op in ('fneg', 'fabs'):
        a = a.args[0]
    if a.op == 'i2f' or (a.op == 'fvar' and a.args[0][0] == 'x'):
        return 0            # 'x..': drawn from a finite range
    return mk('fisnan', 1, a)


def i2f(a, w):
    if type(a) is int:
        return f2b(float(sx(a, w)))
    return mk('i2f', 64, a)


def u2f(a, w):
    if type(a) is int:
        return f2b(float(a))
    return mk('u2f', 64, a)


def f2i(a, w):
    if type(a) is int:
        x = b2f(a)
        if x != x or abs(x) >= 2.0 ** (w - 1):
            return 1 << (w - 1)
        return int(x) & ((1 << w) - 1)
    return mk('f2i', w, a)


def fvar(name):
    return mk('fvar', 64, name)


def ivar(name, w):
    return mk('var', w, name)


def collect(terms, pred, seen=None, out=None):
    seen = set() if seen is None else seen
    out = [] if out is None else out
    st = [t for t in terms if type(t) is T]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if pred(t):
            out.append(t)
        for a in t.args:
            if type(a) is T:
                st.append(a)
    return out
