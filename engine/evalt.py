"""Concrete evaluation of terms (used to find witnesses of path conditions and to cross-check the encoding)."""
from terms import *
import terms


def ev(ts, env):
    """values of the terms ts under env: {var name: bits}"""
    memo = {}

    def get(a):
        return a if type(a) is not T else memo[a.id]
    st = [t for t in ts if type(t) is T]
    while st:
        t = st[-1]
        if t.id in memo:
            st.pop()
            continue
        todo = [a for a in t.args if type(a) is T and a.id not in memo]
        if todo:
            st += todo
            continue
        st.pop()
        memo[t.id] = ev1(t, [get(a) for a in t.args], env)
    return [get(t) for t in ts]


def ev1(t, a, env):
    op, w = t.op, t.w
    if op in ('fvar', 'var'):
        return env[t.args[0]]
    f = _F.get(op)
    if f is not None:
        return f(*a)
    f = _W.get(op)
    if f is not None:
        return f(a[0], a[1], w)
    if op in ('eq', 'slt', 'ult'):
        aw = max(x.w for x in t.args if type(x) is T)
        return {'eq': eq, 'slt': slt, 'ult': ult}[op](a[0], a[1], aw)
    if op == 'not':
        return ~a[0] & ((1 << w) - 1)
    if op == 'extract':
        return (a[0] >> a[1]) & ((1 << w) - 1)
    if op == 'cat':
        v, o = 0, 0
        for p, n in zip(a[0::2], a[1::2]):
            v |= p << o
            o += n
        return v
    if op == 'zext':
        return a[0]
    if op == 'sext':
        return sext(a[0], t.args[0].w, w)
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op == 'i2f':
        return i2f(a[0], t.args[0].w)
    if op == 'u2f':
        return u2f(a[0], t.args[0].w)
    if op == 'f2i':
        return f2i(a[0], w)
    if op.startswith('fn:'):
        return call_libm(op[3:], *a)
    raise Exception('eval ' + op)


_F = {'fadd': fadd, 'fmul': fmul, 'fdiv': fdiv, 'fneg': fneg, 'fabs': fabs, 'fsqrt': fsqrt, 'flt': flt, 'fle': fle,
      'feq': feq, 'fisnan': lambda a: 1 if isnan(a) else 0, 'bnot': lambda a: a ^ 1, 'band': lambda a, b: a & b}
_W = {'add': add, 'sub': sub, 'mul': mul, 'sdiv': sdiv, 'srem': smod, 'udiv': udiv, 'urem': umod, 'and': and_, 'or': or_,
      'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr}


def subst(ts, mp):
    """the terms with variables replaced (mp: name -> concrete bits), rebuilt with the simplifying constructors"""
    memo = {}

    def get(a):
        return memo[a.id] if type(a) is T else a
    st = [t for t in ts if type(t) is T]
    while st:
        t = st[-1]
        if t.id in memo:
            st.pop()
            continue
        if t.op in ('fvar', 'var'):
            memo[t.id] = mp.get(t.args[0], t)
            st.pop()
            continue
        todo = [a for a in t.args if type(a) is T and a.id not in memo]
        if todo:
            st += todo
            continue
        st.pop()
        a = [get(x) for x in t.args]
        if all(x is y for x, y in zip(a, t.args)):
            memo[t.id] = t
            continue
        memo[t.id] = rebuild(t, a)
    return [get(t) for t in ts]


def rebuild(t, a):
    op, w = t.op, t.w
    if op in _S:
        return _S[op](*a)
    if op in _W:
        return _W[op](a[0], a[1], w)
    if op in ('eq', 'slt', 'ult'):
        aw = max(x.w for x in t.args if type(x) is T)
        return {'eq': eq, 'slt': slt, 'ult': ult}[op](a[0], a[1], aw)
    if op == 'not':
        return not_(a[0], w)
    if op == 'extract':
        return extract(a[0], a[1], w)
    if op == 'cat':
        return cat(list(zip(a[0::2], a[1::2])))
    if op == 'zext':
        return zext(a[0], t.args[0].w, w)
    if op == 'sext':
        return sext(a[0], t.args[0].w, w)
    if op == 'ite':
        return ite(a[0], a[1], a[2], w)
    if op == 'i2f':
        return i2f(a[0], t.args[0].w)
    if op == 'f2i':
        return f2i(a[0], w)
    if op.startswith('fn:'):
        return call_libm(op[3:], *a)
    if all(type(x) is int for x in a):
        return ev1(t, a, {})
    return mk(op, w, *a)


_S = dict(_F, fisnan=isnan_t, bnot=bnot, band=band)
