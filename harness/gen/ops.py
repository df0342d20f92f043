"""Operator tables: name -> (domains, reference value, reference derivative(s)) written from calculus, in Fortran."""
import re
SQPI = '1.7724538509055160273d0'
# (op, expression in X, [(lo, hi)], value in a, derivative in a)
UNARY = [
    ('sin', 'sin(X)', [(-1000, 1000)], 'sin(a)', 'cos(a)'),
    ('cos', 'cos(X)', [(-1000, 1000)], 'cos(a)', '-sin(a)'),
    ('tan', 'tan(X)', [(-1.4, 1.4)], 'tan(a)', '1/(cos(a)*cos(a))'),
    ('asin', 'asin(X)', [(-.9999, .9999)], 'asin(a)', '1/sqrt(1-a*a)'),
    ('acos', 'acos(X)', [(-.9999, .9999)], 'acos(a)', '-1/sqrt(1-a*a)'),
    ('atan', 'atan(X)', [(-1e6, 1e6)], 'atan(a)', '1/(1+a*a)'),
    ('sqrt', 'sqrt(X)', [(1e-6, 1e12)], 'sqrt(a)', '0.5d0/sqrt(a)'),
    ('exp', 'exp(X)', [(-300, 300)], 'exp(a)', 'exp(a)'),
    ('log', 'log(X)', [(1e-9, 1e12)], 'log(a)', '1/a'),
    ('inv', 'inv(X)', [(1e-6, 1e12), (-1e12, -1e-6)], '1/a', '-1/(a*a)'),
    ('square', 'square(X)', [(-1e12, 1e12)], 'a*a', '2*a'),
    ('inv_square', 'inv_square(X)', [(1e-6, 1e12), (-1e12, -1e-6)], '1/(a*a)', '-2/(a*a*a)'),
    ('inv_sqrt', 'inv_sqrt(X)', [(1e-6, 1e12)], '1/sqrt(a)', '-0.5d0/(a*sqrt(a))'),
    ('logit', 'logit(X)', [(1e-6, .999999)], 'log(a/(1-a))', '1/(a*(1-a))'),
    ('inv_logit', 'inv_logit(X)', [(-700, 700)], '1/(1+exp(-a))', 'exp(-a)/((1+exp(-a))*(1+exp(-a)))'),
    ('erf', 'erf(X)', [(-26, 26)], 'erf(a)', '2/%s*exp(-a*a)' % SQPI),
    ('erfc', 'erfc(X)', [(-26, 26)], 'erfc(a)', '-2/%s*exp(-a*a)' % SQPI),
    ('sinh', 'sinh(X)', [(-300, 300)], 'sinh(a)', 'cosh(a)'),
    ('cosh', 'cosh(X)', [(-300, 300)], 'cosh(a)', 'sinh(a)'),
    ('tanh', 'tanh(X)', [(-300, 300)], 'tanh(a)', '1/(cosh(a)*cosh(a))'),
    ('asinh', 'asinh(X)', [(-1e6, 1e6)], 'asinh(a)', '1/sqrt(1+a*a)'),
    ('acosh', 'acosh(X)', [(1.0001, 1e6)], 'acosh(a)', '1/sqrt(a*a-1)'),
    ('atanh', 'atanh(X)', [(-.9999, .9999)], 'atanh(a)', '1/(1-a*a)'),
    ('abs', 'abs(X)', [(1e-9, 1e12), (-1e12, -1e-9)], 'abs(a)', 'sign(1.d0,a)'),
    ('neg', '-X', [(-1e12, 1e12)], '-a', '-1.d0'),
    ('pos', '+X', [(-1e12, 1e12)], 'a', '1.d0'),
    ('log_gamma', 'log_gamma(X)', [(.01, 1000)], 'log_gamma(a)', 'digamma(a)'),
]
R = (-1e9, 1e9)
P = (.1, 20)
# (op, expression in X and Y, domains of (a, b), value, d/da, d/db)
BINARY = [
    ('add', 'X + Y', [(R, R)], 'a+b', '1.d0', '1.d0'),
    ('sub', 'X - Y', [(R, R)], 'a-b', '1.d0', '-1.d0'),
    ('mul', 'X * Y', [(R, R)], 'a*b', 'b', 'a'),
    ('div', 'X / Y', [(R, (1e-6, 1e9)), (R, (-1e9, -1e-6))], 'a/b', '1/b', '-a/(b*b)'),
    ('pow', 'X ** Y', [((.01, 100), (-24, 24))], 'a**b', 'b*a**(b-1)', 'a**b*log(a)'),
    ('hypot', 'hypot(X,Y)', [((1e-6, 1e9), R), ((-1e9, -1e-6), R)], 'hypot(a,b)', 'a/sqrt(a*a+b*b)', 'b/sqrt(a*a+b*b)'),
]


def flt(x):
    r = repr(float(x))
    return r + 'd0' if 'e' not in r else r.replace('e', 'd')


HEAD = '''subroutine {n}() bind(C, name="{n}")
  use fazang
  use fazang_abs_mod
  use fazang_digamma_mod
  use vp
  implicit none
'''


def entry(name, decl, body):
    return HEAD.format(n=name) + decl + '\n' + body + '\nend subroutine {n}\n\n'.format(n=name)


def domains(ds, v='a'):
    """statements drawing v from a union of intervals"""
    if len(ds) == 1:
        return '  %s = vp_real(%s, %s)\n' % (v, flt(ds[0][0]), flt(ds[0][1]))
    s = '  select case (vp_int(1, %d))\n' % len(ds)
    for i, (lo, hi) in enumerate(ds):
        s += '  case (%d)\n    %s = vp_real(%s, %s)\n' % (i + 1, v, flt(lo), flt(hi))
    return s + '  case default\n    %s = vp_real(%s, %s)\n  end select\n' % (v, flt(ds[0][0]), flt(ds[0][1]))


def domains2(ds):
    s = '  select case (vp_int(1, %d))\n' % len(ds)
    for i, (da, db) in enumerate(ds):
        s += '  case (%d)\n' % (i + 1) if i + 1 < len(ds) else '  case default\n'
        s += '    a = vp_real(%s, %s)\n    b = vp_real(%s, %s)\n' % (flt(da[0]), flt(da[1]), flt(db[0]), flt(db[1]))
    return s + '  end select\n'
