from ops import *


def generate(tier):
    out = ''
    for op, ex, dom, val, der in UNARY:
        b = domains(dom) + '''  x = var(a)
  f = %s
  call near("value", f%%val(), %s)
  call same("operand", x%%val(), a)
''' % (ex.replace('X', 'x'), val)
        out += entry('h_' + op, '  type(var) :: x, f\n  real(real64) :: a', b)
        # special values and huge/tiny magnitudes: same class (NaN, infinity) and value
        if op in ('log_gamma', 'acosh', 'atanh', 'asinh', 'sinh', 'cosh', 'tanh', 'logit', 'inv_logit', 'erf', 'erfc', 'inv_square'):
            continue
        b = '''  a = vp_any()
  call assume(.not. (abs(a) > 1.d100 .and. abs(a) <= huge(a)))
  call assume(.not. (abs(a) < 1.d-100 .and. abs(a) > 0.d0))
  x = var(a)
  f = %s
  call near("special", f%%val(), %s)
  call same("operand", x%%val(), a)
''' % (ex.replace('X', 'x'), val)
        out += entry('h_any_' + op, '  type(var) :: x, f\n  real(real64) :: a', b)
    for op, ex, dom, val, da, db in BINARY:
        for k, X, Y in (('vv', 'x', 'y'), ('vd', 'x', 'b'), ('dv', 'a', 'y')):
            b = domains2(dom) + '''  x = var(a)
  y = var(b)
  f = %s
  call near("value", f%%val(), %s)
  call same("operand1", x%%val(), a)
  call same("operand2", y%%val(), b)
''' % (ex.replace('X', X).replace('Y', Y), val)
            out += entry('h_%s_%s' % (op, k), '  type(var) :: x, y, f\n  real(real64) :: a, b', b)
            b = '''  a = vp_any()
  b = vp_any()
  call assume(.not. (abs(a) > 1.d100 .and. abs(a) <= huge(a)))
  call assume(.not. (abs(b) > 1.d100 .and. abs(b) <= huge(b)))
  call assume(.not. (abs(a) < 1.d-100 .and. abs(a) > 0.d0))
  call assume(.not. (abs(b) < 1.d-100 .and. abs(b) > 0.d0))
  x = var(a)
  y = var(b)
  f = %s
  call near("special", f%%val(), %s)
  call same("operand1", x%%val(), a)
  call same("operand2", y%%val(), b)
''' % (ex.replace('X', X).replace('Y', Y), val)
            if op != 'pow':
                out += entry('h_any_%s_%s' % (op, k), '  type(var) :: x, y, f\n  real(real64) :: a, b', b)
    # x op x
    for op, ex, dom, val, da, db in BINARY:
        b = domains([d[0] for d in dom]) + '''  x = var(a)
  f = %s
  call near("value", f%%val(), %s)
''' % (ex.replace('X', 'x').replace('Y', 'x'), val.replace('b', 'a').replace('aypot', 'hypot'))
        if op != 'pow':
            out += entry('h_%s_xx' % op, '  type(var) :: x, f\n  real(real64) :: a', b)
    return {'c01.F90': out}
