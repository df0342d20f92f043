from ops import *

# derivative checks: alone; seeded and accumulated through a larger expression; elemental arrays; twice applied


def generate(tier):
    out = ''
    for op, ex, dom, val, der in UNARY:
        e = lambda X: ex.replace('X', X)
        b = domains(dom) + '''  x = var(a)
  f = %s
  call f%%grad()
  call near("d", x%%adj(), %s)
''' % (e('x'), der)
        out += entry('h_' + op, '  type(var) :: x, f\n  real(real64) :: a', b)
        b = domains(dom) + '''  w = vp_real(-5.d0, 5.d0)
  u = vp_real(-5.d0, 5.d0)
  x = var(a)
  y = var(w)
  z = var(u)
  f = y * %s + x * z
  call f%%grad()
  call near("dx", x%%adj(), w * (%s) + u)
  call near("dy", y%%adj(), %s)
  call near("dz", z%%adj(), a)
''' % (e('x'), der, val)
        out += entry('h_seed_' + op, '  type(var) :: x, y, z, f\n  real(real64) :: a, w, u', b)
        if op != 'neg':
            vals = [val.replace('a', 'a(%d)' % i) if False else None for i in (1, 2)]
            b = domains(dom, 'a').replace('a = ', 'a = ') + '''  a1 = a
''' + domains(dom, 'a') + '''  a2 = a
  x(1) = var(a1)
  x(2) = var(a2)
  g = %s
  w = vp_real(-5.d0, 5.d0)
  u = vp_real(-5.d0, 5.d0)
  f = g(1) * w + g(2) * u
  call f%%grad()
  a = a1
  call near("v1", g(1)%%val(), %s)
  call near("d1", x(1)%%adj(), w * (%s))
  a = a2
  call near("v2", g(2)%%val(), %s)
  call near("d2", x(2)%%adj(), u * (%s))
''' % (e('x'), val, der, val, der)
            out += entry('h_array_' + op, '  type(var) :: x(2), g(2), f\n  real(real64) :: a, a1, a2, w, u', b)
    return {'c02.F90': out}
