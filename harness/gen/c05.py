from ops import *

DAG = '''  integer, parameter :: n = %(n)d
  type(var) :: v(n+2)
  real(real64) :: p(n+2), d(n+2,2), a, b, u
  integer :: k, op, i, j, r
'''
DAGB = '''  a = vp_real(1.d0, 2.d0)
  b = vp_real(-2.d0, 2.d0)
  u = vp_real(-2.d0, 2.d0)
  v(1) = var(a)
  v(2) = var(b)
  p(1) = a
  p(2) = b
  d = 0
  d(1,1) = 1
  d(2,2) = 1
  do k = 3, n + 2
     op = vp_int(1, %(nop)d)
     i = vp_int(1, k - 1)
     j = vp_int(1, k - 1)
     select case (op)
     case (1)
        v(k) = v(i) * v(j)
        p(k) = p(i) * p(j)
        d(k,:) = d(i,:) * p(j) + p(i) * d(j,:)
     case (2)
        v(k) = v(i) - v(j)
        p(k) = p(i) - p(j)
        d(k,:) = d(i,:) - d(j,:)
     case (3)
        v(k) = v(i) * u + v(j)
        p(k) = p(i) * u + p(j)
        d(k,:) = d(i,:) * u + d(j,:)
     case default
        v(k) = exp(v(i)) + v(j)
        p(k) = exp(p(i)) + p(j)
        d(k,:) = d(i,:) * exp(p(i)) + d(j,:)
     end select
  end do
  r = %(r)s
  call v(r)%%grad()
  call near("value", v(r)%%val(), p(r))
  call near("d1", v(1)%%adj(), d(r,1))
  call near("d2", v(2)%%adj(), d(r,2))
  call same("x-kept", v(1)%%val(), a)
  call same("y-kept", v(2)%%val(), b)
'''


def generate(tier):
    out = ''
    f = lambda n, nop, r: (DAG % dict(n=n), DAGB % dict(nop=nop, r=r))
    out += entry('h_dag2', *f(2, 4, '4'))
    out += entry('h_dag2_anyroot', *f(2, 2, 'vp_int(1, 4)'))
    out += entry('h_dag3', *f(3, 1, '5'))
    out += entry('h_t_dag3', *f(3, 3, '5'))
    out += entry('h_t_dag4', *f(4, 1, '6'))
    # one reverse step from an arbitrary adjoint state: exactly der*adj is added, to the operands only
    D = '  type(var) :: x, y, z, f, q\n  real(real64) :: a, b, ax, ay, az, af, aq'
    PRE = '''  x = var(a)
  y = var(b)
  z = x * y
  f = %s
  q = f * z
  ax = vp_real(-9.d0, 9.d0)
  ay = vp_real(-9.d0, 9.d0)
  az = vp_real(-9.d0, 9.d0)
  af = vp_real(-9.d0, 9.d0)
  aq = vp_real(-9.d0, 9.d0)
  call callstack%%stack%%set_adj(x%%vi_index(), ax)
  call callstack%%stack%%set_adj(y%%vi_index(), ay)
  call callstack%%stack%%set_adj(z%%vi_index(), az)
  call callstack%%stack%%set_adj(f%%vi_index(), af)
  call callstack%%stack%%set_adj(q%%vi_index(), aq)
  call callstack%%varis(f%%vi)%%chain()
  call near("x", x%%adj(), ax + af * (%s))
  call near("y", y%%adj(), ay + af * (%s))
  call same("z", z%%adj(), az)
  call same("f", f%%adj(), af)
  call same("q", q%%adj(), aq)
  call same("zv", z%%val(), a * b)
'''
    for op, ex, dom, val, der in UNARY:
        if op == 'pos':
            continue
        if op == 'abs':
            dom = [d for d in dom if d[1] < 0]
        b = domains([dom[0]]) + '  b = vp_real(-3.d0, 3.d0)\n' + PRE % (ex.replace('X', 'x'), der, '0.d0')
        out += entry('h_step_' + op, D, b)
    for op, ex, dom, val, da, db in BINARY:
        for k, X, Y in (('vv', 'x', 'y'), ('vd', 'x', 'b'), ('dv', 'a', 'y')):
            b = domains2([dom[0]]) + ('  call assume(abs(b) > 3.1d0)\n' if k == 'vd' else '  call assume(a > 1.1d0)\n' if k == 'dv' else '')
            b += PRE % (ex.replace('X', X).replace('Y', Y), da if k[0] == 'v' else '0.d0', db if k[1] == 'v' else '0.d0')
            out += entry('h_step_%s_%s' % (op, k), D, b)
    return {'c05.F90': out}
