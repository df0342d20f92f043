from ops import *

# every function and operator on arrays acts element by element, values and derivatives


def generate(tier):
    o = ''
    D = '''  type(var) :: x(2,2), f(2,2), q
  real(real64) :: u(2,2), a, w(2,2)
  integer :: i, j, k(2,2), p'''
    for op, ex, dom, val, der in UNARY:
        # three independent variables fill four places, any way round
        b = '''  do j = 1, 2
     do i = 1, 2
      %s
        u(i,j) = a
        x(i,j) = var(a)
     end do
  end do
  p = vp_int(0, 1)
  if (p == 1) then
     x(2,2) = x(1,1)
     u(2,2) = u(1,1)
  end if
  f = %s
  q = var(0.d0)
  do j = 1, 2
     do i = 1, 2
        w(i,j) = vp_real(-2.d0, 2.d0)
        a = u(i,j)
        call near("value", f(i,j)%%val(), %s)
        q = q + f(i,j) * var(w(i,j))
     end do
  end do
  call q%%grad()
  if (p == 1) w(1,1) = w(1,1) + w(2,2)
  do j = 1, 2
     do i = 1, 2
        a = u(i,j)
        if (i + j < 4) call near("d", x(i,j)%%adj(), w(i,j) * (%s))
        call same("kept", x(i,j)%%val(), a)
     end do
  end do
  if (p == 0) then
     a = u(2,2)
     call near("d", x(2,2)%%adj(), w(2,2) * (%s))
  end if
''' % (domains([(4, 1000)] if op == 'log_gamma' else [dom[0]]).strip(), ex.replace('X', 'x'), val, der, der)
        o += entry('h_' + op, D, b)
    D = '''  type(var) :: x(2), y(2), s, t, f(2), q
  real(real64) :: u(2), v(2), c, e, a, b, w(2), ds, dt
  integer :: i'''
    for op, ex, dom, val, da, db in BINARY:
        (la, ha), (lb, hb) = dom[0]
        if op in ('add', 'sub', 'mul', 'div', 'hypot'):
            lb, hb = max(lb, 1.5), min(hb, 50)
            la, ha = max(la, 1.5), min(ha, 50)
        for k, X, Y, A, B in (('aa', 'x', 'y', 'u(i)', 'v(i)'), ('as', 'x', 't', 'u(i)', 'e'), ('sa', 's', 'y', 'c', 'v(i)'),
                              ('ad', 'x', 'v', 'u(i)', 'v(i)'), ('da', 'u', 'y', 'u(i)', 'v(i)'), ('ac', 'x', 'e', 'u(i)', 'e'), ('ca', 'c', 'y', 'c', 'v(i)'),
                              ('ds', 'u', 't', 'u(i)', 'e'), ('sd', 's', 'v', 'c', 'v(i)')):
            if op == 'pow' and k in ('sd', 'ad', 'ac'):
                lb = 2.5
            bd = '''  do i = 1, 2
     u(i) = vp_real(%s, %s)
     v(i) = vp_real(%s, %s)
     x(i) = var(u(i))
     y(i) = var(v(i))
     w(i) = vp_real(-2.d0, 2.d0)
  end do
  c = vp_real(%s, %s)
  e = vp_real(%s, %s)
  s = var(c)
  t = var(e)
  f = %s
  q = var(0.d0)
  ds = 0
  dt = 0
  do i = 1, 2
     a = %s
     b = %s
     call near("value", f(i)%%val(), %s)
     q = q + f(i) * var(w(i))
     ds = ds + w(i) * (%s)
     dt = dt + w(i) * (%s)
  end do
  call q%%grad()
  do i = 1, 2
     a = %s
     b = %s
     call near("dx", x(i)%%adj(), %s)
     call near("dy", y(i)%%adj(), %s)
  end do
  call near("ds", s%%adj(), %s)
  call near("dt", t%%adj(), %s)
''' % (flt(la), flt(ha), flt(lb), flt(hb), flt(la), flt(ha), flt(lb), flt(hb), ex.replace('X', X).replace('Y', Y), A, B, val, da, db, A, B,
            'w(i) * (%s)' % da if X == 'x' else '0.d0', 'w(i) * (%s)' % db if Y == 'y' else '0.d0', 'ds' if X == 's' else '0.d0', 'dt' if Y == 't' else '0.d0')
            o += entry('h_%s_%s' % (op, k), D, bd)
    return {'c14.F90': o}
