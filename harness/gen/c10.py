from ops import *

# reductions over arrays, also with repeated elements and sections
DECL = '''  type(var) :: x(5), w(%(m)d), z(%(m)d), f, q
  real(real64) :: a(5), p(%(m)d), r(%(m)d), c, d(5), g(%(m)d), h(%(m)d), s
  integer :: i, n, k(%(m)d), l(%(m)d)'''
# x: 3 independent variables; w(i) = x(k(i)) for any k: repeats included
PRE = '''  do i = 1, 3
     a(i) = vp_real(%(lo)s, %(hi)s)
     x(i) = var(a(i))
  end do
  n = vp_int(%(n0)d, %(m)d)
  do i = 1, n
     k(i) = vp_int(1, %(nx)d)
     w(i) = x(k(i))
     p(i) = a(k(i))
  end do
  c = vp_real(-3.d0, 3.d0)
'''
POST = '''  q = f * c
  call q%%grad()
  d = 0
  do i = 1, n
     d(k(i)) = d(k(i)) + g(i)
%(extra)s
  end do
  do i = 1, 3
     call %(cmp)s("d", x(i)%%adj(), c * d(i))
     call same("kept", x(i)%%val(), a(i))
  end do
  call near("q", q%%val(), c * s)
'''


def red(name, body, m=3, n0=1, nx=3, lo='-3.d0', hi='3.d0', extra='', thorough=False, cmp='near'):
    v = dict(m=m, n0=n0, nx=nx, lo=lo, hi=hi, extra=extra, cmp=cmp)
    return entry(('h_t_' if thorough else 'h_') + name, DECL % v, PRE % v + body + POST % v)


SUM = '''  f = sum(w(1:n))
  s = 0
  do i = 1, n
     s = s + p(i)
     g(i) = 1
  end do
'''
NORM = '''  f = norm2(w(1:n))
  s = 0
  do i = 1, n
     s = s + p(i) * p(i)
  end do
  s = sqrt(s)
  do i = 1, n
     g(i) = p(i) / s
  end do
'''
LSE = '''  f = log_sum_exp(w(1:n))
  s = 0
  do i = 1, n
     s = s + exp(p(i))
  end do
  do i = 1, n
     g(i) = exp(p(i)) / s
  end do
  call near("value", exp(f%val()), s)
  s = f%val()
'''
# both operands have variables; the second is another selection of the same variables
DVV = '''  do i = 1, n
     l(i) = vp_int(1, %d)
     z(i) = x(l(i))
     r(i) = a(l(i))
  end do
  f = dot_product(w(1:n), z(1:n))
  s = 0
  do i = 1, n
     s = s + p(i) * r(i)
     g(i) = r(i)
     h(i) = p(i)
  end do
'''
DVD = '''  do i = 1, n
     r(i) = vp_real(-3.d0, 3.d0)
  end do
  f = dot_product(%s)
  s = 0
  do i = 1, n
     s = s + p(i) * r(i)
     g(i) = r(i)
  end do
'''


def generate(tier):
    o = red('sum', SUM, n0=0) + red('sum4', SUM, m=4, nx=2, thorough=True)
    o += red('norm2', NORM, lo='0.1d0', hi='5.d0') + red('norm2_neg', NORM, lo='-5.d0', hi='-0.1d0', m=2)
    o += red('lse', LSE, m=2) + red('lse3', LSE, m=3, nx=2)
    ex = '     d(l(i)) = d(l(i)) + h(i)'
    o += red('dot_vv', DVV % 3, m=2, n0=0, extra=ex) + red('dot_vv3', DVV % 2, m=3, nx=2, extra=ex)
    o += red('dot_vd', DVD % 'w(1:n), r(1:n)', n0=0) + red('dot_dv', DVD % 'r(1:n), w(1:n)', n0=0)
    # array sections with strides, and intermediate (non-leaf) elements
    SEC = '''  type(var) :: x(6), y(6), f(%d)
  real(real64) :: a(6), s
  integer :: i'''
    PREC = '''  do i = 1, 6
     a(i) = vp_real(0.5d0, 2.d0)
     x(i) = var(a(i))
     y(i) = x(i) * 2.d0
  end do
'''
    o += entry('h_sections', SEC % 4, PREC + '''  f(1) = sum(y(1:6:2))
  f(2) = dot_product(y(6:2:-2), x(1:5:2))
  f(3) = norm2(y(2:4:2))
  f(4) = f(1) + f(2) * f(3)
  call f(4)%grad()
  s = 2*sqrt(a(2)**2 + a(4)**2)
  call near("f", f(4)%val(), 2*(a(1)+a(3)+a(5)) + 2*(a(6)*a(1)+a(4)*a(3)+a(2)*a(5)) * s)
  call near("d1", x(1)%adj(), 2 + 2*a(6)*s)
  call near("d2", x(2)%adj(), 2*a(5)*s + 2*(a(6)*a(1)+a(4)*a(3)+a(2)*a(5)) * 4*a(2)/s)
  call near("d3", x(3)%adj(), 2 + 2*a(4)*s)
  call near("d4", x(4)%adj(), 2*a(3)*s + 2*(a(6)*a(1)+a(4)*a(3)+a(2)*a(5)) * 4*a(4)/s)
  call near("d5", x(5)%adj(), 2 + 2*a(2)*s)
  call near("d6", x(6)%adj(), 2*a(1)*s)
''')
    # a reduction that is used twice and itself an element of a later one
    o += entry('h_shared', '''  type(var) :: x(2), u, v(3), f
  real(real64) :: a, b, t''', '''  a = vp_real(-2.d0, 2.d0)
  b = vp_real(-2.d0, 2.d0)
  x(1) = var(a)
  x(2) = var(b)
  u = dot_product(x, x)
  v(1) = u
  v(2) = x(1)
  v(3) = u
  f = sum(v) * u
  call f%grad()
  t = a*a + b*b
  call near("f", f%val(), (2*t + a) * t)
  call near("da", x(1)%adj(), (4*a + 1) * t + (2*t + a) * 2*a)
  call near("db", x(2)%adj(), 4*b * t + (2*t + a) * 2*b)
''')
    # the real version of log_sum_exp agrees with the one of variables
    o += entry('h_lse_real', '''  type(var) :: x(3), f
  real(real64) :: a(3)
  integer :: n, i''', '''  n = vp_int(1, 3)
  do i = 1, n
     a(i) = vp_real(-300.d0, 300.d0)
     x(i) = var(a(i))
  end do
  f = log_sum_exp(x(1:n))
  call same("value", f%val(), log_sum_exp(a(1:n)))
''')
    return {'c10.F90': o}
