from ops import *

# comparisons of variables compare values; classification; value_of
OPS = (('eq', '=='), ('ne', '/='), ('gt', '>'), ('lt', '<'), ('ge', '>='), ('le', '<='))


def generate(tier):
    o = ''
    for n, s in OPS:
        o += entry('h_' + n, '''  type(var) :: x, y, z
  real(real64) :: a, b
  integer :: h''', '''  a = vp_any()
  b = vp_any()
  x = var(a)
  y = var(b)
  z = x
  h = callstack%%head
  call ck("vv", (x %(s)s y) .eqv. (a %(s)s b))
  call ck("vd", (x %(s)s b) .eqv. (a %(s)s b))
  call ck("dv", (a %(s)s y) .eqv. (a %(s)s b))
  call ck("same-node", (x %(s)s z) .eqv. (a %(s)s a))
  call same("x", x%%val(), a)
  call same("y", y%%val(), b)
  call same("dx", x%%adj(), 0.d0)
  call ieq("no-node", callstack%%head, h)
''' % dict(s=s))
        o += entry('h_arr_' + n, '''  type(var) :: x(2), y(2), u(2,2)
  real(real64) :: a(2), b(2), c
  integer :: i
  logical :: l(2), k(2,2)''', '''  c = vp_any()
  do i = 1, 2
     a(i) = vp_any()
     b(i) = vp_any()
     x(i) = var(a(i))
     y(i) = var(b(i))
     u(:,i) = x
  end do
  l = x %(s)s y
  call ck("vv1", l(1) .eqv. (a(1) %(s)s b(1)))
  call ck("vv2", l(2) .eqv. (a(2) %(s)s b(2)))
  l = x %(s)s c
  call ck("vd1", l(1) .eqv. (a(1) %(s)s c))
  call ck("vd2", l(2) .eqv. (a(2) %(s)s c))
  l = c %(s)s y
  call ck("dv1", l(1) .eqv. (c %(s)s b(1)))
  call ck("dv2", l(2) .eqv. (c %(s)s b(2)))
''' % dict(s=s))
    o += entry('h_class', '''  type(var) :: x, v(2)
  real(real64) :: a, b, w(2)
  logical :: l(2)''', '''  a = vp_any()
  b = vp_any()
  x = var(a)
  v(1) = x
  v(2) = var(b)
  call ck("nan", is_nan(x) .eqv. (a /= a))
  call ck("nan-d", is_nan(a) .eqv. (a /= a))
  call ck("inf", is_inf(a) .eqv. (a > 1.7976931348623157d308))
  call ck("neg-inf", is_neg_inf(a) .eqv. (a < -1.7976931348623157d308))
  l = is_nan(v)
  call ck("nan-1", l(1) .eqv. (a /= a))
  call ck("nan-2", l(2) .eqv. (b /= b))
  call same("value_of", value_of(x), a)
  call same("value_of-d", value_of(a), a)
  w = value_of(v)
  call same("value_of-1", w(1), a)
  call same("value_of-2", w(2), b)
''')
    return {'c13.F90': o}
