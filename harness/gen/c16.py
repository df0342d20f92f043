from ops import *

# floating-point: no overflow, no NaN where the result is representable


def generate(tier):
    D = '''  type(var) :: x(3), f
  real(real64) :: a(3), m, r, t
  integer :: i, n'''
    PRE = '''  n = vp_int(1, %d)
  do i = 1, n
     a(i) = vp_any()
     call assume(%s)
     x(i) = var(a(i))
  end do
  m = a(1)
  do i = 2, n
     if (a(i) > m) m = a(i)
  end do
'''
    FIN = 'abs(a(i)) <= 1.7976931348623157d308'
    o = entry('h_lse', D, PRE % (3, FIN) + '''  r = log_sum_exp(a(1:n))
  call ck("lower", r >= m)
  call ck("finite", r <= 1.7976931348623157d308)
  call ck("upper", r <= m + 1.09862d0 .or. abs(m) > 1.d300)
''')
    o += entry('h_lse_grad', D, PRE % (2, FIN) + '''  f = log_sum_exp(x(1:n))
  r = f%val()
  call ck("lower", r >= m)
  call ck("finite", r <= 1.7976931348623157d308)
  call f%grad()
  do i = 1, n
     t = x(i)%adj()
     call ck("derivative", t >= 0.d0 .and. t <= 1.d0)
  end do
''')
    o += entry('h_lse_inf', D, PRE % (2, 'a(i) == a(i)') + '''  if (m < -1.7976931348623157d308) then
     r = log_sum_exp(a(1:n))
     call ck("all-ninf", r < -1.7976931348623157d308)
  else if (m > 1.7976931348623157d308) then
     r = log_sum_exp(a(1:n))
     call ck("one-inf", r > 1.7976931348623157d308)
  else
     r = log_sum_exp(a(1:n))
     call ck("finite", r >= m .and. r <= 1.7976931348623157d308)
  end if
''')
    o += entry('h_inv_logit', D, '''  a(1) = vp_any()
  call assume(a(1) == a(1))
  r = inv_logit(a(1))
  call ck("range", r >= 0.d0 .and. r <= 1.d0)
  call ck("half", a(1) < 0.d0 .or. r >= .5d0)
  x(1) = var(a(1))
  f = inv_logit(x(1))
  call same("var", f%val(), r)
  call f%grad()
  t = x(1)%adj()
  call ck("derivative", t >= 0.d0 .and. t <= 1.d0)
''')
    return {'c16.F90': o}
