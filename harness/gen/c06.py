from ops import *

# zeroing adjoints: every live adjoint, nothing else; a later gradient is the one of a fresh tape


def generate(tier):
    out = ''
    out += entry('h_zero', '''  type(var) :: x, y, z(2), m(2,2), p(2,2), s
  real(real64) :: a, b, v(0:40), e
  integer :: i, n, h, t''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  x = var(a)
  y = var(b)
  z(1) = x * y
  z(2) = exp(x) - 3.d0
  m(:,1) = z
  m(:,2) = [x, y]
  p = matmul(m, m)
  s = sum(p(:,1)) + log_sum_exp(z)
  n = callstack%head - 1
  h = callstack%head
  t = callstack%stack%head
  do i = 1, n
     e = vp_any()
     v(i) = callstack%varis(i)%val()
     call callstack%stack%set_adj(callstack%varis(i)%i, e)
  end do
  call set_zero_all_adj()
  do i = 1, n
     call same("adj", callstack%varis(i)%adj(), 0.d0)
     call same("val", callstack%varis(i)%val(), v(i))
  end do
  call ieq("nodes", callstack%head, h)
  call ieq("tape", callstack%stack%head, t)
''')
    out += entry('h_regrad', '''  type(var) :: x, y, f, g
  real(real64) :: a, b''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  x = var(a)
  y = var(b)
  f = x * y + sin(x)
  g = y / x + f * f
  call f%grad()
  call near("f1x", x%adj(), b + cos(a))
  call near("f1y", y%adj(), a)
  call set_zero_all_adj()
  call near("zx", x%adj(), 0.d0)
  call near("zy", y%adj(), 0.d0)
  call g%grad()
  call near("gx", x%adj(), -b/(a*a) + 2*(a*b+sin(a))*(b + cos(a)))
  call near("gy", y%adj(), 1/a + 2*(a*b+sin(a))*a)
  call set_zero_all_adj()
  call f%grad()
  call near("f2x", x%adj(), b + cos(a))
  call near("f2y", y%adj(), a)
  call set_zero_all_adj()
  call x%grad()
  call near("xx", x%adj(), 1.d0)
  call near("xy", y%adj(), 0.d0)
  call near("fv", f%val(), a*b + sin(a))
  call near("gv", g%val(), b/a + (a*b+sin(a))**2)
''')
    # a gradient leaves every value untouched and every unrelated adjoint at zero
    out += entry('h_unrelated', '''  type(var) :: x, y, u(3), f, w
  real(real64) :: a, b, c''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  c = vp_real(0.5d0, 2.d0)
  x = var(a)
  u(1) = var(c)
  y = var(b)
  u(2) = u(1) * x
  f = x * y
  u(3) = f * u(2) + y
  w = exp(u(3))
  call f%grad()
  call near("u1", u(1)%adj(), 0.d0)
  call near("u2", u(2)%adj(), 0.d0)
  call near("u3", u(3)%adj(), 0.d0)
  call near("w", w%adj(), 0.d0)
  call near("f", f%adj(), 1.d0)
  call near("x", x%adj(), b)
  call near("y", y%adj(), a)
  call same("xv", x%val(), a)
  call same("yv", y%val(), b)
  call same("uv", u(1)%val(), c)
''')
    # new inputs, same variables: assign then rebuild
    out += entry('h_reassign', '''  type(var) :: x, y, f, g
  real(real64) :: a, b, c''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  c = vp_real(0.5d0, 2.d0)
  x = var(a)
  y = var(b)
  f = x * x * y
  call f%grad()
  call set_zero_all_adj()
  x = c
  g = x * x * y
  call g%grad()
  call near("g", g%val(), c*c*b)
  call near("x", x%adj(), 2*c*b)
  call near("y", y%adj(), c*c)
''')
    return {'c06.F90': out}
