from ops import *

# constructors and assignments


def generate(tier):
    o = entry('h_make', '''  type(var) :: z, x, y(3), w(2,3), e(2), g(2,2)
  real(real64) :: a, b(3), c(2,3)
  integer :: i, j, h, l(64), k, n
  logical :: d''', '''  a = vp_any()
  do i = 1, 3
     b(i) = vp_any()
     do j = 1, 2
        c(j,i) = vp_any()
     end do
  end do
  h = callstack%head
  z = var()
  x = var(a)
  y = var(b)
  w = var(c)
  e = var(2)
  g = var(2, 2)
  call same("default", z%val(), 0.d0)
  call same("scalar", x%val(), a)
  call ieq("count", callstack%head, h + 17)
  n = 2
  l(1) = z%vi
  l(2) = x%vi
  do i = 1, 3
     call same("vector", y(i)%val(), b(i))
     n = n + 1
     l(n) = y(i)%vi
     do j = 1, 2
        call same("matrix", w(j,i)%val(), c(j,i))
        n = n + 1
        l(n) = w(j,i)%vi
     end do
  end do
  do i = 1, 2
     call same("n", e(i)%val(), 0.d0)
     n = n + 1
     l(n) = e(i)%vi
     do j = 1, 2
        call same("m-n", g(j,i)%val(), 0.d0)
        n = n + 1
        l(n) = g(j,i)%vi
     end do
  end do
  ! all different and all inside
  d = .true.
  do i = 1, n
     d = d .and. l(i) >= h .and. l(i) < callstack%head
     do k = 1, i - 1
        d = d .and. l(i) /= l(k) .and. callstack%varis(l(i))%i /= callstack%varis(l(k))%i
     end do
     call same("adjoint", callstack%varis(l(i))%adj(), 0.d0)
     call ieq("leaf", callstack%varis(l(i))%n_operand(), 0)
  end do
  call ck("distinct", d)
''')
    # writing values through assignment: exactly the target elements, kept adjoints, no new nodes
    o += entry('h_assign', '''  type(var) :: x(2), y(4), w(3,3), s, z
  real(real64) :: a(2), b(4), c(3,3), e, t, f(16), g(16), v
  integer :: i, j, h, tp, op, n''', '''  e = vp_any()
  h = callstack%head
  do i = 1, 2
     x(i) = var(vp_any())
  end do
  do i = 1, 4
     y(i) = var(vp_any())
     b(i) = vp_any()
  end do
  do i = 1, 3
     do j = 1, 3
        w(j,i) = var(vp_any())
        c(j,i) = vp_any()
     end do
  end do
  s = var(vp_any())
  n = callstack%head - h
  do i = 1, n
     f(i) = callstack%varis(h+i-1)%val()
     g(i) = vp_any()
     call callstack%stack%set_adj(callstack%varis(h+i-1)%i, g(i))
  end do
  tp = callstack%stack%head
  op = vp_int(1, 8)
  select case (op)
  case (1)
     s = e
     f(16) = e
  case (2)
     y = b
     f(3:6) = b
  case (3)
     y = e
     f(3:6) = e
  case (4)
     w = c
     f(7:9) = c(:,1)
     f(10:12) = c(:,2)
     f(13:15) = c(:,3)
  case (5)
     w = e
     f(7:15) = e
  case (6)
     y(2:3) = b(1:2)
     f(4:5) = b(1:2)
  case (7)
     w(:,2) = b(1:3)
     f(10:12) = b(1:3)
  case default
     w(1:2,2:3) = c(2:3,1:2)
     f(10) = c(2,1)
     f(11) = c(3,1)
     f(13) = c(2,2)
     f(14) = c(3,2)
  end select
  do i = 1, n
     call same("value", callstack%varis(h+i-1)%val(), f(i))
     call same("adjoint", callstack%varis(h+i-1)%adj(), g(i))
  end do
  call ieq("nodes", callstack%head, h + n)
  call ieq("tape", callstack%stack%head, tp)
'''.replace('  do i = 1, n\n     f(i) =', '  call ieq("n", n, 16)\n  do i = 1, n\n     f(i) ='))
    # a variable assigned from a variable is that variable
    o += entry('h_alias', '''  type(var) :: x, y, v(2), u(2), f
  real(real64) :: a, b, c''', '''  a = vp_real(-3.d0, 3.d0)
  b = vp_real(-3.d0, 3.d0)
  c = vp_real(-3.d0, 3.d0)
  x = var(a)
  y = x
  v(1) = x
  v(2) = var(b)
  u = v
  y = c
  call same("alias", x%val(), c)
  call same("alias2", u(1)%val(), c)
  f = x * y + u(1) * u(2)
  call f%grad()
  call near("f", f%val(), c * c + c * b)
  call near("dx", x%adj(), 2 * c + b)
  call near("dv", v(2)%adj(), c)
''')
    # the user-level constructors of operations: value, operands, data
    o += entry('h_partials', '''  type(var) :: x(3), w(3), f, q
  real(real64) :: a(3), p(3), v, c, d(3)
  integer :: i, n, k(3)''', '''  n = vp_int(0, 3)
  do i = 1, 3
     a(i) = vp_real(-3.d0, 3.d0)
     x(i) = var(a(i))
  end do
  do i = 1, n
     k(i) = vp_int(1, 3)
     w(i) = x(k(i))
     p(i) = vp_real(-3.d0, 3.d0)
  end do
  v = vp_real(-3.d0, 3.d0)
  c = vp_real(-3.d0, 3.d0)
  f = var_with_partials(v, w(1:n), p(1:n))
  q = f * c
  call q%grad()
  call same("value", f%val(), v)
  d = 0
  do i = 1, n
     d(k(i)) = d(k(i)) + c * p(i)
  end do
  do i = 1, 3
     call near("d", x(i)%adj(), d(i))
     call same("x", x(i)%val(), a(i))
  end do
''')
    return {'c15.F90': o}
