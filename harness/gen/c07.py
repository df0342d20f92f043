from ops import *

# growth of the tape and of the node stack (tiny initial sizes): nothing recorded before is lost


def generate(tier):
    out = ''
    N = 9 if tier == 'quick' else 20
    out += entry('h_leaves', '''  integer, parameter :: m = %d
  type(var) :: x(m), f
  real(real64) :: a(m)
  integer :: i, n''' % N, '''  n = vp_int(1, m)
  do i = 1, n
     a(i) = vp_any()
     x(i) = var(a(i))
  end do
  do i = 1, n
     call same("val", x(i)%val(), a(i))
     call same("adj", x(i)%adj(), 0.d0)
     call ck("distinct", all(x(1:i-1)%vi /= x(i)%vi))
     call ck("distinct-tape", all(vi_index(x(1:i-1)) /= x(i)%vi_index()))
  end do
  call ck("size", callstack%vari_stack_size() >= n)
''')
    out += entry('h_chain', '''  integer, parameter :: m = %d
  type(var) :: x(0:m), y
  real(real64) :: a, b(m), p(0:m), d
  integer :: i, n''' % N, '''  n = vp_int(1, m)
  a = vp_real(0.5d0, 2.d0)
  x(0) = var(a)
  p(0) = a
  do i = 1, n
     b(i) = vp_real(1.5d0, 4.d0)
     if (mod(i, 3) == 0) then
        x(i) = x(i-1) * x(0) + b(i)
        p(i) = p(i-1) * a + b(i)
     elseif (mod(i, 3) == 1) then
        x(i) = x(i-1) * b(i)
        p(i) = p(i-1) * b(i)
     else
        x(i) = x(i-1) - b(i)
        p(i) = p(i-1) - b(i)
     end if
  end do
  do i = 0, n
     call near("val", x(i)%%val(), p(i))
     call same("adj0", x(i)%%adj(), 0.d0)
  end do
  call x(n)%%grad()
  d = 1
  do i = 1, n
     if (mod(i, 3) == 0) then
        d = d * a + p(i-1)
     elseif (mod(i, 3) == 1) then
        d = d * b(i)
     end if
  end do
  call near("grad", x(0)%%adj(), d)
'''.replace('%%', '%'))
    # records of every shape, each pushed when the space left is any size
    kinds = [('leaf', 'var(b)', 'b'), ('vv', 'x * y', 'a*b'), ('vd', 'x * 3.d0', '3*a'), ('sum', 'sum([x, y, x, y])', '2*a+2*b'),
             ('dotvd', 'dot_product([x, y], [2.d0, 3.d0])', '2*a+3*b'), ('dotvv', 'dot_product([x, y], [y, x])', '2*a*b'),
             ('wp', 'var_with_partials(a*b, [x, y], [b, a])', 'a*b')]
    for nm, E, V in kinds:
        dx = {'leaf': '0.d0', 'vv': 'b', 'vd': '3.d0', 'sum': '2.d0', 'dotvd': '2.d0', 'dotvv': '2*b', 'wp': 'b'}[nm]
        dy = {'leaf': '0.d0', 'vv': 'a', 'vd': '0.d0', 'sum': '2.d0', 'dotvd': '3.d0', 'dotvv': '2*a', 'wp': 'a'}[nm]
        out += entry('h_grow_' + nm, '''  type(var) :: x, y, f, g, pad(7), h
  real(real64) :: a, b
  integer :: i, n, s''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  x = var(a)
  y = var(b)
  g = x - y
  n = vp_int(0, 7)
  do i = 1, n
     pad(i) = var(1.d0 * i)
  end do
  s = callstack%%stack%%head
  f = %s
  call ck("head-in-bounds", callstack%%stack%%head - 1 <= callstack%%stack%%storage_size)
  call ck("grew", callstack%%stack%%head > s)
  h = f * g
  call near("f", f%%val(), %s)
  call same("x", x%%val(), a)
  call same("y", y%%val(), b)
  call near("g", g%%val(), a - b)
  do i = 1, n
     call same("pad", pad(i)%%val(), 1.d0 * i)
  end do
  call h%%grad()
  call near("dx", x%%adj(), (%s)*(a-b) + (%s))
  call near("dy", y%%adj(), (%s)*(a-b) - (%s))
  do i = 1, n
     call same("padadj", pad(i)%%adj(), 0.d0)
  end do
''' % (E, V, dx, V, dy, V))
    out += entry('h_grow_matmul', '''  type(var) :: x(2,2), p(2,2), pad(7), s
  real(real64) :: a(2,2), c(2,2)
  integer :: i, j, n''', '''  do j = 1, 2
     do i = 1, 2
        a(i,j) = vp_real(-2.d0, 2.d0)
        x(i,j) = var(a(i,j))
     end do
  end do
  n = vp_int(0, 7)
  do i = 1, n
     pad(i) = var(1.d0 * i)
  end do
  p = matmul(x, x)
  s = p(1,2)
  do j = 1, 2
     do i = 1, 2
        call same("a", x(i,j)%val(), a(i,j))
        call near("p", p(i,j)%val(), a(i,1)*a(1,j) + a(i,2)*a(2,j))
     end do
  end do
  call s%grad()
  call near("d11", x(1,1)%adj(), a(1,2))
  call near("d12", x(1,2)%adj(), a(1,1) + a(2,2))
  call near("d21", x(2,1)%adj(), 0.d0)
  call near("d22", x(2,2)%adj(), a(1,2))
''')
    out += entry('h_grow_adj', '''  type(var) :: x, y, pad(7)
  real(real64) :: a, b, c, d
  integer :: i, n''', '''  a = vp_any()
  b = vp_any()
  c = vp_any()
  d = vp_any()
  x = var(a)
  y = var(b)
  call callstack%stack%set_adj(x%vi_index(), c)
  call callstack%stack%set_adj(y%vi_index(), d)
  n = vp_int(0, 7)
  do i = 1, n
     pad(i) = var(1.d0 * i)
  end do
  call same("xv", x%val(), a)
  call same("yv", y%val(), b)
  call same("xa", x%adj(), c)
  call same("ya", y%adj(), d)
  y = c
  call same("xv2", x%val(), a)
  call same("yv2", y%val(), c)
''')
    return {'c07.F90': out}
