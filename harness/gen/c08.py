from ops import *

# nested tapes


def generate(tier):
    out = ''
    out += entry('h_isolate', '''  type(var) :: x, y, z, u, v, w
  real(real64) :: a, b, c, q, ax, ay, az
  integer :: h, t, i, n''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  c = vp_real(0.5d0, 2.d0)
  x = var(a)
  y = var(b)
  z = x * y
  ax = vp_real(-3.d0, 3.d0)
  ay = vp_real(-3.d0, 3.d0)
  az = vp_real(-3.d0, 3.d0)
  call callstack%stack%set_adj(x%vi_index(), ax)
  call callstack%stack%set_adj(y%vi_index(), ay)
  call callstack%stack%set_adj(z%vi_index(), az)
  h = callstack%head
  t = callstack%stack%head
  n = vp_int(0, 6)
  call begin_nested()
  u = var(c)
  w = u
  do i = 1, n
     w = w * u
  end do
  v = sin(w)
  call set_zero_nested_adj()
  call v%grad_nested()
  q = 1
  do i = 1, n
     q = q * c
  end do
  call near("du", u%adj(), cos(c * q) * (n+1) * q)
  call set_zero_nested_adj()
  call same("zero", u%adj(), 0.d0)
  call same("zerov", v%adj(), 0.d0)
  call same("in-ax", x%adj(), ax)
  call end_nested()
  call ieq("head", callstack%head, h)
  call ieq("tape", callstack%stack%head, t)
  call same("xv", x%val(), a)
  call same("yv", y%val(), b)
  call same("zv", z%val(), a * b)
  call same("ax", x%adj(), ax)
  call same("ay", y%adj(), ay)
  call same("az", z%adj(), az)
  call set_zero_all_adj()
  call z%grad()
  call near("dx", x%adj(), b)
  call near("dy", y%adj(), a)
''')
    # the space given back is clean: what is recorded next is exactly what a fresh tape would hold
    for nm, body, val, dx, dy in (
            ('leaf', 'w = var(c)', 'c', '0.d0', '0.d0'),
            ('mul', 'w = x * y', 'a*b', 'b', 'a'),
            ('vd', 'w = x * c', 'a*c', 'c', '0.d0'),
            ('dop', 'w = var(c, [a, b])', 'c', '0.d0', '0.d0')):
        out += entry('h_reuse_' + nm, '''  type(var) :: x, y, u, v, w, q, s(3)
  real(real64) :: a, b, c
  integer :: i, n''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  c = vp_real(1.5d0, 2.d0)
  x = var(a)
  y = var(b)
  n = vp_int(1, 4)
  call begin_nested()
  u = var(c)
  do i = 1, n
     v = exp(u) * sum([u, u, u])
     u = v / u
     q = log_sum_exp([u, v, u, v])
  end do
  call q%%grad_nested()
  call end_nested()
  %s
  call ieq("first-free", w%%vi, y%%vi + 1)
  call same("adj0", w%%adj(), 0.d0)
  call near("w", w%%val(), %s)
  q = w * y
  call q%%grad()
  call near("dw", w%%adj(), b)
  call near("dx", x%%adj(), b * (%s))
  call near("dy", y%%adj(), b * (%s) + (%s))
''' % (body, val, dx, dy, val))
    # a fresh leaf after a nest must not inherit an operation
    out += entry('h_noinherit', '''  type(var) :: x, y, w, f
  real(real64) :: a, b, c''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  c = vp_real(0.5d0, 2.d0)
  x = var(a)
  call begin_nested()
  y = x * x
  w = x / y
  call end_nested()
  y = var(b)
  w = var(c, [x, y])
  f = y * x
  call f%grad()
  call near("dx", x%adj(), b)
  call near("dy", y%adj(), a)
  call same("dw", w%adj(), 0.d0)
''')
    out += entry('h_userchain', '''  type(var) :: x, w
  real(real64) :: a''', '''  a = vp_real(0.5d0, 2.d0)
  x = var(a)
  call begin_nested()
  w = x * 2.d0
  call end_nested()
  ! a node whose operands carry no derivative information propagates nothing
  w = var(a, [x], [a])
  call w%grad()
  call same("dx", x%adj(), 0.d0)
''')
    # levels
    out += entry('h_levels', '''  type(var) :: x, y(10), f(10)
  real(real64) :: a, b(10)
  integer :: i, n, h(10), t(10)''', '''  n = vp_int(1, 10)
  a = vp_real(0.5d0, 2.d0)
  x = var(a)
  do i = 1, n
     h(i) = callstack%head
     t(i) = callstack%stack%head
     call begin_nested()
     call ieq("nested-head", curr_nested_vari_head(), h(i))
     b(i) = vp_real(0.5d0, 2.d0)
     y(i) = var(b(i))
     f(i) = y(i) * y(i) + 1.d0
  end do
  do i = n, 1, -1
     call set_zero_nested_adj()
     call f(i)%grad_nested()
     call near("dy", y(i)%adj(), 2 * b(i))
     if (i > 1) call same("below", y(i-1)%adj(), 0.d0)
     call ieq("nested-head2", curr_nested_vari_head(), h(i))
     call end_nested()
     call ieq("head", callstack%head, h(i))
     call ieq("tape", callstack%stack%head, t(i))
  end do
  call same("x", x%val(), a)
  call same("xa", x%adj(), 0.d0)
''')
    # zeroing/sweeping only the top level
    out += entry('h_toponly', '''  type(var) :: x, y, z, f
  real(real64) :: a, b, c''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  c = vp_real(0.5d0, 2.d0)
  x = var(a)
  f = x * x
  call f%grad()
  call near("f1", x%adj(), 2 * a)
  call begin_nested()
  y = var(b)
  call begin_nested()
  z = var(c) * y
  call z%grad_nested()
  call near("y", y%adj(), c)
  call set_zero_nested_adj()
  call near("y-kept", y%adj(), c)
  call same("z-zeroed", z%adj(), 0.d0)
  call end_nested()
  call near("y-kept2", y%adj(), c)
  call set_zero_nested_adj()
  call same("y-zeroed", y%adj(), 0.d0)
  call near("x-kept", x%adj(), 2 * a)
  call same("f-kept", f%adj(), 1.d0)
  call end_nested()
  call near("x-kept2", x%adj(), 2 * a)
''')
    # outside any nest: the nested versions act on the whole tape, end without begin does nothing
    out += entry('h_toplevel', '''  type(var) :: x, y, f
  real(real64) :: a, b
  integer :: h, t''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  x = var(a)
  y = var(b)
  f = x * y
  h = callstack%head
  t = callstack%stack%head
  call end_nested()
  call ieq("head", callstack%head, h)
  call ieq("tape", callstack%stack%head, t)
  call f%grad_nested()
  call near("dx", x%adj(), b)
  call near("dy", y%adj(), a)
''')
    out += entry('h_toplevel_zero', '''  type(var) :: x, y, f
  real(real64) :: a, b''', '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  x = var(a)
  y = var(b)
  f = x * y
  call f%grad()
  call set_zero_nested_adj()
  call same("dx", x%adj(), 0.d0)
  call same("dy", y%adj(), 0.d0)
''')
    # a nest that is left exactly when the tape is full, or before anything was ever recorded
    out += entry('h_full', '''  type(var) :: x(9)
  real(real64) :: a(9)
  integer :: i, n, m''', '''  n = vp_int(0, 4)
  m = vp_int(0, 5)
  do i = 1, n
     a(i) = vp_any()
     x(i) = var(a(i))
  end do
  call begin_nested()
  do i = n + 1, n + m
     a(i) = vp_any()
     x(i) = var(a(i))
     call same("in", x(i)%val(), a(i))
  end do
  call end_nested()
  do i = 1, n
     call same("kept", x(i)%val(), a(i))
  end do
  x(n+1) = var()
  call same("new-val", x(n+1)%val(), 0.d0)
  call same("new-adj", x(n+1)%adj(), 0.d0)
''')
    return {'c08.F90': out}
