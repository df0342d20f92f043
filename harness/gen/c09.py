from ops import *

MOD = '''module c09_f
  use fazang
  implicit none
  real(8) :: c09_p = 0
contains
  function f1(x) result(f)
    type(var), intent(in) :: x(:)
    type(var) :: f
    f = x(1) * sin(x(2)) + exp(x(1)) * 3.d0
  end function
  function fsum(x) result(f)
    type(var), intent(in) :: x(:)
    type(var) :: f
    f = dot_product(x, x) + x(1)
  end function
  function fid(x) result(f)
    type(var), intent(in) :: x(:)
    type(var) :: f
    f = x(size(x))
  end function
  function fnest(x) result(f)
    type(var), intent(in) :: x(:)
    type(var) :: f
    real(8) :: g(3)
    g = gradient(f1, [1.5d0, 0.25d0])
    c09_p = g(2)
    f = x(1) * x(1) + g(3) * x(2)
  end function
  function j2(x, n) result(f)
    integer, intent(in) :: n
    type(var), intent(in) :: x(:)
    type(var) :: f(n)
    integer :: i
    type(var) :: s
    s = x(1) * x(2)
    do i = 1, n
       f(i) = s * x(mod(i, 2) + 1) + x(1) * (i + 1.d0)
    end do
  end function
  function jshare(x, n) result(f)
    integer, intent(in) :: n
    type(var), intent(in) :: x(:)
    type(var) :: f(n)
    f(1) = x(1) / x(2)
    if (n > 1) f(2) = f(1) * f(1)
    if (n > 2) f(3) = x(2)
  end function
end module

'''


def generate(tier):
    out = MOD
    U = '  use c09_f\n'

    def ent(n, d, b):
        return entry(n, d, b).replace('  use vp\n', U + '  use vp\n', 1)
    OUT = '''  real(real64) :: a, b, x1, x2, ax, ay, az
  type(var) :: x, y, z
  integer :: h, t
'''
    PRE = '''  a = vp_real(0.5d0, 2.d0)
  b = vp_real(0.5d0, 2.d0)
  x1 = vp_real(-2.d0, 2.d0)
  x2 = vp_real(0.5d0, 2.d0)
  x = var(a)
  y = var(b)
  z = x * y
  call z%grad()
  h = callstack%head
  t = callstack%stack%head
'''
    POST = '''  call ieq("head", callstack%head, h)
  call ieq("tape", callstack%stack%head, t)
  call same("xv", x%val(), a)
  call same("yv", y%val(), b)
  call same("zv", z%val(), a * b)
  call near("xa", x%adj(), b)
  call near("ya", y%adj(), a)
  call near("za", z%adj(), 1.d0)
  call set_zero_all_adj()
  call z%grad()
  call near("dx", x%adj(), b)
  call near("dy", y%adj(), a)
'''
    out += ent('h_gradient', OUT + '  real(real64) :: g(3)', PRE + '''  g = gradient(f1, [x1, x2])
  call near("f", g(1), x1 * sin(x2) + exp(x1) * 3)
  call near("g1", g(2), sin(x2) + exp(x1) * 3)
  call near("g2", g(3), x1 * cos(x2))
''' + POST)
    out += ent('h_gradient_fresh', '  real(real64) :: g(3), x1, x2', '''  x1 = vp_real(-2.d0, 2.d0)
  x2 = vp_real(0.5d0, 2.d0)
  g = gradient(f1, [x1, x2])
  call near("f", g(1), x1 * sin(x2) + exp(x1) * 3)
  call near("g1", g(2), sin(x2) + exp(x1) * 3)
  call near("g2", g(3), x1 * cos(x2))
  g = gradient(f1, [x2, x1])
  call near("f'", g(1), x2 * sin(x1) + exp(x2) * 3)
  call near("g1'", g(2), sin(x1) + exp(x2) * 3)
  call near("g2'", g(3), x2 * cos(x1))
  call ieq("empty", callstack%head, 1)
  call ieq("empty-tape", callstack%stack%head, 1)
''')
    out += ent('h_gradient_n', '''  integer, parameter :: m = 5
  real(real64) :: q(m), g(m+1)
  integer :: i, n''', '''  n = vp_int(1, m)
  do i = 1, n
     q(i) = vp_real(-2.d0, 2.d0)
  end do
  g(1:n+1) = gradient(fsum, q(1:n))
  call near("f", g(1), sum(q(1:n)**2) + q(1))
  do i = 1, n
     call near("g", g(i+1), 2*q(i) + merge(1.d0, 0.d0, i == 1))
  end do
  g(1:n+1) = gradient(fid, q(1:n))
  call same("fid", g(1), q(n))
  do i = 1, n
     call same("gid", g(i+1), merge(1.d0, 0.d0, i == n))
  end do
''')
    out += ent('h_gradient_nested', OUT + '  real(real64) :: g(3)', PRE + '''  g = gradient(fnest, [x1, x2])
  call near("inner", c09_p, sin(0.25d0) + exp(1.5d0) * 3)
  call near("f", g(1), x1*x1 + 1.5d0*cos(0.25d0)*x2)
  call near("g1", g(2), 2*x1)
  call near("g2", g(3), 1.5d0*cos(0.25d0))
''' + POST)
    out += ent('h_gradient_in_nest', OUT + '  real(real64) :: g(3), c\n  type(var) :: u, v', PRE + '''  c = vp_real(0.5d0, 2.d0)
  call begin_nested()
  u = var(c)
  v = u * u
  call v%grad_nested()
  g = gradient(f1, [x1, x2])
  call near("g1", g(2), sin(x2) + exp(x1) * 3)
  call near("g2", g(3), x1 * cos(x2))
  call near("ua", u%adj(), 2 * c)
  call near("va", v%adj(), 1.d0)
  call set_zero_nested_adj()
  call v%grad_nested()
  call near("u2", u%adj(), 2 * c)
  call end_nested()
''' + POST)
    for nm in ('j2', 'jshare'):
        if nm == 'j2':
            chk = '''     q(1) = mod(i,2)+1
     w = merge(x1, x2, mod(i,2) == 0)
     call near("f", jac(i,1), x1*x2*w + x1*(i+1))
     call near("d1", jac(i,2), merge(2*x1*x2, x2*x2, mod(i,2) == 0) + (i+1))
     call near("d2", jac(i,3), merge(x1*x1, 2*x1*x2, mod(i,2) == 0))
'''
        else:
            chk = '''     w = x1/x2
     if (i == 1) then
        call near("f", jac(i,1), w)
        call near("d1", jac(i,2), 1/x2)
        call near("d2", jac(i,3), -w/x2)
     elseif (i == 2) then
        call near("f", jac(i,1), w*w)
        call near("d1", jac(i,2), 2*w/x2)
        call near("d2", jac(i,3), -2*w*w/x2)
     else
        call near("f", jac(i,1), x2)
        call near("d1", jac(i,2), 0.d0)
        call near("d2", jac(i,3), 1.d0)
     end if
'''
        out += ent('h_jac_' + nm, OUT + '''  real(real64) :: jac(3,3), w
  integer :: i, n, q(1)''', PRE + '''  n = vp_int(1, 3)
  jac(1:n,:) = jacobian(%s, n, [x1, x2])
  do i = 1, n
%s  end do
''' % (nm, chk) + POST)
        out += ent('h_jac_fresh_' + nm, '''  real(real64) :: jac(3,3), w, x1, x2
  integer :: i, n, q(1)''', '''  x1 = vp_real(-2.d0, 2.d0)
  x2 = vp_real(0.5d0, 2.d0)
  n = vp_int(1, 3)
  jac(1:n,:) = jacobian(%s, n, [x1, x2])
  do i = 1, n
%s  end do
  call ieq("empty", callstack%%head, 1)
''' % (nm, chk))
    return {'c09.F90': out}
