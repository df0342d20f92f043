# The right-hand sides CVODES is given for an ODE and its sensitivities: f itself, and J s + df/dp by automatic differentiation
MOD = '''module c18m
  use, intrinsic :: iso_c_binding
  use fazang
  use fazang_cvodes_model_mod
  use vp
  implicit none
  integer, parameter :: MX = 4
  integer :: nn, calls
  logical :: free
  real(c_double) :: a(MX, MX), b(MX), c(MX, MX), d(MX), tt
contains
  ! any value, or (where many would fork too often) any of a sign
  function num(k) result(x)
    integer, intent(in) :: k
    real(c_double) :: x
    if (free) then
       x = vp_real(-3.d0, 3.d0)
    else if (k > 0) then
       x = vp_real(0.5d0, 3.d0)
    else
       x = vp_real(-3.d0, -0.5d0)
    end if
  end function
  subroutine draw(n, m)
    integer, intent(in) :: n, m
    integer :: i, j
    free = n == 1 .and. m < 2
    nn = n; calls = 0; a = 0; b = 0; c = 0; d = 0
    do i = 1, n
       do j = 1, n
          a(i, j) = num(i - j)
       end do
       do j = 1, m
          c(i, j) = num(j - i)
       end do
       b(i) = num(i - 1)
       d(i) = num(i)
    end do
    tt = num(1)
  end subroutine
  ! f_i = sum_j a_ij y_j + b_i y_1 y_n + d_i t + sum_k c_ik p_k y_i
  subroutine fr(t, y, fy)
    real(c_double), intent(in) :: t, y(:)
    real(c_double), intent(inout) :: fy(size(y))
    integer :: i, j
    calls = calls + 1
    call same("time", t, tt)
    call ieq("neq", size(y), nn)
    do i = 1, size(y)
       fy(i) = b(i) * y(1) * y(size(y)) + d(i) * t
       do j = 1, size(y)
          fy(i) = fy(i) + a(i, j) * y(j)
       end do
    end do
  end subroutine
  subroutine fy(t, y, f)
    real(c_double), intent(in) :: t
    type(var), intent(in) :: y(:)
    type(var), intent(inout) :: f(size(y))
    integer :: i, j
    calls = calls + 1
    call same("time", t, tt)
    call ieq("neq", size(y), nn)
    do i = 1, size(y)
       f(i) = b(i) * y(1) * y(size(y)) + d(i) * t
       do j = 1, size(y)
          f(i) = f(i) + a(i, j) * y(j)
       end do
    end do
  end subroutine
  subroutine fp(t, y, f, p)
    real(c_double), intent(in) :: t
    type(var), intent(in) :: y(:), p(:)
    type(var), intent(inout) :: f(size(y))
    integer :: i, k
    call fy(t, y, f)
    do i = 1, size(y)
       do k = 1, size(p)
          f(i) = f(i) + c(i, k) * p(k) * y(i)
       end do
    end do
  end subroutine
end module
'''
HEAD = '''subroutine %(n)s() bind(C, name="%(n)s")
  use, intrinsic :: iso_c_binding
  use fazang
  use fazang_cvodes_model_mod
  use fsundials_context_mod
  use fsundials_nvector_mod
  use fnvector_serial_mod
  use fazang_nested_tape_mod
  use vp
  use c18m
  implicit none
'''
SENS = HEAD + '''  integer, parameter :: n = %(neq)d, m = %(m)d, ns = %(ns)d
  type(cvs_rhs), target :: ode
  type(c_ptr) :: ctx, yS, yD
  type(N_Vector), pointer :: y, f, t1, t2, s, q
  real(c_double), pointer :: yv(:), fv(:), sv(:), qv(:)
  real(c_double) :: y0(n), f0(n), s0(n, ns), w
  real(rk), target :: p(m)
  type(var) :: x, z
  integer :: i, j, l, k, r, lvl
  call draw(n, m)
  x = var(3.d0)
  z = x * x
  do k = 1, m
     p(k) = num(k - 1)
  end do
  r = FSUNContext_Create(c_null_ptr, ctx)
  y => FN_VNew_Serial(int(n, c_long), ctx)
  f => FN_VClone(y)
  t1 => FN_VClone(y)
  t2 => FN_VClone(y)
  yS = FN_VCloneVectorArray(ns, y)
  yD = FN_VCloneVectorArray(ns, y)
  yv => FN_VGetArrayPointer(y)
  fv => FN_VGetArrayPointer(f)
  do i = 1, n
     y0(i) = num(2 - i)
     yv(i) = y0(i)
     fv(i) = -7
     do j = 1, ns
        s => FN_VGetVecAtIndexVectorArray(yS, j - 1)
        sv => FN_VGetArrayPointer(s)
        s0(i, j) = num(i - j)
        sv(i) = s0(i, j)
     end do
  end do
  ode = %(make)s
  do k = 1, %(rep)d
     call ieq("f-ok", RhsFn(tt, y, f, c_loc(ode)), 0)
     call ieq("f-once", calls, 1)
     do i = 1, n
        w = b(i) * y0(1) * y0(n) + d(i) * tt
        do j = 1, n
           w = w + a(i, j) * y0(j)
        end do
        call near("f", fv(i), w)
        f0(i) = fv(i)
     end do
     calls = 0
     call ieq("sens-ok", CVSensRhsFn(int(ns, c_long), tt, y, f, yS, yD, c_loc(ode), t1, t2), 0)
     call ieq("sens-once", calls, 1)
     calls = 0
     do i = 1, n
        call same("y-kept", yv(i), y0(i))
        call same("f-kept", fv(i), f0(i))
        do j = 1, ns
           s => FN_VGetVecAtIndexVectorArray(yS, j - 1)
           q => FN_VGetVecAtIndexVectorArray(yD, j - 1)
           sv => FN_VGetArrayPointer(s)
           qv => FN_VGetArrayPointer(q)
           call same("s-kept", sv(i), s0(i, j))
           w = b(i) * (y0(1) * s0(n, j) + y0(n) * s0(1, j))
           do l = 1, n
              w = w + a(i, l) * s0(l, j)
           end do
           do l = 1, %(mp)d
              w = w + c(i, l) * p(l) * s0(i, j)
           end do
           if (j > %(off)d) w = w + c(i, j - %(off)d) * y0(i)
           call near("sensitivity", qv(i), w)
        end do
     end do
     do l = 1, m
        call same("p-kept", p(l), ode %% pval(l))
     end do
     y0(1) = num(0)
     yv(1) = y0(1)
  end do
  call z %% grad()
  call same("outer-derivative", x %% adj(), 6.d0)
  call same("outer-value", z %% val(), 9.d0)
end subroutine

'''
JAC = HEAD + '''  integer, parameter :: n = %(neq)d
  type(cvs_rhs), target :: ode
  real(c_double) :: y0(n), f0(n), J(n * n), w
  type(var) :: x, z
  integer :: i, k
  call draw(n, 0)
  x = var(3.d0)
  z = x * x
  do i = 1, n
     y0(i) = num(2 - i)
  end do
  f0 = 0
  ode = cvs_rhs(.true., n, fr, fy)
  call calc_jac_yvar(int(n, c_long), tt, y0, f0, J, ode)
  call ieq("f-once", calls, 1)
  do i = 1, n
     do k = 1, n
        w = a(i, k)
        if (k == 1) w = w + b(i) * y0(n)
        if (k == n) w = w + b(i) * y0(1)
        call near("entry", J(i + (k - 1) * n), w)
     end do
  end do
  call z %% grad()
  call same("outer-derivative", x %% adj(), 6.d0)
end subroutine

'''


def generate(tier):
    t = MOD
    for n in (1, 2, 3):
        t += SENS % dict(n='h_y%d' % n, neq=n, m=0, ns=n, make='cvs_rhs(.true., ns, fr, fy)', off=99, rep=2, mp=0)
        if n > 1: t += JAC % dict(n='h_jac%d' % n, neq=n)
    for n, m in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 3), (1, 4), (2, 4), (3, 2)):
        t += SENS % dict(n='h_p%d_%d' % (n, m), neq=n, m=m, ns=m, make='cvs_rhs(.false., ns, p, fr, fp)', off=0, rep=2 if m != 3 or n < 3 else 1, mp=m)
    for n, m in ((1, 1), (2, 1), (1, 3), (2, 2), (2, 3)):
        t += SENS % dict(n='h_yp%d_%d' % (n, m), neq=n, m=m, ns=n + m, make='cvs_rhs(.true., ns, p, fr, fp)', off=n, rep=1, mp=m)
    return {'c18.F90': t}
