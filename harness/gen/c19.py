# cvodes_sol: what the integrator is asked to do, and what becomes of its answers. The integrator is the real one, held to
# order 1, to steps of a given size and to one evaluation per step of the system it is given.
C = r'''#include "vp.h"
#include <stdlib.h>
#include <cvodes/cvodes.h>
#include "cvodes_impl.h"
#include <sundials/sundials_nonlinearsolver.h>
typedef struct { SUNNonlinSolSysFn f; } NL;
static SUNNonlinearSolver_Type nl_type(SUNNonlinearSolver s) { return SUNNONLINEARSOLVER_FIXEDPOINT; }
static int nl_sys(SUNNonlinearSolver s, SUNNonlinSolSysFn f) { ((NL *) s->content)->f = f; return 0; }
static int nl_solve(SUNNonlinearSolver s, N_Vector y0, N_Vector y, N_Vector w, realtype tol, booleantype c, void *mem) { return ((NL *) s->content)->f(y, y, mem); }
static SUNNonlinearSolver nls(SUNContext c) { SUNNonlinearSolver s = SUNNonlinSolNewEmpty(c); NL *l = malloc(sizeof(NL)); l->f = NULL; s->content = l; s->ops->gettype = nl_type; s->ops->setsysfn = nl_sys; s->ops->solve = nl_solve; return s; }
static double norm(N_Vector x, N_Vector w) { return 0; }
static int ones(N_Vector y, N_Vector w, void *u) { N_VConst(1, w); return 0; }
static int nhook;
void c19_start(void) { nhook = 0; }
int c19_hooks(void) { return nhook; }
/* checks what was set up, then puts the integrator on rails */
void c19_hook(void *mem, double h, int lmm, int n, int ns, int ys, double t0, const double *y0, int mxstep)
{
  CVodeMem m = mem; int r, i, j; double *z = N_VGetArrayPointer(m->cv_zn[0]); nhook++;
  IEQ("method", m->cv_lmm, lmm); vp_bits("t0", 2, m->cv_tn, t0); IEQ("size", (int) N_VGetLength(m->cv_zn[0]), n); IEQ("sensitivities", m->cv_sensi ? m->cv_Ns : 0, ns); TRUE_("linear-solver", m->cv_lmem != NULL); TRUE_("data-for-f", m->cv_user_data != NULL);
  for (i = 0; i < n; i++) SAME("y0", z[i], y0[i]);
  if (ns) for (j = 0; j < ns; j++) { double *s = N_VGetArrayPointer(m->cv_znS[0][j]); for (i = 0; i < n; i++) SAME("initial-sensitivity", s[i], ys && i == j ? 1.0 : 0.0); }
  for (i = 0; i <= m->cv_qmax; i++) { m->cv_zn[i]->ops->nvwrmsnorm = norm; if (ns) for (j = 0; j < ns; j++) m->cv_znS[i][j]->ops->nvwrmsnorm = norm; }
  m->cv_acor->ops->nvwrmsnorm = m->cv_tempv->ops->nvwrmsnorm = m->cv_ftemp->ops->nvwrmsnorm = norm;
  if (ns) for (j = 0; j < ns; j++) m->cv_acorS[j]->ops->nvwrmsnorm = m->cv_tempvS[j]->ops->nvwrmsnorm = m->cv_ftempS[j]->ops->nvwrmsnorm = norm;
  r = CVodeWFtolerances(m, ones) | CVodeSetInitStep(m, h) | CVodeSetMaxStep(m, h < 0 ? -h : h) | CVodeSetMaxOrd(m, 1) | CVodeSetNonlinearSolver(m, nls(m->cv_sunctx));
  if (ns) { IEQ("staggered", m->cv_ism, CV_STAGGERED); r |= CVodeSetNonlinearSolverSensStg(m, nls(m->cv_sunctx)); }
  if (mxstep) r |= CVodeSetMaxNumSteps(m, mxstep);
  IEQ("hook", r, 0);
}
void c19_tol(void *mem, double rt, double at, int mx, int lmm)
{ CVodeMem m = mem; SAME("rtol", m->cv_reltol, rt); SAME("atol", m->cv_Sabstol, at); IEQ("scalar", m->cv_itol, 1); IEQ("max-steps", (int) m->cv_mxstep, mx); IEQ("method", m->cv_lmm, lmm); }
'''
MOD = '''module c19m
  use, intrinsic :: iso_c_binding
  use fazang
  use fazang_cvodes_mod
  use fazang_cvodes_model_mod
  use fazang_cvodes_options_mod
  use vp
  implicit none
  integer, parameter :: MX = 3
  integer :: nn, np
  real(c_double) :: a(MX, MX), b(MX), c(MX, MX), d(MX), pv(MX)
  type, extends(cvodes_options) :: hook
     real(c_double) :: h, t0, y0(MX)
     integer :: n, ns, ys, mx = 0
   contains
     procedure :: set => hook_set
  end type
  interface
     subroutine c19_hook(mem, h, lmm, n, ns, ys, t0, y0, mx) bind(C, name="c19_hook")
       import
       type(c_ptr), value :: mem
       real(c_double), value :: h, t0
       integer(c_int), value :: lmm, n, ns, ys, mx
       real(c_double) :: y0(*)
     end subroutine
     subroutine c19_tol(mem, rt, at, mx, lmm) bind(C, name="c19_tol")
       import
       type(c_ptr), value :: mem
       real(c_double), value :: rt, at
       integer(c_int), value :: mx, lmm
     end subroutine
     subroutine c19_start() bind(C, name="c19_start")
     end subroutine
     function c19_hooks() bind(C, name="c19_hooks") result(r)
       import
       integer(c_int) :: r
     end function
  end interface
contains
  subroutine hook_set(this, mem)
    class(hook), intent(in) :: this
    type(c_ptr), intent(inout) :: mem
    call c19_hook(mem, this %% h, this %% cv_method, this %% n, this %% ns, this %% ys, this %% t0, this %% y0, this %% mx)
  end subroutine
  function num(k) result(x)
    integer, intent(in) :: k
    real(c_double) :: x
    if (k > 0) then
       x = vp_real(1.125d0, 2.d0)
    else
       x = vp_real(-2.d0, -1.125d0)
    end if
  end function
  subroutine draw(n, m)
    integer, intent(in) :: n, m
    integer :: i, j
    nn = n; np = m; a = 0; b = 0; c = 0; d = 0
    do i = 1, n
       do j = 1, n
          a(i, j) = num(i - j)
       end do
       do j = 1, m
          c(i, j) = num(j - i + 1)
       end do
       b(i) = num(i)
       d(i) = num(i)
    end do
    do j = 1, m
       pv(j) = num(j)
    end do
  end subroutine
  ! f_i = sum_j a_ij y_j + b_i + d_i t + sum_k c_ik p_k y_i
  subroutine fr(t, y, fy)
    real(c_double), intent(in) :: t, y(:)
    real(c_double), intent(inout) :: fy(size(y))
    integer :: i, j
    call ieq("neq", size(y), nn)
    do i = 1, nn
       fy(i) = b(i) + d(i) * t
       do j = 1, nn
          fy(i) = fy(i) + a(i, j) * y(j)
       end do
       do j = 1, np
          fy(i) = fy(i) + c(i, j) * pv(j) * y(i)
       end do
    end do
  end subroutine
  subroutine fy(t, y, f)
    real(c_double), intent(in) :: t
    type(var), intent(in) :: y(:)
    type(var), intent(inout) :: f(size(y))
    integer :: i, j
    do i = 1, nn
       f(i) = b(i) + d(i) * t
       do j = 1, nn
          f(i) = f(i) + a(i, j) * y(j)
       end do
    end do
  end subroutine
  subroutine fp(t, y, f, p)
    real(c_double), intent(in) :: t
    type(var), intent(in) :: y(:), p(:)
    type(var), intent(inout) :: f(size(y))
    integer :: i, j
    call fy(t, y, f)
    do i = 1, nn
       do j = 1, np
          f(i) = f(i) + c(i, j) * p(j) * y(i)
       end do
    end do
  end subroutine
  ! one evaluation of the sensitivity equations; k > 0: of parameter k
  function fs(y, s, k) result(r)
    real(c_double), intent(in) :: y(:), s(:)
    integer, intent(in) :: k
    real(c_double) :: r(size(y))
    integer :: i, j
    do i = 1, nn
       r(i) = 0
       do j = 1, nn
          r(i) = r(i) + a(i, j) * s(j)
       end do
       do j = 1, np
          r(i) = r(i) + c(i, j) * pv(j) * s(i)
       end do
       if (k > 0) r(i) = r(i) + c(i, k) * y(i)
    end do
  end function
  ! the states and sensitivities at the steps
  subroutine run(t0, h, n, ns, ys, st, y0, Y, S)
    integer, intent(in) :: n, ns, st
    logical, intent(in) :: ys
    real(c_double), intent(in) :: t0, h, y0(n)
    real(c_double), intent(out) :: Y(n, 0:st), S(n, ns, 0:st)
    real(c_double) :: z(n), w(n, ns), g(n)
    integer :: j, k
    Y(:, 0) = y0
    S(:, :, 0) = 0
    if (ys) then
       do j = 1, n
          S(j, j, 0) = 1
       end do
    end if
    call fr(t0, y0, g)
    z = h * g
    do j = 1, ns
       w(:, j) = h * fs(y0, S(:, j, 0), merge(0, j, ys))
    end do
    do k = 1, st
       call fr(t0 + k * h, Y(:, k - 1) + z, g)
       Y(:, k) = Y(:, k - 1) + h * g
       z = Y(:, k) - Y(:, k - 1)
       do j = 1, ns
          S(:, j, k) = S(:, j, k - 1) + h * fs(Y(:, k), S(:, j, k - 1) + w(:, j), merge(0, j, ys))
          w(:, j) = S(:, j, k) - S(:, j, k - 1)
       end do
    end do
  end subroutine
end module
'''.replace('%%', '%')
HEAD = '''subroutine %(n)s() bind(C, name="%(n)s")
  use, intrinsic :: iso_c_binding
  use fazang
  use fazang_cvodes_mod
  use fazang_cvodes_model_mod
  use fazang_cvodes_options_mod
  use fcvodes_mod
  use vp
  use c19m
  implicit none
  integer, parameter :: n = %(neq)d, m = %(m)d, ns = %(ns)d, st = %(st)d, no = %(no)d
  real(c_double), parameter :: t0 = 0.5d0, h = %(h)s
  type(hook) :: o
  real(c_double) :: y0(n), Y(n, 0:st), S(n, max(ns, 1), 0:st), ts(no), w, th
  integer :: i, j, k, q
  real(c_double), parameter :: at(no) = %(at)s      ! output times in steps
  call draw(n, m)
  call c19_start()
  do i = 1, n
     y0(i) = num(i)
  end do
  call run(t0, h, n, ns, %(ys)s, st, y0, Y, S)
  ts = t0 + h * at
  o = hook(cv_method=%(lmm)s, h=h, t0=t0, y0=[y0, (0.d0, i = 1, 3 - n)], n=n, ns=ns, ys=%(ysi)d)
'''
VAL = '''  do k = 1, no
     q = ceiling(at(k))
     th = q - at(k)
     do i = 1, n
        call near("state", %(v)s, (1 - th) * Y(i, q) + th * Y(i, q - 1))
     end do
  end do
  call ieq("options-used-once", c19_hooks(), 1)
'''
DATA = HEAD.replace('  integer :: i, j', '  real(c_double) :: yy(n), yt(n, no)\n  integer :: i, j') + '''  yy = y0
  yt = cvodes_sol(t0, yy, ts, fr, o)
''' + VAL % dict(v='yt(i, k)') + 'end subroutine\n\n'

def val(v):
    return VAL % dict(v=v)


def sens(**d):
    s = (HEAD % d).replace('  integer :: i, j', '  type(var) :: yv(n), p(max(m, 1)), yt(n, no), x, z\n  real(c_double) :: yy(n)\n  integer :: i, j')
    v = 'p' if d['m'] else 'yv'
    s += '''  x = var(3.d0)
  yv = var(y0)
  yy = y0
  do j = 1, m
     p(j) = var(pv(j))
  end do
  z = %s(1) * x
''' % v
    s += '  yt = cvodes_sol(t0, yy, ts, p, fr, fp, o)\n' if d['m'] else '  yt = cvodes_sol(t0, yv, ts, fr, fy, o)\n'
    s += val('yt(i, k) % val()')
    s += '''  do k = 1, no
     q = ceiling(at(k))
     th = q - at(k)
     do i = 1, n
        call set_zero_all_adj()
        call yt(i, k) %% grad()
        do j = 1, ns
           call near("derivative", %(v)s(j) %% adj(), (1 - th) * S(i, j, q) + th * S(i, j, q - 1))
        end do
        call same("others", x %% adj(), 0.d0)
     end do
  end do
  do j = 1, ns
     call same("operands-kept", %(v)s(j) %% val(), %(w)s(j))
  end do
  ! a use of the result
  call set_zero_all_adj()
  z = z + yt(n, no) * x
  w = yt(n, no) %% val()
  call z %% grad()
  do j = 1, ns
     call near("chained", %(v)s(j) %% adj(), merge(3.d0, 0.d0, j == 1) + 3 * ((1 - th) * S(n, j, q) + th * S(n, j, q - 1)))
  end do
  call near("chained-other", x %% adj(), %(w)s(1) + w)
end subroutine

''' % dict(v=v, w='pv' if d['m'] else 'y0')
    return s


STOP = '''subroutine h_stop%(k)d() bind(C, name="h_stop%(k)d")
  use, intrinsic :: iso_c_binding
  use fazang
  use fazang_cvodes_mod
  use fazang_cvodes_options_mod
  use fcvodes_mod
  use vp
  use c19m
  implicit none
  type(hook) :: o
  real(c_double) :: yy(1), r(1, 1)
  type(var) :: yv(1), p(1), q(1, 1)
  call draw(1, 1)
  call c19_start()
  yy(1) = num(1)
  yv = var(yy)
  p(1) = var(pv(1))
  o = hook(cv_method=CV_BDF, h=0.25d0, t0=0.5d0, y0=[yy, 0.d0, 0.d0], n=1, ns=%(ns)d, ys=%(ys)d, mx=1)
  call vp_expect_stop()
  %(call)s
  call ck("not-stopped", .false.)
end subroutine

'''
TOLS = '''subroutine h_tol() bind(C, name="h_tol")
  use, intrinsic :: iso_c_binding
  use fazang
  use fazang_cvodes_mod
  use fazang_cvodes_model_mod
  use fazang_cvodes_options_mod
  use fcvodes_mod
  use vp
  use c19m
  implicit none
  type(cvodes_tol) :: o
  type(cvs_rhs), target :: ode
  type(cvodes_service) :: serv
  real(c_double) :: y(2), rt, at
  integer :: ms, lmm
  call draw(2, 0)
  y = [num(1), num(2)]
  rt = vp_real(1.d-12, 0.1d0)
  at = vp_real(1.d-14, 1.d0)
  ms = vp_int(1, 3) * 700
  lmm = merge(CV_BDF, CV_ADAMS, vp_int(0, 1) == 1)
  ode = cvs_rhs(fr)
  serv = new_cvodes_service(0.5d0, y, ode, lmm)
  o = cvodes_tol(lmm, rt, at, int(ms, c_long))
  call o % set(serv % mem)
  call c19_tol(serv % mem, rt, at, ms, lmm)
end subroutine

'''


def generate(tier):
    t = MOD + TOLS
    t += STOP % dict(k=0, ns=0, ys=0, call='r = cvodes_sol(0.5d0, yy, [1.d0], fr, o)')
    t += STOP % dict(k=1, ns=1, ys=1, call='q = cvodes_sol(0.5d0, yv, [1.d0], fr, fy, o)')
    t += STOP % dict(k=2, ns=1, ys=0, call='q = cvodes_sol(0.5d0, yy, [1.d0], p, fr, fp, o)')
    for i, (n, at, h, lmm) in enumerate(((1, [1, 2], 0.25, 'CV_BDF'), (2, [1, 2], 0.25, 'CV_ADAMS'), (1, [0.5, 1.5, 3], 0.5, 'CV_BDF'), (2, [2, 2.5], -0.25, 'CV_BDF'), (3, [1], 0.5, 'CV_BDF'), (1, [0.25, 0.75, 1.0], 1, 'CV_ADAMS'))):
        d = dict(neq=n, st=-int(-at[-1] // 1), no=len(at), h='%gd0' % h, at='[' + ', '.join('%gd0' % x for x in at) + ']', lmm=lmm)
        t += DATA % dict(d, n='h_data%d' % i, m=0, ns=0, ys='.false.', ysi=0)
        t += sens(**dict(d, n='h_y%d' % i, m=0, ns=n, ys='.true.', ysi=1))
        for m in (1, 2, 3):
            if n * m < 7 and (m < 3 or n == 1): t += sens(**dict(d, n='h_p%d_%d' % (i, m), m=m, ns=m, ys='.false.', ysi=0))
    return {'c19.F90': t, 'c19c.c': C}
