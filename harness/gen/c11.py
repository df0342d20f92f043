from ops import *

# matrix products: every shape, repeated variables, partial results used downstream
DECL = '''  type(var) :: x(%(nx)d), va(%(m)d,%(k)d), vb(%(k)d,%(n)d), c(%(m)d,%(n)d), w(%(nx)d), f
  real(real64) :: u(%(nx)d), pa(%(m)d,%(k)d), pb(%(k)d,%(n)d), pc(%(m)d,%(n)d), e(%(m)d,%(n)d), d(%(nx)d)
  integer :: i, j, l, p, m, k, n, ia(%(m)d,%(k)d), ib(%(k)d,%(n)d)'''
BODY = '''  m = %(dm)s
  k = %(dk)s
  n = %(dn)s
  do i = 1, %(nx)d
     u(i) = vp_real(-5.d0, 5.d0)
     x(i) = var(u(i))
  end do
  p = 0
  do j = 1, k
     do i = 1, m
        %(pa)s
     end do
  end do
  do j = 1, n
     do i = 1, k
        %(pb)s
     end do
  end do
  c(1:m,1:n) = matmul(%(call)s)
  ! weights: the adjoint of the product is arbitrary
  f = var(0.d0)
  do j = 1, n
     do i = 1, m
        e(i,j) = vp_real(-5.d0, 5.d0)
        f = f + c(i,j) * var(e(i,j))
     end do
  end do
  d = 0
  do j = 1, n
     do i = 1, m
        pc(i,j) = 0
        do l = 1, k
           pc(i,j) = pc(i,j) + pa(i,l) * pb(l,j)
           %(da)s
           %(db)s
        end do
        call near("value", c(i,j)%%val(), pc(i,j))
     end do
  end do
  call f%%grad()
  do i = 1, %(nx)d
     call near("d", x(i)%%adj(), d(i))
     call same("kept", x(i)%%val(), u(i))
  end do
  do j = 1, n
     do i = 1, m
        call near("adj", c(i,j)%%adj(), e(i,j))
     end do
  end do
'''
VARA = ('p = p + 1; ia(i,j) = p; va(i,j) = x(p); pa(i,j) = u(p)', 'd(ia(i,l)) = d(ia(i,l)) + e(i,j) * pb(l,j)')
VARB = ('p = p + 1; ib(i,j) = p; vb(i,j) = x(p); pb(i,j) = u(p)', 'd(ib(l,j)) = d(ib(l,j)) + e(i,j) * pa(i,l)')
REPA = ('ia(i,j) = %s; va(i,j) = x(ia(i,j)); pa(i,j) = u(ia(i,j))', VARA[1])
REPB = ('ib(i,j) = %s; vb(i,j) = x(ib(i,j)); pb(i,j) = u(ib(i,j))', VARB[1])
DATA = ('pa(i,j) = vp_real(-5.d0, 5.d0)', '')
DATB = ('pb(i,j) = vp_real(-5.d0, 5.d0)', '')


def mm(name, A, B, m, k, n, call, nx=None, fixed=False):
    c = call.replace('A', '%s(1:m,1:k)').replace('B', '%s(1:k,1:n)') % ('va' if A is not DATA else 'pa', 'vb' if B is not DATB else 'pb')
    v = dict(m=m, k=k, n=n, nx=nx or m * k + k * n, pa=A[0], da=A[1], pb=B[0], db=B[1], call=c,
             dm=m if fixed else 'vp_int(1, %d)' % m, dk=k if fixed else 'vp_int(1, %d)' % k, dn=n if fixed else 'vp_int(1, %d)' % n)
    return entry(name, DECL % v, BODY % v)


def generate(tier):
    o = mm('h_vv', VARA, VARB, 3, 2, 3, 'A, B') + mm('h_vd', VARA, DATB, 3, 3, 3, 'A, B') + mm('h_dv', DATA, VARB, 3, 3, 3, 'A, B')
    o += mm('h_vv_long', VARA, VARB, 2, 4, 2, 'A, B')
    sel = lambda t, n: (t[0] % ('vp_int(1, %d)' % n), t[1])
    o += mm('h_vv_rep', sel(REPA, 2), sel(REPB, 2), 1, 3, 2, 'A, B', nx=2, fixed=True)
    o += mm('h_vv_rep2', sel(REPA, 2), sel(REPB, 2), 2, 2, 1, 'A, B', nx=2, fixed=True)
    o += mm('h_vd_rep', sel(REPA, 2), DATB, 2, 2, 2, 'A, B', nx=2, fixed=True)
    o += mm('h_dv_rep', DATA, sel(REPB, 2), 2, 2, 2, 'A, B', nx=2, fixed=True)
    # powers of one matrix, products of products
    o += entry('h_chain', '''  type(var) :: x(2,2), y(2,2), z(2,2), f
  real(real64) :: a(2,2), e(2,2), b(2,2), g(2,2), at(2,2)
  integer :: i, j''', '''  do j = 1, 2
     do i = 1, 2
        a(i,j) = vp_real(-2.d0, 2.d0)
        e(i,j) = vp_real(-2.d0, 2.d0)
        x(i,j) = var(a(i,j))
     end do
  end do
  y = matmul(x, x)
  z = matmul(y, x)
  f = var(0.d0)
  do j = 1, 2
     do i = 1, 2
        f = f + z(i,j) * var(e(i,j))
     end do
  end do
  call f%grad()
  ! derivative of tr(e^T x^3): sum over positions of (x^T)^p e (x^T)^q
  do j = 1, 2
     do i = 1, 2
        at(i,j) = a(j,i)
     end do
  end do
  call mul(a, a, b)
  do j = 1, 2
     do i = 1, 2
        call near("y", y(i,j)%val(), b(i,j))
     end do
  end do
  call mul(b, a, g)
  do j = 1, 2
     do i = 1, 2
        call near("z", z(i,j)%val(), g(i,j))
     end do
  end do
  g = 0
  call mul(e, at, b)
  call acc(b, at)
  call mul(at, e, b)
  call acc(b, at)
  call mul(at, at, b)
  call acc2(b, e)
  do j = 1, 2
     do i = 1, 2
        call near("d", x(i,j)%adj(), g(i,j))
     end do
  end do
contains
  subroutine mul(p, q, r)
    real(real64), intent(in) :: p(2,2), q(2,2)
    real(real64), intent(out) :: r(2,2)
    integer :: i, j
    do j = 1, 2
       do i = 1, 2
          r(i,j) = p(i,1) * q(1,j) + p(i,2) * q(2,j)
       end do
    end do
  end subroutine mul
  subroutine acc(p, q)
    real(real64), intent(in) :: p(2,2), q(2,2)
    integer :: i, j
    do j = 1, 2
       do i = 1, 2
          g(i,j) = g(i,j) + p(i,1) * q(1,j) + p(i,2) * q(2,j)
       end do
    end do
  end subroutine acc
  subroutine acc2(p, q)
    real(real64), intent(in) :: p(2,2), q(2,2)
    call acc(p, q)
  end subroutine acc2
''')
    return {'c11.F90': o}
