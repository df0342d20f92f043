from ops import *

# normal and lognormal log densities
DECL = '''  type(var) :: m, g, f, q
  real(real64) :: y(3), mu, sg, c, s, dm, ds, z, t
  integer :: i, n'''
BODY = '''  n = vp_int(0, 3)
  mu = vp_real(-5.d0, 5.d0)
  sg = vp_real(0.1d0, 10.d0)
  c = vp_real(-3.d0, 3.d0)
  do i = 1, n
     y(i) = vp_real(%(lo)s, 20.d0)
  end do
%(mk)s
  f = %(fn)s(y(1:n), %(args)s)
  s = 0
  dm = 0
  ds = 0
  do i = 1, n
     t = %(t)s
     z = (t - mu) / sg
     s = s - 0.5d0 * log(2 * acos(-1.d0)) - log(sg) - z * z / 2 %(jac)s
     dm = dm + z / sg
     ds = ds + (z * z - 1) / sg
  end do
  call near("value", f%%val(), s)
  q = f * c
  call q%%grad()
%(ck)s
'''


def generate(tier):
    o = ''
    for fn, lo, t, jac in (('normal_lpdf', '-20.d0', 'y(i)', ''), ('lognormal_lpdf', '0.01d0', 'log(y(i))', '- log(y(i))')):
        v = dict(fn=fn, lo=lo, t=t, jac=jac)
        M, G = '  m = var(mu)', '  g = var(sg)'
        KM = '  call near("dmu", m%adj(), c * dm)\n  call same("mu", m%val(), mu)'
        KG = '  call near("dsigma", g%adj(), c * ds)\n  call same("sigma", g%val(), sg)'
        o += entry('h_%s_vv' % fn, DECL, BODY % dict(v, mk=M + '\n' + G, args='m, g', ck=KM + '\n' + KG))
        o += entry('h_%s_vd' % fn, DECL, BODY % dict(v, mk=M, args='m, sg', ck=KM))
        o += entry('h_%s_dv' % fn, DECL, BODY % dict(v, mk=G, args='mu, g', ck=KG))
        b = (BODY % dict(v, mk='', args='mu, sg', ck='')).replace('  f = ', '  r = ').replace('f%val()', 'r').split('  q = ')[0]
        o += entry('h_%s_dd' % fn, DECL + '\n  real(real64) :: r', b)
        # parameters that are results themselves, used by two densities
        o += entry('h_%s_shared' % fn, '''  type(var) :: x, m, g, f
  real(real64) :: y(1), a, t, u, z1, z2, s1, s2''', '''  a = vp_real(0.5d0, 3.d0)
  y(1) = vp_real(0.1d0, 10.d0)
  x = var(a)
  m = x * x
  g = x * 2.d0
  f = %s(y, m, g) + %s(y, x, m)
  call f%%grad()
  t = %s
  z1 = (t - a*a) / (2*a)
  z2 = (t - a) / (a*a)
  call near("d", x%%adj(), z1/(2*a) * 2*a + (z1*z1 - 1)/(2*a) * 2 + z2/(a*a) + (z2*z2 - 1)/(a*a) * 2*a)
''' % (fn, fn, t.replace('y(i)', 'y(1)')))
    return {'c12.F90': o}
