from ops import *

CONST = {'add': [0.0], 'sub': [0.0], 'mul': [1.0, 0.0], 'div': [1.0], 'hypot': [0.0], 'pow': [0.5, 1.0, 2.0, -2.0, -1.0, -0.5, 3.0]}


def generate(tier):
    out = ''
    for op, ex, dom, val, da, db in BINARY:
        for k, X, Y in (('vv', 'x', 'y'), ('vd', 'x', 'b'), ('dv', 'a', 'y')):
            E = ex.replace('X', X).replace('Y', Y)
            b = domains2(dom) + '''  x = var(a)
  y = var(b)
  f = %s
  call f%%grad()
  call near("dx", x%%adj(), %s)
  call near("dy", y%%adj(), %s)
''' % (E, da if k[0] == 'v' else '0.d0', db if k[1] == 'v' else '0.d0')
            out += entry('h_%s_%s' % (op, k), '  type(var) :: x, y, f\n  real(real64) :: a, b', b)
            b = domains2(dom) + '''  w = vp_real(-5.d0, 5.d0)
  u = vp_real(-5.d0, 5.d0)
  x = var(a)
  y = var(b)
  z = var(w)
  f = (%s) * z + x * u + y
  call f%%grad()
  call near("dx", x%%adj(), w * (%s) + u)
  call near("dy", y%%adj(), w * (%s) + 1)
  call near("dz", z%%adj(), %s)
''' % (E, da if k[0] == 'v' else '0.d0', db if k[1] == 'v' else '0.d0', val)
            out += entry('h_seed_%s_%s' % (op, k), '  type(var) :: x, y, z, f\n  real(real64) :: a, b, w, u', b)
            # elemental broadcast: array with scalar, array with array
            decl = '  type(var) :: x(2), y(2), g(2), f\n  real(real64) :: a, b, c, w'
            sub = lambda t: re.sub(r'\ba\b', 'c', t)
            b = domains2(dom) + '''  c = a + 0.0625d0
  x(1) = var(a)
  x(2) = var(c)
  y(1) = var(b)
  y(2) = var(b)
  g = %s
  w = vp_real(-5.d0, 5.d0)
  f = g(1) + g(2) * w
  call f%%grad()
''' % ex.replace('X', 'x' if k[0] == 'v' else '[a,c]').replace('Y', 'y(1)' if k[1] == 'v' else 'b')
            b += '  call near("v1", g(1)%%val(), %s)\n  call near("v2", g(2)%%val(), %s)\n' % (val, sub(val))
            if k[0] == 'v':
                b += '  call near("dx1", x(1)%%adj(), %s)\n' % da
                b += '  call near("dx2", x(2)%%adj(), w*(%s))\n' % sub(da)
            if k[1] == 'v':
                b += '  call near("dy1", y(1)%%adj(), %s + w*(%s))\n' % (db, sub(db))
            out += entry('h_arr_%s_%s' % (op, k), decl, b)
        for c in CONST[op]:
            C = '(%s)' % flt(c)
            for k, E, D, V in (('vd', ex.replace('X', 'x').replace('Y', C), re.sub(r'\bb\b', C, da), re.sub(r'\bb\b', C, val)),
                               ('dv', ex.replace('X', C).replace('Y', 'x'), re.sub(r'\bb\b', 'a', re.sub(r'\ba\b', C, db)),
                                re.sub(r'\bb\b', 'a', re.sub(r'\ba\b', C, val)))):
                if op == 'pow' and k == 'dv' and c <= 0 or op == 'div' and k == 'dv' and c == 0:
                    continue
                dd = [d[0] for d in dom] if k == 'vd' else [d[1] for d in dom]
                if op == 'hypot' and k == 'dv':
                    dd = [(.01, 100), (-100, -.01)]
                b = domains(dd) + '''  w = vp_real(-5.d0, 5.d0)
  u = vp_real(-5.d0, 5.d0)
  x = var(a)
  z = var(w)
  f = (%s) * z + x * u
  call f%%grad()
  call near("v", f%%val(), w * (%s) + a * u)
  call near("dx", x%%adj(), w * (%s) + u)
  call near("dz", z%%adj(), %s)
''' % (E, V, D, V)
                out += entry('h_const_%s_%s_%s' % (op, k, str(c).replace('.', 'p').replace('-', 'm')),
                             '  type(var) :: x, z, f\n  real(real64) :: a, w, u', b)
        # the same variable on both sides
        if op == 'pow':
            D = 'a**a*(log(a)+1)'
        else:
            D = '(%s)+(%s)' % tuple(re.sub(r'\bb\b', 'a', s) for s in (da, db))
        b = domains([d[0] for d in dom if d[0] != R or True]) + '''  call assume(abs(a) > 1.d-2)
  w = vp_real(-5.d0, 5.d0)
  x = var(a)
  z = var(w)
  f = (%s) * z + x
  call f%%grad()
  call near("dx", x%%adj(), w * (%s) + 1)
''' % (ex.replace('X', 'x').replace('Y', 'x'), D)
        out += entry('h_xx_%s' % op, '  type(var) :: x, z, f\n  real(real64) :: a, w', b)
    return {'c03.F90': out}
