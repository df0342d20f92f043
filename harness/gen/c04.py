from ops import *
from c03 import CONST

# creating an operation never changes what earlier nodes are: their values and the gradients taken through them


def probe(mk, dom2, tag, out_name, pre='', op_a='z'):
    pass


def generate(tier):
    out = ''
    # z is an intermediate whose own gradient must survive any operation applied to it (incl. the identity shortcuts)
    def one(name, E, lo, hi, decl=''):
        b = '''  a = vp_real(%s, %s)
  b = vp_real(%s, %s)
  x = var(a)
  y = var(b)
  z = x * y
  zv = z%%val()
  g = %s
  call same("value-kept", z%%val(), zv)
  call same("x-kept", x%%val(), a)
  call same("y-kept", y%%val(), b)
  call z%%grad()
  call near("dz/dx", x%%adj(), b)
  call near("dz/dy", y%%adj(), a)
''' % (flt(lo), flt(hi), flt(lo), flt(hi), E)
        return entry(name, '  type(var) :: x, y, z, g\n  real(real64) :: a, b, zv', b)
    zdom = {'pow': (.1, 5), 'asin': (.1, .9), 'acos': (.1, .9), 'atanh': (.1, .9), 'logit': (.1, .9), 'acosh': (1.1, 5), 'log': (.1, 5), 'log_gamma': (.5, 5),
            'sqrt': (.1, 5), 'inv_sqrt': (.1, 5), 'tan': (-1, 1), 'inv': (.1, 5), 'inv_square': (.1, 5)}
    for op, ex, dom, val, der in UNARY:
        lo, hi = zdom.get(op, (-4, 4))
        out += one('h_' + op, ex.replace('X', 'z'), lo, hi)
    for op, ex, dom, val, da, db in BINARY:
        for k, E in (('vv', ex.replace('X', 'z').replace('Y', 'z')), ('vd', ex.replace('X', 'z').replace('Y', 'c')), ('dv', ex.replace('X', 'c').replace('Y', 'z'))):
            s = one('h_%s_%s' % (op, k), E, *((.1, 4) if op in ('pow', 'div', 'hypot') else (-4, 4)))
            if k != 'vv':
                s = s.replace('zv\n', 'zv, c\n', 1).replace('  x = var(a)', '  c = vp_real(%s, 5.d0)\n  x = var(a)' % ('.1d0' if op == 'pow' else '-5.d0'), 1)
                if op == 'div' and k == 'vd':
                    s = s.replace('  x = var(a)', '  call assume(c > .01d0)\n  x = var(a)', 1)
            out += s
        for c in CONST[op]:
            C = '(%s)' % flt(c)
            out += one('h_c_%s_vd_%s' % (op, str(c).replace('.', 'p').replace('-', 'm')), ex.replace('X', 'z').replace('Y', C), .1, 4)
            if not (op == 'pow' and c <= 0):
                out += one('h_c_%s_dv_%s' % (op, str(c).replace('.', 'p').replace('-', 'm')), ex.replace('X', C).replace('Y', 'z'), .1, 4)
    # a leaf used through identity shortcuts keeps being a leaf with its own adjoint
    for op, ex, dom, val, da, db in BINARY:
        for c in CONST[op]:
            for k, E in (('vd', ex.replace('X', 'z').replace('Y', '(%s)' % flt(c))), ('dv', ex.replace('X', '(%s)' % flt(c)).replace('Y', 'z'))):
                if op == 'pow' and k == 'dv' and c <= 0:
                    continue
                n = 'h_both_%s_%s_%s' % (op, k, str(c).replace('.', 'p').replace('-', 'm'))
                V, D = (val, da) if k == 'vd' else (val, db)
                old, new = ('b', 'a') if k == 'vd' else ('a', 'b')
                C = '(%s)' % flt(c)
                if k == 'vd':
                    D = re.sub(r'\ba\b', 'zv', re.sub(r'\bb\b', C, D))
                else:
                    D = re.sub(r'\bb\b', 'zv', re.sub(r'\ba\b', C, D))
                # z and g = op(z, c) both feed the result
                out += entry(n, '  type(var) :: x, y, z, g, f\n  real(real64) :: a, b, zv, w, u, d', '''  a = vp_real(0.1d0, 4.d0)
  b = vp_real(0.1d0, 4.d0)
  w = vp_real(-4.d0, 4.d0)
  u = vp_real(-4.d0, 4.d0)
  x = var(a)
  y = var(b)
  z = x * y
  zv = a * b
  g = %s
  f = z * w + g * u
  call f%%grad()
  d = w + u * (%s)
  call near("df/dx", x%%adj(), b * d)
  call near("df/dy", y%%adj(), a * d)
''' % (E, D))
    # array operations leave their operands alone
    for n, E, decl in (('sum', 'sum(z)', ''), ('dot', 'dot_product(z, z)', ''), ('dot_vd', 'dot_product(z, [w, u])', ''),
                       ('dot_dv', 'dot_product([w, u], z)', ''), ('norm2', 'norm2(z)', ''), ('lse', 'log_sum_exp(z)', '')):
        out += entry('h_arr_' + n, '  type(var) :: x, y, z(2), g\n  real(real64) :: a, b, w, u', '''  a = vp_real(0.1d0, 4.d0)
  b = vp_real(0.1d0, 4.d0)
  w = vp_real(-4.d0, 4.d0)
  u = vp_real(-4.d0, 4.d0)
  x = var(a)
  y = var(b)
  z(1) = x * y
  z(2) = x / y
  g = %s
  call same("z1", z(1)%%val(), a * b)
  call same("z2", z(2)%%val(), a / b)
  call z(1)%%grad()
  call near("dz1/dx", x%%adj(), b)
  call near("dz1/dy", y%%adj(), a)
  call set_zero_all_adj()
  call z(2)%%grad()
  call near("dz2/dx", x%%adj(), 1/b)
  call near("dz2/dy", y%%adj(), -a/(b*b))
''' % E)
    # comparisons and reading values create nothing and change nothing
    out += entry('h_compare', '  type(var) :: x, y, z\n  real(real64) :: a, b, q(2)\n  logical :: l\n  integer :: h, s', '''  a = vp_real(-4.d0, 4.d0)
  b = vp_real(-4.d0, 4.d0)
  x = var(a)
  y = var(b)
  z = x * y
  h = callstack%head
  s = callstack%stack%head
  l = x > y .or. x < b .or. a >= y .or. x == y
  q(1) = value_of(z)
  call ieq("no-new-node", callstack%head, h)
  call ieq("no-new-record", callstack%stack%head, s)
  call z%grad()
  call near("dz/dx", x%adj(), b)
  call near("dz/dy", y%adj(), a)
''')
    return {'c04.F90': out}
