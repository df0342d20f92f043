from cutil import *
# standard vector operations against their element-wise definition, for every aliasing of inputs and output
MKS = {
    'serial': '''
#define NMIN 1
#define NMAX 3
/* storage of exactly the needed size */
static double *ex(int n, const double *d) { double *e = malloc(n * sizeof(double)); for (int i = 0; i < n; i++) e[i] = d[i]; return e; }
static N_Vector mkd(int n, double *d, SUNContext c) { return N_VMake_Serial(n, d, c); }
static N_Vector mk(int n, double *d, SUNContext c) { return N_VMake_Serial(n, ex(n, d), c); }
static void rd(N_Vector v, double *o, int n) { double *p = N_VGetArrayPointer(v); for (int i = 0; i < n; i++) o[i] = p[i]; }
static void fin(N_Vector v) { N_VDestroy(v); }
''',
    'pthreads': '''
#include <nvector/nvector_pthreads.h>
static int nt_;
#ifndef NTH
#ifdef VP_THOROUGH
#define NTH 3
#else
#define NTH NTHQ
#endif
#endif
#define NMIN 1
#define NMAX 3
/* storage of exactly the needed size */
static double *ex(int n, const double *d) { double *e = malloc(n * sizeof(double)); for (int i = 0; i < n; i++) e[i] = d[i]; return e; }
static N_Vector mk(int n, double *d, SUNContext c) { if (!nt_) nt_ = vp_int(1, NTH); return N_VMake_Pthreads(n, nt_, ex(n, d), c); }
static void rd(N_Vector v, double *o, int n) { double *p = N_VGetArrayPointer(v); for (int i = 0; i < n; i++) o[i] = p[i]; }
static void fin(N_Vector v) { N_VDestroy(v); }
''',
    'many': '''
#include <nvector/nvector_manyvector.h>
#define NMIN 2
#define NMAX 3
/* storage of exactly the needed size */
static double *ex(int n, const double *d) { double *e = malloc(n * sizeof(double)); for (int i = 0; i < n; i++) e[i] = d[i]; return e; }
/* two subvectors, split anywhere */
static int sp_;
static N_Vector mk(int n, double *d, SUNContext c)
{
  N_Vector s[2];
  if (!sp_) sp_ = vp_int(1, n - 1);
  s[0] = N_VMake_Serial(sp_, ex(sp_, d), c);
  s[1] = N_VMake_Serial(n - sp_, ex(n - sp_, d + sp_), c);
  return N_VNew_ManyVector(2, s, c);
}
static void rd(N_Vector v, double *o, int n)
{
  for (int i = 0; i < n; i++) o[i] = i < sp_ ? N_VGetSubvectorArrayPointer_ManyVector(v, 0)[i] : N_VGetSubvectorArrayPointer_ManyVector(v, 1)[i - sp_];
}
static void fin(N_Vector v) { N_VDestroy(v); }
'''}
COMMON = '''
#define M 8
static int n_;
static SUNContext c_;
#define SETUP c_ = ctx_(); n_ = vp_int(NMIN, NMAX)
static double smax(double a, double b) { return a > b ? a : b; }
'''


def elementwise(tag, names=None):
    """(name, call, reference with x y z old values, aliasings)"""
    A3 = ('xyz', 'xyx', 'xyy', 'xxz', 'xxx')
    A2 = ('xz', 'xx')
    ops = [
        ('linsum', 'N_VLinearSum(a, X, b, Y, Z)', 'a * x[i] + b * y[i]', A3, -9, 9),
        ('prod', 'N_VProd(X, Y, Z)', 'x[i] * y[i]', A3, -9, 9),
        ('div', 'N_VDiv(X, Y, Z)', 'x[i] / y[i]', A3, .1, 9),
        ('const', 'N_VConst(a, Z)', 'a', ('z',), -9, 9),
        ('scale', 'N_VScale(a, X, Z)', 'a * x[i]', A2, -9, 9),
        ('abs', 'N_VAbs(X, Z)', 'fabs(x[i])', A2, -9, 9),
        ('inv', 'N_VInv(X, Z)', '1 / x[i]', A2, .1, 9),
        ('addconst', 'N_VAddConst(X, b, Z)', 'x[i] + b', A2, -9, 9),
        ('compare', 'N_VCompare(a, X, Z)', 'fabs(x[i]) >= a ? 1 : 0', A2, -9, 9),
    ]
    out = ''
    for nm, call, ref, als, lo, hi in ops:
        for al in als:
            sub = {'X': al[0].upper()}
            if len(al) == 3:
                X, Y, Z = 'X', ('X' if al[1] == 'x' else 'Y'), {'x': 'X', 'y': 'Y', 'z': 'Z'}[al[2]]
                yv = 'x' if Y == 'X' else 'y'
            elif len(al) == 2:
                X, Y, Z, yv = 'X', 'Y', ('X' if al[1] == 'x' else 'Z'), 'y'
            else:
                X, Y, Z, yv = 'X', 'Y', 'Z', 'y'
            c = call.replace('Z', '\1').replace('X', '\2').replace('Y', '\3')
            c = c.replace('N_V', 'N_V').replace('\1', Z).replace('\2', X).replace('\3', Y)
            r = ref.replace('y[i]', yv + '[i]')
            chk = ''
            for v, w in (('X', 'x'), ('Y', 'y')):
                if v != Z:
                    chk += '  rd(%s, o, n_);\n  for (int i = 0; i < n_; i++) SAME("%s-kept", o[i], %s[i]);\n' % (v, w, w)
            out += fn('h_%s_%s_%s' % (tag, nm, al), '''  double x[M], y[M], z[M], dx[M], dy[M], dz[M], o[M], a, b;
  SETUP;
  a = vp_real(-9, 9); b = vp_real(-9, 9);
  fill(x, n_, %g, %g); fill(y, n_, %g, %g); fill(z, n_, %g, %g);
  cpy(dx, x, n_); cpy(dy, y, n_); cpy(dz, z, n_);
  N_Vector X = mk(n_, dx, c_), Y = mk(n_, dy, c_), Z = mk(n_, dz, c_);
  %s;
  rd(%s, o, n_);
  for (int i = 0; i < n_; i++) NEAR("z", o[i], %s);
%s''' % (lo, hi, lo, hi, lo, hi, c, Z, r, chk))
    return out


def reductions(tag, kind):
    out = ''
    D = '''  double x[M], w[M], g[M], z[M], dx[M], dw[M], dg[M], dz[M], o[M], s = 0, a;
  SETUP;
  fill(x, n_, -9, 9); fill(w, n_, %s); fill(g, n_, -1, 1); fill(z, n_, -9, 9);
  cpy(dx, x, n_); cpy(dw, w, n_); cpy(dg, g, n_); cpy(dz, z, n_);
  N_Vector X = mk(n_, dx, c_), W = mk(n_, dw, c_), G = mk(n_, dg, c_), Z = mk(n_, dz, c_);
'''
    K = '''  rd(X, o, n_);
  for (int i = 0; i < n_; i++) SAME("x-kept", o[i], x[i]);
  rd(W, o, n_);
  for (int i = 0; i < n_; i++) SAME("w-kept", o[i], w[i]);
'''
    for nm, call, loop, fin_, rg in (
            ('dot', 'N_VDotProd(X, W)', 's += x[i] * w[i]', 's', '-9, 9'),
            ('dotself', 'N_VDotProd(X, X)', 's += x[i] * x[i]', 's', '-9, 9'),
            ('maxnorm', 'N_VMaxNorm(X)', 's = smax(s, fabs(x[i]))', 's', '-9, 9'),
            ('wrms', 'N_VWrmsNorm(X, W)', 's += x[i] * x[i] * w[i] * w[i]', 'sqrt(s / n_)', '.1, 9'),
            ('wl2', 'N_VWL2Norm(X, W)', 's += x[i] * x[i] * w[i] * w[i]', 'sqrt(s)', '.1, 9'),
            ('wrmsmask', 'N_VWrmsNormMask(X, W, G)', 'if (g[i] > 0) s += x[i] * x[i] * w[i] * w[i]', 'sqrt(s / n_)', '.1, 9'),
            ('l1', 'N_VL1Norm(X)', 's += fabs(x[i])', 's', '-9, 9'),
            ('min', 'N_VMin(X)', 's = (i == 0 || x[i] < s) ? x[i] : s', 's', '-9, 9'),
            ('dotl', 'N_VDotProdLocal(X, W)', 's += x[i] * w[i]', 's', '-9, 9'),
            ('maxnorml', 'N_VMaxNormLocal(X)', 's = smax(s, fabs(x[i]))', 's', '-9, 9'),
            ('minl', 'N_VMinLocal(X)', 's = (i == 0 || x[i] < s) ? x[i] : s', 's', '-9, 9'),
            ('l1l', 'N_VL1NormLocal(X)', 's += fabs(x[i])', 's', '-9, 9'),
            ('wsql', 'N_VWSqrSumLocal(X, W)', 's += x[i] * x[i] * w[i] * w[i]', 's', '-9, 9'),
            ('wsqml', 'N_VWSqrSumMaskLocal(X, W, G)', 'if (g[i] > 0) s += x[i] * x[i] * w[i] * w[i]', 's', '-9, 9')):
        if nm.endswith('l') and kind == 'pthreads':
            continue
        out += fn('h_%s_%s' % (tag, nm), D % rg + '''  a = %s;
  for (int i = 0; i < n_; i++) { %s; }
  NEAR("r", a, %s);
''' % (call, loop, fin_) + K)
    out += fn('h_%s_invtest' % tag, D % '-9, 9' + '''  if (vp_int(0, 1)) { int k = vp_int(0, n_ - 1); for (int i = 0; i < n_; i++) if (i == k) { x[i] = 0; } 
     N_Vector T = mk(n_, x, c_); N_VScale(1.0, T, X); }
  int t = 1, r = N_VInvTest(X, Z);
  rd(Z, o, n_);
  for (int i = 0; i < n_; i++) { if (x[i] == 0) t = 0; else NEAR("z", o[i], 1 / x[i]); }
  IEQ("r", r != 0, t);
''')
    out += fn('h_%s_constrmask' % tag, ('  nt_ = vp_int(1, 2);\n' if kind == 'pthreads' else '') + D % '-9, 9' + '''  static const double cv[5] = {-2, -1, 0, 1, 2};
  for (int i = 0; i < n_; i++) { int k = vp_int(0, 4); w[i] = cv[k]; }
  N_Vector T = mk(n_, w, c_);
  int t = 1, r = N_VConstrMask(T, X, Z);
  rd(Z, o, n_);
  for (int i = 0; i < n_; i++) {
    int bad = (w[i] == 2 && x[i] <= 0) || (w[i] == 1 && x[i] < 0) || (w[i] == -1 && x[i] > 0) || (w[i] == -2 && x[i] >= 0);
    NEAR("m", o[i], bad ? 1.0 : 0.0);
    if (bad) t = 0;
  }
  IEQ("r", r != 0, t);
''')
    out += fn('h_%s_minquot' % tag, D % '-9, 9' + '''  for (int i = 0; i < n_; i++) if (vp_int(0, 1)) w[i] = 0;
  N_Vector T = mk(n_, w, c_);
  a = N_VMinQuotient(X, T);
  int seen = 0;
  for (int i = 0; i < n_; i++) if (w[i] != 0) { s = (!seen || x[i] / w[i] < s) ? x[i] / w[i] : s; seen = 1; }
  if (seen) NEAR("r", a, s); else TRUE_("big", a == BIG_REAL);
''')
    return out


def generate(tier, kind='serial'):
    t = '#define NTHQ 3\n' + INC + MKS[kind] + COMMON + elementwise(kind) + reductions(kind, kind)
    if kind == 'serial':
        t += fn('h_serial_clone', '''  double x[M], d[M];
  SETUP;
  fill(x, n_, -9, 9); cpy(d, x, n_);
  N_Vector X = mkd(n_, d, c_), Y = N_VClone(X), E = N_VCloneEmpty(X);
  IEQ("len", N_VGetLength(Y), n_);
  IEQ("elen", N_VGetLength(E), n_);
  TRUE_("empty", N_VGetArrayPointer(E) == NULL);
  TRUE_("own", N_VGetArrayPointer(Y) != d);
  N_VScale(1.0, X, Y);
  N_VConst(0.5, X);
  for (int i = 0; i < n_; i++) { NEAR("copy", N_VGetArrayPointer(Y)[i], x[i]); NEAR("caller", d[i], 0.5); }
  N_VSetArrayPointer(d, E);
  N_VAddConst(E, 1.0, E);
  for (int i = 0; i < n_; i++) NEAR("shared", d[i], 1.5);
  sunindextype lr, li;
  N_VSpace(X, &lr, &li);
  IEQ("lrw", lr, n_);
  N_VDestroy(Y); N_VDestroy(E); N_VDestroy(X);
  for (int i = 0; i < n_; i++) NEAR("not-owned", d[i], 1.5);
''')
        t += fn('h_serial_buf', '''  double x[M], y[M], b[M];
  SETUP;
  fill(x, n_, -9, 9); fill(y, n_, -9, 9);
  N_Vector X = mkd(n_, x, c_), Y = mkd(n_, y, c_);
  sunindextype s = 0;
  IEQ("rc", N_VBufSize(X, &s), 0);
  IEQ("size", s, n_ * 8);
  IEQ("rc", N_VBufPack(X, b), 0);
  IEQ("rc", N_VBufUnpack(Y, b), 0);
  for (int i = 0; i < n_; i++) { SAME("y", y[i], x[i]); SAME("b", b[i], x[i]); }
''')
    return {'c30_%s.c' % kind: t}
