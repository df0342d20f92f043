from cutil import *
import c30
# fused and vector-array operations against the sums that define them; ops enabled all together ('on'), one at a time ('one'),
# or absent so that the generic fallback runs ('off')
ON = {'serial': ('N_VEnableFusedOps_Serial', 'N_VEnable%s_Serial'),
      'pthreads': ('N_VEnableFusedOps_Pthreads', 'N_VEnable%s_Pthreads'),
      'many': ('N_VEnableFusedOps_ManyVector', 'N_VEnable%s_ManyVector')}
MISSING = {'many': ('ScaleAddMultiVectorArray', 'LinearCombinationVectorArray')}
COMMON = '''
#define M 4
#define K 4
static int n_;
static SUNContext c_;
#ifdef VP_THOROUGH
#define NV 3
#define NS 3
#define NL NMAX
#else
#define NV 3
#define NS 3
#define NL (NMIN == 2 ? 2 : 2)
#endif
#define SETUP c_ = ctx_(); n_ = vp_int(NMIN, NL)
static void vals(double v[][M], int k, double lo, double hi) { for (int i = 0; i < k; i++) fill(v[i], n_, lo, hi); }
static N_Vector mkv(double *v, double *d, int (*on)(N_Vector, booleantype))
{ cpy(d, v, n_); N_Vector X = mk(n_, d, c_); if (on) on(X, 1); return X; }
static void mks(N_Vector *X, double v[][M], double d[][M], int k, int (*on)(N_Vector, booleantype))
{ for (int i = 0; i < k; i++) X[i] = mkv(v[i], d[i], on); }
static void kept(N_Vector X, const double *v)
{ double o[M]; rd(X, o, n_); for (int i = 0; i < n_; i++) SAME("kept", o[i], v[i]); }
'''


def gen(kind, mode):
    en, one = ON[kind]
    out = ''

    def E(op, body):
        nonlocal out
        if mode == 'off':
            on = 'NULL'
        elif mode == 'on':
            on = en
        else:
            if op in MISSING.get(kind, ()):
                return
            on = one % op
        nm = op
        k = 0
        while 'h_%s_%s_%s%d(' % (kind, mode, nm, k) in out:
            k += 1
        out += fn('h_%s_%s_%s%d' % (kind, mode, nm, k), body.replace('ON', on))

    for al in (0, 1):
        E('LinearCombination', '''  double x[K][M], d[K][M], z[M], dz[M], c[K], o[M]; N_Vector X[K], Z;
  SETUP; int k = vp_int(1, K);
  vals(x, k, -9, 9); fill(z, n_, -9, 9); fill(c, k, -9, 9);
  mks(X, x, d, k, ON); Z = %s;
  IEQ("rc", N_VLinearCombination(k, c, X, Z), 0);
  rd(Z, o, n_);
  for (int i = 0; i < n_; i++) { double s = 0; for (int j = 0; j < k; j++) s += c[j] * x[j][i]; NEAR("z", o[i], s); }
  for (int j = %d; j < k; j++) kept(X[j], x[j]);
''' % ('X[0]' if al else 'mkv(z, dz, ON)', al))
        E('ScaleAddMulti', '''  double x[M], dx[M], y[K][M], d[K][M], z[K][M], dz[K][M], a[K], o[M]; N_Vector X, Y[K], Z[K], *ZZ;
  SETUP; int k = vp_int(1, NS);
  fill(x, n_, -9, 9); vals(y, k, -9, 9); vals(z, k, -9, 9); fill(a, k, -9, 9);
  X = mkv(x, dx, ON); mks(Y, y, d, k, ON); mks(Z, z, dz, k, ON); ZZ = %s;
  IEQ("rc", N_VScaleAddMulti(k, a, X, Y, ZZ), 0);
  for (int j = 0; j < k; j++) { rd(ZZ[j], o, n_); for (int i = 0; i < n_; i++) NEAR("z", o[i], a[j] * x[i] + y[j][i]); %s }
  kept(X, x);
''' % (('Y', 'kept(Z[j], z[j]);') if al else ('Z', 'kept(Y[j], y[j]);')))
    E('DotProdMulti', '''  double x[M], dx[M], y[K][M], d[K][M], r[K + 1]; N_Vector X, Y[K];
  SETUP; int k = vp_int(1, NS);
  fill(x, n_, -9, 9); vals(y, k, -9, 9); fill(r, k + 1, -9, 9); double r0 = r[k];
  X = mkv(x, dx, ON); mks(Y, y, d, k, ON);
  IEQ("rc", N_VDotProdMulti(k, X, Y, r), 0);
  for (int j = 0; j < k; j++) { double s = 0; for (int i = 0; i < n_; i++) s += x[i] * y[j][i]; NEAR("r", r[j], s); kept(Y[j], y[j]); }
  SAME("bound", r[k], r0);
  kept(X, x);
''')
    if kind != 'pthreads' and mode != 'one':
        E('DotProdMultiLocal', '''  double x[M], dx[M], y[K][M], d[K][M], r[K + 1]; N_Vector X, Y[K];
  SETUP; int k = vp_int(1, NS);
  fill(x, n_, -9, 9); vals(y, k, -9, 9);
  X = mkv(x, dx, ON); mks(Y, y, d, k, ON);
  IEQ("rc", N_VDotProdMultiLocal(k, X, Y, r), 0);
  for (int j = 0; j < k; j++) { double s = 0; for (int i = 0; i < n_; i++) s += x[i] * y[j][i]; NEAR("r", r[j], s); }
''')
    for al in (0, 1, 2):
        E('LinearSumVectorArray', '''  double x[K][M], dx[K][M], y[K][M], d[K][M], z[K][M], dz[K][M], a, b, o[M]; N_Vector X[K], Y[K], Z[K], *ZZ;
  SETUP; int k = vp_int(1, NV);
  vals(x, k, -9, 9); vals(y, k, -9, 9); vals(z, k, -9, 9); a = vp_real(-9, 9); b = vp_real(-9, 9);
  mks(X, x, dx, k, ON); mks(Y, y, d, k, ON); mks(Z, z, dz, k, ON); ZZ = %s;
  IEQ("rc", N_VLinearSumVectorArray(k, a, X, b, Y, ZZ), 0);
  for (int j = 0; j < k; j++) {
    rd(ZZ[j], o, n_);
    for (int i = 0; i < n_; i++) NEAR("z", o[i], a * x[j][i] + b * y[j][i]);
    if (ZZ != X) kept(X[j], x[j]);
    if (ZZ != Y) kept(Y[j], y[j]);
    if (ZZ != Z) kept(Z[j], z[j]);
  }
''' % 'ZXY'[al])
    for al in (0, 1):
        E('ScaleVectorArray', '''  double x[K][M], dx[K][M], z[K][M], dz[K][M], c[K], o[M]; N_Vector X[K], Z[K], *ZZ;
  SETUP; int k = vp_int(1, NV);
  vals(x, k, -9, 9); vals(z, k, -9, 9); fill(c, k, -9, 9);
  mks(X, x, dx, k, ON); mks(Z, z, dz, k, ON); ZZ = %s;
  IEQ("rc", N_VScaleVectorArray(k, c, X, ZZ), 0);
  for (int j = 0; j < k; j++) {
    rd(ZZ[j], o, n_);
    for (int i = 0; i < n_; i++) NEAR("z", o[i], c[j] * x[j][i]);
    if (ZZ != X) kept(X[j], x[j]);
  }
''' % 'ZX'[al])
    E('ConstVectorArray', '''  double z[K][M], dz[K][M], c, o[M]; N_Vector Z[K];
  SETUP; int k = vp_int(1, NV);
  vals(z, NV + 1, -9, 9); c = vp_real(-9, 9);
  mks(Z, z, dz, NV + 1, ON);
  IEQ("rc", N_VConstVectorArray(k, c, Z), 0);
  for (int j = 0; j < k; j++) { rd(Z[j], o, n_); for (int i = 0; i < n_; i++) NEAR("z", o[i], c); }
  for (int j = k; j <= NV; j++) kept(Z[j], z[j]);
''')
    for mask in (0, 1):
        E('WrmsNorm%sVectorArray' % ('Mask' * mask), '''  double x[K][M], dx[K][M], w[K][M], dw[K][M], g[M], dg[M], r[K]; N_Vector X[K], W[K], G;
  SETUP; int k = vp_int(1, NV);
  vals(x, k, -9, 9); vals(w, k, .1, 9); fill(g, n_, -1, 1);
  mks(X, x, dx, k, ON); mks(W, w, dw, k, ON); G = mkv(g, dg, ON);
  IEQ("rc", %s, 0);
  for (int j = 0; j < k; j++) {
    double s = 0;
    for (int i = 0; i < n_; i++) %ss += x[j][i] * w[j][i] * x[j][i] * w[j][i];
    NEAR("r", r[j], sqrt(s / n_));
    kept(X[j], x[j]); kept(W[j], w[j]);
  }
  kept(G, g);
''' % (('N_VWrmsNormMaskVectorArray(k, X, W, G, r)', 'if (g[i] > 0) ') if mask else ('N_VWrmsNormVectorArray(k, X, W, r)', '')))
    for al in (0, 1):
        E('ScaleAddMultiVectorArray', '''  double x[K][M], dx[K][M], y[NS][K][M], d[NS][K][M], z[NS][K][M], dz[NS][K][M], a[K], o[M];
  N_Vector X[K], YV[NS][K], ZV[NS][K], *Y[NS], *Z[NS], **ZZ = %s;
  SETUP; int k = vp_int(1, NV), s = vp_int(1, NS);
  vals(x, k, -9, 9); fill(a, s, -9, 9); mks(X, x, dx, k, ON);
  for (int j = 0; j < s; j++) {
    vals(y[j], k, -9, 9); vals(z[j], k, -9, 9); mks(YV[j], y[j], d[j], k, ON); mks(ZV[j], z[j], dz[j], k, ON);
    Y[j] = YV[j]; Z[j] = ZV[j];
  }
  IEQ("rc", N_VScaleAddMultiVectorArray(k, s, a, X, Y, ZZ), 0);
  for (int j = 0; j < s; j++) for (int q = 0; q < k; q++) {
    rd(ZZ[j][q], o, n_);
    for (int i = 0; i < n_; i++) NEAR("z", o[i], a[j] * x[q][i] + y[j][q][i]);
    if (ZZ != Y) kept(Y[j][q], y[j][q]);
  }
  for (int q = 0; q < k; q++) kept(X[q], x[q]);
''' % 'ZY'[al])
        E('LinearCombinationVectorArray', '''  double x[NS][K][M], d[NS][K][M], z[K][M], dz[K][M], c[K], o[M];
  N_Vector XV[NS][K], Z[K], *X[NS], *ZZ;
  SETUP; int k = vp_int(1, NV), s = vp_int(1, NS);
  fill(c, s, -9, 9); vals(z, k, -9, 9); mks(Z, z, dz, k, ON);
  for (int j = 0; j < s; j++) { vals(x[j], k, -9, 9); mks(XV[j], x[j], d[j], k, ON); X[j] = XV[j]; }
  ZZ = %s;
  IEQ("rc", N_VLinearCombinationVectorArray(k, s, c, X, ZZ), 0);
  for (int q = 0; q < k; q++) {
    rd(ZZ[q], o, n_);
    for (int i = 0; i < n_; i++) { double t = 0; for (int j = 0; j < s; j++) t += c[j] * x[j][q][i]; NEAR("z", o[i], t); }
    for (int j = %d; j < s; j++) kept(X[j][q], x[j][q]);
  }
''' % (('X[0]', 1) if al else ('Z', 0)))
    return out


EXTRA = fn('h_serial_arrays', '''  double x[M], d[M], o[M];
  SETUP; int k = vp_int(1, NV);
  fill(x, n_, -9, 9); cpy(d, x, n_);
  N_Vector X = mkd(n_, d, c_), T;
  N_VEnableFusedOps_Serial(X, 1);
  N_Vector *A = N_VCloneVectorArray(k, X), *E = N_VCloneEmptyVectorArray(k, X), *W = N_VNewVectorArray(k);
  for (int j = 0; j < k; j++) {
    TRUE_("distinct", A[j] != X && N_VGetArrayPointer(A[j]) != d);
    TRUE_("ops", A[j]->ops->nvlinearcombination == X->ops->nvlinearcombination && A[j]->ops->nvlinearcombination != NULL);
    for (int i = 0; i < j; i++) TRUE_("distinct2", A[j] != A[i] && N_VGetArrayPointer(A[j]) != N_VGetArrayPointer(A[i]));
    IEQ("len", N_VGetLength(A[j]), n_);
    IEQ("elen", N_VGetLength(E[j]), n_);
    TRUE_("empty", N_VGetArrayPointer(E[j]) == NULL);
    N_VSetVecAtIndexVectorArray(W, j, A[k - 1 - j]);
  }
  for (int j = 0; j < k; j++) TRUE_("at", N_VGetVecAtIndexVectorArray(W, j) == A[k - 1 - j]);
  for (int j = 0; j < k; j++) N_VConst(j + 1.0, A[j]);
  for (int j = 0; j < k; j++) { rd(A[j], o, n_); for (int i = 0; i < n_; i++) NEAR("v", o[i], j + 1.0); }
  kept(X, x);
  N_VDestroyVectorArray(A, k); N_VDestroyVectorArray(E, k);
  kept(X, x);
  TRUE_("zero-count", N_VCloneVectorArray(0, X) == NULL);
''')


def generate(tier, kind='serial'):
    t = '#define NTHQ 2\n' + INC + c30.MKS[kind] + COMMON + ''.join(gen(kind, m) for m in ('on', 'one', 'off') if m != 'off' or kind == 'serial')
    if kind == 'serial':
        t += EXTRA
    return {'c32_%s.c' % kind: t}
