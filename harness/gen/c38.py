from cutil import *
# Gram-Schmidt, QR of a Hessenberg matrix, QR updates for Anderson acceleration
T = INC + '''
#include <sundials/sundials_iterative.h>
#include <sundials_iterative_impl.h>
#define MX 5
static double dot(const double *a, const double *b, int n) { double s = 0; for (int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
#define P(v) N_VGetArrayPointer(v)
/* plain vector operations: the cases of N_VLinearSum_Serial (coefficients +-1, ...) are C30's subject */
static void pl_sum(realtype a, N_Vector x, realtype b, N_Vector y, N_Vector z) { for (int i = 0; i < N_VGetLength(z); i++) P(z)[i] = a * P(x)[i] + b * P(y)[i]; }
static void pl_scale(realtype a, N_Vector x, N_Vector z) { for (int i = 0; i < N_VGetLength(z); i++) P(z)[i] = a * P(x)[i]; }
static N_Vector vec(double *o, int n, SUNContext c) { fill(o, n, -9, 9); N_Vector v = N_VNew_Serial(n, c); cpy(N_VGetArrayPointer(v), o, n); v->ops->nvlinearsum = pl_sum; v->ops->nvscale = pl_scale; return v; }
static void keep(const char *id, N_Vector v, const double *o, int n) { for (int i = 0; i < n; i++) vp_bits(id, (int) strlen(id), P(v)[i], o[i]); }
'''
GS = '''  SUNContext c_ = ctx_(); const int n = %d, k = %d; int p = vp_int(1, k); N_Vector v[MX], vt[MX]; double o[MX][MX], h_[MX][MX], h0[MX][MX], *h[MX], st[MX], nrm = -1;
  for (int i = 0; i <= k + 1; i++) v[i] = vec(o[i], n, c_);
  for (int i = 0; i < MX; i++) { h[i] = h_[i]; st[i] = 0; vt[i] = NULL; fill(h0[i], MX, -9, 9); cpy(h[i], h0[i], MX); }
  IEQ("rc", %s, 0);
  int i0 = k - p > 0 ? k - p : 0;
  for (int i = 0; i < k; i++) keep("basis-kept", v[i], o[i], n);
  keep("next-kept", v[k + 1], o[k + 1], n);
  for (int i = 0; i < MX; i++) for (int j = 0; j < MX; j++) if (!(j == k - 1 && i >= i0 && i < k)) SAME("h-kept", h[i][j], h0[i][j]);
  /* v_k = h v + new v_k */
  for (int q = 0; q < n; q++) { double s = P(v[k])[q]; for (int i = i0; i < k; i++) s += h[i][k - 1] * o[i][q]; NEAR("sum", s, o[k][q]); }
  %s
'''
for nm, call, chk in (('mgs', 'SUNModifiedGS(v, h, k, p, &nrm)', 0), ('mgsl', 'ModifiedGS(v, h, k, p, &nrm)', 0), ('cgs', 'SUNClassicalGS(v, h, k, p, &nrm, st, vt)', 1), ('cgsl', 'ClassicalGS(v, h, k, p, &nrm, st, vt)', 1)):
    for k in (1, 2, 3):
        if k == 3 and nm.endswith('l'):
            continue
        T += fn('h_%s%d' % (nm, k), GS % (2 if k == 1 else 1, k, call, '''TRUE_("norm-sign", nrm >= 0); if (nrm == 0) TRUE_("norm0", dot(P(v[k]), P(v[k]), n) <= 0); else NEAR("norm", nrm, sqrt(dot(P(v[k]), P(v[k]), n)));''' if chk else
                '''TRUE_("norm-sign", nrm >= 0); '''))
# exactly orthonormal basis: the result is orthogonal to it
ORTH = '''  SUNContext c_ = ctx_(); const int n = 3, k = 2; N_Vector v[MX], vt[MX]; double o[MX][MX], h_[MX][MX], *h[MX], st[MX], nrm, t = vp_real(-9, 9), c = (1 - t * t) / (1 + t * t), s = 2 * t / (1 + t * t);
  for (int i = 0; i <= k; i++) v[i] = vec(o[i], n, c_);
  for (int i = 0; i < MX; i++) { h[i] = h_[i]; st[i] = 0; vt[i] = NULL; }
  double *a = P(v[0]), *b = P(v[1]); a[0] = c; a[1] = s; a[2] = 0; b[0] = -s; b[1] = c; b[2] = 0;
  IEQ("rc", %s, 0);
  for (int i = 0; i < k; i++) NEAR("orthogonal", dot(P(v[i]), P(v[k]), n), 0.0);
  for (int i = 0; i < k; i++) NEAR("h", h[i][k - 1], dot(P(v[i]), o[k], n));
  NEAR("norm", nrm, sqrt(dot(P(v[k]), P(v[k]), n)));
'''
# a vector that almost lies in the span: orthogonalised a second time
RE = '''  SUNContext c_ = ctx_(); const int n = 2, k = 2; N_Vector v[MX], vt[MX]; double o[MX][MX], h_[MX][MX], *h[MX], st[MX], nrm;
  for (int i = 0; i <= k; i++) v[i] = vec(o[i], n, c_);
  for (int i = 0; i < MX; i++) { h[i] = h_[i]; st[i] = 0; vt[i] = NULL; }
  double e = vp_real(1e-16, 1e-15), d = vp_real(1e-18, 1e-17), a = vp_real(0.5, 2);
  P(v[0])[0] = 1; P(v[0])[1] = 0; P(v[1])[0] = e; P(v[1])[1] = 1; P(v[2])[0] = d; P(v[2])[1] = a;
  IEQ("rc", %s, 0);
  NEAR("sum0", 1e18 * (P(v[2])[0] + h[0][1] + h[1][1] * e), 1e18 * d);
  NEAR("sum1", P(v[2])[1] + h[1][1], a);
  TRUE_("small", nrm >= 0 && nrm <= 1e-12);
'''
T += fn('h_mgs_re', RE % 'SUNModifiedGS(v, h, k, k, &nrm)') + fn('h_cgs_re', RE % 'SUNClassicalGS(v, h, k, k, &nrm, st, vt)')
T += fn('h_mgs_orth', ORTH % 'SUNModifiedGS(v, h, k, k, &nrm)')
T += fn('h_cgs_orth', ORTH % 'SUNClassicalGS(v, h, k, k, &nrm, st, vt)')
# Hessenberg least squares
QR = '''  const int n = %d; double h_[MX][MX], *h[MX], a[MX][MX], q[2 * MX], b[MX], x[MX]; int code = 0;
  for (int i = 0; i < MX; i++) { h[i] = h_[i]; for (int j = 0; j < MX; j++) a[i][j] = h[i][j] = 0; }
  for (int j = 0; j < n; j++) for (int i = 0; i <= j + 1; i++) a[i][j] = h[i][j] = vp_real(-9, 9);
  fill(b, n + 1, -9, 9); cpy(x, b, n + 1);
  %s
  int zero = 0; for (int k = 0; k < n; k++) if (h[k][k] == 0) zero = k + 1;
  %s
  int r = %s(n, h, q, x);
  int top = 0; for (int k = 0; k < n; k++) if (h[k][k] == 0) top = k + 1;
  IEQ("sol-code", r, top);
  if (r == 0) {
    double res[MX], l = 0;
    for (int i = 0; i <= n; i++) { res[i] = b[i]; for (int j = 0; j < n; j++) res[i] -= a[i][j] * x[j]; l += res[i] * res[i]; }
    for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i <= n; i++) s += a[i][j] * res[i]; NEAR("least-squares", s, 0.0); }
    NEAR("residual", x[n] * x[n], l);
  }
'''
for n in (1, 2):
    for nm, f, s in (('sun', 'SUNQRfact', 'SUNQRsol'), ('old', 'QRfact', 'QRsol')):
        T += fn('h_qr%d_%s_new' % (n, nm), QR % (n, 'code = %s(n, h, q, 0);' % f, 'IEQ("code", code, zero);', s))
        if n > 1:
            T += fn('h_qr%d_%s_upd' % (n, nm), QR % (n, 'for (int k = 1; k <= n; k++) code = %s(k, h, q, k - 1);' % f, 'IEQ("code", code, h[n - 1][n - 1] == 0 ? n : 0);', s))
        if n == 1:
            T += fn('h_qr%d_%s_upd' % (n, nm), QR % (n, 'code = %s(1, h, q, 1);' % f, 'IEQ("code", code, zero);', s))
# both ways give the same factors (order 3)
T += fn('h_qr3_same', '''  const int n = 3; double h_[MX][MX], g_[MX][MX], *h[MX], *g[MX], q[2 * MX], w[2 * MX];
  for (int i = 0; i < MX; i++) { h[i] = h_[i]; g[i] = g_[i]; for (int j = 0; j < MX; j++) g[i][j] = h[i][j] = 0; }
  for (int j = 0; j < n; j++) for (int i = 0; i <= j + 1; i++) g[i][j] = h[i][j] = vp_real(-9, 9);
  SUNQRfact(n, h, q, 0);
  for (int k = 1; k <= n; k++) SUNQRfact(k, g, w, k - 1);
  for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) NEAR("r", h[i][j], g[i][j]);
  for (int i = 0; i < 2 * n; i++) NEAR("q", q[i], w[i]);
''')
ADD = ('MGS', 'ICWY', 'ICWY_SB', 'CGS2', 'DCGS2', 'DCGS2_SB')
for a in ADD:
    for n, m in ((2, 0), (2, 1), (3, 1), (3, 2)):
        # Q exactly orthonormal
        T += fn('h_add_%s_%d%d' % (a.lower(), n, m), '''  SUNContext c_ = ctx_(); const int n = %d, m = %d, mx = 4; N_Vector Q[MX], D; double o[MX][MX], d[MX], R[MX * MX], R0[MX * MX], tp[4 * MX];
  struct _SUNQRData w; double t = vp_real(-9, 9), c = (1 - t * t) / (1 + t * t), s = 2 * t / (1 + t * t), y[MX];
  w.vtemp = vec(y, n, c_); w.vtemp2 = vec(y, n, c_); w.temp_array = tp; fill(tp, 4 * MX, -9, 9); fill(R0, MX * MX, -9, 9); cpy(R, R0, MX * MX);
  for (int i = 0; i <= m; i++) Q[i] = vec(o[i], n, c_);
  if (m > 0) { for (int i = 0; i < n; i++) P(Q[0])[i] = 0; P(Q[0])[0] = c; P(Q[0])[n - 1] = s; }
  if (m > 1) { for (int i = 0; i < n; i++) P(Q[1])[i] = 0; P(Q[1])[0] = -s; P(Q[1])[n - 1] = c; }
  for (int i = 0; i < m; i++) cpy(o[i], P(Q[i]), n);
  D = vec(d, n, c_);
  double r2 = dot(d, d, n); for (int i = 0; i < m; i++) { double x = dot(d, o[i], n); r2 -= x * x; }
  assume(r2 > 0.01);
  IEQ("rc", SUNQRAdd_%s(Q, R, D, m, mx, &w), 0);
  keep("df-kept", D, d, n);
  for (int i = 0; i < m; i++) { for (int q = 0; q < n; q++) NEAR("q-kept", P(Q[i])[q], o[i][q]); NEAR("r", R[m * mx + i], dot(o[i], d, n)); NEAR("orthogonal", dot(P(Q[i]), P(Q[m]), n), 0.0); }
  NEAR("unit", dot(P(Q[m]), P(Q[m]), n), 1.0);
  TRUE_("sign", R[m * mx + m] > 0);
  for (int q = 0; q < n; q++) { double x = 0; for (int i = 0; i <= m; i++) x += R[m * mx + i] * P(Q[i])[q]; NEAR("qr", x, d[q]); }
  for (int i = 0; i < MX * MX; i++) { if (i / mx < m) NEAR("r-kept", R[i], R0[i]); else if (i / mx > m) SAME("r-next", R[i], R0[i]); }
''' % (n, m, a))
# any Q: the one-reduction variants give the coefficients of modified Gram-Schmidt
for a in ('ICWY', 'ICWY_SB', 'MGS'):
    for m in (1, 2, 3):
        T += fn('h_any_%s_%d' % (a.lower(), m), '''  SUNContext c_ = ctx_(); const int n = 2, m = %d, mx = 4; N_Vector Q[MX], D; double o[MX][MX], d[MX], R[MX * MX], r[MX], tp[4 * MX], y[MX];
  struct _SUNQRData w; w.vtemp = vec(y, n, c_); w.vtemp2 = vec(y, n, c_); w.temp_array = tp; fill(tp, 4 * MX, -9, 9); fill(R, MX * MX, -9, 9);
  for (int i = 0; i <= m; i++) Q[i] = vec(o[i], n, c_);
  for (int i = 0; i + 1 < m; i++) for (int j = 0; j <= i; j++) tp[i * mx + j] = i == j ? 1 : dot(o[i], o[j], n);
  D = vec(d, n, c_); cpy(y, d, n);
  for (int i = 0; i < m; i++) { r[i] = dot(o[i], y, n); for (int q = 0; q < n; q++) y[q] -= r[i] * o[i][q]; }
  IEQ("rc", SUNQRAdd_%s(Q, R, D, m, mx, &w), 0);
  for (int i = 0; i < m; i++) NEAR("r", R[m * mx + i], r[i]);
''' % (m, a))


def generate(tier):
    return {'c38.c': T}
