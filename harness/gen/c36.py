from cutil import *
# dense factorisations and solves: what they return solves the system they were given
T = INC + '''
#include <sundials/sundials_dense.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include <sunlinsol/sunlinsol_dense.h>
#define MX 6
typedef double mat[MX][MX];
static void grab(double **c, int m, int n, mat a) { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { a[i][j] = vp_real(-9, 9); c[j][i] = a[i][j]; } }
/* scales a residual: solutions of badly conditioned systems need not be accurate */
static double dg(double **c, int n) { double d = 1; for (int k = 0; k < n; k++) d *= c[k][k]; return d; }
static double det(mat a, int n)
{
  if (n == 1) return a[0][0];
  if (n == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
  return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
'''
# the three interfaces to the same kernels
API = [('lower', 'SUNDlsMat_dense%s(c, n, %s)', 'SUNDlsMat_dense%s'), ('legacy', 'dense%s', ''), ('Struct', '', '')]


def lu(kind, n, lo=''):
    call = {'lower': ('SUNDlsMat_denseGETRF(c, n, n, p)', 'SUNDlsMat_denseGETRS(c, n, p, b)'),
            'legacy': ('denseGETRF(c, n, n, p)', 'denseGETRS(c, n, p, b)'),
            'Struct': ('SUNDlsMat_DenseGETRF(A, p)', 'SUNDlsMat_DenseGETRS(A, p, b)'),
            'Legacy': ('DenseGETRF(A, p)', 'DenseGETRS(A, p, b)')}[kind]
    return '''  const int n = %d; mat a; double b[MX], x[MX];
  SUNDlsMat A = SUNDlsMat_NewDenseMat(n, n); double **c = A->cols; sunindextype *p = SUNDlsMat_NewIndexArray(n);
  grab(c, n, n, a); fill(x, n, -9, 9); cpy(b, x, n);
  long r = %s;
  if (r == 0) {
    %s;
    for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * b[j]; NEAR("ax=b", dg(c, n) * s, dg(c, n) * x[i]); }
    for (int k = 0; k < n; k++) { TRUE_("pivot", p[k] >= k && p[k] < n); for (int i = k + 1; i < n; i++) TRUE_("max-pivot", fabs(c[k][i]) <= 1.0000001); }
  } else {
    TRUE_("rc", r >= 1 && r <= n);
    %s
  }
  SUNDlsMat_DestroyMat(A); SUNDlsMat_DestroyArray(p);
''' % (n, call[0], call[1], 'NEAR("singular", det(a, n), 0.0);' if n < 3 else '')


for k in ('lower', 'legacy', 'Struct', 'Legacy'):
    for n in (1, 2):
        T += fn('h_lu%d_%s' % (n, k), lu(k, n))
T += fn('h_lu3', lu('lower', 3))
T += fn('h_lu_rect', '''  mat a; const int m = 3, n = vp_int(1, 2);
  SUNDlsMat A = SUNDlsMat_NewDenseMat(m, n); double **c = A->cols; sunindextype p[MX];
  grab(c, m, n, a);
  long r = SUNDlsMat_DenseGETRF(A, p);
  if (r == 0) for (int i = 0; i < m; i++) {
    /* row i of P A = L U */
    double l[MX][MX], t[MX][MX];
    for (int q = 0; q < m; q++) for (int j = 0; j < n; j++) { t[q][j] = 0; for (int k = 0; k <= (q < j ? q : j); k++) t[q][j] += (k == q ? 1 : c[k][q]) * c[j][k]; }
    for (int k = n - 1; k >= 0; k--) for (int j = 0; j < n; j++) { double y = t[k][j]; t[k][j] = t[p[k]][j]; t[p[k]][j] = y; }
    for (int j = 0; j < n; j++) NEAR("lu", t[i][j], a[i][j]);
  }
''')
for k, f, s in (('lower', 'SUNDlsMat_densePOTRF(c, n)', 'SUNDlsMat_densePOTRS(c, n, b)'), ('legacy', 'densePOTRF(c, n)', 'densePOTRS(c, n, b)'),
                ('Struct', 'SUNDlsMat_DensePOTRF(A)', 'SUNDlsMat_DensePOTRS(A, b)'), ('Legacy', 'DensePOTRF(A)', 'DensePOTRS(A, b)')):
    for n in (1, 2, 3):
        if n == 3 and k != 'lower':
            continue
        T += fn('h_chol%d_%s' % (n, k), '''  const int n = %d; mat a; double b[MX], x[MX];
  SUNDlsMat A = SUNDlsMat_NewDenseMat(n, n); double **c = A->cols;
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) c[j][i] = vp_real(-9, 9);
  for (int j = 0; j < n; j++) for (int i = j; i < n; i++) a[i][j] = a[j][i] = c[j][i];
  fill(x, n, -9, 9); cpy(b, x, n);
  long r = %s;
  if (r == 0) {
    for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { double t = 0; for (int k = 0; k <= j; k++) t += c[k][i] * c[k][j]; NEAR("a=cc'", t, a[i][j]); }
    %s;
    for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) t += a[i][j] * b[j]; NEAR("ax=b", dg(c, n) * dg(c, n) * t, dg(c, n) * dg(c, n) * x[i]); }
  } else {
    TRUE_("rc", r >= 1 && r <= n);
    %s
  }
''' % (n, f, s, 'TRUE_("notpd", a[0][0] <= 0 %s);' % ('' if n == 1 else '|| a[0][0] * a[1][1] - a[1][0] * a[1][0] <= 0') if n < 3 else ''))
for k, f, s in (('lower', 'SUNDlsMat_denseGEQRF(c, m, n, beta, w)', 'SUNDlsMat_denseORMQR(c, m, n, beta, vn, vm, w)'),
                ('legacy', 'denseGEQRF(c, m, n, beta, w)', 'denseORMQR(c, m, n, beta, vn, vm, w)'),
                ('Struct', 'SUNDlsMat_DenseGEQRF(A, beta, w)', 'SUNDlsMat_DenseORMQR(A, beta, vn, vm, w)'),
                ('Legacy', 'DenseGEQRF(A, beta, w)', 'DenseORMQR(A, beta, vn, vm, w)')):
    for m, n in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
        if k != 'lower' and (m, n) != (2, 1):
            continue
        T += fn('h_%sqr%d%d_%s' % ('t_' if (m, n) == (3, 2) else '', m, n, k), '''  const int m = %d, n = %d; mat a; double beta[MX], w[MX], vn[MX], vm[MX], q[MX], s;
  SUNDlsMat A = SUNDlsMat_NewDenseMat(m, n); double **c = A->cols;
  grab(c, m, n, a);
  IEQ("rc", %s, 0);
  /* Q R e_j = A e_j */
  for (int j = 0; j < n; j++) {
    for (int i = 0; i < n; i++) vn[i] = i <= j ? c[j][i] : 0;
    IEQ("rc", %s, 0);
    for (int i = 0; i < m; i++) NEAR("qr=a", vm[i], a[i][j]);
  }
  /* Q keeps lengths */
  fill(q, n, -9, 9); cpy(vn, q, n);
  IEQ("rc", %s, 0);
  double l = 0, r = 0; for (int i = 0; i < n; i++) { l += q[i] * q[i]; SAME("vn-kept", vn[i], q[i]); } for (int i = 0; i < m; i++) r += vm[i] * vm[i];
  NEAR("orthogonal", r, l);
''' % (m, n, f, s, s))
T += fn('h_basic', '''  mat a, b; double x[MX], y[MX]; int m = vp_int(1, 3), n = vp_int(1, 3), v = vp_int(0, 3);
  double **p, **q; SUNDlsMat A = NULL, B = NULL;
  if (v < 2) { p = SUNDlsMat_newDenseMat(m, n); q = newDenseMat(m, n); } else { A = SUNDlsMat_NewDenseMat(m, n); B = NewDenseMat(m, n); p = A->cols; q = B->cols; 
    IEQ("shape", A->M * 10 + A->N, m * 10 + n); IEQ("ldim", A->ldim, m); IEQ("ldata", A->ldata, m * n); IEQ("type", A->type, SUNDIALS_DENSE); }
  grab(p, m, n, a); grab(q, m, n, b); double s = vp_real(-9, 9); fill(x, n, -9, 9); fill(y, m, -9, 9);
  if (v == 0) SUNDlsMat_denseCopy(p, q, m, n); else if (v == 1) denseCopy(p, q, m, n); else if (v == 2) SUNDlsMat_DenseCopy(A, B); else DenseCopy(A, B);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { SAME("copy", q[j][i], a[i][j]); SAME("kept", p[j][i], a[i][j]); }
  if (v == 0) SUNDlsMat_denseScale(s, p, m, n); else if (v == 1) denseScale(s, p, m, n); else if (v == 2) SUNDlsMat_DenseScale(s, A); else DenseScale(s, A);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { SAME("copy2", q[j][i], a[i][j]); NEAR("scale", p[j][i], s * a[i][j]); }
  if (v == 0) SUNDlsMat_denseMatvec(q, x, y, m, n); else if (v == 1) denseMatvec(q, x, y, m, n); else if (v == 2) SUNDlsMat_DenseMatvec(B, x, y); else DenseMatvec(B, x, y);
  for (int i = 0; i < m; i++) { double t = 0; for (int j = 0; j < n; j++) t += a[i][j] * x[j]; NEAR("mv", y[i], t); }
  if (m == n) {
    if (v == 0) SUNDlsMat_denseAddIdentity(q, n); else if (v == 1) denseAddIdentity(q, n); else if (v == 2) SUNDlsMat_AddIdentity(B); else AddIdentity(B);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) NEAR("addI", q[j][i], a[i][j] + (i == j));
  }
  if (v >= 2) { if (v == 2) SUNDlsMat_SetToZero(B); else SetToZero(B); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SAME("zero", q[j][i], 0.0); }
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) NEAR("own", p[j][i], s * a[i][j]);
  if (v == 0) SUNDlsMat_destroyMat(p); else if (v == 1) destroyMat(p); else if (v == 2) SUNDlsMat_DestroyMat(A); else DestroyMat(A);
  if (v == 1) SUNDlsMat_destroyMat(q); else if (v == 0) destroyMat(q); else if (v == 3) SUNDlsMat_DestroyMat(B); else DestroyMat(B);
''')
T += fn('h_new', '''  int n = vp_int(-1, 2), m = vp_int(-1, 2);
  double **p = SUNDlsMat_newDenseMat(m, n); TRUE_("p", (p != NULL) == (m > 0 && n > 0));
  SUNDlsMat A = SUNDlsMat_NewDenseMat(m, n); TRUE_("A", (A != NULL) == (m > 0 && n > 0));
  sunindextype *k = SUNDlsMat_newIndexArray(n), *k2 = SUNDlsMat_NewIndexArray(n); TRUE_("k", (k != NULL) == (n > 0) && (k2 != NULL) == (n > 0)); if (n > 0) k[n - 1] = k2[n - 1] = 1;
  int *i = SUNDlsMat_newIntArray(n), *i2 = SUNDlsMat_NewIntArray(n); TRUE_("i", (i != NULL) == (n > 0) && (i2 != NULL) == (n > 0)); if (n > 0) i[n - 1] = i2[n - 1] = 1;
  double *r = SUNDlsMat_newRealArray(n), *r2 = SUNDlsMat_NewRealArray(n); TRUE_("r", (r != NULL) == (n > 0) && (r2 != NULL) == (n > 0)); if (n > 0) r[n - 1] = r2[n - 1] = 1;
  if (n > 0) { SUNDlsMat_destroyArray(k); SUNDlsMat_DestroyArray(i); SUNDlsMat_destroyArray(r); }
''')
SOL = '''  SUNContext c_ = ctx_(); const int n = %d; mat a; double x[MX], bx[MX];
  SUNMatrix A = SUNDenseMatrix(n, n, c_);
  N_Vector B = N_VNew_Serial(n, c_), X = %s;
  grab(SUNDenseMatrix_Cols(A), n, n, a); fill(bx, n, -9, 9); cpy(N_VGetArrayPointer(B), bx, n);
  SUNLinearSolver S = SUNLinSol_Dense(X, A, c_);
  IEQ("type", SUNLinSolGetType(S), SUNLINEARSOLVER_DIRECT); IEQ("id", SUNLinSolGetID(S), SUNLINEARSOLVER_DENSE);
  IEQ("init", SUNLinSolInitialize(S), 0);
  int r = SUNLinSolSetup(S, A);
  if (r) { IEQ("fail", r, SUNLS_LUFACT_FAIL); TRUE_("flag", SUNLinSolLastFlag(S) >= 1 && SUNLinSolLastFlag(S) <= n); %s }
  else {
    IEQ("flag0", SUNLinSolLastFlag(S), 0);
    IEQ("solve", SUNLinSolSolve(S, A, X, B, 0.0), 0);
    for (int q = 0; q < 2; q++) {
      for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * N_VGetArrayPointer(X)[j]; NEAR("ax=b", dg(SUNDenseMatrix_Cols(A), n) * s, dg(SUNDenseMatrix_Cols(A), n) * bx[i]); }
      if (X != B) for (int i = 0; i < n; i++) SAME("b-kept", N_VGetArrayPointer(B)[i], bx[i]);
      /* the factors serve further right hand sides */
      if (q == 0) { fill(bx, n, -9, 9); cpy(N_VGetArrayPointer(B), bx, n); IEQ("solve2", SUNLinSolSolve(S, A, X, B, 0.0), 0); }
    }
    IEQ("flag0", SUNLinSolLastFlag(S), 0);
  }
  SUNLinSolFree(S);
'''
for n in (1, 2):
    for nm, x in (('sep', 'N_VNew_Serial(n, c_)'), ('same', 'B')):
        T += fn('h_ls%d_%s' % (n, nm), SOL % (n, x, 'NEAR("singular", det(a, n), 0.0);'))
T += fn('h_ls3', SOL % (3, 'N_VNew_Serial(n, c_)', ''))
T += fn('h_ls_reject', '''  SUNContext c_ = ctx_(); int m = vp_int(1, 3), n = vp_int(1, 3), l = vp_int(1, 3);
  SUNMatrix A = SUNDenseMatrix(m, n, c_), D = SUNBandMatrix(l, 0, 0, c_); N_Vector y = N_VNew_Serial(l, c_);
  SUNLinearSolver S = SUNLinSol_Dense(y, A, c_);
  TRUE_("made", (S != NULL) == (m == n && n == l));
  TRUE_("band", SUNLinSol_Dense(y, D, c_) == NULL);
  if (S) {
    TRUE_("nullA", SUNLinSolSetup(S, NULL) == SUNLS_MEM_NULL);
    TRUE_("kind", SUNLinSolSetup(S, D) == SUNLS_ILL_INPUT && SUNLinSolLastFlag(S) == SUNLS_ILL_INPUT);
    TRUE_("nullx", SUNLinSolSolve(S, A, NULL, y, 0.0) == SUNLS_MEM_NULL && SUNLinSolSolve(S, NULL, y, y, 0.0) == SUNLS_MEM_NULL);
    long a, b; IEQ("space", SUNLinSolSpace(S, &a, &b), 0); TRUE_("sp", a == 0 && b == 2 + n);
    IEQ("free", SUNLinSolFree(S), 0);
  }
''')

# larger orders: triangular solves for all factors, factorisation of integer matrices with two free entries
T += fn('h_solve_lu', """  const int n = vp_int(4, 5); mat a; double b[MX], x[MX], t[MX]; sunindextype p[MX];
  SUNDlsMat A = SUNDlsMat_NewDenseMat(n, n); double **c = A->cols; grab(c, n, n, a); fill(x, n, -9, 9); cpy(b, x, n);
  for (int k = 0; k < n; k++) { vp_assume(a[k][k] >= 0.5); p[k] = n == 4 ? vp_int(k, n - 1) : k < 3 ? (vp_int(0, 1) ? n - 1 : k) : k; }
  SUNDlsMat_denseGETRS(c, n, p, b);
  /* L U b = P x */
  for (int k = 0; k < n; k++) { double y = x[k]; x[k] = x[p[k]]; x[p[k]] = y; }
  for (int i = 0; i < n; i++) { t[i] = 0; for (int j = i; j < n; j++) t[i] += a[i][j] * b[j]; }
  for (int i = 0; i < n; i++) { double y = t[i]; for (int j = 0; j < i; j++) y += a[i][j] * t[j]; NEAR("lux=pb", y, x[i]); }
""")
T += fn('h_solve_chol', """  const int n = vp_int(4, 5); mat a; double b[MX], x[MX], t[MX];
  SUNDlsMat A = SUNDlsMat_NewDenseMat(n, n); double **c = A->cols; grab(c, n, n, a); fill(x, n, -9, 9); cpy(b, x, n);
  for (int k = 0; k < n; k++) vp_assume(a[k][k] >= 0.5);
  SUNDlsMat_densePOTRS(c, n, b);
  for (int i = 0; i < n; i++) { t[i] = 0; for (int j = i; j < n; j++) t[i] += a[j][i] * b[j]; }
  for (int i = 0; i < n; i++) { double y = 0; for (int j = 0; j <= i; j++) y += a[i][j] * t[j]; NEAR("cc'x=b", y, x[i]); }
""")
T += fn('h_lu_big', """  const int n = vp_int(4, 5), s = vp_int(0, 5); mat a; double b[MX], x[MX];
  SUNDlsMat A = SUNDlsMat_NewDenseMat(n, n); double **c = A->cols; sunindextype p[MX];
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = (7 * i * i + 3 * i * j + 5 * j + s * (i + 2 * j + i * j * j)) % 11 - 5;
  a[s % n][n - 1] = vp_real(6, 7); a[(s + 2) % n][1] = vp_real(-9, -8);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c[j][i] = a[i][j];
  fill(x, n, -9, 9); cpy(b, x, n);
  long r = SUNDlsMat_denseGETRF(c, n, n, p);
  if (r == 0) {
    SUNDlsMat_denseGETRS(c, n, p, b);
    for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) q += a[i][j] * b[j]; NEAR("ax=b", dg(c, n) * q, dg(c, n) * x[i]); }
    for (int k = 0; k < n; k++) for (int i = k + 1; i < n; i++) TRUE_("max-pivot", fabs(c[k][i]) <= 1.0000001);
  }
""")
T += fn('h_chol_big', """  const int n = vp_int(4, 5), s = vp_int(0, 3); mat a, l; double d = vp_real(0, 3);
  SUNDlsMat A = SUNDlsMat_NewDenseMat(n, n); double **c = A->cols;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) l[i][j] = j > i ? 0 : i == j ? 1 + (i + s) % 3 : (5 * i + 3 * j + s) % 7 - 3;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { a[i][j] = 0; for (int k = 0; k < n; k++) a[i][j] += l[i][k] * l[j][k]; }
  a[n - 2][n - 2] += d;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c[j][i] = i < j ? vp_real(-9, 9) : a[i][j];
  IEQ("rc", SUNDlsMat_densePOTRF(c, n), 0);
  for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { double t = 0; for (int k = 0; k <= j; k++) t += c[k][i] * c[k][j]; NEAR("a=cc'", t, a[i][j]); }
""")
T += fn('h_ormqr_big', """  const int m = vp_int(4, 5), n = vp_int(1, 2); mat v; double beta[MX], w[MX], vn[MX], q[MX], vm[MX], e[MX], l = 0, r = 0;
  SUNDlsMat A = SUNDlsMat_NewDenseMat(m, n); double **c = A->cols; grab(c, m, n, v);
  for (int j = 0; j < n; j++) { double t = 1; for (int i = j + 1; i < m; i++) t += v[i][j] * v[i][j]; beta[j] = 2 / t; }
  fill(q, n, -9, 9); cpy(vn, q, n);
  IEQ("rc", SUNDlsMat_denseORMQR(c, m, n, beta, vn, vm, w), 0);
  for (int i = 0; i < m; i++) e[i] = i < n ? q[i] : 0;
  for (int j = n - 1; j >= 0; j--) { double t = e[j]; for (int i = j + 1; i < m; i++) t += v[i][j] * e[i]; t *= beta[j]; e[j] -= t; for (int i = j + 1; i < m; i++) e[i] -= t * v[i][j]; }
  for (int i = 0; i < m; i++) NEAR("reflections", vm[i], e[i]);
""")
T += fn('h_geqrf_big', """  const int m = vp_int(4, 5), n = vp_int(1, 3), s = vp_int(0, 3); mat a; double beta[MX], w[MX], vn[MX], vm[MX], t = vp_real(-9, 9);
  SUNDlsMat A = SUNDlsMat_NewDenseMat(m, n); double **c = A->cols;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = (7 * i * i + 3 * i * j + 5 * j + s * (i + 2 * j)) % 11 - 5;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c[j][i] = a[i][j];
  IEQ("rc", SUNDlsMat_denseGEQRF(c, m, n, beta, w), 0);
  for (int j = 0; j < n; j++) {
    for (int i = 0; i < n; i++) vn[i] = i <= j ? c[j][i] * t : 0;
    IEQ("rc", SUNDlsMat_denseORMQR(c, m, n, beta, vn, vm, w), 0);
    for (int i = 0; i < m; i++) NEAR("qr=a", vm[i], a[i][j] * t);
  }
""")


def generate(tier):
    return {'c36.c': T}
