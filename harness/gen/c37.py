from cutil import *
# band factorisation and solve
T = INC + '''
#include <sundials/sundials_band.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include <sunlinsol/sunlinsol_band.h>
#define MX 6
typedef double mat[MX][MX];
/* every place of the storage gets a value; entries of the band define the matrix */
static void grab(double **c, int n, int mu, int ml, int smu, mat a)
{
  for (int j = 0; j < n; j++) for (int r = 0; r < smu + ml + 1; r++) c[j][r] = vp_real(-9, 9);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = (i - j <= ml && j - i <= mu) ? c[j][i - j + smu] : 0;
}
/* scales a residual: solutions of badly conditioned systems need not be accurate */
static double dg(double **c, int n, int smu) { double d = 1; for (int k = 0; k < n; k++) d *= c[k][smu]; return d; }
static double det(mat a, int n)
{
  if (n == 1) return a[0][0];
  return a[0][0] * a[1][1] - a[0][1] * a[1][0];
}
static double get(double **c, int mu, int ml, int smu, int i, int j) { return (i - j <= ml && j - i <= mu) ? c[j][i - j + smu] : 0; }
#define BW int mu = vp_int(0, n - 1), ml = vp_int(0, n - 1), full = mu + ml, cut = full < n - 1 ? full : n - 1, smu = vp_int(0, 1) ? cut : full
'''


def lu(kind, n):
    f, s = {'lower': ('SUNDlsMat_bandGBTRF(c, n, mu, ml, smu, p)', 'SUNDlsMat_bandGBTRS(c, n, smu, ml, p, b)'),
            'legacy': ('bandGBTRF(c, n, mu, ml, smu, p)', 'bandGBTRS(c, n, smu, ml, p, b)'),
            'Struct': ('SUNDlsMat_BandGBTRF(A, p)', 'SUNDlsMat_BandGBTRS(A, p, b)'),
            'Legacy': ('BandGBTRF(A, p)', 'BandGBTRS(A, p, b)')}[kind]
    return '''  const int n = %d; mat a; double b[MX], x[MX]; BW;
  SUNDlsMat A = SUNDlsMat_NewBandMat(n, mu, ml, smu); double **c = A->cols; sunindextype *p = SUNDlsMat_NewIndexArray(n);
  grab(c, n, mu, ml, smu, a); fill(x, n, -9, 9); cpy(b, x, n);
  long r = %s;
  if (r == 0) {
    for (int q = 0; q < 2; q++) {
      %s;
      for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * b[j]; NEAR("ax=b", dg(c, n, smu) * s, dg(c, n, smu) * x[i]); }
      if (n > 2) break;
      fill(x, n, -9, 9); cpy(b, x, n);
    }
    for (int k = 0; k < n; k++) { TRUE_("pivot", p[k] >= k && p[k] < n && p[k] <= k + ml); for (int i = k + 1; i < n && i <= k + ml; i++) TRUE_("max-pivot", fabs(c[k][smu + i - k]) <= 1.0000001); }
  } else {
    TRUE_("rc", r >= 1 && r <= n);
    %s
  }
  SUNDlsMat_DestroyMat(A); SUNDlsMat_DestroyArray(p);
''' % (n, f, s, 'NEAR("singular", det(a, n), 0.0);' if n < 3 else '')


for k in ('lower', 'legacy', 'Struct', 'Legacy'):
    for n in (1, 2):
        T += fn('h_lu%d_%s' % (n, k), lu(k, n))
T += fn('h_lu3', lu('lower', 3))
# order 4, narrow bands: elimination runs along the band
for nm, mu, ml, s in (('lo', 0, 1, 1), ('up', 1, 0, 1), ('tri', 1, 1, 2)):
    T += fn('h_%slu4_%s' % ('t_' if nm == 'tri' else '', nm), lu('lower', 4).replace('BW;', 'int mu = %d, ml = %d, smu = %d;' % (mu, ml, s)))
T += fn('h_basic', '''  mat a, b; double x[MX], y[MX]; int n = vp_int(1, 3), v = vp_int(0, 3);
  int mu = vp_int(0, n - 1), ml = vp_int(0, n - 1), smu = vp_int(0, 1) ? mu + ml : mu, smu2 = mu + 1;
  double **p, **q; SUNDlsMat A = NULL, B = NULL;
  if (v < 2) { p = SUNDlsMat_newBandMat(n, smu, ml); q = newBandMat(n, smu2, ml); } else { A = SUNDlsMat_NewBandMat(n, mu, ml, smu); B = NewBandMat(n, mu, ml, smu2); p = A->cols; q = B->cols;
    IEQ("shape", A->M * 10 + A->N, n * 11); IEQ("mu", A->mu, mu); IEQ("ml", A->ml, ml); IEQ("smu", A->s_mu, smu); IEQ("ldim", A->ldim, smu + ml + 1); IEQ("ldata", A->ldata, n * (smu + ml + 1)); IEQ("type", A->type, SUNDIALS_BAND); }
  grab(p, n, mu, ml, smu, a); grab(q, n, mu, ml, smu2, b); double s = vp_real(-9, 9); fill(x, n, -9, 9); fill(y, n, -9, 9);
  if (v == 0) SUNDlsMat_bandMatvec(q, x, y, n, mu, ml, smu2); else if (v == 1) bandMatvec(q, x, y, n, mu, ml, smu2); else if (v == 2) SUNDlsMat_BandMatvec(B, x, y); else BandMatvec(B, x, y);
  for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) t += b[i][j] * x[j]; NEAR("mv", y[i], t); }
  int cmu = vp_int(0, mu), cml = vp_int(0, ml);
  if (v == 0) SUNDlsMat_bandCopy(p, q, n, smu, smu2, cmu, cml); else if (v == 1) bandCopy(p, q, n, smu, smu2, cmu, cml); else if (v == 2) SUNDlsMat_BandCopy(A, B, cmu, cml); else BandCopy(A, B, cmu, cml);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i - j <= cml && j - i <= cmu) b[i][j] = a[i][j]; SAME("copy", get(q, mu, ml, smu2, i, j), b[i][j]); SAME("kept", get(p, mu, ml, smu, i, j), a[i][j]); }
  if (v == 0) SUNDlsMat_bandScale(s, p, n, mu, ml, smu); else if (v == 1) bandScale(s, p, n, mu, ml, smu); else if (v == 2) SUNDlsMat_BandScale(s, A); else BandScale(s, A);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { SAME("copy2", get(q, mu, ml, smu2, i, j), b[i][j]); NEAR("scale", get(p, mu, ml, smu, i, j), s * a[i][j]); }
  if (v == 0) SUNDlsMat_bandAddIdentity(q, n, smu2); else if (v == 1) bandAddIdentity(q, n, smu2); else if (v == 2) SUNDlsMat_AddIdentity(B); else AddIdentity(B);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) NEAR("addI", get(q, mu, ml, smu2, i, j), b[i][j] + (i == j));
  if (v >= 2) { if (v == 2) SUNDlsMat_SetToZero(B); else SetToZero(B); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) SAME("zero", get(q, mu, ml, smu2, i, j), 0.0); }
  if (v == 0) SUNDlsMat_destroyMat(p); else if (v == 1) destroyMat(p); else if (v == 2) SUNDlsMat_DestroyMat(A); else DestroyMat(A);
  if (v == 1) SUNDlsMat_destroyMat(q); else if (v == 0) destroyMat(q); else if (v == 3) SUNDlsMat_DestroyMat(B); else DestroyMat(B);
''')
SOL = '''  SUNContext c_ = ctx_(); const int n = %d; mat a; double x[MX], bx[MX]; BW;
  SUNMatrix A = SUNBandMatrixStorage(n, mu, ml, smu, c_);
  N_Vector B = N_VNew_Serial(n, c_), X = %s;
  grab(SUNBandMatrix_Cols(A), n, mu, ml, smu, a); fill(bx, n, -9, 9); cpy(N_VGetArrayPointer(B), bx, n);
  SUNLinearSolver S = SUNLinSol_Band(X, A, c_);
  IEQ("type", SUNLinSolGetType(S), SUNLINEARSOLVER_DIRECT); IEQ("id", SUNLinSolGetID(S), SUNLINEARSOLVER_BAND);
  IEQ("init", SUNLinSolInitialize(S), 0);
  int r = SUNLinSolSetup(S, A);
  if (r) { IEQ("fail", r, SUNLS_LUFACT_FAIL); TRUE_("flag", SUNLinSolLastFlag(S) >= 1 && SUNLinSolLastFlag(S) <= n); %s }
  else {
    IEQ("flag0", SUNLinSolLastFlag(S), 0);
    IEQ("solve", SUNLinSolSolve(S, A, X, B, 0.0), 0);
    for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * N_VGetArrayPointer(X)[j]; NEAR("ax=b", dg(SUNBandMatrix_Cols(A), n, SUNBandMatrix_StoredUpperBandwidth(A)) * s, dg(SUNBandMatrix_Cols(A), n, SUNBandMatrix_StoredUpperBandwidth(A)) * bx[i]); }
    if (X != B) for (int i = 0; i < n; i++) SAME("b-kept", N_VGetArrayPointer(B)[i], bx[i]);
  }
  SUNLinSolFree(S);
'''
for n in (1, 2, 3):
    for nm, x in (('sep', 'N_VNew_Serial(n, c_)'), ('same', 'B')):
        if n < 3 or nm == 'sep':
            T += fn('h_ls%d_%s' % (n, nm), SOL % (n, x, 'NEAR("singular", det(a, n), 0.0);' if n < 3 else ''))
T += fn('h_ls_reject', '''  SUNContext c_ = ctx_(); int n = vp_int(1, 3), l = vp_int(1, 3), mu = vp_int(0, n - 1), ml = vp_int(0, n - 1), smu = vp_int(mu, n);
  SUNMatrix A = SUNBandMatrixStorage(n, mu, ml, smu, c_), D = SUNDenseMatrix(l, l, c_); N_Vector y = N_VNew_Serial(l, c_);
  SUNLinearSolver S = SUNLinSol_Band(y, A, c_);
  int need = mu + ml < n - 1 ? mu + ml : n - 1;
  TRUE_("made", (S != NULL) == (n == l && smu >= need));
  TRUE_("dense", SUNLinSol_Band(y, D, c_) == NULL);
  if (S) {
    TRUE_("nullA", SUNLinSolSetup(S, NULL) == SUNLS_MEM_NULL);
    TRUE_("kind", SUNLinSolSetup(S, D) == SUNLS_ILL_INPUT && SUNLinSolLastFlag(S) == SUNLS_ILL_INPUT);
    TRUE_("nullx", SUNLinSolSolve(S, A, NULL, y, 0.0) == SUNLS_MEM_NULL && SUNLinSolSolve(S, NULL, y, y, 0.0) == SUNLS_MEM_NULL);
    if (need > mu) { SUNMatrix N = SUNBandMatrixStorage(n, mu, ml, need - 1, c_); TRUE_("narrow", SUNLinSolSetup(S, N) == SUNLS_MEM_FAIL && SUNLinSolLastFlag(S) == SUNLS_MEM_FAIL); }
    long a, b; IEQ("space", SUNLinSolSpace(S, &a, &b), 0); TRUE_("sp", a == 0 && b == 2 + n);
    IEQ("free", SUNLinSolFree(S), 0);
  }
''')

# larger orders: integer matrices with two free entries, every bandwidth
T += fn('h_lu_big', """  const int n = vp_int(4, 5), s = vp_int(0, 3); mat a; double b[MX], x[MX]; int mu = vp_int(0, 2), ml = vp_int(0, 2), smu = mu + ml < n - 1 ? mu + ml : n - 1; sunindextype p[MX];
  SUNDlsMat A = SUNDlsMat_NewBandMat(n, mu, ml, smu); double **c = A->cols;
  for (int j = 0; j < n; j++) for (int r = 0; r < smu + ml + 1; r++) c[j][r] = 77;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { a[i][j] = 0; if (i - j <= ml && j - i <= mu) a[i][j] = i == j ? 1 + (i * s) % 3 : (7 * i * i + 3 * i * j + 5 * j + s * (i + 2 * j + i * j * j)) % 11 - 5; }
  a[0][0] = vp_real(2, 3); a[n - 2][n - 2] = vp_real(-4, -3);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i - j <= ml && j - i <= mu) c[j][i - j + smu] = a[i][j];
  fill(x, n, -9, 9); cpy(b, x, n);
  long r = SUNDlsMat_bandGBTRF(c, n, mu, ml, smu, p);
  if (r == 0) {
    SUNDlsMat_bandGBTRS(c, n, smu, ml, p, b);
    for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) q += a[i][j] * b[j]; NEAR("ax=b", dg(c, n, smu) * q, dg(c, n, smu) * x[i]); }
    for (int k = 0; k < n; k++) for (int i = k + 1; i < n && i <= k + ml; i++) TRUE_("max-pivot", fabs(c[k][smu + i - k]) <= 1.0000001);
  }
""")


def generate(tier):
    return {'c37.c': T}
