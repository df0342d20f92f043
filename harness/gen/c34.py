from cutil import *
# dense and band matrix operations against the plain matrix they represent
T = INC + '''
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#define M 4
#ifdef VP_THOROUGH
#define NB 4
#else
#define NB 3
#endif
static SUNContext c_;
typedef double mat[M][M];
static SUNMatrix dmk(int m, int n, mat a)
{
  SUNMatrix A = SUNDenseMatrix(m, n, c_);
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { a[i][j] = vp_real(-9, 9); SUNDenseMatrix_Column(A, j)[i] = a[i][j]; }
  return A;
}
static double dget(SUNMatrix A, int i, int j) { return SUNDenseMatrix_Column(A, j)[i]; }
static SUNMatrix bmk(int n, int mu, int ml, int smu, mat a)
{
  SUNMatrix A = SUNBandMatrixStorage(n, mu, ml, smu, c_);
  /* the corners of the storage outside the matrix hold anything */
  double *d = SUNBandMatrix_Data(A);
  for (int i = 0; i < n * (smu + ml + 1); i++) d[i] = vp_real(-9, 9);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = 0;
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i - j <= ml && j - i <= mu) a[i][j] = d[j * (smu + ml + 1) + smu + i - j];
  return A;
}
static double bget(SUNMatrix A, int i, int j)
{
  if (i - j > SUNBandMatrix_LowerBandwidth(A) || j - i > SUNBandMatrix_UpperBandwidth(A)) return 0;
  return SUNBandMatrix_Column(A, j)[i - j];
}
static void beq(const char *id, SUNMatrix A, int n, mat a)
{ for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vp_near(id, (int) strlen(id), bget(A, i, j), a[i][j], 1e-9); }
static void deq(const char *id, SUNMatrix A, int m, int n, mat a)
{ for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) vp_near(id, (int) strlen(id), dget(A, i, j), a[i][j], 1e-9); }
#define DS c_ = ctx_(); int m = vp_int(1, 3), n = vp_int(1, 3)
#define BS(k) c_ = ctx_(); int n = vp_int(1, k)
#define BND(mu, ml, smu) int mu = vp_int(0, n - 1), ml = vp_int(0, n - 1), smu = vp_int(0, 1) ? mu : (mu + ml)
'''
T += fn('h_dense_scaleadd', '''  mat a, b; double c; DS;
  SUNMatrix A = dmk(m, n, a), B = dmk(m, n, b); c = vp_real(-9, 9);
  IEQ("rc", SUNMatScaleAdd(c, A, B), 0);
  deq("b-kept", B, m, n, b);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = c * a[i][j] + b[i][j];
  deq("a", A, m, n, a);
''')
T += fn('h_dense_scaleadd_self', '''  mat a; double c; DS;
  SUNMatrix A = dmk(m, n, a); c = vp_real(-9, 9);
  IEQ("rc", SUNMatScaleAdd(c, A, A), 0);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = c * a[i][j] + a[i][j];
  deq("a", A, m, n, a);
''')
T += fn('h_dense_scaleaddi', '''  mat a; double c; DS;
  SUNMatrix A = dmk(m, n, a); c = vp_real(-9, 9);
  IEQ("rc", SUNMatScaleAddI(c, A), 0);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = c * a[i][j] + (i == j);
  deq("a", A, m, n, a);
''')
T += fn('h_dense_copy', '''  mat a, b; DS;
  SUNMatrix A = dmk(m, n, a), B = dmk(m, n, b), C = SUNMatClone(A);
  IEQ("rows", SUNDenseMatrix_Rows(C), m); IEQ("cols", SUNDenseMatrix_Columns(C), n); IEQ("id", SUNMatGetID(C), SUNMATRIX_DENSE);
  IEQ("ldata", SUNDenseMatrix_LData(C), m * n);
  TRUE_("own", SUNDenseMatrix_Data(C) != SUNDenseMatrix_Data(A));
  for (int j = 0; j < n; j++) {
    TRUE_("cols", SUNDenseMatrix_Cols(C)[j] == SUNDenseMatrix_Data(C) + j * m && SUNDenseMatrix_Column(C, j) == SUNDenseMatrix_Cols(C)[j]);
    for (int i = 0; i < m; i++) SAME("fresh", dget(C, i, j), 0.0);
  }
  IEQ("rc", SUNMatCopy(A, B), 0);
  IEQ("rc", SUNMatCopy(A, C), 0);
  deq("b", B, m, n, a); deq("c", C, m, n, a); deq("a-kept", A, m, n, a);
  IEQ("rc", SUNMatZero(B), 0);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) SAME("zero", dget(B, i, j), 0.0);
  deq("a-kept", A, m, n, a);
  SUNMatDestroy(C); SUNMatDestroy(B);
  deq("a-kept", A, m, n, a);
''')
T += fn('h_dense_shape', '''  mat a, b; DS; int m2 = vp_int(1, 3), n2 = vp_int(1, 3);
  SUNMatrix A = dmk(m, n, a), B = dmk(m2, n2, b);
  int same = m == m2 && n == n2;
  int r1 = SUNMatCopy(A, B); TRUE_("copy", (r1 == 0) == same); if (!same) deq("b-kept", B, m2, n2, b);
  int r2 = SUNMatScaleAdd(2.0, A, B); TRUE_("scaleadd", (r2 == 0) == same); if (!same) deq("a-kept", A, m, n, a);
  SUNMatrix C = SUNBandMatrix(m, 0, 0, c_);
  TRUE_("kind", SUNMatCopy(A, C) != 0 && SUNMatScaleAdd(1.0, A, C) != 0);
  IEQ("acc", SUNDenseMatrix_Rows(C) < 0 && SUNDenseMatrix_Columns(C) < 0 && SUNDenseMatrix_Data(C) == NULL && SUNDenseMatrix_Cols(C) == NULL && SUNDenseMatrix_Column(C, 0) == NULL, 1);
  IEQ("bacc", SUNBandMatrix_Rows(A) < 0 && SUNBandMatrix_Columns(A) < 0 && SUNBandMatrix_LowerBandwidth(A) < 0 && SUNBandMatrix_UpperBandwidth(A) < 0 && SUNBandMatrix_StoredUpperBandwidth(A) < 0 && SUNBandMatrix_LDim(A) < 0 && SUNBandMatrix_Data(A) == NULL && SUNBandMatrix_Cols(A) == NULL && SUNBandMatrix_Column(A, 0) == NULL, 1);
  long lr, li; SUNMatSpace(A, &lr, &li); IEQ("space", lr, m * n);
''')
T += fn('h_dense_illegal', '''  c_ = ctx_(); int m = vp_int(-1, 1), n = vp_int(-1, 1), mu = vp_int(-1, 1);
  TRUE_("dense", (SUNDenseMatrix(m, n, c_) != NULL) == (m > 0 && n > 0));
  TRUE_("band", (SUNBandMatrixStorage(m, 0, n, mu, c_) != NULL) == (m > 0 && n >= 0 && mu >= 0));
''')
for k, pre in (('dense', '''  mat a; DS; SUNMatrix A = dmk(m, n, a);'''), ('band', '''  mat a; BS(NB); int m = n; BND(mu, ml, smu); SUNMatrix A = bmk(n, mu, ml, smu, a);''')):
    T += fn('h_%s_matvec' % k, pre + '''
  double x[M], y[M], dx[M], dy[M];
  fill(x, n, -9, 9); fill(y, m, -9, 9); cpy(dx, x, n); cpy(dy, y, m);
  N_Vector X = N_VMake_Serial(n, dx, c_), Y = N_VMake_Serial(m, dy, c_);
  IEQ("rc", SUNMatMatvecSetup(A), 0);
  IEQ("rc", SUNMatMatvec(A, X, Y), 0);
  for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * x[j]; NEAR("y", dy[i], s); }
  for (int j = 0; j < n; j++) SAME("x-kept", dx[j], x[j]);
  %s
''' % ('deq("a-kept", A, m, n, a);' if k == 'dense' else 'beq("a-kept", A, n, a);'))
T += fn('h_band_scaleadd', '''  mat a, b; double c; BS(NB); BND(mu, ml, smu); BND(mu2, ml2, smu2);
  SUNMatrix A = bmk(n, mu, ml, smu, a), B = bmk(n, mu2, ml2, smu2, b); c = vp_real(-9, 9);
  IEQ("rc", SUNMatScaleAdd(c, A, B), 0);
  beq("b-kept", B, n, b);
  TRUE_("band", SUNBandMatrix_UpperBandwidth(A) == (mu > mu2 ? mu : mu2) && SUNBandMatrix_LowerBandwidth(A) == (ml > ml2 ? ml : ml2));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = c * a[i][j] + b[i][j];
  beq("a", A, n, a);
  /* still a consistent band matrix: another operation works on it */
  double x[M], y[M];
  fill(x, n, -9, 9);
  N_Vector X = N_VMake_Serial(n, x, c_), Y = N_VMake_Serial(n, y, c_);
  IEQ("rc", SUNMatMatvec(A, X, Y), 0);
  for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * x[j]; NEAR("y", y[i], s); }
  SUNMatZero(A);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) SAME("zero", bget(A, i, j), 0.0);
  SUNMatDestroy(A); SUNMatDestroy(B);
''')
T += fn('h_band_scaleaddi', '''  mat a; double c; BS(NB); BND(mu, ml, smu);
  SUNMatrix A = bmk(n, mu, ml, smu, a); c = vp_real(-9, 9);
  IEQ("rc", SUNMatScaleAddI(c, A), 0);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = c * a[i][j] + (i == j);
  beq("a", A, n, a);
''')
T += fn('h_band_copy', '''  mat a, b; BS(NB); BND(mu, ml, smu); BND(mu2, ml2, smu2);
  SUNMatrix A = bmk(n, mu, ml, smu, a), B = bmk(n, mu2, ml2, smu2, b);
  IEQ("rc", SUNMatCopy(A, B), 0);
  beq("b", B, n, a); beq("a-kept", A, n, a);
  TRUE_("band", SUNBandMatrix_UpperBandwidth(B) == (mu > mu2 ? mu : mu2) && SUNBandMatrix_LowerBandwidth(B) == (ml > ml2 ? ml : ml2));
  IEQ("bs", SUNBandMatrix_UpperBandwidth(A) * 10 + SUNBandMatrix_LowerBandwidth(A), mu * 10 + ml);
  SUNMatrix C = SUNMatClone(B);
  IEQ("n", SUNBandMatrix_Columns(C) * 10 + SUNBandMatrix_Rows(C), n * 11);
  IEQ("mu", SUNBandMatrix_UpperBandwidth(C), SUNBandMatrix_UpperBandwidth(B)); IEQ("ml", SUNBandMatrix_LowerBandwidth(C), SUNBandMatrix_LowerBandwidth(B));
  IEQ("smu", SUNBandMatrix_StoredUpperBandwidth(C), SUNBandMatrix_StoredUpperBandwidth(B));
  TRUE_("smu-mu", SUNBandMatrix_StoredUpperBandwidth(C) >= SUNBandMatrix_UpperBandwidth(C));
  IEQ("ldim", SUNBandMatrix_LDim(C), SUNBandMatrix_StoredUpperBandwidth(C) + SUNBandMatrix_LowerBandwidth(C) + 1);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) SAME("fresh", bget(C, i, j), 0.0);
  IEQ("rc", SUNMatScaleAdd(2.0, C, B), 0);
  beq("c", C, n, a);
  SUNMatZero(B);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) SAME("zero", bget(B, i, j), 0.0);
  beq("a-kept", A, n, a);
  long lr, li; SUNMatSpace(A, &lr, &li); IEQ("space", lr, n * (smu + ml + 1));
  SUNMatDestroy(C); SUNMatDestroy(B);
  beq("a-kept", A, n, a);
''')


def generate(tier):
    return {'c34.c': T}
