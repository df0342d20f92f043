from cutil import *
# sparse matrix operations (compressed columns and compressed rows) against the plain matrix they represent
T = INC + '''
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include <sunmatrix/sunmatrix_sparse.h>
#define M 4
#ifdef VP_THOROUGH
#define NX 3
#else
#define NX 2
#endif
static SUNContext c_;
typedef double mat[M][M];
/* any pattern, entries of a column (row) in ascending or descending order, `spare` unused places filled with junk */
static SUNMatrix smk(int m, int n, int type, int spare, int desc, mat a)
{
  int no = type == CSC_MAT ? n : m, ni = type == CSC_MAT ? m : n, nnz = 0, has[M][M];
  for (int o = 0; o < no; o++) for (int i = 0; i < ni; i++) { has[o][i] = vp_int(0, 1); nnz += has[o][i]; }
  SUNMatrix A = SUNSparseMatrix(m, n, nnz + spare, type, c_);
  sunindextype *p = SUNSparseMatrix_IndexPointers(A), *q = SUNSparseMatrix_IndexValues(A);
  double *d = SUNSparseMatrix_Data(A);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = 0;
  int k = 0;
  for (int o = 0; o < no; o++) {
    p[o] = k;
    for (int ii = 0; ii < ni; ii++) {
      int i = desc ? ni - 1 - ii : ii;
      if (!has[o][i]) continue;
      d[k] = vp_real(-9, 9); q[k] = i;
      if (type == CSC_MAT) a[i][o] = d[k]; else a[o][i] = d[k];
      k++;
    }
  }
  p[no] = k;
  for (; k < nnz + spare; k++) { d[k] = vp_real(-9, 9); q[k] = 0; }
  return A;
}
static void seq(const char *id, SUNMatrix A, int m, int n, mat a)
{
  int L = (int) strlen(id), type = SUNSparseMatrix_SparseType(A), no = type == CSC_MAT ? n : m, ni = type == CSC_MAT ? m : n, seen[M][M];
  mat s;
  vp_inteq(id, L, SUNSparseMatrix_Rows(A), m); vp_inteq(id, L, SUNSparseMatrix_Columns(A), n); vp_inteq(id, L, SUNSparseMatrix_NP(A), no);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { s[i][j] = 0; seen[i][j] = 0; }
  sunindextype *p = SUNSparseMatrix_IndexPointers(A), *q = SUNSparseMatrix_IndexValues(A);
  double *d = SUNSparseMatrix_Data(A);
  vp_inteq(id, L, p[0], 0);
  vp_true(id, L, p[no] <= SUNSparseMatrix_NNZ(A));
  for (int o = 0; o < no; o++) {
    vp_true(id, L, p[o] <= p[o + 1]);
    for (int k = p[o]; k < p[o + 1]; k++) {
      int i = q[k], r = type == CSC_MAT ? i : o, c = type == CSC_MAT ? o : i;
      vp_true(id, L, i >= 0 && i < ni && !seen[r][c]);
      seen[r][c] = 1; s[r][c] = d[k];
    }
  }
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) vp_near(id, L, s[i][j], a[i][j], 1e-9);
}
static int ty(void) { return vp_int(0, 1) ? CSC_MAT : CSR_MAT; }
'''
# sizes: every shape m x n with at most S entries
T += '''
static void shape(int *m, int *n, int s) { *m = vp_int(1, 3); *n = vp_int(1, 3); vp_assume(*m * *n <= s); }
'''
for sp in (0, 1, 2):
    # spare 0: reallocation; 1: maybe; 4: insertion into the free places
    T += fn('h_scaleadd_s%d' % sp, '''  mat a, b; double c; int m, n; c_ = ctx_(); shape(&m, &n, 4); int t = ty(), ds = %d;
  SUNMatrix A = smk(m, n, t, %d, ds, a), B = smk(m, n, t, 0, 1 - ds, b); c = vp_real(-9, 9);
  IEQ("rc", SUNMatScaleAdd(c, A, B), 0);
  seq("b-kept", B, m, n, b);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = c * a[i][j] + b[i][j];
  seq("a", A, m, n, a);
''' % (sp == 2, (0, 1, 4)[sp]))
    T += fn('h_scaleaddi_s%d' % sp, '''  mat a; double c; int m, n; c_ = ctx_(); shape(&m, &n, VPX); int t = ty();
  SUNMatrix A = smk(m, n, t, %d, vp_int(0, 1), a); c = vp_real(-9, 9);
  IEQ("rc", SUNMatScaleAddI(c, A), 0);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = c * a[i][j] + (i == j);
  seq("a", A, m, n, a);
'''.replace('VPX', '6') % (0, 1, 3)[sp])
    T += fn('h_t_scaleadd_s%d' % sp, '''  mat a, b; double c; int m, n; c_ = ctx_(); shape(&m, &n, 6); vp_assume(m * n == 6); int t = ty(), ds = %d;
  SUNMatrix A = smk(m, n, t, %d, ds, a), B = smk(m, n, t, 0, 1 - ds, b); c = vp_real(-9, 9);
  IEQ("rc", SUNMatScaleAdd(c, A, B), 0);
  seq("b-kept", B, m, n, b);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = c * a[i][j] + b[i][j];
  seq("a", A, m, n, a);
''' % (sp == 2, (0, 2, 6)[sp]))
T += fn('h_scaleadd_self', '''  mat a; double c; int m, n; c_ = ctx_(); shape(&m, &n, 4); int t = ty();
  SUNMatrix A = smk(m, n, t, 0, 0, a); c = vp_real(-9, 9);
  IEQ("rc", SUNMatScaleAdd(c, A, A), 0);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = c * a[i][j] + a[i][j];
  seq("a", A, m, n, a);
''')
T += fn('h_matvec', '''  mat a; int m, n; c_ = ctx_(); shape(&m, &n, 6); int t = ty();
  SUNMatrix A = smk(m, n, t, 1, 0, a);
  double x[M], y[M], dx[M], dy[M];
  fill(x, n, -9, 9); fill(y, m, -9, 9); cpy(dx, x, n); cpy(dy, y, m);
  N_Vector X = N_VMake_Serial(n, dx, c_), Y = N_VMake_Serial(m, dy, c_);
  IEQ("rc", SUNMatMatvec(A, X, Y), 0);
  for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * x[j]; NEAR("y", dy[i], s); }
  for (int j = 0; j < n; j++) SAME("x-kept", dx[j], x[j]);
  seq("a-kept", A, m, n, a);
''')
T += fn('h_convert', '''  mat a; int m, n; c_ = ctx_(); shape(&m, &n, 6); int t = ty();
  SUNMatrix A = smk(m, n, t, 1, vp_int(0, 1), a), B = NULL;
  IEQ("rc", t == CSC_MAT ? SUNSparseMatrix_ToCSR(A, &B) : SUNSparseMatrix_ToCSC(A, &B), 0);
  IEQ("type", SUNSparseMatrix_SparseType(B), t == CSC_MAT ? CSR_MAT : CSC_MAT);
  seq("b", B, m, n, a);
  seq("a-kept", A, m, n, a);
  TRUE_("own", SUNSparseMatrix_Data(B) != SUNSparseMatrix_Data(A));
  TRUE_("wrong", (t == CSC_MAT ? SUNSparseMatrix_ToCSC(A, &B) : SUNSparseMatrix_ToCSR(A, &B)) != 0);
''')
T += fn('h_copy', '''  mat a, b; int m, n; c_ = ctx_(); shape(&m, &n, 4); int t = ty(), cap = vp_int(0, 4);
  SUNMatrix A = smk(m, n, t, 1, 0, a), B = SUNSparseMatrix(m, n, cap, t, c_);
  for (int i = 0; i < cap; i++) { SUNSparseMatrix_Data(B)[i] = vp_real(-9, 9); }
  IEQ("rc", SUNMatCopy(A, B), 0);
  seq("b", B, m, n, a); seq("a-kept", A, m, n, a);
  SUNMatrix C = SUNMatClone(A);
  IEQ("type", SUNSparseMatrix_SparseType(C), t);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) b[i][j] = 0;
  seq("fresh", C, m, n, b);
  IEQ("nnz", SUNSparseMatrix_NNZ(C), SUNSparseMatrix_NNZ(A));
  IEQ("rc", SUNMatZero(B), 0);
  seq("zero", B, m, n, b); seq("a-kept", A, m, n, a);
  SUNMatDestroy(B); SUNMatDestroy(C);
  seq("a-kept", A, m, n, a);
''')
T += fn('h_realloc', '''  mat a; int m, n; c_ = ctx_(); shape(&m, &n, 4); int t = ty();
  SUNMatrix A = smk(m, n, t, 2, 0, a);
  int nz = SUNSparseMatrix_IndexPointers(A)[SUNSparseMatrix_NP(A)];
  vp_assume(nz > 0);
  IEQ("rc", SUNSparseMatrix_Reallocate(A, nz + 5), 0);
  IEQ("nnz", SUNSparseMatrix_NNZ(A), nz + 5);
  SUNSparseMatrix_Data(A)[nz + 4] = 1; SUNSparseMatrix_IndexValues(A)[nz + 4] = 0;
  seq("a", A, m, n, a);
  IEQ("rc", SUNSparseMatrix_Realloc(A), 0);
  IEQ("nnz", SUNSparseMatrix_NNZ(A), nz);
  seq("a", A, m, n, a);
  TRUE_("neg", SUNSparseMatrix_Reallocate(A, -1) != 0);
  seq("a", A, m, n, a);
''')
T += fn('h_fromdense', '''  mat a; int m, n; c_ = ctx_(); shape(&m, &n, NX == 3 ? 6 : 4); int t = ty(); double tol = vp_int(0, 1) ? 0 : vp_real(0, 9);
  SUNMatrix D = SUNDenseMatrix(m, n, c_), A;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { a[i][j] = vp_int(0, 1) ? vp_real(-9, 9) : 0; SUNDenseMatrix_Column(D, j)[i] = a[i][j]; }
  A = SUNSparseFromDenseMatrix(D, tol, t);
  IEQ("type", SUNSparseMatrix_SparseType(A), t);
  int k = 0;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { if (fabs(a[i][j]) > tol) k++; else a[i][j] = 0; }
  seq("a", A, m, n, a);
  IEQ("nnz", SUNSparseMatrix_NNZ(A), k);
''')
T += fn('h_fromband', '''  mat a; int n; c_ = ctx_(); n = vp_int(1, 3); int mu = vp_int(0, n - 1), ml = vp_int(0, n - 1), t = ty(); double tol = vp_real(0, 9);
  SUNMatrix D = SUNBandMatrix(n, mu, ml, c_), A;
  for (int i = 0; i < n * (mu + 2 * ml + 1); i++) SUNBandMatrix_Data(D)[i] = vp_real(9.5, 10);
  int z = vp_int(0, 1);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    a[i][j] = 0;
    if (i - j <= ml && j - i <= mu) { a[i][j] = (i + j) % 2 == z ? vp_real(-8, 8) : vp_real(-10, -9.5); SUNBandMatrix_Column(D, j)[i - j] = a[i][j]; }
  }
  A = SUNSparseFromBandMatrix(D, tol, t);
  int k = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (fabs(a[i][j]) > tol) k++; else a[i][j] = 0; }
  seq("a", A, n, n, a);
  IEQ("nnz", SUNSparseMatrix_NNZ(A), k);
''')
T += fn('h_compat', '''  mat a, b; c_ = ctx_(); int m = vp_int(1, 2), n = vp_int(1, 2), m2 = vp_int(1, 2), n2 = vp_int(1, 2), t = ty(), t2 = ty();
  SUNMatrix A = SUNSparseMatrix(m, n, 1, t, c_), B = SUNSparseMatrix(m2, n2, 1, t2, c_), D = SUNDenseMatrix(m, n, c_);
  int ok = m == m2 && n == n2 && t == t2;
  TRUE_("copy", (SUNMatCopy(A, B) == 0) == ok);
  TRUE_("add", (SUNMatScaleAdd(1.0, A, B) == 0) == ok);
  TRUE_("kind", SUNMatCopy(A, D) != 0 && SUNMatScaleAdd(1.0, A, D) != 0);
  double x[2] = {1, 1}, y[2];
  N_Vector X = N_VMake_Serial(n2, x, c_), Y = N_VMake_Serial(m2, y, c_);
  TRUE_("mv", (SUNMatMatvec(A, X, Y) == 0) == (m == m2 && n == n2));
  TRUE_("acc", SUNSparseMatrix_Rows(D) < 0 && SUNSparseMatrix_Columns(D) < 0 && SUNSparseMatrix_NNZ(D) < 0 && SUNSparseMatrix_NP(D) < 0 && SUNSparseMatrix_SparseType(D) < 0 && !SUNSparseMatrix_Data(D) && !SUNSparseMatrix_IndexValues(D) && !SUNSparseMatrix_IndexPointers(D));
  TRUE_("ill", !SUNSparseMatrix(0, 1, 1, t, c_) && !SUNSparseMatrix(1, 0, 1, t, c_) && !SUNSparseMatrix(1, 1, -1, t, c_) && !SUNSparseMatrix(1, 1, 1, 7, c_));
  TRUE_("ill2", !SUNSparseFromDenseMatrix(D, -1.0, t) && !SUNSparseFromDenseMatrix(A, 0.0, t) && !SUNSparseFromDenseMatrix(D, 0.0, 5) && !SUNSparseFromBandMatrix(D, 0.0, t));
''')


def generate(tier):
    return {'c35.c': T}
