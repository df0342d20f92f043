from cutil import *
# The Newton and fixed-point solvers, with arbitrary callbacks
T = CVINC + '''
#include <sunnonlinsol/sunnonlinsol_newton.h>
#include <sunnonlinsol/sunnonlinsol_fixedpoint.h>
#define MAXC 60
static int n, nsys, nset, nsol, nct, last, lastw, cur, wantsys, jc, phase, iters, fails, maxit, okcur, free_; static double yv[4], fv[4], dv[4], tol_;
static int want, wantbad, setups, inner; static N_Vector W_; static void *mem_ = &n;
enum { P_SYS, P_SETUP, P_SOLVE, P_TEST };
static int code(int n1) { int k = vp_int(0, n1); return k == 0 ? 0 : k == 1 ? 7 : k == 2 ? -5 : SUN_NLS_CONTINUE; }
static int sys(N_Vector y, N_Vector F, void *m)
{
  TRUE_("sys-data", m == mem_); TRUE_("sys-order", phase == P_SYS || (phase == P_TEST)); nsys++;
  for (int i = 0; i < n; i++) SAME("sys-at-iterate", P(y)[i], yv[i]), fv[i] = P(F)[i] = vp_real(-9, 9);
  inner = cur > 0; last = code(2); lastw = P_SYS; phase = P_SETUP; return last;
}
static int setup(booleantype jbad, booleantype *jcur, void *m)
{
  TRUE_("setup-data", m == mem_); IEQ("setup-after-residual", phase, P_SETUP); TRUE_("setup-wanted", want); IEQ("jbad", jbad, wantbad); want = inner = 0; nset++;
  *jcur = okcur = vp_int(0, 1); if (jbad) *jcur = okcur = 1;
  last = code(2); lastw = P_SETUP; phase = P_SOLVE; return last;
}
static int lsolve(N_Vector b, void *m)
{
  TRUE_("solve-data", m == mem_); TRUE_("setup-first", !want); TRUE_("solve-order", phase == P_SETUP || phase == P_SOLVE); nsol++;
  for (int i = 0; i < n; i++) SAME("minus-residual", P(b)[i], -fv[i]), dv[i] = P(b)[i] = vp_real(-9, 9);
  inner = 1; last = code(2); lastw = P_SOLVE; phase = P_TEST; cur++; TRUE_("iteration-limit", cur <= maxit); return last;
}
static int ctest(SUNNonlinearSolver s, N_Vector y, N_Vector d, realtype tol, N_Vector w, void *data)
{
  int it; nct++; TRUE_("test-data", data == &tol_); SAME("test-tol", tol, tol_); TRUE_("test-weights", w == W_);
  SUNNonlinSolGetCurIter(s, &it); IEQ("iteration-number", it, cur - 1);
  for (int i = 0; i < n; i++) { SAME("new-iterate", P(y)[i], yv[i] + dv[i]); SAME("update", P(d)[i], dv[i]); yv[i] = P(y)[i]; }
  last = code(3); lastw = P_TEST; phase = P_TEST;
  if (last == SUN_NLS_CONTINUE && cur == maxit) last = SUN_NLS_CONV_RECVR, lastw = P_TEST + 1;
  return lastw == P_TEST + 1 ? SUN_NLS_CONTINUE : last;
}
/* a failed attempt is retried once with a new Jacobian: the callback of the residual sees the correction zero */
static int sys_retry(N_Vector y, N_Vector F, void *m)
{
  if (last > 0 && last != SUN_NLS_CONTINUE && nsys) {
    TRUE_("retry-only-with-setup", setups); TRUE_("retry-only-if-outdated", !okcur); TRUE_("retry-only-from-the-iteration", inner); want = wantbad = 1; cur = 0; phase = P_SYS; fails++; for (int i = 0; i < n; i++) yv[i] = 0;
  } else if (nsys) IEQ("residual-after-test", phase, P_TEST);
  return sys(y, F, m);
}
static void newton(int N, int mi, int call, int has, int solves)
{
  SUNContext c = ctx_(); N_Vector y0 = vec(N, c), y = N_VClone(y0), z = N_VClone(y0); W_ = N_VClone(y0); n = N; maxit = mi; tol_ = 0.25;
  SUNNonlinearSolver s = SUNNonlinSol_Newton(y0, c); long ni, nf; N_VConst(0, y0);
  int r = SUNNonlinSolSetSysFn(s, sys_retry) | SUNNonlinSolSetLSolveFn(s, lsolve) | SUNNonlinSolSetConvTestFn(s, ctest, &tol_) | SUNNonlinSolSetMaxIters(s, mi);
  if (has) r |= SUNNonlinSolSetLSetupFn(s, setup);
  IEQ("setup", r | SUNNonlinSolInitialize(s), 0); IEQ("bad-limit", SUNNonlinSolSetMaxIters(s, 0), SUN_NLS_ILL_INPUT);
  for (int k = 0; k < solves; k++) {
    setups = has; nsys = nset = nsol = nct = cur = fails = wantbad = last = 0; okcur = 0; phase = P_SYS; want = call;
    if (k && has) call = want = 1;
    for (int i = 0; i < n; i++) yv[i] = P(y)[i] = vp_real(-9, 9);
    r = SUNNonlinSolSolve(s, y0, y, W_, tol_, call, mem_);
    IEQ("returns-last-code", r, last); IEQ("success-only-after-test", r == 0 ? lastw : P_TEST, P_TEST);
    if (r > 0) TRUE_("retried-if-it-could-help", okcur || !has || !inner);
    if (r == 0) for (int i = 0; i < n; i++) SAME("solution", P(y)[i], yv[i]);
    IEQ("num", SUNNonlinSolGetNumIters(s, &ni) | SUNNonlinSolGetNumConvFails(s, &nf), 0); IEQ("num-iters", ni, nsol); IEQ("num-fails", nf, fails + (r != 0));
    if (r) return;
  }
}
/* fixed-point iteration */
static double gk[8][4], fk[8][4], xk[8][4], beta; static int depth, kk, ycheck;
static void mincomb(int k, double *x, double *den)   /* damped Anderson iterate times the determinant of the normal equations */
{
  int m = k < depth ? k : depth; double A[3][3] = {{0}}, b[3] = {0}, D, gm[3];
  for (int i = 0; i < m; i++) for (int l = 0; l < n; l++) {
    double di = fk[k - i][l] - fk[k - i - 1][l];
    for (int j = 0; j < m; j++) A[i][j] += di * (fk[k - j][l] - fk[k - j - 1][l]);
    b[i] += di * fk[k][l];
  }
  if (m == 0) D = 1; else if (m == 1) { D = A[0][0]; gm[0] = b[0]; } else if (m == 2) { D = A[0][0] * A[1][1] - A[0][1] * A[1][0]; gm[0] = b[0] * A[1][1] - A[0][1] * b[1]; gm[1] = A[0][0] * b[1] - b[0] * A[1][0]; }
  else {
    D = 0; for (int j = 0; j < 3; j++) gm[j] = 0;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
      double cof = A[(i + 1) % 3][(j + 1) % 3] * A[(i + 2) % 3][(j + 2) % 3] - A[(i + 1) % 3][(j + 2) % 3] * A[(i + 2) % 3][(j + 1) % 3];
      if (i == 0) D += A[0][j] * cof;
      gm[j] += b[i] * cof;
    }
  }
  for (int l = 0; l < n; l++) {
    double xx = D * gk[k][l], ff = D * fk[k][l];
    for (int i = 0; i < m; i++) xx -= gm[i] * (gk[k - i][l] - gk[k - i - 1][l]), ff -= gm[i] * (fk[k - i][l] - fk[k - i - 1][l]);
    x[l] = m && beta < 1 ? xx - (1 - beta) * ff : xx;
  }
  *den = D;
}
static const double *gseq; static int lastp, pick, lastp;
static int gsys(N_Vector y, N_Vector G, void *m)
{
  TRUE_("sys-data", m == mem_); IEQ("sys-order", phase, P_SYS); nsys++;
  for (int i = 0; i < n; i++) SAME("sys-at-iterate", P(y)[i], yv[i]), xk[kk][i] = yv[i], gk[kk][i] = P(G)[i] = gseq ? gseq[kk * n + i] + (i == 0 && kk == pick ? vp_real(-0.125, 0.125) : 0) : vp_real(-9, 9), fk[kk][i] = gk[kk][i] - xk[kk][i];
  if (kk && depth && (!lastp || kk == pick)) vp_assume(fabs(fk[kk][0] - fk[kk - 1][0]) > 1e-3);
  last = free_ ? code(2) : 0; phase = P_TEST; return last;
}
static int gtest(SUNNonlinearSolver s, N_Vector y, N_Vector d, realtype tol, N_Vector w, void *data)
{
  int it; double x[4], den; nct++; TRUE_("test-data", data == &tol_); SAME("test-tol", tol, tol_); TRUE_("test-weights", w == W_); IEQ("test-order", phase, P_TEST);
  SUNNonlinSolGetCurIter(s, &it); IEQ("iteration-number", it, kk); TRUE_("iteration-limit", kk < maxit);
  mincomb(kk, x, &den);
  for (int i = 0; i < n; i++) { if (depth == 0 || kk == 0) SAME("new-iterate", P(y)[i], gk[kk][i]); else NEART("accelerated-iterate", den * P(y)[i], x[i], 1e-7); NEAR("update", P(d)[i], P(y)[i] - yv[i]); }
  for (int i = 0; i < n; i++) yv[i] = P(y)[i];
  kk++; phase = P_SYS; last = free_ ? code(3) : SUN_NLS_CONTINUE; if (last == SUN_NLS_CONTINUE && kk == maxit) { last = SUN_NLS_CONV_RECVR; return SUN_NLS_CONTINUE; }
  return last;
}
static void fixed(int N, int mi, int m, int fr, double bt, const double *gs, int solves)
{
  SUNContext c = ctx_(); N_Vector y0 = vec(N, c), y = N_VClone(y0); W_ = N_VClone(y0); n = N; maxit = mi; tol_ = 0.25; depth = m; beta = bt; free_ = fr; gseq = gs; pick = lastp ? mi - 1 : gs ? vp_int(0, mi - 2) : 0;
  SUNNonlinearSolver s = SUNNonlinSol_FixedPoint(y0, m, c); long ni, nf; N_VConst(0, y0);
  int r = SUNNonlinSolSetSysFn(s, gsys) | SUNNonlinSolSetConvTestFn(s, gtest, &tol_) | SUNNonlinSolSetMaxIters(s, mi) | SUNNonlinSolInitialize(s);
  if (bt < 1) r |= SUNNonlinSolSetDamping_FixedPoint(s, bt);
  IEQ("setup", r, 0); IEQ("bad-limit", SUNNonlinSolSetMaxIters(s, 0), SUN_NLS_ILL_INPUT); IEQ("bad-damping", SUNNonlinSolSetDamping_FixedPoint(s, -1), SUN_NLS_ILL_INPUT);
  for (int k = 0; k < solves; k++) {
    kk = nsys = nct = last = 0; phase = P_SYS;
    for (int i = 0; i < n; i++) yv[i] = P(y)[i] = gs ? 0 : vp_real(-9, 9);
    r = SUNNonlinSolSolve(s, y0, y, W_, tol_, 0, mem_);
    IEQ("returns-last-code", r, last); for (int i = 0; i < n; i++) SAME("solution", P(y)[i], yv[i]);
    IEQ("num", SUNNonlinSolGetNumIters(s, &ni) | SUNNonlinSolGetNumConvFails(s, &nf), 0); IEQ("num-iters", ni, nct); IEQ("num-fails", nf, r != 0);
  }
}
'''
for N in (1, 2):
    for mi in (1, 2, 3):
        for call, has in ((1, 1), (0, 1), (0, 0)):
            if N == 2 and mi == 3: continue
            T += fn('h_newton%d_%d_%d%d' % (N, mi, call, has), '  newton(%d, %d, %d, %d, %d);' % (N, mi, call, has, 2 if N == 1 and mi < 2 else 1))
        T += fn('h_plain%d_%d' % (N, mi), '  fixed(%d, %d, 0, 1, 1, NULL, 2);' % (N, mi))
T += fn('h_aa_codes', '  fixed(1, 2, 1, 1, 1, NULL, 1);')
T += 'static const double S2[] = {1, 2, 0.5, 3, 2, -1, -1.5, 0.25, 0.75, 1.25}, S3[] = {1, 2, -1, 0.5, 3, 0.25, 2, -1, 1.5, -1.5, 0.25, 2, 0.75, 1.25, -2};\n'
for bt in ('1', '0.5'):
    b = 'd' if bt != '1' else ''
    T += fn('h_aa_1_2' + b, '  fixed(2, 2, 1, 0, %s, NULL, 1);' % bt)
    T += fn('h_aa_1_2seq' + b, '  fixed(2, 4, 1, 0, %s, S2, 2);' % bt)
    T += fn('h_aa_2_2' + b, '  fixed(2, 3, 2, 0, %s, S2, 1);' % bt)
    T += fn('h_aa_2_3' + b, '  fixed(3, 4, 2, 0, %s, S3, 1);' % bt)

T += 'static const double S4[] = {1, 2, -1, 0.5, 3, 0.25, 2, -1, 1.5, -1.5, 0.25, 2, 0.75, 1.25, -2, 0.5, -0.75, 1, 2.5, 1.75, -0.5, 3, 1, -1.25, 0.25, -2, 1.5, 2};\n'
for bt in ('1', '0.75'):
    b = 'd' if bt != '1' else ''
    for d in (1, 2, 3):
        for it in range(d + 1, d + 5):
            if it > 7: continue
            T += fn('h_recycle_%d_%d%s' % (d, it, b), '  lastp = 1; fixed(%d, %d, %d, 0, %s, %s, %d);' % (d + 1, it, d, bt, 'S%d' % (d + 1) if d == 3 else 'S4', 2 if it == d + 1 else 1))


def generate(tier):
    return {'c46.c': T}
