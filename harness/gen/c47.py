from cutil import *
# The linear systems of the Newton iteration of CVODES
T = CVINC + '''
#include "cvodes_ls_impl.h"
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include <sunlinsol/sunlinsol_dense.h>
#define MX 5
static int n, ml, mu, cons, ncall, failn, failc, nn, dq; static double a[MX][MX], c0[MX], yy0[MX], f0[MX], con[MX], t0, ret_[8], hh, fnorm_, ew[MX], rely;
static N_Vector W_, xx[8], ww[8];
static double norm(N_Vector x, N_Vector w) { int i = nn < 8 ? nn++ : 7; xx[i] = x; ww[i] = w; return ret_[i]; }
static int in(int i, int j) { return i - j <= ml && j - i <= mu; }
static double absd(double x) { return x < 0 ? -x : x; }
static int rhs(realtype t, N_Vector y, N_Vector yd, void *u)
{
  int ch[MX], k = 0; ncall++;
  if (dq) {
    SAME("f-time", t, t0);
    for (int j = 0; j < n; j++) {
      double d = P(y)[j] - yy0[j], e = rely * absd(yy0[j]), f = fnorm_ == 0 ? 1 / ew[j] : 1000 * absd(hh) * UNIT_ROUNDOFF * n * fnorm_ / ew[j];
      ch[k] = j; if (d != 0) { k++; NEAR("increment", absd(d) / (e > f ? e : f), 1); if (cons) TRUE_("constraint-kept", con[j] == 0 || absd(con[j]) == 1 ? P(y)[j] * con[j] >= 0 || yy0[j] * con[j] < 0 : P(y)[j] * con[j] > 0 || yy0[j] * con[j] <= 0); }
    }
    TRUE_("some-change", k > 0);
    for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) TRUE_("columns-that-do-not-overlap", ch[i] - ch[j] > ml + mu);
  }
  if (ncall == failn) return failc;
  for (int i = 0; i < n; i++) { double s = c0[i]; for (int j = 0; j < n; j++) if (in(i, j)) s += a[i][j] * P(y)[j]; P(yd)[i] = s; }
  return 0;
}
/* a linear solver that does what it is told */
static int typ, nset, nsol, ninit, rset, rsol, nit, zg, uses; static SUNMatrix Aset, Asol; static double xs[MX], tol_, bs[MX]; static SUNATimesFn atf; static void *atd, *pd; static SUNPSetupFn psf; static SUNPSolveFn pso; static N_Vector sc1, sc2; static int cur_;
static SUNLinearSolver_Type l_type(SUNLinearSolver S) { return typ; }
static int l_init(SUNLinearSolver S) { ninit++; return 0; }
static int l_setup(SUNLinearSolver S, SUNMatrix A) { nset++; Aset = A; if (uses && psf) { int r = psf(pd); if (r) return r; } return rset; }
static int l_solve(SUNLinearSolver S, SUNMatrix A, N_Vector x, N_Vector b, realtype tol) { nsol++; Asol = A; tol_ = tol; for (int i = 0; i < n; i++) { SAME("zero-guess", P(x)[i], 0.0); bs[i] = P(b)[i]; P(x)[i] = xs[i]; } return rsol; }
static int l_setat(SUNLinearSolver S, void *d, SUNATimesFn f) { atd = d; atf = f; return 0; }
static int l_setp(SUNLinearSolver S, void *d, SUNPSetupFn f, SUNPSolveFn g) { pd = d; psf = f; pso = g; return 0; }
static int l_sets(SUNLinearSolver S, N_Vector s, N_Vector r) { sc1 = s; sc2 = r; return 0; }
static int l_zero(SUNLinearSolver S, booleantype o) { zg = o; return 0; }
static int l_nit(SUNLinearSolver S) { return nit; }
static SUNLinearSolver mkls(int ty, int scal, SUNContext c)
{
  SUNLinearSolver S = SUNLinSolNewEmpty(c); typ = ty; sc1 = sc2 = NULL; atf = NULL; psf = NULL; pso = NULL; zg = nset = nsol = ninit = rset = rsol = uses = 0; nit = 0;
  S->ops->gettype = l_type; S->ops->initialize = l_init; S->ops->setup = l_setup; S->ops->solve = l_solve; S->ops->setzeroguess = l_zero;
  if (ty == SUNLINEARSOLVER_ITERATIVE) { S->ops->setatimes = l_setat; S->ops->setpreconditioner = l_setp; }
  if (ty != SUNLINEARSOLVER_DIRECT) S->ops->numiters = l_nit;
  if (scal) S->ops->setscalingvectors = l_sets;
  return S;
}
static int curit(SUNNonlinearSolver s, int *i) { *i = cur_; return 0; }
static int udata;
static CVodeMem mk(int lmm, int N, int l, int u, int ty, int scal)   /* l < 0: dense */
{
  SUNContext c = ctx_(); SUNMatrix A = NULL; n = N; ml = l < 0 ? N - 1 : l; mu = l < 0 ? N - 1 : u; dq = ncall = nn = failn = cons = 0; rely = 1.0 / (1 << 26);
  N_Vector y = vec(n, c); y->ops->nvwrmsnorm = norm; W_ = NULL;
  if (ty != SUNLINEARSOLVER_ITERATIVE) A = l < 0 ? SUNDenseMatrix(n, n, c) : SUNBandMatrix(n, mu, ml, c);
  CVodeMem m = CVodeCreate(lmm, c); CVodeSetErrHandlerFn(m, eh, NULL);
  int r = CVodeInit(m, rhs, 0, y) | CVodeSStolerances(m, 1e-4, 1e-6) | CVodeSetUserData(m, &udata) | CVodeSetLinearSolver(m, mkls(ty, scal, c), A);
  IEQ("setup", r, 0);
  SUNNonlinearSolver nl = SUNNonlinSolNewEmpty(c); nl->ops->getcuriter = curit; m->NLS = nl; cur_ = 0;
  m->cv_tn = t0 = vp_real(-3, 3); m->cv_gamma = vp_real(0.01, 3); m->cv_gammap = m->cv_gamma; m->cv_gamrat = 1; m->cv_h = hh = vp_real(-2, 2); m->cv_nst = 0; m->cv_tq[4] = vp_real(0.1, 3);
  for (int i = 0; i < n; i++) P(m->cv_ewt)[i] = ew[i] = 1;
  return m;
}
static void lin(CVodeMem m) { IEQ("init", m->cv_linit(m), 0); IEQ("solver-initialised", ninit, 1); }
static double entry_(SUNMatrix A, int i, int j) { return SUNMatGetID(A) == SUNMATRIX_DENSE ? SM_ELEMENT_D(A, i, j) : in(i, j) ? SM_ELEMENT_B(A, i, j) : 0; }
static N_Vector clone(CVodeMem m) { return N_VClone(m->cv_tempv); }
@@/* difference quotients: exact for a linear right-hand side */
static void dqjac(int N, int l, int u, int constr, int fail, int zero)
{
  CVodeMem m = mk(CV_BDF, N, l, u, SUNLINEARSOLVER_DIRECT, 0); N_Vector y = clone(m), f = clone(m), v1 = clone(m), v2 = clone(m), v3 = clone(m); booleantype jc = 7; long k;
  for (int i = 0; i < n; i++) { c0[i] = vp_real(-9, 9); for (int j = 0; j < n; j++) a[i][j] = in(i, j) ? vp_real(-9, 9) : 0; P(m->cv_ewt)[i] = ew[i] = i ? 4 : 2; }
  if (constr) { N_Vector cv = clone(m); int k = vp_int(-2, 2); for (int i = 0; i < n; i++) P(cv)[i] = con[i] = i == 0 ? k : 0; m->cv_constraints = cv; m->cv_constraintsSet = cons = 1; }
  for (int i = 0; i < n; i++) yy0[i] = P(y)[i] = i == 0 || n < 3 ? vp_real(-9, 9) : (i % 2 ? 3 : -0.5);
  rhs(t0, y, f, NULL); for (int i = 0; i < n; i++) f0[i] = P(f)[i];
  m->cv_h = hh = fail ? 1 : 0.25; ret_[0] = fnorm_ = zero ? 0 : 8; ncall = 0; dq = 1; if (fail) failn = vp_int(1, 2), failc = vp_int(0, 1) ? 1 : -1;
  lin(m); int r = m->cv_lsetup(m, CV_NO_FAILURES, y, f, &jc, v1, v2, v3); dq = 0; SUNMatrix A = ((CVLsMem) m->cv_lmem)->A;
  TRUE_("norm-of-f", xx[0] == f && ww[0] == m->cv_ewt);
  if (fail && ncall >= failn) { TRUE_("failure-kind", failc > 0 ? r > 0 : r < 0); return; }
  IEQ("setup-ok", r, 0); IEQ("fresh", jc, 1); IEQ("f-calls", ncall, ml + mu + 1 < n ? ml + mu + 1 : n);
  IEQ("num", CVodeGetNumLinRhsEvals(m, &k), 0); IEQ("num-f", k, ncall); IEQ("num", CVodeGetNumJacEvals(m, &k), 0); IEQ("num-jac", k, 1);
  TRUE_("solver-set-up", nset == 1 && Aset == A);
  for (int j = 0; j < n; j++) { SAME("y-restored", P(y)[j], yy0[j]); SAME("f-kept", P(f)[j], f0[j]); for (int i = 0; i < n; i++) if (in(i, j)) NEART("entry", entry_(A, i, j), (i == j) - m->cv_gamma * a[i][j], 1e-6); }
}
@@/* user Jacobian: when it is evaluated again, and the matrix */
static double J_[MX][MX]; static int njac, jret, gotargs; static N_Vector ey, ef; static CVodeMem em;
static int jac(realtype t, N_Vector y, N_Vector f, SUNMatrix J, void *u, N_Vector v1, N_Vector v2, N_Vector v3)
{
  njac++; gotargs = t == em->cv_tn && y == ey && f == ef && u == &udata;
  if (jret) return jret;
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in(i, j)) { J_[i][j] = vp_real(-9, 9); if (SUNMatGetID(J) == SUNMATRIX_DENSE) SM_ELEMENT_D(J, i, j) += J_[i][j]; else SM_ELEMENT_B(J, i, j) += J_[i][j]; }
  return 0;
}
static int lsys_args, lsys_ret, lsys_jok, lsys_jc, nlsys;
static int lsys(realtype t, N_Vector y, N_Vector f, SUNMatrix A, booleantype jok, booleantype *jc, realtype g, void *u, N_Vector v1, N_Vector v2, N_Vector v3)
{ nlsys++; lsys_args = t == em->cv_tn && y == ey && f == ef && u == &udata && g == em->cv_gamma && A == ((CVLsMem) em->cv_lmem)->A; lsys_jok = jok; *jc = lsys_jc; return lsys_ret; }
static void setup(int N, int l, int u, int own, long every)
{
  CVodeMem m = mk(CV_BDF, N, l, u, SUNLINEARSOLVER_DIRECT, 0); N_Vector v1 = clone(m), v2 = clone(m), v3 = clone(m); long k, lastn = 0, nj = 0; em = m; ey = clone(m); ef = clone(m); njac = 0; jret = 0;
  if (own) IEQ("set", CVodeSetLinSysFn(m, lsys), 0); else IEQ("set", CVodeSetJacFn(m, jac), 0);
  if (every == 3) IEQ("freq", CVodeSetJacEvalFrequency(m, 3), 0);
  lin(m); SUNMatrix A = ((CVLsMem) m->cv_lmem)->A; int st = 0;
  for (int s = 0; s < (n > 1 ? 2 : 3); s++) {
    booleantype jc = 0; int cf = s ? vp_int(0, 2) : 0, f0n = njac, need; cf = cf == 0 ? CV_NO_FAILURES : cf == 1 ? CV_FAIL_BAD_J : CV_FAIL_OTHER;
    if (s) { int d = s == 1 ? 2 * vp_int(0, 1) + 1 : vp_int(1, 3); st += d == 3 ? every : d; m->cv_nst = st; m->cv_gammap = m->cv_gamma; m->cv_gamma = m->cv_gammap * vp_real(0.5, 2); }
    double dg = SUNRabs(m->cv_gamma / m->cv_gammap - 1); vp_assume(SUNRabs(dg - 0.2) > 1e-6);
    need = st == 0 || st >= lastn + (every == 51 ? 51 : 3) || (cf == CV_FAIL_BAD_J && dg < 0.2) || cf == CV_FAIL_OTHER;
    rset = jret = lsys_ret = 0; if (s == 2) { int k = vp_int(-2, 2), c = k < 0 ? -1 : 1; if (k % 2 == 0 && k) rset = c; else if (k && own) lsys_ret = c; else if (k) jret = c; } lsys_jc = own ? vp_int(0, 1) : 0; nset = 0; Aset = NULL;
    int r = m->cv_lsetup(m, cf, ey, ef, &jc, v1, v2, v3);
    if (own) {
      TRUE_("system-function-arguments", lsys_args); IEQ("suggestion", lsys_jok, !need);
      if (lsys_jc) lastn = st, nj++;
      IEQ("num", CVodeGetNumJacEvals(m, &k), 0); IEQ("num-jac", k, nj);
      if (lsys_ret) { TRUE_("failure-kind", r * lsys_ret > 0); CVodeGetLastLinFlag(m, &k); IEQ("flag", k, r > 0 ? CVLS_JACFUNC_RECVR : CVLS_JACFUNC_UNRECVR); return; }
    } else {
      IEQ("evaluated-when-due", njac - f0n, need); if (need) TRUE_("jacobian-arguments", gotargs);
      IEQ("reports-fresh", jc, need);
      if (need) lastn = st, nj++;
      if (need && jret) { TRUE_("failure-kind", r * jret > 0); CVodeGetLastLinFlag(m, &k); IEQ("flag", k, r > 0 ? CVLS_JACFUNC_RECVR : CVLS_JACFUNC_UNRECVR); IEQ("not-set-up", nset, 0); return; }
      IEQ("num", CVodeGetNumJacEvals(m, &k), 0); IEQ("num-jac", k, nj);
      for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in(i, j)) NEAR("entry", entry_(A, i, j), (i == j) - m->cv_gamma * J_[i][j]);
    }
    TRUE_("solver-set-up", nset == 1 && Aset == A); IEQ("code-of-the-solver", r, rset);
    if (r) return;
  }
}
/* solve: tolerance, scaling, codes */
static int jts_ret, njts; static int jts(realtype t, N_Vector y, N_Vector f, void *u) { njts++; TRUE_("jtsetup-arguments", t == em->cv_tn && y == ey && f == ef && u == &udata); return jts_ret; }
static int ujt_n, ujt_ret; static N_Vector ujv, ujz; static double ujr[MX];
static int ujt(N_Vector v, N_Vector Jv, realtype t, N_Vector y, N_Vector f, void *u, N_Vector tmp) { ujt_n++; TRUE_("jtimes-arguments", v == ujv && Jv == ujz && t == em->cv_tn && y == ey && f == ef && u == &udata && tmp && tmp != v && tmp != Jv); for (int i = 0; i < n; i++) P(Jv)[i] = ujr[i] = vp_real(-9, 9); return ujt_ret; }
static void solve(int lmm, int N, int ty, int scal, int opts)
{
  static const int codes[] = {0, SUNLS_RES_REDUCED, SUNLS_CONV_FAIL, SUNLS_ATIMES_FAIL_REC, SUNLS_PSOLVE_FAIL_REC, SUNLS_PACKAGE_FAIL_REC, SUNLS_QRFACT_FAIL, SUNLS_LUFACT_FAIL, SUNLS_MEM_NULL, SUNLS_ILL_INPUT, SUNLS_MEM_FAIL, SUNLS_GS_FAIL, SUNLS_QRSOL_FAIL, SUNLS_PACKAGE_FAIL_UNREC, SUNLS_ATIMES_FAIL_UNREC, SUNLS_PSOLVE_FAIL_UNREC};
  CVodeMem m = mk(lmm, N, -1, 0, ty, scal); N_Vector b = clone(m), w = clone(m); double b0[MX], eps = 0.05, nf = 0, sc = 1; long nl = 0, ncf = 0, k; int j0, it = ty != SUNLINEARSOLVER_DIRECT, mb = ty != SUNLINEARSOLVER_ITERATIVE, on = 1;
  em = m; ey = clone(m); ef = clone(m); njts = jts_ret = 0; ret_[1] = vp_real(0.1, 9);
  if (it) { if (n == 1) nf = 1; else if (n == 4) nf = 2; }
  if (opts & 1) { eps = vp_real(0, 1); int r = CVodeSetEpsLin(m, eps); IEQ("eps", r, 0); if (eps == 0) eps = 0.05; }
  if (opts & 2) { nf = vp_real(0.1, 5); IEQ("factor", CVodeSetLSNormFactor(m, nf), 0); }
  if (opts & 4) { on = vp_int(0, 1); IEQ("scaling", CVodeSetLinearSolutionScaling(m, on), mb && lmm == CV_BDF ? 0 : CVLS_ILL_INPUT); }
  if ((opts & 8) && !mb) IEQ("jtimes", CVodeSetJacTimes(m, jts, ujt), 0);
  lin(m);
  for (int s = 0; s < 2; s++) {
    int c = s && !(opts & 15) ? codes[vp_int(0, 15)] : 0, r, small = 0; double g = vp_real(0.5, 2), dr = eps * m->cv_tq[4]; cur_ = s ? vp_int(0, 1) : 0; m->cv_gamrat = g; rsol = c; nit = 3 + 2 * s; nsol = nn = 0; zg = 0; j0 = njts; sc1 = sc2 = NULL;
    if (opts & 8) jts_ret = s ? vp_int(-1, 1) : 0;
    for (int i = 0; i < n; i++) P(b)[i] = b0[i] = vp_real(-9, 9), xs[i] = vp_real(-9, 9), P(w)[i] = vp_real(0.1, 9);
    ret_[0] = vp_real(0, 9); if (it) { small = s ? vp_int(0, 1) : 0; vp_assume(small ? ret_[0] < dr * (1 - 1e-9) : ret_[0] > dr * (1 + 1e-9)); }
    r = m->cv_lsolve(m, b, w, ey, ef);
    if (it) { TRUE_("norm-of-b", xx[0] == b && ww[0] == w); }
    if (small) { IEQ("not-solved", nsol, 0); IEQ("small-ok", r, 0); for (int i = 0; i < n; i++) SAME("small-solution", P(b)[i], cur_ ? 0 : b0[i]); continue; }
    if ((opts & 8) && !mb) { IEQ("jtsetup-called", njts, j0 + 1); if (jts_ret) { IEQ("jtsetup-code", r, jts_ret); IEQ("not-solved", nsol, 0); return; } }
    IEQ("solved-once", nsol, 1); IEQ("told-zero-guess", zg, 1); TRUE_("its-matrix", Asol == ((CVLsMem) m->cv_lmem)->A);
    if (scal) TRUE_("scaled-with-the-weights", sc1 == w && sc2 == w);
    if (it) { double tl = dr * nf; if (!scal) { TRUE_("mean-weight", xx[1] == w); tl /= ret_[1]; } NEAR("tolerance", tol_ / tl, 1); } else SAME("no-tolerance", tol_, 0.0);
    sc = mb && lmm == CV_BDF && on ? 2 / (1 + g) : 1;
    for (int i = 0; i < n; i++) { SAME("right-hand-side", bs[i], b0[i]); NEAR("solution", P(b)[i], sc * xs[i]); }
    if (it) nl += nit;
    if (c) ncf++;
    IEQ("num", CVodeGetNumLinIters(m, &k), 0); IEQ("num-iters", k, nl); IEQ("num", CVodeGetNumLinConvFails(m, &k), 0); IEQ("num-fails", k, ncf); IEQ("num", CVodeGetLastLinFlag(m, &k), 0); IEQ("flag", k, c);
    if (c == 0) IEQ("code", r, 0); else if (c == SUNLS_RES_REDUCED) IEQ("code-reduced", r, cur_ ? 1 : 0); else IEQ("code-fail", r, c > 0 ? 1 : -1);
  }
}
/* products with the matrix */
static int other(realtype t, N_Vector y, N_Vector yd, void *u) { int r = rhs(t, y, yd, u); for (int i = 0; i < n; i++) P(yd)[i] *= 2; return r; }
static void atimes(int N, int mode)   /* 0: difference quotient, 1: of another function, 2: by the user */
{
  CVodeMem m = mk(CV_BDF, N, -1, 0, SUNLINEARSOLVER_ITERATIVE, 1); N_Vector v = clone(m), z = clone(m), b = clone(m); double v0[MX]; long k; int r, fl = vp_int(0, 3);
  em = m; ey = clone(m); ef = clone(m); ujv = v; ujz = z; ujt_n = ujt_ret = jts_ret = 0;
  for (int i = 0; i < n; i++) { c0[i] = vp_real(-9, 9); for (int j = 0; j < n; j++) a[i][j] = vp_real(-9, 9); P(ey)[i] = vp_real(-9, 9); P(v)[i] = v0[i] = vp_real(-9, 9); }
  if (mode == 1) IEQ("other", CVodeSetJacTimesRhsFn(m, other), 0);
  if (mode == 2) { IEQ("jtimes", CVodeSetJacTimes(m, vp_int(0, 1) ? jts : NULL, ujt), 0); IEQ("no-dq", CVodeSetJacTimesRhsFn(m, other), CVLS_ILL_INPUT); }
  (mode == 1 ? other : rhs)(t0, ey, ef, NULL); lin(m);
  ret_[0] = 9; ret_[1] = 1; m->cv_tq[4] = 0.1; IEQ("solve", m->cv_lsolve(m, b, m->cv_ewt, ey, ef), 0);
  TRUE_("attached", atf != NULL && atd == m); if (!atf) return;
  nn = ncall = 0; ret_[0] = 4; failn = fl == 1; failc = 1; if (fl == 2) failn = 1, failc = -1;
  if (mode == 2) ujt_ret = fl == 3 ? 1 : fl == 2 ? -1 : 0;
  r = atf(atd, v, z);
  IEQ("num", CVodeGetNumJtimesEvals(m, &k), 0); IEQ("num-products", k, 1); IEQ("num", CVodeGetNumLinRhsEvals(m, &k), 0); IEQ("num-f", k, mode == 2 ? 0 : ncall);
  for (int i = 0; i < n; i++) SAME("v-kept", P(v)[i], v0[i]);
  if (mode == 2) { IEQ("user-called", ujt_n, 1); IEQ("code", r, ujt_ret); if (!r) for (int i = 0; i < n; i++) NEAR("product", P(z)[i], v0[i] - m->cv_gamma * ujr[i]); return; }
  TRUE_("norm-of-v", xx[0] == v && ww[0] == m->cv_ewt);
  if (fl == 2) { TRUE_("code", r < 0); return; }
  IEQ("code", r, 0); IEQ("f-calls", ncall, fl == 1 ? 2 : 1);
  for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += a[i][j] * v0[j]; NEART("product", P(z)[i], v0[i] - m->cv_gamma * s * (mode == 1 ? 2 : 1), 1e-7); }
}
/* preconditioner */
static int nps, nslv, ps_jok, ps_jc, ps_ret, lr_; static double ptol; static N_Vector pr, pz;
static int pset(realtype t, N_Vector y, N_Vector f, booleantype jok, booleantype *jc, realtype g, void *u) { nps++; TRUE_("psetup-arguments", t == em->cv_tn && y == ey && f == ef && g == em->cv_gamma && u == &udata); ps_jok = jok; *jc = ps_jc; return ps_ret; }
static int psolve(realtype t, N_Vector y, N_Vector f, N_Vector r, N_Vector z, realtype g, realtype d, int lr, void *u) { nslv++; TRUE_("psolve-arguments", t == em->cv_tn && y == ey && f == ef && g == em->cv_gamma && u == &udata && r == pr && z == pz && d == ptol && lr == lr_); return ps_ret; }
static void prec(int late, int withset)
{
  CVodeMem m = mk(CV_BDF, 1, -1, 0, SUNLINEARSOLVER_ITERATIVE, 1); N_Vector v1 = clone(m), b = clone(m); long k, np = 0, lastn = 0; em = m; ey = clone(m); ef = clone(m); uses = 1; nps = nslv = ps_ret = 0; int st = 0;
  if (late) { lin(m); TRUE_("no-setup-needed", m->cv_lsetup == NULL); ninit = 0; }
  IEQ("set", CVodeSetPreconditioner(m, withset ? pset : NULL, psolve), 0); lin(m);
  if (!withset) { TRUE_("no-setup", psf == NULL); TRUE_("no-setup-needed", m->cv_lsetup == NULL); } else {
    TRUE_("setup-needed", m->cv_lsetup != NULL); if (!m->cv_lsetup) return;
    for (int s = 0; s < 2; s++) {
      int cf = s ? vp_int(0, 2) : 2 * late; booleantype jc; cf = cf == 0 ? CV_NO_FAILURES : cf == 1 ? CV_FAIL_BAD_J : CV_FAIL_OTHER; ps_jc = vp_int(0, 1); ps_ret = s ? vp_int(-1, 1) : 0;
      if (s) { st += vp_int(0, 1) ? 1 : 51; m->cv_nst = st; m->cv_gammap = m->cv_gamma; m->cv_gamma *= vp_real(0.5, 2); }
      double dg = SUNRabs(m->cv_gamma / m->cv_gammap - 1); vp_assume(SUNRabs(dg - 0.2) > 1e-6);
      int need = st == 0 || st >= lastn + 51 || (cf == CV_FAIL_BAD_J && dg < 0.2) || cf == CV_FAIL_OTHER;
      int r = m->cv_lsetup(m, cf, ey, ef, &m->cv_jcur, v1, v1, v1);
      IEQ("called-once", nps, s + 1); IEQ("suggestion", ps_jok, !need); IEQ("code", r, ps_ret); if (ps_jc) lastn = st, np++;
      IEQ("num", CVodeGetNumPrecEvals(m, &k), 0); IEQ("num-setups", k, np); if (!r) IEQ("fresh", m->cv_jcur, ps_jc || need);
    }
  }
  ret_[0] = 9; ret_[1] = 1; nn = 0; m->cv_tq[4] = 0.1; IEQ("solve", m->cv_lsolve(m, b, m->cv_ewt, ey, ef), 0);
  pr = clone(m); pz = clone(m); ptol = vp_real(0, 1); lr_ = 1 + late; ps_ret = withset ? 1 : vp_int(-1, 1); TRUE_("attached", pso != NULL && pd == m); if (!pso) return;
  IEQ("code", pso(pd, pr, pz, ptol, lr_), ps_ret); IEQ("called-once", nslv, 1); IEQ("num", CVodeGetNumPrecSolves(m, &k), 0); IEQ("num-solves", k, 1);
}
/* what is refused */
static void refuse(void)
{
  CVodeMem m = mk(CV_ADAMS, 2, -1, 0, SUNLINEARSOLVER_DIRECT, 0), e; SUNContext c = m->cv_sunctx; long k; SUNLinearSolver it = mkls(SUNLINEARSOLVER_ITERATIVE, 1, c);
  IEQ("null-mem", CVodeSetLinearSolver(NULL, it, NULL), CVLS_MEM_NULL); IEQ("null-solver", CVodeSetLinearSolver(m, NULL, NULL), CVLS_ILL_INPUT);
  typ = SUNLINEARSOLVER_DIRECT; IEQ("direct-without-matrix", CVodeSetLinearSolver(m, it, NULL), CVLS_ILL_INPUT);
  typ = SUNLINEARSOLVER_MATRIX_ITERATIVE; IEQ("matrix-iterative-without-matrix", CVodeSetLinearSolver(m, it, NULL), CVLS_ILL_INPUT);
  typ = SUNLINEARSOLVER_MATRIX_EMBEDDED; IEQ("embedded-with-matrix", CVodeSetLinearSolver(m, it, ((CVLsMem) m->cv_lmem)->A), CVLS_ILL_INPUT);
  typ = SUNLINEARSOLVER_ITERATIVE; it->ops->setatimes = NULL; IEQ("iterative-without-products", CVodeSetLinearSolver(m, it, NULL), CVLS_ILL_INPUT);
  it->ops->solve = NULL; IEQ("no-solve", CVodeSetLinearSolver(m, it, NULL), CVLS_ILL_INPUT);
  typ = SUNLINEARSOLVER_DIRECT;
  IEQ("scaling-adams", CVodeSetLinearSolutionScaling(m, 1), CVLS_ILL_INPUT); IEQ("eps", CVodeSetEpsLin(m, -vp_real(0.001, 1)), CVLS_ILL_INPUT); IEQ("freq", CVodeSetJacEvalFrequency(m, -1), CVLS_ILL_INPUT);
  IEQ("precond", CVodeSetPreconditioner(m, pset, psolve), CVLS_ILL_INPUT); IEQ("jtimes", CVodeSetJacTimes(m, NULL, ujt), CVLS_ILL_INPUT);
  e = CVodeCreate(CV_BDF, c); CVodeSetErrHandlerFn(e, eh, NULL);
  IEQ("no-solver-jac", CVodeSetJacFn(e, jac), CVLS_LMEM_NULL); IEQ("no-solver-num", CVodeGetNumJacEvals(e, &k), CVLS_LMEM_NULL); IEQ("no-mem", CVodeSetJacFn(NULL, jac), CVLS_MEM_NULL);
  m = mk(CV_BDF, 1, -1, 0, SUNLINEARSOLVER_ITERATIVE, 0); IEQ("jac-without-matrix", CVodeSetJacFn(m, jac), CVLS_ILL_INPUT); IEQ("linsys-without-matrix", CVodeSetLinSysFn(m, lsys), CVLS_ILL_INPUT); IEQ("scaling-iterative", CVodeSetLinearSolutionScaling(m, 1), CVLS_ILL_INPUT);
}
'''
PRE = T.split('@@')[0]   # shared with c48
T = T.replace('@@', '')
for nn_ in (1, 2, 3):
    for z in (0, 1): T += fn('h_dense%d_%d' % (nn_, z), '  dqjac(%d, -1, 0, 0, 0, %d);' % (nn_, z))
for nn_, l, u in ((1, 0, 0), (2, 0, 0), (2, 1, 0), (3, 0, 1), (3, 1, 1), (3, 0, 0), (4, 1, 0), (4, 0, 1), (5, 1, 1), (4, 2, 1)): T += fn('h_band%d_%d%d' % (nn_, l, u), '  dqjac(%d, %d, %d, 0, 0, 0);' % (nn_, l, u))
T += fn('h_dense_con', '  dqjac(2, -1, 0, 1, 0, 0);') + fn('h_band_con', '  dqjac(3, 0, 1, 1, 0, 0);')
T += fn('h_dense_fail', '  dqjac(2, -1, 0, 0, 1, 0);') + fn('h_band_fail', '  dqjac(3, 0, 1, 0, 1, 0);')
for nn_, l, u in ((1, -1, 0), (2, -1, 0), (2, 1, 0), (3, 0, 1)):
    T += fn('h_setup%d_%d%d' % (nn_, l + 1, u), '  setup(%d, %d, %d, 0, 3);' % (nn_, l, u))
for e in (3, 51): T += fn('h_setup_own%d' % e, '  setup(1, -1, 0, 1, %d);' % e)
T += fn('h_setup51', '  setup(1, -1, 0, 0, 51);')
for lmm in ('BDF', 'ADAMS'):
    for ty in ('DIRECT', 'ITERATIVE', 'MATRIX_ITERATIVE'):
        for sc in (0, 1):
            if ty == 'DIRECT' and sc: continue
            for o in (0, 1, 2, 4, 8):
                if ty == 'DIRECT' and o in (1, 2) or o == 8 and ty != 'ITERATIVE' or lmm == 'ADAMS' and o in (1, 2, 8): continue
                T += fn('h_solve_%s_%s%d%d' % (lmm.lower(), ty.lower(), sc, o), '  solve(CV_%s, %d, SUNLINEARSOLVER_%s, %d, %d);' % (lmm, 4 if ty == 'ITERATIVE' and o < 8 else 1, ty, sc, o))
for N in (1, 2):
    for mo in (0, 1, 2): T += fn('h_atimes%d_%d' % (N, mo), '  atimes(%d, %d);' % (N, mo))
for late in (0, 1):
    for ws in (0, 1): T += fn('h_prec%d%d' % (late, ws), '  prec(%d, %d);' % (late, ws))
T += fn('h_refuse', '  refuse();')


def generate(tier):
    return {'c47.c': T}
