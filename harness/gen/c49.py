from cutil import *
# The Krylov solvers: what they return, report and call
T = INC + '''
#include <sunlinsol/sunlinsol_spgmr.h>
#include <sunlinsol/sunlinsol_spfgmr.h>
#include <sunlinsol/sunlinsol_spbcgs.h>
#include <sunlinsol/sunlinsol_sptfqmr.h>
#include <sunlinsol/sunlinsol_pcg.h>
#include <sundials/sundials_iterative.h>
#define P(v) N_VGetArrayPointer(v)
static void pl_sum(realtype a, N_Vector x, realtype b, N_Vector y, N_Vector z) { for (int i = 0; i < N_VGetLength(z); i++) P(z)[i] = a * P(x)[i] + b * P(y)[i]; }
static void pl_scale(realtype a, N_Vector x, N_Vector z) { for (int i = 0; i < N_VGetLength(z); i++) P(z)[i] = a * P(x)[i]; }
static N_Vector vec(int n, SUNContext c) { N_Vector v = N_VNew_Serial(n, c); v->ops->nvlinearsum = pl_sum; v->ops->nvscale = pl_scale; for (int i = 0; i < n; i++) P(v)[i] = 0; return v; }
enum { GMR, FGMR, BCG, TFQMR, CG };
static int n, kind, ncall, failcall = -1, failcode, nat, nps[3], flex, sc; static double dlt, W[10][4], Z[10][4], sv1[4], sv2[4]; static int nw;
static int ad, pd, sd_;
static double A[4][4] = {{3, 1, -0.5, 0.25}, {-1, 2, 0.75, 0}, {0.25, 0.5, 4, 0.75}, {0, 0.75, -0.25, 2.5}}, L[4][4] = {{0.5, 0.125, 0, 0.125}, {-0.25, 0.75, 0.25, 0}, {0, 0.5, 0.25, 0.125}, {0, 0.125, 0, 0.75}}, R[4][4] = {{0.75, 0, 0.125, 0}, {0.25, 0.5, 0, 0.125}, {-0.125, 0.25, 0.5, 0}, {0.125, 0, 0, 0.5}};
static void sym(void) { for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) A[i][j] = A[j][i], L[i][j] = L[j][i]; }
static void mul(double M[4][4], const double *v, double *z) { for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += M[i][j] * v[j]; z[i] = s; } }
static int at(void *d, N_Vector v, N_Vector z) { TRUE_("atimes-data", d == &ad); nat++; if (ncall++ == failcall) return failcode; mul(A, P(v), P(z)); if (nw < 10) for (int i = 0; i < n; i++) Z[nw][i] = P(v)[i]; nw++; return 0; }
static int ps(void *d, N_Vector r, N_Vector z, realtype tol, int lr)
{
  TRUE_("psolve-data", d == &pd); SAME("psolve-tol", tol, dlt); TRUE_("psolve-side", lr == SUN_PREC_LEFT || lr == SUN_PREC_RIGHT); TRUE_("psolve-apart", P(r) != P(z)); nps[lr]++; if (ncall++ == failcall) return failcode;
  if (lr == SUN_PREC_RIGHT && flex) { double w[4]; mul(R, P(r), w); for (int i = 0; i < n; i++) P(z)[i] = w[i] * (1 + nps[lr] * 0.5); } else mul(lr == SUN_PREC_LEFT ? L : R, P(r), P(z));
  return 0;
}
static SUNLinearSolver make(int k, N_Vector y, int pre, int maxl, SUNContext c) { kind = k; return k == GMR ? SUNLinSol_SPGMR(y, pre, maxl, c) : k == FGMR ? SUNLinSol_SPFGMR(y, pre, maxl, c) : k == BCG ? SUNLinSol_SPBCGS(y, pre, maxl, c) : k == TFQMR ? SUNLinSol_SPTFQMR(y, pre, maxl, c) : SUNLinSol_PCG(y, pre, maxl, c); }
static void resid(const double *b, const double *x, int left, double *r)
{
  double t[4]; mul(A, x, t); for (int i = 0; i < n; i++) t[i] = b[i] - t[i];
  if (left) mul(L, t, r); else for (int i = 0; i < n; i++) r[i] = t[i];
  if (sc) for (int i = 0; i < n; i++) r[i] *= sv1[i];
}
static double dot(const double *a, const double *b) { double s = 0; for (int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
static void run(int k, int N, int maxl, int pre, int scale, int guess, int restarts, int gs, int wide)
{
  SUNContext c = ctx_(); n = N; N_Vector b = vec(n, c), x = vec(n, c), s1 = vec(n, c), s2 = vec(n, c); double b0[4], x0[4], r0[4], r[4], r00[4];
  static const double BL[5][4] = {{1, -2, 1.5, 0.5}, {3, 0.25, -1, 2}, {-0.5, 0.125, 2.5, -1}, {-4, -3, 1, 0.25}, {0.75, 2, 0, 1}}, XC[4] = {0.5, 1, -0.75, 0.25}; const double *BC = BL[wide < 0 ? vp_int(0, 4) : 0]; sc = scale;
  for (int i = 0; i < n; i++) {
    b0[i] = P(b)[i] = i < wide ? vp_real(-9, 9) : BC[i] + (i == 0 && wide == 0 ? vp_real(-0.25, 0.25) : 0); x0[i] = P(x)[i] = guess ? XC[i] + (i == 1 && wide > 1 ? vp_real(-1, 1) : 0) : 7;
    sv1[i] = P(s1)[i] = 0.5 + 0.75 * i; sv2[i] = P(s2)[i] = 1.5 - 0.25 * i;
  }
  dlt = vp_real(0.001, 5);
  SUNLinearSolver S = make(k, b, pre, maxl, c); int rc = SUNLinSolSetATimes(S, &ad, at);
  int left = k != FGMR && k != CG && (pre == SUN_PREC_LEFT || pre == SUN_PREC_BOTH);
  if (pre) rc |= SUNLinSolSetPreconditioner(S, &pd, NULL, ps);
  if (scale) rc |= SUNLinSolSetScalingVectors(S, s1, s2);
  if (gs && k == GMR) rc |= SUNLinSol_SPGMRSetGSType(S, SUN_CLASSICAL_GS); if (gs && k == FGMR) rc |= SUNLinSol_SPFGMRSetGSType(S, SUN_CLASSICAL_GS);
  if (restarts && k == GMR) rc |= SUNLinSol_SPGMRSetMaxRestarts(S, restarts); if (restarts && k == FGMR) rc |= SUNLinSol_SPFGMRSetMaxRestarts(S, restarts);
  rc |= SUNLinSolInitialize(S) | SUNLinSolSetup(S, NULL) | SUNLinSolSetZeroGuess(S, !guess); IEQ("setup", rc, 0);
  { double z[4] = {0, 0, 0, 0}; resid(b0, guess ? x0 : z, left, r0); }
  rc = SUNLinSolSolve(S, NULL, x, b, dlt);
  double rep = SUNLinSolResNorm(S), n0 = dot(r0, r0); int it = SUNLinSolNumIters(S);
  for (int i = 0; i < n; i++) SAME("b-kept", P(b)[i], b0[i]);
  IEQ("last-flag", SUNLinSolLastFlag(S), rc); TRUE_("code", rc == SUNLS_SUCCESS || rc == SUNLS_RES_REDUCED || rc == SUNLS_CONV_FAIL); TRUE_("norm-sign", rep >= 0);
  if (it == 0) { double z[4]; for (int i = 0; i < n; i++) { z[i] = guess ? x0[i] : 0; } NEAR("initial-norm", rep * rep, n0); IEQ("no-iteration", rc, 0); TRUE_("initial-small", n0 <= dlt * dlt * (1 + 1e-9)); IEQ("no-products", nat, guess); for (int i = 0; i < n; i++) SAME("x-kept", P(x)[i], x0[i]); return; }
  TRUE_("initial-large", n0 >= dlt * dlt * (1 - 1e-9));
  resid(b0, P(x), left, r);
  if (rc != SUNLS_CONV_FAIL && k != TFQMR) NEART("reported-norm", rep * rep, dot(r, r), 1e-7);
  if (k == TFQMR) { if (rc == SUNLS_RES_REDUCED) NEART("reported-norm", rep * rep, dot(r, r), 1e-7); if (rc == SUNLS_SUCCESS) TRUE_("norm-bound", dot(r, r) <= 16 * rep * rep); }
  if (rc == SUNLS_SUCCESS) TRUE_("small", rep <= dlt); else { TRUE_("not-small", rep > dlt); IEQ("all-iterations", it, maxl * (1 + restarts)); }
  if (rc == SUNLS_RES_REDUCED) TRUE_("reduced", rep * rep <= n0 * (1 + 1e-9)); if (rc == SUNLS_CONV_FAIL) TRUE_("not-reduced", rep * rep >= n0 * (1 - 1e-9));
  if (maxl >= n && !flex) IEQ("solved-in-n-iterations", rc, SUNLS_SUCCESS);
  TRUE_("limit", it <= maxl * (1 + restarts));
  if (k == GMR || k == FGMR) IEQ("products", nat, it + guess); if (k == CG) IEQ("products", nat, it + guess); if (k == BCG) IEQ("products", nat, 2 * it + guess);
  if (k == CG) { IEQ("psolves", nps[SUN_PREC_LEFT], pre ? it : 0); }
  if ((k == GMR || k == FGMR) && it <= maxl && rc != SUNLS_CONV_FAIL) for (int j = guess; j < nw; j++) { double w[4], v[4]; mul(A, Z[j], w); if (left) { mul(L, w, v); } else for (int i = 0; i < n; i++) v[i] = w[i]; if (sc) for (int i = 0; i < n; i++) v[i] *= sv1[i]; NEART("smallest", dot(r, v), 0.0, 1e-7); }
  if (k == CG && rc != SUNLS_CONV_FAIL) { double q[4]; mul(A, P(x), q); for (int i = 0; i < n; i++) q[i] = b0[i] - q[i]; for (int j = guess; j < nw; j++) NEART("orthogonal", dot(q, Z[j]), 0.0, 1e-7); }
  if (k == BCG && it == 1 && rc != SUNLS_CONV_FAIL) { double w[4], v[4]; mul(A, Z[nw - 1], w); if (left) mul(L, w, v); else for (int i = 0; i < n; i++) v[i] = w[i]; if (sc) for (int i = 0; i < n; i++) v[i] *= sv1[i]; NEART("smallest", dot(r, v), 0.0, 1e-7); }
}
/* a zero guess holds for one solve */
static void again(int k, int pre)
{
  SUNContext c = ctx_(); n = 2; N_Vector b = vec(n, c), x = vec(n, c); dlt = 1e-3; SUNLinearSolver S = make(k, b, pre, 2, c); SUNLinSolSetATimes(S, &ad, at); if (pre) SUNLinSolSetPreconditioner(S, &pd, NULL, ps);
  IEQ("init", SUNLinSolInitialize(S), 0); SUNLinSolSetZeroGuess(S, 1); P(b)[0] = 1; P(b)[1] = 3; double x0 = P(x)[0] = vp_real(-9, 9); P(x)[1] = 4; failcode = vp_int(-1, 1); if (failcode) failcall = vp_int(0, 2);
  SUNLinSolSolve(S, NULL, x, b, dlt); failcall = -1; nw = nat = 0; dlt = 1e3; x0 = P(x)[0] = vp_real(-9, 9); P(x)[1] = 4;
  int rc = SUNLinSolSolve(S, NULL, x, b, dlt); if (pre > 1 && (k == BCG || k == TFQMR)) { IEQ("guess-not-supported", rc, SUNLS_ILL_INPUT); return; }
  TRUE_("guess-used", nw > 0); SAME("guess0", Z[0][0], x0); SAME("guess1", Z[0][1], 4);
}
/* the code of a failing call is passed on */
static void fails(int k, int pre, int guess)
{
  SUNContext c = ctx_(); n = 2; N_Vector b = vec(n, c), x = vec(n, c); P(b)[0] = 1; P(b)[1] = -2; P(x)[0] = 0.5; sc = 0; dlt = 1e-9; SUNLinearSolver S = make(k, b, pre, 2, c);
  SUNLinSolSetZeroGuess(S, 1); IEQ("no-atimes", SUNLinSolSolve(S, NULL, x, b, dlt), SUNLS_ATIMES_NULL); IEQ("flag", SUNLinSolLastFlag(S), SUNLS_ATIMES_NULL);
  IEQ("init-no-atimes", SUNLinSolInitialize(S), SUNLS_ATIMES_NULL);
  SUNLinSolSetATimes(S, &ad, at);
  if (pre) { IEQ("init-no-psolve", SUNLinSolInitialize(S), SUNLS_PSOLVE_NULL); SUNLinSolSetZeroGuess(S, 1); IEQ("no-psolve", SUNLinSolSolve(S, NULL, x, b, dlt), SUNLS_PSOLVE_NULL); SUNLinSolSetPreconditioner(S, &pd, NULL, ps); }
  IEQ("init", SUNLinSolInitialize(S), 0); SUNLinSolSetZeroGuess(S, !guess); ncall = nat = nps[1] = nps[2] = 0;
  failcall = vp_int(0, 9); int rec = vp_int(0, 1); failcode = rec ? 3 : -3;
  int rc = SUNLinSolSolve(S, NULL, x, b, dlt), a = nat, p = nps[1] + nps[2];
  if ((k == BCG || k == TFQMR) && guess && pre != SUN_PREC_NONE && pre != SUN_PREC_LEFT) { IEQ("unsupported", rc, SUNLS_ILL_INPUT); return; }
  if (ncall <= failcall) { TRUE_("normal", rc == 0 || rc == SUNLS_RES_REDUCED || rc == SUNLS_CONV_FAIL); return; }
  IEQ("stops", ncall, failcall + 1);
  IEQ("flag", SUNLinSolLastFlag(S), rc);
  if (lastat) IEQ("atimes-code", rc, rec ? SUNLS_ATIMES_FAIL_REC : SUNLS_ATIMES_FAIL_UNREC); else IEQ("psolve-code", rc, rec ? SUNLS_PSOLVE_FAIL_REC : SUNLS_PSOLVE_FAIL_UNREC);
}
static int psu, psur; static int pset(void *d) { TRUE_("psetup-data", d == &pd); psu++; return psur; }
static void setup(int k)
{
  SUNContext c = ctx_(); n = 2; N_Vector b = vec(n, c); SUNLinearSolver S = make(k, b, SUN_PREC_RIGHT, 2, c); SUNLinSolSetATimes(S, &ad, at); SUNLinSolSetPreconditioner(S, &pd, pset, ps); psur = vp_int(-1, 1);
  IEQ("init", SUNLinSolInitialize(S), 0); int rc = SUNLinSolSetup(S, NULL); IEQ("called", psu, 1); IEQ("code", rc, psur == 0 ? 0 : psur < 0 ? SUNLS_PSET_FAIL_UNREC : SUNLS_PSET_FAIL_REC); 
  SUNLinSolSetPreconditioner(S, &pd, NULL, ps); IEQ("without", SUNLinSolSetup(S, NULL), 0); IEQ("not-called", psu, 1); IEQ("type", SUNLinSolGetType(S), SUNLINEARSOLVER_ITERATIVE);
}
'''
T = T.replace('nat++; if (ncall++ == failcall)', 'nat++; lastat = 1; if (ncall++ == failcall)').replace('nps[lr]++; if (ncall++', 'nps[lr]++; lastat = 0; if (ncall++').replace('static int ad, pd, sd_;', 'static int ad, pd, lastat;')
K = dict(gmr='GMR', fgmr='FGMR', bcg='BCG', tfqmr='TFQMR', cg='CG')
PR = ('NONE', 'LEFT', 'RIGHT', 'BOTH')
for k, e in K.items():
    S = '  sym();\n' if k == 'cg' else ''
    T += fn('h_%s_setup' % k, '  setup(%s);' % e)
    for p, pn in enumerate(PR):
        T += fn('h_%s_codes_%s' % (k, pn.lower()), S + '  fails(%s, SUN_PREC_%s, %d);' % (e, pn, p % 2 if k in ('bcg', 'tfqmr') else 1))
    for p in PR[:3]:
        T += fn('h_%s_again_%s' % (k, p.lower()), S + '  again(%s, SUN_PREC_%s);' % (e, p))
    T += fn('h_%s_1' % k, S + '  run(%s, 2, 1, SUN_PREC_NONE, 0, 1, 0, 0, %d);' % (e, -1 if k == 'tfqmr' else 1))
    for p, pn in enumerate(PR):
        g = 0 if p > 1 and k in ('bcg', 'tfqmr') else 1
        T += fn('h_%s_1_%s' % (k, pn.lower()), S + '  run(%s, 2, 1, SUN_PREC_%s, 1, %d, 0, 0, %d);' % (e, pn, g, -1 if k == 'tfqmr' else 0))
        T += fn('h_%s_4_%s' % (k, pn.lower()), S + '  run(%s, 4, 4, SUN_PREC_%s, %d, %d, 0, 0, -1);' % (e, pn, p % 2, (p // 2) % 2 and g))
        for m in (2, 3):
            T += fn('h_%s_%d_%s' % (k, m, pn.lower()), S + '  run(%s, 3, %d, SUN_PREC_%s, %d, %d, 0, 0, -1);' % (e, m, pn, (p + m) % 2, (p // 2 + m) % 2 and g))
for k in ('gmr', 'fgmr'):
    e = K[k]
    for s, g in ((1, 1), (0, 0)):
        T += fn('h_%s_cgs%d' % (k, s), '  run(%s, 3, 2, SUN_PREC_RIGHT, %d, %d, 0, 1, -1);' % (e, s, g))
        for p in ('NONE', 'RIGHT'):
            T += fn('h_%s_restart%d_%s' % (k, s, p.lower()), '  run(%s, 3, 1, SUN_PREC_%s, %d, %d, 2, 0, -1);' % (e, p, s, g))
            T += fn('h_%s_restart_2_%d_%s' % (k, s, p.lower()), '  run(%s, 3, 2, SUN_PREC_%s, %d, %d, 1, 1, -1);' % (e, p, s, g))
T += fn('h_flexible', '  flex = 1; run(FGMR, 3, 2, SUN_PREC_RIGHT, 1, 1, 0, 0, -1);') + fn('h_flexible_restart', '  flex = 1; run(FGMR, 3, 2, SUN_PREC_RIGHT, 1, 1, 1, 0, -1);')


def generate(tier):
    return {'c49.c': T}
