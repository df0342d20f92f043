from cutil import *
import c47
# What CVODES brings of its own for the Newton systems: the band preconditioner, the band-block-diagonal one, the diagonal solver
T = c47.PRE + '''
#include <cvodes/cvodes_bandpre.h>
#include <cvodes/cvodes_bbdpre.h>
#include <cvodes/cvodes_diag.h>
/* y, f, a and the weights; a well conditioned band */
static void data(CVodeMem m, N_Vector y, int l, int u, int constr)
{
  ml = l; mu = u;
  for (int i = 0; i < n; i++) {
    c0[i] = 1 + i; P(m->cv_ewt)[i] = ew[i] = i ? 4 : 2; yy0[i] = P(y)[i] = i == 0 || n < 2 ? vp_real(-9, 9) : (i % 2 ? 3 : -0.5);
    for (int j = 0; j < n; j++) a[i][j] = !in(i, j) ? 0 : i == j ? (n < 3 || i == 1 ? vp_real(-9, -4) : -5 - i) : n < 3 || (i == 1 && j == 0) ? vp_real(-1, 1) : 0.25 * (i + 2 * j - 3);
  }
  if (constr) { N_Vector cv = clone(m); int k = vp_int(-2, 2); for (int i = 0; i < n; i++) P(cv)[i] = con[i] = i == 0 ? k : 0; m->cv_constraints = cv; m->cv_constraintsSet = cons = 1; }
}
static void solved(CVodeMem m, N_Vector r, N_Vector z, double g, int l, int u)   /* (I - g J) z = r for the part of J that is kept */
{
  double r0[MX]; for (int i = 0; i < n; i++) P(r)[i] = r0[i] = i == 0 ? vp_real(-9, 9) : 2 - i;
  IEQ("solve-ok", pso(pd, r, z, 0.1, 1), 0);
  for (int i = 0; i < n; i++) { double s = P(z)[i]; SAME("r-kept", P(r)[i], r0[i]); for (int j = 0; j < n; j++) if (i - j <= l && j - i <= u) s -= g * a[i][j] * P(z)[j]; NEART("solution", s, r0[i], 1e-5); }
}
static int clamp(int w) { return w < 0 ? 0 : w > n - 1 ? n - 1 : w; }
static void band(int N, int u, int l, int constr, int fail)
{
  CVodeMem m = mk(CV_BDF, N, -1, 0, SUNLINEARSOLVER_ITERATIVE, 1); N_Vector y = clone(m), f = clone(m), v = clone(m), r = clone(m), z = clone(m); booleantype jc; long k;
  data(m, y, clamp(l), clamp(u), constr); uses = 1;
  if (fail == 3) IEQ("earlier", CVBandPrecInit(m, n, 0, 0), 0);
  IEQ("init", CVBandPrecInit(m, n, u, l), 0); IEQ("num", CVBandPrecGetNumRhsEvals(m, &k), 0); IEQ("num-before", k, 0);
  rhs(t0, y, f, NULL); for (int i = 0; i < n; i++) f0[i] = P(f)[i];
  m->cv_h = hh = 0.25; ret_[0] = fnorm_ = N % 2 ? 8 : 0; ncall = nn = 0; dq = 1; if (fail == 1) failn = vp_int(1, 2), failc = vp_int(0, 1) ? 1 : -1;
  lin(m); int q = m->cv_lsetup(m, CV_NO_FAILURES, y, f, &jc, v, v, v); dq = 0;
  IEQ("num", CVBandPrecGetNumRhsEvals(m, &k), 0); IEQ("num-f", k, ncall);
  if (fail == 1 && ncall >= failn) { TRUE_("failure-kind", failc > 0 ? q > 0 : q < 0); return; }
  TRUE_("norm-of-f", xx[0] == f && ww[0] == m->cv_ewt);
  IEQ("setup-ok", q, 0); IEQ("f-calls", ncall, ml + mu + 1 < n ? ml + mu + 1 : n); IEQ("fresh", m->cv_jcur, 1);
  for (int i = 0; i < n; i++) { SAME("y-kept", P(y)[i], yy0[i]); SAME("f-kept", P(f)[i], f0[i]); }
  solved(m, r, z, m->cv_gamma, ml, mu);
  /* another gamma, the saved Jacobian */
  m->cv_nst = 1; m->cv_gammap = m->cv_gamma; m->cv_gamma = vp_real(0.01, 3); for (int i = 0; i < n; i++) P(y)[i] += 1;
  IEQ("again-ok", m->cv_lsetup(m, CV_NO_FAILURES, y, f, &jc, v, v, v), 0); IEQ("no-f-calls", ncall, ml + mu + 1 < n ? ml + mu + 1 : n); IEQ("reports-old", m->cv_jcur, 0);
  solved(m, r, z, m->cv_gamma, ml, mu);
}
static void singular(int bbd);
/* band-block-diagonal: a local function of the user's */
static int ng, ncf, cfailn, cret; static N_Vector gy0; static long gl; static int *gu;
static int cfn(sunindextype N, realtype t, N_Vector y, void *u) { ncf++; TRUE_("communication-arguments", N == n && t == t0 && y == gy0 && u == &udata); IEQ("communication-first", ng, 0); return cret; }
static int gloc(sunindextype N, realtype t, N_Vector y, N_Vector g, void *u)
{
  TRUE_("local-arguments", N == n && u == &udata); ng++; 
  if (ng == 1) { SAME("g-time", t, t0); for (int i = 0; i < n; i++) SAME("base-point", P(y)[i], yy0[i]); dq = 0; }
  int r = rhs(t, y, g, u); dq = 1; return r;
}
static void bbd(int N, int dl, int du, int kl, int ku, double rel, int constr, int fail)
{
  CVodeMem m = mk(CV_BDF, N, -1, 0, SUNLINEARSOLVER_ITERATIVE, 1); N_Vector y = clone(m), f = clone(m), v = clone(m), r = clone(m), z = clone(m); booleantype jc; long k; int re = fail == 2, c = vp_int(0, 1), tot;
  data(m, y, clamp(dl), clamp(du), constr); uses = 1; ng = ncf = cret = 0; gy0 = y;
  IEQ("init", CVBBDPrecInit(m, n, re ? 0 : du, re ? 0 : dl, ku, kl, re ? 0.5 : rel, gloc, c ? cfn : NULL), 0); kl = clamp(kl); ku = clamp(ku);
  if (re) IEQ("reinit", CVBBDPrecReInit(m, du, dl, rel), 0);
  if (rel > 0) rely = rel;
  m->cv_h = hh = 0.25; ret_[0] = fnorm_ = N % 2 ? 8 : 0; ncall = nn = 0; if (fail == 1) failn = vp_int(0, 2), failc = vp_int(0, 1) ? 1 : -1, cret = c && !failn ? failc : 0;
  lin(m); tot = 1 + (ml + mu + 1 < n ? ml + mu + 1 : n); dq = 1; int q = m->cv_lsetup(m, CV_NO_FAILURES, y, f, &jc, v, v, v); dq = 0;
  IEQ("num", CVBBDPrecGetNumGfnEvals(m, &k), 0); IEQ("num-g", k, ng); IEQ("communications", ncf, c);
  if (fail == 1 && (cret || (failn && ncall >= failn))) { TRUE_("failure-kind", failc > 0 ? q > 0 : q < 0); return; }
  TRUE_("norm-of-g", ww[0] == m->cv_ewt && xx[0] != f && xx[0] != y);
  IEQ("setup-ok", q, 0); IEQ("g-calls", ng, tot); IEQ("fresh", m->cv_jcur, 1);
  for (int i = 0; i < n; i++) SAME("y-kept", P(y)[i], yy0[i]);
  solved(m, r, z, m->cv_gamma, kl, ku);
  m->cv_nst = 1; m->cv_gammap = m->cv_gamma; m->cv_gamma = vp_real(0.01, 3); for (int i = 0; i < n; i++) P(y)[i] += 1;
  IEQ("again-ok", m->cv_lsetup(m, CV_NO_FAILURES, y, f, &jc, v, v, v), 0); IEQ("no-g-calls", ng, tot); IEQ("reports-old", m->cv_jcur, 0);
  solved(m, r, z, m->cv_gamma, kl, ku);
  if (re) { IEQ("reinit", CVBBDPrecReInit(m, du, dl, rel), 0); IEQ("num", CVBBDPrecGetNumGfnEvals(m, &k), 0); IEQ("num-reset", k, 0); }
}
static void singular(int b)
{
  CVodeMem m = mk(CV_BDF, 1, -1, 0, SUNLINEARSOLVER_ITERATIVE, 1); N_Vector y = clone(m), f = clone(m), v = clone(m); booleantype jc;
  uses = 1; a[0][0] = 1; c0[0] = 0; P(y)[0] = 0; m->cv_gamma = m->cv_gammap = 1; ret_[0] = 0; ng = ncf = cret = 0; gy0 = y; yy0[0] = 0; P(f)[0] = 0; rely = 0; fnorm_ = 0;
  if (b) IEQ("init", CVBBDPrecInit(m, 1, 0, 0, 0, 0, 0, gloc, NULL), 0); else IEQ("init", CVBandPrecInit(m, 1, 0, 0), 0);
  lin(m); TRUE_("recoverable", m->cv_lsetup(m, CV_NO_FAILURES, y, f, &jc, v, v, v) > 0);
}
/* the diagonal solver */
static int nd, dret; static double fa[MX], fn_[MX], dy_[MX], *yb;
static int drhs(realtype t, N_Vector y, N_Vector yd, void *u)
{
  nd++; SAME("f-time", t, t0); TRUE_("f-user", u == &udata);
  for (int i = 0; i < n; i++) { NEAR("perturbed-point", P(y)[i], yb[i] + dy_[i]); P(yd)[i] = fn_[i]; }
  return dret;
}
static void diag(int N, int mode)   /* 1: increments of any size, 2: twice */
{
  CVodeMem m = mk(CV_BDF, N, -1, 0, SUNLINEARSOLVER_DIRECT, 0); N_Vector y = clone(m), f = clone(m), b = clone(m), v1 = clone(m), v2 = clone(m), v3 = clone(m); booleantype jc = 7; long k; double J[MX], b0[MX], rl = vp_real(0.1, 1); int r, i, prot[MX], dead = 0;
  IEQ("diag", CVDiag(m), 0); if (mode == 2) IEQ("diag", CVDiag(m), 0); m->cv_f = drhs; IEQ("init", m->cv_linit(m), 0); nd = 0;
  m->cv_h = vp_int(0, 1) ? vp_real(0.1, 2) : -vp_real(0.1, 2); m->cv_rl1 = rl; m->cv_gamma = m->cv_h * rl; dret = mode == 1 ? 0 : vp_int(-1, 1);
  N_Vector z1 = m->cv_zn[1] = clone(m); yb = P(y);
  for (i = 0; i < n; i++) {
    double d = mode == 1 ? vp_real(-1, 1) : vp_int(0, 1) ? vp_real(0.01, 9) : -vp_real(0.01, 9);   /* h f - zn[1] */
    prot[i] = 0; if (mode == 1) { prot[i] = vp_int(0, 1); vp_assume(prot[i] ? absd(d * ew[i]) < 0.5 * UNIT_ROUNDOFF : absd(d) > 0.001); }
    P(y)[i] = vp_real(-9, 9); P(f)[i] = vp_real(-9, 9); P(z1)[i] = mode == 1 && prot[i] ? m->cv_h * P(f)[i] - d : vp_real(-9, 9); if (!prot[i]) P(z1)[i] = m->cv_h * P(f)[i] - d;
    dy_[i] = 0.1 * rl * d; J[i] = prot[i] ? 0 : vp_real(-9, 9); fn_[i] = P(f)[i] + J[i] * dy_[i];
    double M = 1 - m->cv_gamma * J[i]; vp_assume(absd(M) > 0.01);
  }
  r = m->cv_lsetup(m, vp_int(0, 2), y, f, &jc, v1, v2, v3);
  IEQ("one-f-call", nd, 1); IEQ("num", CVDiagGetNumRhsEvals(m, &k), 0); IEQ("num-f", k, 1); IEQ("num", CVDiagGetLastFlag(m, &k), 0);
  if (dret) { TRUE_("failure-kind", r * dret > 0); IEQ("flag", k, dret > 0 ? CVDIAG_RHSFUNC_RECVR : CVDIAG_RHSFUNC_UNRECVR); return; }
  IEQ("flag", k, 0); IEQ("setup-ok", r, 0); IEQ("fresh", jc, 1);
  for (int s = 0; s < (mode == 1 ? 1 : 3); s++) {
    if (s == 1) { m->cv_gamma *= vp_real(0.5, 2); for (i = 0; i < n; i++) vp_assume(absd(1 - m->cv_gamma * J[i]) > 0.01); }
    for (i = 0; i < n; i++) P(b)[i] = b0[i] = vp_real(-9, 9);
    IEQ("solve-ok", m->cv_lsolve(m, b, m->cv_ewt, y, f), 0); IEQ("one-f-call", nd, 1);
    for (i = 0; i < n; i++) NEART("solution", P(b)[i] * (1 - m->cv_gamma * J[i]), b0[i], 1e-5);
  }
}
static void dsing(int late)   /* 1 - gamma J = 0 in a component */
{
  CVodeMem m = mk(CV_BDF, 2, -1, 0, SUNLINEARSOLVER_DIRECT, 0); N_Vector y = clone(m), f = clone(m), b = clone(m), v1 = clone(m), v2 = clone(m), v3 = clone(m); booleantype jc = 7; long k; int w = vp_int(0, 1);
  IEQ("diag", CVDiag(m), 0); m->cv_f = drhs; IEQ("init", m->cv_linit(m), 0); m->cv_h = 1; m->cv_rl1 = 1; m->cv_gamma = 1; N_Vector z1 = m->cv_zn[1] = clone(m); yb = P(y); dret = 0;
  for (int i = 0; i < 2; i++) { P(y)[i] = 1; P(f)[i] = 0; P(z1)[i] = -10; dy_[i] = 0.1 * 10; fn_[i] = i == w ? (late ? 0.5 : 1) : -2; }
  int r = m->cv_lsetup(m, 0, y, f, &jc, v1, v2, v3); if (!late) { TRUE_("recoverable", r > 0); IEQ("num", CVDiagGetLastFlag(m, &k), 0); IEQ("flag", k, CVDIAG_INV_FAIL); return; }
  IEQ("setup-ok", r, 0); m->cv_gamma = 2; TRUE_("recoverable", m->cv_lsolve(m, b, m->cv_ewt, y, f) > 0); IEQ("num", CVDiagGetLastFlag(m, &k), 0); IEQ("flag", k, CVDIAG_INV_FAIL);
}
static void refuse(void)
{
  CVodeMem m = mk(CV_BDF, 2, -1, 0, SUNLINEARSOLVER_ITERATIVE, 1), e = CVodeCreate(CV_BDF, m->cv_sunctx); long k; CVodeSetErrHandlerFn(e, eh, NULL);
  IEQ("null", CVBandPrecInit(NULL, 2, 0, 0), CVLS_MEM_NULL); IEQ("null", CVBBDPrecInit(NULL, 2, 0, 0, 0, 0, 0, gloc, NULL), CVLS_MEM_NULL); IEQ("null", CVDiag(NULL), CVDIAG_MEM_NULL);
  IEQ("no-solver", CVBandPrecInit(e, 2, 0, 0), CVLS_LMEM_NULL); IEQ("no-solver", CVBBDPrecInit(e, 2, 0, 0, 0, 0, 0, gloc, NULL), CVLS_LMEM_NULL); IEQ("no-solver", CVDiagGetNumRhsEvals(e, &k), CVDIAG_LMEM_NULL);
  IEQ("none", CVBandPrecGetNumRhsEvals(m, &k), CVLS_PMEM_NULL); IEQ("none", CVBBDPrecGetNumGfnEvals(m, &k), CVLS_PMEM_NULL); IEQ("none", CVBBDPrecReInit(m, 0, 0, 0), CVLS_PMEM_NULL);
  m = mk(CV_BDF, 2, -1, 0, SUNLINEARSOLVER_DIRECT, 0); IEQ("not-iterative", CVBandPrecInit(m, 2, 0, 0), CVLS_ILL_INPUT);
}
'''
T = T.replace('static int nd, dret;', '', 1).replace('/* y, f, a and', 'static int nd, dret;\n/* y, f, a and', 1)
for N, u, l in ((1, 0, 0), (1, 5, 5), (2, 0, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1), (2, -1, 1), (3, 0, 1), (3, 1, 0), (3, 1, 1), (3, 9, 9), (3, 0, 0), (4, 1, 1), (4, 0, 1)):
    T += fn(('h_band%d_%d_%d' % (N, u, l)).replace('-', 'm'), '  band(%d, %d, %d, 0, 0);' % (N, u, l))
T += fn('h_band_con', '  band(2, 0, 0, 1, 0);') + fn('h_band_fail', '  band(2, 0, 1, 0, 1);') + fn('h_band_twice', '  band(2, 1, 0, 0, 3);')
for i, (N, dl, du, kl, ku) in enumerate(((1, 0, 0, 0, 0), (2, 0, 0, 0, 0), (2, 1, 1, 0, 0), (2, 1, 1, 1, 0), (2, 1, 0, 1, 0), (3, 1, 1, 0, 1), (3, 2, 2, 1, 1), (3, 1, 0, 0, 0), (3, 9, 9, 9, 9), (4, 1, 1, 1, 1), (4, 1, 1, 0, 0), (2, -1, 1, -1, 1))):
    T += fn('h_bbd%d' % i, '  bbd(%d, %d, %d, %d, %d, %s, 0, 0);' % (N, dl, du, kl, ku, '0' if i % 2 else '0.125'))
T += fn('h_bbd_con', '  bbd(2, 0, 0, 0, 0, 0.125, 1, 0);') + fn('h_bbd_fail', '  bbd(2, 1, 1, 0, 0, 0, 0, 1);') + fn('h_bbd_re', '  bbd(2, 1, 0, 0, 0, 0.125, 0, 2);') + fn('h_bbd_re0', '  bbd(2, 0, 0, 0, 0, 0, 0, 2);')
for N in (1, 2):
    for mo in (0, 1, 2): T += fn('h_diag%d_%d' % (N, mo), '  diag(%d, %d);' % (N, mo))
T += fn('h_sing', '  singular(vp_int(0, 1));') + fn('h_diag_sing', '  dsing(vp_int(0, 1));') + fn('h_refuse', '  refuse();')


def generate(tier):
    return {'c48.c': T}
