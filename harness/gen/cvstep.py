from cutil import *
# Any state in the middle of an integration, one or two steps of the integrator from it, and what must hold afterwards.
# The integrator runs as it is; the norms that steer it and the right-hand sides return arbitrary values, the nonlinear
# system (which then is linear) is solved by one evaluation of the system function or reported as not solvable.
STEP = CVINC + '''
#include <sundials/sundials_nonlinearsolver.h>
#define NS 2
#define NA (2 + 2 * NS)
/* y, yQ, yS[0..1], yQS[0..1] */
static double fv[NA], ft, Tn[64], Yn[NA][64], Fn[NA][64]; static int on[NA], bad, nstep, first, vary, fresh, unsolved, kind, rf[5], ism, nbadt; static double tol_, lim, hm_, t0_; static int limd, hmd;

static int fails(int k) { if (!first && rf[k] > 0 && --rf[k] == 0) return 1; return 0; }
static double draw(int a) { fv[a] = first ? 0 : vp_real(-9, 9); return fv[a]; }
static int rhs(realtype t, N_Vector y, N_Vector yd, void *u) { if (limd) TRUE_("no-evaluation-past-tstop", limd * (t - lim) <= 1e-9); if (hmd) TRUE_("no-step-below-the-minimum", t == t0_ || hmd * (t - t0_) >= hm_); if (fails(0)) return 1; if (fresh) { draw(0); fresh = 0; } ft = t; P(yd)[0] = fv[0]; return 0; }
static int qrhs(realtype t, N_Vector y, N_Vector yd, void *u) { if (fails(1)) return 1; P(yd)[0] = draw(1); return 0; }
static int s1rhs(int Ns, realtype t, N_Vector y, N_Vector yd, int i, N_Vector yS, N_Vector ySd, void *u, N_Vector a, N_Vector b) { if (fails(2)) return 1; P(ySd)[0] = draw(2 + i); return 0; }
static int srhs(int Ns, realtype t, N_Vector y, N_Vector yd, N_Vector *yS, N_Vector *ySd, void *u, N_Vector a, N_Vector b) { if (fails(2)) return 1; for (int i = 0; i < NS; i++) P(ySd[i])[0] = draw(2 + i); return 0; }
static int qsrhs(int Ns, realtype t, N_Vector y, N_Vector *yS, N_Vector yQ, N_Vector *yQS, void *u, N_Vector a, N_Vector b) { if (fails(3)) return 1; for (int i = 0; i < NS; i++) P(yQS[i])[0] = draw(2 + NS + i); return 0; }
static CVodeMem nm_;
static int part(CVodeMem m, N_Vector x, int *k)   /* which array a vector of the integrator belongs to: 0 history, 1 correction, 2 work space, 3 weights */
{
  for (int j = 0; j <= m->cv_qmax; j++) for (int a = 0; a < NA; a++) if (on[a] && x == (a == 0 ? m->cv_zn[j] : a == 1 ? m->cv_znQ[j] : a < 2 + NS ? m->cv_znS[j][a - 2] : m->cv_znQS[j][a - 2 - NS])) { *k = j ? 4 + j : 0; return a; }
  for (int a = 0; a < NA; a++) if (on[a]) {
    int i = a < 2 + NS ? a - 2 : a - 2 - NS; *k = 1;
    if (x == (a == 0 ? m->cv_acor : a == 1 ? m->cv_acorQ : a < 2 + NS ? m->cv_acorS[i] : m->cv_acorQS[i])) return a;
    *k = 2;
    if (x == (a == 0 ? m->cv_tempv : a == 1 ? m->cv_tempvQ : a < 2 + NS ? m->cv_tempvS[i] : m->cv_tempvQS[i])) return a;
    *k = 3;
    if (x == (a == 0 ? m->cv_ewt : a == 1 ? m->cv_ewtQ : a < 2 + NS ? m->cv_ewtS[i] : m->cv_ewtQS[i])) return a;
  }
  return -1;
}
static double norm(N_Vector x, N_Vector w)
{
  if (first) return 0;
  if (nm_) { int k, a = part(nm_, x, &k), kw, b = part(nm_, w, &kw); if (a >= 0) { IEQ("weights-are-weights", kw, 3); IEQ("weights-of-the-same-part", b, a); } }
  if (nbadt > 0) { nbadt--; return 0; }
  if (bad > 0) { bad--; return 1e6; }
  if (vary <= 0) return 0;
  vary--;
  return vp_int(0, 1) ? vp_int(0, 1) ? 1e-5 : 0.05 : 0;
}
typedef struct { SUNNonlinSolSysFn f; int sens; } NL;
static SUNNonlinearSolver_Type nl_type(SUNNonlinearSolver s) { return kind ? SUNNONLINEARSOLVER_ROOTFIND : SUNNONLINEARSOLVER_FIXEDPOINT; }
static int nl_sys(SUNNonlinearSolver s, SUNNonlinSolSysFn f) { ((NL *) s->content)->f = f; return 0; }
static int nl_solve(SUNNonlinearSolver s, N_Vector y0, N_Vector y, N_Vector w, realtype tol, booleantype c, void *mem)
{
  NL *l = s->content; int r;
  if (!l->sens) fresh = 1;
  if (!first && unsolved > 0 && (l->sens || ism <= 1 || vp_int(0, 1))) { unsolved--; return SUN_NLS_CONV_RECVR; }
  if (!kind) return l->f(y, y, mem);
  N_Vector res = N_VClone(y);
  r = l->f(y, res, mem);
  if (!r) N_VScale(-1, res, y);
  N_VDestroy(res);
  return r;
}
static SUNNonlinearSolver nls(int sens, SUNContext c)
{
  SUNNonlinearSolver s = SUNNonlinSolNewEmpty(c); NL *l = malloc(sizeof(NL)); l->sens = sens; l->f = NULL;
  s->content = l; s->ops->gettype = nl_type; s->ops->setsysfn = nl_sys; s->ops->solve = nl_solve; return s;
}
static double *zp(CVodeMem m, int a, int j) { return a == 0 ? P(m->cv_zn[j]) : a == 1 ? P(m->cv_znQ[j]) : a < 2 + NS ? P(m->cv_znS[j][a - 2]) : P(m->cv_znQS[j][a - 2 - NS]); }
static double pol(CVodeMem m, int a, double t, int d)   /* the polynomial of the integrator, or its derivative */
{
  double x = (t - m->cv_tn) / m->cv_hscale, s = 0;
  for (int j = m->cv_q; j >= d; j--) s = s * x + (d ? j : 1) * *zp(m, a, j);
  return d ? s / m->cv_hscale : s;
}
static CVodeMem begin(int lmm, int q, int qwait, int dir, int fixed, int quad, int sens, int qs, int errcon)
{
  static const double old[] = {0.5, 0.75, 0.375, 1, 0.5, 0.625, 0.25, 0.5, 1.5, 1, 0.75, 0.5, 1};
  SUNContext c = ctx_(); N_Vector y = vec(1, c), yS[NS]; y->ops->nvwrmsnorm = norm; P(y)[0] = 0; double t, tol[NS] = {1e-4, 1e-4};
  CVodeMem m = CVodeCreate(lmm, c); CVodeSetErrHandlerFn(m, eh, NULL);
  nm_ = NULL; ism = sens; tol_ = fixed ? q > 5 ? 1e-4 : 1e-6 : 1e-9;
  int r = CVodeInit(m, rhs, 0, y) | CVodeSStolerances(m, 1e-4, 1e-6) | CVodeSetInitStep(m, 1 * dir) | CVodeSetNonlinearSolver(m, nls(0, c));
  for (int i = 0; i < NS; i++) yS[i] = N_VClone(y), P(yS[i])[0] = 0;
  on[0] = 1; on[1] = quad; for (int i = 0; i < NS; i++) on[2 + i] = sens, on[2 + NS + i] = qs;
  if (quad) r |= CVodeQuadInit(m, qrhs, y) | CVodeQuadSStolerances(m, 1e-4, 1e-4) | CVodeSetQuadErrCon(m, errcon);
  if (sens) {
    r |= (sens == CV_STAGGERED1 ? CVodeSensInit1(m, NS, sens, s1rhs, yS) : CVodeSensInit(m, NS, sens, srhs, yS)) | CVodeSensSStolerances(m, 1e-4, tol) | CVodeSetSensErrCon(m, errcon);
    r |= sens == CV_SIMULTANEOUS ? CVodeSetNonlinearSolverSensSim(m, nls(0, c)) : sens == CV_STAGGERED ? CVodeSetNonlinearSolverSensStg(m, nls(1, c)) : CVodeSetNonlinearSolverSensStg1(m, nls(1, c));
  }
  if (qs) r |= CVodeQuadSensInit(m, qsrhs, yS) | CVodeQuadSensSStolerances(m, 1e-4, tol) | CVodeSetQuadSensErrCon(m, errcon);
  IEQ("setup", r, 0);
  first = 1; r = CVode(m, 100 * dir, y, &t, CV_ONE_STEP); first = 0; IEQ("start", r, 0);
  /* any state in the middle of an integration */
  double h = fixed ? 0.625 * dir : vp_real(0.1, 2) * dir;
  m->cv_q = q; m->cv_L = q + 1; m->cv_qwait = qwait; m->cv_qprime = q; m->cv_h = m->cv_hscale = m->cv_hprime = h; m->cv_eta = 1;
  m->cv_hu = h; m->cv_qu = q; m->cv_nst = 50; m->cv_tn = m->cv_tretlast = vp_real(-3, 3); m->cv_saved_tq5 = vp_real(0.1, 2); m->cv_gammap = m->cv_gamma = h;
  for (int a = 0; a < NA; a++) if (on[a]) for (int j = 0; j <= m->cv_qmax; j++) *zp(m, a, j) = vp_real(-9, 9);
  nm_ = m;
  /* the values and slopes these polynomials go through */
  double tt = m->cv_tn; nstep = 20;
  for (int i = 0; i <= q; i++) {
    Tn[nstep - i] = tt;
    for (int a = 0; a < NA; a++) if (on[a]) Yn[a][nstep - i] = pol(m, a, tt, 0), Fn[a][nstep - i] = pol(m, a, tt, 1);
    m->cv_tau[i + 1] = fixed ? (i ? old[i] : 0.4375) * dir : i ? vp_real(0.1, 2) * dir : h; tt -= m->cv_tau[i + 1];
  }
  return m;
}
/* The BDF formula with fixed leading coefficient: h y' - h p' = a (y - p), p the polynomial through the past values and the
   last slope, for the order of the step.  It is the polynomial of the integrator, with one more past value when the order was
   raised (one less when it was lowered). */
static double wp(int n, int k, double t, int d)   /* (t - t_n) (t - t_n) (t - t_n-1) ... (k factors) and its derivative */
{
  double v = 1, s = 0;
  for (int i = 0; i < k; i++) { double x = t - Tn[n - (i ? i - 1 : 0)]; s = s * x + v; v *= x; }
  return d ? s : v;
}
static void formula(CVodeMem m, CVodeMem o, int a, const double *z, double t, double h, double f, double y)
{
  int n = nstep - 1, q = o->cv_q; double hs = o->cv_hscale, x = (t - o->cv_tn) / hs, p = 0, dp = 0, al = 0, den = 1, num = 0; int k = 0;
  if (m->cv_q == 1) { NEART("formula", h * f, y - Yn[a][n], tol_); return; }
  if (m->cv_q < q - 1) return;
  for (int j = q; j >= 0; j--) { dp = dp * x + p; p = p * x + z[j]; }
  dp = dp / hs;
  for (int i = 1; i <= m->cv_q; i++) al += 1.0 / i;
  if (m->cv_q > q) {
    double xo = (Tn[n - q] - o->cv_tn) / hs, po = 0;
    for (int j = q; j >= 0; j--) po = po * xo + z[j];
    k = q + 1; den = wp(n, k, Tn[n - q], 0); num = Yn[a][n - q] - po;
  } else if (m->cv_q < q) { k = q; num = -z[q]; for (int i = 0; i < q; i++) den *= hs; }
  NEART("formula", den * (h * f - h * dp - al * (y - p)), k ? num * (h * wp(n, k, t, 1) - al * wp(n, k, t, 0)) : 0.0, tol_);
}
static void go(CVodeMem m, int steps, int dir)
{
  double t; N_Vector y = N_VClone(m->cv_zn[0]); long st;
  for (int k = 0; k < steps; k++) {
    struct CVodeMemRec o = *m; double zo[NA][14];
    for (int a = 0; a < NA; a++) if (on[a]) for (int j = 0; j <= m->cv_q; j++) zo[a][j] = *zp(m, a, j);
    double told = m->cv_tn, hl, hn, tc, gam; int ql, qn, r = CVode(m, 1e9 * dir, y, &t, CV_ONE_STEP);
    if (r != CV_SUCCESS) {
      TRUE_("fail-code", r == CV_CONV_FAILURE || r == CV_ERR_FAILURE || r == CV_REPTD_RHSFUNC_ERR); NEAR("fail-time", t, told);
      for (int a = 0; a < NA; a++) if (on[a]) NEAR("fail-value", *zp(m, a, 0), Yn[a][nstep]);
      NEAR("fail-output", P(y)[0], Yn[0][nstep]); return;
    }
    CVodeGetLastStep(m, &hl); CVodeGetLastOrder(m, &ql); CVodeGetCurrentTime(m, &tc); CVodeGetCurrentOrder(m, &qn); CVodeGetCurrentStep(m, &hn); CVodeGetCurrentGamma(m, &gam); CVodeGetNumSteps(m, &st);
    NEAR("time", t, told + hl); SAME("current-time", tc, t); NEAR("f-time", ft, t); SAME("output", P(y)[0], *zp(m, 0, 0));
    TRUE_("forward", dir > 0 ? hl > 0 : hl < 0); TRUE_("next-order", qn >= ql - 1 && qn <= ql + 1 && qn >= 1 && qn <= m->cv_qmax);
    IEQ("order", m->cv_q, ql); IEQ("steps", st, 51 + k); NEAR("hscale", m->cv_hscale, hl);
    nstep++; Tn[nstep] = t;
    for (int i = 0; i < ql; i++) NEAR("past-steps", m->cv_tau[i + 1], Tn[nstep - i] - Tn[nstep - i - 1]);
    for (int a = 0; a < NA; a++) if (on[a]) {
      Yn[a][nstep] = *zp(m, a, 0); Fn[a][nstep] = fv[a];
      NEART("solution", pol(m, a, t, 0), Yn[a][nstep], tol_);
      if (m->cv_lmm == CV_BDF) {
        NEART("slope", pol(m, a, t, 1), fv[a], tol_); formula(m, &o, a, zo[a], t, hl, fv[a], Yn[a][nstep]);
        for (int i = 1; i < ql; i++) NEART("past-values", pol(m, a, Tn[nstep - i], 0), Yn[a][nstep - i], tol_);
      } else {
        for (int i = 0; i < ql; i++) NEART("slopes", pol(m, a, Tn[nstep - i], 1), Fn[a][nstep - i], tol_);
        NEART("previous-value", pol(m, a, told, 0), Yn[a][nstep - 1], tol_);
      }
    }
    if (m->cv_lmm == CV_BDF) {
      double a = 0; for (int i = 1; i <= ql; i++) a += 1.0 / i;
      NEAR("leading-coefficient", gam * a, hl);
    }
  }
}
'''


def entry(name, lmm, q, qwait, dir, fixed, feat='0, 0, 0, 0', steps=1, pre=''):
    return fn(name, '  vary = bad = unsolved = nbadt = kind = 0; %s\n  CVodeMem m = begin(CV_%s, %d, %d, %d, %d, %s); go(m, %d, %d);' % (pre, lmm, q, qwait, dir, fixed, feat, steps, dir))
