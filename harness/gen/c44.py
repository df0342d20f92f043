from cvstep import *
# Events: when the integrator stops at a root of the user's functions
T = STEP.replace('static int nl_solve', '''
#define MAXR 2
static int nrt, grep_, sg[MAXR], kink[MAXR], rdir[MAXR], done[MAXR], gcalls, gfail, ginit; static double root[MAXR], gok; static CVodeMem gm;
static double pol(CVodeMem m, int a, double t, int d);
static double vc, vw; static int vee_;
static double gval(int i, double t) { if (vee_) { double u = vee_ * (t - vc); return fabs(u) > vw ? sg[i] : -sg[i]; } double v = sg[i] * (t - root[i]); return kink[i] && t > root[i] ? kink[i] * v : v; }
static int gfun(realtype t, N_Vector y, realtype *g, void *u)
{
  gcalls++; if (gfail && gcalls >= gfail) return vp_int(0, 1) ? 1 : -1;
  if (gm && !ginit && (t - gm->cv_tn) * gm->cv_h <= 0) NEART("y-given-to-g", P(y)[0], pol(gm, 0, t, 0), 1e-6);
  for (int i = 0; i < nrt; i++) g[i] = first ? 1 : gval(i, t);
  return 0;
}
static int nl_solve''', 1).replace('  first = 1; r = CVode(', '  if (nrt) IEQ("rootinit", CVodeRootInit(m, nrt, gfun), 0);\n  first = 1; r = CVode(', 1) + '''
static void setdirs(CVodeMem m, int any) { for (int i = 0; i < nrt; i++) rdir[i] = any ? vp_int(-1, 1) : 0; IEQ("rootdir", CVodeSetRootDirection(m, rdir), 0); }
/* direction of g_i along the integration, and whether a stop is wanted */
static int want(int i, int dir) { return rdir[i] == 0 || rdir[i] == sg[i] * dir; }
static void roots(CVodeMem m, int dir, int task, int calls, int tol)
{
  N_Vector y = N_VClone(m->cv_zn[0]); P(y)[0] = 0; int ir[MAXR]; long ng; double tprev = gok;
  for (int k = 0; k < calls; k++) {
    double t0 = tprev, t = -777, slack, tout = m->cv_tn + dir * (task == CV_NORMAL ? vp_real(0.01, 1) : 50);
    if (task == CV_NORMAL && dir * (tout - t0) <= 1e-3) return;
    int r = CVode(m, tout, y, &t, task), any = 0;
    slack = tol ? m->cv_ttol : 1e-9;
    if (ginit) { ginit = 0; }
    TRUE_("moves-forward", dir * (t - t0) > -slack);
    if (r == CV_ROOT_RETURN) {
      IEQ("rootinfo", CVodeGetRootInfo(m, ir), 0);
      for (int i = 0; i < nrt; i++) if (ir[i]) {
        any = 1;
        TRUE_("at-a-root", fabs(t - root[i]) <= slack + 1e-12); IEQ("direction-of-crossing", ir[i], sg[i] * dir); TRUE_("wanted", want(i, dir)); IEQ("reported-once", done[i], 0); done[i] = 1;
      }
      TRUE_("some-root", any); if (!tol) NEART("y-at-root", P(y)[0], pol(m, 0, t, 0), 1e-6); TRUE_("inside-the-step", dir * (t - m->cv_tn) <= 0);
      if (task == CV_NORMAL) TRUE_("before-tout", dir * (t - tout) <= 1e-12);
    } else {
      IEQ("no-root", r, CV_SUCCESS);
      if (task == CV_NORMAL) SAME("at-tout", t, tout); else SAME("at-tn", t, m->cv_tn);
    }
    for (int i = 0; i < nrt; i++) if (!done[i] && sg[i] && want(i, dir)) TRUE_("root-missed", !(dir * (root[i] - gok) > slack && dir * (t - root[i]) > slack));
    tprev = t; CVodeGetNumGEvals(m, &ng); IEQ("g-evals", ng, gcalls);
  }
}
static void mid(int lmm, int q, int dir, int n, int task, int calls, int k, int tol)
{
  nrt = n; vary = bad = unsolved = nbadt = kind = 0; ginit = 1;
  CVodeMem m = begin(lmm, q, 3, dir, 1, 0, 0, 0, 0); gm = tol ? NULL : m;
  m->cv_tn = m->cv_tretlast = 0.25; setdirs(m, 1);
  if (tol) m->cv_uround = 1e-3;
  for (int i = 0; i < nrt; i++) { sg[i] = vp_int(0, 1) ? 1 : -1; root[i] = 0.25 + dir * vp_real(-0.25, 2); kink[i] = k; vp_assume(root[i] != 0.25); done[i] = 0; }
  if (nrt == 2) { double d = root[0] - root[1]; vp_assume(d == 0 || fabs(d) > 1e-6); }
  if (n == 2 || task == CV_NORMAL) { static const double zc[] = {1.5, -0.75, 2.25, 0.5}; for (int j = 0; j <= q; j++) *zp(m, 0, j) = zc[j]; }
  ginit = 0; gok = m->cv_tlo = 0.25; for (int i = 0; i < nrt; i++) m->cv_glo[i] = gval(i, 0.25), m->cv_gactive[i] = 1;
  m->cv_nge = gcalls = 0;
  roots(m, dir, task, calls, tol);
}
/* from the initial time, where some functions may be zero */
static void start(int dir, int n, int again)
{
  nrt = n; vary = bad = unsolved = nbadt = kind = 0; gm = NULL;
  SUNContext c = ctx_(); N_Vector y = vec(1, c), z; y->ops->nvwrmsnorm = norm; P(y)[0] = vp_real(-9, 9);
  CVodeMem m = CVodeCreate(CV_BDF, c); CVodeSetErrHandlerFn(m, eh, NULL); double t, ts;
  int r = CVodeInit(m, rhs, 0, y) | CVodeSStolerances(m, 1e-4, 1e-6) | CVodeSetInitStep(m, 0.5 * dir) | CVodeSetNonlinearSolver(m, nls(0, c)) | CVodeRootInit(m, nrt, gfun);
  if (again) for (int i = 0; i < nrt; i++) sg[i] = 0, root[i] = 0, kink[i] = 0;
  if (again) { z = N_VClone(y); r |= CVode(m, 50 * dir, z, &t, CV_ONE_STEP); IEQ("zero-everywhere", r, 0); r |= CVodeReInit(m, 0, y); r |= CVodeSetInitStep(m, 0.5 * dir); }
  IEQ("setup", r, 0); setdirs(m, 1);
  for (int i = 0; i < nrt; i++) { sg[i] = vp_int(-1, 1); root[i] = vp_int(0, 1) ? 0 : dir * vp_real(-0.25, 2); kink[i] = 0; done[i] = 0; }
  if (nrt == 2) { double d = root[0] - root[1]; vp_assume(d == 0 || fabs(d) > 1e-6); }
  gcalls = 0; gok = 0;
  roots(m, dir, CV_ONE_STEP, 2, 0);
}
/* a function that changes sign twice (by jumps): each crossing of a wanted direction is an event when it is the only one of its search interval */
static void vee(int dir)
{
  nrt = 1; vary = bad = unsolved = nbadt = kind = 0; ginit = 1; vee_ = dir;
  CVodeMem m = begin(CV_BDF, 2, 3, dir, 1, 0, 0, 0, 0); N_Vector y = N_VClone(m->cv_zn[0]); double t, lo, slack; int ir[1];
  { static const double zc[] = {1.5, -0.75, 2.25, 0.5}; for (int j = 0; j <= 2; j++) *zp(m, 0, j) = zc[j]; }
  m->cv_tn = m->cv_tlo = m->cv_tretlast = lo = 0.25; sg[0] = vp_int(0, 1) ? 1 : -1; vw = 0.5; vc = 0.25 + dir * vp_real(0.625, 1.25); setdirs(m, 1); m->cv_uround = 1e-4;
  m->cv_glo[0] = gval(0, lo); m->cv_gactive[0] = 1;
  for (int k = 0; k < 4; k++) {
    int r = CVode(m, m->cv_tn + dir * 50, y, &t, CV_ONE_STEP), e = 0, nin = 0; double hi = t, at = 0; slack = m->cv_ttol;
    for (int i = 0; i < 2; i++) { double x = vc + (i ? dir : -dir) * vw; if (dir * (x - lo) > slack && dir * (hi - x) > slack) nin++, e = i, at = x; if (fabs(x - lo) <= slack) return; }
    if (nin == 2) return;
    if (r == CV_ROOT_RETURN) {
      int f = -1; for (int i = 0; i < 2; i++) { double x = vc + (i ? dir : -dir) * vw; if (fabs(t - x) <= slack + 1e-12) f = i; }
      TRUE_("at-a-crossing", f >= 0); IEQ("rootinfo", CVodeGetRootInfo(m, ir), 0); IEQ("direction-of-crossing", ir[0], f ? sg[0] : -sg[0]); TRUE_("wanted", rdir[0] == 0 || rdir[0] == ir[0]);
      lo = t; continue;
    }
    IEQ("no-root", r, CV_SUCCESS); for (int i = 0; i < 2; i++) { double x = vc + (i ? dir : -dir) * vw; if (fabs(x - hi) <= slack) return; }
    if (nin == 1) TRUE_("crossing-missed", rdir[0] == (e ? -sg[0] : sg[0])); 
    lo = hi;
  }
}
/* failing, removed and refused root functions */
static void failing(int dir)
{
  nrt = 1; vary = bad = unsolved = nbadt = kind = 0; ginit = 1;
  CVodeMem m = begin(CV_BDF, 2, 3, dir, 1, 0, 0, 0, 0); N_Vector y = N_VClone(m->cv_zn[0]); double t; int n = vp_int(1, 5), r = 0;
  sg[0] = 1; root[0] = m->cv_tn + dir * 0.125; kink[0] = 3; m->cv_tlo = m->cv_tretlast = m->cv_tn; m->cv_glo[0] = gval(0, m->cv_tn); m->cv_gactive[0] = 1; gcalls = 0; gfail = n; m->cv_uround = 1e-3;
  for (int k = 0; k < 4 && gcalls < n; k++) { r = CVode(m, m->cv_tn + dir * 50, y, &t, CV_ONE_STEP); TRUE_("code", gcalls < n ? r == CV_SUCCESS || r == CV_ROOT_RETURN : r == CV_RTFUNC_FAIL); }
}
static void refused(int n1, int n2, int null)
{
  nrt = n1; vary = bad = unsolved = nbadt = kind = 0; ginit = 1;
  CVodeMem m = begin(CV_BDF, 2, 3, 1, 1, 0, 0, 0, 0); N_Vector y = N_VClone(m->cv_zn[0]); double t; int ir[2] = {7, 7};
  IEQ("second-rootinit", CVodeRootInit(m, n2, null ? NULL : gfun), null && n2 ? CV_ILL_INPUT : CV_SUCCESS);
  gcalls = 0; nrt = n2; sg[0] = sg[1] = 1; root[0] = root[1] = 100; m->cv_tlo = m->cv_tretlast = m->cv_tn;
  if (!null) for (int i = 0; i < n2; i++) m->cv_glo[i] = gval(i, m->cv_tn);
  IEQ("steps", CVode(m, m->cv_tn + 50, y, &t, CV_ONE_STEP), CV_SUCCESS);
  if (null || !n2) { IEQ("not-called", gcalls, 0); IEQ("none-left", m->cv_nrtfn, 0); } else TRUE_("called", gcalls > 0);
  IEQ("info", CVodeGetRootInfo(m, ir), 0);
  IEQ("none", CVodeRootInit(NULL, 1, gfun), CV_MEM_NULL);
}
'''
for dir in (1, -1): T += fn('h_vee_' + ('fwd' if dir > 0 else 'back'), '  vee(%d);' % dir)
for dir in (1, -1): T += fn('h_fails_' + ('fwd' if dir > 0 else 'back'), '  failing(%d);' % dir)
for n1 in (0, 1, 2):
    for n2 in (0, 1, 2):
        for null in (0, 1): T += fn('h_again_%d%d%d' % (n1, n2, null), '  refused(%d, %d, %d);' % (n1, n2, null))
for dir in (1, -1):
    d = 'fwd' if dir > 0 else 'back'
    for task in (1, 2):
        for n in (1, 2):
            for lmm, q in (('BDF', 2), ('ADAMS', 3)):
                if n == 2 and (lmm == 'ADAMS') == (dir > 0): continue
                T += fn('h_root%d_%s%s_%s' % (n, d, 'ns'[task - 1], lmm.lower()), '  mid(CV_%s, %d, %d, %d, %d, %d, 0, 0);' % (lmm, q, dir, n, task, 2 if n == 1 or task == 2 else 1))
    for k in (3,):
        T += fn('h_kink%d_%s' % (k, d), '  mid(CV_BDF, 2, %d, 1, CV_ONE_STEP, 1, %d, 1);' % (dir, k))
    for again in (0, 1):
        for n in (1, 2):
            if n == 2 and again == (dir > 0): continue
            T += fn('h_start%d_%s%d' % (n, d, again), '  start(%d, %d, %d);' % (dir, n, again))


def generate(tier):
    return {'c44.c': T}
