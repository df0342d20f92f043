from cvstep import *
# Where CVode stops and what it returns there
T = STEP + '''
#define MXS 3
static int over;
static void at(const char *id, CVodeMem m, N_Vector y, double t) { double s = 0, p = 1; for (int j = m->cv_q; j >= 0; j--) { s = s * (t - m->cv_tn) + *zp(m, 0, j) * p; p *= m->cv_hscale; } NEAR("interpolated", P(y)[0] * p / m->cv_hscale, s); }
static int task0;
static void one(CVodeMem m, int dir, N_Vector y, int i)
{
  int task = i ? vp_int(CV_NORMAL, CV_ONE_STEP) : task0; double tout = m->cv_tn + dir * vp_real(-1, 3), t = -777, tn0 = m->cv_tn, hu0 = m->cv_hu, tr0 = m->cv_tretlast, slack = 1e-9; long n0, n1; int r, lset = limd;
  CVodeGetNumSteps(m, &n0); err_n = 0;
  r = CVode(m, tout, y, &t, task);
  CVodeGetNumSteps(m, &n1);
  double tn = m->cv_tn, y0 = *zp(m, 0, 0);
  long k = n1 - n0;
  if (task == CV_NORMAL && dir * (tout - tn0) <= 0) {   /* already passed */
    IEQ("no-step-needed", k, 0);
    if (dir * (tout - (tn0 - hu0)) < -slack) IEQ("too-far-back", r, CV_ILL_INPUT);
    else if (r != CV_ILL_INPUT || dir * (tout - (tn0 - hu0)) > slack) { IEQ("passed", r, CV_SUCCESS); SAME("at-tout", t, tout); at("", m, y, tout); SAME("tretlast", m->cv_tretlast, t); }
    return;
  }
  SAME("tretlast", m->cv_tretlast, t); if (k == 1) TRUE_("time-advanced-by-the-step", fabs(tn - tn0 - m->cv_hu) <= slack);
  if (task == CV_ONE_STEP && fabs(tn0 - tr0) > slack) { IEQ("step-not-yet-returned", r, CV_SUCCESS); IEQ("no-step-needed", k, 0); SAME("at-tn", t, tn0); SAME("y-at-tn", P(y)[0], y0); return; }
  if (tn0 != tr0 && fabs(tn0 - tr0) <= slack) return;   /* within rounding of the last returned time */
  if (lset && task == CV_NORMAL && fabs(tout - lim) <= slack) { TRUE_("at-either", r == CV_SUCCESS || r == CV_TSTOP_RETURN || r == CV_TOO_MUCH_WORK); over = 1; return; }
  if (lset && fabs(tn0 - lim) <= 1e-15) { IEQ("already-at-tstop", r, CV_TSTOP_RETURN); IEQ("no-step-needed", k, 0); SAME("at-tstop", t, lim); limd = 0; return; }
  TRUE_("step-taken", k >= 1 || lset); TRUE_("at-most-mxstep", k <= MXS);
  if (r == CV_SUCCESS && task == CV_NORMAL) {
    SAME("at-tout", t, tout); at("", m, y, tout); TRUE_("reached", dir * (tn - tout) >= 0); TRUE_("not-overrun", dir * (tn - m->cv_hu - tout) <= slack);
    if (lset) TRUE_("not-beyond-tstop", dir * (tout - lim) <= slack);
  } else if (r == CV_SUCCESS) {
    IEQ("one-step", k, 1); SAME("at-tn", t, tn); SAME("y-at-tn", P(y)[0], y0); if (lset) TRUE_("tstop-not-reached", dir * (tn - lim) < 0);
  } else if (r == CV_TSTOP_RETURN) {
    TRUE_("tstop-was-set", lset); SAME("at-tstop", t, lim); at("", m, y, lim); TRUE_("tstop-reached", fabs(tn - lim) <= slack); if (task == CV_NORMAL) TRUE_("before-tout", dir * (tout - lim) >= -slack);
    if (task == CV_ONE_STEP) TRUE_("one-step", k <= 1);
    IEQ("tstop-cleared", m->cv_tstopset, 0); limd = 0;
  } else {
    IEQ("too-much-work", r, CV_TOO_MUCH_WORK); IEQ("normal", task, CV_NORMAL); IEQ("all-steps", k, MXS); SAME("at-tn", t, tn); SAME("y-at-tn", P(y)[0], y0); TRUE_("not-there-yet", dir * (tout - tn) > 0); TRUE_("reported", err_n > 0);
  }
}
static void stop(int lmm, int q, int dir, int st, int calls)
{
  CVodeMem m = begin(lmm, q, 3, dir, 1, 0, 0, 0, 0); N_Vector y = N_VClone(m->cv_zn[0]); P(y)[0] = 0;
  IEQ("mxstep", CVodeSetMaxNumSteps(m, MXS), 0);
  if (st) {
    double ts = m->cv_tn + dir * vp_real(-0.5, 2); int r = CVodeSetStopTime(m, ts);
    if (dir * (ts - m->cv_tn) < 0) { IEQ("tstop-passed", r, CV_ILL_INPUT); IEQ("not-set", m->cv_tstopset, 0); return; }
    IEQ("tstop-set", r, CV_SUCCESS); lim = ts; limd = dir;
  }
  for (int i = 0; i < calls && !over; i++) one(m, dir, y, i);
}
'''
for lmm, q in (('BDF', 2), ('ADAMS', 3)):
    for dir in (1, -1):
        for st in (0, 1):
          for task in (1, 2):
            T += fn('h_stop_%s_%s%d%s' % (lmm.lower(), 'fwd' if dir > 0 else 'back', st, 'ns'[task - 1]), '  task0 = %d; vary = 1; bad = unsolved = nbadt = kind = 0; stop(CV_%s, %d, %d, %d, 2);' % (task, lmm, q, dir, st))
# step size limits
T += '''
static void limits(int dir, int hmax, int hmin)
{
  CVodeMem m = begin(CV_BDF, 2, 1, dir, 1, 0, 0, 0, 0); N_Vector y = N_VClone(m->cv_zn[0]); double t, hm = vp_real(0.625, 9);
  if (hmax) IEQ("hmax-set", CVodeSetMaxStep(m, hm), 0);
  if (hmin) { hm_ = vp_real(0.01, 0.6); IEQ("hmin-set", CVodeSetMinStep(m, hm_ * (1 + 1e-12)), 0); hmd = dir; }
  for (int i = 0; i < 2; i++) {
    double ho = m->cv_hu; t0_ = m->cv_tn;
    int r = CVode(m, 1e9 * dir, y, &t, CV_ONE_STEP); double hl, hc; CVodeGetLastStep(m, &hl); CVodeGetCurrentStep(m, &hc);
    if (r != CV_SUCCESS) { TRUE_("failed", r == CV_ERR_FAILURE || r == CV_CONV_FAILURE); SAME("kept", t, t0_); return; }
    if (hmax) { TRUE_("last-below-hmax", dir * hl <= hm + 1e-9); TRUE_("next-below-hmax", dir * hc <= hm + 1e-9); }
    TRUE_("growth-limited", dir * hl <= 10 * dir * ho + 1e-9);
  }
}
'''
for dir in (1, -1):
    d = 'fwd' if dir > 0 else 'back'
    T += fn('h_hmax_' + d, '  vary = 4; bad = unsolved = nbadt = kind = 0; limits(%d, 1, 0);' % dir)
    T += fn('h_hmin_' + d, '  vary = 0; kind = 0; nbadt = vp_int(0, 1); bad = vp_int(0, 8); unsolved = vp_int(0, 3); limits(%d, 0, 1);' % dir)


def generate(tier):
    return {'c43.c': T}
