from cvstep import *
# Error estimates: exact for the first term they estimate; the step is accepted exactly when they pass
T = STEP.replace('fv[a] = first ? 0 :', 'fv[a] = first || (off_ >= 0 && a == 2 + off_) || (only_ >= 0 && a != only_) ? 0 :', 1).replace('{ if (limd) TRUE_', '{ if (exact) { P(yd)[0] = pev(dy, t) + fix_; ft = t; return 0; } if (limd) TRUE_', 1).replace('static int fails', '''
#define MD 20
static int part(CVodeMem m, N_Vector x, int *k);
static int off_ = -1, only_ = -1, exact, nlog, real_, pick_, pt_, na_; static double vac, vlow, vhigh, att[8]; static CVodeMem gm; static double yp[MD], dy[MD], lg[16], X0, quiet_, fix_; static N_Vector lgv[16];
static double pev(const double *c, double t) { double s = 0; for (int i = MD - 1; i >= 0; i--) s = s * (t - X0) + c[i]; return s; }
static void pder(const double *c, double *d) { for (int i = 0; i < MD - 1; i++) d[i] = (i + 1) * c[i + 1]; d[MD - 1] = 0; }
static void pmul(double *c, double r) { for (int i = MD - 1; i >= 0; i--) c[i] = (i ? c[i - 1] : 0) - (r - X0) * c[i]; }
static void pmod(double *a, const double *w, int d) { for (int k = MD - 1; k >= d; k--) { double f = a[k]; for (int j = 0; j <= d; j++) a[k - d + j] -= f * w[j]; a[k] = 0; } }
static double pint(const double *c, double a, double b) { double s = 0, x = 1, z = 1; for (int i = 0; i < MD; i++) { x *= b - X0; z *= a - X0; s += c[i] * (x - z) / (i + 1); } return s; }
static double picked(N_Vector x) { int k, a = part(gm, x, &k); if (a != pt_ || k == 0) return 0; if (k == 2) return vhigh; if (k == 4 + gm->cv_q) return vlow; if (k == 1 && na_ < 8) return att[na_++]; return 0; }
static int fails''', 1).replace('  if (nbadt > 0) {', '  if (real_) { double v = fabs(P(x)[0] * P(w)[0]); if (nlog < 16) lg[nlog++] = v; return v; }\n  if (pick_) return picked(x);\n  if (exact) { if (nlog < 16) lg[nlog] = P(x)[0], lgv[nlog++] = x; return quiet_; }\n  if (nbadt > 0) {', 1) + '''
/* the history of the exact solution at step n, as the method of order q keeps it */
static void history(CVodeMem m, int n)
{
  int q = m->cv_q; double w[MD] = {1}, p[MD], t = Tn[n], hh = 1;
  if (m->cv_lmm == CV_BDF) {
    /* values of the solution; the last slope is off by the error of the formula as it would be after q + 1 equal steps; fix_: slope
       of the formula minus that of the solution at the next step */
    double d[MD], a = 0, h = m->cv_hscale, t1 = t + h, v[MD] = {1}, A1 = 1;
    for (int i = 1; i <= q; i++) a += 1.0 / i;
    for (int i = 0; i < q; i++) pmul(v, Tn[n - i]), A1 += h / (t1 - Tn[n - i]);
    A1 -= a; memcpy(w, v, sizeof w); pmul(w, t);
    for (int i = 0; i <= q; i++) w[i] += q * A1 * h * v[i];
    memcpy(p, yp, sizeof p); pmod(p, w, q + 1); pder(p, d);
    fix_ = pev(d, t1) - pev(dy, t1) + a * (pev(yp, t1) - pev(p, t1)) / h;
  } else {
    for (int i = 0; i < q; i++) pmul(w, Tn[n - i]);
    memcpy(p, dy, sizeof p); pmod(p, w, q);
    for (int i = MD - 1; i > 0; i--) p[i] = p[i - 1] / i;
    p[0] = 0; double s = pev(p, t); p[0] = pev(yp, t) - s;
  }
  for (int j = 0; j <= q; j++) {
    double f = 1, d[MD]; *zp(m, 0, j) = pev(p, t) * hh; for (int i = 2; i <= j; i++) f *= i;
    *zp(m, 0, j) /= f; hh *= m->cv_hscale; pder(p, d); memcpy(p, d, sizeof p);
  }
}
/* the error of one step of the method of order k from exact history, for the solution t^(k+1) */
static double lte(int lmm, int k, int n)
{
  double t = Tn[n + 1], w[MD] = {1}, d[MD], h = Tn[n + 1] - Tn[n], a = 0;
  if (lmm == CV_BDF) {
    pmul(w, Tn[n]); for (int i = 0; i < k; i++) pmul(w, Tn[n - i]);
    pder(w, d); for (int i = 1; i <= k; i++) a += 1.0 / i;
    return h * pev(d, t) / a - pev(w, t);
  }
  for (int i = -1; i < k - 1; i++) pmul(w, Tn[n - i]);
  return (k + 1) * pint(w, Tn[n], t);
}
static void SAMEABS(const char *id, double a, double b) { NEART(id, a * a, b * b, tol_); }
static void est(int lmm, int q, int dir, int fixed, int uniform, int what)
{
  double t; vary = bad = unsolved = nbadt = kind = 0; exact = 0; X0 = fix_ = 0; nlog = 0;
  CVodeMem m = begin(lmm, q, what == 2 ? 2 : what == 1 ? 1 : 3, dir, fixed, 0, 0, 0, 0); N_Vector y = N_VClone(m->cv_zn[0]), e = N_VClone(y);
  double d = m->cv_tn, h = m->cv_h; int n = nstep; for (int i = 0; i <= q; i++) Tn[n - i] -= d; m->cv_tn = m->cv_tretlast = 0;
  if (uniform) { h = vp_real(0.1, 2) * dir; m->cv_h = m->cv_hscale = m->cv_hprime = m->cv_hu = h; for (int i = 0; i <= q; i++) Tn[n - i] = -i * h, m->cv_tau[i + 1] = h; }
  for (int i = 0; i < MD; i++) yp[i] = i <= q + (what == 2 ? 2 : what == 1 ? 0 : 1) ? vp_real(-9, 9) : 0;
  pder(yp, dy); exact = 1; quiet_ = 0.01; history(m, n);
  Tn[n + 1] = Tn[n] + h;
  m->cv_etamax = 1;
  IEQ("step", CVode(m, 1e9 * dir, y, &t, CV_ONE_STEP), 0); NEAR("time", t, Tn[n + 1]);
  if (what == 0) {
    IEQ("est", CVodeGetEstLocalErrors(m, e), 0); double u = yp[q + 1] * lte(lmm, q, n), v = P(y)[0] - pev(yp, t);
    if (lmm == CV_ADAMS) SAMEABS("error-of-the-formula", v, u); else NEART("on-the-solution", v, 0.0, tol_);
    SAMEABS("estimated-error", P(e)[0], u);
  } else if (what == 1) {
    double hq = 1; for (int i = 0; i < q; i++) hq *= h;
    if (q > 1) SAMEABS("lower-order-error", yp[q] * lte(lmm, q - 1, n), m->cv_tq[1] * yp[q] * hq);
    
  } else {
    IEQ("same-order", m->cv_q, q); n++; m->cv_qwait = 1; NEAR("same-step", m->cv_hprime, h); history(m, n); nlog = 0; Tn[n + 1] = Tn[n] + h;
    IEQ("step", CVode(m, 1e9 * dir, y, &t, CV_ONE_STEP), 0); NEAR("time", t, Tn[n + 1]);
    int seen = 0; for (int i = 0; i < nlog; i++) if (lgv[i] == m->cv_tempv) seen = 1, SAMEABS("higher-order-error", m->cv_tq[3] * lg[i], yp[q + 2] * lte(lmm, q + 1, n));
    TRUE_("higher-order-considered", seen);
  }
}
/* the error test, with the weights of the tolerances */
static void within(const char *id, double e, double y, double rt, double at, int yes) { TRUE_(id, yes ? fabs(e) <= (rt * fabs(y) + at) * (1 + 1e-6) : 1); }
static void accept(int lmm, int q, int quad, int sens, int qs, int errcon)
{
  vary = bad = unsolved = nbadt = kind = exact = 0; real_ = 0; nlog = 0; double t;
  CVodeMem m = begin(lmm, q, 3, 1, 1, quad, sens, qs, errcon); N_Vector y = N_VClone(m->cv_zn[0]), e = N_VClone(y); P(y)[0] = 0;
  double yo[NA]; int ctl[NA]; for (int a = 1; a < NA; a++) if (on[a]) *zp(m, a, 0) = vp_real(0, 9);
  if (qs) { only_ = vp_int(0, NA - 1); for (int a = 0; a < NA; a++) if (a != only_) for (int j = 0; j <= m->cv_qmax; j++) *zp(m, a, j) = 0; }
  else if (sens) { off_ = vp_int(0, 1); for (int j = 0; j <= m->cv_qmax; j++) *zp(m, 2 + off_, j) = 0; }
  for (int a = 0; a < NA; a++) if (on[a]) yo[a] = *zp(m, a, 0), ctl[a] = a == 0 || errcon;
  IEQ("one-attempt", CVodeSetMaxErrTestFails(m, 1), 0);
  real_ = 1; int r = CVode(m, 1e9, y, &t, CV_ONE_STEP); real_ = 0;
  if (r == CV_SUCCESS) {
    IEQ("est", CVodeGetEstLocalErrors(m, e), 0); double tq = m->cv_tq[2];
    NEART("estimate", P(e)[0] * m->cv_l[0], tq * m->cv_l[0] * P(m->cv_acor)[0] / tq, tol_);
    within("y-within-tolerance", P(e)[0], yo[0], 1e-4, 1e-6, 1);
    if (quad) within("quadrature-within-tolerance", P(m->cv_acorQ)[0], yo[1], 1e-4, 1e-4, errcon);
    for (int i = 0; i < NS; i++) {
      if (sens) within("sensitivity-within-tolerance", P(m->cv_acorS[i])[0], yo[2 + i], 1e-4, 1e-4, errcon);
      if (qs) within("quad-sens-within-tolerance", P(m->cv_acorQS[i])[0], yo[2 + NS + i], 1e-4, 1e-4, errcon);
    }
  } else {
    int over = 0; IEQ("failed", r, CV_ERR_FAILURE); for (int i = 0; i < nlog; i++) if (lg[i] * m->cv_tq[2] > 1) over = 1;
    TRUE_("some-error-too-large", over); NEAR("y-kept", *zp(m, 0, 0), yo[0]);
  }
}
/* step size and order from the estimates */
static double ratio(double e, int k, double bias) { return 1.0 / (pow(bias * e, 1.0 / k) + 0.000001); }
static void choose(int lmm, int q, int dir, int qwait, int fails, int quad, int sens, int qs, int err)
{
  vary = bad = unsolved = nbadt = kind = exact = pick_ = real_ = 0; double t;
  CVodeMem m = begin(lmm, q, qwait, dir, 1, quad, sens, qs, err); N_Vector y = N_VClone(m->cv_zn[0]); gm = m; pt_ = 0; if (quad + sens) { pt_ = vp_int(0, NA - 1); if (!on[pt_]) return; }
  int qmax = lmm == CV_BDF ? 5 : 12; double h0 = m->cv_h, hl, hn, e = 0, b[3]; int qn, ql, best = 1;
  int ctl = pt_ == 0 || err, big = quad + sens; static const double nv2[] = {0, 1e-5, 0.03}, nv[] = {0, 1e-12, 1e-9, 1e-7, 1e-5, 4e-4, 0.004, 0.03, 0.2};
  for (int i = 0; i < 8; i++) att[i] = i < fails ? 1e6 : 0;
  
  if (big) { att[fails] = nv2[vp_int(0, 2)]; vlow = nv2[vp_int(0, 2)] / 3; vhigh = nv2[vp_int(0, 2)] / 7; }
  else { att[fails] = nv[vp_int(0, 8)]; vlow = vhigh = 0; if (qwait == 1) vlow = nv[vp_int(0, 8)] / 3, vhigh = nv[vp_int(0, 8)] / 7; }
  na_ = 0; pick_ = 1; int r = CVode(m, 1e9 * dir, y, &t, CV_ONE_STEP); pick_ = 0; IEQ("step", r, 0);
  CVodeGetLastStep(m, &hl); CVodeGetCurrentStep(m, &hn); CVodeGetCurrentOrder(m, &qn); CVodeGetLastOrder(m, &ql); IEQ("order-kept", ql, q); if (ctl) IEQ("attempts", na_, fails + 1); else att[0] = vlow = vhigh = 0;
  if (fails) { NEAR("next-step", hn, hl); IEQ("next-order", qn, q); TRUE_("reduced", hl / h0 <= (fails > 1 ? 0.2 : 0.5) && hl / h0 >= (fails > 1 ? 0.00999 : 0.0999)); return; }
  NEAR("first-attempt", hl, h0);
  b[1] = ratio(att[0] * m->cv_tq[2], q + 1, 6); b[0] = b[2] = 0; e = b[1];
  if (qwait == 1) {
    if (q > 1) b[0] = ratio(vlow * m->cv_tq[1], q, 6);
    if (q < qmax) b[2] = ratio(vhigh * m->cv_tq[3], q + 2, 10);
    if (b[0] > e) e = b[0], best = 0;
    if (b[2] > e) e = b[2], best = 2;
  }
  for (int i = 0; i < 3; i++) if (i != best && fabs(b[i] - e) < 1e-9) return;
  if (fabs(e - 1.5) < 1e-9) return;
  if (e < 1.5) { IEQ("next-order", qn, q); NEAR("next-step", hn, hl); }
  else { IEQ("next-order", qn, q - 1 + best); NEAR("next-step", hn, hl * (e > 10 ? 10 : e)); }
}
'''
for lmm, qs in (('BDF', (1, 2, 5)), ('ADAMS', (1, 3, 12))):
    for q in qs:
        for d in (1, -1):
            for qw in (1, 3):
                T += fn('h_choose_%s%02d_%s%d' % (lmm.lower(), q, 'f' if d > 0 else 'b', qw), '  choose(CV_%s, %d, %d, %d, 0, 0, 0, 0, 0);' % (lmm, q, d, qw))
        for f in (1, 2): T += fn('h_shrink_%s%02d_%d' % (lmm.lower(), q, f), '  choose(CV_%s, %d, 1, 3, %d, 0, 0, 0, 0);' % (lmm, q, f))
    for cn, c in [('q', '1, 0, 0'), ('sim', '0, 1, 0'), ('stg', '0, 2, 0'), ('stg1', '0, 3, 0'), ('qsim', '1, 1, 1'), ('qstg', '1, 2, 1'), ('qstg1', '1, 3, 1')]:
        for e in (0, 1): T += fn('h_part_%s_%s%d' % (lmm.lower(), cn, e), '  choose(CV_%s, 3, 1, 1, 0, %s, %d);' % (lmm, c, e))
    for cn, c in [('y', '0, 0, 0'), ('q', '1, 0, 0'), ('sim', '0, 1, 0'), ('stg', '0, 2, 0'), ('stg1', '0, 3, 0'), ('qsim', '1, 1, 1'), ('qstg', '1, 2, 1'), ('qstg1', '1, 3, 1')]:
        for e in (0, 1):
            T += fn('h_accept_%s_%s%d' % (lmm.lower(), cn, e), '  accept(CV_%s, %d, %s, %d);' % (lmm, 2 if lmm == 'BDF' else 3, c, e))
for lmm, Q in (('BDF', 5), ('ADAMS', 12)):
    for q in range(1, Q + 1):
        for w, wn in ((0, 'est'), (1, 'low'), (2, 'high')):
            if w == 2 and q == Q: continue
            args = (lmm, q, 1 if q % 2 else -1)
            if w < 2: T += fn('h_%s_%s%02d' % (wn, lmm.lower(), q), '  est(CV_%s, %d, %d, 1, 0, %d);' % (args + (w,)))
            T += fn('h_%s_%s%02d_equal' % (wn, lmm.lower(), q), '  est(CV_%s, %d, %d, 1, 1, %d);' % (args + (w,)))
            if q <= 2 and w < 2: T += fn('h_%s_%s%02d_any' % (wn, lmm.lower(), q), '  est(CV_%s, %d, %d, 0, 0, %d);' % (args + (w,)))


def generate(tier):
    return {'c45.c': T}
