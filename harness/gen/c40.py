from cutil import *
# solution, quadrature and sensitivity output of CVODES between the steps
T = CVINC + '''
static int rhs(realtype t, N_Vector y, N_Vector yd, void *u) { return 0; }
static int srhs(int Ns, realtype t, N_Vector y, N_Vector yd, N_Vector *yS, N_Vector *ySd, void *u, N_Vector a, N_Vector b) { return 0; }
static int qsrhs(int Ns, realtype t, N_Vector y, N_Vector *yS, N_Vector yQ, N_Vector *yQS, void *u, N_Vector a, N_Vector b) { return 0; }
#define NS 2
static CVodeMem make(int lmm, int n, int feat, SUNContext c)
{
  CVodeMem m = CVodeCreate(lmm, c); N_Vector s[NS], w[NS], y = vec(n, c); int r = 0;
  CVodeSetErrHandlerFn(m, eh, NULL);
  r |= CVodeInit(m, rhs, 0.0, y);
  r |= CVodeSStolerances(m, 1e-4, 1e-6);
  if (feat) {
    r |= CVodeQuadInit(m, rhs, y);
    for (int i = 0; i < NS; i++) { s[i] = vec(n, c); w[i] = vec(n, c); }
    r |= CVodeSensInit(m, NS, CV_SIMULTANEOUS, srhs, s);
    r |= CVodeQuadSensInit(m, qsrhs, w);
  }
  IEQ("init", r, 0);
  return m;
}
/* the polynomial sum z[j] ((t - tn) / h)^j, differentiated k times, at tn + s h */
static double poly(const double *z, int q, int k, double s, double h)
{
  double r = 0;
  for (int j = q; j >= k; j--) { double f = 1; for (int i = 0; i < k; i++) f = f * (j - i) / h; r = r * s + f * z[j]; }
  return r;
}
'''
BODY = '''  SUNContext c = ctx_(); const int n = %(n)d; double z[NS][13][2];
  int q = vp_int(1, %(q)s), k = vp_int(0, q); CVodeMem m = make(%(lmm)s, n, %(feat)d, c); N_Vector d[NS];
  double h = vp_real(0.1, 2), s = vp_real(-2, 0), tn = vp_real(-3, 3); if (vp_int(0, 1)) h = -h;
  m->cv_q = q; m->cv_h = h; m->cv_hu = 2 * h; m->cv_tn = tn;   /* the last step may be longer than the next one */
  for (int j = 0; j <= q; j++) for (int is = 0; is < %(ns)d; is++) for (int i = 0; i < n; i++) P(%(z)s)[i] = z[is][j][i] = vp_real(-9, 9);
  for (int i = 0; i < NS; i++) d[i] = vec(n, c);
  int r = %(call)s;
  IEQ("rc", r, CV_SUCCESS); IEQ("messages", err_n, 0);
  for (int is = 0; is < %(ns)d; is++) for (int i = 0; i < n; i++) NEAR("value", P(d[is])[i], poly((double[]){%(zz)s}, q, k, s, h));
  for (int j = 0; j <= q; j++) for (int is = 0; is < %(ns)d; is++) for (int i = 0; i < n; i++) SAME("history-kept", P(%(z)s)[i], z[is][j][i]);
  SAME("h", m->cv_h, h); SAME("tn", m->cv_tn, tn); IEQ("q", m->cv_q, q);
'''
ZZ = ','.join('z[is][%d][i]' % j for j in range(13))
W = {'dky': (0, 1, 'm->cv_zn[j]', 'CVodeGetDky(m, %s, %s, d[0])'), 'qdky': (1, 1, 'm->cv_znQ[j]', 'CVodeGetQuadDky(m, %s, %s, d[0])'),
     'sdky': (1, 2, 'm->cv_znS[j][is]', 'CVodeGetSensDky(m, %s, %s, d)'), 'sdky1': (1, 2, 'm->cv_znS[j][is]', 'CVodeGetSensDky1(m, %s, %s, 1, d[1]) + CVodeGetSensDky1(m, %s, %s, 0, d[0])'),
     'qsdky': (1, 2, 'm->cv_znQS[j][is]', 'CVodeGetQuadSensDky(m, %s, %s, d)'), 'qsdky1': (1, 2, 'm->cv_znQS[j][is]', 'CVodeGetQuadSensDky1(m, %s, %s, 1, d[1]) + CVodeGetQuadSensDky1(m, %s, %s, 0, d[0])')}
def inst(call, t, k):
    while '%s' in call:
        call = call % ((t, k) * (call.count('%s') // 2))
    return call
for nm, (feat, ns, z, call) in W.items():
    for lmm, Q in (('CV_BDF', '5'), ('CV_ADAMS', '12')):
        if lmm == 'CV_ADAMS' and nm not in ('dky',):
            Q = '7'
        T += fn('h_%s_%s' % (nm, lmm[3:].lower()), BODY % dict(n=2 if ns == 1 and Q == '5' else 1, q=Q, lmm=lmm, feat=feat, ns=ns, z=z, zz=ZZ, call=inst(call, 'tn + s * h', 'k')))
# values at the time last returned
RET = '''  SUNContext c = ctx_(); double z[NS][13][2], tr = -99;
  int q = vp_int(1, 5); CVodeMem m = make(CV_BDF, 1, 1, c); N_Vector d[NS];
  double h = vp_real(0.1, 2), s = vp_real(-1, 0), tn = vp_real(-3, 3);
  m->cv_q = q; m->cv_h = h; m->cv_hu = h; m->cv_tn = tn; m->cv_tretlast = tn + s * h;
  for (int j = 0; j <= q; j++) for (int is = 0; is < %(ns)d; is++) for (int i = 0; i < 1; i++) P(%(z)s)[i] = z[is][j][i] = vp_real(-9, 9);
  for (int i = 0; i < NS; i++) d[i] = vec(1, c);
  int r = %(call)s, i = 0;
  IEQ("rc", r, CV_SUCCESS); NEAR("time", tr, tn + s * h);
  for (int is = 0; is < %(ns)d; is++) NEAR("value", P(d[is])[i], poly((double[]){%(zz)s}, q, 0, s, h));
'''
for nm, ns, z, call in (('quad', 1, 'm->cv_znQ[j]', 'CVodeGetQuad(m, &tr, d[0])'), ('sens', 2, 'm->cv_znS[j][is]', 'CVodeGetSens(m, &tr, d)'),
                        ('sens1', 2, 'm->cv_znS[j][is]', 'CVodeGetSens1(m, &tr, 1, d[1]) + CVodeGetSens1(m, &tr, 0, d[0])'), ('qsens', 2, 'm->cv_znQS[j][is]', 'CVodeGetQuadSens(m, &tr, d)'),
                        ('qsens1', 2, 'm->cv_znQS[j][is]', 'CVodeGetQuadSens1(m, &tr, 1, d[1]) + CVodeGetQuadSens1(m, &tr, 0, d[0])')):
    T += fn('h_ret_' + nm, RET % dict(ns=ns, z=z, zz=ZZ, call=call))
# legality of the arguments
BAD = '''  SUNContext c = ctx_(); int q = vp_int(1, 3), k = vp_int(-1, q + 1); CVodeMem m = make(CV_BDF, 1, 1, c); N_Vector d[NS]; double o[NS];
  double h = vp_real(0.1, 2), hu = vp_real(0.1, 2), t = vp_real(-9, 9), tn = vp_real(-3, 3); if (vp_int(0, 1)) { h = -h; hu = -hu; }
  m->cv_q = q; m->cv_h = h; m->cv_hu = hu; m->cv_tn = tn; m->cv_tretlast = t;
  for (int i = 0; i < NS; i++) { d[i] = vec(1, c); o[i] = P(d[i])[0]; }
  int r = %s;
  int far = hu > 0 ? (t > tn + 1e-9 || t < tn - hu - 1e-9) : (t < tn - 1e-9 || t > tn - hu + 1e-9);
  int in = hu > 0 ? (t <= tn && t >= tn - hu) : (t >= tn && t <= tn - hu);
  if (k < 0 || k > q) IEQ("bad-k", r, CV_BAD_K);
  else if (far) IEQ("bad-t", r, CV_BAD_T);
  else if (in) IEQ("good", r, CV_SUCCESS);
  else TRUE_("slack", r == CV_SUCCESS || r == CV_BAD_T);
  if (r != CV_SUCCESS) { TRUE_("reported", err_n > 0 && err_code == r); for (int i = 0; i < NS; i++) SAME("untouched", P(d[i])[0], o[i]); }
  else IEQ("messages", err_n, 0);
'''
for nm, (feat, ns, z, call) in W.items():
    T += fn('h_bad_' + nm, BAD % inst(call.split(' + ')[0], 't', 'k'))
T += fn('h_bad_args', '''  SUNContext c = ctx_(); CVodeMem m = make(CV_BDF, 1, 1, c), e = make(CV_BDF, 1, 0, c); N_Vector d[NS]; double tr;
  for (int i = 0; i < NS; i++) d[i] = vec(1, c);
  m->cv_q = e->cv_q = 1; m->cv_h = e->cv_h = m->cv_hu = e->cv_hu = 1;
  IEQ("null-mem", CVodeGetDky(NULL, 0, 0, d[0]), CV_MEM_NULL); IEQ("null-mem-q", CVodeGetQuadDky(NULL, 0, 0, d[0]), CV_MEM_NULL); IEQ("null-mem-s", CVodeGetSensDky(NULL, 0, 0, d), CV_MEM_NULL);
  IEQ("null-mem-s1", CVodeGetSensDky1(NULL, 0, 0, 0, d[0]), CV_MEM_NULL); IEQ("null-mem-qs", CVodeGetQuadSensDky(NULL, 0, 0, d), CV_MEM_NULL); IEQ("null-mem-qs1", CVodeGetQuadSensDky1(NULL, 0, 0, 0, d[0]), CV_MEM_NULL);
  IEQ("null-mem-gq", CVodeGetQuad(NULL, &tr, d[0]), CV_MEM_NULL); IEQ("null-mem-gs", CVodeGetSens(NULL, &tr, d), CV_MEM_NULL); IEQ("null-mem-gs1", CVodeGetSens1(NULL, &tr, 0, d[0]), CV_MEM_NULL);
  IEQ("null-mem-gqs", CVodeGetQuadSens(NULL, &tr, d), CV_MEM_NULL); IEQ("null-mem-gqs1", CVodeGetQuadSens1(NULL, &tr, 0, d[0]), CV_MEM_NULL);
  IEQ("null-dky", CVodeGetDky(m, 0, 0, NULL), CV_BAD_DKY); IEQ("null-dky-q", CVodeGetQuadDky(m, 0, 0, NULL), CV_BAD_DKY); IEQ("null-dky-s", CVodeGetSensDky(m, 0, 0, NULL), CV_BAD_DKY);
  IEQ("null-dky-s1", CVodeGetSensDky1(m, 0, 0, 0, NULL), CV_BAD_DKY); IEQ("null-dky-qs", CVodeGetQuadSensDky(m, 0, 0, NULL), CV_BAD_DKY); IEQ("null-dky-qs1", CVodeGetQuadSensDky1(m, 0, 0, 0, NULL), CV_BAD_DKY);
  int is = vp_int(-1, NS);
  IEQ("is", CVodeGetSensDky1(m, 0, 0, is, d[0]), is < 0 || is >= NS ? CV_BAD_IS : CV_SUCCESS); IEQ("is-q", CVodeGetQuadSensDky1(m, 0, 0, is, d[0]), is < 0 || is >= NS ? CV_BAD_IS : CV_SUCCESS);
  IEQ("is1", CVodeGetSens1(m, &tr, is, d[0]), is < 0 || is >= NS ? CV_BAD_IS : CV_SUCCESS); IEQ("is1-q", CVodeGetQuadSens1(m, &tr, is, d[0]), is < 0 || is >= NS ? CV_BAD_IS : CV_SUCCESS);
  IEQ("no-quad", CVodeGetQuadDky(e, 0, 0, d[0]), CV_NO_QUAD); IEQ("no-sens", CVodeGetSensDky1(e, 0, 0, 0, d[0]), CV_NO_SENS); IEQ("no-qs", CVodeGetQuadSensDky1(e, 0, 0, 0, d[0]), CV_NO_QUADSENS);
  IEQ("no-quad-g", CVodeGetQuad(e, &tr, d[0]), CV_NO_QUAD); IEQ("no-sens-g", CVodeGetSens1(e, &tr, 0, d[0]), CV_NO_SENS); IEQ("no-qs-g", CVodeGetQuadSens1(e, &tr, 0, d[0]), CV_NO_QUADSENS);
''')


def generate(tier):
    return {'c40.c': T}
