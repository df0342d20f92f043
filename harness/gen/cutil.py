"""helpers for C harnesses"""
INC = '''#include "vp.h"
#include <stdio.h>
#include <sundials/sundials_types.h>
#include <sundials/sundials_math.h>
#include <sundials/sundials_context.h>
#include <sundials/sundials_nvector.h>
#include <nvector/nvector_serial.h>
static SUNContext ctx_(void) { SUNContext c = NULL; SUNContext_Create(NULL, &c); return c; }
static void fill(double *d, int n, double lo, double hi) { for (int i = 0; i < n; i++) d[i] = vp_real(lo, hi); }
static void cpy(double *d, const double *s, int n) { for (int i = 0; i < n; i++) d[i] = s[i]; }
'''


def fn(name, body):
    return 'void %s(void)\n{\n%s\n}\n\n' % (name, body)
# CVODES harnesses: plain vector operations (the cases of the specialised ones are C30's subject), a silent error handler
CVINC = INC + '''
#include <cvodes/cvodes.h>
#include "cvodes_impl.h"
#define P(v) N_VGetArrayPointer(v)
static void pl_sum(realtype a, N_Vector x, realtype b, N_Vector y, N_Vector z) { for (int i = 0; i < N_VGetLength(z); i++) P(z)[i] = a * P(x)[i] + b * P(y)[i]; }
static void pl_scale(realtype a, N_Vector x, N_Vector z) { for (int i = 0; i < N_VGetLength(z); i++) P(z)[i] = a * P(x)[i]; }
static N_Vector vec(int n, SUNContext c) { N_Vector v = N_VNew_Serial(n, c); v->ops->nvlinearsum = pl_sum; v->ops->nvscale = pl_scale; for (int i = 0; i < n; i++) P(v)[i] = vp_real(-9, 9); return v; }
static int err_n, err_code; 
static void eh(int code, const char *mod, const char *f, char *msg, void *d) { err_n++; err_code = code; }
'''
