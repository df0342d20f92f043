/* harness intrinsics for C harnesses (see vp_native.c for what they mean) */
#ifndef VP_H
#define VP_H
#include <math.h>
#include <stdlib.h>
#include <string.h>
double vp_real(double lo, double hi);
double vp_any(void);
double vp_unknown(void);
int vp_int(int lo, int hi);
void vp_assume(int c);
void vp_true(const char *id, int n, int c);
void vp_bits(const char *id, int n, double a, double b);
void vp_near(const char *id, int n, double a, double b, double tol);
void vp_inteq(const char *id, int n, int a, int b);
#define TRUE_(id, c) vp_true(id, (int) sizeof(id) - 1, (c))
#define SAME(id, a, b) vp_bits(id, (int) sizeof(id) - 1, (a), (b))
#define NEAR(id, a, b) vp_near(id, (int) sizeof(id) - 1, (a), (b), 1e-9)
#define NEART(id, a, b, t) vp_near(id, (int) sizeof(id) - 1, (a), (b), (t))
#define IEQ(id, a, b) vp_inteq(id, (int) sizeof(id) - 1, (int) (a), (int) (b))
#define assume(c) vp_assume(c)
#define H(name) void name(void)
#endif
