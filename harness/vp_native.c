/* native counterpart of the harness intrinsics: replays one point */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static int ac, ai;
static char **av;
static int expect_stop, ended;

static void endmsg(const char *s) { if (!ended) { ended = 1; printf("VPEND %s\n", s); fflush(stdout); } }
static void at_exit(void) { endmsg(expect_stop ? "expected-stop" : "stop"); }
static void out(const char *s) { endmsg(s); _Exit(0); }
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

static double draw_real(void)
{
  if (ai >= ac || av[ai][0] != 'r') out("draws");
  uint64_t u = strtoull(av[ai++] + 2, 0, 16);
  double d; memcpy(&d, &u, 8);
  return d;
}
double vp_real(double lo, double hi)
{
  double d = draw_real();
  if (!(d >= lo && d <= hi)) out("assume");
  return d;
}
double vp_any(void) { return draw_real(); }
double vp_unknown(void) { return draw_real(); }
int vp_int(int lo, int hi)
{
  if (ai >= ac || av[ai][0] != 'i') out("draws");
  int v = atoi(av[ai++] + 2);
  if (v < lo || v > hi) out("assume");
  return v;
}
void vp_assume(int c) { if (!c) out("assume"); }
void vp_true(const char *id, int n, int c)
{ printf("VPC %.*s true %d %x %x\n", n, id, c != 0, c != 0, 1); fflush(stdout); }
void vp_bits(const char *id, int n, double a, double b)
{
  int ok = bits(a) == bits(b) || (isnan(a) && isnan(b));
  printf("VPC %.*s bits %d %016lx %016lx\n", n, id, ok, bits(a), bits(b)); fflush(stdout);
}
void vp_near(const char *id, int n, double a, double b, double tol)
{
  int ok;
  if (isnan(a) || isnan(b)) ok = isnan(a) && isnan(b);
  else if (isinf(a) || isinf(b)) ok = a == b;
  else ok = fabs(a - b) <= tol * (1 + fmax(fabs(a), fabs(b)));
  printf("VPC %.*s near %d %016lx %016lx\n", n, id, ok, bits(a), bits(b)); fflush(stdout);
}
void vp_inteq(const char *id, int n, int a, int b)
{ printf("VPC %.*s int %d %x %x\n", n, id, a == b, a, b); fflush(stdout); }
void vp_expect_stop(void) { expect_stop = 1; }
int vp_heap(void) { return 0; }

int main(int argc, char **argv)
{
  if (argc < 2) return 2;
  ac = argc; av = argv; ai = 2;
  atexit(at_exit);
  void (*f)(void) = (void (*)(void)) dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); _Exit(3); }
  f();
  endmsg("return");
  return 0;
}
