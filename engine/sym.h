/* Interface between harnesses and the symbolic executor (or, natively, the replayer in native.cc). */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
long sym_range_(const char *name, long lo, long hi);	/* any integer in [lo, hi] */
double sym_fix_(const char *name, long lo, long hi, int k);	/* any N/2^k with N in [lo, hi] */
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_fail(const char *msg) __attribute__((noreturn));
void sym_cover(const char *name);	/* reachability witness */
void sym_finding_(const char *id, int c);
void sym_exit_ok(int mode);	/* 1: from here on exit() and abort() end the path without being a violation */
int sym_native(void);
void sym_done(void) __attribute__((noreturn));
void sym_debug(const char *name, long v);
long sym_conc(long v);	/* one path per feasible value */
int sym_issym(long v);
void sym_steps(long n);	/* the code must get done within n more steps */
long sym_ite(int c, long a, long b);	/* branch-free choice */
void sym_main(void);
#ifdef __cplusplus
}
#endif
#define sym_range(n, lo, hi) sym_range_(n, lo, hi)
#define sym_int(n, lo, hi) ((int) sym_range_(n, lo, hi))
#define sym_bool(n) ((int) sym_range_(n, 0, 1))
#define sym_check(c) sym_assert(!!(c), #c)
