// Harness API.  The same harness source is built twice: instrumented (symbolic) and natively (replay).
#ifndef SX_H
#define SX_H
#include <cstddef>
#include <cstdint>
extern "C" {
// Inputs.  sx_real: any real in [lo,hi]; sx_grid: k*scale with integer k in [lo,hi]; sx_int: integer in [lo,hi].
double sx_real(const char* name, double lo, double hi);
double sx_grid(const char* name, long lo, long hi, double scale);
long sx_int(const char* name, long lo, long hi);
// integer choice in [0,n) that is made concrete at once (the solver enumerates feasible values)
long sx_choice(const char* name, long n);
void sx_assume(int cond);
void sx_check(int cond, const char* msg);
// solver query pc /\ not(a<=b) without splitting the path
void sx_check_le(double a, double b, const char* msg);
void sx_check_eq(double a, double b, const char* msg);
void sx_check_near(double a, double b, double tol, const char* msg);
// disjunction without splitting the path: sx_any_begin, sx_any(a) per disjunct a <= 0, sx_any_check
void sx_any_begin(void); void sx_any(double a); void sx_any_check(const char* msg);
void sx_check_sign(double a, const char* msg);   // a >= 0
void sx_observe(double v);             // recorded for witness cross-validation (symbolic run vs native run)
void sx_omp_threads(int n);            // number of modelled OpenMP threads (symbolic build)
void sx_cover(const char* what);            // reachability witness
int sx_symbolic(void);                      // 1 in the symbolic build
void sx_option(const char* key, long value); // "uninit"=1, "steps"=N, "rlimit"=N
// drop the symbolic part of a value on purpose (value pinned to the current model); reported as a bound
long sx_pin_int(long v);
void sx_main(void);
}
#endif
