// Sorting (with companion arrays) and growable lists.
#include "sxh.h"
#include "MeshingMemoryHandler.h"
#include "MeshingSmartTree.h"
#ifndef N
#define N 4
#endif
static size_t X[N + 2], Y[N + 2]; static double D[N + 2], U[N + 2], V[N + 2]; static size_t I[N + 2];
void sx_main() {
  MeshingMemoryHandler M; MeshingSmartTree T(1);
  long what = sx_choice("what", 5);
  if (what < 3 + 1) {
    // sort the window [l, r] of an array of length N+2; the rest must stay untouched
    long l = sx_choice("l", 2), r = N - 1 + sx_choice("r", 2); 
    static size_t X0[N + 2]; static double D0[N + 2];
    for (int i = 0; i < N + 2; i++) {
      I[i] = 100 + i; U[i] = 1000 + i; V[i] = 2000 + i;
      if (what == 0 || what == 1) { X[i] = sx_int(nm("x", i), 0, 2 * N); X0[i] = X[i]; } else { D[i] = sx_grid(nm("d", i), -N, N, 0.5); D0[i] = D[i]; }
    }
    if (what == 0) M.quicksort(X, (size_t)l, (size_t)r);
    else if (what == 1) M.quicksort(X, I, (size_t)l, (size_t)r);
    else if (what == 2) M.quicksort(D, I, (size_t)l, (size_t)r);
    else T.quicksort(D, U, V, I, (size_t)l, (size_t)r);
    if (what == 0) { // same multiset: count occurrences of each original value
      for (int i = 0; i < N + 2; i++) { int a = 0, b = 0; 
        long s = 0, t = 0; for (int k = l; k <= r; k++) { s += X0[k] == X0[i]; t += X[k] == X0[i]; } sx_check(s == t, "sorting changed the multiset of keys"); if (i >= 1) break; }
      size_t s = 0, t = 0; for (int k = l; k <= r; k++) { s += X0[k]; t += X[k]; } sx_check(s == t, "sorting changed the multiset of keys");
      for (int k = 0; k < N + 2; k++) if (k < l || k > r) sx_check(X[k] == X0[k], "sorting touched an entry outside the range");
      for (int k = l; k < r; k++) sx_check(X[k] <= X[k + 1], "keys are not in ascending order");
    } else {
      int used[N + 2]; for (int i = 0; i < N + 2; i++) used[i] = 0;
      for (int k = 0; k < N + 2; k++) {
        size_t o = I[k] - 100; sx_check(o < N + 2 && !used[o], "companion entries are not a permutation"); used[o] = 1;
        if (k < l || k > r) sx_check(o == (size_t)k, "sorting touched an entry outside the range");
        if (what == 1) sx_check(X[k] == X0[o], "companion entry separated from its key"); else sx_check_eq(D[k], D0[o], "companion entry separated from its key");
        if (what == 3) { sx_check_eq(U[k], 1000 + (double)o, "companion entry separated from its key"); sx_check_eq(V[k], 2000 + (double)o, "companion entry separated from its key"); }
      }
      for (int k = l; k < r; k++) if (what == 1) sx_check(X[k] <= X[k + 1], "keys are not in ascending order"); else sx_check_le(D[k], D[k + 1], "keys are not in ascending order");
    }
  } else {
    long cap0 = 1 + sx_choice("cap", 3), m = 1 + sx_choice("m", 7), kind = sx_choice("kind", 5);
    size_t cap = cap0, num = 0; size_t vals[8]; for (int i = 0; i < m; i++) vals[i] = sx_int(nm("v", i), 0, 1000000);
    static double dd[8]; static bool bb[8]; static size_t ss[8];
    size_t* A = new size_t[cap]; double* B = new double[cap]; double** C = new double*[cap]; size_t** E = new size_t*[cap]; bool** F = new bool*[cap];
    for (int i = 0; i < m; i++) {
      if (kind == 0) M.add_entry(vals[i], num, A, cap); else if (kind == 1) M.add_entry((double)vals[i], num, B, cap); else if (kind == 2) M.add_entry(&dd[i], num, C, cap); else if (kind == 3) M.add_entry(&ss[i], num, E, cap); else M.add_entry(&bb[i], num, F, cap);
      sx_check(num == (size_t)i + 1, "list length after an insertion"); sx_check(cap > num || cap >= num, "capacity covers the list");
      for (int k = 0; k <= i; k++) sx_check(kind == 0 ? A[k] == vals[k] : kind == 1 ? B[k] == (double)vals[k] : kind == 2 ? C[k] == &dd[k] : kind == 3 ? E[k] == &ss[k] : F[k] == &bb[k], "a stored entry changed");
    }
    sx_cover("list");
  }
  sx_cover(what == 0 ? "sort" : what == 1 ? "sortI" : what == 2 ? "sortD" : what == 3 ? "sort4" : "grow"); sx_observe(what);
}
