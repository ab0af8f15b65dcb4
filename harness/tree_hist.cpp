// Operation histories on the point tree: every stored point keeps its coordinates, extra entries, normal and attributes,
// is stored exactly once, and queries stay exact.
#include "sxh.h"
#include "MeshingSmartTree.h"
#ifndef DIM
#define DIM 1
#endif
#ifndef LEN
#define LEN 4
#endif
#ifndef G
#define G 4
#endif
#define EX (DIM + 1)
static double P[16][EX], N[16][DIM]; static size_t A[16][3]; static size_t n = 0;
static size_t seen[16];
static void check_all(MeshingSmartTree& T) {
  sx_check(T.get_num_tree_points() == n, "number of stored points");
  for (size_t i = 0; i < n; i++) seen[i] = 0;
  for (size_t i = 0; i < n; i++) {
    size_t* a = T.get_tree_point_attrib(i);
    sx_check(a != 0 && a[0] == 3, "attribute list lost");
    size_t id = a[1]; sx_check(id < n, "attribute of a stored point changed"); seen[id]++;
    sx_check(seen[id] == 1, "a point is stored twice");
    sx_check(a[2] == A[id][2], "attribute of a stored point changed");
    double y[EX]; T.get_tree_point(i, y); double z[EX]; T.get_tree_point(i, EX, z);
    for (int d = 0; d < DIM; d++) { sx_check_eq(y[d], P[id][d], "coordinates of a stored point changed"); sx_check_eq(z[d], P[id][d], "coordinates of a stored point changed"); sx_check_eq(T.get_tree_point(i)[d], P[id][d], "coordinates of a stored point changed"); sx_check_eq(T.get_tree_point_normal(i)[d], N[id][d], "normal of a stored point changed"); }
    sx_check_eq(z[DIM], P[id][DIM], "extra entry of a stored point changed"); sx_check_eq(T.get_tree_point_attrib(i, (size_t)0), P[id][DIM], "extra entry of a stored point changed");
  }
  // reachability: a huge ball reports every index exactly once
  double c[DIM]; for (int d = 0; d < DIM; d++) c[d] = 0;
  size_t cap = 4, num = 0; size_t* out = new size_t[cap]; T.get_tree_points_in_sphere(c, 1e3, num, out, cap);
  sx_check(num == n, "a stored point is unreachable or reported twice");
  for (size_t i = 0; i < n; i++) seen[i] = 0;
  for (size_t i = 0; i < num; i++) { sx_check(out[i] < n && !seen[out[i]], "a stored point is unreachable or reported twice"); seen[out[i]] = 1; }
}
void sx_main() {
  MeshingSmartTree T(DIM);
  long last = -1;
  for (int s = 0; s < LEN; s++) {
    long op = n == 0 ? 0 : sx_choice(nm("op", s), 5);
    if (op == last && op != 0 && op != 3) { sx_assume(0); }
    last = op;
    if (op == 0) {
      for (int d = 0; d < DIM; d++) { P[n][d] = sx_grid(nm("p", s, d), -G, G, 1.0); N[n][d] = sx_grid(nm("n", s, d), -2, 2, 1.0); }
      P[n][DIM] = sx_grid(nm("e", s), 0, 9, 1.0); A[n][0] = 3; A[n][1] = n; A[n][2] = sx_int(nm("a", s), 0, 100);
      T.add_tree_point(EX, P[n], N[n], A[n]); n++;
    } else if (op == 1) T.kd_tree_build_balanced();
    else if (op == 2) T.re_enumerate_points_for_better_memory_access();
    else if (op == 3) {   // update the extra entry and an attribute of one point
      long i = n == 1 ? 0 : sx_choice(nm("w", s), n); size_t id = T.get_tree_point_attrib(i)[1]; if (id >= n) id = 0;
      double v = sx_grid(nm("v", s), 0, 9, 1.0); size_t b = sx_int(nm("b", s), 0, 100);
      T.set_tree_point_attrib(i, (size_t)0, v); T.set_tree_point_attrib(i, (size_t)1, b); P[id][DIM] = v; A[id][2] = b;
    } else { T.clear_memory(); n = 0; }
    if (n) check_all(T); else sx_check(T.get_num_tree_points() == 0, "cleared tree is empty");
    sx_cover(op == 0 ? "add" : op == 1 ? "balance" : op == 2 ? "renumber" : op == 3 ? "update" : "clear");
  }
  if (n) {
    double x[DIM]; for (int d = 0; d < DIM; d++) x[d] = sx_grid(nm("x", d), -G, G, 1.0);
    size_t ic = n; double dc = 1e9; T.get_closest_tree_point(x, ic, dc);
    sx_check(ic < n, "nearest query on a non-empty tree");
    double s = 0; for (int d = 0; d < DIM; d++) { double t = T.get_tree_point(ic)[d] - x[d]; s += t * t; }
    for (size_t i = 0; i < n; i++) { double q = 0; for (int d = 0; d < DIM; d++) { double t = P[i][d] - x[d]; q += t * t; } sx_check_le(s, q + 1e-6, "nearest query is not exact after this history"); }
    sx_observe(n);
  }
}
