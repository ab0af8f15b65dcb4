// Range queries of the point tree: complete on the closed ball, nothing outside the (toleranced) ball, no duplicates.
#include "sxh.h"
#include "MeshingSmartTree.h"
#ifndef DIM
#define DIM 1
#endif
#ifndef NP
#define NP 4
#endif
#ifndef RMAX
#define RMAX 3
#endif
#ifndef G
#define G 8
#endif
static double P[NP][DIM], X[DIM];
void sx_main() {
  MeshingSmartTree T(DIM); T.disable_auto_balance();
  for (int i = 0; i < NP; i++) for (int d = 0; d < DIM; d++) P[i][d] = sx_grid(nm("p", i, d), -G, G, 1.0);
  for (int d = 0; d < DIM; d++) X[d] = sx_grid(nm("x", d), -G, G, 1.0);
  double r = 1 + sx_choice("r", RMAX);
  for (int i = 0; i < NP; i++) T.add_tree_point(DIM, P[i], 0, 0);
  if (sx_choice("balanced", 2)) T.kd_tree_build_balanced();
  size_t cap = sx_choice("cap", 2) + 1, num = 0; size_t* out = new size_t[cap];
  T.get_tree_points_in_sphere(X, r, num, out, cap);
  sx_check(num <= NP && num <= cap, "number of reported points is sane");
  size_t hits[NP]; for (int i = 0; i < NP; i++) hits[i] = 0;
  for (size_t k = 0; k < num; k++) { sx_check(out[k] < NP, "reported index is a tree point"); hits[out[k]]++; }
  for (int i = 0; i < NP; i++) {
    sx_check(hits[i] <= 1, "a point is reported twice");
    double s = 0; for (int d = 0; d < DIM; d++) { double t = P[i][d] - X[d]; s += t * t; }
    if (hits[i]) sx_check_le(s, r * r * (1 + 1e-3), "a reported point lies outside the ball");
    else sx_check_le(r * r, s - 0.5, "a point of the closed ball is missing");
  }
  sx_cover(num == 0 ? "empty" : num == NP ? "all" : "some"); sx_observe(num);
}
