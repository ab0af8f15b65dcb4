// Nearest-neighbour queries of the point tree equal brute force.
#include "sxh.h"
#include "MeshingSmartTree.h"
#ifndef DIM
#define DIM 1
#endif
#ifndef NP
#define NP 4
#endif
#ifndef G
#define G 8
#endif
static double P[NP][DIM], X[DIM];
static double d2(const double* a, const double* b) { double s = 0; for (int d = 0; d < DIM; d++) { double t = a[d] - b[d]; s += t * t; } return s; }
void sx_main() {
  MeshingSmartTree T(DIM); 
  for (int i = 0; i < NP; i++) for (int d = 0; d < DIM; d++) P[i][d] = sx_grid(nm("p", i, d), -G, G, 1.0);
  for (int d = 0; d < DIM; d++) X[d] = sx_grid(nm("x", d), -G, G, 1.0);
  if (sx_choice("build", 2) == 0) {
    T.disable_auto_balance();
    for (int i = 0; i < NP; i++) T.add_tree_point(DIM, P[i], 0, 0);
  } else {
    T.disable_auto_balance();
    for (int i = 0; i < NP; i++) T.add_tree_point(DIM, P[i], 0, 0);
    T.kd_tree_build_balanced();
  }
  size_t mode = sx_choice("mode", 3);
  size_t c = 777; double h = DBL_MAX; bool use[NP]; for (int i = 0; i < NP; i++) use[i] = true;
  if (mode == 0) T.get_closest_tree_point(X, c, h);
  else if (mode == 1) { size_t q = sx_choice("q", NP); use[q] = false; for (int d = 0; d < DIM; d++) X[d] = P[q][d]; T.get_closest_tree_point(q, c, h); }
  else { size_t mask = sx_choice("excl", 1 << NP); size_t ex[NP], n = 0; for (int i = 0; i < NP; i++) if (mask >> i & 1) { ex[n++] = i; use[i] = false; } T.get_closest_tree_point(X, n, ex, c, h); }
  bool any = false; for (int i = 0; i < NP; i++) any = any || use[i];
  if (!any) { sx_check(h == DBL_MAX, "no admissible point: distance must stay unset"); sx_cover("none"); return; }
  sx_check(c < NP && use[c], "returned index is an admissible tree point");
  double D = d2(P[c], X);
  for (int i = 0; i < NP; i++) if (use[i]) sx_check_le(D, d2(P[i], X), "a strictly closer tree point exists");
  sx_check_near(h * h, D, 1e-9, "reported distance is the distance to the reported point");
  sx_cover("found"); sx_observe(h); sx_observe(D);
}
