// Storage growth and automatic re-balancing: NC concrete points around a symbolic one, inserted at a chosen time.
#include "sxh.h"
#include "MeshingSmartTree.h"
#ifndef NC
#define NC 104
#endif
static double P[NC + 2][2]; static size_t A[NC + 2][3]; static unsigned char hit[NC + 2];
void sx_main() {
  MeshingSmartTree T(1); size_t n = 0; static const int when[] = {0, 57, 98, 99, 100};
  long w = when[sx_choice("when", 5)]; long order = sx_choice("order", 3);
  double s = sx_grid("p", -2, 2 * NC + 2, 1.0);
  for (int k = 0; k <= NC; k++) {
    if (k == w) { P[n][0] = s; } else { long q = order == 0 ? k : order == 1 ? NC - k : (k * 37) % (NC + 1); P[n][0] = 2.0 * q; }
    P[n][1] = k; A[n][0] = 3; A[n][1] = n; A[n][2] = 7 * n;
    double nn = 0.5 * k; T.add_tree_point(2, P[n], &nn, A[n]); n++;
  }
  sx_check(T.get_num_tree_points() == n, "number of stored points");
  for (size_t i = 0; i < n; i++) {
    sx_check_eq(T.get_tree_point(i)[0], P[i][0], "coordinates of a stored point changed"); sx_check_eq(T.get_tree_point_attrib(i, (size_t)0), P[i][1], "extra entry of a stored point changed");
    sx_check(T.get_tree_point_attrib(i)[1] == i && T.get_tree_point_attrib(i)[2] == 7 * i, "attribute of a stored point changed"); sx_check_eq(T.get_tree_point_normal(i)[0], 0.5 * i, "normal of a stored point changed");
  }
  double c = 0; size_t cap = 1, num = 0; size_t* out = new size_t[cap]; T.get_tree_points_in_sphere(&c, 1e4, num, out, cap);
  sx_check(num == n, "a stored point is unreachable or reported twice");
  for (size_t i = 0; i < num; i++) { sx_check(out[i] < n && !hit[out[i]], "a stored point is unreachable or reported twice"); hit[out[i]] = 1; }
  size_t ic = n; double dc = 1e9; T.get_closest_tree_point(&s, ic, dc);
  sx_check(ic < n, "nearest query on a non-empty tree"); sx_check_eq(T.get_tree_point(ic)[0], s, "nearest query is not exact after this history"); sx_check_eq(dc, 0, "distance to a stored point");
  sx_cover("done"); sx_observe(order);
}
