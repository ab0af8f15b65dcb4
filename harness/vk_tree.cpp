// Flat kd-tree of the Voronoi mesher: nearest (optionally ahead of a direction), by stored point, ball queries; before and after re-enumeration.
#include "sxh.h"
#include "MeshingVoronoiMesher.h"
#ifndef NP
#define NP 4
#endif
#ifndef G
#define G 6
#endif
#if LINE
enum { D = 3 };
#else
enum { D = 2 };
#endif
static double P[NP * D], Q[NP * D], X[D], E[D];
static double rank2(const double* a, const double* b) { double s = 0; for (int d = 0; d < D; d++) s += (a[d] - b[d]) * (a[d] - b[d]); return s; }
void sx_main() {
#if LINE
  if (sx_choice("many", 2)) {   // result list growth: 23 points, symbolic ball
    MeshingVoronoiMesher V; double A[23 * 3], q = sx_grid("q", -8, 60, 0.5), x[3] = {q, 0, 0}, r = sx_grid("r", 1, 30, 1.0); size_t o = SIZE_MAX, rt[23], lf[23], num = 0, *out = 0;
    for (int i = 0; i < 23; i++) { A[i * 3] = (i * 7) % 23; A[i * 3 + 1] = A[i * 3 + 2] = 0; }
    V.build_balanced_kd_tree(23, 3, A, o, rt, lf); V.get_tree_points_in_sphere(23, 3, A, o, rt, lf, x, r, num, out); int hit[23]; for (int i = 0; i < 23; i++) hit[i] = 0;
    sx_check(num <= 23, "too many points reported"); for (size_t k = 0; k < num; k++) { sx_check(out[k] < 23 && !hit[out[k]], "unknown or repeated point reported"); hit[out[k]] = 1; }
    for (int i = 0; i < 23; i++) { double h = fabs(q - A[i * 3]); if (hit[i]) sx_check_le(h, r + 0.1, "a point outside the ball is reported"); else sx_check_le(r + 0.1, h, "a point of the ball is missing"); }
    sx_cover("many"); return;
  }
#endif
  MeshingVoronoiMesher V; long n = 1 + sx_choice("n", NP), op = sx_choice("op", 4);
#if LINE
  static const double U[3] = {1, 2, 2};
  for (int i = 0; i < n; i++) { double s = sx_grid(nm("s", i), 0, G, 1.0); for (int d = 0; d < D; d++) P[i * D + d] = s * U[d]; }
  double q = op == 2 ? 0 : sx_grid("q", -1, G + 1, 0.5); for (int d = 0; d < D; d++) X[d] = q * U[d];
#else
  for (int i = 0; i < n; i++) for (int d = 0; d < D; d++) P[i * D + d] = sx_grid(nm("p", i, d), 0, G, 1.0);
  if (op != 2) for (int d = 0; d < D; d++) X[d] = sx_grid(nm("q", d), 0, G, 1.0);
#endif
  size_t origin = SIZE_MAX, right[NP], left[NP]; V.build_balanced_kd_tree(n, D, P, origin, right, left);
  sx_check(origin < (size_t)n, "tree origin");
  double* pts = P;
#if LINE
  size_t old_[NP], new_[NP];
  if (sx_choice("renum", 2)) {
    V.re_enumerate_points_for_better_memory_access(n, D, P, origin, right, left, Q, old_, new_); pts = Q; int seen[NP]; for (int i = 0; i < n; i++) seen[i] = 0;
    for (int i = 0; i < n; i++) { sx_check(old_[i] < (size_t)n && !seen[old_[i]], "re-enumeration is no permutation"); seen[old_[i]] = 1; sx_check(new_[old_[i]] == (size_t)i, "old and new index disagree"); for (int d = 0; d < D; d++) sx_check_eq(Q[i * D + d], P[old_[i] * D + d], "re-enumerated point differs"); }
  }
#endif
  if (op == 3) {
    double r = 1 + sx_choice("r", 3), rr = r;
#if LINE
    rr = 3 * r;
#endif
    size_t num = 55, *out = 0; V.get_tree_points_in_sphere(n, D, pts, origin, right, left, X, rr, num, out); int hit[NP]; for (int i = 0; i < n; i++) hit[i] = 0;
    sx_check(num <= (size_t)n, "too many points reported"); sx_check(num > 0 || out == 0, "empty result");
    for (size_t k = 0; k < num; k++) { sx_check(out[k] < (size_t)n && !hit[out[k]], "unknown or repeated point reported"); hit[out[k]] = 1; }
    for (int i = 0; i < n; i++) { double d2 = rank2(X, pts + i * D); if (hit[i]) sx_check_le(d2, rr * rr + 0.01, "a point outside the ball is reported"); else sx_check_le(rr * rr + 0.01, d2, "a point of the ball is missing"); }
    sx_cover(num ? "ball" : "emptyball"); sx_observe(num); return;
  }
  size_t c = 99; double dst = sx_choice("bound", 2) ? 3.0 : DBL_MAX, bound = dst; long self = -1; bool dir = false; int rc;
  if (op > 0 && sx_choice("dir", 2)) { dir = true; static const double DV[4][3] = {{1, 0, 0}, {-1, -1, 0.5}, {0, -1, 0}, {2, -1, -1}}; long k = sx_choice("e", 4); for (int d = 0; d < D; d++) E[d] = DV[k][d]; }
  if (op == 0) rc = V.get_closest_tree_point(n, D, pts, origin, right, left, X, c, dst);
  else if (op == 1) rc = V.get_closest_tree_point(n, D, pts, origin, right, left, X, dir ? E : (double*)0, c, dst);
  else { self = sx_choice("self", n); for (int d = 0; d < D; d++) X[d] = pts[self * D + d]; rc = V.get_closest_tree_point(n, D, pts, origin, right, left, (size_t)self, dir ? E : (double*)0, c, dst); }
  sx_check(rc == 0, "return code"); bool any = false; double best = 0;
  for (int i = 0; i < n; i++) {
    if (i == self) continue; double dot = 0; if (dir) for (int d = 0; d < D; d++) dot += (pts[i * D + d] - X[d]) * E[d];
    if (dot < 0) continue; double d2 = rank2(X, pts + i * D); if (bound < 100 && !(d2 < bound * bound)) continue;
    if (!any || d2 < best) best = d2; any = true;
  }
  if (!any) { sx_check(c == (size_t)n, "a point is reported although none is admissible"); sx_check_eq(dst, bound, "distance bound changed without a result"); sx_cover("none"); }
  else {
    sx_check(c < (size_t)n && (long)c != self, "no admissible point reported"); sx_check_near(dst * dst, best, 1e-9, "not the minimum distance"); sx_check_near(rank2(X, pts + c * D), best, 1e-9, "reported point is not the nearest");
    if (dir) { double dot = 0; for (int d = 0; d < D; d++) dot += (pts[c * D + d] - X[d]) * E[d]; sx_check_sign(dot, "reported point lies behind the direction"); }
    sx_cover(dir ? "ahead" : self >= 0 ? "self" : "found");
  }
  size_t c0 = 5; double d0 = 1; sx_check(V.get_closest_tree_point(0, D, pts, SIZE_MAX, right, left, X, c0, d0) == 1 && c0 == 0, "empty set");
  sx_observe(dst < 1e30 ? dst : -1);
}
