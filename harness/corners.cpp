// Corner spheres: one per distinct sharp corner, with the largest radii that respect every size limit and the Lipschitz bound.
#include "sxh.h"
#include "MeshingVoroCrustSampler.h"
#ifndef NC
#define NC 3
#endif
static int saved;
int MeshingSmartTree::save_tree_csv(std::string f, size_t d) { saved++; sx_check(f == "corner_spheres.csv" && d == 4, "file written"); return 0; }
static const double U[3] = {1, 2, 2}, W[3] = {2, 1, -2};
static void put(double* p, double s, double t) { for (int d = 0; d < 3; d++) p[d] = s * U[d] + t * W[d]; }
static double dsq(const double* a, const double* b) { double h = 0; for (int d = 0; d < 3; d++) h += (a[d] - b[d]) * (a[d] - b[d]); return h; }
void sx_main() {
  sx_option("steps", 20000000); saved = 0; MeshingVoroCrustSampler S(1); const double Lip = 0.25, TH = 0.9; long n = 1 + sx_choice("corners", NC), ord = sx_choice("order", 2); int what = sx_choice("arbitrary", 4); double TOL = sx_choice("tolerance", 2) ? 1.0 : 1e-6;
  // 5 model points in a plane, some of them sharp corners; points 1 and 4 are 0.75 apart
  double s = what == 0 ? sx_grid("s", -24, 24, 0.5) + 0.125 : 2.25; double Q[5][2] = {{0, 0}, {6, 1}, {s, 4}, {-3, -2}, {6.25, 1}}; static const int SEL[2][4] = {{1, 2, 4, 0}, {3, 2, 0, 1}}; double P[5][3]; double* pts[5]; for (int i = 0; i < 5; i++) { put(P[i], Q[i][0], Q[i][1]); pts[i] = P[i]; }
  size_t sel[4]; for (int i = 0; i < n; i++) sel[i] = SEL[ord][i];
  double nu[3], nw[3]; for (int d = 0; d < 3; d++) { nu[d] = U[d] / 3; nw[d] = W[d] / 3; }
  // sampled features: position, and normal or tangent along U or W; one of them anywhere along a line
  double fx = what == 1 ? sx_grid("f", -20, 20, 0.5) + 0.0625 : 3.5; int fk = what == 1 ? sx_choice("kind", 2) : 0; double far = sx_choice("far", 2) ? 60 : 9; double G[2][3][2] = {{{far, 3}, {-far, -7}, {1, far + 1}}, {{-far, 2}, {3, -far}, {far, far}}}; const double* GN[2][3] = {{nu, nw, nw}, {nw, nu, nw}}; G[fk][0][0] = fx; if (fk || what == 1) G[fk][0][1] = 2.5;
  MeshingSmartTree T[2]; double X[2][3][3]; for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) { put(X[k][i], G[k][i][0], G[k][i][1]); double x[4] = {X[k][i][0], X[k][i][1], X[k][i][2], 1}, nn[3] = {GN[k][i][0], GN[k][i][1], GN[k][i][2]}; size_t at[2] = {2, (size_t)i}; T[k].add_tree_point(4, x, nn, at); }
  MeshingSmartTree siz; double Z[2][4]; bool sf = sx_choice("sizing", 2); put(Z[0], 1, 1); Z[0][3] = what == 3 ? sx_grid("z", 1, 40, 0.125) : 3.25; put(Z[1], 5, 3); Z[1][3] = 1.5; if (sf) { for (int i = 0; i < 2; i++) siz.add_tree_point(4, Z[i], 0, 0); S._input_sizing_function = &siz; }
  double rmax = what == 2 ? sx_grid("rmax", 1, 80, 0.125) : 7.5; MeshingSmartTree cs;
  S.generate_corner_spheres(5, pts, n, sel, &T[0], &T[1], TOL, &cs, TH, rmax, Lip);
  std::vector<int> keep; for (int i = 0; i < n; i++) { bool dup = false; for (int j : keep) { double h = dsq(P[sel[i]], P[j]); if (h < TOL * TOL) dup = true; } if (!dup) keep.push_back(sel[i]); }
  size_t m = keep.size(); sx_check(cs.get_num_tree_points() == m, "number of corner spheres"); if (cs.get_num_tree_points() != m) return; double cap[4]; sx_check(saved == 1, "the spheres are written once");
  for (size_t i = 0; i < m; i++) { double c = rmax; const double* x = P[keep[i]];
    for (int k = 0; k < 2; k++) for (int j = 0; j < 3; j++) { double h = dsq(x, X[k][j]), dot = 0; for (int d = 0; d < 3; d++) dot += (x[d] - X[k][j][d]) * GN[k][j][d]; if (h < TOL * TOL) continue; double q = k ? 0.81 * h - dot * dot : dot * dot - 0.19 * h; sx_assume(q > 1e-6 * h || q < -1e-6 * h); if (q > 0) c = fmin(c, 0.4 * sqrt(h)); }
    if (sf) { double a = dsq(x, Z[0]), b = dsq(x, Z[1]); sx_assume(a < b - 1e-6 || a > b + 1e-6); c = fmin(c, a < b ? Z[0][3] : Z[1][3]); }
    for (size_t j = 0; j < m; j++) if (j != i) c = fmin(c, 0.4 * sqrt(dsq(x, P[keep[j]]))); cap[i] = c; }
  for (size_t i = 0; i < m; i++) { double* y = cs.get_tree_point(i); const double* x = P[keep[i]]; size_t* at = cs.get_tree_point_attrib(i); sx_check(at[0] == 2 && at[1] == (size_t)keep[i], "corner of a sphere"); for (int d = 0; d < 3; d++) sx_check(y[d] == x[d], "a sphere is not on its corner");
    double r = cap[i]; for (size_t j = 0; j < m; j++) if (j != i) r = fmin(r, cap[j] + Lip * sqrt(dsq(x, P[keep[j]]))); sx_check_near(y[3], r, 1e-6, "radius of a corner sphere"); }
  S._input_sizing_function = 0; sx_cover(m < (size_t)n ? "redundant" : "distinct"); sx_observe(m);
}
