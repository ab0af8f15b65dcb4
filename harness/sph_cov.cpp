// Sphere coverage of points, edges and faces (one sphere covers all corners), on Lipschitz sphere sets.
#include "sxh.h"
#include "MeshingSpheresMethods.h"
#ifndef NS
#define NS 2
#endif
#ifndef G
#define G 4
#endif
#ifndef RM
#define RM 2
#endif
static double X[4][3], R[4];
static const double CEN[3][4][3] = {{{0,0,0},{3,0,0},{0,4,0},{1,1,2}}, {{0,0,0},{0,0,0},{5,1,1},{-4,2,1}}, {{1,2,2},{-1,2,2},{-2,-2,1},{8,0,0}}};
static const double PTS[6][3] = {{0,0,0},{1,2,0},{3,0,4},{0,2,2},{2,-1,2},{6,0,0}};
void sx_main() {
  MeshingSpheresMethods M; MeshingSmartTree T(3); T.disable_auto_balance();
  double Lip = 0.25, alpha = sx_choice("alpha", 2) ? 0.6 : 0.0, beta = alpha > 0 ? 0.8 : 1.0;
  long what = sx_choice("what", 4); long nc = what == 2 ? 2 : what == 3 ? 3 : 1; double C[3][3]; double* c[3]; long n;
#if LINE
  n = sx_choice("n", NS + 1);
  for (int i = 0; i < n; i++) { X[i][0] = i == 0 ? 0.0 : sx_grid(nm("x", i), -G, G, 1.0); X[i][1] = X[i][2] = 0; R[i] = sx_grid(nm("r", i), 1, RM, 1.0); }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assume(fabs(R[i] - R[j]) <= Lip * fabs(X[i][0] - X[j][0]));
  double p = sx_grid("p", -G, G, 1.0), spread = 1 + sx_choice("spread", what < 2 ? 1 : 2); long rot = sx_choice("rot", nc);
  for (int k = 0; k < nc; k++) { int m = (k + rot) % nc; C[k][0] = p + (m == 0 ? 0 : m == 1 ? spread : 1.0); C[k][1] = C[k][2] = 0; c[k] = C[k]; }
#else
  MeshingGeometricalMethods g; long cfg = sx_choice("cfg", 3); n = NS;
  for (int i = 0; i < n; i++) { for (int d = 0; d < 3; d++) X[i][d] = CEN[cfg][i][d]; R[i] = sx_real(nm("r", i), 0.5, 8.0); }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assume(fabs(R[i] - R[j]) <= Lip * g.distance(3, X[i], X[j]));
  #ifdef FEW
  long a = sx_choice("a", 3) * 2;
#else
  long a = sx_choice("a", 6);
#endif
  long step = nc == 1 ? 0 : 1 + sx_choice("step", 2);
  for (int k = 0; k < nc; k++) { for (int d = 0; d < 3; d++) C[k][d] = PTS[(a + k * step) % 6][d]; c[k] = C[k]; }
#endif
  for (int i = 0; i < n; i++) { double s[4] = {X[i][0], X[i][1], X[i][2], R[i]}; T.add_tree_point(4, s, 0, 0); }
  bool res;
  if (what == 0) res = M.point_covered(c[0], &T, Lip, alpha);
  else if (what == 1) { if (n == 0) sx_assume(0); double s[4] = {X[0][0], X[0][1], X[0][2], R[0]}; res = M.point_covered(c[0], s, alpha); n = 1; }
  else if (what == 2) res = M.edge_covered(c, &T, Lip, alpha);
  else res = M.face_covered(c, &T, Lip, alpha);
  bool in = false, near_ = false;
  for (int i = 0; i < n; i++) {
    bool all = true, alln = true;
    for (int k = 0; k < nc; k++) {
      double h = 0;
#if LINE
      h = fabs(C[k][0] - X[i][0]);
#else
      for (int d = 0; d < 3; d++) h += (C[k][d] - X[i][d]) * (C[k][d] - X[i][d]);
      h = sqrt(h);
#endif
      if (!(h <= beta * R[i])) all = false; if (!(h <= beta * R[i] + 1e-5)) alln = false;
    }
    if (all) in = true; if (alln) near_ = true;
  }
  if (in) { sx_check(res, "covered by one sphere but reported as uncovered"); sx_cover("covered"); }
  if (!near_) { sx_check(!res, "not covered by any single sphere but reported as covered"); sx_cover("uncovered"); }
  for (int k = 0; k < nc; k++) sx_check(c[k] == C[k], "corner list changed");
  sx_observe(res);
}
