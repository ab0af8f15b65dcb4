// Feature-aware ("non-smooth") nearest-point queries of the point tree equal brute force.
#include "sxh.h"
#include "MeshingSmartTree.h"
#ifndef DIM
#define DIM 2
#endif
#ifndef NP
#define NP 3
#endif
#ifndef G
#define G 4
#endif
static double P[NP][DIM], N[NP][DIM], X[DIM], XN[2][DIM];
static const double TH = 0.75; // cosine threshold
void sx_main() {
  MeshingSmartTree T(DIM); T.disable_auto_balance();
  for (int i = 0; i < NP; i++) { for (int d = 0; d < DIM; d++) P[i][d] = sx_grid(nm("p", i, d), -G, G, 1.0); long c = sx_choice(nm("n", i), 2); N[i][0] = c == 0; if (DIM > 1) N[i][DIM - 1] = c == 1; }
  for (int d = 0; d < DIM; d++) X[d] = sx_grid(nm("x", d), -G, G, 1.0);
  for (int i = 0; i < NP; i++) T.add_tree_point(DIM, P[i], N[i], 0);
  if (sx_choice("balanced", 2)) T.kd_tree_build_balanced();
  size_t mode = sx_choice("mode", 4); double tol = 1E-10, tol2 = 1E-20; 
  if (mode == 0 || mode == 3) { tol = sx_choice("tol", 2); tol2 = tol * tol; }
  int nn = 0; for (auto& v : XN) for (double& e : v) e = 0;
  if (mode == 1 || mode == 2) { nn = mode == 1 ? 1 : 1 + sx_choice("nn", 2); for (int k = 0; k < nn; k++) { long c = sx_choice(nm("xn", k), 3); XN[k][0] = c == 0; XN[k][DIM - 1] += c == 1 ? 1.0 : c == 2 ? -1.0 : 0.0; } /* also against the stored normals */ }
  size_t c = 777; double h = DBL_MAX; double* xn[2] = {XN[0], XN[1]};
  if (mode == 0) T.get_closest_non_smooth_tree_point(X, tol, TH, c, h);
  else if (mode == 1) T.get_closest_non_smooth_tree_point(X, XN[0], TH, c, h);
  else if (mode == 2) T.get_closest_non_smooth_tree_point(X, nn, xn, TH, c, h);
  else T.get_closest_non_smooth_tree_edge_point(X, tol, TH, c, h);
  bool adm[NP]; double D2[NP]; bool any = false;
  for (int i = 0; i < NP; i++) {
    double dx = X[0] - P[i][0], dy = DIM > 1 ? X[DIM - 1] - P[i][DIM - 1] : 0.0, q = dx * dx, dn = dx * N[i][0], nx0 = XN[0][0], nxy = DIM > 1 ? XN[0][DIM - 1] : 0.0; if (DIM > 1) { q += dy * dy; dn += dy * N[i][DIM - 1]; } D2[i] = q;
    bool far = mode == 2 ? q > 1E-10 : q > tol2;    // points closer than the tolerance count as smooth
    bool tang = q - dn * dn > TH * TH * q;          // direction nearly tangent to the point's surface
    bool smooth;
    if (mode == 0) smooth = !far || tang;
    else if (mode == 1) { double dnx = dx * nx0 + dy * nxy; smooth = !far || (tang && q - dnx * dnx > TH * TH * q); }
    else if (mode == 2) { smooth = false; if (!far || tang) for (int k = 0; k < nn; k++) { double c = XN[k][0] * N[i][0] + (DIM > 1 ? XN[k][DIM - 1] * N[i][DIM - 1] : 0.0); if (c > TH || -c > TH) smooth = true; } }
    else smooth = !far || dn * dn > TH * TH * q;
    adm[i] = !smooth; any = any || adm[i];
  }
  if (!any) { sx_check(h == DBL_MAX, "no admissible point: distance must stay unset"); sx_cover("none"); return; }
  sx_check(c < NP && adm[c], "returned index is an admissible tree point");
  for (int i = 0; i < NP; i++) if (adm[i]) sx_check_le(D2[c], D2[i], "a strictly closer admissible tree point exists");
  sx_check_near(h * h, D2[c], 1e-9, "reported distance is the distance to the reported point");
  sx_cover(mode == 0 ? "feature" : mode == 1 ? "normal" : mode == 2 ? "normals" : "edge"); sx_observe(h);
}
