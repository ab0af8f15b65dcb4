// Welding of nearby points of a surface mesh: points of a line in general direction (distances are multiples of 3).
#include "sxh.h"
#include "MeshingPolyMesh.h"
#ifndef NP
#define NP 4
#endif
#ifndef G
#define G 4
#endif
void sx_main() {
  sx_option("steps", 20000000); MeshingPolyMesh M; long g[NP]; double X[NP][3]; size_t np = NP; double** p = new double*[NP];
  static const double H[4] = {3, 3.5, 6, 9.25}; double hmin = H[sx_choice("hmin", 4)]; long dense = sx_choice("side", 2);
  for (int i = 0; i < NP; i++) { double t = sx_grid(nm("t", i), 0, G, 1.0); if (dense && i == 2) { X[i][0] = 40 + t; X[i][1] = 2 * t; X[i][2] = 2 * t; } else { X[i][0] = t; X[i][1] = 2 * t; X[i][2] = 2 * t; } p[i] = new double[3]; for (int d = 0; d < 3; d++) p[i][d] = X[i][d]; }
  static const int F[5][3] = {{0, 1, 2}, {1, 3, 2}, {3, 0, 1}, {2, 0, 3}, {1, 0, 3}}; size_t nf = 5; size_t** f = new size_t*[nf]; for (size_t i = 0; i < nf; i++) { f[i] = new size_t[4]; f[i][0] = 3; for (int k = 0; k < 3; k++) f[i][k + 1] = F[i][k]; }
  double** p0 = p; M.weld_nearby_points(np, p, nf, f, hmin);
  // reference: retained points in order; every other point goes to a nearest retained earlier one closer than hmin
  size_t ret[NP], map[NP], n = 0; bool tie[NP]; double h2 = hmin * hmin;
  for (int i = 0; i < NP; i++) { double best = 1e30; size_t at = 0; tie[i] = false; for (size_t k = 0; k < n; k++) { double d = 0; for (int c = 0; c < 3; c++) d += (X[i][c] - X[ret[k]][c]) * (X[i][c] - X[ret[k]][c]); if (d < best) { best = d; at = k; tie[i] = false; } else if (d == best) tie[i] = true; }
    if (n && best < h2) map[i] = at; else { ret[n] = i; map[i] = n++; tie[i] = false; } }
  bool anytie = false; for (int i = 0; i < NP; i++) anytie |= tie[i];
  sx_check(np == n, "number of points after welding"); for (size_t k = 0; k < n; k++) for (int c = 0; c < 3; c++) sx_check(p[k][c] == X[ret[k]][c], "coordinates of a retained point");
  for (size_t i = 0; i < nf; i++) { sx_check(f[i][0] == 3, "number of corners"); for (int k = 1; k <= 3; k++) { sx_check(f[i][k] < np, "corner out of range"); sx_check(f[i][k] != f[i][k % 3 + 1], "degenerate face kept"); } }
  if (n == NP) { sx_cover("none"); sx_check(p == p0 || np == NP, "points"); }
  if (!anytie) {
    bool used[5] = {}; size_t m = 0;
    for (int i = 0; i < 5; i++) { size_t c[3]; for (int k = 0; k < 3; k++) c[k] = map[F[i][k]]; if (c[0] == c[1] || c[1] == c[2] || c[2] == c[0]) continue; m++;
      bool ok = false; for (size_t j = 0; j < nf && !ok; j++) if (!used[j] && f[j][1] == c[0] && f[j][2] == c[1] && f[j][3] == c[2]) { used[j] = true; ok = true; } sx_check(ok, "a proper face is lost or has wrong corners"); }
    sx_check(m == nf, "a face too many"); if (n < NP) sx_cover(m ? "welded" : "collapsed");
  }
  sx_observe(np); sx_observe(nf);
}
