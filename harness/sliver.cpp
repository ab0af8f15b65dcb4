// Sliver resolution: the reported sphere/radius is the smallest shrinkage that removes a point common to three other spheres' boundaries.
#include "sxh.h"
#include "MeshingSpheresMethods.h"
#ifndef NS
#define NS 4
#endif
static const double CEN[3][5][3] = {{{0,0,0},{2,0,0},{0,2,0},{1,1,1},{1,0,-1}}, {{1,1,1},{1,-1,-1},{-1,1,-1},{-1,-1,1},{0,0,0}}, {{0,0,0},{3,0,0},{1,2,0},{1,1,2},{2,1,-1}}};
static const double RAD[2][5] = {{2,2,2,1.5,2}, {2.5,2,2.25,2.5,1.75}};
static double S[NS][4];
// both intersection points of three spheres; false when they do not meet
static bool meet(int i, int j, int k, double* up, double* lo) {
  double u[3], w[3], n[3], uu = 0, ww = 0, uw = 0, nn = 0;
  for (int d = 0; d < 3; d++) { u[d] = S[j][d] - S[i][d]; w[d] = S[k][d] - S[i][d]; uu += u[d] * u[d]; ww += w[d] * w[d]; uw += u[d] * w[d]; }
  for (int d = 0; d < 3; d++) { n[d] = u[(d + 1) % 3] * w[(d + 2) % 3] - u[(d + 2) % 3] * w[(d + 1) % 3]; nn += n[d] * n[d]; }
  double p = 0.5 * (S[i][3] * S[i][3] - S[j][3] * S[j][3] + uu), q = 0.5 * (S[i][3] * S[i][3] - S[k][3] * S[k][3] + ww), det = uu * ww - uw * uw;
  double a = (p * ww - q * uw) / det, b = (q * uu - p * uw) / det, h2 = 0, f[3]; for (int d = 0; d < 3; d++) { f[d] = a * u[d] + b * w[d]; h2 += f[d] * f[d]; }
  double v2 = S[i][3] * S[i][3] - h2; if (v2 < 0) return false;
  double v = sqrt(v2 / nn); for (int d = 0; d < 3; d++) { up[d] = S[i][d] + f[d] + v * n[d]; lo[d] = S[i][d] + f[d] - v * n[d]; }
  return true;
}
void sx_main() {
  sx_option("steps", 20000000);
  MeshingSpheresMethods M; long cfg = sx_choice("cfg", 3), rad = sx_choice("rad", NRAD), mode = sx_choice("mode", MODES), fx = 0, who = 0; bool fixed[NS]; double* s[NS];
  double t = 1; if (mode == 0) { t = sx_real("t", 0.5, 4.0); fx = sx_choice("fixed", 1 << NS); } else { who = sx_choice("who", NS); if (mode == 1) fx = ((1 << NS) - 1) ^ (1 << who); }
  for (int i = 0; i < NS; i++) { for (int d = 0; d < 3; d++) S[i][d] = t * CEN[cfg][i][d]; S[i][3] = t * RAD[rad][i]; s[i] = S[i]; fixed[i] = (fx >> i) & 1; }
  if (mode > 0) S[who][3] = sx_real("r", 1.25, 3.0);
  double up[3], lo[3]; bool all = true;
  for (int i = 0; i < NS; i++) for (int j = i + 1; j < NS; j++) for (int k = j + 1; k < NS; k++) if (!meet(i, j, k, up, lo)) all = false;
  sx_assume(all);
  size_t idx = 77; double rr = -1; M.resolve_sliver(NS, s, fixed, idx, rr);
  sx_check(idx <= NS, "sphere index out of range"); if (idx < NS) { sx_check(!fixed[idx], "a fixed sphere is shrunk"); sx_check(rr < S[idx][3], "reported radius is no shrinkage"); }
  MeshingGeometricalMethods g; bool any = false, same = false; double best = idx < NS ? S[idx][3] - rr : 0;
  for (int i = 0; i < NS; i++) for (int j = i + 1; j < NS; j++) for (int k = j + 1; k < NS; k++) {
    meet(i, j, k, up, lo);
    for (int l = 0; l < NS; l++) {
      if (l == i || l == j || l == k || fixed[l]) continue;
      double d = fmin(g.distance(3, S[l], up), g.distance(3, S[l], lo));
      if (d <= S[l][3]) { any = true; if (l == (int)idx && fabs(rr - 0.95 * d) <= 1e-6) same = true; }
      if (d > S[l][3] - 1e-6) continue;
      sx_check(idx < NS, "an intersection point lies inside a shrinkable sphere, nothing reported");
      sx_check_le(best, S[l][3] - 0.95 * d + 1e-6, "a smaller shrinkage exists");
    }
  }
  sx_check(idx == NS || same || !any, "reported radius does not stem from an intersection point");
  if (idx < NS) sx_check(any, "no intersection point inside a shrinkable sphere, but one is shrunk");
  for (int i = 0; i < NS; i++) if (mode == 0 || i != who) sx_check_eq(S[i][3], t * RAD[rad][i], "input radius changed");
  sx_cover(idx == NS ? "none" : "sliver"); sx_observe(idx); if (idx < NS) sx_observe(rr);
}
