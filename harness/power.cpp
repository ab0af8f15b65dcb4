// Power vertices: equal power to all spheres, inside the affine hull of the centres; dependent centres are refused.
#include "sxh.h"
#include "MeshingSpheresMethods.h"
#ifndef NCFG
#define NCFG 5
#endif
static const double CEN[5][4][3] = {{{0,0,0},{2,0,0},{0,2,0},{0,0,2}}, {{1,-1,2},{3,1,1},{0,2,-1},{-2,0,3}}, {{0,0,0},{4,3,0},{-3,4,1},{1,1,5}}, {{0,0,1},{1,0,1},{0,1,1},{0.5,0.5,4}}, {{3,3,3},{3,3,-1},{3,-1,3},{-1,3,3}}};
static const double DEP[2][4][3] = {{{0,0,0},{1,1,1},{3,3,3},{0,0,0}}, {{0,1,0},{2,1,0},{2,3,0},{0,3,0}}};
void sx_main() {
  sx_option("steps", 20000000);
  MeshingSpheresMethods M; MeshingGeometricalMethods g;
  long dim = 2 + sx_choice("dim", 2), dep = sx_choice("dep", 2), n = dep ? (dim == 2 ? 3 : 3 + sx_choice("n", 2)) : 2 + sx_choice("n", dim), which = sx_choice("which", 2), skip = sx_choice("skip", 2);
  long cfg = dep ? (n == 4 ? 1 : dim == 2 ? 0 : 0) : sx_choice("cfg", NCFG);
  double S[4][4]; double* s[4]; double* c[4]; double r[4], pv[4] = {1e30, 1e30, 1e30, 1e30};
  for (int i = 0; i < n; i++) { for (int d = 0; d < dim; d++) S[i][d] = dep ? DEP[cfg][i][d] : CEN[cfg][i][d]; r[i] = S[i][dim] = sx_real(nm("r", i), 0.0, 4.0); s[i] = S[i]; c[i] = S[i]; }
  double junk[3]; for (int k = 0; k < skip; k++) { M._rsampler.sample_uniformly_from_unit_sphere(junk, 3); g._rsampler.sample_uniformly_from_unit_sphere(junk, 3); }
  if (n == 2 && sx_choice("pair", 2)) { if (which) g.get_power_vertex(dim, c[0], r[0], c[1], r[1], pv); else sx_check(M.get_power_vertex(dim, s[0], s[1], pv) == 0, "pair refused"); }
  else {
    bool ok = which ? g.get_power_vertex(dim, n, c, r, pv) : M.get_power_vertex(dim, n, s, pv);
    if (dep) { sx_check(!ok, "affinely dependent centres accepted"); sx_cover("dependent"); return; }
    sx_check(ok, "independent centres refused");
  }
  double p0 = 0; for (int d = 0; d < dim; d++) p0 += (pv[d] - S[0][d]) * (pv[d] - S[0][d]); p0 -= r[0] * r[0];
  for (int i = 1; i < n; i++) { double p = 0; for (int d = 0; d < dim; d++) p += (pv[d] - S[i][d]) * (pv[d] - S[i][d]); sx_check_near(p - r[i] * r[i], p0, 1e-6, "power distances differ"); }
  // inside the affine hull of the centres
  double v[3] = {0, 0, 0}, a[3] = {0, 0, 0}, b[3] = {0, 0, 0}; for (int d = 0; d < dim; d++) { v[d] = pv[d] - S[0][d]; a[d] = S[1][d] - S[0][d]; if (n > 2) b[d] = S[2][d] - S[0][d]; }
  double x[3];
  if (n == 2) for (int d = 0; d < 3; d++) sx_check_near(v[(d + 1) % 3] * a[(d + 2) % 3], v[(d + 2) % 3] * a[(d + 1) % 3], 1e-6, "outside the affine hull");
  if (n == 3 && dim == 3) { for (int d = 0; d < 3; d++) x[d] = a[(d + 1) % 3] * b[(d + 2) % 3] - a[(d + 2) % 3] * b[(d + 1) % 3]; sx_check_near(v[0] * x[0] + v[1] * x[1] + v[2] * x[2], 0, 1e-6, "outside the affine hull"); }
  for (int i = 0; i < n; i++) { sx_check_eq(S[i][dim], r[i], "input changed"); sx_check(s[i] == S[i] && c[i] == S[i], "input changed"); }
  sx_cover(n == 2 ? "pair" : n == 3 ? "triplet" : "quad"); sx_observe(pv[0]); sx_observe(pv[dim - 1]);
}
