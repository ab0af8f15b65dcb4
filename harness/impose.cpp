// Imposed (monitoring) seeds: kept exactly when the nearest seed lies in a meshed region and no protecting sphere contains them.
#include "sxh.h"
#include "MeshingVoronoiMesher.h"
#ifndef NX
#define NX 1
#endif
#ifndef NSP
#define NSP 2
#endif
#ifndef NPAT
#define NPAT 4
#endif
static const double U[3] = {1, 2, 2}, W[3] = {2, 1, -2};
static void put(double* p, double s, double t) { for (int d = 0; d < 3; d++) p[d] = s * U[d] + t * W[d]; }
void sx_main() {
  sx_option("steps", 20000000); MeshingVoronoiMesher V; const double Lip = 0.25, rmax = 100;
  static const double S[4] = {0, 4, 7, 12}, RS[4] = {3, 3, 5, 6}; static const int REG[5][4] = {{0, 1, 2, 0}, {1, 0, 1, 2}, {1, 1, 1, 1}, {0, 0, 1, 1}, {2, 0, 0, 1}};
  size_t n = 4; double *sd = new double[12], *sz = new double[4]; size_t* rg = new size_t[4]; int pat = sx_choice("pattern", NPAT), perm = pat & 1; double s0[4];
  for (int i = 0; i < 4; i++) { int k = perm ? (i * 3 + 1) % 4 : i; s0[i] = S[k]; put(sd + 3 * i, S[k], 0); sz[i] = RS[k]; rg[i] = REG[pat][k]; } size_t rg0[4]; double sz0[4]; for (int i = 0; i < 4; i++) { rg0[i] = rg[i]; sz0[i] = sz[i]; }
  // protecting spheres of the three kinds along the same line, Lipschitz within each kind
  static const double C[3][3] = {{2, 9, 5}, {3, 10, 6}, {1, 8, -2}}; int cnt[3]; double c[3][9], r[3][3]; int kinds = sx_choice("kinds", 5); double off = kinds != 3 && sx_choice("off", 2) ? 1.0 : 0.0;
  for (int k = 0; k < 3; k++) { cnt[k] = kinds == 4 ? (k == 0 ? NSP : 1) : kinds == k ? NSP : kinds == 3 && k != 1 ? 1 : 0;
    for (int i = 0; i < cnt[k]; i++) { put(c[k] + 3 * i, C[k][i], i & 1 ? off : 0); const char* q = nm(k == 0 ? "rs" : k == 1 ? "re" : "rc", i); r[k][i] = (i & 1) && off > 0 ? 3.5 + 2 * sx_choice(q, 2) : sx_grid(q, 1, 24, 0.5); }
    for (int i = 0; i < cnt[k]; i++) for (int j = 0; j < i; j++) { double h = 0; for (int d = 0; d < 3; d++) h += (c[k][3 * i + d] - c[k][3 * j + d]) * (c[k][3 * i + d] - c[k][3 * j + d]); h = sqrt(h); sx_assume(r[k][i] <= r[k][j] + Lip * h && r[k][j] <= r[k][i] + Lip * h); } }
  double im[4 * NX + 4], si[NX + 1]; long nx = NX + 1, fx = NX > 1 || kinds == 3 ? sx_choice("fixed", 3) - 1 : -1; if (fx < 0) nx = kinds == 3 ? sx_choice("nx", NX + 1) : NX; for (int i = 0; i < nx; i++) { si[i] = i == (fx ? 0 : nx - 1) && fx >= 0 ? 5 : sx_grid(nm("s", i), -6, 30, 0.5); put(im + 4 * i, si[i], 0); im[4 * i + 3] = sx_real(nm("size", i), 0.25, 8); }
  size_t ns = kinds & 1; double sp[3] = {1, 2, 3}, sv[1] = {2};
  V.impose_interior_seeds(n, sd, sz, rg, cnt[0], c[0], r[0], cnt[1], c[1], r[1], cnt[2], c[2], r[2], ns, sp, sv, nx, im, 1, Lip, rmax);
  for (int i = 0; i < 4; i++) { sx_check(rg[i] == rg0[i] && sd[3 * i] == s0[i], "an existing seed changed"); sx_check_eq(sz[i], sz0[i], "an existing size changed"); }
  size_t k = 4;
  for (int i = 0; i < nx; i++) {
    double best = 1e9; for (int j = 0; j < 4; j++) { double h = fabs(si[i] - s0[j]); if (h < best) best = h; } bool in = false, edge = false, mixed = false; size_t reg = 99;
    for (int j = 0; j < 4; j++) if (fabs(si[i] - s0[j]) == best) { if (reg != 99 && reg != rg0[j]) mixed = true; reg = rg0[j]; }
    for (int q = 0; q < 3; q++) for (int j = 0; j < cnt[q]; j++) { double ds = si[i] - C[q][j], o = j & 1 ? off : 0; double g = 9 * ds * ds + 9 * o * o - r[q][j] * r[q][j]; if (o == 0) g = 3 * fabs(ds) - r[q][j]; if (fabs(g) < 1e-6) edge = true; else if (g < 0) in = true; }
    bool got = k < n && sd[3 * k] == im[4 * i] && sd[3 * k + 1] == im[4 * i + 1] && sd[3 * k + 2] == im[4 * i + 2];
    if (mixed || (edge && !in)) { sx_cover(mixed ? "tie" : "edge"); } else sx_check(got == (reg != 0 && !in), got ? "an imposed seed outside the domain or inside a sphere is kept" : "a valid imposed seed is dropped");
    if (got) { sx_check_eq(sz[k], im[4 * i + 3], "size of an imposed seed"); sx_check(rg[k] != 0 && (mixed || rg[k] == reg), "region of an imposed seed"); sx_cover("kept"); k++; } else if (in) sx_cover("covered"); else sx_cover("outside");
  }
  sx_check(k == n, "number of seeds"); sx_observe(n); delete[] sd; delete[] sz; delete[] rg;
}
