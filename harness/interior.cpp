// Interior seeds thrown from the front of known seeds: arbitrary darts; the generator and the direction sampler are replaced by inputs.
#include "sxh.h"
#include "MeshingVoronoiMesher.h"
#include "MeshingRandomSampler.h"
#ifndef ND
#define ND 2
#endif
#ifndef NDIR
#define NDIR 3
#endif
#ifndef NPAT
#define NPAT 2
#endif
#ifndef FULL
#define FULL 0
#endif
#ifndef UG
#define UG 15
#endif
static int thrown, dartno, pending, when; static bool flip;
// the chosen darts are arbitrary; every other dart lands on its own seed, that is, misses
int MeshingRandomSampler::sample_uniformly_from_unit_sphere(double* dart, size_t num_dim) {
  static const double D[6][3] = {{1, 2, 2}, {2, 1, -2}, {-1, -2, -2}, {-2, -1, 2}, {2, -2, 1}, {-2, 2, -1}}; thrown++; pending = 0;
  bool mine = dartno < ND && (when == 0 || (when == 1 ? (thrown - 1) % 20 == 0 : (thrown - 1) % 40 == 19)); for (int d = 0; d < 3; d++) dart[d] = 0;
  if (mine) { dartno++; int k = sx_choice(nm("dir", dartno), dartno == 1 || FULL ? NDIR : 2); if (!FULL && dartno > 1) k *= 2; for (int d = 0; d < 3; d++) dart[d] = D[k][d] / 3; pending = dartno; } return 0; }
double MeshingRandomSampler::generate_uniform_random_number() { if (pending) { int k = pending; pending = 0; return k == 1 ? sx_grid("u", 0, UG, 1.0 / 16) + 0.03125 : 0.0625 + 0.4375 * sx_choice(nm("u", k), 2); } return flip ? 0.96875 : 0; }
static double dsq(const double* a, const double* b) { double h = 0; for (int d = 0; d < 3; d++) h += (a[d] - b[d]) * (a[d] - b[d]); return h; }
void sx_main() {
  sx_option("steps", 50000000); MeshingVoronoiMesher V; const double Lip = 0.25; static const double U[3] = {1, 2, 2}, W[3] = {2, 1, -2};
  // a row of seeds alternating between volumes
  static const double S[3][4] = {{0, 1, 8, 9}, {0, 2, 3, 30}, {0, 7, 14, 21}}; static const size_t REG[3][4] = {{1, 2, 2, 0}, {1, 1, 0, 3}, {1, 1, 1, 1}}; int pat = sx_choice("pattern", NPAT);
  size_t n = pat == 0 ? 4 : 3; double *sd = new double[12], *sz = new double[4]; size_t* rg = new size_t[4]; when = sx_choice("when", 3); flip = when != 1; int kind = sx_choice("sphere", 4); double r0 = FULL ? 1 + sx_choice("size", 2) : 1 + (kind & 1); double p0[12], z0[4]; size_t g0[4];
  for (size_t i = 0; i < n; i++) { for (int d = 0; d < 3; d++) p0[3 * i + d] = sd[3 * i + d] = S[pat][i] * U[d]; z0[i] = sz[i] = i == 0 ? r0 : 2; g0[i] = rg[i] = REG[pat][i]; }
  size_t n0 = n; size_t cnt[3] = {kind == 0 ? 3u : 0u, kind == 1 ? 3u : 0u, kind == 2 ? 3u : 0u}; double C[9], R[3] = {1, 1, 1}; for (int d = 0; d < 3; d++) for (int k = 0; k < 3; k++) C[3 * k + d] = (k == 1 ? -0.5 : 5 - 4 * k) * U[d] + (1.25 + 8 * (k - 1)) * W[d]; double *c = C + 3, *r = R + 1; if (kind < 3) r[0] = sx_grid("r", 2, 12, 0.5);
  size_t ns = (FULL ? sx_choice("sizing", 2) : kind == 1 || kind == 3) * 2; double sp[6], sv[2] = {0.75, 5}; for (int d = 0; d < 3; d++) { sp[d] = U[d] * -1; sp[3 + d] = U[d] * 2; } double rmax = (FULL ? sx_choice("rmax", 2) : kind == 2) ? 2 : 50; if (FULL) flip = sx_choice("flip", 2);
  V.generate_interior_seeds(n, sd, sz, rg, cnt[0], C, R, cnt[1], C, R, cnt[2], C, R, ns, sp, sv, 1, Lip, rmax);
  sx_check(n >= n0 && n <= n0 + ND, "number of seeds"); size_t live = 0;
  for (size_t i = 0; i < n; i++) { sx_check_le(1e-3, sz[i], "size of a seed"); if (rg[i]) live++;
    if (i < n0) { sx_check(rg[i] == g0[i], "region of an existing seed"); sx_check(sd[3 * i] == p0[3 * i] && sd[3 * i + 1] == p0[3 * i + 1] && sd[3 * i + 2] == p0[3 * i + 2], "an existing seed moved"); sx_check_le(sz[i], z0[i], "an existing seed grew"); continue; }
    const double* x = sd + 3 * i; sx_check(rg[i] != 0, "a new seed outside the domain"); if (kind < 3) sx_check_le(r[0] * r[0], dsq(x, c) + 1e-6, "a new seed inside a protecting sphere");
    double best = 1e9; for (size_t j = 0; j < i; j++) { double h = dsq(x, sd + 3 * j); sx_check_le(sz[j] * sz[j], h + 1e-6, "a new seed inside the sphere of an earlier seed"); sx_check_le(0.25, h, "seeds coincide"); if (h < best) best = h; }
    double cap = rmax; if (ns) { double a = dsq(x, sp), b = dsq(x, sp + 3); cap = fmin(cap, a < b - 1e-6 ? sv[0] : b < a - 1e-6 ? sv[1] : 5); } sx_check_le(sz[i], cap + 1e-9, "size above the sizing function or the maximum");
    bool same = false; for (size_t j = 0; j < i; j++) if (rg[j] == rg[i] && dsq(x, sd + 3 * j) <= best + 1e-6) same = true; sx_check(same, "a new seed belongs to another volume than the seed it is closest to");
    bool tight = ns || sz[i] >= cap - 1e-6; for (size_t j = 0; j < n && !tight; j++) if (j != i) { double q = sz[i] - sz[j] + 1e-6; if (q >= 0 && q * q >= Lip * Lip * dsq(x, sd + 3 * j)) tight = true; } sx_check(tight, "a new seed is smaller than need be"); }
  sx_check(thrown >= 20 * (int)live, "a seed never had its turn"); sx_cover(n == n0 ? "none" : n == n0 + 1 ? "one" : "two"); sx_observe(n); for (size_t i = 0; i < n; i++) sx_observe(sz[i]); delete[] sd; delete[] sz; delete[] rg;
}
