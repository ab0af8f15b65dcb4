// Surface seeds: pairs of points common to three overlapping spheres and outside all other ones.
#include "sxh.h"
#include "MeshingVoroCrustSampler.h"
#ifndef NFAM
#define NFAM 3
#endif
#ifndef NR
#define NR 5
#endif
#ifndef NPAT
#define NPAT 4
#endif
#ifndef FAM0
#define FAM0 0
#endif
#ifndef WHO
#define WHO 1
#endif
#define NS 5
static const double CEN[5][NS][3] = {{{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{9,9,9}}, {{0,0,0},{1,0,0},{0,1,0},{0.25,0.25,0.75},{9,9,9}}, {{0,0,0},{2,0,0},{0,2,0},{2,2,0},{1,1,0}}, {{1,0,0.125},{-1,0,0.125},{0,1,0},{0,-1,0},{9,9,9}}, {{0,0,0},{1.5,0,0.25},{0.5,1.5,0},{1.5,1.5,0.5},{9,9,9}}};
static const double RAD[5][NS] = {{1.25,1.25,1.25,1.25,1}, {1,1,1,0.75,1}, {1.5,1.5,1.5,1.5,1.0}, {1.505,1.505,1.41421356,1.41421356,1}, {1.25,1.25,1.25,1.25,1}};
static const double LO[5] = {1.0, 0.625, 1.25, 1.5075, 1.0}, HI[5] = {1.5, 1.25, 1.75, 1.5275, 1.5};
static const int PAT[5][NS] = {{0,0,0,0,0}, {0,0,0,1,0}, {0,1,0,2,0}, {1,0,2,0,1}, {0,0,2,2,0}};   // kind of every sphere: surface, edge, corner
struct Pr { int i, j, k; double up[3], lo[3]; };
static int n, ax = 2; static double S[NS][4]; static double dist2(const double* a, const double* b) { double s = 0; for (int d = 0; d < 3; d++) s += (a[d] - b[d]) * (a[d] - b[d]); return s; }
// 1 when the three spheres have two common points; they are returned, the one on the side of the normal of the patch (nz along axis ax) first
static bool meet(int i, int j, int k, double nz, double* up, double* lo) {
  double u[3], w[3], m[3], uu = 0, ww = 0, uw = 0, nn = 0; for (int d = 0; d < 3; d++) { u[d] = S[j][d] - S[i][d]; w[d] = S[k][d] - S[i][d]; uu += u[d] * u[d]; ww += w[d] * w[d]; uw += u[d] * w[d]; }
  for (int d = 0; d < 3; d++) { m[d] = u[(d + 1) % 3] * w[(d + 2) % 3] - u[(d + 2) % 3] * w[(d + 1) % 3]; nn += m[d] * m[d]; }
  if (nn < 1e-9) return false; double p = 0.5 * (S[i][3] * S[i][3] - S[j][3] * S[j][3] + uu), q = 0.5 * (S[i][3] * S[i][3] - S[k][3] * S[k][3] + ww), det = uu * ww - uw * uw, a = (p * ww - q * uw) / det, b = (q * uu - p * uw) / det, h2 = 0, f[3];
  for (int d = 0; d < 3; d++) { f[d] = a * u[d] + b * w[d]; h2 += f[d] * f[d]; } double v2 = S[i][3] * S[i][3] - h2; sx_assume(v2 > 1e-4 || v2 < -1e-4); if (v2 < 0) return false;
  double v = sqrt(v2 / nn) * (m[ax] * nz < 0 ? -1 : 1); for (int d = 0; d < 3; d++) { up[d] = S[i][d] + f[d] + v * m[d]; lo[d] = S[i][d] + f[d] - v * m[d]; } return true; }
static bool inside(const double* p, int i, int j, int k) { bool c = false; for (int l = 0; l < n; l++) { if (l == i || l == j || l == k) continue; double d2 = dist2(p, S[l]), r2 = S[l][3] * S[l][3]; sx_assume(d2 < r2 - 1e-4 || d2 > r2 + 1e-4); if (d2 < r2) c = true; } return c; }
void sx_main() {
  sx_option("steps", 50000000); sx_option("split", 100); MeshingVoroCrustSampler V(1); long fam = FAM0 + sx_choice("family", NFAM), pat = sx_choice("kinds", NPAT), flip = sx_choice("flip", 2), who = fam == 0 ? 3 : sx_choice("who", WHO); n = fam == 2 ? 5 : 4; double sc = 1, r; if (fam == 1 || fam > 2) { sc = sx_real("t", 1, 4); r = LO[fam] + (HI[fam] - LO[fam]) * sx_choice("r", NR) / (NR - 1); } else r = sx_real("r", LO[fam], HI[fam]); double Lip = 0.4, nz = flip ? -1 : 1; ax = (pat + flip) % 2 ? 2 : 0;   // the patch lies in the plane x = 0 or z = 0
  // spheres are numbered surface first, then edges, then corners
  int kind[NS], cnt[3] = {0, 0, 0}, m = 0, ws = -1; for (int t = 0; t < 3; t++) for (int i = 0; i < n; i++) if (PAT[pat][i] == t) { for (int d = 0; d < 3; d++) S[m][(d + ax + 1) % 3] = sc * CEN[fam][i][d]; S[m][3] = sc * (i == who ? r : RAD[fam][i]); if (i == who) ws = m; kind[m++] = t; cnt[t]++; }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assume((S[i][3] - S[j][3]) * (S[i][3] - S[j][3]) <= Lip * Lip * dist2(S[i], S[j]) - 1e-4);
  if (fam == 0) sx_assume(r < 1.249 || r > 1.251);
  double P[4][3] = {{0,0,0},{5,0,0},{0,5,0},{5,5,0}}; double* pts[4] = {P[0], P[1], P[2], P[3]}; size_t F[2][4] = {{3,0,1,2},{3,1,3,2}}; if (flip) for (int f = 0; f < 2; f++) std::swap(F[f][2], F[f][3]); size_t* faces[2] = {F[0], F[1]}; if (ax == 0) for (int i = 0; i < 4; i++) { P[i][2] = P[i][1]; P[i][1] = P[i][0]; P[i][0] = 0; }
  MeshingSmartTree T[3]; for (int i = 0; i < n; i++) { size_t at[2] = {2, (size_t)i % 2}; double nrm[3] = {0, 0, 0}; nrm[ax] = nz; T[kind[i]].add_tree_point(4, S[i], nrm, at); }
  MeshingSmartTree U, L; double junk[4] = {50, 50, 50, 1}; if (fam == 0) { size_t at[6] = {6, 0, 0, 0, 0, 0}; U.add_tree_point(4, junk, junk, at); } bool shrunk = true; V.generate_surface_seeds(4, pts, 2, faces, &T[0], &T[1], &T[2], Lip, shrunk, &U, &L);
  // reference
  std::vector<Pr> pr; bool sliver = false;
  for (int i = 0; i < cnt[0]; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) {
    bool over = true; int t[3] = {i, j, k}; for (int a = 0; a < 3; a++) { int x = t[a], y = t[(a + 1) % 3]; double s = S[x][3] + S[y][3], d2 = dist2(S[x], S[y]); if (s * s < d2) over = false; }
    Pr q; q.i = i; q.j = j; q.k = k; if (!over || !meet(i, j, k, nz, q.up, q.lo)) continue; bool cu = inside(q.up, i, j, k), cl = inside(q.lo, i, j, k); if (cu != cl) { sliver = true; continue; } if (!cu) pr.push_back(q); }
  bool changed = false; for (int i = 0; i < n; i++) { double* x = T[kind[i]].get_tree_point(i - (kind[i] > 0 ? cnt[0] : 0) - (kind[i] > 1 ? cnt[1] : 0)); for (int d = 0; d < 3; d++) sx_check(x[d] == S[i][d], "a sphere moved"); sx_check_le(x[3], S[i][3], "a sphere grew"); if (x[3] < S[i][3]) { changed = true; sx_check(kind[i] == 0, "a corner or edge sphere shrank"); } }
  sx_check(changed == shrunk, "shrink flag");
  size_t nu = U.get_num_tree_points(), nl = L.get_num_tree_points(); sx_check(nu == nl, "upper and lower seeds do not come in pairs");
  if (shrunk) { sx_check(nu == 0, "seeds of shrunk spheres are kept"); if (sliver) { sx_cover("sliver"); sx_observe(-1); return; } }
  if (!sliver) {
    // two seeds of a side that are closer than 1% of the smallest radius of their surface spheres make these shrink by 5%
    bool close = false, mark[NS] = {};
    for (size_t a = 0; a < pr.size(); a++) for (int side = 0; side < 2; side++) { double mr = 1e9; int t[3] = {pr[a].i, pr[a].j, pr[a].k}; for (int x = 0; x < 3; x++) if (t[x] < cnt[0]) mr = fmin(mr, S[t[x]][3]);
      for (size_t b = 0; b < pr.size(); b++) if (a != b) { double d2 = side ? dist2(pr[a].lo, pr[b].lo) : dist2(pr[a].up, pr[b].up), q = 1e-4 * mr * mr; sx_assume(d2 < q * 0.99 || d2 > q * 1.01); if (d2 < q) { close = true; for (int x = 0; x < 3; x++) if (t[x] < cnt[0]) mark[t[x]] = true; } } }
    sx_check(shrunk == close, "spheres shrink without reason or close seeds are accepted");
    if (close) { for (int i = 0; i < cnt[0]; i++) sx_check_near(T[0].get_tree_point(i)[3], mark[i] ? 0.95 * S[i][3] : S[i][3], 1e-9, "radius after removing close seeds"); sx_cover("close"); sx_observe(-2); return; }
  }
  if (!shrunk) {
    sx_check(nu == pr.size(), "number of seed pairs"); bool used[16] = {};
    for (size_t s = 0; s < nu; s++) {
      size_t* a = U.get_tree_point_attrib(s); sx_check(a[0] == 6 && a[1] < nl && a[2] < (size_t)n && a[3] < (size_t)n && a[4] < (size_t)n, "attributes of a seed"); size_t* b = L.get_tree_point_attrib(a[1]); sx_check(b[1] == s && b[2] == a[2] && b[3] == a[3] && b[4] == a[4], "seeds of a pair do not refer to each other"); sx_check(a[5] == 0 && b[5] == 0, "seed marked");
      bool ok = false; for (size_t q = 0; q < pr.size() && !ok; q++) { if (used[q]) continue; int t[3] = {pr[q].i, pr[q].j, pr[q].k}; int hit = 0; for (int x = 0; x < 3; x++) for (int y = 2; y < 5; y++) hit += a[y] == (size_t)t[x]; if (hit != 3) continue; used[q] = true; ok = true; double* x = U.get_tree_point(s); double* y = L.get_tree_point(a[1]);
        for (int d = 0; d < 3; d++) { sx_check_near(x[d], pr[q].up[d], 1e-6, "upper seed is not the common point of its spheres on the outer side"); sx_check_near(y[d], pr[q].lo[d], 1e-6, "lower seed is not the common point of its spheres on the inner side"); }
        double mr = 1e9; for (int z = 0; z < 3; z++) mr = fmin(mr, S[t[z]][3]); sx_check(x[3] == mr && y[3] == mr, "size of a seed"); }
      sx_check(ok, "spheres of a seed"); }
    if (nu) sx_cover("pairs"); else sx_cover("nopairs");
  }
  sx_observe(nu);
}
