// Voronoi mesh assembly: cells of the meshed (non-ghost) seeds share welded vertices and faces.
#include "sxh.h"
#include "MeshingVoronoiMesher.h"
#ifndef NCFG
#define NCFG 4
#endif
#ifndef NSIZ
#define NSIZ 2
#endif
#ifdef THO
#define TL 16
#define TH 96
#define TS 0.015625
#else
#define TL 4
#define TH 24
#define TS 0.0625
#endif
#ifdef LAT
enum { MX = 64 };
#else
enum { MX = 12 };
#endif
static double P[MX * 3], SZ[MX]; static size_t R[MX];
static double sq(const double* a, const double* b) { double s = 0; for (int d = 0; d < 3; d++) s += (a[d] - b[d]) * (a[d] - b[d]); return s; }
static const double BASE[6][3] = {{2,2,0},{2,-1,1},{1,1,1},{-2,0,1},{-1,-2,2},{0,1.5,0.5}}, DIR[6][3] = {{0,0,1},{0,1,0.5},{1,1,1},{1,0,0},{0.5,0,-1},{1,0,0}};
static int n;
static void box(int id, double h) { for (int d = 0; d < 3; d++) for (int s = -1; s < 2; s += 2) { P[n * 3] = P[n * 3 + 1] = P[n * 3 + 2] = 0; P[n * 3 + d] = s * h; R[n] = id; n++; } }
static void seed(double x, double y, double z, int id) { P[n * 3] = x; P[n * 3 + 1] = y; P[n * 3 + 2] = z; R[n] = id; n++; }
void sx_main() {
  sx_option("steps", 20000000); sx_option("split", 100); MeshingVoronoiMesher V; n = 0; long cfg = sx_choice("cfg", NCFG), ins = 1 + sx_choice("cells", NCELL), sz = sx_choice("size", NSIZ);
  // a closed shell of ghost seeds around 1..NCELL meshed cells, one of which moves along a line; ghosts may come first or last
#ifdef LAT
  // co-spherical seeds: a cubic lattice with 4 meshed cells inside, listed in any of four orders; one meshed seed moves through its lattice position
  static const int STEP[4] = {1, 5, 11, 29}; double t = sx_grid("t", -LATH, LATH, 0.125);
  for (int k = 0; k < 48; k++) { int i = (k * STEP[cfg] + 7 * cfg) % 48, x = i % 4, y = i / 4 % 4, z = i / 16; bool in = x > 0 && x < 3 && y > 0 && y < 3 && z == 1; bool mv = x == 1 && y == 2 && z == 1; seed(x - 1.0 + (mv ? t : 0.0), y - 1.0, z - 1.0, in ? 1 : 0); }
#else
  double t = sx_grid("t", TL, TH, TS); bool front = cfg & 1; 
  if (front) box(0, 8);
  seed(0, 0, 0, 1); if (ins > 1) seed(BASE[cfg][0] + t * DIR[cfg][0], BASE[cfg][1] + t * DIR[cfg][1], BASE[cfg][2] + t * DIR[cfg][2], 2); else P[(n - 1) * 3 + 2] = t - 1;
  if (ins > 2) seed(-2, -1, -1.5, 1);
  if (!front) box(0, 8);
#endif
  for (int i = 0; i < n; i++) SZ[i] = sz == 0 ? 3 : sz == 1 ? 0.25 : 1;
  size_t nv = 0, nf = 0, **F = 0; double* v = 0; V.generate_3d_voronoi_mesh(1, n, P, R, SZ, nv, v, nf, F);
  sx_check(nv >= 4 && nf >= 4, "empty mesh");
  for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < i; j++) sx_check_le(1e-13, sq(v + 3 * i, v + 3 * j), "two vertices of the mesh coincide");
  std::vector<int> used(nv, 0);
  for (size_t f = 0; f < nf; f++) {
    size_t m = F[f][0], a = F[f][m + 1], b = F[f][m + 2]; sx_check(m >= 3, "face with less than three corners");
    sx_check(a < (size_t)n && b < (size_t)n && a != b, "face seeds out of range"); sx_check(R[a] != 0, "first seed of a face is a ghost"); sx_check(R[b] == 0 || a < b, "face seeds out of order");
    for (size_t g = 0; g < f; g++) { size_t k = F[g][0]; sx_check(F[g][k + 1] != a || F[g][k + 2] != b, "a face is listed twice"); }
    for (size_t i = 1; i <= m; i++) {
      sx_check(F[f][i] < nv, "corner index out of range"); used[F[f][i]] = 1; for (size_t j = 1; j < i; j++) sx_check(F[f][i] != F[f][j], "repeated corner in a face");
      const double* x = v + 3 * F[f][i]; double da = sq(x, P + 3 * a); sx_check_near(sq(x, P + 3 * b), da, 1e-6, "face corner not equidistant from the two seeds");
      for (int j = 0; j < n; j++) if (j != (int)a && j != (int)b) sx_check_le(da, sq(x, P + 3 * j) + 1e-6, "a third seed is closer to a face corner");
    }
  }
  for (size_t i = 0; i < nv; i++) sx_check(used[i], "unused vertex");
  for (int s = 0; s < n; s++) {
    long nfc = 0, nec = 0, nvc = 0; if (R[s] == 0) continue;
    std::vector<int> mine(nv, 0); for (size_t f = 0; f < nf; f++) { size_t m = F[f][0]; if (F[f][m + 1] != (size_t)s && F[f][m + 2] != (size_t)s) continue; nfc++; nec += m;
      for (size_t i = 1; i <= m; i++) { mine[F[f][i]] = 1; size_t p = F[f][i], q = F[f][i % m + 1]; int share = 0; for (size_t g = 0; g < nf; g++) { size_t k = F[g][0]; if (F[g][k + 1] != (size_t)s && F[g][k + 2] != (size_t)s) continue; for (size_t j = 1; j <= k; j++) { size_t u = F[g][j], w = F[g][j % k + 1]; if ((u == p && w == q) || (u == q && w == p)) share++; } } sx_check(share == 2, "a cell is not closed: an edge does not have two faces"); } }
    for (size_t i = 0; i < nv; i++) nvc += mine[i];
    sx_check(nec % 2 == 0 && nvc - nec / 2 + nfc == 2, "cell boundary is no sphere");
  }
  sx_cover(ins == 1 ? "one" : "more");
#ifdef LAT
  if (t == 0) sx_check(nf == 20, "number of faces of a cubic lattice");
#endif
  sx_observe(nv); sx_observe(nf);
}
