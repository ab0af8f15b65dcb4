// Voronoi cell of a seed in a closed set of seeds: vertices, incidence and completeness.
#include "sxh.h"
#include "MeshingVoronoiMesher.h"
#ifndef NX
#define NX 2
#endif
#ifndef NA2
#define NA2 NA
#endif
enum { MX = 7 + NX };
static double P[MX * 3];
static const double BASE[6][3] = {{2,2,0},{2,-1,1},{1,1,1},{-2,0,1},{-1,-2,2},{0,1.5,0.5}}, DIR[6][3] = {{0,0,1},{0,1,0.5},{1,1,1},{1,0,0},{0.5,0,-1},{1,0,0}};
void sx_main() {
  sx_option("steps", 5000000); sx_option("split", 100); MeshingVoronoiMesher V; double L = 4; int n = 0;
  P[0] = P[1] = P[2] = 0; n = 1; for (int d = 0; d < 3; d++) for (int s = -1; s < 2; s += 2) { P[n * 3] = P[n * 3 + 1] = P[n * 3 + 2] = 0; P[n * 3 + d] = s * L; n++; }
  long ex = 1 + sx_choice("extra", NX), a = sx_choice("a", ex > 1 && NA2 < NA ? NA2 : NA);
  for (int e = 0; e < ex; e++) { double t = e == 0 ? sx_grid("t", 4, 32, 0.0625) : 0.5 + 0.5 * sx_choice(nm("u", e), 2); int k = (a + e * 2) % 6; for (int d = 0; d < 3; d++) P[n * 3 + d] = BASE[k][d] + t * DIR[k][d]; n++; }
  size_t o = SIZE_MAX, rt[MX], lf[MX]; V.build_balanced_kd_tree(n, 3, P, o, rt, lf); bool ghost[MX]; long gp = sx_choice("ghost", 2); for (int i = 0; i < n; i++) ghost[i] = gp && i > 0 && i < 7;
  size_t s = 0, nc = 0, *nb = 0, *cs = 0, *ci = 0; double* c = 0; V.get_3d_Voronoi_cell(n, P, o, rt, lf, s, gp ? 4.0 : 0.5, ghost, nc, c, nb, cs, ci);
  sx_check(nc >= 4 && nc % 2 == 0, "number of cell corners"); bool face[MX]; for (int i = 0; i < n; i++) face[i] = false; long nf = 0;
  for (size_t k = 0; k < nc; k++) {
    const double* v = c + 3 * k; double d0 = 0; for (int d = 0; d < 3; d++) d0 += (v[d] - P[s * 3 + d]) * (v[d] - P[s * 3 + d]);
    size_t low = SIZE_MAX;
    for (int j = 0; j < n; j++) {
      double dj = 0; for (int d = 0; d < 3; d++) dj += (v[d] - P[j * 3 + d]) * (v[d] - P[j * 3 + d]);
      sx_check_le(d0, dj + 1e-6, "a seed is closer to a cell corner than the cell's own seed");
      bool mine = cs[3 * k] == (size_t)j || cs[3 * k + 1] == (size_t)j || cs[3 * k + 2] == (size_t)j;
      if (mine) { sx_check_near(dj, d0, 1e-6, "a corner is not equidistant to the seeds of its faces"); if (!face[j]) { face[j] = true; nf++; } }
      if (!ghost[j] && low == SIZE_MAX && ((int)s == j || mine)) low = j;
    }
    for (int i = 0; i < 3; i++) { sx_check(cs[3 * k + i] < (size_t)n && cs[3 * k + i] != s && cs[3 * k + i] != cs[3 * k + (i + 1) % 3], "face seeds of a corner"); size_t q = nb[3 * k + i]; sx_check(q < nc && q != k, "corner neighbour out of range"); int back = 0, both = 0; for (int j = 0; j < 3; j++) { if (nb[3 * q + j] == k) back++; for (int m = 0; m < 3; m++) if (cs[3 * q + j] == cs[3 * k + m]) both++; } sx_check(back >= 1, "corner adjacency is not symmetric"); sx_check(both >= 2, "adjacent corners do not share two faces"); }
    sx_check(ci[3 * k] < (size_t)n && !ghost[ci[3 * k]] && ci[3 * k] <= low, "owner of a corner");
    { size_t w = ci[3 * k]; double dw = 0; for (int d = 0; d < 3; d++) dw += (v[d] - P[w * 3 + d]) * (v[d] - P[w * 3 + d]); sx_check_near(dw, d0, 1e-6, "owner of a corner is not equidistant"); }
  }
  sx_check((long)nc / 2 + 2 == nf, "the cell boundary is not closed");    // V - E + F = 2 with E = 3V/2
  for (int f = 0; f < n; f++) if (face[f]) {    // every face is one cycle through all of its corners
    size_t st = nc, cnt = 0, m = 0, cur; for (size_t k = 0; k < nc; k++) for (int i = 0; i < 3; i++) if (cs[3 * k + i] == (size_t)f) { if (st == nc) st = k; cnt++; }
    cur = st; do { size_t nx = nc; for (int i = 0; i < 3; i++) if (cs[3 * cur + i] == (size_t)f) { nx = nb[3 * cur + i]; break; } sx_check(nx < nc, "walk along a face leaves the face"); cur = nx; m++; } while (cur != st && m <= cnt);
    sx_check(m == cnt, "a face is not a single cycle");
  }
  sx_cover(nf == 6 ? "box" : nf == 7 ? "one" : "more"); sx_observe(nc); sx_observe(nf);
}
