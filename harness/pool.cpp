// Active pool of edge or face pieces: refinement keeps exactly the halves / quarters of the uncovered pieces, in order and with their shares; a draw picks the piece of its share.
#include "sxh.h"
#include "MeshingVoroCrustSampler.h"
#ifndef LEV
#define LEV 2
#endif
#ifndef NSPH
#define NSPH 4
#endif
#ifndef NEL
#define NEL 2
#endif
#ifndef NT
#define NT 2
#endif
static double draw[8]; static int ndraw, nth;
double MeshingRandomSampler::generate_uniform_random_number() { return draw[ndraw++ & 7]; }
struct Piece { size_t parent; double c[3][3]; };
static double dst(const double* a, const double* b) { double h = 0; for (int d = 0; d < 3; d++) h += (a[d] - b[d]) * (a[d] - b[d]); return sqrt(h); }
static const double PT[5][3] = {{0,0,0},{4,8,8},{8,10,4},{-4,4,2},{2,-2,10}};
static double C[3][2][3], R[3][2]; static int cnt[3];
static bool covered(const Piece& p, int nc, int first) { static const double beta[3] = {0.8, 1, 1}; bool cov = false;
  for (int k = 0; k < 3; k++) for (int i = 0; i < cnt[k]; i++) { double far = 0; for (int c = 0; c < nc; c++) far = fmax(far, dst(p.c[c], C[k][i])); double b = (nc == 2 ? (k == 1 ? 0.8 : 1.0) : beta[k]) * R[k][i]; sx_assume(far > b + 1e-6 || far < b - 1e-6); if (far < b) cov = true; } return cov; }
static void mid(const double* a, const double* b, double* m) { for (int d = 0; d < 3; d++) m[d] = 0.5 * (a[d] + b[d]); }
void sx_main() {
  sx_option("steps", 50000000); bool face = sx_choice("face", 2); int nc = face ? 3 : 2; MeshingVoroCrustSampler S(1); nth = 1 + (face ? sx_choice("threads", NT) : 0); 
  S._num_threads = nth; S._rsamplers.resize(nth); for (int i = 1; i < nth; i++) S._rsamplers[i] = new MeshingRandomSampler(i);
  double* pts[5]; for (int i = 0; i < 5; i++) { pts[i] = new double[3]; for (int d = 0; d < 3; d++) pts[i][d] = PT[i][d]; }
  static const size_t E[3][2] = {{0,1},{1,2},{3,0}}, F[3][3] = {{0,1,2},{2,1,3},{4,0,2}}; size_t* el[3]; for (int i = 0; i < 3; i++) { el[i] = new size_t[4]; if (face) { el[i][0] = 3; for (int k = 0; k < 3; k++) el[i][1 + k] = F[i][k]; } else for (int k = 0; k < 2; k++) el[i][k] = E[i][k]; }
  size_t ne = 2 + sx_choice("elements", NEL); const double Lip = 0.25;
  // spheres: surface, edge, corner; radii Lipschitz within each kind
  static const double CEN[3][2][3] = {{{4,6,4},{2,5,5}}, {{2,4,4},{6,9,6}}, {{0,0,0},{4,8,8}}}; int cfg = sx_choice("spheres", NSPH); cnt[0] = face && (cfg & 1) ? 2 : 0; cnt[1] = cfg >= 1 ? 2 - (cfg == 1) : 0; cnt[2] = cfg != 1 ? 1 : 0; if (cfg == 0) cnt[2] = 2;
  MeshingSmartTree T[3] = {MeshingSmartTree(3), MeshingSmartTree(3), MeshingSmartTree(3)};
  for (int k = 0; k < 3; k++) for (int i = 0; i < cnt[k]; i++) { for (int d = 0; d < 3; d++) C[k][i][d] = CEN[k][i][d]; R[k][i] = i && k != 1 ? 3.5 : sx_grid(nm("r", k, i), 4, 40, 0.25); double s[4] = {C[k][i][0], C[k][i][1], C[k][i][2], R[k][i]}; for (int j = 0; j < i; j++) { double h = dst(C[k][i], C[k][j]); sx_assume(R[k][i] <= R[k][j] + Lip * h && R[k][j] <= R[k][i] + Lip * h); } T[k].add_tree_point(4, s, 0, 0); }
  size_t np = 1; if (face) S.initiate_active_pool(5, pts, ne, el, 0, np); else S.initiate_active_pool_edges(5, pts, ne, el);
  std::vector<Piece> P; for (size_t i = 0; i < ne; i++) { Piece p; p.parent = i; for (int c = 0; c < nc; c++) for (int d = 0; d < 3; d++) p.c[c][d] = PT[face ? F[i][c] : E[i][c]][d]; P.push_back(p); }
  double cs[6][3]; double* cp[6]; for (int i = 0; i < 6; i++) cp[i] = cs[i]; MeshingGeometricalMethods g;
  for (int lev = 0; ; lev++) {
    sx_check(S._active_pool_size == P.size(), "number of active pieces"); if (S._active_pool_size != P.size()) return; double tot = 0, acc = 0; std::vector<double> w;
    for (size_t i = 0; i < P.size(); i++) { double* q[3] = {P[i].c[0], P[i].c[1], P[i].c[2]}; w.push_back(face ? g.get_3d_triangle_area(q) : dst(q[0], q[1])); tot += w[i]; }
    for (size_t i = 0; i < P.size(); i++) { sx_check(S._active_pool_parent_face[i] == P[i].parent, "parent of a piece"); if (face) S.get_active_face_corners(5, pts, ne, el, i, cp); else S.get_active_edge_corners(5, pts, ne, el, i, cp);
      for (int c = 0; c < nc; c++) for (int d = 0; d < 3; d++) sx_check_near(cs[c][d], P[i].c[c][d], 1e-9, "corner of a piece"); acc += w[i]; sx_check_near(S._active_pool_cdf[i], acc / tot, 1e-9, "share of a piece"); }
    if (P.empty()) { sx_cover("all covered"); break; }
    if (lev == LEV) { // a draw
      for (int i = 0; i < 8; i++) draw[i] = 0.375; ndraw = 0; double u = draw[0] = sx_real("u", 0, 1), v = draw[1] = sx_real("v", 0, 1); double x[3]; size_t par = 99; int th = nth - 1; if (face) S.sample_active_faces_uniformly(th, 5, pts, ne, el, x, par); else S.sample_active_edges_uniformly(5, pts, ne, el, x, par);
      size_t k = 0; double a = 0; while (k + 1 < P.size() && (a + w[k]) / tot < u - 1e-9) { a += w[k]; k++; } size_t k2 = k + 1 < P.size() && (a + w[k]) / tot <= u + 1e-9 ? k + 1 : k; bool hit = false;
      if (face) { double b0 = 0, b1 = 0.375; double lo = v < b1 ? v : b1, hi = v < b1 ? b1 : v, t[3] = {lo, hi - lo, 1 - hi}; (void)b0; for (size_t m = k; m <= k2; m++) { bool same = par == P[m].parent; for (int d = 0; d < 3 && same; d++) { double y = 0; for (int c = 0; c < 3; c++) y += t[c] * P[m].c[c][d]; if (fabs(x[d] - y) > 1e-6) same = false; } if (same) hit = true; } }
      else for (size_t m = k; m <= k2; m++) { bool same = par == P[m].parent; for (int d = 0; d < 3 && same; d++) if (fabs(x[d] - (P[m].c[0][d] + v * (P[m].c[1][d] - P[m].c[0][d]))) > 1e-6) same = false; if (same) hit = true; }
      sx_check(hit, "the draw is not in the piece of its share"); sx_cover(face ? "face" : "edge"); break; }
    std::vector<Piece> Q; for (size_t i = 0; i < P.size(); i++) { const Piece& p = P[i]; if (covered(p, nc, 0)) { sx_cover("covered"); continue; } double m[3][3]; mid(p.c[0], p.c[1], m[0]); if (face) { mid(p.c[1], p.c[2], m[1]); mid(p.c[2], p.c[0], m[2]); }
      const double* ch[4][3] = {{p.c[0], m[0], m[2]}, {m[0], p.c[1], m[1]}, {m[2], m[1], p.c[2]}, {m[0], m[1], m[2]}}; for (int k = 0; k < (face ? 4 : 2); k++) { Piece q; q.parent = p.parent; for (int c = 0; c < nc; c++) for (int d = 0; d < 3; d++) q.c[c][d] = ch[k][c][d]; Q.push_back(q); } }
    P = Q; if (face) S.refine_active_pool(5, pts, ne, el, &T[0], &T[1], &T[2], Lip, 0.6); else S.refine_active_pool_edges(5, pts, ne, el, &T[1], &T[2], Lip, 0.6);
  }
  sx_observe(P.size()); S.delete_active_pool(); sx_check(S._active_pool_size == 0, "pool is empty after deleting it");
}
