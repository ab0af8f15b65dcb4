// Edge spheres from arbitrary first draws: the edges end up covered, sizes within limits, Lipschitz, centres on their edge.
#include "sxh.h"
#include "MeshingVoroCrustSampler.h"
#ifndef FULL
#define FULL 0
#endif
#ifndef MODES
#define MODES 3
#endif
#ifndef ND
#define ND 1
#endif
static int at; static double first[2 * ND + 2];
// the first draws are arbitrary, the others walk over the pieces
double MeshingRandomSampler::generate_uniform_random_number() { int k = at++; if (k < 2 * ND) return first[k]; int j = k / 2; return k & 1 ? 0.5 : ((j * 5) % 8 + 0.5) / 8; }
int MeshingSmartTree::save_tree_csv(std::string, size_t) { return 0; }
static const double U[3] = {1, 2, 2}, W[3] = {2, 1, -2};
static void put(double* p, double s, double t) { for (int d = 0; d < 3; d++) p[d] = s * U[d] + t * W[d]; }
static double dsq(const double* a, const double* b) { double h = 0; for (int d = 0; d < 3; d++) h += (a[d] - b[d]) * (a[d] - b[d]); return h; }
static double sq(double x) { return x * x; }
static double dist(const double* a, const double* b) { double h = 0; for (int d = 0; d < 3; d++) h += (a[d] - b[d]) * (a[d] - b[d]); return sqrt(h); }
void sx_main() {
  sx_option("steps", 200000000); MeshingVoroCrustSampler S(1); int shape = sx_choice("shape", 3); double P[3][3]; put(P[0], 0, 0); put(P[1], 6, 0); if (shape == 0) put(P[2], 12, 0); else put(P[2], 6, shape == 1 ? 6 : 2); double* pts[3] = {P[0], P[1], P[2]};
  size_t e0[2] = {0, 1}, e1[2] = {2, 1}; size_t* E[2] = {e0, e1}; size_t ne = shape == 0 ? 1 + sx_choice("edges", 2) : 2; const double Lip = 0.25, alpha = 0.6, TH = 0.9, TOL = 1e-6;
  MeshingSmartTree surf(3), edge(3), es(3), cs(3), siz(3);
  // corners at both ends and, if the chain bends, in the middle
  int mode = sx_choice("arbitrary", MODES); double rc = mode == 2 ? sx_grid("rc", 4, 30, 0.5) : 5; int ends[3] = {0, (int)(ne == 1 ? 1 : 2), 1}; int ncs = 1 + sx_choice("corners", 2) + (shape > 0); if (ncs > 3) ncs = 3; for (int i = 0; i < 3; i++) if (i < 2 ? (ncs - (shape > 0)) > i : shape > 0) { double s[4] = {P[ends[i]][0], P[ends[i]][1], P[ends[i]][2], i == 0 ? rc : 2}; cs.add_tree_point(4, s, 0, 0); }
  double f[3]; bool sf = sx_choice("sizing", 2), far = FULL ? sx_choice("far", 2) : !sf; double fh = far ? 40 : 3, eh = far ? 3 : 40; put(f, 3, fh); double nw[3], nu[3]; for (int d = 0; d < 3; d++) { nw[d] = W[d] / 3; nu[d] = U[d] / 3; } surf.add_tree_point(3, f, nw, 0); put(f, 3, -eh); edge.add_tree_point(3, f, nu, 0); double sv = 4.5; if (sf) { double q[4]; put(q, 1, 0); q[3] = sv; siz.add_tree_point(4, q, 0, 0); S._input_sizing_function = &siz; }
  double rmax = mode == 1 ? sx_grid("rmax", 12, 48, 0.25) : 8.125; for (int i = 0; i < ND; i++) { first[2 * i] = i ? 0.75 : 0.25; first[2 * i + 1] = mode == 0 ? sx_grid(nm("v", i), 0, 15, 1.0 / 16) + 0.03125 : 0.3125 + 0.25 * i; }
  S.generate_edge_spheres(3, pts, ne, E, &surf, &edge, TOL, &es, &cs, TH, rmax, Lip, alpha);
  size_t n = es.get_num_tree_points(); std::vector<double*> sp; for (size_t i = 0; i < n; i++) sp.push_back(es.get_tree_point(i));
  for (size_t i = 0; i < n; i++) { size_t* at2 = es.get_tree_point_attrib(i); size_t e = at2[1]; sx_check(e < ne, "edge of a sphere"); double* a = P[E[e][0]]; double* b = P[E[e][1]]; double u = 0, l = 0; for (int d = 0; d < 3; d++) { u += (sp[i][d] - a[d]) * (b[d] - a[d]); l += sq(b[d] - a[d]); } u /= l; sx_check(u >= -1e-6 && u <= 1 + 1e-6, "a sphere is not on its edge"); for (int d = 0; d < 3; d++) sx_check_near(sp[i][d], a[d] + u * (b[d] - a[d]), 1e-5, "a sphere is not on its edge");
    sx_check_le(sp[i][3], rmax + 1e-9, "a sphere above the maximum size"); if (sf) sx_check_le(sp[i][3], sv + 1e-9, "a sphere above the sizing function"); sx_check_le(1e-3, sp[i][3], "a sphere without size");
    // features it is not smooth with: the direction to the point, seen from its normal or tangent
    for (int k = 0; k < 2; k++) { double q[3]; put(q, 3, k ? -eh : fh); double dot = 0, h = dsq(sp[i], q); for (int d = 0; d < 3; d++) dot += (sp[i][d] - q[d]) * (k ? nu : nw)[d]; sx_any_begin(); sx_any(sq(sp[i][3]) - 0.16 * h - 1e-6); if (k) sx_any(0.8 * h - dot * dot); else sx_any(dot * dot - 0.2 * h); sx_any_check("larger than a feature allows"); }
    for (size_t k = 0; k < cs.get_num_tree_points(); k++) sx_check_le(sq(sp[i][3]), 0.16 * dsq(sp[i], cs.get_tree_point(k)) + 1e-6, "larger than a corner allows");
    for (size_t j = 0; j < i; j++) { double q = fabs(sp[i][3] - sp[j][3]) - 1e-6; if (q > 0) sx_check_le(q * q, Lip * Lip * dsq(sp[i], sp[j]), "Lipschitz bound between edge spheres"); } }
  // every point of every edge lies in a shrunken edge sphere or in a corner sphere
  for (size_t e = 0; e < ne; e++) { double t = sx_real(nm("t", e), 0, 1), x[3]; for (int d = 0; d < 3; d++) x[d] = P[E[e][0]][d] + t * (P[E[e][1]][d] - P[E[e][0]][d]); sx_any_begin(); for (size_t i = 0; i < n; i++) sx_any(dsq(x, sp[i]) - sq(0.8 * sp[i][3] + 1e-6)); for (size_t i = 0; i < cs.get_num_tree_points(); i++) { double* c = cs.get_tree_point(i); sx_any(dsq(x, c) - sq(c[3] + 1e-6)); } sx_any_check("an uncovered spot"); }
  sx_cover(n == 0 ? "none" : n < 4 ? "few" : "many"); sx_observe(n); S._input_sizing_function = 0;
}
