// Features of a clean model as the sampler sees them: sharp edges, sharp corners, points sampled on edges and faces.
#include "sxh.h"
#include "MeshingVoroCrustSampler.h"
#include "polymesh.h"
#include <setjmp.h>
#ifndef NCFG
#define NCFG 7
#endif
#ifndef NTHR
#define NTHR 2
#endif
#ifndef LIM
#define LIM 3
#endif
struct World { PM m; MeshingSmartTree ts, te; size_t ne = 0, nc = 0, **E = 0, *C = 0, cnt[2] = {0, 0}, hit[16] = {}; double u[3], T; long at = 0, phase; jmp_buf out; };
static World* Wp;
#define K (*Wp)
// the first draws are arbitrary, the later ones cycle
double MeshingRandomSampler::generate_uniform_random_number() { long k = K.at++; return k < 3 ? K.u[k] : ((k * 37) % 64 + 0.5) / 64; }
static double pdot(const double* a, const double* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double plen(const double* a, const double* b) { double d[3]; for (int k = 0; k < 3; k++) d[k] = a[k] - b[k]; return sqrt(pdot(d, d)); }
// the clouds only need to receive points: the first ones are checked as they arrive; what was detected is settled by then, so the sampling of an arbitrary model ends there
int MeshingSmartTree::add_tree_point(size_t nd, double* x, double* nrm, size_t* at) {
  int k = this == &K.te; size_t c = K.cnt[k]++; if (!k && at[1] < 16) K.hit[at[1]]++; if (c >= LIM) { if (K.phase < 2) longjmp(K.out, 1); return 0; }
  sx_check(nd == 4 && nrm && at && at[0] == 2, "record of a sampled point"); size_t q = at[1];
  if (k) { sx_check(q < K.ne, "edge of a sampled point"); double *a = K.m.x[K.E[q][0]], *b = K.m.x[K.E[q][1]], h = 0, u = 0; for (int d = 0; d < 3; d++) { h += (b[d] - a[d]) * (b[d] - a[d]); u += (x[d] - a[d]) * (b[d] - a[d]); }
    sx_check_le(-1e-9, u, "a sampled point beyond the end of its edge"); sx_check_le(u, h + 1e-9, "a sampled point beyond the end of its edge"); for (int d = 0; d < 3; d++) { sx_check_near((x[d] - a[d]) * h, u * (b[d] - a[d]), 1e-6, "a sampled point is not on its edge"); sx_check_near(nrm[d] * plen(a, b), b[d] - a[d], 1e-6, "tangent of a sampled point"); } }
  else { sx_check(q < K.m.f.size(), "face of a sampled point"); size_t* f = K.m.f[q]; double N[3]; pm_cross(K.m.x.data(), f, N); double r = sqrt(pdot(N, N)); double* a = K.m.x[f[1]]; double e[3], w = 0; for (int d = 0; d < 3; d++) e[d] = x[d] - a[d]; sx_check_near(pdot(e, N), 0, 1e-6, "a sampled point is not in the plane of its face");
    for (int i = 1; i <= 3; i++) { double *p = K.m.x[f[i]], *s = K.m.x[f[i % 3 + 1]], u[3], v[3], c[3]; for (int d = 0; d < 3; d++) { u[d] = s[d] - p[d]; v[d] = x[d] - p[d]; } for (int d = 0; d < 3; d++) c[d] = u[(d + 1) % 3] * v[(d + 2) % 3] - u[(d + 2) % 3] * v[(d + 1) % 3]; w = pdot(c, N); sx_check_le(-1e-6, w, "a sampled point outside its face"); }
    for (int d = 0; d < 3; d++) sx_check_near(nrm[d] * r, N[d], 1e-6, "normal of a sampled point"); }
  return 0; }
static void verify() {
  PM& m = K.m; size_t nf = m.f.size(), np = m.x.size(), ne = K.ne, nc = K.nc, **E = K.E, *C = K.C; double T = K.T;
  double N[16][3]; for (size_t i = 0; i < nf; i++) { pm_cross(m.x.data(), m.f[i], N[i]); double r = sqrt(pdot(N[i], N[i])); for (int d = 0; d < 3; d++) N[i][d] /= r; }
  size_t SH[16][16] = {}, ns = 0; for (size_t i = 0; i < ne; i++) { size_t a = E[i][0], b = E[i][1]; sx_check(a < b && b < np, "ends of a sharp edge"); SH[a][b]++; }
  bool sh[16][16] = {};
  for (size_t a = 0; a < np; a++) for (size_t b = a + 1; b < np; b++) { size_t c = 0, w[16]; for (size_t i = 0; i < nf; i++) if (pm_dir(m.f[i], a, b)) w[c++] = i; bool sharp = c != 0 && c != 2; if (c == 2) { double cs = pdot(N[w[0]], N[w[1]]); sx_assume(cs < T - 1e-6 || cs > T + 1e-6); sharp = cs < T; sx_cover(sharp ? "sharp" : "smooth"); }
    sh[a][b] = sh[b][a] = sharp; if (sharp) ns++; sx_check((SH[a][b] > 0) == sharp, "a sharp edge is missed or a smooth one reported"); if (c == 2) sx_check(SH[a][b] < 2, "a sharp edge twice"); }
  for (size_t a = 0; a < np; a++) { size_t d = 0, w[16], l = 0; for (size_t b = 0; b < np; b++) if (sh[a][b]) w[d++] = b; bool corner = d == 1 || d > 2;
    if (d == 2) { double u[3], v[3]; for (int c = 0; c < 3; c++) { u[c] = m.x[w[0]][c] - m.x[a][c]; v[c] = m.x[a][c] - m.x[w[1]][c]; } double cs = pdot(u, v) / (sqrt(pdot(u, u)) * sqrt(pdot(v, v))); sx_assume(cs < T - 1e-6 || cs > T + 1e-6); corner = cs < T; sx_cover(corner ? "kink" : "straight"); }
    for (size_t i = 0; i < nc; i++) l += C[i] == a; sx_check(l == (corner ? 1 : 0), "a sharp corner is missed, reported twice or not one"); }
  for (size_t i = 0; i < nc; i++) sx_check(C[i] < np, "not a point"); sx_check(K.phase < 2 || ((K.cnt[1] > 0) == (ns > 0) && K.cnt[0] > 0), "nothing sampled"); if (K.phase == 2) { double all = 0, A[16]; for (size_t i = 0; i < nf; i++) { double c[3]; pm_cross(m.x.data(), m.f[i], c); A[i] = sqrt(pdot(c, c)); all += A[i]; } for (size_t i = 0; i < nf; i++) sx_check_le(0.25 * A[i] / all * K.cnt[0], K.hit[i] + 1.0, "a face gets far fewer points than its area calls for"); } sx_observe(ne); sx_observe(nc); sx_cover(K.phase == 1 ? "faces" : K.phase ? "all" : "edges");
}
void sx_main() {
  sx_option("steps", 2000000000); Wp = new World(); PM& m = K.m; K.phase = sx_choice("phase", 3); long cfg = K.phase == 1 ? 4 : sx_choice("model", NCFG); static const double THR[4] = {30, 75, 120, 5}; K.T = K.phase == 1 ? -1.5 : cos(THR[K.phase ? 0 : sx_choice("threshold", NTHR)] * PI / 180); double z = K.phase == 2 ? 1.25 : K.phase == 1 ? 0.25 + sx_choice("height", 3) : cfg == 6 ? 3 * sx_choice("bend", 3) : sx_real("z", -4, 4); for (int i = 0; i < 3; i++) K.u[i] = K.phase == 1 ? sx_grid(nm("u", i), 0, 15, 1.0 / 16) + 1.0 / 64 : 0.3 + i / 8.0;
  if (cfg == 0) { m.pt(0, 0, 0); m.pt(0, 1, 0); m.pt(1, 0.5, 0); static const double S[3] = {-1, 0.5, 0}; double sx = S[sx_choice("side", 3)]; if (sx == 0) sx_assume(z > 0.25); sx_assume(z * z > 1e-4); m.pt(sx, 0.5, z); m.face(0, 2, 1); m.face(0, 1, 3); }   // hinge
  else if (cfg == 1) { m.pt(0, 0, z); m.pt(1, 1, 0); m.pt(-1, 1, 0); m.pt(-1, -1, 0); m.pt(1, -1, 0); for (size_t i = 0; i < 4; i++) m.face(0, 1 + i, 1 + (i + 1) % 4); }   // open pyramid
  else if (cfg == 2) { m.pt(0, 0, 0); m.pt(1, 0, 0); m.pt(2, z * 0.5, 0); m.pt(1, 3, 0); m.face(0, 1, 3); m.face(1, 2, 3); }   // bent boundary of a flat sheet
  else if (cfg == 3) { m.pt(0, 0, 0); m.pt(0, 2, 0); m.pt(1, 1, 0); m.pt(-1, 1, 0.5); m.pt(0.25, 1, 2); m.face(0, 1, 2); m.face(0, 1, 3); m.face(1, 0, 4); m.pt(1, 3, z); m.face(2, 1, 5); }   // three faces at one edge, plus a hinge
  else if (cfg == 4) { sx_assume(z > 0.125); double P[6][3] = {{2, 0, 0}, {-1, 0, 0}, {0, 2, 0}, {0, -1, 0}, {0, 0, -1}, {0.25, 0.25, z}}; for (auto& p : P) m.pt(p[0], p[1], p[2]); for (size_t a = 0; a < 2; a++) for (size_t b = 2; b < 4; b++) for (size_t c = 4; c < 6; c++) { if ((a + b + c) % 2) m.face(a, b, c); else m.face(a, c, b); } }   // octahedron with a moving top
  else if (cfg == 6) { m.pt(0, 0, 0); m.pt(0, 2, 0); m.pt(z * 0.5, 4, 0); m.pt(2, 2, 0); m.pt(-2, 2, 0.5); m.pt(0.25, 2, 2); for (size_t o = 3; o < 6; o++) { m.face(0, 1, o); m.face(1, 2, o); } }   // three sheets along a bent line
  else { sx_assume(z > -1.9); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) m.pt(i * 2, j * 2, i == 1 ? z * 0.5 : 0); m.pt(6, 1, 0.75); for (size_t i = 0; i < 2; i++) { m.face(2 * i, 2 * i + 2, 2 * i + 1); m.face(2 * i + 2, 2 * i + 3, 2 * i + 1); } m.face(4, 6, 5); }   // folded strip
  long ord = sx_choice("order", K.phase == 2 ? 1 : 3); if (ord == 1) std::reverse(m.f.begin(), m.f.end()); if (ord == 2) std::rotate(m.f.begin(), m.f.begin() + 1, m.f.end());
  MeshingVoroCrustSampler* S = new MeshingVoroCrustSampler(1);
  if (!setjmp(K.out)) S->detect_features_generate_point_clouds_clean(m.x.size(), m.x.data(), m.f.size(), m.f.data(), K.T, &K.ts, &K.te, K.ne, K.E, K.nc, K.C);
  verify();
}
