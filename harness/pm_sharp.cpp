// Sharp edges and corners.
#include "sxh.h"
#include "polymesh.h"
#ifndef NCFG
#define NCFG 5
#endif
#ifndef NTHR
#define NTHR 2
#endif
static double dotn(const double* a, const double* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
void sx_main() {
  sx_option("steps", 50000000); long cfg = sx_choice("model", NCFG); static const double THR[4] = {30, 75, 120, 5}; double thr = THR[sx_choice("threshold", NTHR)], T = cos(thr * PI / 180); PM m; double z = cfg == 7 ? 0 : sx_real("z", -4, 4);
  if (cfg == 0) { m.pt(0, 0, 0); m.pt(0, 1, 0); m.pt(1, 0.5, 0); static const double S[3] = {-1, 0.5, 0}; double sx = S[sx_choice("side", 3)]; if (sx == 0) sx_assume(z > 0.25); sx_assume(z * z > 1e-4); m.pt(sx, 0.5, z); m.face(0, 2, 1); m.face(0, 1, 3); }   // hinge
  else if (cfg == 1) { m.pt(0, 0, z); m.pt(1, 1, 0); m.pt(-1, 1, 0); m.pt(-1, -1, 0); m.pt(1, -1, 0); for (size_t i = 0; i < 4; i++) m.face(0, 1 + i, 1 + (i + 1) % 4); }   // open pyramid
  else if (cfg == 2) { m.pt(0, 0, 0); m.pt(1, 0, 0); m.pt(2, z * 0.5, 0); m.pt(1, 3, 0); m.face(0, 1, 3); m.face(1, 2, 3); }   // bent boundary of a flat sheet
  else if (cfg == 3) { m.pt(0, 0, 0); m.pt(0, 2, 0); m.pt(1, 1, 0); m.pt(-1, 1, 0.5); m.pt(0.25, 1, 2); m.face(0, 1, 2); m.face(0, 1, 3); m.face(1, 0, 4); m.pt(1, 3, z); m.face(2, 1, 5); }   // three faces at one edge, plus a hinge
  else if (cfg == 5) { sx_assume(z > 0.125); double P[6][3] = {{2, 0, 0}, {-1, 0, 0}, {0, 2, 0}, {0, -1, 0}, {0, 0, -1}, {0.25, 0.25, z}}; for (auto& p : P) m.pt(p[0], p[1], p[2]); for (size_t a = 0; a < 2; a++) for (size_t b = 2; b < 4; b++) for (size_t c = 4; c < 6; c++) m.face(a, b, c); }   // octahedron with a moving top
  else if (cfg == 6) { sx_assume(z > -1.9); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) m.pt(i * 2, j * 2, i == 1 ? z * 0.5 : 0); m.pt(6, 1, 0.75); for (size_t i = 0; i < 2; i++) { m.face(2 * i, 2 * i + 2, 2 * i + 1); m.face(2 * i + 2, 2 * i + 3, 2 * i + 1); } m.face(4, 6, 5); }   // folded strip
  else if (cfg == 7) { static const double B[4] = {0.15, 0.53, 1.15, 1.65}; z = B[sx_choice("bend", 4)]; m.pt(0, 0, z); static const double Q[8][2] = {{2, 0}, {1.5, 1.5}, {0, 2}, {-1.5, 1.5}, {-2, 0}, {-1.5, -1.5}, {0, -2}, {1.5, -1.5}}; for (int i = 0; i < 8; i++) m.pt(Q[i][0], Q[i][1], 0); for (size_t i = 0; i < 8; i++) m.face(0, 1 + i, 1 + (i + 1) % 8); }   // cone of eight faces
  else { static const double Q[5][2] = {{5, 0}, {1, 4}, {-4, 3}, {-4, -3}, {1, -5}}; for (int i = 0; i < 5; i++) m.pt(Q[i][0], Q[i][1], i == 2 ? z : 0.5 * i); long rot = sx_choice("rotate", 3); for (size_t i = 0; i < 5; i++) { size_t c[3] = {i, (i + 1) % 5, (i + 2) % 5}; long r = i % 2 ? rot : 0; m.face(c[r], c[(r + 1) % 3], c[(r + 2) % 3]); } }   // a one-sided band
  long ord = sx_choice("order", 3); if (ord == 1) std::reverse(m.f.begin(), m.f.end()); if (ord == 2) std::rotate(m.f.begin(), m.f.begin() + 1, m.f.end());
  MeshingPolyMesh M(m.x.size(), m.x.data(), m.f.size(), m.f.data(), thr); size_t nf = m.f.size(), np = m.x.size();
  sx_check(M._num_faces == nf && M._num_points == np, "size of the mesh"); double N[16][3]; for (size_t i = 0; i < nf; i++) { pm_cross(M._points, M._faces[i], N[i]); double r = sqrt(dotn(N[i], N[i])); for (int d = 0; d < 3; d++) N[i][d] /= r; }
  size_t ns = 0; size_t E[16][16] = {}; 
  for (size_t a = 0; a < np; a++) for (size_t b = 0; b < a; b++) {
    size_t c = 0, w[16]; for (size_t i = 0; i < nf; i++) if (pm_dir(M._faces[i], a, b)) w[c++] = i;
    if (!c) continue; bool sharp = c != 2;
    if (c == 2) { double cs = dotn(N[w[0]], N[w[1]]); if (pm_dir(M._faces[w[0]], a, b) == pm_dir(M._faces[w[1]], a, b)) cs = -cs; sx_assume(cs < T - 1e-6 || cs > T + 1e-6); sharp = cs < T; sx_cover(sharp ? "sharp" : "smooth"); }
    E[a][b] = E[b][a] = sharp; if (sharp) ns++; sx_check(M.sharp_edge(a, b) == sharp && M.sharp_edge(b, a) == sharp, "a sharp edge is missed or a smooth one reported"); }
  sx_check(M._num_sharp_edges == ns, "number of sharp edges"); for (size_t i = 0; i < ns; i++) sx_check(E[M._sharp_edges[i][0]][M._sharp_edges[i][1]] == 1, "not a sharp edge");
  for (size_t i = 0; i < ns; i++) for (size_t j = 0; j < i; j++) sx_check(!(M._sharp_edges[i][0] == M._sharp_edges[j][0] && M._sharp_edges[i][1] == M._sharp_edges[j][1]) && !(M._sharp_edges[i][0] == M._sharp_edges[j][1] && M._sharp_edges[i][1] == M._sharp_edges[j][0]), "sharp edge listed twice");
  size_t k = 0;
  for (size_t a = 0; a < np; a++) {
    size_t d = 0, w[16]; for (size_t b = 0; b < np; b++) if (a != b && E[a][b]) w[d++] = b; bool corner = d == 1 || d > 2;
    sx_check(M._point_sharp_edges[a][0] == d, "number of sharp edges at a point"); for (size_t i = 1; i <= d; i++) { size_t e = M._point_sharp_edges[a][i]; sx_check(e < ns && (M._sharp_edges[e][0] == a || M._sharp_edges[e][1] == a), "a sharp edge that does not touch its point"); }
    if (d == 2) { double u[3], v[3]; for (int c = 0; c < 3; c++) { u[c] = M._points[w[0]][c] - M._points[a][c]; v[c] = M._points[a][c] - M._points[w[1]][c]; } double cs = dotn(u, v) / (sqrt(dotn(u, u)) * sqrt(dotn(v, v))); sx_assume(cs < T - 1e-6 || cs > T + 1e-6); corner = cs < T; sx_cover(corner ? "kink" : "straight"); }
    if (d == 0) for (size_t i = 0; i < nf; i++) for (size_t j = 0; j < i; j++) if (pm_has(M._faces[i], a) && pm_has(M._faces[j], a)) { int common = 0; for (int p = 1; p <= 3; p++) common += pm_has(M._faces[j], M._faces[i][p]); if (common != 1) continue; double cs = dotn(N[i], N[j]); sx_assume(cs < T - 1e-6 || cs > T + 1e-6); if (cs < T) { corner = true; sx_cover("cone"); } }
    if (corner) { sx_check(k < M._num_sharp_corners, "a sharp corner is missed"); sx_check(M._sharp_corners[k] == a, "sharp corners are wrong or not in order"); k++; } }
  sx_check(k == M._num_sharp_corners, "a corner too many"); sx_observe(ns); sx_observe(k);
}
