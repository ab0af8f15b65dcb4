// Consistent orientation of manifold patches.
#include "sxh.h"
#include "polymesh.h"
#ifndef NCFG
#define NCFG 5
#endif
#ifndef NROT
#define NROT 1
#endif
#ifndef NOFF
#define NOFF 2
#endif
#ifndef NFL
#define NFL 6
#endif
void sx_main() {
  sx_option("steps", 50000000); long cfg = sx_choice("model", NCFG); PM m; std::vector<std::array<size_t, 3>> F; double s = sx_real("s", 1, 4);
  auto tet = [&](size_t o) { F.push_back({o, o + 2, o + 1}); F.push_back({o, o + 1, o + 3}); F.push_back({o + 1, o + 2, o + 3}); F.push_back({o, o + 3, o + 2}); };
  if (cfg == 0) { m.pt(0, 0, 0); m.pt(s, 0, 0); m.pt(0, 3, 0); m.pt(1, 1, 3); tet(0); }
  else if (cfg == 1) { double P[6][3] = {{s, 0, 0}, {-1, 0, 0}, {0, 2, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -3}}; for (auto& p : P) m.pt(p[0], p[1], p[2]);
    for (size_t a = 0; a < 2; a++) for (size_t b = 2; b < 4; b++) for (size_t c = 4; c < 6; c++) { if ((a + b + c) % 2 == 0) F.push_back({a, b, c}); else F.push_back({a, c, b}); } }
  else if (cfg == 2) { m.pt(0, 0, 0); m.pt(2, 0, 0); m.pt(0, 3, 0); m.pt(1, 1, s); m.pt(10, 10, 10); m.pt(13, 10, 10); m.pt(10, 12, 10); m.pt(10, 10, 11); tet(0); tet(4); std::swap(F[1], F[6]); std::swap(F[3], F[4]); }
  else if (cfg == 3) { for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) m.pt(i, j * 2, i * j * s); for (size_t i = 0; i < 2; i++) { F.push_back({2 * i, 2 * i + 2, 2 * i + 1}); F.push_back({2 * i + 2, 2 * i + 3, 2 * i + 1}); } }   // an open strip
  else { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) m.pt(i * s, j * 2, k * 3); static const size_t Q[6][4] = {{0, 1, 3, 2}, {4, 6, 7, 5}, {0, 4, 5, 1}, {2, 3, 7, 6}, {0, 2, 6, 4}, {1, 5, 7, 3}}; for (auto& q : Q) { F.push_back({q[0], q[1], q[2]}); F.push_back({q[0], q[2], q[3]}); } }
  size_t nf = F.size(), off = sx_choice("first", nf < NOFF ? nf : NOFF), rot = sx_choice("rotate", NROT); long flips = sx_int("flips", 0, (1L << (nf > NFL ? NFL : nf)) - 1);
  for (size_t i = 0; i < nf; i++) { auto g = F[(i * 5 + off) % nf]; bool fl = i < NFL && ((flips >> i) & 1); size_t a = g[(rot + i) % 3], b = g[(rot + i + 1) % 3], c = g[(rot + i + 2) % 3]; if (fl) m.face(a, c, b); else m.face(a, b, c); }
  MeshingPolyMesh M(m.x.size(), m.x.data(), nf, m.f.data(), 30.0);
  sx_check(M._num_faces == nf && M._num_points == m.x.size(), "size of the mesh");
  for (size_t j = 0; j < nf; j++) { sx_check(pm_same(M._faces[j], m.f[j]), "a face lost its corners"); double n[3], c = 0, q = 0, r = 0; pm_cross(M._points, M._faces[j], n); for (int d = 0; d < 3; d++) { c += n[d] * M._face_normal[j][d]; q += n[d] * n[d]; r += M._face_normal[j][d] * M._face_normal[j][d]; }
    sx_check_sign(c, "normal does not follow the corner order"); sx_check_near(c * c, q, 1e-6, "normal is not orthogonal to its face"); sx_check_near(r, 1, 1e-6, "normal is not a unit vector"); }
  bool flipped = false;
  for (size_t i = 0; i < nf; i++) for (size_t j = 0; j < i; j++) for (int k = 1; k <= 3; k++) { size_t a = M._faces[i][k], b = M._faces[i][k % 3 + 1]; int d = pm_dir(M._faces[j], a, b); if (d) sx_check(d == -1, "two adjacent faces traverse their edge in the same direction"); }
  if (cfg == 4) for (size_t j = 0; j < nf; j++) { double c = 0; for (int d = 0; d < 3; d++) c += M._face_normal[j][d] * (M._points[M._faces[j][1]][d] - (d == 0 ? s * 0.5 : d == 1 ? 1.0 : 1.5)); sx_check_sign(c, "normals of a box do not point outward"); }
  for (size_t j = 0; j < nf; j++) for (int k = 1; k <= 3; k++) if (pm_dir(M._faces[j], m.f[j][k], m.f[j][k % 3 + 1]) == -1) flipped = true;
  sx_cover(flipped ? "flipped" : "kept"); sx_observe(M._face_normal[0][0]);
}
