// Adjacency of an arbitrary triangle list.
#include "sxh.h"
#include "polymesh.h"
#ifndef NF
#define NF 3
#endif
#ifndef NP
#define NP 5
#endif
void sx_main() {
  sx_option("steps", 50000000); static const double P[6][3] = {{0, 0, 0}, {4, 1, 0}, {1, 5, 1}, {2, 2, 7}, {-3, 1, 2}, {1, -4, 3}}; size_t C[NF][3];
  for (int i = 0; i < NF; i++) { for (int k = 0; k < 3; k++) C[i][k] = i == 0 ? (size_t)k * 2 % 5 : (size_t)sx_int(nm("f", i, k), 0, NP - 1); sx_assume(C[i][0] != C[i][1]); sx_assume(C[i][1] != C[i][2]); sx_assume(C[i][2] != C[i][0]); }
  for (int i = 1; i < NF; i++) { if (i > 1) sx_assume(C[i - 1][0] <= C[i][0]); for (int j = 0; j < i; j++) { int same = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) same += C[i][k] == C[j][l]; sx_assume(same < 3); } }
  PM m; for (int i = 0; i < NP; i++) m.pt(P[i][0], P[i][1], P[i][2]); for (int i = 0; i < NF; i++) m.face(C[i][0], C[i][1], C[i][2]);
  MeshingPolyMesh M(NP, m.x.data(), NF, m.f.data(), 30.0);
  // isolated points are dropped, the other ones keep their order
  size_t map[NP], n = 0; for (int i = 0; i < NP; i++) { bool u = false; for (int j = 0; j < NF; j++) u |= pm_has(m.f[j], i); map[i] = u ? n++ : 99; if (u) for (int d = 0; d < 3; d++) { sx_check(map[i] < M._num_points, "a used point is dropped"); sx_check(M._points[map[i]][d] == P[i][d], "a point moved"); } }
  sx_check(M._num_points == n, "isolated points are not removed"); sx_check(M._num_faces == NF, "number of faces"); size_t H[NF][4];
  for (int j = 0; j < NF; j++) { H[j][0] = 3; for (int k = 1; k <= 3; k++) H[j][k] = map[m.f[j][k]]; sx_check(M._faces[j][0] == 3 && pm_same(M._faces[j], H[j]), "a face lost its corners"); }
  bool tight = true;
  size_t** pf = 0; M.build_point_faces(n, NF, M._faces, pf);
  for (size_t i = 0; i < n; i++) { size_t c = 0; for (int j = 0; j < NF; j++) c += pm_has(H[j], i); 
    for (int w = 0; w < 2; w++) { size_t* q = w ? pf[i] : M._point_faces[i]; sx_check(q[0] == c, "number of faces at a point"); for (size_t a = 1; a <= c; a++) { sx_check(q[a] < NF && pm_has(H[q[a]], i), "a face that does not touch the point"); for (size_t b = 1; b < a; b++) sx_check(q[a] != q[b], "face listed twice"); } } }
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j) { size_t c = 0; for (int k = 0; k < NF; k++) c += pm_has(H[k], i) && pm_has(H[k], j); if (c == 1) tight = false;
    sx_check(M.get_num_edge_faces(i, j) == c && M.get_num_edge_faces(i, j, M._faces, pf) == c, "number of faces of an edge");
    for (int w = 0; w < 2; w++) { size_t* e = 0; if (w) M.get_edge_faces(i, j, M._faces, pf, e); else M.get_edge_faces(i, j, e); sx_check(e[0] == c, "number of listed faces of an edge");
      for (size_t a = 1; a <= c; a++) { sx_check(e[a] < NF && pm_has(H[e[a]], i) && pm_has(H[e[a]], j), "a face that does not have the edge"); for (size_t b = 1; b < a; b++) sx_check(e[a] != e[b], "face listed twice"); } delete[] e; } }
  sx_check(M.water_tight_model() == tight, "watertightness"); sx_cover(tight ? "closed" : "open"); if (n < NP) sx_cover("isolated");
  for (size_t i = 0; i < n; i++) delete[] pf[i]; delete[] pf; sx_observe(n);
}
