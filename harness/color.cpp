// Colouring of surface seeds: two seeds get the same region exactly when they face the same side of the surface.
#include "sxh.h"
#include "MeshingVoroCrustSampler.h"
#ifndef M0
#define M0 0
#endif
#ifndef NM
#define NM 6
#endif
#ifndef NORD
#define NORD 4
#endif
#ifndef NFLIP
#define NFLIP 4
#endif
#ifndef NSYM
#define NSYM 2
#endif
struct Model { int nv, nt, nl; double x[9][3]; int kind[9]; int t[14][3]; int side[14][2]; };   // triangle corners counter-clockwise seen from region side[1]; the other side is side[0]
#define RING {1,0,0},{-0.5,0.75,0},{-0.5,-0.75,0}
static const Model MD[6] = {
  {6, 8, 2, {{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}}, {0,0,0,0,0,0}, {{0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5}}, {{1,0},{1,0},{1,0},{1,0},{1,0},{1,0},{1,0},{1,0}}},
  {5, 6, 2, {RING, {0,0,1}, {0,0,-1}}, {1,1,1,0,0}, {{0,1,3},{1,2,3},{2,0,3},{1,0,4},{2,1,4},{0,2,4}}, {{1,0},{1,0},{1,0},{1,0},{1,0},{1,0}}},
  {6, 9, 3, {RING, {0,0,1}, {0,0,-1}, {0,0,0}}, {1,1,1,0,0,0}, {{0,1,3},{1,2,3},{2,0,3},{1,0,4},{2,1,4},{0,2,4},{0,1,5},{1,2,5},{2,0,5}}, {{1,0},{1,0},{1,0},{2,0},{2,0},{2,0},{2,1},{2,1},{2,1}}},
  {5, 6, 2, {RING, {0,0,1}, {0,0,-1}}, {2,1,1,0,0}, {{0,1,3},{1,2,3},{2,0,3},{1,0,4},{2,1,4},{0,2,4}}, {{1,0},{1,0},{1,0},{1,0},{1,0},{1,0}}},
  {7, 12, 4, {RING, {0,0,1}, {0,0,-1}, {0,0,0.375}, {0,0,-0.25}}, {1,1,1,0,0,0,0}, {{0,1,3},{1,2,3},{2,0,3},{1,0,4},{2,1,4},{0,2,4},{0,1,5},{1,2,5},{2,0,5},{0,1,6},{1,2,6},{2,0,6}}, {{1,0},{1,0},{1,0},{2,0},{2,0},{2,0},{3,1},{3,1},{3,1},{2,3},{2,3},{2,3}}},
  {8, 8, 4, {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{5,5,5},{6,5,5},{5,6,5},{5,5,6}}, {0,0,0,0,0,0,0,0}, {{1,2,3},{0,2,1},{0,3,2},{0,1,3},{5,6,7},{4,6,5},{4,7,6},{4,5,7}}, {{1,0},{1,0},{1,0},{1,0},{3,2},{3,2},{3,2},{3,2}}} };
void sx_main() {
  sx_option("steps", 50000000); MeshingVoroCrustSampler V(1); long mi = M0 + sx_choice("model", NM), ord = sx_choice("order", NORD), flip = sx_choice("flip", NFLIP), sym = sx_choice("sym", NSYM); const Model& m = MD[mi];
  double X[9][3]; for (int i = 0; i < m.nv; i++) for (int d = 0; d < 3; d++) X[i][d] = m.x[i][d];
  // the apex, the wall or the size of the model is symbolic
  if (sym == 0) { if (mi == 0 || mi == 5) { double t = sx_real("x", 0.5, 2); X[mi ? 3 : 4][2] = mi ? 0.5 + t : t; if (mi == 0) { X[0][0] = t; } } else X[3][2] = sx_real("top", 0.5, 2); }
  else if (mi == 2 || mi == 4) X[5][2] = sx_real("wall", mi == 2 ? -0.25 : 0.125, 0.4375);
  else { double t = sx_real("t", 0.25, 4); for (int i = 0; i < m.nv; i++) for (int d = 0; d < 3; d++) X[i][d] *= t; }
  // numbering of the spheres: surface, edge, corner; within a kind in the order given by ord
  int id[9], cnt[3] = {0, 0, 0}, k = 0, back[9]; for (int t = 0; t < 3; t++) for (int q = 0; q < m.nv; q++) { int i = (ord & 1) ? m.nv - 1 - q : q; if (m.kind[i] != t) continue; id[i] = k; back[k] = i; k++; cnt[t]++; }
  MeshingSmartTree T[3], U, L, all, seeds; for (int s = 0; s < m.nv; s++) { int i = back[s]; double x[4] = {X[i][0], X[i][1], X[i][2], 0.5 + 0.125 * i}, nrm[3] = {0, 0, 1.0 + i}; size_t at[2] = {2, (size_t)(7 + i)}; T[m.kind[i]].add_tree_point(4, x, nrm, at); }
  double xs[2][14][3]; int tri[14], up[14]; size_t ref[14][3]; double h = 0.03125;
  for (int q = 0; q < m.nt; q++) {
    int t = ord == 0 ? q : ord == 1 ? m.nt - 1 - q : ord == 2 ? (5 * q + 3) % m.nt : (7 * q + 1) % m.nt; if (mi == 2 && ord >= 2) t = (q * (ord == 2 ? 4 : 7) + ord) % m.nt; if ((mi == 1 || mi == 3) && ord >= 2) t = (q * 5 + ord) % m.nt; tri[q] = t;
    int f = flip == 0 ? 0 : flip == 1 ? 1 : flip == 2 ? (t % 2) : ((t / 2 + t) % 2); up[q] = f; const double* a = X[m.t[t][0]]; const double* b = X[m.t[t][1]]; const double* c = X[m.t[t][2]]; double n[3];
    for (int d = 0; d < 3; d++) { int e = (d + 1) % 3, g = (d + 2) % 3; n[d] = (b[e] - a[e]) * (c[g] - a[g]) - (b[g] - a[g]) * (c[e] - a[e]); }
    for (int s = 0; s < 2; s++) { double sg = (s == 0) != (f == 1) ? 1 : -1; for (int d = 0; d < 3; d++) xs[s][q][d] = (a[d] + b[d] + c[d]) / 3 + sg * h * n[d]; }
    int o[3] = {0, 1, 2}, r = (q + ord) % 6; if (ord == 0) { // ascending, as the generator of the seeds lists them
      for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (id[m.t[t][o[i]]] < id[m.t[t][o[j]]]) std::swap(o[i], o[j]); } else { for (int i = 0; i < 3; i++) o[i] = r < 3 ? (i + r) % 3 : (5 - i + r) % 3; }
    for (int i = 0; i < 3; i++) ref[q][i] = id[m.t[t][o[i]]];
    for (int s = 0; s < 2; s++) { double x[4] = {xs[s][q][0], xs[s][q][1], xs[s][q][2], 0.25}, nrm[3] = {0, 1, 0}; size_t at[6] = {6, (size_t)q, ref[q][0], ref[q][1], ref[q][2], 0}; (s ? L : U).add_tree_point(4, x, nrm, at); } }
  size_t nr = 99; V.color_surface_seeds(&T[0], &T[1], &T[2], &U, &L, &all, &seeds, nr);
  sx_check(all.get_num_tree_points() == (size_t)m.nv && seeds.get_num_tree_points() == (size_t)(2 * m.nt), "number of merged spheres or seeds");
  for (int s = 0; s < m.nv; s++) { int i = back[s]; double* x = all.get_tree_point(s); for (int d = 0; d < 3; d++) sx_check(x[d] == X[i][d], "centre of a merged sphere"); sx_check(x[3] == 0.5 + 0.125 * i && all.get_tree_point_attrib(s)[1] == (size_t)(7 + i), "merged sphere"); }
  int label[28]; size_t reg[28];
  for (int s = 0; s < 2; s++) for (int q = 0; q < m.nt; q++) { int i = s * m.nt + q; size_t* a = seeds.get_tree_point_attrib(i); double* x = seeds.get_tree_point(i); for (int d = 0; d < 3; d++) sx_check(x[d] == xs[s][q][d], "position of a merged seed");
    sx_check(a[1] == (size_t)((1 - s) * m.nt + q) && a[2] == ref[q][0] && a[3] == ref[q][1] && a[4] == ref[q][2], "a merged seed does not refer to its partner and spheres"); label[i] = m.side[tri[q]][(s == 0) != (up[q] == 1)]; reg[i] = a[5]; }
  sx_check(nr == (size_t)(m.nl - 1), "number of regions");
  for (int i = 0; i < 2 * m.nt; i++) { sx_check(reg[i] <= nr, "region id out of range"); if (reg[i] == 0) sx_check(label[i] == 0 || (mi == 5 && label[i] == 2), "the outside is not region 0"); for (int j = 0; j < i; j++) sx_check((label[i] == label[j]) == (reg[i] == reg[j]), "seeds on the same side have different regions, or seeds on different sides the same"); }
  sx_cover(m.nl == 2 ? "two" : m.nl == 3 ? "three" : "four"); sx_observe(nr); for (int i = 0; i < 2 * m.nt; i++) sx_observe(reg[i]);
}
