// Contents of the .vcg file: cells (index, position, volume, region) and connections (cells, midpoint, area, unit normal).
#define SX_FILE_IMPL
#include "sxh.h"
#include "MeshingVoronoiMesher.h"
#include "vcgfile.h"
enum { NS = 4, NV = 9, NF = 5 };
std::map<std::string, std::string>& sx_fs() { static std::map<std::string, std::string> m; return m; }
static double V[NV * 3] = {0,0,1, 2,0,1, 3,1,1, 2,2,1, 0,2,1, 0,0,3, 0,2,3, 2,0,3, 2,2,3};
static size_t F0[] = {3,0,1,2,0,0}, F1[] = {5,0,1,2,3,4,0,0}, F2[] = {4,0,5,6,4,0,0}, F3[] = {4,0,1,7,5,0,0}, F4[] = {3,5,7,8,0,0}; static size_t* F[NF] = {F0, F1, F2, F3, F4};
static const int PAIR[2][NF][2] = {{{0,1},{1,2},{2,3},{0,3},{1,3}}, {{3,1},{2,0},{1,2},{3,0},{0,1}}};
static double area(size_t* f) { double x = 0, y = 0, z = 0; for (size_t i = 1; i <= f[0]; i++) { const double* a = V + 3 * f[i]; const double* b = V + 3 * f[i % f[0] + 1]; x += a[1] * b[2] - a[2] * b[1]; y += a[2] * b[0] - a[0] * b[2]; z += a[0] * b[1] - a[1] * b[0]; } return 0.5 * (fabs(x) + fabs(y) + fabs(z)); }   // axis-aligned polygons
void sx_main() {
  sx_option("steps", 20000000); sx_fs().clear(); MeshingVoronoiMesher M; static const double U[3] = {1, 2, 2}; double T[NS], S[NS * 3]; size_t R[NS];
  long who = sx_choice("who", NS), pr = sx_choice("pairs", 2), rp = sx_choice("regions", 81), mv = sx_choice("vertex", 3);
  for (int i = 0; i < NS; i++) { R[i] = rp % 3; rp /= 3; T[i] = i; if (i == who) T[i] = sx_real("t", 4, 9); for (int d = 0; d < 3; d++) S[3 * i + d] = T[i] * U[d]; }
  if (mv == 0) V[2 * 3] = sx_real("vx", 2.5, 4); if (mv == 1) V[2 * 3 + 1] = sx_real("vy", 0.25, 1.75); if (mv == 2) { double z = sx_real("vz", 2, 5); for (int i = 5; i < 9; i++) V[i * 3 + 2] = z; }
  size_t cn[NS], *cf[NS], buf[NS][NF]; for (int i = 0; i < NS; i++) { cn[i] = 0; cf[i] = buf[i]; }
  // every face is handed over, also those between ghosts; the expected connections are the faces of meshed cells, listed from a meshed cell
  size_t* FF[NF]; size_t nf = 0; int a[NF], b[NF];
  for (int f = 0; f < NF; f++) { int x = PAIR[pr][f][0], y = PAIR[pr][f][1]; size_t m = F[f][0]; F[f][m + 1] = x; F[f][m + 2] = y; if (R[x]) buf[x][cn[x]++] = f; if (R[y]) buf[y][cn[y]++] = f;
    if (R[x] == 0 && R[y] == 0) continue; if (R[x] == 0) std::swap(x, y); FF[nf] = F[f]; a[nf] = x; b[nf] = y; nf++; }
  M.save_vcg_file_pflotran("out.vcg", NS, S, R, NV, V, NF, F, cn, cf);
  std::vector<VcgCell> C; std::vector<VcgConn> G; sx_check(sx_fs().size() == 1 && sx_fs().count("out.vcg") == 1 && read_vcg(sx_fs()["out.vcg"], C, G), "file missing or malformed");
  size_t k = 0; long id[NS];
  for (int i = 0; i < NS; i++) if (R[i]) { id[i] = k + 1; sx_check(k < C.size(), "missing cell"); sx_check(C[k].id == (long)k + 1 && C[k].region == (long)R[i], "cell index or region"); for (int d = 0; d < 3; d++) sx_check_near(C[k].x[d], S[3 * i + d], 1e-9, "cell position");
    double vol = 0; for (size_t f = 0; f < nf; f++) if (a[f] == i || b[f] == i) vol += area(FF[f]) * 1.5 * fabs(T[a[f]] - T[b[f]]) / 3; sx_check_near(C[k].vol, vol, 1e-8, "cell volume"); k++; } else id[i] = 0;
  sx_check(k == C.size() && G.size() == nf, "number of cells or connections");
  for (size_t f = 0; f < nf; f++) { sx_check(G[f].a == id[a[f]] && G[f].b == (id[b[f]] ? id[b[f]] : id[a[f]]), "cells of a connection"); sx_check_near(G[f].area, area(FF[f]), 1e-9, "area of a connection");
    double sg = T[b[f]] > T[a[f]] ? 1 : -1; for (int d = 0; d < 3; d++) { sx_check_near(G[f].m[d], 0.5 * (T[a[f]] + T[b[f]]) * U[d], 1e-9, "centre of a connection"); sx_check_near(G[f].n[d], sg * U[d] / 3, 1e-9, "normal of a connection"); } }
  sx_cover(k < NS ? "ghost" : "all"); sx_observe(k); if (k) sx_observe(C[0].vol);
}
