// Region merging and cell/face bookkeeping of the explicit mesh; the Voronoi mesher is a stand-in that returns an arbitrary face graph.
#define SX_FILE_IMPL
#include "sxh.h"
#include "MeshingVoroCrust.h"
#include "vcgfile.h"
#ifndef NS
#define NS 5
#endif
#ifndef NF
#define NF 3
#endif
std::map<std::string, std::string>& sx_fs() { static std::map<std::string, std::string> m; return m; }
static long fa[NF], fb_[NF], nfaces; static size_t rid[NS]; static double SD[NS * 3];
static const double SHAPE[4][3] = {{0,0,0},{2,0,0},{2,1,0},{0,1,0}};
int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int, size_t n, double* s, size_t* r, double* z, size_t& nv, double*& v, size_t& nf, size_t**& F) {
  sx_check(n == NS, "number of seeds handed to the mesher"); for (size_t i = 0; i < n; i++) { sx_check(r[i] == rid[i], "region handed to the mesher"); for (int d = 0; d < 3; d++) sx_check(s[i * 3 + d] == SD[i * 3 + d], "seed handed to the mesher"); }
  nv = 4; v = new double[12]; for (int i = 0; i < 12; i++) v[i] = SHAPE[i / 3][i % 3]; nf = nfaces; F = new size_t*[nf];
  for (size_t f = 0; f < nf; f++) { size_t m = f % 2 ? 3 : 4; F[f] = new size_t[m + 3]; F[f][0] = m; for (size_t i = 0; i < m; i++) F[f][i + 1] = i; F[f][m + 1] = fa[f]; F[f][m + 2] = fb_[f]; }
  return 0;
}
void sx_main() {
  sx_option("steps", 20000000); sx_fs().clear(); MeshingVoroCrust V("none.in"); long surf = sx_choice("surface", NSURF), pat = sx_choice("regions", 4);
  static const int PAT[4][6] = {{1,2,3,4,5,6}, {4,3,2,1,5,2}, {0,1,2,3,1,0}, {2,5,0,1,5,3}};   // region of every seed
  for (int i = 0; i < NS; i++) { rid[i] = PAT[pat][i]; for (int d = 0; d < 3; d++) SD[i * 3 + d] = i + d * 0.5 * (i % 2); }
  nfaces = NF; for (int f = 0; f < NF; f++) { fa[f] = sx_int(nm("a", f), 0, NS - 1); fb_[f] = sx_int(nm("b", f), 0, NS - 1); sx_assume(fa[f] != fb_[f]); sx_assume(rid[fa[f]] != 0); sx_assume(rid[fb_[f]] == 0 || fa[f] < fb_[f]); }
  double* s = new double[NS * 3]; double* z = new double[NS]; size_t* r = new size_t[NS]; for (int i = 0; i < NS; i++) { r[i] = rid[i]; z[i] = 1; for (int d = 0; d < 3; d++) s[i * 3 + d] = SD[i * 3 + d]; }
  long n = surf; V.generate_explicit_mesh(1, NS, s, r, z, n, true, false);
  // classes of region ids linked by faces between interior seeds
  int root[8]; for (int i = 0; i < 8; i++) root[i] = i;
  for (int k = 0; k < 8; k++) for (int f = 0; f < NF; f++) { if (fa[f] < n || fb_[f] < n) continue; int x = root[rid[fa[f]]], y = root[rid[fb_[f]]]; int lo = x < y ? x : y, hi = x < y ? y : x; if (lo != hi) for (int i = 0; i < 8; i++) if (root[i] == hi) root[i] = lo; }
  std::vector<VcgCell> C; std::vector<VcgConn> F; sx_check(sx_fs().count("mesh.vcg") == 1 && read_vcg(sx_fs()["mesh.vcg"], C, F), "mesh.vcg is missing or malformed");
  size_t k = 0; long id[NS]; bool merged = false;
  for (int i = 0; i < NS; i++) { id[i] = -1; if (root[rid[i]] != (int)rid[i]) merged = true; if (root[rid[i]] == 0) continue; sx_check(k < C.size(), "a meshed cell is missing"); sx_check(C[k].region == root[rid[i]], "wrong region of a cell"); id[i] = k + 1; 
    double vol = 0; for (int f = 0; f < NF; f++) if (fa[f] == i || fb_[f] == i) { double h = 0; for (int d = 0; d < 3; d++) h += (SD[fa[f] * 3 + d] - SD[fb_[f] * 3 + d]) * (SD[fa[f] * 3 + d] - SD[fb_[f] * 3 + d]); vol += (f % 2 ? 1.0 : 2.0) * 0.5 * sqrt(h) / 3; }
    sx_check_near(C[k].vol, vol, 1e-9, "a cell is not given exactly its own faces"); k++; }
  sx_check(k == C.size(), "a ghost cell is meshed"); size_t m = 0;
  for (int f = 0; f < NF; f++) { long a = id[fa[f]], b = id[fb_[f]]; if (a < 0) { a = b; b = -1; } if (a < 0) continue; sx_check(m < F.size() && F[m].a == a && F[m].b == (b > 0 ? b : a), "connection missing or between wrong cells"); m++; }
  sx_check(F.size() == m, "number of connections");
  sx_cover(merged ? "merged" : "kept"); sx_observe(C.size());
}
