// What the interior sampling is given and what becomes of its result: the three sampling steps are stand-ins that check their input and add known seeds.
#define SX_FILE_IMPL
#include "sxh.h"
#include "MeshingVoroCrust.h"
#include "MeshingVoronoiMesher.h"
std::map<std::string, std::string>& sx_fs() { static std::map<std::string, std::string> m; return m; }
struct Seed { double x[3], r; size_t reg; };
struct World { std::vector<Seed> s; std::vector<double> sp[3], sz; size_t nsz; double imp[8]; int nimp, mask, nkd, ngen, step; double g, shrink; std::vector<double> file[3]; int saved[3]; double u[2]; int at; size_t atk; };
static World* Wp;
#define K (*Wp)
static const double U[3] = {1, 2, 2}, W[3] = {2, 1, -2};
static void put(double* p, double s, double t) { for (int d = 0; d < 3; d++) p[d] = s * U[d] + t * W[d]; }
static void given(size_t n, double* s, double* z, size_t* g, size_t n0, double* c0, double* r0, size_t n1, double* c1, double* r1, size_t n2, double* c2, double* r2, size_t ns, double* q, double* v, int nt, double Lip, double rmax) {
  sx_check(n == K.s.size(), "number of seeds handed over"); for (size_t i = 0; i < n && i < K.s.size(); i++) { for (int d = 0; d < 3; d++) sx_check_eq(s[3 * i + d], K.s[i].x[d], "position of a seed handed over"); sx_check_eq(z[i], K.s[i].r, "size of a seed handed over"); sx_check(g[i] == K.s[i].reg, "region of a seed handed over"); }
  size_t nn[3] = {n0, n1, n2}; double *cc[3] = {c0, c1, c2}, *rr[3] = {r0, r1, r2}; for (int k = 0; k < 3; k++) { sx_check(nn[k] == K.sp[k].size() / 4, "number of spheres handed over"); for (size_t i = 0; i < nn[k]; i++) { for (int d = 0; d < 3; d++) sx_check_eq(cc[k][3 * i + d], K.sp[k][4 * i + d], "centre of a sphere handed over"); sx_check_eq(rr[k][i], K.sp[k][4 * i + 3], "radius of a sphere handed over"); } }
  sx_check(ns == K.sz.size() / 4, "number of sizing points handed over"); for (size_t i = 0; i < ns; i++) { for (int d = 0; d < 3; d++) sx_check_eq(q[3 * i + d], K.sz[4 * i + d], "sizing point handed over"); sx_check_eq(v[i], K.sz[4 * i + 3], "sizing value handed over"); }
  sx_check(nt == 3 && Lip == 0.25 && rmax == 7.5, "limits handed over"); }
static void grow(size_t& n, double*& s, double*& z, size_t*& g) { double *S = new double[3 * K.s.size()], *Z = new double[K.s.size()]; size_t* G = new size_t[K.s.size()]; for (size_t i = 0; i < K.s.size(); i++) { for (int d = 0; d < 3; d++) S[3 * i + d] = K.s[i].x[d]; Z[i] = K.s[i].r; G[i] = K.s[i].reg; } delete[] s; delete[] z; delete[] g; s = S; z = Z; g = G; n = K.s.size(); }
int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& n, double*& s, double*& z, size_t*& g, size_t n0, double* c0, double* r0, size_t n1, double* c1, double* r1, size_t n2, double* c2, double* r2, size_t ns, double* q, double* v, int nt, double Lip, double rmax) {
  sx_check(K.step == 0, "order of the steps"); K.step = 1; given(n, s, z, g, n0, c0, r0, n1, c1, r1, n2, c2, r2, ns, q, v, nt, Lip, rmax); for (int i = 0; i < K.nkd; i++) { Seed a; put(a.x, 3 + i, 9); a.r = 1.5 + i; a.reg = 1; K.s.push_back(a); } if (K.nkd) grow(n, s, z, g); return 0; }
int MeshingVoronoiMesher::impose_interior_seeds(size_t& n, double*& s, double*& z, size_t*& g, size_t n0, double* c0, double* r0, size_t n1, double* c1, double* r1, size_t n2, double* c2, double* r2, size_t ns, double* q, double* v, size_t ni, double* im, int nt, double Lip, double rmax) {
  sx_check(K.step == 1, "order of the steps"); K.step = 2; given(n, s, z, g, n0, c0, r0, n1, c1, r1, n2, c2, r2, ns, q, v, nt, Lip, rmax); sx_check(ni == (size_t)K.nimp, "number of imposed seeds"); for (int i = 0; i < 4 * K.nimp; i++) sx_check_eq(im[i], K.imp[i], "imposed seed");
  for (int i = 0; i < K.nimp; i++) if (K.mask >> i & 1) { Seed a; for (int d = 0; d < 3; d++) a.x[d] = K.imp[4 * i + d]; a.r = K.imp[4 * i + 3]; a.reg = 2; K.s.push_back(a); } grow(n, s, z, g); return 0; }
int MeshingVoronoiMesher::generate_interior_seeds(size_t& n, double*& s, double*& z, size_t*& g, size_t n0, double* c0, double* r0, size_t n1, double* c1, double* r1, size_t n2, double* c2, double* r2, size_t ns, double* q, double* v, int nt, double Lip, double rmax) {
  sx_check(K.step == (K.nimp ? 2 : 1), "order of the steps"); K.step = 3; given(n, s, z, g, n0, c0, r0, n1, c1, r1, n2, c2, r2, ns, q, v, nt, Lip, rmax); for (auto& a : K.s) a.r *= K.shrink;
  static const double GP[3] = {0, 17, 12.5}; for (int i = 0; i < K.ngen; i++) { Seed a; put(a.x, i ? GP[i] : K.g, 0.5); a.r = 1 + 0.25 * i; a.reg = 1 + i % 2; K.s.push_back(a); } grow(n, s, z, g); return 0; }
int MeshingVoronoiMesher::load_spheres_csv(std::string f, size_t dim, size_t& n, double*& s) { sx_check(f == "monitoring_points.csv" && dim == 3 && K.nimp, "file of imposed points"); n = K.nimp; s = new double[4 * n]; for (size_t i = 0; i < 4 * n; i++) s[i] = K.imp[i]; return 0; }
int MeshingVoronoiMesher::save_spheres_csv(std::string f, size_t dim, size_t n, double* s, double* z, size_t* g) { int k = f == "seeds.csv" ? 0 : f == "monitoring_points_closest_seeds.csv" ? 1 : f == "monitoring_points.csv" ? 2 : 3; sx_check(k < 3 && dim == 3, "file written"); K.saved[k]++; sx_check((k == 0) == (z != 0) && (k == 0) == (g != 0), "columns of a file"); K.file[k].clear();
  for (size_t i = 0; i < n; i++) { if (k == 0) { for (int d = 0; d < 3; d++) K.file[k].push_back(s[3 * i + d]); K.file[k].push_back(z[i]); K.file[k].push_back(g[i]); } else for (int d = 0; d < 4; d++) K.file[k].push_back(s[4 * i + d]); } return 0; }
double MeshingRandomSampler::generate_uniform_random_number() { int k = K.at++; return k < 2 ? K.u[k] : 0.4375; }
static double dsq(const double* a, const double* b) { double h = 0; for (int d = 0; d < 3; d++) h += (a[d] - b[d]) * (a[d] - b[d]); return h; }
void sx_main() {
  sx_option("steps", 20000000); Wp = new World(); K.at = 0; K.step = 0; for (int k = 0; k < 3; k++) K.saved[k] = 0; int mode = sx_choice("mode", 4); K.nimp = mode == 2 ? 1 : mode == 3 ? 2 : 0; K.mask = K.nimp == 2 ? sx_choice("accepted", 4) : 1; K.nkd = sx_choice("delaunay", 3); K.ngen = K.nimp ? 3 : sx_choice("generated", 3); K.shrink = 1 - 0.5 * sx_choice("shrink", 2); K.u[0] = 0.75; K.u[1] = 0.25;
  bool gen = mode == 1 || (mode == 3 && K.mask == 3); int what = sx_choice("arbitrary", 3); double w = what == 0 ? sx_real("w", 30, 40) : 33.5; K.g = what == 1 && K.nimp ? sx_grid("g", 0, 120, 0.25) : 11.5;
  if (mode == 1) { K.g = 11.5; K.u[0] = sx_grid("u0", 0, 255, 1.0 / 256); K.u[1] = sx_grid("u1", 0, 7, 1.0 / 8); }
  MeshingSmartTree* T[3]; MeshingSmartTree* st = new MeshingSmartTree(3); size_t nz = sx_choice("sizing", 2) * 2, full = mode < 2 ? sx_choice("spheres", 4) : 3; MeshingSmartTree* zt = nz ? new MeshingSmartTree(3) : 0;
  for (int i = 0; i < 4; i++) { Seed a; put(a.x, 20 + i, i % 2 - 3); a.r = 2 + i * 0.25; a.reg = i % 3; if (what == 0 && i == 1) a.x[1] = w; K.s.push_back(a); size_t at[6] = {6, (size_t)(i ^ 1), 5, 6, 7, a.reg}; double x[4] = {a.x[0], a.x[1], a.x[2], a.r}; st->add_tree_point(4, x, 0, at); }
  for (int k = 0; k < 3; k++) { T[k] = new MeshingSmartTree(3); size_t n = full == 3 ? 2 - (k == 1) : full == (size_t)k ? 0 : 1; for (size_t i = 0; i < n; i++) { double x[4]; put(x, 40 + 5 * k + i, k); x[3] = k + i + 0.5; if (what == 2 && i + 1 == n) x[3] = sx_real(nm("r", k), 1, 3); for (int d = 0; d < 4; d++) K.sp[k].push_back(x[d]); T[k]->add_tree_point(4, x, 0, 0); } }
  for (size_t i = 0; i < nz; i++) { double x[4]; put(x, 60 + i, i); x[3] = what == 2 && i ? sx_real("z", 1, 3) : 2.25; for (int d = 0; d < 4; d++) K.sz.push_back(x[d]); zt->add_tree_point(4, x, 0, 0); }
  for (int i = 0; i < K.nimp; i++) { put(K.imp + 4 * i, i ? 14.25 : 11, 0); K.imp[4 * i + 3] = i ? 5.0 : 6.25; }
  std::vector<Seed>& S = K.s; size_t ns = 4; MeshingVoroCrust V("none"); size_t n = 0; double *s = 0, *z = 0; size_t* g = 0;
  V.generate_interior_seeds(st, T[0], T[1], T[2], zt, 3, 0.25, 7.5, K.nimp > 0, gen, n, s, g, z);
  sx_check(K.step == 3, "interior seeds are generated last"); size_t base = ns + K.nkd; std::vector<Seed> X; size_t acc = 0; for (int i = 0; i < K.nimp; i++) acc += K.mask >> i & 1;
  for (size_t i = 0; i < S.size(); i++) { Seed a = S[i]; bool in = false; if (i >= base && i < base + acc) { int m = 0; for (int j = 0; j < K.nimp; j++) { bool same = dsq(a.x, K.imp + 4 * j) < 1e-9; if (same) m = j; } a.r = K.imp[4 * m + 3]; }
    if (i >= base + acc) for (int j = 0; j < K.nimp; j++) if (K.mask >> j & 1) { double h = dsq(a.x, K.imp + 4 * j), r = K.imp[4 * j + 3]; if (h > r * r - 1e-6 && h < r * r + 1e-6) sx_assume(0); if (h < r * r) in = true; } if (!in) X.push_back(a); }
  sx_check(n == X.size(), "seeds kept"); if (n != X.size()) return; sx_check(K.saved[0] == 1 && K.file[0].size() == 5 * n, "seeds written");
  for (size_t i = 0; i < n; i++) { for (int d = 0; d < 3; d++) { sx_check_eq(s[3 * i + d], X[i].x[d], "position of a seed"); sx_check_eq(K.file[0][5 * i + d], X[i].x[d], "position of a written seed"); } sx_check_eq(z[i], X[i].r, "size of a seed"); sx_check_eq(K.file[0][5 * i + 3], X[i].r, "size of a written seed"); sx_check(g[i] == X[i].reg && K.file[0][5 * i + 4] == (double)X[i].reg, "region of a seed"); }
  sx_check(K.saved[1] == (K.nimp > 0), "file of the closest seeds");
  if (K.nimp) { sx_check(K.file[1].size() == 4 * (size_t)K.nimp, "one closest seed per imposed point"); for (int i = 0; i < K.nimp; i++) { double* f = &K.file[1][4 * i]; bool is = false; double near = 1e30; for (auto& a : X) near = fmin(near, dsq(a.x, K.imp + 4 * i)); for (auto& a : X) if (dsq(a.x, f) < 1e-9 && fabs(a.r - f[3]) < 1e-9) is = true; sx_check(is, "the closest seed is not a seed of the mesh"); sx_check_le(dsq(f, K.imp + 4 * i), near + 1e-6, "the closest seed is not the closest one"); } }
  bool wr = gen && !K.nimp; sx_check(K.saved[2] == (wr ? 1 : 0), "file of monitoring points");
  if (wr) { size_t m = S.size() - ns; sx_check(K.file[2].size() == 4 * m, "number of monitoring points"); bool used[8] = {}; for (size_t i = 0; i < m; i++) { bool ok = false; for (size_t j = 0; j < m && !ok; j++) if (!used[j]) { Seed& a = S[ns + j]; double* f = &K.file[2][4 * i]; if (f[0] == a.x[0] && f[1] == a.x[1] && f[2] == a.x[2] && f[3] == a.r) { used[j] = true; ok = true; } } sx_check(ok, "a monitoring point is not a seed of its own"); } }
  sx_cover(wr ? "monitoring" : !K.nimp ? "plain" : n < S.size() ? "removed" : "kept"); sx_observe(n); delete[] s; delete[] z; delete[] g;
}
