// When the sampling of the surface may stop: its steps are stand-ins that follow an arbitrary history and keep track of what is still valid.
#include "sxh.h"
#include "MeshingVoroCrustSampler.h"
#ifndef NR
#define NR 2
#endif
#ifndef NCALL
#define NCALL 24
#endif
struct New { double x[4]; size_t face; };
struct World { MeshingSmartTree *s, *e, *c, *up, *lo, *sc, *ec; int NP, nt, lev[8], left, patch, cur, round, fate[8], newpatch[8], newthread[8]; long newcall[8], call; bool swept[8], lip, seeds, tight, pend; New nw[8]; std::vector<New> S; std::vector<size_t> tri; int saved, nnew; double* pts[3]; size_t* fc[2]; };
static World* Wp;
#define K (*Wp)
static void same(const char* what) { size_t n = K.s->get_num_tree_points(); sx_check(n == K.S.size(), what); for (size_t i = 0; i < n && i < K.S.size(); i++) { double* x = K.s->get_tree_point(i); size_t* a = K.s->get_tree_point_attrib(i); for (int d = 0; d < 4; d++) sx_check(x[d] == K.S[i].x[d], what); sx_check(a[0] == 2 && a[1] == K.S[i].face, what); } }
static void changed() { for (bool& b : K.swept) b = false; K.lip = K.seeds = K.tight = false; }
static void shrink(size_t i) { double* x = K.s->get_tree_point(i); x[3] *= 0.9; K.S[i].x[3] = x[3]; }
// a sample that was not covered has to be stored before the pool is looked at again, unless its piece is refined first
static void settle(bool refining) { if (!K.pend) return; K.pend = false; size_t n = K.s->get_num_tree_points(); if (refining && n == K.S.size()) return; sx_check(n == K.S.size() + 1, "an uncovered sample was not stored"); K.S.push_back(K.nw[K.nnew]); K.nnew++; bool sw[8]; for (int i = 0; i < 8; i++) sw[i] = K.swept[i]; changed(); for (int i = 0; i < 8; i++) K.swept[i] = sw[i]; }   // one more sphere takes nothing away from what is covered
int MeshingSmartTree::save_tree_csv(std::string f, size_t d) { settle(false); K.saved++; sx_check(f == "surface_spheres.csv" && d == 4 && this == K.s, "file written"); return 0; }
int MeshingVoroCrustSampler::initiate_active_pool(size_t np, double** p, size_t nf, size_t** f, size_t patch, size_t& n) { settle(false); sx_check(np == 3 && nf == 2 && p == K.pts && f == K.fc, "model"); sx_check(K.cur < 0, "a pool was left before it was empty"); n = K.NP; sx_check(patch < (size_t)K.NP, "patch"); same("spheres before a sweep"); K.cur = patch; K.left = K.lev[K.round]; K.call = 0; _active_pool_size = 2; return 0; }
int MeshingVoroCrustSampler::sample_active_pool(size_t ns, size_t np, double** p, size_t nf, size_t** f, MeshingSmartTree* sc, MeshingSmartTree* ec, double rmin, MeshingSmartTree* s, MeshingSmartTree* e, MeshingSmartTree* c, double th, double rmax, double Lip, double cov, double** x, size_t* xf, bool* covd) {
  settle(false); sx_check(K.cur >= 0, "no active pool"); sx_check(sc == K.sc && ec == K.ec && s == K.s && e == K.e && c == K.c && p == K.pts && f == K.fc && np == 3 && nf == 2, "arguments of the sampling"); sx_check(rmin == 0 && th == 0.5 && rmax == 7 && Lip == 0.25 && cov == 0.75, "limits of the sampling"); sx_check((ns > 0) == (s->get_num_tree_points() > 0), "number of samples"); same("spheres during a sweep");
  for (int t = 0; t < K.nt; t++) { covd[t] = true; for (int d = 0; d < 4; d++) x[t][d] = 77; xf[t] = 9; } int r = K.round; if (K.nnew == r && K.newpatch[r] == K.cur && K.call == K.newcall[r]) { int t = K.newthread[r]; covd[t] = false; for (int d = 0; d < 4; d++) x[t][d] = K.nw[r].x[d]; xf[t] = K.nw[r].face; K.pend = true; } K.call++; return 0; }
int MeshingVoroCrustSampler::refine_active_pool(size_t np, double** p, size_t nf, size_t** f, MeshingSmartTree* s, MeshingSmartTree* e, MeshingSmartTree* c, double Lip, double cov) { settle(true); sx_check(K.cur >= 0 && s == K.s && e == K.e && c == K.c && p == K.pts && f == K.fc && np == 3 && nf == 2 && Lip == 0.25 && cov == 0.75, "arguments of the refinement"); same("spheres before a refinement"); if (K.left-- == 0) { _active_pool_size = 0; K.swept[K.cur] = true; K.cur = -1; } return 0; }
int MeshingSpheresMethods::impose_lipschitz_continuity(MeshingSmartTree* s, double Lip, bool& sh) { settle(false); sx_check(s == K.s && Lip == 0.25, "arguments of the Lipschitz step"); same("spheres before the Lipschitz step"); for (int i = 0; i < K.NP; i++) sx_check(K.swept[i], "not every patch is covered"); sx_check(K.cur < 0, "a pool was left before it was empty"); sh = K.fate[K.round] == 1 && K.S.size(); if (sh) { shrink(K.S.size() - 1); changed(); K.round++; } else K.lip = true; return 0; }
int MeshingVoroCrustSampler::generate_surface_seeds(size_t np, double** p, size_t nf, size_t** f, MeshingSmartTree* s, MeshingSmartTree* e, MeshingSmartTree* c, double Lip, bool& sh, MeshingSmartTree* u, MeshingSmartTree* l) { sx_check(s == K.s && e == K.e && c == K.c && u == K.up && l == K.lo && p == K.pts && f == K.fc && np == 3 && nf == 2 && Lip == 0.25, "arguments of the seeds"); same("spheres before the seeds"); sx_check(K.lip, "seeds of spheres that are not Lipschitz"); u->clear_memory(); l->clear_memory(); K.tri.clear(); sh = K.fate[K.round] == 2 && K.S.size(); if (sh) { shrink(0); changed(); K.round++; return 0; } K.seeds = true;
  size_t n = 1 + K.round; for (size_t i = 0; i < n; i++) { size_t a[6] = {6, i, 10 + i, 20 + 3 * i, 31 + i, 0}, b[6] = {6, i, 40 + i, 50 + i, 60 + i, 0}; double x[4] = {double(i), 1, 2, 1}; l->add_tree_point(4, x, 0, a); u->add_tree_point(4, x, 0, b); for (int k = 2; k < 5; k++) K.tri.push_back(a[k]); } return 0; }
bool MeshingVoroCrustSampler::validate_surface_mesh(MeshingSmartTree* s, MeshingSmartTree* e, MeshingSmartTree* c, size_t n, size_t** t) { sx_check(s == K.s && e == K.e && c == K.c, "arguments of the validation"); same("spheres before the validation"); sx_check(K.seeds, "mesh of outdated seeds"); sx_check(n == K.tri.size() / 3, "number of triangles"); for (size_t i = 0; i < n && i < K.tri.size() / 3; i++) { sx_check(t[i][0] == 3, "triangle"); for (int k = 0; k < 3; k++) sx_check(t[i][1 + k] == K.tri[3 * i + k], "corner of a triangle"); }
  if (K.fate[K.round] == 3) { if (K.S.size()) shrink(0); changed(); K.round++; return false; } K.tight = true; return true; }
void sx_main() {
  sx_option("steps", 500000000); Wp = new World(); K.cur = -1; K.round = 0; K.nnew = 0; K.saved = 0; K.pend = false; changed(); MeshingSmartTree T[7]; MeshingSmartTree** tp[7] = {&K.s, &K.e, &K.c, &K.up, &K.lo, &K.sc, &K.ec}; for (int i = 0; i < 7; i++) *tp[i] = &T[i];
  K.nt = 1 + sx_choice("threads", 2); K.NP = sx_choice("patches", 2) ? 3 : 1; double P[3][3] = {{0,0,0},{1,0,0},{0,1,0}}; for (int i = 0; i < 3; i++) K.pts[i] = P[i]; size_t F[2][4] = {{3,0,1,2},{3,0,2,1}}; K.fc[0] = F[0]; K.fc[1] = F[1];
  for (int r = 0; r <= NR; r++) { K.fate[r] = r == NR ? 0 : sx_choice(nm("fate", r), 4); if (r < NR && K.fate[r] == 0) { for (int q = r + 1; q <= NR; q++) K.fate[q] = 0; r = NR; } }
  // one new sphere in every round, at an arbitrary moment
  for (int r = 0; r <= NR; r++) { K.lev[r] = r % 2; K.newpatch[r] = r == 1 ? 0 : K.NP - 1; K.newcall[r] = r == 0 ? sx_int("when", 0, NCALL) * 9 : 3 + r; K.newthread[r] = r % K.nt; for (int d = 0; d < 4; d++) K.nw[r].x[d] = r + d + 1; if (r < 2) K.nw[r].x[3] = sx_real(nm("r", r), 0.5, 5); K.nw[r].face = r % 2; }
  MeshingVoroCrustSampler V(1); V._num_threads = K.nt; V._rsamplers.resize(K.nt); for (int i = 1; i < K.nt; i++) V._rsamplers[i] = new MeshingRandomSampler(i); V.generate_surface_spheres(3, K.pts, 2, K.fc, K.sc, K.ec, 0, K.s, K.e, K.c, K.up, K.lo, 0.5, 7, 0.25, 0.75);
  settle(false); sx_check(K.tight && K.seeds && K.lip, "stopped before the surface was accepted"); same("spheres changed after they were accepted"); for (int i = 0; i < K.NP; i++) sx_check(K.swept[i], "stopped before the surface was covered"); sx_check(K.up->get_num_tree_points() == K.tri.size() / 3 && K.lo->get_num_tree_points() == K.tri.size() / 3, "seeds of an earlier round"); sx_check(K.saved == 1, "the spheres are written once, when accepted"); sx_cover(K.round ? "again" : "at once"); sx_observe(K.round); sx_observe(K.S.size());
}
