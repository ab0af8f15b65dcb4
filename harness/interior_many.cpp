// More interior seeds than fit in the first buffer: they are merged into the seed list with their sizes and volumes.
#include "sxh.h"
#include "MeshingVoronoiMesher.h"
#include "MeshingRandomSampler.h"
int MeshingVoronoiMesher::save_spheres_csv(std::string, size_t, size_t, double*, double*, size_t*) { return 0; }   // a debugging file
enum { NS = 51 };
static int thrown, pending, who, turns; static double usym;
int MeshingRandomSampler::sample_uniformly_from_unit_sphere(double* dart, size_t num_dim) {
  static const double p = 1.6180339887498949, q = 0.6180339887498949, s = 0.57735026918962573; int k = thrown % 20, seed = thrown / 20; thrown++; for (int d = 0; d < 3; d++) dart[d] = 0; pending = 0;
  if (seed >= turns) return 0; pending = 1 + seed * 20 + k;
  if (k < 8) { for (int d = 0; d < 3; d++) dart[d] = (k >> d & 1) ? s : -s; } else { int a = (k - 8) / 4, m = (k - 8) % 4; dart[(a + 1) % 3] = (m & 1 ? q : -q) * s; dart[(a + 2) % 3] = (m & 2 ? p : -p) * s; } return 0; }
double MeshingRandomSampler::generate_uniform_random_number() { if (pending) { int k = pending - 1; pending = 0; return k == who ? usym : 0.96875; } return 0; }
void sx_main() {
  sx_option("steps", 2000000000); MeshingVoronoiMesher V; const double Lip = 0.125; bool late = sx_choice("late", 2); turns = late ? 50 : 51; size_t n0 = turns, n = n0; double *sd = new double[3 * NS], *sz = new double[NS]; size_t* rg = new size_t[NS];
  double at[NS]; for (int i = 0; i < NS; i++) at[i] = late && i == 49 ? 774 : 16.0 * i;   // late: the last one is too close to have its turn in the first round
  for (int i = 0; i < NS; i++) { sd[3 * i] = at[i]; sd[3 * i + 1] = 0; sd[3 * i + 2] = 0; sz[i] = 1; rg[i] = 1 + i % 3; } static const int WHO[3] = {0, 777, 1019}; who = WHO[sx_choice("who", 3)]; usym = sx_real("u", 0.90625, 0.984375); double c[3] = {-50, 0, 0}, r[1] = {1};
  V.generate_interior_seeds(n, sd, sz, rg, 0, c, r, 0, c, r, 0, c, r, 0, c, r, 1, Lip, 50);
  sx_check(late ? n > n0 + 980 && n <= n0 + 1000 : n == n0 + 20 * n0, "number of seeds"); if (n > n0 + 1020) return; int per[NS]; for (int i = 0; i < NS; i++) per[i] = 0;
  for (size_t i = 0; i < n; i++) { int k = 0; for (int j = 1; j < (int)n0; j++) if (fabs(sd[3 * i] - at[j]) < fabs(sd[3 * i] - at[k])) k = j; if (late && i >= n0 && k >= 48) continue; sx_check(rg[i] == 1 + (size_t)k % 3, "region of a seed"); per[k]++; if (i < n0) { sx_check(sd[3 * i] == at[i] && sz[i] == 1, "existing seed"); continue; }
    if (late && i >= n0 + 980) continue; double h = 0; for (int d = 0; d < 3; d++) { double x = sd[3 * i + d] - (d ? 0 : at[k]); h += x * x; } sx_check(h > 3.5 && h < 4, "position of a new seed"); sx_check_near((sz[i] - 1) * (sz[i] - 1), Lip * Lip * h, 1e-6, "size of a new seed"); }
  if (!late) for (int i = 0; i < NS; i++) sx_check(per[i] == 21, "seeds per volume"); sx_check(thrown == 20 * (int)n, "every seed has its turn"); sx_cover(late ? "twice" : "merged"); sx_observe(n);
}
