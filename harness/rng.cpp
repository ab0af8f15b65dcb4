// Random numbers stay in [0,1) for ever (one step from every state keeps the invariant); samples stay in their domain.
#include "sxh.h"
#include "MeshingRandomSampler.h"
#ifndef NB
#define NB 4
#endif
static double unit(const char* n) { double v = sx_grid(n, 0, (1l << 53) - 1, 1.0 / 9007199254740992.0); return v; }
static void inrange(double v, const char* m) { sx_check(v >= 0, m); sx_check(v < 1, m); }
static void step(MeshingRandomSampler& s, const int* pos, int np, const char* tag) {
  double cc = 1.0 / 9007199254740992.0; s.zx = unit("zx"); s.zy = unit("zy"); s.zc = sx_choice("zc", 2) * cc; s.c = sx_choice("c", 2) * cc;
  bool refill = s.indx >= 1220; for (int i = 0; i < np; i++) s.Q[pos[i]] = unit(nm("Q", pos[i]));
  double u = s.generate_uniform_random_number(); inrange(u, "random number out of [0,1)"); inrange(s.zy, "state zy"); inrange(s.zx, "state zx"); sx_check(s.zc == 0 || s.zc == cc, "borrow"); sx_check(s.c == 0 || s.c == cc, "borrow");
  sx_check(s.indx >= 1 && s.indx <= 1220, "position in the table"); if (refill) for (int i = 0; i < np; i++) inrange(s.Q[pos[i]], "table entry"); sx_cover(tag); sx_observe(u); }
void sx_main() {
  sx_option("steps", 50000000); MeshingRandomSampler s((size_t)sx_choice("thread", 2)); long what = sx_choice("what", 6);
  for (int i = 0; i < 1220; i++) if (!(s.Q[i] >= 0 && s.Q[i] < 1)) sx_check(0, "initial table entry");
  if (what == 0) { s.indx = sx_choice("pos", 3) * 1219 / 2; int p[1] = {s.indx}; step(s, p, 1, "step"); return; }
  if (what == 1) { s.indx = 1220; static const int P[5][2] = {{1159, 1189}, {1218, 1188}, {0, 0}, {1219, 1219}, {1190, 1190}}; int k = sx_choice("pos", 5); step(s, P[k], k == 0 ? 2 : 1, "refill"); return; }
  // the samplers only draw through generate_uniform_random_number: the next draws are arbitrary numbers of [0,1)
  s.indx = 0; s.zx = s.zy = s.zc = 0; s.c = 0; int n = what == 2 ? 3 : what == 3 ? 2 : what == 4 ? 1 : NB; for (int i = 0; i < n; i++) s.Q[i] = unit(nm("u", i));
  if (what == 2) { double a[3], b[3], d[3]; for (int i = 0; i < 3; i++) { a[i] = sx_real(nm("a", i), -4, 4); b[i] = a[i] + sx_real(nm("w", i), 0, 4); } s.sample_uniformly_from_box(3, a, b, d); for (int i = 0; i < 3; i++) { sx_check_le(a[i], d[i], "sample left of the box"); sx_check_le(d[i], b[i], "sample right of the box"); } sx_cover("box"); sx_observe(d[0]); }
  else if (what == 3) { double x[3][3] = {{0,0,0},{1,0,0},{0,1,0}}, d[3]; double* X[3] = {x[0], x[1], x[2]}; double t = sx_real("t", 0.25, 4); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) x[i][k] *= t; s.sample_uniformly_from_simplex(d, 3, 3, X);
    sx_check_sign(d[0], "sample outside the triangle"); sx_check_sign(d[1], "sample outside the triangle"); sx_check_le(d[0] + d[1], t, "sample outside the triangle"); sx_check_eq(d[2], 0, "sample off the plane"); sx_cover("simplex"); sx_observe(d[0]); }
  else if (what == 4) { double c[NB]; c[0] = sx_real("c0", 0, 2); for (int i = 1; i < NB; i++) c[i] = c[i - 1] + sx_real(nm("c", i), 0, 2); size_t k = s.sample_uniformly_from_discrete_cdf(NB, c); sx_check(k < NB, "cell out of range"); if (c[NB - 1] > 0) { double u = s.Q[0] * c[NB - 1]; sx_check(u <= c[k] && (k == 0 || c[k - 1] <= u), "cell does not contain the sample"); sx_cover("cdf"); } else sx_cover("nullcdf"); sx_observe(k); }
  else { double d[3]; int dim = 2 + sx_choice("dim", 2); s.sample_uniformly_from_unit_sphere(d, dim); double q = 0; for (int i = 0; i < dim; i++) q += d[i] * d[i]; sx_check_near(q, 1, 1e-9, "direction is not a unit vector"); sx_cover("sphere"); sx_observe(dim); }
}
