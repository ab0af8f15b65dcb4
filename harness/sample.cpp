// One round of new surface spheres: which samples are dropped, and the size of the others, against the documented limits.
#include "sxh.h"
#include "MeshingVoroCrustSampler.h"
#ifndef NT
#define NT 2
#endif
#ifndef NOLD
#define NOLD 2
#endif
static double draw[4][3]; static int at[4]; static MeshingVoroCrustSampler* SP;
double MeshingRandomSampler::generate_uniform_random_number() { for (int t = 0; t < 4; t++) if (t < (int)SP->_num_threads && SP->_rsamplers[t] == this) { int k = at[t]++ % 3; return draw[t][k]; } return 0; }
static const double U[3] = {1, 2, 2}, W[3] = {2, 1, -2};
static void put(double* p, double s) { for (int d = 0; d < 3; d++) p[d] = s * U[d]; }
static void add(MeshingSmartTree& t, double s, double r, const double* n) { double p[4], m[3]; put(p, s); p[3] = r; if (n) for (int d = 0; d < 3; d++) m[d] = n[d] / 3; t.add_tree_point(r > 0 ? 4 : 3, p, n ? m : 0, 0); }
void sx_main() {
  sx_option("steps", 50000000); sx_option("uninit", 1); MeshingVoroCrustSampler S(1); SP = &S; int nt = 1 + sx_choice("threads", NT); S._num_threads = nt; S._rsamplers.resize(nt); for (int i = 1; i < nt; i++) S._rsamplers[i] = new MeshingRandomSampler(i);
  double A[3], B[3], C[3]; put(A, 0); put(B, 12); for (int d = 0; d < 3; d++) C[d] = 6 * W[d]; double* pts[3] = {A, B, C}; size_t f[4] = {3, 0, 1, 2}; size_t* F[1] = {f}; size_t np = 1; double nr[3] = {-2.0 / 3, 2.0 / 3, -1.0 / 3}; double* FN[1] = {nr}; S._face_normal = FN;
  const double Lip = 0.25, alpha = 0.6, TH = 0.9; S.initiate_active_pool(3, pts, 1, F, 0, np);
  MeshingSmartTree surf(3), edge(3), ss(3), es(3), cs(3), siz(3);
  static const double SC[2][2] = {{-10, 25}, {-4, 40}}, EC[2] = {-8, 16}; int cfg = sx_choice("features", 3); if (cfg == 1) { add(surf, 3, 0, W); } for (int i = 0; i < 2; i++) add(surf, SC[cfg == 2][i], 0, U); bool ec = cfg > 0; if (ec) { add(edge, EC[0], 0, W); add(edge, 5, 0, U); add(edge, EC[1], 0, W); }
  bool sf = cfg == 2; if (sf) { add(siz, 2, 2.5, 0); add(siz, 10, 6, 0); S._input_sizing_function = &siz; } S._r_min_surface = cfg == 1 ? 1.0 : 0.0; double rmax = sx_choice("rmax", 2) ? 3 : 50;
  int prot = sx_choice("protect", 3); double rc = prot == 1 ? 6 : 0, re = prot == 2 ? 4.5 : 0; if (rc > 0) add(cs, 0, rc, 0); if (re > 0) add(es, 11, re, 0);
  int no = sx_choice("old", NOLD + 1); double so[2] = {4, 9}, ro[2]; for (int i = 0; i < no; i++) ro[i] = sx_grid(nm("ro", i), 2, 16, 0.5); if (no == 2) sx_assume(ro[0] <= ro[1] + Lip * 15 && ro[1] <= ro[0] + Lip * 15); for (int i = 0; i < no; i++) add(ss, so[i], ro[i], 0);
  double s[4]; for (int t = 0; t < nt; t++) { s[t] = t == 0 ? sx_grid("s", 1, 23, 0.5) : 2.25 + 5 * sx_choice(nm("s", t), 2); draw[t][0] = 0.5; draw[t][1] = 1 - s[t] / 12; draw[t][2] = 1; }
  double* nw[4]; size_t face[4]; bool cov[4]; for (int t = 0; t < nt; t++) { nw[t] = new double[4]; face[t] = 9; }
  S.sample_active_pool(no, 3, pts, 1, F, &surf, &edge, 1e-6, &ss, &es, &cs, TH, rmax, Lip, alpha, nw, face, cov);
  for (int t = 0; t < nt; t++) {
    sx_check(face[t] == 0, "face of a sample"); for (int d = 0; d < 3; d++) sx_check_near(nw[t][d], s[t] * U[d], 1e-6, "position of a sample");
    bool in = false, edg = false; auto test = [&](double c, double r) { double m = 3 * fabs(s[t] - c) - r; if (fabs(m) < 1e-5) edg = true; else if (m < 0) in = true; };
    if (rc > 0) test(0, rc); if (re > 0) test(11, re); for (int i = 0; i < no; i++) test(so[i], 0.8 * ro[i]); for (int j = 0; j < t; j++) if (!cov[j]) test(s[j], 0.8 * nw[j][3]);
    if (in) { sx_check(cov[t], "a covered sample is kept"); sx_cover("covered"); continue; } if (edg) continue; sx_check(!cov[t], "an uncovered sample is dropped"); if (cov[t]) continue;
    double lim = rmax; for (int i = 0; i < 2; i++) lim = fmin(lim, 0.4 * 3 * fabs(s[t] - SC[cfg == 2][i])); if (ec) for (int i = 0; i < 2; i++) lim = fmin(lim, 0.4 * 3 * fabs(s[t] - EC[i])); if (rc > 0) lim = fmin(lim, 0.4 * 3 * s[t]); double low = lim; if (sf) { lim = fmin(lim, s[t] < 6 ? 2.5 : 6); low = fmin(low, s[t] <= 6 ? 2.5 : 6); }
    double all = low; for (int i = 0; i < no; i++) { double h = 3 * fabs(s[t] - so[i]); all = fmin(all, fmin(h / 0.8, ro[i] + Lip * h)); }
    double r = nw[t][3]; double floor_ = S._r_min_surface; sx_check_le(r, fmax(lim, floor_) + 1e-6, "larger than the features allow"); sx_check_le(fmin(all, floor_ > 0 ? fmax(all, floor_) : all), r + 1e-6, "smaller than need be"); sx_check_le(floor_, r, "smaller than the minimum");
    for (int i = 0; i < no; i++) { double h = 3 * fabs(s[t] - so[i]); if (floor_ == 0) sx_check_le(0.8 * r, h + 1e-6, "a new sphere covers the centre of an old one"); if (floor_ == 0 && h < ro[i] + r - 1e-6) sx_check_le(r, ro[i] + Lip * h + 1e-6, "a new sphere breaks the Lipschitz bound with an old sphere it overlaps"); }
    sx_cover(no && r < lim ? "limited" : "free"); sx_observe(r);
  }
  S._face_normal = 0; S._input_sizing_function = 0; S.delete_active_pool();
}
