// Lipschitz continuity of sphere radii: enforced, by shrinking only, and no more than needed.
#include "sxh.h"
#include "MeshingSpheresMethods.h"
#include "MeshingVoronoiMesher.h"
#ifndef NS
#define NS 3
#endif
#ifndef G
#define G 6
#endif
#ifndef NB
#define NB 1
#endif
#ifndef RM
#define RM 6
#endif
static double X[NS], R[NS], Q[NS];
void sx_main() {
#ifdef CHAIN
  double Lip = 0.05; long who = sx_choice("who", WHO), n = NS, a = sx_choice("a", NS), b = (a + 1 + NS / 2 * sx_choice("b", NB)) % NS, gap = 4 + 3 * sx_choice("gap", 2), step = 1 + sx_choice("step", NS - 1);
#else
  double Lip = sx_choice("Lip", 2) ? 0.5 : 0.25; long who = sx_choice("who", WHO), n = 1 + sx_choice("n", NS);
#endif
  sx_option("steps", 20000000);
#ifdef CHAIN
  // a row of spheres with equal gaps, each in the neighbourhood of the next ones only; two radii are arbitrary
  for (int i = 0; i < n; i++) { X[i] = ((i * step) % NS) * gap; R[i] = 6; } R[a] = sx_grid("ra", 1, RM, 0.5); if (b != a) R[b] = sx_grid("rb", 1, RM, 0.5);
#else
  for (int i = 0; i < n; i++) { X[i] = i == 0 ? 0.0 : sx_grid(nm("x", i), -G, G, 1.0); R[i] = sx_grid(nm("r", i), 1, RM, 1.0); }
#endif
  bool shrunk = false;
  if (who < 2) {
    MeshingSpheresMethods M; MeshingSmartTree T(3); T.disable_auto_balance();
    for (int i = 0; i < n; i++) { double s[4] = {X[i], 0, 0, R[i]}; T.add_tree_point(4, s, 0, 0); }
    if (who == 0) M.impose_lipschitz_continuity_brute(&T, Lip, shrunk); else M.impose_lipschitz_continuity(&T, Lip, shrunk);
    for (int i = 0; i < n; i++) { Q[i] = T.get_tree_point_attrib(i, (size_t)0); sx_check_eq(T.get_tree_point(i)[0], X[i], "a centre moved"); sx_check_eq(T.get_tree_point(i)[1], 0, "a centre moved"); }
  }
  bool changed = false;
  for (int i = 0; i < n; i++) {
    sx_check_le(Q[i], R[i], "a radius grew"); if (Q[i] < R[i]) changed = true;
    bool need = true;
    for (int j = 0; j < n; j++) {
      double h = fabs(X[i] - X[j]);
      if (j != i && (who == 0 || h <= 2 * Q[i])) sx_check_le(Q[i], Q[j] + Lip * h + 1e-6, "radii are not Lipschitz continuous");
      if (Q[i] >= R[j] + Lip * h - 1e-6) need = false;    // some sphere justifies the final radius (j == i: unchanged)
    }
    sx_check(!need, "a radius shrank more than needed");
  }
  sx_check(shrunk == changed, "the shrink flag disagrees with the radii"); sx_cover(changed ? "shrunk" : "kept"); sx_observe(shrunk); for (int i = 0; i < n; i++) sx_observe(Q[i]);
}
