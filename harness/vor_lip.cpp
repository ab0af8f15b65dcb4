// Lipschitz continuity of the seed sizing (Voronoi mesher): shrinks only, enough within the neighbourhoods, no more than needed.
#include "sxh.h"
#include "MeshingGeometricalMethods.h"
#include "MeshingVoronoiMesher.h"
#ifndef NS
#define NS 3
#endif
#ifndef G
#define G 6
#endif
#ifndef NB
#define NB 1
#endif
#ifndef RM
#define RM 6
#endif
static double P[3 * NS], R[NS], Q[NS];
void sx_main() {
  sx_option("steps", 20000000); MeshingVoronoiMesher V; static const double U[3] = {1, 2, 2};
#ifdef CHAIN
  // a row of seeds with equal gaps, each in the neighbourhood of the next ones only; two sizes are arbitrary
  double Lip = 0.05; long n = NS, a = sx_choice("a", NS), b = (a + 1 + NS / 2 * sx_choice("b", NB)) % NS, gap = 2 + sx_choice("gap", 2), step = 1 + sx_choice("step", NS - 1);
  for (int i = 0; i < n; i++) { double s = ((i * step) % NS) * gap; for (int d = 0; d < 3; d++) P[3 * i + d] = s * U[d]; R[i] = Q[i] = 6; }
  R[a] = Q[a] = sx_grid("ra", 1, RM, 0.5); if (b != a) R[b] = Q[b] = sx_grid("rb", 1, RM, 0.5);
#else
  double Lip = sx_choice("Lip", 2) ? 0.5 : 0.25; long n = 1 + sx_choice("n", NS);
  for (int i = 0; i < n; i++) { double s = i == 0 ? 0.0 : sx_grid(nm("s", i), -G, G, 1.0 / 3); for (int d = 0; d < 3; d++) P[3 * i + d] = s * U[d]; R[i] = Q[i] = sx_grid(nm("r", i), 1, RM, 1.0); }
#endif
  size_t o = SIZE_MAX, rt[NS], lf[NS]; V.build_balanced_kd_tree(n, 3, P, o, rt, lf);
  V.impose_lipschitz_continuity(n, 3, P, Q, 1, Lip, o, rt, lf); bool changed = false; MeshingGeometricalMethods g;
  for (int i = 0; i < n; i++) {
    sx_check_le(Q[i], R[i], "a size grew"); if (Q[i] < R[i]) changed = true; bool need = true;
    for (int j = 0; j < n; j++) {
      double h = 3 * fabs(P[3 * i] - P[3 * j]);
      if (j != i && h <= 2 * R[i]) sx_check_le(Q[i], Q[j] + Lip * h + 1e-6, "sizes are not Lipschitz continuous");
      if (Q[i] >= R[j] + Lip * h - 1e-6) need = false;
    }
    sx_check(!need, "a size shrank more than needed");
  }
  sx_cover(changed ? "shrunk" : "kept"); for (int i = 0; i < n; i++) sx_observe(Q[i]);
}
