// All spheres overlapping a given sphere are found.
#include "sxh.h"
#include "MeshingSpheresMethods.h"
#ifndef NS
#define NS 3
#endif
#ifndef G
#define G 8
#endif
#ifndef RM
#define RM 4
#endif
static double X[NS + 1], R[NS + 1];
void sx_main() {
  MeshingSpheresMethods M; MeshingSmartTree T(3); T.disable_auto_balance(); double Lip = 0.25;
  long n = 1 + sx_choice("n", NS); long own = sx_choice("own", 2);
  for (int i = 0; i < n; i++) { X[i] = i == 0 ? 0.0 : sx_grid(nm("x", i), -G, G, 1.0); R[i] = sx_grid(nm("r", i), 1, RM, 1.0); }
  double x = own ? X[0] : sx_grid("x", -G, G, 1.0), r = own ? R[0] : sx_grid("r", 1, 2 * RM, 1.0);   // the query sphere may have any size
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assume(fabs(R[i] - R[j]) <= Lip * fabs(X[i] - X[j]));
  for (int i = 0; i < n; i++) { double s[4] = {X[i], 0, 0, R[i]}; T.add_tree_point(4, s, 0, 0); }
  double s[4] = {x, 0, 0, r}; size_t num = 77; size_t* out = 0; M.get_overlapping_spheres(s, &T, Lip, num, out);
  sx_check(num <= (size_t)n, "number of overlapping spheres"); int hit[NS + 1]; for (int i = 0; i < n; i++) hit[i] = 0;
  for (size_t k = 0; k < num; k++) { sx_check(out[k] < (size_t)n && !hit[out[k]], "unknown or repeated sphere reported"); hit[out[k]] = 1; }
  MeshingGeometricalMethods g;
  for (int i = 0; i < n; i++) {
    double h = fabs(X[i] - x), q = R[i] + r, si[4] = {X[i], 0, 0, R[i]};
    if (hit[i]) sx_check_le(h, q + 1e-3, "a disjoint sphere is reported as overlapping"); else sx_check_le(q, h - 0.5, "an overlapping (or touching) sphere is missing");
    if (g.overlapping_spheres(3, s, si)) sx_check_le(h, q + 1e-3, "a disjoint sphere is reported as overlapping"); else sx_check_le(q, h - 0.5, "an overlapping (or touching) sphere is missing");
  }
  // an empty set overlaps nothing
  MeshingSmartTree E(3); size_t ne = 5; size_t* oe = &ne; M.get_overlapping_spheres(s, &E, Lip, ne, oe); sx_check(ne == 0, "empty set");
  sx_cover(num == 0 ? "none" : num == (size_t)n ? "all" : "some"); sx_observe(num);
}
