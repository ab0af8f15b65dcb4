// Spoke trimming: the spoke ends exactly where it leaves the Voronoi cell of its seed.
#include "sxh.h"
#include "MeshingSmartTree.h"
#ifndef DIM
#define DIM 1
#endif
#ifndef NP
#define NP 3
#endif
#ifndef NDIR
#define NDIR 2
#endif
#ifndef NOFF
#define NOFF 3
#endif
#ifndef G
#define G 4
#endif
static double P[NP][DIM], X[DIM], O[DIM];
void sx_main() {
  MeshingSmartTree T(DIM); T.disable_auto_balance();
  double D[DIM];
#if DIM == 1
  for (int i = 0; i < NP; i++) for (int d = 0; d < DIM; d++) P[i][d] = sx_grid(nm("p", i, d), -G, G, 1.0);
  D[0] = sx_choice("dir", 2) ? 1.0 : -1.0;
#else
  for (int i = 0; i < NP; i++) for (int d = 0; d < DIM; d++) { static const double off[6] = {1, -2, 2, -1, 0, 3}; P[i][d] = off[sx_choice(nm("p", i, d), NOFF)]; }
  static const double dirs[4][3] = {{0, -1, 0}, {0.6, 0.8, 0}, {-0.8, 0.6, 0}, {1, 0, 0}}; long q = sx_choice("dir", NDIR); for (int d = 0; d < DIM; d++) D[d] = dirs[q][d];
#endif
  double L0 = 1 + 3 * (double)sx_choice("L", 2);
  // seed of the cell: a tree point (involved) or a new location
  long own = sx_choice("own", 2); size_t inv[2]; size_t ni = 0;
  if (own) { P[0][0] = 0; P[0][DIM - 1] = 0; for (int d = 0; d < DIM; d++) { X[d] = P[0][d]; } inv[ni++] = 0; }
  else for (int d = 0; d < DIM; d++) X[d] = 0.0;   // translation invariant: the seed of the cell sits at 0
  if (NP > 1 && sx_choice("skip", 2)) inv[ni++] = NP - 1;   // one more seed that must be ignored
  // origin in the cell of the seed (offset from the seed); every non-involved seed is at least as far
  for (int d = 0; d < DIM; d++) { O[d] = X[d] + (DIM == 1 ? sx_grid(nm("o", d), -G, G, 1.0) : sx_real(nm("o", d), -2, 2)); }
  for (int i = 0; i < NP; i++) {
    bool skip = false; for (size_t k = 0; k < ni; k++) if (inv[k] == (size_t)i) skip = true; if (skip) continue;
    double a = 0; for (int d = 0; d < DIM; d++) a += (P[i][d] - X[d]) * (P[i][d] + X[d] - 2 * O[d]);   // |p-o|^2 - |x-o|^2
    sx_assume(a >= 0);
  }
  for (int i = 0; i < NP; i++) T.add_tree_point(DIM, P[i], 0, 0);
  if ((DIM == 1 || NP > 2) && sx_choice("balanced", 2)) T.kd_tree_build_balanced();
  double len = L0; size_t nb = 77; T.trim_spoke(X, ni, inv, O, D, len, nb);
  sx_check_le(len, L0, "a spoke became longer"); sx_check_le(0, len, "negative spoke length");
  // oracle: every non-involved seed's bisector is not crossed strictly before the end
  for (int i = 0; i < NP; i++) {
    bool skip = false; for (size_t k = 0; k < ni; k++) if (inv[k] == (size_t)i) skip = true; if (skip) continue;
    double a = 0, b = 0; for (int d = 0; d < DIM; d++) { a += (P[i][d] - X[d]) * (P[i][d] + X[d] - 2 * O[d]); b += D[d] * (P[i][d] - X[d]); }   // crossing at t = a / (2 b)
    sx_check_le(len * 2 * b, a + 1e-6, "the spoke end is closer to another seed than to its own");
    if (nb == (size_t)i) { sx_check_near(len * 2 * b, a, 1e-6, "the trimming seed is not equidistant from the spoke end"); sx_cover("trimmed"); }
  }
  if (nb == 77) { sx_check_eq(len, L0, "an untrimmed spoke keeps its length"); sx_cover("untrimmed"); }
  else { sx_check(nb < NP, "trimming seed is a tree point"); for (size_t k = 0; k < ni; k++) sx_check(nb != inv[k], "an involved seed trimmed the spoke"); }
  sx_observe(len);
}
