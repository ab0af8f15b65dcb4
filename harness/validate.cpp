// The surface mesh is accepted exactly when every edge touching a surface sphere belongs to two triangles; otherwise the spheres of the bad edges shrink.
#include "sxh.h"
#include "MeshingVoroCrustSampler.h"
#include "MeshingPolyMesh.h"
#ifndef NV
#define NV 5
#endif
#ifndef NF
#define NF 3
#endif
static int saved; static size_t sp, sf, first[3]; static double sx0;
int MeshingPolyMesh::save_mesh_obj(std::string file_name, size_t num_points, double** points, size_t num_faces, size_t** faces) { saved++; sp = num_points; sf = num_faces; sx0 = 0; for (size_t i = 0; i < num_points; i++) sx0 += points[i][0] * (i + 1); return 0; }
void sx_main() {
  sx_option("steps", 20000000); MeshingVoroCrustSampler S(1); MeshingSmartTree T[3] = {MeshingSmartTree(3), MeshingSmartTree(3), MeshingSmartTree(3)};
  static const int SPL[5][2] = {{NV, 0}, {3, 0}, {2, 1}, {1, NV - 1}, {0, 2}}; int spl = sx_choice("split", 5), ns = SPL[spl][0], ne = SPL[spl][1]; int kind[NV]; double r[NV], sum = 0;
  for (int i = 0; i < NV; i++) { kind[i] = i < ns ? 0 : i < ns + ne ? 1 : 2; r[i] = sx_real(nm("r", i), 0.5, 2); double p[4] = {(double)((i * 7) % 5), (double)(i * i), (double)i, r[i]}; sum += p[0] * (i + 1); T[kind[i]].add_tree_point(4, p, 0, 0); }
  static int tri[64][3]; int nt = 0; for (int a = 0; a < NV; a++) for (int b = a + 1; b < NV; b++) for (int c = b + 1; c < NV; c++) { tri[nt][0] = a; tri[nt][1] = b; tri[nt++][2] = c; }
  int nf = sx_choice("faces", NF + 1), last = 0, f[NF + 1][3]; size_t* F[NF + 1]; int deg[NV][NV] = {{0}};
  // the edge counts are what matters; the first faces may come in any order of their corners
  for (int i = 0; i < nf; i++) { last += sx_choice(nm("f", i), nt - last); int rot = i < 1 ? sx_choice(nm("rot", i), 2) : 0; F[i] = new size_t[4]; F[i][0] = 3; for (int k = 0; k < 3; k++) f[i][k] = tri[last][rot ? (4 - k) % 3 : k]; for (int k = 0; k < 3; k++) { F[i][1 + k] = f[i][k]; int a = f[i][k], b = f[i][(k + 1) % 3]; deg[a][b]++; deg[b][a]++; } }
  bool ok = S.validate_surface_mesh(&T[0], &T[1], &T[2], nf, F); bool good = true, bad[NV] = {0};
  for (int a = 0; a < NV; a++) for (int b = 0; b < NV; b++) if (deg[a][b] && deg[a][b] != 2 && (a < ns || b < ns)) { good = false; if (a < ns) bad[a] = true; if (b < ns) bad[b] = true; }
  sx_check(ok == good, ok ? "a mesh with holes or fins is accepted" : "a valid mesh is rejected"); sx_check(saved == (good ? 1 : 0), "the accepted mesh is saved once"); if (saved) { sx_check(sp == NV && (int)sf == nf, "size of the saved mesh"); sx_check_near(sx0, sum, 1e-9, "points of the saved mesh"); }
  for (int i = 0; i < NV; i++) { double* q = T[kind[i]].get_tree_point(i < ns ? i : i < ns + ne ? i - ns : i - ns - ne); sx_check_le(q[3], bad[i] ? 0.951 * r[i] : r[i], bad[i] ? "a sphere of a bad edge does not shrink" : "a sphere grows"); sx_check_le(0.05 * r[i], q[3], "a sphere vanishes"); if (!bad[i]) sx_check_eq(q[3], r[i], "a sphere of no bad edge shrinks"); }
  for (int i = 0; i < nf; i++) { for (int k = 0; k < 3; k++) sx_check((int)F[i][1 + k] == f[i][k], "a triangle changed"); delete[] F[i]; }
  bool hole = false; for (int a = 0; a < NV && good; a++) for (int b = 0; b < a; b++) if (deg[a][b] == 1) hole = true; sx_cover(!good ? "rejected" : hole ? "boundary" : "accepted"); sx_observe(nf);
}
