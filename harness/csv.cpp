// Files written by the code are read back unchanged; readers cope with blank lines and either line order.
#define SX_FILE_IMPL
#include "sxh.h"
#include "MeshingVoroCrust.h"
#include "MeshingSmartTree.h"
#ifndef NP
#define NP 3
#endif
std::map<std::string, std::string>& sx_fs() { static std::map<std::string, std::string> m; return m; }
static double val(int i, int d) { return (i * 7 + d) / 3.0 + 1e-3 / 7.0; }
static void num(std::string& s, double v) { std::ostringstream o; o << std::setprecision(17) << v; s += o.str(); }
void sx_main() {
  sx_option("steps", 20000000); sx_fs().clear(); long what = sx_choice("what", 4); size_t n = 1 + sx_choice("n", NP); double v = sx_real("v", -9, 9), u = sx_real("u", -9, 9);
  if (what == 0) {
    size_t dim = sx_choice("dim", 2) ? 3 : 2, nd = dim + sx_choice("extra", 2); bool nor = sx_choice("normal", 2), att = sx_choice("attrib", 2);
    MeshingSmartTree T(dim); double X[NP][4], N[NP][3]; size_t A[NP][3];
    for (size_t i = 0; i < n; i++) { for (int d = 0; d < 4; d++) X[i][d] = d == 1 ? v + i : d == 3 ? u * (i + 1.0) : val(i, d); for (int d = 0; d < 3; d++) N[i][d] = d == 0 ? u : val(i, 5 + d) / 3; A[i][0] = 3; A[i][1] = i * 5; A[i][2] = (size_t)1 << (20 + 9 * i); T.add_tree_point(nd, X[i], nor ? N[i] : 0, att ? A[i] : 0); }
    T.save_tree_csv("a.csv", nd); MeshingSmartTree R(dim); R.load_tree_csv("a.csv", nd); sx_check(R.get_num_tree_points() == n, "number of points read back");
    for (size_t i = 0; i < n; i++) { double* x = R.get_tree_point(i); for (size_t d = 0; d < nd; d++) sx_check_near(x[d], X[i][d], 1e-12, "coordinate lost its value in the file"); double* m = R.get_tree_point_normal(i); if (nor) for (size_t d = 0; d < dim; d++) sx_check_near(m[d], N[i][d], 1e-12, "normal lost its value in the file");
      size_t* a = R.get_tree_point_attrib(i); if (att) for (int k = 0; k < 3; k++) sx_check(a[k] == A[i][k], "attribute lost its value in the file"); }
    sx_cover("tree");
  } else if (what == 1) {
    // seeds file, written by the mesher or typed by a user: header, then x, y, z, size, region
    std::string s = "x coord, y coord, z coord, sizing, region id\n"; double X[NP][4]; size_t R[NP]; long blank = sx_choice("blank", NP + 2), sep = sx_choice("separator", 3); bool own = sx_choice("writer", 2);
    for (size_t i = 0; i < n; i++) { for (int d = 0; d < 4; d++) X[i][d] = d == 3 ? (own ? u * (i + 1.0) : val(i, d)) : own && d == 1 ? v - i : val(i, d) - 4; R[i] = i * 3 + 1; }
    if (own) { double* z = new double[n]; double* x = new double[n * 3]; for (size_t i = 0; i < n; i++) { z[i] = X[i][3]; for (int d = 0; d < 3; d++) x[i * 3 + d] = X[i][d]; } MeshingVoronoiMesher M; M.save_spheres_csv("seeds.csv", 3, n, x, z, R); delete[] x; delete[] z; }
    else { for (size_t i = 0; i < n; i++) { if (blank == (long)i) s += "\n"; for (int d = 0; d < 4; d++) { num(s, X[i][d]); s += sep == 0 ? ", " : sep == 1 ? "," : " ,  "; } s += std::to_string(R[i]) + "\n"; } if (blank == (long)n) s += "\n"; if (blank > (long)n) s.pop_back(); sx_fs()["seeds.csv"] = s; }
    MeshingVoroCrust V("none.in"); size_t k = 99; double* x = 0; double* z = 0; size_t* r = 0; V.read_seeds_csv("seeds.csv", k, x, r, z); sx_check(k == n, "number of seeds read");
    for (size_t i = 0; i < n; i++) { for (int d = 0; d < 3; d++) sx_check_near(x[i * 3 + d], X[i][d], 1e-12, "seed coordinate"); sx_check_near(z[i], X[i][3], 1e-12, "seed size"); sx_check(r[i] == R[i], "seed region"); }
    delete[] x; delete[] z; delete[] r; sx_cover("seeds");
  } else if (what == 3) {
    // sizing file typed by a user: header, then x, y, z, radius [, normal]
    bool nor = sx_choice("normal", 2); long blank = sx_choice("blank", NP + 2), sep = sx_choice("separator", 3); const char* S[3] = {", ", ",", " ,  "}; size_t w = nor ? 7 : 4; std::string s = nor ? "x,y,z,r,n1,n2,n3\n" : "x,y,z,r\n";
    for (size_t i = 0; i < n; i++) { if (blank == (long)i) s += "\n"; for (size_t d = 0; d < w; d++) { num(s, val(i, d) - 4); s += d + 1 < w ? S[sep] : "\n"; } } if (blank == (long)n) s += "\n"; if (blank > (long)n) s.pop_back(); sx_fs()["z.csv"] = s;
    MeshingSmartTree R(3); R.load_tree_csv("z.csv", 4); sx_check(R.get_num_tree_points() == n, "number of points read"); for (size_t i = 0; i < n; i++) { double* x = R.get_tree_point(i); for (int d = 0; d < 4; d++) sx_check_near(x[d], val(i, d) - 4, 1e-12, "sizing entry"); double* m = R.get_tree_point_normal(i); if (nor) for (int d = 0; d < 3; d++) sx_check_near(m[d], val(i, 4 + d) - 4, 1e-12, "sizing normal"); }
    sx_cover("sizing");
  } else {
    size_t m = n * 40 + (n == 2 ? 20 : 0) + (n == 3 ? -20 : 0); double* x = new double[m * 4]; for (size_t i = 0; i < m; i++) for (int d = 0; d < 4; d++) x[i * 4 + d] = i == m - 1 && d == 2 ? v : i == 0 && d == 3 ? u : val(i, d); MeshingVoronoiMesher M; size_t reg = sx_choice("regions", 2); std::vector<size_t> R(m, 2);
    M.save_spheres_csv("s.csv", 3, m, x, 0, reg ? R.data() : 0); size_t k = 99; double* y = 0; M.load_spheres_csv("s.csv", 3, k, y); sx_check(k == m, "number of spheres read back"); for (size_t i = 0; i < m * 4; i++) sx_check_near(y[i], x[i], 1e-12, "sphere lost its value in the file"); delete[] x; delete[] y; sx_cover("spheres");
  }
  sx_observe(n);
}
