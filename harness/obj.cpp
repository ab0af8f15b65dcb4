// OBJ models and the options file.  The meshing run itself is a stand-in that records what it is given.
#define SX_FILE_IMPL
#include "sxh.h"
#include "MeshingVoroCrust.h"
#include "MeshingPolyMesh.h"
std::map<std::string, std::string>& sx_fs() { static std::map<std::string, std::string> m; return m; }
#ifndef NROT
#define NROT 0
#endif
struct Rec { int calls = 0, threads = 0; size_t np = 0, nf = 0; std::vector<double> x; std::vector<size_t> f; bool sizing; size_t nsz; double sz0, rmin, rmax, lip, ang; bool vcg, exo, gm, im; std::string seeds; };
static Rec* Rp;
#define R (*Rp)
int MeshingVoroCrust::execute_vc(int num_threads, size_t np, double** p, size_t nf, size_t** f, MeshingSmartTree* z, double rmin, double rmax, double Lip, double ang, bool vcg, bool exo, bool gm, bool im) {
  R.calls++; R.threads = num_threads; R.np = np; R.nf = nf; for (size_t i = 0; i < np; i++) for (int d = 0; d < 3; d++) R.x.push_back(p[i][d]); for (size_t i = 0; i < nf; i++) for (int d = 0; d < 4; d++) R.f.push_back(f[i][d]);
  R.sizing = z != 0; if (z) { R.nsz = z->get_num_tree_points(); R.sz0 = z->get_tree_point(0)[3]; } R.rmin = rmin; R.rmax = rmax; R.lip = Lip; R.ang = ang; R.vcg = vcg; R.exo = exo; R.gm = gm; R.im = im; return 0; }
int MeshingVoroCrust::generate_mesh_from_seeds_file(std::string file, int num_threads, bool vcg, bool exo) { R.calls += 10; R.seeds = file; R.threads = num_threads; R.vcg = vcg; R.exo = exo; return 0; }
static std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
static size_t C(int i, int k, int np) { return (i + k * (1 + i % 2) + (np > 9 ? 8 : 0)) % np; }   // a corner of a face
static double P(int i, int d) { return (i * 4 + d * d * 3) % 11 / 3.0 + (d == i % 3) + i; }
// a model with np points and nf faces, written in one of several dialects
static void model(const std::string& name, int off, int np, int nf, long style, double v) {
  std::string s; const char* SP[3] = {" ", "  ", "\t"}; int v1 = 0, f1 = 0; if (style == 1) s += "# a comment with v 1 2 3\n\nmtllib x.mtl\n";
  auto vert = [&](int i) { s += "v"; for (int d = 0; d < 3; d++) { s += SP[style % 3]; if (i == np - 1 && d == 1) { std::ostringstream o; o << v; s += o.str(); } else s += num(P(i + off, d)); } s += style == 2 ? "\r\n" : "\n"; if (style == 1) s += "vn 0 0 1\nvt 0.5 0.5\n"; };
  auto face = [&](int i) { s += style == 3 ? "  f" : "f"; for (int k = 0; k < 3; k++) { std::string t = std::to_string(C(i, k, np) + 1); s += SP[style % 3] + t; if (style == 1) s += "/7/9"; if (style == 3) s += "//4"; if (style == 4) s += "/2"; } s += i == nf - 1 && style == 2 ? "" : "\n"; if (style == 1 && i == 0) s += "\ng group\nusemtl m\n"; };
  if (style == 4) { for (; f1 < 1; f1++) face(f1); for (; v1 < np; v1++) { vert(v1); if (f1 < nf) face(f1++); } } else for (; v1 < np; v1++) vert(v1);
  for (; f1 < nf; f1++) face(f1); sx_fs()[name] = s; }
static double want(int off, int np, int i, int d, double v) { return i == np - 1 && d == 1 ? v : P(i + off, d); }
void sx_main() {
  sx_option("steps", 20000000); sx_fs().clear(); Rp = new Rec(); long what = sx_choice("what", 3); double v = sx_grid("v", 192, 320, 1.0 / 16);
  if (what == 0) {
    int np = sx_choice("points", 3); np = np == 2 ? 11 : 4 + np; int nf = 1 + sx_choice("faces", 4); long style = sx_choice("style", 5); model("m.obj", 0, np, nf, style, v); MeshingPolyMesh M; size_t n = 99, m = 99; double** p = 0; size_t** f = 0; M.read_input_obj_file("m.obj", n, p, m, f);
    long again = sx_choice("again", 2); if (again) { M.save_mesh_obj("n.obj", n, p, m, f); M.read_input_obj_file("n.obj", n, p, m, f); }
    sx_check(n == (size_t)np && m == (size_t)nf, "number of points or faces read"); for (int i = 0; i < np; i++) for (int d = 0; d < 3; d++) sx_check_near(p[i][d], want(0, np, i, d, v), 1e-12, "coordinate read"); for (int i = 0; i < nf; i++) { sx_check(f[i][0] == 3, "corners of a face"); for (int k = 0; k < 3; k++) sx_check(f[i][k + 1] == C(i, k, np), "corner read"); }
    sx_cover("model");
  } else {
    // options in any rotation / direction of their usual order, every subset of a family
    std::vector<std::string> L; long nmod = what == 2 ? 2 + sx_choice("models", 2) : 1; long mask = sx_int("options", 0, 63), rot = NROT ? sx_choice("rotate", 3) : (mask + 1) % 3, from = sx_choice("fromseeds", what == 2 ? 1 : 2), flags = sx_choice("flags", 8);
    if (what == 2) sx_assume(mask == 63 || mask == 0);
    double val[4] = {0.125, 77.5, 0.3125, 41.75};
    if (mask & 1) L.push_back("R_MIN = " + num(val[0])); if (mask & 2) L.push_back("R_MAX = " + num(val[1])); if (mask & 4) L.push_back("LIP_CONST = " + num(val[2])); if (mask & 8) L.push_back("VC_ANGLE = " + num(val[3])); if (mask & 16) L.push_back("NUM_THREADS = 3"); if (mask & 32) L.push_back("SIZING_FILE = z.csv");
    if (flags == 1 || flags == 5) L.push_back("GENERATE_VCG_FILE"); if (flags == 2 || flags == 5) L.push_back("GENERATE_EXODUS_FILE"); if (flags == 3 || flags == 6) L.push_back("GENERATE_MONITORING_POINTS"); if (flags == 4 || flags == 6) L.push_back("IMPOSE_MONITORING_POINTS"); if (flags == 7) { L.push_back(""); L.push_back("# R_MAX = 5"); L.push_back("   "); L.push_back("R_MAXIMUM = 6"); }
    if (from) { L.push_back("GENERATE_MESH_FROM_SEEDS"); L.push_back("SEEDS_FILE = my_seeds.csv"); } else for (long i = 0; i < nmod; i++) L.push_back(std::string("INPUT_MESH_FILE = ") + "m" + std::to_string(i) + ".obj");
    size_t n = L.size(); if (nmod == 1) std::rotate(L.begin(), L.begin() + (rot * n / 3), L.end()); std::string s; for (auto& l : L) s += l + "\n"; sx_fs()["vc.in"] = s; sx_fs()["z.csv"] = "x, y, z, r\n1, 2, 3, 0.75\n4, 5, 6, 7\n";
    static const int NPm[3] = {4, 5, 4}, NFm[3] = {2, 3, 4}; for (long i = 0; i < nmod; i++) model("m" + std::to_string(i) + ".obj", 6 * i, NPm[i], NFm[i], i, v + 0.25 * i);
    MeshingVoroCrust V("vc.in"); sx_check(V.execute() == 0, "run refused"); sx_check(R.calls == (from ? 10 : 1), "the requested run is not started exactly once");
    sx_check(R.threads == (mask & 16 ? 3 : 1), "number of threads"); sx_check(R.vcg == (flags == 1 || flags == 5) && R.exo == (flags == 2 || flags == 5), "requested output files");
    if (from) { sx_check(R.seeds == "my_seeds.csv", "name of the seeds file"); sx_cover("seeds"); return; }
    sx_check(R.gm == (flags == 3 || flags == 6) && R.im == (flags == 4 || flags == 6), "monitoring points"); sx_check(R.rmin == (mask & 1 ? val[0] : 0.0), "R_MIN"); sx_check(R.rmax == (mask & 2 ? val[1] : DBL_MAX), "R_MAX"); sx_check(R.lip == (mask & 4 ? val[2] : 0.1), "LIP_CONST"); sx_check(R.ang == (mask & 8 ? val[3] : 20.0), "VC_ANGLE");
    sx_check(R.sizing == ((mask & 32) != 0), "sizing file"); if (R.sizing) sx_check(R.nsz == 2 && R.sz0 == 0.75, "content of the sizing file");
    size_t a = 0, b = 0; for (long i = 0; i < nmod; i++) { for (int j = 0; j < NFm[i]; j++, b++) for (int k = 0; k < 3; k++) sx_check(b < R.nf && R.f[b * 4 + k + 1] == a + C(j, k, NPm[i]), "face of a combined model"); for (int j = 0; j < NPm[i]; j++, a++) for (int d = 0; d < 3; d++) { sx_check(a < R.np, "point of a combined model is missing"); sx_check_near(R.x[a * 3 + d], want(6 * i, NPm[i], j, d, v + 0.25 * i), 1e-12, "point of a combined model"); } }
    sx_check(a == R.np && b == R.nf, "size of the combined model"); sx_cover(nmod > 1 ? "combined" : "options");
  }
  sx_observe(R.np);
}
