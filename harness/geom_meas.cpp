// Lengths, areas, normals, orthonormalisation.
#include "sxh.h"
#include "MeshingGeometricalMethods.h"
#include "MeshingSmartTree.h"
#include "MeshingSpheresMethods.h"
#ifndef NU
#define NU 2
#endif
#ifndef NE2
#define NE2 2
#endif
#ifndef G
#define G 3
#endif
static double dot(const double* a, const double* b, int n = 3) { double s = 0; for (int k = 0; k < n; k++) s += a[k] * b[k]; return s; }
void sx_main() {
  MeshingGeometricalMethods g; long what = sx_choice("what", 6);
  if (what == 0 || what == 1) {
    double C[3][3]; double* c[3]; for (int i = 0; i < 3; i++) { c[i] = C[i]; for (int k = 0; k < 3; k++) C[i][k] = 0; }
    { static const double B1[4][3] = {{1, 0, 0}, {3, 4, 0}, {1, 2, 2}, {0, 0, 0}}; static const double B2[4][3] = {{0, 1, 0}, {1, 1, 1}, {-2, 1, 0}, {1, 0, 3}}; long e = sx_choice("e1", 4), f = sx_choice("e2", NE2), rot = sx_choice("rot", 3); double u = what == 1 ? 0 : sx_real("u", -G, G), t = sx_real("t", -G, G);
      for (int k = 0; k < 3; k++) { double o = 0.5 * k - 0.5; C[rot][k] = o; C[(rot + 1) % 3][k] = o + B1[e][k]; C[(rot + 2) % 3][k] = o + u * B1[(e + 1) % 3][k] + t * B2[f][k]; } }
    double a[3], b[3]; for (int k = 0; k < 3; k++) { a[k] = C[1][k] - C[0][k]; b[k] = C[2][k] - C[0][k]; }
    double n[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; double N2 = dot(n, n);
    if (what == 0) { double A = g.get_3d_triangle_area(c); sx_check_sign(A, "negative area"); sx_check_near(4 * A * A, N2, 1e-6, "area of a triangle"); sx_cover("area"); }
    else {
      double m[3] = {9, 9, 9}; bool ok = g.get_3d_triangle_normal(c, m);
      if (ok) { sx_check_near(dot(m, m), 1, 1e-6, "normal is not a unit vector"); sx_check_near(dot(m, a), 0, 1e-6, "normal is not orthogonal to an edge"); sx_check_near(dot(m, b), 0, 1e-6, "normal is not orthogonal to an edge");
        sx_check_le(0, dot(m, n), "normal does not follow the right-hand rule"); sx_cover("normal"); }
      else { sx_check_le(N2, 1e-3, "a proper triangle reported as degenerate"); sx_cover("degenerate"); }
    }
    for (int i = 0; i < 3; i++) sx_check(c[i] == C[i], "corner list changed");
  } else if (what == 2) {
    size_t n = 1 + sx_choice("n", 4); double v[4], w[4]; for (size_t k = 0; k < n; k++) v[k] = w[k] = sx_real(nm("v", k), -G, G);
    bool ok = g.normalize_vector(n, v); double s = dot(w, w, n);
    if (ok) { sx_check_near(dot(v, v, n), 1, 1e-6, "normalised vector is not a unit vector"); double c = dot(v, w, n); sx_check_sign(c, "normalisation flipped the vector"); sx_check_near(c * c, s, 1e-6, "normalisation changed the direction"); sx_cover("normalized"); }
    else sx_check_le(s, 1e-12, "a proper vector reported as zero");
  } else if (what == 3) {
    size_t n = 1 + sx_choice("n", 4); double x[4], y[4], s = 0, dd = 0; for (size_t k = 0; k < n; k++) { x[k] = sx_real(nm("x", k), -G, G); y[k] = sx_real(nm("y", k), -G, G); s += (x[k] - y[k]) * (x[k] - y[k]); dd += x[k] * y[k]; }
    double d = g.distance(n, x, y); sx_check_sign(d, "negative distance"); sx_check_near(d * d, s, 1e-6, "distance"); sx_check_near(g.dot_product(n, x, y), dd, 1e-6, "dot product"); sx_cover("distance");
  } else if (what == 4) {
    // n dimensions: two coordinates of x are arbitrary, the other ones fixed and non-zero
    size_t n = 1 + sx_choice("n", 4), at = sx_choice("at", 2); double X[3][4]; for (size_t i = 0; i < 3; i++) for (size_t k = 0; k < 4; k++) X[i][k] = i == 1 ? 0.5 * k : i == 0 ? 1.0 + k : k == 2 ? -2.0 : k + 0.25;
    for (size_t k = at; k < at + 2 && k < n; k++) X[0][k] = sx_grid(nm("x", k), -G, G, 1.0);
    if (sx_choice("swap", 2)) for (size_t k = 0; k < 4; k++) std::swap(X[0][k], X[2][k]);
    double c = g.cos_angle(n, X[0], X[1], X[2]); double a[4], b[4]; for (size_t k = 0; k < n; k++) { a[k] = X[0][k] - X[1][k]; b[k] = X[2][k] - X[1][k]; }
    double t = dot(a, b, n); if (dot(a, a, n) * dot(b, b, n) == 0) { sx_observe(c); return; } sx_check_near(c * c * dot(a, a, n) * dot(b, b, n), t * t, 1e-6, "cosine of an angle"); sx_check_sign(c * t, "sign of the cosine of an angle"); sx_cover("cosine");
  } else {
    // component of a vector orthogonal to an orthonormal system
    static const double Bz[3][3] = {{0.6, 0.8, 0}, {-0.8, 0.6, 0}, {0, 0, 1}}; size_t nb = sx_choice("nb", 3); long who = sx_choice("who", 3);
    double B[3][3]; double* b[3]; long sh = sx_choice("shift", 2); for (int i = 0; i < 3; i++) { b[i] = B[i]; for (int k = 0; k < 3; k++) B[i][k] = Bz[(i + sh) % 3][k]; }
    double v[3], w[3]; for (int k = 0; k < 3; k++) v[k] = w[k] = sx_real(nm("v", k), -G, G); double norm = 0; int rc;
    if (who == 0) rc = g.get_normal_component(3, nb, b, v, norm); else if (who == 1) { MeshingSmartTree T(3); rc = T.get_normal_component(3, nb, b, v, norm); } else { MeshingSpheresMethods s; rc = s.get_normal_component(3, nb, b, v, norm); }
    double r[3]; for (int k = 0; k < 3; k++) { r[k] = w[k]; for (size_t i = 0; i < nb; i++) r[k] -= dot(w, B[i]) * B[i][k]; }
    if (rc == 0) { for (size_t i = 0; i < nb; i++) sx_check_near(dot(v, B[i]), 0, 1e-6, "component is not orthogonal to the system"); sx_check_near(dot(v, v), 1, 1e-6, "component is not a unit vector"); double c = dot(v, r); sx_check_sign(c, "component points the wrong way"); sx_check_near(c * c, dot(r, r), 1e-6, "component has the wrong direction"); sx_cover("component"); }
    else sx_check_le(dot(r, r), 1e-6, "a proper component reported as zero");
  }
  sx_observe(what);
}
