// Closest-point projections onto a segment, a line and a triangle.
#include "sxh.h"
#include "MeshingGeometricalMethods.h"
#ifndef NTRI
#define NTRI 3
#endif
#ifndef NLINE
#define NLINE 4
#endif
static double dot(const double* a, const double* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void check_dist(double* p, double* q, double d) { double s = 0; for (int k = 0; k < 3; k++) s += (p[k] - q[k]) * (p[k] - q[k]); sx_check_sign(d, "negative distance"); sx_check_near(d * d, s, 1e-6, "reported distance is not the distance to the reported point"); }
void sx_main() {
  MeshingGeometricalMethods g; double p[3], q[3], d = -1;
  long what = sx_choice("what", 3);
  if (what == 0) {
    static const double S[4][6] = {{0, 0, 0, 2, 0, 0}, {1, 1, 0, 1, -1, 2}, {0, 0, 1, 1, 2, 3}, {-1, 0, 0, 0, 0, 0.5}};
    long k = sx_choice("seg", 4); double a[3], b[3]; for (int i = 0; i < 3; i++) { a[i] = S[k][i]; b[i] = S[k][3 + i]; p[i] = sx_real(nm("p", i), -4, 4); }
    g.project_to_3d_line_segment(p, a, b, q, d); check_dist(p, q, d);
    double e[3], w[3], L = 0; for (int i = 0; i < 3; i++) { e[i] = b[i] - a[i]; w[i] = q[i] - a[i]; L += e[i] * e[i]; }
    double u = dot(w, e); sx_check_le(-1e-6, u, "projection leaves the segment"); sx_check_le(u, L + 1e-6, "projection leaves the segment");
    for (int i = 0; i < 3; i++) sx_check_near(w[i] * L, u * e[i], 1e-6, "projection leaves the segment");
    double va = 0, vb = 0; for (int i = 0; i < 3; i++) { va += (p[i] - q[i]) * (a[i] - q[i]); vb += (p[i] - q[i]) * (b[i] - q[i]); }
    sx_check_le(va, 1e-6, "another point of the segment is closer"); sx_check_le(vb, 1e-6, "another point of the segment is closer"); sx_cover("segment");
  } else if (what == 1) {
    static const double S[3][6] = {{0, 0, 0, 1, 0, 0}, {1, 1, 0, 0, 0.6, -0.8}, {0, 2, 1, 0.36, 0.48, 0.8}};
    long k = sx_choice("line", 3); double a[3], e[3]; for (int i = 0; i < 3; i++) { a[i] = S[k][i]; e[i] = S[k][3 + i]; p[i] = sx_real(nm("p", i), -4, 4); }
    g.project_to_3d_line(p, a, e, q, d); check_dist(p, q, d);
    double w[3], r[3]; for (int i = 0; i < 3; i++) { w[i] = q[i] - a[i]; r[i] = p[i] - q[i]; }
    double u = dot(w, e); for (int i = 0; i < 3; i++) sx_check_near(w[i], u * e[i], 1e-6, "projection leaves the line"); sx_check_near(dot(r, e), 0, 1e-6, "another point of the line is closer"); sx_cover("line");
  } else {
    // triangles (right, obtuse, tilted), query points along a line through space: p = o + s * w, s any real
    static const double TR[3][9] = {{0, 0, 0, 4, 0, 0, 0, 3, 0}, {0, 0, 0, 4, 0, 0, -2, 1, 0}, {0, 0, 0, 3, 4, 0, 0, 0, 2}};
    static const double LN[8][6] = {{0, 1, 1, 1, 0, 0}, {2, -1, 2, -0.5, 1, 0}, {-1, -1, -1, 1, 1, 0.5}, {1, 1, 0, 0, 0, 1}, {-1, 2, 1, 1, -1, 0}, {5, 0, 1, -1, 0.25, 0}, {0, -2, 0.5, 0, 1, 0}, {1, 0, -1, 0, 0.5, 1}};
    long t = sx_choice("tri", NTRI), l = sx_choice("path", NLINE); long rot = sx_choice("rot", 2);
    double C[3][3]; double* c[3]; for (int i = 0; i < 3; i++) { int m = rot ? (i + 2) % 3 : i; for (int k = 0; k < 3; k++) C[i][k] = TR[t][3 * m + k]; c[i] = C[i]; }
    double s = sx_real("s", -6, 6); for (int k = 0; k < 3; k++) p[k] = LN[l][k] + s * LN[l][3 + k];
    g.project_to_3d_triangle(p, c, q, d);
    for (int i = 0; i < 3; i++) sx_check(c[i] == C[i], "corner list changed");
    check_dist(p, q, d);
    // q in the triangle: barycentric coordinates, concrete dual basis
    double e1[3], e2[3]; for (int k = 0; k < 3; k++) { e1[k] = C[1][k] - C[0][k]; e2[k] = C[2][k] - C[0][k]; }
    double g11 = dot(e1, e1), g12 = dot(e1, e2), g22 = dot(e2, e2), det = g11 * g22 - g12 * g12; double w[3]; for (int k = 0; k < 3; k++) w[k] = q[k] - C[0][k];
    double b1 = (dot(w, e1) * g22 - dot(w, e2) * g12) / det, b2 = (dot(w, e2) * g11 - dot(w, e1) * g12) / det;
    sx_check_le(-1e-6, b1, "projection leaves the triangle"); sx_check_le(-1e-6, b2, "projection leaves the triangle"); sx_check_le(b1 + b2, 1 + 1e-6, "projection leaves the triangle");
    for (int k = 0; k < 3; k++) sx_check_near(w[k], b1 * e1[k] + b2 * e2[k], 1e-6, "projection leaves the plane of the triangle");
    for (int i = 0; i < 3; i++) { double v = 0; for (int k = 0; k < 3; k++) v += (p[k] - q[k]) * (C[i][k] - q[k]); sx_check_le(v, 1e-6, "another point of the triangle is closer"); }
    sx_cover("triangle");
  }
  sx_observe(d); for (int i = 0; i < 3; i++) sx_observe(q[i]);
}
