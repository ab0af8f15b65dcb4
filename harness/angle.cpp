// Angle of a point in the plane: in [0, 2 pi), increasing counter-clockwise from the positive x axis.
#include "sxh.h"
#include "MeshingGeometricalMethods.h"
#ifndef RMAX
#define RMAX 8
#endif
static int half(double x, double y) { return (y > 0 || (y == 0 && x > 0)) ? 0 : 1; }
void sx_main() {
  MeshingGeometricalMethods g; double p[2][2], a[2]; for (int i = 0; i < 2; i++) { for (int d = 0; d < 2; d++) { p[i][d] = sx_real(nm("p", i, d), -RMAX, RMAX); sx_assume(p[i][d] == 0 || p[i][d] > 1e-6 || p[i][d] < -1e-6); } sx_assume(p[i][0] != 0 || p[i][1] != 0); }
  for (int i = 0; i < 2; i++) { a[i] = g.get_point_angle(p[i][0], p[i][1]); sx_check_sign(a[i], "negative angle"); sx_check_le(a[i], 6.2831853071795871, "angle of more than a turn");
    // quadrants
    double q = 1.5707963267948966; int k = p[i][0] > 0 && p[i][1] >= 0 ? 0 : p[i][0] <= 0 && p[i][1] > 0 ? 1 : p[i][0] < 0 ? 2 : 3; sx_check_le(k * q, a[i] + 1e-9, "angle below its quadrant"); sx_check_le(a[i], (k + 1) * q + 1e-9, "angle above its quadrant"); }
  int h0 = half(p[0][0], p[0][1]), h1 = half(p[1][0], p[1][1]); double c = p[0][0] * p[1][1] - p[0][1] * p[1][0]; sx_assume(c > 1e-6 || c < -1e-6 || c == 0);
  if (h0 != h1) { if (h0 < h1) sx_check_le(a[0], a[1] + 1e-9, "angles of opposite half planes"); else sx_check_le(a[1], a[0] + 1e-9, "angles of opposite half planes"); sx_cover("halves"); }
  else if (c == 0) { sx_check_near(a[0], a[1], 1e-9, "angles of parallel points"); sx_cover("parallel"); }
  else { if (c > 0) sx_check_le(a[0], a[1] + 1e-9, "angle does not increase counter-clockwise"); else sx_check_le(a[1], a[0] + 1e-9, "angle does not increase counter-clockwise"); sx_cover("turn"); }
  sx_observe(h0);
}
