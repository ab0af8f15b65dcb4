// A MeshingPolyMesh built through its constructor from a face list, and generic helpers.
#include "MeshingPolyMesh.h"
struct PM { std::vector<double*> x; std::vector<size_t*> f; ~PM() { for (auto p : x) delete[] p; for (auto p : f) delete[] p; }
  void pt(double a, double b, double c) { double* p = new double[3]; p[0] = a; p[1] = b; p[2] = c; x.push_back(p); }
  void face(size_t a, size_t b, size_t c) { size_t* p = new size_t[4]; p[0] = 3; p[1] = a; p[2] = b; p[3] = c; f.push_back(p); } };
static inline bool pm_has(const size_t* f, size_t a) { return f[1] == a || f[2] == a || f[3] == a; }
static inline int pm_dir(const size_t* f, size_t a, size_t b) { for (int k = 1; k <= 3; k++) { size_t p = f[k], q = f[k % 3 + 1]; if (p == a && q == b) return 1; if (p == b && q == a) return -1; } return 0; }
static inline bool pm_same(const size_t* f, const size_t* g) { return pm_has(f, g[1]) && pm_has(f, g[2]) && pm_has(f, g[3]); }
static inline void pm_cross(double** x, const size_t* f, double* n) { double a[3], b[3]; for (int k = 0; k < 3; k++) { a[k] = x[f[2]][k] - x[f[1]][k]; b[k] = x[f[3]][k] - x[f[1]][k]; } n[0] = a[1] * b[2] - a[2] * b[1]; n[1] = a[2] * b[0] - a[0] * b[2]; n[2] = a[0] * b[1] - a[1] * b[0]; }
