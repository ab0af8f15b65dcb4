// Neighbour graph of the point tree.
#include "sxh.h"
#include "MeshingSmartTree.h"
#ifndef NE
#define NE 4
#endif
#ifndef NPT
#define NPT 26
#endif
static bool adj[260][260];
static void add(MeshingSmartTree& T, size_t i, size_t j, bool both) { if (both) T.graph_connect_nodes(i, j); else T.graph_connect(i, j); adj[i][j] = true; if (both) adj[j][i] = true; }
void sx_main() {
  MeshingSmartTree T(1); T.disable_auto_balance();
  for (int i = 0; i < NPT; i++) { double x = i; T.add_tree_point(1, &x, 0, 0); }
  // hub with many neighbours: list growth at 10 and 20 entries
  long deg = 8 + sx_choice("deg", 3); if (sx_choice("big", 2)) deg += 10;
  for (int j = 1; j <= deg; j++) add(T, 0, j, (j & 1) != 0);
  if (sx_choice("growtree", 2)) for (int i = NPT; i < 120; i++) { double x = i; T.add_tree_point(1, &x, 0, 0); } // storage of the tree doubles
  size_t n = T.get_num_tree_points();
  long j1 = 0;
  for (int e = 0; e < NE; e++) {
    size_t i = sx_choice(nm("i", e), 3); if (i == 2) i = n - 1; long both = sx_choice(nm("both", e), 2), jj = 0;
    if (e == 0) { size_t j = sx_int("j", 0, NPT - 1); for (int k = 0; k < NPT; k++) if (j == (size_t)k) jj = k; j1 = jj; }  // enumerated by the solver
    else { long k = sx_choice(nm("j", e), 3); jj = k == 0 ? j1 : k == 1 ? deg + 1 : 0; }
    add(T, i, jj, both);
  }
  for (size_t a = 0; a < 3; a++) {
    size_t i = a == 2 ? n - 1 : a; size_t* g = 0; T.graph_get_neighbors(i, g);
    size_t cnt = 0; for (size_t j = 0; j < n; j++) cnt += adj[i][j];
    for (size_t j = 0; j < n; j++) { sx_check(T.graph_connected(i, j) == adj[i][j], "connection query disagrees with the connections made"); sx_check(T.graph_connected(j, i) == adj[j][i], "connection query disagrees with the connections made"); }
    if (!g) { sx_check(cnt == 0, "neighbour list lost"); continue; }
    sx_check(g[1] == cnt, "neighbour list has the wrong length"); sx_check(g[0] >= g[1], "capacity covers the list");
    for (size_t k = 0; k < g[1]; k++) { sx_check(g[2 + k] < n && adj[i][g[2 + k]], "a neighbour that was never connected"); for (size_t m = 0; m < k; m++) sx_check(g[2 + k] != g[2 + m], "a neighbour listed twice"); }
  }
  sx_check(!T.graph_connected(n + 5, 0) , "unknown point"); 
  if (sx_choice("reset", 2)) { long qq = j1; T.reset_graph(); sx_check(!T.graph_connected(0, 1) && !T.graph_connected(0, qq), "reset graph still connected"); T.graph_connect(0, qq); sx_check(T.graph_connected(0, qq) && (qq == 2 || !T.graph_connected(0, 2)), "graph after reset"); }
  sx_cover("done"); sx_observe(deg);
}
