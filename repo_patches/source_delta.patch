From 50fa679e2e6d21697f77c5bfa3ec706c974ad147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 01/21] fix: range queries miss points lying exactly at
 distance r on a splitting plane

---
 src/Meshing/MeshingSmartTree.cpp     | 4 ++--
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index fbb3e5d..8b35ce8 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -2119,7 +2119,7 @@ int MeshingSmartTree::kd_tree_get_seeds_in_sphere(double* x,
 	double neighbor_min(x[d_index] - r), neighbor_max(x[d_index] + r);
 
 	if (_tree_right[node_index] != node_index && neighbor_max >  _points[node_index][d_index]) check_right = true;
-	if (_tree_left[node_index] != node_index && neighbor_min < _points[node_index][d_index]) check_left = true;
+	if (_tree_left[node_index] != node_index && neighbor_min <= _points[node_index][d_index]) check_left = true;
 
 	if (check_right) kd_tree_get_seeds_in_sphere(x, r, d_index + 1, _tree_right[node_index], num_points_in_sphere, points_in_sphere, capacity);
 	if (check_left)  kd_tree_get_seeds_in_sphere(x, r, d_index + 1, _tree_left[node_index], num_points_in_sphere, points_in_sphere, capacity);
@@ -2154,7 +2154,7 @@ int MeshingSmartTree::kd_tree_get_seeds_in_sphere(double* x,
 	double neighbor_min(x[d_index] - r), neighbor_max(x[d_index] + r);
 
 	if (_tree_right[node_index] != node_index && neighbor_max >  _points[node_index][d_index]) check_right = true;
-	if (_tree_left[node_index] != node_index && neighbor_min < _points[node_index][d_index]) check_left = true;
+	if (_tree_left[node_index] != node_index && neighbor_min <= _points[node_index][d_index]) check_left = true;
 
 	if (check_right) kd_tree_get_seeds_in_sphere(x, r, max_index,  d_index + 1, _tree_right[node_index], num_points_in_sphere, points_in_sphere, capacity);
 	if (check_left)  kd_tree_get_seeds_in_sphere(x, r, max_index, d_index + 1, _tree_left[node_index], num_points_in_sphere, points_in_sphere, capacity);
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index ab2160c..ed4c20f 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -3050,7 +3050,7 @@ int MeshingVoronoiMesher::kd_tree_get_seeds_in_sphere(size_t num_points, size_t
 			                        x, r, d_index + 1, tree_right[node_index], num_points_in_sphere, points_in_sphere, capacity);
 	}
 
-	if (tree_left[node_index] != node_index && neighbor_min < points[node_index * num_dim + d_index])
+	if (tree_left[node_index] != node_index && neighbor_min <= points[node_index * num_dim + d_index])
 	{
 		kd_tree_get_seeds_in_sphere(num_points, num_dim, points, tree_origin, tree_right, tree_left, 
 			                        x, r, d_index + 1, tree_left[node_index], num_points_in_sphere, points_in_sphere, capacity);
-- 
2.43.0


From 57ce7f0aae4be7a611799fd61b0a296f1766a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 02/21] fix: merging of seed regions loses earlier merges

The regions of two adjacent interior seeds were merged by overwriting the entry of the
higher region, which dropped a merge recorded there before; parts of one volume could end
up with different region ids. Merge the representatives of the two regions instead.
---
 src/Meshing/MeshingVoroCrust.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 11e4e8a..35b1986 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -661,13 +661,15 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 		size_t seed_i = faces[iface][num_corners + 1];
 		size_t seed_j = faces[iface][num_corners + 2];
 		if (seed_i < num_surface_seeds || seed_j < num_surface_seeds) continue;
-		if (region_new_index[seeds_region_id[seed_i]] == region_new_index[seeds_region_id[seed_j]]) continue;
+
+		// the regions that represent the (already merged) regions of both seeds
+		size_t region_i = seeds_region_id[seed_i]; while (region_new_index[region_i] != region_i) region_i = region_new_index[region_i];
+		size_t region_j = seeds_region_id[seed_j]; while (region_new_index[region_j] != region_j) region_j = region_new_index[region_j];
+		if (region_i == region_j) continue;
 
 		// two internal neighbor seeds from different region
-		if (region_new_index[seeds_region_id[seed_i]] < region_new_index[seeds_region_id[seed_j]])
-			region_new_index[seeds_region_id[seed_j]] = region_new_index[seeds_region_id[seed_i]];
-		else
-			region_new_index[seeds_region_id[seed_i]] = region_new_index[seeds_region_id[seed_j]];
+		if (region_i < region_j) region_new_index[region_j] = region_i;
+		else                     region_new_index[region_i] = region_j;
 	}
 
 	// adjust new region ids
-- 
2.43.0


From 4cccdce7d6b7fdb2bb1c03676a425e92f1a62248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 03/21] fix: division by zero when saving a vcg file of a mesh
 without cells

---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index ed4c20f..837c8df 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -2551,7 +2551,7 @@ int MeshingVoronoiMesher::save_vcg_file_pflotran(std::string outFile, size_t num
 	vcm_cout << "  * Total Number of connections = " << num_connections << std::endl;
 	vcm_cout << "    Minimum cell connections = " << min_num_connections << std::endl;
 	vcm_cout << "    Maximum cell connections = " << max_num_connections << std::endl;
-	vcm_cout << "    Average cell connections = " << num_connections / num_meshed_cells << std::endl;
+	vcm_cout << "    Average cell connections = " << (num_meshed_cells > 0 ? num_connections / num_meshed_cells : 0) << std::endl;
 	delete[] seed_new_index; delete[] face_area_height;
 	return 0;
 	#pragma endregion
-- 
2.43.0


From 604ede17dd2a21fa815092f2e372385a29c87602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 04/21] fix: consistent orientation of faces leaves patches
 inconsistent and normals stale

The propagation stopped at the first sweep that flipped nothing, so the next
unfixed face was used as the seed of a patch that was only partly traversed,
fixed[0] was read uninitialised, and flipped faces kept their old normal.
---
 src/Meshing/MeshingPolyMesh.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 94e0272..2bd9f82 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -1279,25 +1279,20 @@ int MeshingPolyMesh::impose_consistent_orientation()
 	#pragma region Consistent Orientation:
 
 	bool* fixed = new bool[_num_faces];
-	for (size_t iface = 1; iface < _num_faces; iface++) fixed[iface] = false;
+	for (size_t iface = 0; iface < _num_faces; iface++) fixed[iface] = false;
 
-	while (true)
+	std::vector<size_t> front;
+	for (size_t patch_face = 0; patch_face < _num_faces; patch_face++)
 	{
-		bool done = true;
-		for (size_t iface = 0; iface < _num_faces; iface++)
-		{
-			if (fixed[iface]) continue;
-			fixed[iface] = true; done = false;
-			break;
-		}
+		if (fixed[patch_face]) continue;
 
-		if (done) break; // all manifold patches are consistently oriented now
+		// orient all faces of a manifold patch following its first face
+		fixed[patch_face] = true;
+		front.push_back(patch_face);
 
-		done = true;
-
-		for (size_t iface = 0; iface < _num_faces; iface++)
+		while (!front.empty())
 		{
-			if (!fixed[iface]) continue;
+			size_t iface = front.back(); front.pop_back();
 
 			for (size_t i = 1; i <= 3; i++)
 			{
@@ -1326,14 +1321,14 @@ int MeshingPolyMesh::impose_consistent_orientation()
 						// adjust orientation of jface
 						_faces[jface][j] = qj;
 						_faces[jface][jp] = qi;
-						done = false;
+						for (size_t idim = 0; idim < 3; idim++) _face_normal[jface][idim] = -_face_normal[jface][idim];
 						break;
 					}
 				}
 				fixed[jface] = true;
+				front.push_back(jface);
 			}
 		}
-		if (done) break;
 	}
 	delete[] fixed;
 	adjust_cad_orientation();
-- 
2.43.0


From 5f2d2211ac390381aabf2edfc44c8b2cd5fbe2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 05/21] fix: vcg file lists faces between ghost cells with
 indices of no cell

After seed regions have been merged into region 0 the faces of their cells
remain in the face list: faces without a meshed cell are no longer listed, and
faces whose first cell is not meshed are listed from the side of the other.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 837c8df..19feedc 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -2509,13 +2509,27 @@ int MeshingVoronoiMesher::save_vcg_file_pflotran(std::string outFile, size_t num
 	vcm_cout << "    Maximum cell volume = " << max_vol << std::endl;
 	vcm_cout << "    Average cell volume = " << vol / num_meshed_cells << std::endl;
 
-	file << "CONNECTIONS " << num_faces << std::endl;
+	// faces between two ghost seeds bound no cell
+	size_t num_cells_faces(0);
+	for (size_t iface = 0; iface < num_faces; iface++)
+	{
+		size_t num_face_corners = faces[iface][0];
+		if (seed_region_id[faces[iface][num_face_corners + 1]] != 0 || seed_region_id[faces[iface][num_face_corners + 2]] != 0) num_cells_faces++;
+	}
+
+	file << "CONNECTIONS " << num_cells_faces << std::endl;
 	for (size_t iface = 0; iface < num_faces; iface++)
 	{
 		size_t num_face_corners = faces[iface][0];
 		size_t i1 = faces[iface][num_face_corners + 1];
 		size_t i2 = faces[iface][num_face_corners + 2];
 
+		if (seed_region_id[i1] == 0)
+		{
+			if (seed_region_id[i2] == 0) continue;
+			size_t tmp = i1; i1 = i2; i2 = tmp; // a boundary face is listed from the side of its cell
+		}
+
 		double nx = seeds[i2 * 3 + 0] - seeds[i1 * 3 + 0];
 		double ny = seeds[i2 * 3 + 1] - seeds[i1 * 3 + 1];
 		double nz = seeds[i2 * 3 + 2] - seeds[i1 * 3 + 2];
-- 
2.43.0


From 24f02f77238206f4e7405753f190bb74e03c9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 06/21] fix: coinciding corners of a Voronoi cell are not
 welded under round-off

Corners of a cell at the same location (co-spherical seeds) but different by
round-off each found themselves as the nearest one, which left duplicate
vertices and sliver faces of size 1E-14 in the mesh.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 19feedc..6be6139 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1689,7 +1689,7 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 				double dy = cell_corners[vtx_seed_index][jcorner * 3 + 1] - vtx_y;
 				double dz = cell_corners[vtx_seed_index][jcorner * 3 + 2] - vtx_z;
 				double dst(sqrt(dx * dx + dy * dy + dz * dz));
-				if (dst < hmin)
+				if (dst < hmin - 1E-10) // coinciding corners of a cell are represented by the first one
 				{
 					hmin = dst;
 					cell_corner_indices[iseed][icorner * 3 + 1] = jcorner;
-- 
2.43.0


From a27d2903dc0cfd342dd437418e839d7978d13df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 07/21] fix: faces of one-sided surfaces compared with the
 wrong sign when looking for sharp edges

---
 src/Meshing/MeshingPolyMesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 2bd9f82..f224921 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -1449,8 +1449,8 @@ int MeshingPolyMesh::extract_model_sharp_features()
 				for (size_t jc = 1; jc <= 3; jc++)
 				{
 					size_t jcp = jc + 1; if (jcp == 4) jcp = 1;
-					size_t jc_index = _faces[fj][ic];
-					size_t jcp_index = _faces[fj][icp];
+					size_t jc_index = _faces[fj][jc];
+					size_t jcp_index = _faces[fj][jcp];
 					if (jc_index == ic_index && jcp_index == icp_index)
 					{
 						reversed = true;
-- 
2.43.0


From c4853a322aca9af85efab7cdd7156f5cae981b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 08/21] fix: blank or short lines of seed and sizing files are
 read out of bounds

---
 src/Meshing/MeshingSmartTree.cpp | 2 +-
 src/Meshing/MeshingVoroCrust.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 8b35ce8..b366ebb 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -266,7 +266,7 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 				iline++;
 				continue;
 			}
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < num_dim || tokens.size() < num_entries) continue;
 
 			for (size_t i = 0; i < num_dim; i++) x[i] = _memo.string_to_double(tokens[i]);
 
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 35b1986..d6d69d4 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -789,7 +789,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < 5) continue;
 
 			num_seeds++;
 		}
@@ -812,7 +812,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < 5) continue;
 
 			for (size_t idim = 0; idim < 3; idim++) seeds[num_seeds * 3 + idim] = _memo.string_to_double(tokens[idim]);
 			seeds_sizing[num_seeds] = _memo.string_to_double(tokens[3]);
-- 
2.43.0


From 6968e1a2c5d91554a8cdd33e3e4c7d6602818832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 09/21] fix: third sphere of a seed pair ignored when seeds are
 too close

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index eb6b72b..055b13b 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -3466,7 +3466,7 @@ int MeshingVoroCrustSampler::generate_surface_seeds(size_t num_points, double**
 		for (size_t iseed = 0; iseed < num_upper_seeds; iseed++)
 		{
 			size_t* attrib = upper_seeds->get_tree_point_attrib(iseed);
-			size_t si(attrib[2]), sj(attrib[3]), sk(attrib[3]);
+			size_t si(attrib[2]), sj(attrib[3]), sk(attrib[4]);
 			double min_radius(DBL_MAX);
 			if (si < num_spheres_s)
 			{
@@ -3509,7 +3509,7 @@ int MeshingVoroCrustSampler::generate_surface_seeds(size_t num_points, double**
 		for (size_t iseed = 0; iseed < num_lower_seeds; iseed++)
 		{
 			size_t* attrib = lower_seeds->get_tree_point_attrib(iseed);
-			size_t si(attrib[2]), sj(attrib[3]), sk(attrib[3]);
+			size_t si(attrib[2]), sj(attrib[3]), sk(attrib[4]);
 			double min_radius(DBL_MAX);
 			if (si < num_spheres_s)
 			{
-- 
2.43.0


From 9ea3a40f46eb490692aab4827c98068a8a73fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 10/21] fix: threads share the query point when imposing
 Lipschitz continuity on seeds

---
 src/Meshing/MeshingVoronoiMesher.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 6be6139..aea07a0 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -3090,7 +3090,6 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 {
 	#pragma region Impose Lipschitz Continuity:
 	
-	double* x = new double[num_dim];
 	size_t* num_neighbors = new size_t[num_spheres];
 	size_t** neighbors = new size_t*[num_spheres];
 	
@@ -3100,7 +3099,7 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 #endif
 	for (int i = 0; i < num_spheres; i++)
 	{ 
-		for (size_t idim = 0; idim < num_dim; idim++) x[idim] = spheres[i * num_dim + idim];
+		double* x = &spheres[i * num_dim]; // the query point is private to its iteration
 		get_tree_points_in_sphere(num_spheres, num_dim, spheres, tree_origin, tree_right, tree_left, x, 2.0 * spheres_sizing[i], num_neighbors[i], neighbors[i]);
 	}
 
@@ -3137,7 +3136,7 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 	{
 		if (num_neighbors[i] > 0) delete[] neighbors[i];
 	}
-	delete[] neighbors; delete[] num_neighbors; delete[] x;
+	delete[] neighbors; delete[] num_neighbors;
 	return 0;
 	#pragma endregion
 
-- 
2.43.0


From 8a92eeebf482676812a155ad3f40a8a9138f143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 11/21] fix: threads race on the number of valid imposed seeds

---
 src/Meshing/MeshingVoronoiMesher.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index aea07a0..47724d1 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -762,7 +762,10 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 		}
 		delete[] x;
 		valid_seed[iseed] = true;
-		num_valid_seeds++;
+	}
+	for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
+	{
+		if (valid_seed[iseed]) num_valid_seeds++;
 	}
 
 	vcm_cout << "  * Number of imposed seeds " << num_valid_seeds << std::endl;
-- 
2.43.0


From 85ce376829ab1ea7eb1027ba662e12ea3d77bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 12/21] fix: trees of corner spheres and sizing points are
 allocated with the number of surface spheres

---
 src/Meshing/MeshingVoronoiMesher.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 47724d1..637c07f 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -139,8 +139,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -161,8 +161,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -537,8 +537,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -559,8 +559,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -929,8 +929,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -951,8 +951,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
-- 
2.43.0


From 2719548d15216aaa2dc86731b4907e274b98796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 13/21] fix: threads read each other's new spheres and coverage
 flags while these are being written

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index 055b13b..4d756cd 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -2670,14 +2670,6 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 #endif
 		if (!covered_sample[thread_id])
 		{
-			for (size_t jthread = 0; jthread < thread_id; jthread++)
-			{
-				if (covered_sample[jthread]) continue;
-				covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
-				if (covered_sample[thread_id]) break;
-			}
-
-			if (!covered_sample[thread_id])
 			{
 				size_t sphere_face_index = new_sphere_face[thread_id];
 
@@ -2732,6 +2724,17 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 		}
 	}
 
+	// samples covered by the sample of an earlier thread are dropped after all threads have sized theirs
+	for (size_t ithread = 1; ithread < _num_threads; ithread++)
+	{
+		for (size_t jthread = 0; jthread < ithread; jthread++)
+		{
+			if (covered_sample[ithread]) break;
+			if (covered_sample[jthread]) continue;
+			covered_sample[ithread] = _smethods.point_covered(new_sphere[ithread], new_sphere[jthread], coverage_radius_ratio);
+		}
+	}
+
 #if defined USE_OPEN_MP
 	end_omp_sz = omp_get_wtime();
 	_sizing_time += end_omp_sz - start_omp_sz;
-- 
2.43.0


From c83e0205edb118282c7c5aacf857b4e8fc96b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 14/21] fix: attribute just past the end of a point is read

---
 src/Meshing/MeshingSmartTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index b366ebb..038c456 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -510,7 +510,7 @@ int MeshingSmartTree::get_tree_point(size_t point_index, size_t num_dim, double*
 bool MeshingSmartTree::get_tree_point_attrib(size_t point_index, size_t attrib_index, size_t &point_attrib)
 {
 	if (_points_attrib[point_index] == 0) return false;
-	if (attrib_index >= _points_attrib[point_index][0]) return false;
+	if (1 + attrib_index >= _points_attrib[point_index][0]) return false;
 	point_attrib = _points_attrib[point_index][1 + attrib_index];
 	return true;
 }
-- 
2.43.0


From 9613030cb29ea28d9571300007b3325de73c372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 15/21] fix: random samplers of a tree are deleted twice

---
 src/Meshing/MeshingSmartTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 038c456..6815ea2 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -586,6 +586,7 @@ void MeshingSmartTree::clear_memory()
 	{
 		delete _rsamplers[thread_id];
 	}
+	_rsamplers.clear();
 
 	_tree_max_height = 0;
 	_num_points = 0; _capacity = 0;
-- 
2.43.0


From 6715791caad1e106bf04288affe0a2e94417d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 16/21] fix: consecutive front seeds are active together
 although their spoke darts can meet

---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 637c07f..c37d8f7 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1042,7 +1042,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 			size_t si_index = front_indices[i];
 
 			bool good_seed(true);
-			for (size_t j = 0; j < i - 1; j++)
+			for (size_t j = 0; j < i; j++)
 			{
 				if (is_active_seed[j])
 				{
-- 
2.43.0


From 43e5bbfaa33d1516115f23a13642062a0efd570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 17/21] fix: write past an empty list when no seed lies inside
 the domain

---
 src/Meshing/MeshingVoronoiMesher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index c37d8f7..1ce72ef 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1036,7 +1036,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 		for (size_t iactive = 0; iactive < num_front_seeds; iactive++) is_active_seed[iactive] = false;
 
-		int num_good_seeds(1); is_active_seed[0] = true;
+		int num_good_seeds(1);
+		if (num_front_seeds > 0) is_active_seed[0] = true;
 		for (size_t i = 1; i < num_front_seeds; i++)
 		{
 			size_t si_index = front_indices[i];
-- 
2.43.0


From 89d06fcc9da89bc0490f2d62e92c7417a72ca15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 18/21] fix: direction sampled from a zero random number is not
 a number

---
 src/Meshing/MeshingRandomSampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Meshing/MeshingRandomSampler.cpp b/src/Meshing/MeshingRandomSampler.cpp
index 91445d1..f8ccd04 100644
--- a/src/Meshing/MeshingRandomSampler.cpp
+++ b/src/Meshing/MeshingRandomSampler.cpp
@@ -182,6 +182,7 @@ int MeshingRandomSampler::sample_uniformly_from_unit_sphere(double* dart, size_t
 	while (true)
 	{
 		double u1 = generate_uniform_random_number();
+		while (u1 == 0.0) u1 = generate_uniform_random_number(); // the logarithm of zero is infinite
 		double u2 = generate_uniform_random_number();
 		double r = sqrt(-2 * log(u1));
 		double theta = 2 * PI * u2;
-- 
2.43.0


From 538795b29360d9df56115ec899a73be0e1f7b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 19/21] fix: set the radius of a new sphere before looking for
 the spheres it overlaps

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index 4d756cd..21d52ee 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -1233,6 +1233,7 @@ int MeshingVoroCrustSampler::generate_edge_spheres(size_t num_points, double** p
 
 				if (num_samples > 1)
 				{
+					new_sphere[3] = fmin(fmin(surf_sz, edge_sz), rmax); // neighbors are those of the sphere being sized
 					size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
 					_smethods.get_overlapping_spheres(new_sphere, edge_spheres, Lip, num_nearby_spheres_s, nearby_spheres_s);
 					for (size_t i = 0; i < num_nearby_spheres_s; i++)
@@ -2702,6 +2703,7 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 
 				if (num_samples > 0)
 				{
+					new_sphere[thread_id][3] = surf_sz; // neighbors are those of the sphere being sized
 					size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
 					_smethods.get_overlapping_spheres(new_sphere[thread_id], surface_spheres, Lip, num_nearby_spheres_s, nearby_spheres_s);
 					for (size_t i = 0; i < num_nearby_spheres_s; i++)
-- 
2.43.0


From 99a5097be61a816b7094d818920d7e0e9e45a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 20/21] fix: seeds added for sharp edges were counted as
 imposed monitoring points

---
 src/Meshing/MeshingVoroCrust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index d6d69d4..fdd0bfa 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -433,7 +433,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 
 		generate_monitoring_points = false;
 
-		num_imposed_seeds_added = num_seeds - num_surface_seeds;
+		num_imposed_seeds_added = num_seeds - num_critical_seeds;
 		vcm_cout << "  * added " << num_imposed_seeds_added << " / " << num_imposed_seeds << " desired imposed points!" << std::endl;
 		vcm_cout << "  * executed in " << timer.report_timing() << " seconds!" << std::endl;
 	}
-- 
2.43.0


From b7981fdb3c8aa55b49001545ee2dd0bfca130fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 21/21] fix: a seed that is removed was reported as the closest
 one to a monitoring point

---
 src/Meshing/MeshingVoroCrust.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index fdd0bfa..2ea1167 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -496,13 +496,21 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 			}
 		}
 
+		// seeds that will be removed are not reported
+		size_t* invalid_seeds = new size_t[num_invalidated];
+		num_invalidated = 0;
+		for (size_t iseed = 0; iseed < num_seeds; iseed++)
+		{
+			if (!valid_seed[iseed]) invalid_seeds[num_invalidated++] = iseed;
+		}
+
 		for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
 		{
 			for (size_t idim = 0; idim < 4; idim++) x[idim] = imposed_seeds[iseed * 4 + idim];
 
 			// find closest point in seeds .. if distance in zero, make sure this sphere has no interior seeds
 			size_t iclosest(SIZE_MAX); double hclosest(DBL_MAX);
-			seeds_tree.get_closest_tree_point(x, iclosest, hclosest);
+			seeds_tree.get_closest_tree_point(x, num_invalidated, invalid_seeds, iclosest, hclosest);
 
 			if (hclosest < 1E-10)
 				continue;
@@ -515,6 +523,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 				imposed_seeds[iseed * 4 + 3] = seeds_sizing[iclosest];
 			}
 		}
+		delete[] invalid_seeds;
 
 		if (num_invalidated > 0)
 		{
-- 
2.43.0

