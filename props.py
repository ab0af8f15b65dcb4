# Source of properties.jsonl and of the per-property notes in MANIFEST.json (python3 gen.py regenerates both).
S = 'src/Meshing/'
PROPS = []
NA = []
def P(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=S + b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
ORACLE = {}
E2E = 'The 13 existing tests are end-to-end meshing runs on a few models compared with stored statistics; '
P('C01', 'Nearest-point queries are exact', 'For every set of stored points, however the tree was built, a nearest-point query by location, by stored point (itself excluded) or with an exclusion list returns a non-excluded stored point at minimum distance together with that distance. When no admissible point exists the caller-supplied result is left untouched, and a caller-supplied upper bound on the distance is respected.',
  ['inputs', 'histories'], 'every point set (duplicates and ties included), every insertion order, every query location, every exclusion set', E2E + 'a wrong branch-and-bound prune shows only for particular point/query arrangements and would just shift a mesh statistic.',
  ['MeshingSmartTree.cpp'], [('branch-and-bound descent', 'MeshingSmartTree.cpp kd_tree_get_closest_seed'), ('entry points', 'MeshingSmartTree.cpp get_closest_tree_point')], ['MeshingSmartTree::get_closest_tree_point (3 overloads)'])
P('C02', 'Feature-aware nearest queries return the nearest qualifying point', 'The queries that look for the nearest point across a sharp feature (by tolerance and smoothness threshold, by one normal, by a set of normals, or along edges) return, among the stored points satisfying the documented smoothness condition, one at minimum distance, and leave the result untouched when none qualifies.',
  ['inputs'], 'every point set with normals, every query location, tolerance and threshold', E2E + 'they feed the sizing function; a missed candidate only makes spheres locally too large.',
  ['MeshingSmartTree.cpp'], [('kd_tree_get_closest_non_smooth_seed / _edge_seed', 'MeshingSmartTree.cpp')], ['MeshingSmartTree::get_closest_non_smooth_tree_point', 'MeshingSmartTree::get_closest_non_smooth_tree_edge_point'])
P('C03', 'Range queries are complete, sound and free of duplicates', 'A range query reports every stored point of the closed ball, no point outside the ball (beyond the documented tolerance), and no point twice; growing the caller-supplied result array loses nothing.',
  ['inputs', 'histories'], 'every point set, build history, centre, radius and initial capacity', E2E + 'points lying exactly on the ball boundary and on a splitting plane at once were missed by the code and no test noticed (repaired).',
  ['MeshingSmartTree.cpp'], [('kd_tree_get_seeds_in_sphere', 'MeshingSmartTree.cpp')], ['MeshingSmartTree::get_tree_points_in_sphere'])
P('C04', 'The point tree stores every point faithfully under any history', 'After any sequence of insertions, re-balancing, automatic re-balancing, storage growth, re-enumeration, updates and clearing, every stored point keeps its own coordinates, extra entries, normal and attribute list together, is stored exactly once and stays reachable by queries; insertion indices change only by re-enumeration.',
  ['histories', 'inputs'], 'every operation sequence with arbitrary points and attributes', E2E + 'they exercise one fixed operation order with benign data.',
  ['MeshingSmartTree.cpp'], [('add_tree_point, kd_tree_build_balanced, re_enumerate_points_for_better_memory_access, set_tree_point_attrib, clear_memory', 'MeshingSmartTree.cpp')], ['MeshingSmartTree accessors and queries'])
P('C05', 'Sorting keeps companions aligned; growable lists keep every entry', 'The sorting routines order the requested index range ascending, keep every companion entry attached to its key, keep the multiset of keys and touch nothing outside the range; appending to a growable list keeps all earlier entries in order whatever the starting capacity.',
  ['inputs', 'histories'], 'every array (duplicates included), every index range, every append sequence', E2E + 'partition corner cases (duplicates, range starting at 0, two elements) are not exercised deliberately.',
  ['MeshingMemoryHandler.cpp', 'MeshingSmartTree.cpp'], [('quicksort (3 overloads), add_entry (5 overloads)', 'MeshingMemoryHandler.cpp'), ('quicksort with three companions', 'MeshingSmartTree.cpp')], ['MeshingMemoryHandler::quicksort', 'MeshingMemoryHandler::add_entry'])
P('C06', 'The neighbour graph records exactly the connections made', 'After any sequence of directed and undirected connections, including repeated ones, connections past the initial list size and after the tree itself has grown, each node lists exactly the neighbours it was connected to, each once; resetting removes all of them.',
  ['histories'], 'every connection sequence', E2E + 'duplicate insertions and list growth depend on the degree of a node.',
  ['MeshingSmartTree.cpp'], [('graph_connect, graph_connect_nodes, graph_connected, reset_graph', 'MeshingSmartTree.cpp')], ['MeshingSmartTree::graph_get_neighbors', 'MeshingSmartTree::graph_connected'])
P('C07', 'A spoke is cut exactly where it leaves its Voronoi cell', 'Trimming a spoke that starts inside the cell of its seed never lengthens it, leaves its end no closer to any non-involved stored point than to its seed, reports as trimming neighbour a non-involved point equidistant from the end, and leaves length and neighbour untouched when nothing cuts the spoke.',
  ['inputs'], 'every seed set, spoke origin in the cell, direction, initial length and involved set', E2E + 'a pruned branch only affects rare seed arrangements.',
  ['MeshingSmartTree.cpp'], [('trim_spoke, kd_tree_trim_spoke', 'MeshingSmartTree.cpp')], ['MeshingSmartTree::trim_spoke'])
P('C08', 'Projections return the closest point of a segment, line or triangle', 'For every non-degenerate segment, line or triangle and every query point, the projection lies on the primitive, no other point of the primitive is closer, the reported distance is the distance to the reported point, and the caller\'s corner list is left as it was.',
  ['inputs'], 'every primitive and query point', E2E + 'the regions (face, three edges, three corners) are sampled by accident only.',
  ['MeshingGeometricalMethods.cpp'], [('project_to_3d_triangle, project_to_3d_line_segment, project_to_3d_line', 'MeshingGeometricalMethods.cpp')], ['MeshingGeometricalMethods::project_to_3d_*'])
P('C09', 'Lengths, areas, normals and orthonormal components are right', 'Distances, dot products, angles and triangle areas equal their definitions; a triangle normal is a unit vector orthogonal to the triangle following its corner order; normalising keeps the direction; the component of a vector orthogonal to an orthonormal system is a unit vector orthogonal to the system with the right sense; the angle of a plane vector lies in [0, 2 pi) and increases counter-clockwise; degenerate input is reported, proper input never is.',
  ['inputs'], 'every vector / triangle within the bounds', E2E + 'they do not look at these values.',
  ['MeshingGeometricalMethods.cpp', 'MeshingSmartTree.cpp', 'MeshingSpheresMethods.cpp'], [('distance, cos_angle, get_3d_triangle_area, get_3d_triangle_normal, normalize_vector, get_normal_component', 'MeshingGeometricalMethods.cpp')], ['MeshingGeometricalMethods'])
P('C10', 'Coverage checks recognise covered points, edges and faces', 'For every set of spheres whose radii satisfy the Lipschitz bound, a point (edge, triangle) is reported as covered exactly when some single sphere, shrunk by the coverage factor sqrt(1-alpha^2), contains the point (all its corners); an empty set covers nothing; the corner list is left unchanged.',
  ['inputs'], 'every Lipschitz sphere set, point, edge, triangle and coverage factor', E2E + 'a search radius that is slightly too small only adds superfluous spheres; one that is wrongly large leaves uncovered surface that shows up as non-conforming cells on other models.',
  ['MeshingSpheresMethods.cpp'], [('point_covered (2 overloads), edge_covered, face_covered', 'MeshingSpheresMethods.cpp')], ['MeshingSpheresMethods::point_covered', 'MeshingSpheresMethods::edge_covered', 'MeshingSpheresMethods::face_covered'])
P('C11', 'Imposing Lipschitz continuity shrinks spheres and sizes just enough', 'After imposing the Lipschitz bound on a set of spheres (or on the sizes of a set of seeds) no radius has grown and no centre has moved; the exhaustive version leaves every pair within the bound, the neighbourhood versions every pair within twice the larger original radius; each shrunk radius equals the bound given by some element of the set (nothing shrinks more than needed); and the shrink flag tells exactly whether a radius changed.',
  ['inputs'], 'every sphere set / sized seed set and Lipschitz constant', E2E + 'they never inspect radii of individual spheres.',
  ['MeshingSpheresMethods.cpp', 'MeshingVoronoiMesher.cpp'], [('impose_lipschitz_continuity, impose_lipschitz_continuity_brute', 'MeshingSpheresMethods.cpp'), ('impose_lipschitz_continuity (seed sizing)', 'MeshingVoronoiMesher.cpp')], ['MeshingSpheresMethods::impose_lipschitz_continuity', 'MeshingVoronoiMesher::impose_lipschitz_continuity'])
P('C12', 'All overlapping spheres are found', 'For every Lipschitz sphere set and query sphere, the overlap query returns exactly the stored spheres that touch or overlap the query sphere, each once; for an empty set it returns none. The pairwise overlap test is exact.',
  ['inputs'], 'every Lipschitz sphere set and query sphere', E2E + 'a missing overlap hides an intersection pair and thereby seeds; only geometry-dependent.',
  ['MeshingSpheresMethods.cpp', 'MeshingGeometricalMethods.cpp'], [('get_overlapping_spheres', 'MeshingSpheresMethods.cpp'), ('overlapping_spheres', 'MeshingGeometricalMethods.cpp')], ['MeshingSpheresMethods::get_overlapping_spheres', 'MeshingGeometricalMethods::overlapping_spheres'])
P('C13', 'Power vertices are equidistant in power from all given spheres', 'For two, three or four spheres with affinely independent centres in the plane or in space the power vertex has the same power distance to all of them and lies in the affine hull of the centres, whatever the state of the random stream; affinely dependent centres are refused; the spheres are left unchanged.',
  ['inputs'], 'every tuple of 2..4 spheres', E2E + 'a slightly wrong power vertex only moves or loses seed pairs.',
  ['MeshingSpheresMethods.cpp', 'MeshingGeometricalMethods.cpp'], [('get_power_vertex (2 overloads each)', 'MeshingSpheresMethods.cpp and MeshingGeometricalMethods.cpp')], ['MeshingSpheresMethods::get_power_vertex', 'MeshingGeometricalMethods::get_power_vertex'])
P('C14', 'Sliver resolution picks the smallest shrinkage that uncovers a vertex', 'Given mutually intersecting spheres, sliver resolution reports a sphere exactly when an intersection point of three of the spheres lies inside another, non-fixed one; the reported sphere is never a fixed one, its reported radius is 0.95 times its distance to such a point, and no other such choice would shrink a sphere by less.',
  ['inputs'], 'every tuple of spheres and every pattern of fixed ones', E2E + 'which sphere shrinks is invisible in mesh statistics, and over-shrinking just adds spheres.',
  ['MeshingSpheresMethods.cpp'], [('resolve_sliver', 'MeshingSpheresMethods.cpp')], ['MeshingSpheresMethods::resolve_sliver'])
P('C15', 'The mesher\'s flat point tree answers every query exactly', 'For every point set the array-based tree of the Voronoi mesher returns a nearest point by location or by stored point (itself excluded), optionally only among points not behind a given direction and closer than a given bound, or reports that there is none; ball queries return every point of the closed ball and no other, each once; re-enumeration is a permutation that keeps every point and every query answer; queries on an empty set are refused.',
  ['inputs', 'histories'], 'every point set, query location, direction and radius', E2E + 'Voronoi cells are computed from these queries; a wrong prune loses a face only for rare seed arrangements.',
  ['MeshingVoronoiMesher.cpp'], [('build_balanced_kd_tree, re_enumerate_points_for_better_memory_access, get_closest_tree_point (3 overloads), get_tree_points_in_sphere', 'MeshingVoronoiMesher.cpp')], ['MeshingVoronoiMesher::get_closest_tree_point', 'MeshingVoronoiMesher::get_tree_points_in_sphere'])
P('C16', 'The Voronoi cell of a seed is exact, closed and complete', 'For a seed enclosed by other seeds, every corner of its computed Voronoi cell is equidistant from the seed and the three seeds of its faces with no seed closer; corner adjacency is symmetric and adjacent corners share two faces; the boundary is closed (each face a single cycle, Euler\'s relation holds); every corner is owned by a non-ghost seed equidistant from it, no later than the lowest non-ghost one among the cell seed and the corner\'s face seeds.',
  ['inputs'], 'every seed set enclosing the seed', E2E + 'missed faces or corners arise only for particular seed arrangements.',
  ['MeshingVoronoiMesher.cpp'], [('get_3d_Voronoi_cell', 'MeshingVoronoiMesher.cpp')], ['MeshingVoronoiMesher::get_3d_Voronoi_cell'])
P('C17', 'The Voronoi mesh is conforming: shared vertices, shared faces, closed cells', 'For every seed set whose meshed (non-ghost) seeds are enclosed, the Voronoi mesh has no two coinciding vertices and no unused vertex; every face is listed once, has at least three distinct corners, belongs to a meshed seed and a second seed, and each of its corners is equidistant from both with no third seed closer; every meshed cell is bounded by a closed sphere of faces (every edge in exactly two faces, Euler\'s relation); ghost seeds get no cell.',
  ['inputs'], 'every seed set with ghost seeds around the meshed ones, every initial sizing', E2E + 'they compare volumes and counts of a few models; welding and face extraction depend on coincidences of corners.',
  ['MeshingVoronoiMesher.cpp'], [('generate_3d_voronoi_mesh', 'MeshingVoronoiMesher.cpp')], ['MeshingVoronoiMesher::generate_3d_voronoi_mesh'])
P('C18', 'Region ids and cell faces of the explicit mesh follow the face graph', 'For every face graph returned by the Voronoi mesher, two seed regions get the same final region id exactly when they are linked by a chain of faces between interior (non-surface) seeds; the common id is the smallest of the class and a region linked to region 0 is not meshed; every meshed seed becomes one cell that is given exactly its own faces, and every face of a meshed cell becomes one connection between its cells.',
  ['inputs', 'histories'], 'every face graph and face order, every assignment of regions, every number of surface seeds', E2E + 'a region merge needed through a chain of three regions in an unlucky face order was lost by the code and no test noticed (repaired).',
  ['MeshingVoroCrust.cpp'], [('generate_explicit_mesh', 'MeshingVoroCrust.cpp')], ['mesh.vcg written by MeshingVoroCrust::generate_explicit_mesh'])
P('C19', 'The .vcg file describes the mesh faithfully', 'For every mesh (also one without cells) the file lists each meshed cell once, numbered consecutively in seed order, with its position, region and the sum of area * height / 3 over its faces, and each face of a listed cell once (faces between ghost seeds not at all) with its two cells (the cell itself twice at the domain boundary), the midpoint of the two seeds, its polygon area and the unit normal from the first to the second seed.',
  ['inputs'], 'every mesh, region assignment and face list', E2E + 'they compare total volumes only.',
  ['MeshingVoronoiMesher.cpp'], [('save_vcg_file_pflotran', 'MeshingVoronoiMesher.cpp')], ['MeshingVoronoiMesher::save_vcg_file_pflotran'])
P('C20', 'Welding a model merges exactly the coinciding points', 'For every surface mesh and welding distance, scanning the points in order, a point is merged into the nearest earlier retained point if it is closer than the welding distance, and is retained otherwise; retained points keep their coordinates and order, every face refers to the points its corners were merged into, and exactly the faces left with two equal consecutive corners are dropped.',
  ['inputs'], 'every point set, welding distance and face list', E2E + 'the test models have no points to weld, so an off-by-one remapping never shows.',
  ['MeshingPolyMesh.cpp'], [('weld_nearby_points', 'MeshingPolyMesh.cpp')], ['MeshingPolyMesh::weld_nearby_points'])
P('C21', 'Point-face and edge-face adjacency of a model is exact', 'For every triangle list, building a surface model drops exactly the points used by no face and keeps the others in order; every point lists exactly its faces, each once; an edge query returns exactly the faces having both end points as corners, each once, with their number; the model is called watertight exactly when no edge belongs to a single face.',
  ['inputs'], 'every triangle list (open, closed, non-manifold, with isolated points)', E2E + 'all test models are closed manifolds.',
  ['MeshingPolyMesh.cpp'], [('build_point_faces, remove_isolated_points, get_edge_faces, get_num_edge_faces, water_tight_model', 'MeshingPolyMesh.cpp')], ['MeshingPolyMesh'])
P('C22', 'Faces of a model are oriented consistently, whatever the input order', 'For every orientable surface given with arbitrarily flipped and ordered triangles, after processing any two faces sharing a manifold edge traverse it in opposite directions, each face keeps its corners, each face normal is the unit normal following the corner order, and a closed box ends up with outward normals; separate patches are all treated.',
  ['inputs', 'histories'], 'every pattern of flipped faces and every face order', E2E + 'the test models come consistently oriented; the code left some patches inconsistent (repaired).',
  ['MeshingPolyMesh.cpp'], [('impose_consistent_orientation, adjust_cad_orientation, build_face_normals', 'MeshingPolyMesh.cpp')], ['MeshingPolyMesh::_faces', 'MeshingPolyMesh::_face_normal'])
P('C23', 'Sharp edges and corners of a model are detected exactly', 'For every model and angle threshold, an edge is sharp exactly when it does not belong to two faces or the cosine between the normals of its two faces (reversed if both traverse it in the same direction) is below the threshold; a point is a sharp corner exactly when it ends one or more than two sharp edges, or two that bend by more than the threshold, or none while two faces meeting only at that point differ by more than the threshold; each is listed once, corners in ascending order.',
  ['inputs'], 'every model and threshold', E2E + 'they pass one threshold per model.',
  ['MeshingPolyMesh.cpp'], [('extract_model_sharp_features, sharp_edge, build_point_sharp_edges', 'MeshingPolyMesh.cpp')], ['MeshingPolyMesh::_sharp_edges', 'MeshingPolyMesh::_sharp_corners', 'MeshingPolyMesh::sharp_edge'])
P('C24', 'Seeds, spheres and point clouds survive their csv files', 'Point trees (coordinates, normals, attributes), sphere lists and seed lists written to csv files are read back with the same number of entries, the same values (to 12 decimals) and the same attributes, whatever their number; seed and sizing files typed by a user are read correctly with or without blanks around the commas, with blank lines anywhere and with or without a final newline.',
  ['inputs', 'histories'], 'every number of entries and every layout within the bounds', E2E + 'only one layout of each file occurs in the tests.',
  ['MeshingSmartTree.cpp', 'MeshingVoroCrust.cpp', 'MeshingVoronoiMesher.cpp'], [('save_tree_csv, load_tree_csv', 'MeshingSmartTree.cpp'), ('read_seeds_csv', 'MeshingVoroCrust.cpp'), ('save_spheres_csv, load_spheres_csv', 'MeshingVoronoiMesher.cpp')], ['the files and the values read'])
P('C25', 'Options and OBJ models reach the mesher as written', 'Whatever the order and selection of option lines (comments, blank and unknown lines included), the run is started once with exactly the given values and with the defaults for the others; OBJ models are read with their points and faces in order whatever the dialect (comments, normals, texture indices, blanks, line ends) and survive being written and read again; several models are combined with faces referring to their own points.',
  ['inputs'], 'every selection and order of options, every dialect within the bounds', E2E + 'each test uses one fixed option file.',
  ['MeshingVoroCrust.cpp', 'MeshingPolyMesh.cpp'], [('execute', 'MeshingVoroCrust.cpp'), ('read_input_obj_file, save_mesh_obj', 'MeshingPolyMesh.cpp')], ['arguments of MeshingVoroCrust::execute_vc / generate_mesh_from_seeds_file', 'MeshingPolyMesh::read_input_obj_file'])
P('C26', 'Surface seeds are exactly the uncovered triple points, in mutual pairs', 'For every set of surface, edge and corner spheres satisfying the Lipschitz bound, each three mutually overlapping spheres (at least one a surface sphere) whose two common points are outside all other spheres yield one upper and one lower seed at these points, the upper one on the side of the face normal, referring to each other and to their spheres, sized by the smallest of them, and there are no other seeds. When exactly one common point is covered, or two seeds nearly coincide, surface spheres shrink, all seeds are dropped and the shrink flag is set; no edge or corner sphere shrinks and no sphere grows or moves.',
  ['inputs'], 'every Lipschitz sphere set', E2E + 'a lost or displaced seed pair only deforms the surface for particular sphere arrangements; a third sphere ignored in the close-seed rule was found by this check (repaired).',
  ['MeshingVoroCrustSampler.cpp', 'MeshingSpheresMethods.cpp'], [('generate_surface_seeds', 'MeshingVoroCrustSampler.cpp'), ('get_power_vertex, resolve_sliver', 'MeshingSpheresMethods.cpp')], ['upper_seeds and lower_seeds of MeshingVoroCrustSampler::generate_surface_seeds'])
P('C27', 'Surface seeds get the same region exactly when they face the same volume', 'For every closed or wall-sharing triangulated surface represented by surface, edge and corner spheres, and any order, numbering and upper/lower assignment of the seed pairs, two seeds are coloured alike exactly when they lie on the same side of the same connected surface (also across sharp edges where several sheets meet); the seeds outside get region 0, the others 1..n; merging keeps every sphere and seed with its position, partner and sphere references.',
  ['inputs', 'histories'], 'every surface, every numbering of spheres and order of seeds', E2E + 'the models have at most two sheets per edge in one numbering; a wrong sector floods regions only at particular edges.',
  ['MeshingVoroCrustSampler.cpp', 'MeshingGeometricalMethods.cpp', 'MeshingSmartTree.cpp'], [('color_surface_seeds', 'MeshingVoroCrustSampler.cpp'), ('get_point_angle', 'MeshingGeometricalMethods.cpp')], ['spheres, seeds and num_subregions of MeshingVoroCrustSampler::color_surface_seeds'])
P('C28', 'Random draws stay in range for ever', 'Every uniform draw lies in [0,1) whatever the seed, the number of earlier draws and the refills of the table; samples drawn from a box or a triangle lie in it, a sample of a discrete distribution is a cell containing the drawn value, and a sampled direction is a finite unit vector.',
  ['histories', 'inputs'], 'every state of the generator, every box, triangle, distribution and draw', E2E + 'a draw that is out of range, or exactly 0 or 1, comes up once in many million draws; the direction drawn from a zero was not a number (repaired).',
  ['MeshingRandomSampler.cpp'], [('generate_uniform_random_number, sample_uniformly_from_*', 'MeshingRandomSampler.cpp')], ['MeshingRandomSampler::generate_uniform_random_number', 'MeshingRandomSampler::sample_uniformly_from_unit_sphere / _box / _simplex / _discrete_cdf'])
P('C29', 'Imposed seeds are kept exactly when they are inside the model and uncovered', 'For every set of imposed (monitoring) seeds, known seeds and Lipschitz protecting spheres, an imposed seed is added, with its own position and size and in the given order, exactly when the known seed closest to it belongs to a meshed region and it lies in no surface, edge or corner sphere; it gets the region of that closest seed; the known seeds stay as they were.',
  ['inputs'], 'every imposed seed, every layout and radii of the protecting spheres, every region pattern', E2E + 'one of them imposes seeds and only counts them; the count was updated by all threads at once (repaired).',
  ['MeshingVoronoiMesher.cpp'], [('impose_interior_seeds', 'MeshingVoronoiMesher.cpp')], ['MeshingVoronoiMesher::impose_interior_seeds'])
P('C30', 'Interior seeds are inside, uncovered, spaced, sized and in the right volume', 'For every sequence of random draws, each interior seed that is generated lies in no protecting sphere and in the sphere of no earlier seed, belongs to the (meshed) volume of the seed it is closest to, is no larger than the sizing function and the maximum allow, and no smaller than the Lipschitz bound with another seed requires; known seeds do not move, grow or change their volume; every seed of a meshed volume gets its turn at the front, and no coinciding seeds arise.',
  ['inputs', 'schedules', 'histories'], 'every outcome of the random draws, every protecting sphere, sizing and region pattern', E2E + 'they use one fixed random sequence; a model without any interior seed wrote past an empty list (repaired).',
  ['MeshingVoronoiMesher.cpp'], [('generate_interior_seeds', 'MeshingVoronoiMesher.cpp')], ['MeshingVoronoiMesher::generate_interior_seeds'])
P('C31', 'Sampling never loses an uncovered piece of an edge or face', 'For every set of protecting spheres, refining the active pool keeps, in order, exactly the two halves of every edge piece and the four quarters of every face piece that is not entirely inside a (shrunken) sphere, so the pieces and the covered parts always make up the whole input; every piece knows its parent and its share of the total length or area; a random draw yields a point of the piece whose share contains the draw.',
  ['inputs', 'histories'], 'every sphere set, every draw, every number of threads within the bounds', E2E + 'a lost piece leaves an uncovered spot that only shows as a rare defect of the surface mesh.',
  ['MeshingVoroCrustSampler.cpp'], [('initiate_active_pool, refine_active_pool, sample_active_faces_uniformly and their edge variants', 'MeshingVoroCrustSampler.cpp')], ['MeshingVoroCrustSampler::refine_active_pool', 'MeshingVoroCrustSampler::sample_active_faces_uniformly'])
P('C32', 'A new surface sphere respects features, sizes and its neighbours', 'For every sample of a face, the sample is dropped exactly when a protecting edge or corner sphere, the shrunken sphere of an older surface sphere or of a sample kept earlier in the same round contains it; otherwise its sphere is no larger than the maximum size, the sizing function and 0.4 times the distance to features it is not smooth with, does not reach the centre of an older sphere beyond the coverage ratio, satisfies the Lipschitz bound with older spheres it overlaps, and is not smaller than these limits require.',
  ['inputs', 'schedules'], 'every sample position, every older sphere, feature and size limit within the bounds', E2E + 'they use one random sequence; the search radius for older spheres was read before it was set (repaired).',
  ['MeshingVoroCrustSampler.cpp'], [('sample_active_pool', 'MeshingVoroCrustSampler.cpp')], ['MeshingVoroCrustSampler::sample_active_pool'])
P('C33', 'Only watertight surface meshes are accepted', 'For every set of triangles between surface, edge and corner spheres, the surface mesh is accepted (and saved, once) exactly when every triangle edge with a surface sphere at an end belongs to exactly two triangles; otherwise every surface sphere at a bad edge shrinks, and no other sphere changes.',
  ['inputs'], 'every triangle set, numbering and split into sphere kinds', E2E + 'a hole or a fin that slips through the check only turns up in a rare sphere arrangement.',
  ['MeshingVoroCrustSampler.cpp', 'MeshingPolyMesh.cpp'], [('validate_surface_mesh', 'MeshingVoroCrustSampler.cpp'), ('get_num_edge_faces', 'MeshingPolyMesh.cpp')], ['MeshingVoroCrustSampler::validate_surface_mesh'])
P('C34', 'Sharp edges end up covered by well-sized edge spheres', 'For every set of sharp edges, corner spheres, size limits and random draws, sampling ends with every point of every edge inside an edge sphere shrunk by the coverage ratio or inside a corner sphere; every edge sphere is centred on the edge it refers to, has a positive radius no larger than the maximum, the sizing function and 0.4 times its distance to any corner and to any feature point it is not smooth with, and any two satisfy the Lipschitz bound.',
  ['inputs', 'histories'], 'every position of the first draws, every limit and corner radius within the bounds', E2E + 'they use one random sequence; a gap in the coverage shows only as a later defect of the surface.',
  ['MeshingVoroCrustSampler.cpp', 'MeshingSpheresMethods.cpp'], [('generate_edge_spheres and its active pool', 'MeshingVoroCrustSampler.cpp'), ('edge_covered, point_covered, impose_lipschitz_continuity', 'MeshingSpheresMethods.cpp')], ['edge_spheres of MeshingVoroCrustSampler::generate_edge_spheres'])
P('C35', 'The interior sampling gets all results of the surface and loses no seed', 'For every set of surface seeds, spheres, sizing points and imposed points, every sampling step of the interior receives all seeds, radii, regions, spheres and limits unchanged and in order; the seeds returned and written are exactly those left by the last step, where an accepted imposed seed regains its size and generated seeds inside its sphere are removed; the closest-seed file names for every imposed point the nearest remaining seed, and monitoring points are distinct interior seeds.',
  ['inputs', 'histories'], 'every number and position of seeds, spheres and imposed points, every subset of accepted imposed points', E2E + 'they impose no points, so removal and the two extra files are never looked at; two defects were found and repaired.',
  ['MeshingVoroCrust.cpp'], [('generate_interior_seeds', 'MeshingVoroCrust.cpp')], ['output arrays of MeshingVoroCrust::generate_interior_seeds', 'seeds.csv', 'monitoring_points_closest_seeds.csv'])
P('C36', 'Corner spheres are as large as every size limit allows', 'For every set of sharp corners, sampled features, sizing function and limits there is one sphere for each distinct sharp corner, centred on it and referring to it, whose radius is the largest one that respects the maximum size, the sizing function, 0.4 times the distance to any feature point it is not smooth with and to any other corner, and the Lipschitz bound with the other corners.',
  ['inputs'], 'every position of a corner or feature, every maximum size and sizing value within the bounds', E2E + 'a limit applied to the wrong corner only changes sphere sizes locally.',
  ['MeshingVoroCrustSampler.cpp', 'MeshingSmartTree.cpp', 'MeshingSpheresMethods.cpp'], [('generate_corner_spheres', 'MeshingVoroCrustSampler.cpp'), ('kd_tree_get_closest_non_smooth_seed / _edge_seed', 'MeshingSmartTree.cpp'), ('impose_lipschitz_continuity_brute', 'MeshingSpheresMethods.cpp')], ['corner_spheres of MeshingVoroCrustSampler::generate_corner_spheres'])
P('C37', 'The sampler detects exactly the sharp features and samples on the model', 'For every consistently oriented model, the sampler takes as sharp exactly the edges that do not have two faces or whose faces enclose more than the threshold angle, and as sharp corners exactly the points at which one or more than two sharp edges end or two of them enclose a sharp angle, each once; every sampled point lies on the edge or face it refers to and carries its tangent or normal.',
  ['inputs'], 'every position of a vertex in six families of models, every order of faces, several thresholds', E2E + 'a feature missed at a rare configuration is rounded off silently.',
  ['MeshingVoroCrustSampler.cpp', 'MeshingPolyMesh.cpp'], [('detect_features_generate_point_clouds_clean', 'MeshingVoroCrustSampler.cpp'), ('build_point_faces, build_face_normals, get_edge_faces, get_num_edge_faces', 'MeshingPolyMesh.cpp')], ['sharp_edges, sharp_corners and the point clouds of MeshingVoroCrustSampler::detect_features_generate_point_clouds_clean'])
P('C38', 'Surface sampling stops only when every requirement holds at once', 'For every history of samples, refinements and rejections, sampling of the surface returns only when, since the last sphere shrank, every patch was covered until its pool was empty, the spheres were found Lipschitz, their seeds free of slivers, and the mesh of exactly these seeds watertight; each uncovered sample is stored once with its face and no other sphere appears.',
  ['histories'], 'every sequence of outcomes of the steps within the bounds, every moment of a new sample', E2E + 'a loop that stops one step early gives a valid surface for nearly every random sequence.',
  ['MeshingVoroCrustSampler.cpp'], [('generate_surface_spheres', 'MeshingVoroCrustSampler.cpp')], ['surface_spheres and seed trees of MeshingVoroCrustSampler::generate_surface_spheres'])
