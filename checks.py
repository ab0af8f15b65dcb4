ASSUME = [
 'Numeric inputs range over the stated integer grids; double arithmetic is interpreted over the exact reals (no rounding error), so a verdict covers every grid input up to rounding; every counterexample is re-run in IEEE double arithmetic against the real code before it is reported.',
 'Trusted: clang 18 front end and mem2reg, the instrumentation pass engine/sxpass.cpp, the runtime engine/sx_rt.cpp, z3, GMP.',
]
TREE = ['MeshingSmartTree.cpp', 'MeshingMemoryHandler.cpp', 'MeshingRandomSampler.cpp', 'MeshingGeometricalMethods.cpp', 'MeshingLinearSolver.cpp']
SPH = TREE + ['MeshingSpheresMethods.cpp']
VC = ['MeshingVoroCrust.cpp', 'MeshingVoroCrustSampler.cpp', 'MeshingPolyMesh.cpp', 'MeshingVoroSpokes.cpp', 'MeshingSpheresMethods.cpp']
VOR = TREE + ['MeshingVoronoiMesher.cpp', 'MeshingExodusIO.cpp']
POLY = SPH + ['MeshingPolyMesh.cpp']
SAMP = POLY + ['MeshingVoroCrustSampler.cpp', 'MeshingVoroSpokes.cpp']
PROPS = {
 'C01': dict(harnesses=[
   dict(src='tree_nn.cpp', name='nn1d', tus=TREE, defs=['-DDIM=1'], quick=['-DNP=4','-DG=8'], thorough=['-DNP=6','-DG=20'], bounds='1-D trees, 4 points (6 thorough) on an integer grid, sequential and balanced construction; queries by point, by index, with every exclusion set', cover=['found','none']),
   dict(src='tree_nn.cpp', name='nn2d', tus=TREE, defs=['-DDIM=2'], quick=['-DNP=2','-DG=6'], thorough=['-DNP=4','-DG=6'], bounds='2-D trees, 2 (4) points', cover=['found','none']),
 ]),
 'C02': dict(harnesses=[
   dict(src='tree_ns.cpp', name='ns1d', tus=TREE, defs=['-DDIM=1'], quick=['-DNP=3','-DG=8'], thorough=['-DNP=4','-DG=20'], bounds='1-D trees with 3 (4) points and normals', cover=['feature','normal','normals','edge','none']),
   dict(src='tree_ns.cpp', name='ns2d', tus=TREE, defs=['-DDIM=2'], quick=['-DNP=1','-DG=3'], thorough=['-DNP=2','-DG=3'], bounds='2-D trees with 1 (2) points, axis-aligned normals', cover=['feature','normal','normals','edge','none']),
 ]),
 'C03': dict(harnesses=[
   dict(src='tree_ball.cpp', name='ball1d', tus=TREE, defs=['-DDIM=1'], quick=['-DNP=4','-DG=8'], thorough=['-DNP=6','-DG=20'], bounds='1-D trees, 4 (6) points, radii 1..3', cover=['empty','some','all']),
   dict(src='tree_ball.cpp', name='ball2d', tus=TREE, defs=['-DDIM=2'], quick=['-DNP=2','-DG=4'], thorough=['-DNP=3','-DG=6'], bounds='2-D trees, 2 (3) points, radii 1..3', cover=['empty','some','all']),
 ]),
 'C04': dict(harnesses=[
   dict(src='tree_hist.cpp', name='hist1d', tus=TREE, defs=['-DDIM=1'], quick=['-DLEN=4','-DG=4'], thorough=['-DLEN=5','-DG=8'], bounds='every history of 4 (5) operations add / balance / re-enumerate / update / clear, 1-D', cover=['add','balance','renumber','update','clear']),
   dict(src='tree_hist.cpp', name='hist2d', tus=TREE, defs=['-DDIM=2'], quick=['-DLEN=3','-DG=2'], thorough=['-DLEN=4','-DG=2'], bounds='2-D', cover=['add','balance','renumber','update','clear']),
   dict(src='tree_grow.cpp', name='grow', tus=TREE, quick=[], thorough=['-DNC=205'], bounds='105 points (206 thorough): storage growth and automatic re-balancing with one symbolic point', cover=['done']),
 ]),
 'C05': dict(harnesses=[
   dict(src='memo.cpp', name='memo', tus=TREE, quick=['-DN=5'], thorough=['-DN=6'], bounds='sorting windows of 5..6 (7) entries; lists of up to 7 entries from capacity 1..3', cover=['sort','sortI','sortD','sort4','grow','list']),
 ]),
 'C06': dict(harnesses=[
   dict(src='graph.cpp', name='graph', tus=TREE, quick=['-DNE=2'], thorough=['-DNE=3'], bounds='hub with 8..20 neighbours plus 2 (3) arbitrary connections; tree storage growth in between', cover=['done']),
 ]),
 'C07': dict(harnesses=[
   dict(src='trim.cpp', name='trim1d', tus=TREE, defs=['-DDIM=1'], quick=['-DNP=3','-DG=3'], thorough=['-DNP=4','-DG=6'], bounds='1-D, 3 (4) seeds', cover=['trimmed','untrimmed']),
   dict(src='trim.cpp', name='trim2d', tus=TREE, defs=['-DDIM=2'], quick=['-DNP=2','-DG=2'], thorough=['-DNP=3','-DNOFF=4','-DNDIR=4'], bounds='2-D, 2 (3) seeds at lattice offsets, spoke origin any real point of the cell, 2 (4) spoke directions', cover=['trimmed','untrimmed']),
 ]),
 'C08': dict(harnesses=[
   dict(src='geom_proj.cpp', name='proj', tus=TREE, quick=['-DNLINE=8'], thorough=['-DNLINE=8'], bounds='segments / lines from a fixed family with an arbitrary real query point in [-4,4]^3; triangles from a fixed family with query points on 4 (8) lines, any real parameter in [-6,6]', cover=['segment','line','triangle']),
 ]),
 'C09': dict(harnesses=[
   dict(src='geom_meas.cpp', name='meas', tus=TREE + ['MeshingSpheresMethods.cpp'], quick=['-DG=3'], thorough=['-DG=6','-DNE2=4'], bounds='triangles with one symbolic corner (two real parameters for areas, one for normals), vectors of dimension 1..4 with arbitrary real entries in [-3,3]', cover=['area','normal','degenerate','normalized','distance','cosine','component']),
   dict(src='angle.cpp', name='angle', tus=TREE, quick=['-DRMAX=8'], thorough=['-DRMAX=1000'], bounds='two arbitrary points of the plane with coordinates in [-8,8] ([-1000,1000]), off a 1e-6 band around the axes and around parallelism', cover=['halves','parallel','turn']),
 ]),
 'C10': dict(harnesses=[
   dict(src='sph_cov.cpp', name='coverline', tus=SPH, defs=['-DLINE=1'], quick=['-DNS=2'], thorough=['-DNS=3'], bounds='up to 2 (3) spheres with collinear centres at arbitrary grid positions, radii 1..2, Lipschitz; points, edges, faces on the axis', cover=['covered','uncovered']),
   dict(src='sph_cov.cpp', name='cover3d', tus=SPH, defs=['-DLINE=0'], quick=['-DNS=3','-DFEW=1'], thorough=['-DNS=4'], bounds='3 families of 3 (4) sphere centres in space with arbitrary real radii in [0.5,8] satisfying the Lipschitz bound; points, edges, triangles from a fixed family', cover=['covered','uncovered']),
 ]),
 'C11': dict(harnesses=[
   dict(src='sph_lip.cpp', name='lip', tus=SPH, quick=['-DNS=3','-DWHO=2','-DG=4','-DRM=5'], thorough=['-DNS=3','-DWHO=2','-DG=12','-DRM=12'], bounds='up to 3 spheres with collinear centres, arbitrary grid positions and radii', cover=['shrunk','kept']),
   dict(src='vor_lip.cpp', name='seedchain', tus=VOR, defs=['-DCHAIN'], quick=['-DNS=5','-DRM=12'], thorough=['-DNS=6','-DRM=20','-DNB=2'], bounds='rows of 5 (6) seeds with equal gaps in any of several enumeration orders, two arbitrary sizes', cover=['shrunk','kept']),
   dict(src='sph_lip.cpp', name='chain', tus=SPH, defs=['-DCHAIN','-DWHO=2'], quick=['-DNS=5','-DRM=12'], thorough=['-DNS=6','-DRM=20','-DNB=2'], bounds='rows of 5 (6) spheres with equal gaps in any of several enumeration orders, two arbitrary radii', cover=['shrunk','kept']),
   dict(src='vor_lip.cpp', name='seedlip', tus=VOR, quick=['-DNS=3','-DG=5','-DRM=4'], thorough=['-DNS=4','-DG=8'], bounds='up to 3 (4) seeds of a line in general direction, arbitrary grid positions and sizes', cover=['shrunk','kept']),
 ]),
 'C12': dict(harnesses=[
   dict(src='sph_over.cpp', name='overlap', tus=SPH, quick=['-DNS=3','-DG=5'], thorough=['-DNS=3','-DG=8'], bounds='up to 3 spheres with collinear centres satisfying the Lipschitz bound, plus a query sphere of any size', cover=['none','all','some']),
 ]),
 'C13': dict(harnesses=[
   dict(src='power.cpp', name='power', tus=SPH, quick=['-DNCFG=3'], thorough=['-DNCFG=5'], bounds='2 (5) families of centres in the plane and in space, arbitrary real radii in [0,4], 2 positions of the random stream', cover=['pair','triplet','quad','dependent']),
 ]),
 'C14': dict(harnesses=[
   dict(src='sliver.cpp', name='sliver', tus=SPH, quick=['-DNS=4','-DMODES=2','-DNRAD=2'], thorough=['-DNS=5','-DMODES=3','-DNRAD=2'], bounds='3 families of 4 (5) mutually intersecting spheres at any scale in [0.5,4] with every pattern of fixed spheres; and any real radius in [1.25,3] of the only non-fixed sphere (thorough: of one sphere, none fixed)', cover=['none','sliver']),
 ]),
 'C15': dict(harnesses=[
   dict(src='vk_tree.cpp', name='line3d', tus=VOR, defs=['-DLINE=1'], quick=['-DNP=3','-DG=6'], thorough=['-DNP=5','-DG=8'], bounds='up to 3 (5) points of a line in general direction in space, integer positions; before and after re-enumeration; balls over 23 points (result growth)', cover=['many','found','none','ahead','self','ball','emptyball']),
   dict(src='vk_tree.cpp', name='plane', tus=VOR, defs=['-DLINE=0'], quick=['-DNP=2','-DG=4'], thorough=['-DNP=3','-DG=4'], bounds='up to 2 (3) points of the plane', cover=['found','none','ahead','self','ball','emptyball']),
 ]),
 'C16': dict(harnesses=[
   dict(src='vcell.cpp', name='cell', tus=VOR, quick=['-DNX=3','-DNA=6'], thorough=['-DNX=5','-DNA=6'], bounds='a seed enclosed by 6 others plus 1..3 (5) more, one of them anywhere on a line (29 grid positions); 6 families', cover=['one','more']),
 ]),
 'C17': dict(harnesses=[
   dict(src='vmesh.cpp', name='mesh', tus=VOR, quick=['-DNCELL=3','-DNCFG=6','-DNSIZ=2'], thorough=['-DNCELL=3','-DNCFG=6','-DNSIZ=3','-DTHO'], bounds='1..3 meshed cells in a shell of 6 ghost seeds, one seed at 21 positions of a line; 6 families, 2 (3) initial sizes', cover=['one','more']),
   dict(src='vmesh.cpp', name='lattice', tus=VOR, defs=['-DLAT','-DNCELL=1'], quick=['-DNCFG=4','-DNSIZ=1','-DLATH=2'], thorough=['-DNCFG=4','-DNSIZ=3','-DLATH=3'], bounds='co-spherical seeds: a 4x4x3 lattice with 4 meshed cells in 4 enumeration orders, one seed at 5 (7) positions through its lattice site', cover=['one']),
 ]),
 'C18': dict(harnesses=[
   dict(src='regions.cpp', name='regions', tus=VOR + VC, files=1, override=1, quick=['-DNS=5','-DNF=3','-DNSURF=3'], thorough=['-DNS=6','-DNF=4','-DNSURF=3'], bounds='5 (6) seeds, 4 assignments of regions, every face graph with 3 (4) faces', cover=['merged','kept']),
 ]),
 'C19': dict(harnesses=[
   dict(src='vcg.cpp', name='vcg', tus=VOR, files=1, quick=[], thorough=[], bounds='4 cells with every assignment of regions 0..2, 5 faces with 3..5 corners, one seed and one vertex coordinate arbitrary reals', cover=['ghost','all']),
 ]),
 'C20': dict(harnesses=[
   dict(src='weld.cpp', name='weld', tus=POLY, quick=['-DNP=4','-DG=3'], thorough=['-DNP=4','-DG=6'], bounds='4 points at arbitrary integer positions of a line in general direction (distances are multiples of 3), 4 welding distances including ones equal to a point distance, 5 faces', cover=['none','welded','collapsed']),
 ]),
 'C21': dict(harnesses=[
   dict(src='pm_adj.cpp', name='adjacency', tus=POLY, quick=['-DNF=3'], thorough=['-DNF=3','-DNP=6'], bounds='every list of 3 triangles over 5 (6) points, the first one fixed', cover=['open','isolated']),
 ]),
 'C22': dict(harnesses=[
   dict(src='pm_ori.cpp', name='orient', tus=POLY, quick=['-DNCFG=5'], thorough=['-DNCFG=5','-DNROT=3','-DNOFF=4','-DNFL=8'], bounds='tetrahedron, octahedron, two tetrahedra, open strip, box with one arbitrary real dimension; every pattern of flipped faces (first 6; 8 thorough), 2 (4) orders of the faces', cover=['flipped','kept']),
 ]),
 'C23': dict(harnesses=[
   dict(src='pm_sharp.cpp', name='sharp', tus=POLY, quick=['-DNCFG=8'], thorough=['-DNCFG=8','-DNTHR=4'], bounds='hinge, open pyramid, bent sheet boundary, three faces at an edge, one-sided band, octahedron, folded strip, eight-sided cone with 4 heights, the others with one arbitrary real coordinate; 2 (4) thresholds', cover=['sharp','smooth','kink','straight','cone']),
 ]),
 'C24': dict(harnesses=[
   dict(src='csv.cpp', name='csv', tus=VOR + VC, files=1, quick=['-DNP=3'], thorough=['-DNP=3'], bounds='trees and seed files of 1..3 entries (20..80 spheres / storage growth to 120), two arbitrary real entries, the other ones of full precision; with / without normals and attributes; blank lines at every position', cover=['tree','seeds','spheres','sizing']),
 ]),
 'C25': dict(harnesses=[
   dict(src='obj.cpp', name='obj', tus=VOR + VC, files=1, override=1, quick=[], thorough=['-DNROT=1'], bounds='models of 4, 5 or 11 points and 1..4 faces in 5 OBJ dialects with one arbitrary coordinate (multiple of 1/16 in [12,20]); every subset of 6 valued options, 8 combinations of switches, 3 orders; 1..3 models', cover=['model','options','combined','seeds']),
 ]),
 'C26': dict(harnesses=[
   dict(src='seeds.cpp', name='seeds', tus=SAMP, quick=['-DNFAM=4','-DNPAT=4','-DWHO=1'], thorough=['-DNFAM=5','-DNPAT=5','-DWHO=4'], bounds='4 or 5 spheres in 5 arrangements (square with symbolic radius, sliver above a triangle with symbolic scale in [1,4] and 5 radii, 5 coplanar spheres with symbolic radius, four spheres that nearly meet on one side, thorough: skew) in two planes, 4 (thorough 5) assignments of surface/edge/corner kinds, two patch orientations; outside: tangential contact bands of 1e-4', cover=['pairs','sliver','close']),
 ]),
 'C27': dict(harnesses=[
   dict(src='color.cpp', name='color', tus=SAMP, quick=['-DNM=6','-DNORD=2','-DNFLIP=2'], thorough=['-DNM=6','-DNORD=4','-DNFLIP=4'], bounds='6 triangulated solids (octahedron, lens with a sharp rim with and without corner sphere, two and three chambers sharing walls, two separate bodies) of 5-8 spheres and 6-12 triangles with a symbolic apex height, wall height or scale; 2 (thorough 4) orders of triangles, spheres and sphere references, 2 (4) patterns of upper/lower', cover=['two','three','four']),
 ]),
 'C28': dict(harnesses=[
   dict(src='rng.cpp', name='rng', tus=TREE, quick=['-DNB=4'], thorough=['-DNB=6'], bounds='one draw from every state of the generator (arbitrary zx, zy, both borrows, table position 0, 609 or 1218 with an arbitrary entry) and one refill of the table with 5 choices of arbitrary entries among the otherwise concrete initial table (a step keeps the invariant, so every history does); samplers fed with arbitrary draws: boxes of 3 dimensions, triangles, distributions of 4 (thorough 6) cells, directions in 2 and 3 dimensions (logarithm, sine and cosine abstracted to their sign and to the unit circle)', cover=['step','refill','box','simplex','cdf','nullcdf','sphere']),
 ]),
 'C29': dict(harnesses=[
   dict(src='impose.cpp', name='impose', tus=VOR, quick=['-DNX=1','-DNSP=2','-DNPAT=2'], thorough=['-DNX=2','-DNSP=2','-DNPAT=5'], bounds='4 known seeds in 2 (thorough 5) patterns of regions and ghosts and two memory orders, up to 2 (thorough 3) imposed seeds of which one (thorough two) at any multiple of 0.5 along the line of the seeds, up to 2 protecting spheres of each of the 3 kinds (radii any multiple of 0.5 satisfying the Lipschitz bound), on and off the line, imposed sizes arbitrary; with and without a sizing function', cover=['kept','covered','outside','tie']),
 ]),
 'C30': dict(harnesses=[
   dict(src='interior.cpp', name='interior', tus=VOR, override=1, quick=['-DND=2','-DNDIR=3'], thorough=['-DND=2','-DNDIR=4','-DNPAT=3'], bounds='3 or 4 known seeds in 2 (thorough 3) patterns of regions, two arbitrary darts (2 or 3, thorough 4 directions, distance any of 16 values) among the first or last darts of the first front seeds while every other dart misses, three protecting spheres of one kind, one of any radius, with and without a sizing function and a maximum size; the random generator is replaced by inputs', cover=['none','one','two']),
   dict(src='interior_many.cpp', name='many', tus=VOR, override=1, quick=[], thorough=[], bounds='50 or 51 seeds with 20 darts each, one of them arbitrary: more new seeds than the first buffer holds, in one round or over two', cover=['merged','twice']),
 ]),
 'C31': dict(harnesses=[
   dict(src='pool.cpp', name='pool', tus=SAMP, override=1, quick=['-DLEV=1','-DNT=2'], thorough=['-DLEV=2','-DNT=2'], bounds='2 or 3 edges or triangles, 1 (thorough 2) levels of refinement with 1 or 2 threads, up to 5 surface, edge and corner spheres with any radius (multiples of 0.25 satisfying the Lipschitz bound; corners of pieces exactly on a sphere excluded), one arbitrary draw', cover=['face','edge','covered','all covered']),
   dict(src='pool.cpp', name='levels', tus=SAMP, override=1, quick=['-DLEV=2','-DNT=1','-DNSPH=1','-DNEL=1'], thorough=[], tiers=('quick',), bounds='2 edges or triangles, 2 levels of refinement, 2 corner spheres of which one of any radius, one arbitrary draw', cover=['face','edge','covered']),
 ]),
 'C32': dict(harnesses=[
   dict(src='sample.cpp', name='sample', tus=SAMP, override=1, quick=['-DNT=2','-DNOLD=1'], thorough=['-DNT=2','-DNOLD=2'], bounds='one round of 1 or 2 samples (one at any multiple of 0.5 along a line of the face, the other at 2 positions), up to 1 (thorough 2) older spheres with any radius (multiples of 0.5 satisfying the Lipschitz bound), with and without edge features, sizing function, minimum and maximum radius, protecting edge and corner spheres; the random generator is replaced by inputs', cover=['covered','limited','free']),
   dict(src='sample.cpp', name='older', tus=SAMP, override=1, quick=['-DNT=1','-DNOLD=2'], thorough=[], tiers=('quick',), bounds='the same with one sample and up to 2 older spheres', cover=['covered','limited','free']),
 ]),
 'C33': dict(harnesses=[
   dict(src='validate.cpp', name='validate', tus=SAMP, override=1, quick=['-DNV=4','-DNF=4'], thorough=['-DNV=5','-DNF=4'], bounds='up to 4 triangles (also repeated ones) over 4 (thorough 5) spheres, 5 splits into surface, edge and corner spheres, arbitrary radii', cover=['accepted','boundary','rejected']),
 ]),
 'C34': dict(harnesses=[
   dict(src='edges.cpp', name='edges', tus=SAMP, override=1, quick=['-DND=1'], thorough=['-DND=2','-DFULL=1'], bounds='1 or 2 sharp edges (straight chain, right angle, unequal right angle), corner spheres at the ends, one of: 1 (thorough 2) first draws at any of 16 positions, any maximum size, any radius of one corner sphere (multiples of 0.25 and 0.5); the later draws walk over the pieces in a fixed order; with and without a sizing function; the covered spot is any real position on each edge', cover=['few','many']),
 ]),
 'C35': dict(harnesses=[
   dict(src='handover.cpp', name='handover', tus=VOR + VC + ['MeshingTimer.cpp'], override=1, files=1, quick=[], thorough=[], bounds='4 surface seeds, 0 to 2 spheres of each kind, 0 or 2 sizing points, one arbitrary coordinate, radius or sizing value; 0 to 2 imposed points, every subset accepted; 0 to 2 added seeds for sharp edges, 3 generated ones of which one anywhere (multiples of 0.25) on a line past the imposed spheres (exactly on a sphere excluded); sizes kept or halved by the sampling; two arbitrary draws', cover=['monitoring','plain','removed','kept']),
 ]),
 'C36': dict(harnesses=[
   dict(src='corners.cpp', name='corners', tus=SAMP, override=1, quick=['-DNC=3'], thorough=['-DNC=4'], bounds='1 to 3 (thorough 4) sharp corners out of 5 model points in two orders, 3 surface and 3 edge features, 0 or 2 sizing points; one of: a corner or a feature anywhere on a line, any maximum size, any sizing value (multiples of 0.5 and 0.125); corners closer than the tolerance or not', cover=['redundant','distinct']),
 ]),
 'C37': dict(harnesses=[
   dict(src='features.cpp', name='features', tus=SAMP, override=1, quick=['-DNCFG=7','-DLIM=3'], thorough=['-DNCFG=7','-DNTHR=4','-DLIM=6'], bounds='hinge, open pyramid, bent sheet boundary, three faces at an edge, octahedron, folded strip with one arbitrary real coordinate, three sheets along a line with 3 bends, all consistently oriented, 3 orders of faces; 2 (thorough 4) thresholds; on the octahedron with 3 heights the draws of the first sampled point are arbitrary (multiples of 1/16); the first 3 (thorough 6) sampled points of each cloud are checked', cover=['sharp','smooth','kink','straight']),
 ]),
 'C38': dict(harnesses=[
   dict(src='surfloop.cpp', name='surfloop', tus=SAMP, override=1, quick=['-DNR=2','-DNCALL=24'], thorough=['-DNR=4','-DNCALL=40'], bounds='every history of up to 2 (thorough 4) rejected rounds (Lipschitz, slivers, holes), 1 or 3 patches refined once or twice, 1 or 2 threads, an uncovered sample in every round, in the first one at any of 25 (thorough 41) moments, with two arbitrary radii; no minimum size given', cover=['again','at once']),
 ]),
}
