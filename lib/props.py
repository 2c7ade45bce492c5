"""One entry per property: text for properties.jsonl, and how run.py decides it. gen.py writes properties.jsonl and
MANIFEST.json from this table."""
API = 'libs/MeshKernelApi/src/MeshKernel.cpp'
TECH = 'stateless exhaustive exploration of the real library through its C API, compared with a reference model on every step'
PROPS = {
 'probe': dict(harness='probe', bound='-'),
 'survey': dict(harness='survey', variant='plain', bound='-'),
 'seq': dict(harness='seq', bound='-'),
 'survey2': dict(harness='survey2', variant='asan', bound='-'),
}

def prop(id, **k):
    k.setdefault('harness', id.lower())
    k['claimed'] = True
    PROPS[id] = k

prop('C01',
 title='Undo and redo restore exactly the state they lead to',
 statement='After any history of successful editing calls on the 2D mesh, the curvilinear grid, the 1D mesh or network and the contacts of a state, undoing the last undoable calls brings back exactly what could be observed before them, and redoing brings back exactly what could be observed after them. This includes node coordinates, edges, faces, circumcentre-independent cell data, deleted slots, grid dimensions, contacts and the projection, whether or not the mesh was read in between. Undo with nothing to undo and redo with nothing to redo report that nothing was done and change nothing.',
 over=['histories', 'inputs'], text='every bounded history of calls, undos and redos, with and without reading the state in between',
 why='Tests undo a few single calls and compare a few numbers; the guarantee quantifies over every order of calls, and most defects need two calls and an undo of the first.',
 files=[API, 'libs/MeshKernel/src/UndoActions/UndoActionStack.cpp', 'libs/MeshKernel/src/Mesh.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp'],
 mech=[('undo actions', 'libs/MeshKernel/src/UndoActions/'), ('commit and restore of actions', 'libs/MeshKernel/src/Mesh.cpp, libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp'), ('state level undo actions', 'libs/MeshKernelApi/include/MeshKernelApi/CurvilinearGridUndoAction.hpp and siblings')],
 bound=dict(quick='all ordered pairs of 74 calls with full undo/redo walks (observed and unobserved), all triples of the core calls, all interleavings of 8 calls, undo and redo to depth 4, all network histories to depth 5',
            thorough='as quick, in two projections; interleavings to depth 6; network histories to depth 6'),
 assumptions=['argument values are those of the alphabet in lib/ops.hpp', 'comparison is bit exact on what the API returns, ignoring trailing deleted slots'])

prop('C02',
 title='The undo history is a bounded last-in first-out list shared by all states',
 statement='For any interleaving of editing calls on several states with undo, redo, clearing, changing the maximum size, deallocation and removal of states, the numbers of undoable and redoable actions (in total and per state), the state that each undo or redo acts on, and the data it brings back follow the last-in first-out model. A new action discards the redoable actions of its own state only, the oldest actions are dropped once the maximum size is exceeded, a maximum of zero disables the history, and rejected calls leave no entry.',
 over=['histories'], text='every sequence of history operations on two states up to the depth bound',
 why='Tests check counts after a handful of fixed sequences on one state; eviction, interleaved states and size changes combine in ways only enumeration covers.',
 files=['libs/MeshKernel/src/UndoActions/UndoActionStack.cpp', API],
 mech=[('history container', 'libs/MeshKernel/src/UndoActions/UndoActionStack.cpp'), ('API entry points', API)],
 bound=dict(quick='all sequences of 16 operations to depth 4, of 7 to depth 6, of 5 to depth 8, on two states',
            thorough='depths 5, 8 and 10'),
 assumptions=['histories are made of 1D mesh replacements and 2D node moves; the content restored by other calls is C01'])

prop('C03',
 title='States are independent and their ids follow the allocation life cycle',
 statement='A call on one state has the same result and effect whatever other states exist and whatever was done to them, and it never changes another state. Allocation hands out an id that was not used before, an id is usable exactly until it is expunged or everything is cleared, deallocation empties the state but keeps the id, and each state keeps the projection it was allocated with until it is converted.',
 over=['histories', 'configurations'], text='every interleaving of calls on two states, and every order of life-cycle calls up to the depth bound',
 why='Tests work with one state at a time, so leaks between states through shared tables or caches are invisible to them.',
 files=[API, 'libs/MeshKernelApi/src/State.cpp'],
 mech=[('table of states', API), ('per-state members', 'libs/MeshKernelApi/include/MeshKernelApi/State.hpp')],
 bound=dict(quick='all ordered pairs of 74 calls on two states in 3 interleavings and 2 projections; all pairs of core calls followed by 5 events on one state; all life-cycle sequences of 8 operations to depth 5',
            thorough='life-cycle sequences to depth 7'),
 assumptions=['single threaded use'])

prop('C04', variant='asan',
 title='A call that cannot be carried out reports an error and changes nothing',
 statement='Every call on a state id that does not exist, on a state that lacks the mesh or grid it needs, or with arguments outside their documented domain returns a non-zero code with a message, never crashes, hangs or reads or writes out of bounds. Whenever a call returns an error, all states and the undo history are exactly as they were before the call.',
 over=['inputs', 'configurations', 'fault_sequences'], text='every API function crossed with every kind of state and every listed malformed argument',
 why='Tests try a few error paths of a few functions; the guarantee is about every function in every state, and about what is left behind after the failure.',
 files=[API, 'libs/MeshKernel/src/Mesh.cpp', 'libs/MeshKernel/include/MeshKernel/Exceptions.hpp'],
 mech=[('exception to exit code', API), ('argument checks', 'libs/MeshKernel/include/MeshKernel/Parameters.hpp, libs/MeshKernel/src/'), ('backup and restore on failure', 'libs/MeshKernel/src/CasulliRefinement.cpp and siblings')],
 bound=dict(quick='every API function on 5 kinds of unknown id and on 10 kinds of state; about 180 malformed calls on 10 kinds of state, under AddressSanitizer',
            thorough='malformed calls also in spherical coordinates'),
 assumptions=['null pointers and output buffers smaller than the documented size are outside the contract'])

prop('C05',
 title='Queries change nothing, and announced sizes equal what is delivered',
 statement='Calls that only read (meshes, grids, counts, polygons, interpolation, nearest locations, quality measures) leave every state and the undo history unchanged, and their answer depends only on the current content: not on which queries ran before, not on whether the mesh was read since the last edit, and not on whether the content was reached by editing or by undo and redo. Every call that announces a size is matched by the call that delivers the data: exactly that many entries are written, and the different ways of reading the same data agree.',
 over=['histories', 'inputs'], text='every ordered pair of queries on several states, and every query as the first or a later look after every bounded edit history',
 why='Tests read a mesh once after one edit; stale derived data only shows when a particular query is the first one after a particular edit, or follows a particular other query.',
 files=[API, 'libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/Mesh.cpp'],
 mech=[('administration on demand', 'libs/MeshKernel/src/Mesh2D.cpp'), ('dimension and data calls', API), ('tree refresh flags', 'libs/MeshKernel/src/Mesh.cpp')],
 bound=dict(quick='all ordered pairs of 51 queries on 7 states; every query after every single edit and every pair of core edits (every second query), unread and read; every query after undo and redo of every edit; size checks after each',
            thorough='every query after every pair of a core edit and any edit'),
 assumptions=['an unconnected node may disappear when the mesh is read (documented administration)'])

prop('C06',
 title='Every edit history leaves a consistent two-dimensional mesh',
 statement='Whatever sequence of mesh calls was made, the mesh read back is a consistent graph: every edge joins two different existing nodes and occurs once, every face is a closed cycle of existing edges listed counter-clockwise with the right edges and centre, every edge lists exactly the faces that contain it, and the announced counts of valid nodes and edges are right. When the drawing has no crossings, the faces are exactly the enclosed cells of up to six edges, and edge and face centres are where the node coordinates put them.',
 over=['histories'], text='every mesh produced by every pair of all mesh calls and every triple of the basic ones, in three coordinate systems, read after each call or only at the end',
 why='Each algorithm is tested alone on a fresh mesh; stale administration, duplicated edges and wrong adjacency appear when algorithms follow one another without a read in between.',
 files=['libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/Mesh.cpp', API],
 mech=[('administration', 'libs/MeshKernel/src/Mesh.cpp'), ('face search', 'libs/MeshKernel/src/Mesh2D.cpp'), ('editing algorithms', 'libs/MeshKernel/src/')],
 bound=dict(quick='all ordered pairs of 40 mesh calls on 4 base meshes (quadrilaterals, triangles, mixed with hexagon, skewed), with and without a read in between; all triples of 18 basic calls on 2 meshes; all pairs in both spherical projections (combinatorial part)',
            thorough='triples on all 4 base meshes'),
 assumptions=['inserting an edge between already connected nodes is the responsibility of the caller', 'the global algorithms are applied to drawings without crossings, with simple boundaries and cells of at most six edges'])

prop('C07',
 title='A mesh of any planar set of edges has exactly its enclosed cells as faces',
 statement='For every set of nodes and non-crossing edges given as a 2D mesh, in any numbering and edge orientation, the mesh read back has those nodes and edges unchanged, its faces are exactly the enclosed cells of up to six edges, and the hanging edges reported are exactly those ending in a node without other edges. The reported boundary polygons are closed and together run exactly once along every edge that belongs to one face, and the reported polygons of faces are those of the faces with the requested number of edges. A mesh that is read and set again reads the same.',
 over=['inputs'], text='every edge subset of small lattices with every choice of diagonals, in several numberings and coordinate systems',
 why='Tests read a few regular meshes; face search and boundary tracing depend on the numbering and on dangling, touching and missing edges, which only enumeration of all subgraphs covers.',
 files=['libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/Mesh.cpp', API],
 mech=[('face search', 'libs/MeshKernel/src/Mesh2D.cpp'), ('boundary tracing', 'libs/MeshKernel/src/Mesh2D.cpp'), ('hanging edges', 'libs/MeshKernel/src/Mesh2D.cpp'), ('face polygons', API)],
 bound=dict(quick='3x3 nodes: all 4096 edge subsets x all 81 diagonal choices, and a quarter of them renumbered; 2x5 nodes: all 8192 subsets x 3 diagonal patterns x 3 numberings, set again; 4096 subsets in both spherical projections',
            thorough='the 3x3 graphs in all 3 numberings'),
 assumptions=['nodes that no edge uses are not part of a mesh', 'edges do not cross and nodes do not lie on edges'])

prop('C08',
 title='Elementary mesh edits do exactly what they name and nothing else',
 statement='After any sequence of inserting and deleting nodes and edges (by index or by position), merging two nodes, moving a node, deleting hanging edges, translating and rotating, the 2D mesh has exactly the nodes, coordinates and edges that follow from those edits, with all other nodes and edges and their numbers untouched. Newly returned indices refer to the new node or edge and never to an existing one; deleting a node deletes its edges; merging redirects the edges of the first node to the second without duplicates; deleting an edge by position takes the edge with the closest midpoint in the given box; moving a node drags only nodes closer to it than the displacement, by a cosine fall-off.',
 over=['histories', 'inputs'], text='every pair of edits with every node, edge and pair of nodes as argument, and every longer sequence of representative edits, on three small meshes',
 why='Tests apply one edit to one mesh and compare counts; the effect on numbering, stale adjacency and stale search trees depends on what came before.',
 files=['libs/MeshKernel/src/Mesh.cpp', API, 'libs/MeshKernel/src/Mesh2D.cpp'],
 mech=[('node and edge edits', 'libs/MeshKernel/src/Mesh.cpp'), ('undo actions that carry out the edits', 'libs/MeshKernel/src/UndoActions/'), ('translation and rotation', 'libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp')],
 bound=dict(quick='all pairs of about 170 calls with every node/edge argument, all triples of about 55, all 4-sequences of 15, on 3 meshes, read after each call or only at the end; all pairs of combinatorial calls in spherical coordinates',
            thorough='sequences of 15 calls to depth 5'),
 assumptions=['inserting an edge between already connected nodes is the responsibility of the caller', 'positions equally far from two edges are not used'])

prop('C13',
 title='Closest-location queries find the closest location of the current content',
 statement='Asking for the node, edge or face closest to a point, for the node within a radius, or for its coordinates returns the location of the current 2D mesh or curvilinear grid whose position (node, edge midpoint, face centre) is closest to the point among those inside the given box, and nothing when none lies in the box or radius. This holds whatever was edited, undone or redone before and whichever queries with other boxes were made in between; deleted nodes, edges and faces are never returned.',
 over=['histories', 'inputs'], text='every pair of editing, undo and redo calls, with and without queries and reads in between, followed by a lattice of probe points, boxes and radii',
 why='The search trees are cached and refreshed by flags set in every editing routine; a missing refresh only shows for a particular edit after a particular query.',
 files=['libs/MeshKernel/src/Mesh.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp', 'libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp', API],
 mech=[('search tree', 'libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp'), ('refresh flags', 'libs/MeshKernel/src/Mesh.cpp, libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp')],
 bound=dict(quick='all pairs of 39 mesh calls, undo and redo, and all pairs of 25 grid calls, undo and redo, each with 25 points x 4 boxes x 3 radii per kind of location; single calls in both spherical projections',
            thorough='triples of grid calls'),
 assumptions=['the box of the radius search is only a hint (it is not used)', 'faces that are not rectangles are compared through bounds on their distance', 'compute_orthogonalization in accurate spherical coordinates is left out (unfinished in the library)'])

prop('C09',
 title='Refinement divides what is selected and keeps the rest and the covered area',
 statement='Refining a 2D mesh by a polygon, by samples, by gridded samples or by ridges in them keeps every existing node at its place and number, covers the same area, and gives a mesh without crossings or overlaps in which every new face is part of one old face, new nodes on old edges lie at halves (quarters, ...) and new inner nodes at face centres. Every selected face (for gridded depths: wave Courant number below one on all sides, for smoothing: also the neighbours, once per iteration) is divided with all sides halved, as often as requested, except, in quadrilaterals, sides whose halves would be below the minimum size; faces away from the selection are unchanged and with connection of hanging nodes requested none remains. Undoing and redoing give exactly the meshes before and after.',
 over=['inputs', 'configurations'], text='every lattice rectangle and many triangles as polygon, every subset of cells as samples, patterns of depths and ridges in gridded samples of every type, on several meshes with every combination of the options',
 why='Tests compare node counts for a few polygons and sample sets; conformity at the border of the selection depends on which neighbours are refined, which all subsets cover.',
 files=['libs/MeshKernel/src/MeshRefinement.cpp', 'libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp', 'libs/MeshKernel/src/SamplesHessianCalculator.cpp', API],
 mech=[('refinement masks', 'libs/MeshKernel/src/MeshRefinement.cpp'), ('splitting', 'libs/MeshKernel/src/MeshRefinement.cpp'), ('hanging nodes', 'libs/MeshKernel/src/MeshRefinement.cpp'), ('gridded samples', 'libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp'), ('ridges', 'libs/MeshKernel/src/SamplesHessianCalculator.cpp')],
 bound=dict(quick='5 meshes x all 225 rectangles of a lattice x all options (levels 1-2); a quarter of all lattice triangles; all 512 sample subsets of a 3x3 grid in 2 numberings x options; a ninth of 256 depth patterns x 5 meshes x options x value types x sample grids (levels 1-3); all 729 grids of 3 widths x 3 heights x 3 levels; all pairs of 20 cells x 3 smoothings; 35 ridges x 3 amplitudes x 3 smoothings x 4 mirror images x options; 225 rectangles x 12 places on the globe',
            thorough='levels 1-3, all lattice triangles, all depth patterns'),
 assumptions=['hanging nodes are connected in triangles and quadrilaterals only', 'a face is selected by a polygon when one of its nodes is surrounded by faces whose nodes are all inside (or joined by an edge to an inside node when intersected faces are requested)', 'exact selection by depths is judged for one level', 'ridges: strong and absent curvature, and mirror symmetry of line ridges'])

prop('C14',
 title='Points and nodes are selected exactly when they lie inside the polygons',
 statement='Selecting points by a polygon set, and counting or listing the mesh nodes inside or outside it, gives exactly the points that lie inside (or on the border of) at least one of the polygons and not in a hole of that polygon. The answer does not depend on orientation, starting point or order of the rings, nor on the projection for small regions away from the poles; the lists inside and outside together contain every node once.',
 over=['inputs'], text='every simple quadrilateral and pentagon on a lattice and every combination of rings, holes, order, orientation and starting point, against a lattice of points',
 why='Tests use a few convex polygons; the crossing rule fails for particular positions of the point with respect to corners, holes and later polygons.',
 files=['libs/MeshKernel/src/Polygons.cpp', 'libs/MeshKernel/src/PolygonalEnclosure.cpp', 'libs/MeshKernel/src/Polygon.cpp', 'libs/MeshKernel/src/Operations.cpp', API],
 mech=[('point in ring', 'libs/MeshKernel/src/Polygon.cpp'), ('outer rings and holes', 'libs/MeshKernel/src/PolygonalEnclosure.cpp'), ('several polygons', 'libs/MeshKernel/src/Polygons.cpp'), ('node masks', 'libs/MeshKernel/src/Mesh2D.cpp')],
 bound=dict(quick='all simple quadrilaterals on a 4x4 lattice, all simple pentagons on a 3x3 lattice, all of 3 outer rings x 8 hole sets x up to two further polygons x order x orientation x start x projection; up to 169 points each',
            thorough='pentagons on a 4x4 lattice'),
 assumptions=['points within a small distance of a ring of a set with holes are not judged', 'rings are simple and closed'])

prop('C11',
 title='Deleting by polygon removes exactly the selected faces and nothing else',
 statement='Deleting a 2D mesh by polygons removes an edge exactly when all its faces are selected: faces inside and not intersected, inside or intersected, or with their circumcentre inside, as requested, or the opposite selection when inverted (an edge without faces is selected by its own nodes or middle). Nodes go exactly when no edge is left at them; all other nodes, edges and faces stay as they are, with their numbers. Holes, several polygons, orientation and earlier edits are respected, and undoing brings everything back.',
 over=['inputs', 'histories'], text='every lattice rectangle, triangle, hole and pair of polygons, for all options, on five meshes and after several earlier edits',
 why='Tests delete with a few polygons; which edges and nodes are removed depends on the combination of inside nodes and crossed faces on both sides of each edge.',
 files=['libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/Mesh2DIntersections.cpp', 'libs/MeshKernel/src/Polygons.cpp', API],
 mech=[('selection of faces and deletion', 'libs/MeshKernel/src/Mesh2D.cpp'), ('crossed faces', 'libs/MeshKernel/src/Mesh2DIntersections.cpp')],
 bound=dict(quick='5 meshes x all 225 lattice rectangles x 3 options x inversion x 5 earlier edits; a third of all lattice triangles; all rectangular holes; pairs of quadrilaterals',
            thorough='all lattice triangles'),
 assumptions=['polygons through nodes and rings inside a single face are not judged', 'circumcentres are judged for rectangles and acute triangles', 'a hole left by deleted faces that has at most six edges counts as a face again'])

prop('C12',
 title='Merging by distance joins exactly the nodes that are close',
 statement='Merging the nodes of a 2D mesh within a distance (given, or a tenth of the shortest edge) leaves no two nodes in the polygon closer than that distance and merges no others: each group of close nodes becomes one of its nodes, at its place, with all edges of the group; edges inside the group disappear and double edges become one. Nodes outside the polygon, and edges and nodes not involved, keep place and number; undo and redo reproduce both meshes.',
 over=['inputs', 'histories'], text='every combination of displacements of the nodes along a seam, around a corner, of contracted edges and of the sizes of two stars, in all projections, with polygons and after earlier edits',
 why='Tests merge one or two pairs; groups of three or more nodes, shared neighbours and polygons through a group give other paths.',
 files=['libs/MeshKernel/src/Mesh.cpp', 'libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp', API],
 mech=[('merging', 'libs/MeshKernel/src/Mesh.cpp'), ('search by distance', 'libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp')],
 bound=dict(quick='625 seam displacements x 2 shapes x 3 polygons x 3 distances x 3 projections (4 earlier edits for one distance); 1296 corner displacements; 256 sets of contracted edges; stars of 3-14 and 3-14 edges; 12 ratios x 8 directions',
            thorough='all seams with all earlier edits'),
 assumptions=['distances within 0.0001 % (1 % in spherical coordinates) of the limit are not judged', 'in a chain of nodes of which the ends are further apart than the distance any merged subset is accepted that leaves no two close nodes'])

prop('C21',
 title='Grid refinement adds and removes exactly the lines asked for',
 statement='Refining a curvilinear grid between two nodes of a line adds exactly the requested number of lines between each pair of neighbouring lines there, evenly dividing the cells in between, and keeps all existing nodes; refining the whole grid does so with the given factors in both directions. Derefining removes exactly the lines in between (all but every n-th), so derefining a refined grid gives back the original; cells left out of the grid stay left out. Undoing and redoing give exactly the grids before and after.',
 over=['inputs'], text='every pair of nodes on every line of five grids with every factor, in three projections',
 why='Tests refine one block of one grid; off-by-one errors show at the first or last line, with holes or with particular factors only.',
 files=['libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFullRefinement.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp', API],
 mech=[('refinement between two lines', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRefinement.cpp'), ('refinement of the whole grid', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFullRefinement.cpp'), ('derefinement', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeRefinement.cpp')],
 bound=dict(quick='5 grids (rectangular, stretched, skewed, curved, with holes) x 3 projections x all lines x all pairs of nodes x factors 1-4; full factors 1-4 x 1-4; derefinement for all pairs, of the original and of the refined grid',
            thorough='factors up to 6'),
 assumptions=['new nodes in curved grids lie on the splines through the lines: position judged loosely there, exactly in grids with straight lines'])

prop('C22',
 title='Curvilinear grid edits change only the chosen node, line or block',
 statement='Deleting, moving, smoothing, orthogonalizing, mirroring, attracting or shifting lines and inserting faces in a curvilinear grid changes exactly the chosen node, line or block and leaves every other node in place; deleting also removes nodes that are no longer part of a complete cell. Smoothing moves a node half way to the mean of its neighbours per iteration, keeps corners fixed and boundary nodes on the boundary; a mirrored line and an inserted cell lie at the mirrored position. Undoing and redoing give exactly the grids before and after.',
 over=['inputs', 'histories'], text='every node, line, block, edge and factor on six grids',
 why='Tests apply each edit once in the middle of one grid; index errors show at particular lines, at the outline, or for blocks given by other corners.',
 files=['libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineAttractionRepulsion.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp', API],
 mech=[('node edits and faces', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp'), ('smoothing', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp'), ('line shift', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp'), ('mirroring', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp'), ('attraction', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineAttractionRepulsion.cpp'), ('orthogonalization', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp')],
 bound=dict(quick='6 grids; every node, every pair of nodes on every line, every block by its two corners, every boundary edge; 1-3 smoothing iterations; two attraction factors; a frozen line in both directions',
            thorough='further factors and all combinations of two blocks'),
 assumptions=['attraction, line shift and orthogonalization on grids without left-out cells', 'which sign of the factor attracts depends on the direction of the line (fixed by the existing tests)', 'nodes of a frozen line on the outline may slide along it (fixed by the existing tests)'])
prop('C23',
 title='Grids are generated as requested and convert to and from meshes unchanged',
 statement='A generated rectangular, circular or graded grid (or mesh) has exactly the requested numbers of rows and columns, origin, angle and cell sizes; on an extent it just covers the extent, and in a polygon it consists of all cells of the rotated lattice that have their corners inside. Converting a grid to a mesh gives exactly its nodes, edges and cells next to the mesh that was there; converting a mesh to a grid gives the part connected to the chosen face through quadrilaterals. The outline of any block of a grid consists of exactly the edges with a cell on one side, in closed rings, and undoing gives back what was there.',
 over=['inputs'], text='every combination of small numbers of rows and columns, sizes, origins, angles, extents, polygons, deleted nodes, blocks, starting faces and numberings',
 why='Tests generate a few grids; rounding of the numbers of rows, the poles, holes, touching rings and renumbered meshes take other branches.',
 files=['libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridGenerateCircularGrid.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp', 'libs/MeshKernel/src/Mesh2DToCurvilinear.cpp', 'libs/MeshKernelApi/src/CurvilinearGrid.cpp', API],
 mech=[('rectangular grids', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridRectangular.cpp'), ('circular and graded grids', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridGenerateCircularGrid.cpp'), ('mesh to grid', 'libs/MeshKernel/src/Mesh2DToCurvilinear.cpp'), ('grid to mesh, outlines', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp')],
 bound=dict(quick='rows and columns 1-4, 9 origins, 9 sizes, 7 angles, 36 extents; 7 polygons x 4 sizes x 6 angles; circular: rows and columns 1-7, 3 radii, 4 x 4 fractions; grid to mesh: 5 grids and all 64 patterns of deleted inner nodes, 3 projections; all blocks of 192 grids; mesh to grid: all 4096 patterns of split cells x all starting faces, 5 grids x 8 patterns x 3 numberings x 3 projections; 7 irregular meshes (stars of 3-6 sectors, rings) x all patterns of split cells x all starts',
            thorough='as quick'),
 assumptions=['how far the rows of a graded grid grow is fixed by the existing tests and not judged', 'in spherical coordinates latitudes follow the documented proportional spacing'])
prop('C18',
 title='Interpolation combines exactly the samples that belong to each location',
 statement='Averaging gives at each node, edge or face the mean, closest, largest, smallest, inverse-distance weighted or smallest absolute value of exactly the samples inside its search cell (for edges the mean of the two nodes), and no value when there are none or fewer than the minimum number; samples without a value are ignored. Triangulation gives the linear interpolation in the Delaunay triangle of the samples around the location, so it reproduces linear fields, and no value outside the samples. The order of the samples and deleted nodes elsewhere do not matter.',
 over=['inputs'], text='every subset of eight samples (averaging) and of nine samples (triangulation) on four meshes, for all methods and locations, in two projections',
 why='Tests interpolate a few fixed sample sets; the search cell, the walk through the triangles and empty or nearly empty cells depend on where each sample lies.',
 files=['libs/MeshKernel/src/AveragingInterpolation.cpp', 'libs/MeshKernel/src/TriangulationInterpolation.cpp', 'libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp', 'libs/MeshKernel/src/AveragingStrategies/SimpleAveragingStrategy.cpp', 'libs/MeshKernel/src/AveragingStrategies/MinAbsAveragingStrategy.cpp', 'libs/MeshKernel/src/AveragingStrategies/ClosestAveragingStrategy.cpp', 'libs/MeshKernel/src/Mesh2D.cpp', API],
 mech=[('search cells and averaging', 'libs/MeshKernel/src/AveragingInterpolation.cpp'), ('dual cells', 'libs/MeshKernel/src/Mesh2D.cpp'), ('triangulation', 'libs/MeshKernel/src/TriangulationInterpolation.cpp')],
 bound=dict(quick='255 sample sets x 6 methods x minimum 1-3 x 2 search sizes x 3 locations x 4 meshes (every fifth set in spherical coordinates); 466 sample sets x 3 orders x general and linear values x 3 locations x 4 meshes x 2 projections',
            thorough='4095 and 4017 sample sets'),
 assumptions=['samples on the border of a search cell and locations on the edge of a triangle are not judged', 'with a search size other than one, samples between the cell enlarged once and twice may or may not count', 'spherical coordinates with 0.2 % tolerance'])
prop('C19',
 title='Contacts connect exactly the 1D nodes and 2D faces the method prescribes',
 statement='Single contacts join each selected node to the face containing it, or to the first boundary face on either side of the line unless that contact would cross the line or an earlier contact; multiple contacts give every face the line passes through the closer end of the passing edge; polygon, point and boundary contacts take respectively the closest node-face pair per polygon, the face around each point with its closest node, and every boundary face within reach with its closest node. Nodes that the mask excludes and places outside the polygons never get a contact, and every contact refers to an existing node and face. Computing the same contacts again gives the same result.',
 over=['inputs'], text='all 243 placements of a five-node line in three shapes against four meshes (triangles, an opening, a deleted face), with six masks and three polygon sets, for the five methods',
 why='Tests compute contacts for a handful of lines that mostly lie inside one rectangular mesh with every node selected.',
 files=['libs/MeshKernel/src/Contacts.cpp', 'libs/MeshKernel/src/Mesh1D.cpp', 'libs/MeshKernel/src/Mesh2D.cpp', API],
 mech=[('computation of the contacts', 'libs/MeshKernel/src/Contacts.cpp'), ('point in face and boundary crossing', 'libs/MeshKernel/src/Mesh2D.cpp'), ('projection of 1D nodes', 'libs/MeshKernel/src/Mesh1D.cpp')],
 bound=dict(quick='243 lines (81 for boundary contacts) x 3 shapes x 4 meshes x 6 masks x 3 polygon sets x 2 options, 2 projections where distances decide; two of three lines only with 2 masks and 2 shapes',
            thorough='all lines with all masks and shapes'),
 assumptions=['equal distances and points exactly on an edge or polygon border are not judged', 'branching nodes outside the mesh are not judged for single contacts (which two of their edges give the direction is not prescribed)', 'multiple contacts: a face further from the first node than its longest edge may or may not be connected'])
prop('C20',
 title='A 1D network becomes the 1D mesh that its chainages prescribe',
 statement='Every polyline of a network becomes a chain of nodes on that line from its start to its end: at every fixed point a node on either side at the given offset, with one node in the middle where these overlap, and in between an equal division in parts no longer than the given interval; computing chainages in any order and any number of times never loses the ends or moves a node off the line. Nodes closer than the minimum face size are merged so that lines meeting in a point are connected, and nothing else is connected. Converting adds to the existing 1D mesh without changing it, and can be undone and redone exactly.',
 over=['histories', 'inputs'], text='all ordered choices of one to three of six polylines, followed by every sequence of up to three chainage computations from four intervals and four sets of fixed points, for three minimum sizes and with or without an existing mesh, in two projections',
 why='Tests discretize one or two straight lines with one order of calls; lines with short segments, more than two lines and other orders are not covered.',
 files=['libs/MeshKernel/src/Network1D.cpp', 'libs/MeshKernel/src/Mesh1D.cpp', 'libs/MeshKernel/src/Operations.cpp', 'libs/MeshKernel/src/Mesh.cpp', API],
 mech=[('chainages', 'libs/MeshKernel/src/Network1D.cpp'), ('points on a polyline', 'libs/MeshKernel/src/Operations.cpp'), ('edges and merging', 'libs/MeshKernel/src/Mesh1D.cpp')],
 bound=dict(quick='156 ordered choices of lines x up to 585 call sequences (two calls with three lines) x 3 minimum sizes x 3 existing meshes x 2 projections', thorough='516 ordered choices of up to four lines, all call sequences of length three everywhere'),
 assumptions=['fixed points are given in increasing order with a positive offset', 'where close nodes form a chain of which the ends are not close, which of them are merged is not judged'])
prop('C24',
 title='Intersecting a mesh with polygons reports every crossed edge and face',
 statement='Every edge of a face that the outline of the polygons crosses is reported exactly once, in the order along the outline, with a segment and the fractions along that segment and along the edge at which they really cross, and with its two nodes ordered so that the first lies to the right of the outline; edges that are not crossed are never reported. Every face with a crossed edge is reported exactly once, with exactly its crossed edges. This holds for any number of segments, for holes and several polygons, and for meshes with openings or deleted parts.',
 over=['inputs'], text='all ordered triangles on 16 points and quadrilaterals on nine, combs of up to 17 segments with every start and direction, and pairs of polygons with and without holes, against six meshes in two projections',
 why='Tests intersect a handful of polygons; the search from edge to edge along the outline depends on how the outline enters, leaves and re-enters the mesh.',
 files=['libs/MeshKernel/src/Mesh2DIntersections.cpp', 'libs/MeshKernel/include/MeshKernel/Mesh2DIntersections.hpp', 'libs/MeshKernel/src/Operations.cpp', API],
 mech=[('search along the outline', 'libs/MeshKernel/src/Mesh2DIntersections.cpp'), ('crossing of segments', 'libs/MeshKernel/src/Operations.cpp')],
 bound=dict(quick='3360 triangles + 3024 quadrilaterals + 264 combs + 432 pairs x 6 meshes x 2 projections', thorough='24024 quadrilaterals'),
 assumptions=['outlines in general position (not through a node)', 'edges without faces are not judged', 'the order of the edges within a face is not judged'])
prop('C16',
 title='Rotating, moving and converting a mesh maps every node exactly',
 statement='Rotating, translating and converting between Cartesian and spherical coordinates in a UTM zone put every node where the composition of these mappings says, in any order and number, with the same edges and faces and with deleted nodes left out; converting to the present projection changes nothing. Centres, searches and the reported projection follow the mesh at once, and undoing returns exactly step by step. Rotating or translating spherical meshes and conversions that do not exist are refused without any change.',
 over=['histories'], text='every sequence of up to three operations out of twelve (rotations, translations, conversions in two zones, undo) on four meshes at two latitudes starting in either projection',
 why='Tests apply one transformation to one mesh and compare some nodes; stale searches and centres after conversion and the order of operations are not covered.',
 files=['libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp', 'libs/MeshKernel/include/MeshKernel/MeshConversion.hpp', 'libs/MeshKernel/include/MeshKernel/ProjectionConversions.hpp', 'libs/MeshKernel/src/UndoActions/MeshConversionAction.cpp', 'libs/MeshKernel/src/Mesh.cpp', API],
 mech=[('rotation and translation', 'libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp'), ('conversion', 'libs/MeshKernel/include/MeshKernel/MeshConversion.hpp'), ('search trees', 'libs/MeshKernel/src/Mesh.cpp')],
 bound=dict(quick='12^3 sequences x 4 meshes x 2 places x 2 projections', thorough='12^4 sequences'),
 assumptions=['conversion is compared with an independent Krueger series within 1 cm', 'meshes within 8 degrees of the central meridian'])
prop('C15',
 title='Polygon refinement, offset and snapping do exactly what they name',
 statement='Refining divides every side in the given interval in as many equal parts as best fit the target length and keeps all corners and everything outside the interval; graded refinement only redistributes nodes along the outline between the two given nodes; both accept intervals that pass the start of the polygon. An offset polygon has every side parallel to the old one at exactly the given distance on the proper side, per polygon and hole, and remains closed. Snapping moves exactly the nodes of the interval to the closest point of the land boundary and the polygon remains closed.',
 over=['inputs'], text='five outlines with every start node, direction and interval, alone, before or after another polygon or with a hole, with four lengths, distances or land boundaries each, in two projections',
 why='Tests refine or offset one or two polygons with one interval; intervals over the start, other orientations, several polygons and holes are not covered.',
 files=['libs/MeshKernel/src/Polygon.cpp', 'libs/MeshKernel/src/Polygons.cpp', 'libs/MeshKernel/src/PolygonalEnclosure.cpp', 'libs/MeshKernel/src/LandBoundary.cpp', API],
 mech=[('refinement and offset', 'libs/MeshKernel/src/Polygon.cpp'), ('several polygons', 'libs/MeshKernel/src/Polygons.cpp'), ('closest point of the land', 'libs/MeshKernel/src/LandBoundary.cpp')],
 bound=dict(quick='5 outlines x all starts x 2 directions x all intervals x 4 positions among other polygons (6 for offsets, up to two holes) x 4 parameters x 2 projections', thorough='the same'),
 assumptions=['spherical coordinates at small scale with 0.2 % tolerance', 'the exact spacing of graded refinement is only bounded by the lengths of the outline', 'ties between two numbers of parts or two closest points are not judged'])
prop('C10',
 title='Casulli refinement and de-refinement give the prescribed conforming mesh',
 statement='Casulli refinement replaces every selected node by one node per adjoining cell, halfway between the node and the circumcentre of the cell, and two nodes at a quarter and three quarters of every outline edge, keeps corners and unselected nodes, and joins them to exactly one cell per old cell, inner edge and inner node. De-refinement and refinement both leave a conforming mesh that covers the same area and can be undone exactly; with a polygon only nodes inside it are replaced. De-refinement turns each of the announced cells, no two of which touch, into one node at its middle and keeps all other inner nodes; asking which cells it would remove changes nothing.',
 over=['inputs', 'histories'], text='every lattice rectangle and many triangles as polygon, or the whole mesh, on six meshes with and without an earlier edit, once and twice, in two projections',
 why='Tests refine two regular meshes and compare node lists; partial selections of triangles, mixed and irregular cells, openings and repeated refinement are not covered.',
 files=['libs/MeshKernel/src/CasulliRefinement.cpp', 'libs/MeshKernel/src/CasulliDeRefinement.cpp', API],
 mech=[('refinement', 'libs/MeshKernel/src/CasulliRefinement.cpp'), ('de-refinement', 'libs/MeshKernel/src/CasulliDeRefinement.cpp')],
 bound=dict(quick='6 meshes (10 for de-refinement) x (whole, 225 rectangles, a quarter of the lattice triangles) x refine / refine twice / de-refine x 3 earlier edits x 2 projections', thorough='all triangles for all edits and projections'),
 oracle='an independent construction of the refined mesh (nodes and edges compared as sets of positions), planarity, covered area, exact undo',
 assumptions=['cells contain their circumcentres', 'corners are nodes in one cell only: the library rounds off concave and obtuse corners shared by several cells, so that the area is not compared there', 'de-refinement is judged on meshes of quadrilaterals: planarity, area, places of the nodes, the cells announced, undo'])
prop('C25',
 title='Splitting rows, removing regions and connecting meshes are exact',
 statement='Splitting from an edge halves every quadrilateral of its row in both directions up to the outline, the next other cell (before which the last quadrilateral becomes three triangles) or around a closed ring, and changes nothing else. Removing disconnected regions keeps exactly the region with the most cells, cells being connected through edges only. Connecting a mesh joins it along all close parallel outline edges into one conforming mesh of the combined area in which every old node is kept or merged with its counterpart; all three can be undone exactly.',
 over=['inputs', 'histories'], text='every edge of every pattern of divided cells of a grid and of a ring (and a second split); every subset of the cells of two lattices, in several numberings and after an unread deletion; every placement and ratio of two grids on four sides with three gaps',
 why='Tests split two rows, remove one region and connect a few grids; other patterns, closed rings, touching regions, orientations and numberings are not covered.',
 files=['libs/MeshKernel/src/SplitRowColumnOfMesh.cpp', 'libs/MeshKernel/src/RemoveDisconnectedRegions.cpp', 'libs/MeshKernel/src/ConnectMeshes.cpp', API],
 mech=[('row splitting', 'libs/MeshKernel/src/SplitRowColumnOfMesh.cpp'), ('regions', 'libs/MeshKernel/src/RemoveDisconnectedRegions.cpp'), ('connection', 'libs/MeshKernel/src/ConnectMeshes.cpp')],
 bound=dict(quick='512 + 64 patterns x all edges x 2 orders x 2 numberings x 2 projections, second splits for a quarter; 4096 + 1024 cell sets x 3 numberings x 2 projections x 2 edits (a fifth beyond the first); 4 sides x 1-4 cells x ratios 1-5 x 3 overlaps x 3 gaps x 2 orders x 2 fractions x 2 numberings', thorough='without the strides'),
 oracle='independent construction of the split mesh (edges compared as positions), union-find over shared edges, area and outline length of the union',
 assumptions=['rows that pass the same cell twice are not judged', 'ties between equally large regions may go either way', 'edges without cells are not judged when regions are removed'])
prop('C17',
 title='Orthogonalization, edge flipping and snapping keep the mesh and its outline',
 statement='Orthogonalization moves nodes only: edges are unchanged, nodes outside the selection and corners with a single quadrilateral stay exactly where they were, other nodes of the outline stay on the outline, cells do not overlap, a regular grid does not change, the result is carried along by a translation, and the step-by-step calls give exactly the one-shot result. Flipping edges keeps nodes, outline and area, ends in non-overlapping triangles when asked to triangulate, and leaves no single flip away from corners that would bring the numbers of edges per node closer to six (four on the outline). Snapping to a land boundary keeps the edges, puts every node of a side close to the land on its closest point, puts moved nodes on the land, and leaves a mesh alone that is far from land; each can be undone exactly.',
 over=['inputs', 'histories'], text='every displacement pattern of inner and outline nodes, cell shape, diagonal, weight, projection option and selection of small meshes; every choice of diagonals of a grid (including undivided cells); every land boundary with three vertices at six heights along four sides',
 why='Tests orthogonalize a few stored meshes and compare stored coordinates; displaced outline nodes, partial selections, mixed cells, other numberings and the balance after flipping are not covered.',
 files=['libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp', 'libs/MeshKernel/src/Orthogonalizer.cpp', 'libs/MeshKernel/src/Smoother.cpp', 'libs/MeshKernel/src/FlipEdges.cpp', 'libs/MeshKernel/src/LandBoundaries.cpp', API],
 mech=[('orthogonalization and smoothing', 'libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp'), ('edge flipping', 'libs/MeshKernel/src/FlipEdges.cpp'), ('land boundaries', 'libs/MeshKernel/src/LandBoundaries.cpp')],
 bound=dict(quick='2 shapes x 4 cell divisions x 2 diagonals x 625 displacements x 2 options x 6 parameter sets x 3 selections x 4 frames (original, moved, spherical, accurate spherical), strided; 19683 diagonal patterns x 2 triangulation flags x 3 node layouts x 2 edits, strided; pairs of polygons with 3-6 corners x all numberings x 18 variants; 4 sides x 2 divisions x 6^3 heights x 2 extents x 2 directions x 3 polygons x 2 line sets', thorough='without the strides'),
 oracle='geometric definitions: exact equality for fixed nodes, distance to the original outline, planarity and area, bit-exact comparison of two call protocols, independent degree balance, closest points of polylines',
 assumptions=['orthogonality itself is only required not to get worse for quadrilaterals with pure orthogonalization', 'the node chosen on a land boundary is only judged for sides that run along the land, gaps between two pieces of land may be bridged'])
prop('C28',
 title='Results do not depend on the number of threads or their schedule',
 statement='Whatever the number of threads the parallel loops run with and in whatever order their iterations are executed, every call returns the same exit code and leaves the same meshes, grids and quality measures as with one thread. No two iterations of a parallel loop running in different threads access the same memory when one of them writes, except atomically or in a critical section.',
 over=['schedules', 'inputs'], text='all numbers of threads up to 4 and all orders of the team members (all interleavings up to equivalence) for every division of the cells of four small grids, six calls, orthogonalization with four weightings, and every (pair of) call(s) of the API alphabet',
 why='Tests run with one fixed number of threads and one accidental schedule; a race or an order dependence rarely changes a result there.',
 files=['libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp', 'libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp', 'libs/MeshKernel/include/MeshKernel/MeshConversion.hpp'],
 mech=[('node updates of the orthogonalization', 'libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp'), ('cell centres and areas', 'libs/MeshKernel/src/Mesh2D.cpp'), ('transformations', 'libs/MeshKernel/include/MeshKernel/MeshTransformation.hpp'), ('conversions', 'libs/MeshKernel/include/MeshKernel/MeshConversion.hpp')],
 bound=dict(quick='4 grids x 256 divisions x 6 calls x 2 projections with teams of 2 and 3 in all orders (strided for 3 grids); 81 divisions x 4 weightings x 2 options x 2 selections x 2 projections; all calls and a twelfth of all pairs of calls with teams of 2', thorough='teams up to 4, all pairs of calls, no strides'),
 oracle='the run with one thread; byte-precise access sets of the members of each team (no conflict means that all interleavings of the region are equivalent to the serial orders explored)',
 assumptions=['a deterministic OpenMP run time (lib/omp_rt.hpp) replaces libgomp: members of a team are fibers; accesses inside precompiled system libraries are not seen', 'two callers in different threads are outside the contract of the library'],
 variant='omp', tech='stateless model checking of the OpenMP regions under a controlled scheduler with partial-order reduction by access sets')
prop('C29',
 title='Quality measures equal their definitions on the current mesh and grid',
 statement='Asked in any order right after any edit, orthogonality per edge is the absolute cosine between the edge and the line through the circumcentres of its two cells, smoothness is the ratio of the larger to the smaller area, edges of the outline have the missing value, and edge lengths, obtuse triangles, small flow edges (circumcentres closer than the threshold times the mean square root of the areas) and the cells whose edges all lie in a range of orthogonality are exactly those of the definition. Deleting the small flow edges removes exactly these edges and can be undone. For curvilinear grids smoothness and curvature per node and direction follow from the two neighbours, and are missing where a neighbour is missing.',
 over=['inputs', 'histories'], text='all combinations of three shifts, heights and divisions per row of a mesh of three rows, six edits, four orders of questions and two projections; all patterns of displaced nodes of three grids with missing corners and both directions',
 why='Tests compare a handful of stored values of unedited meshes; edits before the question, obtuse and mixed cells, thresholds and directions are not covered.',
 files=['libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothness.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridCurvature.cpp', API],
 mech=[('quality of meshes', 'libs/MeshKernel/src/Mesh2D.cpp'), ('smoothness of grids', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothness.cpp'), ('curvature of grids', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridCurvature.cpp')],
 bound=dict(quick='27^3 meshes x 6 edits x 2 projections, a third beyond the first edit and projection; 729 meshes of cells of very different sizes x 8 diagonals; 729 displacement patterns x 2 directions x 5 missing nodes x 3 sizes', thorough='without the strides'),
 oracle='direct evaluation of the definitions from the nodes and cells read back',
 assumptions=['circumcentres are only judged for triangles and rectangles (those of other cells are the result of an iteration) and not when they fall on an edge', 'the merging of small boundary triangles is not judged'])
prop('C26',
 title='Triangulations of samples and polygons are complete Delaunay triangulations',
 statement='Triangulating samples gives exactly the triangles whose circumscribed circle contains no other sample, with the samples as nodes in their exact positions, leaving out only triangles with an angle below 5 or above 150 degrees. Triangulating a polygon without holes covers it exactly with triangles that satisfy the Delaunay criterion across every inner edge, with the sides of the polygon as outline, all other nodes inside and no triangle much larger than the sides suggest; if it has holes, no node lies in a hole. The mesh that was there before is kept, unconnected to the new one, and undo gives it back.',
 over=['inputs'], text='all subsets of 3 to 9 of twelve sample positions, in three numberings, two projections and two aspect ratios; all polygons with 4 to 6 corners at two distances and four side lengths, both directions and three first nodes',
 why='Tests count nodes and edges of a few stored sets; a lost or wrong triangle for other sets, orders and shapes, or a damaged existing mesh, is not seen.',
 files=['libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/Polygons.cpp', 'libs/MeshKernel/src/TriangulationWrapper.cpp', API],
 mech=[('mesh from a triangulation', 'libs/MeshKernel/src/Mesh2D.cpp'), ('points for a polygon', 'libs/MeshKernel/src/Polygons.cpp'), ('triangulation', 'libs/MeshKernel/src/TriangulationWrapper.cpp')],
 bound=dict(quick='3718 subsets, an eighth of the 35 variants of each; 112 polygons x 4 lengths x 2 directions x 3 first nodes x 2 existing meshes x 2 projections; 3 outlines x 4 lengths x 36 holes x 4 directions x 2 existing meshes', thorough='all variants of every subset'),
 oracle='empty-circle definition over all triples of samples; area sums, side matching and the circle criterion across every inner edge',
 assumptions=['sets with four points on a circle or three on a line, within a tolerance, are not judged', 'only the first of several polygons is triangulated; holes and sizes in spherical coordinates are not judged'])
prop('C27',
 title='Grids made from polygons and splines follow them exactly',
 statement='A grid made in a polygon or triangle from its corner nodes has the nodes of the outline as its border in order, whatever the first node and direction, without folded cells, covers the area, and is the regular grid when opposite sides are parallel and divided alike; a grid made from two families of splines has its corners at the crossings and its lines on the splines whatever the order and direction in which they are given, refined as asked. Points on a spline are those of the natural cubic spline through its control points. Snapping grid lines or splines to land or a spline moves the chosen nodes to the closest points, nodes beside them by a part that fades to nothing, and no others; undo gives the grid back.',
 over=['inputs'], text='all small divisions, shapes, spacings, first nodes, corners and directions of polygons and triangles; all directions and eight orders of two families of two or three splines of four shapes; all control point heights; all sections and regions of a grid and 27 curves',
 why='Tests make a handful of grids in one numbering and direction and compare stored coordinates; other first nodes, directions, orders and ranges read out of bounds or gave other grids.',
 files=['libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp', 'libs/MeshKernel/src/Splines.cpp', 'libs/MeshKernel/src/SplineAlgorithms.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSnapping.cpp', API],
 mech=[('grids in polygons', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp'), ('transfinite grids from splines', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.cpp'), ('grids from splines', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSplineToGrid.cpp'), ('splines', 'libs/MeshKernel/src/Splines.cpp'), ('snapping', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSnapping.cpp')],
 bound=dict(quick='4 x 4 divisions x 4 shapes x 4 spacings x 3 outlines x 3 ways of giving the fourth side x all first nodes x 2 directions x 4 corners, strided; triangles with 2 to 7 intervals per side; 4 families x 8 shapes x 9 refinements x 8 orders x all directions x 2 methods, strided; all heights of 2 to 5 control points; 5 grids (one with a missing node) x all sections x 27 curves x all regions, strided', thorough='without the strides'),
 oracle='definitions evaluated independently: own natural cubic spline, crossings by Newton iteration, closest points by search, areas and orientations of cells',
 assumptions=['triangles with unequal halves or bulging sides may be folded', 'positions inside a block are only judged for parallel sides', 'splines that cross more than once or not at all are not judged'])

prop('C30', title='A global mesh closes around the globe and mirrors north and south',
 statement='A global mesh has the requested number of equal columns around the globe and, up to where it reaches the poles or its cells get too small, the requested number of rows in each hemisphere, every cell about as high as it is wide. Every row closes across the date line without a gap, a double node or a missing cell, for every number of columns, and the south is the mirror image of the north. It is added to the mesh that is there, and undoing it restores that mesh.',
 over=['inputs'],
 text='Every number of columns from 3 to 130 (thorough: 260) with up to 7 (14) rows, in both spherical projections, on an empty mesh, on a mesh that was emptied before and beside an existing mesh, is generated by the real code. The rows are recomputed by bisection from the rule that a cell is as high as it is wide half way up; every lattice node, edge and cell must be there exactly once, numbering the columns modulo the full circle, and nothing may lie beyond the requested rows. Where rows reach the poles or are joined, the rows below are still judged completely and the rest for symmetry and validity.',
 why='The tests generate a few meshes and compare counts. Whether the last column is there depends on the rounding of 360/n, and double nodes at the zero meridian on that of single longitudes: both go wrong for some numbers of columns only.',
 files=['libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp', 'libs/MeshKernel/include/MeshKernel/Utilities/RTree.hpp', 'libs/MeshKernelApi/src/MeshKernel.cpp'],
 mech=[('column spacing, row heights and closing at the date line', 'libs/MeshKernel/src/Mesh2DGenerateGlobal.cpp'), ('merging of coinciding nodes', 'libs/MeshKernel/src/Mesh.cpp'), ('joining with the existing mesh', 'libs/MeshKernelApi/src/MeshKernel.cpp')],
 bound=dict(quick='3 to 130 columns, 1 to 7 rows, 2 projections, 3 histories', thorough='3 to 260 columns, 1 to 14 rows'),
 oracle='own lattice of rows (by bisection) and columns',
 assumptions=['where an odd number of columns is halved near the poles, the part above is only judged for symmetry and validity'])

prop('C31', title='Cleaning up the outline removes exactly the small triangles on it',
 statement='Deleting small triangles on the outline removes every triangle whose longest side lies on the outline and whose area is at most the given fraction of the mean area of its neighbours with more than three sides, by merging its two outer nodes into the node at its right angle; all other triangles, nodes and edges stay as they are. The result is a valid mesh without double nodes or edges, and undo and redo restore the mesh before and after.',
 over=['inputs', 'histories'],
 text='At each corner of a mesh of four by four cells one of eight shapes is put: a cell, right triangles of four sizes, a triangle cut off from a cell (longest side inside), a triangle between two triangles and one between a triangle and a cell. All combinations of these (quick: one in six), seven fractions, three numberings with mixed edge directions, three histories (no edit, a moved node that was not read back, a deletion undone) and two projections are run on the real code; the set of nodes, edges and cells expected is derived from the shapes.',
 why='The tests use one stored mesh. Which triangles go depends on the areas of the neighbours, the corner nearest to a right angle and the direction of edges, and merging one node too many or too few still leaves a mesh that looks right.',
 files=['libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/Mesh.cpp', 'libs/MeshKernelApi/src/MeshKernel.cpp'],
 mech=[('selection by area fraction and choice of the node to keep', 'libs/MeshKernel/src/Mesh2D.cpp'), ('merging of nodes', 'libs/MeshKernel/src/Mesh.cpp')],
 bound=dict(quick='one in six of 4096 combinations of corners, 7 fractions, 3 numberings, 3 histories, 2 projections', thorough='all combinations of corners'),
 oracle='node and edge sets derived from the shapes placed at the corners; number of cells by the Euler formula',
 assumptions=['fractions within 2% of the area ratio are not judged', 'other shapes of small triangles than right ones are not enumerated'])

prop('C32', title='Grids grown from a centre spline have the prescribed rows and columns',
 statement='A grid grown from a centre spline has columns of equal width along the spline, at most as wide as asked for unless the maximum number of columns is reached, and lines that leave the spline at right angles. The first row has the prescribed height, further rows grow by one constant factor and reach the ends of the cross splines exactly, or, with bounding splines, equal rows of at most the given number fill the space up to them. The grid does not depend on the order or direction of the splines or on where they lie, growing it layer by layer gives the same grid as computing it at once, and undo restores what was there.',
 over=['inputs', 'histories'],
 text='Straight centre splines of three and four points with one to four cross splines of four pairs of lengths, with and without bounding splines, three orders and three sets of directions, and all combinations of width, height, growth, limits and placement are gridded by the real code; every node is compared with rows and columns computed from the rule (growth by bisection). Curved centre splines with unequal and oblique cross splines are gridded in seven variants (turned, moved, mirrored, splines reversed or reordered), which must agree; lines must leave the spline at right angles. The layer by layer interface is run over all numbers of layers, with wrong layers in between, on empty and existing grids in two projections.',
 why='The tests compare a few stored grids. Whether rows reach the cross splines depends on the number of layers that fits, on the growth factor that has to be solved for, and on which of the cross splines lie beside a column; all of these go wrong for some inputs only.',
 files=['libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp', 'libs/MeshKernel/src/Splines.cpp', 'libs/MeshKernelApi/src/MeshKernel.cpp'],
 mech=[('columns along the spline, heights, growth and layers', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromSplines.cpp'), ('lengths and crossings of splines', 'libs/MeshKernel/src/Splines.cpp'), ('layer by layer interface and undo', 'libs/MeshKernelApi/src/MeshKernel.cpp')],
 bound=dict(quick='one in 16 of the straight cases, one in 4 of the curved ones, all layer by layer histories with up to 6 layers', thorough='all of them'),
 oracle='rows and columns computed from the rule; agreement of the variants; grid computed at once',
 assumptions=['crossings at exactly a point of the centre spline and strongly wavy splines under reversal are not judged', 'growing outside bounding splines is an open finding and not judged otherwise', 'front collision and removal of skinny triangles are not covered'])
