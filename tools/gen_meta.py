#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below and spec.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from spec import PROPS

R3, V3, R2, V2, RN, VN = 'src/r3d.c', 'src/v3d.c', 'src/r2d.c', 'src/v2d.c', 'src/rNd.c', 'src/vNd.c'
D3, D2 = 'deprecated/r3d.c', 'deprecated/r2d.c'
OFFS = {'over': ['inputs'], 'text': ''}


def p(pid, title, statement, over, qtext, why, mech, observe, state=()):
    files = sorted({w.split(':')[0] for _, w in mech})
    assert len(title) <= 80, title
    return {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
            'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                        'observe_at': observe, 'hook_needed': None}}


GRAPH3 = ('vertex graph', 'three neighbour indices per vertex, counter-clockwise as seen from outside; the whole shape is this graph', 'src/r3d.h:r3d_poly')
GRAPH2 = ('vertex graph', 'two neighbour indices per vertex (next, previous); the whole shape is this graph', 'src/r2d.h:r2d_poly')
GRAPHN = ('vertex graph', 'N neighbour indices and a table of shared two-dimensional faces per vertex', 'src/rNd.h:rNd_poly')

L = [
 p('P01', 'Clipping a 3D polyhedron yields exactly the intersection with the half-spaces',
   'After a polyhedron (any genus-0 shape, convex or not, of any number of components) is clipped by any number of half-spaces given as unit-normal planes, the result represents exactly the part of the original inside all of them (signed distance >= 0): its moments of every order equal those of the intersection within rounding, and every vertex lies inside every plane and is either an original vertex or lies on a cutting plane and on an original edge. '
   'The outcome does not depend on whether the planes are applied in one call or one after another; a plane with every vertex at signed distance >= 0 leaves the shape unchanged, and one with no vertex at a positive distance and some at a negative one leaves an empty polyhedron, also when it touches the shape exactly. The call reports success whenever the result fits the vertex capacity.',
   ['inputs'], 'all valid polyhedra, all lists of unit-normal planes, including planes through vertices, edges and faces, all scales and offsets',
   'the tests clip random convex cells by a few random planes with loose tolerances and one fixed plane count; they never compare against an independent value for non-convex, multi-component or degenerate input',
   [('clip: classify, insert, relink, compact', R3 + ':r3d_clip')], ['polyhedron after the call', 'return value'], [GRAPH3]),
 p('P02', 'Splitting 3D polyhedra partitions every one of them into the two sides',
   'Splitting an array of polyhedra by a unit-normal plane stores, for each element separately, in the positive output the part on the positive side of the plane and in the negative output the part on the negative side; together they make up the input with no loss or overlap, each piece being a valid polyhedron. '
   'An element with all signed distances >= 0 goes unchanged to the positive output and one with all < 0 unchanged to the negative output, the other output being empty; an empty element gives two empty outputs, and the call reports success whenever everything fits the vertex capacity. Nothing the outputs held before the call shows in the result.',
   ['inputs'], 'all arrays of valid polyhedra and all planes, through vertices and faces too',
   'the tests split one polyhedron at a time by random planes and compare only the summed volume',
   [('split: classify, insert, relink, distribute', R3 + ':r3d_split')], ['both outputs', 'return value'], [GRAPH3]),
 p('P03', '3D moments are the exact polynomial integrals over the polyhedron',
   'For a polyhedron and any polynomial order the computed moments are the integrals of every monomial x^i y^j z^k up to that order over the signed solid, in the documented order (grouped by degree, x exponent descending, then y), within rounding relative to the distance from the origin. '
   'They are additive over components, change sign under orientation reversal, are all zero for an empty polyhedron, and the polyhedron is not changed.',
   ['inputs'], 'all valid polyhedra (non-convex, several components, any scale or offset) and all orders >= 0',
   'the tests compare against a recursive routine on a few tetrahedra and random orders with loose tolerance',
   [('fan decomposition and moment recursion', R3 + ':r3d_reduce')], ['moment array']),
 p('P04', 'Shifting moments is exact, and the polyhedron centre is usable as the shift',
   'Shifting moments computed for a shape by a displacement gives the moments of the translated shape, for every order and displacement, in two and in three dimensions; a zero displacement changes nothing and two shifts compose. '
   'The centre reported for a non-empty shape is the average of its vertices.',
   ['inputs'], 'all shapes, orders and displacements in 2D and 3D',
   'there is no test of shifting by itself; it is only reached through moment computation at the default order',
   [('moment shifting', R3 + ':r3d_shift_moments'), ('moment shifting', R2 + ':r2d_shift_moments'), ('centre', R3 + ':r3d_poly_center'), ('centre', R2 + ':r2d_poly_center')], ['moment array', 'returned centre']),
 p('P05', 'Every history of operations leaves a valid, correctly oriented vertex graph',
   'Starting from any shape the initialisers produce, after any sequence of clips, splits and transformations the 2D or 3D vertex graph stays valid: the vertex count is within capacity, every link is in range, mutual and consistently ordered, every component is a closed (3D: three-connected, genus-0) surface, and the library\'s own validity check accepts it. '
   'Empty shapes stay usable and stay empty, and the measure never grows under clipping and is conserved under splitting.',
   ['histories', 'inputs'], 'all finite sequences of operations from all initial shapes',
   'tests stop after one or two operations on one shape family; defects in links appear only after re-clipping degenerate or multi-component results',
   [('relinking', R3 + ':r3d_clip'), ('relinking', R3 + ':r3d_split'), ('relinking', R2 + ':r2d_clip'), ('relinking', R2 + ':r2d_split')], ['vertex graph after every operation'], [GRAPH3, GRAPH2]),
 p('P06', 'Validity checks accept exactly the sound graphs and are safe on any input',
   'The 2D, 3D and N-dimensional validity checks return true for every graph that represents a valid shape and false for graphs with out-of-range links, self links, repeated neighbours, vertices with missing or surplus incoming links, or (3D) components that become disconnected by removing one or two vertices. '
   'They terminate, never read or write outside the structure whatever the links contain, and do not change it.',
   ['inputs'], 'all vertex graphs, sound or corrupted, of any size up to the capacity',
   'the tests only call the checks on good shapes',
   [('graph checks', R3 + ':r3d_is_good'), ('graph checks', R2 + ':r2d_is_good'), ('graph checks', RN + ':rNd_is_good')], ['return value', 'memory accesses']),
 p('P07', '3D voxelization deposits each cell\'s exact moments and nothing else',
   'Voxelizing a polyhedron over an index range of a grid with any (anisotropic) spacing adds to every cell and every moment up to the requested order the exact integral over the part of the polyhedron in that cell, in the documented memory layout; the sum over cells equals the moments of the whole polyhedron. '
   'Values already in the grid are accumulated onto, cells the polyhedron does not reach and memory outside the range are untouched, and the polyhedron and the index range are not modified; success is reported whenever the capacity suffices.',
   ['inputs'], 'all polyhedra, grid spacings, index ranges (negative, elongated, single-cell) and orders',
   'the tests use one isotropic grid and convex shapes and compare only the totals',
   [('bisection with splitting', V3 + ':r3d_voxelize')], ['destination grid with guard zones', 'return value']),
 p('P09', 'Index boxes enclose the shape and clamping restricts both consistently',
   'The index box computed for a shape and a grid spacing is, on every axis, the tightest integer range whose cells contain the shape (up to rounding at cell boundaries), also for negative coordinates and anisotropic spacing, and all zero for an empty shape. '
   'Clamping to another range leaves exactly the intersection of the ranges and clips the shape to it; if the ranges do not overlap the shape is emptied and the range is zeroed; a shape already inside is left unchanged. This holds in 2D, 3D and N dimensions.',
   ['inputs'], 'all shapes, spacings and clamp ranges',
   'tests clamp only boxes overlapping the origin-based grid',
   [('index boxes', V3 + ':r3d_get_ibox'), ('clamping', V3 + ':r3d_clamp_ibox'), ('index boxes', V2 + ':r2d_get_ibox'), ('clamping', V2 + ':r2d_clamp_ibox'), ('index boxes', VN + ':rNd_get_ibox'), ('clamping', VN + ':rNd_clamp_ibox')], ['index range', 'shape after clamping']),
 p('P10', 'Exhausting the vertex capacity is reported and never corrupts memory',
   'An operation (initialising, clipping, splitting, clamping, voxelizing or rasterizing, in 2D, 3D or N dimensions) whose result needs more vertices than the compiled capacity reports failure and writes nothing outside the caller\'s structures. '
   'An operation whose result, including the vertices inserted on the way, fits the capacity exactly or with room to spare succeeds with the correct result.',
   ['inputs', 'configurations'], 'all inputs around the capacity and all compiled capacities',
   'no test comes near the capacity',
   [('capacity tests', R3 + ':r3d_clip'), ('capacity tests', R3 + ':r3d_split'), ('capacity tests', R3 + ':r3d_init_poly'), ('propagation', V3 + ':r3d_voxelize'), ('capacity tests', R2 + ':r2d_clip'), ('capacity tests', R2 + ':r2d_split'), ('propagation', V2 + ':r2d_rasterize'), ('capacity tests', RN + ':rNd_clip'), ('propagation', VN + ':rNd_voxelize')], ['return value', 'memory outside the structures']),
 p('P11', 'Face-list initialisation reproduces the described solid for any vertex degree',
   'Initialising a polyhedron from vertices and counter-clockwise faces gives a valid graph enclosing exactly the described solid, whatever the numbering of vertices, the order of faces, the starting vertex of each face, and the number of edges meeting at a vertex (duplicated where more than three meet). '
   'A malformed description (vertex of degree below three, more vertices than capacity) is refused with an empty polyhedron; the description is not modified.',
   ['inputs'], 'all closed genus-0 face lists, convex or not, any vertex degree, and malformed ones',
   'tests build a handful of fixed solids',
   [('edge table and vertex duplication', R3 + ':r3d_init_poly')], ['polyhedron', 'return value'], [GRAPH3]),
 p('P12', 'Boundary conversion lists every face once and releases all it allocates',
   'Converting a polyhedron to its boundary representation yields one entry per connected component, containing every vertex of that component exactly once and every face exactly once, as counter-clockwise vertex loops (consecutive coincident vertices being merged into one); for a polyhedron without coincident vertices re-initialising from it reproduces the same solid, and a polyhedron just built from a vertex and face list gives those vertices and face loops back. '
   'An empty polyhedron gives no components, the input is not changed, and releasing the result frees every allocation exactly once.',
   ['inputs'], 'all polyhedra of any number of components and face sizes',
   'one test converts one cube-like shape',
   [('face walk', R3 + ':r3d_init_brep'), ('release', R3 + ':r3d_free_brep')], ['boundary lists', 'allocation log']),
 p('P13', 'Face planes computed from vertices are the unit-normal planes of the faces',
   'The planes computed for tetrahedra, boxes and general polyhedra in 3D and for boxes and polygons in 2D have unit normals, pass through the vertices of their face, and point as documented: inward for tetrahedra, boxes and all 2D faces of positively oriented input, and by the right-hand rule of the vertex order for general 3D faces. '
   'Clipping a larger shape by the inward planes therefore reproduces the solid.',
   ['inputs'], 'all non-degenerate tetrahedra, boxes, polygons, and planar convex or non-convex faces of any size',
   'tests use the planes of random tetrahedra only',
   [('planes', R3 + ':r3d_tet_faces_from_verts'), ('planes', R3 + ':r3d_box_faces_from_verts'), ('planes', R3 + ':r3d_poly_faces_from_verts'), ('planes', R2 + ':r2d_box_faces_from_verts'), ('planes', R2 + ':r2d_poly_faces_from_verts')], ['plane array']),
 p('P14', 'Transformations move every vertex by the stated map and change nothing else',
   'Rotation, translation, scaling, shear and affine (including projective) transformation of a 2D, 3D or N-dimensional shape apply exactly the documented map (counter-clockwise rotation about or in the chosen axes; matrix times column vector with homogeneous division) to every vertex, and leave the links, the vertex count and all memory outside the shape unchanged. '
   'Hence measures scale by the determinant, inverse transformations restore the shape, and empty shapes are unaffected.',
   ['inputs', 'histories'], 'all shapes, parameters and axis combinations',
   'tests rotate and shear only inside larger statistical comparisons or not at all (2D, N-dimensional)',
   [('transformations', R3 + ':r3d_rotate r3d_translate r3d_scale r3d_shear r3d_affine'), ('transformations', R2 + ':r2d_rotate r2d_translate r2d_scale r2d_shear r2d_affine'), ('transformations', RN + ':rNd_rotate rNd_translate rNd_scale rNd_shear rNd_affine')], ['vertex positions and links']),
 p('P15', 'Orientation returns the signed measure of the simplex',
   'The orientation function returns the signed volume (2D: area, N dimensions: N-volume) of the given simplex within rounding: an odd permutation of the vertices flips the sign, translation does not matter, coincident vertices give zero, and the sign agrees with the sign of the volume of the simplex built from the same vertices.',
   ['inputs'], 'all vertex tuples at all scales and offsets',
   'only used by tests as a filter for badly shaped input',
   [('determinant', R3 + ':r3d_orient'), ('determinant', R2 + ':r2d_orient'), ('determinant', RN + ':rNd_orient')], ['return value']),
 p('P16', 'Clipping a 2D polygon yields exactly the intersection with the half-planes',
   'After a polygon (convex or not, of any number of loops) is clipped by any number of half-planes given as unit-normal lines, the result represents exactly the part of the original inside all of them: its moments equal those of the intersection within rounding and every vertex lies inside every line and is an original vertex or on a cutting line. '
   'One call with many lines equals successive calls; a line with every vertex at signed distance >= 0 leaves the shape unchanged, one with no vertex at a positive distance and some at a negative one leaves an empty polygon, also when it touches the shape exactly, and success is reported whenever the result fits the capacity.',
   ['inputs'], 'all valid polygons and all lists of unit-normal lines, through vertices and along edges too',
   'the tests clip random convex polygons by random lines with loose tolerances',
   [('clip', R2 + ':r2d_clip')], ['polygon after the call', 'return value'], [GRAPH2]),
 p('P17', 'Splitting 2D polygons partitions every one of them into the two sides',
   'Splitting an array of polygons by a unit-normal line stores for each element the part on the positive side in the positive output and the part on the negative side in the negative output, together making up the input without loss or overlap. '
   'An element with all signed distances >= 0 goes unchanged to the positive output and one with all < 0 unchanged to the negative output, the other output being empty; an empty element gives two empty outputs, and nothing the outputs held before shows in the result.',
   ['inputs'], 'all arrays of valid polygons and all lines',
   'no test splits an array in which elements take different paths',
   [('split', R2 + ':r2d_split')], ['both outputs', 'return value'], [GRAPH2]),
 p('P18', '2D moments are the exact polynomial integrals over the polygon',
   'For a polygon and any polynomial order the computed moments are the integrals of every monomial x^i y^j up to that order over the signed region, in the documented order, within rounding; they are additive over loops (holes subtract), change sign under orientation reversal, and are all zero for an empty polygon, which stays unchanged.',
   ['inputs'], 'all polygons (non-convex, several loops, any scale or offset) and all orders >= 0',
   'the tests compare order-limited moments on convex shapes only',
   [('edge decomposition and moment recursion', R2 + ':r2d_reduce')], ['moment array']),
 p('P19', '2D rasterization deposits each cell\'s exact moments and nothing else',
   'Rasterizing a polygon over an index range of a grid with any (anisotropic) spacing adds to every cell and every moment up to the requested order the exact integral over the part of the polygon in that cell, in the documented memory layout; the sum over cells equals the moments of the whole polygon. '
   'Values already in the grid are accumulated onto, cells the polygon does not reach and memory outside the range are untouched, and the polygon and the index range are not modified; success is reported whenever the capacity suffices.',
   ['inputs'], 'all polygons, spacings, index ranges (negative, elongated, single-cell) and orders',
   'the tests use one isotropic grid and compare only the totals',
   [('bisection with splitting', V2 + ':r2d_rasterize')], ['destination grid with guard zones', 'return value']),
 p('P20', 'N-dimensional clipping and volume agree with half-space intersection',
   'Clipping an N-dimensional box, simplex or earlier clipping result by unit-normal hyperplanes in general position gives exactly the vertices and edges of the intersection of the half-spaces, a valid graph including its two-dimensional face table, and an empty polytope when nothing remains; the zeroth moment equals the N-volume of the intersection within rounding. '
   'Hyperplanes passing through existing vertices with a computed distance of exactly zero still leave a valid graph whose vertices all lie inside; one with every vertex at signed distance >= 0 changes nothing, and one with no vertex at a positive distance and some at a negative one leaves an empty polytope.',
   ['inputs', 'configurations'], 'all starting boxes/simplices (also affinely mapped), all hyperplane lists, dimensions 3, 4 and 5',
   'the only N-dimensional test compares volumes of a few random cuts in dimension 4 with loose tolerance',
   [('clip', RN + ':rNd_clip'), ('volume', RN + ':rNd_reduce')], ['vertex graph', 'zeroth moment'], [GRAPHN]),
 p('P21', 'N-dimensional voxelization deposits each cell\'s exact volume and nothing else',
   'Voxelizing an N-dimensional polytope in general position over an index range adds to every cell exactly the volume of the polytope inside that cell, row-major over the range; the sum over cells is the volume of the polytope. '
   'Values already in the grid are accumulated onto, cells out of reach and memory outside the range are untouched, and the polytope and the range are not modified; success is reported whenever the capacity suffices.',
   ['inputs', 'configurations'], 'all polytopes, anisotropic spacings and index ranges, dimensions 3 and 4',
   'one test compares the total volume only',
   [('recursive bisection', VN + ':rNd_voxelize')], ['destination grid with guard zones', 'return value']),
 p('P22', 'No valid call performs an invalid memory access or undefined operation',
   'For every documented-valid input, including empty shapes, full vertex buffers, hostile but in-range vertex graphs, zero planes, zero polynomial order and single-cell grids, no library function reads or writes outside the caller\'s structures and its own buffers, uses memory after releasing it, leaks, divides integers by zero, overflows integers, or fails to return.',
   ['inputs', 'configurations'], 'all valid inputs to all public functions in 2D, 3D and N dimensions, at every compiled capacity',
   'the tests run without instrumentation; stray accesses inside large stack buffers go unnoticed',
   [('fixed-size buffers', R3 + ':r3d_clip r3d_split r3d_reduce r3d_init_poly r3d_init_brep'), ('work stacks', V3 + ':r3d_voxelize'), ('fixed-size buffers', R2 + ':r2d_clip r2d_split'), ('work stacks', V2 + ':r2d_rasterize'), ('fixed-size buffers', RN + ':rNd_clip rNd_is_good'), ('work stacks', VN + ':rNd_voxelize')], ['address, undefined-behaviour and uninitialised-memory sanitizers', 'guard zones', 'allocation log']),
 p('P23', 'Concurrent calls on separate shapes do not interfere',
   'Any number of threads may call any library functions at the same time as long as none of them writes a caller-owned object another one uses (a shape being split counts as written): there is no data race, and every call gives exactly the result it gives when run alone. Shapes, planes and descriptions that are only inputs may be shared by all threads.',
   ['schedules', 'inputs'], 'all interleavings of calls from several threads on private outputs and shared inputs',
   'the tests are single-threaded',
   [('no shared mutable state', R3 + ':r3d_reduce r3d_clip r3d_split r3d_init_brep'), ('no shared mutable state', R2 + ':r2d_reduce r2d_clip'), ('no shared mutable state', RN + ':rNd_clip rNd_reduce'), ('no shared mutable state', V3 + ':r3d_voxelize')], ['race detector', 'outputs compared with a sequential run']),
 p('P24', 'Results depend only on the inputs, and inputs are left unmodified',
   'Every call is a function of its arguments: repeating it gives bit-identical outputs whatever the output storage held before, whatever calls came in between, whatever unused vertex slots of the input contain and whatever the stack and heap held. '
   'No result depends on uninitialised memory, and planes, vertex lists, face lists, grid spacings and shapes that are pure inputs (not one being split or clipped in place) are not modified.',
   ['histories', 'inputs'], 'all calls, preceding call histories and prior contents of output memory',
   'tests call each function once with freshly cleared or fresh stack storage',
   [('output initialisation', R3 + ':r3d_init_tet r3d_init_box r3d_init_poly r3d_split r3d_reduce'), ('output initialisation', R2 + ':r2d_init_poly r2d_split r2d_reduce'), ('output initialisation', RN + ':rNd_init_simplex rNd_init_box rNd_clip')], ['outputs of paired executions', 'uninitialised-memory sanitizer', 'inputs before and after']),
 p('P25', 'The guarantees hold in every supported build configuration',
   'Clipping, splitting, moments, initialisation, transformations and gridding satisfy the same exactness guarantees when the library is compiled in single precision, with or without the origin-shifting option, with a different vertex capacity, with assertions enabled, and with any optimisation level or compiler.',
   ['configurations', 'inputs'], 'all inputs under all supported compile-time settings',
   'the test build uses one configuration',
   [('precision and shifting switches', 'src/r3d.h:SINGLE_PRECISION'), ('shifted moments', R3 + ':r3d_reduce'), ('shifted moments', R2 + ':r2d_reduce'), ('capacity', 'config/r3d-config.h.in:R3D_MAX_VERTS')], ['all monitors of the other properties']),
 p('P26', 'The deprecated 3D tetrahedron voxelizer gives exact per-cell moments',
   'The legacy tetrahedron voxelizer stores, for every cell of the grid and every moment up to quadratic order, the exact integral over the part of the intersection of the four half-spaces inside the cell, zero elsewhere, whatever the grid held before, identically with the tree-based and the buffer-based traversal. '
   'Its helper functions give the documented results: box initialisation and reduction the exact moments of the box, clipping a box by the four planes not marked as already satisfied the intersection, face planes the unit inward planes of a positively oriented tetrahedron, and orientation its signed volume.',
   ['inputs', 'configurations'], 'all tetrahedra, grid sizes and spacings, orders 0 to 2, both traversals',
   'the deprecated code is not built by the test suite',
   [('voxelization', D3 + ':r3d_voxelize_tet'), ('clip', D3 + ':r3d_clip_tet'), ('moments', D3 + ':r3d_reduce'), ('helpers', D3 + ':r3du_tet_faces_from_verts r3du_init_box r3du_orient')], ['destination grid with guard zones']),
 p('P27', 'The deprecated 2D quadrilateral rasterizer gives exact per-cell moments',
   'The legacy quadrilateral rasterizer stores, for every cell of the grid and every moment up to quadratic order, the exact integral over the part of the intersection of the four half-planes inside the cell, zero elsewhere, whatever the grid held before, identically with the tree-based and the buffer-based traversal, and always returns. '
   'Its helper functions give the documented results: box initialisation and reduction the exact moments of the box, clipping a box by the four lines not marked as already satisfied the intersection, face lines the unit inward lines of a counter-clockwise polygon, and orientation the signed area of a triangle, counted positive when its corners run clockwise.',
   ['inputs', 'configurations'], 'all quadrilaterals, grid sizes and spacings, orders 0 to 2, both traversals',
   'the deprecated code is not built by the test suite',
   [('rasterization', D2 + ':r2d_rasterize_quad'), ('clip', D2 + ':r2d_clip_quad'), ('moments', D2 + ':r2d_reduce'), ('helpers', D2 + ':r2du_faces_from_verts r2du_init_box r2du_orient')], ['destination grid with guard zones']),
 p('P28', 'Basic initialisers build the stated solid, valid and positively oriented',
   'Initialising a tetrahedron, box or simplex in 3D or N dimensions, or a box or polygon in 2D, gives a valid graph whose vertices are exactly the given ones (box: all corner combinations), whose faces are those of the stated shape, and whose measure is the exact signed measure of the input. '
   'It overwrites whatever the structure held, does not modify its input and touches nothing else.',
   ['inputs'], 'all vertex tuples, bounds and polygon vertex lists up to the capacity',
   'tests only use the initialisers as a starting point',
   [('initialisers', R3 + ':r3d_init_tet r3d_init_box'), ('initialisers', R2 + ':r2d_init_box r2d_init_poly'), ('initialisers', RN + ':rNd_init_simplex rNd_init_box')], ['vertex graph']),
 p('P29', 'Printed listings state the shape completely and truthfully',
   'Printing a polyhedron, polygon or N-dimensional polytope writes one line per vertex, in order, with its index, its coordinates (to the digits shown) and its neighbour indices, and nothing for an empty shape; printing a boundary representation writes the number of components and for each component its vertex and face counts, every vertex with its coordinates and every face with its corner count and corner indices in order. '
   'Printing does not modify the shape.',
   ['inputs'], 'all shapes up to the capacity, any number of components, all scales',
   'the tests never look at the printed output',
   [('print', R3 + ':r3d_print r3d_print_brep'), ('print', R2 + ':r2d_print'), ('print', RN + ':rNd_print')], ['standard output']),
]

TECH = {
 'P22': 'ASan/UBSan/MSan-instrumented executions under hostile workloads, guard zones and an allocation log',
 'P23': 'ThreadSanitizer plus an offline comparison of concurrent outputs with the sequential run',
 'P24': 'paired-execution differential monitor with poisoned memory, MemorySanitizer, input snapshots',
}
NOTE = 'randomised and adversarial workloads, independent oracle on every execution; held on everything explored, no claim beyond it'

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in L:
            f.write(json.dumps(x) + '\n')
    checks = [{'property': x['id'], 'quick_cmd': 'python3 check.py %s --quick' % x['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % x['id'],
               'technique': TECH.get(x['id'], 'runtime monitor: online oracle over seeded stress workloads, plus ASan/UBSan executions'),
               'level': 'exploration', 'level_note': NOTE} for x in L if x['id'] in PROPS]
    na = [{'property': x['id'], 'reason': 'monitor under construction'} for x in L if x['id'] not in PROPS]
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks are needed: every monitor observes the public structures around calls into the library compiled from /repo.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
