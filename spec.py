"""What each property's check runs: monitors, library variants, workload sizes, and
the coverage floors below which a run refuses to answer."""

VARIANTS = {
    # as shipped: release flags of the repository's build, default capacities
    'std': {},
    # memory / undefined-behaviour instrumentation of library and monitor
    'asan': {'cflags': ['-O1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
             'hflags': ['-O1', '-fsanitize=address'], 'lflags': ['-fsanitize=address,undefined']},
    # assertions of the library enabled
    'dbg': {'cflags': ['-O0']},
    'o3clang': {'clang': True, 'cflags': ['-O3', '-DNDEBUG']},
    'tsan': {'cflags': ['-O1', '-DNDEBUG', '-fsanitize=thread'], 'hflags': ['-O1', '-fsanitize=thread'], 'lflags': ['-fsanitize=thread']},
    'msan': {'clang': True, 'cflags': ['-O1', '-DNDEBUG', '-fsanitize=memory', '-fno-omit-frame-pointer'],
             'hflags': ['-O1', '-fsanitize=memory', '-fsanitize-ignorelist=@HARN@/msan.ign'], 'lflags': ['-fsanitize=memory']},
    # automatic variables start with a pattern instead of whatever the stack holds
    'autopat': {'clang': True, 'cflags': ['-O2', '-DNDEBUG', '-ftrivial-auto-var-init=pattern']},
    'float': {'defs': ['SINGLE_PRECISION']},
    'tree': {'defs': ['USE_TREE']},
    'treeasan': {'defs': ['USE_TREE'], 'cflags': ['-O1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                 'hflags': ['-O1', '-fsanitize=address'], 'lflags': ['-fsanitize=address,undefined']},
    'treetsan': {'defs': ['USE_TREE'], 'cflags': ['-O1', '-DNDEBUG', '-fsanitize=thread'], 'hflags': ['-O1', '-fsanitize=thread'], 'lflags': ['-fsanitize=thread']},
    'shift2': {'defs': ['SHIFT_POLY']},
    'noshift': {'noshift': True},
    'dim3': {'header_defines': {'RND_DIM': 3}},
    'dim5': {'header_defines': {'RND_DIM': 5}},
    'small': {'max3': 32, 'header_defines': {'R2D_MAX_VERTS': 24, 'RND_MAX_VERTS': 64}},
    'big': {'max3': 1100, 'header_defines': {'R2D_MAX_VERTS': 700, 'RND_MAX_VERTS': 1500}},
    'hugeasan': {'max3': 2600, 'header_defines': {'R2D_MAX_VERTS': 2200, 'RND_MAX_VERTS': 2100},
                 'cflags': ['-O1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                 'hflags': ['-O1', '-fsanitize=address'], 'lflags': ['-fsanitize=address,undefined']},
    'oddasan': {'max3': 33, 'header_defines': {'R2D_MAX_VERTS': 25, 'RND_MAX_VERTS': 65},
                'cflags': ['-O1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                'hflags': ['-O1', '-fsanitize=address'], 'lflags': ['-fsanitize=address,undefined']},
    'smallasan': {'max3': 32, 'header_defines': {'R2D_MAX_VERTS': 24, 'RND_MAX_VERTS': 64},
                  'cflags': ['-O1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                  'hflags': ['-O1', '-fsanitize=address'], 'lflags': ['-fsanitize=address,undefined']},
}

HARNESSES = {
    'mon3': {'src': 'mon3.cpp', 'wrap': True},
    'mon2': {'src': 'mon2.cpp'},
    'monN': {'src': 'monN.cpp'},
    'monT': {'src': 'monT.cpp'},
    'mondep': {'src': 'mondep.cpp', 'lib': 'deprecated'},
}


def run(harness, mode, variant, quick, **kw):
    return dict(harness=harness, mode=mode, variant=variant, quick=quick, **kw)


COORD = 'coordinates are finite and |coordinate| < 1e30 (the library uses 1e30 as its own "infinity")'
GRID = 'index ranges span fewer than 2^31 cells along each axis'
UNIT = 'plane normals have unit length'
TOL = 'real arithmetic is compared up to a rounding bound proportional to machine epsilon, the distance of the shape from the origin and the square (2D: first power) of its extent'


def P(pid, rule, runs, floors, assumptions=(), **kw):
    PROPS[pid] = dict(rule=rule, runs=runs, floors=floors, assumptions=[COORD, TOL] + list(assumptions), **kw)


PROPS = {}

P('P01', 'a case is one polyhedron clipped by one set of planes; distinct = different (shape family, plane placement class, outcome, component count, vertex count)',
  [run('mon3', 'clip', 'std', 120000), run('mon3', 'clip', 'asan', 6000)],
  {'outcome_cut': 20000, 'outcome_empty': 10000, 'outcome_whole': 4000, 'outcome_multi_component': 4000, 'comparisons': 300000}, [UNIT])
P('P02', 'a case is one array of polyhedra split by one plane; distinct = different (shape family, plane placement class, outcome per polyhedron)',
  [run('mon3', 'split', 'std', 80000), run('mon3', 'split', 'asan', 4000)],
  {'outcome_divided': 30000, 'outcome_all_negative': 10000, 'outcome_all_positive': 10000, 'outcome_empty_input': 3000}, [UNIT])
P('P03', 'a case is one polyhedron and one polynomial order; distinct = different (shape family, order, vertex count, scale class)',
  [run('mon3', 'moments', 'std', 25000), run('mon3', 'moments', 'asan', 1000)],
  {'moments_computed': 300000})
P('P04', 'a case is one shape, one order and one displacement; distinct = different (dimension, shape family, order, scale classes)',
  [run('mon3', 'shift', 'std', 12000), run('mon2', 'shift', 'std', 30000), run('mon3', 'shift', 'asan', 500), run('mon2', 'shift', 'asan', 1000)],
  {'shifts': 30000, 'centers': 30000, 'large_centers': 2000})
P('P05', 'a case is one history of up to a dozen operations on one shape; distinct = different operation sequences with their outcomes',
  [run('mon3', 'history', 'std', 60000), run('mon2', 'history', 'std', 60000), run('mon3', 'history', 'small', 10000), run('mon2', 'history', 'small', 10000)],
  {'history_clips': 100000, 'history_splits': 100000, 'graphs_3connectivity_checked': 200000, 'loops_walked': 400000}, [UNIT])
P('P06', 'a case is one vertex graph, sound or corrupted; distinct = different (graph family, corruption kind)',
  [run('mon3', 'isgood', 'std', 60000), run('mon2', 'isgood', 'std', 60000), run('mon3', 'isgood', 'asan', 8000), run('mon2', 'isgood', 'asan', 8000),
   run('monN', 'isgood', 'std', 20000), run('monN', 'isgood', 'dim3', 20000), run('monN', 'isgood', 'asan', 3000),
   run('mon3', 'isgood', 'smallasan', 8000), run('mon2', 'isgood', 'smallasan', 8000), run('monN', 'isgood', 'smallasan', 3000)],
  {'accepted': 30000, 'rejected': 30000, 'huge_graphs': 150, 'huge_graphs_nd': 80})
P('P07', 'a case is one polyhedron deposited on one grid; distinct = different (shape family, grid size class, order, placement)',
  [run('mon3', 'vox', 'std', 9000), run('mon3', 'vox', 'asan', 400), run('mon3', 'capvox', 'std', 4000),
   run('mon3', 'bigvox', 'std', 3000), run('mon3', 'bigvox', 'asan', 800), run('mon3', 'farvox', 'std', 4000), run('mon3', 'farvox', 'asan', 800)],
  {'cells_compared': 400000, 'cells_nonempty': 150000, 'cells_untouchable': 100000, 'far_grids': 3000, 'high_order_grids': 100}, [GRID])
P('P09', 'a case is one shape and one grid spacing; distinct = different (dimension, shape family, box class, outcome)',
  [run('mon3', 'ibox', 'std', 80000), run('mon2', 'ibox', 'std', 80000), run('mon3', 'ibox', 'asan', 4000), run('mon2', 'ibox', 'asan', 4000),
   run('monN', 'ibox', 'std', 20000), run('monN', 'ibox', 'dim3', 20000), run('monN', 'ibox', 'dim5', 3000), run('monN', 'ibox', 'asan', 2000),
   run('mon3', 'farvox', 'std', 2000), run('mon2', 'farras', 'std', 3000), run('monN', 'farvox', 'std', 400)],
  {'outcome_clipped': 40000, 'outcome_disjoint': 10000, 'outcome_inside': 20000, 'ibox_bounds_checked': 400000, 'far_boxes': 4000, 'far_clamps': 1500})
P('P10', 'a case is one operation at or around the vertex capacity; distinct = different (operation, distance from the capacity, outcome)',
  [run('mon3', 'capacity', 'std', 20000), run('mon3', 'capvox', 'std', 8000), run('mon2', 'capacity', 'std', 30000),
   run('mon3', 'capacity', 'smallasan', 10000), run('mon3', 'capvox', 'smallasan', 1500), run('mon2', 'capacity', 'smallasan', 10000),
   run('mon3', 'capacity', 'oddasan', 4000), run('mon3', 'capvox', 'oddasan', 1500), run('mon2', 'capacity', 'oddasan', 5000), run('monN', 'capacity', 'oddasan', 1500),
   run('monN', 'capacity', 'std', 1600), run('monN', 'capacity', 'small', 16000), run('monN', 'capacity', 'smallasan', 3000),
   run('mon3', 'capacity', 'hugeasan', 160), run('mon2', 'capacity', 'hugeasan', 300)],
  {'fits': 20000, 'refused': 20000, 'exact_fits': 2000}, [UNIT])
P('P11', 'a case is one face/vertex description; distinct = different (solid family, vertex degrees, orientation, well-formedness)',
  [run('mon3', 'initpoly', 'std', 80000), run('mon3', 'initpoly', 'asan', 6000), run('mon3', 'initpoly', 'small', 4000)],
  {'high_degree_descriptions': 20000, 'malformed_descriptions': 4000, 'degree_above_8': 5000})
P('P12', 'a case is one polyhedron converted to faces and back; distinct = different (shape family, component count, face-size profile)',
  [run('mon3', 'brep', 'std', 60000), run('mon3', 'brep', 'asan', 4000)],
  {'brep_conversions': 40000, 'more_than_two_components': 6000, 'round_trips': 60000, 'allocations_tracked': 1000000})
P('P13', 'a case is one set of face planes; distinct = different (shape family, face count)',
  [run('mon3', 'faces', 'std', 150000), run('mon2', 'faces', 'std', 100000), run('mon3', 'faces', 'asan', 5000), run('mon2', 'faces', 'asan', 5000)],
  {'tet_face_sets': 30000, 'box_face_sets': 60000, 'poly_face_sets': 60000})
P('P14', 'a case is a short sequence of transformations; distinct = different (shape family, transformation kinds, axes)',
  [run('mon3', 'xform', 'std', 100000), run('mon2', 'xform', 'std', 100000), run('mon3', 'xform', 'asan', 4000), run('mon2', 'xform', 'asan', 4000),
   run('monN', 'xform', 'std', 40000), run('monN', 'xform', 'dim3', 40000), run('monN', 'xform', 'dim5', 10000), run('monN', 'xform', 'asan', 2000)],
  {'transforms': 200000})
P('P15', 'a case is one vertex tuple with its permutations; distinct = different (dimension, scale class, sign)',
  [run('mon3', 'orient', 'std', 300000), run('mon2', 'orient', 'std', 300000), run('mon3', 'orient', 'asan', 10000), run('mon2', 'orient', 'asan', 10000),
   run('monN', 'orient', 'std', 100000), run('monN', 'orient', 'dim3', 50000), run('monN', 'orient', 'dim5', 50000), run('monN', 'orient', 'asan', 5000)],
  {'orient_calls': 500000})
P('P16', 'a case is one polygon clipped by one set of lines; distinct = different (shape family, line placement class, outcome, loop count, vertex count)',
  [run('mon2', 'clip', 'std', 200000), run('mon2', 'clip', 'shift2', 30000), run('mon2', 'clip', 'asan', 10000)],
  {'outcome_cut': 50000, 'outcome_empty': 40000, 'outcome_whole': 10000, 'outcome_multi_loop': 20000}, [UNIT])
P('P17', 'a case is one array of polygons split by one line; distinct = different (shape family, line placement class, outcome per polygon)',
  [run('mon2', 'split', 'std', 150000), run('mon2', 'split', 'shift2', 20000), run('mon2', 'split', 'asan', 8000)],
  {'outcome_divided': 80000, 'outcome_all_negative': 40000, 'outcome_all_positive': 40000, 'outcome_empty_input': 10000}, [UNIT])
P('P18', 'a case is one polygon and one polynomial order; distinct = different (shape family, order, vertex count, scale class)',
  [run('mon2', 'moments', 'std', 80000), run('mon2', 'moments', 'shift2', 40000), run('mon2', 'moments', 'asan', 4000)],
  {'moments_computed': 800000})
P('P19', 'a case is one polygon deposited on one grid; distinct = different (shape family, grid size class, order, placement)',
  [run('mon2', 'ras', 'std', 60000), run('mon2', 'ras', 'shift2', 10000), run('mon2', 'ras', 'asan', 2000),
   run('mon2', 'bigras', 'std', 3000), run('mon2', 'bigras', 'asan', 800), run('mon2', 'farras', 'std', 4000), run('mon2', 'farras', 'asan', 800)],
  {'cells_compared': 5000000, 'cells_nonempty': 2000000, 'cells_untouchable': 1000000, 'far_grids': 3000}, [GRID])
P('P28', 'a case is one tetrahedron, box or polygon; distinct = different (kind, vertex count, scale class)',
  [run('mon3', 'initbasic', 'std', 200000), run('mon2', 'init', 'std', 100000), run('mon3', 'initbasic', 'asan', 5000), run('mon2', 'init', 'asan', 5000),
   run('monN', 'init', 'std', 40000), run('monN', 'init', 'dim3', 40000), run('monN', 'init', 'dim5', 10000), run('monN', 'init', 'asan', 2000)],
  {'basic_solids': 100000, 'boxes': 20000, 'polygons': 30000})
P('P29', 'a case is one shape printed; distinct = different (dimension, vertex count, scale)',
  [run('mon3', 'print', 'std', 20000), run('mon2', 'print', 'std', 20000), run('monN', 'print', 'std', 8000), run('monN', 'print', 'dim3', 4000), run('monN', 'print', 'dim5', 4000),
   run('mon3', 'print', 'float', 3000), run('mon2', 'print', 'float', 3000), run('mon3', 'print', 'asan', 2000), run('mon2', 'print', 'asan', 2000), run('monN', 'print', 'asan', 1000)],
  {'prints': 50000, 'vertices_printed': 800000, 'brep_vertices_printed': 100000, 'brep_faces_printed': 80000})
P('P20', 'a case is one N-dimensional box or simplex cut by one set of hyperplanes; distinct = different (dimension, start shape, placement class, outcome, vertex count)',
  [run('monN', 'clip', 'std', 30000), run('monN', 'clip', 'dim3', 30000), run('monN', 'clip', 'dim5', 4000),
   run('monN', 'clipdeg', 'std', 60000), run('monN', 'clipdeg', 'dim3', 60000), run('monN', 'clipdeg', 'dim5', 10000),
   run('monN', 'volume', 'std', 30000), run('monN', 'volume', 'dim3', 30000), run('monN', 'volume', 'dim5', 4000),
   run('monN', 'clip', 'asan', 2000), run('monN', 'clipdeg', 'asan', 2000), run('monN', 'volume', 'asan', 2000),
   run('monN', 'longclip', 'std', 6000), run('monN', 'longclip', 'dim3', 6000), run('monN', 'longclip', 'dim5', 2000), run('monN', 'longclip', 'asan', 500),
   run('monN', 'degen', 'std', 1, thorough=1, shards=1)],
  {'long_histories': 10000, 'histories_of_15_cuts': 6000, 'large_polytopes': 4000, 'clip_calls': 80000, 'degenerate_clips': 60000, 'exactly_degenerate_clips': 90000, 'outcome_cut': 25000, 'outcome_empty': 20000, 'volumes_compared': 60000, 'vertices_checked': 1000000}, [UNIT])
P('P21', 'a case is one N-dimensional polytope deposited on one grid; distinct = different (dimension, shape, grid size class, placement)',
  [run('monN', 'vox', 'std', 3000), run('monN', 'vox', 'dim3', 6000), run('monN', 'vox', 'asan', 300),
   run('monN', 'bigvox', 'std', 600), run('monN', 'bigvox', 'dim3', 600), run('monN', 'bigvox', 'asan', 100),
   run('monN', 'farvox', 'std', 1000), run('monN', 'farvox', 'dim3', 1500), run('monN', 'farvox', 'asan', 200)],
  {'cells_compared': 90000, 'cells_nonempty': 60000, 'cells_empty': 30000, 'big_grids': 800, 'far_grids': 2000}, [GRID])

M3 = 'clip split moments shift ibox vox initpoly initbasic brep faces xform orient isgood history'.split()
M2 = 'clip split moments shift ibox ras init faces xform orient isgood history'.split()
MN = 'clip clipdeg volume vox ibox xform orient init isgood'.split()
P('P22', 'a case is one hostile call sequence under memory and undefined-behaviour instrumentation; distinct = different (workload, shape family, operations, outcomes)',
  [run('mon3', 'mem', 'asan', 40000), run('mon2', 'mem', 'asan', 60000), run('monN', 'mem', 'asan', 6000),
   run('mon3', 'mem', 'smallasan', 40000), run('mon2', 'mem', 'smallasan', 60000), run('monN', 'mem', 'smallasan', 10000),
   run('monN', 'reclip', 'asan', 60000), run('monN', 'reclip', 'std', 100000), run('mon3', 'bigvox', 'asan', 400), run('mon2', 'bigras', 'asan', 400),
   run('mon3', 'farvox', 'asan', 400), run('mon2', 'farras', 'asan', 400), run('monN', 'farvox', 'asan', 100)]
  + [run('mon3', m, 'asan', 300 if m == 'vox' else 2500) for m in M3]
  + [run('mon2', m, 'asan', 1000 if m == 'ras' else 4000) for m in M2]
  + [run('monN', m, 'asan', 120 if m == 'vox' else 1000) for m in MN]
  + [run('mon3', 'capacity', 'asan', 800), run('mon2', 'capacity', 'asan', 2000), run('mon3', 'capacity', 'smallasan', 4000), run('mon2', 'capacity', 'smallasan', 4000), run('monN', 'capacity', 'smallasan', 1000),
     run('mon3', 'capacity', 'hugeasan', 160), run('mon2', 'capacity', 'hugeasan', 300), run('mon3', 'initpoly', 'hugeasan', 300),
     run('monN', 'longclip', 'asan', 200)]
  + [run('mondep', m, v, n) for m, n in (('vox3', 600), ('ras2', 1000), ('clip3', 3000), ('clip2', 3000)) for v in ('asan', 'treeasan') if v == 'asan' or m in ('vox3', 'ras2')]
  + [run('mondep', 'help3', 'asan', 3000), run('mondep', 'help2', 'asan', 3000)],
  {'hostile_calls': 300000}, [GRID])


def scaled(h, modes, variant, n, slow):
    return [run(h, m, variant, slow.get(m, n)) for m in modes]


P('P25', 'a case is one execution of any other property\'s monitor against a differently configured build; distinct = as for that monitor, per build',
  scaled('mon3', M3, 'float', 8000, {'vox': 1000, 'shift': 2000}) + scaled('mon3', M3, 'noshift', 8000, {'vox': 1000, 'shift': 2000})
  + scaled('mon3', M3, 'o3clang', 8000, {'vox': 1000, 'shift': 2000}) + scaled('mon3', M3 + ['capacity', 'capvox'], 'dbg', 4000, {'vox': 500, 'shift': 2000})
  + scaled('mon3', M3, 'small', 8000, {'vox': 1000, 'shift': 2000})
  + scaled('mon2', M2, 'float', 10000, {'ras': 4000}) + scaled('mon2', M2, 'shift2', 10000, {'ras': 4000})
  + scaled('mon2', M2, 'o3clang', 10000, {'ras': 4000}) + scaled('mon2', M2 + ['capacity'], 'dbg', 6000, {'ras': 2000}) + scaled('mon2', M2, 'small', 10000, {'ras': 4000})
  + scaled('monN', MN + ['longclip'], 'float', 4000, {'vox': 600}) + scaled('monN', MN, 'o3clang', 4000, {'vox': 600}) + scaled('monN', MN, 'small', 4000, {'vox': 600})
  + scaled('monN', MN + ['capacity', 'longclip'], 'dbg', 2000, {'vox': 200, 'capacity': 200, 'longclip': 500})
  + scaled('mon3', M3 + ['capacity'], 'big', 4000, {'vox': 400, 'shift': 1000, 'isgood': 1000}) + scaled('mon2', M2 + ['capacity'], 'big', 6000, {'ras': 2000})
  + scaled('monN', MN, 'big', 1500, {'vox': 150})
  + scaled('mon3', ['capacity', 'initpoly', 'brep', 'clip', 'split', 'capvox'], 'hugeasan', 240, {'initpoly': 400})
  + scaled('mon2', ['capacity', 'clip', 'split'], 'hugeasan', 400, {}) + scaled('monN', ['clip', 'init'], 'hugeasan', 160, {}),
  {'comparisons': 2000000, 'graphs_checked': 300000}, [UNIT])

P('P23', 'a case is one set of call scripts executed by 2-8 threads at once; distinct = different (scripts, thread count, phase)',
  [run('monT', 'threads', 'tsan', 1200, stderr_is_violation=True), run('monT', 'threads', 'std', 1600),
   run('monT', 'first', 'tsan', 96, shards=96, thorough=400, stderr_is_violation=True),
   run('mondep', 'threads', 'tsan', 1600, stderr_is_violation=True), run('mondep', 'threads', 'treetsan', 800, stderr_is_violation=True), run('mondep', 'threads', 'std', 3000)],
  {'thread_runs': 8000, 'dep_thread_runs': 15000, 'concurrent_scripts': 25000, 'threads_before_reference': 800, 'outputs_compared': 400000}, ['every thread has at least 8 MB of stack (the library keeps whole shapes in automatic storage)', 'a shape being split counts as written: splitting uses it as working storage'])
MSAN = ([run('mon3', m, 'msan', 200 if m == 'vox' else 2000) for m in M3 + ['mem']]
        + [run('mon2', m, 'msan', 500 if m == 'ras' else 2000) for m in M2 + ['mem']]
        + [run('monN', m, 'msan', 100 if m == 'vox' else 800) for m in MN + ['mem']])
P('P24', 'a case is one script of 8-40 calls executed under three prior memory states (or under uninitialised-memory tracking); distinct = different call sequences',
  [run('monT', 'det', 'std', 6000), run('monT', 'det', 'autopat', 1500), run('monT', 'det', 'msan', 1500), run('monT', 'wrap', 'std', 2400),
   run('mondep', 'det', 'std', 6000), run('mondep', 'det', 'tree', 3000), run('mondep', 'det', 'msan', 1000)] + MSAN,
  {'scripts': 3000, 'outputs_compared': 80000, 'bytes_compared': 20000000, 'initialised_outputs': 30000, 'dep_outputs_compared': 100000, 'calls_between': 5000000, 'long_gaps': 100}, ['a shape being split is not a pure input: splitting uses it as working storage'])
P('P26', 'a case is one set of four planes on one grid, or one helper call; distinct = different (kind, order, grid size, number of cut cells)',
  [run('mondep', 'vox3', v, n) for v, n in (('std', 12000), ('tree', 12000), ('asan', 1500), ('treeasan', 1500), ('float', 2000), ('msan', 600))]
  + [run('mondep', 'clip3', 'std', 60000), run('mondep', 'clip3', 'asan', 6000), run('mondep', 'clip3', 'float', 6000), run('mondep', 'help3', 'std', 60000), run('mondep', 'help3', 'asan', 4000)],
  {'voxelizations3': 24000, 'box_clips3': 60000, 'cells_cut': 300000, 'cells_full': 50000, 'cells_empty': 1000000, 'face_sets3': 50000, 'large_grids3': 50}, [UNIT])
P('P27', 'a case is one set of four lines on one grid, or one helper call; distinct = different (kind, order, grid size, number of cut cells)',
  [run('mondep', 'ras2', v, n) for v, n in (('std', 20000), ('tree', 20000), ('asan', 2500), ('treeasan', 2500), ('float', 3000), ('msan', 1000))]
  + [run('mondep', 'clip2', 'std', 100000), run('mondep', 'clip2', 'asan', 6000), run('mondep', 'clip2', 'float', 6000), run('mondep', 'help2', 'std', 60000), run('mondep', 'help2', 'asan', 4000)],
  {'rasterizations2': 40000, 'box_clips2': 100000, 'cells_cut': 300000, 'cells_full': 200000, 'cells_empty': 1000000, 'face_sets2': 50000, 'large_grids2': 80}, [UNIT])
