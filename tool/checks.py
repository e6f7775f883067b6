"""Table of the checks: contracts (harness), translation units of /repo they run over, bounds."""
CHECKS = {}


# Level 'proof': the instances are the whole domain of the property (data, points, indices, patterns, types).  All other
# checks discharge the same kind of obligations for all data of every instance of a bounded family (sizes of meshes,
# systems, histories, degrees): bounded, and labelled 'other'.
UNBOUNDED = {'C01', 'C02', 'C03', 'C04', 'C06', 'C14'}

def chk(pid, harness, src, level=None, explain='', bounds=(), assumptions=(), **kw):
    level = level or ('proof' if pid in UNBOUNDED else 'other')
    CHECKS[pid] = dict(harness=harness, src=src, level=level, explain=explain, bounds=list(bounds), assumptions=list(assumptions), **kw)


chk('C01', ['c01_refel.cc'], [],
    explain='All table entries of RefEl against an independent description; every out-of-range argument (symbolic 32-bit indices) ends in an assertion.')
GEO = ['geometry/*.cc']
chk('C02', ['c02_geometry.cc'], GEO,
    explain='For arbitrary real node coordinates and arbitrary points of the reference element: Jacobian is the derivative of Global, '
            'IntegrationElement is the square root of the Gram determinant, JacobianInverseGramian is J (J^T J)^-1.',
    bounds=['only the clause on batches of points is bounded: 1, 2 and 3 points per call; coordinates and points unrestricted'])

chk('C03', ['c03_geometry.cc'], GEO,
    explain='For arbitrary real node coordinates: node interpolation, sub-geometries as restrictions (every codimension and index, every point), volume, corners, affinity; '
            'out-of-range arguments (every 32-bit value, symbolic) and degenerate cells end in an assertion.')

REF = ['refinement/hybrid2d_refinement_pattern.cc']
chk('C04', ['c04_refpattern.cc'], GEO + REF,
    explain='Every refinement pattern and anchor (complete enumeration of the finite domain): exact tiling in integer arithmetic, interior edges and nodes, announced edge subdivision. '
            'For arbitrary real node coordinates of every parent geometry: child geometries are the images of the child polygons.',
    bounds=['lattice constant 6, the only one Hybrid2DRefinementPattern can be built with'],
    assumptions=['child cells are required to be non-degenerate (the constructors check it; that check is under contract in C03)'])

chk('C05', ['c05_quad.cc'], ['quad/*.cc'],
    explain='Closed terms (tables and Newton iterations) evaluated under the IEEE semantics of the verifier; exactness on the monomial basis gives exactness on the whole polynomial space by linearity. '
            'Cache: every history of three requests.',
    bounds=['make_QuadRule: triangle degrees 0..53 (every hard-coded rule and the Duffy branch), segment 0..40, quadrilateral 0..25; thorough: 0..61 / 0..100 / 0..41',
            'Gauss-Jacobi: up to 9 points, exponents 0, 1/2, 1, 2', 'cache: histories of 3 requests over 3 elements and 4 degrees'],
    assumptions=['exactness up to 2e-13 absolute (tables hold 17 significant digits)'])

chk('C06', ['c06_lagrange.cc'], ['uscalfe/lagr_fe.cc', 'fe/*.cc'],
    explain='For every point of the reference element and every polynomial of the space (symbolic coefficients): reproduction, gradients, partition of unity, traces on edges; nodal basis at the evaluation nodes.',
    bounds=['only the clause on batches of points is bounded: 1, 2 and 3 points per call'])

chk('C07', ['c07_poly.cc'], ['fe/hierarchic_fe.cc', 'quad/*.cc'],
    explain='For all real x, t and parameters: closed forms, recurrences, integrals, derivatives and end values of the polynomial families; orthogonality by a Gauss rule under contract in C05.',
    bounds=['Legendre family: degrees 0..12 (thorough ..18)', 'Jacobi with arbitrary real alpha and beta: degrees 0..4 (thorough ..6); with beta = 0: 0..7 (thorough ..10); alpha in 0..20: degrees 0..9'])

chk('C08', ['c08_hierarchic.cc'], ['fe/hierarchic_fe.cc', 'quad/*.cc'],
    explain='For every point of the reference element and every function of the space (symbolic coefficients), every orientation of the edges: counts, gradients, supports, traces on edges equal to the '
            'segment functions in the global direction of the edge, conversion of nodal values.',
    bounds=['segment degrees 1..12', 'triangles: interior 1..4, all edge degree vectors up to 3 (thorough 1..5, up to 4), plus six vectors with degrees up to 6 (thorough: 7..9)',
            'quadrilaterals: interior 1..3, all edge degree vectors up to 2 (thorough up to 3), plus six vectors with degrees up to 6 (thorough: 7, 8)', 'points per call: 1, 2, 3'])

chk('C12', ['c12_coo.cc'], ['assemble/coomatrix.cc'],
    explain='Histories of additions, clearing and selective zeroing by an arbitrary (uninterpreted) predicate, with arbitrary real values; sizes for arbitrary indices.',
    bounds=['histories of up to 3 additions and one removal (thorough: 4 additions) on matrices up to 3 x 3; sizes: three additions with any indices up to 2^30'])

chk('C13', ['c13_fixdof.cc'], ['assemble/coomatrix.cc', 'assemble/fix_dof.cc'],
    explain='For arbitrary real matrices (with repeated triplets), right-hand sides and prescribed values and every flag pattern: flagged equations become x_i = value, the others keep their residual.',
    bounds=['systems of size 1 to 6 (thorough: 8)'])

MESH = GEO + ['mesh/hybrid2d/*.cc', 'mesh/*.cc']
LOGGER = 'spdlog loggers are switched off: logging has no effect on the result (assumed contract of lf::base::InitLogger)'
chk('C09', ['c09_mesh.cc'], MESH,
    explain='Mesh description (ghost) against the built mesh: bijective indices, every edge once, sub-entities, orientations, geometries, inserted entities; arbitrary real node positions for derived geometries.',
    bounds=['connectivity: every pair of cells over 4 nodes (thorough: 5), ten complexes of up to 4 cells with every numbering of vertices, every subset, direction and order of inserted edges for complexes of up to 5 edges (thorough: 7)'],
    assumptions=[LOGGER])

STUB = 'meshes are given by the contract of the Mesh and Entity interfaces (any direction of every edge); that hybrid2d meshes satisfy it is C09'
chk('C10', ['c10_dof.cc'], ['assemble/*.cc', 'fe/*.cc', 'quad/*.cc', 'uscalfe/lagr_fe.cc', 'geometry/*.cc', 'mesh/*.cc'],
    explain='Against the documented numbering (ghost): counts, interior sets, canonical local order with orientation, owners; Lagrangian and hierarchic spaces: arbitrary coefficients have matching traces on every edge and vertex.',
    bounds=['ten complexes of up to 4 cells; single cells: every direction of the edges; layouts: 0..3 dofs per node, 0..4 per edge, 0..3 per cell; arbitrary numbers per entity on single cells and two triangles',
            'hierarchic spaces: degrees per entity up to 3 (triangle: cell up to 4), uniform degree up to 5'],
    assumptions=[STUB])

chk('C11', ['c11_assemble.cc'], ['assemble/*.cc', 'geometry/*.cc', 'mesh/*.cc'],
    explain='Any local matrices and vectors (symbolic real or complex entries), any dof lists (symbolic indices) and activity pattern: the assembled form at arbitrary (uninterpreted) vectors is the old one plus the sum of the local forms; entries of triplet matrices and vectors.',
    bounds=['up to 5 entities per codimension, 0 to 3 local dofs per entity, one unit with up to 9'],
    assumptions=[STUB, 'dof handlers are given by the contract of the DofHandler interface with arbitrary index lists (C10)', LOGGER])

chk('C14', ['c14_meshfunction.cc'], GEO + ['mesh/*.cc'],
    explain='Operands are uninterpreted functions of entity and point, so every mesh function is covered: sums, differences, products (scalars, fixed and dynamic matrices and arrays in both storage orders, '
            'mixed real and complex entries, types with operators of their own), unary operations, nested expressions, constants; functions of the global coordinates at the image of any point under any geometry.',
    bounds=['batches of 1, 2 and 3 points per call; matrices up to 3 x 3'],
    assumptions=[STUB])

chk('C15', ['c15_datasets.cc'], MESH + ['mesh/utils/*.cc'],
    explain='Histories of writes of arbitrary values to arbitrary entities against a ghost map, definedness and rejection for every entity of the mesh and of another mesh; '
            'counts of super-entities and boundary flags against incidences computed from the mesh description.',
    bounds=['fourteen complexes of up to 6 cells, edges in four direction patterns; one-dimensional chains', 'histories: initial value and the writes a, b, a for every pair of entities a, b'],
    assumptions=['meshes are given by the contract of the Mesh and Entity interfaces, or built by hybrid2d::MeshFactory'])

chk('C16', ['c16_builders.cc'], MESH + ['mesh/utils/*.cc'],
    explain='For every rectangle (symbolic corners) and every order of the settings: counts, positions of the vertices, geometry and orientation of every cell, boxes of the grid covered by their cells, '
            'straight conforming edges, boundary; nothing is built for empty grids and rectangles and for tori without a conforming mesh.',
    bounds=['grids up to 3 x 3 and 1 x 8 (thorough: 6 x 6), tori 3..5 x 3..5 (thorough: 3..8)'],
    assumptions=[LOGGER, 'the builders are run with hybrid2d::MeshFactory'])

chk('C17', ['c17_providers.cc'], GEO + ['mesh/*.cc', 'quad/*.cc', 'fe/*.cc', 'uscalfe/*.cc', 'assemble/*.cc'],
    explain='Shape functions, gradients, metric factors, transformations and coefficients are uninterpreted functions: every provider returns the quadrature of the form for all of them, whatever was evaluated before; '
            'for affine cells with constant coefficients the Lagrangian and hierarchic matrices and vectors agree with a rule of higher degree (exactness of the rules: C05); closed formulas on arbitrary triangles and quadrilaterals.',
    bounds=['up to 5 shape functions per cell in the uninterpreted contracts, degrees 1..3; user-supplied rules of 2 and 3 points', 'Lagrangian spaces 1..3, hierarchic degrees 1..3'],
    assumptions=[STUB, LOGGER])

chk('C18', ['c18_hierarchy.cc'], MESH + REF + ['refinement/mesh_hierarchy.cc', 'mesh/utils/*.cc'],
    explain='For every marking of the edges, every order of the edge lengths and arbitrary vertex positions: parents and children, child shapes and positions relative to the parent, closure of the marking, conformity and '
            'consistency of every fine mesh (together with C04: the patterns tile the cells).',
    bounds=['base meshes of one and two cells with every marking (thorough: every numbering, two quadrilaterals, four triangles), two refinements in a row with single further marks (thorough: pairs), tables of edge lengths in the second step'],
    assumptions=[LOGGER, 'cells stay non-degenerate; edge lengths are arbitrary positive numbers (SegmentO1::IntegrationElement under contract in C02)'])

chk('C19', ['c19_functions.cc'], MESH + REF + ['refinement/mesh_hierarchy.cc', 'mesh/utils/*.cc', 'quad/*.cc', 'fe/*.cc', 'uscalfe/*.cc', 'assemble/*.cc'],
    explain='Shape functions, geometries, dof functionals and index tables of spaces are uninterpreted: values, gradients, integrals, projections and essential conditions equal their definitions for all of them; '
            'for the Lagrangian and hierarchic spaces on real meshes with arbitrary coefficients: gradient = derivative, continuity, reproduction, and invariance under transfer and prolongation at every point.',
    bounds=['abstract spaces on meshes of 2 and 3 cells; Lagrangian degrees 1..3, hierarchic degrees 1..3; hierarchies of a triangle with every marking and of regularly refined meshes of 1 and 2 cells, up to two refinements'],
    assumptions=[STUB, LOGGER, 'cells are non-degenerate'])

chk('C20', ['c20_gmsh.cc'], MESH + ['mesh/utils/*.cc', 'io/gmsh_reader.cc', 'io/gmsh_file_v2.cc', 'io/gmsh_file_v4.cc'],
    explain='For every coordinate, element order, numbering of the nodes, order of the elements in the file and physical groups within the bounds: the mesh built from a parsed Gmsh description (version 2 and 4) '
            'has exactly the described vertices, edges, cells, curved geometries and physical groups, and lookups of names and numbers are inverse to each other.',
    bounds=['meshes of one and two cells, up to two described edges and two described vertices; three names of physical groups; surface meshes in space in thorough'],
    assumptions=['parsing of Gmsh files (Boost.Spirit) is not verified: the property is about the parsed description', LOGGER, 'cells are non-degenerate'])

chk('C21', ['c21_vtk.cc'], MESH + ['mesh/utils/*.cc', 'io/vtk_writer.cc'],
    ldflags=['-Wl,--wrap=_ZN2lf2io11WriteToFileERKNS0_7VtkFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'],
    explain='For every mesh within the bounds, every vertex position and every data: the VTK description handed to the formatter has the points of the mesh, one cell per entity with its Lagrange nodes at the places and in the '
            'order VTK prescribes, and for every data set the value of every entity or point.',
    bounds=['meshes of one and two cells, straight and second order geometries; degrees 1..10 (quadrilaterals 1..7 in quick)'],
    assumptions=['formatting of VTK files (Boost.Karma) is not verified: WriteToFile under a contract that records its argument', LOGGER, 'cells are non-degenerate'])

NOT_APPLICABLE = {}
