import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [])))
I=['inputs']
p('C01','Reference element topology and coordinates are mutually consistent',
 'For every reference element, the counts, types, vertex numbering and node coordinates reported by the queries agree with one geometric object: relative sub-sub-entity numbering composes to the absolute numbering, vertex coordinates of every sub-entity are those of the vertices it names, and identifiers and names are distinct. Out-of-range sub-entity arguments are rejected by an assertion instead of producing a value.',
 I,'all reference elements, all codimensions and all index arguments, including every out-of-range one','the tests sample a few entries of the tables and never the whole index space nor the rejection of bad arguments',
 ['lib/lf/base/ref_el.h','lib/lf/base/ref_el.cc'],[('lookup tables and switch statements','RefEl::SubSubEntity2SubEntity, RefEl::SubType, RefEl::NumSubEntities, RefEl::NodeCoords')])
p('C02','Metric data of every geometry are consistent with its mapping',
 'For every cell, edge and point geometry, in every supported world dimension, the Jacobian is the derivative of the mapping, the integration element is the square root of the determinant of its Gram matrix, and the Jacobian-inverse-Gramian is J (J^T J)^-1. This holds at every point of the reference element, for every admissible node position, and each evaluation point of a batch is treated independently.',
 I,'all real node coordinates of non-degenerate shapes, all points of the reference element','tests compare against finite differences for a handful of fixed shapes and points with loose tolerances',
 ['lib/lf/geometry/segment_o1.cc','lib/lf/geometry/segment_o2.cc','lib/lf/geometry/tria_o1.cc','lib/lf/geometry/tria_o2.cc','lib/lf/geometry/quad_o1.cc','lib/lf/geometry/quad_o2.cc'],[('closed formulas per geometry type','Global, Jacobian, JacobianInverseGramian, IntegrationElement')])
p('C03','Geometries interpolate their nodes and restrict exactly to sub-entities',
 'Every geometry maps the reference nodes to the node coordinates it was built from. The geometry of a sub-entity is the restriction of the parent mapping to that sub-entity with the orientation given by the reference element numbering, for every codimension and index. Volume, Corners and affinity agree with the mapping; degenerate shapes are rejected.',
 I,'all real node coordinates, all sub-entities, all points','tests check a few shapes and sample points only',
 ['lib/lf/geometry/segment_o1.cc','lib/lf/geometry/segment_o2.cc','lib/lf/geometry/tria_o1.cc','lib/lf/geometry/tria_o2.cc','lib/lf/geometry/quad_o1.cc','lib/lf/geometry/quad_o2.cc','lib/lf/geometry/geometry_interface.cc'],[('SubGeometry','SubGeometry of each geometry class'),('Corners, Volume','geometry_interface.cc')])
p('C04','Refinement patterns tile the parent and agree on shared edges',
 'For every reference element, refinement pattern and anchor, the child cells lie in the parent, are convex with positive volume, do not overlap and fill the parent, and interior child edges and nodes bound those children. The child geometries of any parent geometry are the images of the child polygons under the parent mapping. Refinement patterns prescribe on each parent edge exactly the subdivision announced for that edge.',
 I,'all patterns, anchors and parent geometries with arbitrary node coordinates','tests check the number of children and sample points for a few shapes',
 ['lib/lf/refinement/hybrid2d_refinement_pattern.cc','lib/lf/refinement/refutils.cc','lib/lf/geometry/refinement_pattern.h','lib/lf/geometry/tria_o1.cc','lib/lf/geometry/quad_o1.cc','lib/lf/geometry/segment_o1.cc','lib/lf/geometry/tria_o2.cc','lib/lf/geometry/quad_o2.cc','lib/lf/geometry/segment_o2.cc'],[('ChildPolygons','lattice coordinates of children'),('ChildGeometry','of each geometry class')])
p('C05','Quadrature rules are exact up to their stated degree',
 'Every quadrature rule offered for a reference element integrates every polynomial up to its declared degree exactly and has its points inside the reference element, with as many weights as points. The rule provider returns a rule of at least the requested degree for the requested element, the same rule on every later request and independently of earlier requests; references handed out by the rule cache stay valid.',
 ['inputs','histories'],'all reference elements, all degrees in the tabulated and generated range, all polynomials of that degree, all orders of requests','tests check monomials for part of the range',
 ['lib/lf/quad/make_quad_rule.cc','lib/lf/quad/make_quad_rule_nodal.cc','lib/lf/quad/quad_rules_tria.cc','lib/lf/quad/gauss_quadrature.cc','lib/lf/quad/quad_rule_cache.cc','lib/lf/quad/quad_rule.h'],[('make_QuadRule','tables and Duffy construction'),('QuadRuleCache::Get','cache vector')])
p('C06','Lagrangian finite elements satisfy the nodal basis axioms',
 'For Lagrangian elements of every order on every reference element, shape functions are one at their own evaluation node and zero at all others, sum to one, and reproduce polynomials of their order; the reported gradients are the derivatives of the reported values at every point. The number of shape functions per sub-entity matches the reported totals, evaluation nodes of a sub-entity lie on it in the numbering order of the reference element, and a shape function vanishes on every sub-entity that does not carry it.',
 I,'all reference elements, orders 1 to 3, all points of the reference element','tests check nodes and finite differences at sample points',
 ['lib/lf/uscalfe/lagr_fe.h','lib/lf/uscalfe/lagr_fe.cc','lib/lf/fe/fe_point.h','lib/lf/uscalfe/uniform_scalar_fe_space.h'],[('EvalReferenceShapeFunctions','closed formulas')])
p('C07','Orthogonal polynomial families satisfy their defining identities',
 'Values, integrals and derivatives of the Legendre, integrated Legendre, Jacobi and integrated Jacobi polynomials agree with one family: the recurrences hold, each integrated polynomial has the polynomial as derivative and vanishes at the interval ends where it must, each reported derivative is the derivative of the reported value, and the families have the required orthogonality and normalisation.',
 I,'all arguments x in the reals, all degrees up to the supported hierarchic order, all parameters alpha','tests sample a few degrees and points',
 ['lib/lf/fe/hierarchic_fe.h','lib/lf/fe/hierarchic_fe.cc'],[('three-term recurrences','Legendre, ILegendre, Jacobi, IJacobi and derivatives')])
p('C08','Hierarchic finite elements are conforming and internally consistent',
 'For hierarchic elements of every polynomial degree vector and edge orientation, gradients are the derivatives of the shape functions, shape functions of a sub-entity vanish on all other sub-entities not containing it, and the trace of an edge shape function depends only on the edge degree and the edge orientation so that neighbours agree. The counts per sub-entity add up to the total, and converting nodal values to coefficients and evaluating them again reproduces every function of the space.',
 I,'all reference elements, degree vectors and orientations up to the stated bound, all points','tests use a few degrees, uniform orientation and sampled points',
 ['lib/lf/fe/hierarchic_fe.h','lib/lf/fe/hierarchic_fe.cc','lib/lf/fe/hierarchic_scalar_fe_space.h'],[('shape functions built from ILegendre/Legendre/Jacobi kernels','FeHierarchicSegment, FeHierarchicTria, FeHierarchicQuad')])
p('C09','Mesh construction yields a consistent cell complex',
 'For every valid sequence of node, cell and edge insertions the constructed mesh has each edge exactly once, indices form a bijection with the entities per codimension, sub-entities of a cell are the ones its vertices define with correct relative orientations, entity geometries coincide with the inserted or derived geometries, and explicitly inserted entities are present. Iteration enumerates each entity once, in index order, independent of the order in which edges were inserted.',
 ['inputs','histories'],'all node coordinates, all cell connectivities over the bounded node set, all edge insertions before or after cells','tests use fixed example meshes',
 ['lib/lf/mesh/hybrid2d/mesh_factory.cc','lib/lf/mesh/hybrid2d/mesh.cc','lib/lf/mesh/hybrid2d/triangle.cc','lib/lf/mesh/hybrid2d/quad.cc','lib/lf/mesh/hybrid2d/segment.cc','lib/lf/mesh/hybrid2d/point.cc'],[('edge map keyed by endpoint pairs','Mesh constructor'),('index assignment','mesh.cc')])
p('C10','Degree-of-freedom numbering is a consistent global numbering',
 'A dof handler assigns to the entities of a mesh disjoint interior index sets that cover 0..N-1 exactly, lists for each entity the dofs of its sub-entities in the canonical local order with edge orientation taken into account, and reports counts that match those lists. The entity reported as owner of an index is the one whose interior set contains it; uniform and dynamic handlers agree when given the same layout.',
 ['inputs','configurations'],'all dof layouts per entity type or per entity within the bound, on meshes of arbitrary admissible connectivity within the bound','tests check a few fixed layouts',
 ['lib/lf/assemble/dofhandler.cc','lib/lf/assemble/dofhandler.h'],[('InitIndexArrays','UniformFEDofHandler, DynamicFEDofHandler')])
p('C11','Assembly sums exactly the local contributions at the dof indices',
 'Matrix and vector assembly add, for each active entity of the given codimension, every entry of its local matrix or vector at the global indices of its dofs, and nothing else; inactive entities contribute nothing, previous contents are kept, and the contribution does not depend on the order or number of other entities. The assembled linear form and bilinear form evaluated on coefficient vectors equals the sum of local forms.',
 I,'all local matrices and vectors with arbitrary real entries, all activity patterns, all dof maps within the bound','tests assemble a few constant providers',
 ['lib/lf/assemble/assembler.h'],[('AssembleMatrixLocally, AssembleVectorLocally','assembler.h')])
p('C12','Triplet matrices represent the sum of their entries',
 'A triplet matrix stands for the matrix whose entries are the sums of the triplets added to it, whatever the order and repetition: conversion to sparse and dense form, matrix-vector products, clearing and selective zeroing all act on that matrix. Dimensions cover all entries added, and selective removal touches exactly the entries that satisfy the predicate.',
 ['inputs','histories'],'all sequences of additions within the bound with arbitrary real values and indices','tests use one small example',
 ['lib/lf/assemble/coomatrix.h'],[('triplet vector','COOMatrix')])
p('C13','Fixing solution components yields an equivalent constrained system',
 'After fixing solution components every flagged row and column is replaced so that any solution of the modified system attains the prescribed values at the flagged indices and satisfies the original equations with those values inserted at all others. Unflagged equations are otherwise unchanged, and both variants describe the same solution set.',
 I,'all matrices and right-hand sides with arbitrary real entries, all flag patterns, all prescribed values within the size bound','tests solve one system',
 ['lib/lf/assemble/fix_dof.h'],[('FixFlaggedSolutionComponents, FixFlaggedSolutionCompAlt, FixSolutionComponentsLse','fix_dof.h')])
p('C14','Mesh functions evaluate the algebraic expression they denote',
 'Mesh function expressions evaluate pointwise: sums, differences, products, unary operations, constants, transposes and conversions give at every entity and every point exactly the operation applied to the operand values at that entity and point. Global functions are evaluated at the image of the local points, and batches of points are treated independently.',
 I,'all operand functions (uninterpreted), entities and points','tests sample fixed operands',
 ['lib/lf/mesh/utils/mesh_function_binary.h','lib/lf/mesh/utils/mesh_function_unary.h','lib/lf/mesh/utils/mesh_function_global.h','lib/lf/mesh/utils/mesh_function_constant.h','lib/lf/mesh/utils/mesh_function_traits.h'],[('expression templates','mesh_function_binary.h, mesh_function_unary.h')])
p('C15','Mesh data sets and topological counts match the mesh',
 'A data set attached to a mesh returns for every entity exactly the last value stored for it and reports definedness exactly for the entities it covers. Boundary flags mark exactly the entities on the boundary, counts of adjacent super-entities equal the number of incident entities, and per-entity aggregations visit every incident pair once.',
 ['inputs','histories'],'all meshes within the connectivity bound and all values','tests use fixed example meshes',
 ['lib/lf/mesh/utils/mesh_data_set.h','lib/lf/mesh/utils/codim_mesh_data_set.h','lib/lf/mesh/utils/all_codim_mesh_data_set.h','lib/lf/mesh/utils/special_entity_sets.cc','lib/lf/mesh/utils/special_entity_sets.h'],[('index-addressed vectors','CodimMeshDataSet, AllCodimMeshDataSet'),('CountNumSuperEntities, flagEntitiesOnBoundary','special_entity_sets.cc')])
p('C16','Structured mesh builders tile their domain',
 'Structured builders produce, for every admissible grid size and every domain rectangle, a mesh whose cells are non-degenerate, do not overlap and tile exactly the requested domain (or the torus), with the expected numbers of entities, conforming edges and a boundary equal to the domain boundary. Inadmissible parameters are rejected or yield no mesh.',
 ['inputs','configurations'],'all grid sizes within the bound, all real rectangle corners','tests build a few sizes',
 ['lib/lf/mesh/utils/tp_triag_mesh_builder.cc','lib/lf/mesh/utils/tp_quad_mesh_builder.cc','lib/lf/mesh/utils/torus_mesh_builder.cc','lib/lf/mesh/utils/structured_mesh_builder.h'],[('index arithmetic','Build()')])
p('C17','Element matrices and vectors are the local bilinear and linear forms',
 'Each element matrix or vector provider returns the Galerkin matrix or vector of its bilinear or linear form on that entity: entries equal the quadrature of coefficients times products of shape functions or their transformed gradients, exactly for affine cells with constant coefficients. Results are independent of entities treated before, and closed-form providers agree with the general ones.',
 I,'all admissible cell geometries, coefficient functions (uninterpreted or constant), shape function pairs','tests compare a few reference cells',
 ['lib/lf/fe/loc_comp_ellbvp.h','lib/lf/uscalfe/loc_comp_ellbvp.h','lib/lf/uscalfe/lin_fe.cc'],[('quadrature loops','Eval of the providers'),('closed formulas','LinearFELaplaceElementMatrix, LinearFELocalLoadVector')])
p('C18','Mesh hierarchies keep parent-child relations and conformity',
 'Refining a mesh by any marking gives a conforming mesh that covers the same domain; each new entity has exactly one parent with the reported child number, each parent lists exactly its children, and child geometries are the images prescribed by the refinement pattern. Point and sub-entity relations of children agree with the parents on every level, so that positions relative to the parent can be recovered.',
 ['inputs','histories'],'all markings of edges of the bounded meshes and successive refinements','tests check random or fixed markings on a few meshes',
 ['lib/lf/refinement/mesh_hierarchy.cc','lib/lf/refinement/mesh_hierarchy.h'],[('PerformRefinement','mesh_hierarchy.cc')])
p('C19','Finite element functions, projections and integrals agree with their definition',
 'A finite element function evaluates to the sum of coefficients times shape functions on every cell and its gradient is the derivative of that function; nodal projection reproduces every function of the space and the integral of a mesh function is the sum of the cell contributions selected by the predicate. Prolongation and transfer between nested meshes preserve the function.',
 I,'all coefficient vectors, all cell geometries in the bounded mesh, all predicates','tests check sample functions on one mesh',
 ['lib/lf/fe/mesh_function_fe.h','lib/lf/fe/mesh_function_grad_fe.h','lib/lf/fe/fe_tools.h','lib/lf/fe/prolongation.h','lib/lf/refinement/mesh_function_transfer.h'],[('local shape function sums','mesh_function_fe.h'),('IntegrateMeshFunction, NodalProjection','fe_tools.h')])
p('C20','A mesh read from a Gmsh file description is the described mesh',
 'For every parsed Gmsh description of version 2 or 4, GmshReader builds a mesh with exactly the described cells, the described edges and the vertices used by the elements, where every vertex, edge and cell has the coordinates and the (straight or curved) shape of the nodes of its element, whatever the numbering of the nodes, the order of the elements and the presence of auxiliary or unused nodes. Each entity carries exactly the physical groups of its elements, and the lookups between names and numbers of physical groups find the group of the requested codimension or throw.',
 I,'all node coordinates, node numberings, element orders, groups and names, on meshes within the bound','tests read a few example files',
 ['lib/lf/io/gmsh_reader.cc','lib/lf/io/gmsh_reader.h','lib/lf/io/gmsh_file_v2.h','lib/lf/io/gmsh_file_v4.h'],[('construction of the mesh','GmshReader::InitGmshFile'),('name and number lookup','PhysicalEntityName2Nr, PhysicalEntityNr2Name, PhysicalEntities, IsPhysicalEntity')],
 'the mesh and the lookups of GmshReader; the text and binary grammars that produce the description are outside')
p('C21','VTK output describes exactly the mesh and its data',
 'The VtkFile that VtkWriter hands to the formatter when it is destroyed lists every vertex of the mesh as the point of its index and one cell per entity of the chosen codimension with the type of its reference element and degree; the nodes of every cell lie at the images of the Lagrange nodes in the order VTK prescribes, shared nodes of adjacent cells are one point, and no other points exist. Every data set written under a name appears once, with the value of each entity at its index, the given default where it is undefined, cell data of functions evaluated at the barycenter and point data of functions evaluated at the points; clashing names are rejected.',
 I,'all vertex positions and directions of edges, all data values and functions, all degrees up to 10, on meshes within the bound','tests write a few files and do not read them back',
 ['lib/lf/io/vtk_writer.h','lib/lf/io/vtk_writer.cc'],[('constructor','VtkWriter::VtkWriter'),('data','WritePointData, WriteCellData, WriteGlobalData')],
 'the VtkFile passed to WriteToFile; formatting as text or binary is outside')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
