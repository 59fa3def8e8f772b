REAL = 'Double arithmetic is read over the reals (rounding is outside the claim); libm functions are taken as the mathematical ones; z3 and the normal-form rewriting of the driver are trusted, and every encoding is validated against a concrete run of the instrumented program. '

prop('K01', 'Laplace kernels are the free-space kernels in 2D and 3D',
     'For every non-zero separation vector R, in the plane and in space, the single-layer kernel is the Laplace fundamental solution, the double-layer kernel is its gradient with respect to R (up to the sign each routine documents), and the second-derivative kernel is the Hessian of the fundamental solution. Every routine that returns one of these quantities returns the same value as the others.',
     ['inputs'], 'every separation vector R of length 1e-6 to 1e6, all directions, in 2D and 3D, all kernel routines',
     'A test samples a few separation vectors and only through integrals of the kernels; a wrong sign, factor or component that vanishes by symmetry on the sampled geometry is invisible.',
     ['include/laplace_kernel.h'], [('single and double layer kernels', 'include/laplace_kernel.h: LaplaceKernel::kernels, single_layer, double_layer'), ('second-derivative kernel', 'include/laplace_kernel.h: LaplaceKernel::hypersingular')],
     ['return values of the kernel routines'],
     claimed=REAL + 'Bounds: 1e-6<=|R|<=1e6. Decides equality of every component with the closed form within 1e-9 relative to its size.')

prop('L02', 'Associated Legendre functions and their derivatives are exact',
     'For every degree n and order 0<=m<=n and every argument in (-1,1) the tabulated functions are the associated Legendre functions (without the alternating sign convention of the library documented in its header), normalised as the expansion formulas require. The tabulated derivatives are the derivatives of these functions with respect to the argument.',
     ['inputs'], 'all degrees and orders up to 20 (the whole table), all arguments in (-1,1)',
     'The tests evaluate a whole expansion at a few points; each of the several hundred closed-form functions is only weakly visible there and many are multiplied by zero.',
     ['include/ass_leg_function.h', 'source/ass_leg_function.cc'], [('tables of functions and derivatives', 'source/ass_leg_function.cc: P_n_m, P_n_m_d; include/ass_leg_function.h: AssLegFunction::GetAssLegFunSph, GetAssLegFunSphDeriv')],
     ['values returned by the table'],
     claimed=REAL + 'Bounds: tolerance 1e-9 relative to the sum of absolute coefficients; derivatives with 1-x^2>=0.01.')

prop('M03', 'A multipole expansion reproduces the potential of its sources',
     'For sources of any strength at any position around the centre of an expansion, the expansion of order p built from them and evaluated at a point further away equals the multipole series of the potential truncated after degree p. This holds for monopoles and for dipoles with any axis, also on the polar axis through the centre and in the centre itself, and contributions of several sources add up.',
     ['inputs'], 'expansion order up to 8; sources at distance 1e-6 to 1 from the centre in every direction, on the axis and in the centre; dipole axes of length 0.5 to 2; evaluation points at distance 0.8 to 1e4 in every direction and on the axis',
     'The existing tests use one source and a few evaluation points; a coefficient that is wrong for some directions or degrees changes the result by less than the test tolerance.',
     ['source/multipole_expansion.cc', 'include/multipole_expansion.h', 'source/ass_leg_function.cc'],
     [('adding monopoles and dipoles', 'source/multipole_expansion.cc: MultipoleExpansion::Add, AddNormDer'), ('evaluation', 'source/multipole_expansion.cc: MultipoleExpansion::Evaluate')],
     ['the evaluated potential'],
     claimed=REAL + 'Bounds as quantified; tolerance 2e-7.')

prop('M04', 'Moving a multipole expansion to a new centre is the exact translation',
     'Adding a multipole expansion of order p to one centred elsewhere gives, for all coefficients up to degree p, exactly the coefficients the combined source distribution has about the new centre. When the centres coincide the coefficients are simply added.',
     ['inputs'], 'every coefficient of both expansions in [-1,1], centre shifts of length 2e-7 to 1e4 in every direction and along the axis, and shorter ones, order up to 8 or 10',
     'Translation mixes all coefficients; the existing test checks one source with one shift, which leaves most of the mixing matrix untested.',
     ['source/multipole_expansion.cc'], [('multipole recentring', 'source/multipole_expansion.cc: MultipoleExpansion::Add(const MultipoleExpansion&)')], ['coefficients of the target expansion'],
     claimed=REAL + 'Bounds as quantified; tolerance 1e-7 per coefficient.')

prop('X05', 'Converting a multipole to a local expansion is the exact conversion',
     'For two separated centres, adding a multipole expansion of order p to a local expansion adds exactly the truncated Taylor (local) coefficients of the field of that multipole expansion about the second centre. The conversion is linear in the multipole coefficients and keeps what the local expansion already holds.',
     ['inputs'], 'every coefficient of both expansions in [-1,1], centres at distance 1e-3 to 1e4 in every direction, order up to 8 or 10',
     'The conversion table has thousands of entries; the tests convert one expansion along one direction.',
     ['source/local_expansion.cc', 'source/local_expansion_coeff.cc'], [('multipole to local conversion', 'source/local_expansion.cc: LocalExpansion::Add(const MultipoleExpansion&)'), ('conversion coefficients', 'source/local_expansion_coeff.cc')], ['coefficients of the local expansion'],
     claimed=REAL + 'Bounds as quantified; tolerance 1e-5 per coefficient.')

prop('X06', 'Local expansions evaluate and recentre exactly',
     'A local expansion evaluated at any point, including its centre and the polar axis, gives the value of the harmonic polynomial its coefficients describe. Adding it to a local expansion with another centre gives the exact Taylor shift, so that both evaluate to the same value, and coincident centres add coefficients.',
     ['inputs'], 'every coefficient in [-1,1], centre shifts of length 2e-7 to 1e4 in every direction and along the axis, and shorter ones, evaluation points at distance 1e-6 to 1 and on the axis and in the centre',
     'The existing test shifts one expansion and evaluates at one point.',
     ['source/local_expansion.cc', 'source/local_expansion_coeff.cc'], [('evaluation', 'source/local_expansion.cc: LocalExpansion::Evaluate'), ('recentring', 'source/local_expansion.cc: LocalExpansion::Add(const LocalExpansion&)')], ['evaluated value', 'coefficients'],
     claimed=REAL + 'Bounds as quantified; tolerance 1e-7.')

prop('C07', 'Expansions and conversion tables copy by value',
     'A copied or assigned expansion or conversion table holds exactly the coefficients, centre, order and empty-flag of its source, and afterwards neither side changes when the other is modified or destroyed. This holds for targets of any previous size, for default-constructed sources and targets and for assignment to itself; adding raw coefficients adds each one to the coefficient of the same degree and order, and the result no longer counts as empty.',
     ['inputs', 'histories'], 'all coefficient values; copies and assignments between expansions of different orders, empty ones and the same object, followed by modification of either side',
     'The existing copy tests compare one pair of expansions once; aliasing shows only when one side is changed afterwards, and order mismatch only for particular sequences.',
     ['source/multipole_expansion.cc', 'source/local_expansion.cc', 'source/local_expansion_coeff.cc'], [('copying', 'source/multipole_expansion.cc, source/local_expansion.cc: copy constructor and operator='), ('conversion table', 'source/local_expansion_coeff.cc'), ('raw coefficients', 'source/local_expansion.cc: LocalExpansion::Add(real, imag)')], ['coefficients, centres and flags of all objects'],
     claimed='Exact (equality of data flow) for all coefficient values, orders up to 4 (quick) or 6, and the enumerated copy sequences; other sequences are outside.')

prop('O08', 'An octree block returns exactly what was put into it',
     'Every corner, size, parent, node, cell/quadrature-point entry, child, near neighbour and (non-)interaction-list entry stored in an octree block is returned unchanged, in order and at the level it was stored for, with matching counts. Copies of a block into a fresh one are complete and independent of the original.',
     ['inputs', 'histories'], 'all ids and coordinates; blocks filled with nodes, quadrature points on several cells, children and lists on several levels, then copied and modified',
     'No test touches blocks directly; in a full run a dropped entry only changes accuracy.',
     ['source/octree_block.cc', 'include/octree_block.h'], [('block records', 'source/octree_block.cc: OctreeBlock')], ['accessors of the block'],
     claimed='Exact for all ids and coordinates over the enumerated fill/copy sequence.')

prop('B12', 'Assembled matrices are the collocation integrals',
     'Each entry of the two dense matrices is, for its collocation node and basis function, the sum over all cells and all points of that cell\'s quadrature rule of kernel times basis function times weight; the double layer uses the gradient kernel times the normal at that point. The regular rule is the one chosen by the user; on cells that contain the node or one of its double nodes the rule made for the singularity at exactly that node of the cell is used. Assembling again, or after another problem with another element or order, gives the same matrices.',
     ['inputs', 'histories', 'configurations'], 'all quadrature weights and normals on meshes with shared and double nodes, in the plane and in space, several element degrees and quadrature orders, repeated assembly, a previous problem with other settings',
     'No existing test runs the assembly; a wrong pairing of node, basis function and point is small on smooth geometry and may cancel on symmetric meshes.',
     ['source/bem_problem.cc', 'include/laplace_kernel.h'], [('assembly', 'source/bem_problem.cc: BEMProblem::assemble_system'), ('singular rule', 'source/bem_problem.cc: BEMProblem::get_singular_quadrature')], ['the two matrices'],
     claimed=REAL + 'Bounds: two fixed meshes (5 quadrilaterals, 6 segments), listed degrees and orders; all weights in [0.1,2] and normal components in [-2,2]; positions and shape functions are those of deal.II on these meshes.')

prop('B13', 'The solid angle coefficients make constants exact',
     'For every mesh and every state of the problem, compute_alpha sets the coefficient of each collocation node to minus the sum of that node\'s row of the double layer matrix, so that a constant potential with zero normal derivative satisfies the discrete boundary equation. The result is the same for the direct and the fast method (with the fast product standing for the matrix) and does not depend on earlier values or calls.',
     ['inputs', 'histories'], 'all matrix entries, all previous coefficient values, repeated calls, both methods',
     'No existing test runs the boundary element solver; one run with one geometry would see only geometric matrices.',
     ['source/bem_problem.cc'], [('solid angles', 'source/bem_problem.cc: BEMProblem::compute_alpha')], ['alpha'],
     claimed=REAL + 'Bounds: 8 unknowns with arbitrary real matrix entries; the fast product is replaced by arbitrary near and far matrices.')

prop('B14', 'Operator and right-hand side are the two halves of the boundary equation',
     'For any vector the system operator returns (solid angle + double layer) applied to its entries on Neumann nodes minus the single layer applied to its entries on Dirichlet nodes, and the right-hand side routine returns minus the (solid angle + double layer) applied to the entries on Dirichlet nodes plus the single layer applied to those on Neumann nodes. So the boundary equation holds for a pair of potential and normal derivative exactly when the operator on the unknown half equals the right-hand side of the known half. Both give this result for the direct and the fast method, leave their argument unchanged and do not depend on earlier calls or on what the result vector held before.',
     ['inputs', 'histories'], 'all matrices, vectors, solid angles and node classifications; repeated calls; direct and fast method; with and without Dirichlet boundary',
     'No existing test runs the boundary element solver; sign and classification errors cancel or are hidden for particular data.',
     ['source/bem_problem.cc'], [('operator', 'source/bem_problem.cc: BEMProblem::vmult'), ('right-hand side', 'source/bem_problem.cc: BEMProblem::compute_rhs')], ['result vectors'],
     claimed=REAL + 'Bounds: 8 unknowns with arbitrary real entries everywhere; the fast product is replaced by arbitrary near and far matrices; one process.')

prop('B16', 'Unknowns that share a position get consistent constraints',
     'Where several unknowns lie at one position (edges and corners between faces), the constraints make them agree. If one of them is on a Dirichlet face, every Neumann one takes the prescribed potential; if none is, all take the potential of the first. Two Dirichlet ones on a flat edge share the normal derivative; on a sharp edge with the continuous-gradient option both normal derivatives are the ones of a single gradient vector, namely the one whose tangential parts are the two surface gradients; without that option they stay free. No other unknown is constrained, and repeated computation gives the same constraints.',
     ['inputs', 'configurations'], 'all boundary data, all normals and gradients at the shared position, all Dirichlet/Neumann combinations of three faces meeting in a corner, option on and off, repeated computation',
     'No existing test runs the boundary element solver; the rules depend on the combination at each node and on the angle of the edge.',
     ['source/bem_problem.cc'], [('constraints', 'source/bem_problem.cc: BEMProblem::compute_constraints'), ('double nodes', 'source/bem_problem.cc: BEMProblem::compute_double_nodes_set')], ['the constraint lines'],
     claimed=REAL + 'Bounds: 12 unknowns on three cube faces, all 8 Dirichlet patterns; sharp edges with sine of the angle between normals >= 0.05, flat ones up to 2e-5 per component; surface gradients arbitrary (their computation is replaced).')

prop('B17', 'Whatever the linear solver returns is read as the discrete solution',
     'For any vector returned by the linear solver, the residual of the system given to it is, at every unconstrained node, exactly the residual of the discrete boundary integral equation for the potential and normal derivative handed back to the caller, with the solid angle that makes constants exact, and at every constrained node the residual of the continuity condition. The potential is updated on Neumann nodes only and the normal derivative on Dirichlet nodes only. This holds for the direct and the fast method and for every solve of a sequence.',
     ['inputs', 'histories', 'configurations'], 'all matrices, boundary data, solver answers and previous contents of the vectors, several Dirichlet patterns of three faces, direct and fast method, first and repeated solve',
     'No existing test runs the boundary element solver; with a fixed geometry only one right-hand side is seen and solver tolerance hides small inconsistencies.',
     ['source/bem_problem.cc', 'include/constrained_matrix.h'], [('assembly of a solve', 'source/bem_problem.cc: BEMProblem::solve_system'), ('constrained operator', 'include/constrained_matrix.h: ConstrainedOperator')], ['potential and normal derivative vectors', 'operator and right-hand side handed to the solver'],
     claimed=REAL + 'Bounds: 12 unknowns on three cube faces; the iterative solver is replaced by one that returns an arbitrary vector, matrices and the fast product are arbitrary.')

prop('F11', 'The fast product is the dense product over any octree',
     'For any potential and normal derivative densities and any quadrature weights, on any admissible mesh and for any octree depth and block size, the fast method counts every pair of node and quadrature point exactly once: with exact expansions its two products equal, at every node, the single and double layer sums over all cells, with the singular rule on the cells that contain the node or a node at the same place. Expansions are exchanged and evaluated only between boxes that do not touch, so the truncated series converge. Nothing that the object or the result vectors held before has an effect.',
     ['inputs', 'histories', 'configurations'], 'all densities, quadrature weights and previous contents, meshes with clusters and coarse and fine cells side by side, octree depths 1 to 10, 1 to 20 nodes per block, element degrees 1 to 3, fresh and reused objects',
     'The tests of the fast method use one nearly uniform mesh and one density with a tolerance for truncation that hides missing or doubled pairs.',
     ['source/bem_fma.cc', 'source/octree_block.cc'], [('octree and its lists', 'source/bem_fma.cc: BEMFMA::generate_octree_blocking'), ('near field', 'source/bem_fma.cc: BEMFMA::direct_integrals'), ('far field', 'source/bem_fma.cc: BEMFMA::multipole_integrals, generate_multipole_expansions, multipole_matr_vect_products')], ['result vectors of the fast product'],
     claimed=REAL + 'Bounds: meshes of 8 to 24 quadrilaterals; the expansions are replaced by exact sums over their sources (their truncated forms are the subject of M03, M04, X05, X06); positions are those of the listed meshes; one process.')

prop('B18', 'Recovered normals, gradients and surface gradients are projections of the known data',
     'For any potential and normal derivative, the recovery routines hand to the linear solver the mass system of the vector finite element with, as right-hand side, the unit normal, the full gradient (surface gradient plus normal derivative times normal, each taken at the quadrature point) or the surface gradient, weighted with the quadrature; whatever the solver returns is the result, made conforming at hanging nodes, and nothing computed earlier has an effect.',
     ['inputs', 'histories', 'configurations'], 'all potentials, normal derivatives, normals, quadrature weights and solver answers, conforming and locally refined warped meshes, degrees 1 and 2, first and repeated call',
     'The tests of the recovery use one linear potential on flat geometry, where the normal is constant on each cell, and no locally refined mesh.',
     ['source/bem_problem.cc'], [('gradient recovery', 'source/bem_problem.cc: BEMProblem::compute_gradients'), ('surface gradients', 'source/bem_problem.cc: BEMProblem::compute_surface_gradients'), ('normals', 'source/bem_problem.cc: BEMProblem::compute_normals')], ['vector solutions', 'systems handed to the solver'],
     claimed=REAL + 'Bounds: two faces meeting at an edge, a warped strip with one refined cell; degrees 1 and 2, up to 16 quadrature points; the iterative solver is replaced by one that returns an arbitrary vector; interpolation and hanging-node condensation of deal.II are modelled and checked against the library.')

prop('S24', 'The geometry solved on is the mesh, stretched along the axes asked for',
     'For any axes of a spheroid, after every set-up of the problem (the first one, after global or local refinement, repeated) and for every element degree, each position unknown of the geometry is the corresponding coordinate of the mesh multiplied by the axis of that coordinate, hanging nodes lie on the coarser edge, and without a spheroid the mesh is used as it is.',
     ['inputs', 'histories', 'configurations'], 'all axes, degrees 1 to 3, conforming and locally refined meshes on flat and spherical manifolds, sequences of set-ups and refinements',
     'No test uses a spheroid; with equal axes and one set-up wrong axes and lost scaling do not show.',
     ['source/bem_problem.cc'], [('position vector', 'source/bem_problem.cc: BEMProblem::reinit')], ['position vector of the mapping'],
     claimed=REAL + 'Bounds: meshes of two to twenty cells, sequences of up to five set-ups and refinements; the mapping through a position field only; one process.')

prop('D25', 'Every node gets the boundary datum of its kind',
     'For any material ids, lists of Dirichlet and Neumann ids, potential and wind functions: a node belonging to a cell of a Dirichlet id is a Dirichlet node, every other node a Neumann node. The boundary data handed to the solver are the potential at the position of a Dirichlet node, the wind times the unit normal at a node of a listed Neumann cell, and zero at nodes of cells in neither list; the initial potential and normal derivative hold the same data. When there is no Dirichlet node the potential is shifted by one constant so that the first node has the prescribed value. Repeated solves give the data again, whatever the solver left behind.',
     ['inputs', 'histories', 'configurations'], 'all combinations of material ids and id lists, all function values, normals and solver answers, cells sharing nodes or meeting in double nodes, repeated solves',
     'The tests use one assignment of ids; which of two neighbouring cells comes last, overlapping lists and repeated solves are not tried.',
     ['source/boundary_conditions.cc', 'source/bem_problem.cc'], [('data', 'source/boundary_conditions.cc: BoundaryConditions::prepare_bem_vectors'), ('solve', 'source/boundary_conditions.cc: BoundaryConditions::solve_problem'), ('classification', 'source/bem_problem.cc: BEMProblem::compute_dirichlet_and_neumann_dofs_vectors')], ['right-hand side, initial vectors and classification as seen by the solver, final vectors'],
     claimed=REAL + 'Bounds: two cells meeting at an edge or sharing one, up to three ids per list, ids in [0,6], degrees 1 to 3, up to two solves; solver and normal recovery replaced by ones that return arbitrary vectors; one process.')

prop('R26', 'Reported errors and result files are those of the solution',
     'For any solution, normals, gradient and prescribed functions: the nodal errors of potential, normal derivative and gradient are solution minus prescribed value at that node (the normal derivative against wind times unit normal), the values printed as nodal maxima and as surface norms are the norms of exactly these errors, the gradient is recovered from the solution being judged, and the error and result files hold each field under its name, node by node, vectors as vectors. The numbers of cells and unknowns printed are those of the problem. The same holds on a second call.',
     ['inputs', 'histories', 'configurations'], 'all solutions, gradients, normals, solid angles and function values; degrees 1 to 3; connected and double nodes; repeated calls',
     'The tests compare no reported error and read no result file.',
     ['source/boundary_conditions.cc'], [('errors', 'source/boundary_conditions.cc: BoundaryConditions::compute_errors'), ('result files', 'source/boundary_conditions.cc: BoundaryConditions::output_results')], ['printed values, vectors handed to the integration and to the file writer, files'],
     claimed=REAL + 'Bounds: two cells meeting at an edge or sharing one, degrees 1 to 3, up to two calls; surface integrals replaced by arbitrary ones, gradient recovery by an arbitrary one; one process, in space.')

prop('P20', 'The preconditioner is built from the system being solved',
     'For any assembled matrices, solid angles, boundary kinds and constraints, and in every solve of a sequence: each stored entry of the matrix handed to the incomplete factorisation is the entry of the operator of that solve. On unconstrained rows it is the double layer for columns whose unknown is the potential, minus the single layer for columns whose unknown is the normal derivative, plus the solid angle on the diagonal of Neumann nodes; for the fast method the near part of these. A constrained row has one on its diagonal, and elsewhere zero or minus the coefficient of the constraint. The matrix factorised is the one the iteration uses.',
     ['inputs', 'histories', 'configurations'], 'all matrix entries, quadrature weights, solid angles and constraint coefficients; boundary patterns; octrees; repeated solves',
     'A wrong preconditioner only costs iterations (or convergence on larger problems), which no test counts.',
     ['source/bem_problem.cc', 'source/bem_fma.cc'], [('direct method', 'source/bem_problem.cc: BEMProblem::assemble_preconditioner'), ('fast method', 'source/bem_fma.cc: BEMFMA::FMA_preconditioner, direct_integrals')], ['matrix given to the factorisation, object given to the iteration'],
     claimed=REAL + 'Bounds: direct method with 12 unknowns on three cube faces; fast method on meshes of 8 to 24 quadrilaterals with the octrees listed by the check; the iterative solver replaced by one that returns an arbitrary vector; one process.')

for a in ((
  'Z90', 'Results do not depend on the number of processes', 'For every number of MPI processes and every partition of the mesh, the computed potential, its normal derivative and gradient are the same up to solver tolerance.', ['schedules', 'configurations'], 'all process counts and partitions',
  'the tests run on one process only', ['source/bem_problem.cc', 'source/computational_domain.cc'], [('distribution of unknowns', 'source/bem_problem.cc: reinit')],
  'Deciding it symbolically needs an encoding of the MPI library and of Trilinos\' distributed containers exchanging messages between processes; the executor follows one process and treats both libraries as unencoded, so no verdict over process counts is within reach.'),
 ('Z91', 'The iterative solve meets its tolerance', 'Whenever the solver reports success, the returned vector satisfies the linear system within the requested tolerance.', ['inputs'], 'all systems',
  'the tests solve a few systems', ['source/bem_problem.cc'], [('solve', 'source/bem_problem.cc: solve_system')],
  'The iteration is deal.II and Trilinos library code with data-dependent length (restarted Krylov method); unrolling it symbolically for even a handful of unknowns gives nested rational functions no solver decides. The operator it is given is covered by other properties.'),
 ('Z92', 'The discrete solution converges under mesh refinement', 'For smooth solutions the error of potential and gradient decreases with the order of the element as the mesh is refined.', ['inputs'], 'all smooth solutions and all meshes',
  'tests use one mesh', ['source/driver.cc', 'source/boundary_conditions.cc'], [('driver', 'source/driver.cc')],
  'An asymptotic statement over unboundedly many mesh sizes; no bounded encoding settles it.'),
 ('Z93', 'CAD surfaces and mesh files are imported faithfully', 'Every supported mesh or CAD file yields a surface mesh whose vertices lie on the described geometry.', ['inputs'], 'all input files',
  'tests read a few files', ['source/computational_domain.cc'], [('reading', 'source/computational_domain.cc: read_domain, read_cad_files')],
  'File parsing is done by deal.II and OpenCASCADE; neither can be encoded within reach, and pi-BEM adds only calls to them.')):
    prop(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], na=a[8])
