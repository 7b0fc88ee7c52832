TESTS = "The existing tests sample a handful of fixed meshes and values"

prop("C01", "h-refinement keeps an exact hierarchical tiling of the domain",
 "After any history of h-refinements (whole-mesh or selective, isotropic, anisotropic or extended, to any depth) the children of every refined element tile it exactly in their documented positions and order, so that the unrefined elements cover the base mesh once without gap or overlap, each with the material of its base element. "
 "Parent and child links, the refinement levels per direction, and every element's reported position within each of its ancestors agree with that geometry. "
 "The corner-point, ancestor and descendant queries of the mesh return exactly what the tiling implies.",
 ["histories", "inputs"], "all base grids (element counts, sizes, positions) and all sequences of accepted h-refinements",
 TESTS + ": one- to four-element meshes with one or two refinements; geometry after long mixed histories is not looked at",
 [D + "mesh.rs", D + "mesh/elem.rs", D + "mesh/h_refinement.rs", D + "mesh/element.rs"],
 [("Elem::h_refine and the child ids/points it makes", D + "mesh/elem.rs"), ("Mesh::execute_h_refinements", D + "mesh.rs"), ("HRefLoc: sub-ranges and child positions", D + "mesh/h_refinement.rs"), ("Element::parametric_projection", D + "mesh/element.rs")],
 ["elements, nodes and query results of the public mesh after each history"],
 "model-based property testing: random refinement histories against an independent reference mesh",
 "explores thousands of random histories per run; coordinates are compared to 8e-13 of the largest coordinate",
 [("Elem.parent/children/loc_stack", "the refinement tree and positions in it")])

prop("C02", "Edges and nodes of a refined mesh are unique and consistently connected",
 "After any history of h-refinements there is exactly one node per distinct corner position and exactly one edge per distinct side segment of the elements in the tree, shared by all elements that have that corner or side. "
 "Each element lists its four corners and four sides in the documented order; each edge has its end nodes in order, the right direction and boundary flag, the right element on each side at each refinement level, and the right parent and child edges; each node has the right boundary flag and the right elements around it. "
 "The edge-point and edge-descendant queries agree with this.",
 ["histories", "inputs"], "all base grids and all sequences of accepted h-refinements, in particular neighbours refined in different orders and directions",
 TESTS + "; sharing of edges and nodes between neighbours that were refined at different times and in different directions depends on the whole history",
 [D + "mesh.rs", D + "mesh/edge.rs", D + "mesh/node.rs", D + "mesh/elem.rs"],
 [("Edge::h_refine / connection of elems to edges", D + "mesh/edge.rs"), ("node lookup by position", D + "mesh.rs"), ("Node::connect_elem", D + "mesh/node.rs")],
 ["edges, nodes and their links in the public mesh"],
 "model-based property testing: random refinement histories against an independent reference mesh",
 "explores thousands of random histories per run",
 [("Edge.elems, Edge.children, Node.elems", "incidence")])

prop("C03", "h-refinement requests are judged, combined and applied exactly as specified",
 "A batch of h-refinement requests on existing, unrefined, large enough elements is applied so that each named element is refined exactly once by the combination of its requests, where combining two requests gives the smallest refinement containing both, in either order. "
 "A batch that names an element that does not exist, is already refined or would get sides below the minimum length, or that has an invalid extension, is refused with the error that names the offending element or extension, and the mesh stays exactly as it was. "
 "The whole-mesh and filter forms do to the selected unrefined elements exactly what the listed form does.",
 ["histories", "inputs"], "all meshes and all sequences of batches, valid and invalid, with repeated targets",
 TESTS + ": single valid requests and one request of each invalid kind; combinations, orders and partial failures are not sampled",
 [D + "mesh.rs", D + "mesh/h_refinement.rs"],
 [("Mesh::execute_h_refinements", D + "mesh.rs"), ("HRef addition", D + "mesh/h_refinement.rs"), ("Mesh::elem_is_h_refineable", D + "mesh.rs")],
 ["the Result of the request and the mesh after it"],
 "model-based property testing of request histories, and algebraic laws of combination",
 "refusals are checked against a full snapshot of the mesh")

prop("C04", "Expansion orders follow p-refinements exactly and never leave their bounds",
 "Every order-changing request (global, selected, filtered; setting an order or adding a delta; one or many targets) changes the orders of exactly the named elements by exactly the requested amounts, with repeated relative requests summed per element; h-refined elements hand their orders to their children. "
 "Orders are never outside 1 to 20: a request that would leave that range or names a missing element is refused with the corresponding error and changes nothing, and the window reported for an element is exactly the set of deltas that would be accepted. "
 "Arithmetic on p-refinements (sums, clamping to bounds) is that of integers over the whole range of values.",
 ["histories", "inputs"], "all meshes, all sequences of p- and h-refinements, all deltas and orders of the argument types",
 TESTS + ": a few deltas within range; sums over many requests, extremes and failures half-way are not reached",
 [D + "mesh.rs", D + "mesh/p_refinement.rs", D + "mesh/elem.rs"],
 [("PolyOrders::refine, PRef addition and constraint", D + "mesh/p_refinement.rs"), ("Mesh::execute_p_refinements and the other order interfaces", D + "mesh.rs")],
 ["the Result of the request, orders of all elements, maximum orders of the mesh"],
 "model-based property testing of order-change histories, and algebraic laws",
 "refusals are checked against a full snapshot of the mesh")

prop("C05", "Edge activation picks one matching element pair for every interior interface",
 "After edge activation an edge is active exactly if it is an interior edge with an element on each side that both have it as a full side and no ancestor-level or descendant-level edge was chosen in its place; then it names the deepest element with that side on either side. "
 "Consequently every interior interface between unrefined elements is covered by exactly one active edge, active edges never overlap, boundary edges are never active, and repeating the activation or refining and activating again gives the same result as activating once at the end.",
 ["histories", "inputs"], "all base grids and refinement histories, with activation at any points of the history",
 TESTS + "; which edge of a nested family must carry the shared functions depends on the refinement history of both neighbours",
 [D + "mesh.rs", D + "mesh/edge.rs"],
 [("Mesh::set_edge_activation", D + "mesh.rs"), ("Edge::set_activation / reset_activation", D + "mesh/edge.rs")],
 ["active elements of each edge of the public mesh and of the domain"],
 "model-based property testing plus a coverage invariant over all interfaces",
 "explores thousands of random histories per run")

prop("C06", "A domain has exactly the degrees of freedom of the hierarchical H(curl) space",
 "For every mesh, the domain built from it has, per element, all and only the functions that its orders, its refinement state and its active sides call for, paired across each active edge into one degree of freedom per order common to both sides. "
 "Every function belongs to exactly one degree of freedom; degree-of-freedom and function ids are dense, unique and mutually consistent, and the counts, addresses, locations and per-element listings (own, of descendants, of ancestors) agree with one another.",
 ["inputs", "histories"], "all meshes reached by hp-refinement histories",
 TESTS + ": totals for two meshes; the make-up of the set for mixed orders and hanging nodes is not checked",
 ["src/fem_domain/domain.rs", D + "dof.rs", D + "dof/basis_spec.rs"],
 [("Domain::from_mesh: collection, sorting and pairing of basis specs", "src/fem_domain/domain.rs"), ("BasisSpec and BasisLoc", D + "dof/basis_spec.rs")],
 ["dofs and basis specs of the public domain, and its per-element queries"],
 "property testing against an independently computed set of functions",
 "the expected set is computed from the reference mesh only")

prop("C07", "Every degree of freedom is tangentially continuous and zero on the boundary",
 "For every hp-refined mesh, the field of each single degree of freedom has the same tangential component on both sides of every interface between unrefined elements, and zero tangential component on the outer boundary. "
 "The same holds for the field the library evaluates for any coefficient vector.",
 ["inputs", "histories"], "all meshes reached by hp-refinement histories, all degrees of freedom, all coefficient vectors",
 TESTS + "; conformity has to hold along every interface of every mesh for every function",
 ["src/fem_domain/domain.rs", "src/fem_domain/basis.rs", "src/fem_domain/basis/hierarchical_basis_fns.rs", D + "fields.rs"],
 [("pairing of edge functions", "src/fem_domain/domain.rs"), ("shape functions and their scaling", "src/fem_domain/basis.rs"), ("edge activation", D + "mesh/edge.rs")],
 ["values of the library's basis functions on both sides of each interface; field samples"],
 "property testing of an invariant over all interfaces",
 "jumps up to 1e-11 of the size of the functions count as rounding")

prop("C08", "The mass matrix holds the exact inner products of the basis functions",
 "For every hp-refined mesh and real material constants, each entry of the assembled mass matrix is, to rounding, the integral over the domain of permittivity times the dot product of the two basis functions, whatever the refinement levels, sizes and aspect ratios of the elements they belong to. "
 "The matrix is symmetric, and no entry that should be non-zero is missing.",
 ["inputs", "histories"], "all meshes, orders and positive real materials, with enough quadrature points",
 TESTS + ": a few eigenvalues and symmetric pairs; entries between different levels of a refinement are never compared with the true integral",
 [P + "galerkin.rs", P + "integration/integrals.rs", "src/fem_domain/basis.rs", "src/fem_domain/basis/hierarchical_basis_fns.rs"],
 [("galerkin_sample_gep_hcurl", P + "galerkin.rs"), ("L2Inner", P + "integration/integrals.rs"), ("HierCurlBasisFn::defined_over and its Jacobian/quadrature scales", "src/fem_domain/basis.rs")],
 ["the B matrix of the eigenproblem"],
 "property testing against an exact integration model (closed-form polynomials)",
 "entries are compared to 1e-10 of the geometric mean of the two diagonal entries")

prop("C09", "The stiffness matrix holds the exact curl-curl products of the basis functions",
 "For every hp-refined mesh and real material constants, each entry of the assembled stiffness matrix is, to rounding, the integral over the domain of the inverse permeability times the product of the curls of the two basis functions, whatever the refinement levels, sizes and aspect ratios of the elements they belong to. "
 "The matrix is symmetric, and no entry that should be non-zero is missing.",
 ["inputs", "histories"], "all meshes, orders and positive real materials, with enough quadrature points",
 TESTS + ": a few eigenvalues and symmetric pairs; entries between different levels of a refinement are never compared with the true integral",
 [P + "galerkin.rs", P + "integration/integrals.rs", "src/fem_domain/basis.rs", "src/fem_domain/basis/hierarchical_basis_fns.rs"],
 [("galerkin_sample_gep_hcurl", P + "galerkin.rs"), ("CurlCurl", P + "integration/integrals.rs"), ("derivatives in HierCurlBasisFn", "src/fem_domain/basis.rs")],
 ["the A matrix of the eigenproblem"],
 "property testing against an exact integration model (closed-form polynomials)",
 "entries are compared to 1e-10 of the geometric mean of the two diagonal entries")

prop("C10", "Assembly does not depend on threads or surplus quadrature, and is definite",
 "For every mesh the assembled pair of matrices is the same, up to rounding, for every number of worker threads and for every number of quadrature points (default or given per direction) that integrates the orders in use exactly. "
 "The mass matrix is positive definite and the stiffness matrix positive semidefinite.",
 ["schedules", "inputs", "configurations"], "all meshes and orders, thread-pool sizes and interleavings, numbers of quadrature points",
 TESTS + " on the default thread pool with one number of points",
 [P + "galerkin.rs", P + "linalg.rs", P + "linalg/sparse_matrix.rs", "src/fem_domain/basis.rs"],
 [("parallel extension of the matrix pair", P + "linalg.rs"), ("sampler cache", "src/fem_domain/basis.rs"), ("consume_matrix", P + "linalg/sparse_matrix.rs")],
 ["both matrices of the eigenproblem"],
 "metamorphic property testing over thread-pool sizes and quadrature settings",
 "interleavings are those the thread pool produces, not enumerated")

prop("C11", "The assembled eigenproblem has the spectrum of the physical cavity",
 "For every hp-refined mesh of a rectangular region with one material, the exact generalised eigenvalues of the assembled pair are: zero, with multiplicity exactly the dimension of the discrete gradient space of the mesh, and otherwise approximations of the analytic resonances (m*pi/a)^2+(n*pi/b)^2 over permittivity times permeability with the right multiplicity. "
 "There are no spurious values below the resolved range, and the error has the size that the element size and order allow. On grids without hanging nodes and with the same orders everywhere the whole spectrum is that of the product of the two line problems, so that no resonance is approached from below.",
 ["inputs", "histories"], "all rectangles, materials, grids, and hp-refinements in which refined elements have at most the orders of their descendants",
 TESTS + ": one or two cavities with one refinement each, and a single eigenvalue",
 [P + "galerkin.rs", P + "integration/integrals.rs", "src/fem_domain/domain.rs", "src/fem_domain/basis.rs"],
 [("galerkin_sample_gep_hcurl with CurlCurl and L2Inner", P + "galerkin.rs"), ("H(curl) continuity", "src/fem_domain/domain.rs")],
 ["both matrices of the eigenproblem, solved with an independent dense eigensolver"],
 "property testing against analytic resonances and a topological count of zero modes",
 "resonance errors allowed: 4e-2, 4e-4, 1e-4 at lowest order 3, 4, 5, with the rate in the element size")

prop("C12", "The dense eigensolver returns a true eigenpair, or the right error",
 "For every pair of real symmetric matrices with a positive definite second one, the dense eigensolver returns an eigenpair of the generalised problem, the one whose value is nearest to the requested target, with a vector of the problem's dimension that normalises to unit length. "
 "A problem larger than the documented limit, a second matrix that is not positive definite, and a problem with only zero eigenvalues are refused, each with its own error.",
 ["inputs"], "all symmetric pairs up to the size limit, all targets",
 TESTS + ": one problem, with a value that is not an eigenvalue of it (see the known finding)",
 [P + "linalg/nalgebra_solve.rs", P + "linalg.rs"],
 [("nalgebra_solve_gep", P + "linalg/nalgebra_solve.rs"), ("EigenPair::normalized_eigenvector", P + "linalg.rs")],
 ["the returned eigenpair or error"],
 "property testing against an independent generalised eigensolver",
 "strict on pairs whose quotient is symmetric; on others the solver has a known defect, and any outcome other than the right one or exactly that of the defect is reported")

prop("C13", "The external-solver bridge returns its solution or an error, and cleans up",
 "For every matrix pair and target, the external solver is started once in its configured directory with files that hold the two matrices exactly and the target value, and the eigenpair it writes is returned bit for bit. "
 "Every failure (missing setting, missing program, each documented exit code, missing, truncated or malformed result files) is returned as an error, with the documented meaning of the exit code, and never as a panic or a solution. "
 "On every one of these paths all files of the call are removed and no other file is touched, also when several calls run at once.",
 ["fault_sequences", "inputs", "schedules"], "all matrix pairs, targets, exit codes, contents of the result files, and concurrent calls",
 "the one existing test needs the real solver and cannot run here; no failure path is exercised",
 [P + "linalg/slepc_solve.rs", P + "linalg/sparse_matrix.rs", P + "linalg.rs"],
 [("slepc_solve_gep", P + "linalg/slepc_solve.rs"), ("PETSc file writer", P + "linalg/sparse_matrix.rs")],
 ["the returned value or error; the command line, the files the stand-in solver sees, and the directory afterwards"],
 "fault-injecting property testing with a recording stand-in for the solver program",
 "the real solver is not installed; a stand-in named mpiexec plays it")

prop("C14", "Exported matrix files hold exactly the matrices, in PETSc binary layout",
 "For every symmetric sparse matrix, the exported file is a well-formed PETSc binary matrix (magic number, dimensions, row lengths, ascending column indices, big-endian values) that holds every stored entry and its mirror image bit for bit (the sign of a zero and the payload of a NaN aside) and nothing else. "
 "The pair of files of an eigenproblem is written under the given directory and prefix, and leaves other files alone. A file that cannot be written, or not completely, is an error.",
 ["inputs"], "all dimensions, sparsity patterns and floating-point values",
 "the existing test checks one small matrix",
 [P + "linalg/sparse_matrix.rs", P + "linalg.rs"],
 [("AIJMatrixBinary", P + "linalg/sparse_matrix.rs"), ("GEP::print_to_petsc_binary_files", P + "linalg.rs")],
 ["the bytes of the files"],
 "round-trip property testing with an independent reader",
 "explores thousands of matrices per run")

prop("C15", "The sparse matrix behaves like the dense symmetric matrix it stands for",
 "For every sequence of insertions, group insertions and additions of other matrices, in any order and on either side of the diagonal, the sparse matrix equals the dense symmetric matrix in which each insertion at (i, j) adds once to the pair of positions (i, j) and (j, i). "
 "The count and enumeration of stored entries, and the conversions to dense form, single or as an eigenproblem, agree with it, also when pairs of matrices are accumulated in parallel. "
 "Positions outside the matrix and matrices of another dimension are refused by a panic.",
 ["histories", "inputs", "schedules"], "all dimensions and operation sequences; all ways of splitting an accumulation over threads",
 TESTS + ": one 4 by 4 matrix",
 [P + "linalg/sparse_matrix.rs", P + "linalg.rs"],
 [("SparseMatrix::insert/insert_group/consume_matrix", P + "linalg/sparse_matrix.rs"), ("ParallelExtend for GEP", P + "linalg.rs")],
 ["entries, counts and dense conversions"],
 "stateful model-based property testing against a dense model",
 "values are chosen so that sums are exact")

prop("C16", "Evaluated fields are the expansion of the solution at the sampled points",
 "For every mesh, coefficient vector and pair of sampling densities, the field quantities evaluated over the unrefined elements equal, to rounding, the sum over all degrees of freedom of coefficient times basis function at the corresponding points, including functions of coarser elements above the sampled one. "
 "The result is linear in the coefficient vector, and a vector of the wrong length is refused with an error that gives both lengths.",
 ["inputs", "histories"], "all hp-refined meshes, coefficient vectors and densities of at least two points per direction",
 TESTS + ": no values of evaluated fields are checked",
 [D + "fields.rs", "src/fem_domain/basis.rs"],
 [("UniformFieldSpace::xy_fields", D + "fields.rs"), ("HierCurlBasisFn::mapped_uniform / defined_over", "src/fem_domain/basis.rs")],
 ["field quantities, read back through the printed file"],
 "property testing against a direct evaluation of the expansion",
 "values are compared to 1e-9 of the size of the field")

prop("C17", "Derived quantities and VTK files are exactly what was asked for",
 "Derived quantities are the given function applied point by point to their operands, replace a quantity of the same name, and are refused with the name of the missing operand if one does not exist. "
 "A printed VTK file has the points of every unrefined element in order, cells that tile each element with its sampling grid exactly once in consistent orientation, and exactly the requested quantities (or all of them) with one value per point in the order of the points. "
 "Asking for a quantity that does not exist is an error and writes nothing. A file that cannot be written, or not completely, is an error.",
 ["inputs", "histories"], "all meshes, densities of at least two points per direction, and sequences of derived quantities",
 TESTS + ": files are printed but never read back",
 [D + "fields.rs"],
 [("UniformFieldSpace::map_to_quantity, expression_2arg, print_*", D + "fields.rs")],
 ["the text of the VTK file, and returned errors"],
 "round-trip property testing with an independent VTK reader",
 "points are printed with 10 digits and values with 15, and compared accordingly")

prop("C18", "A mesh file is loaded faithfully or refused",
 "Every well-formed mesh file gives a mesh with exactly its elements, in order, with its node positions and real or complex materials, with sides shared between neighbours, boundary flags as the geometry implies, orders of one, and no refinement. "
 "A file that is not valid, lacks a part, has parts of the wrong shape or type, refers to a missing node, repeats a node in an element or a point in two nodes, or overlaps elements on a side or around a node, is refused, by an error or a panic, and never loaded.",
 ["inputs"], "all mesh files of rectangular elements, and mutations of them",
 TESTS + ": three well-formed files",
 [D + "mesh.rs", D + "mesh/element.rs", D + "mesh/node.rs", D + "mesh/edge.rs"],
 [("Mesh::from_file", D + "mesh.rs"), ("Node/Edge connection checks", D + "mesh/node.rs")],
 ["the loaded mesh, or the refusal"],
 "property testing of generated files and structured mutations of them",
 "a refusal may be an error or a panic")

prop("C19", "A mesh export describes the mesh completely and faithfully",
 "For every hp-refined mesh, the exported file is valid JSON that lists every base element with its materials, every element of the refinement tree with its parent, children, corners, sides, orders, levels and whether it is unrefined, every node with its position, boundary flag and surrounding elements, and every edge with its direction, ends, parent, children, adjacent elements and active elements, all equal to the mesh's own state. "
 "Exporting does not change the mesh other than bringing its edge activation up to date, and a file that cannot be written, or not completely, is an error.",
 ["inputs", "histories"], "all meshes reached by hp-refinement histories",
 TESTS + ": no exported file is read back",
 [D + "mesh.rs", D + "mesh/elem.rs", D + "mesh/edge.rs", D + "mesh/node.rs", D + "mesh/element.rs"],
 [("Mesh::export_to_json and the conversions to JSON", D + "mesh.rs")],
 ["the text of the file"],
 "round-trip property testing with an independent JSON reader",
 "numbers are compared to the precision that JSON text carries")

prop("C20", "Gauss-Legendre quadrature is exact to its degree",
 "For every number of points the quadrature rule has ascending, symmetric points inside the interval and positive, symmetric weights, and integrates every polynomial of degree below twice the number of points exactly, to rounding; the variant with end points adds exactly the two ends. "
 "Rescaling to a sub-range, the two-dimensional sum over the interior points, and the sums along each of the four sides give the corresponding integrals, and in the presence of end points leave those out of the weighting.",
 ["inputs"], "all numbers of points up to 200, all polynomials of the exact degree, all sub-ranges",
 TESTS + ": a few functions with fixed numbers of points",
 [P + "integration/glq.rs"],
 [("gauss_quadrature_points and the root search", P + "integration/glq.rs"), ("real_gauss_quad*, scale_gauss_quad_points", P + "integration/glq.rs")],
 ["points, weights and sums returned"],
 "property testing against closed-form integrals and an independent rule",
 "values are compared to 1e-12 of the size of the integrand")

prop("C21", "Shape functions, derivatives and scalings are those of the documented basis",
 "For every pair of orders and every point, the hierarchical shape functions and their first, second and mixed derivatives have the documented polynomial values, scaled by the element's size; the same function sampled over a descendant element takes the values it has at the same physical points. "
 "The Jacobian, quadrature scales and side ratios reported with them are those of the element and sampled range. "
 "A sampler gives the same function whether or not it has been asked for it before, from any thread, with as many points as asked for, or enough for the orders in use if none are given.",
 ["inputs", "schedules"], "all orders up to 20, elements at any refinement level, sampling over any descendant, concurrent use of one sampler",
 TESTS + ": single values of low orders on one element",
 ["src/fem_domain/basis.rs", "src/fem_domain/basis/hierarchical_basis_fns.rs", D + "mesh/element.rs"],
 [("HierPoly", "src/fem_domain/basis/hierarchical_basis_fns.rs"), ("HierCurlBasisFn and BasisFnSampler", "src/fem_domain/basis.rs")],
 ["sampled values of basis functions"],
 "property testing against closed-form polynomials, and of concurrent sampling",
 "values are compared to 1e-10 of the size of the function")

prop("C22", "Integrals split by parts sum to the direct integral",
 "For every pair of basis functions on the same element, or on an element and one of its descendants, the value of the curl-curl integral split into one interior and four side terms sums, to rounding, to the value integrated directly, and each term is the corresponding interior or side integral. "
 "Both are linear in the material weight, and the accessors of a result return its terms, with zero sides for a result that was not split.",
 ["inputs"], "all orders, directions, element shapes and levels, material constants",
 TESTS + ": a few orders on one element",
 [P + "integration/integrals.rs", P + "integration.rs", P + "integration/glq.rs"],
 [("CurlCurl::integrate and integrate_by_parts", P + "integration/integrals.rs"), ("IntegralResult", P + "integration.rs")],
 ["returned integral results"],
 "differential property testing of the two integration paths, and against exact integrals",
 "values are compared to 1e-10 of the size of the terms")

prop("C23", "Queries agree with the mesh and report unknown ids as errors",
 "For every mesh and domain, the queries by id (element corners and diagonal, edge ends, ancestors, descendants, refineability, order windows, basis specs by address, degree-of-freedom lists by element) return exactly what the mesh and domain contain, including or excluding the starting item as asked. "
 "An id that does not exist gives the documented error with that id, or an empty answer where none is documented, and never a panic or another item's data.",
 ["inputs", "histories"], "all meshes reached by hp-refinement histories, all ids up to and beyond the ends of the lists",
 TESTS + ": a few ids on one mesh, not the first invalid one",
 [D + "mesh.rs", "src/fem_domain/domain.rs", D + "dof.rs"],
 [("Mesh and Domain query methods", D + "mesh.rs")],
 ["the results of the queries"],
 "property testing against a model of the answers",
 "every id of each mesh and several beyond the ends")

prop("C24", "Ill-posed problems are refused with the specific error before any work",
 "Setting up the eigenproblem with a domain of another continuity type, a domain without degrees of freedom, or too few quadrature points in either direction is refused with the error for that cause, for every mesh and order; a well-posed set-up with any accepted number of points succeeds with matrices of the domain's dimension. "
 "The blank and unit meshes and domains are what they are documented to be.",
 ["inputs", "configurations"], "all meshes, orders, continuity types and numbers of quadrature points",
 TESTS + ": the error paths are not exercised",
 [P + "galerkin.rs", "src/fem_domain/domain.rs", D + "mesh.rs"],
 [("checks at the start of galerkin_sample_gep_hcurl", P + "galerkin.rs")],
 ["the returned error or matrices"],
 "property testing of the verdict over configurations",
 "both sides of every limit are generated")

prop("C25", "Geometric primitives obey their algebra",
 "Points, vectors and 2 by 2 matrices obey the laws of plane geometry and linear algebra for all finite values: sums, scalings, dot products, distances, determinants, transposes, inverses, and products of matrices with matrices and vectors. "
 "Equality and hashing of points agree with each other and with equality of coordinates to 12 decimal places (signed zeros being equal), ordering along each axis is a consistent total order, the point between two points is their midpoint, and the orientation of two points is the axis their difference is closest to.",
 ["inputs"], "all finite coordinates and entries of moderate size",
 TESTS + ": a few integer values",
 [D + "mesh/space.rs"],
 [("Point, V2D, M2D", D + "mesh/space.rs")],
 ["returned values"],
 "property testing of algebraic laws against direct formulas",
 "values are compared to 1e-12 of their size")

prop("C26", "Results do not depend on numbering, position, orientation or batching",
 "Renumbering the nodes and elements of a mesh file, translating it, exchanging its x and y directions, or executing the same refinements in other batches and orders gives the same elements, degrees of freedom and matrices up to that renaming. "
 "Scaling all lengths or the material constants scales the matrices exactly as the equations say.",
 ["inputs", "histories"], "all hp-refined meshes and all such transformations",
 TESTS + ": no two equivalent inputs are compared",
 [D + "mesh.rs", "src/fem_domain/domain.rs", P + "galerkin.rs"],
 [("Mesh::from_file and the refinement interfaces", D + "mesh.rs"), ("galerkin_sample_gep_hcurl", P + "galerkin.rs")],
 ["elements, degrees of freedom and matrices of both twins"],
 "metamorphic property testing",
 "matrix entries are compared to 1e-9 of the geometric mean of the diagonal entries")

prop("C27", "Refinement only enriches the discrete space",
 "When a mesh is refined further in h or raised in order, every field that the old domain could represent is represented, to rounding, by the new one, provided that refined elements have at most the orders of their descendants. "
 "In particular the number of independent functions never falls.",
 ["histories", "inputs"], "all hp-refined meshes and further refinements of them",
 TESTS + ": no two domains are compared",
 ["src/fem_domain/domain.rs", D + "mesh.rs", D + "mesh/edge.rs"],
 [("Domain::from_mesh", "src/fem_domain/domain.rs"), ("edge activation", D + "mesh/edge.rs")],
 ["basis functions of both domains"],
 "metamorphic property testing: exact projection of the old space on the new",
 "residuals up to 1e-8 count as rounding")

prop("C28", "Assembly and fields are generic over shape functions and integrals",
 "For every set of shape functions and every pair of symmetric integrals that a user defines through the documented traits, the assembled matrices hold at each pair of degrees of freedom the sum of that integral over every pair of their functions on the same element or on an element and one of its descendants, each pair once. "
 "The integral gets the directions and orders of the two functions, both sampled at the same points of the finer element, the weights of those points and the materials of that region; a result given in parts counts as their sum. "
 "Shape functions are only asked for the orders, points and derivatives they were set up with, and fields evaluated with them are their expansion.",
 ["inputs", "histories", "configurations"], "all hp-refined meshes, numbers of points, families of shape functions and integrals",
 TESTS + ": only the library's own shape functions and integrals are used; a shortcut that is right for those alone goes unseen",
 [P + "galerkin.rs", "src/fem_domain/basis.rs", D + "fields.rs", P + "integration.rs"],
 [("galerkin_sample_gep_hcurl", P + "galerkin.rs"), ("HierCurlBasisFnSpace, HierCurlBasisFn, BasisFnSampler", "src/fem_domain/basis.rs"), ("HierCurlIntegral, IntegralResult", P + "integration.rs"), ("UniformFieldSpace::xy_fields", D + "fields.rs")],
 ["both matrices of the eigenproblem, and field samples, made with user-defined types"],
 "property testing with user-defined shape functions and integrals against an independent quadrature",
 "three families of shape functions and two integrals; entries are compared to 1e-10 of the geometric mean of the diagonal entries")

prop("C29", "The optional max-ortho shape functions are a conforming hierarchical family",
 "With the feature max_ortho_basis, HierMaxOrtho serves orders up to 12 as the documentation says: the normal functions are the Legendre polynomials, the tangential ones are 1 - x, 1 + x and fixed multiples of P_n - 2 P'_(n-1) / (n (n - 1)), which vanish at both ends; "
 "the first and second derivatives are those of these functions, at the ends too. "
 "A function is the same whatever the highest order, the points and the derivatives asked for, and matrices and fields made with the family are those of these functions.",
 ["inputs", "configurations"], "all orders up to 12, sets of points and hp-refined meshes",
 "No existing test builds the library with this feature at all, and single samples would not show functions that miss zero at an end or derivatives that are wrong at some points",
 ["src/fem_domain/basis/hierarchical_basis_fns.rs", "src/lib.rs"],
 [("HierMaxOrtho, QFunction, LegendrePoly", "src/fem_domain/basis/hierarchical_basis_fns.rs"), ("prelude", "src/lib.rs")],
 ["values and derivatives of the functions; matrices and fields made with them"],
 "property testing against a closed form, and differential testing of assembly against an independent quadrature",
 "the multiple of each tangential function is taken from one sample; values to 1e-10, entries to 1e-10 of the geometric mean of the diagonal entries")
