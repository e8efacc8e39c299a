DEFAULT_NOTE = ('TLC checks the design exhaustively for small constants; every recorded '
 'execution of the real code is validated step by step against the same specification. '
 'Assurance for the code covers the explored scenarios (TLC-generated behaviours and '
 'seeded random ones), not all inputs. Trusted: TLC, the driver and its projection.')
NOTE = {
 'C01': 'Exhaustive TLC model of selector evaluation on a small mixed mesh (all definition sequences of a leaf/operator/kind alphabet); '
        'recorded region constructions (TLC-generated and random selectors, meshes of all cell kinds, functions, sets, parents) must equal the value the specification assigns. '
        'Trusted: TLC, the driver projection; entity vertex lists are taken from the mesh (decided by C03). Ids out of the mesh range are outside the claim.',
}
NOTE['C02'] = ('Exhaustive TLC model of multi-pass ordering over all graphs of 3 items with an undefined name and all declaration orders '
 '(termination, refusal iff undefined/cyclic, solvability of equation blocks). TLC-generated declarations are replayed into create_regions, '
 'get_sorted_dependencies and resolve; every outcome must satisfy the ordering specification.')
NOTE['C03'] = ('Exhaustive TLC model of which connectivities requests create and releases remove; recorded CMesh contents after every step of '
 'TLC-generated and random request/release/query histories on random meshes of all cell kinds must equal the incidence relations the specification '
 'derives from the cells. Trusted: TLC, driver projection, rounding of centroids/volumes (integer coordinates).')
NOTE['C08'] = ('Exhaustive TLC model of the adaptive stepper under every outcome sequence with saves and restarts (times increase, retry from the same state with smaller dt, '
 'limits, growth rule, each save request once) and of all direct stepper call histories; TLC-generated outcome sequences are replayed into the real simple, adaptive, '
 'elastodynamics (fixed, sequence, basic, PID, linear controllers), DG and stationary solvers with a scripted nonlinear solver and every prestep/solve/poststep event must match. '
 'Time in integer ticks (rounding 1e-4 of a step). PID with non-default P, D is outside.')
NOTE['C09'] = ('Exhaustive TLC storage model (arrays, shared state vector, user arrays, copies) refines the value-level history specification; TLC-generated operation histories over all '
 'setters, time advances, restarts of history and in-place changes run on real Variables/FieldVariable objects and every reading (values, derivatives, region restrictions, refusals) of every variable after every step must equal the model.')
NOTE['C10'] = ('Exhaustive TLC model of the evaluate cache (no entry ever differs from a fresh evaluation); TLC-generated operation histories interleaved with evaluations (modes, regions, integrals incl. custom points, steps, derivatives, '
 'term level and multi-linear terms) run on real variables holding affine functions, every evaluated array must equal the function values derived by the specification.')
NOTE['C05'] = ('Exhaustive TLC model of the numbering algorithm (pairs, chains, propagation of prescribed values) against the declarative partition into active/prescribed/slave classes for all condition sequences on up to 5 DOFs; '
 'TLC-generated condition sets on real fields (2D/3D, scalar/vector, order 1-2, subdomains) are processed by the real Equations.time_update and every mapping, connectivity, expansion, reduction and operator is checked against the specification. '
 'Shared-DOF variables, unused DOFs, cross-variable periodic conditions (refused) and DG conditions are outside.')
NOTE['C07'] = ('Specification of activity ([t0, t1) lists, predicates), key order and DOF selection in EqMap/EqMapTrace; TLC-generated sets of essential/periodic/initial conditions with constants, lists, arrays and functions are applied by the real code over several times '
 'and every prescribed value, untouched DOF and initial value is checked.')
NOTE['C04'] = ('Two definitions of the value of a prefactor (recursive descent, signs of enclosing parentheses) agree on all token sequences up to length 9 (TLC); TLC-generated prefactors in equations with random terms, sides, spacing, '
 'histories, derivatives, traces, integrals and confusable names are parsed by the real code, every term, argument and multiplier and the value of the equation on constant fields must equal the specification; term arithmetic histories over a pool of Terms; 25 kinds of malformed text must be refused. '
 'A single parenthesized number followed by an operator is outside the accepted grammar (refused).')
NOTE['C11'] = ('TLC checks on the update state machine of a material (kinds, modes, user data, resets, function changes) that data are fresh, kept, complete and never of another key or function; TLC-generated histories with several materials, '
 'equation sets, failing functions and overlapping per-region values drive the real Material/Materials objects, every function call (arguments, count) and all values seen by get_data() and by terms must be those of the specification.')
NOTE['C12'] = ('TLC checks the crash/restart protocol of a run and of a multi-step results file; TLC-generated solver outcomes drive real runs interrupted after any step, resumed from any restart file (also repeatedly, also from the last step), and random histories of writes (failing or killed in the middle), readers, extraction and export, '
  'all compared by TLC with the model: times, steps, states, history, files and every value of every step')
NOTE['C23'] = ('TLC checks the step protocol (prepare, solve, reject or accept, hook, save, advance) against the whole run as a function of the solver outcomes; TLC-generated outcomes drive Problem.solve() with simple, adaptive and stationary stepping, quasistatic or not, with all kinds of save times, and the recorded order, times, states, histories and files are checked by TLC')
NOTE['C16'] = ('TLC explores every interleaving of task pick-up and completion for all small dependency graphs and worker counts; TLC-generated graphs, chunkings, failures and schedules drive the real engine serially and with a scheduler '
 'that picks up and finishes tasks in random order; the calls, their inputs, microstructure, order, returned values and saved names must be those of the specification, equal in all modes.')
NOTE['C06'] = ('TLC checks the numbering of free and new DOFs for all small sets of model-reduction and tying operators; random combinations of all eleven kinds of conditions on several variables, with fixed DOFs and time intervals, are applied by '
 'the real Variables and TLC checks that full states expanded from reduced vectors satisfy every constraint (written in the specification from geometry), that free DOFs stay independent and that the number of reduced DOFs is right.')
NOTE['C13'] = ('TLC checks that the memory and file forms of a mesh (cells numbered per dimension, blocks by kind, groups per cell or as sets local to blocks) lose nothing for all small meshes; random meshes of all kinds, dimensions, blocks, facets and groups '
 'go through TLC-generated sequences of files of 14 formats, copies, pickles and restrictions in the real code, and TLC compares the content after each step with what the format keeps by the specification; refusals only where it cannot express the mesh.')
NOTE['C14'] = ('TLC checks refinement (uniform, and of single cells with hanging facets, repeated) of complexes of triangles, quadrilaterals, tetrahedra and hexahedra in all relative orientations against the definition of a conforming cover; '
               'random meshes of all kinds are refined, merged, tiled, extruded, revolved, mirrored, triangulated, selected and generated by the real code and checked cell by cell in exact integer geometry.')
NOTE['C19'] = ('TLC checks the factorization cache (object identity plus content digest, formats without digest, identities reused) over all histories of solves, presolves, clears and in-place changes; TLC-generated histories drive the real SciPy, UMFPACK, Cholesky, MUMPS, PyAMG and Krylov solvers, and TLC itself multiplies '
 'the integer matrices to verify every answer, iteration counts, tolerances, callbacks and the settings of every call.')
NOTE['C18'] = ('TLC checks the Newton machine (line searches in both modes, failures, limits, give-up) over all outcome sequences: convergence claims, limits and counts are truthful; scripts drive the real Newton solver with scripted residuals, failures, linear solves, scalings, kept matrices and late arguments, '
 'and every evaluation, trial state, matrix, tolerance and reported number is predicted exactly by the machine; linear problems take one solve, semi-smooth Newton and SciPy root solvers report truthfully on random integer problems.')
NOTE['C21'] = ('TLC checks that the line format of log files (groups, added groups, repeated x values, vertical lines, partial calls, closing) is lossless for the reader and for rewriting over all short histories; TLC-generated histories with real, complex, non-finite values and awkward labels are logged by the real code, '
 'also by writers that die, and what is read at any time is compared with the model.')
NOTE['C22'] = ('TLC checks the store of objects (markers, soft links, caches kept over several writes, temporary objects) over all small object graphs: what is restored at each path is the stored value and sharing is kept exactly where promised; TLC-generated graphs of meshes, matrices, IGA domains and 25 kinds of values in lists, '
 'tuples, dicts and Structs go through the real writer and reader, with plain dictionaries and matrices files as well.')
NOTE['C20'] = ('TLC checks the algebra of problem descriptions (short and long definitions, recursive precedence of overrides, solver selection, parameters) over all small description trees; TLC-generated descriptions given as a dictionary, module, file or define() function, with overrides as dictionaries, Structs or --conf strings, '
 'go through the real code: the resulting definitions and options equal the model, varied forms of a problem give the same exact solution, incomplete ones are refused with the missing entries, and user data are left alone.')
NOTE['C25'] = ('TLC checks the matching of two point sets (along a direction, in place, on lines) with remembered answers under all renumberings over all small lattices: answers are bijections of images, unique, symmetric and independent of the history; TLC-generated histories of queries, and meshes with permuted, sheared and wavy sides '
 'go through the real matching functions, periodic conditions, DG periodic conditions and traces from mirror regions, where the coupled DOFs must be images of each other.')
NOTE['C15'] = ('TLC checks the numbering of DOFs of fields on small meshes of all kinds of cells under all orientations and numberings: nodes per entity, sharing exactly with the entity, agreement of positions in all the cells around, DOFs of regions; TLC-generated choices of regions and of components run real fields of all bases and orders on random '
 'meshes of arbitrarily oriented cells (with parts, discontinuous bases, hanging nodes), where connectivity, coordinates, DOFs of regions, continuity, reproduction of polynomials, surfaces and substitutions are compared with the specification.')
NOTE['C24'] = ('TLC checks the scatter of element contributions by an explicit model (local DOFs by components, rows of variables in a given order, prescribed and shared DOFs): the sum of values is kept, the result does not depend on the order of cells and terms and equals the sum over terms and blocks, the graph holds all items; TLC-generated histories of '
 'boundary conditions and evaluations assemble systems of terms with known integer contributions on random meshes, by whole, by blocks, by terms and selected, real and complex, with dynamic connectivities, where vectors and matrices are compared exactly with the specification.')
NOTE['C26'] = ('TLC checks over all histories of queries on small meshes that location answers depend only on the mesh, the points and the limit, whatever the caches hold; TLC-generated histories of evaluations (strategies, limits, modes, changed meshes) and of probes on random meshes of five kinds of cells, parts and fields drive the real code, '
 'and TLC decides each point in exact integer geometry: cell, status, reference coordinates, polynomial values, and points, order and spacing of probes.')
NOTE['C17'] = ('TLC checks over all assignments of cells of small complexes (also non-manifold, disconnected) to 3-4 tasks and all orders and splits of interfaces: one owner of each DOF, sufficient overlaps, lossless assembling; TLC-generated histories run the real partitioning, interfaces, DOF maps, distribution of several fields by messages '
 '(stand-ins for MPI and PETSc objects that keep bytes and values) and local assembling on random meshes, where maps, numbers, messages, and the assembled vectors and matrices are compared with the specification.')
