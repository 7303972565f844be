prop("C01", "No failure is silently dropped",
 "Whenever an operation invoked by a status-returning library function (a PETSc call, an I/O call or another library function) reports a failure, that library function reports a failure to its own caller. A failure status is never discarded, overwritten by a later operation, or turned into success.",
 ["fault_sequences", "inputs", "configurations"], "for every call site of an operation that returns a status code, and every way that operation can fail",
 "The tests run only configurations in which every operation succeeds, so a status that is never looked at behaves exactly like one that is.",
 ["src", "include/tdycore.h"], [("per-call status test", "every call site of a status-returning operation in src/"), ("function wrappers that forward the status", "src/f90-mod/tdycoref.c")],
 observe=["return value of every public function", "ierr argument of the Fortran entry points"],
 technique="may-dataflow of (call site, status variable) facts over each function's control-flow graph; every status-returning call is an obligation",
 level_note="Sound over all paths of the analysed preprocessor configuration, up to status codes that escape through memory; print-only calls are exempt (listed in the evidence).")
prop("C02", "Borrowed arrays are handed back and two-phase operations completed",
 "On every path on which a library function returns normally, each array, sub-object or work vector it borrowed from a PETSc object has been handed back to the same object exactly once. Each two-phase operation it began (assembly, scatter, ghost exchange) has been completed on the same operands, and each matrix or vector it inserted values into has been assembled.",
 ["inputs", "configurations"], "for every control-flow path through every library function, including paths selected by mode, discretization, rank or optional conditions",
 "Tests exercise few branch combinations and mostly cannot observe an unreturned array or an unfinished exchange at one process.",
 ["src/fv", "src/fe", "src/tdycore.c", "src/tdyth.c", "src/tdysalinity.c", "src/tdyregression.c", "src/tdyio.c"],
 [("Get/Restore pairs", "residual and Jacobian callbacks in src/fv, src/fe"), ("Begin/End pairs", "src/tdydiscretization.c, src/fv/share/tdyugdm.c"), ("final assembly", "src/fv/mpfao, src/fv/fvtpf, src/fe")],
 observe=["PETSc object state after each library call"],
 technique="path-sensitive pairing typestate over the control-flow graph with interprocedural summaries; pair tables read from the PETSc headers",
 level_note="Error exits are not obligations. Arrays of borrowed pointers are tracked as one element.")
prop("C03", "Temporaries are released exactly once and never used afterwards",
 "Every block of memory, PETSc object or file that a library function acquires for its own use is released before it returns normally, unless it has been handed to the caller or stored in a longer-lived object. Nothing is released twice, used after release, lost by overwriting its only handle, or freed as an array of a different shape.",
 ["inputs", "configurations", "histories"], "for every control-flow path through every library function",
 "A leak, double release or stale pointer on a path the tests take has no effect on the printed results, and most such paths (restart, natural ordering, parallel) are not taken.",
 ["src"], [("acquire/release", "TDyAlloc/TDyFree, PetscMalloc, *Create/*Destroy, TDyAllocate_*/TDyDeallocate_*, fopen/fclose throughout src/")],
 observe=["heap and PETSc object counts between two identical calls"],
 technique="interprocedural ownership typestate (acquire, move, capture, release) over access paths",
 level_note="Objects reachable only through array elements are tracked as one element per array; khash internals are excluded.")
prop("C17", "All processes take part in collective operations in the same order",
 "However cells, faces and vertices are divided among processes (including processes that own none of them), every process reaches the same collective MPI and PETSc operations in the same order, so that no run deadlocks or pairs different operations. The buffers given to MPI reductions hold elements of the datatype named, all processes agree on root, count and operation, and the first process does not use the undefined result of an exclusive scan.",
 ["schedules", "inputs"], "for all numbers of processes and all distributions of the mesh over them",
 "All reliable tests run on one process, where a collective operation skipped by some process cannot be noticed; on a few processes every process usually owns something, so that branches on local sizes all go the same way.",
 ["src/fv/share/tdyugrid.c", "src/fv/share/tdyugdm.c", "src/tdyregression.c", "src/tdyio.c", "src/tdytimers.c", "src/fv/mpfao/tdympfao_utils.c"],
 [("collective operations", "every function with an MPI collective, a PETSc assembly, scatter, creation, norm, load, view or solve"), ("sources of difference", "MPI_Comm_rank, local sizes, ownership ranges, local arrays, mesh points")],
 observe=["termination of a parallel run"],
 technique="information-flow analysis of rank dependence over value numbers (interprocedural, by field), then comparison of the sequences of collective operations along the outcomes of every rank-dependent branch",
 level_note="Command line options and hash table contents are taken as equal on all processes; which PETSc calls are collective, and which results differ between processes, is a table.")

prop("C18", "Timers, profiling stages and call-trace entries are balanced",
 "On every normal exit from a library function, each timed region the function started has been stopped, each profiling stage it entered has been left, and its entry on the call trace has been removed exactly when it was added. Hence profiles charge time to the right region and error traces name the functions that are actually active.",
 ["inputs", "configurations", "histories"], "for every control-flow path to a normal exit of every library function",
 "No test looks at the profile or at an error trace; an unbalanced region only corrupts later measurements.",
 ["src", "include/tdytimers.h"], [("function timers and stages", "TDY_START_FUNCTION_TIMER, TDyEnterProfilingStage users in src/"), ("call trace", "PetscFunctionBegin/Return in src/")],
 observe=["-log_view output", "-tdy_timers profile", "PETSc error traces"],
 technique="path-sensitive counting typestate over the control-flow graph",
 level_note="Error exits are not obligations; names of timers are resolved statically.")
prop("C08", "Material properties and conditions reach the model unmixed",
 "For every material property and every source or boundary condition, whatever a user registers through any setter (constant, spatial function, registered name, Fortran) is what is evaluated for exactly that quantity, with that registration's context and with the caller's components in place at every point. Registering a replacement, or destroying the dycore, releases the previous registration's context exactly once. A condition is evaluated only where it is known to be set, and evaluated property values are stored where the discretization keeps that property.",
 ["configurations", "inputs", "histories"], "for every quantity, every setter, every sequence of registrations and every dim/number of points",
 "The tests register a handful of quantities, mostly constants, once; a cross-wired setter, context or component of any other quantity changes nothing they look at.",
 ["src/materials/tdymaterialproperties.c", "src/tdyconditions.c", "src/tdycore.c", "src/f90-mod/tdycoref.c", "src/fv", "src/fe"],
 [("registration triples (function, context, destructor)", "src/tdyconditions.c, src/materials/tdymaterialproperties.c"), ("constant/spatial wrappers", "src/materials/tdymaterialproperties.c"), ("public and Fortran setters", "src/tdycore.c, src/f90-mod/tdycoref.c"), ("consumers", "src/fv, src/fe")],
 observe=["values the discretization receives for each quantity", "contexts passed to and destroyed by registered functions"],
 technique="value-numbering dataflow (polynomial normal forms) over inlined control-flow graphs, compared with the quantity named by each API",
 level_note="All quantities and setters are enumerated from the record definitions; the user's own functions are opaque.")
prop("C10", "Enumeration names and numbers mean the same thing everywhere",
 "Every name accepted or printed for a mode, discretization, boundary-condition type, water model, quadrature, MPFA-O method or time integrator denotes the enumerator of that name, and every enumerator has its name. Each table of names is used only with its own enumeration, and the constants Fortran programs use have the values of the C enumerators they are named after.",
 ["inputs", "configurations"], "for every enumerator, every name table, every parser or printer of a table and every Fortran constant",
 "Tests select a few enumerators by name from C; a permuted or shortened table or a shifted Fortran constant silently selects another model.",
 ["src/tdycore.c", "src/fe/tdyfe.c", "include/tdycore.h", "src/f90-mod/tdycore.h", "include/finclude/tdycore.h", "src/tdyti.c", "src/tdytimers.c"],
 [("name tables", "src/tdycore.c, src/fe/tdyfe.c"), ("Fortran constants", "src/f90-mod/tdycore.h, include/finclude/tdycore.h"), ("string-selected enumerators", "src/tdyti.c")],
 observe=["which model an option value selects", "names in timing reports", "what a Fortran constant selects"],
 technique="queries over the type-checked syntax tree with control-dependence facts; declaration scan of the Fortran headers",
 level_note="Every table, enumerator, use and Fortran constant is enumerated.")
prop("C07", "Every documented option reaches its own setting and only that one",
 "Each command-line option the library documents is read, its value lands in the setting of that name and stays there until configuration ends, and the default it offers is the value otherwise in effect. Settings reach the component that uses them under the same meaning (boundary-condition type, water models, gravity, curve parameters, time-step controls), and every setting is consulted somewhere.",
 ["inputs", "configurations"], "for every option read by the library and every combination of options",
 "Tests set a handful of options to ordinary values; two options sharing a destination or a dropped one pass.",
 ["src/tdycore.c", "src/tdydriver.c", "src/tdyti.c", "src/tdyio.c", "src/tdyregression.c", "src/fv/mpfao/tdympfao.c", "src/fv/fvtpf/tdyfvtpf.c", "src/fe/tdywy.c", "src/materials/tdycharacteristiccurves.c"],
 [("option reader", "src/tdycore.c ReadCommandLineOptions"), ("component options", "TDySetFromOptions_*, TimeIntegratorSetFromOptions"), ("packing of curve parameters", "src/materials/tdycharacteristiccurves.c")],
 state=[("options", "settings read from the command line", "include/private/tdycoreimpl.h TDyOptions")],
 observe=["the setting a run uses", "-help defaults"],
 technique="value-numbering dataflow from each option read to the function's exit, plus use-def queries over all accesses to settings",
 level_note="Every PetscOptions call is enumerated. Two options that are read but never consulted are listed as known findings.")
prop("C14", "Constitutive derivatives are the derivatives of what is returned",
 "Whenever a saturation, relative-permeability, density, viscosity or enthalpy function returns a value together with its first or second derivative, every requested derivative is set and equals the exact derivative of the value returned, in every branch (saturated, unsaturated, smoothed, compressible, Batzle-Wang). Derivatives with respect to liquid pressure are those with respect to capillary pressure with opposite sign.",
 ["inputs"], "for all real arguments and parameters inside each branch and for every model",
 "Finite-difference comparisons sample points of one model; an exponent or missing factor in another branch leaves Newton converging slowly or not at all.",
 ["src/materials/tdycharacteristiccurves.c", "src/materials/tdyeos.c"],
 [("saturation curves", "src/materials/tdycharacteristiccurves.c PressureSaturation_*"), ("relative permeability", "src/materials/tdycharacteristiccurves.c RelativePermeability_*"), ("equation of state", "src/materials/tdyeos.c")],
 observe=["derivatives entering the Jacobian"],
 technique="branch-wise symbolic value numbering and symbolic differentiation with normal-form comparison",
 level_note="Exact real arithmetic inside each branch; continuity across branches is not covered.")
prop("C27", "Cell and face topology tables describe closed polyhedra",
 "For every supported cell type (tetrahedron, pyramid, wedge, hexahedron) the numbers of vertices, edges, faces and neighbours, the type and vertices of each face, and the decomposition used for volumes describe one closed, consistently oriented polyhedron of that type. Faces are listed in cyclic order with each edge shared by exactly two faces in opposite directions, and the tetrahedra of a volume tile the cell.",
 ["inputs", "configurations"], "for every cell type, face and vertex position",
 "Tests use meshes of hexahedra and wedges in one orientation; a wrong entry for another type or face goes unnoticed.",
 ["src/fv/share/tdymeshcustom.c", "src/fv/share/tdymesh.c"],
 [("topology tables", "src/fv/share/tdymeshcustom.c"), ("cell volume", "src/fv/share/tdymeshcustom.c ComputeVolume")],
 observe=["faces and volumes of cells of custom meshes"],
 technique="conditional constant propagation of each table function for each enumerator, then combinatorial closure checks",
 level_note="Every cell type, face and vertex position is enumerated.")
prop("C28", "Geometric and linear-algebra helpers compute their defining formula",
 "Each helper returns exactly the quantity it names for all inputs: dot, cross and permeability-weighted products, lengths, unit vectors, triangle and quadrilateral areas and normals, tetrahedron volumes, determinants and inverses of 3x3 matrices, planes through points, line-plane intersections and projections, and norms.",
 ["inputs"], "for all real inputs outside the degenerate cases the helpers treat specially",
 "Tests run on axis-aligned boxes, where wrong signs and swapped components cancel.",
 ["src/tdyutils.c", "src/tdycore.c", "src/fe/tdyfe.c", "src/fv/share/tdymeshcustom.c"],
 [("helpers", "src/tdyutils.c, src/fe/tdyfe.c")],
 observe=["areas, volumes and normals of cells and faces", "transmissibilities"],
 technique="value numbering with complete unrolling of constant loops, compared as polynomial and power-product normal forms with the defining formula",
 level_note="Exact real arithmetic; rounding is not modelled.")
prop("C29", "Reference-element functions have their defining properties",
 "The H(div) basis functions on quadrilaterals and hexahedra have unit nodal flux through their own face node and none through other nodes and faces, constant divergence, and are mapped by the Piola transform. Quadrature points and weights used by the WY discretization lie at the element vertices and sum to the reference volume, and the face and direction tables agree with them.",
 ["inputs"], "for all reference points, all basis functions and both dimensions",
 "Steady convergence tests on box meshes tolerate consistent errors and only use some of the functions.",
 ["src/fe/tdyfe.c", "src/fe/tdybdm.c", "src/fe/tdywy.c"],
 [("basis functions", "src/fe/tdyfe.c HdivBasisQuad, HdivBasisHex"), ("quadrature", "src/fe/tdyfe.c SetQuadrature"), ("local direction tables", "src/fe/tdywy.c")],
 observe=["fluxes and pressures of BDM and WY solutions"],
 technique="symbolic value numbering into polynomials in the reference coordinates, then polynomial identities",
 level_note="Every basis function, node and face is enumerated.")
prop("C06", "Every mode and discretization pair is fully served or refused",
 "For each governing-equation mode and discretization, selection either fails with an error or installs every operation and solver hook of exactly that pair; nothing is left unset, left over, or taken from another pair. Functions run for a pair see the data structure that pair allocated, use only data its setup provided, and address as many unknowns per cell as the pair defines, and solver hooks for one solver are accepted or refused together.",
 ["configurations"], "for every combination of mode and discretization and every public entry point",
 "Stable tests run two pairs; a missing break, a hook of a neighbouring discretization or an unset operation in another pair is never executed.",
 ["src/tdycore.c", "src/fv/mpfao/tdympfao.c", "src/fv/mpfao/tdympfao_snes.c", "src/fv/fvtpf/tdyfvtpf.c", "src/fe/tdybdm.c", "src/fe/tdywy.c", "src/tdytimers.c"],
 [("selection", "src/tdycore.c TDySetDiscretization"), ("hooks", "src/tdycore.c TDySetIFunction .. TDyTimeCut"), ("operations", "include/private/tdycoreimpl.h _TDyOps")],
 state=[("context", "record allocated by the create operation", "src/fv, src/fe TDyCreate_*")],
 observe=["which functions a configuration runs", "error for unsupported pairs"],
 technique="conditional constant propagation of every dispatching function per pair, call-graph closure per pair, record-type and index value numbering",
 level_note="All mode x discretization pairs and all public functions of the core are enumerated.")

prop("C04", "The time loop simulates exactly the time it reports",
 "TDyTimeIntegratorRunToTime returns with the clock at the target time, after solving steps that follow one another without gaps and add up to the time elapsed: no step is zero, passes the target or exceeds the largest step; a solution is accepted, counted and advances the clock only if its solve converged, and after a failed solve the previous solution is put back and a smaller step is tried. The residual is given the step actually taken and a storage term at the old time that belongs to the same step and accepted solution; a step clipped at the target does not shrink later steps or leave anything behind that changes the next run. With check-pointing enabled, the last accepted solution has been check-pointed on return; with PETSc's TS, TS is given the target as absolute time, and a new integrator starts at time zero with its initial step.",
 ["histories", "inputs", "fault_sequences"], "for every target time, step controls, sequence of solver failures and sequence of runs",
 "The tests run to one target without a failed step; a step that fails after being clipped, a second target or a limit reached exactly at the target never occurs.",
 ["src/tdyti.c", "src/tdycore.c", "src/tdydriver.c", "src/tdyio.c", "src/fv"],
 [("time loop", "TDyTimeIntegratorRunToTime, UpdateDT, SetTargetTime, SetTimeStep, Create"), ("solver hand-over", "TDySetDtimeForSNESSolver, TDyPreSolveSNESSolver, TDyPostSolve, TDyTimeCut")],
 state=[("time, dt, dt_save, istep", "the integrator's clock, next step, step put aside when clipping, and count", "src/tdyti.c")],
 observe=["simulated time, step sizes and solutions of successive runs"],
 technique="abstract interpretation over linear inequalities between clock, step, saved step, target and the time of the accepted solution, partitioned by a typestate of the solution vectors",
 level_note="Exact real arithmetic; 0 < reduction factor < 1 <= growth factor, 0 < step <= largest step, target not before the clock. SNES and TS are opaque. The bound on the number of cuts and the check-point interval are not claimed.")

prop("C05", "Calls out of order are refused; every state can be destroyed and restarted",
 "A lifecycle call made in the wrong order (mode, discretization, options, set-up, then use) is refused with an error before it changes the dycore, and one made in the right order is accepted. A dycore can be destroyed from every state it can be in, without touching what was never created. After the library is finalized its global state is as before it was initialized.",
 ["histories"], "for every sequence of lifecycle calls",
 "Tests and demos make the calls in one order; guards that let a wrong order through, destruction half way and a second initialization are never run.",
 ["src/tdycore.c", "src/tdytimers.c"],
 [("guards", "src/tdycore.c TDySetMode, TDySetDiscretization, TDySetFromOptions, TDySetup, TDySetDMConstructor, diagnostics"), ("destruction", "src/tdycore.c TDyDestroy"), ("finalization", "src/tdycore.c TDyFinalize, src/tdytimers.c TDyDestroyTimers")],
 state=[("setup_flags", "how far the dycore is set up", "include/private/tdycoreimpl.h")],
 observe=["error from a lifecycle call", "crash on destruction", "behaviour after re-initialization"],
 technique="typestate: lifecycle automaton extracted by conditional constant propagation from every reachable flag state, compared with the documented one; null-argument propagation through destruction; global write/reset effects",
 level_note="Five flag states x thirteen guarded calls; destruction checked for states before TDySetup.")

prop("C09", "Fortran routines run the C function of their name on their arguments",
 "A TDycore routine called from Fortran runs the C function of the same name, with the caller's arguments in order and in the form C expects, and returns that function's error code. A Fortran spatial function selected by name or assigned to a quantity is the one evaluated for that quantity, and it receives arrays of the length its points and values have.",
 ["interfaces"], "for every Fortran routine and every argument",
 "The compiler checks none of it: stubs are external with implicit interfaces, bind(C) names are strings, and four drivers call a third of the routines.",
 ["src/f90-mod/tdycoremod.F90", "src/f90-mod/tdycoref.c", "src/f90-mod/tdympfaof.c"],
 [("stubs", "src/f90-mod/tdycoref.c tdy*_"), ("bound interfaces", "src/f90-mod/tdycoremod.F90"), ("spatial functions", "src/f90-mod TDyCallF90SpatialFunction, FindOrAppendSpatialFunction")],
 state=[("spatial_funcs_", "Fortran functions by id", "src/f90-mod/tdycoremod.F90")],
 observe=["what a Fortran caller gets back", "which function is evaluated and on which arrays"],
 technique="declaration agreement across languages (Fortran module reader vs type-checked C), value numbering of every stub, shape expressions evaluated at every call",
 level_note="Every declared, bound and stub routine; name-mangling tables for the compilers not used here are compared textually.")

prop("C12", "Face fluxes and stored amounts are balanced in every residual",
 "In every residual the library installs, and in the assembled steady MPFA-O system, what a face adds to one of its cells is the negative of what it adds to the other, does not depend on which process owns the other cell, and is never added to a cell the process does not own; every owned face and cell is visited, starting from a zeroed residual. The mobility, and the enthalpy the water carries, are those of the cell the flux leaves. The storage term of a cell is the rate of change (or (now - before)/dt) of rho*porosity*S*volume, plus for energy the fluid's internal energy and rho_soil*c_soil*(1-porosity)*T, and a source enters once with a negative sign.",
 ["inputs", "configurations"], "for all states, meshes, partitions, boundary-condition types, flow directions and time steps",
 "Mass is lost or created silently by one wrong sign, index or guard; parallel ghost rows, reversed flow and the DAE, transient-variable and FV-TPF forms are not exercised by the tests.",
 ["src/fv/mpfao/tdympfao_ts.c", "src/fv/mpfao/tdympfao_th_ts.c", "src/fv/mpfao/tdympfao_snes.c", "src/fv/mpfao/tdympfao_snes_salinity.c", "src/fv/mpfao/tdympfao_ts_dae.c", "src/fv/mpfao/tdympfao_ts_transientvar.c", "src/fv/mpfao/tdympfao_steady.c", "src/fv/fvtpf/tdyfvtpf_snes.c"],
 [("face fluxes", "TDyMPFAOIFunction_Vertices*, TDyFVTPFSNESFunction"), ("storage", "TDyMPFAOIFunction*, TDyMPFAOSNESFunction*, *PreSolve, *TimeCut"), ("steady rows", "tdympfao_steady.c TDyMPFAOComputeSystem_*")],
 observe=["sum of residual entries", "mass balance over a step"],
 technique="gated value numbering of the assembly loops; per-branch-outcome normal-form comparison of the two rows of a face, of the upwind choice with the sign of the flux, and of storage terms with the chain rule",
 level_note="Exact real arithmetic; densities, mobilities, permeabilities and areas taken as positive and upstream weights as within [0,1]; owned cells are taken to be numbered first.")
prop("C13", "Jacobians are the derivatives of the residuals installed with them",
 "For every residual and Jacobian function the library installs together, the matrix entries added for a cell or a face are exactly the derivatives of what the residual adds to that row, with respect to the column's unknown, in every case: interior or boundary face, either flow direction, each boundary-condition type, mobile or immobile fluid, local or ghost cells. The stored derivatives of state quantities (dX_dY) count as their derivatives, and boundary values as fixed.",
 ["inputs", "configurations"], "for all states of the cells, meshes, boundary-condition types and time steps, and every installed pair",
 "A wrong Jacobian still converges on small tests, slowly or to a looser tolerance; boundary branches, FV-TPF and both flow directions are not all sampled.",
 ["src/fv/mpfao/tdympfao_ts.c", "src/fv/mpfao/tdympfao_th_ts.c", "src/fv/mpfao/tdympfao_snes.c", "src/fv/fvtpf/tdyfvtpf_snes.c", "src/tdycore.c"],
 [("pairs", "src/tdycore.c TDySetIFunction .. TDySetSNESJacobian"), ("MPFA-O", "src/fv/mpfao TDyMPFAOIJacobian*, TDyMPFAOSNESJacobian"), ("FV-TPF", "src/fv/fvtpf/tdyfvtpf_snes.c TDyFVTPFSNESJacobian")],
 observe=["Newton convergence", "matrix entries against differences of the residual"],
 technique="gated value numbering of residual and Jacobian assembly, symbolic chain-rule differentiation per branch outcome, normal-form comparison entry by entry",
 level_note="Exact real arithmetic away from the kinks of upwinding; the transmissibility table is taken as the derivative of T*P, boundary values as independent of the unknowns.")
prop("C11", "State quantities are those of the unknowns at the same cell or face",
 "After an update of the state, every state quantity of a cell (saturation, relative permeability, density, viscosity, enthalpy, internal energy, and their stored derivatives) is its defining function of that same cell's unknowns and material data, in every mode and discretization and for every cell. Boundary values of pressure, temperature and concentration are the registered function at that face's centroid, or the adjacent cell's value where none is registered, and the boundary state is the same definition at the boundary values. The values used by a residual are brought up to date from the vector it was called with before they are read.",
 ["inputs", "configurations"], "for all values of the unknowns, materials, cells and boundary faces",
 "One swapped index, argument or stale array gives a plausible but wrong state in a part of the domain; tests use uniform materials and constant viscosity.",
 ["src/fv/mpfao/tdympfao.c", "src/fv/mpfao/tdympfao_utils.c", "src/fv/fvtpf/tdyfvtpf.c", "src/fe/tdywy.c"],
 [("cells", "TDyUpdateState_*"), ("boundary", "TDyUpdateBoundaryState, Set*BoundaryPressure/Temperature/Concentration"), ("current", "residual and Jacobian functions calling TDyUpdateState")],
 observe=["state arrays after TDyUpdateState", "boundary arrays"],
 technique="element-wise reading of array-filling loops and point-by-point calls (gated value numbering), composed to closed terms and compared in normal form with the definitions",
 level_note="Exact real arithmetic; equations of state and curves are opaque (C14, C29, C30); TH may evaluate density at the reference or the cell's temperature.")
prop("C30", "Every point is given its own curve and parameters by every route",
 "Whenever saturation or relative permeability is computed, on all points or on a list of points, each point is evaluated by the model it was assigned to, with the parameters stored in that point's own record, from that point's inputs into that point's outputs; every assigned point is visited and the two routes give the same parameters to the same function. Points that are not assigned to a model are not evaluated by it, and a new assignment replaces the old one completely, including the look-up tables. The set-up of each discretization stores each setting in the slot the curve reads as that parameter.",
 ["inputs", "histories"], "for all assignments of points to models, parameter values, lists of points and sequences of assignments",
 "The look-up by point and the Irmay and Gardner models are not used by any test, and all tests give every point the same parameters, so a wrong record or slot goes unnoticed.",
 ["src/materials/tdycharacteristiccurves.c", "src/fv/mpfao/tdympfao.c", "src/fv/fvtpf/tdyfvtpf.c", "src/fe/tdywy.c"],
 [("all points", "SaturationCompute, RelativePermeabilityCompute"), ("listed points", "*ComputeOnPoints, *BuildPointMaps"), ("assignment", "*SetType"), ("set-up", "InitMaterials")],
 observe=["S and kr at each point"],
 technique="element-wise reading of the evaluation, table-building, assignment and set-up loops; comparison of the record, slot and point terms at every evaluation, per model, between the routes",
 level_note="The hash table (khash) is trusted: kh_put/kh_get find the entry of the same key.")
prop("C16", "Numbers of cells, faces, vertices and other entities are never mixed up",
 "In the finite-volume and unstructured-mesh code, cells, faces, edges, vertices, subcells, boundary faces and mesh points are numbered separately: every access to a table kept for one kind of entity uses a number of that kind, and every number stored in a table of numbers is of the kind that table holds. A list belonging to an entity is addressed through that list's own offset and a position in it, and the entries of a face's cells are used as a cell's number only where they are not negative and as a boundary face's number (-1-k) only where they are. Every mesh table that is read is filled with values by some function.",
 ["inputs", "configurations"], "for all meshes, numbers of cells, boundary faces and processes",
 "In the small boxes of the tests the numberings coincide or the materials and boundary values are uniform, so a value taken from another entity is the same value.",
 ["src/fv/share/tdymesh.c", "src/fv/share/tdymeshplex.c", "src/fv/share/tdymeshcustom.c", "src/fv/share/tdyugrid.c", "src/fv/mpfao/tdympfao.c", "src/fv/mpfao/tdympfao_utils.c", "src/fv/fvtpf/tdyfvtpf.c"],
 [("mesh tables", "include/private/tdymeshimpl.h"), ("accessors", "src/fv/share/tdymesh.c TDyMeshGet*"), ("state arrays", "include/private/tdympfaoimpl.h, tdyfvtpfimpl.h")],
 observe=["values read from and written to mesh and state arrays"],
 technique="inference of the entity kind of every integer value over value numbers (tables of numbers, loop bounds, DM strata, allocation sizes), propagated through calls; kind, offset-list, sign and must-be-filled obligations at every table access",
 level_note="The kind of numbers a mesh table holds is given by a table in the check; kinds of the discretizations' arrays follow from their allocations. Values whose kind cannot be inferred are checked for consistency of their uses only.")
prop("C19", "Vectors keep their numbering and outputs carry the quantity they name",
 "A vector is only ever used in the numbering it holds: global where the solver and its callbacks work, local (with ghosts) where neighbouring cells are looked up, natural in files, in initial conditions and in what the getters return; each conversion goes in its stated direction, is made exactly once, and takes place under either mesh manager. What is returned, written or check-pointed under a name (liquid pressure, liquid saturation, liquid mass) is that quantity of the current solution, mass being density * porosity * saturation * volume of the cell. The columns, cell numbers and statistics of the regression file are those of the heading they stand under.",
 ["inputs", "configurations"], "for all meshes, partitions, discretizations and output formats",
 "On one process and a generated box the global, local and natural orders coincide, so a vector used in the wrong order, or converted twice, has the same values.",
 ["src/tdydiscretization.c", "src/tdycore.c", "src/tdyio.c", "src/tdyregression.c", "src/fv", "src/fe/tdywy.c"],
 [("conversions", "src/tdydiscretization.c, src/tdycore.c TDy*To*"), ("getters", "src/tdycore.c TDyGetLiquid*"), ("diagnostics", "TDyUpdateDiagnostics_*"), ("files", "src/tdyio.c, src/tdyregression.c")],
 observe=["values returned by the getters", "files written"],
 technique="inference of the order held by every vector handle over value numbers (conversions, callbacks, ghost look-ups, files), propagated through calls, with conflicts reported; provenance of the vectors written, gathered and stored under a name",
 level_note="DMPlex and VecScatter conversions are trusted to convert as documented. Which order a vector laid out by a DM is viewed in by PETSc itself is not analysed. Handles used in one order only carry no obligation.")
prop("C15", "Constitutive laws return the values they are named after",
 "In each region of its arguments every constitutive function returns the value of its law: with Se the effective saturation, S=(1-Sr)*Se+Sr where Se is exp(-alpha*Pc/m) (Gardner) or (1+(alpha*Pc)^(1/(1-m)))^(-m) (van Genuchten) for Pc>0, and S=1 for Pc<0; kr is Se^m (Irmay) or sqrt(Se)*(1-(1-Se^(1/m))^m)^2 (Mualem) for Se<1; water density is 998, 997.16*exp(1e-8*(p-101325)) above 101325 Pa and 997.16 below it, or Batzle and Wang's for brine, viscosity 9.94e-4 or Batzle and Wang's, enthalpy 1.8890, and the salt fraction x/(x+999) with x the salt mass. Above its cutoff the smoothed Mualem curve is the cubic that takes the unsmoothed value and slope at the cutoff and the value one with slope zero at the upper end. The model selected by the type field is the one evaluated.",
 ["inputs"], "for all real arguments and parameters in each region, for every model",
 "Only van Genuchten with Mualem at a few values is exercised; the Batzle-Wang, Gardner and Irmay laws are never run, and a wrong coefficient still gives smooth, converging results.",
 ["src/materials/tdycharacteristiccurves.c", "src/materials/tdyeos.c"],
 [("curves", "PressureSaturation_*, RelativePermeability_*"), ("equations of state", "EOSCompute*"), ("smoothing", "RelativePermeability_Mualem_GetSmoothingCoeffs, CubicPolynomial*")],
 observe=["values returned by the functions"],
 technique="value numbering of each function with the branches contradicting a region's sign facts discarded; algebraic equality of the remaining closed form with the law; row-by-row comparison of the smoothing system with the polynomial evaluated",
 level_note="Identities are those of exact real arithmetic inside each region; the boundary points (Pc=0, Se=1, p=101325) belong to the continuity of the two branches and are not compared.")
prop("C20", "Fluxes through faces obey Darcy's law",
 "The water flux the residuals assign to a face equals density times relative permeability over viscosity (of the upwind cell) times the pressure difference carried by the face, minus the weight of the water: for FV-TPF area*(P_up-P_dn-density*g.(x_dn-x_up))/(dist_up/k_up+dist_dn/k_dn) with k the permeability along the line joining the centres, for MPFA-O minus the transmissibility product and minus density times the gravity term of the same sub-face; conducted heat is minus the thermal transmissibility product. The MPFA-O gravity term of a sub-face is its area times the face permeability times gravity along the unit vector from the upwind to the downwind centre (projected on the normal for the TPF variant), with the face centre standing in for the missing cell of a boundary face. The face permeability is the distance-weighted mean of the inverse permeabilities of the two cells, inverted.",
 ["inputs", "configurations"], "for all permeabilities, geometries, states and gravity vectors; interior and boundary faces, both directions",
 "Tests use uniform permeability on uniform boxes, where distances, weights and up/down permeabilities can be exchanged freely, and never run FV-TPF.",
 ["src/fv/mpfao", "src/fv/fvtpf"],
 [("residuals", "src/fv/mpfao/*, src/fv/fvtpf/tdyfvtpf_snes.c"), ("conductance", "FVTPFComputeFacePermeabililtyValueTPF, FVTPFCalculateDistances"), ("gravity term", "ComputeGravityDiscretization, ComputeUpDownUnitVector"), ("face permeability", "ComputeFacePermeabilityValueMPFAO, ComputeFacePermeabilityValueTPF")],
 observe=["residual of a state", "velocities and pressures computed"],
 technique="symbolic evaluation (value numbering) of the per-face contributions and geometry helpers, one case per position of the boundary; comparison with the law as rational functions in the cells' permeabilities, centres and distances",
 level_note="The product of the transmissibility matrix with the pressures is taken as given (its assembly belongs to C12), as is the numerical inverse of a 3x3 matrix. Identities with square roots of lengths are compared at two generic positions of the centres.")
prop("C31", "Discretization errors converge at their theoretical order",
 "For smooth solutions the error of the pressure and of the recovered velocity of MPFA-O, FV-TPF (on K-orthogonal meshes), BDM and WY decreases at the order of the method when the mesh is refined.",
 ["inputs", "configurations"], "for all smooth solutions and sequences of meshes",
 "Tests compute one solution on one mesh and compare it with a stored one.",
 ["src/fv/mpfao", "src/fv/fvtpf", "src/fe"], [("discretizations", "src/fv, src/fe")], observe=["errors printed by demo/steady"],
 na="The property is about the size of floating-point results of linear solves as the mesh is refined; it follows from approximation theory about the whole scheme (not from any construct of the source) and needs runs or a proof about real numbers. The structural parts that static analysis does reach are claimed as C11, C12, C13, C27, C28 and C29.")
prop("C32", "Results do not depend on the number of processes",
 "The solution, diagnostics and written files of a run are the same, up to rounding and the tolerance of the solvers, for every number of processes and every partition of the mesh.",
 ["schedules", "configurations"], "for all partitions and process counts",
 "Tests run on one process, or compare one partition with a stored result.",
 ["src/fv", "src/tdydiscretization.c", "src/tdyio.c"], [("partitioned meshes", "src/fv/share, src/tdydiscretization.c")], observe=["solution and output files"],
 na="It compares the results of two runs with different partitions, which depend on data exchanged through PETSc (ghost updates, assembly of off-process entries) and on solver tolerances; no source-level rule bounds that difference. What is decidable from the source, the same order of collective operations on all processes and use of local indices only with local arrays, is claimed as C17 and C16.")
prop("C33", "A run continued from a check point reproduces the uninterrupted run",
 "A simulation restarted from a check point written at some time gives, from then on, the solution the uninterrupted simulation gives.",
 ["crash points", "histories"], "for all check-point times and all later steps",
 "The tests write and read one check point of one mode.",
 ["src/tdyti.c", "src/tdyio.c", "src/tdydriver.c"], [("check points", "src/tdyti.c, src/tdyio.c"), ("initial condition from file", "src/tdydriver.c, src/tdycore.c")], observe=["solution after restart"],
 na="A check point holds the solution vector only: step size, time and solver state start anew by design (TDycore resumes with the initial step), so the restarted run takes other steps and agrees only up to the time-discretization error, a quantity no static argument bounds.")
prop("C34", "Newton and linear solves converge for physically meaningful input",
 "For physically meaningful materials, boundary conditions and initial states every step is accepted after finitely many cuts and the simulation reaches its final time.",
 ["inputs"], "for all physically meaningful problems",
 "Tests solve a handful of mild problems.",
 ["src/tdyti.c", "src/fv/mpfao", "src/fv/fvtpf"], [("solver set-up", "src/tdyti.c, src/tdydriver.c")], observe=["SNES and KSP converged reasons"],
 na="Convergence of Newton's method and of Krylov solvers depends on the values of a nonlinear system at run time; static analysis of the source gives no bound. Claimed instead: exact Jacobians (C13, C14), correct handling of failed steps (C04) and reported failures (C01).")
