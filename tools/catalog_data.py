TODO = "contracts for these functions are not written yet"
PG = "src/equations/PerfectGas.cpp"

prop("C01", "A conservative time step changes a cell by the difference of its face fluxes",
     "One conservative update of a patch sets every cell of the updated box to its old value plus dt/dx times (flux through its left face minus flux through its right face), for every component, direction, box position, extent and memory layout, and writes nothing else. "
     "The sequential, SIMD and OpenMP variants compute the same values. Hence what one cell loses through an inner face its neighbour gains.",
     ["inputs", "configurations"], "all patches of rank 1 to 3 with arbitrary lower corner, extents, strides and ghost cells, all fluxes, dt and dx, every execution variant",
     "the tests exercise a handful of fixed patches; sizes that leave SIMD remainders, offset boxes, ghost cells and every direction are unbounded",
     ["src/HyperbolicPatchIntegrator.cpp", "include/fub/HyperbolicPatchIntegrator.hpp", "include/fub/ForEach.hpp", "include/fub/PatchDataView.hpp"],
     [("patch integrator", "src/HyperbolicPatchIntegrator.cpp:HyperbolicPatchIntegrator::UpdateConservatively"),
      ("row iteration", "include/fub/ForEach.hpp / include/fub/PatchDataView.hpp:ForEachRow")],
     note="The three-dimensional SIMD proofs run in the thorough tier; in the quick tier those three instances are only tested on random patches (bounded, not counted as proved).")

prop("C02", "Euler equations: flux and equation of state of the perfect gas models",
     "For a perfect gas and a perfect gas mixture in one, two and three dimensions the physical flux of a state is the Euler flux (mass, momentum plus pressure in the flux direction, energy plus pressure, species and passive scalars transported with the velocity), and completing a conservative or primitive state yields the pressure and speed of sound of the equation of state while keeping the given variables. "
     "The array variants give in each lane what the scalar variant gives, and the masked ones do so for every active lane with positive density, whatever the inactive lanes hold.",
     ["inputs", "configurations"], "all admissible states, all heat capacity ratios above one, all lane contents and masks, every direction and rank",
     "tests compare a few hand-picked states; equality of scalar, array and masked code on every state and mask is a statement about all inputs",
     [PG, "include/fub/equations/PerfectGas.hpp", "src/equations/PerfectGasMix.cpp", "include/fub/equations/PerfectGasMix.hpp"],
     [("perfect gas flux and completion", PG + ":Flux, CompleteFromCons, CompleteFromPrim"),
      ("mixture flux and completion", "src/equations/PerfectGasMix.cpp:Flux, CompleteFromCons, CompleteFromPrim")],
     note="Mixtures are instantiated with two species and one passive scalar.")

prop("C03", "Advection, Burgers, shallow water: fluxes and exact Riemann solutions",
     "The physical fluxes of linear advection, the Burgers equation and the shallow water equations are those of the equations, and the exact Riemann solvers return the value the self-similar solution takes on the face (shocks, rarefactions, sonic points, transverse momentum included). "
     "The signal speeds bound the speeds of the waves; the array variants solve the same problem independently in every lane.",
     ["inputs"], "all admissible left and right states, velocities, gravity constants, directions and lanes; whenever the iteration for the shallow water middle state converges",
     "tests sample a few dam breaks; sonic and supersonic cases, both directions and each lane form a continuum",
     ["src/equations/Advection.cpp", "src/equations/Burgers.cpp", "src/equations/ShallowWater.cpp", "include/fub/NewtonIteration.hpp"],
     [("Burgers Riemann solver", "src/equations/Burgers.cpp:ExactRiemannSolver<Burgers1d>"),
      ("shallow water Riemann solver", "src/equations/ShallowWater.cpp:ExactRiemannSolver<ShallowWater>")],
     note="The shallow water solver is cut at the middle state (contract proved on its own, positivity of the middle height assumed); convergence of the Newton iteration is not claimed.")

prop("C04", "Patch loops compute every face and cell from its own stencil",
     "Computing the numerical fluxes of a patch stores on every face of the flux view the numerical flux of the stencil of cells centred on that face, for every direction, box position, extent, stencil width and memory layout, whatever the numerical flux is. "
     "Completing the conserved variables of a patch keeps them and gives every cell the auxiliary variables of its own conserved variables. "
     "The sequential, chunked and OpenMP variants give the same values, and no variant touches memory outside the views.",
     ["inputs", "configurations"], "all patches of rank 1 to 3, all box positions, extents, ghost cells and strides, arbitrary numerical fluxes of two or four cells, every execution variant",
     "tests exercise a few fixed patches; chunk remainders, offset boxes, wide stencils and every direction are unbounded",
     ["include/fub/flux_method/FluxMethod.hpp", "include/fub/CompleteFromCons.hpp", "include/fub/ForEach.hpp", "include/fub/State.hpp", "include/fub/StateRow.hpp"],
     [("flux loop", "include/fub/flux_method/FluxMethod.hpp:FluxMethod::ComputeNumericFluxes"),
      ("completion loop", "include/fub/CompleteFromCons.hpp:CompleteFromConsFn, CompleteFromCons")],
     note="The two-dimensional chunked flux loops are proved in the thorough tier; in the quick tier they are only tested on random patches (bounded, not counted as proved).")

prop("C05", "Numerical fluxes: HLL, Godunov and HLLEM",
     "The HLL flux of two states is the flux of the two-wave solution with the given signal speeds (the physical flux of the upwind state when all waves move to one side) and the Godunov flux is the physical flux of the Riemann solution, for any equation. "
     "The HLLEM flux and Riemann solution of the perfect gas are the HLLE ones with antidiffusion in the contact and shear waves, resolve stationary contacts exactly, are consistent with the physical flux, and with Larrouturou upwinding transport the transverse velocities with the mass flux. "
     "The array variants give in each lane what the scalar variant gives, the masked ones on every open face, with zero flux on closed faces for HLLEM and Godunov.",
     ["inputs", "configurations"], "all pairs of admissible states in one to three dimensions, all heat capacity ratios above one, arbitrary signal speeds, Riemann solvers, lane contents and masks",
     "tests compare no numerical flux with its definition; equality on all pairs of states, lanes and masks is a statement about all inputs",
     ["include/fub/flux_method/HllMethod.hpp", "include/fub/flux_method/GodunovMethod.hpp", "src/equations/perfect_gas/HllemMethod.hpp"],
     [("HLL", "include/fub/flux_method/HllMethod.hpp:HllBase, HllArrayBase"),
      ("Godunov", "include/fub/flux_method/GodunovMethod.hpp:Godunov"),
      ("HLLEM", "src/equations/perfect_gas/HllemMethod.hpp:Hllem::ComputeNumericFlux, SolveRiemannProblem")],
     note="HLLEM is verified for the perfect gas (mixtures share the code but are not instantiated).")

prop("C06", "Stable time steps are bounded by the fastest wave on every face",
     "The stable time step of a patch is not larger than the time step bound of any face with a complete stencil inside the patch, and not smaller than a common lower bound of all of them, for every direction, box position, extent and execution variant. "
     "On one face the HLL, Godunov and HLLEM methods return the time in which the fastest signal crosses one cell; closed faces do not restrict it. "
     "The Einfeldt signal velocities of the perfect gas are the extremes of the acoustic speeds on both sides and of the Roe average, in the scalar, array and masked variants.",
     ["inputs", "configurations"], "all patches, all admissible states, arbitrary signal speeds, lane contents and masks, every direction and rank",
     "a missed face only shows when the fastest wave sits there; which one that is ranges over all faces of all patches",
     ["include/fub/flux_method/FluxMethod.hpp", "include/fub/flux_method/HllMethod.hpp", "include/fub/flux_method/GodunovMethod.hpp", "src/equations/perfect_gas/HllemMethod.hpp", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp"],
     [("patch time step", "include/fub/flux_method/FluxMethod.hpp:FluxMethod::ComputeStableDt"),
      ("face time step", "include/fub/flux_method/HllMethod.hpp, GodunovMethod.hpp, src/equations/perfect_gas/HllemMethod.hpp:ComputeStableDt"),
      ("signal velocities", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp:EinfeldtSignalVelocities")],
     note="The two-dimensional chunked and the three-dimensional sequential patch loops are only tested on random patches (bounded, not counted as proved).")

prop("C12", "Operator splitting invokes its operators in the documented order and parts",
     "Godunov splitting applies every operator once with the whole step, Strang splitting applies them forwards and backwards with half steps (the lumped variant joins the two inner half steps), for two, three and more operators; the first failure stops the step and is returned unchanged. "
     "The directions of a dimensional splitting are every direction exactly once, ascending in even and descending in odd steps.",
     ["inputs", "histories"], "all step sizes, all outcomes of every operator call, all cycle and subcycle numbers, ranks one to three",
     "a failure can strike at any call and the order depends on the step number: the histories are too many to sample",
     ["src/split_method/GodunovSplitting.cpp", "src/split_method/StrangSplitting.cpp", "src/split_method/StrangSplittingLumped.cpp", "include/fub/split_method/SplittingMethod.hpp"],
     [("splitting methods", "src/split_method: GodunovSplitting::Advance, StrangSplitting::Advance, StrangSplittingLumped::Advance"),
      ("directions", "include/fub/split_method/SplittingMethod.hpp:MakeSplitDirections, AdvanceRecursively, AnySplitMethod")],
     note="The operators are arbitrary contracts that succeed or fail; up to four of them.")

prop("C13", "Advancing a hierarchy: substeps, order of operations, step size failures",
     "Advancing a level advances the next finer level by equal substeps that add up to the step (or one equal step without subcycling), then the level itself, then corrects its coarse fluxes, averages down, completes and stores the state, each exactly once and in this order. "
     "On one level every split step refreshes boundaries, computes fluxes, updates, completes and accumulates fluxes exactly once, and no split step is larger than the stable step size over all processes. "
     "A failure on any level stops the step and is reported as an admissible step size of the coarsest level; the stable step size of the hierarchy is bounded by that of every level.",
     ["inputs", "histories"], "all levels, refinement ratios, step sizes, and outcomes of every operation; hierarchies of any depth by induction over the levels",
     "the interleaving of levels, substeps and failures grows with the hierarchy; no test runs one",
     ["include/fub/solver/DimensionalSplitLevelIntegrator.hpp", "include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp", "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp", "include/fub/solver/SolverFacade.hpp"],
     [("level step", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp:AdvanceLevelNonRecursively, PreAdvanceLevel, ComputeStableDt"),
      ("hierarchy step", "include/fub/solver/SubcycleFineFirstSolver.hpp, NoSubcycleSolver.hpp:AdvanceLevel, AdvanceHierarchy, ComputeStableDt"),
      ("source terms", "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp:AdvanceLevelNonRecursively")],
     note="The mesh operations are arbitrary contracts with ghost state; the recursive call is replaced by the contract being proved. Levels above six are not covered by the scaling of failures; the reduction over processes is an assumed contract.")

prop("C09", "Rotations, reflections and reflective boundaries",
     "Rotating a state applies the rotation matrix to its momentum and reflecting it reverses the part of its momentum along the given normal; everything else is kept, also when done in place, for the perfect gas and the perfect gas mixture in every dimension. "
     "The rotation made from two unit vectors maps the first to the second and preserves lengths and angles. "
     "A reflective boundary fills every ghost cell of the given box with the reflected state of its mirror image at the face between ghost and inner cells, and leaves all other cells unchanged.",
     ["inputs", "configurations"], "all states, matrices, normals, unit vectors, boxes of ghost cells of any width, sides, directions and patches of rank one to three",
     "the tests do not exercise boundaries at all; mirrored positions depend on width, side, direction and offset of the box",
     ["src/boundary_condition/ReflectiveBoundary.cpp", "include/fub/boundary_condition/ReflectiveBoundary.hpp", PG, "src/equations/PerfectGasMix.cpp", "include/fub/ext/Eigen.hpp"],
     [("mirror index", "src/boundary_condition/ReflectiveBoundary.cpp:ReflectIndex"),
      ("ghost cell loop", "include/fub/boundary_condition/ReflectiveBoundary.hpp:ReflectiveBoundary::FillBoundary"),
      ("states", "src/equations/PerfectGas.cpp, PerfectGasMix.cpp:Rotate, Reflect"),
      ("rotation matrix", "include/fub/ext/Eigen.hpp:MakeRotation, UnitVector")],
     note="In three dimensions opposite vectors are mapped by a point reflection (an isometry that is not orientation preserving). Boundary conditions of the AMReX layer are not compiled here and not covered.")

prop("C14", "The run loop: output times, step size limits, retries, end of the run",
     "Every time step is the largest one that passes neither the final time nor the next output time nor the CFL fraction of the stable step size; a step that fails restores the last accepted state completely and is repeated with the reported step size. "
     "Output is written for accepted states only, for every state for which it is due, by exactly the outputs that are due, and the run ends at the final time or the cycle limit. "
     "Outputs are due at the multiples of their frequencies and intervals, and the next output time is the first such time.",
     ["inputs", "histories"], "all runs: any number of steps, failures and outputs, all step sizes, times, limits and schedules",
     "whether a retry restores everything depends on the history of failures and outputs; no test runs the loop",
     ["include/fub/RunSimulation.hpp", "include/fub/output/MultipleOutputs.hpp", "include/fub/output/OutputAtFrequencyOrInterval.hpp"],
     [("run loop", "include/fub/RunSimulation.hpp:RunSimulation"),
      ("schedules", "include/fub/output/OutputAtFrequencyOrInterval.hpp:NextOutputTime, ShallOutputNow"),
      ("several outputs", "include/fub/output/MultipleOutputs.hpp")],
     note="Solver and grid are arbitrary contracts with ghost state. Log statements and time measurement are left out of the verified text. At most two frequencies, two intervals and three outputs.")

prop("C08", "Second order reconstruction: slopes, limiters, MUSCL-Hancock, characteristics",
     "The second order methods replace the two states at a face by their limited linear profiles at the face, evolved for half a time step by the equations, in conservative, primitive or characteristic variables (scaled with the reference Mach number), and apply the first order flux to them. "
     "Limited slopes vanish at extrema and lie between the one-sided differences as the chosen limiter prescribes; covered cells never contribute to a slope. "
     "The sequential and SIMD variants do this in every lane, direction and dimension, for species and passive scalars alike.",
     ["inputs"], "all stencils of admissible states, slopes, step sizes, mesh widths, directions, sides and covering masks",
     "limiters, upwinding and masks select different formulas; no test compares them",
     ["include/fub/flux_method/MusclHancockMethod.hpp", "include/fub/flux_method/MusclHancockMethod2.hpp", "include/fub/flux_method/Gradient.hpp", "include/fub/flux_method/Reconstruct.hpp", "src/equations/perfect_gas/MusclHancockPrimMethod.cpp", "src/equations/perfect_gas/MusclHancockCharacteristic.cpp"],
     [("slopes", "include/fub/flux_method/Gradient.hpp, MusclHancockMethod.hpp:ComputeGradient, ComputeLimitedSlope"),
      ("reconstruction", "include/fub/flux_method/Reconstruct.hpp:Reconstruct"),
      ("fluxes", "include/fub/flux_method/MusclHancockMethod.hpp, MusclHancockMethod2.hpp:ComputeNumericFlux"),
      ("perfect gas", "src/equations/perfect_gas/MusclHancock*:ComputeNumericFlux")],
     note="The primitive variable method of the perfect gas (three harnesses) is beyond the verifier and only tested on random stencils (bounded, not counted as proved). PrimitiveReconstruction::ReconstructInvers, which nothing calls, is not covered.")

prop("C10", "Index boxes, views and loops over indices",
     "Index boxes are products of half open intervals: containment, intersection, growing, shrinking, shifting, embedding and projecting act in each direction as on intervals, disjoint boxes have an empty intersection. "
     "Views of patch data address, for every origin, extent and stride, the element of the given index; a view cut out of another one, for a sub-box or a component, addresses the same elements at the same indices. "
     "The loops over the indices of a box or a mapping visit every index exactly once and no other.",
     ["inputs"], "all boxes, indices, origins, extents and strides of rank one to four",
     "errors show for unequal extents, nonzero origins, strides with gaps, empty boxes or high ranks only; every other part relies on them",
     ["include/fub/PatchDataView.hpp", "include/fub/ForEach.hpp", "include/fub/core/mdspan.hpp"],
     [("boxes", "include/fub/PatchDataView.hpp:Contains, Intersect, Grow, Shrink, Embed, Project, Neighborhood, Shift, LeftTo, RightTo"),
      ("views", "include/fub/PatchDataView.hpp:PatchDataView::operator(), Box, Subview, SliceLast; include/fub/core/mdspan.hpp:mapping, subspan"),
      ("loops", "include/fub/ForEach.hpp:ForEachIndex")],
     note="Integers are mathematical up to 10^12 in magnitude: overflow of index arithmetic is not considered.")

prop("C11", "States, views of states and rows",
     "Loading a state or a pack of states from a view, by index or by pointer, yields for every component the data of exactly the addressed cells, and storing writes exactly these cells and leaves all others unchanged; partial packs touch the requested number of cells only. "
     "Shrunken and constant views address the same data, loops over rows pass every row of all views together exactly once. "
     "The components of a state are numbered consecutively, for every number of species and passive scalars, and copying from and to buffers follows this numbering.",
     ["inputs"], "all views (extents, origins, paddings), cells, pack sizes, states of one to three dimensions",
     "which element a component is loaded from depends on strides, offsets and the number of species; no test compares all components",
     ["include/fub/State.hpp", "include/fub/StateArray.hpp", "include/fub/StateRow.hpp", "include/fub/ext/Eigen.hpp"],
     [("states", "include/fub/State.hpp:Load, Store, Shrink, Begin, Advance, IndexMapping, CopyFromBuffer, CopyToBuffer"),
      ("packs", "include/fub/StateArray.hpp:Load, LoadN, Store, StoreN"),
      ("rows", "include/fub/StateRow.hpp:ForEachRow, Row")],
     note="Cells are adjacent in memory in the first direction (the only layout the solver uses). Up to three species and passive scalars.")

prop("C15", "Implicit geometries: sign and distance",
     "The implicit geometries tell inside from outside by their sign: positive inside a polygon (even-odd rule) and inside the tube around a center line, negative inside a cone (positive if inverted), signed along the normal of a half space. "
     "The magnitude is the distance to the nearest edge of a polygon, to the plane of a half space, to the nearest segment of a tube (segments meet in the planes that bisect their directions) and, below the base disc and above the apex, to the disc or apex of a cone, beside it to its lateral surface unless the rim is nearer. "
     "Inverting negates the distance, rotating evaluates the geometry at the rotated point, and the points of a center line are read from a file in order.",
     ["inputs"], "all points, half spaces, cones, center lines and polygons",
     "each region around a geometry takes another branch, and polygons are evaluated in chunks of edges; no test covers geometries",
     ["src/geometry/Cone.cpp", "src/geometry/ExpandTube.cpp", "src/geometry/Polygon.cpp", "src/geometry/Halfspace.cpp", "include/fub/geometry/Invert.hpp", "include/fub/geometry/RotateAxis.hpp"],
     [("cone", "src/geometry/Cone.cpp:ConeIF::ComputeDistanceTo"),
      ("tube", "src/geometry/ExpandTube.cpp:ExpandTube::operator(), ReadPointsFromFile"),
      ("polygon", "src/geometry/Polygon.cpp:Polygon::ComputeDistanceTo"),
      ("others", "include/fub/geometry/Invert.hpp, RotateAxis.hpp, RotateAroundPoint.hpp; src/geometry/Halfspace.cpp")],
     note="Tubes of one to three segments in the plane are proved. Polygons, the file of points and the choice between disc and lateral surface inside a cone are only tested on random inputs (bounded, not counted as proved); below the rim of a cone only the sign is claimed.")
