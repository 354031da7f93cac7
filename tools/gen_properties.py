"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
S = "src/tvemoves_rufbad/"
SIM, MEC, THE, DOM, HEL, INT, ITG, BEL, QUA, TEN = (S + n + ".py" for n in (
    "simulation", "mechanical_step", "thermal_step", "domain", "helpers", "interpolation",
    "integrators", "bell_finite_element", "quadrature_rules", "tensors"))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Each step hands the previous step's result on, in the staggered order",
  "Every simulation step first minimises the mechanical problem and then the thermal problem. The mechanical problem starts from the deformation and temperature of the last recorded step; the thermal problem sees that same deformation and temperature as its previous state and the deformation just computed by the mechanical solve as its current deformation. The step recorded afterwards consists of that deformation and the temperature just computed by the thermal solve, for every parameter choice, in both the plain and the regularized setting, and at every position in the history.",
  ["histories", "configurations"], "all run() histories of any length, both settings, all grids, loads and solver answers",
  "No test constructs a Simulation (it needs a solver); a test would see one short history, while the order and identity of the data handed over must hold at every step.",
  [SIM, MEC, THE], [("constructor and single-step driver", SIM + ":Simulation"), ("update/solve methods of the two steps", MEC + ", " + THE)],
  ["models given to solver.solve", "Simulation.steps"])
p("C02", "Two steps after construction, exactly n more per run(n), never rewritten",
  "Constructing a simulation records exactly two steps - the initial state (undeformed body at the initial temperature) and the result of the first mechanical plus thermal solve - and run(n) performs and appends exactly n further steps, in order, for every n >= 1. A call with n <= 0 raises ValueError without solving, recording or changing anything. A recorded step is never replaced, reordered, removed or changed by later steps.",
  ["histories", "inputs"], "all n, all sequences of run calls, both settings",
  "No test runs a simulation; the statement is over every n and every later history.",
  [SIM], [("run", SIM + ":Simulation.run"), ("recording of steps", SIM + ":Simulation")], ["Simulation.steps"])
p("C03", "Loads are evaluated at the right time and place, for both fields alike",
  "The first mechanical and thermal solves use the boundary traction and external temperature at time 0, and each later step uses them at a time exactly 1/fps after the time used by the step before, the same time for both loads. The traction used at a boundary vertex is the user's callable at that time and at that vertex's reference coordinates, its first value acting on the first and its second value on the second component of the deformation. The external temperature used is the user's callable at that time. (Unregularized setting.)",
  ["histories", "configurations"], "all step numbers, all fps, all load callables, all grids",
  "No test calls a load; the clock must be right at every step of every history.",
  [SIM, MEC, THE], [("clock", SIM + ":Simulation"), ("traction update", MEC), ("external temperature update", THE)],
  ["models given to solver.solve", "calls of the user callables"])
p("C04", "Every solve starts from the previous state inside the configured search box",
  "At every mechanical solve the unknown deformation is initialised with the previous deformation and each of its degrees of freedom is bounded to the interval [previous value - search radius, previous value + search radius]. At every thermal solve the same holds for the unknown temperature and the previous temperature, and the temperature is additionally restricted to non-negative values. This holds for the first solve and after every update, in both settings, for every vertex and every degree of freedom.",
  ["histories", "inputs"], "all previous states, all search radii, every degree of freedom, first and later solves, both settings",
  "No test touches the step classes; a sample cannot cover every degree of freedom, setting and history.",
  [MEC, THE], [("variable bounds and start values", MEC + ", " + THE)], ["models given to solver.solve"])
p("C05", "State arrays round-trip through the two minimisation steps",
  "For each of the two minimisation problems, in each setting, the arrays returned by the state getters have the documented layout (one row per vertex in grid order; plain deformation N x 2; regularized deformation N x 2 x 6 in the order u, u_x, u_y, u_xx, u_xy, u_yy; temperatures one value per vertex of the temperature grid). After updating a previous or current state with any array of that layout, the corresponding getter returns exactly that array, entry by entry, and the other states are unchanged. After a solve, the getters of the unknown return exactly the values the solver assigned to that unknown.",
  ["inputs", "configurations"], "all arrays, all grid sizes, both settings, all state kinds",
  "No test calls the step classes; off-by-one, transposed or aliased entries for particular degrees of freedom survive any sampled test.",
  [MEC, THE], [("getters and update methods", MEC + ", " + THE)], ["getters", "models given to solver.solve"])
p("C06", "Wrongly shaped state arrays are rejected before anything is changed",
  "Every entry point that takes a state array - the update methods of both minimisation problems, the construction of the thermal problem, and the construction of a recorded step - raises ValueError if the array's shape is not exactly the documented one for the setting and grid. This includes too few or too many rows, too few or too many columns or degrees of freedom, missing or additional axes, and a temperature array sized for the wrong grid. No model state has been changed when the error is raised.",
  ["inputs"], "all shapes different from the documented one, for each array argument, both settings",
  "No test passes a malformed array; one shape per test cannot cover all of them.",
  [MEC, THE, SIM], [("shape checks", MEC + ", " + THE + ", " + SIM)], ["update methods", "step construction"])
p("C07", "Clamped boundary never moves (unregularized)",
  "In the unregularized setting both components of the deformation of every vertex on the fixed part of the boundary are excluded from the optimisation (held at their start value) at every mechanical solve, and no other vertex is. Since the start value is the previous deformation and the initial deformation is the identity, the fixed part stays at its reference position in every recorded step.",
  ["histories", "configurations"], "all fix options, all grids, every vertex, every solve",
  "No test builds the mechanical model; the fixing must survive every update and solve.",
  [MEC], [("fixing of the Dirichlet vertices", MEC)], ["models given to solver.solve"])
p("C08", "Clamped edges are held exactly by the regularized model",
  "In the regularized setting, at every mechanical solve, on every edge of the fixed boundary, at both of its end points and for both deformation components, the deformation's value equals the reference position, its first derivative along the edge equals that of the identity and its second derivative along the edge is zero, as equality constraints or held values of the degrees of freedom. No further equality constraints are imposed and no degree of freedom outside the fixed boundary is held.",
  ["configurations"], "all fixed edges of any orientation, both components, all grids",
  "No test builds the regularized model.",
  [MEC], [("Dirichlet constraints", MEC)], ["models given to solver.solve"])
p("C09", "The mechanical objective is the documented energy",
  "The mechanical problem minimises: elastic energy of the new deformation at the previous temperature, plus fps times the viscous dissipation potential between the previous and the new deformation, minus the work of the boundary traction on the Neumann edges (unregularized setting) respectively plus the regularization factor times the third power of the norm of the second gradient (regularized setting). The integrals are over all triangles (Neumann edges) with their full area (length). Triangle integrals are evaluated with quadrature exact to degree 2 (plain; element-wise constant terms may use any rule) respectively 5 (regularized), edge integrals with a Gauss rule of one or more nodes. This is the functional at every solve, with the current values of previous deformation, temperature and traction.",
  ["inputs", "configurations", "histories"], "all nodal values, grids, fps, regularization factors, temperatures and loads; first and later solves",
  "No test evaluates an objective; a wrong sign, factor or argument is invisible to every existing test.",
  [MEC, HEL, ITG, INT], [("objective construction", MEC)], ["objective of the model given to solver.solve"])
p("C10", "The thermal objective is the documented energy",
  "The thermal problem minimises: diffusion (temperature gradient against the pulled-back conductivity at the previous strain) minus the heat source times temperature, where the source is the dissipation rate plus the coupling stress at previous strain and temperature times the strain rate; plus fps times [half the heat capacity constant times the squared temperature change, plus the temperature antiderivative of the internal energy at the new strain, minus the internal energy at the previous strain and temperature times the new temperature]; plus, unregularized, half the transfer coefficient times the squared difference to the external temperature over the whole boundary. Integrals use full areas and lengths; triangle integrals are evaluated with quadrature exact to degree 2 (plain) respectively 5 (regularized), edge integrals with a Gauss rule of one or more nodes. This is the functional at every solve, with the current values of all states.",
  ["inputs", "configurations", "histories"], "all nodal values, grids, fps and external temperatures; first and later solves",
  "No test evaluates an objective.",
  [THE, HEL, ITG, INT], [("objective construction", THE)], ["objective of the model given to solver.solve"])
p("C11", "All material laws are frame indifferent",
  "The austenite, martensite and total elastic potentials have the same value at F and at QF for every rotation Q, and so does the hyperelastic potential when the second gradient is rotated. The dissipation potential and rate have the same value when previous and current strain are rotated by the same Q. The pulled-back heat conductivity is the same at F and QF and is symmetric.",
  ["inputs"], "all strains with non-zero determinant, all rotations, all temperatures",
  "No test evaluates a potential; an identity over all rotations cannot be sampled to certainty.",
  [HEL], [("potentials", HEL)], ["public functions of helpers"])
p("C12", "Stress-free wells: austenite at the identity, martensite at the two shears",
  "The austenite potential and its derivative vanish at the identity. The martensite potential and its derivative vanish at both documented wells, the simple shears [1 0.5; 0 1] and [1 -0.5; 0 1], and the two published well inverses are the exact inverses of these wells. The total elastic potential interpolates between the two: it equals the martensite potential at temperature 0 and differs from it by the austenite percentage times the difference of the two, the percentage being 0 at temperature 0 and tending to 1.",
  ["inputs"], "all rotations of the wells (via frame indifference), all temperatures",
  "No test evaluates a potential.",
  [HEL], [("potentials and well constants", HEL)], ["public functions of helpers"])
p("C13", "Derivatives and thermodynamic relations between the laws are exact",
  "The published derivative of each elastic potential is its exact gradient in all four strain components, in matching positions, and the coupling stress is the gradient of the coupling part of the free energy. The internal energy is the coupling energy minus temperature times its temperature derivative plus the heat capacity constant times temperature, and the published temperature antiderivative is the integral of the entropy-free internal energy from 0 to the given temperature. These hold as identities in strain and temperature.",
  ["inputs"], "all strains and temperatures",
  "No test evaluates these functions; identities must hold at every argument.",
  [HEL], [("derivative and energy functions", HEL)], ["public functions of helpers"])
p("C14", "Dissipation: symmetric strain rate, zero at rest, rate twice the potential",
  "The strain delta is the symmetric part of the rate: (F - F_prev)^T F_prev + F_prev^T (F - F_prev). The dissipation potential is half its squared Frobenius norm - hence non-negative, zero when the strain does not change - and the dissipation rate is twice the potential times fps squared.",
  ["inputs"], "all pairs of strains and all fps",
  "No test evaluates these functions.",
  [HEL], [("dissipation functions", HEL)], ["public functions of helpers"])
p("C15", "Heat conductivity is pulled back correctly",
  "The conductivity in the reference configuration is det(F) F^-1 K F^-T with the published conductivity matrix K, for every F with non-zero determinant. In particular it is K at the identity. The 2x2 inverse used is the exact inverse and rejects other shapes with ValueError.",
  ["inputs"], "all strains with non-zero determinant",
  "No test evaluates this function.",
  [HEL, TEN], [("pull-back", HEL + ":heat_conductivity_reference"), ("inverse", TEN + ":inverse_2x2")], ["public functions"])
p("C16", "Integrators: every element once, with its own area or length and all nodes",
  "The triangle integrator returns the sum over all given triangles of the triangle's (positive, orientation-independent) area times the weighted sum of the integrand over all quadrature nodes, calling the integrand with that triangle and the node's barycentric coordinates. The edge integrator does the same for edges with the Euclidean edge length and the nodes on [0, 1]. Both work for any quadrature rule and any number of elements and give the same result when called again.",
  ["inputs"], "all meshes, integrands and quadrature rules; repeated calls",
  "No test uses an integrator.",
  [ITG], [("Integrator", ITG), ("BoundaryIntegrator", ITG)], ["Integrator.__call__", "BoundaryIntegrator.__call__"])
p("C17", "Quadrature rules have their advertised exactness",
  "Each published triangle rule has nodes inside the closed triangle and integrates all polynomials up to its nominal degree exactly up to rounding (centroid and vertex rule: 1; the others: the degree in their name; the indexed list is ordered by degree). The edge rule of any degree maps the Gauss-Legendre nodes and weights affinely to [0, 1] with weights halved, pairing each weight with its node. Constructing a triangle rule whose nodes leave the triangle or whose weights do not sum to 1 raises ValueError.",
  ["inputs"], "all polynomials up to the degree; all edge rule sizes; all malformed rules",
  "The tests try random polynomials for some rules and sizes; the vertex rule and the rejection of malformed rules are not tested.",
  [QUA], [("rule tables", QUA), ("Gauss mapping", QUA + ":GaussQuadratureRule")], ["rules' weights and points"])
p("C18", "The rectangle grid is a complete, consistently oriented triangulation",
  "For every width, height and scale with at least one cell in each direction the grid has (floor(width/scale)+1) x (floor(height/scale)+1) vertices numbered row by row from the lower left with coordinates (column x scale, row x scale). Each cell is split along its rising diagonal into two counter-clockwise triangles, each starting with its horizontal edge followed by its vertical edge. Every triangle side is an edge listed exactly once, every edge is a side of some triangle, and the boundary consists of exactly the edges lying on the four sides and their end points, without repetition.",
  ["inputs", "configurations"], "all widths, heights and scales with at least one cell per direction",
  "The grid test inspects one 3 x 2 rectangle at one scale and does not check connectivity, orientation or completeness.",
  [DOM], [("RectangleDomain.grid", DOM)], ["Grid attributes"])
p("C19", "Fix options split the boundary into Dirichlet and Neumann parts",
  "For every choice of fixed sides (none, one side as a string, or any list of sides in any order or with repetitions) the Dirichlet edges are exactly the boundary edges on the fixed sides and the Neumann edges exactly the remaining boundary edges, each without repetition. The vertices of each part are exactly the end points of its edges, without repetition. A value that names no side is rejected with ValueError instead of being ignored.",
  ["configurations", "inputs"], "all subsets of sides and spellings, all grid sizes",
  "The tests check only that Dirichlet vertices of single sides lie on that side; completeness, Neumann parts and combinations are unchecked.",
  [DOM], [("boundary split in RectangleDomain.grid", DOM)], ["Grid.dirichlet_boundary", "Grid.neumann_boundary"])
p("C20", "Refinement subdivides each triangle and knows where every refined point lies",
  "Refining a grid by factor r replaces every triangle by r^2 triangles of equal area and the same orientation that tile it, keeps the coarse vertices with their numbers and positions, appends each new position once, and leaves coarse() equal to the input grid. For every refined triangle (in any cyclic order of its vertices) and barycentric point in it, the conversion to the coarse grid returns the coarse triangle containing it and barycentric coordinates of the same Euclidean point. A triangle that is not in the refined grid raises ValueError, and so does a refinement factor below 1.",
  ["inputs", "configurations"], "all grids of the domain, all refinement factors, all barycentric points, cyclic orders",
  "The only refinement test checks one square at factor 3.",
  [DOM], [("RectangleDomain.refine", DOM), ("RefinedGrid.to_coarse_barycentric_point", DOM)], ["RefinedGrid attributes and conversions"])
p("C21", "Refined edges inherit orientation, parameter and role from the coarse edge",
  "Every edge of the refined grid that lies on a coarse edge has that edge's stored orientation and is recorded with it, and converting (fine edge, t) gives the coarse edge and the parameter of the same Euclidean point. The refined boundary, Dirichlet and Neumann parts consist of exactly the r sub-edges of the respective coarse edges, with the sub-edges' end points as vertices, each once. Fine edges that lie on no coarse edge are rejected with ValueError.",
  ["inputs", "configurations"], "all refinement factors, all stored edge orientations, all t, all boundary roles",
  "The only test converts boundary edges of one square at factor 3.",
  [DOM], [("RectangleDomain.refine", DOM), ("RefinedGrid.to_coarse_edge_point", DOM)], ["RefinedGrid attributes and conversions"])
p("C22", "Using a grid (refining, integrating, interpolating, plotting) never modifies it",
  "Creating a refined grid leaves the given grid (vertices, edges, triangles, points and all three boundaries) unchanged, and the two grids share no mutable list. Building integrators, interpolations, minimisation problems or recorded steps from a grid, evaluating them, and locating points leaves the grid unchanged as well.",
  ["histories", "inputs"], "all grids, factors and subsequent uses",
  "Tests never compare a grid before and after use.",
  [DOM, INT, ITG, MEC, THE, SIM], [("copies in RectangleDomain.refine", DOM)], ["Grid attributes"])
p("C23", "Interpolation on an edge equals interpolation in the adjacent triangle",
  "For P1 and C1 interpolations, evaluating on an edge (i, j) at t equals evaluating in a triangle at the point with weight t on i and 1 - t on j and 0 on the third vertex; reversing the edge and replacing t by 1 - t gives the same value. The boundary interpolation agrees with the P1 interpolation of the same nodal values. Hence t = 1 gives the value at the first and t = 0 at the second vertex.",
  ["inputs"], "all nodal values, triangles, edges and t",
  "The tests never evaluate an interpolation on an edge through the interpolation classes.",
  [INT, BEL], [("on_edge methods", INT), ("edge shape functions", BEL)], ["on_edge", "__call__"])
p("C24", "Gradient and Hessian are the exact derivatives of the interpolated value",
  "For P1 and C1 interpolations the reported gradient is the exact Euclidean derivative of the interpolated value with respect to the point, and for C1 the reported Hessian the exact second derivative, including the mixed entries and symmetry. This holds for triangles of any shape, position and vertex orientation. The Hessian of a P1 interpolation raises NotImplementedError.",
  ["inputs"], "all triangles, points and degrees of freedom",
  "Tests sample random triangles and polynomials up to a tolerance; clockwise triangles and single degrees of freedom are not singled out.",
  [BEL, INT], [("gradient/hessian transforms", BEL)], ["gradient", "hessian"])
p("C25", "Bell interpolation reproduces its nodal data and all quartics",
  "At each vertex of a triangle the C1 interpolation's value, gradient and second derivatives equal the six nodal degrees of freedom u, u_x, u_y, u_xx, u_xy, u_yy given for that vertex. Polynomials up to degree 4 are reproduced exactly everywhere in the triangle. A parameter vector of the wrong length is rejected with ValueError.",
  ["inputs"], "all triangles, all nodal data, all quartic polynomials",
  "Tests sample random quartics and compare inside triangles; vertex exactness for arbitrary data is not tested.",
  [BEL, INT], [("shape functions", BEL)], ["bell_interpolation*", "C1Interpolation"])
p("C26", "C1 interpolation is continuously differentiable across edges",
  "Along an edge shared by two triangles the value and the full gradient of the C1 interpolation computed in either triangle agree, for all nodal data and for every position of the two opposite vertices. In particular the value and gradient on an edge do not depend on the degrees of freedom of the opposite vertex, and the value there equals the edge evaluation.",
  ["inputs"], "all pairs of triangles sharing an edge, all nodal data, all points of the edge",
  "Tests check independence of value (and not of the gradient's neighbour) for random samples only.",
  [BEL, INT], [("shape functions", BEL)], ["C1Interpolation"])
p("C27", "Refined, Euclidean and deformation wrappers evaluate the same field",
  "A refined interpolation's value, gradient, Hessian and edge value at a fine point are those of the coarse interpolation at the corresponding coarse point. The Euclidean wrapper evaluates value, gradient and Hessian at the located triangle and coordinates and raises ValueError for points outside the grid. A deformation stacks its two components in order: value (y1, y2), strain rows grad y1 and grad y2, hyper strain slices Hessian y1 and Hessian y2, and the edge value likewise.",
  ["inputs"], "all interpolations, grids and points",
  "No test uses these wrappers.",
  [INT], [("RefinedInterpolation, EuclideanInterpolation, Deformation, EuclideanDeformation", INT)], ["call, gradient, hessian, strain, hyper_strain, on_edge"])
p("C28", "Barycentric conversion inverts barycentric evaluation",
  "For every non-degenerate triangle of the grid containing the point, the barycentric coordinates returned for a point reproduce that point when combined with the triangle's vertices in order, and sum to 1. A point is attributed to a triangle whose closed area contains it regardless of the triangle's orientation, and points outside all triangles yield None.",
  ["inputs"], "all triangles, orientations and points (in exact arithmetic)",
  "The test checks grid curve points of one unit square.",
  [DOM], [("to_barycentric_point", DOM)], ["Grid.to_barycentric_point"])
p("C29", "Tensor algebra is exact and rejects incompatible shapes and indices",
  "The operations of vectors, matrices and 3-tensors (sum, difference, negation, scaling from both sides, division, products, determinant of any size, transpose, trace, norms, Frobenius product, stacking, flattening, reshaping, indexing) compute their mathematical definition entry by entry, for all sizes. Combining operands of incompatible shapes raises ValueError, inhomogeneous initial data raises ValueError, and an index outside the shape in any axis (negative included) raises IndexError. Scalars of any numeric kind, including model expressions, are supported.",
  ["inputs"], "all shapes and entries",
  "Tests sample a few shapes and never exercise most error branches.",
  [TEN], [("tensor classes", TEN)], ["public methods of Vector, Matrix, Tensor3D"])
p("C30", "Tensor and barycentric operations have value semantics",
  "No arithmetic, mapping, transposing, stacking, slicing, comparing or converting operation of a vector, matrix or 3-tensor modifies its operands, and the results of arithmetic, mapping, extending, reshaping, flattening and numpy conversion share no mutable storage with them. Two tensors are equal exactly when they are of the same kind with the same entries. The three barycentric weights sum to 1 on construction.",
  ["inputs", "histories"], "all operands; later modification of the results",
  "Tests never check operands after an operation.",
  [TEN], [("tensor classes", TEN)], ["public methods of Vector, Matrix, Tensor3D"])
p("C31", "Invalid simulation parameters are rejected, valid ones kept",
  "Constructing simulation parameters raises ValueError exactly when the initial temperature is negative, or the search radius, fps, scale or (given) refinement factor is not positive, or a given regularization is negative, or a regularization is given without a refinement factor. Otherwise all values are kept as given, except that a refinement factor given without regularization is dropped.",
  ["inputs", "configurations"], "all parameter combinations including boundary values 0",
  "No test constructs simulation parameters.",
  [SIM], [("SimulationParams.__post_init__", SIM)], ["SimulationParams"])
p("C32", "Every configured parameter reaches the computation it configures",
  "For every simulation, the grid is the domain's grid at the configured scale, refined by the configured factor exactly in the regularized setting. The initial temperature is the previous temperature of the first step at every vertex; search radius, fps and regularization enter the mechanical and thermal problems with the configured values, unchanged and unswapped; regularization absent or present selects the plain or the regularized problems. Asking for a regularized problem without a refined grid raises ValueError.",
  ["configurations"], "all parameter values and both settings",
  "No test constructs a simulation or a step.",
  [SIM, MEC, THE], [("parameter objects and factories", SIM + ", " + MEC + ", " + THE)], ["models given to solver.solve", "domain.grid/refine calls"])
p("C33", "User loads are honoured in every setting",
  "A boundary traction and an external temperature given to the simulation influence the minimised functionals (traction work on the Neumann boundary, heat exchange over the whole boundary) and are refreshed at every step, in both the plain and the regularized setting.",
  ["configurations", "histories"], "both settings, all loads",
  "No test constructs a simulation.",
  [SIM, MEC, THE], [("load terms and updates", MEC + ", " + THE)], ["models given to solver.solve"])
p("C34", "A failed solve is never recorded as a result",
  "If the solver reports that it did not find an optimal solution in the mechanical or the thermal problem (iteration limit, infeasibility, error), the step raises an error before the solution is used or recorded. This holds at every solve, in both settings.",
  ["fault_sequences", "histories"], "all solver failures at any solve of any history, both settings",
  "No test runs a solver.",
  [MEC, THE, SIM], [("solve methods", MEC + ", " + THE)], ["solver.solve calls"])
p("C35", "Simulations are isolated and deterministic",
  "No public operation depends on randomness, wall-clock time, environment or mutable global state, and none writes state shared between objects (module or class level, default arguments). Two simulations built from equal inputs perform the same sequence of model updates and solves regardless of what else ran in the process.",
  ["histories", "schedules"], "all interleavings of operations on different objects",
  "Tests run each object once.",
  [SIM, MEC, THE, DOM, INT, ITG, QUA, HEL, BEL, TEN], [("absence of shared writes", "all modules")], ["effects of public operations"])
p("C36", "Every internal call and name is well-formed",
  "Every call from one part of the package to another binds to the callee's parameters, every name and every attribute of a package module or object that code refers to exists, on all code paths including error and plotting paths. So no user action ends in an accidental TypeError, NameError or AttributeError.",
  ["programs", "inputs"], "all call sites and references, including rarely executed branches",
  "Tests execute no plotting, simulation or step code at all.",
  [SIM, MEC, THE, DOM, INT, ITG, QUA, HEL, BEL, TEN], [("call sites", "all modules")], ["source"])
p("C37", "Plot limits enclose every recorded state; step access is bounds-checked",
  "After every recorded step the maximal temperature is the maximum over all recorded temperatures (and 0), and the plotting window spans at least the minimum and maximum of the first and second deformation components over all recorded steps (in the unregularized setting exactly). Plotting or saving a step index outside [-len, len) does nothing, and a saved file is named with the non-negative index of the step saved.",
  ["histories", "inputs"], "all histories and indices",
  "No test constructs a simulation.",
  [SIM], [("envelope tracking and step access", SIM)], ["Simulation.max_temp", "axis limits", "saved file names"])
p("C38", "Domain curves span the rectangle",
  "For all numbers of points and internal curves, the domain's curves are the evenly spaced horizontal lines (boundary lines included) followed by the evenly spaced vertical lines, each a list of the requested number of evenly spaced points from side to side. If the number of vertical curves is not given it equals the number of horizontal ones.",
  ["inputs"], "all rectangle sizes and counts",
  "The test inspects one rectangle and skips the positions of the lines.",
  [DOM], [("RectangleDomain.curves", DOM)], ["RectangleDomain.curves"])
p("C39", "Recorded steps evaluate the recorded data",
  "A recorded step's deformation and temperature, evaluated at any point of the body, are the finite-element interpolation (P1 respectively C1 for the deformation, P1 on the temperature grid for the temperature) of exactly the arrays it was recorded with, first component first. The temperature plot uses these fields at the points of the plotting grid together with that grid's triangles and a colour range from 0 to the maximal temperature.",
  ["inputs", "configurations"], "all recorded arrays, all points, both settings",
  "No test constructs a recorded step.",
  [SIM, INT], [("Step / RegularizedStep", SIM)], ["AbstractStep.y", "AbstractStep.theta", "plot"])
p("C40", "The computed energies decrease and the discrete solution converges",
  "With a converged solver, the total energy never increases without load and the scheme converges to the continuum evolution as scale and time step tend to zero.",
  ["inputs", "histories"], "all evolutions",
  "Needs a solver; a numerical statement.",
  [MEC, THE], [("minimising movements scheme", MEC + ", " + THE)], ["recorded steps"])
p("C41", "Deformation gradients stay invertible during the optimisation",
  "Every deformation recorded by a simulation has positive determinant of the strain at all quadrature points.",
  ["histories", "inputs"], "all evolutions",
  "Depends on the values an external solver returns.",
  [MEC], [("logarithmic barrier in the austenite potential", HEL)], ["recorded steps"])
p("C42", "Point location is exact in floating point and grids hit the rectangle's border",
  "Point location attributes every floating-point point of the body to a triangle, and a scale that divides width and height in exact arithmetic yields a grid whose last row and column lie on the rectangle's border.",
  ["inputs"], "all floating-point widths, heights, scales and points",
  "Rounding behaviour over all doubles.",
  [DOM], [("tolerance in the containment test, truncation in the vertex count", DOM)], ["Grid"])
p("C43", "Recorded temperatures returned by the solver are always admissible inputs",
  "A temperature returned by the solver can always be handed to the next step, i.e. no solver answer within its tolerance violates the non-negativity of the next step's data.",
  ["histories", "fault_sequences"], "all solver answers",
  "Depends on the bound relaxation of the external solver.",
  [MEC, THE], [("non-negative parameter domain", MEC + ", " + THE)], ["update_prev_theta"])
p("C44", "Grid equality: the same grid up to numbering, order and orientation",
  "Two grids compare equal exactly when one is the other up to the numbering of the vertices, the order of all lists, the direction of edges and the cyclic rotation of triangles (a triangle of opposite orientation is a different one); the outer, the fixed and the free part of the boundary, vertices and edges, take part in the comparison. Positions agree when they differ by rounding only, relative to the size of the mesh: differences of a hundred-thousandth of an edge length count, for meshes of any size. The comparison is symmetric, modifies neither grid, treats a grid and a refined grid alike, and a grid never equals an object that is not a grid.",
  ["inputs", "configurations"], "all pairs of grids without repeated elements, all sizes and numberings",
  "Tests compare a few pairs; the guarantee is about every way two grids can differ or be written differently.",
  [DOM], [("Grid.__eq__, _boundaries_coincide, _points_coincide", DOM)], ["Grid.__eq__"])
p("C45", "Grid lookups find exactly what is there, also after edges are appended",
  "The lookup of a position returns the number of the vertex at that position (up to rounding relative to the size of the mesh) and None for every other position. Looking up the corners of a triangle or an edge returns the positions of its vertices in the order of the triple or pair, and raises ValueError for one that is not listed exactly so (also in another rotation or direction). Appending an edge adds it at the end unless it is there already in either direction, changes nothing else, and lookups keep working afterwards, also on a grid that had no edges before. Lookups leave the grid unchanged.",
  ["inputs", "histories"], "all grids, positions, triples and pairs, all sequences of appended edges",
  "Tests sample single calls on one grid size.",
  [DOM], [("Grid.point_to_vertex, triangle_vertices, edge_vertices, append_edge", DOM)], ["Grid.point_to_vertex", "Grid.triangle_vertices", "Grid.edge_vertices", "Grid.append_edge"])
p("C46", "Figures show one step alone, and looking at results changes nothing",
  "Plotting or saving a recorded step draws it on a figure of its own, and every frame of an animation is drawn on a cleared axis on which the window is set again, so no figure shows parts of another step. Saving a step writes one file after drawing, plotting writes none, and saving an animation writes one video with the given name (default 'animation'). Plotting, saving and animating, at any time and in any number, change no recorded step and nothing that later steps, problems or loads depend on.",
  ["histories", "inputs"], "all histories of steps with plots, saves and animations in between, both settings",
  "Tests cannot look at figures and do not mix plotting with running.",
  [SIM], [("Simulation._plot_step, save_step, save_animation", SIM)], ["Simulation.plot_step", "Simulation.save_step", "Simulation.save_animation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
