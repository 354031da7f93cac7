EDITS=[
("mechanical_step","from typing import Protocol, Callable\n","from typing import Protocol, Callable, Iterable\nfrom itertools import product, chain\n"),
("mechanical_step",'''    m.y1 = pyo.Var(m.vertices, within=pyo.Reals)
    m.y2 = pyo.Var(m.vertices, within=pyo.Reals)
    for v in m.vertices:
        m.y1[v] = m.prev_y1[v]
        m.y1[v].bounds = (
            m.prev_y1[v] - search_radius,
            m.prev_y1[v] + search_radius,
        )
        m.y2[v] = m.prev_y2[v]
        m.y2[v].bounds = (
            m.prev_y2[v] - search_radius,
            m.prev_y2[v] + search_radius,
        )

    for v in m.dirichlet_vertices:
        m.y1[v].fix()
        m.y2[v].fix()
''','''    for name, prev in (("y1", m.prev_y1), ("y2", m.prev_y2)):
        component = pyo.Var(m.vertices, within=pyo.Reals)
        m.add_component(name, component)
        for v in m.vertices:
            _center(component[v], prev[v], search_radius)
        for v in m.dirichlet_vertices:
            component[v].fix()
'''),
("mechanical_step",'''    m.y1 = pyo.Var(m.deformation_indices, within=pyo.Reals)
    m.y2 = pyo.Var(m.deformation_indices, within=pyo.Reals)

    for i in m.deformation_indices:
        m.y1[i] = m.prev_y1[i]
        m.y1[i].bounds = (
            m.prev_y1[i] - search_radius,
            m.prev_y1[i] + search_radius,
        )
        m.y2[i] = m.prev_y2[i]
        m.y2[i].bounds = (
            m.prev_y2[i] - search_radius,
            m.prev_y2[i] + search_radius,
        )
''','''    m.y1 = pyo.Var(m.deformation_indices, within=pyo.Reals)
    m.y2 = pyo.Var(m.deformation_indices, within=pyo.Reals)

    for var, param in zip((m.y1, m.y2), (m.prev_y1, m.prev_y2)):
        for i in m.deformation_indices:
            _center(var[i], param[i], search_radius)
'''),
("mechanical_step",'''    prev_y1_params = [[m.prev_y1[i, j] for j in list(m.c1_indices)] for i in list(m.vertices)]
    prev_y1 = RefinedInterpolation(C1Interpolation(grid, prev_y1_params), refined_grid)
    prev_y2_params = [[m.prev_y2[i, j] for j in list(m.c1_indices)] for i in list(m.vertices)]
    prev_y2 = RefinedInterpolation(C1Interpolation(grid, prev_y2_params), refined_grid)
    prev_deform = Deformation(prev_y1, prev_y2)
''','''    def refined_deformation(*components):
        nodal = (
            [[component[i, j] for j in m.c1_indices] for i in m.vertices]
            for component in components
        )
        return Deformation(
            *(RefinedInterpolation(C1Interpolation(grid, rows), refined_grid) for rows in nodal)
        )

    prev_deform = refined_deformation(m.prev_y1, m.prev_y2)
'''),
("mechanical_step",'''    y1_params = [[m.y1[i, j] for j in list(m.c1_indices)] for i in list(m.vertices)]
    y1 = RefinedInterpolation(C1Interpolation(grid, y1_params), refined_grid)
    y2_params = [[m.y2[i, j] for j in list(m.c1_indices)] for i in list(m.vertices)]
    y2 = RefinedInterpolation(C1Interpolation(grid, y2_params), refined_grid)
    deform = Deformation(y1, y2)
''','''    deform = refined_deformation(m.y1, m.y2)
'''),
("mechanical_step",'''    for v in grid.dirichlet_boundary.vertices:
        m.y1[v + 1, 1].fix()
        m.y2[v + 1, 1].fix()
''','''    for v, var in product(grid.dirichlet_boundary.vertices, (m.y1, m.y2)):
        var[v + 1, 1].fix()
'''),
("mechanical_step","HYPER_STRAIN_POWER = 4\n",'''HYPER_STRAIN_POWER = 4


def _center(variable, value, radius) -> None:
    """Make value the starting guess and the center of the search range of the variable."""
    variable.set_value(value)
    variable.setlb(value - radius)
    variable.setub(value + radius)


def _assert_shape(data: npt.NDArray[np.float64], shape: tuple[int, ...]) -> None:
    if data.shape == shape:
        return
    raise ValueError(f"Input array has incorrect shape {data.shape} (should be {shape})")
'''),
("thermal_step",'''    m.theta = pyo.Var(m.vertices, within=pyo.NonNegativeReals)
    for v in m.vertices:
        m.theta[v] = m.prev_theta[v]
        m.theta[v].bounds = (
            m.prev_theta[v] - search_radius,
            m.prev_theta[v] + search_radius,
        )
''','''    m.theta = pyo.Var(
        m.vertices,
        within=pyo.NonNegativeReals,
        initialize=lambda model, v: model.prev_theta[v].value,
        bounds=lambda model, v: (
            model.prev_theta[v].value - search_radius,
            model.prev_theta[v].value + search_radius,
        ),
    )
'''),
("simulation",'''        if self.initial_temperature < 0:
            raise ValueError(
                f"initial temperature must be non-negative but {self.initial_temperature} was"
                " provided"
            )

        if self.search_radius <= 0:
            raise ValueError(
                f"search radius must be positive but {self.search_radius} was provided"
            )

        if self.fps <= 0:
            raise ValueError(f"fps must be positive but {self.fps} was provided")
''','''        if self.initial_temperature < 0:
            raise ValueError(
                f"initial temperature must be non-negative but {self.initial_temperature} was"
                " provided"
            )

        for name in ("search_radius", "fps"):
            if (value := getattr(self, name)) <= 0:
                raise ValueError(f"{name} must be positive but {value} was provided")
'''),
("simulation",'''        y1_params = y_data[:, 0].tolist()
        y1_interpolation = P1Interpolation(grid, y1_params)
        y2_params = y_data[:, 1].tolist()
        y2_interpolation = P1Interpolation(grid, y2_params)
        y = EuclideanDeformation(y1_interpolation, y2_interpolation)
''','''        y = EuclideanDeformation(
            *(P1Interpolation(grid, column.tolist()) for column in y_data.transpose())
        )
'''),
("simulation",'''        y1_params = y_data[:, 0, :].tolist()
        y1_interpolation = C1Interpolation(grid, y1_params)
        y2_params = y_data[:, 1, :].tolist()
        y2_interpolation = C1Interpolation(grid, y2_params)
        y = EuclideanDeformation(y1_interpolation, y2_interpolation)
''','''        y = EuclideanDeformation(
            *(C1Interpolation(grid, y_data[:, component].tolist()) for component in range(2))
        )
'''),
("quadrature_rules",'''        for p in points:
            x, y = p
            if x < 0 or y < 0 or x + y > 1:
                raise ValueError(
                    "quadrature points not all contained in an equalteral unit triangle"
                )
        if not isclose(sum(w for w in weights), 1):
            raise ValueError("weights must sum up to 1")

        self.points = [BarycentricCoordinates(p[0], p[1]) for p in points]
''','''        if not all(x >= 0 and y >= 0 and x + y <= 1 for x, y in points):
            raise ValueError("quadrature points not all contained in an equalteral unit triangle")
        if not isclose(sum(weights), 1):
            raise ValueError("weights must sum up to 1")

        self.points = [BarycentricCoordinates(*p) for p in points]
'''),
("quadrature_rules",'''        points, weights = leggauss(degree)
        # transform the points and weights to the unit interval [0, 1]
        points = (1 + points) / 2
        weights /= 2
        self.points = list(points)
        self.weights = list(weights)
''','''        rule = leggauss(degree)
        # transform the points and weights to the unit interval [0, 1]
        self.points = [0.5 * (x + 1) for x in rule[0]]
        self.weights = [0.5 * w for w in rule[1]]
'''),
("helpers",'''    return lambda *args: outer(*(f(*args) for f in inner))
''','''
    def integrand(*args):
        values = []
        for f in inner:
            values.append(f(*args))
        return outer(*values)

    return integrand
'''),
]
FUNCS=[]
def f(m,q,s): FUNCS.append((m,q,s))
f("mechanical_step","_MechanicalStep.update_prev_y",'''
def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
    _assert_shape(new_prev_y, (self._num_vertices, 2))
    m = self._model
    for i, (y1, y2) in zip(m.vertices, new_prev_y.tolist()):
        for var, param, value in ((m.y1, m.prev_y1, y1), (m.y2, m.prev_y2, y2)):
            param[i] = value
            _center(var[i], value, self._search_radius)
''')
f("mechanical_step","_MechanicalStep.update_prev_theta",'''
def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
    _assert_shape(new_prev_theta, (self._num_vertices,))
    self._model.prev_theta.store_values(dict(zip(self._model.vertices, new_prev_theta)))
''')
f("mechanical_step","_MechanicalStep.prev_y",'''
def prev_y(self) -> npt.NDArray[np.float64]:
    """Return the previous deformation as Nx2 numpy array, where N is the number of vertices."""
    m = self._model
    return np.column_stack([
        [component[i].value for i in m.vertices] for component in (m.prev_y1, m.prev_y2)
    ])
''')
f("mechanical_step","_MechanicalStep.y",'''
def y(self) -> npt.NDArray[np.float64]:
    """Return the current deformation as Nx2 numpy array, where N is the number of vertices."""
    m = self._model
    data = np.empty((self._num_vertices, 2))
    for row, i in enumerate(m.vertices):
        data[row] = (pyo.value(m.y1[i]), pyo.value(m.y2[i]))
    return data
''')
f("mechanical_step","_MechanicalStep.update_boundary_traction",'''
def update_boundary_traction(self, current_time: float) -> None:
    m, points = self._model, self._grid.points
    for i in m.neumann_vertices:
        traction = self._boundary_traction(current_time, points[i][0], points[i][1])
        first, second = traction
        m.g1[i] = first
        m.g2[i] = second
''')
f("mechanical_step","_dirichlet_constraint_regularized",'''
def _dirichlet_constraint_regularized(y, edge, edge_vertices, constraint_id, y_component):
    p, q = edge_vertices
    d = q - p
    dx, dy = d
    # the first three conditions belong to the start of the edge, the others to its end
    derivative, at_end = (constraint_id - 1) % 3, constraint_id > 3
    vertex = (edge[1] if at_end else edge[0]) + 1
    if derivative == 0:
        return y[vertex, 1] == (q if at_end else p)[y_component]
    if derivative == 1:
        return y[vertex, 2] * dx + y[vertex, 3] * dy == d[y_component]
    return y[vertex, 4] * dx**2 + 2 * y[vertex, 5] * dx * dy + y[vertex, 6] * dy**2 == 0
''')
f("mechanical_step","_MechanicalStepRegularized.prev_y",'''
def prev_y(self) -> npt.NDArray[np.float64]:
    """Return the previous deformation as a Nx2x6 numpy array, where N is the number of
    vertices."""
    return self._nodal_values(self._model.prev_y1, self._model.prev_y2)

def _nodal_values(self, *components) -> npt.NDArray[np.float64]:
    m = self._model
    return np.array([
        [[component[i, j].value for j in m.c1_indices] for component in components]
        for i in m.vertices
    ])
''')
f("mechanical_step","_MechanicalStepRegularized.y",'''
def y(self) -> npt.NDArray[np.float64]:
    """Return the current deformation as a Nx2x6 numpy array, where N is the number of
    vertices."""
    return self._nodal_values(self._model.y1, self._model.y2)
''')
f("mechanical_step","_MechanicalStepRegularized.update_prev_y",'''
def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
    m = self._model
    _assert_shape(new_prev_y, (len(m.vertices), 2, 6))
    for row, i in enumerate(m.vertices):
        for column, j in enumerate(m.c1_indices):
            first, second = new_prev_y[row, :, column]
            m.prev_y1[i, j] = first
            _center(m.y1[i, j], first, self._search_radius)
            m.prev_y2[i, j] = second
            _center(m.y2[i, j], second, self._search_radius)
''')
f("mechanical_step","_MechanicalStepRegularized.update_prev_theta",'''
def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
    m = self._model
    _assert_shape(new_prev_theta, (len(m.refined_vertices),))
    for value, i in zip(new_prev_theta, m.refined_vertices):
        m.prev_theta[i] = value
''')
f("mechanical_step","mechanical_step",'''
def mechanical_step(
    solver,
    grid: Grid,
    params: MechanicalStepParams,
    refined_grid: RefinedGrid | None,
    boundary_traction: Callable[[float, float, float], list[float]],
) -> AbstractMechanicalStep:
    """Mechanical step factory."""
    common = (params.initial_temperature, params.search_radius, params.fps)
    regularized = params.regularization is not None
    if regularized and refined_grid is None:
        raise ValueError("A refined grid must be provided for a regularized model")
    if regularized:
        return _MechanicalStepRegularized(
            solver, grid, refined_grid, *common, params.regularization
        )
    return _MechanicalStep(solver, grid, *common, boundary_traction=boundary_traction)
''')
f("thermal_step","_energy_potential",'''
def _energy_potential(fps: float):
    def heating(prev_strain, strain, prev_temp):
        rate = fps * (strain - prev_strain)
        coupling = strain_derivative_coupling_potential(prev_strain, prev_temp)
        return dissipation_rate(prev_strain, strain, fps) + coupling.scalar_product(rate)

    def energy_potential(prev_strain, strain, prev_temp, temp, temp_gradient):
        flux = heat_conductivity_reference(prev_strain).dot(temp_gradient)
        return flux.dot(temp_gradient) - temp * heating(prev_strain, strain, prev_temp)

    return energy_potential
''')
f("thermal_step","_ThermalStep.prev_y",'''
def _values(self, *components) -> npt.NDArray[np.float64]:
    """Values of the components, one row per vertex"""
    rows = zip(*([c[i].value for i in self._model.vertices] for c in components))
    return np.array([list(row) for row in rows])

def prev_y(self) -> npt.NDArray[np.float64]:
    """Return the previous deformation as Nx2 numpy array, where N is the number of vertices."""
    return self._values(self._model.prev_y1, self._model.prev_y2)
''')
f("thermal_step","_ThermalStep.y",'''
def y(self) -> npt.NDArray[np.float64]:
    """Return the current deformation as Nx2 numpy array, where N is the number of vertices."""
    return self._values(self._model.y1, self._model.y2)
''')
f("thermal_step","_ThermalStep.theta",'''
def theta(self) -> npt.NDArray[np.float64]:
    """Return the current temperature as vector of length N, where N is the number of vertices."""
    return self._values(self._model.theta)[:, 0]
''')
f("thermal_step","_ThermalStep.update_prev_theta",'''
def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
    if new_prev_theta.shape != (self._num_vertices,):
        raise ValueError(
            f"Input array has incorrect shape {new_prev_theta.shape} (should be"
            f" {(self._num_vertices,)})"
        )

    m = self._model
    lower = new_prev_theta - self._search_radius
    upper = new_prev_theta + self._search_radius
    for i in m.vertices:
        m.prev_theta[i].set_value(new_prev_theta[i])
        m.theta[i].set_value(new_prev_theta[i])
        m.theta[i].bounds = lower[i], upper[i]
''')
f("thermal_step","_ThermalStepRegularized.update_prev_theta",'''
def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
    m = self._model
    refined_vertices = list(m.refined_vertices)
    expected = (len(refined_vertices),)
    if new_prev_theta.shape != expected:
        raise ValueError(
            f"Input array has incorrect shape {new_prev_theta.shape} (should be {expected})"
        )
    for number, value in enumerate(new_prev_theta, start=1):
        m.prev_theta[number] = value
        m.theta[number] = value
        m.theta[number].setlb(value - self._search_radius)
        m.theta[number].setub(value + self._search_radius)
''')
f("interpolation","C1Interpolation._triangle_params",'''
def _triangle_params(self, triangle: Triangle) -> Vector:
    return Vector([entry for i in triangle for entry in self._params[i]])
''')
f("interpolation","C1Interpolation.on_edge",'''
def on_edge(self, edge: Edge, t: float):
    params = Vector([*self._params[edge[0]], *self._params[edge[1]]])
    vertices = tuple(self.grid.points[i] for i in edge)
    return bell_interpolation_on_edge(vertices, t, params)
''')
f("interpolation","P1Interpolation.__call__",'''
def __call__(
    self,
    triangle: Triangle,
    barycentric_coordinates: BarycentricCoordinates,
):
    return sum(l * self._params[i] for l, i in zip(barycentric_coordinates, triangle))
''')
f("interpolation","P1Interpolation.gradient",'''
def gradient(
    self, triangle: Triangle, barycentric_coordinates: BarycentricCoordinates
) -> Vector:
    vertices = self.grid.triangle_vertices(triangle)
    return transform_gradient(vertices, Vector([self._params[i] for i in triangle]))
''')
f("interpolation","EuclideanDeformation.__call__",'''
def __call__(self, x: float, y: float) -> Vector:
    return Vector([component(x, y) for component in self._y])
''')
f("simulation","Simulation._append_step",'''
def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
    # Add newest step
    if self.params.regularization is None:
        step = Step(y_data, theta_data, self._domain, self._grid)
    else:
        step = RegularizedStep(
            y_data, theta_data, self._domain, self._grid, self._refined_grid
        )
    self.steps = [*self.steps, step]

    # Update variables required for plotting
    self._max_temp = max(theta_data.max(), self._max_temp)
    limits = []
    for (lower, upper), coordinates in zip(
        (self._xlims, self._ylims), (y_data[:, 0], y_data[:, 1])
    ):
        limits.append((min(lower, coordinates.min()), max(upper, coordinates.max())))
    self._xlims, self._ylims = limits

    # Update time
    self._current_time = self._current_time + self._tau
''')
f("simulation","Simulation.save_step",'''
def save_step(self, i: int, path: str = "step"):
    if (fig := self._plot_step(i)) is None:
        return
    step_index = i % len(self.steps)
    fig.savefig(
        path + "_" + str(step_index) + ".png",
        bbox_inches="tight",
        transparent="True",
        pad_inches=0,
        dpi=300,
    )
''')
f("simulation","Simulation.run",'''
def run(self, num_steps: int = 1) -> None:
    """Run one or more steps of the staggered scheme. In each step first a mechanical and then a
    thermal step is performed."""
    if num_steps < 1:
        raise ValueError("Invalid number of steps.")

    steps = range(num_steps)
    for _ in steps if num_steps == 1 else tqdm(steps):
        self._run_single_step()
''')
f("bell_finite_element","transform_gradient",'''
def transform_gradient(
    triangle_vertices: TriangleVertices,
    barycentric_gradient: Vector,
) -> Vector:
    """Transforms gradient with respect to barycentric coordinates to Euclidean gradient.

    barycentric_gradient should be a vector of size 3.
    Returns a vector of size 2.
    """
    if barycentric_gradient.size != 3:
        raise ValueError("barycentric gradients have three components")
    double_area = sum(_get_a(triangle_vertices))
    return Vector([
        sum(weight * entry for weight, entry in zip(weights, barycentric_gradient)) / double_area
        for weights in (_get_b(triangle_vertices), _get_c(triangle_vertices))
    ])
''')
f("bell_finite_element","_get_a",'''
def _get_a(triangle_vertices: TriangleVertices) -> tuple[float, float, float]:
    def cross(p, q):
        return p[0] * q[1] - q[0] * p[1]

    p1, p2, p3 = triangle_vertices
    return cross(p2, p3), cross(p3, p1), cross(p1, p2)
''')
f("integrators","Integrator.__call__",'''
def _average(self, integrand, triangle):
    total = 0
    for point, weight in zip(self._quadrature.points, self._quadrature.weights):
        total += weight * integrand(triangle, point)
    return total

def __call__(
    self,
    integrand: Callable[[Triangle, BarycentricCoordinates], Any],
):
    total = 0
    for area, triangle in zip(self._triangle_areas, self._triangles, strict=True):
        total += area * self._average(integrand, triangle)
    return total
''')
f("integrators","BoundaryIntegrator.__init__",'''
def __init__(self, degree: int, edges: list[Edge], points: list[Vector]):
    self._edges = edges
    self._quadrature = GaussQuadratureRule(degree)
    self._edge_lengths = []
    for start, end in edges:
        self._edge_lengths.append((points[end] - points[start]).norm())
''')
f("helpers","symmetrized_strain_delta",'''
def symmetrized_strain_delta(prev_strain: Matrix, strain: Matrix) -> Matrix:
    """Computes discrete symmetrized strain rate given two strains."""
    product = prev_strain.transpose() @ (strain - prev_strain)
    return product.transpose() + product
''')
f("helpers","total_elastic_potential",'''
def total_elastic_potential(strain: Matrix, theta):
    """Total elastic potential (sum of purely elastic and coupling potential) without entropy."""
    weight = austenite_percentage(theta)
    martensite = martensite_potential(strain)
    return martensite + weight * (austenite_potential(strain) - martensite)
''')
f("domain","RefinedGrid.to_coarse_edge_point",'''
def to_coarse_edge_point(self, fine_edge: Edge, t: float) -> tuple[Edge, float]:
    """Transform relative point on a fine edge to a relative point on the repsective coarse edge.

    This does only work for fine edges that lie on a coarse edge. Else an error is raised.
    """
    try:
        coarse_edge = self._coarse_edge[fine_edge]
        t1, t2 = self._coarse_edge_coordinates[fine_edge]
    except KeyError as error:
        raise ValueError("only fine edges that lie on coarse edges are valid inputs") from error
    return coarse_edge, t2 + t * (t1 - t2)
''')
f("domain","RefinedGrid.to_coarse_barycentric_point",'''
def to_coarse_barycentric_point(self, fine_point: BarycentricPoint) -> BarycentricPoint:
    """Transform a barycentric point in the fine mesh to a barycentric point in the coarse mesh"""
    triangle = tuple(fine_point.triangle)
    weights = tuple(fine_point.coordinates)
    for _ in range(3):
        if triangle in self.triangles:
            break
        triangle = triangle[1:] + triangle[:1]
        weights = weights[1:] + weights[:1]
    else:
        raise ValueError("triangle does not appear in the grid")
    corners = self._coarse_barycentric_coordinates[triangle]
    l1 = sum(weight * corner.l1 for weight, corner in zip(weights, corners))
    l2 = sum(weight * corner.l2 for weight, corner in zip(weights, corners))
    return BarycentricPoint(self._coarse_triangle[triangle], BarycentricCoordinates(l1, l2))
''')
f("domain","_refine_boundary_edge",'''
def _refine_boundary_edge(
    edge: Edge,
    edge_vertices: list[Vertex],
    boundary: Boundary,
    intermediate_boundary: Boundary,
) -> None:
    if edge in boundary.edges:
        _, *inner, last = edge_vertices
        intermediate_boundary.vertices.extend(inner)
        start = edge_vertices[0]
        for end in [*inner, last]:
            intermediate_boundary.edges.append((start, end))
            start = end
''')
