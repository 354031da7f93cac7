EDITS=[
("mechanical_step","import numpy as np\n","import numpy as np\nfrom abc import abstractmethod\n"),
("domain","from copy import deepcopy\n","from copy import deepcopy\nfrom itertools import chain, product\nimport math\n"),
("simulation","from tqdm import tqdm\n","from tqdm import tqdm, trange\n"),
("tensors","from typing import Callable, Iterator\n","from typing import Callable, Iterator\nfrom functools import reduce\nimport operator\n"),
]
F=FUNCS=[]
def f(m,q,s): F.append((m,q,s))
# ---- tensors
f("tensors","Vector.__add__",'''
def __add__(self, other: Vector) -> Vector:
    return self._combine(other, operator.add, "added")
''')
f("tensors","Vector.__sub__",'''
def __sub__(self, other: Vector) -> Vector:
    return self._combine(other, operator.sub, "subtracted")
''')
f("tensors","^Vector.__add__",'''
def _combine(self, other: Vector, operation: Callable, name: str) -> Vector:
    if len(self) != len(other):
        raise ValueError(f"vectors of sizes {self.size} and {other.size} cannot be {name}")
    return Vector(list(map(operation, self.data, other.data)))
''')
f("tensors","Vector.dot",'''
def dot(self, other: Vector):
    """Compute the scalar product with another vector."""
    if self.size != other.size:
        raise ValueError("scalar product not defined")
    result = 0
    for i in range(self.size):
        result = result + self.data[i] * other.data[i]
    return result
''')
f("tensors","Vector.__neg__",'''
def __neg__(self) -> Vector:
    return self.map(operator.neg)
''')
f("tensors","Vector.reshape",'''
def reshape(self, num_rows: int, num_cols: int) -> Matrix:
    """Reshape."""
    if self.size != num_rows * num_cols:
        raise ValueError(f"cannot reshape vector of size {self.size} to ({num_rows}, {num_cols})")
    return Matrix([self.data[i : i + num_cols] for i in range(0, self.size, num_cols)])
''')
f("tensors","Matrix.det",'''
def det(self):
    """Compute the determinant of a matrix via Laplace expansion."""
    num_rows, num_cols = self.shape
    if num_rows != num_cols:
        raise ValueError(f"det not defined for nonsquare matrix of shape {self.shape}")
    return sum(
        sign(p) * reduce(operator.mul, (row[j] for row, j in zip(self.data, p)), 1)
        for p in permutations(range(num_rows))
    )
''')
f("tensors","Matrix.scalar_product",'''
def scalar_product(self, other):
    """Compute the Frobenius scalar product with another matrix."""
    if self.shape != other.shape:
        raise ValueError("shapes differ")
    return self.flatten().dot(other.flatten())
''')
f("tensors","Matrix.normsqr",'''
def normsqr(self):
    """Square of Frobenius norm"""
    return self.scalar_product(self)
''')
f("tensors","Matrix.flatten",'''
def flatten(self) -> Vector:
    """Returns matrix flattened to a vector."""
    flat = []
    for row in self.data:
        flat.extend(row)
    return Vector(flat)
''')
f("tensors","Matrix.__matmul__",'''
def __matmul__(self, other: Matrix) -> Matrix:
    rows, inner = self.shape
    if inner != other.shape[0]:
        raise ValueError("matrices cannot be multiplied")
    result = [[0] * other.shape[1] for _ in range(rows)]
    for i in range(rows):
        for j in range(other.shape[1]):
            for k in range(inner):
                result[i][j] += self.data[i][k] * other.data[k][j]
    return Matrix(result)
''')
f("tensors","sign",'''
def sign(p):
    """Compute the sign of a permutation."""
    result = 1
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if p[i] > p[j]:
                result = -result
    return result
''')
# ---- integrators
f("integrators","Integrator.__call__",'''
def __call__(self, integrand):
    def integrate(triangle):
        return sum(weight * integrand(triangle, point) for weight, point in self._quadrature)

    return sum(area * integrate(triangle) for area, triangle in zip(self._triangle_areas, self._triangles))
''')
f("integrators","BoundaryIntegrator.__init__",'''
def __init__(self, degree: int, edges: list[Edge], points: list[Vector]):
    self._quadrature = GaussQuadratureRule(degree)
    self._edge_lengths = {(i, j): (points[j] - points[i]).norm() for (i, j) in edges}
''')
f("integrators","BoundaryIntegrator.__call__",'''
def __call__(self, integrand):
    result = 0
    for edge, length in self._edge_lengths.items():
        for weight, point in self._quadrature:
            result += length * weight * integrand(edge, point)
    return result
''')
# ---- interpolation
f("interpolation","Deformation.__call__",'''
def __call__(self, *point) -> Vector:
    return Vector([component(*point) for component in self._y])
''')
f("interpolation","Deformation.strain",'''
def strain(self, triangle: Triangle, barycentric_coordinates: BarycentricCoordinates) -> Matrix:
    """Compute the strain of the deformation in a triangle."""
    first, second = (y.gradient(triangle, barycentric_coordinates) for y in self._y)
    return Matrix([list(first), list(second)])
''')
f("interpolation","P1Interpolation.gradient",'''
def gradient(self, triangle: Triangle, barycentric_coordinates: BarycentricCoordinates) -> Vector:
    nodal_values = Vector([self._params[i] for i in triangle])
    vertices = self.grid.triangle_vertices(triangle)
    return transform_gradient(vertices, nodal_values)
''')
f("interpolation","C1Interpolation.__init__",'''
def __init__(self, grid: Grid, params: list[list]):
    for p in params:
        if len(p) != 6:
            raise ValueError("each parameter provided must be a list of 6 elements")
    if len(params) != len(grid.vertices):
        raise ValueError("number of params must equal to the number of vertices")

    self.grid = grid
    self._params = [Vector(p) for p in params]
''')
f("interpolation","C1Interpolation._triangle_params",'''
def _triangle_params(self, triangle: Triangle) -> Vector:
    i1, i2, i3 = triangle
    return self._params[i1].extend(self._params[i2]).extend(self._params[i3])
''')
f("interpolation","C1Interpolation.on_edge",'''
def on_edge(self, edge: Edge, t: float):
    start, end = edge
    return bell_interpolation_on_edge(
        tuple(self.grid.points[i] for i in edge), t, self._params[start].extend(self._params[end])
    )
''')
f("interpolation","RefinedInterpolation._to_coarse_parameters",'''
def _to_coarse_parameters(self, triangle, barycentric_coordinates):
    coarse = self.grid.to_coarse_barycentric_point(
        BarycentricPoint(triangle=triangle, coordinates=barycentric_coordinates)
    )
    return (coarse.triangle, coarse.coordinates)
''')
# ---- domain
f("domain","_triangle_contains_point",'''
def _triangle_contains_point(triangle_vertices: TriangleVertices, p: Vector) -> bool:
    """Determine if a point is contained in a triangle."""
    eps = 1e-10
    p1, p2, p3 = triangle_vertices
    signed_areas = (_sign((p, p1, p2)), _sign((p, p2, p3)), _sign((p, p3, p1)))
    return min(signed_areas) >= -eps or max(signed_areas) <= eps
''')
f("domain","Grid.triangle_vertices",'''
def triangle_vertices(self, triangle: Triangle) -> TriangleVertices:
    """Transform triangle indices into points."""
    if triangle in self.triangles:
        i1, i2, i3 = triangle
        return (self.points[i1], self.points[i2], self.points[i3])
    raise ValueError("Provided triangle is not in the list of triangles")
''')
f("domain","Grid.point_to_vertex",'''
def point_to_vertex(self, point: Vector) -> Vertex | None:
    """Return vertex id of the point or None if point is not in the grid."""
    matching = (i for i, candidate in enumerate(self.points) if self._points_coincide(point, candidate))
    return next(matching, None)
''')
f("domain","RectangleDomain.curves",'''
def curves(self, num_points_per_curve: int, num_horizontal_curves: int = 0, num_vertical_curves: int | None = None):
    """Creates horizontal and vertical curves inside the rectangle."""
    num_vertical_curves = num_horizontal_curves if num_vertical_curves is None else num_vertical_curves

    def subdivide(length, num_points):
        return [k * length / (num_points - 1) for k in range(num_points)]

    curves = []
    for y in subdivide(self.height, num_horizontal_curves + 2):
        curves.append([Vector([x, y]) for x in subdivide(self.width, num_points_per_curve)])
    for x in subdivide(self.width, num_vertical_curves + 2):
        curves.append([Vector([x, y]) for y in subdivide(self.height, num_points_per_curve)])
    return curves
''')
f("domain","_refine_boundary_edge",'''
def _refine_boundary_edge(edge, edge_vertices, boundary, intermediate_boundary) -> None:
    if edge in boundary.edges:
        for k in range(len(edge_vertices) - 1):
            if k > 0:
                intermediate_boundary.vertices.append(edge_vertices[k])
            intermediate_boundary.edges.append((edge_vertices[k], edge_vertices[k + 1]))
''')
f("domain","RefinedGrid.to_coarse_barycentric_point",'''
def to_coarse_barycentric_point(self, fine_point: BarycentricPoint) -> BarycentricPoint:
    """Transform a barycentric point in the fine mesh to a barycentric point in the coarse mesh"""
    triangle, weights = fine_point.triangle, list(fine_point.coordinates)
    for shift in range(3):
        rotated = triangle[shift:] + triangle[:shift]
        if rotated in self.triangles:
            break
    else:
        raise ValueError("triangle does not appear in the grid")
    weights = weights[shift:] + weights[:shift]
    corners = self._coarse_barycentric_coordinates[rotated]
    return BarycentricPoint(
        self._coarse_triangle[rotated],
        BarycentricCoordinates(
            sum(w * q.l1 for w, q in zip(weights, corners)),
            sum(w * q.l2 for w, q in zip(weights, corners)),
        ),
    )
''')
# ---- mechanical
f("mechanical_step","_MechanicalStep.prev_y",'''
def prev_y(self) -> npt.NDArray[np.float64]:
    """Return the previous deformation as Nx2 numpy array, where N is the number of vertices."""
    return self._state("prev_y1", "prev_y2")
''')
f("mechanical_step","_MechanicalStep.y",'''
def y(self) -> npt.NDArray[np.float64]:
    """Return the current deformation as Nx2 numpy array, where N is the number of vertices."""
    return self._state("y1", "y2")
''')
f("mechanical_step","^_MechanicalStep.prev_y",'''
def _state(self, *names: str) -> npt.NDArray[np.float64]:
    components = [getattr(self._model, name) for name in names]
    return np.array([[component[i].value for component in components] for i in self._model.vertices])
''')
f("mechanical_step","_MechanicalStep.update_boundary_traction",'''
def update_boundary_traction(self, current_time: float) -> None:
    for i in self._model.neumann_vertices:
        x, y = self._grid.points[i][0], self._grid.points[i][1]
        traction = self._boundary_traction(current_time, x, y)
        for component, param in enumerate((self._model.g1, self._model.g2)):
            param[i].set_value(traction[component])
''')
f("mechanical_step","_MechanicalStep.update_prev_theta",'''
def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
    if new_prev_theta.shape != (self._num_vertices,):
        raise ValueError("Input array has incorrect shape")
    self._model.prev_theta.store_values({i: new_prev_theta[i] for i in self._model.vertices})
''')
f("mechanical_step","mechanical_step",'''
def mechanical_step(solver, grid, params: MechanicalStepParams, refined_grid, boundary_traction) -> AbstractMechanicalStep:
    """Mechanical step factory."""
    common = (params.initial_temperature, params.search_radius, params.fps)
    if params.regularization is not None:
        if refined_grid is None:
            raise ValueError("A refined grid must be provided for a regularized model")
        return _MechanicalStepRegularized(solver, grid, refined_grid, *common, params.regularization)
    return _MechanicalStep(solver, grid, *common, boundary_traction)
''')
f("mechanical_step","_dirichlet_constraint_regularized",'''
def _dirichlet_constraint_regularized(y, edge, edge_vertices, constraint_id, y_component):
    d = edge_vertices[1] - edge_vertices[0]
    end, kind = divmod(constraint_id - 1, 3)
    vertex = edge[end] + 1
    if kind == 0:
        return y[vertex, 1] == edge_vertices[end][y_component]
    if kind == 1:
        return d[0] * y[vertex, 2] + d[1] * y[vertex, 3] == d[y_component]
    return d[0] ** 2 * y[vertex, 4] + 2 * d[0] * d[1] * y[vertex, 5] + d[1] ** 2 * y[vertex, 6] == 0
''')
# ---- thermal
f("thermal_step","_check_prev_step_data",'''
def _check_prev_step_data(y_data_shape, theta_data_shape, prev_y, y, prev_theta):
    shapes = {"prev_y": (prev_y, y_data_shape), "y": (y, y_data_shape), "prev_theta": (prev_theta, theta_data_shape)}
    for name, (array, shape) in shapes.items():
        if array.shape != shape:
            raise ValueError(f"{name} has incorrect shape {array.shape} (should be {shape}")
''')
f("thermal_step","_energy_potential",'''
def _energy_potential(fps: float):
    def energy_potential(prev_strain, strain, prev_temp, temp, temp_gradient):
        conductivity = heat_conductivity_reference(prev_strain)
        coupling = strain_derivative_coupling_potential(prev_strain, prev_temp)
        source = dissipation_rate(prev_strain, strain, fps) + fps * coupling.scalar_product(strain - prev_strain)
        return conductivity.dot(temp_gradient).dot(temp_gradient) - source * temp

    return energy_potential
''')
f("thermal_step","_ThermalStep.update_prev_theta",'''
def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
    if new_prev_theta.shape != (self._num_vertices,):
        raise ValueError("Input array has incorrect shape")
    model, radius = self._model, self._search_radius
    for i, value in zip(model.vertices, new_prev_theta):
        model.prev_theta[i].value = value
        model.theta[i].set_value(value)
        model.theta[i].lb = value - radius
        model.theta[i].ub = value + radius
''')
f("thermal_step","_ThermalStep.prev_theta",'''
def prev_theta(self) -> npt.NDArray[np.float64]:
    return np.fromiter((self._model.prev_theta[i].value for i in self._model.vertices), dtype=float)
''')
f("thermal_step","thermal_step",'''
def thermal_step(solver, grid, prev_y, y, prev_theta, params, external_temperature, refined_grid=None):
    """Thermal step factory."""
    if params.regularization is not None and refined_grid is None:
        raise ValueError("A refined grid must be provided for a regularized model")
    state = {"prev_y": prev_y, "y": y, "prev_theta": prev_theta}
    numerics = {"search_radius": params.search_radius, "fps": params.fps}
    if params.regularization is None:
        return _ThermalStep(solver, grid, **state, **numerics, external_temperature=external_temperature)
    return _ThermalStepRegularized(solver, grid, refined_grid, **state, **numerics)
''')
# ---- simulation
f("simulation","Simulation._append_step",'''
def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
    self._max_temp = max(self._max_temp, theta_data.max())
    for attribute, component in (("_xlims", 0), ("_ylims", 1)):
        low, high = getattr(self, attribute)
        values = y_data[:, component]
        setattr(self, attribute, (min(low, values.min()), max(high, values.max())))
    if self.params.regularization is None:
        self.steps.append(Step(y_data, theta_data, self._domain, self._grid))
    else:
        self.steps.append(RegularizedStep(y_data, theta_data, self._domain, self._grid, self._refined_grid))
    self._current_time += self._tau
''')
f("simulation","Simulation.run",'''
def run(self, num_steps: int = 1) -> None:
    """Run steps."""
    if not num_steps > 0:
        raise ValueError("Invalid number of steps.")
    iterations = trange(num_steps) if num_steps > 1 else range(1)
    for _ in iterations:
        self._run_single_step()
''')
f("simulation","Simulation._run_single_step",'''
def _run_single_step(self):
    mechanical, thermal = self._mechanical_step, self._thermal_step
    previous_y, previous_theta = thermal.y(), thermal.theta()
    mechanical.update_prev_y(previous_y)
    mechanical.update_prev_theta(previous_theta)
    mechanical.update_boundary_traction(self._current_time)
    mechanical.solve()
    self._update_thermal_step()
    thermal.solve()
    self._append_step(thermal.y(), thermal.theta())
''')
f("simulation","SimulationParams.__post_init__",'''
def __post_init__(self):
    self._require(self.initial_temperature >= 0, "initial temperature must be non-negative")
    self._require(self.search_radius > 0, "search radius must be positive")
    self._require(self.fps > 0, "fps must be positive")
    self._require(self.regularization is None or self.regularization >= 0, "regularization must be non-negative")
    self._require(self.scale > 0, "scale must be positive")
    self._require(self.refinement_factor is None or self.refinement_factor > 0, "refinement factor must be positive")
    if self.regularization is None:
        self.refinement_factor = None
    else:
        self._require(self.refinement_factor is not None, "refinement_factor cannot be None in the regularized setting")
''')
f("simulation","^SimulationParams.__post_init__",'''
@staticmethod
def _require(condition: bool, message: str) -> None:
    if not condition:
        raise ValueError(message)
''')
f("helpers","heat_conductivity_reference",'''
def heat_conductivity_reference(strain: Matrix) -> Matrix:
    """Transform heat conductivity tensor into the reference configuration."""
    inverse = inverse_2x2(strain)
    pulled_back = inverse @ HEAT_CONDUCTIVITY @ inverse.transpose()
    return pulled_back * strain.det()
''')
f("helpers","strain_derivative_coupling_potential",'''
def strain_derivative_coupling_potential(strain: Matrix, theta):
    """F-derivative of the coupling potential."""
    difference = derivative_austenite_potential(strain) - derivative_martensite_potential(strain)
    return difference.map(lambda entry: austenite_percentage(theta) * entry)
''')
f("quadrature_rules","TriangleQuadratureRule.__init__",'''
def __init__(self, weights: list[float], points: list[tuple[float, float]]):
    if not all(x >= 0 and y >= 0 and x + y <= 1 for x, y in points):
        raise ValueError("quadrature points not all contained in an equalteral unit triangle")
    if not isclose(sum(weights), 1):
        raise ValueError("weights must sum up to 1")
    self.points = [BarycentricCoordinates(*p) for p in points]
    self.weights = weights
''')
