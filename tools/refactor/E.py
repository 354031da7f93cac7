EDITS=[
("domain","from copy import deepcopy\n","from copy import copy, deepcopy\nfrom itertools import pairwise\nimport math\n"),
("simulation","from typing import Callable\n","from typing import Callable, NamedTuple\n"),
("mechanical_step","from typing import Protocol, Callable\n","from typing import Protocol, Callable\nfrom functools import reduce\nimport operator\n"),
]
FUNCS=[]
def f(m,q,s): FUNCS.append((m,q,s))
f("domain","Boundary",'''
@dataclass(frozen=True)
class Boundary:
    """(Part of) the boundary edges and their vertices of a grid"""

    vertices: list[Vertex]
    edges: list[Edge]

    @classmethod
    def of_edges(cls, edges: list[Edge], order: list[Vertex]) -> "Boundary":
        """Boundary consisting of the edges, vertices sorted as in order"""
        ends = set()
        for edge in edges:
            ends |= set(edge)
        return cls([v for v in order if v in ends], list(edges))

    def copy_without_edges(self) -> "Boundary":
        """Copy with the same vertices and no edges"""
        return Boundary(self.vertices[:], [])
''')
f("domain","RectangleDomain.grid",'''
def grid(self, scale: float) -> Grid:
    """Return a grid of equilateral right triangles inside the rectangle.

    If `scale` does not evenly divide the width or height of the rectangle (only) the rightmost
    or uppermost edges of the grid might not align exactly with the rectangle boundary.
    """
    num_columns = int(self.width / scale) + 1
    num_rows = int(self.height / scale) + 1
    rows = [list(range(j * num_columns, (j + 1) * num_columns)) for j in range(num_rows)]
    columns = [list(column) for column in zip(*rows)]

    vertices = [v for row in rows for v in row]
    points = [Vector([i * scale, j * scale]) for j in range(num_rows) for i in range(num_columns)]

    edges = [edge for row in rows for edge in pairwise(row)]
    edges += [edge for column in columns for edge in pairwise(column)]
    triangles = []
    for lower, upper in pairwise(rows):
        for (v00, v10), (v01, v11) in zip(pairwise(lower), pairwise(upper)):
            edges.append((v00, v11))
            triangles.append((v00, v10, v11))
            triangles.append((v11, v01, v00))

    sides = {
        "lower": list(pairwise(rows[0])),
        "right": list(pairwise(columns[-1])),
        "upper": list(pairwise(rows[-1])),
        "left": list(pairwise(columns[0])),
    }
    boundary_edges = [edge for side in sides.values() for edge in side]
    boundary = Boundary.of_edges(boundary_edges, vertices)

    fixed = self._fixed_sides()
    unknown = [side for side in fixed if side not in sides]
    if unknown:
        raise ValueError(f"unknown side {unknown[0]!r} provided as fix option")
    dirichlet_edges = [edge for name, side in sides.items() if name in fixed for edge in side]
    neumann_edges = [edge for name, side in sides.items() if name not in fixed for edge in side]

    return Grid(
        vertices,
        edges,
        triangles,
        boundary,
        Boundary.of_edges(dirichlet_edges, vertices),
        Boundary.of_edges(neumann_edges, vertices),
        points,
    )

def _fixed_sides(self) -> list[FixOption]:
    if self.fix is None:
        return []
    return list(self.fix) if isinstance(self.fix, list) else [self.fix]
''')
f("domain","RectangleDomain.curves",'''
def curves(
    self,
    num_points_per_curve: int,
    num_horizontal_curves: int = 0,
    num_vertical_curves: int | None = None,
) -> list[Curve]:
    """Creates horizontal and vertical curves inside the rectangle."""
    if num_vertical_curves is None:
        num_vertical_curves = num_horizontal_curves

    def positions(length, number):
        return [k * length / (number - 1) for k in range(number)]

    curves: list[Curve] = []
    for y in positions(self.height, num_horizontal_curves + 2):
        curves.append([Vector([x, y]) for x in positions(self.width, num_points_per_curve)])
    for x in positions(self.width, num_vertical_curves + 2):
        curves.append([Vector([x, y]) for y in positions(self.height, num_points_per_curve)])
    return curves
''')
f("domain","RectangleDomain.refine",'''
def refine(self, grid: Grid, refinement_factor: int) -> RefinedGrid:
    if not refinement_factor >= 1:
        raise ValueError(
            f"only positive refinement factors allowed, but {refinement_factor} was provided"
        )

    fine = Grid(
        list(grid.vertices),
        [],
        [],
        grid.boundary.copy_without_edges(),
        grid.dirichlet_boundary.copy_without_edges(),
        grid.neumann_boundary.copy_without_edges(),
        deepcopy(grid.points),
    )
    maps: tuple[dict, dict, dict, dict] = ({}, {}, {}, {})
    for triangle in grid.triangles:
        _refine_equilateral_triangle(triangle, grid, refinement_factor, fine, *maps)
    return RefinedGrid(
        fine.vertices,
        fine.edges,
        fine.triangles,
        fine.boundary,
        fine.dirichlet_boundary,
        fine.neumann_boundary,
        fine.points,
        grid,
        *maps,
    )
''')
f("domain","_refine_equilateral_triangle",'''
def _refine_equilateral_triangle(
    triangle: Triangle,
    grid: Grid,
    refinement_factor: int,
    intermediate_grid: Grid,
    coarse_triangle: Dict[Triangle, Triangle],
    coarse_barycentric_coordinates: _TriangleBarycentricCoords,
    coarse_edge: Dict[Edge, Edge],
    coarse_edge_coordinates: _EdgeCoords,
) -> None:
    """Refine a single equlateral triangle of the coarse grid. This function modifies refined_grid!

    It is the responsibility of the caller to only provide triangles in grid."""

    n = refinement_factor
    i1, i2, i3 = triangle
    p1, p2, p3 = grid.triangle_vertices(triangle)
    eps = 1e-7 * (p3 - p1).norm()
    assert abs(p1[1] - p2[1]) < eps, "First edge of an equilateral triangle must be horizontal"
    assert abs(p2[0] - p3[0]) < eps, "Second edge of an equilateral triangle must be vertical"

    def coordinates(k, l):
        return BarycentricCoordinates(1 - k / n - l / n, k / n)

    # all positions (k, l) of the lattice with their vertex number
    vertex_at: Dict[tuple[int, int], Vertex] = {(0, 0): i1, (n, 0): i2, (0, n): i3}
    lattice = [(k, l) for l in range(n + 1) for k in range(n + 1 - l)]
    for position in lattice:
        if position in vertex_at:
            continue
        weights = coordinates(*position)
        weights.assert_bounds()
        point = weights.l1 * p1 + weights.l2 * p2 + weights.l3 * p3
        vertex = intermediate_grid.point_to_vertex(point)
        if vertex is None:
            vertex = len(intermediate_grid.vertices)
            intermediate_grid.vertices.append(vertex)
            intermediate_grid.points.append(point)
        vertex_at[position] = vertex

    def add_triangle(*corners):
        fine = tuple(vertex_at[c] for c in corners)
        intermediate_grid.triangles.append(fine)
        coarse_triangle[fine] = triangle
        coarse_barycentric_coordinates[fine] = tuple(coordinates(*c) for c in corners)

    for k, l in lattice:
        if k + l < n:
            add_triangle((k, l), (k + 1, l), (k, l + 1))
    for k, l in lattice:
        if k >= 1 and k + l < n:
            add_triangle((k, l + 1), (k - 1, l + 1), (k, l))

    # the three sides with a unit step of the lattice along each and the lattice position they start at
    for (start, end), origin, (dk, dl) in (
        ((i1, i2), (0, 0), (1, 0)),
        ((i2, i3), (n, 0), (-1, 1)),
        ((i3, i1), (0, n), (0, -1)),
    ):
        same = (start, end) in grid.edges
        for k, l in lattice:
            if (k + dk, l + dl) in vertex_at:
                pass
        along = [vertex_at[origin[0] + s * dk, origin[1] + s * dl] for s in range(n + 1)]
        if not same:
            along.reverse()
        coarse = (start, end) if same else (end, start)
        for s, fine in enumerate(pairwise(along)):
            coarse_edge[fine] = coarse
            coarse_edge_coordinates[fine] = (1 - s / n, 1 - (s + 1) / n)
        for k, l in lattice:
            target = (k + dk, l + dl)
            if target in vertex_at:
                pair = (vertex_at[k, l], vertex_at[target])
                intermediate_grid.append_edge(pair if same else pair[::-1])
        if (dk, dl) != (0, -1):
            for source, sink in (
                (grid.boundary, intermediate_grid.boundary),
                (grid.dirichlet_boundary, intermediate_grid.dirichlet_boundary),
                (grid.neumann_boundary, intermediate_grid.neumann_boundary),
            ):
                _refine_boundary_edge(coarse, along, source, sink)
''')
f("domain","Grid.append_edge",'''
def append_edge(self, edge: Edge) -> None:
    """Append an edge if it is not already present."""
    if self._contains_edge(edge):
        return
    start, end = edge
    length = (self.points[start] - self.points[end]).norm()
    count = len(self.edges)
    if self._mean_edge_length is None:
        self._mean_edge_length = length
    else:
        self._mean_edge_length = (self._mean_edge_length * count + length) / (count + 1)
    self.edges += [edge]
''')
f("tensors","Vector",'''
class Vector:
    """Custom vector class."""

    def __init__(self, data: list) -> None:
        self.data = data
        self.size = len(data)
        self.shape = (self.size,)

    def __repr__(self) -> str:
        return f"Vector([{', '.join(map(repr, self.data))}])"

    def __str__(self) -> str:
        return f"[{' '.join(map(str, self.data))}]"

    def _combine(self, other: Vector, operation: Callable, verb: str) -> Vector:
        if self.size != other.size:
            raise ValueError(f"vectors of size {self.size} and {other.size} cannot be {verb}")
        return Vector([operation(x, y) for x, y in zip(self.data, other.data)])

    def __getitem__(self, i: int | slice):
        if not isinstance(i, int):
            return Vector(self.data[i])
        if not 0 <= i < self.size:
            raise IndexError(f"index {i} is out of bounds for vector of size {self.size}")
        return self.data[i]

    def __neg__(self) -> Vector:
        return self.map(lambda x: -x)

    def __add__(self, other: Vector) -> Vector:
        return self._combine(other, lambda x, y: x + y, "added")

    def __sub__(self, other: Vector) -> Vector:
        return self._combine(other, lambda x, y: x - y, "subtracted")

    def __mul__(self, scaling) -> Vector:
        return self.map(lambda x: x * scaling)

    __rmul__ = __mul__

    def __truediv__(self, divisor) -> Vector:
        return self.map(lambda x: x / divisor)

    def __rtruediv__(self, divisor):
        return NotImplemented

    def __eq__(self, other: object) -> bool:
        return self.data == other.data if isinstance(other, Vector) else NotImplemented

    def normsqr(self):
        """Compute square of the Euclidean norm."""
        return self.dot(self)

    def norm(self):
        """Compute square of the Euclidean norm."""
        return pyo.sqrt(self.dot(self))

    def dot(self, other: Vector):
        """Compute the scalar product with another vector."""
        return sum(self._combine(other, lambda x, y: x * y, "multiplied").data)

    def map(self, f: Callable) -> Vector:
        """Apply a map f to each entry in the vector."""
        return Vector(list(map(f, self.data)))

    def stack(self, other: Vector) -> Matrix:
        """Vertically stack two vectors to create a matrix with two rows."""
        if self.size != other.size:
            raise ValueError(f"cannot stack vectors of sizes {self.size} and {other.size}")
        return Matrix([vector.data for vector in (self, other)])

    def __iter__(self) -> Iterator:
        yield from self.data

    def reshape(self, num_rows: int, num_cols: int) -> Matrix:
        """Reshape vector of length num_rows x num_cols to a num_rows x num_cols matrix."""
        if self.size != num_rows * num_cols:
            raise ValueError(
                f"cannot reshape vector of size {self.size} to a matrix of shape"
                f" ({num_rows}, {num_cols})"
            )
        return Matrix([self.data[i * num_cols : (i + 1) * num_cols] for i in range(num_rows)])

    def numpy(self) -> npt.NDArray:
        """Return copy of the vector as numpy array."""
        return np.array(self.data)

    def extend(self, other: Vector) -> Vector:
        """Extend vector with components of another vector."""
        return Vector([*self.data, *other.data])

    def __len__(self) -> int:
        return self.size

    def transpose(self) -> Matrix:
        """Transpose vector to a matrix."""
        return Matrix([self.data])
''')
f("tensors","Matrix.det",'''
def det(self):
    """Compute the determinant of a matrix via Laplace expansion."""
    rows, columns = self.shape
    if rows != columns:
        raise ValueError(f"det not defined for nonsquare matrix of shape {self.shape}")

    def product(permutation):
        prod = 1
        for row, column in zip(self.data, permutation):
            prod = prod * row[column]
        return prod

    return sum(sign(p) * product(p) for p in permutations(range(rows)))
''')
f("tensors","Tensor3D.__add__",'''
def _combine(self, other: Tensor3D, operation: Callable, verb: str) -> Tensor3D:
    if self.shape != other.shape:
        raise ValueError(f"tensors of shapes {self.shape} and {other.shape} cannot be {verb}")
    l, m, n = self.shape
    return Tensor3D([
        [[operation(self.data[i][j][k], other.data[i][j][k]) for k in range(n)] for j in range(m)]
        for i in range(l)
    ])

def __add__(self, other: Tensor3D) -> Tensor3D:
    return self._combine(other, lambda x, y: x + y, "added")
''')
f("tensors","Tensor3D.__sub__",'''
def __sub__(self, other: Tensor3D) -> Tensor3D:
    return self._combine(other, lambda x, y: x - y, "subtracted")
''')
f("simulation","^AbstractStep",'''
class Window(NamedTuple):
    """Interval enclosing all coordinates seen so far"""

    lower: float = float("inf")
    upper: float = float("-inf")

    def including(self, values) -> "Window":
        """Smallest window that also contains the values"""
        return Window(min(self.lower, np.min(values)), max(self.upper, np.max(values)))

''')
f("simulation","Simulation._append_step",'''
def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
    self._max_temp = max(self._max_temp, np.max(theta_data))
    self._xlims = Window(*self._xlims).including(y_data[:, 0])
    self._ylims = Window(*self._ylims).including(y_data[:, 1])
    self.steps.append(self._make_step(y_data, theta_data))
    self._current_time += self._tau

def _make_step(self, y_data, theta_data) -> AbstractStep:
    if self.params.regularization is not None:
        return RegularizedStep(y_data, theta_data, self._domain, self._grid, self._refined_grid)
    return Step(y_data, theta_data, self._domain, self._grid)
''')
f("simulation","Simulation.save_step",'''
def save_step(self, i: int, path: str = "step"):
    fig = self._plot_step(i)
    if fig is None:
        return
    options = dict(bbox_inches="tight", transparent="True", pad_inches=0, dpi=300)
    fig.savefig(f"{path}_{range(len(self.steps))[i]}.png", **options)
''')
f("simulation","Simulation.run",'''
def run(self, num_steps: int = 1) -> None:
    """Run one or more steps of the staggered scheme. In each step first a mechanical and then a
    thermal step is performed."""
    if num_steps < 1:
        raise ValueError("Invalid number of steps.")

    steps = range(num_steps)
    for _ in tqdm(steps) if num_steps > 1 else steps:
        self._run_single_step()
''')
f("mechanical_step","_dirichlet_constraint_regularized",'''
def _dirichlet_constraint_regularized(y, edge, edge_vertices, constraint_id, y_component):
    start, end = edge_vertices
    tangent = end - start
    at_end, order = divmod(constraint_id - 1, 3)
    vertex = edge[at_end] + 1
    if order == 0:
        return y[vertex, 1] == edge_vertices[at_end][y_component]
    if order == 1:
        return y[vertex, 2] * tangent[0] + y[vertex, 3] * tangent[1] == tangent[y_component]
    return (
        y[vertex, 4] * tangent[0] ** 2
        + 2 * y[vertex, 5] * tangent[0] * tangent[1]
        + y[vertex, 6] * tangent[1] ** 2
        == 0
    )
''')
f("mechanical_step","_MechanicalStep.update_prev_y",'''
def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
    expected_shape = (self._num_vertices, 2)
    if new_prev_y.shape != expected_shape:
        raise ValueError(
            f"Input array has incorrect shape {new_prev_y.shape} (should be {expected_shape})"
        )

    m = self._model
    lower = new_prev_y - self._search_radius
    upper = new_prev_y + self._search_radius
    for component, (prev_y, y) in enumerate([(m.prev_y1, m.y1), (m.prev_y2, m.y2)]):
        for i in m.vertices:
            prev_y[i] = y[i] = new_prev_y[i, component]
            y[i].setlb(lower[i, component])
            y[i].setub(upper[i, component])
''')
f("mechanical_step","_MechanicalStepRegularized.y",'''
def y(self) -> npt.NDArray[np.float64]:
    """Return the current deformation as a Nx2x6 numpy array, where N is the number of vertices."""
    return self._c1_array(self._model.y1, self._model.y2)

def _c1_array(self, first, second) -> npt.NDArray[np.float64]:
    array = np.empty((self._num_vertices, 2, 6))
    for i, j in self._model.deformation_indices:
        array[i - 1, 0, j - 1] = first[i, j].value
        array[i - 1, 1, j - 1] = second[i, j].value
    return array
''')
f("mechanical_step","_MechanicalStepRegularized.prev_y",'''
def prev_y(self) -> npt.NDArray[np.float64]:
    """Return the previous deformation as a Nx2x6 numpy array."""
    return self._c1_array(self._model.prev_y1, self._model.prev_y2)
''')
f("thermal_step","_energy_potential",'''
def _heat_source(prev_strain, strain, prev_temp, fps: float):
    """Heat produced by friction and by the change of the phases."""
    friction = dissipation_rate(prev_strain, strain, fps)
    coupling = strain_derivative_coupling_potential(prev_strain, prev_temp)
    return friction + fps * coupling.scalar_product(strain - prev_strain)

def _energy_potential(fps: float):
    def energy_potential(prev_strain, strain, prev_temp, temp, temp_gradient):
        flux = heat_conductivity_reference(prev_strain).dot(temp_gradient)
        return flux.dot(temp_gradient) - temp * _heat_source(prev_strain, strain, prev_temp, fps)

    return energy_potential
''')
f("thermal_step","_ThermalStep.update_y",'''
def update_y(self, new_y: npt.NDArray[np.float64]) -> None:
    if new_y.shape != (self._num_vertices, 2):
        raise ValueError(
            f"Input array has incorrect shape {new_y.shape} (should be"
            f" {(self._num_vertices, 2)})"
        )
    m = self._model
    for i, (first, second) in zip(m.vertices, new_y):
        m.y1[i], m.y2[i] = first, second
''')
f("thermal_step","_ThermalStepRegularized.update_prev_theta",'''
def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
    m = self._model
    num_refined = len(m.refined_vertices)
    if new_prev_theta.shape != (num_refined,):
        raise ValueError(
            f"Input array has incorrect shape {new_prev_theta.shape} (should be"
            f" {(num_refined,)})"
        )
    for i, value in enumerate(new_prev_theta, start=1):
        m.prev_theta[i] = value
        m.theta[i].set_value(value)
        m.theta[i].bounds = (value - self._search_radius, value + self._search_radius)
''')
f("interpolation","EuclideanInterpolation",'''
class EuclideanInterpolation:
    """Interpolation that can be evaluated at points in Euclidean coordinates."""

    def __init__(self, barycentric_interpolation):
        self._barycentric_interpolation = barycentric_interpolation
        self.grid = barycentric_interpolation.grid

    def _locate(self, function, x: float, y: float):
        p = Vector([x, y])
        located = self.grid.to_barycentric_point(p)
        if located is None:
            raise ValueError(f"point {p} lies outside the domain")
        return function(located.triangle, located.coordinates)

    def __call__(self, x: float, y: float) -> float:
        return self._locate(self._barycentric_interpolation, x, y)

    def gradient(self, x: float, y: float) -> Vector:
        """Gradient at a Euclidean point."""
        return self._locate(self._barycentric_interpolation.gradient, x, y)

    def hessian(self, x: float, y: float) -> Matrix:
        """Gradient at a Euclidean point."""
        return self._locate(self._barycentric_interpolation.hessian, x, y)
''')
f("integrators","Integrator",'''
class Integrator:
    """Integrator over triangles."""

    def __init__(
        self,
        quadrature: TriangleQuadratureRule,
        triangles: list[Triangle],
        points: list[Vector],
    ):
        self._quadrature = quadrature
        self._elements = [
            (triangle, self._area(*(points[vertex] for vertex in triangle)))
            for triangle in triangles
        ]

    @staticmethod
    def _area(p, q, r):
        return abs((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])) / 2

    def __call__(
        self,
        integrand: Callable[[Triangle, BarycentricCoordinates], Any],
    ):
        nodes = list(zip(self._quadrature.points, self._quadrature.weights))
        total = 0
        for triangle, area in self._elements:
            mean = 0
            for point, weight in nodes:
                mean += weight * integrand(triangle, point)
            total += area * mean
        return total
''')
f("helpers","symmetrized_strain_delta",'''
def symmetrized_strain_delta(prev_strain: Matrix, strain: Matrix) -> Matrix:
    """Computes discrete symmetrized strain rate given two strains."""
    half = prev_strain.transpose() @ (strain - prev_strain)
    return half + half.transpose()
''')
f("helpers","heat_conductivity_reference",'''
def heat_conductivity_reference(strain: Matrix) -> Matrix:
    """Transform heat conductivity tensor into the reference configuration."""
    cofactor = Matrix([[strain[1, 1], -strain[0, 1]], [-strain[1, 0], strain[0, 0]]])
    return cofactor @ HEAT_CONDUCTIVITY @ cofactor.transpose() / strain.det()
''')
