NEWFILES={"model_utils":'''"""Shared helpers of the pyomo models."""

import numpy as np
import pyomo.environ as pyo


class SolvedModel:
    """Mixin: a pyomo model together with its solver."""

    _solver = None
    _model = None

    def solve(self) -> None:
        """Solve the model, raise if no optimal solution was found."""
        results = self._solver.solve(self._model)
        pyo.assert_optimal_termination(results)


def check_shape(array, expected, name="Input array"):
    """Raise a ValueError if the array is not of the expected shape."""
    if array.shape != expected:
        raise ValueError(f"{name} has incorrect shape {array.shape} (should be {expected})")


def start_from(variable, value, radius):
    """Start value and search box."""
    variable.value = value
    variable.bounds = (value - radius, value + radius)


def scalar_values(component, index):
    """Values of an indexed component as array."""
    return np.array([component[i].value for i in index])


def c1_values(index, *components):
    """Values of c1 components as array of shape N x len(components) x 6."""
    return np.array([
        [[component[i, j].value for j in range(1, 7)] for component in components] for i in index
    ])
'''}
EDITS=[
("mechanical_step","from tvemoves_rufbad.tensors import Vector\n","from tvemoves_rufbad.model_utils import SolvedModel, check_shape, start_from, scalar_values, c1_values\nfrom tvemoves_rufbad.tensors import Vector\n"),
("thermal_step","from tvemoves_rufbad.domain import Grid, RefinedGrid\n","from tvemoves_rufbad.domain import Grid, RefinedGrid\nfrom tvemoves_rufbad.model_utils import SolvedModel, check_shape, start_from, scalar_values, c1_values\n"),
("mechanical_step","class _MechanicalStep(AbstractMechanicalStep):","class _MechanicalStep(SolvedModel, AbstractMechanicalStep):"),
("mechanical_step","class _MechanicalStepRegularized(AbstractMechanicalStep):","class _MechanicalStepRegularized(SolvedModel, AbstractMechanicalStep):"),
("thermal_step","class _ThermalStep(AbstractThermalStep):","class _ThermalStep(SolvedModel, AbstractThermalStep):"),
("thermal_step","class _ThermalStepRegularized(AbstractThermalStep):","class _ThermalStepRegularized(SolvedModel, AbstractThermalStep):"),
("simulation","        self._tau = 1 / self.params.fps\n        self._current_time = -self._tau\n",""),
("simulation","        self.steps.append(step)\n\n        # Update time\n        self._current_time += self._tau\n","        self.steps.append(step)\n"),
("helpers","import sympy as sp\n","import sympy as sp\nfrom functools import partial\n"),
("domain","from copy import deepcopy\n","from copy import deepcopy\nfrom itertools import product\nimport math\n"),
]
F=FUNCS=[]
def f(m,q,s): F.append((m,q,s))
SOLVE="pass"
for m,c in (("mechanical_step","_MechanicalStep"),("mechanical_step","_MechanicalStepRegularized"),("thermal_step","_ThermalStep"),("thermal_step","_ThermalStepRegularized")):
    F.append((m,c+".solve","num_solve_attempts = 1"))
f("mechanical_step","_MechanicalStep.update_prev_y",'''
def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
    check_shape(new_prev_y, (self._num_vertices, 2))
    m = self._model
    for k, (prev, current) in enumerate(((m.prev_y1, m.y1), (m.prev_y2, m.y2))):
        for i in m.vertices:
            prev[i] = new_prev_y[i, k]
            start_from(current[i], new_prev_y[i, k], self._search_radius)
''')
f("mechanical_step","_MechanicalStepRegularized.update_prev_y",'''
def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
    check_shape(new_prev_y, (self._num_vertices, 2, 6))
    m = self._model
    for i, j in m.deformation_indices:
        for k, (prev, current) in enumerate(((m.prev_y1, m.y1), (m.prev_y2, m.y2))):
            value = new_prev_y[i - 1, k, j - 1]
            prev[i, j] = value
            start_from(current[i, j], value, self._search_radius)
''')
f("mechanical_step","_MechanicalStepRegularized.prev_y",'''
def prev_y(self) -> npt.NDArray[np.float64]:
    return c1_values(self._model.vertices, self._model.prev_y1, self._model.prev_y2)
''')
f("mechanical_step","_MechanicalStepRegularized.y",'''
def y(self) -> npt.NDArray[np.float64]:
    return c1_values(self._model.vertices, self._model.y1, self._model.y2)
''')
f("mechanical_step","_MechanicalStepRegularized.prev_theta",'''
def prev_theta(self) -> npt.NDArray[np.float64]:
    return scalar_values(self._model.prev_theta, self._model.refined_vertices)
''')
f("thermal_step","_ThermalStepRegularized.y",'''
def y(self) -> npt.NDArray[np.float64]:
    return c1_values(self._model.vertices, self._model.y1, self._model.y2)
''')
f("thermal_step","_ThermalStepRegularized.theta",'''
def theta(self) -> npt.NDArray[np.float64]:
    return scalar_values(self._model.theta, self._model.refined_vertices)
''')
f("thermal_step","_ThermalStepRegularized.update_prev_theta",'''
def update_prev_theta(self, new_prev_theta: npt.NDArray[np.float64]) -> None:
    m = self._model
    check_shape(new_prev_theta, (len(m.refined_vertices),))
    for i, value in enumerate(new_prev_theta, start=1):
        m.prev_theta[i] = value
        start_from(m.theta[i], value, self._search_radius)
''')
f("thermal_step","_ThermalStepRegularized.update_y",'''
def update_y(self, new_y: npt.NDArray[np.float64]) -> None:
    self._store(new_y, self._model.y1, self._model.y2)
''')
f("thermal_step","_ThermalStepRegularized.update_prev_y",'''
def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
    self._store(new_prev_y, self._model.prev_y1, self._model.prev_y2)
''')
f("thermal_step","^_ThermalStepRegularized.update_y",'''
def _store(self, array, *components) -> None:
    check_shape(array, (self._num_vertices, 2, 6))
    for k, component in enumerate(components):
        component.store_values({(i, j): array[i - 1, k, j - 1] for i, j in self._model.deformation_indices})
''')
f("thermal_step","_ThermalStep.update_y",'''
def update_y(self, new_y: npt.NDArray[np.float64]) -> None:
    check_shape(new_y, (self._num_vertices, 2))
    for component, values in zip((self._model.y1, self._model.y2), new_y.T):
        for i, value in enumerate(values):
            component[i] = value
''')
# model construction split into helpers
f("mechanical_step","^_model",'''
def _add_loads(m, grid, boundary_traction):
    def component(k):
        return pyo.Param(
            m.neumann_vertices,
            within=pyo.Reals,
            initialize={i: boundary_traction(*grid.points[i])[k] for i in grid.neumann_boundary.vertices},
            mutable=True,
        )

    m.g1 = component(0)
    m.g2 = component(1)


def _unknown(prev, search_radius):
    return pyo.Var(
        list(prev.index_set()),
        within=pyo.Reals,
        initialize=lambda _, *i: prev[i].value if len(i) > 1 else prev[i[0]].value,
        bounds=lambda _, i: (prev[i].value - search_radius, prev[i].value + search_radius),
    )
''')
f("mechanical_step","_model",'''
def _model(grid, initial_temperature, search_radius, fps, boundary_traction) -> pyo.ConcreteModel:
    """Create model for the mechanical step without regularization."""
    m = pyo.ConcreteModel("Mechanical Step")
    m.vertices = pyo.Set(initialize=grid.vertices, dimen=1)
    m.neumann_vertices = pyo.Set(initialize=grid.neumann_boundary.vertices, dimen=1)

    m.prev_y1 = pyo.Param(m.vertices, within=pyo.Reals, initialize=dict(enumerate(p[0] for p in grid.points)), mutable=True)
    m.prev_y2 = pyo.Param(m.vertices, within=pyo.Reals, initialize=dict(enumerate(p[1] for p in grid.points)), mutable=True)
    m.prev_theta = pyo.Param(m.vertices, within=pyo.NonNegativeReals, default=initial_temperature, initialize=initial_temperature, mutable=True)
    _add_loads(m, grid, boundary_traction)

    m.y1 = pyo.Var(m.vertices, within=pyo.Reals, initialize=lambda m, i: m.prev_y1[i].value,
                   bounds=lambda m, i: (m.prev_y1[i].value - search_radius, m.prev_y1[i].value + search_radius))
    m.y2 = pyo.Var(m.vertices, within=pyo.Reals, initialize=lambda m, i: m.prev_y2[i].value,
                   bounds=lambda m, i: (m.prev_y2[i].value - search_radius, m.prev_y2[i].value + search_radius))
    for v in grid.dirichlet_boundary.vertices:
        for component in (m.y1, m.y2):
            component[v].fix()

    m.prev_deform = Deformation(P1Interpolation(grid, m.prev_y1), P1Interpolation(grid, m.prev_y2))
    m.prev_temp = P1Interpolation(grid, m.prev_theta)
    m.deform = Deformation(*(P1Interpolation(grid, component) for component in (m.y1, m.y2)))
    tractions = [P1BoundaryInterpolation(grid.neumann_boundary, g) for g in (m.g1, m.g2)]

    def work(edge, t):
        return sum(traction(edge, t) * m.deform[k].on_edge(edge, t) for k, traction in enumerate(tractions))

    over_triangles = Integrator(DUNAVANT2, grid.triangles, grid.points)
    piecewise_constant = Integrator(CENTROID, grid.triangles, grid.points)
    over_neumann_edges = BoundaryIntegrator(1, grid.neumann_boundary.edges, grid.points)

    m.total_elastic_energy = over_triangles(
        compose_to_integrand(total_elastic_potential, m.deform.strain, m.prev_temp)
    )
    m.dissipation = piecewise_constant(
        lambda triangle, point: dissipation_potential(
            m.prev_deform.strain(triangle, point), m.deform.strain(triangle, point)
        )
    )
    m.boundary_traction_energy = over_neumann_edges(work)

    def objective(m):
        return m.total_elastic_energy + fps * m.dissipation - m.boundary_traction_energy

    m.objective = pyo.Objective(rule=objective, sense=pyo.minimize)
    return m
''')
f("thermal_step","_add_objective",'''
def _add_objective(m, integrator, prev_deform, deform, prev_temp, temp, fps, boundary_integrator=None):
    strains = (prev_deform.strain, deform.strain)
    m.energy = pyo.Expression(expr=integrator(
        compose_to_integrand(_energy_potential(fps), *strains, prev_temp, temp, temp.gradient)
    ))
    m.dissipation = pyo.Expression(expr=integrator(compose_to_integrand(_dissipation_potential, *strains, prev_temp, temp)))
    terms = [m.energy, fps * m.dissipation]
    if boundary_integrator is not None:
        exchange = _boundary_potential(HEAT_TRANSFER_COEFFICIENT, m.external_temperature)
        terms.append(boundary_integrator(lambda edge, t: exchange(temp.on_edge(edge, t))))
    m.objective = pyo.Objective(expr=sum(terms))
''')
# simulation
f("simulation","^Simulation.max_temp",'''
@property
def _tau(self) -> float:
    return 1 / self.params.fps

@property
def _current_time(self) -> float:
    """Time of the newest step."""
    return (len(self.steps) - 1) * self._tau
''')
f("simulation","Simulation._append_step",'''
def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
    self._max_temp = max(self._max_temp, np.max(theta_data))
    self._xlims = _union(self._xlims, y_data[:, 0])
    self._ylims = _union(self._ylims, y_data[:, 1])
    self.steps.append(self._make_step(y_data, theta_data))
''')
f("simulation","^Simulation._append_step",'''
def _make_step(self, y_data, theta_data) -> AbstractStep:
    arguments = [y_data, theta_data, self._domain, self._grid]
    step_class = Step
    if self.params.regularization is not None:
        step_class = RegularizedStep
        arguments.append(self._refined_grid)
    return step_class(*arguments)
''')
f("simulation","^Simulation",'''
def _union(lims: tuple[float, float], values) -> tuple[float, float]:
    return (np.minimum(lims[0], np.min(values)), np.maximum(lims[1], np.max(values)))
''')
f("simulation","Simulation.save_step",'''
def save_step(self, i: int, path: str = "step"):
    if (fig := self._plot_step(i)) is None:
        return
    options = dict(bbox_inches="tight", transparent="True", pad_inches=0, dpi=300)
    number = range(len(self.steps))[i]
    fig.savefig("_".join([path, str(number)]) + ".png", **options)
''')
f("simulation","AbstractStep._plot_temperature",'''
def _plot_temperature(self, ax, max_temp: float) -> None:
    points = list(self._grid.points)
    deformed = np.array([list(self.y(*p)) for p in points])
    temperatures = [self.theta(p[0], p[1]) for p in points]
    ax.tripcolor(deformed[:, 0], deformed[:, 1], temperatures, triangles=self._grid.triangles,
                 vmin=0.0, vmax=max_temp, cmap="plasma", edgecolors="black")
''')
# helpers
f("helpers","compose_to_integrand",'''
def compose_to_integrand(outer, *inner):
    """Compose."""
    return partial(_evaluate_composition, outer, inner)
''')
f("helpers","^compose_to_integrand",'''
def _evaluate_composition(outer, inner, *args):
    return outer(*[f(*args) for f in inner])
''')
f("helpers","total_elastic_potential",'''
def total_elastic_potential(strain: Matrix, theta):
    """Total."""
    austenite = austenite_percentage(theta)
    percentages = {austenite_potential: austenite, martensite_potential: 1 - austenite}
    return sum(percentage * potential(strain) for potential, percentage in percentages.items())
''')
f("helpers","austenite_potential",'''
def austenite_potential(strain: Matrix):
    """Austenite potential."""
    return _austenite_potential_flat_input(*strain.flatten())
''')
f("helpers","derivative_martensite_potential",'''
def derivative_martensite_potential(strain: Matrix) -> Matrix:
    """Derivative of the Martensite potential."""
    entries = [strain[i, j] for i in range(2) for j in range(2)]
    return Matrix(_derivative_martensite_potential_flat_input(*entries))
''')
# domain
f("domain","_to_barycentric_coordinates",'''
def _to_barycentric_coordinates(triangle_vertices: TriangleVertices, p: Vector) -> BarycentricCoordinates:
    """Cramer's rule."""
    p1, p2, p3 = triangle_vertices
    area = (p2 - p1).stack(p3 - p1).det()
    return BarycentricCoordinates(
        (p2 - p).stack(p3 - p).det() / area,
        (p3 - p).stack(p1 - p).det() / area,
    )
''')
f("domain","Grid.to_barycentric_point",'''
def to_barycentric_point(self, p: Vector) -> BarycentricPoint | None:
    corners = {t: self.triangle_vertices(t) for t in self.triangles}
    containing = (t for t, c in corners.items() if _triangle_contains_point(c, p))
    t = next(containing, None)
    return None if t is None else BarycentricPoint(t, _to_barycentric_coordinates(corners[t], p))
''')
f("domain","Grid.append_edge",'''
def append_edge(self, edge: Edge) -> None:
    """Append an edge if it is not already present."""
    if self._contains_edge(edge):
        return
    i, j = edge
    length = (self.points[i] - self.points[j]).norm()
    total = 0 if self._mean_edge_length is None else self._mean_edge_length * len(self.edges)
    self.edges.append(edge)
    self._mean_edge_length = (total + length) / len(self.edges)
''')
f("interpolation","EuclideanDeformation.strain",'''
def strain(self, x: float, y: float) -> Matrix:
    """Compute the strain of the deformation in a triangle."""
    gradients = [component.gradient(x, y) for component in self._y]
    return gradients[0].stack(gradients[1])
''')
f("interpolation","C1Interpolation.__call__",'''
def __call__(self, triangle: Triangle, barycentric_coordinates: BarycentricCoordinates):
    """Compute the value of the interpolation in a triangle."""
    return self._evaluate(bell_interpolation, triangle, barycentric_coordinates)
''')
f("interpolation","C1Interpolation.gradient",'''
def gradient(self, triangle: Triangle, barycentric_coordinates: BarycentricCoordinates) -> Vector:
    return self._evaluate(bell_interpolation_gradient, triangle, barycentric_coordinates)
''')
f("interpolation","^C1Interpolation.gradient",'''
def _evaluate(self, formula, triangle, barycentric_coordinates):
    vertices = self.grid.triangle_vertices(triangle)
    return formula(vertices, barycentric_coordinates, self._triangle_params(triangle))
''')
f("bell_finite_element","transform_gradient",'''
def transform_gradient(triangle_vertices: TriangleVertices, barycentric_gradient: Vector) -> Vector:
    p1, p2, p3 = triangle_vertices
    twice_area = (p2 - p1).stack(p3 - p1).det()
    b, c = _get_b(triangle_vertices), _get_c(triangle_vertices)
    return Vector([Vector(list(row)).dot(barycentric_gradient) / twice_area for row in (b, c)])
''')
f("bell_finite_element","_shape_function_on_edge",'''
def _shape_function_on_edge(edge_vertices: EdgeVertices, t: float) -> Vector:
    direction = edge_vertices[1] - edge_vertices[0]
    return Vector(_N_on_edge_lambdified(t, -direction[1], direction[0]))
''')
f("integrators","BoundaryIntegrator.__call__",'''
def __call__(self, integrand):
    return sum(
        edge_length * weight * integrand(edge, point)
        for edge_length, edge in zip(self._edge_lengths, self._edges)
        for weight, point in self._quadrature
    )
''')
