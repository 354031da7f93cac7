E=EDITS=[]
def e(f,o,n): E.append((f,o,n))
T,D,S,M,H,I,Q,P,G,B="thermal_step","domain","simulation","mechanical_step","helpers","interpolation","quadrature_rules","tensors","integrators","bell_finite_element"
# --- mechanical step: numpy-vectorised setter, helper for bounds, rules
e(M,'''        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]

            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2[i] = new_prev_y2[i]
            m.y2[i].bounds = (
                new_prev_y2[i] - self._search_radius,
                new_prev_y2[i] + self._search_radius,
            )
''','''        m = self._model
        components = ((m.prev_y1, m.y1), (m.prev_y2, m.y2))
        for i, row in zip(m.vertices, new_prev_y):
            for value, (prev, var) in zip(row, components):
                prev[i] = value
                _center(var[i], value, self._search_radius)
''')
e(M,'''def boundary_traction_potential(boundary_traction, deform):
    return boundary_traction.dot(deform)
''','''def _center(var, value, radius):
    var.set_value(value)
    var.setlb(value - radius)
    var.setub(value + radius)


def boundary_traction_potential(boundary_traction, deform):
    return sum(g * y for g, y in zip(boundary_traction, deform))
''')
e(M,'''    for v in m.vertices:
        m.y1[v] = m.prev_y1[v]
        m.y1[v].bounds = (
            m.prev_y1[v] - search_radius,
            m.prev_y1[v] + search_radius,
        )
        m.y2[v] = m.prev_y2[v]
        m.y2[v].bounds = (
            m.prev_y2[v] - search_radius,
            m.prev_y2[v] + search_radius,
        )

    for v in m.dirichlet_vertices:
        m.y1[v].fix()
        m.y2[v].fix()
''','''    for var, prev in [(m.y1, m.prev_y1), (m.y2, m.prev_y2)]:
        for v in m.vertices:
            _center(var[v], prev[v].value, search_radius)
        for v in m.dirichlet_vertices:
            var[v].fix(prev[v].value)
''')
e(M,'''        return np.array([[m.prev_y1[i].value, m.prev_y2[i].value] for i in m.vertices])''','''        return np.column_stack(
            [[component[i].value for i in m.vertices] for component in (m.prev_y1, m.prev_y2)]
        )''')
e(M,'''        return np.array([[m.y1[i].value, m.y2[i].value] for i in m.vertices])''','''        result = np.empty((self._num_vertices, 2))
        for row, i in enumerate(m.vertices):
            result[row, 0] = pyo.value(m.y1[i])
            result[row, 1] = pyo.value(m.y2[i])
        return result''')
e(M,'''            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])''','''            x, y = self._grid.points[i]
            traction = self._boundary_traction(current_time, x, y)
            m.g1[i] = traction[0]
            m.g2[i] = traction[1]''')
e(M,'''        pyo.assert_optimal_termination(self._solver.solve(self._model))

    def prev_y(self) -> npt.NDArray[np.float64]:
        """Return the previous deformation as Nx2''','''        results = self._solver.solve(self._model)
        pyo.assert_optimal_termination(results)

    def prev_y(self) -> npt.NDArray[np.float64]:
        """Return the previous deformation as Nx2''')
e(M,'''    match constraint_id:
        case 1:
            return y[i, 1] == p[y_component]
        case 2:
            return y[i, 2] * d[0] + y[i, 3] * d[1] == d[y_component]
        case 3:
            return y[i, 4] * d[0] ** 2 + 2 * y[i, 5] * d[0] * d[1] + y[i, 6] * d[1] ** 2 == 0
        case 4:
            return y[j, 1] == q[y_component]
        case 5:
            return y[j, 2] * d[0] + y[j, 3] * d[1] == d[y_component]
        case 6:
            return y[j, 4] * d[0] ** 2 + 2 * y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2 == 0
''','''    dx, dy = d
    vertex, point = (i, p) if constraint_id <= 3 else (j, q)
    order = (constraint_id - 1) % 3
    if order == 0:
        return y[vertex, 1] == point[y_component]
    if order == 1:
        return dx * y[vertex, 2] + dy * y[vertex, 3] == d[y_component]
    return dx**2 * y[vertex, 4] + 2 * dx * dy * y[vertex, 5] + dy**2 * y[vertex, 6] == 0
''')
e(M,'''    initial_y1 = [[p[0], 1, 0, 0, 0, 0] for p in grid.points]
    initial_y2 = [[p[1], 0, 1, 0, 0, 0] for p in grid.points]
''','''    identity_derivatives = ((1, 0, 0, 0, 0), (0, 1, 0, 0, 0))
    initial_y1, initial_y2 = (
        [[p[k], *identity_derivatives[k]] for p in grid.points] for k in range(2)
    )
''')
e(M,'''        expr=m.total_elastic_energy + regularization * m.hyper_elastic_energy + fps * m.dissipation
    )''','''        expr=sum(
            weight * term
            for weight, term in (
                (1, m.total_elastic_energy),
                (regularization, m.hyper_elastic_energy),
                (fps, m.dissipation),
            )
        )
    )''')
e(M,'''        new_prev_y1 = new_prev_y[:, 0, :]
        new_prev_y2 = new_prev_y[:, 1, :]
        for i in vertices:
            for j in c1_indices:
                m.prev_y1[i, j] = new_prev_y1[i - 1, j - 1]
                m.prev_y2[i, j] = new_prev_y2[i - 1, j - 1]

                m.y1[i, j] = new_prev_y1[i - 1, j - 1]
                m.y1[i, j].bounds = (
                    new_prev_y1[i - 1, j - 1] - self._search_radius,
                    new_prev_y1[i - 1, j - 1] + self._search_radius,
                )
                m.y2[i, j] = new_prev_y2[i - 1, j - 1]
                m.y2[i, j].bounds = (
                    new_prev_y2[i - 1, j - 1] - self._search_radius,
                    new_prev_y2[i - 1, j - 1] + self._search_radius,
                )
''','''        for k, (prev, var) in enumerate([(m.prev_y1, m.y1), (m.prev_y2, m.y2)]):
            for i, j in m.deformation_indices:
                value = new_prev_y[i - 1, k, j - 1]
                prev[i, j] = value
                _center(var[i, j], value, self._search_radius)
''')
e(M,'''        for i in refined_vertices:
            self._model.prev_theta[i] = new_prev_theta[i - 1]
''','''        for i, temperature in zip(refined_vertices, new_prev_theta):
            self._model.prev_theta[i].value = temperature
''')
# thermal
e(T,'''        pyo.assert_optimal_termination(self._solver.solve(self._model))

    def prev_y(self) -> npt.NDArray[np.float64]:
        """Return the previous deformation as Nx2''','''        result = self._solver.solve(self._model)
        pyo.assert_optimal_termination(result)

    def prev_y(self) -> npt.NDArray[np.float64]:
        """Return the previous deformation as Nx2''')
e(T,'''        diffusion = temp_gradient.dot(heat_conductivity_reference(prev_strain).dot(temp_gradient))

        strain_rate = (strain - prev_strain) * fps
        heat_source_sink = (
            -(
                dissipation_rate(prev_strain, strain, fps)
                + strain_derivative_coupling_potential(prev_strain, prev_temp).scalar_product(
                    strain_rate
                )
            )
            * temp
        )

        return diffusion + heat_source_sink''','''        heat_flux = heat_conductivity_reference(prev_strain).dot(temp_gradient)
        coupling_stress = strain_derivative_coupling_potential(prev_strain, prev_temp)
        coupling = fps * coupling_stress.scalar_product(strain - prev_strain)
        friction = dissipation_rate(prev_strain, strain, fps)

        return heat_flux.dot(temp_gradient) - temp * (friction + coupling)''')
e(T,'''    l2_dissipation = ENTROPY_CONSTANT / 2 * (temp - prev_temp) ** 2
    internal_energy_dissipation = (
        temp_antrider_internal_energy_no_entropy(strain, temp)
        - internal_energy_no_entropy(prev_strain, prev_temp) * temp
    )

    return l2_dissipation + internal_energy_dissipation''','''    delta = temp - prev_temp
    return (
        ENTROPY_CONSTANT * delta * delta / 2
        + temp_antrider_internal_energy_no_entropy(strain, temp)
        - temp * internal_energy_no_entropy(prev_strain, prev_temp)
    )''')
e(T,'''            m.theta[i] = new_prev_theta[i - 1]
            m.theta[i].bounds = (
                new_prev_theta[i - 1] - self._search_radius,
                new_prev_theta[i - 1] + self._search_radius,
            )
''','''            guess = m.theta[i]
            guess.bounds = tuple(
                new_prev_theta[i - 1] + s * self._search_radius for s in (-1, 1)
            )
            guess.value = new_prev_theta[i - 1]
''')
e(T,'''        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]
''','''        self._model.prev_y1.store_values(dict(enumerate(new_prev_y[:, 0])))
        self._model.prev_y2.store_values(dict(enumerate(new_prev_y[:, 1])))
''')
e(T,'''        new_y1 = new_y[:, 0]
        new_y2 = new_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.y1[i] = new_y1[i]
            m.y2[i] = new_y2[i]
''','''        for i in self._model.vertices:
            self._model.y1[i], self._model.y2[i] = new_y[i]
''')
# simulation
e(S,'''        self._max_temp = max(self._max_temp, np.max(theta_data))
        x_coords = y_data[:, 0]
        y_coords = y_data[:, 1]
        self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
        self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
''','''        hottest = theta_data.max()
        if hottest > self._max_temp:
            self._max_temp = hottest
        self._xlims = _enlarge(self._xlims, y_data[:, 0])
        self._ylims = _enlarge(self._ylims, y_data[:, 1])
''')
e(S,'''@dataclass
class SimulationParams:''','''def _enlarge(limits: tuple[float, float], values: npt.NDArray[np.float64]) -> tuple[float, float]:
    lower, upper = limits
    return min(lower, values.min()), max(upper, values.max())


@dataclass
class SimulationParams:''')
e(S,'''        if num_steps == 1:
            self._run_single_step()
            return

        for _ in tqdm(range(num_steps)):
            self._run_single_step()''','''        for _ in tqdm(range(num_steps), disable=num_steps == 1):
            self._run_single_step()''')
e(S,'''        if i < -len(self.steps) or i >= len(self.steps):
            return None
        fig, ax = fig_axis(self._xlims, self._ylims)
        self.steps[i].plot(
            ax,
            self.max_temp(),
        )
        return fig''','''        num_steps = len(self.steps)
        if not -num_steps <= i < num_steps:
            return None
        step = self.steps[i]
        fig, ax = fig_axis(self._xlims, self._ylims)
        step.plot(ax=ax, max_temp=self._max_temp)
        return fig''')
e(S,'''        fig = self._plot_step(i)
        if fig is not None:
            step_index = i if i >= 0 else len(self.steps) + i
            fig.savefig(''','''        fig = self._plot_step(i)
        if fig is None:
            return
        else:
            step_index = i % len(self.steps)
            fig.savefig(''')
e(S,'''        self._mechanical_step.update_prev_y(self._thermal_step.y())
        self._mechanical_step.update_prev_theta(self._thermal_step.theta())
        self._mechanical_step.update_boundary_traction(self._current_time)
''','''        self._mechanical_step.update_boundary_traction(self._current_time)
        self._mechanical_step.update_prev_theta(self._thermal_step.theta())
        self._mechanical_step.update_prev_y(self._thermal_step.y())
''')
e(S,'''        deformed_points = [self.y(*p) for p in self._grid.points]
        x = [p[0] for p in deformed_points]
        y = [p[1] for p in deformed_points]
        c = [self.theta(*p) for p in self._grid.points]
''','''        x, y, c = [], [], []
        for p in self._grid.points:
            deformed = self.y(*p)
            x.append(deformed[0])
            y.append(deformed[1])
            c.append(self.theta(*p))
''')
e(S,'''        y1_params = y_data[:, 0].tolist()
        y1_interpolation = P1Interpolation(grid, y1_params)
        y2_params = y_data[:, 1].tolist()
        y2_interpolation = P1Interpolation(grid, y2_params)
        y = EuclideanDeformation(y1_interpolation, y2_interpolation)
''','''        y = EuclideanDeformation(*(P1Interpolation(grid, column.tolist()) for column in y_data.T))
''')
e(S,'''        y1_params = y_data[:, 0, :].tolist()
        y1_interpolation = C1Interpolation(grid, y1_params)
        y2_params = y_data[:, 1, :].tolist()
        y2_interpolation = C1Interpolation(grid, y2_params)
        y = EuclideanDeformation(y1_interpolation, y2_interpolation)
''','''        components = [C1Interpolation(grid, y_data[:, k].tolist()) for k in (0, 1)]
        y = EuclideanDeformation(*components)
''')
# integrators
e(G,'''        first_sides = (points[j] - points[i] for (i, j, _) in triangles)
        second_sides = (points[k] - points[i] for (i, _, k) in triangles)
        self._triangle_areas = [
            abs(first.stack(second).det() / 2) for (first, second) in zip(first_sides, second_sides)
        ]
''','''        self._triangle_areas = []
        for i, j, k in self._triangles:
            u, v = points[j] - points[i], points[k] - points[i]
            self._triangle_areas.append(abs(u[0] * v[1] - u[1] * v[0]) / 2)
''')
e(G,'''        return sum(
            edge_length
            * sum(
                weight * integrand(edge, point)
                for (point, weight) in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (edge_length, edge) in zip(self._edge_lengths, self._edges)
        )''','''        total = 0
        for edge_length, edge in zip(self._edge_lengths, self._edges):
            for weight, point in self._quadrature:
                total += edge_length * weight * integrand(edge, point)
        return total''')
# helpers
e(H,'''    return lambda *args: outer(*(f(*args) for f in inner))''','''    def integrand(*args):
        values = [f(*args) for f in inner]
        return outer(*values)

    return integrand''')
e(H,'''    return austenite_percentage(theta) * austenite_potential(strain) + (
        1 - austenite_percentage(theta)
    ) * martensite_potential(strain)''','''    austenite, martensite = austenite_potential(strain), martensite_potential(strain)
    return martensite + austenite_percentage(theta) * (austenite - martensite)''')
e(H,'''    strain_delta = strain - prev_strain
    return strain_delta.transpose() @ prev_strain + prev_strain.transpose() @ strain_delta''','''    half = prev_strain.transpose() @ (strain - prev_strain)
    return half.transpose() + half''')
e(H,'''    return hyperstrain.norm() ** HYPER_ELASTIC_POWER''','''    return hyperstrain.normsqr() ** (HYPER_ELASTIC_POWER / 2)''')
# bell
e(B,'''    a = _get_a(triangle_vertices)
    delta = sum(a) / 2
    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
    return trafo_matrix.dot(barycentric_gradient)''','''    twice_area = sum(_get_a(triangle_vertices))
    rows = Matrix([list(_get_b(triangle_vertices)), list(_get_c(triangle_vertices))])
    return rows.dot(barycentric_gradient) / twice_area''')
e(B,'''    return Vector(
        _N_lambdified(
            *barycentric_coordinates,
            *_get_b(triangle_vertices),
            *_get_c(triangle_vertices),
        )
    )''','''    arguments = [
        *barycentric_coordinates, *_get_b(triangle_vertices), *_get_c(triangle_vertices)
    ]
    return Vector(_N_lambdified(*arguments))''')
# interpolation
e(I,'''        i1, i2, i3 = triangle
        params_vec1 = Vector(self._params[i1])
        params_vec2 = Vector(self._params[i2])
        params_vec3 = Vector(self._params[i3])
        return params_vec1.extend(params_vec2).extend(params_vec3)''','''        return Vector([param for i in triangle for param in self._params[i]])''')
e(I,'''        i1, i2, i3 = triangle
        l1, l2, l3 = barycentric_coordinates
        return l1 * self._params[i1] + l2 * self._params[i2] + l3 * self._params[i3]''','''        return sum(
            weight * self._params[i] for weight, i in zip(barycentric_coordinates, triangle)
        )''')
e(I,'''        hessian_y1 = self._y[0].hessian(x, y)
        hessian_y2 = self._y[1].hessian(x, y)
        return hessian_y1.stack(hessian_y2)


class Deformation''','''        first, second = (component.hessian(x, y) for component in self._y)
        return first.stack(second)


class Deformation''')
# domain: refine
e(D,'''            coarse_barycentric_coordinates[next_triangle] = (
                BarycentricCoordinates(
                    1 - k / refinement_factor - l / refinement_factor, k / refinement_factor
                ),
                BarycentricCoordinates(
                    1 - (k + 1) / refinement_factor - l / refinement_factor,
                    (k + 1) / refinement_factor,
                ),
                BarycentricCoordinates(
                    1 - k / refinement_factor - (l + 1) / refinement_factor, k / refinement_factor
                ),
            )
''','''            coarse_barycentric_coordinates[next_triangle] = tuple(
                _lattice_coordinates(a, b, refinement_factor)
                for a, b in ((k, l), (k + 1, l), (k, l + 1))
            )
''')
e(D,'''def _refine_boundary_edge(
    edge: Edge,''','''def _lattice_coordinates(k: int, l: int, n: int) -> BarycentricCoordinates:
    return BarycentricCoordinates((n - k - l) / n, k / n)


def _refine_boundary_edge(
    edge: Edge,''')
e(D,'''    for l in range(refinement_factor + 1):
        for k in range(refinement_factor + 1 - l):
            # ignore endpoints
            if k == 0 and l == 0:
                continue
            if k == refinement_factor and l == 0:
                continue
            if k == 0 and l == refinement_factor:
                continue
''','''    corners = set(triangle_vertices)
    for l in range(refinement_factor + 1):
        for k in range(refinement_factor + 1 - l):
            if (k, l) in corners:
                continue
''')
e(D,'''    if edge not in boundary.edges:
        return

    intermediate_boundary.vertices.extend(edge_vertices[1:-1])
    intermediate_boundary.edges.extend(
        (i, j) for i, j in zip(edge_vertices[:-1], edge_vertices[1:])
    )''','''    if edge in boundary.edges:
        intermediate_boundary.vertices.extend(edge_vertices[1:-1])
        for first, second in zip(edge_vertices, edge_vertices[1:]):
            intermediate_boundary.edges.append((first, second))''')
e(D,'''        points = [
            Vector([
                v % num_horizontal_vertices * scale,
                v // num_horizontal_vertices * scale,
            ])
            for v in vertices
        ]
''','''        points = [
            Vector([i * scale, j * scale])
            for j in range(num_vertical_vertices)
            for i in range(num_horizontal_vertices)
        ]
''')
e(D,'''        lower_triangles = [
            (
                pair_to_vertex(i, j),
                pair_to_vertex(i + 1, j),
                pair_to_vertex(i + 1, j + 1),
            )
            for i in range(num_horizontal_vertices - 1)
            for j in range(num_vertical_vertices - 1)
        ]
        upper_triangles = [
            (
                pair_to_vertex(i + 1, j + 1),
                pair_to_vertex(i, j + 1),
                pair_to_vertex(i, j),
            )
            for i in range(num_horizontal_vertices - 1)
            for j in range(num_vertical_vertices - 1)
        ]
''','''        lower_triangles = []
        upper_triangles = []
        for i in range(num_horizontal_vertices - 1):
            for j in range(num_vertical_vertices - 1):
                lower_left, lower_right = pair_to_vertex(i, j), pair_to_vertex(i + 1, j)
                upper_left, upper_right = pair_to_vertex(i, j + 1), pair_to_vertex(i + 1, j + 1)
                lower_triangles.append((lower_left, lower_right, upper_right))
                upper_triangles.append((upper_right, upper_left, lower_left))
''')
e(D,'''        coarse_t = t * t1 + (1 - t) * t2
        return coarse_edge, coarse_t''','''        return coarse_edge, t2 + t * (t1 - t2)''')
e(P,'''        return Vector([x + y for x, y in zip(self.data, other.data)])

    def __sub__''','''        result = list(self.data)
        for i, y in enumerate(other.data):
            result[i] = result[i] + y
        return Vector(result)

    def __sub__''')
e(Q,'''        points = (1 + points) / 2
        weights /= 2
        self.points = list(points)
        self.weights = list(weights)''','''        self.points = [0.5 + 0.5 * x for x in points]
        self.weights = [w / 2 for w in weights]''')
