E=EDITS=[]
def e(f,o,n): E.append((f,o,n))
T,D,S,M,H,I,Q,P,G,B="thermal_step","domain","simulation","mechanical_step","helpers","interpolation","quadrature_rules","tensors","integrators","bell_finite_element"
# tensors
e(P,'''        return sum(x * x for x in self.data)

    def norm(self):
        """Compute square of the Euclidean norm."""''','''        total = 0
        for x in self.data:
            total += x * x
        return total

    def norm(self):
        """Compute square of the Euclidean norm."""''')
e(P,'''        res = 0
        for p in permutations(range(self.shape[0])):
            prod = 1
            for i in range(self.shape[0]):
                prod *= self.data[i][p[i]]
            res += sign(p) * prod

        return res''','''        n = self.shape[0]
        if n == 2:
            (a, b), (c, d) = self.data
            return a * d - b * c
        return sum(
            sign(p) * math.prod(self.data[i][p[i]] for i in range(n))
            for p in permutations(range(n))
        )''')
e(P,"from itertools import permutations","import math\nfrom itertools import permutations, combinations")
e(P,'''    num_misplaced = 0
    for i, a in enumerate(p):
        for b in p[i + 1 :]:
            if b < a:
                num_misplaced += 1

    return 1 if num_misplaced % 2 == 0 else -1''','''    inversions = sum(1 for a, b in combinations(p, 2) if b < a)
    return -1 if inversions % 2 else 1''')
e(P,'''        return Matrix([
            [
                sum(self.data[i][k] * other.data[k][j] for k in range(self.shape[1]))
                for j in range(other.shape[1])
            ]
            for i in range(self.shape[0])
        ])''','''        columns = list(zip(*other.data))
        return Matrix([
            [sum(a * b for a, b in zip(row, column)) for column in columns] for row in self.data
        ])''')
e(P,'''        return Matrix(
            [[self.data[i][j] for i in range(self.shape[0])] for j in range(self.shape[1])]
        )

    def trace''','''        return Matrix([list(column) for column in zip(*self.data)])

    def trace''')
e(P,'''        return sum(self.data[i][i] for i in range(min(self.shape)))''','''        result = 0
        for i, row in enumerate(self.data):
            if i < len(row):
                result += row[i]
        return result''')
e(P,'''        return Vector([
            sum(self.data[i][j] * v[j] for j in range(self.shape[1])) for i in range(self.shape[0])
        ])''','''        return Vector([Vector(row).dot(Vector(list(v))) for row in self.data])''')
e(P,'''        for i in range(BarycentricCoordinates.size):
            if self._data[i] < lower:
                self._data[i] = lower
            elif self._data[i] > upper:
                self._data[i] = upper''','''        self._data = [max(lower, min(upper, x)) for x in self._data]''')
# domain
e(D,'''        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                return BarycentricPoint(triangle, _to_barycentric_coordinates(triangle_vertices, p))
        return None''','''        for triangle in self.triangles:
            corners = tuple(self.points[i] for i in triangle)
            if not _triangle_contains_point(corners, p):
                continue
            coordinates = _to_barycentric_coordinates(corners, p)
            return BarycentricPoint(triangle, coordinates)
        return None''')
e(D,'''    d1 = _sign((p, p1, p2))
    d2 = _sign((p, p2, p3))
    d3 = _sign((p, p3, p1))

    has_neg = (d1 < -eps) or (d2 < -eps) or (d3 < -eps)
    has_pos = (d1 > eps) or (d2 > eps) or (d3 > eps)

    return not (has_neg and has_pos)''','''    signs = [_sign((p, a, b)) for a, b in ((p1, p2), (p2, p3), (p3, p1))]
    return not (any(d < -eps for d in signs) and any(d > eps for d in signs))''')
e(D,'''        return next(
            (
                i
                for i, grid_point in enumerate(self.points)
                if self._points_coincide(point, grid_point)
            ),
            None,
        )''','''        for i, grid_point in enumerate(self.points):
            if self._points_coincide(point, grid_point):
                return i
        return None''')
e(D,'''        i1, i2, i3 = triangle
        return (self.points[i1], self.points[i2], self.points[i3])

    def edge_vertices''','''        return tuple(self.points[i] for i in triangle)

    def edge_vertices''')
e(D,'''        if edge not in self.edges and (edge[1], edge[0]) not in self.edges:
            # Update mean''','''        if not self._contains_edge(edge):
            # Update mean''')
e(D,'''                self._mean_edge_length = self._mean_edge_length * num_edges_old / (
                    num_edges_old + 1
                ) + new_edge_length / (num_edges_old + 1)''','''                self._mean_edge_length = (
                    self._mean_edge_length * num_edges_old + new_edge_length
                ) / (num_edges_old + 1)''')
e(D,'''        coarse_barycentric_coordinates = BarycentricCoordinates(
            p.l1 * q1.l1 + p.l2 * q2.l1 + p.l3 * q3.l1, p.l1 * q1.l2 + p.l2 * q2.l2 + p.l3 * q3.l2
        )
        return BarycentricPoint(coarse_triangle, coarse_barycentric_coordinates)''','''        corners = (q1, q2, q3)
        l1 = sum(weight * corner.l1 for weight, corner in zip(p, corners))
        l2 = sum(weight * corner.l2 for weight, corner in zip(p, corners))
        return BarycentricPoint(coarse_triangle, BarycentricCoordinates(l1, l2))''')
e(D,'''        num_horizontal_vertices = int(self.width / scale) + 1
        num_vertical_vertices = int(self.height / scale) + 1
''','''        num_horizontal_vertices = self._num_vertices_along(self.width, scale)
        num_vertical_vertices = self._num_vertices_along(self.height, scale)
''')
e(D,'''    def grid(self, scale: float) -> Grid:
        """Return a grid of''','''    @staticmethod
    def _num_vertices_along(length: float, scale: float) -> int:
        return 1 + int(length / scale)

    def grid(self, scale: float) -> Grid:
        """Return a grid of''')
e(D,'''            for fix in fixes:
                match fix:
                    case "lower":
                        dirichlet_edges.update(lower_boundary_edges)
                        neumann_edges.difference_update(lower_boundary_edges)
                    case "right":
                        dirichlet_edges.update(right_boundary_edges)
                        neumann_edges.difference_update(right_boundary_edges)
                    case "upper":
                        dirichlet_edges.update(upper_boundary_edges)
                        neumann_edges.difference_update(upper_boundary_edges)
                    case "left":
                        dirichlet_edges.update(left_boundary_edges)
                        neumann_edges.difference_update(left_boundary_edges)
                    case _:
                        raise ValueError(f"unknown side {fix!r} provided as fix option")''','''            edges_of_side = {
                "lower": lower_boundary_edges,
                "right": right_boundary_edges,
                "upper": upper_boundary_edges,
                "left": left_boundary_edges,
            }
            for fix in fixes:
                if fix not in edges_of_side:
                    raise ValueError(f"unknown side {fix!r} provided as fix option")
                dirichlet_edges |= set(edges_of_side[fix])
                neumann_edges -= set(edges_of_side[fix])''')
# interpolation
e(I,'''        i1, i2, i3 = triangle
        l1, l2, l3 = barycentric_coordinates
        return l1 * self._params[i1] + l2 * self._params[i2] + l3 * self._params[i3]''','''        return sum(
            weight * self._params[vertex]
            for weight, vertex in zip(barycentric_coordinates, triangle)
        )''')
e(I,'''        i1, i2, i3 = triangle
        params_vec1 = Vector(self._params[i1])
        params_vec2 = Vector(self._params[i2])
        params_vec3 = Vector(self._params[i3])
        return params_vec1.extend(params_vec2).extend(params_vec3)''','''        return Vector([param for vertex in triangle for param in self._params[vertex]])''')
e(I,'''        p = Vector([x, y])
        p_barycentric = self.grid.to_barycentric_point(p)
        if p_barycentric is None:
            raise ValueError(f"point {p} lies outside the domain")

        return p_barycentric.triangle, p_barycentric.coordinates''','''        p = Vector([x, y])
        if (located := self.grid.to_barycentric_point(p)) is not None:
            return located.triangle, located.coordinates
        raise ValueError(f"point {p} lies outside the domain")''')
e(I,'''        return Vector([
            self._y[0](x, y),
            self._y[1](x, y),
        ])''','''        return Vector([component(x, y) for component in self._y])''')
# integrators
e(G,'''        return sum(
            triangle_area
            * sum(
                weight * integrand(triangle, point)
                for point, weight in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
        )''','''        total = 0
        for area, triangle in zip(self._triangle_areas, self._triangles):
            mean = sum(weight * integrand(triangle, point) for weight, point in self._quadrature)
            total += area * mean
        return total''')
e(G,'''        first_sides = (points[j] - points[i] for (i, j, _) in triangles)
        second_sides = (points[k] - points[i] for (i, _, k) in triangles)
        self._triangle_areas = [
            abs(first.stack(second).det() / 2) for (first, second) in zip(first_sides, second_sides)
        ]''','''        self._triangle_areas = [
            _area(points[i], points[j], points[k]) for (i, j, k) in self._triangles
        ]''')
e(G,'''class Integrator:''','''def _area(p1: Vector, p2: Vector, p3: Vector):
    return abs((p2 - p1).stack(p3 - p1).det()) / 2


class Integrator:''')
# steps
e(M,'''            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2[i] = new_prev_y2[i]
            m.y2[i].bounds = (
                new_prev_y2[i] - self._search_radius,
                new_prev_y2[i] + self._search_radius,
            )

    def update''','''            _center(m.y1[i], new_prev_y1[i], self._search_radius)
            _center(m.y2[i], new_prev_y2[i], self._search_radius)

    def update''')
e(M,'''                m.y1[i, j] = new_prev_y1[i - 1, j - 1]
                m.y1[i, j].bounds = (
                    new_prev_y1[i - 1, j - 1] - self._search_radius,
                    new_prev_y1[i - 1, j - 1] + self._search_radius,
                )
                m.y2[i, j] = new_prev_y2[i - 1, j - 1]
                m.y2[i, j].bounds = (
                    new_prev_y2[i - 1, j - 1] - self._search_radius,
                    new_prev_y2[i - 1, j - 1] + self._search_radius,
                )''','''                _center(m.y1[i, j], new_prev_y1[i - 1, j - 1], self._search_radius)
                _center(m.y2[i, j], new_prev_y2[i - 1, j - 1], self._search_radius)''')
e(M,'''def boundary_traction_potential(''','''def _center(variable, value, radius):
    variable.set_value(value)
    variable.setlb(value - radius)
    variable.setub(value + radius)


def boundary_traction_potential(''')
e(M,'''        if new_prev_theta.shape != (self._num_vertices,):
            raise ValueError(
                f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                f" {(self._num_vertices,)})"
            )

        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]''','''        expected = (self._num_vertices,)
        if new_prev_theta.shape != expected:
            raise ValueError(
                f"Input array has incorrect shape {new_prev_theta.shape} (should be {expected})"
            )

        prev_theta = self._model.prev_theta
        for i, value in zip(self._model.vertices, new_prev_theta):
            prev_theta[i] = value''')
e(M,'''        return np.array([[m.y1[i].value, m.y2[i].value] for i in m.vertices])''','''        y1 = [m.y1[i].value for i in m.vertices]
        y2 = [m.y2[i].value for i in m.vertices]
        return np.array([y1, y2]).T''')
e(T,'''        return np.array([m.theta[i].value for i in m.vertices])''','''        return np.array([pyo.value(m.theta[i]) for i in m.vertices])''')
e(T,'''        new_y1 = new_y[:, 0]
        new_y2 = new_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.y1[i] = new_y1[i]
            m.y2[i] = new_y2[i]''','''        m = self._model
        for i in m.vertices:
            m.y1[i], m.y2[i] = new_y[i]''')
e(T,'''    if prev_y.shape != y_data_shape:
        raise ValueError(f"prev_y has incorrect shape {prev_y.shape} (should be {y_data_shape}")
    if y.shape != y_data_shape:
        raise ValueError(f"y has incorrect shape {y.shape} (should be {y_data_shape}")
    if prev_theta.shape != theta_data_shape:
        raise ValueError(f"y has incorrect shape {prev_theta.shape} (should be {theta_data_shape}")''','''    for name, array, shape in (
        ("prev_y", prev_y, y_data_shape),
        ("y", y, y_data_shape),
        ("y", prev_theta, theta_data_shape),
    ):
        if array.shape != shape:
            raise ValueError(f"{name} has incorrect shape {array.shape} (should be {shape}")''')
# simulation
e(S,'''        if num_steps == 1:
            self._run_single_step()
            return

        for _ in tqdm(range(num_steps)):
            self._run_single_step()''','''        step_numbers = range(num_steps)
        if num_steps > 1:
            step_numbers = tqdm(step_numbers)
        for _ in step_numbers:
            self._run_single_step()''')
e(S,'''        x_coords = y_data[:, 0]
        y_coords = y_data[:, 1]
        self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
        self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
''','''        self._xlims = _extend_limits(self._xlims, y_data[:, 0])
        self._ylims = _extend_limits(self._ylims, y_data[:, 1])
''')
e(S,'''class Simulation:
''','''def _extend_limits(limits, values):
    lower, upper = limits
    return min(lower, values.min()), max(upper, values.max())


class Simulation:
''')
e(S,'''        if i < -len(self.steps) or i >= len(self.steps):
            return None''','''        if not -len(self.steps) <= i < len(self.steps):
            return None''')
e(S,'''            step_index = i if i >= 0 else len(self.steps) + i''','''            step_index = i % len(self.steps)''')
e(H,'''    return lambda *args: outer(*(f(*args) for f in inner))''','''    def composed(*args):
        values = [f(*args) for f in inner]
        return outer(*values)

    return composed''')
e(H,'''    return austenite_percentage(theta) * austenite_potential(strain) + (
        1 - austenite_percentage(theta)
    ) * martensite_potential(strain)''','''    percentage = austenite_percentage(theta)
    martensite = martensite_potential(strain)
    return martensite + percentage * (austenite_potential(strain) - martensite)''')
