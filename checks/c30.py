"""C30: obstacles which can be entered (a body with free spaces inside)."""
import itertools
import math
import warnings

import numpy as np

from lib.gen import angle, nonzero_vec, num, st, vec
from lib.pbt import Discard, Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, unit
from lib.scene import build_obstacle, obstacle_case, orientation

from vartools.dynamical_systems import LinearSystem

from nonlinear_avoidance.multi_hull_and_obstacle import (
    MultiHullAndObstacle,
    MultiRotationalContainer,
    create_u_shape_obstacle,
    get_boundary_intersection_weight,
)

PROPERTY = "C30"
RULE = (
    "Bodies (ellipse or cuboid) in two and three dimensions at any pose, with up to five free spaces "
    "which overlap in a tree and partly stick out; histories of up to eight changes of the attractor "
    "and evaluations at any position. Non-trivial: a position where several spaces or a route of two or more spaces matter, a "
    "position at a wall, or at least one connection."
)
ASSUMPTIONS = [
    "Gamma, normal and surface points of the single bodies are of the stand-in library.",
    "The normal of a boundary points into its free space, as the descent of utils.py documents.",
]


# --- Building --------------------------------------------------------------------------
@st.composite
def hull_case(draw, max_inner=5):
    dim = draw(st.sampled_from([2, 2, 3]))
    case = {
        "outer": draw(obstacle_case(dim, spread=1.0, min_axis=2.0, max_axis=6.0, shift=False)),
        "inner": [],
        "position": draw(vec(dim, -4.0, 4.0)),
        "rot": draw(angle()) if dim == 2 else draw(vec(3, -3.0, 3.0)),
    }
    for ii in range(draw(st.integers(0, max_inner))):
        item = draw(obstacle_case(dim, spread=1.0, min_axis=0.6, max_axis=3.0))
        item["parent"] = draw(st.integers(-1, ii - 1)) if ii else -1
        item["offset"] = draw(st.one_of(num(0.0, 1.2), num(0.8, 1.1), st.just(1.0)))
        item["way"] = draw(nonzero_vec(dim, -1.0, 1.0, min_norm=0.1))
        case["inner"].append(item)
    return case


def at(body, way, level):
    """Position in the given direction from the center (level one: on the surface)."""
    surface = body.get_point_on_surface(body.center_position + unit(way), in_global_frame=True)
    return body.center_position + level * (surface - body.center_position)


def build(case):
    outer = build_obstacle(case["outer"])
    inner = []
    for item in case["inner"]:
        parent = outer if item["parent"] < 0 else inner[item["parent"]]
        item = dict(item)
        item["center"] = at(parent, item["way"], item["offset"]).tolist()
        inner.append(build_obstacle(item, is_boundary=True))
    hull = MultiHullAndObstacle(
        inner_obstacles=inner,
        outer_obstacle=outer,
        center_position=arr(case["position"]),
        orientation=orientation(case["rot"]),
    )
    hull.evaluate_hirarchy_and_reference_points()
    return hull, inner, outer


def gammas_of(inner, outer, position):
    return arr([obs.get_gamma(position, in_global_frame=True) for obs in [*inner, outer]])


def to_global(case, position):
    return rotation(case) @ arr(position) + arr(case["position"])


def rotation(case):
    value = orientation(case["rot"])
    if isinstance(value, float):
        c, s = math.cos(value), math.sin(value)
        return arr([[c, -s], [s, c]])
    return value.as_matrix()


@st.composite
def place(draw, dim):
    return {
        "kind": draw(st.sampled_from(["in", "in", "wall", "out", "any", "center"])),
        "index": draw(st.integers(0, 10)),
        "way": draw(nonzero_vec(dim, -1.0, 1.0, min_norm=0.1)),
        "level": draw(num(0.05, 1.5)),
        "near": draw(st.sampled_from([1e-4, 1e-3, 1e-5])),
        "free": draw(vec(dim, -6.0, 6.0)),
    }


def locate(item, inner, outer):
    """Position in the frame of the hull."""
    if item["kind"] == "any" or (item["kind"] in ("in", "center") and not inner):
        return arr(item["free"])
    if item["kind"] == "out":
        return at(outer, item["way"], 1.05 + 2 * item["level"])
    if item["kind"] == "wall":
        body = [*inner, outer][item["index"] % (len(inner) + 1)]
        return at(body, item["way"], 1 - item["near"] if body.is_boundary else 1 + item["near"])
    body = inner[item["index"] % len(inner)]
    return at(body, item["way"], 0.0 if item["kind"] == "center" else item["level"])


# --- Weights and connections -------------------------------------------------------------
@st.composite
def static_case(draw):
    case = draw(hull_case())
    dim = len(case["position"])
    case["places"] = [draw(place(dim)) for _ in range(3)]
    return case


def check_static(case):
    hull, inner, outer = build(case)
    dim = len(case["position"])
    tags = [""]
    require(hull.dimension == dim and hull.n_elements == len(inner) + 1, "Size of the hull")
    several = False
    for item in case["places"]:
        position = locate(item, inner, outer)
        gammas = gammas_of(inner, outer, position)
        discard_unless(np.min(np.abs(gammas - 1)) > 1e-7)
        hull._evaluate_weights(position)
        weights = arr(hull.weights)
        free = np.any(gammas > 1)
        require(weights.shape == (len(inner) + 1,) and np.all(weights >= 0), "Weights", got=weights)
        require(abs(np.sum(weights) - float(free)) < 1e-9, "Sum of the weights", got=weights, gammas=gammas)
        require(np.array_equal(weights > 0, gammas > 1), "Weight only in free space", got=weights, gammas=gammas)
        if free:
            want = np.maximum(gammas - 1, 0) / np.sum(np.maximum(gammas - 1, 0))
            require(close(weights, want, 1e-9), "Weights in proportion to the distance", got=weights, want=want)
        several = several or np.sum(gammas > 1) > 1
        require(bool(hull.is_inside(to_global(case, position))) == (not free), "Collision in the global frame", gammas=gammas)
        require(
            bool(hull.is_inside(position, in_global_frame=False)) == (not free),
            "Collision in the frame of the hull",
            gammas=gammas,
        )
        check_intersection_weights(hull, inner, outer, position, item)
    connected = check_graph(hull, inner, outer)
    return tags if several or connected else ["trivial"]


def check_graph(hull, inner, outer):
    graph = hull._graph
    entrances = [node for node in graph.nodes if isinstance(node, int)]
    require(sorted(entrances) == list(range(len(entrances))), "Entrances are counted", got=entrances)
    require(hull._entrance_counter == len(entrances), "Number of entrances")
    require(all(obs in graph.nodes for obs in inner), "Spaces are in the graph")
    with_entrance = []
    for node in entrances:
        require(len(graph.edges([node])) == 1, "An entrance leads to one space")
        ((_, obs, data),) = list(graph.edges([node], data=True))
        with_entrance.append(id(obs))
        point = data["intersection"]
        require(is_vector(point, hull.dimension), "Entrance is not a position", point=point)
        require(outer.get_gamma(point, in_global_frame=True) > 1, "Entrance is within the body", point=point)
        require(obs.get_gamma(point, in_global_frame=True) > 1, "Entrance is not in its space", point=point)
        require(
            abs(data["distance"] - np.linalg.norm(point - obs.center_position)) < 1e-9, "Distance to the entrance"
        )
    require(len(set(with_entrance)) == len(with_entrance), "Several entrances of a space")
    for obs in inner:
        level = outer.get_gamma(obs.center_position, in_global_frame=True)
        middle = 0.5 * (obs.center_position + outer.center_position)
        if level > 1.02 and obs.get_gamma(middle, in_global_frame=True) > 0.3:
            require(id(obs) in with_entrance, "Space with its center outside has no entrance", level=level)
    edges = 0
    for aa, bb in itertools.combinations(inner, 2):
        if graph.has_edge(aa, bb):
            edges += 1
            data = graph.edges[aa, bb]
            point = data["intersection"]
            require(is_vector(point, hull.dimension), "Connection is not a position", point=point)
            for obs in (aa, bb):
                require(obs.get_gamma(point, in_global_frame=True) > 1, "Connection is not in both spaces", point=point)
            way = sum(np.linalg.norm(point - obs.center_position) for obs in (aa, bb))
            require(abs(data["distance"] - way) < 1e-9, "Distance of the connection", got=data["distance"], want=way)
        else:
            middle = 0.5 * (aa.center_position + bb.center_position)
            levels = [obs.get_gamma(middle, in_global_frame=True) for obs in (aa, bb)]
            require(min(levels) < 1.3, "Overlapping spaces are not connected", levels=levels)
    require(len(graph.edges) == edges + len(entrances), "Unknown connections")
    return bool(edges or entrances)


def check_intersection_weights(hull, inner, outer, position, item):
    for obs in inner:
        weight = get_boundary_intersection_weight(position, obs, outer)
        require(0 <= weight <= 1 and math.isfinite(weight), "Weight of the intersection", got=weight)
        inside = obs.get_gamma(position, in_global_frame=True) > 1
        level = outer.get_gamma(position, in_global_frame=True)
        if not inside or level > 1:
            require(weight == 0, "Weight outside of the overlap", got=weight)
            continue
        surface = outer.get_point_on_surface(position, in_global_frame=True)
        projected = obs.get_gamma(surface, in_global_frame=True)
        want = 1.0 if projected <= 1 else projected ** (-1.5 * level)
        require(abs(weight - want) < 1e-9, "Weight decreases towards the entrance", got=weight, want=want)


# --- Motion ---------------------------------------------------------------------------------
@st.composite
def motion_case(draw):
    case = draw(hull_case())
    dim = len(case["position"])
    case["ops"] = [["attractor", draw(place(dim)), draw(st.booleans())]]
    for _ in range(draw(st.integers(1, 7))):
        if draw(st.integers(0, 4)) == 0:
            case["ops"].append(["attractor", draw(place(dim)), draw(st.booleans())])
        else:
            case["ops"].append(["evaluate", draw(place(dim)), draw(st.booleans())])
    return case


@st.composite
def tour_case(draw):
    """Chain (or tree) of overlapping spaces, visited with the attractor in several of them."""
    dim = draw(st.sampled_from([2, 2, 3]))
    count = draw(st.integers(2, 5))
    case = {
        "outer": draw(obstacle_case(dim, spread=1.0, min_axis=4.0, max_axis=12.0, shift=False)),
        "inner": [],
        "position": draw(vec(dim, -4.0, 4.0)),
        "rot": draw(angle()) if dim == 2 else draw(vec(3, -3.0, 3.0)),
        "ops": [],
    }
    for ii in range(count):
        item = draw(obstacle_case(dim, spread=1.0, min_axis=1.0, max_axis=3.0))
        item["parent"] = draw(st.sampled_from([ii - 1, ii - 1, ii // 2 - 1]))
        item["offset"] = draw(num(0.9, 1.2)) if item["parent"] >= 0 else draw(num(0.3, 1.1))
        item["way"] = draw(nonzero_vec(dim, -1.0, 1.0, min_norm=0.1))
        case["inner"].append(item)
    spot = {"kind": "in", "near": 1e-4, "free": [0.0] * dim}
    for _ in range(draw(st.integers(1, 3))):
        way, level = draw(nonzero_vec(dim, -1.0, 1.0, min_norm=0.1)), draw(num(0.05, 0.9))
        goal = draw(st.integers(-1, count - 1))
        new = dict(spot, index=max(goal, 0), way=way, level=level)
        if goal < 0:
            new["kind"] = "out"
        case["ops"].append(["attractor", new, draw(st.booleans())])
        for index in draw(st.permutations(list(range(-1, count)))):
            new = dict(spot, index=max(index, 0), way=way, level=draw(num(0.05, 0.9)))
            if index < 0:
                new["kind"] = "out"
            case["ops"].append(["evaluate", new, draw(st.booleans())])
    return case


class Model:
    """Routes by complete enumeration of the paths between the spaces."""

    def __init__(self, hull, inner, outer):
        self.inner, self.outer = inner, outer
        size = len(inner)
        self.edges = {}
        self.entrances = {}
        for ii, jj in itertools.combinations(range(size), 2):
            if hull._graph.has_edge(inner[ii], inner[jj]):
                data = hull._graph.edges[inner[ii], inner[jj]]
                self.edges[ii, jj] = self.edges[jj, ii] = data
        for node in hull._graph.nodes:
            if isinstance(node, int):
                ((_, obs, data),) = list(hull._graph.edges([node], data=True))
                self.entrances[[id(oo) for oo in inner].index(id(obs))] = data

    def set_attractor(self, position):
        self.attractor = position
        gammas = gammas_of(self.inner, self.outer, position)
        discard_unless(np.min(np.abs(gammas - 1)) > 1e-7)
        self.contains = gammas > 1
        if not np.any(self.contains):
            order = np.sort(gammas)
            discard_unless(len(order) < 2 or order[-1] - order[-2] > 1e-7)
            self.contains = gammas == np.max(gammas)
        self.outside = self.attractor if self.contains[-1] else None

    def routes(self, start, visited=()):
        """(length, second node) of all simple paths to a space with the attractor."""
        visited = (*visited, start)
        out = []
        if self.contains[start] and len(visited) > 1:
            out.append((0.0, None))
        if self.contains[-1] and start in self.entrances:
            data = self.entrances[start]
            out.append((data["distance"] + np.linalg.norm(data["intersection"] - self.attractor), "entrance"))
        for jj in range(len(self.inner)):
            if jj not in visited and (start, jj) in self.edges:
                rest = self.routes(jj, visited)
                out += [(self.edges[start, jj]["distance"] + length, jj) for length, _ in rest]
        return out

    def target(self, index):
        """Local attractor of a space (None if there is no route)."""
        if self.contains[index]:
            return self.attractor
        routes = self.routes(index)
        if not routes:
            return None
        best = min(routes, key=lambda item: item[0])
        discard_unless(all(item[1] == best[1] or item[0] > best[0] + 1e-6 for item in routes))
        data = self.entrances[index] if best[1] == "entrance" else self.edges[index, best[1]]
        return self.inner[index].get_point_on_surface(data["intersection"], in_global_frame=True)

    def target_outside(self, position):
        if self.outside is not None:
            return self.outside
        ways = []
        for index, data in self.entrances.items():
            lengths = [0.0] if self.contains[index] else []
            lengths += [item[0] for item in self.routes(index)]
            if lengths:
                length = np.linalg.norm(position - data["intersection"]) + data["distance"] + min(lengths)
                ways.append((length, index))
        if not ways:
            return None
        ways.sort()
        discard_unless(len(ways) < 2 or ways[1][0] > ways[0][0] + 1e-6)
        point = self.entrances[ways[0][1]]["intersection"]
        self.outside = self.outer.get_point_on_surface(point, in_global_frame=True)
        return self.outside


def angle_vector(direction, null):
    value = angle_between(direction, null)
    discard_unless(value < math.pi - 1e-3)
    rest = unit(direction) - np.dot(unit(direction), null) * null
    norm = np.linalg.norm(rest)
    return value * rest / norm if norm > 1e-12 else 0 * rest


def local_velocity(obs, gamma, target, position):
    linear = target - position
    distance = np.linalg.norm(linear)
    if distance < 1e-12:
        return 0 * linear
    discard_unless(distance > 1e-6)
    normal = obs.get_normal_direction(position, in_global_frame=True)
    null = unit(obs.get_reference_direction(position, in_global_frame=True))
    for delta in np.vstack((np.eye(len(null)), -np.eye(len(null)))) * 1e-7:
        # The normal jumps, e.g., at the diagonals of a box
        other = obs.get_normal_direction(position + delta, in_global_frame=True)
        discard_unless(np.linalg.norm(other - normal) < 1e-3)
    discard_unless(abs(np.dot(normal, null)) > 1e-3)
    tangent = linear - null * np.dot(normal, linear) / np.dot(normal, null)
    if gamma < 1e6:
        discard_unless(np.linalg.norm(tangent) > 1e-4 * distance)
    weight = 1 / gamma
    mean = (1 - weight) * angle_vector(linear, null)
    if np.linalg.norm(tangent) > 1e-9 * distance:
        mean = mean + weight * angle_vector(tangent, null)
    value = np.linalg.norm(mean)
    direction = math.cos(value) * null + (math.sin(value) * mean / value if value > 1e-12 else 0 * null)
    return direction * min(distance, 1.0)


def check_motion(case):
    hull, inner, outer = build(case)
    model = Model(hull, inner, outer)
    matrix = rotation(case)
    tags = set()
    for name, item, in_global in case["ops"]:
        position = locate(item, inner, outer)
        if name == "attractor":
            model.set_attractor(position)
            if in_global:
                hull.set_attractor(to_global(case, position), in_global_frame=True)
            else:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    hull.set_attractor(position.copy())
            got = hull.get_attractor()
            require(close(got, position, 1e-9), "Attractor", got=got, want=position)
            continue
        gammas = gammas_of(inner, outer, position)
        discard_unless(np.min(np.abs(gammas - 1)) > 1e-7)
        discard_unless(np.sum(gammas > 1e6) < 2)  # Center of several spaces
        free = np.flatnonzero(gammas > 1)
        targets = {}
        for ii in free[free < len(inner)]:
            targets[ii] = model.target(ii)
        if any(value is None for value in targets.values()):
            continue  # There is no way to the attractor
        if len(inner) in free:
            targets[len(inner)] = model.target_outside(position)
            if targets[len(inner)] is None:
                continue
        velocities, weights = [], []
        for ii in free:
            obs = outer if ii == len(inner) else inner[ii]
            try:
                velocities.append(local_velocity(obs, gammas[ii], targets[ii], position))
            except Discard:
                velocities.append(None)
            weights.append(gammas[ii] - 1)
            if not close(targets[ii], model.attractor, 0):
                tags.add("route")
        argument = to_global(case, position) if in_global else position.copy()
        copied = argument.copy()
        got = hull.evaluate(argument, in_global_frame=in_global)
        require(np.array_equal(argument, copied), "Input modified")
        require(is_vector(got, hull.dimension), "Velocity", got=got, gammas=gammas)
        if in_global:
            got = matrix.T @ got
        if not len(free):
            require(not np.any(got), "Velocity within the wall", got=got)
            continue
        if any(value is None for value in velocities):
            continue  # The direction is ambiguous
        weights = arr(weights) / np.sum(weights)
        speed = sum(ww * np.linalg.norm(vv) for ww, vv in zip(weights, velocities))
        require(abs(np.linalg.norm(got) - speed) < 1e-6, "Speed", got=np.linalg.norm(got), want=speed)
        mean = sum(ww * vv for ww, vv in zip(weights, velocities))
        if np.linalg.norm(mean) > 1e-3:
            want = unit(mean) * speed
            require(close(got, want, 1e-4), "Velocity", got=got, want=want, gammas=gammas, targets=targets)
        if len(free) == 1 and gammas[free[0]] < 1.002:
            obs = outer if free[0] == len(inner) else inner[free[0]]
            normal = obs.get_normal_direction(position, in_global_frame=True)
            into = -np.dot(normal, got)
            require(into <= 5 * (gammas[free[0]] - 1) + 1e-6, "Velocity into the wall", into=into)
            tags.add("wall")
        if len(free) > 1:
            tags.add("several")
    return sorted(tags) if tags else ["trivial"]


# --- Container --------------------------------------------------------------------------------
@st.composite
def container_case(draw):
    hulls = [draw(hull_case(max_inner=2)) for _ in range(draw(st.integers(1, 3)))]
    dim = len(hulls[0]["position"])
    hulls = [hull for hull in hulls if len(hull["position"]) == dim]
    return {
        "hulls": hulls,
        "late": draw(st.integers(0, len(hulls))),
        "attractors": [draw(vec(dim, -6.0, 6.0)) for _ in range(draw(st.integers(1, 3)))],
        "again": draw(st.booleans()),
        "position": draw(vec(dim, -6.0, 6.0)),
        "u_shape": [draw(num(2.0, 6.0)), draw(num(1.0, 4.0)), draw(num(0.05, 0.3))],
    }


def check_container(case):
    position = arr(case["position"])
    container = MultiRotationalContainer()
    built = [build(item)[0] for item in case["hulls"]]
    early = len(built) - case["late"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for hull in built[:early]:
            container.append(hull)
        for attractor in case["attractors"][: 1 if case["late"] else None]:
            container.set_dynamics(LinearSystem(attractor_position=arr(attractor)))
        for hull in built[early:]:
            container.append(hull)
        if case["late"]:
            for attractor in case["attractors"]:
                container.set_dynamics(LinearSystem(attractor_position=arr(attractor)))
        if case["again"]:
            container.set_dynamics(LinearSystem(attractor_position=arr(case["attractors"][-1])))
        expected = []
        for item in case["hulls"]:
            hull, inner, outer = build(item)
            gammas = gammas_of(inner, outer, rotation(item).T @ (position - arr(item["position"])))
            discard_unless(np.sum(gammas > 1e6) < 2 and np.min(np.abs(gammas - 1)) > 1e-7)
            hull.set_attractor(arr(case["attractors"][-1]), in_global_frame=True)
            try:
                expected.append(hull.evaluate(position.copy()))
            except (KeyError, ValueError):
                discard_unless(False)  # No way to the attractor
    got = container.evaluate(position.copy())
    want = np.mean(expected, axis=0)
    require(is_vector(got, len(position)), "Velocity of the container", got=got)
    require(close(got, want, 1e-7), "Mean of the velocities", got=got, want=want)
    # Object factory
    length, height, ratio = case["u_shape"]
    wall = ratio * min(length, height)
    shape = create_u_shape_obstacle(length, height, wall)
    for xx, yy in itertools.product(np.linspace(-0.6, 0.6, 7) * length, np.linspace(-0.6, 0.6, 7) * height):
        inside = abs(xx) < length / 2 and abs(yy) < height / 2
        free = abs(xx) < length / 2 - wall and yy > wall - height / 2
        edges = [abs(xx) - length / 2, abs(yy) - height / 2, abs(xx) - length / 2 + wall, yy - wall + height / 2]
        if min(abs(edge) for edge in edges) > 1e-6:
            got = bool(shape.is_inside(arr([xx, yy])))
            require(got == (inside and not free), "U-shape", position=[xx, yy], got=got)
    shape.evaluate_hirarchy_and_reference_points()
    require(shape._entrance_counter == 1, "U-shape has one entrance", got=shape._entrance_counter)
    return ["late" if case["late"] else ""]


SUBS = [
    Sub("static", static_case(), check_static, quick=1200, shards=3),
    Sub("motion", motion_case(), check_motion, quick=1500, shards=4),
    Sub("tour", tour_case(), check_motion, quick=400, shards=2),
    Sub("container", container_case(), check_container, quick=300),
]
