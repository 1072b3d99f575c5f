"""C20: geometry and weight helpers."""
import math

import numpy as np

from lib.gen import angle, count, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import arr, close, random_rotation, rot2, unit
from lib.scene import build_obstacle, direction2, obstacle_case

from vartools.math import CircleIntersectionType
from dynamic_obstacle_avoidance.obstacles import CuboidXd as Cuboid
from dynamic_obstacle_avoidance.obstacles import Ellipse, EllipseWithAxes

from nonlinear_avoidance.geometry import create_shapely_ellipse, get_intersection_of_obstacles
from nonlinear_avoidance.multi_ellipse_obstacle import get_intersection_with_ellipse
from nonlinear_avoidance.multi_obstacle_avoider import (
    MultiObstacleAvoider,
    compute_gamma_weights,
    get_limited_weights_to_max_sum,
)
from nonlinear_avoidance.utils import (
    gamma_normal_gradient_descent,
    get_orthonormal_spanning_basis,
    project_point_onto_ray,
)

PROPERTY = "C20"
RULE = (
    "Points, rays and pairs of unit vectors in two to four dimensions (aligned, opposite, "
    "degenerate ones included); pairs of ellipses / boxes with margins; lists of "
    "distances and weights with ties and zeros. Non-trivial: see the label of each sub-check."
)
ASSUMPTIONS = ["Gamma of a single ellipse or box is given by the stand-in library."]


@st.composite
def ray_case(draw):
    dim = draw(st.integers(2, 4))
    return {
        "start": draw(vec(dim)),
        "delta": draw(st.one_of(vec(dim), vec(dim), st.just([0.0] * dim))),
        "point": draw(vec(dim)),
        "others": [draw(st.one_of(num(0.0, 3.0), num(0.0, 0.2))) for _ in range(4)],
    }


def check_ray(case):
    start, delta, point = arr(case["start"]), arr(case["delta"]), arr(case["point"])
    ray = np.vstack((start, start + delta)).T
    ray_before, point_before = ray.copy(), point.copy()
    result = np.array(project_point_onto_ray(point, ray))
    require(close(ray, ray_before, 0) and close(point, point_before, 0), "Input modified")
    require(result.shape == start.shape, "Shape", got=result.shape)
    length = np.linalg.norm(ray[:, 1] - ray[:, 0])
    if not length:
        require(close(result, start, 0), "Ray of a single point", got=result)
        return ["trivial"]
    discard_unless(length > 1e-3)
    # On the ray
    along = np.dot(result - start, delta) / length**2
    require(along > -1e-9, "Behind the start of the ray", along=along)
    require(close(result, start + along * delta, 1e-7), "Not on the ray", got=result)
    # Nearest one
    dist = np.linalg.norm(result - point)
    for other in [0.0, along + 0.01, max(along - 0.01, 0)] + case["others"]:
        require(
            np.linalg.norm(start + other * delta - point) > dist - 1e-9,
            "Another point of the ray is closer",
            other=other,
        )
    again = project_point_onto_ray(result, ray)
    require(close(again, result, 1e-7), "Not idempotent")
    return ["" if along > 0 else "start", "" if dist > 1e-3 else "trivial"]


def axis_vector(dim):
    return st.tuples(st.integers(0, dim - 1), st.sampled_from([1.0, -1.0])).map(
        lambda pair: [pair[1] if ii == pair[0] else 0.0 for ii in range(dim)]
    )


@st.composite
def basis_case(draw):
    dim = draw(st.integers(2, 4))
    return {
        "a": draw(st.one_of(nonzero_vec(dim), axis_vector(dim))),
        "b": draw(st.one_of(nonzero_vec(dim), axis_vector(dim))),
        "kind": draw(st.sampled_from(["any", "any", "same", "opposite"])),
    }


def check_basis(case):
    a = unit(case["a"])
    b = {"any": unit(case["b"]), "same": a.copy(), "opposite": -a}[case["kind"]]
    perp = np.linalg.norm(b - a * np.dot(a, b))
    discard_unless(case["kind"] != "any" or perp > 1e-5)
    a_before, b_before = a.copy(), b.copy()
    basis = get_orthonormal_spanning_basis(a, b)
    require(close(a, a_before, 0) and close(b, b_before, 0), "Input modified")
    require(basis.shape == (a.shape[0], 2), "Shape", got=basis.shape)
    require(close(basis[:, 0], a, 1e-9), "First vector of the basis")
    require(close(basis.T @ basis, np.eye(2), 1e-6), "Not orthonormal", got=basis.T @ basis)
    rest = b - basis @ (basis.T @ b)
    require(np.linalg.norm(rest) < 1e-6, "Does not span both vectors", rest=rest)
    require(np.dot(basis[:, 1], b) > -1e-9, "Points away from the second vector")
    return ["" if case["kind"] == "any" else "trivial"]


@st.composite
def body_case(draw):
    return {
        "kind": draw(st.sampled_from(["radii", "axes", "axes", "box", "box"])),
        "center": draw(vec(2, -3.0, 3.0)),
        "axes": draw(vec(2, 0.4, 3.0)),
        "rot": draw(angle()),
        "margin": draw(st.one_of(st.just(0.0), num(0.0, 1.0))),
    }


def build_body(case, shift=np.zeros(2), turn=0.0):
    kind = {"radii": Ellipse, "axes": EllipseWithAxes, "box": Cuboid}[case["kind"]]
    return kind(
        center_position=rot2(turn) @ arr(case["center"]) + shift,
        axes_length=arr(case["axes"]),
        orientation=case["rot"] + turn,
        margin_absolut=case["margin"],
    )


def pair_case():
    return st.fixed_dictionaries(
        {
            "a": body_case(),
            "b": body_case(),
            "place": st.sampled_from(["free", "edge", "inside"]),
            "turn": angle(),
            "shift": vec(2, -4.0, 4.0),
            "along": num(-1.0, 1.0),
        }
    )


def outline(body, inwards=1.0, n_points=240):
    """Points on the outline, scaled towards the center."""
    points = []
    for phi in np.linspace(-math.pi, math.pi, n_points, endpoint=False):
        local = body.get_point_on_surface(direction2(phi), in_global_frame=False)
        points.append(body.pose.transform_position_from_relative(local * inwards))
    return points


def gamma(body, position):
    return body.get_gamma(position, in_global_frame=True)


def check_pair(case):
    a, b = dict(case["a"]), dict(case["b"])
    if case["place"] == "edge":
        # Two upright boxes side by side
        for item in (a, b):
            item.update(kind="box", rot=0.0, margin=0.0)
        b["center"] = [
            a["center"][0] + (a["axes"][0] + b["axes"][0]) / 2,
            a["center"][1] + case["along"] * (a["axes"][1] + b["axes"][1]) * 0.45,
        ]
        case = dict(case, turn=0.0, shift=[0.0, 0.0])
    elif case["place"] == "inside":
        b["center"] = list(arr(a["center"]) + 0.2 * case["along"] * min(a["axes"]) * direction2(b["rot"]))
    bodies = [build_body(item, arr(case["shift"]), case["turn"]) for item in (a, b)]
    places = [body.center_position.copy() for body in bodies]
    point = get_intersection_of_obstacles(*bodies)
    for body, place in zip(bodies, places):
        require(close(body.center_position, place, 0), "Body moved")
    if case["place"] == "edge":
        if point is not None:
            require(
                all(gamma(body, point) < 1 + 1e-6 for body in bodies),
                "Touching bodies: point is not shared",
                point=point,
            )
        return ["touching"]
    lowest = min(
        [gamma(bodies[1], x) for s in (0.98, 0.5, 0.0) for x in outline(bodies[0], s, 90)]
        + [gamma(bodies[0], x) for s in (0.98, 0.5, 0.0) for x in outline(bodies[1], s, 90)]
    )
    closest = min(
        [gamma(bodies[1], x) for x in outline(bodies[0], 1.02)]
        + [gamma(bodies[0], x) for x in outline(bodies[1], 1.02)]
    )
    if lowest < 0.98:
        require(point is not None, "No intersection of overlapping bodies", lowest=lowest)
        require(
            all(gamma(body, point) < 1 for body in bodies),
            "Point is not inside of both bodies",
            point=point,
            gammas=[gamma(body, point) for body in bodies],
        )
        other = get_intersection_of_obstacles(*bodies[::-1])
        require(
            other is not None and all(gamma(body, other) < 1 for body in bodies),
            "Point (exchanged bodies) is not inside of both bodies",
        )
        return ["overlap"]
    if closest > 1.02:
        require(point is None, "Intersection of separate bodies", point=point)
        return ["trivial", "separate"]
    return ["trivial"]


@st.composite
def shape_case(draw):
    return {"body": draw(body_case().filter(lambda x: x["kind"] != "box")), "phi": draw(angle()), "share": draw(num(0.0, 2.0))}


def check_shape(case):
    from shapely.geometry import Point

    body = build_body(case["body"])
    shape = create_shapely_ellipse(body)
    semi = arr(case["body"]["axes"]) * (1.0 if case["body"]["kind"] == "radii" else 0.5)
    semi = semi + case["body"]["margin"]
    area = math.pi * semi[0] * semi[1]
    require(0.98 * area < shape.area <= area * (1 + 1e-9), "Area of the shape", got=shape.area, want=area)
    local = semi * direction2(case["phi"]) * case["share"]
    position = rot2(case["body"]["rot"]) @ local + arr(case["body"]["center"])
    if case["share"] < 0.98:
        require(shape.contains(Point(position)), "Inner point is outside", position=position)
    elif case["share"] > 1.001:
        require(not shape.contains(Point(position)), "Outer point is inside", position=position)
    return ["" if semi[0] != semi[1] else "trivial"]


@st.composite
def line_case(draw):
    dim = draw(st.integers(2, 3))
    return {
        "body": dict(draw(obstacle_case(dim, shift=False)), kind="ellipse"),
        "start": draw(vec(dim, -5.0, 5.0)),
        "direction": draw(nonzero_vec(dim, -2.0, 2.0)),
        "kind": draw(st.sampled_from(["CLOSE", "FAR"])),
        "aim": draw(st.booleans()),
        "target": draw(vec(dim, -0.3, 0.3)),
    }


def check_line(case):
    body = build_obstacle(case["body"])
    start, direction = arr(case["start"]), arr(case["direction"])
    axes = arr(case["body"]["axes"])
    if case["aim"]:
        direction = arr(case["target"]) * axes - start
        discard_unless(np.linalg.norm(direction) > 1e-2)
    kind = CircleIntersectionType[case["kind"]]
    before = start.copy(), direction.copy()
    local = get_intersection_with_ellipse(start, direction, body, intersection_type=kind)
    to_global = body.pose.transform_position_from_relative
    world = get_intersection_with_ellipse(
        to_global(start),
        body.pose.transform_direction_from_relative(direction),
        body,
        in_global_frame=True,
        intersection_type=kind,
    )
    require(close(start, before[0], 0) and close(direction, before[1], 0), "Input modified")
    # Quadratic equation of the stretched line
    pp, dd = start / axes * 2, direction / axes * 2
    shift = np.dot(pp, dd) / np.dot(dd, dd)
    height = np.linalg.norm(pp - shift * dd)
    discard_unless(abs(height - 1) > 1e-5)
    if height > 1:
        require(local is None and world is None, "Intersection of a line which misses", got=local)
        return ["trivial", "miss"]
    require(local is not None and world is not None, "No intersection of a line which hits")
    half = math.sqrt(1 - height**2) / np.linalg.norm(dd)
    want = start + (-shift + (half if case["kind"] == "FAR" else -half)) * direction
    require(close(local, want, 1e-5), "Wrong intersection", got=local, want=want)
    require(close(world, to_global(want), 1e-5), "Wrong intersection (global)", got=world)
    return [case["kind"]]


@st.composite
def circles_case(draw):
    dim = draw(st.integers(2, 3))
    return {
        "center": draw(vec(dim, -3.0, 3.0)),
        "radii": draw(vec(2, 0.5, 2.0)),
        "direction": draw(nonzero_vec(dim)),
        "depth": draw(num(0.3, 0.8)),
        "shift": draw(vec(dim, -3.0, 3.0)),
        "turn": draw(st.lists(angle(), min_size=3, max_size=3)),
        "powers": draw(st.lists(st.sampled_from([1, 2, 3]), min_size=2, max_size=2)),
    }


def check_circles(case):
    r1, r2 = case["radii"]
    center, direction = arr(case["center"]), unit(case["direction"])
    dim = len(center)
    distance = (r1 + r2) * (1 - case["depth"])
    matrix, shift = random_rotation(dim, case["turn"]), arr(case["shift"])

    def run(move):
        places = [move(center), move(center + distance * direction)]
        bodies = [
            EllipseWithAxes(center_position=place, axes_length=np.ones(dim) * 2 * radius)
            for place, radius in zip(places, (r1, r2))
        ]
        before = [body.center_position.copy() for body in bodies]
        powers = case["powers"]
        point = gamma_normal_gradient_descent(bodies, factors=[-1, -1], powers=powers)
        other = gamma_normal_gradient_descent(bodies[::-1], factors=[-1, -1], powers=powers[::-1])
        require(close(point, other, 1e-9), "Depends on the order of the bodies")
        if powers == [2, 2]:
            other = gamma_normal_gradient_descent(bodies, factors=[-1, -1])
            require(close(point, other, 1e-9), "Default powers")
        require(all(close(x, body.center_position, 0) for x, body in zip(before, bodies)), "Body moved")
        for place, radius in zip(places, (r1, r2)):
            require(np.linalg.norm(point - place) < radius, "Not in the intersection", point=point)
        return point

    first = run(lambda x: x)
    second = run(lambda x: matrix @ x + shift)
    require(close(matrix @ first + shift, second, 1e-6), "Depends on the frame")
    return ["" if abs(r1 - r2) > 0.1 else "trivial"]


@st.composite
def weights_case(draw):
    n_items = draw(count(1, 6, 10))
    value = st.one_of(num(0.0, 8.0), num(0.9, 1.3), st.sampled_from([0.5, 1.0, 1.5, 3.0]))
    share = st.one_of(num(0.0, 1.0), num(0.0, 0.2), st.sampled_from([0.0, 1.0, 0.5]))
    return {
        "distances": [draw(value) for _ in range(n_items)],
        "shares": [draw(share) for _ in range(n_items)],
        "minimum": draw(st.sampled_from([1.0, 1.0, 0.0, 0.5])),
        "power": draw(st.sampled_from([1, 2, 0.5])),
        "order": draw(st.permutations(range(n_items))),
        "normalize": draw(st.booleans()),
    }


def distance_model(distances, minimum, power, limit=True):
    critical = [d <= minimum for d in distances]
    if any(critical):
        return arr([float(c) / sum(critical) for c in critical])
    values = arr([(1.0 / (d - minimum)) ** power for d in distances])
    total = sum(values)
    return values / total if total > 1 and limit else values


def check_weights(case):
    distances, minimum, power = arr(case["distances"]), case["minimum"], case["power"]
    discard_unless(all(d <= minimum or d - minimum > 1e-6 for d in distances))
    order = list(case["order"])
    before = distances.copy()
    got = compute_gamma_weights(distances, min_distance=minimum, power_factor=power)
    want = distance_model(distances, minimum, power)
    require(close(got, want, 1e-9), "Weights of the distances", got=got, want=want)
    turned = compute_gamma_weights(distances[order], min_distance=minimum, power_factor=power)
    require(close(turned, np.asarray(got)[order], 1e-9), "Weights depend on the order")
    got = compute_gamma_weights(list(distances), minimum, power)
    require(close(got, want, 1e-9), "Weights of a list")

    normalize = case["normalize"]
    got = MultiObstacleAvoider.compute_weights_from_distances(
        distances, distance_min=minimum, normalize=normalize
    )
    want = distance_model(distances, minimum, 1, limit=normalize)
    require(close(got, want, 1e-6 * max(1, max(want))), "Weights from distances", got=got, want=want)
    require(close(distances, before, 0), "Input modified")

    shares = arr(case["shares"])
    before = shares.copy()
    got, total = get_limited_weights_to_max_sum(shares)
    got = np.asarray(got)
    require(close(shares, before, 0), "Input modified (limited weights)")
    require(got.shape == shares.shape and np.all(got >= -1e-12), "Limited weights", got=got)
    turned, total2 = get_limited_weights_to_max_sum(list(shares[order]))
    require(close(turned, got[order], 1e-9) and abs(total - total2) < 1e-9, "Limited weights depend on the order")
    plain = sum(shares)
    if plain < 1 - 1e-9:
        require(close(got, shares, 1e-12) and abs(total - plain) < 1e-9, "Weights below the limit are changed")
    elif plain > 1 + 1e-9:
        require(abs(sum(got) - 1) < 1e-9 and abs(total - 1) < 1e-9, "Sum of the limited weights", got=got)
        full = shares >= 1
        if any(full):
            require(close(got, full / sum(full), 1e-9), "Full weights come first", got=got)
        for ii in range(len(shares)):
            require(shares[ii] > 0 or not got[ii], "Vanishing weight becomes active")
            for jj in range(len(shares)):
                require(shares[ii] < shares[jj] + 1e-12 or got[ii] > got[jj] - 1e-9, "Order of the weights")
    return ["" if len(distances) > 1 else "trivial"]


SUBS = [
    Sub("ray", ray_case(), check_ray, quick=1500, thorough=40000),
    Sub("basis", basis_case(), check_basis, quick=1500, thorough=40000),
    Sub("pair", pair_case(), check_pair, quick=300, shards=2, thorough=6000),
    Sub("shape", shape_case(), check_shape, quick=600, thorough=10000),
    Sub("line", line_case(), check_line, quick=1200, thorough=40000),
    Sub("circles", circles_case(), check_circles, quick=300, thorough=8000),
    Sub("weights", weights_case(), check_weights, quick=1500, thorough=40000),
]
