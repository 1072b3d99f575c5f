"""C12: avoidance of multi-body obstacles never enters them."""
import math

import numpy as np

from lib.gen import angle, count, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, is_vector, unit
from lib.scene import LinearSystem, Pose, build_tree, direction2, surface_point, tree_case
from lib.scene import gamma as body_gamma, normal

from nonlinear_avoidance.dynamics import SimpleCircularDynamics, WavyLinearDynamics
from nonlinear_avoidance.dynamics.constant_value import ConstantValueWithSequence
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer

PROPERTY = "C12"
RULE = (
    "One to three trees of up to four overlapping ellipses / boxes, attractor outside of "
    "all bodies, position just outside the surface of a body (1e-9 to 1e-6) which no other body "
    "covers, or inside of a single body. Linear, wavy, circular and constant initial dynamics. "
    "Non-trivial: the initial velocity points into the body."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]


@st.composite
def scene_case(draw, n_trees=3, n_max=4):
    return {
        "trees": [draw(tree_case(n_max, spread=4.0)) for _ in range(draw(count(1, n_trees, n_trees + 1)))],
        "component": draw(st.integers(0, n_max - 1)),
        "phi": draw(angle()),
        "offset": draw(st.sampled_from([1e-9, 1e-7, 1e-6])),
        "fraction": draw(num(0.05, 0.98)),
        "attractor": draw(vec(2, -8.0, 8.0)),
        "speed": draw(st.sampled_from([0.5, 1.0, 2.0])),
        "dynamics": draw(st.sampled_from(["linear", "wavy", "circular", "constant"])),
        "heading": draw(angle()),
        "radius": draw(num(0.3, 4.0)),
        "convergence": draw(
            st.one_of(st.just(math.pi / 2), num(math.pi / 2, math.pi))
        ),
    }


def make_dynamics(case, pose_map=None):
    """Initial dynamics, and the linear one they refer to."""
    attractor, heading = arr(case["attractor"]), case["heading"]
    if pose_map is not None:
        attractor = pose_map[0] @ attractor + pose_map[1]
        heading = heading + math.atan2(pose_map[0][1, 0], pose_map[0][0, 0])
    linear = LinearSystem(attractor_position=attractor, maximum_velocity=case["speed"])
    if case["dynamics"] == "linear":
        return linear, linear
    if case["dynamics"] == "wavy":
        return WavyLinearDynamics(attractor_position=attractor), linear
    if case["dynamics"] == "circular":
        pose = Pose(attractor, 0.0)
        return SimpleCircularDynamics(pose=pose, radius=case["radius"]), linear
    constant = ConstantValueWithSequence(direction2(heading) * case["speed"])
    return constant, constant


def make_avoider(case, trees, dynamics, reference, **kwargs):
    container = MultiObstacleContainer()
    for tree in trees:
        container.append(tree)
    return MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=container,
        initial_dynamics=dynamics,
        reference_dynamics=reference,
        convergence_radius=case["convergence"],
        **kwargs,
    )


def attractor_outside(case, trees, margin=1.1):
    point = arr(case["attractor"])
    discard_unless(min(tree.get_gamma(point) for tree in trees) > margin)


def other_gammas(trees, position, skip):
    return [
        body.get_gamma(position, in_global_frame=True)
        for ii, tree in enumerate(trees)
        for jj, body in enumerate(tree)
        if (ii, jj) != skip
    ]


def at_corner(body, position, margin=1e-3):
    """The normal of a box jumps at its corners."""
    if not hasattr(body, "semiaxes") or body.__class__.__name__ != "CuboidXd":
        return False
    local = body.pose.transform_position_to_relative(position)
    return bool(np.all(np.abs(local) > body.semiaxes - margin))


def at_saddle(avoider, trees, position):
    """Heading exactly for (or away from) the reference point of a root.

    Neither side is preferred, respectively the body has no influence.
    """
    direction = avoider.compute_convergence_direction(np.copy(position))
    angles = [
        angle_between(
            direction, tree.get_root().get_reference_direction(position, in_global_frame=True)
        )
        for tree in trees
    ]
    return min(angles) < 1e-3 or max(angles) > math.pi - 1e-3


def check_surface(case):
    trees = [build_tree(item) for item in case["trees"]]
    index = case["component"] % len(trees[0])
    body = trees[0].get_component(index)
    position = surface_point(body, direction2(case["phi"]), case["offset"])
    discard_unless(min(other_gammas(trees, position, (0, index)), default=9.0) > 1.02)
    attractor_outside(case, trees)
    discard_unless(np.linalg.norm(position - arr(case["attractor"])) > 0.1)
    dynamics, reference = make_dynamics(case)
    avoider = make_avoider(case, trees, dynamics, reference)
    discard_unless(not at_corner(body, position))
    discard_unless(not at_saddle(avoider, trees, position))
    velocity = avoider.evaluate(np.copy(position))
    initial = dynamics.evaluate(position)
    require(is_vector(velocity, 2), "Velocity not finite", velocity=velocity)
    speed = np.linalg.norm(initial)
    outwards = normal(body, position)
    require(
        velocity @ outwards >= -1e-4 * max(speed, 1e-3),
        "Velocity enters the body",
        velocity=velocity,
        normal=outwards,
    )
    require(
        np.linalg.norm(velocity) <= speed * (1 + 1e-6),
        "Faster than the initial velocity",
        velocity=velocity,
        initial=initial,
    )
    return [
        "" if initial @ outwards < -1e-3 else "trivial",
        case["dynamics"],
        f"trees{len(trees)}",
        "root" if index == 0 else "child",
    ]


def check_inside(case):
    tree = build_tree(dict(case["trees"][0], components=case["trees"][0]["components"][:1]))
    trees = [tree] + [build_tree(item) for item in case["trees"][1:]]
    body = tree.get_root()
    edge = body.get_point_on_surface(direction2(case["phi"]), in_global_frame=False)
    position = body.pose.transform_position_from_relative(edge * case["fraction"])
    discard_unless(min(other_gammas(trees, position, (0, 0)), default=9.0) > 1.02)
    discard_unless(not at_corner(body, body.pose.transform_position_from_relative(edge)))
    attractor_outside(case, trees)
    dynamics, reference = make_dynamics(case)
    velocity = make_avoider(case, trees, dynamics, reference).evaluate(position)
    require(is_vector(velocity, 2), "Velocity not finite", velocity=velocity)
    speed = np.linalg.norm(dynamics.evaluate(position))
    outwards = normal(body, body.pose.transform_position_from_relative(edge * (1 + 1e-9)))
    require(
        velocity @ outwards >= -1e-4 * max(speed, 1e-3),
        "Velocity leads further into the body",
        velocity=velocity,
        normal=outwards,
    )
    require(np.linalg.norm(velocity) <= speed * (1 + 1e-6), "Faster than initially")
    return ["inside", case["dynamics"]]


def part_gammas(trees, position):
    return [body_gamma(body, position) for tree in trees for body in tree]


def check_corner(case):
    """Listed finding: the directions around two bodies oppose in the corner between them."""
    return check_trajectory(case, everywhere=True)


def check_trajectory(case, everywhere=False):
    """Motion with small steps: no body is ever entered by more than a step."""
    trees = [build_tree(item) for item in case["trees"]]
    index = case["component"] % len(trees[0])
    body = trees[0].get_component(index)
    position = surface_point(body, direction2(case["phi"]), 0.15)
    discard_unless(min(tree.get_gamma(position) for tree in trees) > 1.1)
    # Attractor on the far side of the body
    away = unit(body.center_position - position)
    side = np.array([-away[1], away[0]])
    distance = body.get_maximal_distance() + 1 + abs(case["attractor"][0])
    case["attractor"] = list(
        body.center_position + away * distance + side * 0.2 * case["attractor"][1]
    )
    case["heading"] = math.atan2(away[1], away[0]) + 0.3 * case["heading"]
    attractor_outside(case, trees)
    dynamics, reference = make_dynamics(case)
    avoider = make_avoider(case, trees, dynamics, reference)
    closest, step = 9.0, 0.02
    for _ in range(60):
        velocity = avoider.evaluate(position)
        require(is_vector(velocity, 2), "Velocity not finite", velocity=velocity)
        speed = np.linalg.norm(velocity)
        if speed < 1e-6:
            break
        position = position + velocity * min(0.1, step / speed)
        gammas = sorted(tree.get_gamma(position) for tree in trees)
        if len(gammas) > 1 and gammas[1] < 1.3:
            break  # Narrow passage or overlapping trees: the motion may get stuck
        gamma = gammas[0]
        closest = min(closest, gamma)
        if gamma <= 1 and not everywhere and sum(level <= 1 for level in part_gammas(trees, position)) > 1:
            break  # Corner between two bodies: see the listed finding
        require(gamma > 1 - 5 * step, "Trajectory enters the body", gamma=gamma)
    return ["" if closest < 1.1 else "trivial", case["dynamics"]]


SUBS = [
    Sub("surface", scene_case(), check_surface, quick=2400, shards=5, thorough=60000),
    Sub("inside", scene_case(2, 2), check_inside, quick=600, shards=2, thorough=20000),
    Sub("trajectory", scene_case(2, 3), check_trajectory, quick=60, shards=4, thorough=3000, cpu_limit=120),
]

# Not part of the search: replays of the listed findings
FINDINGS = [Sub("corner", scene_case(2, 3), check_corner, quick=0)]
