"""C13: multi-body avoidance: frame, units, order, far away, attractor, moving bodies."""
import math

import numpy as np

from checks.c12 import (
    at_corner,
    at_saddle,
    attractor_outside,
    make_avoider,
    make_dynamics,
    scene_case,
)
from lib.gen import angle, num, vec, st
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, random_rotation, unit
from lib.scene import LinearSystem, build_tree, direction2, surface_point

from vartools.states import Twist

from nonlinear_avoidance.multi_obstacle_avoider import (
    MultiObstacleAvoider,
    compute_multiobstacle_relative_velocity,
)
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer

PROPERTY = "C13"
RULE = (
    "One to three trees of up to four overlapping ellipses / boxes, attractor and position "
    "outside of all bodies; linear, wavy, circular and constant initial dynamics; random rigid "
    "motion, permutation of the trees and speed factor; constant twists of the trees. Positions "
    "exactly opposite of the attractor or heading exactly for a reference point are discarded. "
    "Non-trivial: the avoidance changes the velocity by more than 1e-3."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]


@st.composite
def relation_case(draw):
    case = draw(scene_case())
    n_trees = len(case["trees"])
    for tree in case["trees"]:
        for item in tree["components"]:
            # The numerical intersection of two bodies depends on the frame
            item["explicit"] = True
    case.update(
        distance=draw(st.one_of(num(0.01, 0.5), num(0.01, 4.0))),
        turn=draw(angle()),
        shift=draw(vec(2, -5.0, 5.0)),
        factor=draw(num(0.1, 8.0)),
        order=draw(st.permutations(range(n_trees))),
        twists=[
            {"linear": draw(vec(2, -1.0, 1.0)), "angular": draw(num(-1.0, 1.0))}
            for _ in range(n_trees)
        ],
    )
    return case


def _setup(case, pose_map=None, order=None, factor=1.0, twists=False):
    trees = [build_tree(item, pose_map=pose_map) for item in case["trees"]]
    if twists:
        for tree, twist in zip(trees, case["twists"]):
            linear = arr(twist["linear"])
            if pose_map is not None:
                linear = pose_map[0] @ linear
            tree.twist = Twist(linear=factor * linear, angular=factor * twist["angular"])
    if order is not None:
        trees = [trees[ii] for ii in order]
    dynamics, reference = make_dynamics(case, pose_map=pose_map)
    return trees, dynamics, make_avoider(case, trees, dynamics, reference)


def _position(case, trees):
    index = case["component"] % len(trees[0])
    body = trees[0].get_component(index)
    position = surface_point(body, direction2(case["phi"]), case["distance"])
    discard_unless(min(tree.get_gamma(position) for tree in trees) > 1.005)
    attractor_outside(case, trees)
    return position


def _regular(case, trees, avoider, position):
    """No direction is exactly opposite to another one which it is turned to."""
    discard_unless(not at_saddle(avoider, trees, position))
    for tree in trees:
        # Direction from the reference point of a body to the one of its parent
        points = [body.get_reference_point(in_global_frame=True) for body in tree]
        for ii in range(1, len(points)):
            parent = points[tree.get_parent_idx(ii)]
            discard_unless(np.linalg.norm(points[ii] - parent) > 1e-3)
    if case["dynamics"] == "constant":
        return
    attractor = arr(case["attractor"])
    converging = attractor - position
    discard_unless(np.linalg.norm(converging) > 0.1)
    for tree in trees:
        for body in tree:
            reference = attractor - body.get_reference_point(in_global_frame=True)
            discard_unless(np.linalg.norm(reference) > 1e-2)
            discard_unless(angle_between(converging, reference) < math.pi - 0.02)


def check_symmetry(case):
    trees, dynamics, avoider = _setup(case)
    position = _position(case, trees)
    _regular(case, trees, avoider, position)
    initial = dynamics.evaluate(position)
    given = np.copy(position)
    velocity = avoider.evaluate(given)
    require(is_vector(velocity, 2), "Velocity not finite", velocity=velocity)
    require(np.array_equal(given, position), "Position modified")
    scale = 1 + np.linalg.norm(initial)
    require(
        np.linalg.norm(velocity) <= np.linalg.norm(initial) * (1 + 1e-6),
        "Faster than the initial velocity",
        velocity=velocity,
        initial=initial,
    )
    # History of evaluations
    for other in (position + 0.3, position * 1.1 - 0.2):
        if min(tree.get_gamma(other) for tree in trees) > 1.01:
            avoider.evaluate(other)
    again = avoider.evaluate(position)
    require(close(again, velocity, 1e-12 * scale), "Second evaluation differs", again=again)

    turn = case["turn"]
    matrix = np.array(
        [[math.cos(turn), -math.sin(turn)], [math.sin(turn), math.cos(turn)]]
    )
    shift = arr(case["shift"])
    if case["dynamics"] != "wavy":  # The waves are given in the fixed frame
        _, _, moved = _setup(case, pose_map=(matrix, shift))
        rotated = moved.evaluate(matrix @ position + shift)
        require(
            close(rotated, matrix @ velocity, 1e-4 * scale),
            "Velocity does not move along with the world",
            rotated=rotated,
            expected=matrix @ velocity,
        )
    _, _, permuted = _setup(case, order=case["order"])
    other = permuted.evaluate(position)
    require(
        close(other, velocity, 1e-6 * scale),
        "Velocity depends on the order of the obstacles",
        other=other,
        velocity=velocity,
    )
    if case["dynamics"] in ("linear", "constant"):
        # LinearSystem is limited to its maximal velocity far from the attractor
        fac = case["factor"]
        faster = dict(case, speed=fac * case["speed"])
        _, quick, avoider2 = _setup(faster)
        ratio = np.linalg.norm(quick.evaluate(position)) / np.linalg.norm(initial)
        scaled = avoider2.evaluate(position)
        require(
            close(scaled, ratio * velocity, 1e-6 * scale * ratio),
            "Velocity does not scale with the speed",
            scaled=scaled,
            expected=ratio * velocity,
        )
    return ["" if not close(velocity, initial, 1e-3) else "trivial", case["dynamics"]]


def check_limits(case):
    trees, dynamics, avoider = _setup(case)
    attractor = arr(case["attractor"])
    empty = make_avoider(case, [], dynamics, dynamics)
    position = attractor + case["distance"] * direction2(case["phi"])
    require(
        close(empty.evaluate(position), dynamics.evaluate(position), 1e-9),
        "Velocity changed without obstacle",
    )
    if case["dynamics"] != "constant":
        attractor_outside(case, trees)
        rest = avoider.evaluate(attractor)
        require(close(rest, np.zeros(2), 1e-12), "Motion at the attractor", rest=rest)
    # Far away from all obstacles
    far = 3e3 * direction2(case["phi"])
    _regular(case, trees, avoider, far)
    direction = dynamics.evaluate(far)
    if case["dynamics"] != "constant":
        # Angle from which the attractor sees the position and the trees
        for tree in trees:
            reference = tree.get_root().get_reference_point(in_global_frame=True)
            discard_unless(
                angle_between(far - attractor, reference - attractor) > 0.5
            )
    velocity = avoider.evaluate(far)
    require(
        np.linalg.norm(velocity - direction) < 0.1 * np.linalg.norm(direction),
        "Obstacle far away has an influence",
        velocity=velocity,
        initial=direction,
    )
    for radius in (math.pi / 2 - case["fraction"], math.pi + case["fraction"]):
        try:
            make_avoider(dict(case, convergence=radius), trees, dynamics, dynamics)
        except ValueError:
            continue
        require(False, "Convergence radius out of range accepted", radius=radius)
    return [case["dynamics"]]


def _relative_model(case, trees, position):
    """Inverse distance weights, rotation fades out exponentially."""
    gammas = np.array([tree.get_gamma(position) for tree in trees])
    weights = 1.0 / (gammas - 1)
    weights = weights / max(1.0, np.sum(weights))
    velocity = np.zeros(2)
    for ii, (tree, twist) in enumerate(zip(trees, case["twists"])):
        arm = position - tree.get_pose().position
        turning = twist["angular"] * np.array([-arm[1], arm[0]])
        velocity = velocity + weights[ii] * (
            arr(twist["linear"]) + math.exp(1 - gammas[ii]) * turning
        )
    return velocity


def check_moving(case):
    trees, dynamics, avoider = _setup(case)
    position = _position(case, trees)
    _regular(case, trees, avoider, position)
    velocity = avoider.evaluate(position)
    trees, dynamics, avoider = _setup(case, twists=True)
    moving = avoider.evaluate(position)
    expected = _relative_model(case, trees, position)
    relative = compute_multiobstacle_relative_velocity(position, trees)
    require(
        close(relative, expected, 1e-9 * (1 + np.linalg.norm(expected))),
        "Velocity of the obstacles",
        relative=relative,
        expected=expected,
    )
    require(
        close(moving, velocity + expected, 1e-6 * (1 + np.linalg.norm(moving))),
        "The avoidance does not move along with the obstacles",
        moving=moving,
        expected=velocity + expected,
    )
    return ["" if np.linalg.norm(expected) > 1e-3 else "trivial"]


SUBS = [
    Sub("symmetry", relation_case(), check_symmetry, quick=900, shards=6, thorough=30000),
    Sub("limits", relation_case(), check_limits, quick=300, shards=2, thorough=8000),
    Sub("moving", relation_case(), check_moving, quick=300, shards=2, thorough=8000),
]
