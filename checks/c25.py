"""C25: the avoidance is defined at every position, also in exactly aligned scenes."""
import math

import numpy as np

from lib.gen import st
from lib.pbt import Sub, discard_unless, require
from lib.ref import arr, is_vector
from lib.scene import build_obstacle, gamma, lattice_obstacle, lattice_surface, normal

from scipy.spatial.transform import Rotation
from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import Pose

from nonlinear_avoidance.arch_obstacle import create_arch_obstacle
from nonlinear_avoidance.avoidance import RotationalAvoider, obstacle_avoidance_rotational
from nonlinear_avoidance.dynamics import SimpleCircularDynamics, WavyLinearDynamics
from nonlinear_avoidance.dynamics.constant_value import ConstantValueWithSequence
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.nonlinear_rotation_avoider import (
    ConvergenceDynamicsWithoutSingularity,
    SingularityConvergenceDynamics,
)
from nonlinear_avoidance.rotation_container import RotationContainer

PROPERTY = "C25"
RULE = (
    "Axis-aligned ellipses and boxes, trees of up to four parts and arches on a lattice, "
    "turned by multiples of a right angle; attractors on the lattice; positions on the "
    "lattice, at centers and reference points, exactly on surfaces, and exactly in line with "
    "the attractor and a center or reference point. Non-trivial: the position coincides with "
    "one of these, or is in line with the attractor and a center."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]


@st.composite
def position_case(draw, dim):
    return {
        "where": draw(st.sampled_from(["lattice", "surface", "surface", "center", "reference", "line", "line"])),
        "body": draw(st.integers(0, 7)),
        "axis": draw(st.integers(0, dim - 1)),
        "sign": draw(st.sampled_from([-1, 1])),
        "free": [draw(st.integers(-8, 8)) for _ in range(dim)],
        "share": draw(st.sampled_from([-2.0, -1.0, -0.5, 0.25, 0.5, 0.75, 1.5, 2.0, 3.0])),
        "to_reference": draw(st.booleans()),
    }


def make_position(case, bodies, attractor):
    body = bodies[case["body"] % len(bodies)]
    where = case["where"]
    reference = np.array(body.get_reference_point(in_global_frame=True), dtype=float)
    if where == "surface":
        local = np.zeros(len(attractor))
        local[case["axis"]] = case["sign"] * body.semiaxes[case["axis"]]
        return body.pose.transform_position_from_relative(local)
    if where == "center":
        return np.array(body.center_position, dtype=float)
    if where == "reference":
        return reference
    if where == "line":
        goal = reference if case["to_reference"] else np.array(body.center_position, dtype=float)
        return attractor + case["share"] * (goal - attractor)
    return arr(case["free"]).astype(float)


def on_single_face(body, position):
    """Edges and corners of a box have no unique normal direction."""
    if not hasattr(body, "semiaxes") or body.__class__.__name__ == "Ellipse":
        return True
    local = np.abs(body.pose.transform_position_to_relative(position)) - body.semiaxes
    return np.sum(local > -1e-6) == 1


def observe(name, call, position, initial, bodies, attractor, check_into):
    """Velocity of one avoider at the position, and next to it."""
    dim = len(position)
    before = position.copy()
    value = np.array(call(position))
    require(np.array_equal(before, position), "Position modified", avoider=name)
    require(is_vector(value, dim), "Not a (finite) velocity", avoider=name, value=value)
    speed = np.linalg.norm(initial)
    require(
        np.linalg.norm(value) <= speed * (1 + 1e-6) + 1e-9,
        "Faster than initially",
        avoider=name,
        value=value,
        initial=initial,
    )
    if not speed:
        return value
    levels = np.array([gamma(body, position) for body in bodies])
    index = int(np.argmin(levels))
    if check_into and np.sum(levels <= 1) == 1 and levels[index] == 1 and on_single_face(bodies[index], position):
        outwards = normal(bodies[index], position)
        require(
            value @ outwards >= -1e-4 * speed,
            "Leads into the body at its surface",
            avoider=name,
            value=value,
            normal=outwards,
        )
    # A position at which the surroundings agree is not exceptional (directions
    # can be ambiguous within a body, and it stops where it leads straight into one)
    if np.min(levels) <= 1 or np.linalg.norm(value) < 1e-2 * speed:
        return value
    close_by = []
    for axis in range(dim):
        for sign in (1, -1):
            step = np.full(dim, 1.3e-7) * np.array([1, -0.7, 0.4])[:dim]
            step[axis] = sign * 3e-7
            close_by.append(np.array(call(position + step)))
    require(
        all(is_vector(item, dim) for item in close_by), "Not a (finite) velocity next to it", avoider=name
    )
    spread = max(np.linalg.norm(a - b) for a in close_by for b in close_by)
    if spread < 1e-4 * speed and np.linalg.norm(close_by[0]) > 1e-2 * speed:
        require(
            np.linalg.norm(value - close_by[0]) < 1e-2 * speed,
            "Differs from all positions next to it",
            avoider=name,
            value=value,
            close_by=close_by[0],
        )
    return value


# --- Separate obstacles ------------------------------------------------------------
@st.composite
def separate_case(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    return {
        "dim": dim,
        "obs": [draw(lattice_obstacle(dim, 4)) for _ in range(draw(st.integers(1, 3)))],
        "attractor": [draw(st.integers(-6, 6)) for _ in range(dim)],
        "position": draw(position_case(dim)),
        "dynamics": draw(st.sampled_from(["linear", "linear", "wavy", "circular"])),
        "tail": draw(st.booleans()),
    }


def initial_dynamics(kind, attractor):
    linear = LinearSystem(attractor_position=attractor, maximum_velocity=1.0)
    if kind == "wavy" and len(attractor) == 2:
        return WavyLinearDynamics(attractor_position=attractor, maximum_velocity=1.0), linear
    if kind == "circular" and len(attractor) == 2:
        return SimpleCircularDynamics(pose=Pose(attractor, 0.0), radius=2.0), linear
    return linear, linear


def labels_of(case, position, bodies, attractor):
    if case["where"] != "lattice":
        return [case["where"]]
    for body in bodies:
        rel, to_body = position - attractor, body.center_position - attractor
        if not np.any(rel) or np.linalg.norm(rel * (to_body @ to_body) - to_body * (rel @ to_body)) < 1e-9:
            return ["aligned"]
    return ["trivial"]


def check_separate(case):
    dim = case["dim"]
    attractor = arr(case["attractor"]).astype(float)
    bodies = [build_obstacle(item, tail_effect=case["tail"]) for item in case["obs"]]
    position = make_position(case["position"], bodies, attractor)
    dynamics, linear = initial_dynamics(case["dynamics"], attractor)
    initial = dynamics.evaluate(position)
    env = RotationContainer()
    for body in bodies:
        env.append(body)
    free_attractor = all(gamma(body, attractor) > 1 for body in bodies)
    rotational = RotationalAvoider(
        initial_dynamics=dynamics, obstacle_environment=env, convergence_system=linear
    )
    args = (position, initial, bodies, attractor)
    observe("rotational", rotational.evaluate, *args, True)
    observe(
        "function",
        lambda pp: obstacle_avoidance_rotational(
            pp, dynamics.evaluate(pp), env, convergence_velocity=linear.evaluate(pp)
        ),
        *args,
        True,
    )
    # An obstacle (whose reference point is) at the attractor is rejected
    if all(np.any(body.global_reference_point != attractor) for body in bodies):
        nonlinear = SingularityConvergenceDynamics(
            initial_dynamics=dynamics, obstacle_environment=env, obstacle_convergence=None
        )
        observe("nonlinear", nonlinear.evaluate, *args, free_attractor)
        if np.any(position != attractor):
            observe("nonlinear sequence", nonlinear.evaluate_sequence, *args, free_attractor)
    container = MultiObstacleContainer()
    for item in case["obs"]:
        pose = Pose(np.zeros(dim), 0.0) if dim == 2 else Pose(np.zeros(3), Rotation.identity())
        tree = MultiObstacle(pose)
        tree.set_root(build_obstacle(item, tail_effect=case["tail"]))
        container.append(tree)
    multi = MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=container, initial_dynamics=dynamics, reference_dynamics=linear
    )
    observe("multi", multi.evaluate, *args, free_attractor)
    return labels_of(case["position"], position, bodies, attractor)


# --- Trees of parts ----------------------------------------------------------------
@st.composite
def tree_lattice(draw):
    if draw(st.integers(0, 2)) == 0:
        return {
            "arch": [draw(st.sampled_from([4.0, 6.0])), draw(st.sampled_from([4.0, 6.0]))],
            "center": [draw(st.integers(-3, 3)), draw(st.integers(-3, 3))],
            "turn": draw(st.integers(0, 3)),
        }
    n_parts = draw(st.integers(0, 3))
    return {
        "arch": None,
        "root": draw(lattice_obstacle(2, 0)),
        "center": [draw(st.integers(-3, 3)), draw(st.integers(-3, 3))],
        "turn": draw(st.integers(0, 3)),
        "parts": [
            {
                "body": draw(lattice_obstacle(2, 0)),
                "parent": draw(st.integers(0, 3)),
                "axis": draw(st.integers(0, 1)),
                "sign": draw(st.sampled_from([-1, 1])),
                "distance": draw(st.sampled_from([0.5, 1.0, 1.5, 2.0])),
            }
            for _ in range(n_parts)
        ],
    }


@st.composite
def tree_case(draw):
    return {
        "trees": [draw(tree_lattice()) for _ in range(draw(st.integers(1, 2)))],
        "attractor": [draw(st.integers(-8, 8)) for _ in range(2)],
        "position": draw(position_case(2)),
        "dynamics": draw(st.sampled_from(["linear", "linear", "wavy", "circular", "constant"])),
    }


def lattice_tree(case):
    pose = Pose(arr(case["center"]).astype(float), case["turn"] * math.pi / 2)
    if case["arch"] is not None:
        return create_arch_obstacle(wall_width=1.0, axes_length=np.array(case["arch"]), pose=pose)
    tree = MultiObstacle(pose)
    root = build_obstacle(case["root"])
    tree.set_root(root)
    frames = [(np.zeros(2), np.array(case["root"]["axes"]), case["root"]["kind"])]
    for part in case["parts"]:
        parent = part["parent"] % len(frames)
        center, axes, kind = frames[parent]
        step = np.zeros(2)
        step[part["axis"]] = part["sign"] * part["distance"]
        # Reference point in the middle, strictly inside of both
        if part["distance"] / 2 >= min(axes[part["axis"]], part["body"]["axes"][part["axis"]]) / 2:
            continue
        body = dict(part["body"], center=list(center + step))
        tree.add_component(build_obstacle(body), parent_ind=parent, reference_position=-step / 2)
        frames.append((center + step, np.array(body["axes"]), body["kind"]))
    return tree


def check_tree(case):
    trees = [lattice_tree(item) for item in case["trees"]]
    attractor = arr(case["attractor"]).astype(float)
    bodies = [body for tree in trees for body in tree]
    position = make_position(case["position"], bodies, attractor)
    dynamics, linear = initial_dynamics(case["dynamics"], attractor)
    container = MultiObstacleContainer()
    for tree in trees:
        container.append(tree)
    constant = case["dynamics"] == "constant"
    if constant:
        dynamics = ConstantValueWithSequence(np.array([1.0, 0.0]))
        avoider = MultiObstacleAvoider(
            obstacle_container=container,
            initial_dynamics=dynamics,
            convergence_dynamics=ConvergenceDynamicsWithoutSingularity(
                convergence_dynamics=dynamics, initial_dynamics=dynamics
            ),
        )
    else:
        avoider = MultiObstacleAvoider.create_with_convergence_dynamics(
            obstacle_container=container, initial_dynamics=dynamics, reference_dynamics=linear
        )
    free_attractor = constant or all(gamma(body, attractor) > 1 for body in bodies)
    observe(
        "multi", avoider.evaluate, position, dynamics.evaluate(position), bodies, attractor, free_attractor
    )
    return labels_of(case["position"], position, bodies, attractor)


SUBS = [
    Sub("separate", separate_case(), check_separate, quick=900, shards=5, thorough=25000),
    Sub("tree", tree_case(), check_tree, quick=900, shards=3, thorough=25000),
]
