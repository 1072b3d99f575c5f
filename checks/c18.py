"""C18: avoidance of nonlinear dynamics by averaging their convergence at the obstacles."""
import math

import numpy as np

from lib.gen import angle, count, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, plane_rotation, rot2, unit, wrap
from lib.scene import (
    build_obstacle,
    gamma,
    lattice_obstacle,
    lattice_surface,
    normal,
    obstacle_case,
    surface_point,
)

from scipy.spatial.transform import Rotation
from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import Pose

from nonlinear_avoidance.dynamics import SimpleCircularDynamics, WavyLinearDynamics
from nonlinear_avoidance.nonlinear_rotation_avoider import (
    ConvergenceDynamicsWithoutSingularity,
    NonlinearRotationalAvoider,
    SingularityConvergenceDynamics,
    get_convergence_weight,
)
from nonlinear_avoidance.rotation_container import RotationContainer
from nonlinear_avoidance.vector_rotation import VectorRotationSequence

PROPERTY = "C18"
RULE = (
    "One to three separate ellipses / boxes in the plane and in space; linear, turned, wavy and "
    "circular dynamics with an attractor and a meandering flow without; positions at, between and far from the obstacles. "
    "Non-trivial: within the reach of an obstacle, initial velocity changed."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]


@st.composite
def case_strategy(draw, dims=(2, 2, 3)):
    dim = draw(st.sampled_from(dims))
    return {
        "dim": dim,
        "obs": [
            draw(obstacle_case(dim, spread=6.0, shift=draw(st.booleans())))
            for _ in range(draw(count(1, 3, 6)))
        ],
        "attractor": draw(vec(dim, -8.0, 8.0)),
        "dynamics": draw(st.sampled_from(["linear", "turned", "wavy", "circular", "flow", "flow"])),
        "turn_by": draw(num(-1.2, 1.2)),
        "axis": draw(nonzero_vec(3, -1.0, 1.0, min_norm=0.1)),
        "speed": draw(st.sampled_from([0.5, 1.0, 2.0])),
        "where": draw(st.sampled_from(["free", "around", "around", "surface", "far"])),
        "direction": draw(nonzero_vec(dim, -1.0, 1.0, min_norm=0.1)),
        "offset": draw(st.one_of(num(0.0, 2.0), num(0.01, 8.0))),
        "free": draw(vec(dim, -9.0, 9.0)),
        "turn": draw(angle()) if dim == 2 else draw(vec(3, -3.0, 3.0)),
        "move": draw(vec(dim, -5.0, 5.0)),
        "order": draw(st.permutations(list(range(6)))),
    }


class Turned:
    """Linear dynamics turned by a fixed rotation."""

    def __init__(self, attractor, matrix, speed):
        self.attractor_position, self.dimension = attractor, len(attractor)
        self.matrix, self.speed = matrix, speed

    def evaluate(self, position):
        rel = self.matrix @ (self.attractor_position - position)
        norm = np.linalg.norm(rel)
        return rel if norm <= self.speed else rel / norm * self.speed


class Flow:
    """Meandering flow along a direction, without attractor."""

    attractor_position = None

    def __init__(self, main, side, amplitude, speed, origin):
        self.main, self.side, self.dimension = main, side, len(main)
        self.amplitude, self.speed, self.origin = amplitude, speed, origin

    def evaluate(self, position):
        phi = self.amplitude * math.sin((position - self.origin) @ self.main)
        return (math.cos(phi) * self.main + math.sin(phi) * self.side) * self.speed

    def evaluate_dynamics_sequence(self, position):
        return VectorRotationSequence.create_from_vector_array(
            np.vstack((self.main, self.evaluate(position))).T
        )


def scene(case, pose_map=None, order=None):
    """Avoider, obstacles and position."""
    dim, speed = case["dim"], case["speed"]
    obstacles = [build_obstacle(item) for item in case["obs"]]
    direction = arr(case["direction"])
    if case["where"] == "around":
        position = surface_point(obstacles[0], direction, case["offset"])
    elif case["where"] == "surface":
        position = surface_point(obstacles[0], direction, 1e-7)
    elif case["where"] == "far":
        position = unit(direction) * (40 + 5 * case["offset"])
    else:
        position = arr(case["free"])
    attractor = arr(case["attractor"])
    mat, move = np.eye(dim), np.zeros(dim)
    if pose_map is not None:
        mat, move = pose_map
        obstacles = [build_obstacle(item, pose_map=pose_map) for item in case["obs"]]
        attractor, position = mat @ attractor + move, mat @ position + move
    kind = case["dynamics"]
    if kind in ("wavy", "circular") and dim != 2:
        kind = "turned"
    if kind == "flow":
        main = unit(direction)
        side = np.roll(main, 1) * (np.array([-1, 1]) if dim == 2 else 1)
        side = side - main * (side @ main)
        discard_unless(np.linalg.norm(side) > 1e-2)
        dynamics = Flow(mat @ main, mat @ unit(side), case["turn_by"], speed, move)
        convergence = ConvergenceDynamicsWithoutSingularity(
            initial_dynamics=dynamics,
            convergence_dynamics=ConstantValue(velocity=mat @ main),
        )
    else:
        convergence = None
        if kind == "linear":
            dynamics = LinearSystem(attractor_position=attractor, maximum_velocity=speed)
        elif kind == "turned":
            if dim == 2:
                turn = rot2(case["turn_by"])
            else:
                turn = Rotation.from_rotvec(unit(case["axis"]) * case["turn_by"]).as_matrix()
            dynamics = Turned(attractor, mat @ turn @ mat.T, speed)
        elif kind == "wavy":
            dynamics = WavyLinearDynamics(
                attractor_position=attractor, maximum_deviation=case["turn_by"]
            )
        else:
            dynamics = SimpleCircularDynamics(pose=Pose(attractor), radius=1 + abs(case["turn_by"]))
    if order is not None:
        obstacles = [obstacles[ii] for ii in order if ii < len(obstacles)]
    env = RotationContainer()
    for obs in obstacles:
        env.append(obs)
    if convergence is None and case["order"][0]:
        avoider = NonlinearRotationalAvoider(
            initial_dynamics=dynamics, obstacle_environment=env, obstacle_convergence=None
        )
    elif convergence is None:
        from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics

        avoider = SingularityConvergenceDynamics(
            initial_dynamics=dynamics,
            obstacle_environment=env,
            obstacle_convergence=ProjectedRotationDynamics(
                attractor_position=attractor, initial_dynamics=dynamics
            ),
        )
    else:
        avoider = NonlinearRotationalAvoider(
            initial_dynamics=dynamics, obstacle_environment=env, obstacle_convergence=convergence
        )
    return avoider, obstacles, position, dynamics


def check_regular(avoider, obstacles, position, dynamics):
    """Excludes the singular configurations: at the attractor or the obstacle on it,
    opposite directions, attractor or position in an obstacle."""
    levels = [gamma(obs, position) for obs in obstacles]
    discard_unless(min(levels) > 1)
    velocity = dynamics.evaluate(position)
    discard_unless(np.linalg.norm(velocity) > 1e-3)
    attractor = dynamics.attractor_position
    for ii, obs in enumerate(obstacles):
        for other in obstacles[:ii]:
            discard_unless(np.linalg.norm(obs.center_position - other.center_position) > 0.1)
        at_obs = dynamics.evaluate(obs.global_reference_point)
        discard_unless(np.linalg.norm(at_obs) > 1e-3)
        discard_unless(angle_between(at_obs, velocity) < math.pi - 0.05)
        if attractor is None:
            continue
        discard_unless(gamma(obs, attractor) > 1.05)
        rel, to_obs = attractor - position, attractor - obs.global_reference_point
        discard_unless(np.linalg.norm(rel) > 1e-2)
        discard_unless(angle_between(rel, to_obs) < math.pi - 0.05)
        discard_unless(angle_between(rel, attractor - obs.center_position) < math.pi - 0.05)
        discard_unless(angle_between(velocity, rel) < math.pi - 0.05)
        discard_unless(angle_between(at_obs, to_obs) < math.pi - 0.05)
    return levels, velocity


def signed(a, b):
    return math.atan2(a[0] * b[1] - a[1] * b[0], a @ b)


def reference_weights(levels, cut_off=10.0):
    """Shares in the averaging: inverse of the distance to the surface, squared."""
    levels = np.array(levels)
    if np.any(levels <= 1):
        close_by = levels <= 1
        return close_by / np.sum(close_by)
    weights = np.where(
        levels < cut_off, 1 / (np.minimum(levels, cut_off) - 1) - 1 / (cut_off - 1), 0.0
    )
    weights = weights / max(np.max(weights), 1e-300)
    weights = weights**2
    return weights / np.sum(weights) if np.sum(weights) else weights


def check_weights(case):
    avoider, obstacles, position, _ = scene(case)
    levels = np.array([gamma(obs, position) for obs in obstacles])
    discard_unless(np.all(np.abs(levels - 1) > 1e-9) and np.all(np.abs(levels - 10) > 1e-6))
    return weights_of(avoider, obstacles, position, levels)


@st.composite
def exact_case(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    return {
        "dim": dim,
        "obs": [draw(lattice_obstacle(dim, 3)) for _ in range(draw(st.integers(1, 4)))],
        "axis": draw(st.integers(0, dim - 1)),
        "sign": draw(st.sampled_from([-1, 1])),
        "touch": draw(st.booleans()),
        "attractor": [draw(st.integers(-6, 6)) for _ in range(dim)],
        "speed": draw(st.sampled_from([0.5, 1.0, 2.0])),
    }


def check_exact(case):
    """Exactly on a surface, possibly where two bodies touch."""
    obstacles = [build_obstacle(item) for item in case["obs"]]
    position = lattice_surface(obstacles[0], case["axis"], case["sign"])
    if case["touch"]:
        # Second body on the other side of the same point
        other = dict(case["obs"][0])
        other["center"] = list(2 * position - obstacles[0].center_position)
        obstacles.insert(1, build_obstacle(other))
    env = RotationContainer()
    for obs in obstacles:
        env.append(obs)
    attractor = arr(case["attractor"]).astype(float)
    dynamics = LinearSystem(attractor_position=attractor, maximum_velocity=case["speed"])
    avoider = SingularityConvergenceDynamics(
        initial_dynamics=dynamics, obstacle_environment=env, obstacle_convergence=None
    )
    levels = np.array([gamma(obs, position) for obs in obstacles])
    discard_unless(levels[0] == 1)
    weights_of(avoider, obstacles, position, levels)
    return ["several" if np.sum(levels <= 1) > 1 else "single"]


def weights_of(avoider, obstacles, position, levels):
    before = position.copy()
    index = avoider.compute_gamma_weights(position)
    weights = np.array(avoider.weights)
    require(close(before, position, 0), "Position modified")
    require(weights.shape == (len(obstacles),), "Not one weight for each obstacle", weights=weights)
    require(np.all(np.isfinite(weights)) and np.all(weights >= 0), "Weights", weights=weights)
    reach = (levels <= 1) if np.any(levels <= 1) else (levels < 10)
    if not np.any(reach):
        require(len(index) == 0 and not np.any(weights), "Weights beyond the reach", weights=weights)
        return ["trivial"]
    require(np.array_equal(np.array(index, dtype=bool), reach), "Wrong obstacles", got=index, want=reach)
    require(abs(np.sum(weights) - 1) < 1e-9, "Weights do not sum up to one", weights=weights)
    require(not np.any(weights[~reach]), "Weight of an obstacle which is out of reach", weights=weights)
    order = np.argsort(levels)
    require(np.all(np.diff(weights[order]) <= 1e-9), "Closer obstacle has a smaller weight", weights=weights, gamma=levels)
    require(
        close(weights, reference_weights(levels), 1e-6), "Weights", weights=weights, want=reference_weights(levels)
    )
    for level in levels:
        weight = get_convergence_weight(level)
        require(abs(weight - min(1.0, 1 / level)) < 1e-12, "Convergence weight", got=weight)
    return ["" if np.sum(reach) > 1 else "trivial"]


def check_average(case):
    avoider, obstacles, position, dynamics = scene(case)
    levels, velocity = check_regular(avoider, obstacles, position, dynamics)
    before = position.copy()
    given = unit(velocity)
    value = avoider.evaluate_weighted_dynamics(position, given)
    require(is_vector(value, case["dim"]), "Not a direction", value=value)
    require(abs(np.linalg.norm(value) - 1) < 1e-6, "Not a unit vector", value=value)
    require(close(before, position, 0) and close(given, unit(velocity), 0), "Input modified")
    weights = reference_weights(levels)
    reach = np.flatnonzero(np.array(levels) < 10)
    if not len(reach):
        require(close(value, given, 1e-9), "Not the initial velocity out of reach", value=value)
        return ["trivial"]
    local = [
        avoider.obstacle_convergence.evaluate_convergence_around_obstacle(position, obstacles[ii])
        for ii in reach
    ]
    require(all(is_vector(item, case["dim"]) for item in local), "Local convergence", local=local)
    if dynamics.attractor_position is None:
        for ii, item in zip(reach, local):
            at_obs = dynamics.evaluate(obstacles[ii].global_reference_point)
            require(close(item, at_obs, 1e-9), "Not the dynamics at the reference point", got=item, want=at_obs)
    for item in local:
        discard_unless(angle_between(item, velocity) < math.pi - 0.05)
    if len(reach) == 1:
        require(
            close(value, unit(local[0]), 2e-5), "Not the convergence of the obstacle", value=value, want=unit(local[0])
        )
    if case["dim"] == 2:
        turn = sum(weights[ii] * signed(velocity, item) for ii, item in zip(reach, local))
        want = rot2(turn) @ given
    else:
        # Average in the plane of the directions (rotation vectors of the initial velocity)
        total = np.zeros(3)
        for ii, item in zip(reach, local):
            perp = item - given * (item @ given)
            if np.linalg.norm(perp) > 1e-12:
                total = total + weights[ii] * angle_between(velocity, item) * unit(perp)
        turn = np.linalg.norm(total)
        want = given if turn < 1e-12 else math.cos(turn) * given + math.sin(turn) * total / turn
    require(close(value, want, 3e-5), "Not the weighted average", value=value, want=want, weights=weights)
    return ["" if angle_between(value, velocity) > 1e-2 else "trivial", "several" if len(reach) > 1 else "one"]


def check_average_sequence(case):
    from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence

    avoider, obstacles, position, dynamics = scene(case)
    levels, velocity = check_regular(avoider, obstacles, position, dynamics)
    initial = avoider.evaluate_initial_dynamics_sequence(position)
    reference = evaluate_dynamics_sequence(position, dynamics)
    require(close(initial.get_end_vector(), reference.get_end_vector(), 1e-9), "Initial sequence")
    before = position.copy()
    value = avoider.evaluate_weighted_dynamics_sequence(position, initial)
    require(close(before, position, 0), "Position modified")
    end = value.get_end_vector()
    require(is_vector(end, case["dim"]), "Not a direction", value=end)
    attractor = dynamics.attractor_position
    root = unit(attractor - position) if attractor is not None else dynamics.main
    shares = []
    for obs, level in zip(obstacles, levels):
        share = avoider.obstacle_convergence.evaluate_projected_weight(position, obs)
        require(0 <= share <= 1, "Weight out of range", weight=share)
        if attractor is None:
            require(abs(share - 1 / level) < 1e-6, "Weight is not the inverse of gamma", weight=share)
        shares.append(share)
    shares = np.array(shares)
    total = max(np.sum(shares), 1.0)
    if case["dim"] == 2:
        turn = (1 - np.sum(shares) / total) * signed(root, velocity)
        for share, obs in zip(shares, obstacles):
            point = obs.global_reference_point
            at_obs = dynamics.evaluate(point)
            if attractor is None:
                delta = signed(root, at_obs)
            else:
                delta = signed(root, attractor - point) + signed(attractor - point, at_obs)
            turn += share / total * delta
        want = rot2(turn) @ root
        require(close(end, want, 5e-5), "Not the weighted average of the sequences", got=end, want=want, weights=shares)
    elif len(obstacles) == 1 and shares[0] > 1 - 1e-9:
        want = unit(dynamics.evaluate(obstacles[0].global_reference_point))
        require(close(end, want, 5e-5), "Not the velocity at the obstacle", got=end, want=want)
    return ["" if 1e-3 < np.sum(shares) else "trivial", "several" if len(obstacles) > 1 else "one"]


def check_evaluate(case):
    avoider, obstacles, position, dynamics = scene(case)
    dim = case["dim"]
    levels, velocity = check_regular(avoider, obstacles, position, dynamics)
    speed = np.linalg.norm(velocity)
    before = position.copy()
    value = np.array(avoider.evaluate(position))
    sequence = np.array(avoider.evaluate_sequence(position))
    require(close(before, position, 0), "Position modified")
    require(is_vector(value, dim) and is_vector(sequence, dim), "Not a velocity", value=value, sequence=sequence)
    require(np.linalg.norm(value) <= speed * (1 + 1e-6), "Faster than initially", value=value, initial=velocity)
    require(
        abs(np.linalg.norm(sequence) - speed) <= 1e-6 * max(speed, 1), "Speed of the sequence", got=sequence, want=speed
    )
    require(
        close(np.array(avoider.evaluate(position)), value, 1e-9)
        and close(np.array(avoider.evaluate_sequence(position)), sequence, 1e-9),
        "Second evaluation differs",
    )
    explicit = np.array(avoider.avoid(position, velocity.copy()))
    require(close(explicit, value, 1e-6), "Differs for the initial velocity given", got=explicit, want=value)
    if min(levels) > 10:
        require(close(value, velocity, 1e-6), "Changed out of reach", value=value, want=velocity)
        return ["trivial"]
    # Order of the obstacles
    labels = ["" if angle_between(value, velocity) > 1e-2 else "trivial"]
    if len(obstacles) > 1:
        other = scene(case, order=case["order"])[0]
        require(
            close(np.array(other.evaluate(position)), value, 1e-4 * max(speed, 1))
            and close(np.array(other.evaluate_sequence(position)), sequence, 1e-4 * max(speed, 1)),
            "Depends on the order of the obstacles",
        )
    # Frame; directions close to a saddle are sensitive
    convergence = avoider.evaluate_weighted_dynamics(position, unit(velocity))
    for obs in obstacles:
        ref = obs.global_reference_point - position
        discard_unless(angle_between(ref, convergence) > 0.05)
        discard_unless(angle_between(normal(obs, position), convergence) > 0.05)
        discard_unless(angle_between(ref, velocity) > 0.05)
        sequence_conv = avoider.evaluate_weighted_dynamics_sequence(
            position, avoider.evaluate_initial_dynamics_sequence(position)
        ).get_end_vector()
        discard_unless(angle_between(ref, sequence_conv) > 0.05)
        discard_unless(angle_between(normal(obs, position), sequence_conv) > 0.05)
    mat = rot2(case["turn"]) if dim == 2 else Rotation.from_rotvec(arr(case["turn"])).as_matrix()
    moved, _, position2, _ = scene(case, (mat, arr(case["move"])))
    if case["dynamics"] != "circular":
        value2, sequence2 = np.array(moved.evaluate(position2)), np.array(moved.evaluate_sequence(position2))
        tol = 2e-3 * max(speed, 1)
        require(close(value2, mat @ value, tol), "Depends on the frame", got=value2, want=mat @ value)
        require(close(sequence2, mat @ sequence, tol), "Sequence depends on the frame", got=sequence2, want=mat @ sequence)
    return labels


def check_surface(case):
    case = dict(case, where="surface")
    avoider, obstacles, position, dynamics = scene(case)
    levels, velocity = check_regular(avoider, obstacles, position, dynamics)
    discard_unless(min(levels[1:], default=9.0) > 1.02)
    n_vec = unit(normal(obstacles[0], position))
    ref = unit(obstacles[0].global_reference_point - position)
    convergence = avoider.evaluate_weighted_dynamics(position, unit(velocity))
    sequence_conv = avoider.evaluate_weighted_dynamics_sequence(
        position, avoider.evaluate_initial_dynamics_sequence(position)
    ).get_end_vector()
    for item in (convergence, sequence_conv):
        discard_unless(angle_between(item, ref) > 0.02 and angle_between(item, n_vec) > 0.02)
        discard_unless(angle_between(item, velocity) < math.pi - 0.05)
    speed = np.linalg.norm(velocity)
    for name, value in (
        ("velocity", np.array(avoider.evaluate(position))),
        ("sequence", np.array(avoider.evaluate_sequence(position))),
    ):
        require(
            is_vector(value, case["dim"]) and value @ n_vec >= -1e-4 * speed,
            f"The {name} leads into the obstacle",
            value=value,
            normal=n_vec,
        )
    return ["" if min(velocity @ n_vec, convergence @ n_vec) < -1e-3 * speed else "trivial"]


SUBS = [
    Sub("weights", case_strategy(), check_weights, quick=600, thorough=15000),
    Sub("exact", exact_case(), check_exact, quick=300, thorough=5000),
    Sub("average", case_strategy(), check_average, quick=900, shards=2, thorough=30000),
    Sub("average_sequence", case_strategy(), check_average_sequence, quick=900, shards=2, thorough=30000),
    Sub("evaluate", case_strategy(), check_evaluate, quick=700, shards=3, thorough=20000),
    Sub("surface", case_strategy(), check_surface, quick=700, shards=2, thorough=20000),
]
