"""C10: rotational avoidance does not depend on frame, units or order of obstacles."""
import math

import numpy as np

from lib.gen import angle, count, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, random_rotation, unit
from lib.scene import ConstantValue, LinearSystem, build_obstacle, gamma, normal
from lib.scene import obstacle_case, surface_point

from dynamic_obstacle_avoidance.utils import compute_weights, get_relative_obstacle_velocity

from nonlinear_avoidance.avoidance import RotationalAvoider
from nonlinear_avoidance.rotation_container import RotationContainer

PROPERTY = "C10"
RULE = (
    "Scenes of one to three static ellipses / boxes with a position 0.001 to 5 in front "
    "of one surface, arbitrary initial velocity and attractor (degenerate directions "
    "discarded: opposite within 0.05 rad, heading exactly for the reference point within "
    "0.01 rad), random rigid motion, permutation and factor. Non-trivial: the avoidance "
    "changes the velocity by more than 1e-3."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]


@st.composite
def scene_case(draw):
    dim = draw(st.integers(2, 3))
    n_obs = draw(count(1, 3, 6))
    return {
        "obstacles": [draw(obstacle_case(dim)) for _ in range(n_obs)],
        "direction": draw(nonzero_vec(dim, -1.0, 1.0)),
        "distance": draw(num(0.001, 5.0)),
        "initial": draw(nonzero_vec(dim, -2.0, 2.0)),
        "attractor": draw(vec(dim, -6.0, 6.0)),
        "radius": draw(
            st.one_of(st.just(math.pi / 2), num(math.pi / 2, 0.95 * math.pi))
        ),
        "tail": draw(st.booleans()),
        "sticky": draw(st.booleans()),
        "angles": [draw(angle()) for _ in range(3)],
        "shift": draw(vec(dim, -5.0, 5.0)),
        "factor": draw(num(0.1, 8.0)),
        "velocities": draw(
            st.one_of(
                st.none(),
                st.lists(vec(dim, -1.0, 1.0), min_size=n_obs, max_size=n_obs),
            )
        ),
        "order": draw(st.permutations(range(n_obs))),
    }


def _evaluate(case, obstacles, position, initial, attractor, order=None):
    env = RotationContainer()
    for ii in order or range(len(obstacles)):
        env.append(obstacles[ii])
    linear = LinearSystem(attractor_position=attractor)
    avoider = RotationalAvoider(
        initial_dynamics=ConstantValue(velocity=initial),
        obstacle_environment=env,
        convergence_system=linear,
        tail_rotation=case["tail"],
        convergence_radius=case["radius"],
    )
    return avoider.avoid(position, sticky_surface=case["sticky"])


def _moving_obstacles(case, pose_map=None, factor=1.0):
    matrix = np.eye(len(case["shift"])) if pose_map is None else pose_map[0]
    obstacles = []
    for ii, item in enumerate(case["obstacles"]):
        kwargs = {}
        if case["velocities"] is not None:
            kwargs["linear_velocity"] = factor * (matrix @ arr(case["velocities"][ii]))
        obstacles.append(build_obstacle(item, pose_map=pose_map, **kwargs))
    return obstacles


def check_symmetry(case):
    obstacles = _moving_obstacles(case)
    position = surface_point(obstacles[0], case["direction"], case["distance"])
    discard_unless(min(gamma(obs, position) for obs in obstacles) > 1.0005)
    initial, attractor = arr(case["initial"]), arr(case["attractor"])
    converging = attractor - position
    discard_unless(np.linalg.norm(converging) > 1e-2)
    discard_unless(angle_between(initial, converging) < math.pi - 0.05)
    for obs in obstacles:
        discard_unless(angle_between(normal(obs, position), converging) > 0.05)
        reference = obs.get_reference_direction(position, in_global_frame=True)
        discard_unless(angle_between(reference, converging) > 0.01)
    dim = len(position)
    if case["velocities"] is not None:
        return check_moving_scene(case, obstacles, position, initial, attractor)
    inputs = [np.copy(x) for x in (position, initial, attractor)]
    velocity = _evaluate(case, obstacles, position, initial, attractor)
    require(is_vector(velocity, dim), "Velocity not finite", velocity=velocity)
    require(
        all(np.array_equal(x, y) for x, y in zip(inputs, (position, initial, attractor))),
        "Inputs modified",
    )
    scale = 1 + np.linalg.norm(initial)
    again = _evaluate(case, obstacles, position, initial, attractor)
    require(np.array_equal(velocity, again), "Second evaluation differs", again=again)

    if case["sticky"] and np.linalg.norm(velocity) > 1e-9:
        # The slow-down is given by the normal which is opposed most
        dots = sorted(unit(velocity) @ normal(obs, position) for obs in obstacles)
        discard_unless(len(dots) < 2 or dots[1] - dots[0] > 1e-6)

    # Rigid motion of the world
    matrix, shift = random_rotation(dim, case["angles"]), arr(case["shift"])
    moved = _moving_obstacles(case, pose_map=(matrix, shift))
    rotated = _evaluate(
        case, moved, matrix @ position + shift, matrix @ initial, matrix @ attractor + shift
    )
    require(
        close(rotated, matrix @ velocity, 1e-5 * scale),
        "Velocity does not move along with the world",
        rotated=rotated,
        expected=matrix @ velocity,
    )
    # Faster motion
    fac = case["factor"]
    scaled = _evaluate(
        case, _moving_obstacles(case, factor=fac), position, fac * initial, attractor
    )
    require(
        close(scaled, fac * velocity, 1e-7 * scale * fac),
        "Velocity does not scale with the initial velocity",
        scaled=scaled,
        expected=fac * velocity,
    )
    # Order of the obstacles
    permuted = _evaluate(
        case, obstacles, position, initial, attractor, order=case["order"]
    )
    require(
        close(permuted, velocity, 1e-7 * scale),
        "Velocity depends on the order of the obstacles",
        permuted=permuted,
        velocity=velocity,
    )
    return [
        "" if not close(velocity, initial, 1e-3) else "trivial",
        f"dim{dim}",
        f"obstacles{len(obstacles)}",
        "sticky" if case["sticky"] else "free",
    ]


def check_moving_scene(case, obstacles, position, initial, attractor):
    """Same relations if obstacles move (the velocity is given as an argument, too)."""
    dim = len(position)
    dynamics = LinearSystem(attractor_position=attractor)
    relative = initial - _approach(obstacles, position)
    discard_unless(np.linalg.norm(relative) > 1e-2)
    discard_unless(angle_between(relative, attractor - position) < math.pi - 0.05)
    env = RotationContainer()
    for obs in obstacles:
        env.append(obs)
    avoider = RotationalAvoider(
        initial_dynamics=ConstantValue(velocity=initial),
        obstacle_environment=env,
        convergence_system=dynamics,
        tail_rotation=case["tail"],
        convergence_radius=case["radius"],
    )
    velocity = avoider.avoid(position, sticky_surface=case["sticky"])
    require(is_vector(velocity, dim), "Velocity not finite", velocity=velocity)
    given, converging = np.copy(initial), dynamics.evaluate(position)
    arguments = [position, given, converging]
    copies = [np.copy(x) for x in arguments]
    for _ in range(2):
        again = avoider.avoid(
            position, given, sticky_surface=case["sticky"], convergence_velocity=converging
        )
        require(
            all(np.array_equal(x, y) for x, y in zip(copies, arguments)), "Inputs modified"
        )
        require(close(again, velocity, 1e-9), "Second evaluation differs", again=again)
    scale = 1 + np.linalg.norm(initial)
    if case["sticky"]:
        moving = velocity - _approach(obstacles, position)
        if np.linalg.norm(moving) > 1e-9:
            dots = sorted(unit(moving) @ normal(obs, position) for obs in obstacles)
            discard_unless(len(dots) < 2 or dots[1] - dots[0] > 1e-6)
    else:
        # Scaled back to the initial speed: undefined at zero velocity
        discard_unless(np.linalg.norm(velocity) > 1e-2)
    matrix, shift = random_rotation(dim, case["angles"]), arr(case["shift"])
    rotated = _evaluate(
        case,
        _moving_obstacles(case, pose_map=(matrix, shift)),
        matrix @ position + shift,
        matrix @ initial,
        matrix @ attractor + shift,
    )
    require(
        close(rotated, matrix @ velocity, 1e-4 * scale),
        "Velocity does not move along with the world",
        rotated=rotated,
        expected=matrix @ velocity,
    )
    fac = case["factor"]
    scaled = _evaluate(
        case, _moving_obstacles(case, factor=fac), position, fac * initial, attractor
    )
    require(
        close(scaled, fac * velocity, 1e-5 * scale * fac),
        "Velocity does not scale with the velocities of agent and obstacles",
        scaled=scaled,
        expected=fac * velocity,
    )
    permuted = _evaluate(
        case, obstacles, position, initial, attractor, order=case["order"]
    )
    require(
        close(permuted, velocity, 1e-5 * scale),
        "Velocity depends on the order of the obstacles",
        permuted=permuted,
        velocity=velocity,
    )
    approach = _approach(obstacles, position)
    return ["moving", "" if np.linalg.norm(approach) > 1e-3 else "trivial"]


def _approach(obstacles, position):
    """Weighted velocity with which the obstacles approach the agent."""
    gammas = np.array([gamma(obs, position) for obs in obstacles])
    normals = np.array([normal(obs, position) for obs in obstacles])
    return get_relative_obstacle_velocity(
        position=position,
        obstacle_list=obstacles,
        E_orth=np.swapaxes(normals[:, None, :], 0, 2),
        weights=compute_weights(gammas),
    )


def check_continuous(case):
    """Small displacement -> small change."""
    obstacles = [
        build_obstacle(dict(item, kind="ellipse")) for item in case["obstacles"]
    ]
    position = surface_point(obstacles[0], case["direction"], max(case["distance"], 0.05))
    discard_unless(min(gamma(obs, position) for obs in obstacles) > 1.04)
    initial, attractor = arr(case["initial"]), arr(case["attractor"])
    converging = attractor - position
    discard_unless(np.linalg.norm(converging) > 0.3)
    discard_unless(angle_between(initial, converging) < math.pi - 0.3)
    for obs in obstacles:
        discard_unless(angle_between(normal(obs, position), converging) > 0.3)
        reference = obs.get_reference_direction(position, in_global_frame=True)
        discard_unless(angle_between(reference, converging) > 0.1)
    velocity = _evaluate(case, obstacles, position, initial, attractor)
    step = 1e-6 * unit(arr(case["shift"]) + 1e-3)
    other = _evaluate(case, obstacles, position + step, initial, attractor)
    require(
        close(velocity, other, 2e-3 * np.linalg.norm(initial)),
        "Velocity jumps",
        velocity=velocity,
        other=other,
    )
    return ["" if not close(velocity, initial, 1e-3) else "trivial"]


SUBS = [
    Sub("symmetry", scene_case(), check_symmetry, quick=800, shards=5, thorough=30000),
    Sub("continuous", scene_case(), check_continuous, quick=500, shards=3, thorough=20000),
]
