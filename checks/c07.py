"""C07: rotational avoidance on the surface of an obstacle."""
import math

import numpy as np

from lib.gen import angle, count, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, is_vector, unit
from lib.scene import (
    ConstantValue,
    LinearSystem,
    build_obstacle,
    gamma,
    normal,
    obstacle_case,
    surface_point,
)

from nonlinear_avoidance.avoidance import RotationalAvoider
from nonlinear_avoidance.nonlinear_rotation_avoider import (
    ConvergenceDynamicsWithoutSingularity,
    NonlinearRotationalAvoider,
)
from nonlinear_avoidance.rotation_container import RotationContainer
from nonlinear_avoidance.vector_rotation import VectorRotationSequence

PROPERTY = "C07"
RULE = (
    "Surface points of ellipses and boxes (2-D, 3-D, any pose, shifted reference point, "
    "also as enclosing walls), any initial and convergence velocity, further obstacles "
    "away from the point; discarded: convergence velocity within 0.05 rad of opposite "
    "to the initial velocity or of the outward normal, or within 0.01 rad of the direction "
    "to the reference point. Non-trivial: the initial velocity "
    "points into the obstacle by more than 1e-3."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]


@st.composite
def surface_case(draw):
    dim = draw(st.integers(2, 3))
    n_other = draw(count(0, 2, 4))
    wide = draw(st.booleans())
    return {
        "obstacle": draw(obstacle_case(dim)),
        "others": [draw(obstacle_case(dim, spread=6.0)) for _ in range(n_other)],
        "boundary": draw(st.integers(0, 4)) == 0,
        "direction": draw(nonzero_vec(dim, -1.0, 1.0)),
        "initial": draw(nonzero_vec(dim, -2.0, 2.0)),
        "same": draw(st.booleans()),
        "attractor": draw(vec(dim, -6.0, 6.0)),
        "radius": draw(num(math.pi / 2, 0.95 * math.pi)) if wide else math.pi / 2,
        "tail": draw(st.booleans()),
        "sticky": draw(st.booleans()),
        "tiny": draw(st.sampled_from([0.0, 0.0, 1e-10])),
        "swap": draw(st.booleans()),
        "own": draw(st.sampled_from(["", "", "", "append", "list", "deleted"])),
        "radius_other": draw(num(math.pi / 2, 0.95 * math.pi)),
    }


def _scene(case, own=""):
    is_boundary = case["boundary"]
    obs = build_obstacle(case["obstacle"], is_boundary=is_boundary)
    sign = -1 if is_boundary else 1
    position = surface_point(obs, case["direction"], sign * max(case["tiny"], 1e-12))
    others = []
    for other in case["others"]:
        other = build_obstacle(other)
        if gamma(other, position) > 1.05:
            others.append(other)
    env = RotationContainer()
    if own == "deleted":
        # Obstacles which are removed again take their radius along
        env.append(
            build_obstacle(case["obstacle"]), convergence_radius=case["radius_other"]
        )
    for item in others + [obs] if case["swap"] else [obs] + others:
        if own in ("append", "deleted") and item is obs:
            env.append(item, convergence_radius=case["radius"])
        else:
            env.append(item)
    if own == "deleted":
        del env[0]
    if own == "list":
        env.convergence_radiuses = [
            case["radius"] if item is obs else case["radius_other"] for item in env
        ]
    return obs, env, position


def _is_saddle(obs, position, converging):
    """The convergence velocity points at the reference point: no side to evade to."""
    reference = obs.get_reference_direction(position, in_global_frame=True)
    if obs.is_boundary:
        reference = -reference
    return angle_between(converging, reference) < 1e-2


def check_surface(case):
    own = case["own"]  # Radius given for the avoider, or just for this obstacle
    obs, env, position = _scene(case, own)
    n_vec = unit(normal(obs, position))
    linear = LinearSystem(attractor_position=arr(case["attractor"]))
    converging = linear.evaluate(position)
    discard_unless(np.linalg.norm(converging) > 1e-2)
    initial = converging if case["same"] else arr(case["initial"])
    discard_unless(angle_between(initial, converging) < math.pi - 0.05)
    discard_unless(angle_between(n_vec, converging) > 0.05)
    discard_unless(not _is_saddle(obs, position, converging))

    avoider = RotationalAvoider(
        initial_dynamics=linear if case["same"] else ConstantValue(velocity=initial),
        obstacle_environment=env,
        convergence_system=linear,
        convergence_radius=case["radius_other" if own else "radius"],
        tail_rotation=case["tail"],
    )
    if case["sticky"]:
        velocity = avoider.evaluate(position)
    else:
        velocity = avoider.avoid(position, sticky_surface=False)
    require(is_vector(velocity, len(position)), "Velocity not finite", velocity=velocity)
    speed, limit = np.linalg.norm(velocity), np.linalg.norm(initial)
    tol = 1e-5 if case["tiny"] else 1e-6
    require(
        velocity @ n_vec >= -tol * limit,
        "Velocity points into the obstacle",
        velocity=velocity,
        normal=n_vec,
    )
    require(speed <= limit * (1 + 1e-6), "Velocity amplified", speed=speed, limit=limit)
    if len(env) == 1:
        require(
            speed >= limit * (1 - 1e-4), "Slowed down along the surface", speed=speed
        )

    discard_unless(speed > 1e-3 * limit)
    # Exact direction on the surface: on the circle around the inwards normal, or
    # the convergence direction if it points out of the circle already
    dir_angle = angle_between(velocity, -n_vec)
    conv_angle = angle_between(converging, -n_vec)
    if conv_angle >= case["radius"] and not case["tail"]:
        require(
            angle_between(velocity, converging) < 1e-3,
            "Velocity is not the convergence direction, which leaves the obstacle",
            velocity=velocity,
            convergence=converging,
        )
    else:
        require(
            abs(dir_angle - case["radius"]) < 1e-3,
            "Velocity not on the convergence circle",
            angle=dir_angle,
            radius=case["radius"],
        )
    inwards = initial @ n_vec < -1e-3
    return [
        "" if inwards else "trivial",
        f"dim{len(position)}",
        "boundary" if case["boundary"] else "obstacle",
        "several" if len(env) > 1 else "single",
        "wide" if case["radius"] > math.pi / 2 else "tangent",
        "tail" if case["tail"] else "no-tail",
        f"own-{own}" if own else "shared",
    ]


def check_sequence(case):
    """The same with velocities given as sequences of rotations from a common root."""
    obs, env, position = _scene(case)
    n_vec = unit(normal(obs, position))
    converging = unit(arr(case["attractor"]) - position)
    initial, root = unit(arr(case["initial"])), unit(arr(case["direction"]))
    discard_unless(angle_between(root, converging) < math.pi - 0.05)
    discard_unless(angle_between(root, initial) < math.pi - 0.05)
    discard_unless(angle_between(n_vec, converging) > 0.05)
    discard_unless(not _is_saddle(obs, position, converging))
    avoider = RotationalAvoider(
        initial_dynamics=ConstantValue(velocity=initial),
        obstacle_environment=env,
        convergence_radius=case["radius"],
        tail_rotation=case["tail"],
    )
    sequence = avoider.avoid_sequence(
        position,
        initial_sequence=VectorRotationSequence.create_from_vector_array(
            np.vstack((root, initial)).T
        ),
        convergence_sequence=VectorRotationSequence.create_from_vector_array(
            np.vstack((root, converging)).T
        ),
        convergence_default=case["sticky"],
    )
    velocity = sequence.get_end_vector()
    require(is_vector(velocity, len(position)), "Direction not finite", velocity=velocity)
    require(
        velocity @ n_vec >= -1e-5, "Sequence ends into the obstacle", velocity=velocity
    )
    conv_angle = angle_between(converging, -n_vec)
    if conv_angle >= case["radius"] and not case["tail"]:
        require(
            angle_between(velocity, converging) < 1e-3,
            "Sequence does not end at the convergence direction, which leaves the obstacle",
            velocity=velocity,
            convergence=converging,
        )
    else:
        require(
            abs(angle_between(velocity, -n_vec) - case["radius"]) < 1e-3,
            "Sequence does not end on the convergence circle",
            velocity=velocity,
        )
    return [
        "" if initial @ n_vec < -1e-3 else "trivial",
        f"dim{len(position)}",
        "several" if len(env) > 1 else "single",
    ]


@st.composite
def moving_case(draw):
    case = draw(surface_case())
    dim = len(case["direction"])
    case["boundary"] = False
    if draw(st.booleans()):
        case["others"] = []
    case["velocity"] = draw(vec(dim, -1.5, 1.5))
    case["velocity_others"] = draw(vec(dim, -1.5, 1.5))
    turning = num(-1.0, 1.0) if dim == 2 else vec(3, -1.0, 1.0)
    case["angular"] = draw(st.one_of(st.none(), turning))
    case["radius"], case["sticky"] = math.pi / 2, True
    return case


def check_moving(case):
    obs, env, position = _scene(case)
    for other in env:
        other.linear_velocity = arr(case["velocity_others"])
    obs.linear_velocity = arr(case["velocity"])
    motion, angular = arr(case["velocity"]), case["angular"]
    if angular is not None:
        arm = position - obs.center_position
        obs.angular_velocity = angular if len(position) == 2 else arr(angular)
        if len(position) == 2:
            motion = motion + angular * np.array([-arm[1], arm[0]])
        else:
            motion = motion + np.cross(arr(angular), arm)
    n_vec = unit(normal(obs, position))
    linear = LinearSystem(attractor_position=arr(case["attractor"]))
    converging = linear.evaluate(position)
    approach = max(float(motion @ n_vec), 0.0) * n_vec
    initial = converging if case["same"] else arr(case["initial"])
    discard_unless(np.linalg.norm(converging) > 1e-2)
    discard_unless(np.linalg.norm(initial - approach) > 1e-2)
    discard_unless(angle_between(initial - approach, converging) < math.pi - 0.05)
    discard_unless(angle_between(n_vec, converging) > 0.05)
    discard_unless(not _is_saddle(obs, position, converging))
    avoider = RotationalAvoider(
        initial_dynamics=linear if case["same"] else ConstantValue(velocity=initial),
        obstacle_environment=env,
        convergence_system=linear,
        tail_rotation=case["tail"],
    )
    velocity = avoider.evaluate(position)
    require(is_vector(velocity, len(position)), "Velocity not finite", velocity=velocity)
    limit = np.linalg.norm(initial) + np.linalg.norm(approach)
    require(
        (velocity - approach) @ n_vec >= -1e-5 * limit,
        "The moving obstacle runs into the agent",
        velocity=velocity,
        obstacle_velocity=motion,
        normal=n_vec,
    )
    relative = np.linalg.norm(initial - approach)
    moving = velocity - approach
    if len(env) > 1 and np.linalg.norm(moving) > 1e-3 * limit:
        # Slowed down in front of the obstacles further away
        inward = [
            unit(moving) @ unit(normal(other, position)) / gamma(other, position)
            for other in env
        ]
        relative = relative * (1 + min(0.0, min(inward)))
    require(
        abs(np.linalg.norm(moving) - relative) <= 2e-3 * limit,
        "Speed relative to the approaching obstacle is not kept",
        velocity=velocity,
        approach=approach,
        initial=initial,
    )
    return [
        f"dim{len(position)}",
        "several" if len(env) > 1 else "single",
        "turning" if angular is not None else "shifted",
        "" if np.linalg.norm(approach) > 1e-2 else "trivial",
    ]


@st.composite
def nonlinear_case(draw):
    case = draw(surface_case())
    case["boundary"] = False
    if draw(st.integers(0, 3)) == 0:
        case["others"] = []
        case["velocity"] = draw(vec(len(case["direction"]), -1.5, 1.5))
    return case


def check_nonlinear(case):
    """Convergence towards the locally averaged initial dynamics."""
    obs, env, position = _scene(case)
    n_vec = unit(normal(obs, position))
    approach = np.zeros(len(position))
    if case.get("velocity"):
        obs.linear_velocity = arr(case["velocity"])
        approach = max(float(obs.linear_velocity @ n_vec), 0.0) * n_vec
    base = LinearSystem(attractor_position=arr(case["attractor"]))
    turn = arr(case["initial"])

    class Dynamics:
        attractor_position = base.attractor_position
        dimension = len(position)

        @staticmethod
        def evaluate(pos):
            rel = base.evaluate(pos)
            return rel + 0.3 * np.linalg.norm(rel) * np.tanh(turn)

    dynamics = Dynamics()
    initial = dynamics.evaluate(position)
    discard_unless(np.linalg.norm(initial) > 1e-2)
    discard_unless(np.linalg.norm(initial - approach) > 1e-2)
    for item in env:
        center_velocity = dynamics.evaluate(item.global_reference_point)
        discard_unless(np.linalg.norm(center_velocity) > 1e-2)
        discard_unless(angle_between(center_velocity, initial) < math.pi - 0.05)
        discard_unless(
            angle_between(center_velocity, initial - approach) < math.pi - 0.05
        )
    center_velocity = dynamics.evaluate(obs.global_reference_point)
    discard_unless(angle_between(center_velocity, n_vec) > 0.05)
    discard_unless(not _is_saddle(obs, position, center_velocity))
    avoider = NonlinearRotationalAvoider(
        initial_dynamics=dynamics,
        obstacle_environment=env,
        obstacle_convergence=ConvergenceDynamicsWithoutSingularity(
            convergence_dynamics=base, initial_dynamics=dynamics
        ),
    )
    velocity = avoider.evaluate(position)
    require(is_vector(velocity, len(position)), "Velocity not finite", velocity=velocity)
    velocity = velocity - approach
    limit = np.linalg.norm(initial - approach)
    require(
        velocity @ n_vec >= -1e-5 * (limit + np.linalg.norm(initial)),
        "Velocity points into the obstacle",
        velocity=velocity,
        normal=n_vec,
    )
    require(np.linalg.norm(velocity) <= limit * (1 + 1e-6), "Velocity amplified")
    if angle_between(center_velocity, -n_vec) >= math.pi / 2:
        require(
            angle_between(velocity, center_velocity) < 1e-3,
            "Velocity is not the local convergence direction",
            velocity=velocity,
            convergence=center_velocity,
        )
    return [
        f"dim{len(position)}",
        "several" if len(env) > 1 else "single",
        "moving" if np.any(approach) else "static",
        "" if (initial - approach) @ n_vec < -1e-3 else "trivial",
    ]


SUBS = [
    Sub("surface", surface_case(), check_surface, quick=1500, shards=3, thorough=60000),
    Sub("sequence", nonlinear_case(), check_sequence, quick=600, shards=2, thorough=20000),
    Sub("moving", moving_case(), check_moving, quick=600, shards=2, thorough=20000),
    Sub("nonlinear", nonlinear_case(), check_nonlinear, quick=800, shards=2, thorough=30000),
]
