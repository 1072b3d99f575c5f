"""C17: projection of the space around an obstacle and the convergence based on it."""
import math

import numpy as np

from lib.gen import angle, nonzero_vec, num, st, vec, weight01
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, rot2, unit, wrap
from lib.scene import build_obstacle, gamma, obstacle_case, surface_point

from scipy.spatial.transform import Rotation
from vartools.dynamical_systems import LinearSystem
from vartools.states import Pose

from nonlinear_avoidance.dynamics import SimpleCircularDynamics, WavyLinearDynamics
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import (
    ProjectedRotationDynamics,
)
from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence

PROPERTY = "C17"
RULE = (
    "Ellipses and boxes in the plane and in space (also with shifted reference), attractors "
    "inside and outside, positions inside, on the surface, behind, near the attractor and "
    "opposite of the obstacle; linear, wavy and circular initial dynamics. Non-trivial: "
    "attractor and position outside of the obstacle, position not on the line through both."
)


@st.composite
def case_strategy(draw, dims=(2, 2, 3), shift=False):
    dim = draw(st.sampled_from(dims))
    return {
        "dim": dim,
        "obs": draw(obstacle_case(dim, shift=shift)),
        "att_dir": draw(nonzero_vec(dim, -1.0, 1.0, min_norm=0.1)),
        "att_dist": draw(st.one_of(num(0.0, 6.0), num(0.2, 6.0), num(-0.5, 0.0))),
        "where": draw(
            st.sampled_from(["free", "free", "around", "surface", "inside", "behind", "attractor", "opposite"])
        ),
        "direction": draw(nonzero_vec(dim, -1.0, 1.0, min_norm=0.1)),
        "offset": draw(st.one_of(num(0.0, 3.0), num(0.01, 8.0))),
        "free": draw(vec(dim, -8.0, 8.0)),
        "weight": draw(st.one_of(st.just(1.0), num(0.05, 1.0))),
        "turn": draw(angle()) if dim == 2 else draw(vec(3, -3.0, 3.0)),
        "move": draw(vec(dim, -5.0, 5.0)),
        "dynamics": draw(st.sampled_from(["linear", "wavy", "wavy", "circular"])),
        "stretch": draw(num(0.2, 1.5)),
        "deviation": draw(num(-1.2, 1.2)),
        "further": draw(num(0.05, 5.0)),
    }


def scene(case, pose_map=None):
    obs = build_obstacle(case["obs"])
    attractor = surface_point(obs, arr(case["att_dir"]), case["att_dist"])
    center = np.array(obs.center_position)
    direction = arr(case["direction"])
    where = case["where"]
    to_obs = center - attractor
    if where == "around":
        position = surface_point(obs, direction, case["offset"])
    elif where == "surface":
        position = surface_point(obs, direction)
    elif where == "inside":
        surface = surface_point(obs, direction)
        position = center + (surface - center) * min(case["offset"] / 8.1, 0.99)
    elif where == "behind":
        surface = surface_point(obs, obs.pose.transform_direction_to_relative(to_obs))
        position = surface + unit(to_obs) * case["offset"]
    elif where == "attractor":
        position = attractor.copy()
    elif where == "opposite":
        position = attractor - unit(to_obs) * (case["offset"] + 0.1)
    else:
        position = center + arr(case["free"])
    if pose_map is not None:
        mat, move = pose_map
        obs = build_obstacle(case["obs"], pose_map=pose_map)
        attractor, position = mat @ attractor + move, mat @ position + move
    return obs, attractor, position


def bisect_radius(obs, direction):
    """Distance of the surface along the (local) unit direction."""
    low, high = 0.0, 20.0
    for _ in range(60):
        mid = (low + high) / 2
        if obs.get_gamma(direction * mid, in_obstacle_frame=True) < 1 - 1e-13:
            low = mid
        else:
            high = mid
    return (low + high) / 2


def check_scale(case):
    obs, attractor, position = scene(case)
    dim, weight = case["dim"], case["weight"]
    dynamics = ProjectedRotationDynamics(attractor_position=attractor, obstacle=obs)
    local = obs.pose.transform_position_to_relative(position)
    norm = np.linalg.norm(local)
    discard_unless(norm > 1e-3)
    radius = bisect_radius(obs, local / norm)
    discard_unless(abs(norm - radius) > 1e-6)
    before, before_global = local.copy(), position.copy()
    kwargs = dict(deflation_weight=weight)
    shrunk = dynamics._get_position_after_deflating_obstacle(local, in_obstacle_frame=True, **kwargs)
    shrunk_global = dynamics._get_position_after_deflating_obstacle(position, in_obstacle_frame=False, **kwargs)
    require(is_vector(shrunk, dim) and is_vector(shrunk_global, dim), "Not a position")
    require(
        close(shrunk_global, obs.pose.transform_position_from_relative(shrunk), 1e-6),
        "Global and local frame differ",
        local=shrunk,
        globl=shrunk_global,
    )
    if norm < radius:
        require(close(shrunk, np.zeros(dim), 1e-9), "Inside is not mapped onto the center", got=shrunk)
    else:
        require(
            close(shrunk, local / norm * (norm - weight * radius), 1e-5),
            "Not moved inwards by the radius",
            got=shrunk,
            radius=radius,
        )
        if norm - weight * radius > 1e-4:
            restored = dynamics._get_position_after_inflating_obstacle(shrunk, in_obstacle_frame=True, **kwargs)
            require(close(restored, local, 1e-5), "Inflating is not the inverse", got=restored, want=local)
            restored = dynamics._get_position_after_inflating_obstacle(shrunk_global, in_obstacle_frame=False, **kwargs)
            require(close(restored, position, 1e-5), "Inflating is not the inverse", got=restored, want=position)
    inflated = dynamics._get_position_after_inflating_obstacle(local, in_obstacle_frame=True, **kwargs)
    require(
        close(inflated, local / norm * (norm + weight * radius), 1e-5),
        "Not moved outwards by the radius",
        got=inflated,
    )
    require(
        obs.get_gamma(dynamics._get_position_after_inflating_obstacle(local), in_obstacle_frame=True) >= 1 - 1e-6,
        "Inflated position is inside",
    )
    center = dynamics._get_position_after_inflating_obstacle(np.zeros(dim), in_obstacle_frame=True)
    require(abs(obs.get_gamma(center, in_obstacle_frame=True) - 1) < 1e-3, "Center is not inflated to the surface", got=center)
    require(close(before, local, 0) and close(before_global, position, 0), "Position modified")
    return ["outside" if norm > radius else "trivial"]


def check_fold(case):
    obs, attractor, position = scene(case)
    dim = case["dim"]
    dynamics = ProjectedRotationDynamics(attractor_position=attractor, obstacle=obs)
    center = np.array(obs.center_position)
    local = obs.pose.transform_position_to_relative(position)
    local_attractor = obs.pose.transform_position_to_relative(attractor)
    dist = np.linalg.norm(local_attractor)
    discard_unless(dist > 0.2)
    rel = local - local_attractor
    discard_unless(np.linalg.norm(rel) > 1e-2)
    off = angle_between(rel, -local_attractor)
    discard_unless(off < math.pi - 0.02)
    before, before_attractor = local.copy(), local_attractor.copy()
    folded = dynamics._get_folded_position_opposite_kernel_point(local, local_attractor, in_obstacle_frame=True)
    require(is_vector(folded, dim), "Not a position", folded=folded)
    keep = folded.copy()
    restored = dynamics._get_unfolded_position_opposite_kernel_point(folded, local_attractor, in_obstacle_frame=True)
    require(close(folded, keep, 0), "Folded position modified")
    scale = max(1.0, np.linalg.norm(rel))
    require(
        close(restored, local, 3e-4 * scale),
        "Unfolding is not the inverse of folding",
        got=restored,
        want=local,
        folded=folded,
    )
    require(close(before, local, 0) and close(before_attractor, local_attractor, 0), "Input modified")
    # The obstacle center stays, the line through attractor and obstacle is kept
    origin = dynamics._get_folded_position_opposite_kernel_point(np.zeros(dim), local_attractor, in_obstacle_frame=True)
    require(close(origin, np.zeros(dim), 1e-6), "Center is moved", got=origin)
    # Further away from the attractor and further off the axis are kept apart
    far = dynamics._get_folded_position_opposite_kernel_point(
        local_attractor + 2 * rel, local_attractor, in_obstacle_frame=True
    )
    axis = -local_attractor / dist

    def along(value):
        value = value.copy()
        value[0] = value[0] / dist
        return value @ axis

    require(along(far) > along(folded) - 1e-9, "Distance to the attractor is not kept in order")
    return ["" if off > 1e-2 else "trivial"]


def check_weight(case):
    obs, attractor, position = scene(case)
    dim = case["dim"]
    dynamics = ProjectedRotationDynamics(attractor_position=attractor)
    level, level_attractor = gamma(obs, position), gamma(obs, attractor)
    discard_unless(abs(level_attractor - 1) > 1e-6)
    if case["where"] != "surface":
        discard_unless(abs(level - 1) > 1e-6)
    before, before_attractor = position.copy(), attractor.copy()
    weight = dynamics.evaluate_projected_weight(position, obs)
    require(np.isfinite(weight) and 0 <= weight <= 1, "Weight out of range", weight=weight)
    require(close(before, position, 0) and close(before_attractor, attractor, 0), "Input modified")
    if level < 1 or case["where"] == "surface":
        require(weight > 1 - 1e-2, "No full weight on the surface or inside", weight=weight)
        if level < 1:
            projected = dynamics.get_projected_position(position)
            require(close(projected, position, 1e-9), "Position inside is projected", got=projected)
        return ["trivial"]
    labels = ["outside"]
    projected = dynamics.get_projected_position(position)
    if level_attractor < 1:
        require(close(projected, position, 1e-9), "Projected although the attractor is inside", got=projected)
        labels = ["trivial"]
    else:
        if np.all(np.isfinite(projected)) and np.max(np.abs(projected)) < 1e8:
            level_projected = gamma(obs, projected)
            require(level_projected > 1 - 1e-6, "Projected into the obstacle", got=projected)
            away = (level_projected - 1) * (level - 1)
            for limit, bound in ((0.1, 0.99), (1.0, 0.9), (100.0, 0.5)):
                require(
                    away < limit or weight < bound,
                    "Does not decrease outside of the obstacle",
                    weight=weight,
                    gamma=level,
                    projected=level_projected,
                )
            require(away > 1e-5 or weight > 0.97, "Jump at the surface", weight=weight, gamma=level)
        if case["where"] == "attractor" and level_attractor > 1.01:
            require(weight < 1e-3, "Influence at the attractor", weight=weight)
        if case["where"] == "opposite" and min(level_attractor, level) > 1.01:
            require(weight < 1e-2, "Influence opposite of the obstacle", weight=weight)
    if case["where"] == "behind":
        axis = unit(np.array(obs.center_position) - attractor) if level_attractor > 1 else None
        if axis is not None:
            further = dynamics.evaluate_projected_weight(position + case["further"] * axis, obs)
            require(further <= weight + 1e-6, "Grows with the distance", weight=weight, further=further)
            if case["att_dist"] > 0.2:
                far = dynamics.evaluate_projected_weight(position + 1e4 * axis, obs)
                require(far < 0.06, "Influence far away", far=far)
    # Frame
    mat = rot2(case["turn"]) if dim == 2 else Rotation.from_rotvec(arr(case["turn"])).as_matrix()
    rel, to_obs = position - attractor, np.array(obs.center_position) - attractor
    if np.linalg.norm(rel) > 1e-3 and angle_between(rel, to_obs) < math.pi - 1e-2:
        obs2, attractor2, position2 = scene(case, (mat, arr(case["move"])))
        moved = ProjectedRotationDynamics(attractor_position=attractor2).evaluate_projected_weight(position2, obs2)
        require(abs(moved - weight) < 1e-4, "Depends on the frame", got=moved, want=weight)
    return labels


def initial_dynamics(case, attractor):
    if case["dynamics"] == "linear" or case["dim"] != 2:
        return LinearSystem(attractor_position=attractor)
    if case["dynamics"] == "wavy":
        return WavyLinearDynamics(
            attractor_position=attractor,
            distance_strech_factor=case["stretch"],
            maximum_deviation=case["deviation"],
        )
    return SimpleCircularDynamics(pose=Pose(attractor), radius=1.0 + case["stretch"])


def signed(a, b):
    return math.atan2(a[0] * b[1] - a[1] * b[0], a @ b)


def check_converge(case):
    obs, attractor, position = scene(case)
    dim = case["dim"]
    reference = np.array(obs.global_reference_point)
    to_obs, rel = attractor - reference, attractor - position
    discard_unless(np.linalg.norm(to_obs) > 0.05)
    initial = initial_dynamics(case, attractor)
    dynamics = ProjectedRotationDynamics(attractor_position=attractor, initial_dynamics=initial)
    level = gamma(obs, position)
    velocity, at_obs = initial.evaluate(position), initial.evaluate(reference)
    initial_seq = evaluate_dynamics_sequence(position, initial)
    at_attractor = np.linalg.norm(rel) == 0
    discard_unless(at_attractor or np.linalg.norm(rel) > 1e-2)
    if at_attractor:
        require(dynamics.evaluate_rotation_position_to_transform(position, obs) is None, "Rotation at the attractor")
        value = dynamics.evaluate_convergence_around_obstacle(position, obs)
        require(close(value, velocity, 1e-9), "Not the initial velocity at the attractor", got=value)
        return ["trivial"]
    off = angle_between(rel, to_obs)
    discard_unless(off < math.pi - 0.02)
    dev, dev_obs = angle_between(velocity, rel), angle_between(at_obs, to_obs)
    discard_unless(dev < math.pi - 0.02 and dev_obs < math.pi - 0.02)
    for rotation in (
        dynamics.evaluate_rotation_position_to_transform(position, obs),
        dynamics.evaluate_rotation_start_to_end(start=position, end=reference, center=attractor),
    ):
        require(rotation is not None, "No rotation away from the attractor")
        require(
            close(rotation.rotate(unit(rel)), unit(to_obs), 1e-6),
            "Does not rotate onto the direction from the reference to the attractor",
        )
    weight = dynamics.evaluate_projected_weight(position, obs)
    value = dynamics.evaluate_convergence_around_obstacle(position, obs)
    require(is_vector(value, dim), "Not a velocity", value=value)
    speed = np.linalg.norm(velocity)
    require(abs(np.linalg.norm(value) - speed) < 1e-6 * max(speed, 1), "Speed", value=value)
    if level < 1:
        require(
            close(value / speed, unit(at_obs), 1e-5),
            "Inside: not the velocity at the reference point",
            got=value / speed,
            want=unit(at_obs),
        )
    mixed = dynamics.compute_obstacle_convergence_sequence(position, obs, initial_seq)
    require(
        close(mixed.basis_array[:, 0, 0], unit(rel), 1e-6) or weight <= 0,
        "Mixed sequence does not start towards the attractor",
    )
    around = dynamics.evaluate_convergence_sequence_around_obstacle(position, obs, initial_seq)
    require(
        close(around.basis_array[:, 0, 0], unit(rel), 1e-6)
        and close(around.get_end_vector(), unit(at_obs), 2e-5),
        "Sequence around the obstacle",
        end=around.get_end_vector(),
        want=unit(at_obs),
    )
    if dim == 2:
        # Angles are added up, from the attractor directions on
        turn = signed(rel, to_obs)
        delta = signed(to_obs, at_obs) - signed(rel, velocity)
        if abs(abs(delta) - math.pi) > 0.05:
            want = rot2(weight * (turn + wrap(delta))) @ velocity
            require(
                close(value, want, 2e-5 * max(speed, 1)),
                "Not the weighted angle between initial and obstacle velocity",
                got=value,
                want=want,
                weight=weight,
            )
        if abs(delta) < math.pi - 0.05:
            want = rot2(weight * (turn + delta)) @ velocity
            require(
                close(mixed.get_end_vector(), unit(want), 2e-5),
                "Mixed sequence: not the weighted angle",
                got=mixed.get_end_vector(),
                want=unit(want),
            )
    else:
        if weight > 1 - 1e-9:
            require(close(mixed.get_end_vector(), unit(at_obs), 1e-5), "Mixed sequence at full weight")
        require(
            angle_between(value, velocity) <= weight * (off + dev + dev_obs) + 1e-4,
            "Turned further than the weight",
        )
    return ["" if 1e-3 < weight < 1 - 1e-3 and off > 1e-2 else "trivial"]


SUBS = [
    Sub("scale", case_strategy(), check_scale, quick=500, shards=2, thorough=15000),
    Sub("fold", case_strategy(), check_fold, quick=600, thorough=20000),
    Sub("weight", case_strategy(), check_weight, quick=1000, shards=2, thorough=30000),
    Sub("converge", case_strategy(shift=True), check_converge, quick=800, shards=3, thorough=20000),
]
