"""C14: circular limit cycles, moving and spiraling dynamics."""
import copy
import math

import numpy as np

from lib.gen import angle, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import arr, close, is_vector, random_rotation, rot2, unit

from scipy.spatial.transform import Rotation

from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import ObjectPose, Pose

from nonlinear_avoidance.dynamics.circular_dynamics import (
    CircularRotationDynamics,
    DynamicDynamics,
    SimpleCircularDynamics,
)
from nonlinear_avoidance.dynamics.spiral_dynamics import SpiralingDynamics3D

PROPERTY = "C14"
RULE = (
    "Poses in the plane and in space, radii 0.1 to 5, speeds 0.1 to 5, approaching "
    "factors 0.2 to 15, positions up to 30 radii away including the center, the circle "
    "and the axis. Non-trivial: off the center and off the circle."
)


@st.composite
def circle_case(draw, dim=None):
    dim = dim or draw(st.sampled_from([2, 2, 3]))
    return {
        "dim": dim,
        "center": draw(vec(dim, -4.0, 4.0)),
        "rot": draw(angle()) if dim == 2 else draw(vec(3, -3.0, 3.0)),
        "via": draw(st.sampled_from(["pose", "pose", "matrix", "matrix_pose"])),
        "radius": draw(st.one_of(num(0.1, 5.0), st.just(1.0))),
        "speed": draw(st.one_of(num(0.1, 5.0), st.just(1.0))),
        # Position in the frame of the circle, in multiples of its radius
        "r": draw(
            st.one_of(
                st.just(0.0), st.just(1.0), num(0.0, 0.4), num(0.0, 2.0), num(0.0, 30.0)
            )
        ),
        "phi": draw(angle()),
        "z": draw(st.one_of(st.just(0.0), num(-0.3, 0.3), num(-5.0, 5.0))),
        "scale": draw(num(0.2, 5.0)),
        "move": draw(vec(dim, -5.0, 5.0)),
        "turn": draw(angle()) if dim == 2 else draw(vec(3, -3.0, 3.0)),
        "outside": draw(num(0.2, 15.0)),
        "inside": draw(num(0.2, 15.0)),
        "direction": draw(st.sampled_from([1, -1])),
        "further": draw(num(1.0, 3.0)),
    }


def matrix(rot):
    return rot2(rot) if isinstance(rot, float) else Rotation.from_rotvec(arr(rot)).as_matrix()


def orientation(mat):
    if len(mat) == 2:
        return math.atan2(mat[1, 0], mat[0, 0])
    return Rotation.from_matrix(mat)


def local_position(case):
    local = case["r"] * np.array([math.cos(case["phi"]), math.sin(case["phi"])])
    if case["dim"] == 3:
        local = np.append(local, case["z"])
    return local * case["radius"]


def simple(case, mat, center, radius=None):
    kwargs = dict(radius=radius or case["radius"], maximum_velocity=case["speed"])
    if case["via"] == "pose" or case["dim"] == 2:
        return SimpleCircularDynamics(
            pose=ObjectPose(np.array(center), orientation(mat)), **kwargs
        )
    if case["via"] == "matrix" and not np.any(center):
        return SimpleCircularDynamics(base_matrix=np.array(mat), **kwargs)
    return SimpleCircularDynamics(
        base_matrix=np.array(mat), pose=ObjectPose(np.array(center)), **kwargs
    )


def check_simple(case):
    dim, radius, speed = case["dim"], case["radius"], case["speed"]
    mat, center = matrix(case["rot"]), arr(case["center"])
    if case["via"] == "matrix":
        center = np.zeros(dim)
    local = local_position(case)
    position = center + mat @ local
    dynamics = simple(case, mat, center)
    require(close(dynamics.attractor_position, center, 1e-12), "Center is the attractor")
    before = position.copy()
    value = dynamics.evaluate(position)
    require(close(before, position, 0), "Position modified")
    require(is_vector(value, dim), "Not a velocity", value=value)
    velocity = mat.T @ value

    dist = np.linalg.norm(local)
    want = speed * min(1.0, dist / (radius / 3))
    require(
        abs(np.linalg.norm(velocity) - want) < 1e-6 * max(speed, 1),
        "Speed",
        got=np.linalg.norm(velocity),
        want=want,
    )
    discard_unless(dist == 0 or dist > 1e-6 * radius)
    labels = []
    if dist:
        r = np.linalg.norm(local[:2])
        if r > 1e-6 * radius:
            normal = local[:2] / r
            tangent = np.array([-normal[1], normal[0]])
            require(velocity[:2] @ tangent > 0, "Not turning counterclockwise", v=velocity)
            radial = velocity[:2] @ normal
            if abs(r - radius) < 1e-9 * radius:
                require(abs(radial) < 1e-3 * speed, "Leaves the circle", v=velocity)
                labels.append("circle")
            elif abs(r - radius) > 1e-6 * radius:
                require((radial > 0) == (r < radius), "Not towards the circle", v=velocity)
        elif r == 0 and not np.any(arr(case["rot"])):
            require(close(velocity[:2], np.zeros(2), 1e-9), "Leaves the axis", v=velocity)
        if dim == 3:
            if abs(local[2]) > 1e-6:
                require(velocity[2] * local[2] < 0, "Not towards the plane", v=velocity)
            elif local[2] == 0:
                require(abs(velocity[2]) < 1e-6 * speed, "Leaves the plane", v=velocity)
    if dist and np.linalg.norm(local[:2]) < 1e-6 * radius:
        return ["axis"]  # The sense of rotation is undefined
    # Moves along with its pose
    turn, move = matrix(case["turn"]), arr(case["move"])
    if case["via"] == "matrix":
        move = -turn @ center
    other = simple(case, turn @ mat, turn @ center + move)
    moved = other.evaluate(turn @ position + move)
    require(
        close(moved, turn @ value, 1e-5 * max(speed, 1)),
        "Velocity does not move along with the pose",
        got=moved,
        want=turn @ value,
    )
    # Same shape for all radii
    scale = case["scale"]
    other = simple(case, mat, center, radius=radius * scale)
    moved = other.evaluate(center + mat @ local * scale)
    require(close(moved, value, 1e-5 * max(speed, 1)), "Depends on the radius", got=moved, want=value)
    # Follows a later change of its pose (as done for moving dynamics)
    dynamics.pose.position = center + arr(case["move"])
    moved = dynamics.evaluate(position + arr(case["move"]))
    require(close(moved, value, 1e-5 * max(speed, 1)), "Ignores the new position", got=moved, want=value)
    if not dist:
        labels.append("center")
    elif labels:
        labels.append("trivial")
    return labels or [f"{dim}d"]


def rotating(case, mat, center, base=None):
    return CircularRotationDynamics(
        radius=case["radius"],
        constant_velocity=case["speed"],
        outside_approaching_factor=case["outside"],
        inside_approaching_factor=case["inside"],
        direction=case["direction"],
        pose=None if center is None else ObjectPose(np.array(center), orientation(mat)),
        base_matrix=base,
    )


def check_rotating(case):
    radius, speed = case["radius"], case["speed"]
    mat, center = matrix(case["rot"]), arr(case["center"])
    local = local_position(case)
    r = np.linalg.norm(local)
    discard_unless(r == 0 or r > 1e-6 * radius)
    if case["via"] == "pose":
        dynamics = rotating(case, mat, center)
    elif case["via"] == "matrix":
        center = np.zeros(2)
        dynamics = rotating(case, None, None, base=mat)
    else:
        dynamics = rotating(case, np.eye(2), center, base=mat)
    position = center + mat @ local
    discard_unless(r == 0 or np.linalg.norm(position - center) > 0)
    before = position.copy()
    value = dynamics.evaluate(position)
    require(close(before, position, 0), "Position modified")
    require(is_vector(value, 2), "Not a velocity", value=value)
    if r == 0:
        # Rounding of the position may leave the exact center
        if np.linalg.norm(position - center) == 0 and case["via"] != "matrix_pose":
            require(close(value, np.zeros(2), 1e-12), "Not zero at the center", v=value)
        return ["trivial"]
    velocity = mat.T @ value
    require(abs(np.linalg.norm(velocity) - speed) < 1e-6 * speed, "Speed", v=velocity)
    normal = local / r
    tangent = case["direction"] * np.array([-normal[1], normal[0]])
    turning, radial = velocity @ tangent / speed, velocity @ normal / speed
    require(turning > -1e-7, "Turns in the wrong direction", v=velocity, turning=turning)
    labels = []
    rel = r / radius
    if abs(rel - 1) < 1e-9:
        require(turning > 1 - 1e-6 and abs(radial) < 1e-6, "Leaves the circle", v=velocity)
        labels = ["trivial"]
    elif abs(rel - 1) > 1e-5:
        require((radial > 0) == (rel < 1), "Not towards the circle", v=velocity)
    # Share of the rotation: falls to zero at the center, grows to two far away
    weight = dynamics.get_rotation_weight(local)
    require(0 < weight < 2, "Weight out of range", weight=weight)
    require(
        abs(math.cos(weight * math.pi / 2) - radial) < 1e-6, "Weight and velocity", w=weight
    )
    further = dynamics.get_rotation_weight(local * case["further"])
    require(further >= weight, "Weight is not increasing", weight=weight, further=further)
    if (rel - 1) * case["outside"] > 20:
        require(close(velocity / speed, -normal, 1e-5), "Far away: not inwards", v=velocity)
    if rel < 1 and (1 / rel - 1) * case["inside"] > 20:
        require(close(velocity / speed, normal, 1e-5), "Center: not outwards", v=velocity)
    # Moves along with its pose
    turn, move = matrix(case["turn"]), arr(case["move"])
    other = rotating(case, turn @ mat, turn @ center + move)
    moved = other.evaluate(turn @ position + move)
    require(close(moved, turn @ value, 1e-5 * speed), "Does not move along", got=moved, want=turn @ value)
    return labels or ["inside" if rel < 1 else "outside"]


def check_trajectory(case):
    """Every trajectory approaches the circle and stays close to it."""
    dim, radius, speed = case["dim"], case["radius"], case["speed"]
    rotating_kind = dim == 2 and case["via"] == "matrix_pose"
    mat, center = matrix(case["rot"]), arr(case["center"])
    case = {**case, "via": "pose", "r": min(case["r"], 5.0), "z": case["z"] / 2}
    discard_unless(case["r"] > 0.05)
    if rotating_kind:
        dynamics = rotating(case, mat, center)
    else:
        dynamics = simple(case, mat, center)
    position = center + mat @ local_position(case)
    step = 0.02 * radius / speed
    angle_sum, last = 0.0, None
    off = None
    n_steps = 1500
    for ii in range(n_steps):
        velocity = dynamics.evaluate(position)
        require(is_vector(velocity, dim), "Not finite", position=position)
        position = position + step * velocity
        local = mat.T @ (position - center) / radius
        now = math.hypot(math.hypot(local[0], local[1]) - 1, local[2] if dim == 3 else 0)
        if off is not None:
            require(
                now < max(off + 1e-3, 0.05),
                "Departs from the circle",
                before=off,
                after=now,
                step=ii,
            )
        off = now
        heading = math.atan2(local[1], local[0])
        if last is not None and math.hypot(local[0], local[1]) > 0.05:
            delta = (heading - last + math.pi) % (2 * math.pi) - math.pi
            angle_sum += delta
        last = heading
    limit = 0.05
    if rotating_kind:
        # The rate of convergence is given by the approaching factor
        factor = min(case["outside"], case["inside"])
        limit = 0.05 + 6 * math.exp(-30 * 0.25 * min(factor, 4) / 4 * 0.8) / 1
        limit = max(limit, 0.05)
    require(off < limit, "Does not arrive at the circle", off=off)
    sense = case["direction"] if rotating_kind else 1
    require(sense * angle_sum > 2 * math.pi, "Does not keep turning", angle=angle_sum)
    return ["rotating" if rotating_kind else f"simple{dim}d"]


# --- Moving base -----------------------------------------------------------------
@st.composite
def moving_case(draw):
    return {
        "circle": draw(circle_case(dim=2)),
        "influence": draw(num(0.3, 4.0)),
        "frequency": draw(st.sampled_from([10.0, 50.0, 100.0, 7.0])),
        "decent": draw(st.one_of(st.just(None), num(1.2, 4.0))),
        "base": draw(st.sampled_from(["constant", "linear"])),
        "vector": draw(vec(2, -3.0, 3.0)),
        "steps": draw(
            st.lists(
                st.fixed_dictionaries({"r": num(0.0, 5.0), "phi": angle()}),
                min_size=1,
                max_size=5,
            )
        ),
    }


def check_moving(case):
    circle = case["circle"]
    main = simple({**circle, "via": "pose"}, matrix(circle["rot"]), arr(circle["center"]))
    if case["base"] == "constant":
        base = ConstantValue(velocity=arr(case["vector"]))
    else:
        base = LinearSystem(attractor_position=arr(case["vector"]))
    dynamics = DynamicDynamics(
        main_dynamics=main,
        dynamics_of_base=base,
        influence_radius=case["influence"],
        frequency=case["frequency"],
    )
    if case["decent"] is not None:
        dynamics.decent_factor = case["decent"]
    decent = dynamics.decent_factor
    moved = False
    local = local_position(circle)
    for step in case["steps"]:
        center = np.array(dynamics.position)
        field = dynamics.evaluate(center + local)
        position = center + step["r"] * np.array([math.cos(step["phi"]), math.sin(step["phi"])])
        dist = np.linalg.norm(position - center) / case["influence"]
        weight = min(1.0, max(0.0, (decent - dist) / (decent - 1)))
        before = position.copy()
        dynamics.update_base(position)
        require(close(before, position, 0), "Position modified")
        want = center + weight / case["frequency"] * base.evaluate(center)
        require(
            close(dynamics.position, want, 1e-8),
            "Wrong displacement of the base",
            got=dynamics.position,
            want=want,
            weight=weight,
        )
        after = dynamics.evaluate(want + local)
        require(close(after, field, 1e-4), "Field does not move along", got=after, want=field)
        require(
            close(dynamics.evaluate(position), main.evaluate(position), 1e-12),
            "Not the main dynamics",
        )
        moved = moved or 0 < weight < 1
    return ["fading" if moved else "trivial"]


# --- Spiral ------------------------------------------------------------------------
@st.composite
def spiral_case(draw):
    return {
        "center": draw(vec(3, -4.0, 4.0)),
        "direction": draw(nonzero_vec(3, -3.0, 3.0, min_norm=0.1)),
        "radius": draw(num(0.2, 4.0)),
        "speed": draw(num(0.1, 5.0)),
        "r": draw(st.one_of(st.just(0.0), st.just(1.0), num(0.0, 3.0), num(0.0, 10.0))),
        "side": draw(nonzero_vec(3)),
        "along": draw(num(-5.0, 5.0)),
        "move": draw(vec(3, -5.0, 5.0)),
        "shift": draw(num(-5.0, 5.0)),
    }


def check_spiral(case):
    center, direction = arr(case["center"]), arr(case["direction"])
    axis = unit(direction)
    side = arr(case["side"])
    side = side - axis * (side @ axis)
    discard_unless(np.linalg.norm(side) > 1e-2)
    side = unit(side)
    radius, speed = case["radius"], case["speed"]
    discard_unless(case["r"] == 0 or case["r"] > 1e-4)

    def create(center):
        return SpiralingDynamics3D.create_from_direction(
            center=center, direction=direction.copy(), radius=radius, speed=speed
        )

    dynamics = create(center)
    position = center + axis * case["along"] + side * case["r"] * radius
    value = dynamics.evaluate(position)
    require(is_vector(value, 3), "Not a velocity", value=value)
    require(abs(np.linalg.norm(value) - speed) < 1e-6 * speed, "Speed", v=value)
    along, radial = value @ axis, value @ side
    turning = value @ np.cross(axis, side)
    require(along > 0, "Not progressing along the direction", v=value)
    if case["r"] == 0:
        require(close(value, axis * speed, 1e-5 * speed), "On the axis", v=value)
    else:
        require(turning > 0, "Not turning around the axis", v=value)
        if abs(case["r"] - 1) < 1e-9:
            require(abs(radial) < 1e-3 * speed, "Leaves the cylinder", v=value)
        elif abs(case["r"] - 1) > 1e-5:
            require((radial > 0) == (case["r"] < 1), "Not towards the cylinder", v=value)
        if case["r"] > 0.34:
            # A rotation with unit speed next to the constant direction
            ratio = along / math.hypot(radial, turning)
            require(abs(ratio - np.linalg.norm(direction)) < 1e-4 * max(ratio, 1), "Ratio", ratio=ratio)
    for other, pos in (
        (dynamics, position + axis * case["shift"]),
        (create(center + arr(case["move"])), position + arr(case["move"])),
    ):
        moved = other.evaluate(pos)
        require(close(moved, value, 1e-4 * speed), "Not translation invariant", got=moved, want=value)
    conv = dynamics.evaluate_convergence_around_obstacle(position, None)
    require(close(unit(conv), axis, 1e-9), "Convergence along the direction", got=conv)
    return ["" if case["r"] else "trivial"]


SUBS = [
    Sub("simple", circle_case(), check_simple, quick=1200, shards=2, thorough=40000),
    Sub("rotating", circle_case(dim=2), check_rotating, quick=1000, shards=2, thorough=40000),
    Sub("trajectory", circle_case(), check_trajectory, quick=96, shards=3, thorough=2400),
    Sub("moving", moving_case(), check_moving, quick=400, thorough=10000),
    Sub("spiral", spiral_case(), check_spiral, quick=500, thorough=20000),
]
