"""C24: convergence, hidden parts and repulsion of the multi-body avoidance."""
import math

import numpy as np

from checks.c12 import (
    at_corner,
    attractor_outside,
    make_avoider,
    make_dynamics,
    other_gammas,
    scene_case,
)
from lib.gen import angle, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, plane_rotation, rot2, unit
from lib.scene import (
    LinearSystem,
    Pose,
    build_obstacle,
    build_tree,
    direction2,
    gamma,
    normal,
    obstacle_case,
    surface_point,
    tree_case,
)

from scipy.spatial.transform import Rotation

from nonlinear_avoidance.avoidance import RotationalAvoider
from nonlinear_avoidance.dynamics import SimpleCircularDynamics, WavyLinearDynamics
from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_avoider import (
    MultiObstacleAvoider,
    get_limited_weights_to_max_sum,
)
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer

PROPERTY = "C24"
RULE = (
    "One to three trees of up to four overlapping ellipses / boxes in the plane, single bodies "
    "also in space; linear, wavy, circular and constant initial dynamics, with and without "
    "default dynamics; attractors at any distance from and inside of the bodies. "
    "Non-trivial: partial weight of a body, a part which is partially hidden, respectively a "
    "position inside."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]


def signed(a, b):
    return math.atan2(a[0] * b[1] - a[1] * b[0], a @ b)


# --- Convergence -------------------------------------------------------------------
@st.composite
def converge_case(draw):
    case = draw(scene_case())
    case["distance"] = draw(st.one_of(st.just(1e-9), num(0.001, 0.5), num(0.01, 4.0), num(1.0, 15.0)))
    case["default"] = draw(st.one_of(st.just(None), st.just(None), num(-1.0, 1.0)))
    return case


def chain_angle(directions):
    """Total angle of the smallest rotations along a chain (None if it is not unique)."""
    total = 0.0
    for start, end in zip(directions[:-1], directions[1:]):
        step = signed(start, end)
        if abs(step) > math.pi - 0.03:
            return None
        total += step
    return total


def check_converge(case):
    trees = [build_tree(item) for item in case["trees"]]
    index = case["component"] % len(trees[0])
    body = trees[0].get_component(index)
    position = surface_point(body, direction2(case["phi"]), case["distance"])
    on_surface = case["distance"] < 1e-6
    attractor_outside(case, trees, margin=1.01)
    dynamics, reference = make_dynamics(case)
    converging = case["dynamics"] != "constant"
    attractor = arr(case["attractor"])
    if converging:
        discard_unless(np.linalg.norm(attractor - position) > 0.05)
    default = None
    if case["default"] is not None and converging:
        default = WavyLinearDynamics(
            attractor_position=attractor, maximum_deviation=case["default"]
        )
    avoider = make_avoider(case, trees, dynamics, reference, default_dynamics=default)
    at_root = dynamics if default is None else default
    initial = dynamics.evaluate(position)
    discard_unless(np.linalg.norm(initial) > 1e-3)
    before = position.copy()

    def base(point):
        return attractor - point if converging else dynamics.evaluate(point)

    # Reference: rotations are angles in the plane
    start = base(position)
    init_angle = chain_angle([start, initial])
    discard_unless(init_angle is not None)
    weights, angles, labels = [], [], set()
    full_bodies = []
    for tree in trees:
        level = tree.get_gamma(attractor) if converging else 9.0
        share = min(max(level - 1.0, 0.0), 1.0)
        require(
            abs(avoider.compute_tree_weight(tree) - share) < 1e-9,
            "Weight of a tree (distance to the attractor)",
            got=avoider.compute_tree_weight(tree),
            want=share,
        )
        if share < 1:
            labels.add("close-attractor")
        root_point = tree.get_root().get_reference_point(in_global_frame=True)
        goal = at_root.evaluate(root_point)
        discard_unless(np.linalg.norm(goal) > 1e-3 and np.linalg.norm(base(root_point)) > 0.02)
        for ii, part in enumerate(tree):
            projected = avoider.convergence_dynamics.evaluate_projected_weight(position, part)
            discard_unless(ii == 0 or abs(projected - 0.01) > 1e-6)
            chain, jj = [start], ii
            while jj is not None:
                point = tree.get_component(jj).get_reference_point(in_global_frame=True)
                discard_unless(np.linalg.norm(base(point)) > 0.02)
                chain.append(base(point))
                jj = tree.get_parent_idx(jj)
            chain.append(goal)
            total = chain_angle(chain if converging else [start, goal])
            discard_unless(total is not None)
            if ii == 0:
                # The root is approached smoothly from the initial dynamics
                total = (1 - projected) * init_angle + projected * total
                if not projected > 1e-6:
                    continue
            elif projected <= 0.01:
                continue
            if projected * share >= 1 - 1e-12:
                full_bodies.append(goal)
            if len(chain) > 4 and projected * share > 0.02:
                labels.add("deep")
            weights.append(projected * share)
            angles.append(total)
    limited, total_weight = get_limited_weights_to_max_sum(weights + [0.0])
    final = sum(ww * aa for ww, aa in zip(limited, angles)) + (1 - total_weight) * init_angle
    want = rot2(final) @ unit(start)

    got = avoider.compute_convergence_direction(position)
    require(close(before, position, 0), "Position modified")
    require(is_vector(got, 2) and abs(np.linalg.norm(got) - 1) < 1e-6, "Not a direction", got=got)
    if not any(ww > 1e-9 for ww in weights):
        require(close(got, unit(initial), 1e-6), "Not the initial direction", got=got)
    spread = angles + [init_angle]
    discard_unless(max(spread) - min(spread) < math.pi - 0.05)
    discard_unless(all(abs(a) < 3.0 for a in spread))
    require(
        close(got, want, 2e-5),
        "Not the weighted mean of the angles",
        got=got,
        want=want,
        weights=limited,
    )
    if on_surface and len(full_bodies) == 1:
        require(
            close(got, unit(full_bodies[0]), 1e-3),
            "On the surface: not the dynamics at the root",
            got=got,
            want=unit(full_bodies[0]),
        )
        labels.add("surface")
    initial_seq = evaluate_dynamics_sequence(position, dynamics)
    sequence = avoider.compute_convergence_sequence(position, initial_seq)
    require(
        close(sequence.basis_array[:, 0, 0], unit(start), 1e-6)
        and close(sequence.get_end_vector(), got, 1e-9),
        "Sequence: does not start at the reference, or end at the convergence",
    )
    if not any(1e-3 < ww < 1 - 1e-3 for ww in limited) and "surface" not in labels:
        labels.add("trivial")
    return sorted(labels) + [case["dynamics"]]


# --- Single body, also in space ----------------------------------------------------
@st.composite
def single_case(draw):
    dim = draw(st.sampled_from([2, 3]))
    return {
        "dim": dim,
        "obs": draw(obstacle_case(dim)),
        "tail": draw(st.booleans()),
        "direction": draw(nonzero_vec(dim, -1.0, 1.0, min_norm=0.1)),
        "where": draw(st.sampled_from(["outside", "outside", "surface", "inside", "deep"])),
        "distance": draw(num(0.01, 3.0)),
        "fraction": draw(num(0.02, 0.98)),
        "attractor": draw(nonzero_vec(dim, -1.0, 1.0, min_norm=0.1)),
        "attractor_distance": draw(num(0.0, 6.0)),
        "wavy": draw(st.booleans()),
        "deviation": draw(num(-1.2, 1.2)),
        "radius": draw(st.one_of(st.just(math.pi / 2), num(math.pi / 2, math.pi))),
        "limit": draw(st.one_of(st.just(0.8), num(0.05, 0.95), st.just(None))),
        "speed": draw(num(0.2, 3.0)),
    }


def check_single(case):
    dim = case["dim"]
    obs = build_obstacle(case["obs"], tail_effect=case["tail"])
    center = np.array(obs.center_position)
    reference_point = np.array(obs.global_reference_point)
    tree = MultiObstacle(Pose(np.zeros(dim)) if dim == 2 else Pose(np.zeros(3), Rotation.identity()))
    tree.set_root(obs)
    require(close(obs.center_position, center, 1e-9), "Moved by an identity pose")
    direction = arr(case["direction"])
    edge = obs.get_point_on_surface(unit(direction), in_global_frame=False)
    if case["where"] in ("outside", "surface"):
        position = surface_point(obs, direction, case["distance"] if case["where"] == "outside" else 1e-8)
    else:
        position = obs.pose.transform_position_from_relative(edge * case["fraction"])
    level = gamma(obs, position)
    attractor = surface_point(obs, arr(case["attractor"]), case["attractor_distance"])
    discard_unless(np.linalg.norm(attractor - position) > 0.05)
    linear = LinearSystem(attractor_position=attractor, maximum_velocity=case["speed"])
    if case["wavy"] and dim == 2:
        dynamics = WavyLinearDynamics(
            attractor_position=attractor, maximum_deviation=case["deviation"]
        )
    else:
        dynamics = linear
    container = MultiObstacleContainer()
    container.append(tree)
    avoider = MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=container,
        initial_dynamics=dynamics,
        reference_dynamics=linear,
        convergence_radius=case["radius"],
        gamma_maximum_repulsion=case["limit"],
    )
    discard_unless(np.linalg.norm(attractor - reference_point) > 0.05)

    # Convergence radius: the given one outside, up to pi inside
    inside = min(np.linalg.norm(position - center) / np.linalg.norm(edge), 2.0)
    radius = avoider.compute_convergence_radiuses([level], position, tree)
    require(len(radius) == 1, "One radius for each part")
    if case["limit"] is None or level >= 1:
        want = case["radius"]
    elif inside < case["limit"]:
        want = math.pi
    else:
        share = (inside - case["limit"]) / (1 - case["limit"])
        want = share * case["radius"] + (1 - share) * math.pi
    require(abs(radius[0] - want) < 1e-5, "Convergence radius", got=radius, want=want, level=level)

    converging = avoider.compute_convergence_direction(position)
    outwards_reference = obs.get_reference_direction(position, in_global_frame=True)
    discard_unless(np.linalg.norm(position - reference_point) > 1e-3)
    discard_unless(1e-3 < angle_between(converging, outwards_reference) < math.pi - 1e-3)
    # Normal: where the ray from the reference point leaves the body
    away = unit(position - reference_point)
    leave = obs.get_intersection_with_surface(reference_point, away, in_global_frame=True)
    at_leave = normal(obs, leave)
    if case["obs"]["kind"] == "cuboid":
        discard_unless(case["where"] in ("surface", "inside", "deep"))
        discard_unless(not at_corner(obs, leave))
        local = np.abs(obs.pose.transform_position_to_relative(leave)) / obs.semiaxes
        discard_unless(np.sum(local > 1 - 1e-2) == 1)
    discard_unless(angle_between(converging, at_leave) > 1e-3)
    weight = RotationalAvoider.get_rotation_weight(
        normal_vector=normal(obs, position),
        reference_vector=outwards_reference,
        convergence_vector=converging,
        gamma_value=level,
        smooth_continuation_power=avoider.smooth_continuation_power,
    )
    discard_unless(abs(converging @ at_leave) > 1e-4)
    if case["tail"] or converging @ at_leave < 0:
        tangent = RotationalAvoider.get_projected_tangent_from_vectors(
            converging, normal=at_leave, reference=outwards_reference, convergence_radius=math.pi / 2
        )
        full = angle_between(converging, tangent)
        if want > math.pi / 2 + 1e-9:
            repelled = RotationalAvoider.get_projected_tangent_from_vectors(
                converging, normal=at_leave, reference=outwards_reference, convergence_radius=want
            )
        else:
            repelled = tangent
    else:
        full, repelled = 0.0, converging
        tangent = converging
    sequence = avoider.evaluate_avoidance_from_sequence(
        position, evaluate_dynamics_sequence(position, _Fixed(converging))
    )
    got = sequence.get_end_vector()
    require(is_vector(got, dim) and abs(np.linalg.norm(got) - 1) < 1e-6, "Not a direction")
    labels = [case["where"], f"dim{dim}"]
    if level <= 1:
        require(
            close(got, repelled, 1e-4),
            "Not the tangent on the convergence circle",
            got=got,
            want=repelled,
        )
        if case["limit"] is not None and inside < case["limit"] and converging @ at_leave < 0:
            require(close(got, at_leave, 1e-3), "Deep inside: not straight out", got=got, normal=at_leave)
            labels.append("straight-out")
    elif want <= math.pi / 2 + 1e-9:
        expected = plane_rotation(converging, tangent, factor=weight) @ converging if full > 1e-9 else converging
        require(
            close(got, expected, 1e-4),
            "Not turned towards the tangent by the rotation weight",
            got=got,
            want=expected,
            weight=weight,
        )
    elif full > 1e-9 and dim == 2:
        total = signed(converging, tangent) + signed(tangent, repelled)
        expected = rot2(weight * total) @ converging
        require(
            close(got, expected, 1e-4),
            "Not turned towards the convergence circle by the rotation weight",
            got=got,
            want=expected,
            weight=weight,
        )
    velocity = avoider.evaluate(position)
    initial = dynamics.evaluate(position)
    require(
        np.linalg.norm(velocity) <= np.linalg.norm(initial) * (1 + 1e-6),
        "Faster than the initial velocity",
    )
    if np.linalg.norm(velocity) > 1e-6 * np.linalg.norm(initial):
        require(close(unit(velocity), got, 1e-5), "Velocity is not along the avoidance direction")
    return labels + (["trivial"] if full < 1e-3 else [])


class _Fixed:
    def __init__(self, value):
        self.value = value

    def evaluate(self, position):
        return self.value


# --- Hidden parts ------------------------------------------------------------------
@st.composite
def hidden_case(draw):
    return {
        "tree": draw(tree_case(4)),
        "free": draw(vec(2, -6.0, 6.0)),
        "where": draw(st.sampled_from(["free", "behind", "behind", "surface", "far"])),
        "part": draw(st.integers(0, 3)),
        "phi": draw(angle()),
        "distance": draw(num(0.001, 8.0)),
    }


def check_hidden(case):
    tree = build_tree(case["tree"])
    part = case["part"] % len(tree)
    body = tree.get_component(part)
    parent_idx = tree.get_parent_idx(part)
    if case["where"] == "surface":
        position = surface_point(body, direction2(case["phi"]), 0.01 * case["distance"])
    elif case["where"] == "behind" and parent_idx is not None:
        point = body.get_reference_point(in_global_frame=True)
        parent_point = tree.get_component(parent_idx).get_reference_point(in_global_frame=True)
        discard_unless(np.linalg.norm(parent_point - point) > 0.05)
        position = point + unit(parent_point - point) * (case["distance"] + 0.01)
    elif case["where"] == "far":
        position = tree.pose.position + 20 * direction2(case["phi"])
    else:
        position = tree.pose.position + arr(case["free"])
    discard_unless(all(abs(gamma(b, position) - 1) > 1e-6 for b in tree))
    discard_unless(
        all(np.linalg.norm(b.get_reference_point(in_global_frame=True) - position) > 1e-3 for b in tree)
    )
    linear = LinearSystem(attractor_position=np.array([30.0, 30.0]))
    avoider = make_avoider({"convergence": math.pi / 2}, [tree], linear, linear)
    before = position.copy()
    factors = avoider.compute_parent_occlusion_weight(position, tree)
    require(close(before, position, 0), "Position modified")
    require(len(factors) == len(tree) and np.all(np.isfinite(factors)), "One factor for each part", got=factors)
    require(np.all(factors >= 0) and np.all(factors <= 1), "Factor out of range", got=factors)
    partial = False
    for ii, item in enumerate(tree):
        up = tree.get_parent_idx(ii)
        if up is None:
            require(factors[ii] == 1, "The root is hidden", got=factors)
            continue
        parent = tree.get_component(up)
        point = item.get_reference_point(in_global_frame=True)
        away = unit(position - point)
        # Where the ray from the reference point to the position leaves the part
        leave = item.get_intersection_with_surface(point, away, in_global_frame=True)
        discard_unless(leave is not None)
        level = gamma(parent, leave)
        discard_unless(abs(level - 1) > 1e-6)
        if level > 1:
            require(factors[ii] == 1, "Not hidden by the parent", part=ii, got=factors)
            continue
        to_parent = parent.get_reference_point(in_global_frame=True) - point
        if np.linalg.norm(to_parent) < 1e-6:
            continue
        off = angle_between(to_parent, away)
        if off < 1e-9:
            require(factors[ii] < 1e-3, "Hidden behind the parent", part=ii, got=factors)
        else:
            require(factors[ii] < 1, "Covered by the parent", part=ii, got=factors)
            if off <= math.pi / 2:
                require(factors[ii] <= level + 1e-9, "Less hidden than covered", got=factors, level=level)
        partial = partial or 1e-3 < off
    return ["" if partial else "trivial"]


SUBS = [
    Sub("converge", converge_case(), check_converge, quick=1200, shards=4, thorough=40000),
    Sub("single", single_case(), check_single, quick=1500, shards=3, thorough=40000),
    Sub("hidden", hidden_case(), check_hidden, quick=800, shards=2, thorough=20000),
]
