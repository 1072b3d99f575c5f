"""Generators and builders for obstacles and velocities (2-D and 3-D)."""
import math

import numpy as np

from lib.gen import angle, count, nonzero_vec, num, st, vec
from lib.pbt import Discard
from lib.ref import arr, unit

from scipy.spatial.transform import Rotation

from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import ObjectPose, Pose
from dynamic_obstacle_avoidance.obstacles import CuboidXd as Cuboid
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse


@st.composite
def obstacle_case(draw, dim, spread=3.0, shift=True, min_axis=0.5, max_axis=3.0):
    return {
        "kind": draw(st.sampled_from(["ellipse", "cuboid"])),
        "center": draw(vec(dim, -spread, spread)),
        "axes": draw(vec(dim, min_axis, max_axis)),
        "rot": draw(angle()) if dim == 2 else draw(vec(3, -3.0, 3.0)),
        "ref": draw(num(0.0, 0.7)) if shift and draw(st.booleans()) else 0.0,
        "ref_dir": draw(nonzero_vec(dim, -1.0, 1.0)),
    }


def orientation(rot):
    if isinstance(rot, (int, float)):
        return float(rot)
    return Rotation.from_rotvec(arr(rot))


def build_obstacle(case, is_boundary=False, pose_map=None, **kwargs):
    """`pose_map` = (rotation, translation) of a rigid motion of the world."""
    center, rot = arr(case["center"]), orientation(case["rot"])
    if pose_map is not None:
        matrix, shift = pose_map
        center = matrix @ center + shift
        if isinstance(rot, float):
            rot = rot + math.atan2(matrix[1, 0], matrix[0, 0])
        else:
            rot = Rotation.from_matrix(matrix) * rot
    kind = Ellipse if case["kind"] == "ellipse" else Cuboid
    obs = kind(
        center_position=center,
        axes_length=arr(case["axes"]),
        orientation=rot,
        is_boundary=is_boundary,
        **kwargs,
    )
    if case["ref"]:
        point = obs.get_point_on_surface(arr(case["ref_dir"]), in_global_frame=False)
        obs.set_reference_point(point * case["ref"], in_global_frame=False)
    return obs


def surface_point(obs, direction, offset=0.0):
    """Point on the surface in (local) direction, moved outwards by `offset`."""
    direction = unit(direction)
    local = obs.get_point_on_surface(direction, in_global_frame=False)
    return obs.pose.transform_position_from_relative(local + direction * offset)


@st.composite
def lattice_obstacle(draw, dim, reach=4):
    """Axis-aligned body, all of whose numbers are (short) binary fractions."""
    return {
        "kind": draw(st.sampled_from(["ellipse", "cuboid"])),
        "center": [float(draw(st.integers(-reach, reach))) for _ in range(dim)],
        "axes": [draw(st.sampled_from([1.0, 2.0, 2.0, 4.0])) for _ in range(dim)],
        "rot": 0.0 if dim == 2 else [0.0, 0.0, 0.0],
        "ref": 0.0,
        "ref_dir": [1.0] + [0.0] * (dim - 1),
    }


def lattice_surface(obs, axis, sign):
    """Point on the surface of an axis-aligned body, along one of its axes."""
    position = np.array(obs.center_position, dtype=float)
    position[axis % len(position)] += sign * obs.semiaxes[axis % len(position)]
    return position


def normal(obs, position):
    return obs.get_normal_direction(position, in_global_frame=True)


def gamma(obs, position):
    return obs.get_gamma(position, in_global_frame=True)


@st.composite
def tree_case(draw, n_max=4, spread=3.0, size=1.0):
    """Hierarchy of overlapping bodies in the plane; the reference point of a child
    lies in the intersection with its parent."""
    n_comp = draw(count(1, n_max, n_max + 2))
    components = []
    for ii in range(n_comp):
        components.append(
            {
                "parent": draw(st.integers(0, ii - 1)) if ii else None,
                "kind": draw(st.sampled_from(["ellipse", "cuboid"])),
                "axes": [size * x for x in draw(vec(2, 0.6, 3.0))],
                "rot": draw(angle()),
                "leave": draw(angle()),  # direction, seen from the parent
                "leave_frac": draw(num(0.5, 0.9)),
                "enter": draw(angle()),  # direction, seen from the child
                "enter_frac": draw(num(0.0, 0.85)),
                "explicit": draw(st.integers(0, 3)) > 0,
            }
        )
    return {
        "position": draw(vec(2, -spread, spread)),
        "rot": draw(angle()),
        "components": components,
    }


def direction2(phi):
    return np.array([math.cos(phi), math.sin(phi)])


def build_component(item, center):
    kind = Ellipse if item["kind"] == "ellipse" else Cuboid
    return kind(
        center_position=center, axes_length=arr(item["axes"]), orientation=item["rot"]
    )


def build_tree(case, pose_map=None, tree_class=None, placed=None, **kwargs):
    from nonlinear_avoidance.multi_obstacle import MultiObstacle

    position, rot = arr(case["position"]), case["rot"]
    if pose_map is not None:
        matrix, shift = pose_map
        position = matrix @ position + shift
        rot = rot + math.atan2(matrix[1, 0], matrix[0, 0])
    tree = (tree_class or MultiObstacle)(Pose(position, rot), **kwargs)
    local = [] if placed is None else placed  # Bodies in the frame of the tree
    for item in case["components"]:
        if item["parent"] is None:
            local.append(build_component(item, np.zeros(2)))
            tree.set_root(build_component(item, np.zeros(2)))
            continue
        parent = local[item["parent"]]
        leave = parent.get_point_on_surface(
            parent.pose.transform_direction_to_relative(direction2(item["leave"])),
            in_global_frame=False,
        )
        shared = parent.pose.transform_position_from_relative(leave * item["leave_frac"])
        probe = build_component(item, np.zeros(2))
        enter = probe.get_point_on_surface(direction2(item["enter"]), in_global_frame=False)
        enter = enter * item["enter_frac"]
        center = shared - probe.pose.transform_direction_from_relative(enter)
        local.append(build_component(item, center))
        tree.add_component(
            build_component(item, center),
            parent_ind=item["parent"],
            reference_position=enter if item["explicit"] else None,
        )
    return tree
