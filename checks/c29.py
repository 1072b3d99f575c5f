"""C29: bodies of several parts, which are connected at joints."""
import contextlib
import io
import math
import warnings

import numpy as np
from scipy.spatial.transform import Rotation

from lib.gen import angle, num, st, vec
from lib.pbt import Sub, require
from lib.ref import angle_between, arr, close, is_vector, unit

from vartools.states import ObjectPose

from dynamic_obstacle_avoidance.obstacles import CuboidXd, EllipseWithAxes

from nonlinear_avoidance.multi_body_human import (
    MultiBodyObstacle,
    create_2d_human,
    create_2d_human_with_multibodyobstacle,
    create_3d_human,
    transform_from_multibodyobstacle_to_multiobstacle,
)
from nonlinear_avoidance.rigid_body import RigidBody

PROPERTY = "C29"
RULE = (
    "Bodies of one to six ellipses and boxes in any tree, in two and three dimensions, with "
    "histories of up to eight movements; up to three messages of a tracker of any subset of the "
    "parts. Non-trivial: at least two joints, or a tracked part."
)
ASSUMPTIONS = [
    "Poses, obstacles and the filters of the measurements are of the stand-in library; the "
    "filters trust each measurement completely."
]


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def orientation(values, dim):
    return values[0] if dim == 2 else Rotation.from_rotvec(arr(values))


def matrix(value, dim):
    if value is None:
        return np.eye(dim)
    if isinstance(value, Rotation):
        return value.as_matrix()
    return np.array([[math.cos(value), -math.sin(value)], [math.sin(value), math.cos(value)]])


@st.composite
def part_case(draw, dim, index):
    return {
        "kind": draw(st.sampled_from(["ellipse", "cuboid"])),
        "axes": draw(st.lists(num(0.2, 2.0), min_size=dim, max_size=dim)),
        "parent": draw(st.integers(0, max(0, index - 1))),
        "reference": draw(vec(dim, -1.0, 1.0)),
        "parent_reference": draw(vec(dim, -1.0, 1.0)),
        "turn": draw(vec(3, -2.0, 2.0)),
        "turned": draw(st.booleans()),
        "root_reference": draw(vec(dim, -0.1, 0.1)),
    }


def create_obstacle(item, dim):
    kwargs = {"center_position": np.zeros(dim), "axes_length": np.array(item["axes"])}
    if item["turned"]:
        kwargs["orientation"] = orientation(item["turn"], dim)
    return (EllipseWithAxes if item["kind"] == "ellipse" else CuboidXd)(**kwargs)


def create_body(parts, dim, tracked=None, **kwargs):
    body = MultiBodyObstacle(**kwargs)
    body.dimension = dim
    ids = tracked or [None] * len(parts)
    root = create_obstacle(parts[0], dim)
    root.set_reference_point(arr(parts[0]["root_reference"]), in_global_frame=False)
    body.set_root(root, name="part0", update_id=ids[0])
    for ii, item in enumerate(parts[1:], 1):
        body.add_component(
            create_obstacle(item, dim),
            name=f"part{ii}",
            reference_position=list(item["reference"]),
            parent_name=f"part{item['parent']}",
            parent_reference_position=list(item["parent_reference"]),
            update_id=ids[ii],
        )
    return body


def placed(obs, local, dim):
    """Global position of a local one."""
    return arr(obs.pose.position) + matrix(obs.pose.orientation, dim) @ arr(local)


def check_joints(body, parts, dim):
    for ii, item in enumerate(parts[1:], 1):
        joint = placed(body[item["parent"]], item["parent_reference"], dim)
        got = placed(body[ii], item["reference"], dim)
        require(close(got, joint, 1e-7 * (1 + np.linalg.norm(joint))), "Joint is open", part=ii, got=got, want=joint)


def level(obs, kind, axes, position, dim):
    """Below one inside of the part."""
    local = matrix(obs.pose.orientation, dim).T @ (position - arr(obs.pose.position))
    local = local / (np.array(axes) / 2)
    return np.linalg.norm(local) if kind == "ellipse" else np.max(np.abs(local))


@st.composite
def history_case(draw):
    dim = draw(st.sampled_from([2, 3]))
    n_parts = draw(st.integers(1, 6))
    parts = [draw(part_case(dim, ii)) for ii in range(n_parts)]
    return {
        "dim": dim,
        "parts": parts,
        "moves": draw(
            st.lists(
                st.fixed_dictionaries(
                    {
                        "what": st.sampled_from(["root", "turn", "turn", "update", "joint"]),
                        "part": st.integers(0, 5),
                        "shift": vec(dim, -3.0, 3.0),
                        "turn": vec(3, -2.0, 2.0),
                    }
                ),
                max_size=8,
            )
        ),
        "points": draw(st.lists(vec(dim, -2.0, 2.0), min_size=1, max_size=4)),
        "base": draw(vec(dim, -3.0, 3.0)),
        "base_turn": draw(vec(3, -2.0, 2.0)),
        "moved_base": draw(st.booleans()),
    }


def check_history(case):
    dim, parts = case["dim"], case["parts"]
    body = create_body(parts, dim)
    n_parts = len(parts)
    require(body.n_components == n_parts, "Number of parts")
    for ii, item in enumerate(parts):
        require(body.get_obstacle_id_from_name(f"part{ii}") == ii, "Part of the name")
        require(body.get_name(ii) == f"part{ii}", "Name of the part")
        require(body.get_component(ii) is body[ii], "Part of the index")
        require(body.get_parent_idx(ii) == (item["parent"] if ii else None), "Parent", part=ii)
        if ii:
            require(
                close(body[ii].get_reference_point(in_global_frame=False), item["reference"], 1e-12),
                "Reference point is not at the joint",
            )
    require(body.get_root() is body[0], "Root")

    with silent():
        body.update()
    for move in case["moves"]:
        index = move["part"] % n_parts
        before = [matrix(body[ii].pose.orientation, dim) for ii in range(n_parts)]
        root_before = arr(body[0].pose.position).copy()
        if move["what"] == "root":
            body[0].pose.position = arr(move["shift"])
            continue
        if move["what"] == "turn":
            body[index].orientation = orientation(move["turn"], dim)
            continue
        if move["what"] == "joint" and index:
            rest = [arr(body[ii].pose.position).copy() for ii in range(n_parts)]
            body.align_position_with_parent(index)
            joint = placed(body[parts[index]["parent"]], parts[index]["parent_reference"], dim)
            require(close(placed(body[index], parts[index]["reference"], dim), joint, 1e-7), "Joint of the part")
            for ii in range(n_parts):
                require(ii == index or close(body[ii].pose.position, rest[ii], 0), "Other part moved")
        else:
            with silent():
                body.update()
            check_joints(body, parts, dim)
        require(close(body[0].pose.position, root_before, 0), "Root moved")
        for ii in range(n_parts):
            require(close(matrix(body[ii].pose.orientation, dim), before[ii], 1e-9), "Part is turned", part=ii)
    with silent():
        body.update()
    check_joints(body, parts, dim)

    # Distance
    points = []
    for ii, local in enumerate(case["points"]):
        points.append(placed(body[ii % n_parts], arr(local) * np.array(parts[ii % n_parts]["axes"]) * 0.5, dim))
    gammas = []
    for point in points:
        with silent():
            gammas.append(body.get_gamma(point, in_global_frame=True))
        want = min(body[ii].get_gamma(point, in_global_frame=True) for ii in range(n_parts))
        require(close(gammas[-1], want, 1e-9 * (1 + abs(want))), "Gamma of the body", got=gammas[-1], want=want)
        lowest = min(
            level(body[ii], item["kind"], item["axes"], point, dim) for ii, item in enumerate(parts)
        )
        if abs(lowest - 1) > 1e-6:
            require((gammas[-1] < 1) == (lowest < 1), "Inside and outside", gamma=gammas[-1], level=lowest)

    # As multi-obstacle, at any pose
    base = None
    if case["moved_base"]:
        base = ObjectPose(
            position=arr(case["base"]), orientation=orientation(case["base_turn"], dim)
        )
    wanted = [body[ii].get_reference_point(in_global_frame=True) for ii in range(n_parts)]
    multi = transform_from_multibodyobstacle_to_multiobstacle(body, base)
    require(multi.n_components == n_parts and multi.dimension == dim, "Parts of the multi-obstacle")
    for ii, item in enumerate(parts):
        require(multi.get_parent_idx(ii) == (item["parent"] if ii else None), "Parent within multi-obstacle")
        goal = wanted[ii] if base is None else base.transform_position_from_relative(wanted[ii])
        got = multi.get_component(ii).get_reference_point(in_global_frame=True)
        require(close(got, goal, 1e-7 * (1 + np.linalg.norm(goal))), "Reference point", part=ii, got=got, want=goal)
    for point, gamma in zip(points, gammas):
        goal = point if base is None else base.transform_position_from_relative(point)
        got = multi.get_gamma(goal, in_global_frame=True)
        require(close(got, gamma, 1e-6 * (1 + abs(gamma))), "Gamma of multi-obstacle", got=got, want=gamma)
    return ["" if n_parts > 2 else "trivial"]


class Updater:
    def __init__(self):
        self.messages = []

    def get_messages(self):
        return self.messages


class Robot:
    optitrack_id = 16

    def __init__(self, position, turn):
        self.pose = ObjectPose(position=arr(position), orientation=Rotation.from_rotvec(arr(turn)))
        self.published = 0

    def publish_robot_transform(self):
        self.published += 1


class Viewer:
    def __init__(self):
        self.shown = None

    def update(self, obstacles):
        self.shown = list(obstacles)


@st.composite
def tracked_case(draw):
    n_parts = draw(st.integers(1, 6))
    measured = st.fixed_dictionaries(
        {
            "part": st.one_of(st.just(0), st.integers(0, 7), st.integers(0, 3)),
            "position": vec(3, -2.0, 2.0),
            "turn": vec(3, -2.0, 2.0),
        }
    )
    return {
        "parts": [draw(part_case(3, ii)) for ii in range(n_parts)],
        "ids": draw(st.permutations(list(range(3, 9)))),
        "tracked": draw(st.lists(st.sampled_from([True, True, False]), min_size=6, max_size=6)),
        "messages": draw(
            st.lists(
                st.lists(measured, max_size=5, unique_by=lambda item: item["part"]),
                min_size=1,
                max_size=3,
            )
        ),
        "yaw": draw(angle()),
        "robot": draw(st.booleans()),
        "robot_seen": draw(st.booleans()),
        "robot_position": draw(vec(3, -2.0, 2.0)),
        "robot_turn": draw(vec(3, -2.0, 2.0)),
        "robot_frame": draw(st.booleans()),
        "upright": draw(st.integers(0, 3)) > 0,
        "straight": draw(st.sampled_from([0, 0, 0, 0, 1, -1])),
    }


def check_tracked(case):
    parts, n_parts = case["parts"], len(case["parts"])
    ids = [case["ids"][ii] if case["tracked"][ii] else None for ii in range(n_parts)]
    turn = arr(case["robot_turn"])
    robot = Robot(case["robot_position"], turn) if case["robot"] else None
    updater, viewer = Updater(), Viewer()
    body = create_body(
        parts, 3, tracked=ids, pose_updater=updater, robot=robot, visualization_handler=viewer
    )
    for ii, value in enumerate(ids):
        require(body.get_update_id(ii) == value, "Id of the tracker")
        if value is not None:
            require(body.get_obstacle_id_from_optitrackid(value) == ii, "Part of the tracker")

    moved = 0
    for count, message in enumerate(case["messages"]):
        # Frame of the robot at the time of this message
        frame, origin = np.eye(3), np.zeros(3)
        if robot is not None:
            twist = Rotation.from_rotvec(turn * (1 + count)) if case["robot_seen"] else robot.pose.orientation
            if case["robot_frame"]:
                frame, origin = twist.as_matrix(), arr(case["robot_position"])
                origin = origin + count * case["robot_seen"]
        updater.messages, seen = [], {}
        for item in message:
            part = item["part"]
            number = 20 + part if part >= n_parts or ids[part] is None else ids[part]
            position, rotation = arr(item["position"]), Rotation.from_rotvec(arr(item["turn"]))
            if part == 0 and case["upright"]:
                rotation = Rotation.from_matrix(frame) * Rotation.from_euler("z", case["yaw"])
            elif 0 < part < n_parts and case["straight"] and parts[part]["parent"] == 0:
                # Exactly above or below of the joint (if the root is not moved)
                position = placed(body[0], parts[part]["parent_reference"], 3)
                position[2] += 0.5 * case["straight"]
            updater.messages.append(RigidBody(obs_id=number, position=position, rotation=rotation))
            if number < 20:
                seen[part] = updater.messages[-1]
        if robot is not None and case["robot_seen"]:
            updater.messages.append(
                RigidBody(obs_id=16, position=arr(case["robot_position"]) + count, rotation=twist)
            )

        root_before = (arr(body[0].pose.position).copy(), matrix(body[0].pose.orientation, 3))
        if case["robot_frame"]:
            with silent():
                body.update()
            require(viewer.shown is not None and len(viewer.shown) == n_parts, "Shown parts")
            require(robot is None or robot.published == count + 1, "Pose of the robot is published")
        else:
            with silent():
                body.update_using_optitrack(transform_to_robot_frame=False)

        check_joints(body, parts, 3)
        if 0 in seen:
            want = frame.T @ (arr(seen[0].position) - origin)
            want[2] = 0.2
            require(close(body[0].pose.position, want, 1e-8), "Position of the root", got=body[0].pose.position, want=want)
            got = matrix(body[0].pose.orientation, 3)
            require(close(got[:, 2], [0, 0, 1], 1e-8), "Root is not upright", got=got)
            local = frame.T @ seen[0].rotation.as_matrix()
            if close(local[:, 2], [0, 0, 1], 1e-9):
                require(close(got, local, 1e-7), "Heading of the root", got=got, want=local)
        else:
            require(close(body[0].pose.position, root_before[0], 0), "Untracked root moved")
            require(close(matrix(body[0].pose.orientation, 3), root_before[1], 0), "Untracked root turned")
        for ii, item in enumerate(parts[1:], 1):
            parent = body[item["parent"]]
            got = matrix(body[ii].pose.orientation, 3)
            if ii not in seen:
                require(close(got, matrix(parent.pose.orientation, 3), 1e-9), "Part does not follow its parent", part=ii)
                continue
            joint = placed(parent, item["parent_reference"], 3)
            goal = frame.T @ (arr(seen[ii].position) - origin) - joint
            if np.linalg.norm(goal) < 1e-3:
                continue
            moved += 1
            require(close(got[:, 2], unit(goal), 1e-6), "Part does not point to the measurement", part=ii, got=got[:, 2], want=unit(goal))
            if goal[2] > -0.999 * np.linalg.norm(goal):
                turned = Rotation.from_matrix(got).magnitude()
                want = angle_between(np.array([0, 0, 1.0]), goal)
                require(close(turned, want, 1e-5), "Part is turned around its axis", got=turned, want=want)
    return ["" if moved else "trivial"]


HUMANS = {
    "2d": (create_2d_human_with_multibodyobstacle, 2),
    "3d": (create_3d_human, 3),
    "multi": (create_2d_human, 2),
}


@st.composite
def human_case(draw):
    return {
        "which": draw(st.sampled_from(sorted(HUMANS))),
        "turns": draw(st.lists(vec(3, -2.0, 2.0), min_size=9, max_size=9)),
        "turned": draw(st.lists(st.booleans(), min_size=9, max_size=9)),
        "shift": draw(vec(3, -3.0, 3.0)),
        "move": draw(st.booleans()),
    }


def check_human(case):
    """All parts are connected to the body, whatever its posture."""
    create, dim = HUMANS[case["which"]]
    with silent():
        human = create()
    require(human.n_components == (9 if dim == 3 else 7), "Number of parts")
    roots = [ii for ii in range(human.n_components) if human.get_parent_idx(ii) is None]
    require(roots == [0], "Root of the body", roots=roots)
    if case["move"]:
        if case["which"] == "multi":
            human.update_pose(
                ObjectPose(position=arr(case["shift"])[:2], orientation=case["turns"][0][0])
            )
        else:
            human[0].pose.position = arr(case["shift"])[:dim]
            for ii in range(human.n_components):
                if case["turned"][ii]:
                    human[ii].orientation = orientation(case["turns"][ii], dim)
            with silent():
                human.update()
    for ii in range(human.n_components):
        part = human.get_component(ii)
        joint = placed(part, part.get_reference_point(in_global_frame=False), dim)
        indices = [ii] if human.get_parent_idx(ii) is None else [ii, human.get_parent_idx(ii)]
        for index in indices:
            obs = human.get_component(index)
            kind = "cuboid" if isinstance(obs, CuboidXd) else "ellipse"
            got = level(obs, kind, obs.axes_length, joint, dim)
            require(got < 1 + 1e-6, "Joint is outside of the part", part=ii, of=index, level=got)
        require(human.get_gamma(joint) < 1 + 1e-6, "Joint is outside of the human", part=ii)
    return ["" if case["move"] else "trivial"]


SUBS = [
    Sub("history", history_case(), check_history, quick=600, shards=2, thorough=12000),
    Sub("tracked", tracked_case(), check_tracked, quick=500, shards=2, thorough=12000),
    Sub("human", human_case(), check_human, quick=150, thorough=3000),
]
