"""C19: bodies of several parts, and their containers, over any history of changes."""
import math

import numpy as np

from lib.gen import angle, count, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import arr, close, is_vector, rot2, wrap
from lib.scene import build_component, build_tree, direction2, tree_case

from vartools.states import Pose
from dynamic_obstacle_avoidance.obstacles import CuboidXd as Cuboid
from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes as Ellipse

from nonlinear_avoidance.arch_obstacle import BlockArchObstacle, create_arch_obstacle
from nonlinear_avoidance.multi_ellipse_obstacle import MultiEllipseObstacle
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer

PROPERTY = "C19"
RULE = (
    "Trees of one to four overlapping ellipses / boxes with a history of motions, "
    "deformations, accepted and rejected parts; arches of any size, wall, margin and pose; "
    "positions in and around them. Non-trivial: at least two parts and one motion."
)
ASSUMPTIONS = ["Gamma of a single ellipse or box is given by the stand-in library."]


def pose_case():
    return st.fixed_dictionaries({"position": vec(2, -5.0, 5.0), "rot": angle()})


@st.composite
def history_case(draw):
    steps = []
    for _ in range(draw(count(0, 5, 9))):
        kind = draw(st.sampled_from(["pose", "pose", "deform", "reject", "add", "velocity"]))
        step = {"kind": kind}
        if kind == "pose":
            step["pose"] = draw(pose_case())
        elif kind == "deform":
            step["rate"], step["time"] = draw(num(-0.5, 1.0)), draw(num(0.0, 0.5))
        elif kind == "reject":
            step["direction"], step["parent"] = draw(angle()), draw(st.integers(0, 3))
        elif kind == "add":
            step["direction"], step["parent"] = draw(angle()), draw(st.integers(0, 6))
            step["axes"], step["rot"] = draw(vec(2, 0.6, 2.0)), draw(angle())
            step["kind2"], step["share"] = draw(st.sampled_from(["ellipse", "cuboid"])), draw(num(0.0, 0.45))
        else:
            step["velocity"] = draw(vec(2, -2.0, 2.0))
        steps.append(step)
    return {
        "tree": draw(tree_case()),
        "steps": steps,
        "positions": [draw(vec(2, -5.0, 5.0)) for _ in range(3)],
        "excluded": draw(st.lists(st.integers(0, 3), max_size=3, unique=True)),
    }


def single_gamma(kind, axes, local_pose, tree_pose, position):
    """Gamma of a free-standing part, positioned by hand."""
    center = rot2(tree_pose[1]) @ local_pose[0] + tree_pose[0]
    part = kind(center_position=center, axes_length=axes, orientation=tree_pose[1] + local_pose[1])
    return part.get_gamma(position, in_global_frame=True)


class Model:
    def __init__(self, case, tree, placed):
        self.pose = (arr(case["position"]), case["rot"])
        self.kinds = [Ellipse if item["kind"] == "ellipse" else Cuboid for item in case["components"]]
        self.axes = [arr(item["axes"]) for item in case["components"]]
        self.parents = [item["parent"] for item in case["components"]]
        inv = rot2(-self.pose[1])
        # Placed in the frame of the tree when created
        self.local = [
            (np.array(body.center_position), item["rot"])
            for body, item in zip(placed, case["components"])
        ]
        self.references = [
            inv @ (np.array(body.global_reference_point) - self.pose[0]) for body in tree
        ]
        self.velocity = np.zeros(2)
        self.deformed = False

    def add(self, item, center, parent):
        self.kinds.append(Ellipse if item["kind"] == "ellipse" else Cuboid)
        self.axes.append(arr(item["axes"]))
        self.parents.append(parent)
        self.local.append((center, item["rot"]))
        self.references.append(center)

    def gammas(self, position):
        return [
            single_gamma(kind, axes, local, self.pose, position)
            for kind, axes, local in zip(self.kinds, self.axes, self.local)
        ]


def compare(tree, model, positions, excluded):
    n_parts = len(model.axes)
    require(len(tree) == n_parts and tree.n_components == n_parts, "Number of parts", got=len(tree))
    require(len(list(tree)) == n_parts, "Parts of the iteration")
    position, rot = model.pose
    for ii, body in enumerate(tree):
        require(body is tree[ii] and body is tree.get_component(ii), "Order of the parts")
        local_position, local_rot = model.local[ii]
        require(
            close(body.center_position, rot2(rot) @ local_position + position, 1e-6),
            "Part is not at its place in the frame of the body",
            part=ii,
            got=body.center_position,
        )
        require(abs(wrap(body.pose.orientation - rot - local_rot)) < 1e-6, "Orientation of the part", part=ii)
        require(close(body.axes_length, model.axes[ii], 1e-9), "Size of the part", part=ii)
        parent = tree.get_parent_idx(ii)
        require(parent == model.parents[ii], "Parent of the part", part=ii, got=parent)
        if not model.deformed:
            require(
                close(body.global_reference_point, rot2(rot) @ model.references[ii] + position, 1e-6),
                "Reference point does not move along",
                part=ii,
            )
    require(tree.get_root() is tree[0] and tree.root_idx == 0, "Root")
    pose = tree.get_pose()
    require(close(pose.position, position, 1e-9), "Pose of the body")
    pose.position = pose.position + 5.0
    require(close(tree.pose.position, position, 1e-9), "Pose changed through the returned copy")
    require(close(tree.linear_velocity, model.velocity, 1e-12), "Velocity", got=tree.linear_velocity)
    for local in positions:
        point = rot2(rot) @ local + position
        gammas = model.gammas(point)
        want = min(gammas)
        tol = 1e-6 * max(1.0, want)
        before = point.copy()
        require(abs(tree.get_gamma(point) - want) < tol, "Gamma is not the minimum", got=tree.get_gamma(point), want=want)
        value = tree.get_gamma(local, in_global_frame=False)
        require(abs(value - want) < 10 * tol, "Gamma in the frame of the body", got=value, want=want)
        if abs(want - 1) > 1e-6:
            require(bool(tree.is_collision_free(point)) == (want > 1), "Collision", gamma=want)
            require(bool(tree.is_collision_free(local, in_global_frame=False)) == (want > 1), "Collision (local)")
        rest = [g for ii, g in enumerate(gammas) if ii not in excluded]
        if rest:
            value = tree.get_gamma_except_components(point, list(excluded))
            require(abs(value - min(rest)) < 1e-6 * max(1.0, min(rest)), "Gamma of the other parts", got=value, want=min(rest))
            value = tree.get_gamma_except_components(local, list(excluded), in_global_frame=False)
            require(abs(value - min(rest)) < 1e-5 * max(1.0, min(rest)), "Gamma of the other parts (local)")
        require(close(before, point, 0), "Position modified")


def check_history(case):
    placed = []
    tree = build_tree(case["tree"], placed=placed)
    model = Model(case["tree"], tree, placed)
    positions = [arr(x) for x in case["positions"]]
    compare(tree, model, positions, case["excluded"])
    for step in case["steps"]:
        if step["kind"] == "pose":
            model.pose = (arr(step["pose"]["position"]), step["pose"]["rot"])
            tree.update_pose(Pose(arr(step["pose"]["position"]), step["pose"]["rot"]))
        elif step["kind"] == "deform":
            if not model.deformed:
                tree.update_deformation(step["time"])  # Rigid so far
            tree.deformation_rate = step["rate"]
            tree.update_deformation(step["time"])
            factor = 1 + step["rate"] * step["time"]
            model.axes = [axes * factor for axes in model.axes]
            model.local = [(position * factor, rot) for position, rot in model.local]
            model.deformed = True
        elif step["kind"] == "reject":
            # Does not touch its parent
            far = build_component(
                {"kind": "ellipse", "axes": [1.0, 1.0], "rot": 0.0}, 100 * direction2(step["direction"])
            )
            try:
                tree.add_component(far, parent_ind=step["parent"] % len(model.axes))
            except ValueError:
                pass
            else:
                require(False, "Part which does not intersect its parent is accepted")
        elif step["kind"] == "add":
            # With its center inside the parent
            parent = step["parent"] % len(model.axes)
            center = model.local[parent][0] + (
                step["share"] * min(model.axes[parent]) * direction2(step["direction"])
            )
            item = {"kind": step["kind2"], "axes": step["axes"], "rot": step["rot"]}
            index = tree.add_component(
                build_component(item, center), parent_ind=parent, reference_position=np.zeros(2)
            )
            require(index == len(model.axes), "Index of the new part", got=index)
            model.add(item, center, parent)
        else:
            tree.linear_velocity = arr(step["velocity"])
            model.velocity = arr(step["velocity"])
        compare(tree, model, positions, case["excluded"])
    moved = any(step["kind"] != "velocity" for step in case["steps"])
    return ["" if moved and len(model.axes) > 1 else "trivial"]


@st.composite
def container_case(draw):
    return {
        "trees": [draw(tree_case(3, spread=5.0)) for _ in range(draw(st.integers(1, 3)))],
        "positions": [draw(vec(2, -7.0, 7.0)) for _ in range(4)],
    }


def check_container(case):
    trees = [build_tree(item) for item in case["trees"]]
    container = MultiObstacleContainer()
    require(len(container) == 0 and container.is_collision_free(np.zeros(2)), "Empty container")
    require(MultiObstacleContainer().is_in_free_space(np.zeros(2)), "Empty container is not free")
    for tree in trees:
        container.append(tree)
    require(len(container) == len(trees), "Length")
    require(all(a is b for a, b in zip(container, trees)), "Iteration")
    require(
        all(container.get_tree(ii) is tree and container.get_obstacle_tree(ii) is tree for ii, tree in enumerate(trees)),
        "Access by index",
    )
    for position in case["positions"]:
        position = arr(position)
        gammas = [body.get_gamma(position, in_global_frame=True) for tree in trees for body in tree]
        want = min(gammas)
        require(abs(container.get_gamma(position) - want) < 1e-9 * max(want, 1), "Gamma is not the minimum")
        if abs(want - 1) > 1e-9:
            require(bool(container.is_collision_free(position)) == (want > 1), "Collision", gamma=want)
            require(bool(container.is_in_free_space(position)) == (want > 1), "Free space", gamma=want)
    return ["" if len(trees) > 1 else "trivial"]


@st.composite
def arch_case(draw):
    return {
        "size": draw(vec(2, 2.0, 10.0)),
        "wall": draw(num(0.2, 0.9)),
        "margin": draw(st.one_of(st.just(0.0), num(0.0, 0.5))),
        "pose": draw(pose_case()),
        "block": draw(st.booleans()),
        "scaling": draw(st.one_of(st.just(1.0), num(0.3, 4.0))),
        "points": [draw(vec(2, -1.2, 1.2)) for _ in range(8)],
        "pose2": draw(pose_case()),
    }


def check_arch(case):
    size, wall, margin = arr(case["size"]), case["wall"], case["margin"]
    given, pose_case = size.copy(), case["pose"]
    pose = Pose(arr(pose_case["position"]), pose_case["rot"])
    create = BlockArchObstacle if case["block"] else create_arch_obstacle
    scaling = 1.0 if case["block"] else case["scaling"]
    extra = {} if scaling == 1.0 else {"distance_scaling": scaling}
    arch = create(wall_width=wall, axes_length=size, pose=pose, margin_absolut=margin, **extra)
    require(close(given, size, 0), "Input modified")
    require(len(arch) == 3 and arch.n_components == 3 and arch.dimension == 2, "Three walls")
    require(close(arch.get_pose().position, pose_case["position"], 1e-12), "Pose")
    require([arch.get_parent_idx(ii) for ii in range(3)] == [None, 0, 0], "Walls are attached to the root")
    require(
        all(arch.get_component(ii) is wall_ for ii, wall_ in enumerate(arch)) and arch.get_root() is list(arch)[0],
        "Order of the walls",
    )
    if case["block"]:
        require(close(arch.axes_length, size, 0), "Size of the arch")
        require(all(arch[ii] is wall_ for ii, wall_ in enumerate(arch)), "Order of the walls")

    def walls(rot, shift):
        """The same three walls on their own."""
        parts = [([wall, size[1]], [0.0, 0.0])]
        arm = 0.5 * (size - wall)
        parts += [([size[0], wall], [arm[0], sign * arm[1]]) for sign in (1, -1)]
        return [
            Cuboid(
                axes_length=np.array(lengths),
                center_position=rot2(rot) @ np.array(place) + shift,
                orientation=rot,
                margin_absolut=margin,
                distance_scaling=scaling,
            )
            for lengths, place in parts
        ]

    def inside(local):
        """One back wall at the origin, two arms along x; `None` on the surface."""
        boxes = [((-wall / 2, wall / 2), (-size[1] / 2, size[1] / 2))]
        for sign in (-1, 1):
            low, high = sorted((sign * size[1] / 2, sign * (size[1] / 2 - wall)))
            boxes.append(((-wall / 2, size[0] - wall / 2), (low, high)))
        dist = min(
            max(x[0] - margin - local[0], local[0] - x[1] - margin, y[0] - margin - local[1], local[1] - y[1] - margin)
            for x, y in boxes
        )
        return None if abs(dist) < 1e-6 else dist < 0

    def compare(rot, shift):
        hits = set()
        separate = walls(rot, shift)
        for point in case["points"]:
            local = np.array([point[0] * size[0] + size[0] / 2 - wall / 2, point[1] * size[1] / 2])
            want = inside(local)
            if want is None:
                continue
            hits.add(want)
            position = rot2(rot) @ local + shift
            level = arch.get_gamma(position)
            require((level < 1) == want, "Wrong shape of the arch", gamma=level, local=local, inside=want)
            require(bool(arch.is_collision_free(position)) == (not want), "Collision", local=local)
            require(
                abs(arch.get_gamma(local, in_global_frame=False) - level) < 1e-6 * max(level, 1), "Gamma in its frame"
            )
            levels = [wall_.get_gamma(position, in_global_frame=True) for wall_ in arch]
            alone = [wall_.get_gamma(position, in_global_frame=True) for wall_ in separate]
            require(close(np.array(levels), alone, 1e-6 * max(max(alone), 1)), "Gamma of the walls", got=levels, want=alone)
            require(abs(min(levels) - level) < 1e-9 * max(level, 1), "Not the minimum of the walls")
            value = arch.get_gamma_except_components(position, [0])
            require(abs(value - min(levels[1:])) < 1e-9 * max(value, 1), "Gamma without the root")
        for ii in (1, 2):
            reference = arch.get_component(ii).global_reference_point
            for body in (arch.get_component(0), arch.get_component(ii)):
                require(
                    body.get_gamma(reference, in_global_frame=True) < 1,
                    "Reference point is not shared with the root",
                    reference=reference,
                )
        return hits

    hits = compare(pose_case["rot"], arr(pose_case["position"]))
    if not case["block"]:
        moved = case["pose2"]
        arch.update_pose(Pose(arr(moved["position"]), moved["rot"]))
        compare(moved["rot"], arr(moved["position"]))
    return ["" if len(hits) == 2 else "trivial"]


@st.composite
def ellipses_case(draw):
    n_parts = draw(count(1, 4, 7))
    return {
        "parts": [
            {"axes": draw(vec(2, 1.0, 3.0)), "rot": draw(angle()), "along": draw(angle()), "share": draw(num(0.05, 0.9))}
            for _ in range(n_parts)
        ],
        "parents": [draw(st.integers(0, max(ii - 1, 0))) for ii in range(n_parts)],
        "positions": [draw(vec(2, -6.0, 6.0)) for _ in range(3)],
        "again": draw(st.integers(0, 3)),
        "other": draw(st.integers(0, 3)),
    }


def check_ellipses(case):
    body = MultiEllipseObstacle()
    parts = []
    for item, parent in zip(case["parts"], case["parents"]):
        center = np.zeros(2)
        if parts:
            # Overlapping with its parent
            reach = 0.5 * (min(item["axes"]) + min(case["parts"][parent]["axes"]))
            center = parts[parent].center_position + direction2(item["along"]) * item["share"] * reach
        parts.append(Ellipse(center_position=center, axes_length=arr(item["axes"]), orientation=item["rot"]))
        body.append(parts[-1])
    n_parts = len(parts)
    require(body.n_components == n_parts, "Number of parts")
    body.set_root(0)
    for ii in range(1, n_parts):
        body.set_parent(ii, case["parents"][ii])
    require(body.root_idx == 0, "Root")

    def compare():
        require(body.root_idx == 0 and body.get_parent_idx(0) == -1, "Root has a parent")
        for ii, part in enumerate(parts):
            require(body.get_component(ii) is part, "Order of the parts")
            if not ii:
                continue
            parent = case["parents"][ii]
            require(body.get_parent_idx(ii) == parent, "Parent", got=body.get_parent_idx(ii), want=parent)
            reference = part.global_reference_point
            for item in (part, parts[parent]):
                require(
                    item.get_gamma(reference, in_global_frame=True) <= 1 + 1e-3,
                    "Reference point is not shared with the parent",
                    reference=reference,
                )
        for position in [arr(pp) for pp in case["positions"]] + [parts[0].center_position.copy()]:
            want = min(part.get_gamma(position, in_global_frame=True) for part in parts)
            require(abs(body.get_gamma(position) - want) < 1e-9 * max(want, 1), "Gamma is not the minimum")
            if abs(want - 1) > 1e-9:
                require(bool(body.is_inside(position)) == (want < 1), "Inside", gamma=want)

    compare()
    # A root or parent is only set once
    again = case["again"] % n_parts
    try:
        if again:
            body.set_parent(again, case["other"] % n_parts)
        else:
            body.set_root(case["other"] % n_parts)
    except NotImplementedError:
        pass
    else:
        require(False, "Root or parent is replaced without being deleted", part=again)
    compare()
    # A part needs to overlap with its parent
    parent = case["other"] % n_parts
    distance = 0.5 * (max(case["parts"][-1]["axes"]) + max(case["parts"][parent]["axes"])) + 0.1
    center = parts[parent].center_position + direction2(case["parts"][-1]["along"]) * distance
    body = MultiEllipseObstacle()
    for part in parts:
        body.append(part)
    body.set_root(0)
    for ii in range(1, n_parts):
        body.set_parent(ii, case["parents"][ii])
    last = case["parts"][-1]
    body.append(Ellipse(center_position=center, axes_length=arr(last["axes"]), orientation=last["rot"]))
    try:
        body.set_parent(n_parts, parent)
    except ValueError:
        pass
    else:
        require(False, "Parent which does not intersect the part is accepted")
    require(body.get_parent_idx(n_parts) is None, "Rejected parent is stored")
    require(is_vector(body.get_component(n_parts).global_reference_point, 2), "Reference point")
    return ["" if n_parts > 1 else "trivial"]


SUBS = [
    Sub("history", history_case(), check_history, quick=500, shards=3, thorough=15000),
    Sub("container", container_case(), check_container, quick=250, shards=2, thorough=6000),
    Sub("arch", arch_case(), check_arch, quick=400, shards=2, thorough=15000),
    Sub("ellipses", ellipses_case(), check_ellipses, quick=300, thorough=8000),
]
