"""C27: graphs of boundaries, and the graph over the Gaussians of a learned motion."""
import contextlib
import io
import math
import os
import tempfile
import warnings

import numpy as np
import scipy.io
from scipy.stats import multivariate_normal

from lib.gen import angle, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, unit

from vartools.directional_space import get_angle_space_inverse

from dynamic_obstacle_avoidance.obstacles import Ellipse

from nonlinear_avoidance.gmm_learner.graph import GraphGMM
from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
from nonlinear_avoidance.multihull_convergence import (
    get_desired_radius,
    get_weight_gamma_for_hulls,
)

PROPERTY = "C27"
RULE = (
    "Histories of up to fourteen additions, connections and deletions of boundaries; trees of "
    "one to six overlapping ellipses, rotated in the plane; mixtures of one to seven Gaussians "
    "of any covariance. Non-trivial: a deletion within a tree, at least one connection, or at "
    "least three Gaussians."
)
ASSUMPTIONS = ["Ellipses, their Gamma and surface points are of the stand-in library."]


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def ellipse(item):
    return Ellipse(
        center_position=arr(item["center"]),
        axes_length=arr(item["axes"]),
        orientation=item["angle"],
        is_boundary=item.get("boundary", True),
    )


def rotation(value):
    return np.array([[math.cos(value), -math.sin(value)], [math.sin(value), math.cos(value)]])


def level(item, point):
    """Below one inside of the ellipse."""
    local = rotation(item["angle"]).T @ (arr(point) - arr(item["center"])) / arr(item["axes"])
    return float(np.linalg.norm(local))


# --- History of a container -------------------------------------------------------------
BODY = st.fixed_dictionaries(
    {"center": vec(2), "axes": vec(2, 0.3, 3.0), "angle": angle(), "boundary": st.booleans()}
)


def operation():
    index = st.integers(0, 20)
    return st.one_of(
        st.tuples(st.just("root"), BODY),
        st.tuples(st.just("next"), BODY),
        st.tuples(st.just("next"), BODY),
        st.tuples(st.just("child"), BODY, index),
        st.tuples(st.just("child"), BODY, index),
        st.tuples(st.just("connect"), index, index),
        st.tuples(st.just("delete"), index, st.booleans()),
    ).map(list)


HISTORY = st.fixed_dictionaries(
    {"ops": st.lists(operation(), min_size=1, max_size=14), "position": vec(2)}
)


class Model:
    def __init__(self):
        self.bodies = []
        self.parents = []

    def children(self, index):
        return sorted(ii for ii, parent in enumerate(self.parents) if parent == index)

    def depth(self, index):
        return 0 if self.parents[index] < 0 else 1 + self.depth(self.parents[index])

    def ancestors(self, index):
        out = []
        while index >= 0:
            out.append(index)
            index = self.parents[index]
        return out

    def delete(self, index):
        del self.bodies[index], self.parents[index]
        self.parents = [
            -1 if parent in (-1, index) else parent - (parent > index) for parent in self.parents
        ]


def check_history(case):
    container, model = MultiBoundaryContainer(), Model()
    tags = [""]
    deleted = False
    for op in case["ops"]:
        name, size = op[0], len(model.bodies)
        if name in ("root", "next", "child"):
            obstacle = ellipse(op[1])
            obstacle.tag = len(model.bodies)
            if name == "root":
                container.append(obstacle)
                parent = -1
            elif name == "next":
                container.append(obstacle, parent=-1)
                parent = size - 1
            else:
                parent = op[2] % size if size else -1
                container.append(obstacle, parent=None if parent < 0 else parent)
            model.bodies.append((obstacle, op[1]))
            model.parents.append(parent)
        elif not size:
            continue
        elif name == "connect":
            child, parent = op[1] % size, op[2] % size
            if child in model.ancestors(parent):
                continue
            container.extend_graph(child=child, parent=parent)
            model.parents[child] = parent
        else:
            index = op[1] % size
            deleted = deleted or (bool(model.children(index)) and model.parents[index] >= 0)
            del container[index - size if op[2] else index]
            model.delete(index)
        compare(container, model)
    if not model.bodies:
        return ["trivial"]
    position = arr(case["position"])
    if all(item["boundary"] for _, item in model.bodies):
        levels = [level(item, position) for _, item in model.bodies]
        if min(abs(value - 1) for value in levels) > 1e-6:
            require(
                bool(container.is_collision_free(position)) == (min(levels) < 1),
                "Free if inside of any boundary",
                levels=levels,
            )
    return tags + (["deleted"] if deleted else []) if max(model.parents) >= 0 else ["trivial"]


def compare(container, model):
    size = len(model.bodies)
    require(len(container) == size and container.n_obstacles == size, "Number of elements")
    for ii, (obstacle, _) in enumerate(model.bodies):
        require(container[ii] is obstacle, "Wrong element", index=ii)
        require(int(container.get_parent(ii)) == model.parents[ii], "Parent", index=ii, want=model.parents)
        require(
            sorted(int(cc) for cc in container.get_children(ii)) == model.children(ii),
            "Children",
            index=ii,
            got=container.get_children(ii),
            want=model.parents,
        )
    if not size:
        return
    roots = [ii for ii in range(size) if model.parents[ii] < 0]
    require([int(rr) for rr in container.get_root(return_multi_values=True)] == roots, "Roots", want=roots)
    with silent():
        require(int(container.get_root()) == roots[0], "First root")
        levels = container.get_level_numbers()
    require([int(value) for value in levels] == [model.depth(ii) for ii in range(size)], "Levels", got=levels)
    flags = [item["boundary"] for _, item in model.bodies]
    require([bool(ff) for ff in container.get_boundary_ind()] == flags, "Boundary flags")
    got = container.get_boundary_list()
    want = [obstacle for (obstacle, _), flag in zip(model.bodies, flags) if flag]
    require(len(got) == len(want) and all(aa is bb for aa, bb in zip(got, want)), "List of the boundaries")


# --- Intersections -------------------------------------------------------------------------
@st.composite
def hull_case(draw):
    bodies = [draw(st.fixed_dictionaries({"center": vec(2), "axes": vec(2, 0.3, 3.0), "angle": angle()}))]
    parents = [-1]
    for ii in range(draw(st.integers(0, 5))):
        bodies.append(
            {
                "axes": draw(vec(2, 0.3, 3.0)),
                "angle": draw(angle()),
                "offset": draw(vec(2, -0.65, 0.65)),
            }
        )
        parents.append(draw(st.integers(-1, ii)))
    return {
        "bodies": bodies,
        "parents": parents,
        "offset": draw(vec(2, -0.7, 0.7)),
        "index": draw(st.integers(0, 10)),
        "towards": draw(st.one_of(st.just(0), num(0.05, 0.95))),
        "gammas": draw(st.lists(st.one_of(num(0.0, 4.0), st.just(1.0)), min_size=1, max_size=5)),
    }


def check_hulls(case):
    bodies, parents = [], case["parents"]
    container = MultiBoundaryContainer()
    for ii, item in enumerate(case["bodies"]):
        item = dict(item)
        if "center" not in item:
            # The center is inside of the parent (or of the very first one)
            parent = bodies[max(parents[ii], 0)]
            local = arr(item["offset"]) * arr(parent["axes"])
            item["center"] = (arr(parent["center"]) + rotation(parent["angle"]) @ local).tolist()
        bodies.append(item)
        container.append(ellipse(item))
        if parents[ii] >= 0:
            container.extend_graph(child=ii, parent=parents[ii])
    container.update_intersection_graph()
    points = []
    for ii, parent in enumerate(parents):
        point = container.get_parent_intersection(ii)
        points.append(point)
        if parent < 0:
            require(point is None, "Root without parent has an intersection", point=point)
            continue
        require(is_vector(point, 2), "Not a position", point=point)
        for jj in (ii, parent):
            require(
                level(bodies[jj], point) < 1 + 1e-9,
                "Intersection is not within both of the boundaries",
                point=point,
                level=level(bodies[jj], point),
                bodies=[bodies[ii], bodies[parent]],
            )
        for kwargs, jj in (
            ({"project_on_child": True}, ii),
            ({"project_on_child": False, "it_parent": parent}, parent),
        ):
            center = arr(bodies[jj]["center"])
            if np.linalg.norm(point - center) < 1e-6:
                continue
            surface = container.get_convergence_boundary_point(it_child=ii, **kwargs)
            require(abs(level(bodies[jj], surface) - 1) < 1e-6, "Not on the boundary", point=surface)
            require(angle_between(surface - center, point - center) < 1e-4, "Not in line with the intersection")
    # Radius of the convergence
    index = case["index"] % len(bodies)
    body = bodies[index]
    connected = [pp for pp in [points[index]] if pp is not None]
    connected += [points[ii] for ii, parent in enumerate(parents) if parent == index]
    center = arr(body["center"])
    position = center + rotation(body["angle"]) @ (arr(case["offset"]) * arr(body["axes"]))
    towards = bool(case["towards"] and connected)
    if towards:
        position = center + case["towards"] * (connected[0] - center)
    discard_unless(np.linalg.norm(position - center) > 1e-3)
    discard_unless(all(np.linalg.norm(pp - center) > 1e-3 for pp in connected))
    value = container[index].get_gamma(position, in_global_frame=True)
    radius = get_desired_radius(position, value, it_obs=index, obstacle_list=container)
    single = math.pi * 2 ** (-value)
    require(-1e-9 <= radius <= single + 1e-9, "Radius is limited by the one of a single boundary", got=radius)
    surface = center + (position - center) / level(body, position)
    others = [level(item, surface) for jj, item in enumerate(bodies) if jj != index]
    if not connected or all(other > 1 + 1e-6 for other in others):
        require(abs(radius - single) < 1e-6, "Radius of a single boundary", got=radius, want=single)
    elif towards and min(others) < 1 - 1e-3:
        require(radius < 1e-4, "Leads through the intersection", got=radius)
    if case["gammas"]:
        gammas = arr(case["gammas"])
        weights = get_weight_gamma_for_hulls(gammas)
        excess = np.maximum(gammas - 1, 0)
        want = excess / np.sum(excess) if np.sum(excess) else np.zeros(len(gammas))
        require(close(weights, want, 1e-9), "Weights of the hulls", got=weights, want=want)
        require(close(gammas, case["gammas"], 0), "Input modified")
    return ["" if any(parent >= 0 for parent in parents) else "trivial"]


# --- Graph of Gaussians ----------------------------------------------------------------------
@st.composite
def graph_case(draw):
    components = []
    for _ in range(draw(st.integers(1, 7))):
        components.append(
            {
                "mean": draw(vec(5, -2.0, 2.0)),
                "factors": draw(st.lists(vec(5, -0.8, 0.8), min_size=5, max_size=5)),
                "spread": draw(num(0.1, 0.8)),
                "weight": draw(num(0.05, 1.0)),
            }
        )
    return {
        "components": components,
        "attractor": draw(vec(2, -3.0, 3.0)),
        "way": draw(vec(2, 0.2, 2.0)),
        "oversize": draw(num(1.0, 3.0)),
        "twice": draw(st.booleans()),
    }


def create_graph(case):
    attractor, way = arr(case["attractor"]), arr(case["way"])
    positions = attractor + np.linspace(1, 0, 6)[:, None] * way
    velocities = np.tile(-way, (6, 1))
    velocities[-1] = 0
    data = np.empty((1, 1), dtype=object)
    data[0, 0] = np.vstack((positions.T, velocities.T))
    np.random.seed(0)
    with tempfile.TemporaryDirectory() as folder, silent():
        file_name = os.path.join(folder, "motion.mat")
        scipy.io.savemat(file_name, {"data": data})
        graph = GraphGMM(file_name=file_name, n_gaussian=1)
    covariances = []
    for item in case["components"]:
        factor = arr(item["factors"])
        covariances.append(factor @ factor.T + item["spread"] * np.eye(5))
    weights = arr([item["weight"] for item in case["components"]])
    graph.gmm.means_ = arr([item["mean"] for item in case["components"]])
    graph.gmm.covariances_ = np.array(covariances)
    graph.gmm.weights_ = weights / np.sum(weights)
    return graph


def check_graph(case):
    graph = create_graph(case)
    attractor = arr(case["attractor"])
    gmm = graph.gmm
    size = len(gmm.means_)
    require(graph.n_components == size == graph.n_gaussians and graph.dim_space == 2, "Size")
    require(close(graph.attractor_position, attractor, 1e-9), "Attractor")
    discard_unless(np.all(np.linalg.norm(gmm.means_[:, :2] - attractor, axis=1) > 1e-3))
    ends = []
    for gg in range(size):
        end = graph.get_end_point(gg)
        mean, cov = gmm.means_[gg], gmm.covariances_[gg][:2, :2]
        rel = end - mean[:2]
        require(is_vector(end, 2), "Not a position", end=end)
        require(
            abs(rel @ np.linalg.solve(cov, rel) - 2) < 1e-6,
            "End point is not on the ellipse of the Gaussian",
            got=rel @ np.linalg.solve(cov, rel),
        )
        want = get_angle_space_inverse(mean[4:], null_direction=attractor - mean[:2])
        require(angle_between(rel, want) < 1e-5, "End point is not along the learned direction", got=rel, want=want)
        ends.append(end)
    ends = np.array(ends)
    distances = np.linalg.norm(ends - attractor, axis=1)
    order = np.sort(distances)
    discard_unless(size == 1 or order[1] - order[0] > 1e-6)
    with silent():
        weights = graph.get_mixing_weights(
            X=ends, feat_in=np.arange(2), feat_out=np.array([4]), weight_factor=2
        ).T
        graph.create_learned_boundary(oversize_factor=case["oversize"])
        if case["twice"]:
            graph.create_graph_from_gaussians()
    exact = np.array(
        [
            [gmm.weights_[gg] * multivariate_normal.pdf(end, gmm.means_[gg, :2], gmm.covariances_[gg][:2, :2]) for gg in range(size)]
            for end in ends
        ]
    )
    discard_unless(np.min(exact) > 1e-200)
    root = int(np.argmin(distances))
    want, checked = attach(weights, root)
    require(len(graph) == size, "Number of boundaries")
    parents = [int(graph.get_parent(ii)) for ii in range(size)]
    require(parents[root] == -1 and int(graph.get_root()) == root, "Root is closest to the attractor", got=parents, want=root)
    seen = sorted(int(cc) for ii in range(size) for cc in graph.get_children(ii))
    require(seen == sorted(set(range(size)) - {root}), "Not attached exactly once", got=seen)
    for ii, parent in enumerate(parents):
        require(ii == root or ii in [int(cc) for cc in graph.get_children(parent)], "Parent and children differ")
    with silent():
        levels = [int(value) for value in graph.get_level_numbers()]
    require(
        all(levels[ii] == (0 if ii == root else levels[parents[ii]] + 1) for ii in range(size)),
        "Levels",
        got=levels,
        parents=parents,
    )
    require(
        int(graph.number_of_branches) == len(set(range(size)) - set(parents)), "Number of branches", parents=parents
    )
    if checked:
        require(parents == want, "Not attached by the greatest weight", got=parents, want=want)
    for gg in range(size):
        hull = graph[gg]
        turn = rotation(hull.orientation)
        shape = turn @ np.diag(np.array(hull.axes_length) ** 2) @ turn.T
        require(close(hull.center_position, gmm.means_[gg, :2], 1e-9), "Center of the boundary")
        require(
            close(shape, 2 * case["oversize"] ** 2 * gmm.covariances_[gg][:2, :2], 1e-6),
            "Shape of the boundary",
            got=shape,
            want=gmm.covariances_[gg][:2, :2],
        )
        require(hull.is_boundary, "Not a boundary")
    return ["" if size > 2 else "trivial"]


def attach(weights, root):
    """Parents after the greatest weight, and whether these are unique."""
    size = len(weights)
    parents = [-1] * size
    order = []
    for ii in range(size):
        others = [jj for jj in range(size) if jj != ii]
        others.sort(key=lambda jj: -weights[ii, jj])
        values = [weights[ii, jj] for jj in others]
        if any(aa - bb < 1e-9 * aa for aa, bb in zip(values[:-1], values[1:])):
            return parents, False
        order.append(others)
    assigned = {root}
    while len(assigned) < size:
        for rank in range(size - 1):
            found = [
                (ii, order[ii][rank]) for ii in range(size) if ii not in assigned and order[ii][rank] in assigned
            ]
            if not found:
                continue
            if rank and len(found) > 1:
                found.sort(key=lambda item: -weights[item])
                if weights[found[0]] - weights[found[1]] < 1e-9 * weights[found[0]]:
                    return parents, False
                found = found[:1]
            for child, parent in found:
                parents[child] = parent
            assigned |= {child for child, _ in found}
            break
    return parents, True


SUBS = [
    Sub("history", HISTORY, check_history, quick=800, shards=2, thorough=20000),
    Sub("hulls", hull_case(), check_hulls, quick=500, shards=2, thorough=12000),
    Sub("graph", graph_case(), check_graph, quick=300, shards=2, thorough=6000),
]
