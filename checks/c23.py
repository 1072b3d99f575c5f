"""C23: obstacles which are learned as mixture of gaussians."""
import math

import numpy as np

from lib.gen import angle, count, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, random_rotation, unit
from lib.ref import close as is_close, is_vector as vector_shape

from nonlinear_avoidance.gmm_obstacle import GmmObstacle

PROPERTY = "C23"


def close(got, want, message, tol=1e-6):
    require(is_close(got, want, tol), message, got=got, want=want)


def is_vector(value, dim, message):
    require(vector_shape(value, dim), message + " is no vector", got=value)

RULE = (
    "One to five groups of samples with known means and covariances, in two and three "
    "dimensions, at 8 to 30 standard deviations from each other; positions inside, on and "
    "outside of the ellipses, which overlap or not. Discarded: clusterings other than the "
    "groups. Non-trivial: more than one component or an anisotropic one."
)
ASSUMPTIONS = ["The mixture found by scikit-learn for well separated groups is correct."]


@st.composite
def mixture_case(draw, n_max=4, dims=(2, 2, 3)):
    dim = draw(st.sampled_from(dims))
    n_groups = draw(count(1, n_max, n_max + 2))
    case = {
        "dim": dim,
        "centers": [draw(vec(dim, -8.0, 8.0))],
        "axes": [draw(st.lists(num(0.2, 1.0) if draw(st.booleans()) else num(0.7, 1.0), min_size=dim, max_size=dim)) for _ in range(n_groups)],
        "turn": [draw(st.lists(angle(), min_size=3, max_size=3)) for _ in range(n_groups)],
        "factor": draw(st.one_of(st.just(2.0), num(0.5, 9.0), num(6.0, 12.0), num(6.0, 12.0))),
        "index": draw(st.integers(0, n_groups - 1)),
        "direction": draw(nonzero_vec(dim, -1.0, 1.0)),
        "share": draw(st.one_of(num(0.05, 1.0), num(1.0, 1.2), num(1.0, 8.0), st.sampled_from([0.0, 1.0]))),
        "offset": draw(nonzero_vec(dim, -1.0, 1.0)),
        "offset_share": draw(num(0.0, 0.95)),
        "power": draw(st.sampled_from([1, 2, 5])),
    }
    for _ in range(1, n_groups):
        base = draw(st.integers(0, len(case["centers"]) - 1))
        step = unit(arr(draw(nonzero_vec(dim, -1.0, 1.0)))) * draw(num(8.0, 12.0))
        case["centers"].append((arr(case["centers"][base]) + step).round(7).tolist())
    return case


class Mixture:
    def __init__(self, case):
        self.dim = case["dim"]
        self.factor = case["factor"]
        self.means, self.covs, samples = [], [], []
        for center, axes, turn in zip(case["centers"], case["axes"], case["turn"]):
            base = random_rotation(self.dim, turn) @ np.diag(axes)
            spread = math.sqrt(self.dim) * np.hstack((base, -base))
            samples.append(arr(center)[:, None] + spread)
            self.means.append(arr(center))
            self.covs.append(base @ base.T + 1e-6 * np.eye(self.dim))
        self.n = len(self.means)
        for ii in range(self.n):
            for jj in range(self.n):
                if ii != jj:
                    delta = samples[jj] - self.means[ii][:, None]
                    dist = np.min(np.sum(delta * (np.linalg.inv(self.covs[ii]) @ delta), axis=0))
                    discard_unless(dist > 40)
        self.samples = np.hstack(samples)
        self.obstacle = GmmObstacle(n_gmms=self.n, variance_factor=self.factor)
        before = self.samples.copy()
        self.obstacle.fit(self.samples)
        require(np.array_equal(before, self.samples), "Fit modified the samples")
        # Order of the components is arbitrary
        order = []
        for ii in range(self.n):
            center = self.obstacle.get_center_position(ii)
            is_vector(center, self.dim, "Center")
            order.append(int(np.argmin([np.linalg.norm(center - m) for m in self.means])))
        if self.n > 1:
            discard_unless(sorted(order) == list(range(self.n)))
            discard_unless(
                all(
                    np.linalg.norm(self.obstacle.get_center_position(ii) - self.means[jj]) < 1e-6
                    for ii, jj in enumerate(order)
                )
            )
        else:
            close(self.obstacle.get_center_position(0), self.means[0], "Center", tol=1e-7)
        self.means = [self.means[jj] for jj in order]
        self.covs = [self.covs[jj] for jj in order]
        self.inv = [np.linalg.inv(cov) for cov in self.covs]

    def gamma(self, position, index):
        delta = position - self.means[index]
        return math.sqrt(delta @ self.inv[index] @ delta) / self.factor

    def place(self, direction, share, index):
        """Position at `share` of the way to the surface."""
        step = unit(direction)
        return self.means[index] + step * share / self.gamma(self.means[index] + step, index)


def labels_of(case, mixture, extra=()):
    axes = case["axes"]
    trivial = mixture.n == 1 and max(axes[0]) - min(axes[0]) < 0.05
    return (["trivial"] if trivial else []) + [f"n={mixture.n}"] + list(extra)


def check_surface(case):
    mix = Mixture(case)
    obs, index = mix.obstacle, case["index"]
    pos = mix.place(arr(case["direction"]), case["share"], index)
    keep = pos.copy()
    delta = pos - mix.means[index]
    gamma = mix.gamma(pos, index)

    got = obs.get_gamma_proportional(pos, index)
    require(abs(got - gamma) < 1e-5 * (1 + gamma), "Proportional Gamma", got=got, want=gamma)
    got = obs.get_gamma(pos, index)
    if gamma > 1e-6:
        want = np.linalg.norm(delta) * (1 - 1 / gamma) + 1
        require(abs(got - want) < 1e-4 * (1 + abs(want)), "Gamma", got=got, want=want)
    else:
        require(got < 1, "Gamma at the center", got=got)
    normal = obs.get_normal_direction(pos, index)
    is_vector(normal, mix.dim, "Normal")
    require(abs(np.linalg.norm(normal) - 1) < 1e-7, "Normal is no unit vector", normal=normal)
    reference = obs.get_reference_direction(pos, index)
    is_vector(reference, mix.dim, "Reference")
    require(abs(np.linalg.norm(reference) - 1) < 1e-7, "Reference is no unit vector")
    if gamma > 1e-6:
        close(normal, unit(mix.inv[index] @ delta), "Normal", tol=1e-4)
        close(reference, unit(delta), "Reference direction", tol=1e-4)
        surface = obs.project_point_on_surface(pos, index)
        close(surface, mix.means[index] + delta / gamma, "Surface point", tol=1e-4)
        power = case["power"]
        want = power * gamma ** (power - 2) * (mix.inv[index] @ delta) / mix.factor**2
        got = obs.get_gamma_derivative(pos, index, power)
        scale = 1 + np.linalg.norm(want)
        require(np.linalg.norm(got - want) < 1e-4 * scale, "Derivative", got=got, want=want)

    obs.evaluate_axes_length_and_direction()
    circle = obs.transform_position_to_unitcircle_frame(pos, index)
    require(abs(np.linalg.norm(circle) - 0.5 * gamma) < 1e-5 * (1 + gamma), "Unit circle", got=circle)
    close(obs.transform_position_from_unitcircle_frame(circle, index), pos, "Back from circle", tol=1e-6)
    inside = mix.place(arr(case["offset"]), case["offset_share"], index)
    if np.linalg.norm(pos - inside) > 1e-3:
        point = obs.project_point_on_surface_with_offcenter_point(pos, inside, index)
        is_vector(point, mix.dim, "Projected point")
        require(abs(mix.gamma(point, index) - 1) < 1e-4, "Projection is not on the surface", point=point)
        require(
            angle_between(point - inside, pos - inside) < 1e-4, "Projection is not on the ray", point=point
        )
    require(np.array_equal(keep, pos), "Position modified")

    if mix.dim == 2:
        ellipses = obs.transform_to_analytic_ellipses()
        require(len(ellipses) == mix.n, "Number of ellipses")
        point = mix.place(arr(case["direction"]), 1.0, index)
        got = ellipses[index].get_gamma(point, in_global_frame=True)
        require(abs(got - 1) < 1e-4, "Surface of the ellipse", got=got)
        close(ellipses[index].center_position, mix.means[index], "Center of the ellipse", tol=1e-5)
    where = "inside" if gamma < 1 - 1e-6 else "outside" if gamma > 1 + 1e-6 else "surface"
    return labels_of(case, mix, [where])


def check_tree(case):
    mix = Mixture(case)
    obs = mix.obstacle
    obs.evaluate_hirarchy_and_reference_points()
    graph = obs.gmm_index_graph
    roots = list(graph.roots)
    require(len(roots) == 1, "One root", roots=roots)
    root = roots[0]
    require(root in range(mix.n), "Index of the root", root=root)
    mean = np.mean(mix.means, axis=0)
    dist = [np.linalg.norm(m - mean) for m in mix.means]
    require(dist[root] <= min(dist) + 1e-6, "Root is the most central one", root=root, dist=dist)
    close(obs.get_kernel_point(root), mix.means[root], "Kernel point of the root", tol=1e-5)
    touching = 0
    for ii in range(mix.n):
        steps, node = 0, ii
        while node != root:
            node = graph.get_parent(node)
            steps += 1
            require(node is not None and steps <= mix.n, "No path to the root", start=ii)
        if ii == root:
            require(graph.get_parent(ii) is None, "Root has no parent")
            continue
        parent = graph.get_parent(ii)
        point = obs.get_kernel_point(ii)
        is_vector(point, mix.dim, "Kernel point")
        middle = 0.5 * (mix.means[ii] + mix.means[parent])
        if max(mix.gamma(middle, ii), mix.gamma(middle, parent)) < 0.95:
            touching += 1
            require(
                max(mix.gamma(point, ii), mix.gamma(point, parent)) <= 1.0,
                "Kernel point is not in both components",
                point=point, gammas=[mix.gamma(point, ii), mix.gamma(point, parent)],
            )
    value = arr(case["offset"])
    others = [obs.get_kernel_point(ii).copy() for ii in range(mix.n)]
    obs.set_kernel_point(value, case["index"])
    for ii in range(mix.n):
        want = value if ii == case["index"] else others[ii]
        close(obs.get_kernel_point(ii), want, "Kernel point after setting one", tol=1e-12)
    return labels_of(case, mix, ["touching"] if touching else [])


def check_weights(case):
    mix = Mixture(case)
    obs = mix.obstacle
    obs.evaluate_hirarchy_and_reference_points()
    root = obs.gmm_index_graph.roots[0]
    pos = mix.place(arr(case["direction"]), case["share"], case["index"])
    keep = pos.copy()
    gammas = arr([mix.gamma(pos, ii) for ii in range(mix.n)])
    discard_unless(np.min(np.abs(gammas - 1)) > 1e-4)
    obs.evaluate_gamma_weights(pos)
    require(np.array_equal(keep, pos), "Position modified")
    weights = arr(obs.relative_weights)
    require(weights.shape == (mix.n,) and np.all(np.isfinite(weights)), "Weights", weights=weights)
    require(np.all(weights >= 0) and abs(np.sum(weights) - 1) < 1e-7, "Weights sum to one", weights=weights)
    close(obs.gamma_list, gammas, "List of Gamma", tol=1e-4 * (1 + np.max(gammas)))
    inside = gammas < 1
    if np.any(inside):
        close(weights, inside / np.sum(inside), "Weights inside", tol=1e-9)
        label = "inside"
    else:
        share = weights * (gammas - 1)
        require(share[root] > 0, "Root is never hidden", weights=weights)
        share = share / share[root]
        require(np.all(share < 1 + 1e-4), "Weight above the inverse distance", share=share)
        label = "outside"
        for ii in range(mix.n):
            if ii == root:
                continue
            if share[ii] > 1 - 1e-4:
                # Not hidden
                parent = obs.gmm_index_graph.get_parent(ii)
                kernel = obs.get_kernel_point(ii)
                if mix.gamma(kernel, ii) < 0.99:
                    point = obs.project_point_on_surface_with_offcenter_point(pos, kernel, ii)
                    lean = np.dot(pos - kernel, mix.means[parent] - kernel)
                    require(
                        mix.gamma(point, parent) > 0.99 or lean < 1e-6,
                        "Component is not hidden by its parent", share=share, index=ii,
                    )
                continue
            label = "hidden"
            # Only the parent hides a component
            parent = obs.gmm_index_graph.get_parent(ii)
            kernel = obs.get_kernel_point(ii)
            require(mix.gamma(kernel, ii) <= 1 + 1e-5, "Hidden although apart", share=share)
            point = obs.project_point_on_surface_with_offcenter_point(pos, kernel, ii)
            require(mix.gamma(point, parent) < 1 + 1e-5, "Hidden although in front", share=share)
            require(np.dot(pos - kernel, mix.means[parent] - kernel) > -1e-9, "Hidden although opposite")

    # Mean directions
    directions = np.vstack([unit(pos - m) if gammas[ii] > 1e-9 else unit(np.eye(mix.dim)[0]) for ii, m in enumerate(mix.means)])
    opposite = min(np.dot(directions[root], d) for d in directions)
    obs.evalute_weighted_reference_and_normal_offset(pos)
    for name, vector in [("reference", obs.mean_reference), ("normal", obs.mean_normal)]:
        is_vector(vector, mix.dim, "Mean " + name)
        require(abs(np.linalg.norm(vector) - 1) < 1e-7, "Mean is no unit vector", name=name, vector=vector)
    if np.sum(weights > 1e-12) == 1 and gammas[np.argmax(weights)] > 1e-6:
        only = int(np.argmax(weights))
        close(obs.mean_reference, directions[only], "Reference of a single component", tol=1e-4)
        close(obs.mean_normal, unit(mix.inv[only] @ (pos - mix.means[only])), "Normal of a single component", tol=1e-4)
    elif mix.dim == 2 and np.min(gammas) > 1e-6 and opposite > -0.99:
        base = directions[root]
        angles = np.arctan2(base[0] * directions[:, 1] - base[1] * directions[:, 0], directions @ base)
        turn = float(np.sum(angles * weights))
        want = arr([[math.cos(turn), -math.sin(turn)], [math.sin(turn), math.cos(turn)]]) @ base
        close(obs.mean_reference, want, "Mean reference", tol=1e-4)
        normals = np.vstack([unit(mix.inv[ii] @ (pos - m)) for ii, m in enumerate(mix.means)])
        offset = weights @ (normals - directions)
        if np.linalg.norm(offset) > 1e-3:
            lean = -float(np.dot(offset, want)) / np.linalg.norm(offset)
            scale = 1.0 if lean < math.sqrt(0.5) else math.sqrt(2) * lean
            if np.linalg.norm(scale * want + offset) > 1e-2:
                close(obs.mean_normal, unit(scale * want + offset), "Mean normal", tol=1e-2)
    return labels_of(case, mix, [label])


SUBS = [
    Sub("surface", mixture_case(), check_surface, quick=800, thorough=20000, shards=4),
    Sub("tree", mixture_case(n_max=5), check_tree, quick=400, thorough=8000, shards=4),
    Sub("weights", mixture_case(n_max=5), check_weights, quick=600, thorough=15000, shards=4),
]
