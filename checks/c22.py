"""C22: motions learned from demonstrations by clustering."""
import math

import numpy as np

from lib.gen import angle, count, num, st, vec
from lib.pbt import Discard, Sub, discard_unless, require
from lib.ref import arr, close, is_vector, rot2, unit
from lib.scene import direction2

from vartools.handwritting_handler import MotionDataHandler

from nonlinear_avoidance.kmeans_learner.kmeans_motion_learner import (
    KMeansMotionLearner,
    create_kmeans_learner_from_learner,
)

PROPERTY = "C22"
RULE = (
    "One to three repetitions of a smooth, curved path (not returning to itself) with "
    "noise and outliers, two to seven clusters or given centers, two radius factors; positions on the data, "
    "around all surfaces, close to walls between regions and far away. Non-trivial: at "
    "least three clusters."
)
ASSUMPTIONS = [
    "Clustering and support-vector regression of scikit-learn (seeded).",
    "The handling of demonstrations is given by the stand-in library.",
]


@st.composite
def demo_case(draw, rough=True):
    n_seeds = draw(st.integers(0, 1000))
    return {
        "heading": draw(angle()),
        "turn": draw(num(-1.2, 1.2)),
        "wave": draw(num(-0.8, 0.8)),
        "length": draw(num(3.0, 8.0)),
        "samples": draw(st.integers(30, 60)),
        "repeat": draw(st.integers(1, 3)) if rough else 1,
        "noise": draw(st.sampled_from([0.0, 0.01, 0.05])) if rough else 0.0,
        "outliers": [draw(vec(2, -3.0, 3.0)) for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))] if rough else [],
        "outlier_at": draw(num(0.0, 1.0)),
        "attractor": draw(vec(2, -3.0, 3.0)),
        "clusters": draw(count(2, 7, 10)),
        "given": draw(st.integers(0, 3)) == 0,
        "factor": draw(st.sampled_from([0.7, 0.7, 0.55, 1.0])),
        "seed": n_seeds,
    }


def demonstration(case):
    rng = np.random.default_rng(case["seed"])
    n = case["samples"]
    time = np.linspace(0, 1, n)
    heading = case["heading"] + case["turn"] * 2 * time + case["wave"] * np.sin(2 * np.pi * time)
    path = np.cumsum(case["length"] / n * np.vstack((np.cos(heading), np.sin(heading))).T, axis=0)
    path = path - path[-1]
    # No returning to itself
    chord = np.linalg.norm(path[:, None] - path[None], axis=2)
    arc = case["length"] * np.abs(time[:, None] - time[None])
    discard_unless(np.all(chord > 0.6 * arc - 1e-9))
    positions, velocities, sequence = [], [], []
    for ii in range(case["repeat"]):
        offset = rng.normal(size=path.shape) * case["noise"] * (1 - time[:, None])
        positions.append(path + offset)
        velocities.append(np.vstack((np.diff(path + offset, axis=0) * n, np.zeros((1, 2)))))
        sequence.append(time)
    for place in case["outliers"]:
        positions.append(path[:1] * case["outlier_at"] + 3 * arr(place))
        velocities.append(np.ones((1, 2)))
        sequence.append(np.array([1 - case["outlier_at"]]))
    data = MotionDataHandler(position=np.vstack(positions) + arr(case["attractor"]))
    data.velocity = np.vstack(velocities)
    data.sequence_value = np.hstack(sequence)
    data.attractor = arr(case["attractor"])
    return data, path + arr(case["attractor"])


def learn(case):
    data, path = demonstration(case)
    np.random.seed(case["seed"])
    before = data.position.copy(), data.velocity.copy(), data.sequence_value.copy(), data.attractor.copy()
    if case["given"]:
        index = np.linspace(0, len(path) - 1, case["clusters"] + 2).round().astype(int)[1:-1]
        learner = KMeansMotionLearner.from_centers(path[index].T.copy(), data)
    else:
        try:
            learner = KMeansMotionLearner(data, n_clusters=case["clusters"], radius_factor=case["factor"])
        except NotImplementedError:
            # The center of a cluster (of one sample) is the attractor
            at_rest = np.linalg.norm(data.position - data.attractor, axis=1) < 1e-9
            discard_unless(case["clusters"] <= 7 or not np.any(at_rest))
            raise
    after = data.position, data.velocity, data.sequence_value, data.attractor
    require(all(close(a, b, 0) for a, b in zip(before, after)), "Demonstration modified")
    return learner, data, path


def chain_of(learner, data, labels):
    """Clusters from the first to the last one, by the mean of the sequence."""
    means = [np.mean(data.sequence_value[labels == ii]) for ii in range(learner.n_clusters)]
    order = np.argsort(means)
    discard_unless(np.all(np.diff(np.sort(means)) > 1e-9))
    return [int(ii) for ii in order]


def check_fit(case):
    learner, data, path = learn(case)
    centers, n_clusters = learner.kmeans.cluster_centers_, learner.n_clusters
    require(centers.shape == (n_clusters, 2) and 1 <= n_clusters <= case["clusters"], "Clusters", got=n_clusters)
    require(learner.get_number_of_features() == n_clusters and learner.dimension == 2, "Size of the learner")
    require(close(learner.attractor_position, data.attractor, 0), "Attractor")
    dists = np.linalg.norm(data.position[:, None] - centers[None], axis=2)
    require(
        close(learner.get_distance_from_centers(data.position[0]), dists[0], 1e-9), "Distance from the centers"
    )
    labels = np.argmin(dists, axis=1)
    chosen = np.asarray(learner.kmeans.labels_)
    for ii in range(len(labels)):
        require(0 <= chosen[ii] < n_clusters, "Label of a sample", got=chosen[ii], n_clusters=n_clusters)
        require(
            dists[ii, chosen[ii]] < dists[ii, labels[ii]] + 1e-9,
            "Sample is not assigned to its closest cluster",
            sample=ii,
            got=chosen[ii],
            want=labels[ii],
        )
    if not case["given"]:
        counts = np.bincount(chosen, minlength=n_clusters)
        require(min(counts) > 0, "Cluster without samples", counts=counts)

    factor = 0.7 if case["given"] else case["factor"]
    chain = chain_of(learner, data, chosen)
    for jj, ii in enumerate(chain):
        after = [chain[jj + 1]] if jj + 1 < len(chain) else []
        before = [chain[jj - 1]] if jj else []
        require(list(learner.get_successors(ii)) == after, "Successor", got=learner.get_successors(ii), want=after)
        require(list(learner.get_predecessors(ii)) == before, "Predecessor", got=learner.get_predecessors(ii))
        region = learner.region_obstacles[ii]
        require(close(region.center_position, centers[ii], 0), "Order of the regions")
        require(list(region.successor_index) == after, "Open walls of the region", got=region.successor_index)
        require(region.radius == learner.region_radius_, "Radius of the region")
        if after:
            gap = np.linalg.norm(centers[ii] - centers[after[0]])
            require(gap < 2 * learner.region_radius_, "Consecutive regions do not touch", gap=gap)
            middle = (centers[ii] + centers[after[0]]) / 2
            if np.argsort(np.linalg.norm(centers - middle, axis=1))[:2].tolist() in ([ii, after[0]], [after[0], ii]):
                require(
                    region.get_gamma(middle, in_global_frame=True) > 1e9, "Wall to the successor is closed"
                )
        again = create_kmeans_learner_from_learner(learner, ii)
        require(
            close(again.center_position, centers[ii], 0) and list(again.successor_index) == after, "Region of the learner"
        )
    stops = np.vstack((centers[chain], data.attractor))
    want = np.linalg.norm(np.diff(stops, axis=0), axis=1)
    got = learner.compute_distances_to_neighbours()
    require(close(np.sort(got), np.sort(want), 1e-9), "Distances to the next ones", got=got, want=want)
    require(learner.region_radius_ >= factor * max(want[:-1], default=0) - 1e-9, "Radius too small for the gaps")
    require(
        np.linalg.norm(centers[chain[-1]] - data.attractor) <= learner.region_radius_ / (2 * factor) * (1 + 1e-9),
        "Attractor is not reached by the last region",
    )
    for ii, position in enumerate(data.position):
        others = np.sort(dists[ii])
        if len(others) > 1 and others[1] - others[0] < 1e-6:
            continue
        require(
            learner.region_obstacles[chosen[ii]].is_inside(position, in_global_frame=True),
            "Sample is outside of the region of its cluster",
            sample=ii,
        )
    return ["" if n_clusters > 2 else "trivial"]


def weight_case():
    return st.fixed_dictionaries(
        {
            "demo": demo_case(),
            "cluster": st.integers(0, 6),
            "directions": st.lists(angle(), min_size=6, max_size=6),
            "shares": st.lists(num(0.05, 0.95), min_size=6, max_size=6),
            "far": angle(),
            "far_dist": num(4.5, 9.0),
        }
    )


def check_predict(case):
    learner, data, path = learn(case["demo"])
    centers, radius = learner.kmeans.cluster_centers_, learner.region_radius_
    index = case["cluster"] % learner.n_clusters
    region = learner.region_obstacles[index]
    center = centers[index]
    open_walls = learner.get_successors(index) + learner.get_predecessors(index)
    labels = []

    for phi, share in zip(case["directions"], case["shares"]):
        direction = direction2(phi)
        # Ball and planes halfway between the centers
        lengths = [(radius, -1, direction)]
        for ii, other in enumerate(centers):
            dist = np.linalg.norm(other - center)
            if ii == index or dist >= 2 * radius:
                continue
            outward = (other - center) / dist
            if (along := np.dot(outward, direction)) > 1e-6:
                lengths.append((dist / 2 / along, ii, outward))
        lengths.sort(key=lambda entry: entry[0])
        length, wall, outward = lengths[0]

        position = center + share * length * direction
        before = position.copy()
        weights = learner._predict_sequence_weights(position)
        lyapunov = learner.predict_averaged_lyapunov(position)
        require(is_vector(lyapunov, 2) and abs(np.linalg.norm(lyapunov) - 1) < 1e-6, "Direction", got=lyapunov)
        again = learner.predict_averaged_lyapunov(position, weights=weights, indexes_relative=weights > 0)
        require(close(lyapunov, again, 1e-9), "Direction of given weights", got=again, want=lyapunov)
        previous = learner.get_predecessors(index)
        require(weights.shape == (learner.n_clusters,), "Shape of the weights")
        require(np.all(weights >= -1e-9) and abs(np.sum(weights) - 1) < 1e-9, "Weights", got=weights)
        for ii, weight in enumerate(weights):
            require(
                ii == index or ii in previous or not weight, "Weight of a cluster without influence", cluster=ii
            )
        if previous:
            # Towards the wall to the predecessor: 0 at its center, 0.5 half way
            delta = centers[previous[0]] - center
            gap = np.linalg.norm(delta) / 2
            advance = np.dot(position - center, delta) / (2 * gap) / gap
            if advance <= 0.5 - 1e-9:
                require(not weights[previous[0]], "Predecessor has an influence far from its wall", got=weights)
            else:
                labels.append("transition")
                require(weights[previous[0]] <= 2 * advance - 1 + 1e-6, "Weight of the predecessor", got=weights)
        velocity = learner.predict(position)
        require(is_vector(velocity, 2), "Velocity", got=velocity)
        require(close(learner.evaluate(position), velocity, 1e-9), "Velocity changes when repeated")
        require(close(before, position, 0), "Position modified")

        gap = min([entry[0] for entry in lengths[1:]], default=math.inf) - length
        if wall in open_walls or gap < 0.05 * length:
            continue
        labels.append("surface")
        surface = center + (1 - 1e-6) * length * direction
        velocity = learner.predict(surface)
        require(is_vector(velocity, 2), "Velocity at the surface", got=velocity)
        require(
            np.dot(velocity, outward) <= 1e-3 * np.linalg.norm(velocity),
            "Leaves the region through a closed wall",
            velocity=velocity,
            position=surface,
            outward=outward,
        )

    # Far away: linear towards the attractor
    span = max(np.linalg.norm(centers - data.attractor, axis=1))
    far = data.attractor + direction2(case["far"]) * (span + case["far_dist"] * radius)
    velocity = learner.predict(far)
    require(is_vector(velocity, 2), "Velocity far away", got=velocity)
    require(
        close(unit(velocity), unit(data.attractor - far), 1e-6) and np.linalg.norm(velocity) < 1 + 1e-6,
        "Velocity far away is not towards the attractor",
        got=velocity,
    )
    return labels + ["" if learner.n_clusters > 2 else "trivial"]


@st.composite
def motion_case(draw):
    return {"demo": draw(demo_case(rough=False)), "start": draw(num(0.0, 0.6)), "aside": draw(num(-0.1, 0.1))}


def check_motion(case):
    learner, data, path = learn(case["demo"])
    index = int(case["start"] * (len(path) - 2))
    ahead = unit(path[index + 1] - path[index])
    position = path[index] + case["aside"] * np.array([-ahead[1], ahead[0]])
    length = case["demo"]["length"]
    step = length / 400
    for ii in range(1200):
        velocity = learner.predict(position)
        require(is_vector(velocity, 2), "Velocity", got=velocity, position=position)
        speed = np.linalg.norm(velocity)
        if np.linalg.norm(position - data.attractor) < 0.05 * length:
            return ["" if learner.n_clusters > 2 else "trivial"]
        require(speed > 1e-6, "Stops before the attractor", position=position)
        position = position + velocity / speed * step
        label = np.argmin(np.linalg.norm(learner.kmeans.cluster_centers_ - position, axis=1))
        require(
            np.linalg.norm(learner.kmeans.cluster_centers_[label] - position) < learner.region_radius_ + 2 * step,
            "Leaves the regions",
            position=position,
        )
    require(False, "Does not reach the attractor", position=position)


SUBS = [
    Sub("fit", demo_case(), check_fit, quick=200, shards=2, thorough=5000),
    Sub("predict", weight_case(), check_predict, quick=200, shards=3, thorough=5000),
    Sub("motion", motion_case(), check_motion, quick=24, shards=3, thorough=600),
]
