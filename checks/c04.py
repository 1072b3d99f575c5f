"""C04: weighted mean of a tree of directions."""
import math

import numpy as np

from lib.gen import angle, count, nonzero_vec, num, st, vec, weights_simplex
from lib.pbt import Sub, discard_unless, require
from lib.ref import (
    angle_between,
    arr,
    close,
    is_vector,
    plane_rotation,
    random_rotation,
    rot2,
    unit,
    wrap,
)

from nonlinear_avoidance.vector_rotation import VectorRotationTree

PROPERTY = "C04"
RULE = (
    "Random trees of 1 to 7 directions below a root direction (2 to 4 dimensions; "
    "parent-child angles above pi - 0.05 discarded) with normalised non-negative "
    "weights over a random subset of nodes; non-trivial: at least two nodes carry "
    "weight and at least one edge turns by more than 1e-3 rad."
)


@st.composite
def tree_case(draw, dim=None, max_nodes=7):
    if dim is None:
        dim = draw(count(2, 4, 6))
    n_nodes = draw(count(1, max_nodes, 14))
    parents, directions = [], []
    root = draw(nonzero_vec(dim))
    for ii in range(n_nodes):
        parents.append(draw(st.integers(-1, ii - 1)))
        if draw(st.integers(0, 7)) == 0:  # no rotation with respect to the parent
            directions.append(
                list(root if parents[-1] < 0 else directions[parents[-1]])
            )
        else:
            directions.append(draw(nonzero_vec(dim)))
    return {
        "root": root,
        "parents": parents,
        "directions": directions,
        # the first weight belongs to the root
        "weights": draw(weights_simplex(n_nodes + 1)),
        "order": draw(st.permutations(range(n_nodes + 1))),
        "angles": [draw(angle()) for _ in range(6)],
        "x": draw(vec(dim)),
    }


def _name(ii):
    return "root" if ii < 0 else f"node{ii}"


def _build(case, mat=None):
    directions = arr(case["directions"])
    root = arr(case["root"])
    if mat is not None:
        directions, root = directions @ mat.T, mat @ root
    tree = VectorRotationTree(root_idx="root", root_direction=root)
    for ii, parent in enumerate(case["parents"]):
        tree.add_node(node_id=_name(ii), direction=directions[ii], parent_id=_name(parent))
    return tree


def _prepare(case):
    directions = [unit(d) for d in case["directions"]]
    root = unit(case["root"])
    discard_unless(
        len(case["weights"]) == len(directions) + 1
        and len(case["order"]) == len(directions) + 1
        and len(case["parents"]) == len(directions)
    )
    thetas = []
    for ii, parent in enumerate(case["parents"]):
        discard_unless(-1 <= parent < ii)
        p_dir = root if parent < 0 else directions[parent]
        thetas.append(angle_between(p_dir, directions[ii]))
        # Between 1e-6 and 1e-3 the plane is numerically arbitrary
        discard_unless(thetas[-1] < math.pi - 0.05)
        discard_unless(thetas[-1] < 1e-6 or thetas[-1] > 1e-3)
    weights = arr(case["weights"])
    discard_unless(np.all(weights >= 0) and np.sum(weights) > 1e-3)
    weights = weights / np.sum(weights)
    labels = [f"dim{len(root)}", f"weighted{int(np.sum(weights > 0))}"]
    if np.sum(weights > 0) < 2 or max(thetas) < 1e-3:
        labels.append("trivial")
    if any(p >= 0 for p in case["parents"]):
        labels.append("deep")
    return root, directions, thetas, weights, labels


def _mean(tree, case, weights, order=None):
    order = case["order"] if order is None else order
    ids = [_name(kk - 1) for kk in order]
    return tree.get_weighted_mean(node_list=ids, weights=[weights[kk] for kk in order])


def _reference(root, directions, parents, weights):
    """The same mean, with rotation matrices."""
    n_nodes = len(directions)
    dim = len(root)
    total = [weights[ii + 1] for ii in range(n_nodes)]
    for ii in reversed(range(n_nodes)):
        if parents[ii] >= 0:
            total[parents[ii]] += total[ii]
    level = []
    drag = []  # effect of partially rotated ancestors
    for ii in range(n_nodes):
        pp = parents[ii]
        level.append(1 if pp < 0 else level[pp] + 1)
        if pp < 0:
            drag.append(np.eye(dim))
        else:
            g_dir = root if parents[pp] < 0 else directions[parents[pp]]
            drag.append(drag[pp] @ plane_rotation(g_dir, directions[pp], total[pp] - 1))
    trafo = [np.eye(dim) for _ in range(n_nodes)]

    def descends(ii, anc):
        while ii >= 0:
            ii = parents[ii]
            if ii == anc:
                return True
        return False

    current = np.copy(root)
    for ll in range(1, max(level) + 1):
        nodes = [ii for ii in range(n_nodes) if level[ii] == ll and total[ii] > 0]
        if not nodes:
            continue
        mean = np.zeros(dim)
        rotations = {}
        for ii in nodes:
            first = root if parents[ii] < 0 else directions[parents[ii]]
            theta = angle_between(first, directions[ii])
            frame = trafo[ii] @ drag[ii]
            start, end = frame @ first, frame @ directions[ii]
            rotations[ii] = plane_rotation(start, end, total[ii])
            if theta > 1e-6:
                perp = unit(end - start * np.dot(start, end))
                mean = mean + total[ii] * theta * perp
        angle_mean = np.linalg.norm(mean)
        if angle_mean < 1e-14:
            step = np.eye(dim)
        else:
            perp = mean / angle_mean
            step = plane_rotation(current, perp, angle_mean / (0.5 * math.pi))
        for ii in nodes:
            for jj in range(n_nodes):
                if descends(jj, ii):
                    trafo[jj] = step @ rotations[ii].T @ trafo[jj]
        current = step @ current
    return current


def check_reference(case):
    root, directions, thetas, weights, labels = _prepare(case)
    expected = _reference(root, directions, case["parents"], weights)
    tree = _build(case)
    out = _mean(tree, case, weights)
    require(is_vector(out, len(root)), "mean is not finite", out=out)
    require(abs(np.linalg.norm(out) - 1) < 1e-6, "mean is not a unit vector", out=out)
    require(close(out, expected, 1e-5), "differs from the reference", out=out, expected=expected)
    # The evaluation keeps no memory: another one in between has no effect
    other = np.ones(len(weights)) / len(weights)
    _mean(tree, case, other)
    again = _mean(tree, case, weights)
    require(close(again, out, 1e-9), "depends on previous evaluations", out=out, again=again)
    ordered = _mean(tree, case, weights, order=range(len(weights)))
    require(close(ordered, out, 1e-6), "depends on the order of the nodes")
    return labels


def check_planar(case):
    """In the plane rotations commute: angles relative to the root add up."""
    root, directions, thetas, weights, labels = _prepare(case)
    rel = []
    for ii, parent in enumerate(case["parents"]):
        p_dir = root if parent < 0 else directions[parent]
        delta = wrap(
            math.atan2(directions[ii][1], directions[ii][0]) - math.atan2(p_dir[1], p_dir[0])
        )
        rel.append(delta + (0.0 if parent < 0 else rel[parent]))
    total = sum(w * r for w, r in zip(weights[1:], rel))
    expected = rot2(total) @ root
    out = _mean(_build(case), case, weights)
    require(close(out, expected, 1e-5), "not the mean of the angles", out=out, expected=expected)
    if abs(total) > math.pi:
        labels.append("more-than-pi")
    return labels


def check_selected(case):
    """Full weight on one node selects its direction; unused nodes have no influence;
    the mean moves with the frame."""
    root, directions, thetas, weights, labels = _prepare(case)
    tree = _build(case)
    for kk in range(len(weights)):
        one = np.zeros(len(weights))
        one[kk] = 1.0
        out = _mean(tree, case, one)
        expected = root if kk == 0 else directions[kk - 1]
        require(close(out, expected, 1e-5), "full weight", node=_name(kk - 1), out=out)
        out = tree.get_weighted_mean(node_list=[_name(kk - 1)], weights=[1.0])
        require(close(out, expected, 1e-5), "full weight on the only listed node", out=out)
    out = _mean(tree, case, weights)
    used = [kk for kk in range(len(weights)) if weights[kk] > 0]
    only = _mean(tree, case, weights, order=used)
    require(close(out, only, 1e-6), "nodes without weight have an influence", out=out, only=only)
    mat = random_rotation(len(root), case["angles"])
    moved = _mean(_build(case, mat), case, weights)
    require(close(moved, mat @ out, 1e-5), "depends on the frame", out=mat @ out, moved=moved)
    return labels


def check_sequence(case):
    """The mean as a sequence: a chain from the root direction to the mean."""
    root, directions, thetas, weights, labels = _prepare(case)
    tree = _build(case)
    ids = [_name(kk - 1) for kk in range(len(weights))]
    sequence = tree.reduce_weighted_to_sequence(node_list=ids, weights=list(weights))
    mean = tree.get_weighted_mean(node_list=ids, weights=list(weights))
    require(close(sequence.get_end_vector(), mean, 1e-9), "end vector of the sequence")
    start = root
    for ii in range(sequence.n_rotations):
        base, ang = sequence.basis_array[:, ii, :], sequence.rotation_angles[ii]
        require(close(base[:, 0], start, 1e-5), "sequence is no chain", ii=ii, start=start)
        start = math.cos(ang) * base[:, 0] + math.sin(ang) * base[:, 1]
        require(abs(np.linalg.norm(start) - 1) < 1e-5, "no rotation", ii=ii)
    require(close(start, mean, 1e-5), "sequence does not end at the mean")
    out = sequence.rotate(root)
    require(close(out, mean, 1e-5), "rotating the root direction", out=out, mean=mean)
    return labels


def check_rotate(case):
    """The tree as one rotation from the root direction to its mean, and its inverse."""
    root, directions, thetas, weights, labels = _prepare(case)
    tree = _build(case)
    ids = [_name(kk - 1) for kk in range(len(weights))]
    ws = list(weights)
    mean = tree.get_weighted_mean(node_list=ids, weights=ws)
    theta = angle_between(root, mean)
    discard_unless(1e-3 < theta < math.pi - 0.02)
    xx = arr(case["x"])
    scale = 1 + np.linalg.norm(xx)
    out = tree.rotate(xx, node_list=ids, weights=ws)
    expected = plane_rotation(root, mean) @ xx
    require(close(out, expected, 1e-5 * scale), "rotation", out=out, expected=expected)
    back = tree.inverse_rotate(out, node_list=ids, weights=ws)
    require(close(back, xx, 1e-5 * scale), "inverse rotation", back=back)
    return labels


SUBS = [
    Sub("reference", tree_case(), check_reference, quick=1000),
    Sub("planar", tree_case(dim=2), check_planar, quick=1000),
    Sub("selected", tree_case(), check_selected, quick=500),
    Sub("sequence", tree_case(), check_sequence, quick=800),
    Sub("rotate", tree_case(), check_rotate, quick=500),
]
