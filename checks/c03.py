"""C03: sequences of rotations."""
import math

import numpy as np

from lib.gen import count, nonzero_vec, num, st, vec, weights_simplex
from lib.pbt import Sub, Violation, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, plane_rotation, unit

from nonlinear_avoidance.vector_rotation import (
    VectorRotationSequence,
    VectorRotationTree,
    VectorRotationXd,
)

PROPERTY = "C03"
RULE = (
    "Lists of 2 to 5 directions in 2 to 4 dimensions (repeated, almost repeated and "
    "general; successive angles above pi - 0.02 discarded) with random vectors and "
    "weights; non-trivial: at least one successive pair is more than 1e-3 rad apart."
)


@st.composite
def seq_case(draw, max_len=8):
    dim = draw(count(2, 4, 6))
    n_vec = draw(count(2, max_len, 12))
    vectors = [draw(nonzero_vec(dim))]
    for _ in range(n_vec - 1):
        mode = draw(st.integers(0, 6))
        if mode == 0:
            vectors.append([2 * x for x in vectors[-1]])
        elif mode == 1:
            eps = draw(st.sampled_from([1e-9, 1e-8, 3e-8, 1e-7, 1e-6, 1e-4]))
            vectors.append([x + eps * y for x, y in zip(vectors[-1], draw(vec(dim)))])
        else:
            vectors.append(draw(nonzero_vec(dim)))
    return {
        "vectors": vectors,
        "x": draw(vec(dim)),
        "weights": draw(weights_simplex(n_vec - 1)),
        "v1": draw(nonzero_vec(dim)),
        "v2": draw(nonzero_vec(dim)),
        "factor": draw(num(-1.5, 1.5)),
    }


def _prepare(case):
    vectors = arr(case["vectors"]).T
    discard_unless(np.all(np.linalg.norm(vectors, axis=0) > 5e-3))
    thetas = [
        angle_between(vectors[:, ii], vectors[:, ii + 1])
        for ii in range(vectors.shape[1] - 1)
    ]
    discard_unless(max(thetas) < math.pi - 0.02)
    labels = [f"n{len(thetas)}", f"dim{vectors.shape[0]}"]
    if max(thetas) < 1e-3:
        labels.append("trivial")
    if min(thetas) < 1e-3:
        labels.append("with-parallel")
    tol = 1e-6 if min(thetas) > 1e-3 else 1e-4
    return vectors, thetas, tol, labels


def _step(sequence, ii, factor=1.0):
    """Rotation `ii` of the sequence as the public rotation object."""
    return VectorRotationXd(
        base=sequence.basis_array[:, ii, :],
        rotation_angle=sequence.rotation_angles[ii] * factor,
    )


def check_chain(case):
    vectors, thetas, tol, labels = _prepare(case)
    copy = vectors.copy()
    seq = VectorRotationSequence.create_from_vector_array(vectors)
    require(np.array_equal(vectors, copy), "input modified")
    require(seq.n_rotations == len(thetas), "number of rotations")
    require(seq.dimension == vectors.shape[0], "dimension")
    require(np.all(np.isfinite(seq.basis_array)), "base not finite")
    require(np.all(np.isfinite(seq.rotation_angles)), "angle not finite", a=seq.rotation_angles)
    for ii, theta in enumerate(thetas):
        base = seq.basis_array[:, ii, :]
        require(close(base.T @ base, np.eye(2), 1e-6), "base not orthonormal", base=base)
        rot = _step(seq, ii)
        require(close(base[:, 0], unit(vectors[:, ii]), 1e-8), "rotation starts elsewhere")
        out = rot.rotate(unit(vectors[:, ii]))
        require(close(out, unit(vectors[:, ii + 1]), tol), "rotation ends elsewhere", out=out)
    end = seq.get_end_vector()
    require(close(end, unit(vectors[:, -1]), tol), "wrong end vector", end=end)
    # Full rotation: product of all
    xx = arr(case["x"])
    expected = xx
    for ii in range(len(thetas)):
        expected = plane_rotation(vectors[:, ii], vectors[:, ii + 1]) @ expected
    out = seq.rotate(xx)
    scale = 1 + np.linalg.norm(xx)
    require(
        close(out, expected, 50 * tol * scale),
        "rotating over the whole sequence is not the product of its rotations",
        out=out,
        expected=expected,
    )
    return labels


def _reference_weighted(vectors, weights):
    """Matrix of the weighted rotation: a partially applied rotation drags all the
    following ones along."""
    dim = vectors.shape[0]
    cumul = np.cumsum(weights[::-1])[::-1]
    total = np.eye(dim)
    drag = np.eye(dim)
    for ii in range(vectors.shape[1] - 1):
        a, b = drag @ vectors[:, ii], drag @ vectors[:, ii + 1]
        total = plane_rotation(a, b, cumul[ii]) @ total
        drag = plane_rotation(a, b, cumul[ii] - 1) @ drag
    return total


def check_weighted(case):
    vectors, thetas, tol, labels = _prepare(case)
    discard_unless(min(thetas) > 1e-3)
    weights = arr(case["weights"])
    discard_unless(weights.shape[0] == len(thetas) and np.sum(weights) > 0)
    weights = weights / np.sum(weights)
    seq = VectorRotationSequence.create_from_vector_array(vectors)
    basis, angles = seq.basis_array.copy(), seq.rotation_angles.copy()
    mat = _reference_weighted(vectors, weights)
    xx = arr(case["x"])
    scale = 1 + np.linalg.norm(xx)
    for vector in (unit(vectors[:, 0]), xx):
        out = seq.rotate_weighted(vector, weights=weights)
        require(
            close(out, mat @ vector, 1e-5 * scale),
            "weighted rotation differs from the reference",
            out=out,
            expected=mat @ vector,
        )
        require(
            abs(np.linalg.norm(out) - np.linalg.norm(vector)) < 1e-7 * scale,
            "length changed",
        )
    require(
        np.array_equal(basis, seq.basis_array)
        and np.array_equal(angles, seq.rotation_angles),
        "evaluation modified the sequence",
    )
    # Full weight on one rotation: applied up to this rotation
    for ii in range(len(thetas)):
        one = np.zeros(len(thetas))
        one[ii] = 1.0
        out = seq.rotate_weighted(unit(vectors[:, 0]), weights=one)
        require(close(out, unit(vectors[:, ii + 1]), 1e-5), "full weight on one rotation", ii=ii)
    # The same weights on the equivalent tree
    tree = VectorRotationTree.from_sequence(root_id="r", node_id="n", sequence=seq)
    nodes = [("n", ii) for ii in range(1, len(thetas))] + ["n"]
    mean = tree.get_weighted_mean(node_list=nodes, weights=list(weights))
    out = seq.rotate_weighted(unit(vectors[:, 0]), weights=weights)
    require(close(mean, out, 1e-5), "tree and sequence differ", tree=mean, sequence=out)
    if sum(w > 0 for w in weights) > 1:
        labels.append("several-weights")
    return labels


def check_moved(case):
    """A rotated sequence is the sequence of the rotated vectors."""
    vectors, thetas, tol, labels = _prepare(case)
    v1, v2 = arr(case["v1"]), arr(case["v2"])
    theta = angle_between(v1, v2)
    discard_unless(1e-3 < theta < math.pi - 0.02)
    factor = case["factor"]
    seq = VectorRotationSequence.create_from_vector_array(vectors)
    basis, angles = seq.basis_array.copy(), seq.rotation_angles.copy()
    rotation = VectorRotationXd.from_directions(v1, v2)
    moved = rotation.rotate_sequence(seq, rotation_factor=factor)
    require(
        np.array_equal(basis, seq.basis_array)
        and np.array_equal(angles, seq.rotation_angles),
        "the original sequence was modified",
    )
    mat = plane_rotation(v1, v2, factor)
    require(close(moved.rotation_angles, angles, 1e-9), "angles changed")
    require(
        close(moved.get_end_vector(), mat @ seq.get_end_vector(), 1e-5),
        "end vector is not rotated along",
    )
    for ii in range(len(thetas)):
        require(
            close(moved.basis_array[:, ii, :], mat @ basis[:, ii, :], 1e-5), "base", ii=ii
        )
    xx = arr(case["x"])
    out = moved.rotate(xx)
    expected = mat @ seq.rotate(mat.T @ xx)
    require(close(out, expected, 1e-4 * (1 + np.linalg.norm(xx))), "rotation of a vector")
    return labels


def check_extend(case):
    """Growing a sequence at its end and at its root."""
    vectors, thetas, tol, labels = _prepare(case)
    discard_unless(vectors.shape[1] >= 3)
    full = VectorRotationSequence.create_from_vector_array(vectors)

    grown = VectorRotationSequence.create_empty(dimension=vectors.shape[0])
    require(grown.n_rotations == 0, "empty sequence has rotations")
    for ii in range(len(thetas)):
        grown.append_from_base_and_angle(
            np.copy(full.basis_array[:, ii, :]), full.rotation_angles[ii]
        )
        require(close(grown.get_end_vector(), unit(vectors[:, ii + 1]), tol), "appended end")
    require(close(grown.basis_array, full.basis_array, 1e-12), "appended base")
    require(close(grown.rotation_angles, full.rotation_angles, 1e-12), "appended angles")

    grown = VectorRotationSequence.create_empty(dimension=vectors.shape[0])
    for ii in reversed(range(len(thetas))):
        grown.push_root_from_base_and_angle(
            np.copy(full.basis_array[:, ii, :]), full.rotation_angles[ii]
        )
        require(close(grown.get_end_vector(), unit(vectors[:, -1]), tol), "pushed end")
    require(close(grown.basis_array, full.basis_array, 1e-12), "pushed base")
    require(close(grown.rotation_angles, full.rotation_angles, 1e-12), "pushed angles")

    # By direction
    grown = VectorRotationSequence.create_from_vector_array(vectors[:, :2])
    for ii in range(2, vectors.shape[1]):
        grown.append_from_direction(vectors[:, ii])
        require(
            close(grown.get_end_vector(), unit(vectors[:, ii]), tol),
            "end vector after adding a direction",
        )
    require(grown.n_rotations == len(thetas), "number of rotations after growing")
    for ii in range(len(thetas)):
        require(
            close(grown.basis_array[:, ii, 0], unit(vectors[:, ii]), 2 * tol),
            "an added rotation does not start where the sequence ended",
            ii=ii,
        )
    return labels


def check_invalid(case):
    """Zero and anti-parallel successive vectors are rejected."""
    vectors = arr(case["vectors"]).T
    discard_unless(np.all(np.linalg.norm(vectors, axis=0) > 5e-3))
    labels = []
    idx = case["position"] % vectors.shape[1]
    if case["kind"] == "zero":
        vectors[:, idx] = 0.0
    else:
        # Exact: along one axis
        axis = case["position"] % vectors.shape[0]
        idx = min(idx, vectors.shape[1] - 2)
        vectors[:, idx] = 0.0
        vectors[:, idx + 1] = 0.0
        vectors[axis, idx] = case["scale"]
        vectors[axis, idx + 1] = -2 * case["scale"]
    try:
        VectorRotationSequence.create_from_vector_array(vectors)
    except ValueError:
        return [case["kind"]]
    raise Violation(f"{case['kind']} vectors were accepted")


@st.composite
def invalid_case(draw):
    case = draw(seq_case())
    return {
        "vectors": case["vectors"],
        "kind": draw(st.sampled_from(["zero", "antiparallel"])),
        "position": draw(st.integers(0, 10)),
        "scale": draw(num(0.25, 4.0)),
    }


SUBS = [
    Sub("chain", seq_case(), check_chain, quick=1200),
    Sub("weighted", seq_case(), check_weighted, quick=1200),
    Sub("moved", seq_case(), check_moved, quick=800),
    Sub("extend", seq_case(), check_extend, quick=800),
    Sub("invalid", invalid_case(), check_invalid, quick=300),
]
