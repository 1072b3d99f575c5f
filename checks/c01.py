"""C01: rotations defined by two directions."""
import math

import numpy as np

from lib.gen import count, nonzero_vec, num, record, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, plane_rotation, unit

from nonlinear_avoidance.vector_rotation import (
    VectorRotationXd,
    rotate_array,
    rotate_direction,
)

PROPERTY = "C01"
RULE = (
    "Random and grid-aligned pairs of directions in 2 to 5 dimensions (anti-parallel "
    "pairs, angle > pi - 0.02, only in the sub-check of opposite directions) with a random third vector and factor; "
    "non-trivial: the directions differ by more than 1e-3 rad and the third vector "
    "is not zero."
)


@st.composite
def pair_case(draw):
    dim = draw(count(2, 4, 7))
    v1 = draw(nonzero_vec(dim))
    mode = draw(st.integers(0, 5))
    if mode == 0:  # parallel
        v2 = [x * draw(st.sampled_from([1.0, 0.5, 3.0])) for x in v1]
    elif mode == 1:  # close to parallel
        eps = draw(st.sampled_from([1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]))
        v2 = [x + eps * y for x, y in zip(v1, draw(vec(dim)))]
    else:
        v2 = draw(nonzero_vec(dim))
    return {
        "v1": v1,
        "v2": v2,
        "x": draw(vec(dim)),
        "factor": draw(num(-2.0, 2.0)),
        "extra": [draw(nonzero_vec(dim)) for _ in range(draw(st.integers(1, 3)))],
    }


def _prepare(case):
    v1, v2, xx = arr(case["v1"]), arr(case["v2"]), arr(case["x"])
    discard_unless(np.linalg.norm(v1) > 1e-3 and np.linalg.norm(v2) > 1e-3)
    theta = angle_between(v1, v2)
    discard_unless(theta <= math.pi - 0.02)
    tol = 1e-6 if theta > 1e-3 else 1e-7
    labels = []
    if theta < 1e-3 or not np.any(xx):
        labels.append("trivial")
    labels.append("parallel" if theta < 1e-3 else "obtuse" if theta > 1.6 else "acute")
    labels.append(f"dim{len(v1)}")
    return v1, v2, xx, theta, tol, labels


def check_maps(case):
    v1, v2, xx, theta, tol, labels = _prepare(case)
    c1, c2 = v1.copy(), v2.copy()
    rotation = VectorRotationXd.from_directions(v1, v2)
    require(np.array_equal(v1, c1) and np.array_equal(v2, c2), "inputs were modified")
    dim = v1.shape[0]
    require(rotation.dimension == dim, "wrong dimension")

    out = rotation.rotate(unit(v1))
    require(is_vector(out, dim), "not finite", out=out)
    require(close(out, unit(v2), tol), "first direction is not mapped on the second", out=out)
    out = rotation.rotate(v1)
    require(
        close(out, unit(v2) * np.linalg.norm(v1), tol * 10), "length is not kept", out=out
    )
    require(close(rotation.get_first_vector(), unit(v1), 1e-9), "first vector")
    require(close(rotation.get_second_vector(), unit(v2), tol), "second vector")
    require(
        abs(abs(rotation.rotation_angle) - theta) < max(tol, 1e-6),
        "rotation by another angle than the one between the directions",
        angle=rotation.rotation_angle,
        expected=theta,
    )
    gram = rotation.base.T @ rotation.base
    require(close(gram, np.eye(2), 1e-6), "base is not orthonormal", gram=gram)
    return labels


def check_isometry(case):
    v1, v2, xx, theta, tol, labels = _prepare(case)
    factor = case["factor"]
    rotation = VectorRotationXd.from_directions(v1, v2)
    x_in = xx.copy()
    out = rotation.rotate(xx, rot_factor=factor)
    require(np.array_equal(xx, x_in), "the rotated vector was modified in place")
    dim = v1.shape[0]
    require(is_vector(out, dim), "not finite", out=out)
    require(
        abs(np.linalg.norm(out) - np.linalg.norm(xx)) < 1e-8 * (1 + np.linalg.norm(xx)),
        "length changed",
        out=out,
    )
    if not np.any(xx):
        require(not np.any(out), "zero vector is rotated to a nonzero one")
    expected = plane_rotation(v1, v2, factor) @ xx
    scale = 1 + np.linalg.norm(xx)
    require(
        close(out, expected, (1e-6 if theta > 1e-3 else 1e-7) * scale),
        "differs from the plane rotation",
        out=out,
        expected=expected,
    )
    # Orthogonal complement of the plane stays as is
    if theta > 1e-3:
        e1 = unit(v1)
        e2 = unit(unit(v2) - e1 * np.dot(e1, unit(v2)))
        rest = xx - e1 * np.dot(e1, xx) - e2 * np.dot(e2, xx)
        rest_out = out - e1 * np.dot(e1, out) - e2 * np.dot(e2, out)
        require(close(rest, rest_out, 1e-6 * scale), "part orthogonal to the plane moved")
    # The default factor is the full rotation
    require(close(rotation.rotate(xx), rotation.rotate(xx, rot_factor=1.0), 1e-12), "default")
    # Successive parts of a rotation add up
    two = rotation.rotate(rotation.rotate(xx, rot_factor=factor), rot_factor=1 - factor)
    require(close(two, rotation.rotate(xx), 1e-7 * scale), "parts do not add up", two=two)
    return labels


def check_inverse(case):
    v1, v2, xx, theta, tol, labels = _prepare(case)
    rotation = VectorRotationXd.from_directions(v1, v2)
    angle, base = rotation.rotation_angle, rotation.base.copy()
    scale = 1 + np.linalg.norm(xx)
    out = rotation.rotate(xx)
    require(close(rotation.inverse_rotate(out), xx, 1e-8 * scale), "inverse_rotate")
    inverse = rotation.inv()
    require(close(inverse.rotate(out), xx, 1e-8 * scale), "inv().rotate")
    require(close(rotation.rotate(inverse.rotate(xx)), xx, 1e-8 * scale), "inverse first")
    require(close(inverse.inv().rotate(xx), out, 1e-8 * scale), "inverse of the inverse")
    require(
        rotation.rotation_angle == angle and np.array_equal(rotation.base, base),
        "taking the inverse changed the rotation",
    )
    require(close(inverse.rotate(unit(v2)), unit(v1), tol), "inverse maps second on first")
    return labels


def check_arrays(case):
    v1, v2, xx, theta, tol, labels = _prepare(case)
    rotation = VectorRotationXd.from_directions(v1, v2)
    cols = [unit(v) for v in case["extra"]]
    array = np.array(cols).T
    angle = rotation.rotation_angle * case["factor"]
    out = rotate_array(array, base=rotation.base, rotation_angle=angle)
    require(out.shape == array.shape, "shape")
    for ii, col in enumerate(cols):
        one = rotate_direction(col, base=rotation.base, rotation_angle=angle)
        require(close(out[:, ii], one, 1e-8), "array and single rotation differ")
    # Angles between rotated vectors stay
    require(close(out.T @ out, array.T @ array, 1e-8), "mutual angles changed")
    return labels


def check_conjugate(case):
    """Rotating a rotation moves its plane along."""
    v1, v2, xx, theta, tol, labels = _prepare(case)
    discard_unless(len(case["extra"]) >= 2)
    w1, w2 = arr(case["extra"][0]), arr(case["extra"][1])
    phi = angle_between(w1, w2)
    discard_unless(1e-3 < phi < math.pi - 0.02 and theta > 1e-3)
    factor = case["factor"]
    outer = VectorRotationXd.from_directions(v1, v2)
    inner = VectorRotationXd.from_directions(w1, w2)
    base = inner.base.copy()
    moved = outer.rotate_vector_rotation(inner, rot_factor=factor)
    require(np.array_equal(base, inner.base), "the rotated rotation was modified in place")
    mat_o = plane_rotation(v1, v2, factor)
    mat_i = plane_rotation(w1, w2)
    expected = mat_o @ mat_i @ mat_o.T @ xx
    out = moved.rotate(xx)
    require(
        close(out, expected, 1e-5 * (1 + np.linalg.norm(xx))),
        "rotated rotation is not the rotation in the rotated plane",
        out=out,
        expected=expected,
    )
    return labels


@st.composite
def opposite_case(draw):
    case = draw(pair_case())
    case["scale"] = draw(st.sampled_from([1.0, 0.3, 2.0]))
    case["off"] = draw(st.sampled_from([0.0, 0.0, 1e-12, 1e-9, 1e-6, 1e-4]))
    return case


def check_opposite(case):
    """(Nearly) opposite directions: any plane, but a proper half turn."""
    v1 = arr(case["v1"])
    discard_unless(np.linalg.norm(v1) > 1e-3)
    xx = arr(case["x"])
    v2 = -v1 * case["scale"] + case["off"] * xx
    discard_unless(np.linalg.norm(v2) > 1e-4)
    rotation = VectorRotationXd.from_directions(v1, v2)
    require(np.all(np.isfinite(rotation.base)), "Base not finite", base=rotation.base)
    require(close(rotation.base.T @ rotation.base, np.eye(2), 1e-6), "Base is not orthonormal", base=rotation.base)
    require(
        abs(abs(rotation.rotation_angle) - angle_between(v1, v2)) < 1e-6, "Angle", angle=rotation.rotation_angle
    )
    out = rotation.rotate(unit(v1))
    require(close(out, unit(v2), 1e-6), "First direction is not mapped on the second", out=out)
    turned = rotation.rotate(xx, rot_factor=case["factor"])
    require(
        abs(np.linalg.norm(turned) - np.linalg.norm(xx)) < 1e-5 * (1 + np.linalg.norm(xx)), "Length changed", out=turned
    )
    back = rotation.inverse_rotate(rotation.rotate(xx))
    require(close(back, xx, 1e-5 * (1 + np.linalg.norm(xx))), "The inverse does not undo it", got=back)
    if not case["off"]:
        # There and back again along the same half circle
        back = VectorRotationXd.from_directions(v2, v1)
        part = case["factor"]
        there = rotation.rotate(unit(v1), rot_factor=part)
        other = back.rotate(unit(v2), rot_factor=1 - part)
        require(close(there, other, 1e-6), "Not the same half circle in both ways", there=there, back=other)
    return []


SUBS = [
    Sub("opposite", opposite_case(), check_opposite, quick=600),
    Sub("maps", pair_case(), check_maps, quick=1500),
    Sub("isometry", pair_case(), check_isometry, quick=1500),
    Sub("inverse", pair_case(), check_inverse, quick=1000),
    Sub("arrays", pair_case(), check_arrays, quick=1000),
    Sub("conjugate", pair_case(), check_conjugate, quick=1000),
]
