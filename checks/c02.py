"""C02: blending of two velocities by direction and by magnitude."""
import math

import numpy as np

from lib.gen import angle, count, nonzero_vec, num, st, vec, weight01
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, plane_rotation, random_rotation, unit

from nonlinear_avoidance.vector_rotation import directional_vector_addition

PROPERTY = "C02"
RULE = (
    "Two vectors in 2 to 4 dimensions (zero, parallel, close to parallel and general; "
    "angles above pi - 0.02 discarded) and a weight in [0, 1]; non-trivial: both "
    "vectors nonzero, more than 1e-3 rad apart, weight inside (0, 1)."
)


@st.composite
def blend_case(draw, general=False):
    dim = draw(count(2, 4, 7))
    v1 = draw(vec(dim))
    mode = 9 if general else draw(st.integers(0, 7))
    v2 = draw(vec(dim))
    if mode == 0:
        v1 = [0.0] * dim
    elif mode == 1:
        v2 = [0.0] * dim
    elif mode == 2:
        scale = draw(num(0.1, 4.0))
        v2 = [scale * x for x in v1]
    elif mode == 3:
        eps = draw(st.sampled_from([1e-8, 1e-6, 1e-4]))
        v2 = [x + eps * y for x, y in zip(v1, v2)]
    return {
        "v1": v1,
        "v2": v2,
        "weight": draw(num(0.02, 0.98)) if general else draw(weight01()),
        "angles": [draw(angle()) for _ in range(3)],
    }


def check_blend(case):
    v1, v2, ww = arr(case["v1"]), arr(case["v2"]), case["weight"]
    n1, n2 = np.linalg.norm(v1), np.linalg.norm(v2)
    discard_unless(all(n == 0 or n > 1e-3 for n in (n1, n2)))
    c1, c2 = v1.copy(), v2.copy()
    labels = []
    if n1 and n2:
        theta = angle_between(v1, v2)
        discard_unless(theta < math.pi - 0.02)
    else:
        theta = 0.0
        labels.append("zero-vector")
    out = directional_vector_addition(v1, v2, ww)
    require(np.array_equal(v1, c1) and np.array_equal(v2, c2), "inputs were modified")
    require(is_vector(out, v1.shape[0]), "no finite vector", out=out)
    scale = 1 + n1 + n2
    tol = (1e-6 if theta > 1e-3 else 5e-5) * scale
    require(
        abs(np.linalg.norm(out) - ((1 - ww) * n1 + ww * n2)) < 1e-8 * scale,
        "magnitude is not the weighted magnitude",
        out=out,
    )
    if n1 and n2:
        direction = plane_rotation(v1, v2, ww) @ unit(v1)
    elif n1:
        direction = unit(v1)
    elif n2:
        direction = unit(v2)
    else:
        direction = np.zeros_like(v1)
    expected = direction * ((1 - ww) * n1 + ww * n2)
    require(close(out, expected, tol), "wrong direction", out=out, expected=expected)
    if ww == 0:
        require(close(out, v1, tol), "weight 0 has to give the first vector", out=out)
        labels.append("weight0")
    if ww == 1:
        require(close(out, v2, tol), "weight 1 has to give the second vector", out=out)
        labels.append("weight1")
    other = directional_vector_addition(v2, v1, 1 - ww)
    require(close(other, out, 2 * tol), "not symmetric", other=other, out=out)
    if not (n1 and n2) or theta < 1e-3 or ww in (0, 1):
        labels.append("trivial")
    return labels


def check_equivariant(case):
    v1, v2, ww = arr(case["v1"]), arr(case["v2"]), case["weight"]
    n1, n2 = np.linalg.norm(v1), np.linalg.norm(v2)
    discard_unless(n1 > 1e-3 and n2 > 1e-3)
    theta = angle_between(v1, v2)
    discard_unless(1e-3 < theta < math.pi - 0.02)
    mat = random_rotation(v1.shape[0], case["angles"])
    out = mat @ directional_vector_addition(v1, v2, ww)
    rotated = directional_vector_addition(mat @ v1, mat @ v2, ww)
    require(
        close(out, rotated, 1e-6 * (1 + n1 + n2)), "depends on the frame", out=out, other=rotated
    )
    # Between both directions
    if ww not in (0, 1):
        a1 = angle_between(v1, rotated @ mat)
        require(abs(a1 - ww * theta) < 1e-6, "angle is not the weighted angle", a1=a1)
    return ["trivial"] if ww in (0, 1) else []


SUBS = [
    Sub("blend", blend_case(), check_blend, quick=2000),
    Sub("general", blend_case(general=True), check_blend, quick=1500),
    Sub("equivariant", blend_case(general=True), check_equivariant, quick=1500),
]
