"""C11: building blocks of the rotational avoidance."""
import math

import numpy as np

from lib.gen import angle, nonzero_vec, num, st
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, unit

from nonlinear_avoidance.avoidance import RotationalAvoider

PROPERTY = "C11"
RULE = (
    "Unit normals, reference directions up to 1.5 rad off the inward normal, arbitrary "
    "unit directions (2 to 4 dimensions; directions within 0.02 rad of plus or minus the "
    "normal or of the reference discarded), circle radii in [pi/2, 0.97 pi], gamma in "
    "[0.5, 1000]. Non-trivial: reference and normal are not aligned."
)


def log_map(vector, base):
    """Angle from `base` times the perpendicular direction (full-dimensional)."""
    base = unit(base)
    perp = vector - base * (vector @ base)
    norm = np.linalg.norm(perp)
    if norm < 1e-14:
        return np.zeros_like(base)
    return perp / norm * angle_between(vector, base)


@st.composite
def tangent_case(draw):
    dim = draw(st.integers(2, 4))
    return {
        "normal": draw(nonzero_vec(dim)),
        "side": draw(nonzero_vec(dim)),
        "tilt": draw(st.one_of(num(0.0, 1.5), st.just(0.0), num(0.05, 1.4))),
        "initial": draw(nonzero_vec(dim)),
        "radius": draw(
            st.one_of(st.just(math.pi / 2), num(math.pi / 2, 0.97 * math.pi))
        ),
        "gamma": draw(st.one_of(num(1.0, 3.0), num(1.0, 1000.0), num(0.5, 1.0))),
        "factor": draw(num(1.0, 10.0)),
        "power": draw(st.one_of(st.just(0.3), num(0.05, 1.0))),
    }


def _directions(case):
    n_vec = unit(arr(case["normal"]))
    side = arr(case["side"])
    side = side - n_vec * (side @ n_vec)
    discard_unless(np.linalg.norm(side) > 1e-2)
    side = unit(side)
    reference = -n_vec * math.cos(case["tilt"]) + side * math.sin(case["tilt"])
    initial = unit(arr(case["initial"]))
    discard_unless(0.02 < angle_between(initial, n_vec) < math.pi - 0.02)
    discard_unless(0.02 < angle_between(initial, reference) < math.pi - 0.02)
    return n_vec, reference, initial


def check_tangent(case):
    n_vec, reference, initial = _directions(case)
    radius = case["radius"]
    discard_unless(abs(angle_between(initial, -n_vec) - radius) > 1e-6)
    if angle_between(initial, -n_vec) > radius:
        # Seen from the outward normal: the reference has to lie within the circle
        discard_unless(math.pi - radius > case["tilt"] + 0.01)
    result = RotationalAvoider.get_projected_tangent_from_vectors(
        initial, normal=n_vec, reference=reference, convergence_radius=radius
    )
    require(is_vector(result, len(n_vec)), "Not finite", result=result)
    require(abs(np.linalg.norm(result) - 1) < 1e-6, "Not a unit vector", result=result)
    require(
        abs(angle_between(result, -n_vec) - radius) < 1e-5,
        "Not on the circle around the inward normal",
        result=result,
        radius=radius,
        angle=angle_between(result, -n_vec),
    )
    # Ray from reference through the initial direction (direction space)
    sign = -1.0 if angle_between(initial, -n_vec) < radius else 1.0
    start = log_map(-sign * reference, sign * n_vec)
    ray = log_map(initial, sign * n_vec) - start
    end = log_map(result, sign * n_vec) - start
    factor = (end @ ray) / (ray @ ray)
    require(
        close(end, factor * ray, 1e-4) and factor >= 1 - 1e-5,
        "Not on the ray from the reference through the initial direction",
        result=result,
        factor=factor,
    )
    again = RotationalAvoider.get_projected_tangent_from_vectors(
        result, normal=n_vec, reference=reference, convergence_radius=radius
    )
    # (on the border of both branches)
    discard_unless(math.pi - radius > case["tilt"] + 0.01)
    require(close(again, result, 1e-3), "Projecting twice moves it", again=again)
    return [
        "" if case["tilt"] > 1e-3 else "trivial",
        "inside" if sign < 0 else "outside",
        f"dim{len(n_vec)}",
    ]


def check_weight(case):
    n_vec, reference, initial = _directions(case)
    gamma = case["gamma"]

    def weight(gamma_value, direction=initial):
        return RotationalAvoider.get_rotation_weight(
            normal_vector=n_vec,
            reference_vector=reference,
            convergence_vector=direction,
            gamma_value=gamma_value,
            smooth_continuation_power=case["power"],
        )

    value = weight(gamma)
    if gamma <= 1:
        require(value == 1.0, "No full weight on the surface", value=value)
        return ["surface", "trivial"]
    require(
        -1e-12 <= value <= 1 / gamma + 1e-9,
        "Weight above the inverse of gamma",
        value=value,
        gamma=gamma,
    )
    further = weight(1 + (gamma - 1) * case["factor"])
    require(further <= value + 1e-9, "Weight increases with the distance", further=further)
    if gamma > 1:
        # The closer to the reference, the lower the weight
        delta = angle_between(initial, reference)
        closer = weight(gamma, unit(reference + 1e-3 * delta * initial))
        require(closer <= value + 1e-9, "Weight increases towards the reference")
        if gamma > 1.5 and case["power"] >= 0.3 and case["tilt"] < 1.2:
            require(
                closer < 0.4 * value + 1e-6,
                "Weight does not vanish towards the reference",
                closer=closer,
                value=value,
            )
    leaving = angle_between(initial, -n_vec) >= math.pi / 2
    if leaving is False and case["tilt"] == 0 and case["gamma"] > 1:
        # Aligned reference: analytic value
        ratio = max(1.0, (math.pi / 2) / angle_between(initial, -n_vec))
        require(
            close(value, (1 / gamma) ** (ratio ** case["power"]), 1e-6),
            "Unexpected weight",
            value=value,
        )
    return ["" if case["tilt"] > 1e-3 else "trivial", "leaving" if leaving else "towards"]


@st.composite
def scaling_case(draw):
    dim = draw(st.integers(2, 4))
    return {
        "velocity": draw(nonzero_vec(dim)),
        "normal": draw(nonzero_vec(dim)),
        "normal_norm": draw(st.one_of(st.just(1.0), num(0.01, 1.0))),
        "gamma": draw(st.one_of(num(1.0, 3.0), num(1.0, 1000.0), num(0.5, 1.0))),
        "factor": draw(num(1.0, 10.0)),
        "towards": draw(st.integers(0, 3)) > 0,
        "magnitude": draw(num(0.01, 5.0)),
    }


def check_scaling(case):
    velocity = unit(arr(case["velocity"]))
    n_vec = unit(arr(case["normal"])) * case["normal_norm"]
    gamma = case["gamma"]
    if case["towards"] and velocity @ n_vec > 0:
        n_vec = -n_vec
    dot = velocity @ n_vec
    discard_unless(not -2e-3 < dot < 1e-9)  # around the switch
    value = RotationalAvoider.compute_safe_scaling(velocity, n_vec, gamma)
    require(0 <= value <= 1, "Scaling out of [0, 1]", value=value)
    if dot > 0:
        require(value == 1, "Slowed down when leaving", value=value)
    elif gamma <= 1:
        require(value == 0, "Not stopped on the surface", value=value)
    else:
        require(
            close(
                value,
                (1 + 0.8 * dot) ** ((case["normal_norm"] / (gamma - 1)) ** (1 / 3)),
                1e-9,
            ),
            "Unexpected scaling",
            value=value,
        )
        further = RotationalAvoider.compute_safe_scaling(
            velocity, n_vec, 1 + (gamma - 1) * case["factor"]
        )
        require(further >= value - 1e-12, "Slower at larger distance", further=further)
    result = RotationalAvoider.compute_safe_magnitude(
        rotated_velocity=velocity,
        initial_norm=case["magnitude"],
        averaged_normal=n_vec,
        gamma=gamma,
    )
    require(
        close(result, velocity * value * case["magnitude"], 1e-9),
        "Velocity not scaled along its direction",
        result=result,
        value=value,
    )
    for zero in (np.zeros_like(velocity),):
        require(
            RotationalAvoider.compute_safe_scaling(zero, n_vec, gamma) == 1
            and close(
                RotationalAvoider.compute_safe_magnitude(zero, 1.0, n_vec, gamma), zero
            ),
            "Zero velocity",
        )
    return ["" if dot < 0 and gamma > 1 else "trivial"]


SUBS = [
    Sub("tangent", tangent_case(), check_tangent, quick=1500, shards=3, thorough=60000),
    Sub("weight", tangent_case(), check_weight, quick=1000, shards=2, thorough=40000),
    Sub("scaling", scaling_case(), check_scaling, quick=800, shards=2, thorough=20000),
]
