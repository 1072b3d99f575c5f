"""C08: influence of obstacles fades with the distance."""
import math

import numpy as np

from lib.gen import nonzero_vec, num, vec, st
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, unit
from lib.scene import (
    ConstantValue,
    LinearSystem,
    build_obstacle,
    gamma,
    normal,
    obstacle_case,
    surface_point,
)

from nonlinear_avoidance.avoidance import RotationalAvoider
from nonlinear_avoidance.rotation_container import RotationContainer

PROPERTY = "C08"
RULE = (
    "One to three static ellipses / boxes (2-D, 3-D), positions 0.01 to 300 in front of "
    "the surface, any initial and convergence velocities (less than pi - 0.05 apart, the "
    "latter more than 0.05 from the outward normal). Non-trivial: the initial velocity "
    "approaches an obstacle."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]


@st.composite
def far_case(draw):
    dim = draw(st.integers(2, 3))
    return {
        "obstacles": [
            draw(obstacle_case(dim)) for _ in range(draw(st.sampled_from([1, 1, 2, 3, 5])))
        ],
        "direction": draw(nonzero_vec(dim, -1.0, 1.0)),
        "distance": draw(
            st.one_of(
                num(0.01, 3.0), num(1.0, 30.0), st.sampled_from([0.01, 0.1, 100.0, 300.0])
            )
        ),
        "initial": draw(nonzero_vec(dim, -2.0, 2.0)),
        "same": draw(st.booleans()),
        "attractor": draw(vec(dim, -6.0, 6.0)),
        "radius": draw(
            st.one_of(st.just(math.pi / 2), num(math.pi / 2, 0.95 * math.pi))
        ),
        "tail": draw(st.booleans()),
        "cut_off": draw(num(0.5, 4.0)),
        "local": draw(st.booleans()),
        "radiuses": draw(
            st.one_of(
                st.none(),
                st.lists(num(math.pi / 2, 0.95 * math.pi), min_size=5, max_size=5),
            )
        ),
    }


class Field:
    """Flow without attractor: each obstacle gets its own constant convergence."""

    attractor_position = None

    def __init__(self, velocity):
        self.velocity, self.dimension = velocity, len(velocity)

    def evaluate(self, position):
        return self.velocity + 0.7 * np.linalg.norm(self.velocity) * np.sin(position)


def _setup(case):
    obstacles = [build_obstacle(item) for item in case["obstacles"]]
    position = surface_point(obstacles[0], case["direction"], case["distance"])
    gammas = [gamma(obs, position) for obs in obstacles]
    discard_unless(min(gammas) > 1.0 + 1e-3)
    linear = LinearSystem(attractor_position=arr(case["attractor"]))
    converging = linear.evaluate(position)
    discard_unless(np.linalg.norm(converging) > 1e-2)
    initial = converging if case["same"] else arr(case["initial"])
    env = RotationContainer()
    for obs in obstacles:
        env.append(obs)
    dynamics = linear if case["same"] else ConstantValue(velocity=initial)
    kwargs = dict(
        initial_dynamics=dynamics,
        obstacle_environment=env,
        convergence_system=linear,
        tail_rotation=case["tail"],
        convergence_radius=case["radius"],
    )
    return obstacles, position, gammas, initial, converging, kwargs


def check_fading(case):
    obstacles, position, gammas, initial, converging, kwargs = _setup(case)
    normals = [unit(normal(obs, position)) for obs in obstacles]
    discard_unless(angle_between(initial, converging) < math.pi - 0.05)
    for n_vec in normals:
        discard_unless(angle_between(n_vec, converging) > 0.05)
    velocity = RotationalAvoider(**kwargs).evaluate(position)
    require(is_vector(velocity, len(position)), "Velocity not finite", velocity=velocity)
    limit = np.linalg.norm(initial)
    speed = np.linalg.norm(velocity)
    require(speed <= limit * (1 + 1e-9), "Velocity amplified", speed=speed, limit=limit)
    require(
        speed >= limit * (1 - 1 / min(gammas)) - 1e-9,
        "Slowed down by more than the inverse of gamma",
        speed=speed,
        limit=limit,
        gammas=gammas,
    )
    if speed > 1e-3 * limit:
        # Slow-down by the obstacle which the velocity approaches most
        inward = min(unit(velocity) @ n / gg for n, gg in zip(normals, gammas))
        require(
            abs(speed - limit * (1 + min(inward, 0.0))) < 1e-6 * limit,
            "Not slowed down according to the most restrictive obstacle",
            speed=speed,
            expected=limit * (1 + min(inward, 0.0)),
        )
        bound = max(
            (
                angle_between(converging, initial)
                + angle_between(converging, -n_vec)
                + case["radius"]
            )
            / gg
            for gg, n_vec in zip(gammas, normals)
        )
        require(
            angle_between(velocity, initial) <= bound + 1e-6,
            "Turned by more than the obstacle distance allows",
            turned=angle_between(velocity, initial),
            bound=bound,
            gammas=gammas,
        )
    if case["same"] and not case["tail"] and case["radius"] == math.pi / 2:
        # Velocity which leaves all obstacles (more than the convergence radius from
        # heading to any of them)
        leaving = all(angle_between(initial, -n) >= case["radius"] for n in normals)
        if leaving:
            require(
                close(velocity, initial, 1e-6 * limit),
                "Modified although it leaves the obstacle",
                velocity=velocity,
                initial=initial,
            )
    inwards = min(initial @ n for n in normals) < 0
    return [
        "" if inwards else "trivial",
        f"dim{len(position)}",
        "near" if min(gammas) < 2 else "mid" if min(gammas) < 10 else "far",
        "several" if len(obstacles) > 1 else "single",
    ]


def check_inactive(case):
    obstacles, position, gammas, initial, _, kwargs = _setup(case)
    if case["cut_off"] < 2:  # No obstacle close enough
        cut_off = 1 + (min(gammas) - 1) * case["cut_off"] / 2
        kwargs["cut_off_gamma"] = cut_off
    else:  # Empty environment
        kwargs["obstacle_environment"] = RotationContainer()
    copies = np.copy(position), np.copy(initial)
    avoider = RotationalAvoider(**kwargs)
    for velocity in (
        avoider.evaluate(position),
        avoider.avoid(position, initial_velocity=initial),
        avoider.avoid(position, initial_velocity=initial, sticky_surface=False),
    ):
        require(
            close(velocity, initial, 1e-12 * (1 + np.linalg.norm(initial))),
            "Velocity changed without close obstacle",
            velocity=velocity,
            initial=initial,
        )
    require(
        np.array_equal(position, copies[0]) and np.array_equal(initial, copies[1]),
        "Inputs modified",
    )
    return ["empty" if case["cut_off"] >= 2 else "cut-off"]


def check_cut_off(case):
    """Obstacles beyond the cut-off have the same effect as if they were not there."""
    obstacles, position, gammas, initial, converging, kwargs = _setup(case)
    normals = [unit(normal(obs, position)) for obs in obstacles]
    discard_unless(angle_between(initial, converging) < math.pi - 0.05)
    for n_vec in normals:
        discard_unless(angle_between(n_vec, converging) > 0.05)
    cut_off = sorted(gammas)[0] + 0.5 * (sorted(gammas)[-1] - sorted(gammas)[0])
    discard_unless(sorted(gammas)[-1] - sorted(gammas)[0] > 1e-3)
    env, reduced = kwargs.pop("obstacle_environment"), RotationContainer()
    radiuses = case["radiuses"]
    if radiuses is not None:  # An own convergence radius for each obstacle
        env.convergence_radiuses = radiuses[: len(obstacles)]
    for ii, (obs, gg) in enumerate(zip(obstacles, gammas)):
        if gg < cut_off:
            reduced.append(obs, convergence_radius=radiuses and radiuses[ii])
    if case["local"]:  # An own convergence dynamics for each obstacle
        for container in (env, reduced):
            container.set_convergence_directions(Field(initial))
        kwargs.update(initial_dynamics=None, convergence_system=None)
    velocity, expected = [
        RotationalAvoider(
            cut_off_gamma=gamma_max, obstacle_environment=container, **kwargs
        ).avoid(position, initial_velocity=np.copy(initial))
        for gamma_max, container in ((cut_off, env), (1e6, reduced))
    ]
    discard_unless(is_vector(velocity, len(position)) or is_vector(expected, len(position)))
    require(
        close(velocity, expected, 1e-9 * (1 + np.linalg.norm(initial))),
        "Obstacle beyond the cut-off has an influence",
        velocity=velocity,
        expected=expected,
        gammas=gammas,
        cut_off=cut_off,
    )
    return [
        "" if not close(velocity, initial, 1e-6) else "trivial",
        "near-first" if gammas[0] < cut_off else "far-first",
        "local" if case["local"] else "shared",
        "own-radius" if radiuses is not None else "one-radius",
    ]


SUBS = [
    Sub("fading", far_case(), check_fading, quick=1200, shards=4, thorough=60000),
    Sub("inactive", far_case(), check_inactive, quick=300, thorough=5000),
    Sub(
        "cut-off",
        far_case().filter(lambda case: len(case["obstacles"]) > 1),
        check_cut_off,
        quick=400,
        shards=2,
        thorough=20000,
    ),
]
