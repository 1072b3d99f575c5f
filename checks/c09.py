"""C09: closed-loop trajectories of the rotational avoidance."""
import math

import numpy as np

from lib.gen import count, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, is_vector
from lib.scene import LinearSystem, build_obstacle, gamma, obstacle_case

from nonlinear_avoidance.avoidance import RotationalAvoider
from nonlinear_avoidance.rotation_container import RotationContainer

PROPERTY = "C09"
RULE = (
    "Closed-loop simulations (step 0.05, at most 1500 steps) from a free start to a free "
    "attractor around one to four disjoint static ellipses / boxes in 2-D and 3-D; starts "
    "within 0.03 rad of the axis through attractor and a reference point discarded (ends "
    "at the saddle point). Non-trivial: an obstacle turned the motion by more than 0.1 rad "
    "(gamma below 4 on the way)."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]

STEP = 0.05


@st.composite
def scene_case(draw, n_max=4):
    dim = draw(st.integers(2, 3))
    n_obs = draw(count(1, n_max, n_max + 3))
    start = draw(vec(dim, -6.0, 6.0))
    attractor = draw(vec(dim, -6.0, 6.0))
    obstacles = []
    for ii in range(n_obs):
        obs = draw(obstacle_case(dim, spread=4.0, max_axis=2.5))
        if ii == 0 and draw(st.integers(0, 3)) == 0:
            # Elongated
            obs["kind"], obs["ref"] = "ellipse", 0.0
            obs["axes"] = [draw(num(0.6, 1.0))] + [draw(num(4.0, 6.0))] * (dim - 1)
        if ii == 0 and draw(st.booleans()):
            # In the way (off-centre)
            frac = draw(num(0.3, 0.7))
            offset = draw(vec(dim, -0.4, 0.4))
            obs["center"] = [
                s * (1 - frac) + a * frac + o for s, a, o in zip(start, attractor, offset)
            ]
        obstacles.append(obs)
    return {
        "obstacles": obstacles,
        "start": start,
        "attractor": attractor,
        "speed": draw(st.sampled_from([0.5, 1.0])),
    }


def check_loop(case):
    env = RotationContainer()
    kept = []
    for item in case["obstacles"]:
        obs = build_obstacle(item)
        if all(
            np.linalg.norm(obs.center_position - other.center_position)
            > (np.linalg.norm(obs.axes_length) + np.linalg.norm(other.axes_length)) / 2
            + 0.3
            for other in kept
        ):
            kept.append(obs)
            env.append(obs)
    attractor, position = arr(case["attractor"]), arr(case["start"])
    discard_unless(min(gamma(obs, attractor) for obs in kept) > 1.2)
    discard_unless(min(gamma(obs, position) for obs in kept) > 1.1)
    discard_unless(np.linalg.norm(attractor - position) > 0.3)
    for obs in kept:
        discard_unless(
            angle_between(
                attractor - position,
                obs.get_reference_direction(position, in_global_frame=True),
            )
            > 0.03
        )
    dynamics = LinearSystem(attractor_position=attractor, maximum_velocity=case["speed"])
    avoider = RotationalAvoider(
        initial_dynamics=dynamics,
        obstacle_environment=env,
        convergence_system=dynamics,
    )
    max_turn, min_gamma = 0.0, np.inf
    for ii in range(1500):
        velocity = avoider.evaluate(position)
        require(
            is_vector(velocity, len(position)), "Velocity not finite", position=position
        )
        initial = dynamics.evaluate(position)
        require(
            np.linalg.norm(velocity) <= np.linalg.norm(initial) * (1 + 1e-9),
            "Velocity amplified",
            position=position,
        )
        if np.linalg.norm(velocity) > 1e-6:
            max_turn = max(max_turn, angle_between(initial, velocity))
        position = position + STEP * velocity
        gammas = [gamma(obs, position) for obs in kept]
        min_gamma = min(min_gamma, *gammas)
        require(
            min(gammas) > 1 - 1e-3, "Collision", position=position, step=ii, gammas=gammas
        )
        if np.linalg.norm(position - attractor) < 0.1:
            break
    else:
        closest = kept[int(np.argmin(gammas))]
        at_saddle = (
            angle_between(
                attractor - position,
                closest.get_reference_direction(position, in_global_frame=True),
            )
            < 1e-2
        )
        discard_unless(not at_saddle)
        require(
            False, "Attractor not reached", position=position, velocity=velocity, gammas=gammas
        )
    return [
        "" if max_turn > 0.1 and min_gamma < 4 else "trivial",
        f"dim{len(position)}",
        f"obstacles{len(kept)}",
        "grazing" if min_gamma < 1.2 else "clear",
    ]


SUBS = [
    Sub("loop", scene_case(), check_loop, quick=240, shards=8, thorough=6000, cpu_limit=120),
]
