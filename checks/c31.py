"""C31: avoidance in a scene which changes over time."""
import math

import numpy as np

from checks.c12 import make_avoider, make_dynamics
from lib.gen import angle, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import arr, unit
from lib.scene import (
    ConstantValue,
    LinearSystem,
    build_obstacle,
    build_tree,
    direction2,
    obstacle_case,
    orientation,
    surface_point,
    tree_case,
)

from vartools.states import Pose, Twist

from nonlinear_avoidance.avoidance import RotationalAvoider
from nonlinear_avoidance.dynamics import WavyLinearDynamics
from nonlinear_avoidance.dynamics.projected_rotation_dynamics import (
    ProjectedRotationDynamics,
)
from nonlinear_avoidance.nonlinear_rotation_avoider import NonlinearRotationalAvoider
from nonlinear_avoidance.rotation_container import RotationContainer
from nonlinear_avoidance.vector_rotation import VectorRotationSequence

PROPERTY = "C31"
RULE = (
    "Histories of up to twelve evaluations and changes of the scene (obstacles moved, turned, "
    "added, removed, replaced, with another velocity, reference point or convergence radius, "
    "attractor moved), for single bodies in the plane and in space and for trees of bodies. "
    "Non-trivial: an evaluation after a change, at a position evaluated before or close to "
    "an obstacle, with an influence of the obstacles."
)
ASSUMPTIONS = ["Obstacle geometry (gamma, normal) is given by the stand-in library."]

MAX_OBS = 5


@st.composite
def single_case(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    obstacle = obstacle_case(dim, spread=4.0)
    ops = ["evaluate", "evaluate", "evaluate", "move", "move", "turn", "add", "remove"]
    ops += ["replace", "velocity", "reference", "radius", "attractor"]
    steps = []
    for kind in draw(st.lists(st.sampled_from(ops), min_size=2, max_size=11)):
        steps.append(
            {
                "kind": kind,
                "which": draw(st.integers(0, MAX_OBS - 1)),
                "obstacle": draw(obstacle) if kind in ("add", "replace", "reference") else None,
                "vec": draw(vec(dim, -4.0, 4.0)),
                "rot": draw(angle()) if dim == 2 else draw(vec(3, -3.0, 3.0)),
                "near": draw(st.integers(0, 2)),
                "direction": draw(nonzero_vec(dim, -1.0, 1.0)),
                "distance": draw(num(0.001, 2.0)),
                "radius": draw(st.one_of(st.none(), num(math.pi / 2, 0.95 * math.pi))),
            }
        )
    steps.append(dict(steps[0], kind="evaluate", near=draw(st.integers(0, 2))))
    return {
        "dim": dim,
        "kind": draw(st.sampled_from(["rotational", "rotational", "nonlinear", "projected", "local"])),
        "obstacles": draw(st.lists(obstacle, min_size=1, max_size=3)),
        "attractor": draw(vec(dim, -6.0, 6.0)),
        "initial": draw(nonzero_vec(dim, -2.0, 2.0)),
        "same": draw(st.booleans()),
        "wavy": draw(st.booleans()),
        "sticky": draw(st.booleans()),
        "tail": draw(st.booleans()),
        "radius": draw(st.sampled_from([math.pi / 2, math.pi / 2, 2.0])),
        "steps": steps,
    }


class Body:
    """What the obstacle is supposed to be at the moment."""

    def __init__(self, item):
        self.item, self.radius = dict(item), None
        self.velocity = np.zeros(len(item["center"]))

    def build(self):
        return build_obstacle(self.item, linear_velocity=np.copy(self.velocity))


def _system(case, attractor, env):
    """Avoider, and its evaluation at a position."""
    kind, dim = case["kind"], case["dim"]
    initial = arr(case["initial"])
    if kind == "rotational":
        linear = LinearSystem(attractor_position=np.copy(attractor), maximum_velocity=1.0)
        avoider = RotationalAvoider(
            initial_dynamics=linear if case["same"] else ConstantValue(velocity=initial),
            obstacle_environment=env,
            convergence_system=linear,
            tail_rotation=case["tail"],
            convergence_radius=case["radius"],
        )

        def evaluate(position):
            return [
                avoider.avoid(position, sticky_surface=case["sticky"]),
                avoider.evaluate(position),
                _sequence_of(avoider, position, initial, linear),
            ]

        return avoider, linear, evaluate
    if kind == "local":
        avoider = RotationalAvoider(
            obstacle_environment=env,
            tail_rotation=case["tail"],
            convergence_radius=case["radius"],
        )
        dynamics = _nonlinear(case, attractor)

        def evaluate(position):
            env.set_convergence_directions(dynamics)
            return [
                avoider.avoid(position, initial_velocity=dynamics.evaluate(position))
            ] + [
                np.array(env.get_convergence_direction(position, it_obs=ii))
                for ii in range(len(env))
            ]

        return avoider, dynamics, evaluate
    dynamics = _nonlinear(case, attractor)
    convergence = None
    if kind == "projected":
        convergence = ProjectedRotationDynamics(
            attractor_position=np.copy(attractor),
            initial_dynamics=dynamics,
            reference_velocity=lambda x: x - attractor,
        )
    avoider = NonlinearRotationalAvoider(
        initial_dynamics=dynamics, obstacle_environment=env, obstacle_convergence=convergence
    )

    def evaluate(position):
        return [
            avoider.evaluate(position),
            avoider.evaluate_sequence(position),
            avoider.evaluate_weighted_dynamics(position, dynamics.evaluate(position)),
        ]

    return avoider, dynamics, evaluate


def _nonlinear(case, attractor):
    if case["wavy"] and case["dim"] == 2:
        return WavyLinearDynamics(attractor_position=np.copy(attractor))
    return LinearSystem(attractor_position=np.copy(attractor), maximum_velocity=1.0)


def _sequence_of(avoider, position, initial, linear):
    root = unit(np.ones(len(position)))
    sequences = [
        VectorRotationSequence.create_from_vector_array(np.vstack((root, unit(end))).T)
        for end in (initial, linear.evaluate(position))
    ]
    return avoider.avoid_sequence(position, *sequences).get_end_vector()


def outcome(evaluate, position):
    """Results, or the kind of the failure (in singular configurations)."""
    try:
        return [np.array(item, dtype=float) for item in evaluate(position)]
    except Exception as err:  # The same is expected of the new avoider
        return type(err).__name__


def compare(live, fresh, what, **info):
    if isinstance(live, str) or isinstance(fresh, str):
        require(
            isinstance(live, str) and isinstance(fresh, str),
            f"{what}: only one of them fails",
            live=live,
            fresh=fresh,
            **info,
        )
        return False
    require(len(live) == len(fresh), f"{what}: number of results", live=live, fresh=fresh)
    for ii, (one, two) in enumerate(zip(live, fresh)):
        require(
            one.shape == two.shape and np.allclose(one, two, atol=1e-7, rtol=1e-7, equal_nan=True),
            f"{what}: differs from the one of a new avoider",
            result=ii,
            live=one,
            fresh=two,
            **info,
        )
    return True


def check_single(case):
    bodies = [Body(item) for item in case["obstacles"]]
    env = RotationContainer()
    for body in bodies:
        env.append(body.build())
    attractor = arr(case["attractor"])
    _, dynamics, evaluate = _system(case, attractor, env)
    last, changed, nontrivial = None, False, False
    tags = [case["kind"]]
    for step in case["steps"]:
        kind, index = step["kind"], step["which"] % len(bodies) if bodies else None
        if kind == "evaluate":
            nontrivial |= _evaluate_step(case, step, bodies, env, attractor, evaluate, last, changed)
            last = _position(step, bodies, last)
            changed = False
            continue
        if kind == "add":
            if len(bodies) < MAX_OBS:
                bodies.append(Body(step["obstacle"]))
                bodies[-1].radius = step["radius"]
                env.append(bodies[-1].build(), convergence_radius=step["radius"])
        elif kind == "attractor":
            if case["kind"] == "projected" or case["kind"] == "nonlinear":
                continue  # Projected with respect to the attractor it is created with
            attractor = arr(step["vec"])
            dynamics.attractor_position = np.copy(attractor)
        elif not bodies:
            continue
        elif kind == "remove":
            del bodies[index]
            del env[index]
        elif kind == "replace":
            radius = bodies[index].radius
            bodies[index] = Body(step["obstacle"])
            bodies[index].radius = radius
            env[index] = bodies[index].build()
        elif kind == "move":
            bodies[index].item["center"] = step["vec"]
            env[index].center_position = arr(step["vec"])
        elif kind == "turn":
            bodies[index].item["rot"] = step["rot"]
            env[index].orientation = orientation(step["rot"])
        elif kind == "velocity":
            bodies[index].velocity = 0.3 * arr(step["vec"])
            env[index].linear_velocity = 0.3 * arr(step["vec"])
        elif kind == "reference":
            other = step["obstacle"]
            bodies[index].item.update(ref=other["ref"] or 0.3, ref_dir=other["ref_dir"])
            obs = env[index]
            point = obs.get_point_on_surface(arr(other["ref_dir"]), in_global_frame=False)
            obs.set_reference_point(point * (other["ref"] or 0.3), in_global_frame=False)
        elif kind == "radius":
            bodies[index].radius = step["radius"]
            env.convergence_radiuses = [body.radius for body in bodies]
        changed = True
        tags.append(kind)
    return sorted(set(tags)) + ["" if nontrivial else "trivial"]


def _position(step, bodies, last):
    if step["near"] == 0 and last is not None:
        return last
    if step["near"] == 1 and bodies:
        body = bodies[step["which"] % len(bodies)]
        return surface_point(body.build(), step["direction"], step["distance"])
    return arr(step["vec"])


def _evaluate_step(case, step, bodies, env, attractor, evaluate, last, changed):
    position = _position(step, bodies, last)
    given = np.copy(position)
    before = [(np.copy(obs.center_position), np.copy(obs.linear_velocity)) for obs in env]
    live = outcome(evaluate, given)
    require(np.array_equal(given, position), "Position modified", given=given)
    require(
        len(before) == len(env)
        and all(
            np.array_equal(center, obs.center_position)
            and np.array_equal(velocity, obs.linear_velocity)
            for (center, velocity), obs in zip(before, env)
        ),
        "Obstacles modified by the evaluation",
    )
    again = outcome(evaluate, np.copy(position))
    compare(again, live, "Second evaluation", position=position)

    fresh_env = RotationContainer()
    for body in bodies:
        fresh_env.append(body.build(), convergence_radius=body.radius)
    _, dynamics, fresh_evaluate = _system(case, attractor, fresh_env)
    fresh = outcome(fresh_evaluate, np.copy(position))
    valid = compare(live, fresh, "Velocity in the changed scene", position=position)
    if not valid or not bodies:
        return False
    return changed and not np.allclose(live[0], dynamics.evaluate(position), atol=1e-3)


# -- Trees ------------------------------------------------------------------------


@st.composite
def tree_history(draw):
    tree = tree_case(3, spread=4.0)
    ops = ["evaluate", "evaluate", "evaluate", "move", "move", "add", "remove", "twist"]
    steps = []
    for kind in draw(st.lists(st.sampled_from(ops), min_size=2, max_size=8)):
        steps.append(
            {
                "kind": kind,
                "which": draw(st.integers(0, 3)),
                "component": draw(st.integers(0, 2)),
                "tree": draw(tree) if kind == "add" else None,
                "vec": draw(vec(2, -6.0, 6.0)),
                "rot": draw(angle()),
                "near": draw(st.integers(0, 2)),
                "phi": draw(angle()),
                "distance": draw(num(0.001, 2.0)),
                "angular": draw(num(-1.0, 1.0)),
            }
        )
    steps.append(dict(steps[0], kind="evaluate", near=draw(st.integers(0, 2))))
    return {
        "trees": [draw(tree) for _ in range(draw(st.integers(1, 2)))],
        "attractor": draw(vec(2, -8.0, 8.0)),
        "speed": draw(st.sampled_from([0.5, 1.0, 2.0])),
        "dynamics": draw(st.sampled_from(["linear", "linear", "wavy", "circular", "constant"])),
        "heading": draw(angle()),
        "radius": draw(num(0.3, 4.0)),
        "convergence": draw(st.one_of(st.just(math.pi / 2), num(math.pi / 2, math.pi))),
        "steps": steps,
    }


def _build(state):
    tree = build_tree(state)
    if state.get("twist") is not None:
        tree.twist = Twist(linear=arr(state["twist"][0]), angular=state["twist"][1])
    return tree


def _tree_position(step, states, last):
    if step["near"] == 0 and last is not None:
        return last
    if step["near"] == 1 and states:
        tree = _build(states[step["which"] % len(states)])
        body = tree.get_component(step["component"] % len(tree))
        return surface_point(body, direction2(step["phi"]), step["distance"])
    return arr(step["vec"])


def _tree_evaluate(avoider):
    def evaluate(position):
        results = [avoider.evaluate(position)]
        if len(avoider.obstacle_list):
            results.append(avoider.compute_convergence_direction(position))
        return results

    return evaluate


def check_trees(case):
    states = [_explicit(item) for item in case["trees"]]
    trees = [_build(state) for state in states]
    dynamics, reference = make_dynamics(case)
    avoider = make_avoider(case, trees, dynamics, reference)
    container = avoider.obstacle_list
    last, changed, nontrivial, tags = None, False, False, []
    for step in case["steps"]:
        kind, index = step["kind"], step["which"] % len(states) if states else None
        if kind == "evaluate":
            position = _tree_position(step, states, last)
            given = np.copy(position)
            before = [np.copy(tree.get_pose().position) for tree in trees]
            live = outcome(_tree_evaluate(avoider), given)
            require(np.array_equal(given, position), "Position modified", given=given)
            require(
                all(np.array_equal(x, t.get_pose().position) for x, t in zip(before, trees)),
                "Trees modified by the evaluation",
            )
            again = outcome(_tree_evaluate(avoider), np.copy(position))
            compare(again, live, "Second evaluation", position=position)
            other, other_reference = make_dynamics(case)
            fresh = make_avoider(case, [_build(s) for s in states], other, other_reference)
            fresh = outcome(_tree_evaluate(fresh), np.copy(position))
            if compare(live, fresh, "Velocity in the changed scene", position=position):
                nontrivial |= (
                    bool(states)
                    and changed
                    and not np.allclose(live[0], dynamics.evaluate(position), atol=1e-3)
                )
            last, changed = position, False
            continue
        if kind == "add":
            if len(states) < 4:
                states.append(_explicit(step["tree"]))
                trees.append(_build(states[-1]))
                container.append(trees[-1])
        elif not states:
            continue
        elif kind == "remove":
            del states[index], trees[index]
            container = type(container)()
            for tree in trees:
                container.append(tree)
            avoider.obstacle_list = container
        elif kind == "move":
            states[index].update(position=step["vec"], rot=step["rot"])
            trees[index].update_pose(Pose(arr(step["vec"]), step["rot"]))
        elif kind == "twist":
            states[index]["twist"] = (step["vec"], step["angular"])
            trees[index].twist = Twist(linear=arr(step["vec"]), angular=step["angular"])
        changed = True
        tags.append(kind)
    discard_unless(last is not None)
    return sorted(set(tags)) + [case["dynamics"], "" if nontrivial else "trivial"]


def _explicit(state):
    state = dict(state)
    # The numerical intersection of two bodies depends on the frame
    state["components"] = [dict(item, explicit=True) for item in state["components"]]
    return state


SUBS = [
    Sub("single", single_case(), check_single, quick=900, shards=5, thorough=40000),
    Sub("trees", tree_history(), check_trees, quick=400, shards=3, thorough=15000),
]
