"""C16: dynamics which deviate locally, or by a bounded angle, from simple ones."""
import math

import numpy as np

from lib.gen import angle, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, plane_rotation, rot2, unit
from lib.scene import build_obstacle, gamma, obstacle_case, surface_point

from scipy.spatial.transform import Rotation

from nonlinear_avoidance.dynamics import (
    ConstantRegressor,
    DeviationOfConstantFlow,
    LocallyRotatedFromObtacle,
    MultiOutputSVR,
    PerpendicularDeviatoinOfLinearDS,
)

PROPERTY = "C16"
RULE = (
    "Ellipses and boxes in the plane and in space, reference velocities up to pi - 0.05 "
    "off the attractor, positions inside, around and far away; deviation models which "
    "memorise or return arbitrary angles. Non-trivial: influence strictly between zero "
    "and one, respectively a deviation beyond the limit or training data on both sides."
)


@st.composite
def local_case(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    return {
        "dim": dim,
        "obs": draw(obstacle_case(dim, shift=False)),
        "attractor": draw(st.one_of(vec(dim, -8.0, 8.0), vec(dim, -8.0, 8.0), st.just(None))),
        "velocity": draw(nonzero_vec(dim, -3.0, 3.0, min_norm=0.1)),
        "min_gamma": draw(st.one_of(st.just(1.0), num(1.0, 3.0))),
        "max_gamma": draw(st.one_of(st.just(10.0), num(1.2, 12.0))),
        "where": draw(st.sampled_from(["free", "free", "around", "center", "attractor", "behind", "side"])),
        "direction": draw(nonzero_vec(dim, -1.0, 1.0)),
        "offset": draw(st.one_of(num(0.0, 3.0), num(0.0, 10.0), num(0.0, 60.0))),
        "free": draw(vec(dim, -8.0, 8.0)),
        "turn": draw(angle()) if dim == 2 else draw(vec(3, -3.0, 3.0)),
        "move": draw(vec(dim, -5.0, 5.0)),
    }


def check_local(case):
    dim = case["dim"]
    obs = build_obstacle(case["obs"])
    center = np.array(obs.center_position)
    at_attractor = case["attractor"] is None
    attractor = center.copy() if at_attractor else arr(case["attractor"])
    to_attractor = attractor - center
    reference = arr(case["velocity"])
    speed = np.linalg.norm(reference)
    if not at_attractor:
        discard_unless(np.linalg.norm(to_attractor) > 0.1)
        discard_unless(angle_between(to_attractor, reference) < math.pi - 0.05)
    lower, upper = case["min_gamma"], case["max_gamma"]
    discard_unless(upper > lower + 0.1)

    def create(obs, attractor, reference):
        return LocallyRotatedFromObtacle(
            obstacle=obs,
            attractor_position=attractor,
            reference_velocity=reference,
            min_gamma=lower,
            max_gamma=upper,
        )

    dynamics = create(obs, attractor, reference.copy())
    where = case["where"]
    if where == "around":
        position = surface_point(obs, arr(case["direction"]), case["offset"])
    elif where == "center":
        position = center.copy()
    elif where == "attractor":
        position = attractor.copy()
    elif where == "behind" and not at_attractor:
        position = attractor + to_attractor * case["offset"] / 3
    elif where == "side" and not at_attractor and dim == 2:
        # Attractor seen exactly perpendicular to the reference
        position = attractor + rot2(math.pi / 2) @ to_attractor * case["offset"] / 3
    else:
        position = center + arr(case["free"])
    before = position.copy()
    value = dynamics.evaluate(position)
    require(close(before, position, 0) and close(obs.center_position, center, 0), "Input modified")
    require(is_vector(value, dim), "Not a velocity", value=value)
    rel = attractor - position
    dist = np.linalg.norm(rel)
    want = min(dist, speed)
    require(abs(np.linalg.norm(value) - want) < 1e-6, "Speed", value=value, want=want)
    if dist == 0:
        return ["trivial"]
    discard_unless(dist > 1e-5)
    level = gamma(obs, position)
    if at_attractor or level > upper * (1 + 1e-9):
        require(
            close(value, rel / dist * want, 1e-5 * max(want, 1)),
            "Not straight to the attractor",
            value=value,
            gamma=level,
        )
        return ["trivial"]
    full = angle_between(to_attractor, reference)
    off = angle_between(value, rel)
    opposite = angle_between(rel, to_attractor) > math.pi - 1e-3
    require(off <= full + 1e-5, "Deviation is larger than the reference", off=off, full=full)
    if level < lower - 1e-9 and not opposite:
        require(abs(off - full) < 1e-5, "Not the full deviation", off=off, full=full)
        mat = plane_rotation(to_attractor, rel)
        require(
            close(value / want, mat @ unit(reference), 1e-4),
            "Deviates in the wrong direction",
            value=value / want,
            expected=mat @ unit(reference),
        )
        if where == "center":
            require(close(value / want, unit(reference), 1e-5), "Reference at the center")
        return ["inside"]
    if not opposite:
        # Turned in the plane of the reference
        mat = plane_rotation(to_attractor, rel)
        turn = plane_rotation(rel, mat @ reference, factor=off / full if full > 1e-6 else 0.0)
        require(
            close(value / want, turn @ rel / dist, 1e-4),
            "Deviates in the wrong direction",
            value=value / want,
        )
    if not opposite and lower + 1e-6 < level < upper - 1e-6:
        # Continuous, also where the attractor is seen perpendicular to the reference
        for sign in (1, -1):
            for axis in range(dim):
                step = np.zeros(dim)
                step[axis] = sign * 1e-7
                near = dynamics.evaluate(position + step)
                require(close(near, value, 1e-2 * max(want, 1e-2)), "Jump", near=near, value=value)
    # Moves along with the world
    if dim == 2:
        mat = rot2(case["turn"])
    else:
        mat = Rotation.from_rotvec(arr(case["turn"])).as_matrix()
    move = arr(case["move"])
    other = create(
        build_obstacle(case["obs"], pose_map=(mat, move)), mat @ attractor + move, mat @ reference
    )
    moved = other.evaluate(mat @ position + move)
    if not opposite:
        require(
            close(moved, mat @ value, 1e-4 * max(want, 1)),
            "Does not move along with the obstacle",
            got=moved,
            want=mat @ value,
        )
    try:
        create(obs, attractor, np.zeros(dim))
    except ValueError:
        pass
    else:
        require(False, "Zero reference velocity accepted")
    return ["between" if full > 1e-3 and lower < level < upper else "trivial"]


# --- Constant flow -----------------------------------------------------------------
class Memory:
    """Returns the value of the closest sample."""

    def fit(self, X, y):
        self.X, self.y = np.array(X), np.array(y)
        return self

    def predict(self, X):
        dist = np.linalg.norm(self.X[None, :, :] - np.asarray(X)[:, None, :], axis=2)
        return self.y[np.argmin(dist, axis=1), :]


def check_limits(case):
    """Continuous where the influence starts and where it ends."""
    dim = case["dim"]
    obs = build_obstacle(case["obs"])
    center = np.array(obs.center_position)
    discard_unless(case["attractor"] is not None)
    attractor, reference = arr(case["attractor"]), arr(case["velocity"])
    to_attractor = attractor - center
    discard_unless(np.linalg.norm(to_attractor) > 0.1)
    full = angle_between(to_attractor, reference)
    discard_unless(full < math.pi - 0.05)
    lower, upper = case["min_gamma"], case["max_gamma"]
    discard_unless(upper > lower + 0.1)
    dynamics = LocallyRotatedFromObtacle(
        obstacle=obs,
        attractor_position=attractor,
        reference_velocity=reference.copy(),
        min_gamma=lower,
        max_gamma=upper,
    )
    away = unit(arr(case["direction"]))
    found = False
    for limit, inside in ((lower, 1.0), (upper, 0.0)):
        near, far = 0.0, 400.0
        discard_unless(gamma(obs, center + far * away) > limit)
        for _ in range(70):
            mid = 0.5 * (near + far)
            if gamma(obs, center + mid * away) <= limit:
                near = mid
            else:
                far = mid
        positions = [center + (near - 1e-8) * away, center + (far + 1e-8) * away]
        rel = attractor - positions[0]
        if np.linalg.norm(rel) < 0.05 or angle_between(rel, to_attractor) > math.pi - 0.2:
            continue
        values = [dynamics.evaluate(pp) for pp in positions]
        speed = min(np.linalg.norm(rel), np.linalg.norm(reference))
        require(
            np.linalg.norm(values[0] - values[1]) < 1e-4 * speed,
            "Jump at a limit of the influence",
            limit=limit,
            values=values,
        )
        for value in values:
            require(
                abs(angle_between(value, rel) - inside * full) < 1e-3,
                "Deviation at a limit of the influence",
                limit=limit,
                value=value,
            )
        found = found or full > 0.05
    # Vanishes towards the attractor, and where it is seen from the opposite side
    spread = upper - lower
    if gamma(obs, attractor) > lower + 0.1 * spread:
        position = attractor + 1e-6 * unit(arr(case["direction"]))
        rel = attractor - position
        if angle_between(rel, to_attractor) < math.pi - 1e-3:
            value = dynamics.evaluate(position)
            require(angle_between(value, rel) < 1e-3, "Deviation close to the attractor", value=value)
            found = found or (full > 0.05 and gamma(obs, position) < upper)
    across = np.cross(to_attractor, arr(case["direction"])) if dim == 3 else rot2(math.pi / 2) @ to_attractor
    if np.linalg.norm(across) > 1e-2:
        position = attractor + to_attractor * case["offset"] / 3 + 3e-3 * case["offset"] / 3 * np.linalg.norm(
            to_attractor
        ) * unit(across)
        rel = attractor - position
        if np.linalg.norm(rel) > 1e-2 and gamma(obs, position) > lower + 0.1 * spread:
            value = dynamics.evaluate(position)
            require(angle_between(value, rel) < 1e-3, "Deviation on the opposite side", value=value)
            found = found or (full > 0.05 and gamma(obs, position) < upper)
    return ["" if found else "trivial"]


@st.composite
def flow_case(draw):
    dim = draw(st.integers(2, 4))
    n = draw(st.integers(1, 8))
    return {
        "dim": dim,
        "reference": draw(nonzero_vec(dim, -3.0, 3.0, min_norm=0.1)),
        "positions": draw(st.lists(vec(dim), min_size=n, max_size=n)),
        "velocities": draw(
            st.lists(nonzero_vec(dim, -3.0, 3.0, min_norm=0.1), min_size=n, max_size=n)
        ),
        "query": draw(vec(dim)),
        "constant": draw(vec(dim - 1, -4.0, 4.0)),
    }


LIMIT = 0.99 * math.pi / 2


def check_flow(case):
    dim, reference = case["dim"], arr(case["reference"])
    speed = np.linalg.norm(reference)
    X, vel = arr(case["positions"]), arr(case["velocities"])
    discard_unless(all(angle_between(v, reference) < math.pi - 0.02 for v in vel))
    dynamics = DeviationOfConstantFlow(reference.copy(), Memory())
    X_before, v_before = X.copy(), vel.copy()
    dynamics.fit_from_velocities(X, vel)
    require(close(X, X_before, 0) and close(vel, v_before, 0), "Training data modified")
    beyond = False
    for ii, position in enumerate(list(X) + [arr(case["query"])]):
        closest = np.argmin(np.linalg.norm(X - position, axis=1))
        want = vel[closest]
        value = dynamics.evaluate(position)
        require(is_vector(value, dim), "Not a velocity", value=value)
        require(abs(np.linalg.norm(value) - speed) < 1e-6, "Speed", value=value)
        off = angle_between(want, reference)
        got = angle_between(value, reference)
        require(got <= LIMIT + 1e-6 and value @ reference > 0, "Deviation is not bounded", off=got)
        if off < LIMIT:
            require(close(value / speed, unit(want), 1e-5), "Learned direction is not reproduced", got=value)
        else:
            beyond = True
            turn = plane_rotation(reference, want, factor=LIMIT / off)
            require(close(value / speed, turn @ unit(reference), 1e-5), "Not limited towards the learned direction", got=value)
        free = dynamics.evaluate_without_lyapunov_check(position)
        require(close(free / speed, unit(want), 1e-5), "Unlimited direction", got=free)
        require(close(dynamics.evaluate_convergence_velocity(position), reference, 1e-12), "Convergence velocity")
    constant = DeviationOfConstantFlow(reference, ConstantRegressor(arr(case["constant"])))
    value = constant.evaluate(arr(case["query"]))
    want = min(np.linalg.norm(case["constant"]), LIMIT)
    require(abs(angle_between(value, reference) - want) < 1e-6, "Constant deviation", got=value)
    for bad in (
        lambda: dynamics.fit(X, np.zeros((len(X) + 1, dim - 1))),
        lambda: dynamics.fit(X, np.zeros((len(X), dim))),
    ):
        try:
            bad()
        except ValueError:
            continue
        require(False, "Inconsistent training data accepted")
    return ["limited" if beyond else "trivial" if len(X) < 2 else "free"]


# --- Linear system with a deviation for every half axis ------------------------------
@st.composite
def axes_case(draw):
    n = draw(st.integers(1, 8))
    return {
        "attractor": draw(vec(2, -4.0, 4.0)),
        "samples": draw(
            st.lists(
                st.fixed_dictionaries({"position": nonzero_vec(2), "off": num(-0.7, 0.7)}),
                min_size=n,
                max_size=n,
            )
        ),
        "query": draw(st.one_of(vec(2), vec(2, -1.0, 1.0), st.just([0.0, 0.0]))),
        "velocity": draw(vec(2, -3.0, 3.0)),
        "prox": draw(st.one_of(st.just(1.0), num(0.3, 4.0))),
        "max_velocity": draw(st.one_of(st.just(1.0), num(0.3, 4.0))),
        "axis": draw(st.integers(0, 3)),
        "along": draw(num(0.1, 5.0)),
        "turn": draw(st.one_of(num(-3.1, 3.1), num(-1.7, 1.7))),
        "limit": draw(st.one_of(st.none(), num(0.2, 1.5))),
    }


def check_axes(case):
    attractor = arr(case["attractor"])
    rel = arr([s["position"] for s in case["samples"]])
    # Directions within the quadrant which points to the attractor
    vel, good = [], []
    for sample, pos in zip(case["samples"], rel):
        direction = rot2(sample["off"]) @ unit(-pos)
        inside = bool(np.all(direction * -np.sign(pos) > 0.05)) and np.all(np.abs(pos) > 1e-3)
        good.append(inside)
        vel.append(direction)
    vel = arr(vel)
    dynamics = PerpendicularDeviatoinOfLinearDS(attractor_position=attractor, regressor=Memory())
    dynamics.fit_from_velocities(rel + attractor, vel)
    for pos, want, inside in zip(rel, vel, good):
        value = dynamics.evaluate(pos + attractor)
        require(is_vector(value, 2), "Not a velocity", value=value)
        speed = min(1.0, np.linalg.norm(pos))
        require(abs(np.linalg.norm(value) - speed) < 1e-6, "Speed", value=value)
        if inside and sum(np.linalg.norm(rel - pos, axis=1) < 1e-6) == 1:
            require(
                close(value / speed, want, 1e-4),
                "Learned direction is not reproduced",
                value=value / speed,
                want=want,
            )
    query = arr(case["query"])
    value = dynamics.evaluate(query + attractor)
    dist = np.linalg.norm((query + attractor) - attractor)
    require(abs(np.linalg.norm(value) - min(1.0, dist)) < 1e-6, "Speed", value=value)
    conv = dynamics.evaluate_convergence_velocity(query + attractor)
    require(close(conv, -query * (min(1.0, dist) / dist if dist else 0), 1e-6), "Convergence velocity", got=conv)
    grad = dynamics.get_lyapunov_gradient_direction(query + attractor)
    require(close(grad, -query / dist if dist else np.zeros(2), 1e-6), "Gradient", got=grad)
    # Any speed limits
    other = PerpendicularDeviatoinOfLinearDS(attractor_position=attractor, regressor=Memory())
    other.fit_from_velocities(rel + attractor, vel)
    other.prox_distance, other.max_velocity = case["prox"], case["max_velocity"]
    want = min(1.0, dist / case["prox"]) * case["max_velocity"]
    moved = other.evaluate(query + attractor)
    require(
        close(moved * (min(1.0, dist) if dist else 1.0), value * want, 1e-6),
        "Speed limit",
        got=moved,
        want=want,
    )
    conv = other.evaluate_convergence_velocity(query + attractor)
    require(close(conv, -query / dist * want if dist else np.zeros(2), 1e-6), "Convergence speed", got=conv)
    # Exactly on a half axis, there is only one prediction; it is limited
    axis = rot2(case["axis"] * math.pi / 2).round() @ np.array([1.0, 0.0])
    learned = rot2(case["turn"]) @ (-axis)
    single = PerpendicularDeviatoinOfLinearDS(attractor_position=attractor, regressor=Memory())
    if case["limit"] is not None:
        single.max_angle = case["limit"]
    limit = 0.49 * math.pi if case["limit"] is None else case["limit"]
    place = attractor + axis * case["along"]
    single.fit_from_velocities(np.array([place, place]), np.array([learned, learned]))
    got = single.evaluate(place)
    turn = max(-limit, min(limit, case["turn"]))
    require(
        close(got, rot2(turn) @ (-axis) * min(1.0, case["along"]), 1e-5),
        "Deviation on an axis",
        got=got,
        turn=turn,
    )
    return ["" if sum(good) > 1 else "trivial"]


@st.composite
def svr_case(draw):
    n, dim, out = draw(st.integers(3, 10)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {
        "X": draw(st.lists(vec(dim), min_size=n, max_size=n)),
        "y": draw(st.lists(vec(out, -2.0, 2.0), min_size=n, max_size=n)),
        "C": draw(st.sampled_from([0.5, 1.0, 10.0])),
        "query": draw(st.lists(vec(dim), min_size=1, max_size=4)),
    }


def check_svr(case):
    from sklearn.svm import SVR

    X, y, query = arr(case["X"]), arr(case["y"]), arr(case["query"])
    model = MultiOutputSVR(C=case["C"], gamma=0.3)
    model.fit(X, y)
    value = model.predict(query)
    require(value.shape == (len(query), y.shape[1]), "Shape", shape=value.shape)
    for ii in range(y.shape[1]):
        want = SVR(C=case["C"], gamma=0.3).fit(X, y[:, ii]).predict(query)
        require(close(value[:, ii], want, 1e-9), "Output of one dimension", got=value[:, ii], want=want)
    const = ConstantRegressor(y[0]).predict(query)
    require(const.shape == value.shape and close(const, np.array([y[0]] * len(query)), 0), "Constant")
    return ["" if y.shape[1] > 1 else "trivial"]


SUBS = [
    Sub("local", local_case(), check_local, quick=1200, shards=4, thorough=40000),
    Sub("limits", local_case(), check_limits, quick=400, thorough=10000),
    Sub("flow", flow_case(), check_flow, quick=500, shards=2, thorough=15000),
    Sub("axes", axes_case(), check_axes, quick=500, thorough=15000),
    Sub("svr", svr_case(), check_svr, quick=100, thorough=2000),
]
