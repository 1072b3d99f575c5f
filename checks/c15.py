"""C15: path following, wavy dynamics and their rotation sequences."""
import math

import numpy as np

from lib.gen import angle, count, nonzero_vec, num, pose2, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, rot2, unit
from lib.scene import direction2

from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import Pose

from nonlinear_avoidance.dynamics import SimpleCircularDynamics, WavyLinearDynamics
from nonlinear_avoidance.dynamics.constant_value import ConstantValueWithSequence
from nonlinear_avoidance.dynamics.segmented_dynamics import (
    DynamicsSegment,
    WavyPathFollowing,
    create_segment_from_points,
)
from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence

PROPERTY = "C15"
RULE = (
    "Paths of one to five segments with corners below 2.4 rad (gaps of twice the margin), positions on the path, "
    "around it and far away; wavy fields with arbitrary stretching and deviation; "
    "paths on a grid, with positions exactly on corners and crossings; sequences of linear, wavy, constant, circular and path dynamics. Non-trivial: more "
    "than one segment, respectively a velocity which deviates from the direction to the "
    "attractor."
)


@st.composite
def path_case(draw, n_min=1):
    n_seg = draw(count(n_min, 5, 9))
    return {
        "start": draw(vec(2, -3.0, 3.0)),
        "heading": draw(angle()),
        "lengths": draw(st.lists(num(1.5, 6.0), min_size=n_seg, max_size=n_seg)),
        "corners": draw(
            st.lists(
                st.one_of(num(-2.4, 2.4), st.sampled_from([0.0, math.pi / 2, -math.pi / 2])),
                min_size=n_seg - 1,
                max_size=n_seg - 1,
            )
        ),
        "margin": draw(st.one_of(st.just(0.1), st.just(0.5), num(0.0, 0.6))),
        "where": draw(st.sampled_from(["free", "segment", "far", "attractor", "extension"])),
        "segment": draw(st.integers(0, n_seg - 1)),
        "along": draw(st.one_of(num(0.0, 1.0), num(0.05, 0.95))),
        "free": draw(vec(2, -8.0, 8.0)),
        "dist": draw(num(0.0, 3.0)),
        "dir": draw(angle()),
        "pose": draw(pose2()),
        "slowdown": draw(num(0.3, 4.0)),
        "max_velocity": draw(num(0.3, 4.0)),
    }


def corner_points(case):
    points = [arr(case["start"])]
    heading = case["heading"]
    for ii, length in enumerate(case["lengths"]):
        if ii:
            heading += case["corners"][ii - 1]
        points.append(points[-1] + length * direction2(heading))
    return points


def segment_distance(start, end, position):
    rel = end - start
    share = min(1.0, max(0.0, (position - start) @ rel / (rel @ rel)))
    return np.linalg.norm(position - start - share * rel)


def position_of(case, segments):
    seg = segments[case["segment"]]
    goal = segments[-1].end
    where = case["where"]
    if where == "segment":
        return seg.start + case["along"] * (seg.end - seg.start)
    if where == "far":
        return goal + 1e3 * (1 + case["dist"]) * direction2(case["dir"])
    if where == "attractor":
        return goal + case["dist"] * direction2(case["dir"])
    if where == "extension":
        last = segments[-1]
        return goal + (case["dist"] * 3) * (last.end - last.start) / np.linalg.norm(last.end - last.start)
    return goal + arr(case["free"])


def check_path(case):
    points = corner_points(case)
    dynamics = create_segment_from_points(points, margin=case["margin"])
    segments = dynamics.segments
    require(len(segments) == len(points) - 1, "Number of segments")
    for ii, seg in enumerate(segments):
        rel = unit(points[ii + 1] - points[ii])
        require(
            close(seg.start, points[ii] + rel * case["margin"], 1e-9)
            and close(seg.end, points[ii + 1] - rel * case["margin"], 1e-9),
            "Ends of a segment",
            start=seg.start,
            end=seg.end,
        )
    goal = segments[-1].end
    require(close(dynamics.attractor_position, goal, 1e-12), "Attractor")
    position = position_of(case, segments)
    dists = [segment_distance(s.start, s.end, position) for s in segments]
    for seg, dist in zip(segments, dists):
        require(abs(seg.get_distance(position) - dist) < 1e-7 * max(dist, 1), "Distance to a segment")

    before = position.copy()
    weights = dynamics.get_weights(position)
    velocity = dynamics.evaluate(position)
    require(close(position, before, 0), "Position modified")
    require(is_vector(velocity, 2), "Not a velocity", velocity=velocity)
    require(
        len(weights) == len(segments) + 1
        and np.all(weights >= -1e-12)
        and abs(np.sum(weights) - 1) < 1e-6,
        "Weights are not a partition of one",
        weights=weights,
    )
    to_goal = goal - position
    dist_goal = np.linalg.norm(to_goal)
    want = min(1.0, dist_goal)
    require(abs(np.linalg.norm(velocity) - want) < 1e-6, "Speed", velocity=velocity, want=want)
    again = dynamics.evaluate(position)
    require(close(again, velocity, 1e-12), "Second evaluation differs", again=again)
    dynamics.slowdown_distance, dynamics.maximum_velocity = case["slowdown"], case["max_velocity"]
    other = min(1.0, dist_goal / case["slowdown"]) * case["max_velocity"]
    limited = dynamics.evaluate(position)
    require(close(limited * want, velocity * other, 1e-9), "Speed limit", limited=limited, want=other)
    dynamics.slowdown_distance = dynamics.maximum_velocity = 1.0
    discard_unless(dist_goal == 0 or dist_goal > 1e-6)
    if not dist_goal:
        return ["attractor"]

    close_ones = [ii for ii, dist in enumerate(dists) if dist < 1e-6]
    if len(close_ones) == 1 and dists[close_ones[0]] < 1e-9:
        seg = segments[close_ones[0]]
        others = min([d for ii, d in enumerate(dists) if ii != close_ones[0]], default=1.0)
        end_dist = min(np.linalg.norm(position - seg.start), np.linalg.norm(position - seg.end))
        if others > 1e-2 and end_dist > 1e-3:
            rel = unit(seg.end - seg.start)
            require(
                close(velocity / want, rel, 1e-3),
                "Does not follow the segment",
                velocity=velocity / want,
                segment=rel,
            )
    # Only the attractor counts far away and past the end of the last segment
    behind = unit(to_goal) @ unit(segments[-1].end - segments[-1].start)
    if min(dists) > 900 or behind < -1 + 1e-12:
        require(
            close(velocity / want, unit(to_goal), 2e-2 if behind > -1 + 1e-12 else 1e-6),
            "Not towards the attractor",
            velocity=velocity / want,
            direction=unit(to_goal),
        )
    # Closer segments weigh more, the sum of 9 / distance^2 is the total up to one
    for ii in range(len(dists)):
        for jj in range(len(dists)):
            if dists[ii] < dists[jj] * (1 - 1e-6) and dists[ii] > 1e-6:
                require(weights[ii] >= weights[jj] - 1e-9, "Closer segment weighs less", weights=weights)

    sequence = dynamics.evaluate_dynamics_sequence(position)
    require(
        close(sequence.get_end_vector() * want, velocity, 1e-9), "Sequence and velocity differ"
    )
    # Move world
    mat, shift = rot2(case["pose"]["orientation"]), arr(case["pose"]["position"])
    moved = WavyPathFollowing(
        [DynamicsSegment(mat @ s.start + shift, mat @ s.end + shift) for s in segments]
    )
    if min(dists) > 1e-6 and behind > -1 + 1e-6:
        value = moved.evaluate(mat @ position + shift)
        require(
            close(value, mat @ velocity, 1e-4),
            "Velocity does not move along with the path",
            got=value,
            want=mat @ velocity,
        )
    return [case["where"] if len(segments) > 1 else "trivial"]


# --- Corners and crossings (exactly on several segments) ---------------------------
@st.composite
def grid_case(draw):
    n_seg = draw(count(2, 6, 10))
    return {
        "start": [draw(st.integers(-2, 2)), draw(st.integers(-2, 2))],
        "first": draw(st.integers(0, 3)),
        "turns": draw(st.lists(st.sampled_from([-1, 0, 1]), min_size=n_seg - 1, max_size=n_seg - 1)),
        "lengths": draw(st.lists(st.integers(1, 5), min_size=n_seg, max_size=n_seg)),
        "at": [draw(st.integers(0, n_seg - 1)), draw(st.integers(0, 5))],
        "other": [draw(st.integers(-6, 6)), draw(st.integers(-6, 6))],
        "corner": draw(st.booleans()),
    }


def check_grid(case):
    directions = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    heading, points = case["first"], [np.array(case["start"], dtype=int)]
    for ii, length in enumerate(case["lengths"]):
        if ii:
            heading = (heading + case["turns"][ii - 1]) % 4
        points.append(points[-1] + length * np.array(directions[heading]))
    dynamics = create_segment_from_points([pp.astype(float) for pp in points], margin=0.0)
    # A position on the grid, i.e., all quantities are exact
    index, along = case["at"]
    span = points[index + 1] - points[index]
    length = int(np.sum(np.abs(span)))
    along = length if case["corner"] else along % (length + 1)
    spot = points[index] + span // length * along

    def is_on(start, end):
        low, high = np.minimum(start, end), np.maximum(start, end)
        return bool(np.all(low <= spot) and np.all(spot <= high))

    on = [is_on(points[ii], points[ii + 1]) for ii in range(len(points) - 1)]
    position = spot.astype(float)
    weights = np.array(dynamics.get_weights(position))
    require(
        len(weights) == len(on) + 1 and np.all(weights >= 0) and abs(np.sum(weights) - 1) < 1e-9,
        "Weights are not a partition of one",
        weights=weights,
        on=on,
    )
    for ii, item in enumerate(on):
        want = 1 / sum(on) if item else 0.0
        require(abs(weights[ii] - want) < 1e-9, "Not shared by the segments through it", weights=weights, on=on)
    velocity = dynamics.evaluate(position)
    want = min(1.0, float(np.linalg.norm(position - points[-1])))
    require(is_vector(velocity, 2) and abs(np.linalg.norm(velocity) - want) < 1e-6, "Speed", velocity=velocity)
    # Two consecutive segments: in between both of them
    if want and sum(on) == 2 and case["corner"] and on[index] and index + 1 < len(on) and on[index + 1]:
        mean = unit((points[index + 1] - points[index]) / length)
        nxt = points[index + 2] - points[index + 1]
        mean = unit(mean + unit(nxt.astype(float)))
        require(close(velocity / want, mean, 1e-6), "Corner: not the mean of both segments", got=velocity, want=mean)
    # Other segments nearby do not have an influence on a segment
    if want and sum(on) == 1 and index == on.index(True):
        rel = unit((points[index + 1] - points[index]).astype(float))
        require(close(velocity / want, rel, 1e-6), "Does not follow the segment", got=velocity, want=rel)
    return ["" if sum(on) > 1 else "trivial"]


def check_segment(case):
    """Single segment: unit speed, progress and attraction to its line."""
    start = arr(case["start"])
    rel = direction2(case["heading"])
    length = case["lengths"][0]
    seg = DynamicsSegment(start, start + rel * length)
    side = np.array([-rel[1], rel[0]])
    along = (case["along"] * 3 - 1) * length
    off = case["free"][0] if case["where"] != "segment" else 0.0
    position = start + along * rel + off * side
    value = seg.evaluate(position)
    require(is_vector(value, 2), "Not a velocity", value=value)
    require(abs(np.linalg.norm(value) - 1) < 1e-9, "Not a unit vector", value=value)
    require(value @ rel > 0, "No progress", value=value)
    if abs(off) > 1e-6:
        require((value @ side) * off < 0, "Not towards the line", value=value)
        further = seg.evaluate(position + off * side)
        require(
            abs(further @ side) >= abs(value @ side) - 1e-9, "Weaker at larger distance"
        )
    elif off == 0:
        require(close(value, rel, 1e-6), "Leaves the line", value=value)
    shifted = seg.evaluate(position + 1.7 * rel)
    require(close(shifted, value, 1e-6), "Changes along the line", value=value, shifted=shifted)
    for bad in (lambda: DynamicsSegment(start, start.copy()),
                lambda: create_segment_from_points([start, start.copy(), start + rel])):
        try:
            bad()
        except ValueError:
            continue
        require(False, "Segment of zero length accepted")
    return ["" if off else "trivial"]


def check_follow(case):
    """Starting on the path, the attractor is reached along the corner points."""
    points = corner_points(case)
    dynamics = create_segment_from_points(points, margin=min(case["margin"], 0.3))
    # Well separated path: the parts do not come close to each other
    segs = dynamics.segments
    for ii in range(len(segs)):
        for jj in range(ii + 2, len(segs)):
            gap = min(
                segment_distance(segs[jj].start, segs[jj].end, segs[ii].start + t * (segs[ii].end - segs[ii].start))
                for t in np.linspace(0, 1, 13)
            )
            discard_unless(gap > 1.2)
    discard_unless(all(abs(c) < 1.7 for c in case["corners"]))
    position = segs[0].start + 0.1 * (segs[0].end - segs[0].start)
    n_steps = int((sum(case["lengths"]) + 6) / 0.05 * 1.3)
    for _ in range(n_steps):
        velocity = dynamics.evaluate(position)
        require(is_vector(velocity, 2), "Not finite", position=position)
        position = position + 0.05 * velocity
        if np.linalg.norm(position - dynamics.attractor_position) < 0.06:
            break
    dist = np.linalg.norm(position - dynamics.attractor_position)
    require(dist < 0.1, "Attractor is not reached", final=position, distance=dist)
    return ["" if len(segs) > 1 else "trivial"]


# --- Wavy field ----------------------------------------------------------------
@st.composite
def wavy_case(draw):
    return {
        "attractor": draw(vec(2, -4.0, 4.0)),
        "stretch": draw(num(0.1, 4.0)),
        "deviation": draw(st.one_of(num(0.0, 1.5), st.just(0.3 * math.pi), num(0.0, 3.0))),
        "max_vel": draw(st.one_of(st.none(), num(0.2, 4.0))),
        "position": draw(vec(2, -6.0, 6.0)),
        "other": draw(angle()),
    }


def check_wavy(case):
    attractor = arr(case["attractor"])
    kwargs = {} if case["max_vel"] is None else {"maximum_velocity": case["max_vel"]}
    dynamics = WavyLinearDynamics(
        attractor_position=attractor,
        distance_strech_factor=case["stretch"],
        maximum_deviation=case["deviation"],
        **kwargs,
    )
    position = attractor + arr(case["position"])
    value = dynamics.evaluate(position)
    require(is_vector(value, 2), "Not a velocity", value=value)
    rel = attractor - position
    dist = np.linalg.norm(rel)
    linear = LinearSystem(attractor_position=attractor, **kwargs).evaluate(position)
    require(
        abs(np.linalg.norm(value) - np.linalg.norm(linear)) < 1e-9 * max(dist, 1),
        "Speed differs from the linear dynamics",
        value=value,
        linear=linear,
    )
    require(close(dynamics.evaluate(attractor), np.zeros(2), 1e-12), "Moves at the attractor")
    discard_unless(dist > 1e-6)
    off = angle_between(value, rel)
    require(off <= case["deviation"] + 1e-6, "Deviation too large", off=off)
    want = abs(case["deviation"] * math.sin(dist * case["stretch"]))
    require(abs(off - want) < 1e-5, "Not a wave of the distance", off=off, want=want)
    if 0.05 < off < math.pi - 0.05:
        cross = rel[0] * value[1] - rel[1] * value[0]
        require(
            (cross > 0) == (math.sin(dist * case["stretch"]) > 0), "Wrong side", value=value
        )
    mat = rot2(case["other"])
    other = dynamics.evaluate(attractor - mat @ rel)
    require(close(other, mat @ value, 1e-6 * max(dist, 1)), "Depends on the direction", other=other)
    if case["deviation"] < 1.5:
        require(value @ rel > 0, "Not approaching the attractor", value=value)
    for dim in (1, 3):
        try:
            WavyLinearDynamics(attractor_position=np.zeros(dim))
        except NotImplementedError:
            continue
        require(False, "Accepts other dimensions")
    return ["" if off > 1e-3 else "trivial"]


# --- Sequences of dynamics -------------------------------------------------------
@st.composite
def sequence_case(draw):
    return {
        "kind": draw(st.sampled_from(["wavy", "linear", "circular", "constant", "constant_sequence"])),
        "default": draw(st.sampled_from(["none", "none", "linear", "constant"])),
        "attractor": draw(vec(2, -4.0, 4.0)),
        "other": draw(vec(2, -4.0, 4.0)),
        "velocity": draw(st.one_of(nonzero_vec(2), nonzero_vec(2), st.just([0.0, 0.0]))),
        "rel": draw(st.one_of(vec(2, -6.0, 6.0), vec(2, -6.0, 6.0), st.just([0.0, 0.0]))),
    }


def check_sequence(case):
    attractor = arr(case["attractor"])
    position = attractor + arr(case["rel"])
    kind = case["kind"]
    if kind == "wavy":
        dynamics = WavyLinearDynamics(attractor_position=attractor)
    elif kind == "linear":
        dynamics = LinearSystem(attractor_position=attractor)
    elif kind == "circular":
        dynamics = SimpleCircularDynamics(pose=Pose(attractor), radius=1.5)
    elif kind == "constant":
        dynamics = ConstantValue(velocity=arr(case["velocity"]))
    else:
        discard_unless(any(case["velocity"]))
        dynamics = ConstantValueWithSequence(arr(case["velocity"]))
    default = {
        "none": lambda: None,
        "linear": lambda: LinearSystem(attractor_position=arr(case["other"])),
        "constant": lambda: ConstantValue(velocity=arr(case["other"])),
    }[case["default"]]()

    end = dynamics.evaluate(position)
    if kind == "constant_sequence":
        start = end
        require(close(end, arr(case["velocity"]), 0), "Not constant")
    elif default is not None:
        start = default.evaluate(position)
    elif kind == "constant":
        start = end
    else:
        start = attractor - position
    degenerate = not np.any(start) or not np.any(end)
    discard_unless(degenerate or min(np.linalg.norm(start), np.linalg.norm(end)) > 1e-6)
    if not degenerate:
        discard_unless(angle_between(start, end) < math.pi - 0.02)
    before = position.copy()
    sequence = evaluate_dynamics_sequence(position, dynamics, default)
    require(close(before, position, 0), "Position modified")
    if degenerate:
        require(sequence is None, "Sequence without direction", start=start, end=end)
        return ["trivial"]
    require(sequence is not None, "No sequence")
    require(
        close(sequence.basis_array[:, 0, 0], unit(start), 1e-6),
        "Does not start at the reference direction",
        want=unit(start),
    )
    require(close(sequence.get_end_vector(), unit(end), 1e-6), "Does not end at the velocity", got=sequence.get_end_vector(), want=unit(end))
    return [kind if angle_between(start, end) > 1e-3 else "trivial"]


SUBS = [
    Sub("path", path_case(), check_path, quick=1000, shards=3, thorough=30000),
    Sub("grid", grid_case(), check_grid, quick=500, thorough=15000),
    Sub("segment", path_case(), check_segment, quick=400, thorough=10000),
    Sub("follow", path_case(n_min=2), check_follow, quick=60, shards=3, thorough=1500),
    Sub("wavy", wavy_case(), check_wavy, quick=600, thorough=20000),
    Sub("sequence", sequence_case(), check_sequence, quick=600, thorough=20000),
]
