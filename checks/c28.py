"""C28: simulation, recording and metrics of the compared trajectories."""
import contextlib
import io
import json
import math
import os
import tempfile
import types
import warnings
from pathlib import Path

import numpy as np

from lib.gen import angle, nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import arr, close, unit

from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes

from nonlinear_avoidance.comparison import comparison_multiobstacle_vectorfield as simulation
from nonlinear_avoidance.comparison import evaluation_path_following as following
from nonlinear_avoidance.comparison import evaluation_trajectories as single
from nonlinear_avoidance.comparison import evaluation_trajectories_with_std as several
from nonlinear_avoidance.rotation_container import RotationContainer

PROPERTY = "C28"
RULE = (
    "Constant, linear and circular motions from any start with a circle to collide with; grids "
    "around up to three ellipses; recorded trajectories of any shape, with and without standing "
    "still; folders of one to five recordings; tables of up to twelve runs of up to three methods. "
    "Non-trivial: the simulation stops early, obstacles cover a part of the grid, or there are "
    "several recordings."
)
ASSUMPTIONS = ["Recordings have at least three positions, two of which differ, as documented by the metrics."]


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


MOTION = st.one_of(
    st.fixed_dictionaries({"kind": st.just("constant"), "value": nonzero_vec(2)}),
    st.fixed_dictionaries({"kind": st.just("linear"), "value": vec(2)}),
    st.fixed_dictionaries({"kind": st.just("circular"), "value": vec(2)}),
)


def motion(case):
    value = arr(case["value"])
    if case["kind"] == "constant":
        return lambda x: value.copy()
    if case["kind"] == "linear":
        return lambda x: value - x
    return lambda x: np.array([-(x - value)[1], (x - value)[0]])


# --- Simulation ---------------------------------------------------------------------------
SIMULATE = st.fixed_dictionaries(
    {
        "motion": MOTION,
        "start": vec(2),
        "steps": st.integers(2, 25),
        "step": num(0.02, 1.0),
        "margin": st.sampled_from([1e-3, 0.1, 0.5]),
        "body": st.one_of(st.none(), st.fixed_dictionaries({"center": vec(2), "radius": num(0.2, 2.0)})),
    }
)


def collides(case):
    if case["body"] is None:
        return None
    center, radius = arr(case["body"]["center"]), case["body"]["radius"]
    return lambda x: bool(np.linalg.norm(x - center) <= radius)


def check_simulate(case):
    field, start = motion(case["motion"]), arr(case["start"])
    collision = collides(case)
    with silent():
        path = simulation.integrate_trajectory(
            field,
            start_position=start,
            it_max=case["steps"],
            delta_time=case["step"],
            conv_margin=case["margin"],
            collision_functor=collision,
        )
    require(close(start, case["start"], 0), "Input modified")
    tags = follows(case, path, field, start, collision)
    return ["" if tags else "trivial"] + tags


def follows(case, path, field, start, collision):
    """Check a recorded path; returns why it stopped."""
    speeds = lambda x: np.linalg.norm(field(x))
    require(path.ndim == 2 and path.shape[0] == 2 and path.shape[1] <= case["steps"], "Shape", shape=path.shape)
    position, count = start, 0
    while True:
        if count < path.shape[1]:
            require(
                close(path[:, count], position, 1e-9),
                "Not a step of equal length along the velocity",
                index=count,
                got=path[:, count],
                want=position,
            )
        count += 1
        if count == case["steps"]:
            require(path.shape[1] == count, "Stopped early", got=path.shape)
            return []
        speed = speeds(position)
        discard_unless(abs(speed - case["margin"]) > 1e-9)
        if speed < case["margin"]:
            # The last position may be left out
            require(path.shape[1] in (count - 1, count), "Does not stop at the local minimum", got=path.shape)
            return ["minimum"]
        position = position + field(position) / speed * case["step"]
        if collision is None:
            continue
        distance = np.linalg.norm(position - arr(case["body"]["center"])) - case["body"]["radius"]
        discard_unless(abs(distance) > 1e-9)
        if distance < 0:
            require(path.shape[1] == count, "Does not stop before the collision", got=path.shape, want=count)
            return ["collision"]


BODY = st.fixed_dictionaries({"center": vec(2, -3.0, 3.0), "axes": vec(2, 0.4, 4.0), "angle": angle()})
FILES = st.fixed_dictionaries(
    {
        "motion": MOTION,
        "bodies": st.lists(BODY, min_size=0, max_size=3),
        "n_grid": st.integers(1, 4),
        "x_lim": vec(2, -4.0, 4.0),
        "y_lim": vec(2, -4.0, 4.0),
        "steps": st.integers(2, 8),
        "step": num(0.02, 0.5),
        "margin": st.sampled_from([1e-3, 0.1]),
        "body": st.one_of(st.none(), st.fixed_dictionaries({"center": vec(2), "radius": num(0.2, 2.0)})),
    }
)


def check_files(case):
    environment = RotationContainer()
    for item in case["bodies"]:
        environment.append(
            EllipseWithAxes(
                center_position=arr(item["center"]), axes_length=arr(item["axes"]), orientation=item["angle"]
            )
        )
    free, covered = [], 0
    for yy in np.linspace(*case["y_lim"], case["n_grid"]):
        for xx in np.linspace(*case["x_lim"], case["n_grid"]):
            levels = [level(item, [xx, yy]) for item in case["bodies"]]
            discard_unless(all(abs(value - 1) > 1e-6 for value in levels))
            if all(value > 1 for value in levels):
                free.append([xx, yy])
            else:
                covered += 1
    discard_unless(free)
    field, collision = motion(case["motion"]), collides(case)
    with tempfile.TemporaryDirectory() as folder:
        datapath = os.path.join(folder, "data")
        os.makedirs(datapath)
        with open(os.path.join(folder, "comparison_parameters.json"), "w") as stream:
            json.dump({"it_max": case["steps"], "conv_margin": case["margin"], "delta_time": case["step"]}, stream)
        with silent():
            simulation.create_start_positions(
                case["n_grid"], case["x_lim"], case["y_lim"], environment, datapath, store_to_file=True
            )
            simulation.evaluate_trajectories(
                datapath=datapath,
                avoidance_functor=field,
                outputfolder="results",
                collision_functor=collision,
            )
        names = sorted(os.listdir(os.path.join(datapath, "results")))
        require(len(names) == len(free), "Number of recordings", got=len(names), want=len(free))
        paths = []
        with silent():
            for name in names:
                table = np.loadtxt(os.path.join(datapath, "results", name), delimiter=",", ndmin=2)
                paths.append(table.T if table.size else np.zeros((2, 0)))
    # Each of the free positions is simulated once
    for path, start in zip(paths, free):
        if path.shape[1]:
            require(close(path[:, 0], start, 1e-9), "Start of the recording", got=path[:, 0], want=start)
        follows(case, path, field, arr(start), collision)
    return ["" if covered and len(free) > 1 else "trivial"]


def level(item, point):
    turn = np.array(
        [[math.cos(item["angle"]), -math.sin(item["angle"])], [math.sin(item["angle"]), math.cos(item["angle"])]]
    )
    local = turn.T @ (arr(point) - arr(item["center"])) / (0.5 * arr(item["axes"]))
    return float(np.linalg.norm(local))


# --- Metrics -------------------------------------------------------------------------------
@st.composite
def path_of(draw, t_max=8):
    steps = draw(st.lists(st.one_of(nonzero_vec(2, -1.0, 1.0), nonzero_vec(2, -1.0, 1.0), st.just([0.0, 0.0])), min_size=2, max_size=t_max))
    steps = steps + [draw(nonzero_vec(2, -1.0, 1.0)), draw(nonzero_vec(2, -1.0, 1.0))]
    return {"start": draw(vec(2)), "steps": steps}


def positions_of(case):
    steps = arr(case["steps"])
    discard_unless(np.sum(np.linalg.norm(steps, axis=1) > 1e-3) >= 2)
    path = np.vstack(([arr(case["start"])], arr(case["start"]) + np.cumsum(steps, axis=0))).T
    lengths = np.linalg.norm(np.diff(path, axis=1), axis=0)
    # Rounding must not create tiny steps
    for ii, step in enumerate(steps):
        if not np.linalg.norm(step):
            path[:, ii + 1] = path[:, ii]
    lengths = np.linalg.norm(np.diff(path, axis=1), axis=0)
    discard_unless(np.all((lengths == 0) | (lengths > 1e-4)))
    return path


METRICS = st.fixed_dictionaries(
    {
        "path": path_of(),
        "motion": MOTION,
        "module": st.booleans(),
        "center": vec(2),
        "radius": num(0.1, 4.0),
        "delta": num(0.01, 1.0),
    }
)


def metrics(path, field, center, radius, delta):
    """Reference of all the metrics."""
    n_pos = path.shape[1]
    pairs, fields = [], []
    for ii in range(n_pos - 1):
        step = path[:, ii + 1] - path[:, ii]
        if np.linalg.norm(step) > 0:
            pairs.append(unit(step))
            fields.append(field(path[:, ii]))
    error = [abs(np.sum((path[:, ii] - center) ** 2) - radius**2) for ii in range(n_pos)]
    acceleration = [
        np.sum(((path[:, ii + 2] - 2 * path[:, ii + 1] + path[:, ii]) / delta**2) ** 2) for ii in range(n_pos - 2)
    ]
    return types.SimpleNamespace(
        path=np.mean(error),
        acceleration=np.mean(acceleration),
        turning=np.mean([aa @ bb for aa, bb in zip(pairs[:-1], pairs[1:])]),
        deviation=np.mean([np.sum((aa - ff) ** 2) for aa, ff in zip(pairs, fields)]),
        alignment=np.mean([aa @ unit(ff) if np.linalg.norm(ff) else 0.0 for aa, ff in zip(pairs, fields)]),
        standing=n_pos - 1 - len(pairs),
    )


def check_metrics(case):
    path, field = positions_of(case["path"]), motion(case["motion"])
    module = several if case["module"] else single
    given = path.copy()
    center, delta = arr(case["center"]), case["delta"]
    want = metrics(path, field, center, case["radius"], delta)
    got = types.SimpleNamespace(
        path=module.mean_squared_error_to_path(path, center, case["radius"]),
        acceleration=module.mean_squared_acceleration(path, delta),
        turning=module.dot_product_acceleration(path, delta),
        deviation=module.mean_squared_velocity_deviation(path, field, delta),
        alignment=module.dot_product_velocity_deviation(path, field, delta),
    )
    for name, value in vars(got).items():
        goal = getattr(want, name)
        require(abs(value - goal) < 1e-6 * max(1.0, abs(goal)), f"Metric: {name}", got=value, want=goal)
    require(close(path, given, 0), "Input modified")
    return ["standing" if want.standing else ""]


# --- Evaluation of a folder ------------------------------------------------------------------
FOLDER = st.fixed_dictionaries(
    {
        "paths": st.lists(path_of(6), min_size=1, max_size=5),
        "module": st.booleans(),
        "it_max": st.integers(2, 8),
        "delta": num(0.01, 1.0),
        "all": st.booleans(),
    }
)


def circle(position):
    """Motion at unit speed onto and along the circle with radius two around the origin."""
    return REFERENCE.evaluate(position)


REFERENCE = simulation.create_initial_dynamics()


def check_folder(case):
    module = several if case["module"] else single
    paths = [positions_of(item) for item in case["paths"]]
    with tempfile.TemporaryDirectory() as folder:
        datapath = os.path.join(folder, "data")
        os.makedirs(os.path.join(datapath, "results"))
        with open(os.path.join(folder, "comparison_parameters.json"), "w") as stream:
            json.dump({"it_max": case["it_max"], "conv_margin": 1e-2, "delta_time": case["delta"]}, stream)
        for ii, path in enumerate(paths):
            np.savetxt(os.path.join(datapath, "results", f"trajectory{ii:03d}.csv"), path.T, delimiter=",")
        evaluator = module.TrajectoryEvaluator(
            data_folder="results", data_path=datapath, n_runs=-1 if case["all"] else len(paths)
        )
        with silent():
            evaluator.run()
    wants = [metrics(path, circle, np.zeros(2), 2.0, case["delta"]) for path in paths]
    require(evaluator.n_runs == len(paths), "Number of recordings", got=evaluator.n_runs)
    complete = sum(path.shape[1] >= case["it_max"] for path in paths)
    require(
        evaluator.n_converged == complete and evaluator.n_local_minima == len(paths) - complete,
        "Number of complete recordings",
        got=(evaluator.n_converged, evaluator.n_local_minima),
        want=complete,
    )
    table = {
        "dist_to_path": "path",
        "squared_error_velocity": "deviation",
        "dotprod_err_velocity": "alignment",
        "squared_acceleration": "acceleration",
        "dotprod_acceleration": "turning",
    }
    for name, key in table.items():
        values = np.array([getattr(want, key) for want in wants])
        scale = 1e-6 * max(1.0, np.max(np.abs(values)))
        require(
            abs(getattr(evaluator, name) - np.mean(values)) < scale,
            f"Mean over the recordings: {key}",
            got=getattr(evaluator, name),
            want=np.mean(values),
        )
        if case["module"]:
            spread = getattr(evaluator, name + "_std")
            require(abs(spread - np.std(values)) < scale, f"Deviation of the recordings: {key}", got=spread, want=np.std(values))
    if case["module"]:
        for name, key in (("nics_err_velocity", "alignment"), ("nics_acceleration", "turning")):
            values = np.array([0.5 * (1 - getattr(want, key)) for want in wants])
            require(
                abs(getattr(evaluator, name) - np.mean(values)) < 1e-6
                and abs(getattr(evaluator, name + "_std") - np.std(values)) < 1e-6,
                f"Normalised similarity: {key}",
                got=getattr(evaluator, name),
                want=np.mean(values),
            )
    return ["" if len(paths) > 1 else "trivial"]


# --- Tables of path following ------------------------------------------------------------------
@st.composite
def table_case(draw):
    n_runs = draw(st.integers(2, 12))
    row = st.fixed_dictionaries(
        {
            "converged": st.sampled_from([1, 1, 1, 0]),
            "distance": num(0.0, 10.0),
            "free": num(0.0, 1.0),
            "gamma": num(1.0, 5.0),
        }
    )
    return {
        "tables": draw(st.lists(st.lists(row, min_size=n_runs, max_size=n_runs), min_size=1, max_size=3)),
        "direct": draw(st.booleans()),
    }


def check_tables(case):
    tables = case["tables"]
    both = np.array([[row["converged"] > 0 for row in table] for table in tables])
    common = np.all(both, axis=0)
    discard_unless(np.sum(common) >= 2)
    with tempfile.TemporaryDirectory() as folder:
        evaluators = []
        for ii, table in enumerate(tables):
            with open(os.path.join(folder, f"method{ii}.csv"), "w") as stream:
                stream.write("run, converged, distance, free_fraction, gammas\n")
                for nn, row in enumerate(table):
                    stream.write(f"{nn},{row['converged']},{row['distance']!r},{row['free']!r},{row['gamma']!r}\n")
            evaluator = following.TrajectoryEvaluator(f"method{ii}.csv")
            evaluator.root_path, evaluator.data_path = Path(folder), Path(".")
            evaluators.append(evaluator)
        selected = following.get_converged(evaluators)
        require([bool(vv) for vv in selected] == [bool(vv) for vv in common], "Runs which converged for all the methods")
        for evaluator, table, flags in zip(evaluators, tables, both):
            if case["direct"]:
                fresh = following.TrajectoryEvaluator(evaluator.data_file)
                fresh.root_path, fresh.data_path = Path(folder), Path(".")
                evaluator = fresh
            evaluator.run(selected)
            rows = [row for row, flag in zip(table, common) if flag]
            want = {
                "frac_converged": np.mean(flags),
                "distance_mean": np.mean([row["distance"] for row in rows]),
                "distance_var": np.var([row["distance"] for row in rows], ddof=1),
                "gammas_mean": np.mean([row["gamma"] for row in rows]),
                "gammas_var": np.var([row["gamma"] for row in rows], ddof=1),
                "occupied_mean": np.mean([1 - row["free"] for row in rows]),
            }
            require(evaluator.n_runs == len(table), "Number of runs")
            for name, value in want.items():
                got = getattr(evaluator, name)
                require(abs(got - value) < 1e-9 * max(1.0, abs(value)), f"Table: {name}", got=got, want=value)
            occupied = [1 - row["free"] for row in rows]
            require(
                min(abs(evaluator.occupied_std - np.std(occupied, ddof=ii)) for ii in (0, 1)) < 1e-9,
                "Table: standard deviation of the occupied fraction",
                got=evaluator.occupied_std,
                want=np.std(occupied),
            )
    return ["" if len(tables) > 1 and not np.all(both) else "trivial"]


SUBS = [
    Sub("simulate", SIMULATE, check_simulate, quick=800, thorough=15000),
    Sub("files", FILES, check_files, quick=200, shards=2, thorough=4000),
    Sub("metrics", METRICS, check_metrics, quick=800, shards=2, thorough=20000),
    Sub("folder", FOLDER, check_folder, quick=300, shards=2, thorough=6000),
    Sub("tables", table_case(), check_tables, quick=200, thorough=4000),
]
