"""C26: directions learned from recorded motions, and the mixture regression behind it."""
import contextlib
import io
import math
import os
import tempfile
import types
import warnings

import numpy as np
import scipy.io
from scipy.stats import multivariate_normal

from lib.gen import nonzero_vec, num, st, vec
from lib.pbt import Sub, discard_unless, require
from lib.ref import angle_between, arr, close, is_vector, unit

from vartools.directional_space import get_angle_space_inverse
from vartools.dynamical_systems import LinearSystem

from nonlinear_avoidance.gmm_learner import direction_space
from nonlinear_avoidance.gmm_learner.learner.base import Learner
from nonlinear_avoidance.gmm_learner.learner.directional_gmm import DirectionalGMM
from nonlinear_avoidance.gmm_learner.learner.gpr_directional import DirectionalGPR
from nonlinear_avoidance.gmm_learner.learner.svr_directional import DirectionalSVR
from nonlinear_avoidance.gmm_learner.math_tools import mag_linear_maximum, rk4, rk4_pos_vel
from nonlinear_avoidance.multivariant_gaussian import MultiVariantGaussian

PROPERTY = "C26"
RULE = (
    "Recordings of one to four demonstrations of different lengths, which come to rest or "
    "not; mixtures of one to four Gaussians in the position, velocity and angle of the plane "
    "and the space; batches of positions close to and far from the components; linear "
    "systems for the integration. Non-trivial: several demonstrations, components or samples."
)
ASSUMPTIONS = ["Angles and directions are converted by the stand-in library, fits by scikit-learn."]


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


# --- Recordings ------------------------------------------------------------------------
@st.composite
def recording(draw, t_min=1, t_max=5, n_min=1, n_max=4):
    demos = []
    for _ in range(draw(st.integers(n_min, n_max))):
        length = draw(st.integers(t_min, t_max))
        demos.append(
            {
                "pos": draw(st.lists(vec(2), min_size=length, max_size=length)),
                "vel": draw(st.lists(nonzero_vec(2, -3.0, 3.0), min_size=length, max_size=length)),
                "rest": draw(st.booleans()),
            }
        )
    return demos


def demonstrations(case):
    out = []
    for item in case["demos"]:
        pos, vel = arr(item["pos"]), arr(item["vel"])
        if item["rest"] or len(case["demos"]) == 1:
            vel[-1] = 0.0
        out.append((pos, vel))
    return out


def cells(demos):
    data = np.empty((1, len(demos)), dtype=object)
    for ii, (pos, vel) in enumerate(demos):
        data[0, ii] = np.vstack((pos.T, vel.T))
    return data


def load(learner_type, demos, **kwargs):
    with tempfile.TemporaryDirectory() as folder:
        scipy.io.savemat(os.path.join(folder, "motion.mat"), {"data": cells(demos)})
        learner = learner_type(directory_name=folder, file_name="motion.mat")
        with silent():
            learner.load_data_from_mat(**kwargs)
    return learner


LEARNERS = {"gmm": DirectionalGMM, "gpr": DirectionalGPR, "svr": DirectionalSVR}


@st.composite
def import_case(draw):
    return {
        "demos": draw(recording()),
        "learner": draw(st.sampled_from(sorted(LEARNERS))),
        "attractor": draw(st.one_of(st.none(), vec(2))),
        "samples": draw(st.one_of(st.none(), st.integers(2, 20))),
        "seed": draw(st.integers(0, 1000)),
        "query": draw(vec(2)),
    }


def check_import(case):
    demos = demonstrations(case)
    pos = np.vstack([pp for pp, _ in demos])
    vel = np.vstack([vv for _, vv in demos])
    n_samples = len(pos)
    discard_unless(n_samples > 1)
    kind = case["learner"]
    kwargs = {}
    attractor = np.mean([pp[-1] for pp, _ in demos], axis=0)
    if case["attractor"] is not None and kind != "gpr":
        attractor = arr(case["attractor"])
        kwargs["attractor"] = attractor.copy()
    moving = np.linalg.norm(vel, axis=1) > 0
    discard_unless(np.all(np.linalg.norm(pos - attractor, axis=1)[moving] > 1e-3))
    picked = None
    if kind != "gmm" and case["samples"] is not None:
        picked = min(case["samples"], n_samples)
        kwargs["n_samples"] = picked
    np.random.seed(case["seed"])
    learner = load(LEARNERS[kind], demos, **kwargs)
    require(close(learner.pos, pos, 1e-12) and close(learner.vel, vel, 1e-12), "Recording is not complete or in order")
    require(close(learner.pos_attractor, attractor, 1e-9), "Attractor", got=learner.pos_attractor, want=attractor)
    query = arr(case["query"])
    null = learner.null_ds.evaluate(query)
    require(
        np.linalg.norm(query - attractor) < 1e-6
        or (close(unit(null), unit(attractor - query), 1e-6)),
        "Reference dynamics do not lead to the attractor",
    )
    features = np.array(learner.X)
    if kind == "gmm":
        require(features.shape == (n_samples, 5), "Shape of the features", shape=features.shape)
        require(close(features[:, :2], pos, 1e-12), "Positions of the features")
        speeds = np.linalg.norm(vel, axis=1)
        if np.mean(speeds) > 1e-6:
            want = vel / np.maximum(np.mean(speeds), speeds)[:, None]
            require(close(features[:, 2:4], want, 1e-9), "Velocities of the features", got=features[:, 2:4])
        angles = features[:, 4]
        indices = list(range(n_samples))
    else:
        angles = np.array(learner.y)
        if picked is None:
            require(close(features, pos, 1e-12), "Positions of the features")
            indices = list(range(n_samples))
        else:
            require(features.shape == (picked, 2) and angles.shape == (picked,), "Number of samples")
            indices, free = [], list(range(n_samples))
            for row, value in zip(features, angles):
                # The same position may be recorded with different velocities
                match = [
                    ii
                    for ii in free
                    if close(pos[ii], row, 1e-12) and follows(pos[ii], vel[ii], attractor, value)
                ]
                require(match, "Sample is not part of the recording", row=row, angle=value)
                free.remove(match[0])
                indices.append(match[0])
    require(angles.shape == (len(indices),), "Number of directions")
    for ii, value in zip(indices, angles):
        require(
            follows(pos[ii], vel[ii], attractor, value),
            "Direction is not relative to the way to the attractor",
            angle=value,
            position=pos[ii],
            velocity=vel[ii],
        )
    return ["" if len(demos) > 1 else "trivial", kind]


def follows(position, velocity, attractor, value):
    if not np.linalg.norm(velocity):
        return abs(value) < 1e-9
    rel = attractor - position
    if angle_between(rel, velocity) > math.pi - 1e-3:
        return abs(abs(value) - math.pi) < 2e-3
    return close(get_angle_space_inverse(np.array([value]), null_direction=rel), unit(velocity), 1e-5)


# --- Mixture regression ------------------------------------------------------------------
@st.composite
def component(draw, n_feat, low=0.05):
    return {
        "mean": draw(vec(n_feat, -2.0, 2.0)),
        "factors": draw(st.lists(vec(n_feat, -1.0, 1.0), min_size=n_feat, max_size=n_feat)),
        "spread": draw(num(low, 1.0)),
        "weight": draw(num(0.05, 1.0)),
    }


def mixture(components):
    means = arr([item["mean"] for item in components])
    covariances = []
    for item in components:
        factor = arr(item["factors"])
        covariances.append(factor @ factor.T + item["spread"] * np.eye(len(factor)))
    weights = arr([item["weight"] for item in components])
    return types.SimpleNamespace(
        means_=means,
        covariances_=np.array(covariances),
        weights_=weights / np.sum(weights),
        covariance_type="full",
    )


@st.composite
def regress_case(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    n_feat = 3 * dim - 1
    n_pos = draw(st.integers(1, 5))
    return {
        "dim": dim,
        "components": [draw(component(n_feat)) for _ in range(draw(st.integers(1, 4)))],
        "attractor": draw(vec(dim, -3.0, 3.0)),
        "positions": draw(
            st.lists(st.one_of(vec(dim, -4.0, 4.0), vec(dim, -4.0, 4.0), vec(dim, -80.0, 80.0)), min_size=n_pos, max_size=n_pos)
        ),
        "velocities": draw(st.lists(vec(dim, -2.0, 2.0), min_size=n_pos, max_size=n_pos)),
        "power": draw(st.sampled_from([0.05, 0.05, 1.0, 0.3])),
        "mean": draw(vec(n_feat, -2.0, 2.0)),
        "scale": draw(st.lists(num(0.3, 3.0), min_size=n_feat, max_size=n_feat)),
        "direction": draw(nonzero_vec(dim)),
        "with_velocity": draw(st.booleans()),
    }


def create_learner(case):
    learner = DirectionalGMM(dim_space=case["dim"], beta_power=case["power"])
    learner.dpgmm = mixture(case["components"])
    learner.dim_gmm = learner.dpgmm.means_.shape[1]
    learner.pos_attractor = arr(case["attractor"])
    learner.null_ds = LinearSystem(attractor_position=arr(case["attractor"]))
    return learner


def conditional(gmm, index, row, feat_in, feat_out):
    """Mean and covariance of the output features, given the input features."""
    mean, cov = gmm.means_[index], gmm.covariances_[index]
    gain = np.linalg.solve(cov[np.ix_(feat_in, feat_in)], cov[np.ix_(feat_in, feat_out)]).T
    return (
        mean[feat_out] + gain @ (row - mean[feat_in]),
        cov[np.ix_(feat_out, feat_out)] - gain @ cov[np.ix_(feat_in, feat_out)],
    )


def densities(gmm, rows, feat_in):
    return np.array(
        [
            [multivariate_normal.pdf(row, mean[feat_in], cov[np.ix_(feat_in, feat_in)]) for row in rows]
            for mean, cov in zip(gmm.means_, gmm.covariances_)
        ]
    ).reshape(len(gmm.means_), len(rows))


def check_regress(case):
    dim = case["dim"]
    learner = create_learner(case)
    gmm = learner.dpgmm
    n_gauss, n_feat = gmm.means_.shape
    require(learner.n_components == n_gauss == learner.n_gaussians, "Number of components")
    attractor = arr(case["attractor"])
    rows = arr(case["positions"])
    feat_in, feat_out = np.arange(dim), np.arange(2 * dim, n_feat)
    if case["with_velocity"]:
        rows = np.hstack((rows, arr(case["velocities"])))
        feat_in = np.arange(2 * dim)
    given = rows.copy()
    limited = rows.copy()
    if case["with_velocity"]:
        # At most the crop velocity
        speed = np.maximum(np.linalg.norm(rows[:, dim:], axis=1), 1.0)
        limited[:, dim:] = rows[:, dim:] / speed[:, None]
    transformed = learner.transform_initial_to_normalized(rows, feat_in)
    require(close(transformed, limited, 1e-9), "Velocity is not limited, or positions are changed", got=transformed)
    require(close(rows, given, 0), "Input modified")

    density = learner.get_gaussian_probability(limited, feat_in=feat_in)
    want = densities(gmm, limited, feat_in)
    require(
        density.shape == want.shape and np.all(np.abs(density - want) <= 1e-6 * np.maximum(want, 1e-9)),
        "Not the density of the normal distribution",
        got=density,
        want=want,
    )
    shares = gmm.weights_[:, None] * want
    weights = learner.get_mixing_weights(limited, feat_in, feat_out)
    total = np.sum(weights, axis=0)
    require(np.all(weights >= 0) and np.all(total <= 1 + 1e-9), "Weights are not limited", weights=weights)
    usable = np.sum(shares, axis=0) > 1e-200
    for nn in np.nonzero(usable)[0]:
        share = shares[:, nn] / np.sum(shares[:, nn])
        require(
            close(weights[:, nn], share * total[nn], 1e-6 * total[nn]),
            "Weights are not proportional to prior times density",
            got=weights[:, nn],
            want=share,
        )
    if np.all(usable):
        normalized = learner.get_mixing_weights(limited, feat_in, feat_out, normalize_probability=True)
        require(close(normalized, shares / np.sum(shares, axis=0), 1e-6), "Normalised weights", got=normalized)
    with silent():
        means = learner.get_mean_yx(limited, feat_in, feat_out)
    covariances = learner.get_covariance_out(feat_in, feat_out)
    expected = np.zeros((len(rows), dim - 1))
    for gg in range(n_gauss):
        for nn, row in enumerate(limited):
            mean, cov = conditional(gmm, gg, row, feat_in, feat_out)
            scale = max(1.0, np.linalg.norm(mean))
            require(close(means[:, nn, gg], mean, 1e-6 * scale), "Conditional mean", got=means[:, nn, gg], want=mean)
            require(close(covariances[:, :, gg], cov, 1e-6), "Conditional covariance", got=covariances[:, :, gg])
            if usable[nn]:
                share = shares[gg, nn] / np.sum(shares[:, nn])
                expected[nn] += mean * share * total[nn] ** case["power"]
    # Regressed angle, whatever is evaluated together
    with silent():
        angles = learner._predict(rows)
        require(angles.shape == (len(rows), dim - 1), "Shape of the angles", shape=angles.shape)
        values = [learner.predict(row) for row in rows]
    for nn, value in enumerate(values):
        rel = attractor - rows[nn, :dim]
        require(is_vector(value, dim), "Not a velocity", value=value)
        if not np.linalg.norm(rel):
            require(close(value, np.zeros(dim), 0), "Moves at the attractor")
            continue
        require(abs(np.linalg.norm(value) - 1) < 1e-6, "Not a unit velocity", value=value)
        if np.linalg.norm(rel) < 1e-3:
            continue
        scale = 1e-5 * max(1.0, np.linalg.norm(expected[nn]))
        require(close(angles[nn], expected[nn], scale), "Regressed angle", got=angles[nn], want=expected[nn])
        turned = get_angle_space_inverse(expected[nn], null_direction=rel)
        require(close(value, turned, scale), "Velocity is not turned by the regressed angle", got=value, want=turned)
    if not case["with_velocity"] and np.all(np.linalg.norm(rows - attractor, axis=1) > 1e-3):
        with silent():
            together = learner.predict_array(rows.T)
        require(
            together.shape == (dim, len(rows)) and close(together.T, np.array(values), 1e-6),
            "Depends on the other positions",
            got=together.T,
            want=values,
        )
    require(close(rows, given, 0), "Input modified")
    # Convergence
    position = attractor + 1e-4 * unit(arr(case["direction"]))
    with silent():
        direct = learner.predict(position, convergence_attractor=True)
        learner.convergence_attractor = True
        stored = learner.predict(position)
    require(
        angle_between(direct, attractor - position) < 1e-3 * max(1.0, np.max(np.abs(gmm.means_)) * 10 / 0.05),
        "Does not converge to the attractor",
        got=direct,
    )
    require(close(direct, stored, 1e-9), "Stored convergence to the attractor is ignored", got=stored, want=direct)
    learner.convergence_attractor = False
    # Normalisation
    learner.mean_x, learner.scale_x = arr(case["mean"]), arr(case["scale"])
    dims = np.arange(dim)
    there = learner.transform_initial_to_normalized(rows[:, :dim], dims)
    require(close(there, (rows[:, :dim] - learner.mean_x[:dim]) / learner.scale_x[:dim], 1e-6), "Normalisation")
    back = learner.transform_normalized_to_initial(there, dims)
    require(close(back, rows[:, :dim], 1e-6), "Normalisation is not inverted", got=back)
    require(close(rows, given, 0), "Input modified")
    return ["" if n_gauss > 1 and len(rows) > 1 else "trivial"]


# --- Densities ---------------------------------------------------------------------------
@st.composite
def density_case(draw):
    dim = draw(st.integers(1, 4))
    n_in = draw(st.integers(1, dim))
    n_pos = draw(st.integers(1, 4))
    return {
        "components": [draw(component(dim, 0.1)) for _ in range(draw(st.integers(1, 3)))],
        "rows": draw(st.lists(vec(n_in, -3.0, 3.0), min_size=n_pos, max_size=n_pos)),
        "inputs": draw(st.permutations(range(dim)))[:n_in],
        "position": draw(vec(dim, -3.0, 3.0)),
    }


def check_density(case):
    gmm = mixture(case["components"])
    rows, inputs = arr(case["rows"]), list(case["inputs"])
    given = rows.copy()
    n_feat = gmm.means_.shape[1]
    outputs = [ii for ii in range(n_feat) if ii not in inputs]
    want = densities(gmm, rows, inputs)
    got = direction_space.get_gaussianProbability(rows, gmm, inputs)
    require(got.shape == want.shape and close(got, want, 1e-6 * max(1.0, np.max(want))), "Density", got=got, want=want)
    if np.all(np.sum(want, axis=0) > 1e-100):
        shares = gmm.weights_[:, None] * want
        got = direction_space.get_mixing_weights(rows, gmm, inputs)
        require(close(got, shares / np.sum(shares, axis=0), 1e-6), "Mixing weights", got=got)
    if outputs:
        means = direction_space.get_mean_yx(rows, gmm, inputs)
        for gg in range(len(gmm.means_)):
            for nn, row in enumerate(rows):
                mean, _ = conditional(gmm, gg, row, inputs, outputs)
                require(
                    close(means[:, nn, gg], mean, 1e-6 * max(1.0, np.linalg.norm(mean))), "Conditional mean", want=mean
                )
    position = arr(case["position"])
    gauss = MultiVariantGaussian(gmm.means_[0].copy(), gmm.covariances_[0].copy())
    other = MultiVariantGaussian(
        gmm.means_[0].copy(), gmm.covariances_[0].copy(), precision_cholesky=np.linalg.inv(gmm.covariances_[0])
    )
    require(gauss.dimension == n_feat, "Dimension")
    value = float(gauss.evaluate(position))
    pdf = multivariate_normal.pdf(position, gmm.means_[0], gmm.covariances_[0])
    require(abs(value - pdf) < 1e-8 * max(pdf, 1.0), "Density", got=value, want=pdf)
    slope = gauss.evaluate_derivative(position)
    require(slope.shape == (n_feat,), "Shape of the derivative")
    want = -pdf * np.linalg.solve(gmm.covariances_[0], position - gmm.means_[0])
    require(close(slope, want, 1e-6 * max(1.0, np.linalg.norm(want))), "Derivative", got=slope, want=want)
    require(
        abs(other.evaluate(position) - value) < 1e-8 and close(other.evaluate_derivative(position), slope, 1e-8),
        "Given inverse of the covariance",
    )
    require(close(rows, given, 0) and close(position, case["position"], 0), "Input modified")
    return ["" if len(gmm.means_) > 1 and outputs else "trivial"]


# --- Fit ---------------------------------------------------------------------------------
@st.composite
def fit_case(draw):
    return {
        "demos": draw(recording(t_min=4, t_max=8, n_min=2, n_max=3)),
        "learner": draw(st.sampled_from(sorted(LEARNERS))),
        "queries": draw(st.lists(vec(2), min_size=2, max_size=4)),
        "n_gauss": draw(st.integers(1, 3)),
        "length": draw(st.one_of(st.none(), vec(2, 0.5, 3.0))),
        "noise": draw(st.sampled_from([0.1, 0.5])),
        "seed": draw(st.integers(0, 1000)),
    }


def check_fit(case):
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import RBF, WhiteKernel
    from sklearn.svm import SVR

    demos = demonstrations(case)
    pos = np.vstack([pp for pp, _ in demos])
    attractor = np.mean([pp[-1] for pp, _ in demos], axis=0)
    queries = arr(case["queries"])
    discard_unless(np.all(np.linalg.norm(pos - attractor, axis=1) > 1e-2))
    discard_unless(np.all(np.linalg.norm(queries - attractor, axis=1) > 1e-2))
    kind = case["learner"]
    np.random.seed(case["seed"])
    learner = load(LEARNERS[kind], demos)
    with silent():
        if kind == "gmm":
            learner.fit(n_gaussian=case["n_gauss"])
            require(learner.n_components == case["n_gauss"], "Number of components")
            want = None
        elif kind == "svr":
            learner.fit()
            want = SVR(kernel="rbf", C=10, gamma=1, epsilon=0.1).fit(learner.X, learner.y).predict(queries)
        else:
            length = None if case["length"] is None else arr(case["length"])
            learner.fit(kernel_parameters=length, kernel_noise=case["noise"])
            kernel = RBF(np.ones(2) if length is None else length) + WhiteKernel(case["noise"])
            model = GaussianProcessRegressor(kernel=kernel).fit(learner.X, learner.y)
            want = model.predict(queries)
        values = [learner.predict(query) for query in queries]
        together = learner.predict_array(queries.T)
        rest = learner.predict(attractor.copy())
    require(close(learner.pos_attractor, attractor, 1e-9), "Attractor")
    require(np.linalg.norm(rest) < 1e-9 or np.linalg.norm(learner.pos_attractor - attractor) > 0, "Moves at the attractor")
    for ii, (query, value) in enumerate(zip(queries, values)):
        require(is_vector(value, 2) and abs(np.linalg.norm(value) - 1) < 1e-6, "Not a unit velocity", value=value)
        require(close(together[:, ii], value, 1e-6), "Depends on the other positions", got=together[:, ii])
        if want is not None:
            turned = get_angle_space_inverse(np.array([want[ii]]), null_direction=attractor - query)
            require(close(value, turned, 1e-4), "Not the direction of the regression", got=value, want=turned)
    return [kind]


# --- Integration ---------------------------------------------------------------------------
class Turned(Learner):
    """Turned from the way to the attractor by a constant angle."""

    def __init__(self, attractor, angle):
        super().__init__(null_ds=LinearSystem(attractor_position=attractor))
        self.dim = self.dim_space = 2
        self.pos_attractor = attractor
        self.angle = angle

    def fit(self):
        pass

    def _predict(self, xx):
        return np.full((xx.shape[0], 1), self.angle)


@st.composite
def integrate_case(draw):
    dim = draw(st.integers(1, 3))
    return {
        "matrix": draw(st.lists(vec(dim, -2.0, 2.0), min_size=dim, max_size=dim)),
        "start": draw(vec(dim)),
        "dt": draw(num(0.01, 0.5)),
        "factor": draw(st.sampled_from([1, 1, 0.5, 2.0])),
        "columns": draw(st.lists(vec(dim), min_size=1, max_size=4)),
        "gain": draw(num(0.1, 3.0)),
        "maximum": draw(num(0.1, 3.0)),
        "attractor": draw(vec(2, -2.0, 2.0)),
        "angle": draw(num(-1.2, 1.2)),
        "starts": draw(st.lists(vec(2, -3.0, 3.0), min_size=1, max_size=2)),
        "near": draw(st.booleans()),
        "step": draw(num(0.02, 0.2)),
        "margin": draw(num(0.01, 0.3)),
        "components": [draw(component(5)) for _ in range(2)],
        "from_data": draw(st.booleans()),
        "velocity": draw(st.booleans()),
    }


def check_integrate(case):
    matrix, start, dt, factor = arr(case["matrix"]), arr(case["start"]), case["dt"], case["factor"]
    want, term = start.copy(), start.copy()
    for order in range(1, 5):
        term = dt * factor * matrix @ term / order
        want = want + term
    given = start.copy()
    got = rk4(dt, start, lambda x: matrix @ x, k_f=factor)
    require(close(got, want, 1e-9 * max(1, np.linalg.norm(want))), "Step is not of fourth order", got=got, want=want)
    velocity = np.ones_like(start)
    dim = len(start)

    def dynamics(pos_vel):
        require(close(pos_vel[dim:], velocity, 0), "Given velocity")
        return matrix @ pos_vel[:dim]

    got, delta = rk4_pos_vel(dt, start, velocity, dynamics, k_f=factor)
    require(close(got, want, 1e-9 * max(1, np.linalg.norm(want))), "Step is not of fourth order", got=got, want=want)
    require(close(delta, want - start, 1e-9 * max(1, np.linalg.norm(want))), "Displacement")
    require(close(start, given, 0), "Input modified")
    columns = arr(case["columns"]).T
    got = mag_linear_maximum(columns, k=case["gain"], maxMag=case["maximum"])
    want = np.minimum(np.linalg.norm(columns, axis=0) * case["gain"], case["maximum"])
    require(close(got, want, 1e-9), "Limited magnitude", got=got, want=want)

    # Trajectories
    attractor, margin, step = arr(case["attractor"]), case["margin"], case["step"]
    starts = arr(case["starts"]).T
    if case["near"]:
        starts = attractor[:, None] + 0.2 * starts
    n_steps, n_traj = 25, starts.shape[1]
    data = np.empty((1, n_traj), dtype=object)
    for ii in range(n_traj):
        recorded = starts[:, ii] if case["from_data"] else starts[:, ii] + 1.5
        data[0, ii] = np.vstack((np.vstack((recorded, recorded + 1)).T, np.ones((2, 2))))
    learner = Turned(attractor, case["angle"])
    mixed = DirectionalGMM()
    mixed.dpgmm, mixed.dim_gmm = mixture(case["components"]), 5
    mixed.pos_attractor, mixed.null_ds = attractor, LinearSystem(attractor_position=attractor)
    learner.dataset = mixed.dataset = {"data": data}
    origin = {} if case["from_data"] else {"starting_points": starts.copy()}
    with silent():
        first = learner.integrate_trajectory(
            n_steps=n_steps, delta_t=step, convergence_margin=margin, n_trajectories=n_traj, **origin
        )
        second = mixed.integrate_trajectory(
            num_steps=n_steps,
            delta_t=step,
            nTraj=n_traj,
            convergence_err=margin,
            velocity_based=case["velocity"],
            **origin,
        )
    reached = False

    def velocity_input(position, before):
        """The state which is evaluated: with the velocity of the last step (if there is one)."""
        if before is None or not case["velocity"]:
            return position
        return np.hstack((position, (position - before) / step))

    for trajectories, follow, earliest in (
        (first, lambda x, _: rk4(step, x, learner.predict), 1),
        (second, lambda x, x0: x + step * mixed.predict(velocity_input(x, x0)), 2),
    ):
        require(trajectories.shape == (2, n_steps, n_traj), "Shape", shape=trajectories.shape)
        for ii in range(n_traj):
            path = trajectories[:, :, ii].T
            require(close(path[0], starts[:, ii], 1e-12), "Start of the trajectory", got=path[0])
            stopped = False
            for nn in range(1, n_steps):
                if stopped:
                    require(close(path[nn], path[nn - 1], 0), "Leaves the attractor", got=path[nn])
                    continue
                with silent():
                    want = follow(path[nn - 1], path[nn - 2] if nn > 1 else None)
                require(close(path[nn], want, 1e-6), "Step of the trajectory", got=path[nn], want=want)
                stopped = nn >= earliest and np.linalg.norm(path[nn] - attractor) < margin
            reached = reached or stopped
    return ["" if reached else "trivial"]


SUBS = [
    Sub("import", import_case(), check_import, quick=500, shards=2, thorough=10000),
    Sub("regress", regress_case(), check_regress, quick=500, shards=2, thorough=12000),
    Sub("density", density_case(), check_density, quick=600, thorough=12000),
    Sub("fit", fit_case(), check_fit, quick=60, thorough=1500),
    Sub("integrate", integrate_case(), check_integrate, quick=200, shards=2, thorough=5000),
]
