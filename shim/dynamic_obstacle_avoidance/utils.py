import numpy as np
from numpy import linalg as LA


def compute_weights(
    distMeas, N=0, distMeas_lowerLimit=1, weightType="inverseGamma", weightPow=2
):
    """Inverse-distance weights which sum up to one."""
    dist = np.array(distMeas, dtype=float)
    critical = dist <= distMeas_lowerLimit
    if np.any(critical):
        return critical / np.sum(critical)
    weights = (1.0 / (dist - distMeas_lowerLimit)) ** weightPow
    total = np.sum(weights)
    if not total:
        return weights
    return weights / total


def get_weight_from_inv_of_gamma(gamma_array, power_value=1.0):
    gammas = np.array(gamma_array, dtype=float)
    weights = np.ones_like(gammas)
    ind = gammas > 1
    weights[ind] = (1.0 / gammas[ind]) ** power_value
    return weights


def get_relative_obstacle_velocity(
    position,
    obstacle_list,
    E_orth,
    weights,
    gamma_list=None,
    ind_obstacles=None,
    **kwargs,
):
    """Weighted obstacle velocity; only the component that moves towards the agent
    is taken into account."""
    dimension = position.shape[0]
    if ind_obstacles is None:
        ind_obstacles = np.arange(len(obstacle_list))
    ind_obstacles = np.asarray(ind_obstacles)
    if ind_obstacles.dtype == bool:
        ind_obstacles = np.arange(len(obstacle_list))[ind_obstacles]
    velocity = np.zeros(dimension)
    for ii, it_obs in enumerate(ind_obstacles):
        obs = obstacle_list[it_obs]
        lin = getattr(obs, "linear_velocity", None)
        ang = getattr(obs, "angular_velocity", None)
        vel = np.zeros(dimension)
        if lin is not None:
            vel = vel + np.asarray(lin)
        if ang is not None and np.any(ang):
            rel = position - obs.center_position
            if dimension == 2:
                vel = vel + float(np.squeeze(ang)) * np.array([-rel[1], rel[0]])
            else:
                vel = vel + np.cross(ang, rel)
        if not np.any(vel):
            continue
        normal = E_orth[:, 0, ii]
        proj = np.dot(normal, vel)
        if proj > 0:
            velocity = velocity + weights[ii] * proj * normal
    return velocity
