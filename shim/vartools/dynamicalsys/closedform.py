import numpy as np


def evaluate_linear_dynamical_system(
    position, center_position=None, A_matrix=None, max_vel=None
):
    position = np.asarray(position, dtype=float)
    if center_position is None:
        center_position = np.zeros(position.shape[0])
    return -(position.T - center_position).T
