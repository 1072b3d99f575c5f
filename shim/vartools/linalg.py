import numpy as np
from numpy import linalg as LA


def cross2d(a, b):
    return a[0] * b[1] - a[1] * b[0]


def get_orthogonal_basis(vector, normalize=True):
    """Orthonormal (right-handed) basis, first column parallel to `vector`."""
    vector = np.array(vector, dtype=float)
    norm = LA.norm(vector)
    if norm:
        vector = vector / norm
    else:
        vector = np.zeros_like(vector)
        vector[0] = 1.0
    dim = vector.shape[0]
    basis = np.zeros((dim, dim))
    basis[:, 0] = vector
    if dim == 2:
        basis[:, 1] = [-vector[1], vector[0]]
    elif dim == 3:
        if vector[0] or vector[1]:
            second = np.array([-vector[1], vector[0], 0.0])
            basis[:, 1] = second / LA.norm(second)
        else:
            basis[:, 1] = [1.0, 0.0, 0.0]
        basis[:, 2] = np.cross(vector, basis[:, 1])
    else:
        # Householder reflection mapping e_0 to vector (last column flipped to
        # keep the basis right-handed)
        sign = -1.0 if vector[0] >= 0 else 1.0
        e0 = np.zeros(dim)
        e0[0] = sign
        u = vector - e0
        u = u / LA.norm(u)
        hh = np.eye(dim) - 2 * np.outer(u, u)
        # hh @ e0*sign = vector
        basis = hh.copy()
        basis[:, 0] = vector
        if LA.det(basis) < 0:
            basis[:, -1] *= -1
    return basis
