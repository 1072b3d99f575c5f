"""Independent reference helpers of the oracles."""
import math

import numpy as np

from lib.pbt import Discard, Violation, require


def arr(values):
    return np.array(values, dtype=float)


def unit(vector):
    vector = arr(vector)
    norm = np.linalg.norm(vector)
    if not norm > 1e-12:
        raise Discard()
    return vector / norm


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def is_vector(value, dim):
    value = np.asarray(value, dtype=float)
    return value.shape == (dim,) and bool(np.all(np.isfinite(value)))


def angle_between(a, b):
    """Angle in [0, pi], accurate at both ends."""
    a, b = unit(a), unit(b)
    return 2 * math.atan2(np.linalg.norm(a - b), np.linalg.norm(a + b))


def rot2(angle):
    c, s = math.cos(angle), math.sin(angle)
    return np.array([[c, -s], [s, c]])


def plane_rotation(vec_from, vec_to, factor=1.0):
    """Matrix of the rotation in the plane of both vectors (not anti-parallel) by
    factor * angle, written with the exponential of the plane generator."""
    a, b = unit(vec_from), unit(vec_to)
    theta = angle_between(a, b)
    perp = b - a * np.dot(a, b)
    norm = np.linalg.norm(perp)
    dim = a.shape[0]
    if norm < 1e-13:
        return np.eye(dim)
    perp = perp / norm
    perp = perp - a * np.dot(a, perp)
    perp = perp / np.linalg.norm(perp)
    phi = theta * factor
    gen = np.outer(perp, a) - np.outer(a, perp)
    proj = np.outer(a, a) + np.outer(perp, perp)
    return np.eye(dim) + math.sin(phi) * gen + (math.cos(phi) - 1) * proj


def wrap(angle):
    return (angle + math.pi) % (2 * math.pi) - math.pi


def random_rotation(dim, angles):
    """Rotation matrix from a list of Givens angles."""
    mat = np.eye(dim)
    kk = 0
    for ii in range(dim):
        for jj in range(ii + 1, dim):
            g = np.eye(dim)
            a = angles[kk % len(angles)]
            g[ii, ii] = g[jj, jj] = math.cos(a)
            g[ii, jj], g[jj, ii] = -math.sin(a), math.sin(a)
            mat = mat @ g
            kk += 1
    return mat
