from __future__ import annotations

import numpy as np
from numpy import linalg as LA

from vartools.linalg import get_orthogonal_basis


def get_angle_from_vector(direction, base):
    """Angle-space coordinates of `direction` with respect to base[:, 0]."""
    direction = np.array(direction, dtype=float)
    norm = LA.norm(direction)
    if not norm:
        raise ValueError("Zero direction has no angle-space representation.")
    hat = np.asarray(base).T @ (direction / norm)
    rest = hat[1:]
    rest_norm = LA.norm(rest)
    angle = np.arctan2(rest_norm, hat[0])
    if not rest_norm:
        out = np.zeros(direction.shape[0] - 1)
        out[0] = angle
        return out
    return angle * rest / rest_norm


def get_vector_from_angle(angle, base):
    angle = np.array(angle, dtype=float)
    norm = LA.norm(angle)
    hat = np.zeros(angle.shape[0] + 1)
    hat[0] = np.cos(norm)
    if norm:
        hat[1:] = np.sin(norm) * angle / norm
    return np.asarray(base) @ hat


class UnitDirection:
    def __init__(self, base):
        self.base = np.array(base, dtype=float)
        if self.base.ndim == 1:
            self.base = get_orthogonal_basis(self.base)
        self._angle = None
        self._vector = None

    @property
    def null_direction(self):
        return self.base[:, 0]

    def from_angle(self, value):
        self._angle = np.array(value, dtype=float)
        self._vector = None
        return self

    def from_vector(self, value):
        self._vector = np.array(value, dtype=float)
        self._angle = None
        return self

    def as_angle(self):
        if self._angle is None:
            self._angle = get_angle_from_vector(self._vector, self.base)
        return self._angle

    def as_vector(self):
        if self._vector is None:
            self._vector = get_vector_from_angle(self._angle, self.base)
        return self._vector

    def norm(self):
        return LA.norm(self.as_angle())

    def get_distance_to(self, other):
        return LA.norm(self.as_angle() - other.as_angle())

    def transform_to_base(self, new_base):
        return UnitDirection(new_base).from_vector(self.as_vector())

    def invert_normal(self):
        base = self.base.copy()
        base[:, 0] = -base[:, 0]
        angle = self.as_angle()
        norm = LA.norm(angle)
        if norm:
            new = angle / norm * (np.pi - norm)
        else:
            new = np.zeros_like(angle)
            new[0] = np.pi
        return UnitDirection(base).from_angle(new)

    def _check(self, other):
        if isinstance(other, UnitDirection):
            return other.as_angle()
        return other

    def __add__(self, other):
        return UnitDirection(self.base).from_angle(self.as_angle() + self._check(other))

    def __sub__(self, other):
        return UnitDirection(self.base).from_angle(self.as_angle() - self._check(other))

    def __mul__(self, other):
        return UnitDirection(self.base).from_angle(self.as_angle() * other)

    __rmul__ = __mul__

    def __truediv__(self, other):
        return UnitDirection(self.base).from_angle(self.as_angle() / other)


def _base(null_direction, null_matrix):
    if null_matrix is None:
        return get_orthogonal_basis(null_direction)
    return np.asarray(null_matrix)


def get_angle_space(direction, null_direction=None, null_matrix=None, **kwargs):
    direction = np.array(direction, dtype=float)
    if not LA.norm(direction):
        return np.zeros(direction.shape[0] - 1)
    return get_angle_from_vector(direction, _base(null_direction, null_matrix))


def get_angle_space_inverse(
    dir_angle_space, null_direction=None, null_matrix=None, **kwargs
):
    return get_vector_from_angle(
        np.atleast_1d(dir_angle_space), _base(null_direction, null_matrix)
    )


def get_angle_space_of_array(
    directions, positions=None, func_vel_default=None, null_direction_abs=None, **kwargs
):
    directions = np.array(directions, dtype=float)
    dim, nn = directions.shape
    out = np.zeros((dim - 1, nn))
    for ii in range(nn):
        null = (
            null_direction_abs
            if func_vel_default is None
            else func_vel_default(positions[:, ii])
        )
        out[:, ii] = get_angle_space(directions[:, ii], null_direction=null)
    return out


def get_angle_space_inverse_of_array(
    vecs_angle_space, positions, func_vel_default=None, default_system=None, **kwargs
):
    nn = vecs_angle_space.shape[1]
    out = np.zeros(positions.shape)
    for ii in range(nn):
        null = (
            default_system.evaluate(positions[:, ii])
            if func_vel_default is None
            else func_vel_default(positions[:, ii])
        )
        out[:, ii] = get_angle_space_inverse(
            vecs_angle_space[:, ii], null_direction=null
        )
    return out


def get_directional_weighted_sum(
    null_direction,
    weights,
    directions,
    normalize=True,
    normalize_reference=True,
    total_weight=1,
    **kwargs,
):
    """Weighted mean of `directions` (columns) in the direction space around
    `null_direction`.  Zero directions and zero weights are ignored, the remaining
    weights are normalised to `total_weight`.  Returns a unit vector."""
    weights = np.array(weights, dtype=float)
    directions = np.array(directions, dtype=float)
    null_direction = np.array(null_direction, dtype=float)

    norms = LA.norm(directions, axis=0)
    ind = np.logical_and(weights > 0, norms > 0)
    null_norm = LA.norm(null_direction)
    if not null_norm:
        raise ValueError("Zero null-direction is not allowed.")
    null_direction = null_direction / null_norm
    if not np.any(ind):
        return null_direction
    weights = weights[ind] / np.sum(weights[ind]) * total_weight
    directions = directions[:, ind] / norms[ind]
    if weights.shape[0] == 1 and weights[0] >= 1:
        return directions[:, 0]

    base = get_orthogonal_basis(null_direction)
    angle = np.zeros(null_direction.shape[0] - 1)
    for ii in range(weights.shape[0]):
        angle = angle + weights[ii] * get_angle_from_vector(directions[:, ii], base)
    return get_vector_from_angle(angle, base)


def get_directional_weighted_sum_from_unit_directions(
    base, weights, unit_directions, **kwargs
):
    weights = np.array(weights, dtype=float)
    angle = 0.0
    for ww, direction in zip(weights, unit_directions):
        angle = angle + ww * direction.as_angle()
    return UnitDirection(base).from_angle(angle)


def fast_directional_vector_addition(vector1, vector2, weight):
    return get_directional_weighted_sum(
        vector1, np.array([1 - weight, weight]), np.vstack((vector1, vector2)).T
    )
