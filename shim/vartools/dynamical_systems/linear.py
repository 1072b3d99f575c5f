import numpy as np
from numpy import linalg as LA

from vartools.dynamical_systems._base import DynamicalSystem
from vartools.directional_space import (
    get_angle_space,
    get_angle_space_inverse,
)


class LinearSystem(DynamicalSystem):
    """velocity = A (position - attractor), A = -I by default."""

    def __init__(
        self,
        attractor_position=None,
        dimension=None,
        A_matrix=None,
        maximum_velocity=None,
        distance_decrease=None,
        scaling_factor=1.0,
        **kwargs,
    ):
        if attractor_position is None:
            dimension = 2 if dimension is None else dimension
            attractor_position = np.zeros(dimension)
        super().__init__(
            attractor_position=attractor_position, maximum_velocity=maximum_velocity
        )
        self.A_matrix = (
            -scaling_factor * np.eye(self.dimension) if A_matrix is None else np.array(A_matrix)
        )
        self.distance_decrease = distance_decrease

    def evaluate(self, position, max_vel=None):
        velocity = self.A_matrix @ (np.asarray(position) - self.attractor_position)
        if self.distance_decrease and self.maximum_velocity:
            dist = LA.norm(position - self.attractor_position)
            if not (mag := LA.norm(velocity)):
                return velocity
            fac = self.maximum_velocity
            if dist < self.distance_decrease:
                fac = fac * dist / self.distance_decrease
            return velocity / mag * fac
        return self.limit_velocity(velocity, max_vel)


class ConstantValue(DynamicalSystem):
    def __init__(self, velocity, **kwargs):
        velocity = np.array(velocity, dtype=float)
        super().__init__(dimension=velocity.shape[0], **kwargs)
        self._attractor_position = None
        self.constant_velocity = velocity
        self.velocity = velocity

    def evaluate(self, position):
        return np.copy(self.constant_velocity)


class LocallyRotated(DynamicalSystem):
    """Linear dynamics which is rotated around `influence_pose`."""

    def __init__(
        self,
        max_rotation=None,
        mean_rotation=None,
        influence_pose=None,
        influence_radius=1.0,
        attractor_position=None,
        maximum_velocity=None,
        **kwargs,
    ):
        super().__init__(
            attractor_position=attractor_position, maximum_velocity=maximum_velocity
        )
        self.max_rotation = np.atleast_1d(
            mean_rotation if max_rotation is None else max_rotation
        )
        self.influence_pose = influence_pose
        self.influence_radius = influence_radius

    def evaluate(self, position):
        velocity = self.attractor_position - position
        if not (norm := LA.norm(velocity)):
            return velocity
        dist = LA.norm(position - self.influence_pose.position)
        weight = np.exp(-((dist / self.influence_radius) ** 2))
        direction = get_angle_space_inverse(
            self.max_rotation * weight, null_direction=velocity
        )
        return self.limit_velocity(direction * norm)
