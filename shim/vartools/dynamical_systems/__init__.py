import numpy as np
from numpy import linalg as LA

from vartools.dynamical_systems._base import DynamicalSystem, Dynamics
from vartools.dynamical_systems.linear import (
    LinearSystem,
    ConstantValue,
    LocallyRotated,
)


class CircularStable(DynamicalSystem):
    def __init__(self, radius=1.0, direction=1, factor_controler=1.0, **kwargs):
        super().__init__(**kwargs)
        self.radius = radius
        self.direction = direction
        self.factor_controler = factor_controler
        if self._attractor_position is None:
            self._attractor_position = np.zeros(self.dimension)

    def evaluate(self, position):
        rel = position - self.attractor_position
        if not (norm := LA.norm(rel)):
            return np.zeros(2)
        tang = self.direction * np.array([-rel[1], rel[0]]) / norm
        return self.limit_velocity(
            tang * self.radius + self.factor_controler * (self.radius - norm) * rel / norm
        )


class AxesFollowingDynamics(DynamicalSystem):
    def __init__(self, center_position=None, main_axis=0, **kwargs):
        if center_position is not None:
            kwargs["attractor_position"] = center_position
        super().__init__(**kwargs)
        self.main_axis = main_axis

    def evaluate(self, position):
        vel = -(position - self.attractor_position)
        vel[self.main_axis] = 1.0
        return self.limit_velocity(vel)


class QuadraticAxisConvergence(DynamicalSystem):
    def __init__(self, main_axis=0, conv_pow=2, stretching_factor=1.0, **kwargs):
        super().__init__(**kwargs)
        self.main_axis = main_axis
        self.conv_pow = conv_pow
        self.stretching_factor = stretching_factor

    def evaluate(self, position):
        rel = np.asarray(position, dtype=float) - self.attractor_position
        vel = -self.stretching_factor * np.copysign(np.abs(rel) ** self.conv_pow, rel)
        vel[self.main_axis] = -rel[self.main_axis]
        return self.limit_velocity(vel)


class BifurcationSpiral(LinearSystem):
    pass


class SpiralStable(LinearSystem):
    pass


class CircularLinear(LinearSystem):
    pass


class SinusAttractorSystem(LinearSystem):
    pass


class WavyRotatedDynamics(DynamicalSystem):
    def __init__(
        self, pose, maximum_velocity=1.0, rotation_frequency=1.0, rotation_power=1.2,
        max_rotation=0.4 * np.pi, **kwargs,
    ):
        super().__init__(
            pose=pose,
            attractor_position=pose.position,
            maximum_velocity=maximum_velocity,
        )
        self.rotation_frequency = rotation_frequency
        self.rotation_power = rotation_power
        self.max_rotation = max_rotation

    @property
    def attractor_position(self):
        return self.pose.position

    @attractor_position.setter
    def attractor_position(self, value):
        self.pose.position = value

    def evaluate(self, position):
        rel = self.pose.position - position
        if not (dist := LA.norm(rel)):
            return np.zeros_like(rel)
        ang = self.max_rotation * np.sin(
            (dist * self.rotation_frequency) ** (1.0 / self.rotation_power)
        )
        c, s = np.cos(ang), np.sin(ang)
        return self.limit_velocity(np.array([[c, -s], [s, c]]) @ rel)


def _noop(*args, **kwargs):
    return None


plot_dynamical_system = _noop
plot_dynamical_system_quiver = _noop
plot_dynamical_system_streamplot = _noop
