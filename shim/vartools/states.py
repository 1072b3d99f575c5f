from __future__ import annotations

from dataclasses import dataclass, field
from typing import Optional

import numpy as np
from numpy import linalg as LA
from scipy.spatial.transform import Rotation


def _copy_orientation(value):
    return value


class Pose:
    def __init__(self, position, orientation=None):
        self.position = np.array(position, dtype=float)
        if orientation is None and self.position.shape[0] == 2:
            orientation = 0.0
        self.orientation = orientation

    @classmethod
    def create_trivial(cls, dimension: int = 2):
        if dimension == 2:
            return cls(np.zeros(2), orientation=0.0)
        if dimension == 3:
            return cls(np.zeros(3), orientation=Rotation.from_quat([0, 0, 0, 1.0]))
        return cls(np.zeros(dimension), orientation=None)

    def __repr__(self):
        return f"Pose(position={self.position}, orientation={self.orientation})"

    @property
    def dimension(self) -> int:
        return self.position.shape[0]

    @property
    def rotation(self):
        return self.orientation

    @rotation.setter
    def rotation(self, value):
        self.orientation = value

    @property
    def rotation_matrix(self):
        if self.orientation is None:
            return np.eye(self.dimension)
        if isinstance(self.orientation, Rotation):
            return self.orientation.as_matrix()
        if self.dimension == 2:
            c, s = np.cos(self.orientation), np.sin(self.orientation)
            return np.array([[c, -s], [s, c]])
        if not self.orientation:
            return np.eye(self.dimension)
        raise NotImplementedError("Unsupported orientation.")

    # -- vectors -----------------------------------------------------------
    def _mat(self, direction, inverse):
        direction = np.array(direction, dtype=float)
        mat = self.rotation_matrix
        return (mat.T if inverse else mat) @ direction

    def transform_position_from_relative(self, position):
        out = self._mat(position, False)
        return (out.T + self.position).T

    def transform_position_to_relative(self, position):
        position = np.array(position, dtype=float)
        return self._mat((position.T - self.position).T, True)

    transform_positions_from_relative = transform_position_from_relative
    transform_positions_to_relative = transform_position_to_relative

    def transform_direction_from_relative(self, direction):
        return self._mat(direction, False)

    def transform_direction_to_relative(self, direction):
        return self._mat(direction, True)

    transform_directions_from_relative = transform_direction_from_relative
    transform_directions_to_relative = transform_direction_to_relative
    transform_linear_velocity_from_relative = transform_direction_from_relative
    transform_linear_velocity_to_relative = transform_direction_to_relative

    # -- orientations ------------------------------------------------------
    def transform_orientation_from_relative(self, orientation):
        if self.orientation is None:
            return orientation
        if orientation is None:
            return self.orientation
        if isinstance(self.orientation, Rotation) or isinstance(orientation, Rotation):
            return self._as_rot(self.orientation) * self._as_rot(orientation)
        return self.orientation + orientation

    def transform_orientation_to_relative(self, orientation):
        if self.orientation is None:
            return orientation
        if isinstance(self.orientation, Rotation) or isinstance(orientation, Rotation):
            return self._as_rot(self.orientation).inv() * self._as_rot(orientation)
        return (0.0 if orientation is None else orientation) - self.orientation

    @staticmethod
    def _as_rot(value):
        if isinstance(value, Rotation):
            return value
        return Rotation.from_quat([0, 0, 0, 1.0])

    # -- poses -------------------------------------------------------------
    def transform_pose_from_relative(self, pose):
        return type(self)(
            position=self.transform_position_from_relative(pose.position),
            orientation=self.transform_orientation_from_relative(pose.orientation),
        )

    def transform_pose_to_relative(self, pose):
        return type(self)(
            position=self.transform_position_to_relative(pose.position),
            orientation=self.transform_orientation_to_relative(pose.orientation),
        )


class ObjectPose(Pose):
    def __init__(self, position=None, orientation=None):
        super().__init__(position=position, orientation=orientation)


class Twist:
    def __init__(self, linear, angular=None):
        self.linear = np.array(linear, dtype=float)
        self.angular = angular

    @classmethod
    def create_trivial(cls, dimension: int = 2):
        return cls(linear=np.zeros(dimension))

    def __repr__(self):
        return f"Twist(linear={self.linear}, angular={self.angular})"
