import numpy as np
from scipy.spatial.transform import Rotation


class PositionFilter:
    """Very light low-pass; the first measurement is trusted completely."""

    def __init__(self, update_frequency=100.0, initial_position=None, **kwargs):
        self.update_frequency = update_frequency
        self._position = np.array(initial_position, dtype=float)
        self.velocity = np.zeros_like(self._position)

    @property
    def position(self):
        return self._position

    def run_once(self, position):
        position = np.array(position, dtype=float)
        self.velocity = (position - self._position) * self.update_frequency
        self._position = position
        return self._position


class SimpleOrientationFilter:
    def __init__(self, update_frequency=100.0, initial_orientation=None, **kwargs):
        self.update_frequency = update_frequency
        self._rotation = (
            Rotation.from_quat([0, 0, 0, 1.0])
            if initial_orientation is None
            else initial_orientation
        )

    @property
    def rotation(self):
        return self._rotation

    @property
    def orientation(self):
        return self._rotation

    def run_once(self, rotation):
        self._rotation = rotation
        return self._rotation
